"""
Parsing and printing of addresses and networks.
"""
import os
import re
import socket

from vlib import build, dbs, drv, gen, model
from vlib.check import Check
from vlib.drv import h, hexaddr, parse_net
from vlib.model import MAX, V4BASE, Props

MAPPED = re.compile(r"^[0:]*:(?i:ffff):")


def parse(s):
	"""(address, family) of a plain address or None; the C library is the reference for addresses"""
	if "\0" in s:
		return None
	try:
		return int.from_bytes(socket.inet_pton(socket.AF_INET6, s), "big"), 6
	except (OSError, UnicodeError, ValueError):
		pass
	try:
		return V4BASE + int.from_bytes(socket.inet_pton(socket.AF_INET, s), "big"), 4
	except (OSError, UnicodeError, ValueError):
		return None


def expect(s):
	"""Network (first, raw prefix), None if it is to be rejected, or "any" if that is left open"""
	if s is None:
		return None
	a, slash, p = s.partition("/")
	r = parse(a)
	if r is None:
		return None
	addr, fam = r
	if fam == 6 and model.addr_is_v4(addr):
		return "any"  # IPv4-mapped spellings
	bits = 32 if fam == 4 else 128
	if not slash:
		p = str(bits)
	if not re.fullmatch(r"[0-9]+", p, re.A):
		return None
	if len(p) > 1 and p[0] == "0" and int(p) <= bits:
		return "any"  # leading zeroes
	if int(p) > bits:
		return None
	return model.make(addr, int(p) + (96 if fam == 4 else 0))


def spell6(rng, a):
	groups = ["%x" % (a >> (112 - 16 * i) & 0xffff) for i in range(8)]
	k = rng.random()
	if k < 0.3:
		return socket.inet_ntop(socket.AF_INET6, a.to_bytes(16, "big"))
	if k < 0.5:
		return ":".join(g.zfill(4) for g in groups)
	if k < 0.6:
		return ":".join(groups).upper()
	if k < 0.75:
		v4 = socket.inet_ntop(socket.AF_INET, (a & 0xffffffff).to_bytes(4, "big"))
		return ":".join(g.zfill(rng.choice([1, 4])) for g in groups[:6]) + ":" + v4
	i = rng.randrange(0, 8)
	j = i
	while j < 8 and groups[j] == "0":
		j += 1
	if j > i:
		return ":".join(groups[:i]) + "::" + ":".join(groups[j:])
	return ":".join(groups)


def address6(rng):
	k = rng.random()
	if k < 0.3:
		return rng.getrandbits(128)
	if k < 0.6:
		a = 0
		for _ in range(rng.randrange(0, 5)):
			a |= rng.choice([0xffff, 1, 0x8000, rng.getrandbits(16)]) << (16 * rng.randrange(8))
		return a
	return rng.choice([0, 1, MAX, MAX - 1, 1 << 127, 0x20010db8 << 96, rng.getrandbits(32), rng.getrandbits(48)])


def string(rng):
	fam = rng.choice([4, 6])
	a = rng.choice([rng.getrandbits(32), 0, 0xffffffff, 0x0a000000, rng.getrandbits(8) << 24]) if fam == 4 else address6(rng)
	s = socket.inet_ntop(socket.AF_INET, a.to_bytes(4, "big")) if fam == 4 else spell6(rng, a)
	k = rng.random()
	bits = 32 if fam == 4 else 128
	if k < 0.5:
		s += "/%d" % rng.randrange(bits + 1)
	elif k < 0.58:
		s += "/%s" % rng.choice([0, bits, bits + 1, 33, 128, 129, 255, 256, 300, 1 << 31, (1 << 31) + 24, 1 << 32, (1 << 32) + 8, (1 << 32) + bits, (1 << 64) + 8,
			(1 << 64) - 1, "9" * 30])
	elif k < 0.72:
		s += "/" + rng.choice(["", " ", "a", "24a", "24 ", " 24", "+24", "-1", "-0", "0x10", "1e1", "24/24", "/", "24.0", "24\n", "\t8", "２４", "255.255.255.0", "8,", "%d"])
	k = rng.random()
	if k < 0.25:
		# damage it somewhere
		i = rng.randrange(len(s) + 1)
		s = rng.choice([s[:i] + s[i + 1:], s[:i] + rng.choice("0123456789abcdefABCDEFgG:./ %-x\n") + s[i:], s[:i], s[i:], s + s, s + " ", " " + s,
			s + "x" * rng.choice([1, 30, 100, 1000]), s + rng.choice(["%eth0", "#", ",", "\0"]).replace("\0", "")])
	return s


FIXED = ["", "/", "/24", " ", ":", "::", ":::", "::/0", "0.0.0.0/0", "1.2.3", "1.2.3.4.5", "1.2.3.256", "01.2.3.4", "0x1.2.3.4", "1", "localhost", "::1/129", "::/128",
	"ffff:ffff:ffff:ffff:ffff:ffff:255.255.255.255/128", "ffff:ffff:ffff:ffff:ffff:ffff:255.255.255.255/12", "1:2:3:4:5:6:7:8:9", "1::2::3", "2001:db8::/32",
	"255.255.255.255/32", "255.255.255.255/33", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff/128", "fe80::1%lo", "[::1]", "::1]", "12345::", "a" * 5000, "1.2.3.4/" + "0" * 100 + "x"]

# The longest spelling, followed by anything: nothing may be cut off silently
LONGEST = "ffff:ffff:ffff:ffff:ffff:ffff:255.255.255.255"
FIXED += [LONGEST + "/" + x for x in ("1280", "128x", "128/", "128 ", "12800", "128" + "0" * 20, "64", "8x", "8" + "x" * 20)]
FIXED += [LONGEST + x * n for x in "05x./ " for n in range(1, 12)] + [LONGEST[:-n] + "/128" + "0" * n for n in range(1, 8)]


def judge(c, s, want):
	def fn(out):
		t = out.split()
		accepted = t[0] == "0"
		if want == "any":
			return None
		c.count(("parse", s))
		c.bump("accepted" if accepted else "rejected")
		if want is None:
			if accepted:
				return "accepted an invalid network"
			return None if t[1] == "22" else "an invalid network has not been reported as such (errno is not EINVAL)"
		if not accepted:
			return "rejected a valid network"
		n = parse_net(t[2:])
		if (n.first, n.last) != (want[0], model.last(want)):
			return "the network has the wrong addresses"
		if n.family != model.family(want) or n.prefix != want[1] - (96 if model.is_v4(want) else 0):
			return "the network has the wrong prefix or family"
		if n.text != model.text(want):
			return "the network is not printed canonically"
		if (n.cc or "", n.asn, n.flags) != ("", 0, 0):
			return "a new network has properties"
	return fn


def case(c, binary, i):
	rng = c.rng(i)
	s = drv.Script()
	strings = FIXED if i == 0 else [string(rng) for _ in range(c.scale(1500, 4000))]
	if i == 0:
		s.add("nn", 0, "-", check=lambda out: "accepted NULL" if out.split()[0] == "0" else None)
	path = os.path.join(c.scratch, "%d.db" % i)
	everything = {(V4BASE, 96): Props("DE", 1, 0), (1 << 127, 1): Props("FR", 2, 0), (1 << 126, 2): Props("GB", 3, 0)}
	dbs.write(s, rng, everything, path)
	for x in strings:
		want = expect(x)
		s.add("nn", 1, h(x), check=judge(c, x, want))
		if want not in (None, "any"):
			# What was printed parses back to the same
			s.add("nn", 2, h(model.text(want)), check=judge(c, model.text(want), want))

			def formatted(out, want=want):
				t = out.split()
				if t[-2:] != [model.addr_text(want[0]), model.addr_text(model.last(want))]:
					return "first or last address are not printed canonically"
			s.add("nget", 2, check=formatted)
		if "/" not in x:
			p = parse(x)

			def looked_up(out, p=p, x=x):
				t = out.split()
				if p is None:
					return "a lookup accepted an invalid address" if t[0] == "0" else None
				if t[0] != "0":
					return "a lookup refused a valid address"
				a = p[0]
				covered = [n for n in everything if model.contains(n, a)]
				if bool(covered) != (len(t) > 1):
					return "a lookup used another address than the given one"
				c.count(("lookup", x))
			s.add("dls", 0, h(x), check=looked_up)
	# From an address and a prefix
	for _ in range(400):
		fam = rng.choice([4, 6])
		a = V4BASE + rng.getrandbits(32) if fam == 4 else address6(rng)
		fam = 4 if model.addr_is_v4(a) else 6
		bits = 32 if fam == 4 else 128
		p = rng.choice([rng.randrange(bits + 1), rng.randrange(bits + 1), rng.randrange(bits + 1), bits + 1, 129, 4294967295, 4294967200])
		want = model.make(a, p + (96 if fam == 4 else 0)) if p <= bits else None
		s.add("nb", 3, hexaddr(a), p, check=judge(c, "%x/%d" % (a, p), want))
	if i == 1:
		c.sample(strings[:20])
	c.run_script(binary, s)
	dbs.cleanup(path)


def main():
	c = Check("C13", rule="valid spellings of random networks (all IPv6 notations), out of range and malformed prefixes, and damaged strings are parsed, judged against inet_pton and the "
		"definition, printed and parsed again; distinct strings are counted",
		assumptions=["inet_pton/inet_ntop of the C library define addresses; IPv4-mapped spellings and leading zeroes of prefixes are left open"])
	binary = build.driver("asan")
	c.parallel(lambda i: case(c, binary, i), range(c.scale(72, 600)))
	return c.finish()
