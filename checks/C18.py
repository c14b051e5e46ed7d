"""
Country codes and special codes, in every place where they are interpreted.
"""
import itertools
import os
import string

from vlib import build, dbs, drv, gen, model
from vlib.check import Check
from vlib.drv import h, hexaddr, parse_net, unh
from vlib.model import Props

SPECIAL = {"A1": 1, "A2": 2, "A3": 4, "XD": 8}


def valid(cc):
	return cc is not None and len(cc) == 2 and all("A" <= x <= "Z" for x in cc) and cc[0] != "X"


def codes(rng, n):
	out = [None, "", "A", "AAA", "DEU", "de", "dE", "De", "A1", "A2", "A3", "A4", "A0", "XD", "XA", "XX", "DX", "Xd", "a1", "A1x", "XDX", "A1 ", " A", "1A", "A\n", "@A", "A[", "Z`", "ÄÖ", "é",
		"D", "DE ", "DE\t", "T1", "EU", "AP", "ZZ", "AA", "A3A3", "X", "XDE", "A" * 100, "\x7fA", "A-"]
	for _ in range(n):
		k = rng.random()
		if k < 0.4:
			out.append("".join(rng.choice(string.ascii_uppercase) for _ in range(2)))
		elif k < 0.7:
			out.append("".join(chr(rng.randrange(1, 127)) for _ in range(2)))
		elif k < 0.85:
			out.append(rng.choice(list(SPECIAL)) + rng.choice(["", "", "A", "1", " "]))
		else:
			out.append("".join(chr(rng.randrange(32, 127)) for _ in range(rng.randrange(1, 5))))
	return out


def case(c, binary, i):
	rng = c.rng(i)
	s = drv.Script()
	if i == 0:
		# All pairs of bytes
		every = [bytes([a, b]) for a in range(1, 256) for b in range(1, 256)]
		for x in every:
			t = x.decode("latin-1")
			s.add("ccvalid", h(x), check=lambda out, t=t: None if out == "%d" % valid(t) else "validity of a code is wrong")
			s.add("ccflag", h(x), check=lambda out, t=t: None if out == "%d" % SPECIAL.get(t, 0) else "flag of a special code is wrong")
			c.count(t)
		c.run_script(binary, s)
		return
	for x in codes(rng, c.scale(150, 600)):
		s.add("ccvalid", h(x), check=lambda out, x=x: None if out == "%d" % valid(x) else "validity of a code is wrong")

		def flag(out, x=x):
			v = int(out)
			if not x:
				return None if v <= 0 else "no code is a flag"
			return None if v == SPECIAL.get(x, 0) else "flag of a special code is wrong"
		s.add("ccflag", h(x), check=flag)
		s.add("cn", 0, h(x), check=lambda out, x=x: None if (out == "0") == valid(x) else "a country was created from the wrong code")
		c.count(x)

	# Histories of a network
	s.add("nn", 0, h(rng.choice(["10.0.0.0/8", "2001:db8::/32"])))
	cc, asn, flags = "", 0, 0
	for _ in range(c.scale(300, 900)):
		k = rng.random()
		if k < 0.3:
			x = rng.choice(codes(rng, 4))
			good = not x or valid(x)
			s.add("nsetcc", 0, h(x), check=lambda out, good=good: None if (out == "0") == good else "setting a code was wrongly accepted or refused")
			if good:
				cc = x or ""
		elif k < 0.4:
			asn = rng.choice(gen.ASNS)
			s.add("nsetasn", 0, asn)
		elif k < 0.45:
			f = rng.choice([1, 2, 4, 8, 3, 12])
			s.add("nsetflag", 0, f)
			flags |= f
		elif k < 0.5:
			s.add("nn", 0, h(rng.choice(["10.0.0.0/8", "2001:db8::/32"])))
			cc, asn, flags = "", 0, 0
		elif k < 0.85:
			x = rng.choice([cc, cc, rng.choice(list(SPECIAL)), rng.choice(codes(rng, 4))])

			def match(out, x=x, cc=cc, flags=flags):
				got = int(out)
				if x in SPECIAL:
					want = bool(flags & SPECIAL[x])
				elif valid(x):
					want = cc == x
				else:
					return "an invalid code matches" if got == 1 else None
				c.count((x, cc, flags))
				c.bump("matches" if want else "mismatches")
				return None if got == int(want) else "a network matches the wrong code"
			s.add("nmatchcc", 0, h(x), check=match)
		else:
			def get(out, want=(cc, asn, flags)):
				n = parse_net(out.split()[1:])
				return None if (n.cc or "", n.asn, n.flags) == want else "properties affect each other"
			s.add("nget", 0, check=get)

	# What is stored and searched
	path = os.path.join(c.scratch, "%d.db" % i)
	s.add("wn", 0, "-", "-")
	want = {}
	for k, x in enumerate(rng.sample(codes(rng, 30), 40)):
		s.add("wctry", 0, 1, h(x), check=lambda out, x=x: None if (out.split()[0] == "0") == valid(x) else "a country with the wrong code was stored")
		net = "10.%d.0.0/16" % k
		s.add("wnet", 0, 2, h(net))
		s.add("nsetcc", 2, h(x))
		want[k] = x if valid(x) else ""
	s.add("wwrite", 0, h(path), 1, check=dbs.ok("could not write"))
	s.add("dopen", 0, h(path), check=dbs.ok("could not open"))
	for k, x in want.items():
		def look(out, x=x):
			t = out.split()
			return None if len(t) > 1 and (parse_net(t[1:]).cc or "") == x else "a stored code came back changed"
		s.add("dls", 0, h("10.%d.0.1" % k), check=look)
	for x in codes(rng, 10):
		def get(out, x=x):
			t = out.split()
			found = t[0] == "0" and len(t) > 1
			if found and unh(t[1]) != x:
				return "searching a code returned another country"
			return "an invalid code was found" if found and not valid(x) else None
		s.add("dc", 0, h(x), check=get)
	if i == 1:
		c.sample(s.lines[:12])
	c.run_script(binary, s)
	dbs.cleanup(path)


def main():
	c = Check("C18", rule="all pairs of bytes and random strings as codes; random histories of setting and matching properties of networks; databases with valid and invalid codes; "
		"distinct codes and (code, country, flags) matches are counted")
	binary = build.driver("asan")
	c.parallel(lambda i: case(c, binary, i), range(c.scale(160, 1200)))
	return c.finish()
