"""
Reverse pointers against the definition.
"""
from vlib import build, drv, gen, model
from vlib.check import Check
from vlib.drv import h, unh, hexaddr
from vlib.model import V4BASE, MAX


def expect(net, suffix):
	if model.is_v4(net):
		p = net[1] - 96
		if p % 8:
			return None
		labels = [str(b) for b in (net[0] & 0xffffffff).to_bytes(4, "big")][:p // 8]
		suffix = "in-addr.arpa." if suffix is None else suffix
		host = p == 32
	else:
		p = net[1]
		if p % 4:
			return None
		labels = list("%032x" % net[0])[:p // 4]
		suffix = "ip6.arpa." if suffix is None else suffix
		host = p == 128
	return "".join(l + "." for l in (([] if host else ["*"]) + labels[::-1])) + suffix


def case(c, binary, i):
	rng = c.rng(i)
	s = drv.Script()
	for k in range(c.scale(400, 1500)):
		fam = rng.choice([4, 6])
		if i == 0 and k < 162:
			# every prefix of both families
			net = model.make(V4BASE + rng.getrandbits(32), 96 + k) if k < 33 else model.make(0x20010db8 << 96 | rng.getrandbits(96), k - 33)
		elif fam == 4:
			net = model.make(V4BASE + rng.choice([rng.getrandbits(32), 0, 0xffffffff, 0x01020304]), rng.choice([96, 104, 112, 120, 128, rng.randrange(96, 129)]))
		else:
			net = model.make(rng.choice([rng.getrandbits(128), MAX, 1, 0x0123456789abcdef0123456789abcdef]), rng.choice([4 * rng.randrange(33), 128, rng.randrange(129)]))
		if not model.is_v4(net) and model.addr_is_v4(net[0]):
			continue
		suffix = rng.choice([None, None, "", "dnsbl.example.com", "x", "%s.%d", "a" * 300, "example.org."])
		s.add("nb", 0, hexaddr(net[0]), net[1] - (96 if model.is_v4(net) else 0), check=lambda out: None if out.split()[0] == "0" else "network was refused")

		def fn(out, net=net, suffix=suffix):
			t = out.split()
			got = unh(t[1])
			want = expect(net, suffix)
			c.count((net, suffix))
			c.bump("refused" if want is None else "names")
			if got != want:
				return "wrong reverse pointer" if want is not None and got is not None else "a reverse pointer was refused or invented"
		s.add("nrev", 0, h(suffix), check=fn)
		if k == 3:
			c.sample([model.text(net), suffix, expect(net, suffix)])
	c.run_script(binary, s)


def main():
	c = Check("C17", rule="every prefix length of both families and random networks and suffixes; distinct (network, suffix) pairs are counted")
	binary = build.driver("asan")
	c.parallel(lambda i: case(c, binary, i), range(c.scale(100, 800)))
	return c.finish()
