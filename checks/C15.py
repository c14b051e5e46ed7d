"""
Halves, exclusion of networks and of lists of networks.
"""
from vlib import build, drv, gen, model
from vlib.check import Check
from vlib.drv import h, hexaddr, parse_net, split_items
from vlib.model import V4BASE, MAX


def add(s, slot, n, p):
	s.add("nb", slot, hexaddr(n[0]), n[1] - (96 if model.is_v4(n) else 0), check=lambda out: None if out.split()[0] == "0" else "network was refused")
	s.add("nsetcc", slot, h(p.cc or None))
	s.add("nsetasn", slot, p.asn)
	s.add("nsetflag", slot, p.flags)


def judge(c, net, p, excluded, tag):
	def fn(out):
		head, items = split_items(out)
		if head[0] != "ok":
			return "%s failed" % tag
		nets = [parse_net(t) for t in items]
		at = None
		got = []
		for n in nets:
			if (n.cc or "", n.asn, n.flags) != tuple(p):
				return "%s loses properties" % tag
			if at is not None and n.first <= at:
				return "%s returns overlapping or unsorted networks" % tag
			at = n.last
			got.append((n.first, n.last))
		lo, hi = net[0], model.last(net)
		cut = model.union([(max(lo, e[0]), min(hi, model.last(e))) for e in excluded if e[0] <= hi and model.last(e) >= lo])
		want, x = [], lo
		for a, b in cut:
			if a > x:
				want.append((x, a - 1))
			x = b + 1
		if x <= hi:
			want.append((x, hi))
		c.count((tag, net, tuple(excluded)) if len(nets) > 1 else None)
		c.bump("%s_networks" % tag.split()[0], len(nets))
		if model.union(got) != want:
			return "%s does not return exactly the remaining addresses" % tag
	return fn


def network(rng):
	fam = rng.choice([4, 6])
	if fam == 4:
		n = model.make(gen.base4(rng), rng.choice([96, 97, 104, 112, 120, 126, 127, 128, rng.randrange(96, 129)]))
	else:
		n = model.make(gen.base6(rng), rng.choice([16, 32, 48, 64, 112, 126, 127, 128, rng.randrange(8, 129)]))
	return n if not model.touches_v4(n) else (1 << 127, 8)


def inside(rng, net, spread=128):
	q = rng.randrange(net[1], min(128, net[1] + spread) + 1)
	host = 128 - net[1]
	r = rng.random()
	off = 0 if r < 0.2 else (1 << host) - 1 if r < 0.4 else rng.getrandbits(host) if host else 0
	return model.make(net[0] + off, q)


def case(c, binary, i):
	rng = c.rng(i)
	s = drv.Script()
	for _ in range(c.scale(40, 60)):
		net, p = network(rng), gen.props(rng)
		add(s, 0, net, p)

		def halves(out, net=net, p=p):
			head, items = split_items(out)
			if net[1] == 128:
				return "a single address was split" if head[0] == "0" else None
			if head[0] != "0" or len(items) != 2:
				return "a network could not be split"
			a, b = map(parse_net, items)
			for n in (a, b):
				if n.prefix + (96 if n.family == 4 else 0) != net[1] + 1 or n.family != model.family(net):
					return "halves have the wrong prefix"
				if (n.cc or "", n.asn, n.flags) != tuple(p):
					return "halves lose properties"
			if not (a.first == net[0] and a.last + 1 == b.first and b.last == model.last(net)):
				return "halves are not a partition"
			c.count(("halves", net, p))
		s.add("nsub", 0, 1, 2, check=halves)

		other = inside(rng, net)
		if other != net:
			add(s, 3, other, gen.props(rng))
			s.add("nexcl", 0, 3, 0, check=judge(c, net, p, [other], "excluding one network"))

		# Lists, with at least one proper subnet
		ex = []
		for _ in range(rng.choice([1, 2, 3, 6, 20])):
			r = rng.random()
			if r < 0.8:
				ex.append(inside(rng, net, spread=rng.choice([3, 8, 128])))
			elif r < 0.9 and ex:
				e = rng.choice(ex)
				ex.append(inside(rng, e, 4))
			elif ex and rng.random() < 0.7:
				# The neighbour of one of them
				e = rng.choice(ex)
				a = model.last(e) + 1
				if a <= model.last(net):
					ex.append(model.make(a, e[1]))
			else:
				# Unrelated
				o = network(rng)
				if model.family(o) == model.family(net) and not model.is_subnet(o, net):
					ex.append(o)
		if rng.random() < 0.1:
			# Everything
			ex.append(model.make(net[0], max(net[1] - rng.randrange(0, 3), 96 if model.is_v4(net) else 8)))
		if not any(e != net and model.is_subnet(net, e) for e in ex):
			continue
		if any(model.touches_v4(e) for e in ex):
			continue
		s.add("ll", 5)
		for e in ex:
			add(s, 4, e, gen.props(rng))
			s.add("lpush", 5, 4)
		s.add("nexcll", 0, 5, 6, check=judge(c, net, p, ex, "excluding a list"))
	if i == 0:
		c.sample(s.lines[-12:])
	c.run_script(binary, s)


def main():
	c = Check("C15", rule="random networks are halved; random subnets at both ends and inside, nested, duplicate, adjacent and unrelated ones are excluded; the result is compared as a set of addresses; "
		"non-trivial: halves, and results with more than one network",
		assumptions=["what excluding returns if nothing in the list is a proper subnet is not specified"])
	binary = build.driver("asan")
	c.parallel(lambda i: case(c, binary, i), range(c.scale(400, 3000)))
	return c.finish()
