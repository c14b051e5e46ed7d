"""
Relations between networks, against sets of addresses.
"""
from vlib import build, drv, gen, model
from vlib.check import Check
from vlib.drv import hexaddr
from vlib.model import V4BASE, MAX


def key(n):
	return (n[0], n[1])


def case(c, binary, i):
	rng = c.rng(i)
	s = drv.Script()
	fam = rng.choice([4, 6])
	base = gen.base4(rng) if fam == 4 else (rng.choice([gen.base6(rng), 0, rng.getrandbits(128)]))
	lo = 96 if fam == 4 else 0
	nets = []
	while len(nets) < 60:
		k = rng.random()
		q = rng.randrange(lo, 129)
		if k < 0.5:
			a = base ^ (rng.getrandbits(128 - q) << rng.randrange(0, 3) if q < 128 else 0)
		elif k < 0.8 and nets:
			o = rng.choice(nets)
			a = rng.choice([o[0], model.last(o), o[0] - 1, model.last(o) + 1])
			q = max(lo, min(128, o[1] + rng.choice([-1, 0, 1, 1, 2, 8])))
		elif k < 0.9:
			a, q = rng.choice([0, MAX, V4BASE, model.V4LAST]), rng.choice([lo, lo + 1, 128])
		else:
			a = rng.getrandbits(128)
		a &= MAX
		if fam == 4:
			a = V4BASE | (a & 0xffffffff)
		n = model.make(a, q)
		if fam == 6 and (model.is_v4(n) or model.addr_is_v4(a)):
			continue
		nets.append(n)
	# A few of the other family
	other = [(V4BASE + (rng.getrandbits(8) << 24), 104) if fam == 6 else model.make(gen.base6(rng), rng.randrange(16, 129)) for _ in range(4)]
	nets += other
	for k, n in enumerate(nets):
		s.add("nb", k, hexaddr(n[0]), n[1] - (96 if model.is_v4(n) else 0), check=lambda out: None if out.split()[0] == "0" else "network was refused")
	pairs = [(rng.randrange(len(nets)), rng.randrange(len(nets))) for _ in range(c.scale(900, 2500))]
	for x, y in pairs:
		a, b = nets[x], nets[y]

		def rel(out, a=a, b=b):
			cmp, overlaps, subnet = map(int, out.split())
			same = model.family(a) == model.family(b)
			la, lb = model.last(a), model.last(b)
			want = (key(a) > key(b)) - (key(a) < key(b))
			if cmp != want and (same or want == 0 or cmp == 0):
				return "comparison is wrong"
			if not same and (model.touches_v4(a) or model.touches_v4(b)):
				return None
			if overlaps != int(a[0] <= lb and b[0] <= la):
				return "overlap is wrong"
			if subnet != int(a[0] <= b[0] and lb <= la):
				return "subnet is wrong"
			c.count(("rel", a, b) if overlaps or a[0] == lb + 1 or b[0] == la + 1 else None)
			c.bump("overlapping" if overlaps else "disjoint")
		s.add("nrel", x, y, check=rel)
	for _ in range(c.scale(500, 1500)):
		x = rng.randrange(len(nets))
		n = nets[x]
		f, l = n[0], model.last(n)
		a = rng.choice([f, l, f - 1, l + 1, rng.randrange(f, l + 1), rng.getrandbits(128), V4BASE + rng.getrandbits(32)])
		if not 0 <= a <= MAX:
			continue

		def match(out, n=n, a=a):
			if not model.same_family(n, a) and model.touches_v4(n):
				return None
			want = n[0] <= a <= model.last(n)
			c.count(("match", n, a))
			if bool(int(out)) != want:
				return "containment of an address is wrong"
		s.add("nmatch", x, hexaddr(a), check=match)
	if i == 0:
		c.sample([model.text(n) for n in nets[:20]])
	c.run_script(binary, s)


def main():
	c = Check("C14", rule="pairs of nested, equal, adjacent, and unrelated networks and addresses at their edges, judged as sets of addresses; non-trivial: overlapping or adjacent pairs, address tests")
	binary = build.driver("asan")
	c.parallel(lambda i: case(c, binary, i), range(c.scale(180, 1500)))
	return c.finish()
