"""
Bogons are the complement of everything with a country code, family by family.
"""
import os

from checks.C03 import raw
from vlib import build, dbs, drv, gen, model
from vlib.check import Check
from vlib.drv import split_items
from vlib.model import MAX, V4BASE, V4LAST, Props


def edges(rng):
	"""Networks at the ends of the address space, neighbours and gaps of one address"""
	nets = {}
	p = gen.pool(rng, 3)

	def put(n):
		if not (model.touches_v4(n) and not model.is_v4(n)):
			nets[n] = rng.choice(p)
	for fam in rng.choice([(4,), (6,), (4, 6)]):
		lo, hi = (V4BASE, V4LAST) if fam == 4 else (0, MAX)
		floor = 96 if fam == 4 else 0
		if rng.random() < 0.4:
			put(model.make(lo, rng.choice([floor, 97, 104, 127, 128]) if fam == 4 else rng.choice([97, 104, 120, 128])))
		if rng.random() < 0.4:
			put(model.make(hi, rng.choice([97, 104, 127, 128]) if fam == 4 else rng.choice([1, 2, 8, 64, 127, 128])))
		at = (gen.base4(rng) if fam == 4 else gen.base6(rng))
		for _ in range(rng.randrange(0, 25)):
			q = rng.choice([128, 128, 127, 126, 120, rng.randrange(100, 129)])
			n = model.make(at, q)
			put(n)
			if rng.random() < 0.3:
				put(model.make(n[0] + rng.getrandbits(128 - q) if q < 128 else n[0], rng.randrange(q, 129)))
			# the next one: adjacent, after one address, or anywhere behind
			at = model.last(n) + 1 + rng.choice([0, 0, 1, 1, 2, 3, rng.getrandbits(rng.randrange(1, 20))])
			if at > hi:
				break
		if fam == 4 and rng.random() < 0.1:
			put((V4BASE, 97))
			put((V4BASE + (1 << 31), 97))
		if fam == 6 and rng.random() < 0.1:
			put((1 << 127, 1))
	return nets


def case(c, binary, i):
	rng = c.rng(i)
	s = drv.Script()
	path = os.path.join(c.scratch, "%s.db" % i)
	nets = edges(rng) if rng.random() < 0.7 else gen.networks(rng, small=True)
	if rng.random() < 0.6:
		# Mostly with countries
		nets = {n: (p._replace(cc=p.cc or "DE") if rng.random() < 0.9 else p) for n, p in nets.items()}
	dbs.write(s, rng, nets, path)
	for fam in (None, 4, 6):
		def judge(out, fam=fam):
			head, items = split_items(out)
			if head != ["0"] or "ERROR" in out or "AFTER-END" in out:
				return "listing bogons failed"
			listed = raw(items)
			got = {4: [], 6: []}
			for k, p, n in listed:
				if (n.first, n.last) != (k[0], model.last(k)):
					return "a bogon is inconsistent in itself"
				got[model.family(k)].append((k[0], model.last(k)))
			for f in (4, 6):
				want = [(n[0], model.last(n)) for n, p in nets.items() if p.cc and model.family(n) == f]
				if fam and f != fam:
					if got[f]:
						return "bogons of the wrong family"
					continue
				if not want:
					continue  # not specified: there is nothing in this family
				want = model.complement(model.union(want), f)
				r = sorted(got[f])
				if any(a[1] >= b[0] for a, b in zip(r, r[1:])):
					return "bogons overlap"
				c.count((i, f, fam, len(want)) if len(want) > 1 else None)
				c.bump("gaps", len(want))
				c.bump("gaps_of_one_address", sum(1 for a, b in want if a == b))
				if model.union(r) != want:
					return "bogons are not the complement of the networks with a country"
		s.add("de", 0, "mode:b", *(["family:%d" % fam] if fam else []), check=judge)
	if i in (1, 2):
		c.sample({model.text(n): list(p) for n, p in list(nets.items())[:10]})
	c.run_script(binary, s)
	dbs.cleanup(path)


def main():
	c = Check("C06", rule="random databases with networks at both ends of the address space, neighbours, gaps of one address and nesting; the union of the listed bogons is compared with the "
		"complement of the networks with a country; non-trivial: more than one gap",
		assumptions=["IPv6 networks inside ::/16 which touch the IPv4 mapped range are left out"])
	binary = build.driver("asan")
	c.parallel(lambda i: case(c, binary, i), range(c.scale(2000, 12000)))
	return c.finish()
