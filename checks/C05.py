"""
Flattened listings: disjoint, ordered, exact.
"""
import os

from checks.C03 import raw
from checks.C04 import options
from vlib import build, dbs, drv, gen, model
from vlib.check import Check
from vlib.drv import split_items


def judge_flat(listed, nets, match):
	ranges = {4: [], 6: []}
	last = None
	for k, p, n in listed:
		f, l = k[0], model.last(k)
		if (n.first, n.last) != (f, l):
			return "a flattened network is inconsistent in itself"
		if last is not None and f <= last:
			return "flattened networks overlap or are out of order"
		last = l
		ranges[model.family(k)].append((f, l, tuple(p)))
	for fam in (4, 6):
		segs = model.segments(nets, fam)
		want = [(a, b, tuple(nets[n])) for a, b, n in segs if match(n, nets[n])]
		if join(want) != join(ranges[fam]):
			return "the flattened list does not cover exactly the matching addresses"
	return None


def join(ranges):
	out = []
	for a, b, k in ranges:
		if out and out[-1][1] + 1 == a and out[-1][2] == k:
			out[-1] = (out[-1][0], b, k)
		else:
			out.append((a, b, k))
	return out


def dense(rng):
	"""Everything is somewhere below a few parents"""
	fam = rng.choice([4, 6])
	p = gen.pool(rng, rng.randrange(2, 5))
	base = gen.base4(rng) if fam == 4 else gen.base6(rng)
	top = rng.randrange(98, 120)
	root = model.make(base, top)
	nets = {root: rng.choice(p)}
	span = 128 - top
	for _ in range(rng.choice([1, 2, 3, 8, 30])):
		q = rng.randrange(top + 1, min(128, top + 10) + 1)
		r = rng.random()
		off = 0 if r < 0.15 else (1 << span) - 1 if r < 0.3 else rng.getrandbits(span)
		nets[model.make(root[0] + off, q)] = rng.choice(p)
	return nets


def case(c, binary, i):
	rng = c.rng(i)
	s = drv.Script()
	path = os.path.join(c.scratch, "%s.db" % i)
	nets = dense(rng) if rng.random() < 0.5 else gen.networks(rng, small=rng.random() < 0.6)
	if rng.random() < 0.3:
		nets.update(dense(rng))
	if i == 0:
		nets = gen.large(rng, rng.choice([4, 6]))
	elif i == 1:
		# One network around thousands of others
		root = model.make(gen.base4(rng), 104)
		nets = {root: gen.props(rng)}
		pool = gen.pool(rng, 5)
		for _ in range(c.scale(5000, 20000)):
			nets[model.make(root[0] + rng.getrandbits(24), rng.randrange(118, 129))] = rng.choice(pool)
	elif i % 50 == 0:
		nets = dbs.wall(rng, rng.choice([4, 6]))
		nets[model.make(max(nets)[0], 97 if model.is_v4(max(nets)) else 3)] = gen.props(rng)
		nets = {n: p for n, p in nets.items() if not model.touches_v4(n)}
	dbs.write(s, rng, nets, path)
	for j in range(5 if i > 1 else 2):
		o, match = options(rng, nets) if j else ([], lambda n, p: True)

		def judge(out, match=match, o=o, j=j):
			head, items = split_items(out)
			if head != ["0"] or "ERROR" in out or "AFTER-END" in out:
				return "a flattened search failed"
			listed = raw(items)
			c.bump("flattened_networks", len(listed))
			c.count((i, j, len(listed)) if len(listed) > 1 else None)
			return judge_flat(listed, nets, match)
		s.add("de", 0, "mode:n", "flatten:1", *o, check=judge)
	if i in (1, 2):
		c.sample({model.text(n): list(p) for n, p in list(nets.items())[:10]})
	c.run_script(binary, s)
	dbs.cleanup(path)


def main():
	c = Check("C05", rule="random databases with dense nesting are listed flattened, unfiltered and with random filters, and compared with the effective "
		"segments of the model; non-trivial: listings with more than one network")
	binary = build.driver("asan")
	plain = build.driver("plain", opt="-O2")
	c.parallel(lambda i: case(c, plain if i == 1 else binary, i), range(c.scale(1000, 8000)))
	return c.finish()
