"""
Databases as workloads: a set of networks, turned into commands for the driver.
"""
import os

from . import gen, model
from .drv import h


def ok(what):
	return lambda out: None if out.split()[0] == "0" else what


def write(s, rng, nets, path, w=0, db=0, key1=None, key2=None, slot=60000, shuffle=True, extra=None, keep=False):
	"""Adds all networks to a new writer, writes and opens the database"""
	s.add("wn", w, h(key1), h(key2), check=ok("no writer"))
	order = list(nets)
	if shuffle:
		rng.shuffle(order)
	for k, n in enumerate(order):
		p = nets[n]
		if k % 16 == 0:
			# Some records are something else first
			s.add("mind", rng.choice([0, 0, 0, 1, 2, 3]))
		s.add("wnet", w, slot, h(gen.text_of(rng, n)), h(p.cc or None), p.asn, p.flags, check=ok("adding a new network was refused"))
	if extra:
		extra(s)
	s.add("wwrite", w, h(path), rng.choice([0, 1]), check=ok("could not write the database"))
	s.add("dopen", db, h(path), check=ok("could not open the database"))
	if not keep:
		s.add("wunref", w)


def wall(rng, fam=6, depth=None):
	"""Siblings on every level: the deepest and widest path a tree can have"""
	p = gen.pool(rng, 4)
	nets = {}
	if fam == 6:
		# Paths along the zeroes keep the most nodes waiting
		base = rng.choice([rng.getrandbits(128) | (1 << 127), 1 << 127, 1 << 127, 1 << 126, 0, 1])
	else:
		base = model.V4BASE + rng.choice([0, 1, rng.getrandbits(32)])
	for q in range(1 if fam == 6 else 97, (depth or 128) + 1):
		n = model.make(base ^ (1 << (128 - q)), q)
		if fam == 6 and model.touches_v4(n):
			continue
		nets[n] = p[q % len(p)]
	nets[model.make(base, 128)] = p[1]
	return nets


def stored(nets):
	"""
		The networks that remain after removing all that equal their closest parent,
		and merging equal halves. This is what a written database lists.
	"""
	nets = dict(nets)
	keep = {}
	for n in sorted(nets, key=lambda n: (n[1], n[0])):
		parent = closest(keep, n)
		if parent is not None and keep[parent] == nets[n]:
			continue
		keep[n] = nets[n]
	return keep


def closest(nets, n):
	for p in range(n[1] - 1, -1, -1):
		k = (n[0] & model.mask(p), p)
		if k in nets and model.is_v4(k) == model.is_v4(n):
			return k
	return None


def mergeable(nets):
	"""Pairs of halves with the same properties, where the whole is not in the set"""
	out = []
	for n, p in nets.items():
		lo = 96 if model.is_v4(n) else 0
		if n[1] <= lo:
			continue
		sib = (n[0] ^ (1 << (128 - n[1])), n[1])
		up = model.make(n[0], n[1] - 1)
		if n < sib and nets.get(sib) == p and up not in nets and model.is_v4(sib) == model.is_v4(n):
			out.append((n, sib))
	return out


def cleanup(*paths):
	for p in paths:
		try:
			os.unlink(p)
		except OSError:
			pass
