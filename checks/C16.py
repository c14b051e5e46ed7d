"""
Lists: a stateful model test of network, AS and country lists.
"""
from vlib import build, drv, gen, model
from vlib.check import Check
from vlib.drv import h, unh, hexaddr, parse_net, split_items
from vlib.model import V4BASE, MAX
from checks.C02 import CODES


def net_of(n):
	return (n.first, n.prefix + (96 if n.family == 4 else 0))


def same(want, what):
	return lambda out: None if out == want else what


def network_lists(c, s, rng, steps, big):
	"""Four lists; elements are identified by address, prefix, and their ASN shows which object it is"""
	lists = {k: {} for k in range(4)}
	for k in lists:
		s.add("ll", k)
	fam = rng.choice([4, 6, 46])
	pool = []
	for _ in range(3000 if big else rng.choice([3, 12, 200])):
		f = rng.choice([4, 6]) if fam == 46 else fam
		n = model.make(gen.base4(rng), rng.randrange(100, 129)) if f == 4 else model.make(gen.base6(rng), rng.randrange(16, 129))
		if not model.touches_v4(n):
			pool.append(n)
	serial = [0]

	def whole(k):
		want = [(n, lists[k][n]) for n in sorted(lists[k])]

		def fn(out):
			head, items = split_items(out)
			got = [(net_of(x), x.asn) for x in (parse_net(t) for t in items)]
			if int(head[1]) != int(not want) or int(head[2]) != len(want):
				return "size of a network list is wrong"
			if got != want:
				return "content of a network list is wrong"
			c.count(("nl", tuple(want)) if len(want) > 1 else None)
		s.add("lall", k, check=fn)

	def one(want, what):
		def fn(out):
			t = out.split()
			if want is None:
				return what if t[0] != "none" else None
			if t[0] != "ok":
				return what
			x = parse_net(t[1:])
			return what if (net_of(x), x.asn) != want else None
		return fn

	def push(k, n):
		serial[0] += 1
		s.add("nb", 9, hexaddr(n[0]), n[1] - (96 if model.is_v4(n) else 0))
		s.add("nsetasn", 9, serial[0])
		s.add("lpush", k, 9, check=same("0", "a network could not be pushed"))
		lists[k].setdefault(n, serial[0])

	order = rng.choice(["random", "up", "down"])
	if big:
		seq = pool if order == "random" else sorted(pool, reverse=order == "down")
		for n in seq:
			push(0, n)
		whole(0)
	for _ in range(steps):
		op = rng.random()
		k = rng.randrange(4)
		if op < 0.45:
			push(k, rng.choice(pool))
		elif op < 0.55:
			first = rng.random() < 0.5
			want = None
			if lists[k]:
				n = (min if first else max)(lists[k])
				want = (n, lists[k].pop(n))
			s.add("lpopf" if first else "lpop", k, 10, check=one(want, "popping returned the wrong network"))
		elif op < 0.65:
			n = rng.choice(pool)
			s.add("nb", 9, hexaddr(n[0]), n[1] - (96 if model.is_v4(n) else 0))
			s.add("lhas", k, 9, check=same("%d" % (n in lists[k]), "membership in a network list is wrong"))
			c.count()
		elif op < 0.75:
			m = rng.randrange(4)
			s.add("lmerge", k, m, check=same("0", "lists could not be merged"))
			for n, v in sorted(lists[m].items()):
				lists[k].setdefault(n, v)
		elif op < 0.85:
			i = rng.choice([0, len(lists[k]), max(0, len(lists[k]) - 1), rng.randrange(len(lists[k]) + 3), 1 << 40])
			ks = sorted(lists[k])
			s.add("lget", k, i, check=one((ks[i], lists[k][ks[i]]) if i < len(ks) else None, "indexed access is wrong"))
			c.count()
		elif op < 0.88:
			s.add("lclear", k)
			lists[k] = {}
		else:
			whole(k)
	for k in range(4):
		whole(k)


def exact(c, s, rng, size):
	"""Lists of a certain size, filled and emptied from either end"""
	base = gen.base4(rng) & ~0xfffff
	base = model.V4BASE | (base & 0xffffffff)
	nets = [(base + 2 * i, 128) for i in range(size)]
	s.add("ll", 0)
	order = rng.choice(["up", "down", "up"]) if size < 5000 else "up"
	for n in (nets if order == "up" else reversed(nets)):
		s.add("nb", 9, hexaddr(n[0]), 32)
		s.add("lpush", 0, 9, check=same("0", "a network could not be pushed"))
	lo, hi = 0, size - 1

	def gone(n):
		def fn(out):
			t = out.split()
			if n is None:
				return None if t[0] == "none" else "popped something from an empty list"
			return None if t[0] == "ok" and net_of(parse_net(t[1:])) == n else "popping returned the wrong network"
		return fn

	def check():
		left = nets[lo:hi + 1]

		def whole(out):
			head, items = split_items(out)
			if int(head[2]) != len(left):
				return "size of a network list is wrong"
			if [net_of(parse_net(t)) for t in items] != left:
				return "content of a network list is wrong"
			c.count(("exact", size, len(left)) if len(left) > 1 else None)
		s.add("lall", 0, check=whole)
		for i in {0, size - 1, size // 2, rng.randrange(size)}:
			for a in (nets[i], (nets[i][0] + 1, 128)):
				s.add("nb", 9, hexaddr(a[0]), 32)
				s.add("lhas", 0, 9, check=same("%d" % (a in left[:1] + left[-1:] or (a in nets and lo <= i <= hi)), "membership in a network list is wrong"))
	check()
	first = rng.random() < 0.7
	for k in range(3):
		if lo > hi:
			break
		s.add("lpopf" if first else "lpop", 0, 10, check=gone(nets[lo] if first else nets[hi]))
		lo, hi = (lo + 1, hi) if first else (lo, hi - 1)
		check()
		first = not first
	# A copy of it
	s.add("ll", 1)
	s.add("lmerge", 1, 0, check=same("0", "lists could not be merged"))
	left = nets[lo:hi + 1]
	s.add("lall", 1, check=lambda out: None if [net_of(parse_net(t)) for t in split_items(out)[1]] == left else "a merged list is wrong")
	if size < 5000:
		while lo <= hi + 1:
			first = rng.random() < 0.5
			s.add("lpopf" if first else "lpop", 0, 10, check=gone(None if lo > hi else nets[lo] if first else nets[hi]))
			lo, hi = (lo + 1, hi) if first else (lo, hi - 1)
			if rng.random() < 0.005 and lo <= hi:
				check()


SIZES = [1, 2, 3, 1023, 1024, 1025, 2048, 3071, 3072, 3073, 4096, 9216, 70000]


def plain_lists(c, s, rng, steps, kind, big):
	p = "al" if kind == "as" else "cl"
	lists = {k: [] for k in range(3)}
	for k in lists:
		s.add(p, k)
	if kind == "as":
		pool = [rng.choice([rng.getrandbits(32), rng.randrange(50)]) for _ in range(2500 if big else 30)] + gen.ASNS
	else:
		pool = list(CODES) if big else rng.sample(CODES, 20)
	serial = [0]

	def make(key):
		serial[0] += 1
		if kind == "as":
			s.add("an", 9, key)
			s.add("aname", 9, h(str(serial[0])))
		else:
			s.add("cn", 9, h(key))
			s.add("cname", 9, h(str(serial[0])))

	def find(k, key):
		return any(x[0] == key for x in lists[k])

	def item(t):
		return (int(t[0]), unh(t[1])) if kind == "as" else (unh(t[0]), unh(t[2]))

	def whole(k):
		want = list(lists[k])

		def fn(out):
			head, items = split_items(out)
			if int(head[1]) != int(not want) or int(head[2]) != len(want):
				return "size of a list of %s is wrong" % kind
			if [item(t) for t in items] != want:
				return "content of a list of %s is wrong" % kind
			c.count((kind, tuple(want)) if len(want) > 1 else None)
		s.add(p + "all", k, check=fn)

	def append(k, key):
		make(key)
		s.add(p + "append", k, 9, check=same("0", "could not append"))
		if not find(k, key):
			lists[k].append((key, str(serial[0])))

	if big:
		for key in pool:
			append(0, key)
		whole(0)
	for _ in range(steps):
		op = rng.random()
		k = rng.randrange(3)
		key = rng.choice(pool)
		if op < 0.5:
			append(k, key)
		elif op < 0.6:
			make(key)
			s.add(p + "has", k, 9, check=same("%d" % find(k, key), "membership in a list of %s is wrong" % kind))
		elif op < 0.7:
			if kind == "as":
				s.add("alhasn", k, key, check=same("%d" % find(k, key), "membership by number is wrong"))
			else:
				key = rng.choice([key, key, key.lower(), "X1", "", key + "A", key[0]])
				s.add("clhasc", k, h(key), check=same("%d" % find(k, key), "membership by code is wrong"))
			c.count()
		elif op < 0.78:
			s.add(p + "sort", k)
			lists[k].sort()
		elif op < 0.81:
			s.add(p + "clear", k)
			lists[k] = []
		elif op < 0.9:
			i = rng.choice([0, len(lists[k]), max(0, len(lists[k]) - 1), 1 << 40])

			def fn(out, want=lists[k][i] if i < len(lists[k]) else None):
				t = out.split()
				got = item(t[1:]) if t[0] == "ok" else None
				return None if got == want else "indexed access to a list of %s is wrong" % kind
			s.add(p + "get", k, i, check=fn)
		else:
			whole(k)
	for k in lists:
		whole(k)


def case(c, binary, i):
	rng = c.rng(i)
	s = drv.Script()
	big = i < 6
	what = ["net", "as", "country"][i % 3]
	if 10 <= i < 10 + len(SIZES):
		exact(c, s, rng, SIZES[-1 - (i - 10)])
		c.bump("histories_exact")
		c.run_script(binary, s)
		return
	steps = c.scale(150, 400)
	if what == "net":
		network_lists(c, s, rng, steps, big)
	else:
		plain_lists(c, s, rng, steps, what, big)
	c.bump("histories_%s" % what)
	if 6 <= i < 9:
		c.sample(s.lines[:15])
	c.run_script(binary, s)


def main():
	c = Check("C16", rule="random histories of push/append, pop, merge, sort, clear, membership and index operations on several lists, with up to some thousand elements; "
		"each complete observation of a list with more than one element is counted")
	binary = build.driver("asan")
	c.parallel(lambda i: case(c, binary, i), range(c.scale(800, 6000)))
	return c.finish()
