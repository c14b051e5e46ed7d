"""
Workload generators
"""
from . import model
from .model import V4BASE, MAX, Props, make

COUNTRIES = ["DE", "FR", "GB", "US", "AT", "ZA", "AA", "ZZ", "IT", "NL", "CH", "JP", "CN", "BR"]
ASNS = [0, 1, 2, 204867, 65535, 65536, 2147483647, 2147483648, 4200000000, 4294967294, 4294967295]
STRINGS = ["", "a", "A name with spaces", "Ümläut GmbH & Co. KG – 日本", "x" * 200, "line\nbreak", "tab\there", "100% %s %n",
	"trailing ", " leading", "\\backslash\"quote'"]


def props(rng, pool=None):
	if pool:
		return rng.choice(pool)
	return Props(rng.choice(COUNTRIES + ["", "", ""]), rng.choice(ASNS), rng.choice([0, 0, 0, 1, 2, 4, 8, 15, rng.randrange(16)]))


def pool(rng, n):
	out = []
	while len(out) < n:
		p = props(rng)
		if p not in out:
			out.append(p)
		# Near misses: differ in exactly one property
		if len(out) < n and rng.random() < 0.6:
			q = rng.choice([p._replace(cc=rng.choice(COUNTRIES + [""])), p._replace(asn=rng.choice(ASNS)),
				p._replace(flags=rng.randrange(16))])
			if q not in out:
				out.append(q)
	return out[:n]


def base4(rng):
	kind = rng.random()
	if kind < 0.15:
		return V4BASE  # 0.0.0.0
	if kind < 0.3:
		return V4BASE + (0xffffffff & model.mask(128 - 8) & 0xff000000)  # 255.0.0.0
	return V4BASE + rng.getrandbits(32)


def base6(rng):
	kind = rng.random()
	if kind < 0.1:
		return 0x20010db8 << 96
	if kind < 0.2:
		return MAX
	# stay clear of ::/16, where IPv4 lives
	return (rng.randrange(1, 1 << 16) << 112) | rng.getrandbits(112)


def topology(rng, fam=None, size=40, pool_size=3):
	"""A set of networks {net: props} with a structure that makes merging and nesting likely"""
	fam = fam or rng.choice([4, 6])
	p = pool(rng, pool_size)
	nets = {}
	lo = 96 if fam == 4 else rng.choice([16, 20, 32, 48])
	base = base4(rng) if fam == 4 else base6(rng)
	kind = rng.choice(["chain", "siblings", "random", "nested", "hosts", "adjacent", "full", "comb", "sparse", "dense", "dense"])
	floor = 96 if fam == 4 else 16

	def put(n, pr=None):
		if fam == 4:
			n = (V4BASE | (n[0] & 0xffffffff), max(n[1], 96))
			n = make(*n)
		if fam == 6 and model.touches_v4(n):
			return
		nets[n] = pr or rng.choice(p)

	if kind == "chain":
		# one address, every few prefixes, down to a host
		step = rng.choice([1, 1, 2, 3, 7])
		for q in range(floor + rng.randrange(0, 9), 129, step):
			put(make(base, q))
		put(make(base, 128))
	elif kind == "siblings":
		# complete subtrees, mostly with the same properties: cascading merges
		top = rng.randrange(floor, 124)
		depth = rng.randrange(1, 6)
		root = make(base, top)
		same = rng.choice(p)
		for i in range(1 << depth):
			n = (root[0] + (i << (128 - top - depth)), top + depth)
			r = rng.random()
			if r < 0.9:
				put(n, same)
			elif r < 0.95:
				put(n)
		if rng.random() < 0.5:
			put(make(base, max(floor, top - rng.randrange(0, 4))))
		if rng.random() < 0.3:
			put(make(base, top))
	elif kind == "random":
		for _ in range(size):
			put(make(base ^ rng.getrandbits(rng.randrange(1, 33)), rng.randrange(max(floor, 100), 129)))
	elif kind == "nested":
		for _ in range(size // 4):
			b = base ^ rng.getrandbits(20)
			q = rng.randrange(floor, 129)
			for _ in range(4):
				put(make(b ^ rng.getrandbits(12), q))
				q = min(128, q + rng.randrange(0, 12))
	elif kind == "hosts":
		for i in range(size):
			put(make((base + i * rng.choice([1, 1, 2])) & MAX, 128))
		if rng.random() < 0.5:
			put(make(base, rng.randrange(floor, 128)))
	elif kind == "adjacent":
		# a run of neighbouring networks of different size
		at = base
		for _ in range(size):
			q = rng.randrange(112, 129)
			n = make(at, q)
			put(n)
			at = model.last(n) + 1
			if at > MAX:
				break
			if fam == 4 and at > model.V4LAST:
				break
	elif kind == "full":
		# covers an entire family or a large part of it
		put((V4BASE, 96) if fam == 4 else make(base, rng.randrange(4, 17)))
		for _ in range(size // 2):
			b = base4(rng) if fam == 4 else base ^ rng.getrandbits(100)
			put(make(b, rng.randrange(floor, 129)))
		if fam == 4 and rng.random() < 0.5:
			put((V4BASE, 97))
			put((V4BASE + (1 << 31), 97))
	elif kind == "comb":
		# every second network missing
		q = rng.randrange(104, 129)
		n = make(base, q - 6)
		for i in range(0, 64, rng.choice([2, 3])):
			put((n[0] + (i << (128 - q)), q))
		if rng.random() < 0.6:
			put(n)
	elif kind == "dense":
		# many of the nodes of a small subtree: networks that are in the way of, or make room for, others
		depth = rng.randrange(3, 6)
		top = rng.randrange(floor, 129 - depth)
		two = rng.sample(p, min(len(p), rng.choice([2, 2, 3]))) if len(p) > 1 else pool(rng, 2)
		root = make(base, top)
		level = [rng.choice(two) for _ in range(depth + 1)]
		noise, rate = rng.choice([0, 0.1, 0.3, 1]), rng.choice([0.5, 0.7, 0.9, 1])
		for q in range(0 if top > floor else 1, depth + 1):
			for k in range(1 << q):
				if rng.random() < rate:
					put((root[0] | (k << (128 - top - q)), top + q), rng.choice(two) if rng.random() < noise else level[q])
	else:
		for _ in range(size // 2):
			put(make(base4(rng) if fam == 4 else base6(rng), rng.randrange(floor, 129)))
	return nets


def networks(rng, small=False):
	"""A complete database: some topologies of both families"""
	nets = {}
	for _ in range(rng.randrange(1, 3 if small else 5)):
		nets.update(topology(rng, size=rng.choice([4, 10, 20] if small else [4, 20, 60]), pool_size=rng.randrange(1, 5)))
	return nets


def large(rng, fam=4, n=70000):
	"""More networks and nodes than 16 bits can count"""
	nets = {}
	p = pool(rng, 40)
	if fam == 4:
		base, q = V4BASE + (rng.randrange(1, 200) << 24), 120
	else:
		base, q = rng.randrange(0x2000, 0x3fff) << 112, rng.choice([48, 64, 112])
	step = 1 << (128 - q)
	at = base
	for _ in range(n):
		nets[(at, q)] = rng.choice(p)
		at += step * rng.choice([1, 1, 1, 1, 2])
	for _ in range(200):
		# Some above and some below
		a = rng.randrange(base, at)
		nets.setdefault(make(a, rng.randrange(q - 12, q)), rng.choice(p))
		nets.setdefault(make(a, rng.randrange(q + 1, 129)), rng.choice(p))
	return nets


def addresses(rng, nets, per_net=4, limit=400):
	"""Addresses at and around every edge, inside, and anywhere"""
	out = set()
	keys = list(nets)
	rng.shuffle(keys)
	for n in keys:
		f, l = n[0], model.last(n)
		c = [f, l, f - 1, l + 1, (f + l) // 2, rng.randrange(f, l + 1), rng.randrange(f, l + 1), f ^ (1 << (128 - n[1])) if n[1] else f]
		rng.shuffle(c)
		for a in c[:per_net]:
			if 0 <= a <= MAX:
				out.add(a)
		if len(out) >= limit:
			break
	for _ in range(20):
		out.add(V4BASE + rng.getrandbits(32))
		out.add(rng.getrandbits(128))
	for a in (0, 1, MAX, V4BASE, model.V4LAST):
		out.add(a)
	out = sorted(out)
	rng.shuffle(out)
	return out


def text_of(rng, net):
	"""One of several spellings of the same network; host bits may be set"""
	r = rng.random()
	if r < 0.7:
		return model.text(net)
	host = net[0] | (rng.getrandbits(128) & ~model.mask(net[1]))
	prefix = net[1] - 96 if model.is_v4(net) else net[1]
	if r < 0.9 or net[1] < 128:
		return "%s/%d" % (model.addr_text(host), prefix)
	# A host without any prefix
	return model.addr_text(host)
