"""
The content of a whole database, and what it implies: what all language bindings and commands are compared with.
"""
from . import dbs, gen, model
from .drv import h

NAMES = ["Lightning Wire Labs GmbH", "lightning", "LIGHT", "Deutsche Telekom AG", "telekom", "A", "a.b", "AS204867", "204867", "Größe", "GRÖSSE",
	"x" * 300, "100% Net", "lab", "labs GMBH  ", "日本", "%s%n%d"]

SPECIAL = {"A1": 1, "A2": 2, "A3": 4, "XD": 8}

META = ["", "IPFire Project", "Ümläut – 日本", "several\nlines\n\nof text\n", "x" * 5000, "100%s %n", "CC BY-SA 4.0", " "]


class Spec:
	def __init__(self, rng, small=True, names_optional=True):
		self.rng = rng
		self.nets = gen.networks(rng, small=small)
		if rng.random() < 0.3:
			self.nets.update(gen.topology(rng, fam=4, size=10))
			self.nets.update(gen.topology(rng, fam=6, size=10))
		self.ases = {}
		for _ in range(rng.choice([0, 1, 5, 30])):
			n = rng.choice([rng.getrandbits(32), rng.randrange(1, 100), 204867, rng.choice(gen.ASNS)])
			self.ases[n] = rng.choice(NAMES) + rng.choice(["", "", " Ltd", "ABC"])
			if names_optional and rng.random() < 0.1:
				self.ases[n] = None
		# The numbers that networks have
		for p in self.nets.values():
			if p.asn and rng.random() < 0.4:
				self.ases[p.asn] = rng.choice(NAMES)
		self.countries = {}
		for cc in rng.sample(gen.COUNTRIES, rng.choice([0, 1, 5, 10])):
			self.countries[cc] = (rng.choice(["EU", "AF", "NA", "AS", None if names_optional else "EU"]), rng.choice(NAMES + ([None] if names_optional else [])))
		self.vendor, self.description, self.license = (rng.choice(META) for _ in range(3))

	def write(self, s, path, key1=None, key2=None, w=0, db=0):
		"""Commands for the driver"""
		def extra(s):
			items = list(self.ases.items())
			self.rng.shuffle(items)
			for n, name in items:
				s.add("was", w, 60001, n, h(name), check=dbs.ok("could not add an AS"))
			items = list(self.countries.items())
			self.rng.shuffle(items)
			for cc, (continent, name) in items:
				s.add("wctry", w, 60001, h(cc), h(continent), h(name), check=dbs.ok("could not add a country"))
			for k, v in (("v", self.vendor), ("d", self.description), ("l", self.license)):
				s.add("wset", w, k, h(v), check=dbs.ok("could not set metadata"))
		dbs.write(s, self.rng, self.nets, path, w=w, db=db, key1=key1, key2=key2, extra=extra)

	def as_name(self, n):
		"""What a database returns: a name that has never been set is empty"""
		return self.ases[n] or ""

	def search_as(self, needle):
		needle = needle.encode().lower()
		return [(n, self.as_name(n)) for n in sorted(self.ases) if needle in self.as_name(n).encode().lower()]

	def filters(self, rng=None):
		"""A random search: (family, countries, asns, flags)"""
		rng = rng or self.rng
		fam = rng.choice([None, None, 4, 6])
		countries = asns = None
		flags = 0
		used_cc = sorted({p.cc for p in self.nets.values() if p.cc}) or ["DE"]
		used_asn = sorted({p.asn for p in self.nets.values()}) or [1]
		if rng.random() < 0.5:
			countries = rng.sample(used_cc, min(len(used_cc), rng.randrange(1, 4))) + rng.sample(["DE", "FR", "QQ", "AA"], rng.randrange(0, 3))
		if rng.random() < 0.5:
			asns = rng.sample(used_asn, min(len(used_asn), rng.randrange(1, 4))) + [rng.choice(gen.ASNS), rng.getrandbits(32)][:rng.randrange(0, 3)]
		if rng.random() < 0.4:
			flags = rng.choice([1, 2, 4, 8, 3, 12, 15, 9])
		return fam, countries, asns, flags

	@staticmethod
	def matches(f, net, p):
		fam, countries, asns, flags = f
		if fam and model.family(net) != fam:
			return False
		if not countries and not asns and not flags:
			return True
		return bool((countries and p.cc in countries) or (asns and p.asn in asns) or (flags & p.flags))

	def effective(self, fam, match=lambda n, p: True):
		"""Disjoint runs (first, last, properties), joined if adjacent and equal"""
		return join([(a, b, tuple(self.nets[n])) for a, b, n in model.segments(self.nets, fam) if match(n, self.nets[n])])

	def bogons(self, fam):
		"""Ranges, or None if this is not specified"""
		with_country = [(n[0], model.last(n)) for n, p in self.nets.items() if p.cc and model.family(n) == fam]
		if not with_country:
			return None
		return model.complement(model.union(with_country), fam)

	def lookups(self, limit=60):
		lpm = model.LPM(self.nets)
		out = []
		for a in gen.addresses(self.rng, self.nets, per_net=3, limit=limit):
			m = lpm.match(a)
			out.append((a, None if m is None else self.nets[m]))
		return out


def join(ranges):
	out = []
	for a, b, k in ranges:
		if out and out[-1][1] + 1 == a and out[-1][2] == k:
			out[-1] = (out[-1][0], b, k)
		else:
			out.append((a, b, k))
	return out


def parse_net(text):
	"""The model's network for a text that a binding has returned"""
	import ipaddress
	n = ipaddress.ip_network(text)
	if n.version == 4:
		return (model.V4BASE + int(n.network_address), n.prefixlen + 96)
	return (int(n.network_address), n.prefixlen)


def judge_listing(spec, listed, match=lambda n, p: True):
	"""listed: [(net, Props)] of an unflattened, unfiltered listing: its effect equals that of the specification"""
	d = {}
	for n, p in listed:
		if n in d:
			return "a network is listed twice"
		d[n] = p
	for fam in (4, 6):
		got = join([(a, b, tuple(d[n])) for a, b, n in model.segments(d, fam)])
		if got != spec.effective(fam):
			return "the listed networks do not have the effect of those that have been added"
	return None


def judge_flat(spec, listed, match=lambda n, p: True):
	ranges = {4: [], 6: []}
	for n, p in listed:
		r = ranges[model.family(n)]
		if r and n[0] <= r[-1][1]:
			return "flattened networks overlap or are out of order"
		r.append((n[0], model.last(n), tuple(p)))
	for fam in (4, 6):
		if join(ranges[fam]) != spec.effective(fam, match):
			return "the flattened list does not cover exactly the matching addresses"
	return None


def judge_bogons(spec, listed, fam=None):
	got = {4: [], 6: []}
	for n in listed:
		got[model.family(n)].append((n[0], model.last(n)))
	for f in (4, 6):
		if fam and f != fam:
			if got[f]:
				return "bogons of the wrong family"
			continue
		want = spec.bogons(f)
		if want is None:
			continue
		r = sorted(got[f])
		if any(a[1] >= b[0] for a, b in zip(r, r[1:])):
			return "bogons overlap"
		if model.union(r) != want:
			return "bogons are not exactly what has no country"
	return None
