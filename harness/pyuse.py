"""
Uses the Python module: every answer is compared with the model, and every misuse has to raise an exception.

pyuse.py <mode> <seed> <case> <scratch directory> <key directory>
"""
import gc
import os
import random
import resource
import socket
import sys
import tempfile

import location
import _location

from harness import rep
from vlib import fmt, gen, model, spec
from vlib.model import Props

FLAGS = [1, 2, 4, 8]


def check(ok, key, *what):
	rep.count()
	if not ok:
		rep.violation(key, what)
	return ok


def props(n):
	"""The properties of a network object"""
	flags = sum(f for f in FLAGS if n.has_flag(f))
	# Several flags at once: any of them
	for several in (3, 6, 9, 12, 15):
		check(n.has_flag(several) is bool(flags & several), "has_flag with several flags", flags, several)
	return Props(n.country_code, n.asn or 0, flags)


def attributes(n, net):
	"""Everything a network object says about its addresses"""
	v4 = model.is_v4(net)
	first, last = net[0], model.last(net)
	conv = lambda a: (a & 0xffffffff).to_bytes(4, "big") if v4 else a.to_bytes(16, "big")
	got = (str(n), repr(n), n.family, n.first_address, n.last_address, n._first_address, n._last_address)
	want = (model.text(net), "<location.Network %s>" % model.text(net), socket.AF_INET if v4 else socket.AF_INET6, model.addr_text(first),
		model.addr_text(last), conv(first), conv(last))
	check(got == want, "attributes of a network", got, want)


def listed(it):
	out = []
	for n in it:
		net = spec.parse_net(str(n))
		out.append((net, props(n)))
	return out


def build(rng, sp, path, keys):
	"""Writes a database, and watches everything the writer returns"""
	key1 = key2 = None
	names = ["prime256v1", "other", "secp384r1", "rsa2048"]
	if rng.random() < 0.6:
		key1 = rng.choice(names)
	if rng.random() < 0.4:
		key2 = rng.choice(names)
	args = []
	if key1 or key2 or rng.random() < 0.3:
		args.append(open(os.path.join(keys, key1 + ".pem")) if key1 else None)
	if key2 or (args and rng.random() < 0.5):
		args.append(open(os.path.join(keys, key2 + ".pem")) if key2 else None)
	refs = [sys.getrefcount(a) for a in args]
	w = location.Writer(*args)
	check([sys.getrefcount(a) for a in args] == refs, "references to a key file", refs)
	for a in args:
		if a:
			# The file still belongs to Python
			check(a.fileno() >= 0 and os.fstat(a.fileno()), "key file was closed")
			a.close()
	for k in ("vendor", "description", "license"):
		check(getattr(w, k) == "", "metadata of a new writer", k)
		v = getattr(sp, k)
		setattr(w, k, v)
		check(getattr(w, k) == v, "metadata of a writer", k)
	objects = []
	items = list(sp.nets.items())
	rng.shuffle(items)
	for net, p in items:
		n = w.add_network(gen.text_of(rng, net))
		check(n.country_code == "" and n.asn is None and not any(n.has_flag(f) for f in FLAGS), "a new network has properties")
		if p.cc:
			n.country_code = p.cc
		if p.asn:
			n.asn = p.asn
		if rng.random() < 0.5:
			for f in FLAGS:
				if p.flags & f:
					check(n.set_flag(f) is None, "set_flag")
		elif p.flags:
			n.set_flag(p.flags)
		check(props(n) == p, "properties of a network", props(n), p)
		attributes(n, net)
		if rng.random() < 0.2:
			objects.append((n, net, p))
	if sp.nets:
		net = rng.choice(list(sp.nets))
		try:
			w.add_network(model.text(net))
			check(False, "a network was added twice", model.text(net))
		except IndexError:
			check(True, "")
	for number, name in rng.sample(list(sp.ases.items()), len(sp.ases)):
		a = w.add_as(number)
		check(a.number == number and a.name is None, "a new AS", number, a.number, a.name)
		if name is not None:
			a.name = name
		check(a.name == name, "name of an AS", name, a.name)
	for cc, (continent, name) in rng.sample(list(sp.countries.items()), len(sp.countries)):
		o = w.add_country(cc)
		check((o.code, str(o), o.name, o.continent_code) == (cc, cc, None, None), "a new country", cc)
		if continent:
			o.continent_code = continent
		if name is not None:
			o.name = name
		check((o.name, o.continent_code) == (name, continent), "properties of a country", cc)
	version = rng.choice([(), (0,), (1,)])
	check(w.write(path, *version) is None, "write")
	if rng.random() < 0.3:
		# Again: the writer remains usable
		check(w.write(path) is None, "write")
	del w
	gc.collect()
	for n, net, p in objects:
		check(props(n) == p, "properties of a network after its writer is gone")
		attributes(n, net)
	return key1, key2


def read(rng, sp, path, keys, signed):
	db = rng.choice([location.open, location.Database])(path)
	check(repr(db) == "<Database %s>" % path, "repr of a database", repr(db))
	for k in ("vendor", "description", "license"):
		check(getattr(db, k) == getattr(sp, k), "metadata of a database", k, getattr(db, k))
	check(abs(db.created_at - os.stat(path).st_mtime) < 60, "created_at", db.created_at)

	# Signatures
	for name in rng.sample(["prime256v1", "other", "secp384r1", "rsa2048"], 2) + [k for k in signed if k]:
		with open(os.path.join(keys, name + ".pub")) as f:
			got = db.verify(f)
			check(got is (name in signed), "verify", name, signed, got)
			check(not f.closed and os.fstat(f.fileno()), "key file was closed")

	# What is not a public key does not verify anything
	junk = path + ".key"
	with open(os.path.join(keys, "prime256v1.pub"), "rb") as f:
		public = f.read()
	with open(os.path.join(keys, "prime256v1.pem"), "rb") as f:
		private = f.read()
	for content in (b"", b"junk", public[:len(public) // 2], public.replace(b"-----BEGIN", b"-----BEGUN"), b"-----BEGIN PUBLIC KEY-----\nAAAA\n-----END PUBLIC KEY-----\n", private, os.urandom(2000)):
		with open(junk, "wb") as f:
			f.write(content)
		with open(junk, "rb") as f:
			try:
				got = db.verify(f)
			except Exception as e:
				got = type(e).__name__
			check(got is not True, "verified by something that is not a public key", content[:80])
	os.unlink(junk)

	# Any time
	with open(path, "rb") as f:
		content = f.read()
	for t in rng.sample([0, 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**33 + 5, 2**40, rng.getrandbits(32), rng.getrandbits(40)], 3):
		with open(junk, "wb") as f:
			f.write(fmt.set_field(content, "created_at", t))
		other = location.Database(junk)
		check(other.created_at == t, "created_at", t, other.created_at)
		os.unlink(junk)

	# Lookups
	found = 0
	for a, want in sp.lookups():
		n = db.lookup(model.addr_text(a))
		if want is None:
			check(n is None, "lookup found something", model.addr_text(a), str(n))
			continue
		found += 1
		if not check(n is not None, "lookup found nothing", model.addr_text(a)):
			continue
		net = spec.parse_net(str(n))
		check(model.contains(net, a) and props(n) == want, "lookup", model.addr_text(a), str(n), props(n), want)
		attributes(n, net)
	rep.bump("lookups_found", found)

	# AS
	for number in list(sp.ases) + [0, 1, 2, rng.getrandbits(32), 2**31 - 1, 2**31, 2**32 - 1]:
		a = db.get_as(number)
		if number not in sp.ases:
			check(a is None, "get_as found something", number)
			continue
		if check(a is not None, "get_as found nothing", number):
			name = sp.as_name(number)
			check((a.number, a.name) == (number, name), "get_as", number, a.number, a.name)
			# An empty name may be shown or not
			check(str(a) in ("AS%d - %s" % (number, name), "AS%d" % number if not name else None), "str of an AS", str(a))
			check(repr(a) in ("<AS %d (%s)>" % (number, name), "<AS %d>" % number if not name else None), "repr of an AS", repr(a))
	want = [(n, sp.as_name(n)) for n in sorted(sp.ases)]
	check([(a.number, a.name) for a in db.ases] == want, "ases")
	for _ in range(4):
		base = rng.choice([n for n in sp.ases.values() if n] or spec.NAMES)
		i = rng.randrange(len(base))
		needle = rng.choice([base, base[i:i + 3], base[i:i + 4].swapcase(), "zzz", base.upper()])
		got = [(a.number, a.name) for a in db.search_as(needle)]
		check(got == sp.search_as(needle), "search_as", needle, got)

	# Countries
	for cc in set(list(sp.countries) + ["DE", "QQ", "US"]):
		o = db.get_country(cc)
		if cc not in sp.countries:
			check(o is None, "get_country found something", cc)
			continue
		continent, name = sp.countries[cc]
		if check(o is not None, "get_country found nothing", cc):
			check((o.code, o.continent_code) == (cc, continent) and (o.name or None) == (name or None), "get_country", cc, o.code, o.name, o.continent_code)
			if name:
				check(repr(o) == "<Country %s (%s)>" % (cc, name), "repr of a country", repr(o))
	got = [(o.code, o.name or None, o.continent_code) for o in db.countries]
	check(got == [(cc, sp.countries[cc][1] or None, sp.countries[cc][0]) for cc in sorted(sp.countries)], "countries", got)

	# Networks
	everything = listed(db.networks)
	problem = spec.judge_listing(sp, everything)
	check(not problem, "networks: %s" % problem)
	flat = listed(db.networks_flattened)
	problem = spec.judge_flat(sp, flat)
	check(not problem, "networks_flattened: %s" % problem)
	rep.bump("networks_listed", len(everything) + len(flat))
	for k in range(8):
		f = fam, countries, asns, flags = sp.filters(rng)
		if k > 5:
			# Long lists: whatever is in the database comes last
			countries = rng.choice([None, [a + b for a in "QY" for b in "ABCDEFGHIJKLMNOPQRSTUVWXYZ"] + sorted({p.cc for p in sp.nets.values() if p.cc})])
			asns = rng.choice([None, list(range(4200000000, 4200000000 + rng.choice([20, 70, 300]))) + sorted({p.asn for p in sp.nets.values() if p.asn})])
			f = fam, countries, asns, flags
		kwargs = {}
		if fam:
			kwargs["family"] = socket.AF_INET if fam == 4 else socket.AF_INET6
		if countries is not None:
			kwargs["country_codes"] = countries
		if asns is not None:
			kwargs["asns"] = asns
		if flags:
			kwargs["flags"] = flags
		got = listed(db.search_networks(**kwargs))
		want = [x for x in everything if sp.matches(f, *x)]
		check(got == want, "search_networks", kwargs)
		if 0 < len(want) < len(everything):
			rep.count((len(everything), sorted(map(repr, kwargs.items()))))
		got = listed(db.search_networks(flatten=True, **kwargs))
		problem = spec.judge_flat(sp, got, lambda n, p: sp.matches(f, n, p))
		check(not problem, "search_networks flattened: %s" % problem, kwargs)
	for fam in (None, 4, 6):
		kwargs = {"family": socket.AF_INET if fam == 4 else socket.AF_INET6} if fam else {}
		problem = spec.judge_bogons(sp, [spec.parse_net(str(n)) for n in db.list_bogons(**kwargs)], fam)
		check(not problem, "list_bogons: %s" % problem)

	# Everything may outlive the database
	its = [iter(db.networks), iter(db.ases), iter(db.countries), iter(db.networks_flattened), iter(db.search_networks(asns=[1, 2**32 - 1])), iter(db.list_bogons())]
	n = db.lookup(model.addr_text(rng.choice(list(sp.nets))[0])) if sp.nets else None
	heads = [next(it, None) for it in its]
	del db
	gc.collect()
	if n is not None:
		attributes(n, spec.parse_net(str(n)))
	got = ([] if heads[0] is None else [heads[0]]) + list(its[0])
	check(listed(got) == everything, "networks after the database is gone")
	got = ([] if heads[1] is None else [heads[1]]) + (list(its[1]) if heads[1] is not None else [])
	check([(a.number, a.name) for a in got] == [(n, sp.as_name(n)) for n in sorted(sp.ases)], "ases after the database is gone")


def algebra(rng):
	"""Network objects on their own"""
	check([location.NETWORK_FLAG_ANONYMOUS_PROXY, location.NETWORK_FLAG_SATELLITE_PROVIDER, location.NETWORK_FLAG_ANYCAST, location.NETWORK_FLAG_DROP] == FLAGS, "flags of the module")
	pool = []
	fam = rng.choice([4, 6])
	for _ in range(12):
		if fam == 4:
			net = model.make(model.V4BASE + rng.choice([0, rng.getrandbits(32), 0x0a000000 + rng.getrandbits(8)]), rng.randrange(96, 129))
		else:
			net = model.make(gen.base6(rng) if rng.random() < 0.3 else (0x20010db8 << 96) + rng.getrandbits(rng.choice([8, 64, 90])), rng.randrange(16, 129))
		pool.append(net)
	pool += [model.make(n[0], max(n[1] - rng.randrange(0, 9), 96 if fam == 4 else 8)) for n in pool]
	pool = [n for n in pool if not model.touches_v4(n)]
	for _ in range(60):
		a, b = rng.choice(pool), rng.choice(pool)
		na, nb = location.Network(gen.text_of(rng, a)), location.Network(gen.text_of(rng, b))
		check((na == nb) is (a == b) and (na != nb) is (a != b), "equality of networks", a, b)
		check((na < nb) is (a < b) and (na > nb) is (b < a), "order of networks", model.text(a), model.text(b))
		check(na.is_subnet_of(nb) is model.is_subnet(b, a), "is_subnet_of", model.text(a), model.text(b))
		na.country_code, na.asn = "DE", rng.choice([1, 2**31, 2**32 - 1])
		na.set_flag(rng.choice([1, 2, 4, 8, 5]))
		ex = na.exclude(nb)
		nets = [spec.parse_net(str(n)) for n in ex]
		want = []
		if model.is_subnet(a, b) and a != b:
			want = [r for r in ((a[0], b[0] - 1), (model.last(b) + 1, model.last(a))) if r[0] <= r[1]]
		check(model.union([(n[0], model.last(n)) for n in nets]) == want, "exclude", model.text(a), model.text(b), [str(n) for n in ex])
		check(all(props(n) == props(na) for n in ex), "properties of what is left by exclude")
		if ex:
			rep.count((model.text(a), model.text(b)))
	for _ in range(30):
		x, y = (rng.choice(gen.ASNS + [rng.getrandbits(32)]) for _ in "ab")
		ax, ay = location.AS(x), location.AS(y)
		check((ax == ay) is (x == y) and (ax != ay) is (x != y) and (ax < ay) is (x < y) and (ax > ay) is (x > y), "order of AS", x, y)
		check(ax.number == x and hash(ax) == hash(location.AS(x)) and len({ax, ay}) == len({x, y}), "hash of AS", x, y)
		check(str(ax) == "AS%d" % x and repr(ax) == "<AS %d>" % x and ax.name is None, "text of AS", str(ax), repr(ax))
		ax.name = "Name"
		check(str(ax) == "AS%d - Name" % x and repr(ax) == "<AS %d (Name)>" % x, "text of AS", str(ax), repr(ax))
		x, y = rng.choice(gen.COUNTRIES), rng.choice(gen.COUNTRIES)
		cx, cy = location.Country(x), location.Country(y)
		check((cx == cy) is (x == y) and (cx != cy) is (x != y) and (cx < cy) is (x < y) and len({cx, cy}) == len({x, y}), "order of countries", x, y)
		check((cx == ax) is False and (ax != cx) is True and (cx == "DE") is False, "comparison of different things")
	for cc, ok in (("DE", True), ("QQ", True), ("de", False), ("D", False), ("DEU", False), ("", False), ("D1", False), ("1A", False), ("A\u00c4", False), ("  ", False)):
		check(location.country_code_is_valid(cc) is ok, "country_code_is_valid", cc)
	for text, suffix, want in (("1.2.3.4", None, "4.3.2.1.in-addr.arpa."), ("1.2.3.0/24", "x.", "*.3.2.1.x."), ("2001:db8::/32", None, "*.8.b.d.0.1.0.0.2.ip6.arpa."), ("1.2.3.0/25", None, None)):
		args = rng.choice([(), (None,)]) if suffix is None else (suffix,)
		check(location.Network(text).reverse_pointer(*args) == want, "reverse_pointer", text, location.Network(text).reverse_pointer(*args))


class Index:
	def __init__(self, n):
		self.n = n

	def __index__(self):
		return self.n


class Bad:
	def __index__(self):
		raise KeyError("index")

	def __str__(self):
		raise KeyError("str")

	def __len__(self):
		raise KeyError("len")

	def __eq__(self, other):
		raise KeyError("eq")

	__hash__ = None

	def fileno(self):
		raise KeyError("fileno")


class BadFile:
	def __init__(self, n):
		self.n = n

	def fileno(self):
		return self.n


def misuse(rng, scratch, keys, path):
	"""Random values everywhere: only exceptions, and never SystemError"""
	os.chdir(scratch)
	valid = location.Database(path)
	junkfile = os.path.join(scratch, "junk")
	with open(junkfile, "wb") as f:
		f.write(os.urandom(5000))

	def values():
		return [None, True, 0, 1, -1, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**63, 2**64, -2**31, -2**63 - 1, 10**40, 1.5, float("nan"), "", "DE", "de", "DEU", "D", "A1",
			"XX", "1.2.3.4", "1.2.3.4/33", "10.0.0.0/8", "10.0.0.1/8", "::/0", "2001:db8::/32", "1.2.3.4/-1", "nonsense", "\ud800", "a\0b", "DE\0", "\u00c4\u00c4", "x" * 100000, b"", b"DE",
			bytearray(b"DE"), (), [], {}, ["DE"], ["de"], [None], [b"DE"], ["DE", 1], ["\ud800"], [1], [-1], [2**32], [2**64], ["1"], [1.5], [Index(1)], [True], [[1]], object(), Bad(), Index(5), Index(2**40), Index(-1),
			location.Network("10.0.0.0/8"), location.Network("2001:db8::/32"), location.AS(1), location.Country("DE"), valid, location.Writer, int, lambda: 1, BadFile(-1), BadFile(12345), BadFile("x"),
			BadFile(2**70), 987, [location.AS(1)], range(3), ("DE",), {"DE"}, "%s%n%d", " DE", "1.2.3.4 ", "256.1.1.1", "0x10.1.1.1", "1.2.3", "::ffff:1.2.3.4", "::ffff:1.2.3.4/97", "::/129", "fe80::1%lo"]

	def objects():
		w = location.Writer()
		wn = w.add_network("1.0.0.0/%d" % rng.randrange(8, 33))
		return [location.Network(rng.choice(["10.0.0.0/8", "::/0", "0.0.0.0/0", "2001:db8::1/128"])), location.AS(rng.choice([0, 5, 2**32 - 1])), location.Country("DE"), w, wn, w.add_as(7), w.add_country("FR"), valid,
			valid.networks, valid.ases, valid.countries, valid.list_bogons(), valid.search_as("a"), location, next(iter(valid.networks), None), next(iter(valid.ases), None), location.Database(path)]

	skip = {"discover_latest_version", "open", "logger", "set_log_level"}
	outcome = {}
	calls = 0
	ordered = []
	for _ in range(rng.randrange(900, 1100)):
		if not calls % 25:
			pool, objs = values(), objects()
		calls += 1
		o = rng.choice(objs)
		names = [n for n in dir(o) if not n.startswith("__") or n in ("__init__", "__repr__", "__str__", "__eq__", "__lt__", "__hash__", "__next__", "__iter__", "__ne__", "__le__", "__gt__")]
		names = [n for n in names if n not in skip]
		if o is location:
			names = ["AS", "Country", "Database", "DatabaseEnumerator", "Network", "Writer", "country_code_is_valid"]
		if o is None:
			continue
		name = rng.choice(names)
		if name == "__init__" and o is valid:
			continue
		what = "%s.%s" % (type(o).__name__, name)
		args = [rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 1, 1, 2, 2, 3]))]
		kwargs = {}
		if rng.random() < 0.15:
			kwargs = {rng.choice(["country_codes", "asns", "flags", "family", "flatten", "suffix", "foo"]): rng.choice(pool) for _ in range(rng.randrange(1, 4))}
		if name == "search_networks" and rng.random() < 0.7:
			args, kwargs = [], {k: rng.choice([v for v in pool if isinstance(v, list)] if k in ("country_codes", "asns") and rng.random() < 0.8 else pool)
				for k in rng.sample(["country_codes", "asns", "flags", "family", "flatten"], rng.randrange(1, 4))}
		if name == "write":
			# Only ever in here
			args = [rng.choice([os.path.join(scratch, "out"), os.path.join(scratch, "missing", "x"), scratch, 5, None, "a\0b", "\ud800"])] + args[:1]
		if name == "__init__" and rng.random() < 0.7:
			# Once more, with something that works or not
			args = {"Network": ["1.0.0.0/9", "x"], "AS": [77, -1], "Country": ["FR", "X"], "Database": [path, junkfile], "Writer": [None, 5]}.get(type(o).__name__, [None])
			args = [rng.choice(args)]
		if o is location and name == "Database":
			args = [rng.choice([path, junkfile, scratch, "/nonexistent", "/dev/null", "", None, 5, "a\0b", "\ud800", path.encode()])]
		if o is location and name == "Writer" and rng.random() < 0.7:
			fs = [open(os.path.join(keys, rng.choice(["prime256v1.pem", "prime256v1.pub", "x25519.pem", "rsa2048.pem"]))) for _ in range(2)]
			args = [rng.choice([fs[0], fs[1], None, open(junkfile), Bad(), BadFile(-1), 4711, "x", open(os.devnull)]) for _ in range(rng.randrange(1, 3))]
		if name == "verify" and rng.random() < 0.7:
			args = [rng.choice([open(os.path.join(keys, "prime256v1.pub")), open(junkfile), open(os.devnull), Bad(), BadFile(-1), BadFile(4711), 4711, "x", None])]
		mode = rng.random()
		value = rng.choice(pool)
		# Nobody may keep, or give away, what belongs to somebody else
		watched = [o, value] + args + list(kwargs.values()) + [x for v in kwargs.values() if isinstance(v, list) for x in v]
		before = [sys.getrefcount(v) for v in watched]
		r = attr = x = None
		try:
			if not callable(getattr(type(o), name, None)) and o is not location and mode < 0.75:
				if mode < 0.1:
					delattr(o, name)
				else:
					setattr(o, name, value)
				result = "set"
			else:
				attr = getattr(o, name)
				if not callable(attr):
					result = "got"
				else:
					r = attr(*args, **kwargs)
					result = type(r).__name__
					if result == "DatabaseEnumerator":
						for k, x in enumerate(r):
							str(x), repr(x)
							if k > 300:
								break
					elif result in ("Network", "AS", "Country", "Database", "Writer"):
						str(r), repr(r)
						[getattr(r, n) for n in dir(r) if not n.startswith("__")]
		except SystemError as e:
			rep.violation("SystemError from %s" % what, (str(e), [repr_safe(a) for a in args], kwargs and repr_safe(kwargs)))
			result = "SystemError"
		except (MemoryError, KeyboardInterrupt):
			raise
		except Exception as e:
			result = type(e).__name__
		outcome[(what, result)] = outcome.get((what, result), 0) + 1
		r = attr = x = None
		after = [sys.getrefcount(v) for v in watched]
		if after != before:
			gc.collect()
			after = [sys.getrefcount(v) for v in watched]
		wrong = [(repr_safe(v), b, a) for v, b, a in zip(watched, before, after) if a != b]
		check(not wrong, "references of %s" % what, result, wrong)
	rep.count(None, calls)
	for what, result in outcome:
		rep.count(("misuse", what, result), 0)
	rep.bump("calls_with_random_values", calls)

	# What has to be refused, and how
	n, w, a, o = location.Network("10.0.0.0/8"), location.Writer(), location.AS(1), location.Country("DE")

	def raises(exc, what, fn, *args, **kwargs):
		try:
			r = fn(*args, **kwargs)
		except exc as e:
			check(type(e) is not SystemError, "SystemError from %s" % what)
			return
		except Exception as e:
			check(False, "%s raised %s" % (what, type(e).__name__), args, str(e))
			return
		check(False, "%s raised nothing" % what, args, r)
	setter = lambda obj, k: (lambda v: setattr(obj, k, v))
	for bad in ("nonsense", "", "1.2.3", "1.2.3.4.5", "2001:db8:::1", "256.1.1.1", "1.2.3.4 "):
		raises(ValueError, "lookup of an invalid address", valid.lookup, bad)
	for bad in ("nonsense", "", "1.2.3.4/33", "::/129", "1.2.3.4/-1", "1.2.3.4/x", "/8", "1.2.3.4/999999999999999999999"):
		raises(ValueError, "an invalid network", location.Network, bad)
		raises(ValueError, "adding an invalid network", w.add_network, bad)
	for bad in ("de", "D", "DEU", "D1", "1A", "\u00c4"):
		raises(ValueError, "an invalid country code", location.Country, bad)
		raises(ValueError, "adding an invalid country code", w.add_country, bad)
		raises(ValueError, "get_country of an invalid country code", valid.get_country, bad)
		raises(ValueError, "setting an invalid country code", setter(n, "country_code"), bad)
		raises(ValueError, "a search for an invalid country code", valid.search_networks, country_codes=[bad])
		check(n.country_code == "", "an invalid country code was set")
	for bad in (-1, 2**32, 2**64, -2**64):
		raises((ValueError, OverflowError), "an invalid ASN", location.AS, bad)
		raises((ValueError, OverflowError), "adding an invalid ASN", w.add_as, bad)
		raises((ValueError, OverflowError), "get_as of an invalid ASN", valid.get_as, bad)
		raises((ValueError, OverflowError), "setting an invalid ASN", setter(n, "asn"), bad)
		raises((ValueError, OverflowError), "a search for an invalid ASN", valid.search_networks, asns=[bad])
		check(n.asn is None, "an invalid ASN was set", n.asn)
	for bad in ("x", None, 1.5, [1]):
		raises(TypeError, "an ASN of the wrong type", location.AS, bad)
		raises(TypeError, "get_as of the wrong type", valid.get_as, bad)
	for bad in (5, b"DE", ["DE"], 1.5):
		raises(TypeError, "a country code of the wrong type", setter(n, "country_code"), bad)
		raises(TypeError, "a name of the wrong type", setter(a, "name"), bad)
		raises(TypeError, "a name of the wrong type", setter(o, "name"), bad)
		raises(TypeError, "a continent of the wrong type", setter(o, "continent_code"), bad)
		for k in ("vendor", "description", "license"):
			raises(TypeError, "metadata of the wrong type", setter(w, k), bad)
	raises(ValueError, "an invalid continent", setter(o, "continent_code"), "EUR")
	# Nothing is cut off at a null character
	for obj, k in ((a, "name"), (o, "name"), (w, "vendor"), (w, "description"), (w, "license")):
		setattr(obj, k, "before")
		try:
			setattr(obj, k, "one\0two")
		except Exception as e:
			check(isinstance(e, ValueError), "%s raised for a null character" % type(e).__name__, k)
			check(getattr(obj, k) == "before", "a refused value was set", k)
		else:
			check(getattr(obj, k) == "one\0two", "a text was cut off at a null character", k, getattr(obj, k))
	for bad in ("DE\0", "DE\0FR", "\0DE"):
		raises(ValueError, "a country code with a null character", setter(n, "country_code"), bad)
		raises(ValueError, "a country code with a null character", setter(o, "continent_code"), bad)
		raises(ValueError, "a country code with a null character", location.Country, bad)
		raises(ValueError, "a country code with a null character", valid.get_country, bad)
		raises(ValueError, "a search for a country code with a null character", valid.search_networks, country_codes=[bad])
	raises(ValueError, "an address with a null character", valid.lookup, "1.2.3.4\0")
	raises(ValueError, "a network with a null character", location.Network, "1.2.3.4\0/8")
	raises(ValueError, "a name with a null character", valid.search_as, "a\0b")
	raises(OSError, "opening a directory", location.Database, scratch)
	raises(OSError, "opening junk", location.Database, junkfile)
	raises(OSError, "opening a missing file", location.Database, os.path.join(scratch, "missing"))
	raises(OSError, "writing to a missing directory", w.write, os.path.join(scratch, "missing", "x"))
	if os.path.exists("/dev/full"):
		raises(OSError, "writing to a full device", w.write, "/dev/full")
	w.add_network("2001:db8::/32")
	limits = resource.getrlimit(resource.RLIMIT_FSIZE)
	for limit in (0, 100, 4196, 5000, 10000):
		resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limits[1]))
		try:
			raises(OSError, "writing a file that is too large", w.write, os.path.join(scratch, "limited"))
		finally:
			resource.setrlimit(resource.RLIMIT_FSIZE, limits)
	raises(TypeError, "creating an enumerator", location.DatabaseEnumerator)
	with open(os.path.join(keys, "prime256v1.pub")) as f:
		raises(Exception, "a writer with a public key", location.Writer, f)
	check(len(os.listdir("/proc/self/fd")) < 200, "file descriptors were lost")


def repr_safe(v):
	try:
		return repr(v)[:200]
	except Exception:
		return "<%s>" % type(v).__name__


def levels(rng, path):
	"""What is printed depends on the level"""
	said = {}
	for level in rng.sample(range(8), 8):
		location.set_log_level(level)
		with tempfile.TemporaryFile() as f:
			old = os.dup(2)
			os.dup2(f.fileno(), 2)
			try:
				db = location.Database(path)
				try:
					location.Database("/dev/null")
				except OSError:
					pass
				del db
			finally:
				os.dup2(old, 2)
				os.close(old)
			f.seek(0)
			said[level] = len(f.read().splitlines())
	location.set_log_level(0)
	check(not any(said[l] for l in range(3)), "messages although they are disabled", said)
	check(said[3] and said[3] == said[4] == said[5], "errors are not printed", said)
	check(said[6] > said[5] and said[7] >= said[6], "information is not printed", said)


def fds():
	return sorted(os.readlink("/proc/self/fd/%s" % f) for f in os.listdir("/proc/self/fd") if os.path.exists("/proc/self/fd/%s" % f))


def main():
	mode, seed, case, scratch, keys = sys.argv[1:]
	rng = random.Random("%s:%s:%s" % (seed, mode, case))
	location.set_log_level(0) if hasattr(location, "set_log_level") else None
	path = os.path.join(scratch, "%s-%s.db" % (mode, case))
	try:
		before = fds()
		sp = spec.Spec(rng, small=rng.random() < 0.7)
		signed = build(rng, sp, path, keys)
		read(rng, sp, path, keys, signed)
		gc.collect()
		check(fds() == before, "file descriptors were lost", before, fds())
		algebra(rng)
		levels(rng, path)
		if mode == "misuse":
			d = os.path.join(scratch, "m%s" % case)
			os.mkdir(d)
			misuse(rng, d, keys, path)
		if case in ("0", "1"):
			rep.sample({model.text(n): tuple(p) for n, p in list(sp.nets.items())[:6]})
	except Exception:
		rep.unexpected("module")
	gc.collect()
	rep.done()


main()
