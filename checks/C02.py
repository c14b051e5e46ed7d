"""
Autonomous systems, countries and metadata: what was added comes back, nothing else does.
"""
import os
import random
import time

from vlib import build, drv, gen
from vlib.check import Check
from vlib.drv import h, unh, split_items

LETTERS = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
CODES = [a + b for a in LETTERS for b in LETTERS if a != "X"]
CONTINENTS = ["EU", "AF", "NA", "SA", "AS", "OC", "AN", "zz", "1_", None]


def ok(what):
	return lambda out: None if out.split()[0] == "0" else what


def name(rng, shared):
	r = rng.random()
	if r < 0.1:
		return None
	if r < 0.2:
		return rng.choice(gen.STRINGS)
	if r < 0.4 and shared:
		s = rng.choice(shared)
		# Prefixes, suffixes and repetitions of strings that are in use
		return rng.choice([s, s[:-1], s[1:], s + "x", s.upper(), s + s])[:3000]
	s = "".join(rng.choice("abcdefgh XYZ.,-'äß") for _ in range(rng.choice([1, 2, 3, 5, 17, 64, 255])))
	shared.append(s)
	return s


class Model:
	def __init__(self):
		self.ases, self.countries = {}, {}
		self.meta = {"v": "", "d": "", "l": ""}


def query(c, s, m, path, rng, t, offset=0):
	s.add("dopen", 0, h(path), check=ok("could not open the database"))

	def meta(out):
		x = out.split()
		now = time.time()
		if not t - 2 <= int(x[1]) - offset <= now + 2:
			return "the creation time is not the time of writing"
		if int(x[2]) != len(m["ases"]):
			return "wrong number of autonomous systems"
		if [unh(i) or "" for i in x[3:6]] != m["meta"]:
			return "vendor, description or license differ"
	s.add("dmeta", 0, check=meta)

	def all_as(out):
		head, items = split_items(out)
		got = [(int(i[0]), unh(i[1]) or "") for i in items]
		if head != ["0"] or got != sorted(m["ases"].items()):
			return "enumeration of autonomous systems differs"
	s.add("de", 0, "mode:a", check=all_as)

	def all_countries(out):
		head, items = split_items(out)
		got = [(unh(i[0]), (unh(i[1]), unh(i[2]) or "")) for i in items]
		if head != ["0"] or got != sorted(m["countries"].items()):
			return "enumeration of countries differs"
	s.add("de", 0, "mode:c", check=all_countries)

	def one_as(number, expected):
		def fn(out):
			x = out.split()
			if expected is None:
				return "found an AS that was never added" if len(x) > 1 else None
			if x[0] != "0" or len(x) < 2:
				return "an added AS was not found"
			if (int(x[1]), unh(x[2]) or "") != (number, expected):
				return "an AS came back changed"
		return fn

	def one_country(code, expected):
		def fn(out):
			x = out.split()
			if expected is None:
				return "found a country that was never added" if len(x) > 1 else None
			if x[0] != "0" or len(x) < 2:
				return "an added country was not found"
			if (unh(x[1]), (unh(x[2]), unh(x[3]) or "")) != (code, expected):
				return "a country came back changed"
		return fn

	numbers = list(m["ases"])
	if len(numbers) > 300:
		edge = sorted(numbers)
		numbers = rng.sample(numbers, 280) + edge[:10] + edge[-10:]
	probe = set(numbers)
	for n in numbers[:60]:
		probe |= {n - 1, n + 1, n ^ (1 << rng.randrange(32))}
	probe |= {0, 1, 4294967295, 2147483648, 2147483647, rng.getrandbits(32)}
	for n in sorted(x for x in probe if 0 <= x < 1 << 32):
		s.add("das", 0, n, check=one_as(n, m["ases"].get(n)))
		c.count(("as", n, m["ases"].get(n)) if n in m["ases"] else None)
	codes = set(m["countries"]) | set(rng.sample(CODES, 20)) | {"AA", "ZZ"}
	for code in sorted(codes):
		s.add("dc", 0, h(code), check=one_country(code, m["countries"].get(code)))
		c.count(("country", code, m["countries"].get(code)) if code in m["countries"] else None)


def snapshot(m):
	return {
		"ases": {k: v or "" for k, v in m.ases.items()},
		"countries": {k: (v[0], v[1] or "") for k, v in m.countries.items()},
		"meta": [m.meta["v"], m.meta["d"], m.meta["l"]],
	}


def case(c, binary, i):
	rng = c.rng(i)
	s = drv.Script()
	m = Model()
	s.add("wn", 0, "-", "-", check=ok("no writer"))
	s.add("mind", rng.choice([0, 0, 1, 2]))
	path = os.path.join(c.scratch, "%s.db" % i)
	shared = []
	kind = rng.choice(["small", "small", "small", "medium", "medium", "many", "huge-strings"]) if i > 4 else ["very-many", "many", "small", "medium", "huge-strings"][i]
	sizes = {"small": (rng.randrange(0, 5), rng.randrange(0, 5)), "medium": (rng.choice([7, 60, 200]), rng.choice([3, 50, 249])),
		"many": (rng.choice([1023, 1024, 1025, 3100]), 650), "very-many": (c.scale(17000, 70000), 650),
		"huge-strings": (12, 12)}[kind]
	slot = 1
	t0 = time.time()
	owned_as, owned_country = {}, {}
	for round_ in range(rng.choice([1, 1, 2, 3]) if kind != "very-many" else 1):
		for key in rng.sample("vdl", rng.randrange(0, 4)):
			v = name(rng, shared) or ""
			if kind == "huge-strings" and rng.random() < 0.5:
				v = rng.choice("abc") * rng.choice([524287, 524288, 600000, 1100000])
			s.add("wset", 0, key, h(v), check=ok("could not set a string"))
			m.meta[key] = v
		if rng.random() < 0.2:
			# Refused; keeps what was there
			s.add("wset", 0, "v", "-", check=lambda out: "NULL was accepted" if out.split()[0] == "0" else None)

		numbers = set()
		while len(numbers) < sizes[0]:
			r = rng.random()
			numbers.add(rng.choice(gen.ASNS) if r < 0.1 else rng.randrange(70000) if r < 0.6 else rng.getrandbits(32))
		numbers = list(numbers)
		order = rng.choice(["up", "down", "random", "random"])
		if order != "random":
			numbers.sort(reverse=order == "down")
		else:
			rng.shuffle(numbers)
		for n in numbers:
			v = name(rng, shared) if kind != "very-many" else "%x" % (n * 0x9e3779b1 & 0xffffffff)
			if kind == "huge-strings" and rng.random() < 0.3:
				v = chr(97 + slot % 26) * rng.choice([100000, 524287, 524288, 524289, 700000])
			if kind == "very-many":
				slot = 1 + slot % 50000
			s.add("was", 0, slot, n, h(v), check=ok("could not add an AS"))
			if n not in m.ases:
				m.ases[n] = v
				owned_as[n] = slot
			slot += 1
		codes = rng.sample(CODES, min(sizes[1], len(CODES)))
		if order != "random":
			codes.sort(reverse=order == "down")
		for code in codes:
			v, cont = name(rng, shared), rng.choice(CONTINENTS)
			s.add("wctry", 0, slot, h(code), h(cont), h(v), check=ok("could not add a country"))
			if code not in m.countries:
				m.countries[code] = (cont, v)
				owned_country[code] = slot
			slot += 1
		# Once more: the first one stays
		if m.ases and rng.random() < 0.5:
			s.add("was", 0, 60000, rng.choice(list(m.ases)), h("duplicate"))
			c.bump("duplicates")
		if m.countries and rng.random() < 0.5:
			s.add("wctry", 0, 60001, h(rng.choice(list(m.countries))), h("QQ"), h("duplicate"))
			c.bump("duplicates")
		if kind == "very-many":
			# Handles are reused
			owned_as = {}
		# Changes through the handle that was returned
		if owned_as and rng.random() < 0.5:
			n = rng.choice(list(owned_as))
			v = name(rng, shared)
			s.add("aname", owned_as[n], h(v))
			m.ases[n] = v
		if owned_country and rng.random() < 0.5:
			n = rng.choice(list(owned_country))
			v = name(rng, shared)
			s.add("cname", owned_country[n], h(v))
			m.countries[n] = (m.countries[n][0], v)
		# Some networks, so that sections move
		for n, p in list(gen.networks(rng, small=True).items())[:rng.choice([0, 3, 30])]:
			s.add("wnet", 0, 60002, h(gen.text_of(rng, n)), h(p.cc or None), p.asn, p.flags)

		def wget(out, meta=dict(m.meta)):
			if [unh(x) or "" for x in out.split()[1:4]] != [meta["v"], meta["d"], meta["l"]]:
				return "the writer does not return what was set"
		s.add("wget", 0, check=wget)
		# Some time passes
		offset = 0 if rng.random() < 0.3 else rng.choice([3600, 1 << 31, 1 << 32, 1 << 33, 300 * 365 * 86400, -86400 * 365 * 20, rng.getrandbits(34)])
		s.add("clock", offset)
		s.add("wwrite", 0, h(path), rng.choice([0, 1]), check=ok("could not write the database"))
		if rng.random() < 0.5:
			s.add("clock", rng.getrandbits(30))
		query(c, s, snapshot(m), path, rng, t0, offset)
	if i in (2, 3):
		c.sample({"kind": kind, "ases": {k: v for k, v in list(m.ases.items())[:5]}, "countries": dict(list(m.countries.items())[:5])})
	c.bump("databases_%s" % kind)
	c.run_script(binary, s)
	if os.path.exists(path):
		os.unlink(path)


def crowd(c, binary):
	"""As many autonomous systems as there are in the real database"""
	rng = c.rng("crowd")
	s = drv.Script()
	path = os.path.join(c.scratch, "crowd.db")
	n = c.scale(66500, 140000)
	numbers = [k * 60013 % (1 << 32) for k in range(1, n + 1)]
	names = ["a", "b", "c", "d"]
	ases = {x: names[x % 4] for x in numbers}
	s.add("wn", 0, "-", "-", check=ok("no writer"))
	t0 = time.time()
	for x in numbers:
		s.add("was", 0, 1, x, h(ases[x]), check=ok("could not add an AS"))
	s.add("clock", 0)
	s.add("wwrite", 0, h(path), 1, check=ok("could not write the database"))
	query(c, s, {"ases": ases, "countries": {}, "meta": ["", "", ""]}, path, rng, t0)
	c.bump("databases_crowd")
	c.run_script(binary, s, timeout=300)
	if os.path.exists(path):
		os.unlink(path)


def main():
	c = Check("C02", rule="random sets of autonomous systems, countries and metadata strings (shared prefixes and suffixes, empty and huge names, "
		"any order, duplicates, renames, repeated writes) are written, read back one by one and as a whole; "
		"non-trivial: a key that was added, with its name and continent")
	binary = build.driver("asan")
	plain = build.driver("plain", opt="-O2")
	c.parallel(lambda i: case(c, binary, i) if i >= 0 else crowd(c, plain), range(-1, c.scale(300, 3000)))
	return c.finish()
