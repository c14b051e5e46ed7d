"""
Fills the database of the importer with entries that overlap in every way, has a database written, and compares the answers with the rules.

compileuse.py <seed> <case> <scratch directory> <location-importer> <directory with keys>
"""
import ipaddress
import os
import random
import shutil
import sys

import location

from harness import importer, pgsql, rep

FLAGS = (("is_anonymous_proxy", location.NETWORK_FLAG_ANONYMOUS_PROXY), ("is_satellite_provider", location.NETWORK_FLAG_SATELLITE_PROVIDER), ("is_anycast", location.NETWORK_FLAG_ANYCAST), ("is_drop", location.NETWORK_FLAG_DROP))
CODES = ["DE", "FR", "GB", "US", "CA", "JP", "BR", "ZA", "AU", "EU"]


def norm(text):
	n = ipaddress.ip_network(text)
	return n.version, int(n.network_address), n.prefixlen


def last(n):
	v, a, p = n
	return a + 2**((32 if v == 4 else 128) - p) - 1


def inside(inner, outer):
	return inner[0] == outer[0] and outer[1] <= inner[1] and last(inner) <= last(outer) and outer[2] <= inner[2]


def text(n):
	v, a, p = n
	return "%s/%d" % (ipaddress.IPv4Address(a) if v == 4 else ipaddress.IPv6Address(a), p)


class Space:
	"""Networks that are often in each other"""
	def __init__(self, rng):
		self.rng = rng
		self.bases = [(4, rng.choice([80, 81, 82]) << 24 | rng.randrange(256) << 16, 16) for _ in range(rng.randint(1, 2))] + [(6, 0x2a << 120 | rng.randrange(2**8) << 96, 32) for _ in range(rng.randint(1, 2))]
		self.known = list(self.bases)

	def net(self):
		rng = self.rng
		r = rng.random()
		if r < 0.35:
			return rng.choice(self.known)
		v, a, p = rng.choice(self.known)
		top = 32 if v == 4 else rng.choice([64, 128])
		if r < 0.5:
			np = max(p - rng.choice([1, 2, 4]), 9 if v == 4 else 16)
		else:
			np = min(p + rng.choice([1, 1, 2, 4, 8]), top)
		bits = 32 if v == 4 else 128
		if np > p:
			a += rng.randrange(2**(np - p)) << (bits - np)
		a = a >> (bits - np) << (bits - np)
		n = (v, a, np)
		if n not in self.known:
			self.known.append(n)
		return n


def best(entries, n):
	"""The most specific entry which contains the network"""
	m = [(e[2], row) for e, row in entries.items() if inside(n, e)]
	return max(m, key=lambda x: x[0])[1] if m else None


def apply(state, row):
	for k, v in row.items():
		if v is not None:
			state[k] = v


def rules(t):
	"""What the networks get"""
	nets = {*t["announcements"], *t["networks"], *t["network_feeds"], *t["network_overrides"], *(n for n, _ in t["geofeed_networks"])}
	geo = {}
	for (n, url), cc in t["geofeed_networks"].items():
		if any(u == url and inside(n, permitted) for permitted, u in t["network_geofeeds"]):
			geo[n] = cc
	out = {}
	for n in nets:
		state = {"country": None, **{f: None for f, _ in FLAGS}}
		asn = best(t["announcements"], n)
		m = [(e[2], cc) for e, cc in t["networks"].items() if inside(n, e)]
		if m:
			state["country"] = max(m, key=lambda x: x[0])[1]
		cc = best(geo, n)
		if cc:
			state["country"] = cc
		for row in (best(t["network_feeds"], n), t["autnum_feeds"].get(asn), best(t["network_overrides"], n), t["autnum_overrides"].get(asn)):
			if row:
				apply(state, {k: v for k, v in row.items() if k != "name"})
		out[n] = (state["country"], asn, sum(flag for f, flag in FLAGS if state[f]))
	return out


def flags(rng, some):
	return {f: rng.choice([None, None, None, True, False]) if f in some else None for f, _ in FLAGS}


def main():
	seed, case, scratch, command, keys = sys.argv[1:6]
	for sub in range(3):
		run(seed, int(case) * 10 + sub, scratch, command, keys)
	rep.done()


def run(seed, case, scratch, command, keys):
	rng = random.Random("C30-%s-%s" % (seed, case))
	d = os.path.join(scratch, "compile-%d" % case)
	shutil.rmtree(d, ignore_errors=True)
	os.makedirs(d)
	pgsql.reset(os.path.join(d, "db"))
	imp = importer.Importer(command)
	countries = {cc: (rng.choice(["EU", "NA", "AS", "AF", "SA", "OC", "AN"]), "Country %s" % cc) for cc in rng.sample(CODES, rng.randint(1, len(CODES)))}
	with open(os.path.join(d, "countries"), "w") as f:
		for cc, (continent, name) in countries.items():
			f.write("%s %s %s\n" % (cc, continent, name))
	r = imp.run("import-countries", os.path.join(d, "countries"))
	if pgsql.unsupported:
		return unjudged(d)
	if r:
		rep.violation("import-countries fails", repr(r))
		return

	space = Space(rng)
	t = {"announcements": {}, "networks": {}, "network_feeds": {}, "network_overrides": {}, "geofeed_networks": {}, "network_geofeeds": set(), "autnum_feeds": {}, "autnum_overrides": {}, "autnums": {}}
	asns = [rng.choice([rng.randint(1, 400000), rng.randint(2**31, 4199999999), 1, 4199999999]) for _ in range(rng.randint(1, 8))]
	density = rng.choice([0.3, 1, 1, 2])
	amount = lambda n: rng.randint(0, int(n * density))
	for _ in range(amount(15)):
		t["announcements"][space.net()] = rng.choice(asns)
	for _ in range(amount(20)):
		t["networks"][space.net()] = rng.choice([None, *CODES, *CODES])
	all_flags = [f for f, _ in FLAGS]
	sources = {}
	for _ in range(amount(8)):
		n = space.net()
		t["network_feeds"][n] = {"country": rng.choice([None, *CODES]), **flags(rng, all_flags)}
		sources[n] = rng.choice(["AWS-IP-RANGES", "SPAMHAUS-DROP", "SPAMHAUS-DROPV6"])
	for _ in range(amount(8)):
		t["network_overrides"][space.net()] = {"country": rng.choice([None, *CODES]), **flags(rng, all_flags)}
	for _ in range(amount(3)):
		t["autnum_feeds"][rng.choice(asns)] = {"country": rng.choice([None, None, *CODES]), **flags(rng, all_flags)}
	for _ in range(amount(3)):
		t["autnum_overrides"][rng.choice([*asns, 17])] = {"name": rng.choice([None, None, "", "Override %d" % rng.randrange(1000)]), "country": rng.choice([None, None, *CODES]), **flags(rng, all_flags)}
	urls = ["https://geofeed.example/%d" % i for i in range(amount(3))]
	seen = set()
	for url in urls:
		for _ in range(rng.randint(0, 3)):
			t["network_geofeeds"].add((rng.choice([space.net(), (4, 0, 0), (6, 0, 0)]), url))
		for _ in range(rng.randint(0, 6)):
			n = space.net()
			if n not in seen:
				seen.add(n)
				t["geofeed_networks"][(n, url)] = rng.choice(CODES)
	for asn in [*asns, 17, 4200]:
		if rng.random() < 0.7:
			t["autnums"][asn] = rng.choice(["", "Name of %d" % asn, "Name of %d" % asn, "\u00dcber %d" % asn])

	c = pgsql.Connection()
	ids = {}

	def insert(table, **row):
		c.db.execute("INSERT INTO %s(%s) VALUES(%s)" % (table, ", ".join(row), ", ".join("?" * len(row))), [int(v) if isinstance(v, bool) else v for v in row.values()])
	c.db.execute("BEGIN")
	jobs = []
	for n, asn in t["announcements"].items():
		jobs.append(("announcements", dict(network=text(n), autnum=asn)))
	for n, cc in t["networks"].items():
		jobs.append(("networks", dict(network=text(n), country=cc, source=rng.choice(["RIPE", "ARIN"]))))
	for n, row in t["network_feeds"].items():
		jobs.append(("network_feeds", dict(network=text(n), source=sources[n], **row)))
	for n, row in t["network_overrides"].items():
		jobs.append(("network_overrides", dict(network=text(n), **row)))
	for asn, row in t["autnum_feeds"].items():
		jobs.append(("autnum_feeds", dict(number=asn, source="SPAMHAUS-ASNDROP", **row)))
	for asn, row in t["autnum_overrides"].items():
		jobs.append(("autnum_overrides", dict(number=asn, **row)))
	for asn, name in t["autnums"].items():
		jobs.append(("autnums", dict(number=asn, name=name, source="RIPE")))
	for i, url in enumerate(urls):
		ids[url] = i + 1
		insert("geofeeds", id=i + 1, url=url)
	for n, url in t["network_geofeeds"]:
		jobs.append(("network_geofeeds", dict(network=text(n), url=url, source="RIPE")))
	for (n, url), cc in t["geofeed_networks"].items():
		jobs.append(("geofeed_networks", dict(geofeed_id=ids[url], network=text(n), country=cc)))
	rng.shuffle(jobs)
	for table, row in jobs:
		insert(table, **row)
	c.db.execute("COMMIT")
	c.close()

	# Write
	out = os.path.join(d, "out.db")
	args, meta = [], {}
	for name in ("vendor", "description", "license"):
		if rng.random() < 0.5:
			meta[name] = "The %s \u00e4 %d" % (name, rng.randrange(1000))
			args += ["--%s" % name, meta[name]]
	signed = []
	if rng.random() < 0.4:
		args += ["--signing-key", os.path.join(keys, "prime256v1.pem")]
		signed.append("prime256v1")
		if rng.random() < 0.5:
			args += ["--backup-signing-key", os.path.join(keys, "secp384r1.pem")]
			signed.append("secp384r1")
	r = imp.run("write", out, *args)
	if pgsql.unsupported:
		return unjudged(d)
	rep.count(("written", len(t["announcements"]) > 0, len(t["networks"]) > 0, len(t["network_feeds"]) > 0, len(t["network_overrides"]) > 0, len(t["geofeed_networks"]) > 0, len(t["autnum_feeds"]) > 0, len(t["autnum_overrides"]) > 0))
	if r != 0:
		rep.violation("write fails: %s" % type(r).__name__, "%r %s %s" % (r, t, pgsql.failures))
		return

	nets = rules(t)
	show = lambda: {k: {text(n[0] if isinstance(n[0], tuple) else n) if isinstance(n, tuple) else n: (v[n] if isinstance(v, dict) else n[1]) for n in v} for k, v in t.items()}
	try:
		db = location.Database(out)
	except Exception as e:
		rep.violation("the database cannot be opened", repr(e))
		return

	# Addresses at and around every boundary
	addresses = set()
	for n in nets:
		top = 2**(32 if n[0] == 4 else 128) - 1
		for a in (n[1] - 1, n[1], last(n), last(n) + 1, rng.randint(n[1], last(n))):
			if 0 <= a <= top:
				addresses.add((n[0], a))
	seen = set()
	for v, a in sorted(addresses):
		covering = [n for n in nets if n[0] == v and n[1] <= a <= last(n)]
		want = nets[max(covering, key=lambda n: n[2])] if covering else None
		s = str(ipaddress.IPv4Address(a) if v == 4 else ipaddress.IPv6Address(a))
		got = db.lookup(s)
		answer = None if got is None else (got.country_code or None, got.asn, sum(flag for _, flag in FLAGS if got.has_flag(flag)))
		rep.count(None)
		seen.add(want)
		if answer != want:
			rep.violation("the answer for an address is not what has been imported", "%s: %s instead of %s\n%s" % (s, answer, want, show()))
			break
	rep.bump("networks_compiled", len(nets))
	rep.bump("distinct_answers", len(seen))
	if case % 20 == 0:
		rep.sample({text(n): v for n, v in list(nets.items())[:6]})

	# Autonomous systems
	want = {}
	for asn, name in t["autnums"].items():
		o = t["autnum_overrides"].get(asn)
		n = o["name"] if o and o["name"] is not None else name
		if n:
			want[asn] = n
	got = {a.number: a.name for a in db.ases}
	rep.count(("ases", bool(want)))
	if got != want:
		rep.violation("the autonomous systems are not those which have been imported", "%s instead of %s" % (got, want))

	# Countries
	got = {c.code: (c.continent_code, c.name) for c in db.countries}
	rep.count(None)
	if got != countries:
		rep.violation("the countries are not those which have been imported", "%s instead of %s" % (got, countries))

	# Metadata
	for name in ("vendor", "description", "license"):
		if (getattr(db, name) or None) != meta.get(name):
			rep.violation("metadata are not what has been requested", "%s is %r instead of %r" % (name, getattr(db, name), meta.get(name)))
	for key in ("prime256v1", "secp384r1", "other"):
		with open(os.path.join(keys, "%s.pub" % key)) as f:
			ok = db.verify(f)
		rep.count(("signed", len(signed), key in signed))
		if ok != (key in signed):
			rep.violation("signatures are not what has been requested", "%s: %s instead of %s" % (key, ok, key in signed))
	rep.bump("statements", pgsql.statements)
	pgsql.statements = 0
	shutil.rmtree(d, ignore_errors=True)


def unjudged(d):
	rep.bump("not_judged")
	rep.sample("not judged: %s" % pgsql.unsupported[0])
	shutil.rmtree(d, ignore_errors=True)


main()
