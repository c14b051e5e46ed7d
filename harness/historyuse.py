"""
Runs random sequences of the commands of the importer, in which sources change, fail and come back while time passes, and compares the tables with a model after every command.

historyuse.py <seed> <case> <scratch directory> <location-importer>
"""
import gzip
import http.client
import ipaddress
import json
import os
import random
import shutil
import sys
import time
import urllib.error

from harness import importer, pgsql, rep

DAY = 86400
CODES = ["DE", "FR", "GB", "US", "CA", "JP", "BR", "ZA", "AU"]
ZONES = {"AFRINIC": 41, "APNIC": 101, "ARIN": 23, "JPNIC": 61, "LACNIC": 177, "RIPE": 80}
PAGES = {"AFRINIC": ["afrinic.db.gz"], "APNIC": ["apnic.db.inet6num.gz", "apnic.db.inetnum.gz", "apnic.db.aut-num.gz", "apnic.db.organisation.gz"], "ARIN": ["delegated-arin-extended-latest", "asns.csv"], "JPNIC": ["jpirr.db.gz"],
	"LACNIC": ["lacnic.db.gz", "delegated-lacnic-extended-latest"], "RIPE": ["ripe.db.inet6num.gz", "ripe.db.inetnum.gz", "ripe.db.aut-num.gz", "ripe.db.organisation.gz"]}
FEEDS = {"AWS-IP-RANGES": "ip-ranges.json", "SPAMHAUS-DROP": "drop.txt", "SPAMHAUS-DROPV6": "dropv6.txt", "SPAMHAUS-ASNDROP": "asndrop.json"}
FLAGS = ("is_anonymous_proxy", "is_satellite_provider", "is_anycast", "is_drop")
KEYS = dict(zip(FLAGS, ("is-anonymous-proxy", "is-satellite-provider", "is-anycast", "drop")))


def sub(n, rng, v4=32, v6=64):
	"""A network inside"""
	p = min(n.prefixlen + rng.choice([1, 2, 4, 8]), v4 if n.version == 4 else v6)
	bits = n.max_prefixlen
	return ipaddress.ip_network((int(n.network_address) + (rng.randrange(2**(p - n.prefixlen)) << (bits - p)), p))


class History:
	def __init__(self, seed, case, scratch, command):
		self.rng = random.Random("C31-%s-%s" % (seed, case))
		self.dir = os.path.join(scratch, "history-%d" % case)
		shutil.rmtree(self.dir, ignore_errors=True)
		os.makedirs(self.dir)
		pgsql.reset(os.path.join(self.dir, "db"))
		self.imp = importer.Importer(command)
		self.pages = {}
		self.fetched = []
		self.steps = []
		self.birds = 0

		# The model
		self.countries = {}
		self.networks = {}		# source -> {network: country}
		self.autnums = {}		# source -> {asn: name}
		self.links = {}			# source -> {(network, url)}
		self.announcements = {}	# network -> (asn, seen)
		self.feeds = {}			# source -> {network or asn: row}
		self.geofeeds = {}		# url -> [updated, data]
		self.net_overrides = {}
		self.as_overrides = {}
		self.urls = ["https://geofeed.example/%d.csv" % i for i in range(5)]
		# Some histories are all about geofeeds
		self.focus = self.rng.random() < 0.35
		importer.web = self.web

	def web(self, url):
		if "geofeed.example" in url:
			self.fetched.append(url)
			time.sleep(self.rng.choice([0, 0.001, 0.003]))
		page = self.pages.get(url, self.pages.get(url.rsplit("/", 1)[1], b""))
		if isinstance(page, Exception):
			raise page
		if url.endswith(".gz"):
			return gzip.compress(page), "application/x-gzip"
		return page

	def trouble(self, url="https://x/"):
		return self.rng.choice([urllib.error.URLError("broken"), importer.not_found(url), TimeoutError("timed out"), http.client.IncompleteRead(b""), ConnectionResetError("reset"), urllib.error.HTTPError(url, 503, "Unavailable", {}, None)])

	def run(self, *args, expect=0):
		self.steps.append("%s -> %s" % (" ".join(args), "ok" if expect == 0 else "fails"))
		r = self.imp.run(*args)
		if pgsql.unsupported:
			return
		rep.count(("command", args[0], expect))
		failed = r != 0
		if failed != (expect != 0):
			rep.violation("%s: %s" % (args[0], "fails" if failed else "does not fail"), "%r %s\n%s" % (r, self.steps, pgsql.failures[:3]))

	# Commands

	def import_countries(self):
		rng = self.rng
		path = os.path.join(self.dir, "countries")
		if rng.random() < 0.1 and self.countries:
			self.run("import-countries", os.path.join(self.dir, "nowhere"), expect=2)
			return
		new = {cc: (rng.choice(["EU", "NA", "AS", "AF"]), "%s of %d" % (cc, rng.randrange(100))) for cc in rng.sample(CODES, rng.randint(5, len(CODES)))}
		with open(path, "w") as f:
			for cc, (continent, name) in new.items():
				f.write("%s %s %s\n" % (cc, continent, name))
		self.run("import-countries", path)
		self.countries = new

	def whois(self):
		rng = self.rng
		chosen = rng.sample(sorted(ZONES), rng.randint(1, 6)) if rng.random() < 0.6 else []
		failing = False
		for source in chosen or sorted(ZONES):
			pages, networks, autnums, links = self.whois_source(source)
			if rng.random() < 0.2:
				# One of the files is broken
				broken = rng.choice(PAGES[source])
				for p, data in pages.items():
					self.pages[p] = data
				self.pages[broken] = self.trouble()
				failing = True
				continue
			self.pages.update(pages)
			if self.countries:
				self.networks[source], self.autnums[source], self.links[source] = networks, autnums, links
		if not self.countries:
			failing = True
		self.run("update-whois", *chosen, expect=1 if failing else 0)

	def whois_source(self, source):
		rng = self.rng
		zone = ZONES[source]
		pages = {p: b"" for p in PAGES[source]}
		networks, autnums, links = {}, {}, set()

		def pool(base4, base6, amount):
			nets = []
			for _ in range(amount):
				n = rng.choice([base4, base6, *nets])
				n = sub(n, rng)
				if n not in nets:
					nets.append(n)
			return nets
		base4, base6 = ipaddress.ip_network("%d.0.0.0/9" % zone), ipaddress.ip_network("2a%02x::/17" % zone)
		if source != "ARIN":
			blocks = {"net": [], "as": [], "org": []}
			for n in pool(base4, base6, rng.randint(0, 12)):
				cc = rng.choice([None, *CODES])
				networks[n] = cc if cc in self.countries else None
				text = "inet6num: %s" % n if n.version == 6 else "inetnum: %s - %s" % (n[0], n[-1])
				if cc:
					text += "\ncountry: %s" % cc
				if rng.random() < 0.25:
					url = rng.choice(self.urls)
					links.add((n, url))
					text += "\nremarks: Geofeed %s" % url
				blocks["net"].append(text)
			for i in range(rng.randint(0, 4)):
				asn = zone * 200 + rng.randrange(100)
				if asn in autnums:
					continue
				autnums[asn] = "Name %d" % rng.randrange(1000)
				blocks["as"].append("aut-num: AS%d\norg: ORG-%d" % (asn, asn))
				blocks["org"].append("organisation: ORG-%d\norg-name: %s" % (asn, autnums[asn]))
			names = PAGES[source]
			join = lambda *kinds: "\n\n".join(b for k in kinds for b in rng.sample(blocks[k], len(blocks[k]))).encode()
			if len(names) == 4:
				pages[names[0]], pages[names[2]], pages[names[3]] = join("net"), join("as"), join("org")
			else:
				pages[names[0]] = join("net", "as", "org")
		if source in ("ARIN", "LACNIC"):
			lines = []
			for n in pool(ipaddress.ip_network("%d.128.0.0/9" % zone), ipaddress.ip_network("2a%02x:8000::/17" % zone), rng.randint(0, 8)):
				cc = rng.choice(CODES)
				if cc in self.countries:
					networks[n] = cc
				lines.append("%s|%s|ipv%d|%s|%d|20100101|allocated|x" % (source.lower(), cc, n.version, n.network_address, n.num_addresses if n.version == 4 else n.prefixlen))
			pages[PAGES[source][0 if source == "ARIN" else 1]] = "\n".join(lines).encode()
		if source == "ARIN":
			text = '"Org Handle","Org Name","Start AS Number","End AS Number","Status"\r\n'
			for _ in range(rng.randint(0, 4)):
				asn = zone * 200 + rng.randrange(100)
				if asn in autnums:
					continue
				autnums[asn] = "Name %d" % rng.randrange(1000)
				text += '"X","%s","%d","%d","Full Registry Services"\r\n' % (autnums[asn], asn, asn)
			pages["asns.csv"] = text.encode()
		return pages, networks, autnums, links

	def update_announcements(self):
		rng = self.rng
		routes = {}
		for _ in range(rng.randint(0, 10)):
			if self.announcements and rng.random() < 0.5:
				n = rng.choice(sorted(self.announcements, key=str))
			else:
				n = sub(ipaddress.ip_network(rng.choice(["80.0.0.0/12", "2a50::/28", "23.0.0.0/12"])), rng, 24, 48)
			routes[n] = rng.choice([174, 3356, 13335, 4199999999])
		# Those whose AS is only found in the details
		aggregated = {str(n): asn for n, asn in routes.items() if rng.random() < 0.3}
		data = "1007-Table master4:\n" + "".join(" %s unicast [bgp1 2024-01-01] * (100) [%si]\n" % (n, "AS%d" % asn if str(n) not in aggregated else "") for n, asn in routes.items()) + "0000 \n"
		broken = rng.random() < 0.15
		self.birds += 1
		path = os.path.join(self.dir, "bird%d" % self.birds)

		def answers(command):
			if command == "show route":
				return (data[:-6].encode(), False) if broken else (data.encode(), True)
			n = command.split()[2]
			return (" %s unicast [bgp1 2024-01-01] * (100) [i]\n \tBGP.as_path: 65000 %d {5678}\n0000 \n" % (n, aggregated[n])).encode(), True
		bird = importer.Bird(path, answers, lambda d: [d])
		self.run("update-announcements", path, expect=1 if broken else 0)
		bird.stop()
		if broken:
			return
		for n, asn in routes.items():
			self.announcements[n] = (asn, pgsql.clock)
		self.announcements = {n: (asn, seen) for n, (asn, seen) in self.announcements.items() if seen > pgsql.clock - 14 * DAY}

	def update_feeds(self):
		rng = self.rng
		chosen = rng.sample(sorted(FEEDS), rng.randint(1, 4)) if rng.random() < 0.6 else []
		failing = False
		if rng.random() < 0.2:
			c = pgsql.Connection()
			c.db.execute("INSERT INTO network_feeds(network, source, is_drop) VALUES('95.0.0.0/24', 'OLD-FEED', 1)")
			c.db.execute("INSERT INTO autnum_feeds(number, source, is_drop) VALUES(12, 'OLD-FEED', 1)")
			c.close()
		for source in chosen or sorted(FEEDS):
			page = FEEDS[source]
			rows = {}
			nets = {sub(ipaddress.ip_network("2a51::/20" if source == "SPAMHAUS-DROPV6" else "81.0.0.0/12"), rng) for _ in range(rng.randint(1, 6))}
			if source == "AWS-IP-RANGES":
				prefixes = []
				for n in nets:
					region, cc = rng.choice([("eu-central-1", "DE"), ("us-east-1", "US"), ("GLOBAL", None)])
					rows[str(n)] = (cc, int(region == "GLOBAL"), None)
					prefixes.append({"ip_prefix": str(n), "region": region})
				data = json.dumps({"prefixes": prefixes, "ipv6_prefixes": []}).encode()
			elif source == "SPAMHAUS-ASNDROP":
				data = b""
				for _ in range(rng.randint(0, 4)):
					asn = rng.choice([174, 3356, 13335, 666])
					rows[asn] = (None, None, 1)
					data += json.dumps({"asn": asn}).encode() + b"\n"
			else:
				rows = {str(n): (None, None, 1) for n in nets}
				data = "".join("%s ; x\n" % n for n in nets).encode()
			if rng.random() < 0.2:
				self.pages[page] = self.trouble() if source == "SPAMHAUS-ASNDROP" or rng.random() < 0.6 else rng.choice([b"", b"<html>\n"]) if source != "AWS-IP-RANGES" else rng.choice([data[:-3], b""])
				failing = True
				continue
			self.pages[page] = data
			self.feeds[source] = rows
		self.run("update-feeds", *chosen, expect=1 if failing else 0)

	def update_overrides(self):
		rng = self.rng
		files, nets, ases, links = [], {}, {}, set()
		for i in range(rng.randint(1, 3)):
			blocks = []
			for _ in range(rng.randint(0, 5)):
				kind = rng.choice(["net", "net", "aut-num", "geofeed", "bad"])
				flags = {f: rng.choice([None, None, True, False]) for f in FLAGS}
				cc = rng.choice([None, *CODES])
				lines = ["%s: %s" % (KEYS[f], rng.choice(["yes", "1", "YES"]) if v else rng.choice(["no", "0"])) for f, v in flags.items() if v is not None]
				if cc:
					lines.append("country:   %s" % cc)
				row = (cc, *(None if flags[f] is None else int(flags[f]) for f in FLAGS))
				rng.shuffle(lines)
				if kind == "net":
					n = sub(ipaddress.ip_network(rng.choice(["82.0.0.0/12", "2a52::/20"])), rng)
					nets.setdefault(str(n), row)
					blocks.append(["net: %s" % n, *lines])
				elif kind == "aut-num":
					asn = rng.choice([174, 3356, 13335, 666])
					name = rng.choice([None, "Override %d" % rng.randrange(100)])
					ases.setdefault(asn, (name, *row))
					blocks.append(["aut-num: AS%d" % asn, *(["name: %s" % name] if name else []), *lines])
				elif kind == "geofeed":
					url = rng.choice(self.urls)
					if rng.random() < 0.5:
						n = sub(ipaddress.ip_network("83.0.0.0/12"), rng)
						links.add((n, url))
						blocks.append(["geofeed: %s" % url, "network: %s" % n])
					else:
						links |= {(ipaddress.ip_network("::/0"), url), (ipaddress.ip_network("0.0.0.0/0"), url)}
						blocks.append(["geofeed: %s" % url])
				else:
					blocks.append(rng.choice([["net: 0.0.0.0/0", "country: DE"], ["net: ::/0", "country: DE"], ["net: nonsense", "country: DE"], ["net: 1.2.3.0/33"], ["aut-num: 174", "name: Bad"], ["something: else"], ["geofeed: http://insecure.example/"]]))
			path = os.path.join(self.dir, "override-%d" % i)
			with open(path, "w") as f:
				f.write("# A comment\n\n" + "\n\n".join("\n".join(b) for b in blocks) + "\n")
			files.append(path)
		if rng.random() < 0.15:
			# The last file does not exist
			self.run("update-overrides", *files, os.path.join(self.dir, "nowhere"), expect=1)
			return
		self.run("update-overrides", *files)
		self.net_overrides, self.as_overrides, self.links["overrides"] = nets, ases, links
		for _, url in links:
			self.geofeeds.setdefault(url, [None, {}])

	def update_geofeeds(self):
		rng = self.rng
		linked = {url for links in self.links.values() for _, url in links}
		for url in list(self.geofeeds):
			if url not in linked:
				del self.geofeeds[url]
		for url in linked:
			self.geofeeds.setdefault(url, [None, {}])
		wanted = set()
		for url in self.urls:
			data = {}
			for _ in range(rng.randint(0, 5)):
				n = sub(ipaddress.ip_network(rng.choice(["84.0.0.0/12", "2a54::/20"])), rng)
				data[str(n)] = rng.choice(CODES)
			page = "".join("%s,%s,,,\n" % x for x in data.items()).encode()
			state = rng.choice(["ok", "ok", "ok", "missing", "broken"] + ["ok", "broken"] * self.focus)
			if state == "missing":
				page = importer.not_found(url)
			elif state == "broken":
				page = rng.choice([urllib.error.HTTPError(url, rng.choice([410, 500]), "Oops", {}, None), urllib.error.URLError("broken"), TimeoutError("timed out"), ConnectionResetError("reset"), urllib.error.HTTPError(url, rng.choice([500, 410, 403, 400, 405, 429, 451, 503, 304]), "Oops", {}, None), http.client.IncompleteRead(b""), gzip.compress(page + b"85.0.0.0/24,DE,,,\n" * 500)[:30], gzip.compress(page + b"85.0.0.0/24,DE,,,\n" * 10)[:-6]])
			self.pages[url] = page
			g = self.geofeeds.get(url)
			if not g or g[0] is not None and g[0] > pgsql.clock - 7 * DAY:
				continue
			wanted.add(url)
			if state == "ok":
				g[0], g[1] = pgsql.clock, data
			elif state == "missing":
				g[1] = {}
		for g in self.geofeeds.values():
			if g[0] is None or g[0] <= pgsql.clock - 14 * DAY:
				g[1] = {}
		self.fetched.clear()
		self.run("update-geofeeds")
		if sorted(self.fetched) != sorted(wanted) and not pgsql.unsupported:
			rep.violation("geofeeds: not those which are due have been fetched, once", "%s instead of %s: %s" % (sorted(self.fetched), sorted(wanted), self.steps))

	def many(self):
		"""More geofeeds than there are connections"""
		n = ipaddress.ip_network("83.0.0.0/12")
		links = {(sub(n, self.rng), "https://geofeed.example/many-%d.csv" % i) for i in range(self.rng.choice([520, 600]))}
		path = os.path.join(self.dir, "override-many")
		with open(path, "w") as f:
			f.write("\n\n".join("geofeed: %s\nnetwork: %s" % (url, n) for n, url in sorted(links, key=str)) + "\n")
		self.run("update-overrides", path)
		self.net_overrides, self.as_overrides, self.links["overrides"] = {}, {}, links
		urls, self.urls = self.urls, sorted(url for _, url in links)
		self.update_geofeeds()
		self.judge()
		self.urls = urls
		self.run("update-overrides", os.path.join(self.dir, "override-none"), expect=1)
		open(os.path.join(self.dir, "override-none"), "w").close()
		self.run("update-overrides", os.path.join(self.dir, "override-none"))
		self.links["overrides"] = set()
		self.update_geofeeds()

	def wait(self):
		if self.focus:
			pgsql.clock += self.rng.choice([7 * DAY, 8 * DAY, 10 * DAY, 13 * DAY, 3 * DAY])
			self.steps.append("wait until %d" % pgsql.clock)
			return
		pgsql.clock += self.rng.choice([3600, DAY, 3 * DAY, 7 * DAY - 1, 7 * DAY, 7 * DAY + 1, 10 * DAY, 14 * DAY - 1, 14 * DAY, 14 * DAY + 1])
		self.steps.append("wait until %d" % pgsql.clock)

	# Judgement

	def compare(self, what, got, want):
		rep.count(None)
		if got != want:
			missing = {k: want[k] for k in want if k not in got}
			extra = {k: got[k] for k in got if k not in want}
			differ = {k: (got[k], want[k]) for k in got if k in want and got[k] != want[k]}
			problem = "missing" if missing else "stale or foreign" if extra else "wrong"
			rep.violation("%s: %s entries after %s" % (what, problem, self.steps[-1].split()[0]), "missing %s, too much %s, different (got, expected) %s\n%s\n%s" % (dict(list(missing.items())[:5]), dict(list(extra.items())[:5]), dict(list(differ.items())[:5]), self.steps, pgsql.failures[:3]))

	def judge(self):
		if pgsql.unsupported:
			return
		t = importer.rows
		self.compare("countries", {r["country_code"]: (r["continent_code"], r["name"]) for r in t("countries")}, self.countries)
		# What a network gets is decided by the most specific entry that has a country
		stored = {}
		for r in t("networks"):
			stored.setdefault(r["source"], {})[ipaddress.ip_network(r["network"])] = r["country"]
		for source in sorted({*stored, *self.networks}):
			want, got = self.networks.get(source, {}), stored.get(source, {})
			self.compare("networks", {str(n): effective(got, n) for n in want}, {str(n): effective(want, n) for n in want})
			self.compare("networks", {str(n): cc for n, cc in got.items() if n not in want}, {})
			rep.bump("networks", len(want))
		self.compare("autnums", {r["number"]: (r["name"], r["source"]) for r in t("autnums")}, {asn: (name, s) for s, a in self.autnums.items() for asn, name in a.items()})
		self.compare("network_geofeeds", {(r["network"], r["url"]): 1 for r in t("network_geofeeds")}, {(str(n), url): 1 for links in self.links.values() for n, url in links})
		self.compare("announcements", {r["network"]: (r["autnum"], r["last_seen_at"]) for r in t("announcements")}, {str(n): v for n, v in self.announcements.items()})
		self.compare("network_feeds", {(r["network"], r["source"]): (r["country"], r["is_anycast"], r["is_drop"]) for r in t("network_feeds")},
			{(n, s): v for s, f in self.feeds.items() if s != "SPAMHAUS-ASNDROP" for n, v in f.items()})
		self.compare("autnum_feeds", {(r["number"], r["source"]): r["is_drop"] for r in t("autnum_feeds")}, {(a, s): 1 for s, f in self.feeds.items() if s == "SPAMHAUS-ASNDROP" for a in f})
		self.compare("network_overrides", {r["network"]: (r["country"], *(r[f] for f in FLAGS)) for r in t("network_overrides")}, self.net_overrides)
		self.compare("autnum_overrides", {r["number"]: (r["name"], r["country"], *(r[f] for f in FLAGS)) for r in t("autnum_overrides")}, self.as_overrides)
		ids = {r["id"]: r["url"] for r in t("geofeeds")}
		self.compare("geofeeds", {r["url"]: r["updated_at"] for r in t("geofeeds")}, {u: g[0] for u, g in self.geofeeds.items()})
		self.compare("geofeed_networks", {(r["network"], ids.get(r["geofeed_id"])): r["country"] for r in t("geofeed_networks")}, {(n, u): cc for u, g in self.geofeeds.items() for n, cc in g[1].items()})



def effective(entries, n):
	m = [(e.prefixlen, cc) for e, cc in entries.items() if cc is not None and e.version == n.version and n.subnet_of(e)]
	return max(m)[1] if m else None


def main():
	seed, case, scratch, command = sys.argv[1:5]
	for i in range(2):
		h = History(seed, int(case) * 10 + i, scratch, command)
		if h.rng.random() < 0.9:
			h.import_countries()
		else:
			h.whois()
		h.judge()
		if i == 0 and int(case) % 40 == 0:
			h.many()
			h.judge()
		for _ in range(h.rng.randint(8, 16)):
			h.rng.choice([h.update_geofeeds, h.wait, h.update_geofeeds, h.wait, h.whois if h.rng.random() < 0.2 else h.wait] if h.focus and h.geofeeds else [h.import_countries, h.whois, h.whois, h.update_announcements, h.update_announcements, h.update_feeds, h.update_overrides, h.update_geofeeds, h.update_geofeeds, h.update_geofeeds, h.wait, h.wait, h.wait])()
			h.judge()
			if pgsql.unsupported:
				rep.bump("not_judged")
				rep.sample("not judged: %s" % pgsql.unsupported[0])
				break
		rep.count(("history", case, i), 0)
		if int(case) % 20 == 0:
			rep.sample(h.steps)
		rep.bump("statements", pgsql.statements)
		pgsql.statements = 0
		shutil.rmtree(h.dir, ignore_errors=True)
	rep.done()


main()
