"""
Feeds the importer with records that are good, inadmissible, malformed and damaged, and looks at what it has stored.

importuse.py <seed> <case> <scratch directory> <location-importer>
"""
import csv
import gzip
import http.client
import io
import ipaddress
import json
import os
import random
import shutil
import signal
import sys
import urllib.error

from harness import importer, pgsql, rep

COUNTRIES = {"DE": "EU", "FR": "EU", "GB": "EU", "US": "NA", "CA": "NA", "JP": "AS", "KR": "AS", "CN": "AS", "BR": "SA", "ZA": "AF", "AU": "OC", "EU": "EU", "AP": "AS", "IE": "EU", "SE": "EU", "SG": "AS", "IN": "AS"}

# What must never be stored, and what is not judged
V4_BAD = [ipaddress.ip_network(n) for n in ("0.0.0.0/8", "10.0.0.0/8", "100.64.0.0/10", "127.0.0.0/8", "169.254.0.0/16", "172.16.0.0/12", "192.0.2.0/24", "192.168.0.0/16", "198.18.0.0/15",
	"198.51.100.0/24", "203.0.113.0/24", "224.0.0.0/4", "240.0.0.0/4")]
V6_BAD = [ipaddress.ip_network(n) for n in ("2001:db8::/32", "::/3", "4000::/2", "8000::/1")]
UNCLEAR = [ipaddress.ip_network(n) for n in ("192.0.0.0/24", "192.88.99.0/24", "192.31.196.0/24", "192.52.193.0/24", "192.175.48.0/24", "2001::/23", "2002::/16", "3fff::/20", "2620:4f:8000::/48", "5f00::/16")]
BIRD_BAD = [ipaddress.ip_network(n) for n in ("192.0.0.0/24", "192.88.99.0/24", "2002::/16")]

ASN_RANGES = ((1, 23455), (23457, 64495), (131072, 4199999999))


def inadmissible(n, smallest={4: 7, 6: 10}, more=()):
	"""Why a network must not be stored"""
	if n.prefixlen < smallest[n.version]:
		return "too large"
	for bad in [*V4_BAD, *V6_BAD, *more]:
		if bad.version == n.version and n.subnet_of(bad):
			return "in %s" % bad
	return None


def clearly_good(n):
	if inadmissible(n):
		return False
	return not any(x.version == n.version and x.overlaps(n) for x in [*V4_BAD, *V6_BAD, *UNCLEAR])


def asn_ok(n):
	return any(a <= n <= b for a, b in ASN_RANGES)


def edge_asn(rng, good):
	edges = [x for a, b in ASN_RANGES for x in (a, a + 1, b, b - 1)] if good else [0, 23456, 64496, 65535, 65536, 65551, 131071, 4200000000, 4294967295, 4294967296, 2**63, 2**64, 10**30, 64512, 65534]
	if rng.random() < 0.5:
		return rng.choice(edges)
	if good:
		return rng.choice([rng.randint(1, 23455), rng.randint(23457, 64495), rng.randint(131072, 400000), rng.randint(131072, 4199999999)])
	return rng.choice([rng.randint(64496, 131071), rng.randint(4200000000, 2**33)])


class Feed:
	"""Records of one source. Zones keep the records apart: good ones do not overlap."""
	def __init__(self, rng, zone):
		self.rng = rng
		self.zone = zone
		self.v4 = ipaddress.ip_network("%d.0.0.0/8" % zone)
		self.v6 = ipaddress.ip_network("2a%02x::/16" % zone)
		self.next4 = 0
		self.next6 = 0
		self.asns = set()

	def net(self, version=None):
		"""Another network, which does not overlap those before"""
		version = version or self.rng.choice((4, 4, 6))
		if version == 4:
			prefix = self.rng.choice([24, 24, 22, 20, 19, 25, 28, 32])
			size = 2**(32 - prefix)
			self.next4 = -(-self.next4 // size) * size
			n = ipaddress.ip_network((int(self.v4.network_address) + self.next4, prefix))
			self.next4 += size
			return n
		prefix = self.rng.choice([32, 36, 40, 44, 48, 56, 64, 29])
		size = 2**(128 - prefix)
		self.next6 = -(-self.next6 // size) * size
		n = ipaddress.ip_network((int(self.v6.network_address) + self.next6, prefix))
		self.next6 += size
		return n

	def range(self):
		"""A range of addresses which is not a network"""
		self.next4 = -(-self.next4 // 256) * 256 + self.rng.choice([0, 0, 16, 64, 128])
		first = int(self.v4.network_address) + self.next4
		count = self.rng.choice([3, 5, 48, 96, 192, 768, 1280, 255, 257])
		if self.rng.random() < 0.25:
			# Many pieces
			first += 1
			self.next4 += 1
			count = self.rng.choice([4094, 1022, 16382, 2045])
		self.next4 += count
		return ipaddress.ip_address(first), ipaddress.ip_address(first + count - 1), count

	def asn(self, good=True):
		while True:
			n = edge_asn(self.rng, good)
			if not good:
				return n
			if n not in self.asns:
				self.asns.add(n)
				return n

	def bad_net(self, version=None):
		"""A well-formed network which must not be stored"""
		rng = self.rng
		version = version or rng.choice((4, 4, 6))
		if version == 4:
			if rng.random() < 0.3:
				return ipaddress.ip_network(rng.choice(["0.0.0.0/0", "128.0.0.0/1", "64.0.0.0/2", "32.0.0.0/3", "64.0.0.0/4", "80.0.0.0/5", "80.0.0.0/6", "0.0.0.0/32", "255.255.255.255/32", "0.0.0.0/8"]))
			b = rng.choice(V4_BAD)
			p = rng.choice([b.prefixlen, min(32, b.prefixlen + 1), 24, 32])
			p = max(p, b.prefixlen)
			return ipaddress.ip_network((int(b.network_address) + rng.randrange(2**(32 - b.prefixlen)) // 2**(32 - p) * 2**(32 - p), p))
		if rng.random() < 0.4:
			return ipaddress.ip_network(rng.choice(["::/0", "2000::/3", "2000::/4", "2800::/5", "2a00::/7", "2a00::/8", "2a00::/9", "::/128", "::1/128"]))
		b = rng.choice([ipaddress.ip_network(x) for x in ("fc00::/7", "fe80::/10", "ff00::/8", "2001:db8::/32", "fd00::/8", "ff0e::/16", "ff02::/16", "::ffff:0:0/96", "100::/64", "4000::/3", "1000::/12", "fec0::/10")])
		p = max(b.prefixlen, rng.choice([b.prefixlen, 32, 48, 64, 128]))
		return ipaddress.ip_network((int(b.network_address) + rng.randrange(2**(128 - b.prefixlen)) // 2**(128 - p) * 2**(128 - p), p))


def damage(rng, data):
	"""Random damage to the bytes of a record, which stays a record"""
	data = bytearray(data)
	for _ in range(rng.choice([1, 1, 2, 5])):
		op = rng.randrange(5)
		i = rng.randrange(len(data)) if data else 0
		if op == 0 and data:
			del data[i:i + rng.choice([1, 1, 3, 10])]
		elif op == 1:
			data[i:i] = bytes(rng.choice(b"|:,;\"'{}[]-/.#%\\ \t\xff\xc3\x28\x00\xe2\x80\xa8" b"09afZ") for _ in range(rng.choice([1, 2, 5])))
		elif op == 2 and data:
			data[i] = rng.randrange(256)
		elif op == 3 and data:
			del data[i:]
		elif op == 4 and data:
			data[i:i] = data[i:i + rng.choice([5, 20])]
	return bytes(data).replace(b"\n\n", b"\n") if rng.random() < 0.9 else bytes(data)


class Case:
	def __init__(self, seed, case, scratch, command):
		self.rng = random.Random("C29-%s-%s" % (seed, case))
		self.dir = os.path.join(scratch, "import-%d" % case)
		shutil.rmtree(self.dir, ignore_errors=True)
		os.makedirs(self.dir)
		self.case = case
		self.importer = importer.Importer(command)
		self.pages = {}
		# table -> {key: (row, where it comes from)} that must be there
		self.expected = {}
		self.kinds = set()
		self.damaged = 0
		# Without damaged records, it is known precisely what has to be there
		self.precise = self.rng.random() < 0.6
		self.partial = self.rng.random() < 0.3
		importer.web = self.web

	def web(self, url):
		for name, page in self.pages.items():
			if name in url:
				if isinstance(page, Exception):
					raise page
				return page
		return b""

	def run(self, *args, ok=True):
		signal.alarm(60)
		try:
			r = self.importer.run(*args)
		finally:
			signal.alarm(0)
		if pgsql.unsupported:
			return None
		rep.count(None)
		if ok and r != 0:
			rep.violation("%s fails: %s" % (args[0], type(r).__name__ if isinstance(r, BaseException) else "exit code %s" % r), "%r %r\nrecords: %s\nstatements: %s" % (r, args, self.show(), pgsql.failures[:3]))
		return r

	def show(self):
		return {k: (v[:1500] if isinstance(v, bytes) else v) for k, v in self.pages.items()}

	def expect(self, table, key, row, kind):
		self.expected.setdefault(table, {})[key] = (row, kind)

	# Standard format

	def blocks(self, feed):
		rng = self.rng
		out = []
		for _ in range(rng.randint(5, 25)):
			kind, text = self.block(feed)
			self.kinds.add("standard:" + kind)
			if isinstance(text, str):
				text = text.encode("latin1" if rng.random() < 0.2 and all(ord(c) < 256 for c in text) else "utf-8")
			out.append(text)
		rng.shuffle(out)
		last = None
		if rng.random() < 0.4:
			# The last record of the file, which is just one line
			n = feed.net()
			self.kinds.add("standard:one line at the end")
			self.expect("networks", (str(n), feed.source), {"country": None}, "last network")
			out.append(("inetnum: %s - %s" % (n[0], n[-1]) if n.version == 4 else "inet6num: %s" % n).encode())
		ending = rng.choice([b"\n", b"\n", b"\r\n"])
		if rng.random() < 0.5:
			out.insert(0, b"% This is a header\n# and a comment")
		return (b"\n\n".join(t.strip(b"\n") for t in out) + rng.choice([b"\n", b"", b"\n\n\n"])).replace(b"\n", ending)

	def country(self):
		"""(lines of the record, country)"""
		rng = self.rng
		r = rng.random()
		if r < 0.55:
			cc = rng.choice(sorted(COUNTRIES))
			return ["country: %s" % cc], cc
		if r < 0.65:
			cc = rng.choice(sorted(COUNTRIES))
			return ["country:        %s%s" % (cc.lower(), rng.choice(["", " # somewhere", "   "]))], cc
		if r < 0.72:
			return ["country: UK"], "GB"
		if r < 0.82:
			return [rng.choice(["country: ZZ", "country: YU", "country: XQ", "country:", "country: Germany", "country: D", "country: \u00c4\u00d6"])], None
		if r < 0.92:
			a, b = rng.sample(sorted(COUNTRIES), 2)
			return ["country: %s" % a, "country: %s" % b], a
		return [], None

	def block(self, feed):
		rng = self.rng
		r = rng.random() * (0.92 if self.precise else 1)
		noise = rng.sample(["   # A comment", "\t# country: XX", "# country: ZA", "% inetnum: 45.0.0.0 - 45.0.0.255", "netname: SOME-NET", "descr: Some text: with colons", "mnt-by: MNT", "status: ASSIGNED PA", "remarks: hello", "source: TEST # Filtered", "+ continued", "changed", ": no key", "remarks:"], rng.randint(0, 4))

		def build(first, rest):
			rest = list(rest) + noise
			rng.shuffle(rest)
			# The order of countries matters
			order = [x for x in rest if x.startswith("country:")]
			if len(order) == 2:
				rest = [x for x in rest if not x.startswith("country:")] + sorted(order, key=lambda x: countries.index(x))
			return "\n".join([first, *rest])

		if r < 0.25:
			# A good network
			countries, cc = self.country()
			extra, url = list(countries), None
			if rng.random() < 0.3:
				url = "https://geofeed.example/%d-%d.csv" % (feed.zone, rng.randrange(10**6))
				extra.append(rng.choice(["geofeed: %s", "remarks: Geofeed %s", "geofeed:    %s  "]) % url)
			elif rng.random() < 0.2:
				extra.append(rng.choice(["geofeed: http://geofeed.example/insecure.csv", "remarks: Geofeed http://geofeed.example/insecure.csv", "geofeed: ftp://geofeed.example/", "geofeed: https://[::1", "geofeed:", "geofeed: javascript:x"]))
			style = rng.randrange(4)
			if style == 0:
				n = feed.net(6)
				nets = [n]
				first = "inet6num:       %s" % (n if rng.random() < 0.7 else "%s/%d" % (n[min(5, n.num_addresses - 1)], n.prefixlen))
			elif style == 1:
				n = feed.net(4)
				nets = [n]
				first = "inetnum: %s - %s" % (n[0], n[-1])
			elif style == 2:
				a, b, _ = feed.range()
				nets = list(ipaddress.summarize_address_range(a, b))
				first = "inetnum:    %s%s%s" % (a, rng.choice(["-", " - ", "  -  "]), b)
			else:
				n = feed.net(4)
				nets = [n]
				octets = str(n.network_address).split(".")
				text = str(n.network_address)
				if n.prefixlen <= 24 and rng.random() < 0.7:
					text = ".".join(octets[:3])
					if octets[2] == "0" and rng.random() < 0.5 and n.prefixlen <= 24:
						text = ".".join(octets[:2])
				first = "inetnum: %s/%d" % (text, n.prefixlen)
			if self.partial:
				# Some of it is not to be stored, but the rest is
				self.partial = False
				first = "inetnum: %s" % rng.choice(["172.15.255.0 - 172.32.0.255", "192.167.255.128 - 192.169.0.127", "100.63.0.0 - 100.128.0.255", "169.253.255.0 - 169.255.0.255", "198.17.255.0 - 198.20.0.127", "9.255.254.0 - 11.0.1.255", "223.255.254.0 - 224.0.0.255"])
				nets = [n for n in ipaddress.summarize_address_range(*map(ipaddress.ip_address, first.split(": ")[1].split(" - "))) if clearly_good(n)]
				self.kinds.add("standard:partly inadmissible")
			for n in nets:
				self.expect("networks", (str(n), feed.source), {"country": cc}, "good network")
				if url:
					self.expect("network_geofeeds", (str(n), url), {"source": feed.source}, "geofeed")
			return "network", build(first, extra)

		if r < 0.45:
			# An inadmissible network
			countries, cc = self.country()
			n = feed.bad_net()
			return "inadmissible network", build("inetnum: %s - %s" % (n[0], n[-1]) if n.version == 4 and rng.random() < 0.7 else "%s: %s" % ("inetnum" if n.version == 4 else "inet6num", n), countries)

		if r < 0.62:
			# Malformed
			n4, n6 = feed.net(4), feed.net(6)
			countries, cc = self.country()
			a = n4.network_address
			first = rng.choice([
				"inetnum: %s - %s" % (n4[-1], n4[0] if n4.num_addresses > 1 else "0.0.0.0"), "inetnum: %s - %s" % (a, n6.network_address), "inetnum: %s - " % a, "inetnum: - %s" % a, "inetnum: -", "inetnum:",
				"inetnum: %s - nonsense" % a, "inetnum: nonsense", "inetnum: 45.1.2", "inetnum: 45.1", "inetnum: 45", "inetnum: 45.1.2.3.4/24", "inetnum: 45.1.2.0/33", "inetnum: 45.1.2.0/-1", "inetnum: 45.1/", "inetnum: /24",
				"inetnum: 45.1.2/24/24", "inetnum: 1.2.3.256/24", "inetnum: 45.1.2.0/24 extra", "inetnum: . - .", "inetnum: a.b/c", "inetnum: a.b.c/d", "inetnum: %s - %s - %s" % (a, a, a), "inetnum: 45.1.2.0 \u2013 45.1.2.255",
				"inet6num: nonsense", "inet6num:", "inet6num: 2a10::/129", "inet6num: 2a10::/-1", "inet6num: 2a10::%1/32", "inet6num: 2a10:::/32", "inet6num: 2a10::1 - 2a10::ffff", "inet6num: 2a10::/32/32", "inet6num: /", "inet6num: 2a10::g/32",
				"inetnumber: 45.0.0.0/8", "inetnum:: 45.0.0.0/8", "inetnum : 45.0.0.0/8", "inet6num 2a10::/32", "inetnum"])
			return "malformed network", build(first, countries)

		if r < 0.66:
			n = feed.net(4)
			return "placeholder", "inetnum: %s - %s\nnetname: %s\ncountry: DE" % (n[0], n[-1], rng.choice(["ERX-NETBLOCK", "AFRINIC-CIDR-BLOCK", "ARIN-CIDR-BLOCK", "LACNIC-CIDR-BLOCK", "RIPE-CIDR-BLOCK", "IANA-NETBLOCK-8", "NON-RIPE-NCC-MANAGED-ADDRESS-BLOCK",
				"STUB-45-0-0-0SLASH8"]))

		if r < 0.80:
			# AS numbers
			if rng.random() < 0.5:
				asn = feed.asn()
				if rng.random() < 0.6:
					handle = "ORG-%d-TEST" % asn
					name = rng.choice(["Some Organisation", "M\u00fcller & S\u00f6hne", "A: B", "\u4f1a\u793e"]) + " %d" % asn
					self.expect("autnums", asn, {"name": name, "source": feed.source}, "AS with an organisation")
					later = "organisation: %s\norg-name: %s" % (rng.choice([handle, handle.lower()]), name)
					return "AS", ("%s: %s%d\n%sorg: %s\n\n%s" % ("aut-num", rng.choice(["AS", "as", "AS"]), asn, rng.choice(["", "descr: other\n"]), rng.choice([handle, handle.lower()]), later))
				self.expect("autnums", asn, {"name": "Description of %d" % asn, "source": feed.source}, "AS with a description")
				return "AS without organisation", "aut-num: AS%d\nas-name: X\ndescr: Description of %d\ndescr: More" % (asn, asn)
			return "inadmissible AS", "aut-num: AS%d\ndescr: x\norg: ORG-BAD-TEST\n\norganisation: ORG-BAD-TEST\norg-name: Bad" % feed.asn(False)

		if r < 0.92:
			return "malformed AS or organisation", rng.choice(["aut-num: ASfoo\ndescr: x", "aut-num: AS\ndescr: x", "aut-num:\ndescr: x", "aut-num: 1234\ndescr: x", "aut-num: AS-1\ndescr: x", "aut-num: AS%dx\ndescr: x" % feed.asn(), "aut-num: AS%d AS%d\ndescr: x" % (feed.asn(), feed.asn()), "aut-num: xAS%d\ndescr: x" % feed.asn(), "aut-num: AS%d.5\ndescr: x" % feed.asn(), "aut-num: AS %d\ndescr: x" % feed.asn(), "aut-num: +AS%d\ndescr: x" % feed.asn(), "aut-num: AS99999999999999999999\ndescr: x", "aut-num: AS0\ndescr: x",
				"aut-num: AS%d" % feed.asn(), "aut-num: AS%d\norg:\n" % feed.asn(), "aut-num: AS\u0661\u0662\u0663\ndescr: Arabic digits", "organisation: ORG-%d" % rng.randrange(10**9), "organisation:\norg-name:", "organisation:", "org-name: x", "organisation: ORG-X\norg-name:",
				"organisation: ORG-X\u0000Y\norg-name: Z\u0000", "aut-num: AS%d\ndescr: with \u0000 zero" % feed.asn(), "person: Somebody\naddress: \u0000"])

		# Damaged
		self.damaged += 1
		n = feed.net()
		d = Feed(rng, 45)
		text = rng.choice(["inetnum: 45.%d.0.0 - 45.%d.255.255\ncountry: DE\ngeofeed: https://x.example/y" % ((rng.randrange(256),) * 2), "inet6num: 2a10:%x::/32\ncountry: FR" % rng.randrange(65536),
			"aut-num: AS%d\ndescr: damaged" % rng.randint(4200000000 - 10**6, 4199999999), "organisation: ORG-D%d\norg-name: x" % rng.randrange(10**9)])
		return "damaged", damage(rng, text.encode())

	# Extended format

	def lines(self, feed):
		rng = self.rng
		out = ["2|%s|20240101|100|19830101|20240101|+0000" % feed.source.lower(), "%s|*|ipv4|*|100|summary" % feed.source.lower()]
		for _ in range(rng.randint(5, 25)):
			kind, text = self.line(feed)
			self.kinds.add("extended:" + kind)
			out.append(text)
		if rng.random() < 0.3:
			out.append("# comment")
		return b"\n".join(t if isinstance(t, bytes) else t.encode() for t in out) + rng.choice([b"\n", b""])

	def line(self, feed):
		rng = self.rng
		r = rng.random() * (0.9 if self.precise else 1)
		registry = feed.source.lower()
		cc = rng.choice(sorted(COUNTRIES))
		status = rng.choice(["allocated", "assigned"])
		tail = rng.choice(["", "|%x" % rng.randrange(2**64)])
		if r < 0.35:
			if rng.random() < 0.3:
				a, b, count = feed.range()
				nets = list(ipaddress.summarize_address_range(a, b))
				text = "%s|%s|ipv4|%s|%d|20100101|%s%s" % (registry, cc, a, count, status, tail)
			else:
				n = feed.net()
				nets = [n]
				text = "%s|%s|ipv%d|%s|%d|20100101|%s%s" % (registry, cc, n.version, n.network_address if n.version == 4 or rng.random() < 0.8 else n.network_address + rng.getrandbits(64), n.num_addresses if n.version == 4 else n.prefixlen, status, tail)
			for n in nets:
				self.expect("networks", (str(n), feed.source), {"country": cc}, "good line")
			return "good", text
		if r < 0.6:
			n = feed.bad_net()
			return "inadmissible", "%s|%s|ipv%d|%s|%d|20100101|%s%s" % (registry, cc, n.version, n.network_address, n.num_addresses if n.version == 4 else n.prefixlen, status, tail)
		if r < 0.9:
			n4, n6 = feed.net(4), feed.net(6)
			v4, v6 = n4.network_address, n6.network_address
			return "malformed", rng.choice([
				"%s|%s|ipv4|%s|0|20100101|%s" % (registry, cc, v4, status), "%s|%s|ipv4|%s|-256|20100101|%s" % (registry, cc, v4, status), "%s|%s|ipv4|%s|x|20100101|%s" % (registry, cc, v4, status), "%s|%s|ipv4|%s||20100101|%s" % (registry, cc, v4, status),
				"%s|%s|ipv4|%s|8589934592|20100101|%s" % (registry, cc, v4, status), "%s|%s|ipv4|%s|1e3|20100101|%s" % (registry, cc, v4, status), "%s|%s|ipv4|nonsense|256|20100101|%s" % (registry, cc, status), "%s|%s|ipv4||256|20100101|%s" % (registry, cc, status),
				"%s|%s|ipv4|%s|256|20100101|%s" % (registry, cc, v6, status), "%s|%s|ipv6|%s|32|20100101|%s" % (registry, cc, "nonsense", status), "%s|%s|ipv6|%s|129|20100101|%s" % (registry, cc, v6, status), "%s|%s|ipv6|%s|-1|20100101|%s" % (registry, cc, v6, status),
				"%s|%s|ipv4|255.255.255.0|512|20100101|%s" % (registry, cc, status), "%s|%s|ipv4|%s|%s|20100101|%s" % (registry, cc, v4, "9" * 400, status),
				"%s|%s|ipv4|%s|256|20100101|available" % (registry, cc, v4), "%s|%s|ipv4|%s|256|20100101|reserved" % (registry, cc, v4), "%s|%s|ipv6|%s|32|20100101|" % (registry, cc, v6), "%s|%s|ipv4|%s|256|20100101" % (registry, cc, v4), "%s|%s|ipv4|%s|256" % (registry, cc, v4),
				"%s|%s|ipv4|%s|256|20100101|%s|x|y|z" % (registry, cc, v4, status), "%s||ipv4|%s|256|20100101|%s" % (registry, v4, status), "%s|*|ipv4|%s|256|20100101|%s" % (registry, v4, status), "%s|XQ|ipv4|%s|256|20100101|%s" % (registry, v4, status),
				"%s|%s|ipv5|%s|256|20100101|%s" % (registry, cc, v4, status), "%s|%s|asn|1|1|20100101|%s" % (registry, cc, status), "nonsense", "", "|", "|||", "||||||||||", "\u00e4|%s|ipv4|x|1||assigned" % cc, b"\xff\xfe\xfd", b"reg|DE|ipv4|\xff|256|20100101|assigned|x", b"\x00"])
		self.damaged += 1
		return "damaged", damage(rng, ("%s|%s|ipv4|45.%d.0.0|256|20100101|allocated|abc" % (registry, cc, rng.randrange(256))).encode()).replace(b"\n", b" ")

	# ARIN's AS names

	def names(self, feed):
		rng = self.rng
		f = io.StringIO()
		columns = ["Org Handle", "Org Name", "Registration Date", "AS Handle", "Start AS Number", "End AS Number", "Status"]
		w = csv.writer(f, quoting=csv.QUOTE_ALL)
		w.writerow(columns)
		for _ in range(rng.randint(3, 15)):
			r = rng.random()
			first = last = None
			name, status = "Organization %d" % rng.randrange(10**6), "Full Registry Services"
			if r < 0.4:
				kind = "good"
				first = feed.asn()
				last = first
				while rng.random() < 0.5 and last - first < 5 and asn_ok(last + 1) and last + 1 not in feed.asns:
					last += 1
					feed.asns.add(last)
				name = rng.choice([name, "O'Neill, \"Quoted\" & Co", "Caf\u00e9 %d" % first])
				for n in range(first, last + 1):
					self.expect("autnums", n, {"name": name, "source": "ARIN"}, "named AS")
			elif r < 0.55:
				kind = "inadmissible"
				first = feed.asn(False)
				last = first + rng.choice([0, 0, 1])
				if asn_ok(last):
					last = first
			elif r < 0.7:
				kind = "other status"
				first = last = feed.asn()
				status = rng.choice(["", "Without Agreement", "full registry services", "Full", "Full Registry Services Pending", "No Full Registry Services", "Legacy Full Registry Services"])
			else:
				kind = "malformed"
				n = feed.asn()
				first, last = rng.choice([("foo", "bar"), ("", ""), (n, ""), ("", n), (n, n - 1), (n, "AS%d" % n), ("1.5", "1.5"), (n, -1), ("0x10", "0x10"), ("\u0000", n)])
			self.kinds.add("names:" + kind)
			w.writerow(["ORG", name, "2010-01-01", "AS", first, last, status])
			if rng.random() < 0.1:
				f.write(rng.choice(['"short"\r\n', '\r\n', '"a","b","c","d","17","17"\r\n', ",,,,,,\r\n", '"ORG","","2010","AS","foo","foo","Full Registry Services"\r\n']))
		data = f.getvalue().encode()
		if rng.random() < 0.3:
			self.kinds.add("names:undecodable")
			data += b'"ORG","Caf\xe9","2010","AS","23456","23456","Full Registry Services"\r\n'
		return data

	# Feeds

	def aws(self, feed, source):
		rng = self.rng
		regions = {"eu-central-1": "DE", "eu-west-2": "GB", "eu-west-3": "FR", "us-east-1": "US", "us-gov-west-1": "US", "us-west-7": "US", "cn-north-1": "CN", "cn-northwest-9": "CN", "ap-northeast-2": "KR", "ap-northeast-1": "JP", "sa-east-1": "BR", "ca-central-1": "CA",
			"af-south-1": "ZA", "ap-southeast-2": "AU", "eu-north-1": "SE", "eu-west-1": "IE", "GLOBAL": None}
		v4, v6 = [], []
		for _ in range(rng.randint(4, 20)):
			r = rng.random()
			if r < 0.4:
				n = feed.net()
				region = rng.choice(sorted(regions))
				self.kinds.add("aws:good")
				self.expect("network_feeds", (str(n), source), {"country": regions[region], "is_anycast": int(region == "GLOBAL"), "is_drop": None}, "good prefix")
				(v4 if n.version == 4 else v6).append({"ip_prefix" if n.version == 4 else "ipv6_prefix": str(n), "region": region, "service": "AMAZON", "network_border_group": region})
				if rng.random() < 0.2:
					# Listed again for another service
					(v4 if n.version == 4 else v6).append({"ip_prefix" if n.version == 4 else "ipv6_prefix": str(n), "region": region, "service": "EC2", "network_border_group": region})
			elif r < 0.6:
				n = feed.bad_net()
				self.kinds.add("aws:inadmissible")
				(v4 if n.version == 4 else v6).append({"ip_prefix" if n.version == 4 else "ipv6_prefix": str(n), "region": "eu-central-1"})
			else:
				self.kinds.add("aws:malformed")
				n = str(feed.net(4))
				v4.append(rng.choice([{}, {"ip_prefix": "nonsense", "region": "us-east-1"}, {"ip_prefix": None, "region": "us-east-1"}, {"ip_prefix": "45.1.2.3/8", "region": "us-east-1"}, {"ip_prefix": "", "region": "us-east-1"}, {"ip_prefix": n}, {"ip_prefix": n, "region": None},
					{"ip_prefix": n, "region": ""}, {"ip_prefix": n, "region": "xx-nowhere-1"}, {"ip_prefix": n, "region": "cnx-1"}, {"ip_prefix": n, "region": "usx-1"}, {"ip_prefix": n, "region": "eu-central-10"}, {"ip_prefix": n, "region": "xus-1"}, {"ip_prefix": n, "region": "GLOBAL-1"}, {"ip_prefix": n, "region": "EU-CENTRAL-1"}, {"ip_prefix": "45.1.2.0/33", "region": "GLOBAL"}, {"region": "us-east-1"}, {"ipv6_prefix": "2a10::/129", "region": "us-east-1"}]))
		rng.shuffle(v4)
		return json.dumps({"syncToken": "1", "prefixes": v4, "ipv6_prefixes": v6}).encode()

	def drop(self, feed, source, version):
		rng = self.rng
		out = ["; Spamhaus DROP List 2024/01/01 - (c) 2024 The Spamhaus Project", "; Last-Modified: ..."]
		n = feed.net(version)
		self.expect("network_feeds", (str(n), source), {"is_drop": 1, "country": None}, "dropped network")
		out.append("%s ; SBL1" % n)
		for _ in range(rng.randint(3, 20)):
			r = rng.random()
			if r < 0.45:
				n = feed.net(version)
				self.kinds.add("drop:good")
				self.expect("network_feeds", (str(n), source), {"is_drop": 1, "country": None}, "dropped network")
				out.append("%s%s" % (n, rng.choice([" ; SBL%d" % rng.randrange(10**6), "", ";", "   "])))
				if rng.random() < 0.15:
					self.kinds.add("drop:repeated")
					out.append("%s ; again" % n)
			elif r < 0.65:
				self.kinds.add("drop:inadmissible")
				out.append("%s ; SBL1" % feed.bad_net(version))
			else:
				self.kinds.add("drop:malformed")
				out.append(rng.choice(["nonsense ; SBL1", "", "   ", ";", "45.1.2.3/8 ; SBL2", "45.1.2.0/33", "<html>", "45.1.2.0-45.1.2.255 ; SBL", b"\xff\xfe ; SBL", b"45.1.2.0/24\xff ; SBL", "45.1.2.0/24 SBL", "/", "\u0664\u0665.1.2.0/24 ; SBL"]))
		return b"\n".join(t if isinstance(t, bytes) else t.encode() for t in out) + b"\n"

	def asndrop(self, feed, source):
		rng = self.rng
		out = []
		for _ in range(rng.randint(3, 20)):
			r = rng.random()
			if r < 0.45:
				asn = feed.asn()
				self.kinds.add("asndrop:good")
				self.expect("autnum_feeds", (asn, source), {"is_drop": 1}, "dropped AS")
				out.append(json.dumps({"asn": asn, "rir": "ripencc", "domain": "x.example", "cc": "DE", "asname": "X"}))
				if rng.random() < 0.15:
					self.kinds.add("asndrop:repeated")
					out.append(out[-1])
			elif r < 0.6:
				self.kinds.add("asndrop:inadmissible")
				out.append(json.dumps({"asn": rng.choice([feed.asn(False), -1])}))
			else:
				self.kinds.add("asndrop:malformed")
				out.append(rng.choice(["", "nonsense", "[]", "null", "5", '"x"', "{}", '{"asn": null}', '{"asn": "AS17"}', '{"asn": "nonsense"}', '{"asn": []}', '{"asn": {}}', '{"asn": 1.5}', '{"asn": "\\u0000"}', '{"asn": 1e400}', '{"asn": NaN}', '{"asn":', b"\xff\xfe", b'{"asn": "\xff"}',
					'{"type":"metadata","timestamp":1}']))
		out.append('{"type":"metadata","timestamp":1,"asn":17}')
		return b"\n".join(t if isinstance(t, bytes) else t.encode() for t in out) + b"\n"

	def geofeed(self, feed, gid):
		rng = self.rng
		out = []
		for _ in range(rng.randint(2, 15)):
			r = rng.random()
			if r < 0.45:
				n = feed.net()
				cc = rng.choice(sorted(COUNTRIES))
				self.kinds.add("geofeed:good")
				self.expect("geofeed_networks", (str(n), gid), {"country": cc}, "line of a geofeed")
				out.append("%s,%s,%s,%s,%s" % (n if rng.random() < 0.7 or n.prefixlen == n.max_prefixlen else "%s/%d" % (n[1], n.prefixlen), rng.choice([cc, cc.lower(), " %s " % cc]), rng.choice(["", "DE-BE"]), rng.choice(["", "M\u00fcnchen"]), rng.choice(["", "12345", "a,b,c"])))
			elif r < 0.65:
				self.kinds.add("geofeed:inadmissible")
				out.append("%s,DE,,," % feed.bad_net())
			else:
				self.kinds.add("geofeed:malformed")
				n = feed.net(4)
				out.append(rng.choice(["", "#comment", "nonsense", ",,,,", "%s,,,," % n, "%s,D,,," % n, "%s,DEU,,," % n, "%s,D1,,," % n, "%s,DE" % n, "%s" % n, "%s/33,DE,,," % n.network_address, "nonsense,DE,,,", b"\xff\xfe,DE,,,", ("%s,D\u0000,,," % n), "45.9.9.0/24,DE,\u0000,,", "%s;DE;;;" % n,
					"\"%s\",DE,,," % n, "%s,\u00c4\u00d6,,," % n, "%s,??,,," % n]))
		return b"\n".join(t if isinstance(t, bytes) else t.encode() for t in out) + rng.choice([b"\n", b"\r\n", b""])

	# Judgement

	def judge(self, table, key):
		"""Everything that has to be there is there, and everything else is admissible"""
		if pgsql.unsupported:
			return
		found = {}
		for row in importer.rows(table):
			k = tuple(row[c] for c in key) if isinstance(key, tuple) else row[key]
			found[k] = row
			if "network" in row:
				if k in self.expected.get(table, {}):
					continue
				n = ipaddress.ip_network(row["network"], strict=False)
				why = inadmissible(n, more=BIRD_BAD if table == "announcements" else (), smallest={4: 1, 6: 3} if table == "announcements" else {4: 7, 6: 10})
				if table == "announcements" and n.prefixlen > (24 if n.version == 4 else 48):
					why = "too small"
				if why and not (table == "network_geofeeds" and row["source"] == "overrides"):
					rep.violation("%s: an inadmissible network has been stored" % table, "%s %s: %s" % (row, why, self.show()))
			if "number" in row or "autnum" in row:
				asn = row.get("number", row.get("autnum"))
				if not isinstance(asn, int) or not asn_ok(asn):
					rep.violation("%s: an inadmissible AS number has been stored" % table, "%s: %s" % (row, self.show()))
			if table in ("networks", "network_feeds", "geofeed_networks") and row["country"] is not None and not (len(row["country"]) == 2 and row["country"].isascii() and row["country"].isalpha() and row["country"].isupper()):
				rep.violation("%s: an invalid country code has been stored" % table, "%s: %s" % (row, self.show()))
			if table == "networks" and row["country"] is not None and row["country"] not in COUNTRIES:
				rep.violation("%s: an unknown country has been stored" % table, "%s: %s" % (row, self.show()))
		for k, (row, kind) in self.expected.get(table, {}).items():
			rep.count(None)
			got = found.get(k)
			if got is None:
				if self.damaged and row.get("country") is None and table == "networks":
					continue
				rep.violation("%s: a good record has not been stored" % table, "%s %s %s\nfailures: %s\nrecords: %s" % (k, row, kind, pgsql.failures[:3], self.show()))
				return
			for c, v in row.items():
				if got[c] != v:
					rep.violation("%s: a record has been stored with something else" % table, "%s: %s is %r, not %r: %s" % (k, c, got[c], v, self.show()))
					return

	def lenient(self, row):
		"""Rows a malformed record may be understood as"""
		if row.get("network"):
			n = ipaddress.ip_network(row["network"], strict=False)
			return n.network_address.packed[0] == 45 or row["network"].startswith("2a10:") or "autnum" in row and n.prefixlen < 10
		return row.get("number") == 123 or "zero" in (row.get("name") or "")

	def extra_rows(self, table, key, sources):
		"""Nothing but the expected rows"""
		if pgsql.unsupported:
			return
		for row in importer.rows(table):
			k = tuple(row[c] for c in key) if isinstance(key, tuple) else row[key]
			if k not in self.expected.get(table, {}) and not self.damaged and not self.lenient(row):
				rep.violation("%s: something has been stored that is in no good record" % table, "%s: %s" % (row, self.show()))
				return

	# Cases

	def countries(self):
		path = os.path.join(self.dir, "countries.txt")
		with open(path, "w") as f:
			f.write("# Code Continent Name\n")
			for cc, continent in COUNTRIES.items():
				f.write("%s\t%s\tCountry of %s\n" % (cc, continent, cc))
				if self.rng.random() < 0.1:
					f.write(self.rng.choice(["XX\n", "\n", "# Comment\n", "XX EU\n"]))
		self.run("import-countries", path)
		for cc, continent in COUNTRIES.items():
			self.expect("countries", cc, {"continent_code": continent, "name": "Country of %s" % cc}, "country")
		self.judge("countries", "country_code")
		self.extra_rows("countries", "country_code", None)

	def whois(self):
		rng = self.rng
		zones = iter(rng.sample([*range(80, 96), 23, 31, 2, 5, 62, 77, 101, 103, 177, 185, 193, 196, 41, 8, 12], 14))
		sources = rng.sample(["AFRINIC", "APNIC", "ARIN", "JPNIC", "LACNIC", "RIPE"], rng.randint(1, 4))
		compress = lambda data: (gzip.compress(data), rng.choice(["application/x-gzip", "application/gzip", "application/octet-stream", None, "text/plain"])) if rng.random() < 0.6 else data
		asns = set()
		for source in sources:
			feed = Feed(rng, next(zones))
			feed.source = source
			feed.asns = asns
			if source == "ARIN":
				self.pages["delegated-arin"] = self.lines(feed)
				self.pages["asns.csv"] = self.names(feed)
			elif source == "LACNIC":
				self.pages["lacnic.db"] = compress(self.blocks(feed))
				other = Feed(rng, next(zones))
				other.source, other.asns = source, asns
				self.pages["delegated-lacnic"] = self.lines(other)
			elif source in ("APNIC", "RIPE"):
				data = self.blocks(feed)
				self.pages["%s.db.%s.gz" % (source.lower(), rng.choice(["inetnum", "inet6num", "aut-num", "organisation"]))] = compress(data)
			else:
				self.pages[{"AFRINIC": "afrinic.db", "JPNIC": "jpirr.db"}[source]] = compress(self.blocks(feed))
		self.run("update-whois", *(sources if rng.random() < 0.5 else []))
		self.judge("networks", ("network", "source"))
		self.judge("autnums", "number")
		self.judge("network_geofeeds", ("network", "url"))
		self.extra_rows("networks", ("network", "source"), None)
		self.extra_rows("autnums", "number", None)
		self.extra_rows("network_geofeeds", ("network", "url"), None)

	def feeds(self):
		rng = self.rng
		zones = iter(rng.sample(range(80, 96), 4))
		feed = lambda: Feed(rng, next(zones))
		self.pages["ip-ranges.json"] = self.aws(feed(), "AWS-IP-RANGES")
		self.pages["drop.txt"] = self.drop(feed(), "SPAMHAUS-DROP", 4)
		self.pages["dropv6.txt"] = self.drop(feed(), "SPAMHAUS-DROPV6", 6)
		self.pages["asndrop.json"] = self.asndrop(feed(), "SPAMHAUS-ASNDROP")
		self.run("update-feeds")
		for _ in range(2):
			self.judge("network_feeds", ("network", "source"))
			self.judge("autnum_feeds", ("number", "source"))
			self.extra_rows("network_feeds", ("network", "source"), None)
			self.extra_rows("autnum_feeds", ("number", "source"), None)
			if _:
				break
			# A broken feed keeps what is there, and does not disturb the others
			name = rng.choice(["ip-ranges.json", "asndrop.json", "drop.txt", "dropv6.txt"])
			broken = {"ip-ranges.json": [b"", b"{", b"[]", b"null", b'{"prefixes": 5}', b"<html></html>", b"\xff"], "drop.txt": [b"", b"; nothing\n; at all\n", b"\n\n", b"<html>\n<body>Error</body>\n</html>\n"], "asndrop.json": [], "dropv6.txt": [b"", b";\n", b"Error\n"]}[name]
			self.pages[name] = rng.choice([*broken, urllib.error.URLError("broken"), importer.not_found("https://x/" + name), TimeoutError("timed out"), http.client.IncompleteRead(b""), ConnectionResetError(), gzip.compress(b"1.2.3.0/24\n" * 100)[:30], b"\x1f\x8bnonsense"])
			self.kinds.add("broken:%s" % name)
			r = self.run("update-feeds", ok=False)
			if isinstance(r, BaseException):
				rep.violation("update-feeds: an exception escapes", "%r: %s" % (r, self.show()))
			elif r == 0:
				rep.violation("update-feeds: a broken feed is not reported", "%s: %s" % (name, self.show()))

	def geofeeds(self):
		rng = self.rng
		# The URLs come from a registry
		zones = iter(rng.sample(range(80, 96), 8))
		urls = []
		data = b""
		for i in range(rng.randint(1, 6)):
			z = next(zones)
			url = "https://geofeed.example/%d.csv" % z
			urls.append((url, z))
			data += b"inetnum: %d.0.0.0 - %d.255.255.255\ncountry: US\nremarks: Geofeed %s\n\ninet6num: 2a%02x::/16\ncountry: US\ngeofeed: %s\n\n" % (z, z, url.encode(), z, url.encode())
		self.pages["ripe.db.inetnum.gz"] = data
		self.run("update-whois", "RIPE")
		states = {}
		for url, z in urls:
			if rng.random() < 0.3:
				self.pages["/%d.csv" % z] = rng.choice([urllib.error.URLError("no"), importer.not_found(url), TimeoutError("timed out"), ConnectionResetError("reset"), http.client.IncompleteRead(b"x"), http.client.InvalidURL("x"), http.client.BadStatusLine("x"), gzip.compress(b"80.0.0.0/24,DE,,,\n" * 50)[:40],
					b"\x1f\x8b\xff\xff\xff\xff\xff", OSError("x"), UnicodeError("label too long"), urllib.error.HTTPError(url, 500, "Oops", {}, None)])
				states[url] = False
				self.kinds.add("geofeed:broken:%s" % type(self.pages["/%d.csv" % z]).__name__)
			else:
				states[url] = True
				self.pages["/%d.csv" % z] = None
		ids = {}
		# The number is given by the order in the database
		for url, z in urls:
			if states[url]:
				feed = Feed(rng, z)
				self.pages["/%d.csv" % z] = self.geofeed(feed, url)
				if rng.random() < 0.3:
					self.pages["/%d.csv" % z] = gzip.compress(self.pages["/%d.csv" % z])
		self.run("update-geofeeds")
		for row in importer.rows("geofeeds"):
			ids[row["url"]] = row["id"]
			if row["url"] in states:
				if states[row["url"]] and row["updated_at"] is None:
					rep.violation("geofeeds: a geofeed has not been updated", "%s: %s" % (row, self.show()))
				if not states[row["url"]] and row["updated_at"] is not None:
					rep.violation("geofeeds: a geofeed which could not be fetched counts as updated", "%s: %s" % (row, self.show()))
		self.expected["geofeed_networks"] = {(n, ids.get(url)): v for (n, url), v in self.expected.get("geofeed_networks", {}).items()}
		self.judge("geofeed_networks", ("network", "geofeed_id"))
		self.extra_rows("geofeed_networks", ("network", "geofeed_id"), None)

	def announcements(self):
		rng = self.rng
		feed = Feed(rng, rng.choice(range(80, 96)))
		out = ["1007-Table master4:"]
		aggregated = {}
		for _ in range(rng.randint(5, 40)):
			r = rng.random()
			via = rng.choice(["unicast [bgp1 2024-01-01 from 192.0.2.1] * (100)", "via 192.0.2.1 on eth0 [bgp_1 12:34:56] * (100/-)", "unicast [upstream 2024-01-01]  (100)"])
			pad = " " * rng.choice([1, 2, 8])
			if r < 0.45:
				while True:
					n = feed.net()
					if n.prefixlen <= (24 if n.version == 4 else 48):
						break
				asn = edge_asn(rng, True)
				self.kinds.add("bird:good")
				self.expect("announcements", str(n), {"autnum": asn}, "route")
				out.append(" %s%s%s [AS%d%s]" % (n, pad, via, asn, rng.choice("ie?")))
				if rng.random() < 0.3:
					self.kinds.add("bird:alternative route")
					out.append(" %s %s [AS%di]" % (" " * 20, via.replace("*", " "), edge_asn(rng, True)))
				if rng.random() < 0.3:
					out.append(" \tvia 192.0.2.1 on eth0")
			elif r < 0.65:
				self.kinds.add("bird:inadmissible network")
				n = feed.bad_net()
				if rng.random() < 0.3:
					n = ipaddress.ip_network(rng.choice(["80.1.2.0/25", "80.1.2.3/32", "2a50::/49", "2a50::1/128", "0.0.0.0/0", "::/0", "192.88.99.0/24", "2002::/16", "2002:1::/32", "192.0.0.0/24"]))
				out.append(" %s%s%s [AS%di]" % (n, pad, via, edge_asn(rng, True)))
			elif r < 0.8:
				self.kinds.add("bird:inadmissible AS")
				n = feed.net()
				asn = rng.choice([0, 23456, 64496, 64512, 65534, 65535, 65536, 131071, 4200000000, 4294967294, 4294967295])
				out.append(" %s%s%s [AS%di]" % (n, pad, via, asn))
			elif r < 0.9:
				while True:
					n = feed.net()
					if n.prefixlen <= (24 if n.version == 4 else 48):
						break
				self.kinds.add("bird:aggregated")
				asn = edge_asn(rng, True)
				aggregated[str(n)] = rng.choice([asn, asn, None])
				if aggregated[str(n)]:
					self.expect("announcements", str(n), {"autnum": asn}, "aggregate")
				out.append(" %s%s%s [i]" % (n, pad, via))
			else:
				self.kinds.add("bird:other lines")
				out.append(rng.choice([" Table master6:", " ", " \tType: BGP univ", " nonsense", " [AS1i]", " %s unicast [direct1 2024-01-01] * (240)" % feed.net(), " %s blackhole [static1 2024-01-01] * (200)" % feed.net()]))
		broken = rng.random() < 0.15
		data = ("\n".join(out) + "\n0000 \n").encode()

		def answers(command):
			if command == "show route":
				return (data[:rng.randrange(len(data) - 6)], False) if broken else (data, True)
			for n, asn in aggregated.items():
				if n in command:
					if asn is None:
						return rng.choice([b"8001 Network not found\n", b"1007-Table master4:\n %s unicast\n1008-\tType: BGP univ\n1012-\tBGP.as_path: 1 2 {3 4}\n0000 \n" % n.encode(), b"1007-Table master4:\n0000 \n"]), True
					return b"1007-Table master4:\n %s unicast [bgp1 2024-01-01] * (100) [i]\n1008-\tType: BGP univ\n1012-\tBGP.origin: IGP\n \tBGP.as_path: %d %d %d {%d}\n \tBGP.next_hop: 192.0.2.1\n0000 \n" % (n.encode(), 65000, 1234, asn, 5678), True
			return b"9001 syntax error, unexpected CF_SYM_UNDEFINED\n", True

		def chunks(d):
			pos = 0
			style = rng.choice(["all", "bytes", "random", "lines"])
			while pos < len(d):
				size = len(d) if style == "all" else 1 if style == "bytes" and len(d) < 2000 else rng.choice([1, 2, 7, 100, 4096])
				if style == "lines":
					size = d.index(b"\n", pos) + 1 - pos if b"\n" in d[pos:] else len(d)
				yield d[pos:pos + size]
				pos += size
		path = os.path.join(self.dir, "bird.ctl")
		bird = importer.Bird(path, answers, chunks)
		self.pages["bird"] = data
		r = self.run("update-announcements", path, ok=not broken)
		bird.stop()
		if isinstance(r, Hang):
			rep.violation("update-announcements does not end", "%s %s %s" % (broken, bird.commands, self.show()))
			return
		if broken:
			self.kinds.add("bird:connection lost")
			self.expected.pop("announcements", None)
			self.damaged = 1
		self.judge("announcements", "network")
		self.extra_rows("announcements", "network", None)


class Hang(BaseException):
	pass


def alarm(*args):
	raise Hang()


def main():
	seed, case, scratch, command = sys.argv[1:5]
	signal.signal(signal.SIGALRM, alarm)
	for sub in range(6):
		c = Case(seed, int(case) * 100 + sub, scratch, command)
		pgsql.reset(os.path.join(c.dir, "db"))
		what = ("whois", "whois", "feeds", "geofeeds", "announcements", "whois")[sub]
		c.countries()
		if not pgsql.unsupported:
			getattr(c, what)()
		if pgsql.unsupported:
			rep.bump("not_judged")
			rep.sample("not judged: %s" % pgsql.unsupported[0])
		for k in sorted(c.kinds):
			rep.count(("kind", k), 0)
		rep.count((what, seed, case, sub), 0)
		for t, rows in c.expected.items():
			rep.bump("rows_expected:%s" % t, len(rows))
		rep.bump("statements", pgsql.statements)
		pgsql.statements = 0
		shutil.rmtree(c.dir, ignore_errors=True)
	rep.bump("requests", len(importer.requests))
	rep.done()


main()
