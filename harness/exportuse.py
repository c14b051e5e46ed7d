"""
Exports random databases in every format, reads the files back, and compares the addresses with the model.

exportuse.py <seed> <case> <scratch directory>
"""
import contextlib
import io
import ipaddress
import os
import random
import re
import shutil
import socket
import sys

import location
import location.export

from harness import rep
from vlib import gen, model, spec
from vlib.model import Props

FAMILY = {4: socket.AF_INET, 6: socket.AF_INET6}


class Malformed(Exception):
	pass


def raw(text, fam):
	"""The range of a network in a file"""
	try:
		n = ipaddress.ip_network(text)
	except ValueError:
		raise Malformed("not a network: %r" % text)
	if n.version != fam:
		raise Malformed("network of the wrong family: %r" % text)
	base = model.V4BASE if fam == 4 else 0
	return base + int(n.network_address), base + int(n.broadcast_address)


def read_list(data, name, fam):
	return [raw(l, fam) for l in lines(data)]


def lines(data):
	text = data.decode("ascii")
	if text and not text.endswith("\n"):
		raise Malformed("the last line is not complete")
	return text.split("\n")[:-1]


def read_ipset(data, name, fam, number=None):
	tag = "%sv%d" % (name, fam)
	ls = lines(data)
	if len(ls) < 2:
		raise Malformed("no header")
	m = re.fullmatch(r"create (\S+) hash:net family (inet6?) +hashsize +(\d+) +maxelem +(\d+) +-exist", ls[0])
	if not m:
		raise Malformed("malformed header %r" % ls[0])
	if m[1] != tag or m[2] != ("inet6" if fam == 6 else "inet"):
		raise Malformed("header of another set: %r" % ls[0])
	if ls[1] != "flush %s" % tag:
		raise Malformed("the set is not flushed: %r" % ls[1])
	out = []
	for l in ls[2:]:
		m2 = re.fullmatch(r"add (\S+) (\S+)", l)
		if not m2 or m2[1] != tag:
			raise Malformed("malformed line %r" % l)
		out.append(raw(m2[2], fam))
	size, maxelem = int(m[3]), int(m[4])
	if size & (size - 1) or size < 64:
		raise Malformed("the size of the hash is not a power of two of at least 64: %d" % size)
	number = number or len(out)
	if size * 0.75 < number:
		raise Malformed("the hash is too small: %d for %d networks" % (size, number))
	if size > 64 and size / 2 * 0.75 >= number:
		raise Malformed("the hash is too large: %d for %d networks" % (size, number))
	if maxelem < number:
		raise Malformed("the set cannot hold %d networks" % number)
	return out


def read_nftables(data, name, fam):
	ls = lines(data)
	if len(ls) < 2 or ls[0] != "define %sv%d = {" % (name, fam) or ls[-1] != "}":
		raise Malformed("the set is not opened or closed")
	out = []
	for l in ls[1:-1]:
		m = re.fullmatch(r"\s*(\S+),", l)
		if not m:
			raise Malformed("malformed line %r" % l)
		out.append(raw(m[1], fam))
	return out


def read_xt_geoip(data, name, fam):
	size = 4 if fam == 4 else 16
	if len(data) % (2 * size):
		raise Malformed("not a list of ranges: %d bytes" % len(data))
	base = model.V4BASE if fam == 4 else 0
	words = [base + int.from_bytes(data[i:i + size], "big") for i in range(0, len(data), size)]
	return list(zip(words[::2], words[1::2]))


FORMATS = {
	"list": (read_list, lambda name, fam: "%sv%d.networks" % (name, fam)),
	"ipset": (read_ipset, lambda name, fam: "%sv%d.ipset" % (name, fam)),
	"nftables": (read_nftables, lambda name, fam: "%sv%d.set" % (name, fam)),
	"xt_geoip": (read_xt_geoip, lambda name, fam: "%s.iv%d" % (name, fam)),
}


def has(obj):
	"""Whether a network belongs to an object"""
	if isinstance(obj, int):
		return lambda p: p.asn == obj
	if obj in spec.SPECIAL:
		return lambda p: bool(p.flags & spec.SPECIAL[obj])
	return lambda p: p.cc == obj


def name_of(obj):
	return "AS%d" % obj if isinstance(obj, int) else obj


def judge(ranges, want):
	for a, b in ranges:
		if a > b:
			return "a range ends before it starts"
	for x, y in zip(ranges, ranges[1:]):
		if x[1] >= y[0]:
			return "networks overlap, repeat or are out of order"
	if model.union(ranges) != want:
		return "the addresses are not exactly those of the object"
	return None


def big(rng, huge=False):
	"""Enough networks for the size of a hash to matter"""
	sp = spec.Spec(rng)
	sp.nets = {}
	n = rng.choice([48, 49, 96, 97, 193, 400, 800, 1537])
	if huge:
		n = rng.choice([6144, 6145, 12288, 12289])
	props = [Props("DE", 1, 0), Props("FR", 2, 1), Props("DE", 3, 8), Props("DE", 4, 0)]
	for i in range(n):
		# Never next to each other: nothing can be merged
		sp.nets[(model.V4BASE + 0x0a000000 + 2 * i, 128)] = props[0]
	for i in range(rng.randrange(0, 100)):
		sp.nets[(0x20010db8 << 96 | i << 65, 64)] = props[i % 4]
	return sp


def write(rng, sp, path):
	w = location.Writer()
	items = list(sp.nets.items())
	rng.shuffle(items)
	for net, p in items:
		n = w.add_network(model.text(net))
		if p.cc:
			n.country_code = p.cc
		if p.asn:
			n.asn = p.asn
		if p.flags:
			n.set_flag(p.flags)
	for cc in sp.countries:
		w.add_country(cc)
	w.write(path)


class Many:
	"""A database with more networks than can be written here; everything else is that of a real one"""
	def __init__(self, db, number):
		self.__db, self.__number = db, number

	def __getattr__(self, name):
		return getattr(self.__db, name)

	def search_networks(self, *args, **kwargs):
		for i in range(self.__number):
			n = location.Network("%d.%d.%d.%d/32" % (i >> 23 & 255, i >> 15 & 255, i >> 7 & 255, i << 1 & 255))
			n.country_code = "DE"
			yield n


def million(rng, work):
	"""More networks than a set holds by default"""
	number = rng.choice([2**20 + 1, 2**20 + 70000])
	path = os.path.join(work, "million")
	os.mkdir(path)
	location.Writer().write(os.path.join(work, "empty"))
	location.export.Exporter(Many(location.Database(os.path.join(work, "empty")), number), location.export.formats["ipset"]).export(path, [socket.AF_INET], ["DE"], [])
	with open(os.path.join(path, "DEv4.ipset"), "rb") as f:
		data = f.read()
	shutil.rmtree(path)
	added = data.count(b"\nadd DEv4 ")
	if added != number:
		# The exporter has found another way to ask for networks
		rep.bump("large_sets_not_judged")
		return
	rep.count((number,))
	try:
		# The header says how many there may be (looking at every line takes too long)
		read_ipset(data[:data.index(b"add ")] + b"add DEv4 0.0.0.0/32\n", "DE", 4, added)
	except Malformed as e:
		rep.violation("ipset: malformed (%s)" % str(e).split(":")[0], (number, str(e), data[:200]))


def main():
	seed, case, scratch = sys.argv[1], int(sys.argv[2]), sys.argv[3]
	rng = random.Random("%s:C23:%d" % (seed, case))
	work = os.path.join(scratch, "export-%d" % case)
	os.makedirs(work)
	if case == 0:
		million(rng, work)
	for turn in range(4):
		sp = big(rng, case % 60 == 3) if turn == 3 else spec.Spec(rng, small=rng.random() < 0.7)
		path = os.path.join(work, "db")
		write(rng, sp, path)
		db = location.Database(path)
		ccs = sorted({p.cc for p in sp.nets.values() if p.cc})
		asns = sorted({p.asn for p in sp.nets.values() if p.asn})
		effective = {fam: [(a, b, sp.nets[n]) for a, b, n in model.segments(sp.nets, fam)] for fam in (4, 6)}

		for fmt in sorted(FORMATS):
			# Any mix of objects
			kind = rng.choice(["all", "mixed", "mixed", "countries", "asns", "special", "one"])
			countries = rng.sample(ccs, rng.randrange(0, len(ccs) + 1)) + rng.sample(["QQ", "ZZ"], rng.randrange(0, 2))
			numbers = rng.sample(asns, min(len(asns), rng.randrange(0, 4))) + [4200000001][:rng.randrange(0, 2)]
			special = rng.sample(sorted(spec.SPECIAL), rng.randrange(0, 5))
			if kind == "all":
				countries, numbers, special = ccs, [], sorted(spec.SPECIAL)
			elif kind == "countries":
				numbers, special = [], []
			elif kind == "asns":
				countries, special = [], []
			elif kind == "special":
				countries, numbers = [], []
			elif kind == "one":
				one = rng.choice([(ccs[:1], [], []), ([], asns[-1:], []), ([], [], ["XD"]), ([], [], ["A1"])])
				countries, numbers, special = one
			codes = countries + special
			rng.shuffle(codes)
			families = rng.choice([[4], [6], [4, 6], [6, 4]])
			out = os.path.join(work, "out")
			os.mkdir(out)
			reader, filename = FORMATS[fmt]
			what = "%s %s families=%s" % (fmt, codes + numbers, families)
			try:
				location.export.Exporter(db, location.export.formats[fmt]).export(out, [FAMILY[f] for f in families], codes, numbers)
			except Exception:
				rep.unexpected("export as %s" % fmt)
				shutil.rmtree(out)
				continue
			files = set(os.listdir(out))
			want_files = {filename(name_of(o), fam) for o in codes + numbers for fam in families}
			rep.count()
			if files != want_files:
				rep.violation("%s: other files than requested have been written" % fmt, (what, sorted(files), sorted(want_files)))
			contents = []
			for o in dict.fromkeys(codes + numbers):
				for fam in families:
					name = filename(name_of(o), fam)
					if name not in files:
						continue
					with open(os.path.join(out, name), "rb") as f:
						data = f.read()
					contents.append(data)
					match = has(o)
					want = model.union([(a, b) for a, b, p in effective[fam] if match(p)])
					try:
						problem = judge(reader(data, name_of(o), fam), want)
					except (Malformed, UnicodeDecodeError) as e:
						problem = "malformed (%s)" % str(e).split(":")[0]
					rep.count((fmt, fam, len(want), want[0]) if want else None)
					rep.bump("files_with_networks" if want else "files_without_networks")
					if problem:
						rep.violation("%s: %s" % (fmt, problem), (what, name, data[:1500], [(model.addr_text(a), model.addr_text(b)) for a, b in want[:20]]))
			shutil.rmtree(out)

			# To standard output
			buffer = io.StringIO()
			try:
				with contextlib.redirect_stdout(buffer):
					location.export.Exporter(db, location.export.formats[fmt]).export(None, [FAMILY[f] for f in families], codes, numbers)
			except TypeError:
				rep.count()
				if fmt != "xt_geoip":
					rep.unexpected("export as %s to standard output" % fmt)
				continue
			except Exception:
				rep.unexpected("export as %s to standard output" % fmt)
				continue
			rep.count()
			printed = buffer.getvalue().encode()
			if fmt == "xt_geoip":
				if printed:
					rep.violation("xt_geoip: binary data on standard output", what)
			elif len(printed) != sum(len(c) for c in contents) or not all(c in printed for c in contents):
				rep.violation("%s: what is printed is not what is written" % fmt, (what, printed[:1500]))
		if turn == 0 and case < 3:
			rep.sample({"networks": len(sp.nets), "last": what})
		del db
	shutil.rmtree(work)
	rep.done()


if __name__ == "__main__":
	main()
