"""
Runs the location command on random databases, and compares everything it prints with the model.

cliuse.py <seed> <case> <scratch directory> <key directory> <path to the command>
"""
import contextlib
import io
import logging
import os
import random
import re
import resource
import shutil
import socket
import subprocess
import sys
import time

import location

from harness import exportuse, rep
from vlib import fmt, gen, keys as keyfiles, model, spec
from vlib.model import Props

logging.raiseExceptions = False

DAYS = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
MONTHS = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
KEYS = ["prime256v1", "other"]


class Outcome:
	def __init__(self, code, out, err, exc, argv):
		self.code, self.out, self.err, self.exc, self.argv = code, out, err, exc, argv

	@property
	def lines(self):
		return self.out.split("\n")[:-1]

	def __repr__(self):
		return "%s: exit %s\nstdout: %s\nstderr: %s" % (self.argv, self.code, self.out[:1500], self.err[:1500])


class Cli:
	def __init__(self, command, db, rng):
		self.command, self.db, self.rng = command, db, rng
		with open(command) as f:
			self.code = compile(f.read(), command, "exec")

	def __call__(self, *args, db=None, stdin=None):
		# How much is logged does not change any results
		noise = self.rng.choice([[], [], ["--quiet"], ["--debug"]])
		level = logging.getLogger("location").level
		argv = [self.command, *noise, "--database", db or self.db, *[str(a) for a in args]]
		out, err = io.StringIO(), io.StringIO()
		old = sys.argv
		sys.argv = argv
		code = exc = None
		# Messages would go to the standard error of the time when the module was loaded
		handlers = [h for h in logging.getLogger("location").handlers if type(h) is logging.StreamHandler]
		for h in handlers:
			h.setStream(err)
		try:
			with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
				exec(self.code, {"__name__": "__main__", "__file__": self.command})
		except SystemExit as e:
			code = 0 if e.code is None else e.code
		except BaseException as e:
			exc = e
			code = 1
		finally:
			sys.argv = old
			logging.getLogger("location").setLevel(level)
		r = Outcome(code, out.getvalue(), err.getvalue(), exc, argv[1:])
		rep.bump("commands")
		if exc is not None:
			rep.violation("%s ends with an exception that is not handled: %s" % (args[0] if args else "", type(exc).__name__), (repr(exc), r))
		elif "Traceback (most recent call last)" in r.err:
			rep.violation("%s prints a traceback" % args[0], r)
		return r


def check(ok, key, r, *what):
	rep.count()
	if not ok:
		rep.violation(key, (r, what))
	return ok


def same(got, want, key, r):
	rep.count()
	if got != want:
		rep.violation(key, (r, "wanted", want))


def write(rng, sp, path, keys):
	key = rng.choice([None, "prime256v1"])
	w = location.Writer(open(os.path.join(keys, key + ".pem"))) if key else location.Writer()
	w.vendor, w.description, w.license = sp.vendor, sp.description, sp.license
	items = list(sp.nets.items())
	rng.shuffle(items)
	for net, p in items:
		n = w.add_network(model.text(net))
		if p.cc:
			n.country_code = p.cc
		if p.asn:
			n.asn = p.asn
		if p.flags:
			n.set_flag(p.flags)
	for number, name in sp.ases.items():
		a = w.add_as(number)
		if name is not None:
			a.name = name
	for cc, (continent, name) in sp.countries.items():
		o = w.add_country(cc)
		if continent:
			o.continent_code = continent
		if name is not None:
			o.name = name
	w.write(path)
	return key


LABELS = {1: "Anonymous Proxy", 2: "Satellite Provider", 4: "Anycast", 8: "Hostile Network safe to drop"}


def judge_block(sp, a, p, block):
	"""The lines that describe one address"""
	fields = []
	for l in block:
		m = re.fullmatch(r"  (.*?) *: (.*)", l, re.S)
		if not m:
			return "malformed line %r" % l
		fields.append((m[1].rstrip(), m[2]))
	names = [k for k, v in fields]
	if len(set(names)) != len(names):
		return "a property is printed twice"
	d = dict(fields)
	net = d.pop("Network", None)
	if net is None or not model.contains(spec.parse_net(net), a):
		return "not the network of the address"
	if p.cc:
		got = d.pop("Country", None)
		if got is None:
			return "no country"
		if p.cc in sp.countries and sp.countries[p.cc][1]:
			if got != sp.countries[p.cc][1]:
				return "another country"
		elif got not in (p.cc, ""):
			return "another country"
	if p.asn:
		got = d.pop("Autonomous System", None)
		if got is None:
			return "no AS"
		if not re.match(r"AS%d(?!\d)" % p.asn, got):
			return "another AS"
		if sp.ases.get(p.asn) and got != "AS%d - %s" % (p.asn, sp.ases[p.asn]):
			return "another name of an AS"
	for f, label in LABELS.items():
		if bool(p.flags & f) != (d.pop(label, None) == "yes"):
			return "wrong flag %s" % label
	if d:
		return "properties that the network does not have: %s" % d
	return None


def version(cli, t, path):
	want = time.gmtime(t)
	text = "%s, %02d %s %d %02d:%02d:%02d GMT" % (DAYS[want.tm_wday], want.tm_mday, MONTHS[want.tm_mon - 1], want.tm_year, *want[3:6])
	r = cli("version", db=path)
	check(r.code == 0 and r.out.strip() == text, "version", r, t, text)
	r = cli("dump", db=path)
	check(r.code == 0 and any(l.startswith("#") and text in l for l in r.lines), "dump: the time", r, t, text)
	rep.count(("version", t))


def lookups(rng, sp, cli):
	every = sp.lookups(limit=40)
	for _ in range(5):
		if not every:
			return
		chosen = [rng.choice(every) for _ in range(rng.choice([1, 1, 2, 5]))]
		args = [model.addr_text(a) for a, p in chosen]
		r = cli("lookup", *args)
		same(r.code, 0 if all(p is not None for a, p in chosen) else 1, "exit code of lookup", r)
		# One block per address that has been found
		blocks, at = [], None
		for l in r.lines:
			if l.startswith("  ") and at is not None:
				at.append(l)
			else:
				at = []
				blocks.append((l, at))
		found = [(t, a, p) for t, (a, p) in zip(args, chosen) if p is not None]
		same([l for l, _ in blocks], ["%s:" % t for t, a, p in found], "lookup: the addresses that have been found", r)
		if len(blocks) == len(found):
			for (l, block), (t, a, p) in zip(blocks, found):
				problem = judge_block(sp, a, p, block)
				rep.count(("lookup", t, p))
				if problem:
					rep.violation("lookup: %s" % problem.split("{")[0], (r, t, p))
		for t, (a, p) in zip(args, chosen):
			if p is None:
				check(t in r.err, "lookup: nothing is said about an address that has not been found", r, t)
	# Something that is not an address
	bad = rng.choice(["", "foo", "1.2.3", "1.2.3.4.5", "::1::", "256.1.1.1", "1.2.3.4%", "DE", "12345::"])
	args = [rng.choice(every)[0] for _ in range(rng.randrange(0, 3))]
	args = [model.addr_text(a) for a in args]
	r = cli("lookup", *args, bad)
	check(r.code not in (0, None) and r.err, "lookup of an invalid address", r)
	check(all(l.startswith("  ") or l[:-1] in args for l in r.lines), "lookup of an invalid address prints something else", r)


def ases(rng, sp, cli):
	numbers = list(sp.ases)
	for _ in range(4):
		chosen = [rng.choice(numbers + [rng.getrandbits(32), 4294967295, 64512]) for _ in range(rng.choice([1, 2, 4]))]
		want, missing = [], []
		for n in chosen:
			if n in sp.ases:
				want.append("AS%d belongs to %s" % (n, sp.as_name(n)))
			else:
				missing.append(n)
		bad = []
		if rng.random() < 0.3:
			bad = [rng.choice(["foo", "AS1", "4294967296", "99999999999999999999999", "1.5", ""])]
		args = chosen + bad
		rng.shuffle(args)
		want = ["AS%d belongs to %s" % (n, sp.as_name(n)) for n in args if n in sp.ases]
		r = cli("get-as", *args)
		rep.count(("get-as", tuple(args)) if want else None)
		same(r.lines, want, "get-as", r)
		check((r.code == 0) == (not missing and not bad), "exit code of get-as", r)
		for n in missing:
			check("AS%d" % n in r.err, "get-as: nothing is said about an AS that has not been found", r)
		if bad:
			check(bad[0] in r.err and r.err, "get-as: nothing is said about an invalid ASN", r)
	for _ in range(3):
		base = rng.choice([n for n in sp.ases.values() if n] or spec.NAMES)
		i = rng.randrange(len(base))
		needle = rng.choice([base, base[i:i + 3], base[i:i + 4].swapcase(), "zzz"])
		if needle.startswith("-") or not needle:
			continue
		r = cli("search-as", needle)
		want = sp.search_as(needle)
		same(r.lines, ["AS%d - %s" % x for x in want], "search-as", r)
		same(r.code, 0, "exit code of search-as", r)
		rep.count(("search-as", needle, len(want)) if want else None)


def countries(rng, sp, cli):
	for name in (False, True):
		for continent in (False, True):
			r = cli("list-countries", *(["--show-name"] if name else []), *(["--show-continent"] if continent else []))
			same(r.code, 0, "exit code of list-countries", r)
			if not check(len(r.lines) == len(sp.countries), "list-countries: not one line per country", r):
				continue
			for line, cc in zip(r.lines, sorted(sp.countries)):
				c, n = sp.countries[cc]
				rep.count(("country", name, continent, cc, c, n))
				# Anything may be printed for what is not known
				pattern = re.escape(cc)
				if continent:
					pattern += " " + re.escape(c) if c else r"(?: \S*)?"
				if name:
					pattern += " " + re.escape(n) if n else r"(?: \S*)?"
				if not re.fullmatch(pattern, line, re.S):
					rep.violation("list-countries: a country is not printed correctly", (r, line, cc, c, n))


def listings(rng, sp, cli, everything):
	asns = sorted({p.asn for p in sp.nets.values() if p.asn}) + [4200000001]
	ccs = sorted({p.cc for p in sp.nets.values() if p.cc}) + ["QQ"]
	options = {"--anonymous-proxy": 1, "--satellite-provider": 2, "--anycast": 4, "--drop": 8}
	for _ in range(8):
		fam = rng.choice([None, 4, 6])
		fmt = rng.choice([None, "list", "ipset", "nftables", "xt_geoip"])
		kind = rng.choice(["as", "cc", "flags", "bogons"])
		opts = []
		if fam:
			opts += ["--family", "ipv%d" % fam]
		if fmt:
			opts += ["--format", fmt]
		match = None
		if kind == "as":
			n = rng.choice(asns)
			name, match, args = "AS%d" % n, lambda p: p.asn == n, [n]
		elif kind == "cc":
			cc = rng.choice(ccs)
			name, match, args = cc, lambda p: p.cc == cc, [cc]
		elif kind == "flags":
			flags = rng.sample(sorted(options), rng.randrange(0, 5))
			mask = sum(options[f] for f in flags)
			name, match, args = "custom", lambda p: bool(p.flags & mask), flags
		else:
			name, args = "bogons", []
		r = cli({"as": "list-networks-by-as", "cc": "list-networks-by-cc", "flags": "list-networks-by-flags", "bogons": "list-bogons"}[kind], *opts, *args)
		if kind == "flags" and not args:
			check(r.code == 2 and r.err and not r.out, "list-networks-by-flags without any flag", r)
			continue
		if fmt == "xt_geoip":
			check(r.code not in (0, None) and r.err or not r.out, "binary output on standard output", r)
			continue
		if fmt == "ipset" and not fam:
			check(r.code == 2 and r.err and not r.out, "ipset without a family", r)
			continue
		if not check(r.code == 0, "exit code of list-*", r):
			continue
		try:
			data = r.out.encode()
			if fmt == "nftables" and not fam:
				ls = exportuse.lines(data)
				if ls[:1] != ["define %sv? = {" % name] or ls[-1:] != ["}"]:
					raise exportuse.Malformed("not a set")
				texts = [l.strip().rstrip(",") for l in ls[1:-1]]
			elif fmt == "nftables":
				exportuse.read_nftables(data, name, fam)
				texts = [l.strip().rstrip(",") for l in r.lines[1:-1]]
			elif fmt == "ipset":
				exportuse.read_ipset(data, name, fam)
				texts = [l.split()[2] for l in r.lines[2:]]
			else:
				texts = exportuse.lines(data)
			nets = [spec.parse_net(t) for t in texts]
		except (exportuse.Malformed, ValueError, IndexError) as e:
			check(False, "list-%s as %s is malformed" % (kind, fmt), r, str(e))
			continue
		if kind == "bogons":
			problem = spec.judge_bogons(sp, nets, fam)
			check(not problem, "list-bogons: %s" % problem, r)
			rep.count(("bogons", fmt, fam, len(nets)) if nets else None)
			continue
		want = [n for n, p in everything if match(p) and (not fam or model.family(n) == fam)]
		same(nets, want, "list-networks-by-%s" % kind, r)
		rep.count((kind, fmt, fam, name, len(want)) if want else None)
	# Something invalid
	for args in (["list-networks-by-cc", "D"], ["list-networks-by-cc", "D1"], ["list-networks-by-as", "foo"], ["list-networks-by-as", "99999999999999"],
			["list-networks-by-cc", "--family", "ipv5", "DE"], ["nothing"], [], ["list-networks-by-cc", "--format", "foo", "DE"], ["lookup"], ["get-as"]):
		if rng.random() < 0.4:
			r = cli(*args)
			check(r.code not in (0, None) and r.err + r.out and not spec_lines(r.lines), "invalid arguments: %s" % args, r)


def spec_lines(lines):
	return [l for l in lines if re.match(r"^[0-9a-f:.]+/\d+$", l)]


def dump(rng, sp, cli, work, everything):
	if rng.random() < 0.5:
		path = os.path.join(work, "dump")
		r = cli("dump", path)
		check(r.out == "", "dump into a file prints something", r)
		with open(path) as f:
			text = f.read()
		os.unlink(path)
	else:
		r = cli("dump")
		text = r.out
	same(r.code, 0, "exit code of dump", r)
	blocks = text.split("\n\n")
	head, blocks = blocks[0], blocks[1:]
	def fields(b):
		out = []
		for l in b.strip("\n").split("\n"):
			k, _, v = l.partition(":")
			out.append((k, v.strip()))
		return out
	got_as, got_net = [], []
	for b in blocks:
		f = fields(b)
		if f[0][0] == "aut-num":
			got_as.append(f)
		else:
			got_net.append(f)
	want = [[("aut-num", "AS%d" % n), ("name", sp.as_name(n).strip())] for n in sorted(sp.ases)]
	same(got_as, want, "dump: the ASes", r)
	want = []
	for n, p in everything:
		f = [("net", model.text(n))]
		if p.cc:
			f.append(("country", p.cc))
		if p.asn:
			f.append(("aut-num", str(p.asn)))
		for flag, label in ((1, "is-anonymous-proxy"), (2, "is-satellite-provider"), (4, "is-anycast"), (8, "drop")):
			if p.flags & flag:
				f.append((label, "yes"))
		want.append(f)
	same([[f[0], *sorted(f[1:])] for f in got_net], [[f[0], *sorted(f[1:])] for f in want], "dump: the networks", r)
	rep.count(("dump", len(got_as), len(got_net), head[:200]))
	comments = [l[1:].strip() for l in head.split("\n")]
	for what, value in (("Vendor:", sp.vendor), ("License:", sp.license)):
		if value.strip():
			check(any(c.startswith(what) and c[len(what):].strip() == value.strip() for c in comments), "dump: %s" % what, r, head)
	for l in sp.description.splitlines():
		check(l.strip() in comments, "dump: description", r, head)


def exports(rng, sp, cli, work):
	ccs = sorted({p.cc for p in sp.nets.values() if p.cc})
	asns = sorted({p.asn for p in sp.nets.values() if p.asn})
	for _ in range(2):
		objects = rng.sample(ccs, min(len(ccs), rng.randrange(0, 3))) + rng.sample(asns, min(len(asns), rng.randrange(0, 3))) + rng.sample(sorted(spec.SPECIAL), rng.randrange(0, 3))
		rng.shuffle(objects)
		fam = rng.choice([None, 4, 6])
		fmt = rng.choice(sorted(exportuse.FORMATS) + [None])
		out = os.path.join(work, "out")
		os.mkdir(out)
		opts = ["--directory", out]
		if fam:
			opts += ["--family", "ipv%d" % fam]
		if fmt:
			opts += ["--format", fmt]
		args = [exportuse.name_of(o) for o in objects]
		invalid = []
		if objects and rng.random() < 0.4:
			# What is invalid is reported, and left out
			invalid = rng.sample(["INVALID", "D1", "d", "de", "ASX", "AS-1", "AS1x", "A4", "XDE", "12", "as5"], rng.randrange(1, 4))
			for bad in invalid:
				args.insert(rng.randrange(len(args) + 1), bad)
		r = cli("export", *opts, *args)
		if invalid:
			check(all(bad in r.err for bad in invalid), "an invalid object of an export is not reported", r)
			rep.count(("invalid objects", len(invalid), len(objects)))
		else:
			same(r.code, 0, "exit code of export", r)
		reader, filename = exportuse.FORMATS[fmt or "list"]
		all_of = objects or sorted(sp.countries) + sorted(spec.SPECIAL)
		want_files = {}
		for f in [fam] if fam else [4, 6]:
			effective = [(a, b, sp.nets[n]) for a, b, n in model.segments(sp.nets, f)]
			for o in all_of:
				match = exportuse.has(o)
				want_files[filename(exportuse.name_of(o), f)] = (exportuse.name_of(o), f, model.union([(a, b) for a, b, p in effective if match(p)]))
		same(set(os.listdir(out)), set(want_files), "export: the files", r)
		for name, (o, f, want) in want_files.items():
			try:
				with open(os.path.join(out, name), "rb") as fd:
					problem = exportuse.judge(reader(fd.read(), o, f), want)
			except exportuse.Malformed as e:
				problem = "malformed (%s)" % e
			except FileNotFoundError:
				continue
			rep.count((name, len(want), want[0]) if want else None)
			if problem:
				rep.violation("export: %s" % problem.split("(")[0], (r, name))
		shutil.rmtree(out)


def broken(rng, cli, work, db, keys):
	"""Files that are no databases"""
	kind = rng.choice(["missing", "garbage", "empty", "directory", "truncated"])
	path = os.path.join(work, "broken")
	if kind == "garbage":
		with open(path, "wb") as f:
			f.write(rng.randbytes(rng.choice([1, 100, 5000])))
	elif kind == "empty":
		open(path, "wb").close()
	elif kind == "directory":
		os.mkdir(path)
	elif kind == "truncated":
		with open(db, "rb") as f:
			data = f.read()
		with open(path, "wb") as f:
			f.write(data[:rng.choice([8, 100, 4000, 4199])])
	command = rng.choice([["version"], ["lookup", "1.1.1.1"], ["dump"], ["list-countries"], ["verify"], ["export"]])
	r = cli(*command, db=path)
	check(r.code not in (0, None) and r.err and not r.out, "a %s database" % kind, r)
	rep.count(("broken", kind, command[0]))
	if os.path.isdir(path):
		os.rmdir(path)
	elif os.path.exists(path):
		os.unlink(path)


def files(rng, sp, cli, work):
	"""Standard output is a file, a pipe or a full disk"""
	env = dict(os.environ)
	def spawn(args, **kwargs):
		return subprocess.run(["/usr/bin/python3", cli.command, "--database", cli.db, *args], env=env, stderr=subprocess.PIPE, timeout=120, **kwargs)
	ccs = sorted({p.cc for p in sp.nets.values() if p.cc})
	cc = rng.choice(ccs or ["QQ"])
	fam = rng.choice([4, 6])
	fmt = rng.choice(["ipset", "list", "nftables"])
	commands = [["list-networks-by-cc", "--family", "ipv%d" % fam, "--format", fmt, cc],
		["list-bogons", "--family", "ipv%d" % fam, "--format", fmt],
		["export", "--family", "ipv%d" % fam, "--format", fmt, cc], ["list-networks-by-flags", "--drop", "--family", "ipv%d" % fam, "--format", fmt]]
	args = rng.choice(commands)
	pipe = spawn(args, stdout=subprocess.PIPE)
	path = os.path.join(work, "redirected")
	mode = rng.choice(["w", "a", "after"])
	before = b"# Something else\n"
	with open(path, "wb") as f:
		if mode != "w":
			f.write(before)
			f.flush()
		if mode == "a":
			f.close()
			f = open(path, "ab")
		p = spawn(args, stdout=f)
		f.close()
	with open(path, "rb") as f:
		got = f.read()
	os.unlink(path)
	if mode != "w":
		if not got.startswith(before):
			rep.violation("what was in a file before is overwritten", (args, mode, got[:300]))
			return
		got = got[len(before):]
	rep.count(("redirect", mode, args[0], fmt))
	if (got, p.returncode) != (pipe.stdout, pipe.returncode):
		rep.violation("output to a file differs from output to a pipe", (args, mode, got[:600], pipe.stdout[:600]))
	# Nothing can be written
	if pipe.stdout:
		with open("/dev/full", "wb") as f:
			p = spawn(args, stdout=f)
		rep.count(("full", args[0], fmt))
		if p.returncode == 0:
			rep.violation("output that could not be written is not an error", (args, p.stderr[-500:]))
	# Files cannot grow beyond a limit
	out = os.path.join(work, "limited")
	os.mkdir(out)
	args = rng.choice([["dump", os.path.join(out, "dump")], ["export", "--directory", out, "--format", rng.choice(sorted(exportuse.FORMATS))]])
	p = spawn(args, stdout=subprocess.PIPE)
	size = max([os.path.getsize(os.path.join(out, n)) for n in os.listdir(out)], default=0)
	if size > 1:
		for n in os.listdir(out):
			os.unlink(os.path.join(out, n))
		limit = rng.choice([1, size // 2, size - 1])
		def preexec():
			resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
		p = spawn(args, stdout=subprocess.PIPE, preexec_fn=preexec)
		rep.count(("limit", args[0], args[-1]))
		if p.returncode == 0:
			rep.violation("a file that could not be written completely is not an error", (args, limit, size, p.stderr[-500:]))
	shutil.rmtree(out)


def main():
	seed, case, scratch, keys, command = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4], sys.argv[5]
	rng = random.Random("%s:C24:%d" % (seed, case))
	work = os.path.join(scratch, "cli-%d" % case)
	os.makedirs(work)
	for turn in range(3):
		sp = spec.Spec(rng, small=rng.random() < 0.7)
		# Lines are what the output consists of
		single = [m for m in spec.META if "\n" not in m and len(m) < 1000]
		sp.vendor, sp.license = rng.choice(single), rng.choice(single)
		path = os.path.join(work, "db")
		key = write(rng, sp, path, keys)
		db = location.Database(path)
		everything = [(spec.parse_net(str(n)), Props(n.country_code, n.asn or 0, sum(f for f in (1, 2, 4, 8) if n.has_flag(f)))) for n in db.networks]
		problem = spec.judge_listing(sp, everything)
		if problem:
			rep.violation("networks: %s" % problem)
		created_at = db.created_at
		cli = Cli(command, path, rng)

		version(cli, created_at, path)
		# Any other time
		t = rng.choice([0, 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 951782400, 1709164800, 1711846800 + rng.randrange(7200), rng.randrange(2**33)])
		with open(path, "rb") as f:
			data = fmt.set_field(f.read(), "created_at", t)
		with open(os.path.join(work, "timed"), "wb") as f:
			f.write(data)
		version(cli, t, os.path.join(work, "timed"))

		lookups(rng, sp, cli)
		ases(rng, sp, cli)
		countries(rng, sp, cli)
		listings(rng, sp, cli, everything)
		dump(rng, sp, cli, work, everything)
		exports(rng, sp, cli, work)
		broken(rng, cli, work, path, keys)
		for name in KEYS:
			r = cli("--public-key", os.path.join(keys, name + ".pub"), "verify")
			check((r.code == 0) == (name == key) and not r.out, "verify", r, key)
			rep.count(("verify", name, key))
		for name in keyfiles.junk(work):
			if key and name.startswith(keys):
				# The private key includes the public one
				continue
			r = cli("--public-key", name, "verify")
			check(r.code not in (0, None) and not r.out, "verify with a file that is not a key", r, name)
		r = cli("--public-key", os.path.join(work, "missing"), "verify")
		check(r.code not in (0, None) and r.err, "verify without a key", r)
		if turn == 0 and case % 3 == 0:
			files(rng, sp, cli, work)
		if turn == 0 and case < 3:
			rep.sample({"networks": len(sp.nets), "ases": len(sp.ases), "countries": len(sp.countries), "last": repr(r)})
		del db
	shutil.rmtree(work)
	rep.done()


if __name__ == "__main__":
	main()
