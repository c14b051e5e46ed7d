"""
Downloads databases from mirrors that answer in many ways.

fetchuse.py <seed> <case> <scratch directory> <key directory>
"""
import gzip
import logging
import os
import random
import shutil
import stat
import sys
import tempfile
import time

import location
import location.downloader

from harness import mirrors, rep

logging.raiseExceptions = False
for h in list(logging.getLogger("location").handlers):
	logging.getLogger("location").removeHandler(h)


def download(rng, server, dbs, work, keys):
	base = int(time.time()) - 10**6
	timestamp = rng.choice([None, base, base, base + 7, 10**9])
	n = rng.choice([1, 1, 2, 2, 3, 4, 6])
	urls, plan = [], {}
	good = rng.random() < 0.5
	for i in range(n):
		name = "m%d" % i
		if rng.random() < 0.08:
			plan[name] = ("refused", None, False)
			urls.append(server.refused(name))
			continue
		kind, deliver, must, body = mirrors.answers(rng, dbs, timestamp, server)
		# Not all of the histories should end early
		while not good and must and i < n - 1:
			kind, deliver, must, body = mirrors.answers(rng, dbs, timestamp, server)
		server.behaviour[name] = body
		plan[name] = (kind, deliver, must)
		urls.append(server.url(name))
	del server.log[:]
	tmpdir = os.path.join(work, "tmp")
	os.mkdir(tmpdir)
	os.umask(rng.choice([0o022, 0o077]))
	what = {"timestamp": timestamp, "mirrors": {k: v[0] for k, v in plan.items()}}
	d = location.downloader.Downloader(mirrors=urls)
	t = exc = None
	try:
		t = d.download(os.path.join(keys, "prime256v1.pub"), timestamp=timestamp, tmpdir=tmpdir)
	except Exception as e:
		exc = e
	what["outcome"] = repr(exc) if exc else "delivered"
	asked = [m for m, method, path, headers in server.log if m in plan]
	what["asked"] = asked
	left = os.listdir(tmpdir)
	rep.count((tuple(plan[m][0] for m in asked), what["outcome"][:20]))
	rep.bump("mirrors_asked", len(asked))
	if len(set(asked)) != len(asked):
		rep.violation("a mirror is asked twice", what)
	for m, method, path, headers in server.log:
		if m in plan and (method != "GET" or path != "/%s/1/location.db.xz" % m):
			rep.violation("another file is requested", (what, method, path))
	if t is None:
		rep.bump("downloads_failed")
		if not isinstance(exc, FileNotFoundError):
			rep.violation("a failed download does not raise FileNotFoundError: %s" % type(exc).__name__, what)
		elif any(must for kind, deliver, must in plan.values()):
			rep.violation("a mirror with a recent database was not used", what)
		elif set(asked) != {m for m, p in plan.items() if p[0] != "refused"}:
			rep.violation("not all mirrors have been tried", what)
		if left:
			rep.violation("a failed download leaves files behind", (what, left))
	else:
		rep.bump("downloads_delivered")
		try:
			with open(t.name, "rb") as f:
				data = f.read()
		except OSError as e:
			rep.violation("the delivered file cannot be opened", (what, e))
			data = b""
		what["size"] = len(data)
		if not asked or plan[asked[-1]][1] is None:
			rep.violation("something is delivered which no mirror had", what)
		elif data != plan[asked[-1]][1]:
			rep.violation("the delivered file is not what the mirror had", (what, len(plan[asked[-1]][1])))
		for m in asked[:-1]:
			if plan[m][2]:
				rep.violation("a mirror with a recent database was not used", what)
		if left != [os.path.basename(t.name)]:
			rep.violation("a download leaves other files", (what, left))
		if stat.S_IMODE(os.stat(t.name).st_mode) & 0o444 != 0o444 or stat.S_IMODE(os.stat(t.name).st_mode) & 0o022:
			rep.violation("the delivered file is not readable for everyone, or writable for others", (what, oct(os.stat(t.name).st_mode)))
	shutil.rmtree(tmpdir)
	return what


def without_key(rng, server, dbs, work, keys):
	"""Not the fault of any mirror, but nothing may remain, and nothing may be delivered"""
	tmpdir = os.path.join(work, "tmp")
	os.mkdir(tmpdir)
	z = mirrors.xz(rng, dbs.make(int(time.time())))
	server.behaviour["k"] = lambda c: mirrors.respond(c, z)
	key = rng.choice([os.path.join(work, "missing"), work, "/dev/null", os.path.join(keys, "prime256v1.pem") + "x"])
	try:
		location.downloader.Downloader(mirrors=[server.url("k")]).download(key, tmpdir=tmpdir)
		rep.violation("a database is delivered without a key", key)
	except Exception:
		pass
	rep.count(("key", key[:5]))
	if os.listdir(tmpdir):
		rep.violation("a download without a key leaves files behind", (key, os.listdir(tmpdir)))
	shutil.rmtree(tmpdir)


def retrieve(rng, server):
	body = rng.choice([b"", b"x", b"\x1f", b"\x1f\x8b", b"foo\n" * 1000, rng.randbytes(rng.choice([10, 65536, 65537, 300000]))])
	compress = rng.random() < 0.5
	sent = gzip.compress(body) if compress else body
	if not compress and body[:2] == b"\x1f\x8b":
		return
	kind = rng.choice(["text/plain", None, "application/octet-stream"] + (["application/gzip", "application/x-gzip"] if compress else []))
	headers = ["Content-Type: %s" % kind] if kind else []
	how = rng.choice(["plain", "pieces", "chunked"])
	if how == "plain":
		server.behaviour["x"] = lambda c: mirrors.respond(c, sent, headers=headers)
	elif how == "pieces":
		server.behaviour["x"] = lambda c: mirrors.pieces(c, rng, sent, headers=headers)
	else:
		ch = mirrors.chunks(rng, sent)
		server.behaviour["x"] = lambda c: mirrors.respond(c, ch, headers=headers, chunked=True)
	with location.downloader.Downloader().retrieve(server.url("x") + "file", timeout=60) as f:
		got = f.read()
	rep.count(("retrieve", compress, kind, how, len(body)))
	if got != body:
		rep.violation("retrieve does not return what was sent", (compress, kind, how, len(body), len(got)))


def main():
	seed, case, scratch, keys = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4]
	for k in list(os.environ):
		if k.lower().endswith("_proxy"):
			del os.environ[k]
	rng = random.Random("%s:C25:%d" % (seed, case))
	random.seed("%s:%d" % (seed, case))
	work = os.path.join(scratch, "fetch-%d" % case)
	os.makedirs(work)
	# Temporary files elsewhere are none of ours
	tempfile.tempdir = work
	server = mirrors.Server()
	for turn in range(4):
		dbs = mirrors.Databases(rng, keys, work)
		for i in range(10):
			what = download(rng, server, dbs, work, keys)
			if turn == 0 and i < 2 and case < 4:
				rep.sample(what)
		for i in range(3):
			try:
				retrieve(rng, server)
			except Exception:
				rep.unexpected("retrieve")
		without_key(rng, server, dbs, work, keys)
		server.behaviour.clear()
	os.umask(0o022)
	shutil.rmtree(work)
	rep.done()


if __name__ == "__main__":
	main()
