"""
Updates databases, interrupts and disturbs that at every point, and watches the installed file.

updateuse.py <seed> <case> <scratch directory> <key directory> <path to the command> <path to crash.so>
"""
import errno
import os
import random
import shutil
import signal
import stat
import subprocess
import sys
import tempfile
import time

import location

from harness import mirrors, rep

RUN = os.path.join(os.path.dirname(os.path.abspath(__file__)), "updaterun.py")


def fnv(data):
	h = 14695981039346656037
	for b in data:
		h = (h ^ b) * 1099511628211 & 0xffffffffffffffff
	return "%016x" % h


def content(db):
	return db.created_at, [(str(n), n.country_code, n.asn) for n in db.networks]


class Scenario:
	def __init__(self, rng, server, dbs, work, keys):
		self.rng, self.server = rng, server
		now = int(time.time())
		self.base = now - rng.choice([3600, 2 * 86400, 10 * 86400, 40 * 86400])
		self.installed = None
		if rng.random() < 0.85:
			self.installed = dbs.make(self.base)
		self.dns = rng.choice([None, self.base - 10, self.base, self.base + 1, self.base + 1000, self.base + 1000, self.base + 1000])
		self.cron = rng.choice([None, None, None, None, "daily", "weekly", "monthly"])
		self.key = rng.choice(["prime256v1.pub"] * 12 + ["secp384r1.pub", "missing.pub"])
		self.umask = rng.choice([0o022, 0o077])
		self.relative = rng.random() < 0.2
		self.tmpdir = rng.random() < 0.5
		if self.dns:
			wanted, older = self.dns, (1, 1, 3600, 10**8)
		elif self.installed:
			wanted, older = self.base + 1, (3600, 10**8)
		else:
			wanted, older = None, (1,)
		self.plan, self.urls = {}, []
		prefix = "u%d-" % rng.getrandbits(32)
		for i in range(rng.choice([1, 1, 2, 3])):
			name = "%s%d" % (prefix, i)
			kind, deliver, must, body = mirrors.answers(rng, dbs, wanted, server, older)
			server.behaviour[name] = body
			self.plan[name] = (kind, deliver, must)
			self.urls.append(server.url(name))
		# What has to happen
		delta = {"daily": 1, "weekly": 7, "monthly": 30}.get(self.cron, 0) * 86400
		if self.installed and self.cron and abs(self.base - (now - delta)) > 600 and self.base > now - delta:
			self.expect = "recent"
		elif self.installed and self.dns and self.base >= self.dns:
			self.expect = "latest"
		elif self.key != "prime256v1.pub":
			self.expect = "failure"
		elif any(p[2] for p in self.plan.values()):
			self.expect = "success"
		elif any(p[1] for p in self.plan.values()):
			self.expect = "either"
		else:
			self.expect = "failure"
		self.acceptable = [p[1] for p in self.plan.values() if p[1]]
		self.what = {"installed": bool(self.installed), "dns": self.dns and self.dns - self.base, "cron": self.cron, "key": self.key, "mirrors": [p[0] for p in self.plan.values()], "expect": self.expect}


def run(sc, work, keys, command, shim, at=None, mode=None):
	"""One update; returns (exit code, events, stderr, what is installed, files, held)"""
	d = os.path.join(work, "lib")
	os.mkdir(d)
	path = os.path.join(d, "database.db")
	held = None
	if sc.installed is not None:
		with open(path, "wb") as f:
			f.write(sc.installed)
		os.chmod(path, 0o444)
		held = location.Database(path)
		before = content(held)
		st = os.stat(path)
	log = os.path.join(work, "log")
	if os.path.exists(log):
		os.unlink(log)
	env = dict(os.environ, LD_PRELOAD=shim, CRASH_DIR=d, CRASH_WATCH=path, CRASH_LOG=log)
	elsewhere = None
	if sc.tmpdir and os.access("/dev/shm", os.W_OK):
		# Temporary files are on another file system
		elsewhere = tempfile.mkdtemp(dir="/dev/shm", prefix="verif-")
		env["TMPDIR"] = elsewhere
	if mode is not None:
		env.update(CRASH_AT=str(at), CRASH_MODE=str(mode))
	args = ["--database", "database.db" if sc.relative else path, "--public-key", os.path.join(keys, sc.key), "update"]
	if sc.cron:
		args += ["--cron", sc.cron]
	n = len(sc.server.log)
	others = []
	try:
		p = subprocess.run(["/usr/bin/python3", RUN, command, ",".join(sc.urls), str(sc.dns or "-"), *args], env=env, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
			timeout=240, umask=sc.umask)
		others = os.listdir(elsewhere) if elsewhere else []
	finally:
		if elsewhere:
			shutil.rmtree(elsewhere)
	asked = [m for m, *_ in sc.server.log[n:] if m in sc.plan]
	rep.bump("updates")
	what = dict(sc.what, at=at, mode=mode, code=p.returncode, stderr=p.stderr.decode("utf-8", "replace")[-1200:], asked=[sc.plan[m][0] for m in asked])
	now = None
	if os.path.exists(path):
		with open(path, "rb") as f:
			now = f.read()
	events = []
	if os.path.exists(log):
		with open(log) as f:
			events = [l.rstrip("\n").split(" ", 2) for l in f]
	rep.bump("states_of_the_installed_file_seen", len(events))

	# At no time was there anything else than the old or the new database
	states = []
	for s, name, where in events:
		if not states or states[-1] != s:
			states.append(s)
	old = fnv(sc.installed) if sc.installed is not None else "0" * 16
	new = {fnv(a) for a in sc.acceptable}
	for i, s in enumerate(states):
		if s == old and i == 0 or s == old and set(states[:i]) <= {old}:
			continue
		if s in new and len(set(states[:i]) - {old}) == 0:
			continue
		rep.violation("the installed file is neither the old nor the new database during an update", (what, states, [e for e in events if e[0] == s][:3]))
		break
	if now != sc.installed and now not in sc.acceptable:
		rep.violation("the installed file is neither the old nor the new database after an update", (what, now is not None and len(now)))
	if held is not None and content(held) != before:
		rep.violation("an open database changes during an update", what)
	updated = now is not None and now != sc.installed
	others += sorted(f for f in os.listdir(d) if f != "database.db")
	mode_now = stat.S_IMODE(os.stat(path).st_mode) if now is not None else None
	untouched = sc.installed is not None and not updated and os.stat(path)[:3] + os.stat(path)[8:9] == st[:3] + st[8:9]
	del held
	for f in os.listdir(d):
		os.unlink(os.path.join(d, f))
	os.rmdir(d)
	return p.returncode, [e for e in events if e[1] != "after"], what, updated, untouched, others, mode_now, asked


def judge(sc, r):
	code, events, what, updated, untouched, others, mode, asked = r
	if others:
		rep.violation("an update leaves other files", (what, others))
	if "Traceback" in what["stderr"] and "Logging error" not in what["stderr"]:
		rep.violation("an update ends with a traceback", what)
	if updated:
		if code != 0:
			rep.violation("a successful update returns an error", what)
		if sc.expect not in ("success", "either"):
			rep.violation("a database has been installed that should not", what)
		if mode & 0o444 != 0o444 or mode & 0o022:
			rep.violation("the new database is not readable for everyone, or writable for others", (what, oct(mode)))
	else:
		if sc.installed is not None and not untouched:
			rep.violation("an update without a new database touches the installed file", what)
		if sc.expect == "success":
			rep.violation("an update fails although there is a new database", what)
		want = {"recent": (3,), "latest": (0, 3)}.get(sc.expect)
		if want and code not in want or not want and code in (0, None):
			rep.violation("exit code of an update without a new database", what)
		if want and asked:
			rep.violation("mirrors are asked although there is no need to", what)


def main():
	seed, case, scratch, keys, command, shim = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4], sys.argv[5], sys.argv[6]
	deep = len(sys.argv) > 7
	rng = random.Random("%s:C26:%d" % (seed, case))
	for k in list(os.environ):
		if k.lower().endswith("_proxy"):
			del os.environ[k]
	work = os.path.join(scratch, "update-%d" % case)
	os.makedirs(work)
	server = mirrors.Server()
	dbs = mirrors.Databases(rng, keys, work)
	swept = 0
	for turn in range(5):
		sc = Scenario(rng, server, dbs, work, keys)
		while turn == 4 and not swept and sc.expect != "success":
			sc = Scenario(rng, server, dbs, work, keys)
		r = run(sc, work, keys, command, shim)
		judge(sc, r)
		rep.count((sc.expect, bool(sc.installed), tuple(sc.what["mirrors"]), r[3]))
		if turn == 0 and case < 3:
			rep.sample(dict(r[2], events=[e[1] for e in r[1]]))
		if not r[3] or swept:
			continue
		# Now, with interruptions
		swept += 1
		events = r[1]
		points = [(i, m) for i in range(len(events)) for m in ("kill", "half", "int", errno.ENOSPC, errno.EIO, errno.EXDEV, errno.EACCES)
			if not (m == "half" and events[i][1] != "write") and not (m == errno.EXDEV and events[i][1] not in ("rename", "link"))]
		# The last ones matter most
		tail = [p for p in points if p[0] >= len(events) - 2]
		points = points if deep else rng.sample(points, min(len(points), 4)) + rng.sample(tail, min(len(tail), 7))
		# Somebody loses patience while the data arrives
		writes = [i for i, e in enumerate(events) if e[1] == "write"]
		points += [(i, "int") for i in rng.sample(writes, min(len(writes), 2)) if (i, "int") not in points]
		for at, mode in points:
			code, ev, what, updated, untouched, others, perm, asked = run(sc, work, keys, command, shim, at, mode)
			name = ev[at][1] if at < len(ev) else None
			rep.count((name, mode, updated))
			rep.bump("interruptions" if mode in ("kill", "half", "int") else "failing_calls")
			if updated and perm & 0o444 != 0o444:
				rep.violation("the new database is not readable for everyone", (what, oct(perm)))
			if mode == "int" and name == "write" and not updated:
				rep.bump("interrupted_downloads")
				if others:
					rep.violation("an update that is interrupted while it downloads leaves other files", (what, others))
			if mode in ("kill", "half", "int"):
				continue
			if name is None:
				continue
			# A call has failed
			if others and name != "unlink":
				rep.violation("an update that fails leaves other files", (what, name, others))
			if (code == 0) != updated:
				rep.violation("the exit code does not tell whether there has been an update", (what, name))
			if not updated and sc.installed is not None and not untouched:
				rep.violation("an update that fails touches the installed file", (what, name))
	shutil.rmtree(work)
	rep.done()


if __name__ == "__main__":
	main()
