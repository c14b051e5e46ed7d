"""
Threads with handles of their own, under the race detector; processes that read while a file is replaced.
"""
import os
import re
import subprocess
import time

from vlib import build, dbs, drv, gen, keys, model
from vlib.check import Check
from vlib.drv import h


def database(c, binary, i, path, marker=None, key="prime256v1"):
	rng = c.rng("db", i)
	nets = gen.networks(rng)
	s = drv.Script()

	def extra(s):
		for a in rng.sample(range(300), 40):
			s.add("was", 0, 1, a, h("Name %d" % a))
		for cc in gen.COUNTRIES:
			s.add("wctry", 0, 1, h(cc), h("EU"), h("Country " + cc))
		s.add("wset", 0, "v", h(marker or "Vendor"))
	dbs.write(s, rng, nets, path, key1=keys.private(key), extra=extra)
	c.run_script(binary, s)
	return nets


def threads(c, binary, i, paths, n, rounds, kind):
	scratch = os.path.join(c.scratch, "t%s%d" % (kind, i))
	os.makedirs(scratch)
	env = dict(drv.ENV)
	env["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=0:second_deadlock_stack=1:history_size=4"
	cmd = [binary, str(c.seed * 1000 + i), str(n), str(rounds), scratch, keys.public("prime256v1"), keys.private("prime256v1"), *paths]
	try:
		p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env, timeout=400)
	except subprocess.TimeoutExpired:
		c.violation("threads hang", "the threads did not end: %s" % " ".join(cmd), " ".join(cmd))
		return
	c.count(n=n * rounds)
	m = re.search(r"OK pairs=(\d+) events=(\d+) digest=(\w+)", p.stdout)
	for pair in re.findall(r" (\d+-\d+)", p.stdout.split("OVERLAP", 1)[-1]):
		c.count(("overlap", kind, pair), n=0)
	if m:
		c.bump("overlapping calls", int(m[2]))
	c.bump("%s runs" % kind)
	if i == 0:
		c.sample({"command": " ".join(cmd), "output": p.stdout[-600:]})
	replay = "# %s\n%s\n%s" % (" ".join(cmd), p.stdout[-2000:], p.stderr[-8000:])
	if "DIFFERENT" in p.stdout:
		c.violation("interference", "a thread got other results than alone: %s" % re.search(r"DIFFERENT.*", p.stdout)[0], replay)
	elif "ThreadSanitizer" in p.stderr:
		where = re.findall(r"#0 (\w+) [^\n]*?/src/([\w./-]+)", p.stderr)
		c.violation("race:%s" % (where[0][0] if where else "?"), p.stderr[:3000], replay)
	elif p.returncode or not m or "LEAK" in p.stdout:
		c.violation("threads crash", "exit %s: %s" % (p.returncode, (p.stdout + p.stderr)[-1500:]), replay)


READER = """
"""


def processes(c, binary, i):
	"""Readers open, look up and list, over and over, while writers replace the file by renaming"""
	base = os.path.join(c.scratch, "p%d" % i)
	os.makedirs(base)
	target = os.path.join(base, "live.db")
	versions = []
	for k in range(3):
		path = os.path.join(base, "v%d.db" % k)
		database(c, binary, "%d-%d" % (i, k), path, "Version %d" % k)
		versions.append(path)
	rng = c.rng("probe", i)
	probes = [rng.getrandbits(128) | 1 << 125 for _ in range(5)] + [model.V4BASE + rng.getrandbits(32) for _ in range(10)]

	def questions(s, slot):
		for a in probes:
			s.add("dl", slot, drv.hexaddr(a))
		s.add("de", slot, "mode:n")
		s.add("de", slot, "mode:a")
		s.add("dverify", slot, h(keys.public("prime256v1")))
	# What each version answers on its own
	answers = {}
	for k, path in enumerate(versions):
		s = drv.Script()
		s.add("dopen", 0, h(path))
		s.add("dmeta", 0)
		questions(s, 0)
		r = c.run_script(binary, s)
		answers[r.lines[1]] = r.lines[2:-1 - 1]
	questions_count = len(next(iter(answers.values())))

	loops = c.scale(40, 200)
	w = drv.Script()
	for n in range(loops * 4):
		tmp = os.path.join(base, "tmp")
		w.add("echo")
		w.lines[-1] = "cp %s %s" % (h(versions[n % 3]), h(tmp))
		w.lines.append("mv %s %s" % (h(tmp), h(target)))
		w.checks.append(None)
	subprocess.check_call(["cp", versions[0], target])
	r = drv.Script()
	expected = []
	seen = set()
	for n in range(loops):
		slot = n % 3
		state = {}

		def opened(out):
			return None if out.split()[0] == "0" else "could not open the database while it was replaced"

		def meta(out, state=state):
			state["answers"] = answers.get(out)
			seen.add(out)
			return None if state["answers"] else "a database that is neither of the versions"
		r.add("dopen", slot, h(target), check=opened)
		r.add("dmeta", slot, check=meta)
		start = len(r.lines)
		questions(r, slot)
		for j in range(start, len(r.lines)):
			def same(out, state=state, k=j - start):
				c.count(("process", i, n, k) if k == 0 else None)
				if state.get("answers") and out != state["answers"][k]:
					return "a reader got mixed answers while the file was replaced"
			r.checks[j] = same

	def writer():
		drv.run(binary, w.lines, timeout=240)
	import threading
	t = threading.Thread(target=writer)
	t.start()
	readers = [threading.Thread(target=lambda: c.run_script(binary, r, tag="reader:")) for _ in range(3)]
	for x in readers:
		x.start()
	for x in readers:
		x.join()
	t.join()
	c.bump("versions seen by readers", len(seen))
	c.bump("process rounds", loops * 3)


def main():
	c = Check("C28", rule="threads with their own handles run pseudo-random sequences of all kinds of calls, alone and then concurrently; the race detector watches and each call has to observe what it did alone; "
		"processes read a file while it is replaced; distinct are pairs of kinds of calls that really overlapped, and reads during replacement",
		assumptions=["ThreadSanitizer sees accesses made by libloc itself, and the interceptors of the C library"])
	asan, plain = build.driver("asan"), build.driver("plain")
	tsan = build.driver("tsan", source="threads.c")
	plain_threads = build.driver("plain", source="threads.c", opt="-O2")
	paths = []
	for i in range(3):
		paths.append(os.path.join(c.scratch, "%d.db" % i))
		database(c, asan, i, paths[-1], key="prime256v1" if i else "other")
	jobs = []
	for i in range(c.scale(3, 20)):
		jobs.append(lambda i=i: threads(c, tsan, i, paths, 8, c.scale(60, 200), "tsan"))
	for i in range(c.scale(3, 20)):
		jobs.append(lambda i=i: threads(c, plain_threads, i, paths, 8, c.scale(300, 2000), "plain"))
	c.parallel(lambda j: j(), jobs, workers=2)
	c.parallel(lambda i: processes(c, plain, i), range(c.scale(2, 8)), workers=2)
	return c.finish()
