"""
What all checks share: seeds, tiers, parallel execution, verdicts, replays, known findings, evidence.
"""
import concurrent.futures
import hashlib
import json
import os
import random
import shutil
import sys
import tempfile
import threading
import time
import traceback

from . import build, drv

VERIF = build.VERIF
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


class Inconclusive(Exception):
	pass


SCALE = float(os.environ.get("VERIF_SCALE", "1"))

# No process of ours needs anywhere near this; what does has lost its end, and would take the machine with it
MEMORY_LIMIT = 5 << 30


def watch_memory(interval=0.5):
	"""Ends processes below this one that use up the memory. Their cases are reported like any other crash."""
	me = os.getpid()
	page = os.sysconf("SC_PAGE_SIZE")
	while True:
		time.sleep(interval)
		parents, sizes = {}, {}
		for d in os.listdir("/proc"):
			if not d.isdigit():
				continue
			try:
				with open("/proc/%s/stat" % d) as f:
					stat = f.read()
				fields = stat[stat.rindex(")") + 2:].split()
			except (OSError, ValueError):
				continue
			parents[int(d)], sizes[int(d)] = int(fields[1]), int(fields[21]) * page
		for pid, size in sizes.items():
			if size < MEMORY_LIMIT or pid == me:
				continue
			p = pid
			while p in parents and p != me:
				p = parents[p]
			if p == me:
				try:
					os.kill(pid, 9)
				except OSError:
					pass


class Check:
	current = None

	def __init__(self, prop, level="exploration", rule="", assumptions=()):
		self.prop, self.level, self.rule = prop, level, rule
		Check.current = self
		self.assumptions = list(assumptions)
		self.started = time.time()
		self.evaluations = 0
		self.nontrivial = set()
		self.samples = []
		self.violations = []
		self.lock = threading.Lock()
		self.known_seen = set()
		self.hangs = 0
		self.extra = {}
		self.inconclusive = []
		self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
		os.chmod(self.scratch, 0o755)
		self.known = self._load_known()
		self.tier = TIER
		self.seed = SEED
		self.thorough = TIER == "thorough"
		threading.Thread(target=watch_memory, daemon=True).start()

	def _load_known(self):
		try:
			with open(os.path.join(VERIF, "known_findings.json")) as f:
				entries = json.load(f)["findings"]
		except FileNotFoundError:
			return {}
		return {e["key"]: e for e in entries if e["property"] == self.prop and e["status"] == "known"}

	def rng(self, *name):
		return random.Random("%s:%s:%s" % (self.seed, self.prop, ":".join(str(n) for n in name)))

	def scale(self, quick, thorough):
		if SCALE != 1 and not self.thorough:
			# (only for measuring the checks themselves, see tools/mutants.py)
			return max(1, int(quick * SCALE))
		return thorough if self.thorough else quick

	def count(self, key=None, n=1):
		"""One judged case; key (if any) identifies it as distinct and non-trivial"""
		with self.lock:
			self.evaluations += n
		if key is not None:
			if not isinstance(key, (str, bytes)):
				key = repr(key)
			self.nontrivial.add(hashlib.blake2b(key.encode() if isinstance(key, str) else key, digest_size=8).digest())

	def bump(self, name, n=1):
		with self.lock:
			self.extra[name] = self.extra.get(name, 0) + n

	def sample(self, s):
		if len(self.samples) < 8:
			self.samples.append(s if len(str(s)) < 1500 else str(s)[:1500])

	def violation(self, key, what, replay=None):
		"""key: stable name of what failed, for the known findings"""
		with self.lock:
			self._violation(key, what, replay)

	def _violation(self, key, what, replay):
		if key in self.known:
			if key not in self.known_seen:
				self.known_seen.add(key)
				print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[key]["what"]))
			return
		for k, _, _ in self.violations:
			if k == key:
				return
		if len(self.violations) >= 10:
			return
		d = os.path.join(VERIF, "replays")
		os.makedirs(d, exist_ok=True)
		path = os.path.join(d, "%s-%s-%d.txt" % (self.prop, self.seed, len(self.violations)))
		with open(path, "w") as f:
			f.write("# property %s, seed %s, tier %s\n# %s\n# %s\n" % (self.prop, self.seed, self.tier, key,
				str(what).replace("\n", "\n# ")))
			if replay is not None:
				f.write(replay if isinstance(replay, str) else "\n".join(str(l) for l in replay))
				f.write("\n")
		self.violations.append((key, what, path))

	def late(self):
		"""True once it does not make sense to start another case: the answer has to arrive in time"""
		elapsed = time.time() - self.started
		if len(self.violations) >= 10 or (self.violations and elapsed > 200):
			return True
		return not self.thorough and elapsed > 600

	def slow(self, started):
		with self.lock:
			self.extra["slowest_case_s"] = max(self.extra.get("slowest_case_s", 0), round(time.time() - started, 1))

	def run_script(self, binary, script, tag="", timeout=120, env=None, allow_crash=False, preexec=None):
		"""
			Runs a drv.Script, judges each line with its callback and the process with the sanitizers.
		"""
		if self.hangs >= 2:
			# This has been reported, and would only use up the time
			return drv.Result(script.lines, [], 0, "", False)
		if not self.thorough:
			timeout = min(timeout, 150)
		started = time.time()
		r = drv.run(binary, script.lines, timeout=timeout, env=env, preexec=preexec)
		self.slow(started)
		if r.timeout:
			with self.lock:
				self.hangs += 1
			# Once more with a longer limit, on the suspicion that the machine was busy
			r = drv.run(binary, script.lines, timeout=timeout * 2, env=env, preexec=preexec)
		n = len(r.lines)
		for line, out, fn in zip(script.lines, r.lines, script.checks):
			if fn:
				try:
					problem = fn(out)
				except (ValueError, IndexError, KeyError, TypeError) as e:
					problem = "unparsable answer %r: %r" % (out[:300], e)
				if problem:
					self.violation("%s%s" % (tag, problem if isinstance(problem, str) and len(problem) < 80 else line.split()[0]),
						"%s\ncommand: %s\nanswer:  %s" % (problem, line[:2000], out[:2000]),
						self._replay(binary, script.lines))
		if r.timeout:
			at = script.lines[n] if n < len(script.lines) else "(exit)"
			self.violation("%shang:%s" % (tag, at.split()[0]), "no answer within %ss to: %s" % (timeout * 2, at[:1000]),
				self._replay(binary, script.lines))
		elif r.returncode != 0:
			at = script.lines[n] if n < len(script.lines) else "(exit)"
			self.violation("%scrash:%s" % (tag, r.report()[:160]), "at: %s\n%s" % (at[:1000], r.stderr[-6000:]),
				self._replay(binary, script.lines))
		elif r.lines and r.lines[-1].startswith("END") and r.lines[-1] != "END 0":
			self.violation("%scontext-leak" % tag, "the context is still referenced after everything has been released",
				self._replay(binary, script.lines))
		return r

	def _replay(self, binary, lines):
		return "# replay: %s < this file (lines without '#')\n" % binary + "\n".join(lines)

	def parallel(self, fn, jobs, workers=8):
		jobs = list(jobs)
		self.bump("cases", len(jobs))

		def one(job):
			if self.late():
				self.bump("cases_skipped")
				return
			return fn(job)

		with concurrent.futures.ThreadPoolExecutor(workers) as pool:
			futures = [pool.submit(one, j) for j in jobs]
			errors = [f.exception() for f in futures]
		# What one case has stumbled over does not keep the others from being judged
		for e in errors:
			if e:
				raise e

	def finish(self):
		shutil.rmtree(self.scratch, ignore_errors=True)
		coverage = {
			"evaluations": self.evaluations,
			"distinct_nontrivial": len(self.nontrivial),
			"rule": self.rule,
			"samples": self.samples,
		}
		coverage.update({k: (sorted(v) if isinstance(v, set) else v) for k, v in self.extra.items()})
		evidence = {
			"property": self.prop,
			"tier": self.tier,
			"seed": self.seed,
			"level": self.level,
			"coverage": coverage,
			"assumptions": self.assumptions,
			"wall_s": round(time.time() - self.started, 2),
			"violations": len(self.violations),
		}
		d = os.path.join(VERIF, "evidence")
		os.makedirs(d, exist_ok=True)
		with open(os.path.join(d, "%s.json" % self.prop), "w") as f:
			json.dump(evidence, f, indent=1, default=str)
			f.write("\n")

		for key, what, path in self.violations:
			print("# %s: %s" % (key, str(what).split("\n")[0][:400]))
			print("VIOLATION property=%s replay=%s" % (self.prop, path))
		if self.violations:
			return 1
		if self.inconclusive:
			print("INCONCLUSIVE property=%s %s" % (self.prop, self.inconclusive[0]))
			return 2
		if not self.evaluations or not self.nontrivial:
			print("INCONCLUSIVE property=%s nothing was observed" % self.prop)
			return 2
		print("held property=%s evaluations=%d distinct=%d wall=%.1fs" % (self.prop, self.evaluations,
			len(self.nontrivial), time.time() - self.started))
		return 0
