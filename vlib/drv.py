"""
Runs scripts through the driver and turns its event log into Python objects.
"""
import collections
import os
import re
import subprocess
import threading

V4 = 0xffff << 32

# Much more than any script makes the driver say
OUTPUT_LIMIT = 256 << 20

ENV = {
	"ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=1:max_allocation_size_mb=4096",
	"UBSAN_OPTIONS": "print_stacktrace=1:exitcode=98",
	"LSAN_OPTIONS": "exitcode=97",
	"PATH": "/usr/bin:/bin",
	"LANG": "C.UTF-8",
	"LC_ALL": "C.UTF-8",
}


def h(s):
	"""Encodes a string argument"""
	if s is None:
		return "-"
	if isinstance(s, str):
		s = s.encode("utf-8", "surrogateescape")
	return "=" + s.hex()


def unh(s):
	if s == "-":
		return None
	return bytes.fromhex(s[1:]).decode("utf-8", "surrogateescape")


def hexaddr(a):
	return "%032x" % a


Net = collections.namedtuple("Net", "text family prefix first last cc asn flags")


def parse_net(tokens):
	return Net(tokens[0], int(tokens[1]), int(tokens[2]), int(tokens[3], 16), int(tokens[4], 16),
		unh(tokens[5]), int(tokens[6]), int(tokens[7]))


def split_items(line):
	"""'head | item | item' -> (head tokens, [item tokens])"""
	parts = line.split("|")
	return parts[0].split(), [p.split() for p in parts[1:]]


class Result:
	def __init__(self, script, lines, returncode, stderr, timeout):
		self.script, self.lines, self.returncode, self.stderr, self.timeout = script, lines, returncode, stderr, timeout
		self.crashed = returncode not in (0, None) and not timeout

	def report(self):
		"""A short, stable name for what the sanitizer said"""
		m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer|ThreadSanitizer): ([\w-]+)", self.stderr) \
			or re.search(r"(runtime error): (.*)", self.stderr) \
			or re.search(r"WARNING: (ThreadSanitizer): ([\w -]+)", self.stderr)
		where = re.findall(r"#\d+ 0x[0-9a-f]+ in (\w+) [^\n]*?/src/([\w./-]+\.[ch])", self.stderr)
		where = ["%s" % f for f, p in where if not p.startswith("locdrv")][:3]
		if m:
			return "%s %s in %s" % (m[1], m[2], "<".join(where) or "?")
		return "exit %s %s" % (self.returncode, self.stderr.strip()[-200:])


def converse(p, data, timeout):
	"""Like communicate(), but does not store an output that has no end. Returns (out, err, no end seen)"""
	chunks = {p.stdout: [], p.stderr: []}
	limits = {p.stdout: OUTPUT_LIMIT, p.stderr: OUTPUT_LIMIT}
	endless = []

	def read(f):
		total = 0
		while True:
			chunk = f.read1(1 << 20)
			if not chunk:
				return
			total += len(chunk)
			if total > limits[f]:
				endless.append(f)
				p.kill()
				return
			chunks[f].append(chunk)

	def write():
		try:
			p.stdin.write(data)
			p.stdin.close()
		except OSError:
			pass

	threads = [threading.Thread(target=read, args=(f,), daemon=True) for f in (p.stdout, p.stderr)]
	threads.append(threading.Thread(target=write, daemon=True))
	for t in threads:
		t.start()
	timed_out = False
	try:
		p.wait(timeout)
	except subprocess.TimeoutExpired:
		timed_out = True
		p.kill()
		p.wait()
	for t in threads:
		t.join(30)
	for f in (p.stdout, p.stderr):
		f.close()
	return b"".join(chunks[p.stdout]), b"".join(chunks[p.stderr]), bool(timed_out or endless)


def run(binary, script, timeout=300, env=None, preexec=None, cwd=None):
	"""script: list of command lines. Returns a Result with one output line per executed command."""
	e = dict(ENV)
	e.update(env or {})
	p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
		env=e, preexec_fn=preexec, cwd=cwd)
	out, err, to = converse(p, ("\n".join(script) + "\n").encode(), timeout)
	lines = out.decode("utf-8", "replace").split("\n")
	if lines and lines[-1] == "":
		lines.pop()
	if any(l.startswith("DRIVER-ERROR") for l in lines):
		raise RuntimeError("driver: %s (after %s)" % (lines[-1], script[len(lines) - 1][:200]))
	return Result(script, lines, p.returncode, err.decode("utf-8", "replace"), to)


class Script:
	"""Collects commands, each with a callback that judges its result line"""
	def __init__(self):
		self.lines, self.checks = [], []

	def add(self, *tokens, check=None):
		self.lines.append(" ".join(str(t) for t in tokens))
		self.checks.append(check)
		return len(self.lines) - 1
