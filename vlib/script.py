"""
Runs harness programs written for an interpreter (Python, Lua, Perl) with the instrumented bindings.

A program reports on standard output:
  @COUNT <n>            judged cases
  @KEY <text>           a distinct, non-trivial case
  @BUMP <name> <n>      what the monitors have seen
  @SAMPLE <text>
  @VIOLATION <key>\t<what>
  @DONE                 the last line; without it, the program has ended early
"""
import os
import re
import subprocess
import time

from . import build, drv


def env(d, kind, leaks=True):
	e = dict(drv.ENV)
	plain = os.path.basename(d).startswith("shared-plain")
	if not plain:
		e["LD_PRELOAD"] = build.libasan()
	e["ASAN_OPTIONS"] = drv.ENV["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=%d" % leaks).replace("detect_stack_use_after_return=1", "detect_stack_use_after_return=0")
	e["LSAN_OPTIONS"] = "exitcode=0:max_leaks=0:print_suppressions=0"
	e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=98:halt_on_error=1"
	if kind == "python":
		e["PYTHONPATH"] = "%s:%s" % (os.path.join(d, "python"), build.VERIF)
		if not plain:
			e["PYTHONMALLOC"] = "malloc"
		e["PYTHONDONTWRITEBYTECODE"] = "1"
		e["PYTHONHASHSEED"] = "0"
	elif kind == "lua":
		e["LUA_CPATH"] = os.path.join(d, "lua", "?.so")
	elif kind == "perl":
		e["PERL5LIB"] = os.path.join(d, "perl")
		e["PERL_DESTRUCT_LEVEL"] = "2"
		e["PERL_HASH_SEED"] = "0"
	return e


def leaks(stderr):
	"""Leaked blocks that were allocated by libloc or its bindings: their stacks, shortened"""
	out = []
	for block in re.split(r"\n(?=(?:Direct|Indirect) leak of )", stderr)[1:]:
		if not block.startswith("Direct"):
			continue
		frames = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) ([^\n]*)", block)
		names = [f for f, where in frames if re.search(r"/src/(?:\w+|python/\w+|lua/\w+|perl/\w+)\.(?:c|h|xs)\b|_location\.so|location\.so|Location\.so|libloc\.so|Location_xs\.c|Location\.c", where)]
		if names and not names[0].startswith("PyInit_"):
			out.append("<".join(names[:3]))
	return sorted(set(out))


def run(c, d, kind, program, args=(), stdin=None, timeout=300, tag="", leak=True, extra_env=None, cwd=None):
	interpreter = {"python": ["/usr/bin/python3"], "lua": ["lua5.4"], "perl": ["perl"]}[kind]
	e = env(d, kind, leak)
	e.update(extra_env or {})
	cmd = [*interpreter, program, *[str(a) for a in args]]
	if c.hangs >= 2:
		return ""
	if not c.thorough:
		timeout = min(timeout, 300)
	started = time.time()
	try:
		p = subprocess.run(cmd, input=stdin if stdin is not None else b"", stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=timeout,
			cwd=cwd or c.scratch)
	except subprocess.TimeoutExpired as ex:
		c.hangs += 1
		c.violation("%shang" % tag, "no end within %d s: %s\n%s" % (timeout, " ".join(cmd), (ex.stdout or b"")[-2000:]), replay(e, cmd, stdin))
		return ""
	c.slow(started)
	out, err = p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
	done = False
	for line in out.split("\n"):
		if line.startswith("@COUNT "):
			c.count(None, int(line.split()[1]))
		elif line.startswith("@KEY "):
			c.count(line[5:], 0)
		elif line.startswith("@BUMP "):
			_, name, n = line.split()
			c.bump(name, int(n))
		elif line.startswith("@SAMPLE "):
			c.sample(line[8:])
		elif line.startswith("@VIOLATION "):
			key, _, what = line[11:].partition("\t")
			c.violation(tag + key, what, replay(e, cmd, stdin))
		elif line == "@DONE":
			done = True
	r = drv.Result([], out.split("\n"), p.returncode, err, False)
	if "ERROR: AddressSanitizer" in err or "runtime error:" in err or p.returncode < 0:
		c.violation("%scrash:%s" % (tag, r.report()[:160]), "last: %s\n%s" % (out.strip().split("\n")[-1][:300], err[-6000:]), replay(e, cmd, stdin))
	elif not done:
		# Something that always works did not
		c.violation("%sended early: %s" % (tag, (err.strip().split("\n") or [""])[-1][:120]), "last: %s\n%s" % (out.strip().split("\n")[-1][:300], err[-6000:]), replay(e, cmd, stdin))
	if leak:
		for l in leaks(err):
			c.violation("%sleak:%s" % (tag, l[:160]), "memory has been lost\n%s" % err[-6000:], replay(e, cmd, stdin))
	return out


def commands(c, d, kind, program, s, timeout=300, tag="", leak=True):
	"""Runs the commands of a drv.Script with an interpreter; each line of output is judged by its callback"""
	interpreter = {"lua": ["lua5.4"], "perl": ["perl"]}[kind]
	e = env(d, kind, leak)
	cmd = [*interpreter, program]
	stdin = ("\n".join(s.lines) + "\n").encode()
	if c.hangs >= 2:
		return
	if not c.thorough:
		timeout = min(timeout, 300)
	started = time.time()
	try:
		p = subprocess.run(cmd, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=timeout, cwd=c.scratch)
	except subprocess.TimeoutExpired as ex:
		c.hangs += 1
		c.violation("%shang" % tag, "no end within %d s: %s\n%s" % (timeout, " ".join(cmd), (ex.stdout or b"")[-2000:]), replay(e, cmd, stdin))
		return
	c.slow(started)
	lines = p.stdout.decode("utf-8", "replace").split("\n")[:-1]
	err = p.stderr.decode("utf-8", "replace")
	for line, out, fn in zip(s.lines, lines, s.checks):
		problem = None
		if fn:
			try:
				problem = fn(out)
			except (ValueError, IndexError, KeyError, TypeError) as ex:
				problem = "unparsable answer %r: %r" % (out[:300], ex)
		if problem:
			c.violation("%s%s" % (tag, problem if len(problem) < 80 else line.split()[0]), "%s\ncommand: %s\nanswer:  %s" % (problem, line[:2000], out[:2000]), replay(e, cmd, stdin))
	r = drv.Result(s.lines, lines, p.returncode, err, False)
	at = s.lines[len(lines)] if len(lines) < len(s.lines) else "(exit)"
	if "ERROR: AddressSanitizer" in err or "runtime error:" in err or p.returncode != 0:
		c.violation("%scrash:%s" % (tag, r.report()[:160]), "at: %s\n%s" % (at[:500], err[-6000:]), replay(e, cmd, stdin))
	elif len(lines) < len(s.lines):
		c.violation("%sended early" % tag, "at: %s\n%s" % (at[:500], err[-3000:]), replay(e, cmd, stdin))
	if leak:
		for l in leaks(err):
			c.violation("%sleak:%s" % (tag, l[:160]), "memory has been lost\n%s" % err[-6000:], replay(e, cmd, stdin))


def replay(e, cmd, stdin):
	return "# env %s %s%s" % (" ".join("%s=%s" % (k, e[k]) for k in sorted(e) if k not in ("PATH", "LANG", "LC_ALL")), " ".join(cmd),
		"" if stdin is None else " < what follows\n" + stdin.decode("utf-8", "replace"))
