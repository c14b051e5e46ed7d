#!/usr/bin/python3
"""
mutants.py: measures the checks with small, mechanical changes of the code.

usage: mutants.py [--workers N] [--count N] [--seed S] [--out FILE] FILE...

Every mutant is made in a copy of /repo's working tree under /tmp/m and judged by a copy of /verif; the checks
that are meant to notice changes in that file run one after the other until one of them reports a violation.
Neither /repo nor /verif is written. Survivors are printed with their diff, to be read by a human: they are
either equivalent, outside of what is claimed, or something the checks miss.
"""
import argparse
import concurrent.futures
import json
import os
import queue
import random
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SCRATCH = "/tmp/m"

MAP = [
	(r"src/address\.c|src/libloc/address\.h", "C13 C14 C15 C01 C05 C20"),
	(r"src/as(-list)?\.c", "C02 C16 C04 C20 C10 C27"),
	(r"src/country(-list)?\.c", "C02 C16 C18 C04 C20 C10 C27"),
	(r"src/database\.c", "C01 C02 C03 C04 C05 C06 C07 C09 C10 C24 C27 C20"),
	(r"src/network\.c", "C14 C13 C17 C15 C18 C03 C01 C05 C20 C10 C27"),
	(r"src/network-list\.c", "C16 C15 C03 C06 C05 C12 C10 C27"),
	(r"src/network-tree\.c", "C01 C03 C12 C10 C27"),
	(r"src/resolv\.c", "C19 C27"),
	(r"src/stringpool\.c", "C02 C12 C10 C27"),
	(r"src/writer\.c", "C01 C02 C08 C07 C11 C12 C10 C27 C20"),
	(r"src/libloc\.c", "C10 C27 C28 C20"),
	(r"src/private\.c", "C01 C02 C10"),
	(r"src/python/.*\.c", "C20 C23 C24"),
	(r"src/lua/", "C21"),
	(r"src/perl/", "C22"),
	(r"src/python/location/export\.py", "C23"),
	(r"src/python/location/downloader\.py", "C25 C26"),
	(r"src/python/location/", "C20 C23 C24 C26 C30"),
	(r"src/scripts/location\.in", "C24 C26 C23"),
	(r"src/scripts/location-importer\.in", "C29 C30 C31"),
]

C_OPS = [
	(r"(?<![<>=!\-])<(?![<=])", ["<="]), (r"<=", ["<"]), (r"(?<![\->=])>(?![>=])", [">="]), (r">=", [">"]),
	(r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
	(r"(?<![\+\w\)])\+\+|\+\+", ["--"]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r"<<", [">>"]), (r">>", ["<<"]),
	(r" & ", [" | "]), (r" \| ", [" & "]), (r"\bif \(!", ["if ("]), (r"\bif \((?!!)", ["if (!"]),
	(r"\b(\d+)\b", ["+1", "-1"]), (r"\bbreak;", ["continue;"]), (r"\bcontinue;", ["break;"]),
	(r"\bAF_INET6\b", ["AF_INET"]), (r"\bAF_INET\b", ["AF_INET6"]),
	(r"\bhtobe(16|32|64)\b|\bbe(16|32|64)toh\b", [""]),
	(r"\breturn r;", ["return 0;"]), (r"\breturn 1;", ["return 0;"]), (r"\breturn 0;", ["return 1;"]),
	(r"\breturn -\w+;", ["return 0;"]), (r"\bgoto ERROR;", [";"]), (r"~", [""]), (r"\bsizeof\(\*", ["sizeof("]),
	(r"\bmemcmp\b", ["!memcmp"]), (r"\bstrcmp\b", ["strcasecmp"]), (r"%u|%d", ["%x"]),
	(r"^\s*[^\s/\*#\{\}].*;\s*$", ["DROP"]),
]

PY_OPS = [
	(r"(?<![<>=!\-])<(?![<=>])", ["<="]), (r"<=", ["<"]), (r"(?<![\-<>=])>(?![>=])", [">="]), (r">=", [">"]),
	(r"==", ["!="]), (r"!=", ["=="]), (r"\band\b", ["or"]), (r"\bor\b", ["and"]), (r"\bAND\b", ["OR"]), (r"\bOR\b", ["AND"]),
	(r"\bnot ", [""]), (r"\bif (?!not\b)", ["if not "]), (r"\bcontinue\b", ["pass", "break"]), (r"\bbreak\b", ["continue", "pass"]),
	(r"\bTrue\b", ["False"]), (r"\bFalse\b", ["True"]), (r"\b(\d+)\b", ["+1", "-1"]), (r" \+ ", [" - "]), (r" - ", [" + "]),
	(r"\bDESC\b", ["ASC"]), (r"\bASC\b", ["DESC"]), (r"<<=", ["<<", "=", ">>="]), (r">>=", [">>", "<<="]), (r"<<(?!=)", ["<<="]),
	(r"\bEXISTS\b", ["NOT EXISTS"]), (r"\bIS NULL\b", ["IS NOT NULL"]), (r"\bIS NOT NULL\b", ["IS NULL"]),
	(r"\bNOT\b", [""]), (r"\bLEFT JOIN\b", ["JOIN"]), (r"\bDO NOTHING\b", [""]), (r"\bUNION ALL\b", ["UNION"]), (r"\bUNION\b(?! ALL)", ["UNION ALL"]),
	(r"\breturn\b.*$", ["return"]), (r"\braise\b.*$", ["pass"]), (r"\.strip\(\)", [""]), (r"\.upper\(\)", [""]), (r"\.lower\(\)", [""]),
	(r"^\s*[a-z_\.]+\(.*\)\s*$", ["DROP"]), (r"^\s*[a-z_\.]+ = .*[^\(\[\{,]$", ["DROPPASS"]),
]


def comment_lines(text, c):
	"""Line numbers that hold no code"""
	out = set()
	block = False
	for i, l in enumerate(text):
		s = l.strip()
		if c:
			if block or s.startswith("/*"):
				out.add(i)
				block = "*/" not in s
			elif s.startswith("//") or s.startswith("#") or not s:
				out.add(i)
			elif re.search(r"\b(DEBUG|INFO|ERROR)\(", s):
				out.add(i)
			elif re.match(r"(static )?(const )?(struct |enum |unsigned )?\w+ \*?\w+( = (NULL|0))?;$", s) and not s.startswith("return"):
				out.add(i)
		else:
			if s.startswith("#") or not s or s.startswith("log.") or s.startswith("import") or s.startswith("from"):
				out.add(i)
			elif s.startswith('help=') or "_(" in s:
				out.add(i)
	return out


def mutations(path):
	with open(os.path.join(REPO, path)) as f:
		text = f.read().split("\n")
	c = path.endswith((".c", ".h", ".xs"))
	skip = comment_lines(text, c)
	out = []
	for i, line in enumerate(text):
		if i in skip:
			continue
		for pattern, subs in (C_OPS if c else PY_OPS):
			for m in re.finditer(pattern, line):
				for s in subs:
					if s == "DROP":
						new = re.match(r"\s*", line).group(0) + (";" if c else "pass")
					elif s == "DROPPASS":
						new = re.match(r"\s*", line).group(0) + "pass"
					elif s in ("+1", "-1"):
						n = int(m.group(1)) + int(s)
						if n < 0:
							continue
						new = line[:m.start()] + str(n) + line[m.end():]
					else:
						new = line[:m.start()] + s + line[m.end():]
					if new != line and not re.search(r"while \(\d\)|return -?[2-9];", new):
						out.append((i, line, new))
	return text, out


def checks_for(path):
	for pattern, ids in MAP:
		if re.match(pattern, path):
			return ids.split()
	return []


def prepare(n):
	repo, verif = "%s/repo%d" % (SCRATCH, n), "%s/verif%d" % (SCRATCH, n)
	for d in (repo, verif):
		shutil.rmtree(d, ignore_errors=True)
	os.makedirs(SCRATCH, exist_ok=True)
	shutil.copytree(REPO, repo, symlinks=True)
	shutil.copytree(VERIF, verif, symlinks=True, ignore=shutil.ignore_patterns(".git", "seeded", ".build", "evidence"))
	os.makedirs(verif + "/evidence", exist_ok=True)
	return repo, verif


def judge(slot, path, text, mutation, args):
	repo, verif = slot
	i, old, new = mutation
	changed = list(text)
	changed[i] = new
	target = os.path.join(repo, path)
	with open(target, "w") as f:
		f.write("\n".join(changed))
	env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED=str(args.check_seed), VERIF_TIER="quick", VERIF_SCALE=str(args.scale))
	results = []
	try:
		if path.endswith((".c", ".xs")):
			pass
		elif path.endswith((".py", ".in")):
			try:
				compile("\n".join(changed), path, "exec")
			except SyntaxError:
				return "invalid", results
		for prop in (args.checks.split(",") if args.checks else checks_for(path)):
			start = time.time()
			p = subprocess.Popen(["/usr/bin/python3", "run.py", prop], cwd=verif, env=env, stdout=subprocess.PIPE,
				stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
			try:
				out, _ = p.communicate(timeout=900)
			except subprocess.TimeoutExpired:
				os.killpg(p.pid, 9)
				p.communicate()
				results.append((prop, "timeout", 900))
				return "noanswer", results
			rc = p.returncode
			results.append((prop, rc, round(time.time() - start)))
			if rc == 1:
				return "killed", results
			if rc == 3:
				return "invalid", results
			if rc != 0:
				results.append(out[-1500:])
				return "noanswer", results
		return "survived", results
	finally:
		with open(target, "w") as f:
			f.write("\n".join(text))


def main():
	p = argparse.ArgumentParser()
	p.add_argument("--workers", type=int, default=4)
	p.add_argument("--count", type=int, default=40)
	p.add_argument("--seed", type=int, default=1)
	p.add_argument("--check-seed", type=int, default=1)
	p.add_argument("--scale", type=float, default=1.0)
	p.add_argument("--checks")
	p.add_argument("--out", default=SCRATCH + "/mutants.jsonl")
	p.add_argument("--again", help="judge the survivors in this file once more")
	p.add_argument("files", nargs="*")
	args = p.parse_args()

	todo = []
	if args.again:
		for l in open(args.again):
			d = json.loads(l)
			if d["verdict"] in ("survived", "noanswer") and (not args.files or d["file"] in args.files):
				text = open(os.path.join(REPO, d["file"])).read().split("\n")
				if text[d["line"] - 1] == d["old"]:
					todo.append((d["file"], text, (d["line"] - 1, d["old"], d["new"])))
		args.files = []
	for path in args.files:
		text, muts = mutations(path)
		r = random.Random("%s:%s" % (args.seed, path))
		r.shuffle(muts)
		# At most two changes of one line
		seen = {}
		for m in muts:
			if len([1 for t in todo if t[0] == path]) >= args.count:
				break
			if seen.get(m[0], 0) >= 2:
				continue
			seen[m[0]] = seen.get(m[0], 0) + 1
			todo.append((path, text, m))
	slots = queue.Queue()
	for n in range(args.workers):
		slots.put(prepare(n))
	stats = {}

	def work(item):
		slot = slots.get()
		try:
			verdict, results = judge(slot, *item, args)
		finally:
			slots.put(slot)
		path, _, (i, old, new) = item
		stats.setdefault(path, {}).setdefault(verdict, 0)
		stats[path][verdict] += 1
		with open(args.out, "a") as f:
			f.write(json.dumps({"file": path, "line": i + 1, "old": old, "new": new, "verdict": verdict, "results": results}) + "\n")
		if verdict in ("survived", "noanswer"):
			print("%s %s:%d\n  -%s\n  +%s\n  %s" % (verdict.upper(), path, i + 1, old, new, results), flush=True)

	with concurrent.futures.ThreadPoolExecutor(args.workers) as pool:
		list(pool.map(work, todo))
	print(json.dumps(stats, indent=1))
	for n in range(args.workers):
		shutil.rmtree("%s/repo%d" % (SCRATCH, n), ignore_errors=True)
		shutil.rmtree("%s/verif%d" % (SCRATCH, n), ignore_errors=True)


if __name__ == "__main__":
	main()
