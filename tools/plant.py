#!/usr/bin/python3
"""
plant.py new <id> <edit.py>   makes seeded/<id>/patch.diff from an edit script and confirms it
plant.py confirm <id>...      builds, tests, demo with and without the patch
plant.py check <id>... [--seeds 1,2] [--props C01,C02]   runs the checks of the property against the change

/repo is changed while this runs and always restored.
"""
import json, os, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

def sh(cmd, **kw):
	return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def restore():
	sh("git -C /repo checkout -- .")

def clean():
	return not sh("git -C /repo status --porcelain --untracked-files=no").stdout.strip()

def tests():
	r = sh("bash /opt/vp/build.sh", cwd=REPO)
	if r.returncode:
		return "build failed: " + r.stdout[-1500:]
	sh("bash /opt/vp/test.sh /tmp/plant-tests.json", cwd=REPO)
	base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
	passed = set(json.load(open("/tmp/plant-tests.json"))["passed"])
	missing = [t for t in base if t not in passed]
	return "tests fail: %s" % missing if missing else None

def demo(i):
	return sh("timeout 280 bash %s/seeded/%s/demo.sh" % (ROOT, i), cwd=REPO)

def confirm(ids):
	bad = []
	assert clean()
	sh("bash /opt/vp/build.sh", cwd=REPO)
	for i in ids:
		r = demo(i)
		if r.returncode:
			bad.append(i); print("%s: demo fails without the patch: %s" % (i, r.stdout[-800:]))
	for i in ids:
		try:
			r = sh("git -C /repo apply %s/seeded/%s/patch.diff" % (ROOT, i))
			if r.returncode:
				bad.append(i); print("%s: does not apply: %s" % (i, r.stdout)); continue
			t = tests()
			if t:
				bad.append(i); print("%s: %s" % (i, t)); continue
			r = demo(i)
			if r.returncode == 0:
				bad.append(i); print("%s: demo passes with the patch: %s" % (i, r.stdout[-500:]))
			else:
				print("%s: confirmed (%s)" % (i, r.stdout.strip().split("\n")[-1][:160]))
		finally:
			restore()
	sh("bash /opt/vp/build.sh", cwd=REPO)
	return bad

def check(ids, seeds, props):
	for i in ids:
		meta = json.load(open("%s/seeded/%s/meta.json" % (ROOT, i)))
		try:
			r = sh("git -C /repo apply %s/seeded/%s/patch.diff" % (ROOT, i))
			if r.returncode:
				print("%s: does not apply" % i); continue
			for p in props or [meta["property"]]:
				for s in seeds:
					r = sh("VERIF_SEED=%s VERIF_TIER=quick timeout 900 python3 run.py %s" % (s, p), cwd=ROOT)
					hit = "VIOLATION property=%s " % p in r.stdout
					first = [l for l in r.stdout.split("\n") if l.startswith("#")]
					print("%s: %s seed %s: %s %s" % (i, p, s, "CAUGHT" if hit and r.returncode == 1 else "MISSED rc=%d" % r.returncode, (first or r.stdout.strip().split("\n")[-1:])[0][:150]))
					sys.stdout.flush()
		finally:
			restore()

def new(i, edit):
	assert clean()
	try:
		ns = {}
		def sub(path, old, new, n=1):
			p = os.path.join(REPO, path)
			s = open(p).read()
			assert s.count(old) == n, "%s: %d occurrences" % (path, s.count(old))
			open(p, "w").write(s.replace(old, new))
		exec(open(edit).read(), {"sub": sub})
		d = sh("git -C /repo diff").stdout
	finally:
		restore()
	os.makedirs("%s/seeded/%s" % (ROOT, i), exist_ok=True)
	open("%s/seeded/%s/patch.diff" % (ROOT, i), "w").write(d)

if __name__ == "__main__":
	args = sys.argv[2:]
	seeds, props = ["1"], None
	if "--seeds" in args:
		k = args.index("--seeds"); seeds = args[k + 1].split(","); del args[k:k + 2]
	if "--props" in args:
		k = args.index("--props"); props = args[k + 1].split(","); del args[k:k + 2]
	if sys.argv[1] == "new":
		new(args[0], args[1])
	elif sys.argv[1] == "confirm":
		sys.exit(1 if confirm(args) else 0)
	else:
		check(args, seeds, props)
