"""
Faults of the output file: success means that everything has arrived.
"""
import errno
import os
import resource

from vlib import build, dbs, drv, fmt, gen, keys, model
from vlib.check import Check
from vlib.drv import h


def canonical(data):
	"""Everything but the time of creation and the signatures (which differ every time)"""
	if len(data) < fmt.BODY:
		return data
	return fmt.set_field(fmt.signed_content(data), "created_at", 0)


def content(s, rng, kind):
	"""Fills writer 0"""
	nets = {}
	if kind != "empty":
		nets = gen.topology(rng, size=6 if kind == "small" else 60)
		for n, p in nets.items():
			s.add("wnet", 0, 60000, h(model.text(n)), h(p.cc or None), p.asn, p.flags)
		for k in range(rng.randrange(0, 4) if kind == "small" else 700):
			s.add("was", 0, 1, rng.randrange(1 << 32), h("Name %d" % rng.randrange(1000)))
		for cc in rng.sample(gen.COUNTRIES, rng.randrange(1, 5)):
			s.add("wctry", 0, 1, h(cc), h("EU"), h("Country " + cc))
	s.add("wset", 0, "v", h("Vendor"))
	if kind == "large":
		s.add("wset", 0, "d", h("d" * 70000))


class Judge:
	def __init__(self, c, s, ref, tag):
		self.c, self.s, self.ref, self.tag = c, s, ref, tag

	def files(self, path):
		try:
			with open(path, "rb") as f:
				return f.read()
		except OSError:
			return b""


def case(c, binary, i):
	rng = c.rng(i)
	kind = rng.choice(["empty", "small", "small", "large"])
	pair = rng.choice([(None, None), (None, None), ("prime256v1", None), (None, "prime256v1"), ("prime256v1", "other")])
	bufsize = rng.choice([-1, -1, 0, 1, 7, 512, 4096, 4096, 65536, 1000000])
	if kind == "large" and 0 <= bufsize < 512:
		bufsize = 512
	kp = [h(k and keys.private(k)) for k in pair]
	path = os.path.join(c.scratch, "%d.db" % i)
	ref = os.path.join(c.scratch, "%d-ref.db" % i)

	# An undisturbed write through the same kind of file tells how many bytes and calls there are
	probe = drv.Script()
	probe.add("wn", 0, *kp, check=dbs.ok("no writer"))
	content(probe, c.rng(i, "content"), kind)
	probe.add("wfault", 0, h(ref), 1, -1, 0, 0, -1, 0, bufsize, check=lambda out: None if out.split()[0] == "0" else "an undisturbed write failed")
	r = c.run_script(binary, probe)
	if len(r.lines) < len(probe.lines):
		return
	last = r.lines[len(probe.lines) - 1].split()
	total, seeks = int(last[3]), int(last[5])
	if last[0] != "0":
		return
	with open(ref, "rb") as f:
		want = canonical(f.read())
	if int(last[4]):
		c.violation("unflushed", "%s bytes were still in the buffer after success" % last[4], "\n".join(probe.lines))

	# budget, errno, recover, read budget, seek
	faults = []
	size = len(want)
	marks = {0, 1, 7, 8, 9, total - 1, total - 2, size, size - 1, size + 1, fmt.BODY, fmt.BODY - 1, 8192, 8191, 8193, total - fmt.HEADER.size, total - fmt.HEADER.size + 1, total - fmt.HEADER.size - 1}
	step = bufsize if bufsize > 0 else 4096
	for k in range(0, total, max(step, total // 40)):
		marks |= {k, k + 1, k - 1}
	for _ in range(c.scale(25, 200)):
		marks.add(rng.randrange(total))
	marks = sorted(m for m in marks if 0 <= m < total)
	if len(marks) > c.scale(120, 500):
		marks = sorted(rng.sample(marks, c.scale(120, 500)))
	for m in marks:
		faults.append((m, rng.choice([errno.ENOSPC, errno.EIO, errno.EDQUOT]), rng.choice([0, 0, 0, 1, 1, 2, 3]), -1, 0))
	for k in range(1, seeks + 1):
		faults.append((-1, 0, 0, -1, k))
	if pair != (None, None):
		for k in [0, 1, 8, 4096, fmt.BODY, size // 2, size - 1, size, size + 5, size + size // 2, 2 * size - 1]:
			faults.append((-1, 0, 0, k, 0))
	s = drv.Script()
	s.add("wn", 0, *kp, check=dbs.ok("no writer"))
	content(s, c.rng(i, "content"), kind)
	paths = []
	verdicts = []
	for j, f in enumerate(faults):
		p = "%s.%d" % (path, j)
		paths.append(p)

		state = {}

		def judge(out, f=f, p=p, state=state):
			t = [int(x) for x in out.split()]
			r, failures, err, written, pending, _ = t
			if not failures:
				c.bump("fault not reached")
				return None if r == 0 else "writing failed without a fault"
			c.count((i, f))
			c.bump("write faults" if f[0] >= 0 else "read faults" if f[3] >= 0 else "seek faults")
			c.bump("reported" if r else "masked")
			state["done"] = not r
			if r:
				return None
			if pending:
				return "success was reported while data was still in the buffer"
			with open(p, "rb") as fp:
				got = canonical(fp.read())
			return None if got == want else "success was reported for an incomplete database"
		s.add("wfault", 0, h(p), 1, *f, bufsize, check=judge)
		if pair != (None, None) and (f[3] >= 0 or f[4] or f[2]):
			# The signatures of what is complete are good
			s.add("dopen", 9, h(p))
			for k in pair:
				if k:
					s.add("dverify", 9, h(keys.public(k)), check=lambda out, state=state: "success was reported for a database with an invalid signature" if state.get("done") and out.split()[0] != "0" else None)
			s.add("dunref", 9)
	# The writer is still good for a complete database
	s.add("wfault", 0, h(path), 1, -1, 0, 0, -1, 0, bufsize, check=lambda out: None if out.split()[0] == "0" else "an undisturbed write failed")
	s.add("echo", check=lambda out: None if canonical(open(path, "rb").read()) == want else "the writer lost something by a fault")
	if i == 1:
		c.sample({"kind": kind, "keys": pair, "buffer": bufsize, "bytes": total, "seeks": seeks, "faults": faults[:10]})
	c.run_script(binary, s)
	dbs.cleanup(path, ref, *paths)


def real(c, binary, i):
	"""Real files with a limited size"""
	rng = c.rng("real", i)
	kind = rng.choice(["empty", "small", "large"])
	pair = rng.choice([(None, None), ("prime256v1", "other")])
	kp = [h(k and keys.private(k)) for k in pair]
	path = os.path.join(c.scratch, "r%d.db" % i)
	s = drv.Script()
	s.add("wn", 0, *kp)
	content(s, rng, kind)
	s.add("wwrite", 0, h(path), 1, check=dbs.ok("an undisturbed write failed"))
	s.add("wwrite", 0, h("/dev/full"), 1, check=lambda out: None if out.split()[0] not in ("0", "1000") else "success was reported for a full device")
	c.count((i, "full"))
	r = c.run_script(binary, s)
	if not os.path.exists(path):
		return
	with open(path, "rb") as f:
		want = canonical(f.read())
	for limit in sorted({0, 1, 4096, 8192, len(want) - 1, len(want), len(want) // 2, rng.randrange(len(want))}):
		s = drv.Script()
		s.add("wn", 0, *kp)
		content(s, c.rng("real", i, "x"), "empty")
		s2 = drv.Script()
		s2.add("wn", 0, *kp)
		r2 = c.rng("real", i)
		r2.choice(["empty", "small", "large"]), r2.choice([(None, None), ("prime256v1", "other")])
		content(s2, r2, kind)

		def judge(out, limit=limit):
			r = int(out.split()[0])
			with open(path, "rb") as f:
				got = canonical(f.read())
			if limit >= len(want):
				return None if r == 0 and got == want else "a write that fits failed"
			return None if r not in (0, 1000) else "success was reported for a truncated file"
		s2.add("wwrite", 0, h(path), 1, check=judge)
		c.count((i, limit))
		c.bump("size limits")

		def limiter(limit=limit):
			resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
		c.run_script(binary, s2, preexec=limiter)
	dbs.cleanup(path)


def main():
	c = Check("C11", level="fault_enumeration", rule="databases are written into files which fail at chosen byte offsets (edges of sections and buffers, random ones), at every seek and while reading back, temporarily or for good, with several buffer sizes, "
		"plus real files with size limits and /dev/full; counted are distinct faults that were actually hit",
		assumptions=["a file that a read does not report as failing delivers what has been written"])
	asan, plain = build.driver("asan"), build.driver("plain")
	c.parallel(lambda i: case(c, asan if i % 4 == 0 else plain, i), range(c.scale(180, 1200)))
	c.parallel(lambda i: real(c, plain, i), range(c.scale(16, 60)))
	return c.finish()
