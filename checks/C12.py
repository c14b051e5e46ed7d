"""
The same content gives the same bytes, whatever is in the memory, and in whatever order it was added.
"""
import os
import subprocess

from vlib import build, dbs, drv, fmt, gen, keys, model
from vlib.check import Check
from vlib.drv import h


def canonical(data):
	if len(data) < fmt.BODY:
		return data
	return fmt.set_field(fmt.signed_content(data), "created_at", 0)


def make_content(rng):
	nets = gen.networks(rng, small=rng.random() < 0.6)
	ases = {rng.choice(gen.ASNS + [rng.randrange(1 << 32)]): rng.choice(gen.STRINGS + ["Name %d" % rng.randrange(50), None]) for _ in range(rng.randrange(0, 40))}
	countries = {cc: (rng.choice(["EU", "NA", None, "AS"]), rng.choice(gen.STRINGS + ["Country", None])) for cc in rng.sample(gen.COUNTRIES, rng.randrange(0, 10))}
	meta = [(k, rng.choice(gen.STRINGS)) for k in rng.sample("vdl", rng.randrange(0, 4))]
	return nets, ases, countries, meta


def script(rng, content, path, pair, fill, shuffle):
	nets, ases, countries, meta = content
	s = drv.Script()
	if fill is not None:
		s.add("dirty", fill)
	s.add("mind", rng.randrange(1, 4) if shuffle and rng.random() < 0.6 else 0)
	s.add("wn", 0, *[h(k and keys.private(k)) for k in pair])
	for k, v in meta:
		s.add("wset", 0, k, h(v))
	steps = []
	for n, p in nets.items():
		steps.append(("wnet", 0, 1, h(gen.text_of(rng, n) if shuffle else model.text(n)), h(p.cc or None), p.asn, p.flags))
	for n, name in ases.items():
		steps.append(("was", 0, 1, n, *([h(name)] if name is not None else [])))
	for cc, (cont, name) in countries.items():
		steps.append(("wctry", 0, 1, h(cc), h(cont), h(name)))
	if shuffle:
		rng.shuffle(steps)
	for t in steps:
		s.add(*t, check=dbs.ok("adding a record failed"))
	if fill is not None:
		s.add("dirty", fill)
	s.add("wwrite", 0, h(path), 1, check=dbs.ok("could not write"))
	return s


def case(c, asan, plain, i):
	rng = c.rng(i)
	content = make_content(rng)
	pair = rng.choice([(None, None), (None, None), ("prime256v1", None), ("prime256v1", "other")])
	want, first = None, None
	for j, (fill, shuffle, san) in enumerate([(None, False, False), (0xff, False, False), (0x41, True, False), (0, True, False), (rng.randrange(256), True, True), (rng.randrange(256), False, True)]):
		path = os.path.join(c.scratch, "%d-%d.db" % (i, j))
		s = script(c.rng(i, j), content, path, pair, fill, shuffle)
		env = {}
		if san and fill is not None:
			env["ASAN_OPTIONS"] = drv.ENV["ASAN_OPTIONS"] + ":malloc_fill_byte=%d:max_malloc_fill_size=1000000000" % fill
		elif fill:
			env["MALLOC_PERTURB_"] = "%d" % fill
		c.run_script(asan if san else plain, s, env=env)
		try:
			with open(path, "rb") as f:
				got = canonical(f.read())
		except OSError:
			return
		dbs.cleanup(path)
		c.count((i, j))
		c.bump("files compared")
		c.bump("bytes compared", len(got))
		if want is None:
			want, first = got, s
		elif got != want:
			where = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
			c.violation("different" + (" (only the memory differs)" if not shuffle else ""), "the same content gave different files: length %d/%d, first difference at %d (fill %s, %s order)" %
				(len(want), len(got), where, fill, "another" if shuffle else "the same"), "\n".join(first.lines) + "\n\n# against\n\n" + "\n".join(s.lines))
	if i == 0:
		c.sample({"networks": len(content[0]), "as": len(content[1]), "countries": len(content[2]), "bytes": len(want or b"")})


def repeated(c, plain, i):
	"""One process: several writers, and the same writer several times"""
	rng = c.rng("repeated", i)
	content = make_content(rng)
	# (every write stores empty strings once more, so that a second write of the same writer has a longer pool)
	again = rng.random() < 0.5
	if again:
		content[1].update({n: "x" for n, name in content[1].items() if not name})
		content[2].update({cc: (cont, name or "x") for cc, (cont, name) in content[2].items()})
	s = drv.Script()
	paths = []
	for j in range(3):
		p = os.path.join(c.scratch, "rep%d-%d.db" % (i, j))
		t = script(c.rng(i, j, "r"), content, p, (None, None), rng.randrange(256), True)
		s.lines += t.lines
		s.checks += t.checks
		paths.append(p)
		if again and rng.random() < 0.8:
			q = p + "x"
			s.add("dirty", rng.randrange(256))
			s.add("wwrite", 0, h(q), 1, check=dbs.ok("could not write"))
			paths.append(q)
	c.run_script(plain, s)
	data = []
	for p in paths:
		try:
			with open(p, "rb") as f:
				data.append(canonical(f.read()))
		except OSError:
			pass
		dbs.cleanup(p)
		c.count(("rep", i, p))
		c.bump("files compared")
	if any(d != data[0] for d in data[1:]):
		c.violation("repeated", "writing the same content again gives another file", "\n".join(s.lines))


def memcheck(c, plain, i):
	"""Is anything uninitialised handed to write(2)?"""
	rng = c.rng("memcheck", i)
	content = make_content(rng)
	path = os.path.join(c.scratch, "vg%d.db" % i)
	s = script(rng, content, path, (None, None), None, True)
	p = subprocess.run(["valgrind", "-q", "--error-exitcode=42", "--undef-value-errors=yes", "--track-origins=yes", plain], input="\n".join(s.lines) + "\n", capture_output=True, text=True, env=drv.ENV)
	c.bump("memcheck runs")
	c.count(("memcheck", i))
	dbs.cleanup(path)
	if p.returncode == 42:
		if "uninitialised" in p.stderr:
			c.violation("memcheck", p.stderr[:6000], "\n".join(s.lines))
		else:
			c.violation("memcheck: other", p.stderr[:6000], "\n".join(s.lines))


def main():
	c = Check("C12", rule="random content is written by several processes with different patterns in stack and heap, with and without sanitizers, in different orders and repeatedly, and all files are compared byte by byte "
		"(without the time of creation and signatures); some runs under valgrind's memcheck; every compared file counts",
		assumptions=["memory patterns: stack and heap are filled before the write, by malloc's and AddressSanitizer's fill options"])
	asan, plain = build.driver("asan"), build.driver("plain")
	c.parallel(lambda i: case(c, asan, plain, i), range(c.scale(200, 1500)))
	c.parallel(lambda i: repeated(c, plain, i), range(c.scale(200, 1500)))
	c.parallel(lambda i: memcheck(c, plain, i), range(c.scale(16, 80)))
	return c.finish()
