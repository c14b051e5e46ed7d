"""
Filtered searches: exactly the matching records, also when several enumerators run at once.
"""
import os

from checks.C03 import raw
from vlib import build, dbs, drv, gen, model
from vlib.check import Check
from vlib.drv import h, hexaddr, unh, split_items


def options(rng, nets):
	"""(text for the driver, predicate)"""
	o, fam, countries, asns, flags = [], None, None, None, 0
	used_cc = sorted({p.cc for p in nets.values() if p.cc}) or ["DE"]
	used_asn = sorted({p.asn for p in nets.values()}) or [1]
	if rng.random() < 0.5:
		fam = rng.choice([4, 6])
		o.append("family:%d" % fam)
	if rng.random() < 0.45:
		countries = rng.sample(used_cc, min(len(used_cc), rng.randrange(1, 4))) if rng.random() < 0.8 else []
		countries += rng.sample(["DE", "FR", "QQ", "AA", "ZZ"], rng.randrange(1, 3))
		rng.shuffle(countries)
		o.append("countries:" + ",".join(countries))
	if rng.random() < 0.45:
		asns = rng.sample(used_asn, min(len(used_asn), rng.randrange(1, 4))) if rng.random() < 0.8 else []
		asns += [rng.choice(gen.ASNS), rng.getrandbits(32)][:rng.randrange(1, 3)]
		o.append("asns:" + ",".join(map(str, asns)))
	if rng.random() < 0.45:
		flags = rng.choice([1, 2, 4, 8, 3, 12, 15, 9])
		o.append("flags:%d" % flags)

	def match(net, p):
		if fam and model.family(net) != fam:
			return False
		if countries is None and asns is None and not flags:
			return True
		return bool((countries and p.cc in countries) or (asns and p.asn in asns) or (flags & p.flags))
	rng.shuffle(o)
	return o, match


NAMES = ["Lightning Wire Labs GmbH", "lightning", "LIGHT", "Deutsche Telekom AG", "telekom", "A", "", "a.b", "AS204867", "204867", "Größe", "GRÖSSE",
	"x" * 300, "100% Net", "lab", "labs GMBH  "]


def case(c, binary, i):
	rng = c.rng(i)
	s = drv.Script()
	path = os.path.join(c.scratch, "%s.db" % i)
	nets = gen.networks(rng, small=rng.random() < 0.5)
	ases = {}
	for _ in range(rng.choice([0, 1, 5, 40])):
		ases[rng.choice([rng.getrandbits(32), rng.randrange(100), 204867])] = rng.choice(NAMES) + rng.choice(["", "", " Ltd", "ABC"])

	def extra(s):
		for n, name in ases.items():
			s.add("was", 0, 60001, n, h(name))
	dbs.write(s, rng, nets, path, extra=extra)
	state = {}

	def listing(out):
		state["listed"] = raw(split_items(out)[1])
	s.add("de", 0, "mode:n", check=listing)

	# Complete searches
	for _ in range(6):
		o, match = options(rng, nets)

		def judge(out, match=match, o=o):
			head, items = split_items(out)
			if head != ["0"] or "ERROR" in out or "AFTER-END" in out:
				return "a search failed"
			got = raw(items)
			want = [x for x in state["listed"] if match(x[0], x[1])]
			c.count((i, tuple(o), len(want)) if 0 < len(want) < len(state["listed"]) else None)
			if got != want:
				return "a search did not return exactly the matching networks"
		s.add("de", 0, "mode:n", *o, check=judge)

	# Searches for names
	for _ in range(6):
		base = rng.choice(list(ases.values()) or NAMES) or "q"
		a = rng.randrange(len(base))
		needle = rng.choice([base, base[a:a + rng.randrange(1, 6)], base[a:a + 3].swapcase(), base.upper(), rng.choice(NAMES), "zzz"])

		def judge_as(out, needle=needle):
			head, items = split_items(out)
			got = [(int(t[0]), unh(t[1])) for t in items]
			n = needle.encode().lower()
			want = [(k, v) for k, v in sorted(ases.items()) if n in v.encode().lower()]
			c.count((i, "as", needle, len(want)) if want else None)
			if head != ["0"] or got != want:
				return "a search for a name did not return exactly the matching autonomous systems"
		s.add("de", 0, "mode:a", "string:" + h(needle), check=judge_as)

	# Several at once
	running = {}
	for e in range(rng.randrange(2, 6)):
		kind = rng.choice(["n", "n", "n", "flat", "a", "c", "b"])
		if kind in "nflat" and kind not in ("a",):
			o, _ = options(rng, nets)
			o = ["mode:n"] + o + (["flatten:1"] if kind == "flat" else [])
		elif kind == "b":
			o = ["mode:b"] + rng.choice([[], ["family:4"], ["family:6"]])
		else:
			o = ["mode:" + kind]
		mode = o[0][5]

		def whole(out, e=e):
			state[e] = [t for t in split_items(out)[1]]
		s.add("de", 0, *o, check=whole)
		s.add("en", e, 0, *o, check=dbs.ok("no enumerator"))
		running[e] = mode
		state[(e, "got")] = []
	db_there = True
	for _ in range(200):
		if not running:
			break
		e = rng.choice(list(running))
		k = rng.choice([1, 1, 2, 5, 50])

		def step(out, e=e, mode=running[e]):
			if mode in "ac" and state.get((e, "ended")):
				return None  # whether these start again is not specified
			if out.endswith("END"):
				state[(e, "ended")] = True
			if "ERROR" in out:
				return "an interleaved search failed"
			items = [t[:-1] if t and t[-1] == "END" else t for t in split_items(out)[1]]
			state[(e, "got")] += items
			got = state[(e, "got")]
			want = state[e]
			if got != want[:len(got)]:
				return "an interleaved search returned something else than an undisturbed one"
			if out.endswith("END") and len(got) != len(want):
				return "an interleaved search ended early"
			c.count((i, e, len(got)) if items else None)
		mode = running[e]
		s.add("estep", e, mode, k, check=step)
		if len(s.lines) % 3 == 0 and db_there:
			s.add("dl", 0, hexaddr(rng.choice([rng.getrandbits(128), model.V4BASE + rng.getrandbits(32)])))
		if rng.random() < 0.02:
			s.add("eunref", e)
			del running[e]
		if db_there and rng.random() < 0.01:
			# Enumerators keep the database alive
			s.add("dunref", 0)
			db_there = False
	if i in (2, 3):
		c.sample([l for l in s.lines if l.startswith("de 0")][:6])
	c.run_script(binary, s)
	dbs.cleanup(path)


def main():
	c = Check("C04", rule="random databases are searched with random combinations of family, countries, ASNs and flags, and by name; then several enumerators of all kinds "
		"are stepped in random interleavings with lookups; non-trivial: searches with some but not all networks in the result, name searches with a result, steps that returned something")
	binary = build.driver("asan")
	c.parallel(lambda i: case(c, binary, i), range(c.scale(2000, 16000)))
	return c.finish()
