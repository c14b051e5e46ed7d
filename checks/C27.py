"""
Every allocation of every call fails once, and from there on.

A scenario is a setup, one call, and questions about all objects. The call is made undisturbed first
(which tells how many allocations there are), then once for every allocation, in a fresh setup each time.
"""
import os

from vlib import build, dbs, drv, gen, keys, model
from vlib.check import Check
from vlib.drv import h


class Scenario:
	def __init__(self, name, setup, op, questions=(), retry=True, partial=None, stream=False, effects=()):
		# The answers to effects only count after a success
		self.name, self.setup, self.op, self.questions = name, setup, op, list(questions) + ["fds"] + list(effects)
		self.effects, self.retry, self.partial, self.stream = len(effects), retry, partial, stream


def failed(out):
	t = out.split()
	return not t or t[0] not in ("0", "ok") or "ERROR:" in out or (t[0] == "ok" and len(t) > 1 and t[1] == "-")


def same(a, b, line):
	# Only the result counts, not the error code that is left behind
	if line.split()[0] in ("wwrite", "dopen"):
		return a.split()[0] == b.split()[0]
	if line == "dmeta 9":
		# All but the time of writing
		return a.split()[:1] + a.split()[2:] == b.split()[:1] + b.split()[2:]
	return a == b


def scenarios(c, rng, scratch, i):
	nets = gen.networks(rng, small=True)
	p4 = [n for n in nets if model.is_v4(n)] or [model.v4("10.0.0.0/8")]
	dbpath = os.path.join(scratch, "db%d" % i)
	out = os.path.join(scratch, "out%d" % i)
	key = keys.private("prime256v1")

	# A database for all that reads
	s = drv.Script()
	s.add("wn", 0, h(key), h(None))
	for n, p in nets.items():
		s.add("wnet", 0, 60000, h(model.text(n)), h(p.cc or None), p.asn, p.flags)
	asns = sorted({rng.randrange(1 << 32) for _ in range(12)} | {0, 4294967295})
	for a in asns:
		s.add("was", 0, 1, a, h("Company %d" % a))
	for cc in gen.COUNTRIES[:5]:
		s.add("wctry", 0, 1, h(cc), h("EU"), h("Country " + cc))
	s.add("wset", 0, "v", h("Vendor"))
	s.add("wwrite", 0, h(dbpath), 1, check=dbs.ok("could not write the database"))
	c.run_script(build.driver("asan"), s)

	addrs = gen.addresses(rng, nets, 2, 10)
	big = rng.choice(p4)
	while big[1] > 120:
		big = model.make(big[0], big[1] - 8)
	small = model.make(big[0] + rng.randrange(0, 1 << (128 - big[1])), rng.randrange(big[1] + 1, 129))
	v6big = model.make(gen.base6(rng), rng.randrange(16, 100))
	v6small = model.make(v6big[0] + rng.getrandbits(128 - v6big[1]), rng.randrange(v6big[1] + 1, 129))
	yield Scenario("network from string", [], "nn 0 %s" % h(model.text(big)), ["nget 0"])
	yield Scenario("network", [], "nb 0 %s %d" % (drv.hexaddr(v6big[0]), v6big[1]), ["nget 0"])
	for b in (big, v6big):
		yield Scenario("subnets", ["nn 0 %s" % h(model.text(b)), "nsetcc 0 %s" % h("DE")], "nsub 0 1 2", ["nget 0", "nget 1", "nget 2"])
	for b, m in ((big, small), (v6big, v6small)):
		yield Scenario("exclude", ["nn 0 %s" % h(model.text(b)), "nn 1 %s" % h(model.text(m))], "nexcl 0 1 0", ["nget 0", "nget 1", "lall 0"])
		yield Scenario("exclude nothing", ["nn 0 %s" % h(model.text(m)), "nn 1 %s" % h(model.text(b))], "nexcl 0 1 0", ["nget 0", "nget 1", "lall 0"])
		setup = ["nn 0 %s" % h(model.text(b)), "ll 1"]
		for k in range(6):
			x = model.make(b[0] + rng.getrandbits(128 - b[1]), rng.randrange(b[1] + 1, 129))
			setup += ["nn 2 %s" % h(model.text(x)), "lpush 1 2"]
		yield Scenario("exclude list", setup, "nexcll 0 1 0", ["nget 0", "lall 1", "lall 0"])
	for n in (make4(rng, 8), make4(rng, 16), make4(rng, 24), make4(rng, 32), make4(rng, 0), model.make(gen.base6(rng), 32), model.make(gen.base6(rng), 128)):
		for suffix in (None, "example.com"):
			yield Scenario("reverse pointer", ["nn 0 %s" % h(model.text(n))], "nrev 0 %s" % h(suffix), ["nget 0"])

	# Lists
	yield Scenario("network list", [], "ll 0", ["lall 0"])
	yield Scenario("AS list", [], "al 0", ["alall 0"])
	yield Scenario("country list", [], "cl 0", ["clall 0"])
	for k in (0, 1, 63, 64, 255, 256, 1023, 1024, rng.randrange(300)):
		setup = ["ll 0"]
		for j in range(k):
			setup += ["nb 1 %s 128" % drv.hexaddr(5 * j + 7), "lpush 0 1"]
		setup += ["nb 1 %s 128" % drv.hexaddr(rng.randrange(5 * k + 10)), "ll 1", "lpush 1 1", "nb 2 %s 128" % drv.hexaddr(1 << 100), "lpush 1 2"]
		yield Scenario("push onto %d" % k, setup, "lpush 0 1", ["nget 1", "lall 0"])

		def partial(out, before, after):
			got, old, new = [{tuple(x) for x in drv.split_items(o)[1]} for o in (out, before, after)]
			return old <= got <= new
		yield Scenario("merge into %d" % k, setup, "lmerge 0 1", ["nget 1", "lall 1", "lall 0"], partial=partial)
		setup = ["al 0"]
		for j in range(k):
			setup += ["an 0 %d" % (j * 3), "alappend 0 0"]
		yield Scenario("append AS to %d" % k, setup + ["an 1 %d" % (3 * k + 1)], "alappend 0 1", ["aget 1", "alall 0"])
		setup = ["cl 0"]
		for j in range(min(k, 500)):
			setup += ["cn 0 %s" % h("%c%c" % (65 + j // 26, 65 + j % 26)), "clappend 0 0"]
		yield Scenario("append country to %d" % k, setup + ["cn 1 %s" % h("ZZ")], "clappend 0 1", ["cget 1", "clall 0"])
	yield Scenario("AS", [], "an 0 5", ["aget 0"])
	yield Scenario("name of an AS", ["an 0 5", "aname 0 %s" % h("Old")], "aname 0 %s" % h("New"), ["aget 0"])
	yield Scenario("first name of an AS", ["an 0 5"], "aname 0 %s" % h("New"), ["aget 0"])
	yield Scenario("country", [], "cn 0 %s" % h("DE"), ["cget 0"])
	yield Scenario("name of a country", ["cn 0 %s" % h("DE"), "cname 0 %s" % h("Old")], "cname 0 %s" % h("New"), ["cget 0"])
	yield Scenario("continent", ["cn 0 %s" % h("DE")], "ccont 0 %s" % h("EU"), ["cget 0"])
	yield Scenario("context", [], "ctxswap", [])

	# Writer
	nothing = "wn 0 - -"
	yield Scenario("writer", [], nothing, ["wget 0"])
	yield Scenario("writer with keys", [], "wn 0 %s %s" % (h(key), h(key)), ["wget 0"])
	content = ["wget 0", "wwrite 0 %s 1" % h(out), "dopen 9 %s" % h(out), "de 9 mode:n", "de 9 mode:a", "de 9 mode:c", "dunref 9"]
	fill = [nothing]
	some = list(nets.items())
	rng.shuffle(some)
	some = some[:30]
	# The network of the call is a new one, on top of or below the others
	extra = rng.choice(some)[0] if rng.random() < 0.7 else model.make(gen.base4(rng), 112)
	extra = model.make(extra[0] ^ rng.choice([0, 0, 1 << (128 - extra[1])]), min(128, extra[1] + rng.choice([1, 2, 5, 9])))
	for n, p in some:
		if n != extra:
			fill.append("wnet 0 60000 %s %s %d %d" % (h(model.text(n)), h(p.cc or None), p.asn, p.flags))
	for a in asns[:5]:
		fill.append("was 0 1 %d %s" % (a, h("Company %d" % a)))
	for cc in gen.COUNTRIES[:3]:
		fill.append("wctry 0 1 %s %s %s" % (h(cc), h("EU"), h("Country " + cc)))
	fill += ["wset 0 v %s" % h("Vendor"), "wset 0 d %s" % h("Description"), "wset 0 l %s" % h("License")]
	written = ["dopen 9 %s" % h(out + "w"), "dmeta 9", "de 9 mode:n", "de 9 mode:a", "de 9 mode:c", "dunref 9"]
	for base, name in (([nothing], "empty"), (fill, "filled")):
		yield Scenario("add network to an %s writer" % name, base, "wnet 0 1 %s" % h(model.text(extra)), content)
		yield Scenario("add AS to an %s writer" % name, base, "was 0 1 77777", ["aget 1"] + content)
		yield Scenario("add country to an %s writer" % name, base, "wctry 0 1 %s" % h("ZW"), ["cget 1"] + content)
		for what in "vdl":
			for text in ("Another", "Company", "x" * 5000, "y" * 100):
				yield Scenario("set a string of an %s writer" % name, base, "wset 0 %s %s" % (what, h(text)), content)
		if i < 2:
			# More than the pool of strings has room for
			for text in ("z" * 600000, "z" * 1600000):
				yield Scenario("set a long string of an %s writer" % name, base, "wset 0 d %s" % h(text), content)
		yield Scenario("write an %s database" % name, base, "wwrite 0 %s 1" % h(out + "w"), content, effects=written)
	merging = [nothing]
	for k in range(1 << 4):
		merging.append("wnet 0 60000 %s %s 5 0" % (h("10.0.%d.0/24" % k), h("DE")))
		merging.append("wnet 0 60000 %s %s 6 0" % (h("2001:db8:%x::/48" % k), h("FR")))
	merging += ["wnet 0 60000 %s %s 6 0" % (h("2001:db8::/%d" % k), h("FR")) for k in (40, 42, 49, 128)]
	yield Scenario("write and merge", merging + ["wnet 0 60000 %s %s 5 0" % (h("10.0.0.0/18"), h("DE"))], "wwrite 0 %s 1" % h(out + "w"), content, effects=written)
	yield Scenario("write a signed database", ["wn 0 %s -" % h(key), *fill[1:]], "wwrite 0 %s 1" % h(out + "w"), content, effects=written)
	yield Scenario("add twice", fill + ["wnet 0 1 %s" % h("1.2.3.0/24")], "wnet 0 2 %s" % h("1.2.3.4/32"), content)

	# Reader
	op = ["dopen 0 %s" % h(dbpath)]
	alive = ["dmeta 0", "dl 0 %s" % drv.hexaddr(addrs[0]), "dl 0 %s" % drv.hexaddr(next(iter(nets))[0]), "das 0 %d" % asns[3]]
	yield Scenario("open", [], op[0], alive)
	yield Scenario("verify", op, "dverify 0 %s" % h(keys.public("prime256v1")), alive)
	for a in addrs[:6] + [n[0] for n in list(nets)[:4]]:
		yield Scenario("look up", op, "dl 0 %s" % drv.hexaddr(a), alive)
		yield Scenario("look up a string", op, "dls 0 %s" % h(model.addr_text(a)), alive)
	for a in rng.sample(asns, 3):
		yield Scenario("get AS", op, "das 0 %d" % a, alive)
	for cc in gen.COUNTRIES[:3]:
		yield Scenario("get country", op, "dc 0 %s" % h(cc), alive)
	for mode in "nacb":
		for flatten in (0, 1):
			# What has been found makes an object known, so there is one more question
			yield Scenario("enumerator", op, "en 0 0 mode:%s flatten:%d" % (mode, flatten), alive, effects=["estep 0 %s 100000" % mode])
			if flatten and mode != "n":
				continue
			yield Scenario("enumerate %s%d" % (mode, flatten), op + ["en 0 0 mode:%s flatten:%d" % (mode, flatten)], "estep 0 %s 100000" % mode,
				alive, retry=False, stream=True)
	yield Scenario("search", op + ["en 0 0 mode:a"], "eset 0 string %s" % h("company 4"), alive)
	yield Scenario("search again", op + ["en 0 0 mode:a", "eset 0 string %s" % h("x")], "eset 0 string %s" % h("company 4"), alive)
	yield Scenario("search results", op + ["en 0 0 mode:a", "eset 0 string %s" % h("company")], "estep 0 a 10000", alive, retry=False, stream=True)
	used = sorted({p.cc for p in nets.values() if p.cc})[:2] or ["DE"]
	filters = ["cl 0"]
	for cc in used:
		filters += ["cn 0 %s" % h(cc), "clappend 0 0"]
	numbers = ["al 0"]
	for a in sorted({p.asn for p in nets.values()})[:2]:
		numbers += ["an 0 %d" % a, "alappend 0 0"]
	for flatten in (0, 1):
		e = ["en 0 0 mode:n flatten:%d" % flatten]
		yield Scenario("filter by country", op + filters + e + ["esetc 0 0"], "estep 0 n 100000", alive, retry=False, stream=True)
		yield Scenario("filter by AS", op + numbers + e + ["eseta 0 0"], "estep 0 n 100000", alive, retry=False, stream=True)
		yield Scenario("filter by flag", op + e + ["eset 0 lag 1"], "estep 0 n 100000", alive, retry=False, stream=True)


def make4(rng, prefix):
	return model.make(model.V4BASE + rng.getrandbits(32), prefix + 96)


def case(c, binary, sc, i):
	rng = c.rng("case", i)
	# How it goes undisturbed, and how things are before
	s = drv.Script()
	for l in sc.setup + sc.questions:
		s.add(l)
	s.add("free")
	for l in sc.setup:
		s.add(l)
	s.add("afault", 0, 0)
	s.add(sc.op)
	s.add("acount")
	for l in sc.questions:
		s.add(l)
	r = c.run_script(binary, s, tag=sc.name + ":")
	if len(r.lines) < len(s.lines):
		return
	q = len(sc.questions)
	before = r.lines[len(sc.setup):len(sc.setup) + q]
	at = len(sc.setup) * 2 + q + 1
	expected, count, after = r.lines[at + 1], int(r.lines[at + 2].split()[1]), r.lines[at + 3:at + 3 + q]
	c.bump("allocations", count)
	limit = c.scale(60, 600)
	points = list(range(1, count + 1))
	if count > limit:
		points = sorted(set(points[:limit // 3] + points[-limit // 3:] + rng.sample(points, limit // 3)))

	s = drv.Script()
	for n in points:
		for persistent in (0, 1):
			state = {}
			s.add("free")
			for l in sc.setup:
				s.add(l)
			s.add("afault", n, persistent)

			def judge(out, state=state):
				state["failed"] = failed(out)
				if sc.stream:
					items, want = out.split(" |")[1:], expected.split(" |")[1:]
					if state["failed"]:
						# An answer that was interrupted, yet right so far
						k = [x.split(" ERROR:")[0].strip() for x in items]
						k = [x for x in k if x]
						return None if k == [x.replace(" END", "").strip() for x in want][:len(k)] else "wrong answers before the error (%s)" % sc.name
				if not state["failed"] and not same(out, expected, sc.op):
					return "a wrong result without any memory left (%s)" % sc.name

			def counted(out, state=state, n=n, persistent=persistent):
				k = int(out.split()[2])
				state["hit"] = k
				c.count((sc.name, i, n, persistent) if k else None)
				c.bump("reported" if state["failed"] else "completed")
				if not k and state["failed"] and not failed(expected):
					return "failed without any reason"
			s.add(sc.op, check=judge)
			s.add("acount", check=counted)
			for j, (l, b, a) in enumerate(zip(sc.questions, before, after)):
				def ask(out, b=b, a=a, state=state, l=l, effect=j >= q - sc.effects):
					if not state["failed"]:
						return None if same(out, a, l) else "success was reported without the effect (%s)" % sc.name
					if effect or same(out, b, l) or same(out, a, l):
						return None
					if sc.partial and sc.partial(out, b, a):
						return None
					return "a failed call changed something else (%s)" % sc.name
				s.add(l, check=ask)
			if sc.retry:
				# With memory, the same call works
				def again(out, state=state):
					if state["failed"] and not same(out, expected, sc.op):
						return "the same call does not work any more (%s)" % sc.name
				s.add(sc.op, check=again)
				if sc.op.split()[0] not in ("ctxswap", "was", "wctry", "wnet"):
					for l, a in zip(sc.questions, after):
						s.add(l, check=lambda out, a=a, l=l, state=state: None if same(out, a, l) or not state["failed"] else "the effect of the second call is missing (%s)" % sc.name)
	if i < 8:
		c.sample({"scenario": sc.name, "call": sc.op, "allocations": count})
	c.run_script(binary, s, tag=sc.name + ":")


def main():
	c = Check("C27", level="fault_enumeration", rule="each call of the API is repeated with each of its allocations failing, once and from there on, "
		"in fresh surroundings; the sanitizers, the results, the state of all objects and a second attempt are judged; distinct are (call, allocation, mode) that were hit",
		assumptions=["only allocations made by libloc itself fail, those inside OpenSSL and the C library do not"])
	binary = build.driver("asan")
	all = []
	for i in range(c.scale(2, 12)):
		all += list(scenarios(c, c.rng("scenario", i), c.scratch, i))
	# Files are shared within a set of scenarios
	jobs = []
	for i, sc in enumerate(all):
		own = os.path.join(c.scratch, "o%d" % i)
		paths = {os.path.join(c.scratch, "out%d%s" % (k, w)) for k in range(20) for w in ("", "w")}
		def relocate(l):
			for p in sorted(paths, key=len, reverse=True):
				mine = h(own + ("w" if p.endswith("w") else ""))
				l = l.replace(" " + h(p) + " ", " " + mine + " ")
				if l.endswith(" " + h(p)):
					l = l[:-len(h(p))] + mine
			return l
		sc.op = relocate(sc.op)
		sc.setup = [relocate(l) for l in sc.setup]
		sc.questions = [relocate(l) for l in sc.questions]
		jobs.append((sc, i))
	c.parallel(lambda j: case(c, binary, *j), jobs)
	return c.finish()
