"""
Random histories of calls over a few shared objects of every kind.
"""
import os

from vlib import build, dbs, drv, fmt, gen, keys, model
from vlib.check import Check
from vlib.drv import h, unh

ORDER = ["EDWnNaAcC", "CcAaNnWDE", "DWEnaNcAC", "nacNACWDE", "NACEDWcan", "WDNACEacn"]


def rng_clear(rng):
	return "clear" if rng.random() < 0.3 else "append"


class World:
	"""Who is who: slots refer to objects, lists to the objects on them"""
	def __init__(self, c):
		self.c = c
		self.N, self.A, self.C, self.NL, self.AL, self.CL = {}, {}, {}, {}, {}, {}

	def seen(self, kind, out, skip=1):
		"""A new object, as it was printed"""
		t = out.split()[skip:]
		if kind == "N":
			n = drv.parse_net(t)
			return {"text": n.text, "first": n.first, "prefix": model_prefix(n), "cc": n.cc, "asn": n.asn, "flags": n.flags}
		if kind == "A":
			return {"number": int(t[0]), "name": unh(t[1])}
		return {"code": unh(t[0]), "cont": unh(t[1]), "name": unh(t[2])}

	def same(self, kind, slot, out, obj=None):
		obj = obj if obj is not None else getattr(self, kind).get(slot)
		if obj is None:
			return "an object that does not exist" if out != "EMPTY" else None
		if out == "EMPTY":
			return "an object is gone"
		self.c.count()
		got = self.seen(kind, out)
		if got != obj:
			return "an object changed: %r instead of %r" % (got, obj)


def model_prefix(n):
	return n.prefix + (96 if n.family == 4 else 0)


def netkey(o):
	return (o["first"], o["prefix"])


class History:
	def __init__(self, c, rng, scratch, tag):
		self.c, self.rng, self.s, self.w = c, rng, drv.Script(), World(c)
		self.path = lambda i: os.path.join(scratch, "%s-%d.db" % (tag, i))
		self.paths = {self.path(i) for i in range(3)}
		self.nets = gen.networks(rng, small=True)
		self.texts = [model.text(n) for n in self.nets] + ["10.0.0.0/8", "10.0.0.0/9", "10.128.0.0/9", "::/0", "0.0.0.0/0", "2001:db8::/32", "2001:db8::/33", "1.2.3.4"]
		self.k = 4
		self.modes = {}
		self.ops = [m for m in dir(self) if m.startswith("op_")]
		# Every history prefers something else
		self.ops += [o for o in self.ops if rng.random() < 0.3] * 3

	def slot(self):
		return self.rng.randrange(self.k)

	def one(self):
		rng = self.rng
		getattr(self, rng.choice(self.ops))()

	# --- networks
	def op_nn(self):
		i = self.slot()

		def done(out):
			if out.split()[0] == "0":
				self.store("N", i, self.w.seen("N", out, 2))
			else:
				self.drop("N", i)
		self.s.add("nn", i, h(self.rng.choice(self.texts * 2 + ["", "x", "1.2.3.4/33", "::/129"])), check=done)
	op_nn2 = op_nn3 = op_nn

	def op_nget(self):
		i = self.slot()
		self.s.add("nget", i, check=lambda out: self.w.same("N", i, " ".join(out.split()[:9])))
	op_nget2 = op_nget

	def setter(self, kind, cmd, i, args, change):
		def done(out):
			if out.split()[0] == "0":
				change(getattr(self.w, kind)[i])
		self.s.add(cmd, i, *args, check=done)

	def op_nset(self):
		i, rng = self.slot(), self.rng
		w = rng.randrange(4)
		if w == 0:
			cc = rng.choice([None, "", *gen.COUNTRIES[:4], "xx", "X", "XX", "DEU"])
			self.setter("N", "nsetcc", i, [h(cc)], lambda o: o.update(cc=cc or ""))
		elif w == 1:
			n = rng.choice(gen.ASNS)
			self.setter("N", "nsetasn", i, [n], lambda o: o.update(asn=n))
		elif w == 2:
			f = 1 << rng.randrange(4)
			self.setter("N", "nsetflag", i, [f], lambda o: o.update(flags=o["flags"] | f))
		else:
			self.s.add("nselfcc", i)

	def op_nread(self):
		i, rng = self.slot(), self.rng
		self.s.add(*rng.choice([("nrel", i, self.slot()), ("nmatch", i, drv.hexaddr(rng.getrandbits(128))), ("nmatchcc", i, h(rng.choice(["DE", "A1", "", None]))), ("nrev", i, h(rng.choice([None, "x.y"]))), ("nhasflag", i, 1)]))

	def op_nref(self):
		self.refs("N", "n")

	def refs(self, kind, cmd):
		i = self.slot()
		if self.rng.random() < 0.35:
			def ref(out):
				if out == "ok":
					self.w_refs(kind)[i] = self.w_refs(kind).get(i, 1) + 1
			self.s.add(cmd + "ref", i, check=ref)
		else:
			def unref(out):
				if out.startswith("ok"):
					n = self.w_refs(kind).get(i, 1) - 1
					self.w_refs(kind)[i] = n
					if n <= 0:
						self.drop(kind, i)
			self.s.add(cmd + "unref", i, check=unref)

	def w_refs(self, kind):
		r = self.w.__dict__.setdefault("refs", {})
		return r.setdefault(kind, {})

	def store(self, kind, i, obj):
		getattr(self.w, kind)[i] = obj
		self.w_refs(kind).pop(i, None)

	def drop(self, kind, i):
		getattr(self.w, kind).pop(i, None)
		self.w_refs(kind).pop(i, None)

	def op_nsub(self):
		i, a, b = self.slot(), self.slot(), self.slot()

		def done(out):
			head, items = drv.split_items(out)
			if head[0] == "0":
				self.store("N", a, self.w.seen("N", " ".join(["x", *items[0]])))
				self.store("N", b, self.w.seen("N", " ".join(["x", *items[1]])))
		if a != b:
			self.s.add("nsub", i, a, b, check=done)

	# --- network lists
	def op_ll(self):
		i = self.slot()
		if self.rng.random() < 0.5:
			return

		def done(out):
			if out == "0":
				self.store("NL", i, [])
		self.s.add("ll", i, check=done)

	def op_lpush(self):
		i, j = self.slot(), self.slot()

		def done(out):
			if out == "0":
				l, n = self.w.NL[i], self.w.N[j]
				if netkey(n) not in [netkey(x) for x in l]:
					l.append(n)
					l.sort(key=netkey)
		self.s.add("lpush", i, j, check=done)
	op_lpush2 = op_lpush3 = op_lpush

	def op_lpop(self):
		i, j = self.slot(), self.slot()
		first = self.rng.random() < 0.5

		def done(out):
			if out.startswith("ok"):
				o = self.w.NL[i].pop(0 if first else -1)
				p = self.w.same("N", None, out, o)
				self.store("N", j, o)
				return p
		self.s.add("lpopf" if first else "lpop", i, j, check=done)

	def op_lgetk(self):
		i, j, n = self.slot(), self.slot(), self.rng.choice([0, 1, 2, 5, 1 << 40])

		def done(out):
			if out.startswith("ok"):
				o = self.w.NL[i][n]
				p = self.w.same("N", None, out, o)
				self.store("N", j, o)
				return p
		self.s.add("lgetk", i, n, j, check=done)

	def op_lall(self):
		i = self.slot()

		def done(out):
			if out == "EMPTY":
				return None
			items = drv.split_items(out)[1]
			want = self.w.NL[i]
			got = [self.w.seen("N", " ".join(["x", *t])) for t in items]
			self.c.count()
			if got != want:
				return "a list changed: %r instead of %r" % (got, want)
		self.s.add("lall", i, check=done)

	def op_lmerge(self):
		i, j = self.slot(), self.slot()

		def done(out):
			if out == "0":
				a, b = self.w.NL[i], self.w.NL[j]
				have = {netkey(x) for x in a}
				a += [x for x in b if netkey(x) not in have]
				a.sort(key=netkey)
		self.s.add("lmerge", i, j, check=done)

	def op_lclear(self):
		i = self.slot()
		if self.rng.random() < 0.7:
			return

		def done(out):
			if out == "ok":
				self.w.NL[i].clear()
		self.s.add("lclear", i, check=done)

	def op_lref(self):
		self.refs("NL", "l")

	def op_nexcl(self):
		i, j, k = self.slot(), self.slot(), self.slot()
		cmd = self.rng.choice(["nexcl", "nexcll"])

		def done(out):
			if out.startswith("ok"):
				self.store("NL", k, [self.w.seen("N", " ".join(["x", *t])) for t in drv.split_items(out)[1]])
		self.s.add(cmd, i, j, k, check=done)

	def op_lmisc(self):
		self.s.add(*self.rng.choice([("ldump", self.slot()), ("lhas", self.slot(), self.slot())]))

	# --- AS, countries
	def op_an(self):
		i, n = self.slot(), self.rng.choice(gen.ASNS)

		def done(out):
			if out == "0":
				self.store("A", i, {"number": n, "name": None})
		self.s.add("an", i, n, check=done)

	def op_aname(self):
		i, name = self.slot(), self.rng.choice(gen.STRINGS + [None])
		self.setter("A", "aname", i, [h(name)], lambda o: o.update(name=name))

	def op_aself(self):
		self.s.add("aself", self.slot())

	def op_aget(self):
		i = self.slot()
		self.s.add("aget", i, check=lambda out: self.w.same("A", i, out))

	def op_aref(self):
		self.refs("A", "a")

	def op_cn(self):
		i, cc = self.slot(), self.rng.choice(gen.COUNTRIES[:6] + ["XX", "x", ""])

		def done(out):
			if out == "0":
				self.store("C", i, {"code": cc, "cont": None, "name": None})
		self.s.add("cn", i, h(cc), check=done)

	def op_cname(self):
		i, name = self.slot(), self.rng.choice(gen.STRINGS + [None])
		self.setter("C", "cname", i, [h(name)], lambda o: o.update(name=name))

	def op_ccont(self):
		i, cont = self.slot(), self.rng.choice(["EU", "NA", "x", "", None, "ABC"])
		self.setter("C", "ccont", i, [h(cont)], lambda o: o.update(cont=cont))

	def op_cself(self):
		self.s.add(self.rng.choice(["cself", "cselfcont"]), self.slot())

	def op_cget(self):
		i = self.slot()
		self.s.add("cget", i, check=lambda out: self.w.same("C", i, out))

	def op_cref(self):
		self.refs("C", "c")

	def lists(self, kind, letter, cmd):
		i, j, rng = self.slot(), self.slot(), self.rng
		lk = kind + "L"
		key = "number" if kind == "A" else "code"
		lists, objs = getattr(self.w, lk), getattr(self.w, kind)
		if cmd == "new":
			def done(out):
				if out == "0":
					self.store(lk, i, [])
			self.s.add(letter + "l", i, check=done)
		elif cmd == "append":
			def done(out):
				if out == "0" and objs[j][key] not in [x[key] for x in lists[i]]:
					lists[i].append(objs[j])
			self.s.add(letter + "lappend", i, j, check=done)
		elif cmd == "getk":
			n = rng.choice([0, 1, 2, 100])

			def done(out):
				if out.startswith("ok"):
					o = lists[i][n]
					p = self.w.same(kind, None, out, o)
					self.store(kind, j, o)
					return p
			self.s.add(letter + "lgetk", i, n, j, check=done)
		elif cmd == "sort":
			def done(out):
				if out == "ok":
					lists[i].sort(key=lambda o: o[key])
			self.s.add(letter + "lsort", i, check=done)
		elif cmd == "clear":
			def done(out):
				if out == "ok":
					lists[i].clear()
			self.s.add(letter + "lclear", i, check=done)
		elif cmd == "all":
			def done(out):
				if out != "EMPTY":
					self.c.count()
					got = [self.w.seen(kind, " ".join(["x", *t])) for t in drv.split_items(out)[1]]
					if got != lists[i]:
						return "a list changed: %r instead of %r" % (got, lists[i])
			self.s.add(letter + "lall", i, check=done)
		else:
			self.refs(lk, letter + "l")

	def op_al(self):
		self.lists("A", "a", self.rng.choice(["new", "append", "append", "append", "append", "append", "getk", "getk", "getk", "sort", "all", "all", "ref", rng_clear(self.rng)]))

	def op_cl(self):
		self.lists("C", "c", self.rng.choice(["new", "append", "append", "append", "append", "append", "getk", "getk", "getk", "sort", "all", "all", "ref", rng_clear(self.rng)]))
	op_al2, op_cl2 = op_al, op_cl

	# --- writers
	def op_wn(self):
		r = self.rng.random()
		k1, k2 = (None, None) if r < 0.8 else (keys.private("prime256v1"), self.rng.choice([None, keys.private("other"), "/dev/null", keys.public("other")]))
		self.s.add("wn", self.slot() % 2, h(k1), h(k2))

	def op_wnet(self):
		i, j, text = self.slot() % 2, self.slot(), self.rng.choice(self.texts + ["", "x/y"])

		def done(out):
			if out == "0":
				self.store("N", j, None)
		# (the object is read right afterwards, which makes it known)
		self.s.add("wnet", i, j, h(text), check=done)

		def learn(out):
			if self.w.N.get(j, 0) is None:
				self.w.N[j] = self.w.seen("N", " ".join(out.split()[:9]))
				return None
			return self.w.same("N", j, " ".join(out.split()[:9]))
		self.s.add("nget", j, check=learn)
	op_wnet2 = op_wnet3 = op_wnet

	def op_was(self):
		i, j, n = self.slot() % 2, self.slot(), self.rng.choice(gen.ASNS)

		def done(out):
			if out == "0":
				self.store("A", j, {"number": n, "name": None})
		self.s.add("was", i, j, n, check=done)

	def op_wctry(self):
		i, j, cc = self.slot() % 2, self.slot(), self.rng.choice(gen.COUNTRIES[:8] + ["xx"])

		def done(out):
			if out == "0":
				self.store("C", j, {"code": cc, "cont": None, "name": None})
		self.s.add("wctry", i, j, h(cc), check=done)

	def op_wset(self):
		rng = self.rng
		self.s.add(*rng.choice([("wset", self.slot() % 2, rng.choice("vdl"), h(rng.choice(gen.STRINGS + [None]))), ("wself", self.slot() % 2, rng.choice("vdl")), ("wget", self.slot() % 2)]))

	def op_wwrite(self):
		r = self.rng.random()
		i = self.slot() % 2
		if r < 0.75:
			p = self.rng.choice(sorted(self.paths))
			# A new file, because others might still have the old one open
			self.s.add("wwrite", i, h(p + ".new"), self.rng.choice([0, 1]))
			self.s.add("mv", h(p + ".new"), h(p))
		elif r < 0.85:
			self.s.add("wwrite", i, h("/dev/full"), 1)
		elif r < 0.9:
			self.s.add("wwrite", i, h(self.path(9)), self.rng.choice([2, 99]))
		else:
			self.s.add("wwrite", i, h(self.path(9)), 1, "w")
	op_wwrite2 = op_wwrite

	def op_wref(self):
		self.s.add(self.rng.choice(["wref", "wunref"]), self.slot() % 2)

	# --- databases
	def op_dopen(self):
		p = self.rng.choice(sorted(self.paths) * 3 + ["/dev/null", "/nonexistent", self.path(9)])
		self.s.add("dopen", self.slot(), h(p))
	op_dopen2 = op_dopen

	def op_dget(self):
		rng, i, j = self.rng, self.slot(), self.slot()

		def keep(kind):
			def done(out):
				if out.startswith("ok"):
					self.store(kind, j, self.w.seen(kind, out))
			return done
		w = rng.randrange(4)
		if w == 0:
			n = rng.choice(list(self.nets) or [(0, 0)])
			self.s.add("dlk", i, drv.hexaddr(n[0] | (rng.getrandbits(128) & ((1 << (128 - n[1])) - 1))), j, check=keep("N"))
		elif w == 1:
			self.s.add("dask", i, rng.choice(gen.ASNS), j, check=keep("A"))
		elif w == 2:
			self.s.add("dck", i, h(rng.choice(gen.COUNTRIES[:8] + ["", "xx"])), j, check=keep("C"))
		else:
			self.s.add(*rng.choice([("dmeta", i), ("dls", i, h(rng.choice(["1.2.3.4", "::", "x", "10.0.0.0/8", ""]))), ("dverify", i, h(rng.choice([keys.public("prime256v1"), "/dev/null", keys.private("other")])))]))
	op_dget2 = op_dget3 = op_dget

	def op_dref(self):
		self.s.add(self.rng.choice(["dref", "dunref", "dunref"]), self.slot())

	def op_en(self):
		rng = self.rng
		i = self.slot()
		self.modes[i] = rng.choice("nnbac")
		options = ["mode:%s" % self.modes[i], "flatten:%d" % rng.randrange(2)]
		if rng.random() < 0.3:
			options.append("string:" + h(rng.choice(["a", "", "NAME"])))
		if rng.random() < 0.3:
			options.append("countries:" + ",".join(rng.sample(gen.COUNTRIES, 2)))
		if rng.random() < 0.2:
			options.append("asns:1,2,3")
		self.s.add("en", i, self.slot(), *options)
	op_en2 = op_en

	def op_enext(self):
		rng, i, j = self.rng, self.slot(), self.slot()
		mode = self.modes.get(i, "n")
		kind = rng.choice("nac") if rng.random() < 0.1 else mode if mode in "ac" else "n"

		for _ in range(rng.choice([1, 1, 2, 5])):
			def done(out, j=j):
				if out.startswith("ok"):
					self.store({"n": "N", "a": "A", "c": "C"}[kind], j, self.w.seen({"n": "N", "a": "A", "c": "C"}[kind], out))
			self.s.add("enext", i, kind, j, check=done)
			j = self.slot()
	op_enext2 = op_enext3 = op_enext4 = op_enext

	def op_eset(self):
		rng, i, j = self.rng, self.slot(), self.slot()

		w = rng.randrange(7)
		if w == 0:
			self.s.add("eset", i, "string", h(rng.choice(["a", "Some", ""])))
		elif w == 1:
			self.s.add("eset", i, "family", rng.choice([0, 4, 6]))
		elif w == 2:
			self.s.add("eset", i, "flag", 1 << rng.randrange(4))
		elif w == 3:
			self.s.add("esetc", i, j)
		elif w == 4:
			self.s.add("eseta", i, j)
		else:
			# The list that comes back is shared with other slots, so this one only looks at it
			kind, letter = rng.choice([("C", "c"), ("A", "a")])
			self.s.add("eget" + letter, i, 9)
			self.s.add(letter + "lall", 9)
			self.s.add(letter + "lunref", 9)
	op_eset2 = op_eset

	def op_eref(self):
		self.s.add(self.rng.choice(["eref", "eunref", "eunref"]), self.slot())

	def op_ctx(self):
		self.s.add(*self.rng.choice([("ctxswap",), ("ctxref",), ("log", self.rng.choice([3, 6, 7]))]))

	def op_free(self):
		if self.rng.random() < 0.1:
			which = self.rng.choice("EDWNnAaCc")

			def done(out):
				kind = {"n": "N", "N": "NL", "a": "A", "A": "AL", "c": "C", "C": "CL"}.get(which)
				if kind:
					getattr(self.w, kind).clear()
					self.w_refs(kind).clear()
			self.s.add("free", which, check=done)


def history(c, asan, i, length):
	rng = c.rng("history", i)
	hist = History(c, rng, c.scratch, "h%d" % i)
	s = hist.s
	s.add("fds")
	for k in range(3):
		# Something to begin with
		def extra(s):
			for n in gen.ASNS:
				s.add("was", 3, 60000, n, h(rng.choice(gen.STRINGS)))
			for cc in gen.COUNTRIES[:8]:
				s.add("wctry", 3, 60000, h(cc), h("EU"), h(rng.choice(gen.STRINGS)))
		dbs.write(s, rng, {**hist.nets, **gen.networks(rng, small=True)}, hist.path(k), w=3, db=10 + k, extra=extra)
		s.add("dunref", 10 + k)
		s.add("nunref", 60000)
		s.add("aunref", 60000)
		s.add("cunref", 60000)
	for _ in range(length):
		hist.one()
	s.add("free", rng.choice(ORDER))
	s.add("fds")
	r = c.run_script(asan, s, timeout=120)
	if r.returncode == 0:
		fds = [l for l, cmd in zip(r.lines, s.lines) if cmd == "fds"]
		if len(set(fds)) != 1:
			c.violation("descriptors", "file descriptors are left behind: %s" % fds, "\n".join(s.lines))
		done = sum(1 for l in r.lines if l != "EMPTY")
		c.bump("calls with objects", done)
		c.bump("objects returned", sum(1 for l in r.lines if l.startswith("ok ")))
		for a, out in zip(s.lines, r.lines):
			if out not in ("EMPTY", "none") and not out.startswith(("1", "-", "NOFILE", "NULL")):
				c.bump("succeeded: " + a.split()[0])
		for a, b, out in zip(s.lines, s.lines[1:], r.lines):
			if out != "EMPTY":
				c.count("%s>%s" % (a.split()[0], b.split()[0]), 0)
	dbs.cleanup(*[hist.path(k) for k in range(10)], *[hist.path(k) + ".new" for k in range(10)])


def main():
	c = Check("C10", rule="random histories of API calls over four slots of every kind of object, sharing, replacing and releasing them in any order, including failing calls, several contexts, files being replaced, and all orders of release; "
		"the sanitizers watch memory, descriptors and contexts are accounted for, and every object is compared with what is known about it. Evaluations: objects compared; distinct: pairs of consecutive calls that found their objects",
		assumptions=["handles are used from one thread at a time"])
	asan, debug = build.driver("asan"), build.driver("asan", extra=["-DENABLE_DEBUG"])
	c.parallel(lambda i: history(c, debug if i % 8 == 7 else asan, i, 1000), range(c.scale(600, 5000)))
	return c.finish()
