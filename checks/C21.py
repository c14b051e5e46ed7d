"""
The Lua module, used and misused under AddressSanitizer.
"""
import glob
import os
import socket

from checks.C17 import expect as reverse_pointer
from vlib import build, drv, fmt, gen, keys, model, script, spec
from vlib.check import Check
from vlib.drv import h, split_items
from vlib.model import Props

SIGNING = ["prime256v1", "other", "secp384r1", "rsa2048"]


def value(t):
	if t == "-":
		return None
	if t.startswith("="):
		return bytes.fromhex(t[1:]).decode("utf-8", "surrogateescape")
	if t in ("true", "false"):
		return t == "true"
	return int(t)


def net(tokens):
	"""(network of the model, Props) - or a text that says what is wrong"""
	text, family, cc, asn, flags = map(value, tokens)
	n = spec.parse_net(text)
	if model.text(n) != text:
		raise ValueError("not canonical: %s" % text)
	if family != (socket.AF_INET if model.is_v4(n) else socket.AF_INET6):
		raise ValueError("wrong family")
	if cc == "" or asn == 0:
		raise ValueError("a value that does not exist should be nil")
	return n, Props(cc or "", asn or 0, flags)


def expect(want, what):
	return lambda out: None if out == want else what


def use(c, binary, d, i):
	rng = c.rng("use", i)
	sp = spec.Spec(rng, small=rng.random() < 0.7)
	path = os.path.join(c.scratch, "%s.db" % i)
	key1 = rng.choice(SIGNING + [None])
	key2 = rng.choice(SIGNING + [None, None])
	w = drv.Script()
	sp.write(w, path, key1=key1 and keys.private(key1), key2=key2 and keys.private(key2))
	c.run_script(binary, w)
	if not os.path.exists(path):
		return
	mtime = os.stat(path).st_mtime

	s = drv.Script()
	s.add("open", 1, h(path), check=expect("ok", "could not open the database"))
	s.add("open", 2, h(path + ".missing"), check=lambda out: None if out.startswith("error ") else "a missing file was opened")

	def meta(out):
		v, de, l, at = map(value, out.split())
		c.count()
		if (v, de, l) != (sp.vendor, sp.description, sp.license):
			return "wrong metadata"
		if abs(at - mtime) > 60:
			return "wrong time of creation"
	s.add("meta", 1, check=meta)
	for k in set(rng.sample(SIGNING, 2) + [k for k in (key1, key2) if k]):
		s.add("verify", 1, h(keys.public(k)), check=expect("true" if k in (key1, key2) else "false", "wrong verdict about a signature"))
	for k in keys.junk(c.scratch):
		s.add("verify", 1, h(k), check=lambda out: None if out == "false" or out.startswith("error ") else "verified with something that is not a key")

	# Any time
	with open(path, "rb") as f:
		data = f.read()
	for t in rng.sample([0, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**33 + 5, 2**40], 2):
		with open(path + ".t%d" % t, "wb") as f:
			f.write(fmt.set_field(data, "created_at", t))
		s.add("open", 2, h(path + ".t%d" % t), check=expect("ok", "could not open the database"))
		s.add("meta", 2, check=lambda out, t=t: None if value(out.split()[-1]) == t else "wrong time of creation")
	s.add("verify", 1, h("/nonexistent"), check=lambda out: None if out.startswith("error ") else "verified with a missing key")

	kept = {}
	for k, (a, want) in enumerate(sp.lookups()):
		def judge(out, a=a, want=want, k=k):
			c.count((i, a) if want else None)
			if want is None:
				return None if out == "-" else "a lookup found something"
			if out == "-":
				return "a lookup found nothing"
			n, p = net(out.split())
			kept[k] = out
			if not model.contains(n, a) or p != want:
				return "a lookup found the wrong network"
		s.add("lookup", 1, h(model.addr_text(a)), *([100 + k] if k < 5 else []), check=judge)
	for bad in ("nonsense", "", "1.2.3", "256.1.1.1", "1.2.3.4\0"):
		s.add("lookup", 1, h(bad), check=lambda out: None if out.startswith("error ") else "an invalid address was accepted")

	def show(number, name):
		return lambda out: None if [value(t) for t in out.split()] in ([number, name, "AS%d - %s" % (number, name)], [number, name, "AS%d" % number if not name else ""]) \
			else "wrong autonomous system"
	for number in sorted(set(list(sp.ases) + [0, 1, 2, rng.getrandbits(32), 2**31 - 1, 2**31, 2**32 - 1])):
		s.add("as", 1, number, check=show(number, sp.as_name(number)) if number in sp.ases else expect("-", "an autonomous system that does not exist"))
		c.count((i, "as", number))
		s.add("newas", 3, number, check=lambda out, number=number: None if [value(t) for t in out.split()] == [number, None, "AS%d" % number] else "wrong new autonomous system")
	for bad in ("-1", "4294967296", "1e300", "=78", "-"):
		s.add("as", 1, bad, check=lambda out: None if out.startswith("error ") else "an invalid AS number was accepted")
		s.add("newas", 3, bad, check=lambda out: None if out.startswith("error ") else "an invalid AS number was accepted")
	for cc in sorted(set(list(sp.countries) + ["DE", "QQ", "US"])):
		def judge_country(out, cc=cc):
			if cc not in sp.countries:
				return None if out == "-" else "a country that does not exist"
			if out == "-":
				return "a country was not found"
			code, name, continent, text = map(value, out.split())
			want = sp.countries[cc]
			if (code, text, continent, name or None) != (cc, cc, want[0], want[1] or None):
				return "wrong country"
		s.add("country", 1, h(cc), check=judge_country)
		c.count((i, "country", cc))
		s.add("newcountry", "c" + cc, h(cc), check=expect("%s - - %s" % (h(cc), h(cc)), "wrong new country"))
		s.add("newcountry", "d" + cc, h(cc))
		s.add("same", "c" + cc, "d" + cc, check=expect("true", "equal countries differ"))
		s.add("same", "c" + cc, "cDE", check=expect("true" if cc == "DE" else "false", "wrong comparison of countries")) if cc >= "DE" else None
	for bad in ("de", "D", "DEU", "", "DE\0", "DE\0FR"):
		s.add("country", 1, h(bad), check=lambda out: None if out == "-" or out.startswith("error ") else "an invalid country code was found")
		s.add("newcountry", 3, h(bad), check=lambda out: None if out.startswith("error ") else "an invalid country code was accepted")

	state = {}

	def listing(out):
		head, items = split_items(out)
		if head != ["ok"]:
			return "could not list networks"
		state["all"] = [net(t) for t in items]
		c.count()
		c.bump("networks_listed", len(items))
		return spec.judge_listing(sp, state["all"])
	s.add("list", 1, check=listing)

	# Several iterators, which outlive the database
	def step(slot):
		def fn(out):
			head, items = split_items(out)
			if head != ["ok"]:
				return "could not list networks"
			at, ended = state.get(slot, (0, False))
			for t in items:
				if t == ["end"]:
					if at != len(state["all"]):
						return "an iterator ended early"
					state[slot] = (at, True)
					return
				if ended:
					return
				if at >= len(state["all"]) or net(t) != state["all"][at]:
					return "an iterator returned something else"
				at += 1
			state[slot] = (at, ended)
			c.count()
		return fn
	slots = ["i%d" % k for k in range(3)]
	for x in slots:
		s.add("iter", x, 1, check=expect("ok", "no iterator"))
	dropped = False
	for k in range(20):
		s.add("next", *(lambda x: (x, rng.choice([1, 2, 5, 50])))(x := rng.choice(slots)), check=step(x))
		if rng.random() < 0.2:
			s.add("gc")
		if k > 8 and not dropped and rng.random() < 0.3:
			dropped = True
			s.add("drop", 1)
			s.add("gc")
	for k in range(5):
		s.add("net", 100 + k, check=lambda out, k=k: None if k not in kept or out == kept[k] else "a network changed after its database was released")

	# Networks
	for _ in range(40):
		fam = rng.choice([4, 6])
		n = model.make(model.V4BASE + rng.getrandbits(32), rng.choice([96, 104, 120, 127, 128, rng.randrange(96, 129)])) if fam == 4 else \
			model.make(gen.base6(rng), rng.choice([16, 48, 64, 127, 128, rng.randrange(16, 129)]))
		if model.touches_v4(n):
			continue
		s.add("newnet", 4, h(gen.text_of(rng, n)), check=lambda out, n=n: None if net(out.split()) == (n, Props("", 0, 0)) else "wrong new network")
		suffix = rng.choice([None, None, "example.com", ""])
		want = reverse_pointer(n, suffix)
		s.add("rptr", 4, h(suffix), check=expect(h(want), "wrong reverse pointer"))

		def halves(out, n=n):
			if n[1] == 128:
				return None if out.startswith("error ") else "a host was divided"
			head, items = split_items(out)
			q = n[1] + 1
			if head != ["2"] or [net(t)[0] for t in items] != [(n[0], q), (n[0] | (1 << (128 - q)), q)]:
				return "wrong subnets"
		s.add("subnets", 4, check=halves)
		c.count((i, "net", n))
	for bad in ("nonsense", "", "1.2.3.4/33", "::/129", "1.2.3.4/8\0", "1.2.3.4\0/8"):
		s.add("newnet", 3, h(bad), check=lambda out: None if out.startswith("error ") else "an invalid network was accepted")
	if i < 2:
		c.sample({model.text(n): list(p) for n, p in list(sp.nets.items())[:6]})

	if i % 4 == 0:
		def misuse(out):
			t = out.split()
			if t[0] != "ok":
				return "misuse ended with an error"
			c.count(None, int(t[1]))
			c.bump("calls_with_random_values", int(t[1]))
			c.bump("errors_raised", int(t[2]))
			c.count((i, "misuse", t[3]))
		s.add("misuse", rng.getrandbits(30), 3000, h(path), h(keys.public("other")), h(c.scratch), check=misuse)
	if i % 4 == 1:
		def logging(out):
			t = out.split()
			if t[0] != "ok":
				return "an error in a callback escaped"
			c.bump("messages", int(t[1]))
			c.count()
		s.add("logging", h(path), check=logging)
	program = os.path.join(build.HARNESS, "luause.lua")
	script.commands(c, d, "lua", program, s)
	for p in glob.glob(path + "*"):
		os.unlink(p)


def main():
	c = Check("C21", rule="random databases are used with the Lua module in an interpreter that runs under AddressSanitizer, and every answer is compared with the model; then all functions are called with random values, also on objects that "
		"have been released; distinct: lookups that found something, queried objects, and networks")
	binary = build.driver("asan")
	d = build.shared("asan")
	c.parallel(lambda i: use(c, binary, d, i), range(c.scale(200, 2000)))
	return c.finish()
