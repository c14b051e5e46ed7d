"""
The list of all networks against the model and against lookups.
"""
import os

from vlib import build, dbs, drv, gen, model
from vlib.check import Check
from vlib.drv import h, hexaddr, parse_net, split_items
from vlib.model import LPM, Props


def as_net(n):
	return (n.first, n.prefix + (96 if n.family == 4 else 0))


def raw(items):
	out = []
	for t in items:
		n = parse_net(t)
		key = as_net(n)
		out.append((key, Props(n.cc or "", n.asn, n.flags), n))
	return out


def judge_list(listed, nets):
	"""listed: [(net, props, raw)], nets: what was added"""
	order = [k for k, _, _ in listed]
	for k, _, n in listed:
		if model.last(k) != n.last or n.text != model.text(k) or n.family != model.family(k):
			return "a listed network is inconsistent in itself"
	if len(set(order)) != len(order):
		return "a network was listed twice"
	if any((a[0], a[1]) >= (b[0], b[1]) for a, b in zip(order, order[1:])):
		return "networks are not listed in ascending order"
	if len(order) > len(nets):
		return "more networks are listed than were added"
	d = {k: p for k, p, _ in listed}
	for fam in (4, 6):
		want = model.runs(model.segments(nets, fam), lambda n: tuple(nets[n]))
		got = model.runs(model.segments(d, fam), lambda n: tuple(d[n]))
		if want != got:
			return "the listed networks do not denote what was added"
	for k in d:
		up = dbs.closest(d, k)
		if up is not None and d[up] == d[k]:
			return "a listed network repeats its parent"
	if dbs.mergeable(d):
		return "two halves with the same properties were not merged"
	return None


def case(c, binary, i):
	rng = c.rng(i)
	s = drv.Script()
	path = os.path.join(c.scratch, "%s.db" % i)
	if i in (0, 1):
		nets = gen.large(rng, 4 if i else 6)
	elif i % 25 == 0:
		nets = dbs.wall(rng, rng.choice([4, 6]))
	elif i % 97 == 1:
		nets = {}
	else:
		nets = gen.networks(rng, small=rng.random() < 0.4)
	dbs.write(s, rng, nets, path, keep=True)
	state = {}

	def listing(out):
		head, items = split_items(out)
		if head != ["0"] or any("ERROR" in t[-1] or "AFTER-END" in t[-1] for t in items[-1:]):
			return "enumerating networks failed"
		listed = raw(items)
		state["listed"] = listed
		c.bump("listed", len(listed))
		if len(listed) < len(nets):
			c.bump("databases_with_merges")
		c.count((i, len(listed), len(nets)) if len(nets) > 1 else None)
		return judge_list(listed, nets)
	s.add("de", 0, "mode:n", check=listing)

	def lookup(a):
		def fn(out):
			t = out.split()
			if "lpm" not in state:
				state["lpm"] = LPM({k: p for k, p, _ in state["listed"]})
			m = state["lpm"].match(a)
			got = as_net(parse_net(t[1:])) if len(t) > 1 else None
			if got != m:
				return "lookup and listing disagree"
		return fn
	for a in gen.addresses(rng, nets, per_net=2, limit=60):
		s.add("dl", 0, hexaddr(a), check=lookup(a))
		c.count()
	# Nothing is left for another write
	if rng.random() < 0.5:
		s.add("wwrite", 0, h(path + "2"), 1, check=dbs.ok("could not write the database again"))
		s.add("dopen", 1, h(path + "2"), check=dbs.ok("could not open the database again"))
		s.add("de", 1, "mode:n", check=lambda out: None if raw(split_items(out)[1]) == state["listed"] else "the same writer wrote other networks when it wrote again")
		s.add("dunref", 1)
		c.bump("second_writes")
	s.add("wunref", 0)
	# Once more, after the lookups
	s.add("de", 0, "mode:n", check=lambda out: None if raw(split_items(out)[1]) == state["listed"] else "a second listing differs")
	if i in (2, 3):
		c.sample({"added": {model.text(n): list(p) for n, p in list(nets.items())[:10]}})
	c.run_script(binary, s)
	dbs.cleanup(path, path + "2")


def main():
	c = Check("C03", rule="random network sets are written and listed; the list is compared with the model segment by segment and with lookups; "
		"non-trivial: databases with more than one network")
	binary = build.driver("asan")
	c.parallel(lambda i: case(c, binary, i), range(c.scale(1000, 8000)))
	return c.finish()
