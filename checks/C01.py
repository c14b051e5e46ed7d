"""
Lookups in a written database against longest prefix matching over what has been added.
"""
import os

from vlib import build, dbs, drv, gen, model
from vlib.check import Check
from vlib.drv import h, hexaddr, parse_net
from vlib.model import LPM

# Cases with more than 65536 networks
LARGE = {0: 4, 1: 6}


def judge(expected_net, expected, addr):
	def fn(out):
		t = out.split()
		if t[0] != "0":
			if expected is None:
				return None  # "not found" may be reported either way, as long as there is no network
			return "lookup failed although the address is covered"
		if len(t) == 1:
			return None if expected is None else "lookup found nothing although the address is covered"
		n = parse_net(t[1:])
		if expected is None:
			return "lookup found a network for an address that is not covered"
		if not n.first <= addr <= n.last:
			return "the returned network does not contain the address"
		if (n.cc or "", n.asn, n.flags) != expected:
			return "the returned network has the wrong properties"
		return None
	return fn


def build_and_query(c, binary, rng, i):
	s = drv.Script()
	w = 0
	s.add("wn", w, "-", "-")
	large = i in LARGE
	nets = gen.large(rng, LARGE[i]) if large else gen.networks(rng, small=rng.random() < 0.5)
	order = list(nets)
	rng.shuffle(order)
	path = os.path.join(c.scratch, "%s.db" % i)
	effective = {}
	rounds = 1 if large else rng.choice([1, 1, 1, 2, 3])
	slot = 1
	for r in range(rounds):
		if r:
			# After a write, merging has changed what is known to the writer: only networks
			# that have nothing in common with any previous one are specified
			extra = {n: p for n, p in gen.networks(rng, small=True).items() if not any(model.overlaps(n, m) for m in nets)}
			order = list(extra)
			rng.shuffle(order)
			nets.update(extra)
			c.bump("additions_after_write", len(order))
		for n in order:
			t = gen.text_of(rng, n)
			p = nets[n]
			if rng.random() < 0.05:
				# Some records are something else first
				s.add("mind", rng.choice([0, 0, 1, 2, 3]))
			s.add("wnet", w, 60001 if large else slot, h(t), h(p.cc or None), p.asn, p.flags,
				check=lambda out: None if out.split()[0] == "0" else "adding a new network was refused")
			slot += 1
			if rng.random() < (0.05 if not large else 0.001) and not r:
				# The same network again: is refused and changes nothing
				q = gen.props(rng)
				s.add("wnet", w, 60000, h(gen.text_of(rng, n)), h(q.cc or None), q.asn, q.flags,
					check=lambda out: "a network was accepted twice" if out.split()[0] == "0" else None)
			effective[n] = p
		s.add("wwrite", w, h(path), rng.choice([0, 1]), check=lambda out: None if out.split()[0] == "0" else "could not write the database")
		s.add("dopen", 0, h(path), check=lambda out: None if out.split()[0] == "0" else "could not open the database")
		if rng.random() < 0.2:
			# Writing has no effect on what is written
			s.add("wwrite", w, h(path + "2"), rng.choice([0, 1]), check=lambda out: None if out.split()[0] == "0" else "could not write the database again")
			s.add("dopen", 0, h(path + "2"), check=lambda out: None if out.split()[0] == "0" else "could not open the database")
		lpm = LPM(effective)
		some = sorted(effective)[:3]
		for a in gen.addresses(rng, effective, limit=3000 if large else c.scale(250, 600)):
			e = lpm.match(a)
			exp = tuple(effective[e]) if e else None
			if rng.random() < 0.3:
				s.add("dls", 0, h(model.addr_text(a)), check=judge(e, exp, a))
			else:
				s.add("dl", 0, hexaddr(a), check=judge(e, exp, a))
			depth = len(lpm.matches(a))
			c.count((some, a) if depth > 1 or e is None else None)
			c.bump("lookups_nested" if depth > 1 else "lookups_flat" if e else "lookups_uncovered")
	if i in (2, 3):
		c.sample({"networks": {model.text(n): list(p) for n, p in list(effective.items())[:12]}, "lookups": s.lines[-3:]})
	c.run_script(binary, s, timeout=300)
	c.bump("databases")
	dbs.cleanup(path, path + "2")


def main():
	c = Check("C01", rule="random network sets (nested chains, complete sibling trees, adjacent runs, hosts, default routes; IPv4 and IPv6) "
		"are written and looked up at and around every edge; non-trivial: more than one added network covers the address, or none does",
		assumptions=["IPv6 networks that cover ::ffff:0:0/96 are not mixed with IPv4 lookups (the file format shares one tree)"])
	binary = build.driver("asan")
	c.parallel(lambda i: build_and_query(c, binary, c.rng(i), i), range(c.scale(2000, 12000)))
	return c.finish()
