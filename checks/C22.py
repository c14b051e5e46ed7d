"""
The Perl module, used and misused under AddressSanitizer.
"""
import os

from checks.C21 import SIGNING, expect
from vlib import build, drv, keys, model, script, spec
from vlib.check import Check
from vlib.drv import h, unh


def use(c, binary, d, i):
	rng = c.rng("use", i)
	sp = spec.Spec(rng, small=rng.random() < 0.7)
	path = os.path.join(c.scratch, "%s.db" % i)
	key1 = rng.choice(SIGNING + [None])
	key2 = rng.choice(SIGNING + [None, None])
	w = drv.Script()
	sp.write(w, path, key1=key1 and keys.private(key1), key2=key2 and keys.private(key2))
	c.run_script(binary, w)
	if not os.path.exists(path):
		return

	s = drv.Script()
	error = lambda what: (lambda out: None if out.startswith("error ") else what)
	s.add("open", 1, h(path), check=expect("ok", "could not open the database"))
	s.add("open", 2, h(path + ".missing"), check=error("a missing file was opened"))
	s.add("open", 2, h("/dev/null"), check=error("an empty file was opened"))
	s.add("meta", 1, check=expect(" ".join(h(x) for x in (sp.vendor, sp.description, sp.license)), "wrong metadata"))
	for k in set(rng.sample(SIGNING, 2) + [k for k in (key1, key2) if k]):
		# Failures may be reported either way
		if k in (key1, key2):
			s.add("verify", 1, h(keys.public(k)), check=expect("true", "a valid signature was refused"))
		else:
			s.add("verify", 1, h(keys.public(k)), check=lambda out: None if out == "false" or out.startswith("error ") else "an invalid signature was accepted")
	for k in keys.junk(c.scratch):
		s.add("verify", 1, h(k), check=lambda out: None if out == "false" or out.startswith("error ") else "verified with something that is not a key")
	s.add("verify", 1, h("/nonexistent"), check=lambda out: None if out == "false" or out.startswith("error ") else "verified with a missing key")

	for a, want in sp.lookups():
		def judge(out, a=a, want=want):
			cc, asn, flags = out.split()
			got = (unh(cc), unh(asn), int(flags))
			c.count((i, a) if want else None)
			if want is None:
				return None if got == (None, None, 0) else "a lookup found something"
			if want.cc and got[0] != want.cc or not want.cc and got[0] not in (None, ""):
				return "wrong country"
			if got[1] != (str(want.asn) if want.asn else None):
				return "wrong ASN"
			if got[2] != want.flags:
				return "wrong flags"
		s.add("lookup", 1, h(model.addr_text(a)), check=judge)
	for bad in ("nonsense", "", "1.2.3", "256.1.1.1"):
		s.add("lookup", 1, h(bad), check=lambda out: None if out.startswith("error ") or out == "- - 0" else "an invalid address was found")
	for number in sorted(set(list(sp.ases) + [0, 1, 2, rng.getrandbits(32), 2**31 - 1, 2**31, 2**32 - 1])):
		s.add("as", 1, number, check=expect(h(sp.as_name(number)) if number in sp.ases else "-", "wrong name of an autonomous system"))
		c.count((i, "as", number))
		# There are no such numbers
		for big in (number + 2**32, number - 2**32):
			if big != 0:
				s.add("as", 1, "=" + str(big).encode().hex(), check=lambda out: None if out == "-" or out.startswith("error ") else "an AS number was truncated")
	for cc in sorted(set(list(sp.countries) + ["DE", "QQ", "US", "de", "D", "DEU", ""])):
		def judge_country(out, cc=cc):
			if cc not in sp.countries:
				return None if out == "- -" or out.startswith("error ") else "a country that does not exist"
			name, continent = map(unh, out.split())
			want = sp.countries[cc]
			if (continent, name or None) != (want[0], want[1] or None):
				return "wrong country"
		s.add("country", 1, h(cc), check=judge_country)
		c.count((i, "country", cc))
	s.add("countries", 1, check=expect(" ".join(["ok"] + [h(cc) for cc in sorted(sp.countries)]), "wrong list of countries"))
	c.count()

	# Several handles, closed in different ways
	for k in range(2, 5):
		s.add("open", k, h(path), check=expect("ok", "could not open the database"))
	s.add("copy", 5, 3, check=expect("ok", "could not copy a handle"))
	s.add("drop", 3)
	s.add("close", 4, check=expect("ok", "could not close a database"))
	s.add("meta", 4, check=error("a closed database was used"))
	s.add("close", 4)
	for k in (1, 2, 5):
		s.add("meta", k, check=expect(" ".join(h(x) for x in (sp.vendor, sp.description, sp.license)), "wrong metadata after another handle was closed"))
	s.add("drop", 4)
	s.add("drop", 5)
	if i < 2:
		c.sample({model.text(n): list(p) for n, p in list(sp.nets.items())[:6]})
	if i % 3 == 0:
		def misuse(out):
			t = out.split()
			if t[0] != "ok":
				return "misuse ended with an error"
			c.count(None, int(t[1]))
			c.bump("calls_with_random_values", int(t[1]))
			c.bump("exceptions", int(t[2]))
			c.count((i, "misuse", t[3]))
		s.add("misuse", rng.getrandbits(30), 2000, h(path), h(keys.public("other")), h(c.scratch), check=misuse)
	program = os.path.join(build.HARNESS, "perluse.pl")
	script.commands(c, d, "perl", program, s)
	os.unlink(path)


def main():
	c = Check("C22", rule="random databases are used with the Perl module in an interpreter that runs under AddressSanitizer, and every answer is compared with the model; then all functions are called with random values, also on handles that "
		"have been closed; distinct: lookups that found something and queried objects")
	binary = build.driver("asan")
	d = build.shared("asan")
	c.parallel(lambda i: use(c, binary, d, i), range(c.scale(160, 1600)))
	return c.finish()
