"""
Signing: whatever has been written successfully with keys verifies with all of them.
"""
import os
import subprocess

from vlib import build, dbs, drv, fmt, gen, keys, model
from vlib.check import Check
from vlib.drv import h


def bad_files(c):
	"""Things that are not private keys"""
	with open(keys.private("prime256v1")) as f:
		pem = f.read()
	with open(keys.private("rsa2048")) as f:
		rsa = f.read()
	out = []
	for i, text in enumerate(["", "garbage\n", pem[:len(pem) // 2], rsa[:-60], pem.replace("PRIVATE KEY", "CERTIFICATE"), pem.replace("MIGHAgEAMBMG", "MIGHAgEAMBMH"), "\0" * 50]):
		p = os.path.join(c.scratch, "bad%d.pem" % i)
		with open(p, "w") as f:
			f.write(text)
		out.append(p)
	return out + [keys.public("prime256v1"), keys.public("rsa2048"), "/dev/null"]


def case(c, asan, plain, bad, i):
	rng = c.rng(i)
	binary = asan if i % 3 == 0 else plain
	s = drv.Script()
	good = list(keys.SIGNING)
	if i < 2:
		pair = [("rsa16384", "prime256v1"), ("prime256v1", "rsa16384")][i]
	else:
		k = rng.random()
		if k < 0.12:
			pair = (None, None)
		elif k < 0.3:
			u = rng.choice(keys.USELESS)
			pair = rng.choice([(u, None), (None, u), (u, rng.choice(good)), (rng.choice(good), u), (u, rng.choice(keys.USELESS))])
		elif k < 0.4:
			b = rng.choice(bad)
			pair = rng.choice([(b, None), (None, b), (b, rng.choice(good)), (rng.choice(good), b)])
		elif k < 0.5:
			g = rng.choice(good)
			pair = (g, g)
		else:
			pair = rng.choice([(rng.choice(good), None), (None, rng.choice(good)), (rng.choice(good), rng.choice(good)), (rng.choice(good), rng.choice(good))])
	path_of = lambda k: None if k is None else k if "/" in k else keys.private(k)
	useless = any(k in keys.USELESS for k in pair)
	broken = any(k and "/" in k for k in pair)
	c.bump("no keys" if pair == (None, None) else "useless keys" if useless else "broken keys" if broken else "one key" if None in pair else "two keys")
	s.add("wn", 0, h(path_of(pair[0])), h(path_of(pair[1])),
		check=(lambda out: "something that is no private key was accepted" if out == "0" else None) if broken else
		None if useless else dbs.ok("a good key was refused"))
	if broken:
		c.count((i, pair))
		c.run_script(binary, s)
		return

	state = {}
	tmp = []
	files = []
	for round in range(rng.choice([1, 1, 2, 3])):
		for _ in range(rng.randrange(0, 5)):
			s.add("wnet", 0, 1, h("10.%d.%d.0/24" % (round, rng.randrange(256))), h(rng.choice(gen.COUNTRIES)), rng.choice(gen.ASNS), 0)
		for _ in range(rng.randrange(0, 4)):
			s.add("was", 0, 1, rng.randrange(1 << 32), h("AS %d" % rng.randrange(100)))
		if rng.random() < 0.7:
			s.add("wset", 0, rng.choice("vdl"), h("x" * rng.choice([0, 1, 100, 4096, 61000, 65536, 140000])))
		path = os.path.join(c.scratch, "%d-%d.db" % (i, round if rng.random() < 0.6 else 0))
		mode = "w+"
		if rng.random() < 0.3:
			# Into a file that has had other content
			mode = "r+"
			s.add("wwrite", 0, h(path), 1, "w+")
		key = "w%d" % round

		def written(out, key=key):
			r = out.split()[0]
			state[key] = r == "0"
			if useless:
				return "a key that cannot sign anything has been used successfully" if r == "0" else None
			return None if r == "0" else "writing with good keys failed"
		s.add("wwrite", 0, h(path), rng.choice([0, 1]), mode, check=written)
		tmp.append(path)
		if useless:
			c.count((i, pair, round))
			continue
		s.add("dopen", 0, h(path), check=dbs.ok("could not open the database"))
		for k in dict.fromkeys([*pair, *rng.sample(good, 2)]):
			if not k:
				continue
			want = k in pair
			s.add("dverify", 0, h(keys.public(k)), check=lambda out, want=want: None if (out == "0") == want else
				"a database does not verify with the key that it was written with" if want else "a database verifies with a key it was not signed with")
			c.count((i, pair, round, k))
			c.bump("verifications")
		s.add("dunref", 0)
		if i % 2 and round == 0 and len(set(tmp)) == 1:
			files.append(path)
			break
	if i == 2:
		c.sample({"keys": pair, "script": [l[:200] for l in s.lines[:8]]})
	c.run_script(binary, s)

	# Another opinion about each slot
	for p in files:
		if not os.path.exists(p):
			continue
		with open(p, "rb") as f:
			data = f.read()
		if len(data) < fmt.BODY:
			continue
		for slot, k in zip((1, 2), pair):
			sig = fmt.signature(data, slot)
			if not k:
				if sig or fmt.header(data)["signature%d" % slot].strip(b"\0"):
					c.violation("unused slot", "a slot without a key holds a signature", "")
				continue
			q = os.path.join(c.scratch, "%d-%d" % (i, slot))
			with open(q + ".sig", "wb") as f:
				f.write(sig)
			with open(q + ".txt", "wb") as f:
				f.write(fmt.signed_content(data))
			r = subprocess.run(["openssl", "dgst", "-sha256", *(["-sigopt", "rsa_padding_mode:pss"] if k == "rsapss" else []), "-verify", keys.public(k), "-signature", q + ".sig", q + ".txt"], capture_output=True, text=True)
			c.bump("openssl_cross_checks")
			c.count((i, "openssl", slot))
			if r.returncode:
				c.violation("openssl-disagrees", "openssl does not accept the signature of %s in slot %d: %s%s" % (k, slot, r.stdout, r.stderr), "")
			dbs.cleanup(q + ".sig", q + ".txt")
	dbs.cleanup(*tmp)


def main():
	c = Check("C08", rule="writers with all combinations of usable, unusable, broken and missing keys; several writes with changes in between, also into used files; every success is verified with the library and partly with openssl; "
		"distinct (keys, write, verifying key) are counted")
	asan, plain = build.driver("asan"), build.driver("plain")
	bad = bad_files(c)
	c.parallel(lambda i: case(c, asan, plain, bad, i), range(c.scale(1000, 4000)))
	return c.finish()
