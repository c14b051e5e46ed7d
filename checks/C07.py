"""
Verification of modified databases: the verdict follows from what has been modified.
"""
import os
import random
import subprocess

from vlib import build, dbs, drv, fmt, gen, keys, model
from vlib.check import Check
from vlib.drv import h


def original(c, binary, rng, i, key1, key2, size, chunk=None):
	"""Writes a signed database and returns its bytes; chunk: how many bytes are to be left after the last full 64k behind the header"""
	if chunk is not None:
		seed = rng.random()
		data = original(c, binary, random.Random(seed), i, key1, key2, size)
		if data is None or len(data) < fmt.BODY:
			return data
		size += (chunk - (len(data) - fmt.BODY)) % 65536
		rng = random.Random(seed)
	path = os.path.join(c.scratch, "o%s.db" % i)
	s = drv.Script()

	def extra(s):
		for k in range(rng.randrange(0, 6)):
			s.add("was", 0, 1, rng.randrange(1 << 32), h("AS %d" % k))
		s.add("wctry", 0, 1, h("DE"), h("EU"), h("Germany"))
		# The string pool makes the size
		s.add("wset", 0, "d", h("d" * size))
	nets = gen.networks(rng, small=True)
	dbs.write(s, rng, nets, path, key1=key1 and keys.private(key1), key2=key2 and keys.private(key2), extra=extra)
	c.run_script(binary, s)
	if not os.path.exists(path):
		return None
	with open(path, "rb") as f:
		data = f.read()
	os.unlink(path)
	return data


class Base:
	def __init__(self, data, key1, key2):
		self.data = data
		self.content = fmt.signed_content(data)
		self.keys = (key1, key2)
		self.sigs = {}
		for slot, k in ((1, key1), (2, key2)):
			if k:
				self.sigs.setdefault(k, set()).add(fmt.signature(data, slot))

	def expect(self, data, key):
		"""Is this data a valid database signed by the key?"""
		if len(data) != len(self.data) or data[fmt.BODY:] != self.data[fmt.BODY:] \
				or fmt.signed_content(data[:fmt.BODY]) != self.content[:fmt.BODY]:
			return False
		hd = fmt.header(data)
		for slot in (1, 2):
			if hd["signature%d_length" % slot] > fmt.SIGMAX:
				return False  # Cannot even be opened
		return any(fmt.signature(data, slot) in self.sigs.get(key, ()) for slot in (1, 2))


def mutations(rng, base, others, n):
	"""(name, data)"""
	d = base.data
	flip = lambda d, at, x: d[:at] + bytes([d[at] ^ x]) + d[at + 1:]
	out = [("none", d)]
	edges = [fmt.BODY, fmt.BODY + 1, len(d) - 1, len(d) - 2]
	hd = fmt.header(d)
	for k in ("as", "network_data", "network_tree", "countries", "pool"):
		edges += [hd[k + "_offset"], hd[k + "_offset"] - 1, hd[k + "_offset"] + hd[k + "_length"] - 1, hd[k + "_offset"] + hd[k + "_length"]]
	for k in range(0, 6):
		# Chunks, counted from either start
		for e in (65536 * k, 65536 * k + fmt.BODY, 4096 * k, 4096 * k + fmt.BODY):
			edges += [e - 1, e]
	edges = sorted({e for e in edges if fmt.BODY <= e < len(d)})
	for e in edges:
		out.append(("byte at an edge", flip(d, e, 1 << rng.randrange(8))))
	for e in (1, 2, 3, 7, 8):
		out.append(("extended", d + bytes(rng.randrange(256) for _ in range(e))))
		out.append(("truncated", d[:-e]))
	for name, (at, size) in fmt.OFFSETS.items():
		for _ in range(2):
			out.append((name, flip(d, at + rng.randrange(size), rng.randrange(1, 256))))
	for k in range(8):
		out.append(("magic", flip(d, k, 1 << rng.randrange(8))))
	for k in range(32):
		out.append(("padding", flip(d, fmt.OFFSETS["padding"][0] + k, 1 << rng.randrange(8))))
	for _ in range(n):
		k = rng.random()
		at = rng.randrange(fmt.BODY, len(d)) if rng.random() < 0.8 else rng.randrange(len(d))
		if k < 0.4:
			out.append(("byte", flip(d, at, rng.randrange(1, 256))))
		elif k < 0.5:
			# Two changes that cancel each other out in simple checksums
			b = rng.randrange(len(d))
			x = rng.randrange(1, 256)
			out.append(("two bytes", flip(flip(d, at, x), b, x)))
		elif k < 0.6:
			b = rng.randrange(fmt.BODY, len(d))
			y = bytearray(d)
			y[at], y[b] = y[b], y[at]
			out.append(("swapped bytes", bytes(y)))
		elif k < 0.7:
			out.append(("truncated", d[:rng.choice([at, len(d) - 1, len(d) - 2, len(d) - 4096, fmt.BODY, fmt.BODY - 1, len(d) - (len(d) - fmt.BODY) % 65536])]))
		elif k < 0.8:
			out.append(("extended", d + rng.choice([b"\0", b"\0" * 4096, b"x", d[-rng.randrange(1, 100):], bytes(65536)])))
		elif k < 0.85:
			a = rng.randrange(fmt.BODY, len(d))
			l = rng.randrange(1, 5000)
			out.append(("removed", d[:a] + d[a + l:]))
		elif k < 0.9:
			a = rng.randrange(fmt.BODY, len(d))
			out.append(("inserted", d[:a] + bytes(rng.randrange(1, 100)) + d[a:]))
		elif k < 0.95 and len(d) > fmt.BODY + 3 * 65536:
			y = d[fmt.BODY:]
			out.append(("swapped chunks", d[:fmt.BODY] + y[65536:131072] + y[:65536] + y[131072:]))
		else:
			out.append(("zeroed", d[:at] + bytes(min(len(d) - at, rng.choice([1, 16, 4096]))) + d[at + min(len(d) - at, 4096):]
				if rng.random() < 0.5 else d[:at] + bytes(len(d) - at)))

	# Signatures
	s1, s2 = fmt.signature(d, 1), fmt.signature(d, 2)
	junk = lambda n: bytes(rng.randrange(256) for _ in range(n))
	pool = [s1, s2, b"", junk(70), junk(256), b"\x30\x46" + junk(70), b"\x30\x06\x02\x01\x00\x02\x01\x00", b"\x30\x06\x02\x01\x01\x02\x01\x01", bytes(72), s1[:-1], s1 + b"\0", s2[:-1], s2 + b"\0", junk(2048)]
	for o in others:
		pool += [fmt.signature(o, 1), fmt.signature(o, 2)]
	for s in (s1, s2):
		if s:
			at = rng.randrange(len(s))
			pool += [flip(s, at, 1 << rng.randrange(8)), flip(s, len(s) - 1, 1)]
	for _ in range(40):
		x = fmt.set_signature(fmt.set_signature(d, 1, rng.choice(pool)), 2, rng.choice(pool))
		if rng.random() < 0.15:
			x = flip(x, rng.randrange(fmt.BODY, len(x)), 1)
		out.append(("signatures", x))
	for slot in (1, 2):
		for l in (0, 1, 0xffff, 2048, 2049, len(s1) - 1 & 0xffff, len(s1) + 1, len(s2) + 1):
			out.append(("length of a signature", fmt.set_field(d, "signature%d_length" % slot, l)))
		out.append(("zeroed signature", fmt.set_field(d, "signature%d" % slot, b"")))
	return out


def case(c, binary, i):
	rng = c.rng(i)
	names = keys.SIGNING
	fast = ["prime256v1", "other", "rsa2048", "rsatrad", "sec1"]
	combos = [(a, b) for a in names + [None] for b in names + [None] if a != b or a is None]
	key1, key2 = combos[(i * 7 + c.seed) % len(combos)] if rng.random() < 0.4 else \
		rng.choice([(rng.choice(keys.EC), rng.choice(keys.EC)), (rng.choice(keys.EC), "rsa2048"), ("rsa2048", rng.choice(keys.EC)), (rng.choice(keys.EC), None), (None, rng.choice(keys.EC)),
			("prime256v1", "other"), ("other", "prime256v1"), ("rsa2048", "rsatrad"), ("rsa2048", "rsa4096")])
	size = rng.choice([0, 10, 3000, 3000, 60000, 65536 * 2 - 5, 65536 * 3] if i % 4 == 0 else [0, 10, 3000])
	data = original(c, binary, rng, i, key1, key2, size, rng.choice([0, 0, 1, 2, 7, 65535, rng.randrange(1, 20)]) if i % 3 == 1 else None)
	if data is None or len(data) < fmt.BODY:
		return
	base = Base(data, key1, key2)
	others = [o for o in [original(c, binary, rng, "%sx" % i, key1, key2, 5)] if o and len(o) >= fmt.BODY]

	# What the library wrote is what the keys have signed, judged by the openssl command
	for slot, k in ((1, key1), (2, key2)):
		if k and k != "rsapss" and rng.random() < 0.5:
			p = os.path.join(c.scratch, "%s-%d" % (i, slot))
			with open(p + ".sig", "wb") as f:
				f.write(fmt.signature(data, slot))
			with open(p + ".txt", "wb") as f:
				f.write(base.content)
			r = subprocess.run(["openssl", "dgst", "-sha256", "-verify", keys.public(k), "-signature", p + ".sig", p + ".txt"], capture_output=True, text=True)
			c.bump("openssl_cross_checks")
			if r.returncode:
				c.violation("openssl-disagrees", "openssl does not accept the signature of %s: %s%s" % (k, r.stdout, r.stderr), "")
			dbs.cleanup(p + ".sig", p + ".txt")

	s = drv.Script()
	tmp = []
	for j, (name, m) in enumerate(mutations(rng, base, others, c.scale(50, 300))):
		path = os.path.join(c.scratch, "%s-%d.db" % (i, j))
		tmp.append(path)
		with open(path, "wb") as f:
			f.write(m)
		s.add("dopen", 0, h(path))
		ks = [k for k in (key1, key2) if k] + ([rng.choice(fast)] if rng.random() < 0.4 else [])
		if name == "none":
			ks = names + ks
		if rng.random() < 0.5:
			ks.reverse()
		if len(ks) > 1 and name == "byte" and rng.random() < 0.5:
			ks = ks[:1]
		for k in ks:
			want = base.expect(m, k)

			def judge(out, want=want, name=name, k=k):
				if out in ("EMPTY", "NOFILE"):
					return "a good database could not be opened" if want else None
				if (out == "0") == want:
					return None
				return "a good signature was refused" if want else "a bad database was accepted (%s)" % name
			s.add("dverify", 0, h(keys.public(k)), check=judge)
			c.count((i, j, k) if name != "none" or not want else None)
			c.bump("accepted" if want else "refused")
			c.bump("mutation: %s" % name)
		if rng.random() < 0.05 and ks:
			s.add("dl", 0, "%032x" % rng.getrandbits(128))
			s.add("dverify", 0, h(keys.public(ks[0])), check=lambda out, want=base.expect(m, ks[0]): None if (out == "0") == want else "verifying again gives another result")
		s.add("dunref", 0)
	# Things that are no public keys
	path = os.path.join(c.scratch, "%s-good.db" % i)
	tmp.append(path)
	with open(path, "wb") as f:
		f.write(data)
	bad = os.path.join(c.scratch, "%s.key" % i)
	tmp.append(bad)
	with open(keys.public("prime256v1")) as f:
		pem = f.read()
	with open(bad, "w") as f:
		f.write(rng.choice(["", "garbage", pem[:-40], pem.replace("PUBLIC", "PRIVATE"), pem.replace("M", "N", 1), "\0" * 100]))
	s.add("dopen", 0, h(path))
	for k in (bad, keys.private(key1 or "prime256v1"), "/dev/null", *[keys.public(u) for u in keys.USELESS]):
		s.add("dverify", 0, h(k), check=lambda out: "something that is no suitable key verifies a database" if out == "0" else None)
		c.count((i, k))
	# The file starts to fail while it is being read
	for n in (0, 8, 100, fmt.BODY, fmt.BODY + 1, 4096, 8192, len(data) // 2, len(data) - 1):
		s.add("dunref", 0)
		s.add("dopen", 0, h(path))
		k = key1 or key2 or "prime256v1"
		s.add("dverifyfault", 0, h(keys.public(k)), h(path), n, check=lambda out: "a file that could not be read was accepted" if out == "0" else None)
		c.bump("read_faults")
		c.count((i, "fault", n))
	if i == 0:
		c.sample({"keys": (key1, key2), "size": len(data), "script": [l[:200] for l in s.lines[:6]]})
	c.run_script(binary, s)
	dbs.cleanup(*tmp)


def exhaustive(c, binary, key1, key2):
	"""Every byte of a small database"""
	rng = c.rng("all", key1, key2)
	data = original(c, binary, rng, "all%s" % key1, key1, key2, 0)
	if data is None or len(data) < fmt.BODY:
		return
	base = Base(data, key1, key2)
	positions = list(range(len(data))) if c.thorough else list(range(0, 80)) + rng.sample(range(80, fmt.BODY), 300) + list(range(fmt.BODY - 40, fmt.BODY + 40)) + rng.sample(range(fmt.BODY + 40, len(data)), 500)
	for part in range(0, len(positions), 400):
		s = drv.Script()
		tmp = []
		for at in positions[part:part + 400]:
			m = data[:at] + bytes([data[at] ^ (1 << rng.randrange(8))]) + data[at + 1:]
			path = os.path.join(c.scratch, "all%s-%d.db" % (key1, at))
			tmp.append(path)
			with open(path, "wb") as f:
				f.write(m)
			s.add("dopen", 0, h(path))
			for k in (key1, key2):
				if not k:
					continue
				want = base.expect(m, k)
				s.add("dverify", 0, h(keys.public(k)), check=lambda out, want=want, at=at: None if (out == "0") == want else
					"a good signature was refused" if want else "a change of byte %d was accepted" % at)
				c.count((key1, at, k))
				c.bump("single bytes")
			s.add("dunref", 0)
		c.run_script(binary, s)
		dbs.cleanup(*tmp)


def big(c, binary, key1, key2):
	"""A database of several megabytes: all of it counts"""
	rng = c.rng("big", key1, key2)
	data = original(c, binary, rng, "big%s%s" % (key1, key2), key1, key2, c.scale(9, 70) << 20)
	if data is None or len(data) < fmt.BODY:
		return
	base = Base(data, key1, key2)
	key = key1 or key2
	path = os.path.join(c.scratch, "big%s%s.db" % (key1, key2))
	flip = lambda at: data[:at] + bytes([data[at] ^ (1 << rng.randrange(8))]) + data[at + 1:]
	mutants = [data, data + b"\0", data[:-1], data[:-65536], data[:len(data) // 2]]
	mutants += [flip(at) for at in [len(data) - 1, *[k << 20 for k in range(1, len(data) >> 20, max(1, len(data) >> 23))], *[rng.randrange(fmt.BODY, len(data)) for _ in range(4)]]]
	for m in mutants:
		with open(path, "wb") as f:
			f.write(m)
		want = base.expect(m, key)
		s = drv.Script()
		s.add("dopen", 0, h(path))

		def judge(out, want=want):
			if out in ("EMPTY", "NOFILE"):
				return "a good database could not be opened" if want else None
			return None if (out == "0") == want else "a good signature was refused" if want else "a bad database was accepted (large)"
		s.add("dverify", 0, h(keys.public(key)), check=judge)
		s.add("dunref", 0)
		c.run_script(binary, s)
		c.count((key1, key2, hash(m)))
		c.bump("large databases")
	dbs.cleanup(path)


def main():
	c = Check("C07", rule="signed databases of all key types and slots, modified byte by byte, truncated, extended, rearranged, with exchanged, damaged and missing signatures, and verified with right and wrong keys; "
		"the expected verdict is derived from the modified bytes (distinct modifications are counted)",
		assumptions=["OpenSSL's primitives are sound: random changes never produce another valid signature"])
	# Parsing keys is very slow with sanitizers, so most of the verdicts are collected without them
	binary, plain = build.driver("asan"), build.driver("plain")
	c.parallel(lambda i: case(c, binary if i % 4 == 0 else plain, i), range(c.scale(24, 240)))
	c.parallel(lambda k: exhaustive(c, plain, *k), [("prime256v1", None), (None, "secp384r1"), ("other", "rsa2048")])
	c.parallel(lambda k: big(c, plain, *k), [("prime256v1", None), (None, "rsa2048")])
	return c.finish()
