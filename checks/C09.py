"""
Reading files with arbitrary content.
"""
import os
import struct

from vlib import build, dbs, drv, fmt, gen, keys, model
from vlib.check import Check
from vlib.drv import h

INTERESTING = [0, 1, 2, 7, 8, 11, 12, 13, 4095, 4096, 4199, 4200, 4201, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000, 0xfffffff0, 0xfffffff4, 0xfffffff8,
	0xfffffffc, 0xffffffff]
OFFSETS = ["vendor", "description", "license", "as_offset", "as_length", "network_data_offset", "network_data_length", "network_tree_offset",
	"network_tree_length", "countries_offset", "countries_length", "pool_offset", "pool_length", "signature1_length", "signature2_length"]
CODES = [b"DE", b"AT", b"\0\0", b"XX", b"A1", b"d\0", b"\xff\xff", b"\0A", b"D\0", b"de", b"ZZ"]


def valid(c, plain, i):
	"""A bank of intact databases to start from"""
	rng = c.rng("valid", i)
	path = os.path.join(c.scratch, "valid%d.db" % i)
	s = drv.Script()
	nets = gen.networks(rng, small=i % 3 != 0)

	def extra(s):
		for n in rng.sample(gen.ASNS, min(len(gen.ASNS), 8)) + [rng.randrange(1 << 32) for _ in range(rng.randrange(20))]:
			s.add("was", 0, 1, n, h("Name %d" % n))
		for cc in rng.sample(gen.COUNTRIES, 5):
			s.add("wctry", 0, 1, h(cc), h("EU"), h("Country " + cc))
		for k in "vdl":
			s.add("wset", 0, k, h("Some text %s" % k))
	pair = [(None, None), (keys.private("prime256v1"), None), (keys.private("prime256v1"), keys.private("other"))][i % 3]
	dbs.write(s, rng, nets, path, key1=pair[0], key2=pair[1], extra=extra)
	c.run_script(plain, s)
	with open(path, "rb") as f:
		data = f.read()
	os.unlink(path)
	return data


def number(rng, size, hint=()):
	return rng.choice([*INTERESTING, size, size - 1, size + 1, size - 4, size - 12, rng.randrange(size + 64), rng.getrandbits(32), *hint])


def mutate(rng, data):
	kind = rng.choice(["flip", "flip", "field", "field", "field", "fields", "truncate", "section", "tree", "tree", "records", "extend", "pool", "header"])
	out = bytearray(data)
	head = fmt.header(data)
	if kind == "flip":
		for _ in range(rng.choice([1, 1, 2, 8, 64])):
			at = rng.randrange(len(out)) if rng.random() < 0.6 else rng.randrange(8, 100)
			out[at] = rng.choice([out[at] ^ (1 << rng.randrange(8)), rng.randrange(256), 0, 255])
	elif kind in ("field", "fields"):
		for _ in range(1 if kind == "field" else rng.randrange(2, 6)):
			f = rng.choice(OFFSETS)
			v = number(rng, len(data), [head[f], head[f] + rng.choice([-12, -8, -1, 1, 8, 12, 4096]), head[rng.choice(OFFSETS)]])
			out = bytearray(fmt.set_field(bytes(out), f, v))
	elif kind == "truncate":
		cut = rng.choice([0, 1, 7, 8, 9, fmt.BODY - 1, fmt.BODY, fmt.BODY + 1, len(data) - 1, len(data) - 2, rng.randrange(len(data)),
			head["pool_offset"], head["pool_offset"] + 1, head["pool_offset"] + head["pool_length"] - 1, head["network_tree_offset"] + 12, head["network_tree_offset"] + 7])
		out = out[:max(cut, 0)]
	elif kind == "section":
		# A section at the very end, overlapping or beyond it
		name, size = rng.choice([("as", 8), ("network_tree", 12), ("network_data", 12), ("countries", 8), ("pool", 1)])
		n = rng.randrange(1, 40)
		offset = max(0, len(data) - n * size + rng.choice([0, 0, 1, size - 1, size // 2, size, n * size, -1]))
		out = bytearray(fmt.set_field(bytes(out), name + "_offset", offset))
		out = bytearray(fmt.set_field(bytes(out), name + "_length", rng.choice([n * size, n * size, (n + 1) * size, n * size + 1, 0xffffffff, 0xfffffffc])))
	elif kind == "tree":
		count = head["network_tree_length"] // 12
		for _ in range(rng.choice([1, 1, 3, 10])):
			if not count:
				break
			at = head["network_tree_offset"] + 12 * rng.randrange(count) + 4 * rng.randrange(3)
			out[at:at + 4] = struct.pack(">I", rng.choice([0, 1, count - 1, count, count + 1, 0xffffffff, rng.randrange(count + 2), rng.randrange(count), rng.randrange(count), rng.getrandbits(32)]) & 0xffffffff)
	elif kind == "records":
		for name, size in (("network_data", 12), ("countries", 8), ("as", 8)):
			count = head[name + "_length"] // size
			for _ in range(rng.randrange(0, 5)):
				if not count:
					break
				at = head[name + "_offset"] + size * rng.randrange(count)
				if name == "as" or rng.random() < 0.4:
					out[at + 4:at + 8] = struct.pack(">I", rng.choice([*INTERESTING, head["pool_length"], head["pool_length"] - 1, rng.getrandbits(32)]) & 0xffffffff)
				else:
					out[at:at + 2] = rng.choice(CODES)
	elif kind == "extend":
		out += bytes(rng.randrange(256) for _ in range(rng.choice([1, 100, 5000])))
	elif kind == "pool":
		at, n = head["pool_offset"], head["pool_length"]
		w = rng.choice(["unterminated", "all", "shorter", "tail"])
		if w == "unterminated":
			out[at + n - 1] = 0x41
		elif w == "all":
			out[at:at + n] = b"A" * n
		elif w == "shorter":
			out = bytearray(fmt.set_field(bytes(out), "pool_length", max(0, n - rng.randrange(1, 5))))
		else:
			out = out[:at + n]
			out[-1:] = b"x"
	else:
		out[8:8 + 60] = bytes(rng.choice([0, 0, 0, 255, rng.randrange(256)]) for _ in range(60))
	if rng.random() < 0.05:
		out[7:8] = bytes([rng.randrange(256)])
	return kind, bytes(out)


def path_nodes(rng, depth, address=None):
	"""One path down, optionally with a second child on every level"""
	nodes = []
	both = rng.random() < 0.5
	target = rng.choice([0, 0, rng.getrandbits(128), (1 << 128) - 1, model.V4BASE]) if address is None else address
	nets = rng.random()
	at = 0
	nodes.append([0, 0, 0xffffffff])
	for d in range(depth):
		bit = (target >> (127 - d)) & 1 if d < 128 else rng.randrange(2)
		new = len(nodes)
		nodes.append([0, 0, 0xffffffff if rng.random() < nets else rng.randrange(8)])
		nodes[at][bit] = new
		if both:
			nodes.append([0, 0, rng.randrange(8)])
			nodes[at][1 - bit] = new + 1
		at = new
	return nodes


def crafted(rng):
	kind = rng.choice(["random", "random", "cycle", "path", "path", "deep", "self", "v4", "dag", "empty"])
	n = rng.choice([1, 2, 3, 10, 40, 200, 600])
	if kind == "random":
		nodes = [[rng.choice([0, rng.randrange(n + 2), rng.randrange(n)]), rng.choice([0, rng.randrange(n + 2), rng.randrange(n)]), rng.choice([0xffffffff, rng.randrange(10), 0])] for _ in range(n)]
	elif kind == "cycle":
		nodes = path_nodes(rng, rng.choice([3, 20, 127]))
		for _ in range(rng.randrange(1, 4)):
			nodes[rng.randrange(len(nodes))][rng.randrange(2)] = rng.randrange(len(nodes))
	elif kind == "path":
		nodes = path_nodes(rng, rng.choice([1, 31, 32, 96, 126, 127, 128, 128]))
	elif kind == "deep":
		nodes = path_nodes(rng, rng.choice([129, 130, 200, 300]))
	elif kind == "self":
		nodes = [[rng.randrange(3), rng.randrange(3), rng.choice([0, 0xffffffff])] for _ in range(3)]
	elif kind == "v4":
		nodes = path_nodes(rng, rng.choice([80, 90, 95, 96, 97, 110, 128]), model.V4BASE | rng.getrandbits(32))
	elif kind == "dag":
		nodes = [[min(i + rng.randrange(1, 3), n - 1), min(i + rng.randrange(1, 3), n - 1), rng.choice([0xffffffff, rng.randrange(8)])] for i in range(n)]
	else:
		nodes = []
	held = rng.choice([0, 1, 8, 8, 8, 8])
	if nodes and rng.random() < 0.3:
		# Just one beyond the end
		nodes[rng.choice([0, len(nodes) - 1, rng.randrange(len(nodes))])][2] = held
	networks = b"".join(rng.choice(CODES[:2] if rng.random() < 0.8 else CODES) + b"\0\0" + struct.pack(">I", rng.choice([0, 1, 0xffffffff])) + struct.pack(">HH", rng.getrandbits(16) if rng.random() < 0.3 else 0, 0)
		for _ in range(held))
	pool = rng.choice([b"\0", b"", b"\0abc\0", b"\0abc", b"x" * 50, b"\0" + b"y" * 300 + b"\0"])
	ases = b"".join(struct.pack(">II", a, rng.choice([0, 1, 2, len(pool) - 1 if pool else 0, len(pool), 0xffffffff])) for a in sorted(rng.randrange(1 << 32) for _ in range(rng.choice([0, 1, 5, 40]))))
	countries = b"".join(rng.choice(CODES) + rng.choice(CODES) + struct.pack(">I", rng.choice([0, 1, len(pool), 0xffffffff])) for _ in range(rng.choice([0, 1, 2, 8])))
	tree = b"".join(struct.pack(">III", a & 0xffffffff, b & 0xffffffff, x & 0xffffffff) for a, b, x in nodes)
	sections = {"as": ases, "network_tree": tree, "network_data": networks, "countries": countries, "pool": pool}
	order = list(sections)
	rng.shuffle(order)
	body, head = b"", {f: 0 for f in fmt.FIELDS}
	for f in ("signature1", "signature2", "padding"):
		head[f] = b""
	for name in order:
		head[name + "_offset"] = fmt.BODY + len(body)
		head[name + "_length"] = len(sections[name])
		body += sections[name]
		if rng.random() < 0.2:
			body += b"\xff" * rng.randrange(1, 30)
	if rng.random() < 0.15:
		f = rng.choice(OFFSETS)
		head[f] = number(rng, fmt.BODY + len(body)) & (0xffff if f.startswith("signature") else 0xffffffff)
	if rng.random() < 0.3:
		head["signature1"] = bytes(rng.randrange(256) for _ in range(72))
		head["signature1_length"] = rng.choice([72, 2048, 2049, 70, 0xffff])
	return "crafted " + kind, fmt.build(head, body)


def wide(rng, k):
	"""A complete tree: many networks that match a filter, all of which have been cut up by others that don't"""
	nodes = []
	for i in range((1 << (k + 2)) - 1):
		depth = (i + 1).bit_length() - 1
		nodes.append(struct.pack(">III", *((2 * i + 1, 2 * i + 2) if depth <= k else (0, 0)), 0xffffffff if depth < k else depth - k))
	networks = b"DE\0\0" + struct.pack(">IHH", 0, 0, 0) + b"FR\0\0" + struct.pack(">IHH", 1, 0, 0)
	sections = {"as": b"", "network_tree": b"".join(nodes), "network_data": networks, "countries": b"", "pool": b"\0"}
	body, head = b"", {f: 0 for f in fmt.FIELDS}
	for f in ("signature1", "signature2", "padding"):
		head[f] = b""
	for name, data in sections.items():
		head[name + "_offset"] = fmt.BODY + len(body)
		head[name + "_length"] = len(data)
		body += data
	return fmt.build(head, body)


def use(c, s, rng, path, kind):
	def judge(out):
		r = out.split()
		if r and r[0] == "0":
			c.bump("opened: " + kind)
			c.count((path, kind))
		else:
			c.bump("refused: " + kind)
			c.count()
	s.add("dopen", 0, h(path), check=judge)
	s.add("dmeta", 0)
	for _ in range(6):
		a = rng.choice([0, 1, (1 << 128) - 1, model.V4BASE, model.V4BASE + rng.getrandbits(32), rng.getrandbits(128), 1 << 127])

		def inside(out, a=a):
			t = out.split()
			if t[0] == "0" and len(t) > 1:
				n = drv.parse_net(t[1:])
				c.bump("networks found")
				if not n.first <= a <= n.last:
					return "the network found does not contain the address"
		s.add("dl", 0, drv.hexaddr(a), check=inside)
	for n in (0, 1, 0xffffffff, rng.choice(gen.ASNS), rng.randrange(1 << 32)):
		s.add("das", 0, n)
	for cc in ("DE", "AT", "AA", "ZZ", rng.choice(gen.COUNTRIES)):
		s.add("dc", 0, h(cc))

	def listed(out):
		c.bump("records enumerated", out.count("|"))
		if "LIMIT" in out:
			return "the enumeration does not end"
	for options in (["mode:n"], ["mode:n", "flatten:1"], ["mode:b"], ["mode:a"], ["mode:c"], ["mode:a", "string:" + h("a")], ["mode:n", "countries:DE,AT", "flatten:1"], ["mode:b", "family:%s" % rng.choice("46")],
			["mode:n", "asns:1,0", "flags:1", "family:%s" % rng.choice("46")]):
		s.add("de", 0, *options, "limit:1000000", check=listed)
	if rng.random() < 0.15:
		s.add("dverify", 0, h(keys.public("prime256v1")))
	s.add("dunref", 0)


def batch(c, asan, bank, i, size=25):
	rng = c.rng("batch", i)
	s = drv.Script()
	paths = []
	if rng.random() < 0.5:
		s.add("log", rng.choice([3, 6, 7]))
	s.add("fds")
	for j in range(size):
		path = os.path.join(c.scratch, "h%d-%d.db" % (i, j))
		kind, data = crafted(rng) if rng.random() < 0.45 else mutate(rng, rng.choice(bank))
		with open(path, "wb") as f:
			f.write(data)
		paths.append(path)
		use(c, s, rng, path, kind)
	s.add("fds")
	r = c.run_script(asan, s, timeout=60)
	if r.returncode == 0 and r.lines and len({l for l, cmd in zip(r.lines, s.lines) if cmd == "fds"}) > 1:
		c.violation("descriptors", "file descriptors are left behind", "\n".join(s.lines))
	if c.violations:
		keep_files(c, s, paths)
	dbs.cleanup(*paths)


def keep_files(c, s, paths):
	"""The replay needs the files, too (only the one that failed)"""
	with c.lock:
		for n, (key, what, replay) in enumerate(c.violations):
			data = os.path.join(os.path.dirname(replay), os.path.basename(replay)[:-4] + ".files")
			if os.path.exists(data) or not os.path.exists(replay):
				continue
			with open(replay) as f:
				text = f.read()
			if not any(h(p) in text for p in paths):
				continue
			os.makedirs(data)
			for p in paths:
				new = os.path.join(data, os.path.basename(p))
				with open(p, "rb") as f, open(new, "wb") as g:
					g.write(f.read())
				text = text.replace(h(p), h(new))
			with open(replay, "w") as f:
				f.write(text)


def special(c, asan):
	s = drv.Script()
	rng = c.rng("special")
	empty = os.path.join(c.scratch, "empty")
	open(empty, "w").close()
	for path in (empty, "/dev/null", "/dev/zero", "/dev/full", c.scratch, os.path.join(c.scratch, "missing")):
		use(c, s, rng, path, "special")
	c.run_script(asan, s, timeout=60)
	s = drv.Script()
	path = os.path.join(c.scratch, "wide.db")
	with open(path, "wb") as f:
		f.write(wide(rng, 16))
	use(c, s, rng, path, "wide")
	c.run_script(asan, s, timeout=300)
	dbs.cleanup(path)


def main():
	c = Check("C09", rule="intact databases are damaged (bits, header fields, truncation, section boundaries, tree links, records, string pool) and files are built from scratch (cycles, too deep, shared and missing nodes, "
		"IPv4 space, overlapping sections); each is opened and, if accepted, fully used: lookups, records, all enumerations, verification. Files are held in exactly sized heap blocks, so that the sanitizer sees any access outside of them. "
		"Distinct: files that could be opened and hence exercised the readers",
		assumptions=["the file does not change while it is open"])
	asan, plain = build.driver("asan"), build.driver("plain")
	# What is only evaluated for messages must not go too far either
	debug = build.driver("asan", extra=["-DENABLE_DEBUG"])
	bank = [valid(c, plain, i) for i in range(12)]
	special(c, asan)
	c.parallel(lambda i: batch(c, debug if i % 8 == 7 else asan, bank, i), range(c.scale(700, 8000)))
	return c.finish()
