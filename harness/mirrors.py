"""
Mirrors that answer in many ways, on the loopback interface.
"""
import calendar
import gzip
import lzma
import os
import random
import socket
import struct
import subprocess
import threading
import time

from vlib import fmt


class Server:
	"""
		Answers HTTP requests for /<mirror>/... as the mirror has been told to do, and logs all of them.
	"""
	def __init__(self):
		self.behaviour = {}
		# When the files of some mirrors have been modified
		self.modified = {}
		self.log = []
		self.lock = threading.Lock()
		self.socket = socket.socket()
		self.socket.bind(("127.0.0.1", 0))
		self.socket.listen(64)
		self.port = self.socket.getsockname()[1]
		# Bound, but nobody listens
		self.refusing = socket.socket()
		self.refusing.bind(("127.0.0.1", 0))
		threading.Thread(target=self.run, daemon=True).start()

	def url(self, mirror):
		return "http://127.0.0.1:%d/%s/" % (self.port, mirror)

	def refused(self, mirror):
		return "http://127.0.0.1:%d/%s/" % (self.refusing.getsockname()[1], mirror)

	def run(self):
		while True:
			c, _ = self.socket.accept()
			threading.Thread(target=self.handle, args=(c,), daemon=True).start()

	def handle(self, c):
		try:
			c.settimeout(60)
			data = b""
			while b"\r\n\r\n" not in data:
				buf = c.recv(65536)
				if not buf:
					return
				data += buf
			head = data.decode("latin-1").split("\r\n")
			method, path, _ = head[0].split(" ", 2)
			headers = {}
			for l in head[1:]:
				k, _, v = l.partition(":")
				if k:
					headers[k.lower()] = v.strip()
			mirror = path.split("/")[1]
			with self.lock:
				self.log.append((mirror, method, path, headers))
				b = self.behaviour.get(mirror)
				modified = self.modified.get(b)
			if modified and modified <= since(headers):
				respond(c, b"", status="304 Not Modified")
			elif b:
				b(c)
			else:
				respond(c, b"", status="404 Not Found")
		except OSError:
			pass
		finally:
			c.close()


def respond(c, body, status="200 OK", length=None, headers=(), chunked=False):
	head = ["HTTP/1.1 %s" % status, "Connection: close"]
	if chunked:
		head.append("Transfer-Encoding: chunked")
	elif length is not False:
		head.append("Content-Length: %d" % (len(body) if length is None else length))
	head += headers
	c.sendall(("\r\n".join(head) + "\r\n\r\n").encode() + body)


def since(headers):
	try:
		return calendar.timegm(time.strptime(headers.get("if-modified-since", ""), "%a, %d %b %Y %H:%M:%S GMT"))
	except ValueError:
		return -1


def reset(c):
	c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))


def pieces(c, rng, body, headers=()):
	"""Slowly, in pieces of random sizes"""
	respond(c, b"", length=len(body), headers=headers)
	i = 0
	while i < len(body):
		n = rng.choice([1, 100, 1024, 1025, 5000])
		c.sendall(body[i:i + n])
		i += n
		if rng.random() < 0.1:
			time.sleep(0.002)


def chunks(rng, body):
	out = b""
	i = 0
	while i < len(body):
		n = rng.choice([1, 100, 1024, 4000])
		out += b"%x\r\n%s\r\n" % (len(body[i:i + n]), body[i:i + n])
		i += n
	return out + b"0\r\n\r\n"


class Databases:
	"""Databases of any age, signed by any key"""
	def __init__(self, rng, keys, work):
		import location
		self.rng, self.keys, self.work = rng, keys, work
		w = location.Writer()
		w.vendor = "".join(rng.choice("abcdefghijklmnopqrstuvwxyz") for _ in range(rng.choice([10, 3000, 30000])))
		for i in range(rng.choice([1, 50, 400])):
			try:
				n = w.add_network("%d.%d.%d.0/24" % (rng.randrange(1, 224), rng.randrange(256), i % 256) if i % 3 else "2a%02x:%x::/32" % (i % 256, rng.randrange(1, 0xffff)))
			except IndexError:
				# (the same network once more)
				continue
			n.country_code = rng.choice(["DE", "FR", "GB"])
			n.asn = rng.randrange(1, 2**32)
		path = os.path.join(work, "base.db")
		w.write(path)
		with open(path, "rb") as f:
			self.base = f.read()
		os.unlink(path)

	def make(self, created_at, key="prime256v1", slot=None):
		data = fmt.set_field(self.base, "created_at", created_at)
		if not key:
			return data
		path = os.path.join(self.work, "content")
		with open(path, "wb") as f:
			f.write(fmt.signed_content(data))
		sig = subprocess.run(["openssl", "dgst", "-sha256", "-sign", os.path.join(self.keys, key + ".pem"), path], stdout=subprocess.PIPE, check=True).stdout
		os.unlink(path)
		return fmt.set_signature(data, slot or self.rng.choice([1, 2]), sig)


def xz(rng, data):
	return lzma.compress(data, check=rng.choice([lzma.CHECK_CRC32, lzma.CHECK_CRC64, lzma.CHECK_NONE]), preset=rng.choice([0, 1]))


def answers(rng, dbs, timestamp, server, older=(1, 1, 3600, 10**8)):
	"""
		Ways to answer: (name, what could be delivered or None, whether it has to be, behaviour)
	"""
	t = timestamp or int(time.time())
	kind = rng.choice(["good", "good", "good", "older", "other key", "unsigned", "flipped", "longer", "shorter", "garbage", "empty", "nothing", "plain", "no database", "cut", "cut", "corrupted", "corrupted",
		"trailing", "status", "status", "304", "close", "reset", "reset late", "short body", "short chunk", "bad status line", "bad chunk", "loop", "redirect"])
	created_at = t + rng.choice([0, 0, 1, 86400])
	db = dbs.make(created_at)
	z = xz(rng, db)
	deliver, must = None, False
	if kind == "good":
		deliver, must = db, True
		how = rng.choice(["plain", "pieces", "chunked", "no length", "conditional", "conditional"])
		if how == "pieces":
			body = lambda c: pieces(c, rng, z)
		elif how == "chunked":
			ch = chunks(rng, z)
			body = lambda c: respond(c, ch, chunked=True)
		elif how == "no length":
			body = lambda c: respond(c, z, length=False)
		else:
			body = lambda c: respond(c, z)
		if how == "conditional":
			# Published a little later
			server.modified[body] = created_at + rng.choice([1, 60, 600])
		kind = "good, %s" % how
	elif kind == "redirect":
		deliver, must = db, True
		name = "r%d" % rng.getrandbits(32)
		server.behaviour[name] = lambda c: respond(c, z)
		body = lambda c: respond(c, b"", status="302 Found", headers=["Location: %selsewhere" % server.url(name)])
	elif kind == "older":
		if not timestamp:
			# Anything is recent enough
			deliver, must = db, True
		else:
			z = xz(rng, dbs.make(t - rng.choice(older)))
		body = lambda c: respond(c, z)
	elif kind == "other key":
		z = xz(rng, dbs.make(t, "other"))
		body = lambda c: respond(c, z)
	elif kind == "unsigned":
		z = xz(rng, dbs.make(t, None))
		body = lambda c: respond(c, z)
	elif kind == "flipped":
		i = rng.randrange(len(db) * 8)
		# Bits that do not mean anything are not signed, and the signature may well have some
		lo, hi = fmt.OFFSETS["signature1_length"][0], fmt.OFFSETS["padding"][0]
		if lo <= i // 8 < hi:
			i = 8 * 8
		flipped = db[:i // 8] + bytes([db[i // 8] ^ 1 << i % 8]) + db[i // 8 + 1:]
		z = xz(rng, flipped)
		body = lambda c: respond(c, z)
	elif kind == "longer":
		z = xz(rng, db + bytes(rng.choice([1, 4096, 10**6])))
		body = lambda c: respond(c, z)
	elif kind == "shorter":
		z = xz(rng, db[:rng.randrange(0, len(db))])
		body = lambda c: respond(c, z)
	elif kind == "garbage":
		g = rng.randbytes(rng.choice([1, 100, 5000]))
		body = lambda c: respond(c, g)
	elif kind == "no database":
		z = xz(rng, rng.randbytes(rng.choice([1, 100, 5000])))
		body = lambda c: respond(c, z)
	elif kind == "empty":
		z = xz(rng, b"")
		body = lambda c: respond(c, z)
	elif kind == "nothing":
		body = lambda c: respond(c, b"")
	elif kind == "plain":
		body = lambda c: respond(c, db)
	elif kind == "cut":
		# Everything might already be there
		deliver = db
		n = rng.choice([rng.randrange(0, len(z)), rng.randrange(0, len(z)), len(z) - 1])
		body = lambda c: respond(c, z[:n])
	elif kind == "short body":
		deliver = db
		n = rng.randrange(0, len(z))
		body = lambda c: respond(c, z[:n], length=len(z))
	elif kind == "short chunk":
		deliver = db
		ch = chunks(rng, z)
		ch = ch[:rng.randrange(0, len(ch))]
		body = lambda c: respond(c, ch, chunked=True)
	elif kind == "bad chunk":
		body = lambda c: respond(c, b"100\r\n" + z[:256] + b"\r\nfoo\r\n", chunked=True)
	elif kind == "corrupted":
		deliver = db
		i = rng.randrange(0, len(z))
		y = z[:i] + bytes([z[i] ^ rng.randrange(1, 256)]) + z[i + 1:]
		body = lambda c: respond(c, y)
	elif kind == "trailing":
		deliver = db
		extra = rng.choice([b"x", b"\0" * 4, rng.randbytes(5000), z])
		body = lambda c: respond(c, z + extra)
	elif kind == "status":
		status = rng.choice(["404 Not Found", "500 Internal Server Error", "403 Forbidden", "503 Service Unavailable", "410 Gone", "401 Unauthorized"])
		page = rng.choice([b"", b"<html>no</html>", z])
		body = lambda c: respond(c, page, status=status)
	elif kind == "304":
		body = lambda c: respond(c, b"", status="304 Not Modified")
	elif kind == "close":
		body = lambda c: None
	elif kind == "reset":
		body = reset
	elif kind == "reset late":
		n = rng.randrange(0, len(z))
		def body(c):
			respond(c, z[:n], length=len(z))
			time.sleep(0.01)
			reset(c)
		deliver = db
	elif kind == "bad status line":
		line = rng.choice([b"foo\r\n\r\n", b"HTTP/1.1 abc OK\r\n\r\n", b"\0" * 100 + b"\r\n", b"x" * 70000])
		body = lambda c: c.sendall(line)
	elif kind == "loop":
		body = lambda c: respond(c, b"", status="302 Found", headers=["Location: /%s/1/location.db.xz" % name])
		name = "loop%d" % rng.getrandbits(32)
		server.behaviour[name] = body
	return kind, deliver, must, body
