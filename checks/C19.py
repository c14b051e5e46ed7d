"""
Replies of a name server, from perfect ones to noise.
"""
import datetime
import re
import struct
import time

from vlib import build, drv
from vlib.check import Check

DAYS = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
MONTHS = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
TXT, CNAME, A = 16, 5, 1


def stamp(t):
	g = time.gmtime(t)
	return "%s, %02d %s %04d %02d:%02d:%02d GMT" % (DAYS[g.tm_wday], g.tm_mday, MONTHS[g.tm_mon - 1], g.tm_year, g.tm_hour, g.tm_min, g.tm_sec)


def name(s):
	out = b""
	for label in s.split("."):
		out += bytes([len(label)]) + label.encode()
	return out + b"\0"


def rr(owner, type, data, ttl=60, klass=1):
	return owner + struct.pack(">HHIH", type, klass, ttl, len(data)) + data


def strings(*texts):
	return b"".join(bytes([len(t)]) + t for t in texts)


class Packet:
	def __init__(self, rng, version):
		self.rng = rng
		self.domain = "_v%d._db.location.ipfire.org" % version
		self.question = name(self.domain) + struct.pack(">HH", TXT, 1)
		self.answers = b""
		self.count = 0
		self.aliases = 0

	def at(self):
		return 12 + len(self.question) + len(self.answers)

	def owner(self):
		# Compressed, spelled out, or a mixture of both
		return self.rng.choice([b"\xc0\x0c", name(self.domain), b"\x05other\xc0\x0c", b"\x01x" * 3 + b"\xc0\x0c", b"\0"])

	def add(self, type, data, owner=None, **kw):
		self.answers += rr(owner if owner is not None else self.owner(), type, data, **kw)
		self.count += 1

	def cname(self):
		target = self.rng.choice([name("alias.example.com"), b"\x05alias\xc0\x0c", b"\xc0\x0c", name("a" * 60 + "." + "b" * 50), b"", b"junk"])
		self.add(CNAME, target)
		self.aliases += 1

	def bytes(self):
		return struct.pack(">HHHHHH", self.rng.randrange(65536), 0x8180, 1, self.count, 0, 0) + self.question + self.answers


def times(rng):
	return rng.choice([0, 1, 86399, 951782400, 951868799, 1709164800, 2147483647, 2147483648, 4294967296, 253402300799,
		rng.randrange(1 << 31), rng.randrange(1 << 31), rng.randrange(1 << 31), rng.randrange(253402300799)])


def garbage_text(rng):
	good = stamp(times(rng))
	return rng.choice([
		"", " ", "x", "latest", good[:-1], good + "x", good + " x", good[:-4], good[:-3] + "UTC", good[:-3] + "CET", good[:-3] + "+0100", good[1:], good.replace(",", ""),
		good[:5], good[:16], "Xyz" + good[3:], good[:5] + "99" + good[7:], good[:8] + "Foo" + good[11:], good[:17] + "25" + good[19:], good[:20] + "61" + good[22:],
		good[:23] + "99" + good[25:], "1700000000", "2023-11-14T22:13:20Z", good.replace(":", "."), good.replace("GMT", "GM"), good + good,
		"%s", "%n%n%n", "\xff" * 10,
	]).encode("latin-1")


def wellformed(rng, version):
	"""Returns (packet, what is expected)"""
	p = Packet(rng, version)
	for _ in range(rng.choice([0, 0, 0, 1, 2, 5])):
		p.cname()
	t = times(rng)
	kind = rng.choice(["good"] * 6 + ["text", "text", "a", "empty", "nosize", "none"])
	text = stamp(t).encode()
	expected = None
	if kind == "good":
		more = [b"more", b"" if rng.random() < 0.5 else b"x" * rng.randrange(30)] if rng.random() < 0.3 else []
		p.add(TXT, strings(text, *more), ttl=rng.choice([0, 1, 0x7fffffff, 0x80000000, 0xffffffff]))
		expected = t
	elif kind == "text":
		p.add(TXT, strings(garbage_text(rng)))
	elif kind == "a":
		p.add(A, b"\x01\x02\x03\x04")
	elif kind == "empty":
		p.add(TXT, strings(b""))
	elif kind == "nosize":
		p.add(TXT, b"")
	# Whatever follows does not matter
	if kind == "good" and rng.random() < 0.4:
		for _ in range(rng.randrange(1, 4)):
			p.add(rng.choice([TXT, A, 46]), rng.choice([strings(stamp(times(rng)).encode()), b"\x01\x02\x03\x04", rng.randbytes(rng.randrange(60))]))
	return p, kind, expected


def exact(rng, version, size):
	"""A reply whose timestamp ends exactly at the given size"""
	t = times(rng)
	text = strings(stamp(t).encode())
	p = Packet(rng, version)
	missing = size - p.at() - 12 - len(text)
	while missing >= 12:
		n = min(missing - 12, 200)
		if 0 < missing - 12 - n < 12:
			n -= 12
		p.add(CNAME, rng.randbytes(max(n, 0)), owner=b"\xc0\x0c")
		missing = size - p.at() - 12 - len(text)
	if missing:
		# The owner takes what is left
		owner = (b"%c" % (missing - 1) + b"x" * (missing - 1) if missing > 1 else b"") + b"\xc0\x0c"
		if missing == 1:
			owner = b"\x00"
			return None
	else:
		owner = b"\xc0\x0c"
	p.add(TXT, text, owner=owner)
	data = p.bytes()
	return (data, t) if len(data) == size else None


def visible(packet, t):
	"""Is there a string in this packet which can be read as this time?"""
	for i in range(12, len(packet)):
		n = packet[i]
		text = packet[i + 1:i + 1 + n]
		if len(text) == n:
			text = text.split(b"\0")[0].decode("latin-1")
			if loose(text) == t:
				return True
	return False


LOOSE = re.compile(r"\s*([a-z]+)\s*,\s*(\d+)\s*([a-z]+)\s*(\d+)\s*(\d+)\s*:\s*(\d+)\s*:\s*(\d+)\s*GMT\s*", re.I | re.A)


def loose(text):
	"""The format, but as lenient as strptime() is: spaces, case, long names and days which do not exist"""
	m = LOOSE.fullmatch(text)
	if not m or not any(m[1].lower().startswith(d.lower()) for d in DAYS):
		return None
	for i, month in enumerate(MONTHS):
		if m[3].lower().startswith(month.lower()):
			days = datetime.date(2000 + int(m[4]) % 400, i + 1, 1).toordinal() - datetime.date(2000, 1, 1).toordinal() \
				+ 146097 * (int(m[4]) // 400) + datetime.date(2000, 1, 1).toordinal() - 146097 * 5 - datetime.date(1970, 1, 1).toordinal()
			return (days + int(m[2]) - 1) * 86400 + int(m[5]) * 3600 + int(m[6]) * 60 + int(m[7])
	return None


def main():
	c = Check("C19", rule="replies put in place of the system's resolver: well-formed ones with aliases, compression, several strings, times from 1970 to 9999 and unparsable texts, "
		"every truncation, replies of exactly the buffer's size, mutations, loops and noise; distinct are replies")
	binary = build.driver("asan")

	def batch(b):
		rng = c.rng(b)
		s = drv.Script()

		def send(version, packet, judge, stale=b""):
			domain = "_v%d._db.location.ipfire.org" % (version & 0xffffffff)

			def check(out):
				r, t, queries, query = out.split()
				c.count(packet if packet is not None else b"none")
				if queries != "1" or query.lower().rstrip(".") != "%s/1/16" % domain:
					return "expected one query for %s, but got %s" % (domain, query)
				if r == "0":
					c.bump("accepted")
				else:
					c.bump("refused")
				return judge(int(r), int(t))
			s.add("dns", version, "=" + (packet + stale).hex() if packet is not None else "-", len(packet or b""), check=check)

		def must(expected):
			def judge(r, t):
				if expected is None:
					return "a reply without a timestamp was accepted" if r == 0 else None
				if r:
					return "a valid reply was refused"
				return None if t == expected else "the time is %d instead of %d" % (t, expected)
			return judge

		def may(packet):
			def judge(r, t):
				if r == 0 and not visible(packet[:512], t):
					return "a time nobody has sent"
			return judge

		for i in range(c.scale(300, 3000)):
			version = rng.choice([1, 1, 1, 0, 2, 255, 65536, 4294967295])
			p, kind, expected = wellformed(rng, version)
			data = p.bytes()
			if kind == "text":
				send(version, data, may(data) if len(data) <= 512 else must(None))
			elif len(data) > 512:
				send(version, data, must(None))
			else:
				send(version, data, must(expected))
			c.bump("kind " + kind)
			if b == 0 and i < 3:
				c.sample({"reply": data.hex(), "kind": kind, "time": expected})
			if i % 10 == 0 and kind == "good":
				for n in range(len(data)):
					send(version, data[:n], may(data[:n]))
					# The rest is what an earlier reply has left in the buffer
					send(version, data[:n], may(data[:n]), stale=data[n:])
					c.bump("truncations")
			for _ in range(6):
				m = bytearray(data)
				for _ in range(rng.choice([1, 1, 2, 4, 16])):
					k = rng.randrange(len(m))
					m[k] = rng.choice([0, 1, 0x0c, 0x3f, 0x40, 0x7f, 0x80, 0xbf, 0xc0, 0xff, rng.randrange(256), m[k] ^ (1 << rng.randrange(8))])
				if rng.random() < 0.2:
					m = m[:rng.randrange(len(m))]
				if rng.random() < 0.1:
					m += rng.randbytes(rng.randrange(600))
				send(version, bytes(m), may(bytes(m)))
				c.bump("mutations")
		for size in list(range(470, 520)) * c.scale(1, 5):
			x = exact(rng, 1, size)
			if x:
				send(1, x[0], must(x[1] if size <= 512 else None))
				c.bump("exact sizes")
		# A text that claims to reach the end of the buffer, and beyond
		for size in range(500, 513):
			p = Packet(rng, 1)
			n = size - p.at() - 12
			for claim in (n - 2, n - 1, n, n + 1, 255):
				left = n
				data = p.bytes() + rr(b"\xc0\x0c", TXT, bytes([min(255, max(0, claim))]) + b"x" * (left - 1))
				send(1, data[:size], may(data))
		# A text that is longer than its record: what follows belongs to something else
		for short in (1, 2, 5, 20, 28):
			text = strings(stamp(times(rng)).encode())
			head = b"\xc0\x0c" + struct.pack(">HHIH", TXT, 1, 60, len(text) - short)
			for tail, stale in ((b"", b""), (text[-short:], b""), (b"", text[-short:]), (text[-short:] + rr(b"\xc0\x0c", A, b"1234"), b"")):
				p = Packet(rng, 1)
				if rng.random() < 0.5:
					p.cname()
				p.count += 1
				data = p.bytes() + head + text[:-short] + tail
				if len(data) <= 512:
					send(1, data, must(None), stale=stale)
					c.bump("texts longer than their record")
		# Records which are cut off at the end of the largest possible reply
		for left in range(0, 16):
			p = Packet(rng, 1)
			while 512 - p.at() - left >= 12:
				n = min(512 - p.at() - left - 12, 200)
				if 0 < 512 - p.at() - left - 12 - n < 12:
					n -= 12
				p.add(CNAME, rng.randbytes(max(n, 0)), owner=b"\xc0\x0c")
			data = (p.bytes() + b"\xc0\x0c" + struct.pack(">HHIH", TXT, 1, 60, 30) + strings(stamp(times(rng)).encode()))[:512]
			send(1, data, may(data))
			c.bump("cut off at the end of the buffer")
		for _ in range(c.scale(200, 1500)):
			data = rng.choice([rng.randbytes(rng.randrange(0, 600)), b"\xc0" * rng.randrange(1, 512), b"\xc0\x0c" * rng.randrange(1, 256), bytes(rng.randrange(512)), b"\xff" * rng.randrange(600)])
			send(1, data, may(data))
			c.bump("noise")
		send(1, None, must(None))
		send(1, b"", must(None))
		send(1, bytes(60000), must(None))
		# The timestamp is in GMT wherever this runs
		c.run_script(binary, s, env={"TZ": ["UTC", "EST5EDT,M3.2.0,M11.1.0", "XXX-5:30", "LHST-10:30LHDT-11,M10.1.0,M4.1.0"][b % 4]})
	c.parallel(batch, range(16))
	return c.finish()
