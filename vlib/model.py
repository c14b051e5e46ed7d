"""
Reference model: addresses are integers in the 128 bit space, IPv4 is mapped to ::ffff:0:0/96.

A network is a pair (first address, raw prefix); IPv4 networks have raw prefixes 96..128.
"""
import collections
import ipaddress
import socket

V4BASE = 0xffff << 32
V4LAST = V4BASE + (1 << 32) - 1
MAX = (1 << 128) - 1

Props = collections.namedtuple("Props", "cc asn flags")

FLAGS = {"A1": 1, "A2": 2, "A3": 4, "XD": 8}


def mask(prefix):
	return MAX ^ ((1 << (128 - prefix)) - 1)


def is_v4(net):
	return V4BASE <= net[0] <= V4LAST and net[1] >= 96


def addr_is_v4(a):
	return V4BASE <= a <= V4LAST


def last(net):
	return net[0] | ((1 << (128 - net[1])) - 1)


def make(addr, prefix):
	return (addr & mask(prefix), prefix)


def addr_text(a):
	if addr_is_v4(a):
		return socket.inet_ntop(socket.AF_INET, (a - V4BASE).to_bytes(4, "big"))
	return socket.inet_ntop(socket.AF_INET6, a.to_bytes(16, "big"))


def text(net):
	if is_v4(net):
		return "%s/%d" % (addr_text(net[0]), net[1] - 96)
	return "%s/%d" % (addr_text(net[0]), net[1])


def v4(s):
	n = ipaddress.IPv4Network(s, strict=False)
	return (V4BASE + int(n.network_address), n.prefixlen + 96)


def v6(s):
	n = ipaddress.IPv6Network(s, strict=False)
	return (int(n.network_address), n.prefixlen)


def contains(net, addr):
	return net[0] == addr & mask(net[1])


def is_subnet(outer, inner):
	return outer[1] <= inner[1] and inner[0] & mask(outer[1]) == outer[0]


def overlaps(a, b):
	return is_v4(a) == is_v4(b) and a[0] <= last(b) and b[0] <= last(a)


def touches_v4(net):
	"""an IPv6 network which covers (parts of) the space of IPv4 mapped addresses"""
	return not is_v4(net) and net[0] <= V4LAST and last(net) >= V4BASE


def family(net):
	return 4 if is_v4(net) else 6


def same_family(net, addr):
	return is_v4(net) == addr_is_v4(addr)


class LPM:
	"""Longest prefix match over a dictionary of networks, families kept apart"""
	def __init__(self, nets):
		self.nets = dict(nets)
		self.prefixes = sorted({(n[1], is_v4(n)) for n in self.nets}, reverse=True)

	def match(self, addr):
		f = addr_is_v4(addr)
		for p, fam in self.prefixes:
			if fam != f:
				continue
			key = (addr & mask(p), p)
			if key in self.nets and is_v4(key) == fam:
				return key
		return None

	def matches(self, addr):
		f = addr_is_v4(addr)
		return [(addr & mask(p), p) for p, fam in self.prefixes if fam == f and (addr & mask(p), p) in self.nets
			and is_v4((addr & mask(p), p)) == fam]


def segments(nets, fam):
	"""
		The effective properties of a set of networks as maximal runs:
		a list of (first, last, network) of the most specific network, sorted, gaps left out.
	"""
	nets = {n: p for n, p in nets.items() if family(n) == fam}
	points = set()
	for n in nets:
		points.add(n[0])
		points.add(last(n) + 1)
	points = sorted(points)
	lpm = LPM(nets)
	result = []
	for a, b in zip(points, points[1:]):
		m = None
		for p, f in lpm.prefixes:
			key = (a & mask(p), p)
			if key in nets:
				m = key
				break
		if m:
			result.append((a, b - 1, m))
	return result


def runs(segs, key):
	"""Joins adjacent segments with the same key(network): [(first, last, key)]"""
	out = []
	for a, b, n in segs:
		k = key(n)
		if out and out[-1][1] + 1 == a and out[-1][2] == k:
			out[-1] = (out[-1][0], b, k)
		else:
			out.append((a, b, k))
	return out


def space(fam):
	return (V4BASE, V4LAST) if fam == 4 else (0, MAX)


def complement(ranges, fam):
	lo, hi = space(fam)
	out = []
	at = lo
	for a, b in sorted(ranges):
		if a > at:
			out.append((at, a - 1))
		at = max(at, b + 1)
	if at <= hi:
		out.append((at, hi))
	return out


def union(ranges):
	out = []
	for a, b in sorted(ranges):
		if out and a <= out[-1][1] + 1:
			out[-1] = (out[-1][0], max(out[-1][1], b))
		else:
			out.append((a, b))
	return out
