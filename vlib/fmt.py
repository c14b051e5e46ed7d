"""
The file format, for taking databases apart and for making broken ones.
"""
import struct

MAGIC = b"LOCDBXX\x01"
HEADER = struct.Struct(">QIIIIIIIIIIIIIHH2048s2048s32s")
START = len(MAGIC)
BODY = START + HEADER.size
FIELDS = ["created_at", "vendor", "description", "license", "as_offset", "as_length", "network_data_offset", "network_data_length",
	"network_tree_offset", "network_tree_length", "countries_offset", "countries_length", "pool_offset", "pool_length",
	"signature1_length", "signature2_length", "signature1", "signature2", "padding"]
SIGMAX = 2048

OFFSETS = {}
_at = START
for _n, _size in zip(FIELDS, [8] + [4] * 13 + [2, 2, 2048, 2048, 32]):
	OFFSETS[_n] = (_at, _size)
	_at += _size
assert _at == BODY


def header(data):
	return dict(zip(FIELDS, HEADER.unpack(data[START:BODY])))


def build(h, body, magic=MAGIC):
	return magic + HEADER.pack(*[h[f] for f in FIELDS]) + body


def set_field(data, name, value):
	at, size = OFFSETS[name]
	if not isinstance(value, bytes):
		value = (value & ((1 << (8 * size)) - 1)).to_bytes(size, "big")
	value = value[:size].ljust(size, b"\0")
	return data[:at] + value + data[at + size:]


def signed_content(data):
	"""What signatures are made of"""
	out = data
	for f in ("signature1_length", "signature2_length", "signature1", "signature2"):
		out = set_field(out, f, b"")
	return out


def signature(data, slot):
	h = header(data)
	return h["signature%d" % slot][:h["signature%d_length" % slot]]


def set_signature(data, slot, sig, length=None):
	data = set_field(data, "signature%d" % slot, sig)
	return set_field(data, "signature%d_length" % slot, len(sig) if length is None else length)
