"""
Keys for signing. They are fixed, so that runs can be repeated.
"""
import os
import threading

from . import build

DIR = os.path.join(build.HARNESS, "keys")

# Keys that can make signatures
SIGNING = ["prime256v1", "other", "secp384r1", "secp521r1", "secp256k1", "brainpoolP256r1", "rsa2048", "rsa4096", "rsapss", "rsatrad", "sec1", "dsa"]
EC = ["prime256v1", "other", "secp384r1", "secp521r1", "secp256k1", "brainpoolP256r1", "sec1"]

# Keys that cannot sign anything in several steps (or at all)
USELESS = ["ed25519", "ed448", "x25519", "dh"]


def private(name):
	return os.path.join(DIR, name + ".pem")


def public(name):
	return os.path.join(DIR, name + ".pub")


def junk(directory):
	"""Files which are not public keys"""
	with open(public("prime256v1"), "rb") as f:
		key = f.read()
	out = [private("prime256v1"), public("x25519")]
	for i, content in enumerate([b"", b"junk", key[:len(key) // 2], key.replace(b"-----BEGIN", b"-----BEGUN"), b"-----BEGIN PUBLIC KEY-----\nAAAA\n-----END PUBLIC KEY-----\n", bytes(range(256)) * 8]):
		path = os.path.join(directory, "junk%d.pub" % i)
		if not os.path.exists(path):
			# Several threads and processes do this at once
			temporary = "%s.%d-%d" % (path, os.getpid(), threading.get_ident())
			with open(temporary, "wb") as f:
				f.write(content)
			os.rename(temporary, path)
		out.append(path)
	return out
