"""
Exports, read back and compared with the model.
"""
import os

from vlib import build, script
from vlib.check import Check


def main():
	c = Check("C23", rule="random databases are exported for random sets of countries, special codes and ASNs in every format, for one or both families, into a directory and to standard output; each file is parsed strictly and "
		"its ranges are compared with the effective networks of the model; distinct: combinations of format, family and a non-empty set of addresses",
		assumptions=["no network has the reserved country code XD"])
	d = build.shared("plain")
	program = os.path.join(build.HARNESS, "exportuse.py")
	c.parallel(lambda i: script.run(c, d, "python", program, [c.seed, i, c.scratch]), range(c.scale(600, 6000)))
	return c.finish()
