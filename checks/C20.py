"""
The Python module, used and misused under AddressSanitizer.
"""
import os

from vlib import build, keys, script
from vlib.check import Check


def main():
	c = Check("C20", rule="random databases are written and read with the Python module in an interpreter that runs under AddressSanitizer, and every answer is compared with the model; then every attribute "
		"and method is called with random values, where only exceptions other than SystemError are accepted; LeakSanitizer reports are searched for memory of the module; distinct: filters that match some but not all networks, "
		"network pairs with a difference, and combinations of a call and its outcome",
		assumptions=["objects have been initialised by their own constructor", "strings do not have NUL characters inside"])
	d = build.shared("asan")
	program = os.path.join(build.HARNESS, "pyuse.py")

	def case(i):
		mode = "misuse" if i % 3 == 2 else "use"
		script.run(c, d, "python", program, [mode, c.seed, i, c.scratch, keys.DIR])
	c.parallel(case, range(c.scale(72, 600)))
	return c.finish()
