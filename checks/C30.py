"""
The rules by which the importer compiles a database.
"""
import os

from vlib import build, keys, script
from vlib.check import Check


def main():
	c = Check("C30", rule="the tables of the importer are filled at random with entries that overlap in every way; location-importer write compiles a database; the library answers for addresses at every boundary, and the answers are compared with the rules; "
		"distinct: combinations of sources, signatures",
		assumptions=["PostgreSQL is represented by SQLite with translated statements", "two entries of the same kind for exactly the same network are not generated, as nothing says which one wins"])
	d = build.shared("plain")
	program = os.path.join(build.HARNESS, "compileuse.py")
	c.parallel(lambda i: script.run(c, d, "python", program, [c.seed, i, c.scratch, os.path.join(d, "bin", "location-importer"), keys.DIR], timeout=800, leak=False), range(c.scale(500, 4000)))
	return c.finish()
