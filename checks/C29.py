"""
The importer, with records that are good, inadmissible, malformed and damaged.
"""
import os

from vlib import build, script
from vlib.check import Check


def main():
	c = Check("C29", rule="location-importer runs with a stand-in for its PostgreSQL server that enforces the types and constraints of its tables, for the web and for the routing daemon; it gets records that are good (and whose rows are known), inadmissible, malformed "
		"and damaged at random, in every format it reads; every good record must have been stored, and nothing that is inadmissible; distinct: kinds of records and cases",
		assumptions=["PostgreSQL is represented by SQLite with translated statements"])
	d = build.shared("plain")
	program = os.path.join(build.HARNESS, "importuse.py")
	c.parallel(lambda i: script.run(c, d, "python", program, [c.seed, i, c.scratch, os.path.join(d, "bin", "location-importer")], timeout=800, leak=False), range(c.scale(240, 1500)))
	return c.finish()
