"""
Histories of imports.
"""
import os

from vlib import build, script
from vlib.check import Check


def main():
	c = Check("C31", rule="random sequences of the commands of location-importer, in which sources change, fail and come back while time passes; after every command, all tables are compared with a model of what has to be there; distinct: histories, commands and whether they fail",
		assumptions=["PostgreSQL is represented by SQLite with translated statements", "registries have different address space and AS numbers"])
	d = build.shared("plain")
	program = os.path.join(build.HARNESS, "historyuse.py")
	c.parallel(lambda i: script.run(c, d, "python", program, [c.seed, i, c.scratch, os.path.join(d, "bin", "location-importer")], timeout=800, leak=False), range(c.scale(250, 1500)))
	return c.finish()
