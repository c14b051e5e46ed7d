"""
The location command, compared with the model.
"""
import os

from vlib import build, keys, script
from vlib.check import Check


def main():
	c = Check("C24", rule="the unmodified location command runs all of its queries against random databases; standard output is parsed and compared with the model, exit codes with what was asked for, and exceptions and tracebacks are reported; "
		"in some cases it runs as a process whose output goes to new and existing files, pipes and a full device; distinct: queries with a non-empty answer",
		assumptions=["vendor and license are single lines", "names do not have line breaks"])
	d = build.shared("plain")
	program = os.path.join(build.HARNESS, "cliuse.py")
	c.parallel(lambda i: script.run(c, d, "python", program, [c.seed, i, c.scratch, keys.DIR, os.path.join(d, "bin", "location")],
		extra_env={"TZ": ["UTC", "EST5EDT,M3.2.0,M11.1.0", "<+1245>-12:45", "", ":/nonexistent"][i % 5]}), range(c.scale(200, 3000)))
	return c.finish()
