"""
Downloads from mirrors that are broken in many ways.
"""
import os

from vlib import build, keys, script
from vlib.check import Check


def main():
	c = Check("C25", rule="the downloader runs against up to six mirrors on the loopback interface, each of which answers in one of some thirty ways; the server logs who has been asked, and the outcome - the file that is delivered or the exception - "
		"is judged by what the mirrors had; temporary files are listed afterwards; distinct: sequences of answers that have been seen together with the outcome",
		assumptions=["mirrors that never answer are not part of the workload", "there is no proxy"])
	d = build.shared("plain")
	program = os.path.join(build.HARNESS, "fetchuse.py")
	c.parallel(lambda i: script.run(c, d, "python", program, [c.seed, i, c.scratch, keys.DIR],
		extra_env={"TZ": ["UTC", "<+1245>-12:45", "EST5EDT,M3.2.0,M11.1.0"][i % 3]}), range(c.scale(60, 1500)))
	return c.finish()
