"""
Updates of an installed database, watched, interrupted and disturbed.
"""
import os

from vlib import build, keys, script
from vlib.check import Check


def main():
	c = Check("C26", rule="location update runs against mirrors on the loopback interface; a preloaded library sees every call that changes a file in the directory of the database and records the state of the installed file before and after "
		"each of them; updates are repeated with the process being killed, interrupted or the call failing at chosen events; a reader keeps the old database open; distinct: scenarios, and combinations of event, disturbance and outcome",
		assumptions=["the process is interrupted, not the machine: what has been written reaches the disk", "rename() of the operating system is atomic"])
	d = build.shared("plain")
	shim = build.preload()
	program = os.path.join(build.HARNESS, "updateuse.py")
	c.parallel(lambda i: script.run(c, d, "python", program, [c.seed, i, c.scratch, keys.DIR, os.path.join(d, "bin", "location"), shim, *(["deep"] if c.thorough else [])], timeout=800,
		extra_env={"TZ": ["UTC", "<+1245>-12:45", "EST5EDT,M3.2.0,M11.1.0"][i % 3]}), range(c.scale(40, 160)))
	return c.finish()
