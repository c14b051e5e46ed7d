"""
Runs "location update" with other mirrors, and with a fixed answer of the name server.

updaterun.py <command> <mirrors, separated by commas> <announced version or -> <arguments>...
"""
import logging
import sys

logging.raiseExceptions = False

command, mirrors, version = sys.argv[1:4]

import location
import location.downloader

location.downloader.MIRRORS = tuple(mirrors.split(","))
init = location.downloader.Downloader.__init__


def other_mirrors(self, *args, **kwargs):
	if len(args) < 2 and not kwargs.get("mirrors"):
		kwargs["mirrors"] = mirrors.split(",")
	init(self, *args, **kwargs)


location.downloader.Downloader.__init__ = other_mirrors
location.discover_latest_version = lambda *args: None if version == "-" else int(version)

sys.argv = [command, *sys.argv[4:]]
with open(command) as f:
	code = compile(f.read(), command, "exec")
exec(code, {"__name__": "__main__", "__file__": command})
