#!/usr/bin/python3
"""
run.py <property>: runs the check of one property. VERIF_TIER and VERIF_SEED select depth and randomness.
"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from vlib import build, check


def main():
	prop = sys.argv[1]
	if len(sys.argv) > 2:
		os.environ["VERIF_TIER"] = sys.argv[2]
	module = importlib.import_module("checks.%s" % prop)
	try:
		return module.main()
	except build.BuildError as e:
		print("ERROR property=%s could not build: %s" % (prop, e))
		return 3
	except Exception:
		traceback.print_exc(file=sys.stdout)
		c = check.Check.current
		if c and c.violations:
			# Nothing could be judged after what has been found
			return c.finish()
		print("ERROR property=%s the check itself failed" % prop)
		return 4


if __name__ == "__main__":
	sys.exit(main())
