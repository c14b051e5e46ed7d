"""
How harness programs in Python report (see vlib/script.py)
"""
import sys
import traceback

counts = 0


def count(key=None, n=1):
	global counts
	counts += n
	if key is not None:
		print("@KEY %s" % repr(key).replace("\n", " "))


def bump(name, n=1):
	print("@BUMP %s %d" % (name, n))


def sample(s):
	print("@SAMPLE %s" % repr(s)[:1400])


def violation(key, what=""):
	print("@VIOLATION %s\t%s" % (key.replace("\n", " "), repr(what)[:3000]))
	sys.stdout.flush()


def unexpected(where):
	"""Reports the current exception"""
	e = sys.exc_info()[1]
	violation("%s: unexpected %s" % (where, type(e).__name__), traceback.format_exc())


def done():
	print("@COUNT %d" % counts)
	print("@DONE")
	sys.stdout.flush()
