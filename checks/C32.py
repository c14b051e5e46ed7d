"""
Where messages go, and that nothing else depends on them.
"""
import os
import re

from vlib import build, dbs, drv, gen
from vlib.check import Check
from vlib.drv import h, unh, split_items

from checks import C10

LEVELS = [-1, 0, 2, 3, 3, 4, 5, 6, 6, 7, 7]


class Message:
	def __init__(self, t):
		self.priority, self.tag, self.ctx = int(t[0]), int(t[1]), int(t[2])
		self.fn, self.text = unh(t[3]), unh(t[4])

	@property
	def key(self):
		return self.priority, self.ctx, scrub(self.text)


def scrub(text):
	"""Without what is different in every process"""
	text = re.sub(r"(?m)^((?:libloc: \w+: )?)  [0-9a-f]{4}( ( [0-9a-f]{2}|   ){16}) .*$", r"\1H", text)
	return re.sub(r"0x[0-9a-f]+|\(nil\)", "P", re.sub(r"\d+\.\d+|\d+(?= byte)", "F", text))


def prelude(hist, rng, s):
	for k in range(3):
		def extra(s):
			for n in gen.ASNS:
				s.add("was", 3, 60000, n, h(rng.choice(gen.STRINGS)))
			for cc in gen.COUNTRIES[:8]:
				s.add("wctry", 3, 60000, h(cc), h("EU"), h(rng.choice(gen.STRINGS)))
		dbs.write(s, rng, {**hist.nets, **gen.networks(rng, small=True)}, hist.path(k), w=3, db=10 + k, extra=extra)
		s.add("dunref", 10 + k)
		s.add("nunref", 60000)
		s.add("aunref", 60000)
		s.add("cunref", 60000)


def plan(c, rng, i):
	"""A history of calls, with contexts, receivers and levels that change: ("new",), ("level", n), ("receiver", tag) or ("call", line)"""
	hist = C10.History(c, rng, c.scratch, "l%d" % i)
	prelude(hist, rng, hist.s)
	for _ in range(120):
		hist.one()
	hist.s.add("free", rng.choice(C10.ORDER))
	out = [("new",), ("level", rng.choice(LEVELS))]
	for line in hist.s.lines:
		w = line.split()[0]
		if w == "ctxswap":
			out += [("new",), ("level", rng.choice(LEVELS))]
		elif w == "log":
			out.append(("level", rng.choice(LEVELS)))
		elif w == "ldump":
			out += [("call", "lall %s" % line.split()[1]), ("call", line)]
		else:
			out.append(("call", line))
		if rng.random() < 0.04:
			out.append(("level", rng.choice(LEVELS)))
		if rng.random() < 0.1:
			k = rng.randrange(4)
			out += [("call", "lall %d" % k), ("call", "ldump %d" % k)]
		if rng.random() < 0.04:
			# Another receiver; -2 is the log function
			out.append(("receiver", rng.choice([-2, *range(1000, 1010)])))
	return hist, out


def execute(c, binary, steps, how, levels=True, env=None):
	"""Returns (the answers, the messages after each step); how: callback, function or stderr"""
	s = drv.Script()
	at = []
	contexts = 0
	for kind, *args in steps:
		if kind == "new":
			at.append(s.add("ctxnew"))
			if how == "callback":
				s.add("logcb", contexts)
			elif how == "function":
				s.add("logfn")
			if not levels:
				s.add("log", 7)
			contexts += 1
		elif kind == "level":
			at.append(s.add("log", args[0] if levels else 7))
		elif kind == "receiver":
			if how != "callback":
				at.append(s.add("echo"))
			elif args[0] == -2:
				at.append(s.add("logfn"))
			else:
				at.append(s.add("logcb", args[0]))
		else:
			at.append(s.add(args[0]))
		if how == "stderr":
			s.add("logmark", len(at))
		else:
			s.add("logs")
	r = c.run_script(binary, s, timeout=120, env=env)
	if r.returncode or r.timeout or len(r.lines) < len(s.lines):
		return None
	answers = [r.lines[n] for n in at]
	if how == "stderr":
		received = re.split(r"@MARK \d+@\n", r.stderr)
		if len(received) != len(at) + 1:
			return None
		return answers, received[:-1], s
	received = []
	for line, out in zip(s.lines, r.lines):
		if line == "logs":
			received.append([Message(t) for t in split_items(out)[1]])
	return answers, received, s


def receivers(c, steps, received, s):
	"""Each message reaches what has been set last for its context"""
	tag, current = {}, -1
	for step, messages in zip(steps, received):
		if step[0] == "new":
			current += 1
			tag[current] = current
		elif step[0] == "receiver":
			tag[current] = step[1]
			continue
		for m in messages:
			if m.ctx < 0 or m.tag != tag[m.ctx]:
				c.violation("a message reaches another receiver than that of its context", (step, m.tag, tag, m.ctx, m.fn, m.text), "\n".join(s.lines))


def case(c, debug, asan, i):
	rng = c.rng("log", i)
	hist, steps = plan(c, rng, i)

	def clean():
		dbs.cleanup(*[hist.path(k) for k in range(10)], *[hist.path(k) + ".new" for k in range(10)])

	# Everything there is
	full = execute(c, debug, steps, "callback", levels=False)
	clean()
	if not full:
		return
	answers, everything, s = full
	receivers(c, steps, everything, s)
	for m in (m for ms in everything for m in ms):
		c.count()
		if not 0 <= m.priority <= 7:
			c.violation("a message has no valid priority", (m.priority, m.fn, m.text), "\n".join(s.lines))
	c.bump("messages", sum(len(ms) for ms in everything))

	# A list that is dumped
	for k, step in enumerate(steps):
		if step[0] == "call" and step[1].startswith("ldump") and answers[k].startswith("ok"):
			head, items = split_items(answers[k - 1])
			want = [t[0] for t in items]
			got = [w for m in everything[k] if m.priority == 6 for w in re.split(r"[\s,:]*\s", m.text) if "/" in w]
			c.count(("dump", len(want)) if want else None)
			if got != want:
				c.violation("a list is not dumped", (got, want), "\n".join(s.lines))

	runs = [(debug, "callback", 7), (debug, "function", 7), (asan, "callback", 6), (asan, "function", 6), (debug, "stderr", 7), (asan, "stderr", 6)]
	for binary, how, ceiling in rng.sample(runs, 2):
		got = execute(c, binary, steps, how)
		clean()
		if not got:
			continue
		answers2, received, s = got
		level, current = {}, -1
		for k, step in enumerate(steps):
			# The settings at the time of the call
			was = dict(level)
			if step[0] == "new":
				current += 1
				level[current] = 3
				was[current] = -99
				if answers2[k] != "0 3":
					c.violation("a new context does not have the documented priority", answers2[k], "\n".join(s.lines))
			elif step[0] == "level":
				level[current] = step[1]
				if answers2[k].split()[:2] != ["ok", str(step[1])]:
					c.violation("the priority is not what it has been set to", answers2[k], "\n".join(s.lines))
			elif step[0] == "call" and step[1].split()[0] not in ("dmeta", "fds") and answers2[k] != answers[k]:
				c.violation("results depend on what is logged", (step, answers[k][:500], answers2[k][:500]), "\n".join(s.lines))
			want = [m for m in everything[k] if m.priority <= min(was.get(m.ctx, -99), ceiling)]
			if step[0] != "call" and step[0] != "new":
				continue
			c.count((how, ceiling, step[-1].split()[0], tuple(sorted({m.priority for m in want}))) if want else None)
			if how == "stderr":
				rest = scrub(received[k])
				for m in want:
					before, found, rest = rest.partition(scrub(m.text))
					if not found:
						c.violation("a message is not printed", (step, m.text, received[k][:500]), "\n".join(s.lines))
						break
					if "\n" in before:
						c.violation("a message is printed which should not", (step, before), "\n".join(s.lines))
				else:
					if rest:
						c.violation("a message is printed which should not", (step, rest[:500]), "\n".join(s.lines))
				continue
			if [m.key for m in received[k]] != [m.key for m in want]:
				c.violation("other messages than those of the priority are received (%s)" % how, (step, level, [m.key for m in received[k]], [m.key for m in want]), "\n".join(s.lines))
		if how == "callback":
			receivers(c, steps, received, s)
		c.bump("runs: %s" % how)


def environment(c, debug, asan):
	values = {None: 3, **{str(n): n for n in range(8)}, "err": 3, "info": 6, "debug": 7}
	for value, want in values.items():
		for binary, ceiling in ((debug, 7), (asan, 6)):
			env = {} if value is None else {"LOC_LOG": value}
			s = drv.Script()
			s.add("ctxnew", check=lambda out: None if out == "0 %d" % want else "LOC_LOG is not respected")
			s.add("nn", 1, h("foo"))
			s.add("nn", 1, h("10.0.0.0/8"))
			r = c.run_script(binary, s, env=env)
			c.count(("environment", value, ceiling))
			said = bool(r.stderr)
			if said != (want >= 3):
				c.violation("LOC_LOG is not respected by messages", (value, r.stderr[:500]), "\n".join(s.lines))


def main():
	c = Check("C32", rule="histories of API calls over several contexts are executed with all messages captured, and again with other levels, which change at any time, with a callback, a log function or neither; "
		"after each call, what has been received is compared with the messages of that call that have at most the priority of their context; results are compared between the executions. Distinct: calls that logged something, by how and with which priorities",
		assumptions=["addresses and measured times in messages are not compared"])
	asan, debug = build.driver("asan"), build.driver("asan", extra=["-DENABLE_DEBUG"])
	environment(c, debug, asan)
	c.parallel(lambda i: case(c, debug, asan, i), range(c.scale(150, 2500)))
	return c.finish()
