"""
A stand-in for the PostgreSQL server of the importer.

The data are in SQLite. The statements are translated: column types and constraints of PostgreSQL become checks, inet operators become functions,
DISTINCT ON becomes a window function, and so on. A statement that cannot be translated raises Unsupported, and the case is not judged.
As with PostgreSQL, a transaction in which a statement has failed accepts no other statement.
"""
import contextlib
import ipaddress
import json
import re
import sqlite3
import threading

import psycopg

# Where the data are, and what time it is there
path = None
clock = 1_700_000_000

# What has been seen
statements = 0
shapes = set()
failures = []
unsupported = []


class Unsupported(Exception):
	pass


def reset(where):
	global path, clock
	path = where
	clock = 1_700_000_000
	failures.clear()
	unsupported.clear()


# inet

def inet(value):
	if value is None:
		return None
	text = str(value).strip()
	try:
		i = ipaddress.ip_interface(text)
	except ValueError:
		raise ValueError("invalid input syntax for type inet: %r" % (text,))
	if "%" in text:
		raise ValueError("invalid input syntax for type inet: %r" % (text,))
	return "%s/%d" % (i.ip, i.network.prefixlen)


_cache = {}


def net(text):
	try:
		return _cache[text]
	except KeyError:
		pass
	n = ipaddress.ip_interface(text).network
	r = _cache[text] = (n.version, int(n.network_address), int(n.broadcast_address), n.prefixlen)
	if len(_cache) > 100000:
		_cache.clear()
	return r


def masklen(a):
	return None if a is None else net(a)[3]


def family(a):
	return None if a is None else net(a)[0]


def within(a, b):
	"""a <<= b"""
	if a is None or b is None:
		return None
	a, b = net(a), net(b)
	return int(a[0] == b[0] and b[1] <= a[1] and a[2] <= b[2])


def strictly_within(a, b):
	"""a << b"""
	r = within(a, b)
	return r if not r else int(net(a)[3] > net(b)[3])


OPERATORS = {"<<=": ("inet_within", False), "<<": ("inet_strictly", False), ">>=": ("inet_within", True), ">>": ("inet_strictly", True)}


# Statements

def strip_comments(sql):
	return re.sub(r"--[^\n]*", " ", sql)


def split(sql):
	"""Statements of a text"""
	out, cur, quote = [], "", None
	for ch in sql:
		if quote:
			cur += ch
			if ch == quote:
				quote = None
		elif ch in "'\"":
			quote = ch
			cur += ch
		elif ch == ";":
			out.append(cur)
			cur = ""
		else:
			cur += ch
	out.append(cur)
	return [s.strip() for s in out if s.strip()]


def top_level(text, separator=","):
	"""Splits at the separators that are not in parentheses"""
	out, cur, depth = [], "", 0
	for ch in text:
		depth += (ch == "(") - (ch == ")")
		if ch == separator and depth == 0:
			out.append(cur)
			cur = ""
		else:
			cur += ch
	out.append(cur)
	return [s.strip() for s in out if s.strip()]


def closing(text, start):
	"""The position of the parenthesis that closes the one at start"""
	depth = 0
	for i in range(start, len(text)):
		depth += (text[i] == "(") - (text[i] == ")")
		if depth == 0:
			return i
	raise Unsupported("unbalanced parentheses")


def find_word(text, word, start=0):
	"""Position of a keyword outside parentheses, after start; -1 if there is none"""
	depth = 0
	i = start
	pattern = re.compile(word.replace(" ", r"\s+") + r"\b", re.I)
	while i < len(text):
		ch = text[i]
		if ch == "(":
			depth += 1
		elif ch == ")":
			depth -= 1
			if depth < 0:
				return -1
		elif depth == 0 and (i == 0 or not (text[i - 1].isalnum() or text[i - 1] in "_.")) and pattern.match(text, i):
			return i
		elif ch == "'":
			i = text.index("'", i + 1)
		i += 1
	return -1


def column(definition):
	"""A column of PostgreSQL for SQLite: (name, definition)"""
	m = re.match(r"(\w+)\s+(.*)$", definition, re.S)
	if not m:
		raise Unsupported("column %r" % definition)
	name, rest = m[1], " ".join(m[2].split())
	low = rest.lower()
	extra = ""
	if "not null" in low:
		extra += " NOT NULL"
	if "primary key" in low:
		extra += " PRIMARY KEY"
	m = re.search(r"references\s+(\w+)\s*\((\w+)\)(\s+on\s+delete\s+cascade)?", low)
	if m:
		extra += " REFERENCES %s(%s)%s" % (m[1], m[2], " ON DELETE CASCADE" if m[3] else "")
	if "current_timestamp" in low:
		extra += " DEFAULT (pg_now())"
	t = low.split()[0]
	if t == "serial":
		return name, "serial", "%s INTEGER%s" % (name, extra)
	limit = {"bigint": 63, "int8": 63, "integer": 31, "int": 31, "int4": 31, "smallint": 15}.get(t)
	if limit:
		return name, "integer", "%s INTEGER%s CHECK (%s IS NULL OR (typeof(%s) = 'integer' AND %s BETWEEN %d AND %d))" % (name, extra, name, name, name, -2**limit, 2**limit - 1)
	if t == "inet" or t == "cidr":
		return name, "inet", "%s TEXT%s CHECK (%s IS NULL OR inet_valid(%s))" % (name, extra, name, name)
	if t == "text" or t.startswith("varchar") or t == "text[]":
		return name, t, "%s TEXT%s" % (name, extra)
	if t == "boolean":
		return name, "boolean", "%s INTEGER%s CHECK (%s IS NULL OR %s IN (0, 1))" % (name, extra, name, name)
	if t.startswith("timestamp"):
		return name, "timestamp", "%s INTEGER%s" % (name, extra)
	raise Unsupported("type %r" % t)


class Connection:
	def __init__(self):
		self.autocommit = False
		self.row_factory = None
		self.depth = 0
		self.failed = False
		self.drop = []
		self.db = db = sqlite3.connect(path, isolation_level=None, check_same_thread=False, timeout=5)
		db.execute("PRAGMA foreign_keys = ON")
		db.execute("PRAGMA synchronous = OFF")
		db.execute("PRAGMA journal_mode = WAL")
		db.row_factory = sqlite3.Row
		for name, n, fn in (("inet", 1, inet), ("masklen", 1, masklen), ("family", 1, family), ("inet_within", 2, within), ("inet_strictly", 2, strictly_within),
				("inet_valid", 1, lambda a: int(inet(a) == a))):
			db.create_function(name, n, fn, deterministic=True)
		db.create_function("pg_now", 0, lambda: clock)

	def columns(self, table):
		return {r["name"]: r["type"] for r in self.db.execute("SELECT name, type FROM pg_columns WHERE tab = ?", (table,))}

	def close(self):
		self.db.close()

	# What psycopg offers

	@contextlib.contextmanager
	def cursor(self, *args, **kwargs):
		yield Cursor(self)

	@contextlib.contextmanager
	def pipeline(self):
		yield self

	@contextlib.contextmanager
	def transaction(self, *args, **kwargs):
		outer = self.depth == 0
		name = "sp%d" % self.depth
		self.db.execute("BEGIN" if outer else "SAVEPOINT %s" % name)
		self.depth += 1
		try:
			yield self
			if self.failed:
				raise psycopg.InFailedSqlTransaction("current transaction is aborted")
		except BaseException:
			if self.db.in_transaction:
				if outer:
					self.db.execute("ROLLBACK")
				else:
					self.db.execute("ROLLBACK TO %s" % name)
					self.db.execute("RELEASE %s" % name)
			self.failed = False
			raise
		else:
			if outer:
				for t in self.drop:
					self.db.execute("DROP TABLE IF EXISTS temp.%s" % t)
					self.db.execute("DELETE FROM pg_columns WHERE tab = ?", (t,))
				self.drop = []
				self.db.execute("COMMIT")
			else:
				self.db.execute("RELEASE %s" % name)
		finally:
			self.depth -= 1
			if outer:
				self.drop = []

	def run(self, sql, parameters):
		"""Runs a text of statements; returns the rows of the last one"""
		global statements
		if self.failed:
			raise psycopg.InFailedSqlTransaction("current transaction is aborted, commands ignored until end of transaction block")
		rows = []
		text = split(strip_comments(sql))
		if len(text) > 1 and parameters:
			raise psycopg.DatabaseError("cannot insert multiple commands into a prepared statement")
		# Several statements are one transaction
		with self.transaction() if len(text) > 1 and not self.depth else contextlib.nullcontext():
			for s in text:
				statements += 1
				shapes.add(" ".join(s.split())[:200])
				rows = self.statement(s, parameters)
		return rows

	def statement(self, s, parameters):
		try:
			translated, parameters = self.translate(s, list(parameters))
		except Unsupported as e:
			unsupported.append("%s: %s" % (e, " ".join(s.split())[:300]))
			raise
		if translated is None:
			return []
		try:
			if any(isinstance(p, str) and ("\0" in p or "\\u0000" in p) for p in parameters):
				raise sqlite3.IntegrityError("PostgreSQL text fields cannot contain NUL (0x00) bytes")
			return [dict(r) for r in self.db.execute(translated, parameters).fetchall()]
		except sqlite3.IntegrityError as e:
			problem = psycopg.IntegrityError("%s: %s %r" % (e, " ".join(s.split())[:300], parameters))
		except sqlite3.OperationalError as e:
			if "user-defined function" in str(e):
				problem = psycopg.DataError("%s: %s %r" % (e, " ".join(s.split())[:300], parameters))
			else:
				unsupported.append("%s: %s" % (e, " ".join(s.split())[:300]))
				raise Unsupported("%s: %s" % (e, translated))
		except sqlite3.Error as e:
			unsupported.append("%s: %s" % (e, " ".join(s.split())[:300]))
			raise Unsupported("%s: %s" % (e, translated))
		except OverflowError as e:
			problem = psycopg.DataError("%s: %r" % (e, parameters))
		failures.append(str(problem))
		if self.depth:
			self.failed = True
		raise problem

	# Translation

	def translate(self, s, parameters):
		one = " ".join(s.split())
		m = re.match(r"CREATE (TEMPORARY |TEMP )?TABLE (IF NOT EXISTS )?(\w+)\s*\(", one, re.I)
		if m:
			return self.create_table(one, m), []
		if re.match(r"CREATE (UNIQUE )?INDEX", one, re.I):
			m = re.match(r"CREATE UNIQUE INDEX (IF NOT EXISTS )?(\w+) ON (\w+)\s*(?:USING \w+\s*)?\((.*)\)$", one, re.I)
			if not m:
				if "UNIQUE" in one.upper():
					raise Unsupported("index")
				return None, []
			temp = "temp." if m[3] in self.temporary() else ""
			return "CREATE UNIQUE INDEX IF NOT EXISTS %s%s ON %s(%s)" % (temp, m[2], m[3], m[4]), []
		m = re.match(r"ALTER TABLE (\w+) ADD COLUMN (IF NOT EXISTS )?(.*)$", one, re.I)
		if m:
			name, t, definition = column(m[3])
			if name in self.columns(m[1]):
				return None, []
			self.db.execute("INSERT INTO pg_columns(tab, name, type) VALUES(?, ?, ?)", (m[1], name, t))
			return "ALTER TABLE %s ADD COLUMN %s%s" % (m[1], definition, " DEFAULT ''" if "NOT NULL" in definition else ""), []
		if re.match(r"ALTER TABLE \w+ ALTER COLUMN \w+ SET NOT NULL|ANALYZE|VACUUM|DROP INDEX|ALTER TABLE \w+ DROP COLUMN IF EXISTS|SET ", one, re.I):
			return None, []
		if re.match(r"DROP TABLE IF EXISTS (\w+)$", one, re.I):
			return one, []
		m = re.match(r"TRUNCATE (?:TABLE )?(\w+)$", one, re.I)
		if m:
			return "DELETE FROM %s" % m[1], []
		if not re.match(r"(WITH|SELECT|INSERT|UPDATE|DELETE)\b", one, re.I):
			raise Unsupported("statement")
		return self.query(one, parameters)

	def temporary(self):
		return {r["name"] for r in self.db.execute("SELECT name FROM sqlite_temp_master WHERE type = 'table'")}

	def create_table(self, one, m):
		temp, unless, table = m[1], m[2], m[3]
		end = closing(one, m.end() - 1)
		rest = one[end + 1:].strip().lower()
		if rest and not re.fullmatch(r"(on commit drop)?|with \(.*\)", rest):
			raise Unsupported("table option")
		if not temp:
			self.db.execute("CREATE TABLE IF NOT EXISTS pg_columns(tab TEXT, name TEXT, type TEXT)")
			if unless and self.columns(table):
				return None
		definitions = []
		for d in top_level(one[m.end():end]):
			name, t, definition = column(d)
			definitions.append(definition)
			self.db.execute("INSERT INTO pg_columns(tab, name, type) VALUES(?, ?, ?)", (table, name, t))
		if temp and rest == "on commit drop":
			self.drop.append(table)
		return "CREATE %sTABLE %s(%s)" % ("TEMPORARY " if temp else "", table, ", ".join(definitions))

	def query(self, s, parameters):
		# Values of the columns of a table are converted to the type of the column
		m = re.search(r"INSERT INTO (\w+)\s*\(([^()]*)\)\s*VALUES\s*\(", s, re.I)
		if m:
			end = closing(s, m.end() - 1)
			types = self.columns(m[1])
			names = [n.strip() for n in m[2].split(",")]
			values = top_level(s[m.end():end])
			if len(names) != len(values):
				raise Unsupported("number of values")
			values = ["inet(%s)" % v if types.get(n) == "inet" else v for n, v in zip(names, values)]
			# Numbers arrive as text, too
			i = 0
			for n, v in zip(names, values):
				if "%s" in v:
					if types.get(n) == "integer" and isinstance(parameters[i], str):
						if not re.fullmatch(r"\s*[+-]?\d+\s*", parameters[i], re.A):
							parameters[i] = "invalid input syntax: %s" % parameters[i]
						else:
							parameters[i] = int(parameters[i])
					i += 1
			s = s[:m.end()] + ", ".join(values) + s[end:]

		# inet operators
		operand = r"([\w.]+|'[^']*'|%s)"
		s = re.sub(operand + r"\s*(<<=|>>=|<<|>>)\s*" + operand, self.operator, s)

		# Arrays
		s = re.sub(r"=\s*ANY\s*\(%s\)", "IN (SELECT value FROM json_each(%s))", s, flags=re.I)

		# Time
		s = re.sub(r"INTERVAL\s+'(\d+) (day|week|hour|minute|month)s?'", lambda m: str(int(m[1]) * {"day": 86400, "week": 604800, "hour": 3600, "minute": 60, "month": 2592000}[m[2]]), s, flags=re.I)
		s = re.sub(r"\bCURRENT_TIMESTAMP\b|\bNOW\(\)", "pg_now()", s, flags=re.I)

		s = self.ctes(s)
		s = self.distinct_on(s)
		s = re.sub(r"(?<!LIMIT -1 )\bOFFSET (\d+)", r"LIMIT -1 OFFSET \1", s, flags=re.I)
		s = self.conflict(s)

		# Parameters
		def placeholder(m):
			return "%" if m[0] == "%%" else "?"
		s = re.sub(r"%%|%s", placeholder, s)
		return s, [json.dumps(p) if isinstance(p, (list, tuple)) else int(p) if isinstance(p, bool) else p for p in parameters]

	def operator(self, m):
		name, swapped = OPERATORS[m[2]]
		return "%s(%s, %s)" % ((name, m[3], m[1]) if swapped else (name, m[1], m[3]))

	def ctes(self, s):
		"""In the definition of a CTE, its name means the table"""
		m = re.match(r"WITH\s+", s, re.I)
		if not m:
			return s
		out, pos = s[:m.end()], m.end()
		while True:
			m = re.compile(r"(\w+)\s+AS\s+\(", re.I).match(s, pos)
			if not m:
				raise Unsupported("WITH")
			end = closing(s, m.end() - 1)
			body = re.sub(r"\b(FROM|JOIN)\s+%s\b(?!\s+(?:AS\s+)?(?!ON\b|WHERE\b|JOIN\b|LEFT\b|ORDER\b|GROUP\b)\w)" % m[1], r"\1 main.%s AS %s" % (m[1], m[1]), s[m.end():end], flags=re.I)
			out += "%s AS (%s)" % (m[1], self.distinct_on(body))
			pos = end + 1
			m = re.compile(r"\s*,\s*").match(s, pos)
			if not m:
				return out + s[pos:]
			out += ", "
			pos = m.end()

	def distinct_on(self, s):
		m = re.match(r"\s*SELECT\s+DISTINCT\s+ON\s*\(", s, re.I)
		if not m:
			if re.search(r"DISTINCT\s+ON", s, re.I):
				# Only in subqueries that have been handled before
				return s
			return s
		end = closing(s, m.end() - 1)
		expression = s[m.end():end]
		start = find_word(s, "FROM", end + 1)
		order = find_word(s, "ORDER BY", start)
		columns = s[end + 1:start]
		tail = s[start:order] if order >= 0 else s[start:]
		names = []
		for c in top_level(columns):
			n = re.search(r"\bAS\s+(\w+)$", c, re.I)
			if n:
				names.append(n[1])
			elif re.fullmatch(r"[\w.]+", c):
				names.append(c.split(".")[-1])
		return "SELECT %s FROM (SELECT %s, ROW_NUMBER() OVER (PARTITION BY %s %s) AS pg_rank %s) WHERE pg_rank = 1" % (", ".join(names), columns, expression,
			s[order:] if order >= 0 else "", tail)

	def conflict(self, s):
		"""INSERT ... SELECT ... ON CONFLICT needs a WHERE"""
		at = find_word(s, "ON CONFLICT")
		if at < 0:
			return s
		insert = re.search(r"INSERT INTO", s, re.I).start()
		select = find_word(s, "SELECT", insert)
		if select < 0 or select > at:
			return s
		if 0 <= find_word(s, "WHERE", select) < at:
			return s
		return s[:at] + "WHERE true " + s[at:]


class Cursor:
	def __init__(self, conn):
		self.conn = conn
		self.rows = []

	def execute(self, sql, parameters=None, **kwargs):
		self.rows = self.conn.run(sql, parameters or ())
		return self

	def executemany(self, sql, sequence):
		for parameters in sequence:
			self.conn.run(sql, parameters)

	def __iter__(self):
		return iter(self.rows)

	def fetchall(self):
		return self.rows

	def fetchone(self):
		return self.rows.pop(0) if self.rows else None


class PoolTimeout(psycopg.Error):
	pass


class Pool:
	def __init__(self, conninfo, configure=None, **kwargs):
		self.configure = configure
		self.idle = []
		self.used = 0
		self.exhausted = False
		self.max = kwargs.get("max_size") or kwargs.get("min_size", 4)
		self.condition = threading.Condition()

	def getconn(self, *args, **kwargs):
		with self.condition:
			# Whoever has not got a chance to return one by then does not get another one
			if not self.condition.wait_for(lambda: self.used < self.max, timeout=0 if self.exhausted else 3):
				self.exhausted = True
				raise PoolTimeout("couldn't get a connection after 60.00 sec")
			self.used += 1
			if self.idle:
				return self.idle.pop()
		conn = Connection()
		if self.configure:
			self.configure(conn)
		return conn

	def putconn(self, conn):
		with self.condition:
			self.used -= 1
			self.idle.append(conn)
			self.condition.notify()
