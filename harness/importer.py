"""
Runs location-importer in this process, with a stand-in for its database server (pgsql.py), for the web, and for the routing daemon
"""
import contextlib
import email.message
import io
import logging
import os
import socket
import sqlite3
import sys
import threading
import urllib.error
import urllib.request

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "pg"))

from harness import pgsql

logging.raiseExceptions = False
logging.disable(logging.CRITICAL)

# What is on the web: a function that gets the URL and returns bytes, a tuple of bytes and the type of content, or raises an exception
web = None
requests = []


class Response(io.BytesIO):
	def __init__(self, data, content_type):
		super().__init__(data)
		self.code = self.status = 200
		self.headers = email.message.Message()
		if content_type:
			self.headers["Content-Type"] = content_type

	def getheaders(self):
		return list(self.headers.items())

	def info(self):
		return self.headers


def urlopen(request, *args, **kwargs):
	url = request if isinstance(request, str) else request.full_url
	requests.append(url)
	answer = web(url)
	data, content_type = answer if isinstance(answer, tuple) else (answer, "text/plain")
	return Response(data, content_type)


urllib.request.urlopen = urlopen


def not_found(url):
	return urllib.error.HTTPError(url, 404, "Not Found", email.message.Message(), io.BytesIO(b""))


class Importer:
	def __init__(self, command):
		with open(command) as f:
			self.code = compile(f.read(), command, "exec")
		self.command = command

	def run(self, *args):
		"""Runs a command: the exit code, or the exception which escaped"""
		argv = sys.argv
		sys.argv = [self.command, "--database-host=localhost", "--database-name=location", "--database-username=location", "--database-password=x", *args]
		stderr = io.StringIO()
		try:
			with contextlib.redirect_stderr(stderr), contextlib.redirect_stdout(io.StringIO()):
				exec(self.code, {"__name__": "__main__", "__file__": self.command})
		except SystemExit as e:
			return e.code or 0
		except BaseException as e:
			return e
		finally:
			sys.argv = argv
			import gc
			gc.collect()
		return 0


def rows(table, columns="*", where="1"):
	"""What has been stored"""
	db = sqlite3.connect(pgsql.path)
	db.row_factory = sqlite3.Row
	try:
		return [dict(r) for r in db.execute("SELECT %s FROM %s WHERE %s" % (columns, table, where))]
	finally:
		db.close()


class Bird(threading.Thread):
	"""A routing daemon; answers is a function which gets the command and returns the output"""
	def __init__(self, path, answers, chunks):
		super().__init__(daemon=True)
		self.answers, self.chunks = answers, chunks
		self.commands = []
		self.s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
		self.s.bind(path)
		self.s.listen(16)
		self.start()

	def run(self):
		while True:
			try:
				c, _ = self.s.accept()
			except OSError:
				return
			threading.Thread(target=self.serve, args=(c,), daemon=True).start()

	def serve(self, c):
		try:
			c.sendall(b"0001 BIRD 2.0.12 ready.\n")
			command = b""
			while not command.endswith(b"\n"):
				d = c.recv(4096)
				if not d:
					return
				command += d
			self.commands.append(command.decode().strip())
			data, keep = self.answers(command.decode().strip())
			for piece in self.chunks(data):
				c.sendall(piece)
			if keep:
				# Bird does not end the connection after a reply
				c.settimeout(60)
				c.recv(1)
		except OSError:
			pass
		finally:
			c.close()

	def stop(self):
		self.s.close()
