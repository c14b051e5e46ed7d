"""
Stands in for psycopg: the statements of the importer run in SQLite, with the types, constraints and operators of PostgreSQL they use (see harness/pgsql.py)
"""
from . import rows


class Error(Exception):
	pass


class DatabaseError(Error):
	pass


class DataError(DatabaseError):
	pass


class IntegrityError(DatabaseError):
	pass


class InFailedSqlTransaction(DatabaseError):
	pass
