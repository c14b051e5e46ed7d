"""
Stands in for psycopg_pool
"""
from harness import pgsql

ConnectionPool = pgsql.Pool
PoolTimeout = pgsql.PoolTimeout
