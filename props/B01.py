"""Data written to a database is read back unchanged."""
from vf import gen_db as g
from vf.drive_db import execute  # noqa: F401

MODULE = 'TraceDb.tla'


def plans(c, n):
    for _ in range(n):
        yield g.roundtrip(c.rng)


def check(c):
    c.conform(plans(c, c.n(3000, 30000)), execute, MODULE)
