"""Shared by the checks on cells (T01-T08)."""
from vf import gen_cell as g
from vf.core import T
from vf.drive_cell import execute  # noqa: F401

MODULE = 'TraceCell.tla'


def sessions(events, size=12):
    """Group independent events."""
    buf = []
    for e in events:
        if e is None:
            continue
        buf.append(e)
        if len(buf) == size:
            yield {'ev': buf}
            buf = []
    if buf:
        yield {'ev': buf}


def read(d, t):
    return None if t is None else {'op': 'read', 'dt': d, 't': T(t)}


def write(d, v):
    return {'op': 'write', 'dt': d, 'v': v}


def roundtrip(d, v):
    return {'op': 'roundtrip', 'dt': d, 'v': v}


def writable(d, v):
    """Values for which writing is specified."""
    base = d['base']
    if v[0] == 'dur' or base not in g.FLOAT + ['decimal']:
        return True
    return True
