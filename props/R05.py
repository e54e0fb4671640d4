"""Referential integrity."""
from vf import gen_table as gt
from vf.core import T
from .tables import execute, MODULE, files, rows_text  # noqa: F401

MODES = [{'op': 'ri', 'strict': s, 'log': g} for s in (False, True) for g in (False, True)]


def enumerated(emitted):
    for x in emitted:
        mds = [dict(m, d=dict(gt.gd.CSVW, lt=[10])) for m in x['mds']]
        ts = [rows_text([[c['name'][0] for c in m['cols']]] + rows) for m, rows in zip(mds, (x['parent'], x['child']))]
        yield gt.plan(mds, files(*ts), MODES, fks=[x['fk']])


def plans(c, n):
    for _ in range(n):
        mds, fks, texts, dat, broken = gt.fkgroup(c.rng)
        yield gt.plan(mds, files(*texts), MODES, fks=fks, dat=dat)


def check(c):
    emitted = c.model('MC_Keys.tla', 'MC_Keys.cfg', 'collecting keys, then following references: all pairs of tables of up to 2 rows')
    if c.thorough:
        c.model('MC_Keys.tla', 'MC_Keys_deep.cfg', 'up to 3 rows', timeout=3400)
    c.conform(enumerated(emitted), execute, MODULE)
    c.conform(plans(c, c.n(1800, 30000)), execute, MODULE)
