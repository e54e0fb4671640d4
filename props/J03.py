"""Validity."""
from vf import gen_json as gj
from vf import gen_table as gt
from vf.core import T
from vf.drive_json import execute  # noqa: F401
from .tables import rows_text

MODULE = 'TraceJson.tla'


def enumerated(c, emitted, n):
    for x in c.rng.sample(emitted, min(n, len(emitted))):
        mds = [dict(gj.plain_table(), **dict(m, d=dict(gt.gd.CSVW, lt=[10]))) for m in x['mds']]
        for m in mds:
            if not set(map(bytes, m['pk'])) <= {bytes(col['name'][0]) for col in m['cols']}:
                m['pk'] = []
            m['cols'] = [dict(col, uris=dict(gj.NOURI), supp=False) for col in m['cols']]
        ts = [rows_text([[col['name'][0] for col in m['cols']]] + rows) for m, rows in zip(mds, (x['parent'], x['child']))]
        yield gj.plan(mds, [T(t) for t in ts], [gj.vev(c.rng)], 'group', c.rng.random() < .3, [x['fk']])


def plans(c, n):
    for _ in range(n):
        yield gj.validity(c.rng)


def check(c):
    emitted = c.model('MC_Keys.tla', 'MC_Keys.cfg', 'collecting keys, then following references: all pairs of tables of up to 2 rows')
    c.conform(enumerated(c, emitted, c.n(1500, 100000)), execute, MODULE)
    c.conform(plans(c, c.n(2000, 25000)), execute, MODULE)
