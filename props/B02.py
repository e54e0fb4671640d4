"""Databases refuse exactly the data which contradicts the schema."""
from vf import gen_db as g
from vf.drive_db import execute  # noqa: F401

MODULE = 'TraceDb.tla'


def text(v):
    return None if v['k'] == 'N' else [text(x) for x in v['v']] if v['k'] == 'L' else str(v['v'][1])


def enumerated(c, emitted):
    """Replay contents of the model of insertions."""
    if not c.thorough:
        emitted = c.rng.sample(emitted, 1500)
    for x in emitted:
        bounded = dict(base='integer', maximum='2')
        tables = [
            dict(name='c', pk=['id'], fks=[dict(cols=['p'], ref='p', rcols=['id']), dict(cols=['ps'], ref='p', rcols=['n']),
                                           dict(cols=['c'], ref='c', rcols=['id'])],
                 cols=[dict(name='id', dt=bounded, sep=None, req=None), dict(name='p', dt='integer', sep=None, req=x['mode'] == 'req'),
                       dict(name='ps', dt='integer', sep=' ', req=None), dict(name='c', dt='integer', sep=None, req=None)]),
            dict(name='p', pk=['id'], fks=[], cols=[dict(name='id', dt=bounded, sep=None, req=None), dict(name='n', dt='integer', sep=None, req=None)])]
        items = {t: [{k: text(v) for k, v in row.items()} for row in x[t]] for t in ('c', 'p')}
        yield g.plan(tables, [g.wev(c.rng, items), dict(op='read', fresh=False)], c.rng.random() < .8, c.rng.choice([0, 1, 2]),
                     x['mode'] == 'drop')


def plans(c, n):
    for _ in range(n):
        yield g.refusal(c.rng)


def check(c):
    emitted = c.model('MC_DbWrite.tla', 'MC_DbWrite.cfg', 'row by row insertion accepts exactly what satisfies the constraints')
    if c.thorough:
        c.model('MC_DbWrite.tla', 'MC_DbWrite_deep.cfg', 'the same with up to 2 rows in both tables')
    c.conform(enumerated(c, emitted), execute, MODULE)
    c.conform(plans(c, c.n(2500, 30000)), execute, MODULE)
