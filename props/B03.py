"""Databases are set up for any acyclic group, and only replaced on demand."""
from vf import gen_db as g
from vf.drive_db import execute  # noqa: F401

MODULE = 'TraceDb.tla'


def graph(c, refs, mem=True):
    """Tables with one row each, referring to each other."""
    n = len(refs)
    names = c.rng.sample(g.TNAMES, n) if n <= len(g.TNAMES) else ['t%d.csv' % i for i in range(n)]
    tables, items = [], {}
    for i in range(n):
        cols = [dict(name='id', dt='integer', sep=None, req=None)]
        row = dict(id=str(i))
        fks = []
        for j in range(n):
            if refs[i][j]:
                lst = i == j and c.rng.random() < .3
                cols.append(dict(name='f%d' % j, dt='integer', sep=';' if lst else None, req=None))
                fks.append(dict(cols=['f%d' % j], ref=names[j], rcols=['id']))
                row['f%d' % j] = [str(j)] if lst else str(j)
        tables.append(dict(name=names[i], pk=['id'], fks=fks, cols=cols))
        items[names[i]] = [row]
    return g.plan(tables, [g.wev(c.rng, items), dict(op='read', fresh=False)], mem, c.rng.choice([0, 1, 2]), c.rng.random() < .7)


def graphs(c, emitted):
    for x in emitted:
        yield graph(c, x['refs'])
    for _ in range(c.n(2, 12)):
        # many tables, declared in the wrong order
        n = c.rng.randrange(90, 160)
        yield graph(c, [[j == i + 1 or (j > i and c.rng.random() < .01) for j in range(n)] for i in range(n)])
    for _ in range(c.n(100, 2000)):
        n = c.rng.randrange(4, 8)
        yield graph(c, [[c.rng.random() < .2 for _ in range(n)] for _ in range(n)], c.rng.random() < .5)


def plans(c, n):
    for _ in range(n):
        yield g.session(c.rng) if c.rng.random() < .75 else g.commands(c.rng)


def check(c):
    emitted = c.model('MC_DbOrder.tla', 'MC_DbOrder.cfg', 'order of creation for all graphs of 3 tables')
    if c.thorough:
        c.model('MC_DbOrder.tla', 'MC_DbOrder_deep.cfg', 'all graphs of 4 tables')
    c.conform(graphs(c, emitted), execute, MODULE)
    c.conform(plans(c, c.n(1500, 20000)), execute, MODULE)
