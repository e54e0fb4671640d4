"""Rows written are the rows read."""
from vf import gen_dsv as g
from vf.drive_dsv import execute  # noqa: F401
from .dsvcommon import full

MODULE = 'TraceDsv.tla'


def enumerated(emitted):
    for x in emitted:
        d = full(x['d'])
        calls = [{'k': 'row', 'rows': [[['s', c] for c in row]]} for row in x['rows']]
        yield g.plan(g.ABSENT, [
            {'op': 'write', 'd': d, 'calls': calls, 'via': 'path'},
            {'op': 'read', 'd': d, 'src': 'file', 'kind': 'rows', 'fieldnames': g.NOFN, 'notes': False,
             'as': 'path', 'text': [], 'lines': []}])


def plans(c):
    rng = c.rng
    for i in range(c.n(4000, 60000)):
        d = g.dialect(rng)
        big = i % 300 == 0
        rows = g.table(rng, d, nrows=rng.randint(100, 400) if big else None,
                       ncols=rng.randint(1, 60) if i % 301 == 0 else None,
                       ragged=rng.choice([0, .1]))
        w = g.write_op(rng, d, rows)
        ev = [w, g.read_op(rng, d, 'file', 'rows', notes=False)]
        if w['via'] in ('memory', 'handle'):
            ev = ev[:1]
        if rng.random() < .2 and len(ev) == 2:   # the dialect object changes between two files
            d2 = dict(d, lt=g.T(rng.choice(['\n', '\r\n'])), dbl=True, built='setattr', quote=34) \
                if d['csvw'] else d
            w2 = g.write_op(rng, d2, rows)
            w2['via'] = 'path'
            ev += [w2, g.read_op(rng, d2, 'file', 'rows', notes=False)]
        yield g.plan(g.ABSENT, ev, d['enc'])


def check(c):
    c.model('MC_DsvWrite.tla', 'MC_DsvWrite.cfg' if not c.thorough else 'MC_DsvWrite_deep.cfg',
            'every pair of rows over an 8 character alphabet, every quoting dialect')
    emitted = c.model('MC_DsvWrite.tla', 'MC_DsvWrite_gen.cfg', 'rows emitted for replay')
    c.conform(enumerated(emitted), execute, MODULE)
    c.conform(plans(c), execute, MODULE)
