"""Which records of a text are rows, which are comments, and what the cells hold."""
from vf import gen_dsv as g
from vf.core import T
from vf.drive_dsv import execute  # noqa: F401
from .dsvcommon import full

MODULE = 'TraceDsv.tla'
KINDS = ['rows', 'rows', 'rows', 'dicts']


def enumerated(c, emitted):
    for i, x in enumerate(emitted):
        d = full(x['d'])
        src = ['text', 'file', 'text', 'text'][i % 4]
        yield g.plan({'there': True, 'text': x['text']} if src == 'file' else g.ABSENT, [
            {'op': 'read', 'd': d, 'src': src, 'kind': 'rows', 'fieldnames': g.NOFN, 'notes': d['csvw'],
             'as': 'path', 'text': x['text'] if src == 'text' else [], 'lines': []}])


def plans(c):
    rng = c.rng
    for i in range(c.n(4000, 60000)):
        d = g.dialect(rng, read=True)
        s = g.textfile(rng, d, rng.randint(100, 300) if i % 500 == 0 else None) if rng.random() < .7 \
            else g.text(rng, d)
        if d['enc'] in ('latin-1', 'cp1252'):
            s = ''.join(ch for ch in s if ord(ch) < 256)
        r = rng.random()
        if r < .55:
            ini = {'there': True, 'text': T(('\ufeff' if d['enc'] == 'utf-8' and rng.random() < .1 else '') + s)}
            ev = [g.read_op(rng, d, 'file', rng.choice(KINDS)) for _ in range(rng.choice([1, 1, 2]))]
            if len(ev) == 2 and d['csvw']:   # same object used again with other settings
                ev[1]['d'] = dict(d, built='setattr', trim=rng.choice(['true', 'false', 'start', 'end']),
                                  skipRows=rng.choice([0, 1]), skipCols=rng.choice([0, 1]))
            yield g.plan(ini, ev, d['enc'])
        elif r < .8:
            yield g.plan(g.ABSENT, [g.read_op(rng, d, 'text', rng.choice(KINDS), text=T(s))])
        else:
            keep = rng.random() < .5
            lines = [ln for ln in s.splitlines(True)] if keep else s.replace('\r', '').split('\n')
            by = d['enc'] != 'utf-16' and d['enc'] not in ('utf-8-sig', 'UTF-8-BOM') and rng.random() < .3
            yield g.plan(g.ABSENT, [g.read_op(rng, d, 'lines', rng.choice(KINDS), lines=[T(x) for x in lines],
                                              factory=rng.random() < .3, bytes=by)], d['enc'])


def check(c):
    emitted = c.model('MC_DsvRead.tla', 'MC_DsvRead_gen.cfg', 'every text of up to 4 characters under 10 dialects')
    if c.thorough:
        c.model('MC_DsvRead.tla', 'MC_DsvRead.cfg', 'texts of up to 5 characters', timeout=3000)
    c.conform(enumerated(c, emitted), execute, MODULE)
    c.conform(plans(c), execute, MODULE)
