"""Rewriting a file in place: the new content is complete or the old one stays."""
from vf import gen_dsv as g
from vf.core import T
from vf.drive_dsv import execute  # noqa: F401
from .dsvcommon import full

MODULE = 'TraceDsv.tla'


def enumerated(emitted):
    for x in emitted:
        yield g.plan({'there': True, 'text': x['text']},
                     [{'op': 'rewrite', 'd': full(x['d']), 'verdicts': x['verdicts']}])


def verdict(rng, d, p_raise):
    r = rng.random()
    if r < .5:
        return ['keep']
    if r < .75:
        return ['drop']
    if r < 1 - p_raise:
        return ['set', [T(g.value(rng, d)) for _ in range(rng.randint(0, 4))]]
    return ['raise']


def plans(c):
    rng = c.rng
    for i in range(c.n(3000, 40000)):
        big = i % 200 == 0
        csvw = rng.random() < .5
        d = g.dialect(rng, read=csvw, csvw=csvw)
        if not csvw:
            if rng.random() < .2:
                d['enc'] = d['encoding'] = 'latin-1'
                d['u8'] = False
        d['lt'] = d['lt'] if csvw else [13, 10]
        malformed = rng.random() < .12
        s = g.textfile(rng, d, rng.randint(60, 200) if big else None)
        if malformed:
            s += '"x"y\n' if d['quote'] == 34 else ''
        if d['enc'] in ('latin-1', 'cp1252'):
            s = ''.join(ch for ch in s if ord(ch) < 256)
        ev = []
        for _ in range(rng.randint(1, 4)):
            r = rng.random()
            # the add operation uses default parameters only
            if r < .4:
                p = rng.choice([0, 0, .05, .2])
                ev.append({'op': 'rewrite', 'd': d, 'str': rng.random() < .5, 'kbd': rng.random() < .3,
                           'verdicts': [verdict(rng, d, p) for _ in range(rng.randint(0, 200 if big else 8))]})
            elif r < .7:
                p = rng.choice([0, 0, .1])
                ev.append({'op': 'filter', 'd': d,
                           'keep': [rng.choice(['keep', 'drop']) if rng.random() > p else 'raise'
                                    for _ in range(rng.randint(0, 200 if big else 8))]})
            elif d['enc'] == 'utf-8' and not d.get('encoding'):
                ev.append({'op': 'add', 'd': d, 'raise': rng.random() < .2, 'str': rng.random() < .5,
                           'rows': [[['s', T(v)] for v in r] for r in g.table(rng, g.PLAIN)]})
        yield g.plan({'there': True, 'text': T(s)}, ev, d['enc'])
    for i in range(c.n(300, 3000)):
        ev = [{'op': 'add', 'd': g.PLAIN, 'raise': rng.random() < .2, 'str': rng.random() < .5,
               'rows': [[['s', T(v)] for v in r] for r in g.table(rng, g.PLAIN)]} for _ in range(rng.randint(1, 3))]
        yield g.plan(g.ABSENT, ev)


def check(c):
    emitted = c.model('MC_DsvFile.tla', 'MC_DsvFile_gen.cfg', 'all files of up to 2 rows, all visitor behaviours, crashes')
    if c.thorough:
        c.model('MC_DsvFile.tla', 'MC_DsvFile_deep.cfg', 'up to 3 rows', timeout=3000)
    c.conform(enumerated(emitted), execute, MODULE)
    c.conform(plans(c), execute, MODULE)
    c.assumptions.append('replacing a file by a finished one (shutil.move) is taken as one step')
