"""Line numbers reported with rows and comments."""
from vf import gen_dsv as g
from vf.core import T
from vf.drive_dsv import execute  # noqa: F401
from .dsvcommon import full, clean_cr

MODULE = 'TraceDsv.tla'


def enumerated(emitted):
    for i, x in enumerate(emitted):
        d = full(x['d'])
        if 13 in x['text'] or 10 not in x['text'] or (not d['csvw'] and x['text'].count(34) % 2):
            continue
        yield g.plan(g.ABSENT, [
            {'op': 'read', 'd': d, 'src': 'text', 'kind': 'numbered', 'fieldnames': g.NOFN, 'notes': d['csvw'],
             'as': 'path', 'text': x['text'], 'lines': []}])


def plans(c):
    rng = c.rng
    for i in range(c.n(4000, 60000)):
        d = g.dialect(rng, read=True, csvw=rng.random() < .85 or None)
        if d['lt'] == [13]:
            d['lt'] = [10]
        s = g.textfile(rng, d, rng.randint(100, 300) if i % 500 == 0 else None) if rng.random() < .8 \
            else g.text(rng, d)
        if not d['csvw'] and s.count(chr(d['quote'])) % 2:
            continue
        crlf = rng.random() < .3
        s = clean_cr(s)
        if crlf:
            s = s.replace('\n', '\r\n')
        if d['enc'] in ('latin-1', 'cp1252'):
            s = ''.join(ch for ch in s if ord(ch) < 256)
        if rng.random() < .6:
            yield g.plan({'there': True, 'text': T(s)}, [g.read_op(rng, d, 'file', 'numbered')], d['enc'])
        elif rng.random() < .6:
            yield g.plan(g.ABSENT, [g.read_op(rng, d, 'text', 'numbered', text=T(s))])
        else:
            yield g.plan(g.ABSENT, [g.read_op(rng, d, 'lines', 'numbered',
                                              lines=[T(x + '\n') for x in s.replace('\r', '').split('\n')])])


def check(c):
    emitted = c.model('MC_DsvRead.tla', 'MC_DsvRead_gen.cfg', 'every text of up to 4 characters under 10 dialects')
    if c.thorough:
        c.model('MC_DsvRead.tla', 'MC_DsvRead.cfg', 'texts of up to 5 characters', timeout=3000)
    c.conform(enumerated(emitted), execute, MODULE)
    c.conform(plans(c), execute, MODULE)
    c.assumptions.append('lines end in LF or CR LF; a lone CR inside a quoted cell is not counted as a line')
