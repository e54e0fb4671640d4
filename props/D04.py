"""Dict and named-tuple views of a text; header handling of the dict writer."""
from vf import gen_dsv as g
from vf.core import T
from vf.drive_dsv import execute  # noqa: F401
from .dsvcommon import full

MODULE = 'TraceDsv.tla'
NAMES = ['a', 'b', 'c', 'ID', 'class', 'a-name', 'x.y', 'long name', '1', '', 'a_b', 'if', 'Name', '9lives', '#', 'q"', 'Größe', 'naïve'[:2] + 'é', 'ÀÇÑ', 'š ñ', 'None', 'async', 'nonlocal', 'Class', 'a漢', 'øß']


def enumerated(emitted):
    for i, x in enumerate(emitted):
        if i % 2:
            continue
        d = full(x['d'])
        yield g.plan(g.ABSENT, [
            {'op': 'read', 'd': d, 'src': 'text', 'kind': 'dicts', 'as': 'path', 'notes': False,
             'fieldnames': {'given': i % 3 == 0, 'names': [T('u'), T('v')] if i % 3 == 0 else []},
             'text': x['text'], 'lines': [], 'rest': [['n'], ['n']]}])


def plans(c):
    rng = c.rng
    for i in range(c.n(4000, 60000)):
        d = g.dialect(rng, read=rng.random() < .5)
        d['skipRows'] = 0
        kind = rng.choice(['dicts', 'dicts', 'tuples'])
        names = rng.sample(NAMES, rng.randint(1, 6)) if kind == 'tuples' else \
            [rng.choice(NAMES + ['ä']) for _ in range(rng.randint(1, 5))]
        if kind == 'tuples' and rng.random() < .85:   # distinct after normalisation, none of them private
            seen, out = set(), []
            for n in names:
                m = ''.join(x for x in n.strip() if x.isalnum())
                if m not in seen and m[:1].isalpha() and m[0] < 'z' and n[:1] != '#' and \
                        not any(ch in n for ch in (chr(d['delim']), '"', "'")):
                    seen.add(m)
                    out.append(n)
            names = out or ['a']
        names = [n for n in names if d['enc'] not in ('latin-1', 'cp1252') or n.encode(d['enc'], 'ignore').decode(d['enc']) == n] or ['a']
        d['comment'] = T(rng.choice(['', '//', '%']))
        if d['delim'] in d['comment']:
            d['comment'] = []
        wd = dict(d, skipCols=0, skipRows=0, trim='false', skipBlank=False)
        rows = g.table(rng, wd, ncols=len(names), ragged=.35 if rng.random() < .5 else 0,
                       nrows=rng.randint(50, 200) if i % 500 == 0 else None)
        if rng.random() < .3:
            rows.insert(rng.randint(0, len(rows)), [])
        extra = ['z%d' % j for j in range(d['skipCols'])]
        fn = g.NOFN
        if kind == 'dicts' and rng.random() < .25:
            fn = {'given': True, 'names': [T(n) for n in names]}
        calls = [{'k': 'rows', 'rows': [[['s', T(v)] for v in r] for r in
                                        ([extra + names] if not fn['given'] else []) + [extra + r if r else r for r in rows]]}]
        ev = [{'op': 'write', 'd': wd, 'calls': calls, 'via': 'path'},
              g.read_op(rng, d, 'file', kind, fieldnames=fn, **{'as': 'path' if fn['given'] else rng.choice(['path', 'path2', 'str'])})]
        yield g.plan(g.ABSENT, ev, d['enc'])
    for i in range(c.n(1000, 10000)):   # dict writing: the header appears exactly once
        d = g.dialect(rng)
        d['comment'] = []
        calls = []
        for _ in range(rng.randint(1, 4)):
            w = rng.randint(1, 3)
            keys = ['k%d' % j for j in range(w)]
            rows = g.table(rng, d, ncols=w, ragged=0)
            k = rng.choice(['row', 'rows', 'dicts', 'dicts', 'dicts'])
            if k == 'row':
                rows = (rows + [['x']])[:1]
            calls.append({'k': k, 'keys': [['s', T(x)] for x in keys], 'rows': [g.cells(rng, r) for r in rows]})
        yield g.plan(g.ABSENT, [{'op': 'write', 'd': d, 'calls': calls, 'via': 'path'},
                                g.read_op(rng, d, 'file', 'dicts')], d['enc'])


def check(c):
    emitted = c.model('MC_DsvRead.tla', 'MC_DsvRead_gen.cfg', 'every text of up to 4 characters under 10 dialects')
    c.conform(enumerated(emitted), execute, MODULE)
    c.conform(plans(c), execute, MODULE)
