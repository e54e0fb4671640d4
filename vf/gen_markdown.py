"""Generators of table groups to be described (inputs only)."""
from . import gen_cell as g
from . import gen_table as gt
from . import gen_dsv as gd
from .core import T, U
from .drive_cell import tree

VALUES = ['x', 'some text', 'a & b <c>', '"quoted"', 5, 100, 0, '', [], ['one', 'two'], ['x', 0, ''], [0], ['', 'b'], ['x', {'dc:title': 'T', 'k': 'v & w'}], {'dc:creator': 'N. N.', 'rdf:type': 'x'},
          {'@value': 'text', '@language': 'en'}, True, False, 'http://example.org/x', {'schema': "it's"}, [['n', 'm']]]
KEYS = ['dc:title', 'dc:description', 'dc:creator', 'dc:identifier', 'dcat:accessURL', 'rdf:value', 'rdfs:label', 'prov:wasDerivedFrom',
        'https://schema.org/image', 'http://example.org/prop', 'schema:name', 'foaf:name', 'dc:dc:x']


def props(rng, title=False):
    res = []
    for k in rng.sample(KEYS, rng.choice([0, 0, 1, 2, 4])):
        v = rng.choice(VALUES)
        if k == 'dc:title':
            v = rng.choice(['My data', 'T', 'Über'])
        if k == 'https://schema.org/image' and rng.random() < .7:
            v = rng.choice(['http://example.org/i.png', {'https://schema.org/contentUrl': 'http://example.org/i.png'},
                            {'https://schema.org/contentUrl': 'i.jpg', 'https://schema.org/caption': 'The caption'}])
        res.append([T(k), tree(v)])
    return res


WORDS = ['yes|no', 'a', 'a b|c d', 'A_1|b', 'x||y', '|x', '[a-c]+', 'a.*', '', 'ja|ä', '\\d{3}']


def fits(f):
    return '|' not in U(f) and '\n' not in U(f)


def group(rng):
    n = rng.choice([1, 1, 2, 3])
    dat = rng.choice(['table', 'group', '', ''])
    dia = gt.dialect(rng)
    mds = []
    for t in range(n):
        m = gt.md(rng, dia=dia if dat != 'table' else gt.dialect(rng), virtual=rng.random() < .3)
        m['levels'] = [mds[0]['levels'][0] if mds else m['levels'][0], m['levels'][1], m['levels'][2]]
        for c in m['cols']:
            c['descr'] = [tree(rng.choice(['a description', 'two\nlines', '', ['a', 'b'], {'@value': 'x', '@language': 'de'}, 'b & c']))] if rng.random() < .35 else []
            d = c['lv']['datatype'][0] if c['lv']['datatype'] else None
            if d and d['base'] in ('integer', 'decimal') and d['f']['k'] == 'none' and rng.random() < .5:
                lo = rng.choice(['0', '1', '-5', '100'])
                d['bounds'] = [[rng.choice(['minimum', 'minimum', 'minInclusive', 'minExclusive']), T(lo), rng.random() < .5]]
                if rng.random() < .6:
                    d['bounds'].append([rng.choice(['maximum', 'maximum', 'maxExclusive']), T(rng.choice(['0', '101', '2000'] if lo in ('-5',) else ['101', '2000'])), False])
                d['short'] = False
            if d and d['base'] == 'string' and d['f']['k'] == 'none' and rng.random() < .5:
                d['f'] = {'k': 'raw', 'x': T(rng.choice(WORDS))}
                d['short'] = False
        for lv in m['levels'] + [c['lv'] for c in m['cols']]:
            if lv['separator'] and U(lv['separator'][0]) == '|':   # no markup for those in tables
                lv['separator'] = [T(';')]
        mds.append(m)
    names = [rng.choice(['t%d.csv', 'The Täble %d.txt', 'sub/%d.csv', 'A-b_%d']) % t for t in range(n)]
    fks = []
    for t, m in enumerate(mds, start=1):
        hs = gt.headers(m)
        ns = [U(c['name'][0]) for c in m['cols'] if c['name'] and not c['virtual']]
        if ns and rng.random() < .5:
            m['pk'] = [T(h) for h in rng.sample(ns, rng.choice([1, len(ns)]))]
        if hs and rng.random() < .6:
            for h in rng.sample(hs, rng.choice([1, 1, min(2, len(hs))])):
                rt = rng.randint(1, n)
                rh = gt.headers(mds[rt - 1])
                if rh:
                    fks.append({'t': t, 'cols': [T(h)], 'rt': rt if rng.random() < .95 else 0, 'rcols': [T(rng.choice(rh))], 'bare': rng.random() < .5})
        if len(hs) > 1 and rng.random() < .15:
            rt = rng.randint(1, n)
            rh = gt.headers(mds[rt - 1])
            if len(rh) > 1:
                fks.append({'t': t, 'cols': [T(h) for h in hs[:2]], 'rt': rt, 'rcols': [T(h) for h in rh[:2]]})
    refs = []
    if rng.random() < .1:
        t = rng.randint(1, n)
        free = [h for h in gt.headers(mds[t - 1]) if [T(h)] not in [f['cols'] for f in fks if f['t'] == t]]
        if free:
            refs.append([t, T(free[0]), 'schema.json'])
    return dict(mds=mds, names=names, dat=dat, fks=fks, there=[rng.random() < .7 for _ in mds], gprops=props(rng), tprops=[props(rng) for _ in mds],
                mdname=rng.choice(['md.json', 'x-metadata.json']), schemarefs=refs)
