"""Generators of data packages and their tables (inputs only)."""
from . import gen_cell as g
from . import gen_table as gt
from .core import T, U
from .drive_cell import tree
from .drive_frictionless import base as base_of, istable

TYPES = ['string'] * 5 + ['integer'] * 4 + ['number'] * 3 + ['boolean'] * 2 + ['date', 'time', 'datetime', 'duration', 'year', 'yearmonth', 'object',
                                                                               'array', 'geojson', 'any', 'geopoint', '']
BOUNDS = {'integer': ['0', '1', '-5', '100', '17'], 'number': ['0', '1.5', '-2.25', '100'], 'date': ['2020-01-01', '1999-12-31'],
          'time': ['12:00:00'], 'datetime': ['2020-01-01T00:00:00'], 'year': ['1990', '2000'], 'yearmonth': ['1990-01']}
NAMES = [n for n in gt.NAMES if '%' not in n]


def field(name, **kw):
    return dict({'name': T(name), 'type': 'string', 'fmt': '', 'title': [], 'descr': [], 'rdf': [], 'tv': [], 'fv': [], 'dec': [], 'grp': [],
                 'required': [], 'minLength': [], 'maxLength': [], 'minimum': [], 'maximum': [], 'pattern': []}, **kw)


def resource(n, fields, **kw):
    return dict({'name': [T('r%d' % n)], 'path': [T('r%d.csv' % n)], 'scheme': 'file', 'format': 'csv', 'schema': True, 'fields': fields,
                 'missing': [], 'pk': [], 'fks': [], 'enc': [], 'header': [], 'delim': [], 'quote': [], 'dbl': [], 'skipsp': [], 'comment': []}, **kw)


def anyfield(rng, name, simple=False):
    f = field(name, type=rng.choice(TYPES[:14] if simple else TYPES))
    t = f['type']
    if t == 'string' and rng.random() < .3:
        f['fmt'] = rng.choice(['uri', 'uri', 'email', 'uuid', 'binary'])
    if t == 'boolean' and rng.random() < .5:
        f['tv'] = [T(x) for x in rng.choice([['ja'], ['yes', 'y'], ['wahr', 'true']])]
        f['fv'] = [T(x) for x in rng.choice([['nein'], ['no', 'n'], ['falsch']])]
        if rng.random() < .2:
            f[rng.choice(['tv', 'fv'])] = []
    if t in ('integer', 'number') and rng.random() < .4:
        f['grp'] = [T(rng.choice('., \''))]
        if t == 'number' and rng.random() < .7:
            f['dec'] = [T(rng.choice([c for c in ',.' if T(c) != f['grp'][0]]))]
        if T('.') == f['grp'][0] and not f['dec']:
            f['dec'] = [T(',')]
        if rng.random() < .3 and t == 'number':
            f['grp'] = []
            f['dec'] = [T(',')]
    r = rng.random()
    if rng.random() < .15:
        f['required'] = [rng.random() < .8]
    if t == 'string' and f['fmt'] != 'binary' and r < .3:
        if rng.random() < .6:
            f['minLength'] = [rng.choice([0, 1, 2, 5])]
        if rng.random() < .6:
            f['maxLength'] = [rng.choice([1, 2, 5, 6])]
    elif t in ('string', 'year', 'yearmonth') and f['fmt'] != 'binary' and r < .5:
        f['pattern'] = [g.regex(rng) if t == 'string' else ['seq', [['set', T('12'), False], ['rep', ['any'], 0, -1]]]]
    elif t in BOUNDS and r < .5 and not f['grp'] and not f['dec']:
        for k in ['minimum', 'maximum']:
            if rng.random() < .6:
                x = rng.choice(BOUNDS[t])
                if k == 'maximum' and f['minimum'] and rng.random() < .9:
                    x = max(x, U(f['minimum'][0][0]))
                f[k] = [[T(x), t in ('integer', 'number') and rng.random() < .5 or (t == 'year' and rng.random() < .5)]]
    for k, pool in [('title', ['The Title', 'T', 'é']), ('descr', ['some text', 'über']), ('rdf', ['http://example.org/p', 'http://schema.org/name'])]:
        if rng.random() < .15:
            f[k] = [T(rng.choice(pool) + ('/' + name if k == 'rdf' else ' ' + name))]
    return f


def dialect(rng, r):
    if rng.random() < .5:
        return
    if rng.random() < .6:
        r['delim'] = [ord(rng.choice(';|\t,'))]
    if rng.random() < .3:
        r['quote'] = [ord(rng.choice('\'"'))]
    if rng.random() < .3:
        r['dbl'] = [rng.random() < .6]
    if rng.random() < .3:
        r['skipsp'] = [rng.random() < .5]
    if rng.random() < .3:
        r['header'] = [rng.random() < .4]
    if rng.random() < .4:
        r['comment'] = [T(rng.choice(['#', '%', '//']))]
    if rng.random() < .4:
        r['enc'] = [rng.choice(['utf-8', 'latin-1', 'utf-16'])]
    r['nested'] = rng.choice(['', 'mixed', 'all'])


def asmd(r):
    """The table as gen_table sees it, to make texts."""
    cols = []
    for f in r['fields']:
        fmt = g.NONE
        if f['tv'] and f['fv']:
            fmt = {'k': 'bool', 't': f['tv'][0], 'f': f['fv'][0]}
        elif f['dec'] or f['grp']:
            fmt = g.numf('', U(f['dec'][0]) if f['dec'] else '', U(f['grp'][0]) if f['grp'] else '')
        elif f['pattern'] and f['type'] == 'string':
            fmt = {'k': 're', 'x': f['pattern'][0]}
        d = g.dt(base_of(f), fmt)
        cols.append({'name': [f['name']], 'titles': f['title'], 'purl': f['rdf'], 'virtual': False, 'vurl': [], 'lv': gt.lv(datatype=[d])})
    d = {'delim': r['delim'][0] if r['delim'] else 44, 'quote': r['quote'][0] if r['quote'] else 34, 'dbl': r['dbl'][0] if r['dbl'] else True,
         'comment': r['comment'][0] if r['comment'] else [], 'skipRows': 0, 'skipCols': 0, 'lt': T('\r\n'),
         'header': r['header'][0] if r['header'] else True}
    return {'cols': cols, 'levels': [gt.lv(), gt.lv(), gt.lv(null=r['missing'])], 'd': d, 'pk': r['pk']}


def encodable(r, text):
    if r['enc'] == ['latin-1']:
        return ''.join(c if ord(c) < 256 else '?' for c in text)
    return text


def text(rng, r, **kw):
    m = asmd(r)
    res = gt.text(rng, m, **kw).replace('null', 'nil')   # the JSON value null is not told from a missing one
    if rng.random() < .15 and m['d']['header']:   # a row which might be taken for a comment
        res += '#' + chr(m['d']['delim']).join(['x'] * len(r['fields'])) + '\r\n'
    return encodable(r, res)


PROPS = {'id': 'some-id', 'title': 'A title', 'homepage': 'http://example.org', 'description': 'a description', 'profile': 'data-package',
         'created': '2020-01-01', 'name': 'the-name', 'keywords': ['a', 'b'], 'licenses': [{'name': 'CC0', 'path': 'http://creativecommons.org'}],
         'sources': [{'title': 'x', 'path': 'y.csv'}], 'contributors': [{'title': 'N. N.', 'role': 'author'}], 'version': '1.0', 'image': 'x.png'}


def props(rng):
    return [[k, tree(PROPS[k])] for k in rng.sample(sorted(PROPS), rng.choice([0, 1, 2, 3, 5]))]


def package(rng):
    """A package with arbitrary fields and its texts."""
    res, files = [], []
    for n in range(1, rng.choice([1, 1, 2, 3]) + 1):
        names = rng.sample(NAMES, rng.choice([1, 2, 3, 4]))
        r = resource(n, [anyfield(rng, x) for x in names])
        dialect(rng, r)
        if rng.random() < .3:
            r['missing'] = [[T(x) for x in rng.choice([['NA'], ['', 'NA'], ['-', 'n/a'], [], ['', '-']])]]
        if rng.random() < .3:
            able = [U(f['name']) for f in r['fields'] if f['type'] not in ('object', 'array', 'geojson')]
            r['pk'] = [T(x) for x in rng.sample(able, rng.choice([1, len(able)]))] if able else []
        r['bare'] = rng.random() < .5
        r['path'] = [T(rng.choice(['r%d.csv', 'data/r%d.csv', 'T%d.txt']) % n)]
        q = rng.random()
        if q < .04:
            r['schema'] = False
        elif q < .08:
            r['scheme'] = rng.choice(['', 'http'])
        elif q < .12:
            r['format'] = rng.choice(['', 'xlsx', 'tsv'])
        elif q < .14:
            r['path'] = []
        if rng.random() < .2:
            r['name'] = []
        if rng.random() < .3:
            r['more'] = {'hashing': 'md5', 'title': 'resource', 'profile': 'tabular-data-resource', 'mediatype': 'text/csv', 'stats': {'rows': 3}}
        res.append(r)
        if istable(r):
            files.append({'plain': [T(text(rng, r))], 'zip': []})
    return {'props': props(rng), 'res': res, 'nores': True}, files


def keyed(rng):
    """A package with references between its resources."""
    res, pools = [], []
    nt = rng.choice([1, 2, 2, 3])
    for n in range(1, nt + 1):
        bs = [rng.choice(['string', 'string', 'integer', 'number', 'date', 'boolean']) for _ in range(rng.choice([1, 2]))]
        r = resource(n, [field('k%d' % (i + 1), type=b) for i, b in enumerate(bs)], bare=rng.random() < .5)
        if rng.random() < .4:
            r['pk'] = [T('k%d' % (i + 1)) for i in range(rng.choice([1, len(bs)]))]
        if rng.random() < .2:
            r['missing'] = [[T('NA')]]
        res.append(r)
        pools.append(bs)
    for k in range(rng.choice([1, 1, 2])):
        t, rt = rng.randint(1, nt), rng.randint(1, nt)
        cols = []
        idx = rng.sample(range(len(pools[rt - 1])), rng.choice([1, len(pools[rt - 1])]))
        for i in idx:
            b = res[rt - 1]['fields'][i]['type'] if rng.random() < .95 else rng.choice(['string', 'integer'])
            res[t - 1]['fields'].append(field('f%d%d' % (k, i), type=b))
            cols.append(T('f%d%d' % (k, i)))
        res[t - 1]['fks'].append({'cols': cols, 'res': [] if t == rt and rng.random() < .7 else res[rt - 1]['name'][0],
                                  'rcols': [T('k%d' % (i + 1)) for i in idx]})
    if rng.random() < .1:   # what is referred to is no table
        rng.choice(res)['format'] = 'xlsx'
    keys = {'string': ['a', 'b', 'c'], 'integer': ['1', '2', '02'], 'number': ['1', '1.0', '2.5'], 'date': ['2020-01-01', '2020-02-29'],
            'boolean': ['true', '1', 'false']}
    files = []
    for r in res:
        if not istable(r):
            continue
        rows = [[U(f['name']) for f in r['fields']]]
        for _ in range(rng.choice([0, 1, 2, 3, 4])):
            rows.append([rng.choice(['', 'NA', 'junk']) if rng.random() < .06 else rng.choice(keys[f['type']][:rng.choice([1, 2, 3])])
                         for f in r['fields']])
        files.append({'plain': [T('\n'.join(','.join(x) for x in rows) + '\n')], 'zip': []})
    return {'props': props(rng), 'res': res}, files
