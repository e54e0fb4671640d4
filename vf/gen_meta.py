"""Generators of metadata."""
from .core import T

# -- locating ---------------------------------------------------------------
LIT = lambda s: ['lit', T(s)]  # noqa: E731
EX = lambda op: ['ex', ord(op) if op else 0, [{'n': T('url'), 'x': False, 'p': 0}]]  # noqa: E731
LINES = [[EX('+'), LIT('-metadata.json')], [LIT('csv-metadata.json')], [], [LIT('/md/x.json')], [EX('+'), LIT('.json')],
         [LIT('../all.json')], [LIT('/meta/'), EX('')], [LIT('http://m.org/x.json')], [LIT('meta.json')]]
PLACES = ['http://h.org/a/b.csv-metadata.json', 'http://h.org/a/csv-metadata.json', 'http://h.org/md/x.json', 'http://h.org/a/b.csv.json',
          'http://h.org/all.json', 'http://h.org/meta/http%3A%2F%2Fh.org%2Fa%2Fb.csv', 'http://m.org/x.json', 'http://h.org/a/meta.json']
OTHERS = ['{}', '{"tables": 5}', '{"tables": [1, "b.csv"]}', '{"tables": [{"name": "b.csv"}]}', '{"url": 5}', '{"tables": [{"url": null}]}',
          '{"tables": {"url": "b.csv"}}', '{"@context": "http://www.w3.org/ns/csvw"}', '{"tables": []}']
JSONS = ['[]', '[{"url": "b.csv"}]', '5', '"b.csv"', 'null', 'true', '[1]']
BROKEN = ['', '{"url": "b.csv"', '<html></html>', 'b.csv', "{'url': 'b.csv'}"]


def refs_to(rng, page, url):
    """References to url from page; several forms."""
    import posixpath
    res = [url]
    if '://' in url:
        a, b = url.split('/', 3), page.split('/', 3)
        if a[:3] == b[:3]:
            res += ['/' + a[3], posixpath.relpath('/' + a[3], posixpath.dirname('/' + b[3]))] * 2
    else:
        res = [posixpath.relpath(url, posixpath.dirname(page))]
    return rng.choice(res)


def page(rng, u, url, i):
    k = rng.choice(['md'] * 5 + ['other', 'json', 'broken'])
    p = dict(u=T(u), k=k, refs=[], grp=False, ctx=True, mark=T('page %s' % i), hd=[])
    if k == 'md':
        p['grp'] = rng.random() < .4
        refs = [rng.choice(['other.csv', 'http://h.org/c.csv', 'b.csvx', 'ab.csv', '../b.tsv', 'B.csv'])
                for _ in range(rng.choice([1, 1, 2]) if p['grp'] else 1)]
        if rng.random() < .6:
            refs[rng.randrange(len(refs))] = refs_to(rng, u, url)
        if '://' not in url:
            refs = [r for r in refs if '://' not in r] or ['other.csv']
        p['refs'] = [T(r) for r in refs]
        p['ctx'] = rng.random() < .95
        if rng.random() < .3:
            p['hd'] = [rng.random() < .7]
        p['dia'] = rng.random() < .2
    elif k != 'md':
        p['text'] = rng.choice(dict(other=OTHERS, json=JSONS, broken=BROKEN)[k])
    return p


def loc_ev(rng):
    return [dict(op='open', validate=rng.random() < .6, path=rng.random() < .5) for _ in range(rng.choice([1, 1, 2]))]


def loc_plan(rng, w):
    w.setdefault('over', [])
    return dict(w=w, ctype=[rng.choice(['text/csv', 'text/csv; charset=utf-8', 'text/csv; header=present', 'text/plain']),
                            rng.choice(['text/csv; header=absent', 'text/csv;header=absent; charset=utf-8', 'text/csv; header = absent'])],
                nl=rng.choice(['\n', '\n', '\r\n']), ev=loc_ev(rng))


def location(rng):
    url = 'http://h.org/a/b.csv'
    if rng.random() < .15:
        return local_location(rng)
    w = dict(url=T(url), over=[], link=[], site=[], absent=rng.random() < .25, lines=rng.choice([1, 2, 3, 4]), pages=[])
    w['pages'].append(dict(u=T(url), k='csv', refs=[], grp=False, ctx=False, mark=[], hd=[]))
    if rng.random() < .4:
        w['site'] = [rng.sample(LINES, rng.randint(0, 4))]
    for i, u in enumerate(PLACES):
        if rng.random() < .5:
            w['pages'].append(page(rng, u, url, i))
    if rng.random() < .5:
        u = rng.choice(PLACES[2:])
        w['link'] = [dict(ref=T(refs_to(rng, url, u) if rng.random() < .8 else 'nothing.json'),
                          type=[] if rng.random() < .15 else [T(rng.choice(['application/csvm+json', 'application/ld+json', 'application/json',
                                                                            'application/csvm+json', 'text/html', 'application/xml']))])]
    r = rng.random()
    if r < .1:
        w['over'] = [w['pages'][rng.randrange(len(w['pages']))]['u']]
    elif r < .2:
        w['url'] = w['pages'][rng.randrange(len(w['pages']))]['u']
        w['link'] = []
        if any(p['u'] == w['url'] and p['k'] in ('json', 'broken') for p in w['pages']):
            w['url'] = T(url)
    return loc_plan(rng, w)


def local_location(rng):
    url = '/a/b.csv'
    w = dict(url=T(url), over=[], link=[], site=[], absent=False, lines=rng.choice([1, 2, 3, 4]), pages=[])
    w['pages'].append(dict(u=T(url), k='csv', refs=[], grp=False, ctx=False, mark=[], hd=[]))
    for i, u in enumerate(['/a/b.csv-metadata.json', '/a/md.json']):
        if rng.random() < .6:
            while True:
                p = page(rng, u, url, i)
                # what a local file says is not questioned
                if p['k'] == 'md' and T('b.csv') in p['refs'] or p['k'] == 'other' and u == '/a/md.json':
                    break
            w['pages'].append(p)
    if len(w['pages']) > 1 and rng.random() < .4:
        w[rng.choice(['over', 'url'])] = w['pages'][-1]['u']
        if isinstance(w['over'], list) and w['over']:
            w['over'] = [w['over']]
    return loc_plan(rng, w)


# -- metadata documents -----------------------------------------------------
from .drive_meta import mtag, MDURL  # noqa: E402

LANGS = ['en', 'de', 'en-US', 'fr']
INTS = ['integer', 'int', 'decimal', 'long', 'nonNegativeInteger', 'unsignedByte']
SIZED = ['string', 'anyURI', 'hexBinary', 'normalizedString']
NAMES = ['a', 'b', 'c', 'ID', 'Über', 'a.b', 'x1', 'n-m']
TEXTS = ['x', 'a b', 'Ä', '', '"q"', 'x:y', 'http://example.org/t', '{a}', '\\', '\n', '日本']


def text(rng):
    return rng.choice(TEXTS[:3] + TEXTS)


def common_value(rng, depth=2):
    r = rng.random()
    if r < .3 or depth == 0:
        return rng.choice([text(rng), 5, -3, True, False, None, 0, 2.5, ''])
    if r < .45:
        return dict(rng.choice([{}, {'@language': rng.choice(LANGS)}, {'@type': rng.choice(['xsd:integer', 'http://example.org/T'])}]),
                    **{'@value': rng.choice(['x', '', 5, True, 2.5])})
    if r < .65:
        return [common_value(rng, depth - 1) for _ in range(rng.randint(0, 3))]
    res = {rng.choice(['dc:title', 'schema:name', 'http://example.org/p', 'name']): common_value(rng, depth - 1) for _ in range(rng.randint(0, 2))}
    if rng.random() < .3:
        res['@id'] = rng.choice(['http://example.org/x', 'x', '#x'])
    if rng.random() < .3:
        res['@type'] = rng.choice(['schema:Person', ['schema:Person', 'foaf:Agent'], 'http://example.org/T', 'csvw', 'as:Note', 'time', 'uriTemplate', 'rdfa:x', 'tableSchema', 'vcard:Kind'])
    return res


def tmpl(rng):
    return rng.choice(['http://example.org/{a}', '#{a}', '{+a}/x', '', 'x', 'schema:name', 'http://example.org/x{#a,b}', '{?a*}', '{a'])


def datatype(rng):
    r = rng.random()
    if r < .35:
        return rng.choice(INTS + SIZED + ['boolean', 'date', 'dateTime', 'double', 'number', 'json', 'duration', 'any', 'gYear', 'time', 'QName'])
    k = rng.choice(['int', 'int', 'str', 'str', 'date', 'any', 'none'])
    res = {}
    if k == 'int':
        res['base'] = rng.choice(INTS)
        lo, hi = sorted(rng.sample(range(-5, 40), 2))
        if rng.random() < .5:
            res[rng.choice(['minimum', 'minInclusive', 'minExclusive'])] = rng.choice([abs(lo), str(abs(lo))])
        if rng.random() < .5:
            res[rng.choice(['maximum', 'maxInclusive', 'maxExclusive'])] = rng.choice([hi + 50, str(hi + 50)])
        if rng.random() < .3:
            res['format'] = rng.choice(['0', '#,##0', {'pattern': '#0'}, {'decimalChar': ','}, {'groupChar': ' ', 'decimalChar': ','}, {'pattern': '#0', 'groupChar': '.'}])
    elif k == 'str':
        res['base'] = rng.choice(SIZED)
        r = rng.random()
        if r < .3:
            res['length'] = rng.choice([0, 1, 7])
        elif r < .7:
            res['minLength'] = rng.randint(0, 3)
            if rng.random() < .5:
                res['maxLength'] = rng.randint(3, 9)
        if rng.random() < .4:
            res['format'] = rng.choice(['[a-z]+', 'a|b', '\\d{3}', '.*'])
    elif k == 'date':
        res['base'] = rng.choice(['date', 'dateTime'])
        if rng.random() < .5:
            res['format'] = rng.choice(['yyyy-MM-dd', 'dd.MM.yyyy']) if res['base'] == 'date' else 'yyyy-MM-ddTHH:mm:ss'
        if rng.random() < .3 and 'format' not in res:
            res[rng.choice(['minimum', 'minInclusive', 'maximum', 'maxExclusive'])] = '2000-01-01' + ('T00:00:00' if res['base'] != 'date' else '')
    elif k == 'any':
        res['base'] = rng.choice(['boolean', 'duration', 'json', 'any', 'double', 'gYear'])
        if res['base'] == 'boolean' and rng.random() < .5:
            res['format'] = rng.choice(['Y|N', '1|0', 'ja|nein'])
    if rng.random() < .2:
        res['@id'] = rng.choice(['http://example.org/dt', 'x'])
    if rng.random() < .2:
        res[rng.choice(['dc:title', 'rdfs:label'])] = common_value(rng, 1)
    if rng.random() < .1:
        res['@type'] = 'Datatype'
    items = list(res.items())
    rng.shuffle(items)
    return dict(items) or {'base': 'string'}


def inherited_value(rng, k):
    return {'aboutUrl': tmpl, 'propertyUrl': tmpl, 'valueUrl': tmpl, 'datatype': datatype, 'default': text,
            'lang': lambda r: r.choice(LANGS + ['und']),
            'null': lambda r: r.choice(['', 'x', [], ['', 'x'], ['-'], 'NA', [''], None]),
            'ordered': lambda r: r.random() < .5, 'required': lambda r: r.random() < .5,
            'separator': lambda r: r.choice([' ', ';', '', None, '||']),
            'textDirection': lambda r: r.choice(['ltr', 'rtl', 'auto', 'inherit'])}[k](rng)


INHERITED = ['aboutUrl', 'propertyUrl', 'valueUrl', 'datatype', 'default', 'lang', 'null', 'ordered', 'required', 'separator', 'textDirection']


def annotations(rng, cls, p=.15):
    res = {}
    if rng.random() < p:
        res['@id'] = rng.choice(['http://example.org/x', 'x', '#id', 'http://example.org/ü'])
    if rng.random() < p:
        res['@type'] = cls
    for _ in range(rng.choice([0, 0, 0, 1, 2]) if p else 0):
        res[rng.choice(['dc:title', 'schema:name', 'rdfs:comment', 'http://example.org/p'])] = common_value(rng)
    return res


def inherited(rng, n):
    return {k: inherited_value(rng, k) for k in rng.sample(INHERITED, rng.randint(0, n))}


def titles(rng):
    r = rng.random()
    if r < .4:
        return text(rng)
    if r < .6:
        return [text(rng) for _ in range(rng.randint(0, 3))]
    return {k: rng.choice([text(rng), [text(rng) for _ in range(rng.randint(1, 3))]]) for k in rng.sample(LANGS + ['und'], rng.randint(1, 3))}


def column(rng, name, inh=3):
    res = dict({'name': name}, **inherited(rng, inh))
    if rng.random() < .4:
        res['titles'] = titles(rng)
    if rng.random() < .1:
        res['suppressOutput'] = rng.random() < .7
    res.update(annotations(rng, 'Column', .08))
    return shuffled(rng, res)


def shuffled(rng, d):
    items = list(d.items())
    rng.shuffle(items)
    return dict(items)


def schema(rng, urls, inh):
    names = rng.sample(NAMES, rng.randint(0, 3))
    res = inherited(rng, inh)
    if names:
        res['columns'] = [column(rng, n) for n in names]
        if rng.random() < .15:
            res['columns'].append(dict(column(rng, 'virt'), virtual=True))
        if rng.random() < .3:
            res['primaryKey'] = rng.choice([names[0], names[:1], names])
        if rng.random() < .2:
            res['rowTitles'] = rng.choice([names[0], names])
        if rng.random() < .3:
            res['foreignKeys'] = [{'columnReference': rng.choice([names[0], [names[0]]]),
                                   'reference': {'resource': rng.choice(urls), 'columnReference': rng.choice(['a', ['b']])}}
                                  for _ in range(rng.choice([1, 1, 2]))]
    res.update(annotations(rng, 'Schema', .05))
    return shuffled(rng, res)


def dialect(rng):
    res = {}
    for k, vs in [('encoding', ['utf-8', 'UTF-8', 'latin1', 'utf-16']), ('lineTerminators', [['\n'], '\r\n', ['\r\n', '\n'], ['\n', '\r']]),
                  ('quoteChar', ['"', "'", None]), ('delimiter', [',', '\t', ';']), ('commentPrefix', ['#', None, '//', '']),
                  ('doubleQuote', [True, False]), ('skipBlankRows', [True, False]), ('skipInitialSpace', [True, False]),
                  ('skipRows', [0, 1, 5]), ('skipColumns', [0, 1]), ('trim', [True, False, 'true', 'false', 'start', 'end'])]:
        if rng.random() < .25:
            res[k] = rng.choice(vs)
    r = rng.random()
    if r < .2:
        res['header'] = rng.random() < .5
    elif r < .4:
        res['headerRowCount'] = rng.choice([1, 2])
    res.update(annotations(rng, 'Dialect', .1) if rng.random() < .2 else {})
    return res


def described(rng, cls, urls, inh):
    res = inherited(rng, inh)
    if rng.random() < .3:
        res['dialect'] = dialect(rng)
    if rng.random() < .15:
        res['notes'] = [common_value(rng) for _ in range(rng.randint(0, 2))]
    if rng.random() < .15:
        res['tableDirection'] = rng.choice(['ltr', 'rtl', 'auto'])
    if rng.random() < .15:
        res['transformations'] = [{'url': 'x.mustache', 'scriptFormat': 'https://mustache.github.io/', 'targetFormat': 'http://example.org/f', 'source': 'json'}]
    res.update(annotations(rng, cls))
    return res


def context(rng):
    return rng.choice(['http://www.w3.org/ns/csvw', ['http://www.w3.org/ns/csvw'],
                       ['http://www.w3.org/ns/csvw', {'@language': rng.choice(LANGS)}], ['http://www.w3.org/ns/csvw', {'@base': 'http://example.org/'}],
                       ['http://www.w3.org/ns/csvw', {'@base': 'sub/', '@language': 'de'}]])


def table(rng, url, urls):
    res = dict(described(rng, 'Table', urls, 2), url=url)
    if rng.random() < .85:
        res['tableSchema'] = schema(rng, urls, 2)
    if rng.random() < .1:
        res['suppressOutput'] = True
    return shuffled(rng, res)


def document(rng):
    """A valid description."""
    urls = rng.sample(['a.csv', 'b.csv', 'sub/c.csv', 'http://example.org/d.csv', 'x y.csv', 'ü.csv'], rng.randint(1, 3))
    cls = rng.choice(['TableGroup', 'TableGroup', 'Table'])
    if cls == 'Table':
        doc = table(rng, urls[0], urls)
    else:
        doc = described(rng, 'TableGroup', urls, 3)
        doc['tables'] = [table(rng, u, urls) for u in urls]
        if rng.random() < .1:
            doc['tableSchema'] = schema(rng, urls, 1)
        doc = shuffled(rng, doc)
    if rng.random() < .6:
        doc['@context'] = context(rng)
    return cls, doc


BAD = [None, True, False, 0, 5, -1, 2.5, '', 'x', '_x', 'http://example.org/x', [], ['x'], [5], [None], [['x']], {}, {'x': 1}, {'en': 'x'}, {'en': 5},
       [{}], {'@value': 1}, {'@value': 'x', '@language': 'en'}, {'@id': '_:x'}, {'@type': 'unknown'}, {'@type': 'xsdinteger'}, {'@type': 'voidx:y'}, ['a', 'b'], 'a b', {'@value': [1]}, {'@id': 5}, 'en', 'decimal']
KEYS = ['unknown', 'name', 'titles', 'url', 'columns', 'datatype', 'lang', '@id', '@type', 'dc:title', 'null', 'required', 'format', 'minimum', 'maxLength',
        'length', 'primaryKey', 'delimiter', 'header', 'trim', 'virtual', '@x', '@context', 'notes', '@language', '@value']


def paths(o, p=()):
    yield p
    if isinstance(o, dict):
        for k in o:
            yield from paths(o[k], p + (k,))
    elif isinstance(o, list):
        for i in range(len(o)):
            yield from paths(o[i], p + (i,))


def at(o, p):
    for k in p:
        o = o[k]
    return o


def mutate(rng, doc):
    """Replace, add or remove something"""
    import copy
    doc = copy.deepcopy(doc)
    ps = [p for p in paths(doc) if p]
    if not ps:
        return doc
    p = rng.choice(ps)
    o, r = at(doc, p[:-1]), rng.random()
    if r < .65:
        o[p[-1]] = copy.deepcopy(rng.choice(BAD))
    elif r < .8:
        if isinstance(o, dict):
            o[rng.choice(KEYS)] = copy.deepcopy(rng.choice(BAD))
        else:
            o.insert(rng.randint(0, len(o)), copy.deepcopy(rng.choice(BAD)))
    elif r < .9:
        del o[p[-1]]
    elif isinstance(o, list):
        o.append(copy.deepcopy(rng.choice(o)))
    else:
        # the value of another member
        q = rng.choice(ps)
        v = at(doc, q)
        if not (p == q[:len(p)] or q == p[:len(q)]):
            o[p[-1]] = copy.deepcopy(v)
    return doc


BASES = INTS + SIZED + ['boolean', 'date', 'dateTime', 'datetime', 'dateTimeStamp', 'time', 'double', 'number', 'float', 'decimal', 'json', 'duration', 'any', 'gYear', 'QName',
                        'hexBinary', 'base64Binary', 'binary', 'xml', 'yearMonthDuration']
FORMATS = ['[', '(a', '*', 'a)', '\\', 'Y|N', 'yes|no', '1', '{"type": 1}', '[]', '{"minLength": -1}', 'yyyy-MM-ddTHH:mm:ssX', 'yyyy-MM-dd HH:mm XXX', 'yyyy-MM-dd', 'dd.MM.yyyy',
           'M/d/yyyy', 'yyyy-MM-ddTHH:mm:ss', 'yyyy-MM-ddTHH:mm', 'HH:mm', 'HH:mm:ss.SSS', 'HHmmX', 'a|b|c', 'Y', 'yyyy/MM', 'YYYY-MM-DD', 'yyyy-MM', 'HH-mm', '{"type": "object"}',
           '[a-z]+', '\\d{3}', '0', '#,##0.0', '0;-0', '0;0;0', ';;', '#0x', '']


def formats(rng):
    """Every datatype with every format, plain or as an object, and the names of all as @id."""
    for b in sorted(set(BASES)):
        for f in FORMATS:
            yield dict(base=b, format=f)
            yield dict(base=b, format={'pattern': f})
        yield {'base': 'string', '@id': 'http://www.w3.org/2001/XMLSchema#' + b}
        yield {'base': 'string', '@id': 'http://www.w3.org/2001/XMLSchema#x' + b}


def formatted(rng, d):
    rest = rng.choice([{}, {}, {'required': True}, {'@id': 'http://example.org/dt'}])
    if '@id' in d:
        rest = {}
    col = dict(name='a', datatype=dict(shuffled(rng, dict(d, **{k: v for k, v in rest.items() if k == '@id'}))))
    if rng.random() < .3:
        doc = {'url': 'a.csv', 'tableSchema': {'columns': [dict(name='a')]}, 'datatype': col['datatype']}
        if rng.random() < .5:
            doc['tableSchema']['datatype'] = doc.pop('datatype')
    else:
        doc = {'url': 'a.csv', 'tableSchema': {'columns': [col]}}
    return meta_plan('Table', doc, [load_ev(rng)] + ([cycle_ev(rng, 'Table')] if rng.random() < .5 else []))


def load_ev(rng):
    e = dict(op='load', via=rng.choice(['value', 'file', 'file', 'str', 'url']), base='')
    if e['via'] == 'url':
        e['base'] = MDURL
    return e


def cycle_ev(rng, cls):
    omit = rng.random() < .6
    return dict(op='cycle', via=rng.choice(['path', 'str', 'group'] if omit and cls == 'TableGroup' else ['path', 'str']), omit=omit)


def meta_plan(cls, doc, ev):
    return dict(cls=cls, doc=mtag(doc), ev=ev)


def cycles(rng):
    cls, doc = document(rng)
    return meta_plan(cls, doc, [load_ev(rng)] + [cycle_ev(rng, cls) for _ in range(rng.randint(1, 3))])


WORDS = ['', 'x', '1', '-1', '2020-01-01', '1.5', 'a;b', 'true', 'NA', 'http://example.org/y', '[1]', '10:00:00', 'P1Y', 'ff']


def use_ev(rng):
    return dict(op='use', words=[rng.choice(WORDS) for _ in range(9)])


def invalid(rng):
    cls, doc = document(rng)
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        doc = mutate(rng, doc)
    return meta_plan(cls, doc, [load_ev(rng)] + ([use_ev(rng)] if rng.random() < .4 else []) + ([cycle_ev(rng, cls)] if rng.random() < .5 else []))


def changed(rng):
    """Sessions with changes to inherited and other properties"""
    cls, doc = document(rng)
    ev = [load_ev(rng), dict(op='inherit')]
    ts = doc['tables'] if cls == 'TableGroup' else [doc]
    for _ in range(rng.randint(1, 5)):
        path = []
        t = None
        if cls == 'TableGroup' and rng.random() < .8:
            t = rng.randrange(len(ts))
            path.append(t + 1)
        elif cls == 'Table':
            t = 0
        lvl = 'doc' if t is None else 'table'
        if t is not None and rng.random() < .7:
            cols = ts[t].get('tableSchema', {}).get('columns', [])
            c = rng.randint(0, len(cols))
            path.append(c)
            lvl = 'column' if c else 'schema'
        p = rng.choice(INHERITED)
        v = inherited_value(rng, p)
        if p.endswith('Url') or p == 'datatype':
            v = rng.choice([v, None])
        if p == 'null':
            v = rng.choice([[], [''], ['x'], ['', 'NA']])
        r = rng.random()
        if r < .15:
            p, v = rng.choice(['dc:title', 'schema:name']), common_value(rng, 1)
        elif r < .25 and lvl == 'schema':
            cols = [c['name'] for c in ts[t].get('tableSchema', {}).get('columns', []) if not c.get('virtual')]
            if cols:
                p, v = 'primaryKey', rng.choice([None, cols[:1], cols])
        elif r < .35 and lvl == 'schema':
            p, v = 'foreignKeys', [{'columnReference': ['a'], 'reference': {'resource': 'z.csv', 'columnReference': ['b', 'a'][:1]}}] * rng.choice([0, 1, 2])
        elif r < .35 and lvl == 'column':
            p, v = 'titles', rng.choice([titles(rng), None])
        if lvl == 'column' and rng.random() < .3:
            ev.append(dict(op='addtitle', path=path, t=rng.choice(TEXTS), lang=rng.choice(['und', 'und', 'en', 'de', 'fr'])))
        else:
            ev.append(dict(op='set', path=path, prop=p, v=mtag(v)))
        if rng.random() < .4:
            ev.append(dict(op='headers', ts=rng.sample(TEXTS + NAMES, 5) + [tmpl(rng), tmpl(rng)]))
        ev.append(rng.choice([dict(op='inherit'), cycle_ev(rng, cls)]))
    return meta_plan(cls, doc, ev)


def meta_plan_tagged(rng, e, n):
    return dict(e, ev=[load_ev(rng)] + [cycle_ev(rng, e['cls']) for _ in range(n and rng.randint(1, n))])


def inherit_plan(rng, e):
    ev = [load_ev(rng)]
    for path, v in e['trail']:
        ev.append(dict(op='set', path=path, prop=e['prop'], v=v))
        ev.append(dict(op='inherit'))
    ev.append(cycle_ev(rng, 'TableGroup'))
    ev.append(dict(op='inherit'))
    return dict(cls='TableGroup', doc=e['doc'], ev=ev)
