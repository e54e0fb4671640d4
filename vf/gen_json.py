"""Generators of described tables to be converted to JSON or validated."""
from . import gen_cell as g
from . import gen_dsv as gd
from . import gen_table as gt
from .core import T, U

NOURI = {'about': [], 'prop': [], 'value': []}
NAMES = [n for n in gt.NAMES if not any(c.isspace() or c == '%' for c in n)]
BASES = gt.BASES + ['date', 'dateTime', 'dateTimeStamp', 'time', 'decimal', 'float', 'yearMonthDuration', 'gYear', 'boolean', 'datetime', 'NMTOKEN']
NS = ['http://example.org/x#', 'http://purl.org/dc/terms/', 'http://schema.org/', 'https://example.org/']
PROPS = ['p', 'title', 'name', 'knows', 'x-1']
PREFIX = ['schema:', 'dc:', 'dc11:', 'foaf:', 'rdf:', 'rdfs:', 'skos:', 'csvw:']


def lit(s):
    return ['lit', T(s)]


def ex(name, op=0):
    return ['ex', op, [{'n': T(name), 'x': False, 'p': 0}]]


def bad(rng):
    return [['bad', rng.randint(0, 3)]]


def prop_template(rng, usable):
    if rng.random() < .03:
        return bad(rng)
    r = rng.random()
    if r < .2:
        return [lit(rng.choice(PREFIX) + rng.choice(PROPS))]
    if r < .35:
        return [lit(rng.choice(PREFIX)), ex('_name')]
    if r < .45:
        return [lit(rng.choice(NS) + rng.choice(PROPS))]
    if r < .6:
        return [lit(rng.choice(NS)), ex('_name')]
    if r < .68:
        return [lit('rdf:type')]
    if r < .78:
        return [lit(rng.choice(['#', '', 'v/', '/abs/'])), ex('_name')]
    if r < .85:
        return [ex('_name', 35)]
    return [lit(rng.choice(['ex/p', '#p', 'p', '../q']))]


def about_template(rng, usable, strings):
    if rng.random() < .03:
        return bad(rng)
    r = rng.random()
    if r < .3:
        return [lit(rng.choice(['#row-', 'http://example.org/r', 'row/'])), ex('_row')]
    if r < .4:
        return [lit('http://example.org/thing')]
    if r < .5:
        return [lit(rng.choice(PREFIX) + 'x'), ex('_row')]
    if r < .6 or not usable:
        return [lit('#'), ex(rng.choice(['_row', 'none']))]
    return [lit(rng.choice(['#', 'http://example.org/', 'a/', ''])), ex(rng.choice(usable), rng.choice([0, 0, 0, 43]))]


def value_template(rng, usable, strings):
    if rng.random() < .03:
        return bad(rng)
    r = rng.random()
    if r < .3 and usable:
        return [lit(rng.choice(PREFIX + NS)), ex(rng.choice(usable))]
    if r < .45:
        return [lit(rng.choice(PREFIX) + rng.choice(PROPS))]
    if r < .6:
        return [lit('http://example.org/thing')]
    if r < .75:
        return [lit(rng.choice(['#row-', 'http://example.org/r'])), ex('_row')]
    return no_slashes(gt.template(rng, usable, strings))


def no_slashes(tmpl):
    """No template which may expand to a text with // except within http:// (fence)."""
    res = []
    for i, tok in enumerate(tmpl):
        if i and tok[0] == 'lit' and U(tok[1]).startswith('http'):
            tok = lit('x')
        if tok[0] == 'ex' and tok[1] == 47:
            tok = ['ex', 47, tok[2][:1]]
        slash = tok[2:] and tok[1] == 47 or tok[0] == 'lit' and U(tok[1])[:1] == '/'
        before = res and (res[-1][0] == 'ex' and res[-1][1] == 47 or res[-1][0] == 'lit' and U(res[-1][1])[-1:] == '/')
        if slash and before:
            continue
        res.append(tok)
    if any(t[0] == 'lit' and t[1] == [47] for t in res):
        res = [t for t in res if not (t[0] == 'lit' and t[1] == [47])] + [lit('y')]
    return res


def jvalue(rng, depth=0):
    r = rng.random()
    if depth == 0 and r < .08:
        # lists in lists
        return ['l', [['l', [jvalue(rng, 2)]]] + [jvalue(rng, 1)] * (rng.random() < .4)]
    if r < .35:
        return ['s', T(rng.choice(['', 'text', 'ä', 'http://example.org/x', 'dc:title']))]
    if r < .45:
        return ['num', False, [4, 2], 0] if rng.random() < .5 else ['num', True, [1, 5], -1]
    if r < .5:
        return ['b', rng.randint(0, 1)]
    if r < .6:
        return ['o', [[T('@value'), rng.choice([['s', T('v')], ['b', 1], ['num', False, [7], 0], ['s', []]])]]
                + rng.choice([[], [[T('@language'), ['s', T('en')]]], [[T('@type'), ['s', T('schema:Thing')]]]])]
    if r < .7:
        return ['o', [[T('@id'), ['s', T('http://example.org/id')]]]]
    if depth < 2 and r < .85:
        return ['l', [jvalue(rng, depth + 1) for _ in range(rng.choice([0, 1, 1, 2]))]]
    if depth < 2:
        keys = rng.sample(['dc:title', rng.choice(['rdf:type', '@type']), 'schema:url', '@id', 'rdfs:label'], rng.choice([1, 2, 2]))
        return ['o', [[T(k), ['s', T('http://example.org/i')] if k[0] == '@' else jvalue(rng, depth + 1)] for k in keys]]
    return ['s', T('deep')]


def common(rng, p=.25):
    if rng.random() > p:
        return []
    return [[T(k), jvalue(rng)] for k in rng.sample(['dc:title', 'dc:creator', 'schema:about', 'http://example.org/p', 'rdf:type', 'dc:description'],
                                                    rng.choice([1, 1, 2]))]


def usable_names(m):
    reg = [i for i, c in enumerate(m['cols']) if not c['virtual']]
    return [h for i, h in zip(reg, gt.headers(m)) if not gt.inherited(m, i, 'separator') and gt.dtype(m, i)['base'] in ('string', 'integer')
            and all(c.isalnum() and ord(c) < 128 or c == '_' for c in h) and h not in ('self',)]


def foreign(m, uris):
    """Do templates use columns of the table with values about whose texts nothing is claimed?"""
    names = [gt.U(v['n']) for ts in uris.values() for t in ts for tok in t if tok[0] == 'ex' for v in tok[2]]
    return any(n in gt.headers(m) and n not in usable_names(m) for n in names)


def decorate(rng, m, uris=.5):
    """URIs and annotations for a table."""
    reg = [i for i, c in enumerate(m['cols']) if not c['virtual']]
    heads = gt.headers(m)
    usable = usable_names(m)
    strings = [h for i, h in zip(reg, heads) if gt.dtype(m, i)['base'] == 'string']
    m['uris'] = [dict(NOURI) for _ in range(3)]
    on = rng.random() < uris
    if on and rng.random() < .6:
        m['uris'][rng.choice([0, 1, 2, 2, 2])]['about'] = [about_template(rng, usable, strings)]
    if on and m['cols'] and rng.random() < .2:
        m['uris'][rng.choice([0, 1, 2])]['prop'] = [prop_template(rng, usable)]
    if on and m['cols'] and rng.random() < .05:
        m['uris'][rng.choice([0, 1, 2])]['value'] = [value_template(rng, usable, strings)]
    graph = on and rng.random() < .4
    for c in m['cols']:
        c['uris'] = dict(NOURI)
        c['purl'], c['supp'], c['pbad'] = [], rng.random() < .08, 0
        if c['virtual']:
            if c['vurl']:
                c['vurl'] = [value_template(rng, usable, strings)]
                c['uris']['value'] = c['vurl']
        elif on and rng.random() < .15:
            c['uris']['value'] = [value_template(rng, usable, strings)]
        if on and rng.random() < .5 or c['virtual']:
            c['uris']['prop'] = [prop_template(rng, usable)]
        if graph and rng.random() < .4:
            c['uris']['about'] = [about_template(rng, usable, strings)]
    m['supp'] = rng.random() < .06
    m['props'] = common(rng)
    m['notes'] = [[jvalue(rng) for _ in range(rng.choice([1, 2]))]] if rng.random() < .1 else []
    m['id'] = [T(rng.choice(['http://example.org/table', 'tbl', '#t']))] if rng.random() < .1 else []
    pool = strings if rng.random() < .3 else heads
    m['titles'] = [T(h) for h in rng.sample(pool, min(len(pool), rng.choice([1, 1, 2])))] if rng.random() < .2 else []
    m['titles'] = [t for t in m['titles'] if not gt.inherited(m, gt.headers(m).index(U(t)), 'separator')] if not any(
        c['virtual'] for c in m['cols']) else []
    return m


def digits(s):
    return sum(c.isdigit() for c in s)


def cell(rng, m, i):
    for _ in range(30):
        s = gt.cell(rng, m, i, .9)
        if gt.dtype(m, i)['base'] in g.FLOAT + ['decimal'] and any(digits(x) > 14 for x in s.split(U(gt.inherited(m, i, 'separator') or T('\0')))):
            continue
        return s
    return ''


def text(rng, m, nrows=None, exact=.8):
    d = m['d']
    reg = [(gt.header_of(c, i), i) for i, c in enumerate(m['cols']) if not c['virtual']]
    hd = list(reg)
    if rng.random() > exact:
        hd = [(rng.choice([U(t) for t in m['cols'][i]['titles']] or [h]), i) for h, i in hd]
        if rng.random() < .3 and hd:
            hd.pop()
        elif rng.random() < .3 and not any(c['virtual'] for c in m['cols']):
            hd.append(('extra', None))
    if not m['cols']:
        hd = [(h, None) for h in rng.sample(gt.NAMES, rng.randint(1, 3))]
    extra = ['', 'u', 'v w'] + [gt.clean(m, U(t)) for l in m['levels'] for ts in l['null'] for t in ts]
    rows = [rng.choice(['#skip', 'x' + chr(d['delim']) + 'y', 'skipped']) for _ in range(d['skipRows'])]
    if d['header']:
        rows.append(['s'] * d['skipCols'] + [gt.clean(m, h) for h, _ in hd])
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5]) if nrows is None else nrows):
        r = rng.random()
        if r < .05 and d['comment']:
            rows.append(U(d['comment']) + ' note')
        elif r < .07:
            rows.append('')
        row = ['s'] * d['skipCols'] + [gt.clean(m, cell(rng, m, i)) if i is not None else rng.choice(extra) for _, i in hd]
        if rng.random() < .04 and row:
            row.pop()
        rows.append(row)
    return gt.csv_text(rng, d, rows)


def plain_table():
    m = {'cols': [], 'levels': [gt.lv(), gt.lv(), gt.lv()], 'd': dict(gd.CSVW, comment=[]), 'pk': [], 'simple': True}
    m.update({'uris': [dict(NOURI) for _ in range(3)], 'supp': False, 'props': [], 'notes': [], 'id': [], 'titles': []})
    return m


def rename(m):
    """Only names which are kept when converting."""
    taken = set()
    for c in m['cols']:
        c['titles'] = [t for t in c['titles'] if 37 not in t]
        taken |= {U(t) for t in c['name'] + c['titles']}
    for c in m['cols']:
        if c['name'] and any(x.isspace() or x == '%' for x in U(c['name'][0])):
            pool = [n for n in NAMES if n not in taken]
            c['name'] = [T(pool[0])]
            taken.add(pool[0])
    return m


def tables(rng, n, **kw):
    mds = []
    for _ in range(n):
        m = rename(gt.md(rng, **dict(dict(bases=BASES, dia=gt.dialect(rng) if rng.random() < .25 else dict(gd.CSVW)), **kw)))
        mds.append(m)
    for m in mds[1:]:
        m['levels'][0] = mds[0]['levels'][0]
    for m in mds:
        decorate(rng, m)
        m['uris'][0] = mds[0]['uris'][0]
    if any(foreign(m, mds[0]['uris'][0]) for m in mds):
        for m in mds:
            m['uris'][0] = dict(NOURI)
    return mds


def jev(rng, **kw):
    cli = rng.random() < .08
    return dict({'op': 'json', 'minimal': not cli and rng.random() < .3, 'fresh': rng.random() < .5, 'cli': cli}, **kw)


def vev(rng, **kw):
    return dict({'op': 'valid', 'fresh': rng.random() < .5, 'cli': rng.random() < .15, 'filter': rng.choice(['default', 'ignore', 'always', 'error'])}, **kw)


def plan(mds, texts, ev, kind, url=False, fks=(), gprops=(), dat='table', names=None, **kw):
    names = names or ['%st%d.csv' % ('' if i == 0 else 'sub/', i + 1) for i in range(len(mds))]
    return dict(kw, mds=mds, texts=texts, ev=ev, kind=kind, url=url, fks=list(fks), gprops=list(gprops), dat=dat, names=names)


def jdoc(rng, depth=0):
    r = rng.random()
    if r < .6 or depth > 2:
        return rng.choice(['5', '-1.5', '"x"', '"a b"', '""', 'true', 'false', '0', '"é"', '"http://example.org/x"', '[]', '{}'] + ['null'] * (depth > 0))
    if r < .8:
        return '[' + ', '.join(jdoc(rng, depth + 1) for _ in range(rng.choice([1, 1, 2]))) + ']'
    return '{' + ','.join('"%s": %s' % (k, jdoc(rng, depth + 1)) for k in rng.sample(['a', '@id', 'b c', 'rdf:type', '@value'], rng.choice([1, 2]))) + '}'


def embedded(rng):
    """JSON in cells."""
    m = plain_table()
    m['cols'] = [col('c%d' % i, dt='json' if rng.random() < .7 else None, sep='|' if rng.random() < .2 else None) for i in range(rng.choice([1, 2, 3]))]
    if rng.random() < .3:
        m['uris'][2] = dict(NOURI, prop=[[lit('http://example.org/'), ex('_name')]])

    def one(c):
        return jdoc(rng) if c['lv']['datatype'] else rng.choice(['x', 'y'])
    rows = [[U(c['name'][0]) for c in m['cols']]]
    for _ in range(rng.choice([1, 2, 4])):
        rows.append(['' if rng.random() < .1 else '|'.join(one(c) for _ in range(rng.choice([1, 2]) if c['lv']['separator'] else 1)) for c in m['cols']])
    return plan([m], [T(gt.csv_text(rng, m['d'], rows))], [jev(rng) for _ in range(rng.choice([1, 2]))], rng.choice(['single', 'group']), rng.random() < .4)


def conversion(rng):
    r = rng.random()
    if r > .92:
        return embedded(rng)
    url = rng.random() < .4
    if r < .06:
        mds, kind = [plain_table()], 'none'
    elif r < .4:
        mds, kind = tables(rng, 1), rng.choice(['single', 'single', 'default'])
        mds[0]['levels'][0] = gt.lv()
        mds[0]['uris'][0] = dict(NOURI)
    else:
        mds, kind = tables(rng, rng.choice([1, 1, 2, 3])), 'group'
    texts = [T(text(rng, m)) for m in mds]
    return plan(mds, texts, [jev(rng) for _ in range(rng.choice([1, 2, 3]))], kind, url, gprops=common(rng, .5) if kind == 'group' else [])


# -- objects ----------------------------------------------------------------
def col(name, about=None, prop=None, value=None, virtual=False, sep=None, dt=None):
    c = {'name': [T(name)], 'titles': [], 'purl': [], 'virtual': virtual, 'vurl': [[lit(value)]] if value else [], 'supp': False,
         'lv': gt.lv(), 'uris': dict(NOURI)}
    for k, v in (('about', about), ('prop', prop), ('value', value)):
        if v:
            c['uris'][k] = [v if isinstance(v, list) else [lit(v)]]
    if sep:
        c['lv']['separator'] = [T(sep)]
    if dt:
        c['lv']['datatype'] = [g.dt(dt, short=True)]
    return c


def thing(i):
    return 'http://example.org/thing/%d' % i


def objects(x, row):
    """The table which describes objects with references to each other."""
    m = plain_table()
    n = len(x['own'])
    for i in range(n):
        if x['own'][i]:
            m['cols'].append(col('o%d' % i, thing(i), 'http://example.org/own'))
    texts = ['v%d' % i for i in range(len(m['cols']))]
    for i in range(n):
        for j in range(n):
            if x['refs'][i][j]:
                m['cols'].append(col('r%d%d' % (i, j), thing(i), 'http://example.org/ref%d' % j, thing(j), True))
    if row is not None:
        m['uris'][2]['about'] = [[lit(thing(row))]]
    if not texts:
        m['cols'].insert(0, col('x'))
        m['cols'][0]['supp'] = True
        texts = ['x']
    names = [U(c['name'][0]) for c in m['cols'] if not c['virtual']]
    return m, ','.join(names) + '\n' + ','.join(texts) + '\n'


def graph(rng):
    """Tables whose cells describe a few objects."""
    m = plain_table()
    k = rng.choice([1, 2, 2, 3])
    few = rng.random() < .4
    abouts = [None] + [thing(i) for i in range(k)] + ['#b', [lit('http://example.org/'), ex('c0')]]
    props = ['http://example.org/p', 'http://example.org/q', 'rdf:type', 'dc:title', 'p']
    if few:
        props = [rng.choice(props)]
    values = [thing(i) for i in range(k)] + ['#b', 'schema:Thing']
    n = rng.choice([1, 2, 3, 3, 4])
    for i in range(n):
        sep = '|' if rng.random() < .3 else None
        dt = rng.choice([None, None, 'integer', 'boolean', 'decimal', 'date']) if i else None
        c = col('c%d' % i, rng.choice(abouts), rng.choice(props + [None, None][:2 - few]), rng.choice(values) if rng.random() < .25 else None, sep=sep, dt=dt)
        if sep and rng.random() < .4:
            c['lv']['null'] = [[T('NA')]]
        m['cols'].append(c)
    for i in range(rng.choice([0, 0, 1, 2])):
        m['cols'].append(col('v%d' % i, rng.choice(abouts), rng.choice(props), rng.choice(values), True))
    if rng.random() < .6:
        m['uris'][rng.choice([0, 1, 2])]['about'] = [[lit(rng.choice([thing(0), thing(9), '#b']))] if rng.random() < .5 else [lit('#'), ex('_row')]]
    rows = []
    pool = {None: ['x', 'y', '', '1'], 'integer': ['1', '02', '', 'x'], 'boolean': ['true', '0', ''], 'decimal': ['1.50', '2', ''],
            'date': ['2020-02-29', '2020-02-29Z', '']}
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = []
        for c in m['cols']:
            if not c['virtual']:
                vals = pool[c['lv']['datatype'][0]['base'] if c['lv']['datatype'] else None]
                items = [v for v in vals if v not in ('', 'x')] + (['NA'] if c['lv']['null'] else [])
                r.append('|'.join(rng.choice(items) for _ in range(rng.choice([0, 1, 2, 3]))) if c['lv']['separator'] else rng.choice(vals))
        rows.append(r)
    text = '\n'.join(','.join(r) for r in [[U(c['name'][0]) for c in m['cols'] if not c['virtual']]] + rows) + '\n'
    return m, text


def graphs(rng):
    ms = [graph(rng) for _ in range(rng.choice([1, 1, 2]))]
    for m, _ in ms[1:]:
        m['uris'][0] = dict(NOURI) if any(foreign(x, ms[0][0]['uris'][0]) for x, _ in ms) else ms[0][0]['uris'][0]
    evs = [jev(rng, minimal=x, cli=False) for x in rng.sample([True, False, rng.random() < .5], 3)]
    return plan([m for m, _ in ms], [T(t) for _, t in ms], evs, 'group', rng.random() < .4)


# -- validity ---------------------------------------------------------------
def languages(rng):
    """Headers which are titles in some language."""
    m = plain_table()
    texts = rng.sample(['x', 'y', 'z', 'Name', 'Titel', 'été', 'k 1', 'w'], 8)
    tag = rng.choice(['de', 'en', 'de-AT', 'en-US', 'und'])
    kind = rng.choice(['group', 'single'])
    m.update(langat=rng.choice(['table', 'group'] * (kind == 'group') + ['table', 'no']), tag=tag)
    if m['langat'] != 'no' and tag != 'und':
        m['lang'] = tag.split('-')[0]
    header = []
    for i in range(rng.choice([1, 2, 2, 3])):
        col = {'name': [], 'titles': [], 'purl': [], 'virtual': False, 'vurl': [], 'lv': gt.lv(), 'uris': dict(NOURI), 'supp': False}
        mine = [texts.pop() for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < .5:
            col['name'] = [T('c%d' % i)]
        if rng.random() < .5:
            col['titles'] = [T(rng.choice(mine + ['und%d' % i]))]
        col['tagged'] = [[rng.choice(['de', 'en', 'de-CH', 'en-GB', 'fr']), T(rng.choice(mine))] for _ in range(rng.choice([1, 1, 2, 3]))]
        col['ltitles'] = [[tag.split('-')[0], t] for tag, t in col['tagged']]
        header.append(U(rng.choice(col['name'] + col['titles'] + [t for _, t in col['tagged']] * 2 + [T('other')] * (rng.random() < .2))))
        m['cols'].append(col)
    text = gt.csv_text(rng, m['d'], [header] + [[rng.choice('ab') for _ in header] for _ in range(rng.choice([0, 1, 2]))])
    return plan([m], [T(text)], [vev(rng)], kind, rng.random() < .3)


def validity(rng):
    r = rng.random()
    if r > .92:
        return languages(rng)
    evs = [vev(rng) if rng.random() < .8 else jev(rng, minimal=False) for _ in range(rng.choice([1, 2, 2, 3]))]
    if r < .35:
        mds, fks, texts, dat, _ = gt.fkgroup(rng)
        if any(gt.dtype(m, i)['base'] == 'anyURI' for m in mds for i in range(len(m['cols']))):
            evs = [vev(rng) for _ in evs]
        for m in mds:
            m.update({k: v for k, v in plain_table().items() if k not in m})
            for c in m['cols']:
                c['uris'], c['supp'] = dict(NOURI), False
        return plan(mds, [T(t) for t in texts], evs, 'group', rng.random() < .5, fks, dat=dat)
    if r < .5:
        m, text = gt.pktable(rng)
        evs = [vev(rng) for _ in evs]
        m.update({k: v for k, v in plain_table().items() if k not in m})
        for c in m['cols']:
            c['uris'], c['supp'] = dict(NOURI), False
        return plan([m], [T(text)], evs, 'group', rng.random() < .4)
    p = conversion(rng)
    p['ev'] = evs
    return p
