"""Generators for table groups, their files and what is done with them.

Nothing in here is an oracle: TraceTable.tla decides."""
from . import gen_cell as g
from . import gen_dsv as gd
from .core import T, U

NONAME = {'null': [], 'default': [], 'required': [], 'separator': [], 'datatype': []}
NAMES = ['ID', 'Name', 'a', 'b', 'c', 'col1', 'Größe', 'x-y', 'A b', 'lang', 'item', 'n.1', '名', 'value', 'self', 'e%20x']
TITLES = NAMES + ['The Title', 'a;b', 'x,y', '"q"', ' sp', 'é']
BASES = ['string'] * 6 + ['integer'] * 4 + ['decimal'] * 2 + ['boolean', 'date', 'dateTime', 'anyURI', 'float', 'duration', 'hexBinary', 'time', 'long',
                                                      'normalizedString', 'nonNegativeInteger', 'any']
SIMPLE = ['string'] * 4 + ['integer'] * 3 + ['decimal', 'boolean', 'date']


def lv(**kw):
    return dict(NONAME, **kw)


def level(rng, bases=BASES, p=.5, sep=.15, req=.2, simple=False):
    """Inherited properties of some description."""
    res = dict(NONAME)
    if rng.random() < p:
        base = rng.choice(bases)
        d = g.dt(base, short=rng.random() < .6) if simple or rng.random() < .7 else g.datatype(rng, base)
        if base in ('integer', 'decimal') and d['f']['k'] == 'none' and rng.random() < .2:
            d['bounds'] = [[rng.choice(['minimum', 'minInclusive']), T(rng.choice(['0', '1', '-5', '100'])), False]]
            d['short'] = False
        if base == 'string' and d['f']['k'] == 'none' and rng.random() < .15:
            d[rng.choice(['minLength', 'maxLength', 'length'])] = [rng.choice([1, 2, 3, 5])]
            d['short'] = False
        res['datatype'] = [d]
    if rng.random() < sep:
        res['separator'] = [T(rng.choice(['|', ';', '; ', ' ', '//', ',']))]
    if rng.random() < .15:
        res['null'] = [[T(x) for x in rng.choice([['NA'], ['', 'NA'], ['-'], ['n/a', '?'], []])]]
    if rng.random() < .1:
        res['default'] = [T(rng.choice(['x', '1', 'NA', '0']))]
    if rng.random() < req:
        res['required'] = [rng.random() < .8]
    return res


def toplevels(rng, simple=False, bases=None):
    """Inherited properties of group, table and schema: mostly none."""
    bases = g.TEXT[:1] + (['integer', 'string'] if simple or rng.random() < .6 else bases or [])
    return [level(rng, bases, .12, .02, .04, simple) if rng.random() < .5 else lv() for _ in range(3)]


def inherited(md, i, what):
    for x in reversed(md['levels'] + [md['cols'][i]['lv']]):
        if x[what]:
            return x[what][0]
    return None


def dtype(md, i):
    return inherited(md, i, 'datatype') or g.dt('string')


def column(rng, taken, **kw):
    r = rng.random()
    name, titles = [], []
    pool = [n for n in NAMES if n not in taken]
    if r < .75:
        name = [T(rng.choice(pool))]
        taken.add(U(name[0]))
    if r > .6 and r < .95:
        pool = [n for n in TITLES if n not in taken]
        titles = [T(t) for t in rng.sample(pool, rng.choice([1, 1, 2]))]
        taken |= {U(t) for t in titles}
    col = {'name': name, 'titles': titles, 'purl': [], 'virtual': False, 'vurl': [], 'lv': level(rng, **kw),
           'tlist': rng.random() < .3, 'tund': rng.random() < .3}
    if rng.random() < .15:
        col['purl'] = [T(rng.choice(['http://example.org/p%d' % len(taken), 'dc:title%d' % len(taken), '#p%d' % len(taken)]))]
    col['pbad'] = rng.randint(1, 4) if not col['purl'] and rng.random() < .03 else 0
    return col


def dialect(rng, read=True):
    if rng.random() < .5:
        return dict(gd.CSVW)
    d = gd.dialect(rng, read=read, csvw=True)
    if d['quote'] < 0 or d['skipsp']:
        d['quote'] = 34
        d['skipsp'] = False
    d['header'] = rng.random() < .8
    d['built'] = 'init'
    if d['delim'] == 32:
        d['delim'] = 44
    if d['enc'] in ('latin-1', 'cp1252', 'utf-16'):
        d['enc'] = 'utf-8'
        d['u8'] = True
    if d['comment'] == T('a'):
        d['comment'] = T('#')
    return d


def md(rng, ncols=None, dia=None, virtual=True, levels=None, **kw):
    simple = kw.get('simple', False)
    taken = set()
    n = rng.choice([0, 1, 2, 2, 3, 3, 4]) if ncols is None else ncols
    cols = [column(rng, taken, **kw) for _ in range(n)]
    m = {'cols': cols, 'levels': levels or toplevels(rng, bases=kw.get('bases', BASES)), 'd': dia or dialect(rng), 'pk': [], 'simple': simple}
    if virtual and rng.random() < .25 and n:
        usable = [h for i, h in enumerate(headers(m)) if not inherited(m, i, 'separator') and dtype(m, i)['base'] in ('string', 'integer')
                  and all(c.isalnum() and ord(c) < 128 or c == '_' for c in h) and h not in ('self',)]
        strings = [h for i, h in enumerate(headers(m)) if dtype(m, i)['base'] == 'string']
        for k in range(rng.choice([1, 1, 2])):
            col = column(rng, taken, p=0)
            col['virtual'] = True
            col['lv'] = lv()
            if rng.random() < .85:
                col['vurl'] = [template(rng, usable, strings)]
            m['cols'].append(col)
    return m


def template(rng, names, strings=(), bad=0):
    if rng.random() < bad:
        return [['bad', rng.randint(0, 3)]]
    toks = []
    for _ in range(rng.randint(1, 3)):
        if rng.random() < .5 or not names:
            toks.append(['lit', T(rng.choice(['http://example.org/', '#', 'x/', '?q=', 'a', '/', 'path']))])
        else:
            op = rng.choice([0, 0, 0, 43, 35, 46, 47, 59, 63, 38])
            toks.append(['ex', op, [{'n': T(rng.choice(names + ['none'])), 'x': rng.random() < .2,
                                     'p': rng.choice([0, 0, 0, 1, 3])} for _ in range(rng.choice([1, 1, 2]))]])
    for t in toks:
        if t[0] == 'ex':
            for v in t[2]:
                v['p'] = 0 if v['x'] or U(v['n']) not in strings else v['p']
    return toks


def header_of(col, i):
    return U(col['name'][0]) if col['name'] else U(col['titles'][0]) if col['titles'] else '_col.%d' % (i + 1)


def headers(m):
    return [header_of(c, i) for i, c in enumerate(m['cols']) if not c['virtual']]


# -- texts ------------------------------------------------------------------
def clean(m, s):
    return s.replace('\r', '')


def cell(rng, m, i, valid=.85):
    """A text for column i."""
    dt = dtype(m, i)
    nulls = inherited(m, i, 'null')
    sep = inherited(m, i, 'separator')
    if rng.random() < .1:
        return U(rng.choice(nulls)) if nulls else ''

    def one():
        if rng.random() > valid:
            return rng.choice(['x', '', 'NA', '-1', 'nope', '1.5', 'true'])
        if dt['base'] == 'decimal' and dt['f']['k'] == 'none' and rng.random() < .08:
            return rng.choice(['NaN', 'INF', '-INF'])
        if dt['base'] in ('integer', 'long', 'nonNegativeInteger') and dt['f']['k'] == 'none' and rng.random() < .8:
            return str(rng.choice([0, 1, 2, 3, 17, 100, 12345]))
        if dt['base'] == 'string' and dt['f']['k'] == 'none' and (m.get('simple') or rng.random() < .7):
            return rng.choice(['a', 'b', 'ab', 'x y', 'ä', '1', 'q"q', 'a,b', 'k;l', 'two\nlines', ' pad '])
        for _ in range(20):
            s = g.text(rng, dt)
            if s is not None:
                return s
        return ''
    if sep:
        return U(sep).join(one() for _ in range(rng.choice([0, 1, 2, 2, 3])))
    return one()


def header_row(rng, m):
    """The header of a file: [(text, column number or None)]"""
    reg = [(header_of(c, i), i) for i, c in enumerate(m['cols']) if not c['virtual']]
    r = rng.random()
    if r < .4:
        return reg
    hd = list(reg)
    if r < .8:
        rng.shuffle(hd)
    if rng.random() < .3 and hd:
        hd.pop(rng.randrange(len(hd)))
    out = []
    for h, i in hd:
        c = m['cols'][i]
        alts = [U(t) for t in c['titles']] + [U(p) for p in c['purl']]
        out.append((rng.choice(alts) if alts and rng.random() < .3 else h, i))
    if rng.random() < .3:
        out.insert(rng.randint(0, len(out)), (rng.choice(['extra', 'Other', '', 'none', 'zz']), None))
    if rng.random() < .05 and out:
        out.append(rng.choice(out))
    return out


def csv_text(rng, d, rows, always=.2):
    q, de = chr(d['quote']), chr(d['delim'])
    lt = U(d['lt']) if U(d['lt']) != '\r' else '\n'

    def fmt(s):
        if not d['dbl']:
            s = s.replace('\\', '\\\\')
        if q in s:
            s = s.replace(q, q + q if d['dbl'] else '\\' + q)
            return q + s + q
        return q + s + q if de in s or '\n' in s or rng.random() < always else s
    out = []
    for r in rows:
        out.append(r if isinstance(r, str) else de.join(fmt(x) for x in r))
    return lt.join(out) + (lt if rows and rng.random() < .9 else '')


def text(rng, m, nrows=None, valid=.93, head=None):
    """The text of a file for table m."""
    d = m['d']
    hd = head or header_row(rng, m)
    if not d['header']:
        hd = [(header_of(c, i), i) for i, c in enumerate(m['cols']) if not c['virtual']]
    if not m['cols'] and rng.random() < .8:
        hd = [(h, None) for h in rng.sample(NAMES, rng.randint(1, 3))]
    rows = []
    for _ in range(d['skipRows']):
        rows.append(rng.choice(['#skip', 'x' + chr(d['delim']) + 'y', 'skipped']))
    if d['header']:
        rows.append(['s'] * d['skipCols'] + [clean(m, h) for h, _ in hd])
    for _ in range(rng.choice([0, 1, 2, 3, 4, 6]) if nrows is None else nrows):
        r = rng.random()
        if r < .04 and d['comment']:
            rows.append(U(d['comment']) + ' note')
        elif r < .07:
            rows.append('')
        row = ['s'] * d['skipCols'] + [clean(m, cell(rng, m, i, valid)) if i is not None else rng.choice(['', 'u', 'v w']) for _, i in hd]
        if rng.random() < .06 and row:
            row.pop()
        if rng.random() < .06:
            row.append(rng.choice(['', 'more']))
        rows.append(row)
    return csv_text(rng, d, rows)


# -- items to be written ----------------------------------------------------
def plain(m, v):
    """Neither carriage returns nor escape characters."""
    if v[0] == 's':
        return ['s', T(clean(m, U(v[1])))]
    return v


def value(rng, m, i):
    dt = dtype(m, i)
    if rng.random() < .1:
        return ['n']

    def one():
        if rng.random() < .6:
            if dt['base'] == 'string':
                return ['s', T(rng.choice(['a', 'b', '', 'x y', 'q"q', 'a,b', 'two\nlines', ' pad ', 'ä', '#c', 'NA', '-', '1|2']))]
            if dt['base'] == 'integer':
                return num(rng.choice([0, 1, 2, -3, 100, 12345678901234567890]))
        return g.value(rng, dt)
    if inherited(m, i, 'separator'):
        return ['l', [plain(m, one()) for _ in range(rng.choice([0, 1, 2, 3]))]]
    return plain(m, one())


def num(n):
    s = str(abs(n))
    k = len(s) - len(s.rstrip('0')) if n else 0
    return ['num', 'i', n < 0, [int(c) for c in s.rstrip('0')] if n else [], k]


def items(rng, m, n=None, surplus=.05):
    reg = [(i, header_of(c, i)) for i, c in enumerate(m['cols']) if not c['virtual']]
    res = []
    for _ in range(rng.choice([0, 1, 2, 3, 5]) if n is None else n):
        vs = [value(rng, m, i) for i, _ in reg]
        if rng.random() < .4:
            res.append(['seq', vs, rng.choice(['tuple', 'list'])])
        else:
            kv = [[T(h), v] for (_, h), v in zip(reg, vs)]
            if rng.random() < .3:
                rng.shuffle(kv)
            if rng.random() < .2 and kv:
                kv.pop()
            if rng.random() < surplus:
                kv.append([T(rng.choice(['extra', 'zz'])), ['s', T('v')]])
            res.append(['map', kv])
    return res


def nofile():
    return {'plain': [], 'zip': []}


def plan(mds, files, ev, fks=(), dat='table', **kw):
    names = kw.pop('names', None) or ['t%d.csv' % (i + 1) for i in range(len(mds))]
    return dict(kw, mds=mds, fks=list(fks), files=files, names=names, dat=dat, ev=ev)


def read_op(rng, t=1, mode=None, src=None, **kw):
    return dict({'op': 'read', 't': t, 'mode': mode or rng.choice(['strict', 'log', 'log', 'lenient']),
                 'src': src or rng.choice(['default', 'default', 'path', 'str', 'handle']), 'meta': rng.random() < .7,
                 'iter': rng.random() < .5, 'inter': rng.choice([0, 0, 0, 0, 1, 2]), 'text': []}, **kw)


def write_op(rng, m, t=1, its=None, **kw):
    to = rng.choice(['default', 'default', 'base', 'path', 'str', 'memory', 'other'])
    if to == 'memory' and m['d']['enc'] not in gd.U8:
        to = 'default'
    return dict({'op': 'write', 't': t, 'items': its if its is not None else items(rng, m), 'to': to, 'zipped': to in ('default', 'base', 'path')
                 and rng.random() < .25, 'strict': rng.random() < .3, 'list': rng.random() < .3}, **kw)


LENIENT = ['string', 'string', 'integer', 'boolean', 'date', 'normalizedString', 'long']


def lenient_ok(m):
    """Descriptions for which reading leniently is specified: without virtual columns (a header
    may have more cells than there are regular ones); cells may be matched with any column, so each
    text must be valid or not for each of the datatypes."""
    dts = [dtype(m, i) for i in range(len(m['cols']))]
    return not any(c['virtual'] for c in m['cols']) and all(d['base'] in LENIENT and d['f']['k'] == 'none' for d in dts)


# -- keys -------------------------------------------------------------------
KEYS = {'string': ['a', 'b', 'c', 'd e', 'ä', 'q"q', '1', '01'], 'integer': ['1', '2', '3', '10', '02', '-1'],
        'decimal': ['1', '1.0', '2.5', '2.50'], 'boolean': ['true', '1', 'false'], 'date': ['2020-01-01', '2020-02-29', '1999-12-31'],
        'anyURI': ['http://ex.org/a', 'http://ex.org/b', 'x'],
        'json': ['{"a": 1}', '[1, {"b": []}]', '{"a":1}', '["x"]', '5', '"x"', '{"a": {"c": [1]}}']}
KBASES = ['string'] * 5 + ['integer'] * 3 + ['decimal', 'date', 'boolean', 'anyURI', 'json']


def keycolumn(rng, name, base, sep=None, titled=False):
    col = {'name': [T(name)], 'titles': [], 'purl': [], 'virtual': False, 'vurl': [], 'lv': lv()}
    if base != 'string' or rng.random() < .5:
        col['lv']['datatype'] = [g.dt(base, short=rng.random() < .5)]
    if sep:
        col['lv']['separator'] = [T(sep)]
    if rng.random() < .15:
        col['lv']['null'] = [[T('NA')]]
    if rng.random() < .1:
        col['lv']['required'] = [True]
    if titled:
        col['titles'], col['name'] = col['name'], []
    return col


def keytext(rng, m, rows):
    d = m['d']
    out = [headers(m)] if d['header'] else []
    out += rows
    if rng.random() < .2 and out and d['header']:
        perm = list(range(len(headers(m))))
        rng.shuffle(perm)
        if len(m['cols']) == len(headers(m)):
            out = [[r[i] for i in perm] for r in out]
    return csv_text(rng, d, out)


def keydialect(rng):
    d = dict(gd.CSVW)
    if rng.random() < .3:
        d['delim'] = ord(rng.choice(';\t'))
    d['header'] = rng.random() < .9
    d['lt'] = T(rng.choice(['\r\n', '\n']))
    return d


def pktable(rng):
    """A table with a primary key, and its text."""
    n = rng.choice([1, 1, 2, 3])
    m = {'cols': [], 'levels': toplevels(rng, True) if rng.random() < .1 else [lv(), lv(), lv()], 'd': keydialect(rng), 'pk': [],
         'pkbare': rng.random() < .5}
    bs = [rng.choice(KBASES) for _ in range(n + rng.choice([0, 1]))]
    for i, b in enumerate(bs):
        m['cols'].append(keycolumn(rng, NAMES[i], b, '|' if rng.random() < .1 else None))
    pk = list(range(n))
    rng.shuffle(pk)
    m['pk'] = [T(NAMES[i]) for i in pk[:rng.choice([1, n])]] if rng.random() < .95 else []
    rows = []
    for _ in range(rng.choice([0, 1, 2, 3, 4, 6])):
        r = []
        for i in range(len(bs)):
            vals = KEYS[inherited(m, i, 'datatype')['base'] if inherited(m, i, 'datatype') else 'string'][:rng.choice([2, 3, 9])]
            v = rng.choice(vals)
            if inherited(m, i, 'separator'):
                v = U(inherited(m, i, 'separator')).join(rng.choice(vals) for _ in range(rng.choice([1, 2, 2])))
            r.append(rng.choice(['', 'NA', 'junk']) if rng.random() < .07 else v)
        rows.append(rng.choice(rows) if rows and rng.random() < .15 else r)
    if m['pk'] and rng.random() < .08:
        # a column of the key which is not described
        m['pk'].insert(rng.randint(0, len(m['pk'])), T('zz'))
        if rng.random() < .7 and m['d']['header']:
            return m, csv_text(rng, m['d'], [headers(m) + ['zz']] + [r + rng.choice([['1'], ['1'], ['2'], ['']] + [[]] * (rng.random() < .3)) for r in rows])
    return m, keytext(rng, m, rows)


def fkgroup(rng):
    """Tables with references between them, and their texts."""
    nt = rng.choice([1, 2, 2, 2, 3, 3])
    dat = rng.choice(['table', 'group'])
    dia = keydialect(rng)
    mds, pools, seps = [], [], []
    # the key columns of each table
    for t in range(nt):
        bs = [rng.choice(KBASES) for _ in range(rng.choice([1, 2, 2]))]
        # keys may be lists
        seps.append([rng.choice(['|', '; ']) if rng.random() < .08 else None for _ in bs])
        m = {'cols': [keycolumn(rng, 'k%d' % (i + 1), b, seps[-1][i]) for i, b in enumerate(bs)], 'levels': [lv(), lv(), lv()],
             'd': dia if dat == 'group' else keydialect(rng), 'pk': []}
        if rng.random() < .3:
            m['pk'] = [T('k1')]
        for c in m['cols']:
            if rng.random() < .06:
                c['titles'], c['name'] = c['name'], []
        mds.append(m)
        pools.append(bs)
    fks = []
    for k in range(rng.choice([1, 1, 2, 2, 3])):
        t, rt = rng.randint(1, nt), rng.randint(1, nt)
        n = len(pools[rt - 1])
        idx = rng.sample(range(n), rng.choice([1, n]))
        cols = []
        sep = rng.choice(['|', '; ', ' ']) if len(idx) == 1 and rng.random() < .3 else None
        for i in idx:
            b = pools[rt - 1][i]
            if sep == ' ' and b == 'string':
                sep = ';'
            if rng.random() < .05:
                b = rng.choice(KBASES)
            name = 'f%d%d' % (k, i)
            mds[t - 1]['cols'].append(keycolumn(rng, name, b, sep or (seps[rt - 1][i] if len(idx) > 1 or rng.random() < .3 else None), titled=False))
            cols.append(name)
        fk = {'t': t, 'cols': [T(x) for x in cols], 'rt': rt, 'rcols': [T('k%d' % (i + 1)) for i in idx], 'bare': rng.random() < .3}
        r = rng.random()
        if r < .03:
            fk['rt'] = 0
        elif r < .06:
            fk['rcols'][-1] = T('nope')
        elif r < .09 and len(idx) > 1:
            fk['rcols'].pop()
        elif r < .11:
            fk['rcols'].append(T('k1'))
        fks.append(fk)
        if rng.random() < .1:
            # another reference of the same columns
            fks.append(dict(fk, rt=rng.randint(1, nt)))
    broken = any(f['rt'] == 0 or len(f['cols']) != len(f['rcols']) or T('nope') in f['rcols'] for f in fks)
    texts, rows = [], []
    for m in mds:
        rs = []
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            rs.append(None)
        rows.append(rs)
    # rows: the keys first
    def key(b, sep):
        return (sep or '').join(rng.choice(KEYS[b][:rng.choice([2, 4, 9])]) for _ in range(rng.choice([1, 1, 2]) if sep else 1))
    keyrows = [[[key(b, sep) for b, sep in zip(bs, seps[t])] for _ in rows[t]] for t, bs in enumerate(pools)]
    for t, m in enumerate(mds):
        out = []
        nk = len(pools[t])
        for r in range(len(rows[t])):
            row = list(keyrows[t][r])
            if rng.random() < .04:
                row[0] = rng.choice(['', 'NA', 'junk'])
            for c in m['cols'][nk:]:
                name = U(c['name'][0])
                fk, i = next(((f, f['cols'].index(T(name))) for f in fks if f['t'] == t + 1 and T(name) in f['cols']))
                src = keyrows[fk['rt'] - 1] if fk['rt'] else []
                ki = int(name[2:])
                base = c['lv']['datatype'][0]['base'] if c['lv']['datatype'] else 'string'

                def one():
                    if src and rng.random() < .92 and ki < len(src[0]):
                        return rng.choice(src)[ki]
                    return rng.choice(KEYS[base])
                if c['lv']['separator']:
                    v = U(c['lv']['separator'][0]).join(one() for _ in range(rng.choice([0, 1, 2, 2])))
                else:
                    v = one()
                row.append(rng.choice(['', '', 'NA', 'junk']) if rng.random() < .06 else v)
            # composite references: mostly to an existing row
            for f in fks:
                if f['t'] == t + 1 and len(f['cols']) > 1 and f['rt'] and keyrows[f['rt'] - 1] and rng.random() < .85:
                    src = rng.choice(keyrows[f['rt'] - 1])
                    for cn in f['cols']:
                        j = headers(m).index(U(cn))
                        ki = int(U(cn)[2:])
                        if ki < len(src):
                            row[j] = src[ki]
            out.append(row)
        texts.append(keytext(rng, m, out))
    return mds, fks, texts, dat, broken
