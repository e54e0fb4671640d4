"""Generators of plans for csvw.dsv (inputs only; no expectations)."""
from .core import T

PLAIN = dict(csvw=False, delim=44, quote=34, dbl=True, comment=[], skipRows=0, skipCols=0,
             skipBlank=False, skipsp=False, trim='false', header=True, lt=[13, 10], enc='utf-8',
             u8=True)
CSVW = dict(PLAIN, csvw=True, comment=[35])
NOFN = {'given': False, 'names': []}
ABSENT = {'there': False, 'text': []}

WORDS = ['', '', 'a', 'b', 'ab', 'x y', ' lead', 'trail ', ' both ', '#c', '#', '//x', '0', 'ä', '日本', '𝒳',
         'a,b', 'a;b', 'a\tb', 'a|b', '"', '""', 'q"q', "it's", "''", 'a\nb', '\n', 'a\r\nb', '\r\n', 'ends\n',
         '\xa0', '\u2028', 'é\u0301', 'NULL', '\t', 'x' * 70, '\ufeff']
LATIN = [w for w in WORDS if all(ord(c) < 256 for c in w)]
U8 = ('utf-8', 'utf-8-sig', 'UTF-8-BOM')


def dialect(rng, read=False, csvw=None):
    if csvw is None:
        csvw = rng.random() < .75
    if not csvw:
        d = dict(PLAIN)
        if rng.random() < .4:
            d['delim'] = ord(rng.choice(';\t|'))
        if rng.random() < .2:
            d['quote'] = ord("'")
        if not read and rng.random() < .2:
            d['lt'] = T('\n')
        if rng.random() < .4:
            d['given'] = rng.choice(['name', 'class', 'instance', 'mixed'])
        return d
    d = dict(CSVW)
    d['delim'] = ord(rng.choice(',,,;\t| :'))
    r = rng.random()
    d['quote'] = 34 if r < .7 else (39 if r < .85 else -1)
    d['dbl'] = rng.random() < .7
    d['comment'] = T(rng.choice(['#', '#', '//', '', '%', 'a']))
    if d['delim'] in d['comment']:
        d['comment'] = []
    d['skipsp'] = d['delim'] != 32 and rng.random() < .15
    d['lt'] = T(rng.choice(['\r\n', '\r\n', '\n', '\n', '\r']))
    d['ltlist'] = rng.random() < .7
    d['enc'] = rng.choice(['utf-8'] * 6 + ['latin-1', 'utf-16', 'UTF-8-BOM', 'utf-8-sig', 'cp1252'])
    d['u8'] = d['enc'] == 'utf-8'
    # delimiter and quote character given besides a Dialect with others
    d['mixed'] = rng.random() < .1
    d['built'] = rng.choice(['init', 'init', 'init', 'setattr', 'updated'])
    if read:
        d['skipRows'] = rng.choice([0, 0, 0, 1, 2, 3])
        d['skipCols'] = rng.choice([0, 0, 0, 1, 2])
        d['skipBlank'] = rng.random() < .3
        d['trim'] = rng.choice(['false', 'false', 'true', 'start', 'end'])
        d['trimbool'] = d['trim'] in ('true', 'false') and rng.random() < .3
    return d


def words(d):
    if d['enc'] == 'latin-1':
        return LATIN
    if d['enc'] == 'cp1252':
        return [w for w in LATIN if not any(0x80 <= ord(c) < 0xa0 for c in w)]
    return WORDS


def value(rng, d):
    ws = words(d)
    s = rng.choice(ws) if rng.random() < .8 else ''.join(rng.choice(ws) for _ in range(rng.randint(2, 3)))
    if rng.random() < .1:
        s += chr(d['delim'])
    return s


def table(rng, d, nrows=None, ncols=None, ragged=.1):
    nrows = rng.randint(0, 6) if nrows is None else nrows
    ncols = rng.randint(1, 4) if ncols is None else ncols
    rows = []
    for _ in range(nrows):
        n = ncols if rng.random() > ragged else rng.randint(0, 5)
        rows.append([value(rng, d) for _ in range(n)])
    return rows


def cells(rng, row, none=True):
    out = []
    for v in row:
        if none and rng.random() < .05:
            out.append(['n'])
        elif none and rng.random() < .03:
            out.append(['i', T(str(rng.choice([0, -1, 12345678901234567890])))])
        elif none and rng.random() < .02:
            out.append(['f', T(repr(rng.choice([0.5, 1e300, -2.0])))])
        else:
            out.append(['s', T(v)])
    return out


def write_op(rng, d, rows):
    """One writer session: the rows in one or several calls."""
    calls = []
    rest = list(rows)
    while rest or not calls:
        r = rng.random()
        if r < .35 and rest:
            calls.append({'k': 'row', 'rows': [cells(rng, rest.pop(0))]})
        else:
            n = rng.randint(0, len(rest))
            part, rest = rest[:n], rest[n:]
            if r > .8 and part:
                w = len(part[0])
                keys = ['k%d' % i for i in range(w)]
                if rng.random() < .3:
                    keys = [k + value(rng, d) for k in keys]
                calls.append({'k': 'dicts', 'keys': [['s', T(k)] for k in keys],
                              'rows': [cells(rng, (p + [''] * w)[:w]) for p in part]})
            else:
                calls.append({'k': 'rows', 'rows': [cells(rng, p) for p in part], 'iter': rng.random() < .5})
            if not rest:
                break
    return {'op': 'write', 'd': d, 'calls': calls,
            'via': rng.choice(['path', 'path', 'str', 'memory', 'handle']) if d['enc'] in U8 else rng.choice(['path', 'str'])}


def text(rng, d, n=None):
    """Arbitrary text over the characters which matter for dialect d."""
    q = chr(d['quote']) if d['quote'] > 0 else '"'
    de = chr(d['delim'])
    toks = [de, de, de, q, q, q + q, q + de, de + q, '\n', '\r\n', '\n', '\r', ' ', 'a', 'b', 'ab', '#', '#x', '\n#',
            '//', '\n//', '%', '\t', 'é', '\\', '\\' + q, '\n\n', de + '\n', q + 'a' + q, q + 'a\nb' + q,
            q + 'a' + de + 'b' + q, q + '\r\n' + q]
    if d['enc'] not in ('latin-1', 'cp1252'):
        toks += ['日', '𝒳', '\u2028', '\u3000']
    n = rng.randint(0, 14) if n is None else n
    return ''.join(rng.choice(toks) for _ in range(n))


def textfile(rng, d, nrows=None):
    """A mostly well-formed file for dialect d with comments, blank rows, padding."""
    q = chr(d['quote']) if d['quote'] > 0 else ''
    de = chr(d['delim'])
    lt = rng.choice(['\r\n', '\n', '\n'])
    out = []
    ncols = rng.randint(1, 5)
    nrows = rng.randint(0, 10) if nrows is None else nrows
    for _ in range(nrows):
        r = rng.random()
        if r < .12:
            out.append(''.join(map(chr, d['comment'] or [35])) + rng.choice([' note', 'note' + de + 'x', '', '# ', ' a ']))
        elif r < .2:
            out.append('')
        elif r < .26:
            out.append(de * rng.randint(1, ncols))
        elif r < .3:
            out.append(rng.choice([' ', q + q, q + ' ' + q, ' ' + de + ' ']))
        else:
            cs = []
            for _ in range(ncols if rng.random() < .85 else rng.randint(1, 7)):
                v = rng.choice(['a', 'b', 'c1', 'x y', ' p', 'p ', ' p ', '', 'é', '\tq', '#h'])
                if q and rng.random() < .35:
                    v = v + rng.choice(['', de, '\n', '\r\n', 'z\ny', (q + q) if d['dbl'] else ''])
                    v = q + v + q
                    if rng.random() < .1:
                        v = ' ' + v if d['skipsp'] else v
                cs.append(v)
            out.append(de.join(cs))
    s = lt.join(out)
    if rng.random() < .8:
        s += lt
    return s


def read_op(rng, d, src, kind=None, **kw):
    kind = kind or rng.choice(['rows', 'rows', 'numbered', 'dicts', 'tuples'])
    op = {'op': 'read', 'd': d, 'src': src, 'kind': kind, 'fieldnames': NOFN,
          'notes': bool(d['csvw']) and kind in ('rows', 'numbered'), 'as': rng.choice(['str', 'path', 'path2']),
          'text': [], 'lines': []}
    op.update(kw)
    op['rest'] = [['n'], ['n']]
    if kind == 'dicts' and op['as'] != 'path2' and not op.get('factory') and rng.random() < .3:
        names = op['fieldnames']['names']
        op['rest'] = [['s', rng.choice(names)] if names and rng.random() < .2 else rng.choice([['n'], ['s', T('rest')], ['s', []]]),
                      rng.choice([['n'], ['s', []], ['s', T('-')]])]
    if op['as'] == 'path2' or op.get('factory') or d.get('mixed'):
        op['notes'] = False
    return op


def plan(ini, ev, enc='utf-8', **kw):
    return dict(kw, ini=ini, enc=enc, ev=ev)
