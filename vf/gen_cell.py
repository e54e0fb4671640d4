"""Generators for cells: datatypes, lexical forms, values, column descriptions.

Nothing in here is an oracle: texts and values are inputs, TraceCell.tla decides."""
import datetime
import re

from .core import T, U

INT = ['integer', 'int', 'unsignedInt', 'unsignedShort', 'unsignedLong', 'unsignedByte', 'short', 'long', 'byte',
       'nonNegativeInteger', 'positiveInteger', 'nonPositiveInteger', 'negativeInteger']
FLOAT = ['float', 'number', 'double']
DATE = ['datetime', 'dateTime', 'date', 'dateTimeStamp', 'time']
DUR = ['duration', 'dayTimeDuration', 'yearMonthDuration']
TEXT = ['string', 'normalizedString', 'NMTOKEN', 'QName', 'gDay', 'gMonth', 'gMonthDay', 'gYear', 'gYearMonth',
        'xml', 'html']
BIN = ['base64Binary', 'binary', 'hexBinary']
ALL = INT + FLOAT + DATE + DUR + TEXT + BIN + ['decimal', 'boolean', 'json', 'any', 'anyURI']
NONE = {'k': 'none'}
LIMITS = [0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 4294967295, 4294967296,
          18446744073709551615, 18446744073709551616, 9223372036854775807, 9223372036854775808, -9223372036854775808,
          -9223372036854775809, 10 ** 30, 10 ** 28 + 1, -10 ** 29 - 1]

DATEP = ['yyyy-MM-dd', 'yyyyMMdd', 'dd-MM-yyyy', 'd-M-yyyy', 'MM-dd-yyyy', 'M-d-yyyy', 'dd/MM/yyyy', 'd/M/yyyy',
         'MM/dd/yyyy', 'M/d/yyyy', 'dd.MM.yyyy', 'd.M.yyyy', 'MM.dd.yyyy', 'M.d.yyyy']
TIMEP = ['HH:mm:ss', 'HHmmss', 'HH:mm', 'HHmm']
TZ = ['', '', 'X', 'XX', 'XXX', 'x', 'xx', 'xxx', ' X', ' XX', ' XXX', ' x', ' xx', ' xxx']


def dt(base, f=None, **kw):
    return dict({'base': base, 'f': f or NONE, 'length': [], 'minLength': [], 'maxLength': [], 'bounds': []}, **kw)


def numf(pat='', dec='', grp='', asdict=False):
    return {'k': 'num', 'pat': T(pat), 'dec': T(dec), 'grp': T(grp), 'asdict': asdict}


# -- numbers ----------------------------------------------------------------
def digits(rng, n):
    return ''.join(rng.choice('0123456789') for _ in range(n))


def numpattern(rng):
    g = rng.choice(['', '', '#,##0', '#,##0', '#,##,##0', '#,#00', '0,000', '#,###,##0', '#,##,#00', '##,##0'])
    ip = g or rng.choice(['0', '#0', '##0', '00', '000', '#00', '00000'])
    fp = rng.choice(['', '', '.0', '.00', '.##', '.0#', '.0##', '.#', '.000###'])
    return ip + fp + rng.choice([''] * 6 + ['%', '‰'])


def numformat(rng, pattern=None):
    """A consistent choice of separators."""
    pattern = rng.random() < .5 if pattern is None else pattern
    pat = numpattern(rng) if pattern else ''
    k = rng.random()
    dec = grp = ''
    if k < .35:
        dec, grp = rng.choice([(',', '.'), (',', ' '), (',', ''), ('.', ','), ('٫', '٬'), (',', "'"), ('·', ','), ('', ' '),
                               ('', "'"), ('', '_'), (',', '\u00a0'), ('', '٬'), ('.', ' ')])
    elif not pat:
        if k < .5:
            dec, grp = rng.choice([('.', ''), (',', ''), (';', '')])
        else:
            dec, grp = rng.choice([(',', '.'), ('', ','), ('', ' ')])
    if grp == '_':
        grp = '|'
    if pat and ',' in pat and dec == ',' and not grp:
        grp = '.'
    if pat and ',' not in pat:
        grp = ''
    return numf(pat, dec, grp, asdict=rng.random() < .5)


def group(s, p1, p2, sep):
    out, n = '', len(s)
    for i, c in enumerate(s):
        k = n - i
        if i and (k == p1 or (k > p1 and (k - p1) % p2 == 0)):
            out += sep
        out += c
    return out


def number_text(rng, f, kind):
    """A text which is more or less a number in the format f."""
    pat = ''.join(map(chr, f['pat'])) if f['k'] == 'num' else ''
    dec = ''.join(map(chr, f['dec'])) if f['k'] == 'num' else ''
    grp = ''.join(map(chr, f['grp'])) if f['k'] == 'num' else ''
    big = rng.random() < .1
    ip = digits(rng, rng.choice([0, 1, 1, 2, 3, 3, 4, 5, 6, 7, 9]) if not big else rng.randint(12, 45))
    fp = digits(rng, rng.choice([0, 0, 1, 2, 2, 3, 4, 6]) if not big else rng.randint(0, 45))
    if kind == 'i' and rng.random() < .85:
        fp = ''
    if kind == 'f':
        ip, fp = ip[:9], fp[:6]
    if not ip and not fp:
        ip = '0'
    if fp == '' and kind == 'i' and rng.random() < .3:
        ip = str(abs(rng.choice(LIMITS) + rng.choice([0, 0, 1, -1])))
    body = pat.rstrip('%‰')
    if body and rng.random() < .7:
        i, _, fr = body.partition('.')
        gs = i.split(',')
        ip = ip.rjust(i.count('0'), '0')
        if len(gs) > 1:
            p1 = len(gs[-1])
            p2 = len(gs[-2]) if len(gs) > 2 else p1
            ip = group(ip, p1, p2, ',')
        fp = fp[:len(fr)].ljust(fr.count('0'), '0')
    elif rng.random() < .35:
        ip = group(ip, rng.choice([3, 3, 2, 4]), 3, ',')
    # a decimal point without digits is accepted as an integer: nothing claimed
    if kind == 'i' and fp and not fp.strip('0'):
        fp = ''
    s = ip + ('.' + fp if fp else '')
    s = rng.choice(['', '', '', '-', '+', '-']) + s
    s += pat[-1] if pat and pat[-1] in '%‰' else rng.choice([''] * 12 + ['%', '‰']) if kind != 'f' and not pat else ''
    g, d = grp or ',', dec or '.'
    if rng.random() < .1:
        g, d = rng.choice([(',', '.'), ('.', ','), (' ', ','), ("'", '.')])
    return s.replace(',', '\0').replace('.', d).replace('\0', g)


def lenient(f, kind, s):
    """Forms about which nothing is claimed."""
    pat = ''.join(map(chr, f['pat'])) if f['k'] == 'num' else ''
    grp = ''.join(map(chr, f['grp'])) if f['k'] == 'num' else ''
    dec = ''.join(map(chr, f['dec'])) if f['k'] == 'num' else ''
    plain = ''.join(',' if c == grp else '.' if c == dec else c for c in s)
    core = plain.strip('+-')
    if pat and (s != s.strip() or '_' in s):
        return True
    if '%' in s.strip()[:-1] or '‰' in s.strip()[:-1] or s == '+INF':
        return True
    if pat and (core.startswith(',') or core.rstrip('%‰').endswith(('.', ',')) or 'e' in s.lower() or
                (pat[-1] in '%‰') != (s[-1:] in '%‰') or not any(c.isdigit() for c in s) or
                any(c not in '0123456789.,+-%‰' for c in plain) or
                plain.find(',', max(plain.find('.'), 0)) > plain.find('.') >= 0):
        return True
    if not pat and kind == 'i' and '.' in plain and not plain.split('.', 1)[1].rstrip('%‰').strip('0'):
        return True
    if kind == 'f':
        m = plain.lower().partition('e')
        if len(''.join(c for c in m[0] if c.isdigit()).strip('0')) > 15:
            return True
        try:
            if m[2] and abs(int(m[2])) > 250:
                return True
        except ValueError:
            pass
    return bool(pat) and any(c.isdigit() and c not in '0123456789' for c in s)


JUNKNUM = ['', '-', '+', '.', 'abc', '1a', '1-', '--1', '+-1', '1..2', '1.2.3', '1 2', '0x1f', '1e5', '1E5', '1.5e3', 'e', '1,',
           ',1', '1,,000', '٣', '1/2', '#', 'true', '∞', '5%', '12.5‰', '-INF', 'INF', 'NaN', '$5', '1.', '.5', '-.5', '+.456',
           '1_000', '1_0.5', '_1', '１', '१२', 'nan', 'NAN', 'sNaN', '-NaN', 'inf', 'Inf', 'Infinity', '-infinity', 'NaN1', '²', '½']


def number_read(rng, base, f):
    kind = 'i' if base in INT else 'f' if base in FLOAT else 'd'
    s = rng.choice(JUNKNUM) if rng.random() < .1 else number_text(rng, f, kind)
    if rng.random() < .1 and s:
        i = rng.randrange(len(s))
        s = s[:i] + rng.choice(['', 'x', '.', ',', ' ', '0', '-', s[i] * 2]) + s[i + 1:]
    if kind == 'f' and f['k'] == 'none' and rng.random() < .2:
        s = s + rng.choice(['e5', 'E-3', 'e+10', 'e'])
    if rng.random() < .06:
        s = rng.choice(['', ' ', '\t', '  ']) + s + rng.choice([' ', '\n', '', '\r\n', '_'])
    return None if lenient(f, kind, s) else s


def number_value(rng, base, f):
    pat = f['pat'] if f['k'] == 'num' else []
    if base in INT:
        n = rng.choice(LIMITS) if rng.random() < .4 else rng.randint(0, 10 ** rng.randint(0, 12))
        if rng.random() < .3:
            n = -n
        return ['num', 'i', n < 0, [int(c) for c in str(abs(n))], 0]
    if base in FLOAT:
        if rng.random() < .08 and not pat:
            return ['x', 'f', rng.choice(['NaN', 'INF', '-INF'])]
        n = rng.randint(0, 10 ** rng.randint(0, 15))
        e = -rng.randint(0, 8) if pat or rng.random() < .6 else rng.randint(-60, 60)
        ds = str(n).strip('0')
        if not ds:
            return ['num', 'f', False, [], 0]
        return ['num', 'f', rng.random() < .4, [int(c) for c in ds], e]
    if rng.random() < .06:
        return ['x', 'd', rng.choice(['NaN', 'INF', '-INF'])]
    ds = digits(rng, rng.choice([1, 2, 3, 5, 9, 17, 30, 45]))
    e = rng.choice([0, -1, -2, -3, -6, -2, 3, 10, -20, -40])
    neg = rng.random() < .4 and bool(ds.strip('0'))
    ds = ds.lstrip('0') or '0'
    return ['num', 'd', neg, [int(c) for c in ds], e]


# -- dates ------------------------------------------------------------------
def date_pattern(rng, base):
    frac = rng.choice([''] * 3 + ['.S', '.SS', '.SSS', '.SSSSSS', '.SSSSSSSSS'])
    tz = rng.choice(TZ)
    if base == 'time':
        t = rng.choice(TIMEP)
        return t + (frac if 'ss' in t else '') + tz
    d = rng.choice(DATEP)
    if base == 'date':
        return d + tz
    if base == 'dateTimeStamp':
        tz = tz or 'XXX'
    elif rng.random() < .15:
        return d + tz
    t = rng.choice(TIMEP)
    return d + rng.choice(' T') + t + (frac if 'ss' in t else '') + tz


def components(rng):
    y = rng.choice([rng.randint(1, 9999), rng.randint(1900, 2100), 2000, 2024, 1900, 1, 9999])
    mo = rng.randint(1, 12)
    d = rng.choice([rng.randint(1, 28), 28, 1])
    if rng.random() < .2:
        mo, d = rng.choice([(2, 29), (2, 28), (12, 31), (1, 31), (4, 30), (1, 1)])
        if (mo, d) == (2, 29):
            y = rng.choice([2000, 2024, 1996, 4])
    us = rng.choice([0, 0, 1, 999999, 500000, 290000, 120, rng.randint(0, 999999), rng.randint(0, 999) * 1000])
    return [y, mo, d, rng.choice([0, 23, rng.randint(0, 23)]), rng.choice([0, 59, rng.randint(0, 59)]),
            rng.choice([0, 59, rng.randint(0, 59)]), us]


def tzminutes(rng):
    return rng.choice([0, 0, 60, -60, 330, -210, 845, -720, 765, -15, 5, rng.randint(-1439, 1439)])


def tztext(rng, m):
    if m == 0 and rng.random() < .6:
        return 'Z'
    s = '-' if m < 0 else '+'
    h, mm = divmod(abs(m), 60)
    k = rng.choice([0, 1, 2])
    return s + ('{:02d}'.format(h) if k == 0 and mm == 0 else '{:02d}{:02d}'.format(h, mm) if k == 1
                else '{:02d}:{:02d}'.format(h, mm))


def date_text(rng, pattern, base):
    """Fill in a pattern, more or less correctly."""
    y, mo, d, h, mi, s, us = components(rng)
    if rng.random() < .12:
        which = rng.randrange(6)
        if which == 0:
            mo, d = rng.choice([(13, 1), (0, 1), (2, 30), (4, 31), (6, 31), (12, 32), (1, 0), (2, 29)])
            y = 2023
        elif which == 1:
            h = rng.choice([25, 99])
        elif which == 2:
            mi = 60
        elif which == 3:
            s = rng.choice([60, 61])
        elif which == 4:
            y = 0
    tzm = ''
    p = pattern
    while p and p[-1] in 'xX':
        p, tzm = p[:-1], tzm + p[-1]
    sp = tzm and p.endswith(' ')
    p = p.rstrip() if sp else p
    if base == 'dateiso':
        p, tzm = 'yyyy-MM-ddTHH:mm:ss' + ('.' + 'S' * rng.randint(1, 9) if us else ''), '?'
    out, i = '', 0
    while i < len(p):
        c = p[i]
        n = 1
        while i + n < len(p) and p[i + n] == c:
            n += 1
        w = n
        if c in 'dM' and n == 2 and rng.random() < .03:
            w = 1
        if c in 'dM' and n == 1 and rng.random() < .3:
            w = 2
        x = {'y': y, 'M': mo, 'd': d, 'H': h, 'm': mi, 's': s}.get(c)
        if c == 'S':
            k = n if rng.random() < .6 else rng.randint(1, n + (rng.random() < .1))
            out += '{:06d}'.format(us).ljust(k, rng.choice('059'))[:k]
        elif x is None:
            out += p[i:i + n]
        else:
            out += str(x).rjust(w, '0')
        i += n
    if '.S' in p and rng.random() < .15:
        out = out[:out.rindex('.')]
    m = tzminutes(rng)
    if tzm and rng.random() < .85 or rng.random() < .1:
        out += (' ' if sp or rng.random() < .05 else '') + tztext(rng, m)
    k = rng.random()
    if k < .06:
        j = rng.randrange(len(out))
        out = out[:j] + rng.choice(['', 'x', '-', '5', ':', 'T']) + out[j + 1:]
    elif k < .1:
        out += rng.choice(['x', '5', ' 5', '+25', '+0160', '+1', 'Z', 'UTC', '.5', '-', '\n'])
    elif k < .13:
        out = ' ' + out + ' '
    return out


def date_value(rng, base):
    v = components(rng)
    if base == 'time':
        v[:3] = [0, 0, 0]
    # datetimes must not leave the range of years with their offset
    if base != 'time' and v[0] in (1, 9999):
        v[0] = 1000
    return ['dt', v, [] if rng.random() < .4 else [tzminutes(rng)]]


# -- durations ---------------------------------------------------------------
def duration_text(rng):
    s = rng.choice(['', '', '', '-', '+']) + 'P'
    for c, p in [('Y', .4), ('M', .4), ('W', .1), ('D', .5)]:
        if rng.random() < p:
            s += str(rng.choice([0, 1, 7, 12, 400, rng.randint(0, 99)])) + c
    if rng.random() < .6:
        s += 'T'
        for c, p in [('H', .5), ('M', .5)]:
            if rng.random() < p:
                s += str(rng.choice([0, 1, 25, 59, 60, 100])) + c
        if rng.random() < .6:
            s += str(rng.choice([0, 1, 59, 60, 75])) + rng.choice(['', '', '.5', '.25', '.125', '.000001', '.75']) + 'S'
    if s.endswith(('T', 'P')) and rng.random() < .8:
        s += '1D' if s.endswith('P') else '5M'
    if rng.random() < .08:
        j = rng.randrange(len(s))
        s = s[:j] + rng.choice(['', 'x', 'Y', 'T', '-', '5']) + s[j + 1:]
    return s


def duration_value(rng):
    y, m = (0, 0) if rng.random() < .4 else (rng.choice([0, 1, 20, 400]), rng.choice([0, 0, 1, 11, 14]))
    d, s = rng.choice([0, 0, 1, 7, 400]), rng.choice([0, 0, 1, 59, 60, 3600, 3661, 86399, rng.randint(0, 86399)])
    us = rng.choice([0, 0, 0, 500000, 1, 120, 999999])
    neg = rng.random() < .3 and any([y, m, d, s, us])
    return ['dur', [neg, y, m, d, s, us]]


# -- strings -----------------------------------------------------------------
CHARS = 'abcxyzABC019 -_.:/#~\t\n\r"\'\\,;|é漢😀'


def string(rng, n=8, chars=CHARS):
    return ''.join(rng.choice(chars) for _ in range(rng.randint(0, n)))


def regex(rng, depth=3):
    k = rng.random()
    if depth == 0 or k < .3:
        return ['c', ord(rng.choice('ab1-. '))]
    if k < .38:
        return ['any']
    if k < .5:
        return ['set', T(rng.choice(['ab', 'abc', '019', '01', 'a-', '^b'])), rng.random() < .25]
    if k < .72:
        return ['seq', [regex(rng, depth - 1) for _ in range(rng.randint(1, 3))]]
    if k < .86:
        return ['alt', [regex(rng, depth - 1) for _ in range(rng.randint(2, 3))]]
    m = rng.choice([0, 0, 1, 2])
    n = rng.choice([-1, -1, m, m + 1, m + 2]) or 1
    return ['rep', regex(rng, depth - 1), m, n]


def re_sample(rng, x):
    k = x[0]
    if k == 'c':
        return chr(x[1])
    if k == 'any':
        return rng.choice('ab1 ')
    if k == 'set':
        return rng.choice('xyz') if x[2] else chr(rng.choice(x[1]))
    if k == 'seq':
        return ''.join(re_sample(rng, y) for y in x[1])
    if k == 'alt':
        return re_sample(rng, rng.choice(x[1]))
    return ''.join(re_sample(rng, x[1]) for _ in range(rng.randint(x[2], x[2] + 2 if x[3] < 0 else x[3])))


def re_read(rng, x):
    s = re_sample(rng, x)
    k = rng.random()
    if k < .15:
        s += rng.choice(['a', 'b', '\n', ' ', '1', 'x'])
    elif k < .3:
        s = rng.choice(['a', '1', 'x', ' ']) + s
    elif k < .4 and s:
        j = rng.randrange(len(s))
        s = s[:j] + s[j + 1:]
    elif k < .5:
        s = string(rng, 5, 'ab1-. \n')
    return s[:24]


def jtree(rng, depth=3):
    k = rng.random()
    if depth and k < .22:
        return ['l', [jtree(rng, depth - 1) for _ in range(rng.randint(0, 3))]]
    if depth and k < .45:
        keys = []
        for _ in range(rng.randint(0, 3)):
            s = string(rng, 3)
            if s not in keys:
                keys.append(s)
        return ['o', [[T(s), jtree(rng, depth - 1)] for s in keys]]
    if k < .55:
        return ['n']
    if k < .65:
        return ['b', rng.randint(0, 1)]
    if k < .75:
        n = rng.choice([0, 1, -1, 12, 10 ** 20, -345, 100])
        d = str(abs(n)).rstrip('0')
        return ['num', 'i', n < 0, [int(c) for c in d], len(str(abs(n))) - len(d)] if n else ['num', 'i', False, [], 0]
    if k < .82:
        return ['num', 'f', rng.random() < .5, [1, 2, 5], rng.choice([-1, -2, -3, 0, 30, -12])]
    return ['s', T(string(rng))]


def jschema(rng, depth=2):
    k = rng.random()
    n = lambda: ['num', 'i', False, [rng.randint(1, 9)], rng.randint(0, 1)]
    if not depth or k < .35:
        return rng.choice([['type', rng.choice(['object', 'array', 'string', 'number', 'integer', 'boolean', 'null'])]] * 4 +
                          [['any', rng.choice([{}, True, {'title': 'x'}])], ['never']] +
                          [['size', [1], []], ['size', [], [1]], ['size', [0], [2]]] +
                          [['range', [n()], []], ['range', [], [n()]]] +
                          [['enum', [['s', T('a')], ['n'], ['b', 1]]], ['enum', [['s', []], ['l', []], ['o', []], ['b', 0]]]])
    if k < .55:
        keys = rng.sample(['a', 'b', 'é', ''], rng.randint(0, 3))
        return ['props', [[T(x), jschema(rng, depth - 1)] for x in keys], [T(x) for x in rng.sample(['a', 'b', 'é', ''], rng.choice([0, 0, 1, 2]))], rng.random() < .3]
    if k < .75:
        return ['items', jschema(rng, depth - 1), rng.choice([[], [], [1]]), rng.choice([[], [], [1], [2]])]
    if k < .85:
        return ['not', [jschema(rng, depth - 1)]]
    return [rng.choice(['all', 'some']), [jschema(rng, depth - 1) for _ in range(rng.randint(1, 3))]]


def jinstance(rng, s):
    """A value for a schema (valid more often than not)."""
    k = s[0]
    if rng.random() < .1 or k in ('any', 'never', 'not'):
        return jtree(rng, 2)
    if k == 'type':
        return {'object': ['o', [[T('a'), jtree(rng, 1)]]], 'array': ['l', [jtree(rng, 1)]], 'string': ['s', T('a')], 'null': ['n'], 'boolean': ['b', rng.randint(0, 1)],
                'number': ['num', 'f', True, [1, 5], -1], 'integer': rng.choice([['num', 'i', True, [1, 5], 0], ['num', 'f', False, [1], 0]])}[s[1]]
    if k == 'props':
        keys = [U(x) for x, _ in s[1]] + [U(x) for x in s[2]] + rng.choice([[], [], ['z']])
        sub = {U(x): y for x, y in s[1]}
        return ['o', [[T(x), jinstance(rng, sub.get(x, ['any']))] for x in dict.fromkeys(keys) if rng.random() < .85]]
    if k == 'items':
        return ['l', [jinstance(rng, s[1]) for _ in range(rng.choice([0, 1, 1, 2, 3]))]]
    if k == 'size':
        return ['s', T('aéb'[:rng.randint(0, 3)])]
    if k == 'range':
        return ['num', rng.choice('if'), rng.random() < .2, [rng.randint(1, 9)], rng.choice([0, 0, 1])]
    if k == 'enum':
        return rng.choice(s[1])
    return jinstance(rng, rng.choice(s[1]))


def json_text(rng, schema=None):
    import json
    from .drive_cell import untree
    kw = dict(ensure_ascii=rng.random() < .5)
    k = rng.random()
    if k < .3:
        kw['separators'] = (',', ':')
    elif k < .5:
        kw['indent'] = rng.randint(0, 2)
    s = json.dumps(untree(jinstance(rng, schema) if schema else jtree(rng)), **kw)
    if rng.random() < .2:
        j = rng.randrange(len(s))
        s = s[:j] + rng.choice(['', ',', '}', ']', '"', 'x', '\\', '1', '{', 'null']) + s[j + 1:]
        if any(x in s for x in ['NaN', 'Infinity']) or re.search(r'[eE][+-]?\d{3}', s):   # (beyond the range of doubles)
            s = 'x'
    elif rng.random() < .1:
        s = rng.choice(['', ' ', '[1,]', '{"a":1,"a":2}', "{'a':1}", '[1] x', '01', '-', '1.', '.5', '"a', '{"a"}', '[,]', 'tru',
                        '"\\ud83d\\ude00"', '"\\u00e9"', '1e5', '-0.5E-2', ' [ ] ', '"\t"', '{a:1}'])
    return s


def uri(rng):
    if rng.random() < .1:
        return rng.choice(['.', '..', './', './a', 'a/..', './.', 'NA', 'na'])
    s = rng.choice(['http://example.org', 'https://ex.org:80', 'urn:a:b', '', 'a', '//h', 'HTTP://Ex.org', 'mailto:a@b'])
    s += rng.choice(['', '/', '/a/b', '/a/../b', '/%7Ea', '/A%20b'])
    return s + rng.choice(['', '', '?q=1', '?a=b&c=d']) + rng.choice(['', '', '#f', '#a/b'])


def b64_text(rng):
    import base64
    s = base64.encodebytes(bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 5, 56, 57, 58, 200])))).decode()
    s = s.strip() if rng.random() < .8 else s
    k = rng.random()
    if k < .1:
        s = s.rstrip('\n=') + 'A' * rng.randint(0, 3)
    elif k < .15:
        s += 'é'
    return s


def hex_text(rng):
    s = ''.join(rng.choice('0123456789abcdefABCDEF') for _ in range(2 * rng.randint(0, 8)))
    k = rng.random()
    if k < .1:
        s += rng.choice(['0', 'g0', '0g', ' 0', 'é', '0x'])
    return s


# -- any datatype, any text ---------------------------------------------------
def booleans(rng):
    a = rng.choice(['Y', 'yes', 'J', 'true', '1', 'ja!', 'X', '0', 'é', 'T.', ' x', 'y '])
    b = rng.choice(['N', 'no', 'false', '0', '-', 'nein', '', '1', 'F*', ' ', 'n o'])
    return {'k': 'bool', 't': T(a), 'f': T(b if b != a else b + 'x')}


def datatype(rng, base, fmt=None):
    """A datatype without facets, half of the time with a format."""
    fmt = rng.random() < .5 if fmt is None else fmt
    f = NONE
    if fmt:
        if base == 'decimal' or base in INT or base in FLOAT:
            f = numformat(rng)
            if not (f['pat'] or f['dec'] or f['grp']):
                f = NONE
            if base in INT and f['k'] == 'num' and f['pat']:
                f = dict(f, pat=T(''.join(map(chr, f['pat'])).split('.')[0].rstrip('%‰')))
        elif base in DATE:
            f = {'k': 'date', 'p': T(date_pattern(rng, base))}
        elif base == 'boolean':
            f = booleans(rng)
        elif base in TEXT + DUR + ['anyURI']:
            f = {'k': 're', 'x': regex(rng)}
        elif base == 'json':
            f = {'k': 'schema', 's': jschema(rng)}
    if base in DUR and f['k'] == 're' and rng.random() < .7:
        # a format durations can match
        f = {'k': 're', 'x': ['seq', [['c', ord('P')], ['rep', ['set', T('0123456789TYMDHS.'), False], 1, -1]]]}
    return dt(base, f, short=rng.random() < .5)


def text(rng, d):
    """A text for a datatype, valid or not; None if nothing is claimed about it."""
    base, f = d['base'], d['f']
    if base == 'decimal' or base in INT or base in FLOAT:
        return number_read(rng, base, f)
    if base == 'boolean':
        return rng.choice(['true', 'false', '1', '0', 'True', 'TRUE', '', ' true', 'yes', 'no', 'Y', 'N', 'ja!', '-', '|', 'Y|N',
                           'X', 'x', ' x', 'y', ' ', '2'] + ([''.join(map(chr, f['t'])), ''.join(map(chr, f['f']))] * 8 if f['k'] == 'bool' else []))
    if base in DATE:
        if f['k'] == 'date':
            s = date_text(rng, ''.join(map(chr, f['p'])), base)
        elif base in ('datetime', 'dateTime'):
            s = date_text(rng, '', 'dateiso')
        else:
            s = date_text(rng, {'date': 'yyyy-MM-dd', 'time': 'HH:mm:ss',
                                'dateTimeStamp': 'yyyy-MM-ddTHH:mm:ss.SSSSSSXXX'}[base], base)
        return None if '24' in s and midnight(s) else s
    if base in DUR:
        if f['k'] == 're' and rng.random() < .2:
            return None
        s = duration_text(rng)
        return None if odd_duration(s) else s
    if base in ('base64Binary', 'binary'):
        return b64_text(rng)
    if base == 'hexBinary':
        return hex_text(rng)
    if base == 'json':
        return json_text(rng, d['f'].get('s'))
    if f['k'] == 're' and rng.random() < .9:
        s = re_read(rng, f['x'])
    elif base == 'anyURI':
        s = uri(rng)
    elif base == 'NMTOKEN':
        s = string(rng, 6, 'abcAZ019.:-_,; \t\n/')
    else:
        s = string(rng)
    if base == 'anyURI' and not odd_uri(s):
        return s
    return None if base == 'anyURI' else s


def odd_uri(s):
    return any(ord(c) < 33 or ord(c) > 126 for c in s) or any(c in s for c in '"<>\\^`{|}[]') or '%' in s.replace('%7E', '').replace('%20', '') \
        or s[:1] in ':' or ':' in s.split('/')[0] and not s.startswith(('http', 'urn:', 'HTTP', 'mailto:')) or '#' in s[s.find('#') + 1:] \
        or s.endswith(('#', '?')) or '?#' in s


def odd_duration(s):
    """Alternative forms, times without a component, huge numbers."""
    body = s.lstrip('+-')
    if s[:2] in ('--', '++', '+-', '-+'):
        return False
    return body[1:2] in '0123456789' and not any(c in body for c in 'YMWDTHS') or body[1:3] == '' or 'T' in body and body[1:2] in '0123456789' \
        and not any(c in body.partition('T')[0] for c in 'YMWD') or 'WT' in body and False or '-' in body or body.endswith('T') or any(
            len(x) > 6 for x in ''.join(c if c.isdigit() else ' ' for c in body).split())


def midnight(s):
    """hour 24 at some place"""
    import re
    return bool(re.search('(^|[T ])24', s))


def value(rng, d):
    """A value of the datatype."""
    base = d['base']
    if base == 'decimal' or base in INT or base in FLOAT:
        return number_value(rng, base, d['f'])
    if base == 'boolean':
        return ['b', rng.randint(0, 1)]
    if base in DATE:
        return date_value(rng, base)
    if base in DUR:
        return duration_value(rng)
    if base in BIN:
        return ['bin', [rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 7, 56, 57, 58, 120]))]]
    if base == 'json':
        return ['j', jtree(rng)]
    if base == 'anyURI':
        while True:
            s = uri(rng)
            if not odd_uri(s):
                return ['u', T(s)]
    return ['s', T(string(rng, 10 if rng.random() < .9 else 300))]


def in_range(base, v):
    return True
