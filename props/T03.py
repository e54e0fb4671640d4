"""Facets: length and value constraints, contradictory descriptions."""
from vf import gen_cell as g
from vf.core import T
from .cells import execute, MODULE, sessions, read  # noqa: F401

NAMES = ['minimum', 'maximum', 'minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive']
BOUNDED = ['decimal', 'decimal', 'integer', 'integer', 'byte', 'positiveInteger', 'number', 'double', 'float', 'date', 'date',
           'datetime', 'dateTime', 'time', 'dateTimeStamp', 'duration', 'dayTimeDuration', 'yearMonthDuration']
NUMS = ['0', '-0', '1', '-1', '2', '10', '9', '100', '0.5', '-0.5', '1.50', '1.5', '1.49999999999999999999999999999', '1e400'[:1],
        '123456789012345678901234567890', '123456789012345678901234567891', '-10', '-9', '127', '128']
DATES = ['2020-01-01', '2020-01-02', '2019-12-31', '2020-02-29', '1999-10-05', '2021-01-01']
DURATIONS = ['P1D', 'P2D', 'PT24H', 'PT48H', 'PT1H', 'PT60M', 'PT0.5S', '-P1D', 'P1M', 'P30D', 'P31D', 'P27D', 'P1Y', 'P12M', 'P1Y1M', 'P400D', '-P1M',
             'P0D', 'P1M1D', 'P1MT1S']
TIMES = ['10:00:00', '10:00:01', '09:59:59', '00:00:00', '23:59:59']
TZS = ['', '', '', 'Z', '+01:00', '-03:30']


def bound_text(rng, base):
    """(text, plain number?)"""
    if base in g.DUR:
        return rng.choice(DURATIONS), False
    if base == 'date':
        return rng.choice(DATES) + rng.choice([''] * 6 + TZS), False
    if base == 'time':
        return rng.choice(TIMES) + rng.choice([''] * 6 + TZS), False
    if base in ('datetime', 'dateTime'):
        return rng.choice(DATES) + 'T' + rng.choice(TIMES) + rng.choice(['', '', '.5', '.25']) + rng.choice([''] * 4 + TZS), False
    if base == 'dateTimeStamp':
        return rng.choice(DATES) + 'T' + rng.choice(TIMES) + rng.choice(['Z', '+01:00', '-03:30', '']), False
    while True:
        s = rng.choice(NUMS)
        if base in g.INT and '.' in s:
            continue
        if base in g.FLOAT:
            s = s[:8]
        if rng.random() < .05 and base not in g.INT:
            return rng.choice(['INF', '-INF', 'NaN']), False
        # JSON numbers become binary floating point numbers
        return s, s in ('0', '1', '-1', '2', '10', '9', '100', '0.5', '-0.5', '1.5', '-10', '-9', '127') and rng.random() < .5


def numeric_text(rng, base):
    if base in g.INT + g.FLOAT + ['decimal']:
        s = rng.choice(NUMS + ['INF', 'NaN', 'x', ''])
        return s[:8] if base in g.FLOAT else s
    return bound_text(rng, base)[0]


def bounded(rng):
    base = rng.choice(BOUNDED)
    names = rng.sample(NAMES, rng.choice([1, 1, 1, 2, 2, 3]))
    if rng.random() < .04:
        base = rng.choice(['string', 'boolean', 'json', 'anyURI', 'hexBinary', 'any', 'gYear'])
        text = {'boolean': 'true', 'json': '1', 'hexBinary': 'AB'}.get(base, 'x')
        return g.dt(base, bounds=[[n, T(text), False] for n in names[:1]])
    return g.dt(base, bounds=[[n] + (lambda tp: [T(tp[0]), tp[1]])(bound_text(rng, base)) for n in names])


def sized(rng):
    base = rng.choice(['string'] * 6 + ['normalizedString', 'NMTOKEN', 'anyURI', 'anyURI', 'hexBinary', 'base64Binary', 'binary', 'gYear', 'QName',
                       'xml', 'html'])
    if rng.random() < .05:
        base = rng.choice(['integer', 'decimal', 'date', 'boolean', 'duration', 'number', 'any', 'time'])
    d = g.dt(base)
    for k in rng.sample(['length', 'minLength', 'maxLength'], rng.choice([1, 1, 1, 2, 2, 3])):
        d[k] = [rng.choice([0, 1, 2, 3, 3, 4, 5, 22])]
    return d


def sized_text(rng, d):
    base = d['base']
    n = rng.choice([0, 1, 2, 3, 3, 4, 5, 6, 21, 22, 23])
    if base == 'anyURI':
        return ('http://ex.org/a/b/c/d?x'[:n] if rng.random() < .5 else 'abcdefghijklmnopqrstuvwxyz'[:n]).rstrip('?:')
    if base == 'hexBinary':
        return 'AB' * n
    if base in ('binary', 'base64Binary'):
        import base64
        return base64.b64encode(b'x' * n).decode()
    if base in ('string', 'xml', 'html'):
        return g.string(rng, 0) + ''.join(rng.choice('aé漢😀 \n') for _ in range(n))
    if base == 'normalizedString':
        return ''.join(rng.choice('aé \n') for _ in range(n))
    if base in g.TEXT:
        return 'a' * n
    return '1'


def formatted(rng):
    """Bounds are given in the format."""
    k = rng.random()
    if k < .5:
        d = g.dt('decimal', g.numf('', ',', '.'), bounds=[[rng.choice(NAMES), T(rng.choice(['1.000,5', '1000,5', '-1,5', '2'])), False]])
        return d, rng.choice(['1.000,5', '1.000,49', '1000,51', '-1,5', '-1,6', '2', '999', '2.000'])
    d = g.dt('date', {'k': 'date', 'p': T('d.M.yyyy')}, bounds=[[rng.choice(NAMES), T(rng.choice(['2.1.2020', '10.1.2020', '1.12.2019'])), False]])
    return d, rng.choice(['2.1.2020', '10.1.2020', '1.12.2019', '9.1.2020', '31.12.2019', '3.1.2020', '1.2.2020'])


def events(c):
    rng = c.rng
    for i in range(c.n(14000, 350000)):
        k = rng.random()
        if k < .55:
            d = bounded(rng)
            t = numeric_text(rng, d['base']) if d['base'] in BOUNDED else 'x'
        elif k < .95:
            d = sized(rng)
            t = sized_text(rng, d)
        else:
            d, t = formatted(rng)
        yield {'op': 'make', 'dt': d}
        yield read(d, t)


def grid(c):
    """Every pair of bounds around every value."""
    for base, vals in [('integer', ['-1', '0', '1']), ('decimal', ['-0.5', '0', '0.5']), ('date', DATES[:3])]:
        for n1 in NAMES:
            for v1 in vals:
                for n2 in NAMES:
                    for v2 in vals:
                        if n1 < n2:
                            d = g.dt(base, bounds=[[n1, T(v1), False], [n2, T(v2), False]])
                            yield {'op': 'make', 'dt': d}
                            for t in vals:
                                yield read(d, t)
    for a in [None, 0, 1, 2, 3]:
        for b in [None, 0, 1, 2, 3]:
            for e in [None, 0, 1, 2, 3]:
                d = g.dt('string', length=[a] if a is not None else [], minLength=[b] if b is not None else [],
                         maxLength=[e] if e is not None else [])
                yield {'op': 'make', 'dt': d}
                for t in ['', 'a', 'ab', 'abc', 'abcd']:
                    yield read(d, t)


def check(c):
    c.model('MC_Facets.tla', 'MC_Facets.cfg', 'facets: order laws, every pair of bounds and every value of a list')
    c.conform(sessions(grid(c), 40), execute, MODULE)
    c.conform(sessions(events(c)), execute, MODULE)
