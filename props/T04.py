"""Integers and decimals: lexical forms, separators, ranges."""
from vf import gen_cell as g
from .cells import execute, MODULE, sessions, read, write, roundtrip  # noqa: F401


def events(c):
    rng = c.rng
    bases = g.INT + ['decimal'] * 8 + g.FLOAT
    for i in range(c.n(30000, 500000)):
        base = rng.choice(bases)
        f = g.NONE if rng.random() < .4 else g.numformat(rng, pattern=False)
        d = g.dt(base, f if f is g.NONE or f['dec'] or f['grp'] else g.NONE, short=rng.random() < .5)
        if rng.random() < .75:
            yield read(d, g.number_read(rng, base, d['f']))
        else:
            yield rng.choice([write, roundtrip])(d, g.number_value(rng, base, d['f']))


def limits(c):
    """Every limit of every integer type."""
    for base in g.INT:
        for n in g.LIMITS:
            for k in (-1, 0, 1):
                s = str(n + k)
                for t in (s, '+' + s, s.replace('-', '-000') if '-' in s else '000' + s):
                    yield read(g.dt(base), t)
                yield read(g.dt(base, g.numf('', ',', '.')), s)


def small(c):
    """Every short text over the characters of numbers."""
    import itertools
    fs = [g.NONE, g.numf('', ',', '.'), g.numf('', '', ','), g.numf('', ',', '')]
    for base in ['decimal', 'integer', 'byte', 'number']:
        for f in fs:
            kind = {'decimal': 'd', 'number': 'f'}.get(base, 'i')
            for n in range(c.n(4, 6)):
                for t in itertools.product('17.,-%', repeat=n):
                    t = ''.join(t)
                    if not g.lenient(f, kind, t):
                        yield read(g.dt(base, f), t)


def check(c):
    c.model('MC_Cell.tla', 'MC_Num.cfg', 'every number over a grid of digits and exponents, written and read back')
    c.conform(sessions(limits(c)), execute, MODULE)
    c.conform(sessions(small(c)), execute, MODULE)
    c.conform(sessions(events(c)), execute, MODULE)
    c.assumptions.append('Python-specific numerals (underscores, non-ASCII digits, surrounding whitespace), "5.0" as integer '
                         'and floats with more than 15 significant digits are left open')
