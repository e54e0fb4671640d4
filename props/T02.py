"""Values are written so that they are read back unchanged."""
from vf import gen_cell as g
from vf.core import T
from .cells import execute, MODULE, sessions, write, roundtrip  # noqa: F401
from .T01 import EMPTY

WEIGHTED = g.ALL + ['decimal'] * 5 + g.DATE * 3 + g.FLOAT * 2 + ['json'] * 2 + g.DUR


def strict(d, v):
    """Are the text and the value both determined?"""
    return not (d['f']['k'] in ('re', 'schema'))


def values(c):
    rng = c.rng
    for i in range(c.n(14000, 250000)):
        d = g.datatype(rng, rng.choice(WEIGHTED))
        if d['f']['k'] in ('re', 'schema') and rng.random() < .8:
            d['f'] = g.NONE
        v = g.value(rng, d)
        yield write(d, v)
        yield roundtrip(d, v)


def item_datatype(rng):
    b = rng.choice(['string', 'integer', 'decimal', 'boolean', 'date', 'datetime', 'time', 'duration', 'anyURI', 'hexBinary', 'number'])
    d = g.datatype(rng, b)
    if d['f']['k'] in ('re', 'schema'):
        d['f'] = g.NONE
    return d


def cells(c):
    """Lists and missing values, written and read back by their column."""
    rng = c.rng
    for i in range(c.n(6000, 120000)):
        d = item_datatype(rng) if rng.random() < .8 else None
        lv = dict(EMPTY, datatype=[d] if d else [])
        if rng.random() < .5:
            lv['null'] = [[T(n) for n in rng.choice([['NA'], ['NA', '-'], ['', 'NA'], ['?']])]]
        sep = rng.random() < .7
        if sep:
            lv['separator'] = [T(rng.choice([';', '|', ' ; ', '\t', ';;']))]
        if rng.random() < .2:
            lv['default'] = [T('NA')]

        def one():
            if rng.random() < .2:
                return ['n']
            return g.value(rng, d) if d else ['s', T(rng.choice(['a', 'b c', 'é', '1', 'x' * 50]))]
        v = ['l', [one() for _ in range(rng.choice([0, 1, 1, 2, 3, 6]))]] if sep else one()
        levels = [EMPTY, EMPTY, EMPTY, lv]
        if rng.random() < .5:   # spread the description over the levels
            levels = [dict(EMPTY) for _ in range(4)]
            for k, x in lv.items():
                levels[rng.randrange(4)][k] = x
        yield {'op': 'cround', 'levels': levels, 'v': v}


def check(c):
    c.model('MC_Cell.tla', 'MC_Num.cfg', 'every number over a grid of digits and exponents, written and read back')
    c.model('MC_Cell.tla', 'MC_Pattern.cfg', 'every number over a grid, written under every pattern of a list and read back')
    c.model('MC_Dates.tla', 'MC_Dates.cfg', 'every value of a grid under every date and time format, written and read back')
    c.model('MC_Cell.tla', 'MC_Rest.cfg', 'every value of a list for every remaining datatype, written and read back')
    c.conform(sessions(values(c)), execute, MODULE)
    c.conform(sessions(cells(c)), execute, MODULE)
    c.assumptions.append('regular expression formats and JSON schemas do not influence writing; values a format cannot express '
                         '(more digits than the pattern has, dates without their time) are only checked for the text written')
