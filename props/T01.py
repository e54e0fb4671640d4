"""Cells are interpreted by their column."""
import itertools

from vf import gen_cell as g
from vf.core import T
from .cells import execute, MODULE, sessions  # noqa: F401

EMPTY = {'null': [], 'default': [], 'required': [], 'separator': [], 'datatype': []}


def level(rng, p):
    lv = dict(EMPTY)
    if rng.random() < p:
        ns = rng.choice([['NA'], ['-', 'NA'], ['', '-'], [], ['0'], ['x', ''], ['NULL'], ['1'], [' ']])
        lv['null'] = [[T(n) for n in ns]]
        lv['bare'] = rng.random() < .5
    if rng.random() < p:
        lv['default'] = [T(rng.choice(['NA', '5', '-', 'true', 'x', '1;2', 'd e', '0', ' ']))]
    if rng.random() < p:
        lv['required'] = [rng.random() < .7]
    if rng.random() < p:
        lv['separator'] = [T(rng.choice([';', '|', ' ', ', ', '-', ';;', '.']))]
    if rng.random() < p:
        b = rng.choice(['string', 'integer', 'decimal', 'boolean', 'date', 'byte', 'NMTOKEN', 'string', 'anyURI', 'duration'])
        d = g.datatype(rng, b, rng.random() < .2)
        if b == 'boolean':
            d = g.dt('boolean', rng.choice([g.NONE, {'k': 'bool', 't': T('x'), 'f': T('-')}, {'k': 'bool', 't': T('5'), 'f': T('0')}]))
        if b == 'string' and rng.random() < .5:
            d = g.dt('string', minLength=[rng.choice([1, 2])])
        lv['datatype'] = [d]
    return lv


def text(rng, levels):
    dts = [lv['datatype'][0] for lv in levels if lv['datatype']]
    seps = [''.join(map(chr, lv['separator'][0])) for lv in levels if lv['separator']]
    words = ['', '', 'NA', '-', '5', 'true', 'x', 'd e', '0', ' ', 'NULL', '1', 'é']
    words += [''.join(map(chr, n)) for lv in levels for ns in lv['null'] for n in ns]
    words += [''.join(map(chr, d)) for lv in levels for d in lv['default']]

    def word():
        if dts and rng.random() < .5:
            t = g.text(rng, dts[-1])
            return rng.choice(words) if t is None else t
        return rng.choice(words)
    if seps and rng.random() < .75:
        return seps[-1].join(word() for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))) + (seps[-1] if rng.random() < .1 else '')
    return word()


def odd(levels, t):
    """Cells whose datatype leaves them open."""
    sep = next((''.join(map(chr, lv['separator'][0])) for lv in reversed(levels) if lv['separator']), None)
    d = next((lv['datatype'][0] for lv in reversed(levels) if lv['datatype']), None)
    dflt = next((''.join(map(chr, lv['default'][0])) for lv in reversed(levels) if lv['default']), '')
    if d is None:
        return False
    for v in [t or dflt] if sep is None else [x or dflt for x in (t or dflt).split(sep)] if t or dflt else []:
        b = d['base']
        kind = 'i' if b in g.INT else 'd' if b == 'decimal' else None
        if kind and g.lenient(d['f'], kind, v):
            return True
        if b == 'date' and g.midnight(v) or b == 'duration' and g.odd_duration(v) or b == 'anyURI' and g.odd_uri(v):
            return True
    return False


def events(c):
    rng = c.rng
    for i in range(c.n(24000, 400000)):
        levels = [level(rng, p) for p in rng.choice([(.1, .1, .1, .6), (.3, .3, .3, .3), (0, 0, 0, .7), (.6, 0, 0, .2), (.2, .5, 0, .1)])]
        if rng.random() < .75:
            t = text(rng, levels)
            if not odd(levels, t):
                yield {'op': 'cread', 'levels': levels, 't': T(t)}
        else:
            d = next((lv['datatype'][0] for lv in reversed(levels) if lv['datatype']), None)
            sep = any(lv['separator'] for lv in levels)

            def one():
                if rng.random() < .2:
                    return ['n']
                return g.value(rng, d) if d else ['s', T(rng.choice(['a', 'NA', '', 'b c', '-']))]
            if sep:
                yield {'op': 'cwrite', 'levels': levels, 'v': ['l', [one() for _ in range(rng.choice([0, 1, 1, 2, 3]))]]
                       if rng.random() < .9 else ['n']}
            else:
                yield {'op': 'cwrite', 'levels': levels, 'v': one()}


def emitted(c):
    for x in c.model('MC_Column.tla', 'MC_Column_gen.cfg', 'every short cell under every combination of null, default, required, '
                     'separator at two levels'):
        up = dict(EMPTY, **x['up'])
        low = dict(EMPTY, **x['low'])
        at = c.rng.choice([(0, 3), (1, 3), (2, 3), (0, 1), (1, 2)])
        levels = [up if i == at[0] else low if i == at[1] else EMPTY for i in range(4)]
        for t in itertools.chain.from_iterable(itertools.product('-;a', repeat=n) for n in range(4)):
            yield {'op': 'cread', 'levels': levels, 't': T(''.join(t))}


def check(c):
    c.model('MC_Column.tla', 'MC_Column.cfg', 'laws of cell interpretation for every cell up to 4 characters')
    c.conform(sessions(emitted(c), 40), execute, MODULE)
    c.conform(sessions(events(c)), execute, MODULE)
    c.assumptions.append('an explicitly empty default and an explicit null of "" are the same as none')
