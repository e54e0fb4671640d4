"""Reading a cell gives a value or a ValueError."""
import itertools

from vf import gen_cell as g
from vf.core import T
from .cells import execute, MODULE, sessions

WORDS = ['', ' ', '\n', '\t', '\r', '\0', 'a', 'é', '漢', '😀', '\ud7ff', '\u00a0', '\u2028', '0', '1', '9', '٣', '½', '²', '-', '+', '.', ',', '%', '‰', 'e', 'E',
         'INF', '-INF', 'NaN', 'nan', 'sNaN', 'Infinity', 'true', 'false', 'null', '[', ']', '{', '}', '"', "'", '\\', '\\u', ':', '/', '//', '?', '#', '@', '=',
         '==', 'P', 'T', 'Z', 'Y', 'M', 'D', 'W', 'H', 'S', 'P1Y', 'PT', '1D', '2020-01-01', '20200101', '2020-W01-1', '2020-366', '10:00:00', 'T10', '+01:00', '+99:99',
         '-00:00', '24:00:00', '0000-00-00', '9999-12-31', '10000', 'http:', 'http://', 'http://[', ']', '%zz', '1e999', '1e-999', '9' * 400, '1' + '0' * 5000, '_', '1_0',
         'YWJj', 'AA', '0x', '|', ';', '[[', '[1', '{"a":', '\x7f', '\x85', '\ufeff', '\ufffe', '\U0010ffff', 'P9999999999Y', 'P1.5M', 'PT9999999999999999S', '2020-13-45']


# exponents beyond the limits of floats, of decimals and of Python's integers
HUGE = [sign + m + 'E' + s + e + unit for sign in ['', '-'] for m in ['1', '0', '1,000', '0.5', '00'] for s in ['', '-', '+']
        for e in ['999', '999999', '9999999', '9' * 19, '9' * 20, '9' * 400] for unit in ['', '%', '‰']]
FORMATS = [g.numf('', '', ','), g.numf('', ',', '.'), g.numf('#0%'), g.numf('0E0'), g.numf('#,##0.##'), g.numf('0.0E0‰'), g.numf('', '', ' ', True)]


SCHEMAS = ['{"$ref": "#/nope"}', '{"$ref": "#"}', '{"items": {"$ref": "#"}, "type": "array"}', '{"properties": {"a": {"$ref": "#/nope"}}}', '5', 'true', 'false', '"x"', '[]',
           'null', '{"$schema": 5}', '{"type": "nope"}', '{"type": "string", "pattern": "("}', '{"properties": {"a": {"pattern": "("}}}', '{"multipleOf": 0}', '{"multipleOf": 0.1}',
           '{"minLength": "a"}', '{"items": 5}', '{"enum": 5}', '{"not": {"$ref": "#"}}', '{"maximum": 5}', '{"format": "date"}', '{', '[' * 100000, '']
INSTANCES = ['1', '"x"', '{}', '[]', '{"a": 1}', '{"a": "x"}', '[[[]]]', '1e400', '1e308', 'NaN', '-Infinity', 'null', 'true', '{"a": {"a": 5}}', '[1, "a", null]']


def junk(rng, d):
    k = rng.random()
    if k < .5:
        return ''.join(rng.choice(WORDS) for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 6])))
    s = None
    for _ in range(5):
        s = g.text(rng, d)
        if s is not None:
            break
    s = s or ''
    for _ in range(rng.choice([1, 1, 2, 4])):
        i = rng.randint(0, len(s))
        s = s[:i] + rng.choice(WORDS) + s[i + rng.choice([0, 0, 1, 2]):]
    return s


def event(rng):
    d = g.datatype(rng, rng.choice(g.ALL))
    if rng.random() < .15:
        d = dict(d, minLength=[1]) if d['base'] in g.TEXT + g.BIN else d
    if rng.random() < .1 and d['base'] in g.INT + g.FLOAT + ['decimal'] and d['f'] is g.NONE:
        d = dict(d, bounds=[['minimum', T('1'), False]])
    if rng.random() < .1 and d['base'] in ('date', 'datetime') and d['f'] is g.NONE:
        d = dict(d, bounds=[['minimum', T('2020-01-01' + ('T00:00:00' if d['base'] == 'datetime' else '') + rng.choice(['', 'Z'])), False]])
    if rng.random() < .1 and d['base'] in g.DUR and d['f'] is g.NONE:
        d = dict(d, bounds=[['maximum', T('P1Y'), False]])
    return {'op': 'junk', 'dt': d, 't': T(junk(rng, d))}


def events(c):
    for i in range(c.n(34000, 600000)):
        yield event(c.rng)


def every(c):
    """Every datatype, every one or two words."""
    for base in g.ALL:
        for n in range(1, c.n(2, 3)):
            for ws in itertools.product(WORDS, repeat=n):
                yield {'op': 'junk', 'dt': g.dt(base, short=True), 't': T(''.join(ws))}


def schemas(c):
    """JSON cells with all kinds of formats, and (too) deeply nested ones."""
    for f in SCHEMAS:
        for t in INSTANCES:
            yield {'op': 'junk', 'dt': g.dt('json', {'k': 'raw', 'x': T(f)}, short=True), 't': T(t)}
    for f in ['', '{}', '{"items": {"$ref": "#"}, "type": "array"}', '{"type": "object"}']:
        for w, n in itertools.product(['[', '{"a":', '[{"a":'], [10, 900, 100000]):
            yield {'op': 'junk', 'dt': g.dt('json', {'k': 'raw', 'x': T(f)} if f else None, short=True), 't': T(w), 'times': n}
    for base, w in itertools.product([x for x in g.ALL if x != 'json'], ['[', '(', '1', '-', 'P1D', '9', 'a', '%41', '=', '/', ' ']):
        yield {'op': 'junk', 'dt': g.dt(base, short=True), 't': T(w), 'times': 100000}


def formatted(c):
    """Numbers under patterns and separators: every word, enormous exponents."""
    for base, f, w in c.rng.sample(list(itertools.product(g.INT + g.FLOAT + ['decimal'], FORMATS + [g.NONE], WORDS + HUGE)), c.n(8000, 60000)):
        yield {'op': 'junk', 'dt': g.dt(base, f), 't': T(w)}


def check(c):
    c.model('MC_Cell.tla', 'MC_Rest.cfg', 'reading is total in the specification: every value of a list for every datatype')
    c.conform(sessions(every(c), 40), execute, MODULE)
    c.conform(sessions(schemas(c), 40), execute, MODULE)
    c.conform(sessions(formatted(c), 40), execute, MODULE)
    c.conform(sessions(events(c), 40), execute, MODULE)
