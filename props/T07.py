"""Booleans, strings with regular expressions, binary data, JSON, durations, URIs."""
import itertools

from vf import gen_cell as g
from .cells import execute, MODULE, sessions, read, write, roundtrip  # noqa: F401

BASES = ['boolean'] * 3 + g.TEXT + ['string'] * 6 + ['anyURI', 'any', 'NMTOKEN', 'normalizedString'] + g.BIN * 2 + ['json'] * 5 + g.DUR * 3


def small(c):
    """Small regular expressions against every short text."""
    a, b, nl = ['c', 97], ['c', 98], ['c', 10]
    xs = [['alt', [a, ['seq', [a, b]]]], ['rep', a, 0, -1], ['seq', [a, ['rep', b, 0, 1]]], ['alt', [a, b]], ['rep', ['alt', [a, b]], 2, 2],
          ['seq', [['alt', [a, b]], b]], ['any'], ['set', [97], True], a, ['seq', [a, nl]]]
    for base in ['string', 'normalizedString', 'NMTOKEN', 'gYear', 'anyURI', 'xml']:
        for x in xs:
            for n in range(4):
                for t in itertools.product('ab\n', repeat=n):
                    t = ''.join(t)
                    if base != 'anyURI' or '\n' not in t:
                        yield read(g.dt(base, {'k': 're', 'x': x}), t)


def events(c):
    rng = c.rng
    for i in range(c.n(20000, 300000)):
        d = g.datatype(rng, rng.choice(BASES))
        if rng.random() < .7:
            yield read(d, g.text(rng, d))
        else:
            yield rng.choice([write, roundtrip])(d, g.value(rng, d))


def check(c):
    c.model('MC_Cell.tla', 'MC_Rest.cfg', 'every value of a list for every remaining datatype, written and read back')
    c.conform(sessions(small(c)), execute, MODULE)
    c.conform(sessions(events(c)), execute, MODULE)
    c.assumptions.append('regular expressions from characters, sets, alternation, sequence and repetition; JSON schemas with a type only; '
                         'ASCII URIs; base64 with foreign characters is left open')
