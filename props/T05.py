"""Number patterns."""
import itertools

from vf import gen_cell as g
from .cells import execute, MODULE, sessions, read, write, roundtrip  # noqa: F401

PATTERNS = ['0', '00', '#0', '000', '#,##0', '#,##,##0', '0,000', '#,#00', '0.0', '0.00', '0.##', '0.0#', '#,##0.0', '#,##0.##', '0%',
            '0.0%', '0.#‰']


def small(c):
    for pat in PATTERNS:
        for dec, grp in [('', ''), (',', '.')]:
            if grp and ',' not in pat:
                grp = ''
            f = g.numf(pat, dec, grp)
            chars = '10' + (dec or '.') + (grp or ',') + ('-' if pat[-1] not in '%‰' else pat[-1])
            for n in range(1, c.n(4, 7)):
                for t in itertools.product(chars, repeat=n):
                    t = ''.join(t)
                    if not g.lenient(f, 'd', t):
                        yield read(g.dt('decimal', f), t)


def events(c):
    rng = c.rng
    for i in range(c.n(30000, 500000)):
        base = rng.choice(['decimal'] * 6 + g.INT + g.FLOAT * 2)
        f = g.numformat(rng, pattern=True)
        if base in g.INT and rng.random() < .8:
            f = dict(f, pat=g.T(''.join(map(chr, f['pat'])).split('.')[0].rstrip('%‰')))
        d = g.dt(base, f)
        if rng.random() < .6:
            yield read(d, g.number_read(rng, base, f))
        else:
            yield rng.choice([write, write, roundtrip])(d, g.number_value(rng, base, f))


EXPONENTS = ['0E0', '00E0', '0.0E0', '0.00E0', '#0.0#E0', '0.0##E00', '#,##0E0', '#,##0.0E00', '00.0E+00', '0E+0', '0.0#E+00', '#,##,##0.0E0', '0.0E000']


def exponents(c):
    rng = c.rng
    for i in range(c.n(6000, 100000)):
        p = rng.choice(EXPONENTS)
        ip = ''.join(rng.choice('0123456789') for _ in range(rng.choice([1, 1, 2, 3, 4, 5, 6])))
        if ',' in p and rng.random() < .8:
            ip = g.group(ip, 3, rng.choice([3, 3, 2]), ',')
        fp = ''.join(rng.choice('0123456789') for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 4])))
        ep = rng.choice(['', '0']) + rng.choice(['', '0']) + rng.choice(['0', '1', '5', '9', '12', '10', '101'])
        t = rng.choice(['', '', '-', '+']) + ip + ('.' + fp if fp else '') + (rng.choice('Ee') + rng.choice(['', '', '-', '+']) + ep if rng.random() < .9 else '')
        dec, grp = rng.choice([('', ''), ('', ''), (',', '.'), (',', ' ')])
        if ',' not in p:
            grp = ''
        if dec:
            t = t.replace(',', 'G').replace('.', dec).replace('G', grp or ',')
        if dec and ',' in t and ',' in p and not grp:
            continue
        yield read(g.dt(rng.choice(g.FLOAT * 4 + ['decimal']), g.numf(p, dec, grp, asdict=rng.random() < .5)), t)


def check(c):
    c.model('MC_Cell.tla', 'MC_Pattern.cfg', 'every pattern of a list, separators, a grid of numbers: written, read back, rounded')
    c.conform(sessions(small(c)), execute, MODULE)
    c.conform(sessions(events(c)), execute, MODULE)
    c.conform(sessions(exponents(c)), execute, MODULE)
    c.assumptions.append('patterns with exponents are read, not written; no explicit signs and negative subpatterns; texts with dangling separators are left open')
