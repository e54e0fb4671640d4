"""Dates and times."""
from vf import gen_cell as g
from .cells import execute, MODULE, sessions, read, write, roundtrip  # noqa: F401


def emitted(c):
    for x in c.model('MC_Dates.tla', 'MC_Dates_gen.cfg', 'every date, time and timezone pattern with every value of a list, written and read back'):
        p, v = ''.join(map(chr, x['pat'])), x['v']
        if not x['timeonly'] and v[0][0] in (1, 9999) and v[1]:
            continue
        base = 'time' if x['timeonly'] else 'datetime'
        d = g.dt(base, {'k': 'date', 'p': g.T(p)})
        yield write(d, ['dt'] + v)
        yield roundtrip(d, ['dt'] + v)


def thin(c, it):
    k = c.n(4, 1)
    off = c.seed % k
    for i, e in enumerate(it):
        if (i // 2) % k == off:
            yield e


def events(c):
    rng = c.rng
    for i in range(c.n(24000, 400000)):
        base = rng.choice(g.DATE)
        d = g.datatype(rng, base, rng.random() < .75)
        k = rng.random()
        if k < .6:
            yield read(d, g.text(rng, d))
        elif k < .95:
            yield rng.choice([write, roundtrip])(d, g.value(rng, d))
        else:
            p = g.date_pattern(rng, base)
            j = rng.randrange(len(p))
            p = p[:j] + rng.choice(['', p[j] * 2, 'x', 'y', ':', '.', 'S', ' ']) + p[j + 1:]
            if base != 'date' and g_ok(p):
                yield {'op': 'make', 'dt': g.dt(base, {'k': 'date', 'p': g.T(p)})}


VALID = {'yyyy': '2012', 'MM': '10', 'dd': '11', 'M': '8', 'd': '9', 'HH': '10', 'mm': '21', 'ss': '32', 'SSS': '012', 'S': '4', 'X': '+01', 'XXX': '-03:30', 'xx': '+0100'}
FOREIGN = ['', None, '\u0663', '\uff13', '\u00b2', '\u0967', 'x', '/', '.', '-', ':', 'T', ' ', '+', '0', '9', ',', '\u2212', '\n']


def flaws(c):
    """A correct text for each pattern, and every text with one wrong character (or one less, or one twice)."""
    import re
    dates = ['yyyy-MM-dd', 'yyyyMMdd', 'dd-MM-yyyy', 'd-M-yyyy', 'MM-dd-yyyy', 'M-d-yyyy', 'dd/MM/yyyy', 'd/M/yyyy', 'MM/dd/yyyy', 'M/d/yyyy', 'dd.MM.yyyy', 'd.M.yyyy',
             'MM.dd.yyyy', 'M.d.yyyy']
    times = ['HH:mm:ss', 'HHmmss', 'HH:mm', 'HHmm', 'HH:mm:ss.SSS', 'HHmmss.S', 'HH:mm:ssX', 'HH:mm XXX', 'HHmmss.SSSxx']
    for base, ps in [('date', dates), ('time', times), ('datetime', [d + s + t for d in dates[::3] for s in 'T ' for t in times[::2]]), ('dateTimeStamp', [dates[3] + ' ' + times[-1]])]:
        for p in ps:
            d = g.dt(base, {'k': 'date', 'p': g.T(p)})
            t = ''.join(VALID.get(x, x) for x in re.findall(r'y+|M+|d+|H+|m+|s+|S+|X+|x+|.', p))
            yield read(d, t)
            for i in range(len(t)):
                for x in FOREIGN:
                    yield read(d, t[:i] + (t[i] * 2 if x is None else x) + t[i + 1:])


def g_ok(p):
    """Nothing is claimed about patterns with several separators or fractions of minutes."""
    return p and p == p.strip() and p.count('.') < 4


def check(c):
    c.conform(sessions(thin(c, emitted(c))), execute, MODULE)
    c.conform(sessions(thin(c, flaws(c))), execute, MODULE)
    c.conform(sessions(events(c)), execute, MODULE)
    c.assumptions.append('ISO 8601 forms beyond XML Schema, hour 24 and patterns with fractions of minutes are left open')
