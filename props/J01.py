"""Conversion to JSON."""
from vf import gen_json as gj
from vf import gen_dsv as gd
from vf.drive_json import execute  # noqa: F401

MODULE = 'TraceJson.tla'


def enumerated(c, emitted, n):
    for x in c.rng.sample(emitted, min(n, len(emitted))):
        m = dict(x['md'], d=dict(gd.CSVW, lt=[10]), simple=True)
        del m['loc']
        yield gj.plan([m], [x['text']], [gj.jev(c.rng)], 'group' if c.rng.random() < .5 else 'single', c.rng.random() < .7)


def plans(c, n):
    for _ in range(n):
        yield gj.conversion(c.rng)


def check(c):
    emitted = c.model('MC_Json.tla', 'MC_Json.cfg', 'small tables of two columns; references as in RFC 3986')
    c.conform(enumerated(c, emitted, c.n(1500, 100000)), execute, MODULE)
    c.conform(plans(c, c.n(1500, 20000)), execute, MODULE)
