"""Where metadata is located."""
from vf import gen_meta as gm
from vf.drive_meta import execute_locate as execute  # noqa: F401

MODULE = 'TraceLocate.tla'


def enumerated(c, emitted, n):
    for w in c.rng.sample(emitted, min(n, len(emitted))):
        yield gm.loc_plan(c.rng, w)


def check(c):
    emitted = c.model('MC_Locate.tla', 'MC_Locate.cfg', 'all worlds of a link, a configuration and three places: the first description of the file is found')
    c.conform(enumerated(c, emitted, c.n(3500, 100000)), execute, MODULE)
    c.conform([gm.location(c.rng) for _ in range(c.n(6000, 60000))], execute, MODULE)
