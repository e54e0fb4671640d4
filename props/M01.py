"""Metadata written is read back as the same description."""
from vf import gen_meta as gm
from vf.drive_meta import execute_meta as execute  # noqa: F401

MODULE = 'TraceMeta.tla'


def check(c):
    emitted = c.model('MC_Meta.tla', 'MC_Meta.cfg', 'all descriptions with any member of any value: normal forms are valid and stable')
    c.conform([gm.meta_plan_tagged(c.rng, e, 2) for e in c.rng.sample(emitted, min(len(emitted), c.n(2500, 100000)))], execute, MODULE)
    c.conform([gm.cycles(c.rng) for _ in range(c.n(3000, 60000))], execute, MODULE)
