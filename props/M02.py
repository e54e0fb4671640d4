"""Inherited properties, and changes to descriptions."""
from vf import gen_meta as gm
from vf.drive_meta import execute_meta as execute  # noqa: F401

MODULE = 'TraceMeta.tla'


def check(c):
    emitted = c.model('MC_Inherit.tla', 'MC_Inherit_deep.cfg' if c.thorough else 'MC_Inherit.cfg',
                      'all sequences of changes of an inherited property in a group of 2x2 columns: seen by exactly the columns below')
    c.conform([gm.inherit_plan(c.rng, e) for e in c.rng.sample(emitted, min(len(emitted), c.n(2500, 100000)))], execute, MODULE)
    c.conform([gm.changed(c.rng) for _ in range(c.n(3000, 50000))], execute, MODULE)
