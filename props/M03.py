"""Which metadata is accepted, ignored with a warning, or refused."""
from vf import gen_meta as gm
from vf.drive_meta import execute_meta as execute  # noqa: F401

MODULE = 'TraceMeta.tla'


def check(c):
    emitted = c.model('MC_Meta.tla', 'MC_Meta.cfg', 'all descriptions with any member of any value: normal forms are valid and stable')
    pairs = c.model('MC_Meta.tla', 'MC_Meta2_deep.cfg' if c.thorough else 'MC_Meta2.cfg', 'two members of any value')
    types = c.model('MC_MetaTypes.tla', 'MC_MetaTypes.cfg', 'every prefix and term, and what is almost one, as @type anywhere')
    emitted += types if c.thorough else c.rng.sample(types, 1500)
    c.conform([gm.meta_plan_tagged(c.rng, e, 0) for e in emitted], execute, MODULE)
    c.conform([gm.meta_plan_tagged(c.rng, e, 0) for e in c.rng.sample(pairs, min(len(pairs), c.n(2500, 150000)))], execute, MODULE)
    c.conform([gm.invalid(c.rng) for _ in range(c.n(3500, 80000))], execute, MODULE)
    fs = list(gm.formats(c.rng))
    c.conform([gm.formatted(c.rng, d) for d in (fs if c.thorough else c.rng.sample(fs, min(len(fs), c.n(1500, 1500))))], execute, MODULE)
