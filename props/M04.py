"""What the links in metadata refer to."""
from vf import gen_links as gl
from vf.drive_links import execute  # noqa: F401

MODULE = 'TraceLinks.tla'


def enumerated(c, emitted, n):
    for doc in c.rng.sample(emitted, min(n, len(emitted))):
        dat = 'group' if doc['dialect'] else c.rng.choice(['group', 'table'])
        yield dict(doc=doc, local=False, dat=dat, ev=gl.events(c.rng, 1, False, dat, doc))


def check(c):
    emitted = c.model('MC_Links.tla', 'MC_Links.cfg', 'documents of one table: 4 places, 7 bases, 9 references')
    if c.thorough:
        c.model('MC_Links.tla', 'MC_Links_deep.cfg', '9 references for schemas and dialects, too')
    c.conform(enumerated(c, emitted, c.n(1500, 100000)), execute, MODULE)
    c.conform([gl.plan(c.rng) for _ in range(c.n(2000, 40000))], execute, MODULE)
