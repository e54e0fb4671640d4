"""The commands."""
from vf import gen_commands as gc
from vf.drive_commands import execute  # noqa: F401

MODULE = 'TraceCommands.tla'


def enumerated(c, emitted):
    for g in emitted:
        w = {k: g['first'][k] for k in ['form', 'meta', 'a', 'b', 'bthere']}
        w['props'] = g['first']['props'] or {}
        ev = [dict(e, md=w['form'] == 'group' or c.rng.random() < .5, abs=c.rng.random() < .3) for e in g['hist']]
        for e in ev:
            if e['op'] == 'edit':
                e['props'] = e['props'] or {}
        yield dict(w=w, paths=sorted(g['first']['dbs']), mpaths=sorted(g['first']['mds']), ev=ev)


def check(c):
    emitted = c.model('MC_Commands.tla', 'MC_Commands_deep.cfg' if c.thorough else 'MC_Commands.cfg',
                      'all histories of two commands (three if thorough) over small data, valid or not')
    if not c.thorough:
        c.rng.shuffle(emitted)
        emitted = emitted[:2500]
    c.conform(enumerated(c, emitted), execute, MODULE)
    c.conform((gc.plan(c.rng) for _ in range(c.n(2500, 60000))), execute, MODULE)
    c.conform((gc.plan(c.rng, process=True) for _ in range(c.n(12, 400))), execute, MODULE)
