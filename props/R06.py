"""Foreign keys are valid descriptions."""
from vf import gen_table as gt
from vf import gen_cell as g
from vf.core import T
from .tables import execute, MODULE, files  # noqa: F401


def plans(c, n):
    rng = c.rng
    for _ in range(n):
        mds, fks, texts, dat, broken = gt.fkgroup(rng)
        # spoil some of them, or give types explicitly
        for fk in fks:
            r = rng.random()
            if r < .1 and fk['rt']:
                fk['rcols'] = list(fk['rcols'])
                fk['rcols'][rng.randrange(len(fk['rcols']))] = T(rng.choice(['nope', 'f00', 'K1', '_col.1']))
            elif r < .2:
                fk['rt'] = rng.randint(0, len(mds))
            elif r < .3:
                col = rng.choice(mds[fk['t'] - 1]['cols'])
                col['lv'] = dict(col['lv'], datatype=rng.choice([[], [g.dt(rng.choice(gt.KBASES))]]))
            elif r < .36:
                fk['cols'] = list(fk['cols']) + [T('k1')]
                fk['rcols'] = list(fk['rcols']) + [T('k1')]
        ev = [{'op': 'schema', 'strict': s} for s in (False, True)]
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            ev += [added(rng, mds, fks), {'op': 'schema', 'strict': rng.random() < .5}]
        yield gt.plan(mds, files(*texts), ev, fks=fks, dat=dat)


def added(rng, mds, fks):
    """A foreign key added to a description in use."""
    if fks and rng.random() < .3:
        fk = dict(rng.choice(fks))
    else:
        t, rt = rng.randint(1, len(mds)), rng.choice([0] + list(range(1, len(mds) + 1)) * 4)
        hs, rhs = gt.headers(mds[t - 1]) or ['x'], gt.headers(mds[rt - 1]) or ['x']
        n = rng.choice([1, 1, 2, 3])
        fk = {'t': t, 'cols': [T(rng.choice(hs)) for _ in range(n)], 'rt': rt, 'rcols': [T(rng.choice(rhs)) for _ in range(n)]}
    if rng.random() < .3:
        fk['cols'] = list(fk['cols'])
        fk['cols'][rng.randrange(len(fk['cols']))] = T(rng.choice(['nope', 'K1', '_col.1', '']))
    return {'op': 'addfk', 'fk': fk, 'how': rng.choice(['list', 'tuple', 'bare'])}


def check(c):
    emitted = c.model('MC_FkSchema.tla', 'MC_FkSchema.cfg', 'all foreign keys between two tables of up to 2 columns')
    for x in emitted:
        x['mds'] = [dict(m, d=dict(gt.gd.CSVW, lt=[10])) for m in x['mds']]
    c.conform((gt.plan(x['mds'], files('', ''), [{'op': 'schema', 'strict': s} for s in (False, True)], fks=[x['fk']]) for x in emitted),
              execute, MODULE)
    c.conform(plans(c, c.n(2500, 30000)), execute, MODULE)
