"""Data packages as table groups."""
from vf import gen_frictionless as gf
from vf import gen_table as gt
from vf.core import T
from vf.drive_frictionless import execute, istable

MODULE = 'TraceFrictionless.tla'


def convert(rng):
    return {'op': 'convert', 'how': rng.choice(['path', 'text', 'dict', 'dp', 'pathdir']), 'fn': rng.random() < .5, 'again': rng.random() < .3}


def uses(rng, pkg, keys=False):
    n = sum(map(istable, pkg['res']))
    for t in range(1, n + 1):
        yield gt.read_op(rng, t, mode=rng.choice(['strict', 'log']))
        if keys or rng.random() < .3:
            yield {'op': 'pk', 't': t, 'log': rng.random() < .7}
    if keys:
        yield {'op': 'ri', 'log': rng.random() < .7, 'strict': rng.random() < .3}


def enumerated(c, emitted):
    """Every field of the model with every text."""
    rng = c.rng
    for x in emitted:
        r = gf.resource(1, [x['f'], gf.field('z')], missing=[x['missing']])
        text = ''.join(','.join(y) + '\n' for y in [['a', 'z']] + [['"%s"' % ''.join(map(chr, t)), ''] for t in x['texts']])
        yield {'pkg': {'props': [], 'res': [r]}, 'files': [{'plain': [T(text)], 'zip': []}],
               'ev': [convert(rng), {'op': 'store', 'omit': rng.random() < .5}, gt.read_op(rng, 1, mode='log')]}


def packages(c, n):
    rng = c.rng
    for i in range(n):
        keys = rng.random() < .4
        pkg, files = gf.keyed(rng) if keys else gf.package(rng)
        ev = [convert(rng)]
        if rng.random() < .7:
            ev += list(uses(rng, pkg, keys))
        if rng.random() < .6:
            ev += [{'op': 'store', 'omit': rng.random() < .5}] + list(uses(rng, pkg, keys))
        yield {'pkg': pkg, 'files': files, 'ev': ev}


def check(c):
    emitted = c.model('MC_Frictionless.tla', 'MC_Frictionless.cfg',
                      'fields of every type with every constraint: the description they are translated to accepts the same texts')
    c.conform(enumerated(c, emitted), execute, MODULE)
    c.conform(packages(c, c.n(2500, 40000)), execute, MODULE)
