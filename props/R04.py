"""Primary keys."""
from vf import gen_table as gt
from vf.core import T
from .tables import execute, MODULE, files, rows_text  # noqa: F401


def small(emitted):
    """The tables of the model, and the same rows without a key."""
    seen = set()
    for x in emitted:
        k = repr((x['kind'] == 'two', x['parent']))
        if k not in seen:
            seen.add(k)
            m = dict(x['mds'][0], d=dict(gt.gd.CSVW, lt=[10]))
            t = rows_text([[c['name'][0] for c in m['cols']]] + x['parent'])
            yield gt.plan([m], files(t), [{'op': 'pk', 't': 1, 'log': g} for g in (False, True)])


def plans(c, n):
    rng = c.rng
    for _ in range(n):
        m, t = gt.pktable(rng)
        yield gt.plan([m], files(t), [{'op': 'pk', 't': 1, 'log': g} for g in (False, True)], dat=rng.choice(['group', 'table']))


def check(c):
    emitted = c.model('MC_Keys.tla', 'MC_Keys.cfg', 'row by row collection of keys, all tables of up to 2 rows; uniqueness is equality of values')
    if c.thorough:
        c.model('MC_Keys.tla', 'MC_Keys_deep.cfg', 'up to 3 rows', timeout=3400)
    c.conform(small(emitted), execute, MODULE)
    c.conform(plans(c, c.n(3500, 60000)), execute, MODULE)
