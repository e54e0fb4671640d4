"""What happens with invalid rows."""
from vf import gen_table as gt
from vf.core import T
from .tables import execute, MODULE, files, md, rows_text, reading  # noqa: F401


def enumerated(emitted):
    for x in emitted:
        hd = [col['name'][0] for col in x['cols']]
        yield gt.plan([md(x['cols'])], files(rows_text([hd] + x['rows'])),
                      [{'op': 'read', 't': 1, 'mode': x['mode'], 'src': 'default', 'meta': True, 'text': []}])


def invalid(c, n):
    """Many invalid cells, and the same file read in every mode."""
    rng = c.rng
    for i in range(n):
        m = gt.md(rng, ncols=rng.choice([1, 2, 3]), bases=gt.LENIENT[2:], simple=True, virtual=False, p=.85, req=.35)
        txt = gt.text(rng, m, valid=rng.choice([.5, .8]), nrows=rng.randint(100, 200) if i % 100 == 0 else None)
        modes = ['strict', 'log', 'lenient'] if gt.lenient_ok(m) else ['strict', 'log']
        yield gt.plan([m], files(txt), [gt.read_op(rng, mode=k) for k in modes], dat=rng.choice(['group', 'table']))


def check(c):
    emitted = c.model('MC_TableRead.tla', 'MC_TableRead.cfg', 'row by row reading, all tables of up to 2 rows over 3 schemas, 3 modes')
    if c.thorough:
        c.model('MC_TableRead.tla', 'MC_TableRead_deep.cfg', 'up to 3 rows', timeout=3000)
    c.conform(enumerated(emitted), execute, MODULE)
    c.conform(invalid(c, c.n(1200, 15000)), execute, MODULE)
    c.conform(reading(c, c.n(600, 10000), p=.8), execute, MODULE)
    c.assumptions.append('the order of the errors of one row is not compared')
