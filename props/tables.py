"""Plans shared by the checks of tables."""
from vf import gen_table as gt
from vf import gen_dsv as gd
from vf.core import T
from vf.drive_table import execute  # noqa: F401

MODULE = 'TraceTable.tla'
LF = dict(gd.CSVW, lt=[10])


def files(*texts):
    return [{'plain': [T(t) if isinstance(t, str) else t], 'zip': []} for t in texts]


def md(cols, d=None, **kw):
    return dict({'cols': cols, 'levels': [gt.lv(), gt.lv(), gt.lv()], 'd': d or LF, 'pk': []}, **kw)


def rows_text(rows):
    def q(cell):
        s = ''.join(map(chr, cell))
        return '"' + s.replace('"', '""') + '"' if s == '' or any(c in s for c in ',"\n') else s
    return ''.join(','.join(q(c) for c in r) + '\n' for r in rows)


def flatcell(s):
    return ''.join(map(chr, s))


def chunks(it, n):
    buf = []
    for x in it:
        buf.append(x)
        if len(buf) == n:
            yield buf
            buf = []
    if buf:
        yield buf


def reading(c, n, **kw):
    """Random tables, read in all ways and sometimes written in between."""
    rng = c.rng
    for i in range(n):
        lenient = rng.random() < .3
        m = gt.md(rng, **dict(dict(bases=gt.LENIENT, simple=True, virtual=False) if lenient else {}, **kw))
        ev = []
        for _ in range(rng.randint(1, 4)):
            mode = None if gt.lenient_ok(m) else rng.choice(['strict', 'log'])
            r = rng.random()
            if r < .12:
                ev.append(gt.read_op(rng, mode=mode, src='text', text=T(gt.text(rng, m))))
            elif r < .9 or not m['cols']:
                ev.append(gt.read_op(rng, mode=mode))
            else:
                ev.append(gt.write_op(rng, m))
        txt = T(gt.text(rng, m, nrows=rng.randint(50, 120) if i % 150 == 0 else None))
        f = {'plain': [txt], 'zip': []}
        r = rng.random()
        if r < .08:
            f = {'plain': [], 'zip': [txt]}
        elif r < .1:
            f = {'plain': [txt], 'zip': [T('gone\n')]}
        elif r < .11:
            f = gt.nofile()
        yield gt.plan([m], [f], ev, dat=rng.choice(['group', 'table']))
