"""Tables and table groups read what was written."""
from vf import gen_table as gt
from vf import gen_dsv as gd
from vf.core import T
from .tables import execute, MODULE, md  # noqa: F401


def enumerated(emitted):
    lst = lambda b: gt.lv(separator=[T('|')]) if b else gt.lv()  # noqa: E731
    dt = {'base': 'integer', 'f': {'k': 'none'}, 'length': [], 'minLength': [], 'maxLength': [], 'bounds': [], 'short': True}

    def tab(b):
        return md([{'name': [T('a')], 'titles': [], 'purl': [], 'virtual': False, 'vurl': [], 'lv': gt.lv(datatype=[dt])},
                   {'name': [T('b')], 'titles': [], 'purl': [], 'virtual': False, 'vurl': [], 'lv': lst(b)}])
    for hist in emitted:
        ev = []
        for h in hist:
            tabs = [{'t': x['t'], 'items': [['seq', r, 'list'] for r in x['rows']]} for x in h['tabs']]
            if h['op'] == 'write':
                ev.append({'op': 'write', 't': tabs[0]['t'], 'items': tabs[0]['items'], 'to': 'default', 'zipped': h['zipped'], 'strict': False})
            else:
                ev.append({'op': 'gwrite', 'tabs': tabs, 'zipped': h['zipped'], 'strict': False})
            ev.append({'op': 'gread'})
            for t in (1, 2):
                ev.append({'op': 'read', 't': t, 'mode': 'strict', 'src': 'default', 'meta': True, 'text': []})
        yield gt.plan([tab(False), tab(True)], [gt.nofile(), gt.nofile()], ev)


def histories(c, n):
    rng = c.rng
    for i in range(n):
        nt = rng.choice([1, 1, 2, 3])
        dat = rng.choice(['group', 'table'])
        dia = gt.dialect(rng, read=False) if rng.random() < .5 else dict(gd.CSVW)
        lvs = gt.toplevels(rng) if rng.random() < .3 else None
        mds = []
        for _ in range(nt):
            m = gt.md(rng, ncols=rng.choice([1, 2, 3, 5]), dia=dia if dat == 'group' else None, req=.05,
                      levels=lvs or [gt.lv(), gt.lv(), gt.lv()])
            if dat == 'table':
                m['d'] = gt.dialect(rng, read=False)
            m['d']['skipRows'] = m['d']['skipCols'] = 0
            mds.append(m)
        fs = []
        for m in mds:
            r = rng.random()
            x = [T(gt.text(rng, m))]
            fs.append(gt.nofile() if r < .5 else {'plain': x, 'zip': []} if r < .8 else {'plain': [], 'zip': x})
        ev = []
        for _ in range(rng.randint(2, 6)):
            r = rng.random()
            t = rng.randint(1, nt)
            m = mds[t - 1]
            if r < .35:
                big = i % 100 == 0
                ev.append(gt.write_op(rng, m, t, gt.items(rng, m, rng.randint(100, 300)) if big else None))
                if ev[-1]['to'] not in ('memory', 'other'):
                    ev.append(gt.read_op(rng, t, mode=rng.choice(['strict', 'log']), src=rng.choice(['default', 'path', 'str'])))
            elif r < .7:
                ts = rng.sample(range(1, nt + 1), rng.choice([nt, nt, rng.randint(0, nt)]))
                ev.append({'op': 'gwrite', 'tabs': [{'t': t, 'items': gt.items(rng, mds[t - 1])} for t in ts], 'strict': rng.random() < .3,
                           'zipped': rng.random() < .3, 'reload': rng.random() < .5, 'path': rng.random() < .5})
                if rng.random() < .6:
                    ev.append({'op': 'gread'})
            elif r < .8:
                ev.append({'op': 'gread'})
            else:
                ev.append(gt.read_op(rng, t, mode=rng.choice(['strict', 'log'])))
        names = None
        if rng.random() < .2:
            names = ['sub/t%d.csv' % k for k in range(nt)] if rng.random() < .5 else ['T %d.v1.txt' % k for k in range(nt)]
        yield gt.plan(mds, fs, ev, dat=dat, names=names, inmemory=rng.random() < .15)


def check(c):
    emitted = c.model('MC_TableFile.tla', 'MC_TableFile.cfg', 'two tables, all histories of 2 writes (plain, zipped, one, all)')
    if c.thorough:
        c.model('MC_TableFile.tla', 'MC_TableFile_deep.cfg', 'histories of 3 writes', timeout=3000)
    c.conform(enumerated(emitted), execute, MODULE)
    c.conform(histories(c, c.n(1600, 25000)), execute, MODULE)
