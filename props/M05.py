"""Table groups in several directories: writing, copying, loading."""
from vf import gen_table as gt
from vf import gen_dsv as gd
from vf.core import T
from vf.drive_group import execute  # noqa: F401
from .tables import md

MODULE = 'TraceGroup.tla'


def text_col(name):
    return {'name': [T(name)], 'titles': [], 'purl': [], 'virtual': False, 'vurl': [], 'lv': gt.lv()}


def enumerated(c, emitted, n):
    m = md([text_col('a')])

    def row(k):
        return ['map', [[T('a'), ['s', T('x%d' % k)]]]]
    none = gt.nofile()
    text = T('a\nx0\n')
    dirs = [{'made': True, 'subs': True, 'files': [{'plain': [text], 'zip': []}, {'plain': [], 'zip': [text]}]},
            {'made': True, 'subs': False, 'files': [none, none]}, {'made': False, 'subs': False, 'files': [none, none], 'deep': True}]
    for hist in emitted if n >= len(emitted) else c.rng.sample(emitted, n):
        ev = []
        for i, h in enumerate(hist, start=1):
            e = {'op': h['op'], 'o': max(1, h['o']), 'dir': h['dir'], 'zipped': h['zipped'], 'strict': False}
            if h['op'] == 'write':
                e.update(t=h['t'], dir=0, items=[row(i)])
            elif h['op'] == 'gwrite':
                e['tabs'] = [{'t': t, 'items': [row(i)]} for t in (1, 2)]
            ev += [e, {'op': 'gread', 'o': 1}, {'op': 'gread', 'o': 2}]
        yield dict(mds=[m, m], names=['t1.csv', 'sub/t2.csv'], dat='table', dirs=dirs, ev=ev)


def histories(c, n):
    rng = c.rng
    for _ in range(n):
        nt = rng.choice([1, 2, 2, 3])
        dat = rng.choice(['group', 'table'])
        dia = gt.dialect(rng, read=False) if rng.random() < .5 else dict(gd.CSVW)
        mds = []
        for k in range(nt):
            m = gt.md(rng, ncols=rng.choice([1, 2, 3]), dia=dia if dat == 'group' or k == 0 else gt.dialect(rng, read=False), req=.03,
                      levels=[gt.lv(), gt.lv(), gt.lv()])
            m['d']['skipRows'] = m['d']['skipCols'] = 0
            mds.append(m)
        names = [rng.choice(['', 'sub/'] if rng.random() < .4 else ['']) + rng.choice(['t%d.csv', 'T %d.v1.txt', '%d']) % k for k in range(nt)]
        dirs = []
        nd = rng.choice([2, 3, 3])
        for i in range(nd):
            made = i == 0 or rng.random() < .6
            fs = []
            for m in mds:
                r = rng.random()
                x = [T(gt.text(rng, m, valid=.98))]
                empty = r < (.1 if i == 0 else .6)
                fs.append(gt.nofile() if not made or empty else {'plain': x, 'zip': []} if r < .8 else {'plain': [], 'zip': x})
            dirs.append({'made': made, 'subs': made and rng.random() < .6, 'deep': rng.random() < .5, 'files': fs})
        ev, at = [], [1]
        for _ in range(rng.randint(3, 8)):
            r = rng.random()
            o = rng.randint(1, len(at))
            t = rng.randint(1, nt)
            dn = rng.randint(1, nd)
            base = {'o': o, 'strict': rng.random() < .2, 'zipped': rng.random() < .3, 'str': rng.random() < .5}
            if r < .2:
                ev.append(dict(base, op='write', t=t, dir=rng.choice([0, 0, dn]), items=gt.items(rng, mds[t - 1])))
            elif r < .45:
                ts = rng.sample(range(1, nt + 1), rng.choice([nt, nt, rng.randint(0, nt)]))
                ev.append(dict(base, op='gwrite', dir=dn, tabs=[{'t': t, 'items': gt.items(rng, mds[t - 1])} for t in ts]))
            elif r < .7:
                ev.append(dict(base, op='copy', dir=dn))
            elif r < .85:
                ev.append(dict(base, op='load', dir=dn))
                at.append(dn)
            for k in range(len(at)):
                ev.append({'op': 'gread', 'o': k + 1})
        yield dict(mds=mds, names=names, dat=dat, dirs=dirs, ev=ev, mdname=rng.choice(['metadata.json', 'x-metadata.json', 'md', 'md.v1.0.json', 'a b.json', 'ü.b.c-metadata.json']))


def check(c):
    emitted = c.model('MC_Group.tla', 'MC_Group.cfg', 'two tables, three directories: all histories of 3 writes, group writes, copies, loads')
    if c.thorough:
        c.model('MC_Group.tla', 'MC_Group_deep.cfg', 'histories of 4 operations', timeout=3000)
    c.conform(enumerated(c, emitted, c.n(1300, 100000)), execute, MODULE)
    c.conform(histories(c, c.n(800, 12000)), execute, MODULE)
