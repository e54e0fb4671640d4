"""Use table groups in several directories and record sessions for TraceGroup.tla.

plan: {mds, names, dat, dirs: [{made, files}], ev}."""
import os
import csv
import json
import shutil
import pathlib
import zipfile
import tempfile
import warnings

from .core import T, U
from .drive_dsv import codec
from .drive_table import group_json, projrow, bases, header, val


class Session:
    def __init__(self, plan, d):
        from csvw import TableGroup
        self.plan, self.mds, self.names = plan, plan['mds'], plan['names']
        self.nested = ['/' in n for n in self.names]
        self.dirs = [d / ('deep/dir%d' % i if x.get('deep') else 'dir%d' % i) for i, x in enumerate(plan['dirs'], start=1)]
        for p, x in zip(self.dirs, plan['dirs']):
            if x['made']:
                p.mkdir(parents=True)
                for t, f in enumerate(x['files']):
                    fp = p / self.names[t]
                    if f['plain'] or f['zip'] or x['subs']:
                        fp.parent.mkdir(exist_ok=True)
                    if f['plain']:
                        fp.write_bytes(U(f['plain'][0]).encode(codec(self.mds[t]['d'])))
                    if f['zip']:
                        with zipfile.ZipFile(str(fp) + '.zip', 'w') as z:
                            z.writestr(fp.name, U(f['zip'][0]).encode(codec(self.mds[t]['d'])))
        self.mdname = plan.get('mdname', 'metadata.json')
        (self.dirs[0] / self.mdname).write_text(json.dumps(group_json(self.mds, [], self.names, plan['dat'])), encoding='utf8')
        self.objs = [TableGroup.from_file(self.path(1))]
        self.description = self.objs[0].asdict(omit_defaults=False)

    def path(self, dn):
        return self.dirs[dn - 1] / self.mdname

    def state(self):
        res = []
        known = set()
        for d in self.dirs:
            fs = []
            for n, md in zip(self.names, self.mds):
                p = d / n

                def dec(b):
                    try:
                        return [T(b.decode(codec(md['d'])))]
                    except UnicodeError:
                        return [[-1] + list(b)]
                f = {'plain': dec(p.read_bytes()) if p.is_file() else [], 'zip': []}
                z = pathlib.Path(str(p) + '.zip')
                if z.exists():
                    with zipfile.ZipFile(str(z)) as zf:
                        f['zip'] = dec(zf.read(p.name)) if zf.namelist() == [p.name] else [[-2]]
                fs.append(f)
                known |= {p, z}
            md = d / self.mdname
            known.add(md)
            res.append({'made': d.is_dir(), 'md': md.is_file() and bool(md.read_text(encoding='utf8').strip()), 'files': fs})
        # no other files anywhere
        root = pathlib.Path(os.path.commonpath([str(d) for d in self.dirs]))
        extra = [str(p) for p in root.rglob('*') if p.is_file() and p not in known]
        return res, extra

    def items(self, md, items):
        bs = bases(md)
        reg = [header(c, i) for i, c in enumerate(md['cols']) if not c['virtual']]
        for it in items:
            if it[0] == 'seq':
                vs = [val(v, bs[h]) for h, v in zip(reg, it[1])]
                yield tuple(vs) if it[-1] == 'tuple' else vs
            else:
                yield {U(k): val(v, bs.get(U(k), 'string')) for k, v in it[1]}

    def op(self, e, f):
        try:
            tg = f()
            k = 'ok'
        except ValueError:
            k, tg = 'err', None
        except FileNotFoundError:
            k, tg = 'missing', None
        except Exception as x:
            return {'k': 'other', 'x': repr(x)[:300]}
        dirs, extra = self.state()
        if extra:
            return {'k': 'other', 'x': 'unexpected files: {}'.format(extra)}
        return {'k': k, 'dirs': dirs, 'same': tg is None or tg.asdict(omit_defaults=False) == self.description}

    def write(self, e):
        def f():
            tg = self.objs[e['o'] - 1]
            tg.tables[e['t'] - 1].write(self.items(self.mds[e['t'] - 1], e['items']), strict=e['strict'], _zipped=e['zipped'],
                                        **({} if not e['dir'] else {'base': str(self.dirs[e['dir'] - 1]) if e.get('str') else self.dirs[e['dir'] - 1]}))
            return tg
        return self.op(e, f)

    def gwrite(self, e):
        def f():
            tg = self.objs[e['o'] - 1]
            p = self.path(e['dir'])
            tg.write(str(p) if e.get('str') else p, strict=e['strict'], _zipped=e['zipped'],
                     **{self.names[x['t'] - 1]: list(self.items(self.mds[x['t'] - 1], x['items'])) for x in e['tabs']})
            return tg
        return self.op(e, f)

    def copy(self, e):
        def f():
            tg = self.objs[e['o'] - 1]
            p = self.dirs[e['dir'] - 1]
            tg.copy(str(p) if e.get('str') else p)
            return tg
        return self.op(e, f)

    def load(self, e):
        from csvw import TableGroup

        def f():
            p = self.path(e['dir'])
            self.objs.append(TableGroup.from_file(str(p) if e.get('str') else p))
            return self.objs[-1]
        return self.op(e, f)

    def gread(self, e):
        try:
            res = self.objs[e['o'] - 1].read()
        except csv.Error:
            return {'k': 'csv'}
        except ValueError:
            return {'k': 'err'}
        except FileNotFoundError:
            return {'k': 'missing'}
        except Exception as x:
            return {'k': 'other', 'x': repr(x)[:300]}
        if list(res) != list(self.names):
            return {'k': 'other', 'x': repr(list(res))}
        return {'k': 'done', 'tabs': [[projrow(r, bases(md)) for r in rows] for md, rows in zip(self.mds, res.values())]}


def execute(plan):
    d = pathlib.Path(tempfile.mkdtemp(dir=os.getcwd()))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            s = Session(plan, d)
            ini = {'mds': plan['mds'], 'nested': s.nested, 'objs': [1],
                   'dirs': [{'made': x['made'], 'subs': x['made'] and (x['subs'] or any(
                       n and (f['plain'] or f['zip']) for n, f in zip(s.nested, x['files'])) is True), 'md': i == 0, 'files': x['files']}
                            for i, x in enumerate(plan['dirs'])]}
            ev = []
            for e in plan['ev']:
                if e.get('o', 1) > len(s.objs):
                    continue
                if e['op'] == 'copy' and s.objs[e['o'] - 1].base == s.dirs[e['dir'] - 1]:
                    continue  # to where it is
                ev.append(dict(e, out=getattr(s, e['op'])(e)))
        return {'ini': ini, 'ev': ev}
    finally:
        shutil.rmtree(str(d), ignore_errors=True)
