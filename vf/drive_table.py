"""Execute plans on the tables of a TableGroup and record sessions for TraceTable.tla.

plan: {mds, fks, names, group (index of levels shared), files, ev}."""
import io
import os
import re
import csv
import json
import shutil
import pathlib
import zipfile
import tempfile
import warnings

from .core import T, U
from .drive_cell import level_json, projl, val
from .drive_dsv import dialect_json, codec


# -- descriptions -----------------------------------------------------------
def template(ast):
    """The text of a URI template."""
    if ast and ast[0][0] == 'bad':
        return [5, ['x'], {'x': 1}, True][ast[0][1]]
    res = ''
    for tok in ast:
        if tok[0] == 'lit':
            res += U(tok[1])
        else:
            res += '{' + (chr(tok[1]) if tok[1] else '') + ','.join(
                U(x['n']) + (':%d' % x['p'] if x['p'] else '') + ('*' if x['x'] else '') for x in tok[2]) + '}'
    return res


def column_json(col):
    res = level_json(col['lv'])
    if col['name']:
        res['name'] = U(col['name'][0])
    if col['titles']:
        ts = [U(t) for t in col['titles']]
        res['titles'] = ts[0] if len(ts) == 1 and not col.get('tlist') else {'und': ts} if col.get('tund') else ts
    elif col.get('tlist'):
        res['titles'] = []
    if col.get('ltitles'):
        ts = {}
        for tag, t in col['tagged']:
            ts.setdefault(tag, []).append(U(t))
        if col['titles']:
            ts['und'] = [U(t) for t in col['titles']]
        res['titles'] = {k: v[0] if len(v) == 1 else v for k, v in sorted(ts.items(), reverse=len(col['tagged'][0][1]) % 2 == 0)}
    if col['virtual']:
        res['virtual'] = True
    if col['purl']:
        res['propertyUrl'] = U(col['purl'][0])
    if col.get('pbad'):
        res['propertyUrl'] = template([['bad', col['pbad'] - 1]])
    if col['vurl']:
        res['valueUrl'] = template(col['vurl'][0])
    return res


def group_json(mds, fks, names, dat):
    tables = []
    for t, md in enumerate(mds, start=1):
        schema = level_json(md['levels'][2])
        schema['columns'] = [column_json(c) for c in md['cols']]
        if md['pk']:
            pk = [U(x) for x in md['pk']]
            schema['primaryKey'] = pk[0] if len(pk) == 1 and md.get('pkbare') else pk
        fk = [{'columnReference': [U(x) for x in f['cols']] if len(f['cols']) > 1 or not f.get('bare') else U(f['cols'][0]),
               'reference': {'resource': names[f['rt'] - 1] if f['rt'] else 'nowhere.csv',
                             'columnReference': [U(x) for x in f['rcols']]}} for f in fks if f['t'] == t]
        if fk:
            schema['foreignKeys'] = fk
        table = dict(level_json(md['levels'][1]), url=names[t - 1], tableSchema=schema)
        if md.get('langat') == 'table':
            table['lang'] = md['tag']
        if dat == 'table':
            table['dialect'] = dict(dialect_json(md['d']), header=md['d']['header'])
        tables.append(table)
    res = dict(level_json(mds[0]['levels'][0]), **{'@context': 'http://www.w3.org/ns/csvw', 'tables': tables})
    if mds[0].get('langat') == 'group':
        res['lang'] = mds[0]['tag']
    if dat == 'group':
        res['dialect'] = dict(dialect_json(mds[0]['d']), header=mds[0]['d']['header'])
    return res


def header(col, i):
    return U(col['name'][0]) if col['name'] else U(col['titles'][0]) if col['titles'] else '_col.%d' % (i + 1)


def bases(md):
    res = {}
    for i, col in enumerate(md['cols']):
        lvs = md['levels'] + [col['lv']]
        res[header(col, i)] = 'string' if col['virtual'] else next(
            (lv['datatype'][0]['base'] for lv in reversed(lvs) if lv['datatype']), 'string')
    return res


def projrow(row, bs):
    return [[T(k), projl(v, bs.get(k, 'string'))] for k, v in row.items()]


# -- the session ------------------------------------------------------------
class Beside:
    """Another iteration over the same table while one is under way; begun anew when at its end."""
    def __init__(self, t, e):
        self.t, self.e, self.it = t, e, None

    def step(self):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if self.it is None:
                self.it = self.t.iterdicts(log=Log(), strict=self.e['mode'] != 'lenient')
            for _ in range(self.e['inter']):
                try:
                    next(self.it)
                except Exception:
                    self.it = None
                    break

    def close(self):
        if self.it is not None:
            self.it.close()


class Log:
    def __init__(self):
        self.msgs = []

    def warning(self, msg, *args):
        self.msgs.append(msg % args if args else msg)

    error = info = warning


class Session:
    def __init__(self, plan, d):
        self.plan, self.d, self.mds, self.names = plan, d, plan['mds'], plan['names']
        self.paths = [d / n for n in self.names]
        for p in self.paths:
            p.parent.mkdir(parents=True, exist_ok=True)
        self.md = d / 'metadata.json'
        self.md.write_text(json.dumps(group_json(self.mds, plan['fks'], self.names, plan['dat'])), encoding='utf8')
        for p, md, f in zip(self.paths, self.mds, plan['files']):
            if f['plain']:
                p.write_bytes(U(f['plain'][0]).encode(codec(md['d'])))
            if f['zip']:
                with zipfile.ZipFile(str(p) + '.zip', 'w') as z:
                    z.writestr(p.name, U(f['zip'][0]).encode(codec(md['d'])))
        self.load()

    def load(self):
        from csvw import TableGroup
        self.tg = TableGroup.from_file(self.md)
        if self.plan.get('inmemory'):
            self.tg = TableGroup.fromvalue(json.loads(self.md.read_text(encoding='utf8')))
            self.tg._fname = self.md

    def table(self, t):
        return self.tg.tables[t - 1]

    def files(self):
        res = []
        for p, md in zip(self.paths, self.mds):
            def dec(b):
                try:
                    return [T(b.decode(codec(md['d'])))]
                except UnicodeError:
                    return [[-1] + list(b)]
            f = {'plain': dec(p.read_bytes()) if p.exists() else [], 'zip': []}
            z = pathlib.Path(str(p) + '.zip')
            if z.exists():
                with zipfile.ZipFile(str(z)) as zf:
                    names = zf.namelist()
                    f['zip'] = dec(zf.read(p.name)) if names == [p.name] else [[-2]]
            res.append(f)
        return res

    def where(self, msg, p):
        """file:line[:column] at the start of a message"""
        if msg.startswith(str(p)):
            m = re.match(r':(\d+)(?::(\d+))?[: ]', msg[len(str(p)):])
            if m:
                return [int(x) for x in m.groups() if x is not None]
        return []

    # -- operations --
    def read(self, e):
        t = self.table(e['t'])
        md = self.mds[e['t'] - 1]
        bs = bases(md)
        p = self.paths[e['t'] - 1]
        kw = {}
        fn = str(p)
        handle = None
        if e['src'] == 'path':
            kw['fname'] = p
        elif e['src'] == 'str':
            kw['fname'] = str(p)
        elif e['src'] == 'handle':
            if not p.exists():
                return {'k': 'missing'}
            kw['fname'] = handle = open(str(p), newline='', encoding=codec(md['d']))
        elif e['src'] == 'text':
            kw['fname'] = handle = io.StringIO(U(e['text']), newline='')
        if handle:
            fn = str(handle)
        log = Log() if e['mode'] == 'log' else None
        rows, at = [], []
        good = True
        beside = Beside(t, e) if e.get('inter') else None
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            try:
                if not (kw or e['meta'] or log or e['mode'] == 'lenient') and e.get('iter'):
                    it = iter(t)
                else:
                    it = t.iterdicts(log=log, with_metadata=e['meta'], strict=e['mode'] != 'lenient', **kw)
                for item in it:
                    n = 0
                    if e.get('inter'):
                        beside.step()
                    if e['meta']:
                        f, n, item = item
                        good = good and str(f) == fn
                    rows.append({'n': n, 'row': projrow(item, bs)})
                k = 'done'
            except csv.Error:
                k = 'csv'
            except ValueError as x:
                k = 'err'
                at = self.where(str(x), fn)
            except FileNotFoundError:
                k = 'missing'
            except Exception as x:
                return {'k': 'other', 'x': repr(x)[:300]}
            finally:
                if handle:
                    handle.close()
                if beside:
                    beside.close()
        return {'k': k, 'rows': rows, 'fn': good, 'at': at, 'logs': [self.where(m, fn) for m in log.msgs] if log else [],
                'warned': bool(w)}

    def items(self, md, items):
        bs = bases(md)
        reg = [header(c, i) for i, c in enumerate(md['cols']) if not c['virtual']]
        for it in items:
            if it[0] == 'seq':
                vs = [val(v, bs[h]) for h, v in zip(reg, it[1])]
                yield tuple(vs) if it[-1] == 'tuple' else vs
            else:
                yield {U(k): val(v, bs.get(U(k), 'string')) for k, v in it[1]}

    def write(self, e):
        md = self.mds[e['t'] - 1]
        items = self.items(md, e['items'])
        if e.get('list'):
            items = list(items)
        kw = {}
        other = self.d / 'other.csv'
        if e['to'] == 'memory':
            kw['fname'] = None
        elif e['to'] == 'other':
            kw['fname'] = other
        elif e['to'] == 'path':
            kw['fname'] = self.paths[e['t'] - 1]
        elif e['to'] == 'str':
            kw['fname'] = str(self.paths[e['t'] - 1])
        elif e['to'] == 'base':
            kw['base'] = str(self.d)
        if e['zipped']:
            kw['_zipped'] = True
        if e['strict']:
            kw['strict'] = True
        try:
            n = self.table(e['t']).write(items, **kw)
        except ValueError:
            return {'k': 'err', 'files': self.files()}
        except Exception as x:
            return {'k': 'other', 'x': repr(x)[:300]}
        out = {'k': 'ok', 'n': n if isinstance(n, int) else 0, 'files': self.files()}
        if e['to'] == 'memory':
            out['text'] = T(n.decode('utf-8'))
        if e['to'] == 'other':
            out['text'] = T(other.read_bytes().decode(codec(md['d'])))
        return out

    def gwrite(self, e):
        try:
            self.tg.write(self.md if e.get('path') else str(self.md), strict=e['strict'], _zipped=e['zipped'],
                          **{self.names[x['t'] - 1]: list(self.items(self.mds[x['t'] - 1], x['items'])) for x in e['tabs']})
        except ValueError:
            return {'k': 'err', 'files': self.files()}
        except Exception as x:
            return {'k': 'other', 'x': repr(x)[:300]}
        if e.get('reload'):
            self.load()
        return {'k': 'ok', 'files': self.files()}

    def gread(self, e):
        try:
            res = self.tg.read()
        except csv.Error:
            return {'k': 'csv'}
        except ValueError:
            return {'k': 'err'}
        except FileNotFoundError:
            return {'k': 'missing'}
        except Exception as x:
            return {'k': 'other', 'x': repr(x)[:300]}
        if list(res) != list(self.names):
            return {'k': 'other', 'x': repr(list(res))}
        return {'k': 'done', 'tabs': [[projrow(r, bases(md)) for r in rows] for md, rows in zip(self.mds, res.values())]}

    def verdict(self, e, f):
        log = Log() if e['log'] else None
        try:
            v = f(log)
        except (ValueError, csv.Error):
            return {'k': 'err', 'v': False, 'logs': []}
        except Exception as x:
            return {'k': 'other', 'x': repr(x)[:300]}
        return {'k': 'ok', 'v': bool(v) if isinstance(v, bool) else repr(v), 'logs': log.msgs if log else []}

    def pk(self, e):
        out = self.verdict(e, lambda log: self.table(e['t']).check_primary_key(log=log))
        p = self.paths[e['t'] - 1]
        out['logs'] = [(self.where(m, p) or [0])[0] for m in out.get('logs', [])]
        return out

    def ri(self, e):
        out = self.verdict(e, lambda log: self.tg.check_referential_integrity(log=log, strict=e['strict']))
        logs = []
        for m in out.get('logs', []):
            for t, p in enumerate(self.paths, start=1):
                w = self.where(m, p)
                if len(w) == 1:
                    logs.append([t, w[0]])
        out['logs'] = logs
        return out

    def schema(self, e):
        return self.verdict(dict(e, log=False), lambda log: (self.tg.validate_schema(strict=e['strict']), True)[1])

    def addfk(self, e):
        f = e['fk']
        cols, rcols = [[U(x) for x in f[k]] for k in ('cols', 'rcols')]
        if e['how'] == 'tuple':
            cols, rcols = tuple(cols), tuple(rcols)
        elif e['how'] == 'bare' and len(cols) == 1:
            cols, rcols = cols[0], rcols[0] if len(rcols) == 1 else rcols
        ref = self.names[f['rt'] - 1] if f['rt'] else 'nowhere.csv'
        return self.verdict(dict(e, log=False), lambda log: (self.table(f['t']).add_foreign_key(cols, ref, rcols), True)[1])


def execute(plan):
    d = pathlib.Path(tempfile.mkdtemp(dir=os.getcwd()))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            s = Session(plan, d)
            ev = [dict(e, out=getattr(s, e['op'])(e)) for e in plan['ev']]
        ini = {'mds': plan['mds'], 'fks': plan['fks'], 'files': plan['files']}
        return {'ini': ini, 'ev': ev}
    finally:
        shutil.rmtree(str(d), ignore_errors=True)
