"""Convert data packages and use the tables of the group (TraceFrictionless.tla).

plan: {pkg, files, how, ev}; the tables are the resources for which istable()."""
import os
import json
import shutil
import pathlib
import tempfile
import warnings

from .core import T, U
from .drive_cell import re_text, tree
from .drive_table import Session as TableSession

BASE = {'year': 'gYear', 'yearmonth': 'gYearMonth', 'object': 'json', 'array': 'json', 'geojson': 'json', 'any': 'string',
        'geopoint': 'string', '': 'string'}


def base(f):
    """What values are expected to look like."""
    if f['type'] == 'string':
        return {'binary': 'binary', 'uri': 'anyURI'}.get(f['fmt'], 'string')
    return BASE.get(f['type'], f['type'])


def istable(r):
    return bool(r['path'] and r['schema'] and r['scheme'] == 'file' and r['format'] == 'csv')


def one(x, f=U):
    return f(x[0])


def bound(x):
    text, plain = x
    return json.loads(U(text)) if plain else U(text)


def untree(v):
    k = v[0]
    if k == 'n':
        return None
    if k == 'b':
        return bool(v[1])
    if k == 's':
        return U(v[1])
    if k == 'l':
        return [untree(x) for x in v[1]]
    if k == 'o':
        return {U(a): untree(b) for a, b in v[1]}
    assert k == 'num'
    return int(''.join(map(str, v[3])) or '0') * 10 ** v[4] * (-1 if v[2] else 1)


def field_json(f):
    res = {'name': U(f['name'])}
    if f['type']:
        res['type'] = f['type']
    if f['fmt']:
        res['format'] = f['fmt']
    for k, to in [('title', 'title'), ('descr', 'description'), ('rdf', 'rdfType'), ('dec', 'decimalChar'), ('grp', 'groupChar')]:
        if f[k]:
            res[to] = one(f[k])
    for k, to in [('tv', 'trueValues'), ('fv', 'falseValues')]:
        if f[k]:
            res[to] = [U(x) for x in f[k]]
    cs = {k: f[k][0] for k in ['required', 'minLength', 'maxLength'] if f[k]}
    for k in ['minimum', 'maximum']:
        if f[k]:
            cs[k] = bound(f[k][0])
    if f['pattern']:
        cs['pattern'] = re_text(f['pattern'][0])
    if cs or f.get('nocs'):
        res['constraints'] = cs
    return res


def names(x, bare):
    x = [U(n) for n in x]
    return x[0] if len(x) == 1 and bare else x


def resource_json(r):
    res = {}
    if r['name']:
        res['name'] = one(r['name'])
    if r['path']:
        res['path'] = one(r['path'])
    if r['scheme']:
        res['scheme'] = r['scheme']
    if r['format']:
        res['format'] = r['format']
    if r['enc']:
        res['encoding'] = r['enc'][0]
    d = {}
    for k, to in [('delim', 'delimiter'), ('quote', 'quoteChar')]:
        if r[k]:
            d[to] = chr(r[k][0])
    for k, to in [('dbl', 'doubleQuote'), ('skipsp', 'skipInitialSpace')]:
        if r[k]:
            d[to] = r[k][0]
    top = {}
    if r['header']:
        top['header'] = r['header'][0]
    if r['comment']:
        top['commentChar'] = one(r['comment'])
    if r.get('nested') == 'mixed' and d:
        res['dialect'] = dict(top, csv=d)
    elif r.get('nested') == 'all' and (d or top):
        res['dialect'] = {'csv': dict(d, **top)}
    elif d or top:
        res['dialect'] = dict(d, **top)
    if r['schema']:
        s = res['schema'] = {'fields': [field_json(f) for f in r['fields']]}
        if r['missing']:
            s['missingValues'] = [U(x) for x in r['missing'][0]]
        if r['pk']:
            s['primaryKey'] = names(r['pk'], r.get('bare'))
        if r['fks']:
            s['foreignKeys'] = [{'fields': names(k['cols'], r.get('bare')),
                                 'reference': {'resource': U(k['res']), 'fields': names(k['rcols'], r.get('bare'))}} for k in r['fks']]
    res.update(r.get('more', {}))
    return res


def package_json(pkg):
    res = {k: untree(v) for k, v in pkg['props']}
    if pkg['res'] or not pkg.get('nores'):
        res['resources'] = [resource_json(r) for r in pkg['res']]
    return res


class Session(TableSession):
    def __init__(self, plan, d):
        self.plan, self.d = plan, d
        self.pkg = plan['pkg']
        self.res = [r for r in self.pkg['res'] if istable(r)]
        self.names = [one(r['path']) for r in self.res]
        self.paths = [d / n for n in self.names]
        self.codecs = [r['enc'][0] if r['enc'] else 'utf-8' for r in self.res]
        for p, f, enc in zip(self.paths, plan['files'], self.codecs):
            p.parent.mkdir(parents=True, exist_ok=True)
            if f['plain']:
                p.write_bytes(U(f['plain'][0]).encode(enc))
        # what the projection of values needs
        self.mds = [{'cols': [{'name': [f['name']], 'titles': [], 'virtual': False, 'lv': {'datatype': [{'base': base(f)}]}} for f in r['fields']],
                     'levels': [], 'd': {'enc': enc}} for r, enc in zip(self.res, self.codecs)]
        self.json = package_json(self.pkg)
        self.tg = None

    def describe(self):
        tg = self.tg
        props = dict(tg.common_props)
        old = props.pop('dc:replaces', None)
        tabs = []
        for t in tg.tables:
            cols = []
            for c in t.tableSchema.columns:
                fmt = c.inherit('datatype')
                base = fmt.base if fmt else ''
                fmt = fmt.asdict() if fmt else {}
                fmt = fmt.get('dc:format') if isinstance(fmt, dict) else None
                descr = c.common_props.get('dc:description')
                cols.append({'name': T(c.name or ''), 'titles': [T(x) for x in (c.titles.get(None, []) if c.titles else [])],
                             'descr': [T(x) if isinstance(x, str) else repr(x) for x in descr or []],
                             'purl': [T(c.propertyUrl.uri)] if c.propertyUrl else [], 'fmt': [fmt] if fmt else [],
                             'base': base})
            tabs.append({'url': T(t.url.string), 'cols': cols})
        return {'k': 'ok', 'same': old is not None and json.loads(old) == package_json(self.pkg) == self.json,
                'props': [[k, tree(v)] for k, v in props.items()], 'tabs': tabs}

    def read(self, e):
        out = super().read(e)
        for row in out.get('rows', []):
            row['row'] = [[k, ['n'] if v == ['j', ['n']] else v] for k, v in row['row']]
        return out

    def convert(self, e):
        from csvw import TableGroup
        from csvw.frictionless import DataPackage
        p = self.d / 'datapackage.json'
        p.write_text(json.dumps(self.json), encoding='utf8')
        try:
            how = e['how']
            if how == 'path':
                dp = DataPackage(p)
            elif how == 'text':
                dp = DataPackage(p.read_text(encoding='utf8'), directory=str(self.d))
            elif how == 'dict':
                dp = DataPackage(self.json, directory=self.d)
            elif how == 'pathdir':
                dp = DataPackage(p, directory=str(self.d))
            else:
                dp = DataPackage(DataPackage(p))
            if how == 'path' and e.get('fn'):
                self.tg = TableGroup.from_frictionless_datapackage(p)
            else:
                self.tg = dp.to_tablegroup()
                if e.get('again'):   # converting does not use up the package
                    self.tg = dp.to_tablegroup()
        except ValueError:
            return {'k': 'err'}
        return self.describe()

    def store(self, e):
        from csvw import TableGroup
        md = self.d / 'metadata.json'
        if self.tg is None:
            return {'k': 'err'}
        self.tg.to_file(md, omit_defaults=e['omit'])
        self.tg = TableGroup.from_file(md)
        return self.describe()


def execute(plan):
    d = pathlib.Path(tempfile.mkdtemp(dir=os.getcwd()))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            s = Session(plan, d)
            ev = []
            for e in plan['ev']:
                if s.tg is None and e['op'] not in ('convert', 'store'):
                    break
                ev.append(dict(e, out=getattr(s, e['op'])(e)))
        return {'ini': {'pkg': plan['pkg'], 'files': plan['files']}, 'ev': ev}
    finally:
        shutil.rmtree(str(d), ignore_errors=True)
