"""Convert described tables to JSON, or validate them, and record sessions for TraceJson.tla.

plan: {kind, url, mds, fks, texts, gprops, dat, ev}."""
import io
import os
import csv
import json
import shutil
import pathlib
import argparse
import logging
import tempfile
import warnings
import contextlib

import requests

from .core import T, U
from .drive_cell import num
from .drive_dsv import codec
from .drive_table import group_json, template

ROOT = 'http://example.org/dir/'
logging.getLogger('rdflib').setLevel(logging.CRITICAL)


# -- JSON -------------------------------------------------------------------
def jtag(v):
    if v is None:
        return ['n']
    if isinstance(v, bool):
        return ['b', int(v)]
    if isinstance(v, (int, float)):
        n = num(v)
        return ['num'] + n[2:] if n[0] == 'num' else ['?', repr(v)]
    if isinstance(v, str):
        return ['s', T(v)]
    if isinstance(v, list):
        return ['l', [jtag(x) for x in v]]
    return ['o', [[T(k), jtag(x)] for k, x in v.items()]]


def juntag(j):
    k = j[0]
    if k == 'n':
        return None
    if k == 'b':
        return bool(j[1])
    if k == 'num':
        f = int(''.join(map(str, j[2])) or '0') * (-1 if j[1] else 1)
        return f * 10 ** j[3] if j[3] >= 0 else float('%se%s' % (f, j[3]))
    if k == 's':
        return U(j[1])
    if k == 'l':
        return [juntag(x) for x in j[1]]
    return {U(a): juntag(b) for a, b in j[1]}


def add_uris(obj, uris, names=('aboutUrl', 'propertyUrl', 'valueUrl')):
    for key, name in zip(('about', 'prop', 'value'), names):
        if uris[key]:
            obj[name] = template(uris[key][0])


def metadata(plan, names):
    mds = plan['mds']
    res = group_json(mds, plan['fks'], names, plan['dat'])
    for md, table in zip(mds, res['tables']):
        add_uris(table, md['uris'][1])
        add_uris(table['tableSchema'], md['uris'][2])
        for col, c in zip(md['cols'], table['tableSchema']['columns']):
            add_uris(c, col['uris'])
            if col['supp']:
                c['suppressOutput'] = True
        if md['supp']:
            table['suppressOutput'] = True
        if md['titles']:
            table['tableSchema']['rowTitles'] = [U(t) for t in md['titles']]
        if md['notes']:
            table['notes'] = [juntag(x) for x in md['notes'][0]]
        if md['id']:
            table['@id'] = U(md['id'][0])
        for k, v in md['props']:
            table[U(k)] = juntag(v)
    add_uris(res, mds[0]['uris'][0])
    for k, v in plan['gprops']:
        res[U(k)] = juntag(v)
    if plan['kind'] in ('single', 'default'):
        # the description of a table only
        res = dict(res['tables'][0], **{'@context': res['@context']})
    return res


# -- the web ----------------------------------------------------------------
class Web:
    """A stand-in for the web: what is not there is not found."""
    def __init__(self, pages=None, headers=None):
        self.pages, self.headers = pages or {}, headers or {}
        self.log = []

    def send(self, adapter, request, **kw):
        url = request.url
        self.log.append([request.method, url])
        res = requests.Response()
        res.status_code = 200 if url in self.pages else 404
        res._content = b'' if request.method == 'HEAD' else self.pages.get(url, b'not found')
        res.headers = requests.structures.CaseInsensitiveDict(self.headers.get(url, {}))
        res.encoding, res.url, res.request, res.raw = 'utf-8', url, request, io.BytesIO()
        return res


@contextlib.contextmanager
def web(w):
    cls = requests.adapters.HTTPAdapter
    old = cls.send
    cls.send = lambda self, request, **kw: w.send(self, request, **kw)
    try:
        yield w
    finally:
        cls.send = old


# -- the session ------------------------------------------------------------
class Session:
    def __init__(self, plan, d):
        self.plan, self.d = plan, d
        names, mds = plan['names'], plan['mds']
        files = {n: U(t).encode(codec(md['d'])) for n, t, md in zip(names, plan['texts'], mds)}
        self.target = 'md.json'
        if plan['kind'] == 'none':
            self.target = names[0]
        else:
            md = dict(metadata(plan, names))
            if plan['kind'] == 'default':
                files[names[0] + '-metadata.json'] = json.dumps(md).encode('utf8')
                self.target = names[0]
            else:
                files['md.json'] = json.dumps(md).encode('utf8')
        if plan['url']:
            self.web = Web({ROOT + n: b for n, b in files.items()})
            self.target = ROOT + self.target
            self.locs = [['url', T(ROOT + n)] for n in names]
        else:
            self.web = Web()
            for n, b in files.items():
                p = d / n
                p.parent.mkdir(parents=True, exist_ok=True)
                p.write_bytes(b)
            self.target = str(d / self.target)
            self.locs = [['path', T(str((d / n).parent)), T((d / n).name)] for n in names]
        self.csvw, self.validating = None, False

    def get(self, fresh, validate=False):
        from csvw import CSVW
        if self.csvw is None or fresh or validate and not self.validating:
            self.csvw, self.validating = CSVW(self.target, validate=validate), validate
        return self.csvw

    def description(self, csvw):
        return repr([x.asdict(omit_defaults=False) for x in [csvw.t] + list(csvw.tables)])

    def json(self, e):
        try:
            if e['cli']:
                from csvw.__main__ import csvw2json
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    csvw2json(argparse.Namespace(url=self.target), test=True)
                res = json.loads(out.getvalue())
            else:
                csvw = self.get(e['fresh'])
                before = self.description(csvw)
                res = json.loads(json.dumps(csvw.to_json(minimal=e['minimal']), allow_nan=False))
                if self.description(csvw) != before:
                    return {'k': 'altered', 'res': ['n']}
        except csv.Error:
            return {'k': 'csv', 'res': ['n']}
        except ValueError as x:
            return {'k': 'err', 'res': ['n'], 'x': repr(x)[:200]}
        except Exception as x:
            return {'k': 'other', 'res': ['n'], 'x': repr(x)[:300]}
        return {'k': 'done', 'res': jtag(res)}

    def valid(self, e):
        with warnings.catch_warnings():
            warnings.simplefilter(e['filter'])
            try:
                if e['cli']:
                    from csvw.__main__ import csvwvalidate
                    out = io.StringIO()
                    with contextlib.redirect_stdout(out):
                        ret = csvwvalidate(argparse.Namespace(url=self.target, verbose=e['fresh']), test=True)
                    if ret not in (0, 1, 2) or (ret == 0) != ('OK' in out.getvalue().split('\n')[0]):
                        return {'k': 'other', 'v': False, 'x': repr((ret, out.getvalue()))}
                    return {'k': 'ok', 'v': ret == 0}
                csvw = self.get(e['fresh'], True)
                before = self.description(csvw)
                v = csvw.is_valid
                if self.description(csvw) != before:
                    return {'k': 'altered', 'v': False}
            except csv.Error:
                return {'k': 'csv', 'v': False}
            except ValueError as x:
                return {'k': 'err', 'v': False, 'x': repr(x)[:200]}
            except Exception as x:
                return {'k': 'other', 'v': False, 'x': repr(x)[:300]}
        return {'k': 'ok', 'v': v} if isinstance(v, bool) else {'k': 'other', 'v': False, 'x': repr(v)}


def execute(plan):
    d = pathlib.Path(tempfile.mkdtemp(dir=os.getcwd()))
    try:
        s = Session(plan, d)
        with warnings.catch_warnings(), web(s.web):
            warnings.simplefilter('ignore')
            ev = [dict(e, out=getattr(s, e['op'])(e)) for e in plan['ev']]
        ini = {'mds': [dict(md, loc=loc) for md, loc in zip(plan['mds'], s.locs)], 'fks': plan['fks'], 'texts': plan['texts'],
               'gprops': plan['gprops'], 'nometa': plan['kind'] == 'none', 'url': plan['url'] and plan['kind'] == 'group'}
        return {'ini': ini, 'ev': ev}
    finally:
        shutil.rmtree(str(d), ignore_errors=True)
