"""Sessions about metadata: where it is located, what it says, what is written."""
import os
import csv
import json
import logging
import shutil
import pathlib
import tempfile
import warnings
import contextlib

from .core import T, U
from .drive_json import Web, web, jtag, juntag  # noqa: F401


def template_text(tmpl):
    res = ''
    for tok in tmpl:
        res += U(tok[1]) if tok[0] == 'lit' else '{%s%s}' % (
            chr(tok[1]) if tok[1] else '', ','.join(U(v['n']) + ('*' if v['x'] else '') for v in tok[2]))
    return res


# -- locating ---------------------------------------------------------------
CSV = 'A,B\nx,y\n1,2\n3,4\n'


def page_text(w, p):
    if p['k'] == 'csv':
        return ''.join(CSV.splitlines(True)[:w['lines']])
    if p['k'] == 'md':
        res = {'dc:title': U(p['mark'])}
        if p['ctx']:
            res['@context'] = 'http://www.w3.org/ns/csvw'
        if p['hd']:
            res['dialect'] = {'header': p['hd'][0]}
        if p.get('dia'):
            res.setdefault('dialect', {})['delimiter'] = ','
        refs = [U(r) for r in p['refs']]
        if p['grp']:
            res['tables'] = [{'url': r} for r in refs]
        elif refs:
            res['url'] = refs[0]
        return json.dumps(res)
    if p['k'] == 'other':
        return p.get('text') or '{"name": "x"}'
    if p['k'] == 'json':
        return p.get('text') or '[1, 2]'
    return p.get('text') or '{"name": '


def locate(w, e, root):
    """root: for local files, the directory standing for /"""
    from csvw import CSVW
    at = (lambda u: U(u)) if not root else (lambda u: str(root) + U(u))
    target, over = at(w['url']), at(w['over'][0]) if w['over'] else None
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        try:
            if e['path'] and root:
                target = pathlib.Path(target)
            c = CSVW(target, md_url=over, validate=e['validate'])
            tabs = []
            for t in c.tables:
                u = str(t.url.resolve(t.base))
                if root:
                    u = os.path.normpath(u)[len(str(root)):]
                tabs.append({'u': T(u), 'n': sum(1 for _ in t.iterdicts(strict=False)) if u == U(w['url']) and w['has'] else 0})
        except ValueError as x:
            return {'k': 'err', 'tabs': [], 'x': repr(x)[:200]}
        except Exception as x:
            return {'k': 'other', 'tabs': [], 'x': repr(x)[:300]}
    n = [x for x in (c.warnings if e['validate'] else ws) if 'etadata' in str(x)]
    return {'k': 'ok', 'mark': T(str(c.common_props.get('dc:title', ''))), 'tabs': tabs, 'warned': bool(n), 'none': c.no_metadata}


def execute_locate(plan):
    w = plan['w']
    w['has'] = any(p['u'] == w['url'] and p['k'] == 'csv' for p in w['pages'])
    root = None
    pages = {U(p['u']): page_text(w, p).encode('utf8') for p in w['pages']}
    headers = {}
    if U(w['url']).startswith('http'):
        h = headers[U(w['url'])] = {}
        h['Content-Type'] = plan['ctype'][w['absent']]
        if w['link']:
            link = w['link'][0]
            h['Link'] = '<%s>; rel="describedby"' % U(link['ref']) + ('; type="%s"' % U(link['type'][0]) if link['type'] else '')
        if w['site']:
            pages['http://h.org/.well-known/csvm'] = plan['nl'].join(template_text(t) for t in w['site'][0]).encode('utf8')
        the = Web(pages, headers)
    else:
        the = Web()
        root = pathlib.Path(tempfile.mkdtemp(dir=os.getcwd())).resolve()
        for u, b in pages.items():
            p = root / u[1:]
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(b)
    try:
        with web(the):
            return {'ini': w, 'ev': [dict(e, out=locate(w, e, root)) for e in plan['ev']]}
    finally:
        if root:
            shutil.rmtree(str(root), ignore_errors=True)


# -- metadata documents -----------------------------------------------------
def mtag(v):
    if v is None:
        return ['n']
    if isinstance(v, bool):
        return ['b', v]
    if isinstance(v, int):
        return ['i', v] if abs(v) < 2 ** 31 else ['f', str(v)]
    if isinstance(v, float):
        return ['f', repr(v)]
    if isinstance(v, str):
        return ['s', v]
    if isinstance(v, list):
        return ['l', [mtag(x) for x in v]]
    return ['o', [[k, mtag(x)] for k, x in v.items()]]


def muntag(j):
    k = j[0]
    if k == 'n':
        return None
    if k in 'bis':
        return j[1]
    if k == 'f':
        return float(j[1])
    if k == 'l':
        return [muntag(x) for x in j[1]]
    return {a: muntag(b) for a, b in j[1]}


MDURL = 'http://example.org/md/md.json'


class Meta:
    def __init__(self, plan, d):
        import csvw
        self.plan, self.d, self.obj, self.n = plan, d, None, 0
        self.cls = getattr(csvw, plan['cls'])
        self.web = Web({MDURL: json.dumps(muntag(plan['doc'])).encode('utf8')})

    def doc(self, obj=None, omit=True):
        """The description as JSON"""
        return json.loads(json.dumps((self.obj if obj is None else obj).asdict(omit_defaults=omit)))

    def load(self, e):
        self.obj = None
        doc = muntag(self.plan['doc'])
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            try:
                if e['via'] == 'value':
                    obj = self.cls.fromvalue(doc)
                elif e['via'] == 'url':
                    obj = self.cls.from_url(MDURL)
                else:
                    p = self.d / 'in.json'
                    p.write_text(json.dumps(doc), encoding='utf8')
                    obj = self.cls.from_file(str(p) if e['via'] == 'str' else p)
                v = mtag(self.doc(obj))
            except (ValueError, OSError) as x:
                return {'k': 'err', 'v': ['n'], 'w': bool(ws), 'x': repr(x)[:200]}
            except Exception as x:
                return {'k': 'other', 'v': ['n'], 'w': bool(ws), 'x': repr(x)[:300]}
        self.obj = obj
        return {'k': 'ok', 'v': v, 'w': bool(ws), 'x': [str(w.message)[:100] for w in ws][:3]}

    def cycle(self, e):
        res = {'k': 'none', 'v': ['n'], 'same': False, 'file': ['n']}
        if self.obj is None:
            return res
        self.n += 1
        p = self.d / ('out%s.json' % self.n)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                if e['via'] == 'group':
                    self.obj.write(p)
                else:
                    self.obj.to_file(str(p) if e['via'] == 'str' else p, omit_defaults=e['omit'])
                file = json.loads(p.read_text(encoding='utf8'))
                new = self.cls.from_file(p)
                new._fname = self.obj._fname
                same = new == self.obj
                res.update(k='ok', v=mtag(self.doc(new)), same=bool(same), file=mtag(file))
                self.obj = new
            except Exception as x:
                res.update(k='other', x=repr(x)[:300])
        return res

    def tables(self):
        return self.obj.tables if self.plan['cls'] == 'TableGroup' else [self.obj]

    def inherit(self, e):
        if self.obj is None:
            return {'k': 'none', 'v': []}
        try:
            res = []
            for t in self.tables():
                res.append([])
                for c in t.tableSchema.columns:
                    vals = {}
                    for p in ['aboutUrl', 'propertyUrl', 'valueUrl', 'datatype', 'lang', 'ordered', 'required', 'separator', 'textDirection']:
                        v = c.inherit(p)
                        vals[p] = json.loads(json.dumps(v.asdict(omit_defaults=True))) if hasattr(v, 'asdict') else v
                    vals['null'], vals['default'] = c.inherit_null(), c.inherit_default()
                    res[-1].append(mtag(vals))
            return {'k': 'ok', 'v': res}
        except Exception as x:
            return {'k': 'other', 'v': [], 'x': repr(x)[:300]}

    def texts(self, tables, words):
        """Files of the tables described, those within the directory."""
        for t in tables:
            p = t.url.resolve(t.base) if t.url else None
            if not isinstance(p, pathlib.Path) or '..' in str(p) or not str(p).startswith(str(self.d) + os.sep) or len(p.name) > 60 or p.exists():
                continue
            heads = [c.header for c in t.tableSchema.columns if not c.virtual] or ['u']
            rows = [heads] + [[words[(3 * i + j) % len(words)] for j, _ in enumerate(heads)] for i in range(3)]
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_text('\n'.join(','.join(r) for r in rows) + '\n', encoding='utf8')

    def use(self, e):
        """Reading, checking and converting what is described"""
        from csvw import CSVW
        log, res = logging.getLogger('vf.use'), {'k': 'none', 'res': []}
        log.addHandler(logging.NullHandler())
        log.propagate = False
        if self.obj is None:
            return res
        p = self.d / 'use-metadata.json'
        p.write_text(json.dumps(muntag(self.plan['doc'])), encoding='utf8')
        obj, acts = None, []
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                obj = self.cls.from_file(p)
                tables = obj.tables if self.plan['cls'] == 'TableGroup' else [obj]
                if any(isinstance(t.tableSchema, str) for t in tables):
                    return dict(res, k='ok')  # schemas which are not found (fence)
                self.texts(tables, e['words'])
                for t in tables:
                    acts += [('lenient', lambda t=t: list(t.iterdicts(strict=False))), ('strict', lambda t=t: list(t.iterdicts())),
                             ('log', lambda t=t: list(t.iterdicts(log=log))), ('key', lambda t=t: t.check_primary_key(log=log))]
                if self.plan['cls'] == 'TableGroup':
                    acts.append(('references', lambda: obj.check_referential_integrity(log=log)))
                acts += [('json', lambda: CSVW(str(p)).to_json()), ('minimal', lambda: CSVW(str(p)).to_json(minimal=True)),
                         ('valid', lambda: CSVW(str(p), validate=True).is_valid)]
            except (ValueError, OSError) as x:
                return dict(res, k='err', x=repr(x)[:200])
            except Exception as x:
                return dict(res, k='other', x=repr(x)[:300])
            for what, act in acts:
                try:
                    act()
                    res['res'].append([what, 'ok'])
                except (ValueError, OSError, csv.Error):
                    res['res'].append([what, 'err'])
                except Exception as x:
                    res['res'].append([what, 'other'])
                    res['x'] = repr(x)[:300]
        return dict(res, k='ok')

    def column(self, path):
        path, o = list(path), self.obj
        if self.plan['cls'] == 'TableGroup':
            o = o.tables[path.pop(0) - 1]
        return o.tableSchema.columns[path[0] - 1]

    def addtitle(self, e):
        from csvw.metadata import NaturalLanguage
        if self.obj is None:
            return {'k': 'none'}
        try:
            c, lang = self.column(e['path']), None if e['lang'] == 'und' else e['lang']
            if not c.titles or list(c.titles.items()) == [(None, [])]:
                c.titles = NaturalLanguage({lang: e['t']} if lang else e['t'])
            else:
                c.titles.add(e['t'], lang) if lang else c.titles.add(e['t'])
            return {'k': 'ok'}
        except Exception as x:
            return {'k': 'other', 'x': repr(x)[:300]}

    def headers(self, e):
        if self.obj is None:
            return {'k': 'none', 'v': [], 'found': []}
        try:
            return {'k': 'ok', 'v': [[{'header': c.header, 'named': [str(c.has_title(t)) for t in e['ts']]}
                                      for c in t.tableSchema.columns] for t in self.tables()],
                    'found': [[next((i for i, c in enumerate(t.tableSchema.columns, 1) if c is got), 0)
                               for got in (t.get_column(x) for x in e['ts'])] for t in self.tables()]}
        except Exception as x:
            return {'k': 'other', 'v': [], 'x': repr(x)[:300]}

    def set(self, e):
        from csvw.metadata import Datatype, URITemplate, NaturalLanguage, ForeignKey, Dialect, dialect_props
        if self.obj is None:
            return {'k': 'none'}
        try:
            path, o = list(e['path']), self.obj
            if self.plan['cls'] == 'TableGroup' and path:
                o = o.tables[path.pop(0) - 1]
            table = o
            if path:
                i = path.pop(0)
                o = o.tableSchema if i == 0 else o.tableSchema.columns[i - 1]
            p, v = e['prop'], muntag(e['v'])
            if ':' in p:
                o.common_props[p] = v
            elif p == 'foreignKeys':
                o.foreignKeys = []
                for fk in v:
                    table.add_foreign_key(fk['columnReference'], fk['reference']['resource'], fk['reference']['columnReference'])
            else:
                if v is not None and p.endswith('Url'):
                    v = URITemplate(v)
                elif v is not None and p == 'datatype':
                    v = Datatype.fromvalue(v)
                elif v is not None and p == 'titles':
                    v = NaturalLanguage(v)
                elif v is not None and p == 'dialect':
                    v = Dialect(**dialect_props(v))
                setattr(o, p, v)
            return {'k': 'ok'}
        except ValueError as x:
            return {'k': 'err', 'x': repr(x)[:300]}
        except Exception as x:
            return {'k': 'other', 'x': repr(x)[:300]}


def execute_meta(plan):
    d = pathlib.Path(tempfile.mkdtemp(dir=os.getcwd()))
    try:
        s = Meta(plan, d)
        with web(s.web):
            return {'ini': {'cls': plan['cls'], 'doc': plan['doc']}, 'ev': [dict(e, out=getattr(s, e['op'])(e)) for e in plan['ev']]}
    finally:
        shutil.rmtree(str(d), ignore_errors=True)
