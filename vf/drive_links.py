"""Load documents full of links and record what they are taken to refer to (for TraceLinks.tla).

plan: {doc, local, dat ('group' or 'table'), ev}."""
import os
import json
import shutil
import pathlib
import tempfile
import warnings

from .core import T, U
from .drive_json import Web, web
from .drive_table import template

SITE = 'http://root'


def page(url):
    """What is at a URL: the page tells where it is."""
    if url.endswith('schema.json'):
        return json.dumps({'columns': [], 'dc:source': url})
    if 'semi' in url or 'pipe' in url:
        return json.dumps({'delimiter': ';' if 'semi' in url else '|'})
    return 'u;v|w\n%s;1|%s\n' % (url, url)


class Pages(dict):
    """The whole web."""
    def __contains__(self, url):
        return True

    def get(self, url, default=None):
        return super().get(url, page(url).encode('utf8'))


def document(plan):
    doc = plan['doc']
    tables = []
    for t in doc['tables']:
        x = {'url': U(t['url'])}
        if t['schema']:
            x['tableSchema'] = U(t['schema'][0])
        if t['dialect']:
            x['dialect'] = U(t['dialect'][0])
        tables.append(x)
    res = {'tables': tables} if plan['dat'] == 'group' else tables[0]
    if doc['dialect']:
        res['dialect'] = U(doc['dialect'][0])
    res['@context'] = 'http://www.w3.org/ns/csvw' if not doc['ctx'] else [
        'http://www.w3.org/ns/csvw', dict({'@base': U(doc['ctx'][0])}, **({'@language': 'en'} if plan.get('lang') else {}))]
    return res


class Session:
    def __init__(self, plan, d):
        self.plan, self.d, self.doc = plan, d, plan['doc']
        self.md = U(self.doc['md'])
        text = json.dumps(document(plan)).encode('utf8')
        self.web = Web(Pages({self.md: text}))
        self.obj = self.base = None
        if plan['local']:
            for sub in ['', 'a', 'a/b', 'a/b/c', 'a/c', 'c', 'a/b/c/c', 'a/b.v1', 'a/b.v1/c', 'a.d', 'a.d/b', 'a.d/b/c', 'a.d/c']:
                for n in ['t1.csv', 't2.csv', 's.schema.json', 'semi.json', 'pipe.json']:
                    p = d / sub / n
                    p.parent.mkdir(parents=True, exist_ok=True)
                    p.write_text(page(self.there(p)))
            self.at(self.md).write_bytes(text)

    def at(self, url):
        return self.d / url[len(SITE) + 1:]

    def there(self, p):
        p = str(p)
        if p.startswith('http'):
            return p
        return SITE + os.path.normpath(p)[len(str(self.d)):]

    def load(self, e):
        from csvw import TableGroup, Table, CSVW
        cls = TableGroup if self.plan['dat'] == 'group' else Table
        self.web.log = []
        target = self.md if not self.plan['local'] else str(self.at(self.md)) if e['str'] else self.at(self.md)
        try:
            if e['how'] == 'csvw':
                self.obj = CSVW(target).t
            elif e['how'] == 'over':
                self.obj = CSVW('http://h.org/some/table.csv', md_url=target).t
            elif e['how'] == 'url' and not self.plan['local']:
                self.obj = cls.from_url(target)
            else:
                self.obj = cls.from_file(target)
            tables = self.obj.tables if self.plan['dat'] == 'group' else [self.obj]
            return {'k': 'ok', 'urls': [T(self.there(t.url.resolve(t.base))) for t in tables],
                    'schemas': [[T(x) for x in [t.tableSchema.common_props.get('dc:source')] if x] for t in tables],
                    'log': [T(u) for m, u in self.web.log]}
        except Exception as x:
            return {'k': 'other', 'x': repr(x)[:300]}

    def table(self, t):
        return self.obj.tables[t - 1] if self.plan['dat'] == 'group' else self.obj

    def read(self, e):
        self.web.log = []
        try:
            rows = list(self.table(e['t']).iterdicts())
            k = next(iter(rows[0]))
            delim = ',' if k == 'u;v|w' else ';' if k == 'u' else '|'
            v = rows[0][k] if delim != '|' else rows[0]['w']
            return {'k': 'ok', 'from': T(v.split(';')[0]), 'delim': ord(delim), 'log': [T(u) for m, u in self.web.log]}
        except Exception as x:
            return {'k': 'other', 'x': repr(x)[:300]}

    def expand(self, e):
        from csvw import URITemplate
        row = {U(k): None if not v else U(v[1]) if v[0] == 's' else [U(x) for x in v[1]] for k, v in e['bs']}
        try:
            obj = self.table(e['t']) if e['t'] else self.obj
            return {'u': T(obj.expand(URITemplate(template(e['tmpl'])), row, None))}
        except Exception as x:
            return {'u': T(repr(x)[:300])}


def execute(plan):
    d = pathlib.Path(tempfile.mkdtemp(dir=os.getcwd())).resolve()
    try:
        s = Session(plan, d)
        ev = []
        with warnings.catch_warnings(), web(s.web):
            warnings.simplefilter('ignore')
            for e in plan['ev']:
                if e['op'] == 'load' or s.obj is not None:
                    ev.append(dict(e, out=getattr(s, e['op'])(e)))
        return {'ini': plan['doc'], 'ev': ev}
    finally:
        shutil.rmtree(str(d), ignore_errors=True)
