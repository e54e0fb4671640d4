"""Run the commands of the package as programs do: with arguments, an exit status and output."""
import contextlib
import csv
import hashlib
import io
import json
import os
import pathlib
import re
import shutil
import sqlite3
import subprocess
import sys
import tempfile
import warnings

# Stands for the frictionless command: describes the files it is given, and writes down what it was asked.
FRICTIONLESS = '''#!{python}
import sys, json, csv, glob, os
args = sys.argv[1:]
opts, files, i = {{}}, [], 0
assert args[0] == 'describe'
args = args[1:]
while i < len(args):
    if args[i] == '--json':
        opts['json'] = True
    elif args[i].startswith('--'):
        opts[args[i][2:]] = args[i + 1]
        i += 1
    else:
        files.append(args[i])
    i += 1
json.dump(dict(opts=opts, files=files), open(os.environ['ASKED'], 'w'))
dialect = json.loads(opts.get('dialect', '{{}}'))
def resource(f):
    with open(f) as fp:
        header = next(csv.reader(fp, delimiter=dialect.get('delimiter', ',')))
    res = dict(name=f.split('/')[-1].split('.')[0], path=f, scheme='file', format='csv', profile='tabular-data-resource',
               schema=dict(fields=[dict(name=h, type='integer' if h in ('id', 'ref') else 'string') for h in header]))
    if dialect:
        res['dialect'] = dialect
    return res
files = [x for f in files for x in (sorted(glob.glob(f)) if '*' in f else [f])]
if opts.get('type') == 'package':
    print(json.dumps(dict(profile='data-package', resources=[resource(f) for f in files])))
else:
    assert len(files) == 1
    if not files[0].endswith('.csv') and opts.get('format') != 'csv':
        print(json.dumps(dict(path=files[0], profile='data-resource')))
    else:
        print(json.dumps(resource(files[0])))
'''


def metadata(w):
    a = {'url': 'a.csv', 'tableSchema': {'primaryKey': 'id', 'columns': [
        {'name': 'id', 'datatype': 'integer', 'required': True}, {'name': 'n'}]}}
    b = {'url': 'b.csv', 'tableSchema': {
        'columns': [{'name': 'ref', 'datatype': 'integer'}, {'name': 'v'}],
        'foreignKeys': [{'columnReference': 'ref', 'reference': {'resource': 'a.csv', 'columnReference': 'id'}}]}}
    if w['meta'] == 'odd':
        a['nonsense'] = 1
    if w['form'] == 'group':
        md = {'tables': [a, b]}
        if w['meta'] == 'bad':
            md['tables'] = 'a.csv'
    else:
        md = a
        if w['meta'] == 'bad':
            a['@type'] = 'Schema'
    return dict({'@context': 'http://www.w3.org/ns/csvw'}, **dict(md, **w['props']))


MDNAME = {'group': 'md.json', 'single': 'a.csv-metadata.json'}


def put(d, w):
    if w['form'] != 'bare':
        (d / MDNAME[w['form']]).write_text(json.dumps(metadata(w)))
    for name, header, rows, there in [('a.csv', ['id', 'n'], w['a'], True), ('b.csv', ['ref', 'v'], w['b'], w['bthere'] and w['form'] == 'group')]:
        if there:
            with open(d / name, 'w', newline='') as f:
                csv.writer(f).writerows([header] + [[r[h] for h in header] for r in rows])
        elif (d / name).exists():
            (d / name).unlink()


def number(v):
    return [] if v is None else [int(v)] if re.fullmatch('[0-9]+', str(v)) else ['?']


def database(p):
    if not p.exists():
        return []
    try:
        with contextlib.closing(sqlite3.connect(str(p))) as db:
            names = {r[0] for r in db.execute("SELECT name FROM sqlite_master WHERE type = 'table'")}
            a = [[number(i), [] if n is None else [n]] for i, n in db.execute('SELECT id, n FROM `a.csv` ORDER BY rowid')]
            b = [[number(i), [] if n is None else [n]] for i, n in db.execute('SELECT ref, v FROM `b.csv` ORDER BY rowid')] if 'b.csv' in names else []
            return ['db', a, b]
    except sqlite3.Error:
        return ['other']


def jsons(text, d):
    """JSON of conversion: cells as <<name, type, text>>, paths relative to the directory."""
    def rel(u):
        return u[len(str(d)) + 1:] if u.startswith(str(d) + '/') else u

    def value(v):
        return ['number' if type(v) is int else 'text' if isinstance(v, str) else type(v).__name__, str(v)]
    o = json.loads(text)
    props = {k: v for k, v in o.items() if ':' in k}
    tables = []
    for t in o['tables']:
        props.update({k: v for k, v in t.items() if ':' in k})
        rows = []
        for r in t['row']:
            url, _, num = rel(r['url']).partition('#row=')
            cells = [[k] + value(v) for o in r['describes'] for k, v in o.items()]
            rows.append(dict(url=url, source=int(num), num=r['rownum'], cells=cells))
        tables.append(dict(url=rel(t['url']), rows=rows))
    return dict(props=props, tables=tables)


def run(name, args):
    """-> (exit status, stdout); 3: an exception nobody caught"""
    import csvw.__main__ as main
    out, err = io.StringIO(), io.StringIO()
    argv, sys.argv = sys.argv, [name] + args
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            warnings.simplefilter('default')
            try:
                getattr(main, name)()
                code = 0
            except SystemExit as e:
                code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
            except Exception:
                code = 3
    finally:
        sys.argv = argv
    return code, re.sub('\x1b\\[[0-9;]*m', '', out.getvalue())


def program(name, args):
    """The same in a process of its own."""
    p = subprocess.run([sys.executable, '-c', 'import sys; from csvw.__main__ import {0}; sys.argv[0] = "{0}"; sys.exit({0}())'.format(name)] + args,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, PYTHONPATH=os.pathsep.join(sys.path)))
    code = 3 if p.returncode == 1 and b'Traceback' in p.stderr else p.returncode
    return code, re.sub('\x1b\\[[0-9;]*m', '', p.stdout.decode('utf8'))


def digests(d, skip):
    return {str(p.relative_to(d)): hashlib.sha1(p.read_bytes()).hexdigest() for p in sorted(d.rglob('*'))
            if p.is_file() and str(p.relative_to(d)) not in skip}


def execute(plan):
    d = pathlib.Path(tempfile.mkdtemp(dir=os.getcwd())).resolve()
    cwd, path = os.getcwd(), os.environ['PATH']
    w = dict(plan['w'])
    try:
        (d / 'work' / 'out').mkdir(parents=True)
        (d / 'bin').mkdir()
        exe = d / 'bin' / 'frictionless'
        exe.write_text(FRICTIONLESS.format(python=sys.executable))
        exe.chmod(0o755)
        os.environ['PATH'] = '{}{}{}'.format(d / 'bin', os.pathsep, path)
        os.environ['ASKED'] = str(d / 'asked')
        os.chdir(str(d / 'work'))
        wd = d / 'work'
        put(wd, w)
        ev = []
        for e in plan['ev']:
            e = dict(e)
            if e['op'] == 'edit':
                w.update({k: e[k] for k in ['a', 'b', 'bthere', 'meta', 'props']})
                put(wd, w)
            skip = set()
            if e['op'] in ('sqlite', 'datasette'):
                skip = {e['path'], e.get('mpath')}
            before = digests(wd, skip)
            out = dict(code=0)
            base = (str(wd) + '/') if e.get('abs') else ''
            url = base + (MDNAME[w['form']] if w['form'] != 'bare' and e.get('md', True) and
                          (w['form'] == 'group' or e.get('md')) else 'a.csv')
            go = program if e.get('process') else run
            text = ''
            if e['op'] == 'validate':
                flag = ([['-v'], ['--verbose']][e.get('long', 0)] if e['verbose'] else [])
                out['code'], text = go('csvwvalidate', flag + [url] if e.get('first') else [url] + flag)
                lines = text.split('\n')
                out.update(said=lines[0].strip(), lines=len([x for x in lines[:-1]]))
                out['also'] = run('csvwvalidate', [url] if e['verbose'] else [url, '-v'])[0]
            elif e['op'] == 'json':
                out['code'], text = go('csvw2json', [url])
                if out['code'] == 0:
                    out['json'] = jsons(text, wd)
            elif e['op'] == 'sqlite':
                out['code'], text = go('csvw2sqlite', [url, base + e['path']])
            elif e['op'] == 'datasette':
                o = str(pathlib.Path(e['path']).parent)
                flag = [] if o == '.' and not base else [['-o', base + o], ['--outdir', base + o], ['--outdir=' + base + o]][e.get('long', 0)]
                out['code'], text = go('csvw2datasette', flag + [url] if e.get('first') else [url] + flag)
            elif e['op'] == 'markdown':
                out['code'], text = go('csvw2markdown', [url])
                out['said'] = text[:1]
            elif e['op'] == 'describe':
                for f in e['files']:
                    with open(f['name'], 'w', newline='') as fp:
                        csv.writer(fp, delimiter=e['delim'][0] if e['delim'] else ',').writerow([c[0] for c in f['cols']])
                before = digests(wd, skip)
                flag = ['--delimiter', e['delim'][0]] if e['delim'] else []
                out['code'], text = go('csvwdescribe', flag + e['args'] if e.get('first') else e['args'] + flag)
                if out['code'] == 0:
                    tg = json.loads(text)
                    out['tables'] = [dict(
                        url=t['url'], cols=[[c['name'], base_of(c)] for c in t['tableSchema']['columns']],
                        delim=[x for x in [t.get('dialect', {}).get('delimiter')] if x and x != ',']) for t in tg.get('tables', [])]
                    asked = json.loads((d / 'asked').read_text())
                    out['asked'] = dict(
                        files=asked['files'], one=asked['opts'].get('format') == 'csv' and asked['opts'].get('type') != 'package',
                        delim=[json.loads(asked['opts']['dialect']).get('delimiter', '')] if 'dialect' in asked['opts'] else [])
            elif e['op'] == 'usage':
                out['code'], text = go(e['command'], e['argv'])
            out['same'] = digests(wd, skip) == before
            out['dbs'] = {p: database(wd / p) for p in plan['paths']}
            out['mds'] = {p: [json.loads((wd / p).read_text())] if (wd / p).exists() else [] for p in plan['mpaths']}
            e['out'] = out
            ev.append(e)
        ini = dict(plan['w'], dbs={p: [] for p in plan['paths']}, mds={p: [] for p in plan['mpaths']})
        return dict(ini=ini, ev=ev)
    finally:
        os.chdir(cwd)
        os.environ['PATH'] = path
        shutil.rmtree(str(d), ignore_errors=True)


def base_of(c):
    dt = c.get('datatype', 'string')
    return dt if isinstance(dt, str) else dt.get('base', 'string')
