#!/opt/venv/bin/python
"""Mutation analysis: small changes to /repo's code which the existing tests do not notice.

mutate.py survive OUT.jsonl N [FILE...]   N random mutants per file, those that pass the tests are written to OUT
mutate.py check OUT.jsonl RES.jsonl       run the checks (at reduced size) against each until one reports a violation

A survivor nothing reports is either equivalent, outside of the listed properties, or a gap: to be judged by hand.
"""
import os
import ast
import sys
import json
import random
import shutil
import pathlib
import tempfile
import subprocess
import concurrent.futures

HERE = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get('VF_REPO', '/repo'))
ORIGINAL = 'c0a8517'
PY = '/opt/venv/bin/python'
PROPS = {
    'dsv.py': 'D01 D02 D03 D04 D05 B02',
    'dsv_dialects.py': 'D03 D05 D01 D02 M01 M03 M04 M05 M06',
    'datatypes.py': 'T07 T04 T05 T06 T01 T02 T03 T08 M01 R01 B01 M08 J01 M02',
    'metadata.py': 'M01 M03 M02 R01 R02 T02 M04 M05 R03 R05 R04 R06 J01 J03 J02 C01 M06 M07 M08 B01 B03 T03 T07 T08 T01',
    'jsonld.py': 'J01 J02 J03 M03',
    'db.py': 'B01 B02 B03',
    'frictionless.py': 'M06',
    'utils.py': 'B02 M02 R03 J01 M06 D04 M05 M08',
    '__main__.py': 'C01 M08',
}


def changes(src):
    """(start, end, new text) of mutants."""
    lines = src.split('\n')
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode('utf8')) + 1)
    data = src.encode('utf8')
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    text = lambda n: data[slice(*pos(n))].decode('utf8')
    res = []

    def put(n, new):
        res.append((n.lineno, *pos(n), new))

    tree = ast.parse(src)
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            docs |= {id(n.body[0]), id(n.body[0].value)}
        if isinstance(n, ast.JoinedStr):
            docs |= {id(x) for x in ast.walk(n)}
        if isinstance(n, (ast.AnnAssign, ast.arg)) and n.annotation:
            docs |= {id(x) for x in ast.walk(n.annotation)}
        if isinstance(n, ast.FunctionDef) and n.returns:
            docs |= {id(x) for x in ast.walk(n.returns)}
        if isinstance(n, ast.Raise):
            docs |= {id(x) for x in ast.walk(n)} - {id(n)}
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('warn', 'add_argument', 'debug', 'info', 'error'):
            docs |= {id(x) for x in ast.walk(n)} - {id(n)}
    for n in ast.walk(tree):
        if id(n) in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = text(n.left), text(n.comparators[0])
            swap = {ast.Lt: ['<=', '>='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
                    ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not', '=='], ast.IsNot: ['is']}
            for op in swap[type(n.ops[0])]:
                put(n, '({} {} {})'.format(a, op, b))
        elif isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                rest = [text(v) for j, v in enumerate(n.values) if j != i]
                put(n, '(' + (' or ' if isinstance(n.op, ast.Or) else ' and ').join('({})'.format(r) for r in rest) + ')')
            put(n, '(' + (' and ' if isinstance(n.op, ast.Or) else ' or ').join('({})'.format(text(v)) for v in n.values) + ')')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, '({})'.format(text(n.operand)))
        elif isinstance(n, (ast.If, ast.IfExp)):
            put(n.test, 'True')
            put(n.test, 'False')
        elif isinstance(n, ast.comprehension):
            for i in n.ifs:
                put(i, 'True')
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                put(n, str(not v))
            elif isinstance(v, int):
                put(n, str(v + 1))
                if v:
                    put(n, str(v - 1))
            elif isinstance(v, str) and not text(n).startswith(('r', 'b', '"""')):
                put(n, repr(v + 'x'))
                if v:
                    put(n, "''")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            put(n, '({})'.format(text(n.left)))
            if isinstance(n.op, ast.Add):
                put(n, '({})'.format(text(n.right)))
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and not isinstance(n.func.value, ast.Call) or isinstance(n.func, ast.Attribute):
                put(n, '({})'.format(text(n.func.value)))
            if n.args:
                put(n, '({})'.format(text(n.args[0])))
            for k in n.keywords:
                if k.arg:
                    s, e = pos(k)
                    while data[e:e + 1] in (b' ', b'\n'):
                        e += 1
                    if data[e:e + 1] == b',':
                        res.append((n.lineno, s, e + 1, ''))
                    else:
                        res.append((n.lineno, s, e, ''))
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)):
            put(n, 'pass')
        elif isinstance(n, ast.Continue):
            put(n, 'pass')
        elif isinstance(n, ast.Break):
            put(n, 'continue')
            put(n, 'pass')
        elif isinstance(n, ast.Raise):
            put(n, 'pass')
        elif isinstance(n, ast.Return) and n.value is not None:
            put(n.value, 'None')
        elif isinstance(n, ast.Slice):
            if n.lower is not None and n.upper is not None:
                put(n, text(n.lower) + ':')
                put(n, ':' + text(n.upper))
        elif isinstance(n, ast.ExceptHandler) and isinstance(n.type, ast.Tuple):
            for t in n.type.elts:
                put(n.type, '(' + ', '.join(text(x) for x in n.type.elts if x is not t) + ',)')
        elif isinstance(n, (ast.Tuple, ast.List, ast.Set)) and len(n.elts) > 1 and isinstance(getattr(n, 'ctx', ast.Load()), ast.Load):
            for t in n.elts:
                o, c = {'Tuple': '()', 'List': '[]', 'Set': '{}'}[type(n).__name__]
                put(n, o + ', '.join(text(x) for x in n.elts if x is not t) + (',' if o == '(' else '') + c)
        elif isinstance(n, ast.Dict) and len(n.keys) > 1:
            for i in range(len(n.keys)):
                put(n, '{' + ', '.join(('{}: {}'.format(text(k), text(v)) if k else '**' + text(v))
                                       for j, (k, v) in enumerate(zip(n.keys, n.values)) if j != i) + '}')
    out = []
    for line, s, e, new in res:
        m = (data[:s] + new.encode('utf8') + data[e:]).decode('utf8')
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        if ast.dump(ast.parse(m)) != ast.dump(tree):
            out.append((line, data[s:e].decode('utf8'), new, m))
    return out


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=str(cwd), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 'timeout', ''


def with_copy(f):
    d = pathlib.Path(tempfile.mkdtemp(prefix='mut-'))
    try:
        sh(['cp', '-a', str(REPO), str(d / 'repo')], '/')
        return f(d / 'repo')
    finally:
        shutil.rmtree(str(d), ignore_errors=True)


def passes(mutant):
    def run(r):
        (r / 'src/csvw' / mutant['file']).write_text(mutant['text'])
        code, _ = sh([PY, '-m', 'pytest', '-q', '--no-cov', '-p', 'no:cacheprovider', '--timeout=60', '-x', '--ignore=tests/test_conformance.py'], r,
                     dict(PYTHONPATH=str(r / 'src'), PATH='/opt/venv/bin:' + os.environ['PATH'], PYTHONHASHSEED='0',
                          PYTHONDONTWRITEBYTECODE='1', TZ='UTC', HOME='/root'), 120)
        return code == 0
    return with_copy(run)


def survive(out, n, files):
    rng = random.Random(int(os.environ.get('VF_MSEED', 1)))
    todo = []
    for f in files or sorted(PROPS):
        src = (REPO / 'src/csvw' / f).read_text()
        ms = changes(src)
        rng.shuffle(ms)
        todo += [dict(file=f, line=line, old=old, new=new, text=m) for line, old, new, m in ms[:n]]
        print(f, len(ms), 'mutants', flush=True)
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('VF_JOBS', 6))) as ex, open(out, 'w') as fp:
        for m, ok in zip(todo, ex.map(passes, todo)):
            if ok:
                fp.write(json.dumps(m) + '\n')
                fp.flush()


def caught(m):
    def run(r):
        (r / 'src/csvw' / m['file']).write_text(m['text'])
        for p in PROPS[m['file']].split():
            code, out = sh([str(HERE / 'run.py'), p], HERE, dict(VF_REPO=str(r), VF_NOEVIDENCE='1', VF_MODELCACHE=CACHE, VF_SCALE=os.environ.get('VF_SCALE', '.15'), VERIF_SEED='1'), 300)
            if code == 1 and 'VIOLATION property=' in out:
                return p, ''
            if code not in (0, 1):
                return p + '!', out[-300:]
        return None, ''
    return with_copy(run)


CACHE = os.environ.get('VF_MODELCACHE', tempfile.gettempdir() + '/vf-models')


def check(src, out):
    os.makedirs(CACHE, exist_ok=True)
    ms = [json.loads(x) for x in open(src)]
    done = {(x['file'], x['line'], x['old'], x['new']) for x in map(json.loads, open(out))} if os.path.exists(out) else set()
    ms = [m for m in ms if (m['file'], m['line'], m['old'], m['new']) not in done]
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('VF_JOBS', 4))) as ex, open(out, 'a') as fp:
        futs = {ex.submit(caught, m): m for m in ms}
        for f in concurrent.futures.as_completed(futs):
            m = futs[f]
            fp.write(json.dumps(dict(file=m['file'], line=m['line'], old=m['old'], new=m['new'], by=f.result()[0], why=f.result()[1])) + '\n')
            fp.flush()


if __name__ == '__main__':
    if sys.argv[1] == 'survive':
        survive(sys.argv[2], int(sys.argv[3]), sys.argv[4:])
    else:
        check(sys.argv[2], sys.argv[3])
