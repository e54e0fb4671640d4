#!/opt/venv/bin/python
"""Plant bugs in scratch copies of /repo.

plant.py make FILE...   FILE defines BUGS = [dict(id, property, edits=[(path, old, new)], demo, needs, breaks)]
plant.py try ID...      run the property's check against the bug (in a scratch copy)
plant.py all            run every planted bug's check, print a table
"""
import os
import sys
import json
import shutil
import pathlib
import tempfile
import subprocess
import runpy
import concurrent.futures

HERE = pathlib.Path(__file__).resolve().parent.parent
SEEDED = HERE / 'seeded'
ORIGINAL = 'c0a8517'
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
# exit 0: the property holds; non-zero: it is broken.  Run with cwd = the repository.
PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=str(cwd), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf8', 'replace')


def copy():
    d = pathlib.Path(tempfile.mkdtemp(prefix='plant-'))
    r = d / 'repo'
    sh(['cp', '-a', '/repo', str(r)], '/')
    return d, r


def tests(r):
    base = json.load(open('/opt/vp/BASELINE.json'))
    code, out = sh([PY, '-m', 'pytest', '-q', '--no-cov', '-p', 'no:cacheprovider', '--timeout=300', '-x',
                    '--ignore=tests/test_conformance.py'], r,
                   dict(PYTHONPATH=str(r / 'src'), PATH='/opt/venv/bin:' + os.environ['PATH'], PYTHONHASHSEED='0',
                        PYTHONDONTWRITEBYTECODE='1', TZ='UTC', HOME='/root'))
    return code == 0, out[-1500:]


def make(bug):
    dest = SEEDED / bug['id']
    d, r = copy()
    try:
        (d / 'demo.py').write_text(bug['demo'])
        (d / 'demo.sh').write_text(DEMO)
        c, out = sh(['bash', str(d / 'demo.sh')], r)
        if c:
            return bug['id'], 'DEMO FAILS ON CLEAN TREE\n' + out
        for path, old, new in bug['edits']:
            f = r / path
            t = f.read_text()
            if t.count(old) != 1:
                return bug['id'], 'EDIT MATCHES {} TIMES: {}'.format(t.count(old), old)
            f.write_text(t.replace(old, new))
        c, out = sh(['bash', str(d / 'demo.sh')], r)
        if c == 0:
            return bug['id'], 'DEMO PASSES WITH THE BUG'
        ok, tout = tests(r)
        if not ok:
            return bug['id'], 'TESTS FAIL\n' + tout
        _, diff = sh(['git', 'diff', '--', 'src'], r)
        removed = {x[1:] for x in diff.splitlines() if x.startswith('-') and not x.startswith('---')}
        original = set()
        for path in {p for p, _, _ in bug['edits']}:
            original |= set(sh(['git', 'show', '{}:{}'.format(ORIGINAL, path)], r)[1].splitlines())
        if not removed & original:
            return bug['id'], 'CHANGES NO LINE OF THE ORIGINAL REPOSITORY'
        dest.mkdir(parents=True, exist_ok=True)
        (dest / 'patch.diff').write_text(diff)
        (dest / 'demo.py').write_text(bug['demo'])
        (dest / 'demo.sh').write_text(DEMO)
        os.chmod(dest / 'demo.sh', 0o755)
        (dest / 'meta.json').write_text(json.dumps(
            {'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, indent=1) + '\n')
        return bug['id'], 'ok (demo: {})'.format(out.strip().splitlines()[-1][:150] if out.strip() else c)
    finally:
        shutil.rmtree(str(d))


def trial(i, prop=None):
    meta = json.load(open(SEEDED / i / 'meta.json'))
    d, r = copy()
    try:
        c, out = sh(['git', 'apply', str(SEEDED / i / 'patch.diff')], r)
        if c:
            return i, meta['property'], 'PATCH DOES NOT APPLY ' + out
        c, out = sh([str(HERE / 'run.py'), prop or meta['property']], HERE,
                    dict(VF_REPO=str(r), VERIF_SEED='1', VF_NOEVIDENCE='1'))
        lines = out.splitlines()
        viol = [x for x in lines if x.startswith('VIOLATION')]
        cl = sorted({x.strip() for x in lines if x.strip().startswith('clause:')})
        return i, prop or meta['property'], ('caught: ' + '; '.join(cl)[:200]) if c == 1 and viol else \
            'MISSED' if c == 0 else 'ERROR {} {}'.format(c, out[-800:])
    finally:
        shutil.rmtree(str(d))


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'make':
        bugs = []
        for a in args:
            bugs += runpy.run_path(a)['BUGS']
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for i, res in ex.map(make, bugs):
                print(i, res)
    else:
        ids = args if cmd == 'try' else sorted(p.name for p in SEEDED.iterdir() if p.is_dir())
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            for i, p, res in ex.map(trial, ids):
                print('{:<28} {:<5} {}'.format(i, p, res), flush=True)


if __name__ == '__main__':
    main()
