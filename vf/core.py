"""Shared machinery: run TLC on a model, execute plans against the real code,
validate the recorded sessions with TLC, write evidence, report violations."""
import os
import re
import sys
import json
import time
import random
import shutil
import signal
import zlib
import tempfile
import pathlib
import traceback
import subprocess
import multiprocessing

VERIF = pathlib.Path(__file__).resolve().parent.parent
SPEC = VERIF / 'spec'
REPO = pathlib.Path(os.environ.get('VF_REPO', '/repo'))
PYTHON = '/opt/venv/bin/python'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
WORKERS = min(8, os.cpu_count() or 4)


class Machinery(Exception):
    """The check itself could not be carried out."""


# ---------------------------------------------------------------------------
# encoding
# ---------------------------------------------------------------------------
def T(s):
    """text -> code points"""
    return [ord(c) for c in s]


def U(cps):
    return ''.join(map(chr, cps))


# ---------------------------------------------------------------------------
# TLC
# ---------------------------------------------------------------------------
def _unquote(tla):
    """A TLA+ string literal as printed by TLC -> python str"""
    return json.loads(tla)


class TLCResult:
    def __init__(self):
        self.generated = self.distinct = self.depth = 0
        self.ok = False
        self.prints = []
        self.error = ''
        self.coverage = {}


def tlc(module, cfg, scratch, env=None, timeout=800, workers=None, extra=(), heap='6g'):
    """Run TLC in a scratch copy-free way: specs are read from SPEC."""
    meta = tempfile.mkdtemp(dir=scratch, prefix='tlc')
    cmd = ['java', '-XX:+UseParallelGC', '-Xss512m', '-Xmx' + heap,
           '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE', '-workers', str(workers or WORKERS),
           '-metadir', meta, '-config', str(SPEC / cfg), *extra, str(SPEC / module)]
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery('TLC timed out on {} {}'.format(module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout.decode('utf8', 'replace')
    r = TLCResult()
    r.out = out
    # PrintT output may be wrapped over several lines: join what belongs together
    for m in re.finditer(r'^<<"(BAD|DONE|GEN|NOTE)",\s*(.*?)\s*>>$', out, flags=re.M | re.S):
        tag, val = m.groups()
        if tag == 'DONE':
            r.prints.append((tag, int(val)))
        else:
            r.prints.append((tag, json.loads(_unquote(val))))
    m = None
    for m in re.finditer(r'^([\d,]+) states generated.*?, ([\d,]+) distinct', out, flags=re.M):
        pass
    if m:
        r.generated, r.distinct = [int(x.replace(',', '')) for x in m.groups()]
    m = re.search(r'depth of the complete state graph search is (\d+)', out)
    if m:
        r.depth = int(m.group(1))
    r.ok = p.returncode == 0 and 'No error has been found' in out
    if not r.ok:
        r.error = '\n'.join(ln for ln in out.splitlines() if not ln.startswith(
            ('Parsing file', 'Semantic processing', 'Linting', '<<"GEN', 'Computed')))[:5000]
    return r


# ---------------------------------------------------------------------------
# executing plans against the real code
# ---------------------------------------------------------------------------
class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


_exec = None
_seconds = 20


def _init_worker(execute, scratch, seconds):
    global _exec, _seconds
    _exec, _seconds = execute, seconds
    d = tempfile.mkdtemp(dir=scratch, prefix='w')
    os.chdir(d)
    t = os.path.join(d, 'tmp')
    os.mkdir(t)
    os.environ['TMPDIR'] = t
    os.environ['HOME'] = d
    tempfile.tempdir = t
    signal.signal(signal.SIGALRM, _alarm)


def _run(plan):
    signal.alarm(_seconds)
    try:
        return _exec(plan)
    except CaseTimeout:
        return {'hang': True}
    except Exception as e:
        # an exception the driver did not expect: the library's own, or the driver's fault?
        frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        theirs = lambda f: f.startswith(str(REPO / 'src')) or f.startswith('<attrs generated ') and ' csvw.' in f  # its constructors as well
        ours = [f for f in frames if theirs(f) or f.startswith(str(VERIF))]
        if ours and theirs(ours[-1]):
            return {'crash': traceback.format_exc()[-1500:]}
        return {'machinery': traceback.format_exc()}
    finally:
        signal.alarm(0)


def prepare_imports():
    """Import csvw from the working tree of the repository, nothing else."""
    src = str(REPO / 'src')
    sys.path[:] = [src] + [p for p in sys.path if p != src]
    sys.dont_write_bytecode = True
    import csvw
    got = pathlib.Path(csvw.__file__).resolve()
    if not str(got).startswith(str((REPO / 'src').resolve())):
        raise Machinery('csvw imported from {}'.format(got))


class Check:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1'))
        self.rng = random.Random(zlib.crc32(prop.encode()) * 1000003 + self.seed)
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='vf-{}-'.format(prop))
        self.models = []
        self.runs = []
        self.violations = []
        self.known_hits = []
        self.samples = []
        self.assumptions = []
        self.traces = 0
        self.events = 0
        self.outcomes = {}
        kf = VERIF / 'known-findings.json'
        self.known = {f['id']: f for f in json.loads(kf.read_text())['findings']
                      if f['property'] == prop and f['status'] == 'known'}

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        n = thorough if self.thorough else quick
        scale = float(os.environ.get('VF_SCALE', 1))  # see tools/mutate.py
        return n if n < 100 else max(50, int(n * scale))

    # -- model checking ----------------------------------------------------
    def model(self, module, cfg, note='', workers=None, extra=(), timeout=800, env=None):
        """Exhaustively check a bounded model; returns emitted GEN values."""
        cache = os.environ.get('VF_MODELCACHE')  # the models do not depend on the code, see tools/mutate.py
        if cache:
            cache = os.path.join(cache, '{}-{}-{}.json'.format(module, cfg, zlib.crc32(repr((extra, env, self.thorough)).encode())))
            if os.path.exists(cache):
                with open(cache) as fp:
                    return json.load(fp)
        r = tlc(module, cfg, self.scratch, workers=workers, extra=extra, timeout=timeout, env=env)
        if cache and r.ok:
            with open(cache + '.%d' % os.getpid(), 'w') as fp:
                json.dump([v for t, v in r.prints if t == 'GEN'], fp)
            os.rename(cache + '.%d' % os.getpid(), cache)
        if not r.ok:
            raise Machinery('TLC on {} {}:\n{}'.format(module, cfg, r.error))
        self.models.append(dict(module=module, cfg=cfg, generated=r.generated, distinct=r.distinct,
                                depth=r.depth, note=note))
        return [v for t, v in r.prints if t == 'GEN']

    # -- conformance -------------------------------------------------------
    def execute(self, plans, execute, seconds=20):
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(WORKERS, _init_worker, (execute, self.scratch, seconds)) as pool:
            res = pool.map_async(_run, plans, chunksize=max(1, min(64, len(plans) // 64 or 1)))
            try:
                return res.get(timeout=700)
            except multiprocessing.TimeoutError:
                raise Machinery('driver did not finish')

    def conform(self, plans, execute, module, cfg=None, seconds=20, batch=40000):
        """Execute plans on the real code and validate the recorded sessions."""
        plans = list(plans)
        for i in range(0, len(plans), batch):
            self._conform(plans[i:i + batch], execute, module, cfg, seconds)

    def _conform(self, plans, execute, module, cfg, seconds):
        if not plans:
            return
        cfg = cfg or module.replace('.tla', '.cfg')
        sessions = self.execute(plans, execute, seconds)
        good, gplans = [], []
        for p, s in zip(plans, sessions):
            if 'machinery' in s:
                raise Machinery('driver failed on {}\n{}'.format(json.dumps(p)[:2000], s['machinery']))
            if 'crash' in s:
                self.reject(p, {'out': s['crash']}, 'the library raised an exception where none may occur', None, None)
                continue
            if s.get('hang'):
                self.reject(p, None, 'the call did not return within {} s'.format(seconds), None, None)
                continue
            good.append(s)
            gplans.append(p)
            for e in s['ev']:
                key = '{}/{}'.format(e.get('op', '-'), outcome_of(e))
                self.outcomes[key] = self.outcomes.get(key, 0) + 1
        if not good:
            return
        bad, consumed = self._validate(good, module, cfg)
        self.traces += len(good)
        self.events += consumed
        for b in bad:
            s, p = good[b['s'] - 1], gplans[b['s'] - 1]
            ev = s['ev'][b['l'] - 1] if b['l'] else None
            self.reject(p, ev, b['clause'], b['exp'], b['l'])
        self.runs.append(dict(module=module, sessions=len(good), events=consumed))
        if len(self.samples) < 4:
            i = self.rng.randrange(len(good))
            self.samples.append(shorten(dict(plan=gplans[i], recorded=good[i])))

    def _validate(self, sessions, module, cfg):
        f = os.path.join(self.scratch, 'trace.ndjson')
        with open(f, 'w') as fp:
            for s in sessions:
                fp.write(json.dumps({'ini': s.get('ini', {}), 'ev': s['ev']}, ensure_ascii=True))
                fp.write('\n')
        r = tlc(module, cfg, self.scratch, env={'TRACE': f})
        bad = [v for t, v in r.prints if t == 'BAD']
        if not r.ok:
            # an evaluation error inside one session: what was recorded lies outside the
            # domain of the specification altogether
            m = re.findall(r'^/\\ hs = (\d+)$', r.out, flags=re.M)
            ml = re.findall(r'^/\\ hhl = (\d+)$', r.out, flags=re.M)
            if m and int(m[-1]) <= len(sessions):
                keep = r.out.split('Error:')
                bad = [dict(s=int(m[-1]), l=min(int(ml[-1]) if ml else 1, len(sessions[int(m[-1]) - 1]['ev'])),
                            clause='recorded behaviour is outside the specification',
                            exp=''.join(keep[1:3])[:1500])] + bad
                return bad, 0
            raise Machinery('TLC on {}:\n{}'.format(module, r.error))
        done = sum(v for t, v in r.prints if t == 'DONE')
        want = sum(len(s['ev']) for s in sessions)
        for b in bad:
            want -= len(sessions[b['s'] - 1]['ev']) - b['l']
        if done != want:
            raise Machinery('TLC consumed {} of {} events in {}'.format(done, want, module))
        return bad, done

    def reject(self, plan, event, clause, exp, l):
        if isinstance(plan, dict) and plan.get('kf') in self.known:
            if plan['kf'] not in self.known_hits:
                self.known_hits.append(plan['kf'])
            return
        self.violations.append(dict(property=self.prop, clause=clause, expected=exp, event_index=l,
                                    event=event, plan=plan))

    # -- reporting ---------------------------------------------------------
    def finish(self):
        ev = pathlib.Path(self.scratch) / 'evidence' if os.environ.get('VF_NOEVIDENCE') else VERIF / 'evidence'
        ev.mkdir(exist_ok=True)
        rdir = ev / 'replay'
        rdir.mkdir(exist_ok=True)
        for old in rdir.glob(self.prop + '-*.json'):
            old.unlink()
        for f in self.known_hits:
            print('KNOWN-FINDING: property={} {}: {}'.format(self.prop, f, self.known[f]['what']))
        seen = {}
        for i, v in enumerate(self.violations):
            c = seen[v['clause']] = seen.get(v['clause'], 0) + 1
            if c > 3:
                continue
            p = rdir / '{}-{}.json'.format(self.prop, i)
            p.write_text(json.dumps(v, indent=1))
            print('VIOLATION property={} replay={}'.format(self.prop, p))
            print('   clause: {}'.format(v['clause']))
            print('   event:  {}'.format(json.dumps(shorten(v['event']), ensure_ascii=False)[:700]))
            print('   spec:   {}'.format(json.dumps(shorten(v['expected']), ensure_ascii=False)[:500]))
        cov = dict(
            states=sum(m['distinct'] for m in self.models),
            transitions=sum(m['generated'] for m in self.models),
            traces_validated_against_impl=self.traces,
            events_validated_against_impl=self.events,
            models=self.models,
            conformance=self.runs,
            outcomes=self.outcomes,
            samples=self.samples,
        )
        (ev / (self.prop + '.json')).write_text(json.dumps(dict(
            property=self.prop, tier=self.tier, seed=self.seed, level='model_checking',
            coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
            violations=len(self.violations)), indent=1))
        print('{}: {} model states, {} traces / {} events validated, {} violations, {:.1f} s'.format(
            self.prop, cov['states'], self.traces, self.events, len(self.violations),
            time.time() - self.t0))
        return 1 if self.violations else 0

    def close(self):
        if self.scratch.startswith(tempfile.gettempdir()) or self.scratch.startswith('/tmp/'):
            shutil.rmtree(self.scratch, ignore_errors=True)


def outcome_of(e):
    o = e.get('out')
    if isinstance(o, dict):
        return o.get('k', '?') + ('' if 't' not in o else ':' + str(o['t']))
    return '-'


def shorten(o, n=60):
    if isinstance(o, list):
        if len(o) and all(isinstance(x, int) for x in o):
            if all(8 < x < 0x110000 for x in o):
                return '"' + U(o[:n]) + ('...' if len(o) > n else '') + '"'
            return o[:n]
        return [shorten(x, n) for x in o[:12]]
    if isinstance(o, dict):
        return {k: shorten(v, n) for k, v in list(o.items())[:20]}
    return o
