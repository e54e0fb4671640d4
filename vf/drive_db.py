"""Write described tables to SQLite databases and read them, and record sessions for TraceDb.tla.

plan: {tables: [{name, cols: [{name, dt, sep, req}], pk, fks: [{cols, ref, rcols}], inherit}],
       dropself, tr, mem, file, ev: [{op: open} | {op: write, via, items, force, skip, shuffle} | {op: read, fresh}]}
Values are texts, lists of texts or null."""
import csv
import json
import argparse
import random
import shutil
import decimal
import hashlib
import pathlib
import sqlite3
import datetime
import tempfile
import warnings
import contextlib
import io

from .core import T

BOUNDS = dict(minimum='>=', minInclusive='>=', minExclusive='>', maximum='<=', maxInclusive='<=', maxExclusive='<')


def enc(v):
    if v is None:
        return dict(k='N', v=[])
    if isinstance(v, list):
        return dict(k='L', v=[enc(x) for x in v])
    if isinstance(v, str):
        return dict(k='s', v=T(v))
    if isinstance(v, bool):
        return dict(k='b', v=[int(v)])
    if isinstance(v, int):
        return dict(k='i', v=[v // 10 ** 9, v % 10 ** 9])  # ordered, as all sequences
    if isinstance(v, (float, decimal.Decimal)):
        kind = 'f' if isinstance(v, float) else 'd'
        x = v * 100
        if abs(v) < 10 ** 7 and x == int(x) or float(v) == round(float(v), 2) and abs(v) < 10 ** 6 and kind == 'f':
            return dict(k=kind, v=[int(round(x))])
        return dict(k=kind.upper(), v=T(repr(v) if kind == 'f' else format(v.normalize(), 'f')))
    if isinstance(v, datetime.datetime):
        off = v.utcoffset()
        return dict(k='t', v=[v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond,
                              -9999 if off is None else int(off.total_seconds() // 60)])
    if isinstance(v, bytes):
        return dict(k='x', v=list(v))
    if hasattr(v, 'unsplit'):
        return dict(k='u', v=T(v.unsplit()))
    if isinstance(v, dict):
        return dict(k='o', v=T(json.dumps(v, sort_keys=True)))
    return dict(k='o', v=T(repr(v)))


def encoded(base, v):
    """Values of datatype time have no date."""
    if base == 'json' and isinstance(v, list):
        return dict(k='o', v=T(json.dumps(v, sort_keys=True)))
    if isinstance(v, list):
        return dict(k='L', v=[encoded(base, x) for x in v])
    r = enc(v)
    if base == 'time' and r['k'] == 't':
        r['v'] = [0, 0, 0] + r['v'][3:]
    return r


def column_json(c, inreq=0, indt=None):
    d = dict(name=c['name'])
    if indt is not None:
        # a datatype by default
        if c.get('dt') != indt:
            d['datatype'] = c.get('dt') or 'string'
    elif c.get('dt') is not None:
        d['datatype'] = c['dt']
    if c.get('sep') and not c.get('insep'):
        d['separator'] = c['sep']
    if inreq:
        # required by default
        if not c.get('req'):
            d['required'] = False
    elif c.get('req') is not None:
        d['required'] = c['req']
    return d


def description(plan):
    tables = []
    for t in plan['tables']:
        indt = t['cols'][(t['indt'][1] - 1) % len(t['cols'])].get('dt') if t.get('indt') and t['cols'] else None
        s = dict(columns=[column_json(c, t.get('inreq'), indt) for c in t['cols']])
        if t.get('pk'):
            s['primaryKey'] = t['pk'] if len(t['pk']) > 1 else t['pk'][0]
        if t.get('fks'):
            s['foreignKeys'] = [dict(
                columnReference=fk['cols'] if len(fk['cols']) > 1 else fk['cols'][0],
                reference=dict(resource=fk['ref'], columnReference=fk['rcols'] if len(fk['rcols']) > 1 else fk['rcols'][0]))
                for fk in t['fks']]
        if any(c.get('insep') for c in t['cols']):
            s['separator'] = t['cols'][0]['sep']
        tables.append(dict(url=t['name'], tableSchema=s))
        if t.get('inreq'):
            (s if t['inreq'] == 1 else tables[-1])['required'] = True
        if indt is not None:
            (s if t['indt'][0] == 1 else tables[-1])['datatype'] = indt
    return {'@context': 'http://www.w3.org/ns/csvw', 'tables': tables}


def base_of(c):
    dt = c.get('dt')
    return dt['base'] if isinstance(dt, dict) else dt or 'string'


def translator(plan):
    """Names may be translated in any way: leave them, add something, exchange them."""
    tables = [t['name'] for t in plan['tables']]
    cols = {t['name']: [c['name'] for c in t['cols']] for t in plan['tables']}
    if plan['tr'] == 0:
        return lambda t, c=None: c or t
    if plan['tr'] == 1:
        return lambda t, c=None: 'X ' + c if c else 'T-' + t

    def rotated(xs, x):
        return xs[(xs.index(x) + 1) % len(xs)] if x in xs else 'r_' + x
    return lambda t, c=None: rotated(cols.get(t, []), c) if c else rotated(tables, t)


def setup(plan):
    import csvw
    dts = {}
    S = dict(dropself=plan['dropself'], tables=[])
    for t in plan['tables']:
        cols = []
        for c in t['cols']:
            dt = csvw.Datatype.fromvalue(json.loads(json.dumps(c.get('dt') or 'string')))
            dts[t['name'], c['name']] = dt
            raw = c['dt'] if isinstance(c.get('dt'), dict) else {}
            facets = base_of(c) not in ('base64Binary', 'binary', 'json')
            cols.append(dict(
                name=c['name'], list=bool(c.get('sep')), sep=[T(c['sep'])] if c.get('sep') else [], text=base_of(c) == 'string', req=bool(c.get('req')),
                bounds=[[op, encoded(base_of(c), dt.parse(raw[k]))['v']] for k, op in BOUNDS.items() if k in raw],
                len=raw.get('length', -1) if facets else -1,
                minlen=raw.get('minLength', -1) if facets else -1, maxlen=raw.get('maxLength', -1) if facets else -1))
        S['tables'].append(dict(name=t['name'], cols=cols, pk=t.get('pk') or [], fks=t.get('fks') or []))
    return dts, S


def execute(plan):
    import csvw
    from csvw.db import Database
    tmp = pathlib.Path(tempfile.mkdtemp())
    ev = []
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            md = tmp / 'md.json'
            md.write_text(json.dumps(description(plan)), encoding='utf8')
            dts, S = setup(plan)
            tr = translator(plan)
            fname = None if plan['mem'] else tmp / 'datasette.db'
            if fname and plan['file'] == 'yes':
                fname.write_bytes(b'something else')
            db = None

            def parsed(t, c, v):
                if v is None:
                    return None
                if isinstance(v, list):
                    return [dts[t, c].parse(x) for x in v]
                return dts[t, c].parse(v)

            def database():
                tg = csvw.TableGroup.from_file(md)
                kw = {} if plan['tr'] == 0 else dict(translate=tr)
                if not plan['dropself']:
                    kw['drop_self_referential_fks'] = False
                return Database(tg, fname=fname if not fname or plan.get('path') else str(fname), **kw)

            for e in plan['ev']:
                if e['op'] == 'open':
                    try:
                        db = database()
                        out = dict(k='ok')
                    except (ValueError, KeyError, AssertionError):
                        out = dict(k='err')
                    except Exception as ex:
                        out = dict(k='exc', text=T(repr(ex)[:300]))
                    ev.append(dict(op='open', out=out))
                    if db is None:
                        break
                elif e['op'] == 'write':
                    ev.append(write(plan, e, db, tmp, dts, parsed))
                else:
                    if e.get('fresh') and fname:
                        db = database()
                    try:
                        rows, extra = {}, False
                        got = db.read()
                        for t in plan['tables']:
                            rows[t['name']] = []
                            names = {tr(t['name'], c['name']): c for c in t['cols']}
                            for row in got.get(tr(t['name']), []):
                                extra = extra or set(row) != set(names)
                                rows[t['name']].append({
                                    c['name']: encoded(base_of(c), row.get(k)) for k, c in names.items()})
                        out = dict(k='ok', rows=rows, extra=extra, lists=lists(plan, db, tr),
                                   seps={t['name']: {c['name']: [T(x) for x in [db.separator(tr(t['name']), tr(t['name'], c['name']))] if x]
                                                     for c in t['cols']} for t in plan['tables']})
                    except sqlite3.Error:
                        out = dict(k='err')
                    except Exception as ex:
                        out = dict(k='exc', text=T(repr(ex)[:300]))
                    ev.append(dict(op='read', out=out))
            if db is not None and db._connection:
                db._connection.close()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return dict(ini=dict(S=S, mem=plan['mem'], file=plan['file']), ev=ev)


def lists(plan, db, tr):
    """The lists of texts, as found by a query."""
    res = {}
    with db.connection() as conn:
        for t in plan['tables']:
            res[t['name']] = {}
            for c in t['cols']:
                related = any(fk['cols'] == [c['name']] for fk in t.get('fks') or [])
                if c.get('sep') and base_of(c) == 'string' and not related:
                    tname, cname = tr(t['name']), tr(t['name'], c['name'])
                    rows = conn.execute('SELECT "{}" FROM "{}"'.format(cname.replace('"', '""'), tname.replace('"', '""'))).fetchall()
                    res[t['name']][c['name']] = [enc(db.split_value(tname, cname, r[0])) for r in rows]
    return res


def digest(fname):
    return hashlib.sha1(fname.read_bytes()).hexdigest() if fname and fname.exists() else None


def write(plan, e, db, tmp, dts, parsed):
    import csvw.__main__
    fname = db.fname
    before = digest(fname)
    bases = {(t['name'], c['name']): base_of(c) for t in plan['tables'] for c in t['cols']}
    rng = random.Random(e.get('shuffle', 0))
    unreadable = False
    items = {t: [{c: encoded(bases.get((t, c), 'string'), parsed(t, c, v) if (t, c) in bases else v) for c, v in row.items()} for row in rows]
             for t, rows in e['items'].items()}
    if e['via'] in ('tg', 'sqlite', 'datasette'):
        for t in plan['tables']:
            extra = sorted({c for row in e['items'].get(t['name'], []) for c in row} - {c['name'] for c in t['cols']})
            seps = {c['name']: c.get('sep') for c in t['cols']}
            with open(tmp / t['name'], 'w', encoding='utf8', newline='') as f:
                w = csv.writer(f)
                header = [c['name'] for c in t['cols']] + extra
                w.writerow(header)
                for row in e['items'].get(t['name'], []):
                    vals = [row.get(h) for h in header]
                    w.writerow(['' if v is None else seps[h].join(v) if isinstance(v, list) else v for h, v in zip(header, vals)])
        try:
            items = {t: [{c: encoded(bases.get((t, c), 'string'), v) for c, v in row.items()} for row in rows]
                     for t, rows in db.tg.read().items()}
        except ValueError:
            items = {}
            unreadable = True

        def call():
            if e['via'] == 'sqlite':
                return csvw.__main__.csvw2sqlite(argparse.Namespace(url=str(tmp / 'md.json'), output=str(fname)), test=True)
            if e['via'] == 'datasette':
                return csvw.__main__.csvw2datasette(argparse.Namespace(url=str(tmp / 'md.json'), outdir=tmp), test=True)
            db.write_from_tg(_force=e['force'], _skip_extra=e['skip'])
    else:
        data = {}
        for t, rows in e['items'].items():
            data[t] = []
            for row in rows:
                cells = [(c, parsed(t, c, v) if (t, c) in bases else v) for c, v in row.items()]
                if e.get('shuffle'):
                    rng.shuffle(cells)
                data[t].append(dict(cells))
        names = list(data)
        rng.shuffle(names)

        def call():
            db.write(force=e['force'], _skip_extra=e['skip'], **{t: data[t] for t in names})
    try:
        call()
        out = dict(k='ok')
    except (sqlite3.Error, ValueError, AssertionError):
        out = dict(k='err')
    except Exception as ex:
        out = dict(k='exc', text=T(repr(ex)[:300]))
    out['same'] = digest(fname) == before
    return dict(op='write', items=items, unreadable=unreadable, skip=bool(e['skip']), force=bool(e['force']), out=out)
