"""Execute plans on csvw.dsv and record sessions for TraceDsv.tla.

plan: {ini: {there, text}, enc, ev: [op, ...]}; one scratch directory per plan."""
import io
import os
import csv
import shutil
import pathlib
import tempfile
import warnings

from .core import T, U


class Planned(Exception):
    """Raised on purpose by a visitor."""


def dialect_json(d):
    """The dialect description of d as JSON object."""
    return dict(
        delimiter=chr(d['delim']),
        quoteChar=None if d['quote'] < 0 else chr(d['quote']),
        doubleQuote=d['dbl'],
        commentPrefix=U(d['comment']) or None,
        skipRows=d['skipRows'], skipColumns=d['skipCols'], skipBlankRows=d['skipBlank'],
        skipInitialSpace=d['skipsp'],
        trim=d['trim'] if not (d.get('trimbool') and d.get('built') == 'init') else d['trim'] == 'true',
        lineTerminators=[U(d['lt'])] if d.get('ltlist', True) or d.get('built') == 'init' else U(d['lt']),
        encoding=d['enc'],
    )


def dialect_kw(d):
    from csvw import Dialect
    if d['csvw']:
        kw, over = dialect_json(d), {}
        if d.get('mixed'):
            over['delimiter'] = kw['delimiter']
            kw['delimiter'] = '^'
            if d['quote'] > 0:
                over['quotechar'] = kw['quoteChar']
                kw['quoteChar'] = '!'
        if d.get('built') == 'setattr':   # properties assigned to an existing object
            dia = Dialect()
            # the object has been in use before
            dia.trimmer, dia.escape_character, dia.line_terminators
            for k, v in kw.items():
                setattr(dia, k, v)
        elif d.get('built') == 'updated':
            dia = Dialect().updated(**kw)
        else:
            dia = Dialect(**kw)
        return dict(over, dialect=dia)
    kw = {}
    if d['delim'] != 44:
        kw['delimiter'] = chr(d['delim'])
    if d['quote'] != 34:
        kw['quotechar'] = chr(d['quote'])
    if d.get('encoding'):
        kw['encoding'] = d['encoding']
    if d['lt'] != [13, 10]:
        kw['lineterminator'] = U(d['lt'])
    given = d.get('given', 'kw')
    if given == 'kw':
        return kw
    # a dialect of the csv module: by its name, as a class or as an instance, with or without exceptions
    enc = {'encoding': kw.pop('encoding')} if 'encoding' in kw else {}
    if given == 'name':
        return dict(kw, dialect='excel-tab' if kw.pop('delimiter', ',') == '\t' else 'excel', **enc, **(
            {'delimiter': chr(d['delim'])} if d['delim'] not in (9, 44) else {}))
    cls = type('D', (csv.excel,), kw)
    if given == 'mixed':
        return dict(dialect=type('D', (cls,), dict(delimiter='^')), delimiter=chr(d['delim']), **enc)
    return dict(dialect=cls() if given == 'instance' else cls, **enc)


def codec(d):
    return {'UTF-8-BOM': 'utf-8-sig'}.get(d['enc'], d['enc'])


def proj(v):
    if v is None:
        return ['n']
    if isinstance(v, str):
        return ['s', T(v)]
    if isinstance(v, (list, tuple)):
        return ['l', [proj(x) for x in v]]
    return ['x', T(repr(v))]


def rowproj(row):
    return [T(c) if isinstance(c, str) else [-1] for c in row]


def cell(c):
    if c[0] == 'n':
        return None
    if c[0] == 's':
        return U(c[1])
    return {'i': int, 'f': float}[c[0]](U(c[1]))


def content(p, enc):
    if not p.exists():
        return {'there': False, 'text': []}
    b = p.read_bytes()
    try:
        return {'there': True, 'text': T(b.decode(enc))}
    except UnicodeError:
        return {'there': True, 'text': [-1] + list(b)}


def exc(e):
    return {'k': 'exc', 't': 'Planned' if isinstance(e, (Planned, KeyboardInterrupt)) else
            'csv.Error' if isinstance(e, csv.Error) else
            'Encode' if isinstance(e, UnicodeError) else 'Other'}


def op_write(op, f, d):
    from csvw.dsv import UnicodeWriter
    kw = dialect_kw(d)
    target = None if op['via'] == 'memory' else (str(f) if op['via'] == 'str' else f)
    if op['via'] == 'handle':
        target = io.StringIO(newline='')
    if f.exists():
        f.unlink()
    try:
        with UnicodeWriter(target, **kw) as w:
            for call in op['calls']:
                rows = [[cell(c) for c in r] for r in call['rows']]
                if call['k'] == 'row':
                    w.writerow(rows[0])
                elif call['k'] == 'rows':
                    w.writerows(iter(rows) if call.get('iter') else rows)
                else:
                    w.writerows([dict(zip([cell(c) for c in call['keys']], r)) for r in rows])
            if target is None:
                b = w.read()
                return {'k': 'ok', 'text': T(b.decode('utf-8'))}
            if op['via'] == 'handle':
                return {'k': 'ok', 'text': T(target.getvalue())}
        return {'k': 'ok', 'text': content(f, codec(d))['text']}
    except Exception as e:
        out = exc(e)
        if target is None:
            out['text'] = T(w.read().decode('utf-8'))
        else:
            out['text'] = T(target.getvalue()) if op['via'] == 'handle' else content(f, codec(d))['text']
        return out


def op_read(op, f, d):
    from csvw import dsv
    kw = dialect_kw(d)
    kind = op['kind']
    handle = None
    if op['src'] == 'file':
        src = {'str': str(f), 'path': f, 'path2': f}[op.get('as', 'path')]
    elif op['src'] == 'text':
        src = handle = io.StringIO(U(op['text']), newline='')
    else:
        src = [U(x) for x in op['lines']]
        if op.get('bytes'):
            src = [s.encode(codec(d)) for s in src]
    rows, nums, notes = [], [], []
    try:
        rest = {}
        if kind == 'dicts':
            rest = {k: v for k, v in zip(['restkey', 'restval'], map(cell, op['rest'])) if v is not None}
        if kind == 'dicts' and op['fieldnames']['given']:
            rd = dsv.UnicodeDictReader(src, fieldnames=[U(x) for x in op['fieldnames']['names']], **rest, **kw)
        elif op.get('as') == 'path2' or (op['src'] == 'lines' and op.get('factory')):
            k2 = dict(kw)
            gen = dsv.iterrows(src, dicts=kind == 'dicts', namedtuples=kind == 'tuples', **k2) \
                if kind != 'numbered' else None
            if gen is None:
                rd = dsv.UnicodeReaderWithLineNumber(src, **kw)
            else:
                rd = None
                for item in gen:
                    add(rows, nums, item, kind)
                return {'k': 'ok', 'rows': rows, 'nums': nums, 'notes': notes}
        else:
            rd = {'rows': dsv.UnicodeReader, 'numbered': dsv.UnicodeReaderWithLineNumber,
                  'dicts': dsv.UnicodeDictReader, 'tuples': dsv.NamedTupleReader}[kind](src, **rest, **kw)
        try:
            with rd:
                for item in rd:
                    add(rows, nums, item, kind)
        finally:
            notes = [[n + 1, T(t)] for n, t in rd.comments]
        return {'k': 'ok', 'rows': rows, 'nums': nums, 'notes': notes}
    except Exception as e:
        return dict(exc(e), rows=rows, nums=nums, notes=notes)


def add(rows, nums, item, kind):
    if kind == 'rows':
        rows.append(rowproj(item))
    elif kind == 'numbered':
        nums.append(item[0])
        rows.append(rowproj(item[1]))
    elif kind == 'dicts':
        rows.append([[proj(k), proj(v)] for k, v in item.items()])
    else:
        rows.append([[proj(k), proj(v)] for k, v in zip(item._fields, item)])


def op_rewrite(op, f, d):
    from csvw import dsv
    kw = dialect_kw(d)
    seen, obs = [], []
    enc = codec(d)

    def visitor(i, row):
        if i != len(seen):
            seen.append([[-9]])
        obs.append(content(f, enc))
        seen.append(rowproj(row))
        v = op['verdicts'][len(seen) - 1] if len(seen) <= len(op['verdicts']) else ['keep']
        if v[0] == 'raise':
            raise (KeyboardInterrupt if op.get('kbd') else Planned)()
        if v[0] == 'drop':
            return None
        if v[0] == 'set':
            return [U(c) for c in v[1]]
        return row
    try:
        dsv.rewrite(str(f) if op.get('str') else f, visitor, **kw)
        out = {'k': 'ok'}
    except (Exception, KeyboardInterrupt) as e:
        out = exc(e)
    return dict(out, seen=seen, obs=obs, after=content(f, enc))


def op_filter(op, f, d):
    from csvw import dsv
    kw = dialect_kw(d)
    items, obs = [], []
    enc = codec(d)

    def flt(item):
        obs.append(content(f, enc))
        items.append([[proj(k), proj(v)] for k, v in item.items()])
        v = op['keep'][len(items) - 1] if len(items) <= len(op['keep']) else 'keep'
        if v == 'raise':
            raise Planned()
        return v == 'keep'
    try:
        n = dsv.filter_rows_as_dict(f, flt, **kw)
        out = {'k': 'ok', 'removed': n}
    except Exception as e:
        out = exc(e)
    return dict(out, items=items, obs=obs, after=content(f, enc))


def op_add(op, f, d):
    from csvw import dsv
    obs = []

    class Row(list):
        def __iter__(self):
            obs.append(content(f, 'utf-8'))
            if self and self[-1] == 'RAISE' and op['raise']:
                raise Planned()
            return list.__iter__(self)
    rows = [Row([cell(c) for c in r]) for r in op['rows']]
    if op['raise']:
        rows.append(Row(['a', 'RAISE']))
    try:
        dsv.add_rows(str(f) if op.get('str') else f, *rows)
        out = {'k': 'ok'}
    except Exception as e:
        out = exc(e)
    return dict(out, obs=obs, after=content(f, 'utf-8'))


OPS = dict(write=op_write, read=op_read, rewrite=op_rewrite, filter=op_filter, add=op_add)


def execute(plan):
    d = pathlib.Path(tempfile.mkdtemp(dir=os.getcwd()))
    f = d / 'data.csv'
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if plan['ini']['there']:
                f.write_bytes(U(plan['ini']['text']).encode(codec(plan)))
            ev = []
            for op in plan['ev']:
                ev.append(dict(op, out=OPS[op['op']](op, f, op['d'])))
        return {'ini': plan['ini'], 'ev': ev}
    finally:
        shutil.rmtree(str(d), ignore_errors=True)
