"""Execute plans on csvw.Datatype and csvw.Column and record sessions for TraceCell.tla."""
import re
import json
import datetime
import warnings
import collections
from decimal import Decimal

from .core import T, U


# -- regular expressions ----------------------------------------------------
def re_text(x, top=True):
    k = x[0]
    if k == 'c':
        return re.escape(chr(x[1]))
    if k == 'any':
        return '.'
    if k == 'set':
        return '[{}{}]'.format('^' if x[2] else '', ''.join(re.escape(chr(c)) for c in x[1]))
    if k == 'seq':
        res = ''.join(re_text(y, False) for y in x[1])
        return res if top else '(?:' + res + ')'
    if k == 'alt':
        res = '|'.join(re_text(y, y[0] == 'seq') for y in x[1])
        return res if top else '(' + res + ')'
    assert k == 'rep'
    inner = re_text(x[1], False)
    if x[1][0] == 'rep':
        inner = '(?:' + inner + ')'
    m, n = x[2], x[3]
    q = {(0, -1): '*', (1, -1): '+', (0, 1): '?'}.get((m, n))
    return inner + (q or '{%s,%s}' % (m, '' if n < 0 else n))


def schema_json(s):
    """A JSON schema, see Cell.tla."""
    k = s[0]
    bounds = lambda names, vs: {n: v[0] for n, v in zip(names, vs) if v}
    if k == 'any':
        return s[1]
    if k == 'never':
        return False
    if k == 'type':
        return {'type': s[1]}
    if k == 'props':
        res = {'properties': {U(p): schema_json(x) for p, x in s[1]}, 'required': [U(x) for x in s[2]]}
        return dict(res, additionalProperties=False) if s[3] else res
    if k == 'items':
        return dict(bounds(['minItems', 'maxItems'], s[2:]), items=schema_json(s[1]))
    if k == 'size':
        return bounds(['minLength', 'maxLength'], s[1:])
    if k == 'range':
        return {n: untree(v[0]) for n, v in zip(['minimum', 'maximum'], s[1:]) if v}
    if k == 'enum':
        return {'enum': [untree(v) for v in s[1]]}
    subs = [schema_json(x) for x in s[1]]
    return {'not': subs[0]} if k == 'not' else {{'all': 'allOf', 'some': 'anyOf'}[k]: subs}


# -- descriptions -----------------------------------------------------------
def dt_json(dt):
    """The JSON description of a datatype."""
    f = dt['f']
    res = {'base': dt['base']}
    if f['k'] == 're':
        res['format'] = re_text(f['x'])
    elif f['k'] == 'raw':
        res['format'] = U(f['x'])
    elif f['k'] == 'num':
        d = {}
        if f['pat']:
            d['pattern'] = U(f['pat'])
        if f['dec']:
            d['decimalChar'] = U(f['dec'])
        if f['grp']:
            d['groupChar'] = U(f['grp'])
        res['format'] = d['pattern'] if list(d) == ['pattern'] and not f.get('asdict') else d
    elif f['k'] == 'bool':
        res['format'] = U(f['t']) + '|' + U(f['f'])
    elif f['k'] == 'date':
        res['format'] = U(f['p'])
    elif f['k'] == 'schema':
        res['format'] = json.dumps(schema_json(f['s']))
    for k in ['length', 'minLength', 'maxLength']:
        if dt[k]:
            res[k] = dt[k][0]
    for name, text, plain in dt['bounds']:
        t = U(text)
        res[name] = (json.loads(t) if plain else t)
    if list(res) == ['base'] and dt.get('short'):
        return dt['base']
    return res


def level_json(lv):
    res = {}
    if lv['null']:
        ns = [U(n) for n in lv['null'][0]]
        res['null'] = ns[0] if len(ns) == 1 and lv.get('bare') else ns
    if lv['default']:
        res['default'] = U(lv['default'][0])
    if lv['required']:
        res['required'] = lv['required'][0]
    if lv['separator']:
        res['separator'] = U(lv['separator'][0])
    if lv['datatype']:
        res['datatype'] = dt_json(lv['datatype'][0])
    return res


# -- values -----------------------------------------------------------------
def canon(neg, digits, exp):
    digits = list(digits)
    while digits and digits[0] == 0:
        digits.pop(0)
    while digits and digits[-1] == 0:
        digits.pop()
        exp += 1
    return [False, [], 0] if not digits else [bool(neg), digits, exp]


def num(v):
    if isinstance(v, bool):
        return ['b', int(v)]
    if isinstance(v, int):
        return ['num', 'i'] + canon(v < 0, [int(c) for c in str(abs(v))], 0)
    if isinstance(v, Decimal):
        if not v.is_finite():
            return ['x', 'd', 'NaN' if v.is_nan() else ('-INF' if v < 0 else 'INF')]
        s, d, e = v.as_tuple()
        return ['num', 'd'] + canon(s, d, e)
    if v != v:
        return ['x', 'f', 'NaN']
    if v in (float('inf'), float('-inf')):
        return ['x', 'f', 'INF' if v > 0 else '-INF']
    s, d, e = Decimal(repr(v)).as_tuple()
    return ['num', 'f'] + canon(s, d, e)


def tree(v):
    if v is None:
        return ['n']
    if isinstance(v, bool):
        return ['b', int(v)]
    if isinstance(v, (int, float)):
        return num(v)
    if isinstance(v, str):
        return ['s', T(v)]
    if isinstance(v, dict):
        return ['o', [[T(k), tree(x)] for k, x in v.items()]]
    if isinstance(v, list):
        return ['l', [tree(x) for x in v]]
    return ['?', repr(type(v))]


def td(d):
    us = (d.days * 86400 + d.seconds) * 1000000 + d.microseconds
    return us


def proj(v, base):
    if base == 'json':
        return ['j', tree(v)]
    if v is None:
        return ['n']
    if isinstance(v, (bool, int, float, Decimal)):
        return num(v)
    if isinstance(v, str):
        return ['s', T(v)]
    if isinstance(v, bytes):
        return ['bin', list(v)]
    if hasattr(v, 'unsplit'):
        return ['u', T(v.unsplit())]
    if isinstance(v, datetime.datetime):
        f = [v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond]
        if base == 'time':
            if (v.year, v.month, v.day) != tuple(datetime.date.today().timetuple()[:3]):
                return ['?', 'a time of another day']
            f[:3] = [0, 0, 0]
        off = v.utcoffset()
        return ['dt', f, [] if off is None else [int(off.total_seconds() // 60)]]
    if isinstance(v, datetime.timedelta):
        us = td(v)
        a = abs(us)
        return ['dur', [us < 0, 0, 0, a // 86400000000, a // 1000000 % 86400, a % 1000000]]
    if hasattr(v, 'tdelta'):
        us = td(v.tdelta)
        a = abs(us)
        signs = {x > 0 for x in (v.years, v.months, us) if x}
        if len(signs) > 1:
            return ['?', 'mixed signs']
        return ['dur', [signs == {False}, int(abs(v.years)), int(abs(v.months)),
                        a // 86400000000, a // 1000000 % 86400, a % 1000000]]
    return ['?', repr(type(v))]


def projl(v, base):
    if isinstance(v, list) and base != 'json':
        return ['l', [proj(x, base) for x in v]]
    return proj(v, base)


def untree(j):
    k = j[0]
    if k == 'n':
        return None
    if k == 'b':
        return bool(j[1])
    if k == 'num':
        return val(j, None)
    if k == 's':
        return U(j[1])
    if k == 'l':
        return [untree(x) for x in j[1]]
    return collections.OrderedDict((U(a), untree(b)) for a, b in j[1])


def val(v, base):
    """The Python value for an encoded one."""
    k = v[0]
    if k == 'n':
        return None
    if k == 's':
        return U(v[1])
    if k == 'u':
        import rfc3986
        return rfc3986.URIReference.from_string(U(v[1]))
    if k == 'num':
        d = Decimal((int(v[2]), tuple(v[3]) or (0,), v[4]))
        return int(d) if v[1] == 'i' else float(d) if v[1] == 'f' else d
    if k == 'x':
        s = {'INF': 'Infinity', '-INF': '-Infinity', 'NaN': 'NaN'}[v[2]]
        return float(s) if v[1] == 'f' else Decimal(s)
    if k == 'b':
        return bool(v[1])
    if k == 'dt':
        tz = datetime.timezone(datetime.timedelta(minutes=v[2][0])) if v[2] else None
        f = v[1] if base != 'time' else [2000, 1, 1] + v[1][3:]
        return datetime.datetime(*f, tzinfo=tz)
    if k == 'dur':
        import isodate
        neg, y, m, d, s, us = v[1]
        t = datetime.timedelta(days=d, seconds=s, microseconds=us)
        if y or m:
            t = isodate.Duration(years=y, months=m, days=d, seconds=s, microseconds=us)
            return isodate.Duration(0) - t if neg else t
        return -t if neg else t
    if k == 'bin':
        return bytes(v[1])
    if k == 'l':
        return [val(x, base) for x in v[1]]
    assert k == 'j', v
    return untree(v[1])


# -- operations -------------------------------------------------------------
def outcome(f):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return {'k': 'ok', 'v': f()}
    except ValueError:
        return {'k': 'err', 'v': ['n']}
    except Exception as e:
        return {'k': 'other', 'v': ['n'], 'x': repr(e)[:200]}


def column(levels):
    from csvw import TableGroup
    group, table, schema, col = [level_json(lv) for lv in levels]
    md = dict(group, **{
        '@context': 'http://www.w3.org/ns/csvw',
        'tables': [dict(table, url='t.csv', tableSchema=dict(
            schema, columns=[dict(col, name='c')]))]})
    return TableGroup.fromvalue(md).tables[0].tableSchema.columns[0]


def run(e):
    from csvw import Datatype
    op = e['op']
    if op in ('cread', 'cwrite', 'cround'):
        base = next((lv['datatype'][0]['base'] for lv in reversed(e['levels']) if lv['datatype']), 'string')
        if op == 'cread':
            return outcome(lambda: projl(column(e['levels']).read(U(e['t'])), base))
        if op == 'cround':
            def cround():
                col = column(e['levels'])
                return projl(col.read(col.write(val(e['v'], base))), base)
            return outcome(cround)
        return outcome(lambda: T(column(e['levels']).write(val(e['v'], base))))
    dt = e['dt']
    base = dt['base']

    def make():
        return Datatype.fromvalue(dt_json(dt))
    if op == 'make':
        return outcome(lambda: (make(), ['n'])[1])
    if op == 'read':
        return outcome(lambda: proj(make().read(U(e['t'])), base))
    if op == 'junk':
        def junk():
            d = make()
            v = d.read(U(e['t']) * e.get('times', 1))
            if not e.get('times'):
                proj(v, base)
            return ['n']
        return outcome(junk)
    if op == 'write':
        return outcome(lambda: T(make().formatted(val(e['v'], base))))
    if op == 'roundtrip':
        def rt():
            d = make()
            return proj(d.read(d.formatted(val(e['v'], base))), base)
        return outcome(rt)
    raise AssertionError(op)


def execute(plan):
    return {'ini': {}, 'ev': [dict(e, out=run(e)) for e in plan['ev']]}
