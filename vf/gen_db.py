"""Random schemas and contents of databases."""
TEXTS = {
    'string': ['a', 'b', 'A', 'ab', 'a b', ' c', '0', '01', '1', 'ä', '\U0001F600', "it's", '`x`', '"', 'NULL', 'a||b', 'x ', '-', '1e1'],
    'normalizedString': ['x', 'x y', 'é', '10', '9'],
    'any': ['x', '1', 'true'],
    'anyURI': ['http://example.org/a', 'x/y?z#1', 'a', 'b'],
    'integer': ['0', '1', '2', '-1', '10', '9', '100', '9007199254740993'],
    'int': ['0', '1', '2', '-1', '10', '9', '100'],
    'nonNegativeInteger': ['0', '1', '2', '10', '9', '100'],
    'decimal': ['0', '0.1', '1', '-1.5', '10.25', '9', '2.3', '123456.7', '1.10'],
    'double': ['0.1', '1', '-1.5', '10.25', '9', '1E5', '0.01', '100'],
    'float': ['2.5', '10', '9', '-0.5'],
    'number': ['2.5', '10', '9', '-0.5'],
    'boolean': ['true', 'false'],
    'date': ['2018-01-02', '1999-12-31', '2018-10-01', '0999-01-01', '2020-02-29'],
    'dateTime': ['2018-01-02T03:04:05', '2018-01-02T03:04:06', '1999-12-31T23:59:59', '2018-01-02T03:04:05.5', '2018-01-02T03:04:05.25'],
    'time': ['03:04:05', '10:00:00', '09:59:59', '23:59:59'],
    'hexBinary': ['AB', '', '00FF', '010203'],
    'base64Binary': ['YWJj', 'YQ==', ''],
    'json': ['{"a": [1, 2]}', '[1, "x", null]', '1', '"x"', 'true', '[]', '{}'],
    'duration': ['P1D', 'P1Y2M', 'PT5M', 'P3Y6M4DT12H30M5S'],
    'gYear': ['2018', '1999'],
    'QName': ['x', 'a:b'],
}
TZ = {'date': ['2018-01-02Z', '2018-01-02+05:00'], 'dateTime': ['2018-01-02T03:04:05Z', '2018-01-02T03:04:05.123456-05:30'],
      'time': []}
KEYS = ['string', 'string', 'integer', 'integer', 'int', 'decimal', 'date', 'anyURI', 'nonNegativeInteger', 'normalizedString']
BOUNDED = ['integer', 'int', 'nonNegativeInteger', 'decimal', 'double', 'float', 'number', 'date', 'dateTime', 'time']
SIZED = ['string', 'normalizedString', 'anyURI', 'hexBinary', 'base64Binary']
TNAMES = ['data', 'order', 'T2', 'x.csv', 'a-b.csv', 'Select', 'tab%201.csv', 'values', 'sub.tsv', '1.csv']
MADE = ['a', 'b', 'c', 'a_b', 'b_a', 'b_c', 'a_b_c', 'a_a', 'a_a_']
CNAMES = ['id', 'select', 'Name', 'x_y', 'group', 'a.b', 'value', 'context', 'rowid1', 'Z', 'from', 'k2', '%C3%A4', '9']


def order_key(base, text):
    import csvw
    v = csvw.Datatype.fromvalue(base).parse(text)
    return v


def datatype(rng, base, key=False):
    """-> (description, texts of valid values, texts of invalid values)."""
    pool = list(TEXTS[base])
    if key:
        return base, pool, []
    p = rng.random()
    if base in BOUNDED and p < .5:
        if base in ('dateTime', 'time') and rng.random() < .5:
            pool = [x for x in pool if '.' not in x] + ([] if base == 'time' else [])
        vals = sorted({order_key(base, t): t for t in pool}.items())
        lo, hi = sorted(rng.sample(range(len(vals)), 2))
        d = dict(base=base)
        strict_lo, strict_hi = rng.random() < .3, rng.random() < .3
        if hi - lo < 2:
            strict_lo = strict_hi = False
        which = rng.choice(['lo', 'hi', 'both', 'both'])
        ok = range(len(vals))
        if which != 'hi':
            d['minExclusive' if strict_lo else rng.choice(['minimum', 'minInclusive'])] = vals[lo][1]
            ok = [i for i in ok if i > lo or i == lo and not strict_lo]
        if which != 'lo':
            d['maxExclusive' if strict_hi else rng.choice(['maximum', 'maxInclusive'])] = vals[hi][1]
            ok = [i for i in ok if i < hi or i == hi and not strict_hi]
        return d, [vals[i][1] for i in ok], [vals[i][1] for i in range(len(vals)) if i not in ok]
    if base in SIZED and p < .4:
        import csvw
        dt = csvw.Datatype.fromvalue(base)

        def size(t):
            v = dt.parse(t)
            return len(v.unsplit() if hasattr(v, 'unsplit') else v)
        n = size(rng.choice(pool))
        d = dict(base=base)
        kind = rng.choice(['length', 'minLength', 'maxLength', 'both'])
        if kind == 'both':
            d.update(minLength=n, maxLength=n + rng.randrange(2))
            ok = [t for t in pool if n <= size(t) <= d['maxLength']]
        else:
            d[kind] = n
            ok = [t for t in pool if (size(t) == n if kind == 'length' else size(t) >= n if kind == 'minLength' else size(t) <= n)]
        return d, ok, [t for t in pool if t not in ok] if base != 'base64Binary' else []
    if base in TZ:
        pool += TZ[base]
    return base, pool, []


def schema(rng, small=False):
    # names of tables which may coincide with names made of two of them
    names = rng.sample(rng.choice([TNAMES, TNAMES, MADE]), 2 if small else rng.choice([1, 1, 2, 2, 3, 4]))
    tables = []
    for name in names:
        cnames = rng.sample(CNAMES, rng.randrange(1, 6))
        npk = min(len(cnames), rng.choice([0, 1, 1, 1, 1, 1, 2, 2]))
        cols = []
        for i, c in enumerate(cnames):
            if i < npk:
                d, ok, bad = datatype(rng, rng.choice(KEYS), key=True)
                cols.append(dict(name=c, dt=None if d == 'string' and rng.random() < .5 else d, ok=ok, bad=bad, sep=None, req=rng.choice([None, True])))
            else:
                base = rng.choice(list(TEXTS)) if rng.random() < .8 else 'string'
                d, ok, bad = datatype(rng, base)
                sep = rng.choice([';', '|', ', '] if base != 'json' else [';', '|']) if rng.random() < .25 else None
                cols.append(dict(name=c, dt=None if d == 'string' else d, ok=ok, bad=[] if sep else bad, sep=sep,
                                 req=rng.choice([None, None, False, True])))
        alt = []
        if rng.random() < .4 and npk < len(cols) < 8:
            # columns which identify rows as well
            for c in rng.sample([c for c in cols if c['name'] not in cnames[:npk]], min(len(cols) - npk, rng.choice([1, 1, 2]))):
                d, c['ok'], c['bad'] = datatype(rng, rng.choice(KEYS), key=True)
                c['dt'], c['sep'] = None if d == 'string' else d, None
                alt.append(c['name'])
            if npk and rng.random() < .2:
                alt.append(rng.choice(cnames[:npk]))
        rng.shuffle(cols)
        tables.append(dict(name=name, cols=cols, pk=rng.sample(cnames[:npk], npk), fks=[], alt=alt))
    for t in tables:
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            target = rng.choice(tables)
            key = target['alt'] if target['alt'] and rng.random() < .5 else target['pk']
            if target is t and rng.random() < .5 or not key or len(t['cols']) > 8:
                continue
            n = len(key)
            lst = n == 1 and len(t['pk']) == 1 and rng.random() < .45
            fresh = [c for c in CNAMES if c not in {x['name'] for x in t['cols']}]
            fcols = rng.sample(fresh, n)
            rcols = list(key)
            rng.shuffle(rcols)
            if lst and any(f['list'] and f['ref'] == target['name'] for f in t['fks']) and rng.random() < .5:
                continue
            for fc, rc in zip(fcols, rcols):
                src = next(c for c in target['cols'] if c['name'] == rc)
                t['cols'].insert(rng.randrange(len(t['cols']) + 1), dict(
                    name=fc, dt=src['dt'], ok=src['ok'], bad=[], sep=';' if lst else None,
                    req=None if lst else rng.choice([None, None, True]), fk=(target['name'], rc)))
            t['fks'].append(dict(cols=fcols, ref=target['name'], rcols=rcols, list=lst))
    for t in tables:
        # an inherited separator applies to all columns
        if len(t['cols']) == 1 and not t['pk'] and t['cols'][0]['sep']:
            t['cols'][0]['insep'] = rng.random() < .5
    return tables


def content(rng, tables, flaws):
    """Rows for tables; flaws: number of mistakes to make."""
    keys = {}
    items = {}
    for t in tables:
        n = rng.choice([0, 1, 2, 3, 4])
        seen, keys[t['name']] = set(), []
        bycol = {c['name']: c for c in t['cols']}
        for _ in range(n):
            k = {c: rng.choice(bycol[c]['ok']) for c in t['pk'] + t['alt']}
            for c in t['alt']:
                if c not in t['pk'] and not bycol[c]['req'] and rng.random() < .15:
                    k[c] = None
            can = {c: '' if x is None else str(order_key(bycol[c]['dt'] or 'string', x)) for c, x in k.items()}
            can = {c: str(float(x)) if x and bycol[c]['dt'] == 'decimal' else x for c, x in can.items()}
            cans = [(n, tuple(can[c] for c in t[n])) for n in ('pk', 'alt') if t[n]]
            if not any(x in seen for x in cans):
                seen.update(x for x in cans if None not in [k[c] for c in t[x[0]]])
                keys[t['name']].append(k)
    for t in tables:
        fkcols = {c for fk in t['fks'] for c in fk['cols']}
        rows = []
        for i, key in enumerate(keys[t['name']]):
            row = dict(key)
            for c in t['cols']:
                if c['name'] in row or c['name'] in fkcols:
                    continue
                if not c['ok'] or not c['req'] and rng.random() < .25:
                    row[c['name']] = None
                elif c['sep']:
                    ok = [x for x in c['ok'] if c['sep'] not in x and x.strip() == x and x and ';' not in x]
                    row[c['name']] = [rng.choice(ok) for _ in range(rng.randrange(4))] if ok else []
                else:
                    row[c['name']] = rng.choice(c['ok'])
            for fk in t['fks']:
                targets = keys[fk['ref']]
                if fk['ref'] == t['name'] and rng.random() < .7:
                    targets = targets[:i + 1]
                if fk['list']:
                    targets = [x for x in targets if x[fk['rcols'][0]] is not None]
                    row[fk['cols'][0]] = [rng.choice(targets)[fk['rcols'][0]] for _ in range(rng.randrange(4))] if targets else []
                    if not row[fk['cols'][0]] and rng.random() < .5:
                        row[fk['cols'][0]] = None
                elif targets and rng.random() < .85:
                    tk = rng.choice(targets)
                    row.update({c: tk[rc] for c, rc in zip(fk['cols'], fk['rcols'])})
                else:
                    row.update({c: None for c in fk['cols']})
            for c in list(row):
                if row[c] is None and rng.random() < .3:
                    del row[c]
            rows.append(row)
        if rows or rng.random() < .7:
            items[t['name']] = rows
    for _ in range(flaws):
        t = rng.choice(tables)
        rows = items.get(t['name'])
        if not rows:
            continue
        row = rng.choice(rows)
        kind = rng.choice(['dup', 'req', 'bound', 'bound', 'fk', 'fk', 'extra', 'fkpart', 'dupalt'])
        bycol = {c['name']: c for c in t['cols']}
        if kind == 'dup' and t['pk'] or kind == 'dupalt' and t['alt']:
            for c in t['pk' if kind == 'dup' else 'alt']:
                row[c] = rows[0].get(c)
        elif kind == 'req':
            for c in t['cols']:
                if c['req'] and c['name'] not in t['pk']:
                    row[c['name']] = None
        elif kind == 'bound':
            cs = [c for c in t['cols'] if c['bad']]
            if cs:
                c = rng.choice(cs)
                row[c['name']] = rng.choice(c['bad'])
        elif kind in ('fk', 'fkpart') and t['fks']:
            fk = rng.choice(t['fks'])
            if fk['list']:
                x = rng.choice(bycol[fk['cols'][0]]['ok'])
                row[fk['cols'][0]] = (row.get(fk['cols'][0]) or []) + [x]
            else:
                for c in fk['cols'][:1 if kind == 'fkpart' else None]:
                    row[c] = rng.choice(bycol[c]['ok'] + [None])
        elif kind == 'extra':
            row['undescribed'] = 'x'
    return items


def tables_of(tables, rng=None):
    return [dict(name=t['name'], pk=t['pk'], inreq=rng.choice([0] * 8 + [1, 2]) if rng else 0,
                 indt=[rng.randint(1, 2), rng.randint(1, 5)] if rng and rng.random() < .2 else [], fks=[dict(cols=f['cols'], ref=f['ref'], rcols=f['rcols']) for f in t['fks']],
                 cols=[dict(name=c['name'], dt=c['dt'], sep=c['sep'], req=c['req'], insep=bool(c.get('insep'))) for c in t['cols']])
            for t in tables]


def csv_safe(tables, items):
    """Keep what can be told apart in CSV."""
    for t in tables:
        for row in items.get(t['name'], []):
            for c in t['cols']:
                v = row.get(c['name'])
                if isinstance(v, list):
                    v = [x for x in v if x and ';' not in x]
                    row[c['name']] = v or None
                elif v == '':
                    row[c['name']] = None
    return items


def wev(rng, items, via='write', force=False, skip=False):
    return dict(op='write', via=via, items=items, force=force, skip=skip, shuffle=rng.randrange(1, 10 ** 6) if rng.random() < .6 else 0)


def plan(tables, ev, mem=True, tr=0, dropself=True, file='no', path=True):
    return dict(tables=tables, ev=[dict(op='open')] + ev, mem=mem, tr=tr, dropself=dropself, file=file, path=path)


def roundtrip(rng):
    ts = schema(rng)
    via = rng.choice(['write', 'write', 'tg'])
    items = content(rng, ts, 0)
    if via == 'tg':
        items = csv_safe(ts, items)
    return plan(tables_of(ts, rng), [wev(rng, items, via), dict(op='read', fresh=rng.random() < .5)],
                rng.random() < .6, rng.choice([0, 1, 2]), rng.random() < .8)


def refusal(rng):
    ts = schema(rng)
    via = rng.choice(['write', 'write', 'write', 'tg'])
    items = content(rng, ts, rng.choice([0, 1, 1, 1, 2]))
    if via == 'tg':
        items = csv_safe(ts, items)
    return plan(tables_of(ts, rng), [wev(rng, items, via, skip=rng.random() < .3), dict(op='read', fresh=rng.random() < .5)],
                rng.random() < .6, rng.choice([0, 1, 2]), rng.random() < .6)


def unusable(rng, ts):
    """A reference which cannot be enforced."""
    t = rng.choice([t for t in ts if t['fks']] or ts)
    if t['fks'] and rng.random() < .3:
        rng.choice(t['fks'])['ref'] = 'none.csv'
    elif any(f['list'] for f in t['fks']):
        names = [c['name'] for c in t['cols'] if not c['sep'] and 'fk' not in c]
        t['pk'] = [] if rng.random() < .5 else names[:2]


def session(rng):
    ts = schema(rng)
    mem = rng.random() < .5
    ev = []
    for _ in range(rng.randrange(2, 5)):
        via = rng.choice(['write', 'write', 'tg'])
        items = content(rng, ts, rng.choice([0, 0, 1]))
        if via == 'tg':
            items = csv_safe(ts, items)
        ev.append(wev(rng, items, via, force=rng.random() < .5, skip=rng.random() < .3))
        if rng.random() < .7:
            ev.append(dict(op='read', fresh=rng.random() < .5))
    if rng.random() < .08:
        unusable(rng, ts)
    return plan(tables_of(ts, rng), ev, mem, rng.choice([0, 1, 2]), rng.random() < .8,
                'yes' if not mem and rng.random() < .3 else 'no', rng.random() < .5)


def commands(rng):
    """The commands which write databases."""
    ts = schema(rng)
    ev = []
    for _ in range(rng.randrange(1, 4)):
        items = csv_safe(ts, content(rng, ts, rng.choice([0, 0, 0, 1])))
        via = rng.choice(['sqlite', 'datasette'])
        ev += [wev(rng, items, via, force=via == 'sqlite'), dict(op='read', fresh=True)]
    return plan(tables_of(ts, rng), ev, False, 0, True, rng.choice(['yes', 'no', 'no']), True)
