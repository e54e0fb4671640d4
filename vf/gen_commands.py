"""Histories of commands and edits in a directory."""
PATHS = ['a.sqlite', 'out/b.sqlite', 'datasette.db', 'out/datasette.db']
MPATHS = ['datasette-metadata.json', 'out/datasette-metadata.json']
COMMANDS = ['csvwvalidate', 'csvw2json', 'csvw2datasette', 'csvw2sqlite', 'csvw2markdown', 'csvwdescribe']


def data(rng, form):
    meta = rng.choice(['ok'] * 8 + ['odd', 'bad'])
    props = {k: rng.choice(['x', 'Title of it', 'ä"\\', 'y', '']) for k in ['dc:title', 'dc:description', 'dc:license'] if rng.random() < .5}
    if form == 'bare':
        meta, props = 'ok', {}
    good = rng.random() < .7
    ids = ['1', '2', '3', '10']
    rng.shuffle(ids)
    a = [dict(id=i if good or rng.random() < .7 else rng.choice(['1', 'x', '', '2']), n=rng.choice(['', 'x', 'y z', 'ü,"']))
         for i in ids[:rng.choice([0, 1, 2, 2, 3, 4])]]
    known = [r['id'] for r in a] or ['']
    b = [dict(ref=rng.choice(known if good or rng.random() < .6 else ['1', '', 'x', '3']), v=rng.choice(['', 'u', 'v']))
         for _ in range(rng.choice([0, 1, 2, 3]))]
    bthere = rng.random() < .93
    if form != 'group':
        b = []
    if not bthere:
        b = []
    return dict(meta=meta, props=props, a=a, b=b, bthere=bthere or form != 'group')


def event(rng, form):
    op = rng.choice(['validate', 'validate', 'json', 'sqlite', 'datasette', 'edit', 'edit', 'describe', 'markdown', 'usage'])
    if op in ('sqlite', 'markdown') and form != 'group':
        op = 'datasette'
    e = dict(op=op, abs=rng.random() < .3, md=rng.random() < .5 or form == 'group', long=rng.choice([0, 1]), first=rng.random() < .5)
    if op == 'edit':
        e.update(data(rng, form))
    elif op == 'validate':
        e['verbose'] = rng.random() < .5
    elif op == 'sqlite':
        e['path'] = rng.choice(PATHS)
    elif op == 'datasette':
        out = rng.choice(['', 'out/'])
        e.update(path=out + 'datasette.db', mpath=out + 'datasette-metadata.json', long=rng.choice([0, 1, 2]))
    elif op == 'describe':
        delim = rng.choice([[], [], [';'], ['|'], [','], [' '], ['\t'], ['"']])
        k = rng.choice(['one', 'one', 'two', 'glob', 'txt'])
        names = dict(one=['x.csv'], two=['y.csv', 'x.csv'], glob=['gx.csv', 'gy.csv'], txt=['x.txt'])[k]
        cols = [['id', 'integer'], ['n', 'string'], ['v w', 'string'], ['ref', 'integer']]
        files = []
        for n in names:
            rng.shuffle(cols)
            files.append(dict(name=n, cols=[list(c) for c in cols[:rng.choice([1, 2, 3])]]))
        e.update(files=files, delim=delim, args=['g*.csv'] if k == 'glob' else names, one=k in ('one', 'txt'))
    elif op == 'usage':
        e.update(rng.choice([
            dict(command='csvwvalidate', argv=[]), dict(command='csvw2json', argv=[]), dict(command='csvw2json', argv=['md.json', '--nothing']),
            dict(command='csvw2datasette', argv=['-o', 'out']), dict(command='csvw2sqlite', argv=['md.json']), dict(command='csvw2markdown', argv=[]),
            dict(command='csvwdescribe', argv=['--delimiter', ';']), dict(command='csvwvalidate', argv=['md.json', 'a.csv'])]))
    return e


def plan(rng, process=False):
    form = rng.choice(['group', 'group', 'group', 'single', 'bare'])
    w = dict(data(rng, form), form=form)
    ev = [event(rng, form) for _ in range(rng.choice([1, 2, 3, 4, 6]) if not process else 2)]
    if process:
        for e in ev:
            e['process'] = True
    return dict(w=w, paths=PATHS, mpaths=MPATHS, ev=ev)
