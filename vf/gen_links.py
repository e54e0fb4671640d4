"""Generators of documents full of links."""
from . import gen_table as gt
from .core import T

HOSTS = ['http://h.org', 'https://www.example.com:8080', 'http://h.org']
DIRS = ['', 'd/', 'd/e/', 'd/e/f/', 'x.y/', 'd%20e/']
REFS = ['{}', 'a/{}', '../{}', './{}', '/{}', '//p.org/{}', 'http://q.org/z/{}', '../../{}', '../a/{}', 'a/../{}', 'a/b/c/{}', 'https://h.org/{}']
LOCAL = ['{}', 'c/{}', '../{}', './{}', '../c/{}', 'c/../{}', 'http://q.org/z/{}']


def ref(rng, name, local=False):
    r = rng.choice(LOCAL if local else REFS).format(name)
    if not local and name.endswith('csv') and rng.random() < .15:
        r += rng.choice(['?v=1', '?a=b/c', '?x=http://y.org/'])
    return T(r)


def document(rng, local, dat):
    base = []
    if local:
        md = 'http://root/' + rng.choice(['a/b/', 'a/', 'a/b/c/', 'a/b.v1/', 'a.d/b/']) + 'md.json'
    else:
        md = rng.choice(HOSTS) + '/' + rng.choice(DIRS) + rng.choice(['md.json', 'md', 'table.csv-metadata.json']) + rng.choice(['', '', '?q=1', '?a=b/c'])
        if rng.random() < .45:
            base = [T(rng.choice(['sub/', '../', '/abs/', 'x', 'http://o.org/b/c', '//o.org/', './', 'http://o.org', 'sub/deep/x.json', '../up/']))]
    n = rng.choice([1, 2, 2]) if dat == 'group' else 1
    dia = ['semi.json', 'pipe.json']
    tables = []
    for i in range(n):
        tables.append({'url': ref(rng, 't%d.csv' % (i + 1), local), 'schema': [ref(rng, 's.schema.json', local)] if rng.random() < .4 else [],
                       'dialect': [ref(rng, rng.choice(dia), local)] if rng.random() < .3 else []})
    return {'md': T(md), 'ctx': base, 'tables': tables,
            'dialect': [ref(rng, rng.choice(dia), local)] if dat == 'group' and rng.random() < .3 else []}


def events(rng, n, local, dat, doc, expand=True):
    hows = ['file', 'csvw'] if local else ['file', 'url', 'csvw', 'over']
    ev = []
    for _ in range(rng.choice([1, 2])):
        ev.append({'op': 'load', 'how': rng.choice(hows), 'str': rng.random() < .5})
        ev += [{'op': 'read', 't': t} for t in rng.sample(range(1, n + 1), n)]
        if not local and expand:
            for _ in range(2):
                tmpl = simple_template(rng)
                # (expanded relative to a group only if its base is known by name)
                ev.append({'op': 'expand', 't': rng.randint(0 if dat == 'group' else 1, n), 'tmpl': tmpl,
                           'bs': [[T('a'), ['s', T(rng.choice(['1', 'x y', 'ä', '']))]], [T('b'), rng.choice([['s', T('2')], []])]]})
    return ev


def simple_template(rng):
    def ex(op, *names):
        return ['ex', op, [{'n': T(n), 'x': False, 'p': 0} for n in names]]
    return rng.choice([
        [['lit', T('/path?')], ex(0, 'a'), ex(35, 'b')], [['lit', T('#')], ex(0, 'a')], [['lit', T('x/')], ex(0, 'a', 'b')],
        [['lit', T('http://y.org/')], ex(0, 'a')], [['lit', T('../p')], ex(63, 'a', 'b')], [['lit', T('schema:')], ex(0, 'b')],
        [['lit', T('p')], ex(46, 'b')], [['lit', T('dc:title')]], [ex(35, 'a')], [['lit', T('q')], ex(43, 'a')]])


def plan(rng):
    local = rng.random() < .25
    dat = rng.choice(['group', 'group', 'table'])
    doc = document(rng, local, dat)
    return dict(doc=doc, local=local, dat=dat, lang=rng.random() < .2, ev=events(rng, len(doc['tables']), local, dat, doc))
