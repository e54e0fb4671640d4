"""Which column reads which cell."""
from vf import gen_table as gt
from vf.core import T
from .tables import execute, MODULE, files, md, rows_text, reading  # noqa: F401


def enumerated(emitted):
    for x in emitted:
        if not x['header'] or x['header'] == [[]]:
            continue
        row = [T('c%d' % (i + 1)) for i in range(len(x['header']))]
        yield gt.plan([md(x['cols'])], files(rows_text([x['header'], row])),
                      [{'op': 'read', 't': 1, 'mode': x['mode'], 'src': 'default', 'meta': True, 'text': []}])


def shuffled(c, n):
    """The same table with its columns in any order, under names, titles and property URLs."""
    rng = c.rng
    for _ in range(n):
        m = gt.md(rng, ncols=rng.choice([2, 3, 4, 6]), bases=['string', 'string', 'integer', 'date'], virtual=rng.random() < .3,
                  dia=gt.dialect(rng) if rng.random() < .2 else dict(gt.gd.CSVW))
        ev = [gt.read_op(rng, mode=rng.choice(['strict', 'log']), src='text', text=T(gt.text(rng, m, nrows=rng.randint(1, 3), valid=.97)))
              for _ in range(4)]
        yield gt.plan([m], [gt.nofile()], ev, dat=rng.choice(['group', 'table']))


def numbers(c, n):
    """Virtual columns with URIs made of numbers, too."""
    rng = c.rng
    for _ in range(n):
        m = gt.md(rng, ncols=rng.choice([1, 2, 3]), bases=['integer', 'integer', 'string'], dia=dict(gt.gd.CSVW), virtual=False, p=.8, sep=0)
        reg = list(range(len(m['cols'])))
        usable = [h for i, h in enumerate(gt.headers(m)) if gt.dtype(m, i)['base'] in ('string', 'integer') and not gt.inherited(m, i, 'separator')
                  and h.isalnum() and h.isascii() and h != 'self']
        if not usable:
            continue
        strings = [h for i, h in zip(reg, gt.headers(m)) if gt.dtype(m, i)['base'] == 'string']
        for k in range(rng.choice([1, 2, 3])):
            m['cols'].append({'name': [T('v%d' % k)], 'titles': [], 'purl': [], 'virtual': True, 'vurl': [gt.template(rng, usable, strings, bad=.04)],
                              'lv': gt.lv()})
        ev = [gt.read_op(rng, mode=rng.choice(['strict', 'log']), src='text', text=T(gt.text(rng, m, nrows=rng.randint(1, 4), valid=.97)))
              for _ in range(3)]
        yield gt.plan([m], [gt.nofile()], ev, dat=rng.choice(['group', 'table']))


def check(c):
    emitted = c.model('MC_Match.tla', 'MC_Match.cfg', '7 descriptions x all headers of up to 3 of 9 words, strict and lenient')
    if c.thorough:
        c.model('MC_Match.tla', 'MC_Match_deep.cfg', 'headers of up to 4', timeout=3000)
    c.conform(enumerated(emitted), execute, MODULE)
    c.conform(shuffled(c, c.n(900, 12000)), execute, MODULE)
    c.conform(numbers(c, c.n(400, 6000)), execute, MODULE)
    c.conform(reading(c, c.n(900, 12000)), execute, MODULE)
    c.assumptions.append('languages of titles other than und are not compared')
