"""Markdown descriptions of table groups."""
from vf import gen_markdown as gm
from vf.core import U
from vf.drive_markdown import execute  # noqa: F401

MODULE = 'TraceMarkdown.tla'


def events(rng):
    for _ in range(rng.choice([1, 2])):
        how = rng.choice(['path', 'str', 'cli', 'memory'])
        yield {'op': 'markdown', 'how': how, 'linked': how == 'cli' or rng.random() < .6}


def enumerated(c, emitted):
    for g in emitted:
        yield dict(mds=[t['md'] for t in g['tabs']], names=[U(t['url']) for t in g['tabs']], dat='', fks=g['fks'], there=[True, c.rng.random() < .5],
                   gprops=g['props'], tprops=[t['props'] for t in g['tabs']], mdname='md.json', ev=list(events(c.rng)))


def groups(c, n):
    for _ in range(n):
        yield dict(gm.group(c.rng), ev=list(events(c.rng)))


def check(c):
    emitted = c.model('MC_Markdown.tla', 'MC_Markdown.cfg', 'groups of two tables: kinds of columns, levels of datatypes, keys, references')
    c.conform(enumerated(c, emitted), execute, MODULE)
    c.conform(groups(c, c.n(3000, 60000)), execute, MODULE)
