"""Objects described by rows, in standard and minimal mode."""
import json
import itertools

from vf import gen_json as gj
from vf.core import T
from vf.drive_json import execute  # noqa: F401

MODULE = 'TraceJson.tla'


def relabeled(x, p):
    return {'own': [x['own'][i] for i in p], 'refs': [[x['refs'][i][j] for j in p] for i in p]}


def enumerated(c, emitted):
    if not c.thorough:
        # one of each class of isomorphic graphs
        seen = {}
        for x in emitted:
            seen.setdefault(min(json.dumps(relabeled(x, p)) for p in itertools.permutations(range(3))), []).append(x)
        emitted = [c.rng.choice(v) for v in seen.values()]
    for k, x in enumerate(emitted):
        for row in [None, 0] if c.thorough else [(None, 0)[k % 2]]:
            m, text = gj.objects(x, row)
            yield gj.plan([m], [T(text)], [gj.jev(c.rng, cli=False, minimal=b, fresh=False) for b in (False, True)], 'group')


def plans(c, n):
    for _ in range(n):
        yield gj.graphs(c.rng)


def check(c):
    emitted = c.model('MC_Graph.tla', 'MC_Graph.cfg', 'nesting all graphs of 3 objects in any order')
    if c.thorough:
        c.model('MC_Graph.tla', 'MC_Graph_deep.cfg', 'graphs of 4 objects', timeout=3400)
    c.conform(enumerated(c, emitted), execute, MODULE)
    c.conform(plans(c, c.n(1500, 20000)), execute, MODULE)
