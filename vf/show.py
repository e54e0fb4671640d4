"""Human readable dump of a replay file."""
import sys
import json
from .core import U


def h(o):
    if isinstance(o, list):
        if len(o) and all(isinstance(x, int) and not isinstance(x, bool) and 8 < x < 0x110000 for x in o):
            s = U(o)
            return repr(s if len(s) < 100 else s[:90] + '...')
        return '[' + ', '.join(h(x) for x in o[:30]) + (', ...' if len(o) > 30 else '') + ']'
    if isinstance(o, dict):
        return '{' + ', '.join('{}: {}'.format(k, h(v)) for k, v in o.items()) + '}'
    return repr(o)


def main(p):
    v = json.load(open(p))
    print('----', p)
    print('clause  ', v['clause'])
    if v['event']:
        out = v['event'].get('out')
        print('event   ', h({k: x for k, x in v['event'].items() if k != 'out'})[:1500])
        print('recorded', h(out)[:1500])
    else:
        print('plan', h(v['plan']))
    print('expected', h(v['expected'])[:1500])


for p in sys.argv[1:]:
    main(p)
