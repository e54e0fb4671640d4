#!/opt/venv/bin/python
"""Decide one property:  run.py PROP [--replay FILE]"""
import os
import sys
import json
import importlib
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', TZ='UTC', LANG='C.UTF-8',
                      LC_ALL='C.UTF-8')
    os.environ.pop('PYTHONWARNINGS', None)
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', os.path.abspath(__file__)] + sys.argv[1:])

from vf import core  # noqa: E402


def main():
    prop = sys.argv[1]
    check = core.Check(prop)
    try:
        core.prepare_imports()
        mod = importlib.import_module('props.' + prop)
        if '--replay' in sys.argv:
            v = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
            check.conform([v['plan']], mod.execute, mod.MODULE)
            for x in check.violations:
                print(json.dumps(x, indent=1)[:6000])
            return 1 if check.violations else 0
        mod.check(check)
        return check.finish()
    except core.Machinery as e:
        print('MACHINERY ERROR: {}'.format(e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        check.close()


if __name__ == '__main__':
    sys.exit(main())
