#!/usr/bin/env python3
"""For each repaired defect: revert the repair in a clone, and see whether the check reports it again.

usage: tools/refix.py [ID ...]     (prints: caught, MISSED, or conflict for repairs others build upon)"""
import json
import os
import pathlib
import subprocess
import sys
import tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent
known = json.loads((VERIF / 'known-findings.json').read_text())['findings']


def git(d, *args):
    return subprocess.run(['git', '-C', d] + list(args), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


with tempfile.TemporaryDirectory() as tmp:
    subprocess.check_call(['git', 'clone', '-q', '/repo', tmp + '/r'])
    git(tmp + '/r', 'config', 'user.name', 'x')
    git(tmp + '/r', 'config', 'user.email', 'x@x')
    for f in known:
        if f['status'] != 'fixed' or sys.argv[1:] and f['id'] not in sys.argv[1:]:
            continue
        git(tmp + '/r', 'reset', '--hard', '-q', 'origin/HEAD')
        if git(tmp + '/r', 'revert', '--no-edit', f['commit']).returncode:
            git(tmp + '/r', 'revert', '--abort')
            print(f['id'], f['property'], 'conflict', flush=True)
            continue
        r = subprocess.run([str(VERIF / 'run.py'), f['property']], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, VF_REPO=tmp + '/r', VF_NOEVIDENCE='1'))
        ok = r.returncode == 1 and 'VIOLATION property=' + f['property'] in r.stdout
        print(f['id'], f['property'], 'caught' if ok else 'MISSED ({})'.format(r.returncode), flush=True)
