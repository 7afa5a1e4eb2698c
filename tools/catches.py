#!/usr/bin/env python3
"""catches.py [id...]: run the property's check on a patched copy of /repo for every planted bug."""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

S = os.environ.get('SEED_OUT', '/verif/seeded')


def one(b):
    d = os.path.join(S, b)
    m = json.load(open(d + '/meta.json'))
    tree = f'/tmp/catch_{b}'
    shutil.rmtree(tree, ignore_errors=True)
    os.makedirs(tree)
    shutil.copytree('/repo/peak', tree + '/peak')
    r = subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + tree, d + '/patch.diff'], cwd='/', capture_output=True, text=True)
    if r.returncode:
        return b, m['property'], 'NOAPPLY ' + r.stderr[:200], ''
    r = subprocess.run(['python3', '/verif/check.py', m['property']], cwd='/verif', capture_output=True, text=True,
                       env={**os.environ, 'PV_REPO': tree, 'PV_EVID': tree})
    shutil.rmtree(tree, ignore_errors=True)
    return b, m['property'], {0: 'MISSED', 1: 'caught'}.get(r.returncode, f'exit {r.returncode}'), r.stdout


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(S))
    n = {}
    with ThreadPoolExecutor(8) as ex:
        for b, p, v, out in ex.map(one, ids):
            n[v] = n.get(v, 0) + 1
            print(f'{v:8} {b} ({p})')
            if v != 'caught' or '-v' in sys.argv:
                print('    ' + '\n    '.join(out.splitlines()[:14]))
    print(n)


main()
