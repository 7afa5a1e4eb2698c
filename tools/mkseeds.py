#!/usr/bin/env python3
"""mkseeds.py FILE...: turn bug descriptions into /verif/seeded/<id>/.

FILE is python defining BUGS = [dict(id=, prop=, edits=[(path, old, new), ...], demo=source,
needs=, breaks=)].  A bug is kept when its demo passes on /repo, fails on a patched copy, and the
stable tests still pass on the copy."""
import json
import os
import shutil
import subprocess
import sys

OUT = os.environ.get('SEED_OUT', '/verif/seeded')
DEMO_SH = '''#!/bin/bash
# exit 0: behaves; nonzero: broken.  Run with cwd = the repository.
HERE=$(cd "$(dirname "$0")" && pwd)
TMP=$(mktemp -d)
trap 'rm -rf "$TMP"' EXIT
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
cd "$TMP" && timeout 250 /opt/venv/bin/python -W ignore "$HERE/demo.py"
'''


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, cwd=cwd, env={**os.environ, **(env or {})}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def main():
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    notest = '--notest' in sys.argv
    only = [a for a in sys.argv[1:] if a.startswith('+')]
    for f in sys.argv[1:]:
        if f.startswith(('-', '+')):
            continue
        ns = {}
        exec(open(f).read(), ns)
        for b in ns['BUGS']:
            if only and '+' + b['id'] not in only:
                continue
            d = os.path.join(OUT, b['id'])
            if os.path.exists(d) and not only:
                continue
            tree = os.environ.get('SEED_TREE', '/tmp/seedtree')
            shutil.rmtree(tree, ignore_errors=True)
            shutil.copytree('/repo', tree, symlinks=True)
            ok = True
            for p, old, new in b['edits']:
                q = os.path.join(tree, p)
                s = open(q).read()
                if s.count(old) != 1:
                    print(f"{b['id']}: {p}: text occurs {s.count(old)} times")
                    ok = False
                    break
                open(q, 'w').write(s.replace(old, new))
            if not ok:
                continue
            w = os.environ.get('SEED_TREE', '/tmp/seed') + 'work'
            shutil.rmtree(w, ignore_errors=True)
            os.makedirs(w)
            open(w + '/demo.sh', 'w').write(DEMO_SH)
            open(w + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
            open(w + '/patch.diff', 'w').write(sh(['git', 'diff', '--', 'peak'], tree).stdout)
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(w + '/meta.json', 'w'), indent=1)
            good = sh(['bash', w + '/demo.sh'], '/repo')
            bad = sh(['bash', w + '/demo.sh'], tree)
            if good.returncode != 0 or bad.returncode == 0:
                print(f"{b['id']}: DEMO good={good.returncode} bad={bad.returncode}\n{good.stdout[-1500:] if good.returncode else ''}\n{bad.stdout[-500:]}")
                continue
            print(f"{b['id']}: demo ok: {bad.stdout.strip().splitlines()[-1] if bad.stdout.strip() else ''}", flush=True)
            if not notest:
                miss = None
                for _ in range(2):
                    t = sh(['bash', '/verif/tools/test_tree.sh', '/tmp/seedtest.json'], env={'TREE': tree})
                    passed = set(json.load(open('/tmp/seedtest.json'))['passed'])
                    miss = [x for x in stable if x not in passed]
                    if not miss:
                        break
                if miss:
                    print(f"{b['id']}: TESTS FAIL {miss[:5]}")
                    continue
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(w, d)
            print(f"{b['id']}: kept", flush=True)
    shutil.rmtree(os.environ.get('SEED_TREE', '/tmp/seedtree'), ignore_errors=True)


main()
