"""writes specs/asserts.txt: what each function of the repository takes for granted"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pv import lints, oblig      # noqa: E402
from pv.modules import Program   # noqa: E402

p = Program()
with open(os.path.join(oblig.HERE, 'specs', 'asserts.txt'), 'w') as f:
    for m in sorted(lints.modules(p, None), key=lambda m: m.name):
        for q, tests in sorted(lints.asserted(m.tree).items()):
            for t, _ in tests:
                f.write(f'{m.name}:{q}\t{t}\n')
