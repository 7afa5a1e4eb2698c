"""developer driver (obligations and rules): python3 dev.py [-v] [pattern]   (PV_REPO selects the tree)"""
import sys, time
sys.setrecursionlimit(20000)
from pv import oblig, terms as tm
from pv.modules import Program
v = '-v' in sys.argv
vv = '-vv' in sys.argv
args = [a for a in sys.argv[1:] if not a.startswith('-')]
prog = Program()
specs = oblig.load_specs(prog)
n = {}
for s in specs:
    if args and not any(a in s.name or a in s.actual or a in s.all_props() for a in args):
        continue
    t = time.time()
    for r in oblig.run_spec(prog, s):
        n[r.verdict] = n.get(r.verdict, 0) + 1
        if r.verdict != 'holds' or v:
            print(f'{r.verdict:9} {s.name} part={r.part} {",".join(r.props)} [{time.time()-t:.1f}s] size={r.terms} {r.note}')
        if r.verdict != 'holds':
            for d in r.diffs[:10]:
                print('     ', d, getattr(d, 'where', None))
            if vv:
                S, _ = oblig.graph(prog, s, 'spec', s.opaque); A, _ = oblig.graph(prog, s, 'actual', s.opaque)
                if r.part is not None: S, A = oblig.project(S, r.part), oblig.project(A, r.part)
                print('   S', tm.show(S, 30)); print('   A', tm.show(A, 30))
print(n)
from pv import lints
for l in lints.ALL:
    for f in l.run(prog, None)[0]:
        print('rule', l.name, f.file, f.line, f.where, f.msg)
