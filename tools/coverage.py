#!/usr/bin/env python3
"""Functions of /repo/peak not reached by any specification."""
import ast, os, sys
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pv import oblig, modules
from pv.modules import Program
prog = Program()
seen = set()
for s in oblig.load_specs(prog):
    for r in oblig.run_spec(prog, s):
        for q, v in getattr(r, 'funcs', {}).items():
            seen.add(q)
    seen.add(s.actual)
names = set()
for q in seen:
    names.add(str(q).replace(':', '.'))
for m in sorted(prog.modules.values(), key=lambda m: m.rel):
    if not m.rel.startswith('peak'):
        continue
    def walk(node, pre):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                q = pre + '.' + n.name
                if isinstance(n, ast.FunctionDef) and q not in names and not any(x.endswith('.' + n.name) for x in names if x.startswith(m.name) or '<' in x):
                    print(m.rel, n.lineno, q, (n.end_lineno - n.lineno + 1))
                walk(n, q)
            else:
                walk(n, pre)
    walk(m.tree, m.name)
