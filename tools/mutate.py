#!/usr/bin/env python3
"""mutate.py [options of refac.py]: small behaviour changing edits of every function of /repo/peak, one at a time; lists
the edits no obligation refutes.  Some are equivalent; the rest show what the specifications do not pin down.
Development tool."""
import ast
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import refac      # noqa: E402
from refac import name, replace, nodoc, bodies, own_locals, neg      # noqa: E402

refac.T.clear()
tr = refac.tr


def own(fn):
    """nodes of fn's own body (nested functions are visited on their own), without docstrings"""
    out = []

    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
                continue
            if isinstance(c, ast.Expr) and isinstance(c.value, ast.Call) and ast.unparse(c.value.func).startswith(('logger', 'print', 'logging', 'warnings')):
                continue
            if isinstance(c, ast.Raise) and isinstance(c.exc, ast.Call):
                out.append(c)
                continue
            if isinstance(c, ast.JoinedStr):
                continue
            if isinstance(c, ast.arg):
                continue
            out.append(c)
            go(c)
    for s in fn.body:
        go(ast.Module([s], []))
    return out


CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.FloorDiv: [ast.Mult], ast.LShift: [ast.RShift],
       ast.RShift: [ast.LShift], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.BitXor: [ast.BitOr], ast.Mod: [ast.FloorDiv],
       ast.Pow: [ast.Mult]}


@tr
def m_cmp(fn, env):
    out = []
    for n in own(fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                def go(n=n, o=o):
                    n.ops = [o()]
                out.append(go)
    return out


@tr
def m_bin(fn, env):
    out = []
    for n in own(fn):
        if isinstance(n, (ast.BinOp, ast.AugAssign)):
            for o in BIN.get(type(n.op), []):
                def go(n=n, o=o):
                    n.op = o()
                out.append(go)
    return out


@tr
def m_bool(fn, env):
    out = []
    for n in own(fn):
        if isinstance(n, ast.BoolOp):
            def go(n=n):
                n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            out.append(go)
            for i in range(len(n.values)):
                def go(n=n, i=i):
                    v = n.values[:i] + n.values[i + 1:]
                    replace(fn, n, v[0] if len(v) == 1 else ast.BoolOp(n.op, v))
                out.append(go)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert)):
            def go(n=n):
                replace(fn, n, n.operand)
            out.append(go)
    return out


@tr
def m_if(fn, env):
    out = []
    for n in own(fn):
        if isinstance(n, (ast.If, ast.IfExp)):
            if isinstance(n, ast.If) and len(n.body) == 1 and isinstance(n.body[0], ast.Expr) and 'logg' in ast.unparse(n):
                continue
            for v in (True, False):
                def go(n=n, v=v):
                    n.test = ast.Constant(v)
                out.append(go)
        if isinstance(n, ast.comprehension) and n.ifs:
            def go(n=n):
                n.ifs = n.ifs[1:]
            out.append(go)
    return out


@tr
def m_const(fn, env):
    out = []
    for n in own(fn):
        if isinstance(n, ast.Constant):
            if type(n.value) is int:
                for d in (1, -1):
                    def go(n=n, d=d):
                        n.value += d
                    out.append(go)
            elif type(n.value) is bool:
                def go(n=n):
                    n.value = not n.value
                out.append(go)
            elif type(n.value) is str:
                def go(n=n):
                    n.value += 'x'
                out.append(go)
    return out


@tr
def m_swapargs(fn, env):
    out = []
    for n in own(fn):
        if isinstance(n, ast.Call):
            for i in range(len(n.args) - 1):
                def go(n=n, i=i):
                    n.args[i], n.args[i + 1] = n.args[i + 1], n.args[i]
                out.append(go)
        if isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load) and len(n.elts) == 2:
            def go(n=n):
                n.elts = n.elts[::-1]
            out.append(go)
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.LShift, ast.RShift)):
            def go(n=n):
                n.left, n.right = n.right, n.left
            out.append(go)
    return out


@tr
def m_dropkw(fn, env):
    out = []
    for n in own(fn):
        if isinstance(n, ast.Call):
            for i in range(len(n.keywords)):
                def go(n=n, i=i):
                    del n.keywords[i]
                out.append(go)
            if len(n.args) > 1:
                def go(n=n):
                    n.args.pop()
                out.append(go)
    return out


@tr
def m_name(fn, env):
    """use another local of the same function"""
    ls = sorted(own_locals(fn) - {'self', 'cls'})
    out = []
    import zlib
    for n in own(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in ls and len(ls) > 1:
            o = [x for x in ls if x != n.id]
            new = o[zlib.crc32(f'{n.id}{n.lineno}{n.col_offset}'.encode()) % len(o)]
            def go(n=n, new=new):
                n.id = new
            out.append(go)
    return out


@tr
def m_attr(fn, env):
    """another attribute this module uses"""
    import zlib
    attrs = sorted({x.attr for x in ast.walk(env['module'].tree) if isinstance(x, ast.Attribute)})
    out = []
    for n in own(fn):
        if isinstance(n, ast.Attribute) and len(attrs) > 1:
            o = [x for x in attrs if x != n.attr]
            new = o[zlib.crc32(f'{n.attr}{n.lineno}{n.col_offset}'.encode()) % len(o)]
            def go(n=n, new=new):
                n.attr = new
            out.append(go)
    return out


@tr
def m_func(fn, env):
    """call another module level function"""
    import zlib
    fs = sorted(k for k, v in env['module'].defs.items() if v[0] == 'func')
    pairs = {'max': 'min', 'min': 'max', 'any': 'all', 'all': 'any', 'issubclass': 'isinstance', 'isinstance': 'issubclass',
             'list': 'sorted', 'items': 'keys', 'keys': 'values', 'is_adt_type': 'issubclass', 'append': 'extend'}
    out = []
    for n in own(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            new = pairs.get(n.func.id)
            if new is None and n.func.id in fs and len(fs) > 1:
                o = [x for x in fs if x != n.func.id]
                new = o[zlib.crc32(f'{n.func.id}{n.lineno}'.encode()) % len(o)]
            if new:
                def go(n=n, new=new):
                    n.func.id = new
                out.append(go)
    return out


@tr
def m_delstmt(fn, env):
    out = []
    for node, f, b in bodies(fn, False):
        for i, s in enumerate(b):
            if isinstance(s, ast.Expr) and (isinstance(s.value, ast.Constant) or 'logg' in ast.unparse(s) or ast.unparse(s).startswith(('print', 'warn'))):
                continue
            if isinstance(s, (ast.Import, ast.ImportFrom, ast.Pass, ast.FunctionDef, ast.ClassDef)):
                continue
            def go(b=b, s=s):
                b[b.index(s)] = ast.Pass()
            out.append(go)
    return out


@tr
def m_swapstmt(fn, env):
    out = []
    for node, f, b in bodies(fn, False):
        for i in range(len(b) - 1):
            if isinstance(b[i], (ast.Return, ast.Raise, ast.Continue, ast.Break)) or isinstance(b[i + 1], (ast.Return, ast.Raise)):
                continue
            if 'logg' in ast.unparse(b[i]) or 'logg' in ast.unparse(b[i + 1]):
                continue
            def go(b=b, i=i):
                b[i], b[i + 1] = b[i + 1], b[i]
            out.append(go)
    return out


@tr
def m_return(fn, env):
    out = []
    for n in own(fn):
        if isinstance(n, ast.Return) and n.value is not None:
            def go(n=n):
                n.value = ast.Constant(None)
            out.append(go)
            if isinstance(n.value, ast.Call) and n.value.args and not isinstance(n.value.args[0], ast.Starred):
                def go(n=n):
                    n.value = n.value.args[0]
                out.append(go)
    return out


@tr
def m_raise(fn, env):
    out = []
    for n in own(fn):
        if isinstance(n, ast.Raise) and isinstance(n.exc, ast.Call) and isinstance(n.exc.func, ast.Name):
            def go(n=n):
                n.exc.func = name('RuntimeError' if n.exc.func.id != 'RuntimeError' else 'KeyError')
            out.append(go)
        if isinstance(n, ast.Assert):
            def go(n=n):
                n.test = ast.Constant(True)
            out.append(go)
    return out


@tr
def m_loop(fn, env):
    out = []
    for n in own(fn):
        if isinstance(n, ast.For):
            def go(n=n):
                n.body.append(ast.Break())
            out.append(go)
        if isinstance(n, (ast.For, ast.comprehension)):
            def go(n=n):
                n.iter = ast.Subscript(ast.Call(name('list'), [n.iter], []), ast.Slice(ast.Constant(1), None, None), ast.Load())
            out.append(go)
        if isinstance(n, ast.Continue):
            out.append(lambda n=n: replace(fn, n, ast.Break()) if False else repl_stmt(fn, n, ast.Break()))
        if isinstance(n, ast.Break):
            out.append(lambda n=n: repl_stmt(fn, n, ast.Continue()))
    return out


def repl_stmt(fn, old, new):
    for node, f, b in bodies(fn):
        for i, s in enumerate(b):
            if s is old:
                b[i] = new
                return


@tr
def m_slice(fn, env):
    out = []
    for n in own(fn):
        if isinstance(n, ast.Slice):
            for k in ('lower', 'upper'):
                if getattr(n, k) is not None:
                    def go(n=n, k=k):
                        setattr(n, k, ast.BinOp(getattr(n, k), ast.Add(), ast.Constant(1)))
                    out.append(go)
                    def go(n=n, k=k):
                        setattr(n, k, None)
                    out.append(go)
    return out


@tr
def m_deco(fn, env):
    out = []
    for i in range(len(fn.decorator_list)):
        def go(i=i):
            del fn.decorator_list[i]
        out.append(go)
    a = fn.args
    for i in range(len(a.defaults)):
        def go(i=i):
            d = a.defaults[i]
            if isinstance(d, ast.Constant) and type(d.value) is bool:
                d.value = not d.value
            elif isinstance(d, ast.Constant) and type(d.value) is int:
                d.value += 1
            else:
                a.defaults[i] = ast.Constant(0)
        out.append(go)
    return out


@tr
def m_starred(fn, env):
    out = []
    for n in own(fn):
        if isinstance(n, ast.Dict) and any(k is None for k in n.keys):
            def go(n=n):
                n.keys, n.values = n.keys[::-1], n.values[::-1]
            out.append(go)
            for i in range(len(n.keys)):
                def go(n=n, i=i):
                    del n.keys[i]
                    del n.values[i]
                out.append(go)
        if isinstance(n, (ast.List, ast.Tuple)) and isinstance(n.ctx, ast.Load) and any(isinstance(e, ast.Starred) for e in n.elts):
            for i in range(len(n.elts)):
                def go(n=n, i=i):
                    del n.elts[i]
                out.append(go)
        if isinstance(n, ast.DictComp):
            def go(n=n):
                n.key, n.value = n.value, n.key
            out.append(go)
    return out


if __name__ == '__main__':
    refac.MUT = True
    refac.main()
