#!/usr/bin/env python3
"""refac.py [-n SITES] [-k KIND] [-c COMPOSE] [-s SEED] [-f FUNC] [--show]: semantics preserving edits of every function of
/repo/peak, one site at a time; every obligation that depends on the function must not be refuted.
Development tool: measures false alarms and how many rewrites the engine still proves."""
import ast
import copy
import os
import random
import sys
import tempfile
import time
import traceback

sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pv import oblig, modules, terms as tm, lints      # noqa: E402
from pv.modules import Program              # noqa: E402

CNT = [0]


def fresh(p='_t'):
    CNT[0] += 1
    return f'{p}{CNT[0]}'


def name(n, store=False):
    return ast.Name(n, ast.Store() if store else ast.Load())


def assign(n, v):
    return ast.Assign([name(n, True)], v)


def bodies(fn, nested=True):
    """all statement lists inside fn"""
    out = []

    def go(node):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                out.append((node, f, b))
                for s in b:
                    if nested or not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        go(s)
        for h in getattr(node, 'handlers', []):
            go(h)
    go(fn)
    return out


def stored(node):
    s = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            s.add(n.id)
        elif isinstance(n, ast.arg):
            s.add(n.arg)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            s.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            s.add(n.name)
        elif isinstance(n, (ast.Nonlocal, ast.Global)):
            s |= set(n.names)
    return s


def loads(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


def own_locals(fn):
    """names bound directly in fn"""
    s = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
    if fn.args.vararg:
        s.add(fn.args.vararg.arg)
    if fn.args.kwarg:
        s.add(fn.args.kwarg.arg)

    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                s.add(c.name)
                continue
            if isinstance(c, ast.Lambda):
                continue
            if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                s.add(c.id)
            if isinstance(c, ast.ExceptHandler) and c.name:
                s.add(c.name)
            if isinstance(c, (ast.Import, ast.ImportFrom)):
                s.update((a.asname or a.name).split('.')[0] for a in c.names)
            go(c)
    for st in fn.body:
        go(ast.Module([st], []))
    return s


def terminates(b):
    if not b:
        return False
    l = b[-1]
    if isinstance(l, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    if isinstance(l, ast.If):
        return terminates(l.body) and bool(l.orelse) and terminates(l.orelse)
    return False


def neg(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    return ast.UnaryOp(ast.Not(), t)


def has(node, *ts):
    return any(isinstance(n, ts) for n in ast.walk(node))


def is_call(e, *names):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in names


def has_ctl(b):
    """break or continue of the enclosing loop"""
    def go(n):
        if isinstance(n, (ast.Break, ast.Continue)):
            return True
        if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
            return any(go(c) for c in getattr(n, 'orelse', []))
        return any(go(c) for c in ast.iter_child_nodes(n))
    return any(go(s) for s in b)


T = {}
MUT = False


def tr(f):
    T[f.__name__] = f
    return f


def nodoc(b):
    return 1 if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str) else 0


# each transform: (fn copy, env) -> list of thunks that edit the copy in place

@tr
def noop(fn, env):
    out = []
    for node, f, b in bodies(fn):
        for i in range(nodoc(b), len(b) + 1):
            if i and terminates(b[:i]):
                continue
            for mk in (lambda: ast.Pass(), lambda: assign('_unused', ast.Constant(0)), lambda: ast.If(ast.Constant(False), [ast.Pass()], []),
                       lambda: ast.Expr(ast.Constant('note')), lambda: ast.Assert(ast.Constant(True))):
                out.append(lambda b=b, i=i, mk=mk: b.insert(i, mk()))
    return out


def eager(e, out, parent, field, idx=None):
    """(parent, field, idx, expr) of sub expressions that are always evaluated with the statement"""
    if not isinstance(e, ast.expr):
        return
    if isinstance(getattr(e, 'ctx', None), (ast.Store, ast.Del)):
        if isinstance(e, ast.Attribute):
            return
        if isinstance(e, ast.Subscript):
            return
        return
    if isinstance(e, (ast.Call, ast.Attribute, ast.BinOp, ast.Subscript, ast.Compare, ast.ListComp, ast.DictComp, ast.Tuple, ast.List, ast.IfExp, ast.BoolOp, ast.JoinedStr, ast.UnaryOp)):
        out.append((parent, field, idx, e))
    if isinstance(e, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Yield)):
        return
    if isinstance(e, ast.IfExp):
        eager(e.test, out, e, 'test')
        return
    if isinstance(e, ast.BoolOp):
        eager(e.values[0], out, e, 'values', 0)
        return
    if isinstance(e, ast.Compare) and len(e.ops) > 1:
        eager(e.left, out, e, 'left')
        return
    if isinstance(e, ast.JoinedStr):
        return
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'super':
        return
    for fld, v in ast.iter_fields(e):
        if fld in ('ctx', 'op', 'ops'):
            continue
        if isinstance(e, ast.Call) and fld == 'func' and isinstance(v, ast.Attribute):
            eager(v.value, out, v, 'value')
            continue
        if isinstance(v, ast.expr):
            if isinstance(v, ast.Slice) or isinstance(v, ast.Starred):
                continue
            eager(v, out, e, fld)
        elif isinstance(v, list):
            for i, x in enumerate(v):
                if isinstance(x, ast.keyword):
                    if x.arg is not None:
                        eager(x.value, out, x, 'value')
                elif isinstance(x, ast.expr) and not isinstance(x, ast.Starred):
                    eager(x, out, e, fld, i)


def stmt_exprs(s):
    out = []
    if isinstance(s, (ast.Return, ast.Expr, ast.Assign, ast.AugAssign)):
        if s.value is not None and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
            eager(s.value, out, s, 'value')
    elif isinstance(s, ast.If):
        eager(s.test, out, s, 'test')
    elif isinstance(s, ast.For):
        eager(s.iter, out, s, 'iter')
    elif isinstance(s, ast.Raise) and s.exc is not None:
        for fld in ():
            pass
    return out


def put(p, f, i, v):
    if i is None:
        setattr(p, f, v)
    else:
        getattr(p, f)[i] = v


@tr
def extract_local(fn, env):
    out = []
    for node, f, b in bodies(fn):
        for i, s in enumerate(b):
            for p, fl, ix, e in stmt_exprs(s):
                if p is s and isinstance(s, (ast.Assign, ast.Expr)):
                    continue
                def go(b=b, s=s, p=p, fl=fl, ix=ix, e=e):
                    n = fresh()
                    put(p, fl, ix, name(n))
                    b.insert([x is s for x in b].index(True), assign(n, e))
                out.append(go)
    return out


@tr
def inline_local(fn, env):
    out = []
    for node, f, b in bodies(fn):
        for i, s in enumerate(b[:-1]):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                n = s.targets[0].id
                uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == n]
                if len(uses) != 2 or n in env['nonlocals'](fn):
                    continue
                for p, fl, ix, e in _name_sites(b[i + 1]):
                    if e.id == n:
                        def go(b=b, s=s, p=p, fl=fl, ix=ix):
                            put(p, fl, ix, s.value)
                            b.remove(s)
                        out.append(go)
    return out


def _name_sites(s):
    out = []

    def go(e, p, f, i=None):
        if isinstance(e, ast.Name) and isinstance(e.ctx, ast.Load):
            out.append((p, f, i, e))
            return
        if isinstance(e, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        for fld, v in ast.iter_fields(e):
            if isinstance(v, ast.AST):
                go(v, e, fld)
            elif isinstance(v, list):
                for k, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        go(x, e, fld, k)
    if isinstance(s, (ast.Return, ast.Expr, ast.Assign)) and s.value is not None:
        go(s.value, s, 'value')
    elif isinstance(s, ast.If):
        go(s.test, s, 'test')
    elif isinstance(s, ast.For):
        go(s.iter, s, 'iter')
    return out


@tr
def return_var(fn, env):
    out = []
    for node, f, b in bodies(fn):
        for s in b:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Name):
                def go(b=b, s=s):
                    n = fresh('res')
                    b.insert(b.index(s), assign(n, s.value))
                    s.value = name(n)
                out.append(go)
    return out


@tr
def rename(fn, env):
    ls = sorted(own_locals(fn) - {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)})
    out = []
    banned = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.Nonlocal, ast.Global)):
            banned |= set(n.names)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            banned |= {(a.asname or a.name).split('.')[0] for a in n.names}
    for l in ls:
        if l in banned or any(isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == l for n in ast.walk(fn)):
            continue
        def go(l=l):
            new = l + '_renamed'
            def ren(n, top=False):
                if isinstance(n, ast.FunctionDef) and not top and l in own_locals(n):
                    for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                        ren(d)
                    return
                if isinstance(n, ast.Lambda) and any(a.arg == l for a in ast.walk(n.args) if isinstance(a, ast.arg)):
                    return
                if isinstance(n, ast.Name) and n.id == l:
                    n.id = new
                if isinstance(n, ast.ExceptHandler) and n.name == l:
                    n.name = new
                for c in ast.iter_child_nodes(n):
                    ren(c)
            for s in fn.body:
                ren(s)
        out.append(go)
    return out


@tr
def rename_inner(fn, env):
    """rename a nested function (not one whose name is observable)"""
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.FunctionDef) and n is not fn:
            l = n.name
            if l.startswith('__') or sum(1 for x in ast.walk(fn) if isinstance(x, ast.FunctionDef) and x.name == l) > 1:
                continue
            if any(isinstance(x, ast.ClassDef) for x in ast.walk(fn)) or n.decorator_list:
                continue
            if any(isinstance(x, ast.Attribute) and x.attr in ('__name__', '__qualname__') for x in ast.walk(fn)):
                continue
            def go(n=n, l=l):
                for x in ast.walk(fn):
                    if isinstance(x, ast.Name) and x.id == l:
                        x.id = '_' + l
                n.name = '_' + l
            out.append(go)
    return out


@tr
def invert_if(fn, env):
    out = []
    for node, f, b in bodies(fn):
        for s in b:
            if isinstance(s, ast.If) and s.orelse:
                def go(s=s):
                    s.test, s.body, s.orelse = neg(s.test), s.orelse, s.body
                out.append(go)
    return out


@tr
def else_after_return(fn, env):
    out = []
    for node, f, b in bodies(fn):
        for i, s in enumerate(b[:-1]):
            if isinstance(s, ast.If) and not s.orelse and terminates(s.body):
                def go(b=b, s=s):
                    k = b.index(s)
                    s.orelse = b[k + 1:]
                    del b[k + 1:]
                out.append(go)
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and s.orelse and terminates(s.body):
                def go(b=b, s=s):
                    k = b.index(s)
                    b[k + 1:k + 1] = s.orelse
                    s.orelse = []
                out.append(go)
            if isinstance(s, ast.If) and s.orelse and i == len(b) - 1 and terminates(s.orelse) and not terminates(s.body):
                def go(b=b, s=s):
                    k = b.index(s)
                    body = s.body
                    s.test, s.body, s.orelse = neg(s.test), s.orelse, []
                    b[k + 1:k + 1] = body
                out.append(go)
    return out


@tr
def guard_return(fn, env):
    """if c: A (last statement of a function) -> if not c: return; A   (and loops: continue)"""
    out = []
    for node, f, b in bodies(fn):
        if not b or not isinstance(b[-1], ast.If) or b[-1].orelse:
            continue
        s = b[-1]
        if isinstance(node, ast.FunctionDef) and f == 'body':
            mk = lambda: ast.Return(None)
        elif isinstance(node, ast.For) and f == 'body':
            mk = lambda: ast.Continue()
        else:
            continue
        def go(b=b, s=s, mk=mk):
            b.pop()
            body = s.body
            s.test, s.body = neg(s.test), [mk()]
            b.append(s)
            b.extend(body)
        out.append(go)
    return out


@tr
def unguard(fn, env):
    """if c: continue; rest -> if not c: rest"""
    out = []
    for node, f, b in bodies(fn):
        if not (isinstance(node, ast.For) and f == 'body'):
            continue
        for s in b[:-1]:
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], ast.Continue):
                def go(b=b, s=s):
                    k = b.index(s)
                    rest = b[k + 1:]
                    del b[k + 1:]
                    if len(s.body) == 1:
                        s.test, s.body = neg(s.test), rest
                    else:
                        s.body.pop()
                        s.orelse = rest
                out.append(go)
    return out


@tr
def ternary(fn, env):
    out = []
    for node, f, b in bodies(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, ast.IfExp):
                def go(b=b, s=s):
                    v = s.value
                    x, y = copy.deepcopy(s), copy.deepcopy(s)
                    x.value, y.value = v.body, v.orelse
                    b[b.index(s)] = ast.If(v.test, [x], [y])
                out.append(go)
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
                x, y = s.body[0], s.orelse[0]
                if isinstance(x, ast.Return) and isinstance(y, ast.Return) and x.value and y.value:
                    def go(b=b, s=s, x=x, y=y):
                        b[b.index(s)] = ast.Return(ast.IfExp(s.test, x.value, y.value))
                    out.append(go)
                if isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and ast.dump(x.targets[0]) == ast.dump(y.targets[0]) and isinstance(x.targets[0], ast.Name):
                    def go(b=b, s=s, x=x, y=y):
                        b[b.index(s)] = ast.Assign(x.targets, ast.IfExp(s.test, x.value, y.value))
                    out.append(go)
            if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Return) and s.body[0].value is not None \
                    and i + 1 < len(b) and isinstance(b[i + 1], ast.Return) and b[i + 1].value is not None:
                def go(b=b, s=s):
                    k = b.index(s)
                    b[k:k + 2] = [ast.Return(ast.IfExp(s.test, s.body[0].value, b[k + 1].value))]
                out.append(go)
    # ternary anywhere: invert
    for n in ast.walk(fn):
        if isinstance(n, ast.IfExp):
            def go(n=n):
                n.test, n.body, n.orelse = neg(n.test), n.orelse, n.body
            out.append(go)
    return out


@tr
def default_then_override(fn, env):
    """if c: x = a else: x = b   ->  x = b; if c: x = a  (b a name or constant)"""
    out = []
    for node, f, b in bodies(fn):
        for s in b:
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) for x in s.body + s.orelse):
                x, y = s.body[0], s.orelse[0]
                if x.targets[0].id == y.targets[0].id and isinstance(y.value, (ast.Name, ast.Constant)) and x.targets[0].id not in loads(s):
                    def go(b=b, s=s, y=y):
                        b.insert(b.index(s), y)
                        s.orelse = []
                    out.append(go)
    return out


@tr
def comp_to_loop(fn, env):
    out = []
    for node, f, b in bodies(fn):
        for s in b:
            for p, fl, ix, e in stmt_exprs(s) + _gens(s):
                base = e
                if isinstance(e, (ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)):
                    if has(e, ast.NamedExpr):
                        continue
                    def go(b=b, s=s, p=p, fl=fl, ix=ix, e=e):
                        n = fresh('acc')
                        ren = {}
                        for g in e.generators:
                            for x in ast.walk(g.target):
                                if isinstance(x, ast.Name):
                                    ren[x.id] = x.id + '_l'
                        e = copy.deepcopy(e)
                        first = e.generators[0].iter
                        for x in ast.walk(e):
                            if isinstance(x, ast.Name) and x.id in ren and not any(x is y for y in ast.walk(first)):
                                x.id = ren[x.id]
                        if isinstance(e, ast.DictComp):
                            init = ast.Dict([], [])
                            inner = [ast.Assign([ast.Subscript(name(n), e.key, ast.Store())], e.value)]
                        elif isinstance(e, ast.SetComp):
                            init = ast.Call(name('set'), [], [])
                            inner = [ast.Expr(ast.Call(ast.Attribute(name(n), 'add', ast.Load()), [e.elt], []))]
                        else:
                            init = ast.List([], ast.Load())
                            inner = [ast.Expr(ast.Call(ast.Attribute(name(n), 'append', ast.Load()), [e.elt], []))]
                        for g in reversed(e.generators):
                            for c in reversed(g.ifs):
                                inner = [ast.If(c, inner, [])]
                            inner = [ast.For(g.target, g.iter, inner, [])]
                        k = b.index(s)
                        put(p, fl, ix, name(n))
                        b[k:k] = [assign(n, init)] + inner
                    out.append(go)
    return out


def _gens(s):
    """generator arguments of eager calls that consume all of it"""
    out = []
    tmp = []
    if isinstance(s, (ast.Return, ast.Expr, ast.Assign)) and s.value is not None:
        eager(s.value, tmp, s, 'value')
    elif isinstance(s, ast.If):
        eager(s.test, tmp, s, 'test')
    for p, f, i, e in tmp:
        if isinstance(e, ast.Call) and len(e.args) == 1 and isinstance(e.args[0], ast.GeneratorExp) \
                and (isinstance(e.func, ast.Name) and e.func.id in ('sum', 'max', 'min', 'tuple', 'list', 'set', 'dict', 'or_reduce', 'and_reduce', 'And', 'Or', 'sorted')
                     or isinstance(e.func, ast.Attribute) and e.func.attr == 'join'):
            out.append((e, 'args', 0, e.args[0]))
    return out


@tr
def loop_to_comp(fn, env):
    out = []
    for node, f, b in bodies(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.For) and not s.orelse and i:
                # L = [] directly before
                body, conds = s.body, []
                while len(body) == 1 and isinstance(body[0], ast.If) and not body[0].orelse:
                    conds.append(body[0].test)
                    body = body[0].body
                if len(body) != 1:
                    continue
                x = body[0]
                prev = b[i - 1]
                if not (isinstance(prev, ast.Assign) and len(prev.targets) == 1 and isinstance(prev.targets[0], ast.Name)):
                    continue
                L = prev.targets[0].id
                if L in loads(s.iter) or any(L in loads(c) for c in conds):
                    continue
                gen = ast.comprehension(s.target, s.iter, conds, 0)
                e = None
                if isinstance(prev.value, ast.List) and not prev.value.elts and isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) \
                        and isinstance(x.value.func, ast.Attribute) and x.value.func.attr == 'append' and isinstance(x.value.func.value, ast.Name) and x.value.func.value.id == L \
                        and L not in loads(x.value.args[0]):
                    e = ast.ListComp(x.value.args[0], [gen])
                if isinstance(prev.value, ast.Dict) and not prev.value.keys and isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Subscript) \
                        and isinstance(x.targets[0].value, ast.Name) and x.targets[0].value.id == L and L not in loads(x.value) and L not in loads(x.targets[0].slice):
                    e = ast.DictComp(x.targets[0].slice, x.value, [gen])
                if e is None:
                    continue
                tg = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
                if any(isinstance(n, ast.Name) and n.id in tg and isinstance(n.ctx, ast.Load) for st in b[i + 1:] for n in ast.walk(st)):
                    continue
                def go(b=b, s=s, prev=prev, e=e):
                    prev.value = e
                    b.remove(s)
                out.append(go)
    return out


@tr
def enumerate_to_counter(fn, env):
    out = []
    for node, f, b in bodies(fn):
        for s in b:
            if isinstance(s, ast.For) and is_call(s.iter, 'enumerate') and len(s.iter.args) == 1 and isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name):
                if has_ctl(s.body):
                    continue
                i = s.target.elts[0].id
                if any(i in stored(x) for x in s.body) or any(i in loads(x) for x in b[b.index(s) + 1:]):
                    continue
                def go(b=b, s=s, i=i):
                    b.insert(b.index(s), assign(i, ast.Constant(0)))
                    s.target = s.target.elts[1]
                    s.iter = s.iter.args[0]
                    s.body.append(ast.AugAssign(name(i, True), ast.Add(), ast.Constant(1)))
                out.append(go)
                def go(s=s):
                    x = fresh('pair')
                    s.body.insert(0, ast.Assign([s.target], name(x)))
                    s.target = name(x, True)
                out.append(go)
    return out


@tr
def range_len_to_enumerate(fn, env):
    out = []
    for node, f, b in bodies(fn):
        for s in b:
            if isinstance(s, ast.For) and is_call(s.iter, 'range') and len(s.iter.args) == 1 and is_call(s.iter.args[0], 'len') and isinstance(s.target, ast.Name):
                def go(s=s):
                    s.iter = ast.Call(name('enumerate'), [s.iter.args[0].args[0]], [])
                    s.target = ast.Tuple([s.target, name('_x', True)], ast.Store())
                out.append(go)
    return out


@tr
def unpack_in_body(fn, env):
    out = []
    for node, f, b in bodies(fn):
        for s in b:
            if isinstance(s, ast.For) and isinstance(s.target, ast.Tuple):
                def go(s=s):
                    x = fresh('item')
                    t = s.target
                    if all(isinstance(e, ast.Name) for e in t.elts):
                        s.body[:0] = [ast.Assign([e], ast.Subscript(name(x), ast.Constant(k), ast.Load())) for k, e in enumerate(t.elts)]
                    else:
                        s.body.insert(0, ast.Assign([t], name(x)))
                    s.target = name(x, True)
                out.append(go)
            if isinstance(s, ast.For) and isinstance(s.target, ast.Tuple) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) \
                    and s.iter.func.attr == 'items' and not s.iter.args and len(s.target.elts) == 2 and isinstance(s.target.elts[0], ast.Name):
                def go(s=s):
                    d = s.iter.func.value
                    k, v = s.target.elts
                    s.iter = ast.Call(ast.Attribute(d, 'keys', ast.Load()), [], [])
                    s.target = k
                    s.body.insert(0, ast.Assign([v], ast.Subscript(copy.deepcopy(d), name(k.id), ast.Load())))
                if isinstance(s.iter.func.value, (ast.Name, ast.Attribute)) and not stored(s.target) & loads(s.iter):
                    out.append(go)
    return out


@tr
def while_loop(fn, env):
    out = []
    for node, f, b in bodies(fn):
        for s in b:
            if isinstance(s, ast.For) and is_call(s.iter, 'range') and len(s.iter.args) == 1 and isinstance(s.target, ast.Name) and not s.orelse and not has_ctl(s.body):
                def go(b=b, s=s):
                    k = b.index(s)
                    i = s.target.id
                    n = fresh('n')
                    b[k:k + 1] = [assign(n, s.iter.args[0]), assign(i, ast.Constant(0)),
                                  ast.While(ast.Compare(name(i), [ast.Lt()], [name(n)]), s.body + [ast.AugAssign(name(i, True), ast.Add(), ast.Constant(1))], [])]
                if s.target.id not in stored(ast.Module(s.body, [])) and not any(s.target.id in loads(x) for x in b[b.index(s) + 1:]):
                    out.append(go)
    return out


@tr
def demorgan(fn, env):
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.BoolOp) and env['istest'](fn, n):
            def go(n=n):
                op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
                new = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [neg(v) for v in n.values]))
                replace(fn, n, new)
            out.append(go)
    return out


def replace(root, old, new):
    for p in ast.walk(root):
        for fld, v in ast.iter_fields(p):
            if v is old:
                setattr(p, fld, new)
                return True
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if x is old:
                        v[i] = new
                        return True
    return False


@tr
def split_and(fn, env):
    out = []
    for node, f, b in bodies(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp):
                if isinstance(s.test.op, ast.And):
                    def go(s=s):
                        t = s.test.values
                        s.body = [ast.If(t[-1] if len(t) == 2 else ast.BoolOp(ast.And(), t[1:]), s.body, [])]
                        s.test = t[0]
                    out.append(go)
                elif terminates(s.body):
                    def go(b=b, s=s):
                        t = s.test.values
                        k = b.index(s)
                        b[k:k + 1] = [ast.If(v, copy.deepcopy(s.body), []) for v in t]
                    out.append(go)
            if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse:
                def go(s=s):
                    s.test = ast.BoolOp(ast.And(), [s.test, s.body[0].test])
                    s.body = s.body[0].body
                out.append(go)
    return out


@tr
def cmp_form(fn, env):
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = n.ops[0]
            if isinstance(o, ast.NotIn):
                out.append(lambda n=n: replace(fn, n, ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.In()], n.comparators))))
            if isinstance(o, ast.IsNot):
                out.append(lambda n=n: replace(fn, n, ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.Is()], n.comparators))))
            if isinstance(o, (ast.Is, ast.IsNot)):
                def go(n=n):
                    n.left, n.comparators[0] = n.comparators[0], n.left
                out.append(go)
            if isinstance(o, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
                def go(n=n, o=o):
                    n.left, n.comparators[0] = n.comparators[0], n.left
                    n.ops[0] = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[type(o)]()
                out.append(go)
            if isinstance(o, ast.NotEq) and env['istest'](fn, n):
                if isinstance(n.comparators[0], ast.Constant) or is_call(n.left, 'len', 'set') or is_call(n.comparators[0], 'len', 'set'):
                    out.append(lambda n=n: replace(fn, n, ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.Eq()], n.comparators))))
            if isinstance(o, ast.Eq) and isinstance(n.comparators[0], ast.Constant):
                def go(n=n):
                    n.left, n.comparators[0] = n.comparators[0], n.left
                if not isinstance(n.left, ast.Constant) and env['istest'](fn, n):
                    out.append(go)
        elif isinstance(n, ast.Compare) and len(n.ops) == 2:
            def go(n=n):
                replace(fn, n, ast.BoolOp(ast.And(), [ast.Compare(n.left, [n.ops[0]], [n.comparators[0]]), ast.Compare(copy.deepcopy(n.comparators[0]), [n.ops[1]], [n.comparators[1]])]))
            out.append(go)
    return out


@tr
def isinstance_form(fn, env):
    out = []
    for n in ast.walk(fn):
        if is_call(n, 'isinstance', 'issubclass', '_issubclass') and len(n.args) == 2 and isinstance(n.args[1], ast.Tuple) and n.args[1].elts:
            def go(n=n):
                replace(fn, n, ast.BoolOp(ast.Or(), [ast.Call(copy.deepcopy(n.func), [copy.deepcopy(n.args[0]), e], []) for e in n.args[1].elts]))
            out.append(go)
        if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or) and len(n.values) >= 2:
            a, b = n.values[0], n.values[1]
            if is_call(a, 'isinstance', 'issubclass') and is_call(b, a.func.id) and ast.dump(a.args[0]) == ast.dump(b.args[0]):
                def go(n=n, a=a, b=b):
                    es = []
                    for x in (a, b):
                        es += x.args[1].elts if isinstance(x.args[1], ast.Tuple) else [x.args[1]]
                    new = ast.Call(a.func, [a.args[0], ast.Tuple(es, ast.Load())], [])
                    if len(n.values) == 2:
                        replace(fn, n, new)
                    else:
                        n.values[:2] = [new]
                out.append(go)
    return out


@tr
def literals(fn, env):
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.Dict) and not n.keys:
            out.append(lambda n=n: replace(fn, n, ast.Call(name('dict'), [], [])))
        if isinstance(n, ast.List) and not n.elts and isinstance(n.ctx, ast.Load):
            out.append(lambda n=n: replace(fn, n, ast.Call(name('list'), [], [])))
        if is_call(n, 'tuple', 'list', 'set', 'sum', 'max', 'min', 'sorted') and len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp):
            def go(n=n):
                g = n.args[0]
                n.args[0] = ast.ListComp(g.elt, g.generators)
            out.append(go)
            if n.func.id in ('list', 'set'):
                def go(n=n):
                    g = n.args[0]
                    replace(fn, n, (ast.ListComp if n.func.id == 'list' else ast.SetComp)(g.elt, g.generators))
                out.append(go)
        if is_call(n, 'tuple', 'list', 'set', 'sum', 'max', 'min', 'all', 'any') and len(n.args) == 1 and isinstance(n.args[0], ast.ListComp):
            def go(n=n):
                g = n.args[0]
                n.args[0] = ast.GeneratorExp(g.elt, g.generators)
            out.append(go)
        if isinstance(n, ast.ListComp):
            def go(n=n):
                replace(fn, n, ast.Call(name('list'), [ast.GeneratorExp(n.elt, n.generators)], []))
            out.append(go)
        if isinstance(n, ast.DictComp):
            def go(n=n):
                replace(fn, n, ast.Call(name('dict'), [ast.GeneratorExp(ast.Tuple([n.key, n.value], ast.Load()), n.generators)], []))
            out.append(go)
    return out


@tr
def fstring(fn, env):
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.JoinedStr) and all(isinstance(v, ast.Constant) or isinstance(v, ast.FormattedValue) and v.conversion == -1 and v.format_spec is None for v in n.values):
            def go(n=n):
                fmt = ''.join(v.value.replace('{', '{{').replace('}', '}}') if isinstance(v, ast.Constant) else '{}' for v in n.values)
                replace(fn, n, ast.Call(ast.Attribute(ast.Constant(fmt), 'format', ast.Load()), [v.value for v in n.values if not isinstance(v, ast.Constant)], []))
            out.append(go)
    return out


@tr
def augassign(fn, env):
    out = []
    for node, f, b in bodies(fn):
        for s in b:
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                inits = [x.value for x in ast.walk(fn) if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == s.target.id]
                if inits and all(isinstance(v, ast.Constant) for v in inits):
                    def go(b=b, s=s):
                        b[b.index(s)] = ast.Assign([s.target], ast.BinOp(name(s.target.id), s.op, s.value))
                    out.append(go)
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.BinOp) and isinstance(s.targets[0], ast.Name) and isinstance(s.value.left, ast.Name) and s.value.left.id == s.targets[0].id \
                    and isinstance(s.value.op, (ast.Add, ast.Sub, ast.BitOr, ast.BitAnd)):
                inits = [x.value for x in ast.walk(fn) if isinstance(x, ast.Assign) and x is not s and isinstance(x.targets[0], ast.Name) and x.targets[0].id == s.targets[0].id]
                if inits and all(isinstance(v, ast.Constant) for v in inits):
                    def go(b=b, s=s):
                        b[b.index(s)] = ast.AugAssign(s.targets[0], s.value.op, s.value.right)
                    out.append(go)
    return out


@tr
def alias_attr(fn, env):
    """hoist a repeated attribute chain of a parameter into a local at the top"""
    out = []
    ps = [a.arg for a in fn.args.args]
    cands = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ps and isinstance(n.ctx, ast.Load):
            cands.setdefault((n.value.id, n.attr), []).append(n)
    wr = {(n.value.id, n.attr) for n in ast.walk(fn) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and isinstance(n.ctx, ast.Store)}
    called = {(n.func.value.id, n.func.attr) for n in ast.walk(fn) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name)}
    sto = set()
    for st in fn.body:
        sto |= stored(st)
    for (p, a), ns in cands.items():
        if (p, a) in wr or (p, a) in called or p in sto:
            continue
        first = fn.body[nodoc(fn.body)] if len(fn.body) > nodoc(fn.body) else None
        if first is None or not any(n is x for x in ast.walk(first) for n in ns):
            continue
        if isinstance(first, (ast.FunctionDef, ast.For, ast.Try, ast.With, ast.While)):
            continue
        if isinstance(first, ast.If) and not any(n is x for x in ast.walk(first.test) for n in ns):
            continue
        def go(p=p, a=a, ns=ns):
            l = fresh(a.strip('_') + '_')
            src = ast.Attribute(name(p), a, ast.Load())
            for n in ns:
                replace(fn, n, name(l))
            fn.body.insert(nodoc(fn.body), assign(l, src))
        out.append(go)
    return out


@tr
def swap_stmts(fn, env):
    out = []
    for node, f, b in bodies(fn):
        for i in range(nodoc(b), len(b) - 1):
            x, y = b[i], b[i + 1]
            if all(isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets) for s in (x, y)):
                if stored(x) & (stored(y) | loads(y)) or stored(y) & loads(x):
                    continue
                if has(x, ast.Await, ast.Yield) or has(y, ast.Yield):
                    continue
                # both calls of unknown functions: order could matter
                cx, cy = has(x.value, ast.Call), has(y.value, ast.Call)
                if cx and cy:
                    continue
                def go(b=b, x=x, y=y):
                    i = b.index(x)
                    b[i], b[i + 1] = y, x
                out.append(go)
            if isinstance(x, ast.FunctionDef) and isinstance(y, ast.FunctionDef) and x.name != y.name and not x.decorator_list and not y.decorator_list \
                    and not x.args.defaults and not y.args.defaults:
                def go(b=b, x=x, y=y):
                    i = b.index(x)
                    b[i], b[i + 1] = y, x
                out.append(go)
    return out


@tr
def helper_expr(fn, env):
    """an expression moves into a new module level function of the locals it reads"""
    out = []
    if env['nested']:
        pass
    loc = env['scope']
    for node, f, b in bodies(fn, False):
        for s in b:
            for p, fl, ix, e in stmt_exprs(s):
                if isinstance(e, (ast.Tuple, ast.List, ast.Attribute)) or has(e, ast.Yield, ast.Await):
                    continue
                if any(is_call(x, 'super') for x in ast.walk(e)) or '__class__' in loads(e):
                    continue
                bound = set()
                for x in ast.walk(e):
                    if isinstance(x, ast.comprehension):
                        bound |= stored(x.target)
                    if isinstance(x, ast.Lambda):
                        bound |= {a.arg for a in ast.walk(x.args) if isinstance(a, ast.arg)}
                free = sorted((loads(e) & loc) - bound)
                if bound & loc & loads(e):
                    continue
                def go(p=p, fl=fl, ix=ix, e=e, free=free):
                    h = fresh('_helper')
                    put(p, fl, ix, ast.Call(name(h), [name(x) for x in free], []))
                    env['add'](ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in free], None, [], [], None, []), [ast.Return(e)], [], None, None))
                out.append(go)
    return out


@tr
def helper_block(fn, env):
    """a run of simple statements moves into a module level function returning what is used later"""
    out = []
    loc = env['scope']
    for node, f, b in bodies(fn, False):
        if not isinstance(node, ast.FunctionDef) or node is not fn:
            continue
        for i in range(nodoc(b), len(b)):
            for j in range(i + 1, min(len(b), i + 4) + 1):
                blk = b[i:j]
                if any(has(s, ast.Return, ast.Yield, ast.YieldFrom, ast.FunctionDef, ast.ClassDef, ast.Nonlocal, ast.Lambda, ast.Try, ast.With, ast.Import, ast.ImportFrom) for s in blk) or has_ctl(blk):
                    continue
                if any(is_call(x, 'super') for s in blk for x in ast.walk(s)):
                    continue
                mod = ast.Module(blk, [])
                st = {n.id for n in ast.walk(mod) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                comp = set()
                for x in ast.walk(mod):
                    if isinstance(x, ast.comprehension):
                        comp |= stored(x.target)
                later = set()
                for s in b[j:]:
                    later |= loads(s)
                # closures defined earlier must not see the assigned names
                if any(isinstance(x, (ast.FunctionDef, ast.Lambda)) and loads(x) & st for s in b for x in ast.walk(s)):
                    continue
                # conditionally assigned names: must be assigned at top level of the block
                top = set()
                for s in blk:
                    if isinstance(s, ast.Assign):
                        top |= stored(s)
                res = sorted((st - comp) & later)
                if not set(res) <= top or (comp & st & later):
                    continue
                defined_before = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
                for s in b[:i]:
                    defined_before |= own_locals(ast.FunctionDef('_', ast.arguments([], [], None, [], [], None, []), [s], [], None, None))
                free = sorted((loads(mod) | {n.target.id for n in ast.walk(mod) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}) & (defined_before | env['outer']) )
                if any(isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) for s in blk):
                    continue
                def go(b=b, i=i, j=j, blk=blk, res=res, free=free):
                    h = fresh('_block')
                    call = ast.Call(name(h), [name(x) for x in free], [])
                    if not res:
                        new = ast.Expr(call)
                        body = blk
                    elif len(res) == 1:
                        new = assign(res[0], call)
                        body = blk + [ast.Return(name(res[0]))]
                    else:
                        new = ast.Assign([ast.Tuple([name(r, True) for r in res], ast.Store())], call)
                        body = blk + [ast.Return(ast.Tuple([name(r) for r in res], ast.Load()))]
                    b[i:j] = [new]
                    env['add'](ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in free], None, [], [], None, []), body, [], None, None))
                out.append(go)
    return out


@tr
def helper_tail(fn, env):
    """the tail of a function moves into a module level function"""
    out = []
    loc = env['scope']
    b = fn.body
    if has(fn, ast.Yield):
        return out
    for i in range(nodoc(b) + 1, len(b)):
        blk = b[i:]
        if any(has(s, ast.Nonlocal) for s in b) or any(is_call(x, 'super') for s in blk for x in ast.walk(s)):
            continue
        st = set()
        for s in blk:
            st |= stored(s)
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda)) and loads(x) & st & loc for s in b[:i] for x in ast.walk(s)):
            continue
        before = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)} | env['outer']
        for s in b[:i]:
            before |= own_locals(ast.FunctionDef('_', ast.arguments([], [], None, [], [], None, []), [s], [], None, None))
        mod = ast.Module(blk, [])
        free = sorted((loads(mod) | {n.target.id for n in ast.walk(mod) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}) & before & loc)
        if any(x.id in st and x.id in before and x.id not in free for x in ast.walk(mod) if isinstance(x, ast.Name)) and False:
            continue
        def go(b=b, i=i, blk=blk, free=free):
            h = fresh('_tail')
            b[i:] = [ast.Return(ast.Call(name(h), [name(x) for x in free], []))]
            env['add'](ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in free], None, [], [], None, []), blk, [], None, None))
        out.append(go)
    return out


@tr
def all_any_loop(fn, env):
    out = []
    for node, f, b in bodies(fn, False):
        for s in b:
            v = s.value if isinstance(s, ast.Return) else None
            if v is not None and is_call(v, 'all', 'any') and isinstance(v.args[0], (ast.GeneratorExp, ast.ListComp)) and len(v.args[0].generators) == 1:
                def go(b=b, s=s, v=v):
                    g = v.args[0].generators[0]
                    isall = v.func.id == 'all'
                    inner = [ast.If(neg(v.args[0].elt) if isall else v.args[0].elt, [ast.Return(ast.Constant(not isall))], [])]
                    for c in reversed(g.ifs):
                        inner = [ast.If(c, inner, [])]
                    k = b.index(s)
                    b[k:k + 1] = [ast.For(g.target, g.iter, inner, []), ast.Return(ast.Constant(isall))]
                out.append(go)
            if isinstance(s, ast.If) and not s.orelse:
                t, isall = s.test, None
                if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and is_call(t.operand, 'all'):
                    isall, t = True, t.operand
                elif is_call(t, 'any'):
                    isall = False
                if isall is not None and isinstance(t.args[0], (ast.GeneratorExp, ast.ListComp)) and len(t.args[0].generators) == 1 and isinstance(s.body[-1], (ast.Raise, ast.Return)):
                    def go(b=b, s=s, t=t, isall=isall):
                        g = t.args[0].generators[0]
                        inner = [ast.If(neg(t.args[0].elt) if isall else t.args[0].elt, s.body, [])]
                        for c in reversed(g.ifs):
                            inner = [ast.If(c, inner, [])]
                        b[b.index(s)] = ast.For(g.target, g.iter, inner, [])
                    out.append(go)
    for n in ast.walk(fn):
        if is_call(n, 'all', 'any') and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)):
            def go(n=n):
                n.args[0].elt = neg(n.args[0].elt)
                other = 'any' if n.func.id == 'all' else 'all'
                replace(fn, n, ast.UnaryOp(ast.Not(), ast.Call(name(other), n.args, [])))
            out.append(go)
    return out


@tr
def setdefault_form(fn, env):
    out = []
    for node, f, b in bodies(fn):
        for s in b:
            e = s.value if isinstance(s, ast.Expr) else None
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'append' and isinstance(e.func.value, ast.Call) \
                    and isinstance(e.func.value.func, ast.Attribute) and e.func.value.func.attr == 'setdefault':
                def go(b=b, s=s, e=e):
                    sd = e.func.value
                    d, k, v = sd.func.value, sd.args[0], sd.args[1]
                    i = b.index(s)
                    b[i:i + 1] = [ast.If(ast.Compare(k, [ast.NotIn()], [d]), [ast.Assign([ast.Subscript(copy.deepcopy(d), copy.deepcopy(k), ast.Store())], v)], []),
                                  ast.Expr(ast.Call(ast.Attribute(ast.Subscript(copy.deepcopy(d), copy.deepcopy(k), ast.Load()), 'append', ast.Load()), e.args, []))]
                out.append(go)
    return out


@tr
def lambda_def(fn, env):
    out = []
    for node, f, b in bodies(fn):
        for s in b:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Lambda) and isinstance(s.targets[0], ast.Name):
                def go(b=b, s=s):
                    b[b.index(s)] = ast.FunctionDef(s.targets[0].id, s.value.args, [ast.Return(s.value.body)], [], None, None)
                out.append(go)
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and len(s.body) == 1 and isinstance(s.body[0], ast.Return) and s.body[0].value is not None and not s.args.defaults:
                def go(b=b, s=s):
                    a = copy.deepcopy(s.args)
                    for x in a.args:
                        x.annotation = None
                    b[b.index(s)] = assign(s.name, ast.Lambda(a, s.body[0].value))
                if '__name__' not in ast.unparse(fn) and 'class ' not in ast.unparse(fn):
                    out.append(go)
    return out


@tr
def items_keys(fn, env):
    out = []
    for n in ast.walk(fn):
        it = None
        if isinstance(n, (ast.For, ast.comprehension)):
            it = n.iter
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'items' and isinstance(n.target, ast.Tuple) and isinstance(n.target.elts[1], ast.Name):
                v = n.target.elts[1].id
                scope = n.body if isinstance(n, ast.For) else None
                used = any(isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load) for x in ast.walk(fn))
                if not used:
                    def go(n=n, it=it):
                        n.iter = ast.Call(ast.Attribute(it.func.value, 'keys', ast.Load()), [], [])
                        n.target = n.target.elts[0]
                    out.append(go)
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'keys' and not it.args:
                def go(n=n, it=it):
                    n.iter = it.func.value
                out.append(go)
    return out


@tr
def zip_index(fn, env):
    """for a, b in zip(X, Y) -> for i, a in enumerate(X)... only when both are names: skip; zip -> zip(tuple(X), Y)"""
    out = []
    for n in ast.walk(fn):
        if is_call(n, 'zip') and n.args and not any(isinstance(a, ast.Starred) for a in n.args):
            def go(n=n):
                n.args[0] = ast.Call(name('tuple'), [n.args[0]], [])
            out.append(go)
        if isinstance(n, ast.For) and isinstance(n.iter, (ast.Name, ast.Attribute)):
            def go(n=n):
                n.iter = ast.Call(name('list'), [n.iter], [])
            out.append(go)
    return out


@tr
def kwargs_form(fn, env):
    """positional arguments of a repository function by keyword"""
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.args and not any(isinstance(a, ast.Starred) for a in n.args):
            d = env['module'].defs.get(n.func.id)
            if d and d[0] == 'func' and n.func.id not in env['scope']:
                ps = [a.arg for a in d[1].args.args]
                if len(ps) >= len(n.args) and not d[1].args.vararg:
                    def go(n=n, ps=ps):
                        n.keywords.insert(0, ast.keyword(ps[len(n.args) - 1], n.args.pop()))
                    out.append(go)
    return out


@tr
def try_else(fn, env):
    out = []
    for node, f, b in bodies(fn):
        for s in b:
            if isinstance(s, ast.Try) and not s.orelse and not s.finalbody and len(s.body) == 1 and all(terminates(h.body) for h in s.handlers):
                i = b.index(s)
                if i + 1 < len(b):
                    def go(b=b, s=s):
                        k = b.index(s)
                        s.orelse = b[k + 1:]
                        del b[k + 1:]
                    out.append(go)
    return out


@tr
def reduce_loop(fn, env):
    """r = or_reduce(gen)  -> explicit fold over a list"""
    out = []
    for node, f, b in bodies(fn):
        for s in b:
            for p, fl, ix, e in stmt_exprs(s):
                if is_call(e, 'sum') and len(e.args) == 1:
                    def go(b=b, s=s, p=p, fl=fl, ix=ix, e=e):
                        n, x = fresh('total'), fresh('x')
                        k = b.index(s)
                        put(p, fl, ix, name(n))
                        b[k:k] = [assign(n, ast.Constant(0)), ast.For(name(x, True), e.args[0], [ast.AugAssign(name(n, True), ast.Add(), name(x))], [])]
                    out.append(go)
    return out


@tr
def flag_return(fn, env):
    """for x in it: if c: return K1 ... return K2 -> all/any (search loops)"""
    out = []
    for node, f, b in bodies(fn):
        for i, s in enumerate(b[:-1]):
            if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse and len(s.body[0].body) == 1 \
                    and isinstance(s.body[0].body[0], ast.Return) and isinstance(s.body[0].body[0].value, ast.Constant) and isinstance(s.body[0].body[0].value.value, bool) \
                    and isinstance(b[i + 1], ast.Return) and isinstance(b[i + 1].value, ast.Constant) and b[i + 1].value.value is (not s.body[0].body[0].value.value):
                def go(b=b, s=s):
                    k = b.index(s)
                    c = s.body[0].test
                    val = s.body[0].body[0].value.value
                    g = ast.GeneratorExp(c if val else neg(c), [ast.comprehension(s.target, s.iter, [], 0)])
                    b[k:k + 2] = [ast.Return(ast.Call(name('any' if val else 'all'), [g], []))]
                out.append(go)
    return out


@tr
def method_static_args(fn, env):
    """x.items() unpack -> d[k]; tuple(a) + (b,) -> (*a, b)"""
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add) and isinstance(n.right, ast.Tuple):
            def go(n=n):
                replace(fn, n, ast.Tuple([ast.Starred(n.left, ast.Load())] + n.right.elts, ast.Load()))
            out.append(go)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add) and isinstance(n.left, ast.Tuple):
            def go(n=n):
                replace(fn, n, ast.Tuple(n.left.elts + [ast.Starred(n.right, ast.Load())], ast.Load()))
            out.append(go)
    return out


# ---------------------------------------------------------------- driver

def find(tree, path):
    node = tree
    for p in path:
        node = p(node)
    return node


def functions(tree):
    """(FunctionDef, enclosing functions, qual) in source order"""
    out = []

    def go(node, encl, qual, cls):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, ast.FunctionDef):
                out.append((c, encl, qual + [c.name], cls))
                go(c, encl + [c], qual + [c.name], cls)
            elif isinstance(c, ast.ClassDef):
                go(c, encl, qual + [c.name], True)
            else:
                go(c, encl, qual, cls)
    go(tree, [], [], False)
    return out


def istest(fn, n):
    """n is used for its truth only"""
    for p in ast.walk(fn):
        if isinstance(p, (ast.If, ast.While, ast.IfExp)) and p.test is n:
            return True
        if isinstance(p, ast.comprehension) and any(x is n for x in p.ifs):
            return True
        if isinstance(p, ast.UnaryOp) and isinstance(p.op, ast.Not) and p.operand is n:
            return True
        if isinstance(p, ast.BoolOp) and any(x is n for x in p.values):
            return istest(fn, p)
    return False


def apply(src, index, kind, site, mod):
    """source with one edit; None if not applicable"""
    tree = ast.parse(src)
    fs = functions(tree)
    fn, encl, qual, cls = fs[index]
    scope = set(own_locals(fn))
    outer = set()
    for e in encl:
        outer |= own_locals(e)
    scope |= outer
    added = []
    env = {'scope': scope, 'outer': outer, 'nested': bool(encl), 'istest': istest, 'module': mod, 'add': added.append,
           'nonlocals': lambda f: {x for n in ast.walk(f) if isinstance(n, (ast.Nonlocal, ast.Global)) for x in n.names}}
    sites = T[kind](fn, env)
    if site is None:
        return len(sites)
    if site >= len(sites):
        return None
    sites[site]()
    import builtins
    known = set(dir(builtins)) | set(mod.defs) | {n.name for n in tree.body if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
    for a in added:
        known.add(a.name)
        bound = own_locals(a)
        for x in ast.walk(a):
            if isinstance(x, ast.comprehension):
                bound |= stored(x.target)
            elif isinstance(x, (ast.Lambda, ast.FunctionDef)):
                bound |= stored(x.args) | (own_locals(x) if isinstance(x, ast.FunctionDef) else set())
        if (loads(a) - bound - known) and not mod.star:
            return None
        if mod.star and loads(a) & scope - bound:
            return None
    for a in added:
        for top_i, t in enumerate(tree.body):
            if any(x is (encl[0] if encl else fn) for x in ast.walk(t)):
                tree.body.insert(top_i, a)
                break
    ast.fix_missing_locations(tree)
    return ast.unparse(tree)


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('-n', type=int, default=3)
    ap.add_argument('-k')
    ap.add_argument('-f')
    ap.add_argument('-c', type=int, default=1)
    ap.add_argument('-s', type=int, default=1)
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('-r', type=int, default=0, help='random compositions per function')
    ap.add_argument('--site', type=int)
    ap.add_argument('--slow', action='store_true')
    ap.add_argument('--show', action='store_true')
    ap.add_argument('--und', action='store_true')
    A = ap.parse_args()
    rng = random.Random(A.s)
    prog = Program()
    specs = oblig.load_specs(prog)
    users = {}
    cost = {}
    graphs = {}
    for s in specs:
        t = time.time()
        rs = oblig.run_spec(prog, s)
        cost[s.name] = time.time() - t
        if any(r.verdict != 'holds' for r in rs):
            print('does not hold unchanged', s.name)
        for r in rs:
            for q in getattr(r, 'funcs', {}):
                users.setdefault(str(q), set()).add(s.name)
        users.setdefault(s.actual, set()).add(s.name)
    byname = {s.name: s for s in specs}
    # share specification graphs
    og = oblig.graph
    memo = {}

    def graph(prog_, spec, which, opaque, limit=120):
        if which == 'spec':
            k = (spec.name, tuple(opaque))
            if k not in memo:
                memo[k] = og(prog_, spec, which, opaque, limit)
            return memo[k]
        return og(prog_, spec, which, opaque, limit)
    oblig.graph = graph
    for s in specs:
        try:
            graph(prog, s, 'spec', s.opaque)
        except Exception:
            pass
    jobs = []
    for m in sorted(prog.modules.values(), key=lambda m: m.name):
        if not m.name.startswith('peak') or m.name in ('peak.mapper.oldmapper', 'peak.assembler.utils'):
            continue
        tree = ast.parse(m.src)
        for ix, (fn, encl, qual, cls) in enumerate(functions(tree)):
            names = {m.name + ':' + '.'.join(qual), m.name + ':' + fn.name, m.name + ':' + qual[0]}
            if len(qual) > 1:
                names |= {m.name + ':' + '.'.join(qual[:2])}
            sp = set()
            for q in names:
                sp |= users.get(q, set())
            if not sp:
                continue
            if A.f and A.f not in m.name + '.' + '.'.join(qual):
                continue
            if not A.slow:
                sp = {x for x in sp if cost[x] < 0.6}
            if not sp:
                continue
            if A.r:
                for i in range(A.r):
                    jobs.append((m.name, ix, None, rng.randrange(1 << 30), sorted(sp), '.'.join(qual)))
                continue
            for kind in T:
                if A.k and kind not in A.k.split(','):
                    continue
                try:
                    n = apply(m.src, ix, kind, None, m)
                except Exception:
                    traceback.print_exc()
                    continue
                ss = list(range(n)) if A.site is None else [A.site]
                if len(ss) > A.n:
                    ss = sorted(rng.sample(ss, A.n))
                for site in ss:
                    jobs.append((m.name, ix, kind, site, sorted(sp), '.'.join(qual)))
    print(len(jobs), 'edits', flush=True)
    rng.shuffle(jobs)
    import pickle
    chunks = [jobs[i::A.j * 40] for i in range(A.j * 40)]
    running = {}
    res = []
    import select
    chunks = [c for c in chunks if c]

    def work(chunk, w):
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        out = []
        for j in chunk:
            with open(f'/tmp/w/cur.{os.getpid()}', 'w') as f:
                print(j, file=f)
            t1 = time.time()
            out.append((j, one(prog, byname, j, A)))
            if time.time() - t1 > 40:
                print('slow', round(time.time() - t1), j, flush=True)
        with os.fdopen(w, 'wb') as f:
            pickle.dump(out, f)
    fds = {}
    while chunks or fds:
        while chunks and len(fds) < A.j:
            c = chunks.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    work(c, w)
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(0)
            os.close(w)
            fds[r] = (pid, b'')
        rd, _, _ = select.select(list(fds), [], [])
        for r in rd:
            d = os.read(r, 1 << 20)
            pid, buf = fds[r]
            if d:
                fds[r] = (pid, buf + d)
            else:
                os.close(r)
                wst = os.waitpid(pid, 0)[1]
                del fds[r]
                try:
                    res += pickle.loads(buf)
                except Exception:
                    print('worker died', wst, open(f'/tmp/w/cur.{pid}').read(), flush=True)
    stat = {}
    bad = []
    for j, r in res:
        k = j[2] or 'mix'
        st = stat.setdefault(k, {})
        st[r[0]] = st.get(r[0], 0) + 1
        if MUT and r[0] not in ('refuted', 'skip', 'broken') or not MUT and (r[0] in ('refuted', 'error') or A.und and r[0] == 'undecided'):
            bad.append((j, r))
    for k in sorted(stat):
        print(f'{k:24}', stat[k])
    bad.sort(key=lambda x: (x[0][0], x[0][1], x[0][2] or '') if MUT else (x[0][2] or '', x[0][0]))
    for j, r in bad[:5000]:
        print(r[0].upper(), j[0], j[5], j[2], j[3], r[1])
        for l in r[2]:
            print('      ', l[:300])
        if A.show:
            print(r[3])


def one(prog, byname, j, A):
    mname, ix, kind, site, sp, qual = j
    m = prog.modules[mname]
    label = kind
    try:
        if kind is None:
            rng = random.Random(site)
            src = m.src
            ks = []
            for _ in range(rng.randint(2, 5)):
                k = rng.choice(list(T))
                cand = [i for i, f in enumerate(functions(ast.parse(src))) if '.'.join(f[2]) == qual]
                if not cand:
                    break
                n = apply(src, cand[0], k, None, m)
                new = apply(src, cand[0], k, rng.randrange(n), m) if n else None
                if new is not None:
                    src = new
                    ks.append(k)
            label = '+'.join(ks)
        else:
            src = apply(m.src, ix, kind, site, m)
            if src is None:
                return ('skip', '', [], '')
        ast.parse(src)
        compile(src, 'x', 'exec')
    except Exception as e:
        return ('error', f'{type(e).__name__} {e}', [traceback.format_exc()[-400:]], '')
    p2 = Program.__new__(Program)
    p2.repo, p2.errors, p2._cache = prog.repo, [], {}
    p2.modules = dict(prog.modules)
    nm = modules.Module(p2, m.name, m.path, src=src, package=m.package)
    p2.modules[mname] = nm
    prog2 = p2
    worst, info, det = 'holds', '', []
    oblig.FALLBACK[0] = 60.0
    for name_ in sp:
        s = byname[name_]
        try:
            rs = oblig.run_spec(prog2, s)
        except BaseException as e:
            worst, info = 'error', f'{name_} {type(e).__name__}'
            det = [traceback.format_exc()[-600:]]
            break
        for r in rs:
            if r.verdict == 'refuted':
                worst, info = 'refuted', f'{label} {name_}[{r.part}]'
                det = [str(d) for d in r.diffs[:3]] + [r.note]
            elif r.verdict != 'holds' and worst == 'holds':
                worst, info = 'undecided' if r.verdict == 'undecided' else r.verdict, f'{label} {name_}[{r.part}] {r.note}'
                det = [str(d) for d in r.diffs[:3]]
    for ln in lints.ALL:
        try:
            lints.modules = lambda prog, prop: iter([nm])
            oblig.load_specs = lambda prog: [byname[x] for x in sp]
            fs, n = ln.run(prog2, None) if ln.name in LINT_FAST else ([], 0)
        except Exception as e:
            fs = []
        if fs:
            worst, info, det = 'refuted', 'lint ' + ln.name, [f.msg for f in fs[:3]]
    d = ''
    if A.show and (MUT or worst != 'holds'):
        import difflib
        d = '\n'.join(difflib.unified_diff(ast.unparse(ast.parse(m.src)).split('\n'), src.split('\n'), lineterm='', n=0 if MUT else 2))
        if MUT:
            d = '\n'.join(l for l in d.split('\n')[2:] if not l.startswith('@@'))
    return (worst, info, det, d)


LINT_FAST = {l.name for l in lints.ALL}
if __name__ == '__main__':
    main()
