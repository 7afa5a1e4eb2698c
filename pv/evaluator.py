"""Value-graph construction: a static, path-merging abstract evaluation of
python functions into normalised terms (gated value numbering).

No statement of the analysed program is executed: every variable denotes a
term, branches are merged with decision nodes, loops become fold terms.
"""
import ast
import builtins
import re
import string
from . import terms as tm
from .terms import (raw, const, glob, sym, fresh, NONE, TRUE, FALSE, lst, el, ite, cond, and_, or_, not_,
                    as_list, iterate, close_lam, apply_lam, idx, attr, T)
from .modules import canon_ext, import_bindings, dotted_of

UNDEF = raw('undef')
BUILTINS = set(dir(builtins))
DROP_CALLS = ('print', 'warnings.warn', 'peak.mapper.utils.pretty_print_binding')
OPERATOR = {'or_': '|', 'and_': '&', 'add': '+', 'mul': '*', 'xor': '^', 'sub': '-', 'lshift': '<<', 'rshift': '>>'}
BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<',
       ast.RShift: '>>', ast.Pow: '**', ast.FloorDiv: '//', ast.Mod: '%', ast.Div: '/', ast.MatMult: '@'}
CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is',
       ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}


Budget = tm.Budget


class Fn:
    def __init__(self, node, mod, chain, cls=None, name=None, qual=None):
        self.node = node
        self.mod = mod
        self.chain = chain
        self.cls = cls
        self.name = name
        self.qual = qual
        self.defaults = None


class LCls:
    def __init__(self, node, mod, chain, bases):
        self.node = node
        self.mod = mod
        self.chain = chain
        self.bases = bases
        self.sid = None


class State:
    __slots__ = ('m',)

    def __init__(self, m=None):
        self.m = m if m is not None else {}

    def copy(self):
        return State(dict(self.m))


EFF = ('eff',)


class Exit:
    __slots__ = ('cond', 'kind', 'val', 'state')

    def __init__(self, cond, kind, val, state):
        self.cond = cond
        self.kind = kind
        self.val = val
        self.state = state


class Ctx:
    def __init__(self, mod, chain, fn, parent=None):
        self.mod = mod
        self.chain = chain
        self.fn = fn
        self.guard = TRUE
        self.exits = []
        self.trys = []       # active handler type lists
        self.parent = parent
        self.yields = None


def local_names(node):
    """names assigned in a function body (python scoping)"""
    out = set()
    nl = set()

    def targets(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                targets(e)
        elif isinstance(t, ast.Starred):
            targets(t.value)

    def walk(s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(s.name)
            for d in s.decorator_list:
                walkx(d)
            return
        if isinstance(s, ast.Lambda):
            return
        if isinstance(s, (ast.Global, ast.Nonlocal)):
            nl.update(s.names)
        if isinstance(s, ast.Assign):
            for t in s.targets:
                targets(t)
        elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
            targets(s.target)
        elif isinstance(s, (ast.For,)):
            targets(s.target)
        elif isinstance(s, ast.With):
            for i in s.items:
                if i.optional_vars is not None:
                    targets(i.optional_vars)
        elif isinstance(s, ast.ExceptHandler) and s.name:
            out.add(s.name)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                out.add(a.asname or a.name.split('.')[0])
        elif isinstance(s, ast.NamedExpr):
            targets(s.target)
        if isinstance(s, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            return
        for c in ast.iter_child_nodes(s):
            walk(c)

    def walkx(e):
        for c in ast.walk(e):
            if isinstance(c, ast.NamedExpr):
                targets(c.target)
    if isinstance(node, ast.Lambda):
        body = []
    else:
        body = node.body
    for s in body:
        walk(s)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)
    return out - nl


_ln_cache = {}


def lnames(node):
    r = _ln_cache.get(id(node))
    if r is None:
        r = (node, local_names(node))
        _ln_cache[id(node)] = r
    return r[1]


def has_yield(node):
    for s in ast.walk(node):
        if isinstance(s, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def returns(body):
    for x in body:
        if isinstance(x, ast.Return):
            yield x
        elif not isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            yield from returns(ast.iter_child_nodes(x))


def own_keys(s):
    """whether a segment makes one entry for each key of its source, under that key, always"""
    if s.op != 'flat':
        return None
    fs, b = tm.opened(s.args[1])
    if b.op == 'lst' and len(b.args) == 1 and b.args[0].op == 'el' and b.args[0].args[0].op == 'tuple' \
            and len(b.args[0].args[0].args) == 2 and b.args[0].args[0].args[0] is fs[0]:
        return fs, b.args[0].args[0].args[1]
    return None


def overridden(L):
    """drop the entries a later segment gives another value under the same keys; a store into an
    entry made for each key is the comprehension that chooses there"""
    L = list(L)
    i = 1
    while i < len(L):
        a, b = L[i - 1], L[i]
        ka = own_keys(a)
        if ka is not None:
            kb = own_keys(b)
            if kb is not None and a.args[0] is b.args[0]:
                del L[i - 1]
                i = max(1, i - 1)
                continue
            if b.op == 'el' and b.args[0].op == 'tuple' and len(b.args[0].args) == 2 \
                    and b.args[0].args[0].op not in ('const', 'glob', 'tuple') and ka[1] is NONE:
                fs = [fresh(), fresh()]
                k, v = b.args[0].args
                x = apply_lam(a.args[1], fs).args[0].args[0].args[1]
                L[i - 1:i + 1] = [tm.flat(a.args[0], close_lam(fs, lst(el(raw('tuple', fs[0], tm.ite(cond(tm.cmp_('==', fs[0], k)), v, x))))))]
                continue
        i += 1
    return L


class Evaluator:
    MAXDEPTH = 40
    MAXSTEPS = 120000

    def __init__(self, prog, opaque=(), inline_classes=(), typed=None, notinline=()):
        self.prog = prog
        tm.SENTINEL[0] = self.is_sentinel
        self.opaque = set(opaque)
        self.inline_classes = set(inline_classes)
        self.lself = {}                  # parameter that is the receiver of a local class -> its private methods
        self.typed = typed or {}          # term id -> Class (class of symbolic objects)
        self.typed_ext = {}
        self.fns = []
        self.refs = {}                    # ref id -> (kind, cls)
        self.lcls = []
        self.scopes = 0
        self.stack = []
        self.steps = 0
        self.bases = {}                   # term id -> term for ext locations
        self.prov = {}                    # term id -> (file,line,func)
        self.funcs = {}                   # analysed functions qual -> count
        self.stateful = set()
        self.freezing = []
        self.notes = []
        self.track = True
        self.obj_locs = set()
        self.memos = []
        self.reports = False      # printing is an effect
        self.lookups = []

    # ------------------------------------------------------------ utils
    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def newref(self, kind, cls=None):
        n = len(self.refs)
        self.refs[n] = (kind, cls)
        return raw('ref', n)

    def mkfn(self, fn):
        self.fns.append(fn)
        return raw('fn', len(self.fns) - 1)

    def loc_ext(self, base, name):
        self.bases[base.id] = base
        return ('x', base.id, name)

    def mark(self, t, node, ctx):
        if self.track and t.id not in self.prov and hasattr(node, 'lineno') and ctx.mod.name.startswith('peak'):
            self.prov[t.id] = (ctx.mod.rel, node.lineno, ctx.fn)
        return t

    # ------------------------------------------------------------ merge
    def merge(self, c, s1, s2):
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        if c is TRUE:
            return s1
        if c is FALSE:
            return s2
        m = {}
        for k in s1.m.keys() | s2.m.keys():
            a = s1.m.get(k)
            b = s2.m.get(k)
            if a is b:
                m[k] = a
                continue
            if a is None or b is None:
                if k[0] == 'x' and a is None:
                    a = self.unset(k)
                elif k[0] == 'x' and b is None:
                    b = self.unset(k)
                elif k == EFF:
                    a = a if a is not None else lst()
                    b = b if b is not None else lst()
                elif k[0] == 'h':
                    # container created in one branch only
                    m[k] = a if a is not None else b
                    continue
                else:
                    a = a if a is not None else UNDEF
                    b = b if b is not None else UNDEF
            m[k] = self.merge_val(c, a, b)
        return State(m)

    def unset(self, k):
        base = self.bases[k[1]]
        if base.op == 'ref':
            return UNDEF
        return raw('attr', base, k[2])

    def merge_val(self, c, a, b):
        if a.op == 'lst' and b.op == 'lst':
            n = 0
            while n < len(a.args) and n < len(b.args) and a.args[n] is b.args[n]:
                n += 1
            pre = a.args[:n]
            x, y = raw('lst', *a.args[n:]), raw('lst', *b.args[n:])
            # a common suffix is left alone
            t = ite(c, x, y)
            if t.op == 'lst':
                return lst(*pre, *t.args)
            return lst(*pre, raw('cnd', t))
        if a.op == 'dict' and b.op == 'dict':
            return raw('dict', self.merge_val(c, a.args[0], b.args[0]))
        if a.op == 'set' and b.op == 'set':
            return raw('set', self.merge_val(c, a.args[0], b.args[0]))
        if a.op == 'ref' and b.op == 'ref':
            pass
        return ite(c, a, b)

    # ------------------------------------------------------------ deref / freeze
    def deref(self, t, st, memo=None):
        """replace container references and closures by their current value"""
        if memo is None:
            memo = {}
        if not self._needs(t):
            return t
        r = memo.get(t.id)
        if r is not None:
            return r
        if t.op == 'ref':
            kind, cls = self.refs[t.args[0]]
            if kind == 'obj':
                memo[t.id] = raw('self_ref')
                kws = []
                for k in sorted((k for k in st.m if k[0] == 'x' and k[1] == t.id), key=lambda k: k[2]):
                    v = st.m[k]
                    if v is not UNDEF:
                        kws.append(raw('kw', k[2], self.deref(v, st, memo)))
                r = raw('ns', *kws) if cls is None else raw('obj', glob(cls.qual), *kws)
            else:
                v = st.m.get(('h', t.args[0]))
                if v is None:
                    r = raw('unk', 0, 'dangling')
                else:
                    memo[t.id] = raw('self_ref')
                    r = self.deref(v, st, memo)
                    r = self.norm_container(r)
        elif t.op == 'fn':
            r = self.freeze_fn(t, st)
        elif t.op == 'bm':
            r = self.freeze_fn(t, st)
        elif t.op == 'lcls':
            r = self.freeze_cls(t, st)
        elif t.op == 'lam':
            n, h, body = t.args
            fs = [fresh() for _ in range(n)]
            b0 = tm.open_lam(t, fs)
            b1 = self.deref(b0, st, {})
            r = t if b1 is b0 else close_lam(fs, b1)
        else:
            new = []
            ch = False
            for a in t.args:
                if isinstance(a, T):
                    b = self.deref(a, st, memo)
                    ch = ch or b is not a
                    new.append(b)
                else:
                    new.append(a)
            r = tm.rebuild(t.op, new) if ch else t
        memo[t.id] = r
        return r

    _needs_memo = {}

    def _needs(self, t):
        r = self._needs_memo.get(t.id)
        if r is None:
            r = t.op in ('ref', 'fn', 'bm', 'lcls') or any(isinstance(a, T) and self._needs(a) for a in t.args)
            self._needs_memo[t.id] = r
        return r

    def norm_container(self, t):
        """fold nested-store entries into the entry they update"""
        if t.op != 'dict' or t.args[0].op != 'lst':
            return t
        L = list(t.args[0].args)

        def find_nst(seg):
            """list of (wrap, key, k2, v) if seg consists of nst entries only"""
            if seg.op == 'el' and seg.args[0].op == 'nst':
                k, p = seg.args[0].args
                return k, raw('lst', el(p))
            if seg.op == 'flat':
                n, h, b = seg.args[1].args
                e, i = fresh(), fresh()
                b = apply_lam(seg.args[1], [e, i])
                if b.op == 'lst' and b.args and all(find_nst(s) is not None for s in b.args):
                    rs = [find_nst(s) for s in b.args]
                    k = rs[0][0]
                    if all(r[0] is k for r in rs) and not (k.fresh & {e.args[0], i.args[0]}):
                        body = lst(*[x for r in rs for x in r[1].args])
                        return k, raw('lst', tm.flat(seg.args[0], close_lam([e, i], body)))
            return None
        changed = True
        while changed:
            changed = False
            for n, s in enumerate(L):
                if s.op == 'flat':
                    # split a flat with several entries where only some are nested stores
                    e, i = fresh(), fresh()
                    b = apply_lam(s.args[1], [e, i])
                    if b.op == 'lst' and len(b.args) > 1 and any(x.op == 'el' and x.args[0].op == 'nst' for x in b.args) \
                            and not all(x.op == 'el' and x.args[0].op == 'nst' for x in b.args):
                        ns = [x for x in b.args if x.op == 'el' and x.args[0].op == 'nst']
                        others = [x for x in b.args if not (x.op == 'el' and x.args[0].op == 'nst')]
                        L[n:n + 1] = [tm.flat(s.args[0], close_lam([e, i], lst(*ns))),
                                      tm.flat(s.args[0], close_lam([e, i], lst(*others)))]
                        changed = True
                        break
                f = find_nst(s)
                if f is None:
                    continue
                key, add = f
                for m in range(n - 1, -1, -1):
                    x = L[m]
                    if x.op == 'el' and x.args[0].op == 'tuple' and len(x.args[0].args) == 2 and x.args[0].args[0] is key:
                        d = x.args[0].args[1]
                        if d.op == 'dict' and d.args[0].op == 'lst':
                            nd = raw('dict', lst(*d.args[0].args, *add.args))
                            L[m] = el(raw('tuple', key, nd))
                            del L[n]
                            changed = True
                        break
                if changed:
                    break
        return raw('dict', lst(*overridden(L)))

    def freeze_fn(self, t, st):
        if any(x is t for x in self.freezing):
            return raw('recfn', len(self.freezing) - 1 - [x is t for x in self.freezing].index(True))
        self.freezing.append(t)
        try:
            bound = None
            f = t
            if t.op == 'bm':
                f, bound = t.args
            if f.op != 'fn':
                return raw('pmeth', self.deref(f, st), self.deref(bound, st))
            fn = self.fns[f.args[0]]
            a = fn.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            s = st.copy()
            params = []
            pos = []
            kws = []
            if bound is not None:
                pos.append(bound)
                names = names[1:]
            nd = len(a.defaults)
            allpos = [x.arg for x in a.posonlyargs + a.args]
            spec = []
            dd = []
            for n in names:
                p = fresh(n)
                pc = getattr(fn, 'ptypes', {}).get(n)
                if pc is not None:
                    self.typed[p.id] = pc
                if not params and getattr(fn, 'private', None):
                    self.lself[p.id] = fn.private
                params.append(p)
                pos.append(p)
                di = allpos.index(n) - (len(allpos) - nd)
                if di >= 0:
                    spec.append('d')
                    dd.append(self.deref(self.default_of(fn, a.defaults[di], st), st))
                    if dd[-1] is TRUE or dd[-1] is FALSE:
                        tm.BOOLS.add(p.id)
                else:
                    spec.append('p')
            if a.vararg:
                p = fresh('args')
                tm.TUPLES.add(p.id)
                params.append(p)
                spec.append('*')
                pos.append(raw('star', p))
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                p = fresh(x.arg)
                params.append(p)
                spec.append('k:' + x.arg + ('=' if d is not None else ''))
                if d is not None:
                    dd.append(self.deref(self.default_of(fn, d, st), st))
                kws.append(raw('kw', x.arg, p))
            if a.kwarg:
                p = fresh('kwargs')
                tm.DICTS.add(p.id)
                params.append(p)
                spec.append('**')
                kws.append(raw('dstar', p))
            ctx = Ctx(fn.mod, fn.chain, fn.name or '<lambda>')
            s0 = s.copy()
            out, s2 = self.run_fn(fn, pos, kws, s, ctx, freeze=True)
            out = self.outcome(out, ctx, s0, s2)
            if out.op == 'RET' and len(out.args) == 1 and spec and all(x == 'p' for x in spec):
                c = out.args[0]
                if c.op == 'call' and len(c.args) == len(params) + 1 and all(x is y for x, y in zip(c.args[1:], params)) \
                        and not (c.args[0].fresh & {p.args[0] for p in params}) and c.args[0].op in ('glob', 'attr'):
                    return c.args[0]     # eta
            for p in params:
                if p.id in tm.BOOLS and p.args[0] in out.fresh and tm.occurs(out, raw('truth', p)):
                    # decided once, outermost
                    out = ite(raw('truth', p), tm.subst(out, {p.id: TRUE}), tm.subst(out, {p.id: FALSE}))
            lam = close_lam(params, out)
            return raw('fnv', ''.join(s[0] for s in spec) if False else '|'.join(spec), lam, *dd)
        finally:
            self.freezing.pop()

    def outcome(self, val, ctx, s0, s1):
        """decision tree of RET/RAISE leaves incl. observable effects of a frozen function"""
        eff = NONE
        if s1 is not None:
            e0 = s0.m.get(EFF, lst())
            e1 = s1.m.get(EFF, lst())
            stores = []
            if e0 is not e1:
                stores.append(raw('eff', self.deref(self.strip_prefix(e1, e0), s1)))
            for k in sorted((k for k in s1.m if k[0] in ('x', 'h')), key=str):
                v = s1.m[k]
                o = s0.m.get(k)
                if o is v:
                    continue
                if k[0] == 'x':
                    b = self.bases[k[1]]
                    if b.op == 'ref' and (o is None and not any(kk[0] == 'x' and kk[1] == k[1] for kk in s0.m)):
                        continue   # object created inside
                    stores.append(raw('set', self.deref(b, s1) if b.op != 'ref' else raw('capt'), k[2], self.deref(v, s1)))
                elif o is not None:
                    stores.append(raw('mut', self.deref(v, s1)))
            if stores:
                stores.sort(key=lambda x: (x.op, str(x.args[1]) if x.op == 'set' else '', tm.akey(x)))
                eff = raw('effs', *stores)
            # effects live under the not-raised path
        r = NONE
        if s1 is None and val is None:
            r = raw('dead')
        else:
            v = self.deref(val, s1 if s1 is not None else s0)
            r = raw('RET', v) if eff is NONE else raw('RET', v, eff)
            r = self.push_ret(v, eff)
        for x in reversed(ctx.exits):
            if x.kind == 'raise':
                r = ite(self.deref(x.cond, x.state), raw('RAISE', self.deref(x.val, x.state)), r)
        return r

    def push_ret(self, v, eff):
        if v.op == 'ite' and eff is NONE:
            return ite(v.args[0], self.push_ret(v.args[1], eff), self.push_ret(v.args[2], eff))
        return raw('RET', v) if eff is NONE else raw('RET', v, eff)

    def strip_prefix(self, e1, e0):
        if e1.op == 'lst' and e0.op == 'lst' and e1.args[:len(e0.args)] == e0.args:
            return raw('lst', *e1.args[len(e0.args):])
        return e1

    def freeze_cls(self, t, st):
        if any(x is t for x in self.freezing):
            return raw('reccls', len(self.freezing))
        self.freezing.append(t)
        try:
            c = self.lcls[t.args[0]]
            parts = [raw('bases', *[self.deref(b, st) for b in c.bases])]
            ms = self.lcls_members(c, t, st)
            hidden = {k for k, v in ms.items() if v.op == 'fn' and k in (getattr(self.fns[v.args[0]], 'private', None) or ())}
            for k, v in sorted(ms.items()):
                if k not in hidden:
                    parts.append(raw('kw', k, self.deref(v, st)))
            # private helpers matter only where something still names them
            named = {x.args[1] for p in parts for x in tm.subterms(p) if x.op == 'attr'}
            for k in sorted(hidden):
                if k in named or not self.called_inside(c, k):
                    parts.append(raw('kw', k, self.deref(ms[k], st)))
            parts[1:] = sorted(parts[1:], key=lambda x: x.args[0])
            # values later attached to the class
            for k in sorted((k for k in st.m if k[0] == 'x' and k[1] == t.id), key=lambda k: k[2]):
                parts.append(raw('kw', 'attr:' + k[2], self.deref(st.m[k], st)))
            return raw('lclass', *parts)
        finally:
            self.freezing.pop()

    def called_inside(self, c, name):
        return any(isinstance(x, ast.Attribute) and x.attr == name for x in ast.walk(c.node))

    def lcls_members(self, c, t, st):
        out, private = {}, {}
        for s in c.node.body:
            if isinstance(s, ast.FunctionDef):
                ctx = Ctx(c.mod, c.chain, s.name)
                f = Fn(s, c.mod, c.chain, name=s.name)
                v = self.mkfn(f)
                if s.name.startswith('_') and not s.name.endswith('_') and not s.decorator_list and not c.node.decorator_list:
                    private[s.name] = v
                f.private = private
                ann = []
                if s.name == '__call__':
                    for a in s.args.args + s.args.kwonlyargs:
                        if a.annotation is not None:
                            ann.append(raw('kw', a.arg, self.expr(a.annotation, st.copy(), ctx)))
                    if s.returns is not None:
                        ann.append(raw('kw', 'return', self.expr(s.returns, st.copy(), ctx)))
                v = raw('meth', v, *ann) if ann else v
                for d in reversed(s.decorator_list):
                    dv = self.expr(d, st.copy(), ctx)
                    v = raw('deco', dv, v)
                out[s.name] = v
            elif isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                v = st.m.get(('e', c.sid, s.targets[0].id))
                out[s.targets[0].id] = v if v is not None else self.expr(s.value, st.copy(), Ctx(c.mod, c.chain, c.node.name))
        return out

    # ------------------------------------------------------------ functions
    def default_of(self, fn, node, st):
        ch = fn.chain
        return self.expr(node, st.copy(), Ctx(fn.mod, ch, fn.name or '<lambda>'))

    def run_fn(self, fn, pos, kws, st, ctx, freeze=False, stmt=False):
        """Inline a call. Returns (value, state); raise exits are appended to
        ctx.exits with ctx.guard.  (None, None) if it never returns."""
        node = fn.node
        self.steps += 1
        if len(self.stack) > self.MAXDEPTH:
            raise Budget('depth')
        a = node.args
        self.scopes += 1
        sid = self.scopes
        names = lnames(node)
        sub = Ctx(fn.mod, fn.chain + ((sid, frozenset(names)),), fn.name or '<lambda>', parent=ctx)
        sub.trys = [list(t) for t in ctx.trys]
        sub.stmt = stmt
        sub.fnobj = fn
        if fn.mod.name.startswith('peak'):
            q = fn.qual or (fn.mod.name + ':' + (fn.name or '<lambda>'))
            self.funcs[q] = self.funcs.get(q, 0) + 1
        ok = self.bind(fn, pos, kws, st, sid)
        if not ok:
            return tm.unk('bind ' + str(fn.name)), st
        s0 = st
        self.stack.append(fn)
        try:
            if isinstance(node, ast.Lambda):
                v = self.expr(node.body, st, sub)
                end = st
                sub.exits_val = v
            else:
                gen = has_yield_cached(node)
                if gen:
                    sub.yields = self.newref('list')
                    st.m[('h', sub.yields.args[0])] = lst()
                end = self.block(node.body, st, sub)
                v = NONE
        finally:
            self.stack.pop()
        val = v if end is not None else None
        final = end
        if not isinstance(node, ast.Lambda) and has_yield_cached(node):
            val = sub.yields if end is not None else None
        for x in reversed(sub.exits):
            if x.kind == 'ret':
                rv = x.val
                if sub.yields is not None:
                    rv = sub.yields
                if final is None:
                    val, final = rv, x.state
                else:
                    val = self.ite_ref(x.cond, rv, val)
                    final = self.merge(x.cond, x.state, final)
        for x in sub.exits:
            if x.kind == 'raise':
                ctx.exits.append(Exit(and_(ctx.guard, x.cond), 'raise', x.val, x.state))
        if final is None:
            return None, None
        # propagate "did not raise" knowledge is implicit in exit ordering
        if final is not st:
            st.m = final.m
        return val, st

    def ite_ref(self, c, a, b):
        return ite(c, a, b)

    def bind(self, fn, pos, kws, st, sid):
        a = fn.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        pos = list(pos)
        # expand literal stars
        exp = []
        for p in pos:
            if p.op == 'star':
                L = p.args[0]
                if L.op == 'ref':
                    L = st.m.get(('h', L.args[0]), L)
                if L.op == 'tuple':
                    exp += list(L.args)
                    continue
                if L.op == 'lst' and all(s.op == 'el' for s in L.args):
                    exp += [s.args[0] for s in L.args]
                    continue
                if L.op == 'tupof' and L.args[0].op == 'lst' and all(s.op == 'el' for s in L.args[0].args):
                    exp += [s.args[0] for s in L.args[0].args]
                    continue
            exp.append(p)
        pos = exp
        i = 0
        rest = []
        for p in pos:
            if p.op == 'star':
                rest.append(raw('spl', p.args[0]))
                i = 10 ** 6 if not a.vararg or i < len(params) else i
                if i >= 10 ** 6:
                    # unknown number of positional arguments into named parameters
                    names = [n for n in params if n not in vals]
                    if len(pos) == 1 or p is pos[-1]:
                        for j, n in enumerate(names):
                            vals[n] = idx(p.args[0], const(j))
                        rest = []
                        i = len(params)
                        continue
                    return False
            elif i < len(params):
                vals[params[i]] = p
                i += 1
            elif a.vararg:
                rest.append(el(p))
            else:
                return False
        kwrest = []
        konly = [x.arg for x in a.kwonlyargs]
        for k in kws:
            if k.op == 'kw':
                n = k.args[0]
                if n in params or n in konly:
                    vals[n] = k.args[1]
                elif a.kwarg:
                    kwrest.append(el(raw('tuple', const(n), k.args[1])))
                else:
                    return False
            else:
                D = k.args[0]
                if D.op == 'ref':
                    D = st.m.get(('h', D.args[0]), D)
                if D.op == 'dict' and all(s.op == 'el' and s.args[0].op == 'tuple' and tm.is_const(s.args[0].args[0], str) for s in D.args[0].args):
                    for s in D.args[0].args:
                        n, v = s.args[0].args
                        n = n.args[0]
                        if n in params or n in konly:
                            vals[n] = v
                        elif a.kwarg:
                            kwrest.append(el(raw('tuple', const(n), v)))
                        else:
                            return False
                elif a.kwarg:
                    if D.op == 'dict' and D.args[0].op == 'lst':
                        for s in D.args[0].args:
                            n = s.args[0].args[0].args[0] if s.op == 'el' and s.args[0].op == 'tuple' and \
                                tm.is_const(s.args[0].args[0], str) else None
                            if n is not None and (n in params or n in konly):
                                vals[n] = s.args[0].args[1]
                            else:
                                kwrest.append(s)
                    else:
                        kwrest.append(raw('spl', raw('items', D)) if True else None)
                else:
                    for n in params + konly:
                        if n not in vals:
                            vals[n] = idx(D, const(n))
        nd = len(a.defaults)
        for j, n in enumerate(params):
            if n not in vals:
                di = j - (len(params) - nd)
                if di < 0:
                    return False
                vals[n] = self.default_of(fn, a.defaults[di], st)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in vals:
                if d is None:
                    return False
                vals[x.arg] = self.default_of(fn, d, st)
        if a.vararg:
            if len(rest) == 1 and rest[0].op == 'spl':
                vals[a.vararg.arg] = rest[0].args[0]
            else:
                vals[a.vararg.arg] = tm.tupof(lst(*rest))
        if a.kwarg:
            if len(kwrest) == 1 and kwrest[0].op == 'spl' and kwrest[0].args[0].op == 'items':
                vals[a.kwarg.arg] = kwrest[0].args[0].args[0]
            else:
                r = self.newref('dict')
                st.m[('h', r.args[0])] = raw('dict', lst(*kwrest))
                vals[a.kwarg.arg] = r
        for n, v in vals.items():
            st.m[('e', sid, n)] = v
        return True

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, ctx):
        for i, s in enumerate(stmts):
            if st is None:
                return None
            self.steps += 1
            if self.steps > self.MAXSTEPS:
                raise Budget('steps')
            g0 = ctx.guard
            st = self.stmt(s, st, ctx)
            if ctx.guard is FALSE:
                return None
        return st

    def stmt(self, s, st, ctx):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.note(f'unsupported statement {type(s).__name__}')
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    self.assign_name(n.id, tm.unk('stmt'), st, ctx)
            return st
        return m(s, st, ctx)

    def s_Pass(self, s, st, ctx):
        return st

    def s_Global(self, s, st, ctx):
        return st
    s_Nonlocal = s_Global

    def s_Assert(self, s, st, ctx):
        return st

    def s_Delete(self, s, st, ctx):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.expr(t.value, st, ctx)
                k = self.expr(t.slice, st, ctx)
                if b.op == 'ref' and self.refs[b.args[0]][0] == 'dict':
                    d = st.m[('h', b.args[0])]
                    st.m[('h', b.args[0])] = raw('dict', lst(*d.args[0].args, el(raw('delitem', k))))
                else:
                    self.effect(raw('delitem', b, k), st, ctx)
        return st

    def s_Import(self, s, st, ctx):
        for n, d in import_bindings(s, ctx.mod.package):
            self.assign_name(n, self.dotted(d), st, ctx)
        return st
    s_ImportFrom = s_Import

    def dotted(self, d):
        r = self.prog.resolve(d)
        return self.resolved(r, d)

    def s_FunctionDef(self, s, st, ctx):
        fn = Fn(s, ctx.mod, ctx.chain, name=s.name)
        v = self.mkfn(fn)
        for d in reversed(s.decorator_list):
            dv = self.expr(d, st, ctx)
            v = self.decorate(dv, v, st, ctx)
        self.assign_name(s.name, v, st, ctx)
        return st

    def decorate(self, dv, v, st, ctx):
        if dv.op == 'glob' and dv.args[0] in ('staticmethod',):
            return v
        if dv.op == 'glob' and dv.args[0] in ('functools.lru_cache', 'functools.cache', 'functools.wraps'):
            return v
        if dv.op == 'call' and dv.args[0].op == 'glob' and dv.args[0].args[0] in ('functools.lru_cache', 'functools.wraps', 'functools.cache'):
            return v
        if dv.op in ('fn', 'bm'):
            return self.call_value(dv, [v], [], st, ctx, None)
        return raw('deco', dv, v)

    def s_ClassDef(self, s, st, ctx):
        bases = [self.expr(b, st, ctx) for b in s.bases]
        c = LCls(s, ctx.mod, ctx.chain, bases)
        self.lcls.append(c)
        v = raw('lcls', len(self.lcls) - 1)
        if not all(isinstance(x, (ast.FunctionDef, ast.Pass, ast.AnnAssign)) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)
                   or isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) for x in s.body):
            # a body that does more than define members runs here, in a scope of its own
            self.scopes += 1
            c.sid = self.scopes
            f = ast.parse('def f(): pass').body[0]
            f.body = s.body
            sub = Ctx(ctx.mod, ctx.chain + ((c.sid, frozenset(lnames(f))),), s.name, parent=ctx)
            sub.outer = ctx
            sub.guard = ctx.guard
            sub.trys = [list(t) for t in ctx.trys]
            end = self.block([x for x in s.body if not isinstance(x, ast.FunctionDef)], st, sub)
            ctx.exits += [x for x in sub.exits if x.kind == 'raise']
            ctx.guard = sub.guard
            if end is None:
                return None
        for d in reversed(s.decorator_list):
            dv = self.expr(d, st, ctx)
            v = raw('deco', dv, v)
        self.assign_name(s.name, v, st, ctx)
        return st

    def s_Return(self, s, st, ctx):
        c = ctx
        while c is not None and not hasattr(c, 'stmt'):
            c = getattr(c, 'outer', None)
        # the value of a helper called as a statement: a call returned is a call made
        stmt = c is not None and c.stmt and isinstance(s.value, ast.Call)
        v = NONE if s.value is None else self.expr(s.value, st, ctx, stmt=stmt)
        ctx.exits.append(Exit(ctx.guard, 'ret', v, st))
        ctx.guard = FALSE
        return None

    def s_Raise(self, s, st, ctx):
        if s.exc is None:
            t = raw('reraise')
            cur = getattr(ctx, 'handling', None)
            if cur is not None:
                t = cur
        else:
            t = self.exc_type(s.exc, st, ctx)
        self.mark(t, s, ctx)
        ctx.exits.append(Exit(ctx.guard, 'raise', t, st))
        ctx.guard = FALSE
        return None

    def exc_type(self, e, st, ctx):
        if isinstance(e, ast.Call):
            v = self.expr(e.func, st, ctx)
            return v
        v = self.expr(e, st, ctx)
        if v.op == 'excval':
            return v.args[0]
        if v.op == 'call' and v.args[0].op == 'glob':
            return v.args[0]
        return v

    def s_Break(self, s, st, ctx):
        ctx.exits.append(Exit(ctx.guard, 'break', NONE, st))
        ctx.guard = FALSE
        return None

    def s_Continue(self, s, st, ctx):
        ctx.exits.append(Exit(ctx.guard, 'cont', NONE, st))
        ctx.guard = FALSE
        return None

    def s_Expr(self, s, st, ctx):
        e = s.value
        if isinstance(e, ast.Constant):
            return st
        if isinstance(e, ast.Yield):
            v = NONE if e.value is None else self.expr(e.value, st, ctx)
            self.yield_(lst(el(v)), st, ctx)
            return st
        if isinstance(e, ast.YieldFrom):
            v = self.deref(self.expr(e.value, st, ctx), st)
            L = as_list(v)
            self.yield_(L if L.op == 'lst' else lst(raw('cnd', L)), st, ctx)
            return st
        v = self.expr(e, st, ctx, stmt=True)
        if v is None:
            return None
        return st

    def report(self, fv, pos, st, ctx):
        """what is printed, without the text around it"""
        for p in pos:
            v = self.deref(p, st)
            for x in (v.args if v.op == 'scat' else (v,)):
                if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0] in ('str', 'repr', 'format') and len(x.args) == 2:
                    x = x.args[1]
                if any(y.op in ('fresh', 'ref', 'attr', 'idx', 'call', 'mcall', 'glob') or not y.args for y in tm.subterms(x) if not tm.is_const(y)):
                    self.effect(raw('prt', fv.args[0], self.deref(x, st)), st, ctx)

    def yield_(self, L, st, ctx):
        c = ctx
        while c is not None and c.yields is None:
            c = getattr(c, 'outer', None)
        if c is None:
            return
        k = ('h', c.yields.args[0])
        st.m[k] = lst(*st.m[k].args, *L.args)

    def effect(self, t, st, ctx):
        if t.op in ('setitem', 'delitem', 'setdefault'):
            t = tm.rebuild(t.op, t.args)
        st.m[EFF] = tm.app(st.m.get(EFF, lst()), el(t))

    def s_Assign(self, s, st, ctx):
        v = self.expr(s.value, st, ctx)
        if v is None:
            return None
        for t in s.targets:
            self.assign(t, v, st, ctx)
        return st

    def s_AnnAssign(self, s, st, ctx):
        if s.value is None:
            return st
        v = self.expr(s.value, st, ctx)
        if v is None:
            return None
        self.assign(s.target, v, st, ctx)
        return st

    def s_AugAssign(self, s, st, ctx):
        t = s.target
        op = BIN.get(type(s.op), '?')
        if isinstance(t, ast.Subscript):
            b = self.expr(t.value, st, ctx)
            k = self.expr(t.slice, st, ctx)
            cur = self.getitem(b, k, st, ctx)
            v = self.expr(s.value, st, ctx)
            nv = tm.binop(op, self.deref(cur, st), self.deref(v, st))
            self.setitem(b, k, nv, st, ctx)
            return st
        cur = self.expr(_load(t), st, ctx)
        v = self.expr(s.value, st, ctx)
        if v is None:
            return None
        if cur.op == 'ref' and self.refs[cur.args[0]][0] == 'list' and op == '+':
            L = as_list(self.deref(v, st)) if v.op != 'ref' else as_list(st.m[('h', v.args[0])])
            k = ('h', cur.args[0])
            st.m[k] = lst(*st.m[k].args, *(L.args if L.op == 'lst' else (raw('cnd', L),)))
            return st
        if cur.op == 'ref' and self.refs[cur.args[0]][0] == 'set' and op == '|':
            self.set_add(cur, as_list(self.deref(v, st)), st)
            return st
        if cur.op == 'ite' and op == '+':
            cur, v = self.deref(cur, st), self.deref(v, st)
        nv = self.mark(tm.binop(op, self.dv(cur, st), self.dv(v, st)), s, ctx)
        self.assign(t, nv, st, ctx)
        return st

    def dv(self, v, st):
        return self.deref(v, st) if v.op in ('ref',) else v

    def assign(self, t, v, st, ctx):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, st, ctx)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if v.op == 'ref':
                v = self.deref_shallow(v, st)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            n = len(t.elts)
            if star:
                k = star[0]
                after = n - k - 1
                for i in range(k):
                    self.assign(t.elts[i], self.unpack(v, i, st), st, ctx)
                if v.op == 'tuple':
                    mid = raw('tuple', *v.args[k:len(v.args) - after])
                    r = self.newref('list')
                    st.m[('h', r.args[0])] = as_list(mid)
                    self.assign(t.elts[k].value, r, st, ctx)
                    for j in range(after):
                        self.assign(t.elts[k + 1 + j], v.args[len(v.args) - after + j], st, ctx)
                else:
                    self.assign(t.elts[k].value, idx(v, tm.mkslice(const(k) if k else NONE, const(-after) if after else NONE)), st, ctx)
                    for j in range(after):
                        self.assign(t.elts[k + 1 + j], idx(v, const(j - after)), st, ctx)
            else:
                for i, e in enumerate(t.elts):
                    self.assign(e, self.unpack(v, i, st), st, ctx)
        elif isinstance(t, ast.Attribute):
            b = self.expr(t.value, st, ctx)
            self.setattr_(b, t.attr, v, st, ctx)
        elif isinstance(t, ast.Subscript):
            # nested store  d[k1][k2] = v
            if isinstance(t.value, ast.Subscript):
                b0 = self.expr(t.value.value, st, ctx)
                if b0.op == 'ref' and self.refs[b0.args[0]][0] == 'dict':
                    k1 = self.expr(t.value.slice, st, ctx)
                    inner = self.getitem(b0, k1, st, ctx)
                    if inner.op == 'ref':
                        self.setitem(inner, self.expr(t.slice, st, ctx), v, st, ctx)
                        return
                    k2 = self.expr(t.slice, st, ctx)
                    d = st.m[('h', b0.args[0])]
                    st.m[('h', b0.args[0])] = raw('dict', lst(*d.args[0].args, el(raw('nst', k1, raw('tuple', k2, v)))))
                    return
            b = self.expr(t.value, st, ctx)
            k = self.expr(t.slice, st, ctx)
            self.setitem(b, k, v, st, ctx)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, ctx)

    def unpack(self, v, i, st):
        if v.op == 'deref_shallow':
            v = v.args[0]
        if v.op == 'call' or v.op == 'lst':
            L = as_list(v)
            if L.op == 'lst' and all(s.op == 'el' for s in L.args[:i + 1]) and i < len(L.args):
                return L.args[i].args[0]
        return idx(v, const(i))

    def deref_shallow(self, v, st):
        return st.m.get(('h', v.args[0]), v)

    def assign_name(self, name, v, st, ctx):
        for sid, names in reversed(ctx.chain):
            if name in names:
                st.m[('e', sid, name)] = v
                return
        # module level / comprehension scope
        if ctx.chain:
            st.m[('e', ctx.chain[-1][0], name)] = v

    def setattr_(self, b, name, v, st, ctx):
        if b.op == 'ite':
            pass
        st.m[self.loc_ext(b, name)] = v

    def setitem(self, b, k, v, st, ctx):
        k = self.deref(k, st)
        if k.op == 'slice':
            v = as_list(self.deref(v, st))
        if b.op == 'ref':
            kind = self.refs[b.args[0]][0]
            loc = ('h', b.args[0])
            cur = st.m.get(loc)
            if cur is not None and cur.op == 'dict':
                # overwrite of an identical literal key
                L = list(cur.args[0].args)
                if L and L[-1].op == 'el' and L[-1].args[0].op == 'tuple' and L[-1].args[0].args[0] is k:
                    L.pop()
                st.m[loc] = raw('dict', lst(*L, el(raw('tuple', k, v))))
                return
            if cur is not None and cur.op == 'lst':
                if tm.is_int(k) and all(s.op == 'el' for s in cur.args) and -len(cur.args) <= k.args[0] < len(cur.args):
                    L = list(cur.args)
                    L[k.args[0]] = el(v)
                    st.m[loc] = raw('lst', *L)
                else:
                    st.m[loc] = raw('lst', raw('spl', raw('upd', cur, k, self.deref(v, st))))
                return
            if kind == 'obj':
                self.effect(raw('setitem', b, k, v), st, ctx)
                return
        if self.is_memo(b):
            self.memo_store(b, k, v, st, ctx)
            return
        self.effect(raw('setitem', self.deref(b, st), k, self.deref(v, st)), st, ctx)

    def set_add(self, b, L, st):
        loc = ('h', b.args[0])
        cur = st.m[loc]
        st.m[loc] = raw('set', lst(*cur.args[0].args, *(L.args if L.op == 'lst' else (raw('cnd', L),))))

    # ---- control flow
    def s_If(self, s, st, ctx):
        c = self.test(s.test, st, ctx)
        if c is None:
            return None
        if c is TRUE:
            return self.block(s.body, st, ctx)
        if c is FALSE:
            return self.block(s.orelse, st, ctx)
        g = ctx.guard
        s1, s2 = st.copy(), st.copy()
        ctx.guard = and_(g, c)
        e1 = self.block(s.body, s1, ctx) if ctx.guard is not FALSE else None
        g1 = ctx.guard
        ctx.guard = and_(g, not_(c))
        e2 = self.block(s.orelse, s2, ctx) if ctx.guard is not FALSE else None
        g2 = ctx.guard
        if e1 is None and e2 is None:
            ctx.guard = FALSE
            return None
        if e1 is None:
            ctx.guard = g2
            st.m = e2.m
            return st
        if e2 is None:
            ctx.guard = g1
            st.m = e1.m
            return st
        ctx.guard = or_(g1, g2)
        st.m = self.merge(c, e1, e2).m
        return st

    def s_With(self, s, st, ctx):
        for i in s.items:
            v = self.expr(i.context_expr, st, ctx)
            if v is None:
                return None
            if i.optional_vars is not None:
                if v.op == 'call':
                    self.stateful.add(v.id)
                self.assign(i.optional_vars, v, st, ctx)
        return self.block(s.body, st, ctx)

    def only_logs(self, s, mod, depth=0):
        """a statement that only prints or logs, possibly through a module level helper"""
        if isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            return True
        if isinstance(s, ast.Assign) and depth and all(isinstance(t, ast.Name) for t in s.targets):
            return not any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.NamedExpr)) for x in ast.walk(s))
        if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)):
            return False
        f = s.value.func
        if isinstance(f, ast.Attribute):
            return isinstance(f.value, ast.Name) and f.value.id in ('logger', 'logging', 'warnings')
        if not isinstance(f, ast.Name):
            return False
        d = mod.defs.get(f.id)
        if d is None:
            return f.id == 'print'
        return d[0] == 'func' and depth < 3 and not d[1].decorator_list and \
            all(self.only_logs(x, mod, depth + 1) for x in d[1].body)

    def rethrows(self, h, ctx):
        """a handler that only logs and raises what it caught"""
        last = h.body[-1]
        if not isinstance(last, ast.Raise) or last.cause is not None:
            return False
        if last.exc is not None and not (isinstance(last.exc, ast.Name) and last.exc.id == h.name):
            return False
        return all(self.only_logs(b, ctx.mod) for b in h.body[:-1])

    def s_Try(self, s, st, ctx):
        if s.handlers and all(self.rethrows(h, ctx) for h in s.handlers) and not s.finalbody:
            st = self.block(s.body, st, ctx)
            if st is not None and s.orelse:
                st = self.block(s.orelse, st, ctx)
            return st
        htypes = []
        for h in s.handlers:
            if h.type is None:
                htypes.append([glob('Exception')])
            else:
                v = self.expr(h.type, st, ctx)
                htypes.append(list(v.args) if v.op == 'tuple' else [v])
        g = ctx.guard
        n0 = len(ctx.exits)
        ctx.trys.append([t for ts in htypes for t in ts])
        s1 = st.copy()
        e1 = self.block(s.body, s1, ctx)
        if e1 is not None and s.orelse:
            ctx.trys.pop()
            ctx.trys.append([])
            e1 = self.block(s.orelse, e1, ctx)
        ctx.trys.pop()
        gend = ctx.guard
        new = ctx.exits[n0:]
        keep, caught = [], []
        for x in new:
            hit = None
            if x.kind == 'raise':
                for i, ts in enumerate(htypes):
                    if any(self.catches(t, x.val) for t in ts):
                        hit = i
                        break
            if hit is None:
                keep.append(x)
            else:
                caught.append((hit, x))
        ctx.exits[n0:] = keep
        # exits that follow a caught raise only happen if it was not raised
        if caught:
            allc = FALSE
            for _, x in caught:
                allc = or_(allc, x.cond)
            nc = not_(allc)
            for x in keep:
                x.cond = and_(x.cond, nc)
            gend = and_(gend, nc)
        cur = e1
        curg = gend
        for hit, x in caught:
            h = s.handlers[hit]
            hs = x.state.copy()
            ctx.guard = x.cond
            if h.name:
                self.assign_name(h.name, raw('excval', x.val), hs, ctx)
            old = getattr(ctx, 'handling', None)
            ctx.handling = x.val
            eh = self.block(h.body, hs, ctx)
            ctx.handling = old
            if eh is not None:
                if cur is None:
                    cur, curg = eh, ctx.guard
                else:
                    cur = self.merge(x.cond, eh, cur)
                    curg = or_(curg, ctx.guard)
        ctx.guard = curg
        if cur is None:
            ctx.guard = FALSE
            return None
        if s.finalbody:
            cur = self.block(s.finalbody, cur, ctx)
            if cur is None:
                return None
        st.m = cur.m
        return st

    def catches(self, h, t):
        if t.op != 'glob' or h.op != 'glob':
            return h.op == 'glob' and h.args[0] in ('Exception', 'BaseException')
        if h.args[0] in ('Exception', 'BaseException'):
            return True
        return tm.subclass_of(t.args[0], h.args[0])

    def may_raise(self, exc, c, st, ctx):
        """an implicit raise of builtin exception exc under c, only modelled inside a try that catches it"""
        x = ctx
        if ctx.trys and any(self.catches(t, glob(exc)) for ts in ctx.trys for t in ts):
            cc = and_(ctx.guard, c)
            if cc is FALSE:
                return
            ctx.exits.append(Exit(cc, 'raise', glob(exc), st.copy()))

    # ---- loops
    def s_For(self, s, st, ctx):
        it = self.expr(s.iter, st, ctx)
        if it is None:
            return None
        lit = st.m.get(('h', it.args[0])) if it.op == 'ref' else it
        if lit is not None and (lit.op == 'tuple' and lit.args or lit.op == 'lst' and lit.args and all(x.op == 'el' for x in lit.args)):
            # a literal: the functions in it are still what they are
            L = as_list(lit)
        else:
            L = as_list(self.deref(it, st))
        if it.op == 'ref' and self.refs[it.args[0]][0] == 'iter':
            st.m[('h', it.args[0])] = lst()
        return self.loop(s, L, st, ctx, lambda e, i, st2, c2: self.assign(s.target, e, st2, c2), s.body, s.orelse)

    def loop(self, s, L, st, ctx, bind, body, orelse):
        if L.op == 'ite':
            # decide which list is iterated
            g = ctx.guard
            a, b = L.args[0], None
            s1, s2 = st.copy(), st.copy()
            c = cond(L.args[0])
            ctx.guard = and_(g, c)
            e1 = self.loop(s, L.args[1], s1, ctx, bind, body, orelse)
            g1 = ctx.guard
            ctx.guard = and_(g, not_(c))
            e2 = self.loop(s, L.args[2], s2, ctx, bind, body, orelse)
            g2 = ctx.guard
            ctx.guard = or_(g1, g2)
            r = self.merge(c, e1, e2)
            if r is None:
                return None
            st.m = r.m
            return st
        broken = FALSE
        bstate = None
        g0 = ctx.guard
        cur = st
        if len(L.args) > 12:
            self.note('long unrolled loop')
        for n, seg in enumerate(L.args):
            if cur is None:
                break
            if seg.op == 'el':
                r = self.once(seg.args[0], tm.pos_in(L, n), cur, ctx, bind, body)
            elif seg.op == 'cnd':
                r = self.sub_loop(s, seg.args[0], cur, ctx, bind, body, lambda *p, n=n: tm.pos_in(L, n, *p))
            else:
                r = self.fold(seg, lambda *p, n=n: tm.pos_in(L, n, *p), cur, ctx, bind, body)
            nxt, bc, bs = r
            if bc is not FALSE:
                if bstate is None:
                    bstate, broken = bs, bc
                else:
                    bstate = self.merge(broken, bstate, bs)
                    broken = or_(broken, bc)
            cur = nxt
        if cur is not None and orelse:
            cur = self.block(orelse, cur, ctx)
        gn = ctx.guard if cur is not None else FALSE
        if bstate is not None:
            cur = self.merge(broken, bstate, cur)
            ctx.guard = or_(gn, and_(g0, broken))
        if cur is None:
            ctx.guard = FALSE
            return None
        st.m = cur.m
        return st

    def sub_loop(self, s, L, st, ctx, bind, body, at):
        if L.op == 'ite':
            c = cond(L.args[0])
            g = ctx.guard
            s1, s2 = st.copy(), st.copy()
            ctx.guard = and_(g, c)
            n1, b1, t1 = self.sub_loop(s, L.args[1], s1, ctx, bind, body, at)
            g1 = ctx.guard
            ctx.guard = and_(g, not_(c))
            n2, b2, t2 = self.sub_loop(s, L.args[2], s2, ctx, bind, body, at)
            ctx.guard = or_(g1, ctx.guard)
            nxt = self.merge(c, n1, n2)
            bc = ite(c, b1, b2)
            bs = self.merge(c, t1, t2)
            return nxt, bc, bs
        cur = st
        bc, bs = FALSE, None
        for n, seg in enumerate(L.args):
            def here(*p, n=n):
                return at(tm.pos_in(L, n, *p))
            if seg.op == 'el':
                cur2, b, t = self.once(seg.args[0], here(), cur, ctx, bind, body)
            elif seg.op == 'cnd':
                cur2, b, t = self.sub_loop(s, seg.args[0], cur, ctx, bind, body, here)
            else:
                cur2, b, t = self.fold(seg, here, cur, ctx, bind, body)
            if b is not FALSE:
                bs = t if bs is None else self.merge(bc, bs, t)
                bc = or_(bc, b)
            cur = cur2
            if cur is None:
                break
        return cur, bc, bs

    def once(self, e, i, st, ctx, bind, body):
        """one unrolled iteration; returns (next state|None, break cond, break state)"""
        n0 = len(ctx.exits)
        g0 = ctx.guard
        bind(e, i, st, ctx)
        end = self.block(body, st, ctx)
        gend = ctx.guard
        bc, bs = FALSE, None
        keep = []
        for x in ctx.exits[n0:]:
            if x.kind == 'cont':
                if end is None:
                    end, gend = x.state, x.cond
                else:
                    end = self.merge(x.cond, x.state, end)
                    gend = or_(gend, x.cond)
            elif x.kind == 'break':
                bs = x.state if bs is None else self.merge(x.cond, x.state, bs)
                bc = or_(bc, x.cond)
            else:
                keep.append(x)
        ctx.exits[n0:] = keep
        ctx.guard = gend if end is not None else FALSE
        return end, bc, bs

    # the general loop over an opaque source
    def fold(self, seg, at, st, ctx, bind, body):
        src = seg.args[0]
        g0 = ctx.guard
        carried = {}
        invariant = set()
        noinv = False
        nref0 = len(self.refs)
        for attempt in range(10):
            e, i = fresh(), fresh()
            tm.note_pos(src, e, i)
            s1 = st.copy()
            for k, c in carried.items():
                s1.m[k] = self.carry_shape(k, st.m.get(k), c)
            pos = at(i)
            sub = Ctx(ctx.mod, ctx.chain, ctx.fn, parent=ctx.parent)
            sub.trys = ctx.trys
            sub.handling = getattr(ctx, 'handling', None)
            sub.outer = ctx
            sub.fnobj = getattr(ctx, 'fnobj', None)
            start = s1.copy()
            n_before = len(self.refs)
            if seg.op == 'flat':
                inner = apply_lam(seg.args[1], [e, i])
                one = inner.op == 'lst' and len(inner.args) == 1 and inner.args[0].op == 'el'
                if one:
                    end, bc, bs = self.once(inner.args[0].args[0], pos, s1, sub, bind, body)
                else:
                    end, bc, bs = self.sub_loop(None, inner, s1, sub, bind, body, lambda p: at(i, p))
            else:
                end, bc, bs = self.once(e, pos, s1, sub, bind, body)
            # modified locations
            mod = set()
            states = [x for x in (end, bs) if x is not None] + [x.state for x in sub.exits if x.kind == 'ret']
            for sx in states:
                for k, v in sx.m.items():
                    if k in start.m:
                        if start.m[k] is not v:
                            mod.add(k)
                    elif k[0] == 'e':
                        mod.add(k)
                    elif k[0] == 'x' and not (self.bases[k[1]].op == 'ref' and self.bases[k[1]].args[0] >= n_before) \
                            and not ((e.args[0] in self.bases[k[1]].fresh)):
                        mod.add(k)
                    elif k == EFF:
                        mod.add(k)
            # names local to inner scopes never live past the body
            live = {sid for sid, _ in ctx.chain}
            mod = {k for k in mod if k[0] != 'e' or k[1] in live}
            newk = mod - set(carried) - invariant
            if not newk:
                if not noinv:
                    noinv = True
                    invariant = self.invariants(carried, end, bs, bc, sub, st, n_before, start)
                    if invariant:
                        for k in invariant:
                            del carried[k]
                        continue
                break
            for k in newk:
                carried[k] = fresh()
        else:
            self.note('loop carried set did not stabilise')
        # attribute stores on the iteration element: an effect of the loop
        elemstores = {}
        if end is not None:
            for k, v in end.m.items():
                if k[0] == 'x' and k not in start.m and e.args[0] in self.bases[k[1]].fresh:
                    elemstores[k] = v
        csyms = {c.args[0]: k for k, c in carried.items()}

        def D(t, sx):
            return self.deref(t, sx)
        nxt = {}
        if end is not None:
            for k in carried:
                v = end.m.get(k)
                if v is None:
                    v = start.m.get(k, UNDEF)
                nxt[k] = self.deref_new(v, end, n_before)
            if elemstores:
                effk = EFF
                segs = [el(raw('setattr', self.deref(self.bases[k[1]], end), const(k[2]), self.deref(v, end)))
                        for k, v in sorted(elemstores.items(), key=lambda p: p[0][2])]
                if effk not in carried:
                    carried[effk] = fresh()
                    csyms[carried[effk].args[0]] = effk
                    nxt[effk] = lst(raw('spl', carried[effk]), *segs)
                else:
                    nxt[effk] = lst(*nxt[effk].args, *segs)
        raises = [x for x in sub.exits if x.kind == 'raise']
        rets = [x for x in sub.exits if x.kind == 'ret']
        stopc = bc
        for x in rets:
            stopc = or_(stopc, x.cond)
        stopc = self.deref(stopc, end or (rets[0].state if rets else bs))
        inits = {}
        for k in carried:
            v = st.m.get(k)
            if v is None:
                v = self.init_of(k)
            inits[k] = v

        def dep(t):
            return {csyms[f] for f in t.fresh if f in csyms}

        out = State(dict(st.m))
        if stopc is FALSE:
            self.fold_results(src, e, i, carried, nxt, inits, csyms, out, st)
            self.loop_raises(raises, src, e, i, carried, nxt, inits, csyms, st, ctx, dep)
            ctx.guard = and_(g0, TRUE)
            for x in ctx.exits:
                pass
            return out, FALSE, None
        if dep(stopc):
            # stop condition depends on loop state: general loop term
            nval = {k: self.cont_val(nxt.get(k, UNDEF)) for k in carried}
            ival = {k: self.cont_val(self.deref(inits[k], st)) for k in carried}
            skeyf = lambda k: (tm.skey(self.ph(nval[k], csyms)), tm.skey(ival[k]))
            rv = UNDEF
            rc = FALSE
            for x in reversed(rets):
                rv = ite(x.cond, self.deref(x.val, x.state), rv)
                rc = or_(rc, x.cond)
            bval = {k: self.cont_val(self.deref_new(bs.m.get(k, UNDEF), bs, n_before)) if bs is not None else UNDEF for k in carried}

            def build(order):
                cs = [carried[k] for k in order]
                lam = close_lam([e, i] + cs, raw('step', stopc, raw('tuple', *[nval[k] for k in order]),
                                                 raw('tuple', *[bval[k] for k in order]), rc, rv))
                return raw('loopx', src, raw('tuple', *[ival[k] for k in order]), lam)
            L, place = self.live_loop(carried, csyms, nval, bval, [stopc, rc, rv], skeyf, build)
            cs = list(carried.values())
            stop = raw('isret', raw('lstop', L))
            stopd = tm._atom(stop)
            for x in raises:
                self.note('raise in stateful loop')
                ctx.exits.append(Exit(and_(g0, tm._atom(raw('isret', raw('lraise', L, close_lam([e, i] + cs, x.cond))))), 'raise', x.val, st))
            isr = FALSE
            if rets:
                isr = and_(stopd, tm._atom(raw('isret', raw('lret', L)))) if bc is not FALSE else stopd
                ctx.exits.append(Exit(and_(g0, isr), 'ret', raw('lretv', L), st))
            bst = State(dict(st.m))
            for k in place:
                self.put(out, k, raw('lval', *place[k]()), inits[k])
                self.put(bst, k, raw('lbrk', *place[k]()), inits[k])
            bcnd = and_(g0, stopd, not_(isr)) if bc is not FALSE else FALSE
            ctx.guard = and_(g0, not_(stopd))
            return out, bcnd, bst if bc is not FALSE else None
        # stop condition independent of loop state
        stoplam = close_lam([e, i], stopc)
        stop = tm.any_(src, stoplam)
        upto = raw('upto', src, stoplam)
        fe, fi = raw('firstel', src, stoplam), raw('firstpos', src, stoplam)
        self.fold_results(src, e, i, carried, nxt, inits, csyms, out, st)
        # state at the stopping element
        pre = State(dict(st.m))
        self.fold_results(upto, e, i, carried, nxt, inits, csyms, pre, st)
        m = {e.id: fe, i.id: fi}
        for k, c in carried.items():
            m[c.id] = self.bare(pre.m.get(k, UNDEF))
        at = lambda t: tm.subst(t, m)
        self.loop_raises(raises, src, e, i, carried, nxt, inits, csyms, st, ctx, dep, stoplam if raises else None)
        prev = FALSE
        for x in rets:
            c = self.deref(x.cond, x.state)
            cc = stop if (len(rets) == 1 and bc is FALSE) else and_(stop, cond(at(c)))
            ctx.exits.append(Exit(and_(g0, cc), 'ret', at(self.deref(x.val, x.state)), self.state_at(x.state, carried, pre, at, st, start)))
        bst = None
        bcnd = FALSE
        if bc is not FALSE:
            b1 = stop if not rets else and_(stop, cond(at(self.deref(bc, bs))))
            bcnd = and_(g0, b1)
            bst = self.state_at(bs, carried, pre, at, st, start)
        ctx.guard = and_(g0, not_(stop))
        return out, bcnd, bst

    def invariants(self, carried, end, bs, bc, sub, st, n_before, start):
        """loop variables that keep their constant start value for as long as the loop runs"""
        cand = {}
        for k in carried:
            v = st.m.get(k)
            if k[0] == 'e' and v is not None and v.op == 'const':
                cand[k] = v
        if not cand or end is None:
            return set()
        stopc = bc
        rets = [x for x in sub.exits if x.kind == 'ret']
        for x in rets:
            stopc = or_(stopc, x.cond)
        if stopc is FALSE:
            return set()
        stopc = self.deref(stopc, end or (rets[0].state if rets else bs))
        nxt = {k: self.deref_new(end.m.get(k, UNDEF), end, n_before) for k in cand}
        while cand:
            m = {carried[k].id: v for k, v in cand.items()}
            sc = tm.subst(stopc, m)
            bad = [k for k, v in cand.items() if tm.ite(sc, v, tm.subst(nxt[k], m)) is not v]
            if not bad:
                break
            for k in bad:
                del cand[k]
        return set(cand)

    def state_at(self, sx, carried, pre, at, st, start):
        r = State(dict(st.m))
        for k, v in sx.m.items():
            if k in start.m and start.m[k] is v and k not in carried:
                continue
            v = self.deref_new(v, sx, 10 ** 9) if False else v
            r.m[k] = at(self.deref(v, sx) if k[0] == 'e' and v.op != 'ref' else v)
        return r

    def bare(self, v):
        return v if v.op not in ('dict', 'set') else v.args[0]

    def cont_val(self, v):
        return v

    def ph(self, t, csyms):
        m = {raw('fresh', f).id: sym('$c') for f in t.fresh if f in csyms}
        return tm.subst(t, m) if m else t

    def init_of(self, k):
        if k == EFF:
            return lst()
        if k[0] == 'x':
            return self.unset(k)
        return UNDEF

    def put(self, out, k, t, init):
        if init.op == 'dict':
            out.m[k] = raw('dict', lst(raw('spl', t)))
        elif init.op == 'set':
            out.m[k] = raw('set', lst(raw('spl', t)))
        elif init.op == 'lst':
            out.m[k] = lst(raw('spl', t))
        else:
            out.m[k] = t

    def carry_shape(self, k, init, c):
        if k == EFF:
            return raw('lst', raw('spl', c))
        if init is not None and k[0] == 'h':
            if init.op == 'dict':
                return raw('dict', raw('lst', raw('spl', c)))
            if init.op == 'set':
                return raw('set', raw('lst', raw('spl', c)))
            if init.op == 'lst':
                return raw('lst', raw('spl', c))
        return c

    def deref_new(self, v, st, n_before):
        """dereference containers created inside the loop body (older ones stay shared)"""
        if not self._needs(v):
            return v
        keep = {}

        def go(t, memo):
            if not self._needs(t):
                return t
            r = memo.get(t.id)
            if r is not None:
                return r
            if t.op == 'ref':
                if t.args[0] < n_before:
                    r = t
                else:
                    r = self.deref(t, st)
            elif t.op in ('fn', 'bm', 'lcls'):
                r = self.deref(t, st)
            elif t.op == 'lam':
                r = t
            else:
                new = [go(a, memo) if isinstance(a, T) else a for a in t.args]
                r = tm.rebuild(t.op, new)
            memo[t.id] = r
            return r
        return go(v, {})

    def loop_raises(self, raises, src, e, i, carried, nxt, inits, csyms, st, ctx, dep, stoplam=None):
        for x in raises:
            c = self.deref(x.cond, x.state)
            val = self.deref(x.val, x.state)
            S = src if stoplam is None else raw('upto', src, stoplam)
            if not dep(c):
                rc = tm.any_(S, close_lam([e, i], c))
            else:
                flag = fresh()
                n2 = dict(nxt)
                k = ('e', -1, 'raise')
                c2 = dict(carried)
                c2[k] = flag
                cs2 = dict(csyms)
                cs2[flag.args[0]] = k
                n2[k] = ite(cond(flag), TRUE, c)
                out = State({})
                ini = dict(inits)
                ini[k] = FALSE
                self.fold_results(S, e, i, c2, n2, ini, cs2, out, st, only=k)
                rc = cond(out.m[k])
            if e.args[0] in val.fresh:
                val = raw('unk', 0, 'exc')
            ctx.exits.append(Exit(and_(ctx.guard, rc), 'raise', val, st))

    def fold_results(self, src, e, i, carried, nxt, inits, csyms, out, st, only=None):
        for k in carried:
            if only is not None and k != only:
                continue
            if k not in nxt:
                continue
            r = self.fold_one(k, src, e, i, carried, nxt, inits, csyms, st)
            out.m[k] = r

    def fold_one(self, k, src, e, i, carried, nxt, inits, csyms, st):
        c = carried[k]
        n = nxt[k]
        init = inits[k]
        if init.op == 'dict' and n.op == 'dict':
            return raw('dict', self.fold_list(k, src, e, i, carried, nxt, inits, csyms, init.args[0], n.args[0], st))
        if init.op == 'set' and n.op == 'set':
            return raw('set', self.fold_list(k, src, e, i, carried, nxt, inits, csyms, init.args[0], n.args[0], st))
        if init.op == 'lst' and n.op == 'lst' and (k[0] == 'h' or k == EFF):
            return self.fold_list(k, src, e, i, carried, nxt, inits, csyms, init, n, st)
        if n is c or n is UNDEF and init is UNDEF:
            return init
        mine = c.args[0]
        others = {f for f in n.fresh if f in csyms and f != mine}
        if mine not in n.fresh and not others:
            lam = close_lam([e, i], n)
            return raw('last', src, lam, init) if init is not UNDEF else raw('last', src, lam, UNDEF)
        if not others:
            r = self.reduction(c, n, init, src, e, i, st)
            if r is not None:
                return r
        return self.fold_general(k, src, e, i, carried, nxt, inits, csyms, st)

    def fold_list(self, k, src, e, i, carried, nxt, inits, csyms, init, n, st):
        c = carried[k]
        pre = raw('spl', c)

        def strip(t):
            if t.op == 'ite':
                a, b = strip(t.args[1]), strip(t.args[2])
                if a is None or b is None:
                    return None
                return ite(t.args[0], a, b)
            if t.op == 'lst' and t.args and t.args[0] is pre:
                rest = t.args[1:]
                r = lst(*rest)
                if any(f in csyms for f in r.fresh):
                    return None
                return r
            return None
        r = strip(n)
        if r is not None:
            f = tm.flat(src, close_lam([e, i], r))
            return lst(*init.args, f) if init.op == 'lst' else lst(raw('cnd', init), f)
        g = self.fold_general(k, src, e, i, carried, nxt, inits, csyms, st)
        return lst(raw('spl', g))

    def reduction(self, c, n, init, src, e, i, st):
        mine = c.args[0]
        init = self.deref(init, st)
        if n.op == 'lin':
            k0, d = tm.lin_parts(n)
            if d.get(c) == 1:
                rest = {t: v for t, v in d.items() if t is not c}
                if not any(mine in t.fresh for t in rest):
                    x = tm.mk_lin(k0, rest)
                    return tm.add(init, tm.red('+', const(0), lst(tm.flat(src, close_lam([e, i], lst(el(x)))))))
        if n.op == 'ac' and any(a is c for a in n.args[1:]):
            rest = [a for a in n.args[1:] if a is not c]
            if rest and not any(mine in t.fresh for t in rest):
                x = tm.ac(n.args[0], *rest)
                return tm.red(n.args[0], init, lst(tm.flat(src, close_lam([e, i], lst(el(x))))))
        if n.op == 'call' and n.args[0].op == 'glob' and n.args[0].args[0] in ('max', 'min') and any(a is c for a in n.args[1:]):
            rest = [a for a in n.args[1:] if a is not c]
            if not any(mine in t.fresh for t in rest):
                return tm.red(n.args[0].args[0], init, lst(tm.flat(src, close_lam([e, i], lst(*[el(x) for x in rest])))))
        if n.op == 'scat' and n.args[0] is c and not any(mine in t.fresh for t in n.args[1:]):
            x = tm.scat(*n.args[1:])
            return raw('red', 'cat', init, lst(tm.flat(src, close_lam([e, i], lst(el(x))))))
        if n.op == 'lst' and n.args[0] is raw('spl', c) and not any(mine in t.fresh for t in n.args[1:]):
            return lst(raw('spl', init), tm.flat(src, close_lam([e, i], lst(*n.args[1:]))))
        # a container rebuilt from its previous content
        if init.op in ('dict', 'set', 'lst') and not self._mentions(n, mine, c):
            ee, ii = fresh(), fresh()
            same = {'dict': tm.flat(c, close_lam([ee, ii], lst(el(raw('tuple', ee, idx(c, ee)))))),
                    'lst': raw('spl', c), 'set': raw('spl', c)}[init.op]
            bad = []

            def grown(l):
                if l is c:
                    return lst()
                L = l if l.op == 'lst' else l.args[0] if l.op in ('dict', 'set') else None
                if L is None or l.op != init.op or L.op != 'lst' or not L.args or L.args[0] is not same \
                        or any(mine in t.fresh for t in L.args[1:]):
                    bad.append(l)
                    return lst()
                return lst(*L.args[1:])
            body = tm.map_leaves(n, grown)
            if not bad:
                L0 = init if init.op == 'lst' else init.args[0]
                f = tm.flat(src, close_lam([e, i], body))
                L1 = lst(*L0.args, f) if L0.op == 'lst' else lst(raw('cnd', L0), f)
                return L1 if init.op == 'lst' else raw(init.op, L1)
        # flags: leaves are c, TRUE or FALSE, or a value under truth(c)
        tr = raw('truth', c)
        nt, nf = tm.cofactor(n, tr, True), tm.cofactor(n, tr, False)
        lv = set(tm.leaves(n))
        if mine not in nt.fresh and (nf is c or nf is FALSE) and nt is not n:
            b = cond(nt)
            r = not_(tm.any_(src, close_lam([e, i], not_(b))))
            return and_(cond(init), r)
        if mine not in nf.fresh and (nt is c or nt is TRUE) and nf is not n:
            b = cond(nf)
            return or_(cond(init), tm.any_(src, close_lam([e, i], b)))
        if lv <= {c, TRUE} and not self._mentions(n, mine, c):
            b = tm.map_leaves(n, lambda l: TRUE if l is TRUE else FALSE)
            return self.flag(or_, init, src, e, i, b)
        if lv <= {c, FALSE} and not self._mentions(n, mine, c):
            b = tm.map_leaves(n, lambda l: FALSE if l is FALSE else TRUE)
            r = not_(tm.any_(src, close_lam([e, i], not_(b))))
            return and_(cond(init), r)
        # last write wins: leaves are c or independent values
        if n.op == 'ite' and all(l is c or mine not in l.fresh for l in lv) and not self._mentions(n, mine, c):
            body = tm.map_leaves(n, lambda l: lst() if l is c else lst(el(l)))
            return raw('lastof', init, lst(tm.flat(src, close_lam([e, i], body))))
        # conditional accumulation: every leaf is a reduction step of the same kind
        if n.op == 'ite' and not self._mentions(n, mine, c):
            ok = True

            def step(l):
                nonlocal ok
                if l is c:
                    return lst()
                k0, d = tm.lin_parts(l)
                if l.op == 'lin' and d.get(c) == 1 and not any(mine in t.fresh for t in d if t is not c):
                    return lst(el(tm.mk_lin(k0, {t: v for t, v in d.items() if t is not c})))
                ok = False
                return lst()
            body = tm.map_leaves(n, step)
            if ok:
                return tm.add(init, tm.red('+', const(0), lst(tm.flat(src, close_lam([e, i], body)))))
        return None

    def flag(self, f, init, src, e, i, b):
        return f(cond(init), tm.any_(src, close_lam([e, i], b)))

    def _mentions(self, n, mine, c):
        """does any decision of n depend on c"""
        return any(mine in a.fresh for a in tm.top_atoms(n))

    def fold_general(self, k, src, e, i, carried, nxt, inits, csyms, st):
        # slice: locations k depends on
        need = [k]
        for x in need:
            for f in sorted(nxt[x].fresh) if x in nxt else ():
                kk = csyms.get(f)
                if kk is not None and kk not in need:
                    need.append(kk)
        rest = sorted(need[1:], key=lambda kk: (tm.skey(self.ph(nxt.get(kk, UNDEF), csyms)), tm.skey(self.deref(inits[kk], st))))
        order = [k] + rest
        cs = [carried[x] for x in order]
        nx = raw('tuple', *[self.bare(nxt.get(x, UNDEF)) for x in order])
        ini = raw('tuple', *[self.bare(self.deref(inits[x], st)) for x in order])
        return raw('fold', src, ini, close_lam([e, i] + cs, nx))

    def s_While(self, s, st, ctx):
        g0 = ctx.guard
        carried = {}
        # constant false
        for attempt in range(6):
            s1 = st.copy()
            for k, c in carried.items():
                s1.m[k] = self.carry_shape(k, st.m.get(k), c)
            start = s1.copy()
            n_before = len(self.refs)
            sub = Ctx(ctx.mod, ctx.chain, ctx.fn, parent=ctx.parent)
            sub.outer = ctx
            sub.trys = ctx.trys
            sub.fnobj = getattr(ctx, 'fnobj', None)
            test = self.test(s.test, s1, sub)
            if test is None:
                return None
            sub.guard = test
            end, bc, bs = self.once(NONE, NONE, s1, sub, lambda e, i, a, b: None, s.body) if test is not FALSE else (None, FALSE, None)
            mod = set()
            states = [x for x in (end, bs) if x is not None] + [x.state for x in sub.exits if x.kind == 'ret']
            for sx in states:
                for k, v in sx.m.items():
                    if k in start.m:
                        if start.m[k] is not v:
                            mod.add(k)
                    elif k[0] == 'e' or k == EFF:
                        mod.add(k)
                    elif k[0] == 'x' and not (self.bases[k[1]].op == 'ref' and self.bases[k[1]].args[0] >= n_before):
                        mod.add(k)
            live = {sid for sid, _ in ctx.chain}
            mod = {k for k in mod if k[0] != 'e' or k[1] in live}
            newk = mod - set(carried)
            if not newk:
                break
            for k in newk:
                carried[k] = fresh()
        csyms = {c.args[0]: k for k, c in carried.items()}
        nxt = {}
        for k in carried:
            v = (end.m.get(k) if end is not None else None)
            if v is None:
                v = start.m.get(k, UNDEF)
            nxt[k] = self.deref_new(v, end, n_before) if end is not None else v
        inits = {k: (st.m[k] if k in st.m else self.init_of(k)) for k in carried}
        rets = [x for x in sub.exits if x.kind == 'ret']
        raises = [x for x in sub.exits if x.kind == 'raise']
        testv = self.deref(test, start)
        out = State(dict(st.m))
        if bc is FALSE and not rets and not raises:
            for k in carried:
                need = [k]
                deps0 = [csyms[f] for f in sorted(testv.fresh) if f in csyms]
                for x in deps0:
                    if x not in need:
                        need.append(x)
                for x in need:
                    for f in sorted(nxt[x].fresh):
                        kk = csyms.get(f)
                        if kk is not None and kk not in need:
                            need.append(kk)
                rest = sorted(need[1:], key=lambda kk: (tm.skey(self.ph(nxt[kk], csyms)), tm.skey(self.deref(inits[kk], st))))
                order = [k] + rest
                cs = [carried[x] for x in order]
                ini = raw('tuple', *[self.bare(self.deref(inits[x], st)) for x in order])
                w = raw('wloop', ini, close_lam(cs, raw('step', testv, raw('tuple', *[self.bare(nxt[x]) for x in order]))))
                self.put(out, k, w, inits[k])
            st.m = out.m
            return st
        # general while with exits
        skeyf = lambda k: (tm.skey(self.ph(nxt[k], csyms)), tm.skey(self.deref(inits[k], st)))
        rv, rc = UNDEF, FALSE
        for x in reversed(rets):
            rv = ite(x.cond, self.deref(x.val, x.state), rv)
            rc = or_(rc, self.deref(x.cond, x.state))
        rz, rzc = UNDEF, FALSE
        for x in reversed(raises):
            rz = ite(x.cond, self.deref(x.val, x.state), rz)
            rzc = or_(rzc, self.deref(x.cond, x.state))
        bcd = self.deref(bc, bs or st)
        bval = {k: self.deref(bs.m.get(k, UNDEF), bs) if bs is not None else UNDEF for k in carried}

        def build(order):
            cs = [carried[k] for k in order]
            ini = raw('tuple', *[self.bare(self.deref(inits[x], st)) for x in order])
            body = raw('step', testv, raw('tuple', *[self.bare(nxt[k]) for k in order]),
                       bcd, raw('tuple', *[bval[k] for k in order]) if bc is not FALSE else NONE, rc, rv, rzc, rz)
            return raw('wloopx', ini, close_lam(cs, body))
        L, place = self.live_loop(carried, csyms, nxt, bval, [testv, bcd, rc, rv, rzc, rz], skeyf, build)
        g = g0
        stop = FALSE
        if rets:
            c = tm._atom(raw('isret', raw('lret', L)))
            ctx.exits.append(Exit(and_(g0, c), 'ret', raw('lretv', L), self.loop_exit_state(st, place, inits)))
            stop = or_(stop, c)
        if raises:
            c = and_(tm._atom(raw('isret', raw('lraise', L))), not_(stop))
            ctx.exits.append(Exit(and_(g0, c), 'raise', raw('lexc', L), st))
            stop = or_(stop, c)
        bcnd = FALSE
        bst = None
        if bc is not FALSE:
            bcnd = and_(tm._atom(raw('isret', raw('lbreak', L))), not_(stop))
            bst = State(dict(st.m))
            for k in place:
                self.put(bst, k, raw('lbrk', *place[k]()), inits[k])
        for k in place:
            self.put(out, k, raw('lval', *place[k]()), inits[k])
        infinite = testv is TRUE
        ctx.guard = and_(g0, not_(or_(stop, bcnd))) if not infinite else FALSE
        cur = out if not infinite else None
        if cur is not None and s.orelse:
            cur = self.block(s.orelse, cur, ctx)
        if bst is not None:
            gn = ctx.guard
            cur = self.merge(bcnd, bst, cur)
            ctx.guard = or_(gn, and_(g0, bcnd)) if not infinite else and_(g0, not_(stop))
        if cur is None:
            ctx.guard = FALSE
            return None
        st.m = cur.m
        return st

    def live_loop(self, carried, csyms, nxt, bval, roots, key, build):
        """the loop over the variables that decide its course; a variable that is only
        carried along gets its own copy of the loop with what it needs"""
        def closure(ks):
            out = set(ks)
            work = list(ks)
            while work:
                k = work.pop()
                for f in nxt.get(k, UNDEF).fresh:
                    kk = csyms.get(f)
                    if kk is not None and kk not in out:
                        out.add(kk)
                        work.append(kk)
            return out
        live = closure({csyms[f] for t in roots for f in t.fresh if f in csyms})
        order = sorted(live, key=key)
        L = build(order)
        place = {}

        def other(k):
            def f():
                more = closure(live | {k} | {csyms[f] for f in bval[k].fresh if f in csyms})
                o = sorted(more, key=key)
                return build(o), o.index(k)
            return f
        for n, k in enumerate(order):
            place[k] = lambda n=n: (L, n)
        for k in carried:
            if k not in live:
                place[k] = other(k)
        return L, place

    def loop_exit_state(self, st, place, inits):
        s = State(dict(st.m))
        for k in place:
            self.put(s, k, raw('lrets', *place[k]()), inits[k])
        return s

    # ------------------------------------------------------------ expressions
    def test(self, e, st, ctx):
        v = self.expr(e, st, ctx)
        if v is None:
            return None
        v = self.dv(v, st)
        return cond(v)

    def expr(self, e, st, ctx, stmt=False):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.note(f'unsupported expression {type(e).__name__}')
            return tm.unk(type(e).__name__)
        if isinstance(e, ast.Call):
            v = self.e_Call(e, st, ctx, stmt)
        else:
            v = m(e, st, ctx)
        if v is None:
            # expression never returns normally
            return raw('dead')
        if self.track and v.id not in self.prov and ctx.mod.name.startswith('peak') and v.op not in ('const', 'sym', 'glob', 'fresh'):
            self.prov[v.id] = (ctx.mod.rel, e.lineno, ctx.fn)
        return v

    def e_Constant(self, e, st, ctx):
        return const(e.value)

    def e_Name(self, e, st, ctx):
        return self.name(e.id, st, ctx)

    def name(self, n, st, ctx):
        for sid, names in reversed(ctx.chain):
            v = st.m.get(('e', sid, n))
            if v is not None:
                return v
            if n in names:
                return UNDEF
        return self.global_name(n, ctx.mod)

    def global_name(self, n, mod):
        r = self.prog.lookup(mod, n)
        if r is None:
            if n in BUILTINS:
                return glob(n)
            return glob('?' + n)
        return self.resolved(r, mod.name + '.' + n)

    def resolved(self, r, dotted):
        k = r[0]
        if k == 'mod':
            return glob(r[1].name)
        if k == 'func':
            return glob(r[1].name + '.' + r[2].name)
        if k == 'class':
            return glob(r[1].qual)
        if k == 'ext':
            return glob(canon_ext(r[1].lstrip('?')))
        if k == 'assign':
            _, m, n, ex = r
            q = m.name + '.' + n
            if q in self.opaque:
                return glob(q)
            v = self.mod_const(m, n, ex)
            return v if v is not None else glob(q)
        if k == 'multi':
            return glob(r[1].name + '.' + r[2])
        if k == 'member':
            return glob(r[1].qual + '.' + '.'.join(r[2]))
        return glob(dotted)

    _mc = {}

    def mod_const(self, m, n, ex):
        key = (m.name, n)
        if key in self._mc:
            return self._mc[key]
        self._mc[key] = None
        v = None
        if isinstance(ex, ast.Constant) or isinstance(ex, ast.UnaryOp) and isinstance(ex.operand, ast.Constant):
            v = self.expr(ex, State(), Ctx(m, (), '<module>'))
        elif isinstance(ex, (ast.Name, ast.Attribute)):
            v = self.expr(ex, State(), Ctx(m, (), '<module>'))
        elif isinstance(ex, ast.Call) and isinstance(ex.func, ast.Name) and ex.func.id == 'partial':
            v = self.expr(ex, State(), Ctx(m, (), '<module>'))
        elif isinstance(ex, ast.Tuple) and all(isinstance(x, (ast.Constant, ast.Name, ast.Attribute)) for x in ex.elts):
            v = self.expr(ex, State(), Ctx(m, (), '<module>'))
        elif isinstance(ex, ast.Lambda):
            v = None
        if v is not None and self._needs(v):
            v = None
        self._mc[key] = v
        return v

    def fmt_value(self, x, conv=None, spec=None):
        if conv == 'r':
            x = tm.call(glob('repr'), x)
        elif conv == 's':
            x = tm.tostr(x)
        elif conv is not None:
            x = tm.call(glob('ascii'), x)
        if spec is None or tm.is_const(spec, str) and spec.args[0] == '':
            return tm.tostr(x)
        return tm.call(glob('format'), x, spec)

    def e_JoinedStr(self, e, st, ctx):
        parts = [const('')]
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.deref(self.expr(v.value, st, ctx), st)
                spec = None if v.format_spec is None else self.deref(self.expr(v.format_spec, st, ctx), st)
                parts.append(self.fmt_value(x, None if v.conversion == -1 else chr(v.conversion), spec))
        return tm.scat(*parts)

    def str_format(self, s, pos, kws, st):
        """'...{}...'.format(..) as the concatenation it stands for, or None"""
        if any(p.op == 'star' for p in pos) or any(k.op != 'kw' for k in kws):
            return None
        kw = {k.args[0]: k.args[1] for k in kws}
        parts, n = [const('')], 0
        try:
            items = list(string.Formatter().parse(s))
        except ValueError:
            return None
        for text, field, spec, conv in items:
            if text:
                parts.append(const(text))
            if field is None:
                continue
            if field == '':
                k = n
                n += 1
            elif field.isdigit():
                k = int(field)
            else:
                k = field
            if '{' in spec or (k not in kw if isinstance(k, str) else k >= len(pos)):
                return None
            x = kw[k] if isinstance(k, str) else pos[k]
            parts.append(self.fmt_value(self.deref(x, st), conv, const(spec)))
        return tm.scat(*parts)

    def str_percent(self, s, b):
        """'...%s...' % b, or None"""
        parts, vals = [const('')], list(b.args) if b.op == 'tuple' else [b]
        single = b.op != 'tuple'
        n = 0
        for piece in re.split(r'(%[a-zA-Z%])', s):
            if piece == '%%':
                parts.append(const('%'))
            elif piece in ('%s', '%r', '%d'):
                if n >= len(vals):
                    return None
                v = vals[n]
                n += 1
                if single and v.op not in ('call', 'const', 'attr', 'lin', 'scat', 'idx', 'fresh', 'bv', 'sym'):
                    return None
                parts.append(self.fmt_value(v, 'r' if piece == '%r' else None))
            elif '%' in piece:
                return None
            elif piece:
                parts.append(const(piece))
        return tm.scat(*parts) if n == len(vals) else None

    def e_Tuple(self, e, st, ctx):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return tm.tupof(self.seq(e.elts, st, ctx)) if not self._tuplecat(e) else self._tcat(e, st, ctx)
        vs = [self.expr(x, st, ctx) for x in e.elts]
        if any(v is None for v in vs):
            return None
        return raw('tuple', *vs)

    def _tuplecat(self, e):
        return True

    def _tcat(self, e, st, ctx):
        # (a, *b, c) is tuple concatenation a + tuple(b) + c
        parts = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.deref(self.expr(x.value, st, ctx), st)
                if v.op == 'lst':
                    v = tm.tupof(v)
                parts.append(v)
            else:
                parts.append(raw('tuple', self.expr(x, st, ctx)))
        if len(parts) == 1:
            return parts[0]
        if all(p.op == 'tuple' for p in parts):
            return raw('tuple', *[y for p in parts for y in p.args])
        return tm.scat(*parts)

    def seq(self, elts, st, ctx):
        segs = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.expr(x.value, st, ctx)
                L = as_list(self.deref(v, st))
                segs += list(L.args) if L.op == 'lst' else [raw('cnd', L)]
            else:
                segs.append(el(self.expr(x, st, ctx)))
        return lst(*segs)

    def e_List(self, e, st, ctx):
        L = self.seq(e.elts, st, ctx)
        r = self.newref('list')
        st.m[('h', r.args[0])] = L
        return r

    def e_Set(self, e, st, ctx):
        L = self.seq(e.elts, st, ctx)
        r = self.newref('set')
        st.m[('h', r.args[0])] = raw('set', L)
        return r

    def e_Dict(self, e, st, ctx):
        segs = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.deref(self.expr(v, st, ctx), st)
                segs += list(self.dict_segs(d))
            else:
                kk = self.deref(self.expr(k, st, ctx), st)
                segs.append(el(raw('tuple', kk, self.expr(v, st, ctx))))
        r = self.newref('dict')
        st.m[('h', r.args[0])] = raw('dict', lst(*segs))
        return r

    def dict_segs(self, d):
        if d.op == 'dict':
            return d.args[0].args
        if d.op == 'ite':
            t = tm.map_leaves(d, lambda x: lst(*self.dict_segs(x)))
            return t.args if t.op == 'lst' else (raw('cnd', t),)
        e, i = fresh(), fresh()
        return (tm.flat(d, close_lam([e, i], lst(el(raw('tuple', e, idx(d, e)))))),)

    def e_UnaryOp(self, e, st, ctx):
        v = self.expr(e.operand, st, ctx)
        v = self.dv(v, st)
        if isinstance(e.op, ast.Not):
            return not_(cond(v))
        if isinstance(e.op, ast.USub):
            return tm.unop('-', v)
        if isinstance(e.op, ast.Invert):
            return tm.unop('~', v)
        return v

    def e_BinOp(self, e, st, ctx):
        a = self.expr(e.left, st, ctx)
        b = self.expr(e.right, st, ctx)
        op = BIN.get(type(e.op), '?')
        a, b = [self.deref(x, st) if x.op == 'ref' or x.op == 'ite' and any(l.op == 'ref' for l in tm.leaves(x)) else x
                for x in (a, b)]
        if op == '%' and tm.is_const(a, str):
            r = self.str_percent(a.args[0], b)
            return r if r is not None else raw('bin', '%', a, b)
        if op == '*' and (a.op == 'lst' or b.op == 'lst'):
            r = self.newref('list')
            l, n = (a, b) if a.op == 'lst' else (b, a)
            if len(l.args) == 1 and l.args[0].op == 'el':
                x = l.args[0].args[0]
                g, h = fresh(), fresh()
                st.m[('h', r.args[0])] = lst(tm.flat(raw('call', glob('range'), n), close_lam([g, h], lst(el(x)))))
            else:
                st.m[('h', r.args[0])] = lst(raw('spl', raw('bin', '*', l, n)))
            return r
        v = tm.binop(op, a, b)
        if v.op == 'ite' and all(l.op == 'lst' for l in tm.leaves(v)):
            v = lst(raw('cnd', v))
        if v.op == 'lst':
            r = self.newref('list')
            st.m[('h', r.args[0])] = v
            return r
        return v

    def e_BoolOp(self, e, st, ctx):
        isand = isinstance(e.op, ast.And)
        v = self.expr(e.values[0], st, ctx)
        g = ctx.guard
        for x in e.values[1:]:
            vv = self.dv(v, st)
            c = cond(vv)
            cc = c if isand else not_(c)
            ctx.guard = and_(ctx.guard, cc)
            if cc is FALSE:
                break
            s2 = st.copy()
            w = self.expr(x, s2, ctx)
            st.m = self.merge(cc, s2, st).m
            if isand:
                v = ite(c, w, FALSE if tm.is_bool(vv) else self._ctxfalse(vv))
            else:
                v = ite(c, TRUE if tm.is_bool(vv) else vv, w)
        ctx.guard = g
        return v

    def _ctxfalse(self, v):
        # a falsy value; only its truth is normally observed
        return v

    def e_Compare(self, e, st, ctx):
        a = self.expr(e.left, st, ctx)
        r = None
        for op, x in zip(e.ops, e.comparators):
            b = self.expr(x, st, ctx)
            a1, b1 = self.deref(a, st), self.deref(b, st)
            v = self.compare(CMP[type(op)], a1, b1)
            r = v if r is None else ite(cond(r), v, FALSE if tm.is_bool(r) else r) if False else (v if r is None else self._and(r, v))
            a = b
        return r

    def _and(self, a, b):
        return and_(cond(a), cond(b))

    def compare(self, op, a, b):
        if op in ('in', 'not in') and self.is_memo(b):
            self.lookups.append((b, a))
            return FALSE if op == 'in' else TRUE
        if op in ('is', 'is not', '==', '!='):
            # type(x) is C
            for x, y in ((a, b), (b, a)):
                if y.op == 'tuple' and x.op == 'tuple':
                    pass
        return tm.cmp_(op, a, b)

    def _typeof(self, a, b):
        return False

    def e_IfExp(self, e, st, ctx):
        c = self.test(e.test, st, ctx)
        if c is TRUE:
            return self.expr(e.body, st, ctx)
        if c is FALSE:
            return self.expr(e.orelse, st, ctx)
        g = ctx.guard
        s1, s2 = st.copy(), st.copy()
        ctx.guard = and_(g, c)
        a = self.expr(e.body, s1, ctx)
        ctx.guard = and_(g, not_(c))
        b = self.expr(e.orelse, s2, ctx)
        ctx.guard = g
        st.m = self.merge(c, s1, s2).m
        return ite(c, a, b)

    def e_NamedExpr(self, e, st, ctx):
        v = self.expr(e.value, st, ctx)
        self.assign(e.target, v, st, ctx)
        return v

    def e_Starred(self, e, st, ctx):
        return raw('star', self.expr(e.value, st, ctx))

    def e_Lambda(self, e, st, ctx):
        return self.mkfn(Fn(e, ctx.mod, ctx.chain, name='<lambda>'))

    def e_Slice(self, e, st, ctx):
        f = lambda x: NONE if x is None else self.dv(self.expr(x, st, ctx), st)
        return tm.rebuild('slice', [f(e.lower), f(e.upper), f(e.step)])

    def e_Yield(self, e, st, ctx):
        return NONE

    def e_Subscript(self, e, st, ctx):
        b = self.expr(e.value, st, ctx)
        k = self.expr(e.slice, st, ctx)
        return self.getitem(b, k, st, ctx)

    def getitem(self, b, k, st, ctx):
        k = self.deref(k, st)
        if b.op == 'ref':
            v = st.m.get(('h', b.args[0]))
            if v is not None:
                r = idx(v, k)
                if r.op != 'idx' or r.args[0] is not v:
                    return r
                self.may_raise('KeyError', not_(cond(tm.cmp_('in', k, self.deref(v, st)))), st, ctx)
                return idx(self.deref(b, st), k)
        b = self.deref(b, st)
        if b.op in ('attr', 'idx') and not self.is_memo(b):
            v = self.stored(st.m.get(EFF, lst()), b, k)
            if v is not None and v is not UNDEF:
                return v
        if self.is_memo(b):
            self.lookups.append((b, k))
            v = st.m.get(('e', 'memo', b.id, k.id))
            if v is not None and v is not UNDEF:
                return v
            self.may_raise('KeyError', TRUE, st, ctx)
            return idx(b, k)
        if b.op not in ('tuple', 'lst') and not (b.op == 'glob' and False):
            self.may_raise('KeyError', not_(cond(tm.cmp_('in', k, b))), st, ctx)
        return idx(b, k)

    def is_sentinel(self, name):
        r = self.prog.resolve(name)
        n = name.rpartition('.')[2]
        if not n.startswith('_'):
            return False
        if r[0] == 'class':
            return all(isinstance(x, ast.Pass) for x in r[1].node.body) and not r[1].node.bases and not r[1].node.keywords
        return r[0] == 'assign' and isinstance(r[-1], ast.Call) and isinstance(r[-1].func, ast.Name) and r[-1].func.id == 'object' and not r[-1].args

    def stored(self, L, b, k):
        """what an item was last set to; None: never, UNDEF: unknown"""
        if L.op != 'lst':
            return self.stored_in(L, b, k)
        for j in range(len(L.args) - 1, -1, -1):
            s = L.args[j]
            v = self.stored_in(s.args[0], b, k) if s.op in ('cnd', 'el') else None
            if v is UNDEF:
                return UNDEF
            if v is not None:
                if any(x is UNDEF for x in tm.leaves(v)):
                    w = self.stored(raw('lst', *L.args[:j]), b, k)
                    if w is UNDEF:
                        return UNDEF
                    w = idx(b, k) if w is None else w
                    v = tm.map_leaves(v, lambda x: w if x is UNDEF else x)
                return v
        return None

    def stored_in(self, t, b, k):
        if t.op == 'setitem' and t.args[0] is b:
            return t.args[2] if t.args[1] is k else UNDEF
        if t.op in ('delitem', 'setdefault') and t.args[0] is b:
            return UNDEF
        if t.op == 'lst':
            return self.stored(t, b, k)
        if t.op == 'ite':
            x, y = self.stored(t.args[1], b, k), self.stored(t.args[2], b, k)
            if x is None and y is None:
                return None
            if x is UNDEF or y is UNDEF:
                return UNDEF
            return ite(t.args[0], UNDEF if x is None else x, UNDEF if y is None else y)
        return None

    def e_Attribute(self, e, st, ctx):
        b = self.expr(e.value, st, ctx)
        return self.getattr_(b, e.attr, st, ctx)

    def cls_of(self, b):
        if b.op == 'ref':
            return self.refs[b.args[0]][1]
        return self.typed.get(b.id)

    def closed_class(self, c):
        """every attribute of an instance comes from code of the repository"""
        if any(x.rsplit('.', 1)[-1] not in ('object', 'ABC', 'Generic') for x in self.prog.ext_bases(c)):
            return False
        return self.prog.find_method(c, '__getattr__')[1] is None and self.prog.find_method(c, '__getattribute__')[1] is None

    def getattr_(self, b, name, st, ctx):
        if b.op == 'ite':
            # same attribute on both alternatives
            return ite(b.args[0], self.getattr_(b.args[1], name, st, ctx), self.getattr_(b.args[2], name, st, ctx))
        v = st.m.get(('x', b.id, name))
        if v is not None and v is not UNDEF:
            return v
        if b.op == 'super':
            return self.super_attr(b, name, st, ctx)
        c = self.cls_of(b)
        if c is not None:
            k, n = self.prog.find_method(c, name)
            if n is not None:
                r = self.member(b, k, n, name, st, ctx)
                if r is not None:
                    return r
            elif b.op == 'ref' and not (name.startswith('__') and name.endswith('__')) and self.closed_class(c):
                return UNDEF        # nothing sets it: AttributeError
        if b.op == 'lcls':
            c = self.lcls[b.args[0]]
        if b.op == 'glob':
            r = self.prog.resolve(b.args[0] + '.' + name)
            if r[0] == 'member' and len(r[2]) == 1:
                return self.class_member(r[1], r[2][0], st, ctx, b)
            if r[0] == 'member':
                if len(r[2]) == 2 and r[2][1] in ('value', '_value_') and self.prog.is_enum(r[1]):
                    d = r[1].body.get(r[2][0])
                    if isinstance(d, ast.Assign) and isinstance(d.value, ast.Constant):
                        return const(d.value.value)
                return attr(b, name)
            if not (r[0] == 'ext' and r[1].startswith('?')):
                return self.resolved(r, b.args[0] + '.' + name)
            # class attribute through the mro
            rc = self.prog.resolve(b.args[0])
            if rc[0] == 'class':
                return self.class_member(rc[1], name, st, ctx, b)
            return glob(canon_ext(b.args[0] + '.' + name))
        if b.op == 'ref' and self.refs[b.args[0]][0] != 'obj':
            return raw('attr', b, name)
        if name == '__class__':
            return raw('call', glob('type'), b)
        if b.op in ('fresh', 'sym', 'bv', 'attr', 'idx', 'call'):
            self.may_raise('AttributeError', not_(tm._atom(raw('has', b, name))), st, ctx)
        if b.op in ('fn', 'bm', 'deco'):
            return raw('attr', b, name)
        bb = self.deref(b, st) if b.op in ('ref',) and self.refs[b.args[0]][1] is None else b
        return attr(bb, name)

    def class_member(self, c, name, st, ctx, b):
        if isinstance(c.body.get(name), ast.Assign) and self.prog.is_enum(c):
            return glob(c.qual + '.' + name)
        k, n = self.prog.find_method(c, name)
        if n is None:
            return glob(c.qual + '.' + name)
        if isinstance(n, ast.FunctionDef):
            decs = [dotted_of(d) for d in n.decorator_list]
            if 'staticmethod' in decs:
                return self.mkfn(Fn(n, k.mod, (), cls=k, name=n.name, qual=f'{k.mod.name}:{k.node.name}.{n.name}'))
            if 'classmethod' in decs:
                return raw('bm', self.mkfn(Fn(n, k.mod, (), cls=k, name=n.name, qual=f'{k.mod.name}:{k.node.name}.{n.name}')), b)
            if not decs:
                return self.mkfn(Fn(n, k.mod, (), cls=k, name=n.name, qual=f'{k.mod.name}:{k.node.name}.{n.name}'))
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            if isinstance(n.value, (ast.Constant, ast.Tuple)):
                return self.expr(n.value, State(), Ctx(k.mod, (), k.node.name))
        return glob(k.qual + '.' + name)

    def member(self, b, k, n, name, st, ctx, up=False):
        """attribute `name` of instance b, defined in class k as n"""
        if isinstance(n, ast.FunctionDef):
            decs = [dotted_of(d.func if isinstance(d, ast.Call) else d) for d in n.decorator_list]
            fn = Fn(n, k.mod, (), cls=k, name=n.name, qual=f'{k.mod.name}:{k.node.name}.{n.name}')
            q = k.qual + '.' + name
            if any(d and d.split('.')[-1] == 'abstractmethod' for d in decs) and \
                    (not up or all(isinstance(x, ast.Pass) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant) for x in n.body)):
                return raw('attr', b, name)     # what a subclass defines
            if 'property' in decs or 'functools.cached_property' in decs or 'cached_property' in decs:
                if q in self.opaque:
                    return raw('attr', b, name)
                v, s = self.run_fn(fn, [b], [], st, ctx)
                return v
            if 'staticmethod' in decs:
                return self.mkfn(fn)
            if 'classmethod' in decs:
                return raw('bm', self.mkfn(fn), raw('call', glob('type'), b))
            if q in self.opaque:
                return raw('attr', b, name)
            return raw('bm', self.mkfn(fn), b)
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            v = n.value
            if isinstance(v, (ast.Constant, ast.Tuple)):
                return self.expr(v, State(), Ctx(k.mod, (), k.node.name))
            if isinstance(v, ast.Attribute):
                vv = self.expr(v, State(), Ctx(k.mod, (), k.node.name))
                if vv.op == 'fn':
                    return raw('bm', vv, b)
                return raw('attr', b, name)
        return raw('attr', b, name)

    def super_attr(self, b, name, st, ctx):
        selfv, cname = b.args
        c = self.cls_of(selfv)
        cur = self.cur_cls(ctx)
        if c is None:
            c = cur
        if c is not None and cur is not None:
            k, n = self.prog.find_method(c, name, after=cur)
            if n is not None and c is cur and selfv.op != 'ref' and any(self.prog.find_method(d, name, after=cur)[0] is not k for d in self.prog.subclasses(cur)):
                return raw('smeth', selfv, name)      # the next class depends on what the object is an instance of
            if n is not None:
                return self.member(selfv, k, n, name, st, ctx, up=True) if isinstance(n, ast.FunctionDef) else raw('attr', b, name)
        return raw('smeth', selfv, name)

    def cur_cls(self, ctx):
        for f in reversed(self.stack):
            if f.cls is not None:
                return f.cls
        return None

    # ---- comprehensions
    def comp(self, gens, st, ctx, leaf, n=0):
        """list term of the comprehension"""
        if n == len(gens):
            return leaf(st, ctx)
        g = gens[n]
        it = self.deref(self.expr(g.iter, st, ctx), st)
        L = as_list(it)

        def body(e, i):
            self.scopes += 1
            names = set()
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
            c2 = Ctx(ctx.mod, ctx.chain + ((self.scopes, frozenset(names)),), ctx.fn, parent=ctx.parent)
            c2.trys = ctx.trys
            c2.guard = TRUE
            c2.fnobj = getattr(ctx, 'fnobj', None)
            s2 = st.copy()
            nref = len(self.refs)
            self.assign(g.target, e, s2, c2)
            c = TRUE
            for f in g.ifs:
                c = and_(c, self.test(f, s2, c2))
            if c is FALSE:
                return lst()
            r = self.comp(gens, s2, c2, leaf, n + 1)
            r = self.deref_new(r, s2, nref)
            # effects of comprehension bodies are dropped; raises are kept
            for x in c2.exits:
                if x.kind == 'raise':
                    xc = self.deref(and_(c, x.cond), x.state)
                    pend.append((e, i, xc, x))
            return ite(c, r, lst())
        pend = []
        R = iterate(L, body)
        self.comp_raises(pend, st, ctx)
        if R.op == 'ite':
            return lst(raw('cnd', R))
        return R

    def comp_raises(self, pend, st, ctx):
        """raise exits of a per-element body become exits of the iteration"""
        for e, i, xc, x in pend:
            src = None
            if e.op == 'fresh' or i.op == 'fresh':
                p = tm.POS.get(i.args[0]) if i.op == 'fresh' else None
                if p is not None:
                    src = p[0]
            if src is not None:
                rc = tm.any_(src, close_lam([p[1], i], xc))
                ctx.exits.append(Exit(and_(ctx.guard, rc), 'raise', x.val, st.copy()))
            elif not (xc.fresh and e.op == 'fresh' and e.args[0] in xc.fresh):
                ctx.exits.append(Exit(and_(ctx.guard, xc), 'raise', x.val, st.copy()))

    def e_ListComp(self, e, st, ctx):
        L = self.comp(e.generators, st, ctx, lambda s, c: lst(el(self.expr(e.elt, s, c))))
        r = self.newref('list')
        st.m[('h', r.args[0])] = L
        return r
    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st, ctx):
        L = self.comp(e.generators, st, ctx, lambda s, c: lst(el(self.expr(e.elt, s, c))))
        r = self.newref('set')
        st.m[('h', r.args[0])] = raw('set', L)
        return r

    def e_DictComp(self, e, st, ctx):
        def leaf(s, c):
            k = self.deref(self.expr(e.key, s, c), s)
            return lst(el(raw('tuple', k, self.expr(e.value, s, c))))
        L = self.comp(e.generators, st, ctx, leaf)
        r = self.newref('dict')
        st.m[('h', r.args[0])] = raw('dict', L)
        return r

    # ---- calls
    def joined(self, e, st, ctx):
        if isinstance(e, (ast.List, ast.Tuple)):
            return len(e.elts) > 1
        if isinstance(e, ast.Call) and isinstance(e.func, (ast.Name, ast.Attribute)):
            f = self.expr(e.func, st.copy(), ctx)
            return f is not None and 'chain' in repr(f)[:40]
        return isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add)

    def e_Call(self, e, st, ctx, stmt=False):
        f = e.func
        # grouping idioms on dict refs
        if isinstance(f, ast.Attribute) and f.attr in ('append', 'extend', 'add', 'update'):
            g = self.grouping(f, e, st, ctx)
            if g is not None:
                return g
        if isinstance(f, ast.Name) and f.id == 'super' and not e.args:
            s = self.self_of(ctx, st)
            return raw('super', s, const(0))
        if isinstance(f, ast.Name) and f.id == 'locals' and not e.args:
            return self.locals_(st, ctx)
        fv = self.expr(f, st, ctx)
        if fv is glob('dict.fromkeys') and 1 <= len(e.args) <= 2 and not e.keywords \
                and all(isinstance(a, (ast.Constant, ast.Name)) for a in e.args[1:]) and not isinstance(e.args[0], ast.Starred) \
                and self.joined(e.args[0], st, ctx):
            k = ast.Name('fromkeys key', ast.Store())
            d = ast.DictComp(ast.Name('fromkeys key', ast.Load()), e.args[1] if e.args[1:] else ast.Constant(None), [ast.comprehension(k, e.args[0], [], 0)])
            return self.expr(ast.fix_missing_locations(ast.copy_location(d, e)), st, ctx)
        pos, kws = [], []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value, st, ctx)
                v = self.deref_shallow(v, st) if v.op == 'ref' and self.refs[v.args[0]][0] == 'list' else v
                if v.op == 'tuple':
                    pos += list(v.args)
                elif v.op == 'lst' and all(s.op == 'el' for s in v.args):
                    pos += [s.args[0] for s in v.args]
                else:
                    pos.append(raw('star', v))
            else:
                v = self.expr(a, st, ctx)
                if v is None:
                    return None
                pos.append(v)
        for k in e.keywords:
            v = self.expr(k.value, st, ctx)
            if v is None:
                return None
            if k.arg is None:
                kws.append(raw('dstar', v))
            else:
                kws.append(raw('kw', k.arg, v))
        if fv.op == 'attr' and fv.args[0].id in self.lself and fv.args[1] in self.lself[fv.args[0].id]:
            # a private helper method of the class being defined
            pos, fv = [fv.args[0]] + pos, self.lself[fv.args[0].id][fv.args[1]]
        if kws and fv.op == 'call' and fv.args[0] is glob('type') and len(fv.args) == 2:
            pos, kws = self.in_order(fv.args[1], pos, kws, st, ctx)
        v = self.call_value(fv, pos, kws, st, ctx, e, stmt)
        return v

    def in_order(self, obj, pos, kws, st, ctx):
        """arguments of type(self)(...) by position, as __init__ of the class names them"""
        f = next((f for f in reversed(self.stack) if f.cls is not None), None)
        if f is None or self.self_of(ctx, st) is not obj or any(p.op == 'star' for p in pos) or any(k.op != 'kw' for k in kws):
            return pos, kws
        k, init = self.prog.find_method(f.cls, '__init__')
        if not isinstance(init, ast.FunctionDef):
            return pos, kws
        names = [x.arg for x in init.args.posonlyargs + init.args.args][1:]
        given = {k.args[0]: k for k in kws}
        pos = list(pos)
        while len(pos) < len(names) and names[len(pos)] in given:
            pos.append(given.pop(names[len(pos)]).args[1])
        return pos, [k for k in kws if k.args[0] in given]

    def locals_(self, st, ctx):
        sid, names = ctx.chain[-1]
        segs = []
        for n in sorted(names):
            v = st.m.get(('e', sid, n))
            if v is not None and v is not UNDEF:
                segs.append(el(raw('tuple', const(n), v)))
        return raw('localsd')

    def self_of(self, ctx, st):
        for f in reversed(self.stack):
            if f.cls is not None:
                a = f.node.args.args
                if a:
                    for sid, names in reversed(ctx.chain):
                        if a[0].arg in names:
                            v = st.m.get(('e', sid, a[0].arg))
                            if v is not None:
                                return v
                break
        for sid, names in reversed(ctx.chain):
            for n in ('self', 'cls', 'mcs'):
                v = st.m.get(('e', sid, n))
                if v is not None:
                    return v
        return sym('$self')

    def grouping(self, f, e, st, ctx):
        v = f.value
        base = key = None
        if isinstance(v, ast.Subscript):
            base = self.expr(v.value, st, ctx)
            if not (base.op == 'ref' and self.refs[base.args[0]][0] == 'dict'):
                return None
            key = self.deref(self.expr(v.slice, st, ctx), st)
            inner = idx(st.m[('h', base.args[0])], key)
            if inner.op == 'ref':
                return None
        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'setdefault' and len(v.args) == 2:
            base = self.expr(v.func.value, st, ctx)
            if not (base.op == 'ref' and self.refs[base.args[0]][0] == 'dict'):
                return None
            key = self.deref(self.expr(v.args[0], st, ctx), st)
        else:
            return None
        x = self.expr(e.args[0], st, ctx)
        if f.attr in ('append', 'add'):
            L = lst(el(x))
        else:
            L = as_list(self.deref(x, st))
        loc = ('h', base.args[0])
        d = st.m[loc]
        segs = list(d.args[0].args)
        if segs and segs[-1].op == 'el' and segs[-1].args[0].op == 'grp' and segs[-1].args[0].args[0] is key:
            old = segs.pop().args[0].args[1]
            L = lst(*old.args, *(L.args if L.op == 'lst' else (raw('cnd', L),)))
        elif segs and segs[-1].op == 'cnd' and segs[-1].args[0].op == 'ite':
            # an empty list put under the key when it is not there yet
            c, x, y = segs[-1].args[0].args
            if not (x.op == 'lst' and not x.args):
                c, x, y = not_(c), y, x
            if x.op == 'lst' and not x.args and y.op == 'lst' and len(y.args) == 1 and y.args[0].op == 'el' and y.args[0].args[0].op == 'tuple' \
                    and len(y.args[0].args[0].args) == 2 and y.args[0].args[0].args[0] is key:
                v0 = self.deref(y.args[0].args[0].args[1], st)
                if v0.op == 'lst' and not v0.args and \
                        cond(c) is cond(tm.cmp_('in', key, self.deref(raw('dict', lst(*segs[:-1])), st))):
                    segs.pop()
        st.m[loc] = raw('dict', lst(*segs, el(raw('grp', key, L))))
        return NONE

    def dropped(self, fv):
        if fv.op == 'glob':
            n = fv.args[0]
            return n in DROP_CALLS or n.startswith('logging.') or '.logger.' in n
        if fv.op == 'attr':
            b = fv.args[0]
            return b.op == 'glob' and (b.args[0].endswith('logger') or b.args[0] == 'logging')
        return False

    def call_value(self, fv, pos, kws, st, ctx, node, stmt=False):
        if fv.op == 'ite':
            g = ctx.guard
            c = cond(fv.args[0])
            s1, s2 = st.copy(), st.copy()
            ctx.guard = and_(g, c)
            a = self.call_value(fv.args[1], pos, kws, s1, ctx, node, stmt)
            ctx.guard = and_(g, not_(c))
            b = self.call_value(fv.args[2], pos, kws, s2, ctx, node, stmt)
            ctx.guard = g
            if a is None or a.op == 'dead':
                st.m = s2.m
                return b
            if b is None or b.op == 'dead':
                st.m = s1.m
                return a
            st.m = self.merge(c, s1, s2).m
            return ite(c, a, b)
        if self.dropped(fv):
            if self.reports and fv.op == 'glob' and fv.args[0] in ('print', 'peak.mapper.utils.pretty_print_binding'):
                self.report(fv, pos, st, ctx)
            return NONE
        if fv.op == 'fn':
            fn = self.fns[fv.args[0]]
            if self.recursing(fn):
                return self.opaque_call(raw('recfn', 0), pos, kws, st, ctx, stmt)
            v, s = self.run_fn(fn, pos, kws, st, ctx, stmt=stmt)
            return v if s is not None else raw('dead')
        if fv.op == 'bm':
            f, selfv = fv.args
            if f.op == 'fn':
                fn = self.fns[f.args[0]]
                if self.recursing(fn):
                    return self.opaque_call(raw('attr', self.deref(selfv, st), fn.name), pos, kws, st, ctx, stmt)
                v, s = self.run_fn(fn, [selfv] + pos, kws, st, ctx, stmt=stmt)
                return v if s is not None else raw('dead')
        if fv.op == 'partial':
            f, *rest = fv.args
            p = [x for x in rest if x.op not in ('kw', 'dstar')]
            k = [x for x in rest if x.op in ('kw', 'dstar')]
            return self.call_value(f, p + pos, k + kws, st, ctx, node, stmt)
        if fv.op == 'fnv':
            # a frozen closure
            spec = fv.args[0].split('|') if fv.args[0] else []
            if not kws and all(s in 'pd' for s in spec) and len(pos) == len(spec) and not any(p.op == 'star' for p in pos):
                r = apply_lam(fv.args[1], [self.deref(p, st) for p in pos])
                return self.unret(r, st, ctx)
        if fv.op == 'smeth':
            return self.super_call(fv, pos, kws, st, ctx, stmt)
        if fv.op == 'glob' and fv.args[0].endswith(('.setdefault', '.get')) and pos:
            b = glob(fv.args[0].rpartition('.')[0])
            if self.is_memo(b):
                if fv.args[0].endswith('.get'):
                    self.lookups.append((b, self.deref(pos[0], st)))
                    return pos[1] if len(pos) > 1 else NONE
                self.memo_store(b, self.deref(pos[0], st), pos[1], st, ctx)
                return pos[1]
        if fv.op == 'glob' and len(pos) == 1 and pos[0].op == 'fn' and not kws and not stmt and self.prog.resolve(fv.args[0])[0] == 'class':
            return self.decorate(fv, pos[0], st, ctx)
        if fv.op == 'glob':
            return self.call_glob(fv, pos, kws, st, ctx, node, stmt)
        if fv.op == 'attr':
            return self.call_method(fv, pos, kws, st, ctx, node, stmt)
        if fv.op == 'lcls':
            return self.opaque_call(fv, pos, kws, st, ctx, stmt, effect=False)
        return self.opaque_call(fv, pos, kws, st, ctx, stmt)

    def unret(self, r, st, ctx):
        if r.op == 'ite':
            a = self.unret(r.args[1], st, ctx)
            b = self.unret(r.args[2], st, ctx)
            return ite(r.args[0], a, b)
        if r.op == 'RET':
            return r.args[0]
        if r.op != 'RAISE' or len(r.args) > 1:
            self.note('the outcome of a function value')
        return raw('calls', r)

    def recursing(self, fn):
        same = [f for f in self.stack if f.node is fn.node]
        return len(same) >= 5 or any(f.chain == fn.chain for f in same)

    def super_call(self, fv, pos, kws, st, ctx, stmt):
        selfv, name = fv.args
        if name in ('__init__', '__init_subclass__', '__new__') and name == '__init__' and stmt and not self.is_meta(ctx):
            return NONE
        t = raw('call', raw('smeth', self.deref(selfv, st) if selfv.op != 'ref' else sym('$self'), name),
                *[self.deref(p, st) for p in pos], *sorted([self.deref(k, st) for k in kws], key=tm.skey))
        if name == '__setattr__' or stmt:
            self.effect(t, st, ctx)
        self.may_raise('TypeError', tm._atom(raw('raises', glob('TypeError'), t)), st, ctx)
        self.may_raise('AttributeError', tm._atom(raw('raises', glob('AttributeError'), t)), st, ctx)
        return t

    def is_meta(self, ctx):
        c = self.cur_cls(ctx)
        return False

    def args_terms(self, pos, kws, st):
        p = [self.fz(x, st) for x in pos]
        k = []
        for x in kws:
            if x.op == 'dstar':
                d = self.deref(x.args[0], st)
                if d.op == 'dict' and all(s.op == 'el' and s.args[0].op == 'tuple' and tm.is_const(s.args[0].args[0], str) for s in d.args[0].args):
                    k += [raw('kw', s.args[0].args[0].args[0], s.args[0].args[1]) for s in d.args[0].args]
                else:
                    k.append(raw('dstar', d))
            else:
                k.append(raw('kw', x.args[0], self.fz(x.args[1], st)))
        k.sort(key=lambda x: (x.op, x.args[0] if x.op == 'kw' else ''))
        return p, k

    def fz(self, t, st):
        if t.op == 'star':
            return raw('star', self.fz(t.args[0], st))
        t = self.deref(t, st)
        if t.id in self.stateful:
            return raw('st', t, st.m.get(self.loc_ext(t, '$hist'), lst()))
        return t

    def is_memo(self, t):
        """module level dict that starts empty: a cache as far as one call is concerned"""
        if t.op != 'glob':
            return False
        r = self._memo_globs.get(t.args[0])
        if r is None:
            r = False
            x = self.prog.resolve(t.args[0])
            if x[0] in ('assign', 'member') :
                ex = x[3] if x[0] == 'assign' else None
                if x[0] == 'member' and len(x[2]) == 1:
                    k, n = self.prog.find_method(x[1], x[2][0])
                    ex = getattr(n, 'value', None)
                if isinstance(ex, ast.Dict) and not ex.keys:
                    r = True
                elif isinstance(ex, ast.Call) and isinstance(ex.func, ast.Name) and ex.func.id == 'dict' and not ex.args and not ex.keywords:
                    r = True
            self._memo_globs[t.args[0]] = r
        return r
    _memo_globs = {}

    def memo_store(self, b, k, v, st, ctx):
        self.memos.append((b, k, self.deref(v, st), ctx.mod.rel, ctx.fn))
        st.m[('e', 'memo', b.id, k.id)] = v

    def opaque_call(self, f, pos, kws, st, ctx, stmt=False, effect=None):
        p, k = self.args_terms(pos, kws, st)
        t = tm.call(self.deref(f, st), *p, *k)
        if stmt if effect is None else effect and stmt:
            self.effect(t, st, ctx)
        if ctx.trys:
            for ts in ctx.trys[-1:]:
                for x in ts:
                    if x.op == 'glob' and x.args[0] in ('TypeError', 'ValueError', 'NameError', 'Exception'):
                        self.may_raise(x.args[0], tm._atom(raw('raises', x, t)), st, ctx)
        return t

    def new_list(self, L, st, kind='list'):
        r = self.newref('list')
        st.m[('h', r.args[0])] = L if L.op == 'lst' else lst(raw('cnd', L))
        return r

    def call_glob(self, fv, pos, kws, st, ctx, node, stmt):
        n = fv.args[0]
        h = BI.get(n)
        if n in ('slice', 'range') and len(pos) == 1 and pos[0].op == 'star':
            # only ever used to spread a (start, stop) pair
            pos = [idx(self.deref(pos[0].args[0], st), const(0)), idx(self.deref(pos[0].args[0], st), const(1))]
        if n == 'itertools.chain' and len(pos) == 1 and pos[0].op == 'star':
            h, pos = BI['itertools.chain.from_iterable'], [pos[0].args[0]]
        if h is not None and not any(p.op == 'star' for p in pos):
            r = h(self, pos, kws, st, ctx)
            if r is not None:
                return r
        if n in self.opaque:
            return self.repo_opaque(fv, pos, kws, st, ctx, stmt)
        r = self.prog.resolve(n)
        if r[0] == 'func':
            m, nd = r[1], r[2]
            fn = Fn(nd, m, (), name=nd.name, qual=f'{m.name}:{nd.name}')
            if self.recursing(fn):
                return self.repo_opaque(fv, pos, kws, st, ctx, stmt)
            decs = [dotted_of(d.func if isinstance(d, ast.Call) else d) for d in nd.decorator_list]
            if decs and not all(d in ('lru_cache', 'functools.lru_cache', 'ft.lru_cache', 'functools.cache', 'cache') for d in decs):
                return self.repo_opaque(fv, pos, kws, st, ctx, stmt)
            v, s = self.run_fn(fn, pos, kws, st, ctx, stmt=stmt)
            return v if s is not None else raw('dead')
        if r[0] == 'class':
            c = r[1]
            if c.qual in self.inline_classes:
                o = self.newref('obj', c)
                k, init = self.prog.find_method(c, '__init__')
                if init is not None:
                    fn = Fn(init, k.mod, (), cls=k, name='__init__', qual=f'{k.mod.name}:{k.node.name}.__init__')
                    v, s = self.run_fn(fn, [o] + pos, kws, st, ctx)
                    if s is None:
                        return raw('dead')
                return o
            return self.repo_opaque(fv, pos, kws, st, ctx, stmt, cls=c)
        if not any(p.op == 'star' for p in pos):
            nms = self.record_fields(r)
            if nms is not None and len(pos) <= len(nms):
                return self.opaque_call(fv, [], [raw('kw', nm, p) for nm, p in zip(nms, pos)] + list(kws), st, ctx, stmt)
        return self.opaque_call(fv, pos, kws, st, ctx, stmt)

    def record_fields(self, r):
        """field names of X = namedtuple('X', ['a', 'b'])"""
        nd = next((x for x in r[1:] if isinstance(x, ast.AST)), None)
        nd = getattr(nd, 'value', None) if isinstance(nd, ast.Assign) else nd
        if isinstance(nd, ast.Call) and dotted_of(nd.func) in ('namedtuple', 'collections.namedtuple') and len(nd.args) == 2:
            try:
                v = ast.literal_eval(nd.args[1])
            except ValueError:
                return None
            return v.replace(',', ' ').split() if isinstance(v, str) else list(v)
        return None

    def repo_opaque(self, fv, pos, kws, st, ctx, stmt, cls=None):
        """call to a repository function that is kept symbolic: bind to parameter names"""
        node = None
        skip = 0
        r = self.prog.resolve(fv.args[0])
        if r[0] == 'func':
            node = r[2]
        elif cls is not None:
            k, init = self.prog.find_method(cls, '__init__')
            if isinstance(init, ast.FunctionDef):
                node = init
                skip = 1
        if node is not None:
            a = node.args
            names = [x.arg for x in a.posonlyargs + a.args][skip:]
            if not any(p.op == 'star' for p in pos) and len(pos) <= len(names):
                kws = [raw('kw', nm, p) for nm, p in zip(names, pos)] + list(kws)
                pos = []
                kws = [k for k in kws if not (k.op == 'kw' and self.is_default(node, k, st))]
                if fv.args[0] not in tm.LENGTHS:
                    n = {len(x.value.elts) if isinstance(x.value, ast.Tuple) and not any(isinstance(y, ast.Starred) for y in x.value.elts) else -1 for x in returns(node.body)}
                    tm.LENGTHS[fv.args[0]] = n.pop() if len(n) == 1 else -1
                if fv.args[0] not in tm.DEFAULTS:
                    tm.DEFAULTS[fv.args[0]] = {n: const(d.value) for n, d in zip(reversed([x.arg for x in a.posonlyargs + a.args]), reversed(a.defaults)) if isinstance(d, ast.Constant)}
        return self.opaque_call(fv, pos, kws, st, ctx, stmt)

    def is_default(self, node, k, st):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if k.args[0] in names:
            j = names.index(k.args[0]) - (len(names) - len(a.defaults))
            if j >= 0 and isinstance(a.defaults[j], ast.Constant) and k.args[1] is const(a.defaults[j].value):
                return True
        return False

    def call_method(self, fv, pos, kws, st, ctx, node, stmt):
        b, m = fv.args
        if b.id in self.stateful:
            loc = self.loc_ext(b, '$hist')
            hist = st.m.get(loc, lst())
            p, k = self.args_terms(pos, kws, st)
            t = raw('mcall', b, m, hist, *p, *k)
            st.m[loc] = tm.app(hist, el(raw('did', m, *p, *k)))
            return t
        if b.op == 'ref':
            r = self.ref_method(b, m, pos, kws, st, ctx, stmt)
            if r is not None:
                return r
            b = self.deref(b, st)
            fv = raw('attr', b, m)
        b = self.deref(b, st)
        if self.is_memo(b) and m in ('setdefault', 'get') and pos:
            if m == 'get':
                self.lookups.append((b, self.deref(pos[0], st)))
                return pos[1] if len(pos) > 1 else NONE
            self.memo_store(b, self.deref(pos[0], st), pos[1], st, ctx)
            return pos[1]
        if m == '__getitem__' and len(pos) == 1:
            return self.getitem(b, pos[0], st, ctx)
        if m == '__contains__' and len(pos) == 1:
            return tm.cmp_('in', self.deref(pos[0], st), b)
        if m in ('keys',) and not pos and b.op == 'dict':
            return self.new_list(tm.dict_keys(b), st)
        if m in ('items', 'values') and not pos and b.op in ('dict', 'ite'):
            L = as_list(raw('call', raw('attr', b, m))) if b.op == 'dict' else tm.map_leaves(b, lambda x: as_list(raw('call', raw('attr', x, m))))
            return self.new_list(L, st)
        if m == 'get' and 1 <= len(pos) <= 2 and not kws and b.op != 'super':
            k = self.deref(pos[0], st)
            d = self.deref(pos[1], st) if len(pos) > 1 else NONE
            c = cond(tm.cmp_('in', k, b))
            return ite(c, idx(b, k), d)
        if tm.is_const(b, str) and m == 'format':
            r = self.str_format(b.args[0], pos, kws, st)
            if r is not None:
                return r
        if tm.is_const(b, str) and m == 'join' and len(pos) == 1 and pos[0].op != 'star':
            L = as_list(self.deref(pos[0], st))
            if L.op == 'lst' and all(x.op == 'el' for x in L.args):
                parts = [const('')]
                for i, x in enumerate(L.args):
                    parts += [b, tm.tostr(x.args[0])] if i else [tm.tostr(x.args[0])]
                return tm.scat(*parts)
        if m == 'copy' and not pos:
            return b
        if m == 'as_uint' and not pos:
            return tm.call(glob('int'), b)
        if m == 'setdefault' and len(pos) == 2:
            k = self.deref(pos[0], st)
            d = self.deref(pos[1], st)
            c = cond(tm.cmp_('in', k, b))
            self.effect(raw('setdefault', b, k, d), st, ctx)
            return ite(c, idx(b, k), d)
        mut = m in ('append', 'add', 'update', 'extend', 'pop', 'remove', 'clear', 'insert', 'popitem', 'discard')
        if mut and b.op == 'fresh' and b.id in tm.DICTS:
            # a ** parameter is a dict of its own
            r = self.newref('dict')
            st.m[('h', r.args[0])] = raw('dict', lst(raw('spl', raw('items', b))))
            for k in [k for k, v in st.m.items() if v is b and k[0] == 'e']:
                st.m[k] = r
            v = self.ref_method(r, m, pos, kws, st, ctx, stmt)
            if v is not None:
                return v
        v = self.opaque_call(raw('attr', b, m), pos, kws, st, ctx, stmt)
        if mut and not stmt:
            self.effect(v, st, ctx)
        return v

    def ref_method(self, b, m, pos, kws, st, ctx, stmt):
        kind, cls = self.refs[b.args[0]]
        if kind == 'obj':
            return None
        loc = ('h', b.args[0])
        cur = st.m[loc]
        a = lambda i: pos[i]
        LA = lambda t: as_list(self.deref(t, st))

        def segs(L):
            return L.args if L.op == 'lst' else (raw('cnd', L),)
        if cur.op == 'ite':
            return None
        if kind == 'list':
            if m == 'append':
                st.m[loc] = lst(*cur.args, el(a(0)))
                return NONE
            if m == 'extend':
                st.m[loc] = lst(*cur.args, *segs(LA(a(0))))
                return NONE
            if m == 'insert' and len(pos) == 2:
                if pos[0] is const(0):
                    st.m[loc] = lst(el(a(1)), *cur.args)
                else:
                    st.m[loc] = lst(raw('spl', raw('inserted', cur, self.deref(a(0), st), self.deref(a(1), st))))
                return NONE
            if m == 'pop':
                k = self.deref(a(0), st) if pos else const(-1)
                if cur.args and k is const(-1) and cur.args[-1].op == 'el':
                    v = cur.args[-1].args[0]
                    st.m[loc] = raw('lst', *cur.args[:-1])
                    return v
                if cur.args and k is const(0) and cur.args[0].op == 'el':
                    v = cur.args[0].args[0]
                    st.m[loc] = raw('lst', *cur.args[1:])
                    return v
                c = self.deref(cur, st)
                st.m[loc] = lst(raw('spl', raw('popped', c, k)))
                return idx(c, k)
            if m == 'remove':
                c = self.deref(cur, st)
                st.m[loc] = lst(raw('spl', raw('removed', c, self.deref(a(0), st))))
                return NONE
            if m == 'sort':
                c = self.deref(cur, st)
                p, k = self.args_terms([], kws, st)
                st.m[loc] = lst(raw('spl', raw('call', glob('sorted'), self.norm_iter(c), *k)))
                return NONE
            if m == 'reverse':
                c = self.deref(cur, st)
                st.m[loc] = lst(raw('spl', raw('call', glob('reversed'), c)))
                return NONE
            if m == 'copy':
                return self.new_list(cur, st)
            if m == 'index':
                return raw('call', raw('attr', self.deref(cur, st), 'index'), self.deref(a(0), st))
            return None
        if kind == 'dict' and cur.op == 'dict':
            L = cur.args[0].args
            if m in ('items', 'keys', 'values'):
                d = self.deref(b, st) if not any(s.op == 'el' and s.args[0].op == 'tuple' and s.args[0].args[1].op == 'ref' for s in L) else cur
                r = as_list(raw('call', raw('attr', d, m)))
                return self.new_list(r, st)
            if m == 'update':
                new = []
                for p in pos:
                    new += list(self.dict_segs(self.deref(p, st)))
                for k in kws:
                    if k.op == 'kw':
                        new.append(el(raw('tuple', const(k.args[0]), k.args[1])))
                    else:
                        new += list(self.dict_segs(self.deref(k.args[0], st)))
                st.m[loc] = raw('dict', lst(*L, *new))
                return NONE
            if m == 'setdefault':
                k = self.deref(a(0), st)
                d = a(1) if len(pos) > 1 else NONE
                if stmt and (d.op == 'ref' and st.m[('h', d.args[0])].op == 'lst' and not st.m[('h', d.args[0])].args):
                    st.m[loc] = raw('dict', lst(*L, el(raw('grp', k, lst()))))
                    return NONE
                c = cond(tm.cmp_('in', k, self.deref(b, st)))
                v = ite(c, idx(self.deref(b, st), k), d)
                st.m[loc] = raw('dict', lst(*L, el(raw('sdef', k, d))))
                return v
            if m == 'get':
                k = self.deref(a(0), st)
                d = a(1) if len(pos) > 1 else NONE
                D_ = self.deref(b, st)
                c = cond(tm.cmp_('in', k, D_))
                return ite(c, self.getitem(b, k, st, Ctx(ctx.mod, ctx.chain, ctx.fn)), d)
            if m == 'pop':
                k = self.deref(a(0), st)
                D_ = self.deref(b, st)
                v = idx(D_, k)
                if len(pos) > 1:
                    v = ite(cond(tm.cmp_('in', k, D_)), v, pos[1])
                st.m[loc] = raw('dict', lst(*L, el(raw('delitem', k))))
                return v
            if m == 'popitem':
                if L and L[-1].op == 'el' and L[-1].args[0].op == 'tuple':
                    v = L[-1].args[0]
                    st.m[loc] = raw('dict', raw('lst', *L[:-1]))
                    return v
                D_ = self.deref(b, st)
                if D_.op == 'dict' and len(L) == 1 and L[0].op == 'spl' and L[0].args[0].op == 'items':
                    D_ = L[0].args[0].args[0]
                st.m[loc] = raw('dict', lst(raw('spl', raw('popped', D_, const(-1)))))
                return raw('call', raw('attr', D_, 'popitem'))
            if m == 'copy':
                r = self.newref('dict')
                st.m[('h', r.args[0])] = cur
                return r
            if m == '__getitem__':
                return self.getitem(b, a(0), st, ctx)
            return None
        if kind == 'set' and cur.op == 'set':
            L = cur.args[0].args
            if m == 'add':
                st.m[loc] = raw('set', lst(*L, el(self.deref(a(0), st))))
                return NONE
            if m in ('update',):
                st.m[loc] = raw('set', lst(*L, *segs(LA(a(0)))))
                return NONE
            if m in ('remove', 'discard'):
                st.m[loc] = raw('set', lst(*L, el(raw('delitem', self.deref(a(0), st)))))
                return NONE
            if m == 'copy':
                r = self.newref('set')
                st.m[('h', r.args[0])] = cur
                return r
        return None

    def norm_iter(self, c):
        """iterable argument whose container type does not matter"""
        if c.op == 'lst' and len(c.args) == 1 and c.args[0].op == 'spl':
            return c.args[0].args[0]
        if c.op == 'tupof':
            return self.norm_iter(c.args[0])
        return c


_hy = {}


def has_yield_cached(node):
    r = _hy.get(id(node))
    if r is None:
        def walk(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp, ast.ListComp)):
                    continue
                if isinstance(c, (ast.Yield, ast.YieldFrom)) or walk(c):
                    return True
            return False
        r = (node, walk(node))
        _hy[id(node)] = r
    return r[1]


def _load(t):
    import copy
    t2 = copy.copy(t)
    t2.ctx = ast.Load()
    return t2


# ---------------------------------------------------------------- builtins
BI = {}


def bi(*names):
    def d(f):
        for n in names:
            BI[n] = f
        return f
    return d


def _d(ev, t, st):
    return ev.deref(t, st)


@bi('len')
def _len(ev, pos, kws, st, ctx):
    return tm.len_(_d(ev, pos[0], st))


def _classes(ev, c):
    if c.op == 'tuple':
        return [y for x in c.args for y in _classes(ev, x)]
    return [c]


@bi('isinstance')
def _isinst(ev, pos, kws, st, ctx):
    x, c = pos
    rcls = ev.cls_of(x)
    if x.op == 'ref' and rcls is None:
        k = ev.refs[x.args[0]][0]
        r = FALSE
        for y in _classes(ev, c):
            if y.op == 'glob' and y.args[0] == k:
                return TRUE
        x = _d(ev, x, st)
    r = FALSE
    for y in _classes(ev, c):
        y = _d(ev, y, st)
        if rcls is not None and y.op == 'glob':
            if any(k.qual == y.args[0] for k in ev.prog.mro(rcls)):
                return TRUE
        t = isinst_term(x, y)
        r = or_(r, t)
    return r


# enumerations of the dependencies the code refers to
PY_ENUMS = {'hwtypes.RoundingMode': ('RNE', 'RNA', 'RTP', 'RTN', 'RTZ')}


def isinst_term(x, y):
    if x.op == 'ite' or y.op == 'ite':
        h = tm.hoist('isinst', [x, y])
        if h is not None:
            return h
    if y.op == 'glob':
        c = y.args[0]
        if x.op == 'glob' and c in PY_ENUMS and x.args[0].startswith(c + '.') and x.args[0][len(c) + 1:] in PY_ENUMS[c]:
            return TRUE
        if x.op in ('tuple', 'tupof', 'scat') and c == 'tuple':
            return TRUE
        if x.op == 'tuple' and c in ('list', 'dict', 'str', 'int'):
            return FALSE
        if x.op == 'lst' and c == 'list':
            return TRUE
        if x.op == 'const' and c in ('int', 'str', 'bool', 'tuple', 'dict'):
            return const(isinstance(x.args[0], {'int': int, 'str': str, 'bool': bool, 'tuple': tuple, 'dict': dict}[c]))
    return tm._atom(raw('isinst', x, y))


tm._SMART['isinst'] = isinst_term


def _issub(ev, pos, kws, st, ctx):
    x, c = pos
    x = _d(ev, x, st)
    r = FALSE
    for y in _classes(ev, c):
        r = or_(r, issub_term(x, _d(ev, y, st)))
    return r


def issub_term(x, y):
    if x.op == 'ite' or y.op == 'ite':
        h = tm.hoist('issub', [x, y])
        if h is not None:
            return h
    if x is y:
        return TRUE
    if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0] == 'type' and len(x.args) == 2:
        return isinst_term(x.args[1], y)
    if x.op == 'glob' and y.op == 'glob' and x.args[0].startswith('hwtypes.') and y.args[0].startswith('hwtypes.'):
        if tm.subclass_of(x.args[0], y.args[0]):
            return TRUE
        if tm.disjoint(x.args[0], y.args[0]):
            return FALSE
    # a freshly sized vector type
    if x.op == 'idx' and x.args[0].op == 'glob' and y.op == 'glob' and x.args[0].args[0] in ('hwtypes.BitVector', 'hwtypes.SMTBitVector') and y.args[0] == 'hwtypes.AbstractBitVector':
        return TRUE
    return tm._atom(raw('issub', x, y))


tm._SMART['issub'] = issub_term
for _n in ('peak.assembler.assembler_util._issubclass', 'peak.assembler2.assembler_util._issubclass',
           'peak.auto_assembler._issubclass'):
    BI[_n] = _issub


@bi('issubclass')
def _issubclass(ev, pos, kws, st, ctx):
    if len(pos) == 2 and ctx.trys:
        ev.may_raise('TypeError', not_(isinst_term(_d(ev, pos[0], st), glob('type'))), st, ctx)
    return _issub(ev, pos, kws, st, ctx)


@bi('hasattr')
def _hasattr(ev, pos, kws, st, ctx):
    b, n = pos
    if n.op == 'const':
        if st.m.get(('x', b.id, n.args[0])) is not None:
            return TRUE
        return has_term(_d(ev, b, st), n.args[0])
    return tm._atom(raw('dhas', _d(ev, b, st), n))


def has_term(b, n):
    if b.op == 'ite':
        h = tm.hoist('has', [b, n])
        if h is not None:
            return h
    return tm._atom(raw('has', b, n))


tm._SMART['has'] = has_term


@bi('getattr')
def _getattr(ev, pos, kws, st, ctx):
    b, n = pos[0], pos[1]
    if n.op == 'const' and isinstance(n.args[0], str):
        if len(pos) == 3:
            v = st.m.get(('x', b.id, n.args[0]))
            if v is not None:
                return v
            c = has_term(_d(ev, b, st), n.args[0])
            return ite(c, attr(_d(ev, b, st), n.args[0]), pos[2])
        return ev.getattr_(b, n.args[0], st, ctx)
    n = _d(ev, n, st)
    b = _d(ev, b, st)
    t = tm.rebuild('dattr', [b, n])
    if len(pos) == 3:
        return ite(tm._atom(raw('dhas', b, n)), t, pos[2])
    ev.may_raise('AttributeError', not_(tm._atom(raw('dhas', b, n))), st, ctx)
    return t


tm._SMART['dattr'] = tm.strict('dattr')
tm.ATOM_OPS.add('dhas')
tm._RANK['dhas'] = 2
_oldboolatom = tm.is_boolatom
_oldcond = tm.cond


@bi('setattr')
def _setattr(ev, pos, kws, st, ctx):
    b, n, v = pos
    if n.op == 'const':
        ev.setattr_(b, n.args[0], v, st, ctx)
    else:
        ev.effect(raw('setattr', _d(ev, b, st), _d(ev, n, st), _d(ev, v, st)), st, ctx)
    return NONE


@bi('tuple')
def _tuple(ev, pos, kws, st, ctx):
    if not pos:
        return raw('tuple')
    x = pos[0]
    if x.op == 'ref':
        v = st.m.get(('h', x.args[0]))
        if v is not None and v.op == 'lst' and all(s.op == 'el' for s in v.args):
            return raw('tuple', *[s.args[0] for s in v.args])
    x = _d(ev, x, st)
    if x.op in ('tuple', 'tupof', 'scat'):
        return x
    return tm.tupof(as_list(x))


@bi('list')
def _list(ev, pos, kws, st, ctx):
    if not pos:
        return ev.new_list(lst(), st)
    x = pos[0]
    if x.op == 'ref':
        v = st.m.get(('h', x.args[0]))
        if v is not None and v.op == 'lst':
            return ev.new_list(v, st)
    return ev.new_list(as_list(_d(ev, x, st)), st)


@bi('dict', 'collections.OrderedDict')
def _dict(ev, pos, kws, st, ctx):
    segs = []
    for p in pos:
        d = _d(ev, p, st)
        if d.op == 'dict':
            segs += list(d.args[0].args)
        elif d.op == 'lst':
            segs += list(d.args)
        elif d.op == 'call' and d.args[0].op == 'glob' and d.args[0].args[0] in ('zip', 'enumerate'):
            segs += list(as_list(d).args)
        else:
            segs += list(ev.dict_segs(d))
    for k in kws:
        if k.op == 'kw':
            segs.append(el(raw('tuple', const(k.args[0]), k.args[1])))
        else:
            segs += list(ev.dict_segs(_d(ev, k.args[0], st)))
    r = ev.newref('dict')
    st.m[('h', r.args[0])] = raw('dict', lst(*segs))
    return r


@bi('collections.defaultdict')
def _ddict(ev, pos, kws, st, ctx):
    r = ev.newref('dict')
    st.m[('h', r.args[0])] = raw('dict', lst())
    return r


@bi('set', 'frozenset')
def _set(ev, pos, kws, st, ctx):
    r = ev.newref('set')
    if not pos:
        L = lst()
    else:
        x = _d(ev, pos[0], st)
        if x.op == 'set':
            L = x.args[0]
        else:
            L = as_list(x)
            if L.op == 'ite':
                L = lst(raw('cnd', L))
    st.m[('h', r.args[0])] = raw('set', L)
    return r


@bi('types.MappingProxyType')
def _mpt(ev, pos, kws, st, ctx):
    return pos[0]


@bi('sorted')
def _sorted(ev, pos, kws, st, ctx):
    x = ev.norm_iter(_d(ev, pos[0], st))
    p, k = ev.args_terms([], kws, st)
    k = [y for y in k if not (y.op == 'kw' and y.args[0] == 'reverse' and y.args[1] is FALSE)]
    return raw('call', glob('sorted'), x, *k)


@bi('reversed')
def _reversed(ev, pos, kws, st, ctx):
    x = _d(ev, pos[0], st)
    L = as_list(x)
    if L.op == 'lst' and all(s.op == 'el' for s in L.args):
        return ev.new_list(raw('lst', *reversed(L.args)), st)
    return raw('call', glob('reversed'), ev.norm_iter(x))


@bi('enumerate')
def _enumerate(ev, pos, kws, st, ctx):
    L = as_list(_d(ev, pos[0], st))
    start = pos[1] if len(pos) > 1 else const(0)
    for k in kws:
        if k.op == 'kw':
            start = k.args[1]
    R = iterate(L, lambda x, i: lst(el(raw('tuple', tm.add(i, start), x))))
    return ev.new_list(R, st)


@bi('range')
def _range(ev, pos, kws, st, ctx):
    ps = [_d(ev, p, st) for p in pos]
    if len(ps) >= 2 and ps[0] is const(0) and (len(ps) == 2 or ps[2] is const(1)):
        ps = [ps[1]]
    if len(ps) == 3 and ps[2] is const(1):
        ps = ps[:2]
    if len(ps) == 1:
        n = ps[0]
        if tm.is_int(n) and n.args[0] <= 6:
            return ev.new_list(lst(*[el(const(i)) for i in range(n.args[0])]), st)
        if n.op == 'call' and n.args[0] is glob('len') and len(n.args) == 2:
            e, i = fresh(), fresh()
            return raw('rangelen', n.args[1])
    return tm.rebuild('call', [glob('range')] + ps)


_old_as_list = tm.as_list


def as_list_ext(t):
    if t.op == 'rangelen':
        e, i = fresh(), fresh()
        tm.note_pos(t.args[0], e, i)
        return raw('lst', tm.flat(t.args[0], close_lam([e, i], lst(el(i)))))
    if t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] == 'zip':
        return zip_list(t)
    return _old_as_list(t)


tm.as_list = as_list_ext
as_list = as_list_ext
tm.iterate.__globals__['as_list'] = as_list_ext


def zip_list(t):
    Ls = [as_list_ext(x) for x in t.args[1:]]
    if all(L.op == 'lst' for L in Ls):
        if all(all(s.op == 'el' for s in L.args) for L in Ls):
            n = min(len(L.args) for L in Ls)
            return lst(*[el(raw('tuple', *[L.args[i].args[0] for L in Ls])) for i in range(n)])
        # maps over the same source
        srcs = []
        bodies = []
        ok = True
        for L in Ls:
            if len(L.args) == 1 and L.args[0].op == 'spl':
                srcs.append(L.args[0].args[0])
                bodies.append(None)
            elif len(L.args) == 1 and L.args[0].op == 'flat' and L.args[0].args[1].args[2].op == 'lst' \
                    and len(L.args[0].args[1].args[2].args) == 1 and L.args[0].args[1].args[2].args[0].op == 'el':
                srcs.append(L.args[0].args[0])
                bodies.append(L.args[0].args[1])
            else:
                ok = False
        if ok:
            e, i = fresh(), fresh()
            if all(s is srcs[0] for s in srcs):
                tm.note_pos(srcs[0], e, i)
                xs = [e if b is None else apply_lam(b, [e, i]).args[0].args[0] for b in bodies]
                return lst(tm.flat(srcs[0], close_lam([e, i], lst(el(raw('tuple', *xs))))))
            z = raw('zip', *srcs)
            xs = []
            for j, b in enumerate(bodies):
                p = idx(e, const(j))
                xs.append(p if b is None else apply_lam(b, [p, i]).args[0].args[0])
            return lst(tm.flat(z, close_lam([e, i], lst(el(raw('tuple', *xs))))))
    return raw('lst', raw('spl', t))


@bi('zip')
def _zip(ev, pos, kws, st, ctx):
    return raw('call', glob('zip'), *[ev.fz(p, st) for p in pos])


@bi('map')
def _map(ev, pos, kws, st, ctx):
    f = pos[0]
    if len(pos) != 2:
        return None
    L = as_list(_d(ev, pos[1], st))
    pend = []

    def body(x, i):
        s2 = st.copy()
        c2 = Ctx(ctx.mod, ctx.chain, ctx.fn, parent=ctx.parent)
        c2.trys = ctx.trys
        c2.guard = TRUE
        n0 = len(ev.refs)
        v = ev.call_value(f, [x], [], s2, c2, None)
        r = lst(el(ev.deref_new(v, s2, n0)))
        for q in c2.exits:
            if q.kind == 'raise':
                pend.append((x, i, ev.deref(and_(q.cond, TRUE), q.state), q))
        return r
    R = iterate(L, body)
    ev.comp_raises(pend, st, ctx)
    return ev.new_list(R, st)


@bi('filter')
def _filter(ev, pos, kws, st, ctx):
    f = pos[0]
    L = as_list(_d(ev, pos[1], st))

    def body(x, i):
        s2 = st.copy()
        c2 = Ctx(ctx.mod, ctx.chain, ctx.fn)
        v = x if f is NONE else ev.call_value(f, [x], [], s2, c2, None)
        return ite(cond(ev.deref(v, s2)), lst(el(x)), lst())
    return ev.new_list(iterate(L, body), st)


@bi('any')
def _any(ev, pos, kws, st, ctx):
    return tm.any_list(as_list(_d(ev, pos[0], st)))


@bi('all')
def _all(ev, pos, kws, st, ctx):
    L = as_list(_d(ev, pos[0], st))
    N = iterate(L, lambda x, i: lst(el(not_(cond(x)))))
    return not_(tm.any_list(N))


@bi('sum')
def _sum(ev, pos, kws, st, ctx):
    L = as_list(_d(ev, pos[0], st))
    init = _d(ev, pos[1], st) if len(pos) > 1 else const(0)
    r = tm.red('+', const(0), L) if not tm.seqlike(init) else tm.red('+', init, L)
    return r if tm.seqlike(init) or init is const(0) else tm.add(init, r)


@bi('max', 'min')
def _max(ev, pos, kws, st, ctx):
    return None


def _mm(name):
    def f(ev, pos, kws, st, ctx):
        if len(pos) == 1 and not kws:
            L = as_list(_d(ev, pos[0], st))
            return tm.red(name, NONE, L) if L.op == 'ite' or not (len(L.args) == 1 and L.args[0].op == 'el') else L.args[0].args[0]
        if len(pos) > 1 and not kws:
            xs = sorted([_d(ev, p, st) for p in pos], key=tm.skey)
            return tm.call(glob(name), *xs)
        return None
    return f




def _bi_str(ev, pos, kws, st, ctx):
    if len(pos) == 1 and not kws:
        return tm.tostr(ev.deref(pos[0], st))
    return None


BI['str'] = _bi_str
BI['max'] = _mm('max')
BI['min'] = _mm('min')


@bi('functools.reduce')
def _reduce(ev, pos, kws, st, ctx):
    f = pos[0]
    L = as_list(_d(ev, pos[1], st))
    init = _d(ev, pos[2], st) if len(pos) > 2 else NONE
    if f.op == 'glob' and f.args[0].startswith('operator.') and f.args[0][9:] in OPERATOR:
        op = OPERATOR[f.args[0][9:]]
        return tm.red(op, init, L)
    fv = _d(ev, f, st)
    # a lambda that is an operator
    if f.op == 'fn':
        a, b = fresh(), fresh()
        s2 = st.copy()
        v = ev.call_value(f, [a, b], [], s2, Ctx(ctx.mod, ctx.chain, ctx.fn), None)
        for op in ('&', '|', '^', '*', '+'):
            if v is tm.binop(op, a, b):
                return tm.red(op, init, L)
    return raw('reduce', fv, init, L)


@bi('functools.partial')
def _partial(ev, pos, kws, st, ctx):
    return raw('partial', *pos, *kws)


@bi('itertools.chain')
def _chain(ev, pos, kws, st, ctx):
    segs = []
    for p in pos:
        L = as_list(_d(ev, p, st))
        segs += list(L.args) if L.op == 'lst' else [raw('cnd', L)]
    return ev.new_list(lst(*segs), st)


@bi('itertools.chain.from_iterable')
def _chainfi(ev, pos, kws, st, ctx):
    L = as_list(_d(ev, pos[0], st))
    return ev.new_list(iterate(L, lambda x, i: as_list(x)), st)


@bi('itertools.product', 'itertools.combinations', 'itertools.permutations')
def _prod(ev, pos, kws, st, ctx):
    if len(pos) == 1 and len(kws) == 1 and kws[0].op == 'kw' and kws[0].args[0] == 'repeat':
        # the same choices that many times
        n = _d(ev, kws[0].args[1], st)
        x = _d(ev, pos[0], st)
        L = as_list(tm.call(glob('range'), n))
        R = iterate(L, lambda e, i: lst(el(x)))
        return tm.call(glob('itertools.product'), raw('star', R))
    return None


@bi('itertools.count', 'itertools.cycle', 'itertools.repeat')
def _endless(ev, pos, kws, st, ctx):
    if len(pos) < 2:
        ev.note('an iterator without an end')
    return None


@bi('types.SimpleNamespace')
def _sns(ev, pos, kws, st, ctx):
    if any(k.op == 'dstar' and k.args[0].op != 'localsd' for k in kws) and len(kws) > 1:
        # the keywords of one call do not repeat
        L = []
        for k in kws:
            if k.op == 'kw':
                L.append(el(raw('tuple', const(k.args[0]), ev.deref(k.args[1], st))))
        L.sort(key=tm.skey)
        H = [k.args[0] for k in kws if k.op == 'dstar']
        if len(H) == 1:
            D = _d(ev, H[0], st)
            D = raw('dict', lst(*(D.args[0].args if D.op == 'dict' and D.args[0].op == 'lst' else (raw('spl', raw('items', D)),)), *L))
            return raw('call', glob('types.SimpleNamespace'), raw('dstar', D))
    o = ev.newref('obj', None)
    for k in kws:
        if k.op == 'kw':
            st.m[ev.loc_ext(o, k.args[0])] = k.args[1]
        else:
            d = k.args[0]
            if d.op == 'localsd':
                sid, names = ctx.chain[-1]
                for n in sorted(names):
                    v = st.m.get(('e', sid, n))
                    if v is not None and v is not UNDEF:
                        st.m[ev.loc_ext(o, n)] = v
            else:
                return raw('call', glob('types.SimpleNamespace'), raw('dstar', _d(ev, d, st)))
    return o


@bi('slice')
def _slice(ev, pos, kws, st, ctx):
    ps = [_d(ev, p, st) for p in pos]
    if len(ps) == 1:
        return tm.rebuild('slice', [NONE, ps[0], NONE])
    return tm.rebuild('slice', ps + [NONE] * (3 - len(ps)))


@bi('type')
def _type(ev, pos, kws, st, ctx):
    if len(pos) == 1:
        c = ev.cls_of(pos[0])
        if pos[0].op == 'ref' and c is not None:
            return glob(c.qual)
        x = _d(ev, pos[0], st)
        if x.op == 'tuple':
            return glob('tuple')
        if x.op == 'ref':
            return None
        return tm.call(glob('type'), x)


@bi('bool')
def _bool(ev, pos, kws, st, ctx):
    if len(pos) == 1:
        return cond(_d(ev, pos[0], st))


@bi('int')
def _int(ev, pos, kws, st, ctx):
    if len(pos) == 1:
        x = _d(ev, pos[0], st)
        if tm.is_int(x) or x.op == 'lin':
            return x
        if x.op == 'call' and x.args[0] is glob('int'):
            return x


@bi('operator.getitem')
def _getitem(ev, pos, kws, st, ctx):
    return ev.getitem(pos[0], pos[1], st, ctx)


def _opf(op):
    def f(ev, pos, kws, st, ctx):
        return tm.binop(op, _d(ev, pos[0], st), _d(ev, pos[1], st))
    return f


for _k, _v in OPERATOR.items():
    BI['operator.' + _k] = _opf(_v)


@bi('isinstance_')
def _x(ev, pos, kws, st, ctx):
    return None


@bi('iter')
def _iter(ev, pos, kws, st, ctx):
    if len(pos) != 1 or kws:
        return None
    L = as_list(_d(ev, pos[0], st))
    if L.op != 'lst':
        return None
    r = ev.newref('iter')
    st.m[('h', r.args[0])] = L
    return r


@bi('next')
def _next(ev, pos, kws, st, ctx):
    it = pos[0]
    if it.op != 'ref' or ev.refs[it.args[0]][0] != 'iter' or kws:
        return None
    loc = ('h', it.args[0])
    L = st.m[loc]
    st.m[loc] = as_list(idx(L, raw('slice', const(1), NONE, NONE)))
    if len(pos) > 1:
        return ite(cond(tm.cmp_('==', tm.len_(L), const(0))), _d(ev, pos[1], st), idx(L, const(0)))
    return idx(L, const(0))


@bi('callable')
def _callable(ev, pos, kws, st, ctx):
    return None
