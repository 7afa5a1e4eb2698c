"""Repository specific rules over the syntax tree and the value graphs.

Every rule carries a tiny positive example it must match on each run."""
import ast
import builtins
import itertools
import json
import os
import symtable

from . import oblig, terms as tm
from .modules import Program, dotted_of

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__path__', '__class__', '__doc__', '__module__', '__qualname__'}
EXC = {n for n in dir(builtins) if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}

# members of the one library enumeration whose members are looked up by name
LIB_ENUMS = {'hwtypes.RoundingMode': {'RNE', 'RNA', 'RTP', 'RTN', 'RTZ'},
             'hwtypes.fp_vector_abc.RoundingMode': {'RNE', 'RNA', 'RTP', 'RTN', 'RTZ'}}

MODS = [  # module prefix -> properties whose code lives there
    ('peak.assembler2.', ['A06', 'B01']), ('peak.assembler.', ['A06', 'B01']),
    ('peak.auto_assembler', ['A08']), ('peak.family', ['C01', 'D01']), ('peak.features', ['E01']),
    ('peak.peak', ['D02']), ('peak.register', ['D01']), ('peak.memory', ['D03']), ('peak.black_box', ['F01']),
    ('peak.bitfield', ['G01']), ('peak.float', ['H02', 'H01']), ('peak.ir', ['I01']), ('peak.rtl_utils', ['J01']),
    ('peak.mapper.multi', ['M11']), ('peak.mapper.utils', ['M06', 'M07']), ('peak.mapper.index_var', ['M09']),
    ('peak.mapper.formula_constructor', ['M10']), ('peak.mapper.mapper', ['M01', 'M02', 'M03']),
]
SKIP = {'peak.mapper.oldmapper'}      # not importable, not part of the package interface


def props_of(mod):
    for p, ps in MODS:
        if mod.startswith(p):
            return ps
    return []


class Finding:
    def __init__(self, file, line, where, msg):
        self.file, self.line, self.where, self.msg = file, line, where, msg


class Lint:
    def __init__(self, name, what, run, selftest, props):
        self.name, self.what, self.run, self.selftest, self.props = name, what, run, selftest, props


EVERY = sorted(json.loads(l)['id'] for l in open(os.path.join(oblig.HERE, 'properties.jsonl')))
ALLP = sorted({p for _, ps in MODS for p in ps})


def modules(prog, prop):
    for m in prog.modules.values():
        if m.name.startswith('specs') or m.name in SKIP:
            continue
        if prop is None or prop in props_of(m.name):
            yield m


# ------------------------------------------------------------- undefined names
def _undefined(src, path, defs, star):
    """names a scope reads that no scope binds (nothing can have imported them)"""
    out, n = [], 0
    if star:
        return out, n
    bound_globals = set(defs)
    top = symtable.symtable(src, path, 'exec')
    for s in top.get_symbols():
        if s.is_assigned() or s.is_imported() or s.is_namespace():
            bound_globals.add(s.get_name())

    def decl(t):
        for s in t.get_symbols():
            if s.is_declared_global() and s.is_assigned():
                bound_globals.add(s.get_name())
        for c in t.get_children():
            decl(c)
    decl(top)

    def go(t):
        nonlocal n
        for s in t.get_symbols():
            if s.is_referenced() and s.is_global() or t is top and s.is_referenced() and not s.is_assigned():
                n += 1
                if s.get_name() not in bound_globals and s.get_name() not in BUILTINS:
                    out.append((t.get_name(), t.get_lineno(), s.get_name()))
        for c in t.get_children():
            go(c)
    go(top)
    return out, n


def run_undefined(prog, prop):
    fs, n = [], 0
    for m in modules(prog, prop):
        # a star import from an external module hides names; one inside the package is resolved
        star = [s for s in m.star if not s.startswith('peak')]
        defs = set(m.defs)
        for s in m.star:
            mm = prog.modules.get(s)
            if mm is not None:
                defs |= set(mm.defs)
        o, k = _undefined(m.src, m.path, defs, star)
        n += k
        used = {}
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                used.setdefault(x.id, x.lineno)
        seen = set()
        for fn, line, name in o:
            if (fn, name) in seen:
                continue
            seen.add((fn, name))
            fs.append(Finding(m.rel, used.get(name, line), f'{m.name}:{fn}', f'{name} is read but nothing binds it'))
    return fs, n


def self_undefined():
    return _undefined('def f(x):\n    return y + x\n', 'x.py', set(), [])[0] == [('f', 1, 'y')]


# -------------------------------------------- exceptions built but not raised
def _not_raised(tree):
    out, n = [], 0
    for x in ast.walk(tree):
        if isinstance(x, ast.Raise):
            n += 1
        v = None
        if isinstance(x, ast.Expr):
            v = x.value
        elif isinstance(x, ast.Return):
            v = x.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in EXC:
            out.append((x.lineno, v.func.id))
    return out, n


def run_notraised(prog, prop):
    fs, n = [], 0
    for m in modules(prog, prop):
        o, k = _not_raised(m.tree)
        n += k
        for line, e in o:
            fs.append(Finding(m.rel, line, f'{m.name}:{e}', f'{e}(...) is built and dropped, never raised'))
    return fs, n


def self_notraised():
    return len(_not_raised(ast.parse('def f():\n    ValueError(1)\n    return TypeError()\n'))[0]) == 2


# ------------------------------------------------------------ enumeration members
def _enum_members(prog, m, tree):
    """attribute reads on an enumeration name a member that exists"""
    out, n = [], 0
    for x in ast.walk(tree):
        if not (isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load)):
            continue
        d = dotted_of(x.value)
        if d is None:
            continue
        head = d.split('.')[0]
        e = m.defs.get(head)
        if e is None:
            continue
        if e[0] == 'import':
            full = '.'.join([e[1]] + d.split('.')[1:])
        elif e[0] == 'class':
            full = '.'.join([m.name, d])
        else:
            continue
        if full in LIB_ENUMS:
            members = LIB_ENUMS[full]
        else:
            r = prog.resolve(full)
            if r[0] != 'class' or not prog.is_enum(r[1]):
                continue
            members = {k for k in r[1].body}
        n += 1
        if x.attr not in members and not x.attr.startswith('_') and x.attr not in ('name', 'value', 'mro'):
            out.append((x.lineno, full, x.attr))
    return out, n


def _bindings_shadow(tree):
    """names rebound inside some function (then the module level meaning is not certain)"""
    s = set()
    for x in ast.walk(tree):
        if isinstance(x, (ast.FunctionDef, ast.Lambda)):
            a = x.args
            for p in a.args + a.posonlyargs + a.kwonlyargs + [q for q in (a.vararg, a.kwarg) if q]:
                s.add(p.arg)
            for y in ast.walk(x):
                if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                    s.add(y.id)
    return s


def run_enum(prog, prop):
    fs, n = [], 0
    for m in modules(prog, prop):
        o, k = _enum_members(prog, m, m.tree)
        n += k
        sh = _bindings_shadow(m.tree)
        for line, full, a in o:
            if full.split('.')[-1] in sh:
                continue
            fs.append(Finding(m.rel, line, f'{m.name}:{full}.{a}', f'{full} has no member {a}'))
    return fs, n


def self_enum():
    p = Program()
    m = p.add_virtual_src('selftest_enum', 'from hwtypes import RoundingMode as R\nx = R.RNE\ny = R.RDN\n')
    o, n = _enum_members(p, m, m.tree)
    return n == 2 and [x[2] for x in o] == ['RDN']


# ------------------------------------------------------------ cache completeness
def evaluators(prog, prop):
    """the value graph of every anchored function of the property"""
    for s in oblig.load_specs(prog):
        ps = s.all_props()
        if prop is not None and prop not in ps and not (prop == 'C03' and ps & {'A03', 'D01', 'D02', 'F01'}):
            continue
        k = (id(prog), s.name)
        if k not in oblig.EVS:
            try:
                oblig.EVS[k] = oblig.graph(prog, s, 'actual', s.opaque, 30)
            except (Exception, RecursionError):
                oblig.EVS[k] = None
        if oblig.EVS[k] is not None:
            yield s, oblig.EVS[k]


def free_syms(t, stop):
    out, seen = set(), set()

    def go(t):
        if t.id in seen:
            return
        seen.add(t.id)
        if t in stop:
            return
        if t.op == 'fresh':
            out.add(t)
            return
        for a in t.args:
            if isinstance(a, tm.T):
                go(a)
            elif isinstance(a, tuple):
                for y in a:
                    if isinstance(y, tm.T):
                        go(y)
    go(t)
    return out


def key_parts(k):
    """the parts of the key a hit pins down exactly (a sorted copy pins the collection)"""
    if k.op in ('tuple', 'tupof', 'lst', 'cnd', 'el', 'star', 'spl'):
        r = {k}
        for a in k.args:
            if isinstance(a, tm.T):
                r |= key_parts(a)
        return r
    if k.op == 'call' and k.args[0].op == 'glob' and k.args[0].args[0] in ('frozenset', 'sorted', 'tuple') and len(k.args) == 2:
        return {k} | key_parts(k.args[1])
    if k.op == 'sorted':
        return {k} | key_parts(k.args[0])
    if k.op == 'typ' or k.op == 'call' and k.args[0].op == 'glob' and k.args[0].args[0] == 'type' and len(k.args) == 2:
        # the class of the receiver of a method stands for the receiver: what a family generates is made of members
        # of its class and of the arguments (its assembler reaches a register only through the type T)
        x = k.args[-1]
        if isinstance(x, tm.T) and tm.HINTS.get(x.id) == 'self':
            return {k, x}
    return {k}


def memo_findings(ev, anchor):
    out = []
    stores = {}
    for b, k, v, rel, fn in ev.memos:
        stores.setdefault((b.id, rel), []).append((b, k, v, fn))
        miss = {x for x in free_syms(v, key_parts(k)) if x.id in tm.HINTS}     # parameters
        # the symbols the key mentions only through a projection are not pinned
        if miss:
            out.append((rel, fn, f'{b.args[0]}: the cached value depends on '
                        f'{", ".join(sorted(tm.HINTS[m.id] for m in miss))}, which the key '
                        f'{tm.show(k, 4)} does not determine'))
    for (b, rel), l in stores.items():
        ks = {k.id for _, k, _, _ in l}
        for lb, lk in ev.lookups:
            if lb.id == b and lk.id not in ks:
                out.append((rel, l[0][3], f'{l[0][0].args[0]}: read with key {tm.show(lk, 4)}, written with key '
                            f'{tm.show(l[0][1], 4)}'))
    return out


def run_memo(prog, prop):
    fs, n, writers = [], 0, {}
    for s, (g, ev) in evaluators(prog, prop):
        n += len(ev.memos)
        seen = set()
        for b, k, v, rel, fn in ev.memos:
            if b.op == 'glob' and v.op != 'const':
                w = writers.setdefault(b.args[0], {}).setdefault((rel, str(getattr(fn, 'name', fn))), (s.actual, k, v, set()))
                w[3].add(s.actual)
        for rel, fn, msg in memo_findings(ev, s.actual):
            key = (rel, str(getattr(fn, 'name', fn)))
            if key in seen:
                continue
            seen.add(key)
            fs.append(Finding(rel, getattr(getattr(fn, 'node', None), 'lineno', 0), s.actual, msg))
    for b, ws in writers.items():
        fs += shared_writers(b, ws)
    return fs, n


def shared_writers(b, ws):
    """one memo written by several functions: under keys that can coincide they must store the same thing"""
    out, ws = [], sorted(ws.items())
    for i, ((rel, _), (who, k, v, roots)) in enumerate(ws):
        for _, (who2, k2, v2, roots2) in ws[:i]:
            # writers reached from one function only are its own branches
            if not roots & roots2 and general(v) is not general(v2) and not apart(k, k2):
                out.append(Finding(rel, 0, who, f'{b}: {who2} stores something else under the same keys'))
                break
    return out


def general(t):
    """the parameters of the function do not matter by themselves, only their place"""
    ps = sorted(free_syms(t, ()), key=lambda x: x.id)
    return tm.subst(t, {p.id: tm.raw('argno', i) for i, p in enumerate(ps)}) if ps else t


def apart(k, k2):
    """the keys can never be equal"""
    if k.op == 'const' and k2.op == 'const':
        return k is not k2
    seqs = ('tuple', 'tupof')
    if k.op == 'tuple' and k2.op == 'tuple':
        return len(k.args) != len(k2.args) or any(apart(x, y) for x, y in zip(k.args, k2.args))
    return 'const' in (k.op, k2.op) and (k.op in seqs or k2.op in seqs)


def self_memo():
    return selftest_fn('_C = {}\ndef f(a, b):\n    k = (a,)\n    if k in _C:\n        return _C[k]\n    return _C.setdefault(k, (a, b))\n',
                       'f', lambda g, ev: bool(memo_findings(ev, 'f')))


def selftest_fn(src, fn, pred):
    from .evaluator import Evaluator, Fn, State
    p = Program()
    m = p.add_virtual_src('selftest_fn', src)
    ev = Evaluator(p)
    node = m.defs[fn][1]
    f = Fn(node, m, (), name=fn, qual='selftest_fn.' + fn)
    f.ptypes = {}
    g = ev.freeze_fn(ev.mkfn(f), State())
    return pred(g, ev)


# -------------------------------------------------- caching over mutable objects
def _cached_defs(tree):
    for x in ast.walk(tree):
        if isinstance(x, ast.FunctionDef):
            for d in x.decorator_list:
                n = dotted_of(d.func if isinstance(d, ast.Call) else d)
                if n and n.split('.')[-1] in ('lru_cache', 'cache', 'cached_property') and n != 'm.cache_definition':
                    yield x


def _reads_state(fn):
    """the function walks the attributes of one of its parameters"""
    ps = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
    for x in ast.walk(fn):
        if isinstance(x, ast.Attribute) and x.attr == '__dict__' and isinstance(x.value, ast.Name) and x.value.id in ps:
            return x.lineno, f'{x.value.id}.__dict__'
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('vars', 'getattr', 'hasattr') and x.args \
                and isinstance(x.args[0], ast.Name) and x.args[0].id in ps and (x.func.id == 'vars' or not (len(x.args) > 1 and isinstance(x.args[1], ast.Constant))):
            return x.lineno, ast.unparse(x)
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id in ps:
            return x.lineno, f'store to {ast.unparse(x)}'
    return None


def run_cached(prog, prop):
    fs, n = [], 0
    for m in modules(prog, None if prop == 'C03' else prop):
        for x in _cached_defs(m.tree):
            n += 1
            r = _reads_state(x)
            if r:
                fs.append(Finding(m.rel, r[0], f'{m.name}:{x.name}',
                                  f'{x.name} is cached by object identity but reads state that can change: {r[1]}'))
    return fs, n


def self_cached():
    t = ast.parse('@lru_cache(None)\ndef f(o):\n    return sorted(o.__dict__)\n')
    return [bool(_reads_state(x)) for x in _cached_defs(t)] == [True]


# -------------------------------------------------- state shared through a default
MUT = {'append', 'extend', 'update', 'add', 'setdefault', 'insert', 'pop', 'remove', 'clear', 'popitem', 'discard'}


def _shared_default(tree):
    out, n = [], 0
    for f in ast.walk(tree):
        if not isinstance(f, ast.FunctionDef):
            continue
        a = f.args
        pairs = list(zip((a.posonlyargs + a.args)[len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults))
        pairs += [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for p, d in pairs:
            if not (isinstance(d, (ast.List, ast.Dict, ast.Set))
                    or isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ('list', 'dict', 'set', 'defaultdict')):
                continue
            n += 1
            rebound = any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == p.arg for x in ast.walk(f))
            if rebound:
                # `p += [...]` and `p = ...`: only an in place operator keeps the shared object
                for x in ast.walk(f):
                    if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == p.arg:
                        out.append((f, x.lineno, p.arg))
                        break
                continue
            for x in ast.walk(f):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUT \
                        and isinstance(x.func.value, ast.Name) and x.func.value.id == p.arg:
                    out.append((f, x.lineno, p.arg))
                    break
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name) and x.value.id == p.arg:
                    out.append((f, x.lineno, p.arg))
                    break
    return out, n


def run_default(prog, prop):
    fs, n = [], 0
    for m in modules(prog, prop):
        o, k = _shared_default(m.tree)
        n += k
        for f, line, p in o:
            fs.append(Finding(m.rel, line, f'{m.name}:{f.name}', f'the default object of {p} is changed in place, so calls share it'))
    return fs, n


def self_default():
    return len(_shared_default(ast.parse('def f(a, x=[]):\n    x.append(a)\n    return x\n'))[0]) == 1


# -------------------------------------------------- caches kept on objects
def _own(fn):
    """nodes of a function, without the functions inside it"""
    todo = list(fn.body)
    while todo:
        x = todo.pop()
        yield x
        for c in ast.iter_child_nodes(x):
            if not isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                todo.append(c)


def _names(e):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}


def _flow(f):
    """name -> names its value is made from, stores into subscripts, subscripts returned, names the function binds"""
    deps, stores, hits, bound = {}, [], [], set()
    for x in _own(f):
        if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and x.value is not None:
            for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                if isinstance(t, ast.Subscript):
                    stores.append((t, x.value, x.lineno))
                base = t
                bound |= {y.id for y in ast.walk(t) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
                while isinstance(base, (ast.Subscript, ast.Attribute, ast.Starred)):
                    base = base.value
                for y in ast.walk(base):
                    if isinstance(y, ast.Name):
                        deps.setdefault(y.id, set()).update(_names(x.value))
        elif isinstance(x, (ast.For, ast.comprehension)):
            for y in _names(x.target):
                deps.setdefault(y, set()).update(_names(x.iter))
        elif isinstance(x, ast.NamedExpr):
            deps.setdefault(x.target.id, set()).update(_names(x.value))
        if isinstance(x, ast.Return) and x.value is not None:
            for y in ast.walk(x.value):
                if isinstance(y, ast.Subscript):
                    hits.append(y)
    return deps, stores, hits, bound


def _closed(deps, ns):
    seen, work = set(), list(ns)
    while work:
        y = work.pop()
        if y not in seen:
            seen.add(y)
            work += deps.get(y, ())
    return seen


def _callers_pin(tree, f, keys, miss):
    """every call of f in the module passes, for the key, something made from what it passes for the rest"""
    names = [p.arg for p in f.args.posonlyargs + f.args.args]
    if f.args.vararg or f.args.kwarg or not set(names) >= keys | miss:
        return False
    n = 0
    for g in ast.walk(tree):
        if not isinstance(g, ast.FunctionDef) or g is f:
            continue
        deps = _flow(g)[0]
        for x in _own(g):
            if not isinstance(x, ast.Call) or ast.unparse(x.func).split('.')[-1] != f.name:
                continue
            pos = x.args
            ps = names[1:] if isinstance(x.func, ast.Attribute) and len(pos) < len(names) else names
            got = dict(zip(ps, pos))
            got.update({k.arg: k.value for k in x.keywords})
            if not set(got) >= keys | miss:
                return False
            key = set().union(*[_names(got[k]) for k in keys])
            rest = set().union(*[_names(got[k]) for k in miss])
            if not rest <= _closed(deps, key):
                return False
            n += 1
    return n > 0


def _object_caches(tree):
    """(function, line, container, parameters the key leaves open) of caches that return early"""
    out, n = [], 0
    for f in ast.walk(tree):
        if not isinstance(f, ast.FunctionDef):
            continue
        a = f.args
        params = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs + [q for q in (a.vararg, a.kwarg) if q]}
        deps, stores, hits, bound = _flow(f)
        if not stores or not hits:
            continue
        for t, v, line in stores:
            root = t.value
            while isinstance(root, (ast.Attribute, ast.Subscript)):
                root = root.value
            if not isinstance(root, ast.Name) or root.id in bound or isinstance(t.slice, (ast.Slice, ast.Constant)):
                continue
            d, k = ast.dump(t.value).replace('Store()', 'Load()'), ast.dump(t.slice)
            early = [h for h in hits if ast.dump(h.value) == d and ast.dump(h.slice) == k and h.lineno < line]
            if not early:
                continue
            n += 1
            pinned = _closed(deps, _names(t.slice))
            miss = (_closed(deps, _names(v)) & params) - pinned - {root.id}
            if miss and not _callers_pin(tree, f, pinned & params, miss):
                out.append((f, line, ast.unparse(t), sorted(miss)))
    return out, n


def module_props(prog):
    r = {}
    for s in oblig.load_specs(prog):
        m = s.actual.split(':')[0] if not s.actual.startswith('scn:') else None
        for q in ([m] if m else [c.rsplit('.', 1)[0] for c in s.inline]):
            r.setdefault(q, set()).update(s.all_props())
    return r


def run_objcache(prog, prop):
    fs, n = [], 0
    mp = module_props(prog)
    for m in modules(prog, None):
        if prop is not None and prop not in mp.get(m.name, ()):
            continue
        o, k = _object_caches(m.tree)
        n += k
        for f, line, d, miss in o:
            fs.append(Finding(m.rel, line, f'{m.name}:{f.name}', f'{d} is returned early for later calls, but its value depends on {", ".join(miss)}, '
                                                                  'which the key does not determine'))
    return fs, n


def self_objcache():
    src = 'class A:\n def f(self, a, b):\n  if a in self._c:\n   return self._c[a]\n  r = g(a, b)\n  self._c[a] = r\n  return r\n'
    call = ' def g(self, a, b):\n  return self.f(%s, b)\n'
    return len(_object_caches(ast.parse(src))[0]) == 1 and len(_object_caches(ast.parse(src + call % 'a'))[0]) == 1 \
        and not _object_caches(ast.parse(src + call % '(a, b)'))[0] and not _object_caches(ast.parse(src.replace('[a]', '[a, b]').replace('if a', 'if (a, b)')))[0]


# ------------------------------------------------------------- hash and equality
def _methods(c):
    return {f.name: f for f in c.body if isinstance(f, ast.FunctionDef)}


def _reads(f):
    """attributes of the receiver a method reads, or None when the receiver is used in another way"""
    me = f.args.args[0].arg if f.args.args else None
    got, plain = set(), 0
    for x in ast.walk(f):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me:
            got.add(x.attr)
            plain += 1
    return got, sum(isinstance(x, ast.Name) and x.id == me for x in ast.walk(f)) == plain


def _hash_identity(tree):
    """(class, function, line, message) of hashes that tell apart what the equality beside them does not"""
    out, n = [], 0
    for c in ast.walk(tree):
        if not isinstance(c, ast.ClassDef):
            continue
        ms = _methods(c)
        h, e = ms.get('__hash__'), ms.get('__eq__')
        if h is None or e is None or not h.args.args or len(e.args.args) < 2:
            continue
        n += 1
        me, other = e.args.args[0].arg, e.args.args[1].arg
        compared = set()          # attributes the equality compares by value
        for x in ast.walk(e):
            if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.Eq, ast.NotEq)):
                l, r = x.left, x.comparators[0]
                if isinstance(l, ast.Attribute) and isinstance(r, ast.Attribute) and l.attr == r.attr \
                        and {ast.unparse(l.value), ast.unparse(r.value)} == {me, other}:
                    compared.add(l.attr)
        hs = h.args.args[0].arg
        same = any(isinstance(x, ast.Compare) and {ast.unparse(y) for y in [x.left, *x.comparators]} == {me, other} and isinstance(x.ops[0], (ast.Is, ast.IsNot))
                   or isinstance(x, ast.Attribute) and x.attr in ('__eq__', '__ne__')
                   or isinstance(x, ast.Name) and x.id == 'id' for x in ast.walk(e))
        for x in ast.walk(h):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'id' and len(x.args) == 1 \
                    or isinstance(x, ast.Call) and ast.unparse(x.func) == 'object.__hash__' and len(x.args) == 1:
                a = x.args[0]
                if isinstance(a, ast.Attribute) and ast.unparse(a.value) == hs and a.attr in compared:
                    out.append((c, h, x.lineno, f'hashes the identity of {a.attr}, which __eq__ compares by value'))
                elif isinstance(a, ast.Name) and a.id == hs and not same:
                    out.append((c, h, x.lineno, 'hashes the identity of the object, though __eq__ makes different objects equal'))
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'map' and len(x.args) == 2 \
                    and isinstance(x.args[0], ast.Name) and x.args[0].id == 'id' and isinstance(x.args[1], ast.Attribute) \
                    and ast.unparse(x.args[1].value) == hs and x.args[1].attr in compared:
                out.append((c, h, x.lineno, f'hashes the identity of the parts of {x.args[1].attr}, which __eq__ compares by value'))
        got, alone = _reads(h)
        eqr, _ = _reads(e)
        extra = got - eqr - set(ms) - {'__class__'}
        # nothing but attributes is read on either side, so what the equality never looks at can differ between equal objects
        if compared and alone and extra and not (eqr & set(ms)) and not any(
                isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == '__eq__' for x in ast.walk(e)):
            passed = [x for x in ast.walk(e) if isinstance(x, ast.Call) and any(isinstance(a, ast.Name) and a.id == me for a in x.args)
                      and not (isinstance(x.func, ast.Name) and x.func.id in ('type', 'isinstance', 'id'))]
            if not passed:
                out.append((c, h, h.lineno, f'hashes {", ".join(sorted(extra))}, which __eq__ does not compare'))
    return out, n


def run_hash(prog, prop):
    fs, n = [], 0
    mp = module_props(prog)
    for m in modules(prog, None):
        if prop is not None and prop not in mp.get(m.name, ()):
            continue
        o, k = _hash_identity(m.tree)
        n += k
        for c, f, line, msg in o:
            fs.append(Finding(m.rel, line, f'{m.name}:{c.name}.__hash__', msg))
    return fs, n


def self_hash():
    src = 'class A:\n def __eq__(s, o):\n  return s.a == o.a\n def __hash__(s):\n  return hash(%s)\n'
    bad = ['id(s.a)', 'id(s)', 's.b', '(s.a, s.b)']
    good = ['s.a', '(s.a, 3)', 'type(s)', 's.f()']
    return all(_hash_identity(ast.parse(src % b))[0] for b in bad) and not any(_hash_identity(ast.parse((src + ' def f(s): pass\n') % g))[0] for g in good)


# ------------------------------------------------------------- what is taken for granted
def asserted(tree):
    """qualified function -> [(condition as text, line)] of its assertions"""
    out = {}

    def go(n, q):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                go(c, q + [c.name])
            else:
                if isinstance(c, ast.Assert) and q:
                    out.setdefault('.'.join(q), []).append((ast.unparse(c.test), c.lineno))
                go(c, q)
    go(tree, [])
    return out


_CMP = {ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b, ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b,
        ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b, ast.Is: lambda a, b: a == b, ast.IsNot: lambda a, b: a != b}
_ARI = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b, ast.BitAnd: lambda a, b: a & b,
        ast.BitOr: lambda a, b: a | b, ast.BitXor: lambda a, b: a ^ b}


def _cond(e, i=''):
    """(atoms, evaluator of an assignment to them) of a condition; anything that is not a connective is an atom"""
    def atom(t, kind):
        k = (t + i, kind)
        return {k}, lambda env: env[k]
    if isinstance(e, ast.BoolOp):
        ps = [_cond(v, i) for v in e.values]
        f = all if isinstance(e.op, ast.And) else any
        return set().union(*[p[0] for p in ps]), lambda env: f(p[1](env) for p in ps)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        a, g = _cond(e.operand, i)
        return a, lambda env: not g(env)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        a, g = _cond(e.operand, i)
        return a, lambda env: -g(env)
    if isinstance(e, ast.Compare):
        parts, xs = [], [e.left] + e.comparators
        for op, l, r in zip(e.ops, xs, xs[1:]):
            if isinstance(op, (ast.In, ast.NotIn)):
                a, g = atom(f'{ast.unparse(l)} in {ast.unparse(r)}', 'bool')
                parts.append((a, g if isinstance(op, ast.In) else lambda env, g=g: not g(env)))
            else:
                (a, f), (b, g) = _cond(l, i), _cond(r, i)
                parts.append((a | b, lambda env, f=f, g=g, o=_CMP[type(op)]: o(f(env), g(env))))
        return set().union(*[p[0] for p in parts]), lambda env: all(p[1](env) for p in parts)
    if isinstance(e, ast.BinOp) and type(e.op) in _ARI:
        (a, f), (b, g) = _cond(e.left, i), _cond(e.right, i)
        return a | b, lambda env: _ARI[type(e.op)](f(env), g(env))
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, bool)):
        return set(), lambda env: e.value
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('all', 'any') and len(e.args) == 1 \
            and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) and len(e.args[0].generators) == 1 and not e.args[0].generators[0].ifs:
        g = e.args[0]
        tag = f'{i}#{ast.unparse(g.generators[0].iter)}'
        ps = [_cond(g.elt, tag + str(k)) for k in (0, 1)]
        f = all if e.func.id == 'all' else any
        return set().union(*[p[0] for p in ps]), lambda env: f(p[1](env) for p in ps)
    t = ast.unparse(e)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('isinstance', 'issubclass', 'hasattr', '_issubclass', 'callable'):
        return atom(t, 'bool')
    return atom(t, 'len' if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'len' else 'int')


_DOM = {'bool': (False, True), 'len': (0, 1, 2, 3), 'int': (0, 1, 2, 3, 4, 6, -1)}


def stronger(known, old, new):
    """an assignment that every known condition (old is one of them) allows and the new one does not, when both speak of the same things"""
    try:
        o, n = ast.parse(old, mode='eval').body, ast.parse(new, mode='eval').body
        oa, _ = _cond(o)
        na, ng = _cond(n)
        if oa != na or not na:
            return None
        fs = [(a, g) for a, g in (_cond(ast.parse(k, mode='eval').body) for k in known) if a <= oa]
        ks = sorted(oa)
        size = 1
        for k in ks:
            size *= len(_DOM[k[1]])
        if size > 50000:
            return None
        for vals in itertools.product(*[_DOM[k[1]] for k in ks]):
            env = dict(zip(ks, vals))
            if all(g(env) for _, g in fs) and not ng(env):
                return {k[0].split('#')[0]: v for k, v in env.items()}
    except (TypeError, KeyError, ValueError):
        return None
    return None


def _known_asserts():
    r = {}
    with open(os.path.join(oblig.HERE, 'specs', 'asserts.txt')) as f:
        for l in f:
            q, _, t = l.rstrip('\n').partition('\t')
            r.setdefault(q, []).append(t)
    return r


def run_assert(prog, prop):
    fs, n = [], 0
    known = _known_asserts()
    fp = {}
    for s in oblig.load_specs(prog):
        fp.setdefault(s.actual, set()).update(s.all_props())
    mp = module_props(prog)
    for m in modules(prog, None):
        for q, tests in asserted(m.tree).items():
            old = known.get(f'{m.name}:{q}')
            if not old:
                continue
            ps = q.split('.')
            near = next((fp[f'{m.name}:{".".join(ps[:k])}'] for k in range(len(ps), 0, -1) if f'{m.name}:{".".join(ps[:k])}' in fp),
                        mp.get(m.name, ()))
            if prop is not None and prop not in near:
                continue
            n += len(tests)
            now = [t for t, _ in tests]
            gone = [t for t in old if t not in now]
            for t, line in tests:
                if t in old:
                    continue
                for o in gone:
                    w = stronger(old, o, t)
                    if w is not None:
                        fs.append(Finding(m.rel, line, f'{m.name}:{q}', f'assert {t} refuses what assert {o} allows: '
                                          + ', '.join(f'{k} = {v}' for k, v in w.items())))
                        break
    return fs, n


def self_assert():
    bad = [('a <= b', 'a < b'), ('len(a) > 0', 'len(a) > 1'), ('x in a or x in b', 'x in a and x in b'), ('a == b', 'a != b'),
           ('all(len(p) > 0 for p in q)', 'all(len(p) > 1 for p in q)'), ('x & x - 1 == 0', 'x & x - 1 == 1')]
    good = [('a < b', 'a <= b'), ('a == b', 'b == a'), ('len(a) > 0', 'len(a) >= 1'), ('not a == b', 'a != b'), ('a < b', 'c < b'),
            ('len(a) > 0', 'len(a) != 0'), ('all(len(p) > 1 for p in q)', 'any(len(p) > 0 for p in q)')]
    return all(stronger([o], o, t) is not None for o, t in bad) and all(stronger([o], o, t) is None for o, t in good)


def _shared_instances(tree):
    """objects with state that several places of a collection come to share"""
    for f in ast.walk(tree):
        if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        nodes = list(_own(f))

        def inst(e):
            if isinstance(e, ast.IfExp):
                return inst(e.body) or inst(e.orelse)
            if isinstance(e, ast.BoolOp):
                return any(inst(x) for x in e.values)
            return isinstance(e, ast.Call) and isinstance(e.func, ast.Call)

        made = {t.id for n in nodes if isinstance(n, ast.Assign) and inst(n.value) for t in n.targets if isinstance(t, ast.Name)}

        def holds(e):
            if isinstance(e, ast.IfExp):
                return holds(e.body) or holds(e.orelse)
            return inst(e) or isinstance(e, ast.Name) and e.id in made

        loops = [n for n in nodes if isinstance(n, (ast.For, ast.While, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp))]

        def targets(l):
            ts = [l.target] if isinstance(l, ast.For) else [g.target for g in getattr(l, 'generators', ())]
            return {x.id for t in ts for x in ast.walk(t) if isinstance(x, ast.Name)}

        # counters: no two iterations have the same
        steps = set()
        for l in loops:
            for t, it in [(l.target, l.iter)] if isinstance(l, ast.For) else [(g.target, g.iter) for g in getattr(l, 'generators', ())]:
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
                    if it.func.id == 'range' and isinstance(t, ast.Name):
                        steps.add(t.id)
                    elif it.func.id == 'enumerate' and isinstance(t, ast.Tuple) and isinstance(t.elts[0], ast.Name):
                        steps.add(t.elts[0].id)
            if isinstance(l, ast.While):
                steps |= {x.target.id for x in ast.walk(l) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
        for n in nodes:
            # kept under a key that two iterations can have in common, and looked up again
            store = None
            if isinstance(n, ast.Assign) and holds(n.value):
                store = [(t.value, t.slice) for t in n.targets if isinstance(t, ast.Subscript)]
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'setdefault' and len(n.args) == 2 and holds(n.args[1]):
                store = [(n.func.value, n.args[0])]
            for c, k in store or ():
                if not isinstance(c, ast.Name) or isinstance(k, ast.Name) and k.id in steps:
                    continue
                if not any(any(x is n for x in ast.walk(l)) for l in loops):
                    continue
                tests = {id(y) for x in nodes if isinstance(x, ast.Compare) for y in ast.walk(x)}
                if isinstance(n, ast.Call) or any((isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == c.id
                                                   or isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('get', 'setdefault')
                                                   and isinstance(x.func.value, ast.Name) and x.func.value.id == c.id)
                                                  and id(x) not in tests for x in nodes):
                    yield f, n.lineno, f'the object kept in {c.id}[{ast.unparse(k)}] is handed out again for an equal {ast.unparse(k)}'
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult):
                for e in (n.left, n.right):
                    if isinstance(e, (ast.List, ast.Tuple)) and any(holds(x) for x in e.elts):
                        yield f, n.lineno, f'{ast.unparse(n)} holds one object several times'
        for l in loops:
            inside = {id(x) for x in ast.walk(l)}
            here = {t.id for x in ast.walk(l) if isinstance(x, ast.Assign) for t in x.targets if isinstance(t, ast.Name)} | targets(l)
            for n in nodes:
                if id(n) not in inside:
                    continue
                e = n.args[0] if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'append' and n.args else getattr(n, 'elt', None)
                if isinstance(e, ast.Name) and e.id in made - here:
                    yield f, n.lineno, f'every element is the one object {e.id}'


def run_shared(prog, prop):
    fs, n = [], 0
    for m in modules(prog, None):
        if m.rel not in ('peak/memory.py', 'peak/register.py', 'peak/peak.py'):
            continue
        n += 1
        for f, line, what in _shared_instances(m.tree):
            fs.append(Finding(m.rel, line, f'{m.name}:{f.name}', what))
    return fs, n


def self_shared():
    bad = ['def f(d):\n r={}\n for x in d:\n  if x not in r:\n   r[x]=g(1)()\n  out.append(r[x])',
           'def f(n):\n return [g(1)()] * n', 'def f(n):\n r=g(1)()\n return [r for i in range(n)]',
           'def f(d):\n r={}\n for x, y in d:\n  out.append(r.setdefault(y.a, g(1)()))']
    good = ['def f(d):\n r={}\n for i in range(9):\n  r[i]=g(d[i])()\n return [r[i] for i in range(9)]', 'def f(n):\n return [g(1)() for i in range(n)]',
            'def f(n):\n out=[]\n for i in range(n):\n  r=g(1)()\n  out.append(r)', 'def f(n):\n return [1] * n']
    return all(list(_shared_instances(ast.parse(b))) for b in bad) and not any(list(_shared_instances(ast.parse(b))) for b in good)


ALL = [
    Lint('undefined-name', 'every name a function reads is bound somewhere', run_undefined, self_undefined, ALLP),
    Lint('exception-dropped', 'an exception object that is built is raised', run_notraised, self_notraised, ALLP),
    Lint('enum-member', 'an enumeration member that is read exists', run_enum, self_enum, ALLP),
    Lint('cache-key', 'a cached value depends on nothing its key does not determine, and is read under the key it is written under',
         run_memo, self_memo, sorted(set(ALLP) | {'A01', 'A03', 'C03', 'D02', 'A05'})),
    Lint('cached-state', 'a function cached on its arguments reads no state of them that can change', run_cached, self_cached,
         sorted(set(ALLP) | {'C03', 'F02'})),
    Lint('shared-default', 'no call changes a default argument object', run_default, self_default, sorted(set(ALLP))),
    Lint('object-cache', 'a value an object or class keeps and returns to later calls depends on nothing its key does not determine',
         run_objcache, self_objcache, EVERY),
    Lint('hash-identity', 'a hash tells apart no two objects that the equality beside it makes equal', run_hash, self_hash, ['B02', 'C02']),
    Lint('shared-instance', 'every cell of a collection holds an object of its own', run_shared, self_shared, ['D01', 'D03']),
    Lint('assertion', 'an assertion refuses nothing that the same assertion allowed in specs/asserts.txt', run_assert, self_assert, EVERY),
]
