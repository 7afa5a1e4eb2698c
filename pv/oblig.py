"""Obligations: a specification function against the code it specifies."""
import ast
import copy
import fnmatch
import os
import re
import sys
import time
import traceback

from . import terms as tm
from . import modules
from .modules import Program, Missing
from .evaluator import Evaluator, Fn, State, Ctx, Budget
from .diff import Cmp, where, recombines, RESHAPE, RESHAPE_M, RESHAPE_MODS
from . import model
from .terms import raw, T

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(HERE, 'specs')

# seconds one run may spend on comparing graphs with every helper inlined
FALLBACK = [60.0]

# seconds one run may spend on interpreting graphs
ALGEBRAS = [60.0]
GATE = 2000

HOLDS, REFUTED, UNDECIDED, BROKEN = 'holds', 'refuted', 'undecided', 'missing'


class Spec:
    def __init__(self, mod, node, kw):
        self.mod = mod
        self.node = node
        self.name = mod.name.split('.')[-1] + '.' + node.name
        self.props = kw.get('props', [])
        self.actual = kw['actual']
        self.opaque = kw.get('opaque', [])
        self.inline = kw.get('inline', [])
        self.parts = kw.get('parts')          # {component: [props]}
        self.assume = kw.get('assume', {})    # parameter -> class
        self.why = ast.get_docstring(node) or ''
        self.members = kw.get('members')      # for classes: {member: [props]}
        self.fallback = kw.get('fallback', True)
        self.strict = kw.get('strict', False)
        self.orelse = kw.get('orelse', [])    # other functions that say the same, iteratively say
        self.reports = kw.get('reports', False)   # what is printed counts
        self.raises = []                      # properties that need the refusals only

    def all_props(self):
        s = set(self.props) | set(self.raises)
        for p in (self.parts or {}).values():
            s |= set(p)
        return s


class Result:
    def __init__(self, spec, part, props, verdict, diffs=(), note='', loc=None, terms=0):
        self.spec, self.part, self.props, self.verdict = spec, part, props, verdict
        self.diffs, self.note, self.loc, self.terms = list(diffs), note, loc, terms


_vocab = None


def vocab():
    global _vocab
    if _vocab is None:
        with open(os.path.join(SPECS, 'vocab.txt')) as f:
            _vocab = set(f.read().split('\n'))
    return _vocab


def known_glob(n):
    if n.startswith('?'):
        return True
    if n.startswith('peak.'):
        return n.split('.')[-1] in vocab()
    if n.startswith('specs.'):
        return False
    return True


def scope():
    """[(property, obligation pattern, components or None)] from specs/scope.txt"""
    out = []
    with open(os.path.join(SPECS, 'scope.txt')) as f:
        for l in f:
            if l.startswith('#') or ':' not in l:
                continue
            p, rest = l.split(':', 1)
            for w in rest.split():
                m = re.fullmatch(r'([\w?*]+\.[\w?*]+)(?:\[([\d,]+)\])?(!raises)?', w)
                if not m:
                    raise ValueError(f'scope.txt: {w}')
                parts = [int(x) for x in m[2].split(',')] if m[2] else None
                out.append((p, m[1], ['raises'] if m[3] else parts))
    return out


def widen(specs):
    """add the properties that reach an obligation through calls"""
    used = set()
    rows = scope()
    for s in specs:
        for i, (p, pat, parts) in enumerate(rows):
            if not fnmatch.fnmatchcase(s.name, pat):
                continue
            used.add(i)
            if parts == ['raises']:
                s.raises.append(p)
            elif s.parts is not None:
                for k in s.parts:
                    if (parts is None or k in parts) and p not in s.parts[k]:
                        s.parts[k].append(p)
            elif p not in s.props:
                s.props.append(p)
    for s in specs:
        done = set(s.props)
        if s.parts:
            done |= set.intersection(*map(set, s.parts.values()))
        s.raises = [p for p in s.raises if p not in done]
    return [r for i, r in enumerate(rows) if i not in used]


def load_specs(prog):
    out = []
    for f in sorted(os.listdir(SPECS)):
        if not f.endswith('.py'):
            continue
        name = 'specs.' + f[:-3]
        m = prog.add_virtual(name, os.path.join(SPECS, f))
        for n in m.tree.body:
            if isinstance(n, (ast.FunctionDef,)):
                for d in n.decorator_list:
                    if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == 'spec':
                        kw = {k.arg: ast.literal_eval(k.value) for k in d.keywords}
                        out.append(Spec(m, n, kw))
    widen(out)
    return out


def getfn(prog, spec, which):
    """(Fn, Class|None)"""
    if which == 'spec':
        node = spec.node
        return Fn(node, spec.mod, (), name=node.name, qual=spec.name), None
    q = spec.actual
    if q.startswith('scn:'):
        d = spec.mod.defs.get(q[4:])
        return Fn(d[1], spec.mod, (), name=q[4:], qual=spec.mod.name + ':' + q[4:]), None
    m, n, c = prog.func(q)
    k = c
    fn = Fn(n, m, (), cls=None, name=n.name, qual=q)
    if c is not None:
        kk, _ = prog.find_method(c, n.name)
        fn.cls = kk
    return fn, c


def graph(prog, spec, which, opaque, limit=120):
    if not spec.actual.startswith('scn:'):
        opaque = list(opaque) + [spec.actual.replace(':', '.')]
    tm.DEADLINE[0] = time.process_time() + limit
    try:
        return graph_(prog, spec, which, opaque)
    finally:
        tm.DEADLINE[0] = None


def graph_(prog, spec, which, opaque):
    ev = Evaluator(prog, opaque=opaque, inline_classes=spec.inline)
    ev.reports = spec.reports
    fn, c = getfn(prog, spec, which)
    if which == 'spec' and not spec.actual.startswith('scn:') and spec.node.args.args and spec.node.args.args[0].arg in ('self', 'cls', 'mcs'):
        try:
            _, n, c = prog.func(spec.actual)
            if c is not None:
                k, _ = prog.find_method(c, n.name)
                fn.cls = k
        except Missing:
            c = None
    fn.ptypes = {}
    if c is not None and fn.node.args.args:
        decs = [modules.dotted_of(d) for d in fn.node.decorator_list]
        try:
            _, an, _ = prog.func(spec.actual)
            decs += [modules.dotted_of(d) for d in an.decorator_list]
        except Missing:
            pass
        if 'staticmethod' not in decs and 'classmethod' not in decs and fn.node.name not in ('__new__', '__init_subclass__'):
            fn.ptypes[fn.node.args.args[0].arg] = c
    for p, q in spec.assume.items():
        r = prog.resolve(q)
        if r[0] == 'class':
            fn.ptypes[p] = r[1]
    t = ev.freeze_fn(ev.mkfn(fn), State())
    return t, ev


def part_of(t, key):
    """project component `key` of the returned tuple"""
    if t.op == 'ite':
        return tm.ite(t.args[0], part_of(t.args[1], key), part_of(t.args[2], key))
    if t.op == 'RET' and t.args[0].op == 'tuple':
        if isinstance(key, int):
            if key < len(t.args[0].args):
                return raw('RET', t.args[0].args[key])
            return raw('RET', raw('nocomp'))
    if t.op == 'RET' and t.args[0].op == 'dict' and isinstance(key, str):
        return raw('RET', tm.idx(t.args[0], tm.const(key)))
    return t


def refusals(t):
    """what a function raises and when: results and effects dropped, also in functions it returns"""
    if t.op == 'fnv':
        lam = t.args[1]
        fs = [tm.fresh() for _ in range(lam.args[0])]
        return raw('fnv', t.args[0], tm.close_lam(fs, refusals(tm.apply_lam(lam, fs))), *t.args[2:])
    if t.op == 'ite':
        return tm.ite(t.args[0], refusals(t.args[1]), refusals(t.args[2]))
    if t.op == 'RET':
        v = refusals(t.args[0]) if t.args[0].op in ('fnv', 'tuple') else tm.NONE
        return raw('RET', v)
    if t.op == 'tuple':
        return raw('tuple', *[refusals(x) if x.op in ('fnv', 'tuple') else tm.NONE for x in t.args])
    return t


def project(f, key):
    if key == 'raises':
        return refusals(f)
    if f.op != 'fnv':
        return f
    lam = f.args[1]
    fs = [tm.fresh() for _ in range(lam.args[0])]
    b = part_of(tm.apply_lam(lam, fs), key)
    return raw('fnv', f.args[0], tm.close_lam(fs, b), *f.args[2:])


def has_unk(t):
    return any(x.op == 'unk' for x in tm.subterms(t))


EVS = {}      # graphs of the analysed functions, for the rules in lints


def run_spec(prog, spec, props=None, tier='quick'):
    del tm.ASSUME[:]
    tm.LIMIT[0] = len(tm._table) + 1200000
    try:
        fn, _ = getfn(prog, spec, 'actual')
    except (Missing, KeyError, TypeError) as e:
        return [Result(spec, None, sorted(spec.all_props()), BROKEN, note=f'anchor {spec.actual} not found')]
    loc = (fn.mod.rel, fn.node.lineno, spec.actual)
    try:
        s, evs = graph(prog, spec, 'spec', spec.opaque)
        a, eva = graph(prog, spec, 'actual', spec.opaque)
        EVS[id(prog), spec.name] = (a, eva)
    except Budget as e:
        return [Result(spec, None, sorted(spec.all_props()), UNDECIDED, note=f'budget {e}', loc=loc)]
    except RecursionError as e:
        return [Result(spec, None, sorted(spec.all_props()), UNDECIDED, note='recursion', loc=loc)]
    except Exception as e:
        if os.environ.get('PV_DEBUG'):
            traceback.print_exc()
        return [Result(spec, None, sorted(spec.all_props()), UNDECIDED, note=f'engine: {type(e).__name__}: {e}', loc=loc)]
    parts = [(None, spec.props, s, a)]
    if spec.parts:
        parts = [(k, p, project(s, k), project(a, k)) for k, p in spec.parts.items()]
        if spec.props:
            parts.append((None, spec.props, s, a))
    if spec.raises:
        parts.append(('raises', spec.raises, refusals(s), refusals(a)))
    res = []
    fb = None
    for k, p, x, y in parts:
        if props is not None and not (set(p) & set(props)):
            continue
        funcs = dict(eva.funcs)
        r = judge(spec, k, p, x, y, eva, loc)
        if r.verdict != HOLDS and spec.fallback and spec.opaque:
            try:
                if fb is None:
                    fb = False
                    if FALLBACK[0] <= 0:
                        raise Budget('time')
                    t0 = time.process_time()
                    tm.LIMIT[0] = len(tm._table) + 300000
                    try:
                        fb = (graph(prog, spec, 'spec', [], 5)[0], graph(prog, spec, 'actual', [], 5)[0])
                    finally:
                        FALLBACK[0] -= time.process_time() - t0
                if fb is False:
                    raise Budget('time')
                fx, fy = fb if k is None else (project(fb[0], k), project(fb[1], k))
                if fx is fy:
                    r = Result(spec, k, p, HOLDS, note='after inlining helpers', loc=loc, terms=y.size)
            except Exception as e:
                pass
        for n in spec.orelse if r.verdict != HOLDS else ():
            try:
                o = copy.copy(spec)
                o.node = spec.mod.defs[n][1]
                x = graph(prog, o, 'spec', spec.opaque)[0]
                if (x if k is None else project(x, k)) is y:
                    r = Result(spec, k, p, HOLDS, note=f'as {n}', loc=loc, terms=y.size)
                    break
            except Exception:
                if os.environ.get('PV_DEBUG'):
                    traceback.print_exc()
        r.funcs = funcs
        r.notes = list(eva.notes)
        res.append(r)
    return res


def soft(d):
    return d.msg in ('different order', 'different key order', 'recursion', 'not analysed', 'budget', 'different super')


def by_interpretation(s, a, limit=10):
    """the graphs certainly differ: (algebras in which they do, algebras tried)"""
    if ALGEBRAS[0] <= 0 or model.news(s, a, lambda n: n in vocab() and n not in RESHAPE_M, lambda n: known_glob(n) and n not in RESHAPE and not n.startswith(RESHAPE_MODS)):
        return 0, 0
    t0 = time.process_time()
    try:
        return model.differ(s, a, deadline=t0 + limit)
    except (Exception, RecursionError):
        if os.environ.get('PV_DEBUG'):
            traceback.print_exc()
        return 0, 0
    finally:
        ALGEBRAS[0] -= time.process_time() - t0


def unshown(s, a, limit=8):
    """many algebras evaluate all that only one of the graphs has, with either outcome of every decision, and the graphs
    agree in every one of them"""
    if ALGEBRAS[0] <= 0:
        return False
    t0, cov = time.process_time(), {}
    try:
        bad, good = model.differ(s, a, GATE, want=1, deadline=t0 + limit, cov=cov)
        return not bad and good >= GATE // 16 and not model.uncovered(s, a, cov)[0]
    except (Exception, RecursionError):
        if os.environ.get('PV_DEBUG'):
            traceback.print_exc()
        return False
    finally:
        ALGEBRAS[0] -= time.process_time() - t0


def judge(spec, part, props, s, a, ev, loc):
    if s is a:
        return Result(spec, part, props, HOLDS, loc=loc, terms=a.size)
    note = ''
    try:
        x, y = tm.exploded(s, a)
        if x is y:
            return Result(spec, part, props, HOLDS, note='after distribution', loc=loc, terms=a.size)
    except (Budget, RecursionError):
        pass
    try:
        ds = Cmp(vocab(), known_glob).compare(s, a)
    except (Exception, RecursionError) as e:
        if os.environ.get('PV_DEBUG'):
            traceback.print_exc()
        return Result(spec, part, props, UNDECIDED, note=f'compare: {type(e).__name__}: {e}', loc=loc, terms=a.size)
    for d in ds:
        d.where = where(d, ev.prov)
    sure = bool(ds) and all(d.sure for d in ds)
    if ds and not sure and not any(soft(d) for d in ds):
        try:
            sure, note = recombines(s, a, vocab(), known_glob)
        except RecursionError:
            pass
    odd = ev.notes or has_unk(a) and not has_unk(s)
    if ds and not sure and not odd:
        bad, good = by_interpretation(s, a)
        if bad >= model.WANT:
            sure, note = True, f'the graphs differ in {bad} of {good} algebras'
    elif sure and not odd and unshown(s, a):
        sure, note = False, 'a difference in form that no algebra shows'
    if odd:
        sure = False
        note = 'construct not modelled: ' + '; '.join(ev.notes)
    return Result(spec, part, props, REFUTED if sure else UNDECIDED, ds, note, loc, a.size)
