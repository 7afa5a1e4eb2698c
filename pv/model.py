"""Random interpretation of value graphs.

Two graphs that normalise differently may still say the same thing (a loop written another way).
Here both are read in small artificial algebras: everything the analysis knows nothing about
(attributes, calls, parameters) is an unknown with its own identity, collections nothing is known
about have a few elements, and only the language itself has its meaning (lists, dictionaries,
arithmetic on integers, sorting, conditionals).  Graphs that say the same thing agree in every such
algebra, so one in which they differ refutes their equality (Gulwani and Necula, random
interpretation).  Nothing of the analysed program runs."""
import hashlib
import time

from . import terms as tm
from .terms import T


class Skip(Exception):
    """the algebra gives a term no meaning (an index out of range, ...)"""


class Restart(Exception):
    """an unknown got a value, start over"""


def dg(*xs):
    return hashlib.md5('\x00'.join(xs).encode('utf8', 'surrogatepass')).hexdigest()[:20]


class U:
    """an unknown"""
    __slots__ = ('d', 'k', 'base', 'pos')

    def __init__(self, d, k, base=None, pos=None):
        self.d, self.k, self.base, self.pos = d, k, base, pos

    def __repr__(self):
        return f'<{self.k} {self.d[:4]}>'


class Clo:
    __slots__ = ('t', 'env')

    def __init__(self, t, env):
        self.t, self.env = t, env


class G:
    """a name of another module or a builtin"""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n


class VDict:
    def __init__(self, items):
        self.ks, self.m = [], {}
        self.items = items


class VSet:
    def __init__(self, xs):
        self.xs = xs


class VSlice:
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a


class Mark:
    """an entry of a dictionary under construction"""
    __slots__ = ('k', 'a')

    def __init__(self, k, a):
        self.k, self.a = k, a


class Frame:
    __slots__ = ('h', 'args', 'up', 'memo', 'n')

    def __init__(self, h, args, up):
        self.h, self.args, self.up = h, args, up
        self.memo = {}
        self.n = 0 if up is None else up.n + 1


CONSTS = (int, str, bool, type(None), float, bytes, type(Ellipsis))
# names whose meaning is built in here
BUILTINS = {'len', 'str', 'list', 'tuple', 'set', 'frozenset', 'sorted', 'zip', 'range', 'reversed', 'enumerate', 'sum', 'any', 'all', 'min', 'max',
            'bool', 'iter', 'abs', 'map', 'filter', 'dict', 'next', 'divmod',
            'itertools.chain', 'itertools.chain.from_iterable', 'collections.OrderedDict', 'itertools.repeat', 'itertools.product',
            'itertools.count', 'itertools.islice', 'functools.reduce'} | {'operator.' + x for x in (
                'or_', 'and_', 'xor', 'add', 'sub', 'mul', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'not_', 'invert', 'inv', 'neg', 'lshift', 'rshift', 'itemgetter', 'getitem')}
METHODS = {'keys', 'values', 'items', 'get', 'index', 'count', 'copy', 'bit_length', 'union', 'intersection', 'difference'}
# constructs with a meaning here; the others are unknown functions of their parts
MEANT = {'const', 'bv', 'lam', 'fnv', 'ite', 'lst', 'el', 'spl', 'flat', 'cnd', 'tuple', 'tupof', 'dict', 'set', 'idx', 'slice', 'attr', 'call', 'kw',
         'cmp', 'lin', 'ac', 'bin', 'un', 'any', 'fold', 'red', 'last', 'lastof', 'firstel', 'firstpos', 'upto', 'zip', 'len', 'scat', 'posin', 'upd',
         'popped', 'removed', 'rangelen', 'truth', 'isinst', 'issub', 'RET', 'RAISE', 'glob', 'grp', 'sdef', 'star', 'dstar', 'reduce', 'wloop', 'step', 'eff',
         'effs', 'undef', 'dead', 'loopx', 'wloopx', 'isret', 'lstop', 'lret', 'lretv', 'lval', 'lbrk', 'lbreak', 'hasattr'}
NATURAL = {'int': int, 'str': str, 'bool': bool, 'list': list, 'tuple': tuple, 'dict': VDict, 'set': VSet, 'float': float, 'bytes': bytes}
SEQS = {'list', 'tuple'}


def keys_of(t):
    return t.op == 'call' and len(t.args) == 1 and t.args[0].op == 'attr' and t.args[0].args[1] == 'keys'


class Model:
    def __init__(self, seed, consts, classes=()):
        self.seed = str(seed)
        self.consts = consts
        self.bind = {}
        self.size = {}
        self.dec = {}
        self.pos = {}
        self.neg = {}
        self.restarts = 0
        self.steps = 0
        self.p = (0.5, 0.3, 0.7, 0.45)[seed % 4]
        self.classes = classes if seed % 3 else []
        self.tiny = seed % 5 == 4 or seed >= 192
        self.odd = self.light = False
        self.refused = False
        self.leaning = seed >= 96
        self.lean = None
        self.cov = None
        self.narrow = False
        self.big = 0
        self.clear()

    def clear(self):
        self.memo = {}
        self.hmemo = {}
        self.depth = 0

    def rnd(self, d, m=1 << 30):
        return int(hashlib.md5((self.seed + d).encode()).hexdigest()[:12], 16) % m

    def chance(self, d, p):
        return self.rnd(d, 1000) < p * 1000

    # ---- unknowns
    def mk(self, k, *parts, base=None, pos=None):
        d = dg(k, *parts)
        if d in self.bind:
            return self.bind[d]
        return U(d, k, base, pos)

    def n(self, u):
        d = self.measured(u)
        if d in self.size:
            return self.size[d]
        if self.big and not self.rnd('big' + d, 3):
            return self.big - 1 + self.rnd('n' + d, 5)
        return (2, 3, 3, 2, 1, 3, 2, 0)[self.rnd('n' + d, 8)]

    def measured(self, u):
        # a type has as many fields as names
        if u.k in ('attr.fields', 'attr.field_dict') and isinstance(u.base, U):
            return u.base.d
        return u.d

    def elems(self, v):
        """elements of an iterable value"""
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, VSet):
            return sorted(v.xs, key=self.ord)
        if isinstance(v, VDict):
            return [k for k, _ in self.entries(v)]
        if isinstance(v, str):
            return list(v)
        if isinstance(v, U):
            if v.k == 'slice':
                return self.cut(self.elems(v.base), v.pos)
            return [self.elem(v, j) for j in range(self.n(v))]
        raise Skip('iterate')

    def elem(self, v, j):
        return self.mk('elem', v.d, str(j), base=v, pos=j)

    def cut(self, xs, sl):
        lo, hi, st = sl.a
        for x in (lo, hi):
            if isinstance(x, U):
                self.give(x, self.rnd('cut' + x.d, len(xs) + (1 if self.rnd('cuts' + x.d, 3) else 3)))
        if lo is not None and hi is not None and isinstance(lo, int) and isinstance(hi, int) and 0 <= hi < lo:
            raise Skip('slice')
        if not all(x is None or isinstance(x, int) for x in sl.a) or st == 0:
            raise Skip('slice')
        return xs[lo:hi:st]

    def entries(self, v):
        """(key, value) pairs of a mapping"""
        if isinstance(v, U):
            return [(k, self.idx(v, k)) for k in self.elems(v)]
        if not isinstance(v, VDict):
            raise Skip('mapping')
        out = {}
        for x in v.items:
            if isinstance(x, Mark):
                k = self.H(x.a[0])
                if x.k == 'grp':
                    if k not in out and out and isinstance(x.a[0], U):
                        self.alias(x.a[0], out)
                    old = out.get(k, (x.a[0], []))
                    out[k] = (old[0], list(old[1]) + list(x.a[1]))
                elif x.k == 'sdef':
                    out.setdefault(k, x.a)
                elif x.k == 'delitem':
                    out.pop(k, None)
            elif isinstance(x, tuple) and len(x) == 2:
                k = self.H(x[0])
                out[k] = (out[k][0] if k in out else x[0], x[1])
            else:
                raise Skip('entry')
        return list(out.values())

    def alias(self, k, out):
        """a key things are collected under may be one of the keys seen before"""
        d = dg('alias', k.d)
        if d not in self.dec:
            self.dec[d] = False
            o = list(out.values())[0][0]
            if self.chance(d, .3) and isinstance(o, U) and not self.within(k, o) and (k.k != 'elem' or k.base.k in ('attr.fields', 'idx')):
                self.give(k, o)

    # ---- identity of values
    def H(self, v):
        if isinstance(v, U):
            return v.d
        if isinstance(v, bool):
            return 'i%d' % v
        if isinstance(v, int):
            return 'i%d' % v
        if isinstance(v, CONSTS):
            return 'c' + type(v).__name__ + repr(v)
        if isinstance(v, G):
            return 'g' + v.n
        if isinstance(v, (list, tuple)):
            if v and isinstance(v[0], U) and v[0].base is not None and v[0].k == 'elem':
                b = v[0].base
                if b.k != 'slice' and len(v) == self.n(b) and all(isinstance(x, U) and x.k == 'elem' and x.base.d == b.d and x.pos == j for j, x in enumerate(v)):
                    return b.d
            return dg('L', *[self.H(x) for x in v])
        if isinstance(v, VDict):
            es = self.entries(v)
            if es and isinstance(es[0][0], U) and es[0][0].k == 'elem':
                b = es[0][0].base
                if len(es) == self.n(b) and {self.H(k) for k, _ in es} == {x.d if isinstance(x, U) else '' for x in self.elems(b)} \
                        and all(self.H(x) == self.H(self.idx(b, k)) for k, x in es):
                    return b.d
            return dg('D', *sorted(dg(self.H(k), self.H(x)) for k, x in es))
        if isinstance(v, VSet):
            hs = sorted({self.H(x) for x in v.xs})
            bs = [x.base for x in v.xs if isinstance(x, U) and x.k == 'elem']
            if bs and hs == sorted({self.H(x) for x in self.elems(bs[0])}):
                return bs[0].d
            return dg('S', *hs)
        if isinstance(v, VSlice):
            return dg('slice', *[self.H(x) for x in v.a])
        if isinstance(v, Mark):
            return dg(v.k, *[self.H(x) for x in v.a])
        if isinstance(v, Clo):
            return self.hclo(v)
        raise Skip('identity')

    def hclo(self, c):
        k = (c.t.id, id(c.env), self.depth)
        r = self.hmemo.get(k)
        if r is not None and r[1] is c.env:
            return r[0]
        self.depth += 1
        try:
            if self.depth > 12:
                raise Skip('depth')
            t = c.t
            lam = t if t.op == 'lam' else t.args[1]
            gs = [self.mk('param', str(self.depth), str(j)) for j in range(lam.args[0])]
            spec = t.args[0] if t.op == 'fnv' else str(lam.args[0])
            if self.narrow and spec == '*|**':
                # called with one argument
                gs, spec = [[gs[0]], VDict([])], 'p'
            b = self.apply(lam, c.env, gs)
            if self.depth == 1:
                self.refused = isinstance(b, U) and b.k == 'RAISE'
            r = dg('fn', spec, self.H(b), *[self.default(x, c.env) for x in (t.args[2:] if t.op == 'fnv' else ())])
        finally:
            self.depth -= 1
        self.hmemo[k] = (r, c.env)
        return r

    def default(self, x, env):
        return 'default' if isinstance(x, T) and x.op == 'unk' else self.H(self.go(x, env))

    # ---- order, numbers, truth
    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, U):
            if self.odd:
                return (1, 2, 4, 8, 0, 3)[self.rnd('num' + v.d, 6)]
            return 1 + self.rnd('num' + v.d, 3 if self.tiny else 37)
        raise Skip('number')

    def ord(self, v):
        if isinstance(v, (bool, int)):
            return (0, int(v), '')
        if isinstance(v, U):
            return (0, self.num(v), v.d)
        if isinstance(v, str):
            return (1, v)
        if isinstance(v, (tuple, list)):
            return (2, [self.ord(x) for x in v])
        return (3, self.H(v))

    def less(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) or isinstance(a, str) and isinstance(b, str):
            return self.ord(a) < self.ord(b)
        return self.num(a) < self.num(b)

    def truth(self, v):
        if isinstance(v, U):
            if v.k == 'slice':
                return bool(self.elems(v))
            return self.n(v) > 0
        if isinstance(v, VDict):
            return bool(self.entries(v))
        if isinstance(v, VSet):
            return bool(v.xs)
        if isinstance(v, (list, tuple)) or isinstance(v, CONSTS):
            return bool(v)
        return True

    # ---- decisions about unknowns
    def give(self, u, v):
        """from now on the unknown u is v"""
        self.bind[u.d] = v
        self.restart()

    def restart(self):
        self.restarts += 1
        if self.restarts > 25:
            raise Skip('restarts')
        raise Restart

    def eq(self, a, b):
        ha, hb = self.H(a), self.H(b)
        if ha == hb:
            return True
        if isinstance(b, U) and not isinstance(a, U):
            a, b = b, a
            ha, hb = hb, ha
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, VSet) and isinstance(b, VSet):
            self.unify(a, b)
            return False
        if not isinstance(a, U):
            return False
        k = dg('eq', *sorted([ha, hb]))
        if k in self.dec:
            return self.dec[k]
        self.dec[k] = False
        if isinstance(b, CONSTS) or isinstance(b, G):
            if self.chance(k, self.p * .8) and not self.sibling(a, hb):
                self.dec[k] = True
                self.give(a, b)
        elif isinstance(b, U):
            if a.k == b.k == 'elem' and a.base.d == b.base.d:
                if self.repeats(a.base) and a.pos > b.pos and self.chance(k, .3):
                    self.dec[k] = True
                    self.give(a, b)
                return False
            if self.chance(k, self.p * .5) and a.k != 'param' or self.chance(k, self.p * .3):
                if not self.within(a, b) and not self.sibling(a, hb):
                    self.dec[k] = True
                    self.give(a, b)
        return False

    def unify(self, a, b):
        """two sets of unknowns may be the same set"""
        A, B = {self.H(x): x for x in a.xs}, {self.H(x): x for x in b.xs}
        if not self.chance('sets', .6):
            return
        if len(A) != len(B):
            big, n = (A, len(A) - len(B)) if len(A) > len(B) else (B, len(B) - len(A))
            for x in big.values():
                if isinstance(x, U) and x.k == 'elem' and self.n(x.base) > n and self.measured(x.base) not in self.size:
                    self.size[self.measured(x.base)] = self.n(x.base) - n
                    self.restart()
            return
        only = [A[h] for h in sorted(A.keys() - B.keys())], [B[h] for h in sorted(B.keys() - A.keys())]
        for x, y in zip(*only):
            for u, v in ((x, y), (y, x)):
                if isinstance(u, U) and not self.within(u, v) and not self.sibling(u, self.H(v)):
                    self.give(u, v)

    def sibling(self, a, hb):
        """an element of a collection must stay different from the others"""
        if a.k != 'elem':
            return False
        return any(self.H(self.elem(a.base, j)) == hb for j in range(self.n(a.base)) if j != a.pos)

    def repeats(self, c):
        """the same type may stand under two names of a product or tagged union"""
        return c.k == 'attr.fields' and isinstance(c.base, U) and 'hwtypes.Sum' not in self.pos.get('issub' + c.base.d, ())

    def within(self, a, b):
        x = b
        while isinstance(x, U):
            if x.d == a.d:
                return True
            x = x.base
        return False

    def isa(self, kind, x, c):
        if isinstance(c, (list, tuple)):
            return any(self.isa(kind, x, y) for y in c)
        name = c.n if isinstance(c, G) else None
        if kind == 'isinst' and not isinstance(x, (U, Clo, G)):
            if name in NATURAL:
                return isinstance(x, NATURAL[name])
            if not isinstance(x, CONSTS) and name is not None and name.split('.')[-1] in ('Mapping', 'Iterable', 'Sequence', 'Set', 'Callable', 'MutableMapping'):
                raise Skip('abstract class')
            return False
        if kind == 'issub' and isinstance(x, G) and name is not None:
            if tm.subclass_of(x.n, name):
                return True
            if tm.disjoint(x.n, name):
                return False
        if kind == 'issub' and not isinstance(x, (U, G)):
            return False
        hx = kind + self.H(x)
        k = dg(hx, self.H(c))
        if k in self.dec:
            return self.dec[k]
        pos, neg = self.pos.setdefault(hx, []), self.neg.setdefault(hx, [])
        r = None
        for p in pos:
            if name is not None and tm.subclass_of(p, name):
                r = True
        if r is None and pos:
            r = False
        if r is None and name is not None and any(tm.subclass_of(name, q) for q in neg):
            r = False
        if r is None:
            if self.lean is not None:
                r = self.chance(k, self.leant(0))
            elif self.classes and name is not None:
                # the classes the graphs ask about are equally likely
                c0 = (self.classes + [None])[self.rnd('class' + hx, len(self.classes) + 1)]
                r = c0 is not None and (c0 == name or bool(tm.subclass_of(c0, name)))
            else:
                r = self.chance(k, self.p)
            if r and kind == 'isinst' and isinstance(x, U) and name in ('int', 'str', 'bool'):
                self.give(x, {'int': self.rnd(k, 4), 'str': 's%d' % self.rnd(k, 3), 'bool': bool(self.rnd(k, 2))}[name])
            if r and kind == 'isinst' and isinstance(x, U) and name in SEQS and x.k != 'slice':
                es = self.elems(x)
                self.give(x, tuple(es) if name == 'tuple' else es)
            (pos if r else neg).append(name or self.H(c))
        self.dec[k] = r
        return r

    # ---- terms
    def go(self, t, env):
        self.steps += 1
        if self.steps > 400000:
            raise tm.Budget('interpretation')
        if not t.bvs:
            m, env = self.memo, None
        else:
            while env is not None and env.h not in t.bvs:
                env = env.up
            if env is None:
                raise Skip('unbound')
            m = env.memo
        r = m.get(t.id)
        if r is None:
            r = m[t.id] = (self.step(t, env),)
            if self.cov is not None:
                self.cov.add(t.id)
        return r[0]

    def apply(self, lam, env, args):
        n, h, body = lam.args
        if h not in body.bvs:
            return self.go(body, env)
        return self.go(body, Frame(h, args, env))

    def segs(self, L, env):
        out = []
        for s in L.args:
            o = s.op
            if o == 'el':
                out.append(self.go(s.args[0], env))
            elif o == 'cnd':
                out += self.lst(self.go(s.args[0], env))
            elif o == 'spl':
                x = self.go(s.args[0], env)
                if isinstance(x, VDict):
                    out += x.items
                else:
                    out += self.elems(x)
            elif o == 'flat':
                es = self.elems(self.go(s.args[0], env))
                if self.cov is not None:
                    self.cov.add((s.id, 'many' if len(es) > 1 else 'few'))
                for j, e in enumerate(es):
                    out += self.lst(self.apply(s.args[1], env, [e, j]))
            else:
                out.append(self.mk('seg' + o, *[self.H(self.go(a, env)) if isinstance(a, T) else repr(a) for a in s.args]))
            if len(out) > 200:
                raise Skip('long')
        return out

    def lst(self, v):
        if isinstance(v, (list, tuple)):
            return list(v)
        return self.elems(v)

    def step(self, t, env):
        o = t.op
        f = getattr(self, 't_' + o, None)
        if f is not None:
            return f(t, env)
        parts = []
        for a in t.args:
            if isinstance(a, T):
                parts.append(self.H(self.go(a, env)))
            else:
                parts.append(repr(a))
        if o in ('has', 'dhas', 'raises'):
            d = dg(o, *parts)
            if d not in self.dec:
                self.dec[d] = self.chance(d, self.leant(self.p))
            return self.dec[d]
        return self.mk('op' + o, *parts)

    def t_const(self, t, env):
        v = t.args[0]
        if isinstance(v, CONSTS):
            return v
        if isinstance(v, tuple):
            return v
        return self.mk('const', repr(v))

    def t_unk(self, t, env):
        raise tm.Budget('not analysed')

    t_rec = t_unk

    def t_bv(self, t, env):
        # env is the frame of this binder
        return env.args[t.args[1]]

    def t_fresh(self, t, env):
        return self.mk('fresh', str(t.args[0]))

    def t_glob(self, t, env):
        return G(t.args[0])

    def t_lam(self, t, env):
        return Clo(t, env)

    def t_fnv(self, t, env):
        return Clo(t, env)

    def leant(self, p):
        return p if self.lean is None else .85 if self.lean else .15

    def t_ite(self, t, env):
        c, x, y = t.args
        if self.leaning and (x.op == 'RAISE') != (y.op == 'RAISE') and c.op in ('has', 'isinst', 'issub', 'truth'):
            # most algebras would refuse their inputs: decide what is open so that they do not
            for a in c.args:
                if isinstance(a, T):
                    self.go(a, env)
            want = y.op == 'RAISE'
            if c.op == 'truth':
                u = self.go(c.args[0], env)
                if isinstance(u, U) and u.k != 'slice' and self.truth(u) != want and self.measured(u) not in self.size:
                    self.size[self.measured(u)] = 0 + want
                    self.restart()
            self.lean = want
            try:
                v = self.go(c, env)
            finally:
                self.lean = None
            return self.side(t, self.truth(v), env)
        return self.side(t, self.truth(self.go(t.args[0], env)), env)

    def side(self, t, c, env):
        if self.cov is not None:
            self.cov.add((t.id, c))
        return self.go(t.args[1] if c else t.args[2], env)

    def t_lst(self, t, env):
        return self.segs(t, env)

    def t_tuple(self, t, env):
        return tuple(self.go(a, env) for a in t.args)

    def t_tupof(self, t, env):
        return tuple(self.lst(self.go(t.args[0], env)))

    def t_dict(self, t, env):
        return VDict(self.lst(self.go(t.args[0], env)))

    def t_set(self, t, env):
        if len(t.args) != 1:
            return self.mk('opset', *[self.H(self.go(a, env)) if isinstance(a, T) else repr(a) for a in t.args])
        return self.mkset(self.lst(self.go(t.args[0], env)))

    def mkset(self, xs):
        m = {}
        for x in xs:
            if isinstance(x, Mark):
                if x.k != 'delitem':
                    raise Skip('entry')
                m.pop(self.H(x.a[0]), None)
                continue
            m.setdefault(self.H(x), x)
        return VSet(list(m.values()))

    def t_grp(self, t, env):
        return Mark('grp', (self.go(t.args[0], env), self.lst(self.go(t.args[1], env))))

    def t_sdef(self, t, env):
        return Mark('sdef', (self.go(t.args[0], env), self.go(t.args[1], env)))

    def t_delitem(self, t, env):
        return Mark('delitem', tuple(self.go(a, env) for a in t.args))

    def t_slice(self, t, env):
        return VSlice([self.go(a, env) for a in t.args])

    def t_idx(self, t, env):
        return self.idx(self.go(t.args[0], env), self.go(t.args[1], env))

    def idx(self, b, k):
        if isinstance(b, Mark):
            b = b.a
        if isinstance(b, (list, tuple, str)):
            if isinstance(k, VSlice):
                return self.cut(b, k)
            if isinstance(k, U):
                if not b:
                    raise Skip('empty')
                self.give(k, self.rnd('ix' + k.d, len(b)))
            if not isinstance(k, int) or not -len(b) <= k < len(b):
                raise Skip('index')
            return b[k]
        if isinstance(b, VDict):
            es = self.entries(b)
            h = self.H(k)
            for x, v in es:
                if self.H(x) == h:
                    return v
            if isinstance(k, U) and es:
                x = es[self.rnd('key' + k.d, len(es))][0]
                if not (isinstance(x, U) and self.within(k, x)) and not self.sibling(k, self.H(x)) and isinstance(x, (U, G) + CONSTS):
                    self.give(k, x)
            if not b.items:
                return self.mk('idx', self.H(b), h)
            raise Skip('key')
        if isinstance(b, U):
            if isinstance(k, VSlice):
                return self.mk('slice', b.d, self.H(k), base=b, pos=k)
            if b.k == 'slice' and isinstance(k, int) and k >= 0 and all(x is None or isinstance(x, int) and x >= 0 for x in b.pos.a) and b.pos.a[2] is None:
                i = k + (b.pos.a[0] or 0)
                if b.pos.a[1] is None or i < b.pos.a[1]:
                    return self.idx(b.base, i)
            if b.k == 'slice' and isinstance(k, int):
                es = self.elems(b)
                if -len(es) <= k < len(es):
                    return es[k]
            if isinstance(k, int) and not isinstance(k, bool):
                n = self.n(b)
                if -n <= k < n:
                    return self.elem(b, k % n)
            if b.k == 'attr.field_dict' and isinstance(k, U) and k.k == 'elem' and k.base.d == b.d:
                fs = self.attr(b.base, 'fields')
                if isinstance(fs, U) and fs.k == 'attr.fields':
                    return self.elem(fs, k.pos)
            return self.mk('idx', b.d, self.H(k), base=b)
        return self.mk('idx', self.H(b), self.H(k))

    def t_attr(self, t, env):
        return self.attr(self.go(t.args[0], env), t.args[1])

    def attr(self, b, n):
        if isinstance(b, G):
            return G(b.n + '.' + n)
        k = 'attr.' + n
        return self.mk(k, self.H(b), base=b if isinstance(b, U) else None)

    def t_isinst(self, t, env):
        return self.isa('isinst', self.go(t.args[0], env), self.go(t.args[1], env))

    def t_issub(self, t, env):
        return self.isa('issub', self.go(t.args[0], env), self.go(t.args[1], env))

    def t_truth(self, t, env):
        return self.truth(self.go(t.args[0], env))

    def t_len(self, t, env):
        return self.len(self.go(t.args[0], env))

    def len(self, v):
        if isinstance(v, (list, tuple, str)):
            return len(v)
        return len(self.elems(v))

    def t_cmp(self, t, env):
        op, a, b = t.args[0], self.go(t.args[1], env), self.go(t.args[2], env)
        if op in ('==', '!=', '<', '<=') and (keys_of(t.args[1]) or keys_of(t.args[2])):
            a, b = (self.mkset(x) if isinstance(x, list) else x for x in (a, b))
        if op == '==' or op == 'is':
            return self.eq(a, b)
        if op == '!=':
            return not self.eq(a, b)
        if op == '<':
            return self.less(a, b)
        if op == '<=':
            return not self.less(b, a)
        if op == 'in':
            if isinstance(b, str) and isinstance(a, str):
                return a in b
            if isinstance(b, (str, Clo, G)):
                return self.chance(dg('in', self.H(a), self.H(b)), self.p)
            es = self.elems(b)
            h = self.H(a)
            if any(self.H(x) == h for x in es):
                return True
            return any(self.eq(a, x) for x in es)
        raise Skip('cmp')

    # ---- numbers
    def seqs(self, xs):
        return any(isinstance(x, (list, tuple, str, VSet, VDict)) for x in xs)

    def t_lin(self, t, env):
        vs = [self.go(a, env) for a in t.args[2::2]]
        if any(not isinstance(v, (int, U)) for v in vs):
            return self.mk('lin', str(t.args[0]), *sorted(dg(str(k), self.H(v)) for k, v in zip(t.args[1::2], vs)))
        return t.args[0] + sum(k * self.num(v) for k, v in zip(t.args[1::2], vs))

    def t_ac(self, t, env):
        vs = [self.go(a, env) for a in t.args[1:]]
        r = vs[0]
        if t.args[0] in ('&', '|', '^', '*', '+') and not any(isinstance(v, (list, tuple, str)) for v in vs):
            for v in vs[1:]:
                r = self.bin(t.args[0], r, v)
            return r
        return self.mk('ac' + t.args[0], *sorted(self.H(v) for v in vs))

    def t_bin(self, t, env):
        return self.bin(t.args[0], self.go(t.args[1], env), self.go(t.args[2], env))

    def bin(self, op, a, b):
        if isinstance(a, VSet) or isinstance(b, VSet):
            x, y = self.elems(a), self.elems(b)
            hx, hy = {self.H(v) for v in x}, {self.H(v) for v in y}
            if op == '|':
                return self.mkset(x + y)
            if op == '&':
                return self.mkset([v for v in x if self.H(v) in hy])
            if op == '-':
                return self.mkset([v for v in x if self.H(v) not in hy])
            if op == '^':
                return self.mkset([v for v in x if self.H(v) not in hy] + [v for v in y if self.H(v) not in hx])
            raise Skip('set operator')
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and op == '+':
            return list(a) + list(b)
        if op == '*' and isinstance(a, (list, tuple, str)) and isinstance(b, (int, U)):
            n = self.num(b)
            if n > 40:
                raise Skip('long')
            return a * n
        if isinstance(a, (int, U)) and isinstance(b, (int, U)):
            if op in ('&', '|', '^') and isinstance(a, bool) and isinstance(b, bool):
                return {'&': a & b, '|': a | b, '^': a ^ b}[op]
            x, y = self.num(a), self.num(b)
            if op == '+':
                return x + y
            if op == '-':
                return x - y
            if op == '*':
                return self.small(x * y)
            if op == '&':
                return x & y
            if op == '|':
                return x | y
            if op == '^':
                return x ^ y
            if op in ('<<', '>>', '**'):
                if y < 0 or y > 200:
                    raise Skip('shift')
                return self.small(x << y if op == '<<' else x >> y if op == '>>' else x ** y)
            if op in ('//', '%'):
                if y == 0:
                    raise Skip('division')
                return x // y if op == '//' else x % y
        return self.mk('bin' + op, self.H(a), self.H(b))

    def small(self, x):
        if x.bit_length() > 4000:
            raise Skip('large')
        return x

    def t_un(self, t, env):
        v = self.go(t.args[1], env)
        op = t.args[0]
        if op == '~':
            return not v if isinstance(v, bool) else ~self.num(v) if isinstance(v, (int, U)) else self.mk('un~', self.H(v))
        if op == '-':
            return -self.num(v)
        return self.mk('un' + op, self.H(v))

    # ---- loops
    def t_any(self, t, env):
        for j, e in enumerate(self.elems(self.go(t.args[0], env))):
            if self.truth(self.apply(t.args[1], env, [e, j])):
                return True
        return False

    def t_fold(self, t, env):
        cur = [self.go(a, env) for a in t.args[1].args]
        for j, e in enumerate(self.elems(self.go(t.args[0], env))):
            r = self.apply(t.args[2], env, [e, j] + cur)
            if not isinstance(r, tuple) or len(r) != len(cur):
                raise Skip('fold')
            cur = list(r)
        return cur[0]

    def t_last(self, t, env):
        es = self.elems(self.go(t.args[0], env))
        if not es:
            return self.go(t.args[2], env)
        return self.apply(t.args[1], env, [es[-1], len(es) - 1])

    def t_lastof(self, t, env):
        L = self.lst(self.go(t.args[1], env))
        return L[-1] if L else self.go(t.args[0], env)

    def first(self, t, env):
        for j, e in enumerate(self.elems(self.go(t.args[0], env))):
            if self.truth(self.apply(t.args[1], env, [e, j])):
                return e, j
        raise Skip('none stops')

    def t_firstel(self, t, env):
        return self.first(t, env)[0]

    def t_firstpos(self, t, env):
        return self.first(t, env)[1]

    def t_upto(self, t, env):
        out = []
        for j, e in enumerate(self.elems(self.go(t.args[0], env))):
            if self.truth(self.apply(t.args[1], env, [e, j])):
                break
            out.append(e)
        return out

    def t_zip(self, t, env):
        return [tuple(x) for x in zip(*[self.elems(self.go(a, env)) for a in t.args])]

    def t_rangelen(self, t, env):
        return list(range(len(self.elems(self.go(t.args[0], env)))))

    def t_wloop(self, t, env):
        cur = [self.go(a, env) for a in t.args[0].args]
        for _ in range(60):
            s = t.args[1]
            n, h, body = s.args
            if body.op != 'step':
                raise Skip('step')
            fr = Frame(h, cur, env)
            if not self.truth(self.go(body.args[0], fr)):
                return cur[0]
            cur = list(self.go(body.args[1], fr))
        raise Skip('long loop')

    def xloop(self, L, env):
        """(how it ended, value, state)"""
        k = self.memo.setdefault(('xloop',), {})
        e0 = env
        while e0 is not None and e0.h not in L.bvs:
            e0 = e0.up
        key = (L.id, id(e0))
        if key in k:
            return k[key][0]
        r = self.xloop_(L, e0)
        k[key] = (r, e0)
        return r

    def xloop_(self, L, env):
        if L.op == 'loopx':
            cur = [self.go(a, env) for a in L.args[1].args]
            n, h, body = L.args[2].args
            for j, e in enumerate(self.elems(self.go(L.args[0], env))):
                fr = Frame(h, [e, j] + cur, env)
                stop, nval, bval, rc, rv = body.args
                if self.truth(self.go(stop, fr)):
                    if self.truth(self.go(rc, fr)):
                        return 'ret', self.go(rv, fr), cur
                    return 'brk', None, list(self.go(bval, fr))
                cur = list(self.go(nval, fr))
            return 'end', None, cur
        cur = [self.go(a, env) for a in L.args[0].args]
        n, h, body = L.args[1].args
        for _ in range(40):
            fr = Frame(h, cur, env)
            testv, nxt, bcd, bval, rc, rv, rzc, rz = body.args
            if not self.truth(self.go(testv, fr)):
                return 'end', None, cur
            if self.truth(self.go(rc, fr)):
                return 'ret', self.go(rv, fr), cur
            if self.truth(self.go(rzc, fr)):
                return 'raise', self.go(rz, fr), cur
            if self.truth(self.go(bcd, fr)):
                return 'brk', None, list(self.go(bval, fr))
            cur = list(self.go(nxt, fr))
        raise Skip('long loop')

    def t_isret(self, t, env):
        x = t.args[0]
        if x.op not in ('lstop', 'lret', 'lbreak', 'lraise') or len(x.args) != 1:
            raise Skip('loop exit')
        how = self.xloop(x.args[0], env)[0]
        return {'lstop': how in ('ret', 'brk'), 'lret': how == 'ret', 'lbreak': how == 'brk', 'lraise': how == 'raise'}[x.op]

    def t_lretv(self, t, env):
        how, v, st = self.xloop(t.args[0], env)
        if how != 'ret':
            raise Skip('loop exit')
        return v

    def t_lexc(self, t, env):
        how, v, st = self.xloop(t.args[0], env)
        if how != 'raise':
            raise Skip('loop exit')
        return v

    def t_lval(self, t, env):
        how, v, st = self.xloop(t.args[0], env)
        if how != 'end':
            raise Skip('loop exit')
        return st[t.args[1]]

    def t_lbrk(self, t, env):
        how, v, st = self.xloop(t.args[0], env)
        if how != 'brk':
            raise Skip('loop exit')
        return st[t.args[1]]

    def t_lrets(self, t, env):
        raise Skip('loop exit')

    def t_posin(self, t, env):
        L, n = t.args[0], t.args[1].args[0]
        rest = [self.go(a, env) for a in t.args[2:]]
        if L.op != 'lst':
            raise Skip('position')
        at = len(self.segs(T_lst(L.args[:n]), env))
        s = L.args[n] if n < len(L.args) else None
        if s is None:
            raise Skip('position')
        if s.op == 'flat' and rest:
            if not isinstance(rest[0], int):
                raise Skip('position')
            for j, e in enumerate(self.elems(self.go(s.args[0], env))[:rest[0]]):
                at += len(self.lst(self.apply(s.args[1], env, [e, j])))
            rest = rest[1:]
        for r in rest:
            if not isinstance(r, int):
                raise Skip('position')
            at += r
        return at

    def t_upd(self, t, env):
        xs, k, v = list(self.lst(self.go(t.args[0], env))), self.go(t.args[1], env), self.go(t.args[2], env)
        if isinstance(k, VSlice):
            if not all(x is None or isinstance(x, int) for x in k.a):
                return self.mk('upd', self.H(xs), self.H(k), self.H(v))
            try:
                xs[slice(*k.a)] = self.elems(v)
            except ValueError:
                raise Skip('slice')
            return xs
        if isinstance(k, U) and xs:
            self.give(k, self.rnd('ix' + k.d, len(xs)))
        if not isinstance(k, int) or not -len(xs) <= k < len(xs):
            raise Skip('index')
        xs[k] = v
        return xs

    def t_popped(self, t, env):
        v, k = self.go(t.args[0], env), self.go(t.args[1], env)
        if isinstance(v, VDict):
            es = self.entries(v)
            if not es:
                raise Skip('pop')
            return VDict(es[:-1])
        xs = list(self.lst(v))
        if not isinstance(k, int) or not -len(xs) <= k < len(xs):
            raise Skip('pop')
        del xs[k]
        return xs

    def t_removed(self, t, env):
        xs, k = list(self.lst(self.go(t.args[0], env))), self.go(t.args[1], env)
        for j, x in enumerate(xs):
            if self.H(x) == self.H(k):
                del xs[j]
                return xs
        raise Skip('remove')

    def t_scat(self, t, env):
        vs = [self.go(a, env) for a in t.args]
        if all(isinstance(v, str) for v in vs):
            return ''.join(vs)
        if any(isinstance(v, (list, tuple)) for v in vs):
            out = []
            for v in vs:
                out += self.elems(v)
            return out
        parts = []
        for v in vs:
            if isinstance(v, U) and v.k == 'scat':
                parts += v.pos
            elif isinstance(v, str) and parts and isinstance(parts[-1], str):
                parts[-1] += v
            elif v != '' or not isinstance(v, str):
                parts.append(v)
        return self.mk('scat', *[self.H(v) for v in parts], pos=parts)

    def t_red(self, t, env):
        op = t.args[0]
        vs = self.lst(self.go(t.args[2], env))
        if t.args[1] is not tm.NONE:
            vs = [self.go(t.args[1], env)] + vs
        return self.reduce(op, vs)

    def reduce(self, op, vs):
        if not vs:
            raise Skip('empty')
        r = vs[0]
        for v in vs[1:]:
            if op in ('max', 'min'):
                c = self.ord(r) < self.ord(v)
                r = v if c == (op == 'max') and self.ord(r) != self.ord(v) else r
            elif op == 'and':
                r = v if self.truth(r) else r
            elif op == 'or':
                r = r if self.truth(r) else v
            elif op == '+' and self.seqs([r, v]):
                r = self.cat(r, v)
            else:
                r = self.bin(op, r, v)
        return r

    def cat(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            return self.elems(a) + self.elems(b)
        return self.mk('scat', self.H(a), self.H(b), pos=[a, b])

    def t_reduce(self, t, env):
        f = self.go(t.args[0], env)
        vs = self.lst(self.go(t.args[2], env))
        if t.args[1] is not tm.NONE:
            vs = [self.go(t.args[1], env)] + vs
        if not vs:
            raise Skip('empty')
        r = vs[0]
        for v in vs[1:]:
            r = self.callv(f, [r, v], [])
        return r

    # ---- calls
    def t_kw(self, t, env):
        return self.mk('kw', t.args[0], self.H(self.go(t.args[1], env)))

    def t_RET(self, t, env):
        return self.mk('RET', *[self.H(self.go(a, env)) for a in t.args], pos=self.go(t.args[0], env))

    def t_RAISE(self, t, env):
        return self.mk('RAISE', *[self.H(self.go(a, env)) for a in t.args])

    def t_call(self, t, env):
        f = t.args[0]
        pos, kws = [], []
        for a in t.args[1:]:
            if a.op == 'kw':
                kws.append((a.args[0], self.go(a.args[1], env)))
            elif a.op == 'star':
                pos += self.elems(self.go(a.args[0], env))
            elif a.op == 'dstar':
                v = self.go(a.args[0], env)
                if isinstance(v, VDict):
                    kws += [('%s' % self.H(k) if not isinstance(k, str) else k, x) for k, x in self.entries(v)]
                else:
                    kws.append(('**', v))
            else:
                pos.append(self.go(a, env))
        if f.op == 'attr':
            b = self.go(f.args[0], env)
            r = self.method(b, f.args[1], pos, kws)
            if r is not None:
                return r[0]
            fv = self.attr(b, f.args[1])

        else:
            fv = self.go(f, env)
        return self.callv(fv, pos, kws, f.args[1] if f.op == 'attr' else None)

    def callv(self, f, pos, kws, f_name=None):
        if isinstance(f, G):
            if f.n in BUILTINS:
                r = self.builtin(f.n, pos, kws)
                if r is not None:
                    return r[0]
        if isinstance(f, Clo) and not kws:
            t = f.t
            lam = t if t.op == 'lam' else t.args[1]
            if lam.args[0] == len(pos) and (t.op == 'lam' or len(t.args) == 2 and set(t.args[0]) <= set('p|')):
                r = self.apply(lam, f.env, pos)
                if t.op == 'lam':
                    return r
                if isinstance(r, U) and r.k == 'RET':
                    return r.pos
                raise Skip('raises')
        if isinstance(f, G) and f.n.endswith('.from_fields') or f_name == 'from_fields':
            # the order of the fields given is the order of the fields
            pos = [[[k, v] for k, v in self.entries(x)] if isinstance(x, VDict) else x for x in pos]
        return self.mk('call', self.H(f), *[self.H(x) for x in pos], *sorted(dg('kw', k, self.H(v)) for k, v in kws))

    def method(self, b, m, pos, kws):
        if kws:
            return None
        if m == 'bit_length' and isinstance(b, (int, U)) and not pos:
            return (self.num(b).bit_length(),)
        if isinstance(b, (VDict, U)):
            if m == 'keys' and not pos:
                return (self.elems(b),)
            if m == 'values' and not pos:
                return ([v for _, v in self.entries(b)],)
            if m == 'items' and not pos:
                return ([(k, v) for k, v in self.entries(b)],)
            if m == 'popitem' and not pos:
                es = self.entries(b)
                if not es:
                    raise Skip('empty')
                return (es[-1],)
        if isinstance(b, VDict):
            if m == 'get' and len(pos) in (1, 2):
                h = self.H(pos[0])
                for k, v in self.entries(b):
                    if self.H(k) == h:
                        return (v,)
                if isinstance(pos[0], U):
                    for k, v in self.entries(b):
                        if self.eq(pos[0], k):
                            return (v,)
                return (pos[1] if len(pos) > 1 else None,)
            if m == 'copy':
                return (b,)
        if isinstance(b, (list, tuple)):
            if m == 'index' and len(pos) == 1:
                for j, x in enumerate(b):
                    if self.H(x) == self.H(pos[0]):
                        return (j,)
                for j, x in enumerate(b):
                    if self.eq(x, pos[0]):
                        return (j,)
                raise Skip('index')
            if m == 'count' and len(pos) == 1:
                return (sum(1 for x in b if self.eq(x, pos[0])),)
            if m == 'copy':
                return (list(b),)
        if isinstance(b, VSet) and m in ('union', 'intersection', 'difference') and len(pos) == 1:
            return (self.bin({'union': '|', 'intersection': '&', 'difference': '-'}[m], b, pos[0]),)
        if isinstance(b, str) and m == 'join' and len(pos) == 1:
            xs = self.elems(pos[0])
            if all(isinstance(x, str) for x in xs):
                return (b.join(xs),)
            return (self.mk('join', self.H(b), *[self.H(x) for x in xs]),)
        return None

    def builtin(self, n, pos, kws):
        if n == 'sorted' and len(pos) == 1:
            d = dict(kws)
            if set(d) - {'key', 'reverse'}:
                return None
            xs = self.elems(pos[0])
            k = d.get('key')
            key = (lambda x: self.ord(x)) if k is None else (lambda x: self.ord(self.callv(k, [x], [])))
            xs = sorted(xs, key=key)
            if 'reverse' in d and self.truth(d['reverse']):
                xs = sorted(self.elems(pos[0]), key=key, reverse=True)
            return (xs,)
        if n in ('min', 'max') and kws and len(pos) == 1 and dict(kws).keys() == {'key'}:
            k = dict(kws)['key']
            xs = self.elems(pos[0])
            if not xs:
                raise Skip('empty')
            return ((min if n == 'min' else max)(xs, key=lambda x: self.ord(self.callv(k, [x], []))),)
        if n in ('collections.OrderedDict', 'dict'):
            items = []
            if len(pos) == 1:
                items = self.entries(pos[0]) if isinstance(pos[0], VDict) else None
                if isinstance(pos[0], (list, tuple)):
                    items = list(pos[0])
                if items is None:
                    return None
            elif pos:
                return None
            return (VDict(items + [(k, v) for k, v in kws]),)
        if n == 'enumerate' and len(pos) in (1, 2):
            st = pos[1] if len(pos) == 2 else dict(kws).get('start', 0)
            if not isinstance(st, int):
                return None
            return ([(j + st, x) for j, x in enumerate(self.elems(pos[0]))],)
        if n == 'itertools.product':
            if kws:
                return None
            out = [()]
            for p in pos:
                es = self.elems(p)
                out = [a + (e,) for a in out for e in es]
                if len(out) > 100:
                    raise Skip('long')
            return (out,)
        if kws:
            return None
        if n == 'str' and len(pos) == 1 and not kws and self.light:
            v = pos[0]
            if v is None or isinstance(v, (str, int, bool)):
                return (str(v),)
            if isinstance(v, U) and v.k == 'scat' and any(isinstance(x, str) or isinstance(x, U) and x.k == 'call.str' for x in v.pos):
                return (v,)
        if n == 'len' and len(pos) == 1:
            return (self.len(pos[0]),)
        if n in ('list', 'tuple', 'set', 'frozenset', 'iter'):
            xs = self.elems(pos[0]) if pos else []
            return (xs if n in ('list', 'iter') else tuple(xs) if n == 'tuple' else self.mkset(xs),)
        if n == 'reversed' and len(pos) == 1:
            return (self.elems(pos[0])[::-1],)
        if n == 'zip':
            return ([tuple(x) for x in zip(*[self.elems(p) for p in pos])],)
        if n == 'range':
            ps = [self.num(p) for p in pos]
            if len(ps) == 3 and ps[2] == 0 or not ps:
                raise Skip('range')
            r = range(*ps)
            if len(r) > 60:
                raise Skip('long')
            return (list(r),)
        if n == 'sum' and pos:
            return (self.reduce('+', [pos[1] if len(pos) > 1 else 0] + self.elems(pos[0])),)
        if n == 'any' and len(pos) == 1:
            return (any(self.truth(x) for x in self.elems(pos[0])),)
        if n == 'all' and len(pos) == 1:
            return (all(self.truth(x) for x in self.elems(pos[0])),)
        if n in ('min', 'max') and pos:
            return (self.reduce(n, self.elems(pos[0]) if len(pos) == 1 else pos),)
        if n == 'bool' and len(pos) == 1:
            return (self.truth(pos[0]),)
        if n == 'abs' and len(pos) == 1:
            return (abs(self.num(pos[0])),)
        if n == 'map' and len(pos) >= 2:
            return ([self.callv(pos[0], list(x), []) for x in zip(*[self.elems(p) for p in pos[1:]])],)
        if n == 'filter' and len(pos) == 2:
            return ([x for x in self.elems(pos[1]) if self.truth(x if pos[0] is None else self.callv(pos[0], [x], []))],)
        if n == 'itertools.chain':
            return ([x for p in pos for x in self.elems(p)],)
        if n == 'itertools.chain.from_iterable' and len(pos) == 1:
            return ([x for p in self.elems(pos[0]) for x in self.elems(p)],)
        if n == 'functools.reduce' and len(pos) in (2, 3):
            vs = pos[2:] + self.elems(pos[1])
            if not vs:
                raise Skip('empty')
            r = vs[0]
            for v in vs[1:]:
                r = self.callv(pos[0], [r, v], [])
            return (r,)
        if n.startswith('operator.'):
            o = n[9:]
            B = {'or_': '|', 'and_': '&', 'xor': '^', 'add': '+', 'sub': '-', 'mul': '*', 'lshift': '<<', 'rshift': '>>'}
            if o in B and len(pos) == 2:
                return (self.reduce(B[o], pos),)
            if o == 'eq' and len(pos) == 2:
                return (self.eq(*pos),)
            if o == 'ne' and len(pos) == 2:
                return (not self.eq(*pos),)
            if o == 'getitem' and len(pos) == 2:
                return (self.idx(*pos),)
        return None


def T_lst(segs):
    return tm.raw('lst', *segs)


# ---------------------------------------------------------------- comparing
def news(s, a, known_name, known_glob):
    """unknown functions only the code has: they may mean something the others mean too"""
    out = heads(a) - heads(s)
    return {h for h in out if not (h[0] in ('attr', 'kw', 'has') and known_name(h[1]) or h[0] == 'glob' and known_glob(h[1]))}


def heads(t):
    """the unknown functions a graph is made of"""
    out = set()
    called = set()
    subs = list(tm.subterms(t))
    for x in subs:
        if x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] in METHODS | {'join'}:
            called.add(x.args[0].id)
    for x in subs:
        o = x.op
        if o == 'attr':
            if x.id not in called:
                out.add(('attr', x.args[1]))
        elif o == 'glob':
            if x.args[0] not in BUILTINS:
                out.add(('glob', x.args[0]))
        elif o == 'truth':
            out.add(('truth',))
        elif o == 'cmp' and x.args[0] in ('==', 'is'):
            b = x.args[2]
            if x.args[1].op == 'len' or x.args[1].op == 'call' and x.args[1].args[0] is tm.glob('len'):
                continue
            if b.op == 'const' and not b.args[0] or b.op in ('lst', 'tuple', 'dict', 'set') and b.op != 'ite':
                out.add(('cmp', x.args[0], b.op, repr(b.args[0]) if b.op == 'const' else ''))
        elif o in ('has', 'kw', 'mcall', 'smeth', 'did'):
            out.add((o,) + tuple(y for y in x.args if isinstance(y, str)))
        elif o not in MEANT:
            out.add((o,))
    return out


def classes(*ts):
    return sorted({x.args[1].args[0] for t in ts for x in tm.subterms(t) if x.op in ('isinst', 'issub') and x.args[1].op == 'glob'})


def lengths(*ts):
    """the longest length a decision asks for, when it is longer than the collections usually tried"""
    cs = [0]
    for t in ts:
        for x in subterms(t).values():
            if x.op == 'cmp' and x.args[0] in ('<', '=='):
                ys = [z for y in x.args[1:] for z in ((y,) + tuple(w for w in y.args if isinstance(w, T)) if y.op == 'lin' else (y,))]
                if any(y.op == 'call' and y.args[0] is tm.glob('len') for y in ys):
                    cs += [abs(y.args[0]) for y in ys if y.op == 'const' and type(y.args[0]) is int and abs(y.args[0]) <= 8]
    return max(cs) if max(cs) > 3 else 0


WANT = 2


DEEP = 192      # algebras in which neither graph raises
LONG = 30000


def subterms(t):
    out, todo = {}, [t]
    while todo:
        t = todo.pop()
        if t.id in out:
            continue
        out[t.id] = t
        for x in t.args:
            if isinstance(x, T):
                todo.append(x)
            elif isinstance(x, tuple):
                todo += [y for y in x if isinstance(y, T)]
    return out


UNCOUNTED = {'fnv', 'lam', 'lclass', 'glob', 'const', 'bv', 'fresh', 'kw', 'slice', 'el', 'spl', 'cnd', 'flat', 'grp', 'sdef', 'upd', 'star', 'dstar', 'delitem', 'attr'}


def uncovered(s, a, cov, most=2):
    """what only one of the graphs has that no algebra evaluated (twice), and the outcomes its decisions never had"""
    x, y = subterms(s), subterms(a)
    miss, n = [], 0
    for k in x.keys() ^ y.keys():
        t = x.get(k) or y[k]
        if (k, 'few') in cov and cov.get((k, 'many'), 0) < 2 * most:
            miss.append(t)
        if t.op in UNCOUNTED:
            continue
        n += 1
        if cov.get(k, 0) < most:
            miss.append(t)
        elif t.op == 'ite':
            for c in (True, False):
                n += 1
                if cov.get((t.id, c), 0) < 4 * most:
                    miss.append(t.args[0])
    return miss, n


def differ(s, a, models=192, want=WANT, deadline=None, cov=None):
    """(algebras in which the graphs differ, algebras in which both have a meaning)"""
    bad = good = deep = 0
    cs = classes(s, a)
    narrow = len({sum(x.op == 'fnv' and x.args[0] == '*|**' for x in tm.subterms(t)) for t in (s, a)}) > 1
    long = None
    big, small = lengths(s, a), s.size + a.size < 200000
    seed = -1
    while True:
        seed += 1
        if seed >= (models if deep >= DEEP // 8 else LONG) or deep >= (DEEP if cov is None else models):
            break
        if seed >= models:
            # nearly all refuse: a short search for more that do not
            if long is None:
                long = time.process_time() + 8
            if time.process_time() > long:
                break
        if deadline is not None and time.process_time() > deadline:
            break
        m = Model(seed, (), cs)
        m.narrow = narrow
        m.big = big
        m.light = small
        m.odd = small and m.tiny and seed % 4 == 3
        while True:
            try:
                m.clear()
                m.steps = 0
                if cov is not None:
                    m.cov = set()
                hs = m.H(m.go(s, None))
                ha = m.H(m.go(a, None))
                break
            except Restart:
                continue
            except (Skip, RecursionError):
                hs = None
                break
        if hs is None:
            continue
        good += 1
        deep += not m.refused
        for k in m.cov or ():
            cov[k] = cov.get(k, 0) + 1
        if hs != ha:
            bad += 1
            if bad >= want:
                break
    return bad, good


def reasons(s, a, models=48):
    """why algebras give no meaning (for development)"""
    for seed in range(models):
        m = Model(seed, ())
        while True:
            try:
                m.clear()
                m.H(m.go(s, None))
                m.H(m.go(a, None))
                yield 'ok'
                break
            except Restart:
                continue
            except (Skip, RecursionError) as e:
                yield e
                break
