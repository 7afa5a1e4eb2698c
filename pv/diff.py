"""Local differences between a specification graph and the graph of the code.

`compare(spec, actual)` returns a list of Diff.  A difference is DEFINITE when
the two normal forms agree everywhere except at a place where they provably
denote different values for some input (another constant, another operand of
the same operator, a missing element, a dropped condition, another exception
type, ...).  Anything that might be a mere difference of formulation is UNSURE.
"""
from . import terms as tm
from .terms import T, raw, const, fresh, apply_lam

MAXDIFF = 12


class Diff:
    __slots__ = ('sure', 'msg', 's', 'a', 'path', 'where')

    def __init__(self, sure, msg, s, a, path):
        self.sure, self.msg, self.s, self.a, self.path = sure, msg, s, a, path

    def __repr__(self):
        d = lambda t: tm.show(t, 7)[:260] if isinstance(t, T) else repr(t)
        return f"{'DEFINITE' if self.sure else 'unsure'}: {self.msg}: expected {d(self.s)} ; code has {d(self.a)}"


class Cmp:
    def __init__(self, vocab=None, known_glob=None, syms=None):
        self.vocab = vocab
        self.known_glob = known_glob or (lambda n: True)
        self.memo = {}
        self.steps = 0
        self.trusted_conds = True

    # ---- entry
    def compare(self, s, a):
        out = []
        self.go(s, a, (), out, [])
        return out

    def add(self, out, sure, msg, s, a, path):
        out.append(Diff(sure, msg, s, a, path))

    def name_ok(self, n):
        return not isinstance(n, str) or self.vocab is None or n in self.vocab

    def go(self, s, a, path, out, facts):
        """facts: list of (atom, bool) under which s and a are compared"""
        if s is a:
            return
        if len(out) > MAXDIFF:
            return
        self.steps += 1
        if self.steps > 40000:
            self.add(out, False, 'budget', s, a, path)
            return
        if a.op == 'unk' or s.op == 'unk':
            self.add(out, False, 'not analysed', s, a, path)
            return
        path = path + (a,)
        if s.op == 'ite' or a.op == 'ite':
            return self.go_ite(s, a, path, out, facts)
        if s.op == 'const' and a.op == 'const':
            x, y = s.args[0], a.args[0]
            if isinstance(x, str) and isinstance(y, str):
                return self.add(out, self.name_ok(y) or True, 'different string', s, a, path)
            return self.add(out, True, 'different constant', s, a, path)
        leaf = ('sym', 'bv', 'fresh', 'glob', 'const')
        if s.op in leaf and a.op in leaf:
            sure = True
            if a.op == 'glob':
                sure = self.known_glob(a.args[0])
            if s.op == 'glob':
                sure = sure and self.known_glob(s.args[0])
            return self.add(out, sure, 'different value', s, a, path)
        if s.op == a.op:
            return self.same_op(s, a, path, out, facts)
        # wrappers
        w = self.wrapped(s, a)
        if w is not None:
            return self.add(out, w, 'dropped operation', s, a, path)
        w = self.wrapped(a, s)
        if w is not None:
            return self.add(out, w, 'added operation', s, a, path)
        if {s.op, a.op} == {'RET', 'RAISE'}:
            return self.add(out, self.plausible(facts), 'returns' if a.op == 'RET' else 'raises', s, a, path)
        if s.op == 'const' and self.simple(a) or a.op == 'const' and self.simple(s):
            return self.add(out, True, 'different value', s, a, path)
        if s.op in ('bin', 'ac', 'lin', 'un', 'shift') and a.op in ('bin', 'ac', 'lin', 'un'):
            so, ao = self.operands(s), self.operands(a)
            if so and so == ao:
                return self.add(out, True, 'different operator', s, a, path)
        if s.op in ('lin', 'attr', 'idx', 'fresh', 'bv', 'sym', 'bin', 'ac') and a.op in ('lin', 'attr', 'idx', 'fresh', 'bv', 'sym', 'bin', 'ac'):
            if self.arith_close(s, a):
                return self.add(out, True, 'different arithmetic', s, a, path)
        if s.op in leaf and a.op in ('attr', 'idx') or a.op in leaf and s.op in ('attr', 'idx'):
            return self.add(out, self.vocab_ok(s) and self.vocab_ok(a) and not self.fnlike(s, a), 'different value', s, a, path)
        self.add(out, False, f'different form ({s.op} / {a.op})', s, a, path)

    def fnlike(self, s, a):
        return False

    def vocab_ok(self, t):
        for x in tm.subterms(t):
            if x.op == 'attr' and not self.name_ok(x.args[1]):
                return False
            if x.op == 'glob' and not self.known_glob(x.args[0]):
                return False
            if x.op == 'unk':
                return False
        return True

    def simple(self, t):
        """a term made of accesses only (no calls that could hide a constant)"""
        if t.op in ('attr', 'idx', 'bv', 'fresh', 'sym'):
            return all(self.simple(x) or x.op == 'const' for x in t.args if isinstance(x, T))
        if t.op in ('lin', 'bin', 'ac'):
            return all(self.simple(x) or x.op == 'const' for x in t.args if isinstance(x, T))
        if t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] in ('len', 'max', 'min', 'type', 'int'):
            return True
        return t.op in ('len', 'tuple')

    IDWRAP = {'list', 'tuple', 'int', 'bool', 'str', 'dict', 'set', 'iter', 'frozenset', 'repr', 'types.MappingProxyType'}

    def wrapped(self, s, a):
        """a is an operand of s -> is dropping the wrapper certainly a change?"""
        if a.op in ('const', 'glob') or s.op in ('lam', 'lst', 'el', 'tuple', 'dict', 'RET', 'fnv', 'flat', 'kw', 'cnd', 'spl', 'effs'):
            return None
        if not any(x is a for x in s.args):
            return None
        if s.op == 'call':
            if len(s.args) != 2 and s.args[0] is not a:
                return True if s.args[0].op == 'glob' else None
            if s.args[0] is a:
                return True
            f = s.args[0]
            if f.op == 'glob' and (f.args[0] in self.IDWRAP or not self.known_glob(f.args[0])):
                return False
            return True
        if s.op in ('lin', 'bin', 'ac', 'un', 'idx'):
            return True
        if s.op == 'attr':
            return self.name_ok(s.args[1])
        if s.op in ('super',):
            return None
        return False

    def operands(self, t):
        if t.op == 'lin':
            r = [t.args[i + 1].id for i in range(1, len(t.args), 2)]
            if t.args[0]:
                r.append(const(t.args[0]).id)
            return sorted(r)
        return sorted(x.id for x in t.args if isinstance(x, T))

    def arith_close(self, s, a):
        """same atoms up to one: obviously different linear forms"""
        c1, d1 = tm.lin_parts(s)
        c2, d2 = tm.lin_parts(a)
        if tm.seqlike(s) or tm.seqlike(a):
            return False
        k1, k2 = set(d1), set(d2)
        if not (k1 <= k2 or k2 <= k1):
            return False
        if len(k1 ^ k2) > 1 or not (k1 & k2):
            return False
        return True

    # ---- same constructor
    def same_op(self, s, a, path, out, facts):
        o = s.op
        if o == 'lam':
            if s.args[0] != a.args[0]:
                return self.add(out, False, 'binder arity', s, a, path)
            fs = [fresh() for _ in range(s.args[0])]
            return self.go(apply_lam(s, fs), apply_lam(a, fs), path, out, [])
        if o == 'attr':
            if s.args[1] != a.args[1]:
                if s.args[0] is a.args[0]:
                    return self.add(out, self.name_ok(s.args[1]) and self.name_ok(a.args[1]),
                                    'different attribute', s, a, path)
                # different base and name: maybe a different path to the same thing
                return self.add(out, self.vocab_ok(s) and self.vocab_ok(a) and self.shallow(s) and self.shallow(a),
                                'different attribute', s, a, path)
            return self.go(s.args[0], a.args[0], path, out, facts)
        if o == 'call':
            return self.go_call(s, a, path, out, facts)
        if o in ('lst',):
            return self.go_seq(list(s.args), list(a.args), s, a, path, out, facts)
        if o == 'tuple':
            if len(s.args) != len(a.args):
                return self.go_seq(list(s.args), list(a.args), s, a, path, out, facts)
            for x, y in zip(s.args, a.args):
                self.go(x, y, path, out, facts)
            return
        if o == 'dict' and s.args[0].op == 'lst' and a.args[0].op == 'lst':
            return self.go_dict(s, a, path, out, facts)
        if o == 'lin':
            return self.go_lin(s, a, path, out, facts)
        if o == 'ac':
            if s.args[0] != a.args[0]:
                if s.args[1:] == a.args[1:]:
                    return self.add(out, True, 'different operator', s, a, path)
                return self.add(out, False, 'different operator', s, a, path)
            return self.go_bag(list(s.args[1:]), list(a.args[1:]), s, a, path, out, facts, 'operand')
        if o == 'set' and len(s.args) == 1 and s.args[0].op == 'lst' and a.args[0].op == 'lst':
            return self.go_bag(list(s.args[0].args), list(a.args[0].args), s, a, path, out, facts, 'element')
        if o == 'effs':
            return self.go_effs(s, a, path, out, facts)
        if o in ('lclass', 'obj', 'ns'):
            return self.go_kwlike(s, a, path, out, facts)
        if o == 'scat':
            return self.go_seq(list(s.args), list(a.args), s, a, path, out, facts)
        if o == 'RAISE':
            x, y = s.args[0], a.args[0]
            if x.op == 'glob' and y.op == 'glob':
                return self.add(out, self.known_glob(y.args[0]), 'different exception', s, a, path)
            return self.add(out, False, 'different exception', s, a, path)
        if o == 'RET' and len(s.args) != len(a.args):
            self.go(s.args[0], a.args[0], path, out, facts)
            if len(s.args) > len(a.args):
                return self.add(out, self.vocab_ok(s.args[1]), 'missing effect', s.args[1], a, path)
            return self.add(out, self.eff_known(a.args[1]), 'extra effect', s, a.args[1], path)
        if o == 'super' or o == 'unk':
            return self.add(out, False, 'different ' + o, s, a, path)
        if o == 'fnv' and s.args[0] != a.args[0]:
            # parameter list shape
            if s.args[0].count('p') == a.args[0].count('p') and len(s.args[0]) == len(a.args[0]):
                return self.add(out, True, 'different signature', s, a, path)
            return self.add(out, False, 'different signature', s, a, path)
        if len(s.args) != len(a.args):
            if o in ('mcall',):
                return self.add(out, s.args[1] == a.args[1], 'different arguments', s, a, path)
            if o in ('flat', 'any', 'red'):
                return self.add(out, False, 'different shape', s, a, path)
            return self.add(out, False, 'different arity of ' + o, s, a, path)
        # operator names and other non-term arguments
        for x, y in zip(s.args, a.args):
            if not isinstance(x, T) or not isinstance(y, T):
                if x is y or x == y and type(x) is type(y):
                    continue
                if o in ('cmp', 'bin', 'un', 'red'):
                    rest = [p for p in s.args if isinstance(p, T)] == [p for p in a.args if isinstance(p, T)]
                    return self.add(out, rest and o != 'red', 'different operator', s, a, path)
                if o == 'kw' or o == 'set' or o == 'has':
                    ok = self.name_ok(x) and self.name_ok(y)
                    return self.add(out, ok, f'different name {x!r} / {y!r}', s, a, path)
                if o == 'mcall' or o == 'did' or o == 'smeth':
                    return self.add(out, self.name_ok(x) and self.name_ok(y), f'different method {x!r} / {y!r}', s, a, path)
                return self.add(out, False, 'different ' + o, s, a, path)
        if o in ('cmp', 'bin') and len(s.args) == 3 and s.args[1] is a.args[2] and s.args[2] is a.args[1]:
            return self.add(out, True, 'operands swapped', s, a, path)
        if o == 'idx' and s.args[0] is not a.args[0] and s.args[1] is not a.args[1]:
            # both base and index differ: could be a different access path
            if not (s.args[0].op == a.args[0].op):
                return self.add(out, False, 'different access', s, a, path)
        if o in ('recfn', 'reccls', 'self_ref'):
            return self.add(out, False, 'recursion', s, a, path)
        for x, y in zip(s.args, a.args):
            if isinstance(x, T):
                self.go(x, y, path, out, facts)

    def shallow(self, t):
        while t.op in ('attr', 'idx'):
            t = t.args[0]
        return t.op in ('bv', 'fresh', 'sym', 'glob')

    def go_call(self, s, a, path, out, facts):
        f, g = s.args[0], a.args[0]
        sa, aa = list(s.args[1:]), list(a.args[1:])
        if f is not g:
            if f.op == 'attr' and g.op == 'attr' and f.args[1] != g.args[1]:
                same_rest = f.args[0] is g.args[0] and sa == aa
                if sa == aa or f.args[0] is g.args[0] or len(sa) == len(aa):
                    sure = same_rest and self.name_ok(f.args[1]) and self.name_ok(g.args[1])
                    return self.add(out, sure, 'different method', s, a, path)
                return self.add(out, False, 'different call', s, a, path)
            if f.op == 'glob' and g.op == 'glob':
                sure = sa == aa and self.known_glob(g.args[0]) and self.known_glob(f.args[0])
                return self.add(out, sure, 'different function', s, a, path)
            if f.op != g.op:
                return self.add(out, False, 'different callee', s, a, path)
            if sa == aa or f.op == 'attr':
                self.go(f, g, path, out, facts)
            else:
                return self.add(out, False, 'different callee', s, a, path)
        sk = {x.args[0]: x for x in sa if x.op == 'kw'}
        ak = {x.args[0]: x for x in aa if x.op == 'kw'}
        sp = [x for x in sa if x.op != 'kw']
        ap = [x for x in aa if x.op != 'kw']
        for k in sk.keys() | ak.keys():
            if k in sk and k in ak:
                self.go(sk[k].args[1], ak[k].args[1], path, out, facts)
            elif k in sk:
                if len(ap) > len(sp):
                    self.add(out, False, f'argument {k} passed differently', s, a, path)
                else:
                    self.add(out, True, f'missing argument {k}', s, a, path)
            else:
                if len(ap) < len(sp):
                    self.add(out, False, f'argument {k} passed differently', s, a, path)
                else:
                    self.add(out, True, f'extra argument {k}', s, a, path)
        if len(sp) == len(ap):
            if len(sp) == 2 and sp[0] is ap[1] and sp[1] is ap[0]:
                return self.add(out, f.op != 'glob' or f.args[0] not in ('max', 'min'), 'arguments swapped', s, a, path)
            for x, y in zip(sp, ap):
                self.go(x, y, path, out, facts)
        elif not any(x.op in ('star', 'dstar') for x in sp + ap):
            if set(sk) == set(ak):
                self.go_seq(sp, ap, s, a, path, out, facts)
            else:
                self.add(out, False, 'different arguments', s, a, path)
        else:
            self.add(out, False, 'different arguments', s, a, path)

    # ---- sequences
    def go_seq(self, S, A, s, a, path, out, facts):
        # strip common prefix / suffix
        i = 0
        while i < len(S) and i < len(A) and S[i] is A[i]:
            i += 1
        j = 0
        while j < len(S) - i and j < len(A) - i and S[len(S) - 1 - j] is A[len(A) - 1 - j]:
            j += 1
        X, Y = S[i:len(S) - j], A[i:len(A) - j]
        if len(X) == len(Y):
            if len(X) > 1 and sorted(x.id for x in X) == sorted(y.id for y in Y):
                return self.add(out, s.op not in ('dict', 'set') and not self.pairs(X), 'different order', s, a, path)
            if len(X) > 1:
                # same items at other positions -> order; else pairwise
                ids = {y.id for y in Y}
                if any(x.id in ids for x in X):
                    return self.add(out, False, 'different order', s, a, path)
            for x, y in zip(X, Y):
                self.go(x, y, path, out, facts)
            return
        if not Y:
            return self.add(out, all(self.plain_seg(x) for x in X), 'missing element', X[0], a, path)
        if not X:
            return self.add(out, all(self.plain_seg(y) and self.vocab_ok(y) for y in Y), 'extra element', s, Y[0], path)
        self.add(out, False, 'different elements', s, a, path)

    def pairs(self, X):
        # a dict literal being filled: the order is rarely observable
        return all(x.op in ('el', 'tuple') and (x.args[0].op == 'tuple' if x.op == 'el' else True) for x in X)

    def plain_seg(self, x):
        return x.op in ('el', 'spl', 'did', 'kw') or x.op not in ('cnd', 'flat')

    def go_bag(self, S, A, s, a, path, out, facts, what):
        S, A = list(S), list(A)
        for x in list(S):
            for y in A:
                if y is x:
                    A.remove(y)
                    S.remove(x)
                    break
        if not S and not A:
            return
        if len(S) == 1 and len(A) == 1:
            return self.go(S[0], A[0], path, out, facts)
        if not A:
            return self.add(out, True, 'missing ' + what, S[0], a, path)
        if not S:
            return self.add(out, all(self.vocab_ok(y) for y in A), 'extra ' + what, s, A[0], path)
        # match greedily by smallest difference
        if len(S) == len(A):
            best = self.match(S, A, path, facts)
            if best is not None:
                out.extend(best)
                return
        self.add(out, False, 'different ' + what + 's', s, a, path)

    def match(self, S, A, path, facts):
        res = []
        A = list(A)
        for x in S:
            c = []
            for y in A:
                o = []
                self.go(x, y, path, o, facts)
                c.append((sum(1 if d.sure else 50 for d in o), y.id, y, o))
            c.sort(key=lambda t: t[:2])
            if not c or c[0][0] >= 50:
                return None
            A.remove(c[0][2])
            res += c[0][3]
        return res

    def go_dict(self, s, a, path, out, facts):
        def keyed(L):
            d, rest = {}, []
            for x in L:
                if x.op == 'el' and x.args[0].op in ('tuple', 'grp') and x.args[0].args[0].op in ('const', 'glob', 'attr', 'bv', 'fresh', 'idx'):
                    k = x.args[0].args[0]
                    if k in d:
                        rest.append(x)
                    else:
                        d[k] = x
                else:
                    rest.append(x)
            return d, rest
        S, A = list(s.args[0].args), list(a.args[0].args)
        d1, r1 = keyed(S)
        d2, r2 = keyed(A)
        if r1 or r2:
            return self.go_seq(S, A, s, a, path, out, facts)
        if set(d1) == set(d2):
            n = len(out)
            for k in d1:
                self.go(d1[k], d2[k], path, out, facts)
            if len(out) == n:
                self.add(out, False, 'different key order', s, a, path)
            return
        mk = [k for k in d1 if k not in d2]
        ek = [k for k in d2 if k not in d1]
        if len(mk) == 1 and len(ek) == 1:
            self.go(d1[mk[0]], d2[ek[0]], path, out, facts)
        elif mk and not ek:
            self.add(out, True, 'missing key', mk[0], a, path)
        elif ek and not mk:
            self.add(out, self.vocab_ok(ek[0]), 'extra key', s, ek[0], path)
        else:
            self.add(out, False, 'different keys', s, a, path)
        for k in d1:
            if k in d2:
                self.go(d1[k], d2[k], path, out, facts)

    def go_lin(self, s, a, path, out, facts):
        c1, d1 = s.args[0], {s.args[i + 1]: s.args[i] for i in range(1, len(s.args), 2)}
        c2, d2 = a.args[0], {a.args[i + 1]: a.args[i] for i in range(1, len(a.args), 2)}
        only1 = {t: k for t, k in d1.items() if d2.get(t) != k}
        only2 = {t: k for t, k in d2.items() if d1.get(t) != k}
        if c1 != c2 and not only1 and not only2:
            return self.add(out, True, 'different constant offset', s, a, path)
        if len(only1) == 1 and len(only2) == 1 and c1 == c2:
            (t1, k1), (t2, k2) = list(only1.items())[0], list(only2.items())[0]
            if t1 is t2:
                return self.add(out, True, 'different coefficient', s, a, path)
            if k1 == k2:
                return self.go(t1, t2, path, out, facts)
        if not only2 or not only1:
            return self.add(out, all(self.vocab_ok(t) for t in list(only1) + list(only2)),
                            'missing term' if not only2 else 'extra term', s, a, path)
        self.add(out, self.arith_close(s, a), 'different arithmetic', s, a, path)

    # ---- effects / objects
    def eff_known(self, e):
        for x in tm.subterms(e):
            if x.op == 'set' and len(x.args) == 3 and not self.name_ok(x.args[1]):
                return False
        return self.vocab_ok(e)

    def go_effs(self, s, a, path, out, facts):
        def parts(t):
            st, ot = {}, []
            for x in t.args:
                if x.op == 'set' and len(x.args) == 3:
                    st[(x.args[0].id, x.args[1])] = x
                else:
                    ot.append(x)
            return st, ot
        s1, o1 = parts(s)
        s2, o2 = parts(a)
        for k, x in s1.items():
            if k in s2:
                self.go(x.args[2], s2[k].args[2], path, out, facts)
            else:
                others = [y for kk, y in s2.items() if kk not in s1]
                if any(y.args[1] == x.args[1] for y in others) or any(not self.name_ok(y.args[1]) for y in others):
                    self.add(out, False, f'store {x.args[1]} differs', s, a, path)
                else:
                    self.add(out, self.name_ok(x.args[1]), f'missing store to {x.args[1]}', x, a, path)
        for k, y in s2.items():
            if k not in s1:
                if any(x.args[1] == y.args[1] for kk, x in s1.items() if kk not in s2):
                    continue
                self.add(out, self.name_ok(y.args[1]), f'extra store to {y.args[1]}', s, y, path)
        if len(o1) == 1 and len(o2) == 1 and o1[0].op == o2[0].op == 'eff':
            self.go_seq(list(o1[0].args[0].args), list(o2[0].args[0].args), o1[0], o2[0], path, out, facts)
        elif o1 != o2:
            if o1 and not o2:
                self.add(out, all(self.vocab_ok(x) for x in o1), 'missing effect', o1[0], a, path)
            elif o2 and not o1:
                self.add(out, False, 'extra effect', s, o2[0], path)
            else:
                self.go_bag(o1, o2, s, a, path, out, facts, 'effect')

    def go_kwlike(self, s, a, path, out, facts):
        def parts(t):
            d, ot = {}, []
            for x in t.args:
                if isinstance(x, T) and x.op == 'kw':
                    d[x.args[0]] = x.args[1]
                else:
                    ot.append(x)
            return d, ot
        d1, o1 = parts(s)
        d2, o2 = parts(a)
        if len(o1) == len(o2):
            for x, y in zip(o1, o2):
                if isinstance(x, T) and isinstance(y, T):
                    self.go(x, y, path, out, facts)
        else:
            self.add(out, False, 'different object', s, a, path)
        for k in d1:
            if k in d2:
                self.go(d1[k], d2[k], path, out, facts)
            elif any(not self.name_ok(x) for x in d2 if x not in d1) or k.startswith('_') and not k.startswith('__'):
                self.add(out, False, f'member {k} missing', d1[k], a, path)
            else:
                self.add(out, True, f'member {k} missing', d1[k], a, path)
        for k in d2:
            if k not in d1:
                self.add(out, False if not k.startswith('__') else True, f'extra member {k}', s, d2[k], path)

    # ---- decisions
    def plausible(self, facts):
        """no two positive facts about one subject that may exclude each other"""
        pos = {}
        for at, v in facts:
            if not v:
                continue
            if at.op in ('isinst', 'issub'):
                pos.setdefault(at.args[0].id, []).append(at)
            if at.op == 'cmp' and at.args[0] in ('==', 'is'):
                pos.setdefault(at.args[1].id, []).append(at)
        for k, ats in pos.items():
            for n, p in enumerate(ats):
                for q in ats[n + 1:]:
                    if p is not q and tm.implied(p, True, q) is None and tm.implied(q, True, p) is None:
                        return False
        return True

    def go_ite(self, s, a, path, out, facts):
        S, A = tm.top_atoms(s), tm.top_atoms(a)
        extra_s = [x for x in S if x not in A]
        extra_a = [x for x in A if x not in S]
        if extra_s and extra_a:
            # try to pair replaced conditions
            m = {}
            ds = []
            used = set()
            for y in sorted(extra_a, key=tm.atom_key):
                best = None
                for x in extra_s:
                    if x in used:
                        continue
                    o = []
                    self.go_atom(x, y, path, o)
                    if all(d.sure for d in o) and o and (best is None or len(o) < len(best[1])):
                        best = (x, o)
                if best is None:
                    break
                used.add(best[0])
                m[y.id] = best[0]
                ds += best[1]
            else:
                # replace the atoms and compare the rest
                a2 = self.replace_atoms(a, m)
                n = len(out)
                o2 = []
                if a2 is s:
                    out.extend(ds)
                    return
                sub = []
                self.go(s, a2, path, sub, facts)
                if sub and all(d.sure for d in sub) or not sub:
                    out.extend(ds + sub)
                    return
            # negated pairing?  give up on the decision structure
            if len(extra_s) == len(S) and len(extra_a) == len(A):
                return self.add(out, False, 'different conditions', extra_s[0], extra_a[0], path)
        allat = sorted(S | A, key=tm.atom_key)
        if not allat:
            return self.add(out, False, 'different form', s, a, path)
        m = allat[0]
        # split on the least atom
        n = len(out)
        for v in (True, False):
            f2 = facts + [(m, v)]
            if not self.consistent(facts, m, v):
                continue
            s1, a1 = tm.cofactor(s, m, v), tm.cofactor(a, m, v)
            if s1 is a1:
                continue
            if v and m in extra_a or m in extra_a:
                e = self.equality(m, v)
                if e is not None:
                    s1, a1 = tm.subst(s1, e), tm.subst(a1, e)
                    if s1 is a1:
                        continue
            sub = []
            self.go(s1, a1, path, sub, f2)
            if not self.plausible(f2):
                for d in sub:
                    if d.sure:
                        d.sure = False
                        d.msg += ' (on a possibly infeasible path)'
            if m in extra_a and not self.vocab_ok(m):
                for d in sub:
                    d.sure = False
            for d in sub:
                d.msg += ''
                out.append(Diff(d.sure, d.msg, d.s, d.a, d.path))
                if len(out) > MAXDIFF:
                    return

    def consistent(self, facts, m, v):
        for at, w in facts:
            r = tm.implied(at, w, m)
            if r is not None and r is not v:
                return False
        return True

    def equality(self, m, v):
        """substitution that makes an equality fact usable"""
        if m.op == 'cmp' and m.args[0] in ('==', 'is') and v:
            x, c = m.args[1], m.args[2]
            if c.op == 'const':
                if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0] == 'len' and c.args[0] == 0 and len(x.args) == 2:
                    return {x.args[1].id: raw('tuple'), x.id: c}
                if x.op == 'len' and c.args[0] == 0:
                    return {x.args[0].id: raw('tuple'), x.id: c}
                return {x.id: c}
            if x.op in ('bv', 'fresh', 'sym'):
                return {x.id: c}
            if c.op in ('bv', 'fresh', 'sym'):
                return {c.id: x}
        return None

    def go_atom(self, x, y, path, o):
        """difference between two atomic conditions"""
        if x.op != y.op:
            self.add(o, False, 'different condition', x, y, path)
            return
        if x.op == 'cmp':
            if x.args[0] != y.args[0]:
                same = {x.args[1].id, x.args[2].id} == {y.args[1].id, y.args[2].id}
                self.add(o, same, 'different comparison', x, y, path)
                return
            if x.args[1] is y.args[2] and x.args[2] is y.args[1]:
                self.add(o, x.args[0] in ('<', '<=', 'in'), 'comparison reversed', x, y, path)
                return
            if x.args[1] is not y.args[1] and x.args[2] is not y.args[2]:
                o1 = []
                self.go(x.args[1], y.args[1], path, o1, [])
                self.go(x.args[2], y.args[2], path, o1, [])
                if len(o1) > 1:
                    self.add(o, False, 'different comparison', x, y, path)
                    return
                o.extend(o1)
                return
        self.same_op(x, y, path, o, [])

    def replace_atoms(self, t, m):
        if t.op != 'ite':
            return t
        at = m.get(t.args[0].id, t.args[0])
        return tm.ite(at, self.replace_atoms(t.args[1], m), self.replace_atoms(t.args[2], m))


# ---- recombination of known material
PLAIN = {'const', 'glob', 'attr', 'idx', 'cmp', 'isinst', 'issub', 'has', 'tuple', 'RET', 'RAISE', 'kw', 'ite', 'call',
         'smeth', 'mcall', 'did', 'set', 'slice', 'eff', 'effs', 'el', 'hasattr', 'raises', 'undef', 'star', 'dstar', 'lst', 'spl', 'dict', 'grp', 'fresh'}
NEVER = {'unk', 'rec', 'fold', 'loop'}
ARITH = {'lin', 'bin', 'ac', 'un', 'shift'}
# library calls that mostly reshape data: another one may be the same thing said differently
RESHAPE = {'len', 'list', 'dict', 'set', 'tuple', 'sorted', 'zip', 'enumerate', 'range', 'map', 'filter', 'iter', 'next', 'reversed',
           'frozenset', 'sum', 'min', 'max', 'any', 'all', 'repr', 'str', 'bool', 'int', 'callable', 'vars', 'dir', 'id', 'hash',
           'getattr', 'setattr', 'hasattr', 'print', 'format', 'abs', 'divmod', 'pow', 'slice', 'super', 'object', 'divmod', 'bin', 'hex', 'ord',
           'chr', 'round', 'open', 'globals', 'locals'}
RESHAPE_M = {'keys', 'values', 'items', 'get', 'append', 'extend', 'update', 'join', 'split', 'format', 'copy', 'pop', 'popitem', 'insert',
             'index', 'count', 'sort', 'reverse', 'add', 'remove', 'discard', 'union', 'intersection', 'difference', 'setdefault', 'startswith',
             'endswith', 'strip', 'replace', 'encode', 'decode', 'union', 'issubset', 'issuperset', 'symmetric_difference', '__name__', '__class__',
             '__dict__', '__len__', '__getitem__', '__contains__', '__iter__', '__next__', '__call__', '__eq__', '__mro__', 'most_common', 'elements'}
RESHAPE_MODS = ('functools.', 'itertools.', 'operator.', 'collections.', 'copy.', 'math.', 'types.', 'typing.', 'inspect.')


def kind(t):
    if t.op == 'call':
        f = t.args[0]
        if f.op == 'glob':
            return 'call', f.args[0]
        if f.op == 'attr':
            return 'call.', f.args[1]
        return 'call', f.op
    if t.op in ('bin', 'ac', 'un', 'shift'):
        return t.op, t.args[0] if not isinstance(t.args[0], T) else ''
    if t.op == 'lin':
        return ('lin',)
    if t.op in ('smeth', 'mcall'):
        return t.op, next((x for x in t.args if isinstance(x, str)), '')
    return (t.op,)


def kids(t):
    for x in t.args:
        if isinstance(x, T):
            yield x


def novelty(s, a):
    """(terms of a that are not in s and whose parts all are, the reverse, every term only in s)"""
    S, A = set(tm.subterms(s)), set(tm.subterms(a))
    N, M = A - S, S - A
    return ([t for t in N if not any(k in N for k in kids(t))], [t for t in M if not any(k in M for k in kids(t))], M)


def recombines(s, a, vocab, known_glob):
    """The two graphs differ only by plain, local changes: everything new in the code is a
    constant, an access, a comparison, a test or a call whose parts the specification has too.
    Reshaping library calls and new loop forms do not count, they may say the same thing
    differently."""
    while s.op == a.op == 'fnv' and s.args[0] == a.args[0] and s.args[2:] == a.args[2:] and s.args[1].args[0] == a.args[1].args[0]:
        # parameters become names of their own, they are bound variables otherwise whose
        # numbers depend on the depth of what is below
        fs = [fresh() for _ in range(s.args[1].args[0])]
        s, a = apply_lam(s.args[1], fs), apply_lam(a.args[1], fs)
    N, Mm, M = novelty(s, a)
    if len(N) > 10 or len(Mm) > 20:
        return False, f'{len(N)} new parts'
    mk = {kind(t) for t in M}
    def picks(t):
        return sum(1 for x in set(tm.subterms(t)) if x.op == 'idx' and x.args[0].op in ('dict', 'lst', 'tupof') and x.args[1].op != 'slice'
                   and any(y.op == 'flat' for y in tm.subterms(x.args[0].args[0])))
    if picks(a) > picks(s):
        # picking from a container built in place: may equal the element it was built from
        return False, 'lookup in a comprehension'
    S, A = set(tm.subterms(s)), set(tm.subterms(a))
    odd = {kind(t) for t in A - S if t.op not in PLAIN and t.op not in ARITH and t.op not in ('bv', 'lam')} - mk
    # whether a stored value is there, asked as whether it is true: zero and the empty ones differ
    gone = {t.args[1].id for t in M if t.op == 'cmp' and t.args[0] in ('is', '==') and t.args[2] is tm.NONE and t.args[1].op in ('idx', 'attr')}
    truths = {t for t in A - S if t.op == 'truth'}
    if truths and all(t.args[0].id in gone for t in truths):
        odd -= {kind(t) for t in truths}
    if odd:
        return False, f'new form {sorted(map(str, odd))[0]}'
    lams_s = {(t.args[0], t.args[1]) for t in tm.subterms(s) if t.op == 'lam'}
    lams_a = {(t.args[0], t.args[1]) for t in tm.subterms(a) if t.op == 'lam'}
    same_binders = lams_a <= lams_s
    arith_m = {kind(t) for t in M if t.op in ARITH}
    kn, km = {kind(t) for t in N}, {kind(t) for t in Mm}

    def ok(t, new):
        if t.op in ARITH:
            # the same operators with other operands; other operators may be the same formula
            return not new or t.op == 'lin' or kind(t) in arith_m
        if t.op == 'const':
            return True
        if t.op == 'bv':
            return not new or same_binders
        if t.op == 'lam':
            return same_binders
        if t.op == 'truth' and t in truths and t.args[0].id in gone:
            return True
        if t.op not in PLAIN:
            # one piece of the kind replaced by another
            return t.op not in NEVER and kind(t) in kn and kind(t) in km
        if t.op == 'attr' and new:
            return t.args[1] in vocab and (t.args[1] not in RESHAPE_M or False)
        if t.op == 'glob':
            n = t.args[0]
            if n in RESHAPE or n.startswith(RESHAPE_MODS):
                return not new
            return known_glob(n)
        if t.op == 'call':
            k = kind(t)
            if k[0] == 'call' and isinstance(k[1], str) and (k[1] in RESHAPE or k[1].startswith(RESHAPE_MODS)) or k[0] == 'call.' and k[1] in RESHAPE_M:
                return k in mk or not new
            return True
        if t.op == 'cmp' and new:
            # `x is None`, `x == []`, `len(x) == 0` and plain truth are often interchangeable
            if t.args[2].op == 'const' and t.args[2].args[0] in (None, True, False) or t.args[2].op in ('lst', 'dict', 'set') or t.args[2].op == 'tuple' and not t.args[2].args:
                return any(m.op == 'cmp' and m.args[2] is t.args[2] for m in M)
            return True
        if t.op in ('kw', 'set', 'did', 'has') and new:
            return all(x in vocab for x in t.args if isinstance(x, str))
        return True
    bad = [t for t in N if not ok(t, True)]
    if bad:
        return False, 'new: ' + tm.show(bad[0], 4)
    bad = [t for t in Mm if not ok(t, False)]
    if bad:
        return False, 'gone: ' + tm.show(bad[0], 4)
    return True, ''


def where(diff, prov):
    """best source position for a difference"""
    for t in [diff.a] + list(reversed(diff.path)):
        if isinstance(t, T):
            p = prov.get(t.id)
            if p is not None:
                return p
            for x in tm.subterms(t):
                p = prov.get(x.id)
                if p is not None:
                    return p
    return None
