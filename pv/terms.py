"""Hash-consed value graph terms and their normal form.

A term is an immutable node (op, args).  All construction goes through the
smart constructors below, which keep the graph in a normal form:

  * conditionals are ordered decision diagrams over atomic conditions,
  * lists, dicts and sets are monoid expressions (element / flat / splice),
  * integer sums are linear forms, & and | are flattened and sorted,
  * binders are numbered by height so alpha-equivalent terms are identical.

Nothing here runs the analysed program; it only rewrites terms.
"""
import itertools
import time

_table = {}
_ctr = itertools.count()


class T:
    __slots__ = ('op', 'args', 'id', 'fresh', 'h', 'atoms', 'key', 'hasref', 'size', 'bvs')

    def __repr__(self):
        return show(self)


_E = frozenset()


class Budget(Exception):
    pass


DEADLINE = [None]
LIMIT = [None]
_tick = [0]


def raw(op, *args):
    k = (op,) + tuple((a.id if isinstance(a, T) else (type(a).__name__, a)) for a in args)
    t = _table.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    t.id = -next(_ctr) - 1
    fresh = _E
    h = 0
    hasref = op == 'ref'
    size = 1
    bvs = _E
    for a in args:
        if isinstance(a, T):
            if a.fresh:
                fresh = fresh | a.fresh
            if a.h > h:
                h = a.h
            hasref = hasref or a.hasref
            size += a.size
            if a.bvs:
                bvs = bvs | a.bvs
    if op == 'fresh':
        fresh = frozenset([args[0]])
    if op == 'bv':
        bvs = frozenset([args[0]])
    if op == 'lam':
        h = args[1] if args[1] > h else h
        bvs = bvs - {args[1]}
    t.fresh = fresh
    t.h = h
    t.hasref = hasref
    t.size = size
    t.bvs = bvs
    t.atoms = None
    t.key = None
    _table[k] = t
    if t.id & 4095 == 0 and LIMIT[0] is not None and len(_table) > LIMIT[0]:
        raise Budget('terms')
    return t


def const(v):
    return raw('const', v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
_fresh_ctr = itertools.count(1)


HINTS = {}


def fresh(hint=''):
    t = raw('fresh', next(_fresh_ctr))
    if hint:
        HINTS[t.id] = hint
    return t


def unk(why):
    return raw('unk', next(_fresh_ctr), str(why))


def sym(n):
    return raw('sym', n)


def glob(n):
    return raw('glob', n)


def is_const(t, *types):
    return t.op == 'const' and (not types or type(t.args[0]) in types)


def is_int(t):
    return t.op == 'const' and type(t.args[0]) is int


# ---------------------------------------------------------------- printing
def show(t, depth=14):
    if not isinstance(t, T):
        return repr(t)
    if depth <= 0:
        return '...'
    o, a = t.op, t.args
    s = lambda x: show(x, depth - 1)
    if o == 'const':
        return repr(a[0])
    if o in ('sym',):
        return a[0]
    if o == 'glob':
        return a[0]
    if o == 'fresh':
        return f'${a[0]}'
    if o == 'bv':
        return f'b{a[0]}.{a[1]}'
    if o == 'attr':
        return f'{s(a[0])}.{a[1]}'
    if o == 'idx':
        return f'{s(a[0])}[{s(a[1])}]'
    if o == 'call':
        return f'{s(a[0])}({", ".join(s(x) for x in a[1:])})'
    if o == 'kw':
        return f'{a[0]}={s(a[1])}'
    if o == 'tuple':
        return '(' + ', '.join(s(x) for x in a) + ',)'
    if o == 'lst':
        return '[' + ', '.join(s(x) for x in a) + ']'
    if o == 'el':
        return s(a[0])
    if o == 'spl':
        return '*' + s(a[0])
    if o == 'flat':
        return f'for({s(a[0])}){s(a[1])}'
    if o == 'lam':
        return f'\\{a[1]}/{a[0]}.{s(a[2])}'
    if o == 'ite':
        return f'({s(a[1])} if {s(a[0])} else {s(a[2])})'
    if o == 'cmp':
        return f'({s(a[1])} {a[0]} {s(a[2])})'
    if o == 'bin':
        return f'({s(a[1])} {a[0]} {s(a[2])})'
    if o == 'ac':
        return '(' + f' {a[0]} '.join(s(x) for x in a[1:]) + ')'
    if o == 'lin':
        ps = [str(a[0])] if a[0] else []
        for i in range(1, len(a), 2):
            ps.append((f'{a[i]}*' if a[i] != 1 else '') + s(a[i + 1]))
        return '(' + ' + '.join(ps) + ')'
    return f'{o}<' + ', '.join(s(x) for x in a) + '>'


def skey(t):
    """stable structural key, independent of creation order"""
    if not isinstance(t, T):
        return repr(t)
    if t.key is None:
        import hashlib
        if t.op in ('const', 'sym', 'glob', 'fresh', 'bv', 'ref', 'unk'):
            t.key = t.op + ':' + type(t.args[0]).__name__ + repr(t.args)
        else:
            m = hashlib.md5((t.op + '(' + ','.join(skey(a) for a in t.args) + ')').encode())
            t.key = t.op + m.hexdigest()
    return t.key


def akey(t, memo=None):
    """like skey, blind to the identity of fresh symbols"""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is None:
        import hashlib
        if t.op in ('fresh', 'ref', 'unk'):
            r = t.op
        elif t.op in ('const', 'sym', 'glob', 'bv'):
            r = skey(t)
        else:
            r = t.op + hashlib.md5((t.op + '(' + ','.join(akey(a, memo) if isinstance(a, T) else repr(a) for a in t.args) + ')').encode()).hexdigest()
        memo[t.id] = r
    return r


# ---------------------------------------------------------------- traversal
def rebuild(op, args):
    """re-run the smart constructor of a node"""
    f = _SMART.get(op)
    if f is not None:
        return f(*args)
    return raw(op, *args)


def occurs(t, x, memo=None):
    if memo is None:
        memo = set()
    if t is x:
        return True
    if t.id in memo or t.size < x.size:
        return False
    memo.add(t.id)
    return any(isinstance(y, T) and occurs(y, x, memo) for y in t.args)


def subst(t, m, memo=None):
    """replace subterms: m maps term ids -> term (fresh symbols, refs, atoms)"""
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    r = m.get(t.id)
    if r is not None:
        return r
    r = memo.get(t.id)
    if r is not None:
        return r
    if not any(isinstance(a, T) for a in t.args):
        return t
    changed = False
    new = []
    if t.op == 'lam':
        fs, b0 = opened(t)
        b1 = _subst(b0, m, memo)
        if b1 is b0:
            r = t
        else:
            r = close_lam(fs, b1)
        memo[t.id] = r
        return r
    for a in t.args:
        if isinstance(a, T):
            b = _subst(a, m, memo)
            changed = changed or (b is not a)
            new.append(b)
        else:
            new.append(a)
    r = rebuild(t.op, new) if changed else t
    memo[t.id] = r
    return r


def close_lam(fs, body):
    """fs: list of fresh symbols bound in body"""
    used = [f for f in fs if f.args[0] in body.fresh]
    h = body.h + 1
    m = {f.id: raw('bv', h, j) for j, f in enumerate(fs) if f in used}
    b = _replace_raw(body, m, {}) if m else body
    # replacement does not change heights (bv has h 0)
    return raw('lam', len(fs), h, b)


def _replace_raw(t, m, memo):
    """structural replacement through the smart constructors (order sensitive
    normal forms such as decision diagrams are re-sorted)"""
    r = m.get(t.id)
    if r is not None:
        return r
    r = memo.get(t.id)
    if r is not None:
        return r
    if not t.fresh and not t.bvs:
        return t
    changed = False
    new = []
    for a in t.args:
        if isinstance(a, T):
            b = _replace_raw(a, m, memo)
            changed = changed or b is not a
            new.append(b)
        else:
            new.append(a)
    if not changed:
        r = t
    elif t.op == 'lam':
        r = raw('lam', *new)
    else:
        r = rebuild(t.op, new)
    memo[t.id] = r
    return r


def open_lam(lam, args):
    n, h, body = lam.args
    if h not in body.bvs:
        return body
    m = {raw('bv', h, j).id: a for j, a in enumerate(args)}
    return _replace_raw(body, m, {})


_opened = {}


def opened(lam):
    """parameters and body of a lambda, the same ones every time (they stay inside it)"""
    r = _opened.get(lam.id)
    if r is None:
        fs = [fresh() for _ in range(lam.args[0])]
        r = _opened[lam.id] = (fs, open_lam(lam, fs))
    return r


def apply_lam(lam, args):
    n = lam.args[0]
    args = list(args)[:n]
    return open_lam(lam, args)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t.id in seen:
        return
    seen.add(t.id)
    yield t
    for a in t.args:
        if isinstance(a, T):
            yield from subterms(a, seen)


def depends_on(t, f):
    return f.args[0] in t.fresh


# ---------------------------------------------------------------- classes theory
SUPER = {
    'hwtypes.Product': ['hwtypes.Tuple', 'hwtypes.AttrSyntax'],
    'hwtypes.TaggedUnion': ['hwtypes.Sum', 'hwtypes.AttrSyntax'],
    'hwtypes.Tuple': [], 'hwtypes.Sum': [], 'hwtypes.Enum': [],
    'hwtypes.AbstractBit': [], 'hwtypes.AbstractBitVector': [],
    'hwtypes.Bit': ['hwtypes.AbstractBit'], 'hwtypes.SMTBit': ['hwtypes.AbstractBit'],
    'hwtypes.BitVector': ['hwtypes.AbstractBitVector'],
    'hwtypes.SMTBitVector': ['hwtypes.AbstractBitVector'],
    'KeyError': ['LookupError', 'Exception'], 'IndexError': ['LookupError', 'Exception'],
    'LookupError': ['Exception'],
    'ValueError': ['Exception'], 'TypeError': ['Exception'], 'AttributeError': ['Exception'],
    'NotImplementedError': ['RuntimeError', 'Exception'], 'RuntimeError': ['Exception'],
    'AssertionError': ['Exception'], 'NameError': ['Exception'],
    'bool': ['int'],
}
_ROOTS = ['hwtypes.Tuple', 'hwtypes.Sum', 'hwtypes.Enum', 'hwtypes.AbstractBit', 'hwtypes.AbstractBitVector',
          'peak.assembler.assembled_adt.AssembledADT', 'peak.assembler2.assembled_adt.AssembledADT',
          'tuple', 'dict', 'list', 'str', 'int']


def supers(c):
    out = {c}
    for s in SUPER.get(c, ()):
        out |= supers(s)
    return out


def subclass_of(a, b):
    return b in supers(a)


def disjoint(a, b):
    ra = {r for r in supers(a) if r in _ROOTS}
    rb = {r for r in supers(b) if r in _ROOTS}
    if ra and rb and not (ra & rb):
        return True
    if {a, b} == {'hwtypes.Bit', 'hwtypes.SMTBit'} or {a, b} == {'hwtypes.BitVector', 'hwtypes.SMTBitVector'}:
        return True
    return False


# ---------------------------------------------------------------- atoms
def implied(atom, val, other):
    """value of atom `other` given atom has boolean value `val`, else None"""
    if atom is other:
        return val
    a, b = atom, other
    if a.op == 'isinst' and b.op == 'isinst' or a.op == 'issub' and b.op == 'issub':
        if a.args[0] is b.args[0] and a.args[1].op == 'glob' and b.args[1].op == 'glob':
            ca, cb = a.args[1].args[0], b.args[1].args[0]
            if val:
                if subclass_of(ca, cb):
                    return True
                if disjoint(ca, cb):
                    return False
            else:
                if subclass_of(cb, ca):
                    return False
        if val and a.args[0] is b.args[0]:
            for x, y in ((a, b), (b, a)):
                if x.args[1].op == 'attr' and x.args[1].args[1] == 'adt_t' and y.args[1].op == 'idx' \
                        and y.args[1].args[0].op == 'attr' and y.args[1].args[0].args[1] == 'bv_type':
                    # no ADT is a bit vector of a width
                    return False
        return None
    if a.op == 'cmp' and b.op == 'cmp':
        oa, ob = a.args[0], b.args[0]
        if oa == 'is' and ob == 'is' and val:
            if a.args[1] is b.args[1] and a.args[2] is not b.args[2] and a.args[2].op in ('const', 'glob') and b.args[2].op in ('const', 'glob'):
                return False
        if oa == '==' and ob == '==' and val:
            for i in (1, 2):
                for j in (1, 2):
                    if a.args[i] is b.args[j] and a.args[3 - i].op == 'const' and b.args[3 - j].op == 'const' \
                            and a.args[3 - i] is not b.args[3 - j]:
                        return False
        if oa == '<' and ob == '<' and val and a.args[1] is b.args[2] and a.args[2] is b.args[1]:
            return False
        if oa == '<' and ob == '==' and val and {a.args[1].id, a.args[2].id} == {b.args[1].id, b.args[2].id}:
            return False
        if oa == '==' and ob == '<' and val and {a.args[1].id, a.args[2].id} == {b.args[1].id, b.args[2].id}:
            return False
    if a.op == 'cmp' and a.args[0] == 'is' and val and a.args[2] is NONE:
        x = a.args[1]
        if b.op == 'isinst' and b.args[0] is x:
            return False
        if b.op == 'truth' and b.args[0] is x:
            return False
    if val and {a.op, b.op} == {'isinst', 'issub'} and a.args[0] is b.args[0]:
        t = (a if a.op == 'isinst' else b).args[1]
        if t.op == 'glob' and t.args[0] in ('int', 'str', 'tuple', 'list', 'dict', 'bool'):
            # a class is none of these
            return False
    if a.op == 'isinst' and val and b.op == 'cmp' and b.args[0] == 'is' and b.args[1] is a.args[0] and b.args[2].op in ('const', 'glob'):
        return False
    if a.op == 'truth' and val and b.op == 'cmp' and b.args[0] == 'is' and b.args[2] is NONE and b.args[1] is a.args[0]:
        return False
    return None


ATOM_OPS = {'cmp', 'isinst', 'issub', 'truth', 'has', 'raises', 'any', 'isret'}
_RANK = {'issub': 0, 'isinst': 1, 'has': 2, 'cmp': 3, 'truth': 4, 'any': 5, 'raises': 6, 'isret': 7}


def atom_key(a):
    if a.op in ('issub', 'isinst'):
        # more specific classes first so pruning is canonical
        c = a.args[1]
        d = len(supers(c.args[0])) if c.op == 'glob' else 0
        return (_RANK[a.op], skey(a.args[0]), -d, skey(c))
    # atoms that talk about loops last
    return (_RANK.get(a.op, 9), 0, 0, skey(a))


def top_atoms(t):
    """atoms of the top decision diagram of t"""
    if t.op == 'ite':
        if t.atoms is None:
            s = {t.args[0]}
            for x in t.args[1:]:
                s |= top_atoms(x)
            t.atoms = frozenset(s)
        return t.atoms
    return frozenset()


_cof_memo = {}


def cofactor(t, atom, val):
    """simplify t assuming atom == val (only decisions at the top, plus nested
    terms that mention the atom)"""
    k = (t.id, atom.id, val)
    r = _cof_memo.get(k)
    if r is not None:
        return r
    if t.op == 'ite':
        v = implied(atom, val, t.args[0])
        if v is True:
            r = cofactor(t.args[1], atom, val)
        elif v is False:
            r = cofactor(t.args[2], atom, val)
        else:
            a = cofactor(t.args[1], atom, val)
            b = cofactor(t.args[2], atom, val)
            if a is t.args[1] and b is t.args[2]:
                r = t
            else:
                r = ite(t.args[0], a, b)
    elif t.op in ATOM_OPS:
        v = implied(atom, val, t)
        if v is not None and is_boolatom(t):
            r = TRUE if v else FALSE
        else:
            r = _cof_children(t, atom, val)
    else:
        r = _cof_children(t, atom, val)
    _cof_memo[k] = r
    return r


def _cof_children(t, atom, val):
    if not any(isinstance(a, T) for a in t.args) or t.op == 'lam' and not _has_ite(t):
        return t
    if not _has_ite(t):
        return t
    if t.op == 'lam':
        fs, b0 = opened(t)
        b1 = cofactor(b0, atom, val)
        return t if b1 is b0 else close_lam(fs, b1)
    new = []
    ch = False
    for a in t.args:
        if isinstance(a, T):
            b = cofactor(a, atom, val)
            ch = ch or b is not a
            new.append(b)
        else:
            new.append(a)
    return rebuild(t.op, new) if ch else t


_hi_memo = {}


def _has_ite(t):
    r = _hi_memo.get(t.id)
    if r is None:
        r = t.op == 'ite' or (t.op in ATOM_OPS and t.op != 'any') or any(isinstance(a, T) and _has_ite(a) for a in t.args)
        _hi_memo[t.id] = r
    return r


def is_boolatom(t):
    """term whose value is a python bool"""
    if t.op == 'cmp':
        return t.args[0] in ('is', 'in', '==', '<')
    return t.op in ('isinst', 'issub', 'truth', 'has', 'dhas', 'any', 'raises', 'isret')


def is_bool(t):
    if t.op == 'const':
        return type(t.args[0]) is bool
    if t.op == 'ite':
        return is_bool(t.args[1]) and is_bool(t.args[2])
    if t.op in ('isinst', 'issub', 'truth', 'has', 'dhas', 'any', 'raises', 'isret'):
        return True
    if t.op == 'cmp':
        return t.args[0] in ('is', 'in') or is_pyint(t.args[1]) and is_pyint(t.args[2])
    return False


def is_pyint(t):
    """python integer whatever the inputs are"""
    if t.op == 'const':
        return isinstance(t.args[0], int)
    if t.op in ('len', 'firstpos'):
        return True
    if t.op == 'call':
        f = t.args[0]
        return f.op == 'attr' and f.args[1] in ('count', 'index', 'bit_length') or f.op == 'glob' and f.args[0] == 'len'
    return False


ASSUME = []   # list of (atom, bool), scenario facts


def known(atom):
    for a, v in ASSUME:
        r = implied(a, v, atom)
        if r is not None:
            return r
    return None


def cond(t):
    """boolean decision diagram (leaves TRUE/FALSE) for the truth of value t"""
    o = t.op
    if o == 'const':
        return TRUE if t.args[0] else FALSE
    if o == 'ite':
        return ite(t.args[0], cond(t.args[1]), cond(t.args[2]))
    if o == 'cmp':
        op, a, b = t.args
        if op == '!=':
            return not_(cond(cmp_('==', a, b)))
        if op == '<=':
            return not_(cond(cmp_('<', b, a)))
        return _atom(t)
    if o in ('isinst', 'issub', 'truth', 'has', 'dhas', 'any', 'raises', 'isret'):
        return _atom(t)
    if o == 'bin' and t.args[0] == 'and':
        return and_(cond(t.args[1]), cond(t.args[2]))
    if o in ('tuple',):
        return TRUE if t.args else FALSE
    if o in ('lst', 'dict', 'set', 'tupof'):
        return not_(cond(cmp_('==', len_(t), const(0))))
    if o in ('lam', 'lclass', 'glob'):
        return TRUE
    if o == 'lin':
        return not_(cond(cmp_('==', t, const(0))))
    if o == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] == 'len':
        return not_(cond(cmp_('==', t, const(0))))
    if t.id in TUPLES or t.id in DICTS:
        return not_(cond(cmp_('==', len_(t), const(0))))
    return _atom(raw('truth', t))


def _atom(a):
    v = known(a)
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    return raw('ite', a, TRUE, FALSE)


_ite_memo = {}
SINK = [True]


def ite(c, a, b):
    """c: an atom or a boolean diagram"""
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op != 'ite' and c.op != 'const':
        if not is_boolatom(c):
            c = cond(c)
        elif c.op == 'cmp' or True:
            v = known(c)
            if v is not None:
                return a if v else b
            c = raw('ite', c, TRUE, FALSE)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    _tick[0] += 1
    if DEADLINE[0] is not None and _tick[0] & 255 == 0 and time.process_time() > DEADLINE[0]:
        raise Budget('time')
    k = (c.id, a.id, b.id)
    r = _ite_memo.get(k)
    if r is not None and not ASSUME:
        return r
    # sink into tuples of the same length
    if SINK[0] and a.op == 'tuple' and b.op == 'tuple' and len(a.args) == len(b.args) and a.args:
        r = raw('tuple', *[ite(c, x, y) for x, y in zip(a.args, b.args)])
    elif sinks(a, b):
        r = sink(c, a, b)
    else:
        # terminal: c is diagram; build ordered
        tops = []
        for x in (c, a, b):
            if x.op == 'ite':
                tops.append(x.args[0])
        m = min(tops, key=atom_key)
        c1, c0 = cofactor(c, m, True), cofactor(c, m, False)
        a1, a0 = cofactor(a, m, True), cofactor(a, m, False)
        b1, b0 = cofactor(b, m, True), cofactor(b, m, False)
        t1 = ite(c1, a1, b1)
        t0 = ite(c0, a0, b0)
        r = _node(m, t1, t0)
    if not ASSUME:
        _ite_memo[k] = r
    return r


def _node(m, t1, t0):
    if t1 is t0:
        return t1
    if SINK[0] and t1.op == 'tuple' and t0.op == 'tuple' and len(t1.args) == len(t0.args) and t1.args:
        return raw('tuple', *[_node2(m, x, y) for x, y in zip(t1.args, t0.args)])
    if sinks(t1, t0):
        return sink(m, t1, t0)
    if m.op == 'truth' and m.args[0].id in BOOLS:
        p = m.args[0]
        if p.args[0] in t1.fresh:
            t1 = subst(t1, {p.id: TRUE})
        if p.args[0] in t0.fresh:
            t0 = subst(t0, {p.id: FALSE})
        if t1 is t0:
            return t1
    if m.op == 'cmp' and m.args[0] == 'is' and m.args[2].op in ('glob', 'const') and m.args[2].args[0] in (NotImplemented, 'NotImplemented'):
        x = m.args[1]
        b = raw('ite', x, TRUE, FALSE) if is_boolatom(x) else x
        t1 = subst(t1, {b.id: m.args[2], raw('ite', x, raw('RET', TRUE), raw('RET', FALSE)).id: raw('RET', m.args[2]),
                        raw('RET', x).id: raw('RET', m.args[2])})
    if m.op == 'any' and t0.op == 'ite' and t0.args[0].op == 'any' and t0.args[1] is t1 and t0.args[0].args[0] is m.args[0]:
        f, g = m.args[1], t0.args[0].args[1]
        if f.op == g.op == 'lam' and f.args[0] == g.args[0]:
            fs, x = opened(f)
            y = apply_lam(g, fs)
            return ite(any_(m.args[0], close_lam(fs, or_(x, y))), t1, t0.args[2])
    if m.op == 'raises' and t1.op == 'RAISE' and len(t1.args) == 1 and t1.args[0] is m.args[0] and t0.op == 'RET' and t0.args[0] is m.args[1]:
        # what is raised is raised again
        return t0
    if t0.op == 'RAISE' and len(t0.args) == 1 and t0.args[0].op == 'glob':
        if m.op == 'has' and t0.args[0].args[0] == 'AttributeError' and needs(t1, raw('attr', m.args[0], m.args[1])):
            return t1
    if m.op == 'cmp' and m.args[0] == '==':
        x, n = m.args[1:]
        if n.op == 'call':
            x, n = n, x
        if is_int(n) and n.args[0] == 1 and x.op == 'call' and len(x.args) == 2 and x.args[0] is glob('len'):
            # the one item
            D = x.args[1]
            p = raw('call', raw('attr', D, 'popitem'))
            t1 = subst(t1, {p.id: idx(raw('call', raw('attr', D, 'items')), const(0))})
    # equality atom: under x == const the two sides may coincide
    return raw('ite', m, t1, t0)


def needs(t, x):
    """whatever t evaluates to, x is evaluated"""
    if t is x:
        return True
    if t.op == 'ite':
        return needs(t.args[0], x) or needs(t.args[1], x) and needs(t.args[2], x)
    if t.op in ('lam', 'fnv', 'lclass', 'flat', 'cnd', 'any', 'fold'):
        return False
    return t.size >= x.size and any(needs(y, x) for y in t.args if isinstance(y, T))


def sinks(a, b):
    """literal lists of one length, and results that are literal lists"""
    if a.op != b.op or len(a.args) != len(b.args) or not SINK[0]:
        return False
    if a.op == 'lst':
        return bool(a.args) and all(x.op == 'el' for x in a.args) and all(x.op == 'el' for x in b.args)
    if a.op == 'RET':
        return a.args[1:] == b.args[1:] and isinstance(a.args[0], T) and isinstance(b.args[0], T) \
            and a.args[0].op in ('lst', 'tuple') and (sinks(a.args[0], b.args[0]) or
                                           a.args[0].op == b.args[0].op == 'tuple' and len(a.args[0].args) == len(b.args[0].args) > 0)
    return False


def sink(c, a, b):
    if a.op == 'lst':
        return raw('lst', *[el(ite(c, x.args[0], y.args[0])) for x, y in zip(a.args, b.args)])
    return raw('RET', ite(c, a.args[0], b.args[0]), *a.args[1:])


def _node2(m, x, y):
    return ite(m, x, y)


def not_(c):
    return ite(c, FALSE, TRUE)


def and_(*cs):
    r = TRUE
    for c in cs:
        r = ite(c if c.op == 'ite' or c.op == 'const' else cond(c), r, FALSE) if r is TRUE else ite(r, cond(c), FALSE)
    return r


def or_(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, cond(c))
    return r


# ---------------------------------------------------------------- hoisting
HOIST_LIMIT = 48


def _leafcount(t):
    if t.op != 'ite':
        return 1
    return _leafcount(t.args[1]) + _leafcount(t.args[2])


def hoist(op, args):
    """pull decisions out of a strict node"""
    n = 1
    first = None
    for a in args:
        if isinstance(a, T) and a.op == 'ite':
            n *= _leafcount(a)
            if first is None or atom_key(a.args[0]) < atom_key(first):
                first = a.args[0]
    if first is None or n > HOIST_LIMIT:
        return None
    t1 = rebuild(op, [cofactor(a, first, True) if isinstance(a, T) else a for a in args])
    t0 = rebuild(op, [cofactor(a, first, False) if isinstance(a, T) else a for a in args])
    return ite(first, t1, t0)


def exploded(*ts):
    """the same terms with decisions pulled out of literal tuples, lists and
    results instead of pushed into them"""
    global _ite_memo, _cof_memo
    keep = _ite_memo, _cof_memo
    _ite_memo, _cof_memo = {}, {}
    SINK[0] = False
    try:
        memo = {}
        return [_explode(t, memo) for t in ts]
    finally:
        SINK[0] = True
        _ite_memo, _cof_memo = keep


def _explode(t, memo):
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op == 'lam':
        fs, b0 = opened(t)
        r = close_lam(fs, _explode(b0, memo))
    elif not _has_ite(t):
        r = t
    else:
        new = [_explode(a, memo) if isinstance(a, T) else a for a in t.args]
        r = None
        if t.op in ('tuple', 'RET', 'el', 'kw', 'attr', 'idx', 'slice', 'bin', 'un', 'dictel') or t.op == 'lst' and all(x.op in ('el', 'ite') for x in new):
            r = _pull(t.op, new)
        if r is None:
            r = rebuild(t.op, new)
    memo[t.id] = r
    return r


def _pull(op, args):
    n = 1
    first = None
    for a in args:
        if isinstance(a, T) and a.op == 'ite':
            n *= _leafcount(a)
            if first is None or atom_key(a.args[0]) < atom_key(first):
                first = a.args[0]
    if first is None or n > HOIST_LIMIT:
        return None
    r = []
    for v in (True, False):
        new = [cofactor(a, first, v) if isinstance(a, T) else a for a in args]
        r.append(_pull(op, new) or rebuild(op, new))
    return ite(first, *r)


# ---------------------------------------------------------------- arithmetic
def lin_parts(t):
    if is_int(t):
        return t.args[0], {}
    if t.op == 'lin':
        d = {}
        for i in range(1, len(t.args), 2):
            d[t.args[i + 1]] = t.args[i]
        return t.args[0], d
    return 0, {t: 1}


def mk_lin(c, d):
    items = [(t, k) for t, k in d.items() if k != 0]
    if not items:
        return const(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: skey(p[0]))
    flat = []
    for t, k in items:
        flat += [k, t]
    return raw('lin', c, *flat)


def lin_smart(c, *rest):
    ts = [rest[i + 1] for i in range(0, len(rest), 2)]
    h = None
    if any(t.op == 'ite' for t in ts):
        h = hoist('lin', [c, *rest])
        if h is not None:
            return h
    if any(seqlike(t) for t in ts):
        return raw('lin', c, *rest)
    d = {}
    for i in range(0, len(rest), 2):
        c2, d2 = lin_parts(rest[i + 1])
        c += rest[i] * c2
        for t, k in d2.items():
            d[t] = d.get(t, 0) + rest[i] * k
    return mk_lin(c, d)


SEQ_CALLS = set()


def seqlike(t):
    if t.op in ('tuple', 'lst', 'tupof', 'scat', 'dict', 'set'):
        return True
    if t.op == 'const' and type(t.args[0]) in (str, bytes):
        return True
    if t.op == 'sym' and t.args[0].endswith('~seq'):
        return True
    if t.op == 'ite':
        return seqlike(t.args[1]) or seqlike(t.args[2])
    if t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] in ('repr', 'str', 'sorted', 'list', 'tuple'):
        return True
    if t.op == 'idx' and t.args[1].op == 'const' and t.args[0].op == 'call' and t.args[0].args[0].op == 'glob' \
            and t.args[0].args[0].args[0] in ('hwtypes.unwrap_modifier',) and t.args[1].args[0] == 1:
        return True
    if t.op == 'idx' and t.args[1].op == 'slice':
        return seqlike(t.args[0]) or True if t.args[0].op in ('sym', 'bv', 'fresh') and False else seqlike(t.args[0])
    return False


def add(a, b):
    h = None
    if a.op == 'ite' or b.op == 'ite':
        h = hoist('add', [a, b])
        if h is not None:
            return h
    if seqlike(a) or seqlike(b):
        return scat(a, b)
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    d = dict(da)
    for t, k in db.items():
        d[t] = d.get(t, 0) + k
    return mk_lin(ca + cb, d)


def is_str(t):
    """t is certainly a string"""
    if t.op == 'const':
        return type(t.args[0]) is str
    if t.op == 'call':
        return t.args[0].op == 'glob' and t.args[0].args[0] in ('str', 'repr', 'format')
    if t.op == 'scat':
        return any(is_str(x) for x in t.args)
    if t.op == 'ite':
        return is_str(t.args[1]) and is_str(t.args[2])
    return False


def tostr(t):
    """str(t)"""
    if t.op == 'const' and type(t.args[0]) in (int, bool, type(None)):
        return const(str(t.args[0]))
    return t if is_str(t) else call(glob('str'), t)


def scat(*xs):
    """ordered concatenation of sequences"""
    out = []
    for x in xs:
        if x.op == 'scat':
            out += list(x.args)
        elif x.op == 'tupof' and x.args[0].op == 'lst' and len(x.args[0].args) == 1 and x.args[0].args[0].op == 'spl' and len(xs) > 1:
            out.append(x.args[0].args[0].args[0])
        else:
            out.append(x)
    if any(is_str(x) for x in out):
        # str + x: x is a string, so str(x) is x
        out = [tostr(x) for x in out]
    if all(x.op == 'lst' for x in out):
        return lst(*[s for x in out for s in x.args])
    # a tuple next to a list only occurs as concatenation of same kinds
    res = []
    for x in out:
        if res and x.op == 'tuple' and res[-1].op == 'tuple':
            res[-1] = raw('tuple', *(res[-1].args + x.args))
        elif res and is_const(x, str) and is_const(res[-1], str):
            res[-1] = const(res[-1].args[0] + x.args[0])
        elif x.op == 'tuple' and not x.args or is_const(x, str) and x.args[0] == '':
            if not res:
                res.append(x)
        elif res and (res[-1].op == 'tuple' and not res[-1].args or is_const(res[-1], str) and res[-1].args[0] == ''):
            res[-1] = x
        else:
            res.append(x)
    if any(x.op in ('lst',) for x in res):
        segs = []
        for x in res:
            segs += list(x.args) if x.op == 'lst' else [raw('spl', x)]
        return lst(*segs)
    if len(res) == 1:
        return res[0]
    return raw('scat', *res)


def neg(a):
    return scale(-1, a)


def scale(k, a):
    if a.op == 'ite':
        h = hoist('scale', [k, a])
        if h is not None:
            return h
    c, d = lin_parts(a)
    return mk_lin(k * c, {t: k * v for t, v in d.items()})


def sub(a, b):
    if a.op == 'ite' or b.op == 'ite':
        h = hoist('sub', [a, b])
        if h is not None:
            return h
    if a.op in ('set',) or b.op == 'set' or a.op == 'call' and a.args[0] is glob('set'):
        return raw('bin', '-', a, b)
    return add(a, neg(b))


def binop(op, a, b):
    if op == '+':
        return add(a, b)
    if op == '-':
        return sub(a, b)
    if a.op == 'ite' or b.op == 'ite':
        h = hoist('bin', [op, a, b])
        if h is not None:
            return h
    if op == '*':
        if is_int(a) and not seqlike(b):
            return scale(a.args[0], b)
        if is_int(b) and not seqlike(a):
            return scale(b.args[0], a)
        if seqlike(a) or seqlike(b):
            if seqlike(b) and not seqlike(a):
                a, b = b, a
            return raw('bin', '*', a, b)
        x, y = sorted([a, b], key=skey)
        return raw('ac', '*', *ac_flat('*', x, y))
    if op == '**' and is_int(a) and a.args[0] == 2:
        return binop('<<', const(1), b)
    if is_int(a) and is_int(b):
        x, y = a.args[0], b.args[0]
        try:
            if op == '<<' and y < 64:
                return const(x << y)
            if op == '>>' and y < 64:
                return const(x >> y)
            if op == '&':
                return const(x & y)
            if op == '|':
                return const(x | y)
            if op == '//':
                return const(x // y)
            if op == '%':
                return const(x % y)
        except Exception:
            pass
    if op == '<<' and is_int(b) and b.args[0] == 0:
        return a
    if op in ('&', '|', '^'):
        return ac(op, a, b)
    return raw('bin', op, a, b)


def ac_flat(op, *xs):
    out = []
    for x in xs:
        if x.op == 'ac' and x.args[0] == op:
            out += list(x.args[1:])
        else:
            out.append(x)
    return sorted(out, key=skey)


def ac(op, *xs):
    xs = [x for x in xs]
    if any(x.op == 'ite' for x in xs):
        h = hoist('ac', [op, *xs])
        if h is not None:
            return h
    xs = ac_flat(op, *xs)
    if op in ('&', '|'):
        out = []
        for x in xs:
            if not out or out[-1] is not x:
                out.append(x)
        xs = out
    if op in ('|', '^', '+'):
        ys = [x for x in xs if not (is_int(x) and x.args[0] == 0)]
        xs = ys or xs[:1]
    if len(xs) == 1:
        return xs[0]
    return raw('ac', op, *xs)


def unop(op, a):
    if a.op == 'ite':
        h = hoist('un', [op, a])
        if h is not None:
            return h
    if op == '-':
        return neg(a)
    if op == '~':
        if a.op == 'un' and a.args[0] == '~':
            return a.args[1]
    return raw('un', op, a)


CMP_FLIP = {'>': '<', '>=': '<='}


def cmp_(op, a, b):
    if op == '>' or op == '>=':
        a, b, op = b, a, CMP_FLIP[op]
    if op in ('<', '<=') and (a.op == 'set' or b.op == 'set') and a.op in ('set', 'call', 'attr', 'fresh') and b.op in ('set', 'call', 'attr', 'fresh'):
        # a subset
        e, i = fresh(), fresh()
        r = not_(any_(as_list(a).args[0].args[0] if len(as_list(a).args) == 1 and as_list(a).args[0].op == 'spl' else as_list(a), close_lam([e, i], not_(cond(cmp_('in', e, b))))))
        return r if op == '<=' else and_(r, not_(cond(cmp_('==', a, b))))
    if op == 'not in':
        return not_(cond(cmp_('in', a, b)))
    if op == 'is not':
        return not_(cond(cmp_('is', a, b)))
    if a.op == 'ite' or b.op == 'ite':
        h = hoist('cmp', [op, a, b])
        if h is not None:
            return h
    if a.op == 'const' and b.op == 'const':
        x, y = a.args[0], b.args[0]
        try:
            if op == '==':
                return const(x == y)
            if op == '!=':
                return const(x != y)
            if op == '<':
                return const(x < y)
            if op == '<=':
                return const(x <= y)
            if op == 'is':
                return const(a is b)
        except TypeError:
            pass
    if a is b and op in ('is', '=='):
        return TRUE
    if op == 'in':
        if b.op in ('tuple',):
            r = FALSE
            for x in b.args:
                r = or_(r, cond(cmp_('==', a, x)))
            return r
        if b.op in ('lst', 'set', 'tupof'):
            L = b if b.op == 'lst' else b.args[0]
            if all(s.op == 'el' for s in L.args):
                r = FALSE
                for x in L.args:
                    r = or_(r, cond(cmp_('==', a, x.args[0])))
                return r
            if len(L.args) == 1 and L.args[0].op == 'spl':
                return cmp_('in', a, L.args[0].args[0])
        if b.op == 'call' and b.args[0].op == 'glob' and b.args[0].args[0] == 'range' and len(b.args) in (2, 3) and not any(x.op in ('kw', 'star') for x in b.args):
            # a position
            lo = const(0) if len(b.args) == 2 else b.args[1]
            return and_(not_(cond(cmp_('<', a, lo))), cond(cmp_('<', a, b.args[-1])))
        if b.op == 'call' and b.args[0].op == 'attr' and b.args[0].args[1] == 'keys' and len(b.args) == 1:
            return cmp_('in', a, b.args[0].args[0])
        if b.op == 'call' and b.args[0].op == 'glob' and b.args[0].args[0] in ('set', 'list', 'tuple', 'frozenset', 'sorted', 'dict', 'keys') and len(b.args) == 2:
            return cmp_('in', a, b.args[1])
        if b.op == 'dict':
            ks = dict_keys(b)
            if all(s.op == 'el' for s in ks.args):
                r = FALSE
                for x in ks.args:
                    r = or_(r, cond(cmp_('==', a, x.args[0])))
                return r
        return raw('cmp', 'in', a, b)
    if op == 'is':
        for x, y in ((a, b), (b, a)):
            if y.op == 'glob' and x.op in ('attr', 'dattr', 'idx') and SENTINEL[0] is not None and SENTINEL[0](y.args[0]):
                return FALSE
        # keep constants on the right
        if a.op in ('const', 'glob') and b.op not in ('const', 'glob'):
            a, b = b, a
        elif b.op not in ('const', 'glob') and skey(b) < skey(a):
            a, b = b, a
        if a.op in ('tuple', 'lst', 'dict', 'lam', 'lin', 'set', 'lclass') and b is NONE:
            return FALSE
        if (b is NONE or b.op == "glob" and a.op == "attr") and (a.op == 'glob' or a.op == 'attr' and a.args[1] in PROTOCOL):
            return FALSE
        if a.op == 'glob' and b.op == 'glob' and a is not b:
            return FALSE
        if b.op == 'const' and type(b.args[0]) is bool and is_bool(a):
            return cond(a) if b.args[0] else not_(cond(a))
        return raw('cmp', 'is', a, b)
    if op in ('==', '!='):
        ka = [x.op == 'call' and len(x.args) == 1 and x.args[0].op == 'attr' and x.args[0].args[1] == 'keys' for x in (a, b)]
        if any(ka):
            # views of keys are compared as sets
            a, b = [raw('set', lst(raw('spl', x.args[0].args[0]))) if k else x if x.op == 'set' else raw('set', as_list(x)) for k, x in zip(ka, (a, b))]
        if a.op == 'tupof' and b.op == 'tupof':
            return cmp_(op, a.args[0], b.args[0])
        if a.op == 'tuple' and b.op == 'tuple' and op == '==':
            if len(a.args) != len(b.args):
                return FALSE
            r = TRUE
            for x, y in zip(a.args, b.args):
                r = and_(r, cond(cmp_('==', x, y)))
            return r
        if op == '==':
            # linear: move everything to one side only for known integer forms
            if a.op == 'lin' or b.op == 'lin':
                c, d = lin_parts(sub(a, b)) if not (seqlike(a) or seqlike(b)) else (None, None)
                if d is not None:
                    if not d:
                        return const(c == 0)
                    fk = sorted(d, key=skey)[0]
                    if d[fk] < 0:
                        c, d = -c, {t: -k for t, k in d.items()}
                    pos = {t: k for t, k in d.items() if k > 0}
                    ngs = {t: -k for t, k in d.items() if k < 0}
                    a = mk_lin(max(c, 0), pos)
                    b = mk_lin(max(-c, 0), ngs)
        if a.op == 'const' and b.op != 'const':
            a, b = b, a
        elif b.op != 'const' and skey(b) < skey(a):
            a, b = b, a
        return raw('cmp', op, a, b)
    if op in ('<', '<='):
        if (a.op == 'lin' or b.op == 'lin') and not (seqlike(a) or seqlike(b)):
            c, d = lin_parts(sub(b, a))   # 0 < c + d   /  0 <= c + d
            if not d:
                return const(0 < c if op == '<' else 0 <= c)
            pos = {t: k for t, k in d.items() if k > 0}
            ngs = {t: -k for t, k in d.items() if k < 0}
            # integers: a <= b  is  a < b + 1 ; keep canonical with constants on the right
            a = mk_lin(0, ngs)
            b = mk_lin(c, pos)
        # len(x) > 0 <-> len(x) != 0
        if op == '<' and is_int(a) and a.args[0] == 0 and _nonneg(b):
            return not_(cond(cmp_('==', b, const(0))))
        if op == '<=' and is_int(a) and a.args[0] == 1 and _nonneg(b):
            return not_(cond(cmp_('==', b, const(0))))
        if op == '<' and is_int(b) and b.args[0] == 1 and _nonneg(a):
            return cond(cmp_('==', a, const(0)))
        if op == '<=' and is_int(b) and b.args[0] == 0 and _nonneg(a):
            return cond(cmp_('==', a, const(0)))
        # length against constants: use <
        if op == '<=' and is_int(b) and _nonneg(a):
            return cmp_('<', a, const(b.args[0] + 1))
        if op == '<=' and is_int(a) and _nonneg(b):
            return cmp_('<', const(a.args[0] - 1), b)
        return raw('cmp', op, a, b)
    return raw('cmp', op, a, b)


def _nonneg(t):
    return t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] == 'len' or t.op == 'len'


# ---------------------------------------------------------------- sequences
def lst(*segs):
    out = []
    for s in segs:
        if s.op == 'cnd':
            t = unwrap_cnd(s.args[0])
            if t is not s.args[0]:
                s = raw('cnd', t)
            if t.op == 'lst':
                r = lst(*t.args)
                out += list(r.args) if r.op == 'lst' else [raw('cnd', r)]
                continue
            n = _same_length(t)
            if n:
                for j in range(n):
                    out.append(el(map_leaves(t, lambda l: l.args[j].args[0])))
                continue
            if t.op == 'ite':
                n = _common_prefix(t)
                if n:
                    out += next(leaves(t)).args[:n]
                    s = raw('cnd', map_leaves(t, lambda l: raw('lst', *l.args[n:])))
        if s.op == 'spl':
            x = s.args[0]
            if x.op == 'lst':
                out += list(x.args)
                continue
            if x.op == 'tuple':
                out += [el(y) for y in x.args]
                continue
            if x.op == 'tupof':
                out += list(x.args[0].args)
                continue
            if x.op == 'ite' and all(_islistish(l) for l in leaves(x)):
                out.append(raw('cnd', map_leaves(x, as_list)))
                continue
            if x.op == 'scat':
                out += [raw('spl', y) if y.op != 'tuple' else None for y in x.args if y.op != 'tuple'] \
                    if not any(y.op == 'tuple' for y in x.args) else \
                    [z for y in x.args for z in ([el(w) for w in y.args] if y.op == 'tuple' else [raw('spl', y)])]
                continue
        if s.op == 'flat':
            lam = s.args[1]
            # identity comprehension
            if lam.op == 'lam':
                b = lam.args[2]
                if b.op == 'lst' and not b.args:
                    continue
                if b.op == 'lst' and len(b.args) == 1 and b.args[0].op == 'el' and b.args[0].args[0].op == 'bv' \
                        and b.args[0].args[0].args == (lam.args[1], 0):
                    out.append(raw('spl', s.args[0]))
                    continue
        out.append(s)
    return raw('lst', *out)


def app(L, *segs):
    """L followed by segs"""
    if L.op == 'lst':
        return lst(*L.args, *segs)
    if L.op == 'ite' and all(l.op == 'lst' for l in leaves(L)):
        return lst(raw('cnd', L), *segs)
    return lst(raw('spl', L), *segs)


def unwrap_cnd(t):
    """[cnd x] is x"""
    if t.op == 'ite':
        if any(l.op == 'lst' and len(l.args) == 1 and l.args[0].op == 'cnd' for l in leaves(t)):
            return map_leaves(t, unwrap_cnd)
        return t
    if t.op == 'lst' and len(t.args) == 1 and t.args[0].op == 'cnd' and all(l.op == 'lst' for l in leaves(t.args[0].args[0])):
        return unwrap_cnd(t.args[0].args[0])
    return t


def _common_prefix(t):
    """number of leading segments shared by every alternative"""
    n, first = None, None
    for l in leaves(t):
        if l.op != 'lst':
            return 0
        if first is None:
            first, n = l.args, len(l.args)
            continue
        k = 0
        while k < n and k < len(l.args) and l.args[k] is first[k]:
            k += 1
        n = k
        if not n:
            return 0
    return n


def _same_length(t):
    """number of elements if every alternative is a literal list of that length"""
    n = None
    for l in leaves(t):
        if l.op != 'lst' or not l.args or (n is not None and len(l.args) != n) or any(x.op != 'el' for x in l.args):
            return 0
        n = len(l.args)
    return n


def _islistish(t):
    return t.op in ('lst', 'tuple', 'tupof')


def leaves(t):
    if t.op == 'ite':
        yield from leaves(t.args[1])
        yield from leaves(t.args[2])
    else:
        yield t


def map_leaves(t, f):
    if t.op == 'ite':
        return ite(t.args[0], map_leaves(t.args[1], f), map_leaves(t.args[2], f))
    return f(t)


def el(x):
    return raw('el', x)


def as_list(t):
    """a lst term (or decision over lst terms) enumerating iterable t"""
    o = t.op
    if o == 'lst':
        return t
    if o == 'tuple':
        return lst(*[el(x) for x in t.args])
    if o == 'tupof':
        return t.args[0]
    if o == 'dict':
        return dict_keys(t)
    if o == 'set':
        return raw('lst', raw('spl', t))
    if o == 'ite':
        return map_leaves(t, as_list)
    if o == 'call':
        f = t.args[0]
        if f.op == 'attr' and len(t.args) == 1:
            base, m = f.args
            if m == 'keys':
                return as_list(base) if base.op == 'dict' else raw('lst', raw('spl', keysrc(base)))
            if m == 'items':
                if base.op == 'dict':
                    return dict_items(base)
                e = fresh(); i = fresh()
                return lst(flat(keysrc(base), close_lam([e, i], lst(el(raw('tuple', e, idx(base, e)))))))
            if m == 'values':
                if base.op == 'dict':
                    return iterate(dict_items(base), lambda x, i: lst(el(idx(x, const(1)))))
                e = fresh(); i = fresh()
                return lst(flat(keysrc(base), close_lam([e, i], lst(el(idx(base, e))))))
    if o == 'const' and type(t.args[0]) is str:
        return lst(*[el(const(c)) for c in t.args[0]]) if len(t.args[0]) < 8 else raw('lst', raw('spl', t))
    return raw('lst', raw('spl', t))


def keysrc(d):
    return d


def flat(src, lam):
    b = lam.args[2]
    u = unwrap_cnd(b)
    if u is not b:
        lam = raw('lam', lam.args[0], lam.args[1], u)
    if src.op == 'call' and src.args[0].op == 'glob' and src.args[0].args[0] == 'range' and len(src.args) == 3 and not uses_bv(lam):
        # only their number matters
        src = call(glob('range'), binop('-', src.args[2], src.args[1]))
    return raw('flat', src, lam)


def uses_bv(lam):
    fs, b = opened(lam)
    return bool(b.fresh & {f.args[0] for f in fs})


def pos_in(L, n, *rest):
    """position in L of an element of its n-th segment"""
    if not rest and all(s.op == 'el' for s in L.args[:n]):
        return const(n)
    if len(rest) == 1 and len(L.args) == 1:
        return rest[0]
    return raw('posin', L, const(n), *rest)


def iterate(L, body):
    """concatMap: body(elem, pos) -> lst term; L a lst term (or decision)"""
    if L.op == 'ite':
        return map_leaves(L, lambda l: iterate(l, body))
    if L.op != 'lst':
        L = as_list(L)
        if L.op == 'ite':
            return iterate(L, body)
    segs = []
    for n, s in enumerate(L.args):
        if s.op == 'el':
            r = body(s.args[0], pos_in(L, n))
        elif s.op == 'spl':
            e, i = fresh(), fresh()
            note_pos(s.args[0], e, i)
            b = body(e, pos_in(L, n, i))
            r = _flatten_src(s.args[0], [e, i], b)
        elif s.op == 'flat':
            e, i = fresh(), fresh()
            note_pos(s.args[0], e, i)
            inner = apply_lam(s.args[1], [e, i])
            if inner.op == 'lst' and len(inner.args) == 1 and inner.args[0].op == 'el':
                b = body(inner.args[0].args[0], pos_in(L, n, i))
                if b.op != 'lst':
                    b = lst(raw('cnd', b))
            else:
                b = iterate(inner, lambda x, p: body(x, pos_in(L, n, i, p)))
            r = _flatten_src(s.args[0], [e, i], b)
        elif s.op == 'cnd':
            r = iterate(s.args[0], lambda x, p: body(x, pos_in(L, n, p)))
        else:
            r = raw('lst', s)
        if r.op == 'lst':
            segs += list(r.args)
        else:
            segs.append(raw('cnd', r))
    return lst(*segs)


def _flatten_src(src, fs, b):
    # hoist decisions that do not depend on the bound variables
    lam = close_lam(fs, b)
    return lst(flat(src, lam))


POS = {}
ELEM = {}


def note_pos(src, e, i):
    POS[i.args[0]] = (src, e)
    if e.op == 'fresh':
        ELEM[e.args[0]] = src


def distinct(d):
    """no key of a dictionary is written twice, so its items are the entries as written"""
    L = d.args[0]
    if L.op != 'lst':
        return False
    if all(s.op == 'el' and s.args[0].op == 'tuple' and s.args[0].args[0].op in ('const', 'glob') for s in L.args):
        return len({(s.args[0].args[0].op, type(s.args[0].args[0].args[0]).__name__, s.args[0].args[0].args[0]) for s in L.args}) == len(L.args)
    if len(L.args) != 1:
        return False
    s = L.args[0]
    if s.op == 'spl':
        return s.args[0].op == 'items'
    if s.op != 'flat' or s.args[1].op != 'lam':
        return False
    lam = s.args[1]
    if lam.args[2].op != 'lst' or len(lam.args[2].args) != 1:
        return False
    b = lam.args[2].args[0]
    if b.op == 'cnd' and b.args[0].op == 'ite':
        b = b.args[0]
        b = [x for x in b.args[1:] if not (x.op == 'lst' and not x.args)]
        if len(b) != 1 or b[0].op != 'lst' or len(b[0].args) != 1:
            return False
        b = b[0].args[0]
    if b.op != 'el' or b.args[0].op != 'tuple':
        return False
    key = b.args[0].args[0]
    # the element, its position or its first component
    if key.op == 'idx' and key.args[1] is const(0):
        key = key.args[0]
    return key.op == 'bv' and key.args[0] == lam.args[1]


def dict_items(d):
    if not distinct(d):
        e, i = fresh(), fresh()
        return lst(flat(d, close_lam([e, i], lst(el(raw('tuple', e, idx(d, e)))))))
    return d.args[0]


def dict_keys(d):
    if not distinct(d):
        return raw('lst', raw('spl', d))
    return iterate(d.args[0], lambda x, i: lst(el(idx(x, const(0)))))


def len_(t):
    if t.op == 'ite':
        h = hoist('len', [t])
        if h is not None:
            return h
    if t.op == 'tuple':
        return const(len(t.args))
    if t.op == 'tupof':
        return len_(t.args[0])
    if t.op == 'const' and type(t.args[0]) is str:
        return const(len(t.args[0]))
    if t.op == 'lst':
        total = const(0)
        for s in t.args:
            if s.op == 'el':
                total = add(total, const(1))
            elif s.op == 'spl':
                total = add(total, len_(s.args[0]))
            elif s.op == 'flat' and s.args[1].args[2].op == 'lst' and all(x.op == 'el' for x in s.args[1].args[2].args):
                total = add(total, scale(len(s.args[1].args[2].args), len_(s.args[0])))
            else:
                return raw('len', t)
        return total
    if t.op == 'dict':
        return len_(t.args[0]) if distinct(t) else raw('len', t)
    if t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] in ('sorted', 'list', 'tuple', 'reversed', 'enumerate') and len(t.args) >= 2:
        return len_(t.args[1])
    if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] in ('keys', 'items', 'values') and len(t.args) == 1:
        return len_(t.args[0].args[0])
    if t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] == 'range' and len(t.args) == 2:
        return t.args[1]
    return raw('call', glob('len'), t)


def idx(base, key):
    if base.op == 'ite' or key.op == 'ite':
        h = hoist('idx', [base, key])
        if h is not None:
            return h
    if key.op == 'fresh' and key.args[0] in POS:
        src, e = POS[key.args[0]]
        if src is base or base.op == 'lst' and base.args == (raw('spl', src),):
            return e
    if base.op == 'lst' and key.op == 'fresh' and key.args[0] in POS and len(base.args) == 1 and base.args[0].op == 'flat':
        src, e = POS[key.args[0]]
        f = base.args[0]
        if f.args[0] is src:
            b = apply_lam(f.args[1], [e, key])
            if b.op == 'lst' and len(b.args) == 1 and b.args[0].op == 'el':
                return b.args[0].args[0]
    if base.op in ('lst', 'tupof') and (is_int(key) or key.op == 'slice' and base.op == 'lst'):
        L = base if base.op == 'lst' else base.args[0]
        if L.op == 'lst' and len(L.args) == 1 and L.args[0].op == 'flat':
            src, lam = L.args[0].args
            fs, b = opened(lam)
            if b.op == 'lst' and len(b.args) == 1 and b.args[0].op == 'el' and not (len(fs) > 1 and fs[1].args[0] in b.fresh) \
                    and (_unindexable(src) or not occurs(b, raw('idx', src, fs[0]))):
                # the elements correspond: the choice is made among what they are computed from
                x = idx(as_list(src), key)
                if is_int(key):
                    return apply_lam(lam, [x, key]).args[0].args[0]
                return iterate(as_list(x), lambda e, i: apply_lam(lam, [e, i]))
    if is_int(key):
        k = key.args[0]
        if base.op == 'tuple' and -len(base.args) <= k < len(base.args):
            return base.args[k]
        if base.op in ('lst', 'tupof'):
            L = base if base.op == 'lst' else base.args[0]
            if L.op == 'lst':
                if k >= 0 and k < len(L.args) and all(s.op == 'el' for s in L.args[:k + 1]):
                    return L.args[k].args[0]
                if k < 0 and -k <= len(L.args) and all(s.op == 'el' for s in L.args[k:]):
                    return L.args[k].args[0]
                if len(L.args) == 1 and L.args[0].op == 'spl' and base.op == 'lst':
                    return idx(L.args[0].args[0], key) if L.args[0].args[0].op not in ('set', 'dict') and not _unindexable(L.args[0].args[0]) else raw('idx', base, key)
                if len(L.args) == 1 and L.args[0].op == 'spl' and base.op == 'tupof':
                    x = L.args[0].args[0]
                    return idx(x, key) if not _unindexable(x) else raw('idx', base, key)
        if base.op == 'idx' and k >= 0 and base.args[1].op == 'slice' and base.args[1].args[2] is NONE:
            lo, hi = base.args[1].args[:2]
            i = k if lo is NONE else lo.args[0] + k if is_int(lo) and lo.args[0] >= 0 else None
            if i is not None and (hi is NONE or is_int(hi) and i < hi.args[0]):
                return idx(base.args[0], const(i))
        if k < 0 and base.op == 'call' and base.args[0].op == 'glob' and LENGTHS.get(base.args[0].args[0], -1) >= -k:
            return idx(base, const(LENGTHS[base.args[0].args[0]] + k))
        if base.op == 'scat' and base.args[0].op == 'tuple' and 0 <= k < len(base.args[0].args):
            return base.args[0].args[k]
    if base.op == 'dict':
        L = base.args[0]
        # literal lookup, later entries override
        best = None
        ok = True
        for s in reversed(L.args):
            if s.op == 'el' and s.args[0].op == 'tuple':
                c = cond(cmp_('==', s.args[0].args[0], key))
                if c is TRUE:
                    best = s.args[0].args[1]
                    break
                if c is FALSE:
                    continue
                ok = False
                break
            else:
                ok = False
                break
        if best is not None:
            return best
        if not ok and len(L.args) <= 6 and key.op not in ('const', 'glob') and len({x.args[0].args[0].id for x in L.args if x.op == 'el' and x.args[0].op == 'tuple'
                                   and x.args[0].args[0].op in ('const', 'glob')}) == len(L.args):
            r = raw('idx', base, key)
            for x in reversed(L.args):
                r = ite(cond(cmp_('==', x.args[0].args[0], key)), x.args[0].args[1], r)
            return r
        # lookup in {x: V(x) for x in src} of an element of src
        if len(L.args) == 1 and L.args[0].op == 'flat' and key.op == 'fresh' and ELEM.get(key.args[0]) is L.args[0].args[0]:
            e, i = fresh(), fresh()
            b = apply_lam(L.args[0].args[1], [e, i])
            if b.op == 'lst' and len(b.args) == 1 and b.args[0].op == 'el' and b.args[0].args[0].op == 'tuple' \
                    and b.args[0].args[0].args[0] is e and i.args[0] not in b.args[0].args[0].args[1].fresh:
                return apply_lam(L.args[0].args[1], [key, i]).args[0].args[0].args[1]
    if key.op == 'slice' and base.op == 'tuple':
        lo, hi, st = key.args
        if all(x is NONE or is_int(x) for x in key.args):
            v = lambda x: None if x is NONE else x.args[0]
            return raw('tuple', *base.args[v(lo):v(hi):v(st)])
    if key.op == 'slice' and base.op == 'lst' and all(s.op == 'el' for s in base.args):
        lo, hi, st = key.args
        if all(x is NONE or is_int(x) for x in key.args):
            v = lambda x: None if x is NONE else x.args[0]
            return raw('lst', *base.args[v(lo):v(hi):v(st)])
    if key.op == 'slice' and key.args[0] is NONE and key.args[1] is NONE and key.args[2] is NONE:
        return base
    # container indexing through list()/tuple() wrappers of the same sequence
    if base.op == 'lst' and len(base.args) == 1 and base.args[0].op == 'spl' and key.op == 'slice':
        inner = base.args[0].args[0]
        if not _unindexable(inner):
            return raw('idx', inner, key)
    return raw('idx', base, key)


def _unindexable(t):
    """iterating t differs from indexing t (dict views, sets, generators)"""
    if t.op in ('set', 'dict'):
        return True
    if t.op == 'attr' and t.args[1] in ('fields', 'field_dict', '__dict__', '__annotations__'):
        return True
    if t.op in ('call', 'zip', 'bin'):
        f = t.args[0]
        if t.op == 'call' and f.op == 'glob' and f.args[0] in ('sorted',):
            return False
        return True
    return False


def mkslice(lo, hi, step=NONE):
    if is_int(lo) and lo.args[0] == 0:
        lo = NONE
    if is_int(step) and step.args[0] == 1:
        step = NONE
    return raw('slice', lo, hi, step)


def slice_smart(*a):
    if any(x.op == 'ite' for x in a):
        h = hoist('slice', list(a))
        if h is not None:
            return h
    return mkslice(*a)


def attr(base, name):
    if base.op == 'ite':
        h = hoist('attr', [base, name])
        if h is not None:
            return h
    if base.op == 'slice':
        if name == 'start':
            return base.args[0] if base.args[0] is not NONE else const(0)
        if name == 'stop':
            return base.args[1]
    if base.op == 'glob':
        return glob(base.args[0] + '.' + name)
    if name == '__getitem__' and base.op != 'super':
        p = fresh()
        return raw('fnv', 'p', close_lam([p], raw('RET', idx(base, p))))
    if base.op == 'ns':
        for k in base.args:
            if k.args[0] == name:
                return k.args[1]
    return raw('attr', base, name)


TUPLES = set()
SENTINEL = [None]     # is the global a mark nothing else holds
LENGTHS = {}     # the length of the tuple a function returns
DEFAULTS = {}    # constant defaults of the parameters of functions
BOOLS = set()     # parameters with a truth value as default
DICTS = set()     # the keyword arguments of a function     # symbols known to be tuples (*args parameters)


PROTOCOL = {'_peak_', '_poke_'}     # members of a protocol are methods where they are present


def tupof(L):
    if L.op == 'ite':
        return map_leaves(L, tupof)
    if L.op == 'lst' and all(s.op == 'el' for s in L.args):
        return raw('tuple', *[s.args[0] for s in L.args])
    if L.op == 'lst' and len(L.args) == 1 and L.args[0].op == 'spl' and (L.args[0].args[0].id in TUPLES or L.args[0].args[0].op == 'tupof'):
        return L.args[0].args[0]
    if L.op == 'lst' and len(L.args) == 1 and L.args[0].op == 'spl' and L.args[0].args[0].op == 'idx' \
            and L.args[0].args[0].args[1].op == 'slice' and L.args[0].args[0].args[0].op == 'idx':
        # what a starred target collected of a path, back as a tuple: paths are tuples
        return L.args[0].args[0]
    return raw('tupof', L)


def call(f, *args):
    if f.op == 'ite' or any(isinstance(a, T) and (a.op == 'ite' or a.op in ('kw', 'star', 'dstar') and a.args[-1].op == 'ite') for a in args):
        h = _hoist_call(f, args)
        if h is not None:
            return h
    if any(isinstance(a, T) and a.op == 'star' and a.args[0].op == 'tupof' for a in args):
        args = tuple(raw('star', a.args[0].args[0]) if isinstance(a, T) and a.op == 'star' and a.args[0].op == 'tupof' else a for a in args)
    if f.op == 'glob' and f.args[0] in DEFAULTS and any(x.op == 'kw' for x in args):
        d = DEFAULTS[f.args[0]]
        args = [x for x in args if not (x.op == 'kw' and d.get(x.args[0]) is x.args[1])]
    if f.op == 'attr' and f.args[1] in ('startswith', 'endswith') and len(args) == 1 and is_const(args[0], str) and args[0].args[0]:
        n = len(args[0].args[0])
        lo, hi = (NONE, const(n)) if f.args[1] == 'startswith' else (const(-n), NONE)
        return cmp_('==', idx(f.args[0], mkslice(lo, hi)), args[0])
    return raw('call', f, *args)


def _hoist_call(f, args):
    n = 1
    first = None
    for a in (f,) + tuple(args):
        b = a.args[-1] if a.op in ('kw', 'star', 'dstar') else a
        if b.op == 'ite':
            n *= _leafcount(b)
            if first is None or atom_key(b.args[0]) < atom_key(first):
                first = b.args[0]
    if first is None or n > HOIST_LIMIT:
        return None
    r = []
    for v in (True, False):
        r.append(call(cofactor(f, first, v), *[cofactor(a, first, v) for a in args]))
    return ite(first, r[0], r[1])


def strict(op):
    def mk(*args):
        h = hoist(op, list(args))
        if h is not None:
            return h
        return raw(op, *args)
    return mk


def any_(src, lam):
    """exists e in src. lam(e); lam body is a boolean diagram"""
    b = lam.args[2]
    if b is FALSE:
        return FALSE
    return _atom(raw('any', src, lam))


def any_list(L):
    """any truthy in list term"""
    if L.op == 'ite':
        return map_leaves(L, any_list)
    r = FALSE
    for s in L.args:
        if s.op == 'el':
            r = or_(r, cond(s.args[0]))
        elif s.op == 'cnd':
            r = or_(r, any_list(s.args[0]))
        elif s.op == 'spl':
            e, i = fresh(), fresh()
            r = or_(r, any_(s.args[0], close_lam([e, i], cond(e))))
        elif s.op == 'flat':
            e, i = fresh(), fresh()
            note_pos(s.args[0], e, i)
            r = or_(r, any_(s.args[0], close_lam([e, i], any_list(apply_lam(s.args[1], [e, i])))))
    return r


def red(op, init, L):
    """reduction of list L with associative commutative python operator op"""
    if L.op == 'ite':
        return map_leaves(L, lambda l: red(op, init, l))
    if init.op == 'ite':
        return map_leaves(init, lambda l: red(op, l, L))
    if op == '+' and any(seqlike(s.args[0]) for s in L.args if s.op == 'el') or op == '+' and seqlike(init):
        r = as_list(init) if init.op != 'const' else None
        if r is not None and r.op == 'lst':
            return app(r, raw('spl', iterate(L, lambda x, i: as_list(x))))
    if all(s.op == 'el' for s in L.args) and L.args:
        r = init
        for s in L.args:
            x = s.args[0]
            if r is NONE:
                r = x
            elif op in ('&', '|', '^', '+', '*'):
                r = binop(op, r, x)
            elif op == 'and':
                r = ite(cond(r), x, r) if not is_bool(r) else ite(r, x, FALSE)
            elif op == 'or':
                r = ite(cond(r), r, x)
            else:
                r = raw('ac', op, *ac_flat(op, r, x))
        return r
    if not L.args:
        return init
    return raw('red', op, init, L)


def red_smart(op, init, L):
    return red(op, init, L)


_SMART = {
    'ite': lambda c, a, b: ite(c if c.op == 'const' or c.op == 'ite' else cond(c), a, b),
    'lin': lin_smart,
    'add': add,
    'sub': sub,
    'scale': scale,
    'bin': binop,
    'ac': ac,
    'un': unop,
    'cmp': cmp_,
    'lst': lst,
    'idx': idx,
    'slice': slice_smart,
    'attr': attr,
    'call': call,
    'scat': lambda *a: scat(*a),
    'tupof': tupof,
    'red': red_smart,
    'len': len_,
    'isinst': strict('isinst'),
    'issub': strict('issub'),
    'setitem': strict('setitem'),
    'delitem': strict('delitem'),
    'setdefault': strict('setdefault'),
    'has': strict('has'),
    'truth': lambda a: cond(a),
    'any': lambda s, l: any_(s, l),
    'flat': flat,
}
