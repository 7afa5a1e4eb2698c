"""Parsing and name resolution for the analysed package (nothing is imported)."""
import ast
import os

REPO = os.environ.get('PV_REPO', '/repo')

EXT_CANON = {}


def canon_ext(name):
    p = name.split('.')
    if p[0] == 'hwtypes' and len(p) >= 3 and p[1] in ('adt', 'adt_meta', 'adt_util', 'modifiers', 'fp_vector_abc',
                                                      'bit_vector', 'bit_vector_abc', 'smt_bit_vector', 'fp_vector',
                                                      'smt_fp_vector', 'type_family'):
        return 'hwtypes.' + '.'.join(p[2:])
    if p[0] == 'pysmt' and p[1:2] == ['shortcuts']:
        return name
    return name


class Missing(Exception):
    pass


class Class:
    def __init__(self, mod, node, qual):
        self.mod = mod
        self.node = node
        self.qual = qual
        self.body = {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.body[s.name] = s
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.body[t.id] = s
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.body[s.target.id] = s


class Module:
    def __init__(self, prog, name, path, src=None, package=None):
        self.prog = prog
        self.name = name
        self.path = path
        self.rel = os.path.relpath(path, REPO) if path.startswith(REPO + os.sep) else path
        if src is None:
            with open(path) as f:
                src = f.read()
        self.src = src
        self.tree = ast.parse(src, path)
        self.is_pkg = path.endswith('__init__.py')
        self.package = package if package is not None else (name if self.is_pkg else name.rpartition('.')[0])
        self.defs = {}      # name -> ('func', node) | ('class', Class) | ('import', dotted) | ('assign', expr) | ('multi', ...)
        self.star = []
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.defs[s.name] = ('func', s)
            elif isinstance(s, ast.ClassDef):
                self.defs[s.name] = ('class', Class(self, s, self.name + '.' + s.name))
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for n, d in import_bindings(s, self.package):
                    if n == '*':
                        self.star.append(d)
                    else:
                        self.defs[n] = ('import', d)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        if t.id in self.defs and self.defs[t.id][0] in ('assign', 'multi'):
                            self.defs[t.id] = ('multi', s.value)
                        else:
                            self.defs[t.id] = ('assign', s.value)
                    elif isinstance(t, ast.Tuple):
                        for e in t.elts:
                            if isinstance(e, ast.Name):
                                self.defs[e.id] = ('multi', s.value)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.defs[s.target.id] = ('assign', s.value)
            elif isinstance(s, (ast.If, ast.Try)):
                self._scan(s.body)
                for h in getattr(s, 'handlers', []):
                    self._scan(h.body)
                self._scan(s.orelse)
                self._scan(getattr(s, 'finalbody', []))


def import_bindings(s, package):
    if isinstance(s, ast.Import):
        for a in s.names:
            if a.asname:
                yield a.asname, a.name
            else:
                yield a.name.split('.')[0], a.name.split('.')[0]
    else:
        if s.level:
            p = package.split('.')
            if s.level > 1:
                p = p[:-(s.level - 1)]
            base = '.'.join(p + ([s.module] if s.module else []))
        else:
            base = s.module
        for a in s.names:
            if a.name == '*':
                yield '*', base
            else:
                yield (a.asname or a.name), base + '.' + a.name


class Program:
    def __init__(self, repo=REPO, pkg='peak'):
        self.repo = repo
        self.modules = {}
        self.errors = []
        root = os.path.join(repo, pkg)
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x != '__pycache__')
            for f in sorted(fs):
                if f.endswith('.py'):
                    path = os.path.join(d, f)
                    rel = os.path.relpath(path, repo)[:-3].replace(os.sep, '.')
                    name = rel[:-9] if rel.endswith('.__init__') else rel
                    try:
                        self.modules[name] = Module(self, name, path)
                    except SyntaxError as e:
                        self.errors.append((path, e))
        self._cache = {}

    def add_virtual_src(self, name, src):
        m = Module(self, name, '<' + name + '>', src=src, package='')
        self.modules[name] = m
        return m

    def add_virtual(self, name, path):
        m = Module(self, name, path, package='specs')
        self.modules[name] = m
        return m

    # resolve a dotted name to ('mod', Module)|('func', Module, node)|('class', Class)|('assign', Module, name, expr)|('ext', dotted)
    def resolve(self, dotted, seen=()):
        r = self._cache.get(dotted)
        if r is None:
            r = self._resolve(dotted, seen)
            self._cache[dotted] = r
        return r

    def _resolve(self, dotted, seen=()):
        if dotted in seen:
            return ('ext', dotted)
        seen = seen + (dotted,)
        if dotted in self.modules:
            # a package attribute imported over a submodule of the same name wins only if defined
            return ('mod', self.modules[dotted])
        parts = dotted.split('.')
        for i in range(len(parts) - 1, 0, -1):
            pre = '.'.join(parts[:i])
            if pre in self.modules:
                m = self.modules[pre]
                rest = parts[i:]
                return self._member(m, rest, dotted, seen)
        return ('ext', canon_ext(dotted))

    def _member(self, m, rest, dotted, seen):
        n = rest[0]
        d = m.defs.get(n)
        if d is None:
            for s in m.star:
                sm = self.modules.get(s)
                if sm is not None:
                    r = self._member(sm, rest, dotted, seen)
                    if r[0] != 'ext' or not r[1].startswith('?'):
                        return r
            return ('ext', '?' + dotted)
        k = d[0]
        if k == 'import':
            t = d[1]
            if t == m.name + '.' + n and t in self.modules:
                return ('mod', self.modules[t]) if len(rest) == 1 else self.resolve('.'.join([t] + rest[1:]), seen)
            r = self.resolve('.'.join([t] + rest[1:]), seen)
            return r
        if k == 'func':
            if len(rest) > 1:
                return ('ext', dotted)
            return ('func', m, d[1])
        if k == 'class':
            c = d[1]
            if len(rest) == 1:
                return ('class', c)
            return ('member', c, rest[1:])
        if len(rest) > 1:
            return ('ext', dotted)
        return (k, m, n, d[1])

    def lookup(self, mod, name):
        """resolve a bare global name used in module mod"""
        d = mod.defs.get(name)
        if d is not None or mod.star:
            r = self._member(mod, [name], mod.name + '.' + name, ())
            if not (r[0] == 'ext' and r[1].startswith('?')):
                return r
        return None

    def func(self, qual):
        """'mod:fn' or 'mod:Class.meth' -> (Module, node, Class|None)"""
        mod, _, q = qual.partition(':')
        m = self.modules.get(mod)
        if m is None:
            raise Missing('module ' + mod)
        parts = q.split('.')
        d = m.defs.get(parts[0])
        if d is None:
            raise Missing(qual)
        if d[0] == 'import':
            r = self.resolve(d[1])
            if r[0] == 'func':
                return r[1], r[2], None
            if r[0] == 'class':
                d = ('class', r[1])
                m = r[1].mod
        if d[0] == 'func' and len(parts) == 1:
            return m, d[1], None
        if d[0] == 'class' and len(parts) == 2:
            c, n = self.find_method(d[1], parts[1])
            if n is not None and isinstance(n, ast.FunctionDef):
                return c.mod, n, d[1]
        raise Missing(qual)

    def bases(self, c):
        out = []
        for b in c.node.bases:
            dn = dotted_of(b)
            if dn is None:
                continue
            head, _, rest = dn.partition('.')
            r = self.lookup(c.mod, head)
            if r is None:
                continue
            if rest:
                if r[0] == 'mod':
                    r = self.resolve(r[1].name + '.' + rest)
                elif r[0] == 'ext':
                    r = ('ext', canon_ext(r[1] + '.' + rest))
            out.append(r)
        return out

    def mro(self, c):
        """linearisation (C3) over repo classes; externals dropped"""
        key = ('mro', c.qual, id(c))
        if key in self._cache:
            return self._cache[key]
        bs = [r[1] for r in self.bases(c) if r[0] == 'class']
        seqs = [list(self.mro(b)) for b in bs] + [list(bs)]
        out = [c]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                cand = s[0]
                if not any(cand in t[1:] for t in seqs):
                    break
            else:
                break
            out.append(cand)
            for s in seqs:
                if s[0] is cand:
                    del s[0]
        self._cache[key] = out
        return out

    def ext_bases(self, c):
        out = []
        for k in self.mro(c):
            out += [r[1] for r in self.bases(k) if r[0] == 'ext']
        return out

    def is_enum(self, c):
        return any(b in ('hwtypes.Enum', 'enum.Enum', 'enum.IntEnum') for b in self.ext_bases(c))

    def subclasses(self, c):
        """the classes of the repository that inherit from c"""
        key = ('subs', c.qual, id(c))
        if key not in self._cache:
            self._cache[key] = [d[1] for m in list(self.modules.values()) if not m.name.startswith('specs') for d in m.defs.values()
                                if d[0] == 'class' and d[1] is not c and c in self.mro(d[1])]
        return self._cache[key]

    def find_method(self, c, name, after=None):
        mro = self.mro(c)
        if after is not None:
            i = mro.index(after) + 1 if after in mro else 0
            mro = mro[i:]
        for k in mro:
            if name in k.body:
                return k, k.body[name]
        return None, None


def dotted_of(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted_of(e.value)
        return None if b is None else b + '.' + e.attr
    return None
