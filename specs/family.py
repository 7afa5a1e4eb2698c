"""Families: the interpretation of the primitive types and of assemble."""
from ast_tools.passes import apply_passes, ssa, bool_to_bit, if_to_phi
from ast_tools import SymbolTable
import hwtypes
from hwtypes import Product
from hwtypes.modifiers import strip_modifiers
import magma as m
from peak.assembler import Assembler, AssembledADT, MagmaADT
from peak.black_box import BlackBox
from peak.family import AbstractFamily, _compose, _REG_CACHE, _ATTR_REG_CACHE


@spec(actual='peak.family:_compose', props=['C01'])
def compose(f, g):
    return lambda *args, **kwargs: f(g(*args, **kwargs))


# ---------------------------------------------------------------- equality

@spec(actual='peak.family:AbstractFamily.__eq__', props=['C02', 'C03'])
def base_eq(self, other):
    """families of the same kind are interchangeable"""
    if type(other) is type(self):
        return True
    return NotImplemented


@spec(actual='peak.family:AbstractFamily.__ne__', props=['C02'])
def base_ne(self, other):
    eq = self == other
    if eq is NotImplemented:
        return NotImplemented
    return not eq


@spec(actual='peak.family:AbstractFamily.__hash__', props=['C02', 'C03'])
def base_hash(self):
    return 0


@spec(actual='peak.family:_AsmFamily.__eq__', props=['C02', 'C03'])
def asm_eq(self, other):
    """also the same assembler, wrapper and extra parameters"""
    if type(other) is type(self):
        return (self._assembler == other._assembler
                and self._aadt_t == other._aadt_t
                and self._asm_extras == other._asm_extras)
    return NotImplemented


@spec(actual='peak.family:_AsmFamily.__hash__', props=['C02', 'C03'])
def asm_hash(self):
    return 2 * hash(self._assembler) + 3 * hash(self._aadt_t) + 5 * hash(self._asm_extras)


@spec(actual='peak.family:_RewriterFamily.__eq__', props=['C02'])
def rw_eq(self, other):
    if type(other) is type(self):
        return self._passes == other._passes
    return NotImplemented


@spec(actual='peak.family:_RewriterFamily.__hash__', props=['C02'])
def rw_hash(self):
    return hash(self._passes)


# ---------------------------------------------------------------- ADTs

@spec(actual='peak.family:_AsmFamily.__init__', props=['C01', 'C02'])
def asm_init(self, assembler, aadt_t, asm_extras=(), **kwargs):
    super().__init__(**kwargs)
    self._assembler = assembler
    self._aadt_t = aadt_t
    self._asm_extras = asm_extras


@spec(actual='peak.family:_AsmFamily.get_adt_t', props=['C01', 'A06'])
def asm_get_adt_t(self, adt_t):
    """primitives stay themselves, ADTs are wrapped with this family's vector type"""
    if issubclass(adt_t, (self.Bit, self.BitVector)):
        return adt_t
    if not hwtypes.is_adt_type(adt_t):
        raise TypeError()
    return self._aadt_t[(adt_t, self._assembler, self.BitVector, *self._asm_extras)]


@spec(actual='peak.family:_AsmFamily.get_constructor', props=['C01', 'B01'])
def asm_get_constructor(self, adt_t):
    return self.get_adt_t(adt_t).from_fields


@spec(actual='peak.family:PyFamily.get_adt_t', props=['C01'])
def py_get_adt_t(self, adt_t):
    return adt_t


@spec(actual='peak.family:PyFamily.get_constructor', props=['C01'])
def py_get_constructor(self, adt_t):
    return adt_t


# ---------------------------------------------------------------- primitive types

@spec(actual='peak.family:PyFamily.Bit', props=['C01'])
def py_bit(self):
    return hwtypes.Bit


@spec(actual='peak.family:PyFamily.BitVector', props=['C01'])
def py_bv(self):
    return hwtypes.BitVector


@spec(actual='peak.family:PyFamily.Signed', props=['C01'])
def py_signed(self):
    return hwtypes.SIntVector


@spec(actual='peak.family:PyFamily.Unsigned', props=['C01'])
def py_unsigned(self):
    return hwtypes.UIntVector


@spec(actual='peak.family:SMTFamily.Bit', props=['C01'])
def smt_bit(self):
    return hwtypes.SMTBit


@spec(actual='peak.family:SMTFamily.BitVector', props=['C01'])
def smt_bv(self):
    return hwtypes.SMTBitVector


@spec(actual='peak.family:SMTFamily.Signed', props=['C01'])
def smt_signed(self):
    return hwtypes.SMTSIntVector


@spec(actual='peak.family:SMTFamily.Unsigned', props=['C01'])
def smt_unsigned(self):
    return hwtypes.SMTUIntVector


@spec(actual='peak.family:MagmaFamily.Bit', props=['C01'])
def m_bit(self):
    return m.Bit


@spec(actual='peak.family:MagmaFamily.BitVector', props=['C01'])
def m_bv(self):
    return m.Bits


@spec(actual='peak.family:MagmaFamily.Signed', props=['C01'])
def m_signed(self):
    return m.SInt


@spec(actual='peak.family:MagmaFamily.Unsigned', props=['C01'])
def m_unsigned(self):
    return m.UInt


# ---------------------------------------------------------------- assemble

@spec(actual='peak.family:AbstractFamily.assemble', props=['C01'])
def base_assemble(self, locals, globals, **kwargs):
    """no transformation"""
    def deco(cls):
        return cls
    return deco


@spec(actual='peak.family:AbstractFamily.compile', props=['C01'])
def base_compile(self, locals, globals, **kwargs):
    return self.assemble(locals, globals, **kwargs)


@spec(actual='peak.family:PyFamily.assemble', props=['C01'])
def py_assemble(self, locals, globals, **kwargs):
    return super().assemble(locals, globals, **kwargs)


@spec(actual='peak.family:_RewriterFamily.__init__', props=['C01', 'C02'])
def rw_init(self, passes=(), **kwargs):
    super().__init__(**kwargs)
    self._passes = passes


@spec(actual='peak.family:_RewriterFamily.assemble', props=['C01'])
def rw_assemble(self, locals, globals, **kwargs):
    """the passes run on __call__, once, after the inherited step"""
    env = SymbolTable(locals, globals)
    inner = super().assemble(locals, globals, **kwargs)

    def deco(cls):
        if not self._passes:
            return cls
        cls.__call__ = apply_passes(self._passes, env=env)(cls.__call__)
        return cls
    return _compose(deco, inner)


@spec(actual='peak.family:_StdMix.__init__', props=['C01', 'C02'])
def std_init(self, assembler=None, **kwargs):
    """single assignment form first, then conditions to bits, then ifs to phis"""
    if assembler is None:
        assembler = Assembler
    super().__init__(assembler, AssembledADT,
                     passes=(ssa(), bool_to_bit(), if_to_phi(self.Bit.ite)), **kwargs)


@spec(actual='peak.family:_StdMix.assemble', props=['C01'])
def std_assemble(self, locals, globals, **kwargs):
    """the declared interface survives the rewrite"""
    inner = super().assemble(locals, globals, **kwargs)

    def deco(cls):
        inp = cls.__call__._input_t
        out = cls.__call__._output_t
        new = inner(cls)
        new.__call__._input_t = inp
        new.__call__._output_t = out
        return new
    return deco


@spec(actual='peak.family:SMTFamily.assemble', props=['C01', 'F02'])
def smt_assemble(self, locals, globals, **kwargs):
    inner = super().assemble(locals, globals, **kwargs)

    def deco(cls):
        inp = cls.__call__._input_t
        out = cls.__call__._output_t
        new = inner(cls)
        new.__call__._input_t = inp
        new.__call__._output_t = out
        return new
    return deco


@spec(actual='peak.family:_BBFamily.assemble', props=['F02', 'F01'])
def bb_assemble(self, locals, globals, **kwargs):
    """black boxes get a call that records instead of computing"""
    inner = super().assemble(locals, globals, **kwargs)

    def deco(cls):
        if issubclass(cls, BlackBox):
            cls.create_call()
        return cls
    return _compose(deco, inner)


@spec(actual='peak.family:MagmaFamily.__init__', props=['C01', 'C02'])
def m_init(self, assembler=None, **kwargs):
    if assembler is None:
        assembler = Assembler
    super().__init__(assembler, MagmaADT, (m.Direction.Undirected,), **kwargs)


@spec(actual='peak.family:MagmaFamily.assemble', props=['C01'])
def m_assemble(self, locals, globals, set_port_names=False, **kwargs):
    """every annotation becomes the circuit type of the same kind, size and
    signedness"""
    def convert(T):
        if isinstance(T, tuple):
            return tuple(convert(t) for t in T)
        T = strip_modifiers(T)
        if hwtypes.is_adt_type(T):
            return self.get_adt_t(T)
        if issubclass(T, hwtypes.AbstractBitVector):
            own = T.get_family()
            if issubclass(T, own.Signed):
                return self.Signed[T.size]
            if issubclass(T, own.Unsigned):
                return self.Unsigned[T.size]
            return self.BitVector[T.size]
        if issubclass(T, hwtypes.AbstractBit):
            return self.Bit
        return T
    env = SymbolTable(locals, globals)
    inner = super().assemble(locals, globals, **kwargs)

    def deco(cls):
        call = cls.__call__
        out = getattr(call, '_output_t', None)
        extra = {}
        if out is not None and issubclass(out, Product) and set_port_names:
            extra['output_port_names'] = tuple(out.field_dict.keys())
        annotations = {}
        for arg, T in call.__annotations__.items():
            annotations[arg] = convert(T)
        return m.sequential2(env=env, annotations=annotations, reset_type=m.AsyncReset, **extra)(cls)
    return _compose(deco, inner)


# ---------------------------------------------------------------- registers

@spec(actual='peak.family:_RegFamily.gen_register', props=['D01', 'C03'])
def gen_register(self, T, init, has_enable=True):
    """returns the value before the call; keeps the input when enabled"""
    from peak import Peak
    cls = type(self)
    key = (cls, T, init, has_enable)
    if key in _REG_CACHE:
        return _REG_CACHE[key]
    family = self
    if has_enable:
        @family.assemble(locals(), globals())
        class Register(Peak, cls.RegBase):
            def __init__(self):
                self.value = T(init)

            def __call__(self, value: T, en: family.Bit) -> T:
                before = self.value
                if en:
                    self.value = value
                return before

            def prev(self) -> T:
                return self.value
    else:
        @family.assemble(locals(), globals())
        class Register(Peak, cls.RegBase):
            def __init__(self):
                self.value = T(init)

            def __call__(self, value: T) -> T:
                before = self.value
                self.value = value
                return before

            def prev(self) -> T:
                return self.value
    return _REG_CACHE.setdefault(key, Register)


@spec(actual='peak.family:_RegFamily.gen_attr_register', props=['D02', 'C03'])
def gen_attr_register(self, T, init):
    from peak import Peak
    cls = type(self)
    key = (cls, T, init)
    if key in _ATTR_REG_CACHE:
        return _ATTR_REG_CACHE[key]
    family = self

    class Register(Peak, cls.AttrRegBase):
        def __init__(self):
            self.value = T(init)

        def _poke_(self, value):
            if not isinstance(value, T):
                raise TypeError()
            self.value = value

        def _peak_(self):
            return self.value
    return _ATTR_REG_CACHE.setdefault(key, Register)


@spec(actual='peak.family:MagmaFamily.gen_register', props=['D01'])
def m_gen_register(self, T, init, has_enable=True):
    return m.Register(T, init, has_enable=has_enable, reset_type=m.AsyncReset,
                      name_map=m.generator.ParamDict(CE='en', I='value'))


@spec(actual='peak.family:MagmaFamily.gen_attr_register', props=['D02'])
def m_gen_attr_register(self, T, init):
    return m.Register(T, init, has_enable=False, reset_type=m.AsyncReset)


# ---------------------------------------------------------------- which base a method comes from


@spec(actual='peak.family:SMTFamily.__eq__', props=['C02', 'C03'])
def smtfamily_eq(self, other):
    if type(other) is type(self):
        return (self._assembler == other._assembler
                and self._aadt_t == other._aadt_t
                and self._asm_extras == other._asm_extras)
    return NotImplemented



@spec(actual='peak.family:SMTFamily.__hash__', props=['C02', 'C03'])
def smtfamily_hash(self):
    return 2 * hash(self._assembler) + 3 * hash(self._aadt_t) + 5 * hash(self._asm_extras)


@spec(actual='peak.family:SMTFamily.get_adt_t', props=['C01'])
def smtfamily_adt(self, adt_t):
    if issubclass(adt_t, (self.Bit, self.BitVector)):
        return adt_t
    if not hwtypes.is_adt_type(adt_t):
        raise TypeError()
    return self._aadt_t[(adt_t, self._assembler, self.BitVector, *self._asm_extras)]


@spec(actual='peak.family:SMTFamily.get_constructor', props=['C01', 'B01'])
def smtfamily_con(self, adt_t):
    return self.get_adt_t(adt_t).from_fields


@spec(actual='peak.family:PyXFamily.__eq__', props=['C02', 'C03'])
def pyxfamily_eq(self, other):
    if type(other) is type(self):
        return (self._assembler == other._assembler
                and self._aadt_t == other._aadt_t
                and self._asm_extras == other._asm_extras)
    return NotImplemented



@spec(actual='peak.family:PyXFamily.__hash__', props=['C02', 'C03'])
def pyxfamily_hash(self):
    return 2 * hash(self._assembler) + 3 * hash(self._aadt_t) + 5 * hash(self._asm_extras)


@spec(actual='peak.family:PyXFamily.get_adt_t', props=['C01'])
def pyxfamily_adt(self, adt_t):
    if issubclass(adt_t, (self.Bit, self.BitVector)):
        return adt_t
    if not hwtypes.is_adt_type(adt_t):
        raise TypeError()
    return self._aadt_t[(adt_t, self._assembler, self.BitVector, *self._asm_extras)]


@spec(actual='peak.family:PyXFamily.get_constructor', props=['C01', 'B01'])
def pyxfamily_con(self, adt_t):
    return self.get_adt_t(adt_t).from_fields


@spec(actual='peak.family:MagmaFamily.__eq__', props=['C02', 'C03'])
def magmafamily_eq(self, other):
    if type(other) is type(self):
        return (self._assembler == other._assembler
                and self._aadt_t == other._aadt_t
                and self._asm_extras == other._asm_extras)
    return NotImplemented



@spec(actual='peak.family:MagmaFamily.__hash__', props=['C02', 'C03'])
def magmafamily_hash(self):
    return 2 * hash(self._assembler) + 3 * hash(self._aadt_t) + 5 * hash(self._asm_extras)


@spec(actual='peak.family:MagmaFamily.get_adt_t', props=['C01'])
def magmafamily_adt(self, adt_t):
    if issubclass(adt_t, (self.Bit, self.BitVector)):
        return adt_t
    if not hwtypes.is_adt_type(adt_t):
        raise TypeError()
    return self._aadt_t[(adt_t, self._assembler, self.BitVector, *self._asm_extras)]


@spec(actual='peak.family:MagmaFamily.get_constructor', props=['C01', 'B01'])
def magmafamily_con(self, adt_t):
    return self.get_adt_t(adt_t).from_fields


@spec(actual='peak.family:PyFamily.__eq__', props=['C02', 'C03'])
def pyfamily_eq(self, other):
    if type(other) is type(self):
        return True
    return NotImplemented


@spec(actual='peak.family:PyFamily.__hash__', props=['C02', 'C03'])
def pyfamily_hash(self):
    return 0


@spec(actual='peak.family:PyXFamily.Bit', props=['C01'])
def pyxfamily_bit(self):
    return hwtypes.Bit


@spec(actual='peak.family:PyXFamily.BitVector', props=['C01'])
def pyxfamily_bv(self):
    return hwtypes.BitVector

