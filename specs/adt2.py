"""Second generation assembled ADTs (peak.assembler2.assembled_adt)."""
import operator
from hwtypes import AbstractBitVector, AbstractBit
from hwtypes.adt import Enum, Product, Sum, Tuple, TaggedUnion
from hwtypes.modifiers import is_modified
import magma as m
from peak.assembler2.assembler_util import _issubclass
from peak.assembler2.assembled_adt import AssembledADT, _MISSING


@spec(actual='peak.assembler2.assembled_adt:AssembledADTMeta.__init__', props=['B01', 'A06'])
def meta_init(cls, name, bases, namespace, **kwargs):
    if not cls.is_bound:
        return
    cls._assembler_ = cls.assembler_t(cls.adt_t)
    if is_modified(cls.adt_t):
        raise TypeError()


@spec(actual='peak.assembler2.assembled_adt:AssembledADTMeta.__getitem__', props=['B03'])
def meta_getitem(cls, key):
    """the wrapper of a subtype keeps kind, size and signedness"""
    if cls.is_bound:
        return cls.unbound_t[(cls.adt_t[key], *cls.fields[1:])]
    T = key[0]
    fam = key[2].get_family()
    if _issubclass(T, AbstractBit):
        return fam.Bit
    if _issubclass(T, AbstractBitVector):
        own = T.get_family()
        if issubclass(T, own.Signed):
            return fam.Signed[T.size]
        if issubclass(T, own.Unsigned):
            return fam.Unsigned[T.size]
        return fam.BitVector[T.size]
    return super().__getitem__(key)


@spec(actual='peak.assembler2.assembled_adt:AssembledADTMeta.__getattr__', props=['B03', 'A06'])
def meta_getattr(cls, attr):
    val = getattr(cls.adt_t, attr, _MISSING)
    if val is _MISSING:
        raise AttributeError()
    return cls.unbound_t[(val, *cls.fields[1:])]


@spec(actual='peak.assembler2.assembled_adt:AssembledADTMeta.__contains__', props=['B03'])
def meta_contains(cls, T):
    return T in cls.adt_t


@spec(actual='peak.assembler2.assembled_adt:AssembledADTMeta.adt_t', props=['B03'])
def meta_adt_t(cls):
    return cls.fields[0]


@spec(actual='peak.assembler2.assembled_adt:AssembledADTMeta.assembler_t', props=['B03'])
def meta_assembler_t(cls):
    return cls.fields[1]


@spec(actual='peak.assembler2.assembled_adt:AssembledADTMeta.bv_type', props=['B03'])
def meta_bv_type(cls):
    return cls.fields[2]


@spec(actual='peak.assembler2.assembled_adt:AssembledADTMeta._is_valid_', props=['A03'])
def meta_is_valid(cls, opcode):
    return cls._assembler_.is_valid(opcode)


@spec(actual='peak.assembler2.assembled_adt:AssembledADTMeta._bitvector_t_', props=['B03', 'B01'])
def meta_bitvector_t(cls):
    return cls.bv_type[cls._assembler_.width]


@spec(actual='peak.assembler2.assembled_adt:AssembledADT.__init__', props=['B01', 'A06'])
def init(self, adt):
    cls = type(self)
    asm = cls._assembler_
    if isinstance(adt, cls):
        self._value_ = adt._value_
    elif isinstance(adt, cls.adt_t):
        self._value_ = asm.assemble(adt, cls.bv_type)
    elif isinstance(adt, cls.bv_type[asm.width]):
        self._value_ = adt
    else:
        raise TypeError()


@spec(actual='peak.assembler2.assembled_adt:AssembledADT.__getitem__', props=['B01', 'A06'],
      opaque=['peak.assembler2.assembled_adt.AssembledADT._get'])
def getitem(self, key):
    return self._get(key, operator.getitem)


@spec(actual='peak.assembler2.assembled_adt:AssembledADT.__getattr__', props=['B01', 'A06'],
      opaque=['peak.assembler2.assembled_adt.AssembledADT._get'])
def getattr_(self, attr):
    return self._get(attr, getattr)


@spec(actual='peak.assembler2.assembled_adt:AssembledADT._get', props=['B01', 'A07'])
def get(self, key, getter):
    """the bits of the requested field, with the match bit for sums"""
    cls = type(self)
    asm = cls._assembler_
    field = asm.extract(self._value_, key)
    T = getter(cls, key)
    value = T(field[0]) if issubclass(T, AbstractBit) else T(field)
    if _issubclass(cls.adt_t, Sum):
        return cls.adt_t.Match(asm.match(self._value_, key), value, safe=False)
    return value


def _encode(cls, v):
    if isinstance(v, AbstractBitVector):
        return v
    if isinstance(v, AbstractBit):
        return v.get_family().BitVector[1](v)
    if isinstance(v, AssembledADT):
        return v._value_
    if isinstance(v, cls.adt_t):
        return cls._assembler_.assemble(v, cls.bv_type)
    raise TypeError()


@spec(actual='peak.assembler2.assembled_adt:AssembledADT.from_fields', props=['B01', 'A06'])
def from_fields(cls, *args, **kwargs):
    """an untagged sum takes (type, value); every value is encoded before it is placed"""
    if issubclass(cls.adt_t, Sum) and not issubclass(cls.adt_t, TaggedUnion):
        if len(args) != 2:
            raise TypeError()
        placed = (args[0], _encode(cls, args[1]))
    else:
        placed = [_encode(cls, v) for v in args]
    named = {}
    for k, v in kwargs.items():
        named[k] = _encode(cls, v)
    return cls(cls._assembler_.from_fields(*placed, **named))


@spec(actual='peak.assembler2.assembled_adt:AssembledADT.__hash__', props=['B02'])
def hash_(self):
    return hash(self._value_)


@spec(actual='peak.assembler2.assembled_adt:AssembledADT.__eq__', props=['B02'])
def eq(self, other):
    """equality is equality of the encodings, whatever form the other operand has"""
    cls = type(self)
    if isinstance(other, cls):
        return self._value_ == other._value_
    if isinstance(other, cls.bv_type[cls._assembler_.width]):
        return self._value_ == other
    if isinstance(other, cls.adt_t):
        return self._value_ == cls._assembler_.assemble(other, cls.bv_type)
    return NotImplemented


@spec(actual='peak.assembler2.assembled_adt:AssembledADT.__ne__', props=['B02'])
def ne(self, other):
    eq = self == other
    return not eq if isinstance(eq, bool) else ~eq


@spec(actual='peak.assembler2.assembled_adt:AssembledADTMeta.__hash__', props=['B02'])
def meta_hash(cls):
    return super().__hash__()


@spec(actual='peak.assembler2.assembled_adt:AssembledADTMeta.__ne__', props=['B02'])
def meta_ne(cls, other):
    eq = cls == other
    return not eq if isinstance(eq, bool) else ~eq


@spec(actual='peak.assembler2.assembled_adt:AssembledADT._from_bitvector_', props=['B01'])
def from_bitvector(cls, value):
    return cls(value)


@spec(actual='peak.assembler2.assembled_adt:AssembledADT._to_bitvector_', props=['B01'])
def to_bitvector(self):
    return self._value_


@spec(actual='peak.assembler2.assembled_adt:MAADTMeta._bases_from_idx', props=['B03'])
def m_bases(cls, idx):
    return super()._bases_from_idx(idx[:-1])


@spec(actual='peak.assembler2.assembled_adt:MAADTMeta._to_magma_', props=['B03'])
def m_to_magma(cls):
    return cls._bitvector_t_().qualify(cls.fields[3])


@spec(actual='peak.assembler2.assembled_adt:MAADTMeta._qualify_magma_', props=['B03'])
def m_qualify(cls, d):
    return cls.unbound_t[(*cls.fields[:-1], d)]


@spec(actual='peak.assembler2.assembled_adt:MAADTMeta._flip_magma_', props=['B03'])
def m_flip(cls):
    """only the direction changes"""
    d = cls.fields[3]
    if d == m.Direction.In:
        return cls.unbound_t[(*cls.fields[:-1], m.Direction.Out)]
    if d == m.Direction.Out:
        return cls.unbound_t[(*cls.fields[:-1], m.Direction.In)]
    return cls


@spec(actual='peak.assembler2.assembled_adt:MAADTMeta._from_magma_value_', props=['B03', 'A06'])
def m_from_value(cls, value):
    if not value.is_oriented(cls.fields[3]):
        raise TypeError()
    return cls._from_bitvector_(value)


@spec(actual='peak.assembler2.assembled_adt:AssembledADTRecursor.__call__', props=['M12'])
def recursor(self, aadt_t, *args, **kwargs):
    """the most specific handler for the kind of the type"""
    if issubclass(aadt_t, AbstractBit) or issubclass(aadt_t, AbstractBitVector):
        return self.bv(aadt_t, *args, **kwargs)
    T = aadt_t.adt_t
    if issubclass(T, Enum):
        return self.enum(aadt_t, *args, **kwargs)
    if issubclass(T, TaggedUnion):
        return self.tagged_union(aadt_t, *args, **kwargs)
    if issubclass(T, Sum):
        return self.sum(aadt_t, *args, **kwargs)
    if issubclass(T, Product):
        return self.product(aadt_t, *args, **kwargs)
    if issubclass(T, Tuple):
        return self.tuple(aadt_t, *args, **kwargs)
    raise ValueError()
