"""First generation assembled ADTs (peak.assembler.assembled_adt)."""
import inspect
import operator
from functools import reduce
from hwtypes import AbstractBitVector, AbstractBit
from hwtypes.adt_meta import BoundMeta
from hwtypes.adt import Enum, Product, Sum, Tuple, TaggedUnion
from hwtypes.modifiers import is_modified
import magma as m
from peak.assembler.assembler_util import _issubclass
from peak.assembler.assembled_adt import (_create_from_layout, _as_bv, AssembledADT, _sum_or_tagged_from_fields,
    _product_from_fields, _tuple_from_fields, _enum_from_fields, _taggedunion_from_fields, _sum_from_fields, _MISSING, _TAG)


@spec(actual='peak.assembler.assembled_adt:_as_bv', props=['B01'])
def as_bv(v):
    if isinstance(v, AbstractBitVector):
        return v
    if isinstance(v, AbstractBit):
        return v.get_family().BitVector[1](v)
    if isinstance(v, AssembledADT):
        return v._value_
    raise TypeError()


@spec(actual='peak.assembler.assembled_adt:_create_from_layout', props=['B01'], opaque=['peak.assembler.assembled_adt._as_bv'])
def create_from_layout(width, layout, field_bvs, bv_type, default_value):
    """Each field lands on its own range, everything else is the default."""
    if layout.keys() != field_bvs.keys():
        raise ValueError()
    ranges = sorted(layout.values())
    if not all(type(r0) == type(r1) == tuple and len(r0) == len(r1) == 2
               and 0 <= r0[0] <= r0[1] <= r1[0] <= r1[1] <= width
               for r0, r1 in zip(ranges, ranges[1:])):
        raise ValueError()
    slots = [bv_type[1](default_value) for _ in range(width)]
    for name, (low, hi) in layout.items():
        if low == hi:
            continue
        slots[low:hi] = field_bvs[name], *(None for _ in range(low + 1, hi))
    return bv_type[width](reduce(bv_type.concat, [_as_bv(s) for s in slots if s is not None]))


@spec(actual='peak.assembler.assembled_adt:_taggedunion_from_fields', props=['B01', 'A06'],
      opaque=['peak.assembler.assembled_adt._sum_or_tagged_from_fields'])
def taggedunion_from_fields(cls, *, tag_bv=None, default_bv=0, **kwargs):
    if len(kwargs) != 1:
        raise TypeError()
    tag, value = kwargs.popitem()
    return _sum_or_tagged_from_fields(cls, tag, tag_bv, getattr(cls, tag)(value), default_bv)


@spec(actual='peak.assembler.assembled_adt:_sum_from_fields', props=['B01'],
      opaque=['peak.assembler.assembled_adt._sum_or_tagged_from_fields'])
def sum_from_fields(cls, tag, value, *, tag_bv=None, default_bv=0):
    return _sum_or_tagged_from_fields(cls, tag, tag_bv, cls[tag](value), default_bv)


@spec(actual='peak.assembler.assembled_adt:_sum_or_tagged_from_fields', props=['B01', 'A02'],
      opaque=['peak.assembler.assembled_adt._create_from_layout'])
def sum_or_tagged_from_fields(cls, tag, tag_bv, value_bv, default_bv):
    asm = cls._assembler_
    if tag_bv is None:
        tag_bv = asm.assemble_tag(tag, cls.bv_type)
    return cls(_create_from_layout(asm.width,
                                   {'value': asm.layout[tag], 'tag': asm.tag_layout},
                                   {'value': value_bv, 'tag': tag_bv},
                                   cls.bv_type, default_bv))


@spec(actual='peak.assembler.assembled_adt:_product_from_fields', props=['B01'],
      opaque=['peak.assembler.assembled_adt._create_from_layout'])
def product_from_fields(cls, *args, default_bv=0, **kwargs):
    bound = inspect.signature(cls.adt_t.__init__).bind(..., *args, **kwargs)
    fields = {}
    for k, v in bound.arguments.items():
        if k != 'self':
            fields[k] = getattr(cls, k)(v)
    return cls(_create_from_layout(cls._assembler_.width, cls._assembler_.layout, fields, cls.bv_type, default_bv))


@spec(actual='peak.assembler.assembled_adt:_tuple_from_fields', props=['B01', 'A06'],
      opaque=['peak.assembler.assembled_adt._create_from_layout'])
def tuple_from_fields(cls, *args, default_bv=0):
    if len(args) != len(cls.adt_t.fields):
        raise TypeError()
    return cls(_create_from_layout(cls._assembler_.width, cls._assembler_.layout,
                                   {i: cls[i](v) for i, v in enumerate(args)}, cls.bv_type, default_bv))


@spec(actual='peak.assembler.assembled_adt:_enum_from_fields', props=['B01'])
def enum_from_fields(cls, value, *, default_bv=0):
    return cls(value)


@spec(actual='peak.assembler.assembled_adt:AssembledADTMeta.__init__', props=['B01', 'A06'],
      opaque=['peak.assembler.assembled_adt._product_from_fields', 'peak.assembler.assembled_adt._tuple_from_fields',
              'peak.assembler.assembled_adt._enum_from_fields', 'peak.assembler.assembled_adt._taggedunion_from_fields',
              'peak.assembler.assembled_adt._sum_from_fields'])
def meta_init(cls, name, bases, namespace, **kwargs):
    """the constructor from fields matches the kind of the underlying type"""
    if not cls.is_bound:
        return
    cls._assembler_ = cls.assembler_t(cls.adt_t)
    if is_modified(cls.adt_t):
        raise TypeError()
    if issubclass(cls.adt_t, Product):
        cls.from_fields = classmethod(_product_from_fields)
    elif issubclass(cls.adt_t, Tuple):
        cls.from_fields = classmethod(_tuple_from_fields)
    elif issubclass(cls.adt_t, Enum):
        cls.from_fields = classmethod(_enum_from_fields)
    elif issubclass(cls.adt_t, TaggedUnion):
        cls.from_fields = classmethod(_taggedunion_from_fields)
    elif issubclass(cls.adt_t, Sum):
        cls.from_fields = classmethod(_sum_from_fields)


@spec(actual='peak.assembler.assembled_adt:AssembledADTMeta.__call__', props=['B01'])
def meta_call(cls, *args, **kwargs):
    if issubclass(cls.adt_t, Enum):
        return super().__call__(*args, **kwargs)
    try:
        return super().__call__(*args, **kwargs)
    except TypeError:
        return cls.from_fields(*args, **kwargs)


@spec(actual='peak.assembler.assembled_adt:AssembledADTMeta.__getitem__', props=['B03'])
def meta_getitem(cls, key):
    """the wrapper of a subtype keeps kind, size and signedness"""
    if cls.is_bound:
        return cls.unbound_t[(cls.adt_t[key], *cls.fields[1:])]
    T = key[0]
    fam = key[2].get_family()
    if _issubclass(T, AbstractBit):
        return fam.Bit
    if _issubclass(T, AbstractBitVector):
        own = T.get_family()
        if issubclass(T, own.Signed):
            return fam.Signed[T.size]
        if issubclass(T, own.Unsigned):
            return fam.Unsigned[T.size]
        return fam.BitVector[T.size]
    return super().__getitem__(key)


@spec(actual='peak.assembler.assembled_adt:AssembledADTMeta.__getattr__', props=['B03', 'A06'])
def meta_getattr(cls, attr):
    val = getattr(cls.adt_t, attr, _MISSING)
    if val is _MISSING:
        raise AttributeError()
    return cls.unbound_t[(val, *cls.fields[1:])]


@spec(actual='peak.assembler.assembled_adt:AssembledADTMeta.__contains__', props=['B03'])
def meta_contains(cls, T):
    return T in cls.adt_t


@spec(actual='peak.assembler.assembled_adt:AssembledADTMeta.adt_t', props=['B03'])
def meta_adt_t(cls):
    return cls.fields[0]


@spec(actual='peak.assembler.assembled_adt:AssembledADTMeta.assembler_t', props=['B03'])
def meta_assembler_t(cls):
    return cls.fields[1]


@spec(actual='peak.assembler.assembled_adt:AssembledADTMeta.bv_type', props=['B03'])
def meta_bv_type(cls):
    return cls.fields[2]


@spec(actual='peak.assembler.assembled_adt:AssembledADTMeta._is_valid_', props=['A03'])
def meta_is_valid(cls, opcode):
    return cls._assembler_.is_valid(opcode)


@spec(actual='peak.assembler.assembled_adt:AssembledADTMeta._bitvector_t_', props=['B03', 'B01'])
def meta_bitvector_t(cls):
    return cls.bv_type[cls._assembler_.width]


@spec(actual='peak.assembler.assembled_adt:AssembledADT.__init__', props=['B01', 'A06'])
def init(self, adt):
    cls = type(self)
    asm = cls._assembler_
    if isinstance(adt, cls):
        self._value_ = adt._value_
    elif isinstance(adt, cls.adt_t):
        self._value_ = asm.assemble(adt, cls.bv_type)
    elif isinstance(adt, cls.bv_type[asm.width]):
        self._value_ = adt
    else:
        raise TypeError()


@spec(actual='peak.assembler.assembled_adt:AssembledADT.__getitem__', props=['B01', 'A06'],
      opaque=['peak.assembler.assembled_adt.AssembledADT._get'])
def getitem(self, key):
    return self._get(key, operator.getitem, KeyError)


@spec(actual='peak.assembler.assembled_adt:AssembledADT.__getattr__', props=['B01', 'A06'],
      opaque=['peak.assembler.assembled_adt.AssembledADT._get'])
def getattr_(self, attr):
    return self._get(attr, getattr, AttributeError)


@spec(actual='peak.assembler.assembled_adt:AssembledADT._get', props=['B01', 'A06', 'A07'])
def get(self, key, getter, Error):
    """A field read takes the bits of the field's own range; for sums the match
    bit compares the stored tag with the tag of the requested alternative."""
    cls = type(self)
    asm = cls._assembler_
    sub = asm.sub.get(key, _MISSING)
    if sub is not _MISSING:
        if issubclass(getter(cls, key), AbstractBit):
            field = self._value_[sub.idx][0]
        else:
            field = getter(cls, key)(self._value_[sub.idx])
    elif key is _TAG:
        if not _issubclass(cls.adt_t, Sum):
            raise Error()
    else:
        raise Error()
    if not _issubclass(cls.adt_t, Sum):
        return field
    tag = self._value_[asm.sub.tag_idx]
    if key is _TAG:
        return tag
    T = key.adt_t if _issubclass(key, cls.unbound_t) else key
    if T in cls.adt_t.field_dict:
        T = asm.assemble_tag(T, cls.bv_type)
    if not isinstance(T, cls.bv_type[asm.tag_width]):
        raise TypeError()
    return cls.adt_t.Match(tag == T, field, safe=False)


@spec(actual='peak.assembler.assembled_adt:AssembledADT.__hash__', props=['B02'])
def hash_(self):
    return hash(self._value_)


@spec(actual='peak.assembler.assembled_adt:AssembledADT.__eq__', props=['B02'])
def eq(self, other):
    """equality is equality of the encodings, whatever form the other operand has"""
    cls = type(self)
    if isinstance(other, cls):
        return self._value_ == other._value_
    if isinstance(other, cls.bv_type[cls._assembler_.width]):
        return self._value_ == other
    if isinstance(other, cls.adt_t):
        return self._value_ == cls._assembler_.assemble(other, cls.bv_type)
    return NotImplemented


@spec(actual='peak.assembler.assembled_adt:AssembledADT.__ne__', props=['B02'])
def ne(self, other):
    eq = self == other
    return not eq if isinstance(eq, bool) else ~eq


@spec(actual='peak.assembler.assembled_adt:AssembledADTMeta.__hash__', props=['B02'])
def meta_hash(cls):
    return super().__hash__()


@spec(actual='peak.assembler.assembled_adt:AssembledADTMeta.__ne__', props=['B02'])
def meta_ne(cls, other):
    eq = cls == other
    return not eq if isinstance(eq, bool) else ~eq


@spec(actual='peak.assembler.assembled_adt:AssembledADT._from_bitvector_', props=['B01'])
def from_bitvector(cls, value):
    return cls(value)


@spec(actual='peak.assembler.assembled_adt:AssembledADT._to_bitvector_', props=['B01'])
def to_bitvector(self):
    return self._value_


@spec(actual='peak.assembler.assembled_adt:MAADTMeta._bases_from_idx', props=['B03'])
def m_bases(cls, idx):
    return super()._bases_from_idx(idx[:-1])


@spec(actual='peak.assembler.assembled_adt:MAADTMeta._to_magma_', props=['B03'])
def m_to_magma(cls):
    return cls._bitvector_t_().qualify(cls.fields[3])


@spec(actual='peak.assembler.assembled_adt:MAADTMeta._qualify_magma_', props=['B03'])
def m_qualify(cls, d):
    return cls.unbound_t[(*cls.fields[:-1], d)]


@spec(actual='peak.assembler.assembled_adt:MAADTMeta._flip_magma_', props=['B03'])
def m_flip(cls):
    """only the direction changes"""
    d = cls.fields[3]
    if d == m.Direction.In:
        return cls.unbound_t[(*cls.fields[:-1], m.Direction.Out)]
    if d == m.Direction.Out:
        return cls.unbound_t[(*cls.fields[:-1], m.Direction.In)]
    return cls


@spec(actual='peak.assembler.assembled_adt:MAADTMeta._from_magma_value_', props=['B03', 'A06'])
def m_from_value(cls, value):
    if not value.is_oriented(cls.fields[3]):
        raise TypeError()
    return cls._from_bitvector_(value)


@spec(actual='peak.assembler.assembled_adt:AssembledADTRecursor.__call__', props=['M12'])
def recursor(self, aadt_t, *args, **kwargs):
    """the most specific handler for the kind of the type"""
    if issubclass(aadt_t, AbstractBit) or issubclass(aadt_t, AbstractBitVector):
        return self.bv(aadt_t, *args, **kwargs)
    T = aadt_t.adt_t
    if issubclass(T, Enum):
        return self.enum(aadt_t, *args, **kwargs)
    if issubclass(T, TaggedUnion):
        return self.tagged_union(aadt_t, *args, **kwargs)
    if issubclass(T, Sum):
        return self.sum(aadt_t, *args, **kwargs)
    if issubclass(T, Product):
        return self.product(aadt_t, *args, **kwargs)
    if issubclass(T, Tuple):
        return self.tuple(aadt_t, *args, **kwargs)
    raise ValueError()
