"""Stand alone bit field encoding (peak.bitfield)."""
from magma.bitutils import clog2
from hwtypes.adt import Enum, Sum, Product
from hwtypes import AbstractBit, AbstractBitVector
from peak.bitfield import size, sumsize, instkey, encode


@spec(actual='peak.bitfield:size', props=['G01'])
def size_(type):
    """wide enough for every value of the type"""
    if issubclass(type, AbstractBit):
        return 1
    if issubclass(type, AbstractBitVector):
        return type.size
    if issubclass(type, Enum):
        values = [m._value_ for m in type.enumerate()]
        if all(isinstance(v, int) for v in values):
            return max(values).bit_length()
        return clog2(len(values))
    if issubclass(type, Product):
        return sum([size(getattr(type, k)) for k in type.field_dict])
    if issubclass(type, Sum):
        return max([size(T) for T in type.fields]) + sumsize(type)
    return 0


@spec(actual='peak.bitfield:sumsize', props=['G01'])
def sumsize_(type):
    """wide enough for every tag"""
    if issubclass(type, Sum):
        if hasattr(type, 'tags'):
            s = clog2(max([v for v in type.tags.values()]) + 1)
        else:
            s = clog2(len(type.fields))
    return s


@spec(actual='peak.bitfield:instkey', props=['G01', 'A05'])
def instkey_(inst):
    """the tag is a function of the alternative alone"""
    t = type(inst)
    if hasattr(t, 'tags'):
        return t.tags[type(inst._value_)]
    return sorted(t.fields, key=repr).index(type(inst._value_))


@spec(actual='peak.bitfield:tag', props=['G01', 'A06'])
def tag(tags):
    """explicit tags must cover exactly the alternatives"""
    def wrapper(T):
        if not issubclass(T, Sum):
            raise TypeError()
        if tags.keys() != T.fields:
            raise ValueError()
        if not all(isinstance(t, int) for t in tags.values()):
            raise TypeError()
        setattr(T, 'tags', tags)
        return T
    return wrapper


@spec(actual='peak.bitfield:bitfield', props=['G01'])
def bitfield(i):
    def wrap(klass):
        klass.bitfield = i
        return klass
    return wrap


@spec(actual='peak.bitfield:encode', props=['G01', 'A06'])
def encode_(inst, reverse=False):
    """every field starts where the previous ones end"""
    shift = getattr(inst, 'bitfield', 0)
    if isinstance(inst, (AbstractBit, AbstractBitVector, Enum)):
        word = inst._value_ if isinstance(inst, Enum) else int(inst)
    else:
        T = type(inst)
        if isinstance(inst, Product):
            word = 0
            if reverse:
                pos = size(T)
                for name in T.field_dict.keys():
                    field = getattr(inst, name)
                    w = size(type(field))
                    word |= encode(field, reverse) << (pos - w)
                    pos = pos - w
            else:
                pos = 0
                for name in T.field_dict.keys():
                    field = getattr(inst, name)
                    word |= encode(field, reverse) << pos
                    pos = pos + size(type(field))
        elif isinstance(inst, Sum):
            if reverse:
                word = (instkey(inst) << (size(T) - sumsize(T))) | encode(inst._value_, reverse)
            else:
                word = (encode(inst._value_) << sumsize(T)) | instkey(inst)
        else:
            raise ValueError()
    return word << shift
