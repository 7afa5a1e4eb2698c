"""Second generation assembler (peak.assembler2.assembler): works on bit vectors
of any family instead of integers."""
import functools
import inspect
import operator
from hwtypes import AbstractBitVector, AbstractBit, BitVector
from hwtypes.adt import Enum, Product, Sum, Tuple, TaggedUnion
from hwtypes.adt_meta import EnumMeta

from peak.assembler2.assembler import Assembler, _enum, _tuple, _sum, _field, _extend_to_width, _create_from_layout
from peak.assembler2.assembler_util import _issubclass, _gen_is_valid


def _only_bv(v):
    if not isinstance(v, AbstractBitVector):
        raise TypeError()
    return v


@spec(actual='peak.assembler2.assembler:_enum',
      opaque=['peak.assembler2.assembler_util._gen_is_valid'],
      parts={0: ['A01', 'A02', 'A04', 'A05'], 1: ['B01', 'A06'], 2: ['A01', 'A02', 'A04'], 3: ['A06'], 4: ['A03', 'B01'],
             5: ['A03'], 6: ['A02', 'A01', 'A04']})
def enum(isa):
    codes = {}
    members = {}
    taken = set()
    pending = []
    for member in isa.enumerate():
        value = member._value_
        if isinstance(value, int):
            if value < 0:
                raise ValueError()
            codes[member] = value
            members[value] = member
            taken.add(value)
        else:
            pending.append(member)
    nxt = 0
    for member in pending:
        while nxt in taken:
            nxt += 1
        taken.add(nxt)
        codes[member] = nxt
        members[nxt] = member
    if not codes:
        raise TypeError()
    width = max(codes.values()).bit_length()

    def no_fields(bv, field):
        raise TypeError()

    return (lambda m, bv_type: bv_type[width](codes[m]),
            lambda v: _only_bv(v),
            lambda opcode: members[opcode.as_uint()],
            no_fields,
            lambda bv, field: bv == codes[field],
            _gen_is_valid(codes.values(), width),
            width)


def _layout(isa):
    """fields in declaration order; a product field is addressed by name or position"""
    layout = {}
    at = 0
    if issubclass(isa, Product):
        for k, (name, T) in enumerate(isa.field_dict.items()):
            w = Assembler(T).width
            layout[name] = (at, at + w)
            layout[k] = (at, at + w)
            at = at + w
    else:
        for name, T in isa.field_dict.items():
            w = Assembler(T).width
            layout[name] = (at, at + w)
            at = at + w
    return layout, at


@spec(actual='peak.assembler2.assembler:_tuple',
      opaque=['peak.assembler2.assembler._create_from_layout', 'peak.assembler2.assembler._extend_to_width'],
      parts={0: ['A01', 'A04'], 1: ['B01', 'A06'], 2: ['A01', 'A04'], 3: ['A07', 'A01', 'A06', 'B01'], 4: ['A06'],
             5: ['A03', 'A04'], 6: ['A02', 'A01', 'A04']})
def tuple_(isa):
    layout, width = _layout(isa)

    def assemble(inst, bv_type):
        word = bv_type[width](0)
        for name, T in isa.field_dict.items():
            word |= _extend_to_width(Assembler(T).assemble(inst.value_dict[name], bv_type), width) << layout[name][0]
        return word

    if issubclass(isa, Product):
        def from_fields(*args, **kwargs):
            bound = inspect.signature(isa.__init__).bind(..., *args, **kwargs)
            fields = {}
            for k, v in bound.arguments.items():
                if k != 'self':
                    fields[k] = v
            used = {}
            for k, v in layout.items():
                if k in fields:
                    used[k] = v
            return _create_from_layout(width, used, fields)
    else:
        def from_fields(*args):
            if len(args) != len(isa.fields):
                raise TypeError()
            fields = dict(enumerate(args))
            used = {}
            for k, v in layout.items():
                if k in fields:
                    used[k] = v
            return _create_from_layout(width, used, fields)

    def disassemble(bv):
        return isa(*[Assembler(T).disassemble(bv[slice(layout[name][0], layout[name][1])])
                     for name, T in isa.field_dict.items()])

    keys = (str, int) if issubclass(isa, Product) else (int,)

    def extract(bv, field):
        if not isinstance(field, keys):
            raise TypeError()
        return bv[slice(*layout[field])]

    def match(bv, field):
        raise TypeError()

    def is_valid(opcode):
        return functools.reduce(operator.and_,
                                [Assembler(T).is_valid(opcode[slice(layout[name][0], layout[name][1])])
                                 for name, T in isa.field_dict.items()],
                                opcode.get_family().Bit(1))
    return assemble, from_fields, disassemble, extract, match, is_valid, width


@spec(actual='peak.assembler2.assembler:_extend_to_width', props=['A01', 'A06'])
def extend(bv, w):
    if bv.size > w:
        raise TypeError()
    return bv.zext(w - bv.size)


@spec(actual='peak.assembler2.assembler:_sum',
      opaque=['peak.assembler2.assembler_util._gen_is_valid', 'peak.assembler2.assembler._create_from_layout',
              'peak.assembler2.assembler._extend_to_width'],
      parts={0: ['A01', 'A04', 'A05'], 1: ['B01', 'A06'], 2: ['A01', 'A04', 'A05'], 3: ['A07', 'A01', 'B01'],
             4: ['A01', 'A03', 'B01'], 5: ['A03', 'A04'], 6: ['A02', 'A01', 'A04']})
def sum_(isa):
    alternatives = sorted(isa.field_dict.items(), key=repr)
    tag_width = (len(isa.field_dict) - 1).bit_length()
    field_of = {}
    tag_of = {}
    name_of = {}
    tags_of = {}
    layout = {}
    payload_width = 0
    for tag, (name, T) in enumerate(alternatives):
        field_of[name] = T
        tag_of[name] = tag
        name_of[tag] = name
        tags_of.setdefault(T, []).append(tag)
        if T not in layout:
            w = Assembler(T).width
            layout[T] = (tag_width, tag_width + w)
            layout[name] = (tag_width, tag_width + w)
            payload_width = max(payload_width, w)
        elif name not in layout:
            layout[name] = layout[T]
    width = tag_width + payload_width
    validators = {}
    for T, tags in tags_of.items():
        validators[T] = _gen_is_valid(tags, tag_width)

    def assemble(inst, bv_type):
        for name, value in inst.value_dict.items():
            if value is not None:
                break
        else:
            raise AssertionError()
        payload = _extend_to_width(Assembler(type(value)).assemble(value, bv_type), payload_width)
        return bv_type[tag_width](tag_of[name]).concat(payload)

    def from_fields(*args, **kwargs):
        if issubclass(isa, TaggedUnion):
            if len(args) != 0 or len(kwargs) != 1:
                raise TypeError()
            name, value = kwargs.popitem()
        else:
            if len(args) != 2 or len(kwargs) != 0:
                raise TypeError()
            name, value = args
        return _create_from_layout(width,
                                   {'value': layout[name], 'tag': (0, tag_width)},
                                   {'value': value, 'tag': type(value).unsized_t[tag_width](tag_of[name])})

    def disassemble(bv):
        chosen = name_of[bv[0:tag_width].as_uint()]
        T = field_of[chosen]
        value = Assembler(T).disassemble(bv[slice(*layout[T])])
        values = {}
        for name in isa.field_dict:
            values[name] = value if name == chosen else None
        return isa.from_values(values)

    def extract(bv, field):
        return bv[slice(*layout[field])]

    def match(bv, field):
        tag = bv[slice(0, tag_width)]
        if isinstance(field, str):
            return tag == tag_of[field]
        return functools.reduce(operator.or_, [tag == t for t in tags_of[field]], bv.get_family().Bit(0))

    def is_valid(opcode):
        ok = opcode.get_family().Bit(0)
        for T, validator in validators.items():
            ok |= validator(opcode[0:tag_width]) & Assembler(T).is_valid(opcode[slice(*layout[T])])
        return ok

    return assemble, from_fields, disassemble, extract, match, is_valid, width


@spec(actual='peak.assembler2.assembler:_field',
      parts={0: ['A01', 'A04'], 1: ['B01', 'A06'], 2: ['A01', 'A04'], 3: ['A06'], 4: ['A06'], 5: ['A03'], 6: ['A02', 'A01']})
def field(isa):
    if _issubclass(isa, AbstractBitVector):
        width = isa.size
    elif _issubclass(isa, AbstractBit):
        width = 1
    else:
        raise TypeError()

    def refuse(bv, field):
        raise TypeError()
    return (lambda inst, bv_type: bv_type[width](inst),
            lambda v: _only_bv(v),
            lambda bv: isa(bv),
            refuse, refuse,
            lambda opcode: opcode.get_family().Bit(1),
            width)


@spec(actual='peak.assembler2.assembler:_create_from_layout', props=['B01'])
def create_from_layout(width, layout, field_bvs):
    """Each field lands on its own range, everything else is zero."""
    if layout.keys() != field_bvs.keys():
        raise ValueError()
    ranges = sorted(layout.values())
    if not all(type(r0) == type(r1) == tuple and len(r0) == len(r1) == 2
               and 0 <= r0[0] <= r0[1] <= r1[0] <= r1[1] <= width
               for r0, r1 in zip(ranges, ranges[1:])):
        raise ValueError()
    T = None
    for v in field_bvs.values():
        if T is None:
            T = type(v).unsized_t
    slots = [T[1]() for _ in range(width)]
    for name, (low, hi) in layout.items():
        if low == hi:
            continue
        slots[low:hi] = field_bvs[name], *(None for _ in range(low + 1, hi))
    return T[width](functools.reduce(T.concat, [s for s in slots if s is not None]))


@spec(actual='peak.assembler2.assembler_util:_issubclass', props=['A01', 'A06'])
def issubclass_(sub, parent):
    try:
        return issubclass(sub, parent)
    except TypeError:
        return False


# ---------------------------------------------------------------- validators
_RANGE_COST = 1.1


@spec(actual='peak.assembler2.assembler_util:_gen_is_valid', props=['A03'])
def gen_is_valid(opcodes, width):
    """Every form accepts exactly the given opcodes."""
    codes = tuple(sorted(opcodes))
    lo = codes[0]
    hi = codes[-1]
    contiguous = codes == tuple(range(lo, hi + 1))
    if contiguous and lo == 0 and hi == (1 << width) - 1:
        return lambda x: x.get_family().Bit(1)

    def listed(x):
        return functools.reduce(operator.or_, [x == c for c in codes], x.get_family().Bit(0))

    if len(codes) < 3:
        return listed
    if contiguous:
        if lo == 0:
            return lambda x: x <= hi
        if hi == (1 << width) - 1:
            return lambda x: lo <= x
        return lambda x: (lo <= x) & (x <= hi)
    if all(c & (c - 1) == 0 for c in codes):
        missing = []
        if 0 not in codes:
            missing.append(0)
        bit = 1
        while bit < (1 << width):
            if bit not in codes:
                missing.append(bit)
            bit <<= 1
        if len(missing) < len(codes):
            def onehot(x):
                return ((x & (x - 1)) == 0) & functools.reduce(operator.and_, [x != c for c in missing], x.get_family().Bit(1))
            return onehot
        return listed
    runs = []
    start = lo
    for a, b in zip(codes, codes[1:]):
        if b != a + 1:
            runs.append(_gen_is_valid(range(start, a + 1), width))
            start = b
    if b == a + 1:
        runs.append(_gen_is_valid(range(start, b + 1), width))
    elif b == start:
        runs.append(_gen_is_valid(range(start, start + 1), width))
    else:
        runs.append(_gen_is_valid(range(start, a + 1), width))
        runs.append(_gen_is_valid([b], width))
    if _RANGE_COST * len(runs) < len(codes):
        return lambda x: functools.reduce(operator.or_, [r(x) for r in runs], x.get_family().Bit(0))
    return listed


# ---------------------------------------------------------------- the Assembler object


def _parts(isa):
    if _issubclass(isa, Enum):
        return _enum(isa)
    if _issubclass(isa, (Tuple, Product)):
        return _tuple(isa)
    if _issubclass(isa, Sum):
        return _sum(isa)
    if _issubclass(isa, (AbstractBit, AbstractBitVector)):
        return _field(isa)
    raise TypeError()


def scn_width(isa):
    return Assembler(isa).width


@spec(actual='scn:scn_width', inline=['peak.assembler2.assembler.Assembler'], props=['A02'],
      opaque=['peak.assembler2.assembler._enum', 'peak.assembler2.assembler._tuple', 'peak.assembler2.assembler._sum', 'peak.assembler2.assembler._field'])
def width(isa):
    p = _parts(isa)
    return p[6]


def scn_assemble(isa, inst, bv_type):
    return Assembler(isa).assemble(inst, bv_type)


@spec(actual='scn:scn_assemble', inline=['peak.assembler2.assembler.Assembler'], props=['A01'],
      opaque=['peak.assembler2.assembler._enum', 'peak.assembler2.assembler._tuple', 'peak.assembler2.assembler._sum', 'peak.assembler2.assembler._field'])
def assemble(isa, inst, bv_type):
    p = _parts(isa)
    return p[0](inst, bv_type)


def scn_assemble_default(isa, inst):
    return Assembler(isa).assemble(inst)


@spec(actual='scn:scn_assemble_default', inline=['peak.assembler2.assembler.Assembler'], props=['A01'],
      opaque=['peak.assembler2.assembler._enum', 'peak.assembler2.assembler._tuple', 'peak.assembler2.assembler._sum', 'peak.assembler2.assembler._field'])
def assemble_default(isa, inst):
    p = _parts(isa)
    return p[0](inst, BitVector)


def scn_disassemble(isa, bv):
    return Assembler(isa).disassemble(bv)


@spec(actual='scn:scn_disassemble', inline=['peak.assembler2.assembler.Assembler'], props=['A01'],
      opaque=['peak.assembler2.assembler._enum', 'peak.assembler2.assembler._tuple', 'peak.assembler2.assembler._sum', 'peak.assembler2.assembler._field'])
def disassemble(isa, bv):
    p = _parts(isa)
    return p[2](bv)


def scn_extract(isa, bv, field):
    return Assembler(isa).extract(bv, field)


@spec(actual='scn:scn_extract', inline=['peak.assembler2.assembler.Assembler'], props=['A07', 'B01'],
      opaque=['peak.assembler2.assembler._enum', 'peak.assembler2.assembler._tuple', 'peak.assembler2.assembler._sum', 'peak.assembler2.assembler._field'])
def extract(isa, bv, field):
    p = _parts(isa)
    return p[3](bv, field)


def scn_match(isa, bv, field):
    return Assembler(isa).match(bv, field)


@spec(actual='scn:scn_match', inline=['peak.assembler2.assembler.Assembler'], props=['A03', 'B01'],
      opaque=['peak.assembler2.assembler._enum', 'peak.assembler2.assembler._tuple', 'peak.assembler2.assembler._sum', 'peak.assembler2.assembler._field'])
def match(isa, bv, field):
    p = _parts(isa)
    return p[4](bv, field)


def scn_is_valid(isa, opcode):
    return Assembler(isa).is_valid(opcode)


@spec(actual='scn:scn_is_valid', inline=['peak.assembler2.assembler.Assembler'], props=['A03'],
      opaque=['peak.assembler2.assembler._enum', 'peak.assembler2.assembler._tuple', 'peak.assembler2.assembler._sum', 'peak.assembler2.assembler._field'])
def is_valid(isa, opcode):
    p = _parts(isa)
    return p[5](opcode)


def scn_from_fields(isa, *args, **kwargs):
    return Assembler(isa).from_fields(*args, **kwargs)


@spec(actual='scn:scn_from_fields', inline=['peak.assembler2.assembler.Assembler'], props=['B01'],
      opaque=['peak.assembler2.assembler._enum', 'peak.assembler2.assembler._tuple', 'peak.assembler2.assembler._sum', 'peak.assembler2.assembler._field'])
def from_fields(isa, *args, **kwargs):
    p = _parts(isa)
    return p[1](*args, **kwargs)


@spec(actual='peak.assembler2.assembler_abc:AssemblerMeta.__call__', props=['C03'])
def meta_call(cls, *args, **kwargs):
    """one instance per class and constructor arguments"""
    cache = type(cls)._cache[cls]
    if cache is None:
        return super().__call__(*args, **kwargs)
    key = (args, tuple(kwargs.items()))
    if key in cache:
        return cache[key]
    obj = super().__call__(*args, **kwargs)
    cache[key] = obj
    return obj


@spec(actual='peak.assembler2.assembler_abc:AssemblerMeta.__init__', props=['C03'])
def meta_init(cls, name, bases, namespace, cache=True, **kwargs):
    """every class owns its own cache"""
    type(cls)._cache[cls] = {} if cache else None
    return super().__init__(name, bases, namespace, **kwargs)
