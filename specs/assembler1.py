"""First generation assembler (peak.assembler.assembler)."""
import functools
import operator
from types import MappingProxyType
from hwtypes import AbstractBitVector, AbstractBit, BitVector
from hwtypes.adt import Enum, Product, Sum, Tuple
from hwtypes.adt_meta import EnumMeta

from peak.assembler.assembler import Assembler, _enum, _tuple, _sum, _field
from peak.assembler.assembler_util import _issubclass, _gen_is_valid


@spec(actual='peak.assembler.assembler:_enum',
      opaque=['peak.assembler.assembler_util._gen_is_valid'],
      parts={0: ['A01', 'A02', 'A04', 'A05'], 1: ['A01', 'A02', 'A04'], 2: ['A03'], 3: ['A02', 'A01'], 4: ['A02', 'A07']})
def enum(isa):
    """Explicit member values are kept, automatic ones take the smallest free
    numbers in declaration order; both directions are filled in lockstep."""
    codes = {}
    members = {}
    taken = set()
    pending = []
    for member in isa.enumerate():
        value = member._value_
        if isinstance(value, int):
            if value < 0:
                raise ValueError()
            codes[member] = value
            members[value] = member
            taken.add(value)
        else:
            pending.append(member)
    nxt = 0
    for member in pending:
        while nxt in taken:
            nxt += 1
        taken.add(nxt)
        codes[member] = nxt
        members[nxt] = member
    if not codes:
        raise TypeError()
    width = max(codes.values()).bit_length()
    return (lambda m: codes[m],
            lambda opcode: members[opcode.value],
            _gen_is_valid(codes.values(), width),
            width,
            {m: (0, width) for m in isa.enumerate()})


def _tuple_layout(isa):
    """fields are packed in declaration order without gaps or overlap"""
    layout = {}
    at = 0
    for name, T in isa.field_dict.items():
        w = Assembler(T).width
        layout[name] = (at, at + w)
        at = at + w
    return layout, at


@spec(actual='peak.assembler.assembler:_tuple',
      parts={0: ['A01', 'A04'], 1: ['A01', 'A04'], 2: ['A03', 'A04'], 3: ['A02', 'A01'], 4: ['A02', 'A07', 'A01']})
def tuple_(isa):
    layout, width = _tuple_layout(isa)

    def assemble(inst):
        word = 0
        for name, T in isa.field_dict.items():
            word |= Assembler(T)._asm(inst.value_dict[name]) << layout[name][0]
        return word

    def disassemble(opcode):
        return isa(*[Assembler(T).disassemble(opcode[slice(layout[name][0], layout[name][1])])
                     for name, T in isa.field_dict.items()])

    def is_valid(opcode):
        return functools.reduce(operator.and_,
                                [Assembler(T).is_valid(opcode[slice(layout[name][0], layout[name][1])])
                                 for name, T in isa.field_dict.items()],
                                opcode.get_family().Bit(1))
    return assemble, disassemble, is_valid, width, layout


@spec(actual='peak.assembler.assembler:_sum',
      opaque=['peak.assembler.assembler_util._gen_is_valid'],
      parts={0: ['A01', 'A04', 'A05'], 1: ['A01', 'A04', 'A05'], 2: ['A03', 'A04'], 3: ['A02', 'A01'], 4: ['A02', 'A07', 'A01'],
             5: ['A01', 'A06', 'A05'], 6: ['A01', 'A06', 'A05'], 7: ['A03'], 8: ['A02', 'A07'], 9: ['A02', 'A07']})
def sum_(isa):
    """A tag (position in the sorted field list) below the payload."""
    alternatives = sorted(isa.field_dict.items(), key=repr)
    tag_width = (len(isa.field_dict) - 1).bit_length()
    field_of = {}
    tag_of = {}
    name_of = {}
    tags_of = {}
    layout = {}
    payload_width = 0
    for tag, (name, T) in enumerate(alternatives):
        field_of[name] = T
        tag_of[name] = tag
        name_of[tag] = name
        tags_of.setdefault(T, []).append(tag)
        if T not in layout:
            w = Assembler(T).width
            layout[T] = (tag_width, tag_width + w)
            layout[name] = (tag_width, tag_width + w)
            payload_width = max(payload_width, w)
        elif name not in layout:
            layout[name] = layout[T]
    width = tag_width + payload_width
    validators = {}
    for T, tags in tags_of.items():
        validators[T] = _gen_is_valid(tags, tag_width)

    def assemble(inst):
        for name, value in inst.value_dict.items():
            if value is not None:
                break
        else:
            raise AssertionError()
        return (Assembler(type(value))._asm(value) << tag_width) | tag_of[name]

    def disassemble(opcode):
        chosen = name_of[opcode[0:tag_width].as_uint()]
        T = field_of[chosen]
        value = Assembler(T).disassemble(opcode[slice(*layout[T])])
        values = {}
        for name in isa.field_dict:
            values[name] = value if name == chosen else None
        return isa.from_values(values)

    def is_valid(opcode):
        ok = opcode.get_family().Bit(0)
        for T, validator in validators.items():
            ok |= validator(opcode[0:tag_width]) & Assembler(T).is_valid(opcode[slice(*layout[T])])
        return ok
    return (assemble, disassemble, is_valid, width, layout,
            lambda name: tag_of[name],
            lambda tag: name_of[tag],
            _gen_is_valid(name_of.keys(), tag_width), tag_width, (0, tag_width))


@spec(actual='peak.assembler.assembler:_field',
      parts={0: ['A01'], 1: ['A01'], 2: ['A03'], 3: ['A02', 'A01'], 4: ['A07']})
def field(isa):
    if _issubclass(isa, AbstractBitVector):
        width = isa.size
    elif _issubclass(isa, AbstractBit):
        width = 1
    else:
        raise TypeError()
    return (lambda inst: int(inst),
            lambda opcode: isa(opcode),
            lambda opcode: opcode.get_family().Bit(1),
            width, {})


# ---------------------------------------------------------------- validators
_RANGE_COST = 1.1


@spec(actual='peak.assembler.assembler_util:_gen_is_valid', props=['A03'])
def gen_is_valid(opcodes, width):
    """Every form accepts exactly the given opcodes."""
    codes = tuple(sorted(opcodes))
    lo = codes[0]
    hi = codes[-1]
    contiguous = codes == tuple(range(lo, hi + 1))
    if contiguous and lo == 0 and hi == (1 << width) - 1:
        return lambda x: x.get_family().Bit(1)

    def listed(x):
        return functools.reduce(operator.or_, [x == c for c in codes], x.get_family().Bit(0))

    if len(codes) < 3:
        return listed
    if contiguous:
        if lo == 0:
            return lambda x: x <= hi
        if hi == (1 << width) - 1:
            return lambda x: lo <= x
        return lambda x: (lo <= x) & (x <= hi)
    if all(c & (c - 1) == 0 for c in codes):
        missing = []
        if 0 not in codes:
            missing.append(0)
        bit = 1
        while bit < (1 << width):
            if bit not in codes:
                missing.append(bit)
            bit <<= 1
        if len(missing) < len(codes):
            def onehot(x):
                return ((x & (x - 1)) == 0) & functools.reduce(operator.and_, [x != c for c in missing], x.get_family().Bit(1))
            return onehot
        return listed
    runs = []
    start = lo
    for a, b in zip(codes, codes[1:]):
        if b != a + 1:
            runs.append(_gen_is_valid(range(start, a + 1), width))
            start = b
    if b == a + 1:
        runs.append(_gen_is_valid(range(start, b + 1), width))
    elif b == start:
        runs.append(_gen_is_valid(range(start, start + 1), width))
    else:
        runs.append(_gen_is_valid(range(start, a + 1), width))
        runs.append(_gen_is_valid([b], width))
    if _RANGE_COST * len(runs) < len(codes):
        return lambda x: functools.reduce(operator.or_, [r(x) for r in runs], x.get_family().Bit(0))
    return listed


# ---------------------------------------------------------------- the Assembler object


def _parts(isa):
    if _issubclass(isa, Enum):
        return _enum(isa)
    if _issubclass(isa, (Tuple, Product)):
        return _tuple(isa)
    if _issubclass(isa, Sum):
        return _sum(isa)
    if _issubclass(isa, (AbstractBit, AbstractBitVector)):
        return _field(isa)
    raise TypeError()


def _only_sum(isa):
    if not _issubclass(isa, Sum):
        raise TypeError()


def scn_width(isa):
    return Assembler(isa).width


@spec(actual='scn:scn_width', inline=['peak.assembler.assembler.Assembler'], props=['A02'],
      opaque=['peak.assembler.assembler._enum', 'peak.assembler.assembler._tuple', 'peak.assembler.assembler._sum', 'peak.assembler.assembler._field'])
def width(isa):
    return _parts(isa)[3]


def scn_layout(isa):
    return Assembler(isa).layout


@spec(actual='scn:scn_layout', inline=['peak.assembler.assembler.Assembler'], props=['A02', 'A07'],
      opaque=['peak.assembler.assembler._enum', 'peak.assembler.assembler._tuple', 'peak.assembler.assembler._sum', 'peak.assembler.assembler._field'])
def layout(isa):
    return _parts(isa)[4]


def scn_assemble(isa, inst, bv_type):
    return Assembler(isa).assemble(inst, bv_type)


@spec(actual='scn:scn_assemble', inline=['peak.assembler.assembler.Assembler'], props=['A01'],
      opaque=['peak.assembler.assembler._enum', 'peak.assembler.assembler._tuple', 'peak.assembler.assembler._sum', 'peak.assembler.assembler._field'])
def assemble(isa, inst, bv_type):
    p = _parts(isa)
    return bv_type[p[3]](p[0](inst))


def scn_assemble_default(isa, inst):
    return Assembler(isa).assemble(inst)


@spec(actual='scn:scn_assemble_default', inline=['peak.assembler.assembler.Assembler'], props=['A01'],
      opaque=['peak.assembler.assembler._enum', 'peak.assembler.assembler._tuple', 'peak.assembler.assembler._sum', 'peak.assembler.assembler._field'])
def assemble_default(isa, inst):
    p = _parts(isa)
    return BitVector[p[3]](p[0](inst))


def scn_disassemble(isa, opcode):
    return Assembler(isa).disassemble(opcode)


@spec(actual='scn:scn_disassemble', inline=['peak.assembler.assembler.Assembler'], props=['A01', 'A06'],
      opaque=['peak.assembler.assembler._enum', 'peak.assembler.assembler._tuple', 'peak.assembler.assembler._sum', 'peak.assembler.assembler._field'])
def disassemble(isa, opcode):
    """an opcode that is not valid is refused, never decoded"""
    p = _parts(isa)
    if not p[2](opcode):
        raise ValueError()
    return p[1](opcode)


def scn_is_valid(isa, opcode):
    return Assembler(isa).is_valid(opcode)


@spec(actual='scn:scn_is_valid', inline=['peak.assembler.assembler.Assembler'], props=['A03'],
      opaque=['peak.assembler.assembler._enum', 'peak.assembler.assembler._tuple', 'peak.assembler.assembler._sum', 'peak.assembler.assembler._field'])
def is_valid(isa, opcode):
    return _parts(isa)[2](opcode)


def scn_assemble_tag(isa, T, bv_type):
    return Assembler(isa).assemble_tag(T, bv_type)


@spec(actual='scn:scn_assemble_tag', inline=['peak.assembler.assembler.Assembler'], props=['A01', 'A06'],
      opaque=['peak.assembler.assembler._enum', 'peak.assembler.assembler._tuple', 'peak.assembler.assembler._sum', 'peak.assembler.assembler._field'])
def assemble_tag(isa, T, bv_type):
    p = _parts(isa)
    _only_sum(isa)
    return bv_type[p[8]](p[5](T))


def scn_disassemble_tag(isa, tag):
    return Assembler(isa).disassemble_tag(tag)


@spec(actual='scn:scn_disassemble_tag', inline=['peak.assembler.assembler.Assembler'], props=['A01', 'A06'],
      opaque=['peak.assembler.assembler._enum', 'peak.assembler.assembler._tuple', 'peak.assembler.assembler._sum', 'peak.assembler.assembler._field'])
def disassemble_tag(isa, tag):
    p = _parts(isa)
    _only_sum(isa)
    if not p[7](tag):
        raise ValueError()
    return p[6](tag)


def scn_is_valid_tag(isa, tag):
    return Assembler(isa).is_valid_tag(tag)


@spec(actual='scn:scn_is_valid_tag', inline=['peak.assembler.assembler.Assembler'], props=['A03', 'A06'],
      opaque=['peak.assembler.assembler._enum', 'peak.assembler.assembler._tuple', 'peak.assembler.assembler._sum', 'peak.assembler.assembler._field'])
def is_valid_tag(isa, tag):
    p = _parts(isa)
    _only_sum(isa)
    return p[7](tag)


def scn_tag_width(isa):
    return Assembler(isa).tag_width


@spec(actual='scn:scn_tag_width', inline=['peak.assembler.assembler.Assembler'], props=['A02', 'A06'],
      opaque=['peak.assembler.assembler._enum', 'peak.assembler.assembler._tuple', 'peak.assembler.assembler._sum', 'peak.assembler.assembler._field'])
def tag_width(isa):
    p = _parts(isa)
    _only_sum(isa)
    return p[8]


def scn_tag_layout(isa):
    return Assembler(isa).tag_layout


@spec(actual='scn:scn_tag_layout', inline=['peak.assembler.assembler.Assembler'], props=['A02', 'A06', 'A07'],
      opaque=['peak.assembler.assembler._enum', 'peak.assembler.assembler._tuple', 'peak.assembler.assembler._sum', 'peak.assembler.assembler._field'])
def tag_layout(isa):
    p = _parts(isa)
    _only_sum(isa)
    return p[9]
