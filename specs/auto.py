"""The deprecated assembler generator (peak.auto_assembler)."""
from hwtypes import AbstractBitVector, BitVector, AbstractBit
from hwtypes.adt import Enum, Product, Sum, Tuple
from peak.auto_assembler import _issubclass, _enum, _product, _sum, _bv_field, _bv_const, get_width, generate_assembler


@spec(actual='peak.auto_assembler:_issubclass', props=['A08'])
def issubclass_(sub, parent):
    try:
        return issubclass(sub, parent)
    except TypeError:
        return False


@spec(actual='peak.auto_assembler:get_width', props=['A08'], opaque=['peak.auto_assembler._enum'])
def width(isa):
    """the width every encoding of the type has"""
    if _issubclass(isa, Enum):
        return _enum(isa)[2]
    if _issubclass(isa, (Tuple, Product)):
        return sum(map(get_width, isa.fields))
    if _issubclass(isa, Sum):
        return max(map(get_width, isa.fields)) + len(isa.fields).bit_length()
    if _issubclass(isa, AbstractBitVector):
        return isa.size
    if _issubclass(isa, AbstractBit) or isinstance(isa, AbstractBit):
        return 1
    if isinstance(isa, AbstractBitVector):
        return isa.size
    if isinstance(isa, int):
        return BitVector(isa).size
    raise TypeError()


@spec(actual='peak.auto_assembler:_enum', parts={0: ['A08'], 1: ['A08'], 2: ['A08'], 3: ['A08', 'J01']})
def enum(isa):
    """one code per member, no code twice"""
    code = {}
    taken = set()
    pending = []
    for member in isa.enumerate():
        if isinstance(member.value, int):
            taken.add(member.value)
            code[member] = member.value
        else:
            pending.append(member)
    nxt = 0
    while pending:
        member = pending.pop()
        while nxt in taken:
            nxt += 1
        taken.add(nxt)
        code[member] = nxt
    w = max(taken).bit_length()
    layout = {}
    to_code = {}
    to_member = {}
    for member in isa.enumerate():
        c = BitVector[w](code[member])
        layout[member] = (0, w, None)
        to_code[member] = c
        to_member[c] = member
    return (lambda inst: to_code[inst]), (lambda bv: to_member[bv]), w, layout


@spec(actual='peak.auto_assembler:_product', parts={0: ['A08'], 1: ['A08'], 2: ['A08'], 3: ['A08', 'J01']},
      opaque=['peak.auto_assembler.get_width', 'peak.auto_assembler.generate_assembler'])
def product(isa):
    """fields side by side in declaration order"""
    w = get_width(isa)
    enc = {}
    dec = {}
    layout = {}
    at = 0
    for name, T in isa.field_dict.items():
        parts = generate_assembler(T)
        enc[name] = parts[0]
        dec[name] = parts[1]
        layout[name] = (at, at + parts[2], parts[3])
        at = at + parts[2]

    def assemble(inst):
        word = BitVector[w](0)
        for name, v in inst.value_dict.items():
            word |= BitVector[w](enc[name](v)) << layout[name][0]
        return word

    def disassemble(opcode):
        return isa(*[d(opcode[layout[name][0]:layout[name][1]]) for name, d in dec.items()])
    return assemble, disassemble, w, layout


@spec(actual='peak.auto_assembler:_sum', parts={0: ['A08', 'A05'], 1: ['A08', 'A05'], 2: ['A08'], 3: ['A08', 'J01']},
      opaque=['peak.auto_assembler.get_width', 'peak.auto_assembler.generate_assembler'])
def sum_(isa):
    """tag below payload; tags number the alternatives in a fixed order"""
    w = get_width(isa)
    tag_width = len(isa.fields).bit_length()
    enc = {}
    dec = {}
    layout = {}
    for n, T in enumerate(sorted(isa.fields, key=lambda T: (T.__name__, T.__module__))):
        t = BitVector[tag_width](n)
        parts = generate_assembler(T)
        enc[T] = t, parts[0]
        dec[t] = parts[1], parts[2]
        layout[T] = (tag_width, tag_width + parts[2], parts[3])

    def assemble(inst):
        t, e = enc[type(inst.value)]
        word = BitVector[w](0)
        payload = BitVector[w](e(inst.value))
        word |= t.zext(w - tag_width)
        word |= payload << tag_width
        return word

    def disassemble(opcode):
        d, pw = dec[opcode[0:tag_width]]
        return isa(d(opcode[tag_width:tag_width + pw]))
    return assemble, disassemble, w, layout


@spec(actual='peak.auto_assembler:_bv_field', props=['A08'], opaque=['peak.auto_assembler.get_width'])
def bv_field(isa):
    return (lambda inst: inst), (lambda opcode: isa(opcode)), get_width(isa), None


@spec(actual='peak.auto_assembler:_bv_const', props=['A08', 'A06'], opaque=['peak.auto_assembler.get_width'])
def bv_const(isa):
    """a constant accepts only itself"""
    def assemble(inst):
        if inst != isa:
            raise ValueError()
        return inst

    def disassemble(opcode):
        if opcode != isa:
            raise ValueError()
        return type(isa)(opcode)
    return assemble, disassemble, get_width(isa), None


@spec(actual='peak.auto_assembler:generate_assembler', props=['A08'],
      opaque=['peak.auto_assembler._enum', 'peak.auto_assembler._product', 'peak.auto_assembler._sum',
              'peak.auto_assembler._bv_field', 'peak.auto_assembler._bv_const'])
def generate(isa):
    if _issubclass(isa, Enum):
        return _enum(isa)
    if _issubclass(isa, Product):
        return _product(isa)
    if _issubclass(isa, Sum):
        return _sum(isa)
    if _issubclass(isa, AbstractBitVector):
        return _bv_field(isa)
    if isinstance(isa, AbstractBitVector):
        return _bv_const(isa)
    if _issubclass(isa, AbstractBit):
        return _bv_field(isa)
    if isinstance(isa, AbstractBit):
        return _bv_const(isa)
    raise TypeError()
