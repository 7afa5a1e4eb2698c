"""IR instructions and RTL wrapping."""
import itertools as it
from collections import OrderedDict
import magma as m
from peak.peak import Peak
from peak.features import name_outputs, family_closure
from peak.ir import _TAB_SIZE


@spec(actual='peak.ir:IR.__init__', props=['I01'])
def init(self):
    self.instructions = {}


@spec(actual='peak.ir:IR.add_instruction', props=['I01', 'A06'])
def add(self, name, peak_fc):
    """names are unique"""
    if name in self.instructions:
        raise ValueError()
    self.instructions[name] = peak_fc


@spec(actual='peak.ir:IR.add_peak_instruction', props=['I01'],
      opaque=['peak.ir.IR.add_instruction'])
def add_peak(self, name, input_interface, output_interface, fun, cls_name=None):
    """the class has exactly the fields of the given interfaces, in order, and calls
    the function with the family and the inputs in order"""
    if cls_name is None:
        cls_name = name
    inputs = input_interface.field_dict
    outputs = output_interface.field_dict
    tab = ' ' * _TAB_SIZE
    names = {}
    n = 0
    for t in it.chain(inputs.values(), outputs.values()):
        if t not in names:
            names[t] = f"t{n}"
            n += 1
    lines = ["@_family_closure", "def peak_fc(family):"]
    for t, tname in names.items():
        lines.append(f"{tab*1}_{tname} = {tname}")
    lines.append(f"{tab*1}class {cls_name}(Peak):")
    outs = ", ".join([f"{field} = _{names[t]}" for field, t in outputs.items()])
    ins = ", ".join([f"{field} : _{names[t]}" for field, t in inputs.items()])
    args = "family, " + ", ".join(inputs.keys())
    lines.append(f"{tab*2}@name_outputs({outs})")
    lines.append(f"{tab*2}def __call__(self, {ins}):")
    lines.append(f"{tab*3}return _fun_({args})")
    lines.append(f"{tab*1}return {cls_name}")
    scope = {}
    env = {tname: t for t, tname in names.items()}
    env.update(dict(Peak=Peak, name_outputs=name_outputs, _fun_=fun, _family_closure=family_closure))
    exec('\n'.join(lines), env, scope)
    self.add_instruction(name, scope['peak_fc'])


@spec(actual='peak.rtl_utils:wrap_with_disassembler', props=['J01'])
def wrap(PE, disassembler, width, layout, inst_type, wrapped_name="WrappedPE"):
    """the instruction port becomes a flat word whose ranges drive the fields, all
    other ports pass through"""
    ports = OrderedDict()
    for name, port in PE.interface.ports.items():
        if isinstance(port, m.Out(inst_type)):
            ports[name] = m.In(m.Bits[width])
        else:
            ports[name] = m.Flip(type(port))

    def connect(word, inst, layout):
        if isinstance(word, m.Product):
            for name, place in layout.items():
                connect(word[place[0]:place[1]], getattr(inst, name), place[2])
        else:
            for name, place in layout.items():
                part = word[place[0]:place[1]]
                field = getattr(inst, name)
                if issubclass(type(field), m.Digital):
                    part = m.bit(part)
                m.wire(part, field)

    class WrappedPE(m.Circuit):
        name = wrapped_name
        io = m.IO(**ports)
        pe = PE()
        for key, value in PE.interface.ports.items():
            if type(value) == m.Out(inst_type):
                connect(getattr(io, key), getattr(pe, key), layout)
            elif value.is_output():
                m.wire(getattr(pe, key), getattr(io, key))
            else:
                m.wire(getattr(io, key), getattr(pe, key))
    return WrappedPE
