"""Peak classes: interface extraction, attribute registers, closures, registers, memories."""
import functools
import types
import warnings
from collections import OrderedDict
from hwtypes import BitVector, make_modifier
from hwtypes.adt import Product, Tuple
from hwtypes.adt_util import rebind_type
import magma as m
from peak import family as _family
from peak.peak import Peak, PeakMeta, _is_dunder, _null
from peak.features import family_closure, gen_input_t, gen_output_t, typecheck
from peak.register import gen_register2


# ---------------------------------------------------------------- interface

@spec(actual='peak.features:gen_input_t', props=['E01', 'A06'])
def input_t(call_fn):
    """a record with one field per positional parameter after self, in declaration
    order, of the annotated type; an unannotated one is refused"""
    if hasattr(call_fn, '_input_t'):
        return call_fn
    skip = 1 if call_fn.__name__ == '__call__' else 0
    names = call_fn.__code__.co_varnames[skip:call_fn.__code__.co_argcount]
    annotations = call_fn.__annotations__
    annotated = set(annotations.keys())
    if 'return' in annotated:
        annotated.remove('return')
    if set(names) != annotated:
        raise ValueError()
    fields = {}
    for name in names:
        fields[name] = annotations[name]
    if len(fields) == 0:
        T = None
    else:
        T = Product.from_fields('Input', fields)
    call_fn._input_t = T
    return call_fn


@spec(actual='peak.features:gen_output_t', props=['E01', 'A06'])
def output_t(call_fn):
    if hasattr(call_fn, '_output_t'):
        return call_fn
    try:
        out = call_fn.__annotations__['return']
    except KeyError:
        raise ValueError()
    except AttributeError:
        raise ValueError()
    if out is None:
        T = None
    else:
        if not isinstance(out, tuple):
            out = (out,)
        T = Tuple[out]
    call_fn._output_t = T
    return call_fn


@spec(actual='peak.features:name_outputs', props=['E01'])
def name_outputs(**outputs):
    fields = {}
    for name, T in outputs.items():
        fields[name] = T
    out = Product.from_fields('Output', fields)

    def deco(call_fn):
        call_fn._output_t = out
        return call_fn
    return deco


@spec(actual='peak.features:typecheck', props=['E01', 'A06'])
def typecheck_(call_fn):
    """every result is an instance of the declared type, the value is untouched"""
    if not hasattr(call_fn, '_output_t'):
        raise ValueError()
    out = call_fn._output_t

    @functools.wraps(call_fn)
    def checked(*args, **kwargs):
        results = call_fn(*args, **kwargs)
        alone = not isinstance(results, tuple)
        if alone:
            results = (results,)
        for i, (name, T) in enumerate(out.field_dict.items()):
            if not isinstance(results[i], T):
                raise TypeError()
        if alone:
            return results[0]
        return results
    return checked


@spec(actual='peak.peak:PeakMeta.__new__', props=['E01'],
      opaque=['peak.features.gen_input_t', 'peak.features.gen_output_t', 'peak.features.typecheck'])
def meta_new(mcs, name, bases, attrs, gen_input_t=True, gen_output_t=True, typecheck=False, **kwargs):
    """only a class that defines its own call gets an interface"""
    from peak.features import gen_input_t as i, gen_output_t as o, typecheck as t
    cls = super().__new__(mcs, name, bases, attrs, **kwargs)
    if '__call__' in attrs:
        if gen_output_t:
            cls.__call__ = o(cls.__call__)
        if gen_input_t:
            cls.__call__ = i(cls.__call__)
        if typecheck:
            cls.__call__ = t(cls.__call__)
    return cls


@spec(actual='peak.peak:PeakMeta.input_t', props=['E01'])
def meta_input(cls):
    return cls.__call__._input_t


@spec(actual='peak.peak:PeakMeta.output_t', props=['E01'])
def meta_output(cls):
    return cls.__call__._output_t


# ---------------------------------------------------------------- attribute registers

@spec(actual='peak.peak:_is_dunder', props=['D02'])
def is_dunder(name):
    return (len(name) > 4 and name[:2] == name[-2:] == '__'
            and name[2] != '_' and name[-3] != '_')


@spec(actual='peak.peak:Peak.__getattribute__', props=['D02'], opaque=['peak.peak._is_dunder'])
def getattribute(self, attr):
    """reading an attribute that holds a register gives its content"""
    held = super().__getattribute__(attr)
    if _is_dunder(attr):
        return held
    try:
        read = held._peak_
    except AttributeError:
        return held
    return read()


@spec(actual='peak.peak:Peak.__setattr__', props=['D02'], opaque=['peak.peak._is_dunder'])
def setattr_(self, attr, value):
    """assigning to an attribute that holds a register writes it, anything else
    replaces the attribute"""
    if _is_dunder(attr):
        return super().__setattr__(attr, value)
    try:
        held = super().__getattribute__(attr)
    except AttributeError:
        return super().__setattr__(attr, value)
    write = getattr(held, '_poke_', _null)
    if write is _null:
        return super().__setattr__(attr, value)
    return write(value)


# ---------------------------------------------------------------- closures

@spec(actual='peak.features:family_closure.__init__', props=['C01'])
def closure_init(self, arg):
    self.is_bound = False
    if isinstance(arg, types.FunctionType):
        self._family_ = _family
        self.is_bound = True
        self.fc = arg
        self.cache = {}
    else:
        self._family_ = arg


@spec(actual='peak.features:family_closure.__call__', props=['C03', 'C01'])
def closure_call(self, *args, **kwargs):
    """one class per family: the arguments are the key"""
    if not self.is_bound:
        self._bind(*args, **kwargs)
        return self
    key = (args, tuple(kwargs.items()))
    if key in self.cache:
        return self.cache[key]
    res = self.fc(*args, **kwargs)
    self.cache[key] = res
    return res


@spec(actual='peak.features:family_closure.family', props=['C01'])
def closure_family(self):
    return self._family_


@spec(actual='peak.features:family_closure.Py', props=['C01'])
def closure_py(self):
    return self(self.family.PyFamily())


@spec(actual='peak.features:family_closure.PyX', props=['C01'])
def closure_pyx(self):
    return self(self.family.PyXFamily())


@spec(actual='peak.features:family_closure.SMT', props=['C01'])
def closure_smt(self):
    return self(self.family.SMTFamily())


@spec(actual='peak.features:family_closure.Magma', props=['C01'])
def closure_magma(self):
    return self(self.family.MagmaFamily())


# ---------------------------------------------------------------- registers and memories

@spec(actual='peak.register:gen_register', props=['D01'])
def gen_register(T, init=0):
    """a register of the type in the family of the closure"""
    @family_closure
    def Register_fc(family):
        return family.gen_register(rebind_type(T, family), init)
    return Register_fc


@spec(actual='peak.register:gen_register2', props=['D01', 'D03'])
def gen_register2_(family, T, init=0):
    class Register(Peak):
        def __init__(self):
            self.value = init

        def __call__(self, value: T, en: family.Bit) -> T:
            before = self.value
            if en:
                self.value = value
            else:
                self.value = self.value
            return before
    if family.Bit is m.Bit:
        return m.circuit.sequential(Register)
    return Register


@spec(actual='peak.memory:ROM.__init__', props=['D03'], opaque=['peak.register.gen_register2'])
def rom_init(self, type, n, mem, init=0):
    """one cell per address; the ones without given content start at init"""
    cells = []
    for i in range(n):
        cells.append(gen_register2(BitVector.get_family(), type, mem[i] if i < len(mem) else init)())
    self.mem = cells


@spec(actual='peak.memory:ROM.__call__', props=['D03'])
def rom_call(self, addr):
    """a read never writes"""
    return self.mem[int(addr)](0, 0)


@spec(actual='peak.memory:RAM.__call__', props=['D03'])
def ram_call(self, addr, data, wen):
    return self.mem[int(addr)](data, wen)


@spec(actual='peak.memory:RAM.__init__', props=['D03'], opaque=['peak.register.gen_register2'])
def ram_init(self, type, n, mem, init=0):
    cells = []
    for i in range(n):
        cells.append(gen_register2(BitVector.get_family(), type, mem[i] if i < len(mem) else init)())
    self.mem = cells
