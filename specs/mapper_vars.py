"""peak.mapper.index_var, peak.mapper.formula_constructor"""
import functools
import operator
from peak.family import SMTFamily
from peak.mapper.formula_constructor import _to_hwtypes, _value_to_str, _op_to_str, _check


@spec(actual='peak.mapper.index_var:IndexVar.__init__', props=['M09'])
def index_init(self, num_entries, name, SMT=SMTFamily()):
    self.num_entries = num_entries
    self.var = SMT.BitVector[self.var_len(num_entries)](prefix=name)
    self.SMT = SMT


@spec(actual='peak.mapper.index_var:IndexVar.match_index', props=['M09'])
def index_match(self, i):
    """the condition that entry i is selected; only entries that exist"""
    if i not in range(self.num_entries):
        raise ValueError()
    return self.var == self.translate_index(self.num_entries, i)


@spec(actual='peak.mapper.index_var:IndexVar.decode', props=['M09'])
def index_decode(self, v):
    """inverse of the encoding"""
    for i in range(self.num_entries):
        if v == self.translate_index(self.num_entries, i):
            return i
    raise ValueError()


@spec(actual='peak.mapper.index_var:OneHot.var_len', props=['M09'])
def onehot_len(num_entries):
    return num_entries


@spec(actual='peak.mapper.index_var:OneHot.translate_index', props=['M09'])
def onehot_code(num_entries, i):
    return 2 ** i


@spec(actual='peak.mapper.index_var:OneHot.is_valid', props=['M09'])
def onehot_valid(self):
    """exactly one bit set"""
    return ((self.var & (self.var - 1)) == 0) & (self.var != 0)


@spec(actual='peak.mapper.index_var:Binary.var_len', props=['M09'])
def binary_len(num_entries):
    """enough bits for the largest index, at least one"""
    return len(bin(num_entries - 1)) - 2


@spec(actual='peak.mapper.index_var:Binary.translate_index', props=['M09'])
def binary_code(num_entries, i):
    return i


@spec(actual='peak.mapper.index_var:Binary.is_valid', props=['M09'])
def binary_valid(self):
    """below the number of entries"""
    if self.num_entries == 2 ** self.var_len(self.num_entries):
        return self.SMT.Bit(True)
    return self.var < self.num_entries


# ---------------------------------------------------------------- formulas

@spec(actual='peak.mapper.formula_constructor:_to_hwtypes', props=['M10'])
def to_hw(v):
    from peak.mapper.formula_constructor import FormulaConstructor
    if isinstance(v, FormulaConstructor):
        return v.to_hwtypes()
    return v


@spec(actual='peak.mapper.formula_constructor:And.__init__', props=['M10'], opaque=['peak.mapper.formula_constructor._check'])
def and_init(self, values):
    self.values = list(values)
    _check(self.values)


@spec(actual='peak.mapper.formula_constructor:And.to_hwtypes', props=['M10'], opaque=['peak.mapper.formula_constructor._to_hwtypes'])
def and_value(self):
    return functools.reduce(operator.and_, [_to_hwtypes(v) for v in self.values])


@spec(actual='peak.mapper.formula_constructor:Or.__init__', props=['M10'], opaque=['peak.mapper.formula_constructor._check'])
def or_init(self, values):
    self.values = list(values)
    _check(self.values)


@spec(actual='peak.mapper.formula_constructor:Or.to_hwtypes', props=['M10'], opaque=['peak.mapper.formula_constructor._to_hwtypes'])
def or_value(self):
    return functools.reduce(operator.or_, [_to_hwtypes(v) for v in self.values])


@spec(actual='peak.mapper.formula_constructor:Implies.__init__', props=['M10'], opaque=['peak.mapper.formula_constructor._check'])
def implies_init(self, p, q):
    self.p = p
    self.q = q
    _check([p, q])


@spec(actual='peak.mapper.formula_constructor:Implies.to_hwtypes', props=['M10'], opaque=['peak.mapper.formula_constructor._to_hwtypes'])
def implies_value(self):
    return ~_to_hwtypes(self.p) | _to_hwtypes(self.q)


@spec(actual='peak.mapper.formula_constructor:And.serialize', props=['M10'], opaque=['peak.mapper.formula_constructor._op_to_str'])
def and_text(self, ts="", indent="|   "):
    return _op_to_str(self.values, "And", ts, indent)


@spec(actual='peak.mapper.formula_constructor:Or.serialize', props=['M10'], opaque=['peak.mapper.formula_constructor._op_to_str'])
def or_text(self, ts="", indent="|   "):
    return _op_to_str(self.values, "Or", ts, indent)


@spec(actual='peak.mapper.formula_constructor:Implies.serialize', props=['M10'], opaque=['peak.mapper.formula_constructor._op_to_str'])
def implies_text(self, ts="", indent="|   "):
    return _op_to_str((self.p, self.q), "Implies", ts, indent)


@spec(actual='peak.mapper.formula_constructor:_value_to_str', props=['M10'])
def value_text(v, ts, indent):
    from peak.mapper.formula_constructor import FormulaConstructor
    if isinstance(v, FormulaConstructor):
        return v.serialize(ts, indent)
    return f"{ts}{v.value.serialize()}"


@spec(actual='peak.mapper.formula_constructor:_op_to_str', props=['M10'], opaque=['peak.mapper.formula_constructor._value_to_str'])
def op_text(vs, opname, ts, indent):
    inner = ts + indent
    return "\n".join([f"{ts}{opname}(",
                      ",\n".join([_value_to_str(v, inner, indent) for v in vs]),
                      f"{ts})"])
