"""peak.mapper.utils: forms of an assembled type, simplification of bindings, constants."""
import functools
import itertools
import operator
from collections import OrderedDict
from functools import wraps
from hwtypes import BitVector, Bit, SMTBitVector, SMTBit
from hwtypes.adt_util import rebind_type

from peak import family
from peak.assembler import AssembledADT, _TAG
from peak.mapper.utils import Form, Match, Unbound, rebind_value, _sort_by_t


def _joined(path):
    return ".".join(str(n) for n in path)


# ---------------------------------------------------------------- forms

@spec(actual='peak.mapper.utils:SMTForms.__call__', props=['M07'])
def forms_call(self, aadt_t, path=(), value=None):
    return super().__call__(aadt_t, path=path, value=value)


@spec(actual='peak.mapper.utils:SMTForms.bv', props=['M07'])
def forms_bv(self, aadt_t, path, value):
    """a leaf has one form: its value (a free variable when none is given)"""
    leaf = aadt_t(prefix=_joined(path)) if value is None else value
    varmap = {path: leaf}
    return [Form(value=leaf, path_dict={}, varmap=varmap)], varmap, leaf


@spec(actual='peak.mapper.utils:SMTForms.enum', props=['M07'])
def forms_enum(self, aadt_t, path, value):
    """the leaf variable is the word, the form value the member it encodes"""
    if value is None:
        adt_t, assembler_t, bv_t = aadt_t.fields
        word = bv_t[assembler_t(adt_t).width](prefix=_joined(path))
        member = aadt_t(word)
    else:
        word = value._value_
        member = value
    varmap = {path: word}
    return [Form(value=member, path_dict={}, varmap=varmap)], varmap, member


@spec(actual='peak.mapper.utils:SMTForms.sum', props=['M07'])
def forms_sum(self, aadt_t, path, value):
    """one form per alternative and form of the alternative, recording the choice;
    the value selects the alternative whose tag matches"""
    adt_t, assembler_t, bv_t = aadt_t.fields
    tag = SMTBitVector[aadt_t._assembler_.tag_width]() if value is None else value[_TAG]
    forms = []
    varmap = {path + (_TAG,): tag, path + (Match,): {}}
    choices = {}
    for field in list(adt_t.fields):
        inner = None if value is None else value[field].value
        sub_forms, sub_varmap, sub_value = self(aadt_t[field], path=path + (field,), value=inner)
        whole = aadt_t.from_fields(field, sub_value, tag_bv=tag)
        for f in sub_forms:
            forms.append(Form(
                value=aadt_t.from_fields(field, f.value, tag_bv=tag) if value is None else value,
                path_dict={path: field, **f.path_dict},
                varmap=f.varmap))
        cond = whole[field].match
        varmap[path + (Match,)][field] = cond
        choices[field] = (whole, cond)
        varmap.update(sub_varmap)
    items = list(choices.items())
    result = items[0][1][0]
    for field, (v, cond) in items[1:]:
        result = cond.ite(v, result)
    return forms, varmap, result


@spec(actual='peak.mapper.utils:SMTForms.tagged_union', props=['M07'])
def forms_tagged(self, aadt_t, path, value):
    adt_t, assembler_t, bv_t = aadt_t.fields
    if value is None:
        tag = SMTBitVector[aadt_t._assembler_.tag_width](prefix=".".join([str(p) for p in path] + ["TAG"]))
    else:
        tag = value[_TAG]
    forms = []
    varmap = {path + (_TAG,): tag, path + (Match,): {}}
    choices = {}
    for name, T in adt_t.field_dict.items():
        sub_t = getattr(aadt_t, name)
        inner = None if value is None else getattr(value, name).value
        sub_forms, sub_varmap, sub_value = self(sub_t, path=path + (name,), value=inner)
        whole = aadt_t.from_fields(tag_bv=tag, **{name: sub_value})
        for f in sub_forms:
            forms.append(Form(
                value=aadt_t.from_fields(tag_bv=tag, **{name: f.value}) if value is None else value,
                path_dict={path: name, **f.path_dict},
                varmap=f.varmap))
        cond = getattr(whole, name).match
        varmap[path + (Match,)][name] = cond
        choices[name] = (whole, cond)
        varmap.update(sub_varmap)
    items = list(choices.items())
    result = items[0][1][0]
    for name, (v, cond) in items[1:]:
        result = cond.ite(v, result)
    return forms, varmap, result


@spec(actual='peak.mapper.utils:SMTForms.product', props=['M07'])
def forms_product(self, aadt_t, path, value):
    """every combination of forms of the fields; the combined value carries them in
    declaration order"""
    adt_t, assembler_t, bv_t = aadt_t.fields
    varmap = {}
    values = {}
    per_field = []
    names = list(adt_t.field_dict.items())
    for name, T in names:
        sub_forms, sub_varmap, sub_value = self(aadt_t[name], path=path + (name,),
                                                value=None if value is None else value[name])
        values[name] = sub_value
        varmap.update(sub_varmap)
        per_field.append(sub_forms)
    whole = aadt_t.from_fields(**values)
    forms = []
    for combination in itertools.product(*per_field):
        fields = {}
        choices = {}
        leaves = {}
        for i, f in enumerate(combination):
            fields[names[i][0]] = f.value
            choices.update(f.path_dict)
            leaves.update(f.varmap)
        forms.append(Form(value=aadt_t.from_fields(**fields), path_dict=choices, varmap=leaves))
    return forms, varmap, whole


@spec(actual='peak.mapper.utils:SMTForms.tuple', props=['M07'])
def forms_tuple(self, aadt_t, path, value):
    adt_t, assembler_t, bv_t = aadt_t.fields
    varmap = {}
    values = []
    per_field = []
    for k, T in adt_t.field_dict.items():
        sub_forms, sub_varmap, sub_value = self(aadt_t[k], path=path + (k,),
                                                value=None if value is None else value[k])
        values.append(sub_value)
        varmap.update(sub_varmap)
        per_field.append(sub_forms)
    whole = aadt_t.from_fields(*values)
    forms = []
    for combination in itertools.product(*per_field):
        fields = []
        choices = {}
        leaves = {}
        for f in combination:
            fields.append(f.value)
            choices.update(f.path_dict)
            leaves.update(f.varmap)
        forms.append(Form(value=aadt_t.from_fields(*fields), path_dict=choices, varmap=leaves))
    return forms, varmap, whole


# ---------------------------------------------------------------- simplification of bindings

@spec(actual='peak.mapper.utils:check_leaf', props=['M03'])
def check_leaf_(required=False):
    """a binding that already is one value for the whole is left alone"""
    def dec(f):
        @wraps(f)
        def method(self, aadt_t, binding):
            if len(binding) == 1 and binding[0][1] == ():
                return binding
            return f(self, aadt_t, binding)
        return method
    return dec


@spec(actual='peak.mapper.utils:SimplifyBinding.__call__', props=['M03'])
def simplify_call(self, aadt_t, binding):
    return super().__call__(aadt_t, binding)


@spec(actual='peak.mapper.utils:SimplifyBinding.sum', props=['M03'],
      opaque=['peak.mapper.utils.SimplifyBinding.tagged_or_sum'])
def simplify_sum(self, aadt_t, binding):
    return self.tagged_or_sum(aadt_t, binding, operator.getitem, aadt_t.from_fields)


@spec(actual='peak.mapper.utils:SimplifyBinding.tagged_union', props=['M03'],
      opaque=['peak.mapper.utils.SimplifyBinding.tagged_or_sum'])
def simplify_tagged(self, aadt_t, binding):
    def build(tag, value):
        return aadt_t.from_fields(**{tag: value})
    return self.tagged_or_sum(aadt_t, binding, getattr, build)


@spec(actual='peak.mapper.utils:SimplifyBinding.product', props=['M03'],
      opaque=['peak.mapper.utils.SimplifyBinding.product_or_tuple'])
def simplify_product(self, aadt_t, binding):
    return self.product_or_tuple(aadt_t, binding, is_product=True)


@spec(actual='peak.mapper.utils:SimplifyBinding.tuple', props=['M03'],
      opaque=['peak.mapper.utils.SimplifyBinding.product_or_tuple'])
def simplify_tuple(self, aadt_t, binding):
    return self.product_or_tuple(aadt_t, binding, is_product=False)


@spec(actual='peak.mapper.utils:SimplifyBinding.tagged_or_sum', props=['M03'])
def simplify_choice(self, aadt_t, binding, getter, builder):
    """the value of the chosen alternative, once it is complete, becomes the value of
    the choice; otherwise the paths keep the alternative in front"""
    choice = binding[0][1][0]
    inner = [(ir_path, arch_path[1:]) for ir_path, arch_path in binding]
    simplified = self(getter(aadt_t, choice), inner)
    if len(simplified) == 1 and not isinstance(simplified[0][0], tuple):
        return [(builder(choice, simplified[0][0]), ())]
    return [(ir_path, (choice,) + arch_path) for ir_path, arch_path in simplified]


@spec(actual='peak.mapper.utils:SimplifyBinding.product_or_tuple', props=['M03'])
def simplify_record(self, aadt_t, binding, *, is_product):
    """when every field is one bound value the record is that value"""
    by_field = {}
    for ir_path, arch_path in binding:
        by_field.setdefault(arch_path[0], []).append((ir_path, arch_path[1:]))
    simplified = {}
    complete = True
    for name, sub in by_field.items():
        s = self(aadt_t[name], sub)
        simplified[name] = s
        complete &= len(s) == 1 and not (isinstance(s[0][0], tuple) or s[0][0] is Unbound)
    if complete:
        values = {name: s[0][0] for name, s in simplified.items()}
        if is_product:
            return [(aadt_t.from_fields(**values), ())]
        return [(aadt_t.from_fields(*[v for _, v in sorted(values.items())]), ())]
    out = []
    for name, s in simplified.items():
        out += [(ir_path, (name,) + arch_path) for ir_path, arch_path in s]
    return out


# ---------------------------------------------------------------- constants

@spec(actual='peak.mapper.utils:log2', props=['M03'])
def log2_(x):
    return x.bit_length() - 1


@spec(actual='peak.mapper.utils:solved_to_bv', props=['M01', 'M02', 'M11'])
def solved(var, solver):
    """the value of the model, at the type of the variable"""
    v = solver.get_value(var.value).constant_value()
    if isinstance(var, SMTBit):
        return Bit(v)
    return BitVector[var.size](v)


@spec(actual='peak.mapper.utils:rebind_value', props=['M01', 'M02', 'M03'])
def rebind_value_(val, _family):
    """the same constant in another family"""
    if isinstance(val, family.PyFamily().BitVector):
        return _family.BitVector[val.size](val.value)
    if isinstance(val, family.PyFamily().Bit):
        return _family.Bit(val)
    if isinstance(val, family.SMTFamily().BitVector):
        if not val._value_.is_constant():
            raise ValueError()
        return _family.BitVector[val.size](val._value_.constant_value())
    if isinstance(val, family.SMTFamily().Bit):
        if not val._value_.is_constant():
            raise ValueError()
        return _family.Bit(val._value_.constant_value())
    raise ValueError()


@spec(actual='peak.mapper.utils:rebind_binding', props=['M01', 'M02', 'M03'], opaque=['peak.mapper.utils.rebind_value'])
def rebind_binding_(binding, _family):
    """only constants move, paths stay"""
    out = []
    for ir_path, arch_path in binding:
        if isinstance(ir_path, tuple) or ir_path is Unbound:
            moved = ir_path
        else:
            moved = rebind_value(ir_path, _family)
        out.append((moved, arch_path[:-1] + (rebind_type(arch_path[-1], _family),)))
    return out


@spec(actual='peak.mapper.utils:aadt_product_to_dict', props=['M01', 'M02', 'M03'])
def to_dict(value):
    out = OrderedDict()
    for name in type(value).adt_t.field_dict:
        out[name] = value[name]
    return out


# ---------------------------------------------------------------- bindings

@spec(actual='peak.mapper.utils:_sort_by_t', props=['M06'])
def sort_by_t(path2t):
    by_t = {}
    for path, t in path2t.items():
        by_t.setdefault(t, []).append(path)
    return by_t


@spec(actual='peak.mapper.utils:create_bindings', props=['M06'], opaque=['peak.mapper.utils._sort_by_t'])
def bindings(arch_flat, ir_flat):
    """every assignment of the paths of one type to paths of the same type or Unbound
    that uses each ir path exactly once"""
    arch_by_t = _sort_by_t(arch_flat)
    ir_by_t = _sort_by_t(ir_flat)
    if not all(T in arch_by_t for T in ir_by_t):
        return []
    matching = OrderedDict()
    for T, arch_paths in arch_by_t.items():
        ir_paths = ir_by_t.setdefault(T, [])
        possible = tuple(ir_paths) + (Unbound,)

        def once(choice):
            return all(choice.count(p) == 1 for p in ir_paths)
        matching[T] = [list(zip(choice, arch_paths))
                       for choice in filter(once, itertools.product(*[possible for _ in range(len(arch_paths))]))]
    return [list(itertools.chain(*parts)) for parts in itertools.product(*matching.values())]
