"""peak.mapper.mapper: rewrite rules, their verification and their search."""
import functools
import inspect
import itertools
import operator
import random
from collections import defaultdict
from hwtypes import AbstractBit, AbstractBitVector, Bit, BitVector
from hwtypes.adt import Product, Tuple, is_adt_type
from hwtypes.adt_meta import GetitemSyntax, AttrSyntax, EnumMeta
from hwtypes.adt_util import rebind_type
from hwtypes.modifiers import strip_modifiers, wrap_modifier, unwrap_modifier
import pysmt.shortcuts as smt
from pysmt.logics import BV

from peak import family_closure, Const, Peak
from peak import family as peak_family
from peak.assembler import Assembler, AssembledADT
from peak.black_box import get_black_boxes
from peak.mapper.formula_constructor import And, Or, Implies
from peak.mapper.index_var import OneHot
from peak.mapper.mapper import (
    _create_free_var, _get_peak_cls, wrap_outputs, _create_path_to_adt, create_and_set_bb_outputs, get_bb_inputs,
    is_valid, RewriteRule, _free_var_from_t, update_with_bb, IRMapper, _input_aadt_t, rr_from_solver,
    _int_to_pysmt, _gen_random, _gen_initial, LoopException, external_loop_solve, strip_aadt)
from peak.mapper.utils import (SMTForms, SimplifyBinding, Unbound, Match, create_bindings, aadt_product_to_dict,
                               solved_to_bv, rebind_binding, pretty_print_binding)


@spec(actual='peak.mapper.mapper:_create_free_var', props=['M01', 'M11'])
def free_var(aadt, name, SMT=peak_family.SMTFamily()):
    """an unconstrained value of the type"""
    if issubclass(aadt, AbstractBit):
        return SMT.Bit(prefix=name)
    if issubclass(aadt, AbstractBitVector):
        width = aadt.size
    else:
        width = aadt._assembler_.width
    return aadt(SMT.BitVector[width](prefix=f"{name}"))


@spec(actual='peak.mapper.mapper:_get_peak_cls', props=['M01', 'M11'])
def peak_cls(fc_out):
    outs = fc_out if isinstance(fc_out, tuple) else (fc_out,)
    found = [cls for cls in outs if inspect.isclass(cls) and issubclass(cls, Peak)]
    if len(found) != 1:
        raise ValueError()
    return found[0]


@spec(actual='peak.mapper.mapper:wrap_outputs', props=['M01', 'M02', 'M11'])
def wrap(outputs, output_aadt):
    """the results, in order, as the fields of the output type"""
    T = output_aadt.adt_t
    outs = outputs if isinstance(outputs, tuple) else (outputs,)
    if issubclass(T, Product):
        return output_aadt.from_fields(**{field: outs[i] for i, field in enumerate(T.field_dict)})
    return output_aadt.from_fields(*outs)


@spec(actual='peak.mapper.mapper:_create_path_to_adt', props=['M06', 'M01', 'M03'])
def path_to_adt(adt_t, path=(), mods=[]):
    """every leaf by its path, with all modifiers of the types around it"""
    inner, here = unwrap_modifier(adt_t)
    mods = here + mods
    leaves = {}
    if isinstance(inner, (AttrSyntax, GetitemSyntax)) and not isinstance(inner, EnumMeta):
        for name, T in inner.field_dict.items():
            leaves.update(_create_path_to_adt(T, path + (name,), mods))
    else:
        leaves[path] = wrap_modifier(inner, mods)
    return leaves


@spec(actual='peak.mapper.mapper:create_and_set_bb_outputs', props=['M01', 'M02', 'F02'])
def bb_outputs(peak_obj, family=peak_family, prefix=""):
    """every output of every black box is a free variable"""
    outs = {}
    for path, bb in get_black_boxes(peak_obj).items():
        values = [rebind_type(T, family.SMTFamily())(prefix=".".join(str(p) for p in (prefix, *path, name)))
                  for name, T in type(bb).output_t.field_dict.items()]
        outs[path] = tuple(values)
        bb._set_outputs(*values)
    return outs


@spec(actual='peak.mapper.mapper:get_bb_inputs', props=['M01', 'M02', 'F02'])
def bb_inputs(peak_obj):
    return {path: bb._get_inputs() for path, bb in get_black_boxes(peak_obj).items()}


# ---------------------------------------------------------------- mappers

@spec(actual='peak.mapper.mapper:SMTMapper.__init__', props=['M01'],
      opaque=['peak.mapper.mapper._get_peak_cls', 'peak.mapper.mapper.create_and_set_bb_outputs',
              'peak.mapper.mapper.is_valid', 'peak.mapper.mapper.wrap_outputs', 'peak.mapper.utils.aadt_product_to_dict',
              'peak.mapper.mapper.SMTMapper.path_to_adt'])
def smt_init(self, peak_fc, family=peak_family, IVar=OneHot):
    """the class is run once per input form; constants of each form have to be valid"""
    self.family = family
    if not isinstance(peak_fc, family_closure):
        raise ValueError()
    cls = _get_peak_cls(peak_fc(family.SMTFamily()))
    try:
        input_t = cls.input_t
        output_t = cls.output_t
    except AttributeError:
        raise ValueError()
    self.input_aadt_t = family.SMTFamily().get_adt_t(strip_modifiers(input_t))
    output_aadt_t = family.SMTFamily().get_adt_t(strip_modifiers(output_t))
    self.peak_obj = cls()
    self.bb_outputs = create_and_set_bb_outputs(self.peak_obj, family=family, prefix=f"BB.{cls.__name__}")
    self.output_aadt_t = output_aadt_t
    input_forms, input_varmap, input_value = SMTForms()(self.input_aadt_t)
    self.input_value = input_value
    const_fields = [field for field, T in input_t.field_dict.items() if issubclass(T, Const)]
    self.const_valid_conditions = []
    output_forms = []
    for form in input_forms:
        inputs = aadt_product_to_dict(form.value)
        self.const_valid_conditions.append([is_valid(inputs[field]) for field in const_fields])
        outputs = self.peak_obj(**inputs)
        forms, _varmap, _value = SMTForms()(output_aadt_t, value=wrap_outputs(outputs, output_aadt_t))
        output_forms.append(forms)
    self.peak_fc = peak_fc
    self.input_form_var = IVar(len(output_forms), name=f"fi", SMT=family.SMTFamily())
    self.output_form_var = IVar(len(output_forms[0]), name=f"fo", SMT=family.SMTFamily())
    self.input_forms = input_forms
    self.output_forms = output_forms
    self.num_output_forms = len(output_forms[0])
    self.num_input_forms = len(output_forms)
    self.input_varmap = input_varmap
    self.const_paths = set(path for path, T in self.path_to_adt(True, strip=False).items() if issubclass(T, Const))


@spec(actual='peak.mapper.mapper:SMTMapper.path_to_adt', props=['M06', 'M01'], opaque=['peak.mapper.mapper._create_path_to_adt'])
def mapper_paths(self, input, strip=False):
    cls = self.peak_fc.Py
    T = cls.input_t if input else cls.output_t
    if strip:
        T = strip_modifiers(T)
    return _create_path_to_adt(T)


@spec(actual='peak.mapper.mapper:ArchMapper.__init__', props=['M08'],
      opaque=['peak.mapper.mapper.SMTMapper.path_to_adt'])
def arch_init(self, arch_fc, *, path_constraints={}, family=peak_family, IVar=OneHot):
    """a constraint names a leaf of the input and its values are values of the leaf's type"""
    super().__init__(arch_fc, family=family, IVar=IVar)
    if self.num_output_forms > 1:
        raise NotImplementedError()
    constraints = {path: (c if isinstance(c, tuple) else (c,)) for path, c in path_constraints.items()}
    leaves = self.path_to_adt(input=True, strip=True)
    for path, values in constraints.copy().items():
        if path not in leaves:
            raise ValueError()
        aadt = self.family.SMTFamily().get_adt_t(rebind_type(leaves[path], self.family.SMTFamily()))
        constraints[path] = tuple([aadt(c) for c in values])
    self.path_constraints = constraints
    self.IVar = IVar


@spec(actual='peak.mapper.mapper:ArchMapper.process_ir_instruction', props=['M01'])
def process(self, ir_fc, simple_formula=False):
    return IRMapper(self, ir_fc, simple_formula, self.IVar)


@spec(actual='peak.mapper.mapper:is_valid', props=['M01', 'M03', 'M11', 'A03'])
def valid(aadt_value):
    """a vector or bit always is, an assembled value when its word encodes one"""
    if isinstance(aadt_value, (AbstractBitVector, AbstractBit)):
        return aadt_value.get_family().Bit(1)
    return type(aadt_value)._is_valid_(aadt_value._value_)


# ---------------------------------------------------------------- rewrite rules

@spec(actual='peak.mapper.mapper:RewriteRule.__init__', props=['M03'],
      opaque=['peak.mapper.mapper._create_path_to_adt', 'peak.mapper.mapper.is_valid'])
def rule_init(self, ibinding, obinding, ir_fc, arch_fc):
    """constants are values of the type at their path; a constant input has one"""
    self.family = arch_fc._family_
    types = _create_path_to_adt(arch_fc.Py.input_t)
    self.ibinding = []
    for ir_path, arch_path in ibinding:
        if ir_path is Unbound and issubclass(types[arch_path], Const):
            raise ValueError()
        if ir_path is not Unbound and not isinstance(ir_path, tuple):
            T = strip_modifiers(types[arch_path])
            value = AssembledADT[T, Assembler, self.family.PyFamily().BitVector](ir_path)
            if is_adt_type(T):
                if not is_valid(value):
                    raise ValueError()
                value = value._value_
            self.ibinding.append((value, arch_path))
        else:
            self.ibinding.append((ir_path, arch_path))
    self.obinding = obinding
    self.ir_fc = ir_fc
    self.arch_fc = arch_fc


@spec(actual='peak.mapper.mapper:RewriteRule.get_input_paths', props=['M02', 'M03'],
      opaque=['peak.mapper.mapper._create_path_to_adt'])
def rule_paths(self):
    """the bound ir inputs and the free arch inputs that are not constants"""
    types = _create_path_to_adt(self.arch_fc(self.family.SMTFamily()).input_t)
    ir = set()
    arch = set()
    for ir_path, arch_path in self.ibinding:
        if isinstance(ir_path, tuple):
            ir.add(ir_path)
        elif ir_path is Unbound and not issubclass(types[arch_path], Const):
            arch.add(arch_path)
    return ir, arch


@spec(actual='peak.mapper.mapper:RewriteRule.build_inputs', props=['M02', 'M03'],
      opaque=['peak.mapper.mapper.RewriteRule.get_input_paths', 'peak.mapper.utils.rebind_binding',
              'peak.mapper.mapper._input_aadt_t', 'peak.mapper.utils.aadt_product_to_dict'])
def rule_inputs(self, ir_inputs, arch_inputs, family):
    """both sides get the same value at bound paths, the given one at free arch paths
    and the constant elsewhere"""
    ir_paths, arch_paths = self.get_input_paths()
    if set(ir_inputs.keys()) != set(ir_paths):
        raise ValueError()
    if set(arch_inputs.keys()) != set(arch_paths):
        raise ValueError()
    ir = []
    arch = []
    for ir_path, arch_path in rebind_binding(self.ibinding, family):
        if isinstance(ir_path, tuple):
            ir.append((ir_inputs[ir_path], ir_path))
            arch.append((ir_inputs[ir_path], arch_path))
        elif ir_path is Unbound:
            arch.append((arch_inputs[arch_path], arch_path))
        else:
            arch.append((ir_path, arch_path))
    arch = SimplifyBinding()(_input_aadt_t(self.arch_fc, family), arch)
    ir = SimplifyBinding()(_input_aadt_t(self.ir_fc, family), ir)
    return aadt_product_to_dict(ir[0][0]), aadt_product_to_dict(arch[0][0])


@spec(actual='peak.mapper.mapper:RewriteRule.parse_ir_output', props=['M02'], opaque=['peak.mapper.mapper.wrap_outputs'])
def rule_ir_out(self, outputs):
    T = self.family.SMTFamily().get_adt_t(self.ir_fc(self.family.SMTFamily()).output_t)
    _, values, _ = SMTForms()(T, value=wrap_outputs(outputs, T))
    return values


@spec(actual='peak.mapper.mapper:RewriteRule.parse_arch_output', props=['M02'], opaque=['peak.mapper.mapper.wrap_outputs'])
def rule_arch_out(self, outputs):
    T = self.family.SMTFamily().get_adt_t(self.arch_fc(self.family.SMTFamily()).output_t)
    _, values, _ = SMTForms()(T, value=wrap_outputs(outputs, T))
    return values


@spec(actual='peak.mapper.mapper:RewriteRule.verify', props=['M02'],
      opaque=['peak.mapper.mapper._create_path_to_adt', 'peak.mapper.mapper.RewriteRule.get_input_paths',
              'peak.mapper.mapper.RewriteRule.build_inputs', 'peak.mapper.mapper._free_var_from_t',
              'peak.mapper.mapper.create_and_set_bb_outputs', 'peak.mapper.mapper.get_bb_inputs',
              'peak.mapper.mapper.RewriteRule.parse_ir_output', 'peak.mapper.mapper.RewriteRule.parse_arch_output',
              'peak.mapper.mapper.update_with_bb', 'peak.mapper.utils.solved_to_bv'])
def rule_verify(self, solver_name="z3"):
    """no counterexample exists: all bound inputs and free inputs are variables, every
    used output has to agree, equal black boxes behave alike; otherwise one is returned"""
    ir_types = _create_path_to_adt(strip_modifiers(self.ir_fc(self.family.SMTFamily()).input_t))
    arch_types = _create_path_to_adt(strip_modifiers(self.arch_fc(self.family.SMTFamily()).input_t))
    ir_paths, arch_paths = self.get_input_paths()
    ir_values = {path: _free_var_from_t(ir_types[path], self.family) for path in ir_paths}
    arch_values = {path: _free_var_from_t(arch_types[path], self.family) for path in arch_paths}
    ir_in, arch_in = self.build_inputs(ir_values, arch_values, self.family.SMTFamily())
    ir = self.ir_fc(self.family.SMTFamily())()
    arch = self.arch_fc(self.family.SMTFamily())()
    ir_bb_out = create_and_set_bb_outputs(ir, family=self.family)
    arch_bb_out = create_and_set_bb_outputs(arch, family=self.family)
    ir_out = self.parse_ir_output(ir(**ir_in))
    arch_out = self.parse_arch_output(arch(**arch_in))
    ir_bb_in = get_bb_inputs(ir)
    arch_bb_in = get_bb_inputs(arch)
    agree = []
    for ir_path, arch_path in self.obinding:
        if ir_path is Unbound:
            continue
        if ir_path not in ir_out:
            raise ValueError()
        if arch_path not in arch_out:
            raise ValueError()
        agree.append(ir_out[ir_path] == arch_out[arch_path])
    formula, _ = update_with_bb(And(agree), get_black_boxes(arch), arch_bb_in, arch_bb_out,
                                get_black_boxes(ir), ir_bb_in, ir_bb_out)
    broken = ~(formula.to_hwtypes())
    with smt.Solver(solver_name, logic=BV) as solver:
        solver.add_assertion(broken.value)
        if not solver.solve():
            return None
        return ({path: solved_to_bv(v, solver) for path, v in ir_values.items()},
                {path: solved_to_bv(v, solver) for path, v in arch_values.items()})


@spec(actual='peak.mapper.mapper:RewriteRule.serialize_bindings', props=['M04'])
def rule_write(self):
    """every entry keeps its kind, width, value and path"""
    def entry(v, path):
        if isinstance(v, BitVector):
            return ({'type': 'BitVector', 'width': len(v), 'value': v.value}, path)
        if isinstance(v, Bit):
            return ({'type': 'Bit', 'width': 1, 'value': v._value}, path)
        return None
    out = {"ibinding": [], "obinding": []}
    for t in self.ibinding:
        e = entry(t[0], t[1])
        if e is not None:
            out["ibinding"].append(e)
        elif t[0] == Unbound:
            out["ibinding"].append(("unbound", t[1]))
        else:
            out["ibinding"].append(t)
    for t in self.obinding:
        if t[0] == Unbound:
            out["obinding"].append(("unbound", t[1]))
        else:
            out["obinding"].append(t)
    return out


@spec(actual='peak.mapper.mapper:read_serialized_bindings', props=['M04'])
def rule_read(serialized_rr, ir_fc, arch_fc):
    """inverse of writing; paths are tuples again"""
    ib = []
    for i in serialized_rr["ibinding"]:
        if isinstance(i[0], dict):
            v = i[0]
            if v['type'] == "BitVector":
                v = BitVector[v['width']](v['value'])
            elif v['type'] == "Bit":
                v = Bit(v['value'])
            ib.append((v, tuple(i[1])))
        elif i[0] == "unbound":
            ib.append((Unbound, tuple(i[1])))
        else:
            ib.append((tuple(i[0]), tuple(i[1])))
    ob = []
    for o in serialized_rr["obinding"]:
        if o[0] == "unbound":
            ob.append((Unbound, tuple(o[1])))
        else:
            ob.append((tuple(o[0]), tuple(o[1])))
    return RewriteRule(ib, ob, ir_fc, arch_fc)


# ---------------------------------------------------------------- search

@spec(actual='peak.mapper.mapper:_free_var_from_t', props=['M02'])
def free_leaf(T, family):
    """a bit or vector variable that covers the whole type"""
    T = rebind_type(T, family.SMTFamily())
    if issubclass(T, (family.SMTFamily().BitVector, family.SMTFamily().Bit)):
        return T()
    adt_t, assembler_t, bv_t = family.SMTFamily().get_adt_t(T).fields
    return bv_t[assembler_t(adt_t).width]()


@spec(actual='peak.mapper.mapper:update_with_bb', props=['M01', 'M02', 'M11', 'F02'])
def with_bb(f, arch_bbs, arch_bb_inputs, arch_bb_outputs, ir_bbs, ir_bb_inputs, ir_bb_outputs):
    """black boxes of one class agree on equal inputs: every pair of instances, arch and
    ir alike; all their outputs are universally quantified"""
    forall = []
    by_class = {}
    for bbs, inputs, outputs in ((arch_bbs, arch_bb_inputs, arch_bb_outputs), (ir_bbs, ir_bb_inputs, ir_bb_outputs)):
        for path, bb in bbs.items():
            forall += [v.value for v in outputs[path]]
            by_class.setdefault(type(bb), []).append((inputs[path], outputs[path]))
    same = []
    for cls, calls in by_class.items():
        for (i0, o0), (i1, o1) in itertools.combinations(calls, 2):
            same.append(Implies(And(a == b for a, b in zip(i0, i1)), And(a == b for a, b in zip(o0, o1))))
    if len(same) > 0:
        return Implies(And(same), f), forall
    return f, forall


@spec(actual='peak.mapper.mapper:IRMapper.solve', props=['M01', 'M05'],
      opaque=['peak.mapper.mapper.external_loop_solve', 'peak.mapper.mapper.rr_from_solver'])
def ir_solve(self, solver_name='z3', external_loop=False, itr_limit=20, num_init=-1, logic=BV):
    """a rule only from a model of the quantified formula"""
    if not self.has_bindings:
        return None
    if external_loop:
        return external_loop_solve(self.forall_vars, self.formula_wo_forall, logic, itr_limit, solver_name, self, num_init)
    with smt.Solver(solver_name, logic=logic) as solver:
        solver.add_assertion(self.formula)
        if not solver.solve():
            return None
        return rr_from_solver(solver, self)


@spec(actual='peak.mapper.mapper:_input_aadt_t', props=['M02', 'M03'])
def input_aadt(fc, family):
    return AssembledADT[strip_modifiers(fc(family).input_t), Assembler, family.BitVector]


@spec(actual='peak.mapper.mapper:rr_from_solver', props=['M01', 'M05'],
      opaque=['peak.mapper.utils.solved_to_bv', 'peak.mapper.utils.rebind_binding', 'peak.mapper.mapper.strip_aadt'])
def rule_from_model(solver, irmapper):
    """the selected binding with the model's value at every unbound constant and
    constrained path (the variable that stands for it in the formula)"""
    am = irmapper.archmapper
    fi = am.input_form_var.decode(int(solved_to_bv(am.input_form_var.var, solver)))
    bi = irmapper.ib_var.decode(int(solved_to_bv(irmapper.ib_var.var, solver)))
    bo = irmapper.ob_var.decode(int(solved_to_bv(irmapper.ob_var.var, solver)))
    binding = []
    for ir_path, arch_path in irmapper.input_bindings[fi][bi]:
        if ir_path is Unbound and (arch_path in am.const_paths or arch_path in am.path_constraints):
            binding.append((solved_to_bv(irmapper.exists_vars.get(arch_path, am.input_varmap[arch_path]), solver), arch_path))
        else:
            binding.append((ir_path, arch_path))
    binding = strip_aadt(rebind_binding(binding, am.peak_fc._family_.PyFamily()))
    return RewriteRule(binding, irmapper.output_bindings[bo], irmapper.peak_fc, am.peak_fc)


@spec(actual='peak.mapper.mapper:strip_aadt', props=['M01', 'M05'])
def strip_values(binding):
    return [(ir_path._value_ if isinstance(ir_path, AssembledADT) else ir_path, arch_path)
            for ir_path, arch_path in binding]


@spec(actual='peak.mapper.mapper:_gen_random', props=['M05'], opaque=['peak.mapper.mapper._int_to_pysmt'])
def random_value(sort):
    return _int_to_pysmt(random.randrange(1 << sort.width) if sort.is_bv_type() else random.randrange(2), sort)


@spec(actual='peak.mapper.mapper:_gen_initial', props=['M05'],
      opaque=['peak.mapper.mapper._int_to_pysmt', 'peak.mapper.mapper._gen_random'])
def initial_values(y, num_initial_vectors):
    """each seed vector assigns every universal variable"""
    if num_initial_vectors < 0:
        return []
    seeds = [{v: _int_to_pysmt(0, v.get_type()) for v in y},
             {v: _int_to_pysmt(1, v.get_type()) for v in y},
             {v: _int_to_pysmt(-1, v.get_type()) for v in y}]
    for _ in range(num_initial_vectors):
        seeds.append({v: _gen_random(v.get_type()) for v in y})
    return seeds


@spec(actual='peak.mapper.mapper:external_loop_solve', props=['M05'],
      opaque=['peak.mapper.mapper._gen_initial', 'peak.mapper.mapper.rr_from_solver'])
def loop_solve(y, phi, logic=BV, maxloops=10, solver_name="cvc4", irmapper=None, num_initial_vectors=0,
               rr_from_solver=rr_from_solver):
    """None only when the accumulated instances are unsatisfiable; a rule only for an
    assignment that has no counterexample; every counterexample is learned; the bound
    on the iterations raises"""
    y = set(y)
    x = phi.get_free_variables() - y
    seeds = _gen_initial(y, num_initial_vectors)
    with smt.Solver(logic=logic, name=solver_name) as solver:
        solver.add_assertion(smt.Bool(True))
        for sigma in seeds:
            solver.add_assertion(phi.substitute(sigma).simplify())
        loops = 0
        while maxloops is None or loops <= maxloops:
            loops += 1
            if not solver.solve():
                return None
            tau = {v: solver.get_value(v) for v in x}
            model = smt.get_model(smt.Not(phi.substitute(tau).simplify()), solver_name=solver_name, logic=logic)
            if model is None:
                return rr_from_solver(solver, irmapper)
            sigma = {v: model.get_value(v) for v in y}
            solver.add_assertion(phi.substitute(sigma).simplify())
        raise LoopException()
