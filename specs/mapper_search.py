"""The formulas whose models are rewrite rules: peak.mapper.mapper.IRMapper, peak.mapper.multi.Multi."""
import functools
import itertools
import operator
from collections import defaultdict
from types import SimpleNamespace
from hwtypes import strip_modifiers
import pysmt.shortcuts as smt
from pysmt.logics import BV

from peak import family_closure, Const
from peak import family as peak_family
from peak.black_box import get_black_boxes
from peak.mapper.formula_constructor import And, Or, Implies, or_reduce, and_reduce
from peak.mapper.index_var import OneHot, Binary
from peak.mapper.mapper import (_create_free_var, _get_peak_cls, wrap_outputs, create_and_set_bb_outputs, get_bb_inputs,
                                is_valid, update_with_bb, external_loop_solve)
from peak.mapper.multi import create_bindings as multi_bindings, RR
from peak.mapper.utils import (Unbound, Match, create_bindings, aadt_product_to_dict, _sort_by_t, solved_to_bv,
                               pretty_print_binding)


def _run(mapper, value):
    outputs = mapper.peak_obj(**aadt_product_to_dict(value))
    record = wrap_outputs(outputs, mapper.output_aadt_t)
    return {(k,): v for k, v in aadt_product_to_dict(record).items()}, get_bb_inputs(mapper.peak_obj)


@spec(actual='peak.mapper.mapper:IRMapper.__init__', props=['M01', 'M08', 'F02'],
      opaque=['peak.mapper.mapper.SMTMapper.__init__', 'peak.mapper.mapper._create_free_var', 'peak.mapper.mapper.is_valid',
              'peak.mapper.utils.aadt_product_to_dict', 'peak.mapper.mapper.wrap_outputs', 'peak.mapper.mapper.get_bb_inputs',
              'peak.mapper.mapper.update_with_bb', 'peak.mapper.utils.create_bindings', 'peak.mapper.mapper.SMTMapper.path_to_adt'])
def ir_init(self, archmapper, ir_fc, simple_formula=True, IVar=OneHot):
    """exists (form, binding, output binding, const arch inputs, values of constrained consts)
    forall (ir inputs, other arch inputs, black box outputs):
        the constants are valid, a form and a binding of it are selected, and the binding's
        equalities (with the constraints on non const inputs) imply that every used output agrees"""
    super().__init__(ir_fc, family=archmapper.family)
    if self.num_input_forms > 1:
        raise NotImplementedError()
    if self.num_output_forms > 1:
        raise NotImplementedError()
    if len(self.bb_outputs) > 0 or len(archmapper.bb_outputs) > 0:
        if not simple_formula:
            raise ValueError()
    self.archmapper = archmapper
    self.exists_vars = {}
    arch_leaves = archmapper.path_to_adt(input=True)

    def allowed(binding):
        """a constrained path is never bound"""
        for ir_path, arch_path in binding:
            if arch_path in archmapper.path_constraints and ir_path is not Unbound:
                return False
        return True

    ir_leaves = self.path_to_adt(input=True)
    input_bindings = []
    for form in archmapper.input_forms:
        leaves = {p: T for p, T in arch_leaves.items() if p in form.varmap}
        input_bindings.append(list(filter(allowed, create_bindings(leaves, ir_leaves))))
    self.has_bindings = max(len(b) for b in input_bindings) > 0
    if not self.has_bindings:
        return
    output_bindings = create_bindings(archmapper.path_to_adt(input=False), self.path_to_adt(input=False))
    self.has_bindings = len(output_bindings) > 0
    if not self.has_bindings:
        return

    form_var = archmapper.input_form_var
    form_conditions = []
    for fi, form in enumerate(archmapper.input_forms):
        conditions = [form_var.match_index(fi)] + archmapper.const_valid_conditions[fi]
        for path, choice in form.path_dict.items():
            conditions.append(archmapper.input_varmap[path + (Match,)][choice])
        form_conditions.append(conditions)

    ib_var = IVar(max(len(b) for b in input_bindings), name="bi", SMT=self.family.SMTFamily())
    ob_var = IVar(len(output_bindings), name="bo", SMT=self.family.SMTFamily())
    self.ib_var = ib_var
    self.ob_var = ob_var
    self.input_bindings = input_bindings
    self.output_bindings = output_bindings

    if simple_formula:
        arch_in = _create_free_var(archmapper.input_aadt_t, "Arch_in")
        ir_in = _create_free_var(self.input_aadt_t, "IR_in")
        const_fields = [field for field, T in archmapper.peak_fc.Py.input_t.field_dict.items() if issubclass(T, Const)]
        fields = aadt_product_to_dict(arch_in)
        preconditions = [And([is_valid(fields[field]) for field in const_fields])]
        forms = []
        for fi, form in enumerate(archmapper.input_forms):
            conditions = [form_var.match_index(fi)]
            for path, choice in form.path_dict.items():
                conditions.append(archmapper.input_varmap[path + (Match,)][choice])
            forms.append(And(conditions))
        preconditions.append(Or(forms))

        forall_to_fbs = defaultdict(list)
        exists_to_fbs = defaultdict(list)
        name_to_var = {}
        name_to_path = {}
        fb_conditions = {}
        for fi, ibindings in enumerate(input_bindings):
            for bi, ibinding in enumerate(ibindings):
                conditions = [form_var.match_index(fi), ib_var.match_index(bi)]
                for ir_path, arch_path in ibinding:
                    arch_name = ".".join(["A"] + [str(p) for p in arch_path])
                    arch_var = archmapper.input_varmap[arch_path]
                    name_to_var[arch_name] = arch_var
                    name_to_path[arch_name] = arch_path
                    is_const = issubclass(arch_leaves[arch_path], Const)
                    if arch_path in self.archmapper.path_constraints and ir_path is not Unbound:
                        raise NotImplementedError()
                    if ir_path is Unbound:
                        if is_const:
                            exists_to_fbs[arch_name].append((fi, bi))
                        else:
                            forall_to_fbs[arch_name].append((fi, bi))
                    else:
                        ir_name = ".".join(["I"] + [str(p) for p in ir_path])
                        ir_var = self.input_varmap[ir_path]
                        name_to_var[ir_name] = ir_var
                        forall_to_fbs[arch_name].append((fi, bi))
                        forall_to_fbs[ir_name].append((fi, bi))
                        conditions.append(arch_var == ir_var)
                fb_conditions[(fi, bi)] = conditions

        forall_vars = set(name_to_var[name].value for name in forall_to_fbs)
        overlap_subs = []
        for name in forall_to_fbs.keys() & exists_to_fbs.keys():
            var = name_to_var[name]
            var_a = type(var)(prefix=str(var) + "_FORALL")
            var_e = type(var)(prefix=str(var) + "_EXISTS")
            exists = Or([form_var.match_index(fi) & ib_var.match_index(bi) for fi, bi in exists_to_fbs[name]]).to_hwtypes()
            overlap_subs.append((var, exists.ite(var_e, var_a)))
            self.exists_vars[name_to_path[name]] = var_e
            forall_vars.remove(var.value)
            forall_vars.add(var_a.value)
        forall_vars = list(forall_vars)

        arch_out, arch_bb_inputs = _run(archmapper, arch_in)
        ir_out, ir_bb_inputs = _run(self, ir_in)
        agree = []
        selected = []
        for bo, obinding in enumerate(output_bindings):
            chosen = ob_var.match_index(bo)
            same = []
            selected.append(chosen)
            for ir_path, arch_path in obinding:
                if ir_path is Unbound:
                    continue
                same.append(ir_out[ir_path] == arch_out[arch_path])
            agree.append(Implies(chosen, And(same)))
        preconditions.append(Or(selected))
        F = And(agree)
        bound = []
        fb_chosen = []
        for (f, b), conds in fb_conditions.items():
            fb_chosen.append(form_var.match_index(f) & ib_var.match_index(b))
            bound.append(And(conds))
        on_consts = []
        on_inputs = []
        for path, constraints in archmapper.path_constraints.items():
            var = archmapper.input_varmap[path]
            if issubclass(arch_leaves[path], Const):
                on_consts.append(Or(var == c for c in constraints))
            else:
                on_inputs.append(Or(var == c for c in constraints))
        preconditions += on_consts
        preconditions.append(Or(fb_chosen))
        formula = And([And(preconditions), Implies(And(on_inputs + [Or(bound)]), F)])
        formula, bb_forall = update_with_bb(
            formula,
            get_black_boxes(archmapper.peak_obj), arch_bb_inputs, archmapper.bb_outputs,
            get_black_boxes(self.peak_obj), ir_bb_inputs, self.bb_outputs)
        formula = formula.to_hwtypes()
        formula = formula.substitute((arch_in._value_, archmapper.input_value._value_),
                                     (ir_in._value_, self.input_value._value_))
        if len(overlap_subs) > 0:
            formula = formula.substitute(*overlap_subs)
        forall_vars += bb_forall
        self.formula = smt.ForAll(forall_vars, formula.value)
        self.forall_vars = forall_vars
        self.formula_wo_forall = formula.value
    else:
        forall_vars = set()
        cases = []
        for fi, ibindings in enumerate(input_bindings):
            for bi, ibinding in enumerate(ibindings):
                submap = []
                for ir_path, arch_path in ibinding:
                    arch_var = archmapper.input_varmap[arch_path]
                    if arch_path in self.archmapper.path_constraints:
                        continue
                    if ir_path is Unbound and not issubclass(arch_leaves[arch_path], Const):
                        forall_vars.add(arch_var.value)
                    elif ir_path is not Unbound:
                        ir_var = self.input_varmap[ir_path]
                        submap.append((arch_var, ir_var))
                        forall_vars.add(ir_var.value)
                for bo, obinding in enumerate(output_bindings):
                    conditions = list(form_conditions[fi]) + [ib_var.match_index(bi), ob_var.match_index(bo)]
                    for ir_path, arch_path in obinding:
                        if ir_path is Unbound:
                            continue
                        got = archmapper.output_forms[fi][0].varmap[arch_path].substitute(*submap)
                        conditions.append(self.output_forms[0][0].varmap[ir_path] == got)
                    cases.append(conditions)
        formula = or_reduce([and_reduce(conds) for conds in cases])
        for path, constraints in archmapper.path_constraints.items():
            if issubclass(arch_leaves[path], Const):
                continue
            var = archmapper.input_varmap[path]
            formula = and_reduce(formula.substitute((var, c)) for c in constraints)
        for path, constraints in archmapper.path_constraints.items():
            if not issubclass(arch_leaves[path], Const):
                continue
            var = archmapper.input_varmap[path]
            formula &= or_reduce(var == c for c in constraints)
        self.formula = smt.ForAll(list(forall_vars), formula.value)
        self.forall_vars = forall_vars
        self.formula_wo_forall = formula.value


# ---------------------------------------------------------------- sequences of instructions
@spec(actual='peak.mapper.multi:create_bindings', props=['M06', 'M11'], opaque=['peak.mapper.utils._sort_by_t'])
def multi_bindings_(inputs, outputs, use_unbound=True):
    """every choice, per output, of an input of exactly its type (or of nothing)"""
    sources = _sort_by_t(inputs)
    sinks = _sort_by_t(outputs)
    if not use_unbound:
        for T in sinks:
            if T not in sources:
                raise ValueError("No matching Bindings")
    choices = []
    for T in outputs.values():
        choices.append(([Unbound] if use_unbound else []) + (sources[T] if T in sources else []))
    return [list(zip(c, outputs.keys())) for c in itertools.product(*choices)]


@spec(actual='peak.mapper.multi:Multi', props=['M11', 'F02'],
      opaque=['peak.mapper.mapper._create_free_var', 'peak.mapper.mapper.is_valid', 'peak.mapper.utils.aadt_product_to_dict',
              'peak.mapper.mapper.wrap_outputs', 'peak.mapper.mapper.get_bb_inputs', 'peak.mapper.mapper.update_with_bb',
              'peak.mapper.multi.create_bindings', 'peak.mapper.mapper.create_and_set_bb_outputs',
              'peak.mapper.mapper._get_peak_cls', 'peak.mapper.mapper.external_loop_solve'])
def multi(arch_fc, ir_fc, N, family=peak_family, IVar=Binary, use_real=True, use_split_instr=False):
    """exists (instructions, bindings) forall (ir inputs, arch inputs, black box outputs):
        the instructions are valid, an input and an output binding are selected, and the input
        binding's equalities imply the output binding's"""
    def parse(fc):
        if not isinstance(fc, family_closure):
            raise ValueError()
        P = _get_peak_cls(fc(family.SMTFamily()))
        try:
            input_t = P.input_t
            output_t = P.output_t
        except AttributeError:
            raise ValueError()
        bare_in = strip_modifiers(input_t)
        bare_out = strip_modifiers(output_t)
        in_aadt = family.SMTFamily().get_adt_t(bare_in)
        out_aadt = family.SMTFamily().get_adt_t(bare_out)
        const = {}
        free = {}
        for f, T in input_t.field_dict.items():
            if issubclass(T, Const):
                const[f] = T
            else:
                free[f] = T
        return SimpleNamespace(input_aadt=in_aadt, stripped_input_t=bare_in, input_t=input_t, stripped_output_t=bare_out,
                               output_t=output_t, output_aadt=out_aadt, cls=P, const_dict=const, non_const_dict=free)

    ir = parse(ir_fc)
    arch = parse(arch_fc)
    if len(ir.const_dict) != 0:
        raise NotImplementedError()
    if len(arch.const_dict) != 1:
        raise NotImplementedError()

    def run(obj, aadt, ins, prefix):
        bb_outputs = create_and_set_bb_outputs(obj, family=family, prefix=prefix)
        outs = aadt_product_to_dict(wrap_outputs(obj(**ins), aadt))
        return outs, get_bb_inputs(obj), bb_outputs

    ir_in = {f: _create_free_var(ir.input_aadt[f], f"II_{f}") for f in ir.stripped_input_t.field_dict}
    ir_obj = ir.cls()
    ir_out, ir_bb_in, ir_bb_out = run(ir_obj, ir.output_aadt, ir_in, "IR_")
    blocks = []
    universal = [v.value for v in ir_in.values()]
    required = []

    def value_of(path, real):
        if path[0] == "IR_in":
            v = ir_in[path[1]]
        elif path[0] == "IR_out":
            v = ir_out[path[1]]
        elif path[0] == "Arch_in":
            v = blocks[path[1]].arch_inputs[path[2]]
        elif path[0] == "Arch_out":
            if real:
                v = blocks[path[1]].real_arch_outputs[path[2]]
            else:
                v = blocks[path[1]].free_arch_outputs[path[2]]
        else:
            assert 0
        return v

    for i in range(N):
        obj = arch.cls()
        ins = {f: _create_free_var(arch.input_aadt[f], f"ArchIn_I{i}_{f}") for f in arch.stripped_input_t.field_dict}
        free = {f: _create_free_var(arch.output_aadt[f], f"ArchOut_I{i}_{f}") for f in arch.output_t.field_dict}
        real, bb_in, bb_out = run(obj, arch.output_aadt, ins, f"{i}.BB.{arch.cls.__name__}")
        for f, v in ins.items():
            if f in arch.non_const_dict:
                universal.append(v.value)
        sources = {("IR_in", f): T for f, T in ir.input_t.field_dict.items()}
        for j in range(i):
            for f, T in arch.output_t.field_dict.items():
                sources[("Arch_out", j, f)] = T
        sinks = {("Arch_in", i, f): T for f, T in arch.non_const_dict.items()}
        blocks.append(SimpleNamespace(arch_inputs=ins, free_arch_outputs=free, real_arch_outputs=real, obj=obj,
                                      bb_outputs=bb_out, bb_inputs=bb_in,
                                      bindings=multi_bindings(sources, sinks, use_unbound=True)))

    ir_paths = [("IR_in", f) for f in ir.input_t.field_dict]
    per_block = [b.bindings for b in blocks]

    def uses_every_input_once(choice):
        chosen = [bs[choice[j]] for j, bs in enumerate(per_block)]
        found = [0 for _ in ir_paths]
        for j, p in enumerate(ir_paths):
            for binding in chosen:
                for source, _ in binding:
                    if source == p:
                        found[j] += 1
        return all(n == 1 for n in found)

    choices = list(filter(uses_every_input_once, itertools.product(*[range(len(bs)) for bs in per_block])))
    if len(choices) == 0:
        raise ValueError()
    bind_var = IVar(len(choices), "bind_in")
    required.append(bind_var.is_valid())
    wirings = []
    for b, choice in enumerate(choices):
        equal = [bind_var.match_index(b)]
        for index, block in zip(choice, blocks):
            for src, dst in block.bindings[index]:
                if src is Unbound:
                    src = dst
                equal.append(value_of(src, use_real) == value_of(dst, use_real))
        wirings.append(And(equal))
    if not use_real:
        if N == 1:
            linked = family.SMTFamily().Bit(True)
        else:
            links = []
            for i in range(N - 1):
                for r, f in zip(blocks[i].real_arch_outputs.values(), blocks[i].free_arch_outputs.values()):
                    universal.append(f.value)
                    links.append(f == r)
            linked = And(links)

    last = {("Arch_out", N - 1, f): T for f, T in arch.output_t.field_dict.items()}
    wanted = {("IR_out", f): T for f, T in ir.output_t.field_dict.items()}
    out_bindings = multi_bindings(last, wanted, use_unbound=False)
    out_var = IVar(len(out_bindings), name="bind_out")
    required.append(out_var.is_valid())
    agree = []
    for b, binding in enumerate(out_bindings):
        equal = [out_var.match_index(b)]
        for src, dst in binding:
            equal.append(value_of(src, True) == value_of(dst, True))
        agree.append(And(equal))
    F = Or(agree)
    blocks.append(SimpleNamespace(bindings=out_bindings, bind_var=out_var, impl_conds=F))

    if use_split_instr:
        raise NotImplementedError()
    for i in range(N):
        for f in arch.const_dict:
            required.append(is_valid(blocks[i].arch_inputs[f]))
    wired = Or(wirings)
    if not use_real:
        wired = And([linked, wired])
    formula = And([And(required), Implies(wired, F)])

    bbs = {}
    bb_ins = {}
    bb_outs = {}
    for i in range(N):
        for path, bb in get_black_boxes(blocks[i].obj).items():
            bbs[(i, *path)] = bb
            bb_ins[(i, *path)] = blocks[i].bb_inputs[path]
            bb_outs[(i, *path)] = blocks[i].bb_outputs[path]
    formula, more = update_with_bb(formula, bbs, bb_ins, bb_outs, get_black_boxes(ir_obj), ir_bb_in, ir_bb_out)
    universal += more
    body = formula.to_hwtypes().value
    info = SimpleNamespace(N=N, block_info=blocks, arch_info=arch, bind_var=bind_var, valid_bindings=choices)

    def solve(maxloops=20, logic=BV, solver_name="z3"):
        return external_loop_solve(universal, body, logic=logic, maxloops=maxloops, solver_name=solver_name,
                                   rr_from_solver=RR, irmapper=info)
    return solve


@spec(actual='peak.mapper.multi:RR', props=['M11'], reports=True)
def multi_rr(solver, info):
    """the binding and the instructions are those of the solver's model, read before it is closed"""
    if solver is None:
        return None
    choice = info.bind_var.decode(int(solved_to_bv(info.bind_var.var, solver)))
    values = []
    for i in range(info.N):
        values.append([solved_to_bv(info.block_info[i].arch_inputs[f]._value_, solver) for f in info.arch_info.const_dict])

    def get_info():
        print(info.bind_var.var.value, choice)
        chosen = info.valid_bindings[choice]
        for i in range(info.N):
            print("*" * 100)
            print(f"Instruction {i}")
            pretty_print_binding(info.block_info[i].bindings[chosen[i]])
            print(values[i])
        return info
    return get_info
