MP = 'peak/mapper/mapper.py'
MU = 'peak/mapper/utils.py'

prop('M01', 'A rewrite rule returned by the mapper is correct for every input',
     'A rule the mapper returns binds architecture constants and inputs so that, whatever the values of the IR inputs, of the architecture inputs it leaves free and of the black boxes, the used architecture outputs equal the IR outputs; the instruction it fixes is a valid one. '
     'Only the choices that belong to the rule (the binding, the form and the constants) are chosen by the solver, everything else is universally quantified, and no rule is returned when no choice exists.',
     'inputs programs', 'every pair of IR and architecture instructions, every rule found and every value of the inputs',
     'tests check the rules found for a few instructions on sampled values; the quantifiers in the formula decide it for all inputs',
     MP + ' ' + MU + ' peak/mapper/formula_constructor.py peak/mapper/index_var.py',
     [('quantified formula', 'peak/mapper/mapper.py: IRMapper.__init__'), ('solving and reading the model', 'peak/mapper/mapper.py: IRMapper.solve, rr_from_solver'),
      ('symbolic forms', 'peak/mapper/mapper.py: SMTMapper')])
prop('M02', 'Verification of a rule finds every counterexample',
     'Verifying a rewrite rule reports success only if no assignment of the inputs and black box outputs makes a bound architecture output differ from its IR output, and otherwise returns a counterexample for which they differ; everything the rule does not fix stays free. '
     'Inputs bound to each other get equal values and constants get the values the rule gives.',
     'inputs programs', 'every rule and every assignment', 'tests verify the rules the solver just found, so a verifier that accepts too much is never seen',
     MP + ' ' + MU, [('RewriteRule.verify', 'peak/mapper/mapper.py'), ('black box consistency', 'peak/mapper/mapper.py: update_with_bb')])
prop('M03', 'Rules are checked when made and build the inputs they describe',
     'A rule that leaves a constant of the architecture without a value, or gives a path a value that is not a valid value of its type, is refused, as are inputs other than exactly the free ones when a rule is applied. '
     'Applying a rule puts each IR input, each free input and each constant exactly at the architecture paths it is bound to, and nested paths are assembled into whole values of the declared input types.',
     'inputs programs', 'every binding and every IR input', 'tests use the rules the mapper makes, which are well formed',
     MP + ' ' + MU, [('RewriteRule checks and build_inputs', 'peak/mapper/mapper.py: RewriteRule'), ('binding to values', 'peak/mapper/utils.py: binding_to_instr and helpers')])
prop('M04', 'Serialized bindings read back as they were written',
     'Writing the bindings of a rule out as plain data and reading them back gives an equal binding: paths keep their order and kind, constants their type, width and value, and unbound entries stay unbound.',
     'inputs', 'every binding', 'one or two rules are written and read back', MP + ' ' + MU,
     [('serialize_bindings and read_serialized_bindings', 'peak/mapper/utils.py')])
prop('M05', 'The refinement loop answers as the quantified formula would',
     'Solving by counterexample guided refinement returns a candidate only after no counterexample to it exists, reports failure only when no candidate is left, and adds for each counterexample exactly the instance of the formula for those values. '
     'Reaching the iteration limit is reported as such and never as an answer.',
     'inputs histories', 'every formula, every sequence of counterexamples and every limit', 'the tests check that some rule is found',
     MP + ' peak/mapper/multi.py', [('external_loop_solve', 'peak/mapper/mapper.py')])
prop('M06', 'All and only the well typed bindings are considered',
     'The bindings considered bind architecture inputs only to IR inputs of exactly the same type or leave them unbound, every IR input is bound exactly once, and no such binding is left out or listed twice. Outputs are bound in the same way, and there is no binding when some IR type has no counterpart.',
     'programs', 'every pair of interfaces', 'tests compare the number of bindings for a few interfaces', MU + ' peak/mapper/multi.py',
     [('create_bindings and _sort_by_t', 'peak/mapper/utils.py, peak/mapper/multi.py')])
prop('M07', 'Symbolic forms cover every shape of a value exactly once',
     'The forms of a type enumerate every choice of alternatives of the sums in it exactly once; in a form, each path names the bits of the leaf it leads to and the stated match conditions hold exactly for values of that shape.',
     'programs', 'every type with any nesting of sums, products and tuples', 'forms are checked by hand for a few types', MU,
     [('SMTForms, extract and path enumeration', 'peak/mapper/utils.py')])
prop('M08', 'Constraints on architecture paths are honoured',
     'When architecture paths are constrained to lists of values, a rule is found only with those values: a constrained constant takes one of them, a constrained input is never bound and the rule is correct for every one of them. '
     'A constraint on a path that does not exist or on a value of the wrong type is refused.',
     'inputs programs configurations', 'every set of constraints', 'tests constrain one path', MP,
     [('path constraints', 'peak/mapper/mapper.py: ArchMapper.__init__, IRMapper.__init__')])
prop('M09', 'Index variables select exactly one index',
     'A variable ranging over n choices has for each index a match condition that holds for exactly one encoding, the conditions exclude each other, it is valid exactly when one of the n holds, and decoding a value gives the index whose condition it satisfies. '
     'This holds for either encoding and every n, including one.',
     'inputs configurations', 'every number of choices and every value of the variable', 'tests use a few sizes', 'peak/mapper/index_var.py',
     [('OneHot and Binary', 'peak/mapper/index_var.py')])
prop('M10', 'Formula constructors build what their names say',
     'Conjunction, disjunction and implication over any positive number of conditions, given as a list or produced one by one, and nested to any depth, mean exactly that when converted to a bit: all of them hold, one of them holds, the second holds whenever the first does. '
     'Printing lists the operands in order under the name of the operation.',
     'inputs', 'every list of conditions and nesting', 'tests build a few small formulas', 'peak/mapper/formula_constructor.py peak/mapper/utils.py',
     [('And, Or, Implies, and_reduce, or_reduce', 'peak/mapper/formula_constructor.py')])
prop('M11', 'Instruction sequence synthesis is sound',
     'A sequence of instructions found for an IR instruction computes the IR outputs for every value of the IR inputs, of unbound architecture inputs and of black boxes: each input is wired only to IR inputs or outputs of earlier instructions of the same type, each instruction is valid, and what is reported is the model the solver found.',
     'inputs programs configurations', 'every architecture, IR instruction, length and encoding of the choice', 'tests synthesise a few sequences',
     'peak/mapper/multi.py peak/mapper/mapper.py peak/mapper/index_var.py peak/mapper/utils.py', [('Multi, RR', 'peak/mapper/multi.py')])
prop('M12', 'Traversal of assembled types follows the kind of the type',
     'A traversal over an assembled type calls the handler of its kind, enum, product, tuple, tagged union, sum or leaf, with the type and all further arguments unchanged, and returns what the handler returns; handlers reach the types and values of all fields under their own names.',
     'programs', 'every type', 'tests traverse a few types', 'peak/assembler/assembled_adt.py peak/assembler2/assembled_adt.py peak/mapper/utils.py',
     [('recursor dispatch', 'peak/assembler/assembled_adt.py: AssembledADTRecursor')])
