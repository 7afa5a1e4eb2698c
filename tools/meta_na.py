na('N01', 'Evaluation of floating point operations is exact IEEE 754',
   'Every floating point operation returns the correctly rounded IEEE 754 result of its operands under the given rounding mode, for all formats.',
   'inputs', 'every operand, format and rounding mode', 'tests sample operands', 'peak/float.py',
   [('operation bodies', 'peak/float.py: float_lib_gen')],
   'the numeric results are computed by gmpy2 / pysmt / hwtypes outside this repository; a static argument about the source here can only decide which library operation is called with which mode (claimed as H01 and H02), not what it returns')
na('N02', 'Generated hardware behaves as the Python component does',
   'For every component and every input sequence the circuit compiled for hardware produces the same outputs, cycle by cycle, as the Python component.',
   'programs inputs histories', 'every component and input sequence', 'tests simulate a few components for a few cycles', 'peak/family.py peak/peak.py',
   [('compilation to circuits', 'peak/family.py: MagmaFamily')],
   'the translation is done by magma and ast_tools passes outside this repository; deciding it needs a semantics of those tools and of generated circuits, which no static analysis of the sources here can bound (which passes are applied, and to what, is claimed as C01)')
na('N03', 'The mapper finds a rule whenever one exists',
   'Whenever a correct rewrite rule within the space of bindings exists, solving returns one and does not give up.',
   'programs', 'every pair of instructions', 'tests look for a few known rules', 'peak/mapper/mapper.py peak/mapper/multi.py',
   [('solving', 'peak/mapper/mapper.py: IRMapper.solve external_loop_solve')],
   'depends on the completeness and termination of an external solver and on the iteration limit for values known only at run time; the part that is decided by the source, the formula and the set of bindings, is claimed as M01, M05 and M06')
na('N04', 'Rewriting a component preserves the meaning of its source',
   'The source transformations applied to a component before it is compiled (inlining, single static assignment, if to select, boolean to bit operators) preserve its results for every input.',
   'programs inputs', 'every accepted component', 'tests run a few components before and after', 'peak/family.py',
   [('passes applied by each family', 'peak/family.py')],
   'the passes are implemented in ast_tools, outside this repository; only their selection, order and arguments are in scope and are claimed as C01')
na('N05', 'Enumerating bindings and forms finishes in reasonable time and memory',
   'Enumerating the forms of a type and the bindings between two interfaces terminates within practical time and memory for realistic instruction sets.',
   'programs', 'every pair of interfaces', 'tests use small interfaces', 'peak/mapper/utils.py peak/mapper/multi.py',
   [('enumeration of products', 'peak/mapper/utils.py: create_bindings SMTForms')],
   'the enumeration is exponential in the number of fields by design; a bound depends on run time sizes that no sound static argument in reach can give')
