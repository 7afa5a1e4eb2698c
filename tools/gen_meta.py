#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, note='', state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why,
                  files=files.split(), mech=mech, note=note, state=state))


ASM = 'peak/assembler/assembler.py peak/assembler2/assembler.py'
AADT = 'peak/assembler/assembled_adt.py peak/assembler2/assembled_adt.py'

prop('A01', 'Assembling and disassembling are inverse',
     'For every algebraic data type that can be laid out (enums, products, tuples, sums, tagged unions, bit vectors, bits, nested to any depth), '
     'disassembling the assembly of a value gives back an equal value of the same type, whichever entry point, bit vector type or field order is used. '
     'The bits of a field are exactly the bits its own type would give it, shifted to the offset of the field, and a sum carries the tag of the alternative the value has.',
     'inputs programs', 'every type description accepted and every value of it',
     'the tests assemble random values of a dozen hand written types; offsets, tags and widths are quantified over all types and nestings',
     ASM + ' peak/assembler/assembler_util.py peak/assembler2/assembler_util.py',
     [('tuple, sum, enum, field encoders and decoders', 'peak/assembler/assembler.py: _tuple _sum _enum _field'),
      ('second generation encoders and decoders', 'peak/assembler2/assembler.py: _tuple _sum _enum _field _extend_to_width')])
prop('A02', 'Field layouts are disjoint, in range and wide enough',
     'In the layout of a product or tuple the fields occupy consecutive, non overlapping bit ranges in declaration order, and the width is their sum; in a sum the payload and the tag do not overlap and the payload is as wide as its widest alternative. '
     'Enum members and tags get distinct codes, declared codes are kept, and the width holds the largest code.',
     'inputs programs', 'every product, tuple, sum, tagged union and enum',
     'layout tests check a few fixed types; disjointness and sufficiency hold only if offsets and widths are computed right for every list of fields',
     ASM, [('offset accumulation, tag numbering, width computation', 'peak/assembler/assembler.py and assembler2/assembler.py: _tuple _sum _enum')])
prop('A03', 'The validity predicate accepts exactly the encodings of values',
     'The predicate computed for a layout is true exactly of the bit patterns that are the encoding of some value of the type, up to the bits of a sum its selected alternative does not use. '
     'Different sets of codes or widths never share a predicate.',
     'inputs programs', 'every type and every bit pattern of its width',
     'tests compare the predicate with enumeration for small types; the choice between interval, union and bit tests depends on the code set',
     ASM + ' peak/assembler/assembler_util.py peak/assembler2/assembler_util.py peak/assembler/assembled_adt.py peak/assembler2/assembled_adt.py',
     [('validator generation', 'assembler_util.py: _gen_is_valid'), ('combination over fields and alternatives', 'assembler.py: _tuple _sum _enum')],
     state=[('_validator_cache', 'generated predicates', 'assembler_util.py')])
prop('A04', 'The two assembler generations agree',
     'The two generations of the assembler assign the same width, field offsets, tag and member codes and the same validity predicate to every type both accept, so words assembled with one are disassembled with the other.',
     'inputs programs', 'every type accepted by both generations',
     'no test runs both generations on the same type',
     ASM + ' peak/assembler/assembler_util.py peak/assembler2/assembler_util.py',
     [('sibling implementations of the same layout rules', 'peak/assembler/assembler.py, peak/assembler2/assembler.py')])
prop('A05', 'Encodings are deterministic',
     'The codes, tags and offsets given to a type depend only on the type description: not on the iteration order of sets, on object identity or hashing, nor on what was assembled before. '
     'The alternatives of a sum are numbered in a fixed, reproducible order.',
     'inputs histories configurations', 'every type, every process and every history of earlier assemblies',
     'a test runs in one process with one hash seed',
     ASM + ' peak/auto_assembler.py peak/bitfield.py',
     [('alternatives sorted before numbering', 'assembler.py: _sum; auto_assembler.py: _sum; bitfield.py: instkey')])
prop('A06', 'Misuse is refused with the documented exceptions',
     'A value of the wrong type, an unknown field, member, tag or instruction, a constructor call with missing or extra fields, and a type that cannot be laid out are refused by raising TypeError, ValueError, AttributeError or KeyError as documented, never accepted silently and never by an accidental error such as a missing name. '
     'A value that is in order is never refused.',
     'inputs', 'every argument of the public entry points, well formed or not',
     'tests exercise a handful of wrong arguments',
     ASM + ' ' + AADT + ' peak/features.py peak/bitfield.py peak/black_box.py peak/ir.py peak/family.py peak/auto_assembler.py',
     [('argument checks before the work', 'the functions named')])
prop('A07', 'Sub field addressing composes offsets',
     'Following a path of field names through a layout gives the absolute bit range and the type of the nested field: offsets add up along the path and the tag and payload of a sum are reached at their own ranges. '
     'Reading a nested field through such a path gives the same bits as reading the fields one after the other.',
     'inputs programs', 'every type and every path into it',
     'tests look up a few paths in fixed types',
     'peak/assembler/assembler_abc.py peak/assembler/assembler.py peak/assembler2/assembler.py peak/assembler/assembled_adt.py peak/assembler2/assembled_adt.py',
     [('relative to absolute offset', 'peak/assembler/assembler_abc.py: Sub, AbstractAssembler.sub')])
prop('A08', 'The older generated assembler is a faithful layout',
     'The width, offsets, tags and member codes the older generator reports describe exactly the words its assembler produces and its disassembler takes apart, for enums, products, sums, bit vectors and constants. '
     'A value that does not match a constant field is refused.',
     'inputs programs', 'every type the generator accepts and every value',
     'tests cover one instruction set',
     'peak/auto_assembler.py', [('generate_assembler and helpers', 'peak/auto_assembler.py')])
prop('B01', 'Assembled values construct and read back consistently',
     'A value of an assembled type holds exactly the bits its assembler gives to the value it was built from; building it from its fields, from a bit vector or from a whole value agree, and reading a field gives back what was put in. '
     'Matching on an alternative of a sum is true exactly when its tag is the one stored.',
     'inputs programs', 'every assembled type, every value and every way to construct it',
     'tests build a few values of fixed types for one family at a time',
     AADT, [('construction and field access', 'assembled_adt.py: AssembledADT, from_fields, _create_from_layout'), ('layout driven reads', 'assembler.py: extract')])
prop('B02', 'Equality and hashing of assembled values are consistent',
     'Two assembled values of the same type are equal exactly when their bits are equal, inequality is the negation, comparison with a plain value compares with its assembly, comparison with an unrelated value is declined, and equal values and types have equal hashes.',
     'inputs', 'every pair of values',
     'tests compare a few pairs', AADT, [('comparison and hash methods', 'assembled_adt.py: AssembledADT.__eq__ __ne__ __hash__, AssembledADTMeta.__ne__ __hash__')])
prop('B03', 'Assembled types mirror the fields of the type they assemble',
     'Reading a field or indexing an assembled type gives the assembled type of that field with the same assembler and bit vector type, membership and the accessors for the underlying type, assembler and bit vector report what the type was built from, and qualifying or flipping for hardware keeps all three.',
     'programs', 'every assembled type and every field',
     'tests check a few types', AADT, [('type level accessors', 'assembled_adt.py: AssembledADTMeta, MAADTMeta')])
prop('C01', 'Families give the same component interface over different value types',
     'Each family offers Bit, BitVector, Signed and Unsigned of its own kind and the matching constructors, and compiling a component for a family applies that family\'s transformations and nothing else, so that the interface types of the component are those of the family. '
     'Assembled types are used exactly where a family asks for them and plain types are left as they are.',
     'programs configurations', 'every component and every family',
     'tests build a handful of components per family',
     'peak/family.py peak/features.py', [('family classes and their assemble/compile', 'peak/family.py'), ('lazy per family construction', 'peak/features.py: family_closure')])
prop('C02', 'Family equality is an equivalence and agrees with hashing',
     'Two families are equal exactly when they are of the same class and configured alike; inequality is the negation, comparison with anything else is declined, and equal families have equal hashes.',
     'inputs configurations', 'every pair of families', 'no test compares differently configured families',
     'peak/family.py', [('__eq__ __ne__ __hash__ of each family', 'peak/family.py')])
prop('C03', 'Caching is invisible',
     'Every cached construction (registers, assemblers, validity predicates, components per family, black box lookups) returns what a fresh construction with the same arguments would: the cache key determines everything the result depends on and nothing that can change later is cached.',
     'histories', 'every sequence of constructions and lookups',
     'a cache collision needs two particular constructions in one process',
     'peak/family.py peak/features.py peak/assembler/assembler_abc.py peak/assembler2/assembler_abc.py peak/assembler/assembler_util.py peak/assembler2/assembler_util.py peak/black_box.py',
     [('cache keys', 'the caches in the files named')],
     state=[('_REG_CACHE, _ATTR_REG_CACHE', 'register classes', 'peak/family.py'), ('_cache', 'assembler instances', 'assembler_abc.py')])
prop('C04', 'Inlined instruction values are their encodings',
     'Inlining the values of an instruction type into a function replaces every attribute read from a type that has an assembler by the integer encoding of that member of the wrapped type, and nothing else: an attribute that is stored to, whose base has no assembler or has no value yet stays as it is. '
     'The function returned is the one of the same name, compiled from the rewritten source in the scopes that were given, and a failure to compile it is reported.',
     'programs', 'every function, set of assemblers and scope',
     'no test inlines values',
     'peak/assembler/utils.py', [('attribute rewriting and recompilation', 'peak/assembler/utils.py: ISABuilderAssembler, assemble_values_in_func')])
prop('D01', 'Registers return the old value and keep or take the new one',
     'A register call returns the value held before the call; the new value is taken when the register has no enable or the enable is true and the old one is kept otherwise; a new register starts with its initial value. '
     'The generator honours the element type, the initial value and the presence of an enable.',
     'inputs histories', 'every type, initial value and sequence of calls',
     'tests run short sequences for a few types', 'peak/register.py peak/family.py', [('register generators', 'peak/register.py, peak/family.py: gen_register')])
prop('D02', 'Register attributes are read and written through their register',
     'Reading an attribute that holds an attribute register gives the current value of the register and assigning to it stores the value in that register, keeping the register in place, while all other attributes and special names behave as ordinary ones. '
     'A register starts with its initial value and refuses a value of the wrong type.',
     'inputs histories', 'every component with register attributes and every sequence of reads and writes',
     'tests cover one counter', 'peak/peak.py peak/family.py', [('attribute hooks', 'peak/peak.py: Peak.__getattribute__ __setattr__'), ('gen_attr_register', 'peak/family.py')])
prop('D03', 'Memories read the addressed cell and write only when enabled',
     'A read only memory returns the cell the address selects and never changes; a read write memory returns the old content of the addressed cell and replaces exactly that cell when the write enable is set. '
     'The cells start with the given content.',
     'inputs histories', 'every depth, content and sequence of accesses', 'tests access a few cells', 'peak/memory.py peak/register.py',
     [('ROM and RAM', 'peak/memory.py')])
prop('E01', 'Declared interfaces are complete and ordered, and results are checked',
     'The input and output types of a component list exactly the annotated parameters and results of its call, in order, by name, and unannotated ones are refused. '
     'A call with result checking raises TypeError when a result does not have its declared type and otherwise returns the result unchanged. '
     'Naming outputs gives each result its name, in order.',
     'inputs programs', 'every signature and every call', 'tests use a few signatures', 'peak/features.py peak/peak.py',
     [('signature to type', 'peak/features.py: gen_input_t gen_output_t typecheck name_outputs'), ('PeakMeta', 'peak/peak.py')])
prop('F01', 'Black boxes record inputs by name and hand out the outputs set for them',
     'A black box remembers the arguments of its last call in declaration order, whether passed by position or keyword, and returns exactly the outputs last assigned to it; a wrong count or name, a call before outputs are set and reading inputs before a call are refused. '
     'Looking up black boxes finds every black box reachable through the attributes of a component under its attribute path and nothing else, as the component is at the time of the lookup, and looking one up by its path gives that object.',
     'inputs histories', 'every black box, call and component', 'tests use one or two black boxes', 'peak/black_box.py peak/family.py',
     [('recording and output', 'peak/black_box.py: BlackBox'), ('lookup', 'peak/black_box.py: get_black_boxes get_black_box')])
prop('G01', 'Bit field encoding places every field at its own place',
     'Encoding an instruction places the encodings of its fields at consecutive, non overlapping offsets, first field lowest or highest as chosen, each as wide as its type needs; a sum carries the tag of its alternative next to its payload (below it, or above it when reversed). '
     'Tags are the declared ones or a reproducible numbering, bad tag declarations are refused, and a declared bit offset shifts the whole word.',
     'inputs programs', 'every instruction type and value', 'tests encode a few instructions', 'peak/bitfield.py', [('encode, size, tag', 'peak/bitfield.py')])
prop('H01', 'Rounding modes mean the same in every table',
     'Each rounding mode has one code, and the tables that translate it for the bit level library, for the hardware library and for evaluation name the same IEEE mode; an operation is evaluated under the rounding mode it was given.',
     'inputs configurations', 'every rounding mode and every operation that takes one', 'tests run a few modes on a few operations', 'peak/float.py',
     [('mode tables and dispatch', 'peak/float.py')])
prop('H02', 'Every floating point operation is exposed under its own name and arity',
     'The generated floating point library exposes each operation of the underlying library with the declared operands and result types, forwarding the operands in order to the operation of that name; the constant rounding mode variants equal the general ones with the mode fixed.',
     'inputs configurations', 'every operation, format and rounding mode', 'tests call a few operations', 'peak/float.py', [('generated operation classes', 'peak/float.py: float_lib_gen')])
prop('I01', 'An instruction added to an IR behaves as it was given',
     'An instruction added to an IR is found under its name, with the declared input and output names, types and order, and calls the given function with the family and its inputs in order; a second instruction of the same name is refused and leaves the first in place.',
     'inputs programs', 'every instruction added', 'tests add a few instructions', 'peak/ir.py', [('add_instruction add_peak_instruction', 'peak/ir.py')])
prop('J01', 'The hardware wrapper disassembles instructions by the assembler layout',
     'Wrapping a circuit with the disassembler drives every instruction field port from exactly the bits the layout assigns to that field of the instruction word, recursively, and passes all other ports through unchanged.',
     'programs', 'every layout and circuit', 'one wrapped design is tested', 'peak/rtl_utils.py peak/auto_assembler.py', [('wrap_with_disassembler', 'peak/rtl_utils.py')])
prop('F02', 'Analysis treats black boxes as unconstrained functions',
     'When a component is analysed every black box in it gets fresh outputs and its inputs are those the component computes for it.',
     'programs', 'every component containing black boxes', 'one component is tested', 'peak/black_box.py peak/family.py', [('black box discovery and family', 'peak/family.py: _BBFamily')])

exec(open(os.path.join(HERE, 'tools', 'meta_mapper.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'meta_mapper.py')) else None

NA = []


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech)
    NA.append({'property': id, 'reason': reason})


exec(open(os.path.join(HERE, 'tools', 'meta_na.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'meta_na.py')) else None

TECH = 'value graph equivalence (gated value numbering over the syntax tree) of each anchored function with a specification, plus repository specific lint rules'
NOTE = ('Static, on every run, from the current source. Each anchored function is compared as a whole with a hand reviewed specification function: a '
        'discharged obligation means the same results, effects and exceptions for all inputs, under the stated model of the libraries used. A rewrite '
        'the normalisation cannot follow is reported as undecided, without an alarm. Trusted: the specifications, the evaluator and the library model.')


def main():
    nas = {x['property'] for x in NA}
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}
            if p['state']:
                d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']]
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(d) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q pv >/dev/null || true',
         'checks': [{'property': p['id'], 'quick_cmd': f'python3 check.py {p["id"]}', 'thorough_cmd': f'python3 check.py {p["id"]}',
                     'technique': TECH, 'level': 'other', 'level_note': (p['note'] + ' ' if p['note'] else '') + NOTE}
                    for p in P if p['id'] not in nas],
         'not_applicable': NA}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
