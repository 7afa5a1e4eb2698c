From 9c2602d62b651a8396c038ad5f4162c7c32dd918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 01/22] fix: is_valid for a union of ranges must start from
 invalid, not valid

---
 peak/assembler/assembler_util.py  | 2 +-
 peak/assembler2/assembler_util.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/assembler/assembler_util.py b/peak/assembler/assembler_util.py
index 779cb9f..707d467 100644
--- a/peak/assembler/assembler_util.py
+++ b/peak/assembler/assembler_util.py
@@ -118,6 +118,6 @@ def _gen_is_valid(
                 return ft.reduce(
                         operator.or_,
                         (f(opcode) for f in range_validators),
-                        opcode.get_family().Bit(1))
+                        opcode.get_family().Bit(0))
 
     return _validator_cache.setdefault(opcodes, is_valid)
diff --git a/peak/assembler2/assembler_util.py b/peak/assembler2/assembler_util.py
index 779cb9f..707d467 100644
--- a/peak/assembler2/assembler_util.py
+++ b/peak/assembler2/assembler_util.py
@@ -118,6 +118,6 @@ def _gen_is_valid(
                 return ft.reduce(
                         operator.or_,
                         (f(opcode) for f in range_validators),
-                        opcode.get_family().Bit(1))
+                        opcode.get_family().Bit(0))
 
     return _validator_cache.setdefault(opcodes, is_valid)
-- 
2.43.0


From 4e4a6c0fbe5381484303b659ec0eb03b5a8b7958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 02/22] fix: key the validator cache by width as well as by
 opcodes

---
 peak/assembler/assembler_util.py  | 8 ++++----
 peak/assembler2/assembler_util.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/peak/assembler/assembler_util.py b/peak/assembler/assembler_util.py
index 707d467..9559dec 100644
--- a/peak/assembler/assembler_util.py
+++ b/peak/assembler/assembler_util.py
@@ -21,7 +21,7 @@ def _gen_is_valid(
     '''
     opcodes = tuple(sorted(opcodes))
     try:
-        return _validator_cache[opcodes]
+        return _validator_cache[opcodes, width]
     except KeyError:
         pass
 
@@ -36,7 +36,7 @@ def _gen_is_valid(
     if is_range and implicit_lb and implicit_ub:
         def is_valid(opcode: AbstractBitVector) -> AbstractBit:
             return opcode.get_family().Bit(1)
-        return _validator_cache.setdefault(opcodes, is_valid)
+        return _validator_cache.setdefault((opcodes, width), is_valid)
 
     # The naive approach
     def is_valid(opcode: AbstractBitVector) -> AbstractBit:
@@ -46,7 +46,7 @@ def _gen_is_valid(
 
     if len(opcodes) < 3:
         # No point in doing anything fancy for less than 3 options
-        return _validator_cache.setdefault(opcodes, is_valid)
+        return _validator_cache.setdefault((opcodes, width), is_valid)
 
     # Check for single contiguous range
     if is_range:
@@ -120,4 +120,4 @@ def _gen_is_valid(
                         (f(opcode) for f in range_validators),
                         opcode.get_family().Bit(0))
 
-    return _validator_cache.setdefault(opcodes, is_valid)
+    return _validator_cache.setdefault((opcodes, width), is_valid)
diff --git a/peak/assembler2/assembler_util.py b/peak/assembler2/assembler_util.py
index 707d467..9559dec 100644
--- a/peak/assembler2/assembler_util.py
+++ b/peak/assembler2/assembler_util.py
@@ -21,7 +21,7 @@ def _gen_is_valid(
     '''
     opcodes = tuple(sorted(opcodes))
     try:
-        return _validator_cache[opcodes]
+        return _validator_cache[opcodes, width]
     except KeyError:
         pass
 
@@ -36,7 +36,7 @@ def _gen_is_valid(
     if is_range and implicit_lb and implicit_ub:
         def is_valid(opcode: AbstractBitVector) -> AbstractBit:
             return opcode.get_family().Bit(1)
-        return _validator_cache.setdefault(opcodes, is_valid)
+        return _validator_cache.setdefault((opcodes, width), is_valid)
 
     # The naive approach
     def is_valid(opcode: AbstractBitVector) -> AbstractBit:
@@ -46,7 +46,7 @@ def _gen_is_valid(
 
     if len(opcodes) < 3:
         # No point in doing anything fancy for less than 3 options
-        return _validator_cache.setdefault(opcodes, is_valid)
+        return _validator_cache.setdefault((opcodes, width), is_valid)
 
     # Check for single contiguous range
     if is_range:
@@ -120,4 +120,4 @@ def _gen_is_valid(
                         (f(opcode) for f in range_validators),
                         opcode.get_family().Bit(0))
 
-    return _validator_cache.setdefault(opcodes, is_valid)
+    return _validator_cache.setdefault((opcodes, width), is_valid)
-- 
2.43.0


From 953f92e10f86621caffa9884cf88718e7c4956ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 03/22] fix: report an invalid tag as ValueError instead of
 failing with NameError

---
 peak/assembler/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/assembler/assembler.py b/peak/assembler/assembler.py
index 088d2ee..cff3fda 100644
--- a/peak/assembler/assembler.py
+++ b/peak/assembler/assembler.py
@@ -74,7 +74,7 @@ class Assembler(AbstractAssembler):
         if not _issubclass(self.isa, Sum):
             raise TypeError('can only disassemble tag for Sum')
         if not self.is_valid_tag(tag):
-            raise ValueError(f'invalid tag: {opcode}')
+            raise ValueError(f'invalid tag: {tag}')
         return self._tag_dsm(tag)
 
     def is_valid_tag(self, tag: AbstractBitVector) -> AbstractBit:
-- 
2.43.0


From cc69246c3cd2024a1a7364de06a9d5e8b8bd6d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 04/22] fix: record black box keyword inputs in declaration
 order

---
 peak/black_box.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/black_box.py b/peak/black_box.py
index c67f0f7..a2d33f7 100644
--- a/peak/black_box.py
+++ b/peak/black_box.py
@@ -54,7 +54,7 @@ class BlackBox:
             else:
                 if kwargs.keys() != input_t.field_dict.keys():
                     raise ValueError(f"{self} need to call with input_t {list(input_t.field_dict.items())}")
-                self._input_vals = tuple(kwargs.values())
+                self._input_vals = tuple(kwargs[k] for k in input_t.field_dict)
             return self._output_vals
         if hasattr(old_call, "_input_t"):
             assert hasattr(old_call, "_output_t")
-- 
2.43.0


From 8c83be950149ff40780c6fa6e18506744db81cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 05/22] fix: evaluate RUP and RMM under the matching hwtypes
 rounding modes

---
 peak/float.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/peak/float.py b/peak/float.py
index e6b74a7..3b1a430 100644
--- a/peak/float.py
+++ b/peak/float.py
@@ -141,14 +141,14 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         out_rdn = getattr(in0_rdn, op_name)(in1_rdn)
                         out = out_rdn.reinterpret_as_bv()
                     elif rm == RoundingMode.RUP:
-                        in0_rup = cast(RoundingMode_hwtypes.RUP, in0)
-                        in1_rup = cast(RoundingMode_hwtypes.RUP, in1)
+                        in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
+                        in1_rup = cast(RoundingMode_hwtypes.RTP, in1)
                         out_rup = getattr(in0_rup, op_name)(in1_rup)
                         out = out_rup.reinterpret_as_bv()
                     else:
                         assert  rm == RoundingMode.RMM
-                        in0_rmm = cast(RoundingMode_hwtypes.RUP, in0)
-                        in1_rmm = cast(RoundingMode_hwtypes.RUP, in1)
+                        in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
+                        in1_rmm = cast(RoundingMode_hwtypes.RNA, in1)
                         out_rmm = getattr(in0_rmm, op_name)(in1_rmm)
                         out = out_rmm.reinterpret_as_bv()
                     return out
@@ -179,14 +179,14 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         out_rdn = getattr(in0_rdn, op_name)(in1_rdn)
                         out = out_rdn
                     elif rm == RoundingMode.RUP:
-                        in0_rup = cast(RoundingMode_hwtypes.RUP, in0)
-                        in1_rup = cast(RoundingMode_hwtypes.RUP, in1)
+                        in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
+                        in1_rup = cast(RoundingMode_hwtypes.RTP, in1)
                         out_rup = getattr(in0_rup, op_name)(in1_rup)
                         out = out_rup
                     else:
                         assert  rm == RoundingMode.RMM
-                        in0_rmm = cast(RoundingMode_hwtypes.RUP, in0)
-                        in1_rmm = cast(RoundingMode_hwtypes.RUP, in1)
+                        in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
+                        in1_rmm = cast(RoundingMode_hwtypes.RNA, in1)
                         out_rmm = getattr(in0_rmm, op_name)(in1_rmm)
                         out = out_rmm
                     return out
@@ -214,12 +214,12 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         out_rdn = getattr(in0_rdn, op_name)()
                         out = out_rdn.reinterpret_as_bv()
                     elif rm == RoundingMode.RUP:
-                        in0_rup = cast(RoundingMode_hwtypes.RUP, in0)
+                        in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
                         out_rup = getattr(in0_rup, op_name)()
                         out = out_rup.reinterpret_as_bv()
                     else:
                         assert  rm == RoundingMode.RMM
-                        in0_rmm = cast(RoundingMode_hwtypes.RUP, in0)
+                        in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
                         out_rmm = getattr(in0_rmm, op_name)()
                         out = out_rmm.reinterpret_as_bv()
                     return out
@@ -261,16 +261,16 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                     out_rdn = in0_rdn.fp_fma(in1_rdn, in2_rdn)
                     out = out_rdn.reinterpret_as_bv()
                 elif rm == RoundingMode.RUP:
-                    in0_rup = cast(RoundingMode_hwtypes.RUP, in0)
-                    in1_rup = cast(RoundingMode_hwtypes.RUP, in1)
-                    in2_rup = cast(RoundingMode_hwtypes.RUP, in2)
+                    in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
+                    in1_rup = cast(RoundingMode_hwtypes.RTP, in1)
+                    in2_rup = cast(RoundingMode_hwtypes.RTP, in2)
                     out_rup = in0_rup.fp_fma(in1_rup, in2_rup)
                     out = out_rup.reinterpret_as_bv()
                 else:
                     assert  rm == RoundingMode.RMM
-                    in0_rmm = cast(RoundingMode_hwtypes.RUP, in0)
-                    in1_rmm = cast(RoundingMode_hwtypes.RUP, in1)
-                    in2_rmm = cast(RoundingMode_hwtypes.RUP, in2)
+                    in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
+                    in1_rmm = cast(RoundingMode_hwtypes.RNA, in1)
+                    in2_rmm = cast(RoundingMode_hwtypes.RNA, in2)
                     out_rmm = in0_rmm.fp_fma(in1_rmm, in2_rmm)
                     out = out_rmm.reinterpret_as_bv()
                 return out
-- 
2.43.0


From 719a8d7b9116b41738dcff77a2c4c5bf08e2ac88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 06/22] fix: constant rounding mode Fma_fc referenced an
 undefined name

---
 peak/float.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/float.py b/peak/float.py
index 3b1a430..ecb5dc1 100644
--- a/peak/float.py
+++ b/peak/float.py
@@ -352,7 +352,7 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
         @family_closure
         def _fp_fma(family):
             rm_ = family.get_constructor(RoundingMode)(rm)
-            FMA = fp_fma_fc(family)
+            FMA = fp_fma(family)
             @family.assemble(locals(), globals())
             class _FMA(Peak):
                 def __init__(self):
-- 
2.43.0


From 9128c1d10bd0d5cfa76002699cd56c9691b4e050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 07/22] fix: families of different types are never equal

---
 peak/family.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/peak/family.py b/peak/family.py
index 692ba2e..f744e9d 100644
--- a/peak/family.py
+++ b/peak/family.py
@@ -35,7 +35,7 @@ class AbstractFamily(metaclass=ABCMeta):
             logger.debug('\n'.join(msg))
 
     def __eq__(self, other):
-        if isinstance(other, type(self)):
+        if type(other) is type(self):
             return True
         else:
             return NotImplemented
@@ -113,7 +113,7 @@ class _AsmFamily(AbstractFamily):
         return self.get_adt_t(adt_t).from_fields
 
     def __eq__(self, other):
-        if isinstance(other, type(self)):
+        if type(other) is type(self):
             return (self._assembler == other._assembler
                     and self._aadt_t == other._aadt_t
                     and self._asm_extras == other._asm_extras)
@@ -146,7 +146,7 @@ class _RewriterFamily(AbstractFamily):
         return _compose(deco, s_deco)
 
     def __eq__(self, other):
-        if isinstance(other, type(self)):
+        if type(other) is type(self):
             return self._passes == other._passes
         else:
             return NotImplemented
-- 
2.43.0


From 8a97626802dbb8bdbd676ea314f608013a579309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 08/22] fix: reject rewrite rules that leave a Const arch input
 unbound

---
 peak/mapper/mapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index bf6147e..4f0a111 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -220,7 +220,7 @@ class RewriteRule:
         arch_path_types = _create_path_to_adt(arch_fc.Py.input_t)
         self.ibinding = []
         for ir_path, arch_path in ibinding:
-            if ir_path is Unbound and isinstance(arch_path_types[arch_path], Const):
+            if ir_path is Unbound and issubclass(arch_path_types[arch_path], Const):
                 raise ValueError(f"Arch path {arch_path} needs to have a value")
             elif ir_path is not Unbound and not isinstance(ir_path, tuple):
                 #Build the python bitvector and verify it is valid
@@ -245,7 +245,7 @@ class RewriteRule:
         for ir_path, arch_path in self.ibinding:
             if isinstance(ir_path, tuple):
                 ir_paths.add(ir_path)
-            elif ir_path is Unbound and not isinstance(arch_path_types[arch_path], Const):
+            elif ir_path is Unbound and not issubclass(arch_path_types[arch_path], Const):
                 arch_paths.add(arch_path)
         return ir_paths, arch_paths
 
-- 
2.43.0


From 586469c617bdd6e9838288f9a9be072f782c1b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 09/22] fix: build forms of a given TaggedUnion value by field
 name

---
 peak/mapper/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/mapper/utils.py b/peak/mapper/utils.py
index fb6dffa..ca88ece 100644
--- a/peak/mapper/utils.py
+++ b/peak/mapper/utils.py
@@ -130,7 +130,7 @@ class SMTForms(AssembledADTRecursor):
             if value is None:
                 sub_value = None
             else:
-                sub_value = value[field].value
+                sub_value = getattr(value, field_name).value
 
             sub_forms, sub_varmap, _sub_value = self(sub_aadt_t, path=path + (field_name,), value=sub_value)
             _value = aadt_t.from_fields(tag_bv=tag, **{field_name: _sub_value})
-- 
2.43.0


From 5f0f6ad93b2012a7cc27c21729405d2c2c0e4888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:22 +0000
Subject: [PATCH 10/22] fix: constrain and quantify black box outputs in multi
 instruction rules

---
 peak/mapper/multi.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/peak/mapper/multi.py b/peak/mapper/multi.py
index d4b1451..f208dae 100644
--- a/peak/mapper/multi.py
+++ b/peak/mapper/multi.py
@@ -3,9 +3,11 @@ from functools import reduce
 from types import SimpleNamespace
 from hwtypes import strip_modifiers
 from peak import family as peak_family, family_closure, Peak, Const
+from peak.black_box import get_black_boxes
 from .mapper import aadt_product_to_dict, external_loop_solve
 from .index_var import IndexVar, OneHot, Binary
 from .mapper import _get_peak_cls, _create_free_var, create_and_set_bb_outputs, wrap_outputs, is_valid, get_bb_inputs
+from .mapper import update_with_bb
 from .utils import _sort_by_t, pretty_print_binding, solved_to_bv, Unbound
 from .formula_constructor import And, Or, Implies
 import pysmt.shortcuts as smt
@@ -141,8 +143,6 @@ def Multi(arch_fc, ir_fc, N: int, family=peak_family, IVar: IndexVar = Binary, u
         real_arch_outputs, bb_inputs, bb_outputs = run_peak(arch_obj, output_aadt, arch_inputs, bb_prefix=f"{i}.BB.{arch_info.cls.__name__}")
 
         pysmt_forall_vars += [v.value for field, v in arch_inputs.items() if field in arch_info.non_const_dict]
-        pysmt_forall_vars += [v.value for v in bb_outputs.values()]
-
 
         #Creating i'th binding
         #Consisting of the ir_inputs, arch_inputs, Arch_output[N-1 ... 1])
@@ -254,6 +254,27 @@ def Multi(arch_fc, ir_fc, N: int, family=peak_family, IVar: IndexVar = Binary, u
         impl_cond = And([free_repl, Or(impl_conds)])
     F = out_conds
     formula = And([valid_cond, Implies(impl_cond, F)])
+
+    #Each instruction has its own instance of every arch black box
+    arch_bbs = {}
+    arch_bb_inputs = {}
+    arch_bb_outputs = {}
+    for i in range(N):
+        block = block_info[i]
+        for path, bb in get_black_boxes(block.obj).items():
+            arch_bbs[(i, *path)] = bb
+            arch_bb_inputs[(i, *path)] = block.bb_inputs[path]
+            arch_bb_outputs[(i, *path)] = block.bb_outputs[path]
+    formula, bb_forall = update_with_bb(
+        formula,
+        arch_bbs,
+        arch_bb_inputs,
+        arch_bb_outputs,
+        get_black_boxes(ir_obj),
+        ir_bb_inputs,
+        ir_bb_outputs,
+    )
+    pysmt_forall_vars += bb_forall
     formula = formula.to_hwtypes()
     forall_vars = pysmt_forall_vars
     formula_wo_forall = formula.value
-- 
2.43.0


From e0ea81af908fa384af7ca4efad975371827b0b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 11/22] fix: read the multi instruction solution while the
 solver is open

---
 peak/mapper/multi.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/peak/mapper/multi.py b/peak/mapper/multi.py
index f208dae..ee2597a 100644
--- a/peak/mapper/multi.py
+++ b/peak/mapper/multi.py
@@ -296,12 +296,18 @@ def RR(solver, info):
     if solver is None:
         return None
 
+    N = info.N
+    block_info = info.block_info
+    arch_info = info.arch_info
+    bind_var = info.bind_var
+    #The solver is closed before get_info can be called so read the model now
+    bind_val = bind_var.decode(int(solved_to_bv(bind_var.var, solver)))
+    all_ivals = []
+    for i in range(N):
+        instrs = [block_info[i].arch_inputs[field] for field in arch_info.const_dict]
+        all_ivals.append([solved_to_bv(instr._value_,solver) for instr in instrs])
+
     def get_info():
-        N = info.N
-        block_info = info.block_info
-        arch_info = info.arch_info
-        bind_var = info.bind_var
-        bind_val = bind_var.decode(int(solved_to_bv(bind_var.var, solver)))
         print(bind_var.var.value, bind_val)
         binding_indices = info.valid_bindings[bind_val]
         for i in range(N):
@@ -309,8 +315,6 @@ def RR(solver, info):
             print(f"Instruction {i}")
             binding = block_info[i].bindings[binding_indices[i]]
             pretty_print_binding(binding)
-            instrs = [block_info[i].arch_inputs[field] for field in arch_info.const_dict]
-            ivals = [solved_to_bv(instr._value_,solver) for instr in instrs]
-            print(ivals)
+            print(all_ivals[i])
         return info
     return get_info
-- 
2.43.0


From 692bf57ff1dafacd4b5bce4a3c54fb71d2517dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 12/22] fix: size an Enum by its largest value so sparse enums
 do not overflow

---
 peak/bitfield.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/peak/bitfield.py b/peak/bitfield.py
index 2ca967b..c61aa5d 100644
--- a/peak/bitfield.py
+++ b/peak/bitfield.py
@@ -25,7 +25,11 @@ def size(type):
     elif issubclass(type, AbstractBitVector):
         s = type.size
     elif issubclass(type, Enum):
-        return clog2(len(list(type.enumerate())))
+        values = [e._value_ for e in type.enumerate()]
+        if all(isinstance(v, int) for v in values):
+            # wide enough for the largest value, values need not be contiguous
+            return max(values).bit_length()
+        return clog2(len(values))
     elif issubclass(type, Product):
         s = sum([size(getattr(type,key)) for key in type.field_dict])
     elif issubclass(type, Sum):
-- 
2.43.0


From ed5d30bdcddfc5ced1c2558e7b4ca33973c0a75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 13/22] fix: give untagged Sum options a reproducible tag

---
 peak/bitfield.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peak/bitfield.py b/peak/bitfield.py
index c61aa5d..abf12db 100644
--- a/peak/bitfield.py
+++ b/peak/bitfield.py
@@ -50,7 +50,8 @@ def instkey(inst):
         # depreciated
         i = t.tags[type(inst._value_)]
     else:
-        i = list(t.fields).index(type(inst._value_))
+        # fields of a Sum are unordered, sort them to get a stable tag
+        i = sorted(t.fields, key=repr).index(type(inst._value_))
     return i
 
 def bitfield(i):
-- 
2.43.0


From 6845369002c981892fdda51c5a935384e6ebebbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 14/22] fix: raise ValueError for values that do not match a
 constant field

---
 peak/auto_assembler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/auto_assembler.py b/peak/auto_assembler.py
index d5a7b16..2637e44 100644
--- a/peak/auto_assembler.py
+++ b/peak/auto_assembler.py
@@ -157,11 +157,11 @@ def _bv_const(isa : AbstractBitVector):
     T = type(isa)
     def assembler(inst):
         if inst != isa:
-            return ValueError()
+            raise ValueError()
         return inst
     def disassembler(opcode):
         if opcode != isa:
-            return ValueError()
+            raise ValueError()
         return T(opcode)
     return assembler, disassembler, get_width(isa), None
 
-- 
2.43.0


From 581000a3cffc559a94a8ae6cb4171a173ed386b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 15/22] fix: use the mapper family for the IR and for black box
 outputs

---
 peak/mapper/mapper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 4f0a111..a4a73d3 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -131,7 +131,7 @@ class SMTMapper:
 
 
         #Create Black Box variables
-        self.bb_outputs = create_and_set_bb_outputs(self.peak_obj, prefix=f"BB.{Peak_cls.__name__}")
+        self.bb_outputs = create_and_set_bb_outputs(self.peak_obj, family=family, prefix=f"BB.{Peak_cls.__name__}")
 
         self.output_aadt_t = output_aadt_t
         input_forms, input_varmap, input_value = SMTForms()(input_aadt_t)
@@ -317,8 +317,8 @@ class RewriteRule:
         ir = self.ir_fc(self.family.SMTFamily())()
         arch = self.arch_fc(self.family.SMTFamily())()
 
-        ir_bb_outputs = create_and_set_bb_outputs(ir)
-        arch_bb_outputs = create_and_set_bb_outputs(arch)
+        ir_bb_outputs = create_and_set_bb_outputs(ir, family=self.family)
+        arch_bb_outputs = create_and_set_bb_outputs(arch, family=self.family)
 
         ir_out_values = self.parse_ir_output(ir(**ir_inputs))
         arch_out_values = self.parse_arch_output(arch(**arch_inputs))
@@ -463,7 +463,7 @@ def update_with_bb(
 
 class IRMapper(SMTMapper):
     def __init__(self, archmapper, ir_fc, simple_formula=True, IVar: IndexVar=OneHot):
-        super().__init__(ir_fc)
+        super().__init__(ir_fc, family=archmapper.family)
         #For now assume that ir input forms and ir output forms is just 1
         if self.num_input_forms > 1:
             raise NotImplementedError("Multiple ir input forms")
-- 
2.43.0


From 9ad9ee84f955f984936df58f4376ed210ce7260f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 16/22] fix: read the value of a partially bound const from the
 solved variable

---
 peak/mapper/mapper.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index a4a73d3..b63c7df 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -477,6 +477,10 @@ class IRMapper(SMTMapper):
         # should be a param to __init__ but this works for now
         self.archmapper = archmapper
 
+        #arch path -> var holding the value of a const arch path if it is not
+        #the arch input var itself
+        self.exists_vars = {}
+
         # Create input bindings
         # binding = [input_form_idx][bidx]
         input_bindings = []
@@ -594,6 +598,8 @@ class IRMapper(SMTMapper):
 
             #name -> var
             name_to_var = {}
+            #name -> arch path
+            name_to_path = {}
 
             fb_conditions = {} #form/binding conditions in a list
             for fi, ibindings in enumerate(input_bindings):
@@ -605,6 +611,7 @@ class IRMapper(SMTMapper):
                         arch_name = ".".join(["A"] + [str(p) for p in arch_path])
                         arch_var = archmapper.input_varmap[arch_path]
                         name_to_var[arch_name] = arch_var
+                        name_to_path[arch_name] = arch_path
                         is_unbound = ir_path is Unbound
                         is_constrained = arch_path in self.archmapper.path_constraints
                         is_const = issubclass(arch_input_path_to_adt[arch_path], Const)
@@ -642,6 +649,7 @@ class IRMapper(SMTMapper):
                 e_conds = Or([(form_var.match_index(fi) & ib_var.match_index(bi)) for fi,bi in exists_fbs]).to_hwtypes()
                 sub_var = e_conds.ite(var_e, var_a)
                 overlap_subs.append((var, sub_var))
+                self.exists_vars[name_to_path[name]] = var_e
                 pysmt_forall_vars.remove(var.value)
                 pysmt_forall_vars.add(var_a.value)
                 #Will need to do an input transformation
@@ -844,7 +852,7 @@ def rr_from_solver(solver, irmapper):
     bv_ibinding = []
     for ir_path, arch_path in ibinding:
         if (ir_path is Unbound) and (arch_path in am.const_paths or arch_path in am.path_constraints):
-            var = am.input_varmap[arch_path]
+            var = im.exists_vars.get(arch_path, am.input_varmap[arch_path])
             bv_val = solved_to_bv(var, solver)
             ir_path = bv_val
         bv_ibinding.append((ir_path, arch_path))
-- 
2.43.0


From 8099676337bf7a7aefd6af2b5aa538985b6529ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:54 +0000
Subject: [PATCH 17/22] fix: allow zero width fields when building a value from
 its fields

---
 peak/assembler/assembled_adt.py | 5 ++++-
 peak/assembler2/assembler.py    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/peak/assembler/assembled_adt.py b/peak/assembler/assembled_adt.py
index 817d3f6..8c63f6a 100644
--- a/peak/assembler/assembled_adt.py
+++ b/peak/assembler/assembled_adt.py
@@ -38,12 +38,15 @@ def _create_from_layout(width, layout, field_bvs, bv_type: AbstractBitVector, de
             type(r0) == type(r1) == tuple
             and len(r0) == len(r1) == 2
             # ranges are not overlapping and are bounded by (0, width)
-            and 0 <= r0[0] < r0[1] <= r1[0] < r1[1] <= width
+            and 0 <= r0[0] <= r0[1] <= r1[0] <= r1[1] <= width
             for r0, r1 in zip(ranges, ranges[1:])):
         raise ValueError('invalid layout')
 
     slots = [bv_type[1](default_value) for i in range(width)]
     for field_name, (low, hi) in layout.items():
+        # zero width fields do not occupy a slot
+        if low == hi:
+            continue
         # need to add None to keep the indexing consistent
         slots[low:hi] = field_bvs[field_name], *(None for _ in range(low+1, hi))
     bv = reduce(bv_type.concat, (_as_bv(s) for s in slots if s is not None))
diff --git a/peak/assembler2/assembler.py b/peak/assembler2/assembler.py
index 2d0ed00..8cb5318 100644
--- a/peak/assembler2/assembler.py
+++ b/peak/assembler2/assembler.py
@@ -73,7 +73,7 @@ def _create_from_layout(width, layout, field_bvs):
             type(r0) == type(r1) == tuple
             and len(r0) == len(r1) == 2
             # ranges are not overlapping and are bounded by (0, width)
-            and 0 <= r0[0] < r0[1] <= r1[0] < r1[1] <= width
+            and 0 <= r0[0] <= r0[1] <= r1[0] <= r1[1] <= width
             for r0, r1 in zip(ranges, ranges[1:])):
         raise ValueError('invalid layout')
 
@@ -88,6 +88,9 @@ def _create_from_layout(width, layout, field_bvs):
 
     slots = [T[1]() for _ in range(width)]
     for field_name, (low, hi) in layout.items():
+        # zero width fields do not occupy a slot
+        if low == hi:
+            continue
         # need to add None to keep the indexing consistent
         slots[low:hi] = field_bvs[field_name], *(None for _ in range(low+1, hi))
     bv = ft.reduce(T.concat, (s for s in slots if s is not None))
-- 
2.43.0


From 8d352a3535bff7d4dccdf03efac81a05d1da0be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:10 +0000
Subject: [PATCH 18/22] fix: do not cache black box lookups on mutable objects

---
 peak/black_box.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/peak/black_box.py b/peak/black_box.py
index a2d33f7..ae19fff 100644
--- a/peak/black_box.py
+++ b/peak/black_box.py
@@ -1,6 +1,3 @@
-from functools import lru_cache
-
-@lru_cache(None)
 def get_black_boxes(obj, path=()):
     """Gets references to all the black boxes in the hierarchical circuit"""
 
@@ -17,7 +14,6 @@ def get_black_boxes(obj, path=()):
             ret = {**ret, **get_black_boxes(obj, path + (field,))}
     return ret
 
-@lru_cache(None)
 def get_black_box(obj, path):
     """Gets a specific black box given a path"""
     # Hack to avoid circular import
-- 
2.43.0


From 233396c1ede43cd7a79996de03c3dfb70a971d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:19 +0000
Subject: [PATCH 19/22] fix: floating point classification operations return a
 bit

---
 peak/float.py | 57 +++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 55 insertions(+), 2 deletions(-)

diff --git a/peak/float.py b/peak/float.py
index ecb5dc1..eb967e2 100644
--- a/peak/float.py
+++ b/peak/float.py
@@ -226,10 +226,45 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
             return Op
         return fc
 
+    @lru_cache(None)
+    def gen_unary_bit(op_name):
+        @family_closure
+        def fc(family: TypeFamily):
+            cast = _get_cast(family)
+            @family.assemble(locals(), globals())
+            class Op(Peak, BlackBox):
+                def __call__(self, rm: RoundingMode, in0: Data) -> Bit:
+                    if rm == RoundingMode.RNE:
+                        in0_rne = cast(RoundingMode_hwtypes.RNE, in0)
+                        out_rne = getattr(in0_rne, op_name)()
+                        out = out_rne
+                    elif rm == RoundingMode.RTZ:
+                        in0_rtz = cast(RoundingMode_hwtypes.RTZ, in0)
+                        out_rtz = getattr(in0_rtz, op_name)()
+                        out = out_rtz
+                    elif rm == RoundingMode.RDN:
+                        in0_rdn = cast(RoundingMode_hwtypes.RDN, in0)
+                        out_rdn = getattr(in0_rdn, op_name)()
+                        out = out_rdn
+                    elif rm == RoundingMode.RUP:
+                        in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
+                        out_rup = getattr(in0_rup, op_name)()
+                        out = out_rup
+                    else:
+                        assert  rm == RoundingMode.RMM
+                        in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
+                        out_rmm = getattr(in0_rmm, op_name)()
+                        out = out_rmm
+                    return out
+            return Op
+        return fc
+
     closures = {}
     for k, f in AbstractFPVector.__dict__.items():
         if k.startswith('fp_'):
-            if len(inspect.signature(f).parameters) == 1:
+            if k.startswith('fp_is_'):
+                closures[_format_name(k)] = gen_unary_bit(k)
+            elif len(inspect.signature(f).parameters) == 1:
                 closures[_format_name(k)] = gen_unary(k)
             elif k in ("fp_leq", "fp_lt", "fp_geq", "fp_gt", "fp_eq"):
                 closures[_format_name(k)] = gen_binary_bit(k)
@@ -304,6 +339,22 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
 
             return fc
 
+        def gen_const_rm_unary_bit(op_name):
+            @family_closure
+            def fc(family):
+                cast = _get_cast_const_rm(rm, family)
+
+                @family.assemble(locals(), globals())
+                class Op(Peak, BlackBox):
+                    def __call__(self, in_: Data) -> Bit:
+                        in_float = cast(in_)
+                        out_bit = getattr(in_float, op_name)()
+                        return out_bit
+
+                return Op
+
+            return fc
+
         def gen_const_rm_binary(op_name):
             @family_closure
             def fc(family):
@@ -342,7 +393,9 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
         closures_ = {}
         for k, f in AbstractFPVector.__dict__.items():
             if k.startswith('fp_'):
-                if len(inspect.signature(f).parameters) == 1:
+                if k.startswith('fp_is_'):
+                    closures_[_format_name(k)] = gen_const_rm_unary_bit(k)
+                elif len(inspect.signature(f).parameters) == 1:
                     closures_[_format_name(k)] = gen_const_rm_unary(k)
                 elif k in ("fp_leq", "fp_lt", "fp_geq", "fp_gt", "fp_eq"):
                     closures_[_format_name(k)] = gen_const_rm_binary_bit(k)
-- 
2.43.0


From c81cbc0b0beadae4d8b7d47a17bccb1b55042afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:45 +0000
Subject: [PATCH 20/22] fix: assemble a Bit alternative of a Sum

---
 peak/auto_assembler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/auto_assembler.py b/peak/auto_assembler.py
index 2637e44..7f5dc88 100644
--- a/peak/auto_assembler.py
+++ b/peak/auto_assembler.py
@@ -133,8 +133,8 @@ def _sum(isa : Sum):
         tag, e = encoding[field]
         assert tag.size == tag_width, (tag, tag.size, tag_width)
         tag = tag.zext(width - tag_width)
-        pay_load = e(inst.value)
-        pay_load = pay_load.zext(width - pay_load.size)
+        # the payload may be a Bit, which cannot be extended
+        pay_load = BitVector[width](e(inst.value))
         opcode |= tag
         opcode |= pay_load << tag_width
         return opcode
-- 
2.43.0


From 53537b49dd42c7b12aaf08b4b90d91d322e1d929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:08 +0000
Subject: [PATCH 21/22] fix: evaluate RDN under the matching hwtypes rounding
 mode

---
 peak/float.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/peak/float.py b/peak/float.py
index eb967e2..bf49896 100644
--- a/peak/float.py
+++ b/peak/float.py
@@ -136,8 +136,8 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         out_rtz = getattr(in0_rtz, op_name)(in1_rtz)
                         out = out_rtz.reinterpret_as_bv()
                     elif rm == RoundingMode.RDN:
-                        in0_rdn = cast(RoundingMode_hwtypes.RDN, in0)
-                        in1_rdn = cast(RoundingMode_hwtypes.RDN, in1)
+                        in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
+                        in1_rdn = cast(RoundingMode_hwtypes.RTN, in1)
                         out_rdn = getattr(in0_rdn, op_name)(in1_rdn)
                         out = out_rdn.reinterpret_as_bv()
                     elif rm == RoundingMode.RUP:
@@ -174,8 +174,8 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         out_rtz = getattr(in0_rtz, op_name)(in1_rtz)
                         out = out_rtz
                     elif rm == RoundingMode.RDN:
-                        in0_rdn = cast(RoundingMode_hwtypes.RDN, in0)
-                        in1_rdn = cast(RoundingMode_hwtypes.RDN, in1)
+                        in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
+                        in1_rdn = cast(RoundingMode_hwtypes.RTN, in1)
                         out_rdn = getattr(in0_rdn, op_name)(in1_rdn)
                         out = out_rdn
                     elif rm == RoundingMode.RUP:
@@ -210,7 +210,7 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         out_rtz = getattr(in0_rtz, op_name)()
                         out = out_rtz.reinterpret_as_bv()
                     elif rm == RoundingMode.RDN:
-                        in0_rdn = cast(RoundingMode_hwtypes.RDN, in0)
+                        in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
                         out_rdn = getattr(in0_rdn, op_name)()
                         out = out_rdn.reinterpret_as_bv()
                     elif rm == RoundingMode.RUP:
@@ -243,7 +243,7 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         out_rtz = getattr(in0_rtz, op_name)()
                         out = out_rtz
                     elif rm == RoundingMode.RDN:
-                        in0_rdn = cast(RoundingMode_hwtypes.RDN, in0)
+                        in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
                         out_rdn = getattr(in0_rdn, op_name)()
                         out = out_rdn
                     elif rm == RoundingMode.RUP:
@@ -290,9 +290,9 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                     out_rtz = in0_rtz.fp_fma(in1_rtz, in2_rtz)
                     out = out_rtz.reinterpret_as_bv()
                 elif rm == RoundingMode.RDN:
-                    in0_rdn = cast(RoundingMode_hwtypes.RDN, in0)
-                    in1_rdn = cast(RoundingMode_hwtypes.RDN, in1)
-                    in2_rdn = cast(RoundingMode_hwtypes.RDN, in2)
+                    in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
+                    in1_rdn = cast(RoundingMode_hwtypes.RTN, in1)
+                    in2_rdn = cast(RoundingMode_hwtypes.RTN, in2)
                     out_rdn = in0_rdn.fp_fma(in1_rdn, in2_rdn)
                     out = out_rdn.reinterpret_as_bv()
                 elif rm == RoundingMode.RUP:
-- 
2.43.0


From c40ab052c3776359db13fae992558f00424eeb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:13 +0000
Subject: [PATCH 22/22] fix: inequality of assembled types that compare by
 identity

---
 peak/assembler/assembled_adt.py  | 8 ++++++--
 peak/assembler2/assembled_adt.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/peak/assembler/assembled_adt.py b/peak/assembler/assembled_adt.py
index 8c63f6a..21a07e8 100644
--- a/peak/assembler/assembled_adt.py
+++ b/peak/assembler/assembled_adt.py
@@ -216,7 +216,9 @@ class AssembledADTMeta(BoundMeta):
             return NotImplemented
 
     def __ne__(cls, other):
-        return ~(cls == other)
+        eq = cls == other
+        # plain python bools (identity comparisons) cannot be inverted with ~
+        return not eq if isinstance(eq, bool) else ~eq
 
     def __hash__(cls):
         return super().__hash__()
@@ -317,7 +319,9 @@ class AssembledADT(metaclass=AssembledADTMeta):
             return NotImplemented
 
     def __ne__(cls, other):
-        return ~(cls == other)
+        eq = cls == other
+        # plain python bools (identity comparisons) cannot be inverted with ~
+        return not eq if isinstance(eq, bool) else ~eq
 
     # For the bitvector protocol
     @classmethod
diff --git a/peak/assembler2/assembled_adt.py b/peak/assembler2/assembled_adt.py
index ef850d3..a5e71d7 100644
--- a/peak/assembler2/assembled_adt.py
+++ b/peak/assembler2/assembled_adt.py
@@ -87,7 +87,9 @@ class AssembledADTMeta(BoundMeta):
             return NotImplemented
 
     def __ne__(cls, other):
-        return ~(cls == other)
+        eq = cls == other
+        # plain python bools (identity comparisons) cannot be inverted with ~
+        return not eq if isinstance(eq, bool) else ~eq
 
     def __hash__(cls):
         return super().__hash__()
@@ -170,7 +172,9 @@ class AssembledADT(metaclass=AssembledADTMeta):
             return NotImplemented
 
     def __ne__(cls, other):
-        return ~(cls == other)
+        eq = cls == other
+        # plain python bools (identity comparisons) cannot be inverted with ~
+        return not eq if isinstance(eq, bool) else ~eq
 
     @classmethod
     def from_fields(cls, *args, **kwargs):
-- 
2.43.0

