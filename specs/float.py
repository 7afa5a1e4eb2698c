"""Floating point library (peak.float)."""
import inspect
from functools import lru_cache
from types import SimpleNamespace
from peak import family_closure, Peak
from peak.family import SMTFamily, MagmaFamily
from hwtypes import SMTFPVector, FPVector, RoundingMode as Hw
from hwtypes.fp_vector_abc import AbstractFPVector
from peak.black_box import BlackBox
from hwtypes import BitVector, Bit
import magma
from peak.float import RoundingMode, RoudningMode_utils, _format_name


def scn_utils(family):
    u = RoudningMode_utils(family)
    return u.RM_to_RM_hwtypes, u.RM_hwtypes_to_RM, u.from_rm, u.to_rm


@spec(actual='scn:scn_utils', parts={0: ['H01'], 1: ['H01'], 2: ['H01'], 3: ['H01']})
def utils(family):
    """the two tables are inverse to each other; the codes are the enum values"""
    to_hw = {RoundingMode.RNE: Hw.RNE, RoundingMode.RTZ: Hw.RTZ, RoundingMode.RDN: Hw.RTN,
             RoundingMode.RUP: Hw.RTP, RoundingMode.RMM: Hw.RNA}
    from_hw = {Hw.RNE: RoundingMode.RNE, Hw.RTZ: RoundingMode.RTZ, Hw.RTN: RoundingMode.RDN,
               Hw.RTP: RoundingMode.RUP, Hw.RNA: RoundingMode.RMM}

    def code(m):
        return family.BitVector[3](m.value)

    def mode(m):
        return family.get_constructor(RoundingMode)(m)

    def from_rm(rm):
        return (rm == RoundingMode.RNE).ite(code(RoundingMode.RNE),
               (rm == RoundingMode.RTZ).ite(code(RoundingMode.RTZ),
               (rm == RoundingMode.RDN).ite(code(RoundingMode.RDN),
               (rm == RoundingMode.RUP).ite(code(RoundingMode.RUP), code(RoundingMode.RMM)))))

    def to_rm(rm):
        return (rm == code(RoundingMode.RNE)).ite(mode(RoundingMode.RNE),
               (rm == code(RoundingMode.RTZ)).ite(mode(RoundingMode.RTZ),
               (rm == code(RoundingMode.RDN)).ite(mode(RoundingMode.RDN),
               (rm == code(RoundingMode.RUP)).ite(mode(RoundingMode.RUP), mode(RoundingMode.RMM)))))
    return (lambda rm: to_hw[rm]), (lambda rm: from_hw[rm]), from_rm, to_rm


def scn_codes():
    return (RoundingMode.RNE.value, RoundingMode.RTZ.value, RoundingMode.RDN.value, RoundingMode.RUP.value, RoundingMode.RMM.value)


@spec(actual='scn:scn_codes', props=['H01'])
def codes():
    return (0, 1, 2, 3, 4)


@spec(actual='peak.float:_format_name', props=['H02'])
def format_name(name):
    return name[3:].capitalize() + '_fc'


@spec(actual='peak.float:float_lib_gen', props=['H02', 'H01'], opaque=['peak.float.RoudningMode_utils', 'peak.float._format_name'])
def lib(exp_bits, frac_bits, ieee_compliance=False):
    width = 1 + exp_bits + frac_bits
    Data = BitVector[width]

    def cast_magma(rm, x):
        if rm is not Hw.RNE:
            raise NotImplementedError()
        Float = magma.BFloat[width]
        Float.reinterpret_from_bv = lambda bv: Float(bv)
        Float.reinterpret_as_bv = lambda f: magma.Bits[width](f)
        Float.fp_add = lambda x, y: x + y
        Float.fp_mul = lambda x, y: x * y
        return Float.reinterpret_from_bv(x)

    def cast_smt(rm, x):
        if not isinstance(rm, Hw):
            raise ValueError()
        return SMTFPVector[exp_bits, frac_bits, rm, ieee_compliance].reinterpret_from_bv(x)

    def cast_py(rm, x):
        if not isinstance(rm, Hw):
            raise ValueError()
        return FPVector[exp_bits, frac_bits, rm, ieee_compliance].reinterpret_from_bv(x)

    def get_cast(family):
        if isinstance(family, MagmaFamily):
            return cast_magma
        if isinstance(family, SMTFamily):
            return cast_smt
        return cast_py

    def const_cast(rm, family):
        hw = RoudningMode_utils(family).RM_to_RM_hwtypes(rm)
        cast = get_cast(family)
        return lambda x: cast(hw, x)

    def in_mode(rm, f):
        if rm == RoundingMode.RNE:
            return f(Hw.RNE)
        if rm == RoundingMode.RTZ:
            return f(Hw.RTZ)
        if rm == RoundingMode.RDN:
            return f(Hw.RTN)
        if rm == RoundingMode.RUP:
            return f(Hw.RTP)
        return f(Hw.RNA)

    @lru_cache(None)
    def unary(op):
        @family_closure
        def fc(family):
            cast = get_cast(family)

            @family.assemble(locals(), globals())
            class Op(Peak, BlackBox):
                def __call__(self, rm: RoundingMode, in0: Data) -> Data:
                    return in_mode(rm, lambda hw: getattr(cast(hw, in0), op)().reinterpret_as_bv())
            return Op
        return fc

    @lru_cache(None)
    def unary_bit(op):
        @family_closure
        def fc(family):
            cast = get_cast(family)

            @family.assemble(locals(), globals())
            class Op(Peak, BlackBox):
                def __call__(self, rm: RoundingMode, in0: Data) -> Bit:
                    return in_mode(rm, lambda hw: getattr(cast(hw, in0), op)())
            return Op
        return fc

    @lru_cache(None)
    def binary(op):
        @family_closure
        def fc(family):
            cast = get_cast(family)

            @family.assemble(locals(), globals())
            class Op(Peak, BlackBox):
                def __call__(self, rm: RoundingMode, in0: Data, in1: Data) -> Data:
                    return in_mode(rm, lambda hw: getattr(cast(hw, in0), op)(cast(hw, in1)).reinterpret_as_bv())
            return Op
        return fc

    @lru_cache(None)
    def binary_bit(op):
        @family_closure
        def fc(family):
            cast = get_cast(family)

            @family.assemble(locals(), globals())
            class Op(Peak, BlackBox):
                def __call__(self, rm: RoundingMode, in0: Data, in1: Data) -> Bit:
                    return in_mode(rm, lambda hw: getattr(cast(hw, in0), op)(cast(hw, in1)))
            return Op
        return fc

    closures = {}
    for k, f in AbstractFPVector.__dict__.items():
        if k.startswith('fp_'):
            if k.startswith('fp_is_'):
                closures[_format_name(k)] = unary_bit(k)
            elif len(inspect.signature(f).parameters) == 1:
                closures[_format_name(k)] = unary(k)
            elif k in ("fp_leq", "fp_lt", "fp_geq", "fp_gt", "fp_eq"):
                closures[_format_name(k)] = binary_bit(k)
            elif len(inspect.signature(f).parameters) == 2:
                closures[_format_name(k)] = binary(k)

    @family_closure
    def fma(family):
        cast = get_cast(family)

        @family.assemble(locals(), globals())
        class FMA(Peak, BlackBox):
            def __call__(self, rm: RoundingMode, in0: Data, in1: Data, in2: Data) -> Data:
                return in_mode(rm, lambda hw: cast(hw, in0).fp_fma(cast(hw, in1), cast(hw, in2)).reinterpret_as_bv())
        return FMA
    closures[_format_name('fp_fma')] = fma

    @lru_cache(None)
    def const_rm(rm):
        def c_unary(op):
            @family_closure
            def fc(family):
                cast = const_cast(rm, family)

                @family.assemble(locals(), globals())
                class Op(Peak, BlackBox):
                    def __call__(self, in_: Data) -> Data:
                        return getattr(cast(in_), op)().reinterpret_as_bv()
                return Op
            return fc

        def c_unary_bit(op):
            @family_closure
            def fc(family):
                cast = const_cast(rm, family)

                @family.assemble(locals(), globals())
                class Op(Peak, BlackBox):
                    def __call__(self, in_: Data) -> Bit:
                        return getattr(cast(in_), op)()
                return Op
            return fc

        def c_binary(op):
            @family_closure
            def fc(family):
                cast = const_cast(rm, family)

                @family.assemble(locals(), globals())
                class Op(Peak, BlackBox):
                    def __call__(self, in0: Data, in1: Data) -> Data:
                        return getattr(cast(in0), op)(cast(in1)).reinterpret_as_bv()
                return Op
            return fc

        def c_binary_bit(op):
            @family_closure
            def fc(family):
                cast = const_cast(rm, family)

                @family.assemble(locals(), globals())
                class Op(Peak, BlackBox):
                    def __call__(self, in0: Data, in1: Data) -> Bit:
                        return getattr(cast(in0), op)(cast(in1))
                return Op
            return fc

        ops = {}
        for k, f in AbstractFPVector.__dict__.items():
            if k.startswith('fp_'):
                if k.startswith('fp_is_'):
                    ops[_format_name(k)] = c_unary_bit(k)
                elif len(inspect.signature(f).parameters) == 1:
                    ops[_format_name(k)] = c_unary(k)
                elif k in ("fp_leq", "fp_lt", "fp_geq", "fp_gt", "fp_eq"):
                    ops[_format_name(k)] = c_binary_bit(k)
                elif len(inspect.signature(f).parameters) == 2:
                    ops[_format_name(k)] = c_binary(k)

        @family_closure
        def c_fma(family):
            mode = family.get_constructor(RoundingMode)(rm)
            FMA = fma(family)

            @family.assemble(locals(), globals())
            class _FMA(Peak):
                def __init__(self):
                    self.fma = FMA()

                def __call__(self, in0: Data, in1: Data, in2: Data) -> Data:
                    return self.fma(mode, in0, in1, in2)
            return _FMA
        ops[_format_name('fp_fma')] = c_fma
        return SimpleNamespace(**ops)
    closures['const_rm'] = const_rm
    return SimpleNamespace(**closures)
