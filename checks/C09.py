"""C09: every SIMD lane of the fixed-point primitives equals the scalar primitive."""
from irv import runner

FUNCS = ["the SSE4, AVX2, NEON (AArch64 and ARMv7) specialisations of BitAnd..Any, RoundingHalfSum, SaturatingAdd, "
         "SaturatingRoundingDoublingHighMul, RoundingDivideByPOT, SaturatingRoundingMultiplyByPOT, Dup, Shift*, MaskIf*, SelectUsingMask "
         "(fixedpoint/fixedpoint_{sse,avx,neon}.h)",
         "exp_on_negative_values, tanh, logistic, their helpers, Rescale and operator* on vectors (fixedpoint/fixedpoint.h), against the primitives' contracts"]


def tasks():
    cf = ["x86_sse4", "x86_avx2", "aarch64", "armhf"]
    return runner.ob_tasks("fp_scalar.cc", ["x86_default"]) + runner.ob_tasks("fp_simd.cc", cf) + runner.ob_tasks("fp_func.cc", cf, opts={"contracts": "prims"})


def main():
    return runner.run_check("C09", tasks(), FUNCS, [
        "semantics of the x86 and NEON vector intrinsics as modelled in irv/intrin.py",
        "masks passed to SelectUsingMask are lane-uniform, as produced by MaskIf*"])
