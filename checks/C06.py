"""C06: output stages compute their documented function at every entry."""
from irv import runner, gtasks as G

CF = G.CF
SETS = [(2, "s"), (3, "s"), (6, "s"), (4, "s")]


def tasks():
    t = runner.ob_tasks("out_stage.cc", CF, opts={"contracts": "arith"})
    # the contracts used by the stages
    only = lambda n: n.startswith(("srdhm32", "rdivpot32"))
    t += runner.ob_tasks("fp_scalar.cc", ["x86_default"], only=only)
    t += runner.ob_tasks("fp_simd.cc", [c for c in CF if c != "x86_default"], only=only)
    t += G.leafu("C01", SETS, want="global row|written|read")
    t += G.unpack("C01", SETS, "d", want="global")
    t += G.dispatch("C01", SETS, want="asked for")
    return t


def main():
    return runner.run_check("C06", tasks(), FUNCS, ASSUME)


FUNCS = ["OutputStageEvalBufferImpl, OutputStageEvalImpl, OutputPipelineEvalImpl, OutputPipelineExecutor::Execute for quantize-down, per-channel quantize-down, "
         "fixed-point quantize-down (shift, exponent, per-channel), bias addition, clamp, saturating cast to uint8/int16/int8 and truncating cast "
         "(internal/output.h, output_sse.h, output_avx.h, output_neon.h)",
         "SaturatingRoundingDoublingHighMul, RoundingDivideByPOT on int32 (fixedpoint/*.h), against the contracts used by the stages",
         "UnpackResult leaves: every entry reaches the stages with its own row and column (internal/unpack.h)"]
ASSUME = G.GEMM_ASSUME + ["OutputStageTanh is not covered", "the int8 cast and the per-channel exponent stage do not exist on SSE, the truncating cast only in scalar code"]
