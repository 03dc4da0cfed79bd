"""C08: scalar fixed-point primitives."""
from irv import runner, build
from irv.runner import Task, ob_task

FUNCS = ["gemmlowp::{BitAnd,BitOr,BitXor,BitNot,Add,Sub,Neg,Mul,ShiftLeft,ShiftRight,SelectUsingMask,MaskIf*,All,Any,"
         "RoundingHalfSum,SaturatingAdd,SaturatingSub,AddSaturatingIf16Bit,SaturatingRoundingDoublingHighMul,RoundingDivideByPOT,"
         "SaturatingRoundingMultiplyByPOT,Rescale,FixedPoint ops} (fixedpoint/fixedpoint.h, int32 and int16)"]


def tasks():
    return runner.ob_tasks("fp_scalar.cc", ["x86_default"])


def main():
    return runner.run_check("C08", tasks(), FUNCS, ["signed overflow wraps (-fwrapv) in the extracted IR, so an overflow shows up as a wrong value",
                                                     "exponents of compile-time-parameterised operations are instantiated for every legal value"])
