"""C10: exp, tanh and logistic are accurate for every input."""
from irv import runner, gacc, gsearch

FUNCS = ["exp_on_interval_between_negative_one_quarter_and_0_excl, exp_on_negative_values, one_minus_x_over_one_plus_x_for_x_in_0_1, "
         "one_over_one_plus_x_for_x_in_0_1, neg_tanh_on_negative_values, tanh, logistic_on_positive_values, logistic, Rescale, ExactMulByPot, "
         "FixedPoint operators (fixedpoint/fixedpoint.h), int32 and int16, 0 to 6 integer bits",
         "the raw primitives they call, against the contracts used here (the obligations of C08)"]
ASSUME = ["each raw primitive is used through its contract; the contracts are proved in the same run (tasks fp_scalar.cc)",
          "double precision exp and tanh of the host are accurate to 2^10 units in the last place; every polynomial operation widens its error bound by 2^-12 result units, "
          "far above double rounding",
          "FixedPoint with more than 6 integer bits is not covered"]


def tasks():
    q = runner.TIER == "quick"
    t = gacc.tasks(q) + runner.ob_tasks("fp_scalar.cc", ["x86_default"])
    mk, _ = gsearch.generic("acc_search", ["acc_search.cc"])
    return t + mk("C10", 5 if q else 120, ["x86_default"])


def main():
    return runner.run_check("C10", tasks(), FUNCS, ASSUME)
