// Scalar exp, tanh, logistic and their helpers: raw value in, raw value out.
#include "v.h"
#include "fixedpoint/fixedpoint.h"
using namespace gemmlowp;
template <int IB, typename R> static FixedPoint<R, IB> fp(R r) { return FixedPoint<R, IB>::FromRaw(r); }
#define FN(nm, IB, T, w, call) extern "C" T a_##nm##_##IB##_##w(T a) { auto v = fp<IB, T>(a); return (call).raw(); }
#define BOTH(nm, IB, call) FN(nm, IB, std::int32_t, 32, call) FN(nm, IB, std::int16_t, 16, call)
#define ALL(IB) BOTH(exp, IB, exp_on_negative_values(v)) BOTH(tanh, IB, gemmlowp::tanh(v)) BOTH(logistic, IB, logistic(v))
ALL(0) ALL(1) ALL(2) ALL(3) ALL(4) ALL(5) ALL(6)
BOTH(expint, 0, exp_on_interval_between_negative_one_quarter_and_0_excl(v))
BOTH(omx, 0, one_minus_x_over_one_plus_x_for_x_in_0_1(v))
BOTH(oox, 0, one_over_one_plus_x_for_x_in_0_1(v))
