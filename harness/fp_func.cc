// exp, tanh, logistic and their helpers on vectors of fixed-point values: every lane equals
// the scalar function on that lane's operand.  The primitives are used through their
// contracts (lane by lane the scalar primitive: proved from fp_simd.cc).
#define ONLY_TYPES
#include "fp_simd.cc"
template <int IB, typename R> FixedPoint<R, IB> fp(R r) { return FixedPoint<R, IB>::FromRaw(r); }
#define F32(IB, call, what)                                                         \
  {                                                                                 \
    In32 x(in); i32 o[L32];                                                         \
    { auto v = fp<IB, V32>(x.A()); st32(o, (call).raw()); }                         \
    for (int i = 0; i < L32; i++) {                                                 \
      auto v = fp<IB, i32>(x.a[i]); i32 e = (call).raw();                           \
      __v_assert(o[i] == e, what " equals the scalar function (int32 lanes)");      \
    }                                                                               \
  }
#define F16(IB, call, what)                                                         \
  {                                                                                 \
    In16 x(in); i16 o[L16];                                                         \
    { auto v = fp<IB, V16>(x.A()); st16(o, (call).raw()); }                         \
    for (int i = 0; i < L16; i++) {                                                 \
      auto v = fp<IB, i16>(x.a[i]); i16 e = (call).raw();                           \
      __v_assert(o[i] == e, what " equals the scalar function (int16 lanes)");      \
    }                                                                               \
  }
#define LO(F, call, what) F(0, call, what) F(1, call, what) F(2, call, what) F(3, call, what)
#define HI(F, call, what) F(4, call, what) F(5, call, what) F(6, call, what)
#define HELPERS(F)                                                                  \
  F(0, exp_on_interval_between_negative_one_quarter_and_0_excl(v), "exp on [-1/4, 0)") \
  F(0, one_minus_x_over_one_plus_x_for_x_in_0_1(v), "(1-x)/(1+x)")                  \
  F(0, one_over_one_plus_x_for_x_in_0_1(v), "1/(1+x)")                              \
  F(3, Rescale<0>(v), "Rescale") F(2, Rescale<5>(v), "Rescale")                     \
  F(2, v * v, "operator*") F(2, ExactMulByPot<-1>(v), "ExactMulByPot")
OB(helpers32) { HELPERS(F32) }
OB(explo32) { LO(F32, exp_on_negative_values(v), "exp") }
OB(tanhlo32) { LO(F32, gemmlowp::tanh(v), "tanh") }
OB(logisticlo32) { LO(F32, logistic(v), "logistic") }
OB(exphi32) { HI(F32, exp_on_negative_values(v), "exp") }
OB(tanhhi32) { HI(F32, gemmlowp::tanh(v), "tanh") }
OB(logistichi32) { HI(F32, logistic(v), "logistic") }
OB(helpers16) { HELPERS(F16) }
OB(explo16) { LO(F16, exp_on_negative_values(v), "exp") }
OB(tanhlo16) { LO(F16, gemmlowp::tanh(v), "tanh") }
OB(logisticlo16) { LO(F16, logistic(v), "logistic") }
OB(exphi16) { HI(F16, exp_on_negative_values(v), "exp") }
OB(tanhhi16) { HI(F16, gemmlowp::tanh(v), "tanh") }
OB(logistichi16) { HI(F16, logistic(v), "logistic") }
