// Error bounds of C10, in units of the last bit of the result (read by irv/gacc.py too).
#include <cmath>
#include <cstring>
static double tolerance(const char* fn, int w, double x) {
  if (!std::strcmp(fn, "expint")) return w == 32 ? 500 : 2;
  if (!std::strcmp(fn, "exp")) return w == 32 ? 3 + 650 * std::exp(x) : 2;
  if (!std::strcmp(fn, "omx")) return w == 32 ? 130 : 12;
  if (!std::strcmp(fn, "oox")) return w == 32 ? 65 : 6;
  if (!std::strcmp(fn, "tanh")) return w == 32 ? 430 : 13;
  return w == 32 ? 215 : 7;  // logistic
}
