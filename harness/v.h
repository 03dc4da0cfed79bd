// Contract language used by the harnesses: the verifier gives these functions
// their meaning; in a native replay build they are ordinary functions.
#ifndef V_H_
#define V_H_
#include <cstdint>
#include <cstddef>
extern "C" {
void __v_assert(bool cond, const char* name);
void __v_assume(bool cond);
void __v_cover(const char* name);
}
// One proof obligation harness: universally quantified over in[0..].
#define OB(name) extern "C" void ob_##name(const std::int32_t* in)
#endif
