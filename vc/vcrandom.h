// Model of random number generation (assumed contract): any value of the requested range
#ifndef VCRANDOM_H
#define VCRANDOM_H
#include <vc.h>
#include <random>
struct vc_engine { using result_type = unsigned; vc_engine() {} template<typename T> explicit vc_engine(T) {} unsigned operator()() { return 0; } };
inline int64_t vc_last_random = 0;
template<typename T = int> struct vc_uniform { T a, b; vc_uniform(T x, T y) : a(x), b(y) { vc_assert(x <= y, "a random range is not empty"); } template<typename G> T operator()(G&) { uint64_t d = vc_in("random", 0, uint64_t(int64_t(b) - int64_t(a))); vc_last_random = int64_t(a) + int64_t(d); return T(vc_last_random); } };
namespace std { using ::vc_engine; using ::vc_uniform; }
#define default_random_engine vc_engine
#define uniform_int_distribution vc_uniform
#endif
