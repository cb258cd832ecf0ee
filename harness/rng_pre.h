// Forced into every translation unit: random choices of the code under test
// become choices of the harness (default: fixed; env_random = 1: every choice).
#pragma once
#ifdef __cplusplus
#include <algorithm>
#include <random>
#include <utility>
extern "C" { int sx_random_index(int n); unsigned sx_random_bits(void); }
namespace std {
struct sx_rng {
  typedef unsigned long result_type;
  sx_rng() {} explicit sx_rng(unsigned long) {} void seed(unsigned long) {}
  static constexpr result_type min() { return 0; } static constexpr result_type max() { return 0xffffffffUL; }
  result_type operator()() { return sx_random_bits(); }
};
template <class It, class G> void sx_shuffle(It a, It b, G &&) { for (long i = (b - a) - 1; i > 0; i--) { long j = sx_random_index((int)i + 1); if (j != i) iter_swap(a + i, a + j); } }
}
#define mt19937 sx_rng
#define mt19937_64 sx_rng
#define default_random_engine sx_rng
#define shuffle sx_shuffle
#endif
