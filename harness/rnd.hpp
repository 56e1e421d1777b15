// The repository's own random number functions, over an arbitrary (symbolic) source:
// a uniform distribution returns any value of its half-open range, a normal one any real.
#ifndef RND_HPP
#define RND_HPP
#include "v.hpp"
#include <random>
// one stream instead
static inline double v_stream()
{
  double u = 0.618034 * (1 + v_fresh());
  return u - (int)u;
}
namespace std
{
struct v_device { unsigned operator()() { return 1; } };
struct v_engine { v_engine(unsigned = 0) {} void seed(unsigned) {} };
template <class T> struct v_uniform
{
  T a, b;
  v_uniform(T a_ = 0, T b_ = 1) : a(a_), b(b_) {}
  template <class G> T operator()(G &)
  {
    if (v_param("fixed_random")) return a + v_stream() * (b - a);
    double x = sym("rnd", v_fresh(), a, b);
    v_assume(x < b);
    return x;
  }
};
template <class T> struct v_normal
{
  T s;
  v_normal(T = 0, T s_ = 1) : s(s_) {}
  template <class G> T operator()(G &) { return s * (v_param("fixed_random") ? 3 * v_stream() - 1.5 : any("gauss", v_fresh())); }
};
}
#define random_device v_device
#define mt19937 v_engine
#define mt19937_64 v_engine
#define uniform_real_distribution v_uniform
#define normal_distribution v_normal
#include "math/rand.cpp"
#undef random_device
#undef mt19937
#undef mt19937_64
#undef uniform_real_distribution
#undef normal_distribution
#endif
