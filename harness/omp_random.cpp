// The random number functions, as the threads of a run use them
//src: math/rand.cpp
#include "v.hpp"
#include "math/rand.hpp"
extern "C" void random_numbers()
{
  int n = v_param("n");
  double *x = new double[16 * n];
  v_threads(n, v_param("reverse"));
#pragma omp parallel for
  for (int i = 0; i < n; ++i)
    for (int k = 0; k < 2; ++k)
    {
      double *y = x + 16 * i + 8 * k;
      y[0] = math::random::uniform(); y[1] = math::random::uniform1(); y[2] = math::random::uniform2();
      y[3] = math::random::uniform_angle(); y[4] = math::random::normal(2); y[5] = math::random::random_reverse(k + 7, 3);
    }
  for (int k = 0; k < 4; ++k) v_check(x[k] != x[16 * (n - 1) + k], "threads draw the same random numbers");
  v_check(x[5] == x[16 * (n - 1) + 5], "reversed numbers");
}
