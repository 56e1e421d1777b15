// Thermal energies: for every random number the sampler returns the energy at which the distribution reaches it
//src: math/maxwellJuettner.cpp
#include "v.hpp"
#include "math/maxwellJuettner.hpp"
#include "mj_ref.hpp"
#include <cmath>

// the random numbers, in the order they are drawn; drawing more than there are ends the run
static double draws[8];
static int drawn = 0, given = 0;
namespace math::random
{
double uniform()
{
  if (drawn >= given) v_stop();
  return draws[drawn++];
}
double uniform1() { return uniform(); }
double uniform2() { return 2 * uniform() - 1; }
double uniform_angle() { return 2 * constant::PI * uniform(); }
double normal(double) { v_fail("not a uniform number"); v_stop(); }
}

static const double TOL = 1e-3;        // relative error of an energy
// a place inside cell j of a table, 999 cells from a over the length s
static double place(int j, double rem, double a, double s) { return a + s * (j + rem) / 999; }
static double remainder_() { return sym("rem", 1. / 1024, 1023. / 1024); }
static double between(const double *t, int j, double rem) { return t[j] + rem * (t[j + 1] - t[j]); }

static void near(double energy, double temperature, double ln_x, const char *l)
{
  v_check(energy > 0, "thermal energy is positive");
  double d = std::log(energy / temperature);
  v_check_le(d, ln_x + TOL, 1, l);
  v_check_le(ln_x, d + TOL, 1, l);
}

// below a tenth of the rest energy: the Maxwell distribution of energies
extern "C" void classical()
{
  double t = pos("T");
  v_assume(t < 0.1);
  int j = v_param("from") + ifix("cell", 0, v_param("cells") - 1);
  double rem = remainder_(), L = place(j, rem, -19, 21);
  draws[given++] = std::exp(-std::exp(L));
  std::vector<double> e = math::maxwell_juettner::maxwellJuettner(1, t);
  v_check(e.size() == 1 && drawn == 1, "one energy per random number");
  near(e[0], t, between(REF_F, j, rem), "Maxwell energy of a random number");
}

// the coldest: P(3/2, x) ~ 4 x^(3/2) / (3 sqrt(pi))
extern "C" void cold()
{
  double t = pos("T"), L = sym("L", 2, 3.5);
  v_assume(t < 0.1 && L > 2);
  draws[given++] = std::exp(-std::exp(L));
  std::vector<double> e = math::maxwell_juettner::maxwellJuettner(1, t);
  v_check(e[0] > 0, "thermal energy is positive");
  double ln_x = (2. / 3) * (-std::exp(L)) + 0.18973, d = std::log(e[0] / t);    // (2/3) ln(3 sqrt(pi) / 4)
  v_check_le(d, ln_x + 0.01, 1, "Maxwell energy of the coldest particles");
  v_check_le(ln_x, d + 0.01, 1, "Maxwell energy of the coldest particles");
}

// the hottest: no colder than the end of the table, where x = 20.66, and below 45 (what the last double below 1 stands for)
extern "C" void hot()
{
  double t = pos("T"), L = sym("L", -36.8, -19);
  v_assume(t < 0.1 && L < -19);
  // the solver knows nothing of a logarithm: tangents above it, 1 - 1/x below it
  const double at[] = {20, 25, 30, 36};
  for (double c : at)
    {
      double l = std::log(-L) - std::log(c);
      v_assume(l <= (-L - c) / c && -L * (l - 1) >= -c);
    }
  draws[given++] = std::exp(-std::exp(L));
  std::vector<double> e = math::maxwell_juettner::maxwellJuettner(1, t);
  v_check(e[0] >= 20.5 * t && e[0] <= 45 * t, "Maxwell energy of the hottest particles");
  // of the particles, 2 sqrt(x / pi) exp(-x) (1 + 1 / 2x) have more energy: x + L - ln(-L) / 2 is between 0.16 and 0.19
  double d = e[0] / t + L - std::log(-L) / 2;
  v_check(d > 0.05 && d < 0.3, "Maxwell energy of the hottest particles");
}

// from a tenth of the rest energy on: Maxwell-Juettner, by Sobol's rejection
static const double TEMPERATURES[] = {0.1, 0.5, 1, 8, 512};
static double h0(double t)
{
  double invT = 1. / t;
  return -invT + std::log(1. + invT + 0.5 * invT * invT);
}
static void relative(double L, double ln_x, double t, double tol)
{
  double y = std::exp(L), w = y + h0(t);
  v_assume(L > std::log(-h0(t)));                       // the first random number is positive
  draws[given++] = 1 - std::exp(-w);
  draws[given++] = sym("u", 0, 1);
  v_assume(draws[1] < 1);
  std::vector<double> e = math::maxwell_juettner::maxwellJuettner(1, t);
  v_check(e.size() == 1 && drawn == 2, "two random numbers per attempt");
  v_check(e[0] >= 0, "thermal energy is not negative");
  double g = e[0] + 1, d = std::log(g / t);
  v_check_le(d, ln_x + tol, 1, "Maxwell-Juettner energy of a random number");
  v_check_le(ln_x, d + tol, 1, "Maxwell-Juettner energy of a random number");
  v_check(draws[1] * draws[1] * g * g < g * g - 1, "accepted with the probability v/c");
}
extern "C" void juettner()
{
  double t = TEMPERATURES[v_param("T")];
  int j = v_param("from") + ifix("cell", 0, v_param("cells") - 1);
  double rem = remainder_();
  relative(place(j, rem, -30, 42), between(REF_H, j, rem), t, TOL);
}
// the coldest of a very hot plasma: x - ln(1 + x + x^2/2) ~ x^3/6
extern "C" void juettner_cold()
{
  double L = sym("L", -36, -26);
  v_assume(L < -26);
  relative(L, (L + std::log(6.)) / 3, 1e5, TOL);
}
// a second attempt after a rejection, with fresh numbers
extern "C" void rejected()
{
  double t = TEMPERATURES[v_param("T")];
  int j = v_param("from"), k = v_param("then");
  double r1 = remainder_(), r2 = sym("rem2", 1. / 1024, 1023. / 1024);
  double L1 = place(j, r1, -30, 42), L2 = place(k, r2, -30, 42);
  v_assume(L1 > std::log(-h0(t)) && L2 > std::log(-h0(t)));
  double first = 1 - std::exp(-(std::exp(L1) + h0(t))), u = sym("u", 0, 1);
  draws[given++] = first;
  draws[given++] = 0;                                   // always accepted
  double g1 = math::maxwell_juettner::maxwellJuettner(1, t)[0] + 1;
  v_check(drawn == 2, "accepted with the probability v/c");
  given = drawn = 0;
  draws[given++] = first;
  draws[given++] = u;
  draws[given++] = 1 - std::exp(-(std::exp(L2) + h0(t)));
  draws[given++] = sym("u2", 0, 1);
  v_assume(u < 1 && draws[3] < 1);
  double d = std::log((math::maxwell_juettner::maxwellJuettner(1, t)[0] + 1) / t);
  v_check(drawn == 2 || drawn == 4, "two random numbers per attempt");
  double want = drawn == 2 ? between(REF_H, j, r1) : between(REF_H, k, r2);
  v_check_le(d, want + TOL, 1, "energy of the accepted attempt");
  v_check_le(want, d + TOL, 1, "energy of the accepted attempt");
  v_check(drawn == (u * u * g1 * g1 < g1 * g1 - 1 ? 2 : 4), "accepted with the probability v/c");
}
