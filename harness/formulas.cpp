// Relativistic kinematics, plasma parameters, vectors, physical constants
//src: phys/rel.cpp phys/plasma.cpp algo/common.cpp
#include "v.hpp"
#include "phys/rel.hpp"
#include "phys/plasma.hpp"
#include "math/vector3d.hpp"
#include "constant.hpp"
#include <cmath>

namespace msg
{
void print_header(int, TimeSim *) {}
void print_values(std::string, std::string, unsigned int, TimeSim *) {}
void print_final() {}
}
using namespace constant;
static const double C = 3e8;

static void eq(double a, double b, const char *l) { v_check_eq(a, b, 1, l); }
// a Lorentz factor and the square of its velocity
static double gamma_() { double g = pos("gamma"); v_assume(g >= 1); return g; }
static double v2_of(double g) { return C * C * (1 - 1 / (g * g)); }
static const double LIMIT2 = double(REL_LIMIT) * double(REL_LIMIT);

extern "C" void kinematics()
{
  double g = gamma_(), m = pos("m"), v2 = v2_of(g);
  double b = sym("beta", 0, 0.99999999);
  double l = phys::rel::lorenz_factor(b * b * C * C);
  v_check(l >= 1, "Lorentz factor is at least 1");
  v_check_eq(l * l * (1 - b * b), 1, 1, "Lorentz factor of a velocity");
  double u = any("u"), r = phys::rel::lorenz_factor_inv(u * u);
  v_check(r > 0 && r <= 1, "inverse Lorentz factor is at most 1");
  v_check_eq(r * r * (1 + u * u / C / C), 1, 1, "inverse Lorentz factor of a momentum per mass");
  v_check_eq(phys::rel::energy(m, v2) / (m * C * C), v2 > LIMIT2 ? g - 1 : v2 / C / C / 2, 1, "kinetic energy of a velocity");
  double p2 = m * m * C * C * (g * g - 1);
  v_check_eq(phys::rel::energy_m(m, p2) / (m * C * C), p2 > LIMIT2 * m * m ? g - 1 : (g * g - 1) / 2, 1, "kinetic energy of a momentum");
}
extern "C" void momenta()
{
  double g = gamma_(), m = pos("m"), v2 = v2_of(g), x = any("x"), y = any("y"), z = any("z");
  v_assume(x * x + y * y + z * z == v2);
  vector3d<double> v(x, y, z);
  vector3d<double> p = phys::rel::momentum(m, v);
  double e = phys::rel::momentum_0(m, v);
  v_check(v[0] == x && v[1] == y && v[2] == z, "a velocity is not changed by asking for its momentum");
  v_check(e > 0, "0th component of the momentum");
  v_check_eq(e * e * (1 - (x * x + y * y + z * z) / C / C), m * m * C * C, m * m * C * C, "0th component of the momentum");
  v_check_eq(p[0] * C * C, e * C * x, 1, "momentum of a velocity");
  v_check_eq(p[1] * C * C, e * C * y, 1, "momentum of a velocity");
  v_check_eq(p[2] * C * C, e * C * z, 1, "momentum of a velocity");
}
// faster than light, or without a mass: an error
extern "C" void refused()
{
  v_allow("fatal");
  double m = pos("m"), v = pos("v"), n = any("n"), t = pos("t");
  switch (v_param("case"))
    {
    case 0: v_assume(v > C); phys::rel::lorenz_factor(v * v); break;
    case 1: phys::rel::momentum_0(0, vector3d<double>(v, 0, 0)); break;
    case 2: phys::rel::momentum(0, vector3d<double>(v, 0, 0)); break;
    case 3: v_assume(v > C); phys::rel::energy(m, v * v); break;
    case 4: v_assume(n <= 0); phys::plasma::debye_length(n, 1, 1, 1); break;
    case 5: v_assume(n <= 0); phys::plasma::debye_length(1, n, 1, 1); break;
    }
  v_fail("an impossible argument is refused");
}
extern "C" void plasma()
{
  const double E = 1.602177e-19, M = 9.109384e-31, EPS = 8.854188e-12;
  double ne = pos("ne"), ni = pos("ni"), te = pos("te"), ti = pos("ti");
  double d = phys::plasma::debye_length(ne, ni, te, ti), w = phys::plasma::plasma_frequency(ne);
  v_check(d > 0 && w > 0, "plasma parameters are positive");
  double dd = d * d * (ne / te + ni / ti) / (EPS / E), ww = w * w / (ne * E * E / M / EPS);
  v_check(dd > 0.999 && dd < 1.001, "Debye length of the plasma");
  v_check(ww > 0.997 && ww < 1.003, "plasma frequency of the density");
}
extern "C" void collisions()
{
  double ma = pos("ma"), mb = pos("mb"), l = pos("l"), v = pos("v");
  double cl = phys::plasma::coulomb_logarithm(ma, mb, l, v), want = std::log(l * (ma * mb / (ma + mb)) * v / PLANK_BAR_CONST);
  v_check(cl >= 2, "Coulomb logarithm is at least 2");
  v_check(want <= 2 ? cl == 2 : cl == want, "Coulomb logarithm of the reduced mass");
  double ea = any("ea"), eb = any("eb"), n = pos("n"), L = pos("L"), p = pos("p");
  double f = phys::plasma::collision_freqency(ea, eb, n, L, p, v);
  v_check_eq(f * 8 * PI * EPSILON0 * EPSILON0 * p * p * v, ea * ea * eb * eb * n * L, 1, "collision frequency");
}
extern "C" void constants()
{
  struct { double is, ought; } all[] = {
    {LIGHT_VEL, 2.99792458e8}, {LIGHT_VEL_POW_2, 8.987551787e16}, {EPSILON0, 8.8541878e-12}, {MAGN_CONST, 1.25663706e-6}, {EL_MASS, 9.1093837e-31},
    {EL_CHARGE, 1.602176634e-19}, {EL_CHARGE_INV, 6.241509e18}, {PLANK_CONST, 6.62607015e-34}, {PLANK_BAR_CONST, 1.054571817e-34},
    {EPSILON0 * MAGN_CONST * LIGHT_VEL * LIGHT_VEL, 1}, {PI, 3.14159265358979}, {ONE_OVER_3, 1. / 3}, {TWO_OVER_3, 2. / 3}, {FOUR_OVER_3, 4. / 3},
    {REL_LIMIT_POW_2, LIMIT2}};
  double s = pos("s");
  for (auto &c : all) v_check(s * c.is > s * 0.99 * c.ought && s * c.is < s * 1.01 * c.ought, "physical constants");
}

// vectors: component by component
static void same(vector3d<double> a, double x, double y, double z, const char *l)
{
  eq(a[0], x, l); eq(a[1], y, l); eq(a[2], z, l);
}
extern "C" void vectors()
{
  double a[3], b[3], s = pos("s");
  for (int i = 0; i < 3; ++i) { a[i] = any("a", i); b[i] = any("b", i); v_assume(b[i] != 0); }
  const vector3d<double> A(a[0], a[1], a[2]), B(b[0], b[1], b[2]);
  const char *l = "arithmetic of vectors goes component by component";
  same(A, a[0], a[1], a[2], l);
  same(vector3d<double>(), 0, 0, 0, l);
  same(A + B, a[0] + b[0], a[1] + b[1], a[2] + b[2], l);
  same(A - B, a[0] - b[0], a[1] - b[1], a[2] - b[2], l);
  same(A * B, a[0] * b[0], a[1] * b[1], a[2] * b[2], l);
  same(A / B, a[0] / b[0], a[1] / b[1], a[2] / b[2], l);
  same(A + s, a[0] + s, a[1] + s, a[2] + s, l);
  same(A - s, a[0] - s, a[1] - s, a[2] - s, l);
  same(A * s, a[0] * s, a[1] * s, a[2] * s, l);
  same(A / s, a[0] / s, a[1] / s, a[2] / s, l);
  vector3d<double> c;
  c = A; c += B; same(c, a[0] + b[0], a[1] + b[1], a[2] + b[2], l);
  c = A; c -= B; same(c, a[0] - b[0], a[1] - b[1], a[2] - b[2], l);
  c = A; c *= B; same(c, a[0] * b[0], a[1] * b[1], a[2] * b[2], l);
  c = A; c /= B; same(c, a[0] / b[0], a[1] / b[1], a[2] / b[2], l);
  c = A; c += s; same(c, a[0] + s, a[1] + s, a[2] + s, l);
  c = A; c -= s; same(c, a[0] - s, a[1] - s, a[2] - s, l);
  c = A; c *= s; same(c, a[0] * s, a[1] * s, a[2] * s, l);
  c = A; c /= s; same(c, a[0] / s, a[1] / s, a[2] / s, l);
  c = s; same(c, s, s, s, l);
  c = A; same(c.abs(), std::abs(a[0]), std::abs(a[1]), std::abs(a[2]), l);
  same(A, a[0], a[1], a[2], "operands are not changed");
  same(B, b[0], b[1], b[2], "operands are not changed");
  c = A;
  eq(c.length2(), a[0] * a[0] + a[1] * a[1] + a[2] * a[2], "length of a vector");
  eq(c.length() * c.length(), c.length2(), "length of a vector");
  v_check(c.length() >= 0, "length of a vector");
  eq(c.dot(B), a[0] * b[0] + a[1] * b[1] + a[2] * b[2], "scalar product");
  vector3d<double> x = vector3d<double>(A).cross(B);
  same(x, a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0], "vector product");
  c = A;
  v_check((c == A) && !(c != A), "comparison of vectors");
  bool all = a[0] == b[0] && a[1] == b[1] && a[2] == b[2];
  v_check((c == B) == all, "comparison of vectors");
  // two vectors differ when any of their components does
  v_check((c != B) == !all, "comparison of vectors");
}
