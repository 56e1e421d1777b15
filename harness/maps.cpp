// Diagnostics maps of a species: density, momentum, energy, temperature
//src: specieP.cpp algo/common.cpp phys/rel.cpp math/maxwellJuettner.cpp
#include "rnd.hpp"
#include "sim.hpp"
#include "specieP.hpp"

using namespace constant;

struct Place { int ci, ck; double fr, fz; };

static double dr, dz;
static int i0, k0, nr, nz;

static Place place(int n)
{
  Place p;
  int j = n * 2;
  p.ci = i0 + v_fix(sym_int_i("ci", n, 0, nr - 1)); p.ck = k0 + v_fix(sym_int_i("ck", n, 0, nz - 1));
  p.fr = sym("fr", n, 0, 1); p.fz = sym("fz", n, 0, 1);
  v_assume(p.fr < 1 && p.fz < 1);
  if (p.ci == 0) v_assume(p.fr >= 0.5);
  return p;
}
static double volume(int j) { return PI * dz * dr * dr * (2 * j + 1); }

// what one unit of weight at p adds to node (i, k), global numbers
static double share(Place p, int i, int k)
{
  int a = i - p.ci, b = k - p.ck;
  if (a < 0 || a > 1 || b < 0 || b > 1) return 0;
  double r = p.ci + p.fr, m = p.ci + 0.5;
  double s = a ? ((r + 0.5) * (r + 0.5) - m * m) : (m * m - (r - 0.5) * (r - 0.5));
  return s / (2 * r) * (b ? p.fz : 1 - p.fz) / volume(i);
}

static SpecieP *mk(double mass = 1)
{
  dr = pos("dr"); dz = pos("dz");
  nr = v_param("nr"); nz = v_param("nz"); i0 = v_param("i0"); k0 = v_param("k0");
  SpecieP *s = new SpecieP(1, "s", 1, 1, 1, 1, 1, 1, mk_geom(nr, nz, i0, k0, i0 + nr, k0 + nz, 0, dr, dz), mk_time(1));
  s->mass = mass;
  fill(s->density_map, "d"); fill(s->energy_map, "e"); fill(s->temperature_map, "t"); fill(s->momentum_abs_map_w, "a");
  fill3(s->momentum_map, "m"); fill3(s->momentum_map_w, "w");
  return s;
}
// neither needs the other, or what was in the maps
static void energy_and_temperature(SpecieP *s)
{
  bool first = v_param("first");
  for (int i = 0; i < 2; ++i)
  {
    if (i == first) s->calc_energy(); else s->calc_temperature();
    if (!i) { fill(s->density_map, "d2"); fill(s->momentum_abs_map_w, "a2"); fill3(s->momentum_map_w, "w2"); }
  }
}
static Particle *put(SpecieP *s, Place p, double w)
{
  Particle *q = new Particle();
  q->pos_r = (p.ci + p.fr) * dr; q->pos_z = (p.ck + p.fz) * dz; q->weight = w;
  s->particles.push_back(q);
  return q;
}

// density is the volume weighted cloud of every particle, nothing else, and counts every particle once
extern "C" void density()
{
  int n = v_param("n");
  SpecieP *s = mk();
  Place p[3];
  double w[3], all = 0, sum = 0;
  for (int i = 0; i < n; ++i) { p[i] = place(i); w[i] = any("wt", i); put(s, p[i], w[i]); all += w[i]; }
  s->calc_density();
  int h = s->density_map.o_s;
  for (int i = -h; i < nr + h; ++i)
    for (int k = -h; k < nz + h; ++k)
    {
      double e = 0, d = s->density_map(i, k);
      for (int j = 0; j < n; ++j) e += w[j] * share(p[j], i0 + i, k0 + k);
      v_check_eq(d, e, 1, "density of a node");
      if (i0 + i >= 0) sum += d * volume(i0 + i);
    }
  v_check_eq(sum, all, 1, "number of particles in the density map");
}
// closer to the axis than half a cell
extern "C" void density_axis()
{
  SpecieP *s = mk();
  Place p;
  p.ci = 0; p.ck = k0 + ifix("ck", 0, nz - 1);
  p.fr = sym("fr", 0, 0.5); p.fz = sym("fz", 0, 1);
  v_assume(p.fz < 1);
  double w = pos("wt"), sum = 0;
  put(s, p, w);
  s->calc_density();
  int h = s->density_map.o_s;
  for (int i = -h; i < nr + h; ++i)
    for (int k = -h; k < nz + h; ++k)
    {
      double d = s->density_map(i, k);
      v_check_le(0, d, 1, "negative density");
      bool near = i >= 0 && i <= 1 && (k + k0 == p.ck || k + k0 == p.ck + 1);
      if (!near) v_check_eq(d, 0, 1, "density away from the particle");
      else sum += d * volume(i);
    }
  v_check_eq(sum, w, 1, "number of particles in the density map");
}

static const double C2 = LIGHT_VEL * LIGHT_VEL, L2 = REL_LIMIT * REL_LIMIT;

static double speed2(Particle *q) { return q->vel_r * q->vel_r + q->vel_phi * q->vel_phi + q->vel_z * q->vel_z; }

// a velocity of known length (u in units of c) towards (a, b, 1) or along an axis
static double velocity(Particle *q, int i, int fast)
{
  q->vel_r = any("vr", i); q->vel_phi = any("vp", i); q->vel_z = any("vz", i);
  double v2 = speed2(q);
  if (fast) v_assume(v2 > L2 && v2 < C2); else v_assume(v2 <= L2);
  return fast ? 1 / algo::common::sq_rt(1 - v2 / C2) : 1;
}

extern "C" void momentum()
{
  double m = pos("mass");
  SpecieP *s = mk(m);
  Place p[2];
  double w[2], g[2];
  Particle *q[2];
  for (int i = 0; i < 2; ++i)
  {
    p[i] = place(i); w[i] = pos("wt", i); q[i] = put(s, p[i], w[i]);
    g[i] = velocity(q[i], i, i ? v_param("fast1") : v_param("fast0"));
  }
  s->calc_momentum();
  for (int i = 0; i < nr; ++i)
    for (int k = 0; k < nz; ++k)
    {
      double n = 0, e[3] = {0, 0, 0};
      for (int j = 0; j < 2; ++j)
      {
        double c = w[j] * share(p[j], i0 + i, k0 + k);
        n += c;
        e[0] += c * g[j] * m * q[j]->vel_r; e[1] += c * g[j] * m * q[j]->vel_phi; e[2] += c * g[j] * m * q[j]->vel_z;
      }
      for (int c = 0; c < 3; ++c)
        v_check_eq(s->momentum_map(c, i, k) * n, e[c], 1, "momentum of a node is the weighted mean of its particles");
      v_check_eq(s->density_map(i, k), n, 1, "density next to the momentum");
      if (n == 0)
        for (int c = 0; c < 3; ++c) v_check_eq(s->momentum_map(c, i, k), 0, 1, "momentum of an empty node");
    }
}

// one particle: its kinetic energy in electronvolts wherever it is seen, zero elsewhere; temperature zero
extern "C" void energy_one()
{
  double m = pos("mass");
  int fast = v_param("fast"), dir = v_param("dir");
  SpecieP *s = mk(m);
  Place p = place(0);
  Particle *q = put(s, p, pos("wt"));
  double v = pos("v"), g = 1;
  if (fast) { v_assume(v > REL_LIMIT && v < LIGHT_VEL); g = 1 / algo::common::sq_rt(1 - v * v / C2); } else v_assume(v < REL_LIMIT);
  double a = any("dir0"), b = any("dir1"), n = algo::common::sq_rt(1 + a * a + b * b);
  if (dir == 3) { q->vel_r = v / n; q->vel_phi = a * v / n; q->vel_z = b * v / n; }
  else if (dir == 0) q->vel_r = v;
  else if (dir == 1) q->vel_phi = -v;
  else q->vel_z = v;
  double e = (fast ? (g - 1) * m * C2 : 0.5 * m * v * v) / EL_CHARGE;
  energy_and_temperature(s);
  for (int i = 0; i < nr; ++i)
    for (int k = 0; k < nz; ++k)
    {
      bool in = share(p, i0 + i, k0 + k) != 0;
      v_check_eq(s->energy_map(i, k), in ? e : 0, 1, in ? "energy of a single particle" : "energy of an empty node");
      v_check_eq(s->temperature_map(i, k), 0, 1, "temperature of a single particle");
    }
}

static double kinetic(double m, double p2)
{
  if (p2 > L2 * m * m) return (algo::common::sq_rt(p2 * C2 + m * m * C2 * C2) - m * C2) / EL_CHARGE;
  return 0.5 * p2 / m / EL_CHARGE;
}

// two particles in one place, at speeds and angles of their own, along z and r
extern "C" void energy_two()
{
  double m = pos("mass");
  SpecieP *s = mk(m);
  Place p = place(0);
  double w[2], v[2], P[2], g;
  Particle *q[2];
  int cross = v_param("cross");
  for (int i = 0; i < 2; ++i)
  {
    int fast = i ? v_param("fast1") : v_param("fast0");
    w[i] = pos("wt", i);
    q[i] = put(s, p, w[i]);
    v[i] = pos("v", i);
    if (fast) { v_assume(v[i] > REL_LIMIT && v[i] < LIGHT_VEL); g = 1 / algo::common::sq_rt(1 - v[i] * v[i] / C2); }
    else { v_assume(v[i] < REL_LIMIT); g = 1; }
    P[i] = m * g * v[i];
  }
  q[0]->vel_z = -v[0];
  if (cross) q[1]->vel_phi = v[1]; else q[1]->vel_z = v[1];
  double W = w[0] + w[1];
  double mean = (w[0] * P[0] + w[1] * P[1]) / W;
  double pz = cross ? -w[0] * P[0] / W : (w[1] * P[1] - w[0] * P[0]) / W, pf = cross ? w[1] * P[1] / W : 0;
  double e = kinetic(m, mean * mean), t = kinetic(m, mean * mean - pz * pz - pf * pf);
  energy_and_temperature(s);
  for (int i = 0; i < nr; ++i)
    for (int k = 0; k < nz; ++k)
    {
      bool in = share(p, i0 + i, k0 + k) != 0;
      v_check_eq(s->energy_map(i, k), in ? e : 0, 1, "energy belongs to the mean momentum");
      v_check_eq(s->temperature_map(i, k), in ? t : 0, 1, "temperature belongs to the momentum spread");
    }
}
