// Shared by the collision harnesses: random draws, plasma formulas, particles
#ifndef COLLIDE_HPP
#define COLLIDE_HPP
#include "sim.hpp"
#include "specieP.hpp"
#include "collisions/collisionsTA77S.hpp"
#include "collisions/collisionsP12.hpp"
#include "collisions/collisionsSK98.hpp"

using namespace constant;

// random draws: any number of the documented range; while pairing is traced, one chosen collision deflects and no other
static int draws = 0, pairs = 0, active = -2;
static double deviation = 0;
namespace math::random
{
double uniform()
{
  if (active != -2) return active + 1 == pairs ? 0.5 : 1;
  double x = sym("u", draws++, 0, 1);
  v_assume(x > 0 && x < 1);
  return x;
}
double uniform1() { return uniform(); }
double uniform2() { return 2 * uniform() - 1; }
double uniform_angle() { return active != -2 ? 1 : sym("phi", draws++, 0, 2 * PI); }
double normal(double s)
{
  deviation = s;
  if (active != -2) return active + 1 == pairs ? 1 : 0;
  return any("delta", draws++);
}
double random_reverse(double, int) { v_fail("random_reverse"); return 0; }
}

// the plasma formulas are any positive numbers here
static double last_v = 0;
namespace phys::plasma
{
double debye_length(double, double, double, double) { return 1e-6; }
double plasma_frequency(double) { return 1; }
double coulomb_logarithm(double, double, double, double v)
{
  last_v = v;
  ++pairs;
  if (active != -2) return active + 1 == pairs ? 10 : 0;
  return pos("L");
}
double collision_freqency(double, double, double, double, double, double) { return active != -2 ? 1e6 : pos("freq"); }
}

static Geometry *g;
static TimeSim *t;
static SpecieP *el, *ion;
static int nr = 1, nz = 1;

static SpecieP *specie(int id, const char *name, double q, double m)
{
  SpecieP *s = new SpecieP(id, name, 1, 1, 1, 1, 1, 1, g, t);
  s->charge = q; s->mass = m;
  return s;
}
static void world(double qe, double me, double qi, double mi, double dt)
{
  g = mk_geom(nr, nz, 3, 2, 8, 8, 0, 1e-3, 1e-3);
  t = mk_time(dt);
  el = specie(1, "electrons", qe, me);
  ion = specie(2, "ions", qi, mi);
}
static Collisions *scheme(int k, std::vector<SpecieP *> v)
{
  if (k == 0) return new CollisionsTA77S(g, t, v);
  if (k == 1) return new CollisionsP12(g, t, v);
  return new CollisionsSK98(g, t, v);
}
static Particle *put(SpecieP *s, int i, int k, double vr, double vp, double vz, double w)
{
  Particle *q = new Particle();
  q->pos_r = (3 + i + 0.25) * 1e-3; q->pos_z = (2 + k + 0.75) * 1e-3; q->pos_phi = 0.5;
  q->pos_old_r = 0.1; q->pos_old_phi = 0.2; q->pos_old_z = 0.3;
  q->vel_r = vr; q->vel_phi = vp; q->vel_z = vz; q->weight = w;
  q->cell_r = 3 + i; q->cell_z = 2 + k;
  s->particles.push_back(q);
  return q;
}
static double dot(const double *a, const double *b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static void vel(Particle *q, double *v) { v[0] = q->vel_r; v[1] = q->vel_phi; v[2] = q->vel_z; }

#endif
