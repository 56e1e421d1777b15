// Velocity update (every configurable integrator) in arbitrary electric and magnetic fields
//src: algo/common.cpp phys/rel.cpp pusher/pusherBoris.cpp pusher/pusherVay.cpp pusher/pusherHC.cpp specieP.cpp math/maxwellJuettner.cpp
#include "sim.hpp"
#include "rnd.hpp"
#include "specieP.hpp"
#include "pusher/pusherBoris.hpp"
#include "pusher/pusherVay.hpp"
#include "pusher/pusherHC.hpp"
#if defined(SWITCH_PUSHER_VAY)
typedef PusherVay P;
#elif defined(SWITCH_PUSHER_HC)
typedef PusherHC P;
#else
typedef PusherBoris P;
#endif

struct V3 { double x, y, z; };
static V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static V3 operator*(double s, V3 a) { return {s * a.x, s * a.y, s * a.z}; }
static double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static V3 cross(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static const double C2 = constant::LIGHT_VEL_POW_2;

// the field seen by a particle is whatever the solver reports at the particle's place
struct Fields : public MaxwellSolver
{
  V3 e, h;
  double er, ez, hr, hz;
  Fields() { field_e = field_h = Grid3D<double>(1, 1, 0); }
  void set_pml() {}
  void calc_field_h() {}
  void calc_field_e() {}
  vector3d<double> get_field_e(double r, double z) { er = r; ez = z; return vector3d<double>(e.x, e.y, e.z); }
  vector3d<double> get_field_h(double r, double z) { hr = r; hz = z; return vector3d<double>(h.x, h.y, h.z); }
};

// The particle starts with momentum m u, the electric kick per half step is e and the magnetic turn per half step is t;
// u, e and t are arbitrary, so every sub-light velocity, every E and every H (for q != 0) is covered.
struct Bench
{
  TimeSim *t;
  SpecieP *s;
  Fields f;
  Particle *p;
  double dt, q, m, k;
  V3 u, v, e, b;
  Bench(const char *qn = "q", const char *mn = "m", double fixed_mass = 0)
  {
    dt = fixed_mass ? 0.5 : pos("dt");
    t = mk_time(dt);
    Geometry *g = mk_geom(4, 4, 0, 0, 4, 4, 15, 1., 1.);
    q = any(qn); m = fixed_mass ? fixed_mass : pos(mn);
    v_assume(q != 0);
    k = q * dt / (2 * m);
    s = new SpecieP(1, "s", 1, 1, 1, 1, 1, 1, g, t);
    s->charge = q; s->mass = m;
    p = new Particle();
    p->pos_r = pos("r"); p->pos_z = pos("z"); p->weight = pos("w");
#if defined(SWITCH_PUSHER_BORIS)
    u = v = {any("v", 0), any("v", 1), any("v", 2)};
#elif defined(SWITCH_PUSHER_BORIS_ADAPTIVE)
    if (v_param("fast")) momentum();
    else
    {
      u = v = {any("v", 0), any("v", 1), any("v", 2)};
      v_assume(dot(v, v) <= REL_LIMIT_POW_2);
    }
#else
    momentum();
#endif
    p->vel_r = v.x; p->vel_phi = v.y; p->vel_z = v.z;
    s->particles.push_back(p);
    f.e = f.h = e = b = {0, 0, 0};
  }
  void momentum()
  {
    u = {any("u", 0), any("u", 1), any("u", 2)};
    v = (1 / sqrt(1 + dot(u, u) / C2)) * u;
#if defined(SWITCH_PUSHER_BORIS_ADAPTIVE)
    v_assume(dot(u, u) * (1 - REL_LIMIT_POW_2 / C2) > REL_LIMIT_POW_2); // that is |v| > REL_LIMIT
#endif
  }
  void set_e(V3 x) { e = x; f.e = (1 / k) * e; }
  void set_b(V3 x) { b = x; f.h = (1 / (k * constant::MAGN_CONST)) * b; }
  void electric() { set_e({any("e", 0), any("e", 1), any("e", 2)}); }
  void magnetic() { set_b({any("b", 0), any("b", 1), any("b", 2)}); }
  // Implicit schemes turn the momentum about T = t / g, where g is the Lorentz factor they solve for. T is the free
  // variable and t = g T follows, which is the same set of fields (g is positive).
  V3 T;
  double g;
  void turn(V3 w)
  {
    T = {any("b", 0), any("b", 1), any("b", 2)};
    double d = dot(w, T);
    g = sqrt((1 + dot(w, w) / C2 + dot(T, T) + d * d / C2) / (1 + dot(T, T)));
    set_b(g * T);
  }
  V3 push() { P pu(&f, {s}, t); pu(); return {p->vel_r, p->vel_phi, p->vel_z}; }
};

static bool relativistic()
{
#if defined(SWITCH_PUSHER_BORIS)
  return false;
#elif defined(SWITCH_PUSHER_BORIS_ADAPTIVE)
  return v_param("fast");
#else
  return true;
#endif
}

static void eq(V3 a, V3 b, double scale, const char *l)
{
  v_check_eq(a.x, b.x, scale, l); v_check_eq(a.y, b.y, scale, l); v_check_eq(a.z, b.z, scale, l);
}

// no field: the velocity stays exactly what it was
extern "C" void free_flight()
{
  Bench b;
  eq(b.push(), b.v, 1, "velocity changed without any field");
  v_check(b.p->pos_r == b.f.er && b.p->pos_z == b.f.ez && b.p->pos_r == b.f.hr && b.p->pos_z == b.f.hz, "field taken elsewhere");
}

// magnetic field only: speed is conserved, and so is the component along the field
extern "C" void magnetic_only()
{
  Bench b;
#if defined(SWITCH_PUSHER_HC)
  b.turn(b.u);
#elif defined(SWITCH_PUSHER_VAY)
  b.g = sqrt(1 + dot(b.u, b.u) / C2);
  b.set_b(b.g * V3{any("b", 0), any("b", 1), any("b", 2)});
#else
  b.magnetic();
#endif
  V3 n = b.push();
  v_check_eq(dot(n, n), dot(b.v, b.v), 1, "magnetic field did work");
  v_check_eq(dot(n, b.b), dot(b.v, b.b), 1, "velocity along the field changed");
}

static V3 to_velocity(V3 u, bool rel) { return rel ? (1 / sqrt(1 + dot(u, u) / C2)) * u : u; }

// electric field only: momentum gains q E dt and the relativistic speed stays below c
extern "C" void electric_only()
{
  Bench b;
  b.electric();
  V3 n = b.push();
  eq(n, to_velocity(b.u + 2. * b.e, relativistic()), 1, "momentum gain differs from q E dt");
  if (relativistic()) v_check(dot(n, n) < C2, "speed reached the speed of light");
}

// both fields: the scheme's defining equation
extern "C" void combined()
{
  Bench b;
#if defined(SWITCH_PUSHER_VAY)
  // u1 = u0 + 2 e + v0 x t + v1 x t: w is everything but the last term
  V3 w = {any("w", 0), any("w", 1), any("w", 2)};
  b.turn(w);
  b.set_e(0.5 * (w - b.u - cross(b.v, b.b)));
  V3 n = b.push();
  V3 u1 = (1 / (1 + dot(b.T, b.T))) * (w + dot(w, b.T) * b.T + cross(w, b.T));
  eq(n, (1 / b.g) * u1, 1, "Vay step");
#elif defined(SWITCH_PUSHER_HC)
  b.electric();
  V3 um = b.u + b.e;
  b.turn(um);
  V3 n = b.push();
  V3 T = b.T;
  double T2 = dot(T, T);
  V3 up = (1 / (1 + T2)) * ((1 - T2) * um + (2 * dot(um, T)) * T + 2. * cross(um, T));
  eq(n, to_velocity(up + b.e, true), 1, "Higuera-Cary step");
#else
  b.electric();
  b.magnetic();
  V3 e = b.e, t = b.b;
  V3 n = b.push();
  bool rel = relativistic();
  V3 um = b.u + e;
  if (rel) t = (1 / sqrt(1 + dot(um, um) / C2)) * t;
  double t2 = dot(t, t);
  V3 up = (1 / (1 + t2)) * ((1 - t2) * um + (2 * dot(um, t)) * t + 2. * cross(um, t));
  eq(n, to_velocity(up + e, rel), 1, "Boris step");
#endif
  v_check(b.p->pos_r == b.f.er && b.p->pos_z == b.f.ez && b.p->pos_r == b.f.hr && b.p->pos_z == b.f.hz, "field taken elsewhere");
}

// every particle is pushed once, with its own species' charge and mass, and nothing but its velocity changes
extern "C" void independent()
{
  Bench b("q", "m", 2), d("q2", "m2", 3);
  b.f.e = {any("e", 0), 0, 0};
  b.f.h = {0, any("h", 1), 0};
  d.f = b.f;
  d.p->vel_r = b.p->vel_r = 0;
  d.p->vel_phi = b.p->vel_phi = 0;
  d.p->vel_z = b.p->vel_z = relativistic() ? b.u.z / sqrt(1 + b.u.z * b.u.z / C2) : b.u.z;
  Particle before = *b.p;
  Particle *c[3];
  for (int i = 0; i < 3; ++i) c[i] = new Particle(*b.p);
  // one that is slow after a fast one, or fast among slow ones
  Particle *o = new Particle(*b.p), *alone = new Particle(*b.p);
  o->vel_z = alone->vel_z = relativistic() ? 4096 : 0.75 * constant::LIGHT_VEL;
  SpecieP *s1 = new SpecieP(1, "s", 1, 1, 1, 1, 1, 1, b.s->geometry, b.t), *s2 = new SpecieP(2, "t", 1, 1, 1, 1, 1, 1, b.s->geometry, b.t);
  s1->charge = b.q; s1->mass = b.m;
  s2->charge = d.q; s2->mass = d.m;
  s1->particles.push_back(c[0]); s1->particles.push_back(o); s1->particles.push_back(c[1]);
  s2->particles.push_back(c[2]);
  // an empty species comes first, a species that has a single particle next to last
  SpecieP *s0 = new SpecieP(3, "e", 1, 1, 1, 1, 1, 1, b.s->geometry, b.t), *s3 = new SpecieP(1, "s", 1, 1, 1, 1, 1, 1, b.s->geometry, b.t);
  s0->charge = s0->mass = 1;
  s3->charge = b.q; s3->mass = b.m;
  s3->particles.push_back(alone);
  P pu(&b.f, {s0, s1, s0, s2}, b.t), pa(&b.f, {s3}, b.t);
  b.f.e = {0, 0, 0};
  pa();                                        // the step before, in another field
  b.f.e = d.f.e; alone->vel_r = alone->vel_phi = 0; alone->vel_z = o->vel_z;
  pa();
  pu();
  eq({alone->vel_r, alone->vel_phi, alone->vel_z}, {o->vel_r, o->vel_phi, o->vel_z}, 1, "a particle among others moves as on its own");
  V3 n = b.push(), w = d.push();
  eq(n, {c[0]->vel_r, c[0]->vel_phi, c[0]->vel_z}, 1, "first particle of a species");
  eq(n, {c[1]->vel_r, c[1]->vel_phi, c[1]->vel_z}, 1, "second particle of a species");
  eq(w, {c[2]->vel_r, c[2]->vel_phi, c[2]->vel_z}, 1, "particle of the second species");
  for (int i = 0; i < 3; ++i)
  {
    v_check_eq(c[i]->pos_r, before.pos_r, 1, "pusher moved a particle");
    v_check_eq(c[i]->pos_z, before.pos_z, 1, "pusher moved a particle");
    v_check_eq(c[i]->weight, before.weight, 1, "pusher changed a weight");
  }
}
