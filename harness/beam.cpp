// Beam injection
//src: specieP.cpp beamP.cpp algo/common.cpp phys/rel.cpp math/maxwellJuettner.cpp
#include "rnd.hpp"
#include "sim.hpp"
#include "beamP.hpp"

using namespace constant;

struct Spec
{
  double start, radius, density, length, distance, velocity, dr, dz, dt;
  int macro, bunches;
};

static Spec spec()
{
  Spec s;
  s.start = pos("start"); s.radius = pos("radius"); s.density = pos("density"); s.length = pos("length");
  s.distance = pos("distance"); s.velocity = pos("velocity"); s.dr = pos("dr"); s.dz = pos("dz"); s.dt = pos("dt");
  s.macro = v_param("macro"); s.bunches = v_param("bunches");
  return s;
}
static TimeSim *now = 0;
static BeamP *beam(Spec &s, int nr, int nz, int i0, int k0, int walls)
{
  if (!now) now = mk_time(s.dt);
  Geometry *g = mk_geom(nr, nz, i0, k0, 32, 32, walls, s.dr, s.dz);
  return new BeamP(9, "b", -1, 1, s.macro, s.start, s.radius, s.density, s.bunches, s.length, s.distance, s.velocity, g, now);
}

// the domains at the left wall share each bunch by the part of the radius they cover, others get nothing
extern "C" void shares()
{
  Spec s = spec();
  v_assume(s.radius <= 9 * s.dr);
  BeamP *b[3] = {beam(s, 3, 4, 0, 0, 3), beam(s, 3, 4, 3, 0, 2), beam(s, 3, 4, 6, 0, 6)};
  double all = 0, step = 0;
  for (int i = 0; i < 3; ++i)
  {
    double cover = s.radius - 3 * i * s.dr;
    if (cover < 0) cover = 0;
    if (cover > 3 * s.dr) cover = 3 * s.dr;
    v_check_eq(b[i]->domain_radius, cover, 1, "part of the beam radius inside a domain");
    v_check_eq(b[i]->bunch_macro_amount * s.radius, s.macro / s.bunches * cover, 1, "macroparticles of a bunch in a domain");
    v_check_eq(b[i]->macro_per_step_to_inject * s.length, b[i]->bunch_macro_amount * s.velocity * s.dt, 1, "macroparticles per step");
    all += b[i]->bunch_macro_amount;
    v_check(b[i]->current_bunch_number == 0, "first bunch");
    v_check_eq(b[i]->charge, -EL_CHARGE, 1, "charge of beam particles");
    v_check_eq(b[i]->mass, EL_MASS, 1, "mass of beam particles");
  }
  v_check_eq(all * s.bunches, s.macro, 1, "all macroparticles are distributed");
  v_check_eq(beam(s, 3, 4, 0, 4, 1)->macro_per_step_to_inject, 0, 1, "injection away from the left wall");
}

// when, what and where
extern "C" void injection()
{
  Spec s = spec();
  int i0 = v_param("i0"), n = v_param("n"), bunch = v_param("bunch");
  v_assume(s.radius <= 6 * s.dr && s.velocity * s.dt <= 3 * s.dz);
  BeamP *b = beam(s, 3, 4, i0, 0, i0 ? 2 : 3);
  b->macro_per_step_to_inject = n;
  b->current_bunch_number = bunch;
  now->current = pos("now");
  double from = s.start + bunch * (s.length + s.distance) / s.velocity, to = from + s.length / s.velocity;
  bool in = bunch < s.bunches && now->current >= from && now->current < to && i0 * s.dr < s.radius;
  double dom = s.radius - i0 * s.dr;
  if (dom > 3 * s.dr) dom = 3 * s.dr;
  int n0 = v_fresh() + 1;
  b->inject();
  v_check((int)b->particles.size() == (in ? n : 0), "particles are injected only while a bunch passes, in the domains it covers");
  bool done = bunch < s.bunches && now->current > to;
  v_check((int)b->current_bunch_number == bunch + (done ? 1 : 0), "bunch counter goes on after each bunch in every domain");
  for (size_t j = 0; j < b->particles.size(); ++j)
  {
    Particle &p = *b->particles[j];
    v_check_le((i0 + 0.5) * s.dr, p.pos_r, 1, "injected below the domain");
    v_check_le(p.pos_r, (i0 + 0.5) * s.dr + dom, 1, "injected outside the beam radius");
    v_check_le(0.5 * s.dz, p.pos_z, 1, "injected left of the wall");
    v_check_le(p.pos_z, 0.5 * s.dz + s.velocity * s.dt, 1, "injected further than a step's flight");
    v_check_eq(p.pos_phi, 0, 1, "injected off the r-z plane");
    v_check_eq(p.vel_r, 0, 1, "radial velocity of an injected particle");
    v_check_eq(p.vel_phi, 0, 1, "azimuthal velocity of an injected particle");
    v_check_eq(p.vel_z, s.velocity, 1, "velocity of an injected particle");
    v_check(p.specie_id == 9, "species of an injected particle");
    double N = PI * s.radius * s.radius * s.length * s.bunches * s.density / s.macro;
    v_check_eq(p.weight, N * 2 * p.pos_r / s.radius, 1, "weight of an injected particle");
    double cr = p.pos_r / s.dr - (double)p.cell_r, cz = p.pos_z / s.dz - (double)p.cell_z;
    v_check(cr >= 0 && cr < 1, "radial cell of an injected particle");
    v_check(cz >= 0 && cz < 1, "longitudinal cell of an injected particle");
    v_check_eq(p.pos_r - (i0 + 0.5) * s.dr, dom * sym("rnd", n0 + 2 * j, 0, 1), 1, "place follows its own random number");
    v_check_eq(p.pos_z - 0.5 * s.dz, s.velocity * s.dt * sym("rnd", n0 + 2 * j + 1, 0, 1), 1, "place follows its own random number");
  }
}

// a bunch that takes several steps gets its macroparticles, neither more nor (but for a fraction of one) less
extern "C" void amount()
{
  Spec s = spec();
  BeamP *b = beam(s, 3, 4, 0, 0, 3);
  v_assume(s.radius < 0.5 * s.dr && s.velocity * s.dt < 0.5 * s.dz); // one cell: places are checked above
  int steps = v_param("steps");
  double per = sym("per", 0, 2.5);
  b->macro_per_step_to_inject = per;
  v_assume(s.length >= steps * s.velocity * s.dt);
  for (int i = 0; i < steps; ++i)
  {
    now->current = s.start + i * s.dt;
    b->inject();
  }
  double n = b->particles.size();
  v_check(n <= steps * per && n > steps * per - 1, "macroparticles injected over several steps");
}

// beams leave through the right and outer wall and are mirrored at the axis
extern "C" void beam_reflect()
{
  Spec s = spec();
  int i0 = v_param("i0"), axis = v_param("axis");
  BeamP *b = beam(s, 3, 4, i0, 0, axis ? 15 : 14);
  Particle *p = new Particle();
  p->pos_r = sym("r", -100, 100) * s.dr; p->pos_z = any("z"); p->vel_r = any("vr"); p->vel_z = any("vz"); p->vel_phi = any("vp");
  p->weight = pos("w");
  Particle o = *p;
  b->particles.push_back(p);
  b->reflect();
  bool hit = axis && o.pos_r < (i0 + 0.5) * s.dr;
  v_check_eq(p->pos_r, hit ? (2 * i0 + 1) * s.dr - o.pos_r : o.pos_r, 1, "beam particle at the axis");
  v_check_eq(p->vel_r, hit ? -o.vel_r : o.vel_r, 1, "beam particle at the axis");
  v_check_eq(p->pos_z, o.pos_z, 1, "beam particle leaves along z");
  v_check_eq(p->vel_z, o.vel_z, 1, "beam particle leaves along z");
  v_check_eq(p->vel_phi, o.vel_phi, 1, "beam particle keeps its turn");
  v_check_eq(p->weight, o.weight, 1, "weight of a beam particle");
}
