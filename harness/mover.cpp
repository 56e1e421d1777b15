// Free motion, return to the r-z plane, reflection at walls, cell numbers
//src: specieP.cpp algo/common.cpp phys/rel.cpp math/maxwellJuettner.cpp
#include "rnd.hpp"
#include "sim.hpp"
#include "specieP.hpp"

static SpecieP *mk_specie(Geometry *g, TimeSim *t) { return new SpecieP(1, "s", 1, 1, 1, 1, 1, 1, g, t); }

static void untouched(const Particle &a, const Particle &b)
{
  v_check_eq(a.weight, b.weight, 1, "weight changed by motion");
  v_check(a.specie_id == b.specie_id, "species id changed by motion");
}

// one step without fields and walls is a straight line in space; two particles, each with its own motion
extern "C" void straight_line()
{
  double dt = pos("dt"), dr = pos("dr"), dz = pos("dz");
  Geometry *g = mk_geom(4, 4, 2, 3, 16, 16, 0, dr, dz);
  TimeSim *t = mk_time(dt);
  SpecieP *s = mk_specie(g, t);
  Particle *p[2], b[2];
  double x[2], y[2];
  for (int i = 0; i < 2; ++i)
  {
    p[i] = new Particle();
    p[i]->pos_r = pos("r", i);
    p[i]->pos_z = any("z", i);
    x[i] = pos("x", i); y[i] = any("y", i);          // where it gets to in the plane of the turn
    p[i]->vel_r = (x[i] - p[i]->pos_r) / dt;
    p[i]->vel_phi = y[i] / dt;
    p[i]->vel_z = any("vz", i);
    p[i]->weight = pos("w", i);
    p[i]->specie_id = 1;
    p[i]->pos_old_r = any("or", i); p[i]->pos_old_z = any("oz", i);
    b[i] = *p[i];
    s->particles.push_back(p[i]);
  }
  s->dump_position_to_old();
  for (int i = 0; i < 2; ++i)
  {
    v_check_eq(p[i]->pos_old_r, b[i].pos_r, 1, "old radius kept");
    v_check_eq(p[i]->pos_old_z, b[i].pos_z, 1, "old longitude kept");
  }
  s->mover_cylindrical();
  s->back_position_to_rz();
  s->reflect();
  s->back_velocity_to_rz();
  for (int i = 0; i < 2; ++i)
  {
    Particle &n = *p[i];
    v_check_eq(n.pos_r * n.pos_r, x[i] * x[i] + y[i] * y[i], 1, "radius after a straight flight");
    v_check_le(0, n.pos_r, 1, "negative radius");
    v_check_eq(n.pos_z, b[i].pos_z + b[i].vel_z * dt, 1, "longitude after a straight flight");
    v_check_eq(n.pos_phi, 0, 1, "particle left the r-z plane");
    v_check_eq(n.vel_z, b[i].vel_z, 1, "longitudinal velocity changed");
    v_check_eq(n.vel_r * n.vel_r + n.vel_phi * n.vel_phi, b[i].vel_r * b[i].vel_r + b[i].vel_phi * b[i].vel_phi, 1, "speed changed in free flight");
    v_check_eq(n.pos_r * n.vel_phi, b[i].pos_r * b[i].vel_phi, 1, "angular momentum changed in free flight");
    v_check_eq(n.pos_r * n.vel_r, x[i] * b[i].vel_r + y[i] * b[i].vel_phi, 1, "radial velocity after a straight flight");
    v_check_eq(n.pos_old_r, b[i].pos_r, 1, "old radius kept");
    v_check_eq(n.pos_old_z, b[i].pos_z, 1, "old longitude kept");
    untouched(n, b[i]);
  }
}

// a particle that flies across the axis
extern "C" void across_axis()
{
  double dt = pos("dt");
  Geometry *g = mk_geom(4, 4, 2, 3, 16, 16, 0, pos("dr"), pos("dz"));
  TimeSim *t = mk_time(dt);
  SpecieP *s = mk_specie(g, t);
  Particle *p = new Particle();
  double r = pos("r"), x = -pos("mx"), y = any("y");
  p->pos_r = r; p->pos_z = 1;
  p->vel_r = (x - r) / dt; p->vel_phi = y / dt;
  Particle b = *p;
  s->particles.push_back(p);
  s->mover_cylindrical();
  s->back_position_to_rz();
  s->reflect();
  s->back_velocity_to_rz();
  v_check_eq(p->pos_r * p->pos_r, x * x + y * y, 1, "radius after a flight across the axis");
  v_check_eq(p->pos_r * p->vel_r, x * b.vel_r + y * b.vel_phi, 1, "radial velocity after a flight across the axis");
  v_check_eq(p->pos_r * p->vel_phi, r * b.vel_phi, 1, "angular momentum after a flight across the axis");
}

// specular reflection at the walls a domain owns, half a cell inside the border
extern "C" void reflection()
{
  int nr = v_param("nr"), nz = v_param("nz"), i0 = v_param("i0"), k0 = v_param("k0"), walls = v_param("walls");
  double dr = pos("dr"), dz = pos("dz");
  Geometry *g = mk_geom(nr, nz, i0, k0, i0 + nr + 2, k0 + nz + 2, walls, dr, dz);
  TimeSim *t = mk_time(1);
  SpecieP *s = mk_specie(g, t);
  double r0 = i0 * dr, z0 = k0 * dz;
  double lr = r0 + dr / 2, hr = r0 + nr * dr - dr / 2, lz = z0 + dz / 2, hz = z0 + nz * dz - dz / 2;
  double or_ = any("or"), oz = any("oz"), r = any("r"), z = any("z");
  // it comes from inside and overshoots by less than the distance between opposite walls
  v_assume(lr <= or_ && or_ <= hr && lz <= oz && oz <= hz);
  v_assume(r > lr - (nr - 1) * dr && r < hr + (nr - 1) * dr && z > lz - (nz - 1) * dz && z < hz + (nz - 1) * dz);
  Particle *p = new Particle();
  p->pos_old_r = or_; p->pos_old_z = oz; p->pos_r = r; p->pos_z = z;
  p->vel_r = any("vr"); p->vel_phi = any("vphi"); p->vel_z = any("vz"); p->weight = pos("w"); p->sin = any("sin");
  Particle b = *p;
  s->particles.push_back(p);
  s->reflect();
  double wr = r, wz = z, sr = 1, sz = 1;
  if ((walls & W_OUTER) && r > hr) { wr = 2 * hr - r; sr = -1; }
  if ((walls & W_AXIS) && r < lr) { wr = 2 * lr - r; sr = -1; }
  if ((walls & W_RIGHT) && z > hz) { wz = 2 * hz - z; sz = -1; }
  if ((walls & W_LEFT) && z < lz) { wz = 2 * lz - z; sz = -1; }
  v_check_eq(p->pos_r, wr, 1, "mirrored radius");
  v_check_eq(p->pos_z, wz, 1, "mirrored longitude");
  v_check_eq(p->vel_r, sr * b.vel_r, 1, "mirrored radial velocity");
  v_check_eq(p->vel_z, sz * b.vel_z, 1, "mirrored longitudinal velocity");
  v_check_eq(p->vel_phi, b.vel_phi, 1, "azimuthal velocity changed at a wall");
  if (walls & W_OUTER) v_check_le(p->pos_r, hr, 1, "outside the outer wall");
  if (walls & W_AXIS) v_check_le(lr, p->pos_r, 1, "inside the axis wall");
  if (walls & W_RIGHT) v_check_le(p->pos_z, hz, 1, "outside the right wall");
  if (walls & W_LEFT) v_check_le(lz, p->pos_z, 1, "outside the left wall");
  v_check_eq(p->pos_old_r, b.pos_old_r, 1, "old radius changed at a wall");
  v_check_eq(p->pos_old_z, b.pos_old_z, 1, "old longitude changed at a wall");
  v_check_eq(p->sin, b.sin, 1, "turn changed at a wall");
  untouched(*p, b);
}

// a particle is filed in the cell that contains it
extern "C" void cells()
{
  double dr = pos("dr"), dz = pos("dz");
  Geometry *g = mk_geom(4, 5, v_param("i0"), v_param("k0"), 16, 16, 0, dr, dz);
  SpecieP *s = mk_specie(g, mk_time(1));
  Particle *p[2];
  double r[2], z[2];
  for (int i = 0; i < 2; ++i)
  {
    p[i] = new Particle();
    r[i] = p[i]->pos_r = any("r", i); z[i] = p[i]->pos_z = any("z", i);
    v_assume(r[i] >= 0 && r[i] < 3 * dr && z[i] >= 0 && z[i] < 3 * dz);
    s->particles.push_back(p[i]);
  }
  s->bind_cell_numbers();
  for (int i = 0; i < 2; ++i)
  {
    double a = (double)p[i]->cell_r, b = (double)p[i]->cell_z;
    v_check(a * dr <= r[i] && r[i] < (a + 1) * dr, "radial cell does not contain the particle");
    v_check(b * dz <= z[i] && z[i] < (b + 1) * dz, "longitudinal cell does not contain the particle");
    v_check_eq(p[i]->pos_r, r[i], 1, "filing moved a particle");
    v_check_eq(p[i]->pos_z, z[i], 1, "filing moved a particle");
  }
}
