// The shared memory block: the simulated area divided into domains
//src: SMB.cpp domain.cpp specieP.cpp beamP.cpp current/currentVB.cpp current/currentZigZag.cpp maxwellSolver/maxwellSolverYee.cpp pusher/pusherBoris.cpp pusher/pusherVay.cpp pusher/pusherHC.cpp
//src: algo/common.cpp phys/rel.cpp phys/plasma.cpp math/maxwellJuettner.cpp
#include "smb.hpp"

// one step of the fields in the divided area is the step of the whole area, and leaves every domain with its neighbours' nodes around it
extern "C" void fields()
{
  Area a;
  int x = v_param("x"), y = v_param("y"), steps = v_param("steps");
  Whole one(a);
  SMB *many = a.block(x, y);
  const char *names[] = {"E", "H", "HT", "J"};
  for (int f = 0; f < 4; ++f)
  {
    one.fill(f, names[f]);
    fill_all(many, f, names[f]);
  }
  for (int s = 0; s < steps; ++s)
  {
    one.step();
    many->solve_maxvell();
  }
  for (int f = 0; f < 3; ++f)
    for (int c = 0; c < 3; ++c)
      for (int i = 0; i < x; ++i)
        for (int j = 0; j < y; ++j)
          for (int k = -2; k < nrd(many) + 2; ++k)
            for (int l = -2; l < nzd(many) + 2; ++l)
            {
              int gk = k + i * nrd(many), gl = l + j * nzd(many);
              if (gk < 0 || gl < 0 || gk >= a.nr || gl >= a.nz) continue;
              bool own = k >= 0 && l >= 0 && k < nrd(many) && l < nzd(many);
              v_check_eq(grid(many, i, j, f)(c, k, l), one.grid(f)(c, gk, gl), 1,
                         own ? "field of a domain differs from the undivided area" : "halo of a domain differs from its neighbour");
            }
}

// what the domains deposit on shared nodes adds up
extern "C" void currents()
{
  Area a;
  int x = v_param("x"), y = v_param("y");
  SMB *b = a.block(x, y);
  for (int i = 0; i < x; ++i)
    for (int j = 0; j < y; ++j)
      for (int c = 0; c < 3; ++c) fill(grid(b, i, j, J)[c], "j", (i * 8 + j) * 3 + c);
  int n = nrd(b), m = nzd(b);
  double *want = new double[3 * a.nr * a.nz];
  for (int c = 0; c < 3; ++c)
    for (int gk = 0; gk < a.nr; ++gk)
      for (int gl = 0; gl < a.nz; ++gl)
      {
        double s = 0;
        for (int i = 0; i < x; ++i)
          for (int j = 0; j < y; ++j)
          {
            int k = gk - i * n, l = gl - j * m;
            if (k >= -2 && l >= -2 && k < n + 2 && l < m + 2) s += grid(b, i, j, J)(c, k, l);
          }
        want[(c * a.nr + gk) * a.nz + gl] = s;
      }
  b->current_overlay();
  for (int c = 0; c < 3; ++c)
    for (int gk = 0; gk < a.nr; ++gk)
      for (int gl = 0; gl < a.nz; ++gl)
        v_check_eq(grid(b, gk / n, gl / m, J)(c, gk % n, gl % m), want[(c * a.nr + gk) * a.nz + gl], 1,
                   "current of all domains adds up at every node");
}

#if defined(SWITCH_PUSHER_VAY)
#include "pusher/pusherVay.hpp"
typedef PusherVay Push;
#elif defined(SWITCH_PUSHER_HC)
#include "pusher/pusherHC.hpp"
typedef PusherHC Push;
#else
typedef PusherBoris Push;
#endif
// the class of an object
static void *kind(void *x) { return *(void **)x; }

// the domains tile the area; each has its walls, absorber, and part of every species
extern "C" void partition()
{
  Area a;
  int x = v_param("x"), y = v_param("y"), bunches = v_param("bunches");
  species(a.cfg, 2);
  beams(a.cfg, 2, bunches);
  SMB *b = a.block(x, y);
  int n = nrd(b), m = nzd(b);
  Whole whole(a);
  Push push(whole.solver, {}, a.t);
  for (int i = 0; i < x; ++i)
    for (int j = 0; j < y; ++j)
    {
      Domain *d = b->domains(i, j);
      Geometry &g = d->geometry;
      v_check(g.cell_dims[0] == (size_t)(i * n) && g.cell_dims[2] == (size_t)((i + 1) * n), "radial range of a domain");
      v_check(g.cell_dims[1] == (size_t)(j * m) && g.cell_dims[3] == (size_t)((j + 1) * m), "longitudinal range of a domain");
      v_check(g.cell_amount[0] == (size_t)n && g.cell_amount[1] == (size_t)m, "cells of a domain");
      v_check_eq(g.cell_size[0], a.dr, 1, "cell size of a domain");
      v_check_eq(g.cell_size[1], a.dz, 1, "cell size of a domain");
      v_check_eq(g.size[0], n * a.dr, 1, "size of a domain");
      v_check_eq(g.size[1], m * a.dz, 1, "size of a domain");
      v_check(g.walls[0] == (i == 0 && (a.walls & W_AXIS)), "axis of a domain");
      v_check(g.walls[1] == (j == 0 && (a.walls & W_LEFT)), "left wall of a domain");
      v_check(g.walls[2] == (i == x - 1 && (a.walls & W_OUTER)), "outer wall of a domain");
      v_check(g.walls[3] == (j == y - 1 && (a.walls & W_RIGHT)), "right wall of a domain");
      v_check(kind(d->pusher) == kind(&push) && kind(d->current) == kind(whole.current) && kind(d->maxwell_solver) == kind(whole.solver),
              "schemes of a domain are the configured ones");
      v_check(d->time == a.t && d->current->time == a.t && d->maxwell_solver->time == a.t && d->pusher->time == a.t, "one clock for all domains");
      v_check(d->maxwell_solver->current == d->current && d->pusher->maxwell_solver == d->maxwell_solver, "parts of a domain work together");
      v_check(d->maxwell_solver->geometry == &d->geometry && d->current->geometry == &d->geometry, "parts of a domain work together");
      v_check(d->species_p.size() == (size_t)(bunches ? 4 : 2), "species of a domain");
      v_check(d->current->species_p.size() == d->species_p.size() && d->pusher->species_p.size() == d->species_p.size(), "species of a domain");
      for (int s = 0; s < 2; ++s)
      {
        SpecieP *p = d->species_p[s];
        particle_specie &c = a.cfg->particle_species[s];
        v_check(p->id == c.id && p->name == c.name, "identity of a species");
        v_check((int)p->macro_amount == 48 * (s + 1) / x / y, "macroparticles of a species in a domain");
        v_check_eq(p->charge, c.charge * constant::EL_CHARGE, 1, "charge of a species");
        v_check_eq(p->mass, (double)c.mass * constant::EL_MASS, 1, "mass of a species");
        v_check_eq(p->temperature, c.temperature, 1, "temperature of a species");
        double slope = c.right_density - c.left_density;
        v_check_eq((p->density[0] - c.left_density) * y, slope * j, 1, "density at the left border of a domain");
        v_check_eq((p->density[1] - c.left_density) * y, slope * (j + 1), 1, "density at the right border of a domain");
        v_check(d->current->species_p[s] == p && d->pusher->species_p[s] == p, "species of a domain");
      }
      if (bunches)
        for (int s = 0; s < 2; ++s)
        {
          BeamP *p = (BeamP *)d->species_p[2 + s];
          particle_beam &c = a.cfg->particle_beams[s];
          v_check(p->id == c.id && p->macro_amount == c.macro_amount && (int)p->bunches_amount == bunches, "identity of a beam");
          v_check_eq(p->velocity, c.velocity, 1, "velocity of a beam");
          v_check_eq(p->start_time, c.start_time, 1, "start of a beam");
          v_check_eq(p->radius, c.bunch_radius, 1, "radius of a beam");
          v_check_eq(p->bunch_length, c.bunch_length, 1, "length of a bunch");
          v_check_eq(p->bunches_distance, c.bunches_distance, 1, "distance of bunches");
          v_check_eq(p->density, c.density, 1, "density of a beam");
        }
    }
}

// every particle is afterwards exactly where its cell belongs, and only those outside the area are gone
extern "C" void runaway()
{
  Area a;
  int x = v_param("x"), y = v_param("y"), many = v_param("n");
  species(a.cfg, 2);
  SMB *b = a.block(x, y);
  int n = nrd(b), m = nzd(b);
  std::vector<Particle *> all;
  std::vector<int> home;
  for (int q = 0; q < many; ++q)
  {
    Particle *p = new Particle();
    int i = ifix(q ? "i1" : "i0", 0, x - 1), j = ifix(q ? "j1" : "j0", 0, y - 1), s = ifix(q ? "sp1" : "sp0", 0, 1);
    p->pos_r = any("r", q); p->pos_z = any("z", q); p->vel_r = any("vr", q); p->vel_phi = any("vp", q); p->vel_z = any("vz", q); p->weight = any("w", q);
    p->cell_r = isym(q ? "r1" : "r0", -2, a.nr + 1);
    p->cell_z = isym(q ? "z1" : "z0", -2, a.nz + 1);
    p->specie_id = b->domains(i, j)->species_p[s]->id;
    b->domains(i, j)->species_p[s]->particles.push_back(p);
    all.push_back(p);
    home.push_back(s);
  }
  b->particles_runaway_collector();
  std::vector<int> found(many, 0);
  for (int i = 0; i < x; ++i)
    for (int j = 0; j < y; ++j)
      for (int s = 0; s < 2; ++s)
        for (auto p : b->domains(i, j)->species_p[s]->particles)
          for (int q = 0; q < many; ++q)
            if (p == all[q])
            {
              ++found[q];
              int r = (int)p->cell_r, z = (int)p->cell_z;
              v_check(r >= i * n && r < (i + 1) * n && z >= j * m && z < (j + 1) * m, "particle is filed in the domain of its cell");
              v_check(s == home[q], "particle stays in its species");
            }
  int total = 0;
  for (int q = 0; q < many; ++q)
  {
    int r = (int)all[q]->cell_r, z = (int)all[q]->cell_z;
    bool in = r >= 0 && z >= 0 && r < a.nr && z < a.nz;
    v_check(found[q] == (in ? 1 : 0), "a particle inside the area is kept exactly once, one outside is removed");
    total += in;
    if (!in) continue;
    v_check_eq(all[q]->pos_r, any("r", q), 1, "particle changed by being handed over");
    v_check_eq(all[q]->pos_z, any("z", q), 1, "particle changed by being handed over");
    v_check_eq(all[q]->vel_r, any("vr", q), 1, "particle changed by being handed over");
    v_check_eq(all[q]->vel_phi, any("vp", q), 1, "particle changed by being handed over");
    v_check_eq(all[q]->vel_z, any("vz", q), 1, "particle changed by being handed over");
    v_check_eq(all[q]->weight, any("w", q), 1, "particle changed by being handed over");
  }
  int left = 0;
  for (int i = 0; i < x; ++i)
    for (int j = 0; j < y; ++j)
      for (int s = 0; s < 2; ++s) left += b->domains(i, j)->species_p[s]->particles.size();
  v_check(left == total, "number of particles");
}

// the current of moving particles does not depend on the division into domains
extern "C" void moving()
{
  Area a;
  int x = v_param("x"), y = v_param("y"), ci = v_param("ci"), ck = v_param("ck"), di = v_param("di"), dk = v_param("dk");
  species(a.cfg, 1);
  SMB *blocks[2] = {a.block(1, 1), a.block(x, y)};
  double ro = ci + sym("ro", 0.5, 1), rn = ci + di + sym("rn", 0, 1), zo = ck + sym("zo", 0, 1), zn = ck + dk + sym("zn", 0, 1);
  v_assume(ro < ci + 1 && rn < ci + di + 1 && zo < ck + 1 && zn < ck + dk + 1 && rn >= 0.5 && rn != ro && zn != zo);
  for (SMB *b : blocks)
  {
    Particle *p = new Particle();
    p->pos_old_r = ro * a.dr; p->pos_r = rn * a.dr; p->pos_old_z = zo * a.dz; p->pos_z = zn * a.dz;
    p->vel_r = (rn - ro) * a.dr / a.dt; p->vel_z = (zn - zo) * a.dz / a.dt; p->vel_phi = any("vphi"); p->weight = pos("w");
    p->cell_r = ci + di; p->cell_z = ck + dk;
    int i = (ci + di) / nrd(b), j = (ck + dk) / nzd(b);
    for (int k = 0; k < (int)b->r_domains; ++k)
      for (int l = 0; l < (int)b->z_domains; ++l)
        for (int c = 0; c < 3; ++c) fill(grid(b, k, l, J)[c], "old", c + 3 * (k * 8 + l));
    b->domains(i, j)->species_p[0]->particles.push_back(p);
    b->solve_current();
  }
  int n = nrd(blocks[1]), m = nzd(blocks[1]);
  for (int c = 0; c < 3; ++c)
    for (int gk = 0; gk < a.nr; ++gk)
      for (int gl = 0; gl < a.nz; ++gl)
        v_check_eq(grid(blocks[1], gk / n, gl / m, J)(c, gk % n, gl % m), grid(blocks[0], 0, 0, J)(c, gk, gl), 1,
                   "current of a move differs from the undivided area");
}

// a particle feels the same field whichever domain it is in
extern "C" void felt()
{
  Area a;
  int x = v_param("x"), y = v_param("y"), ci = v_param("ci"), ck = v_param("ck");
  Whole one(a);
  SMB *many = a.block(x, y);
  const char *names[] = {"E", "H", "HT"};
  for (int f = 0; f < 3; ++f)
  {
    one.fill(f, names[f]);
    fill_all(many, f, names[f]);
  }
  double r = ci + sym("r", 0, 1), z = ck + sym("z", 0, 1);
  v_assume(r < ci + 1 && z < ck + 1 && r >= 0.5);
  MaxwellSolver *s = solver(many, ci / nrd(many), ck / nzd(many)), *t = one.solver;
  vector3d<double> e = s->get_field_e(r * a.dr, z * a.dz), h = s->get_field_h(r * a.dr, z * a.dz);
  vector3d<double> e1 = t->get_field_e(r * a.dr, z * a.dz), h1 = t->get_field_h(r * a.dr, z * a.dz);
  for (int c = 0; c < 3; ++c)
  {
    v_check_eq(e[c], e1[c], 1, "electric field felt by a particle differs from the undivided area");
    v_check_eq(h[c], h1[c], 1, "magnetic field felt by a particle differs from the undivided area");
  }
}

// a whole step of a free particle: straight on, its old place remembered, filed in the right domain
extern "C" void free_step()
{
  Area a;
  int x = v_param("x"), y = v_param("y"), ci = v_param("ci"), ck = v_param("ck");
  species(a.cfg, 2);
  SMB *b = a.block(x, y);
  int n = nrd(b), m = nzd(b);
  Particle *p = new Particle();
  double r = (ci + sym("r", 0, 1)) * a.dr, z = (ck + sym("z", 0, 1)) * a.dz, vr = any("vr"), vp = any("vp"), vz = any("vz");
  v_assume(r < (ci + 1) * a.dr && z < (ck + 1) * a.dz);
  v_assume(vr * a.dt <= a.dr && vr * a.dt >= -a.dr && vp * a.dt <= a.dr && vp * a.dt >= -a.dr && vz * a.dt <= a.dz && vz * a.dt >= -a.dz);
  v_assume(vr * vr + vp * vp + vz * vz < constant::LIGHT_VEL * constant::LIGHT_VEL);
  p->pos_r = r; p->pos_z = z; p->vel_r = vr; p->vel_phi = vp; p->vel_z = vz; p->weight = pos("w"); p->pos_phi = 0;
  p->cell_r = ci; p->cell_z = ck;
  p->pos_old_r = any("older"); p->pos_old_z = any("olderz"); p->pos_old_phi = 0;
  b->domains(ci / n, ck / m)->species_p[1]->particles.push_back(p);
  b->advance_particles();
  int at = 0;
  for (int i = 0; i < x; ++i)
    for (int j = 0; j < y; ++j)
    {
      Domain *d = b->domains(i, j);
      v_check(d->species_p[0]->particles.empty(), "particle stays in its species");
      for (auto q : d->species_p[1]->particles)
      {
        ++at;
        v_check(q == p && (int)p->cell_r / n == i && (int)p->cell_z / m == j, "particle is filed in the domain of its cell");
      }
    }
  v_check(at == 1, "particle is kept exactly once");
  double xr = r + vr * a.dt, xp = vp * a.dt;
  v_check_eq(p->pos_r * p->pos_r, xr * xr + xp * xp, 1, "radius after a free step");
  v_check_eq(p->pos_z, z + vz * a.dt, 1, "longitude after a free step");
  v_check_eq(p->pos_phi, 0, 1, "particle stays in the r-z plane");
  v_check_eq(p->pos_old_r, r, 1, "old place of a particle");
  v_check_eq(p->pos_old_z, z, 1, "old place of a particle");
  v_check_eq(p->vel_r * p->vel_r + p->vel_phi * p->vel_phi, vr * vr + vp * vp, 1, "speed after a free step");
  v_check_eq(p->vel_phi * p->pos_r, vp * r, 1, "angular momentum after a free step");
  v_check_eq(p->vel_z, vz, 1, "speed after a free step");
  double cr = (double)p->cell_r, cz = (double)p->cell_z;
  v_check(cr * a.dr <= p->pos_r && p->pos_r < (cr + 1) * a.dr && cz * a.dz <= p->pos_z && p->pos_z < (cz + 1) * a.dz, "cell after a free step");
}

// a step into a wall: back, as far as it would have gone beyond half a cell from it
extern "C" void bounce()
{
  Area a;
  int x = v_param("x"), y = v_param("y"), wall = v_param("wall");
  species(a.cfg, 2);
  SMB *b = a.block(x, y);
  bool radial = wall % 2 == 0;
  double edge = wall < 2 ? 0.5 : (radial ? a.nr : a.nz) - 0.5, out = wall < 2 ? -1 : 1, d = radial ? a.dr : a.dz;
  double from = sym("from", 0, 0.5), move = sym("move", 0, 1), other = 1.25;
  v_assume(from > 0 && move > from && move < 1);
  Particle *p = new Particle();
  double start = edge - out * from, v = out * move * d / a.dt;
  int cell = wall < 2 ? start >= 1 : (radial ? a.nr : a.nz) - 1;
  p->pos_r = (radial ? start : other) * a.dr; p->pos_z = (radial ? other : start) * a.dz;
  p->vel_r = radial ? v : 0; p->vel_phi = 0; p->vel_z = radial ? 0 : v;
  p->weight = pos("w"); p->pos_phi = 0; p->pos_old_phi = 0; p->pos_old_r = p->pos_r; p->pos_old_z = p->pos_z;
  p->cell_r = radial ? cell : 1; p->cell_z = radial ? 1 : cell;
  v_assume(v * v < constant::LIGHT_VEL * constant::LIGHT_VEL);
  b->domains(p->cell_r / nrd(b), p->cell_z / nzd(b))->species_p[1]->particles.push_back(p);
  b->advance_particles();
  double back = edge + out * from - out * move, e = back * d;
  v_check_eq(radial ? p->pos_r : p->pos_z, e, 1, "place after a bounce");
  v_check_eq(radial ? p->pos_z : p->pos_r, other * (radial ? a.dz : a.dr), 1, "place along the wall after a bounce");
  v_check_eq(radial ? p->vel_r : p->vel_z, -v, 1, "velocity after a bounce");
  int at = 0;
  for (int i = 0; i < x; ++i)
    for (int j = 0; j < y; ++j) at += b->domains(i, j)->species_p[1]->particles.size();
  v_check(at == 1, "a particle that bounces is kept");
}

// a bunch enters through the left wall of the area, in every row of domains, and nowhere else
extern "C" void injected()
{
  Area a;
  int x = v_param("x"), y = v_param("y"), nb = v_param("beams");
  species(a.cfg, 1);
  beams(a.cfg, nb, 1);
  for (auto &b : a.cfg->particle_beams)
  {
    v_assume(b.bunch_radius >= (a.nr + 1) * a.dr && b.velocity * a.dt < 0.5 * a.dz && b.bunch_length >= 3 * a.dz && b.start_time == a.dt);
  }
  SMB *b = a.block(x, y);
  for (int i = 0; i < x; ++i)
    for (int j = 0; j < y; ++j)
      for (int s = 1; s <= nb; ++s) static_cast<BeamP *>(b->domains(i, j)->species_p[s])->macro_per_step_to_inject = s;
  a.t->current = a.dt;
  b->inject_beam();
  for (int i = 0; i < x; ++i)
    for (int j = 0; j < y; ++j)
    {
      Domain *d = b->domains(i, j);
      v_check((int)d->species_p.size() == nb + 1 && d->species_p[0]->particles.empty(), "only beams are injected");
      for (int s = 1; s <= nb; ++s)
        v_check((int)d->species_p[s]->particles.size() == (j ? 0 : s), "a bunch enters through the left wall, in every row of domains, and nowhere else");
    }
}

// the initial plasma: every species of every domain gets its particles, in the domain, filed in their cells and moving
extern "C" void loaded()
{
  Area a;
  int x = v_param("x"), y = v_param("y");
  species(a.cfg, 2);
  for (auto &s : a.cfg->particle_species) { s.macro_amount = 2 * x * y; s.right_density = s.left_density; }
  SMB *b = a.block(x, y);
  b->distribute();
  for (int i = 0; i < x; ++i)
    for (int j = 0; j < y; ++j)
      for (int s = 0; s < 2; ++s)
      {
        Domain *d = b->domains(i, j);
        auto &v = d->species_p[s]->particles;
        v_check(v.size() == 2, "every species of every domain gets its particles");
        for (auto p : v)
        {
          double cr = (double)p->cell_r, cz = (double)p->cell_z;
          v_check(p->specie_id == d->species_p[s]->id, "every species of every domain gets its particles");
          v_check(cr * a.dr <= p->pos_r && p->pos_r < (cr + 1) * a.dr && cz * a.dz <= p->pos_z && p->pos_z < (cz + 1) * a.dz, "an initial particle is filed in its cell");
          v_check(cr >= i * nrd(b) && cr < (i + 1) * nrd(b) && cz >= j * nzd(b) && cz < (j + 1) * nzd(b), "an initial particle is in its domain");
          v_check(p->vel_r * p->vel_r + p->vel_phi * p->vel_phi + p->vel_z * p->vel_z > 0, "an initial particle moves");
        }
      }
}
