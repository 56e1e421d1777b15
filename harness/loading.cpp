// Initial placement, weights and velocities of a species
//src: specieP.cpp algo/common.cpp phys/rel.cpp
#include "rnd.hpp"
#include "sim.hpp"
#include "specieP.hpp"

using namespace constant;

// the sampler of energies is an input here: any positive energies
static int energies_asked = 0;
namespace math::maxwell_juettner
{
vector<double> maxwellJuettner(unsigned int n, double)
{
  vector<double> e;
  energies_asked = n;
  for (unsigned int i = 0; i < n; ++i) e.push_back(pos("energy", i));
  return e;
}
}

static double dr, dz;
static int nr, nz, i0, k0, walls;
static const double TINY = 1e-8;       // of a cell

static SpecieP *mk(double d0, double d1, double mass, double temperature)
{
  // square: the cells' sides are in the ratio 1:1, 1:4 or 4:1, so that the lattice steps come out as terms
  dr = pos("dr"); dz = v_param("square") == 4 ? 4 * dr : v_param("square") == 14 ? dr / 4 : v_param("square") ? dr : pos("dz");
  v_assume(dr >= 1e-6);                                       // cells are much larger than MNZL
  v_assume(dz >= 1e-6);
  nr = v_param("nr"); nz = v_param("nz"); i0 = v_param("i0"); k0 = v_param("k0"); walls = v_param("walls");
  Geometry *g = mk_geom(nr, nz, i0, k0, i0 + nr, k0 + nz, walls, dr, dz);
  return new SpecieP(7, "s", -1, mass, v_param("n"), d0, d1, temperature, g, mk_time(1));
}

static void check_common(SpecieP *s, double d0, double d1)
{
  int outer = (walls & W_OUTER) != 0, right = (walls & W_RIGHT) != 0;
  double sum = 0, top = i0 + nr - outer, len = nz - right;
  int n = s->particles.size();
  for (int j = 0; j < n; ++j)
  {
    Particle &p = *s->particles[j];
    v_check_le((i0 + 0.5) * dr, p.pos_r + TINY * dr, 1, "placed below the lower border");
    v_check_le(p.pos_r, (i0 + nr + 0.5 - outer + TINY) * dr, 1, "placed above the upper border");
    v_check_le((k0 + 0.5) * dz, p.pos_z + TINY * dz, 1, "placed left of the border");
    v_check_le(p.pos_z, (k0 + nz + 0.5 - right + TINY) * dz, 1, "placed right of the border");
    v_check_eq(p.pos_phi, 0, 1, "placed off the r-z plane");
    v_check(p.specie_id == 7, "species id of a placed particle");
    v_check(p.weight > 0, "weight of a placed particle is positive");
    sum += p.weight;
    if (p.pos_r <= (0.5 + TINY) * dr) continue;
    v_check_eq(p.weight * s->particles[n - 1]->pos_r, s->particles[n - 1]->weight * p.pos_r, 1, "weight grows with the ring the particle fills");
  }
  if (n) v_check_eq(sum, (d0 + d1) / 2 * PI * dr * dr * (top * top - i0 * i0) * len * dz, 1, "total number of real particles");
}

static void densities(double &d0, double &d1)
{
  d0 = pos("d0");
  d1 = v_param("flat") ? d0 : pos("d1");
}

extern "C" void random_places()
{
  double d0, d1;
  densities(d0, d1);
  SpecieP *s = mk(d0, d1, 1, 1);
  int n0 = v_fresh() + 1, n = v_param("n");
  for (int j = 0; j < 2 * n; ++j) v_assume(sym("rnd", n0 + j, 0, 1) > 0);
  s->fullyfill_spatial_distribution();
  v_check((int)s->particles.size() == n, "number of macroparticles");
  check_common(s, d0, d1);
  v_check(v_fresh() - n0 == 2 * n, "two random numbers per particle");
  int outer = (walls & W_OUTER) != 0, right = (walls & W_RIGHT) != 0;
  for (int j = 0; j < n; ++j)
  {
    // the share of the species left of the particle is its own random number
    Particle &p = *s->particles[j];
    double ur = sym("rnd", n0 + 2 * j, 0, 1), uz = sym("rnd", n0 + 2 * j + 1, 0, 1);
    v_check_eq(p.pos_r / dr - i0 - 0.5, ur * (nr - outer), 1, "radius follows its random number");
    double x = (p.pos_z / dz - k0 - 0.5) / (nz - right);
    v_check_eq(d0 * x + (d1 - d0) * x * x / 2, uz * (d0 + d1) / 2, 1, "density profile along z");
  }
}

extern "C" void flat_places()
{
  double d0, d1;
  densities(d0, d1);
  SpecieP *s = mk(d0, d1, 1, 1);
  s->fullyfill_spatial_distribution();
  v_check((int)s->particles.size() == v_param("n"), "number of macroparticles");
  check_common(s, d0, d1);
  int outer = (walls & W_OUTER) != 0, right = (walls & W_RIGHT) != 0, n = s->particles.size();
  for (int j = 0; j < n; ++j)
    for (int l = 0; l < j; ++l)
      v_check(s->particles[j]->pos_r != s->particles[l]->pos_r && s->particles[j]->pos_z != s->particles[l]->pos_z, "two particles in one place");
}

extern "C" void centered_places()
{
  double d0, d1;
  densities(d0, d1);
  SpecieP *s = mk(d0, d1, 1, 1);
  int outer = (walls & W_OUTER) != 0, right = (walls & W_RIGHT) != 0;
  int cells = (nr - outer) * (nz - right), per = s->macro_amount / cells;
  s->fullyfill_spatial_distribution();
  v_check((int)s->particles.size() == per * cells, "number of macroparticles");
  check_common(s, d0, d1);
  for (int i = 0; i < nr - outer; ++i)
    for (int k = 0; k < nz - right; ++k)
    {
      int c = 0;
      for (size_t j = 0; j < s->particles.size(); ++j)
      {
        double x = s->particles[j]->pos_r - (i0 + i + 0.5) * dr - MNZL, y = s->particles[j]->pos_z - (k0 + k + 0.5) * dz - MNZL;
        c += x == 0 && y == 0;
      }
      v_check(c == per, "particles per cell centre");
    }
}

// sizes, divided by the cell size, are whole numbers only up to rounding
extern "C" void whole_cells()
{
  dr = pos("dr"); dz = pos("dz"); nr = v_param("nr"); nz = v_param("nz"); i0 = k0 = 0; walls = 15;
  int cells = nr * nz, n = v_fix(isym("amount", 1, 2 * cells + 1));
  Geometry *g = mk_geom(nr, nz, 0, 0, nr, nz, walls, dr, dz);
  const double ulp = 1. / (1L << 52);
  g->size[0] = nr * dr * (1 + sym("er", -2 * ulp, 2 * ulp));
  g->size[1] = nz * dz * (1 + sym("ez", -2 * ulp, 2 * ulp));
  SpecieP *s = new SpecieP(7, "s", -1, 1, n, 1, 1, 1, g, mk_time(1));
  v_check(s->macro_amount == (unsigned)((n + cells - 1) / cells * cells), "smallest number of macroparticles that gives every cell as many");
}

// a lattice of equal steps in both directions that fills the block
extern "C" void regular_places()
{
  double d0, d1;
  densities(d0, d1);
  SpecieP *s = mk(d0, d1, 1, 1);
  s->fullyfill_spatial_distribution();
  check_common(s, d0, d1);
  int outer = (walls & W_OUTER) != 0, right = (walls & W_RIGHT) != 0;
  double step2 = nr * dr * nz * dz / s->macro_amount;        // both steps are its square root
  int n = s->particles.size();
  v_check(n > 0, "number of macroparticles");
  v_check_eq(s->particles[0]->pos_r, (i0 + 0.5) * dr + MNZL, 1, "first lattice place");
  v_check_eq(s->particles[0]->pos_z, (k0 + 0.5) * dz + MNZL, 1, "first lattice place");
  double R = s->particles[0]->pos_r, Z = s->particles[0]->pos_z;
  for (int j = 1; j < n; ++j)
  {
    Particle &p = *s->particles[j];
    bool next = p.pos_z != Z + 0 && p.pos_r == R;
    if (next) v_check_eq((p.pos_z - Z) * (p.pos_z - Z), step2, 1, "lattice step along z");
    else
    {
      v_check_eq((p.pos_r - R) * (p.pos_r - R), step2, 1, "lattice step along r");
      v_check_eq(p.pos_z, s->particles[0]->pos_z, 1, "lattice row starts at the left");
    }
    v_check(next ? p.pos_z > Z : p.pos_r > R, "lattice order");
    R = p.pos_r; Z = p.pos_z;
  }
  double top = (i0 + 0.5 + nr - outer) * dr, end = (k0 + 0.5 + nz - right) * dz;
  v_check((top - R - MNZL) * (top - R - MNZL) < 4 * step2, "lattice reaches the upper border");
  v_check((end - Z - MNZL) * (end - Z - MNZL) < 4 * step2, "lattice reaches the right border");
}

// velocities: each component is a random share of the velocity that belongs to the particle's energy
static double expected_speed(double e, double mass, double share)
{
  double p = e * EL_CHARGE / (mass * LIGHT_VEL);             // momentum per mass of a fast particle
  if (share * p > REL_LIMIT) return share * p / algo::common::sq_rt(1 + share * share * p * p / (LIGHT_VEL * LIGHT_VEL));
  return algo::common::sq_rt(2 * e * EL_CHARGE / mass);
}

extern "C" void velocities()
{
  int n = v_param("n"), kind = v_param("kind");
  double mass = pos("mass"), t = pos("temperature");
  SpecieP *s = mk(1, 1, 1, t);
  s->mass = mass;
  for (int j = 0; j < n; ++j)
  {
    Particle *p = new Particle();
    p->pos_r = any("r", j); p->pos_z = any("z", j); p->weight = any("w", j);
    s->particles.push_back(p);
  }
  int n0 = v_fresh() + 1;
  s->velocity_distribution();
  v_check((int)s->particles.size() == n, "number of macroparticles");
  for (int j = 0; j < n; ++j)
  {
    Particle &p = *s->particles[j];
    double v = kind == 0 ? expected_speed(pos("energy", j), mass, 1) / algo::common::sq_rt(2) : expected_speed(t, mass, 2), c[3] = {p.vel_r, p.vel_phi, p.vel_z};
    for (int d = 0; d < 3; ++d)
    {
      double u = kind == 2 ? 1 : sym("rnd", n0 + 3 * j + d, -1, 1);
      v_check_eq(c[d], u * v, 1, "velocity belongs to the energy and its own random number");
    }
    v_check_eq(p.pos_r, any("r", j), 1, "place changed by velocities");
    v_check_eq(p.pos_z, any("z", j), 1, "place changed by velocities");
    v_check_eq(p.weight, any("w", j), 1, "weight changed by velocities");
  }
}
// nothing may start faster than light
extern "C" void sublight()
{
  double t = pos("temperature");
  SpecieP *s = mk(1, 1, 1, t);
  s->mass = pos("mass");
  Particle *p = new Particle();
  s->particles.push_back(p);
  bool hot = v_param("hot");
  double e = v_param("kind") == 0 ? pos("energy", 0) : t;
  double q = e * EL_CHARGE / (s->mass * LIGHT_VEL) * (v_param("kind") == 0 ? 1 : 2);
  if (hot) v_assume(q > REL_LIMIT); else v_assume(q <= REL_LIMIT);
  s->velocity_distribution();
  double v2 = p->vel_r * p->vel_r + p->vel_phi * p->vel_phi + p->vel_z * p->vel_z;
  v_check(v2 < LIGHT_VEL * LIGHT_VEL, hot ? "relativistic plasma starts below the speed of light" : "plasma starts below the speed of light");
}
