// Fixtures: the simulated area divided into domains
#ifndef V_SMB_HPP
#define V_SMB_HPP
#include "rnd.hpp"
#include "sim.hpp"
#include <new>
#include "SMB.hpp"
#if defined(SWITCH_CCS_ZIGZAG)
#include "current/currentZigZag.hpp"
typedef CurrentZigZag Scheme;
#else
#include "current/currentVB.hpp"
typedef CurrentVB Scheme;
#endif
#include "maxwellSolver/maxwellSolverYee.hpp"

static Cfg *mk_cfg()
{
  Cfg *c = (Cfg *)calloc(1, sizeof(Cfg));
  new (&c->particle_species) vector<particle_specie>();
  new (&c->particle_beams) vector<particle_beam>();
  new (&c->external_fields) vector<external_field>();
  return c;
}

struct Area
{
  int nr, nz, walls, pr, pz, pl;
  double dr, dz, dt, s0, s1;
  TimeSim *t;
  Cfg *cfg;
  Area()
  {
    nr = v_param("nr"); nz = v_param("nz"); walls = v_param("walls"); pr = v_param("pml_r"); pz = v_param("pml_z"); pl = v_param("pml_l");
    dr = pos("dr"); dz = pos("dz"); dt = pos("dt"); s0 = pos("s0"); s1 = pos("s1");
    t = mk_time(dt);
    cfg = mk_cfg();
  }
  Geometry *geometry()
  {
    std::vector<double> size = {nr * dr, nz * dz};
    std::vector<size_t> dims = {0, 0, (size_t)nr, (size_t)nz}, pml = {0, (size_t)pl, (size_t)pr, (size_t)pz};
    std::vector<bool> w = {(walls & W_AXIS) != 0, (walls & W_LEFT) != 0, (walls & W_OUTER) != 0, (walls & W_RIGHT) != 0};
    return new Geometry(size, size, dims, pml, {s0, s1}, w);
  }
  SMB *block(int domains_r, int domains_z)
  {
    Geometry *g = geometry();
    g->domains_amount = {(size_t)domains_r, (size_t)domains_z};
    return new SMB(cfg, g, t, 0, 1);
  }
};

static MaxwellSolver *solver(SMB *b, int i, int j) { return b->domains(i, j)->maxwell_solver; }
static int nrd(SMB *b) { return b->geometry->cell_amount[0] / b->r_domains; }
static int nzd(SMB *b) { return b->geometry->cell_amount[1] / b->z_domains; }

// the undivided area: a solver of its own
struct Whole
{
  Current *current;
  MaxwellSolverYee *solver;
  Whole(Area &a)
  {
    Geometry *g = a.geometry();
    g->domains_amount = {1, 1};
    current = new Scheme(g, a.t, {});
    solver = new MaxwellSolverYee(g, a.t, current);
  }
  Grid3D<double> &grid(int f) { return f == 0 ? solver->field_e : f == 1 ? solver->field_h : f == 2 ? solver->field_h_at_et : current->current; }
  void fill(int f, const char *name)
  {
    Geometry *g = solver->geometry;
    for (int c = 0; c < 3; ++c)
      for (int k = 0; k < (int)g->cell_amount[0]; ++k)
        for (int l = 0; l < (int)g->cell_amount[1]; ++l) grid(f)[c].set(k, l, any(name, c * 10000 + k * 100 + l));
  }
  void step() { solver->calc_field_e(); solver->calc_field_h(); }
};

enum Field { E, H, HT, J };
static Grid3D<double> &grid(SMB *b, int i, int j, int f)
{
  Domain *d = b->domains(i, j);
  if (f == E) return d->maxwell_solver->field_e;
  if (f == H) return d->maxwell_solver->field_h;
  if (f == HT) return d->maxwell_solver->field_h_at_et;
  return d->current->current;
}
// a free field of the whole area, seen by every domain (halo: the neighbour's nodes)
static void fill_all(SMB *b, int f, const char *name)
{
  int R = b->geometry->cell_amount[0], Z = b->geometry->cell_amount[1];
  for (int i = 0; i < (int)b->r_domains; ++i)
    for (int j = 0; j < (int)b->z_domains; ++j)
      for (int c = 0; c < 3; ++c)
        for (int k = -2; k < nrd(b) + 2; ++k)
          for (int l = -2; l < nzd(b) + 2; ++l)
          {
            int gk = k + i * nrd(b), gl = l + j * nzd(b);
            if (gk >= 0 && gl >= 0 && gk < R && gl < Z) grid(b, i, j, f)[c].set(k, l, any(name, c * 10000 + gk * 100 + gl));
          }
}

static void species(Cfg *c, int n)
{
  for (int i = 0; i < n; ++i)
  {
    particle_specie s = particle_specie();
    s.id = 7 + 5 * i; s.name = i ? "ions" : "electrons"; s.mass = i ? 1836 : 1; s.charge = i ? 1 : -1; s.macro_amount = 48 * (i + 1);
    s.left_density = pos("ld", i); s.right_density = pos("rd", i); s.temperature = pos("temp", i);
    c->particle_species.push_back(s);
  }
}
static void beams(Cfg *c, int n, int bunches)
{
  for (int i = 0; i < n; ++i)
  {
    particle_beam b = particle_beam();
    b.id = 2000 + i; b.name = "beam"; b.mass = 1; b.charge = -1; b.macro_amount = 10 + i; b.velocity = pos("bv", i); b.density = pos("bd", i);
    b.bunches_amount = bunches; b.start_time = pos("bs", i); b.bunches_distance = pos("bx", i); b.bunch_length = pos("bl", i); b.bunch_radius = pos("br", i);
    c->particle_beams.push_back(b);
  }
}
#endif
