// Currents deposited by moving particles, zigzag scheme
//src: specieP.cpp algo/common.cpp phys/rel.cpp math/maxwellJuettner.cpp current/currentZigZag.cpp
#include "rnd.hpp"
#include "sim.hpp"
#include "specieP.hpp"
#include "current/currentZigZag.hpp"

using namespace constant;

static double between(const char *n, int i) { double f = sym(n, i, 0, 1); v_assume(f < 1); return f; }

// turning point of the zigzag: the shared border if the cell changes, the middle otherwise
static double relay(int o, int n, double xo, double xn)
{
  return o == n ? (xo + xn) / 2 : (o < n ? n : o);
}

struct Case
{
  int io, ko, in, kn;
  double ro, zo, rn, zn, q, v;
};

static double dr, dz, dt;
static int nr, nz, i0, k0;

// what each case adds to node (i, k) of component c
static double expected(const Case &m, int c, int i, int k)
{
  double mid = (m.ro + m.rn) / 2;
  double vol = PI * dz * dr * dr * (2 * (int)floor(mid) + 1);
  double rr = relay(m.io, m.in, m.ro, m.rn), rz = relay(m.ko, m.kn, m.zo, m.zn), s = 0;
  for (int seg = 0; seg < 2; ++seg)
  {
    int a = seg ? m.in : m.io, b = seg ? m.kn : m.ko;
    double r1 = seg ? rr : m.ro, r2 = seg ? m.rn : rr, z1 = seg ? rz : m.zo, z2 = seg ? m.zn : rz;
    double wr = (r1 + r2) / 2 - a, wz = (z1 + z2) / 2 - b;
    double nr_ = i == a ? 1 - wr : i == a + 1 ? wr : 0, nz_ = k == b ? 1 - wz : k == b + 1 ? wz : 0;
    if (c == 0 && i == a) s += (r2 - r1) * dr / dt * nz_;
    if (c == 2 && k == b) s += (z2 - z1) * dz / dt * nr_;
    if (c == 1 && seg) s += m.v * nr_ * nz_;
  }
  return m.q * s / vol;
}

extern "C" void deposit()
{
  dr = pos("dr"); dz = pos("dz"); dt = pos("dt");
  nr = v_param("nr"); nz = v_param("nz"); i0 = v_param("i0"); k0 = v_param("k0");
  int n = v_param("n");
  Geometry *g = mk_geom(nr, nz, i0, k0, i0 + nr, k0 + nz, 0, dr, dz);
  TimeSim *t = mk_time(dt);
  vector<SpecieP *> sp;
  for (int j = 0; j < n; ++j)
  {
    SpecieP *p = new SpecieP(j + 1, "s", 1, 1, 1, 1, 1, 1, g, t);
    p->charge = any("q", j);
    sp.push_back(p);
  }
  CurrentZigZag *c = new CurrentZigZag(g, t, sp);
  Case m[2];
  for (int j = 0; j < n; ++j)
  {
    // the second particle stays in its cell
    m[j].in = i0 + (j ? 0 : v_param("i")); m[j].kn = k0 + (j ? 0 : v_param("k"));
    m[j].io = m[j].in - (j ? 0 : v_param("di")); m[j].ko = m[j].kn - (j ? 0 : v_param("dk"));
    m[j].ro = m[j].io + between("fro", j); m[j].zo = m[j].ko + between("fzo", j);
    m[j].rn = m[j].in + between("frn", j); m[j].zn = m[j].kn + between("fzn", j);
    v_assume((m[j].ro >= 0.5) & (m[j].rn >= 0.5));
    double w = pos("w", j);
    m[j].q = sp[j]->charge * w;
    m[j].v = any("v", j);
    Particle *q = new Particle();
    q->pos_old_r = m[j].ro * dr; q->pos_old_z = m[j].zo * dz; q->pos_r = m[j].rn * dr; q->pos_z = m[j].zn * dz;
    q->weight = w; q->vel_phi = m[j].v;
    sp[j]->particles.push_back(q);
    sp[j]->bind_cell_numbers();
  }
  for (int k = 0; k < 3; ++k)
    for (int i = 0; i < nr; ++i)
      for (int j = 0; j < nz; ++j) c->current[k].set(i, j, any("j", k * 10000 + i * 100 + j));
  Grid3D<double> was = snap3(c->current);
  c->current_distribution();
  static const char *label[3] = {"radial zigzag current", "azimuthal zigzag current", "longitudinal zigzag current"};
  int h = c->current[0].o_s;
  for (int k = 0; k < 3; ++k)
    for (int i = -h; i < nr + h; ++i)
      for (int j = -h; j < nz + h; ++j)
      {
        double e = 0;
        for (int l = 0; l < n; ++l) e += expected(m[l], k, i0 + i, k0 + j);
        v_check_eq(c->current(k, i, j) - was(k, i, j), e, 1, label[k]);
      }
}

// charge flowing out of the nodes of one cell during a move inside it, linear charge sharing
extern "C" void continuity()
{
  dr = pos("dr"); dz = pos("dz"); dt = pos("dt");
  Geometry *g = mk_geom(3, 3, 2, 0, 8, 8, 0, dr, dz);
  TimeSim *t = mk_time(dt);
  SpecieP *p = new SpecieP(1, "s", 1, 1, 1, 1, 1, 1, g, t);
  p->charge = 1;
  CurrentZigZag *c = new CurrentZigZag(g, t, {p});
  double fo = between("fro", 0), fn = between("frn", 0), zo = between("fzo", 0), zn = between("fzn", 0);
  Particle *q = new Particle();
  q->pos_old_r = (3 + fo) * dr; q->pos_old_z = (1 + zo) * dz; q->pos_r = (3 + fn) * dr; q->pos_z = (1 + zn) * dz;
  q->weight = 1;
  p->particles.push_back(q);
  p->bind_cell_numbers();
  c->current_distribution();
  Grid3D<double> &J = c->current;
  double out = J(0, 1, 1) * 2 * PI * 3.5 * dr * dz + J(2, 1, 1) * 2 * PI * 3 * dr * dr;
  v_check_eq(out * dt, (1 - fo) * (1 - zo) - (1 - fn) * (1 - zn), 1, "zigzag current conserves charge");
}
