// Currents deposited by moving particles, charge conserving scheme
//src: specieP.cpp algo/common.cpp phys/rel.cpp math/maxwellJuettner.cpp current/currentVB.cpp
#include "rnd.hpp"
#include "sim.hpp"
#include "specieP.hpp"
#include "current/currentVB.hpp"

using namespace constant;

static double dr, dz, dt;
static int nr, nz, i0, k0;

struct Move { double ro, zo, rn, zn; };     // in cells, global

static double charge_of_node(double r, double z, int i, int k)
{
  int a = (int)floor(r), b = (int)floor(z), di = i - a, dk = k - b;
  if (di < 0 || di > 1 || dk < 0 || dk > 1) return 0;
  double m = a + 0.5, s = di ? ((r + 0.5) * (r + 0.5) - m * m) : (m * m - (r - 0.5) * (r - 0.5));
  return s / (2 * r) * (dk ? z - b : 1 - (z - b));
}

struct Set
{
  Geometry *g;
  TimeSim *t;
  vector<SpecieP *> sp;
  CurrentVB *c;
  Grid3D<double> was;
};

static Set mk(int ns = 1)
{
  Set s;
  dr = pos("dr"); dz = pos("dz"); dt = pos("dt");
  nr = v_param("nr"); nz = v_param("nz"); i0 = v_param("i0"); k0 = v_param("k0");
  s.g = mk_geom(nr, nz, i0, k0, i0 + nr, k0 + nz, 0, dr, dz);
  s.t = mk_time(dt);
  for (int i = 0; i < ns; ++i)
  {
    SpecieP *p = new SpecieP(i + 1, "s", 1, 1, 1, 1, 1, 1, s.g, s.t);
    p->charge = any("q", i);
    s.sp.push_back(p);
  }
  s.c = new CurrentVB(s.g, s.t, s.sp);
  return s;
}
static Particle *put(SpecieP *s, Move m, double w, double vphi)
{
  Particle *q = new Particle();
  q->pos_old_r = m.ro * dr; q->pos_old_z = m.zo * dz; q->pos_r = m.rn * dr; q->pos_z = m.zn * dz;
  q->weight = w; q->vel_phi = vphi; q->vel_r = (m.rn - m.ro) * dr / dt; q->vel_z = (m.zn - m.zo) * dz / dt;
  s->particles.push_back(q);
  return q;
}
// what is already there (currents of earlier particles) is arbitrary inside, the halo starts at zero
static void prefill(Set &s)
{
  for (int c = 0; c < 3; ++c)
    for (int i = 0; i < nr; ++i)
      for (int k = 0; k < nz; ++k) s.c->current[c].set(i, k, any("j", c * 10000 + i * 100 + k));
  s.was = snap3(s.c->current);
}

static double area_z(int i) { return i > 0 ? 2 * PI * i * dr * dr : PI * dr * dr / 4; }
static double area_r(int i) { return 2 * PI * (i + 0.5) * dr * dz; }

// every node loses exactly the charge that flows out of it, total current belongs to the displacement
static void check_rz(Set &s, vector<Move> mv, vector<double> q)
{
  int h = s.c->current[0].o_s;
  Grid3D<double> &J = s.c->current;
  auto d = [&](int c, int i, int k) { return i < -h || k < -h ? 0. : J(c, i, k) - s.was(c, i, k); };
  double tz = 0, ez = 0;
  for (int i = -h; i < nr + h; ++i)
    for (int k = -h; k < nz + h; ++k)
    {
      int gi = i0 + i, gk = k0 + k;
      if (gi < 0) continue;
      double out = d(0, i, k) * area_r(gi) + (d(2, i, k) - d(2, i, k - 1)) * area_z(gi), loss = 0;
      if (gi > 0) out -= d(0, i - 1, k) * area_r(gi - 1);
      for (size_t n = 0; n < mv.size(); ++n)
        loss += q[n] * (charge_of_node(mv[n].ro, mv[n].zo, gi, gk) - charge_of_node(mv[n].rn, mv[n].zn, gi, gk));
      v_check_eq(out * dt, loss, 1, "charge leaving a node");
      tz += d(2, i, k) * area_z(gi) * dz;
    }
  for (size_t n = 0; n < mv.size(); ++n) ez += q[n] * (mv[n].zn - mv[n].zo) * dz / dt;
  v_check_eq(tz, ez, 1, "total longitudinal current");
}

static double between(const char *n, int i) { double f = sym(n, i, 0, 1); v_assume(f < 1); return f; }

// a move from cell (i, k) - (di, dk) to cell (i, k); every part of the track within one cell is longer than the
// smallest length the program knows (or nothing at all)
static Move move(int n, int i, int k, int di, int dk)
{
  Move m;
  m.ro = i - di + between("fro", n); m.zo = k - dk + between("fzo", n);
  m.rn = i + between("frn", n); m.zn = k + between("fzn", n);
  v_assume((m.ro >= 0.5) & (m.rn >= 0.5));
  double lr = (m.rn - m.ro) * dr, lz = (m.zn - m.zo) * dz;
  lr = lr < 0 ? -lr : lr;
  lz = lz < 0 ? -lz : lz;
  v_assume(lr >= MNZL);
  v_assume(lz >= MNZL);
  double a = 0, b = 0;
  if (di) { a = ((di > 0 ? i : i + 1) - m.ro) / (m.rn - m.ro); }
  if (dk) { b = ((dk > 0 ? k : k + 1) - m.zo) / (m.zn - m.zo); }
  double seg[3];
  int ns = 0;
  if (di && dk)
  {
    if (a <= b) { seg[0] = a; seg[1] = b - a; seg[2] = 1 - b; } else { seg[0] = b; seg[1] = a - b; seg[2] = 1 - a; }
    ns = 3;
  }
  else if (di) { seg[0] = a; seg[1] = 1 - a; ns = 2; }
  else if (dk) { seg[0] = b; seg[1] = 1 - b; ns = 2; }
  for (int j = 0; j < ns; ++j) v_assume((seg[j] == 0) | ((seg[j] * lr >= MNZL) & (seg[j] * lz >= MNZL)));
  return m;
}

static void run(Set &s)
{
  for (size_t i = 0; i < s.sp.size(); ++i) s.sp[i]->bind_cell_numbers();
  s.c->current_distribution();
}

extern "C" void oblique()
{
  Set s = mk();
  Move m = move(0, i0 + v_param("i"), k0 + v_param("k"), v_param("di"), v_param("dk"));
  double w = pos("w");
  put(s.sp[0], m, w, 0);
  prefill(s);
  run(s);
  check_rz(s, {m}, {s.sp[0]->charge * w});
}

// along one axis only, or not at all
extern "C" void straight()
{
  Set s = mk();
  int i = i0 + v_param("i"), k = k0 + v_param("k"), d = v_param("d"), dir = v_param("dir");
  Move m;
  m.rn = i + between("frn", 0); m.zn = k + between("fzn", 0);
  m.ro = m.rn; m.zo = m.zn;
  if (dir == 0) m.ro = i - d + between("fo", 0);
  if (dir == 1) m.zo = k - d + between("fo", 0);
  v_assume((m.ro >= 0.5) & (m.rn >= 0.5));
  double l = dir == 0 ? (m.rn - m.ro) * dr : (m.zn - m.zo) * dz;
  l = l < 0 ? -l : l;
  if (dir < 2) v_assume(l >= MNZL);
  double w = pos("w");
  put(s.sp[0], m, w, 0);
  prefill(s);
  run(s);
  check_rz(s, {m}, {s.sp[0]->charge * w});
}

// several species and particles add up
extern "C" void many()
{
  Set s = mk(2);
  int i = i0, k = k0;
  Move a = move(0, i + 1, k, 0, 0), b;
  b.rn = i + 1 + between("frn", 1); b.ro = b.rn; b.zo = k + between("fzo", 1); b.zn = k + between("fzn", 1);
  v_assume((b.zn - b.zo) * dz >= MNZL);
  double w[3] = {pos("w", 0), pos("w", 1), pos("w", 2)};
  put(s.sp[0], a, w[0], 0); put(s.sp[0], b, w[1], 0); put(s.sp[1], b, w[2], 0);
  prefill(s);
  run(s);
  check_rz(s, {a, b, b}, {s.sp[0]->charge * w[0], s.sp[0]->charge * w[1], s.sp[1]->charge * w[2]});
}

// further than into the next cell: nothing can be deposited, and nothing else is disturbed
extern "C" void too_far()
{
  Set s = mk();
  int dir = v_param("dir"), d = v_param("d");
  Move m;
  m.rn = i0 + 1 + between("frn", 0); m.zn = k0 + 1 + between("fzn", 0);
  m.ro = m.rn + (dir == 0 ? d : sym("go", -1, 1)); m.zo = m.zn + (dir == 1 ? d : sym("go", -1, 1));
  v_assume(m.ro >= 0.5);
  put(s.sp[0], m, pos("w"), 0);
  prefill(s);
  run(s);
  for (int c = 0; c < 3; ++c)
    for (int i = 0; i < nr; ++i)
      for (int k = 0; k < nz; ++k) v_check_eq(s.c->current(c, i, k), s.was(c, i, k), 1, "deposit of a particle that jumped over a cell");
}

// azimuthal current: charge times v_phi, spread like the density from the middle of the move
extern "C" void azimuthal()
{
  Set s = mk(2);
  int i = i0 + v_param("i"), k = k0 + v_param("k"), di = v_param("di"), dk = v_param("dk");
  Move m;
  m.ro = i - di + between("fro", 0); m.zo = k - dk + between("fzo", 0);
  m.rn = i + between("frn", 0); m.zn = k + between("fzn", 0);
  v_assume((m.ro >= 0.5) & (m.rn >= 0.5));
  double w[2] = {pos("w", 0), pos("w", 1)}, v[2] = {any("v", 0), any("v", 1)}, e = 0;
  for (int j = 0; j < 2; ++j) { put(s.sp[j], m, w[j], v[j]); e += s.sp[j]->charge * w[j] * v[j]; }
  prefill(s);
  run(s);
  double r = (m.ro + m.rn) / 2, z = (m.zo + m.zn) / 2;
  int h = s.c->current[1].o_s;
  for (int a = -h; a < nr + h; ++a)
    for (int b = -h; b < nz + h; ++b)
    {
      if (i0 + a < 0) continue;
      double vol = PI * dz * dr * dr * (2 * (i0 + a) + 1);
      v_check_eq((s.c->current(1, a, b) - s.was(1, a, b)) * vol, e * charge_of_node(r, z, i0 + a, k0 + b), 1, "azimuthal current of a node");
    }
}
