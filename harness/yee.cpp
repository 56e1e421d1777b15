// Maxwell solver on the staggered cylindrical grid
//src: maxwellSolver/maxwellSolverYee.cpp
#include "sim.hpp"
#include "maxwellSolver/maxwellSolverYee.hpp"

struct Cur : public Current
{
  Cur(Geometry *g, TimeSim *t) : Current(g, t, {}) {}
  void current_distribution() {}
};

struct World
{
  int nr, nz, i0, k0, walls;
  double dr, dz, dt;
  Geometry *g;
  TimeSim *t;
  Cur *c;
  MaxwellSolverYee *s;
  World()
  {
    nr = v_param("nr"); nz = v_param("nz"); i0 = v_param("i0"); k0 = v_param("k0"); walls = v_param("walls");
    dr = pos("dr"); dz = pos("dz"); dt = pos("dt");
    g = mk_geom(nr, nz, i0, k0, i0 + nr + ((walls & W_OUTER) ? 0 : nr), k0 + nz + ((walls & W_RIGHT) ? 0 : nz), walls, dr, dz);
    t = mk_time(dt);
    c = new Cur(g, t);
    s = new MaxwellSolverYee(g, t, c);
  }
  double E(int c, int i, int k) { return s->field_e(c, i, k); }
  double H(int c, int i, int k) { return s->field_h_at_et(c, i, k); }
  bool lo_r() { return walls & W_AXIS; }
  bool lo_z() { return walls & W_LEFT; }
  bool hi_r() { return walls & W_OUTER; }
  bool hi_z() { return walls & W_RIGHT; }
  // azimuthal E on the outer conductor (and beyond any conductor) is zero
  void conductors()
  {
    for (int i = -2; i < nr + 2; ++i)
      for (int k = -2; k < nz + 2; ++k)
        for (int c = 0; c < 3; ++c)
        {
          bool z = false;
          if (hi_r() && i >= nr - 1) z = true;
          if (hi_z() && k >= nz - 1) z = true;
          if (lo_z() && (k < 0 || (k == 0 && c != 2))) z = true;
          if (lo_r() && (i < 0 || (i == 0 && c == 1))) z = true;
          if (z) s->field_e[c].set(i, k, 0.);
        }
  }
};

// Faraday's law in integral form on every cell face; H^n is the mean of H^{n-1/2} and H^{n+1/2}
extern "C" void faraday()
{
  World w;
  fill3(w.s->field_e, "E");
  fill3(w.s->field_h_at_et, "H");
  fill3(w.s->field_h, "Hold");
  w.conductors();
  Grid3D<double> e0 = snap3(w.s->field_e), h0 = snap3(w.s->field_h_at_et);
  w.s->calc_field_h();
  double mu = constant::MAGN_CONST, dr = w.dr, dz = w.dz, dt = w.dt;
  for (int i = 0; i < w.nr; ++i)
    for (int k = 0; k < w.nz; ++k)
    {
      double g = i + w.i0;
      v_check_eq(mu * (w.H(0, i, k) - h0(0, i, k)) * dz, dt * (e0(1, i, k + 1) - e0(1, i, k)), 1, "Faraday r");
      v_check_eq(mu * (w.H(1, i, k) - h0(1, i, k)) * dr * dz,
                 dt * ((e0(2, i + 1, k) - e0(2, i, k)) * dz - (e0(0, i, k + 1) - e0(0, i, k)) * dr), 1, "Faraday phi");
      v_check_eq(mu * (w.H(2, i, k) - h0(2, i, k)) * (g + 0.5) * dr, -dt * ((g + 1) * e0(1, i + 1, k) - g * e0(1, i, k)), 1,
                 "Faraday z");
      for (int c = 0; c < 3; ++c)
      {
        v_check_eq(w.s->field_h(c, i, k), (w.H(c, i, k) + h0(c, i, k)) / 2, 1, "H at integer time is the mean");
        v_check_eq(w.E(c, i, k), e0(c, i, k), 1, "E kept by the H update");
      }
    }
}

static double div_h(World &w, Grid3D<double> &h, int i, int k)
{
  double g = i + w.i0;
  return ((g + 1) * h(0, i + 1, k) - g * h(0, i, k)) / ((g + 0.5) * w.dr) + (h(2, i, k + 1) - h(2, i, k)) / w.dz;
}

// no magnetic charge is ever created: discrete div H is carried unchanged, over several steps
extern "C" void div_h_kept()
{
  World w;
  fill3(w.s->field_e, "E");
  fill3(w.s->field_h_at_et, "H");
  fill3(w.c->current, "J");
  w.conductors();
  Grid3D<double> h0 = snap3(w.s->field_h_at_et);
  w.s->calc_field_h();
  Grid3D<double> &h1 = w.s->field_h_at_et;
  for (int i = 0; i < w.nr - 1; ++i)
    for (int k = 0; k < w.nz - 1; ++k)
      v_check_eq(div_h(w, h1, i, k), div_h(w, h0, i, k), 1, "div H changed");
  if (w.walls == 15)
  {
    for (int n = 0; n < v_param("steps"); ++n) { w.s->calc_field_e(); w.s->calc_field_h(); }
    for (int i = 0; i < w.nr - 1; ++i)
      for (int k = 0; k < w.nz - 1; ++k)
        v_check_eq(div_h(w, h1, i, k), div_h(w, h0, i, k), 1, "div H changed after E and H steps");
  }
}

static void any_sigma(World &w)
{
  for (int i = 0; i < w.nr; ++i)
    for (int k = 0; k < w.nz; ++k)
    {
      double x = any("sig", i * 100 + k);
      v_assume(x >= 0);
      w.s->sigma.set(i, k, x);
    }
}

static void ampere1(World &w, Grid3D<double> &e0, int c, int i, int k, double curl, const char *l)
{
#ifdef ENABLE_PML
  double sg = w.s->sigma(i, k);
#else
  double sg = 0;
#endif
  double e2 = 2 * constant::EPSILON0;
  v_check_eq((e2 + sg * w.dt) * w.E(c, i, k), (e2 - sg * w.dt) * e0(c, i, k) - 2 * w.dt * (w.c->current(c, i, k) - curl), 1, l);
}

// Ampere's law with conductivity at every node, on the axis too; conductor nodes stay put
extern "C" void ampere()
{
  World w;
  fill3(w.s->field_e, "E");
  fill3(w.s->field_h_at_et, "H");
  fill3(w.c->current, "J");
#ifdef ENABLE_PML
  any_sigma(w);
#endif
  Grid3D<double> e0 = snap3(w.s->field_e), h = snap3(w.s->field_h_at_et), j0 = snap3(w.c->current);
  w.s->calc_field_e();
  double dr = w.dr, dz = w.dz;
  for (int i = 0; i < w.nr; ++i)
    for (int k = 0; k < w.nz; ++k)
    {
      double g = i + w.i0;
      bool hi = (w.hi_r() && i == w.nr - 1) || (w.hi_z() && k == w.nz - 1);
      bool lz = w.lo_z() && k == 0, lr = w.lo_r() && i == 0;
      double cr = -(h(1, i, k) - h(1, i, k - 1)) / dz;
      double cp = (h(0, i, k) - h(0, i, k - 1)) / dz - (h(2, i, k) - h(2, i - 1, k)) / dr;
      if (hi || lz) v_check_eq(w.E(0, i, k), e0(0, i, k), 1, "conductor node E_r moved");
      else ampere1(w, e0, 0, i, k, cr, "Ampere r");
      if (hi || lz || lr) v_check_eq(w.E(1, i, k), e0(1, i, k), 1, "conductor or axis node E_phi moved");
      else ampere1(w, e0, 1, i, k, cp, "Ampere phi");
      if (hi) v_check_eq(w.E(2, i, k), e0(2, i, k), 1, "conductor node E_z moved");
      else if (lr && lz) ;
      else if (lr) ampere1(w, e0, 2, i, k, 4 * h(1, i, k) / dr, "Ampere z on the axis");
      else ampere1(w, e0, 2, i, k, ((g + 0.5) * h(1, i, k) - (g - 0.5) * h(1, i - 1, k)) / (g * dr), "Ampere z");
      for (int c = 0; c < 3; ++c)
      {
        v_check_eq(w.H(c, i, k), h(c, i, k), 1, "H kept by the E update");
        v_check_eq(w.c->current(c, i, k), j0(c, i, k), 1, "current kept by the E update");
      }
    }
}

static double div(World &w, Grid3D<double> &f, int i, int k)
{
  double g = i + w.i0;
  double z = (f(2, i, k) - f(2, i, k - 1)) / w.dz;
  if (i + w.i0 == 0) return 4 * f(0, i, k) / w.dr + z;
  return ((g + 0.5) * f(0, i, k) - (g - 0.5) * f(0, i - 1, k)) / (g * w.dr) + z;
}

// Gauss' law is carried by the field update: eps * d(div E) = -dt * div J, away from conductors
extern "C" void gauss()
{
  World w;
  fill3(w.s->field_e, "E");
  fill3(w.s->field_h_at_et, "H");
  fill3(w.c->current, "J");
#ifdef ENABLE_PML
  w.s->sigma = 0.;
#endif
  Grid3D<double> e0 = snap3(w.s->field_e), j0 = snap3(w.c->current);
  w.s->calc_field_e();
  int lo_i = w.lo_r() ? 0 : 1, lo_k = (w.lo_z() ? 2 : 1);
  int hi_i = w.nr - (w.hi_r() ? 1 : 0), hi_k = w.nz - (w.hi_z() ? 1 : 0);
  for (int i = lo_i; i < hi_i; ++i)
    for (int k = lo_k; k < hi_k; ++k)
      v_check_eq(constant::EPSILON0 * (div(w, w.s->field_e, i, k) - div(w, e0, i, k)), -w.dt * div(w, j0, i, k), 1,
                 "Gauss law drifted");
}

// field energy of a closed conducting box: changes only by the work of the current and the losses in the layer
static double dots(World &w, Grid3D<double> &a, Grid3D<double> &b, bool el)
{
  double s = 0;
  for (int i = 0; i < w.nr; ++i)
    for (int k = 0; k < w.nz; ++k)
      for (int c = 0; c < 3; ++c)
      {
        bool half = el ? c == 0 : c != 0;
        double wt = half ? i + 0.5 : i;
        if (el && c == 2 && i == 0) wt = 0.125;
        s += wt * a(c, i, k) * b(c, i, k);
      }
  return s;
}

extern "C" void energy()
{
  World w;
  fill3(w.s->field_e, "E");
  fill3(w.s->field_h_at_et, "H");
  int withj = v_param("j");
  if (withj) fill3(w.c->current, "J");
  w.conductors();
  w.s->field_e[2].set(0, 0, 0.);
  Grid3D<double> &h = w.s->field_h_at_et, &e = w.s->field_e;
#ifdef ENABLE_PML
  if (v_param("sig")) any_sigma(w);
#endif
  Grid3D<double> e0 = snap3(e), h0 = snap3(h);
  w.s->calc_field_h();
  Grid3D<double> h1 = snap3(h);
  w.s->calc_field_e();
  w.s->field_e.overlay_set(0.);
  w.s->calc_field_h();
  double ep = constant::EPSILON0, mu = constant::MAGN_CONST;
  double w0 = ep / 2 * dots(w, e0, e0, true) + mu / 2 * dots(w, h0, h1, false);
  double w1 = ep / 2 * dots(w, e, e, true) + mu / 2 * dots(w, h1, h, false);
  double work = 0;
  for (int i = 0; i < w.nr - 1; ++i)
    for (int k = 0; k < w.nz - 1; ++k)
      for (int c = 0; c < 3; ++c)
      {
        if (k == 0 && c != 2) continue;
        if (i == 0 && c == 1) continue;
        if (i == 0 && k == 0) continue;
        double wt = c == 0 ? i + 0.5 : i;
        if (c == 2 && i == 0) wt = 0.125;
        double m = (e(c, i, k) + e0(c, i, k)) / 2;
        double sg = 0;
#ifdef ENABLE_PML
        sg = w.s->sigma(i, k);
#endif
        work += wt * m * (sg * m + w.c->current(c, i, k));
      }
  v_check_eq(w1 - w0, -w.dt * work, 1, "field energy balance");
}

// ---- absorbing layer --------------------------------------------------------------------------------------------
extern "C" void pml_profile()
{
  int gnr = v_param("gnr"), gnz = v_param("gnz"), i0 = v_param("i0"), k0 = v_param("k0"), nr = v_param("nr"), nz = v_param("nz");
  size_t pl = v_param("pl"), pr = v_param("pr"), po = v_param("po");
  double dr = pos("dr"), dz = pos("dz"), s1 = any("s1"), s2 = any("s2");
  v_assume(s1 >= 0);
  v_assume(s2 >= s1);
  TimeSim *t = mk_time(pos("dt"));
  Geometry *g = new Geometry({nr * dr, nz * dz}, {gnr * dr, gnz * dz},
                             {(size_t)i0, (size_t)k0, (size_t)(i0 + nr), (size_t)(k0 + nz)},
                             {0, pl, po, pr}, {s1, s2}, {i0 == 0, k0 == 0, i0 + nr == gnr, k0 + nz == gnz});
  Cur *c = new Cur(g, t);
  MaxwellSolverYee *s = new MaxwellSolverYee(g, t, c);
  // the same layer seen by a solver that covers the whole area
  Geometry *gw = new Geometry({gnr * dr, gnz * dz}, {gnr * dr, gnz * dz}, {0, 0, (size_t)gnr, (size_t)gnz},
                              {0, pl, po, pr}, {s1, s2}, {true, true, true, true});
  Cur *cw = new Cur(gw, t);
  MaxwellSolverYee *sw = new MaxwellSolverYee(gw, t, cw);
  for (int i = 0; i < nr; ++i)
    for (int k = 0; k < nz; ++k)
    {
      double x = s->sigma(i, k);
      int gi = i + i0, gk = k + k0;
      int dl = (int)pl - gk, dR = gk + 1 - (gnz - (int)pr), dO = gi + 1 - (gnr - (int)po); // depth in cells, > 0: inside
      bool il = dl > 0, ir = dR > 1, io = dO > 1;
      double want = 0;
      if (il) want += s1 + (s2 - s1) * dl * dl / (double)(pl * pl);
      if (ir) want += s1 + (s2 - s1) * dR * dR / (double)(pr * pr);
      if (io) want += s1 + (s2 - s1) * dO * dO / (double)(po * po);
      if (!il && dR <= 0 && dO <= 0) v_check_eq(x, 0, 1, "conductivity outside the absorbing layer");
      v_check_le(0, x, 1, "negative conductivity");
      v_check_le(x, (il + (dR > 0) + (dO > 0)) * s2, 1, "conductivity above the configured maximum");
      v_check_eq(x, want, 1, "quadratic profile");
      v_check_eq(x, sw->sigma(gi, gk), 1, "layer depends on the decomposition");
    }
}
