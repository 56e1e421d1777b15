// Field seen by a particle: volume weighting of the four surrounding nodes of each component
//src: maxwellSolver/maxwellSolverYee.cpp
#include "sim.hpp"
#include "maxwellSolver/maxwellSolverYee.hpp"

struct Cur : public Current
{
  Cur(Geometry *g, TimeSim *t) : Current(g, t, {}) {}
  void current_distribution() {}
};

// where the nodes of a component sit, in half cells: {r, z}
static const int AT_E[3][2] = {{1, 0}, {0, 0}, {0, 1}}, AT_H[3][2] = {{0, 1}, {1, 1}, {1, 0}};

struct Place
{
  int ci, ck;         // cell
  double fr, fz;      // place in the cell, 0 <= f < 1
};

// weights of the two nodes around x = c + f (in cells) when nodes sit at j + h/2
static void around(int c, double f, int h, int &j, double &d)
{
  if (!h) { j = c; d = f; }
  else if (f < 0.5) { j = c - 1; d = f + 0.5; }
  else { j = c; d = f - 0.5; }
}

// ring overlap of the particle (one cell wide) with the node's ring over the node's volume, linear in z
static double expected(Grid<double> &g, const int *at, Place p, int i0, int k0)
{
  int j, k;
  double d, e;
  around(p.ci, p.fr, at[0], j, d);
  around(p.ck, p.fz, at[1], k, e);
  double x = j + 0.5 * at[0];                 // lower node, in cells
  double r = x + d;                           // particle
  double lo = ((x + 0.5) * (x + 0.5) - (r - 0.5) * (r - 0.5)) / (2 * x + 1);
  double hi = ((r + 0.5) * (r + 0.5) - (x + 0.5) * (x + 0.5)) / (2 * x + 3);
  j -= i0; k -= k0;
  return (1 - e) * (lo * g(j, k) + hi * g(j + 1, k)) + e * (lo * g(j, k + 1) + hi * g(j + 1, k + 1));
}

extern "C" void gather()
{
  int nr = v_param("nr"), nz = v_param("nz"), i0 = v_param("i0"), k0 = v_param("k0");
  double dr = pos("dr"), dz = pos("dz");
  Geometry *g = mk_geom(nr, nz, i0, k0, i0 + nr, k0 + nz, 0, dr, dz);
  TimeSim *t = mk_time(1);
  MaxwellSolverYee *s = new MaxwellSolverYee(g, t, new Cur(g, t));
  fill3(s->field_e, "E");
  fill3(s->field_h, "H");
  fill3(s->field_h_at_et, "G");
  Place p;
  p.ci = i0 + ifix("ci", 0, nr - 1); p.ck = k0 + ifix("ck", 0, nz - 1);
  p.fr = sym("fr", 0, 1); p.fz = sym("fz", 0, 1);
  v_assume(p.fr < 1 && p.fz < 1);
  if (p.ci == 0) v_assume(p.fr >= 0.5);  // particles stay half a cell off the axis
  double r = (p.ci + p.fr) * dr, z = (p.ck + p.fz) * dz;
  vector3d<double> e = s->get_field_e(r, z), h = s->get_field_h(r, z);
  static const char *le[3] = {"E_r at a particle", "E_phi at a particle", "E_z at a particle"};
  static const char *lh[3] = {"H_r at a particle", "H_phi at a particle", "H_z at a particle"};
  for (int c = 0; c < 3; ++c)
  {
    v_check_eq(e[c], expected(s->field_e[c], AT_E[c], p, i0, k0), 1, le[c]);
    v_check_eq(h[c], expected(s->field_h[c], AT_H[c], p, i0, k0), 1, lh[c]);
  }
}
