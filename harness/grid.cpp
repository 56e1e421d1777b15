// Halo exchange between neighbouring grids (algo/grid.hpp, algo/grid3d.hpp)
#include "v.hpp"
#include "algo/grid.hpp"
#include "algo/grid3d.hpp"

static Grid<double> mk(const char *name, int nx, int ny, double old[16][16])
{
  Grid<double> g(nx, ny, 2);
  double **p = g.get_grid();
  for (int i = 0; i < nx + 4; ++i)
    for (int j = 0; j < ny + 4; ++j)
      old[i][j] = p[i][j] = any(name, i * 100 + j);
  return g;
}

static double a0[16][16], b0[16][16];

static void same(Grid<double> g, double old[16][16], int i, int j, const char *l)
{
  v_check_eq(g.get_grid()[i][j], old[i][j], 1, l);
}

extern "C" void overlay_x()
{
  int nx = v_param("nx"), ny = v_param("ny"), mx = v_param("mx");
  Grid<double> A = mk("a", nx, ny, a0), B = mk("b", mx, ny, b0);
  A.overlay_x(B);
  for (int i = 0; i < nx + 4; ++i)
    for (int j = 0; j < ny + 4; ++j)
      if (i >= nx && j >= 2 && j < ny + 2)
      {
        double s = a0[i][j] + b0[i - nx][j];
        v_check_eq(A.get_grid()[i][j], s, 1, "lower grid: shared cell holds the sum");
        v_check_eq(B.get_grid()[i - nx][j], s, 1, "upper grid: shared cell holds the sum");
      }
      else same(A, a0, i, j, "lower grid: cell outside the shared band unchanged");
  for (int i = 0; i < mx + 4; ++i)
    for (int j = 0; j < ny + 4; ++j)
      if (!(i < 4 && j >= 2 && j < ny + 2)) same(B, b0, i, j, "upper grid: cell outside the shared band unchanged");
}

extern "C" void overlay_y()
{
  int nx = v_param("nx"), ny = v_param("ny"), my = v_param("my");
  Grid<double> A = mk("a", nx, ny, a0), B = mk("b", nx, my, b0);
  A.overlay_y(B);
  for (int i = 0; i < nx + 4; ++i)
    for (int j = 0; j < ny + 4; ++j)
      if (j >= ny && i >= 2 && i < nx + 2)
      {
        double s = a0[i][j] + b0[i][j - ny];
        v_check_eq(A.get_grid()[i][j], s, 1, "left grid: shared cell holds the sum");
        v_check_eq(B.get_grid()[i][j - ny], s, 1, "right grid: shared cell holds the sum");
      }
      else same(A, a0, i, j, "left grid: cell outside the shared band unchanged");
  for (int i = 0; i < nx + 4; ++i)
    for (int j = 0; j < my + 4; ++j)
      if (!(j < 4 && i >= 2 && i < nx + 2)) same(B, b0, i, j, "right grid: cell outside the shared band unchanged");
}

extern "C" void overlay_xy()
{
  int nx = v_param("nx"), ny = v_param("ny");
  Grid<double> A = mk("a", nx, ny, a0), B = mk("b", nx, ny, b0);
  A.overlay_xy(B);
  for (int i = 0; i < nx + 4; ++i)
    for (int j = 0; j < ny + 4; ++j)
    {
      bool in_a = (i >= nx + 2 && j >= ny + 2) || (i >= nx && i < nx + 2 && j >= ny && j < ny + 2);
      if (in_a)
      {
        double s = a0[i][j] + b0[i - nx][j - ny];
        v_check_eq(A.get_grid()[i][j], s, 1, "corner: shared cell of the first grid holds the sum");
        v_check_eq(B.get_grid()[i - nx][j - ny], s, 1, "corner: shared cell of the second grid holds the sum");
      }
      else same(A, a0, i, j, "corner: other cells of the first grid unchanged");
      bool in_b = (i < 2 && j < 2) || (i >= 2 && i < 4 && j >= 2 && j < 4);
      if (!in_b) same(B, b0, i, j, "corner: other cells of the second grid unchanged");
    }
}

// the grid above and to the left
extern "C" void overlay_yx()
{
  int nx = v_param("nx"), ny = v_param("ny");
  Grid<double> A = mk("a", nx, ny, a0), B = mk("b", nx, ny, b0);
  A.overlay_yx(B);
  for (int i = 0; i < nx + 4; ++i)
    for (int j = 0; j < ny + 4; ++j)
    {
      bool in_a = (i >= nx + 2 && j < 2) || (i >= nx && i < nx + 2 && j >= 2 && j < 4);
      if (in_a)
      {
        double s = a0[i][j] + b0[i - nx][j + ny];
        v_check_eq(A.get_grid()[i][j], s, 1, "other corner: shared cell of the first grid holds the sum");
        v_check_eq(B.get_grid()[i - nx][j + ny], s, 1, "other corner: shared cell of the second grid holds the sum");
      }
      else same(A, a0, i, j, "other corner: other cells of the first grid unchanged");
      bool in_b = (i < 2 && j >= ny + 2) || (i >= 2 && i < 4 && j >= ny && j < ny + 2);
      if (!in_b) same(B, b0, i, j, "other corner: other cells of the second grid unchanged");
    }
}

// reading and changing one cell or all: the inner cells are numbered from zero, the halo is left alone
extern "C" void cells()
{
  int nx = v_param("nx"), ny = v_param("ny");
  for (int op = 0; op < 11; ++op)
  {
    Grid<double> A = mk("a", nx, ny, a0), B = mk("b", nx, ny, b0);
    double v = pos("v"), was = 0, now;
    int x = nx - 1, y = 1;
    if (op == 0) A.set(x, y, v);
    if (op == 1) A.inc(x, y, v);
    if (op == 2) A.dec(x, y, v);
    if (op == 3) A.m_a(x, y, v);
    if (op == 4) A.d_a(x, y, v);
    if (op == 5) A = v;
    if (op == 6) A += v;
    if (op == 7) A -= v;
    if (op == 8) A *= v;
    if (op == 9) A /= v;
    if (op == 10) A.copy(B);
    for (int i = 0; i < nx + 4; ++i)
      for (int j = 0; j < ny + 4; ++j)
      {
        bool in = i >= 2 && i < nx + 2 && j >= 2 && j < ny + 2, one = i == x + 2 && j == y + 2;
        was = a0[i][j];
        if (op == 10) now = b0[i][j];
        else if (op < 5 ? !one : !in) now = was;
        else if (op % 5 == 0) now = v;
        else if (op % 5 == 1) now = was + v;
        else if (op % 5 == 2) now = was - v;
        else now = op % 5 == 3 ? was * v : was / v;
        v_check_eq(A.get_grid()[i][j], now, 1, "only the named cells change");
        if (in) v_check_eq(A(i - 2, j - 2), now, 1, "cell of a grid");
        same(B, b0, i, j, "the other grid is not changed");
      }
    double **c = A();
    for (int i = 0; i < nx; ++i)
      for (int j = 0; j < ny; ++j) v_check_eq(c[i][j], A(i, j), 1, "copy of the inner cells");
  }
  Grid3D<double> G(nx, ny, 2);
  const char *names[] = {"r", "phi", "z"};
  Grid<double> *part[] = {&G.r_component, &G.phi_component, &G.z_component};
  for (int k = 0; k < 3; ++k)
    for (int i = 0; i < nx; ++i)
      for (int j = 0; j < ny; ++j) part[k]->set(i, j, any(names[k], i * 10 + j));
  for (int k = 0; k < 3; ++k)
    for (int i = 0; i < nx; ++i)
      for (int j = 0; j < ny; ++j)
      {
        double v = any(names[k], i * 10 + j);
        v_check_eq(G(k, i, j), v, 1, "component of a three-component grid");
        v_check_eq(G[k](i, j), v, 1, "component of a three-component grid");
      }
  double v = any("all");
  G = v;
  for (int k = 0; k < 3; ++k) v_check_eq(G(k, nx - 1, 0), v, 1, "component of a three-component grid");
}
extern "C" void no_component()
{
  v_allow("fatal");
  Grid3D<double> G(2, 2, 2);
  G = 1;
  if (v_param("how")) G(3, 0, 0); else G[3](0, 0) = 1;
  v_fail("a fourth component was not refused");
}

// three-component grids exchange every component, and only with its own kind
extern "C" void overlay_3d()
{
  int nx = v_param("nx"), ny = v_param("ny"), dir = v_param("dir");
  Grid3D<double> A(nx, ny, 2), B(nx, ny, 2);
  double va[3], vb[3];
  int ai = dir == 1 ? 3 : nx + 1, aj = dir == 0 ? 3 : dir == 3 ? 2 : ny + 1, bi = dir == 1 ? ai : ai - nx, bj = dir == 0 ? aj : dir == 3 ? aj + ny : aj - ny;
  for (int c = 0; c < 3; ++c)
  {
    A[c] = 0.; A[c].overlay_set(0.); B[c] = 0.; B[c].overlay_set(0.);
    va[c] = any("va", c); vb[c] = any("vb", c);
    A[c].get_grid()[ai][aj] = va[c];
    B[c].get_grid()[bi][bj] = vb[c];
  }
  if (dir == 0) A.overlay_x(B);
  if (dir == 1) A.overlay_y(B);
  if (dir == 2) A.overlay_xy(B);
  if (dir == 3) A.overlay_yx(B);
  for (int c = 0; c < 3; ++c)
  {
    v_check_eq(A[c].get_grid()[ai][aj], va[c] + vb[c], 1, "3-component: first grid");
    v_check_eq(B[c].get_grid()[bi][bj], va[c] + vb[c], 1, "3-component: second grid");
  }
}

// clearing the halo touches every halo cell and no interior cell
extern "C" void overlay_clear()
{
  int nx = v_param("nx"), ny = v_param("ny");
  Grid<double> A = mk("a", nx, ny, a0);
  double v = any("v");
  A.overlay_set(v);
  for (int i = 0; i < nx + 4; ++i)
    for (int j = 0; j < ny + 4; ++j)
      if (i < 2 || j < 2 || i >= nx + 2 || j >= ny + 2) v_check_eq(A.get_grid()[i][j], v, 1, "halo cell set");
      else same(A, a0, i, j, "interior cell kept by halo clearing");
  // whole-grid assignment and arithmetic act on the interior only
  double w = any("w");
  A = w;
  A += v;
  A *= 3.;
  A -= v;
  for (int i = 0; i < nx + 4; ++i)
    for (int j = 0; j < ny + 4; ++j)
      v_check_eq(A.get_grid()[i][j], (i < 2 || j < 2 || i >= nx + 2 || j >= ny + 2) ? v : (w + v) * 3. - v, 1, "interior arithmetic");
  Grid<double> C(nx, ny, 2);
  C.copy(A);
  for (int i = 0; i < nx + 4; ++i)
    for (int j = 0; j < ny + 4; ++j)
      v_check_eq(C.get_grid()[i][j], A.get_grid()[i][j], 1, "copy");
}

// grids whose shared edge differs in length are refused, never mixed
extern "C" void overlay_mismatch()
{
  int nx = v_param("nx"), ny = v_param("ny"), dir = v_param("dir");
  v_allow("fatal");
  Grid<double> A(nx, ny, 2), B(dir == 0 ? nx : nx + 1, dir == 0 ? ny + 1 : ny, 2);
  if (dir == 0) A.overlay_x(B);
  if (dir == 1) A.overlay_y(B);
  if (dir == 2) A.overlay_xy(B);
  if (dir == 3) A.overlay_yx(B);
  if (dir == 4) A.copy(B);
  v_fail("exchange between incompatible grids was not refused");
}
