// Shared fixtures: geometries with symbolic cell sizes, grids filled with symbolic values
#ifndef SIM_HPP
#define SIM_HPP
#include "v.hpp"
#include "geometry.hpp"
#include "timeSim.hpp"
#include "algo/grid.hpp"
#include "algo/grid3d.hpp"

enum { W_AXIS = 1, W_LEFT = 2, W_OUTER = 4, W_RIGHT = 8 };

// a block of nr x nz cells whose first cell is (i0, k0) of a gnr x gnz simulation area
static inline Geometry *mk_geom(int nr, int nz, int i0, int k0, int gnr, int gnz, int walls, double dr, double dz)
{
  std::vector<double> size = {nr * dr, nz * dz}, gsize = {gnr * dr, gnz * dz};
  std::vector<size_t> dims = {(size_t)i0, (size_t)k0, (size_t)(i0 + nr), (size_t)(k0 + nz)};
  std::vector<bool> w = {(walls & W_AXIS) != 0, (walls & W_LEFT) != 0, (walls & W_OUTER) != 0, (walls & W_RIGHT) != 0};
  return new Geometry(size, gsize, dims, w);
}

static inline TimeSim *mk_time(double step)
{
  TimeSim *t = new TimeSim();
  t->start = 0; t->end = 1; t->step = step; t->current = 0; t->print_header_counter = 0;
  return t;
}

// every cell, halo included, becomes a free variable
static inline void fill(Grid<double> &g, const char *name, int c = 0)
{
  double **p = g.get_grid();
  for (int i = 0; i < (int)g.x_real_size; ++i)
    for (int j = 0; j < (int)g.y_real_size; ++j) p[i][j] = any(name, c * 10000 + i * 100 + j);
}
static inline void fill3(Grid3D<double> &g, const char *name)
{
  for (int c = 0; c < 3; ++c) fill(g[c], name, c);
}
// deep copy, halo included
static inline Grid<double> snap(Grid<double> &g)
{
  Grid<double> n(g.x_size, g.y_size, g.o_s);
  for (int i = 0; i < (int)g.x_real_size; ++i)
    for (int j = 0; j < (int)g.y_real_size; ++j) n.get_grid()[i][j] = g.get_grid()[i][j];
  return n;
}
static inline Grid3D<double> snap3(Grid3D<double> &g)
{
  Grid3D<double> n;
  for (int c = 0; c < 3; ++c) n[c] = snap(g[c]);
  return n;
}
#endif
