// Dumps: every probe of the configuration, over the area divided into domains
//src: SMB.cpp domain.cpp specieP.cpp beamP.cpp current/currentVB.cpp maxwellSolver/maxwellSolverYee.cpp pusher/pusherBoris.cpp
//src: algo/common.cpp phys/rel.cpp phys/plasma.cpp math/maxwellJuettner.cpp outController.cpp outWriter.cpp outEngine/outEngineHDF5.cpp
#include "smb.hpp"
#include "outController.hpp"

namespace msg
{
void print_header(int, TimeSim *) {}
void print_values(std::string, std::string, unsigned int, TimeSim *) {}
void print_final() {}
}

static const char *NAMES[] = {"E/r", "E/phi", "E/z", "H/r", "H/phi", "H/z", "J/r", "J/phi", "J/z", "density", "temperature", "energy", "momentum/r", "momentum/phi", "momentum/z"};

static picojson::value meta()
{
  picojson::object o, b;
  b["debug"] = picojson::value(false);
  b["ieee"] = picojson::value(false);
  for (const char *k : {"current_deposition", "maxwell_solver", "particles_pusher", "plasma_velocity_distribution", "plasma_spatial_distribution"})
    b[k] = picojson::value("x");
  o["build_options"] = picojson::value(b);
  o["comment"] = picojson::value("c");
  return picojson::value(o);
}

static probe mk_probe(int component, int shape, int r0, int z0, int r1, int z1, int schedule, const char *path)
{
  probe p;
  p.path = path; p.component = NAMES[component]; p.specie = component >= 9 ? "ions" : "unknown"; p.shape = shape; p.schedule = schedule;
  if (shape == 0) p.dims = {(size_t)r0, (size_t)z0, (size_t)r1, (size_t)z1};
  if (shape == 1) p.dims = {0, 0, 0, (size_t)z1};
  if (shape == 2) p.dims = {0, 0, (size_t)r1, 0};
  if (shape == 3) p.dims = {0, 0, (size_t)r1, (size_t)z1};
  return p;
}

struct Run
{
  Area a;
  int x, y, n, m;
  SMB *b;
  HighFive::File file;
  std::vector<probe> probes;
  OutController *out;
  void start()
  {
    x = v_param("x"); y = v_param("y");
    species(a.cfg, 2);
    b = a.block(x, y);
    n = nrd(b); m = nzd(b);
  }
  void open() { out = new OutController(&file, b->geometry, a.t, probes, b, meta(), false); }
  double value(int component, int r, int z)
  {
    static const int F[] = {E, HT, J};
    return grid(b, r / n, z / m, F[component / 3])(component % 3, r % n, z % m);
  }
  // a slice of a data set is the requested part of the area, written exactly
  void check(HighFive::Store *s, int component, int shape, int r0, int z0, int r1, int z1, size_t slice)
  {
    v_check(s != 0 && s->dims.size() == (shape == 0 ? 3 : 2) && s->dims[0] > slice, "data set holds the slice");
    if (shape == 1) { r0 = 0; r1 = a.nr; z0 = z1; z1 = z0 + 1; }
    if (shape == 2) { z0 = 0; z1 = a.nz; r0 = r1; r1 = r0 + 1; }
    if (shape == 3) { z0 = z1; z1 = z0 + 1; r0 = r1; r1 = r0 + 1; }
    size_t R = r1 - r0, Z = z1 - z0;
    if (shape == 0) v_check(s->dims[1] == R && s->dims[2] == Z, "size of a dump");
    else v_check(s->dims[1] == R * Z, "size of a dump");
    for (size_t r = 0; r < R; ++r)
      for (size_t z = 0; z < Z; ++z)
      {
        size_t k = (slice * R + r) * Z + z;
        v_check(s->writes[k] > 0, "every value of a slice is written");
        v_check_eq(s->data[k], value(component, r0 + r, z0 + z), 1, "a dump holds the values of its places");
      }
  }
};

// one dump of every kind of field
extern "C" void dump()
{
  Run w;
  w.start();
  int shape = v_param("shape"), r0 = v_param("r0"), z0 = v_param("z0"), r1 = v_param("r1"), z1 = v_param("z1");
  std::vector<std::string> paths;
  for (int c = 0; c < 9; ++c)
  {
    paths.push_back(std::string(NAMES[c]) + "/shape/place");
    w.probes.push_back(mk_probe(c, shape, r0, z0, r1, z1, 1, paths[c].c_str()));
  }
  w.open();
  fill_all(w.b, E, "E"); fill_all(w.b, H, "Hbefore"); fill_all(w.b, HT, "H"); fill_all(w.b, J, "J");
  int step = v_param("step");
  w.a.t->current = step * w.a.dt;
  (*w.out)();
  for (int c = 0; c < 9; ++c) w.check(w.file.find(paths[c]), c, shape, r0, z0, r1, z1, step);
}

// several dumps: at every schedule-th step, each into its own slice, whatever rounding the clock has gathered
extern "C" void schedule()
{
  Run w;
  w.start();
  int every = v_param("every"), from = v_param("from"), steps = v_param("steps"), shape = v_param("shape");
  w.probes.push_back(mk_probe(2, shape, 1, 0, 3, 2, every, "E/z/shape/place"));
  w.open();
  HighFive::Store *s = w.file.find("E/z/shape/place");
  fill_all(w.b, E, "E");
  std::vector<double> was;
  for (int i = 0; i < steps; ++i)
  {
    int k = from + i;
    double e = sym("rounding", i, -1e-6, 1e-6);
    w.a.t->current = k * w.a.dt * (1 + e);
    for (int c = 0; c < w.x; ++c)
      for (int d = 0; d < w.y; ++d) grid(w.b, c, d, E)[2].set(1, 1, any("now", i * 100 + c * 10 + d));
    std::vector<int> before = s->writes;
    (*w.out)();
    bool due = k % every == 0;
    size_t per = s->count() / s->dims[0];
    if (due) w.check(s, 2, shape, 1, 0, 3, 2, k / every);
    for (size_t j = 0; j < s->writes.size(); ++j)
    {
      bool mine = due && j / per == (size_t)(k / every);
      int old = j < before.size() ? before[j] : 0;
      v_check((s->writes[j] != old) == mine, "only the slice of the step is written, only when it is due");
    }
  }
}

// probes of one place of several components and of several places of one component, in any order
extern "C" void several()
{
  Run w;
  w.start();
  int component[] = {2, 2, 8, 2, 5, 2}, shape[] = {0, 0, 3, 1, 2, 0};
  int at[][4] = {{1, 0, 3, 2}, {0, 2, 2, 4}, {1, 1, 2, 3}, {0, 0, 0, 2}, {0, 0, 1, 0}, {2, 2, 4, 6}};
  const char *paths[] = {"E/z/rec/1-0_3-2", "E/z/rec/0-2_2-4", "J/z/dot/2_3", "E/z/col/2", "H/z/row/1", "E/z/rec/2-2_4-6"};
  int n = 6;
  w.probes.push_back(mk_probe(0, 0, 0, 0, 3, 3, 1, "nothing/rec/0-3_0-3"));
  w.probes[0].component = "nothing";
  for (int i = 0; i < n; ++i) w.probes.push_back(mk_probe(component[i], shape[i], at[i][0], at[i][1], at[i][2], at[i][3], i % 2 + 1, paths[i]));
  // probes of a species that does not exist are reported and left alone
  for (int c = 9; c < 15; ++c)
  {
    w.probes.push_back(mk_probe(c, 0, 1, 1, 3, 5, 1, (std::string(NAMES[c]) + "/nobody/rec").c_str()));
    w.probes.back().specie = "nobody";
  }
  w.open();
  fill_all(w.b, E, "E"); fill_all(w.b, H, "Hbefore"); fill_all(w.b, HT, "H"); fill_all(w.b, J, "J");
  w.a.t->current = 2 * w.a.dt;
  (*w.out)();
  for (int c = 9; c < 15; ++c)
  {
    HighFive::Store *s = w.file.find(std::string(NAMES[c]) + "/nobody/rec");
    for (size_t i = 0; s && i < s->writes.size(); ++i) v_check(s->writes[i] == 0, "a probe of an unknown species writes nothing");
  }
  for (int i = 0; i < n; ++i) w.check(w.file.find(paths[i]), component[i], shape[i], at[i][0], at[i][1], at[i][2], at[i][3], 2 / (i % 2 + 1));
}

// the density dumped does not depend on the division of the area, whatever else is dumped at the same time
static void divided(int main, const char *label)
{
  Run d, u;
  d.start(); u.a = d.a;
  u.b = u.a.block(1, 1);
  int also = v_param("also"), n = 2;
  double fr[2], fz[2], wt[2], v[2];
  int ci[2], ck[2];
  for (int i = 0; i < n; ++i)
  {
    ci[i] = v_param("ci") - (i & 1); ck[i] = v_param("ck");
    fr[i] = sym("fr", i, 0, 1); fz[i] = sym("fz", i, 0, 1); wt[i] = pos("wt", i); v[i] = any("v", i);
    v_assume(v[i] > 0 && v[i] < 3e7);
    v_assume(fr[i] < 1 && fz[i] < 1);
    if (ci[i] == 0) v_assume(fr[i] >= 0.5);
  }
  Run *w[] = {&d, &u};
  for (int j = 0; j < 2; ++j)
  {
    Run &r = *w[j];
    r.probes.push_back(mk_probe(main, 0, 0, 0, d.a.nr, d.a.nz, 1, "main/ions/rec/all"));
    if (also)
    {
      r.probes.push_back(mk_probe(also, 0, 1, 1, 3, 3, 1, "also/ions/rec/some"));
    }
    r.open();
    int rr = nrd(r.b), zz = nzd(r.b);
    for (int i = 0; i < n; ++i)
    {
      Particle *q = new Particle();
      q->pos_r = (ci[i] + fr[i]) * d.a.dr; q->pos_z = (ck[i] + fz[i]) * d.a.dz; q->weight = wt[i]; q->vel_phi = 0; q->vel_r = i ? v[i] : 0; q->vel_z = i ? 0 : v[i];
      Domain *dm = r.b->domains(ci[i] / rr, ck[i] / zz);
      for (auto s = dm->species_p.begin(); s != dm->species_p.end(); ++s)
        if ((**s).name.compare("ions") == 0) (**s).particles.push_back(q);
    }
    (*r.out)();
  }
  HighFive::Store *a = d.file.find("main/ions/rec/all"), *b = u.file.find("main/ions/rec/all");
  v_check(a && b && a->count() == b->count(), "sizes of density dumps");
  for (size_t i = 0; i < a->count(); ++i) v_check_eq(a->data[i], b->data[i], main == 9 ? wt[0] + wt[1] : 1, label);
}
extern "C" void density() { divided(9, "density does not depend on the division"); }
extern "C" void means() { divided(v_param("main"), "mean maps do not depend on the division away from the borders"); }
extern "C" void border_means() { divided(v_param("main"), "mean maps do not depend on the division at the borders"); }

// a dump of a species holds the map its name says, of that species
extern "C" void own_map()
{
  int main = v_param("main");
  Run r;
  r.start();
  r.probes.push_back(mk_probe(main, 0, 0, 0, r.a.nr, r.a.nz, 1, "main/ions/rec/all"));
  r.open();
  SpecieP *ions = 0;
  for (auto s : r.b->domains(0, 0)->species_p)
    for (int i = 0; i < 2; ++i)
    {
      bool ion = s->name.compare("ions") == 0;
      if (ion) ions = s;
      Particle *q = new Particle();
      q->pos_r = (2.5 + i) * r.a.dr; q->pos_z = (2.25 + 0.5 * i) * r.a.dz; q->weight = pos(ion ? "w" : "we", i);
      q->vel_r = (ion ? 1e6 : 2e6) * (i + 1); q->vel_phi = (ion ? 3e6 : 5e6) * (i + 1); q->vel_z = (ion ? 7e6 : 11e6) * (i + 1);
      s->particles.push_back(q);
    }
  (*r.out)();
  HighFive::Store *a = r.file.find("main/ions/rec/all");
  v_check(a && a->count() == (size_t)(r.a.nr * r.a.nz), "a dump holds the map its name says");
  if (main == 9) ions->calc_density();
  if (main == 10) ions->calc_temperature();
  if (main == 11) ions->calc_energy();
  if (main >= 12) ions->calc_momentum();
  Grid<double> &g = main == 9 ? ions->density_map : main == 10 ? ions->temperature_map : main == 11 ? ions->energy_map : ions->momentum_map[main - 12];
  for (int k = 0; k < r.a.nr; ++k)
    for (int l = 0; l < r.a.nz; ++l) v_check_eq(a->data[k * r.a.nz + l], g(k, l), 1, "a dump holds the map its name says");
}
