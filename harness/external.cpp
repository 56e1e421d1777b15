// External fields: configured by name, felt by particles on top of the fields of the simulation
//src: SMB.cpp domain.cpp specieP.cpp beamP.cpp current/currentVB.cpp maxwellSolver/maxwellSolverYee.cpp maxwellSolver/externalFields.cpp
//src: pusher/pusherBoris.cpp pusher/pusherVay.cpp pusher/pusherHC.cpp algo/common.cpp phys/rel.cpp phys/plasma.cpp math/maxwellJuettner.cpp
#include "smb.hpp"
#if defined(SWITCH_PUSHER_VAY)
typedef PusherVay P;
#elif defined(SWITCH_PUSHER_HC)
typedef PusherHC P;
#else
typedef PusherBoris P;
#endif

static void profile(Cfg *c, const char *name, const char *form, double a)
{
  external_field f;
  f.name = name; f.formfactor = form; f.params.push_back(a);
  c->external_fields.push_back(f);
}
static double at(SMB *b, int which, int c, int r, int z)
{
  int n = nrd(b), m = nzd(b), i = r / n, j = z / m;
  ExternalFields *x = b->domains(i, j)->external_fields;
  return (which ? x->field_h : x->field_e)[c](r - i * n, z - j * m);
}

// the named profiles over the whole area, and no trace of them in the fields of the simulation
extern "C" void field()
{
  Area a;
  int x = v_param("x"), y = v_param("y"), kind[] = {v_param("electric"), v_param("magnetic")};
  double amp[] = {any("e"), any("h")};
  static const char *N[] = {"none", "const_z"};
  species(a.cfg, 2);
  for (int f = 0; f < 2; ++f) profile(a.cfg, f ? "magnetic" : "electric", N[kind[f]], amp[f]);
  SMB *b = a.block(x, y);
  int steps = v_param("steps");
  for (int s = 0; s < steps; ++s) b->solve_maxvell();
  int n = nrd(b), m = nzd(b);
  for (int f = 0; f < 2; ++f)
    for (int c = 0; c < 3; ++c)
      for (int r = 0; r < a.nr; ++r)
        for (int z = 0; z < a.nz; ++z)
        {
          double want = kind[f] && c == 2 ? amp[f] : 0;
          // the profile ends next to the borders of the area
          if (r > 0 && z > 0 && r < a.nr - 1 && z < a.nz - 1) v_check_eq(at(b, f, c, r, z), want, 1, "external field of the profile");
          else
          {
            double v = at(b, f, c, r, z);
            v_check(v == 0 || v == want, "external field at the border of the area");
          }
          v_check_eq(grid(b, r / n, z / m, f ? H : E)[c](r % n, z % m), 0, 1, "external fields are no part of the fields of the simulation");
        }
  // what a particle inside feels does not depend on the division
  double r = (v_param("ci") + sym("r", 0, 1)) * a.dr, z = (v_param("ck") + sym("z", 0, 1)) * a.dz;
  v_assume(r < (v_param("ci") + 1) * a.dr && z < (v_param("ck") + 1) * a.dz);
  Area &o = a;
  SMB *u = o.block(1, 1);
  for (int s = 0; s < steps; ++s) u->solve_maxvell();
  ExternalFields *d = b->domains(v_param("ci") / n, v_param("ck") / m)->external_fields, *w = u->domains(0, 0)->external_fields;
  vector3d<double> g[] = {d->get_field_e(r, z), d->get_field_h(r, z)}, k[] = {w->get_field_e(r, z), w->get_field_h(r, z)};
  for (int f = 0; f < 2; ++f)
    for (int c = 0; c < 3; ++c) v_check_eq(g[f][c], k[f][c], 1, "external field felt does not depend on the division");
}

// a profile nobody knows
extern "C" void unknown()
{
  static const char *N[] = {"", "const", "none ", "const_zz", "NONE"};
  Area a;
  int which = v_param("which"), f = v_param("of");
  species(a.cfg, 2);
  profile(a.cfg, "electric", f ? "none" : N[which], 1);
  profile(a.cfg, "magnetic", f ? N[which] : "none", 1);
  v_allow("fatal");
  a.block(1, 1);
  v_fail("an unknown external profile is refused");
}

struct Felt : public ExternalFields
{
  vector3d<double> e, h;
  double er, ez, hr, hz;
  vector3d<double> get_field_e(double r, double z) { er = r; ez = z; return e; }
  vector3d<double> get_field_h(double r, double z) { hr = r; hz = z; return h; }
};
struct Own : public MaxwellSolver
{
  vector3d<double> e, h;
  void set_pml() {}
  void calc_field_h() {}
  void calc_field_e() {}
  vector3d<double> get_field_e(double, double) { return e; }
  vector3d<double> get_field_h(double, double) { return h; }
};
// a particle moves in the sum of both fields
extern "C" void push()
{
  TimeSim *t = mk_time(v_param("fixed") ? 0.5 : pos("dt"));
  SpecieP *s[2];
  Particle *p[2];
  Own o[2];
  Felt x[2];
  double q = v_param("fixed") ? -2 : any("q"), m = v_param("fixed") ? 3 : pos("m"), v[3], vv = 0;
  v_assume(q != 0);
  for (int i = 0; i < 3; ++i) { v[i] = v_param("fixed") ? 1e8 * (i + 1) * (i == 1 ? -0.5 : 0.7) : any("v", i); vv += v[i] * v[i]; }
  v_assume(vv < constant::LIGHT_VEL * constant::LIGHT_VEL);
  for (int i = 0; i < 2; ++i)
  {
    s[i] = new SpecieP(1, "s", 1, 1, 1, 1, 1, 1, mk_geom(4, 4, 0, 0, 4, 4, 15, 1., 1.), t);
    s[i]->charge = q; s[i]->mass = m;
    p[i] = new Particle();
    p[i]->pos_r = pos("r"); p[i]->pos_z = pos("z"); p[i]->weight = pos("w"); p[i]->vel_r = v[0]; p[i]->vel_phi = v[1]; p[i]->vel_z = v[2];
    s[i]->particles.push_back(p[i]);
  }
  int magnetic = v_param("magnetic");
  for (int c = 0; c < 3; ++c)
  {
    double a = any("sum", c), b = any("ext", c), z = 0;
    (magnetic ? o[0].h : o[0].e)[c] = a - b; (magnetic ? x[0].h : x[0].e)[c] = b;
    (magnetic ? o[1].h : o[1].e)[c] = a; (magnetic ? x[1].h : x[1].e)[c] = z;
    for (int i = 0; i < 2; ++i) { (magnetic ? o[i].e : o[i].h)[c] = 0; (magnetic ? x[i].e : x[i].h)[c] = 0; }
  }
  for (int i = 0; i < 2; ++i) { P pu(&o[i], &x[i], {s[i]}, t); pu(); }
  v_check_eq(x[0].er, p[0]->pos_r, 1, "external field is taken at the place of the particle");
  v_check_eq(x[0].ez, p[0]->pos_z, 1, "external field is taken at the place of the particle");
  v_check_eq(x[0].hr, p[0]->pos_r, 1, "external field is taken at the place of the particle");
  v_check_eq(x[0].hz, p[0]->pos_z, 1, "external field is taken at the place of the particle");
  v_check_eq(p[0]->vel_r, p[1]->vel_r, 1, "a particle moves in the sum of external and own fields");
  v_check_eq(p[0]->vel_phi, p[1]->vel_phi, 1, "a particle moves in the sum of external and own fields");
  v_check_eq(p[0]->vel_z, p[1]->vel_z, 1, "a particle moves in the sum of external and own fields");
}
