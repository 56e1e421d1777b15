// The configuration file: what is written there is what is simulated
//src: cfg.cpp phys/plasma.cpp
#include "v.hpp"
#define hash_from_string hash_as_it_is
#include "algo/common.cpp"
#undef hash_from_string
#include "cfg.hpp"
#include <new>
using picojson::value;
using picojson::object;
typedef picojson::array List;

int v_errors;

// the hash of a name: its own, or any number
static int any_hash = 0, hashes = 0;
namespace algo::common
{
unsigned short hash_from_string(const std::string &s, unsigned short salt)
{
  if (!any_hash) return hash_as_it_is(s, salt);
  return 500 + v_fix(sym_int_i("hash", hashes++, 0, any_hash - 1));
}
}

static object pair2(const char *a, double x, const char *b, double y)
{
  object o;
  o[a] = value(x); o[b] = value(y);
  return o;
}

// whole numbers: one of them varies at a time
static int whole(int id, const char *name, int usual, int lo, int hi) { return v_param("vary") == id ? isym(name, lo, hi) : usual; }

static double real(int id, const char *name, int i, double usual) { return v_param("vary") == id ? pos(name, i) : usual; }

struct Numbers
{
  double radius, longitude, macro, ratio, start, end, step, pml[3], sigma[2];
  int nr, nz, dr, dz;
  Numbers()
  {
    radius = real(8, "radius", 0, 0.0075); longitude = real(8, "longitude", 0, 0.02); macro = real(9, "macro", 0, 40); v_assume(macro < v_param("most")); ratio = whole(1, "ratio", 3, 1, 12);
    start = 0; end = real(10, "end", 0, 3e-9); step = real(10, "step", 0, 5e-14);
    for (int i = 0; i < 3; ++i) pml[i] = v_param("vary") == 11 + i ? sym("pml", i, 0, 1) : 0.15 * (i + 1);
    sigma[0] = real(10, "sigma", 0, 1e-5); sigma[1] = real(10, "sigma", 1, 7e-2);
    nr = v_param("nr"); nz = v_param("nz"); dr = v_param("x"); dz = v_param("y");
  }
  object geometry() const
  {
    object g, p;
    g["size"] = value(pair2("radius", radius, "longitude", longitude));
    g["grid"] = value(pair2("radius", nr, "longitude", nz));
    g["domains_amount"] = value(pair2("radius", dr, "longitude", dz));
    p = pair2("left_wall", pml[0], "right_wall", pml[1]);
    p["outer_wall"] = value(pml[2]); p["sigma_1"] = value(sigma[0]); p["sigma_2"] = value(sigma[1]);
    g["pml"] = value(p);
    return g;
  }
};

struct Spec { std::string name; double mass, charge, density, temperature; };
static Spec spec(int i)
{
  static const char *N[] = {"electrons", "ions", "dust"};
  Spec s;
  s.name = N[i]; s.mass = whole(2, i ? i == 1 ? "mass1" : "mass2" : "mass0", i * 1836 + 1, i + 1, i + 3); s.charge = whole(3, i ? i == 1 ? "charge1" : "charge2" : "charge0", i ? i : -1, i - 2, i + 1);
  s.density = real(14, "density", i, 1e17 * (i + 1)); s.temperature = real(14, "temperature", i, i + 1);
  return s;
}
static object json(const Spec &s)
{
  object o = pair2("mass", s.mass, "charge", s.charge);
  o["name"] = value(s.name); o["density"] = value(s.density); o["temperature"] = value(s.temperature);
  return o;
}
struct Beam { std::string name; double mass, charge, velocity, start, distance, length, radius, density; int amount; };
static Beam beam(int i)
{
  Beam b;
  b.name = i ? "second" : "first"; b.mass = whole(4, i ? "bm1" : "bm0", i + 1, 2, 5); b.charge = whole(5, i ? "bc1" : "bc0", -1 - i, -3, 2);
  b.velocity = real(15, "bv", i, 2e8 + i); b.start = real(15, "bs", i, 1e-10 * i); b.distance = real(15, "bx", i, 0.01 + i); b.density = real(15, "bd", i, 1e16 + i);
  b.length = real(16, "bl", i, 0.005 + i); b.radius = real(17, "br", i, 0.002 + i);
  b.amount = whole(6, i ? "ba1" : "ba0", i + 1, 1, 6);
  return b;
}
static object json(const Beam &b)
{
  object o = pair2("mass", b.mass, "charge", b.charge), n = pair2("amount", b.amount, "distance", b.distance), p;
  p["radial"] = value("flat"); p["longitudinal"] = value("round");
  n["length"] = value(b.length); n["radius"] = value(b.radius); n["density"] = value(b.density); n["profile"] = value(p);
  o["name"] = value(b.name); o["velocity"] = value(b.velocity); o["start_time"] = value(b.start); o["bunch"] = value(n);
  return o;
}
static object mk_probe(const char *component, const char *specie, const char *shape, int schedule)
{
  object o;
  o["component"] = value(component);
  if (specie) o["specie"] = value(specie);
  o["shape"] = value(shape); o["schedule"] = value((double)schedule);
  return o;
}
static object rec(object o, int r0, int z0, int r1, int z1)
{
  o["start"] = value(pair2("r", r0, "z", z0)); o["end"] = value(pair2("r", r1, "z", z1));
  return o;
}
static object dot(object o, int r, int z) { o["r"] = value((double)r); o["z"] = value((double)z); return o; }
static object col(object o, int z) { o["z"] = value((double)z); return o; }
static object row(object o, int r) { o["r"] = value((double)r); return o; }

static object document(const Numbers &n, const List &species, const List &beams, const List &probes)
{
  object d, data, c;
  d["log_file"] = value("picopic.log");
  d["macro_amount"] = value(n.macro); d["beam_plasma_macro_size_ratio"] = value(n.ratio);
  d["geometry"] = value(n.geometry());
  object t = pair2("start", n.start, "end", n.end);
  t["step"] = value(n.step);
  d["time"] = value(t);
  d["particles"] = value(species); d["beams"] = value(beams);
  data["data_root"] = value("result");
  c["use"] = value(false); c["level"] = value(3.);
  data["compression"] = value(c); data["probes"] = value(probes);
  d["data"] = value(data);
  return d;
}
static Cfg *read(const object &d)
{
  picojson::document() = new value(d);
  return new Cfg("picopic.json");
}

static List plasma(int n)
{
  List a;
  for (int i = 0; i < n; ++i) a.push_back(value(json(spec(i))));
  return a;
}

// geometry, absorber and time
extern "C" void geometry()
{
  Numbers n;
  Cfg *c = read(document(n, plasma(2), List(), List()));
  Geometry *g = c->geometry;
  v_check_eq(g->size[0], n.radius, 1, "size of the area");
  v_check_eq(g->size[1], n.longitude, 1, "size of the area");
  v_check_eq(g->global_size[0], n.radius, 1, "size of the area");
  v_check_eq(g->global_size[1], n.longitude, 1, "size of the area");
  v_check((int)g->cell_amount[0] == n.nr && (int)g->cell_amount[1] == n.nz, "amount of cells");
  v_check((int)g->global_cell_amount[0] == n.nr && (int)g->global_cell_amount[1] == n.nz, "amount of cells");
  v_check(g->cell_dims[0] == 0 && g->cell_dims[1] == 0 && (int)g->cell_dims[2] == n.nr && (int)g->cell_dims[3] == n.nz, "range of cells");
  v_check_eq(g->cell_size[0] * n.nr, n.radius, 1, "size of a cell");
  v_check_eq(g->cell_size[1] * n.nz, n.longitude, 1, "size of a cell");
  v_check(g->walls.size() == 4 && g->walls[0] && g->walls[1] && g->walls[2] && g->walls[3], "the area is closed");
#ifdef ENABLE_SINGLETHREAD
  v_check(g->domains_amount[0] == 1 && g->domains_amount[1] == 1, "amount of domains");
#else
  v_check((int)g->domains_amount[0] == n.dr && (int)g->domains_amount[1] == n.dz, "amount of domains");
#endif
#ifdef ENABLE_PML
  v_check(g->pml_size[0] == 0, "no absorber at the axis");
  int k[] = {1, 3, 2}, of[] = {n.nz, n.nz, n.nr};
  for (int i = 0; i < 3; ++i)
  {
    int w = g->pml_size[k[i]];
    v_check(w <= n.pml[i] * of[i] && n.pml[i] * of[i] < w + 1, "depth of the absorber");
  }
  v_check_eq(g->pml_sigma[0], n.sigma[0], 1, "conductivity of the absorber");
  v_check_eq(g->pml_sigma[1], n.sigma[1], 1, "conductivity of the absorber");
#endif
  v_check_eq(c->time->start, n.start, 1, "time");
  v_check_eq(c->time->end, n.end, 1, "time");
  v_check_eq(c->time->step, n.step, 1, "time");
  v_check_eq(c->time->current, 0, 1, "time");
}

// species, beams, and how macroparticles are shared between them
extern "C" void matter()
{
  Numbers n;
  int ns = v_param("species"), nb = v_param("beams");
  List s, b;
  std::vector<Spec> ss;
  std::vector<Beam> bs;
  for (int i = 0; i < ns; ++i) { ss.push_back(spec(i)); s.push_back(value(json(ss[i]))); }
  for (int i = 0; i < nb; ++i) { bs.push_back(beam(i)); b.push_back(value(json(bs[i]))); }
  object d = document(n, s, b, List());
  Cfg *c = read(d);
  v_check((int)c->particle_species.size() == ns && (int)c->particle_beams.size() == nb, "every species and beam is there");
  double cells = n.nr * n.nz, sum = cells * ns;
  for (int i = 0; i < nb; ++i)
    sum += bs[i].radius * n.nr / n.radius * (bs[i].length * bs[i].amount * n.nz / n.longitude) * n.ratio;
  for (int i = 0; i < ns; ++i)
  {
    particle_specie &p = c->particle_species[i];
    v_check(p.name == ss[i].name, "name of a species");
    v_check((int)p.mass == ss[i].mass && p.charge == ss[i].charge, "mass and charge of a species");
    v_check_eq(p.left_density, ss[i].density, 1, "density of a species");
    v_check_eq(p.right_density, ss[i].density, 1, "density of a species");
    v_check_eq(p.temperature, ss[i].temperature, 1, "temperature of a species");
    double share = n.macro * cells / sum;
    v_check(p.macro_amount <= share && share < p.macro_amount + 1, "macroparticles of a species");
  }
  for (int i = 0; i < nb; ++i)
  {
    particle_beam &p = c->particle_beams[i];
    v_check(p.name == "beam_" + bs[i].name, "name of a beam");
    v_check((int)p.mass == bs[i].mass && p.charge == bs[i].charge, "mass and charge of a beam");
    v_check_eq(p.velocity, bs[i].velocity, 1, "velocity of a beam");
    v_check_eq(p.start_time, bs[i].start, 1, "start of a beam");
    v_check(p.bunches_amount == bs[i].amount && p.current_bunch_number == 0, "bunches of a beam");
    v_check_eq(p.bunches_distance, bs[i].distance, 1, "distance of bunches");
    v_check_eq(p.bunch_length, bs[i].length, 1, "length of a bunch");
    v_check_eq(p.bunch_radius, bs[i].radius, 1, "radius of a bunch");
    v_check_eq(p.density, bs[i].density, 1, "density of a bunch");
    v_check(p.radial_profile == "flat" && p.longitudinal_profile == "round", "profile of a bunch");
    double share = n.macro * n.ratio * (bs[i].radius * n.nr / n.radius) * (bs[i].length * bs[i].amount * n.nz / n.longitude) / sum;
    v_check(p.macro_amount <= share && share < p.macro_amount + 1, "macroparticles of a beam");
  }
  for (int i = 0; i < ns; ++i)
    for (int j = 0; j < i; ++j) v_check(c->particle_species[i].id != c->particle_species[j].id, "species have numbers of their own");
  v_check(std::string(c->output_data->data_root) == "result" && !c->output_data->compress && c->output_data->compress_level == 3, "output options");
}

// whatever the hashes of their names, species and beams are told apart
extern "C" void identities()
{
  Numbers n;
  int ns = v_param("species"), nb = v_param("beams");
  List s, b;
  for (int i = 0; i < ns; ++i) s.push_back(value(json(spec(i))));
  for (int i = 0; i < nb; ++i) b.push_back(value(json(beam(i))));
  any_hash = v_param("hashes");
  Cfg *c = read(document(n, s, b, List()));
  std::vector<unsigned> ids;
  for (auto &i : c->particle_species) ids.push_back(i.id);
  for (auto &i : c->particle_beams) ids.push_back(i.id);
  v_check((int)ids.size() == ns + nb, "every species and beam is there");
  for (size_t i = 0; i < ids.size(); ++i)
    for (size_t j = 0; j < i; ++j) v_check(ids[i] != ids[j], "species and beams have numbers of their own");
}

static probe *only(Cfg *c, const char *component, const char *specie, int shape, int schedule, const char *path)
{
  v_check(c->probes.size() == 1, "a right probe is there");
  probe &p = c->probes[0];
  v_check(p.component == component && p.specie == specie && p.shape == shape && p.schedule == schedule, "what a probe dumps");
  v_check(p.path == path, "where a probe dumps");
  v_check(p.dims.size() == 4, "range of a probe");
  return &p;
}
static Cfg *with_probe(const Numbers &n, object p)
{
  List a;
  a.push_back(value(p));
  return read(document(n, plasma(2), List(), a));
}
static const char *text(std::string s) { return (new std::string(s))->c_str(); }
static std::string num(int n) { return std::to_string(n); }

extern "C" void probes()
{
  Numbers n;
  int shape = v_param("shape"), r = ifix("r", 0, n.nr - 1), z = ifix("z", 0, n.nz - 1), k = whole(7, "schedule", 20, 1, 5);
  if (shape == 0)
  {
    int r1 = ifix("r1", r + 1, n.nr), z1 = ifix("z1", z + 1, n.nz);
    v_assume(r1 > r && z1 > z);
    probe *p = only(with_probe(n, rec(mk_probe("density", "ions", "rec", k), r, z, r1, z1)), "density", "ions", 0, k,
                    text("density/ions/rec/" + num(r) + "-" + num(r1) + "_" + num(z) + "-" + num(z1)));
    v_check((int)p->dims[0] == r && (int)p->dims[1] == z && (int)p->dims[2] == r1 && (int)p->dims[3] == z1, "range of a probe");
  }
  if (shape == 1)
  {
    probe *p = only(with_probe(n, col(mk_probe("E/r", 0, "col", k), z)), "E/r", "unknown", 1, k, text("E/r/col/" + num(z)));
    v_check(p->dims[0] == 0 && p->dims[1] == 0 && p->dims[2] == 0 && (int)p->dims[3] == z, "range of a probe");
  }
  if (shape == 2)
  {
    probe *p = only(with_probe(n, row(mk_probe("momentum/phi", "beam_a", "row", k), r)), "momentum/phi", "beam_a", 2, k, text("momentum/phi/beam_a/row/" + num(r)));
    v_check(p->dims[0] == 0 && p->dims[1] == 0 && (int)p->dims[2] == r && p->dims[3] == 0, "range of a probe");
  }
  if (shape == 3)
  {
    probe *p = only(with_probe(n, dot(mk_probe("J/z", 0, "dot", k), r, z)), "J/z", "unknown", 3, k, text("J/z/dot/" + num(r) + "_" + num(z)));
    v_check(p->dims[0] == 0 && p->dims[1] == 0 && (int)p->dims[2] == r && (int)p->dims[3] == z, "range of a probe");
  }
}

static void must_refuse(const object &d, const char *label)
{
  v_allow("fatal");
  try { read(d); }
  catch (...) { return; }
  v_fail(label);
}

// probes outside of the area
extern "C" void outside()
{
  Numbers n;
  int shape = v_param("shape"), R = n.nr + 1, Z = n.nz + 1, r = isym("r", 0, R), z = isym("z", 0, Z), r0 = isym("r0", 0, R), z0 = isym("z0", 0, Z);
  object p;
  if (shape == 0)
  {
    v_assume(r > n.nr || z > n.nz || r0 >= r || z0 >= z);
    p = rec(mk_probe("E/z", 0, "rec", 1), v_fix(r0), v_fix(z0), v_fix(r), v_fix(z));
  }
  if (shape == 1) { v_assume(z >= n.nz); p = col(mk_probe("E/z", 0, "col", 1), v_fix(z)); }
  if (shape == 2) { v_assume(r >= n.nr); p = row(mk_probe("E/z", 0, "row", 1), v_fix(r)); }
  if (shape == 3) { v_assume(r >= n.nr || z >= n.nz); p = dot(mk_probe("E/z", 0, "dot", 1), v_fix(r), v_fix(z)); }
  List a;
  a.push_back(value(p));
  must_refuse(document(n, plasma(2), List(), a), "a probe outside of the area is refused");
}

// documents that do not say what to simulate
extern "C" void incomplete()
{
  static const char *KEYS[] = {"log_file", "macro_amount", "beam_plasma_macro_size_ratio", "geometry", "geometry/size", "geometry/size/radius",
    "geometry/size/longitude", "geometry/grid", "geometry/grid/radius", "geometry/grid/longitude", "geometry/domains_amount/radius",
    "geometry/domains_amount/longitude", "time", "time/start", "time/end", "time/step", "particles", "beams", "data", "data/data_root", "data/probes",
#ifdef ENABLE_PML
    "geometry/pml/left_wall", "geometry/pml/right_wall", "geometry/pml/outer_wall", "geometry/pml/sigma_1", "geometry/pml/sigma_2",
#endif
  };
  int key = v_param("key"), wrong = v_param("wrong");
  if (key >= (int)(sizeof KEYS / sizeof *KEYS)) return;
  Numbers n;
  object d = document(n, plasma(2), List(), List());
  std::string path = KEYS[key];
  object *o = &d;
  for (size_t at; (at = path.find('/')) != std::string::npos; path = path.substr(at + 1)) o = &(*o)[path.substr(0, at)].get<object>();
  (*o)[path] = wrong ? value(true) : value();
  must_refuse(d, "a missing or mistyped entry is refused");
}
extern "C" void incomplete_item()
{
  static const char *S[] = {"name", "mass", "charge", "density", "temperature"};
  static const char *B[] = {"name", "mass", "charge", "velocity", "start_time", "bunch", "bunch/amount", "bunch/distance", "bunch/length", "bunch/radius", "bunch/density"};
  static const char *P[] = {"component", "shape", "schedule", "r", "z"};
  int key = v_param("key");
  Numbers n;
  List s = plasma(2), b, p;
  b.push_back(value(json(beam(0))));
  p.push_back(value(dot(mk_probe("E/z", 0, "dot", 1), 0, 0)));
  object *o = key < 5 ? &s[1].get<object>() : key < 16 ? &b[0].get<object>() : &p[0].get<object>();
  std::string path = key < 5 ? S[key] : key < 16 ? B[key - 5] : P[key - 16];
  if (path.find('/') != std::string::npos) { o = &(*o)["bunch"].get<object>(); path = path.substr(6); }
  (*o)[path] = value(true);
  must_refuse(document(n, s, b, p), "a missing or mistyped entry is refused");
}

extern "C" void contradictions()
{
  int which = v_param("which");
  Numbers n;
  List s = plasma(which == 2 ? 1 : 2), b, p;
  if (which == 0) s[1].get<object>()["name"] = value("electrons");
  if (which == 1) { b.push_back(value(json(beam(0)))); b.push_back(value(json(beam(1)))); b[1].get<object>()["name"] = value("first"); }
  if (which == 2) { s[0].get<object>()["name"] = value("ions"); s[0].get<object>()["mass"] = value((double)isym("heavy", 2, 50)); }
  if (which == 3) p.push_back(value(dot(mk_probe("E/z", 0, "ring", 1), 0, 0)));
  // which 4: amounts of domains and cells that do not fit (parameters)
  must_refuse(document(n, s, b, p), "a contradictory configuration is refused");
}

// what the method cannot resolve is reported, what it can is not
extern "C" void limits()
{
  Numbers n;
  int order = v_param("order");
  double ne = pos("ne"), ni = pos("ni"), te = pos("te"), ti = pos("ti");
  List s;
  for (int i = 0; i < 2; ++i)
  {
    Spec p = spec(i ^ order);
    p.density = i ^ order ? ni : ne; p.temperature = i ^ order ? ti : te;
    s.push_back(value(json(p)));
  }
  double q = 0, dr = n.radius / n.nr, dz = n.longitude / n.nz, c = 2.99792458e8;
  // squares: of the Debye length and of the plasma frequency
  double l2 = 8.8541878e-12 * 1.60217663e-19 / (1.60217663e-19 * 1.60217663e-19) / (ne / te + ni / ti);
  double w2 = 1.60217663e-19 * 1.60217663e-19 * ne / (9.1093837e-31 * 8.8541878e-12);
  v_errors = 0;
  Cfg *cfg = read(document(n, s, List(), List()));
  double many = 0;
  for (auto &p : cfg->particle_species) many += p.macro_amount;
  int which = v_param("which");
  double st = n.step, in = 1.01, out = 0.99;
  auto above = [&](double x, double k) { return x * x > k * k * 1e4 * l2 * in; };
  auto below = [&](double x, double k) { return x * x < k * k * 1e4 * l2 * out; };
  bool step_bad = st * c > dr * in || st * c > dz * in || st * st * w2 * 2500 > in, step_good = st * c < dr * out && st * c < dz * out && st * st * w2 * 2500 < out;
  bool cell_bad = above(dr, 1) || above(dz, 1), cell_good = below(dr, 1) && below(dz, 1);
  bool small_bad = below(n.radius, 1) || below(n.longitude, 1), small_good = above(n.radius, 1) && above(n.longitude, 1);
  bool big_bad = above(n.radius, many) || above(n.longitude, many), big_good = below(n.radius, many) && below(n.longitude, many);
  int least = step_bad + cell_bad + small_bad + big_bad, most = 4 - step_good - cell_good - small_good - big_good;
  v_check(v_errors >= least, "a configuration the method cannot resolve is reported");
  v_check(v_errors <= most, "a configuration the method can resolve is not reported");
}

#ifdef ENABLE_EXTERNAL_FIELDS
extern "C" void external()
{
  Numbers n;
  object d = document(n, plasma(2), List(), List()), e, m, x;
  double p[5];
  for (int i = 0; i < 5; ++i) p[i] = any("p", i);
  e["formfactor"] = value("const_z"); e["params"] = value(List({value(p[0]), value(p[1])}));
  m["formfactor"] = value("none"); m["params"] = value(List({value(p[2]), value(p[3]), value(p[4])}));
  x["electric"] = value(e); x["magnetic"] = value(m);
  d["external_fields"] = value(x);
  Cfg *c = read(d);
  v_check(c->external_fields.size() == 2, "both external fields are there");
  external_field &a = c->external_fields[0], &b = c->external_fields[1];
  v_check(a.formfactor == "const_z" && b.formfactor == "none", "external profiles");
  v_check(a.params.size() == 2 && b.params.size() == 3, "parameters of external profiles");
  for (int i = 0; i < 5; ++i) v_check_eq(i < 2 ? a.params[i] : b.params[i - 2], p[i], 1, "parameters of external profiles");
}
extern "C" void no_external()
{
  Numbers n;
  must_refuse(document(n, plasma(2), List(), List()), "a configuration without external fields is refused");
}
#endif
