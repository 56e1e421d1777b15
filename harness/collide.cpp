// Coulomb collisions: pairs, pairing, correction
//src: collisions.cpp collisions/collisionsTA77S.cpp collisions/collisionsP12.cpp collisions/collisionsSK98.cpp specieP.cpp algo/common.cpp phys/rel.cpp math/maxwellJuettner.cpp
#include "collide.hpp"

// one classical collision of two particles of equal weight, in either order of weights
extern "C" void pair_ta()
{
  double ma = pos("ma"), mb = pos("mb"), qa = pos("qa"), qb = -pos("qb"), na = pos("na"), nb = pos("nb"), w = pos("w"), dt = pos("dt");
  world(qa, ma, qb, mb, dt);
  CollisionsTA77S c(g, t, {el, ion});
  double va[3], vb[3];
  double u[3];
  bool along = v_param("along");
  for (int i = 0; i < 3; ++i) { u[i] = along && i < 2 ? 0 : any("u", i); vb[i] = any("vb", i); va[i] = vb[i] + u[i]; }
  Particle *a = put(el, 0, 0, va[0], va[1], va[2], w), *b = put(ion, 0, 0, vb[0], vb[1], vb[2], w);
  if (!along) v_assume(u[0] * u[0] + u[1] * u[1] > 0);
  v_assume(dot(u, u) > 0);
  v_assume(na != nb);
  c.collide_single(ma, mb, qa, qb, *a, *b, na, nb, 1e-6);
  double xa[3], xb[3];
  vel(a, xa); vel(b, xb);
  for (int i = 0; i < 3; ++i) v_check_eq(ma * xa[i] + mb * xb[i], ma * va[i] + mb * vb[i], 1, "momentum of the pair");
  double y[3] = {xa[0] - xb[0], xa[1] - xb[1], xa[2] - xb[2]};
  v_check_eq(dot(y, y), dot(u, u), 1, "relative speed of the pair");
  double m = ma * mb / (ma + mb);
  double n = na < nb ? na : nb;
  v_check_eq(deviation * deviation, qa * qa * qb * qb * n * pos("L") * dt / (8 * PI * EPSILON0 * EPSILON0 * m * m * dot(u, u) * algo::common::sq_rt(dot(u, u))), 1, "variance of the deflection");
  v_check_eq(a->weight, w, 1, "weight"); v_check_eq(b->weight, w, 1, "weight");
  v_check_eq(a->pos_r, 3.25e-3, 1, "position"); v_check_eq(b->pos_z, 2.75e-3, 1, "position");
}

// one classical collision of two particles of different weight: both see the relative velocity turned, the momentum along
// it is kept
extern "C" void pair_ta_weights()
{
  double ma = pos("ma"), mb = pos("mb"), wa = pos("wa"), wb = pos("wb");
  world(1, ma, 1, mb, 1);
  CollisionsTA77S c(g, t, {el, ion});
  double va[3], vb[3], u[3], k[2];
  bool along = v_param("along"), first = v_param("first");
  for (int i = 0; i < 3; ++i) { u[i] = along && i < 2 ? 0 : any("u", i); vb[i] = any("vb", i); va[i] = vb[i] + u[i]; }
  v_assume(u[0] * u[0] + u[1] * u[1] + (along ? u[2] * u[2] : 0) > 0);
  if (first) v_assume(wa < wb); else v_assume(wa > wb);
  Particle *a = put(el, 0, 0, va[0], va[1], va[2], wa), *b = put(ion, 0, 0, vb[0], vb[1], vb[2], wb);
  c.collide_single(ma, mb, 1, 1, *a, *b, 1, 2, 1e-6);
  double xa[3], xb[3], p = 0, m = ma * mb / (ma + mb);
  vel(a, xa); vel(b, xb);
  for (int j = 0; j < 2; ++j)
  {
    double y[3];
    for (int i = 0; i < 3; ++i) y[i] = u[i] + (j ? -mb * (xb[i] - vb[i]) : ma * (xa[i] - va[i])) / m;
    v_check_eq(dot(y, y), dot(u, u), 1, "relative speed seen by a particle");
  }
  for (int i = 0; i < 3; ++i) p += u[i] * (wa * ma * (xa[i] - va[i]) + wb * mb * (xb[i] - vb[i]));
  v_check_eq(p, 0, 1, "momentum along the relative velocity");
}

static const double C = LIGHT_VEL;
static double gamma_of(const double *v) { return 1 / algo::common::sq_rt(1 - dot(v, v) / (C * C)); }

// relativistic schemes: velocities (units of c) and masses with rational Lorentz factors, also of the centre of mass
static const double LIST[][9] = {
  {3, 0, 0, 0, 0, 0, 5, 16, 17}, {9, 12, 0, 0, 0, 20, 25, 48, 61}, {0, 0, 3, 0, 0, 0, 5, 16, 17}, {0, 0, 3, 0, 0, -3, 5, 1, 1}, {3, 0, 0, -3, 0, 0, 5, 1, 1},
  {9, 0, 12, 0, 0, 0, 17, 1, 1}, {24, 32, 0, 0, 0, 0, 401, 798, 799}, {9, 0, 12, 0, 0, 0, 25, 16, 17},
};
extern "C" void pair_rel()
{
  int k = v_param("scheme"), id = v_param("id");
  double ma = LIST[id][7], mb = LIST[id][8], w = pos("w"), va[3], vb[3], xa[3], xb[3];
  world(1, ma, 1, mb, 1);
  for (int i = 0; i < 3; ++i) { va[i] = C * (LIST[id][i] / LIST[id][6]); vb[i] = C * (LIST[id][i + 3] / LIST[id][6]); }
  Particle *a = put(el, 0, 0, va[0], va[1], va[2], w), *b = put(ion, 0, 0, vb[0], vb[1], vb[2], w);
  if (k == 1)
  {
    CollisionsP12 c(g, t, {el, ion});
    c.debye_mean = c.s_mean = c.L_mean = 0; c.ncol = 0;
    c.collide_single(ma, mb, 1, 1, *a, *b, 1e3, 2e3, 1e-6);
    // Perez 2012, eq. 14: E, M total energy and mass (c = 1), p the momentum in the frame of the centre of mass
    double ga = gamma_of(va), gb = gamma_of(vb), gr = ga * gb * (1 - dot(va, vb) / (C * C));
    double M2 = ma * ma + mb * mb + 2 * ma * mb * gr, E = ma * ga + mb * gb, p2 = ma * ma * mb * mb * (gr * gr - 1) / M2;
    double e2 = EPSILON0 * C * C, x = algo::common::sq_rt((ma * ma + p2) * (mb * mb + p2)) / p2 + 1;
    double f = algo::common::sq_rt(p2 / M2) / (ma * ga * mb * gb) * x * x / (4 * PI * e2 * e2) * C;
    bool fast = dot(va, va) > REL_LIMIT * REL_LIMIT || dot(vb, vb) > REL_LIMIT * REL_LIMIT;
    double m = ma * mb / (ma + mb), vr = C * algo::common::sq_rt(1 - 1 / (gr * gr));
    if (!fast) f = 1 / (4 * PI * EPSILON0 * EPSILON0 * m * m * vr * vr * vr);
    v_check_eq(c.s_mean / f, 2e3 * pos("L"), 2e3, "deflection parameter");
  }
  else
  {
    CollisionsSK98 c(g, t, {el, ion});
    c.collide_single(ma, mb, 1, 1, *a, *b, 1e3, 2e3, 1e-6);
  }
  vel(a, xa); vel(b, xb);
  double gr = gamma_of(va) * gamma_of(vb) * (1 - dot(va, vb) / (C * C));
  v_check_eq(last_v * last_v / (C * C), 1 - 1 / (gr * gr), 1, "relative velocity");
  v_check(last_v > 0, "relative velocity");
  v_check(dot(xa, xa) < C * C && dot(xb, xb) < C * C, "slower than light");
  // energies in units of c squared; the squared ones avoid roots: with D the difference of the squares, they sum to E if and
  // only if the first one is (E + D / E) / 2
  double E = ma * gamma_of(va) + mb * gamma_of(vb);
  double ea = ma * ma / (1 - dot(xa, xa) / (C * C)), eb = mb * mb / (1 - dot(xb, xb) / (C * C)), D = ea - eb;
  v_check_eq(4 * ea * E * E, (E * E + D) * (E * E + D), 1, "energy of the pair");
  v_check(E * E + D > 0 && E * E - D > 0, "energy of each particle");
  double ha = gamma_of(xa), hb = gamma_of(xb);
  for (int i = 0; i < 3; ++i) v_check_eq((ma * ha * xa[i] + mb * hb * xb[i]) / C, (ma * gamma_of(va) * va[i] + mb * gamma_of(vb) * vb[i]) / C, 1, "momentum of the pair");
}

// P12, cold and dense: no mean free path shorter than the distance between particles (Perez 2012, eq. 21)
extern "C" void pair_p12_cold()
{
  double k = v_param("ka"), j = v_param("kb"), ma = (k * k - 1) / (2 * k), mb = (j * j - 1) / (2 * j), na = 1e12 * v_param("na"), nb = 1e12 * v_param("nb");
  double dt = pos("dt"), q = pos("q"), va = C * 2 * k / (k * k + 1), vb = C * 2 * j / (j * j + 1);
  world(q, ma, 1, mb, dt);
  Particle *a = put(el, 0, 0, va, 0, 0, 1), *b = put(ion, 0, 0, -vb, 0, 0, 1);
  CollisionsP12 c(g, t, {el, ion});
  c.debye_mean = c.s_mean = c.L_mean = 0; c.ncol = 0;
  c.collide_single(ma, mb, q, 1, *a, *b, na, nb, 1e-6);
  double m = ma * mb / (ma + mb), v = (va + vb) / (1 + va * vb / (C * C)), n = na > nb ? na : nb;
  double s = n * dt * pos("L") * q * q / (4 * PI * EPSILON0 * EPSILON0 * m * m * v * v * v);
  double fa = ma * std::pow(na, 2. / 3), fb = mb * std::pow(nb, 2. / 3);
  double most = std::pow(4 * PI / 3, 1. / 3) * n * dt * (ma + mb) / (fa > fb ? fa : fb) * v;
  bool cold = v < 1e6 && n > 7e13;
  double want = cold && most < s ? most : s, f = c.s_mean / want;
  v_check(f > 1 - 1e-9 && f < 1 + 1e-9, "deflection parameter of a cold pair");
}

// P12, different weights: the lighter macroparticle always deflects, the heavier one with the ratio of the weights
extern "C" void pair_p12_weights()
{
  double wa = pos("wa"), wb = pos("wb"), va[3] = {0.6 * C, 0, 0}, vb[3] = {0, 0, 0}, xa[3], xb[3];
  bool first = v_param("first");
  if (first) v_assume(wa < wb); else v_assume(wb < wa);
  world(1, 16, 1, 17, 1);
  Particle *a = put(el, 0, 0, va[0], va[1], va[2], wa), *b = put(ion, 0, 0, vb[0], vb[1], vb[2], wb);
  CollisionsP12 c(g, t, {el, ion});
  c.debye_mean = c.s_mean = c.L_mean = 0; c.ncol = 0;
  c.collide_single(16, 17, 1, 1, *a, *b, 1e3, 2e3, 1e-6);
  vel(a, xa); vel(b, xb);
  // draws: u_0 the angle, phi_1, u_2 the deflection
  double u = sym("u", 2, 0, 1);
  bool both = first ? u * wb < wa : u * wa < wb;
  double *x = first ? xb : xa, *v = first ? vb : va, *y = first ? xa : xb, m = first ? 16 : 17;
  if (!both)
    for (int i = 0; i < 3; ++i) v_check_eq(x[i] / C, v[i] / C, 1, "the heavier particle is not deflected");
  // momentum and energy balance of the lighter one against the pair's invariants: its energy is a Lorentz factor of its own velocity and
  // its momentum in the frame of the centre of mass keeps its length
  double E = 16 * 1.25 + 17, P = 16 * 0.75, e = m * gamma_of(y), p = e * y[0] / C, e0 = m * gamma_of(first ? va : vb), p0 = e0 * (first ? va : vb)[0] / C;
  v_check_eq(E * e - P * p, E * e0 - P * p0, 1, "energy of the lighter particle in the frame of the centre of mass");
}

// who collides with whom: every particle of a cell with its own kind and with the other one, nobody with another cell
struct One { Particle *q; int cell; bool el; double v[3]; int own, other; };
static One all[24];
static int amount = 0;
static void crowd(int i, int k, int ne, int ni, double w)
{
  for (int j = 0; j < ne + ni; ++j)
  {
    bool e = j < ne;
    double v = 1e5 * (amount + 1) * (amount + 2);
    all[amount++] = {put(e ? el : ion, i, k, v, 0.5 * v, amount * 1e4, w), i * 2 + k, e, {v, 0.5 * v, amount * 1e4 - 1e4}, 0, 0};
  }
}
extern "C" void pairing()
{
  int ne = v_param("ne"), ni = v_param("ni"), at = v_param("at");
  nr = nz = 2;
  world(-1, 1, 1, 4, 1e-9);
  Collisions *c = scheme(v_param("scheme"), {el, ion});
  double w = v_param("scheme") == 1 ? 1e6 : pos("w");
  crowd(at / 2, at % 2, ne, ni, w);
  for (int i = 0; i < amount; ++i) vel(all[i].q, all[i].v);
  c->clear();
  c->sort_to_cells();
  c->collect_weighted_params_tot_grid();
  active = -1;
  c->collide();
  int n = pairs;
  for (active = 0; active < n; ++active)
  {
    pairs = 0;
    c->collide();
    int m = 0, who[2] = {0, 0};
    for (int i = 0; i < amount; ++i)
    {
      double d = (all[i].q->vel_r - all[i].v[0]) / 1e5;
      if (d > 1e-6 || d < -1e-6) { if (m < 2) who[m] = i; ++m; }
      all[i].q->vel_r = all[i].v[0]; all[i].q->vel_phi = all[i].v[1]; all[i].q->vel_z = all[i].v[2];
    }
    v_check(m == 2, "a collision is between two particles");
    One &a = all[who[0]], &b = all[who[1]];
    if (a.el == b.el) { ++a.own; ++b.own; } else { ++a.other; ++b.other; }
  }
  int twice[2] = {0, 0};
  for (int i = 0; i < amount; ++i)
  {
    int own = all[i].el ? ne : ni, more = all[i].el ? ni : ne;
    v_check(own < 2 || all[i].own >= 1, "a particle collides with its own kind");
    v_check(own % 2 || all[i].own == 1, "a particle collides once with its own kind");
    v_check(all[i].own <= 2, "a particle collides with its own kind at most twice");
    twice[all[i].el] += all[i].own == 2;
    if (own >= more) v_check(all[i].other == 1, "a particle collides once with the other kind");
    else v_check(all[i].other == more / own || all[i].other == (more + own - 1) / own, "a particle collides with the other kind as often as others");
  }
  for (int e = 0; e < 2; ++e)
  {
    int own = e ? ne : ni;
    v_check(twice[e] == (own % 2 && own > 1 ? 3 : 0), "three particles of an odd number collide with each other");
  }
}

// kinds: electrons and ions (by mass and charge) are sorted to the cell they are in, others take no part
extern "C" void sorting()
{
  nr = nz = 2;
  world(-1, 1, 1, 4, 1);
  SpecieP *eb = specie(3, "beam_e", -1, 1), *ib = specie(4, "beam_i", 1, 4), *xb = specie(5, "beam_x", 1, 5), *yb = specie(6, "beam_y", 1, 1);
  SpecieP *all[6] = {el, xb, ion, eb, yb, ib};
  CollisionsTA77S c(g, t, {el, xb, ion, eb, yb, ib});
  Particle *q[6][2];
  int at[6][2];
  for (int i = 0; i < 6; ++i)
    for (int j = 0; j < 2; ++j)
    {
      at[i][j] = i < 3 && j == 0 ? v_fix(sym_int_i("cell", i, 0, 3)) : (i + j) % 4;
      q[i][j] = put(all[i], at[i][j] / 2, at[i][j] % 2, 1, 2, 3, 1);
    }
  for (int rep = 0; rep < 2; ++rep) { c.clear(); c.sort_to_cells(); }
  for (int i = 0; i < 2; ++i)
    for (int k = 0; k < 2; ++k)
    {
      int e = 0, n = 0;
      for (int s = 0; s < 6; ++s)
        for (int j = 0; j < 2; ++j)
        {
          int fe = 0, fi = 0, in = at[s][j] == i * 2 + k;
          for (Particle *p : c.map_el2cell(i, k)) fe += p == q[s][j];
          for (Particle *p : c.map_ion2cell(i, k)) fi += p == q[s][j];
          v_check(fe == (in && (s == 0 || s == 3)), "an electron is in the electron map of its cell once");
          v_check(fi == (in && (s == 2 || s == 5)), "an ion is in the ion map of its cell once");
        }
    }
}

// TA77S: whatever the pair collisions did, the correction restores momentum and energy of each kind in a cell
extern "C" void correction()
{
  int n = v_param("n"), dim = v_param("dim"), kind = v_param("kind");
  double me = kind ? 1 : pos("m"), mi = kind ? pos("m") : 4;
  world(-1, me, 1, mi, 1);
  CollisionsTA77S c(g, t, {el, ion});
  Particle *q[3], *o[2];
  double p[3] = {0, 0, 0}, e = 0, w[3], m = kind ? mi : me;
  for (int i = 0; i < n; ++i)
  {
    double v[3] = {0, 0, 0};
    for (int k = 0; k < dim; ++k) v[(k + i * 0) % 3] = any("v", i * 3 + k);
    w[i] = pos("w", i);
    q[i] = put(kind ? ion : el, 0, 0, v[0], v[1], v[2], w[i]);
    for (int k = 0; k < 3; ++k) p[k] += w[i] * v[k];
    e += w[i] * dot(v, v);
  }
  for (int i = 0; i < 2; ++i) o[i] = put(kind ? el : ion, 0, 0, i, 2, 3, 1);
  auto le = el->particles, li = ion->particles;
  for (int step = 0; step < 2; ++step)
  {
    el->particles = le; ion->particles = li;
    c.clear();
    c.sort_to_cells();
    el->particles.clear(); ion->particles.clear(); // no maps are needed here
    c.collect_weighted_params_tot_grid();
  }
  double s = 0, sw = 0, x[3] = {0, 0, 0}, f = 0, y[3] = {0, 0, 0};
  for (int i = 0; i < n; ++i)
  {
    double *u[3] = {&q[i]->vel_r, &q[i]->vel_phi, &q[i]->vel_z};
    for (int k = 0; k < dim; ++k) { *u[k] = any("x", i * 3 + k); x[k] += w[i] * *u[k]; s += w[i] * *u[k] * *u[k]; }
    sw += w[i];
  }
  // the particles differ in velocity, before and after
  v_assume(sw * s - dot(x, x) > 0 && sw * e - dot(p, p) > 0);
  c.correct_velocities();
  for (int i = 0; i < n; ++i)
  {
    double v[3];
    vel(q[i], v);
    for (int k = 0; k < 3; ++k) y[k] += w[i] * v[k];
    f += w[i] * dot(v, v);
  }
  for (int k = 0; k < 3; ++k) v_check_eq(y[k], p[k], 1, "momentum of the cell");
  v_check_eq(f, e, 1, "energy of the cell");
  double v[3];
  for (int i = 0; i < 2; ++i) { vel(o[i], v); v_check_eq(v[0], i, 1, "velocity of the other kind"); v_check_eq(v[1], 2, 1, "velocity of the other kind"); }
}
