// A whole collision step, as the domain runs it
//src: collisions.cpp collisions/collisionsTA77S.cpp collisions/collisionsP12.cpp collisions/collisionsSK98.cpp specieP.cpp algo/common.cpp phys/rel.cpp math/maxwellJuettner.cpp
//src: domain.cpp current/currentVB.cpp maxwellSolver/maxwellSolverYee.cpp pusher/pusherBoris.cpp
#include "collide.hpp"
#include "domain.hpp"

static int shuffles = 0;
extern "C" int rand() { return v_fix(sym_int_i("rand", shuffles++ % 4, 0, 1)); }
extern "C" void srand(unsigned) {}

extern "C" void domain_step()
{
  nr = nz = 2;
  world(-1, 1, 1, 4, 1e-9);
  Domain *d = new Domain(*g, {el, ion}, t);
  int ne = v_param("ne"), ni = v_param("ni");
  Particle *q[9];
  double v[9][3], x[3];
  int n = 0, here = ne + ni;
  for (int j = 0; j < here + 2; ++j)
  {
    double s = 1e5 * (j + 1) * (j + 2);
    bool in = j < here;
    q[n++] = put(j < ne || j == here ? el : ion, 0, in ? 1 : 0, s, 0.5 * s, 0.3 * s + j, in ? 1e6 : j == here ? 0 : 0);
    if (!in) q[n - 1]->pos_r += in ? 0 : 1e-3 * (j - here);
    vel(q[j], v[j]);
  }
  Collisions *c;
#ifdef SWITCH_COULOMB_COLLISIONS_TA77S
  c = scheme(0, {el, ion});
#elif defined(SWITCH_COULOMB_COLLISIONS_P12)
  c = scheme(1, {el, ion});
#else
  c = scheme(2, {el, ion});
#endif
  v_check(*(void **)d->collisions == *(void **)c, "the configured scheme collides");
  active = 0;
  d->collide();
  int moved = 0;
  for (int j = 0; j < n; ++j)
  {
    vel(q[j], x);
    double e = (x[0] - v[j][0]) / 1e5;
    bool m = e > 1e-6 || e < -1e-6;
    moved += m;
    if (j >= here) v_check(!m, "a particle alone in its cell keeps its velocity");
    v_check(q[j]->weight == (j < here ? 1e6 : 0) && q[j]->pos_phi == 0.5, "a collision changes only the velocity");
  }
  v_check(pairs >= ne / 2 + ni / 2 + (ne > ni ? ne : ni), "collisions of a step");
  v_check(moved >= 2, "the step collides particles");
}
