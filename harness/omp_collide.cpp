// The parallel loops with collisions switched on
//src: SMB.cpp domain.cpp specieP.cpp beamP.cpp current/currentVB.cpp maxwellSolver/maxwellSolverYee.cpp pusher/pusherBoris.cpp
//src: algo/common.cpp phys/rel.cpp phys/plasma.cpp math/maxwellJuettner.cpp collisions.cpp collisions/collisionsTA77S.cpp collisions/collisionsSK98.cpp collisions/collisionsP12.cpp
#include "omp.cpp"
#include <cstdlib>
extern "C" int rand() { return v_fresh() % 2; }        // the C library protects its state
extern "C" void srand(unsigned) {}

// one stream of random numbers: only the threads' memory
extern "C" void collisions()
{
  Twice t;
  t.a.dr = t.a.dz = 1; t.a.dt = 1e-8;
  t.a.t = mk_time(1e-8);
  species(t.a.cfg, 2);
  for (auto &s : t.a.cfg->particle_species) { s.left_density = s.right_density = 1e16; s.temperature = 100; }
  t.build();
  populate(t, 1, false);
  populate(t, 1, false);
  for (size_t k = 0; k < all[1].size(); ++k) { all[1][k]->weight = 1e10; all[1][k]->vel_r = 1e6 * (k + 1); all[1][k]->vel_phi = 3e5 * (k * k + 2); all[1][k]->vel_z = 2e6 / (k + 1); }
  t.run([](SMB *b) { b->advance_particles(); }, 1);
  v_check(all[1].size() == (size_t)(8 * t.x * t.y) / 2, "particles");
}
