// The parallel loops of the shared memory block: threads neither meet nor change the result
//src: SMB.cpp domain.cpp specieP.cpp beamP.cpp current/currentVB.cpp current/currentZigZag.cpp maxwellSolver/maxwellSolverYee.cpp maxwellSolver/externalFields.cpp pusher/pusherBoris.cpp pusher/pusherVay.cpp pusher/pusherHC.cpp
//src: algo/common.cpp phys/rel.cpp phys/plasma.cpp math/maxwellJuettner.cpp
#include "smb.hpp"

// one thread, then a thread for every iteration
struct Twice
{
  Area a;
  int x, y;
  SMB *b[2];
  Twice() : x(v_param("x")), y(v_param("y"))
  {
#ifdef ENABLE_EXTERNAL_FIELDS
    for (const char *n : {"electric", "magnetic"})
    {
      external_field f;
      f.name = n; f.formfactor = "const_z"; f.params.push_back(any("external", n[0]));
      a.cfg->external_fields.push_back(f);
    }
#endif
  }
  void build() { for (auto &s : b) s = a.block(x, y); }
  template <class F> void run(F f, int from = 0)
  {
    for (int k = from; k < 2; ++k)
    {
      if (k) v_threads(x * y, v_param("reverse")); else v_threads(1, 0);
      f(b[k]);
    }
  }
  // the nodes of the domains' grids of both
  template <class G> void same_at(G at, const char *label)
  {
    for (int i = 0; i < x; ++i)
      for (int j = 0; j < y; ++j)
        for (int c = 0; c < 3; ++c)
        {
          Grid<double> &g = at(b[0], i, j)[c], &h = at(b[1], i, j)[c];
          for (int k = 0; k < (int)g.x_real_size; ++k)
            for (int l = 0; l < (int)g.y_real_size; ++l) v_check_eq(h.get_grid()[k][l], g.get_grid()[k][l], 1, label);
        }
  }
  void same(int f, const char *label)
  {
    same_at([f](SMB *b, int i, int j) -> Grid3D<double> & { return grid(b, i, j, f); }, label);
  }
};

extern "C" void fields()
{
  Twice t;
  t.build();
  for (SMB *b : t.b)
    for (int f = E; f <= J; ++f)
      for (int i = 0; i < t.x; ++i)
        for (int j = 0; j < t.y; ++j)
          for (int c = 0; c < 3; ++c) fill(grid(b, i, j, f)[c], "f", f * 1000000 + (i * 4 + j) * 60000 + c * 10000);
  t.run([](SMB *b) { b->solve_maxvell(); });
  for (int f = E; f <= HT; ++f) t.same(f, "fields depend on the number of threads");
#ifdef ENABLE_EXTERNAL_FIELDS
  t.same_at([](SMB *b, int i, int j) -> Grid3D<double> & { return b->domains(i, j)->external_fields->field_e; }, "external fields depend on the number of threads");
  t.same_at([](SMB *b, int i, int j) -> Grid3D<double> & { return b->domains(i, j)->external_fields->field_h; }, "external fields depend on the number of threads");
#endif
}

// a macroparticle of either species in every domain, in its cell (ci, ck) and about to move by (di, dk) cells;
// that of the last species in domain (pi, pj) is anywhere in its cell, the others are somewhere in theirs;
// mirror: every second row of domains of one colour moves the other way, so that two rows meet in the one between
static std::vector<Particle *> all[2];
static void populate(Twice &t, int which, bool moved)
{
  Area &a = t.a;
  SMB *b = t.b[which];
  int n = nrd(b), m = nzd(b), nsp = v_param("species");
  for (int i = 0; i < t.x; ++i)
    for (int j = 0; j < t.y; ++j)
      for (int s = 0; s < nsp; ++s)
      {
        int ci = v_param("ci"), ck = v_param("ck"), di = v_param("di"), dk = v_param("dk");
        if (v_param("mirror") && i / 2 % 2) { ci = n - 1 - ci; di = -di; }
        int q = (i * 4 + j) * 2 + s, oi = i * n + ci, ok = j * m + ck, ni = oi + di, nk = ok + dk;
        double ro = oi + 0.625, rn = ni + 0.75, zo = ok + 0.375, zn = nk + 0.25;
        if (s == nsp - 1 && i == v_param("pi") && j == v_param("pj"))
        {
          ro = oi + sym("ro", 0.5, 1), rn = ni + sym("rn", 0.5, 1), zo = ok + sym("zo", 0, 1), zn = nk + sym("zn", 0, 1);
          v_assume(ro < oi + 1 && rn < ni + 1 && zo < ok + 1 && zn < nk + 1 && rn != ro && zn != zo);
        }
        Particle *p = new Particle();
        p->pos_old_r = ro * a.dr; p->pos_old_z = zo * a.dz;
        p->pos_r = (moved ? rn : ro) * a.dr; p->pos_z = (moved ? zn : zo) * a.dz;
        p->vel_r = (rn - ro) * a.dr / a.dt; p->vel_z = (zn - zo) * a.dz / a.dt; p->vel_phi = moved ? any("vphi", q) : 0;
        p->weight = pos("w", q); p->pos_phi = 0; p->pos_old_phi = 0;
        p->cell_r = moved ? ni : oi; p->cell_z = moved ? nk : ok;
        p->specie_id = b->domains(i, j)->species_p[s]->id;
        b->domains(i, j)->species_p[s]->particles.push_back(p);
        all[which].push_back(p);
      }
}

extern "C" void currents()
{
  Twice t;
  species(t.a.cfg, v_param("species"));
  t.build();
  for (int b = 0; b < 2; ++b)
  {
    populate(t, b, true);
    for (int i = 0; i < t.x; ++i)
      for (int j = 0; j < t.y; ++j)
        for (int c = 0; c < 3; ++c) fill(grid(t.b[b], i, j, J)[c], "old", (i * 4 + j) * 60000 + c * 10000);
  }
  t.run([](SMB *b) { b->solve_current(); });
  t.same(J, "current depends on the number of threads");
}

// cells of 1 m x 1 m, steps of 10 ns
extern "C" void particles()
{
  Twice t;
  t.a.dr = t.a.dz = 1; t.a.dt = 1e-8;
  t.a.t = mk_time(1e-8);
  species(t.a.cfg, v_param("species"));
  t.build();
  for (int b = 0; b < 2; ++b) populate(t, b, false);
  t.run([](SMB *b) { b->advance_particles(); });
  for (size_t q = 0; q < all[0].size(); ++q)
  {
    Particle *p[2] = {all[0][q], all[1][q]};
    int at[2] = {0, 0};
    for (int k = 0; k < 2; ++k)
      for (int i = 0; i < t.x; ++i)
        for (int j = 0; j < t.y; ++j)
          for (auto s : t.b[k]->domains(i, j)->species_p)
            for (auto o : s->particles)
              if (o == p[k]) at[k] = at[k] * 100 + 10 * i + j + 1;
    v_check(at[0] == at[1], "the domain of a particle depends on the number of threads");
    const char *l = "motion of a particle depends on the number of threads";
    v_check_eq(p[1]->pos_r, p[0]->pos_r, 1, l); v_check_eq(p[1]->pos_z, p[0]->pos_z, 1, l);
    v_check_eq(p[1]->vel_r, p[0]->vel_r, 1, l); v_check_eq(p[1]->vel_phi, p[0]->vel_phi, 1, l); v_check_eq(p[1]->vel_z, p[0]->vel_z, 1, l);
  }
}

// random numbers differ from run to run: only the threads' memory, and how many particles there are
extern "C" void initial()
{
  Twice t;
  int nsp = v_param("species");
  species(t.a.cfg, nsp);
  for (auto &s : t.a.cfg->particle_species)
  {
    s.macro_amount = v_param("n") * t.x * t.y; s.right_density = s.left_density;
    if (v_param("temperature")) s.temperature = v_param("temperature");
  }
  t.build();
  t.run([](SMB *b) { b->distribute(); }, 1);
  for (int i = 0; i < t.x; ++i)
    for (int j = 0; j < t.y; ++j)
      for (int s = 0; s < nsp; ++s)
        v_check((int)t.b[1]->domains(i, j)->species_p[s]->particles.size() == v_param("n"), "initial plasma depends on the number of threads");
}

extern "C" void injected()
{
  Twice t;
  Area &a = t.a;
  int nb = v_param("beams");
  species(a.cfg, 1);
  beams(a.cfg, nb, 1);
  for (auto &b : a.cfg->particle_beams)
    v_assume(b.bunch_radius >= (a.nr + 1) * a.dr && b.velocity * a.dt < 0.5 * a.dz && b.bunch_length >= 3 * a.dz && b.start_time == a.dt);
  t.build();
  for (SMB *b : t.b)
    for (int i = 0; i < t.x; ++i)
      for (int j = 0; j < t.y; ++j)
        for (int s = 1; s <= nb; ++s) static_cast<BeamP *>(b->domains(i, j)->species_p[s])->macro_per_step_to_inject = 1;
  a.t->current = a.dt;
  t.run([](SMB *b) { b->inject_beam(); }, 1);
  for (int i = 0; i < t.x; ++i)
    for (int j = 0; j < t.y; ++j)
      for (int s = 0; s <= nb; ++s)
        v_check((int)t.b[1]->domains(i, j)->species_p[s]->particles.size() == (j == 0 && s > 0), "injection depends on the number of threads");
}
