// Exchange between the blocks of a distributed run: every rank is a thread of this process
//src: SMB.cpp domain.cpp specieP.cpp beamP.cpp current/currentVB.cpp current/currentZigZag.cpp maxwellSolver/maxwellSolverYee.cpp pusher/pusherBoris.cpp pusher/pusherVay.cpp pusher/pusherHC.cpp
//src: algo/common.cpp phys/rel.cpp phys/plasma.cpp math/maxwellJuettner.cpp
#include "smb.hpp"
#include <mpi.h>
#include <vector>

// ---------------------------------------------------------------- message passing
enum { DOUBLE, INT, UNSIGNED, ULONG, USHORT, STRUCT };
struct VType
{
  int kind, n;
  int count[16];
  MPI_Aint at[16];
  MPI_Datatype type[16];
};
struct Item { int kind; double d; long i; };
struct VRequest
{
  const char *from;
  char *to;
  int n, src, dst, tag;
  MPI_Datatype type;
  bool taken;
};
extern "C" {
struct VType v_mpi_double = {DOUBLE}, v_mpi_int = {INT}, v_mpi_unsigned = {UNSIGNED}, v_mpi_ulong = {ULONG}, v_mpi_ushort = {USHORT};
void v_fibers(int n, void (*f)(int));
void v_yield();
}
static int me, ranks, idle, at_barrier, barriers, ended, open_types;
static std::vector<VRequest *> posted;

static size_t width(MPI_Datatype t) { return t->kind == DOUBLE || t->kind == ULONG ? 8 : t->kind == USHORT ? 2 : 4; }
static void read(const char *b, int n, MPI_Datatype t, std::vector<Item> &out)
{
  if (t->kind == STRUCT)
  {
    v_check(n == 1, "one structure at a time");
    for (int i = 0; i < t->n; ++i) read(b + t->at[i], t->count[i], t->type[i], out);
    return;
  }
  for (int i = 0; i < n; ++i)
  {
    const char *p = b + i * width(t);
    Item x = {t->kind, 0, 0};
    if (t->kind == DOUBLE) x.d = *(const double *)p;
    else if (t->kind == ULONG) x.i = *(const long *)p;
    else if (t->kind == USHORT) x.i = *(const unsigned short *)p;
    else x.i = *(const int *)p;
    out.push_back(x);
  }
}
static void write(char *b, int n, MPI_Datatype t, const std::vector<Item> &in, size_t &pos)
{
  if (t->kind == STRUCT)
  {
    for (int i = 0; i < t->n; ++i) write(b + t->at[i], t->count[i], t->type[i], in, pos);
    return;
  }
  for (int i = 0; i < n; ++i, ++pos)
  {
    if (pos >= in.size()) return;              // a shorter message than expected leaves the rest as it is
    if (in[pos].kind != t->kind) { v_fail("a message is received as another type than it was sent"); return; }
    char *p = b + i * width(t);
    if (t->kind == DOUBLE) *(double *)p = in[pos].d;
    else if (t->kind == ULONG) *(long *)p = in[pos].i;
    else if (t->kind == USHORT) *(unsigned short *)p = in[pos].i;
    else *(int *)p = in[pos].i;
  }
}
static void wait()
{
  int mine = me;
  if (++idle > 3 * ranks + 3) { v_fail("the ranks wait for each other for ever"); v_stop(); }
  v_yield();
  me = mine;
}
static VRequest *post(const void *from, void *to, int n, MPI_Datatype t, int src, int dst, int tag)
{
  VRequest *r = new VRequest();
  r->from = (const char *)from; r->to = (char *)to; r->n = n; r->type = t; r->src = src; r->dst = dst; r->tag = tag; r->taken = false;
  int peer = src == me ? dst : src;
  v_check(peer >= 0 && peer < ranks && peer != me, "a message goes to an existing neighbour");
  idle = 0;
  return r;
}
static void await(VRequest *r, bool send)
{
  if (send) { while (!r->taken) wait(); return; }
  for (;; wait())
    for (size_t i = 0; i < posted.size(); ++i)
    {
      VRequest *s = posted[i];
      if (s->taken || s->src != r->src || s->dst != r->dst || s->tag != r->tag) continue;
      std::vector<Item> items;
      read(s->from, s->n, s->type, items);
      size_t pos = 0;
      write(r->to, r->n, r->type, items, pos);
      v_check(pos == items.size(), "a message is received in full");
      s->taken = true;
      posted.erase(posted.begin() + i);
      idle = 0;
      return;
    }
}
extern "C" {
int MPI_Isend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm, MPI_Request *r)
{
  *r = post(b, 0, n, t, me, dst, tag);
  posted.push_back(*r);
  return 0;
}
int MPI_Irecv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm, MPI_Request *r) { *r = post(0, b, n, t, src, me, tag); return 0; }
int MPI_Wait(MPI_Request *r, MPI_Status *)
{
  if (!*r) return 0;
  await(*r, (*r)->src == me);
  *r = 0;
  return 0;
}
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *) { for (int i = 0; i < n; ++i) MPI_Wait(r + i, 0); return 0; }
// a send may wait until the message is being received: a correct program cannot count on a buffer
int MPI_Send(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { MPI_Request r; MPI_Isend(b, n, t, dst, tag, c, &r); return MPI_Wait(&r, 0); }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { return MPI_Send(b, n, t, dst, tag, c); }
int MPI_Recv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *) { MPI_Request r; MPI_Irecv(b, n, t, src, tag, c, &r); return MPI_Wait(&r, 0); }
int MPI_Sendrecv(const void *b, int n, MPI_Datatype t, int dst, int tag, void *rb, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm c, MPI_Status *)
{
  MPI_Request s = 0, r = 0;
  if (dst != MPI_PROC_NULL) MPI_Isend(b, n, t, dst, tag, c, &s);
  if (src != MPI_PROC_NULL) MPI_Irecv(rb, rn, rt, src, rtag, c, &r);
  MPI_Wait(&r, 0);
  return MPI_Wait(&s, 0);
}
int MPI_Barrier(MPI_Comm)
{
  int n = barriers;
  if (++at_barrier == ranks) { at_barrier = 0; ++barriers; idle = 0; return 0; }
  while (n == barriers) wait();
  return 0;
}
int MPI_Comm_rank(MPI_Comm, int *r) { *r = me; return 0; }
int MPI_Comm_size(MPI_Comm, int *n) { *n = ranks; return 0; }
int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint)p; return 0; }
int MPI_Type_create_struct(int n, const int *c, const MPI_Aint *at, const MPI_Datatype *t, MPI_Datatype *out)
{
  VType *x = new VType();
  x->kind = STRUCT; x->n = n;
  for (int i = 0; i < n; ++i) { x->count[i] = c[i]; x->at[i] = at[i]; x->type[i] = t[i]; }
  *out = x;
  ++open_types;
  return 0;
}
int MPI_Type_commit(MPI_Datatype *) { return 0; }
int MPI_Type_free(MPI_Datatype *t) { delete *t; *t = 0; --open_types; return 0; }
}

// ---------------------------------------------------------------- a divided run beside an undivided one
static SMB *whole;
static std::vector<SMB *> block;
static void (SMB::*todo)();
static void run_rank(int i)
{
  me = i;
  (block[i]->*todo)();
  idle = 0;
}
static void all_ranks(void (SMB::*f)())
{
  todo = f;
  ranks = block.size(); idle = 0; at_barrier = 0;
  v_fibers(ranks, run_rank);
  v_check(posted.empty(), "every message is received");
  v_check(open_types == 0, "data types are released");
}
static void single(void (SMB::*f)()) { ranks = 1; me = 0; idle = 0; at_barrier = 0; (whole->*f)(); }

// as the program divides the area: along z, the inner walls taken away
static void divide(Area &a, int n, int x, int y)
{
  whole = a.block(x, n * y);
  for (int i = 0; i < n; ++i)
  {
    Geometry *g = a.geometry();
    g->domains_amount = {(size_t)x, (size_t)y};
    g->cell_amount[1] /= n;
    g->cell_dims[1] = g->cell_amount[1] * i;
    g->cell_dims[3] = g->cell_amount[1] * (i + 1);
    g->size[1] /= n;
    if (i < n - 1) g->walls[3] = false;
    if (i > 0) g->walls[1] = false;
    block.push_back(new SMB(a.cfg, g, a.t, i, n));
  }
}
struct Place { SMB *b; int i, j; };
static Place twin(int i, int j) { int y = block[0]->z_domains; return {block[j / y], i, j % y}; }
static void same(int f, const char *label)
{
  for (int i = 0; i < (int)whole->r_domains; ++i)
    for (int j = 0; j < (int)whole->z_domains; ++j)
    {
      Place t = twin(i, j);
      for (int c = 0; c < 3; ++c)
        for (int k = -2; k < nrd(whole) + 2; ++k)
          for (int l = -2; l < nzd(whole) + 2; ++l)
          {
            int gk = k + i * nrd(whole), gl = l + j * nzd(whole);
            if (gk < 0 || gl < 0 || gk >= (int)whole->geometry->cell_amount[0] || gl >= (int)whole->geometry->cell_amount[1]) continue;
            if (f == J && (k < 0 || l < 0 || k >= nrd(whole) || l >= nzd(whole))) continue;      // the current of the overlap is not used
            v_check_eq(grid(t.b, t.i, t.j, f)(c, k, l), grid(whole, i, j, f)(c, k, l), 1, label);
          }
    }
}
// any contents of every node, the overlap included or left empty
static void fill_both(int f, const char *name, bool overlap)
{
  for (int i = 0; i < (int)whole->r_domains; ++i)
    for (int j = 0; j < (int)whole->z_domains; ++j)
    {
      Place t = twin(i, j);
      for (int c = 0; c < 3; ++c)
        for (int k = -2; k < nrd(whole) + 2; ++k)
          for (int l = -2; l < nzd(whole) + 2; ++l)
          {
            if (!overlap && (k < 0 || l < 0 || k >= nrd(whole) || l >= nzd(whole))) continue;
            double v = any(name, (((i * 8 + j) * 3 + c) * 16 + k + 2) * 16 + l + 2);
            grid(whole, i, j, f)[c].set(k, l, v);
            grid(t.b, t.i, t.j, f)[c].set(k, l, v);
          }
    }
}

extern "C" void exchange()
{
  Area a;
  int f = v_param("f");
  divide(a, v_param("n"), v_param("x"), v_param("y"));
  fill_both(f, "g", f == J);
  if (f == H) fill_both(HT, "t", false);
  auto what = f == J ? &SMB::current_overlay : f == E ? &SMB::field_e_overlay : &SMB::field_h_overlay;
  single(what);
  all_ranks(what);
  same(f, f == J ? "current of a divided run" : f == E ? "electric field of a divided run" : "magnetic field of a divided run");
  if (f == H) same(HT, "magnetic field at the half step of a divided run");
}

// the fields of a whole step
extern "C" void step()
{
  Area a;
  divide(a, v_param("n"), v_param("x"), v_param("y"));
  int R = a.nr, Z = a.nz;
  const char *names[] = {"E", "H", "HT", "J"};
  for (int f = 0; f < 4; ++f)
    for (int i = 0; i < (int)whole->r_domains; ++i)
      for (int j = 0; j < (int)whole->z_domains; ++j)
      {
        Place t = twin(i, j);
        for (int c = 0; c < 3; ++c)
          for (int k = -2; k < nrd(whole) + 2; ++k)
            for (int l = -2; l < nzd(whole) + 2; ++l)
            {
              int gk = k + i * nrd(whole), gl = l + j * nzd(whole);
              if (gk < 0 || gl < 0 || gk >= R || gl >= Z) continue;
              double v = any(names[f], c * 10000 + gk * 100 + gl);
              grid(whole, i, j, f)[c].set(k, l, v);
              grid(t.b, t.i, t.j, f)[c].set(k, l, v);
            }
      }
  single(&SMB::solve_maxvell);
  all_ranks(&SMB::solve_maxvell);
  same(E, "electric field of a divided run");
  same(H, "magnetic field of a divided run");
  same(HT, "magnetic field at the half step of a divided run");
}

// every particle is afterwards in the block and domain of its cell, in its species and unchanged
extern "C" void travel()
{
  Area a;
  int n = v_param("n"), x = v_param("x"), y = v_param("y"), many = v_param("many");
  species(a.cfg, 2);
  divide(a, n, x, y);
  int nr = nrd(whole), nz = nzd(whole);
  struct Seen { int s, r, z, found; };
  std::vector<Seen> all;
  for (int q = 0; q < many; ++q)
  {
    Particle *p = new Particle();
    int i = ifix(q ? "i1" : "i0", 0, x - 1), j = ifix(q ? "j1" : "j0", 0, n * y - 1), s = ifix(q ? "sp1" : "sp0", 0, 1);
    Place t = twin(i, j);
    p->pos_r = any("r", q); p->pos_phi = any("f", q); p->pos_z = any("z", q);
    p->pos_old_r = any("or", q); p->pos_old_phi = any("of", q); p->pos_old_z = any("oz", q);
    p->vel_r = any("vr", q); p->vel_phi = any("vp", q); p->vel_z = any("vz", q); p->weight = any("w", q); p->sin = any("s", q);
    int r = isym(q ? "r1" : "r0", -1, a.nr), z = isym(q ? "z1" : "z0", -1, a.nz);
    v_assume(z >= j * nz - nz && z < (j + 1) * nz + nz);       // a particle crosses less than a domain in one step
    p->cell_r = r; p->cell_z = z; p->mark = q + 1;
    SpecieP *sp = t.b->domains(t.i, t.j)->species_p[s];
    p->specie_id = sp->id;
    sp->particles.push_back(p);
    all.push_back({s, r, z, 0});
  }
  all_ranks(&SMB::particles_runaway_collector);
  int total = 0, left = 0;
  for (int i = 0; i < x; ++i)
    for (int j = 0; j < n * y; ++j)
      for (int s = 0; s < 2; ++s)
      {
        Place t = twin(i, j);
        for (auto p : t.b->domains(t.i, t.j)->species_p[s]->particles)
        {
          ++left;
          int q = (int)p->mark - 1;
          v_check(q >= 0 && q < many, "the mark of a particle is kept");
          if (q < 0 || q >= many) continue;
          ++all[q].found;
          v_check((int)p->cell_r == all[q].r && (int)p->cell_z == all[q].z, "the cell of a particle is kept");
          v_check(all[q].r >= i * nr && all[q].r < (i + 1) * nr && all[q].z >= j * nz && all[q].z < (j + 1) * nz,
                  "particle is filed in the block and domain of its cell");
          v_check(s == all[q].s && p->specie_id == t.b->domains(t.i, t.j)->species_p[s]->id, "particle stays in its species");
          v_check_eq(p->pos_r, any("r", q), 1, "particle changed by being sent");
          v_check_eq(p->pos_phi, any("f", q), 1, "particle changed by being sent");
          v_check_eq(p->pos_z, any("z", q), 1, "particle changed by being sent");
          v_check_eq(p->pos_old_r, any("or", q), 1, "particle changed by being sent");
          v_check_eq(p->pos_old_phi, any("of", q), 1, "particle changed by being sent");
          v_check_eq(p->pos_old_z, any("oz", q), 1, "particle changed by being sent");
          v_check_eq(p->vel_r, any("vr", q), 1, "particle changed by being sent");
          v_check_eq(p->vel_phi, any("vp", q), 1, "particle changed by being sent");
          v_check_eq(p->vel_z, any("vz", q), 1, "particle changed by being sent");
          v_check_eq(p->weight, any("w", q), 1, "particle changed by being sent");
          v_check_eq(p->sin, any("s", q), 1, "particle changed by being sent");
        }
      }
  for (int q = 0; q < many; ++q)
  {
    bool in = all[q].r >= 0 && all[q].z >= 0 && all[q].r < a.nr && all[q].z < a.nz;
    v_check(all[q].found == (in ? 1 : 0), "a particle inside the area is kept exactly once, one outside is removed");
    total += in;
  }
  v_check(left == total, "number of particles");
}

// the plasma of the blocks is the plasma of the undivided area
extern "C" void profile()
{
  Area a;
  species(a.cfg, 2);
  divide(a, v_param("n"), v_param("x"), v_param("y"));
  for (int i = 0; i < (int)whole->r_domains; ++i)
    for (int j = 0; j < (int)whole->z_domains; ++j)
    {
      Place t = twin(i, j);
      for (int s = 0; s < 2; ++s)
      {
        SpecieP *p = t.b->domains(t.i, t.j)->species_p[s], *o = whole->domains(i, j)->species_p[s];
        v_check_eq(p->density[0], o->density[0], 1, "density at the left side of a domain of a divided run");
        v_check_eq(p->density[1], o->density[1], 1, "density at the right side of a domain of a divided run");
        v_check_eq(p->temperature, o->temperature, 1, "temperature of a domain of a divided run");
      }
      Geometry &g = t.b->domains(t.i, t.j)->geometry, &h = whole->domains(i, j)->geometry;
      for (int w = 0; w < 4; ++w)
      {
        v_check(g.walls[w] == h.walls[w], "walls of a domain of a divided run");
        v_check(g.cell_dims[w] == h.cell_dims[w], "cells of a domain of a divided run");
      }
      for (int w = 0; w < 2; ++w)
      {
        v_check(g.cell_amount[w] == h.cell_amount[w], "cells of a domain of a divided run");
        v_check_eq(g.cell_size[w], h.cell_size[w], 1, "cell size of a divided run");
      }
      Grid<double> &sg = ((MaxwellSolverYee *)t.b->domains(t.i, t.j)->maxwell_solver)->sigma, &sh = ((MaxwellSolverYee *)whole->domains(i, j)->maxwell_solver)->sigma;
      for (int k = 0; k < nrd(whole); ++k)
        for (int l = 0; l < nzd(whole); ++l) v_check_eq(sg(k, l), sh(k, l), 1, "absorber of a divided run");
    }
}
