// The program: its loop over the time steps, and signals arriving at any moment
//src: domain.cpp specieP.cpp beamP.cpp current/currentVB.cpp maxwellSolver/maxwellSolverYee.cpp pusher/pusherBoris.cpp
//src: algo/common.cpp phys/rel.cpp phys/plasma.cpp math/maxwellJuettner.cpp outController.cpp outWriter.cpp outEngine/outEngineHDF5.cpp
#include "smb.hpp"
#include "outController.hpp"
#include <atomic>
#include <signal.h>
#include <unistd.h>
#include <string.h>
#include <sys/stat.h>

namespace msg
{
void print_header(int, TimeSim *) {}
void print_values(std::string, std::string, unsigned int, TimeSim *) {}
void print_final() {}
}
typedef void (*Handler)(int);
static Handler picopic_signal(int, Handler);
static unsigned picopic_sleep(unsigned);
[[noreturn]] static void picopic_exit(int);
static char *picopic_str(int) { static char s[] = "signal"; return s; }
static char *picopic_dup(const char *s) { return (char *)s; }
extern "C" int mkdir(const char *, mode_t) { return 0; }
namespace std { static VNull v_out; }
#define cout v_out
#define cerr v_out
#define main picopic_main
#define signal picopic_signal
#define sleep picopic_sleep
#define exit picopic_exit
#define strsignal picopic_str
#define strdup picopic_dup
#include "PiCoPiC.cpp"
#undef main
#undef signal
#undef sleep
#undef exit

static const int DIMS = 4;                     // cells of the area in each direction
static const int EVERY = 2;
static int steps, phase, step;                 // steps to come, the phase and the step reached
static double dt, end_;
static std::string config_name;
static bool names_only = false;
static TimeSim *clock_;

static int asked;                              // USR1 or USR2, whichever came last
static bool due;                               // and came while a step was calculated or written
static bool finished = false;
static int idle = 0;

static HighFive::Disk *disk() { return HighFive::disks.empty() ? 0 : HighFive::disks[0]; }
static bool closed() { return !disk() || disk()->open == 0; }

// ---- signals
static Handler handlers[65];
static Handler picopic_signal(int n, Handler h) { Handler was = handlers[n]; handlers[n] = h; return was; }
static int signals_ = 0, next_ = 0, points = 0, kind[8], at_[8], inside[65];
static void deliver(int where)
{
  int n = kind[next_++];
  if (!handlers[n]) v_stop();
  if (n == SIGUSR1 || n == SIGUSR2)
  {
    if (n == SIGUSR2 || asked != SIGUSR1) due = n == SIGUSR1 && where == 2;
    asked = n;
    idle = 0;
  }
  ++inside[n];
  handlers[n](n);
  --inside[n];
}
// where: 0 elsewhere, 1 opening or closing, 2 calculating or writing a step
void v_point(int where)
{
  if (finished) return;
  bool user = inside[SIGUSR1] || inside[SIGUSR2];        // these two do not interrupt each other here
  while (next_ < signals_ && at_[next_] == points && !inside[kind[next_]] && !(user && kind[next_] < SIGTERM && kind[next_] >= SIGUSR1)) deliver(where);
  ++points;
}
static void verdict();
static unsigned picopic_sleep(unsigned)
{
  v_check(closed(), "data file is closed during a pause");
  // a signal to continue that comes just before the program falls asleep is seen a second later
  v_check(asked == SIGUSR1 || (asked == SIGUSR2 && ++idle == 1), "no pause without its signal");
  v_check(phase == 4, "pause between two steps");
  due = false;
  if (asked == SIGUSR1)
  {
    if (next_ == signals_) { verdict(); v_cover("end"); v_stop(); }     // paused for good
    at_[next_] = points;                                // nothing else happens before the next signal
  }
  v_point(0);
  return 0;
}
static void picopic_exit(int n)
{
  finished = true;
  v_check(closed(), "data file is closed at exit");
  if (names_only) v_check(n == v_param("exit"), "exit status");
  else v_check(n == kind[next_ - 1], "exit status tells the signal");
  v_cover("end");
  v_stop();
}

// ---- the simulated area, which does nothing but tell what it was asked for
static void reached(int p)
{
  v_check(phase == p, "order of the phases of a step");
  if (p == 0) v_check(!due, "a pause requested during a step comes before the next one");
  v_check_eq(clock_->current, step * dt, 1, "clock of a step");
  phase = p + 1;
  v_point(2);
}
SMB::SMB(Cfg *_cfg, Geometry *g, TimeSim *t, int rank, int size) : cfg(_cfg), time(t), geometry(g)
{
  v_check(rank == 0 && size == 1, "one process");
  v_check(t == _cfg->time && g == _cfg->geometry, "area and clock of the configuration");
  clock_ = t;
  r_domains = g->domains_amount[0]; z_domains = g->domains_amount[1];
  world_rank = rank; world_size = size;
  Grid<Domain *> d(r_domains, z_domains, 0);
  domains = d;
  for (unsigned i = 0; i < r_domains; ++i)
    for (unsigned j = 0; j < z_domains; ++j)
    {
      int n = DIMS / r_domains, m = DIMS / z_domains;
      Geometry *l = mk_geom(n, m, i * n, j * m, DIMS, DIMS, 0, 1, 1);
      l->domains_amount = g->domains_amount;
      domains.set(i, j, new Domain(*l, {}, t));
    }
}
static bool loaded = false;
void SMB::distribute() { v_check(step == 0 && !loaded, "particles are loaded once, before the first step"); loaded = true; }
void SMB::inject_beam()
{
  if (step || phase) {                                  // the step before is done
    v_check(phase == 4, "order of the phases of a step");
    ++step;
  }
  v_check(loaded, "particles are loaded once, before the first step");
  phase = 0;
  reached(0);
}
static double value(int s, int i, int j) { return any("E", s * 100 + i * 10 + j); }
void SMB::solve_maxvell()
{
  reached(1);
  for (int i = 0; i < DIMS; ++i)
    for (int j = 0; j < DIMS; ++j) grid(this, i / (DIMS / r_domains), j / (DIMS / z_domains), E)[2].set(i % (DIMS / r_domains), j % (DIMS / z_domains), value(step, i, j));
}
void SMB::advance_particles() { reached(2); }
void SMB::solve_current() { reached(3); }

// ---- the configuration
Cfg::Cfg(const std::string name)
{
  config_name = name;
  if (names_only)
  {
    v_check(name == (v_param("case") == 0 ? "PiCoPiC.json" : "conf/a.json"), "configuration file of the command line");
    v_check(v_param("exit") < 0, "configuration file of the command line");
    v_cover("end");
    v_stop();
  }
  geometry = mk_geom(DIMS, DIMS, 0, 0, DIMS, DIMS, 15, 1, 1);
  geometry->domains_amount = {(size_t)v_param("x"), (size_t)v_param("y")};
  time = mk_time(dt);
  time->end = end_;
  output_data = new save_data();
  output_data->data_root = (char *)"out";
  probe p;
  p.path = "E/z"; p.component = "E/z"; p.specie = "unknown"; p.shape = 0; p.schedule = EVERY; p.dims = {1, 0, 3, 4};
  probes.push_back(p);
}
Cfg::~Cfg() {}
picojson::value Cfg::cfg2value()
{
  picojson::object o, b;
  b["debug"] = picojson::value(false);
  b["ieee"] = picojson::value(false);
  for (const char *k : {"current_deposition", "maxwell_solver", "particles_pusher", "plasma_velocity_distribution", "plasma_spatial_distribution"})
    b[k] = picojson::value("x");
  o["build_options"] = picojson::value(b);
  o["comment"] = picojson::value("c");
  return picojson::value(o);
}

// every step that is due has been written, once, with its own values
static void verdict()
{
  int last = step;
  v_check(HighFive::disks.size() == 1 && disk()->path == "out/data.h5", "one data file");
  HighFive::Store *s = disk()->sets[0];
  v_check(disk()->sets.size() == 1 && s->dims[0] == (size_t)(last / EVERY + 1), "slices of the steps done");
  for (int k = 0; k <= last; k += EVERY)
    for (int i = 1; i < 3; ++i)
      for (int j = 0; j < 4; ++j)
      {
        size_t n = (k / EVERY * 2 + i - 1) * 4 + j;
        v_check(s->writes[n] == 1, "every value of a step is written once");
        v_check_eq(s->data[n], value(k, i, j), 1, "the values written are those of the step");
      }
}

static void run_all(const char *name)
{
  steps = v_param("steps");
  dt = pos("dt");
  end_ = any("end");
  v_assume((steps - 1) * dt <= end_ && end_ < steps * dt);
  char a0[] = "picopic", a1[] = "-f", a2[] = "conf.json";
  char *argv[] = {a0, a1, a2, 0};
  int r = picopic_main(3, argv);
  finished = true;
  v_check(r == 0, "exit status");
  v_check(config_name == "conf.json", "configuration file of the command line");
  v_check(closed(), "data file is closed at the end");
  v_check(phase == 4 && step == steps - 1, "every step up to the end time, no more");
  v_check_eq(clock_->current, steps * dt, 1, "clock at the end");
  verdict();
}

extern "C" void steps_() { run_all("steps"); }

// up to three signals, each at any point of the run
extern "C" void signals()
{
  static const int KINDS[] = {0, SIGUSR1, SIGUSR2, SIGTERM, SIGINT, SIGSEGV};
  int n = v_param("kinds");
  while (n) { kind[signals_++] = KINDS[n % 10]; n /= 10; }
  for (int i = 0; i < signals_; ++i)
  {
    at_[i] = sym_int_i("at", i, 0, 200);
    if (i) v_assume(at_[i] >= at_[i - 1]);
  }
  run_all("signals");
}

extern "C" void command_line()
{
  names_only = true;
  char a0[] = "picopic", f[] = "-f", h[] = "-h", v[] = "--version", c[] = "conf/a.json", o[] = "-x";
  char *argvs[][6] = {{a0}, {a0, f, c}, {a0, h}, {a0, v}, {a0, f}, {a0, o, f, c}, {a0, f, c, h}, {a0, f, c, o}};
  int k = v_param("case"), n = 0;
  while (argvs[k][n]) ++n;
  if (k == 4) { v_allow("fatal"); }
  picopic_main(n, argvs[k]);
  v_fail("configuration file of the command line");
}
