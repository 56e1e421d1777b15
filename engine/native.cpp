// Native replay runtime: runs one harness entry on recorded input values.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <fstream>
#include <sstream>
#include <fenv.h>
#include <unistd.h>
#include <csignal>
#include <ucontext.h>
static std::map<std::string, double> &in() { static std::map<std::string, double> m; return m; }
static std::map<std::string, double> &par() { static std::map<std::string, double> m; return m; }
static int failed = 0;
#ifdef V_FILL_NEW
#include <new>
void *operator new(size_t n) { void *p = malloc(n ? n : 1); memset(p, 0xFF, n); return p; }
void *operator new[](size_t n) { void *p = malloc(n ? n : 1); memset(p, 0xFF, n); return p; }
#ifdef V_LEAK // no memory is used twice
#define free(p) (void) p
#endif
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#ifdef V_LEAK
#undef free
#endif
#endif
static double get(const char *n, int i, double dflt)
{
  char b[256];
  if (i < 0) snprintf(b, 256, "%s", n); else snprintf(b, 256, "%s_%d", n, i);
  auto it = in().find(b);
  return it == in().end() ? dflt : it->second;
}
extern "C" {
double sym_real_i(const char *n, int i, double lo, double hi)
{
  double x = get(n, i, lo + (hi - lo) * 0.37);
  return x < lo ? lo : x > hi ? hi : x;
}
double sym_pos_i(const char *n, int i) { return get(n, i, 1.25); }
double sym_any_i(const char *n, int i) { return get(n, i, 0.75 + 0.25 * (i % 5)); }
int sym_int_i(const char *n, int i, int lo, int hi) { int x = (int) get(n, i, lo); return x < lo ? lo : x > hi ? hi : x; }
int v_fix(int x) { return x; }
int v_param(const char *n) { return (int) par()[n]; }
double v_paramd(const char *n) { return par()[n]; }
void v_assume(bool c) { if (!c) { printf("ASSUME\n"); fflush(stdout); _exit(4); } }
void v_check(bool c, const char *l) { if (!c) { printf("CHECK-FAILED %s\n", l); failed = 1; } }
void v_check_eq(double a, double b, double s, const char *l)
{
  double m = fmax(fabs(s), 1e-300);
  if (s == 0 || s == 1) m = fmax(fabs(a), fabs(b)) + 1e-300;
  if (!(fabs(a - b) <= 1e-6 * m)) { printf("CHECK-FAILED %s : %.17g vs %.17g (scale %.3g)\n", l, a, b, s); failed = 1; }
}
void v_check_le(double a, double b, double s, const char *l)
{
  double m = s == 0 ? fmax(fabs(a), fabs(b)) : fabs(s);
  if (!(a <= b + 1e-9 * m)) { printf("CHECK-FAILED %s : %.17g > %.17g\n", l, a, b); failed = 1; }
}
void v_cover(const char *) {}
void v_fail(const char *l) { printf("CHECK-FAILED %s\n", l); failed = 1; }
[[noreturn]] void v_stop() { fflush(stdout); _exit(failed ? 3 : 0); }
static std::string allowed;
void v_allow(const char *k) { allowed += std::string(" ") + k + " "; }
void v_option(const char *, int) {}
void v_print(const char *l, double x) { printf("PRINT %s %.17g\n", l, x); }
int v_native() { return 1; }
#ifndef V_LEAK
void v_threads(int, int) {}
int v_fresh() { static int n = 0; return n++; }
#endif
// cooperative threads
static ucontext_t fib_main, fib_ctx[8];
static bool fib_ended[8];
static int fib_n, fib_cur;
static void (*fib_f)(int);
static void fib_switch()
{
  int from = fib_cur;
  for (int d = 1; d <= fib_n; ++d)
  {
    int to = (from + d) % fib_n;
    if (fib_ended[to]) continue;
    if (to == from) return;
    fib_cur = to;
    swapcontext(&fib_ctx[from], &fib_ctx[to]);
    return;
  }
  swapcontext(&fib_ctx[from], &fib_main);
}
static void fib_start() { fib_f(fib_cur); fib_ended[fib_cur] = true; fib_switch(); }
void v_fibers(int n, void (*f)(int))
{
  fib_n = n; fib_f = f; fib_cur = 0;
  for (int i = 0; i < n; ++i)
  {
    getcontext(&fib_ctx[i]);
    fib_ctx[i].uc_stack.ss_sp = malloc(1 << 22);
    fib_ctx[i].uc_stack.ss_size = 1 << 22;
    fib_ctx[i].uc_link = 0;
    fib_ended[i] = false;
    makecontext(&fib_ctx[i], fib_start, 0);
  }
  swapcontext(&fib_main, &fib_ctx[0]);
}
void v_yield() { fib_switch(); }
[[noreturn]] void v_fatal(const char *)
{
  if (allowed.find(" fatal ") != std::string::npos) { fflush(stdout); _exit(failed ? 3 : 0); }
  printf("FATAL\n"); fflush(stdout); _exit(5);
}
void ENTRY();
}
static void fpe(int) { static const char m[] = "FPE\n"; (void) !write(1, m, 4); _exit(6); }
int main(int argc, char **argv)
{
  std::ifstream f(argv[1]);
  std::string l;
  while (std::getline(f, l)) {
    std::istringstream s(l);
    std::string k, n, v;
    s >> k >> n >> v;
    (k == "p" ? par() : in())[n] = strtod(v.c_str(), nullptr);
  }
  if (argc > 2 && !strcmp(argv[2], "fpe")) { signal(SIGFPE, fpe); feenableexcept(FE_INVALID | FE_DIVBYZERO); }
  ENTRY();
  fflush(stdout);
  _exit(failed ? 3 : 0);
}
