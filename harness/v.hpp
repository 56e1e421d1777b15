// Harness interface. Under the symbolic engine these are solver variables and
// obligations; natively (replay) they read a recorded counterexample.
#ifndef V_HPP
#define V_HPP
extern "C" {
double sym_real_i(const char *name, int idx, double lo, double hi);   // lo <= x <= hi
double sym_pos_i(const char *name, int idx);                          // x > 0
double sym_any_i(const char *name, int idx);                          // any real
int sym_int_i(const char *name, int idx, int lo, int hi);
int v_fix(int x);
int v_param(const char *name);
void v_assume(bool c);
void v_check(bool c, const char *label);
void v_check_eq(double a, double b, double scale, const char *label);
void v_check_le(double a, double b, double scale, const char *label);
void v_cover(const char *label);
void v_fail(const char *label);
[[noreturn]] void v_stop();
void v_allow(const char *kind);
void v_option(const char *name, int value);
void v_print(const char *label, double x);
int v_native();
void v_threads(int n, int reversed);     // OpenMP: number of threads, and which goes first
int v_fresh();                          // another number every time
}
static inline double sym(const char *n, double lo, double hi) { return sym_real_i(n, -1, lo, hi); }
static inline double sym(const char *n, int i, double lo, double hi) { return sym_real_i(n, i, lo, hi); }
static inline double any(const char *n, int i = -1) { return sym_any_i(n, i); }
static inline double pos(const char *n, int i = -1) { return sym_pos_i(n, i); }
static inline int isym(const char *n, int lo, int hi) { return sym_int_i(n, -1, lo, hi); }
static inline int ifix(const char *n, int lo, int hi) { return v_fix(sym_int_i(n, -1, lo, hi)); }
#endif
