// Native replay of parallel regions: a team of real threads, of which one runs at a time (switching at
// barriers), with every use of memory recorded by the hooks of -fsanitize=thread.
#include <condition_variable>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <mutex>
#include <set>
#include <thread>
#include <unordered_map>
#include <vector>
extern "C" void v_fail(const char *);
namespace
{
struct Use { std::set<std::pair<int, void *>> w, r; };
std::mutex mx;
std::condition_variable cv;
int want = 1, rev = 0, team = 1, turn = 0, fresh = 0;
bool inside = false;
std::vector<bool> ended;
std::vector<int> epoch;
std::vector<std::unordered_map<uintptr_t, Use>> used;
thread_local int me = 0, quiet = 0;
thread_local bool worker = false;
thread_local void *lock_held = nullptr;
struct Disp { int64_t lo, hi, inc, k; };
thread_local Disp disp;

void use(void *p, size_t n, bool write)
{
  if (!worker || quiet) return;
  ++quiet;
  if ((int)used.size() <= epoch[me]) used.resize(epoch[me] + 1);
  for (size_t i = 0; i < n; ++i)
  {
    Use &u = used[epoch[me]][(uintptr_t)p + i];
    (write ? u.w : u.r).insert({me, lock_held});
  }
  --quiet;
}
void pass()     // the next thread that has not ended
{
  int slot = turn;
  for (int d = 1; d <= team; ++d)
    if (!ended[(slot + d) % team]) { turn = (slot + d) % team; cv.notify_all(); return; }
  turn = -1;
  cv.notify_all();
}
int slot_of(int t) { return rev ? team - 1 - t : t; }
void judge()
{
  for (auto &m : used)
    for (auto &x : m)
      for (auto &w : x.second.w)
        for (int k = 0; k < 2; ++k)
          for (auto &o : k ? x.second.w : x.second.r)
            if (o.first != w.first && (!o.second || o.second != w.second)) { v_fail("threads use the same memory"); return; }
}
}
extern "C" {
void v_threads(int n, int r) { want = n; rev = r; }
int v_fresh() { return fresh++; }
int omp_get_thread_num() { return me; }
int omp_get_num_threads() { return inside ? team : 1; }
int omp_get_max_threads() { return want; }
int omp_get_num_procs() { return want; }
int omp_in_parallel() { return inside; }
void omp_set_num_threads(int) {}
void omp_set_dynamic(int) {}
int __kmpc_global_thread_num(void *) { return me; }
void __kmpc_push_num_threads(void *, int, int) {}
void __kmpc_serialized_parallel(void *, int) {}
void __kmpc_end_serialized_parallel(void *, int) {}
void __kmpc_flush(void *) {}
void __kmpc_for_static_fini(void *, int) {}
int __kmpc_single(void *, int) { return me == 0; }
void __kmpc_end_single(void *, int) {}
int __kmpc_master(void *, int) { return me == 0; }
void __kmpc_end_master(void *, int) {}
int __kmpc_masked(void *, int, int) { return me == 0; }
void __kmpc_end_masked(void *, int) {}
void __kmpc_critical(void *, int, void *l) { lock_held = l; }
void __kmpc_critical_with_hint(void *, int, void *l, int) { lock_held = l; }
void __kmpc_end_critical(void *, int, void *) { lock_held = nullptr; }
void __kmpc_ordered(void *, int) { lock_held = &want; }
void __kmpc_end_ordered(void *, int) { lock_held = nullptr; }
int __kmpc_reduce(void *, int, int, size_t, void *, void *, void *) { lock_held = &want; return 1; }
int __kmpc_reduce_nowait(void *, int, int, size_t, void *, void *, void *) { lock_held = &want; return 1; }
void __kmpc_end_reduce(void *, int, void *) { lock_held = nullptr; }
void __kmpc_end_reduce_nowait(void *, int, void *) { lock_held = nullptr; }
void __kmpc_barrier(void *, int)
{
  if (!inside) return;
  std::unique_lock<std::mutex> l(mx);
  ++epoch[me];
  int s = slot_of(me);
  pass();
  cv.wait(l, [&] { return turn == s; });
}
void __kmpc_fork_call(void *, int argc, void (*fn)(int *, int *, ...), ...)
{
  std::vector<void *> a(16, nullptr);
  va_list ap;
  va_start(ap, fn);
  for (int i = 0; i < argc && i < 16; ++i) a[i] = va_arg(ap, void *);
  va_end(ap);
  team = want; inside = true; turn = 0;
  ended.assign(team, false); epoch.assign(team, 0); used.clear();
  std::vector<std::thread> th;
  for (int t = 0; t < team; ++t)
    th.emplace_back([&, t] {
      int id = t, s = slot_of(t);
      me = t;
      {
        std::unique_lock<std::mutex> l(mx);
        cv.wait(l, [&] { return turn == s; });
      }
      worker = true;
      fn(&id, &id, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]);
      worker = false;
      std::unique_lock<std::mutex> l(mx);
      ended[s] = true;
      pass();
      cv.wait(l, [&] { return turn == -1; });       // stacks stay apart
    });
  for (auto &t : th) t.join();
  inside = false;
  judge();
}
#define STATIC(S, T) \
  void __kmpc_for_static_init_##S(void *, int, int sched, int *last, T *lo, T *hi, T *st, T inc_, T chunk) \
  { \
    int64_t inc = sizeof(T) == 4 ? (int64_t)(int32_t)inc_ : (int64_t)inc_, l = *lo, h = *hi, n = inside ? team : 1; \
    int64_t c = inc > 0 ? (h - l) / inc + 1 : (l - h) / -inc + 1, sz = sched == 33 ? (int64_t)chunk : (c > 0 ? (c + n - 1) / n : 1); \
    int64_t x = l + me * sz * inc, y = l + ((me + 1) * sz - 1) * inc; \
    if (sched != 33) \
    { \
      if (inc > 0 ? y > h : y < h) y = h; \
      if (inc > 0 ? x > h : x < h) { x = h + inc; y = h; } \
    } \
    *last = y == h; *lo = (T)x; *hi = (T)y; *st = (T)(n * sz * inc); \
  } \
  void __kmpc_dispatch_init_##S(void *, int, int, T l, T h, T inc, T) \
  { disp = {(int64_t)l, (int64_t)h, sizeof(T) == 4 ? (int64_t)(int32_t)inc : (int64_t)inc, 0}; } \
  int __kmpc_dispatch_next_##S(void *, int, int *last, T *lo, T *hi, T *st) \
  { \
    int64_t x = disp.lo + (me + disp.k * (inside ? team : 1)) * disp.inc; \
    if (disp.inc > 0 ? x > disp.hi : x < disp.hi) return 0; \
    ++disp.k; *last = x == disp.hi; *lo = *hi = (T)x; *st = (T)disp.inc; \
    return 1; \
  } \
  void __kmpc_dispatch_fini_##S(void *, int) {}
STATIC(4, int32_t)
STATIC(4u, uint32_t)
STATIC(8, int64_t)
STATIC(8u, uint64_t)
void __kmpc_dispatch_deinit(void *, int) {}
// what a static variable's first use does is ordered before all its other uses
int __cxa_guard_acquire(uint64_t *g) { if (*(char *)g) return 0; ++quiet; return 1; }
void __cxa_guard_release(uint64_t *g) { *(char *)g = 1; --quiet; }
void __cxa_guard_abort(uint64_t *) { --quiet; }
// hooks of -fsanitize=thread
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N) \
  void __tsan_read##N(void *p) { use(p, N, false); } \
  void __tsan_write##N(void *p) { use(p, N, true); } \
  void __tsan_read_write##N(void *p) { use(p, N, true); } \
  void __tsan_unaligned_read##N(void *p) { use(p, N, false); } \
  void __tsan_unaligned_write##N(void *p) { use(p, N, true); } \
  void __tsan_unaligned_read_write##N(void *p) { use(p, N, true); } \
  void __tsan_volatile_read##N(void *p) { use(p, N, false); } \
  void __tsan_volatile_write##N(void *p) { use(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { use(p, n, false); }
void __tsan_write_range(void *p, size_t n) { use(p, n, true); }
void __tsan_vptr_update(void **p, void *) { use(p, 8, true); }
void __tsan_vptr_read(void **p) { use(p, 8, false); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { use((void *)s, n, false); use(d, n, true); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { use((void *)s, n, false); use(d, n, true); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { use(d, n, true); return memset(d, c, n); }
#define ATOMIC(N, T) \
  T __tsan_atomic##N##_load(T *p, int) { return *p; } \
  void __tsan_atomic##N##_store(T *p, T x, int) { *p = x; } \
  T __tsan_atomic##N##_exchange(T *p, T x, int) { T y = *p; *p = x; return y; } \
  T __tsan_atomic##N##_fetch_add(T *p, T x, int) { T y = *p; *p += x; return y; } \
  T __tsan_atomic##N##_fetch_sub(T *p, T x, int) { T y = *p; *p -= x; return y; } \
  T __tsan_atomic##N##_fetch_or(T *p, T x, int) { T y = *p; *p |= x; return y; } \
  T __tsan_atomic##N##_fetch_and(T *p, T x, int) { T y = *p; *p &= x; return y; } \
  T __tsan_atomic##N##_compare_exchange_val(T *p, T e, T x, int, int) { T y = *p; if (y == e) *p = x; return y; } \
  int __tsan_atomic##N##_compare_exchange_strong(T *p, T *e, T x, int, int) { if (*p == *e) { *p = x; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##N##_compare_exchange_weak(T *p, T *e, T x, int, int) { if (*p == *e) { *p = x; return 1; } *e = *p; return 0; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
