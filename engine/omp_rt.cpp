// The replacement of the OpenMP runtime (see omp_rt.hpp), compiled without instrumentation.
#include "omp_rt.hpp"
#include <omp.h>
#include <algorithm>
#include <ucontext.h>
#include <sys/mman.h>
#include <unistd.h>
#include <malloc.h>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <deque>
#include <exception>
#include <functional>
#include <string>
#include <unordered_map>
#include <vector>
#include <sys/single_threaded.h>
namespace rt {
Policy &policy() { static Policy p; return p; }
typedef std::vector<uint32_t> Clock;
struct Team;
struct Fiber { ucontext_t ctx; char *stack = nullptr; size_t stack_size = 0; int uid = 0, tid = 0; bool done = false, waiting = false; Team *team = nullptr; long singles = 0, loops = 0; std::function<void()> body; Clock vc; std::vector<void *> locks; std::vector<Clock> children; long barrier = 0; std::exception_ptr ex; Fiber *parent = nullptr; };
struct Task { void (*fn)(void *); char *data; Clock vc; Fiber *creator; };
struct Loop { long next, end, incr, chunk; };
struct Team { std::vector<Fiber *> threads; std::deque<Task> tasks; long arrived = 0, barrier = 0, ntask = 0; Clock join; std::vector<Loop> loops; ucontext_t back; Fiber *outer; std::exception_ptr ex; };
#ifdef VC_TRACK
const size_t fiber_stack = 256 << 10;  // kept until the end of the region: no two fibers share addresses
const bool keep_stacks = true;
#else
const size_t fiber_stack = 16 << 20;
const bool keep_stacks = false;
#endif
struct State { Fiber *cur = nullptr; int next_uid = 0; std::vector<std::pair<char *, size_t>> stacks; std::vector<void *> freed; int active = 0; long regions = 0, fibers = 0; int ignore = 0; };
inline State &S() { static State *s = new State; return *s; }
// ---- recorded accesses --------------------------------------------------------
struct Access { uint32_t uid, clock; uint32_t write : 1, mask : 8; const void *pc; std::vector<void *> locks; };
struct Race { const void *addr; bool w1, w2; const void *pc1, *pc2; };
struct Frames { std::unordered_map<uintptr_t, std::vector<Access>> m; std::vector<Race> races; long accesses = 0, shared = 0; };
inline Frames &F() { static Frames *f = new Frames; return *f; }
inline void touch(const void *p, size_t n, bool w, const void *pc) {
  State &s = S();
  if (!s.active || !s.cur || s.ignore) return;
  uintptr_t a = (uintptr_t)p; Fiber *c = s.cur;
  ++s.ignore;
  {
    Frames &f = F(); ++f.accesses;
    while (n) {
      uintptr_t g = a >> 3; int off = a & 7, k = (int)std::min<size_t>(n, 8 - off); unsigned mask = ((1u << k) - 1) << off;
      auto &v = f.m[g]; bool found = false;
      for (auto &x : v) {
        if (!(x.mask & mask)) continue;
        if (x.uid == (uint32_t)c->uid) { if (x.write == (unsigned)w && x.mask == mask && x.locks == c->locks) { x.clock = c->vc[c->uid]; found = true; } continue; }
        if (!x.write && !w) continue;
        if (x.uid < c->vc.size() && x.clock <= c->vc[x.uid]) continue;
        bool common = false; for (void *l : x.locks) for (void *k2 : c->locks) common = common || l == k2;
        if (!common && f.races.size() < 64) f.races.push_back({p, (bool)x.write, w, x.pc, pc});
      }
      if (!found) { v.push_back({(uint32_t)c->uid, c->vc[c->uid], (unsigned)w, mask, pc, c->locks}); }
      a += k; n -= k;
    }
  }
  --s.ignore;
}
Ignore::Ignore() { ++S().ignore; }
Ignore::~Ignore() { --S().ignore; }
// ---- fibers ---------------------------------------------------------------------
inline void merge(Clock &a, const Clock &b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); ++i) a[i] = std::max(a[i], b[i]); }
inline void entry(unsigned lo, unsigned hi) { Fiber *f = (Fiber *)(((uintptr_t)hi << 32) | lo); try { f->body(); } catch (...) { f->ex = std::current_exception(); } f->done = true; setcontext(&f->team->back); }
inline Fiber *make(Team *t, int tid, const Clock &vc, std::function<void()> body) {
  Fiber *f = new Fiber; f->team = t; f->tid = tid; f->uid = S().next_uid++; ++S().fibers; f->vc = vc; f->vc.resize(std::max<size_t>(f->vc.size(), f->uid + 1), 0); f->vc[f->uid] = 1; f->body = std::move(body);
  f->stack_size = fiber_stack; f->stack = (char *)mmap(nullptr, f->stack_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (keep_stacks) S().stacks.push_back({f->stack, f->stack_size});
  getcontext(&f->ctx); f->ctx.uc_stack.ss_sp = f->stack; f->ctx.uc_stack.ss_size = f->stack_size; f->ctx.uc_link = nullptr; uintptr_t u = (uintptr_t)f; makecontext(&f->ctx, (void (*)())entry, 2, (unsigned)u, (unsigned)(u >> 32)); return f; }
// run a fiber until it finishes or waits (called from the scheduler of its team)
inline void resume(Fiber *f) { Fiber *old = S().cur; ucontext_t keep = f->team->back; S().cur = f; int ig = S().ignore; S().ignore = 0; swapcontext(&f->team->back, &f->ctx); S().ignore = ig; f->team->back = keep; S().cur = old; if (f->done && f->ex && !f->team->ex) f->team->ex = f->ex; }
inline void run_task(Team *t, Task k) {
  Fiber *f = make(t, (int)(t->ntask++ % t->threads.size()), k.vc, [k] { k.fn(k.data); });
  while (!f->done) { resume(f); if (!f->done) f->waiting = false; }
  merge(t->join, f->vc); if (k.creator) k.creator->children.push_back(f->vc);
  if (!keep_stacks) munmap(f->stack, f->stack_size); delete f;
}
inline void drain(Team *t) {
  while (!t->tasks.empty()) {
    Task k; int p = policy().tasks; size_t i = p == 2 ? t->tasks.size() - 1 : 0; if (p == 3) i = (t->tasks.size() * 2654435761u >> 7) % t->tasks.size();
    k = t->tasks[i]; t->tasks.erase(t->tasks.begin() + i); run_task(t, k);
  }
}
inline void pause(Fiber *f) { swapcontext(&f->ctx, &f->team->back); }
inline void region(void (*fn)(void *), void *data, unsigned num) {
  State &s = S(); Team t; t.outer = s.cur; __libc_single_threaded = 0;
  if (s.cur || policy().threads <= 0) { // nested: a team of one
    Fiber *f = s.cur; if (!f) { fn(data); return; }
    Team *keep = f->team; long si = f->singles, lo = f->loops; int tid = f->tid; fn(data); f->singles = si; f->loops = lo; f->tid = tid; f->team = keep; return; }
  ++s.regions; s.next_uid = 0; ++s.active; F().m.clear();
  int n = num ? (int)num : policy().threads; Clock c0;
  for (int i = 0; i < n; ++i) t.threads.push_back(make(&t, i, c0, [=] { fn(data); }));
  for (;;) {
    bool all = true;
    for (int j = 0; j < n; ++j) { Fiber *f = t.threads[policy().order ? n - 1 - j : j]; if (f->done || f->waiting) continue; all = false; resume(f); if (t.ex) break; }
    if (t.ex) break;
    if (!all) continue;
    // everybody is done or waits: pending tasks, then release the barrier
    drain(&t); if (t.ex) break;
    bool fin = true; for (Fiber *f : t.threads) fin = fin && f->done;
    if (fin) break;
    for (Fiber *f : t.threads) merge(t.join, f->vc);
    for (Fiber *f : t.threads) if (!f->done) { uint32_t own = f->vc[f->uid]; merge(f->vc, t.join); f->vc[f->uid] = own + 1; f->waiting = false; }
  }
  --s.active;
  for (auto &x : s.stacks) munmap(x.first, x.second); s.stacks.clear(); for (void *p : s.freed) free(p); s.freed.clear(); F().m.clear();
  for (Fiber *f : t.threads) { if (!keep_stacks) munmap(f->stack, f->stack_size); delete f; }
  if (t.ex) std::rethrow_exception(t.ex);
}
inline int mix(long k) { unsigned long x = (unsigned long)k * 0x9E3779B97F4A7C15ul; return (int)(x >> 40); }
inline bool single() { Ignore g; Fiber *f = S().cur; if (!f || f->team->threads.size() <= 1) return true; long k = f->singles++; int n = (int)f->team->threads.size(), w = 0; switch (policy().single) { case 1: w = k % n; break; case 2: w = n - 1; break; case 3: w = mix(k + 1) % n; break; } return f->tid == w; }
inline void barrier() { Ignore g; Fiber *f = S().cur; if (!f) return; f->waiting = true; pause(f); }
inline void lock(void *l) { Ignore g; if (Fiber *f = S().cur) f->locks.push_back(l); }
inline void unlock(void *l) { Ignore g; if (Fiber *f = S().cur) for (size_t i = f->locks.size(); i-- > 0;) if (f->locks[i] == l) { f->locks.erase(f->locks.begin() + i); break; } }
inline void task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool iff) {
  Fiber *f = S().cur; Ignore g;
  char *buf = (char *)aligned_alloc(std::max<long>(align, 16), (size + std::max<long>(align, 16)) / std::max<long>(align, 16) * std::max<long>(align, 16));
  if (cpy) { int ig = S().ignore; S().ignore = 0; cpy(buf, data); S().ignore = ig; } else memcpy(buf, data, size);
  if (!f) { fn(buf); return; }
  Task t{fn, buf, f->vc, f}; ++f->vc[f->uid];
  if (!iff || policy().tasks == 0) { run_task(f->team, t); if (!iff) { merge(f->vc, f->children.back()); } }
  else f->team->tasks.push_back(t);
}
inline void taskwait() { Ignore g; Fiber *f = S().cur; if (!f) return; drain(f->team); for (auto &c : f->children) merge(f->vc, c); f->children.clear(); }
// dynamic loops: iterations are handed out one by one, the threads take turns
inline bool loop_next(long *a, long *b) { Ignore g; Fiber *f = S().cur; if (!f) return false; Loop &l = f->team->loops[f->loops - 1]; int n = (int)f->team->threads.size();
  for (;; ) { long k = f->barrier++; long it = l.next + k * l.incr; if (l.incr > 0 ? it >= l.end : it <= l.end) return false; int w = policy().single == 1 ? k % n : policy().single == 2 ? n - 1 : policy().single == 3 ? mix(k + 1) % n : 0; if (w == f->tid) { *a = it; *b = it + l.incr; return true; } } }
inline bool loop_start(long s, long e, long inc, long *a, long *b) { Ignore g; Fiber *f = S().cur; if (!f) { static long done; *a = s; *b = e; return inc > 0 ? s < e : s > e; } if ((long)f->team->loops.size() <= f->loops) f->team->loops.push_back({s, e, inc, 1}); ++f->loops; f->barrier = 0; return loop_next(a, b); }
static char critical_lock, atomic_lock;
Report report() {
  Report r{(long)F().races.size(), F().accesses, S().fibers, ""}; char b[200];
  for (size_t i = 0; i < F().races.size() && i < 2; ++i) { auto &x = F().races[i]; snprintf(b, 200, "unordered accesses of two iterations to %p: %s at %p, %s at %p; ", x.addr, x.w1 ? "write" : "read", x.pc1, x.w2 ? "write" : "read", x.pc2); r.text += b; }
  F().races.clear(); F().accesses = 0; S().fibers = 0; return r;
}
}  // namespace rt
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { rt::region(fn, data, n); }
bool GOMP_single_start() { return rt::single(); }
void GOMP_barrier() { rt::barrier(); }
bool GOMP_barrier_cancel() { rt::barrier(); return false; }
void GOMP_critical_start() { rt::lock(&rt::critical_lock); }
void GOMP_critical_end() { rt::unlock(&rt::critical_lock); }
void GOMP_critical_name_start(void **p) { rt::lock(p); }
void GOMP_critical_name_end(void **p) { rt::unlock(p); }
void GOMP_atomic_start() { rt::lock(&rt::atomic_lock); }
void GOMP_atomic_end() { rt::unlock(&rt::atomic_lock); }
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool iff, unsigned, void **, int, void *) { rt::task(fn, data, cpy, size, align, iff); }
void GOMP_taskwait() { rt::taskwait(); }
void GOMP_taskyield() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() { rt::taskwait(); }
#define RT_LOOP(N) \
bool GOMP_loop_##N##_start(long s, long e, long i, long, long *a, long *b) { return rt::loop_start(s, e, i, a, b); } \
bool GOMP_loop_##N##_next(long *a, long *b) { return rt::loop_next(a, b); } \
void GOMP_parallel_loop_##N(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long, unsigned) { struct D { void (*fn)(void *); void *data; long s, e, i; } d{fn, data, s, e, i}; rt::region([](void *p) { D *d = (D *)p; rt::Fiber *f = rt::S().cur; if ((long)f->team->loops.size() <= f->loops) f->team->loops.push_back({d->s, d->e, d->i, 1}); ++f->loops; f->barrier = 0; d->fn(d->data); }, &d, n); }
RT_LOOP(dynamic) RT_LOOP(guided) RT_LOOP(nonmonotonic_dynamic) RT_LOOP(nonmonotonic_guided)
#define RT_LOOP2(N) \
bool GOMP_loop_##N##_start(long s, long e, long i, long *a, long *b) { return rt::loop_start(s, e, i, a, b); } \
bool GOMP_loop_##N##_next(long *a, long *b) { return rt::loop_next(a, b); }
RT_LOOP2(runtime) RT_LOOP2(maybe_nonmonotonic_runtime) RT_LOOP2(nonmonotonic_runtime)
void GOMP_loop_end() { rt::barrier(); }
void GOMP_loop_end_nowait() {}
int omp_get_thread_num() noexcept { return rt::S().cur ? rt::S().cur->tid : 0; }
int omp_get_num_threads() noexcept { return rt::S().cur ? (int)rt::S().cur->team->threads.size() : 1; }
int omp_get_max_threads() noexcept { return rt::policy().threads; }
int omp_in_parallel() noexcept { return rt::S().cur != nullptr; }
void omp_set_num_threads(int) noexcept {}
int omp_get_num_procs() noexcept { return rt::policy().threads; }
void omp_init_lock(omp_lock_t *) noexcept {}
void omp_destroy_lock(omp_lock_t *) noexcept {}
void omp_set_lock(omp_lock_t *l) noexcept { rt::lock(l); }
void omp_unset_lock(omp_lock_t *l) noexcept { rt::unlock(l); }
#ifdef VC_TRACK
#define RT_RW(N) void __tsan_read##N(void *p) { rt::touch(p, N, false, __builtin_return_address(0)); } void __tsan_write##N(void *p) { rt::touch(p, N, true, __builtin_return_address(0)); } \
void __tsan_unaligned_read##N(void *p) { rt::touch(p, N, false, __builtin_return_address(0)); } void __tsan_unaligned_write##N(void *p) { rt::touch(p, N, true, __builtin_return_address(0)); }
RT_RW(1) RT_RW(2) RT_RW(4) RT_RW(8) RT_RW(16)
void __tsan_read_range(void *p, size_t n) { rt::touch(p, n, false, __builtin_return_address(0)); }
void __tsan_write_range(void *p, size_t n) { rt::touch(p, n, true, __builtin_return_address(0)); }
void __tsan_vptr_update(void **p, void *) { rt::touch(p, 8, true, __builtin_return_address(0)); }
void __tsan_vptr_read(void **p) { rt::touch(p, 8, false, __builtin_return_address(0)); }
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_init() {}
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define RT_AT(B, T) T __tsan_atomic##B##_load(const volatile T *p, int) { return *p; } void __tsan_atomic##B##_store(volatile T *p, T v, int) { *p = v; } \
T __tsan_atomic##B##_exchange(volatile T *p, T v, int) { T o = *p; *p = v; return o; } T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int) { T o = *p; *p = o + v; return o; } \
T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int) { T o = *p; *p = o - v; return o; } T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int) { T o = *p; *p = o | v; return o; } \
T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int) { T o = *p; *p = o & v; return o; } T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int) { T o = *p; *p = o ^ v; return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int, int) { T o = *p; if (o == e) *p = v; return o; }
RT_AT(8, unsigned char) RT_AT(16, unsigned short) RT_AT(32, unsigned) RT_AT(64, unsigned long)
// library calls which read or write memory; memory is not reused inside a region
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t); void __real_free(void *);
void *__wrap_memcpy(void *d, const void *s, size_t n) { rt::touch(s, n, false, __builtin_return_address(0)); rt::touch(d, n, true, __builtin_return_address(0)); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { rt::touch(s, n, false, __builtin_return_address(0)); rt::touch(d, n, true, __builtin_return_address(0)); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { rt::touch(d, n, true, __builtin_return_address(0)); return __real_memset(d, c, n); }
void __wrap_free(void *p) { auto &s = rt::S(); if (s.active && s.cur && !s.ignore) { ++s.ignore; s.freed.push_back(p); --s.ignore; } else __real_free(p); }
#endif
}
#ifdef VC_TRACK
void operator delete(void *p) noexcept { auto &s = rt::S(); if (s.active && s.cur && !s.ignore) { ++s.ignore; s.freed.push_back(p); --s.ignore; } else __real_free(p); }
void operator delete(void *p, size_t) noexcept { ::operator delete(p); }
void operator delete[](void *p) noexcept { ::operator delete(p); }
void operator delete[](void *p, size_t) noexcept { ::operator delete(p); }
#endif
