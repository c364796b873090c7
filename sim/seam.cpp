#include "seam.hpp"
#include <time.h>
#include <sys/time.h>
#include <sys/types.h>
#include <unistd.h>
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <map>
#ifdef SIM_ASAN
#define HAVE_ASAN 1
#endif

AllocSeam g_alloc;
u64 g_envseed = 0; int g_errno = -1;
static u64 g_envcount = 0;
u64 g_moved = 0;
u64 g_steps = 0, g_step_limit = ~0ull, g_preempt = 0;
void (*g_on_preempt)() = nullptr; u32 g_preempt_edge = 0;
void (*g_on_access)(const void *, size_t, bool) = nullptr;
void (*g_on_fresh)(const void *, size_t) = nullptr;
int g_free_foreign_check = 1;
u64 StepScope::total = 0;
void (*g_on_lock)(void *, int) = nullptr; bool g_lock_got = true;
static std::map<std::pair<void *, int>, void *> &tls() { static auto *m = new std::map<std::pair<void *, int>, void *>; return *m; }
static std::map<void *, bool> &onces() { static auto *m = new std::map<void *, bool>; return *m; }
void seam_threads_reset() { for (auto &t : tls()) free(t.second); tls().clear(); g_on_lock = nullptr; g_lock_got = true; }
static unsigned char *edges_ = nullptr;
static u32 nguards = 0;
void seam_shared(unsigned char *e) { edges_ = e; }
const unsigned char *seam_edges() { return edges_; }

static std::unordered_map<void *, Block> &ledger() { static auto *m = new std::unordered_map<void *, Block>; return *m; }
static std::multimap<size_t, void *> &bin() { static auto *m = new std::multimap<size_t, void *>; return *m; }

extern double g_run_simtime; double g_run_simtime = 0; extern u64 g_run_calls; u64 g_run_calls = 0;
void seam_reset() {
  seam_threads_reset();
  g_alloc = AllocSeam(); ledger().clear(); bin().clear();   // blocks of an abandoned run are leaked on purpose
  g_envseed = 0; g_errno = -1; g_envcount = 0; g_steps = 0; g_moved = 0; g_step_limit = ~0ull; g_preempt = 0; g_on_preempt = nullptr; g_on_access = nullptr; g_on_fresh = nullptr; g_free_foreign_check = 1;
  StepScope::total = 0; g_run_simtime = 0; g_run_calls = 0; errno = 0;
}
void seam_finish() { core_account(g_run_simtime, StepScope::total, g_run_calls); }

i64 alloc_owned_by(int owner) { i64 n = 0; for (auto &b : ledger()) if (b.second.owner == owner) n++; return n; }
i64 alloc_bytes_of(int owner, i64 *blocks) { i64 n = 0, k = 0; for (auto &b : ledger()) if (b.second.owner == owner) { n += (i64) b.second.size; k++; } if (blocks) *blocks = k; return n; }
bool alloc_is_live(const void *p) { return ledger().count((void *) p) != 0; }

#ifdef HAVE_ASAN
static const size_t TAIL = 0;
#else
static const size_t TAIL = 32;
#endif
static void fill_block(unsigned char *p, size_t n) {
  switch (g_alloc.fill) {
    case FILL_ZERO: memset(p, 0, n); break;
    case FILL_ONES: memset(p, 0xff, n); break;
    case FILL_NAN: { for (size_t i = 0; i + 4 <= n; i += 4) { u32 v = 0x7fc12345; memcpy(p + i, &v, 4); } break; }
    case FILL_BIG: { for (size_t i = 0; i + 4 <= n; i += 4) { float v = 12345.678f; memcpy(p + i, &v, 4); } break; }
    default: { u64 x = mix64(g_alloc.fillseed + g_alloc.seq); for (size_t i = 0; i < n; i++) { if ((i & 7) == 0) x = x * 6364136223846793005ull + 1442695040888963407ull; p[i] = (unsigned char) (x >> (8 * (i & 7))); } }
  }
}
static bool should_fail() {
  g_alloc.since++;
  bool f = false;
  if (g_alloc.fail_at > 0 && (g_alloc.since == g_alloc.fail_at || (g_alloc.fail_forever && g_alloc.since >= g_alloc.fail_at))) f = true;
  if (g_alloc.since <= 60 && (g_alloc.fail_mask >> (g_alloc.since - 1)) & 1) f = true;
  if (f) { g_alloc.fired++; fault("allocation failure"); errno = ENOMEM; }
  return f;
}
static void *do_alloc(size_t n, bool zero) {
  if (should_fail()) return nullptr;
  if (n > (size_t) 1 << 32) return nullptr;
  g_alloc.seq++; g_alloc.total++;
  size_t front = 0; unsigned char *base = nullptr; bool recycled = false;
#ifndef HAVE_ASAN
  front = (size_t) (g_alloc.place & 15) * 16;
#endif
  if (g_alloc.fill == FILL_RECYCLE) { auto it = bin().find(n); if (it != bin().end()) { base = (unsigned char *) it->second - front; bin().erase(it); recycled = true; } }
  if (!base) base = (unsigned char *) malloc(front + n + TAIL);
  if (!base) return nullptr;
  unsigned char *p = base + front;
  if (zero) memset(p, 0, n); else if (!recycled) fill_block(p, n);
  if (TAIL) memset(p + n, 0xC5, TAIL);
  ledger()[p] = Block{n, g_alloc.owner, (u64) g_alloc.seq, (int) front};
  g_alloc.live++; g_alloc.live_bytes += n;
  if (g_on_fresh) g_on_fresh(p, n);
  return p;
}
static void do_free(void *p) {
  if (!p) return;
  auto it = ledger().find(p);
  if (it == ledger().end()) fail("free-unowned", "the library freed a block it does not own (double free or foreign pointer)");
  Block b = it->second;
  if (g_free_foreign_check && b.owner != g_alloc.owner) fail("free-foreign", "a block (%zu bytes) belonging to converter %d was freed while working for converter %d", b.size, b.owner, g_alloc.owner);
  for (size_t i = 0; i < TAIL; i++) if (((unsigned char *) p)[b.size + i] != 0xC5) fail("heap-overrun", "the library wrote past the end of a %zu byte block", b.size);
  ledger().erase(it); g_alloc.live--; g_alloc.live_bytes -= b.size;
  if (g_on_fresh) g_on_fresh(p, b.size);
  if (g_alloc.fill == FILL_RECYCLE) { bin().emplace(b.size, p); return; }
  memset(p, 0xDD, b.size);
  free((unsigned char *) p - b.front);
}

extern "C" {
void *sim_malloc(size_t n) { return do_alloc(n, false); }
void *sim_calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; return do_alloc(n, true); }
void *sim_realloc(void *p, size_t n) {
  if (!p) return do_alloc(n, false);
  auto it = ledger().find(p); if (it == ledger().end()) fail("free-unowned", "realloc of a block the library does not own");
  void *q = do_alloc(n, false); if (!q) return nullptr;
  memcpy(q, p, std::min(n, it->second.size)); do_free(p); return q;
}
void *sim_reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; return sim_realloc(p, n); }
void *sim_aligned_alloc(size_t, size_t n) { return do_alloc(n, false); }
int sim_posix_memalign(void **p, size_t, size_t n) { *p = do_alloc(n, false); return *p ? 0 : ENOMEM; }
void sim_free(void *p) { do_free(p); }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *) do_alloc(n, false); if (p) memcpy(p, s, n); return p; }

// Environment: none of these is used today; if they ever are, the simulator decides what is read.
static u64 env_next() { return mix64(g_envseed * 77 + ++g_envcount); }
time_t sim_time(time_t *t) { time_t v = 1000000000 + (time_t) (mix64(g_envseed) % 1000000000); if (t) *t = v; return v; }
clock_t sim_clock(void) { return (clock_t) (mix64(g_envseed + 1) % 100000000); }
int sim_gettimeofday(struct timeval *tv, void *) { if (tv) { tv->tv_sec = sim_time(0); tv->tv_usec = mix64(g_envseed + 2) % 1000000; } return 0; }
int sim_clock_gettime(clockid_t, struct timespec *ts) { ts->tv_sec = sim_time(0); ts->tv_nsec = mix64(g_envseed + 3) % 1000000000; return 0; }
int sim_rand(void) { return (int) (env_next() & 0x7fffffff); }
long sim_random(void) { return (long) (env_next() & 0x7fffffff); }
double sim_drand48(void) { return (env_next() >> 11) / 9007199254740992.0; }
char *sim_getenv(const char *) { static char b[2] = "1"; return (mix64(g_envseed + 4) & 1) ? b : nullptr; }
pid_t sim_getpid(void) { return (pid_t) (mix64(g_envseed + 5) % 30000 + 2); }

void sim_assert_fail(const char *expr, const char *, unsigned, const char *fn) { fail("assert", "assertion failed in %s: %s", fn, expr); }
void sim_abort(void) { fail("abort", "abort called"); }
void sim_exit(int) { fail("exit", "the library terminated the process"); }

// Threads of the caller: one set of thread-local variables per simulated thread, locks that the scheduler knows about.
struct EmuTls { size_t size, align; void *unused; const void *init; };
void *sim___emutls_get_address(EmuTls *c) {
  void *&p = tls()[std::make_pair((void *) c, g_fiber)];
  if (!p) { size_t n = (c->size + 63) & ~(size_t) 63; p = aligned_alloc(64, n); if (c->init) memcpy(p, c->init, c->size); else memset(p, 0, c->size); if (g_on_fresh) g_on_fresh(p, n); }
  return p;
}
static int lock(void *m) { if (g_on_lock) g_on_lock(m, 0); return 0; }
static int unlock(void *m) { if (g_on_lock) g_on_lock(m, 1); return 0; }
int sim_pthread_mutex_lock(void *m) { return lock(m); }
int sim_pthread_mutex_unlock(void *m) { return unlock(m); }
int sim_pthread_spin_lock(void *m) { return lock(m); }
int sim_pthread_spin_unlock(void *m) { return unlock(m); }
int sim_mtx_lock(void *m) { return lock(m); }
int sim_mtx_unlock(void *m) { return unlock(m); }
int sim_pthread_mutex_trylock(void *m) { if (!g_on_lock) return 0; int busy = 3; g_on_lock(m, busy); return g_lock_got ? 0 : EBUSY; }
static int once(int *ctl, void (*fn)()) { lock(ctl); if (!onces()[ctl]) { onces()[ctl] = true; fn(); } unlock(ctl); return 0; }
int sim_pthread_once(int *ctl, void (*fn)()) { return once(ctl, fn); }
void sim_call_once(int *ctl, void (*fn)()) { once(ctl, fn); }
pthread_t sim_pthread_self(void) { return (pthread_t) (1000 + g_fiber); }
int sim_sched_yield(void) { if (g_on_preempt) g_on_preempt(); return 0; }

// Executed blocks.
void __sanitizer_cov_trace_pc_guard_init(u32 *start, u32 *stop) { if (start == stop || *start) return; for (u32 *x = start; x < stop; x++) *x = ++nguards; }
void __sanitizer_cov_trace_pc_guard(u32 *g) {
  if (edges_) edges_[*g & (SEAM_EDGES - 1)] = 1;
  if (++g_steps > g_step_limit) fail("hang", "an API call executed more than %llu blocks without returning", (unsigned long long) g_step_limit);
  if (g_preempt && --g_preempt == 0 && g_on_preempt) { g_preempt_edge = *g; g_on_preempt(); }
}
void __sanitizer_cov_trace_pc(void) {
  if (++g_steps > g_step_limit) fail("hang", "an API call executed more than %llu blocks without returning", (unsigned long long) g_step_limit);
}
#define ACC(n) void __sanitizer_cov_load##n(const void *p) { if (g_on_access) g_on_access(p, n, false); } void __sanitizer_cov_store##n(const void *p) { if (g_on_access) g_on_access(p, n, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void *sim_memcpy(void *d, const void *s, size_t n) { g_moved += n; if (g_on_access && n) { g_on_access(s, n, false); g_on_access(d, n, true); } return memcpy(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { g_moved += n; if (g_on_access && n) { g_on_access(s, n, false); g_on_access(d, n, true); } return memmove(d, s, n); }
void *sim_memset(void *d, int c, size_t n) { g_moved += n; if (g_on_access && n) g_on_access(d, n, true); return memset(d, c, n); }
#ifdef HAVE_ASAN
void *__asan_memcpy(void *, const void *, size_t); void *__asan_memmove(void *, const void *, size_t); void *__asan_memset(void *, int, size_t);
void *sim___asan_memcpy(void *d, const void *s, size_t n) { g_moved += n; return __asan_memcpy(d, s, n); }
void *sim___asan_memmove(void *d, const void *s, size_t n) { g_moved += n; return __asan_memmove(d, s, n); }
void *sim___asan_memset(void *d, int c, size_t n) { g_moved += n; return __asan_memset(d, c, n); }
#endif
}

__attribute__((noinline)) void dirty_stack(u64 seed) {
  volatile unsigned char b[16384]; u64 x = seed;
  for (size_t i = 0; i < sizeof b; i++) { if ((i & 7) == 0) x = mix64(x); b[i] = (unsigned char) (x >> (8 * (i & 7))); }
  asm volatile("" ::"r"(b) : "memory");
}
