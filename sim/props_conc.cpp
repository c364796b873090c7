// C13: simulated threads (fibers), preempted at any executed block of the library, with a happens-before race detector.
#include "sess.hpp"
#include <ucontext.h>
#include <sys/mman.h>

enum { MAXF = 4, MAXS = 4, STACK = 1 << 20 };

// ---- race detector: vector clocks over 4-byte granules ----
struct Clock { u32 c[MAXF + 1]; };
struct Cell { u32 w, wc, rc[MAXF + 1]; };
struct Page { Cell c[1024]; };
static std::unordered_map<u64, Page *> *g_pages; static u64 g_last_page = ~0ull; static Page *g_last_ptr = nullptr;
static Clock g_vc[MAXF + 1];
static char *g_stacks = nullptr; static int g_cur = 0; static bool g_detect = false; static u64 g_checked = 0;
extern "C" char __executable_start, edata, end; extern "C" char __data_start __attribute__((weak));
static Page *page_of(u64 pg, bool make) {
  if (pg == g_last_page) return g_last_ptr;
  auto it = g_pages->find(pg); Page *p = nullptr;
  if (it != g_pages->end()) p = it->second; else if (make) { p = (Page *) calloc(1, sizeof(Page)); (*g_pages)[pg] = p; } else return nullptr;
  g_last_page = pg; g_last_ptr = p; return p;
}
static const char *where(u64 a) { return a >= (u64) &__executable_start && a < (u64) &end ? "static data of the library" : "heap memory"; }
static void on_access(const void *q, size_t n, bool write) {
  if (!g_detect) return;
  u64 a = (u64) q;
  if (g_stacks && a >= (u64) g_stacks && a < (u64) g_stacks + (u64) STACK * (MAXF + 1)) return;    // the threads' own stacks
  if (&__data_start && a >= (u64) &__executable_start && a < (u64) &__data_start) return;         // constants
  const int f = g_cur; const Clock &vc = g_vc[f];
  for (u64 g = a >> 2; g <= (a + n - 1) >> 2; g++) {
    Cell &c = page_of(g >> 10, true)->c[g & 1023]; g_checked++;
    if (c.wc && (int) c.w != f && vc.c[c.w] < c.wc) fail(write ? "race:write-write" : "race:write-read", "%s written by simulated thread %u and then %s by thread %d with nothing ordering them", where(a), c.w, write ? "written" : "read", f);
    if (write) {
      for (int k = 0; k <= MAXF; k++) if (k != f && c.rc[k] && vc.c[k] < c.rc[k]) fail("race:read-write", "%s read by simulated thread %d and then written by thread %d with nothing ordering them", where(a), k, f);
      c.w = f; c.wc = vc.c[f]; memset(c.rc, 0, sizeof c.rc);
    } else c.rc[f] = vc.c[f];
  }
}
static void on_fresh(const void *q, size_t n) {
  if (!g_detect || !n) return;
  u64 a = (u64) q, e = a + n;
  for (u64 pg = a >> 12; pg <= (e - 1) >> 12; pg++) {
    auto it = g_pages->find(pg); if (it == g_pages->end()) continue;
    u64 lo = std::max(a, pg << 12), hi = std::min(e, (pg + 1) << 12);
    if (lo == pg << 12 && hi == (pg + 1) << 12) { free(it->second); g_pages->erase(it); if (g_last_page == pg) g_last_page = ~0ull; }
    else for (u64 g = (lo + 3) >> 2; g <= (hi - 1) >> 2; g++) memset(&it->second->c[g & 1023], 0, sizeof(Cell));
  }
}

// ---- fibers ----
struct Decision { i64 fiber, quantum, pick; };
struct Task { std::unique_ptr<Sess> s; int prog = 0; size_t at = 0; bool busy = false, done = false; Clock vc; int lastf = -1; };
struct Fiber { ucontext_t ctx; bool finished = false; u64 steps = 0, limit = ~0ull, moved = 0; int owner = 0; u32 edge = 0; bool inlib = false; void *waits = nullptr; };
struct World {
  const Scenario *s; Signal sigs[MAXS]; int nprog = 0; std::vector<Op> prog[MAXS]; std::vector<Obs> ref[MAXS];
  std::vector<std::unique_ptr<Task>> tasks; Fiber f[MAXF + 1]; int nf = 0; ucontext_t sched; std::vector<Decision> dec; size_t di = 0; i64 pick = 0, compared = 0, forks = 0, handoffs = 0;
};
struct Lock { int owner = 0, depth = 0; Clock vc{}; };
static std::map<void *, Lock> *g_locks;
static World *W = nullptr;
static void to_sched() { // leave the current fiber; its view of the simulator's registers goes with it
  int f = g_cur; Fiber &F = W->f[f]; F.steps = g_steps; F.moved = g_moved; F.limit = g_step_limit; F.owner = g_alloc.owner;
  swapcontext(&F.ctx, &W->sched);
}
static void on_preempt() { if (g_cur == 0) return; Fiber &F = W->f[g_cur]; F.edge = g_preempt_edge; F.inlib = true; fault("preempted inside the library"); to_sched(); W->f[g_cur].inlib = false; }

// A lock taken by the library: waiting is a scheduling point, release happens before the next acquisition.
static void on_lock(void *m, int op) {
  int f = g_cur; if (!f) return; Lock &l = (*g_locks)[m]; Fiber &F = W->f[f];
  if (op == 1) { if (l.owner != f || l.depth <= 0) fail("lock", "the library released a lock it does not hold"); if (--l.depth == 0) { l.owner = 0; l.vc = g_vc[f]; g_vc[f].c[f]++; for (int k = 1; k <= W->nf; k++) if (W->f[k].waits == m) W->f[k].waits = nullptr; } return; }
  if (op == 3) { g_lock_got = !l.owner || l.owner == f; if (!g_lock_got) return; }
  while (l.owner && l.owner != f) { F.waits = m; F.inlib = true; fault("waited for a lock"); to_sched(); F.inlib = false; }
  l.owner = f; l.depth++; for (int k = 0; k <= MAXF; k++) g_vc[f].c[k] = std::max(g_vc[f].c[k], l.vc.c[k]);
}

static Obs do_op(Sess &s, const Op &o) {
  if (o.k == "misc") { // functions without a converter
    Obs b; float x[16]; short sh[16]; int in[16]; OwnerScope os(-3); StepScope ss(1000000);
    for (int i = 0; i < 16; i++) x[i] = (float) ((i * 37 + o.i(0)) % 29) / 14.0f - 1.0f;
    src_float_to_short_array(x, sh, 16); src_float_to_int_array(x, in, 16); src_short_to_float_array(sh, x, 16); src_int_to_float_array(in, x, 8);
    const char *n = src_get_name((int) o.i(0) % 6), *d = src_get_description((int) o.i(0) % 6), *e = src_strerror((int) o.i(0) % 24), *v = src_get_version();
    u64 h = hash_floats(x, 16); for (const char *t : {n, d, e, v}) h = hash2(h, t ? hash_str(t) : 1); for (int i = 0; i < 16; i++) h = hash2(h, (u64) (sh[i] + 70000) ^ (u64) (u32) in[i]);
    b.err = src_is_valid_ratio(o.d(1, 1)); b.outhash = h; ss.close(); return b;
  }
  if (o.k == "simple") { Obs b; double r = std::max(0.1, std::min(10.0, ok_ratio(o.d(1, 1)))); i64 ni = std::min<i64>(clampi(o.d(0), 0, 600 / s.ch + 1), s.sig->n); Res R; std::vector<float> out; b.err = simple(s.sig->x.data(), ni, (i64) (ni * r) + 3, r, s.type, s.ch, R, out); b.used = R.used; b.gen = R.gen; b.outhash = hash_floats(out.data(), out.size()); return b; }
  if (o.k == "swap") { Sess *n = new Sess; if (!n->clone_from(s)) fail("clone", "src_clone failed"); s.close(); // take over
    s.c.st = n->c.st; s.c.owner = n->c.owner; n->c.st = nullptr; s.pull.fork(n->pull); delete n; Obs b; b.serr = s.c.error(); return b; }
  if (o.k == "again") { s.close(); if (!s.open()) fail("create", "cannot create a converter"); Obs b; b.serr = s.c.error(); return b; }
  if (o.k == "bad") { bad_call(s, (int) (o.i(0) & 7)); Obs b; if (s.c.error()) s.run(Op("r", {})); b.serr = s.c.error(); return b; }
  if (o.k == "fork") return Obs();
  return s.run(o);
}
static void fiber_main() {
  int f = g_cur; World &w = *W;
  for (;;) {
    // Take a task nobody is working on.
    std::vector<Task *> av; for (auto &t : w.tasks) if (!t->busy && !t->done) av.push_back(t.get());
    if (av.empty()) { bool left = false; for (auto &t : w.tasks) left |= !t->done; if (!left) break; to_sched(); continue; }
    Task *t = nullptr;
    if (w.pick < 0) { for (auto *x : av) if (x->lastf == f || x->lastf < 0) { t = x; break; } }
    if (!t) t = av[(size_t) ((w.pick < 0 ? 0 : w.pick) % (i64) av.size())];
    t->busy = true; if (t->lastf >= 0 && t->lastf != f) { fault("converter handed to another thread"); w.handoffs++; } t->lastf = f;
    for (int k = 0; k <= MAXF; k++) g_vc[f].c[k] = std::max(g_vc[f].c[k], t->vc.c[k]);
    if (!t->s) { t->s.reset(new Sess); t->s->setup(*w.s, &w.sigs[t->prog], std::to_string(t->prog)); if (!t->s->open()) fail("create", "cannot create a converter"); }
    else if (t->at < w.prog[t->prog].size()) {
      const Op &o = w.prog[t->prog][t->at]; Obs b = do_op(*t->s, o);
      require_same("thread", "used beside other threads vs alone", o, (i64) t->at, b, w.ref[t->prog][t->at]); w.compared++;
      if (o.k == "fork" && w.tasks.size() < 8) { std::unique_ptr<Task> n(new Task); n->prog = t->prog; n->at = t->at + 1; n->s.reset(new Sess); if (!n->s->clone_from(*t->s)) fail("clone", "src_clone failed"); n->vc = g_vc[f]; n->lastf = f; w.tasks.push_back(std::move(n)); w.forks++; fault("clone used by another thread"); }
      t->at++;
    } else { t->s->close(); t->done = true; }
    t->vc = g_vc[f]; g_vc[f].c[f]++;
    t->busy = false;
    to_sched();
  }
  w.f[f].finished = true;
  to_sched();
}

static void c13_gen(Rng &r, Scenario &s, int tier) {
  int np = (int) r.range(1, MAXS), nf = (int) r.range(2, MAXF); s.cfg["progs"] = np; s.cfg["threads"] = nf; s.cfg["cyc"] = r.chance(0.6);
  bool same = r.chance(0.5);
  for (int k = 0; k < np; k++) {
    Scenario t; TrafficOpts o; o.max_ops = 14; o.min_ops = 2; o.ends = 0.1; o.resets = 0.08; o.vary = 0.5; o.march = 0.003; gen_traffic(r, t, tier ? 1.5e4 : 6e3, o);
    std::string x = std::to_string(k); std::string x0 = "0";
    if (t.cfg["ch"] > 6) t.cfg["ch"] = (double) r.range(1, 3);
    for (auto &c : t.cfg) s.cfg[c.first + x] = c.second;
    if (same && k) for (const char *key : {"conv", "ch", "cb"}) s.cfg[key + x] = s.cfg[key + x0];
    for (auto &q : t.ops) {
      Op o2("x" + q.k, {(double) k}); for (double v : q.a) o2.a.push_back(v); s.ops.push_back(o2);
      if (r.chance(0.1)) s.op("xfork", {(double) k}); if (r.chance(0.06)) s.op("xswap", {(double) k}); if (r.chance(0.05)) s.op("xagain", {(double) k});
      if (r.chance(0.08)) s.op("xsimple", {(double) k, (double) r.range(0, 100), r.logu(0.3, 3)}); if (r.chance(0.06)) s.op("xmisc", {(double) k, (double) r.below(100), r.logu(0.001, 1000)}); if (r.chance(0.05)) s.op("xbad", {(double) k, (double) r.below(8)});
    }
  }
  // The schedule: who runs, for how many blocks of the library's code, which converter it takes next.
  i64 nd = r.range(5, r.chance(0.3) ? 400 : 80); int style = (int) r.below(4); double sticky = r.unit();
  for (i64 k = 0; k < nd; k++) {
    i64 q = style == 0 ? r.range(1, 12) : style == 1 ? r.range(1, 200) : style == 2 ? (i64) r.logu(1, 5000) : (r.chance(0.3) ? r.range(1, 40) : 100000);
    s.op("q", {(double) r.below(MAXF), (double) q, r.chance(sticky) ? -1.0 : (double) r.below(8)});
  }
}
static void c13_exec(const Scenario &s) {
  World w; W = &w; w.s = &s; w.nprog = (int) clampi(s.d("progs", 1), 1, MAXS); w.nf = (int) clampi(s.d("threads", 2), 1, MAXF);
  for (auto &o : s.ops) {
    if (o.k == "q") { w.dec.push_back(Decision{clampi(o.d(0), 0, 1000), clampi(o.d(1), 1, 10000000), clampi(o.d(2, -1), -1, 1000)}); continue; }
    if (o.k.size() < 2 || o.k[0] != 'x') continue;
    int p = (int) clampi(o.d(0), 0, w.nprog - 1); Op q; q.k = o.k.substr(1); q.a.assign(o.a.begin() + std::min<size_t>(1, o.a.size()), o.a.end()); if (w.prog[p].size() < 200) w.prog[p].push_back(q);
  }
  i64 total = 0;
  for (int k = 0; k < w.nprog; k++) {
    std::string x = std::to_string(k); Scenario t = s; for (const char *key : {"conv", "ch", "sig", "kind", "peak", "n"}) t.cfg[key] = s.d(key + x, s.d(key, 1)); int ty = cfg_type(t), ch = cfg_ch(t, ty); w.sigs[k] = cfg_signal(t, ch, clampi(t.d("n", 100), 1, 100000 / ch));
    Sess a; a.setup(s, &w.sigs[k], x); if (!a.open()) fail("create", "cannot create a converter"); for (auto &o : w.prog[k]) { w.ref[k].push_back(do_op(a, o)); total++; } a.close();
    std::unique_ptr<Task> n(new Task); n->prog = k; memset(&n->vc, 0, sizeof n->vc); w.tasks.push_back(std::move(n));
  }
  if (!g_stacks) g_stacks = (char *) mmap(nullptr, (size_t) STACK * (MAXF + 1), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_pages = new std::unordered_map<u64, Page *>; g_last_page = ~0ull; memset(g_vc, 0, sizeof g_vc); for (int k = 0; k <= MAXF; k++) g_vc[k].c[k] = 1; g_checked = 0;
  for (int k = 1; k <= w.nf; k++) { getcontext(&w.f[k].ctx); w.f[k].ctx.uc_stack.ss_sp = g_stacks + (size_t) STACK * k; w.f[k].ctx.uc_stack.ss_size = STACK; w.f[k].ctx.uc_link = nullptr; makecontext(&w.f[k].ctx, fiber_main, 0); }
  g_on_access = on_access; g_on_fresh = on_fresh; g_on_preempt = on_preempt; g_on_lock = on_lock; g_locks = new std::map<void *, Lock>; g_detect = true;
  bool cyc = s.i("cyc") != 0; i64 switches = 0, inside = 0; u64 steps0 = g_steps, moved0 = g_moved, lim0 = g_step_limit; int own0 = g_alloc.owner; int prev = 0;
  for (;;) {
    std::vector<int> run; for (int k = 1; k <= w.nf; k++) if (!w.f[k].finished && !w.f[k].waits) run.push_back(k);
    if (run.empty()) { for (int k = 1; k <= w.nf; k++) if (w.f[k].waits) fail("deadlock", "every simulated thread waits for a lock of the library"); break; }
    Decision d{0, 0, -1};
    if (!w.dec.empty() && (w.di < w.dec.size() || (cyc && switches < 20000))) { d = w.dec[w.di % w.dec.size()]; w.di++; } else { d.fiber = 0; for (size_t k = 0; k < run.size(); k++) if (run[k] == prev) d.fiber = (i64) k; }
    // Without a decision a thread that only waits must not be chosen for ever.
    bool work = false; for (auto &t : w.tasks) work |= !t->busy && !t->done;
    int f = run[(size_t) (d.fiber % (i64) run.size())]; if (!work) { for (int k : run) if (w.f[k].inlib) { if (!w.f[f].inlib) f = k; break; } }
    if (w.f[f].inlib == false) { bool can = work; if (!can) for (int k : run) if (w.f[k].inlib) f = k; }
    switches++; if (f != prev) log_mix((u64) f);
    u64 h = 0; for (int k = 1; k <= w.nf; k++) h = h * 70001 + (w.f[k].inlib ? w.f[k].edge : 0); state_seen(hash2(h, (u64) f)); { int in = 0; for (int k = 1; k <= w.nf; k++) in += w.f[k].inlib; if (in > 1) inside++; }
    prev = f; w.pick = d.pick; g_cur = f; g_fiber = f; g_preempt = d.quantum > 0 ? (u64) d.quantum : 0; g_steps = w.f[f].steps; g_moved = w.f[f].moved; g_step_limit = w.f[f].limit; g_alloc.owner = w.f[f].owner;
    swapcontext(&w.sched, &w.f[f].ctx);
    g_cur = 0; g_fiber = 0; g_preempt = 0; g_steps = steps0; g_moved = moved0; g_step_limit = lim0; g_alloc.owner = own0;
    if (switches > 2000000) fail("harness", "the threads do not finish");
  }
  g_detect = false; g_on_access = nullptr; g_on_fresh = nullptr; g_on_preempt = nullptr; g_on_lock = nullptr; delete g_locks;
  for (auto &p : *g_pages) free(p.second); delete g_pages; g_pages = nullptr; W = nullptr;
  if (g_alloc.live) fail("leak", "%lld block(s) left when every converter is deleted", (long long) g_alloc.live);
  count("thread switches", switches); count("states with two or more threads inside the library", inside); count("memory accesses checked for races", (i64) g_checked); count("converters handed over between threads", w.handoffs);
  g_nontrivial = inside > 0 && w.compared > 1 && total > 0;
}
static PropReg r13({"C13", "up to four simulated threads working on up to eight converters (created, cloned, used, reset, handed over and deleted concurrently), preempted at scheduler-chosen blocks of the library's code; every result compared with a solo run and every access checked for happens-before races; non-trivial: two threads suspended inside the library at the same time", c13_gen, c13_exec});
