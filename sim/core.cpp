#include "core.hpp"
#include "seam.hpp"
#include <cstdarg>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
#ifdef SIM_ASAN
#define HAVE_ASAN 1
#endif
#ifdef HAVE_ASAN
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif

bool g_trace = false;
u64 g_loghash = 0;
double g_simtime = 0;
bool g_nontrivial = false;

u64 hash_str(const std::string &s) { u64 h = 0xcbf29ce484222325ull; for (unsigned char c : s) { h ^= c; h *= 0x100000001b3ull; } return mix64(h); }
u64 hash_floats(const float *p, size_t n) { u64 h = n; for (size_t i = 0; i < n; i++) { uint32_t b; memcpy(&b, p + i, 4); h = (h ^ b) * 0x9e3779b97f4a7c15ull; h ^= h >> 31; } return h; }

std::string num_text(double v) {
  char b[64];
  if (std::isfinite(v) && v == std::floor(v) && std::fabs(v) < 1e15 && !(v == 0 && std::signbit(v))) snprintf(b, sizeof b, "%lld", (long long) v);
  else snprintf(b, sizeof b, "%a", v);
  return b;
}
std::string Scenario::text() const {
  std::string s = "scenario " + prop + " seed=" + std::to_string(seed) + "\n";
  for (auto &c : cfg) s += "cfg " + c.first + " " + num_text(c.second) + "\n";
  for (auto &o : ops) { s += "op " + o.k; for (double v : o.a) s += " " + num_text(v); s += "\n"; }
  return s + "end\n";
}
// Distinctness of schedules: configuration (without the signal seed) and every operation.
u64 Scenario::shape() const {
  u64 h = hash_str(prop);
  auto bits = [](double d) { u64 b; memcpy(&b, &d, 8); return b; };
  for (auto &c : cfg) if (c.first != "sig") h = hash2(h, hash_str(c.first) ^ bits(c.second));
  for (auto &o : ops) { h = hash2(h, hash_str(o.k)); for (double v : o.a) h = hash2(h, bits(v)); }
  return h;
}
static Scenario make(const PropDef *p, u64 seed, u64 index, int tier);
bool parse_scenarios(const std::string &text, std::vector<Scenario> &out, std::string *err) {
  size_t p = 0; Scenario cur; bool in = false;
  while (p < text.size()) {
    size_t e = text.find('\n', p); if (e == std::string::npos) e = text.size();
    std::string line = text.substr(p, e - p); p = e + 1;
    std::vector<std::string> w; size_t q = 0;
    while (q < line.size()) { while (q < line.size() && line[q] == ' ') q++; size_t b = q; while (q < line.size() && line[q] != ' ') q++; if (q > b) w.push_back(line.substr(b, q - b)); }
    if (w.empty() || w[0][0] == '#') continue;
    if (w[0] == "scenario" && w.size() >= 2) { cur = Scenario(); cur.prop = w[1]; in = true; if (w.size() > 2 && w[2].rfind("seed=", 0) == 0) cur.seed = strtoull(w[2].c_str() + 5, 0, 10); }
    else if (w[0] == "cfg" && w.size() == 3 && in) cur.cfg[w[1]] = strtod(w[2].c_str(), 0);
    else if (w[0] == "op" && w.size() >= 2 && in) { Op o; o.k = w[1]; for (size_t i = 2; i < w.size(); i++) o.a.push_back(strtod(w[i].c_str(), 0)); cur.ops.push_back(o); }
    else if (w[0] == "end" && in) { out.push_back(cur); in = false; }
    else if (w[0] == "range" && w.size() == 7 && !in) { // range PROP SEED FROM STRIDE N TIER: generated scenarios, all in one process
      const PropDef *p = find_prop(w[1]); if (!p) { if (err) *err = "unknown property"; return false; }
      u64 sd = strtoull(w[2].c_str(), 0, 10), f = strtoull(w[3].c_str(), 0, 10), st = strtoull(w[4].c_str(), 0, 10), n = strtoull(w[5].c_str(), 0, 10);
      for (u64 k = 0; k < n && k < 10000000; k++) out.push_back(make(p, sd, f + k * st, atoi(w[6].c_str())));
    }
    else { if (err) *err = "bad line: " + line; return false; }
  }
  if (in) { if (err) *err = "missing end"; return false; }
  return !out.empty();
}

static std::vector<PropDef> &props() { static std::vector<PropDef> v; return v; }
void register_prop(const PropDef &p) { props().push_back(p); }
const PropDef *find_prop(const std::string &id) { for (auto &p : props()) if (id == p.id) return &p; return nullptr; }

// Shared with the supervising parent process: what the child was doing and how it ended.
struct Shared {
  volatile u64 cur; volatile u64 done; volatile int failed; char cls[96]; char msg[600]; volatile u64 loghash;
  double simtime; u64 steps; u64 nontrivial; u64 api_calls;
  int ncounters; struct { char name[56]; i64 n; int isfault; } counters[256];
  u32 edges; u32 nstates; u32 nshapes;
};
static Shared *g_sh = nullptr;

// Open-addressing hash sets in shared memory so that they survive a crash of the child.
static const u32 SETCAP = 1u << 20;
static u64 *g_states = nullptr, *g_shapes = nullptr;
static bool set_add(u64 *t, u64 h, u32 &n) {
  if (!t) return false;
  if (!h) h = 1;
  if (n > SETCAP * 3 / 4) return false;
  for (u32 i = (u32) (h % SETCAP);; i = (i + 1) % SETCAP) { if (t[i] == h) return false; if (!t[i]) { t[i] = h; n++; return true; } }
}
void state_seen(u64 h) { if (g_sh) { u32 n = g_sh->nstates; set_add(g_states, mix64(h), n); g_sh->nstates = n; } }

static void counter(const char *name, i64 n, int isfault) {
  if (!g_sh || !n) return;
  for (int i = 0; i < g_sh->ncounters; i++) if (g_sh->counters[i].isfault == isfault && !strcmp(g_sh->counters[i].name, name)) { g_sh->counters[i].n += n; return; }
  if (g_sh->ncounters >= 256) return;
  auto &c = g_sh->counters[g_sh->ncounters++];
  snprintf(c.name, sizeof c.name, "%s", name); c.n = n; c.isfault = isfault;
}
void count(const char *name, i64 n) { counter(name, n, 0); }
void fault(const char *name, i64 n) { counter(name, n, 1); }

void trace(const char *fmt, ...) {
  if (!g_trace) return;
  va_list ap; va_start(ap, fmt); vprintf(fmt, ap); va_end(ap); putchar('\n');
}

static void report(const char *cls, const char *msg) {
  if (!g_sh || g_sh->failed) return;
  g_sh->failed = 1;
  snprintf(g_sh->cls, sizeof g_sh->cls, "%s", cls);
  snprintf(g_sh->msg, sizeof g_sh->msg, "%s", msg);
  g_sh->loghash = g_loghash;
}
void fail(const char *cls, const char *fmt, ...) {
  char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  report(cls, b);
  fflush(stdout);
  _exit(3);
}
#ifdef HAVE_ASAN
static void on_death() {
  const char *d = __asan_report_present() ? __asan_get_report_description() : nullptr;
  char c[96]; snprintf(c, sizeof c, "asan:%s", d ? d : "sanitizer");
  if (!d) snprintf(c, sizeof c, "sanitizer");
  report(c, d ? "AddressSanitizer report inside the simulated run" : "sanitizer report inside the simulated run (undefined behaviour)");
}
extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:handle_abort=0:handle_segv=1:handle_sigfpe=1:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=8:max_redzone=64:exitcode=99"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1"; }
#endif
static void on_signal(int s) {
  char c[32]; snprintf(c, sizeof c, "signal:%d", s);
  report(c, s == SIGABRT ? "abort inside the simulated run" : "fatal signal inside the simulated run");
  _exit(3);
}

static Scenario make(const PropDef *p, u64 seed, u64 index, int tier) {
  Scenario s; s.prop = p->id; s.seed = index;
  Rng r(hash2(hash2(seed, hash_str(p->id)), index));
  p->gen(r, s, tier);
  return s;
}

static void run_one(const PropDef *p, const Scenario &s) {
  g_loghash = 0xcbf29ce484222325ull;
  g_nontrivial = false;
  seam_reset();
  p->exec(s);
  seam_finish();
  if (g_sh && g_nontrivial) { u32 n = g_sh->nshapes; if (set_add(g_shapes, s.shape(), n)) g_sh->nontrivial++; g_sh->nshapes = n; }
}

static void child_setup() {
  if (!g_trace && !getenv("SIM_STDERR")) { int fd = open("/dev/null", O_WRONLY); if (fd >= 0) dup2(fd, 2); }
#ifdef HAVE_ASAN
  __sanitizer_set_death_callback(on_death);
#else
  // An alternate stack, so that a stack overflow is reported too.
  static char alt[1 << 16]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
#endif
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
  sigaction(SIGABRT, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGTRAP, &sa, 0);
#ifndef HAVE_ASAN
  sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGFPE, &sa, 0);
#endif
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

struct Outcome { bool failed = false; std::string cls, msg; u64 loghash = 0; };

// Run a list of scenarios in one fresh child process; the outcome is that of the first failure.
static Outcome run_isolated(const std::vector<Scenario> &list, double limit_s, bool tr) {
  g_sh->failed = 0; g_sh->cls[0] = g_sh->msg[0] = 0; g_sh->loghash = 0; g_sh->done = 0;
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    g_trace = tr;
    child_setup();
    u64 h = 0;
    for (size_t i = 0; i < list.size(); i++) {
      const PropDef *p = find_prop(list[i].prop);
      if (!p) { printf("unknown property %s\n", list[i].prop.c_str()); _exit(2); }
      g_trace = tr && i + 1 == list.size();
      run_one(p, list[i]); h = hash2(h, g_loghash); g_sh->done = i + 1;
    }
    g_sh->loghash = h; fflush(stdout); _exit(0);
  }
  double t0 = now(); int st = 0;
  for (;;) {
    pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) break;
    if (now() - t0 > limit_s) { kill(pid, SIGKILL); waitpid(pid, &st, 0); report("wall-timeout", "simulated run did not end"); break; }
    usleep(500);
  }
  Outcome o;
  if (!g_sh->failed && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) report("died", "simulation process died");
  o.failed = g_sh->failed; o.cls = g_sh->cls; o.msg = g_sh->msg; o.loghash = g_sh->loghash;
  return o;
}

// ---- minimisation: shrink while the same violation class persists ----
struct Minimiser {
  std::string cls; double deadline; int tries = 0;
  std::vector<Scenario> prefix;
  bool still(const Scenario &s) {
    if (now() > deadline) return false;
    tries++;
    std::vector<Scenario> l = prefix; l.push_back(s);
    Outcome o = run_isolated(l, 60, false);
    return o.failed && o.cls == cls;
  }
  Scenario run(Scenario s) {
    // Earlier scenarios of the same process, if they were needed at all.
    for (size_t i = 0; i < prefix.size();) { auto keep = prefix; prefix.erase(prefix.begin() + i); if (!still(s)) { prefix = keep; i++; } }
    bool changed = true;
    for (int round = 0; changed && round < 4 && now() < deadline; round++) {
      changed = false;
      for (size_t chunk = std::max<size_t>(1, s.ops.size() / 2); chunk >= 1; chunk /= 2) {
        for (size_t i = 0; i < s.ops.size();) {
          Scenario t = s; size_t e = std::min(s.ops.size(), i + chunk);
          t.ops.erase(t.ops.begin() + i, t.ops.begin() + e);
          if (still(t)) { s = t; changed = true; } else i += chunk;
          if (now() > deadline) return s;
        }
        if (chunk == 1) break;
      }
      auto shrink = [&](double v) { std::vector<double> c; if (!std::isfinite(v)) return c; if (v == 0) return c; c.push_back(0); if (v != 1) c.push_back(1);
        if (v == std::floor(v) && std::fabs(v) < 1e15) { if (std::fabs(v) > 3) { c.push_back(std::floor(v / 2)); c.push_back(std::floor(v * 3 / 4)); } if (v > 1) c.push_back(v - 1); }
        else { double q = std::round(v * 4) / 4; if (q != v && q > 0) c.push_back(q); double r = (double) (float) v; if (r != v) c.push_back(r); }
        return c; };
      std::vector<std::string> keys; for (auto &c : s.cfg) keys.push_back(c.first);
      for (auto &k : keys) for (int rep = 0; rep < 24; rep++) {
        bool any = false;
        for (double v : shrink(s.cfg[k])) { Scenario t = s; t.cfg[k] = v; if (t.text() != s.text() && still(t)) { s = t; any = changed = true; break; } if (now() > deadline) return s; }
        if (!any) break;
      }
      for (size_t i = 0; i < s.ops.size(); i++) for (size_t j = 0; j < s.ops[i].a.size(); j++) for (int rep = 0; rep < 24; rep++) {
        bool any = false;
        for (double v : shrink(s.ops[i].a[j])) { Scenario t = s; t.ops[i].a[j] = v; if (t.text() != s.text() && still(t)) { s = t; any = changed = true; break; } if (now() > deadline) return s; }
        if (!any) break;
      }
    }
    return s;
  }
};

static std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }

static std::string slurp(const char *f) { std::string s; FILE *h = fopen(f, "rb"); if (!h) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); fclose(h); return s; }

static void *shmap(size_t n) { void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(2); } return p; }

static void dump_set(FILE *f, const u64 *t) { for (u32 i = 0; i < SETCAP; i++) if (t[i]) fwrite(&t[i], 8, 1, f); }

int main(int argc, char **argv) {
  // A fixed address-space layout makes runs repeatable even for code that misbehaves.
  if (!getenv("SIM_NOASLR")) { setenv("SIM_NOASLR", "1", 1); int old = personality(0xffffffff); if (old != -1 && !(old & ADDR_NO_RANDOMIZE) && personality(old | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
  std::string cmd = argc > 1 ? argv[1] : "";
  auto opt = [&](const char *n, const char *def) -> std::string { for (int i = 2; i + 1 < argc; i++) if (std::string(argv[i]) == n) return argv[i + 1]; return def; };
  g_sh = (Shared *) shmap(sizeof(Shared)); memset(g_sh, 0, sizeof *g_sh);
  g_states = (u64 *) shmap(SETCAP * 8); g_shapes = (u64 *) shmap(SETCAP * 8);
  seam_shared((unsigned char *) shmap(SEAM_EDGES));
  int tier = opt("--tier", "quick") == "thorough";
  u64 seed = strtoull(opt("--seed", "1").c_str(), 0, 10);

  if (cmd == "list") { for (auto &p : props()) printf("%s\t%s\n", p.id, p.rule); return 0; }
  if (cmd == "gen") { const PropDef *p = find_prop(opt("--prop", "")); if (!p) return 2; printf("%s", make(p, seed, strtoull(opt("--index", "0").c_str(), 0, 10), tier).text().c_str()); return 0; }
  if (cmd == "exec") { // replay a file in a fresh process
    std::vector<Scenario> l; std::string err;
    if (!parse_scenarios(slurp(argv[2]), l, &err)) { printf("cannot parse: %s\n", err.c_str()); return 2; }
    Outcome o = run_isolated(l, 300, getenv("SIM_TRACE") != nullptr);
    printf("%s class=%s loghash=%016llx msg=%s\n", o.failed ? "FAIL" : "PASS", o.cls.c_str(), (unsigned long long) o.loghash, o.msg.c_str());
    return o.failed ? 1 : 0;
  }
  if (cmd == "hashes") { // determinism self-test: log hash of every run, each in the order given
    const PropDef *p = find_prop(opt("--prop", "")); if (!p) return 2;
    u64 from = strtoull(opt("--from", "0").c_str(), 0, 10), n = strtoull(opt("--n", "10").c_str(), 0, 10), stride = strtoull(opt("--stride", "1").c_str(), 0, 10);
    child_setup();
    for (u64 k = 0; k < n; k++) { u64 i = from + k * stride; run_one(p, make(p, seed, i, tier)); printf("%llu %016llx\n", (unsigned long long) i, (unsigned long long) g_loghash); }
    return 0;
  }
  if (cmd == "batch") {
    const PropDef *p = find_prop(opt("--prop", "")); if (!p) { fprintf(stderr, "no such property\n"); return 2; }
    u64 from = strtoull(opt("--from", "0").c_str(), 0, 10), stride = strtoull(opt("--stride", "1").c_str(), 0, 10), n = strtoull(opt("--n", "100").c_str(), 0, 10);
    double tlimit = atof(opt("--seconds", "30").c_str()); std::string out = opt("--out", ""), replay = opt("--replay", "");
    double t0 = now();
    g_sh->cur = from;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      child_setup();
      for (u64 k = 0; k < n && now() - t0 < tlimit; k++) { // the clock only bounds how many seeds are run
        u64 i = from + k * stride; g_sh->cur = i;
        run_one(p, make(p, seed, i, tier));
        g_sh->done = k + 1;
      }
      _exit(0);
    }
    int st = 0; u64 last = ~0ull; double tlast = now();
    for (;;) {
      pid_t w = waitpid(pid, &st, WNOHANG);
      if (w == pid) break;
      if (g_sh->done != last) { last = g_sh->done; tlast = now(); }
      if (now() - tlast > 200) { kill(pid, SIGKILL); waitpid(pid, &st, 0); report("wall-timeout", "simulated run did not end"); break; }
      usleep(2000);
    }
    if (!g_sh->failed && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) report("died", "simulation process died");
    double wall = now() - t0; u64 done = g_sh->done;
    // Statistics of the batch.
    std::string js = "{";
    auto add = [&](const std::string &k, const std::string &v) { if (js.size() > 1) js += ","; js += "\"" + k + "\":" + v; };
    add("runs", std::to_string(done)); add("wall", std::to_string(wall)); add("simtime", std::to_string(g_simtime + g_sh->simtime)); add("steps", std::to_string(g_sh->steps)); add("api_calls", std::to_string(g_sh->api_calls)); add("nontrivial", std::to_string(g_sh->nontrivial));
    std::string c1, c2; for (int i = 0; i < g_sh->ncounters; i++) { std::string &c = g_sh->counters[i].isfault ? c2 : c1; if (!c.empty()) c += ","; c += "\"" + jesc(g_sh->counters[i].name) + "\":" + std::to_string(g_sh->counters[i].n); }
    add("counters", "{" + c1 + "}"); add("faults", "{" + c2 + "}");
    std::string sample; for (int k = 0; k < 1; k++) { sample += "\"" + jesc(make(p, seed, from, tier).text().substr(0, 1500)) + "\""; } add("samples", "[" + sample + "]");
    if (!out.empty()) { FILE *f = fopen((out + ".sets").c_str(), "wb"); u64 ns = g_sh->nstates, nsh = g_sh->nshapes; fwrite(&ns, 8, 1, f); fwrite(&nsh, 8, 1, f); dump_set(f, g_states); dump_set(f, g_shapes); fclose(f);
      f = fopen((out + ".edges").c_str(), "wb"); fwrite(seam_edges(), 1, SEAM_EDGES, f); fclose(f); }
    int rc = 0;
    if (g_sh->failed) {
      u64 bad = g_sh->cur; std::string cls = g_sh->cls, msg = g_sh->msg;
      Scenario s = make(p, seed, bad, tier);
      std::vector<Scenario> pre;
      auto reproduces = [&](const std::vector<Scenario> &pr, u64 &h) { auto l = pr; l.push_back(s); Outcome a = run_isolated(l, 200, false); if (!a.failed) return false; Outcome b = run_isolated(l, 200, false); h = a.loghash; cls = a.cls; msg = a.msg; return b.failed && a.cls == b.cls; };
      u64 h = 0; bool ok = reproduces(pre, h);
      for (u64 back = 1; !ok && back <= 256; back *= 4) { // state leaked from earlier runs of the process: include them
        pre.clear(); u64 idx = (bad - from) / stride;
        for (u64 b = std::min(back, idx); b >= 1; b--) pre.push_back(make(p, seed, bad - b * stride, tier));
        if (!pre.empty()) ok = reproduces(pre, h);
      }
      bool range = false;
      if (!ok) { // needs everything this process did before: the whole batch is the replay
        std::vector<Scenario> all; for (u64 i = from; i <= bad; i += stride) all.push_back(make(p, seed, i, tier));
        Outcome a = run_isolated(all, 600, false); if (a.failed) { Outcome b = run_isolated(all, 600, false); if (b.failed && b.cls == a.cls) { range = ok = true; cls = a.cls; msg = a.msg; h = a.loghash; } }
      }
      add("failed", "true"); add("index", std::to_string(bad)); add("gate", ok ? "true" : "false");
      int tries = 0; size_t ops0 = s.ops.size();
      if (range) {
        FILE *f = fopen(replay.c_str(), "w");
        if (f) { fprintf(f, "# property %s  seed %llu  run %llu\n# class %s\n# %s\n# loghash %016llx\nrange %s %llu %llu %llu %llu %d\n", p->id, (unsigned long long) seed, (unsigned long long) bad, cls.c_str(), msg.c_str(), (unsigned long long) h, p->id, (unsigned long long) seed, (unsigned long long) from, (unsigned long long) stride, (unsigned long long) ((bad - from) / stride + 1), tier); fclose(f); }
      } else if (ok) {
        Minimiser m; m.cls = cls; m.deadline = now() + atof(opt("--minimise", "40").c_str()); m.prefix = pre;
        s = m.run(s); pre = m.prefix; tries = m.tries;
        auto l = pre; l.push_back(s); Outcome o = run_isolated(l, 200, false); cls = o.cls; msg = o.msg; h = o.loghash;
        FILE *f = fopen(replay.c_str(), "w");
        if (f) { fprintf(f, "# property %s  seed %llu  run %llu\n# class %s\n# %s\n# loghash %016llx\n", p->id, (unsigned long long) seed, (unsigned long long) bad, cls.c_str(), msg.c_str(), (unsigned long long) h);
          for (auto &q : l) fprintf(f, "%s", q.text().c_str()); fclose(f); }
      }
      add("class", "\"" + jesc(cls) + "\""); add("msg", "\"" + jesc(msg) + "\""); add("min_tries", std::to_string(tries)); add("ops_before", std::to_string(ops0)); add("ops_after", std::to_string(s.ops.size()));
      char hb[32]; snprintf(hb, 32, "\"%016llx\"", (unsigned long long) h); add("loghash", hb);
      rc = 1;
    }
    js += "}\n";
    if (!out.empty()) { FILE *f = fopen((out + ".json").c_str(), "w"); fputs(js.c_str(), f); fclose(f); } else fputs(js.c_str(), stdout);
    return rc;
  }
  fprintf(stderr, "usage: sim list|gen|exec FILE|hashes|batch\n");
  return 2;
}

void core_account(double simtime, u64 steps, u64 calls) { if (g_sh) { g_sh->simtime += simtime; g_sh->steps += steps; g_sh->api_calls += calls; } }
