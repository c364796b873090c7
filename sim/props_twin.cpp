// C02 interfaces agree, C08 clone, C09 reset, C12 refused calls, C16 environment, C18 callback protocol.
#include "sess.hpp"
#include <sys/mman.h>
#include <climits>

static void seen(const Sess &s, int tag, const Op &op, const Obs &o) { state_seen(state_key(s.type, s.ch, op.k == "p" ? op.d(2, 1) : 1, tag * 4 + (s.cb ? 2 : 0) + (s.endpos >= 0), bucket((double) o.used), bucket((double) o.gen))); }
static Signal whole(const Scenario &s) { int t = cfg_type(s), ch = cfg_ch(s, t); return cfg_signal(s, ch, clampi(s.d("n", 100), 1, 400000 / ch)); }

// ------------------------------------------------------------------ C08
// The traffic is fixed; actors (the first converter and clones of it) run through it at their own pace, at the
// scheduler's choice; each must see exactly what a solo run of the same traffic sees.
static void c08_gen(Rng &r, Scenario &s, int tier) {
  TrafficOpts o; o.rechoose = true; o.bads = r.chance(0.4) ? 0.06 : 0; o.ends = r.chance(0.5) ? 0.08 : 0.0; o.max_ops = 40; gen_traffic(r, s, (tier ? 2e5 : 8e4) * (r.chance(0.05) ? 6 : 1), o); gen_spice(r, s, 0.1);
  s.cfg["mt"] = (double) r.below(1 << 30);
  i64 traffic = (i64) s.ops.size(), acts = r.range(3, 40);
  for (i64 k = 0; k < acts; k++) switch (r.wpick({0.5, 0.25, 0.15, 0.1})) {
    case 0: s.op("run", {(double) r.below(8), (double) r.range(1, std::max<i64>(2, traffic / 3))}); break;
    case 1: s.op("clone", {(double) r.below(8)}); break;
    case 2: s.op("kill", {(double) r.below(8)}); break;
    default: s.op("wreck", {(double) r.below(8), (double) r.below(1 << 20)}); break;
  }
  if (r.chance(0.03)) { Op q("chain", {(double) r.below(8), std::floor(r.logu(20, 600))}); s.ops.insert(s.ops.begin() + r.range(traffic, (i64) s.ops.size()), q); }
}
struct Actor { Sess s; size_t at = 0; bool diverged = false; };
static void c08_exec(const Scenario &s) {
  Signal sig = whole(s); std::vector<Op> tr; for (auto &o : s.ops) if (traffic_op(o)) tr.push_back(o);
  if (tr.size() > 400) tr.resize(400);
  std::vector<Obs> ref;
  { Sess t; t.setup(s, &sig); if (!t.open()) fail("create", "cannot create a converter"); for (auto &o : tr) ref.push_back(t.run(o)); t.close(); }
  std::vector<std::unique_ptr<Actor>> live; live.emplace_back(new Actor); live[0]->s.setup(s, &sig); if (!live[0]->s.open()) fail("create", "cannot create a converter");
  i64 clones = 0, compared = 0;
  auto advance = [&](Actor &a, i64 n) { for (; n > 0 && a.at < tr.size(); n--, a.at++) { Obs o = a.s.run(tr[a.at]); if (!a.diverged) { require_same("clone", "cloned stream vs uninterrupted one", tr[a.at], (i64) a.at, o, ref[a.at]); if (clones) compared++; seen(a.s, 1, tr[a.at], o); } } };
  auto pick = [&](const Op &o) -> size_t { i64 v = o.i(0); return (size_t) ((v < 0 ? -v : v) % (i64) live.size()); };
  i64 acts = 0;
  for (auto &o : s.ops) {
    if (traffic_op(o)) continue;
    if (++acts > 200) break;
    if (o.k == "run") advance(*live[pick(o)], clampi(o.d(1, 1), 0, 400));
    else if (o.k == "clone") { if (live.size() >= 6) continue; size_t i = pick(o); if (live[i]->diverged) continue; std::unique_ptr<Actor> a(new Actor); a->at = live[i]->at; if (!a->s.clone_from(live[i]->s)) fail("clone", "src_clone failed"); if (a->s.c.error() != live[i]->s.c.error()) fail("clone", "src_error of the clone is %d, of the original %d", a->s.c.error(), live[i]->s.c.error()); clones++; fault("checkpoint by clone"); live.push_back(std::move(a)); }
    else if (o.k == "chain") { // a clone of a clone of a clone ..., every original deleted at once
      size_t i = pick(o); if (live[i]->diverged) continue; i64 m = clampi(o.d(1), 1, 2000); if (is_sinc(live[i]->s.type)) m = std::min<i64>(m, 3000 / live[i]->s.ch + 1);
      for (i64 k = 0; k < m; k++) { std::unique_ptr<Actor> a(new Actor); a->at = live[i]->at; if (!a->s.clone_from(live[i]->s)) fail("clone", "src_clone failed in generation %lld", (long long) k); live[i]->s.close(); live[i] = std::move(a); }
      clones += m; count("generations of clones", m); fault("long line of clones"); }
    else if (o.k == "kill") { if (live.size() <= 1) continue; size_t i = pick(o); i64 good = 0; for (auto &a : live) good += !a->diverged; if (!live[i]->diverged && good == 1) continue; live[i]->s.close(); live.erase(live.begin() + i); fault("crash (converter deleted, a clone carries on)"); }
    else if (o.k == "wreck") { // this one goes its own way: nothing of it may reach the others
      i64 good = 0; for (auto &a : live) good += !a->diverged; size_t i = pick(o); if (!live[i]->diverged && good == 1) continue;
      Actor &a = *live[i]; a.diverged = true; Rng r((u64) o.i(1)); fault("clone or original diverges");
      for (int k = 0; k < 4; k++) switch (r.below(5)) { case 0: a.s.run(Op("r", {})); break; case 1: a.s.run(Op("s", {r.logu(0.2, 5)})); break; case 2: a.s.run(Op("p", {(double) r.below(500), (double) r.below(500), r.logu(0.1, 10), 1})); break; default: a.s.run(Op("p", {(double) r.below(3000), (double) r.below(800), r.logu(0.1, 10), (double) r.below(4) * 0})); } }
  }
  for (auto &a : live) if (!a->diverged) advance(*a, (i64) tr.size());
  // Delete in an order chosen by the scenario.
  u64 m = (u64) s.i("mt"); while (!live.empty()) { size_t i = (size_t) (mix64(m + live.size()) % live.size()); live[i]->s.close(); live.erase(live.begin() + i); }
  g_nontrivial = clones > 0 && compared > 0;
}
static PropReg r08({"C08", "random traffic run by the original and clones taken at random moments, each at its own pace, with deletions and diverging siblings, every result compared with an uninterrupted solo run; non-trivial: a clone was taken and results were compared after it", c08_gen, c08_exec});

// ------------------------------------------------------------------ C09
static void c09_gen(Rng &r, Scenario &s, int tier) {
  TrafficOpts o; o.rechoose = true; o.wrap = 0.14; o.ends = r.chance(0.5) ? 0.12 : 0.02; o.resets = 0.12; o.sets = 0.1; o.max_ops = 50; gen_traffic(r, s, (tier ? 2e5 : 8e4) * (r.chance(0.05) ? 6 : 1), o); gen_spice(r, s, 0.1);
  std::vector<Op> ops; for (auto &q : s.ops) { ops.push_back(q); if (r.chance(0.06)) ops.push_back(Op("bad", {(double) r.below(8)})); if (s.i("cb") && r.chance(0.03)) { ops.push_back(Op("badcb", {(double) r.below(2), (double) r.below(1 << 16)})); ops.push_back(Op("r", {})); } if (r.chance(0.03)) ops.push_back(Op("swap", {})); if (r.chance(0.02)) { ops.push_back(Op("r", {})); if (r.chance(0.5)) ops.push_back(Op("r", {})); } }
  if (ops.size() > 3) { bool any = false; for (auto &q : ops) any |= q.k == "r"; if (!any) ops.insert(ops.begin() + r.range(1, (i64) ops.size() - 1), Op("r", {})); }
  if (r.chance(0.03)) { i64 at = r.range(0, (i64) ops.size()); Op q("rr", {r.chance(0.06) ? (double) r.range(65400, 66500) : r.chance(0.5) ? (double) (((i64) 1 << r.range(6, 10)) - r.range(0, 2)) : r.chance(0.2) ? 65535.0 : std::floor(r.logu(100, 1500)), (double) r.below(2)}); ops.insert(ops.begin() + at, {q, Op("r", {})}); }
  s.ops = ops; s.cfg["preset"] = r.chance(0.2) ? 1 : 0;
}
// A refused call (the corresponding property is C12; here it only disturbs).
void bad_call(Sess &s, int kind) {
  OwnerScope os(s.c.owner); StepScope ss(1000000); float x[8] = {0}; SRC_DATA d; memset(&d, 0, sizeof d); d.data_in = x; d.data_out = x + 4; d.src_ratio = 1.0;
  switch (kind) {
    case 0: d.src_ratio = 0; d.input_frames = d.output_frames = 0; src_process(s.c.st, &d); break;
    case 1: d.data_in = nullptr; d.input_frames = 1; src_process(s.c.st, &d); break;
    case 2: src_process(s.c.st, nullptr); break;
    case 3: src_set_ratio(s.c.st, 1000.0); break;
    case 4: src_callback_read(s.c.st, -1.0, 1, x); break;
    case 5: src_set_ratio(s.c.st, NAN); break;
    case 6: src_callback_read(s.c.st, 1.0, 0, x); break;
    default: if (!s.cb) src_callback_read(s.c.st, 1.0, 1, x); else { d.input_frames = d.output_frames = 0; src_process(s.c.st, &d); }
  }
  ss.close(); fault("refused call");
}
static void c09_exec(const Scenario &s) {
  Signal sig = whole(s); std::unique_ptr<Sess> a(new Sess); a->setup(s, &sig); if (!a->open()) fail("create", "cannot create a converter");
  std::unique_ptr<Sess> twin; i64 idx = 0, resets = 0, compared = 0, n = 0; bool dirty = false, broken = false;
  if (s.i("preset")) { a->run(Op("r", {})); twin.reset(new Sess); twin->setup(s, &sig); if (!twin->open()) fail("create", "cannot create a converter"); }
  for (auto &o : s.ops) {
    idx++; if (++n > 400) break;
    if (broken && o.k != "r") continue;   // the converter still holds the faulty block
    broken = false;
    if (o.k == "r") {
      fault(a->endpos >= 0 || a->pull.saw_end ? "reset after end of input" : "reset mid-stream"); if (dirty) fault("reset after a refused call");
      a->run(o); resets++; dirty = false;
      if (twin) twin->close(); twin.reset(new Sess); twin->setup(s, &sig); if (!twin->open()) fail("create", "cannot create a converter");
      if (a->c.error()) fail("reset", "src_error is %d after src_reset", a->c.error());
    } else if (o.k == "rr") { // resets without number, with or without a call in between
      i64 m = clampi(o.d(0), 1, is_sinc(a->type) || (o.i(1) & 1) ? 3000 / a->ch + 2 : a->ch <= 8 ? 70000 : 500000 / a->ch + 2); for (i64 k = 0; k < m; k++) { a->run(Op("r", {})); if (o.i(1) & 1) a->run(Op("p", {3, 3, 1.0, 0})); } if (twin) twin->close(); twin.reset(); count("resets in a row", m); fault("very many resets"); }
    else if (o.k == "bad") { bad_call(*a, (int) (o.i(0) & 7)); dirty = true; }
    else if (o.k == "badcb") { if (faulty_source(*a, (int) o.i(0), (u64) std::max<i64>(0, o.i(1)))) dirty = broken = true; if (twin) twin->close(); twin.reset(); } // until the next reset there is nothing to compare with
    else if (o.k == "swap") { std::unique_ptr<Sess> b(new Sess); if (!b->clone_from(*a)) fail("clone", "src_clone failed"); a->close(); a = std::move(b); fault("converter replaced by its clone"); }
    else if (traffic_op(o)) {
      Obs x = a->run(o);
      if (twin) { Obs y = twin->run(o); require_same("reset", "reset converter vs new one", o, idx, x, y, dirty ? CMP_NOSERR : 0); compared++; seen(*a, 3, o, x); }
    }
  }
  a->close(); if (twin) twin->close();
  g_nontrivial = (resets > 0 || s.i("preset")) && compared > 0;
}
static PropReg r09({"C09", "random traffic with resets, ends of input, refused calls and clone swaps at random points; after every reset all results are compared with those of a newly created converter; non-trivial: at least one reset followed by compared results", c09_gen, c09_exec});

// ------------------------------------------------------------------ C12
enum { NBAD = 25 };
static void c12_gen(Rng &r, Scenario &s, int tier) {
  TrafficOpts o; o.rechoose = true; o.ends = r.chance(0.3) ? 0.05 : 0.0; o.resets = 0.05; o.max_ops = 40; gen_traffic(r, s, (tier ? 2e5 : 8e4) * (r.chance(0.05) ? 6 : 1), o); gen_spice(r, s, 0.1);
  std::vector<Op> ops; double p = r.chance(0.5) ? 0.3 : 0.8; auto bad = [&]() { ops.push_back(Op("bad", {(double) r.below(NBAD), (double) r.below(64), (double) r.below(1 << 16)})); };
  if (r.chance(0.4)) bad();
  double pf = s.i("cb") && r.chance(0.6) ? 0.06 : 0;
  for (auto &q : s.ops) { ops.push_back(q); while (r.chance(p)) bad(); if (r.chance(0.05)) ops.push_back(Op("probe", {r.chance(0.3) ? r.logu(1e-6, 1e6) : r.chance(0.5) ? r.logu(1.0 / 257, 1.0 / 255) : r.logu(255, 257), (double) r.below(12)})); if (r.chance(pf)) ops.push_back(Op("badcb", {(double) r.below(2), (double) r.below(1 << 16)})); }
  if (r.chance(0.03)) ops.insert(ops.begin() + r.range(0, (i64) ops.size()), Op("storm", {(double) r.below(NBAD), (double) r.below(64), (double) r.below(1 << 16), std::floor(r.logu(60, 1500))}));
  s.ops = ops;
}
double bad_ratio(i64 k) {
  static const double v[] = {0.0, -1.0, 1.0 / 257, 257.0, NAN, INFINITY, -INFINITY, 1e-320, 1e300, -256.0, -1.0 / 256, 0.0, 5e-324, -0.0};
  i64 n = sizeof v / sizeof v[0]; k = k % (n + 2); if (k < 0) k = 0;
  if (k < n) return v[k];
  return k == n ? std::nextafter(256.0, 1e9) * (1 + 1e-12) : (1.0 / 256) * (1 - 1e-12);
}
// Where a request is wrong in two ways (`also`), either error will do.
static void expect_err(const char *what, int got, const char *want, const char *also = nullptr) { if (!err_is(got, want) && !(also && err_is(got, also))) fail("wrong-error", "%s returned %d (%s), expected: %s", what, got, src_strerror(got) ? src_strerror(got) : "no text", want); fault(what); }
static void expect_new(const char *what, SRC_STATE *st, int err, const char *want) { if (st) { src_delete(st); fail("accepted", "%s succeeded", what); } expect_err(what, err, want); }
static long never(void *, float **) { fail("callback-unexpected", "callback called during a refused read"); }
// One invalid request against session `s`.  Returns false if it does not apply to this session.
static bool invalid(Sess &s, i64 kind, i64 sub, u64 salt, bool &serr_dirty) {
  OwnerScope os(s.c.owner); StepScope ss(400000000);
  const int ch = s.ch; SRC_STATE *st = s.c.st; const i64 live0 = g_alloc.live;
  FArr in((size_t) 8 * ch), out((size_t) 8 * ch); for (size_t i = 0; i < in.n; i++) in.p[i] = 0.5f; for (size_t i = 0; i < out.n; i++) memcpy(out.p + i, &g_poison, 4);
  SRC_DATA d; memset(&d, 0, sizeof d); d.data_in = in.p; d.data_out = out.p; d.input_frames = 1 + (i64) (salt % 8); d.output_frames = 1 + (i64) (salt / 8 % 8); d.src_ratio = 1.0 + 0.25 * (double) (salt % 5); d.end_of_input = (int) (salt >> 9) & 1;
  auto clean = [&](const char *what) {
    for (size_t i = 0; i < out.n; i++) if (memcmp(out.p + i, &g_poison, 4)) fail("refused-wrote", "%s wrote output", what);
    for (size_t i = 0; i < in.n; i++) if (in.p[i] != 0.5f) fail("refused-wrote", "%s wrote the input array", what);
    if (g_alloc.live != live0) fail("leak", "%s changed the number of allocated blocks by %lld", what, (long long) (g_alloc.live - live0));
    ss.close(); count("refused calls checked"); return true; };
  s.pull.allowed = false; s.c.hub ? (void) (s.c.hub->cur() = &s.pull) : (void) 0;
  const char *mode = s.cb ? E_MODE : nullptr;
  // an error left by a refused read stays readable, whatever is asked of the converter meanwhile
  auto lasting = [&](const char *want) { for (int k = 0; k < 3; k++) { if (salt >> k & 1) { if (src_get_channels(st) != ch) fail("channels", "src_get_channels is wrong after a refused read"); src_strerror(src_error(st)); src_is_valid_ratio(0.5); if (salt >> k & 8) src_set_ratio(st, bad_ratio(sub)); } if (!err_is(src_error(st), want)) fail("stored-error", "the error of a refused read reads %d the %dth time, expected: %s", src_error(st), k + 2, want); } };
  switch (kind) {
    case 0: expect_err("src_process without a converter", src_process(nullptr, &d), E_STATE); return clean("a refused call");
    case 1: expect_err("src_process without a request", src_process(st, nullptr), E_DATA, mode); return clean("a refused call");
    case 2: d.data_in = nullptr; expect_err("src_process with NULL input array", src_process(st, &d), E_PTR, mode); return clean("a refused call");
    case 3: d.data_out = nullptr; expect_err("src_process with NULL output array", src_process(st, &d), E_PTR, mode); return clean("a refused call");
    case 4: d.src_ratio = bad_ratio(sub); expect_err("src_process with a bad ratio", src_process(st, &d), E_RATIO, mode); return clean("a refused call");
    case 5: { // overlap: both arrays inside one allocation
      FArr both((size_t) 16 * ch); for (size_t i = 0; i < both.n; i++) both.p[i] = 0.25f;
      i64 ni = 1 + sub % 6, no = 1 + sub / 6 % 6; size_t a = (size_t) (salt % 8) * ch, lo, hi;
      // output starts somewhere inside the input, or the other way round
      if (salt & 1024) { lo = a; hi = a + (size_t) (salt / 16 % (u64) ni) * ch; d.data_in = both.p + lo; d.data_out = both.p + hi; if (salt & 4096) d.data_out = both.p + std::min(both.n - (size_t) no * ch, hi + (salt / 64 % ch) * (hi + ch < a + (size_t) ni * ch ? 1 : 0)); }
      else { lo = a; hi = a + (size_t) (salt / 16 % (u64) no) * ch; d.data_out = both.p + lo; d.data_in = both.p + hi; }
      d.input_frames = ni; d.output_frames = no;
      expect_err("src_process with overlapping arrays", src_process(st, &d), E_OVERLAP, mode);
      for (size_t i = 0; i < both.n; i++) if (both.p[i] != 0.25f) fail("refused-wrote", "a call refused for overlap wrote the arrays");
      return clean("a refused call"); }
    case 6: if (s.cb) return false; { long g = src_callback_read(st, 1.0, 4, out.p); if (g) fail("accepted", "src_callback_read on a src_new converter returned %ld", g); expect_err("src_callback_read on a process converter", src_error(st), E_MODE); lasting(E_MODE); serr_dirty = true; return clean("a refused read"); }
    case 7: if (!s.cb) return false; expect_err("src_process on a callback converter", src_process(st, &d), E_MODE); return clean("a refused call");
    case 8: if (!s.cb) return false; { long g = src_callback_read(st, bad_ratio(sub), 1 + (long) (salt % 8), out.p); if (g) fail("accepted", "a read with a bad ratio returned %ld", g); expect_err("src_callback_read with a bad ratio", src_error(st), E_RATIO); lasting(E_RATIO); serr_dirty = true; return clean("a refused read"); }
    case 9: { long g = src_callback_read(nullptr, 1.0, 4, out.p); if (g) fail("accepted", "a read from no converter returned %ld", g); fault("src_callback_read without a converter"); return clean("a refused read"); }
    case 10: if (!s.cb) return false; { long g = src_callback_read(st, 1.0, sub & 1 ? 0 : -(long) (salt % 1000), out.p); if (g) fail("accepted", "a read of no frames returned %ld", g); fault("src_callback_read of zero or negative frames"); return clean("an empty read"); }
    case 11: expect_err("src_set_ratio with a bad ratio", src_set_ratio(st, bad_ratio(sub)), E_RATIO); return clean("a refused call");
    case 12: expect_err("src_set_ratio without a converter", src_set_ratio(nullptr, 1.0), E_STATE); return clean("a refused call");
    case 13: expect_err("src_reset without a converter", src_reset(nullptr), E_STATE); return clean("a refused call");
    case 14: { int e = -999; SRC_STATE *q = src_clone(nullptr, sub & 1 ? &e : nullptr); if (q) fail("accepted", "src_clone of nothing succeeded"); if (sub & 1) expect_err("src_clone without a converter", e, E_STATE); return clean("a refused call"); }
    case 15: if (src_delete(nullptr)) fail("accepted", "src_delete of nothing returned a pointer"); fault("src_delete without a converter"); { int g = src_get_channels(nullptr); if (g >= 0) fail("accepted", "src_get_channels of nothing returned %d", g); } return clean("a refused call");
    case 16: case 17: { static const int bad[] = {-1, 5, 6, 1000, -2147483647, 2147483647, 99, -5}; int t = bad[sub & 7]; int e = -999; SRC_STATE *q; // unknown converter number
      if (kind == 16) { q = src_new(t, ch, &e); expect_new("src_new with an unknown converter", q, e, E_CONV); q = src_new(t, ch, nullptr); if (q) fail("accepted", "src_new of an unknown converter succeeded"); }
      else { q = src_callback_new(never, t, ch, &e, nullptr); expect_new("src_callback_new with an unknown converter", q, e, E_CONV); }
      return clean("a refused creation"); }
    case 18: case 19: { static const int bad[] = {0, -1, -2, -2147483647, -2147483647 - 1, -100, -128, 0}; int c = bad[sub & 7]; int t = (sub & 8) ? s.type : T_LINEAR; int e = -999; SRC_STATE *q;
      if (sub & 16) { static const int many[] = {129, 130, 200, 255, 256, 1000, 65536, 2147483647}; t = sub & 8 ? T_FAST : T_MEDIUM; c = many[sub & 7]; fault("more channels than the sinc converters take"); }
      if (kind == 18) { q = src_new(t, c, &e); expect_new("src_new with a bad channel count", q, e, E_CHAN); if (src_new(t, c, nullptr)) fail("accepted", "src_new of a bad channel count succeeded"); }
      else { q = src_callback_new(never, t, c, &e, nullptr); expect_new("src_callback_new with a bad channel count", q, e, E_CHAN); }
      return clean("a refused creation"); }
    case 20: { int e = -999; SRC_STATE *q = src_callback_new(nullptr, s.type, ch, &e, nullptr); expect_new("src_callback_new without a callback", q, e, E_CALLBACK); if (src_callback_new(nullptr, s.type, ch, nullptr, nullptr)) fail("accepted", "src_callback_new without a callback succeeded"); return clean("a refused creation"); }
    case 21: { int which = (int) (sub % 5); int e;
      if (which == 0) { e = src_simple(nullptr, s.type, ch); if (!e) fail("accepted", "src_simple without a request succeeded"); expect_err("src_simple without a request", e, E_DATA); }
      else if (which == 1) { d.src_ratio = bad_ratio((i64) (salt % 16)); expect_err("src_simple with a bad ratio", src_simple(&d, s.type, ch), E_RATIO); }
      else if (which == 2) { d.data_in = nullptr; expect_err("src_simple with NULL input array", src_simple(&d, s.type, ch), E_PTR); }
      else if (which == 3) expect_err("src_simple with an unknown converter", src_simple(&d, 77, ch), E_CONV);
      else expect_err("src_simple with a bad channel count", src_simple(&d, salt & 8192 ? T_FAST : s.type, salt & 8192 ? 129 + (int) (salt % 50) : -(int) (salt % 3)), E_CHAN);
      return clean("a refused src_simple"); }
    case 22: { d.data_in = nullptr; d.data_out = nullptr; expect_err("src_process with both arrays NULL", src_process(st, &d), E_PTR, mode); return clean("a refused call"); }
    case 24: { // arrays of more than INT_MAX samples that overlap: the memory is only reserved
      i64 ni = (i64) INT_MAX / ((sub & 4) ? 1 : ch) + 2 + (i64) (salt % 1000), no = 1 + sub; if (sub & 1) std::swap(ni, no); i64 big = std::max(ni, no) * ch, in = (sub & 2) ? 1 + (i64) (salt % 5000) : big - 1 - (i64) (salt % 5000), far = std::max<i64>(1, std::min(in, big - 1)); size_t bytes = (size_t) (big + far + (i64) no * ch + 8192) * 4; if (bytes > (size_t) 64 << 30) return false;
      float *m = (float *) mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) return false;
      d.input_frames = ni; d.output_frames = no; if (sub & 1) { d.data_out = m; d.data_in = m + far; } else { d.data_in = m; d.data_out = m + far; }
      expect_err("src_process with overlapping arrays of more than INT_MAX samples", src_process(st, &d), E_OVERLAP, mode); for (i64 k = 0; k < 64; k++) if (m[far + k] != 0 || m[k] != 0) fail("refused-wrote", "a call refused for overlap wrote the arrays"); munmap(m, bytes); return clean("a refused call"); }
    case 23: { d.data_in = d.data_out = out.p; expect_err("src_process in place", src_process(st, &d), E_OVERLAP, mode); return clean("a refused call"); }
  }
  return false;
}
static void c12_exec(const Scenario &s) {
  Signal sig = whole(s); Sess a, b; a.setup(s, &sig); b.setup(s, &sig); if (!a.open() || !b.open()) fail("create", "cannot create a converter");
  i64 idx = 0, n = 0, bads = 0, after = 0; bool sd = false;
  for (auto &o : s.ops) {
    idx++; if (++n > 500) break;
    if (o.k == "bad") { int e0 = a.c.error(); i64 kind = ((o.i(0) % NBAD) + NBAD) % NBAD; bool d2 = false; if (invalid(a, kind, std::max<i64>(0, o.i(1)), (u64) std::max<i64>(0, o.i(2)), d2)) { bads++; if (!d2 && a.c.error() != e0) fail("stored-error", "a refused call that reports its error directly changed src_error from %d to %d", e0, a.c.error()); sd |= d2; log_mix(kind); } }
    else if (o.k == "storm") { // the same refused request without number
      int e0 = a.c.error(); i64 kind = ((o.i(0) % NBAD) + NBAD) % NBAD, m = clampi(o.d(3), 1, 3000 / a.ch + 2); bool d2 = false; for (i64 k = 0; k < m; k++) if (invalid(a, kind, std::max<i64>(0, o.i(1)), (u64) std::max<i64>(0, o.i(2)), d2)) bads++; if (!d2 && a.c.error() != e0) fail("stored-error", "refused calls that report their error directly changed src_error from %d to %d", e0, a.c.error()); sd |= d2; fault("very many refused requests"); }
    else if (o.k == "badcb") { // a source that breaks its promise, then a reset: as if nothing had happened
      if (!faulty_source(a, (int) o.i(0), (u64) std::max<i64>(0, o.i(1)))) { Obs x = a.run(Op("r", {})); b.run(Op("r", {})); (void) x; sd = false; continue; }
      bads++; a.run(Op("r", {})); b.run(Op("r", {})); sd = false; if (a.c.error()) fail("reset", "src_error is %d after src_reset", a.c.error()); }
    else if (o.k == "probe") {
      double v = o.d(0, 1); static const double edge[] = {1.0 / 256, 256.0, 1.0, 0.0, -1.0, NAN, INFINITY}; i64 w = o.i(1); if (w >= 0 && w < 7) v = edge[w];
      bool valid = src_is_valid_ratio(v) != 0, spec = v >= 1.0 / 256 * (1 - 1e-15) && v <= 256.0 * (1 + 1e-15);
      if (valid != spec && !(std::fabs(v * 256 - 1) < 1e-12 || std::fabs(v / 256 - 1) < 1e-12)) fail("valid-ratio", "src_is_valid_ratio(%.17g) says %d", v, valid);
      Conv t; if (!t.create(T_LINEAR, 1)) fail("create", "cannot create a converter"); int e = t.set_ratio(v); SRC_DATA d; memset(&d, 0, sizeof d); d.src_ratio = v; int e2 = src_process(t.st, &d); t.destroy();
      if ((e == 0) != valid || (e2 == 0) != valid) fail("valid-ratio", "src_is_valid_ratio(%.17g) says %d, src_set_ratio returns %d, src_process %d", v, valid, e, e2);
    } else if (traffic_op(o)) {
      if (o.k == "r") sd = false;
      Obs x = a.run(o), y = b.run(o); require_same("disturbed", "stream with refused calls vs undisturbed one", o, idx, x, y, sd ? CMP_NOSERR : 0); if (bads) after++; seen(a, 5, o, x); }
  }
  a.close(); b.close();
  g_nontrivial = bads > 0 && after > 0;
}
static PropReg r12({"C12", "invalid requests of 24 kinds injected at random points of push and pull traffic: the documented error, no output written, nothing allocated, and all later results equal to those of an undisturbed twin; non-trivial: an invalid request followed by compared traffic", c12_gen, c12_exec});

// ------------------------------------------------------------------ C16
static void c16_gen(Rng &r, Scenario &s, int tier) {
  TrafficOpts o; o.rechoose = true; o.bads = r.chance(0.3) ? 0.05 : 0; o.ends = r.chance(0.4) ? 0.06 : 0.0; o.max_ops = 30; gen_traffic(r, s, (tier ? 2e5 : 6e4) * (r.chance(0.05) ? 8 : 1), o); gen_spice(r, s, 0.1);
  for (int k = 0; k < 2; k++) { std::string x = std::to_string(k); s.cfg["fill" + x] = (double) r.below(6); s.cfg["place" + x] = (double) r.below(16); s.cfg["arr" + x] = (double) r.below(16); s.cfg["poison" + x] = (double) r.below(4); s.cfg["env" + x] = (double) r.below(1000); s.cfg["stack" + x] = (double) r.below(3); s.cfg["hist" + x] = (double) r.below(4); if (r.chance(0.01)) s.cfg["crowd" + x] = r.chance(0.1) ? (double) r.range(65300, 66500) : std::floor(r.logu(100, 2000)); }
  std::vector<Op> ops; for (auto &q : s.ops) { ops.push_back(q); if (r.chance(0.06)) ops.push_back(Op("swap", {})); if (r.chance(0.05)) ops.push_back(Op("simple", {(double) r.range(0, 400), r.logu(0.1, 10)})); } s.ops = ops;
}
static void c16_env(const Scenario &s, int k, const Signal &sig, std::vector<Obs> &log) {
  auto g = [&](const char *n) { return s.i(std::string(n) + std::to_string(k)); };
  static const uint32_t poisons[] = {0x7fa5a5a5u, 0x7f9e3c21u, 0xdeadbeefu, 0xffb1b2b3u};
  g_alloc.fill = k < 0 ? 0 : (int) clampi((double) g("fill"), 0, 5); g_alloc.fillseed = (u64) (k + 7) * 1000003; g_alloc.place = k < 0 ? 0 : g("place"); g_arr_off = k < 0 ? 0 : g("arr") & 15; g_poison = poisons[k < 0 ? 0 : g("poison") & 3]; g_envseed = k < 0 ? 1 : (u64) g("env") + 2; static const int errs[] = {EINTR, ENOMEM, EAGAIN, EINVAL, ERANGE, EDOM, 0}; g_errno = k < 0 ? 0 : errs[(u64) g("env") % 7]; int dirt = k < 0 ? 0 : (int) g("stack");
  if (k >= 0) { static const char *fn[] = {"heap filled with random bytes", "heap filled with zeros", "heap filled with ones", "heap filled with NaN", "heap filled with large values", "heap recycled"}; fault(fn[g_alloc.fill]); if (g_alloc.place) fault("objects placed elsewhere"); if (g_arr_off) fault("arrays misaligned"); if (dirt) fault("stack dirtied"); fault("clock and environment changed"); }
  // Converters that lived before.
  for (i64 h = 0; k >= 0 && h < (g("hist") & 3); h++) { Sess p; p.setup(s, &sig); p.salt += h + 1; if (!p.open()) fail("create", "cannot create a converter"); size_t m = 0; for (auto &o : s.ops) { if (traffic_op(o) && o.k != "r") p.run(o); if (++m > 6) break; } p.close(); fault("earlier converters"); }
  if (k >= 0 && g("crowd") > 0) { // very many converters lived before
    int ty = cfg_type(s), ch = std::min(cfg_ch(s, ty), 2); i64 m = clampi((double) g("crowd"), 1, is_sinc(ty) ? 3000 : 70000); float x[4] = {0.5f, 0.25f, 0, 0};
    for (i64 i = 0; i < m; i++) { OwnerScope os(-12); StepScope ss(100000000); int e = 0; SRC_STATE *st = src_new(ty, ch, &e); if (!st) fail("create", "cannot create a converter after %lld others", (long long) i); if (i % 7 == 0) { SRC_DATA d; memset(&d, 0, sizeof d); d.data_in = x; d.data_out = x + 2; d.input_frames = d.output_frames = 1; d.src_ratio = 1; src_process(st, &d); } src_delete(st); ss.close(); }
    count("earlier converters in a crowd", m); fault("very many earlier converters"); }
  std::unique_ptr<Sess> a(new Sess); a->setup(s, &sig); if (dirt) dirty_stack((u64) g("env") * 31); if (!a->open()) fail("create", "cannot create a converter");
  i64 n = 0;
  for (auto &o : s.ops) {
    if (++n > 300) break;
    if (dirt) dirty_stack(dirt == 1 ? (u64) (k + 1) : (u64) (n * 977 + g("env")));
    if (o.k == "swap") { std::unique_ptr<Sess> b(new Sess); if (!b->clone_from(*a)) fail("clone", "src_clone failed"); a->close(); a = std::move(b); }
    else if (o.k == "simple") { i64 ni = std::min(clampi(o.d(0), 0, 2000 / a->ch + 1), sig.n); double ratio = ok_ratio(o.d(1, 1)); ratio = std::max(0.05, std::min(20.0, ratio)); Res R; std::vector<float> out; int e = simple(sig.x.data(), ni, (i64) (ni * ratio) + 10, ratio, a->type, a->ch, R, out); Obs ob; ob.err = e; ob.used = R.used; ob.gen = R.gen; ob.outhash = hash_floats(out.data(), out.size()); log.push_back(ob); }
    else if (traffic_op(o)) { Obs ob = a->run(o); log.push_back(ob); if (k < 0) seen(*a, 7, o, ob); }
  }
  a->close();
  g_alloc.fill = 0; g_alloc.place = 0; g_arr_off = 0; g_poison = poisons[0]; g_errno = -1;
}
static void c16_exec(const Scenario &s) {
  Signal sig = whole(s); std::vector<Obs> base; c16_env(s, -1, sig, base);
  for (int k = 0; k < 2; k++) { std::vector<Obs> l; c16_env(s, k, sig, l); if (l.size() != base.size()) fail("environment", "different number of operations"); i64 i = 0, j = 0; for (auto &o : s.ops) { if (++j > 300) break; if (traffic_op(o) || o.k == "simple") { require_same("environment", "the same calls in two environments", o, j, base[i], l[i]); i++; } } }
  i64 g = 0; for (auto &o : base) g += o.gen; g_nontrivial = g > 0;
}
static PropReg r16({"C16", "the same random traffic in three simulated environments (heap contents, recycling, placement and alignment, dirty stack, errno and floating-point flags, clock and process environment, earlier converters, previous contents of arrays and result fields), results bit-identical; non-trivial: there was output", c16_gen, c16_exec});

// ------------------------------------------------------------------ C02 and C18: pull, push, one-shot
static void pull_gen(Rng &r, Scenario &s, int tier, bool protocol) {
  TrafficOpts o; o.vary = protocol ? 0.5 : 0.4; o.ends = 0; o.resets = protocol ? 0.02 : 0.0; o.sets = o.vary > 0 && protocol ? 0.04 : 0; o.cbp = 1.0; o.max_ops = 50; gen_traffic(r, s, (tier ? 2.5e5 : 1e5) * (r.chance(0.05) ? 6 : 1), o); gen_spice(r, s, 0.1);
  double first = 1; for (auto &q : s.ops) if (q.k == "p") { first = q.d(2, 1); break; } s.cfg["ratio"] = first;
  bool vary = false; for (auto &q : s.ops) if (q.k == "p" && q.d(2, 1) != first) vary = true; s.cfg["vary"] = vary;
  s.cfg["reclaim"] = r.chance(0.7); s.cfg["endptr"] = r.chance(0.5); s.cfg["endval"] = r.chance(0.7) ? 0 : -(double) r.range(1, 1000000); s.cfg["nest"] = protocol && r.chance(0.35) ? (double) r.range(1, 3) : 0; s.cfg["tail"] = (double) std::max<i64>(1, r.range(1, 500));
  if (protocol) { std::vector<Op> ops; for (auto &q : s.ops) { if (r.chance(0.1)) ops.push_back(Op("bad", {(double) r.below(5), (double) r.below(16)})); ops.push_back(q); } s.ops = ops; }
}
// The documented pull loop, done by a push client.
struct Mirror {
  Conv c; const Signal *sig; int ch; i64 pos = 0, calls = 0, bstart = 0, bleft = 0; bool ended = false; std::function<i64(i64, i64)> plan;
  i64 read(double ratio, i64 frames, std::vector<float> *out, i64 *asked) {
    i64 got = 0; *asked = 0;
    while (got < frames) {
      int eoi = 0;
      if (bleft == 0) { i64 w = std::min(plan(calls++, sig->n - pos), sig->n - pos); ++*asked; if (w <= 0) { eoi = 1; ended = true; } else { bstart = pos; bleft = w; pos += w; } }
      Res R = c.process(sig->x.data() + (size_t) bstart * ch, bleft, frames - got, ratio, eoi, out);
      bstart += R.used; bleft -= R.used; got += R.gen;
      if (eoi && R.gen == 0) break;
      if (R.used == 0 && R.gen == 0) break;
    }
    return got;
  }
};
static void pull_exec(const Scenario &s, bool protocol) {
  Signal sig = whole(s); Sess a; a.setup(s, &sig); a.cb = true; int type = a.type, ch = a.ch; bool vary = s.i("vary") != 0 || protocol; double ratio0 = ok_ratio(s.d("ratio", 1));
  if (!a.open()) fail("create", "cannot create a callback converter");
  i64 endval = std::min<i64>(0, s.i("endval")); int nest = (int) clampi(s.d("nest"), 0, 3); Rng nr((u64) a.salt);
  a.pull.reclaim = s.i("reclaim", 1) != 0; a.pull.leave_ptr_at_end = s.i("endptr", 1) != 0;
  auto arm = [&]() { auto base = a.pull.plan; a.pull.plan = [base, endval](i64 no, i64 left) { i64 w = base(no, left); return w <= 0 ? endval : w; }; };
  arm();
  Mirror m; m.sig = &sig; m.ch = ch; m.plan = a.pull.plan; if (!m.c.create(type, ch)) fail("create", "cannot create a converter");
  // Converters used by the callback itself.
  Conv inner; Pull ipull; Signal isig; std::vector<float> iout, iref; i64 inest = 0;
  if (nest) { isig = make_signal(5, 0, 1, 1, 4000); ipull.sig = &isig; ipull.ch = 1; ipull.plan = [](i64, i64 left) { return std::min<i64>(left, 37); }; if (nest == 1 ? !inner.create_cb(&ipull, type, 1) : !inner.create(T_LINEAR, 1)) fail("create", "cannot create a converter"); }
  if (nest) a.pull.on_call = [&]() {
    if (inest > 200) return; OwnerScope os(inner.owner); fault("callback uses another converter"); inest++;
    if (nest == 1) { bool was = ipull.allowed; ipull.allowed = true; ipull.calls_this_read = 0; inner.read(1.25, 7, &iout); ipull.allowed = was; if (ipull.pos >= 3900) ipull.pos = 0; }
    else if (nest == 2) inner.process(isig.x.data() + (inest % 50) * 10, 5, 9, 1.5, 0, &iout);
    else { Conv t; if (!t.create(type, ch)) fail("create", "cannot create a converter"); std::vector<float> d; std::vector<float> z((size_t) 4 * ch, 0.25f); t.process(z.data(), 4, 4, 1.0, 1, &d); t.destroy(); } };
  std::vector<float> pulled; i64 idx = 0, reads = 0, compared = 0; bool over = false; double lo = 0;
  auto read = [&](double ratio, i64 f) {
    size_t had = pulled.size(); std::vector<float> mo; i64 asked = 0;
    bool already = m.ended;
    a.pull.allowed = true; a.pull.calls_this_read = 0; a.pull.saw_end = false; i64 c0 = a.pull.calls;
    i64 g = a.c.read(ratio, f, &pulled); a.pull.allowed = false; reads++; i64 reqs = a.pull.calls - c0;
    i64 h = m.read(ratio, f, &mo, &asked);
    if (g != h) fail("pull-count", "read %lld of %lld frames delivered %lld, the push client %lld (%s ch=%d ratio=%.17g)", (long long) reads, (long long) f, (long long) g, (long long) h, type_name(type), ch, ratio);
    if (!same_bits(pulled.data() + had, mo.data(), mo.size())) fail("pull-value", "read %lld differs from the push client (%s ch=%d ratio=%.17g)", (long long) reads, type_name(type), ch, ratio);
    if (a.c.error()) fail("read-error", "src_error is %d after a good read", a.c.error());
    if (g < f && !m.ended) fail("short-read", "a read delivered %lld of %lld frames before the end of the source", (long long) g, (long long) f);
    if (protocol) {
      if (a.pull.pos != m.pos) fail("requests", "read %lld took the source to frame %lld, the documented loop to %lld", (long long) reads, (long long) a.pull.pos, (long long) m.pos);
      if (reqs > asked) fail("requests", "read %lld made %lld callback requests, the documented loop %lld", (long long) reads, (long long) reqs, (long long) asked);
      if (!already && !m.ended && reqs != asked) fail("requests", "read %lld made %lld callback requests, %lld were needed", (long long) reads, (long long) reqs, (long long) asked);
      // keep both on the same answers even if one of them did not repeat a request at the end
      m.calls = a.pull.calls = std::max(m.calls, a.pull.calls);
    } else m.calls = a.pull.calls = std::max(m.calls, a.pull.calls);
    compared++; over = m.ended && g == 0;
    state_seen(state_key(type, ch, ratio, 30 + (m.ended ? 1 : 0), bucket((double) f), bucket((double) reqs)));
    return g;
  };
  for (auto &o : s.ops) {
    idx++; if (idx > 400) break;
    if (o.k == "p") {
      double ratio = vary ? ok_ratio(o.d(2, 1)) : ratio0; double l = lo > 0 ? std::min(lo, ratio) : ratio; i64 f = clampi(o.d(1), 1, (i64) std::min(150000.0 / (taps_per_frame(type, l) * ch) + 3, 1e5 / ch + 1)); lo = l;
      if (a.style == 1 || a.style == 3) f = std::min<i64>(f, (i64) (20000 * std::min(1.0, l)) + 1);
      read(ratio, f); if (over) break;
    } else if (o.k == "t") { // very many small reads
      double ratio = vary ? ok_ratio(o.d(2, 1)) : ratio0, l = lo > 0 ? std::min(lo, ratio) : ratio; i64 f = clampi(o.d(1), 1, 8); lo = l; i64 left = (i64) std::min(1e6 / (taps_per_frame(type, l) * ch * (double) f) + 1, 2e5 / ch + 1);
      left = clampi(o.d(3), 1, left); fault("very many small calls"); for (; left > 0 && !over; left--) { read(ratio, f); count("calls in a march"); } if (over) break;
    } else if (o.k == "s" && vary) { double v = ok_ratio(o.d(0, 1)); a.c.set_ratio(v); m.c.set_ratio(v); lo = lo > 0 ? std::min(lo, v) : v; }
    else if (o.k == "r" && protocol) { a.c.reset(); a.pull.check_block(); a.rewind(); arm(); m.c.reset(); m.pos = m.calls = m.bleft = 0; m.ended = false; m.plan = a.pull.plan; lo = 0; fault("reset with part of a block unread"); }
    else if (o.k == "bad" && protocol) { // refused and empty reads must not ask for anything
      OwnerScope os(a.c.owner); StepScope ss(1000000); float x[4]; a.c.hub->cur() = &a.pull; a.pull.allowed = false; long g = 0; int e0 = src_error(a.c.st);
      switch (o.i(0) % 5) { case 0: g = src_callback_read(a.c.st, bad_ratio(o.i(1)), 1, x); break; case 1: g = src_callback_read(a.c.st, 1.0, 0, x); break; case 2: g = src_callback_read(a.c.st, 1.0, -3, x); break; case 3: g = src_callback_read(a.c.st, bad_ratio(o.i(1)), 0, x); break; default: { SRC_DATA d; memset(&d, 0, sizeof d); d.src_ratio = 1; src_process(a.c.st, &d); } }
      ss.close(); if (g) fail("accepted", "a refused read returned %ld", g); fault("refused or empty read");
      if (src_error(a.c.st) != e0) { // an error is now pending: only a reset clears it for certain
        a.c.reset(); a.pull.check_block(); a.rewind(); arm(); m.c.reset(); m.pos = m.calls = m.bleft = 0; m.ended = false; m.plan = a.pull.plan; lo = 0; } }
  }
  // The rest of the stream, to its end.
  if (!protocol || s.i("tail") % 3 == 0) {
    double ratio = vary ? (m.c.rlo > 0 ? std::max(m.c.rhi, m.c.rlo) : ratio0) : ratio0; (void) ratio;
    double r = ratio0; i64 f = std::max<i64>(clampi(s.d("tail", 100), 1, 100000 / ch + 1), (i64) ((double) sig.n * r / 300) + 1); f = std::min<i64>(f, 400000 / ch + 1);
    if (!vary) { for (int it = 0; !over && it < 3000; it++) { read(r, f); } if (!over) fail("never-ends", "reads keep delivering after the source ended"); }
  }
  a.pull.check_block();
  if (!protocol && !vary) {
    if (a.c.error()) fail("read-error", "src_error is %d at the end of the stream", a.c.error());
    if (m.pos != sig.n) fail("input-left", "the source was asked for only %lld of %lld frames", (long long) m.pos, (long long) sig.n);
    std::vector<float> one; one_shot(type, ch, sig, ratio0, one); require_same_stream("pull-push", "callback vs src_process", pulled, one, type, ch, ratio0, sig.peak, true, sig.n);
    Res R; std::vector<float> si; if (simple(sig.x.data(), sig.n, out_bound(sig.n, ratio0), ratio0, type, ch, R, si, (int) (a.salt & 1))) fail("simple", "src_simple failed with %d", R.err);
    // The last frame may stay unread at a tie: output ends on the instant that needs only the frame before it.
    if (R.used != sig.n && !(!is_sinc(type) && R.used == sig.n - 1 && near_integer((long double) R.gen / ratio0, 1e-9L))) fail("simple", "src_simple used %lld of %lld frames", (long long) R.used, (long long) sig.n);
    require_same_stream("pull-simple", "src_simple vs src_process", si, one, type, ch, ratio0, sig.peak, true, sig.n);
    // less room than needed: a prefix
    i64 less = (i64) ((double) (a.salt % 1000) / 1000 * (double) one.size() / ch); si.clear(); simple(sig.x.data(), sig.n, less, ratio0, type, ch, R, si); if (R.gen != std::min<i64>(less, (i64) one.size() / ch)) fail("simple", "src_simple generated %lld frames with room for %lld", (long long) R.gen, (long long) less);
    require_same_stream("pull-simple", "src_simple with less room", si, one, type, ch, ratio0, sig.peak, false, sig.n);
    count("complete streams through three interfaces");
  } else count("varying-ratio streams through two interfaces");
  if (nest == 1 && inest) { // the inner converter did what it would have done alone
    Pull p2; p2.sig = &isig; p2.ch = 1; p2.plan = ipull.plan; Conv c2; if (!c2.create_cb(&p2, type, 1)) fail("create", "cannot create"); p2.allowed = true; for (i64 k = 0; k < inest; k++) { p2.calls_this_read = 0; c2.read(1.25, 7, &iref); if (p2.pos >= 3900) p2.pos = 0; } c2.destroy(); if (iref.size() != iout.size() || !same_bits(iref.data(), iout.data(), iref.size())) fail("nested", "a converter used inside a callback gave different results"); }
  a.close(); m.c.destroy(); if (nest) { inner.destroy(); ipull.drop(); }
  g_nontrivial = compared > 0 && pulled.size() > 0;
}
static void c02_gen(Rng &r, Scenario &s, int tier) { pull_gen(r, s, tier, false); }
static void c02_exec(const Scenario &s) { pull_exec(s, false); }
static PropReg r02({"C02", "a source pulled in random reads from random blocks against a push client doing the documented loop (also under changing ratios), and complete streams against src_process and src_simple; non-trivial: compared reads with output", c02_gen, c02_exec});
static void c18_gen(Rng &r, Scenario &s, int tier) { pull_gen(r, s, tier, true); }
static void c18_exec(const Scenario &s) { pull_exec(s, true); }
static PropReg r18({"C18", "random reads with reclaimed blocks, refused and empty reads, resets, negative end marks and callbacks that use other converters; every request checked against the documented loop; non-trivial: compared reads with output", c18_gen, c18_exec});
