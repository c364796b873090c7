// C01 schedule independence, C03 ramp law, C05 unread input, C06 end of stream, C07 progress, C19 set_ratio.
#include "gen.hpp"
double bad_ratio(i64 k);

static void note_sizes(i64 n_in, i64 n_out, int type) {
  if (n_in == 0) fault("starved source (empty input)");
  if (n_out == 0) fault("stalled sink (no output room)");
  if (n_in == 1) fault("one-frame trickle");
  if (n_out == 1) fault("one-frame sink");
  if (is_sinc(type) && n_in > 15000) fault("burst larger than internal buffer");
}
static i64 fair(const Scenario &s, const char *k, i64 def) { return std::max<i64>(1, clampi(s.d(k, (double) def), 1, 200000)); }

// How many calls a march has: also around powers of two and round numbers.
static i64 gen_many(Rng &r) { return r.chance(0.45) ? (i64) r.logu(100, 3000) : r.chance(0.8) ? ((i64) 1 << r.range(8, 12)) + r.range(-3, 40) : r.range(990, 10040); }

// ------------------------------------------------------------------ C01
static void c01_gen(Rng &r, Scenario &s, int tier) {
  double ratio = gen_ratio(r); s.cfg["ratio"] = ratio;
  gen_stream(r, s, (tier ? 6e5 : 2.5e5) * (r.chance(0.06) ? 8 : 1), ratio);
  gen_spice(r, s, 0.12);
  if (r.chance(0.12) && gen_edge(r, s, ratio, tier ? 8e6 : 4e6, [&](i64 in, i64 room) { s.op("p", {(double) in, (double) room, (double) r.below(2), r.chance(0.1) ? 1.0 : 0.0}); })) { s.cfg["drain_in"] = (double) r.range(1, 50); s.cfg["drain_out"] = (double) r.range(1, 4000); s.cfg["late"] = (double) r.below(4); return; }
  i64 n = s.i("n"); Sizes zi = gen_sizes(r, std::max<i64>(16, n / 6)), zo = gen_sizes(r, std::max<i64>(16, (i64) (n * ratio / 6)));
  i64 in = 0, ops = r.range(1, 120);
  for (i64 k = 0; k < ops && in < n + 10; k++) { i64 a = zi.pick(r), b = zo.pick(r); s.op("p", {(double) a, (double) b, (double) r.below(2), r.chance(0.1) ? 1.0 : 0.0}); in += std::min(a, (i64) (b / ratio) + 1); }
  s.cfg["drain_in"] = (double) std::max<i64>(1, zi.pick(r)); s.cfg["drain_out"] = (double) std::max<i64>(1, zo.pick(r)); s.cfg["late"] = (double) r.below(4);
  if (n > 200 && r.chance(0.04)) s.ops.insert(s.ops.begin() + r.range(0, std::min<i64>(3, (i64) s.ops.size())), Op("p", {(double) r.range(1, 4), (double) r.range(1, 4), 0, 0, (double) gen_many(r)}));
  while (n > 20 && r.chance(0.06)) { bool src = r.chance(0.7); s.ops.insert(s.ops.begin() + r.range(0, (i64) s.ops.size()), Op("p", {src ? 0.0 : (double) r.range(0, 50), src ? (double) r.range(0, 50) : 0.0, 0, r.chance(0.5) ? 1.0 : 0.0, (double) (r.chance(0.7) ? r.range(10, 300) : gen_many(r))})); } // a long standstill
}
static void c01_exec(const Scenario &s) {
  int type = cfg_type(s), ch = cfg_ch(s, type); double ratio = ok_ratio(s.d("ratio", 1)); i64 n = clampi(s.d("n"), 0, 400000 / ch);
  Signal sig = cfg_signal(s, ch, n);
  std::vector<float> ref, out;
  one_shot(type, ch, sig, ratio, ref);
  Conv c; if (!c.create(type, ch)) fail("create", "cannot create a converter");
  i64 off = 0; bool flagged = false; int late = (int) s.i("late") & 3;
  auto step = [&](i64 ni, i64 no, bool eager, bool nullin) {
    ni = std::min(ni, n - off);
    bool last = off + ni == n, eoi = last && (ni == 0 ? true : eager) && (late != 3 || ni == 0);
    if (ni == 0 && last && n > 0 && !flagged) fault(nullin ? "end signalled by NULL empty block" : "end signalled by later empty block");
    if (eoi) flagged = true;
    if (flagged && last) eoi = true;
    note_sizes(ni, no, type);
    Res R = c.process(sig.x.data() + (size_t) off * ch, ni, no, ratio, eoi, &out, (nullin ? P_NULLIN : 0) | (nullin && no == 0 ? P_NULLOUT : 0));
    off += R.used;
    state_seen(state_key(type, ch, ratio, eoi ? 2 : 1, bucket((double) ni), bucket((double) no)) * 131 + bucket((double) R.used) * 64 + bucket((double) R.gen));
    return R;
  };
  i64 calls = 0;
  for (auto &o : s.ops) { if (o.k != "p") continue; i64 m = o.a.size() > 4 ? clampi(o.d(4), 1, 20000) : 1; if (m > 1) { count("calls in a march", m); fault("very many small calls"); }
    if (m > 1 && (o.d(0) <= 0 || o.d(1) <= 0)) fault("long standstill");
    for (; m > 0; m--) { step(clampi(o.d(0), 0, 1000000), clampi(o.d(1), 0, std::min<i64>(1000000, 8000000 / ch)), o.i(2) != 0, o.i(3) != 0); if (off == n) break; }
    if (++calls > 2000) break; }
  i64 di = fair(s, "drain_in", 256), dn = fair(s, "drain_out", 256), idle = 0;
  dn = std::min<i64>(dn, std::max<i64>(1, 4000000 / ch));
  // Bounded: tiny drains of long rests would only repeat the same call.
  di = std::max<i64>(di, n / 3000 + 1); dn = std::max<i64>(dn, (i64) (n * ratio) / 3000 + 1);
  for (i64 it = 0; it < 20000; it++) { Res R = step(di, dn, late != 2, late == 1); if (R.used == 0 && R.gen == 0) { if (++idle >= 3) break; } else idle = 0; }
  if (off != n) fail("input-left", "%lld of %lld frames never consumed", (long long) (n - off), (long long) n);
  c.destroy();
  g_nontrivial = out.size() > 0 && calls > 1;
  require_same_stream("schedule", "cut into calls vs one call", out, ref, type, ch, ratio, sig.peak, true, n);
}
static PropReg r01({"C01", "random stream and call schedule; non-trivial: at least two scheduled calls and some output, distinct schedules and configurations counted once", c01_gen, c01_exec});

// ------------------------------------------------------------------ C03
// Target ratio trajectories.
static double next_target(Rng &r, double cur, int mood, double lo, double hi) {
  double v = cur;
  switch (mood) {
    case 0: v = r.logu(lo, hi); break;                                   // jumps
    case 1: v = cur * std::exp(0.3 * (r.unit() - 0.5)); break;           // wander
    case 2: v = r.chance(0.5) ? cur : cur * (1 + 1e-4 * (r.unit() - 0.5)); break; // slow skew
    case 3: v = r.chance(0.5) ? lo : hi; break;                          // extremes
    case 4: v = r.chance(0.3) ? 1.0 : (r.chance(0.5) ? cur : r.logu(lo, hi)); break;
    default: v = cur * (1 + 1e-9 * (r.unit() - 0.5)); break;
  }
  if (v < lo) v = lo; if (v > hi) v = hi;
  return ok_ratio(v);
}
static void gen_range(Rng &r, double &lo, double &hi) {
  switch (r.wpick({0.35, 0.3, 0.2, 0.15})) { case 0: lo = 0.5; hi = 2; break; case 1: lo = 0.2; hi = 6; break; case 2: lo = 0.05; hi = 30; break; default: lo = 1.0 / 256; hi = 256; }
  if (r.chance(0.2)) lo = std::min(1.0, hi); else if (r.chance(0.2)) hi = std::max(1.0, lo);
}
static void c03_gen(Rng &r, Scenario &s, int tier) {
  double lo, hi; gen_range(r, lo, hi); double cur = r.logu(lo, hi);
  s.cfg["ratio"] = cur;
  gen_stream(r, s, (tier ? 5e5 : 2e5) * (r.chance(0.05) ? 8 : 1), std::sqrt(lo * hi), lo);
  if (r.chance(0.04)) { gen_drop(r, s, [&](i64 in, i64 room, double q) { s.op("p", {(double) in, (double) room, q}); }, [&](double v) { s.op("s", {v}); }); return; }
  if (r.chance(0.06) && gen_edge(r, s, cur, 3e6, [&](i64 in, i64 room) { s.op("p", {(double) in, (double) room, cur}); if (r.chance(0.3)) cur = ok_ratio(cur * (1 + 0.3 * (r.unit() - 0.5))); })) return;
  i64 n = s.i("n"); if (n < 200 && r.chance(0.8)) { n = r.range(200, 3000) / std::max<i64>(1, s.i("ch") / 4); s.cfg["n"] = (double) n; }
  Sizes zi = gen_sizes(r, std::max<i64>(16, n / 8)), zo = gen_sizes(r, std::max<i64>(16, (i64) (n * std::sqrt(lo * hi) / 8)));
  int mood = (int) r.below(6); i64 in = 0, ops = r.range(2, 60), march = r.chance(0.03) ? r.range(0, ops) : -1;
  for (i64 k = 0; k < ops && in < n + 10; k++) {
    if (k == march) s.op("t", {(double) r.range(1, 4), (double) r.range(1, 5), cur, (double) gen_many(r), (double) r.below(64)});
    if (r.chance(0.7)) cur = next_target(r, cur, mood, lo, hi);
    if (r.chance(0.07)) { double v = r.chance(0.25) ? ok_ratio(std::max(lo, std::min(hi, 1.0))) : next_target(r, cur, 0, lo, hi); s.op("s", {v}); if (r.chance(0.5)) cur = v; }
    if (r.chance(0.02)) s.op("reset", {});
    i64 a = zi.pick(r), b = zo.pick(r); s.op("p", {(double) a, (double) b, cur}); in += std::min(a, (i64) (b / cur) + 1);
  }
}
// A client of one converter whose every call is compared with the reference model.
struct Checked {
  Conv c; Model m; Offered o; std::vector<float> out; i64 base = 0; // base: first frame of the source in the current stream
  bool open(int type, int ch) { if (!c.create(type, ch)) fail("create", "cannot create a converter"); m.init(type, ch); o = Offered(); o.ch = ch; return true; }
  Res process(const float *in, i64 ni, i64 no, double ratio, int eoi, int flags = 0) {
    size_t had = out.size();
    Res R = c.process(in, ni, no, ratio, eoi, &out, flags);
    o.offer(in, ni);
    m.call(o, ni, no, ratio, eoi, R, out.data() + had);
    return R;
  }
  void reset() { c.reset(); m.reset(); int ch = o.ch; o = Offered(); o.ch = ch; }
};
// Room for outputs bounded by the cost of computing them twice.
static i64 room(const Conv &c, double want, double lo, i64 n_in) {
  double outs_cap = 4e6 / (taps_per_frame(c.type, lo) * c.ch) + 4; (void) n_in;
  return clampi(want, 0, (i64) std::min(outs_cap, 3e6 / c.ch));
}
// Very many small calls, each compared with the model (flags: 1 the ratio wobbles, 2 src_set_ratio now and then).
static i64 march(Checked &k, const Signal &sig, i64 &off, const Op &op) {
  int type = k.c.type, ch = k.c.ch; i64 n = sig.n; if (n < 1) return 0;
  i64 in = clampi(op.d(0), 1, 8), no = clampi(op.d(1), 1, 8); double ratio = ok_ratio(op.d(2, 1)), lo = k.m.last > 0 ? std::min(k.m.last, ratio) : ratio; int fl = (int) op.i(4); lo *= (fl & 2) ? 0.9 : 1;
  i64 m = clampi(op.d(3), 1, (i64) std::min(2e6 / (taps_per_frame(type, lo) * ch * (double) no) + 2, std::min(20000.0, 4e5 / ch + 2)));
  for (i64 j = 0; j < m; j++) {
    u64 h = mix64((u64) j * 31 + (u64) fl); double q = (fl & 1) && h % 3 == 0 ? ok_ratio(ratio * (1 + 0.02 * (double) (h >> 8 & 3))) : ratio;
    if ((fl & 2) && h % 37 == 0) { double v = ok_ratio(ratio * (0.95 + 0.1 * (double) (h >> 16 & 1))); if (k.c.set_ratio(v)) fail("set-ratio", "valid ratio refused"); k.m.set_ratio(v); }
    if (off >= n) off = 0;                              // a long source: it repeats
    bool idle = (fl & 4) && mix64((u64) (j >> (4 + (fl >> 4 & 3))) * 3 + (u64) fl) % 3 == 0; // the source (8: the sink) stands still for long
    Res R = k.process(sig.x.data() + (size_t) off * ch, idle && !(fl & 8) ? 0 : std::min(in, n - off), idle && (fl & 8) ? 0 : no, q, 0); off += R.used;
    if (!idle && R.used == 0 && R.gen == 0) fail("no-progress", "call %lld of a march neither consumed nor generated anything", (long long) j);
  }
  if (off >= n) off = 0;
  count("calls in a march", m); fault("very many small calls"); return m;
}
static void c03_exec(const Scenario &s) {
  int type = cfg_type(s), ch = cfg_ch(s, type); i64 n = clampi(s.d("n"), 0, 400000 / ch);
  Signal sig = cfg_signal(s, ch, n); Checked k; k.open(type, ch);
  i64 off = 0; double last = ok_ratio(s.d("ratio", 1)); i64 calls = 0, ramps = 0;
  for (auto &op : s.ops) {
    if (op.k == "p") {
      i64 ni = std::min(clampi(op.d(0), 0, 1000000), n - off); double ratio = ok_ratio(op.d(2, last));
      i64 no = room(k.c, op.d(1), std::min(ratio, k.m.last > 0 ? k.m.last : ratio), ni);
      if (k.m.last > 0 && std::fabs(k.m.last - ratio) > 1e-15) { ramps++; fault(ratio > k.m.last ? "clock skew: ratio raised" : "clock skew: ratio lowered"); if (std::fabs(std::log(ratio / k.m.last)) > 1) fault("clock jump (ratio factor > e)"); }
      note_sizes(ni, no, type);
      Res R = k.process(sig.x.data() + (size_t) off * ch, ni, no, ratio, 0);
      if (R.gen < no && R.gen > 0 && std::fabs(k.m.last - ratio) > 1e-12) count("ramp cut short");
      off += R.used; last = ratio; calls++;
      state_seen(state_key(type, ch, ratio, R.gen < no, bucket((double) R.used), bucket(k.m.last)));
    } else if (op.k == "s") { double v = ok_ratio(op.d(0, 1)); if (k.c.set_ratio(v)) fail("set-ratio", "valid ratio refused"); k.m.set_ratio(v); fault("step change of ratio"); }
    else if (op.k == "reset") { k.reset(); fault("reset mid-stream"); }
    else if (op.k == "t") { ramps += march(k, sig, off, op) > 1 && (op.i(4) & 1); last = k.m.last; }
    if (calls > 400) break;
  }
  // End of the stream at the ratio reached: values only.
  double ratio = k.m.last > 0 ? k.m.last : last; i64 rest = n - off, no = room(k.c, (double) rest * ratio + 100, ratio, rest), idle = 0;
  for (int it = 0; it < 400 && idle < 2; it++) { Res R = k.process(sig.x.data() + (size_t) off * ch, n - off, std::max<i64>(no, 1), ratio, 1); off += R.used; idle = R.gen == 0 && R.used == 0 ? idle + 1 : 0; if (k.out.size() > 6000000u) break; }
  k.c.destroy();
  g_nontrivial = ramps > 0 && k.out.size() > 0;
}
static PropReg r03({"C03", "random ratio trajectory and call schedule, every call compared with the reference model; non-trivial: at least one ramp and some output", c03_gen, c03_exec});

// ------------------------------------------------------------------ C19
static void c19_gen(Rng &r, Scenario &s, int tier) {
  c03_gen(r, s, tier); double lo = 0.2, hi = 5; if (r.chance(0.25)) { lo = 1.0 / 256; hi = 256; }
  std::vector<Op> ops; s.cfg["cb"] = r.chance(0.35) ? 1 : 0;
  for (auto &o : s.ops) { if (o.k == "s") continue; if (o.k == "t" && o.a.size() > 4) o.a[4] = (double) ((int) o.a[4] | 2); if (r.chance(0.5)) { int m = (int) r.range(1, r.chance(0.2) ? 3 : 1); double v = 1; for (int i = 0; i < m; i++) { v = r.chance(0.1) ? 1.0 : r.logu(lo, hi); if (r.chance(0.1)) { static const double bad[] = {0, -1, 1e9, 1.0 / 257, 257, NAN, INFINITY}; ops.push_back(Op("bad", {bad[r.below(7)]})); } ops.push_back(Op("s", {v})); if (r.chance(0.1)) ops.push_back(Op("bad", {0})); } if (o.k == "p" && o.a.size() > 2 && r.chance(0.6)) o.a[2] = v; } if (r.chance(0.01)) ops.push_back(Op("ss", {r.logu(lo, hi), std::floor(r.logu(4, 3000)), (double) r.below(4)})); ops.push_back(o); }
  s.ops = ops;
}
// The client changes its mind very often before it goes on: the last word counts.
template <class F> static void many_steps(const Op &op, F set) {
  i64 m = clampi(op.d(1), 1, 20000); double v = ok_ratio(op.d(0, 1)); int how = (int) op.i(2) & 3;
  for (i64 j = 1; j <= m; j++) { double w = j == m || how == 0 ? v : ok_ratio(how == 1 ? 1 + 0.01 * (double) (j % 50) : v * (0.5 + (double) (mix64((u64) j) % 1000) / 1000)); if (how == 3 && j < m && j % 3 == 0) { if (!err_is(set(bad_ratio(j)), E_RATIO)) fail("set-ratio", "bad ratio accepted"); continue; } int e = set(w); if (e) fail("set-ratio", "src_set_ratio(%.17g) returned %d the %lldth time in a row", w, e, (long long) j); }
  fault("very many steps of the ratio in a row");
}
static void c19_push(const Scenario &s) {
  int type = cfg_type(s), ch = cfg_ch(s, type); i64 n = clampi(s.d("n"), 0, 400000 / ch);
  Signal sig = cfg_signal(s, ch, n); Checked k; k.open(type, ch);
  i64 off = 0; i64 calls = 0, steps = 0; bool just = false;
  for (auto &op : s.ops) {
    if (op.k == "p") {
      i64 ni = std::min(clampi(op.d(0), 0, 1000000), n - off); double ratio = ok_ratio(op.d(2, 1));
      double cur = k.m.last > 0 ? k.m.last : ratio;
      i64 no = room(k.c, op.d(1), std::min(ratio, cur), ni);
      if (just) { steps++; count(cur == ratio ? "step then constant" : "step then ramp"); }
      Res R = k.process(sig.x.data() + (size_t) off * ch, ni, no, ratio, 0);
      off += R.used; calls++; if (R.gen) just = false;
      state_seen(state_key(type, ch, ratio, just, bucket((double) R.gen), bucket(cur)));
    } else if (op.k == "ss") { many_steps(op, [&](double v) { return k.c.set_ratio(v); }); k.m.set_ratio(ok_ratio(op.d(0, 1))); just = true;
    } else if (op.k == "s") { double v = ok_ratio(op.d(0, 1)); int e = k.c.set_ratio(v); if (e) fail("set-ratio", "src_set_ratio(%.17g) returned %d", v, e); k.m.set_ratio(v); just = true; fault("step change of ratio"); }
    else if (op.k == "bad") { double v = op.d(0, 0); if (v >= 1.0 / 256 && v <= 256) continue; int e = k.c.set_ratio(v); if (!err_is(e, E_RATIO)) fail("set-ratio", "src_set_ratio(%g) returned %d", v, e); fault("refused src_set_ratio"); }
    else if (op.k == "reset") { k.reset(); just = false; fault("reset mid-stream"); }
    else if (op.k == "t") { march(k, sig, off, op); if (op.i(4) & 2) steps++; just = false; }
    if (calls > 400) break;
  }
  k.c.destroy();
  g_nontrivial = steps > 0 && k.out.size() > 0;
}
// The same in the callback interface: a fresh model drives the expectation through the whole read.
static void c19_pull(const Scenario &s) {
  int type = cfg_type(s), ch = cfg_ch(s, type); i64 n = clampi(s.d("n"), 0, 400000 / ch);
  Signal sig = cfg_signal(s, ch, n);
  // Twin in push mode doing the documented pull loop, checked against the model; the callback converter must agree.
  Pull pull; pull.sig = &sig; pull.ch = ch; i64 blk = std::max<i64>(1, clampi(s.d("blk", 500), 1, 20000));
  pull.plan = [&](i64 no, i64 left) { return left <= 0 ? 0 : std::min<i64>(left, 1 + (i64) (mix64(no * 7 + (u64) blk) % (u64) blk)); };
  Conv c; if (!c.create_cb(&pull, type, ch)) fail("create", "cannot create a callback converter");
  Checked k; k.open(type, ch);
  i64 ppos = 0, pcalls = 0, bstart = 0, bleft = 0, steps = 0, calls = 0; bool just = false; std::vector<float> out;
  for (auto &op : s.ops) {
    if (op.k == "p") {
      double ratio = ok_ratio(op.d(2, 1)), cur = k.m.last > 0 ? k.m.last : ratio;
      i64 no = std::min<i64>(room(k.c, op.d(1), std::min(ratio, cur), 0), 60000); if (no <= 0) continue;
      if (k.o.ended) break;      // only streams still running are compared
      pull.allowed = true; pull.calls_this_read = 0; size_t had = out.size();
      i64 g = c.read(ratio, no, &out); pull.allowed = false;
      i64 got = 0; size_t had2 = k.out.size(); bool over = false;
      while (got < no) {
        int eoi = 0;
        if (bleft == 0) { i64 want = pull.plan(pcalls++, n - ppos); if (want <= 0) { eoi = 1; over = true; } else { bstart = ppos; bleft = std::min(want, n - ppos); ppos += bleft; } }
        Res R = k.process(sig.x.data() + (size_t) bstart * ch, bleft, no - got, ratio, eoi);
        bstart += R.used; bleft -= R.used; got += R.gen;
        if (eoi && R.gen == 0) break;
      }
      if (g != got) fail("pull-count", "callback read delivered %lld frames, push client %lld", (long long) g, (long long) got);
      if (!same_bits(out.data() + had, k.out.data() + had2, (size_t) g * ch)) fail("pull-value", "callback read after src_set_ratio differs from the push client");
      if (just && g) { steps++; just = false; }
      if (over) { k.o.ended = true; break; }
      calls++;
    } else if (op.k == "ss") { many_steps(op, [&](double v) { return c.set_ratio(v); }); double v = ok_ratio(op.d(0, 1)); k.c.set_ratio(v); k.m.set_ratio(v); just = true;
    } else if (op.k == "s") { double v = ok_ratio(op.d(0, 1)); if (c.set_ratio(v) || k.c.set_ratio(v)) fail("set-ratio", "valid ratio refused"); k.m.set_ratio(v); just = true; fault("step change of ratio (callback)"); }
    else if (op.k == "bad") { double v = op.d(0, 0); if (v >= 1.0 / 256 && v <= 256) continue; if (!err_is(c.set_ratio(v), E_RATIO)) fail("set-ratio", "bad ratio accepted"); fault("refused src_set_ratio"); }
    if (calls > 300) break;
  }
  c.destroy(); k.c.destroy(); pull.check_block();
  g_nontrivial = steps > 0;
}
static void c19_exec(const Scenario &s) { if (s.i("cb")) c19_pull(s); else c19_push(s); }
static PropReg r19({"C19", "random histories with src_set_ratio before calls, in push and pull interfaces, against the reference model; non-trivial: a ratio step followed by output", c19_gen, c19_exec});

// ------------------------------------------------------------------ C05
static void c05_gen(Rng &r, Scenario &s, int tier) {
  double lo, hi; gen_range(r, lo, hi); double cur = r.logu(lo, hi); bool vary = r.chance(0.4); if (!vary) { cur = gen_ratio(r); lo = hi = cur; }
  s.cfg["ratio"] = cur;
  gen_stream(r, s, (tier ? 3e5 : 1.2e5) * (r.chance(0.05) ? 8 : 1), std::sqrt(lo * hi), lo);
  i64 n = s.i("n"); Sizes zi = gen_sizes(r, std::max<i64>(16, n / 4)), zo = gen_sizes(r, std::max<i64>(16, (i64) (n * std::sqrt(lo * hi) / 16)));
  i64 ops = r.range(2, 60); int mood = (int) r.below(6);
  for (i64 k = 0; k < ops; k++) { if (vary && r.chance(0.4)) cur = next_target(r, cur, mood, lo, hi); s.op("p", {(double) zi.pick(r), (double) zo.pick(r), cur, (double) r.below(4), (double) r.below(1 << 20)}); }
  if (r.chance(0.02)) s.ops.insert(s.ops.begin() + r.range(0, ops), Op("p", {(double) r.range(1, 6), (double) r.range(1, 3), cur, (double) r.below(3), (double) r.below(1 << 20), (double) gen_many(r)}));
}
// The client offers more than fits; whatever is reported unused is rewritten before the next call.
// The twin is offered only what the first one consumed plus one following frame.
static void c05_exec(const Scenario &s) {
  int type = cfg_type(s), ch = cfg_ch(s, type); u64 sseed = (u64) s.i("sig", 1);
  Conv a, b; if (!a.create(type, ch) || !b.create(type, ch)) fail("create", "cannot create a converter");
  Model m; m.init(type, ch); Offered o; o.ch = ch;
  std::vector<float> oa, ob, blk, keep; i64 calls = 0, rewrites = 0; i64 total = 0; bool begun = false;
  i64 again = 0; // an operation may stand for very many equal ones
  for (size_t at = 0; at < s.ops.size(); again ? 0 : at++) {
    const Op &op = s.ops[at]; if (op.k != "p") continue;
    double ratio = ok_ratio(op.d(2, 1)), cur = m.last > 0 ? m.last : ratio;
    i64 ni = clampi(op.d(0), 0, 60000 / ch), no = room(a, op.d(1), std::min(ratio, cur), ni); int how = (int) op.i(3) & 3; u64 salt = (u64) op.i(4, 1) + (u64) again;
    if (again) again--; else if (op.d(5) > 1) { again = clampi(op.d(5), 1, (i64) std::min(1e6 / (taps_per_frame(type, std::min(ratio, cur)) * ch * (double) (no + 1)) + 1, std::min(2e4, 2e5 / (double) (ch * (ni + 1)) + 1))); count("calls in a march", again); fault("very many small calls"); }
    no = std::min<i64>(no, (i64) (200000.0 / (taps_per_frame(type, std::min(ratio, cur)) * ch)) + 2);
    // New content for everything not consumed so far; the very first frame of a stream may be remembered.
    blk.resize((size_t) ni * ch);
    for (i64 f = 0; f < ni; f++) for (int c = 0; c < ch; c++) blk[f * ch + c] = how == 3 ? (float) (1e3 * signal_at(sseed + salt, 0, 1, c, f)) : signal_at(sseed + salt, 0, 1, c, f);
    if (!begun && ni > 0 && total == 0 && keep.size() == (size_t) ch) std::copy(keep.begin(), keep.end(), blk.begin());
    size_t ha = oa.size(), hb = ob.size();
    Res R = a.process(blk.data(), ni, no, ratio, 0, &oa);
    // What the twin is offered: the consumed frames and the one after, in an array of exactly that size.
    i64 nb = std::min(ni, R.used + 1);
    Res Q;
    if (nb == ni || type == T_ZOH || type == T_LINEAR) {
      // the twin's unread rest holds different values (hold/line also accept a shorter offer, see below)
      std::vector<float> blk2 = blk; for (size_t i = (size_t) nb * ch; i < blk2.size(); i++) blk2[i] = -7.0f - 3 * blk2[i];
      Q = b.process(blk2.data(), ni, no, ratio, 0, &ob);
      if (ni > nb) { rewrites++; fault("unread input rewritten"); }
    } else {
      std::vector<float> blk2 = blk; for (size_t i = (size_t) nb * ch; i < blk2.size(); i++) blk2[i] = 1e6f + 3 * blk2[i];
      Q = b.process(blk2.data(), ni, no, ratio, 0, &ob);
      rewrites++; fault("unread input rewritten");
    }
    if (Q.used != R.used || Q.gen != R.gen) fail("unread-count", "rewriting unread input changed the counts: used %lld/%lld generated %lld/%lld", (long long) R.used, (long long) Q.used, (long long) R.gen, (long long) Q.gen);
    if (!same_bits(oa.data() + ha, ob.data() + hb, oa.size() - ha)) fail("unread-value", "output depends on input frames reported as unused (%s ch=%d used=%lld of %lld gen=%lld)", type_name(type), ch, (long long) R.used, (long long) ni, (long long) R.gen);
    o.offer(blk.data(), ni); m.call(o, ni, no, ratio, 0, R, oa.data() + ha);
    if (ni > 0 && !begun) { if (total + R.used > 0) begun = true; else { keep.assign(blk.begin(), blk.begin() + ch); } }
    total += R.used; if (!again) calls++;
    if (how == 1) { a.process(nullptr, 0, 0, m.last, 0, nullptr); b.process(nullptr, 0, 0, m.last, 0, nullptr); fault("source discarded its block"); }
    state_seen(state_key(type, ch, ratio, how, bucket((double) (ni - R.used)), bucket((double) R.gen)));
    if (calls > 300 || o.x.size() > 3000000u) break;
  }
  a.destroy(); b.destroy();
  g_nontrivial = rewrites > 0 && oa.size() > 0;
}
static PropReg r05({"C05", "random schedules with more input offered than consumed, the unread part rewritten before every later call and different for a twin; non-trivial: unread input was rewritten and there was output", c05_gen, c05_exec});

// ------------------------------------------------------------------ C06
static void c06_gen(Rng &r, Scenario &s, int tier) {
  double ratio = gen_ratio(r); s.cfg["ratio"] = ratio;
  gen_stream(r, s, (tier ? 2e5 : 1e5) * (r.chance(0.06) ? 10 : 1), ratio);
  if (r.chance(0.3)) { i64 h = half_len((int) s.i("conv"), ratio); s.cfg["n"] = (double) std::min<i64>(std::max<i64>(0, h * r.range(0, 4) / 2 + r.range(-3, 3)), (i64) (60000 / s.i("ch"))); } // around filter boundaries
  bool edge = r.chance(0.12) && gen_edge(r, s, ratio, tier ? 8e6 : 4e6, [&](i64 in, i64 room) { s.op("p", {(double) in, (double) room, (double) r.below(2)}); });
  i64 n = s.i("n"); Sizes zi = gen_sizes(r, std::max<i64>(8, n / 3)), zo = gen_sizes(r, std::max<i64>(8, (i64) (n * ratio / 3)));
  if (!edge) for (i64 k = r.range(0, 40); k > 0; k--) s.op("p", {(double) zi.pick(r), (double) zo.pick(r), (double) r.below(2)});
  if (!edge && n > 20 && r.chance(0.04)) s.ops.insert(s.ops.begin() + r.range(0, (i64) s.ops.size()), Op("p", {0, (double) r.range(0, 40), 0, (double) r.range(10, 300)})); // a long standstill
  if (n > 200 && r.chance(0.02)) s.ops.insert(s.ops.begin(), Op("p", {(double) r.range(1, 4), (double) r.range(1, 4), 0, (double) gen_many(r)}));
  s.cfg["manner"] = (double) r.below(4); s.cfg["drain_out"] = (double) (r.chance(0.3) ? 1 : std::max<i64>(1, zo.pick(r))); s.cfg["cb"] = r.chance(0.25) ? 1 : 0; s.cfg["blk"] = (double) r.range(1, std::max<i64>(2, n));
  s.cfg["after"] = (double) (r.chance(0.9) ? r.range(1, 6) : std::floor(r.logu(6, 1500)));
}
static void c06_total(int type, int ch, double ratio, i64 n, i64 got) {
  double ideal = (double) n * ratio;
  if (std::fabs((double) got - ideal) > 1.0 + 1e-6 + (type == T_ZOH ? std::min(1.0, ratio) * 0 : 0)) fail("total", "%s ch=%d ratio=%.17g: %lld input frames gave %lld output frames, expected %.3f", type_name(type), ch, ratio, (long long) n, (long long) got, ideal);
}
static void c06_exec(const Scenario &s) {
  int type = cfg_type(s), ch = cfg_ch(s, type); double ratio = ok_ratio(s.d("ratio", 1)); i64 n = clampi(s.d("n"), 0, 400000 / ch);
  Signal sig = cfg_signal(s, ch, n); int after = (int) clampi(s.d("after", 2), 1, 3000);
  i64 dn = fair(s, "drain_out", 64); dn = std::max<i64>(dn, (i64) (n * ratio) / 3000 + 1); dn = std::min<i64>(dn, 2000000 / ch + 1);
  std::vector<float> out;
  if (s.i("cb")) {
    Pull pull; pull.sig = &sig; pull.ch = ch; i64 blk = std::max<i64>(1, clampi(s.d("blk", 100), 1, 400000)); blk = std::max<i64>(blk, n / 3000 + 1);
    pull.plan = [&](i64, i64 left) { return std::min(left, blk); };
    Conv c; if (!c.create_cb(&pull, type, ch)) fail("create", "cannot create a callback converter");
    size_t oi = 0; i64 g = 1, reads = 0, zeros = 0;
    while (reads < 20000 && zeros < 1 + after) {
      i64 f = dn; while (oi < s.ops.size() && s.ops[oi].k != "p") oi++;
      if (oi < s.ops.size()) { f = clampi(s.ops[oi++].d(1), 0, 2000000 / ch); }
      if (f == 0) { f = 1; }
      pull.allowed = true; pull.calls_this_read = 0; g = c.read(ratio, f, &out); pull.allowed = false; reads++;
      if (c.error()) fail("read-error", "src_error is %d at the end of a stream", c.error());
      if (g == 0) { if (!pull.saw_end) fail("early-end", "a read returned 0 before the source ended"); zeros++; } else if (zeros) fail("after-end", "a read after the end delivered %lld frames", (long long) g);
      if (g < f && !pull.saw_end) fail("short-read", "a read delivered %lld of %lld frames before the source ended", (long long) g, (long long) f);
    }
    fault("end of input (callback)");
    c.destroy(); pull.check_block();
    if (pull.pos != n) fail("input-left", "the source was asked for only %lld of %lld frames", (long long) pull.pos, (long long) n);
  } else {
    Checked k; k.open(type, ch); i64 off = 0; int manner = (int) s.i("manner") & 3; bool eof = false; i64 calls = 0;
    bool dry = false; // a call after the end of input with room for output generated nothing: a client stops here
    auto step = [&](i64 ni, i64 no, bool eager) {
      ni = std::min(ni, n - off); bool last = off + ni == n; bool nullin = manner == 2;
      // manner 0: flag with the last block; 1, 2: only by an empty (NULL) block; 3: flag on every call once the rest is on offer
      bool eoi = last && ((manner == 0 && eager) || manner == 3 || ni == 0 || eof);
      if (eoi && !eof) fault(manner == 2 && ni == 0 ? "end of input (NULL empty block)" : ni == 0 ? "end of input (empty block)" : "end of input (with data)");
      if (eoi) eof = true;
      note_sizes(ni, no, type);
      Res R = k.process(sig.x.data() + (size_t) off * ch, ni, no, ratio, eoi, nullin ? P_NULLIN : 0);
      if (dry && R.gen) fail("late-output", "%lld frames generated after a call at the end of input had generated none although it had room", (long long) R.gen);
      if (eoi && no > 0 && R.gen == 0) dry = true;
      off += R.used; calls++;
      state_seen(state_key(type, ch, ratio, 4 + manner, bucket((double) (n - off)), bucket((double) R.gen)));
      return R;
    };
    for (auto &o : s.ops) { if (o.k != "p") continue; if (o.a.size() > 3) { fault("very many small calls"); i64 m = clampi(o.d(3), 1, 20000), c0 = calls; count("calls in a march", m); for (; m > 0 && off < n; m--) step(clampi(o.d(0), 0, 400000), clampi(o.d(1), 0, 2000000 / ch), false); calls = c0; }
      step(clampi(o.d(0), 0, 400000), clampi(o.d(1), 0, 2000000 / ch), o.i(2) != 0); if (calls > 1000) break; }
    i64 idle = 0;
    for (i64 it = 0; it < 30000 && idle < 2; it++) { bool rest = n - off > 0; Res R = step(n - off, dn, true); idle = (R.gen == 0 && R.used == 0 && !rest) ? idle + 1 : 0; if (it > 25000) fail("never-ends", "the drain does not end"); }
    if (off != n) fail("input-left", "%lld of %lld frames never consumed", (long long) (n - off), (long long) n);
    for (int i = 0; i < after; i++) { Res R = k.process(sig.x.data() + (size_t) n * ch, 0, i & 1 ? 1 : 100, ratio, 1, manner == 2 ? P_NULLIN : 0); if (R.gen || R.used) fail("after-end", "a call after the end generated %lld frames", (long long) R.gen); count("calls after end"); }
    k.c.destroy(); out = k.out;
  }
  c06_total(type, ch, ratio, n, (i64) out.size() / ch);
  g_nontrivial = n > 0;
}
static PropReg r06({"C06", "random stream lengths (also around filter boundaries), drain schedules and ways of signalling the end, push and pull, tail values against the reference model; non-trivial: a non-empty stream was drained to the end", c06_gen, c06_exec});

// ------------------------------------------------------------------ C07
static void c07_gen(Rng &r, Scenario &s, int tier) {
  double lo, hi; gen_range(r, lo, hi); double cur = r.logu(lo, hi); bool vary = r.chance(0.5); if (!vary) { cur = gen_ratio(r); lo = hi = cur; }
  s.cfg["ratio"] = cur; s.cfg["cb"] = r.chance(0.5) ? 1 : 0;
  gen_stream(r, s, (tier ? 3e5 : 1.2e5) * (r.chance(0.05) ? 6 : 1), std::sqrt(lo * hi), lo);
  if (r.chance(0.06)) { s.cfg["cb"] = r.chance(0.2) ? 1 : 0; gen_drop(r, s, [&](i64 in, i64 room, double q) { s.op("p", {(double) in, (double) room, q}); }, [&](double v) { s.op("s", {v}); }); s.cfg["blk"] = (double) r.range(20, 4000); return; }
  i64 n = s.i("n"); Sizes zi = gen_sizes(r, std::max<i64>(8, n / 5)), zo = gen_sizes(r, std::max<i64>(8, (i64) (n * std::sqrt(lo * hi) / 5)));
  i64 ops = r.range(2, 60); int mood = (int) r.below(6);
  for (i64 k = 0; k < ops; k++) {
    if (vary && r.chance(0.4)) cur = next_target(r, cur, mood, lo, hi);
    s.op("p", {(double) zi.pick(r), (double) zo.pick(r), cur});
    if (s.i("cb") && r.chance(0.25)) s.op("cb", {(double) r.below(6), (double) r.range(1, 5)}); // source behaviour from here
    if (r.chance(0.03)) s.op("reset", {});
    if (r.chance(0.05)) s.op("s", {next_target(r, cur, 0, lo, hi)});
    if (!s.i("cb") && r.chance(0.04)) s.op("eoi", {});
    if (!s.i("cb") && r.chance(0.02)) s.op("drip", {(double) r.range(10, 300), 0, cur});
    if (!s.i("cb") && r.chance(0.02)) s.op("drip", {(double) (r.chance(0.5) ? r.range(50, 400) : gen_many(r)), (double) r.range(1, 3), cur});
  }
  s.cfg["blk"] = (double) std::max<i64>(1, zi.pick(r));
}
static void c07_push(const Scenario &s) {
  int type = cfg_type(s), ch = cfg_ch(s, type); i64 n = clampi(s.d("n"), 0, 400000 / ch);
  Signal sig = cfg_signal(s, ch, n); Checked k; k.open(type, ch); k.m.check_values = false;
  i64 off = 0, calls = 0; double cur = ok_ratio(s.d("ratio", 1)); bool ended = false;
  for (auto &op : s.ops) {
    if (op.k == "p") {
      double ratio = ok_ratio(op.d(2, cur)); cur = ratio;
      i64 ni = std::min(clampi(op.d(0), 0, 400000), n - off), no = room(k.c, op.d(1), std::min(ratio, k.m.last > 0 ? k.m.last : ratio), ni);
      note_sizes(ni, no, type);
      if (ended) { // input after the end without a reset: must return at once, nothing more is promised
        std::vector<float> dump; k.c.process(sig.x.data() + (size_t) off * ch, ni, no, ratio, 0, &dump); fault("source resumed after end of input"); calls++; continue; }
      Res R = k.process(sig.x.data() + (size_t) off * ch, ni, no, ratio, 0); off += R.used; calls++;
      if (ni > 0 && no > 0 && R.used == 0 && R.gen == 0) fail("no-progress", "input and room available, nothing consumed or generated");
      state_seen(state_key(type, ch, ratio, 9, bucket((double) R.used), bucket((double) R.gen)));
    } else if (op.k == "drip") { // many calls with hardly anything in them
      double ratio = ok_ratio(op.d(2, cur)); cur = ratio; i64 m = clampi(op.d(0), 1, std::min<i64>(20000, 200000 / ch + 1)), q = clampi(op.d(1), 0, 4); if (ended) continue; fault("one-frame trickle", m);
      for (i64 i = 0; i < m && n > 0; i++) { if (off >= n) off = 0; if (k.out.size() > 3000000u) k.out.clear(); Res R = k.process(sig.x.data() + (size_t) off * ch, std::min<i64>(q, n - off), std::min<i64>(room(k.c, 1 + (double) q * ratio, std::min(ratio, k.m.last > 0 ? k.m.last : ratio), q), 1000), ratio, 0); off += R.used; }
    } else if (op.k == "eoi") { if (off == n || ended) continue; ended = true; std::vector<float> d; k.c.process(sig.x.data() + (size_t) off * ch, 0, 0, cur, 1, &d); k.c.process(sig.x.data() + (size_t) off * ch, 0, 64, cur, 1, &d); fault("early end of input"); }
    else if (op.k == "reset") { k.reset(); ended = false; fault("reset mid-stream"); }
    else if (op.k == "s") { double v = ok_ratio(op.d(0, 1)); k.c.set_ratio(v); k.m.set_ratio(v); fault("step change of ratio"); }
    if (calls > 500) break;
  }
  if (ended) { k.reset(); }
  // Fair phase: from here every call offers input and room; the rest of the stream must complete in a bounded number of calls.
  double ratio = k.m.last > 0 ? k.m.last : cur;
  i64 blk = std::max<i64>(fair(s, "blk", 100), (n - off) / 1000 + 1), no = std::max<i64>(1, (i64) ((double) blk * ratio));
  no = std::min<i64>(no, 2000000 / ch + 1);
  i64 bound = 60 + 3 * ((n - off) / blk + 1) + 3 * (i64) (((double) (n - off) + 70000) * ratio / (double) no + 1), it = 0, idle = 0;
  std::vector<float> sink; i64 rest = n - off;
  while (idle < 1) {
    i64 ni = std::min(blk, n - off); bool rest_in = ni > 0;
    Res R = k.c.process(sig.x.data() + (size_t) off * ch, ni, no, ratio, off + ni == n, nullptr); off += R.used;
    if (rest_in && R.used == 0 && R.gen == 0) fail("no-progress", "fair phase: nothing consumed or generated");
    if (!rest_in && R.gen == 0) idle++;
    if (++it > bound) fail("not-complete", "the stream did not complete within %lld calls after the faults stopped (%lld frames left of %lld)", (long long) bound, (long long) (n - off), (long long) rest);
  }
  count("fair phases completed");
  k.c.destroy();
  g_nontrivial = calls > 1;
}
static void c07_pull(const Scenario &s) {
  int type = cfg_type(s), ch = cfg_ch(s, type); i64 n = clampi(s.d("n"), 0, 400000 / ch);
  Signal sig = cfg_signal(s, ch, n); Pull pull; pull.sig = &sig; pull.ch = ch;
  int mode = 0; i64 arg = 1; i64 blk = fair(s, "blk", 100); u64 salt = (u64) s.i("sig");
  bool ended = false, bad = false; i64 ends = 0; // consecutive non-positive answers
  pull.plan = [&](i64 no, i64 left) -> i64 {
    switch (mode) {
      case 1: fault("one-frame trickle (callback)"); return std::min<i64>(left, 1);
      case 2: if (no % (arg + 1) == 0) { fault("early end of input (callback)"); bad = true; return 0; } return std::min<i64>(left, blk);   // ends and resumes
      case 3: fault("negative callback result"); bad = true; return -arg;
      case 4: if (mix64(no + salt) % 3 == 0) { fault("early end of input (callback)"); bad = true; return 0; } return std::min<i64>(left, 1 + (i64) (mix64(no * 3 + salt) % (u64) blk));
      case 5: if (mix64(no + salt) % 4 == 0) { fault("negative callback result"); bad = true; return -(i64) (mix64(no) % 1000) - 1; } return std::min<i64>(left, blk);
    }
    return std::min<i64>(left, blk);
  };
  Conv c; if (!c.create_cb(&pull, type, ch)) fail("create", "cannot create a callback converter");
  double cur = ok_ratio(s.d("ratio", 1)), lo = cur; i64 calls = 0; std::vector<float> out; bool start = true;
  for (auto &op : s.ops) {
    if (op.k == "p") {
      double ratio = ok_ratio(op.d(2, cur)); cur = ratio; lo = start ? ratio : std::min(lo, ratio); start = false;
      i64 f = std::min<i64>(clampi(op.d(1), 0, 100000 / ch), (i64) (1e6 / (taps_per_frame(type, lo) * ch)) + 1);
      pull.allowed = true; pull.calls_this_read = 0; i64 pos0 = pull.pos; pull.saw_end = false; (void) pos0;
      // Each answer carries at least one frame unless it ends the read, so the number of requests is bounded by the input needed.
      pull.max_calls_this_read = 64 + (i64) (((double) f + 2) / lo * 1.01) + 3 * half_len(type, lo) + 4 * half_len(type, 1.0 / 256) * (lo < 0.5) + (mode >= 2 ? 4 * f + 100 : 0);
      if (f > 0) { i64 g = c.read(ratio, f, &out); if (g < f && !pull.saw_end && !ended && !bad && c.error() == 0) fail("short-read", "a read delivered %lld of %lld frames before the source ended", (long long) g, (long long) f); if (ended || bad) fault("read after end of input"); if (g < f || pull.saw_end) ended = true; }
      pull.allowed = false; calls++;
      if (pull.saw_end) ends++;
      state_seen(state_key(type, ch, ratio, 20 + mode, bucket((double) f), bucket((double) pull.calls_this_read)));
      if (pull.pos >= n) pull.pos = 0;
    } else if (op.k == "cb") { mode = (int) (op.i(0) % 6); if (mode < 0) mode = 0; arg = std::max<i64>(1, std::min<i64>(op.i(1, 1), 1000)); }
    else if (op.k == "reset") { c.reset(); lo = cur; start = true; ended = bad = false; fault("reset mid-stream"); }
    else if (op.k == "s") { double v = ok_ratio(op.d(0, 1)); c.set_ratio(v); lo = start ? v : std::min(lo, v); start = false; }
    if (calls > 300) break;
    if (out.size() > 2000000u) out.clear();
  }
  // Fair phase after a reset: a well-behaved source must be delivered completely.
  c.reset(); mode = 0; pull.pos = 0; pull.max_calls_this_read = (i64) 1 << 60; blk = std::max<i64>(blk, n / 1000 + 1); out.clear();
  i64 f = std::max<i64>(1, (i64) ((double) blk * cur)); f = std::min<i64>(f, 2000000 / ch + 1); i64 bound = 20 + 2 * (i64) ((double) n * cur / (double) f + 1), got = 0;
  for (i64 it = 0;; it++) { pull.allowed = true; pull.calls_this_read = 0; i64 g = c.read(cur, f, nullptr); pull.allowed = false; got += g; if (g == 0) break; if (it > bound) fail("not-complete", "the stream did not complete within %lld reads", (long long) bound); }
  if (std::fabs((double) got - (double) n * cur) > 1.001) fail("not-complete", "fair phase delivered %lld frames of %.1f", (long long) got, (double) n * cur);
  count("fair phases completed");
  c.destroy(); pull.check_block();
  g_nontrivial = calls > 1;
}
static void c07_exec(const Scenario &s) { if (s.i("cb")) c07_pull(s); else c07_push(s); }
static PropReg r07({"C07", "random stalls, trickles, ratio changes, early ends and misbehaving callbacks, then a fair phase; step budget per call, progress, latency and completion bounds; non-trivial: at least two calls before the fair phase", c07_gen, c07_exec});
