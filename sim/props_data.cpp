// C14 channels converted independently and alike, C15 corrupt samples have local effects only.
#include "sess.hpp"

static i64 cap_out(double want, int type, int ch, double lo) { return clampi(want, 0, (i64) std::min(150000.0 / (taps_per_frame(type, lo) * ch) + 3, 2e5 / ch + 1)); }
static float bad_value(int k, float old, u64 h) {
  uint32_t b; float f;
  switch (k % 9) {
    case 0: return NAN; case 1: return INFINITY; case 2: return -INFINITY; case 3: return 3.0e38f; case 4: return -3.0e38f; case 5: return 1e-42f;
    case 6: memcpy(&b, &old, 4); b ^= 1u << (h % 32); memcpy(&f, &b, 4); return f; case 7: return -old; default: b = (uint32_t) h; memcpy(&f, &b, 4); return f;
  }
}
static const char *bad_name(int k) { static const char *n[] = {"NaN sample", "+Inf sample", "-Inf sample", "huge sample", "huge negative sample", "denormal sample", "bit flip", "sign flip", "random bits"}; return n[k % 9]; }

// ------------------------------------------------------------------ C14
static void c14_gen(Rng &r, Scenario &s, int tier) {
  TrafficOpts o; o.vary = 0.4; o.ends = 0; o.resets = 0; o.sets = 0; o.cb = false; o.march = 0; o.max_ops = 50; gen_traffic(r, s, (tier ? 2.5e5 : 1e5) * (r.chance(0.06) ? 8 : 1), o);
  if (s.i("ch") < 2) { s.cfg["ch"] = (double) r.range(2, 7); s.cfg["n"] = std::floor(s.cfg["n"] / s.cfg["ch"]) + 1; }
  double first = 1; for (auto &q : s.ops) if (q.k == "p") { first = q.d(2, 1); break; } s.cfg["ratio"] = first; bool vary = false; for (auto &q : s.ops) if (q.d(2, 1) != first) vary = true; s.cfg["vary"] = vary;
  if (r.chance(0.03)) { i64 ch = s.i("ch"), m = std::min<i64>((i64) r.logu(100, 9000), 200000 / ch + 1); s.cfg["n"] = std::max(s.cfg["n"], (double) std::min<i64>(m * 2, 400000 / ch)); s.ops.insert(s.ops.begin() + r.range(0, (i64) s.ops.size()), Op("p", {(double) r.range(1, 3), (double) r.range(1, 3), first, 0, (double) m})); }
  s.cfg["pick"] = (double) r.below(1 << 20); s.cfg["bad"] = (double) r.below(s.i("ch")); s.cfg["badkind"] = (double) r.below(10); s.cfg["badevery"] = (double) r.range(1, r.chance(0.5) ? 3 : 200);
}
struct Step { i64 ni, no; double ratio; Res R; };
// A whole stream with a schedule given by `next`; the output and what every call did.
static void feed(int type, const Signal &sig, const std::vector<Op> &ops, size_t rot, double ratio0, bool vary, int capch, std::vector<float> &out, std::vector<Step> &steps) {
  Conv c; if (!c.create(type, sig.ch)) fail("create", "cannot create a converter");
  i64 off = 0; double lo = 0; size_t nop = ops.size();
  for (size_t k = 0; k < nop && k < 400; k++) {
    const Op &o = ops[(k + rot) % nop]; if (o.k != "p") continue;
    double ratio = vary ? ok_ratio(o.d(2, 1)) : ratio0; lo = lo > 0 ? std::min(lo, ratio) : ratio;
    i64 m = o.a.size() > 4 ? clampi(o.d(4), 1, (i64) std::min(20000.0, 1e6 / (taps_per_frame(type, lo) * capch * (double) std::max<i64>(1, cap_out(o.d(1), type, capch, lo))) + 1)) : 1;
    if (m > 1) { count("calls in a march", m); fault("very many small calls"); }
    for (i64 j = 0; j < m; j++) { Step t; t.ni = std::min(clampi(o.d(0), 0, 200000), sig.n - off); t.no = cap_out(o.d(1), type, capch, lo); t.ratio = ratio;
      t.R = c.process(sig.x.data() + (size_t) off * sig.ch, t.ni, t.no, ratio, 0, &out); off += t.R.used; steps.push_back(t); if (off == sig.n) break; }
  }
  if (!vary) { // to the end
    i64 no = std::max<i64>(16, (i64) ((double) sig.n * ratio0 / 200) + 1);
    for (int it = 0, idle = 0; it < 3000 && idle < 2; it++) { Step t; t.ni = sig.n - off; t.no = no; t.ratio = ratio0; t.R = c.process(sig.x.data() + (size_t) off * sig.ch, t.ni, no, ratio0, 1, &out); off += t.R.used; steps.push_back(t); idle = t.R.used == 0 && t.R.gen == 0 ? idle + 1 : 0; }
    if (off != sig.n) fail("input-left", "%lld of %lld frames never consumed", (long long) (sig.n - off), (long long) sig.n);
  }
  c.destroy();
}
static void c14_exec(const Scenario &s) {
  int type = cfg_type(s), ch = std::max(2, cfg_ch(s, type)); i64 n = clampi(s.d("n", 100), 0, 400000 / ch); Signal sig = cfg_signal(s, ch, n); double ratio = ok_ratio(s.d("ratio", 1)); bool vary = s.i("vary") != 0;
  std::vector<Op> ops; for (auto &o : s.ops) if (o.k == "p") ops.push_back(o);
  std::vector<float> multi; std::vector<Step> ms; feed(type, sig, ops, 0, ratio, vary, ch, multi, ms);
  i64 compared = 0; u64 pk = (u64) s.i("pick");
  // The instants of the output frames by the ratio law: the hold converter may take either neighbour of an instant that falls on an input frame.
  std::vector<long double> inst; { long double p = 0; double last = 0; for (auto &m : ms) { if (last == 0) last = m.ratio; double r = last; for (i64 i = 0; i < m.R.gen; i++) { if (std::fabs(m.ratio - last) > 1e-20) r = last + (double) i * (m.ratio - last) / (double) m.no; inst.push_back(p); p += 1.0L / r; } if (m.R.gen > 0) last = r; } }
  double rmin = ratio; for (auto &m : ms) rmin = std::min(rmin, m.ratio);
  const i64 h = half_len(type, rmin), safe = is_sinc(type) && vary ? 3 * half_len(type, 1.0 / 256) - 5 * h - 80 : (i64) 1 << 60;
  for (int k = 0; k < 3; k++) {
    int c = (int) (mix64(pk + k) % (u64) ch); Signal one; one.ch = 1; one.n = n; one.peak = sig.peak; one.x.resize((size_t) n); for (i64 f = 0; f < n; f++) one.x[f] = sig.x[f * ch + c];
    std::vector<float> mono; std::vector<Step> ss; feed(type, one, ops, vary ? 0 : (size_t) (mix64(pk * 7 + k) % 50), ratio, vary, ch, mono, ss);
    i64 frames = std::min<i64>((i64) mono.size(), (i64) multi.size() / ch);
    if (vary) { // the same requests: comparable as long as every call gave the same number of frames and no history was dropped
      i64 f = 0, used = 0; size_t q = 0; for (; q < ms.size() && q < ss.size(); q++) { if (ms[q].R.gen != ss[q].R.gen || used > safe) break; f += ms[q].R.gen; used += ms[q].R.used; } frames = std::min(frames, f); if (q < ms.size()) count("varying-ratio comparison cut short"); else count("varying-ratio comparison complete");
    } else { i64 d = (i64) mono.size() - (i64) multi.size() / ch; if (d > 1 || d < -1) fail("channel-length", "%s: %d channels give %lld frames, one channel alone %lld (ratio %.17g, %lld frames)", type_name(type), ch, (long long) multi.size() / ch, (long long) mono.size(), ratio, (long long) n); }
    double tol = is_sinc(type) ? 1e-6 * sig.peak : 3e-7 * sig.peak;
    for (i64 i = 0; i < frames; i++) {
      double a = multi[(size_t) i * ch + c], b = mono[(size_t) i]; if (a == b) continue;
      if (is_sinc(type) ? std::fabs(a - b) <= tol : type == T_LINEAR ? std::fabs(a - b) <= tol + 1.5e-7 * std::max(std::fabs(a), std::fabs(b)) : near_integer(inst[(size_t) i], 1e-6L)) continue;
      fail("channel-value", "%s: channel %d of %d differs from the same channel alone at output frame %lld: %.9g vs %.9g (ratio %.17g)", type_name(type), c, ch, (long long) i, a, b, ratio);
    }
    compared += frames;
  }
  // One channel replaced: not a bit of the others may change.
  int bad = (int) clampi(s.d("bad"), 0, ch - 1), bk = (int) clampi(s.d("badkind"), 0, 9); i64 every = clampi(s.d("badevery", 1), 1, 1000000); Signal cor = sig;
  for (i64 f = 0; f < n; f++) if (f % every == 0) cor.x[(size_t) f * ch + bad] = bk == 9 ? 0.0f : bad_value(bk, cor.x[(size_t) f * ch + bad], mix64(pk + f)); if (n) fault(bk == 9 ? "channel silenced" : bad_name(bk), (n + every - 1) / every);
  std::vector<float> co; std::vector<Step> cs; feed(type, cor, ops, 0, ratio, vary, ch, co, cs);
  if (co.size() != multi.size()) fail("channel-isolation", "the content of channel %d of %d changed the number of frames: %lld and %lld", bad, ch, (long long) multi.size() / ch, (long long) co.size() / ch);
  for (size_t i = 0; i < co.size(); i++) if ((int) (i % ch) != bad && memcmp(&co[i], &multi[i], 4)) fail("channel-isolation", "%s: the content of channel %d of %d changed channel %d at output frame %lld: %.9g became %.9g", type_name(type), bad, ch, (int) (i % ch), (long long) (i / ch), multi[i], co[i]);
  for (auto &m : ms) state_seen(state_key(type, ch, m.ratio, 50 + vary, bucket((double) m.R.used), bucket((double) m.R.gen)));
  g_nontrivial = compared > 0;
}
static PropReg r14({"C14", "random multi-channel streams and schedules against one-channel runs of three of their channels with other schedules, and against the same stream with one channel replaced by NaN, Inf, bit errors or noise; non-trivial: frames were compared", c14_gen, c14_exec});

// ------------------------------------------------------------------ C15
static void c15_gen(Rng &r, Scenario &s, int tier) {
  TrafficOpts o; o.vary = 0.5; o.ends = r.chance(0.4) ? 0.05 : 0; o.resets = r.chance(0.5) ? 0.06 : 0; o.sets = 0.06; o.cbp = 0.3; o.max_ops = 50; gen_traffic(r, s, (tier ? 2.5e5 : 1e5) * (r.chance(0.06) ? 8 : 1), o);
  i64 n = s.i("n"), k = r.range(1, 6); std::vector<Op> bad;
  for (i64 i = 0; i < k; i++) bad.push_back(Op("corrupt", {(double) r.below(std::max<i64>(1, r.chance(0.5) ? n : std::min<i64>(n, 300))), (double) (r.chance(0.8) ? 1 : r.range(2, 40)), (double) r.below(9), (double) r.below(s.i("ch") + 1), (double) r.below(1 << 20)}));
  s.ops.insert(s.ops.begin(), bad.begin(), bad.end());
}
static void c15_exec(const Scenario &s) {
  int type = cfg_type(s), ch = cfg_ch(s, type); i64 n = clampi(s.d("n", 100), 1, 400000 / ch); Signal clean = cfg_signal(s, ch, n), cor = clean; bool cb = s.i("cb") != 0;
  std::set<i64> frames; i64 hits = 0;
  for (auto &o : s.ops) if (o.k == "corrupt") {
    i64 f = clampi(o.d(0), 0, n - 1), len = clampi(o.d(1), 1, 100); int c = (int) clampi(o.d(3), 0, ch), k = (int) clampi(o.d(2), 0, 8); fault(bad_name(k));
    for (i64 q = f; q < std::min(n, f + len); q++) { for (int j = 0; j < ch; j++) if (c == ch || c == j) cor.x[(size_t) q * ch + j] = bad_value(k, cor.x[(size_t) q * ch + j], mix64((u64) o.i(4) + q)); frames.insert(q); }
  }
  // A march becomes the calls it stands for.
  std::vector<Op> ops; { i64 k = 0; double lo = 0; for (auto &o : s.ops) { if (!traffic_op(o) || o.k == "b") continue; if (++k > 300) break; if (o.k != "r") lo = lo > 0 ? std::min(lo, ok_ratio(o.d(o.k == "s" ? 0 : 2, 1))) : ok_ratio(o.d(o.k == "s" ? 0 : 2, 1));
    if (o.k != "t") { ops.push_back(o); continue; }
    i64 m = clampi(o.d(3), 1, (i64) std::min(20000.0, 1e6 / (taps_per_frame(type, lo) * ch * (double) clampi(o.d(1), 1, 8)) + 1)); count("calls in a march", m); fault("very many small calls"); Op q("p", {(double) clampi(o.d(0), 0, 8), (double) clampi(o.d(1), 0, 8), o.d(2, 1), 0}); ops.insert(ops.end(), (size_t) m, q); } }
  if (cb) { // pulled at a constant ratio (per stream)
    Sess a, b; a.setup(s, &clean); b.setup(s, &cor); if (!a.open() || !b.open()) fail("create", "cannot create a converter"); i64 idx = 0, outs = 0; double ratio = 0; 
    for (auto &o : ops) {
      idx++;
      if (o.k == "s") continue;
      if (o.k == "r") { a.run(o); b.run(o); outs = 0; ratio = 0; fault("reset mid-stream"); continue; }
      if (ratio == 0) ratio = ok_ratio(o.d(2, 1));
      Op q = o; q.a.resize(4); q.a[2] = ratio; Obs x = a.run(q), y = b.run(q); x.outhash = y.outhash = 0; require_same("content-timing", "clean and corrupted stream", q, idx, x, y);
      double w = (double) half_len(type, ratio) + (is_sinc(type) ? 1.5 : 1.5);
      for (i64 i = 0; i < x.gen; i++) {
        if (!memcmp(&a.last[(size_t) i * ch], &b.last[(size_t) i * ch], (size_t) ch * 4)) continue;
        double p = (double) ((long double) (outs + i) / ratio); auto it = frames.lower_bound((i64) std::floor(p - w)); if (it != frames.end() && (double) *it <= p + w) { hits++; continue; }
        fail("content-spread", "%s: output frame %lld (input instant %.4f) changed; no corrupted frame within %.1f frames", type_name(type), (long long) (outs + i), p, w);
      }
      outs += x.gen; state_seen(state_key(type, ch, ratio, 60, bucket((double) x.cbcalls), bucket((double) x.gen)));
    }
    a.close(); b.close(); g_nontrivial = hits > 0; return;
  }
  Conv a, b; if (!a.create(type, ch) || !b.create(type, ch)) fail("create", "cannot create a converter");
  Model m; m.init(type, ch); i64 off = 0, endpos = -1, idx = 0, outs = 0; double lo = 0;
  for (auto &o : ops) {
    idx++;
    if (o.k == "r") { a.reset(); b.reset(); m.reset(); off = 0; endpos = -1; lo = 0; outs = 0; fault("reset mid-stream"); continue; }
    if (o.k == "s") { double v = ok_ratio(o.d(0, 1)); a.set_ratio(v); b.set_ratio(v); m.set_ratio(v); lo = lo > 0 ? std::min(lo, v) : v; continue; }
    double target = ok_ratio(o.d(2, 1)); lo = lo > 0 ? std::min(lo, target) : target; i64 no = cap_out(o.d(1), type, ch, lo), stop = endpos >= 0 ? endpos : n; i64 ni = std::min(clampi(o.d(0), 0, 200000), stop - off); int eoi = 0;
    if (endpos >= 0) eoi = off + ni == endpos; else if (o.i(3) & 1) { endpos = off + ni; eoi = 1; }
    std::vector<float> x, y; Res R = a.process(clean.x.data() + (size_t) off * ch, ni, no, target, eoi, &x), Q = b.process(cor.x.data() + (size_t) off * ch, ni, no, target, eoi, &y);
    if (R.used != Q.used || R.gen != Q.gen || a.error() != b.error()) fail("content-timing", "%s: corrupted samples changed what a call does: used %lld and %lld, generated %lld and %lld", type_name(type), (long long) R.used, (long long) Q.used, (long long) R.gen, (long long) Q.gen);
    if (m.last < 1.0 / 256) m.last = target;
    if (!is_sinc(type) && ni <= 0) continue;
    double r0 = m.last, r = r0; bool ramp = std::fabs(r0 - target) > (is_sinc(type) ? 1e-10 : 1e-20);
    for (i64 i = 0; i < R.gen; i++) {
      if (ramp) r = r0 + (double) i * (target - r0) / (double) no;
      if (memcmp(&x[(size_t) i * ch], &y[(size_t) i * ch], (size_t) ch * 4)) {
        double w = (double) half_len(type, r) + 1.5, p = m.pos(); auto it = frames.lower_bound((i64) std::floor(p - w));
        if (it == frames.end() || (double) *it > p + w) fail("content-spread", "%s: output frame %lld (input instant %.4f, ratio %.9g) changed; no corrupted frame within %.1f frames", type_name(type), (long long) (outs + i), p, r, w);
        hits++;
      }
      m.advance(1.0 / r);
    }
    if (R.gen > 0) m.last = r; off += R.used; outs += R.gen;
    state_seen(state_key(type, ch, target, 61 + (endpos >= 0), bucket((double) R.used), bucket((double) R.gen)));
  }
  a.destroy(); b.destroy(); g_nontrivial = hits > 0;
}
static PropReg r15({"C15", "random streams with corrupted input frames beside the same stream uncorrupted, same calls, in push and pull interfaces, with ramps, steps, ends and resets; non-trivial: the corruption reached the output", c15_gen, c15_exec});
