// C17: long streams.  Positions are measured from the output itself: the input is a known function of the frame number.
#include "gen.hpp"
#include "model.hpp"
extern double g_run_simtime; extern u64 g_run_calls;

static void c17_gen(Rng &r, Scenario &s, int tier) {
  int type = gen_type(r), ch = (int) (r.chance(0.6) ? 1 : r.chance(0.6) ? 2 : r.range(3, 6)); bool steer = r.chance(0.4);
  double ratio = r.chance(0.12) ? 1.0 / 256 : r.chance(0.3) ? gen_ratio(r) : r.logu(0.1, 10);
  if (r.chance(0.18)) { static const double easy[] = {1, 1, 1, 2, 0.5, 3, 48000.0 / 44100, 44100.0 / 48000}; ratio = easy[r.below(8)] * (1 + (r.chance(0.5) ? 1 : -1) * r.logu(1e-10, 1e-4)); } // two clocks that should agree
  s.cfg["conv"] = type; s.cfg["ch"] = ch; s.cfg["ratio"] = ratio; s.cfg["steer"] = steer; s.cfg["span"] = r.chance(0.5) ? r.logu(1e-7, 1e-3) : r.logu(1e-3, 0.3); s.cfg["rate"] = r.logu(1e-3, 1.0); s.cfg["salt"] = (double) r.below(1 << 30); s.cfg["cb"] = !steer && r.chance(0.25);
  double budget = (tier ? 1.0e9 : 1.2e8) * std::pow(r.unit(), 2) + 2e6; double cost = is_sinc(type) ? taps_per_frame(type, ratio) * ch + (double) ch / ratio * 3 : (double) ch * 4 + std::min(256.0, 1 / ratio) * 0.05;
  s.cfg["outs"] = std::floor(budget / cost);
  s.cfg["inblk"] = std::floor(r.logu(1, 60000)); s.cfg["outblk"] = std::floor(r.logu(8, 20000)); s.cfg["mix"] = (double) r.below(4);
  // Marathons: streams past 2^31 (and 2^32) input or output frames or samples; for the sinc converters past 2^24 frames (thorough: 2^31 samples).
  double m = r.unit();
  if (m < 0.05) {
    if (!is_sinc(type)) { type = r.chance(0.5) ? T_ZOH : T_LINEAR; bool outs = tier && m < 0.015; ratio = outs ? (r.chance(0.5) ? r.logu(1, 256) : r.logu(0.5, 2)) : r.logu(1.0 / 256, tier ? 0.02 : 0.008); ch = r.chance(0.7) ? 1 : (int) r.range(2, 6);
      double n = r.logu(1.01, outs && !tier ? 1.05 : r.chance(0.3) ? 4.0 : 2.1) * 2147483648.0 / (outs || !tier || r.chance(0.5) ? ch : 1); s.cfg["outs"] = std::floor(outs ? n : n * ratio); s.cfg["steer"] = steer = steer && !outs; s.cfg["span"] = 1e-3; }
    else { type = T_FAST; bool full = tier && m < 0.01; if (!full) ch = 1; ratio = full ? (r.chance(0.5) ? r.logu(1.0 / 256, 1.0) : r.logu(1, 4)) : r.logu(0.7, 1.5); if (full && r.chance(0.3)) ch = (int) r.range(7, 8);
      double n = full ? 2147483648.0 * 1.02 / ch : 16777216.0 * r.logu(1.02, 1.2); s.cfg["outs"] = std::floor(n * std::min(1.0, ratio)); }
    s.cfg["conv"] = type; s.cfg["ch"] = ch; s.cfg["ratio"] = ratio; s.cfg["inblk"] = std::floor(r.logu(2e4, 1e6)); s.cfg["outblk"] = std::floor(r.logu(5000, 2e5)); s.cfg["noise"] = 1; return;
  }
  if (r.chance(0.5)) s.cfg["noise"] = 1;
  if (!is_sinc(type) && r.chance(0.4)) { s.cfg["inblk"] = std::floor(r.logu(2e4, 1e6)); s.cfg["outblk"] = std::floor(r.logu(2000, 1e5)); }
}
struct Tone { // the input: periodic, its value tells the position
  int type, ch; i64 P; std::vector<float> buf; i64 len; double w;
  void make(int t, int c, double rmin, i64 need, bool noise) {
    type = t; ch = c; P = t == T_ZOH || noise ? 4096 : (i64) std::ceil(64.0 * std::max(1.0, 1.0 / rmin)); w = 2 * M_PI / (double) P; len = need + P; buf.resize((size_t) len * ch);
    for (i64 f = 0; f < len; f++) for (int k = 0; k < ch; k++) buf[(size_t) f * ch + k] = t == T_ZOH ? (float) ((f + 37 * k) % P) / 4096.0f : noise ? signal_at(7, 0, 1.0, k, f % P) : (float) std::sin(w * (double) (f % P) + 0.9 * k);
  }
  const float *at(i64 pos) const { return buf.data() + (size_t) (pos % P) * ch; }
};
static struct { const Tone *t; i64 pos, blk, calls, end; int mix; u64 salt; } g_src;
static long src_fn(void *, float **data) {
  i64 left = g_src.end - g_src.pos; if (left <= 0) return 0;
  i64 n = g_src.blk; if (g_src.mix & 1) n = 1 + (i64) (mix64(g_src.salt + g_src.calls) % (u64) n); g_src.calls++; n = std::min(n, left);
  *data = (float *) g_src.t->at(g_src.pos); g_src.pos += n; return (long) n;
}
static void c17_exec(const Scenario &s) {
  int type = cfg_type(s), ch = (int) clampi(s.d("ch", 1), 1, 8); double base = ok_ratio(s.d("ratio", 1)); bool steer = s.i("steer") != 0, cb = s.i("cb") != 0 && !steer; double span = std::min(0.5, std::fabs(s.d("span", 0.01))), rate = std::min(1.0, std::max(1e-4, s.d("rate", 0.1)));
  double lo = ok_ratio(steer ? base * (1 - span) : base), hi = ok_ratio(steer ? base * (1 + span) : base); i64 outs = clampi(s.d("outs", 100000), 1, (i64) 4e9); int mix = (int) s.i("mix") & 3; u64 salt = (u64) s.i("salt");
  i64 inblk = clampi(s.d("inblk", 1000), 1, 1000000 / ch), outblk = clampi(s.d("outblk", 1000), 1, 200000 / ch);
  // Not more calls than the stream is worth.
  inblk = std::max<i64>(inblk, (i64) ((double) outs / base / 400000)); outblk = std::max<i64>(outblk, outs / 400000); inblk = std::min<i64>(inblk, 1000000 / ch);
  const bool noise = s.i("noise") != 0 && type != T_ZOH && !(steer && is_sinc(type));
  Tone tone; tone.make(type, ch, lo, inblk, noise); double ref_taps = 0, all_taps = 0;
  g_src = {&tone, 0, inblk, 0, (i64) 1 << 60, mix, salt}; i64 total_in = (i64) ((double) outs / base); if (cb) g_src.end = total_in;
  SRC_STATE *st = nullptr; int e = 0; g_alloc.owner = 5001;
  st = cb ? src_callback_new(src_fn, type, ch, &e, nullptr) : src_new(type, ch, &e); if (!st) fail("create", "cannot create a converter");
  const i64 half = half_len(type, lo); std::vector<float> ob((size_t) outblk * ch + 4); Rng r(salt);
  i64 consumed = 0, made = 0; i64 pk = 0; long double pf = 0; long double comp = 0;   // position of the next frame
  double cur = base, last = base, worst = 0, worst_avg = 0; double acc = 0, accn = 0; i64 stall = 0; const double scale = std::max(1.0, 1.0 / lo); const long double cstep = 1.0L / base;
  const double tol = 4e-4, avg_tol = 1e-3 * scale;
  bool dense = outs * ch < 4000000; i64 call = 0;
  auto check = [&](const float *y, long double frac, i64 k, i64 i) { // output i at instant k + frac
    double p = (double) frac;
    if (k < 2 * half + 4 || k > g_src.end - half - 4) return;   // not at the beginning nor the end of the stream
    if (type == T_ZOH) {
      for (int c = 0; c < ch; c++) { i64 d = (i64) std::nearbyint(y[c] * 4096.0); i64 want = (k - 1 + 37 * c) % 4096, df = (d - want) % 4096; if (df < 0) df += 4096; if (df == 0) continue; if (near_integer(frac, 1e-5L) && (df == 1 || df == 4095)) continue; fail("drift", "zoh: output frame %lld holds a frame %lld away from instant %lld+%.9f (ratio %.17g)", (long long) i, (long long) (df > 2048 ? df - 4096 : df), (long long) k, p, cur); }
      return;
    }
    if (type == T_LINEAR) { // exactly the straight line between the two frames
      const float *a = tone.at(k - 1), *b = tone.at(k);
      for (int c = 0; c < ch; c++) { double want = a[c] + p * ((double) b[c] - a[c]), d = std::fabs(y[c] - want); if (!(d <= 6e-7 + (steer ? 1e-3 : 3e-6) * (noise ? 2 : tone.w))) fail("drift", "linear ch %d/%d: output frame %lld is %.7f, %.7f expected at instant %lld+%.6f (ratio %.17g): the position is off", c, ch, (long long) i, y[c], want, (long long) k, p, cur); worst = std::max(worst, d); }
      return;
    }
    if (noise) { // the exact filter value at a few of the frames
      double t = taps_per_frame(type, base) * ch; all_taps += t; if (ref_taps > 1e5 + 0.2 * all_taps) return; ref_taps += t;
      for (int c = 0; c < ch; c++) { double want = sinc_value(type, base, k, p, tone.buf.data(), tone.P, ch, c), d = std::fabs(y[c] - want); if (!(d <= 1.5e-5)) fail("drift", "%s ch %d/%d: output frame %lld is %.7f, %.7f expected at instant %lld+%.7f (ratio %.17g): the position is off", type_name(type), c, ch, (long long) i, y[c], want, (long long) k, p, base); worst = std::max(worst, d); }
      return;
    }
    double ph = tone.w * ((double) (k % tone.P) + p);
    for (int c = 0; c < ch; c++) {
      double th = ph + 0.9 * c, d = y[c] - std::sin(th), q = std::cos(th); if (!(std::fabs(d) <= tol)) fail("drift", "%s ch %d/%d: output frame %lld is %.6f, %.6f expected at instant %lld+%.6f (ratio %.17g): the position is off", type_name(type), c, ch, (long long) i, y[c], std::sin(th), (long long) k, p, cur);
      worst = std::max(worst, std::fabs(d)); acc += d * q; accn += q * q;
    }
    if (accn > 1000) { double off = acc / accn / tone.w; worst_avg = std::max(worst_avg, std::fabs(off)); if (!(std::fabs(off) <= avg_tol)) fail("drift", "%s: output positions near frame %lld are off by %.5f input frames on average (instant %lld, ratio %.17g)", type_name(type), (long long) i, off, (long long) k, cur); acc = accn = 0; }
  };
  auto add = [&](long double v) { long double yv = v - comp, t = pf + yv; comp = (t - pf) - yv; pf = t; if (pf >= 1) { long double n = std::floor(pf); pk += (i64) n; pf -= n; } };
  while (made < outs) {
    i64 no = std::min(outblk, outs - made), ni = inblk; if (mix & 2) no = 1 + (i64) (r.below(no)); if (mix & 1) ni = 1 + r.below(ni);
    i64 gen = 0, used = 0; double r0 = last, target = steer ? cur : base;
    if (steer && call) { // a control loop: small corrections all the time
      double v = cur * (1 + rate * span * (r.unit() - 0.5)); if (r.chance(0.01)) v = lo + (hi - lo) * r.unit(); cur = std::min(hi, std::max(lo, v)); target = cur; fault("clock skew: ratio steered"); }
    if (!call && steer) { r0 = last = target = cur; }
    StepScope ss((u64) 1 << 50);
    if (cb) { gen = src_callback_read(st, base, no, ob.data()); used = 0; if (src_error(st)) fail("process-error", "src_error is %d", src_error(st)); if (gen < 0 || gen > no) fail("bad-counts", "%lld frames delivered of %lld", (long long) gen, (long long) no); }
    else {
      SRC_DATA d; d.data_in = tone.at(consumed); d.data_out = ob.data(); d.input_frames = ni; d.output_frames = no; d.src_ratio = target; d.end_of_input = 0; d.input_frames_used = d.output_frames_gen = -1;
      e = src_process(st, &d); used = d.input_frames_used; gen = d.output_frames_gen; if (e) fail("process-error", "src_process returned %d", e); if (used < 0 || used > ni || gen < 0 || gen > no) fail("bad-counts", "used %lld of %lld, generated %lld of %lld", (long long) used, (long long) ni, (long long) gen, (long long) no);
    }
    ss.close(); g_run_calls++; call++;
    const bool ramp = !cb && std::fabs(r0 - target) > (is_sinc(type) ? 1e-10 : 1e-20); double rr = r0;
    if (!ramp && !steer) { // constant: the instant of frame i is i / ratio
      bool all = dense || (call % 8) == 0;
      for (i64 i = 0; i < gen; i++) { if (!all && i > 1 && i < gen - 2) { if (i < gen - 3) i = gen - 3; continue; } i64 q = made + i; long double v = (long double) q * cstep; i64 k = (i64) std::floor(v); check(&ob[(size_t) i * ch], v - k, k, q); }
      long double v = (long double) (made + gen) * cstep; pk = (i64) std::floor(v); pf = v - pk;
    } else for (i64 i = 0; i < gen; i++) { if (ramp) rr = r0 + (double) i * (target - r0) / (double) no; check(&ob[(size_t) i * ch], pf, pk, made + i); add(1.0L / rr); }
    if (gen) last = rr;
    made += gen; consumed += used; g_run_simtime += (double) gen / 48000.0; log_mix((u64) gen); log_mix((u64) used); if (gen) log_mix(hash_floats(ob.data(), (size_t) std::min<i64>(gen, 16) * ch));
    // Consumption stays locked to production.
    if (!cb) {
      double step = 1.0 / std::min(last, target), lead = (double) (consumed - pk) - (double) pf;
      if (is_sinc(type) && lead < -2 - step) fail("slip", "%s: %lld frames generated from %lld: the next instant %lld lies beyond the input (ratio %.17g)", type_name(type), (long long) made, (long long) consumed, (long long) pk, target);
      if (!is_sinc(type) && lead < -1.001 - step) fail("slip", "%s: %lld frames generated from %lld: next instant %lld lies beyond the input (ratio %.17g)", type_name(type), (long long) made, (long long) consumed, (long long) pk, target);
      if (gen < no && used == ni && lead > (double) half + 3 + (is_sinc(type) ? 0 : 1)) fail("slip", "%s: output withheld: %lld frames consumed, next instant %lld, filter half-length %lld (ratio %.17g)", type_name(type), (long long) consumed, (long long) pk, (long long) half, target);
      if (gen < no && used == ni && (lead > (double) half + 4)) fail("slip", "late");
      stall = gen || used ? 0 : stall + 1; if (stall > 3) fail("no-progress", "no progress after %lld frames", (long long) made);
    } else { if (gen < no) break; if ((double) (g_src.pos - pk) > (double) inblk + half + 4 + 3 * half_len(type, 1.0 / 256) || (double) (g_src.pos - pk) < -1 - 1 / base) fail("slip", "%lld frames pulled for %lld delivered (ratio %.17g)", (long long) g_src.pos, (long long) made, base); }
    if ((call & 255) == 0) state_seen(state_key(type, ch, target, 70 + steer + 2 * cb, bucket((double) consumed), bucket((double) made)));
  }
  // The end: everything consumed comes out.
  i64 N = cb ? g_src.end : consumed;
  outblk = std::max<i64>(outblk, 8192 / ch); ob.resize((size_t) outblk * ch + 4);
  for (int it = 0; it < 1000000 && !cb; it++) { SRC_DATA d; float x[8]; d.data_in = x; d.data_out = ob.data(); d.input_frames = 0; d.output_frames = outblk; d.src_ratio = last; d.end_of_input = 1; d.input_frames_used = d.output_frames_gen = 0; StepScope ss((u64) 1 << 50); e = src_process(st, &d); ss.close(); if (e) fail("process-error", "src_process returned %d at the end", e); made += d.output_frames_gen; if (!steer) { } else for (i64 i = 0; i < d.output_frames_gen; i++) add(1.0L / last); if (d.output_frames_gen == 0) break; }
  for (int it = 0; it < 1000000 && cb; it++) { StepScope ss((u64) 1 << 50); i64 g = src_callback_read(st, base, outblk, ob.data()); ss.close(); made += g; if (g == 0) break; }
  if (!steer && (is_sinc(type) || cb || consumed >= (i64) ((double) made / base) - 1)) { long double ideal = (long double) N * base; double d = (double) ((long double) made - ideal); double slack = is_sinc(type) ? 1.001 : 1.001 + base; if (d > slack || d < -slack) fail("total", "%s: %lld frames at ratio %.17g gave %lld frames, %.3Lf expected", type_name(type), (long long) N, base, (long long) made, ideal); }
  if (steer && is_sinc(type)) { double over = (double) (pk - N) + (double) pf; if (std::fabs(over) > 1.001 + 1 / last) fail("total", "%s: after %lld frames of a steered stream and its end, the next instant is %.4f frames from the end of the input", type_name(type), (long long) N, over); }
  StepScope ss(1000000); src_delete(st); ss.close(); if (g_alloc.live) fail("leak", "%lld block(s) left", (long long) g_alloc.live); g_alloc.owner = 0;
  if (N > INT32_MAX) fault("more than 2^31 input frames in one stream"); if (made > 48000ll * 3600) fault("more than an hour of output in one stream");
  count("position error of averages, max (1e-9 frames)", 0); state_seen(hash2((u64) (worst_avg * 1e5 / scale), 7)); if (g_trace) trace("frames in %lld out %lld, worst sample error %.3g, worst average position error %.3g frames (scale %.3g)", (long long) N, (long long) made, worst, worst_avg, scale);
  g_nontrivial = made > 20000;
}
static PropReg r17({"C17", "streams of up to hours of simulated audio at constant or continuously steered ratio, position of every output measured from its value (tone phase or staircase) against the exact sum of 1/ratio, consumption and totals against the law; non-trivial: more than 20000 output frames", c17_gen, c17_exec});
