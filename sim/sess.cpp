#include "sess.hpp"

static const double WORK_CAP = 4e6;

void Sess::setup(const Scenario &s, const Signal *sig_, const std::string &x) {
  type = cfg_type(s, ("conv" + x).c_str()); ch = cfg_ch(s, type, ("ch" + x).c_str()); cb = s.i("cb" + x) != 0; sig = sig_;
  blk = clampi(s.d("blk" + x, 64), 1, 200000); style = (int) (s.i("style" + x) & 3); salt = (u64) s.i("salt" + x, 1);
}
bool Sess::open(int *err) {
  bool ok = cb ? c.create_cb(&pull, type, ch, err) : c.create(type, ch, err);
  rewind(); return ok;
}
static void set_plan(Pull &p, i64 blk, int style, u64 salt) {
  p.plan = [blk, style, salt](i64 no, i64 left) -> i64 {
    if (left <= 0) return 0;
    switch (style) { case 0: return std::min(left, blk); case 1: return std::min<i64>(left, 1); case 2: return std::min<i64>(left, 1 + (i64) (mix64((u64) no * 7 + salt) % (u64) blk)); }
    return std::min<i64>(left, (mix64((u64) no * 11 + salt) % 3) ? 1 + (i64) (mix64((u64) no + salt) % 5) : blk);
  };
}
void Sess::rewind() {
  off = 0; endpos = -1; lo = 0; work = 0;
  pull.drop(); pull.sig = sig; pull.ch = ch; pull.pos = 0; pull.calls = 0; pull.saw_end = false; pull.limit = -1; pull.anslog = 0; pull.cur_frames = 0;
  set_plan(pull, blk, style, salt);
}
bool Sess::clone_from(Sess &o, int *err) {
  bool ok = c.clone_from(o.c, err);
  if (!ok) return false;
  type = o.type; ch = o.ch; cb = o.cb; sig = o.sig; off = o.off; endpos = o.endpos; lo = o.lo; work = o.work; blk = o.blk; style = o.style; salt = o.salt;
  pull.fork(o.pull); c.pull = &pull;
  return true;
}
Obs Sess::run(const Op &op) {
  Obs o; last.clear();
  if (op.k == "p") {
    double ratio = ok_ratio(op.d(2, 1)); int fl = (int) op.i(3);
    double l = lo > 0 ? std::min(lo, ratio) : ratio;
    double per = taps_per_frame(type, l) * ch;
    i64 no = clampi(op.d(1), 0, (i64) std::min(150000.0 / per + 3, 2e5 / ch + 1));
    if (work > WORK_CAP) no = std::min<i64>(no, 1);
    i64 ni = clampi(op.d(0), 0, 120000 / ch + 1);
    if (cb) {
      if (no <= 0) no = 1;
      if (fl & 1) { if (pull.limit < 0) pull.limit = std::min(sig->n, pull.pos + ni); }
      i64 c0 = pull.calls; pull.allowed = true; pull.calls_this_read = 0;
      // A one-frame source far below ratio one would only repeat itself: the plan is what it is, the request is smaller.
      if (style == 1 || style == 3) no = std::min<i64>(no, (i64) (20000 * std::min(1.0, l)) + 1);
      o.gen = c.read(ratio, no, &last); pull.allowed = false; o.cbcalls = pull.calls - c0; o.ans = pull.anslog;
      o.used = pull.pos;
    } else {
      i64 stop = endpos >= 0 ? endpos : sig->n;
      if (endpos < 0 && off >= sig->n) off = 0;      // a long source: it repeats
      ni = std::min(ni, stop - off);
      int eoi = 0;
      if (endpos >= 0) eoi = off + ni == endpos; else if (fl & 1) { endpos = off + ni; eoi = 1; }
      Res R = c.process(sig->x.data() + (size_t) off * ch, ni, no, ratio, eoi, &last, ((fl & 2) ? P_NULLIN | P_NULLOUT : 0) | ((fl & 4) ? P_NEG : 0));
      off += R.used; o.used = R.used; o.gen = R.gen; o.err = R.err;
    }
    lo = l; work += (double) o.gen * per;
    o.outhash = hash_floats(last.data(), last.size());
  } else if (op.k == "s") { double v = ok_ratio(op.d(0, 1)); o.err = c.set_ratio(v); if (!o.err) lo = lo > 0 ? std::min(lo, v) : v; }
  else if (op.k == "r") { o.err = c.reset(); rewind(); }
  else if (op.k == "b") bad_call(*this, (int) (op.i(0) & 7));
  else if (op.k == "t") return march(op);
  o.serr = c.error();
  if (c.channels() != ch) fail("channels", "src_get_channels returned %d for a converter of %d channels", c.channels(), ch);
  return o;
}
// Very many small calls, reported as one observation.
Obs Sess::march(const Op &op) {
  i64 in = clampi(op.d(0), 0, 8), room = clampi(op.d(1), 0, 8); double ratio = ok_ratio(op.d(2, 1)), l = lo > 0 ? std::min(lo, ratio) : ratio; int fl = (int) op.i(4);
  i64 m = clampi(op.d(3), 1, (i64) std::min(2e6 / (taps_per_frame(type, l) * ch * (double) std::max<i64>(1, room)) + 2, std::min(1e5, 4e5 / ch + 2)));
  Obs o; std::vector<float> tail; count("calls in a march", m); fault("very many small calls");
  for (i64 j = 0; j < m; j++) {
    u64 h = mix64((u64) j * 31 + (u64) fl); double q = (fl & 1) && h % 3 == 0 ? ok_ratio(ratio * (1 + 0.02 * (double) (h >> 8 & 3))) : ratio;
    bool idle = (fl & 48) && mix64((u64) (j >> (4 + (salt & 3))) * 3 + (u64) fl) % 3 == 0; // now and then the source, or the sink, stands still for long
    Obs x = run(Op("p", {(double) (((fl & 2) && h % 5 == 0) || (idle && (fl & 16)) ? 0 : in), (double) (((fl & 4) && h % 7 == 0) || (idle && (fl & 32)) ? 0 : room), q, (double) ((fl & 8) && h % 11 == 0 ? 2 : 0)}));
    if (!o.err) o.err = x.err; o.used = cb ? x.used : o.used + x.used; o.gen += x.gen; o.cbcalls += x.cbcalls; o.ans = x.ans; o.outhash = mix64(o.outhash ^ x.outhash) + (u64) x.gen * 7 + (u64) x.used; o.serr = x.serr;
    tail.swap(last); }
  last.swap(tail); return o;
}
void gen_march(Rng &r, Scenario &s, double ratio, i64 from) {
  i64 m = r.chance(0.45) ? (i64) r.logu(100, 3000) : r.chance(0.8) ? ((i64) 1 << r.range(8, 12)) + r.range(-3, 40) : r.chance(0.6) ? r.range(990, 10040) : r.range(65500, 66500);
  Op q("t", {(double) r.range(1, 4), (double) (r.chance(0.5) ? 1 : r.range(1, 6)), ratio, (double) m, (double) (r.chance(0.5) ? r.below(16) : r.below(64))});
  s.ops.insert(s.ops.begin() + r.range(std::min<i64>(from, (i64) s.ops.size()), (i64) s.ops.size()), q);
}
bool traffic_op(const Op &o) { if (o.k == "t") return true; return o.k == "p" || o.k == "s" || o.k == "r" || o.k == "b"; }

void gen_range2(Rng &r, double &lo, double &hi) {
  switch (r.wpick({0.3, 0.3, 0.25, 0.15})) {
    case 0: lo = 0.5; hi = 2; break;
    case 1: lo = 0.1; hi = 10; break;
    case 2: { double c = r.logu(0.05, 20); lo = c / 1.5; hi = c * 1.5; break; }
    default: lo = 1.0 / 256; hi = 256;
  }
  lo = ok_ratio(lo); hi = ok_ratio(hi);
}
double next_ratio(Rng &r, double cur, int mood, double lo, double hi) {
  double v = cur;
  switch (mood) {
    case 0: v = r.logu(lo, hi); break;
    case 1: v = cur * std::exp(0.3 * (r.unit() - 0.5)); break;
    case 2: v = r.chance(0.5) ? cur : cur * (1 + 1e-4 * (r.unit() - 0.5)); break;
    case 3: v = r.chance(0.5) ? lo : hi; break;
    default: v = r.chance(0.3) ? 1.0 : (r.chance(0.5) ? cur : r.logu(lo, hi)); break;
  }
  if (v < lo) v = lo; if (v > hi) v = hi;
  return ok_ratio(v);
}
// Enough input at a ratio near one to send a sinc converter's buffer round at least once.
static void wrap_prefix(Rng &r, Scenario &s, double ratio, bool vary) {
  i64 k = r.range(5, 9);
  for (i64 j = 0; j < k; j++) { double q = vary ? ok_ratio(ratio * std::exp(0.2 * (r.unit() - 0.5))) : ratio; i64 in = r.range(2800, 3750); s.op("p", {(double) in, (double) (i64) std::min(3750.0, (double) in * q + (double) r.range(-40, 40)), q, 0}); }
}
void gen_traffic(Rng &r, Scenario &s, double work, const TrafficOpts &o) {
  double lo, hi; gen_range2(r, lo, hi); double cur = r.logu(lo, hi); bool vary = r.chance(o.vary); if (!vary) { cur = gen_ratio(r); lo = hi = cur; }
  bool wrap = work >= 3e4 && r.chance(o.wrap);
  if (wrap) { lo = 0.75; hi = 1.3; cur = r.chance(0.25) ? 1.0 : r.logu(lo, hi); if (!vary) lo = hi = cur; }
  gen_stream(r, s, work, std::sqrt(lo * hi), lo);
  if (wrap) { s.cfg["conv"] = r.chance(0.85) ? T_FAST : T_MEDIUM; s.cfg["ch"] = (double) (r.chance(0.5) ? 1 : r.chance(0.6) ? 2 : 3); s.cfg["n"] = (double) r.range(16000, 30000); if (r.chance(0.5)) s.cfg["kind"] = (double) r.range(8, 11); }
  if (!wrap && work >= 3e4 && r.chance(0.05)) { // the end of the stream meets the end of a sinc converter's buffer
    s.cfg["conv"] = r.chance(0.9) ? T_FAST : T_MEDIUM; s.cfg["ch"] = (double) (r.chance(0.6) ? 1 : r.range(2, 7)); double q = r.logu(1.0 / 256, 0.06);
    if (gen_edge(r, s, q, 4e6, [&](i64 in, i64 room) { s.op("p", {(double) in, (double) std::min<i64>(room, 3000), q, 0}); })) { lo = hi = cur = q; vary = false;
      s.op("p", {(double) r.range(0, 6), (double) r.range(0, 300), q, (double) (r.chance(0.8) ? 1 : 0)}); } }
  bool many = !wrap && r.chance(0.004); // more channels than a short, or an unsigned one, can count
  if (many) { s.cfg["conv"] = r.chance(0.5) ? T_LINEAR : T_ZOH; s.cfg["ch"] = (double) (r.chance(0.3) ? r.range(32765, 40000) : r.range(65534, 70000)); s.cfg["n"] = (double) r.range(3, 5); }
  i64 n = s.i("n"); if (n < 50 && !many) { n = r.range(1, std::max<i64>(2, 2000 / s.i("ch"))); s.cfg["n"] = (double) n; }
  s.cfg["cb"] = (o.cb && r.chance(o.cbp)) ? 1 : 0;
  i64 zn = wrap ? 1500 : n;
  Sizes zi = gen_sizes(r, std::max<i64>(8, zn / 5)), zo = gen_sizes(r, std::max<i64>(8, (i64) (zn * std::sqrt(lo * hi) / 5)));
  s.cfg["blk"] = (double) (wrap && r.chance(0.7) ? r.range(500, 6000) : std::max<i64>(1, zi.pick(r))); s.cfg["style"] = (double) (wrap ? 2 * r.below(2) : r.below(4)); s.cfg["salt"] = (double) r.below(1 << 20);
  i64 ops = r.range(o.min_ops, wrap ? std::min(o.max_ops, 24) : o.max_ops); int mood = (int) r.below(5);
  if (wrap) { wrap_prefix(r, s, cur, vary && r.chance(0.5)); }
  if (wrap && r.chance(0.35)) { // ... and then far down
    double low = r.chance(0.4) ? 1.0 / 256 : r.logu(1.0 / 256, 0.1); i64 h = half_len((int) s.i("conv"), low); if (r.chance(0.3)) s.op("s", {low});
    for (i64 j = r.range(1, 4); j > 0; j--) s.op("p", {(double) (r.chance(0.4) ? r.range(0, 60) : r.range(0, h)), (double) r.range(1, 6), low, 0});
  }
  // A new stream after a reset may run at quite another ratio.
  auto another = [&]() {
    if (!o.rechoose || !r.chance(0.5)) return;
    cur = r.chance(0.5) ? r.logu(1.0 / 256, 0.2) : gen_ratio(r); lo = hi = cur; vary = false;
    i64 need = is_sinc((int) s.i("conv")) ? half_len((int) s.i("conv"), cur) : 1;
    for (i64 k = r.range(1, 3); k > 0; k--) s.op("p", {(double) (i64) ((double) need * (0.4 + r.unit()) / (double) k + 10), (double) r.range(1, 40), cur, 0});
  };
  auto reset = [&]() { s.op("r", {}); another(); };
  if (wrap && o.resets > 0 && r.chance(0.4)) reset();
  for (i64 k = 0; k < ops; k++) {
    if (vary && r.chance(0.5)) cur = next_ratio(r, cur, mood, lo, hi);
    i64 a = zi.pick(r), b = zo.pick(r);
    s.op("p", {(double) a, (double) b, cur, (double) ((r.chance(o.ends) ? 1 : 0) | (r.chance(0.2) ? 2 : 0) | (r.chance(0.04) ? 4 : 0))});
    if (r.chance(o.sets)) s.op("s", {vary ? next_ratio(r, cur, 0, lo, hi) : gen_ratio(r)});
    if (r.chance(o.resets)) reset();
    if (o.bads > 0 && r.chance(o.bads)) s.op("b", {(double) r.below(8)});
  }
  if (!many && r.chance(o.march)) gen_march(r, s, cur, 0);
}
void require_same(const char *cls, const char *what, const Op &op, i64 index, const Obs &a, const Obs &b, int fl) {
  if (a.err != b.err) fail(cls, "%s: operation %lld (%s) returned %d and %d", what, (long long) index, op.k.c_str(), a.err, b.err);
  if (a.gen != b.gen || a.used != b.used) fail(cls, "%s: operation %lld (%s) used/position %lld and %lld, generated %lld and %lld", what, (long long) index, op.k.c_str(), (long long) a.used, (long long) b.used, (long long) a.gen, (long long) b.gen);
  if (a.outhash != b.outhash) fail(cls, "%s: operation %lld (%s) generated %lld frames with different samples", what, (long long) index, op.k.c_str(), (long long) a.gen);
  if (!(fl & CMP_NOCB) && (a.cbcalls != b.cbcalls || a.ans != b.ans)) fail(cls, "%s: operation %lld (%s) made %lld and %lld callback requests", what, (long long) index, op.k.c_str(), (long long) a.cbcalls, (long long) b.cbcalls);
  if (!(fl & CMP_NOSERR) && a.serr != b.serr) fail(cls, "%s: after operation %lld (%s) src_error is %d and %d", what, (long long) index, op.k.c_str(), a.serr, b.serr);
}

bool faulty_source(Sess &s, int kind, u64 salt) {
  if (!s.cb || s.c.error()) return false;
  OwnerScope os(s.c.owner); StepScope ss(400000000); const int ch = s.ch; i64 live = g_alloc.live;
  i64 f = 1 + (i64) (salt % 50); double ratio = 1.0 + 0.1 * (double) (salt / 64 % 5); if (s.lo > 0) ratio = std::max(ratio, s.lo);
  // The library may answer from the block it holds: then nothing is refused yet, so ask until the source is needed.
  bool asked = false; Pull &p = s.pull; i64 delivered = 0;
  for (int k = 0; k < 3 && !asked; k++) {
    FArr out((size_t) f * ch); for (size_t i = 0; i < out.n; i++) memcpy(out.p + i, &g_poison, 4);
    p.evil = [&](float **d) -> i64 { asked = true; *d = (kind & 1) ? out.p : nullptr; return (kind & 1) ? f : 1 + (i64) (salt % 7); };
    p.allowed = true; p.calls_this_read = 0; p.max_calls_this_read = 1 << 20; Pull *was = s.c.hub->cur(); s.c.hub->cur() = &p;
    long g = src_callback_read(s.c.st, ratio, (long) f, out.p);
    s.c.hub->cur() = was; p.allowed = false; p.evil = nullptr; p.max_calls_this_read = (i64) 1 << 60;
    delivered = g;
    if (asked && g) fail("accepted", "a read whose source delivered a %s block returned %ld", (kind & 1) ? "block overlapping the output" : "NULL", g);
    out.check("output");
  }
  ss.close(); (void) delivered;
  if (!asked) return false;
  const char *want = (kind & 1) ? E_OVERLAP : E_PTR;
  if (!err_is(src_error(s.c.st), want)) fail("wrong-error", "src_error is %d after the source delivered a %s, expected: %s", src_error(s.c.st), (kind & 1) ? "block overlapping the output array" : "NULL block", want);
  if (g_alloc.live != live) fail("leak", "a failed read changed the number of allocated blocks");
  fault((kind & 1) ? "callback delivers a block overlapping the output" : "callback delivers a NULL block");
  return true;
}
