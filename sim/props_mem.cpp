// C04 buffers and counts, C10 allocation failure, C11 ownership of memory.
#include "sess.hpp"
#include <sys/mman.h>
#include <limits.h>
static Signal whole(const Scenario &s, const std::string &x = "") { int t = cfg_type(s, ("conv" + x).c_str()), ch = cfg_ch(s, t, ("ch" + x).c_str()); double p = s.d("peak" + x, 1); if (!(p > 0 && p < 1e30)) p = 1; Signal z = make_signal((u64) s.i("sig" + x, 1), (int) s.i("kind" + x, 0), p, ch, clampi(s.d("n" + x, 100), 1, 400000 / ch)); spice(z, s.i("spice", 0), (u64) s.i("sig" + x, 1)); return z; }
static i64 pickn(double v, i64 n) { i64 k = clampi(v, -1000000, 1000000); if (k < 0) k = -k; return n > 0 ? k % n : 0; }

// ------------------------------------------------------------------ C04
static void c04_gen(Rng &r, Scenario &s, int tier) {
  TrafficOpts o; o.rechoose = true; o.vary = 0.7; o.ends = r.chance(0.5) ? 0.08 : 0.02; o.resets = 0.06; o.sets = 0.08; o.max_ops = 60; gen_traffic(r, s, (tier ? 2.5e5 : 1e5) * (r.chance(0.06) ? 8 : 1), o); gen_spice(r, s, 0.1);
  double odd = r.chance(0.5) ? 0.05 : 0.2; std::vector<Op> ops;
  for (auto &q : s.ops) {
    ops.push_back(q);
    if (!r.chance(odd)) continue;
    switch (r.wpick({0.18, 0.15, 0.15, 0.2, 0.15, 0.12, 0.05})) {
      case 0: ops.push_back(Op("bad", {(double) r.below(8)})); break;
      case 1: ops.push_back(Op("swap", {})); break;
      case 2: ops.push_back(Op("side", {(double) r.range(0, 600), (double) r.range(0, 600), gen_ratio(r), (double) r.below(2)})); break;
      case 3: ops.push_back(Op("after", {(double) r.range(0, 3000), (double) r.range(0, 400), r.chance(0.5) ? q.d(2, 1) : gen_ratio(r), (double) r.below(2)})); break;
      case 4: ops.push_back(Op("touch", {(double) r.range(0, 300), (double) r.range(0, 300), gen_ratio(r), (double) r.below(4)})); break;
      case 5: ops.push_back(Op("simple", {(double) r.range(0, 600), (double) r.range(0, 900), gen_ratio(r), (double) r.below(2)})); break;
      default: ops.push_back(Op("align", {(double) r.below(16)}));
    }
  }
  if (r.chance(0.04)) ops.push_back(Op("huge", {(double) r.below(10), r.logu(1, 300), gen_ratio(r)}));
  if (r.chance(0.006)) ops.push_back(Op("wide", {(double) (r.chance(0.5) ? T_ZOH : T_LINEAR), r.chance(0.5) ? std::floor(r.logu(7e4, 2e7)) : (double) r.range(8388000, 8400000), r.chance(0.5) ? r.logu(1.0 / 256, 0.05) : gen_ratio(r), (double) r.range(1, 3), (double) r.below(1 << 20)}));
  if (r.chance(0.0005)) { bool sinc = r.chance(0.25); int ch = (int) (r.chance(0.6) ? 1 : r.range(2, 7)); // one call with more samples than a float can count
    ops.push_back(Op("deep", {(double) (sinc ? T_FAST : r.chance(0.5) ? T_ZOH : T_LINEAR), (double) ch, std::floor(r.logu(sinc ? 1.68e7 : 1.68e7, sinc ? 1.9e7 : 4e7) / ch), sinc ? r.logu(1.0 / 256, 0.5) : r.chance(0.5) ? r.logu(0.3, 2.5) : gen_ratio(r), (double) r.below(4), (double) r.below(1 << 20)})); }
  s.ops = ops; s.cfg["align"] = r.chance(0.5) ? (double) r.below(16) : 0;
}
static i64 cap_out(double want, int type, int ch, double lo) { return clampi(want, 0, (i64) std::min(150000.0 / (taps_per_frame(type, lo) * ch) + 3, 2e5 / ch + 1)); }
// Input and output side by side in one array, touching but not overlapping: both are valid and both must be respected.
static void touching(Sess &a, i64 ni, i64 no, double ratio, int fl) {
  if (ni < 1 || no < 1) return;   // an empty array at the start of the other one is refused as overlapping; nothing is promised there
  OwnerScope os(a.c.owner); int ch = a.ch; size_t in = (size_t) ni * ch, on = (size_t) no * ch; bool out_first = fl & 1;
  FArr both(in + on); float *pi = out_first ? both.p + on : both.p, *po = out_first ? both.p : both.p + in; std::vector<float> copy(in);
  for (size_t i = 0; i < in; i++) { copy[i] = a.sig->x[i % a.sig->x.size()]; memcpy(pi + i, &copy[i], 4); } for (size_t i = 0; i < on; i++) memcpy(po + i, &g_poison, 4);
  SRC_DATA d; memset(&d, 0, sizeof d); d.data_in = pi; d.data_out = po; d.input_frames = ni; d.output_frames = no; d.src_ratio = ratio; d.end_of_input = 0;
  double lo = a.lo > 0 ? std::min(a.lo, ratio) : ratio; StepScope ss((u64) (200000000 + 200.0 * ((double) no * taps_per_frame(a.type, lo) * ch + (double) in)));
  int e = src_process(a.c.st, &d); ss.close(); fault("input and output arrays touch");
  if (e) fail("process-error", "src_process returned %d for touching arrays", e);
  if (in && memcmp(pi, copy.data(), in * 4)) fail("input-modified", "src_process modified the input array (it touches the output array)");
  i64 g = d.output_frames_gen, u = d.input_frames_used; if (g < 0 || g > no || u < 0 || u > ni) fail("bad-counts", "used %lld of %lld, generated %lld of %lld", (long long) u, (long long) ni, (long long) g, (long long) no);
  for (size_t i = 0; i < on; i++) { bool p = !memcmp(po + i, &g_poison, 4); if ((i < (size_t) g * ch) == p) fail(p ? "not-written" : "wrote-past", "output sample %zu of %lld frames", i, (long long) g); }
  both.check("joint"); a.lo = lo; a.c.rlo = a.c.rlo > 0 ? std::min(a.c.rlo, ratio) : ratio; a.c.rhi = std::max(a.c.rhi, ratio); log_mix((u64) g); log_mix((u64) u);
}
// Blocks of more samples than an int can count.  The memory is reserved, not used.
static void huge_block(Sess &a, int what, i64 small, double ratio) {
  const i64 HUGE_SAMPLES = (i64) INT_MAX + 1 + (i64) a.ch * 1000; i64 frames = HUGE_SAMPLES / a.ch; size_t bytes = (size_t) (frames * a.ch) * 4;
  float *m = (float *) mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) { count("huge block not available"); return; }
  Conv c, t; if (!c.create(a.type, a.ch) || !t.create(a.type, a.ch)) fail("create", "cannot create a converter");
  int ch = a.ch; small = cap_out((double) small, a.type, ch, ratio) + 1; size_t pre = std::min(a.sig->x.size(), (size_t) 40000 * ch / ch * ch);
  i64 pref = (i64) pre / ch; std::vector<float> mo, to; SRC_DATA d; memset(&d, 0, sizeof d); i64 gen = 0;
  if (what % 2 == 0) { // a huge input block, little room
    memcpy(m, a.sig->x.data(), (size_t) pref * ch * 4);
    i64 need = (i64) (((double) small * 4 + 4) / ratio) + 2 * half_len(a.type, ratio) + 10;
    i64 off = 0;
    for (int k = 0; k < 3; k++) {
      std::vector<float> o((size_t) small * ch); d.data_in = m + off * ch; d.data_out = o.data(); d.input_frames = frames - off; d.output_frames = small; d.src_ratio = ratio; d.end_of_input = what == 4;
      OwnerScope os(c.owner); StepScope ss(400000000); int e = src_process(c.st, &d); ss.close();
      if (e) fail("process-error", "src_process returned %d for a block of %lld frames of %d channels", e, (long long) d.input_frames, ch);
      if (d.input_frames_used < 0 || d.input_frames_used > d.input_frames || d.output_frames_gen < 0 || d.output_frames_gen > small) fail("bad-counts", "block of %lld frames: used %ld, generated %ld of %lld", (long long) d.input_frames, d.input_frames_used, d.output_frames_gen, (long long) small);
      if (d.output_frames_gen != small) fail("bad-counts", "only %ld of %lld frames generated from a block of %lld frames", d.output_frames_gen, (long long) small, (long long) d.input_frames);
      mo.insert(mo.end(), o.begin(), o.begin() + (size_t) d.output_frames_gen * ch); off += d.input_frames_used; gen += d.output_frames_gen;
    }
    // the same input in an ordinary block
    need = std::min(need, std::max<i64>(pref, off) + 200000 / ch); need = std::max(need, off); std::vector<float> x(m, m + (size_t) need * ch); i64 o2 = 0;
    for (int k = 0; k < 40 && (i64) to.size() / ch < gen; k++) { Res R = t.process(x.data() + o2 * ch, need - o2, gen - (i64) to.size() / ch, ratio, 0, &to); o2 += R.used; if (!R.used && !R.gen) break; }
  } else { // huge room, a little input
    i64 ni = std::min<i64>(pref, 1 + small); double r = std::min(ratio, 40.0);
    d.data_in = a.sig->x.data(); d.input_frames = ni; d.data_out = m; d.output_frames = frames; d.src_ratio = r; d.end_of_input = what != 1;
    OwnerScope os(c.owner); StepScope ss(400000000); int e = src_process(c.st, &d); ss.close();
    if (e) fail("process-error", "src_process returned %d with room for %lld frames of %d channels", e, (long long) frames, ch);
    i64 g = d.output_frames_gen; if (g < 0 || g > (i64) (ni * r) + 300) fail("bad-counts", "generated %lld frames from %lld", (long long) g, (long long) ni);
    mo.assign(m, m + (size_t) g * ch); for (i64 i = g * ch; i < g * ch + 4096; i++) if (m[i] != 0) fail("wrote-past", "sample %lld was written, %lld frames generated", (long long) i, (long long) g);
    Res R = t.process(a.sig->x.data(), ni, g + 100, r, what != 1, &to); if (R.gen != g || R.used != d.input_frames_used) fail("bad-counts", "room for %lld frames gives %lld frames, ordinary room %lld", (long long) frames, (long long) g, (long long) R.gen);
  }
  i64 q = compare_streams(mo, to, a.type, ch, ratio, a.sig->peak, true); if (q >= 0 || to.size() < mo.size()) fail("huge-block", "a block of more than INT_MAX samples is converted differently at sample %lld", (long long) q);
  c.destroy(); t.destroy(); munmap(m, bytes); fault("block of more than INT_MAX samples");
}
// The same through the callback interface and src_simple.
struct BigSource { float *p; i64 left, calls; };
static long big_source(void *v, float **data) { BigSource *b = (BigSource *) v; b->calls++; *data = b->p; long n = (long) b->left; b->left = 0; return n; }
static void huge_pull(Sess &a, int what, i64 small, double ratio) {
  const i64 HUGE_SAMPLES = (i64) INT_MAX + 1 + (i64) a.ch * 1000; int ch = a.ch; i64 frames = HUGE_SAMPLES / ch; size_t bytes = (size_t) (frames * ch) * 4;
  float *m = (float *) mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) { count("huge block not available"); return; }
  small = cap_out((double) small, a.type, ch, ratio) + 1; ratio = std::min(ratio, 40.0); i64 pref = std::min<i64>(a.sig->n, 40000 / ch + 1); Conv t; if (!t.create(a.type, ch)) fail("create", "cannot create a converter");
  std::vector<float> mo, to; OwnerScope os(-11); StepScope ss(1000000000);
  auto past = [&](i64 g) { mo.assign(m, m + (size_t) g * ch); for (i64 i = g * ch; i < g * ch + 4096; i++) if (m[i] != 0) fail("wrote-past", "sample %lld was written, %lld frames generated", (long long) i, (long long) g); };
  if (what < 2) {
    BigSource b; int e = 0; SRC_STATE *st = nullptr;
    if (what == 0) { memcpy(m, a.sig->x.data(), (size_t) pref * ch * 4); b = {m, frames, 0}; } else b = {const_cast<float *>(a.sig->x.data()), std::min<i64>(pref, 1 + small), 0};
    i64 ni = b.left; st = src_callback_new(big_source, a.type, ch, &e, &b); if (!st) fail("create", "cannot create a callback converter");
    if (what == 0) { // the source hands over a huge block
      for (int k = 0; k < 3; k++) { std::vector<float> o((size_t) small * ch); long g = src_callback_read(st, ratio, (long) small, o.data()); if (g != small || src_error(st)) fail("bad-counts", "a read of %lld frames from a block of %lld frames delivered %ld (error %d)", (long long) small, (long long) frames, g, src_error(st)); mo.insert(mo.end(), o.begin(), o.end()); }
      if (b.calls != 1) fail("requests", "the source was asked %lld times with a block of %lld frames unread", (long long) b.calls, (long long) frames);
    } else { // a huge read from a short source
      long g = src_callback_read(st, ratio, (long) frames, m); if (g < 0 || g > (long) (ni * ratio) + 300 || src_error(st)) fail("bad-counts", "a read of %lld frames delivered %ld from %lld (error %d)", (long long) frames, g, (long long) ni, src_error(st)); past(g);
    }
    if (src_delete(st)) fail("delete-result", "src_delete returned a non-NULL pointer"); ss.close();
    if (what == 0) { i64 need = (i64) ((double) small * 4 / ratio) + 2 * half_len(a.type, ratio) + 10; std::vector<float> x(m, m + (size_t) need * ch); i64 o2 = 0; for (int k = 0; k < 40 && (i64) to.size() < (i64) mo.size(); k++) { Res R = t.process(x.data() + o2 * ch, need - o2, (i64) (mo.size() - to.size()) / ch, ratio, 0, &to); o2 += R.used; if (!R.used && !R.gen) break; } }
    else { i64 off = 0; for (int k = 0; k < 40; k++) { Res R = t.process(a.sig->x.data() + off * ch, ni - off, (i64) (ni * ratio) + 300, ratio, off == ni, &to); bool last = off == ni && !R.gen; off += R.used; if (last) break; } if (to.size() != mo.size()) fail("bad-counts", "a read with room for %lld frames gives %zu samples, ordinary calls %zu", (long long) frames, mo.size(), to.size()); }
  } else {
    SRC_DATA d; memset(&d, 0, sizeof d); d.src_ratio = ratio; i64 ni = what == 2 ? frames : std::min<i64>(pref, 1 + small), no = what == 2 ? small : frames; std::vector<float> o;
    if (what == 2) { memcpy(m, a.sig->x.data(), (size_t) pref * ch * 4); o.resize((size_t) small * ch); d.data_in = m; d.data_out = o.data(); } else { d.data_in = a.sig->x.data(); d.data_out = m; }
    d.input_frames = ni; d.output_frames = no; int e = src_simple(&d, a.type, ch); ss.close(); i64 g = d.output_frames_gen;
    if (e) fail("simple", "src_simple returned %d with %lld input frames and room for %lld", e, (long long) ni, (long long) no);
    if (d.input_frames_used < 0 || d.input_frames_used > ni || g < 0 || g > no) fail("bad-counts", "src_simple used %ld of %lld, generated %lld of %lld", d.input_frames_used, (long long) ni, (long long) g, (long long) no);
    if (what == 2) { if (g != small) fail("bad-counts", "src_simple generated %lld of %lld frames from a block of %lld frames", (long long) g, (long long) small, (long long) ni); mo = o; i64 need = (i64) ((double) small / ratio) + 2 * half_len(a.type, ratio) + 10; std::vector<float> x(m, m + (size_t) need * ch); t.process(x.data(), need, small, ratio, 0, &to); }
    else { past(g); Res R = t.process(a.sig->x.data(), ni, g + 100, ratio, 1, &to); if (R.gen != g || R.used != d.input_frames_used) fail("bad-counts", "src_simple with room for %lld frames gives %lld frames, ordinary room %lld", (long long) no, (long long) g, (long long) R.gen); }
  }
  i64 q = compare_streams(mo, to, a.type, ch, ratio, a.sig->peak, true); if (q >= 0 || to.size() < mo.size()) fail("huge-block", "a block of more than INT_MAX samples is converted differently at sample %lld", (long long) q);
  t.destroy(); munmap(m, bytes); fault(what == 0 ? "callback block of more than INT_MAX samples" : what == 1 ? "read of more than INT_MAX samples" : "src_simple on more than INT_MAX samples");
}
// One call that takes in (or gives out) more samples than a float can count exactly, against the same stream in ordinary blocks.
// Both arrays end at memory that cannot be touched.
static void deep(int type, int ch, i64 n, double ratio, int fl, u64 seed) {
  i64 room = (i64) ((double) n * ratio) + 3; if ((double) room * ch > 6e7) { room = (i64) (6e7 / ch); n = (i64) ((double) room / ratio) + 1; } const size_t page = 4096;
  auto edge = [&](size_t samples, size_t &bytes, char *&base) -> float * { bytes = (samples * 4 + page - 1) / page * page; base = (char *) mmap(nullptr, bytes + page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (base == (char *) MAP_FAILED) return nullptr; mprotect(base + bytes, page, PROT_NONE); return (float *) (base + bytes) - samples; };
  size_t ib, ob; char *bi, *bo; float *x = edge((size_t) n * ch, ib, bi), *o = edge((size_t) room * ch, ob, bo); if (!x || !o) { count("huge block not available"); return; }
  { u32 h = (u32) seed * 2u + 1; for (size_t i = 0, m = (size_t) n * ch; i < m; i++) { h = h * 1664525u + 1013904223u; x[i] = (float) (int32_t) h * 4.656612873e-10f; } }
  Conv t; if (!t.create(type, ch)) fail("create", "cannot create a converter"); OwnerScope os(-14); StepScope ss((u64) 1 << 50); int e = 0; SRC_STATE *st = src_new(type, ch, &e); if (!st) fail("create", "cannot create a converter");
  SRC_DATA d; memset(&d, 0, sizeof d); d.data_in = x; d.input_frames = n; d.data_out = o; d.output_frames = room; d.src_ratio = ratio; d.end_of_input = fl & 1; e = src_process(st, &d); if (e) fail("process-error", "src_process returned %d for a block of %lld frames", e, (long long) n);
  i64 g = d.output_frames_gen, u = d.input_frames_used; src_delete(st); ss.close(); if (g < 0 || g > room || u < 0 || u > n) fail("bad-counts", "block of %lld frames: used %lld, generated %lld of %lld", (long long) n, (long long) u, (long long) g, (long long) room);
  std::vector<float> b; i64 off = 0, blk = 60000 / ch + 1, done = 0, same = 0; std::vector<float> part((size_t) (blk * 3 + 10) * ch); SRC_STATE *s2 = nullptr; (void) t;
  { StepScope s3((u64) 1 << 50); s2 = src_new(type, ch, &e); if (!s2) fail("create", "cannot create a converter"); i64 cap = (i64) part.size() / ch;
    while (true) { SRC_DATA q; memset(&q, 0, sizeof q); q.data_in = x + (size_t) off * ch; q.input_frames = std::min(blk, n - off); q.data_out = part.data(); q.output_frames = std::min(cap, room - done); q.src_ratio = ratio; q.end_of_input = (fl & 1) && off + q.input_frames == n; e = src_process(s2, &q); if (e) fail("process-error", "src_process returned %d", e); i64 k = std::min<i64>(q.output_frames_gen, g - done);
      std::vector<float> aa, bb; if (k > 0 && memcmp(part.data(), o + (size_t) done * ch, (size_t) k * ch * 4)) { aa.assign(o + (size_t) done * ch, o + (size_t) (done + k) * ch); bb.assign(part.begin(), part.begin() + (size_t) k * ch); for (size_t i = 0; i < aa.size(); i++) { if (aa[i] == bb[i]) continue; if (type == T_LINEAR ? std::fabs(aa[i] - bb[i]) <= 1e-6 : type == T_ZOH && near_integer((long double) (done + (i64) (i / ch)) / ratio, 1e-6L)) continue; fail("deep-block", "%s: a block of %lld frames is converted differently at output frame %lld: %.9g, in small blocks %.9g", type_name(type), (long long) n, (long long) (done + (i64) (i / ch)), aa[i], bb[i]); } }
      done += q.output_frames_gen; off += q.input_frames_used; same = q.input_frames_used || q.output_frames_gen ? 0 : same + 1; if (same > 1 || done >= room) break; }
    src_delete(s2); s3.close(); }
  i64 df = done - g; if (df > 1 || df < -1) fail("bad-counts", "a block of %lld frames gives %lld frames, the same in small blocks %lld (ratio %.17g)", (long long) n, (long long) g, (long long) done, ratio);
  i64 du = off - u; if (g < room - 1 && (du > 1 || du < -1)) fail("bad-counts", "a block of %lld frames: %lld used, in small blocks %lld (ratio %.17g)", (long long) n, (long long) u, (long long) off, ratio);
  t.destroy(); munmap(bi, ib + page); munmap(bo, ob + page); fault("call with more samples than a float can count"); log_mix((u64) g); log_mix((u64) u);
}
// Millions of channels: a step of a few hundred frames is then more samples than an int can count.  Three channels carry a signal.
static void wide(int type, i64 ch, double ratio, i64 calls, u64 seed) {
  if (is_sinc(type)) type = T_LINEAR;
  i64 room = std::max<i64>(1, std::min<i64>(3, 20000000 / ch)), n = (i64) ((double) (calls * room + 2) / ratio) + 8; if ((double) n * (double) ch > 1.6e10) n = (i64) (1.6e10 / (double) ch); size_t ib = (size_t) n * (size_t) ch * 4, ob = (size_t) room * (size_t) ch * 4 + 4096;
  float *x = (float *) mmap(nullptr, ib, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0), *o = (float *) mmap(nullptr, ob, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (x == MAP_FAILED || o == MAP_FAILED) { count("huge block not available"); return; }
  i64 pick[3] = {0, ch - 1, (i64) (mix64(seed) % (u64) ch)}; std::vector<std::vector<float>> solo(3); std::vector<float> out[3], ref;
  for (i64 f = 0; f < n; f++) for (int k = 0; k < 3; k++) x[(size_t) f * ch + pick[k]] = (float) ((double) (hash2(seed + (k == 2 && (pick[2] == 0) ? 0 : k == 2 && pick[2] == ch - 1 ? 1 : k), (u64) f) >> 40) / (1 << 24)) - 0.5f;
  for (int k = 0; k < 3; k++) { solo[k].resize((size_t) n); for (i64 f = 0; f < n; f++) solo[k][f] = x[(size_t) f * ch + pick[k]]; }
  OwnerScope os(-13); StepScope ss(4000000000ull); int e = 0; SRC_STATE *st = src_new(type, (int) ch, &e); if (!st) { if (err_is(e, E_MALLOC)) { ss.close(); munmap(x, ib); munmap(o, ob); return; } fail("create", "src_new of %lld channels: error %d", (long long) ch, e); }
  Conv mono[3]; for (auto &m : mono) if (!m.create(type, 1)) fail("create", "cannot create a converter");
  i64 off = 0, total = 0; bool tie = false;
  for (i64 c = 0; c < calls && !tie; c++) {
    i64 ni = c + 1 < calls ? std::min<i64>(n - off, 1 + (i64) (mix64(seed + (u64) c) % (u64) n)) : n - off; SRC_DATA d; memset(&d, 0, sizeof d); d.data_in = x + (size_t) off * ch; d.data_out = o; d.input_frames = ni; d.output_frames = room; d.src_ratio = ratio;
    e = src_process(st, &d); if (e) fail("process-error", "src_process returned %d with %lld channels", e, (long long) ch);
    if (d.input_frames_used < 0 || d.input_frames_used > ni || d.output_frames_gen < 0 || d.output_frames_gen > room) fail("bad-counts", "%lld channels: used %ld of %lld, generated %ld of %lld", (long long) ch, d.input_frames_used, (long long) ni, d.output_frames_gen, (long long) room);
    for (int k = 0; k < 3; k++) { size_t had = out[k].size(); Res R = mono[k].process(solo[k].data() + off, ni, room, ratio, 0, &out[k]); if (R.used != d.input_frames_used || R.gen != d.output_frames_gen) { tie |= near_integer((long double) (total + R.gen) / (long double) ratio, 1e-6L) || near_integer((long double) (total + d.output_frames_gen) / (long double) ratio, 1e-6L); if (tie) break; } if (R.used != d.input_frames_used || R.gen != d.output_frames_gen) fail("bad-counts", "%lld channels: used %ld, generated %ld; one channel %lld and %lld", (long long) ch, d.input_frames_used, d.output_frames_gen, (long long) R.used, (long long) R.gen);
      for (i64 f = 0; f < R.gen; f++) if (memcmp(&o[(size_t) f * ch + pick[k]], &out[k][had + (size_t) f], 4)) fail("wide-value", "channel %lld of %lld: frame %lld is %.9g, alone %.9g", (long long) pick[k], (long long) ch, (long long) (total + f), o[(size_t) f * ch + pick[k]], out[k][had + (size_t) f]); }
    for (size_t i = (size_t) d.output_frames_gen * ch; i < ob / 4; i += i < (size_t) d.output_frames_gen * ch + 1024 || i + 1024 >= ob / 4 ? 1 : 997) { if (o[i] != 0 && c == 0) fail("wrote-past", "sample %zu was written, %ld frames generated", i, d.output_frames_gen); }
    for (u64 q = 0; q < 64 && d.output_frames_gen; q++) { i64 z = (i64) (mix64(seed * 64 + q) % (u64) ch); if (z != pick[0] && z != pick[1] && z != pick[2] && o[z] != 0) fail("wide-value", "silent channel %lld of %lld is %.9g", (long long) z, (long long) ch, o[z]); }
    off += d.input_frames_used; total += d.output_frames_gen; log_mix((u64) off); log_mix((u64) total);
  }
  if (src_delete(st)) fail("delete-result", "src_delete returned a non-NULL pointer"); ss.close(); for (auto &m : mono) m.destroy();
  munmap(x, ib); munmap(o, ob); fault("millions of channels"); count("frames of millions of channels", total);
}
static void c04_exec(const Scenario &s) {
  g_arr_off = s.i("align") & 15;
  Signal sig = whole(s); std::unique_ptr<Sess> a(new Sess); a->setup(s, &sig); if (!a->open()) fail("create", "cannot create a converter");
  std::vector<std::unique_ptr<Sess>> sides; i64 n = 0, gen = 0, odd = 0; bool ended = false;
  for (auto &o : s.ops) {
    if (++n > 400) break;
    if (traffic_op(o)) {
      Obs x = a->run(o); gen += x.gen; if (o.k == "r") { fault("reset mid-stream"); ended = false; } if (o.k == "p" && (o.i(3) & 1) && !ended) { fault("end of input"); ended = true; }
      if (o.k == "p") { if (o.d(0) <= 0) fault("starved source (empty input)"); if (o.d(1) <= 0 && !a->cb) fault("stalled sink (no output room)"); if (o.d(0) * a->ch > 45000) fault("burst larger than internal buffer"); }
      state_seen(state_key(a->type, a->ch, o.k == "p" ? o.d(2, 1) : 1, (a->cb ? 2 : 0) + (a->endpos >= 0) + 4 * (i64) (g_arr_off != 0), bucket((double) x.used), bucket((double) x.gen)));
    }
    else if (o.k == "bad") { bad_call(*a, (int) (o.i(0) & 7)); odd++; if (a->c.error()) { a->run(Op("r", {})); } }
    else if (o.k == "swap") { std::unique_ptr<Sess> b(new Sess); if (!b->clone_from(*a)) fail("clone", "src_clone failed"); if (n & 1) std::swap(a, b); b->close(); fault("converter replaced by its clone"); odd++; }
    else if (o.k == "side") { std::unique_ptr<Sess> b(new Sess); if (!b->clone_from(*a)) fail("clone", "src_clone failed"); b->run(Op("p", {o.d(0), o.d(1), o.d(2, 1), o.d(3)})); fault("clone used beside the original"); if (sides.size() > 3) { sides[0]->close(); sides.erase(sides.begin()); } sides.push_back(std::move(b)); odd++; }
    else if (o.k == "after" && !a->cb) { // the client simply goes on after the end, or starts over in the middle
      double r = ok_ratio(o.d(2, 1)); double lo = a->c.rlo > 0 ? std::min(a->c.rlo, r) : r; i64 ni = std::min(clampi(o.d(0), 0, 20000 / a->ch + 1), sig.n); a->c.process(sig.x.data(), ni, cap_out(o.d(1), a->type, a->ch, lo), r, (int) (o.i(3) & 1), nullptr); a->lo = lo; if (a->endpos >= 0) fault("input after the end of input"); odd++; }
    else if (o.k == "touch" && !a->cb) { double r = ok_ratio(o.d(2, 1)); touching(*a, clampi(o.d(0), 0, 3000 / a->ch + 1), cap_out(o.d(1), a->type, a->ch, a->lo > 0 ? std::min(a->lo, r) : r), r, (int) o.i(3)); odd++; }
    else if (o.k == "simple") { double r = ok_ratio(o.d(2, 1)); Res R; std::vector<float> out; i64 ni = std::min(clampi(o.d(0), 0, 20000 / a->ch + 1), sig.n); int e = simple(sig.x.data(), ni, cap_out(o.d(1), a->type, a->ch, r), r, a->type, a->ch, R, out, (int) (o.i(3) & 1)); if (e) fail("simple", "src_simple returned %d", e); odd++; }
    else if (o.k == "align") { g_arr_off = o.i(0) & 15; fault("arrays misaligned"); }
    else if (o.k == "deep") { int t = (int) o.i(0); if (t != T_FAST && t != T_ZOH && t != T_LINEAR) continue; int dc = (int) clampi(o.d(1), 1, 16); deep(t, dc, clampi(o.d(2), 1, 40000000 / dc), std::max(0.004, ok_ratio(o.d(3, 1))), (int) o.i(4) & 3, (u64) std::max<i64>(0, o.i(5))); odd++; }
    else if (o.k == "wide") { wide((int) o.i(0) == T_ZOH ? T_ZOH : T_LINEAR, clampi(o.d(1), 1, 30000000), ok_ratio(o.d(2, 1)), clampi(o.d(3), 1, 3), (u64) std::max<i64>(0, o.i(4))); odd++; }
    else if (o.k == "huge") { if (a->ch > 16) continue; int what = (int) pickn(o.d(0), 10); double r = std::max(0.02, std::min(50.0, ok_ratio(o.d(2, 1)))); if (what < 6) huge_block(*a, what, clampi(o.d(1), 1, 300), r); else huge_pull(*a, what - 6, clampi(o.d(1), 1, 300), r); odd++; }
  }
  a->pull.check_block(); a->close(); for (auto &b : sides) b->close();
  g_arr_off = 0; g_nontrivial = gen > 0 && (odd > 0 || n > 3);
}
static PropReg r04({"C04", "random histories of valid calls mixed with refused ones, resets, clones, input after the end, touching and misaligned arrays and huge blocks, on exactly sized arrays under AddressSanitizer or between canaries; non-trivial: output was generated", c04_gen, c04_exec});

// ------------------------------------------------------------------ C10
static void c10_gen(Rng &r, Scenario &s, int tier) {
  TrafficOpts o; o.ends = r.chance(0.4) ? 0.06 : 0.0; o.resets = 0.05; o.max_ops = 24; gen_traffic(r, s, (tier ? 1e5 : 4e4) * (r.chance(0.05) ? 6 : 1), o);
  std::vector<Op> ops; auto oom = [&]() { ops.push_back(Op("oom", {(double) r.below(5), r.chance(0.5) ? 0.0 : (double) r.range(1, 8), (double) r.below(2), (double) r.below(2), r.chance(0.3) ? (double) r.below(256) : 0.0, (double) gen_type(r), (double) gen_channels(r, T_FAST)})); };
  for (auto &q : s.ops) { while (r.chance(0.35)) oom(); if (r.chance(0.3)) ops.push_back(Op("down", {(double) r.range(1, 5)})); ops.push_back(q); }
  oom(); s.ops = ops;
}
// One call with allocations failing as planned; true if it succeeded (then *made holds the new converter, if any).
static bool try_oom(int kind, Sess &src, int type, int ch, i64 at, bool forever, i64 mask, bool pass_err, const char *what, i64 &fired) {
  i64 live0 = g_alloc.live, bytes0 = g_alloc.live_bytes; int e = -1; bool ok = false; Pull p; Sess made; Sess probe;
  p.sig = src.sig; p.ch = ch; p.plan = [](i64, i64) { return (i64) 0; };
  Res R; std::vector<float> out; Signal z;
  if (kind == 3) z = make_signal(3, 0, 1, ch, 40);
  g_alloc.plan(at, forever, mask);
  switch (kind) {
    case 0: ok = made.c.create(type, ch, &e, pass_err); break;
    case 1: ok = made.c.create_cb(&p, type, ch, &e, pass_err); break;
    case 2: case 4: ok = made.c.clone_from(src.c, &e, pass_err); break;
    default: e = simple(z.x.data(), 40, 60, 1.25, type, ch, R, out); ok = e == 0; pass_err = true; break;
  }
  fired = g_alloc.fired; g_alloc.calm();
  if (fired) {
    fault(what);
    if (ok) fail("oom", "%s succeeded although allocation %lld failed", what, (long long) at);
    if (pass_err && !err_is(e, E_MALLOC)) fail("oom", "%s reported error %d (%s) when an allocation failed", what, e, src_strerror(e) ? src_strerror(e) : "no text");
    if (g_alloc.live != live0 || g_alloc.live_bytes != bytes0) fail("oom-leak", "%s left %lld block(s), %lld bytes allocated after a failed allocation", what, (long long) (g_alloc.live - live0), (long long) (g_alloc.live_bytes - bytes0));
  } else {
    if (!ok) fail("oom", "%s failed with %d although no allocation failed", what, e);
    if (made.c.st) made.c.destroy();
    if (g_alloc.live != live0) fail("leak", "%s and src_delete left %lld block(s)", what, (long long) (g_alloc.live - live0));
  }
  return ok;
}
static void c10_exec(const Scenario &s) {
  static const char *kinds[] = {"src_new without memory", "src_callback_new without memory", "src_clone without memory", "src_simple without memory", "src_clone without memory (original then replaced)"};
  Signal sig = whole(s); std::unique_ptr<Sess> a(new Sess), twin(new Sess); a->setup(s, &sig); twin->setup(s, &sig); if (!a->open() || !twin->open()) fail("create", "cannot create a converter");
  i64 n = 0, failures = 0, compared = 0, down = 0; 
  for (auto &o : s.ops) {
    if (++n > 300) break;
    if (o.k == "oom") {
      int kind = (int) pickn(o.d(0), 5); int type = (int) o.i(5, T_LINEAR); if (type != T_FAST && type != T_MEDIUM && type != T_ZOH && type != T_LINEAR) type = T_LINEAR; int ch = (int) clampi(o.d(6, 1), 1, is_sinc(type) ? 128 : 300); if (kind == 2 || kind == 4) { type = a->type; ch = a->ch; }
      bool forever = o.i(2) & 1, pe = o.i(3) & 1; i64 mask = clampi(o.d(4), 0, 4095), fired = 0;
      if (mask) { try_oom(kind, *a, type, ch, 0, false, mask, pe, kinds[kind], fired); failures += fired > 0; }
      else if (o.i(1) > 0) { try_oom(kind, *a, type, ch, o.i(1), forever, 0, pe, kinds[kind], fired); failures += fired > 0; }
      else for (i64 at = 1; at < 200; at++) { bool ok = try_oom(kind, *a, type, ch, at, forever, 0, pe, kinds[kind], fired); failures += fired > 0; state_seen(state_key(type, ch, 1, kind * 2 + forever, at, pe)); if (ok && !fired) break; }
      if (a->c.error() != twin->c.error()) fail("oom", "a failed %s changed src_error of another converter", kinds[kind]);
      if (kind == 4) { std::unique_ptr<Sess> b(new Sess); if (!b->clone_from(*a)) fail("clone", "src_clone failed with memory available"); a->close(); a = std::move(b); }
    }
    else if (o.k == "down") down = clampi(o.d(0), 0, 20);
    else if (traffic_op(o)) {
      bool d = down > 0; if (d) { g_alloc.plan(1, true); down--; fault("no memory during conversion"); }
      Obs x = a->run(o); if (d) g_alloc.calm();
      Obs y = twin->run(o); require_same("oom-stream", "a stream beside failing allocations vs an undisturbed one", o, n, x, y); compared++;
    }
  }
  a->close(); twin->close();
  if (g_alloc.live) fail("leak", "%lld block(s) left at the end", (long long) g_alloc.live);
  g_nontrivial = failures > 0 && compared > 0;
}
static PropReg r10({"C10", "every allocation of every creating call made to fail at random points of random traffic (one, all later, or a random subset of allocations), conversion without memory, all compared with an undisturbed twin; non-trivial: a failure was injected into a creating call and the stream compared", c10_gen, c10_exec});

// ------------------------------------------------------------------ C11
enum { SLOTS = 6 };
static void c11_gen(Rng &r, Scenario &s, int tier) {
  for (int k = 0; k < 3; k++) { Scenario t; TrafficOpts o; o.max_ops = 2; gen_traffic(r, t, 2e4, o); for (auto &c : t.cfg) s.cfg[c.first + std::to_string(k)] = c.second; }
  bool marathon = r.chance(0.08); i64 ops = r.range(5, 70); double ends = r.chance(0.5) ? 0.15 : 0.02; double lo, hi; gen_range2(r, lo, hi); Sizes z = gen_sizes(r, 400);
  for (i64 k = 0; k < ops; k++) switch (r.wpick({0.12, 0.13, 0.13, 0.42, 0.05, 0.05, 0.04, 0.04, 0.02})) {
    case 0: s.op("new", {(double) r.below(SLOTS), (double) r.below(3)}); break;
    case 1: s.op("clone", {(double) r.below(SLOTS), (double) r.below(SLOTS)}); break;
    case 2: s.op("del", {(double) r.below(SLOTS)}); break;
    case 3: s.op("use", {(double) r.below(SLOTS), (double) z.pick(r), (double) z.pick(r), r.logu(lo, hi), (double) ((r.chance(ends) ? 1 : 0) | (r.chance(0.2) ? 2 : 0))}); break;
    case 4: s.op("reset", {(double) r.below(SLOTS)}); break;
    case 5: s.op("set", {(double) r.below(SLOTS), r.logu(lo, hi)}); break;
    case 6: s.op("bad", {(double) r.below(SLOTS), (double) r.below(8)}); break;
    case 7: s.op("refuse", {(double) r.below(6), (double) r.below(12)}); break;
    default: s.op("simple", {(double) r.below(3), (double) r.range(0, 300), r.logu(0.2, 5)});
  }
  if (r.chance(0.02)) s.op("crowd", {(double) r.below(3), std::floor(r.logu(100, 1500)), (double) r.below(2)});
  if (marathon) s.op("many", {(double) r.below(SLOTS), (double) r.range(200, 3000), r.logu(lo, hi), (double) r.below(4)});
  s.cfg["order"] = (double) r.below(1 << 20);
}
static i64 bytes_of(int owner, i64 *blocks);
static void c11_exec(const Scenario &s) {
  Signal sigs[3]; i64 typical[3], tblocks[3];
  for (int k = 0; k < 3; k++) { // what such a converter uses when it has been used
    sigs[k] = whole(s, std::to_string(k)); Sess t; t.setup(s, &sigs[k], std::to_string(k)); if (!t.open()) fail("create", "cannot create a converter"); t.run(Op("p", {50, 50, 1.0, 0})); t.run(Op("p", {50, 50, 0.5, 1})); typical[k] = bytes_of(t.c.owner, &tblocks[k]); t.close();
    if (g_alloc.live) fail("leak", "%lld block(s) left by one converter", (long long) g_alloc.live);
  }
  std::unique_ptr<Sess> slot[SLOTS]; int kind[SLOTS] = {0}; i64 n = 0, peak = 0, uses = 0;
  auto at = [&](const Op &o, int i) { return (int) pickn(o.d(i), SLOTS); };
  auto within = [&](int k) {
    if (!slot[k]) return; i64 bl = 0, by = bytes_of(slot[k]->c.owner, &bl); int q = kind[k];
    if (by > 2 * typical[q] + 65536 || bl > 2 * tblocks[q] + 16) fail("memory-growth", "a converter owns %lld bytes in %lld blocks; one like it %lld bytes in %lld blocks", (long long) by, (long long) bl, (long long) typical[q], (long long) tblocks[q]);
  };
  auto remove = [&](int k) { if (!slot[k]) return; slot[k]->pull.check_block(); slot[k]->close(); slot[k].reset(); };
  for (auto &o : s.ops) {
    if (++n > 500) break;
    if (o.k == "new") { int k = at(o, 0), q = (int) pickn(o.d(1), 3); remove(k); slot[k].reset(new Sess); slot[k]->setup(s, &sigs[q], std::to_string(q)); if (!slot[k]->open()) fail("create", "cannot create a converter"); kind[k] = q; }
    else if (o.k == "clone") { int a = at(o, 0), b = at(o, 1); if (a == b || !slot[a]) continue; remove(b); slot[b].reset(new Sess); if (!slot[b]->clone_from(*slot[a])) fail("clone", "src_clone failed"); kind[b] = kind[a]; }
    else if (o.k == "del") { int k = at(o, 0); if (!slot[k]) { OwnerScope os(-7); StepScope ss(100000); SRC_STATE *z = src_delete(nullptr); ss.close(); if (z) fail("delete-result", "src_delete (NULL) returned a non-NULL pointer"); fault("src_delete (NULL)"); } else { fault("deleted mid-stream"); remove(k); } }
    else if (o.k == "use") { int k = at(o, 0); if (slot[k]) { slot[k]->run(Op("p", {o.d(1), o.d(2), o.d(3, 1), o.d(4)})); uses++; within(k); } }
    else if (o.k == "reset") { int k = at(o, 0); if (slot[k]) { slot[k]->run(Op("r", {})); within(k); fault("reset mid-stream"); } }
    else if (o.k == "set") { int k = at(o, 0); if (slot[k]) slot[k]->run(Op("s", {o.d(1, 1)})); }
    else if (o.k == "bad") { int k = at(o, 0); if (slot[k]) { bad_call(*slot[k], (int) (o.i(1) & 7)); if (slot[k]->c.error()) slot[k]->run(Op("r", {})); within(k); } }
    else if (o.k == "refuse") { // creations that must fail
      i64 live = g_alloc.live; int e = 0; SRC_STATE *z = nullptr; OwnerScope os(-9); StepScope ss(400000000); static const int types[] = {-1, 5, 77, 1000000, -2147483647, 3, 4, 1, 2, 3, 4, 1}; int bt = types[pickn(o.d(1), 5)], gt = types[5 + pickn(o.d(1), 7)];
      static const int bch[] = {0, -1, -2147483647};
      SRC_DATA d; memset(&d, 0, sizeof d); float x[8] = {0}; d.data_in = x; d.data_out = x + 4; d.input_frames = d.output_frames = 2; d.src_ratio = 1;
      auto cb = [](void *, float **) -> long { return 0; };
      switch (pickn(o.d(0), 6)) {
        case 0: z = src_new(bt, 1, &e); break; case 1: z = src_new(gt, bch[pickn(o.d(1), 3)], &e); break; case 2: z = src_callback_new(nullptr, gt, 2, &e, nullptr); break;
        case 3: e = src_simple(&d, bt, 2); break; case 4: d.src_ratio = 500; e = src_simple(&d, gt, 2); break; default: z = src_callback_new(cb, bt, 1, &e, x);
      }
      ss.close(); if (z || !e) fail("accepted", "an invalid request was accepted"); if (g_alloc.live != live) fail("leak", "a refused creation left %lld block(s)", (long long) (g_alloc.live - live)); fault("refused creation");
    }
    else if (o.k == "simple") { int q = (int) pickn(o.d(0), 3); Sess t; t.setup(s, &sigs[q], std::to_string(q)); Res R; std::vector<float> out; double r = std::max(0.05, std::min(20.0, ok_ratio(o.d(2, 1)))); i64 ni = std::min<i64>(clampi(o.d(1), 0, 2000 / t.ch + 1), sigs[q].n); if (simple(sigs[q].x.data(), ni, (i64) (ni * r) + 5, r, t.type, t.ch, R, out)) fail("simple", "src_simple failed"); }
    else if (o.k == "many") { int k = at(o, 0); if (!slot[k]) continue; Sess &a = *slot[k]; i64 m = clampi(o.d(1), 1, 5000); int style = (int) o.i(3) & 3; double r = std::max(0.1, std::min(10.0, ok_ratio(o.d(2, 1)))); i64 f = std::max<i64>(1, 200 / a.ch / (i64) taps_per_frame(a.type, 0.1) + 1); for (i64 i = 0; i < m; i++) { if (style == 1 && i % 50 == 49) a.run(Op("r", {})); if (style == 2 && i % 40 == 39) a.run(Op("s", {r})); a.run(Op("p", {(double) f, (double) f, style == 3 ? r * (1 + 0.1 * ((i & 7) / 8.0)) : r, 0})); if (i % 64 == 0) within(k); } within(k); count("marathon of calls", m); }
    else if (o.k == "crowd") { // very many converters at once
      int q = (int) pickn(o.d(0), 3); Sess t; t.setup(s, &sigs[q], std::to_string(q)); i64 m = clampi(o.d(1), 1, 2000); if (is_sinc(t.type)) m = std::min<i64>(m, 2000 / t.ch + 1); std::vector<std::unique_ptr<Sess>> all; Obs first;
      for (i64 i = 0; i < m; i++) { std::unique_ptr<Sess> z(new Sess); if ((o.i(2) & 1) && i % 3 == 2) { if (!z->clone_from(*all[(size_t) (mix64((u64) i) % all.size())])) fail("clone", "src_clone failed with %lld converters alive", (long long) i); } else { z->setup(s, &sigs[q], std::to_string(q)); if (!z->open()) fail("create", "cannot create a converter with %lld alive", (long long) i); } all.push_back(std::move(z)); }
      for (i64 i = 0; i < m; i++) { Obs x = all[(size_t) i]->run(Op("p", {8, 8, 1.0, 0})); if (!i) first = x; else require_same("crowd", "one of very many converters vs the first", o, i, x, first); }
      while (!all.empty()) { size_t i = (size_t) (mix64((u64) all.size() * 7 + (u64) s.i("order")) % all.size()); std::swap(all[i], all.back()); all.back()->close(); all.pop_back(); }
      count("converters alive in a crowd", m); fault("very many converters at once"); }
    i64 alive = 0; for (auto &x : slot) alive += x != nullptr; peak = std::max(peak, alive);
    u64 h = (u64) alive; for (int k = 0; k < SLOTS; k++) if (slot[k]) h = h * 37 + (u64) slot[k]->type * 4 + slot[k]->cb * 2 + (slot[k]->c.calls > 1); state_seen(hash2(h, hash_str(o.k)));
    if (!alive && g_alloc.live) fail("leak", "%lld block(s) allocated with no converter alive", (long long) g_alloc.live);
  }
  // Delete what is left in an order of the scenario's choosing; the survivors keep working meanwhile.
  u64 m = (u64) s.i("order");
  for (int left = SLOTS; left > 0; left--) {
    std::vector<int> alive; for (int k = 0; k < SLOTS; k++) if (slot[k]) alive.push_back(k);
    if (alive.empty()) break;
    remove(alive[mix64(m + left) % alive.size()]);
    for (int k : alive) if (slot[k]) { slot[k]->run(Op("p", {20, 20, 1.0, 0})); within(k); }
  }
  if (g_alloc.live) fail("leak", "%lld block(s), %lld bytes left when every converter is deleted", (long long) g_alloc.live, (long long) g_alloc.live_bytes);
  g_nontrivial = peak > 1 && uses > 0;
}
static i64 bytes_of(int owner, i64 *blocks) { return alloc_bytes_of(owner, blocks); }
static PropReg r11({"C11", "random lifecycles of up to six converters of three kinds (create, clone, use, reset, refused calls and creations, delete in random order), every block in a ledger with its owner; non-trivial: several converters alive at once and used", c11_gen, c11_exec});
