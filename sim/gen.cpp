#include "gen.hpp"

int gen_type(Rng &r) { static const int t[] = {T_FAST, T_MEDIUM, T_ZOH, T_LINEAR}; return t[r.wpick({0.42, 0.14, 0.20, 0.24})]; }
int gen_channels(Rng &r, int type) {
  switch (r.wpick({0.34, 0.22, 0.06, 0.09, 0.04, 0.09, 0.1, 0.05, 0.015})) {
    case 0: return 1; case 1: return 2; case 2: return 3; case 3: return 4; case 4: return 5; case 5: return 6;
    case 6: return (int) r.range(7, 16); case 7: return (int) r.range(17, 64);
  }
  if (r.chance(0.4)) return 128;
  if (is_sinc(type)) return (int) r.range(65, 128);
  return r.chance(0.65) ? (int) r.range(65, 300) : r.chance(0.5) ? (int) r.range(300, 2000) : (int) (r.chance(0.3) ? r.range(32765, 40000) : r.range(65534, 70000));
}
double gen_ratio(Rng &r) {
  static const double common[] = {1.0, 48000.0 / 44100, 44100.0 / 48000, 2.0, 0.5, 3.0, 1.0 / 3, 4.0, 0.25, 0.75, 1.5, 8000.0 / 44100, 44100.0 / 8000, 96000.0 / 44100, 160.0 / 147, 0.1, 10.0};
  switch (r.wpick({0.3, 0.25, 0.2, 0.1, 0.06, 0.09})) {
    case 0: return common[r.below(sizeof common / sizeof common[0])];
    case 1: return r.logu(0.3, 3.0);
    case 2: return r.logu(0.05, 20.0);
    case 3: return r.logu(1.0 / 256, 256.0);
    case 4: { static const double e[] = {1.0 / 256, 256.0, 1.0 / 255.9, 255.9, 1.0 / 128, 128.0}; return e[r.below(6)]; }
  }
  static const double eps[] = {1e-3, -1e-3, 1e-6, -1e-6, 1e-9, 1e-12, 1e-15, -1e-15};
  return 1.0 + eps[r.below(8)] * (r.chance(0.5) ? 1 : r.unit());
}
i64 clampi(double v, i64 lo, i64 hi) { if (!(v == v)) return lo; if (v < (double) lo) return lo; if (v > (double) hi) return hi; return (i64) v; }
double ok_ratio(double v) { if (!(v >= 1.0 / 256)) return 1.0 / 256; if (v > 256.0) return 256.0; return v; }
int cfg_type(const Scenario &s, const char *k) { int t = (int) s.i(k, T_LINEAR); if (t != T_FAST && t != T_MEDIUM && t != T_ZOH && t != T_LINEAR) t = T_LINEAR; return t; }
int cfg_ch(const Scenario &s, int type, const char *k) { return (int) clampi(s.d(k, 1), 1, is_sinc(type) ? 128 : 70000); }
Signal cfg_signal(const Scenario &s, int ch, i64 n) { double p = s.d("peak", 1); if (!(p > 0 && p < 1e30)) p = 1; Signal z = make_signal((u64) s.i("sig", 1), (int) s.i("kind", 0), p, ch, n); spice(z, s.i("spice", 0), (u64) s.i("sig", 1)); return z; }
// Every so often a sample that is no number, infinite or denormal.
void spice(Signal &z, i64 every, u64 seed) {
  if (every <= 0) return;
  static const uint32_t odd[] = {0x7fc00000u, 0x7f800000u, 0xff800000u, 0x00000001u, 0x80000000u, 0x7fc00001u, 0x807fffffu};
  for (size_t i = 0; i < z.x.size(); i++) { u64 h = hash2(seed ^ 0x51ce, i); if (h % (u64) every == 0) { memcpy(&z.x[i], &odd[(h >> 40) % 7], 4); if (h >> 63) i += z.ch; } }
}
void gen_spice(Rng &r, Scenario &s, double p) { if (r.chance(p)) s.cfg["spice"] = (double) (r.chance(0.5) ? r.range(2, 60) : r.range(60, 4000)); }

void gen_stream(Rng &r, Scenario &s, double work, double ratio, double rlo) {
  int type = gen_type(r), ch = gen_channels(r, type);
  double lo = rlo > 0 ? rlo : ratio;
  // cost of one input frame in taps (sinc is about four times an inner step of the others)
  double perin = (std::max(1.0, ratio) * taps_per_frame(type, lo > 1 ? 1 : lo) * std::min(1.0, ratio) + 4) * ch;
  if (is_sinc(type)) perin = ratio * taps_per_frame(type, lo) * ch + 4 * ch;
  double n = work / perin;
  double cap_out = 400000.0 / ch; if (n * ratio > cap_out) n = cap_out / ratio;
  i64 N;
  switch (r.wpick({0.12, 0.28, 0.6})) { case 0: N = r.range(0, 8); break; case 1: N = (i64) (n * std::pow(r.unit(), 3)); break; default: N = (i64) (n * (0.3 + 0.7 * r.unit())); }
  if (N > 400000 / ch) N = 400000 / ch;
  s.cfg["conv"] = type; s.cfg["ch"] = ch; s.cfg["sig"] = (double) r.below(1 << 30); s.cfg["kind"] = r.chance(0.62) ? 0 : (double) r.below(12);
  s.cfg["peak"] = r.chance(0.85) ? 1.0 : r.logu(1e-6, 1e6); s.cfg["n"] = (double) N;
}
Sizes gen_sizes(Rng &r, i64 scale) { Sizes z; z.scale = std::max<i64>(scale, 4); for (double &x : z.w) x = r.chance(0.5) ? 0.02 : r.unit(); z.w[0] *= 0.3; return z; }
i64 Sizes::pick(Rng &r) const {
  double t = 0; for (double x : w) t += x; double v = r.unit() * t; int c = 0; for (; c < 6; c++) { if (v < w[c]) break; v -= w[c]; }
  if (c >= 3 && r.chance(0.15)) { // the block sizes real clients use
    static const int usual[] = {16, 32, 64, 96, 100, 128, 144, 160, 192, 240, 256, 320, 441, 480, 500, 512, 576, 640, 882, 960, 1000, 1024, 1152, 1500, 1920, 2000, 2048, 3000, 4000, 4096, 4410, 4800, 8192, 10000, 16384, 32768, 65536};
    int k = 0; while (k + 1 < (int) (sizeof usual / sizeof usual[0]) && usual[k + 1] <= (c == 6 ? 4 : 1) * scale) k++; return usual[r.below(k + 1)] + (r.chance(0.2) ? r.range(-1, 1) : 0); }
  switch (c) { case 0: return 0; case 1: return 1; case 2: return r.range(2, 9); case 3: return r.range(10, 100); case 4: return r.range(1, std::max<i64>(2, scale / 16)); case 5: return r.range(1, scale); }
  return r.range(scale, 4 * scale);
}
i64 out_bound(i64 n, double ratio) { return (i64) std::ceil((double) n * ratio) + 300; }
i64 bucket(double v) { if (v <= 0) return 0; return 1 + (i64) std::floor(std::log2(v) + 40); }
u64 state_key(int type, int ch, double ratio, i64 phase, i64 a, i64 b) { u64 h = (u64) type; h = h * 31 + (ch <= 6 ? ch : 7 + bucket(ch)); h = h * 1009 + (u64) bucket(ratio); h = h * 31 + (u64) phase; h = h * 1009 + (u64) a; h = h * 1009 + (u64) b; return h; }

void one_shot(int type, int ch, const Signal &sig, double ratio, std::vector<float> &out) {
  Conv c; if (!c.create(type, ch)) fail("create", "cannot create a converter");
  i64 off = 0, room = out_bound(sig.n, ratio);
  for (int it = 0; it < 100000; it++) {
    Res R = c.process(sig.x.data() + (size_t) off * ch, sig.n - off, room, ratio, 1, &out);
    off += R.used; room = std::max<i64>(room - R.gen, 64);
    if (R.gen == 0 && R.used == 0) break;
    if (off == sig.n && R.gen == 0) break;
  }
  if (off != sig.n) fail("input-left", "%lld of %lld input frames never consumed although room was available", (long long) (sig.n - off), (long long) sig.n);
  c.destroy();
}

i64 compare_streams(const std::vector<float> &a, const std::vector<float> &b, int type, int ch, double ratio, double peak, bool constant) {
  size_t n = std::min(a.size(), b.size());
  for (size_t i = 0; i < n; i++) {
    if (!memcmp(&a[i], &b[i], 4)) continue;
    double x = a[i], y = b[i];
    if (std::isnan(x) && std::isnan(y)) continue;
    if (is_sinc(type)) return (i64) i;
    if (type == T_LINEAR && (!std::isfinite(x) || !std::isfinite(y))) { if (constant && near_integer((long double) (i / ch) / (long double) ratio, 1e-6L)) continue; return (i64) i; }
    if (type == T_LINEAR) { if (std::fabs(x - y) <= 1.3e-7 * std::max(std::fabs(x), std::fabs(y)) + 1e-9 * peak) continue; return (i64) i; }
    // Zero order hold: a different neighbour only where the instant falls on an input frame.
    if (constant && near_integer((long double) (i / ch) / (long double) ratio, 1e-6L)) continue;
    return (i64) i;
  }
  return -1;
}
void require_same_stream(const char *cls, const char *what, const std::vector<float> &a, const std::vector<float> &b, int type, int ch, double ratio, double peak, bool check_count, i64 N) {
  i64 d = compare_streams(a, b, type, ch, ratio, peak, true);
  if (d >= 0) fail(cls, "%s: %s ch=%d ratio=%.17g differ at output frame %lld channel %lld: %.9g vs %.9g", what, type_name(type), ch, ratio, (long long) (d / ch), (long long) (d % ch), a[d], b[d]);
  if (!check_count || a.size() == b.size()) return;
  i64 x = (i64) a.size() / ch, y = (i64) b.size() / ch, m = std::min(x, y);
  bool tie = false;
  if (x - y == 1 || y - x == 1) { long double P = (long double) m / ratio, P1 = (long double) (m + 1) / ratio, S = m / ratio; (void) S;
    // the end of the input coincides with an output instant (in frames or, for the multi-channel sinc rule, in samples)
    tie = near_integer(P, 1e-6L) || near_integer(P1, 1e-6L) || near_integer(P * ch, 1e-6L) || near_integer(P1 - N, 1e-6L);
    if (!tie && is_sinc(type) && ch > 1) { long double q = std::floor((double) P) * ch + (P - std::floor((double) P)) + 1.0L / ratio - (long double) N * ch; tie = fabsl(q) < 1e-6L; } }
  if (!tie) fail(cls, "%s: %s ch=%d ratio=%.17g give %lld and %lld frames in total", what, type_name(type), ch, ratio, (long long) x, (long long) y);
}

// A stream whose end falls where a sinc converter's history hardly fits its buffer any more (the buffer holds three
// half-lengths at ratio 1/256): most of it in big blocks, the last frames in small ones.
bool gen_edge(Rng &r, Scenario &s, double ratio, double work, const std::function<void(i64 in, i64 room)> &push) {
  int type = (int) s.i("conv"), ch = (int) s.i("ch"); if (!is_sinc(type)) return false;
  i64 h = half_len(type, ratio), bl = 3 * half_len(type, 1.0 / 256), fill = bl - 2 * h; if (fill < 1) return false;
  i64 k = r.chance(0.7) ? 1 : r.range(1, 3), jit = 0;
  switch (r.below(5)) { case 0: jit = r.range(-4, 4); break; case 1: jit = r.range(-40, 40); break; case 2: jit = r.range(0, h); break; case 3: jit = h + r.range(-10, 10); break; default: jit = r.range(-h, 2 * h); }
  i64 n = k * fill + jit; if (n < 1 || (double) n * ratio * taps_per_frame(type, ratio) * ch > work || n > 400000 / ch || (double) n * ratio * ch > 400000) return false;
  s.cfg["n"] = (double) n;
  i64 tail = r.chance(0.5) ? r.range(0, 30) : r.range(0, std::min<i64>(2 * h + 2, n)), body = std::max<i64>(0, n - tail), parts = r.range(1, 4), out = (i64) ((double) n * ratio) + 100;
  for (i64 i = 0; i < parts; i++) push(i + 1 == parts ? body : r.range(1, body + 1), r.chance(0.7) ? out : r.range(0, out));
  for (i64 i = r.range(0, 12); i > 0; i--) push(r.range(0, r.chance(0.7) ? 4 : 40), r.chance(0.8) ? out : r.range(0, 3));
  return true;
}

// The ratio falls far at an arbitrary fill of a sinc converter's buffer: runs near ratio one of random length, each followed by a
// few calls far below it, where the filter suddenly needs a history and a look-ahead a third as long as the whole buffer.
void gen_drop(Rng &r, Scenario &s, const std::function<void(i64 in, i64 room, double ratio)> &push, const std::function<void(double)> &set) {
  int type = r.chance(0.85) ? T_FAST : T_MEDIUM, ch = r.chance(0.6) ? 1 : r.chance(0.6) ? 2 : (int) r.range(3, 6); s.cfg["conv"] = type; s.cfg["ch"] = ch;
  i64 bl = 3 * half_len(type, 1.0 / 256), total = 0, cycles = type == T_FAST ? r.range(1, ch > 2 ? 2 : 4) : 1;
  for (i64 c = 0; c < cycles; c++) {
    double hi = r.chance(0.2) ? 1.0 : r.logu(0.6, 2.5), lo = r.chance(0.5) ? 1.0 / 256 : r.logu(1.0 / 256, 0.1); i64 h = half_len(type, lo);
    i64 k = r.range(0, (i64) (1.3 * (double) bl)), step = r.chance(0.5) ? r.range(300, 3700) : r.range(300, 1000);
    while (k > 0) { i64 in = std::min(k, r.range(step / 2, step)); push(in, (i64) ((double) in * hi) + (i64) r.range(0, 100), hi); k -= in; total += in; }
    if (r.chance(0.3)) set(lo);
    for (i64 j = r.range(1, 5); j > 0; j--) { i64 in = r.chance(0.4) ? r.range(0, 60) : r.chance(0.6) ? r.range(0, h) : r.range(h, 2 * h + 10); push(in, r.range(1, r.chance(0.8) ? 6 : 40), lo); total += in; }
  }
  s.cfg["n"] = (double) std::min<i64>(total + r.range(0, 3000), 400000 / ch);
}
