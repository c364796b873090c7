#include "model.hpp"
namespace ref {
typedef float coeff_t;
#include "../ref/ref_fastest.h"
#include "../ref/ref_mid.h"
}
bool near_integer(long double v, long double eps) { long double d = v - roundl(v); return d < eps && d > -eps; }

void Model::advance(double step) {
  double v = fr + step;
  double n = std::nearbyint(v), rem = v - n;
  if (rem < 0) rem += 1.0;
  i64 whole = (i64) std::nearbyint(v - rem);
  k += whole; fr = rem; exact += step;
}

// Value of channel `c` at the current instant with ratio r, and how far the library may be from it.
void Model::expect(const Offered &o, double r, double *y, double *tol, int c, double H) const {
  auto X = [&](i64 f) -> double { if (f < 0) f = 0; if (f >= o.frames()) return 0; return o.x[(size_t) f * ch + c]; };
  double peak = o.peak;
  if (type == T_ZOH) { *y = X(k - 1); *tol = 1e-7 * std::fabs(*y); return; }
  if (type == T_LINEAR) { double a = X(k - 1), b = X(k); *y = a + fr * (b - a); *tol = 2e-7 * std::fabs(*y) + 1e-7 * peak; return; }
  const float *co = type == T_FAST ? ref::fastest_coeffs.coeffs : ref::slow_mid_qual_coeffs.coeffs;
  const int hl = (type == T_FAST ? (int) (sizeof(ref::fastest_coeffs.coeffs) / 4) : (int) (sizeof(ref::slow_mid_qual_coeffs.coeffs) / 4)) - 2;
  const int inc0 = type == T_FAST ? ref::fastest_coeffs.increment : ref::slow_mid_qual_coeffs.increment;
  double fi = inc0 * (r < 1 ? r : 1.0);
  i64 inc = (i64) std::nearbyint(fi * 4096), start = (i64) std::nearbyint(fr * fi * 4096), maxi = (i64) hl << 12;
  auto coef = [&](i64 f) { i64 ix = f >> 12; double q = (f & 4095) / 4096.0; return co[ix] + q * (co[ix + 1] - co[ix]); };
  const i64 total = o.frames();
  double sum = 0, lost = 0;
  i64 cc = (maxi - start) / inc, f = start + cc * inc, d = k - cc;
  if (d < 0) { f += inc * d; d = 0; }
  for (; f >= 0; f -= inc, d++) {
    if (d >= total) continue;
    double v = coef(f) * o.x[(size_t) d * ch + c];
    sum += v;
    if ((double) (k - d) > H) lost += std::fabs(v);
  }
  f = inc - start; cc = (maxi - f) / inc; f += cc * inc; d = k + 1 + cc;
  if (d >= total) { i64 s = std::min(cc + (f > 0 ? 0 : 0), d - total + 1); if (s > 0) { f -= s * inc; d -= s; } }
  for (; f > 0; f -= inc, d--) if (d >= 0 && d < total) sum += coef(f) * o.x[(size_t) d * ch + c];
  double sc = fi / inc0;
  *y = sc * sum; *tol = 3e-5 * peak + sc * lost * 1.05;
}

void Model::call(Offered &o, i64 n_in, i64 n_out, double target, int eoi, const Res &R, const float *out) {
  (void) eoi;
  o.finish_peak(n_in);
  if (last < 1.0 / 256) last = target;   // first call of a fresh stream
  const double r0 = last;
  const bool sinc = is_sinc(type);
  const double thr = sinc ? 1e-10 : 1e-20;
  const bool ramp = std::fabs(r0 - target) > thr;
  const double rmin = std::min(r0, target);
  const double halfc = (double) half_len(type, rmin);
  const i64 B = o.consumed;              // first frame on offer
  const double TIE = 1e-7;
  if (!sinc && n_in <= 0) { if (R.gen || R.used) fail("model-count", "frames generated or used (%lld, %lld) without any input", (long long) R.gen, (long long) R.used); return; }
  double r = r0; i64 i = 0;
  // Until this instant the converter's buffer cannot have been moved down, so no history is lost.
  if (halfc > hmax) hmax = halfc;
  const i64 safe = 3 * half_len(type, 1.0 / 256) - 3 * (i64) halfc - (i64) hmax - 64;
  const double H0 = hist; const i64 k0 = k;
  auto more = [&](int &tie) { // would the law generate another frame now? (hold/line converters)
    double rel = (double) (k - B) + fr; tie = std::fabs(rel - (double) n_in) < TIE;
    return type == T_ZOH ? rel <= (double) n_in : rel < (double) n_in;
  };
  for (; i < R.gen; i++) {
    if (!sinc) { int tie; if (!more(tie) && !tie) fail("model-count", "%lld frames generated, the reference stops after %lld (instant %.9f, input ends at %lld)", (long long) R.gen, (long long) i, pos(), (long long) (B + n_in)); }
    if (ramp) r = r0 + (double) i * (target - r0) / (double) n_out;
    const double H = H0 > 1e17 ? (k < safe ? 1e18 : halfc) : std::min(H0 + (double) (k - k0), halfc);
    if (check_values) for (int c = 0; c < ch; c++) {
      double y, tol; expect(o, r, &y, &tol, c, sinc ? H : 1e18);
      double v = out[i * ch + c], e = std::fabs(v - y);
      if (!(e <= tol)) {
        bool ok = false;
        if (type != T_LINEAR && !sinc && near_integer(exact, TIE)) { // an instant exactly on a frame: either neighbour
          for (int s = -1; s <= 1 && !ok; s++) { Model m = *this; m.k += s; double y2, t2; m.expect(o, r, &y2, &t2, c, 1e18); ok = std::fabs(v - y2) <= t2; }
        }
        if (!ok) fail("model-value", "%s ch %d/%d: output frame %lld (call frame %lld of room %lld) is %.9g, reference %.9g at input instant %.9f ratio %.9g (error %.3g, tolerance %.3g)", type_name(type), c, ch, (long long) outs, (long long) i, (long long) n_out, v, y, pos(), r, e, tol);
      }
    }
    advance(1.0 / r); outs++;
  }
  if (!sinc) {
    int tie; bool m = more(tie);
    if (R.gen < n_out && m && !tie) fail("model-count", "%lld frames generated with room for %lld; the reference generates more (instant %.9f, input ends at %lld)", (long long) R.gen, (long long) n_out, pos(), (long long) (B + n_in));
    double rel = (double) (k - B) + fr; i64 want = std::min<i64>(n_in, (i64) std::floor(rel));
    i64 d = R.used - want;
    bool t2 = near_integer((long double) rel, TIE);
    if (d != 0 && !(t2 && (d == 1 || d == -1))) fail("model-used", "%lld frames used of %lld; the reference uses %lld (next instant %.9f, block starts at %lld)", (long long) R.used, (long long) n_in, (long long) want, pos(), (long long) B);
  }
  if (R.gen > 0) last = r;
  o.consume(R.used);
  hist = H0 > 1e17 ? (k < safe ? 1e18 : halfc) : std::min(H0 + (double) (k - k0), halfc);
  if (eoi && R.used == n_in) o.ended = true;
  if (sinc && !o.ended && R.gen < n_out) {
    if (n_in > 0 && R.used == 0 && R.gen == 0) fail("no-progress", "neither consumed nor generated anything with %lld frames on offer and room for %lld", (long long) n_in, (long long) n_out);
    if (R.used == n_in && (double) (o.consumed - k) > halfc + 4) fail("latency", "output withheld: %lld frames consumed, next output instant %.3f, room for %lld more, filter half-length %.0f", (long long) o.consumed, pos(), (long long) (n_out - R.gen), halfc);
  }
}

// The windowed-sinc law inside a periodic signal, at instant k + fr.
double sinc_value(int type, double r, i64 k, double fr, const float *x, i64 period, int ch, int c) {
  const float *co = type == T_FAST ? ref::fastest_coeffs.coeffs : ref::slow_mid_qual_coeffs.coeffs;
  const int hl = (type == T_FAST ? (int) (sizeof(ref::fastest_coeffs.coeffs) / 4) : (int) (sizeof(ref::slow_mid_qual_coeffs.coeffs) / 4)) - 2;
  const int inc0 = type == T_FAST ? ref::fastest_coeffs.increment : ref::slow_mid_qual_coeffs.increment;
  const double fi = inc0 * (r < 1 ? r : 1.0);
  const i64 inc = (i64) std::nearbyint(fi * 4096), start = (i64) std::nearbyint(fr * fi * 4096), maxi = (i64) hl << 12;
  auto coef = [&](i64 f) { i64 ix = f >> 12; double q = (f & 4095) / 4096.0; return co[ix] + q * (co[ix + 1] - co[ix]); };
  double sum = 0; i64 d = k % period;
  if (start >= inc) sum += coef(start - inc) * x[(size_t) ((k + 1) % period) * ch + c]; // an instant within half a step of the next frame
  for (i64 f = start; f <= maxi; f += inc) { sum += coef(f) * x[(size_t) d * ch + c]; if (--d < 0) d = period - 1; }
  d = (k + 1) % period;
  for (i64 f = inc - start; f <= maxi; f += inc) { if (f > 0) sum += coef(f) * x[(size_t) d * ch + c]; if (++d == period) d = 0; }
  return fi / inc0 * sum;
}
