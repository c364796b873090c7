// Executable reference model of the documented conversion law (DESIGN.md section 3).
#pragma once
#include "lib.hpp"

// A stream as the converter has been offered it: consumed frames, then what is on offer.
struct Offered {
  int ch = 1; std::vector<float> x; i64 consumed = 0; bool ended = false; double peak = 0;
  // Place the block of the current call after the consumed frames.
  void offer(const float *p, i64 n) { x.resize((size_t) consumed * ch); x.insert(x.end(), p, p + (size_t) n * ch); }
  i64 frames() const { return (i64) x.size() / ch; }
  void consume(i64 n) { consumed += n; }
  void finish_peak(i64 n) { for (size_t i = x.size() - (size_t) n * ch; i < x.size(); i++) { double a = std::fabs(x[i]); if (a > peak) peak = a; } }
};

struct Model {
  int type = 0, ch = 1;
  double last = 0;        // ratio reached (0: none yet)
  i64 k = 0; double fr = 0; // instant of the next output frame, k + fr
  long double exact = 0;  // the same, summed with more precision
  double hist = 1e18;     // input frames of history certainly still available
  double hmax = 0;
  bool check_values = true;
  double worst = 0;       // largest error / tolerance seen
  i64 outs = 0;
  void init(int t, int c) { *this = Model(); type = t; ch = c; }
  void reset() { int t = type, c = ch; bool v = check_values; *this = Model(); type = t; ch = c; check_values = v; }
  void set_ratio(double r) { last = r; }
  double pos() const { return (double) k + fr; }
  void advance(double step);
  // Check what one src_process call did; the block on offer must already be in `o`.
  // out: the frames it generated.
  void call(Offered &o, i64 n_in, i64 n_out, double target, int eoi, const Res &r, const float *out);
  void expect(const Offered &o, double r, double *y, double *tol, int chan, double H) const;
};
// Exact instant of output i at a constant ratio, and whether it is (nearly) an integer.
bool near_integer(long double v, long double eps);
double sinc_value(int type, double r, i64 k, double fr, const float *x, i64 period, int ch, int c);
