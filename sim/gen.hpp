// Shared pieces of the scenario generators.
#pragma once
#include "model.hpp"

int gen_type(Rng &r);
int gen_channels(Rng &r, int type);
double gen_ratio(Rng &r);
// Converter, channels, signal and stream length within a work budget (taps); ratio-dependent.
// Sets cfg conv, ch, sig, kind, peak, n.
void gen_stream(Rng &r, Scenario &s, double work, double ratio, double rlo = 0);
// A size distribution for one run (swarm style): each run prefers a few size classes.
struct Sizes { double w[7]; i64 scale; i64 pick(Rng &r) const; };
Sizes gen_sizes(Rng &r, i64 scale);
// Normalised access used by executors (total on any value).
int cfg_type(const Scenario &s, const char *k = "conv");
int cfg_ch(const Scenario &s, int type, const char *k = "ch");
double ok_ratio(double v);
void spice(Signal &z, i64 every, u64 seed);
void gen_spice(Rng &r, Scenario &s, double p);
Signal cfg_signal(const Scenario &s, int ch, i64 n);
i64 clampi(double v, i64 lo, i64 hi);

// Compare two outputs of the same stream obtained under different schedules.
// exact: bit-identical wanted.  Returns index of the first unacceptable sample or -1.
i64 compare_streams(const std::vector<float> &a, const std::vector<float> &b, int type, int ch, double ratio, double peak, bool constant);
void require_same_stream(const char *cls, const char *what, const std::vector<float> &a, const std::vector<float> &b, int type, int ch, double ratio, double peak, bool check_count, i64 n_input);
// Feed everything with end of input until the converter has nothing more to give.
void gen_drop(Rng &r, Scenario &s, const std::function<void(i64 in, i64 room, double ratio)> &push, const std::function<void(double)> &set);
bool gen_edge(Rng &r, Scenario &s, double ratio, double work, const std::function<void(i64 in, i64 room)> &push);
void one_shot(int type, int ch, const Signal &sig, double ratio, std::vector<float> &out);
// Upper bound on frames a constant-ratio conversion can give.
i64 out_bound(i64 n, double ratio);
u64 state_key(int type, int ch, double ratio, i64 phase, i64 a, i64 b);
i64 bucket(double v);
