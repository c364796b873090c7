// Core of the deterministic simulator: PRNG, scenarios, event log, reporting.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <unordered_map>
#include <unordered_set>

typedef int64_t i64;
typedef uint64_t u64;

inline u64 mix64(u64 z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
inline u64 hash2(u64 a, u64 b) { return mix64(a ^ mix64(b)); }
u64 hash_str(const std::string &s);

struct Rng {
  u64 s[4];
  explicit Rng(u64 seed) { for (int i = 0; i < 4; i++) s[i] = mix64(seed + 0x1234567ull * (i + 1)); }
  static u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
  u64 u() { u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r; }
  i64 below(i64 n) { return n <= 0 ? 0 : (i64) (u() % (u64) n); }
  i64 range(i64 a, i64 b) { return a + below(b - a + 1); }
  double unit() { return (double) (u() >> 11) / 9007199254740992.0; }
  bool chance(double p) { return unit() < p; }
  double logu(double a, double b) { return std::exp(std::log(a) + unit() * (std::log(b) - std::log(a))); }
  // Weighted pick of an index.
  int wpick(std::initializer_list<double> w) { double t = 0; for (double x : w) t += x; double v = unit() * t; int i = 0; for (double x : w) { if (v < x) return i; v -= x; i++; } return (int) w.size() - 1; }
};

struct Op {
  std::string k;
  std::vector<double> a;
  Op() {}
  Op(const std::string &k_, std::initializer_list<double> l) : k(k_), a(l) {}
  double d(size_t i, double def = 0) const { return i < a.size() ? a[i] : def; }
  i64 i(size_t j, i64 def = 0) const { if (j >= a.size()) return def; double v = a[j]; if (!(v > -9e15 && v < 9e15)) return def; return (i64) v; }
};

struct Scenario {
  std::string prop;
  u64 seed = 0;
  std::map<std::string, double> cfg;
  std::vector<Op> ops;
  double d(const std::string &n, double def = 0) const { auto it = cfg.find(n); return it == cfg.end() ? def : it->second; }
  i64 i(const std::string &n, i64 def = 0) const { double v = d(n, (double) def); if (!(v > -9e15 && v < 9e15)) return def; return (i64) v; }
  void op(const std::string &k, std::initializer_list<double> l) { ops.push_back(Op(k, l)); }
  std::string text() const;
  u64 shape() const;
};
std::string num_text(double v);
bool parse_scenarios(const std::string &text, std::vector<Scenario> &out, std::string *err);

struct PropDef {
  const char *id;
  const char *rule;                       // what makes a run non-trivial
  void (*gen)(Rng &, Scenario &, int tier); // seed -> scenario
  void (*exec)(const Scenario &);         // scenario -> pass or fail ()
};
void register_prop(const PropDef &p);
const PropDef *find_prop(const std::string &id);
struct PropReg { PropReg(const PropDef &p) { register_prop(p); } };

[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));

// Event log: a running hash plus (when tracing) text.
extern bool g_trace;
extern u64 g_loghash;
inline void log_mix(u64 v) { g_loghash = (g_loghash ^ v) * 0x100000001b3ull; g_loghash ^= g_loghash >> 29; }
void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
u64 hash_floats(const float *p, size_t n);

// Measured coverage of a run.
void count(const char *name, i64 n = 1);   // probes and workload counters
void fault(const char *name, i64 n = 1);   // a fault that actually fired
void state_seen(u64 h);                    // abstract state reached
extern double g_simtime;                   // simulated seconds of audio
extern bool g_nontrivial;
