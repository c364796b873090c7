// One stream and its client as a replayable actor: used wherever a run is compared with a twin.
#pragma once
#include "gen.hpp"

// What one operation of a session did, as observed by the client.
struct Obs { int err = 0; i64 used = 0, gen = 0, cbcalls = 0; u64 outhash = 0, ans = 0; int serr = 0; };

struct Sess {
  Conv c; int type = 0, ch = 1; bool cb = false; const Signal *sig = nullptr;
  i64 off = 0, endpos = -1;      // push: next frame to offer; where the client ended the stream
  double lo = 0;                 // lowest ratio since the stream began
  Pull pull; i64 blk = 64; int style = 0; u64 salt = 1;
  std::vector<float> last;       // frames of the last operation
  double work = 0;               // taps executed so far (keeps runs bounded)
  Sess() {}
  Sess(const Sess &) = delete;
  void setup(const Scenario &s, const Signal *sig_, const std::string &sfx = ""); // conv/ch/cb/blk/style/salt from the configuration
  bool open(int *err = nullptr);                     // create the converter
  void rewind();                                     // the source starts again from the beginning
  bool clone_from(Sess &o, int *err = nullptr);      // a clone with its own source at the same point
  void close() { c.destroy(); pull.drop(); }
  Obs march(const Op &op);
  Obs run(const Op &op);                             // one operation
};
// Operations: p in out ratio flags   (flags bit 0: the stream ends with this block; 1: NULL pointer when empty)
//                               (4: an empty side is passed as a negative count)
//             s ratio                src_set_ratio
//             r                      src_reset (the source restarts)
//             b kind                 a call that is refused
//             t in room ratio count flags  very many small calls (flags: 1 the ratio wobbles, 2 some without input, 4 some without room, 8 NULL when empty, 16 and 32 long standstills of the source, of the sink)
struct TrafficOpts { double vary = 0.5, resets = 0.03, ends = 0.04, sets = 0.05; int min_ops = 2, max_ops = 60; bool cb = true; double cbp = 0.35; double wrap = 0.1; bool rechoose = false; double bads = 0; double march = 0.02; };
void gen_traffic(Rng &r, Scenario &s, double work, const TrafficOpts &o);
void gen_march(Rng &r, Scenario &s, double ratio, i64 from);
bool traffic_op(const Op &o);
void gen_range2(Rng &r, double &lo, double &hi);
double next_ratio(Rng &r, double cur, int mood, double lo, double hi);

// Fail if two observations of the same operation differ.
enum { CMP_NOCB = 1, CMP_NOSERR = 2 };
void require_same(const char *cls, const char *what, const Op &op, i64 index, const Obs &a, const Obs &b, int flags = 0);
void bad_call(Sess &s, int kind);   // a call that must be refused (or is empty); only disturbs
double bad_ratio(i64 k);
// A read whose source delivers a NULL or overlapping block: refused, and after a reset forgotten.  True if the source was asked.
bool faulty_source(Sess &s, int kind, u64 salt);
