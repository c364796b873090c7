// Guarded call layer: every call into the library made by any simulated client goes through here.
#pragma once
#include <cerrno>
#include <cfenv>
#include "seam.hpp"
#include <samplerate.h>
#include <memory>

enum { T_MEDIUM = SRC_SINC_MEDIUM_QUALITY, T_FAST = SRC_SINC_FASTEST, T_ZOH = SRC_ZERO_ORDER_HOLD, T_LINEAR = SRC_LINEAR };
inline bool is_sinc(int t) { return t == T_FAST || t == T_MEDIUM; }
const char *type_name(int t);
// Filter half-length in input frames for the smallest ratio used (what the converter has to look ahead).
i64 half_len(int type, double rmin);
double taps_per_frame(int type, double r);

// ---- error codes, by the documented text (numbers are private to the library) ----
bool err_is(int code, const char *documented);
#define E_MALLOC "Malloc failed."
#define E_STATE "SRC_STATE pointer is NULL."
#define E_DATA "SRC_DATA pointer is NULL."
#define E_PTR "SRC_DATA->data_out or SRC_DATA->data_in is NULL."
#define E_RATIO "SRC ratio outside [1/256, 256] range."
#define E_CONV "Bad converter number."
#define E_CHAN "Channel count must be >= 1."
#define E_OVERLAP "Input and output data arrays overlap."
#define E_CALLBACK "Supplied callback function pointer is NULL."
#define E_MODE "Calling mode differs from initialisation mode (ie process v callback)."

// ---- signals ----
float signal_at(u64 seed, int kind, double peak, int c, i64 f);
struct Signal { int ch = 1; i64 n = 0; double peak = 1; std::vector<float> x; };
Signal make_signal(u64 seed, int kind, double peak, int ch, i64 n);

// ---- exactly sized arrays ----
extern i64 g_arr_off;      // element offset of arrays (alignment)
struct FArr {
  float *p = nullptr; size_t n = 0; char *base = nullptr; size_t off = 0;
  FArr() {}
  explicit FArr(size_t n_);
  FArr(const FArr &) = delete; FArr &operator=(const FArr &) = delete;
  ~FArr();
  void check(const char *what) const;   // canaries (build without AddressSanitizer)
};
extern uint32_t g_poison;  // initial content of output arrays

struct Res { int err = 0; i64 used = 0, gen = 0; };
enum { P_NULLIN = 1, P_NULLOUT = 2, P_NOCHECK = 4, P_NEG = 8 };   // P_NEG: empty means a negative count

struct Pull;
// What the library gets as user data: the identity is checked on every callback.
extern int g_fiber;            // simulated thread now running (0: the only one)
struct Hub { u64 magic = 0; Pull *slot[9] = {}; Pull *&cur() { return slot[g_fiber]; } };
struct OwnerScope { int saved; explicit OwnerScope(int o) : saved(g_alloc.owner) { g_alloc.owner = o; if (g_errno >= 0) { errno = g_errno; feclearexcept(FE_ALL_EXCEPT); if (g_errno & 1) feraiseexcept(FE_INVALID | FE_INEXACT | FE_OVERFLOW); } } ~OwnerScope() { g_alloc.owner = saved; } };
struct Conv {
  SRC_STATE *st = nullptr; int type = 0, ch = 1, owner = 0; bool cb = false;
  double rlo = 0, rhi = 0;                // bounds of the current ratio, for step budgets (0: fresh)
  i64 calls = 0, total_used = 0, total_gen = 0;
  struct Work { double w = 0, io = 0, calls = 0, steps = 0, moved = 0, allow = 0; } whole, window;   // what the calls achieved, and what they cost: since creation, and lately
  void cost(double steps, double moved, double w, double io, double requests);
  std::shared_ptr<Hub> hub; Pull *pull = nullptr;   // callback mode: shared by clones / the source of this one
  Conv() {}
  Conv(const Conv &) = delete; Conv &operator=(const Conv &) = delete;
  ~Conv() {}                              // deletion is explicit: it is an event of the simulation
  bool create(int type, int ch, int *err = nullptr, bool pass_err = true);
  bool create_cb(Pull *pull, int type, int ch, int *err = nullptr, bool pass_err = true);
  bool clone_from(Conv &o, int *err = nullptr, bool pass_err = true);
  void destroy();
  int reset();
  int set_ratio(double r);
  int error();
  int channels();
  Res process(const float *in, i64 n_in, i64 n_out, double ratio, int eoi, std::vector<float> *out, int flags = 0);
  // Returns frames delivered (appended to out).
  i64 read(double ratio, i64 frames, std::vector<float> *out);
};
// One-shot interface.
int simple(const float *in, i64 n_in, i64 n_out, double ratio, int type, int ch, Res &r, std::vector<float> &out, int eoi_before = 0);

// A pull source: hands out a signal in blocks and watches the library's manners.
struct Pull {
  const Signal *sig = nullptr; i64 pos = 0; int ch = 1;
  std::function<i64(i64 callno, i64 left)> plan;     // frames to deliver (clamped to what is left); <= 0 passed through
  std::function<void()> on_call;
  std::function<i64(float **)> evil;                 // a source that breaks its promise
  bool reclaim = true;           // free the previous block as soon as the next is requested
  bool leave_ptr_at_end = true;  // do not touch *data when returning <= 0
  bool allowed = false;          // a read is in progress
  i64 calls = 0, calls_this_read = 0; i64 last_ret = 1; bool saw_end = false;
  i64 max_calls_this_read = (i64) 1 << 60;
  std::shared_ptr<FArr> cur; i64 cur_frames = 0, cur_start = 0;
  std::vector<std::shared_ptr<FArr>> kept;
  i64 limit = -1;                // the source ends here (-1: at the end of the signal)
  void fork(const Pull &o);      // the same source at the same point (blocks in flight are shared)
  u64 anslog = 0;                // hash of all answers given
  std::vector<float> given;      // everything handed out
  bool record_given = false;
  i64 next(float **data);
  void check_block();
  void drop();
  Pull() {}
  Pull(const Pull &) = delete;
  ~Pull() { drop(); }
};

bool same_bits(const float *a, const float *b, size_t n);
i64 first_diff(const std::vector<float> &a, const std::vector<float> &b, size_t n);
