#include "lib.hpp"
#ifdef SIM_ASAN
#define HAVE_ASAN 1
#include <sanitizer/asan_interface.h>
#endif
extern double g_run_simtime; extern u64 g_run_calls;
int g_fiber = 0;
i64 g_arr_off = 0; uint32_t g_poison = 0x7fa5a5a5u;

const char *type_name(int t) { switch (t) { case T_MEDIUM: return "sinc-medium"; case T_FAST: return "sinc-fastest"; case T_ZOH: return "zoh"; case T_LINEAR: return "linear"; } return "?"; }
i64 half_len(int type, double rmin) {
  if (!is_sinc(type)) return 1;
  double c = type == T_FAST ? 2464.0 / 128 : 22438.0 / 491;
  if (rmin < 1) c /= rmin;
  return (i64) std::nearbyint(c) + 1;
}
double taps_per_frame(int type, double r) { return is_sinc(type) ? 2.0 * half_len(type, r) : 1.0; }

bool err_is(int code, const char *doc) { const char *t = src_strerror(code); return t && !strcmp(t, doc); }

static inline double unit_hash(u64 h) { return (double) (mix64(h) >> 11) / 9007199254740992.0 * 2 - 1; }
float signal_at(u64 seed, int kind, double peak, int c, i64 f) {
  double v = 0; u64 s = hash2(seed, (u64) c + 1000);
  switch (kind) {
    case 0: v = unit_hash(s + (u64) f * 0x9e3779b97f4a7c15ull); break;                         // white noise
    case 1: { double w = 0.01 + 0.4 * ((s & 1023) / 1024.0), ph = ((s >> 10) & 1023) / 1024.0; v = std::sin(6.283185307179586 * (w * (double) f + ph)); break; } // sine
    case 2: v = ((mix64(s + f) & 63) == 0) ? 1.0 : 0.0; break;                                  // sparse impulses
    case 3: v = ((f / (1 + (i64) (s % 97))) & 1) ? 1.0 : -1.0; break;                           // square
    case 4: { i64 per = 1000 + (i64) (s % 3000); v = (double) (f % per) / (double) per * 2 - 1; break; } // sawtooth
    case 5: v = 1.0 - 0.5 * ((s & 7) / 8.0); break;                                             // DC
    case 6: v = ((f / 500) & 1) ? unit_hash(s + f * 31) : 0; break;                             // bursts
    case 7: v = 0.5 * unit_hash(s + f * 31) + 0.5 * std::sin(0.05 * (double) f); break;
    case 8: { i64 on = 40 + (i64) (mix64(seed + 1) % 7000), off = 200 + (i64) (mix64(seed + 2) % 20000); v = f % (on + off) < on ? unit_hash(s + f * 31) : 0; break; } // long digital silence in every channel
    case 9: v = f < (i64) (10 + mix64(seed + 3) % 18000) ? 0 : unit_hash(s + f * 31); break;   // starts with silence
    case 10: v = f < (i64) (10 + mix64(seed + 4) % 6000) ? unit_hash(s + f * 31) : 0; break;   // ends in silence
    default: v = ((f / (16 + (i64) (mix64(seed + 5) % 200))) % 3) ? 0 : unit_hash(s + f * 31); break; // short pauses in every channel
  }
  return (float) (v * peak);
}
Signal make_signal(u64 seed, int kind, double peak, int ch, i64 n) {
  Signal s; s.ch = ch; s.n = n; s.peak = peak; s.x.resize((size_t) n * ch);
  for (i64 f = 0; f < n; f++) for (int c = 0; c < ch; c++) s.x[f * ch + c] = signal_at(seed, kind, peak, c, f);
  return s;
}

FArr::FArr(size_t n_) : n(n_) {
  off = (size_t) (g_arr_off & 15);
#ifdef HAVE_ASAN
  base = (char *) malloc((off + n) * 4 ? (off + n) * 4 : 1);
  p = (float *) base + off;
  if (off) ASAN_POISON_MEMORY_REGION(base, off * 4);
  if (off + n == 0) ASAN_POISON_MEMORY_REGION(base, 1);
#else
  base = (char *) malloc((off + n + 16) * 4 + 64);
  memset(base, 0xB7, 64 + off * 4);
  p = (float *) (base + 64) + off;
  memset(p + n, 0xB7, 64);
#endif
  if (g_on_fresh) g_on_fresh(p, n * 4);
}
FArr::~FArr() {
  if (!base) return;
#ifdef HAVE_ASAN
  if (off) ASAN_UNPOISON_MEMORY_REGION(base, off * 4);
  if (off + n == 0) ASAN_UNPOISON_MEMORY_REGION(base, 1);
#else
  memset(p, 0x7f, n * 4);
#endif
  free(base);
}
void FArr::check(const char *what) const {
#ifndef HAVE_ASAN
  const unsigned char *a = (const unsigned char *) base, *b = (const unsigned char *) (p + n);
  for (size_t i = 0; i < 64 + off * 4; i++) if (a[i] != 0xB7) fail("overrun", "memory before the %s array was written", what);
  for (size_t i = 0; i < 64; i++) if (b[i] != 0xB7) fail("overrun", "memory after the %s array was written", what);
#endif
  (void) what;
}

static int next_owner() { static int k = 0; return ++k; }   // names only; never influences a run

// A converter may fill, copy or clear its history element by element.
static double store(int t, int c) { return is_sinc(t) ? 3.0 * half_len(t, 1.0 / 256) * std::max(1, c) : 64.0 * std::max(1, c); }
static u64 ctl_limit(int t, int c) { return (u64) (4000000 + 40.0 * store(t, std::min(c, 1 << 20))); }
static void note_call(const char *what) { g_run_calls++; (void) what; }

bool Conv::create(int t, int c, int *err, bool pass_err) {
  type = t; ch = c; cb = false; owner = next_owner(); rlo = rhi = 0;
  OwnerScope os(owner); StepScope ss(ctl_limit(type, ch));
  int e = -12345;
  st = src_new(t, c, pass_err ? &e : nullptr);
  ss.close(); note_call("new");
  if (pass_err) { if (st && e != 0) fail("new-error", "src_new returned a converter and error %d", e); if (!st && (e == 0 || e == -12345)) fail("new-error", "src_new returned NULL and error %d", e); }
  if (err) *err = e;
  log_mix(st != nullptr); log_mix(e);
  trace("new conv=%s ch=%d -> %s err=%d", type_name(t), c, st ? "ok" : "NULL", e);
  return st != nullptr;
}
static const u64 HUB_MAGIC = 0x68756221c0ffee11ull;
static long tramp(void *u, float **data) {
  Hub *h = (Hub *) u;
  if (!h || h->magic != HUB_MAGIC) fail("callback-args", "the callback was called with the wrong user data");
  if (!h->cur()) fail("callback-unexpected", "the callback was called outside a read");
  return (long) h->cur()->next(data);
}
bool Conv::create_cb(Pull *pull_, int t, int c, int *err, bool pass_err) {
  hub = std::make_shared<Hub>(); hub->magic = HUB_MAGIC; pull = pull_;
  type = t; ch = c; cb = true; owner = next_owner(); rlo = rhi = 0;
  OwnerScope os(owner); StepScope ss(ctl_limit(type, ch));
  int e = -12345;
  st = src_callback_new(tramp, t, c, pass_err ? &e : nullptr, hub.get());
  ss.close(); note_call("cbnew");
  if (pass_err) { if (st && e != 0) fail("new-error", "src_callback_new returned a converter and error %d", e); if (!st && (e == 0 || e == -12345)) fail("new-error", "src_callback_new returned NULL and error %d", e); }
  if (err) *err = e;
  log_mix(st != nullptr); log_mix(e);
  trace("callback_new conv=%s ch=%d -> %s err=%d", type_name(t), c, st ? "ok" : "NULL", e);
  return st != nullptr;
}
bool Conv::clone_from(Conv &o, int *err, bool pass_err) {
  type = o.type; ch = o.ch; cb = o.cb; hub = o.hub; pull = o.pull; owner = next_owner(); rlo = o.rlo; rhi = o.rhi;
  OwnerScope os(owner); StepScope ss(ctl_limit(type, ch));
  int e = -12345;
  st = src_clone(o.st, pass_err ? &e : nullptr);
  ss.close(); note_call("clone");
  if (pass_err) { if (st && e != 0) fail("clone-error", "src_clone returned a converter and error %d", e); if (!st && (e == 0 || e == -12345)) fail("clone-error", "src_clone returned NULL and error %d", e); }
  if (st && st == o.st) fail("clone-alias", "src_clone returned its argument");
  if (err) *err = e;
  log_mix(st != nullptr); log_mix(e);
  trace("clone -> %s err=%d", st ? "ok" : "NULL", e);
  return st != nullptr;
}
void Conv::destroy() {
  if (!st) return;
  OwnerScope os(owner); StepScope ss(ctl_limit(type, ch));
  SRC_STATE *r = src_delete(st);
  ss.close(); note_call("delete"); st = nullptr;
  if (r) fail("delete-result", "src_delete returned a non-NULL pointer");
  i64 left = alloc_owned_by(owner);
  trace("delete");
  if (left) fail("leak", "%lld block(s) of a deleted converter were not released", (long long) left);
}
int Conv::reset() {
  OwnerScope os(owner); StepScope ss(ctl_limit(type, ch));
  int e = src_reset(st);
  ss.close(); note_call("reset"); rlo = rhi = 0;
  if (e) fail("reset-error", "src_reset returned %d", e);
  log_mix(0x5e5e7); trace("reset");
  return e;
}
int Conv::set_ratio(double r) {
  OwnerScope os(owner); StepScope ss(ctl_limit(type, ch));
  int e = src_set_ratio(st, r);
  ss.close(); note_call("set_ratio");
  if (!e) rlo = rhi = r;
  log_mix(e); trace("set_ratio %.17g -> %d", r, e);
  return e;
}
int Conv::error() { return src_error(st); }
int Conv::channels() { return src_get_channels(st); }

void Conv::cost(double steps, double moved, double w, double io, double requests) {
  // Over a whole stream, and over any window of calls (so that earlier heavy work hides nothing), the work stays in
  // proportion to what was converted (measured on the shipped code: below 4.5 blocks per unit).  The history a converter
  // keeps may be moved once in a while, and near the lowest ratio, where it hardly fits its buffer, at every call.
  double buffer = 4.0 * store(type, ch);
  double tight = is_sinc(type) && rlo > 0 && half_len(type, rlo) * 3.4 > half_len(type, 1.0 / 256) * 3.0 ? 10.0 * half_len(type, rlo) * ch : 0;
  for (Work *t : {&whole, &window}) {
    t->calls++; t->io += io; t->w += w; t->steps += steps; t->moved += moved; t->allow += tight * requests;
    if (t->steps > 12 * (100 * t->calls + t->w) + 20000 + 0.75 * (6 * buffer + t->allow)) fail("slow", "%.0f calls that used and generated %.0f frames executed %.0f blocks", t->calls, t->io, t->steps);
    if (t->moved > 24 * (100 * t->calls + 4.0 * ch * t->io) + 6 * buffer + t->allow + 20000) fail("slow", "%.0f calls that used and generated %.0f frames copied or cleared %.0f bytes", t->calls, t->io, t->moved);
  }
  if (window.calls >= 200) window = Work();
}
// Blocks a call may execute: a generous multiple of the work it can have to do.
static u64 budget(const Conv &c, i64 n_in, i64 n_out, double r) {
  double lo = c.rlo > 0 ? std::min(c.rlo, r) : r, hi = c.rhi > 0 ? std::max(c.rhi, r) : r;
  if (!(lo > 0.003)) lo = 0.0039; if (!(hi < 257)) hi = 256;
  double outs = std::min((double) n_out, ((double) n_in + 60000.0) * hi + 100);
  double w = outs * (taps_per_frame(c.type, lo) + 10) * c.ch + (double) std::min<i64>(n_in, 2000000) * c.ch;
  return (u64) (40000 + 40.0 * (w + store(c.type, c.ch)));
}

Res Conv::process(const float *in, i64 n_in, i64 n_out, double ratio, int eoi, std::vector<float> *out, int flags) {
  Res R; calls++; note_call("process");
  OwnerScope os(owner);
  size_t ni = (size_t) n_in * ch, no = (size_t) n_out * ch;
  FArr fi(ni), fo(no);
  if (ni) memcpy(fi.p, in, ni * 4);
  for (size_t i = 0; i < no; i++) memcpy(fo.p + i, &g_poison, 4);
  SRC_DATA d; memset(&d, 0, sizeof d);
  d.data_in = (n_in == 0 && (flags & P_NULLIN)) ? nullptr : fi.p;
  d.data_out = (n_out == 0 && (flags & P_NULLOUT)) ? nullptr : fo.p;
  d.input_frames = n_in; d.output_frames = n_out; d.src_ratio = ratio; d.end_of_input = eoi;
  d.input_frames_used = -777; d.output_frames_gen = -777;
  long neg = -1 - (long) ((calls * 7919) & 0xffff); bool ngi = n_in == 0 && (flags & P_NEG), ngo = n_out == 0 && (flags & P_NEG); if (ngi) d.input_frames = neg; if (ngo) d.output_frames = neg;
  if (ngi || ngo) fault("negative frame count");
  const float *pi = d.data_in; float *po = d.data_out;
  StepScope ss(budget(*this, n_in, n_out, ratio));
  R.err = src_process(st, &d);
  u64 steps = ss.close(), moved = ss.moved;
  if (d.data_in != pi || d.data_out != po || (d.input_frames != n_in && !(ngi && d.input_frames == neg)) || (d.output_frames != n_out && !(ngo && d.output_frames == neg)) || d.end_of_input != eoi || memcmp(&d.src_ratio, &ratio, 8)) fail("request-modified", "src_process modified the request fields");
  if (ni && memcmp(fi.p, in, ni * 4)) fail("input-modified", "src_process modified the input array");
  fi.check("input"); fo.check("output");
  if (R.err) {
    if (!(flags & P_NOCHECK)) fail("process-error", "src_process returned %d (%s) for a valid request: in=%lld out=%lld ratio=%.17g eoi=%d", R.err, src_strerror(R.err) ? src_strerror(R.err) : "?", (long long) n_in, (long long) n_out, ratio, eoi);
    for (size_t i = 0; i < no; i++) if (memcmp(fo.p + i, &g_poison, 4)) fail("refused-wrote", "a refused src_process call wrote output");
    log_mix(R.err); trace("process in=%lld out=%lld ratio=%.17g eoi=%d -> err %d", (long long) n_in, (long long) n_out, ratio, eoi, R.err);
    return R;
  }
  R.used = d.input_frames_used; R.gen = d.output_frames_gen;
  if (R.used < 0 || R.used > n_in) fail("bad-used", "input_frames_used=%lld of %lld supplied", (long long) R.used, (long long) n_in);
  if (R.gen < 0 || R.gen > n_out) fail("bad-gen", "output_frames_gen=%lld, room for %lld", (long long) R.gen, (long long) n_out);
  size_t ng = (size_t) R.gen * ch;
  for (size_t i = 0; i < ng; i++) if (!memcmp(fo.p + i, &g_poison, 4)) fail("not-written", "output frame %zu of %lld reported as generated was not written", i / ch, (long long) R.gen);
  for (size_t i = ng; i < no; i++) if (memcmp(fo.p + i, &g_poison, 4)) fail("wrote-past", "output frame %zu was written, only %lld reported as generated", i / ch, (long long) R.gen);
  // Work in proportion to what was achieved.
  {
    double lo = rlo > 0 ? std::min(rlo, ratio) : ratio;
    double w = (double) R.gen * (taps_per_frame(type, lo) + 10) * ch + (double) R.used * ch + 50.0 * ch;
    if ((double) steps > 40000 + 40.0 * w + 4 * store(type, ch)) fail("slow", "a call that used %lld and generated %lld frames executed %llu blocks", (long long) R.used, (long long) R.gen, (unsigned long long) steps);
    rlo = lo; rhi = rhi > 0 ? std::max(rhi, ratio) : ratio;
    cost((double) steps, (double) moved, w - 50.0 * ch, (double) (R.gen + R.used), 1);
  }
  total_used += R.used; total_gen += R.gen;
  g_run_simtime += (double) R.gen / 48000.0;
  if (out) out->insert(out->end(), fo.p, fo.p + ng);
  log_mix((u64) R.used); log_mix((u64) R.gen); log_mix(hash_floats(fo.p, ng));
  trace("process in=%lld out=%lld ratio=%.17g eoi=%d -> used=%lld gen=%lld", (long long) n_in, (long long) n_out, ratio, eoi, (long long) R.used, (long long) R.gen);
  return R;
}

i64 Conv::read(double ratio, i64 frames, std::vector<float> *out) {
  calls++; note_call("read");
  OwnerScope os(owner);
  size_t no = frames > 0 ? (size_t) frames * ch : 0;
  FArr fo(no);
  for (size_t i = 0; i < no; i++) memcpy(fo.p + i, &g_poison, 4);
  StepScope ss(budget(*this, 100000, frames > 0 ? frames : 0, (ratio >= 0.0039 && ratio <= 256) ? ratio : 1.0) + 40000000);
  Pull *was = hub ? hub->cur() : nullptr; if (hub) hub->cur() = pull;
  i64 pos0 = pull ? pull->pos : 0, calls0 = pull ? pull->calls : 0;
  long g = src_callback_read(st, ratio, (long) frames, fo.p);
  if (hub) hub->cur() = was;
  u64 steps = ss.close(), moved = ss.moved;
  fo.check("output");
  if (g < 0 || g > std::max<i64>(frames, 0)) fail("bad-gen", "src_callback_read returned %ld for %lld requested", g, (long long) frames);
  size_t ng = (size_t) g * ch;
  for (size_t i = 0; i < ng; i++) if (!memcmp(fo.p + i, &g_poison, 4)) fail("not-written", "frame %zu of %ld reported as delivered was not written", i / ch, g);
  if (src_error(st) == 0) for (size_t i = ng; i < no; i++) if (memcmp(fo.p + i, &g_poison, 4)) fail("wrote-past", "frame %zu was written, only %ld reported as delivered", i / ch, g);
  if (ratio >= 1.0 / 256 && ratio <= 256 && frames > 0) { rlo = rlo > 0 ? std::min(rlo, ratio) : ratio; rhi = rhi > 0 ? std::max(rhi, ratio) : ratio; }
  if (pull && frames > 0 && rlo > 0) { double used = (double) std::max<i64>(0, pull->pos - pos0); double n = (double) (pull->calls - calls0); whole.calls += n; window.calls += n; cost((double) steps, (double) moved, (double) g * (taps_per_frame(type, rlo) + 10) * ch + used * ch, (double) g + used, n + 1); }
  total_gen += g; g_run_simtime += (double) g / 48000.0;
  if (out) out->insert(out->end(), fo.p, fo.p + ng);
  log_mix((u64) g); log_mix(hash_floats(fo.p, ng));
  trace("read frames=%lld ratio=%.17g -> %ld", (long long) frames, ratio, g);
  return g;
}

int simple(const float *in, i64 n_in, i64 n_out, double ratio, int type, int ch, Res &R, std::vector<float> &out, int eoi_before) {
  note_call("simple");
  int owner = next_owner(); OwnerScope os(owner);
  size_t ni = (size_t) n_in * ch, no = (size_t) n_out * ch;
  FArr fi(ni), fo(no);
  if (ni) memcpy(fi.p, in, ni * 4);
  for (size_t i = 0; i < no; i++) memcpy(fo.p + i, &g_poison, 4);
  SRC_DATA d; memset(&d, 0, sizeof d);
  d.data_in = fi.p; d.data_out = fo.p; d.input_frames = n_in; d.output_frames = n_out; d.src_ratio = ratio; d.end_of_input = eoi_before;
  Conv dummy; dummy.type = type; dummy.ch = ch;
  StepScope ss(budget(dummy, n_in, n_out, ratio));
  R.err = src_simple(&d, type, ch);
  ss.close();
  if (alloc_owned_by(owner)) fail("leak", "src_simple left %lld block(s) allocated", (long long) alloc_owned_by(owner));
  if (ni && memcmp(fi.p, in, ni * 4)) fail("input-modified", "src_simple modified the input array");
  fi.check("input"); fo.check("output");
  log_mix(R.err);
  trace("simple in=%lld out=%lld ratio=%.17g -> err=%d used=%ld gen=%ld", (long long) n_in, (long long) n_out, ratio, R.err, R.err ? -1 : d.input_frames_used, R.err ? -1 : d.output_frames_gen);
  if (R.err) { for (size_t i = 0; i < no; i++) if (memcmp(fo.p + i, &g_poison, 4)) fail("refused-wrote", "a failed src_simple call wrote output"); return R.err; }
  R.used = d.input_frames_used; R.gen = d.output_frames_gen;
  if (R.used < 0 || R.used > n_in) fail("bad-used", "src_simple used %lld of %lld", (long long) R.used, (long long) n_in);
  if (R.gen < 0 || R.gen > n_out) fail("bad-gen", "src_simple generated %lld, room for %lld", (long long) R.gen, (long long) n_out);
  size_t ng = (size_t) R.gen * ch;
  for (size_t i = ng; i < no; i++) if (memcmp(fo.p + i, &g_poison, 4)) fail("wrote-past", "src_simple wrote past the generated frames");
  g_run_simtime += (double) R.gen / 48000.0;
  out.insert(out.end(), fo.p, fo.p + ng);
  log_mix((u64) R.used); log_mix((u64) R.gen); log_mix(hash_floats(fo.p, ng));
  return 0;
}

void Pull::check_block() {
  if (!cur) return;
  cur->check("callback block");
  if (cur_frames > 0 && memcmp(cur->p, &sig->x[(size_t) cur_start * ch], (size_t) cur_frames * ch * 4)) fail("block-modified", "the library modified a block supplied by the callback");
}
void Pull::drop() { cur.reset(); kept.clear(); }
void Pull::fork(const Pull &o) {
  sig = o.sig; pos = o.pos; ch = o.ch; plan = o.plan; reclaim = o.reclaim; leave_ptr_at_end = o.leave_ptr_at_end; limit = o.limit;
  calls = o.calls; last_ret = o.last_ret; saw_end = o.saw_end; cur = o.cur; cur_frames = o.cur_frames; cur_start = o.cur_start; kept = o.kept; anslog = o.anslog;
}
i64 Pull::next(float **data) {
  OwnerScope os(0);
  if (!allowed) fail("callback-unexpected", "the callback was called outside a valid read");
  if (!data) fail("callback-args", "the callback was called with a NULL data argument");
  calls++; calls_this_read++;
  if (calls_this_read > max_calls_this_read) fail("callback-flood", "one read made %lld callback calls", (long long) calls_this_read);
  if (evil) { check_block(); cur.reset(); cur_frames = 0; i64 e = evil(data); log_mix(0xE7); trace("  faulty callback -> %lld", (long long) e); return e; }
  if (on_call) on_call();
  check_block();
  if (cur) { if (!reclaim) kept.push_back(cur); cur.reset(); }
  i64 left = (limit >= 0 ? std::min(limit, sig->n) : sig->n) - pos, want = plan ? plan(calls - 1, left) : left;
  if (want > left) want = left;
  last_ret = want; anslog = hash2(anslog, (u64) want);
  log_mix(0xCB); log_mix((u64) want);
  if (want <= 0) { saw_end = true; trace("  callback -> %lld", (long long) want); if (!leave_ptr_at_end) { cur = std::make_shared<FArr>(0); cur_frames = 0; cur_start = pos; *data = cur->p; } return want; }
  cur = std::make_shared<FArr>((size_t) want * ch); memcpy(cur->p, &sig->x[(size_t) pos * ch], (size_t) want * ch * 4);
  cur_frames = want; cur_start = pos;
  if (record_given) given.insert(given.end(), cur->p, cur->p + want * ch);
  pos += want; *data = cur->p;
  trace("  callback -> %lld", (long long) want);
  return want;
}

bool same_bits(const float *a, const float *b, size_t n) { return n == 0 || memcmp(a, b, n * 4) == 0; }
i64 first_diff(const std::vector<float> &a, const std::vector<float> &b, size_t n) { for (size_t i = 0; i < n; i++) if (memcmp(&a[i], &b[i], 4)) return (i64) i; return -1; }
