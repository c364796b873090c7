// Seams between the library and the simulator: allocator, environment, executed blocks.
#pragma once
#include "core.hpp"
typedef uint32_t u32;
static const u32 SEAM_EDGES = 1u << 16;
void seam_shared(unsigned char *edges);
const unsigned char *seam_edges();
void seam_reset();   // before a run
void seam_finish();  // after a run
void core_account(double simtime, u64 steps, u64 calls);

// ---- allocator ----
enum FillMode { FILL_SEEDED = 0, FILL_ZERO, FILL_ONES, FILL_NAN, FILL_BIG, FILL_RECYCLE };
struct AllocSeam {
  // configuration
  int fill = FILL_SEEDED; u64 fillseed = 1; i64 place = 0;   // place: front offset of blocks (16-byte units)
  i64 fail_at = 0;      // the n-th allocation from now fails (1 = next)
  bool fail_forever = false; // ... and all later ones
  i64 fail_mask = 0;    // bit i: the i-th allocation from now fails
  i64 since = 0;        // allocations since the plan was set
  i64 fired = 0;        // failures injected since the plan was set
  int owner = 0;        // who is allocating / freeing now
  // ledger
  i64 live = 0, live_bytes = 0, total = 0, seq = 0;
  void plan(i64 at, bool forever, i64 mask = 0) { fail_at = at; fail_forever = forever; fail_mask = mask; since = 0; fired = 0; }
  void calm() { fail_at = 0; fail_forever = false; fail_mask = 0; }
};
extern AllocSeam g_alloc;
struct Block { size_t size; int owner; u64 seq; int front; };
i64 alloc_owned_by(int owner);         // live blocks of that owner
i64 alloc_bytes_of(int owner, i64 *blocks);
extern int g_free_foreign_check;       // complain when a block of another owner is freed
bool alloc_is_live(const void *p);

// ---- environment ----
extern u64 g_envseed;
extern int g_errno;                       // errno and sticky floating-point flags found by every call (-1: as they are)

// ---- executed blocks ----
extern u64 g_steps, g_step_limit;
extern u64 g_moved;                    // bytes copied or set by library calls to the memory functions
extern u64 g_preempt;                  // blocks until the fiber scheduler takes over (0 = off)
extern void (*g_on_preempt)(); extern u32 g_preempt_edge;
// ---- threads of the caller (race-detecting build) ----
extern int g_fiber;                    // the simulated thread now running
extern void (*g_on_lock)(void *m, int op);   // 0 acquire (may wait), 1 release, 3 try to acquire (result in g_lock_got)
extern bool g_lock_got;
void seam_threads_reset();
struct StepScope {                     // one API call
  u64 saved_steps, saved_limit, saved_moved; static u64 total; u64 used = 0, moved = 0;
  explicit StepScope(u64 limit) { saved_steps = g_steps; saved_limit = g_step_limit; saved_moved = g_moved; g_steps = g_moved = 0; g_step_limit = limit; }
  u64 close() { used = g_steps; moved = g_moved; total += g_steps; g_steps = saved_steps; g_moved = saved_moved; g_step_limit = saved_limit; return used; }
};
// ---- memory access hooks (race-detecting build) ----
extern void (*g_on_access)(const void *p, size_t n, bool write);
extern void (*g_on_fresh)(const void *p, size_t n);   // memory got a new owner
void dirty_stack(u64 seed);            // leave a pattern in the stack below
