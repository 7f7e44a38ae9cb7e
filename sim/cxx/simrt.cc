// Deterministic simulation runtime (see DESIGN.md, "The C++ simulator").
//
// Compiled WITHOUT instrumentation.  The code under test is compiled with the
// ThreadSanitizer *code generator* only; the callbacks it emits are defined
// here, together with replacements of the pthread, clock, file and allocation
// entry points of libc.  Exactly one simulated thread runs at any moment; who
// runs next is decided by Schedule().
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "simrt.h"

#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <limits.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/sysinfo.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <ucontext.h>
#include <new>

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t i64;

#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

// ---------------------------------------------------------------------------
// Constants and memory layout
// ---------------------------------------------------------------------------
namespace {

const int kMaxThreads = 250;
const uintptr_t kHeapBase = 0x200000000000ull;
const uintptr_t kHeapSize = 0x200000000ull;      // 8 GB of address space
const uintptr_t kZygoteHeap = 0x40000000ull;     // first 1 GB: before fork
const uintptr_t kStackBase = 0x240000000000ull;
const uintptr_t kStackSize = 4ull << 20;         // per thread
const uintptr_t kMainStackSize = 64ull << 20;
const uintptr_t kStackRegion = kMainStackSize + kMaxThreads * kStackSize;
const uintptr_t kExeLimit = 0x10000000ull;       // non-PIE image below 256 MB
const uintptr_t kRtBase = 0x280000000000ull;     // runtime arena
const uintptr_t kRtSize = 0x100000000ull;
const uintptr_t kShadowExe = 0x300000000000ull;
const uintptr_t kShadowHeap = 0x310000000000ull;
const uintptr_t kShadowStack = 0x330000000000ull;

const u32 kMaxW = 1u << 16;
const u32 kMaxS = 1u << 19;
const u32 kMaxM = 1u << 19;
const u32 kMaxF = 1u << 14;
const u32 kMaxC = 1u << 14;
const int kMaxProbes = 160;

struct SEnt { u64 n; u32 tid; };
struct FEnt { u64 k; u32 kind; u32 param; };
struct CEnt { u64 k; i64 delta; };
struct ProbeEnt { char name[48]; u64 count; };

enum Status { kRunning = 0, kOk = 1, kViolation = 2, kHarness = 3, kFatalEnd = 4,
              kTimeout = 5, kDied = 6 };

struct Cfg {
  u32 strat;      // 0 random walk, 1 PCT, 2 starve one, 3 run to block, 4 stalls
  u32 p_num;      // switch probability p_num/64 at sync points
  u32 pct_d;
  u32 mem_iv;     // mean accesses between preemption draws (0: never)
  u32 writerpref;
  u32 spurious;
  u32 fault_mode; // 0 none, 1 single, 2 rate
  u32 fault_rate; // out of 256
  u64 fault_at;
  u32 victim;
  u32 pct_span;   // log2 of the range of change points
};

struct Result {
  int status;
  char cls[64];
  char msg[4096];
  u64 hash, sched_hash, work_hash, fault_hash;
  u64 nsync, nmem, nswitch, nthreads, nio, nclock, nnotes, seq;
  u64 sim_ns;
  u64 fired[16];
  u32 nontrivial;
  u32 overflow;
  Cfg cfg;
  u32 nW, nS, nM, nF, nC, nprobes;
  ProbeEnt probes[kMaxProbes];
  u64 W[kMaxW];
  SEnt S[kMaxS];
  SEnt M[kMaxM];
  FEnt F[kMaxF];
  CEnt C[kMaxC];
};
Result *R;       // MAP_SHARED: written by the child, read by the zygote
// Replay input (private to the zygote, inherited by the child).
struct Input {
  bool replay;
  bool verbose;
  u64 seed;
  char scenario[64];
  Cfg cfg;
  u32 nW, nS, nM, nF, nC;
  u64 W[kMaxW];
  SEnt S[kMaxS];
  SEnt M[kMaxM];
  FEnt F[kMaxF];
  CEnt C[kMaxC];
};
Input *IN;

// ---------------------------------------------------------------------------
// Small helpers
// ---------------------------------------------------------------------------
struct Rng {
  u64 s[4];
  static u64 Mix(u64 &x) {
    u64 z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  void Seed(u64 seed, u64 stream) {
    u64 x = seed * 0x9e3779b97f4a7c15ull + stream * 0xd1342543de82ef95ull + 1;
    for (int i = 0; i < 4; i++) s[i] = Mix(x);
  }
  u64 Next() {
    u64 r = ((s[1] * 5) << 7 | (s[1] * 5) >> 57) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t;
    s[3] = s[3] << 45 | s[3] >> 19;
    return r;
  }
  u64 Below(u64 n) { return n ? Next() % n : 0; }
};

inline u64 HashMix(u64 h, u64 v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}

void RawWrite(int fd, const char *s, size_t n) {
  while (n > 0) {
    long r = syscall(SYS_write, fd, s, n);
    if (r <= 0) return;
    s += r; n -= r;
  }
}

// Runtime arena (never freed inside a run; separate from the simulated heap).
u8 *g_rt_ptr;
void *RtAlloc(size_t n) {
  n = (n + 15) & ~15ull;
  u8 *p = g_rt_ptr;
  g_rt_ptr += n;
  if ((uintptr_t)g_rt_ptr > kRtBase + kRtSize) {
    RawWrite(2, "simrt: runtime arena exhausted\n", 31);
    syscall(SYS_exit_group, 99);
  }
  return p;
}

// Real functions.
template <class T> T Real(const char *name) {
  return reinterpret_cast<T>(dlsym(RTLD_NEXT, name));
}
#define REAL(fn, ...)                                          \
  ({                                                           \
    static auto real_ = Real<decltype(&::fn)>(#fn);            \
    real_(__VA_ARGS__);                                        \
  })

// ---------------------------------------------------------------------------
// Threads
// ---------------------------------------------------------------------------
struct VC {
  u32 c[kMaxThreads];
};

enum TState { kFree = 0, kRunnable, kBlocked, kDone };

struct Thread {
  int tid;
  TState state;
  u32 word;                 // futex
  bool (*ready)(Thread *);  // valid while blocked
  void *wobj;               // what it waits for
  int wmode;
  sim::CondFn cfn;
  void *carg;
  i64 wake_ns;              // <0: none
  bool timed_out;
  bool cv_signaled;
  bool waiting_writer;
  u64 wait_since;
  void *(*fn)(void *);
  void *arg;
  void *ret;
  bool joined, detached;
  pthread_t handle;
  u64 prio;
  u64 frozen;               // stalled until this step (strategy 4)
  u32 quiet;
  VC *vc;
  VC *final_vc;
  const char *what;
};

Thread g_threads[kMaxThreads];
int g_nthreads;
Thread *cur;              // null: simulation off
bool g_check;             // race bookkeeping on (more than one thread)
bool g_in_sim;            // a simulated run is active
u32 g_quiet;
int g_live, g_unjoined;   // unjoined: done but not joined
Rng g_rw, g_rs, g_rf, g_rc;
Cfg cfg;
u64 g_nsync, g_nmem, g_nswitch, g_seq, g_nclock, g_nio, g_nnotes;
u64 g_hash, g_sched_hash, g_work_hash, g_fault_hash;
u64 g_mem_left;
u64 g_max_sync = 400000, g_max_mem = 60000000;
bool g_fair;
u32 g_wpos, g_spos, g_mpos, g_fpos, g_cpos;
u64 g_pct[8]; int g_npct; u64 g_pct_step;
bool g_allow_fatal;
unsigned g_fatal_kinds;
i64 g_mono = 1000000000ll, g_wall_off = 1700000000000000000ll;
i64 g_cpu = 3000000;  // Processor time: passes only by reading clocks.
bool g_clock_jumps;
u64 g_stall_iv, g_nstalls;
i64 g_stall_ns;
int g_ncpu = 8;
bool g_at_unlock;
u32 g_main_done;

[[noreturn]] void EndRun(int status) {
  R->status = status;
  R->hash = g_hash; R->sched_hash = g_sched_hash; R->work_hash = g_work_hash;
  R->fault_hash = g_fault_hash;
  R->nsync = g_nsync; R->nmem = g_nmem; R->nswitch = g_nswitch;
  R->nthreads = g_nthreads; R->nio = g_nio; R->nclock = g_nclock;
  R->nnotes = g_nnotes; R->seq = g_seq; R->sim_ns = g_mono - 1000000000ll;
  R->cfg = cfg;
  syscall(SYS_exit_group, 0);
  __builtin_trap();
}

void Append(char *buf, size_t cap, const char *s) {
  size_t l = strlen(buf);
  size_t n = strlen(s);
  if (l + n + 1 > cap) n = cap - l - 1;
  memcpy(buf + l, s, n);
  buf[l + n] = 0;
}

void Sym(char *buf, size_t cap, uintptr_t pc) {
  Dl_info info;
  char t[700];
  if (pc && dladdr((void *)pc, &info) && info.dli_sname) {
    snprintf(t, sizeof(t), "%.600s+0x%lx", info.dli_sname,
             (long)(pc - (uintptr_t)info.dli_saddr));
  } else {
    snprintf(t, sizeof(t), "0x%lx", (long)pc);
  }
  Append(buf, cap, t);
}

inline void EvHash(u64 a, u64 b) {
  g_seq++;
  g_hash = HashMix(HashMix(g_hash, a), b);
}

void LogEv(const char *fmt, ...) SIM_PRINTF(1, 2);
void LogEv(const char *fmt, ...) {
  if (LIKELY(!IN->verbose)) return;
  char buf[600];
  int n = snprintf(buf, sizeof(buf), "  [%llu t%d] ", (unsigned long long)g_seq,
                   cur ? cur->tid : -1);
  va_list ap;
  va_start(ap, fmt);
  n += vsnprintf(buf + n, sizeof(buf) - n - 2, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof(buf) - 2) n = sizeof(buf) - 2;
  buf[n++] = '\n';
  RawWrite(2, buf, n);
}

long Futex(u32 *addr, int op, u32 val) {
  return syscall(SYS_futex, addr, op | FUTEX_PRIVATE_FLAG, val, nullptr, nullptr, 0);
}

void ParkUntilRunning(Thread *self) {
  while (__atomic_load_n(&self->word, __ATOMIC_ACQUIRE) == 0) {
    Futex(&self->word, FUTEX_WAIT, 0);
  }
  __atomic_store_n(&self->word, 0, __ATOMIC_RELAXED);
}

void Transfer(Thread *to) {  // Give the baton away; caller parks afterwards.
  cur = to;
  __atomic_store_n(&to->word, 1, __ATOMIC_RELEASE);
  Futex(&to->word, FUTEX_WAKE, 1);
}

void UpdateCheck() {
  g_check = g_in_sim && (g_live > 1 || g_unjoined > 0);
}

bool IsReady(Thread *t) {
  if (t->state == kRunnable) return true;
  if (t->state != kBlocked) return false;
  if (t->ready && t->ready(t)) return true;
  if (t->wake_ns >= 0 && g_mono >= t->wake_ns) return true;
  return false;
}

int ReadyList(int *out) {
  int n = 0;
  g_quiet++;
  for (int i = 0; i < g_nthreads; i++)
    if (IsReady(&g_threads[i])) out[n++] = i;
  g_quiet--;
  return n;
}

[[noreturn]] void ReportDeadlock() {
  char msg[3000];
  msg[0] = 0;
  Append(msg, sizeof(msg), "no thread can continue:");
  for (int i = 0; i < g_nthreads; i++) {
    Thread *t = &g_threads[i];
    if (t->state != kBlocked) continue;
    char b[160];
    snprintf(b, sizeof(b), " t%d waits in %s;", i, t->what ? t->what : "?");
    Append(msg, sizeof(msg), b);
  }
  sim::Violation("deadlock", "%s", msg);
}

void RecordSwitch(bool mem, u64 n, u32 tid) {
  if (mem) {
    if (R->nM < kMaxM) { R->M[R->nM].n = n; R->M[R->nM].tid = tid; R->nM++; }
    else R->overflow = 1;
  } else {
    if (R->nS < kMaxS) { R->S[R->nS].n = n; R->S[R->nS].tid = tid; R->nS++; }
    else R->overflow = 1;
  }
}

// Is there a recorded decision for this point?
bool Recorded(bool mem, u64 n, u32 *tid) {
  if (mem) {
    while (g_mpos < IN->nM && IN->M[g_mpos].n < n) g_mpos++;
    if (g_mpos < IN->nM && IN->M[g_mpos].n == n) { *tid = IN->M[g_mpos].tid; return true; }
  } else {
    while (g_spos < IN->nS && IN->S[g_spos].n < n) g_spos++;
    if (g_spos < IN->nS && IN->S[g_spos].n == n) { *tid = IN->S[g_spos].tid; return true; }
  }
  return false;
}

int DefaultChoice(const int *list, int n) {  // current, else next in ring
  for (int i = 0; i < n; i++) if (list[i] == cur->tid) return list[i];
  for (int i = 0; i < n; i++) if (list[i] > cur->tid) return list[i];
  return list[0];
}

int PickPrio(const int *list, int n) {
  int best = list[0];
  for (int i = 1; i < n; i++)
    if (g_threads[list[i]].prio > g_threads[best].prio) best = list[i];
  return best;
}

int StrategyChoice(const int *list, int n, bool mem, bool cur_ready) {
  if (n == 1) return list[0];
  if (g_fair) {  // after half of the step budget: plain fair random walk
    if (cur_ready && g_rs.Below(4) != 0) return cur->tid;
    return list[g_rs.Below(n)];
  }
  switch (cfg.strat) {
    case 1: {  // PCT
      return PickPrio(list, n);
    }
    case 2: {  // starve one thread
      int cand[kMaxThreads], m = 0;
      for (int i = 0; i < n; i++)
        if (list[i] != (int)cfg.victim) cand[m++] = list[i];
      if (m == 0) return list[0];
      bool cur_ok = cur_ready && cur->tid != (int)cfg.victim;
      if (cur_ok && g_rs.Below(64) >= cfg.p_num) return cur->tid;
      return cand[g_rs.Below(m)];
    }
    case 3:
      if (cur_ready && !mem) return cur->tid;
      return list[g_rs.Below(n)];
    case 4: {  // threads stall for long, the others get on
      // Mostly where a lock was released: what was learned under it gets old.
      const bool at_unlock = g_at_unlock;
      g_at_unlock = false;
      if (!mem && cur_ready && g_rs.Below(at_unlock ? cfg.fault_rate : 4096) == 0)
        cur->frozen = g_nsync + (1ull << g_rs.Below(18));
      int cand[kMaxThreads], m = 0, first = list[0];
      for (int i = 0; i < n; i++) {
        if (g_threads[list[i]].frozen <= g_nsync) cand[m++] = list[i];
        if (g_threads[list[i]].frozen < g_threads[first].frozen) first = list[i];
      }
      if (m == 0) { g_threads[first].frozen = 0; return first; }
      if (cur_ready && cur->frozen <= g_nsync && (mem || g_rs.Below(32) != 0)) return cur->tid;
      return cand[g_rs.Below(m)];
    }
    default:
      if (cur_ready && !mem && g_rs.Below(64) >= cfg.p_num) return cur->tid;
      return list[g_rs.Below(n)];
  }
}

void PctStep() {
  if (cfg.strat != 1) return;
  g_pct_step++;
  for (int i = 0; i < g_npct; i++)
    if (g_pct[i] == g_pct_step) cur->prio = 1000 - i;  // below everybody
}

void DrawMem() {
  if (IN->replay || cfg.mem_iv == 0 || g_fair) { g_mem_left = ~0ull; return; }
  g_mem_left = 1 + g_rs.Below(2 * cfg.mem_iv);
}

// The scheduling decision.  `mem`: at a memory access, otherwise at a
// synchronisation point.  The current thread may be runnable or blocked.
void Schedule(bool mem) {
  u64 n = mem ? g_nmem : g_nsync++;
  Thread *self = cur;
  if (!mem) {
    g_mono += 200;
    // The machine stalls: time passes, nobody gets on, timeouts expire.
    if (g_stall_iv && g_live > 1 && g_nstalls < 64 && g_nsync % g_stall_iv == 0) {
      g_mono += g_stall_ns;
      if (!g_nstalls++) sim::Probe("stall");
    }
    if (UNLIKELY(g_nsync > g_max_sync / 2) && !g_fair) g_fair = true;
    if (UNLIKELY(g_nsync > g_max_sync))
      sim::Violation("no-progress",
                     "run did not finish within %llu synchronisation steps",
                     (unsigned long long)g_max_sync);
  }
  if (g_live == 1 && self->state == kRunnable) return;
  PctStep();
  int list[kMaxThreads];
  int cnt = ReadyList(list);
  while (cnt == 0) {  // let simulated time pass to the next timed wake-up
    i64 best = -1;
    for (int i = 0; i < g_nthreads; i++) {
      Thread *t = &g_threads[i];
      if (t->state == kBlocked && t->wake_ns >= 0 && (best < 0 || t->wake_ns < best))
        best = t->wake_ns;
    }
    if (best < 0) ReportDeadlock();
    if (best > g_mono) g_mono = best;
    cnt = ReadyList(list);
  }
  bool cur_ready = false;
  for (int i = 0; i < cnt; i++) if (list[i] == self->tid) cur_ready = true;
  int def = DefaultChoice(list, cnt);
  int pick = def;
  if (cnt > 1) {
    if (IN->replay && !g_fair) {
      u32 t;
      if (Recorded(mem, n, &t))
        for (int i = 0; i < cnt; i++) if (list[i] == (int)t) pick = t;
    } else {
      pick = StrategyChoice(list, cnt, mem, cur_ready);
    }
  }
  if (pick != def) RecordSwitch(mem, n, pick);
  Thread *to = &g_threads[pick];
  if (to != self) {
    g_nswitch++;
    EvHash(mem ? 0x11 : 0x12, HashMix(n, pick));
    g_sched_hash = HashMix(HashMix(g_sched_hash, mem ? ~n : n), pick);
    Transfer(to);
    ParkUntilRunning(self);
    // Running again.
  }
  if (self->state == kBlocked) self->state = kRunnable;
}

// Blocks until ready(self) (or the time-out).  Returns false on time-out.
bool Block(bool (*ready)(Thread *), const char *what, i64 wake_ns) {
  Thread *self = cur;
  self->ready = ready;
  self->what = what;
  self->wake_ns = wake_ns;
  self->state = kBlocked;
  Schedule(false);
  bool ok;
  {
    g_quiet++;
    ok = ready ? ready(self) : false;
    g_quiet--;
  }
  self->ready = nullptr;
  self->wake_ns = -1;
  return ok;
}

inline void SyncPoint() {
  if (!cur) return;
  if (g_quiet) return;
  Schedule(false);
}

// ---------------------------------------------------------------------------
// Happens-before
// ---------------------------------------------------------------------------
struct SyncVar {
  uintptr_t addr;
  VC w;        // released by writers / stores
  VC r;        // released by readers
  // Lock state.
  bool used_as_lock;
  int owner;   // exclusive owner tid, -1 none
  int depth;   // recursion
  int readers;
  u8 rd[kMaxThreads];
};
const u32 kSyncBuckets = 1u << 16;
SyncVar **g_sync;

SyncVar *GetSync(const void *p) {
  uintptr_t a = (uintptr_t)p;
  u32 h = (u32)((a >> 2) * 0x9e3779b1u) >> 16;
  for (u32 i = 0; i < kSyncBuckets; i++) {
    u32 k = (h + i) & (kSyncBuckets - 1);
    if (!g_sync[k]) {
      SyncVar *s = (SyncVar *)RtAlloc(sizeof(SyncVar));  // zero pages
      s->addr = a;
      s->owner = -1;
      g_sync[k] = s;
      return s;
    }
    if (g_sync[k]->addr == a) return g_sync[k];
  }
  sim::HarnessError("too many synchronisation objects");
}

SyncVar *FindSync(const void *p) {
  uintptr_t a = (uintptr_t)p;
  u32 h = (u32)((a >> 2) * 0x9e3779b1u) >> 16;
  for (u32 i = 0; i < kSyncBuckets; i++) {
    u32 k = (h + i) & (kSyncBuckets - 1);
    if (!g_sync[k]) return nullptr;
    if (g_sync[k]->addr == a) return g_sync[k];
  }
  return nullptr;
}

inline void Join(VC *a, const VC *b) {
  for (int i = 0; i < g_nthreads; i++) if (b->c[i] > a->c[i]) a->c[i] = b->c[i];
}
inline void CopyVC(VC *a, const VC *b) {
  memcpy(a->c, b->c, sizeof(u32) * g_nthreads);
}
inline void Tick() { cur->vc->c[cur->tid]++; }

void RelStore(SyncVar *s) { CopyVC(&s->w, cur->vc); Tick(); }
void RelJoin(SyncVar *s) { Join(&s->w, cur->vc); Tick(); }
void Acq(SyncVar *s) { Join(cur->vc, &s->w); }

// ---------------------------------------------------------------------------
// Shadow memory and race detection
// ---------------------------------------------------------------------------
struct Slot {
  u32 clk;
  u8 tid;
  u8 mask;
  u8 flags;  // 1 write, 2 atomic, 4 freed
  u8 used;
  u32 pc;
  u32 pad;
};
struct Cell { Slot s[4]; };

inline Cell *ShadowOf(uintptr_t a) {
  if (a - kHeapBase < kHeapSize) return (Cell *)(kShadowHeap + ((a - kHeapBase) >> 3) * sizeof(Cell));
  if (a < kExeLimit) return (Cell *)(kShadowExe + (a >> 3) * sizeof(Cell));
  if (a - kStackBase < kStackRegion) return (Cell *)(kShadowStack + ((a - kStackBase) >> 3) * sizeof(Cell));
  return nullptr;
}

const char *Where(uintptr_t a) {
  if (a - kHeapBase < kHeapSize) return "heap memory";
  if (a < kExeLimit) return "a global";
  return "a stack variable";
}

[[noreturn]] void ReportUaf(uintptr_t a, uintptr_t pc, bool write) {
  char msg[2000];
  snprintf(msg, sizeof(msg), "%s of freed memory 0x%lx in ", write ? "write" : "read", (long)a);
  Sym(msg, sizeof(msg), pc);
  sim::Violation("use-after-free", "%s", msg);
}
[[noreturn]] void ReportRace(uintptr_t a, uintptr_t pc, u8 flags, const Slot &o) {
  char msg[2600];
  snprintf(msg, sizeof(msg), "unordered accesses to %s: %s%s by t%d in ", Where(a),
           (flags & 2) ? "atomic " : "", (flags & 1) ? "write" : "read", cur->tid);
  Sym(msg, sizeof(msg), pc);
  char b[80];
  snprintf(b, sizeof(b), " and %s%s by t%d in ", (o.flags & 2) ? "atomic " : "",
           (o.flags & 1) ? "write" : "read", o.tid);
  Append(msg, sizeof(msg), b);
  Sym(msg, sizeof(msg), o.pc);
  sim::Violation("data-race", "%s", msg);
}

u32 g_rot;

inline void ShadowOne(uintptr_t a, u8 mask, u8 flags, uintptr_t pc) {
  Cell *c = ShadowOf(a);
  if (!c) return;
  if (UNLIKELY(c->s[0].flags & 4)) ReportUaf(a, pc, flags & 1);
  if (!g_check) return;
  VC *vc = cur->vc;
  int tid = cur->tid;
  u32 clk = vc->c[tid];
  int place = -1;
  for (int i = 0; i < 4; i++) {
    Slot &s = c->s[i];
    if (!s.used) { if (place < 0) place = i; continue; }
    if (s.tid == tid) {
      if (s.mask == mask && (s.flags == flags || (flags & 1 && !(flags & 2)))) place = i;
      continue;
    }
    if (!(s.mask & mask)) continue;
    if (!((s.flags | flags) & 1)) continue;
    if ((s.flags & 2) && (flags & 2)) continue;
    if (s.clk > vc->c[s.tid]) ReportRace(a, pc, flags, s);
    // Ordered before us: a write that covers it supersedes it.
    if ((flags & 1) && (s.mask & ~mask) == 0) s.used = 0, place = place < 0 ? i : place;
  }
  if (place < 0) place = g_rot++ & 3;
  Slot &d = c->s[place];
  d.clk = clk; d.tid = tid; d.mask = mask; d.flags = flags; d.used = 1; d.pc = (u32)pc;
}

void ShadowRange(uintptr_t a, size_t n, u8 flags, uintptr_t pc) {
  if (n == 0) return;
  uintptr_t e = a + n;
  while (a < e) {
    uintptr_t g = a & ~7ull;
    unsigned lo = a - g, hi = (e - g) < 8 ? (unsigned)(e - g) : 8;
    u8 mask = (u8)(((1u << (hi - lo)) - 1) << lo);
    ShadowOne(g, mask, flags, pc);
    a = g + 8;
  }
}

inline void MemPoint() {
  if (g_live <= 1) return;
  g_nmem++;
  if (UNLIKELY(g_nmem > g_max_mem / 2) && !g_fair) { g_fair = true; DrawMem(); }
  if (UNLIKELY(g_nmem > g_max_mem))
    sim::Violation("no-progress", "run did not finish within %llu memory accesses",
                   (unsigned long long)g_max_mem);
  if (IN->replay) {
    if (g_mpos < IN->nM && IN->M[g_mpos].n <= g_nmem) Schedule(true);
    return;
  }
  if (LIKELY(--g_mem_left != 0)) return;
  DrawMem();
  Schedule(true);
}

inline void Access(uintptr_t a, unsigned size, u8 flags, uintptr_t pc) {
  if (UNLIKELY(!cur)) return;
  if (g_quiet) return;
  if (LIKELY(!g_check)) {
    if (a - kHeapBase < kHeapSize) {
      Cell *c = (Cell *)(kShadowHeap + ((a - kHeapBase) >> 3) * sizeof(Cell));
      if (UNLIKELY(c->s[0].flags & 4)) ReportUaf(a, pc, flags & 1);
    }
    return;
  }
  MemPoint();
  unsigned off = a & 7;
  if (LIKELY(off + size <= 8)) {
    ShadowOne(a & ~7ull, (u8)(((1u << size) - 1) << off), flags, pc);
  } else {
    ShadowRange(a, size, flags, pc);
  }
}

void AccessRange(uintptr_t a, size_t n, u8 flags, uintptr_t pc) {
  if (UNLIKELY(!cur) || g_quiet || n == 0) return;
  if (g_check) MemPoint();
  // Long ranges: sample the interior to bound the cost.
  if (n <= 4096) {
    ShadowRange(a, n, flags, pc);
  } else {
    ShadowRange(a, 2048, flags, pc);
    ShadowRange(a + n - 2048, 2048, flags, pc);
  }
}

}  // namespace

#define PC() ((uintptr_t)__builtin_return_address(0))
#define A(p) ((uintptr_t)(p))

extern "C" {

void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

#define RW(n)                                                                   \
  void __tsan_read##n(void *p) { Access(A(p), n, 0, PC()); }                    \
  void __tsan_write##n(void *p) { Access(A(p), n, 1, PC()); }                   \
  void __tsan_unaligned_read##n(void *p) { Access(A(p), n, 0, PC()); }          \
  void __tsan_unaligned_write##n(void *p) { Access(A(p), n, 1, PC()); }         \
  void __tsan_volatile_read##n(void *p) { Access(A(p), n, 0, PC()); }           \
  void __tsan_volatile_write##n(void *p) { Access(A(p), n, 1, PC()); }          \
  void __tsan_unaligned_volatile_read##n(void *p) { Access(A(p), n, 0, PC()); } \
  void __tsan_unaligned_volatile_write##n(void *p) { Access(A(p), n, 1, PC()); }\
  void __tsan_read_write##n(void *p) { Access(A(p), n, 1, PC()); }              \
  void __tsan_unaligned_read_write##n(void *p) { Access(A(p), n, 1, PC()); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#undef RW

void __tsan_vptr_update(void **p, void *v) {
  if (*p != v) Access(A(p), 8, 1, PC());
}
void __tsan_vptr_read(void **p) { Access(A(p), 8, 0, PC()); }
void __tsan_read_range(void *p, unsigned long n) { AccessRange(A(p), n, 0, PC()); }
void __tsan_write_range(void *p, unsigned long n) { AccessRange(A(p), n, 1, PC()); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) {
  AccessRange(A(s), n, 0, PC());
  AccessRange(A(d), n, 1, PC());
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, unsigned long n) {
  AccessRange(A(s), n, 0, PC());
  AccessRange(A(d), n, 1, PC());
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, unsigned long n) {
  AccessRange(A(d), n, 1, PC());
  return memset(d, c, n);
}

// Atomics.  Memory orders: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 sc
#define IS_ACQ(mo) ((mo) == 1 || (mo) == 2 || (mo) >= 4)
#define IS_REL(mo) ((mo) >= 3)

static inline void AtomicPre(const void *p, unsigned size, u8 flags, uintptr_t pc) {
  if (!cur || g_quiet) return;
  if (g_check || g_live > 1) {
    Schedule(false);
    unsigned off = A(p) & 7;
    if (size <= 8 && off + size <= 8)
      ShadowOne(A(p) & ~7ull, (u8)(((1u << size) - 1) << off), flags | 2, pc);
  }
}
static inline void AtomicHb(const void *p, bool acq, bool rel, bool rmw) {
  if (!cur || g_quiet || !(acq || rel)) return;
  if (!g_check) {
    // Single-threaded: releases still matter to threads created later only
    // through creation itself, so nothing to do.
    return;
  }
  SyncVar *s = GetSync(p);
  if (acq) Acq(s);
  if (rel) { if (rmw) RelJoin(s); else RelStore(s); }
}

#define ATOMICS(bits, T)                                                        \
  T __tsan_atomic##bits##_load(const volatile T *p, int mo) {                   \
    AtomicPre((const void *)p, bits / 8, 0, PC());                              \
    T v = __atomic_load_n(p, __ATOMIC_SEQ_CST);                                 \
    AtomicHb((const void *)p, IS_ACQ(mo), false, false);                        \
    return v;                                                                   \
  }                                                                             \
  void __tsan_atomic##bits##_store(volatile T *p, T v, int mo) {                \
    AtomicPre((const void *)p, bits / 8, 1, PC());                              \
    AtomicHb((const void *)p, false, IS_REL(mo), false);                        \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                   \
  }                                                                             \
  T __tsan_atomic##bits##_exchange(volatile T *p, T v, int mo) {                \
    AtomicPre((const void *)p, bits / 8, 1, PC());                              \
    AtomicHb((const void *)p, IS_ACQ(mo), IS_REL(mo), true);                    \
    return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                         \
  }                                                                             \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v,   \
                                                    int mo, int fmo) {          \
    AtomicPre((const void *)p, bits / 8, 1, PC());                              \
    int ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST,      \
                                         __ATOMIC_SEQ_CST);                     \
    if (ok) AtomicHb((const void *)p, IS_ACQ(mo), IS_REL(mo), true);            \
    else AtomicHb((const void *)p, IS_ACQ(fmo), false, false);                  \
    return ok;                                                                  \
  }                                                                             \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v,     \
                                                  int mo, int fmo) {            \
    return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo);     \
  }                                                                             \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int mo, \
                                               int fmo) {                       \
    __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, mo, fmo);           \
    return e;                                                                   \
  }
#define ATOMIC_RMW(bits, T, name, fn)                                           \
  T __tsan_atomic##bits##_fetch_##name(volatile T *p, T v, int mo) {            \
    AtomicPre((const void *)p, bits / 8, 1, PC());                              \
    AtomicHb((const void *)p, IS_ACQ(mo), IS_REL(mo), true);                    \
    return fn(p, v, __ATOMIC_SEQ_CST);                                          \
  }
#define ATOMIC_ALL(bits, T)                                                     \
  ATOMICS(bits, T)                                                              \
  ATOMIC_RMW(bits, T, add, __atomic_fetch_add)                                  \
  ATOMIC_RMW(bits, T, sub, __atomic_fetch_sub)                                  \
  ATOMIC_RMW(bits, T, and, __atomic_fetch_and)                                  \
  ATOMIC_RMW(bits, T, or, __atomic_fetch_or)                                    \
  ATOMIC_RMW(bits, T, xor, __atomic_fetch_xor)                                  \
  ATOMIC_RMW(bits, T, nand, __atomic_fetch_nand)
ATOMIC_ALL(8, u8)
ATOMIC_ALL(16, u16)
ATOMIC_ALL(32, u32)
ATOMIC_ALL(64, u64)
void __tsan_atomic_thread_fence(int) {
  if (!cur || g_quiet || !g_check) return;
  // Conservative: a fence synchronises through one global object (can only
  // hide races, never invent one).
  static char fence_obj;
  SyncVar *s = GetSync(&fence_obj);
  Acq(s);
  RelJoin(s);
}
void __tsan_atomic_signal_fence(int) {}

}  // extern "C"

// ---------------------------------------------------------------------------
// Allocation: deterministic addresses, FIFO reuse, freed-memory marks
// ---------------------------------------------------------------------------
namespace {

// Header before each block: size class or large size, magic.
struct Hdr {
  u64 size;      // usable bytes
  u32 cls;       // size class, or 255
  u32 magic;
};
const u32 kLive = 0x5afe5afe, kDead = 0xdeadbeef;
const int kClasses = 40;
struct FreeNode { FreeNode *next; };
struct Arena {
  uintptr_t ptr, end;
  FreeNode *head[kClasses], *tail[kClasses];
  u32 count[kClasses];
};
Arena g_zarena, g_rarena;
Arena *g_arena;
bool g_heap_ready;

void HeapInit() {
  if (g_heap_ready) return;
  g_heap_ready = true;
  void *p = mmap((void *)kHeapBase, kHeapSize, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)kHeapBase) { RawWrite(2, "simrt: heap map failed\n", 23); _exit(98); }
  g_zarena.ptr = kHeapBase; g_zarena.end = kHeapBase + kZygoteHeap;
  g_rarena.ptr = kHeapBase + kZygoteHeap; g_rarena.end = kHeapBase + kHeapSize;
  g_arena = &g_zarena;
}

// Classes: 16,32,...,128 then geometric with 4 steps per doubling.
inline int ClassOf(size_t n, size_t *sz) {
  if (n <= 128) { int c = n == 0 ? 0 : (int)((n - 1) >> 4); *sz = (size_t)(c + 1) << 4; return c; }
  int lg = 63 - __builtin_clzll(n - 1);  // 2^lg <= n-1
  size_t base = 1ull << lg, step = base >> 2;
  int k = (int)((n - 1 - base) / step);
  int c = 8 + (lg - 7) * 4 + k;
  *sz = base + (size_t)(k + 1) * step;
  if (c >= kClasses) { *sz = (n + 4095) & ~4095ull; return 255; }
  return c;
}

void MarkShadow(uintptr_t a, size_t n, bool freed) {
  // Only the run arena matters; the zygote never runs simulated code.
  size_t cells = (n + 7) >> 3;
  Cell *c = (Cell *)(kShadowHeap + ((a - kHeapBase) >> 3) * sizeof(Cell));
  for (size_t i = 0; i < cells; i++) {
    if (freed) { c[i].s[0].flags = 4; c[i].s[0].used = 1; c[i].s[0].mask = 0; }
    else memset(&c[i], 0, sizeof(Cell));
  }
}

void *HeapAlloc(size_t n) {
  if (UNLIKELY(!g_heap_ready)) HeapInit();
  size_t sz;
  int c = ClassOf(n, &sz);
  Arena *a = g_arena;
  Hdr *h = nullptr;
  bool reuse = false;
  if (c != 255) {
    u32 keep = c < 8 ? 64 : (c < 24 ? 16 : 2);
    if (a->count[c] > keep) {
      FreeNode *f = a->head[c];
      a->head[c] = f->next;
      if (!a->head[c]) a->tail[c] = nullptr;
      a->count[c]--;
      h = (Hdr *)((u8 *)f - sizeof(Hdr));
      reuse = true;
    }
  }
  if (!h) {
    h = (Hdr *)a->ptr;
    // No memory: nothing this big is ever needed, so a wild size fails early.
    if (sz > (512ull << 20) || n > sz || a->ptr + sizeof(Hdr) + sz > a->end) { errno = ENOMEM; return nullptr; }
    a->ptr += sizeof(Hdr) + sz;
  }
  h->size = sz; h->cls = c; h->magic = kLive;
  u8 *p = (u8 *)(h + 1);
  if (reuse && g_in_sim) MarkShadow((uintptr_t)p, sz, false);
  if (n <= 4096) memset(p, 0xa5, n);
  return p;
}

// Instrumented code lies between these two markers (link order); a free from
// anywhere else may be ordered by synchronisation the runtime cannot see.
extern "C" char sim_text_begin[], sim_text_end[];

void HeapFree(void *p, uintptr_t pc) {
  if (!p) return;
  uintptr_t a = (uintptr_t)p;
  if (a - kHeapBase >= kHeapSize) return;  // from the dynamic loader
  Hdr *h = (Hdr *)p - 1;
  if (h->magic != kLive) {
    if (g_in_sim && cur) {
      char msg[900] = "free of a block that is not allocated, in ";
      Sym(msg, sizeof(msg), pc);
      sim::Violation("bad-free", "%s", msg);
    }
    return;
  }
  size_t sz = h->size;
  if (g_in_sim && cur) {
    if (g_check && !g_quiet && pc >= (uintptr_t)sim_text_begin && pc < (uintptr_t)sim_text_end) {
      // Freeing is a write to the whole block.
      size_t lim = sz <= 1024 ? sz : 1024;
      ShadowRange(a, lim, 1, pc);
    }
    if (sz <= (1u << 16)) MarkShadow(a, sz, true);
    h->magic = kDead;
    if (sz <= 512) memset(p, 0xdd, sz);
    if (a < kHeapBase + kZygoteHeap) return;  // leave the zygote's lists alone
  } else {
    h->magic = kDead;
  }
  if (h->cls != 255) {
    Arena *ar = (a < kHeapBase + kZygoteHeap) ? &g_zarena : &g_rarena;
    FreeNode *f = (FreeNode *)p;
    f->next = nullptr;
    if (ar->tail[h->cls]) ar->tail[h->cls]->next = f; else ar->head[h->cls] = f;
    ar->tail[h->cls] = f;
    ar->count[h->cls]++;
  }
}

}  // namespace

extern "C" {
void *malloc(size_t n) { return HeapAlloc(n); }
void free(void *p) { HeapFree(p, PC()); }
void *calloc(size_t n, size_t m) {
  size_t t;
  if (__builtin_mul_overflow(n, m, &t)) { errno = ENOMEM; return nullptr; }
  void *p = HeapAlloc(t);
  if (p) memset(p, 0, t);
  return p;
}
void *realloc(void *p, size_t n) {
  if (!p) return HeapAlloc(n);
  if (n == 0) { HeapFree(p, PC()); return nullptr; }
  Hdr *h = (Hdr *)p - 1;
  if (n <= h->size) return p;
  void *q = HeapAlloc(n);
  if (!q) return nullptr;
  memcpy(q, p, h->size);
  HeapFree(p, PC());
  return q;
}
void *memalign(size_t al, size_t n) {
  if (al <= 16) return HeapAlloc(n);
  if (!g_heap_ready) HeapInit();
  Arena *a = g_arena;
  uintptr_t x = a->ptr + sizeof(Hdr);
  x = (x + al - 1) & ~(uintptr_t)(al - 1);
  size_t sz = (n + 15) & ~15ull;
  Hdr *h = (Hdr *)x - 1;
  h->size = sz; h->cls = 255; h->magic = kLive;
  a->ptr = x + sz;
  return (void *)x;
}
int posix_memalign(void **out, size_t al, size_t n) { *out = memalign(al, n); return 0; }
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
void *valloc(size_t n) { return memalign(4096, n); }
size_t malloc_usable_size(void *p) { return p ? ((Hdr *)p - 1)->size : 0; }
}

static void *NewImpl(size_t n) {
  void *p = HeapAlloc(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new(size_t n) { return NewImpl(n); }
void *operator new[](size_t n) { return NewImpl(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return HeapAlloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return HeapAlloc(n); }
void *operator new(size_t n, std::align_val_t a) { return memalign((size_t)a, n); }
void *operator new[](size_t n, std::align_val_t a) { return memalign((size_t)a, n); }
void operator delete(void *p) noexcept { HeapFree(p, PC()); }
void operator delete[](void *p) noexcept { HeapFree(p, PC()); }
void operator delete(void *p, size_t) noexcept { HeapFree(p, PC()); }
void operator delete[](void *p, size_t) noexcept { HeapFree(p, PC()); }
void operator delete(void *p, std::align_val_t) noexcept { HeapFree(p, PC()); }
void operator delete[](void *p, std::align_val_t) noexcept { HeapFree(p, PC()); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { HeapFree(p, PC()); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { HeapFree(p, PC()); }

// ---------------------------------------------------------------------------
// Mutexes, condition variables
// ---------------------------------------------------------------------------
namespace {

bool LockFree(SyncVar *s, bool shared, Thread *t) {
  if (s->owner >= 0) return false;
  if (!shared) return s->readers == 0;
  if (cfg.writerpref) {
    for (int i = 0; i < g_nthreads; i++) {
      Thread *o = &g_threads[i];
      if (o != t && o->state == kBlocked && o->waiting_writer && o->wobj == (void *)s &&
          o->wait_since < t->wait_since)
        return false;
    }
  }
  return true;
}
bool LockReady(Thread *t) { return LockFree((SyncVar *)t->wobj, t->wmode & 1, t); }

void TakeLock(SyncVar *s, bool shared) {
  s->used_as_lock = true;
  if (shared) {
    s->readers++;
    s->rd[cur->tid]++;
    Join(cur->vc, &s->w);
  } else {
    s->owner = cur->tid;
    s->depth = 1;
    Join(cur->vc, &s->w);
    Join(cur->vc, &s->r);
  }
  EvHash(shared ? 0x21 : 0x22, cur->tid);
}

void LockImpl(void *mu, bool shared, const char *what) {
  SyncPoint();
  SyncVar *s = GetSync(mu);
  Thread *self = cur;
  self->wait_since = g_seq;
  self->wobj = s;
  self->wmode = shared;
  while (!LockFree(s, shared, self)) {
    self->waiting_writer = !shared;
    Block(LockReady, what, -1);
    self->waiting_writer = false;
    self->wobj = s; self->wmode = shared;
  }
  TakeLock(s, shared);
}

void ReleaseLock(SyncVar *s, bool shared, const char *what) {
  if (shared) {
    if (s->rd[cur->tid] == 0)
      sim::Violation("lock-misuse", "t%d releases a reader lock it does not hold (%s)", cur->tid, what);
    s->rd[cur->tid]--;
    s->readers--;
    Join(&s->r, cur->vc);
    Tick();
  } else {
    if (s->owner != cur->tid)
      sim::Violation("lock-misuse", "t%d releases a lock it does not hold (%s)", cur->tid, what);
    s->owner = -1;
    s->depth = 0;
    CopyVC(&s->w, cur->vc);
    Tick();
  }
  EvHash(0x23, cur->tid);
}

bool AwaitReady(Thread *t) {
  if (!LockFree((SyncVar *)t->wobj, t->wmode & 1, t)) return false;
  return t->cfn(t->carg);
}

bool CvReady(Thread *t) { return t->cv_signaled; }

struct CvQueue {  // waiters in arrival order
  void *cv;
  int n;
  int q[kMaxThreads];
};
CvQueue *g_cvs[256];
int g_ncvs;
CvQueue *GetCv(void *cv) {
  for (int i = 0; i < g_ncvs; i++) if (g_cvs[i]->cv == cv) return g_cvs[i];
  if (g_ncvs == 256) {
    for (int i = 0; i < g_ncvs; i++) if (g_cvs[i]->n == 0) { g_cvs[i]->cv = cv; return g_cvs[i]; }
    sim::HarnessError("too many condition variables");
  }
  CvQueue *c = (CvQueue *)RtAlloc(sizeof(CvQueue));
  c->cv = cv; c->n = 0;
  g_cvs[g_ncvs++] = c;
  return c;
}
void CvRemove(CvQueue *q, int tid) {
  int k = 0;
  for (int i = 0; i < q->n; i++) if (q->q[i] != tid) q->q[k++] = q->q[i];
  q->n = k;
}

bool Spurious() {
  if (!cfg.spurious) return false;
  u64 n = g_nsync;
  u32 t;
  bool s = false;
  if (IN->replay) { if (Recorded(false, n, &t) && t == 1000) s = true; }
  else s = g_rs.Below(16) == 0;
  if (s) { RecordSwitch(false, n, 1000); g_nsync++; sim::Probe("spurious-wakeup"); }
  return s;
}

// Waits on cv with `mu` held exclusively (lock object at address mu).
bool CvWaitImpl(void *cv, void *mu, bool shared, i64 wake_ns) {
  SyncVar *s = GetSync(mu);
  int depth = s->depth;
  ReleaseLock(s, shared, "condition wait");
  bool ok = true;
  if (!Spurious()) {
    CvQueue *q = GetCv(cv);
    q->q[q->n++] = cur->tid;
    cur->cv_signaled = false;
    EvHash(0x31, cur->tid);
    ok = Block(CvReady, "condition wait", wake_ns);
    if (!ok) CvRemove(q, cur->tid);
    cur->cv_signaled = false;
  } else {
    SyncPoint();
  }
  LockImpl(mu, shared, "condition wait (relock)");
  if (depth > 1) s->depth = depth;
  return ok;
}

}  // namespace

namespace sim {

void MuLock(void *mu, bool shared) { if (cur) LockImpl(mu, shared, "Mutex lock"); }
void MuUnlock(void *mu, bool shared) {
  if (!cur) return;
  ReleaseLock(GetSync(mu), shared, "Mutex unlock");
  g_at_unlock = true;
  SyncPoint();
  g_at_unlock = false;
}
bool MuTryLock(void *mu, bool shared) {
  if (!cur) return true;
  SyncPoint();
  SyncVar *s = GetSync(mu);
  cur->wait_since = g_seq;
  if (!LockFree(s, shared, cur)) return false;
  TakeLock(s, shared);
  return true;
}
bool MuAwait(void *mu, bool shared, CondFn fn, void *arg, int64_t timeout_ns) {
  if (!cur) return true;
  SyncVar *s = GetSync(mu);
  // The condition is evaluated with the lock held first.
  if (fn(arg)) return true;
  i64 wake = timeout_ns < 0 ? -1 : g_mono + timeout_ns;
  ReleaseLock(s, shared, "Await");
  bool ok = false;
  for (;;) {
    cur->wobj = s; cur->wmode = shared; cur->cfn = fn; cur->carg = arg;
    cur->wait_since = g_seq;
    bool r = Block(AwaitReady, "Await on a condition", wake);
    cur->cfn = nullptr;
    if (r) { TakeLock(s, shared); ok = true; break; }
    if (wake >= 0 && g_mono >= wake) {
      LockImpl(mu, shared, "Await (time-out)");
      ok = fn(arg);
      break;
    }
  }
  return ok;
}
bool MuHeld(void *mu) {
  if (!cur) return true;
  SyncVar *s = FindSync(mu);
  return s && (s->owner == cur->tid || s->rd[cur->tid] > 0);
}
bool MuSharedByMe(void *mu) {
  if (!cur) return false;
  SyncVar *s = FindSync(mu);
  return s && s->owner != cur->tid && s->rd[cur->tid] > 0;
}
void MuDestroy(void *mu) {
  if (!cur) return;
  SyncVar *s = FindSync(mu);
  if (!s) return;
  if (s->owner >= 0 || s->readers > 0)
    Violation("lock-misuse", "mutex destroyed while it is held");
  memset(&s->w, 0, sizeof(s->w));
  memset(&s->r, 0, sizeof(s->r));
}
bool CvWait(void *cv, void *mu, int64_t timeout_ns) {
  if (!cur) return true;
  SyncVar *s = GetSync(mu);
  bool shared = s->owner != cur->tid;
  return CvWaitImpl(cv, mu, shared, timeout_ns < 0 ? -1 : g_mono + timeout_ns);
}
void CvSignal(void *cv, bool all) {
  if (!cur) return;
  SyncPoint();
  CvQueue *q = GetCv(cv);
  EvHash(0x32, all);
  while (q->n > 0) {
    int t = q->q[0];
    CvRemove(q, t);
    g_threads[t].cv_signaled = true;
    if (!all) break;
  }
}
void HbRelease(void *obj) { if (cur) { RelJoin(GetSync(obj)); } }
void HbAcquire(void *obj) { if (cur) { Acq(GetSync(obj)); } }
static bool WaitReady(Thread *t) { return t->cfn(t->carg); }
bool WaitUntil(CondFn fn, void *arg, int64_t timeout_ns) {
  if (!cur) return true;
  SyncPoint();
  i64 wake = timeout_ns < 0 ? -1 : g_mono + timeout_ns;
  for (;;) {
    g_quiet++;
    bool r = fn(arg);
    g_quiet--;
    if (r) return true;
    if (wake >= 0 && g_mono >= wake) return false;
    cur->cfn = fn; cur->carg = arg;
    Block(WaitReady, "wait for an event", wake);
    cur->cfn = nullptr;
  }
}

void Yield() { SyncPoint(); }
int ThreadsStarted() { return g_nthreads - 1; }
int CurrentThread() { return cur ? cur->tid : 0; }
int LiveThreads() { return g_live; }
void SetStepBudget(uint64_t s, uint64_t m) {
  if (s) g_max_sync = s + g_nsync;
  if (m) g_max_mem = m + g_nmem;
}
// Quiet is nested per run (only one thread runs, and quiet code never yields).
Quiet::Quiet() { if (cur) g_quiet++; }
Quiet::~Quiet() { if (cur && g_quiet) g_quiet--; }
void AnnotateRead(const void *p, size_t n) {
  if (cur && g_check && !g_quiet) { MemPoint(); ShadowRange((uintptr_t)p, n, 0, PC()); }
}
void AnnotateWrite(const void *p, size_t n) {
  if (cur && g_check && !g_quiet) { MemPoint(); ShadowRange((uintptr_t)p, n, 1, PC()); }
}

}  // namespace sim

// ---------------------------------------------------------------------------
// pthread entry points
// ---------------------------------------------------------------------------
namespace {

void *StackFor(int tid, size_t *size) {
  uintptr_t a = tid == 0 ? kStackBase : kStackBase + kMainStackSize + (uintptr_t)(tid - 1) * kStackSize;
  *size = tid == 0 ? kMainStackSize : kStackSize;
  return (void *)a;
}

void FinishThread(Thread *self) {
  self->final_vc = (VC *)RtAlloc(sizeof(VC));
  memcpy(self->final_vc, self->vc, sizeof(VC));
  self->vc->c[self->tid]++;
  self->state = kDone;
  g_live--;
  if (!self->joined) g_unjoined++;
  UpdateCheck();
  EvHash(0x42, self->tid);
  LogEv("thread ends");
  Schedule(false);
  // Never scheduled again.
  for (;;) pause();
}

void AltStack() {
  stack_t ss;
  ss.ss_sp = RtAlloc(1 << 16); ss.ss_size = 1 << 16; ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
}

void *Trampoline(void *p) {
  Thread *self = (Thread *)p;
  ParkUntilRunning(self);
  AltStack();
  self->ret = self->fn(self->arg);
  FinishThread(self);
  return nullptr;
}

typedef int (*PCreate)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);

void RealCreate(Thread *t, void *(*entry)(void *)) {
  static PCreate real = Real<PCreate>("pthread_create");
  pthread_attr_t attr;
  pthread_attr_init(&attr);
  size_t sz;
  void *st = StackFor(t->tid, &sz);
  pthread_attr_setstack(&attr, st, sz);
  Thread *save = cur;
  u32 q = g_quiet;
  int r = real(&t->handle, &attr, entry, t);
  g_quiet = q;
  (void)save;
  if (r != 0) sim::HarnessError("cannot create a thread: %d", r);
  pthread_attr_destroy(&attr);
}

Thread *NewThread() {
  if (g_nthreads >= kMaxThreads) sim::HarnessError("too many threads");
  Thread *t = &g_threads[g_nthreads];
  memset(t, 0, sizeof(*t));
  t->tid = g_nthreads;
  t->state = kRunnable;
  t->wake_ns = -1;
  t->vc = (VC *)RtAlloc(sizeof(VC));
  g_nthreads++;
  g_live++;
  return t;
}

Thread *ByHandle(pthread_t h) {
  for (int i = 0; i < g_nthreads; i++) if (g_threads[i].handle == h) return &g_threads[i];
  return nullptr;
}

bool JoinReady(Thread *t) { return ((Thread *)t->wobj)->state == kDone; }

i64 AbsToWake(clockid_t clk, const struct timespec *ts) {
  i64 t = (i64)ts->tv_sec * 1000000000ll + ts->tv_nsec;
  i64 now = clk == CLOCK_MONOTONIC ? g_mono : g_mono + g_wall_off;
  i64 w = g_mono + (t - now);
  return w < g_mono ? g_mono : w;
}

}  // namespace

extern "C" {

int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  if (!cur) {
    static PCreate real = Real<PCreate>("pthread_create");
    return real(out, attr, fn, arg);
  }
  SyncPoint();
  Thread *t = NewThread();
  t->fn = fn;
  t->arg = arg;
  CopyVC(t->vc, cur->vc);
  t->vc->c[t->tid] = 1;
  Tick();
  t->prio = IN->replay ? 0 : 2000 + g_rs.Below(1u << 20);
  if (attr) {
    int ds;
    if (pthread_attr_getdetachstate(attr, &ds) == 0 && ds == PTHREAD_CREATE_DETACHED) {
      t->detached = true;
    }
  }
  UpdateCheck();
  RealCreate(t, Trampoline);
  *out = t->handle;
  EvHash(0x41, t->tid);
  LogEv("creates t%d", t->tid);
  SyncPoint();
  return 0;
}

int pthread_join(pthread_t h, void **ret) {
  if (!cur) return REAL(pthread_join, h, ret);
  SyncPoint();
  Thread *t = ByHandle(h);
  if (!t || t->joined || t == cur)
    sim::Violation("thread-misuse", "join of a thread that cannot be joined");
  cur->wobj = t;
  while (t->state != kDone) { cur->wobj = t; Block(JoinReady, "join", -1); }
  if (!t->joined) { t->joined = true; g_unjoined--; }
  Join(cur->vc, t->final_vc);
  UpdateCheck();
  if (ret) *ret = t->ret;
  EvHash(0x43, t->tid);
  return 0;
}

int pthread_detach(pthread_t h) {
  if (!cur) return REAL(pthread_detach, h);
  Thread *t = ByHandle(h);
  if (t) t->detached = true;
  return 0;
}

void pthread_exit(void *ret) {
  if (!cur) { REAL(pthread_exit, ret); __builtin_unreachable(); }
  cur->ret = ret;
  FinishThread(cur);
  __builtin_unreachable();
}

// Mutex.
static int MKind(pthread_mutex_t *m) { return m->__data.__kind & 3; }

int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!cur) return REAL(pthread_mutex_lock, m);
  if (g_quiet) { return 0; }
  SyncVar *s = GetSync(m);
  if (s->owner == cur->tid) {
    if (MKind(m) == PTHREAD_MUTEX_RECURSIVE) { s->depth++; return 0; }
    if (MKind(m) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  }
  LockImpl(m, false, "mutex lock");
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!cur) return REAL(pthread_mutex_trylock, m);
  if (g_quiet) return 0;
  SyncPoint();
  SyncVar *s = GetSync(m);
  if (s->owner == cur->tid && MKind(m) == PTHREAD_MUTEX_RECURSIVE) { s->depth++; return 0; }
  cur->wait_since = g_seq;
  if (!LockFree(s, false, cur)) return EBUSY;
  TakeLock(s, false);
  return 0;
}
static bool TimedLock(void *m, bool shared, i64 wake) {
  SyncPoint();
  SyncVar *s = GetSync(m);
  cur->wait_since = g_seq;
  while (!LockFree(s, shared, cur)) {
    if (g_mono >= wake) return false;
    cur->wobj = s; cur->wmode = shared; cur->waiting_writer = !shared;
    Block(LockReady, "timed lock", wake);
    cur->waiting_writer = false;
  }
  TakeLock(s, shared);
  return true;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) {
  if (!cur) return REAL(pthread_mutex_timedlock, m, ts);
  return TimedLock(m, false, AbsToWake(CLOCK_REALTIME, ts)) ? 0 : ETIMEDOUT;
}
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *ts) {
  if (!cur) return REAL(pthread_mutex_clocklock, m, c, ts);
  return TimedLock(m, false, AbsToWake(c, ts)) ? 0 : ETIMEDOUT;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!cur) return REAL(pthread_mutex_unlock, m);
  if (g_quiet) return 0;
  SyncVar *s = GetSync(m);
  if (s->owner == cur->tid && s->depth > 1) { s->depth--; return 0; }
  ReleaseLock(s, false, "mutex unlock");
  g_at_unlock = true;
  SyncPoint();
  g_at_unlock = false;
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
  if (!cur) return REAL(pthread_mutex_destroy, m);
  sim::MuDestroy(m);
  return 0;
}

// Reader/writer lock.
int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
  if (!cur) return REAL(pthread_rwlock_rdlock, l);
  if (!g_quiet) LockImpl(l, true, "rwlock rdlock");
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
  if (!cur) return REAL(pthread_rwlock_wrlock, l);
  if (!g_quiet) LockImpl(l, false, "rwlock wrlock");
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) {
  if (!cur) return REAL(pthread_rwlock_tryrdlock, l);
  return sim::MuTryLock(l, true) ? 0 : EBUSY;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) {
  if (!cur) return REAL(pthread_rwlock_trywrlock, l);
  return sim::MuTryLock(l, false) ? 0 : EBUSY;
}
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  if (!cur) return REAL(pthread_rwlock_unlock, l);
  if (g_quiet) return 0;
  SyncVar *s = GetSync(l);
  ReleaseLock(s, s->owner != cur->tid, "rwlock unlock");
  SyncPoint();
  return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t *l) {
  if (!cur) return REAL(pthread_rwlock_destroy, l);
  sim::MuDestroy(l);
  return 0;
}

// Condition variable.
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!cur) return REAL(pthread_cond_wait, c, m);
  CvWaitImpl(c, m, false, -1);
  return 0;
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  if (!cur) return REAL(pthread_cond_timedwait, c, m, ts);
  return CvWaitImpl(c, m, false, AbsToWake(CLOCK_REALTIME, ts)) ? 0 : ETIMEDOUT;
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) {
  if (!cur) return REAL(pthread_cond_clockwait, c, m, k, ts);
  return CvWaitImpl(c, m, false, AbsToWake(k, ts)) ? 0 : ETIMEDOUT;
}
int pthread_cond_signal(pthread_cond_t *c) {
  if (!cur) return REAL(pthread_cond_signal, c);
  sim::CvSignal(c, false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  if (!cur) return REAL(pthread_cond_broadcast, c);
  sim::CvSignal(c, true);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t *c) {
  if (!cur) return REAL(pthread_cond_destroy, c);
  return 0;
}

// Once: 0 new, 1 running (ours), 2 done (as in glibc).
static bool OnceReady(Thread *t) { return *(volatile int *)t->wobj != 1; }
int pthread_once(pthread_once_t *o, void (*fn)(void)) {
  if (!cur) return REAL(pthread_once, o, fn);
  volatile int *st = (volatile int *)o;
  SyncPoint();
  for (;;) {
    if (*st == 2) { Acq(GetSync(o)); return 0; }
    if (*st == 1) { cur->wobj = o; Block(OnceReady, "once", -1); continue; }
    *st = 1;
    try {
      fn();
    } catch (...) {
      *st = 0;
      throw;
    }
    RelStore(GetSync(o));
    *st = 2;
    return 0;
  }
}

// Function-local statics.
static bool GuardReady(Thread *t) { return ((volatile u8 *)t->wobj)[1] != 1; }
int __cxa_guard_acquire(u64 *g) {
  u8 *b = (u8 *)g;
  if (!cur) {
    if (__atomic_load_n(&b[0], __ATOMIC_ACQUIRE)) return 0;
    b[1] = 1;
    return 1;
  }
  SyncPoint();
  for (;;) {
    if (b[0]) { Acq(GetSync(g)); return 0; }
    if (b[1] == 1) { cur->wobj = g; Block(GuardReady, "initialisation of a static", -1); continue; }
    b[1] = 1;
    return 1;
  }
}
void __cxa_guard_release(u64 *g) {
  u8 *b = (u8 *)g;
  if (cur) RelStore(GetSync(g));
  b[1] = 0;
  __atomic_store_n(&b[0], 1, __ATOMIC_RELEASE);
}
void __cxa_guard_abort(u64 *g) { ((u8 *)g)[1] = 0; }

int sched_yield(void) {
  if (!cur) return REAL(sched_yield);
  SyncPoint();
  return 0;
}

// Raw futex use (std::future, std::atomic::wait).
struct FutexW { u32 *addr; u32 val; bool woken; };
static bool FutexReady(Thread *t) { return t->cv_signaled; }
long syscall(long no, ...) noexcept {
  va_list ap;
  va_start(ap, no);
  long a[6];
  for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
  va_end(ap);
  if (cur && no == SYS_futex && g_in_sim) {
    int op = (int)a[1] & 0x7f;
    u32 *addr = (u32 *)a[0];
    // The runtime's own baton words live in g_threads.
    bool own = (u8 *)addr >= (u8 *)g_threads && (u8 *)addr < (u8 *)(g_threads + kMaxThreads);
    if (!own && addr != &g_main_done) {
      if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
        Schedule(false);
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != (u32)a[2]) { errno = EAGAIN; return -1; }
        i64 wake = -1;
        const struct timespec *ts = (const struct timespec *)a[3];
        if (ts) {
          if (op == FUTEX_WAIT) wake = g_mono + ts->tv_sec * 1000000000ll + ts->tv_nsec;
          else wake = AbsToWake(((int)a[1] & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
        }
        CvQueue *q = GetCv(addr);
        q->q[q->n++] = cur->tid;
        cur->cv_signaled = false;
        bool ok = Block(FutexReady, "futex wait", wake);
        if (!ok) { CvRemove(q, cur->tid); errno = ETIMEDOUT; return -1; }
        cur->cv_signaled = false;
        return 0;
      }
      if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
        CvQueue *q = GetCv(addr);
        long n = 0;
        while (q->n > 0 && n < a[2]) {
          int t = q->q[0];
          CvRemove(q, t);
          g_threads[t].cv_signaled = true;
          n++;
        }
        Schedule(false);
        return n;
      }
    }
  }
  long ret;
  register long r10 __asm__("r10") = a[3];
  register long r8 __asm__("r8") = a[4];
  register long r9 __asm__("r9") = a[5];
  __asm__ volatile("syscall" : "=a"(ret) : "a"(no), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (ret < 0 && ret > -4096) { errno = (int)-ret; return -1; }
  return ret;
}

// ---------------------------------------------------------------------------
// Clocks
// ---------------------------------------------------------------------------
}  // extern "C"

namespace {
void ClockRead() {
  g_nclock++;
  g_mono += 50;
  g_cpu += 50;
  if (!g_clock_jumps) return;
  u64 k = g_nclock;
  i64 d = 0;
  if (IN->replay) {
    while (g_cpos < IN->nC && IN->C[g_cpos].k < k) g_cpos++;
    if (g_cpos < IN->nC && IN->C[g_cpos].k == k) d = IN->C[g_cpos].delta;
  } else if (g_rc.Below(3) == 0) {
    u64 mag = 1ull << (10 + g_rc.Below(44));
    d = (i64)g_rc.Below(mag);
    if (g_rc.Below(3) != 0) d = -d;
  }
  if (d) {
    g_wall_off += d;
    sim::Probe(d < 0 ? "clock-step-back" : "clock-step-forward");
    g_fault_hash = HashMix(HashMix(g_fault_hash, k), (u64)d);
    if (R->nC < kMaxC) { R->C[R->nC].k = k; R->C[R->nC].delta = d; R->nC++; }
    LogEv("wall clock steps by %lld ns", (long long)d);
  }
}
void Ts(i64 t, struct timespec *ts) { ts->tv_sec = t / 1000000000ll; ts->tv_nsec = t % 1000000000ll; }
bool NeverReady(Thread *) { return false; }
void SimSleep(i64 ns) {
  Block(NeverReady, "sleep", g_mono + (ns > 0 ? ns : 0));
  EvHash(0x51, (u64)ns);
}
}  // namespace

namespace sim {
int64_t MonoNs() { return g_mono; }
int64_t WallNs() { return g_mono + g_wall_off; }
void AdvanceNs(int64_t ns) { g_mono += ns; }
void SetClockJumps(bool on) { g_clock_jumps = on; }
}  // namespace sim

extern "C" {
int clock_gettime(clockid_t c, struct timespec *ts) noexcept {
  if (!cur) return (int)syscall(SYS_clock_gettime, c, ts);
  ClockRead();
  if (c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) {
    Ts(g_cpu, ts);
    return 0;
  }
  bool wall = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI;
  Ts(wall ? g_mono + g_wall_off : g_mono, ts);
  return 0;
}
clock_t clock(void) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
  return (clock_t)(ts.tv_sec * CLOCKS_PER_SEC + ts.tv_nsec / (1000000000 / CLOCKS_PER_SEC));
}
int gettimeofday(struct timeval *tv, void *tz) noexcept {
  if (!cur) return (int)syscall(SYS_gettimeofday, tv, tz);
  ClockRead();
  i64 t = g_mono + g_wall_off;
  tv->tv_sec = t / 1000000000ll; tv->tv_usec = (t % 1000000000ll) / 1000;
  return 0;
}
time_t time(time_t *out) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (out) *out = ts.tv_sec;
  return ts.tv_sec;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
  if (!cur) return (int)syscall(SYS_nanosleep, a, b);
  SimSleep(a->tv_sec * 1000000000ll + a->tv_nsec);
  if (b) b->tv_sec = b->tv_nsec = 0;
  return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *a, struct timespec *b) {
  if (!cur) { long r = syscall(SYS_clock_nanosleep, c, flags, a, b); return r < 0 ? errno : 0; }
  if (flags & TIMER_ABSTIME) {
    i64 w = AbsToWake(c, a);
    SimSleep(w - g_mono);
  } else {
    SimSleep(a->tv_sec * 1000000000ll + a->tv_nsec);
  }
  return 0;
}
// The number of processors is one of the simulated machine's properties.
int get_nprocs(void) noexcept { return cur ? g_ncpu : REAL(get_nprocs); }
int get_nprocs_conf(void) noexcept { return cur ? g_ncpu : REAL(get_nprocs_conf); }
long sysconf(int name) noexcept {
  if (cur && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return g_ncpu;
  return REAL(sysconf, name);
}
int sched_getaffinity(pid_t pid, size_t n, cpu_set_t *set) noexcept {
  if (!cur) return REAL(sched_getaffinity, pid, n, set);
  memset(set, 0, n);
  for (int i = 0; i < g_ncpu && i < (int)(8 * n); i++) CPU_SET_S(i, n, set);
  return 0;
}
int usleep(useconds_t u) {
  struct timespec ts = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000};
  return nanosleep(&ts, nullptr);
}
unsigned sleep(unsigned s) {
  struct timespec ts = {(time_t)s, 0};
  nanosleep(&ts, nullptr);
  return 0;
}
}  // extern "C"

// ---------------------------------------------------------------------------
// Files: everything below /sim/ lives in memory
// ---------------------------------------------------------------------------
namespace {

struct Inode {
  char path[256];
  bool linked;
  u8 *data;
  size_t size, cap;
  int refs;
  size_t last_write;   // bytes of the most recent write (lost by a failed close)
};
struct OpenFd {
  bool used;
  Inode *ino;
  size_t pos;
  int flags;
  FILE *file;
  bool wrote;
};
const int kFdBase = 10000, kMaxFd = 256, kMaxIno = 512;
Inode *g_ino;
int g_nino;
OpenFd *g_fd;
unsigned g_fault_kinds;
u64 g_fired[16];
bool g_disk_full;

const char *const kSimPrefix = "/sim/";

bool IsSim(const char *p) { return cur && p && strncmp(p, kSimPrefix, 5) == 0; }
bool IsSimFd(int fd) { return cur && fd >= kFdBase && fd < kFdBase + kMaxFd && g_fd[fd - kFdBase].used; }

void Normalize(const char *in, char *out) {  // collapse "//" and "/./"
  size_t o = 0;
  for (const char *p = in; *p && o < 254;) {
    if (p[0] == '/' && p[1] == '/') { p++; continue; }
    if (p[0] == '/' && p[1] == '.' && (p[2] == '/' || !p[2])) { p += 2; continue; }
    out[o++] = *p++;
  }
  out[o] = 0;
}

Inode *FindIno(const char *path) {
  char b[256];
  Normalize(path, b);
  for (int i = 0; i < g_nino; i++)
    if (g_ino[i].linked && strcmp(g_ino[i].path, b) == 0) return &g_ino[i];
  return nullptr;
}
Inode *NewIno(const char *path) {
  char b[256];
  Normalize(path, b);
  Inode *ino = nullptr;
  for (int i = 0; i < g_nino; i++)
    if (!g_ino[i].linked && g_ino[i].refs == 0) { ino = &g_ino[i]; break; }
  if (!ino) {
    if (g_nino == kMaxIno) sim::HarnessError("too many simulated files");
    ino = &g_ino[g_nino++];
  }
  strcpy(ino->path, b);
  ino->linked = true;
  ino->size = 0;
  ino->refs = 0;
  ino->last_write = 0;
  return ino;
}
void Reserve(Inode *f, size_t n) {
  if (n <= f->cap) return;
  size_t c = f->cap ? f->cap * 2 : 4096;
  while (c < n) c *= 2;
  u8 *d = (u8 *)RtAlloc(c);
  if (f->size) memcpy(d, f->data, f->size);
  f->data = d;
  f->cap = c;
}

int KindIndex(unsigned k) { return __builtin_ctz(k); }
const char *const kKindNames[] = {"read-EIO", "read-EINTR", "short-read", "write-EIO",
                                  "write-ENOSPC", "write-EINTR", "short-write", "open-fail",
                                  "close-fail", "stat-fail", "seek-fail", "rename-fail",
                                  "unlink-fail"};

// Decides whether the I/O operation that starts now suffers a fault.
unsigned IoFault(unsigned possible, u32 *param, const char *what, const char *path) {
  u64 k = g_nio++;
  unsigned mask = possible & g_fault_kinds;
  unsigned kind = 0;
  *param = 0;
  if (IN->replay) {
    while (g_fpos < IN->nF && IN->F[g_fpos].k < k) g_fpos++;
    if (g_fpos < IN->nF && IN->F[g_fpos].k == k && (IN->F[g_fpos].kind & mask)) {
      kind = IN->F[g_fpos].kind;
      *param = IN->F[g_fpos].param;
    }
  } else if (mask) {
    bool fire = false;
    if (cfg.fault_mode == 1) fire = k >= cfg.fault_at && !g_fired[15];
    else if (cfg.fault_mode == 2) fire = g_rf.Below(256) < cfg.fault_rate;
    if (fire) {
      int n = __builtin_popcount(mask), i = (int)g_rf.Below(n);
      unsigned m = mask;
      while (i-- > 0) m &= m - 1;
      kind = m & (~m + 1);
      *param = (u32)g_rf.Next();
    }
  }
  if (kind) {
    g_fired[KindIndex(kind)]++;
    if (!(kind & sim::kBenignFaults) || g_rf.Below(2)) g_fired[15]++;
    EvHash(0x61, HashMix(k, kind));
    g_fault_hash = HashMix(HashMix(HashMix(g_fault_hash, k), kind), *param);
    if (R->nF < kMaxF) {
      R->F[R->nF].k = k; R->F[R->nF].kind = kind; R->F[R->nF].param = *param; R->nF++;
    }
    for (int i = 0; i < 15; i++) R->fired[i] = g_fired[i];
    LogEv("FAULT %s on %s of %s", kKindNames[KindIndex(kind)], what, path);
  }
  return kind;
}

int OpenErr(u32 param) {
  static const int e[] = {EACCES, EMFILE, EIO, ENFILE};
  return e[param % 4];
}

int SimOpen(const char *path, int flags) {
  u32 prm;
  int acc = flags & O_ACCMODE;
  if (IoFault(sim::kOpenFail, &prm, "open", path)) { errno = OpenErr(prm); return -1; }
  Inode *f = FindIno(path);
  if (!f) {
    if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
    f = NewIno(path);
  } else if ((flags & O_CREAT) && (flags & O_EXCL)) {
    errno = EEXIST;
    return -1;
  }
  if ((flags & O_TRUNC) && acc != O_RDONLY) { f->size = 0; f->last_write = 0; }
  for (int i = 0; i < kMaxFd; i++) {
    if (g_fd[i].used) continue;
    memset(&g_fd[i], 0, sizeof(g_fd[i]));
    g_fd[i].used = true;
    g_fd[i].ino = f;
    g_fd[i].flags = flags;
    f->refs++;
    EvHash(0x62, i);
    LogEv("open %s -> %d", path, kFdBase + i);
    return kFdBase + i;
  }
  errno = EMFILE;
  return -1;
}

ssize_t SimRead(int fd, void *buf, size_t n) {
  OpenFd *o = &g_fd[fd - kFdBase];
  u32 prm;
  if ((o->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
  size_t avail = o->pos < o->ino->size ? o->ino->size - o->pos : 0;
  if (n > avail) n = avail;
  unsigned k = IoFault(sim::kReadEIO | sim::kReadEINTR | (n > 1 ? sim::kReadShort : 0), &prm,
                       "read", o->ino->path);
  if (k == sim::kReadEIO) { errno = EIO; return -1; }
  if (k == sim::kReadEINTR) { errno = EINTR; return -1; }
  if (k == sim::kReadShort) n = 1 + prm % (n - 1);
  memcpy(buf, o->ino->data + o->pos, n);
  o->pos += n;
  LogEv("read %s -> %zu", o->ino->path, n);
  return (ssize_t)n;
}

ssize_t SimWrite(int fd, const void *buf, size_t n) {
  OpenFd *o = &g_fd[fd - kFdBase];
  u32 prm;
  if ((o->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  if (n == 0) return 0;
  unsigned k = IoFault(sim::kWriteEIO | sim::kWriteEINTR | sim::kWriteENOSPC |
                           (n > 1 ? sim::kWriteShort : 0),
                       &prm, "write", o->ino->path);
  if (g_disk_full && (g_fault_kinds & sim::kWriteENOSPC)) {  // still full
    int i = KindIndex(sim::kWriteENOSPC);
    R->fired[i] = ++g_fired[i];
    errno = ENOSPC;
    return -1;
  }
  if (k == sim::kWriteEIO) { errno = EIO; return -1; }
  if (k == sim::kWriteEINTR) { errno = EINTR; return -1; }
  if (k == sim::kWriteENOSPC) {
    if (prm & 1) g_disk_full = true;  // stays full
    size_t part = (prm >> 1) % (n + 1);
    if (part == n || part == 0) { errno = ENOSPC; return -1; }
    n = part;  // torn: a prefix still fits, the next write fails
    g_disk_full = true;
  }
  if (k == sim::kWriteShort) n = 1 + prm % (n - 1);
  size_t pos = (o->flags & O_APPEND) ? o->ino->size : o->pos;
  Reserve(o->ino, pos + n);
  if (pos > o->ino->size) memset(o->ino->data + o->ino->size, 0, pos - o->ino->size);
  memcpy(o->ino->data + pos, buf, n);
  if (pos + n > o->ino->size) o->ino->size = pos + n;
  o->pos = pos + n;
  o->ino->last_write = n;
  o->wrote = true;
  LogEv("write %s %zu", o->ino->path, n);
  return (ssize_t)n;
}

i64 SimSeek(int fd, i64 off, int whence) {
  OpenFd *o = &g_fd[fd - kFdBase];
  u32 prm;
  if (IoFault(sim::kSeekFail, &prm, "seek", o->ino->path)) { errno = EIO; return -1; }
  i64 base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (i64)o->pos : (i64)o->ino->size;
  i64 np = base + off;
  if (np < 0) { errno = EINVAL; return -1; }
  o->pos = (size_t)np;
  return np;
}

int SimClose(int fd) {
  OpenFd *o = &g_fd[fd - kFdBase];
  u32 prm;
  int r = 0;
  if (IoFault(o->wrote ? sim::kCloseFail : 0, &prm, "close", o->ino->path)) {
    // Delayed write error: the tail of the last write never reached the disk.
    size_t lost = o->ino->last_write ? 1 + prm % o->ino->last_write : 0;
    if (lost > o->ino->size) lost = o->ino->size;
    o->ino->size -= lost;
    errno = EIO;
    r = -1;
  }
  o->ino->refs--;
  o->used = false;
  o->file = nullptr;
  LogEv("close %s -> %d", o->ino->path, r);
  return r;
}

int DirLike(const char *p) {
  char b[256];
  Normalize(p, b);
  size_t l = strlen(b);
  if (l && b[l - 1] == '/') b[--l] = 0;
  if (strcmp(b, "/sim") == 0 || strcmp(b, "/sim/tmp") == 0) return 1;
  for (int i = 0; i < g_nino; i++)
    if (g_ino[i].linked && strncmp(g_ino[i].path, b, l) == 0 && g_ino[i].path[l] == '/') return 1;
  return 0;
}

int SimStat(const char *p, struct stat *st) {
  u32 prm;
  if (IoFault(sim::kStatFail, &prm, "stat", p)) {
    static const int e[] = {EACCES, EIO, ENOMEM};
    errno = e[prm % 3];
    if (st) memset(st, 0xa5, sizeof(*st));  // nothing is promised about it
    return -1;
  }
  Inode *f = FindIno(p);
  if (st) memset(st, 0, sizeof(*st));
  if (!f) {
    if (DirLike(p)) { if (st) { st->st_mode = S_IFDIR | 0755; st->st_nlink = 1; } return 0; }
    errno = ENOENT;
    return -1;
  }
  if (st) {
    st->st_mode = S_IFREG | 0644;
    st->st_size = (off_t)f->size;
    st->st_nlink = 1;
    st->st_blksize = 4096;
    st->st_ino = (ino_t)(f - g_ino + 1);
  }
  return 0;
}
int SimFstat(int fd, struct stat *st) {
  OpenFd *o = &g_fd[fd - kFdBase];
  u32 prm;
  if (IoFault(sim::kStatFail, &prm, "fstat", o->ino->path)) { errno = EIO; return -1; }
  memset(st, 0, sizeof(*st));
  st->st_mode = S_IFREG | 0644;
  st->st_size = (off_t)o->ino->size;
  st->st_blksize = 4096;
  st->st_nlink = 1;
  return 0;
}

// stdio on top: cookie streams.  The cookie is the descriptor.
ssize_t CkRead(void *c, char *b, size_t n) { return SimRead((int)(intptr_t)c, b, n); }
ssize_t CkWrite(void *c, const char *b, size_t n) {
  // As glibc's own file streams do: short counts are continued, any error ends
  // the attempt and is reported by stdio as a write error.
  size_t done = 0;
  while (done < n) {
    ssize_t r = SimWrite((int)(intptr_t)c, b + done, n - done);
    if (r < 0) break;
    done += (size_t)r;
  }
  return (ssize_t)done;
}
int CkSeek(void *c, off64_t *off, int whence) {
  i64 r = SimSeek((int)(intptr_t)c, *off, whence);
  if (r < 0) return -1;
  *off = r;
  return 0;
}
int CkClose(void *c) { return SimClose((int)(intptr_t)c); }

int ModeFlags(const char *m) {
  bool plus = strchr(m, '+') != nullptr;
  switch (m[0]) {
    case 'r': return plus ? O_RDWR : O_RDONLY;
    case 'w': return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC | (strchr(m, 'x') ? O_EXCL : 0);
    case 'a': return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  }
  return -1;
}
FILE *MakeFile(int fd, const char *mode) {
  cookie_io_functions_t io = {CkRead, CkWrite, CkSeek, CkClose};
  FILE *f = fopencookie((void *)(intptr_t)fd, mode, io);
  if (!f) { SimClose(fd); return nullptr; }
  g_fd[fd - kFdBase].file = f;
  return f;
}
FILE *SimFopen(const char *path, const char *mode) {
  int fl = ModeFlags(mode);
  if (fl < 0) { errno = EINVAL; return nullptr; }
  int fd = SimOpen(path, fl);
  if (fd < 0) return nullptr;
  return MakeFile(fd, mode);
}
int FdOfFile(FILE *f) {
  for (int i = 0; i < kMaxFd; i++) if (g_fd[i].used && g_fd[i].file == f) return kFdBase + i;
  return -1;
}

}  // namespace

extern "C" {
FILE *fopen(const char *p, const char *m) {
  if (IsSim(p)) return SimFopen(p, m);
  return REAL(fopen, p, m);
}
FILE *fopen64(const char *p, const char *m) {
  if (IsSim(p)) return SimFopen(p, m);
  return REAL(fopen64, p, m);
}
FILE *fdopen(int fd, const char *m) noexcept {
  if (IsSimFd(fd)) return MakeFile(fd, m);
  return REAL(fdopen, fd, m);
}
int fileno(FILE *f) noexcept {
  if (cur) { int fd = FdOfFile(f); if (fd >= 0) return fd; }
  return REAL(fileno, f);
}
int open(const char *p, int fl, ...) {
  va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
  if (IsSim(p)) return SimOpen(p, fl);
  return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
}
int open64(const char *p, int fl, ...) {
  va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
  if (IsSim(p)) return SimOpen(p, fl);
  return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
}
int openat(int d, const char *p, int fl, ...) {
  va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
  if (IsSim(p)) return SimOpen(p, fl);
  return (int)syscall(SYS_openat, d, p, fl, mode);
}
int creat(const char *p, mode_t m) {
  if (IsSim(p)) return SimOpen(p, O_CREAT | O_WRONLY | O_TRUNC);
  return (int)syscall(SYS_openat, AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m);
}
static int SimMkstemp(char *tmpl, int suffix) {
  size_t l = strlen(tmpl);
  static int n;
  for (;;) {
    char b[16];
    snprintf(b, sizeof(b), "%06d", ++n);
    memcpy(tmpl + l - suffix - 6, b, 6);
    if (!FindIno(tmpl)) break;
  }
  return SimOpen(tmpl, O_CREAT | O_EXCL | O_RDWR);
}
int mkstemp(char *t) { if (IsSim(t)) return SimMkstemp(t, 0); return REAL(mkstemp, t); }
int mkostemp(char *t, int f) { if (IsSim(t)) return SimMkstemp(t, 0); return REAL(mkostemp, t, f); }
int mkstemps(char *t, int s) { if (IsSim(t)) return SimMkstemp(t, s); return REAL(mkstemps, t, s); }
ssize_t read(int fd, void *b, size_t n) {
  if (IsSimFd(fd)) return SimRead(fd, b, n);
  return syscall(SYS_read, fd, b, n);
}
ssize_t pread(int fd, void *b, size_t n, off_t off) {
  if (IsSimFd(fd)) {
    OpenFd *o = &g_fd[fd - kFdBase];
    size_t save = o->pos; o->pos = off;
    ssize_t r = SimRead(fd, b, n);
    o->pos = save;
    return r;
  }
  return syscall(SYS_pread64, fd, b, n, off);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t off) { return pread(fd, b, n, off); }
ssize_t readv(int fd, const struct iovec *v, int c) {
  if (IsSimFd(fd)) {
    for (int i = 0; i < c; i++) if (v[i].iov_len) return SimRead(fd, v[i].iov_base, v[i].iov_len);
    return 0;
  }
  return syscall(SYS_readv, fd, v, c);
}
ssize_t write(int fd, const void *b, size_t n) {
  if (IsSimFd(fd)) return SimWrite(fd, b, n);
  if (cur && fd >= 1 && fd <= 2 && !IN->verbose) return (ssize_t)n;  // drop chatter
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (IsSimFd(fd)) {
    size_t t = 0;
    for (int i = 0; i < c; i++) t += v[i].iov_len;
    if (t == 0) return 0;
    u8 *b = (u8 *)RtAlloc(t);
    size_t o = 0;
    for (int i = 0; i < c; i++) { memcpy(b + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
    return SimWrite(fd, b, t);
  }
  if (cur && fd >= 1 && fd <= 2 && !IN->verbose) {
    ssize_t t = 0;
    for (int i = 0; i < c; i++) t += v[i].iov_len;
    return t;
  }
  return syscall(SYS_writev, fd, v, c);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t off) {
  if (IsSimFd(fd)) {
    OpenFd *o = &g_fd[fd - kFdBase];
    size_t save = o->pos; o->pos = off;
    ssize_t r = SimWrite(fd, b, n);
    o->pos = save;
    return r;
  }
  return syscall(SYS_pwrite64, fd, b, n, off);
}
off_t lseek(int fd, off_t o, int w) noexcept {
  if (IsSimFd(fd)) return SimSeek(fd, o, w);
  return syscall(SYS_lseek, fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) noexcept {
  if (IsSimFd(fd)) return SimSeek(fd, o, w);
  return syscall(SYS_lseek, fd, o, w);
}
int close(int fd) {
  if (IsSimFd(fd)) return SimClose(fd);
  return (int)syscall(SYS_close, fd);
}
int fsync(int fd) {
  if (IsSimFd(fd)) return 0;
  return (int)syscall(SYS_fsync, fd);
}
int fdatasync(int fd) {
  if (IsSimFd(fd)) return 0;
  return (int)syscall(SYS_fdatasync, fd);
}
int ftruncate(int fd, off_t n) noexcept {
  if (IsSimFd(fd)) {
    Inode *f = g_fd[fd - kFdBase].ino;
    Reserve(f, n);
    if ((size_t)n > f->size) memset(f->data + f->size, 0, n - f->size);
    f->size = n;
    return 0;
  }
  return (int)syscall(SYS_ftruncate, fd, n);
}
int stat(const char *p, struct stat *st) noexcept {
  if (IsSim(p)) return SimStat(p, st);
  return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, 0);
}
int stat64(const char *p, struct stat64 *st) noexcept { return stat(p, (struct stat *)st); }
int lstat(const char *p, struct stat *st) noexcept {
  if (IsSim(p)) return SimStat(p, st);
  return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW);
}
int lstat64(const char *p, struct stat64 *st) noexcept { return lstat(p, (struct stat *)st); }
int fstat(int fd, struct stat *st) noexcept {
  if (IsSimFd(fd)) return SimFstat(fd, st);
  return (int)syscall(SYS_fstat, fd, st);
}
int fstat64(int fd, struct stat64 *st) noexcept { return fstat(fd, (struct stat *)st); }
int fstatat(int d, const char *p, struct stat *st, int f) noexcept {
  if (IsSim(p)) return SimStat(p, st);
  return (int)syscall(SYS_newfstatat, d, p, st, f);
}
int fstatat64(int d, const char *p, struct stat64 *st, int f) noexcept { return fstatat(d, p, (struct stat *)st, f); }
int access(const char *p, int m) noexcept {
  if (IsSim(p)) return SimStat(p, nullptr);
  return (int)syscall(SYS_access, p, m);
}
int faccessat(int d, const char *p, int m, int f) noexcept {
  if (IsSim(p)) return SimStat(p, nullptr);
  return REAL(faccessat, d, p, m, f);
}
int unlink(const char *p) noexcept {
  if (IsSim(p)) {
    u32 prm;
    if (IoFault(sim::kUnlinkFail, &prm, "unlink", p)) { errno = prm & 1 ? EIO : EACCES; return -1; }
    Inode *f = FindIno(p);
    if (!f) { errno = ENOENT; return -1; }
    f->linked = false;
    return 0;
  }
  if (cur) { errno = EPERM; return -1; }  // never touch real files from a run
  return (int)syscall(SYS_unlink, p);
}
int remove(const char *p) noexcept { return unlink(p); }
int rename(const char *a, const char *b) noexcept {
  if (IsSim(a) && IsSim(b)) {
    u32 prm;
    if (IoFault(sim::kRenameFail, &prm, "rename", b)) { errno = prm & 1 ? EIO : EACCES; return -1; }
    Inode *f = FindIno(a);
    if (!f) { errno = ENOENT; return -1; }
    Inode *o = FindIno(b);
    if (o && o != f) o->linked = false;
    Normalize(b, f->path);
    return 0;
  }
  if (cur) { errno = EPERM; return -1; }
  return (int)syscall(SYS_rename, a, b);
}
int mkdir(const char *p, mode_t m) noexcept {
  if (IsSim(p)) return 0;
  if (cur) { errno = EPERM; return -1; }
  return (int)syscall(SYS_mkdir, p, m);
}
int ioctl(int fd, unsigned long req, ...) noexcept {
  va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
  if (IsSimFd(fd)) {
    if (req == FIONREAD) {
      OpenFd *o = &g_fd[fd - kFdBase];
      *(int *)arg = o->pos < o->ino->size ? (int)(o->ino->size - o->pos) : 0;
      return 0;
    }
    errno = ENOTTY;
    return -1;
  }
  return (int)syscall(SYS_ioctl, fd, req, arg);
}
int poll(struct pollfd *p, nfds_t n, int t) {
  if (cur && n == 1 && IsSimFd(p->fd)) { p->revents = p->events; return 1; }
  return (int)syscall(SYS_poll, p, n, t);
}
void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) noexcept {
  if (fd >= kFdBase && IsSimFd(fd)) { errno = ENODEV; return MAP_FAILED; }
  long r = syscall(SYS_mmap, a, n, prot, flags, fd, off);
  return (void *)r;
}
void *mmap64(void *a, size_t n, int prot, int flags, int fd, off64_t off) noexcept {
  return mmap(a, n, prot, flags, fd, off);
}
pid_t fork(void) {
  if (cur) sim::HarnessError("fork inside a simulated run");
  return REAL(fork);
}
void exit(int code) {
  if (cur) {
    char b[64];
    snprintf(b, sizeof(b), "exit(%d) called", code);
    if (code == 0) sim::Violation("exit", "the code under test ended the process with exit(0)");
    sim::Fatal("", 0, b);
  }
  REAL(exit, code);
  __builtin_unreachable();
}
}  // extern "C"

namespace sim {
void SetFaults(unsigned kinds) { g_fault_kinds = kinds; }
uint64_t FaultsFired(unsigned kinds) {
  u64 n = 0;
  for (int i = 0; i < 15; i++) if (kinds & (1u << i)) n += g_fired[i];
  return n;
}
void PutFile(const char *path, const void *data, size_t n) {
  Inode *f = FindIno(path);
  if (!f) f = NewIno(path);
  f->size = 0;
  Reserve(f, n ? n : 1);
  memcpy(f->data, data, n);
  f->size = n;
  f->last_write = 0;
}
bool Slurp(const char *path, char **data, size_t *n) {
  Inode *f = FindIno(path);
  if (!f) return false;
  *n = f->size;
  *data = (char *)malloc(f->size + 1);
  memcpy(*data, f->data, f->size);
  (*data)[f->size] = 0;
  return true;
}
bool FileExists(const char *path) { return FindIno(path) != nullptr; }
int OpenFiles() {
  int n = 0;
  for (int i = 0; i < kMaxFd; i++) n += g_fd[i].used;
  return n;
}

// ---------------------------------------------------------------------------
// Choices, outcome, observation
// ---------------------------------------------------------------------------
// A choice of the surroundings: recorded and minimised like the workload, but
// not counted as a different one.
uint64_t Env(uint64_t n) {
  u64 v;
  u32 pos = g_wpos++;
  if (IN->replay) v = pos < IN->nW ? IN->W[pos] % n : 0;
  else v = g_rw.Below(n);
  if (R->nW < kMaxW) R->W[R->nW++] = v; else R->overflow = 1;
  return v;
}
uint64_t W(uint64_t n) {
  if (n <= 1) return 0;
  u64 v = Env(n);
  g_hash = HashMix(g_hash, v);
  g_work_hash = HashMix(g_work_hash, v);
  return v;
}

void Violation(const char *cls, const char *fmt, ...) {
  snprintf(R->cls, sizeof(R->cls), "%s", cls);
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(R->msg, sizeof(R->msg), fmt, ap);
  va_end(ap);
  R->nontrivial = 1;
  EndRun(kViolation);
}
void HarnessError(const char *fmt, ...) {
  snprintf(R->cls, sizeof(R->cls), "harness");
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(R->msg, sizeof(R->msg), fmt, ap);
  va_end(ap);
  EndRun(kHarness);
}
void AllowFatal(bool a) { g_allow_fatal = a; }
void AllowFatalAfter(unsigned kinds) { g_fatal_kinds = kinds; }
bool FatalAllowed() { return g_allow_fatal || (g_fatal_kinds && FaultsFired(g_fatal_kinds)); }
void Fatal(const char *file, int line, const char *msg) {
  if (!g_in_sim) {
    fprintf(stderr, "fatal outside a run: %s:%d %s\n", file, line, msg);
    _exit(97);
  }
  const char *b = strrchr(file, '/');
  if (FatalAllowed()) {
    R->nontrivial = 1;
    snprintf(R->msg, sizeof(R->msg), "%s:%d %s", b ? b + 1 : file, line, msg);
    EndRun(kFatalEnd);
  }
  Violation("fatal", "%s:%d %s", b ? b + 1 : file, line, msg);
}
void Nontrivial() { R->nontrivial = 1; }
void Note(const char *fmt, ...) {
  char buf[2000];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  if (n >= (int)sizeof(buf)) n = sizeof(buf) - 1;
  u64 h = 1469598103934665603ull;
  for (int i = 0; i < n; i++) h = (h ^ (u8)buf[i]) * 1099511628211ull;
  EvHash(0x71, h);
  g_nnotes++;
  LogEv("%s", buf);
}
void Probe(const char *name, uint64_t add) {
  for (u32 i = 0; i < R->nprobes; i++)
    if (strcmp(R->probes[i].name, name) == 0) { R->probes[i].count += add; return; }
  if (R->nprobes == (u32)kMaxProbes) return;
  ProbeEnt &e = R->probes[R->nprobes++];
  snprintf(e.name, sizeof(e.name), "%s", name);
  e.count = add;
}
uint64_t Seq() { return ++g_seq; }

static Scenario *g_scenarios;
Scenario::Scenario(const char *n, void (*f)()) : name(n), fn(f), next(g_scenarios) {
  g_scenarios = this;
}
}  // namespace sim

// ---------------------------------------------------------------------------
// One run, and the zygote that forks a child for every run
// ---------------------------------------------------------------------------
namespace {

void OnSignal(int sig, siginfo_t *si, void *uc) {
  (void)si;
  if (!g_in_sim) {
    signal(sig, SIG_DFL);
    raise(sig);
    return;
  }
  if (sig == SIGALRM) {
    snprintf(R->cls, sizeof(R->cls), "timeout");
    snprintf(R->msg, sizeof(R->msg), "wall-clock limit of one run exceeded");
    EndRun(kTimeout);
  }
  char msg[3000];
  snprintf(msg, sizeof(msg), "signal %d (%s)", sig, strsignal(sig));
  if (sig != SIGABRT) {
    Append(msg, sizeof(msg), " in ");
    Sym(msg, sizeof(msg), (uintptr_t)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP]);
  }
  if (sig == SIGABRT && sim::FatalAllowed()) {
    R->nontrivial = 1;
    snprintf(R->msg, sizeof(R->msg), "%s", msg);
    EndRun(kFatalEnd);
  }
  sim::Violation("crash", "%s", msg);
}

void *SimMain(void *p) {
  Thread *self = (Thread *)p;
  ParkUntilRunning(self);
  AltStack();
  sim::Scenario *s = (sim::Scenario *)self->arg;
  static const int kCpus[] = {8, 1, 2, 3, 64};
  g_ncpu = kCpus[sim::Env(5)];
  u64 stall = sim::Env(32);
  if (stall > 23) g_stall_iv = 1 + (stall - 24) * (stall - 24);
  g_stall_ns = 1000ll << sim::Env(36);  // Up to 10 hours at a time.
  s->fn();
  if (g_live != 1)
    sim::Violation("threads-left", "%d threads are still running at the end of the scenario", g_live - 1);
  EndRun(kOk);
}

void DrawCfg(Rng *r, Cfg *c) {
  memset(c, 0, sizeof(*c));
  static const u32 strat[] = {0, 0, 0, 1, 1, 2, 3, 4, 4, 4};
  c->strat = strat[r->Below(10)];
  static const u32 pn[] = {4, 16, 32, 64};
  c->p_num = pn[r->Below(4)];
  c->pct_d = 1 + r->Below(4);
  static const u32 iv[] = {0, 2000, 300, 50, 8, 300};
  c->mem_iv = iv[r->Below(6)];
  c->writerpref = r->Below(2);
  c->spurious = r->Below(4) == 0;
  u32 fm = r->Below(8);
  c->fault_mode = fm == 0 ? 0 : fm < 5 ? 1 : 2;
  static const u32 fr[] = {64, 16, 4, 128};
  c->fault_rate = fr[r->Below(4)];
  c->fault_at = r->Below(1ull << r->Below(10));
  c->victim = r->Below(6);
  c->pct_span = 4 + r->Below(12);
}

void ChildRun(sim::Scenario *s, int wall_ms) {
  memset(R, 0, offsetof(Result, W));
  g_rt_ptr = (u8 *)kRtBase;
  g_sync = (SyncVar **)RtAlloc(sizeof(SyncVar *) * kSyncBuckets);
  g_ino = (Inode *)RtAlloc(sizeof(Inode) * kMaxIno);
  g_fd = (OpenFd *)RtAlloc(sizeof(OpenFd) * kMaxFd);
  g_arena = &g_rarena;
  u64 seed = IN->seed;
  g_rw.Seed(seed, 1); g_rs.Seed(seed, 2); g_rf.Seed(seed, 3); g_rc.Seed(seed, 4);
  Rng rcfg;
  rcfg.Seed(seed, 5);
  if (IN->replay) cfg = IN->cfg; else DrawCfg(&rcfg, &cfg);
  g_npct = cfg.strat == 1 ? (int)cfg.pct_d : 0;
  for (int i = 0; i < g_npct; i++) g_pct[i] = 1 + rcfg.Below(1ull << cfg.pct_span);
  DrawMem();
  Thread *m = NewThread();
  m->vc->c[0] = 1;
  m->prio = 2000 + g_rs.Below(1u << 20);
  m->arg = s;
  struct sigaction sa;
  memset(&sa, 0, sizeof(sa));
  sa.sa_sigaction = OnSignal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM};
  for (int x : sigs) sigaction(x, &sa, nullptr);
  struct itimerval it;
  memset(&it, 0, sizeof(it));
  it.it_value.tv_sec = wall_ms / 1000; it.it_value.tv_usec = (wall_ms % 1000) * 1000;
  setitimer(ITIMER_REAL, &it, nullptr);
  RealCreate(m, SimMain);
  g_in_sim = true;
  UpdateCheck();
  Transfer(m);
  for (;;) pause();
}

char g_line[4096];

bool ReadLine(char *buf, int cap) {
  static char in[4096];
  static int n, p;
  int o = 0;
  for (;;) {
    if (p == n) {
      n = (int)syscall(SYS_read, 0, in, sizeof(in));
      p = 0;
      if (n <= 0) return false;
    }
    char c = in[p++];
    if (c == '\n') { buf[o] = 0; return true; }
    if (o < cap - 1) buf[o++] = c;
  }
}

// Trace files (plain text, parsed without allocation).
char *g_file; size_t g_file_cap = 48u << 20;

bool LoadTrace(const char *path) {
  int fd = (int)syscall(SYS_openat, AT_FDCWD, path, O_RDONLY, 0);
  if (fd < 0) return false;
  size_t n = 0;
  for (;;) {
    long r = syscall(SYS_read, fd, g_file + n, g_file_cap - 1 - n);
    if (r <= 0) break;
    n += r;
  }
  syscall(SYS_close, fd);
  g_file[n] = 0;
  IN->replay = true;
  IN->nW = IN->nS = IN->nM = IN->nF = IN->nC = 0;
  memset(&IN->cfg, 0, sizeof(IN->cfg));
  char *p = g_file;
  while (*p) {
    char *e = strchr(p, '\n');
    if (e) *e = 0;
    if (strncmp(p, "scenario ", 9) == 0) snprintf(IN->scenario, sizeof(IN->scenario), "%s", p + 9);
    else if (strncmp(p, "cfg ", 4) == 0) {
      char *q = p + 4;
      IN->cfg.writerpref = strtoul(q, &q, 10);
      IN->cfg.spurious = strtoul(q, &q, 10);
    } else if (p[0] && p[1] == ' ' && strchr("WSMFC", p[0])) {
      char t = p[0];
      char *q = p + 1;
      for (;;) {
        while (*q == ' ') q++;
        if (!*q) break;
        u64 a = strtoull(q, &q, 10);
        i64 b = 0; u64 c = 0;
        if (*q == ':') { q++; b = strtoll(q, &q, 10); }
        if (*q == ':') { q++; c = strtoull(q, &q, 10); }
        if (*q && *q != ' ') break;
        if (t == 'W' && IN->nW < kMaxW) IN->W[IN->nW++] = a;
        if (t == 'S' && IN->nS < kMaxS) { IN->S[IN->nS].n = a; IN->S[IN->nS++].tid = (u32)b; }
        if (t == 'M' && IN->nM < kMaxM) { IN->M[IN->nM].n = a; IN->M[IN->nM++].tid = (u32)b; }
        if (t == 'F' && IN->nF < kMaxF) { IN->F[IN->nF].k = a; IN->F[IN->nF].kind = (u32)b; IN->F[IN->nF++].param = (u32)c; }
        if (t == 'C' && IN->nC < kMaxC) { IN->C[IN->nC].k = a; IN->C[IN->nC++].delta = b; }
      }
    }
    if (!e) break;
    p = e + 1;
  }
  return true;
}

struct Buf {
  int fd; char b[8192]; int n;
  void Put(const char *fmt, ...) SIM_PRINTF(2, 3) {
    if (n > 8000) Flush();
    va_list ap;
    va_start(ap, fmt);
    n += vsnprintf(b + n, sizeof(b) - n, fmt, ap);
    va_end(ap);
  }
  void Flush() { RawWrite(fd, b, n); n = 0; }
};

void SaveTrace(const char *path, const char *scenario) {
  int fd = (int)syscall(SYS_openat, AT_FDCWD, path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) return;
  static Buf b;
  b.fd = fd; b.n = 0;
  b.Put("simtrace 1\nscenario %s\ncfg %u %u\n", scenario, R->cfg.writerpref, R->cfg.spurious);
  b.Put("W");
  for (u32 i = 0; i < R->nW; i++) b.Put(" %llu", (unsigned long long)R->W[i]);
  b.Put("\nS");
  for (u32 i = 0; i < R->nS; i++) b.Put(" %llu:%u", (unsigned long long)R->S[i].n, R->S[i].tid);
  b.Put("\nM");
  for (u32 i = 0; i < R->nM; i++) b.Put(" %llu:%u", (unsigned long long)R->M[i].n, R->M[i].tid);
  b.Put("\nF");
  for (u32 i = 0; i < R->nF; i++) b.Put(" %llu:%u:%u", (unsigned long long)R->F[i].k, R->F[i].kind, R->F[i].param);
  b.Put("\nC");
  for (u32 i = 0; i < R->nC; i++) b.Put(" %llu:%lld", (unsigned long long)R->C[i].k, (long long)R->C[i].delta);
  b.Put("\n");
  b.Flush();
  syscall(SYS_close, fd);
}

void JsonStr(Buf *b, const char *s) {
  b->Put("\"");
  for (; *s; s++) {
    u8 c = (u8)*s;
    if (c == '"' || c == '\\') b->Put("\\%c", c);
    else if (c < 0x20 || c >= 0x7f) b->Put("\\u%04x", c);
    else b->Put("%c", c);
  }
  b->Put("\"");
}

const char *StatusName(int s) {
  switch (s) {
    case kOk: return "ok";
    case kViolation: return "violation";
    case kHarness: return "harness";
    case kFatalEnd: return "fatal";
    case kTimeout: return "timeout";
  }
  return "died";
}

void Report(int wstatus) {
  static Buf b;
  b.fd = 1; b.n = 0;
  if (!(WIFEXITED(wstatus) && WEXITSTATUS(wstatus) == 0) && R->status != kTimeout) {
    R->status = kDied;
    snprintf(R->cls, sizeof(R->cls), "died");
    snprintf(R->msg, sizeof(R->msg), "run process ended with wait status %d", wstatus);
  }
  if (R->status == kRunning) {
    R->status = kDied;
    snprintf(R->msg, sizeof(R->msg), "run process ended without a result");
  }
  b.Put("{\"status\":\"%s\",\"cls\":", StatusName(R->status));
  JsonStr(&b, R->cls);
  b.Put(",\"msg\":");
  JsonStr(&b, R->msg);
  b.Put(",\"hash\":\"%016llx\",\"sched\":\"%016llx\",\"work\":\"%016llx\",\"fault\":\"%016llx\"",
        (unsigned long long)R->hash, (unsigned long long)R->sched_hash,
        (unsigned long long)R->work_hash, (unsigned long long)R->fault_hash);
  b.Put(",\"nsync\":%llu,\"nmem\":%llu,\"nswitch\":%llu,\"nthreads\":%llu,\"nio\":%llu,\"nclock\":%llu,\"sim_ns\":%llu",
        (unsigned long long)R->nsync, (unsigned long long)R->nmem, (unsigned long long)R->nswitch,
        (unsigned long long)R->nthreads, (unsigned long long)R->nio, (unsigned long long)R->nclock,
        (unsigned long long)R->sim_ns);
  b.Put(",\"nontrivial\":%u,\"overflow\":%u,\"strat\":%u,\"mem_iv\":%u,\"fired\":{", R->nontrivial,
        R->overflow, R->cfg.strat, R->cfg.mem_iv);
  bool first = true;
  for (int i = 0; i < 13; i++)
    if (R->fired[i]) {
      b.Put("%s\"%s\":%llu", first ? "" : ",", kKindNames[i], (unsigned long long)R->fired[i]);
      first = false;
    }
  b.Put("},\"probes\":{");
  for (u32 i = 0; i < R->nprobes; i++) {
    if (i) b.Put(",");
    JsonStr(&b, R->probes[i].name);
    b.Put(":%llu", (unsigned long long)R->probes[i].count);
  }
  b.Put("}}\n");
  b.Flush();
}

sim::Scenario *FindScenario(const char *n) {
  for (sim::Scenario *s = sim::g_scenarios; s; s = s->next)
    if (strcmp(s->name, n) == 0) return s;
  return nullptr;
}

void *MapAt(uintptr_t a, size_t n) {
  void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)a) { RawWrite(2, "simrt: map failed\n", 18); _exit(98); }
  return p;
}

}  // namespace

// Abseil's hash tables order their elements by an address that differs from
// process to process; here the order depends on simulated addresses only.
extern "C" bool __wrap__ZN4absl7debian318container_internal21ShouldInsertBackwardsEmPKNS1_6ctrl_tE(size_t hash, const void *ctrl) {
  return ((hash >> 11) ^ ((uintptr_t)ctrl >> 7)) & 1;
}

// Optional hook run once in the zygote before the first run.
extern "C" void SimZygoteInit() __attribute__((weak));

// Commands on stdin, one per line; one JSON line on stdout for each:
//   seed <scenario> <n> <wall_ms> <trace path or ->
//   replay <path> <wall_ms> <v|-> <trace path or ->
//   list
int main(int argc, char **argv) {
  (void)argc; (void)argv;
  MapAt(kStackBase, kStackRegion);
  MapAt(kRtBase, kRtSize);
  MapAt(kShadowExe, (kExeLimit >> 3) * sizeof(Cell));
  MapAt(kShadowHeap, (kHeapSize >> 3) * sizeof(Cell));
  MapAt(kShadowStack, (kStackRegion >> 3) * sizeof(Cell));
  g_rt_ptr = (u8 *)kRtBase;
  R = (Result *)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  IN = (Input *)mmap(nullptr, sizeof(Input), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_file = (char *)mmap(nullptr, g_file_cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  setenv("TMPDIR", "/sim/tmp", 1);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  if (SimZygoteInit) SimZygoteInit();
  static char w1[4096], w2[64], w3[4096], w4[4096];
  while (ReadLine(g_line, sizeof(g_line))) {
    int wall = 20000;
    const char *trace = nullptr;
    IN->verbose = false;
    if (sscanf(g_line, "seed %4095s %63s %d %4095s", w1, w2, &wall, w3) == 4) {
      IN->replay = false;
      snprintf(IN->scenario, sizeof(IN->scenario), "%.60s", w1);
      IN->seed = strtoull(w2, nullptr, 10);
      if (strcmp(w3, "-") != 0) trace = w3;
    } else if (sscanf(g_line, "replay %4095s %d %63s %4095s", w1, &wall, w2, w4) == 4) {
      IN->seed = 0;
      if (!LoadTrace(w1)) { RawWrite(1, "{\"status\":\"harness\",\"msg\":\"no trace\"}\n", 37); continue; }
      IN->verbose = w2[0] == 'v';
      if (strcmp(w4, "-") != 0) trace = w4;
    } else if (strcmp(g_line, "list") == 0) {
      static Buf b;
      b.fd = 1; b.n = 0;
      for (sim::Scenario *s = sim::g_scenarios; s; s = s->next) b.Put("%s ", s->name);
      b.Put("\n");
      b.Flush();
      continue;
    } else {
      RawWrite(1, "{\"status\":\"harness\",\"msg\":\"bad command\"}\n", 41);
      continue;
    }
    sim::Scenario *s = FindScenario(IN->scenario);
    if (!s) { RawWrite(1, "{\"status\":\"harness\",\"msg\":\"no such scenario\"}\n", 46); continue; }
    R->status = kRunning;
    R->cls[0] = R->msg[0] = 0;
    pid_t pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      ChildRun(s, wall);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (trace && R->status != kRunning) SaveTrace(trace, IN->scenario);
    Report(st);
  }
  syscall(SYS_exit_group, 0);
  return 0;
}
