// Deterministic simulation runtime: public interface used by the harnesses and
// by the shim headers.  See DESIGN.md, section "The C++ simulator".
#ifndef VERIF_SIMRT_H_
#define VERIF_SIMRT_H_

#include <stddef.h>
#include <stdint.h>

#if defined(__GNUC__)
#define SIM_PRINTF(a, b) __attribute__((format(printf, a, b)))
#else
#define SIM_PRINTF(a, b)
#endif

namespace sim {

// ---- choices -------------------------------------------------------------
// Workload draw in [0, n): recorded, replayed and minimised as stream "W".
uint64_t W(uint64_t n);
// Inclusive range.
inline int64_t Range(int64_t lo, int64_t hi) {
  return lo + static_cast<int64_t>(W(static_cast<uint64_t>(hi - lo + 1)));
}
inline bool Chance(int num, int den) {
  // Zero is the "simplest" value for the minimiser, so it means "no".
  return static_cast<int>(W(den)) >= den - num;
}

// ---- outcome -------------------------------------------------------------
[[noreturn]] void Violation(const char *cls, const char *fmt, ...)
    SIM_PRINTF(2, 3);
[[noreturn]] void HarnessError(const char *fmt, ...) SIM_PRINTF(1, 2);
// A failed CHECK/QCHECK, LOG(FATAL), exit() or uncaught exception is a loud
// failure of the code under test.  When allowed it ends the run quietly.
void AllowFatal(bool allowed);
// The same, but only once a fault of the given kinds was delivered.
void AllowFatalAfter(unsigned kinds);
bool FatalAllowed();
[[noreturn]] void Fatal(const char *file, int line, const char *msg);
// Marks the run as non-trivial (the interesting condition was really met).
void Nontrivial();

// ---- observation ---------------------------------------------------------
// Event log: hashed always, printed in verbose replays.
void Note(const char *fmt, ...) SIM_PRINTF(1, 2);
// "This condition was reached" counter, aggregated over runs by name.
void Probe(const char *name, uint64_t add = 1);
uint64_t Seq();  // Global event sequence number (advances on every call).

// ---- threads -------------------------------------------------------------
void Yield();         // A scheduling point.
int ThreadsStarted(); // Number of simulated threads created so far.
int CurrentThread();
int LiveThreads();    // Threads not finished (including the main one).
void SetStepBudget(uint64_t sync_points, uint64_t accesses);
// Suspends shadow/preemption bookkeeping for oracle code.
struct Quiet {
  Quiet();
  ~Quiet();
};

// Mutex model used by the absl/synchronization shims.
typedef bool (*CondFn)(void *arg);
void MuLock(void *mu, bool shared);
void MuUnlock(void *mu, bool shared);
bool MuTryLock(void *mu, bool shared);
// Waits (mutex held, shared or not) until fn(arg); optional simulated timeout
// in ns (<0: none).  Returns false on timeout.
bool MuAwait(void *mu, bool shared, CondFn fn, void *arg, int64_t timeout_ns);
bool MuHeld(void *mu);
bool MuSharedByMe(void *mu);  // held by this thread as a reader
void MuDestroy(void *mu);
// Condition variable.
bool CvWait(void *cv, void *mu, int64_t timeout_ns);
void CvSignal(void *cv, bool all);
// One-shot events (Notification etc.): release/acquire edges and waiting.
void HbRelease(void *obj);
void HbAcquire(void *obj);
bool WaitUntil(CondFn fn, void *arg, int64_t timeout_ns);

// Annotates an access made by uninstrumented code.
void AnnotateRead(const void *p, size_t n);
void AnnotateWrite(const void *p, size_t n);

// ---- clock ---------------------------------------------------------------
int64_t MonoNs();
int64_t WallNs();
void AdvanceNs(int64_t ns);  // Simulated time passes for everybody.
void SetClockJumps(bool on); // Seeded jumps of the wall clock while on.

// ---- files ---------------------------------------------------------------
enum FaultKind {
  kReadEIO = 1, kReadEINTR = 2, kReadShort = 4,
  kWriteEIO = 8, kWriteENOSPC = 16, kWriteEINTR = 32, kWriteShort = 64,
  kOpenFail = 128, kCloseFail = 256, kStatFail = 512, kSeekFail = 1024,
  kRenameFail = 2048, kUnlinkFail = 4096,
};
const unsigned kBenignFaults = kReadShort | kWriteShort | kReadEINTR |
                               kWriteEINTR;
// Enables the given fault kinds for paths under /sim/ from now on.
void SetFaults(unsigned kinds);
// Number of faults of the given kinds delivered so far in this run.
uint64_t FaultsFired(unsigned kinds);
// Unfaulted access for oracles and set-up; `data` is malloc'ed by Slurp.
void PutFile(const char *path, const void *data, size_t n);
bool Slurp(const char *path, char **data, size_t *n);
bool FileExists(const char *path);
// Number of descriptors opened under /sim/ and not closed.
int OpenFiles();

// ---- scenarios -----------------------------------------------------------
struct Scenario {
  Scenario(const char *name, void (*fn)());
  const char *name;
  void (*fn)();
  Scenario *next;
};

}  // namespace sim

#define SIM_SCENARIO(ident)                                   \
  static void sim_scn_##ident();                              \
  static ::sim::Scenario sim_reg_##ident(#ident, sim_scn_##ident); \
  static void sim_scn_##ident()

#endif  // VERIF_SIMRT_H_
