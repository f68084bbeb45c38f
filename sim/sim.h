// Deterministic simulator: public interface used by the workloads.
//
// One run = one forked process = a pure function of three choice streams
// (workload, faults, schedule), which in search mode are filled from a PRNG
// derived from one seed and in replay mode are read back from a file.  A
// stream that is exhausted in replay mode yields 0, the "simplest" choice.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace sim {

enum Stream { W = 0, F = 1, S = 2 }; // workload, faults, schedule
constexpr int kStreams = 3;

// --- choices -----------------------------------------------------------
// Uniform in [0, n).  0 is the simplest choice.
std::uint64_t pick(Stream s, std::uint64_t n);
inline std::uint64_t w(std::uint64_t n) { return pick(W, n); }
inline std::uint64_t f(std::uint64_t n) { return pick(F, n); }
// lo..hi inclusive
inline std::int64_t range(std::int64_t lo, std::int64_t hi) {
  return lo + static_cast<std::int64_t>(
                  pick(W, static_cast<std::uint64_t>(hi - lo + 1)));
}
// True with probability num/den (0 => false, so "no" is the simplest).
bool chance(Stream s, std::uint64_t num, std::uint64_t den);
// Uniform real in [lo, hi) on a grid of 2^20 values.
double real(double lo, double hi);
// Standard-normal-ish deviate (sum of uniforms), for data only.
double gauss();

// --- observations -----------------------------------------------------
// All counters live in shared memory and are reported in the evidence file.
void fault_fired(const char *kind);            // an injected fault happened
void probe(const char *name, std::uint64_t n = 1); // a rare state was reached
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void log_bytes(const void *p, std::size_t n); // contributes to the trace hash
// An evaluation of the property's oracle; `nontrivial` and `sig` feed the
// distinct_nontrivial count.
void evaluated(bool nontrivial, std::uint64_t sig);
void evaluated(bool nontrivial);
// Ends the run: the property is violated.  `cls` is the violation class that
// minimisation has to preserve.
[[noreturn]] void violation(const char *cls, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
// Ends the run: harness problem, not a verdict.
[[noreturn]] void harness_error(const char *fmt, ...)
    __attribute__((format(printf, 1, 2)));
// Ends the run successfully (used from the abort handler).
[[noreturn]] void finish_ok();
// While > 0, an ALBATROSS_ASSERT abort is a legal fail-stop outcome: the run
// ends there and counts as ok ("failstop").
void allow_failstop(bool on, const char *why = "");

// Inside this scope a failed assertion of the code under test is thrown as an
// AssertionFailed instead of ending the run.
struct AssertionFailed {
  std::string what;
};
struct AssertThrows {
  AssertThrows();
  ~AssertThrows();
};

// --- the simulated machine ----------------------------------------------
// Between begin() and end() threads, mutexes, condition variables, futures,
// once flags, sleeps and clocks of this process belong to the scheduler.
struct SchedConfig {
  // 0: preempt only where a thread blocks; 1: random preemption with mean gap
  // `gap`; 2: priority based (PCT) with `changes` priority changes in the
  // first `horizon` steps.
  int policy = 1;
  std::uint64_t gap = 50;
  int changes = 3;
  std::uint64_t horizon = 20000;
  bool spurious = false;      // spurious condition variable wake-ups
  bool stalls = false;        // a thread may be frozen for a long time
  bool races = true;          // data race detection
  std::uint64_t step_cap = 40000000;
  int preempt_budget = 400;
};
SchedConfig random_sched(); // swarm: drawn from the schedule stream
void begin(const SchedConfig &c);
void end(); // all threads but the caller must have finished
bool active();
int self();              // simulated thread id (0 = the run's main thread)
int live_threads();      // started and not yet finished, including the caller
void yield_point();      // explicit preemption point
std::uint64_t steps();   // global step counter (orders events)
std::uint64_t now_ns();  // simulated clock
void set_step_cap(std::uint64_t cap);
std::uint64_t step_cap();
void spawn_fail_after(int n); // pthread_create returns EAGAIN at the n-th call

// --- allocation faults -----------------------------------------------------
// Fails the k-th heap allocation (k = 0 is the next one) made while armed;
// `only_main` restricts it to simulated thread 0.
void arm_alloc_fault(std::uint64_t k, bool only_main = false);
void disarm_alloc_fault();
bool alloc_fault_fired();
void count_allocs_begin();
std::uint64_t count_allocs_end();
// Net number of live heap blocks allocated by this process.
std::int64_t live_blocks();
// Scope in which allocations are exempt (harness bookkeeping).
struct NoFault {
  NoFault();
  ~NoFault();
};
// Fails the k-th ThreadPool::enqueue made while armed.
void arm_enqueue_fault(std::uint64_t k);
void disarm_enqueue_fault();
// Swarm knob: number of tasks that may be running in pools right now.
int pool_tasks_running();

// Mark a scope as uninstrumented bookkeeping of the harness: no preemption and
// no race bookkeeping happen inside.
struct Quiet {
  Quiet();
  ~Quiet();
};

// --- hashing -----------------------------------------------------------
std::uint64_t mix(std::uint64_t h, std::uint64_t v);
std::uint64_t hash_bytes(const void *p, std::size_t n, std::uint64_t h = 0x9E3779B97F4A7C15ull);

} // namespace sim

// Each check binary defines these.
extern const char *const kProperty;
extern const char *const kRule;       // what `distinct_nontrivial` counts
extern const char *const kRealCode;   // components that run real code
extern const char *const kStubs;      // components that are stubs
extern const std::vector<std::string> kAssumptions;
// The workload of one run.
void sim_run();
