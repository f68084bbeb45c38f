// Internals shared by runtime.cc (the simulated machine) and driver.cc (search,
// gating, minimisation, replay, evidence).  Not instrumented.
#pragma once
#include "sim.h"

namespace sim {

constexpr std::size_t kStreamCap = 1u << 17;
constexpr int kMaxCounters = 96;
constexpr int kMaxSigs = 256;

enum Status : int {
  kRunning = 0,
  kOk = 1,
  kViolation = 2,
  kHarnessError = 3,
  kFailstop = 4,
};

struct Counter {
  char name[48];
  std::uint64_t value;
};

struct Shared {
  int status;
  int replay;  // 0: draw from the PRNG, 1: read the streams in `in`
  int verbose; // print the event log to fd 2
  std::uint64_t seed;
  char cls[64];
  char msg[4096];
  std::uint64_t hash;  // of the whole event log
  std::uint64_t ihash; // of the schedule only
  std::uint64_t steps, switches, preemptions, sim_ns, threads;
  std::uint64_t evals, nontrivial;
  std::uint32_t nsigs;
  std::uint64_t sigs[kMaxSigs];
  Counter faults[kMaxCounters];
  Counter probes[kMaxCounters];
  std::uint32_t nin[kStreams];
  std::uint32_t nout[kStreams];
  int overflow;
  std::uint64_t in[kStreams][kStreamCap];
  std::uint64_t out[kStreams][kStreamCap];
};

extern Shared *g_sh;
void run_child(); // resets the process-wide state, runs sim_run(), records
void install_crash_handlers();

} // namespace sim
