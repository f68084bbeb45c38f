// SHARDS: 4
// FLAGS: -DGPW_TICK
// P20: an operation that fails leaves nothing behind.
#include "ops.h"

#if SHARD == 0
extern const char *const kProperty, *const kRule, *const kRealCode, *const kStubs;
extern const std::vector<std::string> kAssumptions;
const char *const kProperty = "P20";
const char *const kRule =
    "one evaluation = one operation during which an allocation or a user supplied "
    "function failed, or the same operation or another one made afterwards; "
    "non-trivial = the fault fired; distinct by operation, kind and position of the "
    "fault";
const char *const kRealCode =
    "GaussianProcessRegression, SparseGaussianProcessRegression (both QR "
    "implementations), LinearRegression, ConditionalGaussian, Ransac, NullModel, "
    "covariance and mean functions, FitModel, Prediction, CrossValidation, "
    "RegressionDataset, group_by, parameter handling, distributions, "
    "serialization, pooled apply, greedy tuning, Eigen";
const char *const kStubs =
    "ThreadPool (FIFO stub), pthread scheduling, clocks, the heap; user supplied "
    "functions are simulated";
const std::vector<std::string> kAssumptions = {
    "SuiteSparse, rapidjson and string streams do not report failed allocations; "
    "operations using them are judged under failing user functions only (or, for "
    "streams, without comparing the text)"};
#endif

namespace gpw {
#if SHARD == 0
namespace {
long g_count = 0;     // calls so far
long g_boom_at = -1;  // the call that fails
int g_boom_kind = 0;
bool g_boomed = false;
} // namespace
struct Boom {
  long id;
};
void tick() {
  sim::Quiet quiet;
  const long at = g_count++;
  if (at != g_boom_at) {
    return;
  }
  g_boomed = true;
  sim::fault_fired("callback-throws");
  switch (g_boom_kind) {
  case 0:
    throw Boom{at};
  case 1:
    throw std::runtime_error("injected");
  default:
    throw std::out_of_range("injected");
  }
}
void arm(long at, int kind) {
  g_count = 0;
  g_boom_at = at;
  g_boom_kind = kind;
  g_boomed = false;
}
#else
void tick();
#endif
} // namespace gpw

namespace ops {
#if SHARD == 0
enum Kind { kPlain, kJson, kText };
Kind kind_of_op(const std::string &name) {
  for (const char *n : {"save", "save model", "sparse save", "ransac save"}) {
    if (name == n) {
      return kJson;
    }
  }
  for (const char *n : {"params", "name", "call trace", "save an updated fit"}) {
    if (name == n) {
      return kText;
    }
  }
  return kPlain;
}

// Outcome of one attempt.
struct Try {
  std::string result;
  int thrown = -1; // -1 nothing, 0 Boom, 1 runtime_error, 2 out_of_range,
                   // 3 bad_alloc, 4 an assertion, 5 something else
};

Try attempt(const Op &op) {
  Try t;
  try {
    sim::AssertThrows scope;
    t.result = op.run();
  } catch (const gpw::Boom &) {
    t.thrown = 0;
  } catch (const std::out_of_range &) {
    t.thrown = 2;
  } catch (const std::bad_alloc &) {
    t.thrown = 3;
  } catch (const sim::AssertionFailed &a) {
    t.thrown = 4;
    t.result = a.what;
  } catch (const std::runtime_error &) {
    t.thrown = 1;
  } catch (...) {
    t.thrown = 5;
  }
  return t;
}

// Blocks alive once the pool's workers have let go of their tasks.
std::int64_t settled_blocks() {
  for (int i = 0; i < 4; ++i) {
    std::this_thread::sleep_for(std::chrono::hours(1));
  }
  return sim::live_blocks();
}

void drive(const std::vector<Op> &ops) {
  // What an operation says when nothing fails; made twice, as the first time
  // may fill caches of the libraries.
  std::vector<std::string> want(ops.size());
  std::vector<bool> have(ops.size(), false);
  const auto expect = [&](std::size_t i, const char *when) {
    gpw::arm(-1, 0);
    const std::string got = ops[i].run();
    if (!have[i]) {
      want[i] = got;
      have[i] = true;
    } else if (got != want[i]) {
      sim::violation("state", "%s: \"%s\" gives another result (%zu bytes, before %zu)",
                     when, ops[i].name.c_str(), got.size(), want[i].size());
    }
  };
  const std::size_t watch = sim::w(ops.size());
  expect(watch, "at first");
  const std::size_t rounds = 1 + sim::w(4);
  const auto start = sim::steps();
  for (std::size_t r = 0; r < rounds && sim::steps() - start < 30000000; ++r) {
    const std::size_t i = sim::w(ops.size());
    const Op &op = ops[i];
    expect(i, "before a failure");
    expect(i, "repeated");
    gpw::arm(-1, 0);
    sim::count_allocs_begin();
    { (void)op.run(); }
    const auto allocs = sim::count_allocs_end();
    const long ticks = gpw::g_count;
    const Kind kind = kind_of_op(op.name);
    bool memory = sim::f(2);
    if (memory && (kind == kJson || g_spqr || allocs == 0)) {
      memory = false;
    }
    if (!memory && ticks == 0) {
      continue;
    }
    const auto blocks = settled_blocks();
    bool fired;
    std::size_t position;
    int boom_kind = -1;
    {
      Try t;
      if (memory) {
        position = sim::f(allocs);
        sim::arm_alloc_fault(position);
        t = attempt(op);
        fired = sim::alloc_fault_fired();
        sim::disarm_alloc_fault();
        if (fired) {
          sim::fault_fired("alloc");
        }
      } else {
        position = sim::f(static_cast<std::uint64_t>(ticks));
        boom_kind = static_cast<int>(sim::f(3));
        gpw::arm(static_cast<long>(position), boom_kind);
        t = attempt(op);
        fired = gpw::g_boomed;
      }
      sim::NoFault scope;
      const char *what = memory ? "a failed allocation" : "a failed user function";
      if (t.thrown < 0) {
        if (fired && !memory) {
          sim::violation("swallowed", "\"%s\" returns although call %zu of a user "
                                      "function threw",
                         op.name.c_str(), position);
        }
        if (t.result != want[i] && !(memory && kind == kText)) {
          sim::violation("swallowed", "\"%s\" returns something else after %s (%zu)",
                         op.name.c_str(), what, position);
        }
      } else if (!fired) {
        sim::violation("exception", "\"%s\" fails without cause", op.name.c_str());
      } else if (!memory && t.thrown != boom_kind) {
        sim::violation("exception", "\"%s\" reports %d when a user function throws %d (%s)",
                       op.name.c_str(), t.thrown, boom_kind, t.result.c_str());
      } else if (memory && t.thrown != 3 && (kind != kText || t.thrown == 4)) {
        sim::violation("exception", "\"%s\" reports a failed allocation (%zu) as %d (%s)",
                       op.name.c_str(), position, t.thrown, t.result.c_str());
      }
      t.result.clear();
      t.result.shrink_to_fit();
    }
    gpw::arm(-1, 0);
    const auto after = settled_blocks();
    if (after != blocks) {
      sim::violation("leak", "\"%s\" loses %lld blocks when it fails (%s %zu)",
                     op.name.c_str(), (long long)(after - blocks),
                     memory ? "allocation" : "call", position);
    }
    expect(i, "after a failure");
    expect(watch, "after a failure of another operation");
    sim::evaluated(fired, sim::hash_bytes(op.name.data(), op.name.size(),
                                          sim::mix(position, memory ? 1 : 2)));
  }
}
#endif
} // namespace ops

#if SHARD == 0
void sim_run() {
  switch (sim::w(4)) {
  case 0:
    return ops::config0();
  case 1:
    return ops::config1();
  case 2:
    return ops::config2();
  default:
    return ops::config3();
  }
}
#endif
