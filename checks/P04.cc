// SHARDS: 4
// P04: fitted models, models, datasets and covariance functions may be used by
// any number of threads at once as long as nobody modifies them.
#include "ops.h"

#if SHARD == 0
extern const char *const kProperty, *const kRule, *const kRealCode, *const kStubs;
extern const std::vector<std::string> kAssumptions;
const char *const kProperty = "P04";
const char *const kRule =
    "one evaluation = one const operation (fit, predict, update, likelihood, "
    "cross validation, RANSAC, copy with its own parameters, save, group_by, "
    "print) made by one of several threads on objects they share, its result "
    "compared bit for bit with the same operation made alone; non-trivial = at "
    "least two threads were alive; distinct by operation, result and position in "
    "the schedule";
const char *const kRealCode =
    "GaussianProcessRegression, SparseGaussianProcessRegression (both QR "
    "implementations), LinearRegression, ConditionalGaussian, Ransac, NullModel, "
    "covariance and mean functions (radial, polynomial, noise, scaling, sums and "
    "products), FitModel, Prediction, CrossValidation, RegressionDataset, "
    "group_by, parameter handling, distributions, serialization, Eigen, SuiteSparse";
const char *const kStubs = "ThreadPool (FIFO stub), pthread scheduling, clocks";
const std::vector<std::string> kAssumptions = {
    "threads share objects only through const access; each thread modifies only "
    "its own copies",
    "SuiteSparse and zlib/zstd code is not instrumented for race detection"};
#endif

namespace ops {
#if SHARD == 0
// Every thread runs its own list of operations; what each returns must be what
// it returns alone.
void drive(const std::vector<Op> &ops) {
  const int n_threads = static_cast<int>(sim::range(2, 4));
  std::vector<std::vector<std::size_t>> plan(static_cast<std::size_t>(n_threads));
  std::vector<std::vector<std::string>> got(plan.size());
  const bool same_start = sim::w(2);
  const std::size_t first = sim::w(ops.size());
  for (auto &p : plan) {
    const std::size_t k = 1 + sim::w(3);
    if (same_start) {
      p.push_back(first);
    }
    for (std::size_t i = 0; i < k; ++i) {
      p.push_back(sim::w(ops.size()));
    }
    for (const std::size_t i : p) {
      sim::log("thread %zu: %s", static_cast<std::size_t>(&p - plan.data()),
               ops[i].name.c_str());
    }
  }
  std::vector<std::vector<int>> alive(plan.size());
  const auto work = [&](std::size_t t) {
    for (const std::size_t i : plan[t]) {
      std::string out = ops[i].run();
      sim::Quiet quiet;
      got[t].push_back(std::move(out));
      alive[t].push_back(sim::live_threads());
    }
  };
  std::vector<std::thread> threads;
  for (std::size_t t = 1; t < plan.size(); ++t) {
    threads.emplace_back(work, t);
  }
  work(0);
  for (auto &t : threads) {
    t.join();
  }
  std::vector<std::string> alone(ops.size());
  std::vector<bool> have(ops.size(), false);
  for (std::size_t t = 0; t < plan.size(); ++t) {
    for (std::size_t k = 0; k < plan[t].size(); ++k) {
      const std::size_t i = plan[t][k];
      if (!have[i]) {
        alone[i] = ops[i].run();
        have[i] = true;
      }
      if (got[t][k] != alone[i]) {
        sim::violation("result",
                       "%s gives another result when other threads are active "
                       "(%zu bytes, alone %zu)",
                       ops[i].name.c_str(), got[t][k].size(), alone[i].size());
      }
      sim::evaluated(alive[t][k] > 1,
                     sim::hash_bytes(alone[i].data(), alone[i].size(),
                                     sim::mix(i, sim::steps())));
    }
  }
}

#endif
} // namespace ops

#if SHARD == 0
void sim_run() {
  switch (sim::w(4)) {
  case 0:
    return ops::config0();
  case 1:
    return ops::config1();
  case 2:
    return ops::config2();
  default:
    return ops::config3();
  }
}
#endif
