// SHARDS: 3
// P13: RANSAC returns the best consensus its own callbacks and configuration
// define, in every run, whatever fails or runs next to it.
#include <albatross/Ransac>
#include <albatross/LeastSquares>
#include <albatross/Evaluation>

#include "gpworld.h"
#include "num.h"
#include "sim.h"

#include <atomic>
#include <functional>
#include <memory>
#include <set>
#include <sstream>
#include <thread>

#if SHARD == 0
extern const char *const kProperty, *const kRule, *const kRealCode, *const kStubs;
extern const std::vector<std::string> kAssumptions;
const char *const kProperty = "P13";
const char *const kRule =
    "one evaluation = one RANSAC call (free function with simulated callbacks, "
    "or a model with a generic or Gaussian process strategy) whose every "
    "iteration, best iteration, return code and resulting fit is checked; "
    "non-trivial = at least one iteration reached a consensus or a fault was "
    "injected; distinct by configuration and the sequence of iterations";
const char *const kRealCode =
    "ransac, RansacFunctions, RansacOutput, random_without_replacement, "
    "GroupIndexer overloads, GenericRansacStrategy, GaussianProcessRansacStrategy, "
    "ConditionalGaussian, Ransac model fit and predict, prediction and model "
    "metrics, group_by, Eigen";
const char *const kStubs = "pthread scheduling, clocks; user callbacks are simulated";
const std::vector<std::string> kAssumptions = {
    "callbacks are pure functions of their arguments except where they throw",
    "which random subset is drawn is not specified, only that it is the same for "
    "the same call and covers the groups evenly",
    "if no consensus metric is a number, the best iteration is any that reached a "
    "consensus"};
#endif

namespace p13 {
using namespace albatross;
using namespace gpw;

inline bool same_number(double a, double b) {
  return (std::isnan(a) && std::isnan(b)) || a == b;
}

// Equality that takes NaN for NaN.
template <typename Key>
bool same_iteration(const RansacIteration<Key> &a, const RansacIteration<Key> &b) {
  const auto same_map = [](const std::map<Key, double> &x, const std::map<Key, double> &y) {
    if (x.size() != y.size()) {
      return false;
    }
    auto j = y.begin();
    for (auto i = x.begin(); i != x.end(); ++i, ++j) {
      if (i->first != j->first || !same_number(i->second, j->second)) {
        return false;
      }
    }
    return true;
  };
  return a.candidates == b.candidates && same_map(a.inliers, b.inliers) &&
         same_map(a.outliers, b.outliers) &&
         same_number(a.consensus_metric_value, b.consensus_metric_value);
}
template <typename Key>
bool same_output(const RansacOutput<Key> &a, const RansacOutput<Key> &b) {
  if (a.return_code != b.return_code || !same_iteration(a.best, b.best) ||
      a.iterations.size() != b.iterations.size()) {
    return false;
  }
  for (std::size_t i = 0; i < a.iterations.size(); ++i) {
    if (!same_iteration(a.iterations[i], b.iterations[i])) {
      return false;
    }
  }
  return true;
}

struct Boom {
  int code;
};

// What a RANSAC call has to satisfy, given the three functions as references.
template <typename Key> struct Oracle {
  std::vector<Key> groups;
  double threshold;
  std::size_t sample, min_consensus, iterations, max_failed;
  std::function<bool(const std::vector<Key> &)> valid;
  std::function<double(const Key &, const std::vector<Key> &)> metric;
  std::function<double(const std::vector<Key> &)> consensus;
  double tol = 0.; // 0: exact

  bool close(double got, double want) const {
    if (tol == 0.) {
      return same_number(got, want);
    }
    return same_number(got, want) ||
           std::fabs(got - want) <= tol * (1. + std::fabs(want));
  }

  bool invalid_arguments() const {
    return min_consensus >= groups.size() || min_consensus < sample ||
           sample >= groups.size() || sample == 0 || iterations == 0;
  }

  // Returns whether some iteration reached a consensus.
  bool check(const char *what, const RansacOutput<Key> &out) const {
    sim::Quiet quiet;
    sim::NoFault no_fault;
    if (invalid_arguments()) {
      if (out.return_code != RANSAC_RETURN_CODE_INVALID_ARGUMENTS ||
          !out.iterations.empty() || !out.best.consensus().empty()) {
        sim::violation("arguments", "%s: invalid arguments give \"%s\"", what,
                       to_string(out.return_code).c_str());
      }
      return false;
    }
    const std::set<Key> all(groups.begin(), groups.end());
    std::size_t valid_count = 0, failed = 0;
    double best = NAN;
    bool reached = false;
    std::size_t expected_best = 0;
    bool exceeded = false;
    for (std::size_t i = 0; i < out.iterations.size(); ++i) {
      const auto &it = out.iterations[i];
      if (exceeded) {
        sim::violation("failed-candidates",
                       "%s: goes on after %zu of %zu candidate sets were rejected",
                       what, failed, max_failed);
      }
      const std::set<Key> chosen(it.candidates.begin(), it.candidates.end());
      if (it.candidates.size() != sample || chosen.size() != sample) {
        sim::violation("candidates", "%s: iteration %zu has %zu candidates (%zu "
                                     "different), expected %zu",
                       what, i, it.candidates.size(), chosen.size(), sample);
      }
      for (const auto &c : chosen) {
        if (!all.count(c)) {
          sim::violation("candidates", "%s: iteration %zu has a candidate that is "
                                       "no group", what, i);
        }
      }
      if (!valid(it.candidates)) {
        ++failed;
        if (!it.inliers.empty() || !it.outliers.empty() ||
            !std::isnan(it.consensus_metric_value)) {
          sim::violation("rejected", "%s: iteration %zu was rejected but has %zu "
                                     "inliers",
                         what, i, it.inliers.size());
        }
        exceeded = failed >= max_failed;
        continue;
      }
      ++valid_count;
      for (const auto &g : all) {
        const bool in = it.inliers.count(g), out_ = it.outliers.count(g);
        if (chosen.count(g)) {
          if (in || out_) {
            sim::violation("partition", "%s: iteration %zu: a candidate is also "
                                        "an inlier or outlier", what, i);
          }
          continue;
        }
        if (in == out_) {
          sim::violation("partition", "%s: iteration %zu: a group is %s", what, i,
                         in ? "both inlier and outlier" : "neither inlier nor outlier");
        }
        const double got = in ? it.inliers.at(g) : it.outliers.at(g);
        const double want = metric(g, it.candidates);
        if (!close(got, want)) {
          sim::violation("metric", "%s: iteration %zu: inlier metric %.17g, "
                                   "expected %.17g", what, i, got, want);
        }
        if ((got <= threshold) != in) {
          sim::violation("threshold", "%s: iteration %zu: metric %.17g, threshold "
                                      "%.17g, but it is an %s",
                         what, i, got, threshold, in ? "inlier" : "outlier");
        }
      }
      if (it.inliers.size() + it.outliers.size() + sample != all.size()) {
        sim::violation("partition", "%s: iteration %zu: unknown groups", what, i);
      }
      const auto con = it.consensus();
      const std::set<Key> con_set(con.begin(), con.end());
      if (con.size() != sample + it.inliers.size() || con_set.size() != con.size()) {
        sim::violation("consensus", "%s: iteration %zu: consensus of %zu groups, "
                                    "expected %zu", what, i, con.size(),
                       sample + it.inliers.size());
      }
      for (const auto &g : it.candidates) {
        if (!con_set.count(g)) {
          sim::violation("consensus", "%s: a candidate is missing", what);
        }
      }
      if (con.size() < min_consensus) {
        if (!std::isnan(it.consensus_metric_value)) {
          sim::violation("consensus", "%s: iteration %zu: %zu groups agree, %zu "
                                      "are needed, but it is scored %.17g",
                         what, i, con.size(), min_consensus,
                         it.consensus_metric_value);
        }
        continue;
      }
      const double want = consensus(con);
      const double got = it.consensus_metric_value;
      if (!close(got, want)) {
        sim::violation("consensus", "%s: iteration %zu: consensus metric %.17g, "
                                    "expected %.17g", what, i, got, want);
      }
      if (!reached || got < best || (std::isnan(best) && !std::isnan(got))) {
        best = got;
        expected_best = i;
      }
      reached = true;
    }
    if (exceeded) {
      if (out.return_code != RANSAC_RETURN_CODE_EXCEEDED_MAX_FAILED_CANDIDATES) {
        sim::violation("return-code", "%s: %zu rejected candidate sets (limit "
                                      "%zu), result \"%s\"", what, failed,
                       max_failed, to_string(out.return_code).c_str());
      }
    } else {
      if (valid_count != iterations) {
        sim::violation("iterations", "%s: %zu iterations, expected %zu", what,
                       valid_count, iterations);
      }
      const auto want = reached ? RANSAC_RETURN_CODE_SUCCESS
                                : RANSAC_RETURN_CODE_NO_CONSENSUS;
      if (out.return_code != want) {
        sim::violation("return-code", "%s: \"%s\", expected \"%s\"", what,
                       to_string(out.return_code).c_str(), to_string(want).c_str());
      }
    }
    if (!reached) {
      if (!same_iteration(out.best, RansacIteration<Key>())) {
        sim::violation("best", "%s: a best iteration without a consensus", what);
      }
      return false;
    }
    if (std::isnan(best)) {
      bool found = false;
      for (const auto &it : out.iterations) {
        found = found || (same_iteration(it, out.best) && it.consensus().size() >= min_consensus);
      }
      if (!found) {
        sim::violation("best", "%s: best is none of the iterations", what);
      }
    } else if (!same_iteration(out.best, out.iterations[expected_best])) {
      sim::violation("best", "%s: best has metric %.17g, iteration %zu has %.17g",
                     what, out.best.consensus_metric_value, expected_best, best);
    }
    return true;
  }
};

template <typename Key>
std::uint64_t hash_output(const RansacOutput<Key> &out) {
  std::uint64_t h = static_cast<std::uint64_t>(out.return_code) + 17;
  for (const auto &it : out.iterations) {
    std::ostringstream os;
    os << it;
    const std::string s = os.str();
    h = sim::hash_bytes(s.data(), s.size(), h);
  }
  return h;
}

template <typename Key>
void expect_same(const char *what, const RansacOutput<Key> &a,
                 const RansacOutput<Key> &b) {
  sim::Quiet quiet;
  if (!same_output(a, b)) {
    sim::violation("repeat", "%s", what);
  }
}

void synthetic_ints();
void synthetic_strings();
void generic_model();
void gp_model();

#if SHARD == 0
// ---- simulated callbacks -----------------------------------------------------
template <typename Key> std::uint64_t key_hash(const Key &k);
template <> std::uint64_t key_hash(const int &k) { return static_cast<std::uint64_t>(k) * 77u + 5u; }
template <> std::uint64_t key_hash(const std::string &k) {
  return sim::hash_bytes(k.data(), k.size());
}
template <typename Key>
std::uint64_t set_hash(std::uint64_t salt, std::vector<Key> keys) {
  sim::NoFault no_fault;
  std::sort(keys.begin(), keys.end());
  for (const auto &k : keys) {
    salt = sim::mix(salt, key_hash(k));
  }
  return salt;
}

template <typename Key> struct Scenario {
  Oracle<Key> oracle;
  std::uint64_t salt;
  int reject_of; // a candidate set is rejected with probability 1/reject_of
  int levels;    // number of different consensus metric values
  bool nans;
  bool infinite;

  double value(std::uint64_t h, int n) const {
    const auto k = static_cast<int>(h % static_cast<std::uint64_t>(n + (nans ? 2 : 0)));
    if (k >= n) {
      return k == n ? NAN : (infinite ? -INFINITY : NAN);
    }
    return static_cast<double>(k) * 0.5 - 1.;
  }
  bool valid(const std::vector<Key> &c) const {
    return reject_of == 0 || set_hash(salt, c) % static_cast<std::uint64_t>(reject_of) != 0;
  }
  double metric(const Key &g, const std::vector<Key> &c) const {
    return value(sim::mix(set_hash(salt + 1, c), key_hash(g)), 9);
  }
  double consensus(const std::vector<Key> &c) const {
    return value(set_hash(salt + 2, c), levels);
  }
};

template <typename Key> struct Track {
  // What the callbacks of one call saw.
  std::size_t calls = 0, valid_calls = 0, fits = 0, metrics = 0, scores = 0;
  std::size_t boom_at = SIZE_MAX;
  bool yields = false;
  const char *problem = nullptr;
};

// A fit that owns memory and knows what it was made from.
template <typename Key> struct FakeFit {
  std::shared_ptr<std::vector<Key>> from;
  std::vector<double> junk;
};

template <typename Key>
RansacFunctions<FakeFit<Key>, Key> functions_for(const Scenario<Key> &s,
                                                 Track<Key> *t) {
  const auto enter = [t]() {
    if (t->yields) {
      sim::yield_point();
    }
    if (t->calls++ == t->boom_at) {
      sim::fault_fired("callback-throws");
      throw Boom{static_cast<int>(t->boom_at)};
    }
  };
  const auto fitter = [&s, t, enter](const std::vector<Key> &c) {
    enter();
    ++t->fits;
    FakeFit<Key> f;
    f.from = std::make_shared<std::vector<Key>>(c);
    f.junk.assign(3, 1.5);
    return f;
  };
  const auto metric = [&s, t, enter](const Key &g, const FakeFit<Key> &f) {
    enter();
    ++t->metrics;
    if (vector_contains(*f.from, g)) {
      t->problem = "the inlier metric was asked about a candidate";
    }
    return s.metric(g, *f.from);
  };
  const auto consensus = [&s, t, enter](const std::vector<Key> &c) {
    enter();
    ++t->scores;
    return s.consensus(c);
  };
  const auto valid = [&s, t, enter](const std::vector<Key> &c) {
    enter();
    ++t->valid_calls;
    return s.valid(c);
  };
  if (s.reject_of == 0 && s.salt % 2) {
    return RansacFunctions<FakeFit<Key>, Key>(fitter, metric, consensus);
  }
  return RansacFunctions<FakeFit<Key>, Key>(fitter, metric, consensus, valid);
}

template <typename Key> Key make_key(std::uint64_t i);
template <> int make_key<int>(std::uint64_t i) { return static_cast<int>(i) * 7 - 11; }
template <> std::string make_key<std::string>(std::uint64_t i) {
  return (i % 3 ? "g" : "a rather long name of a group, not stored inline, ") +
         std::to_string(i);
}

template <typename Key> Scenario<Key> draw() {
  Scenario<Key> s;
  const std::size_t n = sim::w(9);
  for (std::size_t i = 0; i < n; ++i) {
    s.oracle.groups.push_back(make_key<Key>(i));
  }
  std::sort(s.oracle.groups.begin(), s.oracle.groups.end());
  const auto up_to = [](std::size_t k) { return static_cast<std::size_t>(sim::w(k + 1)); };
  if (n >= 3 && sim::w(6)) {
    s.oracle.sample = 1 + up_to(n - 3);
    s.oracle.min_consensus =
        s.oracle.sample + up_to(n - 1 - s.oracle.sample);
    s.oracle.iterations = 1 + up_to(11);
  } else {
    s.oracle.sample = up_to(n + 1);
    s.oracle.min_consensus = up_to(n + 1);
    s.oracle.iterations = up_to(3);
  }
  s.oracle.max_failed = up_to(6);
  const double thresholds[] = {1., 0.5, 0., 3., -1., 5., NAN, INFINITY, -INFINITY};
  s.oracle.threshold = thresholds[sim::w(9)];
  s.salt = sim::w(1u << 20);
  s.reject_of = static_cast<int>(sim::w(4)) * static_cast<int>(sim::w(2));
  s.levels = 1 + static_cast<int>(sim::w(6));
  s.nans = sim::w(3) == 2;
  s.infinite = sim::w(2);
  return s;
}

template <typename Key>
RansacOutput<Key> call(const Scenario<Key> &s, Track<Key> *t, int form) {
  const auto fns = functions_for(s, t);
  const Oracle<Key> &o = s.oracle;
  if (form == 0) {
    return ransac(fns, o.groups, o.threshold, o.sample, o.min_consensus,
                  o.iterations, o.max_failed);
  }
  GroupIndexer<Key> indexer;
  std::size_t k = 0;
  for (const auto &g : o.groups) {
    indexer[g] = {k, k + 1};
    k += 2;
  }
  const RansacConfig config(o.threshold, o.sample, o.min_consensus, o.iterations,
                            o.max_failed);
  return ransac(fns, indexer, config);
}

template <typename Key>
void finish(Scenario<Key> &s) {
  // The scenario's functions refer to the scenario itself.
  Scenario<Key> *self = &s;
  s.oracle.valid = [self](const std::vector<Key> &c) { return self->valid(c); };
  s.oracle.metric = [self](const Key &g, const std::vector<Key> &c) {
    return self->metric(g, c);
  };
  s.oracle.consensus = [self](const std::vector<Key> &c) { return self->consensus(c); };
}

template <typename Key>
void verdict(const Scenario<Key> &s, const Track<Key> &t,
             const RansacOutput<Key> &out, const char *what) {
  const bool reached = s.oracle.check(what, out);
  sim::Quiet quiet;
  if (t.problem) {
    sim::violation("callback", "%s: %s", what, t.problem);
  }
  if (s.oracle.invalid_arguments() && t.calls) {
    sim::violation("arguments", "%s: callbacks run for invalid arguments", what);
  }
  sim::evaluated(reached, hash_output(out));
  if (out.return_code == RANSAC_RETURN_CODE_EXCEEDED_MAX_FAILED_CANDIDATES) {
    sim::probe("max-failed-exceeded");
  }
  if (out.return_code == RANSAC_RETURN_CODE_NO_CONSENSUS) {
    sim::probe("no-consensus");
  }
}

template <typename Key> void synthetic() {
  const std::size_t clients = 1 + sim::w(3);
  std::vector<std::unique_ptr<Scenario<Key>>> scenarios;
  std::vector<int> forms;
  for (std::size_t i = 0; i < clients; ++i) {
    if (i && sim::w(3) == 2) {
      scenarios.push_back(std::make_unique<Scenario<Key>>(*scenarios[0]));
    } else {
      scenarios.push_back(std::make_unique<Scenario<Key>>(draw<Key>()));
    }
    finish(*scenarios.back());
    forms.push_back(static_cast<int>(sim::w(2)));
    const auto &o = scenarios.back()->oracle;
    sim::log("client %zu: %zu groups, sample %zu, min %zu, iterations %zu, "
             "max failed %zu, threshold %g",
             i, o.groups.size(), o.sample, o.min_consensus, o.iterations,
             o.max_failed, o.threshold);
  }
  sim::begin(sim::random_sched());
  std::vector<RansacOutput<Key>> outs(clients);
  std::vector<Track<Key>> tracks(clients);
  {
    const auto work = [&](std::size_t i) {
      tracks[i].yields = true;
      outs[i] = call(*scenarios[i], &tracks[i], forms[i]);
    };
    std::vector<std::thread> threads;
    for (std::size_t i = 1; i < clients; ++i) {
      threads.emplace_back(work, i);
    }
    work(0);
    for (auto &t : threads) {
      t.join();
    }
  }
  sim::end();
  for (std::size_t i = 0; i < clients; ++i) {
    verdict(*scenarios[i], tracks[i], outs[i], "synthetic");
    Track<Key> alone;
    const auto again = call(*scenarios[i], &alone, 1 - forms[i]);
    expect_same("the same call, alone, gives another result", outs[i], again);
  }
  // Two results are equal only if everything in them is.
  {
    sim::Quiet quiet;
    RansacOutput<Key> a(outs[0]);
    if (!scenarios[0]->nans && !(a == outs[0])) {
      sim::violation("equality", "a copy of a result differs from it");
    }
    a.best.candidates.push_back(make_key<Key>(40));
    RansacOutput<Key> b(outs[0]);
    b.best.consensus_metric_value = 0.125;
    RansacOutput<Key> c(outs[0]);
    c.iterations.emplace_back();
    RansacOutput<Key> d(outs[0]);
    d.return_code = RANSAC_RETURN_CODE_FAILURE;
    RansacOutput<Key> e(outs[0]);
    e.best.outliers[make_key<Key>(41)] = 1.;
    if (a == outs[0] || b == outs[0] || c == outs[0] || d == outs[0] || e == outs[0]) {
      sim::violation("equality", "two different RANSAC results compare as equal");
    }
  }
  // A callback that throws, or memory that runs out.
  const std::size_t i = sim::w(clients);
  const Scenario<Key> &s = *scenarios[i];
  const auto fault = sim::f(3);
  if (fault == 1 && tracks[i].calls) {
    const std::int64_t blocks = sim::live_blocks();
    Track<Key> t;
    t.boom_at = sim::f(tracks[i].calls);
    bool thrown = false;
    try {
      call(s, &t, forms[i]);
    } catch (const Boom &b) {
      thrown = b.code == static_cast<int>(t.boom_at);
    }
    if (!thrown) {
      sim::violation("exception", "the exception of callback %zu of %zu is lost",
                     t.boom_at, tracks[i].calls);
    }
    if (t.calls != t.boom_at + 1) {
      sim::violation("exception", "callbacks run after one has thrown");
    }
    if (sim::live_blocks() != blocks) {
      sim::violation("leak", "%lld blocks lost after a callback threw",
                     static_cast<long long>(sim::live_blocks() - blocks));
    }
    sim::evaluated(true, sim::mix(hash_output(outs[i]), t.boom_at));
  } else if (fault == 2) {
    Track<Key> t;
    std::uint64_t total = 0;
    {
      sim::count_allocs_begin();
      call(s, &t, forms[i]);
      total = sim::count_allocs_end();
    }
    const std::int64_t blocks = sim::live_blocks();
    bool thrown = false;
    Track<Key> u;
    if (total) {
      sim::arm_alloc_fault(sim::f(total));
      try {
        const auto out = call(s, &u, forms[i]);
        sim::disarm_alloc_fault();
        expect_same("an allocation failed unnoticed", outs[i], out);
      } catch (const std::bad_alloc &) {
        thrown = true;
      }
      sim::disarm_alloc_fault();
      if (sim::alloc_fault_fired()) {
        sim::fault_fired("alloc-failure");
        if (!thrown) {
          sim::probe("alloc-failure-absorbed");
        }
      }
      if (sim::live_blocks() != blocks) {
        sim::violation("leak", "%lld blocks lost after an allocation failed",
                       static_cast<long long>(sim::live_blocks() - blocks));
      }
      sim::evaluated(true, sim::mix(hash_output(outs[i]), 99));
    }
  }
  if (fault) {
    Track<Key> t;
    expect_same("a retry after a failure gives another result", outs[i],
                call(s, &t, forms[i]));
  }
}

// Every group has the same chance to be a candidate.
void coverage() {
  Scenario<int> s;
  const std::size_t n = 3 + sim::w(8);
  for (std::size_t i = 0; i < n; ++i) {
    s.oracle.groups.push_back(make_key<int>(i));
  }
  s.oracle.sample = 1 + sim::w(n - 2);
  s.oracle.min_consensus = s.oracle.sample;
  s.oracle.iterations = 300 + sim::w(100);
  s.oracle.max_failed = 10;
  s.oracle.threshold = 1.;
  s.salt = sim::w(1000);
  s.reject_of = 0;
  s.levels = 3;
  s.nans = s.infinite = false;
  finish(s);
  Track<int> t;
  const auto out = call(s, &t, 0);
  verdict(s, t, out, "coverage");
  std::map<int, std::size_t> count;
  std::map<std::pair<int, int>, std::size_t> pairs;
  for (const auto &it : out.iterations) {
    for (const auto &a : it.candidates) {
      ++count[a];
      for (const auto &b : it.candidates) {
        if (a < b) {
          ++pairs[{a, b}];
        }
      }
    }
  }
  const double total = static_cast<double>(out.iterations.size());
  const double p = static_cast<double>(s.oracle.sample) / static_cast<double>(n);
  for (const auto &g : s.oracle.groups) {
    const double sd = std::sqrt(total * p * (1. - p));
    if (std::fabs(static_cast<double>(count[g]) - total * p) > 7. * sd + 3.) {
      sim::violation("coverage", "a group is a candidate in %zu of %g iterations, "
                                 "expected about %g",
                     count[g], total, total * p);
    }
  }
  const double nn = static_cast<double>(n), k = static_cast<double>(s.oracle.sample);
  const double pp = k * (k - 1.) / (nn * (nn - 1.));
  for (const auto &a : s.oracle.groups) {
    for (const auto &b : s.oracle.groups) {
      if (a < b) {
        const double sd = std::sqrt(total * pp * (1. - pp));
        const auto c = pairs[{a, b}];
        if (std::fabs(static_cast<double>(c) - total * pp) > 7. * sd + 3.) {
          sim::violation("coverage", "two groups are candidates together in %zu of "
                                     "%g iterations, expected about %g",
                         c, total, total * pp);
        }
      }
    }
  }
}

void synthetic_ints() {
  if (sim::w(8) == 7) {
    return coverage();
  }
  synthetic<int>();
}
void synthetic_strings() { synthetic<std::string>(); }
#endif

// ---- with models ------------------------------------------------------------
struct World {
  RegressionDataset<double> data;
  std::vector<double> query;
  RansacConfig config;
  double width;
};

// Shuffled points of a smooth curve, some far off.
inline World draw_world(bool variances) {
  World w;
  const std::size_t n = 4 + sim::w(5);
  std::vector<double> x;
  Eigen::VectorXd m(n), v(n);
  for (std::size_t i = 0; i < n; ++i) {
    x.push_back(-2. + 0.9 * static_cast<double>(i) + sim::real(0., 0.4));
  }
  num::shuffle(x);
  for (std::size_t i = 0; i < n; ++i) {
    m[i] = 0.7 - 0.3 * x[i] + 0.3 * sim::gauss() +
           (sim::w(4) == 3 ? sim::real(-30., 30.) : 0.);
    v[i] = variances ? 0.1 + sim::real(0., 0.4) : 0.;
  }
  w.data = RegressionDataset<double>(
      x, variances ? MarginalDistribution(m, v) : MarginalDistribution(m));
  w.query = {sim::real(-3., 6.), 0.5};
  w.width = 0.5 + sim::real(0., 2.);
  w.config.random_sample_size = 1 + sim::w(3);
  w.config.min_consensus_size = w.config.random_sample_size + sim::w(3);
  w.config.max_iterations = 1 + sim::w(8);
  w.config.max_failed_candidates = 1 + sim::w(8);
  w.config.inlier_threshold = sim::w(8) == 7 ? -100. : sim::real(0.3, 4.);
  return w;
}

inline std::vector<std::size_t> order(std::size_t n) {
  std::vector<std::size_t> all(n);
  for (std::size_t i = 0; i < n; ++i) {
    all[i] = i;
  }
  return all;
}

// The rows of some groups, in the order of the groups.
template <typename Key>
std::vector<std::size_t> rows_of(const std::map<Key, std::vector<std::size_t>> &rows,
                                 const std::vector<Key> &groups) {
  std::vector<std::size_t> out;
  for (const auto &g : groups) {
    const auto &r = rows.at(g);
    out.insert(out.end(), r.begin(), r.end());
  }
  return out;
}

inline RegressionDataset<double> pick_rows(const RegressionDataset<double> &d,
                                           const std::vector<std::size_t> &rows) {
  std::vector<double> x;
  Eigen::VectorXd m(rows.size()), v(rows.size());
  for (std::size_t i = 0; i < rows.size(); ++i) {
    x.push_back(d.features[rows[i]]);
    m[static_cast<Eigen::Index>(i)] = d.targets.mean[static_cast<Eigen::Index>(rows[i])];
    v[static_cast<Eigen::Index>(i)] =
        d.targets.covariance.diagonal()[static_cast<Eigen::Index>(rows[i])];
  }
  return RegressionDataset<double>(x, MarginalDistribution(m, v));
}

inline double ref_nll(const Eigen::VectorXd &d, const Eigen::MatrixXd &cov) {
  const Eigen::FullPivLU<Eigen::MatrixXd> lu(cov);
  return 0.5 * (d.dot(lu.solve(d)) + std::log(lu.determinant()) +
                static_cast<double>(d.size()) * std::log(2. * M_PI));
}

// Runs the model from several threads and checks every result.
template <typename Model, typename Key, typename Check>
void run_model(const Model &model, const World &w, const Oracle<Key> &oracle,
               const char *what, const Check &check_fit) {
  using FitModelType = decltype(model.fit(w.data));
  const std::size_t clients = 1 + sim::w(3);
  std::vector<std::unique_ptr<FitModelType>> fits(clients);
  const auto params = model.get_params();
  const auto cfg = sim::random_sched();
  sim::begin(cfg);
  {
    const auto work = [&](std::size_t i) {
      fits[i] = std::make_unique<FitModelType>(model.fit(w.data));
    };
    std::vector<std::thread> threads;
    for (std::size_t i = 1; i < clients; ++i) {
      threads.emplace_back(work, i);
    }
    work(0);
    for (auto &t : threads) {
      t.join();
    }
  }
  sim::end();
  if (!(model.get_params() == params)) {
    sim::violation("model", "%s: fitting changed the parameters of the model", what);
  }
  const auto &out = fits[0]->get_fit().ransac_output;
  const bool reached = oracle.check(what, out);
  for (std::size_t i = 1; i < clients; ++i) {
    expect_same("concurrent fits of one RANSAC model differ", out,
                fits[i]->get_fit().ransac_output);
    if (!(fits[i]->get_fit() == fits[0]->get_fit())) {
      sim::violation("repeat", "%s: concurrent fits differ", what);
    }
  }
  const bool good = ransac_success(out.return_code);
  if (good != fits[0]->get_fit().has_fit_model()) {
    sim::violation("fit", "%s: \"%s\" but the fit is %s", what,
                   to_string(out.return_code).c_str(), good ? "missing" : "there");
  }
  if (good) {
    check_fit(*fits[0], out.best.consensus());
  } else {
    bool failed = false;
    sim::AssertThrows scope;
    try {
      (void)fits[0]->predict(w.query).mean();
    } catch (const sim::AssertionFailed &) {
      failed = true;
    }
    if (!failed) {
      sim::violation("fit", "%s: a failed RANSAC fit makes predictions", what);
    }
  }
  {
    sim::Quiet quiet;
    sim::evaluated(reached, hash_output(out));
  }
  if (sim::f(3) == 2) {
    // Memory runs out somewhere inside.
    std::uint64_t total = 0;
    {
      sim::count_allocs_begin();
      (void)model.fit(w.data);
      total = sim::count_allocs_end();
    }
    const std::int64_t blocks = sim::live_blocks();
    sim::arm_alloc_fault(sim::f(total));
    try {
      const auto again = model.fit(w.data);
      sim::disarm_alloc_fault();
      expect_same("an allocation failed unnoticed", out, again.get_fit().ransac_output);
    } catch (const std::bad_alloc &) {
    }
    sim::disarm_alloc_fault();
    if (sim::alloc_fault_fired()) {
      sim::fault_fired("alloc-failure");
    }
    if (sim::live_blocks() != blocks) {
      sim::violation("leak", "%s: %lld blocks lost after an allocation failed", what,
                     static_cast<long long>(sim::live_blocks() - blocks));
    }
    const auto retry = model.fit(w.data);
    expect_same("a retry after a failed allocation differs", out,
                retry.get_fit().ransac_output);
    if (!(retry.get_fit() == fits[0]->get_fit())) {
      sim::violation("repeat", "%s: a retry differs", what);
    }
    sim::evaluated(true, sim::mix(hash_output(out), total));
  }
}

template <typename Key>
void fill(Oracle<Key> &o, const World &w, const std::vector<Key> &groups) {
  o.groups = groups;
  o.threshold = w.config.inlier_threshold;
  o.sample = w.config.random_sample_size;
  o.min_consensus = w.config.min_consensus_size;
  o.iterations = w.config.max_iterations;
  o.max_failed = w.config.max_failed_candidates;
  o.tol = 1e-7;
}

#if SHARD == 1
// A straight line with leave-one-out or slices of the line as groups.
template <typename Grouper, typename Key>
void line(const World &w, const Grouper &grouper,
          const std::map<Key, std::vector<std::size_t>> &rows) {
  std::vector<Key> groups;
  for (const auto &kv : rows) {
    groups.push_back(kv.first);
  }
  auto inner = Polynomial<1>();
  using Inner = decltype(gp_from_covariance(
      inner + measurement_only(IndependentNoise<double>()), "line"));
  Inner gp = gp_from_covariance(
      inner + measurement_only(IndependentNoise<double>()), "line");
  (void)sim::w(1);
  Oracle<Key> o;
  fill(o, w, groups);
  o.valid = [](const std::vector<Key> &) { return true; };
  const RegressionDataset<double> &data = w.data;
  const Inner &model = gp;
  o.metric = [&](const Key &g, const std::vector<Key> &c) {
    const auto fit = model.fit(pick_rows(data, rows_of(rows, c)));
    const auto t = pick_rows(data, rows.at(g));
    const Eigen::VectorXd m = fit.predict(t.features).mean();
    return std::sqrt((m - t.targets.mean).squaredNorm() /
                     static_cast<double>(m.size()));
  };
  // Leave-one-out over the consensus rows, by refitting.
  o.consensus = [&](const std::vector<Key> &c) {
    const auto r = rows_of(rows, c);
    double sum = 0.;
    for (std::size_t i = 0; i < r.size(); ++i) {
      auto rest = r;
      rest.erase(rest.begin() + static_cast<long>(i));
      const auto t = pick_rows(data, {r[i]});
      if (rest.empty()) {
        sum += std::fabs(t.targets.mean[0]);
        continue;
      }
      const auto fit = model.fit(pick_rows(data, rest));
      sum += std::fabs(fit.predict(t.features).mean()[0] - t.targets.mean[0]);
    }
    return sum / static_cast<double>(r.size());
  };
  const auto strategy =
      get_generic_ransac_strategy(RootMeanSquareError(), LeaveOneOutRMSE(), grouper);
  const auto check = [&](const auto &fit, const std::vector<Key> &consensus) {
    const auto want = model.fit(pick_rows(data, rows_of(rows, consensus)));
    num::expect_close("fit", "prediction of a RANSAC fit",
                      fit.predict(w.query).mean(), want.predict(w.query).mean(), 1e-8);
    const auto a = fit.predict(w.query).joint();
    const auto b = want.predict(w.query).joint();
    num::expect_close("fit", "covariance of a RANSAC fit", a.covariance,
                      b.covariance, 1e-8, 10.);
  };
  run_model(model.ransac(strategy, w.config), w, o, "generic strategy", check);
}

void generic_model() {
  World w = draw_world(true);
  if (w.config.random_sample_size < 2) {
    w.config.random_sample_size = 2;
    w.config.min_consensus_size = std::max<std::size_t>(2, w.config.min_consensus_size);
  }
  if (sim::w(2)) {
    std::map<std::size_t, std::vector<std::size_t>> rows;
    for (std::size_t i = 0; i < w.data.size(); ++i) {
      rows[i] = {i};
    }
    line(w, LeaveOneOutGrouper(), rows);
  } else {
    const double width = w.width;
    const auto grouper = [width](const double &x) {
      return static_cast<int>(std::floor(x / width));
    };
    std::map<int, std::vector<std::size_t>> rows;
    for (std::size_t i = 0; i < w.data.size(); ++i) {
      rows[grouper(w.data.features[i])].push_back(i);
    }
    line(w, grouper, rows);
  }
}
#elif SHARD == 2
template <typename Strategy, typename Key>
void gp(const World &w, const Strategy &strategy,
        const std::map<Key, std::vector<std::size_t>> &rows, int valid_kind,
        int consensus_kind) {
  std::vector<Key> groups;
  for (const auto &kv : rows) {
    groups.push_back(kv.first);
  }
  auto model = gp_from_covariance_and_mean(
      Field() + measurement_only(IndependentNoise<double>()), Trend(), "gp");
  Hyper h;
  h.has_trend = true;
  h.indep = model.get_params()["sigma_independent_noise"].value;
  if (sim::w(2)) {
    h.fl = sim::real(0.5, 2.5);
    model.set_param_value("field_length", h.fl);
  }
  const auto obs = [&](const std::vector<std::size_t> &r) {
    std::vector<Obs> out;
    for (const auto i : r) {
      Obs o;
      o.a = w.data.features[i];
      o.mean = w.data.targets.mean[static_cast<Eigen::Index>(i)];
      o.var = w.data.targets.covariance.diagonal()[static_cast<Eigen::Index>(i)];
      out.push_back(o);
    }
    return out;
  };
  const auto centred = [&](const std::vector<Obs> &o) {
    Eigen::VectorXd d(o.size());
    for (std::size_t i = 0; i < o.size(); ++i) {
      d[static_cast<Eigen::Index>(i)] = o[i].mean - ref_m(h, o[i]);
    }
    return d;
  };
  const auto noisy = [&](const std::vector<Obs> &o) {
    Eigen::MatrixXd k = ref_cov(h, o, o);
    for (std::size_t i = 0; i < o.size(); ++i) {
      k(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(i)) += o[i].var;
    }
    return k;
  };
  // The distance of a group from what the candidates predict.
  const auto chi = [&](const std::vector<Obs> &o) {
    const Eigen::VectorXd d = centred(o);
    return d.dot(noisy(o).ldlt().solve(d));
  };
  Oracle<Key> o;
  fill(o, w, groups);
  o.tol = 1e-6;
  // 0: always; 1: the prior has to explain the candidates
  const double limit = 0.9;
  o.valid = [&, valid_kind](const std::vector<Key> &c) {
    if (valid_kind == 0) {
      return true;
    }
    const auto x = obs(rows_of(rows, c));
    return chi_squared_cdf(chi(x), x.size()) <= limit;
  };
  o.metric = [&](const Key &g, const std::vector<Key> &c) {
    const auto x = obs(rows_of(rows, c)), t = obs(rows.at(g));
    const Eigen::MatrixXd k = noisy(x), cross = ref_cov(h, x, t);
    const Eigen::LDLT<Eigen::MatrixXd> ldlt(k);
    const Eigen::MatrixXd s = ldlt.solve(cross);
    const Eigen::VectorXd d = centred(t) - s.transpose() * centred(x);
    const Eigen::MatrixXd v = noisy(t) - cross.transpose() * s;
    return ref_nll(d, v);
  };
  o.consensus = [&, consensus_kind](const std::vector<Key> &c) {
    const auto x = obs(rows_of(rows, c));
    if (consensus_kind == 0) {
      return -static_cast<double>(x.size());
    }
    if (consensus_kind == 1) {
      return chi_squared_cdf(chi(x), x.size());
    }
    const Eigen::MatrixXd k = ref_cov(h, x, x);
    const double n = static_cast<double>(x.size());
    return 0.5 * (n * (1. + std::log(2. * M_PI)) +
                  std::log(Eigen::FullPivLU<Eigen::MatrixXd>(k).determinant()));
  };
  const auto check = [&](const auto &fit, const std::vector<Key> &consensus) {
    const auto x = obs(rows_of(rows, consensus));
    std::vector<Obs> q;
    for (const double v : w.query) {
      Obs e;
      e.a = v;
      e.meas = false;
      q.push_back(e);
    }
    const Eigen::MatrixXd cross = ref_cov(h, x, q);
    const Eigen::MatrixXd s = noisy(x).ldlt().solve(cross);
    Eigen::VectorXd m = s.transpose() * centred(x);
    for (std::size_t i = 0; i < q.size(); ++i) {
      m[static_cast<Eigen::Index>(i)] += ref_m(h, q[i]);
    }
    const auto joint = fit.predict(w.query).joint();
    num::expect_close("fit", "mean of a RANSAC fit", joint.mean, m, 1e-7);
    num::expect_close("fit", "covariance of a RANSAC fit", joint.covariance,
                      ref_cov(h, q, q) - cross.transpose() * s, 1e-7);
    num::expect_close("fit", "mean only", fit.predict(w.query).mean(), m, 1e-7);
  };
  const auto ransac_model = model.ransac(strategy, w.config);
  run_model(ransac_model, w, o, "gp strategy", check);
  // The fast functions of the strategy against conditioning from scratch, for
  // groups no iteration picked.
  const auto functions = strategy(model, w.data);
  for (int k = 0; k < 3; ++k) {
    std::vector<Key> some(groups);
    num::shuffle(some);
    const std::size_t take = 1 + sim::w(groups.size());
    const std::vector<Key> c(some.begin(), some.begin() + static_cast<long>(take));
    const auto fit = functions.fitter(c);
    for (std::size_t i = take; i < some.size(); ++i) {
      const double got = functions.inlier_metric(some[i], fit);
      const double want = o.metric(some[i], c);
      if (!o.close(got, want)) {
        sim::violation("metric", "gp strategy: inlier metric %.15g, expected %.15g",
                       got, want);
      }
    }
    const double got = functions.consensus_metric(c), want = o.consensus(c);
    if (!o.close(got, want)) {
      sim::violation("consensus", "gp strategy: consensus metric %d of %zu groups "
                                  "is %.15g, expected %.15g",
                     consensus_kind, c.size(), got, want);
    }
    sim::evaluated(take < some.size(), sim::hash_bytes(&got, sizeof got, take));
  }
}

template <typename Grouper, typename Key>
void pick_strategy(const World &w, Grouper grouper,
                   const std::map<Key, std::vector<std::size_t>> &rows) {
  NegativeLogLikelihood<JointDistribution> nll;
  switch (sim::w(3)) {
  case 0:
    return gp(w, gp_ransac_strategy(nll, FeatureCountConsensusMetric(), grouper),
              rows, 0, 0);
  case 1:
    return gp(w, gp_ransac_strategy(nll, ChiSquaredConsensusMetric(),
                                    ChiSquaredIsValidCandidateMetric(0.9), grouper),
              rows, 1, 1);
  default:
    return gp(w, gp_ransac_strategy(nll, DifferentialEntropyConsensusMetric(),
                                    ChiSquaredIsValidCandidateMetric(0.9), grouper),
              rows, 1, 2);
  }
}

void gp_model() {
  World w = draw_world(true);
  if (sim::w(2)) {
    std::map<std::size_t, std::vector<std::size_t>> rows;
    for (std::size_t i = 0; i < w.data.size(); ++i) {
      rows[i] = {i};
    }
    if (sim::w(3) == 2) {
      return gp(w, DefaultGPRansacStrategy(), rows, 0, 0);
    }
    pick_strategy(w, LeaveOneOutGrouper(), rows);
  } else {
    const double width = w.width;
    std::map<int, std::vector<std::size_t>> rows;
    const auto grouper = [width](const double &x) {
      return static_cast<int>(std::floor(x / width));
    };
    for (std::size_t i = 0; i < w.data.size(); ++i) {
      rows[grouper(w.data.features[i])].push_back(i);
    }
    pick_strategy(w, grouper, rows);
  }
}
#endif
} // namespace p13

#if SHARD == 0
void sim_run() {
  switch (sim::w(4)) {
  case 0:
    return p13::synthetic_ints();
  case 1:
    return p13::synthetic_strings();
  case 2:
    return p13::generic_model();
  default:
    return p13::gp_model();
  }
}
#endif
