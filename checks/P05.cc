// SHARDS: 3
// P05: a Gaussian process updated online has the posterior of a batch fit.
#include <albatross/GP>
#include <albatross/CovarianceFunctions>
#include <albatross/serialize/GP>

#include "gpworld.h"
#include "num.h"
#include "sim.h"

#include <chrono>
#include <memory>
#include <mutex>
#include <sstream>
#include <thread>

#if SHARD == 0
extern const char *const kProperty, *const kRule, *const kRealCode, *const kStubs;
extern const std::vector<std::string> kAssumptions;
const char *const kProperty = "P05";
const char *const kRule =
    "one evaluation = the predictive distribution of one replica after one more "
    "delivered batch, compared with the posterior given exactly the "
    "measurements it has applied; non-trivial = at least one update was "
    "applied; distinct by delivery history, feature kinds and data";
const char *const kRealCode =
    "GaussianProcessBase fit / update / fit_from_prediction / predict, "
    "BlockSymmetric, ExplainedCovariance, SerializableLDLT, covariance and mean "
    "function callers, concatenate, cereal serialization of the fits";
const char *const kStubs =
    "ThreadPool (FIFO stub), pthread scheduling, clocks, the network between "
    "source and replicas, the snapshot store";
const std::vector<std::string> kAssumptions = {
    "measurements carry independent noise of variance at least 0.01, so the "
    "problems are well conditioned; tolerance 1e-6 relative to prior scale",
    "a delivered duplicate is a second measurement with the same value"};
#endif

namespace p05 {
using namespace albatross;
using namespace gpw;

struct Belief {
  std::vector<Obs> base; // not measurements: u ~ N(base_mean, base_cov)
  Eigen::VectorXd base_mean;
  Eigen::MatrixXd base_cov;
};
struct Posterior {
  Eigen::VectorXd mean;
  Eigen::MatrixXd cov;
};
inline Posterior reference(const Hyper &h, const Belief &belief,
                    const std::vector<Obs> &obs, const std::vector<Obs> &test) {
  std::vector<Obs> all(obs);
  all.insert(all.end(), test.begin(), test.end());
  const Eigen::Index n = static_cast<Eigen::Index>(obs.size());
  const Eigen::Index t = static_cast<Eigen::Index>(test.size());
  Eigen::VectorXd mean(n + t);
  for (Eigen::Index i = 0; i < n + t; ++i) {
    mean[i] = ref_m(h, all[static_cast<std::size_t>(i)]);
  }
  Eigen::MatrixXd cov = ref_cov(h, all, all);
  if (!belief.base.empty()) {
    const Eigen::MatrixXd kuu = ref_cov(h, belief.base, belief.base);
    const Eigen::MatrixXd kua = ref_cov(h, belief.base, all);
    const Eigen::MatrixXd g = kuu.fullPivLu().solve(kua); // Kuu^-1 Kua
    Eigen::VectorXd mu(belief.base.size());
    for (std::size_t i = 0; i < belief.base.size(); ++i) {
      mu[i] = ref_m(h, belief.base[i]);
    }
    mean += g.transpose() * (belief.base_mean - mu);
    cov -= g.transpose() * (kuu - belief.base_cov) * g;
  }
  Posterior p;
  if (n == 0) {
    p.mean = mean;
    p.cov = cov;
    return p;
  }
  Eigen::MatrixXd s = cov.topLeftCorner(n, n);
  Eigen::VectorXd y(n);
  for (Eigen::Index i = 0; i < n; ++i) {
    s(i, i) += obs[static_cast<std::size_t>(i)].var;
    y[i] = obs[static_cast<std::size_t>(i)].mean;
  }
  const Eigen::MatrixXd c = cov.topRightCorner(n, t);
  const Eigen::FullPivLU<Eigen::MatrixXd> lu(s);
  p.mean = mean.tail(t) + c.transpose() * lu.solve(y - mean.head(n));
  p.cov = cov.bottomRightCorner(t, t) - c.transpose() * lu.solve(c);
  return p;
}

struct Query {
  std::vector<Obs> test;
  bool noisy = false; // predict_with_measurement_noise
  int kind = 0;
};
struct Answer {
  Eigen::VectorXd mean;
  MarginalDistribution marginal;
  JointDistribution joint;
};

struct Node {
  virtual ~Node() = default;
  virtual Answer ask(const Query &q) const = 0;
  virtual bool can_update(int kind) const = 0;
  virtual std::shared_ptr<const Node> update(const std::vector<Obs> &obs,
                                             int kind) const = 0;
  virtual std::string save(int archive) const = 0;
  virtual std::shared_ptr<const Node> load(const std::string &bytes,
                                           int archive) const = 0;
  int updates = 0;
};

template <typename Model, typename FitType, bool Pairs, int Left>
struct NodeImpl : public Node {
  FitModel<Model, FitType> fit;
  const Model *prototype;
  NodeImpl(FitModel<Model, FitType> &&f, const Model *p)
      : fit(std::move(f)), prototype(p) {}

  template <typename X> Answer answer(const Query &q, const std::vector<X> &x) const {
    Answer a;
    if (q.noisy) {
      const auto p = fit.predict(as_measurements(x));
      a.mean = p.mean();
      a.marginal = p.marginal();
      a.joint = p.joint();
    } else {
      const auto p = fit.predict(x);
      a.mean = p.mean();
      a.marginal = p.marginal();
      a.joint = p.joint();
    }
    return a;
  }
  Answer ask(const Query &q) const override {
    if constexpr (Pairs) {
      if (q.kind == 1) {
        return answer(q, as_pairs(q.test));
      }
      if (q.kind == 2) {
        return answer(q, as_mixeds(q.test));
      }
    }
    return answer(q, as_doubles(q.test));
  }
  bool can_update(int kind) const override {
    return Left > 0 && (Pairs || kind == 0);
  }
  template <typename X>
  std::shared_ptr<const Node> apply(const std::vector<X> &x,
                                    const MarginalDistribution &y) const {
    auto next = fit.update(x, y);
    using NextFit = typename decltype(next)::fit_type;
    auto out = std::make_shared<NodeImpl<Model, NextFit, Pairs, Left - 1>>(
        std::move(next), prototype);
    out->updates = updates + 1;
    return out;
  }
  std::shared_ptr<const Node> update(const std::vector<Obs> &obs,
                                     int kind) const override {
    if constexpr (Left > 0) {
      const auto y = targets_of(obs);
      if constexpr (Pairs) {
        if (kind == 1) {
          return apply(as_pairs(obs), y);
        }
        if (kind == 2) {
          return apply(as_mixeds(obs), y);
        }
      }
      return apply(as_doubles(obs), y);
    } else {
      return nullptr;
    }
  }
  std::string save(int archive) const override {
    std::ostringstream os;
    if (archive == 0) {
      cereal::BinaryOutputArchive ar(os);
      ar(fit.get_fit());
    } else {
      cereal::JSONOutputArchive ar(os);
      ar(fit.get_fit());
    }
    return os.str();
  }
  std::shared_ptr<const Node> load(const std::string &bytes,
                                   int archive) const override {
    std::istringstream is(bytes);
    FitType f;
    if (archive == 0) {
      cereal::BinaryInputArchive ar(is);
      ar(f);
    } else {
      cereal::JSONInputArchive ar(is);
      ar(f);
    }
    auto out = std::make_shared<NodeImpl>(
        FitModel<Model, FitType>(*prototype, std::move(f)), prototype);
    out->updates = updates;
    return out;
  }
};

template <bool Pairs, int Left, typename Model, typename FitType>
std::shared_ptr<const Node> make_node(FitModel<Model, FitType> &&f,
                                      const Model *prototype) {
  return std::make_shared<NodeImpl<Model, FitType, Pairs, Left>>(std::move(f),
                                                                 prototype);
}

// --- one run --------------------------------------------------------------------
struct Batch {
  std::vector<Obs> obs;
  int kind = 0;
};

struct World {
  Hyper h;
  Belief belief;
  std::vector<Obs> initial;
  std::vector<Batch> batches;
  std::vector<Query> queries;
  std::shared_ptr<const Node> start;
};

inline Obs random_obs(const World &w, bool allow_pair, std::vector<Obs> &placed) {
  Obs o;
  if (!placed.empty() && sim::chance(sim::W, 1, 6)) {
    o = placed[sim::w(placed.size())]; // the same place again
    if (!allow_pair && o.pair) {
      o.pair = false;
    }
  } else {
    o.pair = allow_pair && sim::chance(sim::W, 1, 2);
    o.a = sim::real(-4., 4.);
    o.b = o.pair ? sim::real(-4., 4.) : 0.;
  }
  o.meas = true;
  o.mean = 2. * sim::gauss();
  static const double vars[] = {0.1, 1., 0.01};
  o.var = vars[sim::w(3)];
  placed.push_back(o);
  return o;
}

inline void check(const World &w, const Node &node, const std::vector<Obs> &applied,
           const Query &q, const char *who) {
  const Answer a = node.ask(q);
  sim::Quiet quiet;
  std::vector<Obs> test(q.test);
  for (auto &t : test) {
    t.meas = q.noisy;
  }
  const Posterior p = reference(w.h, w.belief, applied, test);
  const std::string at = std::string(who) + " after " +
                         std::to_string(node.updates) + " updates, " +
                         std::to_string(applied.size()) + " measurements";
  const double tol = 1e-6, scale = 3.;
  num::expect_close("mean", at + ": mean", a.mean, p.mean, tol, scale);
  num::expect_close("marginal", at + ": marginal mean", a.marginal.mean, p.mean,
                    tol, scale);
  num::expect_close("marginal", at + ": marginal variance",
                    Eigen::VectorXd(a.marginal.covariance.diagonal()),
                    p.cov.diagonal(), tol, scale);
  num::expect_close("joint", at + ": joint mean", a.joint.mean, p.mean, tol,
                    scale);
  num::expect_close("joint", at + ": joint covariance", a.joint.covariance,
                    p.cov, tol, scale);
  std::uint64_t sig = num::hash(p.mean, num::hash(p.cov));
  sig = sim::mix(sig, static_cast<std::uint64_t>(node.updates));
  sim::evaluated(node.updates > 0, sig);
  if (node.updates >= 2) {
    sim::probe("two_or_more_updates");
  }
}

struct Message {
  int batch;
  std::uint64_t at; // simulated arrival time
};

struct Replica {
  std::vector<Message> inbox; // in order of arrival
  std::vector<int> crash_after;
  int archive = 0;
  bool readers = false;
};

// Applies the batches in arrival order; each crash loses the state in memory
// and resumes from the last snapshot, redelivering what came after it.
inline void run_replica(const World &w, const Replica &r, int id) {
  const std::string who = "replica " + std::to_string(id);
  std::shared_ptr<const Node> node = w.start;
  std::vector<Obs> applied(w.initial);
  struct Snapshot {
    std::string bytes;
    std::shared_ptr<const Node> shape; // only its type is used
    std::vector<Obs> applied;
    std::size_t next = 0;
  };
  Snapshot snap{node->save(r.archive), node, applied, 0};
  std::size_t crash = 0;
  int done = 0;
  for (std::size_t i = 0; i < r.inbox.size();) {
    const Message &m = r.inbox[i];
    const Batch &b = w.batches[static_cast<std::size_t>(m.batch)];
    std::this_thread::sleep_for(std::chrono::milliseconds(m.at % 7));
    if (!node->can_update(b.kind)) {
      break;
    }
    std::shared_ptr<const Node> before = node;
    std::thread reader;
    if (r.readers) {
      // Somebody keeps predicting from the old fit while it is updated.
      reader = std::thread([&w, before, applied, &who] {
        check(w, *before, applied, w.queries[0], who.c_str());
      });
    }
    node = node->update(b.obs, b.kind);
    applied.insert(applied.end(), b.obs.begin(), b.obs.end());
    if (reader.joinable()) {
      reader.join();
      check(w, *before,
            std::vector<Obs>(applied.begin(),
                             applied.end() - static_cast<long>(b.obs.size())),
            w.queries[0], who.c_str());
    }
    check(w, *node, applied, w.queries[(i + 1) % w.queries.size()], who.c_str());
    ++i;
    ++done;
    if (crash < r.crash_after.size() && r.crash_after[crash] == done) {
      ++crash;
      sim::fault_fired("replica_crash_restart");
      node = snap.shape->load(snap.bytes, r.archive);
      applied = snap.applied;
      i = snap.next;
      check(w, *node, applied, w.queries[0], (who + " restarted").c_str());
    } else if (sim::chance(sim::F, 1, 2)) {
      snap = Snapshot{node->save(r.archive), node, applied, i};
    }
  }
}

template <typename Model, bool Pairs, int Depth>
std::shared_ptr<const Node> start_node(const Model &model, World &w,
                                       std::vector<Obs> &placed) {
  if (sim::chance(sim::W, 1, 3)) {
    // Start from somebody else's prediction.
    const int n = static_cast<int>(sim::range(1, 3));
    for (int i = 0; i < n; ++i) {
      Obs o;
      o.meas = false;
      o.a = -3. + 2.5 * i + sim::real(0., 0.5);
      w.belief.base.push_back(o);
      placed.push_back(o);
    }
    const Eigen::MatrixXd kuu = ref_cov(w.h, w.belief.base, w.belief.base);
    Eigen::MatrixXd noisy(kuu);
    noisy.diagonal().array() += 0.3;
    w.belief.base_cov = kuu - kuu * noisy.fullPivLu().solve(kuu);
    w.belief.base_cov =
        (0.5 * (w.belief.base_cov + w.belief.base_cov.transpose())).eval();
    w.belief.base_mean.resize(n);
    for (int i = 0; i < n; ++i) {
      w.belief.base_mean[i] = sim::gauss();
    }
    sim::probe("start_from_prediction");
    return make_node<Pairs, Depth>(
        model.fit_from_prediction(
            as_doubles(w.belief.base),
            JointDistribution(w.belief.base_mean, w.belief.base_cov)),
        &model);
  }
  const int n = static_cast<int>(sim::range(1, 5));
  bool pairs = false;
  if constexpr (Pairs) {
    pairs = sim::chance(sim::W, 1, 2);
  }
  for (int i = 0; i < n; ++i) {
    w.initial.push_back(random_obs(w, pairs, placed));
  }
  if constexpr (Pairs) {
    if (pairs) {
      return make_node<Pairs, Depth>(
          model.fit(as_mixeds(w.initial), targets_of(w.initial)), &model);
    }
  }
  return make_node<Pairs, Depth>(
      model.fit(as_doubles(w.initial), targets_of(w.initial)), &model);
}

template <bool Pairs, int Depth, typename Model>
void scenario(Model &model, World &w) {
  std::vector<Obs> placed;
  const auto set = [&](const char *name, double v) {
    model.set_param_value(name, v);
  };
  static const double lengths[] = {1.5, 0.8, 2.5};
  static const double sigmas[] = {1.2, 0.5, 2.};
  w.h.fs = sigmas[sim::w(3)];
  w.h.fl = lengths[sim::w(3)];
  set("field_sigma", w.h.fs);
  set("field_length", w.h.fl);
  if (w.h.has_indep) {
    w.h.indep = sim::w(2) ? 0.7 : 0.2;
    set("sigma_independent_noise", w.h.indep);
  }
  if (w.h.has_trend) {
    w.h.off = sim::real(-3., 3.);
    w.h.slope = sim::real(-1., 1.);
    set("trend_offset", w.h.off);
    set("trend_slope", w.h.slope);
  }
  if (w.h.has_drift) {
    w.h.ds = sigmas[sim::w(3)] / 2.;
    set("drift_sigma", w.h.ds);
  }
  w.start = start_node<Model, Pairs, Depth>(model, w, placed);
  const int n_batches = static_cast<int>(sim::range(1, Depth));
  for (int b = 0; b < n_batches; ++b) {
    Batch batch;
    const int n = static_cast<int>(sim::range(1, 4));
    const bool allow_pairs = Pairs && sim::chance(sim::W, 1, 2);
    for (int i = 0; i < n; ++i) {
      batch.obs.push_back(random_obs(w, allow_pairs, placed));
    }
    batch.kind = kind_of(batch.obs, Pairs && sim::chance(sim::W, 1, 3));
    w.batches.push_back(batch);
  }
  const int n_queries = static_cast<int>(sim::range(1, 3));
  for (int i = 0; i < n_queries; ++i) {
    Query q;
    const int n = static_cast<int>(sim::range(1, 4));
    std::vector<Obs> unused(placed);
    const bool allow_pairs = Pairs && sim::chance(sim::W, 1, 2);
    for (int j = 0; j < n; ++j) {
      q.test.push_back(random_obs(w, allow_pairs, unused));
    }
    q.noisy = sim::chance(sim::W, 1, 4);
    if (q.noisy) {
      // What a noisy prediction means for a place that was itself measured is
      // not what is decided here.
      for (std::size_t j = 0; j < q.test.size(); ++j) {
        q.test[j].a = 5. + 0.37 * static_cast<double>(j) + sim::real(0., 0.2);
      }
      if (w.h.has_drift) {
        q.noisy = false; // correlated noise reaches everywhere
      }
    }
    q.kind = kind_of(q.test, Pairs && sim::chance(sim::W, 1, 3));
    w.queries.push_back(q);
  }
  check(w, *w.start, w.initial, w.queries[0], "start");

  {
    // The likelihood of a batch under the same prior.
    const Batch &b = w.batches[0];
    const auto ask = [&](const auto &x) {
      using X = typename std::decay<decltype(x[0])>::type;
      return model.log_likelihood(RegressionDataset<X>(x, targets_of(b.obs)));
    };
    double got = 0.;
    if constexpr (Pairs) {
      got = b.kind == 1   ? ask(as_pairs(b.obs))
            : b.kind == 2 ? ask(as_mixeds(b.obs))
                          : ask(as_doubles(b.obs));
    } else {
      got = ask(as_doubles(b.obs));
    }
    Eigen::MatrixXd s = ref_cov(w.h, b.obs, b.obs);
    Eigen::VectorXd y(b.obs.size());
    for (std::size_t i = 0; i < b.obs.size(); ++i) {
      s(i, i) += b.obs[i].var;
      y[i] = b.obs[i].mean - ref_m(w.h, b.obs[i]);
    }
    const Eigen::FullPivLU<Eigen::MatrixXd> lu(s);
    double want = -0.5 * (y.dot(lu.solve(y)) +
                          static_cast<double>(y.size()) * std::log(2. * M_PI));
    want -= 0.5 * lu.matrixLU().diagonal().array().abs().log().sum();
    want += model.prior_log_likelihood();
    if (!(std::fabs(want - got) <= 1e-6 * (1. + std::fabs(want)))) {
      sim::violation("likelihood", "log likelihood is %.12g, expected %.12g", got,
                     want);
    }
    sim::evaluated(false);
  }

  // The network: each replica gets every batch, in its own order, some of them
  // twice; lost messages are sent again later.
  std::vector<Replica> replicas(1 + sim::w(3));
  for (auto &r : replicas) {
    std::vector<Message> wire;
    for (int b = 0; b < n_batches; ++b) {
      std::uint64_t at = 1 + sim::f(10);
      while (sim::chance(sim::F, 1, 4)) {
        at += 10;
        sim::fault_fired("message_loss");
      }
      wire.push_back({b, at});
      if (sim::chance(sim::F, 1, 6)) {
        wire.push_back({b, at + sim::f(15)});
        sim::fault_fired("message_duplication");
      }
    }
    std::stable_sort(wire.begin(), wire.end(),
                     [](const Message &x, const Message &y) { return x.at < y.at; });
    for (std::size_t i = 1; i < wire.size(); ++i) {
      if (wire[i].batch < wire[i - 1].batch) {
        sim::fault_fired("message_reordering");
      }
    }
    r.inbox = wire;
    r.archive = static_cast<int>(sim::w(2));
    r.readers = sim::chance(sim::W, 1, 3);
    int at = 0;
    while (sim::chance(sim::F, 1, 3) && at < 4) {
      at += 1 + static_cast<int>(sim::f(3));
      r.crash_after.push_back(at);
    }
  }

  const bool alloc = replicas.size() == 1 && sim::chance(sim::F, 1, 2);
  if (alloc) {
    // A failed update leaves the fit as it was; trying again succeeds.
    std::vector<Obs> applied(w.initial);
    const Batch &b = w.batches[0];
    const std::string before = w.start->save(0);
    sim::count_allocs_begin();
    w.start->update(b.obs, b.kind);
    const std::uint64_t n = sim::count_allocs_end();
    bool failed = false;
    sim::arm_alloc_fault(sim::f(n ? n : 1));
    try {
      const auto next = w.start->update(b.obs, b.kind);
    } catch (const std::bad_alloc &) {
      failed = true;
    }
    sim::disarm_alloc_fault();
    if (sim::alloc_fault_fired() && !failed) {
      sim::violation("alloc", "an update succeeded although an allocation in it failed");
    }
    if (w.start->save(0) != before) {
      sim::violation("alloc", "a failed update changed the fit it started from");
    }
    const auto again = w.start->update(b.obs, b.kind);
    applied.insert(applied.end(), b.obs.begin(), b.obs.end());
    check(w, *again, applied, w.queries[0], "retried update");
  }

  sim::begin(sim::random_sched());
  std::vector<std::thread> threads;
  for (std::size_t i = 1; i < replicas.size(); ++i) {
    threads.emplace_back([&w, &replicas, i] {
      run_replica(w, replicas[i], static_cast<int>(i));
    });
  }
  run_replica(w, replicas[0], 0);
  for (auto &t : threads) {
    t.join();
  }
  sim::end();
}

void config0(World &w);
void config1(World &w);
void config2(World &w);
#if SHARD == 0
void config0(World &w) {
  auto model = gp_from_covariance(
      Field() + measurement_only(IndependentNoise<double>()), "plain");
  scenario<false, 4>(model, w);
}
#elif SHARD == 1
void config1(World &w) {
  auto model = gp_from_covariance_and_mean(
      Field() + measurement_only(IndependentNoise<double>()) +
          measurement_only(Drift()),
      Trend(), "drifting");
  scenario<true, 2>(model, w);
}
#else
void config2(World &w) {
  auto model = gp_from_covariance_and_mean(Field(), Trend(), "mixed");
  scenario<true, 3>(model, w);
}
#endif

} // namespace p05

#if SHARD == 0
void sim_run() {
  p05::World w;
  const auto config = sim::w(3);
  w.h.has_indep = config != 2;
  w.h.has_drift = config == 1;
  w.h.has_trend = config != 0;
  switch (config) {
  case 0:
    return p05::config0(w);
  case 1:
    return p05::config1(w);
  default:
    return p05::config2(w);
  }
}
#endif
