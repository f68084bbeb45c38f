// SHARDS: 3
// P06: a sparse Gaussian process updated online has the posterior of a batch
// fit, which is the one its approximation defines.
#include <albatross/SparseGP>
#include <albatross/serialize/GP>

#include "gpworld.h"
#include "num.h"
#include "sim.h"

#include <chrono>
#include <memory>
#include <set>
#include <sstream>
#include <thread>

#if SHARD == 0
extern const char *const kProperty, *const kRule, *const kRealCode, *const kStubs;
extern const std::vector<std::string> kAssumptions;
const char *const kProperty = "P06";
const char *const kRule =
    "one evaluation = the predictive distribution (or likelihood) of a sparse "
    "Gaussian process after one more step of its history (fit, delivered batch, "
    "rebase onto other inducing points, restart) compared with the dense FITC / "
    "PITC posterior of exactly the measurements it has applied; non-trivial = "
    "at least one update, rebase or restart; distinct by history and data";
const char *const kRealCode =
    "SparseGaussianProcessRegression fit / update / update_in_place / "
    "fit_from_prediction / predict / log_likelihood, rebase_inducing_points, "
    "BlockDiagonalLDLT, SerializableLDLT, dense and SPQR factorizations, "
    "group_by, cereal serialization, async apply";
const char *const kStubs =
    "ThreadPool (FIFO stub), pthread scheduling, clocks, the network between "
    "source and replicas, the snapshot store";
const std::vector<std::string> kAssumptions = {
    "measurement noise of variance at least 0.01 and inducing points at least "
    "half a length scale apart; tolerance 2e-5 relative to prior scale",
    "batches keep groups whole, or the reference treats a group's part in each "
    "batch as a group of its own, as the documentation of the approximation says"};
#endif

namespace p06 {
using namespace albatross;
using namespace gpw;

// A covariance with a state space representation.
class Spanned : public CovarianceFunction<Spanned> {
public:
  Spanned() {
    field_sigma = {1.2, PositivePrior()};
    field_length = {1.5, PositivePrior()};
  }
  ALBATROSS_DECLARE_PARAMS(field_sigma, field_length)
  std::string name() const { return "spanned"; }
  double _call_impl(const double &x, const double &y) const {
    return field_k(field_sigma.value, field_length.value, x, y);
  }
  double _call_impl(const double &x, const Pair &y) const {
    return _call_impl(x, y.a) + kPairB * _call_impl(x, y.b);
  }
  double _call_impl(const Pair &x, const Pair &y) const {
    return _call_impl(x.a, y) + kPairB * _call_impl(x.b, y);
  }
  template <typename X>
  std::vector<double> _ssr_impl(const std::vector<X> &) const {
    return {-4., -2.5, -1., 0.5, 2., 3.5};
  }
};

struct FixedPoints {
  std::vector<double> points;
  template <typename Cov, typename X>
  std::vector<double> operator()(const Cov &, const std::vector<X> &) const {
    return points;
  }
};

// Groups of observations which are dependent given the inducing points.
struct Grouper {
  double width = 0.; // 0: every place is a group of its own
  double key(double x) const { return width > 0. ? std::floor(x / width) : x; }
  double operator()(const double &x) const { return key(x); }
  double operator()(const Pair &x) const {
    return 1000. + (width > 0. ? key(x.a) : 31. * x.a + x.b);
  }
  double operator()(const Mixed &x) const {
    return x.match([&](const auto &y) { return (*this)(y); });
  }
};

struct Batch {
  std::vector<Obs> obs;
  int kind = 0;
};

// What the model is defined to believe: f(x) = k(x, u) w + independent part.
struct Belief {
  std::vector<Obs> u;
  Eigen::VectorXd w_mean;
  Eigen::MatrixXd w_cov;
  Eigen::MatrixXd t; // the matrix standing for K_uu in Q
};

struct World {
  Hyper h;
  Grouper grouper;
  double measurement_nugget = 1e-8, inducing_nugget = 1e-8;
  std::vector<Obs> u;
  Batch initial;
  std::vector<Batch> batches;
  std::vector<std::vector<Obs>> queries;
  bool uniform = false;
  std::size_t n_uniform = 0;
  bool pairs = true;
  bool alloc_faults = true; // SuiteSparse turns a failed allocation into an abort
};

inline std::vector<Obs> places(const std::vector<double> &xs) {
  std::vector<Obs> out;
  for (double x : xs) {
    Obs o;
    o.a = x;
    o.meas = false;
    out.push_back(o);
  }
  return out;
}

inline Belief prior_belief(const World &w, const std::vector<Obs> &u) {
  Belief b;
  b.u = u;
  b.t = ref_cov(w.h, u, u);
  b.t.diagonal().array() += w.inducing_nugget;
  b.w_mean = Eigen::VectorXd::Zero(b.t.rows());
  b.w_cov = b.t.fullPivLu().inverse();
  return b;
}

// The covariance of the part of the observations not explained by u.
inline Eigen::MatrixXd unexplained(const World &w, const std::vector<Obs> &u,
                                   const std::vector<const Batch *> &batches,
                                   std::vector<Obs> *all) {
  std::vector<std::pair<int, double>> keys;
  for (std::size_t b = 0; b < batches.size(); ++b) {
    for (const auto &o : batches[b]->obs) {
      all->push_back(o);
      keys.emplace_back(static_cast<int>(b), o.pair ? w.grouper(Pair{o.a, o.b})
                                                    : w.grouper(o.a));
    }
  }
  Eigen::MatrixXd kuu = ref_cov(w.h, u, u);
  kuu.diagonal().array() += w.inducing_nugget;
  const Eigen::MatrixXd kuf = ref_cov(w.h, u, *all);
  Eigen::MatrixXd a =
      ref_cov(w.h, *all, *all) - kuf.transpose() * kuu.fullPivLu().solve(kuf);
  for (std::size_t i = 0; i < keys.size(); ++i) {
    for (std::size_t j = 0; j < keys.size(); ++j) {
      if (keys[i] != keys[j]) {
        a(i, j) = 0.;
      }
    }
    a(i, i) += (*all)[i].var + w.measurement_nugget;
  }
  return a;
}

inline Belief condition(const World &w, const Belief &before,
                        const std::vector<const Batch *> &batches) {
  if (batches.empty()) {
    return before;
  }
  std::vector<Obs> all;
  const Eigen::MatrixXd a = unexplained(w, before.u, batches, &all);
  const Eigen::MatrixXd kfu = ref_cov(w.h, all, before.u);
  Eigen::VectorXd y(all.size());
  for (std::size_t i = 0; i < all.size(); ++i) {
    y[i] = all[i].mean - ref_m(w.h, all[i]);
  }
  const Eigen::MatrixXd s = kfu * before.w_cov * kfu.transpose() + a;
  const Eigen::MatrixXd c = before.w_cov * kfu.transpose();
  const Eigen::FullPivLU<Eigen::MatrixXd> lu(s);
  Belief after(before);
  after.w_mean = before.w_mean + c * lu.solve(y - kfu * before.w_mean);
  after.w_cov = before.w_cov - c * lu.solve(c.transpose());
  return after;
}

struct Posterior {
  Eigen::VectorXd mean;
  Eigen::MatrixXd cov;
};
inline Posterior predicted(const World &w, const Belief &b,
                           const std::vector<Obs> &test) {
  const Eigen::MatrixXd k = ref_cov(w.h, test, b.u);
  Posterior p;
  p.mean = k * b.w_mean;
  for (std::size_t i = 0; i < test.size(); ++i) {
    p.mean[i] += ref_m(w.h, test[i]);
  }
  p.cov = ref_cov(w.h, test, test) -
          k * b.t.fullPivLu().solve(k.transpose()) +
          k * b.w_cov * k.transpose();
  return p;
}

// The belief a fit built from a prediction for z stands for.
inline Belief rebased(const World &w, const std::vector<Obs> &z,
                      const Posterior &p) {
  Belief b;
  b.u = z;
  b.t = ref_cov(w.h, z, z);
  const Eigen::FullPivLU<Eigen::MatrixXd> lu(b.t);
  Eigen::VectorXd m(p.mean);
  for (std::size_t i = 0; i < z.size(); ++i) {
    m[i] -= ref_m(w.h, z[i]);
  }
  b.w_mean = lu.solve(m);
  Eigen::MatrixXd c(p.cov);
  c.diagonal().array() += 1e-8;
  b.w_cov = lu.solve(Eigen::MatrixXd(lu.solve(c).transpose()));
  return b;
}

template <typename FitModelType>
void check(const World &w, const FitModelType &fit, const Belief &b,
           const std::vector<Obs> &test, bool nontrivial, const char *who) {
  Eigen::VectorXd mean;
  MarginalDistribution marginal;
  JointDistribution joint;
  const auto ask = [&](const auto &x) {
    const auto p = fit.predict(x);
    mean = p.mean();
    marginal = p.marginal();
    joint = p.joint();
  };
  const int kind = kind_of(test, false);
  if (kind == 0) {
    ask(as_doubles(test));
  } else if (kind == 1) {
    ask(as_pairs(test));
  } else {
    ask(as_mixeds(test));
  }
  sim::Quiet quiet;
  const Posterior p = predicted(w, b, test);
  const std::string at(who);
  const double tol = 2e-5, scale = 3.;
  num::expect_close("mean", at + ": mean", mean, p.mean, tol, scale);
  num::expect_close("marginal", at + ": marginal mean", marginal.mean, p.mean,
                    tol, scale);
  num::expect_close("marginal", at + ": marginal variance",
                    Eigen::VectorXd(marginal.covariance.diagonal()),
                    p.cov.diagonal(), tol, scale);
  num::expect_close("joint", at + ": joint mean", joint.mean, p.mean, tol, scale);
  num::expect_close("joint", at + ": joint covariance", joint.covariance, p.cov,
                    tol, scale);
  sim::evaluated(nontrivial, num::hash(p.mean, num::hash(p.cov)));
}

inline Obs random_obs(bool allow_pair, std::vector<Obs> &placed) {
  Obs o;
  if (!placed.empty() && sim::chance(sim::W, 1, 8)) {
    o = placed[sim::w(placed.size())];
    if (!allow_pair) {
      o.pair = false;
    }
  } else {
    o.pair = allow_pair && sim::chance(sim::W, 1, 2);
    o.a = sim::real(-4., 4.);
    o.b = o.pair ? sim::real(-4., 4.) : 0.;
  }
  o.meas = true;
  o.mean = 2. * sim::gauss();
  static const double vars[] = {0.1, 1., 0.01};
  o.var = vars[sim::w(3)];
  placed.push_back(o);
  return o;
}

inline std::vector<double> spaced(double from, double to, double step) {
  std::vector<double> out;
  for (double x = from + sim::real(0., 0.4); x < to; x += step * (1. + sim::real(0., 0.5))) {
    out.push_back(x);
  }
  num::shuffle(out);
  return out;
}

template <bool Pairs, typename F>
auto with_features(const Batch &b, const F &f) {
  const auto y = targets_of(b.obs);
  if constexpr (Pairs) {
    if (b.kind == 1) {
      return f(as_pairs(b.obs), y);
    }
    if (b.kind == 2) {
      return f(as_mixeds(b.obs), y);
    }
  }
  return f(as_doubles(b.obs), y);
}

template <typename Fit> std::string save(const Fit &fit, int archive) {
  std::ostringstream os;
  if (archive == 0) {
    cereal::BinaryOutputArchive ar(os);
    ar(fit);
  } else {
    cereal::JSONOutputArchive ar(os);
    ar(fit);
  }
  return os.str();
}
template <typename Fit> Fit load(const std::string &bytes, int archive) {
  std::istringstream is(bytes);
  Fit f;
  if (archive == 0) {
    cereal::BinaryInputArchive ar(is);
    ar(f);
  } else {
    cereal::JSONInputArchive ar(is);
    ar(f);
  }
  return f;
}

struct Replica {
  std::vector<int> inbox;
  std::vector<int> crash_after, rebase_after;
  std::vector<double> z;
  int archive = 0;
  bool in_place = false, readers = false;
};

template <typename Model, typename FitModelType>
void run_replica(const World &w, const Model &model, const FitModelType &start,
                 const Belief &start_belief, const Replica &r, int id) {
  using FitType = typename FitModelType::fit_type;
  const std::string who = "replica " + std::to_string(id);
  FitModelType fit(start);
  Belief base(start_belief);
  std::vector<const Batch *> applied;
  struct Snapshot {
    std::string bytes;
    Belief base;
    std::vector<const Batch *> applied;
    std::size_t next;
  };
  Snapshot snap{save(fit.get_fit(), r.archive), base, applied, 0};
  std::size_t crash = 0, rebase = 0;
  int done = 0;
  for (std::size_t i = 0; i < r.inbox.size();) {
    const Batch &b = w.batches[static_cast<std::size_t>(r.inbox[i])];
    std::this_thread::sleep_for(std::chrono::milliseconds(r.inbox[i] % 3));
    std::thread reader;
    FitModelType before;
    Belief belief_before;
    if (r.readers) {
      before = fit;
      belief_before = condition(w, base, applied);
      reader = std::thread([&] {
        check(w, before, belief_before, w.queries[0], false, who.c_str());
      });
    }
    const FitModelType &source = r.readers ? before : fit;
    if (r.in_place && !r.readers) {
      if (b.kind == 1) {
        fit.update_in_place(as_pairs(b.obs), targets_of(b.obs));
      } else if (b.kind == 2) {
        fit.update_in_place(as_mixeds(b.obs), targets_of(b.obs));
      } else {
        fit.update_in_place(as_doubles(b.obs), targets_of(b.obs));
      }
    } else {
      FitModelType next = with_features<true>(
          b, [&](const auto &x, const auto &y) { return source.update(x, y); });
      fit = next;
    }
    applied.push_back(&b);
    if (reader.joinable()) {
      reader.join();
      check(w, before, belief_before, w.queries[0], true, who.c_str());
    }
    check(w, fit, condition(w, base, applied), w.queries[(i + 1) % w.queries.size()],
          true, (who + ", after " + std::to_string(applied.size()) + " updates").c_str());
    ++i;
    ++done;
    if (rebase < r.rebase_after.size() && r.rebase_after[rebase] == done) {
      ++rebase;
      const Belief now = condition(w, base, applied);
      const std::vector<Obs> z = places(r.z);
      const auto moved = rebase_inducing_points(fit, r.z);
      {
        // The new fit reproduces the prediction it was made from.
        const auto p = moved.predict(r.z).joint();
        const auto q = fit.predict(r.z).joint();
        num::expect_close("rebase", who + ": mean at the new inducing points",
                          p.mean, q.mean, 2e-5, 3.);
        num::expect_close("rebase", who + ": covariance at the new inducing points",
                          p.covariance, q.covariance, 2e-5, 3.);
      }
      base = rebased(w, z, predicted(w, now, z));
      applied.clear();
      fit = moved;
      check(w, fit, base, w.queries[0], true, (who + " rebased").c_str());
      sim::probe("rebase");
    }
    if (crash < r.crash_after.size() && r.crash_after[crash] == done) {
      ++crash;
      sim::fault_fired("replica_crash_restart");
      fit = FitModelType(model, load<FitType>(snap.bytes, r.archive));
      base = snap.base;
      applied = snap.applied;
      i = snap.next;
      check(w, fit, condition(w, base, applied), w.queries[0], true,
            (who + " restarted").c_str());
    } else if (sim::chance(sim::F, 1, 2)) {
      snap = Snapshot{save(fit.get_fit(), r.archive), base, applied, i};
    }
  }
}

template <bool Pairs, typename Model> void scenario(Model &model, World &w) {
  std::vector<Obs> placed;
  const auto set = [&](const std::string &name, double v) {
    model.set_param_value(name, v);
  };
  static const double lengths[] = {1.5, 1., 2.};
  static const double sigmas[] = {1.2, 0.6, 2.};
  w.h.fs = sigmas[sim::w(3)];
  w.h.fl = lengths[sim::w(3)];
  set("field_sigma", w.h.fs);
  set("field_length", w.h.fl);
  if (w.h.has_indep) {
    w.h.indep = sim::w(2) ? 0.7 : 0.2;
    set("sigma_independent_noise", w.h.indep);
  }
  if (w.h.has_trend) {
    w.h.off = sim::real(-3., 3.);
    w.h.slope = sim::real(-1., 1.);
    set("trend_offset", w.h.off);
    set("trend_slope", w.h.slope);
  }
  static const double nuggets[] = {1e-8, 1e-3, 1e-6};
  w.measurement_nugget = nuggets[sim::w(3)];
  w.inducing_nugget = nuggets[sim::w(3)];
  set("measurement_nugget", w.measurement_nugget);
  set("inducing_nugget", w.inducing_nugget);
  const int workers = static_cast<int>(sim::w(4));
  const auto random_batch = [&](int lo, int hi) {
    Batch batch;
    const int n = static_cast<int>(sim::range(lo, hi));
    const bool allow_pairs = w.pairs && sim::chance(sim::W, 1, 2);
    for (int i = 0; i < n; ++i) {
      batch.obs.push_back(random_obs(allow_pairs, placed));
    }
    batch.kind = kind_of(batch.obs, w.pairs && sim::chance(sim::W, 1, 3));
    return batch;
  };
  w.initial = random_batch(w.uniform ? 4 : 1, 7);
  if (w.uniform) {
    // Keeps the inducing points apart.
    w.initial.obs[0].a = -3. * w.h.fl;
    w.initial.obs[1].a = 3. * w.h.fl;
    for (auto &o : w.initial.obs) {
      o.pair = false;
    }
    w.initial.kind = 0;
    double lo = w.initial.obs[0].a, hi = lo;
    for (const auto &o : w.initial.obs) {
      lo = std::min(lo, o.a);
      hi = std::max(hi, o.a);
    }
    std::vector<double> u;
    for (std::size_t i = 0; i < w.n_uniform; ++i) {
      u.push_back(lo + (hi - lo) * static_cast<double>(i) /
                           static_cast<double>(w.n_uniform - 1));
    }
    w.u = places(u);
  }
  const int n_batches = static_cast<int>(sim::range(1, 5));
  for (int b = 0; b < n_batches; ++b) {
    w.batches.push_back(random_batch(1, 4));
  }
  const int n_queries = static_cast<int>(sim::range(1, 3));
  for (int i = 0; i < n_queries; ++i) {
    std::vector<Obs> q, unused(placed);
    const int n = static_cast<int>(sim::range(1, 4));
    const bool allow_pairs = w.pairs && sim::chance(sim::W, 1, 2);
    for (int j = 0; j < n; ++j) {
      q.push_back(random_obs(allow_pairs, unused));
      q.back().meas = false;
    }
    w.queries.push_back(q);
  }
  std::vector<Replica> replicas(1 + sim::w(3));
  for (auto &r : replicas) {
    std::vector<std::pair<std::uint64_t, int>> wire;
    for (int b = 0; b < n_batches; ++b) {
      std::uint64_t at = 1 + sim::f(10);
      while (sim::chance(sim::F, 1, 4)) {
        at += 10;
        sim::fault_fired("message_loss");
      }
      wire.emplace_back(at, b);
      if (sim::chance(sim::F, 1, 6)) {
        wire.emplace_back(at + sim::f(15), b);
        sim::fault_fired("message_duplication");
      }
    }
    std::stable_sort(wire.begin(), wire.end(),
                     [](const auto &x, const auto &y) { return x.first < y.first; });
    for (std::size_t i = 0; i < wire.size(); ++i) {
      r.inbox.push_back(wire[i].second);
      if (i && wire[i].second < wire[i - 1].second) {
        sim::fault_fired("message_reordering");
      }
    }
    r.archive = static_cast<int>(sim::w(2));
    r.in_place = sim::chance(sim::W, 1, 2);
    r.readers = sim::chance(sim::W, 1, 4);
    r.z = spaced(-3.5, 3.5, 0.75 * w.h.fl);
    int at = 0;
    while (sim::chance(sim::F, 1, 3) && at < 4) {
      at += 1 + static_cast<int>(sim::f(3));
      r.crash_after.push_back(at);
    }
    if (sim::chance(sim::W, 1, 3)) {
      r.rebase_after.push_back(static_cast<int>(sim::range(1, 3)));
    }
  }
  const bool from_prediction = !w.uniform && sim::chance(sim::W, 1, 4);
  const bool alloc = w.alloc_faults && replicas.size() == 1 && sim::chance(sim::F, 1, 2);

  sim::begin(sim::random_sched());
  if (workers > 0) {
    model.set_thread_pool(
        std::make_shared<ThreadPool>(static_cast<std::size_t>(workers)));
  } else {
    model.set_thread_pool(nullptr);
  }
  const Belief prior = prior_belief(w, w.u);
  using FitModelType = decltype(model.fit(as_doubles(w.initial.obs),
                                          targets_of(w.initial.obs)));
  FitModelType start;
  Belief base;
  if (from_prediction) {
    const std::vector<double> zs = spaced(-3.5, 3.5, 0.75 * w.h.fl);
    const std::vector<Obs> z = places(zs);
    Posterior p;
    const Eigen::MatrixXd kzz = ref_cov(w.h, z, z);
    Eigen::MatrixXd noisy(kzz);
    noisy.diagonal().array() += 0.3;
    p.cov = kzz - kzz * noisy.fullPivLu().solve(kzz);
    p.cov = (0.5 * (p.cov + p.cov.transpose())).eval();
    p.mean.resize(kzz.rows());
    for (Eigen::Index i = 0; i < p.mean.size(); ++i) {
      p.mean[i] = 2. * sim::gauss();
    }
    start = model.fit_from_prediction(zs, JointDistribution(p.mean, p.cov));
    base = rebased(w, z, p);
    sim::probe("start_from_prediction");
    const auto back = start.predict(zs).joint();
    num::expect_close("from_prediction", "mean of a fit from a prediction",
                      back.mean, p.mean, 2e-5, 3.);
    num::expect_close("from_prediction", "covariance of a fit from a prediction",
                      back.covariance, p.cov, 2e-5, 3.);
  } else {
    start = with_features<Pairs>(w.initial, [&](const auto &x, const auto &y) {
      return model.fit(x, y);
    });
    base = condition(w, prior, {&w.initial});
  }
  check(w, start, base, w.queries[0], false, "start");

  // The likelihood of a batch under the approximation.
  {
    const Batch &b = w.uniform ? w.initial : w.batches[0];
    const double ll = with_features<Pairs>(b, [&](const auto &x, const auto &y) {
      using X = typename std::decay<decltype(x[0])>::type;
      return model.log_likelihood(RegressionDataset<X>(x, y));
    });
    std::vector<Obs> all;
    const Eigen::MatrixXd a = unexplained(w, w.u, {&b}, &all);
    const Eigen::MatrixXd kuf = ref_cov(w.h, w.u, all);
    const Eigen::MatrixXd s = a + kuf.transpose() * prior.t.fullPivLu().solve(kuf);
    Eigen::VectorXd y(all.size());
    for (std::size_t i = 0; i < all.size(); ++i) {
      y[i] = all[i].mean - ref_m(w.h, all[i]);
    }
    const Eigen::FullPivLU<Eigen::MatrixXd> lu(s);
    double want = -0.5 * (y.dot(lu.solve(y)) +
                          static_cast<double>(y.size()) * std::log(2. * M_PI));
    want -= 0.5 * lu.matrixLU().diagonal().array().abs().log().sum();
    want += model.prior_log_likelihood();
    if (!(std::fabs(want - ll) <= 1e-4 * (1. + std::fabs(want)))) {
      sim::violation("likelihood", "log likelihood is %.12g, expected %.12g", ll, want);
    }
    sim::evaluated(false);
  }

  if (alloc) {
    const Batch &b = w.batches[0];
    const std::string before = save(start.get_fit(), 0);
    const auto once = [&] {
      start.update_in_place(as_doubles(b.obs), targets_of(b.obs));
    };
    if (b.kind == 0 && workers < 2) {
      FitModelType keep(start);
      sim::count_allocs_begin();
      once();
      const std::uint64_t n = sim::count_allocs_end();
      start = keep;
      bool failed = false;
      sim::arm_alloc_fault(sim::f(n ? n : 1));
      try {
        once();
      } catch (const std::bad_alloc &) {
        failed = true;
      }
      sim::disarm_alloc_fault();
      const bool fired = sim::alloc_fault_fired();
      if (fired && !failed) {
        // Legal only if it coped.
        check(w, start, condition(w, base, {&b}), w.queries[0], true,
              "update that survived an allocation failure");
      }
      if (fired && failed && save(start.get_fit(), 0) != before) {
        sim::violation("alloc", "a failed update in place changed the fit");
      }
      start = keep;
    }
  }

  std::vector<std::thread> threads;
  for (std::size_t i = 1; i < replicas.size(); ++i) {
    threads.emplace_back([&, i] {
      run_replica(w, model, start, base, replicas[i], static_cast<int>(i));
    });
  }
  run_replica(w, model, start, base, replicas[0], 0);
  for (auto &t : threads) {
    t.join();
  }
  start = FitModelType();
  model.set_thread_pool(nullptr);
  sim::end();
}

inline void pick_points(World &w) {
  w.grouper.width = sim::w(3) * 1.3;
}

void config0(World &w);
void config1(World &w);
void config2(World &w);
#if SHARD == 0
void config0(World &w) {
  w.h.has_indep = w.h.has_trend = true;
  const std::vector<double> points = spaced(-4., 4., 1.2);
  w.u = places(points);
  auto model = sparse_gp_from_covariance_and_mean(
      Field() + measurement_only(IndependentNoise<double>()), Trend(), Grouper(w.grouper),
      FixedPoints{{0.}}, "sparse");
  model.set_inducing_point_strategy(FixedPoints{points});
  scenario<true>(model, w);
}
#elif SHARD == 1
void config1(World &w) {
  w.h.has_indep = false;
  w.alloc_faults = false;
  w.h.has_trend = true;
  w.u = places({-4., -2.5, -1., 0.5, 2., 3.5});
  auto model = sparse_gp_from_covariance_and_mean(
      Spanned(), Trend(), Grouper(), StateSpaceInducingPointStrategy(), "spqr",
      SPQRImplementation{});
  model.set_grouper_function(Grouper(w.grouper));
  scenario<true>(model, w);
}
#else
void config2(World &w) {
  w.h.has_indep = true;
  w.h.has_trend = false;
  w.uniform = true;
  w.pairs = false;
  w.n_uniform = 2 + sim::w(6);
  auto model = sparse_gp_from_covariance(
      Field() + measurement_only(IndependentNoise<double>()), Grouper(w.grouper),
      UniformlySpacedInducingPoints(w.n_uniform), "uniform");
  scenario<false>(model, w);
}
#endif

} // namespace p06

#if SHARD == 0
void sim_run() {
  p06::World w;
  const auto config = sim::w(3);
  p06::pick_points(w);
  switch (config) {
  case 0:
    return p06::config0(w);
  case 1:
    return p06::config1(w);
  default:
    return p06::config2(w);
  }
}
#endif
