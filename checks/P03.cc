// P03: pool accelerated numerics give the serial answer.
#include <albatross/Tune>
#include <albatross/GP>
#include <albatross/CovarianceFunctions>
#include <albatross/linalg/Block>

#include "sim.h"

#include <thread>

const char *const kProperty = "P03";
const char *const kRule =
    "one evaluation = one pooled numerical operation (covariance or cross "
    "covariance matrix, block diagonal solve / sqrt_solve, blocks of an inverse, "
    "leave-one-group-out prediction, GP fit and cross validation, numerical "
    "gradient, greedy tuning) compared entry by entry with the serial result and "
    "with an independent dense computation; non-trivial = pool of at least two "
    "workers and at least two output entries; distinct by operation, sizes, "
    "worker count and schedule";
const char *const kRealCode =
    "compute_covariance_matrix, partition_triangular, BlockDiagonalLDLT, "
    "SerializableLDLT, held_out_predictions, leave_one_group_out_conditional_*, "
    "GaussianProcessRegression fit / cross_validate, compute_gradient, "
    "greedy_tune, apply; Eigen";
const char *const kStubs = "ThreadPool (FIFO stub), pthread scheduling, clocks";
const std::vector<std::string> kAssumptions = {
    "floating point comparison with relative tolerance 1e-9 (exact where the "
    "pool only distributes independent evaluations)",
    "matrices are well conditioned by construction"};

namespace {
using namespace albatross;

// A covariance function with state, evaluated from all workers.
class Wave : public CovarianceFunction<Wave> {
public:
  Wave() { length_ = {2., UniformPrior(0.01, 100.)}; }
  ALBATROSS_DECLARE_PARAMS(length_)
  std::string name() const { return "wave"; }
  double _call_impl(const double &x, const double &y) const {
    const double d = (x - y) / length_.value;
    return std::exp(-d * d) * (1.5 + 0.25 * std::cos(x + y));
  }
};

double wave(double length, double x, double y) {
  const double d = (x - y) / length;
  return std::exp(-d * d) * (1.5 + 0.25 * std::cos(x + y));
}

std::vector<double> points(std::size_t n) {
  std::vector<double> x(n);
  for (std::size_t i = 0; i < n; ++i) {
    x[i] = 0.7 * static_cast<double>(i) + sim::real(0., 0.5);
  }
  if (n > 2 && sim::w(3) == 2) {
    std::swap(x[0], x[n / 2]);
  }
  return x;
}

Eigen::MatrixXd spd(Eigen::Index n) {
  Eigen::MatrixXd a(n, n);
  for (Eigen::Index i = 0; i < n; ++i) {
    for (Eigen::Index j = 0; j < n; ++j) {
      a(i, j) = sim::real(-1., 1.);
    }
  }
  return a * a.transpose() + (1. + static_cast<double>(n)) * Eigen::MatrixXd::Identity(n, n);
}

Eigen::MatrixXd rect(Eigen::Index n, Eigen::Index m) {
  Eigen::MatrixXd a(n, m);
  for (Eigen::Index i = 0; i < n; ++i) {
    for (Eigen::Index j = 0; j < m; ++j) {
      a(i, j) = sim::real(-2., 2.);
    }
  }
  return a;
}

void same(const char *what, const Eigen::MatrixXd &got,
          const Eigen::MatrixXd &want, double tol) {
  sim::Quiet q;
  if (got.rows() != want.rows() || got.cols() != want.cols()) {
    sim::violation("shape", "%s: got %ldx%ld, expected %ldx%ld", what,
                   static_cast<long>(got.rows()), static_cast<long>(got.cols()),
                   static_cast<long>(want.rows()),
                   static_cast<long>(want.cols()));
  }
  for (Eigen::Index i = 0; i < got.rows(); ++i) {
    for (Eigen::Index j = 0; j < got.cols(); ++j) {
      const double d = std::fabs(got(i, j) - want(i, j));
      if (!(d <= tol * (1. + std::fabs(want(i, j))))) {
        sim::violation("value", "%s: entry (%ld,%ld) is %.17g, expected %.17g",
                       what, static_cast<long>(i), static_cast<long>(j),
                       got(i, j), want(i, j));
      }
    }
  }
}

constexpr double kTol = 1e-9;

struct Case {
  int kind;
  std::size_t n;
  std::vector<double> xs, ys;
  std::vector<Eigen::MatrixXd> blocks;
  Eigen::MatrixXd rhs;
  Eigen::MatrixXd prior;
  Eigen::VectorXd truth, noise, mean;
  std::vector<int> group; // group of each point
  double a, b;
  int groups;
  std::size_t queries, iterations;
};
constexpr int kKinds = 9;
const char *kNames[kKinds] = {"covariance",    "cross-covariance",
                              "block-solve",   "inverse-blocks",
                              "held-out",      "gp-fit",
                              "gp-cross-val",  "gradient",
                              "greedy-tune"};

Case draw() {
  Case c;
  c.kind = static_cast<int>(sim::w(kKinds));
  c.n = sim::w(7) == 6 ? sim::w(16) : sim::w(7);
  if (c.kind >= 3 && c.kind <= 6) {
    c.n = std::max<std::size_t>(c.n, 2);
  }
  c.a = sim::real(0.5, 2.5);
  c.b = sim::real(-1., 1.);
  c.queries = 1 + sim::w(3);
  c.iterations = 1 + sim::w(2);
  c.groups = 1 + static_cast<int>(sim::w(4));
  const auto n = static_cast<Eigen::Index>(c.n);
  c.xs = points(c.n);
  c.ys = points(sim::w(9));
  for (std::size_t i = 0; i < c.n; ++i) {
    c.group.push_back(static_cast<int>(sim::w(static_cast<std::uint64_t>(c.groups))));
  }
  if (c.kind == 2) {
    const std::size_t k = 1 + sim::w(6);
    Eigen::Index rows = 0;
    for (std::size_t i = 0; i < k; ++i) {
      c.blocks.push_back(spd(1 + static_cast<Eigen::Index>(sim::w(3))));
      rows += c.blocks.back().rows();
    }
    c.rhs = rect(rows, 1 + static_cast<Eigen::Index>(sim::w(3)));
  }
  if (c.kind == 3 || c.kind == 4) {
    c.prior = spd(n);
  }
  if (c.kind >= 3 && c.kind <= 6) {
    c.truth = rect(n, 1);
    c.mean = rect(n, 1);
    c.noise = rect(n, 1).cwiseAbs().array() + 0.25;
  }
  return c;
}

// p(group | everything else) by explicit conditioning.
void condition(const Eigen::MatrixXd &prior, const Eigen::VectorXd &mean,
               const Eigen::VectorXd &truth, const Eigen::VectorXd &noise,
               const std::vector<std::size_t> &test, bool with_noise,
               Eigen::VectorXd *m, Eigen::MatrixXd *v) {
  const Eigen::Index n = prior.rows();
  std::vector<Eigen::Index> in, out;
  for (Eigen::Index i = 0; i < n; ++i) {
    bool held = false;
    for (auto t : test) {
      held = held || static_cast<Eigen::Index>(t) == i;
    }
    (held ? out : in).push_back(i);
  }
  const auto no = static_cast<Eigen::Index>(out.size());
  const auto ni = static_cast<Eigen::Index>(in.size());
  Eigen::MatrixXd kii(ni, ni), kio(ni, no), koo(no, no);
  Eigen::VectorXd d(ni);
  for (Eigen::Index i = 0; i < ni; ++i) {
    for (Eigen::Index j = 0; j < ni; ++j) {
      kii(i, j) = prior(in[i], in[j]) + (i == j ? noise[in[i]] : 0.);
    }
    for (Eigen::Index j = 0; j < no; ++j) {
      kio(i, j) = prior(in[i], out[j]);
    }
    d[i] = truth[in[i]] - mean[in[i]];
  }
  for (Eigen::Index i = 0; i < no; ++i) {
    for (Eigen::Index j = 0; j < no; ++j) {
      koo(i, j) = prior(out[i], out[j]) +
                  (with_noise && i == j ? noise[out[i]] : 0.);
    }
  }
  m->resize(no);
  for (Eigen::Index i = 0; i < no; ++i) {
    (*m)[i] = mean[out[i]];
  }
  *v = koo;
  if (ni > 0) {
    const Eigen::MatrixXd s = kii.inverse() * kio;
    *m += s.transpose() * d;
    *v -= kio.transpose() * s;
  }
}

GroupIndexer<int> indexer_of(const Case &c) {
  GroupIndexer<int> idx;
  for (std::size_t i = 0; i < c.n; ++i) {
    idx[c.group[i]].push_back(i);
  }
  return idx;
}

void run_case(const Case &c, const std::shared_ptr<ThreadPool> &pool) {
  Wave cov;
  cov.set_param_value("length_", c.a);
  const auto n = static_cast<Eigen::Index>(c.n);
  std::uint64_t outputs = 0;
  switch (c.kind) {
  case 0: {
    const Eigen::MatrixXd got = cov(c.xs, pool.get());
    Eigen::MatrixXd want(n, n);
    for (Eigen::Index i = 0; i < n; ++i) {
      for (Eigen::Index j = 0; j < n; ++j) {
        want(i, j) = wave(c.a, c.xs[static_cast<std::size_t>(i)],
                          c.xs[static_cast<std::size_t>(j)]);
      }
    }
    same("covariance matrix", got, want, 1e-14);
    outputs = c.n * c.n;
    break;
  }
  case 1: {
    const Eigen::MatrixXd got = cov(c.xs, c.ys, pool.get());
    const auto k = static_cast<Eigen::Index>(c.ys.size());
    Eigen::MatrixXd want(n, k);
    for (Eigen::Index i = 0; i < n; ++i) {
      for (Eigen::Index j = 0; j < k; ++j) {
        want(i, j) = wave(c.a, c.xs[static_cast<std::size_t>(i)],
                          c.ys[static_cast<std::size_t>(j)]);
      }
    }
    same("cross covariance matrix", got, want, 1e-14);
    outputs = c.n * c.ys.size();
    break;
  }
  case 2: {
    BlockDiagonal d;
    d.blocks = c.blocks;
    const Eigen::MatrixXd dense = d.toDense();
    const BlockDiagonalLDLT ldlt = d.ldlt();
    const Eigen::MatrixXd x = ldlt.solve(c.rhs, pool.get());
    same("block solve", x, dense.inverse() * c.rhs, kTol);
    const Eigen::MatrixXd r = ldlt.sqrt_solve(c.rhs, pool.get());
    same("block sqrt_solve", r.transpose() * r,
         c.rhs.transpose() * dense.inverse() * c.rhs, kTol);
    same("block sqrt_solve vs serial", r, ldlt.sqrt_solve(c.rhs), 1e-12);
    same("block solve vs serial", x, ldlt.solve(c.rhs), 1e-12);
    outputs = static_cast<std::uint64_t>(c.rhs.size());
    break;
  }
  case 3: {
    const Eigen::SerializableLDLT ldlt(c.prior);
    std::vector<std::vector<std::size_t>> idx;
    for (const auto &p : indexer_of(c)) {
      idx.push_back(p.second);
    }
    const auto got = ldlt.inverse_blocks(idx, pool.get());
    const Eigen::MatrixXd inv = c.prior.inverse();
    if (got.size() != idx.size()) {
      sim::violation("shape", "inverse_blocks: %zu of %zu", got.size(),
                     idx.size());
    }
    for (std::size_t k = 0; k < idx.size(); ++k) {
      Eigen::MatrixXd want(static_cast<Eigen::Index>(idx[k].size()),
                           static_cast<Eigen::Index>(idx[k].size()));
      for (std::size_t i = 0; i < idx[k].size(); ++i) {
        for (std::size_t j = 0; j < idx[k].size(); ++j) {
          want(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) =
              inv(static_cast<Eigen::Index>(idx[k][i]),
                  static_cast<Eigen::Index>(idx[k][j]));
        }
      }
      same("inverse block", got[k], want, kTol);
    }
    outputs = idx.size();
    break;
  }
  case 4: {
    const JointDistribution prior(c.mean, c.prior);
    const MarginalDistribution truth(c.truth, c.noise);
    const auto idx = indexer_of(c);
    const auto means =
        leave_one_group_out_conditional_means(prior, truth, idx, pool.get());
    const auto marginals = leave_one_group_out_conditional_marginals(
        prior, truth, idx, pool.get());
    const auto joints =
        leave_one_group_out_conditional_joints(prior, truth, idx, pool.get());
    if (means.size() != idx.size() || marginals.size() != idx.size() ||
        joints.size() != idx.size()) {
      sim::violation("shape", "held out predictions: groups are missing");
    }
    for (const auto &p : idx) {
      Eigen::VectorXd m;
      Eigen::MatrixXd v;
      condition(c.prior, c.mean, c.truth, c.noise, p.second, true, &m, &v);
      same("held out mean", means.at(p.first), m, 1e-8);
      same("held out marginal mean", marginals.at(p.first).mean, m, 1e-8);
      same("held out marginal variance",
           Eigen::VectorXd(marginals.at(p.first).covariance.diagonal()),
           Eigen::VectorXd(v.diagonal()), 1e-8);
      same("held out joint mean", joints.at(p.first).mean, m, 1e-8);
      same("held out joint covariance", joints.at(p.first).covariance, v, 1e-8);
    }
    outputs = idx.size();
    break;
  }
  case 5:
  case 6: {
    auto gp = gp_from_covariance(cov);
    auto serial = gp;
    gp.set_thread_pool(pool);
    const RegressionDataset<double> data(c.xs,
                                         MarginalDistribution(c.truth, c.noise));
    if (c.kind == 5) {
      const auto fit = gp.fit(data);
      const auto ref = serial.fit(data);
      const auto a = fit.predict(c.ys).joint();
      const auto b = ref.predict(c.ys).joint();
      same("GP mean", a.mean, b.mean, 1e-12);
      same("GP covariance", a.covariance, b.covariance, 1e-12);
      same("GP information", fit.get_fit().information,
           ref.get_fit().information, 1e-12);
      outputs = c.n;
    } else {
      const auto idx = indexer_of(c);
      const auto grouper = [&](const double &x) {
        for (std::size_t i = 0; i < c.n; ++i) {
          if (c.xs[i] == x) {
            return c.group[i];
          }
        }
        return -1;
      };
      const auto cv = gp.cross_validate().predict(data, grouper);
      const auto means = cv.means();
      const auto marginals = cv.marginals();
      const auto joints = cv.joints();
      const Eigen::VectorXd in_order = cv.mean();
      const Eigen::MatrixXd k = [&] {
        Eigen::MatrixXd m(n, n);
        for (Eigen::Index i = 0; i < n; ++i) {
          for (Eigen::Index j = 0; j < n; ++j) {
            m(i, j) = wave(c.a, c.xs[static_cast<std::size_t>(i)],
                           c.xs[static_cast<std::size_t>(j)]);
          }
        }
        return m;
      }();
      const Eigen::VectorXd zero = Eigen::VectorXd::Zero(n);
      for (const auto &p : idx) {
        Eigen::VectorXd m;
        Eigen::MatrixXd v;
        condition(k, zero, c.truth, c.noise, p.second, true, &m, &v);
        same("cross validated mean", means.at(p.first), m, 1e-6);
        same("cross validated marginal mean", marginals.at(p.first).mean, m,
             1e-6);
        same("cross validated variance",
             Eigen::VectorXd(marginals.at(p.first).covariance.diagonal()),
             Eigen::VectorXd(v.diagonal()), 1e-6);
        same("cross validated joint", joints.at(p.first).covariance, v, 1e-6);
        for (std::size_t i = 0; i < p.second.size(); ++i) {
          same("cross validated mean in order",
               Eigen::VectorXd::Constant(
                   1, in_order[static_cast<Eigen::Index>(p.second[i])]),
               Eigen::VectorXd::Constant(1, m[static_cast<Eigen::Index>(i)]),
               1e-6);
        }
      }
      outputs = idx.size();
    }
    break;
  }
  case 7: {
    ParameterStore params;
    std::vector<double> flat;
    for (std::size_t i = 0; i < c.n; ++i) {
      const std::string name = "p" + std::to_string(i);
      const double v = c.xs[i];
      if (i % 3 == 0) {
        params[name] = Parameter(v, UniformPrior(v - 1., v + 2.));
      } else if (i % 3 == 1) {
        // At a bound: the perturbation has to go the other way.
        params[name] = Parameter(v, UniformPrior(v - 3., v));
      } else {
        params[name] = Parameter(v, GaussianPrior(0., 1.));
      }
      flat.push_back(v);
    }
    const auto f = [](const ParameterStore &p) {
      double s = 0.;
      for (const auto &kv : p) {
        s += 3. * kv.second.value + 0.01 * kv.second.value * kv.second.value;
      }
      return s;
    };
    const auto g = [](const std::vector<double> &p) {
      double s = 0.;
      for (const auto &v : p) {
        s += 3. * v + 0.01 * v * v;
      }
      return s;
    };
    const double f0 = f(params);
    const auto got = compute_gradient(f, params, f0, pool.get());
    const auto ref = compute_gradient(f, params, f0);
    const auto got_flat = compute_gradient(g, flat, g(flat), pool.get());
    const auto names = get_tunable_parameters(params).names;
    if (got.size() != names.size() || got_flat.size() != flat.size() ||
        got != ref) {
      sim::violation("value", "the pooled gradient differs from the serial one");
    }
    for (std::size_t i = 0; i < flat.size(); ++i) {
      const double want = 3. + 0.02 * flat[i];
      if (!(std::fabs(got_flat[i] - want) < 1e-3)) {
        sim::violation("value", "gradient %zu is %g, expected %g", i,
                       got_flat[i], want);
      }
      const bool lower_prior = i % 3 == 0;
      (void)lower_prior;
      const double v = params.at(names[i]).value;
      const double slope = 3. + 0.02 * v;
      const bool ok = std::fabs(got[i] - slope) < 1e-3 * (1 + std::fabs(slope)) + 1e-2;
      if (!ok && got[i] != 0.) {
        sim::violation("value", "gradient of %s is %g, expected %g",
                       names[i].c_str(), got[i], slope);
      }
    }
    outputs = c.n;
    break;
  }
  default: {
    ParameterStore params;
    const std::size_t k = std::min<std::size_t>(c.n, 3);
    for (std::size_t i = 0; i < k; ++i) {
      params["p" + std::to_string(i)] =
          Parameter(sim::kStreams * 0. + 0.3 + 0.2 * static_cast<double>(i),
                    UniformPrior(-1., 2.));
    }
    const double target = c.b;
    const auto f = [target](const ParameterStore &p) {
      double s = 0.;
      for (const auto &kv : p) {
        const double d = kv.second.value - target;
        s += d * d;
      }
      return s;
    };
    std::ostringstream os;
    const auto got = greedy_tune(f, params, c.queries, c.iterations, pool.get(),
                                 &os);
    const auto ref =
        greedy_tune(f, params, c.queries, c.iterations, nullptr, nullptr);
    if (!(got == ref)) {
      sim::violation("value", "pooled greedy_tune differs from the serial one");
    }
    if (f(got) > f(params)) {
      sim::violation("value", "greedy_tune made the objective worse: %g > %g",
                     f(got), f(params));
    }
    outputs = k;
  }
  }
  sim::evaluated(pool && pool->thread_count() > 1 && outputs > 1,
                 sim::mix(static_cast<std::uint64_t>(c.kind) * 64 + c.n,
                          sim::steps()));
}
} // namespace

void sim_run() {
  const sim::SchedConfig cfg = sim::random_sched();
  const std::size_t workers = sim::w(8) == 7 ? sim::w(2) : 2 + sim::w(6);
  const std::size_t clients = 1 + (sim::w(4) == 3 ? 1 : 0);
  std::vector<std::vector<Case>> plan(clients);
  for (auto &cases : plan) {
    const std::size_t k = 1 + sim::w(2);
    for (std::size_t i = 0; i < k; ++i) {
      cases.push_back(draw());
    }
  }
  sim::log("workers=%zu clients=%zu policy=%d gap=%llu", workers, clients,
           cfg.policy, static_cast<unsigned long long>(cfg.gap));
  for (std::size_t k = 0; k < clients; ++k) {
    for (const auto &c : plan[k]) {
      sim::log("client %zu: %s n=%zu m=%zu groups=%d blocks=%zu", k,
               kNames[c.kind], c.n, c.ys.size(), c.groups, c.blocks.size());
    }
  }
  sim::begin(cfg);
  {
    std::shared_ptr<ThreadPool> pool =
        workers == 0 ? nullptr : make_shared_thread_pool(workers);
    std::vector<std::thread> others;
    for (std::size_t k = 1; k < clients; ++k) {
      others.emplace_back([&, k] {
        for (const auto &c : plan[k]) {
          run_case(c, pool);
        }
      });
    }
    for (const auto &c : plan[0]) {
      run_case(c, pool);
    }
    for (auto &t : others) {
      t.join();
    }
  }
  sim::end();
}
