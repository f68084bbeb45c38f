// A library of const operations on shared models, data sets, predictions and
// covariance functions, used by the checks that make them at the same time
// (P04) and that make them fail (P20).  drive(ops) is defined by the check.
#pragma once
#include <albatross/SparseGP>
#include <albatross/LeastSquares>
#include <albatross/NullModel>
#include <albatross/Ransac>
#include <albatross/Samplers>
#include <albatross/Tune>
#include <albatross/Evaluation>
#include <albatross/serialize/GP>
#include <albatross/serialize/LeastSquares>
#include <albatross/serialize/Ransac>

#include "gpworld.h"
#include "num.h"
#include "sim.h"

#include <functional>
#include <memory>
#include <sstream>
#include <thread>

namespace ops {
using namespace albatross;
using namespace gpw;

// A result, as bytes.
class Out {
public:
  Out &operator<<(double v) {
    bytes_.append(reinterpret_cast<const char *>(&v), sizeof v);
    return *this;
  }
  Out &operator<<(const Eigen::VectorXd &v) { return *this << Eigen::MatrixXd(v); }
  Out &operator<<(const Eigen::MatrixXd &m) {
    *this << static_cast<double>(m.rows()) << static_cast<double>(m.cols());
    bytes_.append(reinterpret_cast<const char *>(m.data()),
                  sizeof(double) * static_cast<std::size_t>(m.size()));
    return *this;
  }
  Out &operator<<(const MarginalDistribution &d) {
    return *this << Eigen::MatrixXd(d.mean)
                 << Eigen::MatrixXd(d.covariance.diagonal());
  }
  Out &operator<<(const JointDistribution &d) {
    return *this << Eigen::MatrixXd(d.mean) << d.covariance;
  }
  Out &operator<<(const std::string &s) {
    bytes_ += s;
    bytes_ += '\n';
    return *this;
  }
  Out &operator<<(const ParameterStore &p) {
    for (const auto &kv : p) {
      *this << kv.first << kv.second.value;
    }
    return *this;
  }
  const std::string &str() const { return bytes_; }

private:
  std::string bytes_;
};

struct Op {
  std::string name;
  std::function<std::string()> run;
};

template <typename T> std::string saved(const T &t, bool json) {
  std::ostringstream os;
  if (json) {
    cereal::JSONOutputArchive ar(os);
    ar(t);
  } else {
    cereal::BinaryOutputArchive ar(os);
    ar(t);
  }
  return os.str();
}

void drive(const std::vector<Op> &ops);
inline bool g_spqr = false; // the operations use SuiteSparse

inline std::vector<double> some_points(int lo, int hi) {
  std::vector<double> x;
  const int n = static_cast<int>(sim::range(lo, hi));
  for (int i = 0; i < n; ++i) {
    x.push_back(-4. + 8. * static_cast<double>(i) / hi + sim::real(0., 0.7));
  }
  num::shuffle(x);
  return x;
}

inline MarginalDistribution some_targets(std::size_t n) {
  Eigen::VectorXd m(n), v(n);
  for (std::size_t i = 0; i < n; ++i) {
    m[i] = sim::gauss();
    v[i] = 0.1 + 0.2 * sim::real(0., 1.);
  }
  return MarginalDistribution(m, v);
}

// What every regression model can do.
template <typename Model, typename FitModelType>
void common_ops(const Model &model, const FitModelType &fit,
                const RegressionDataset<double> &data,
                const std::vector<double> &query, std::vector<Op> &ops) {
  ops.push_back({"predict mean", [&] {
                   return (Out() << Eigen::MatrixXd(fit.predict(query).mean())).str();
                 }});
  ops.push_back({"fit", [&] {
                   const auto f = model.fit(data);
                   return (Out() << Eigen::MatrixXd(f.predict(query).mean())).str();
                 }});
  ops.push_back({"copy of a fit model", [&] {
                   const FitModelType copy(fit);
                   return (Out() << Eigen::MatrixXd(copy.predict(query).mean())
                                 << copy.get_model().get_params())
                       .str();
                 }});
  ops.push_back({"temporary fit", [&] {
                   return (Out() << Eigen::MatrixXd(
                               model.fit(data).predict(query).mean()))
                       .str();
                 }});
  ops.push_back({"params", [&] {
                   return (Out() << model.get_params() << pretty_params(model.get_params())
                                 << model.prior_log_likelihood()
                                 << static_cast<double>(
                                        model.get_tunable_parameters().values.size()))
                       .str();
                 }});
  ops.push_back({"group_by", [&] {
                   Out out;
                   const auto g = data.group_by([](const double &x) { return tick(), x > 0.; });
                   for (const auto &kv : g.groups()) {
                     out << static_cast<double>(kv.first) << kv.second.targets;
                   }
                   out << group_by(data, LeaveOneOutGrouper()).groups().combine().targets;
                   return out.str();
                 }});
  ops.push_back({"subset and concatenate", [&] {
                   std::vector<std::size_t> odd;
                   for (std::size_t i = 1; i < data.size(); i += 2) {
                     odd.push_back(i);
                   }
                   const auto s = subset(data, odd);
                   return (Out() << concatenate_datasets(s, data).targets).str();
                 }});
  ops.push_back({"save", [&] { return saved(fit.get_fit(), true); }});
  ops.push_back({"save model", [&] { return saved(model, true); }});
  ops.push_back({"cross validate mean", [&] {
                   const auto cv = model.cross_validate();
                   return (Out() << Eigen::MatrixXd(
                               cv.predict(data, LeaveOneOutGrouper()).mean()))
                       .str();
                 }});
  ops.push_back({"cross validated scores", [&] {
                   const RootMeanSquareError rmse;
                   return (Out() << Eigen::MatrixXd(model.cross_validate().scores(
                               rmse, data, [](const double &x) { return tick(), x > 0.; })))
                       .str();
                 }});
}

template <typename Model, typename FitModelType>
void gaussian_ops(const Model &model, const FitModelType &fit,
                  const RegressionDataset<double> &data,
                  const std::vector<double> &query,
                  const RegressionDataset<double> &more, const std::string &param,
                  std::vector<Op> &ops) {
  ops.push_back({"predict marginal", [&] {
                   return (Out() << fit.predict(query).marginal()).str();
                 }});
  ops.push_back({"predict joint", [&] {
                   return (Out() << fit.predict(query).joint()).str();
                 }});
  ops.push_back({"noisy prediction", [&] {
                   return (Out() << fit.predict_with_measurement_noise(query).joint())
                       .str();
                 }});
  ops.push_back({"update", [&] {
                   const auto next = fit.update(more);
                   return (Out() << next.predict(query).joint()).str();
                 }});
  ops.push_back({"likelihood", [&] {
                   return (Out() << model.log_likelihood(data)).str();
                 }});
  ops.push_back({"fit from prediction", [&] {
                   const auto p = fit.predict(query).joint();
                   const auto f = model.fit_from_prediction(query, p);
                   return (Out() << f.predict(query).mean()).str();
                 }});
  ops.push_back({"cross validated joints", [&] {
                   Out out;
                   const auto cv = model.cross_validate().predict(
                       data, [](const double &x) { return tick(), static_cast<int>(x); });
                   for (const auto &kv : cv.joints()) {
                     out << static_cast<double>(kv.first) << kv.second;
                   }
                   return out.str();
                 }});
  ops.push_back({"own copy, other parameters", [&model, &data, &query, param] {
                   Model mine(model);
                   mine.set_param_value(param, 0.9);
                   const auto f = mine.fit(data);
                   return (Out() << f.predict(query).joint() << mine.get_params()).str();
                 }});
  ops.push_back({"tunable parameters of a copy", [&model, &data] {
                   Model mine(model);
                   auto p = mine.get_tunable_parameters();
                   for (auto &v : p.values) {
                     v *= 1.1;
                   }
                   mine.set_tunable_params_values(p.values);
                   return (Out() << mine.log_likelihood(data) << mine.get_params())
                       .str();
                 }});
  ops.push_back({"name", [&] { return model.get_name() + model.pretty_string(); }});
  ops.push_back({"prior", [&] { return (Out() << model.prior(query)).str(); }});
  ops.push_back({"metrics", [&] {
                   const auto p = fit.predict(more.features);
                   Out out;
                   out << NegativeLogLikelihood<JointDistribution>()(p, more.targets)
                       << NegativeLogLikelihood<MarginalDistribution>()(p, more.targets)
                       << RootMeanSquareError()(p, more.targets)
                       << StandardDeviation()(p, more.targets)
                       << LeaveOneOutLikelihood<>()(data, model)
                       << chi_squared_cdf(p.joint(), more.targets);
                   return out.str();
                 }});
  ops.push_back({"ransac", [&] {
                   DefaultGPRansacStrategy strategy;
                   const auto r = model.ransac(
                       strategy, RansacConfig(3., 2, 3, 4, 4));
                   const auto f = r.fit(data);
                   Out out;
                   out << to_string(f.get_fit().ransac_output.return_code)
                       << f.get_fit().ransac_output.best.consensus_metric_value;
                   return out.str();
                 }});
}

struct Shared {
  RegressionDataset<double> data, more;
  std::vector<double> query;
  std::shared_ptr<ThreadPool> pool;
};

inline Shared draw_shared(int lo) {
  Shared s;
  std::vector<double> x = some_points(lo, 7);
  s.data = RegressionDataset<double>(x, some_targets(x.size()));
  x = some_points(2, 4);
  s.more = RegressionDataset<double>(x, some_targets(x.size()));
  s.query = some_points(1, 4);
  return s;
}
// Cross validations and RANSACs are long.
inline sim::SchedConfig roomy_sched() {
  sim::SchedConfig c = sim::random_sched();
  c.step_cap = 300000000;
  return c;
}

inline std::shared_ptr<ThreadPool> some_pool() {
  const auto n = sim::w(4);
  return n < 2 ? nullptr : make_shared_thread_pool(n);
}

void config0();
void config1();
void config2();
void config3();

#if SHARD == 0
void config0() {
  Shared s = draw_shared(4);
  sim::begin(roomy_sched());
  {
    auto model = gp_from_covariance_and_mean(
        Field() + measurement_only(IndependentNoise<double>()) +
            measurement_only(Drift()),
        Trend(), "shared");
    model.set_thread_pool(some_pool());
    const auto fit = model.fit(s.data);
    const auto updated = fit.update(s.more);
    const auto from = model.fit_from_prediction(s.query, updated.predict(s.query).joint());
    std::vector<Op> ops;
    const auto &m = model;
    common_ops(m, fit, s.data, s.query, ops);
    gaussian_ops(m, fit, s.data, s.query, s.more, "field_length", ops);
    ops.push_back({"predict from an updated fit", [&] {
                     return (Out() << updated.predict(s.query).joint()
                                   << updated.predict(s.query).marginal())
                         .str();
                   }});
    ops.push_back({"predict from a fit from a prediction", [&] {
                     return (Out() << from.predict(s.query).joint()
                                   << from.update(s.more).predict(s.query).joint())
                         .str();
                   }});
    ops.push_back({"save an updated fit",
                   [&] { return saved(updated.get_fit(), false); }});
    ops.push_back({"factorization", [&] {
                     const auto &ldlt = fit.get_fit().train_covariance;
                     Eigen::MatrixXd rhs =
                         Eigen::MatrixXd::Identity(ldlt.rows(), ldlt.rows());
                     return (Out() << Eigen::MatrixXd(ldlt.solve(rhs))
                                   << ldlt.sqrt_solve(rhs) << ldlt.sqrt_product(rhs)
                                   << Eigen::MatrixXd(ldlt.inverse_diagonal())
                                   << ldlt.log_determinant())
                         .str();
                   }});
    drive(ops);
  }
  sim::end();
}
#elif SHARD == 1
template <typename Model> void sparse(Model &model, const Shared &s) {
  model.set_thread_pool(some_pool());
  const auto fit = model.fit(s.data);
  const auto updated = fit.update(s.more);
  std::vector<Op> ops;
  const Model &m = model;
  ops.push_back({"sparse predict", [&] {
                   return (Out() << fit.predict(s.query).joint()
                                 << fit.predict(s.query).marginal()
                                 << Eigen::MatrixXd(updated.predict(s.query).mean()))
                       .str();
                 }});
  ops.push_back({"sparse fit", [&] {
                   return (Out() << m.fit(s.data).predict(s.query).joint()).str();
                 }});
  ops.push_back({"sparse update", [&] {
                   return (Out() << updated.update(s.data).predict(s.query).joint()).str();
                 }});
  ops.push_back({"sparse update in place of a copy", [&] {
                   auto mine(fit);
                   mine.update_in_place(s.more);
                   return (Out() << mine.predict(s.query).joint()).str();
                 }});
  ops.push_back({"rebase", [&] {
                   const auto f = rebase_inducing_points(
                       fit, std::vector<double>{-3., -1., 1., 3.});
                   return (Out() << f.predict(s.query).joint()).str();
                 }});
  ops.push_back({"sparse likelihood",
                 [&] { return (Out() << m.log_likelihood(s.data)).str(); }});
  ops.push_back({"sparse save", [&] { return saved(updated.get_fit(), true); }});
  ops.push_back({"sparse cross validation", [&] {
                   return (Out() << Eigen::MatrixXd(
                               m.cross_validate()
                                   .predict(s.data, [](const double &x) { return tick(), x > 0.; })
                                   .mean()))
                       .str();
                 }});
  ops.push_back({"sparse copy, other parameters", [&] {
                   Model mine(m);
                   mine.set_param_value("field_length", 1.3);
                   return (Out() << mine.fit(s.data).predict(s.query).joint()).str();
                 }});
  drive(ops);
}
void config1() {
  Shared s = draw_shared(4);
  s.data.features[0] = -4.;
  s.data.features[1] = 4.;
  const auto which = sim::w(2);
  sim::begin(roomy_sched());
  g_spqr = which;
  if (which) {
    auto model = sparse_gp_from_covariance_and_mean(
        Field(), Trend(), LeaveOneOutGrouper(), UniformlySpacedInducingPoints(5),
        "sparse", SPQRImplementation{});
    sparse(model, s);
  } else {
    auto model = sparse_gp_from_covariance(
        Field() + measurement_only(IndependentNoise<double>()),
        [](const double &x) { return tick(), static_cast<int>(std::floor(x)); },
        UniformlySpacedInducingPoints(4), "sparse");
    sparse(model, s);
  }
  sim::end();
}
#elif SHARD == 2
void config2() {
  Shared s = draw_shared(5);
  MarginalDistribution flat(s.data.targets.mean);
  const RegressionDataset<double> line(s.data.features, flat);
  const Eigen::Index n = s.data.targets.mean.size();
  Eigen::MatrixXd prior(n, n);
  for (Eigen::Index i = 0; i < n; ++i) {
    for (Eigen::Index j = 0; j < n; ++j) {
      prior(i, j) = field_k(1., 1.5, s.data.features[i], s.data.features[j]) + (i == j);
    }
  }
  sim::begin(roomy_sched());
  {
    const LinearRegression linear;
    const auto linear_fit = linear.fit(line);
    const NullModel null_model;
    const auto null_fit = null_model.fit(s.data);
    const ConditionalGaussian conditional(JointDistribution(Eigen::VectorXd::Zero(n), prior),
                                          s.data.targets);
    const GroupIndices train = {0, 1, 2}, test = {3, 4};
    const auto conditional_fit = conditional.fit(train);
    const auto gen_ransac = linear.ransac(
        get_generic_ransac_strategy(RootMeanSquareError(), LeaveOneOutRMSE(),
                                    LeaveOneOutGrouper()),
        1., 2, 3, 3);
    const auto ransac_fit = gen_ransac.fit(line);
    std::vector<Op> ops;
    common_ops(linear, linear_fit, line, s.query, ops);
    ops.push_back({"null model", [&] {
                     return (Out() << null_fit.predict(s.query).joint()
                                   << null_model.fit(s.data).predict(s.query).marginal())
                         .str();
                   }});
    ops.push_back({"conditional gaussian", [&] {
                     const auto p = conditional_fit.predict(test);
                     return (Out() << p.joint() << p.marginal()
                                   << Eigen::MatrixXd(p.mean()))
                         .str();
                   }});
    ops.push_back({"conditional gaussian fit", [&] {
                     return (Out() << conditional.fit(test).predict(train).joint()
                                   << conditional.get_prior(train)
                                   << conditional.get_truth(test))
                         .str();
                   }});
    ops.push_back({"ransac fit", [&] {
                     const auto f = gen_ransac.fit(line);
                     Out out;
                     out << to_string(f.get_fit().ransac_output.return_code);
                     if (f.get_fit().has_fit_model()) {
                       out << Eigen::MatrixXd(f.predict(s.query).mean());
                     }
                     return out.str();
                   }});
    ops.push_back({"ransac predict", [&] {
                     Out out;
                     out << gen_ransac.get_name();
                     if (ransac_fit.get_fit().has_fit_model()) {
                       out << Eigen::MatrixXd(ransac_fit.predict(s.query).mean());
                     }
                     return out.str();
                   }});
    ops.push_back({"ransac save", [&] { return saved(ransac_fit.get_fit(), true); }});
    ops.push_back({"random draws with an own engine", [&] {
                     std::default_random_engine gen(5);
                     Out out;
                     for (const auto &v : random_without_replacement(line.features, 3, gen)) {
                       out << v;
                     }
                     const auto d = conditional.get_prior(train);
                     out << Eigen::MatrixXd(random_multivariate_normal(
                         d.mean, d.covariance, gen));
                     const GaussianPrior normal(0., 2.);
                     const LogNormalPrior lognormal(0.1, 0.5);
                     for (int i = 0; i < 3; ++i) {
                       out << normal.log_pdf(i)
                           << lognormal.log_pdf(i + 0.5);
                     }
                     return out.str();
                   }});
    ops.push_back({"distribution arithmetic", [&] {
                     const auto joint = conditional.get_prior(train);
                     const auto marginal = conditional.get_truth(train);
                     Out out;
                     out << joint.subset(GroupIndices{0}) << joint.marginal()
                         << marginal.subset(GroupIndices{0});
                     return out.str();
                   }});
    drive(ops);
  }
  sim::end();
}
#else
void config3() {
  Shared s = draw_shared(4);
  std::vector<Eigen::VectorXd> vectors;
  for (const double x : s.data.features) {
    Eigen::VectorXd v(2);
    v << x, 0.3 * x * x;
    vectors.push_back(v);
  }
  sim::begin(roomy_sched());
  {
    using Dist = EuclideanDistance;
    const SquaredExponential<Dist> se(1.3, 0.8);
    const Exponential<Dist> ex(1.1, 0.7);
    const Matern32<Dist> m32(1.2, 0.4);
    const Matern52<Dist> m52(0.9, 0.6);
    const Polynomial<2> poly(0.5);
    const Constant constant(0.4);
    const auto sum = se + m32 * constant;
    const auto product = (ex + poly) * m52;
    const auto noisy = se + measurement_only(IndependentNoise<double>(0.3));
    auto gp = gp_from_covariance(sum + product, "composed");
    const auto fit = gp.fit(s.data);
    const auto pool = some_pool();
    std::vector<Op> ops;
    const auto add = [&](const char *name, const auto &cov) {
      const auto *c = &cov;
      ops.push_back({name, [&s, c, &pool] {
                       return (Out() << (*c)(s.data.features)
                                     << (*c)(s.data.features, s.query)
                                     << (*c)(s.data.features, pool.get())
                                     << c->get_params() << c->get_name()
                                     << (*c)(0.1, 0.2))
                           .str();
                     }});
    };
    add("squared exponential", se);
    add("exponential", ex);
    add("matern 32", m32);
    add("matern 52", m52);
    add("polynomial", poly);
    add("sum", sum);
    add("product", product);
    add("noisy", noisy);
    ops.push_back({"vector features", [&] {
                     return (Out() << se(vectors) << m52(vectors)).str();
                   }});
    ops.push_back({"state space", [&] {
                     const auto ss = se.state_space_representation(s.data.features);
                     Out out;
                     for (const auto &x : ss) {
                       out << x;
                     }
                     return out.str();
                   }});
    ops.push_back({"measurements", [&] {
                     return (Out() << noisy(as_measurements(s.query))
                                   << noisy(as_measurements(s.query), s.data.features))
                         .str();
                   }});
    ops.push_back({"linear combination", [&] {
                     const LinearCombination<double> c({s.query[0], 0.3});
                     std::vector<LinearCombination<double>> cs = {c};
                     return (Out() << fit.predict(cs).joint() << noisy(cs)).str();
                   }});
    ops.push_back({"variant features", [&] {
                     using V = variant<double, LinearCombination<double>>;
                     std::vector<V> vs = {V(s.query[0]),
                                          V(LinearCombination<double>({0.1, 1.2}))};
                     return (Out() << se(vs) << fit.predict(vs).joint()).str();
                   }});
    ops.push_back({"call trace", [&] {
                     std::ostringstream os;
                     for (const auto &c : sum.call_trace().get_trace(s.query[0], s.query[0])) {
                       os << c.call_name << '=' << c.value << ';';
                     }
                     return os.str();
                   }});
    ops.push_back({"composed gp", [&] {
                     return (Out() << gp.fit(s.data).predict(s.query).joint()
                                   << gp.log_likelihood(s.data) << gp.get_params())
                         .str();
                   }});
    ops.push_back({"prediction object", [&] {
                     const auto p = fit.predict(s.query);
                     return (Out() << p.joint() << p.get<MarginalDistribution>()
                                   << Eigen::MatrixXd(p.mean()))
                         .str();
                   }});
    ops.push_back({"tune a copy", [&] {
                     auto mine(gp);
                     const auto f = [&](const ParameterStore &p) {
                       auto m(mine);
                       m.set_params(p);
                       return -m.log_likelihood(s.data);
                     };
                     return (Out() << greedy_tune(f, mine.get_params(), 2, 1, nullptr,
                                                  nullptr))
                         .str();
                   }});
    drive(ops);
  }
  sim::end();
}
#endif

} // namespace ops
