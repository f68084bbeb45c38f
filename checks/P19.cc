// P19: evaluation scores the held out predictions it names.
// SHARDS: 3
#include <albatross/GP>
#include <albatross/CovarianceFunctions>
#include <albatross/Evaluation>
#include <albatross/LeastSquares>
#include <albatross/Stats>

#include "num.h"
#include "sim.h"

#include <memory>
#include <thread>

namespace p19 {
using namespace albatross;
using Eigen::Index;
using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;
using Indices = std::vector<std::size_t>;

// What an operation is asked for, drawn before the run.
struct World {
  std::vector<double> x;
  Vec y, r;               // values and measurement variances
  double sigma, length, noise, slope;
  double lo[3], hi[3];    // priors
  int prior[3];
  bool with_mean;
  double unit;            // width of the groups
  Mat a, b;               // covariances to measure
  Vec ma, mb, mc;
  std::uint64_t id = 0;
};

struct Op {
  int model = 0, kind = 0, group = 0, metric = 0;
  std::size_t k = 2;
  std::map<int, Indices> loose; // groups that overlap or leave something out
  bool whole = false, pooled = false, fails = false;
  long fail_at = 0;
  double u = 0.;
};

struct Boom {
  long id;
};

// A model of the harness: a weighted line, or (when it may fail) the same one.
struct Trend;
struct Joint {
  Vec mean;
  Mat cov;
};
Joint line(const std::vector<double> &x, const Vec &y, const Vec &r,
           const std::vector<double> &at, double ridge);
} // namespace p19

namespace albatross {
template <> struct Fit<p19::Trend> {
  std::vector<double> x;
  Eigen::VectorXd y, r;
  bool operator==(const Fit &o) const { return x == o.x && y == o.y; }
};
} // namespace albatross

namespace p19 {
struct Trend : public ModelBase<Trend> {
  Trend() { trend_ridge = {1., FixedPrior()}; }
  ALBATROSS_DECLARE_PARAMS(trend_ridge)
  std::string get_name() const { return "trend"; }

  Fit<Trend> _fit_impl(const std::vector<double> &x, const MarginalDistribution &t) const {
    tick();
    Fit<Trend> f;
    f.x = x;
    f.y = t.mean;
    f.r = t.covariance.diagonal();
    return f;
  }
  Vec _predict_impl(const std::vector<double> &x, const Fit<Trend> &f,
                    PredictTypeIdentity<Vec> &&) const {
    tick();
    return line(f.x, f.y, f.r, x, trend_ridge.value).mean;
  }
  MarginalDistribution _predict_impl(const std::vector<double> &x, const Fit<Trend> &f,
                                     PredictTypeIdentity<MarginalDistribution> &&) const {
    tick();
    const Joint j = line(f.x, f.y, f.r, x, trend_ridge.value);
    return MarginalDistribution(j.mean, Vec(j.cov.diagonal()));
  }
  JointDistribution _predict_impl(const std::vector<double> &x, const Fit<Trend> &f,
                                  PredictTypeIdentity<JointDistribution> &&) const {
    tick();
    const Joint j = line(f.x, f.y, f.r, x, trend_ridge.value);
    return JointDistribution(j.mean, j.cov);
  }

  void tick() const {
    if (left != nullptr && *left >= 0 && (*left)-- == 0) {
      sim::fault_fired("model-throws");
      throw Boom{*tag};
    }
  }
  long *left = nullptr;
  const long *tag = nullptr;
};

struct Slope : public MeanFunction<Slope> {
  ALBATROSS_DECLARE_PARAMS(slope)
  explicit Slope(double s = 0.) { slope = {s, FixedPrior()}; }
  std::string get_name() const { return "slope"; }
  double _call_impl(const double &x) const { return slope.value * x; }
};

inline auto make_cov(const World &w) {
  return SquaredExponential<EuclideanDistance>(w.length, w.sigma) +
         IndependentNoise<double>(w.noise);
}
using Cov = std::decay_t<decltype(make_cov(std::declval<World>()))>;
using Gp = GaussianProcessRegression<Cov, Slope>;

struct Shared {
  RegressionDataset<double> data;
  std::shared_ptr<ThreadPool> pool;
  std::unique_ptr<Gp> gp, gp_pooled;
  Trend trend;
  LinearRegression linear;
};

// What predictions for `at` held out from everything else are.
Joint held_out(const World &w, int model, const Indices &at);
double score_of(int metric, const Joint &p, const Vec &y, const Vec &r);
constexpr int kMetrics = 6;
extern const char *const kMetricNames[kMetrics];

template <typename Key> using Want = std::map<Key, Indices>;

inline void judge(const char *what, const Mat &got, const Mat &want, double tol = 1e-7) {
  sim::Quiet q;
  const double scale = want.size() ? want.cwiseAbs().maxCoeff() : 1.;
  num::expect_close("value", what, got, want, tol, 1. + scale);
}
inline void judge(const char *what, double got, double want, double tol = 1e-7) {
  judge(what, Mat::Constant(1, 1, got), Mat::Constant(1, 1, want), tol);
}

inline std::string decade(const double &x) { return x < 0.5 ? "a" : x < 2. ? "b" : "c"; }

template <typename Key, typename Got>
void judge_keys(const char *what, const Got &got, const Want<Key> &want) {
  bool same = got.size() == want.size();
  for (const auto &kv : want) {
    same = same && got.find(kv.first) != got.end();
  }
  if (!same) {
    sim::violation("groups", "%s: %zu groups instead of %zu, or others", what,
                   static_cast<std::size_t>(got.size()), want.size());
  }
}

inline double worst(const Vec &p, const MarginalDistribution &t) {
  double out = 0.;
  for (Index i = 0; i < p.size(); ++i) {
    out = std::max(out, std::fabs(p[i] - t.mean[i]));
  }
  return out;
}
struct Worst : public PredictionMetric<Vec> {
  Worst() : PredictionMetric<Vec>(worst) {}
};

constexpr int kMeanOnly = 2; // model that only predicts means

template <typename Model, typename Key, typename Grouper>
void scores(const World &w, const Shared &s, const Model &m, const Op &op,
            const Grouper &grouper, const Want<Key> &want) {
  const auto cv = m.cross_validate();
  Vec want_scores(static_cast<Index>(want.size()));
  {
    sim::Quiet q;
    sim::NoFault nf;
    Index i = 0;
    for (const auto &kv : want) {
      Vec y(static_cast<Index>(kv.second.size())), r(y.size());
      for (std::size_t k = 0; k < kv.second.size(); ++k) {
        y[static_cast<Index>(k)] = w.y[static_cast<Index>(kv.second[k])];
        r[static_cast<Index>(k)] = w.r[static_cast<Index>(kv.second[k])];
      }
      want_scores[i++] = score_of(op.metric, held_out(w, op.model, kv.second), y, r);
    }
  }
  const auto one = [&](const auto &metric) {
    const Vec got = cv.scores(metric, s.data, grouper);
    judge(kMetricNames[op.metric], got, want_scores);
    if (op.u < 0.3) {
      const auto folds = folds_from_grouper(s.data, grouper);
      const Vec again = cv.scores(metric, folds);
      if (op.model != 0) {
        judge("scores of folds", again, want_scores);
      } else if (again.size() != want_scores.size()) {
        sim::violation("value", "not one score per fold");
      }
    }
  };
  switch (op.metric) {
  case 0:
    return one(RootMeanSquareError());
  case 1:
    return one(StandardDeviation());
  case 2:
    return one(Worst());
  default:
    break;
  }
  if constexpr (!std::is_same<Model, LinearRegression>::value) {
    switch (op.metric) {
    case 3:
      return one(NegativeLogLikelihood<MarginalDistribution>());
    case 4:
      return one(NegativeLogLikelihood<JointDistribution>());
    default:
      return one(ChiSquaredCdf());
    }
  }
}

template <typename Model, typename Key, typename Grouper>
void predictions(const World &w, const Shared &s, const Model &m, const Op &op,
                 const Grouper &grouper, const Want<Key> &want, bool partition) {
  const auto p = m.cross_validate().predict(s.data, grouper);
  const Index n = static_cast<Index>(w.x.size());
  const auto all = [&](bool variance) {
    sim::Quiet q;
    sim::NoFault nf;
    Vec out(n);
    for (const auto &kv : want) {
      const Joint j = held_out(w, op.model, kv.second);
      for (std::size_t i = 0; i < kv.second.size(); ++i) {
        const Index k = static_cast<Index>(i);
        out[static_cast<Index>(kv.second[i])] = variance ? j.cov(k, k) : j.mean[k];
      }
    }
    return out;
  };
  const auto each = [&](const char *what, const auto &got, int type) {
    sim::Quiet q;
    sim::NoFault nf;
    judge_keys(what, got, want);
    for (const auto &kv : want) {
      const Joint j = held_out(w, op.model, kv.second);
      if constexpr (std::is_same<std::decay_t<decltype(got.at(kv.first))>, Vec>::value) {
        (void)type;
        judge(what, got.at(kv.first), j.mean);
      } else {
        judge(what, got.at(kv.first).mean, j.mean);
        if (type == 1) {
          judge(what, Vec(Mat(got.at(kv.first).covariance).diagonal()), j.cov.diagonal());
        } else {
          judge(what, Mat(got.at(kv.first).covariance), j.cov);
        }
      }
    }
  };
  const int form = op.metric;
  if (form == 0 || std::is_same<Model, LinearRegression>::value) {
    each("held out means", p.means(), 0);
    each("held out means", p.template get<Grouped<Key, Vec>>(), 0);
    if (partition) {
      const Vec a = p.mean(), b = p.template get<Vec>();
      judge("all held out means", a, all(false));
      judge("all held out means", b, a);
    }
    return;
  }
  if constexpr (!std::is_same<Model, LinearRegression>::value) {
    if (form < 3) {
      each("held out marginals", p.marginals(), 1);
      if (partition) {
        const MarginalDistribution a = form == 1 ? p.marginal()
                                                 : p.template get<MarginalDistribution>();
        judge("all held out means", a.mean, all(false));
        judge("all held out variances", Vec(a.covariance.diagonal()), all(true));
      }
      const std::map<Key, MarginalDistribution> g =
          p.template get<std::map<Key, MarginalDistribution>>();
      each("held out marginals", g, 1);
    } else if (form < 5) {
      if (form == 3) {
        each("held out joint distributions", p.joints(), 2);
      } else {
        const Grouped<Key, JointDistribution> g =
            p.template get<Grouped<Key, JointDistribution>>();
        each("held out joint distributions", g, 2);
      }
    } else {
      // one model per fold, and what it predicts
      const auto each_fold = p.predictions();
      sim::NoFault nf;
      judge_keys("predictions", each_fold, want);
      for (const auto &kv : want) {
        const Joint j = held_out(w, op.model, kv.second);
        const JointDistribution got = each_fold.at(kv.first).joint();
        judge("mean predicted for a fold", got.mean, j.mean);
        if (op.model != 0) {
          judge("covariance predicted for a fold", got.covariance, j.cov);
        }
        (void)nf;
      }
    }
  }
}

template <typename Model>
void judge_model(const World &w, const Shared &s, const Model &m, const Op &op) {
  const std::size_t n = w.x.size();
  const auto both = [&](const auto &grouper, const auto &want, bool partition = true) {
    op.kind == 0 ? scores(w, s, m, op, grouper, want)
                 : predictions(w, s, m, op, grouper, want, partition);
  };
  Want<std::size_t> by_number;
  Want<std::string> by_name;
  Want<int> by_unit;
  {
    sim::Quiet q;
    sim::NoFault nf;
    for (std::size_t i = 0; i < n; ++i) {
      by_number[op.group == 0 ? i : i % op.k].push_back(i);
      by_name[decade(w.x[i])].push_back(i);
      by_unit[static_cast<int>(std::floor(w.x[i] / w.unit))].push_back(i);
    }
  }
  switch (op.group) {
  case 0:
    return both(LeaveOneOutGrouper(), by_number);
  case 1:
    return both(KFoldGrouper(op.k), by_number);
  case 2:
    return both(decade, by_name);
  case 3: {
    const double unit = w.unit;
    return both([unit](const double &x) { return static_cast<int>(std::floor(x / unit)); },
                by_unit);
  }
  default: {
    GroupIndexer<int> g;
    for (const auto &kv : op.loose) {
      g[kv.first] = kv.second;
    }
    const auto both_given = [&](const GroupIndexer<int> &i) {
      predictions(w, s, m, op, i, op.loose, true);
    };
    // groups given as indices; only whole data sets can be put back together
    const auto p = m.cross_validate();
    if (op.kind == 0) {
      Vec want(static_cast<Index>(op.loose.size()));
      Index i = 0;
      for (const auto &kv : op.loose) {
        sim::NoFault nf;
        sim::Quiet q;
        Vec y(static_cast<Index>(kv.second.size())), r(y.size());
        for (std::size_t k = 0; k < kv.second.size(); ++k) {
          y[static_cast<Index>(k)] = w.y[static_cast<Index>(kv.second[k])];
          r[static_cast<Index>(k)] = w.r[static_cast<Index>(kv.second[k])];
        }
        want[i++] = score_of(op.metric % 3, held_out(w, op.model, kv.second), y, r);
      }
      switch (op.metric % 3) {
      case 0:
        return judge("RMSE of loose groups", p.scores(RootMeanSquareError(), s.data, g), want);
      case 1:
        return judge("deviation of loose groups", p.scores(StandardDeviation(), s.data, g), want);
      default:
        return judge("error of loose groups", p.scores(Worst(), s.data, g), want);
      }
    }
    if (op.whole) {
      return both_given(g);
    }
    const auto means = p.predict(s.data, g).means();
    judge_keys("means of loose groups", means, op.loose);
    for (const auto &kv : op.loose) {
      sim::NoFault nf;
      judge("mean of a loose group", means.at(kv.first), held_out(w, op.model, kv.second).mean);
    }
  }
  }
}

void run_gp(const World &w, const Shared &s, const Op &op);
void run_other(const World &w, const Shared &s, const Op &op);
void run_measures(const World &w, const Shared &s, const Op &op);
double prior_density(const World &w);
void set_priors(const World &w, Gp &gp);
} // namespace p19

#if SHARD == 0
extern const char *const kProperty, *const kRule, *const kRealCode, *const kStubs;
extern const std::vector<std::string> kAssumptions;
const char *const kProperty = "P19";
const char *const kRule =
    "one evaluation = one score, held out prediction or measure of fit compared with its "
    "definition; non-trivial = more than one measurement is involved; distinct by operation, "
    "model, grouping and data";
const char *const kRealCode =
    "CrossValidation, held_out_predictions, leave_one_out_conditional, "
    "leave_one_group_out_conditional_*, prediction metrics, model metrics, "
    "negative_log_likelihood, differential_entropy, chi_squared_cdf, crps_normal, "
    "wasserstein_2, priors, GaussianProcessRegression, LinearRegression";
const char *const kStubs =
    "ThreadPool (FIFO stub), pthread scheduling, the heap; one of the models is the harness's";
const std::vector<std::string> kAssumptions = {
    "a Gaussian process's held out predictions from cross validation are of the "
    "measurements, their noise included, as the code and its documentation say",
    "tolerance 1e-7 relative to the largest entry (quadrature 1e-6)",
    "at least one measurement is kept when the model is a line fitted by least squares"};

namespace p19 {
const char *const kMetricNames[kMetrics] = {
    "root mean square errors", "standard deviations of the errors", "largest errors",
    "negative log likelihoods of independent values", "negative log likelihoods",
    "chi squared probabilities"};

Joint line(const std::vector<double> &x, const Vec &y, const Vec &r,
           const std::vector<double> &at, double ridge) {
  Mat n = Mat::Identity(2, 2) * ridge;
  Vec b = Vec::Zero(2);
  for (std::size_t i = 0; i < x.size(); ++i) {
    const Index k = static_cast<Index>(i);
    const double weight = 1. / (1. + r[k]);
    n(0, 0) += weight;
    n(0, 1) += weight * x[i];
    n(1, 0) += weight * x[i];
    n(1, 1) += weight * x[i] * x[i];
    b[0] += weight * y[k];
    b[1] += weight * x[i] * y[k];
  }
  const double det = n(0, 0) * n(1, 1) - n(0, 1) * n(1, 0);
  Mat inv(2, 2);
  inv << n(1, 1) / det, -n(0, 1) / det, -n(1, 0) / det, n(0, 0) / det;
  const Vec beta = inv * b;
  const Index m = static_cast<Index>(at.size());
  Joint out;
  out.mean.resize(m);
  out.cov.resize(m, m);
  for (Index i = 0; i < m; ++i) {
    const double xi = at[static_cast<std::size_t>(i)];
    out.mean[i] = beta[0] + beta[1] * xi;
    for (Index j = 0; j < m; ++j) {
      const double xj = at[static_cast<std::size_t>(j)];
      out.cov(i, j) = inv(0, 0) + inv(0, 1) * (xi + xj) + inv(1, 1) * xi * xj +
                      (i == j ? 0.3 : 0.);
    }
  }
  return out;
}

// Conditional distribution of `t` given the rest, by definition.
static Joint conditional(const Mat &c, const Vec &mean, const Vec &y, const Indices &t) {
  std::vector<bool> out(static_cast<std::size_t>(y.size()), false);
  for (std::size_t i : t) {
    out[i] = true;
  }
  Indices o;
  for (std::size_t i = 0; i < out.size(); ++i) {
    if (!out[i]) {
      o.push_back(i);
    }
  }
  const auto part = [&](const Indices &a, const Indices &b) {
    Mat p(static_cast<Index>(a.size()), static_cast<Index>(b.size()));
    for (Index i = 0; i < p.rows(); ++i) {
      for (Index j = 0; j < p.cols(); ++j) {
        p(i, j) = c(static_cast<Index>(a[static_cast<std::size_t>(i)]),
                    static_cast<Index>(b[static_cast<std::size_t>(j)]));
      }
    }
    return p;
  };
  Joint j;
  j.cov = part(t, t);
  j.mean.resize(static_cast<Index>(t.size()));
  for (std::size_t i = 0; i < t.size(); ++i) {
    j.mean[static_cast<Index>(i)] = mean[static_cast<Index>(t[i])];
  }
  if (!o.empty()) {
    Vec dev(static_cast<Index>(o.size()));
    for (std::size_t i = 0; i < o.size(); ++i) {
      const Index k = static_cast<Index>(o[i]);
      dev[static_cast<Index>(i)] = y[k] - mean[k];
    }
    const auto lu = part(o, o).fullPivLu();
    j.mean += part(t, o) * lu.solve(dev);
    j.cov -= part(t, o) * lu.solve(part(o, t));
  }
  return j;
}

static Mat gp_prior(const World &w) {
  const Index n = static_cast<Index>(w.x.size());
  Mat c(n, n);
  for (Index i = 0; i < n; ++i) {
    for (Index j = 0; j < n; ++j) {
      const double d = (w.x[static_cast<std::size_t>(i)] - w.x[static_cast<std::size_t>(j)]) /
                       w.length;
      c(i, j) = w.sigma * w.sigma * std::exp(-d * d) + (i == j ? w.noise * w.noise : 0.);
    }
  }
  return c;
}

static Vec gp_mean(const World &w) {
  Vec m(static_cast<Index>(w.x.size()));
  for (Index i = 0; i < m.size(); ++i) {
    m[i] = w.with_mean ? w.slope * w.x[static_cast<std::size_t>(i)] : 0.;
  }
  return m;
}

Joint held_out(const World &w, int model, const Indices &at) {
  sim::Quiet q;
  sim::NoFault nf;
  if (model == 0) {
    Mat c = gp_prior(w);
    c.diagonal() += w.r;
    return conditional(c, gp_mean(w), w.y, at);
  }
  std::vector<double> x, t;
  std::vector<double> y, r;
  for (std::size_t i = 0; i < w.x.size(); ++i) {
    if (std::find(at.begin(), at.end(), i) == at.end()) {
      x.push_back(w.x[i]);
      y.push_back(w.y[static_cast<Index>(i)]);
      r.push_back(w.r[static_cast<Index>(i)]);
    }
  }
  for (std::size_t i : at) {
    t.push_back(w.x[i]);
  }
  const Vec yv = Eigen::Map<Vec>(y.data(), static_cast<Index>(y.size()));
  const Vec rv = Eigen::Map<Vec>(r.data(), static_cast<Index>(r.size()));
  if (model == 1) {
    return line(x, yv, rv, t, 1.);
  }
  // ordinary least squares; all variances are equal there
  return line(x, yv, Vec::Zero(rv.size()), t, 0.);
}

static double nll(const Vec &d, const Mat &c) {
  const auto lu = c.fullPivLu();
  double ld = 0.;
  for (Index i = 0; i < c.rows(); ++i) {
    ld += std::log(std::fabs(lu.matrixLU()(i, i)));
  }
  return 0.5 * (d.dot(lu.solve(d)) + ld + static_cast<double>(d.size()) * std::log(2. * M_PI));
}

// P(chi squared with k degrees of freedom < x), in closed form.
static double chi2(double x, Index k) {
  double out = k % 2 ? std::erf(std::sqrt(x / 2.)) : 1. - std::exp(-x / 2.);
  for (Index d = k % 2 ? 1 : 2; d + 2 <= k; d += 2) {
    const double a = static_cast<double>(d) / 2.;
    out -= std::exp(a * std::log(x / 2.) - x / 2. - std::lgamma(a + 1.));
  }
  return out;
}

double score_of(int metric, const Joint &p, const Vec &y, const Vec &r) {
  const Index n = y.size();
  double sum = 0., squares = 0., largest = 0., independent = 0.;
  for (Index i = 0; i < n; ++i) {
    const double e = p.mean[i] - y[i];
    const double v = p.cov(i, i) + r[i];
    sum += e;
    squares += e * e;
    largest = std::max(largest, std::fabs(e));
    independent += 0.5 * (e * e / v + std::log(2. * M_PI * v));
  }
  const double k = static_cast<double>(n);
  Mat c = p.cov;
  c.diagonal() += r;
  switch (metric) {
  case 0:
    return std::sqrt(squares / k);
  case 1: {
    double dev = 0.;
    for (Index i = 0; i < n; ++i) {
      dev += std::pow(p.mean[i] - y[i] - sum / k, 2.);
    }
    return n == 1 ? 0. : std::sqrt(dev / (k - 1.));
  }
  case 2:
    return largest;
  case 3:
    return independent;
  case 4:
    return nll(p.mean - y, c);
  default:
    return chi2((p.mean - y).dot(c.fullPivLu().solve(p.mean - y)), n);
  }
}

static ParameterPrior a_prior(int kind, double lo, double hi) {
  switch (kind) {
  case 0:
    return UniformPrior(lo, hi);
  case 1:
    return LogScaleUniformPrior(lo, hi);
  case 2:
    return GaussianPrior(lo, hi);
  case 3:
    return LogNormalPrior(lo, hi);
  case 4:
    return PositiveGaussianPrior(0., hi);
  case 5:
    return PositivePrior();
  case 6:
    return NonNegativePrior();
  case 7:
    return FixedPrior();
  default:
    return UninformativePrior();
  }
}

static double density(int kind, double lo, double hi, double v) {
  const auto normal = [](double x, double m, double s) {
    return -0.5 * std::log(2. * M_PI) - std::log(s) - (x - m) * (x - m) / (2. * s * s);
  };
  switch (kind) {
  case 0:
  case 1:
    return -std::log(hi - lo);
  case 2:
    return normal(v, lo, hi);
  case 3:
    return normal(std::log(v), lo, hi) - std::log(v);
  case 4:
    return normal(v, 0., hi) + std::log(2.);
  default:
    return 0.;
  }
}

static const char *const kNames[3] = {"squared_exponential_length_scale",
                                      "sigma_squared_exponential", "sigma_independent_noise"};

void set_priors(const World &w, Gp &gp) {
  for (int i = 0; i < 3; ++i) {
    gp.set_prior(kNames[i], a_prior(w.prior[i], w.lo[i], w.hi[i]));
  }
}

double prior_density(const World &w) {
  const double v[3] = {w.length, w.sigma, w.noise};
  double out = 0.;
  for (int i = 0; i < 3; ++i) {
    out += density(w.prior[i], w.lo[i], w.hi[i], v[i]);
  }
  return out;
}

static Mat spd(Index n) {
  Mat a(n, n);
  for (Index i = 0; i < a.size(); ++i) {
    a.data()[i] = sim::real(-1.5, 1.5);
  }
  Mat m = a * a.transpose();
  m.diagonal().array() += 0.3;
  return m;
}

static Vec some(Index n, double most) {
  Vec v(n);
  for (Index i = 0; i < n; ++i) {
    v[i] = sim::real(-most, most);
  }
  return v;
}

static void draw_world(World &w) {
  const std::size_t n = 3 + sim::w(sim::w(8) ? 8 : 24);
  double at = sim::real(-1., 1.);
  for (std::size_t i = 0; i < n; ++i) {
    w.x.push_back(at);
    at += sim::real(0.15, 0.9);
  }
  num::shuffle(w.x);
  const Index k = static_cast<Index>(n);
  w.y = some(k, 4.);
  w.r = Vec::Zero(k);
  const std::uint64_t how = sim::w(4);
  const double same = sim::real(0.1, 1.);
  for (Index i = 0; i < k; ++i) {
    w.r[i] = how == 0 ? 0. : how == 1 ? same : sim::w(5) ? sim::real(0.05, 3.) : 0.;
  }
  w.length = sim::real(0.3, 2.5);
  w.sigma = sim::real(0.5, 3.);
  w.noise = sim::real(0.2, 1.2);
  w.with_mean = sim::w(2);
  w.slope = w.with_mean ? sim::real(-2., 2.) : 0.;
  w.unit = sim::real(0.4, 3.);
  for (int i = 0; i < 3; ++i) {
    w.prior[i] = static_cast<int>(sim::w(9));
    w.lo[i] = sim::real(0.01, 0.2);
    w.hi[i] = sim::real(4., 9.);
  }
  const Index m = 1 + static_cast<Index>(sim::w(6));
  w.a = spd(m);
  w.b = spd(m);
  if (sim::w(4) == 0) {
    w.b = w.a;
  }
  w.ma = some(m, 2.);
  w.mb = some(m, 2.);
  w.mc = some(m, 2.);
  w.id = num::hash(w.y);
}

void run_measures(const World &w, const Shared &, const Op &op) {
  const Index m = w.a.rows();
  switch (op.kind) {
  case 0: {
    const double got = differential_entropy(w.a);
    sim::NoFault nf;
    judge("differential entropy", got,
          nll(Vec::Zero(m), w.a) + 0.5 * static_cast<double>(m));
    break;
  }
  case 1: {
    const JointDistribution a(w.ma, w.a), b(w.mb, w.b);
    const double got = distance::wasserstein_2(a, b), back = distance::wasserstein_2(b, a);
    sim::NoFault nf;
    const Eigen::EigenSolver<Mat> es(w.a * w.b);
    double want = (w.ma - w.mb).squaredNorm() + w.a.trace() + w.b.trace();
    for (Index i = 0; i < m; ++i) {
      want -= 2. * std::sqrt(std::max(0., es.eigenvalues()[i].real()));
    }
    judge("distance of two distributions", got, want, 1e-6);
    judge("distance the other way round", back, got, 1e-6);
    break;
  }
  case 2: {
    const double mu = w.ma[0], sigma = std::sqrt(w.a(0, 0)), y = w.mb[0] * 2.;
    const double got = score::crps_normal(mu, sigma, y);
    const double point = score::crps_normal(mu, 0., y);
    const double nan = score::crps_normal(mu, std::nan(""), y);
    sim::NoFault nf;
    // integral of the squared difference of the cumulative distributions
    const auto below = [&](double x) { return 0.5 * std::erfc((mu - x) / sigma / std::sqrt(2.)); };
    const auto simpson = [&](double lo, double hi, bool above) {
      const int steps = 400;
      const double h = (hi - lo) / steps;
      double sum = 0.;
      for (int i = 0; i <= steps; ++i) {
        const double f = below(lo + h * i) - (above ? 1. : 0.);
        sum += f * f * (i == 0 || i == steps ? 1. : i % 2 ? 4. : 2.);
      }
      return sum * h / 3.;
    };
    const double reach = 9. * sigma + std::fabs(y - mu);
    judge("continuous ranked probability score", got,
          simpson(mu - reach, y, false) + simpson(y, mu + reach, true), 1e-6);
    judge("score of a point", point, std::fabs(y - mu));
    if (!std::isnan(nan)) {
      sim::violation("value", "the score of no distribution is %g", nan);
    }
    break;
  }
  case 3: {
    const Vec d = w.ma - w.mb;
    const double dense = negative_log_likelihood(d, w.a);
    const double decomposed = negative_log_likelihood(d, w.a.ldlt());
    const Vec diag = w.a.diagonal();
    const double independent = negative_log_likelihood(d, diag.asDiagonal());
    const MarginalDistribution truth(w.mb, Vec(w.b.diagonal()));
    const double joint = NegativeLogLikelihood<JointDistribution>()(
        JointDistribution(w.ma, w.a), truth);
    const double marginal = NegativeLogLikelihood<MarginalDistribution>()(
        MarginalDistribution(w.ma, diag), truth);
    sim::NoFault nf;
    const Joint p{w.ma, w.a};
    judge("negative log likelihood", dense, nll(d, w.a));
    judge("negative log likelihood of a decomposition", decomposed, nll(d, w.a));
    judge("negative log likelihood of independent values", independent,
          score_of(3, p, w.mb, Vec::Zero(m)));
    judge("negative log likelihood of a measurement", joint,
          score_of(4, p, w.mb, w.b.diagonal()));
    judge("negative log likelihood of independent measurements", marginal,
          score_of(3, p, w.mb, w.b.diagonal()));
    break;
  }
  case 4: {
    const double got = chi_squared_cdf(Vec(w.ma - w.mb), w.a);
    const Index k = 1 + static_cast<Index>(op.k);
    const double x = op.u * 12. + 1e-3;
    const double direct = chi_squared_cdf(x, static_cast<std::size_t>(k));
    const double one = chi_squared_cdf(w.ma[0], w.a(0, 0), static_cast<std::size_t>(1));
    sim::NoFault nf;
    judge("chi squared probability of a deviation", got,
          score_of(5, Joint{w.ma, w.a}, w.mb, Vec::Zero(m)));
    judge("chi squared probability", direct, chi2(x, k));
    judge("chi squared probability of one value", one,
          std::erf(std::fabs(w.ma[0]) / std::sqrt(2. * w.a(0, 0))));
    break;
  }
  case 5: {
    // how good a prediction of several values is, by hand
    const double rmse = RootMeanSquareError()(w.ma, MarginalDistribution(w.mb));
    const double dev = StandardDeviation()(w.ma, MarginalDistribution(w.mb));
    const double none = albatross::standard_deviation(Vec());
    sim::NoFault nf;
    const Joint p{w.ma, w.a};
    judge("root mean square error", rmse, score_of(0, p, w.mb, Vec::Zero(m)));
    judge("standard deviation", dev, score_of(1, p, w.mb, Vec::Zero(m)));
    if (!std::isnan(none)) {
      sim::violation("value", "the deviation of nothing is %g", none);
    }
    break;
  }
  default: {
    const int kind = w.prior[0];
    const double lo = w.lo[0], hi = w.hi[0], v = lo + op.u * (hi - lo);
    const ParameterPrior p = a_prior(kind, lo, hi);
    const double got = p.log_pdf(v);
    double out = 0.;
    if (kind < 2) {
      out = std::max(p.log_pdf(lo - 0.1), p.log_pdf(hi + 0.1));
    } else if (kind == 5 || kind == 6) {
      out = p.log_pdf(-0.1);
    }
    sim::NoFault nf;
    judge("log density of a prior", got, density(kind, lo, hi, v));
    if ((kind < 2 || kind == 5 || kind == 6) && out > -1e9) {
      sim::violation("value", "a prior gives %g to what it rules out", out);
    }
    break;
  }
  }
}
} // namespace p19

void sim_run() {
  using namespace p19;
  World w;
  draw_world(w);
  const std::size_t n = w.x.size();
  Shared s;
  const std::size_t n_clients = 1 + (sim::w(2) ? sim::w(3) : 0);
  const std::size_t workers = 2 + sim::w(4);
  std::vector<std::vector<Op>> plan(n_clients);
  for (auto &ops : plan) {
    const std::size_t count = 1 + sim::w(4);
    for (std::size_t i = 0; i < count; ++i) {
      Op op;
      op.model = static_cast<int>(sim::w(4)); // 3: measures
      op.kind = static_cast<int>(sim::w(op.model == 0 ? 6 : op.model == 3 ? 7 : 4));
      op.group = static_cast<int>(sim::w(5));
      op.metric = static_cast<int>(sim::w(op.model == kMeanOnly ? 3 : kMetrics));
      op.k = 2 + sim::w(4);
      op.pooled = sim::w(2);
      op.fails = sim::w(4) == 0;
      op.fail_at = static_cast<long>(sim::f(8));
      op.u = sim::real(0., 1.);
      const std::size_t groups = 1 + sim::w(4);
      for (std::size_t g = 0; g < groups; ++g) {
        Indices order(n);
        for (std::size_t j = 0; j < n; ++j) {
          order[j] = j;
        }
        num::shuffle(order);
        order.resize(1 + sim::w(n - 2));
        if (op.model == kMeanOnly && order.size() > n - 2) {
          order.resize(n - 2);
        }
        if (sim::w(2)) {
          std::sort(order.begin(), order.end());
        }
        op.loose[static_cast<int>(7 * g)] = order;
      }
      if (op.model != kMeanOnly && sim::w(2)) {
        // every measurement once, in any order
        op.whole = true;
        op.loose.clear();
        Indices order(n);
        for (std::size_t j = 0; j < n; ++j) {
          order[j] = j;
        }
        num::shuffle(order);
        for (std::size_t j = 0; j < n; ++j) {
          op.loose[static_cast<int>(sim::w(groups))].push_back(order[j]);
        }
      }
      // A line through fewer than two points is not one.
      if (op.model == kMeanOnly && (op.group == 2 || op.group == 3)) {
        std::map<std::string, std::size_t> a;
        std::map<int, std::size_t> b;
        for (double x : w.x) {
          ++a[decade(x)];
          ++b[static_cast<int>(std::floor(x / w.unit))];
        }
        for (const auto &kv : a) {
          op.group = kv.second + 2 > n ? 0 : op.group;
        }
        for (const auto &kv : b) {
          op.group = kv.second + 2 > n ? 0 : op.group;
        }
      }
      if (op.model == kMeanOnly && op.group == 1) {
        op.k = std::max<std::size_t>(op.k, 3);
      }
      ops.push_back(op);
    }
  }
  const bool memory = n_clients == 1 && sim::f(2);
  for (Op &op : plan[0]) {
    op.fails = op.fails && !memory; // throwing needs memory of its own
  }
  std::vector<std::uint64_t> when;
  for (std::size_t i = 0; memory && i < plan[0].size(); ++i) {
    when.push_back(sim::f(3) ? sim::f(40) : sim::f(400));
  }
  for (std::size_t k = 0; k < n_clients; ++k) {
    for (const auto &o : plan[k]) {
      sim::log("client %zu: model %d kind %d group %d metric %d k %zu pooled %d fails %d", k,
               o.model, o.kind, o.group, o.metric, o.k, (int)o.pooled, (int)o.fails);
    }
  }
  s.data = RegressionDataset<double>(w.x, MarginalDistribution(w.y, w.r));
  s.gp = std::make_unique<Gp>(make_cov(w), Slope(w.slope), "gp");
  s.gp_pooled = std::make_unique<Gp>(make_cov(w), Slope(w.slope), "gp");
  set_priors(w, *s.gp);
  set_priors(w, *s.gp_pooled);
  sim::begin(sim::random_sched());
  {
    s.pool = make_shared_thread_pool(workers);
    s.gp_pooled->set_thread_pool(s.pool);
    const auto one = [&](const Op &o) {
      o.model == 0   ? run_gp(w, s, o)
      : o.model == 3 ? run_measures(w, s, o)
                     : run_other(w, s, o);
      sim::evaluated(n > 1, sim::mix(w.id, static_cast<std::uint64_t>(
                                               ((o.model * 8 + o.kind) * 8 + o.group) * 8 +
                                               o.metric)));
    };
    const auto work = [&](std::size_t i) {
      for (std::size_t j = 0; j < plan[i].size(); ++j) {
        const Op &o = plan[i][j];
        if (memory) {
          const std::int64_t before = sim::live_blocks();
          sim::arm_alloc_fault(when[j]);
          bool failed = false;
          try {
            one(o);
          } catch (const std::bad_alloc &) {
            failed = true;
          }
          const bool fired = sim::alloc_fault_fired();
          sim::disarm_alloc_fault();
          if (fired) {
            sim::fault_fired("alloc");
          }
          if (failed != fired) {
            sim::violation("exception", failed ? "it fails without cause"
                                               : "it hides a failed allocation");
          }
          if (failed && !o.pooled && sim::live_blocks() > before + 8) {
            sim::violation("leak", "%lld blocks are left behind",
                           (long long)(sim::live_blocks() - before));
          }
        }
        one(o);
      }
    };
    std::vector<std::thread> threads;
    for (std::size_t i = 1; i < n_clients; ++i) {
      threads.emplace_back([&, i] { work(i); });
    }
    work(0);
    for (auto &t : threads) {
      t.join();
    }
    s.gp_pooled.reset();
    s.pool.reset();
  }
  sim::end();
}
#endif

#if SHARD == 1
namespace p19 {
void run_gp(const World &w, const Shared &s, const Op &op) {
  const Gp &gp = op.pooled ? *s.gp_pooled : *s.gp;
  const std::size_t n = w.x.size();
  switch (op.kind) {
  case 0:
  case 1:
    return judge_model(w, s, gp, op);
  case 2: {
    const double prior = prior_density(w);
    const auto want = [&](int metric, bool by_decade) {
      sim::NoFault nf;
      std::map<std::string, Indices> groups;
      for (std::size_t i = 0; i < n; ++i) {
        groups[by_decade ? decade(w.x[i]) : std::to_string(i)].push_back(i);
      }
      double sum = 0.;
      for (const auto &kv : groups) {
        Vec y(static_cast<Index>(kv.second.size())), r(y.size());
        for (std::size_t k = 0; k < kv.second.size(); ++k) {
          y[static_cast<Index>(k)] = w.y[static_cast<Index>(kv.second[k])];
          r[static_cast<Index>(k)] = w.r[static_cast<Index>(kv.second[k])];
        }
        sum += score_of(metric, held_out(w, 0, kv.second), y, r);
      }
      return sum;
    };
    double log_prior = gp.prior_log_likelihood();
    judge("log density of the parameters", log_prior, prior);
    switch (op.metric) {
    case 0:
      return judge("leave one out RMSE", LeaveOneOutRMSE()(s.data, gp),
                   want(0, false) / static_cast<double>(n));
    case 1:
      return judge("leave one out likelihood", LeaveOneOutLikelihood<>()(s.data, gp),
                   want(4, false) - prior);
    case 2:
      return judge("leave one out likelihood (marginal)",
                   LeaveOneOutLikelihood<MarginalDistribution>()(s.data, gp),
                   want(3, false) - prior);
    case 3:
      return judge("leave one group out likelihood",
                   LeaveOneGroupOutLikelihood<double>(decade)(s.data, gp), want(4, true) - prior);
    case 5: {
      const double got = gp.log_likelihood(s.data);
      sim::NoFault nf;
      const Indices all = [&] {
        Indices out;
        for (std::size_t i = 0; i < n; ++i) {
          out.push_back(i);
        }
        return out;
      }();
      const Joint j = held_out(w, 0, all); // nothing else is known
      return judge("log likelihood", got,
                   prior - score_of(4, j, w.y, Vec::Zero(static_cast<Index>(n))));
    }
    default:
      return judge(
          "leave one group out likelihood (marginal)",
          LeaveOneGroupOutLikelihood<double, MarginalDistribution>(decade)(s.data, gp),
          want(3, true) - prior);
    }
  }
  case 3: {
    // every value given the others
    const JointDistribution prior = gp.prior(w.x);
    const MarginalDistribution got = leave_one_out_conditional(prior, s.data.targets);
    Mat c = prior.covariance;
    c.diagonal() += w.r;
    const Vec v = op.fails ? leave_one_out_conditional_variance(c)
                           : leave_one_out_conditional_variance(Eigen::SerializableLDLT(c));
    sim::NoFault nf;
    Vec mean(static_cast<Index>(n)), var(static_cast<Index>(n));
    for (std::size_t i = 0; i < n; ++i) {
      const Joint j = held_out(w, 0, {i});
      mean[static_cast<Index>(i)] = j.mean[0];
      var[static_cast<Index>(i)] = j.cov(0, 0);
    }
    judge("means given all others", got.mean, mean);
    judge("variances given all others", Vec(got.covariance.diagonal()), var);
    judge("variances given all others", v, var);
    return;
  }
  default: {
    const JointDistribution prior = gp.prior(w.x);
    GroupIndexer<int> g;
    for (const auto &kv : op.loose) {
      g[kv.first] = kv.second;
    }
    ThreadPool *pool = op.pooled ? s.pool.get() : serial_thread_pool;
    switch (op.metric % 3) {
    case 0: {
      const auto got = leave_one_group_out_conditional_means(prior, s.data.targets, g, pool);
      judge_keys("means given other groups", got, op.loose);
      sim::NoFault nf;
      for (const auto &kv : op.loose) {
        judge("mean given other groups", got.at(kv.first), held_out(w, 0, kv.second).mean);
      }
      return;
    }
    case 1: {
      const auto got = leave_one_group_out_conditional_marginals(prior, s.data.targets, g, pool);
      judge_keys("marginals given other groups", got, op.loose);
      sim::NoFault nf;
      for (const auto &kv : op.loose) {
        const Joint j = held_out(w, 0, kv.second);
        judge("mean given other groups", got.at(kv.first).mean, j.mean);
        judge("variance given other groups", Vec(got.at(kv.first).covariance.diagonal()),
              j.cov.diagonal());
      }
      return;
    }
    default: {
      const auto got = leave_one_group_out_conditional_joints(prior, s.data.targets, g, pool);
      judge_keys("joint distributions given other groups", got, op.loose);
      sim::NoFault nf;
      for (const auto &kv : op.loose) {
        const Joint j = held_out(w, 0, kv.second);
        judge("mean given other groups", got.at(kv.first).mean, j.mean);
        judge("covariance given other groups", got.at(kv.first).covariance, j.cov);
      }
      return;
    }
    }
  }
  }
}
} // namespace p19
#endif

#if SHARD == 2
namespace p19 {
void run_other(const World &w, const Shared &s, const Op &op) {
  Op o = op;
  o.kind = op.kind % 2;
  if (op.model == 2) {
    // only for measurements of one quality
    World same = w;
    Shared t;
    {
      sim::NoFault nf;
      same.r = Vec::Constant(w.r.size(), w.r[0]);
      t.data = RegressionDataset<double>(same.x, MarginalDistribution(same.y, same.r));
    }
    return judge_model(same, t, s.linear, o);
  }
  if (op.fails) {
    // the model gives up somewhere: the caller hears of it, with its reason
    long left = op.fail_at;
    const long tag = 4711 + op.fail_at;
    Trend m = s.trend;
    m.left = &left;
    m.tag = &tag;
    bool threw = false;
    try {
      judge_model(w, s, m, o);
    } catch (const Boom &b) {
      threw = true;
      if (b.id != tag) {
        sim::violation("exception", "the exception of another one");
      }
    }
    if (threw != (left < 0)) {
      sim::violation("exception", "a failing model is not reported");
    }
    return;
  }
  judge_model(w, s, s.trend, o);
}
} // namespace p19
#endif
