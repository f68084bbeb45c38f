// P14: parameters are what was last set, everywhere, and nothing else is.
#include <albatross/CovarianceFunctions>
#include <albatross/GP>
#include <albatross/NullModel>
#include <albatross/Ransac>
#include <albatross/SparseGP>

#include "num.h"
#include "sim.h"

#include <cstring>
#include <iostream>
#include <memory>
#include <thread>

extern const char *const kProperty, *const kRule, *const kRealCode, *const kStubs;
extern const std::vector<std::string> kAssumptions;
const char *const kProperty = "P14";
const char *const kRule =
    "one evaluation = one operation on the parameters of an object, after which all of its "
    "parameters, their priors and a value that depends on them are compared with the "
    "reference; non-trivial = the object has at least two parameters; distinct by kind of "
    "object, operation and resulting parameters";
const char *const kRealCode =
    "ParameterHandlingMixin, ParameterStore functions, DECLARE_PARAMS, covariance, mean and "
    "scaling functions with their sums and products, measurement_only, Gaussian process, "
    "sparse Gaussian process, RANSAC and null models, priors";
const char *const kStubs = "pthread scheduling and the heap (simulated)";
const std::vector<std::string> kAssumptions = {
    "parameters that have the same name in two components start with the same value"};

namespace p14 {
using namespace albatross;

// --- the reference -----------------------------------------------------------
using Desc = std::vector<double>;
struct Describe {
  template <typename T> Desc operator()(const T &) const { return {}; }
  Desc operator()(const UniformPrior &p) const { return {p.lower_, p.upper_}; }
  Desc operator()(const LogScaleUniformPrior &p) const { return {p.lower_, p.upper_}; }
  Desc operator()(const GaussianPrior &p) const { return {p.mu_, p.sigma_}; }
  Desc operator()(const PositiveGaussianPrior &p) const { return {p.mu_, p.sigma_}; }
  Desc operator()(const LogNormalPrior &p) const { return {p.mu_, p.sigma_}; }
};
Desc describe(const Parameter &p) {
  Desc d = p.prior.priors_.match([](const auto &x) { return Describe()(x); });
  d.push_back(static_cast<double>(p.prior.priors_.which()));
  d.push_back(p.value);
  return d;
}
bool same(const Parameter &a, const Parameter &b) {
  const Desc x = describe(a), y = describe(b);
  return x.size() == y.size() && std::memcmp(x.data(), y.data(), 8 * x.size()) == 0;
}

double some_value() {
  switch (sim::w(8)) {
  case 0:
    return 1.;
  case 1:
    return 0.;
  case 2:
    return -sim::real(0.1, 5.);
  case 3:
    return std::exp(sim::real(-6., 6.));
  default:
    return sim::real(0.2, 3.);
  }
}

Parameter some_prior() {
  Parameter p;
  const double lo = sim::w(2) ? 0.5 : sim::real(0.01, 1.);
  // Bounds that differ by little are different bounds.
  const double hi = sim::w(3) == 2 ? 2.5 + 1e-9 * static_cast<double>(sim::w(3)) : lo + sim::real(0.5, 4.);
  switch (sim::w(9)) {
  case 0:
    p.prior = UninformativePrior();
    break;
  case 1:
    p.prior = FixedPrior();
    break;
  case 2:
    p.prior = NonNegativePrior();
    break;
  case 3:
    p.prior = PositivePrior();
    break;
  case 4:
    p.prior = UniformPrior(lo - 1., hi);
    break;
  case 5:
    p.prior = LogScaleUniformPrior(lo, hi);
    break;
  case 6:
    p.prior = GaussianPrior(lo, hi);
    break;
  case 7:
    p.prior = LogNormalPrior(lo, hi);
    break;
  default:
    p.prior = PositiveGaussianPrior(lo, hi);
  }
  return p;
}
double within(const Parameter &p, double v) {
  return std::max(p.prior.lower_bound(), std::min(p.prior.upper_bound(), v));
}
Parameter some_param() {
  Parameter p = some_prior();
  p.value = sim::w(5) ? within(p, some_value()) : some_value();
  return p;
}

// --- objects with parameters ---------------------------------------------------
using Values = std::map<std::string, double>;
struct Thing {
  virtual ~Thing() {}
  virtual ParameterHandlingMixin &h() = 0;
  virtual const ParameterHandlingMixin &h() const = 0;
  virtual std::unique_ptr<Thing> clone() const = 0;
  virtual void assign(const Thing &other) = 0;
  virtual void take(Thing *other) = 0;
  virtual double eval() const = 0;
  virtual double expect(const Values &v) const = 0;
  // Functions which are templates: they see the type of the object.
  virtual bool set_one_if_exists(const ParameterKey &k, const Parameter &p) = 0;
  virtual bool set_value_if_exists(const ParameterKey &k, double v) = 0;
  virtual bool set_some_if_exists(const ParameterStore &s) = 0;
  virtual bool set_values_if_exists(const Values &v) = 0;
  virtual bool set_in_any(const ParameterKey &k, const Parameter &p, Thing *other) = 0;
};

double se(double d, double l, double s) { return l <= 0. ? 0. : s * s * std::exp(-std::pow(d / l, 2)); }
double ex(double d, double l, double s) { return l <= 0. ? 0. : s * s * std::exp(-std::fabs(d / l)); }
double m32(double d, double l, double s) {
  const double r = std::sqrt(3.) * d / l;
  return l <= 0. ? 0. : s * s * (1 + r) * std::exp(-r);
}
double m52(double d, double l, double s) {
  const double r = std::sqrt(5.) * d / l;
  return l <= 0. ? 0. : s * s * (1 + r + r * r / 3.) * std::exp(-r);
}
double sq(double x) { return x * x; }
constexpr double kX = 1.25, kY = 0.5;

class Scale : public ScalingFunction {
public:
  ALBATROSS_DECLARE_PARAMS(scale_center, scale_factor);
  Scale() {
    scale_center = {0.25, UniformPrior(-4., 4.)};
    scale_factor = {1.5, PositivePrior()};
  }
  std::string get_name() const override { return "scale"; }
  double _call_impl(const double &x) const { return 1. + scale_factor.value * (x - scale_center.value); }
};
class Bump : public MeanFunction<Bump> {
public:
  ALBATROSS_DECLARE_PARAMS(bump);
  Bump() { bump = {0.5, GaussianPrior(0., 10.)}; }
  std::string get_name() const { return "bump"; }
  double _call_impl(const double &x) const { return bump.value * x * x; }
};
using SE = SquaredExponential<EuclideanDistance>;
using Exp = Exponential<EuclideanDistance>;
using M32 = Matern32<EuclideanDistance>;
using M52 = Matern52<EuclideanDistance>;

class Store : public ParameterHandlingMixin {
public:
  Store() {
    params_ = {{"a", Parameter(1., UninformativePrior())},
               {"b", Parameter(2., PositivePrior())},
               {"c", Parameter(0.5, LogScaleUniformPrior(1e-3, 1e3))},
               {"d", Parameter(7., FixedPrior())},
               {"e", Parameter(0.5, UniformPrior(0., 1.))}};
  }
};
template <typename Cov, typename Mean>
class OwnParams : public GaussianProcessBase<Cov, Mean, OwnParams<Cov, Mean>> {
public:
  using Base = GaussianProcessBase<Cov, Mean, OwnParams<Cov, Mean>>;
  using Base::Base;
  void own() { this->params_["center"] = Parameter(0.125, UniformPrior(-50., 50.)); }
};

template <typename T> struct Use; // how to build and evaluate
template <> struct Use<SE> {
  static SE make() { return SE(1.1, 0.9); }
  static double eval(const SE &k) { return k(kX, kY); }
  static double expect(const Values &v) {
    return se(kX - kY, v.at("squared_exponential_length_scale"), v.at("sigma_squared_exponential"));
  }
};
template <> struct Use<M52> {
  static M52 make() { return M52(1.1, 0.9); }
  static double eval(const M52 &k) { return k(kX, kY); }
  static double expect(const Values &v) {
    return m52(kX - kY, v.at("matern_52_length_scale"), v.at("sigma_matern_52"));
  }
};
template <> struct Use<Polynomial<2>> {
  static Polynomial<2> make() { return Polynomial<2>(1.5); }
  static double eval(const Polynomial<2> &k) { return k(kX, kY); }
  static double expect(const Values &v) {
    return sq(v.at("sigma_polynomial_0")) + sq(v.at("sigma_polynomial_1")) * kX * kY +
           sq(v.at("sigma_polynomial_2")) * sq(kX * kY);
  }
};
using Sum = std::decay_t<decltype(SE() + Constant() + IndependentNoise<double>())>;
template <> struct Use<Sum> {
  static Sum make() { return SE(1.1, 0.9) + Constant(1.3) + IndependentNoise<double>(0.3); }
  static double eval(const Sum &k) { return k(kX, kY) + 3. * k(kX, kX); }
  static double expect(const Values &v) {
    const double l = v.at("squared_exponential_length_scale"), s = v.at("sigma_squared_exponential"),
                 c = v.at("sigma_constant"), n = v.at("sigma_independent_noise");
    return se(kX - kY, l, s) + c * c + 3. * (se(0, l, s) + c * c + n * n);
  }
};
using Mix = std::decay_t<decltype(Exp() * Constant() + measurement_only(IndependentNoise<double>() + Nugget()))>;
template <> struct Use<Mix> {
  static Mix make() {
    return Exp(1.1, 0.9) * Constant(1.2) + measurement_only(IndependentNoise<double>(0.3) + Nugget());
  }
  static double eval(const Mix &k) {
    return k(kX, kY) + 3. * k(Measurement<double>(kX), Measurement<double>(kX));
  }
  static double expect(const Values &v) {
    const double l = v.at("exponential_length_scale"), s = v.at("sigma_exponential"),
                 c = sq(v.at("sigma_constant")), n = v.at("sigma_independent_noise"),
                 g = v.at("nugget_sigma");
    return ex(kX - kY, l, s) * c + 3. * (ex(0, l, s) * c + n * n + g * g);
  }
};
using Scaled = std::decay_t<decltype(ScalingTerm<Scale>() * (M32() + Constant()))>;
template <> struct Use<Scaled> {
  static Scaled make() { return ScalingTerm<Scale>() * (M32(1.4, 0.7) + Constant(0.4)); }
  static double eval(const Scaled &k) { return k(kX, kY); }
  static double expect(const Values &v) {
    const double a = 1. + v.at("scale_factor") * (kX - v.at("scale_center")),
                 b = 1. + v.at("scale_factor") * (kY - v.at("scale_center"));
    return a * b * (m32(kX - kY, v.at("matern_32_length_scale"), v.at("sigma_matern_32")) +
                    sq(v.at("sigma_constant")));
  }
};
using Scaled2 = std::decay_t<decltype(SE() * ScalingTerm<Scale>())>;
template <> struct Use<Scaled2> {
  static Scaled2 make() { return SE(1.1, 0.9) * ScalingTerm<Scale>(); }
  static double eval(const Scaled2 &k) { return k(kX, kY); }
  static double expect(const Values &v) {
    const double a = 1. + v.at("scale_factor") * (kX - v.at("scale_center")),
                 b = 1. + v.at("scale_factor") * (kY - v.at("scale_center"));
    return a * b * Use<SE>::expect(v);
  }
};
using Means = std::decay_t<decltype(LinearMean() + Bump())>;
template <> struct Use<Means> {
  static Means make() { return LinearMean() + Bump(); }
  static double eval(const Means &m) { return m(kX); }
  static double expect(const Values &v) {
    return v.at("slope") * kX + v.at("offset") + v.at("bump") * kX * kX;
  }
};
using MeanProduct = std::decay_t<decltype(LinearMean() * Bump())>;
template <> struct Use<MeanProduct> {
  static MeanProduct make() { return LinearMean() * Bump(); }
  static double eval(const MeanProduct &m) { return m(kX); }
  static double expect(const Values &v) {
    return (v.at("slope") * kX + v.at("offset")) * v.at("bump") * kX * kX;
  }
};
// The same names on both sides: one parameter.
using Shared = std::decay_t<decltype(SE() + SE() * Constant())>;
template <> struct Use<Shared> {
  static Shared make() { return SE(1.1, 0.9) + SE(1.1, 0.9) * Constant(1.5); }
  static double eval(const Shared &k) { return k(kX, kY); }
  static double expect(const Values &v) {
    return Use<SE>::expect(v) * (1. + sq(v.at("sigma_constant")));
  }
};
using Gp = std::decay_t<decltype(gp_from_covariance_and_mean(Sum(), Means()))>;
template <> struct Use<Gp> {
  static Gp make() { return gp_from_covariance_and_mean(Use<Sum>::make(), Use<Means>::make()); }
  static double eval(const Gp &g) {
    const auto k = g.get_covariance();
    return k(kX, kY) + 3. * k(kX, kX) + g.get_mean()(kX);
  }
  static double expect(const Values &v) { return Use<Sum>::expect(v) + Use<Means>::expect(v); }
};
using Own = OwnParams<Scaled2, LinearMean>;
template <> struct Use<Own> {
  static Own make() {
    Own g(Use<Scaled2>::make(), LinearMean());
    g.own();
    return g;
  }
  static double eval(const Own &g) {
    return g.get_covariance()(kX, kY) + g.get_mean()(kX) + g.get_param_value("center");
  }
  static double expect(const Values &v) {
    return Use<Scaled2>::expect(v) + v.at("slope") * kX + v.at("offset") + v.at("center");
  }
};
struct OneGroup {
  int operator()(const double &) const { return 0; }
};
using Sparse = std::decay_t<decltype(sparse_gp_from_covariance_and_mean(Mix(), LinearMean(), OneGroup(), "sparse"))>;
template <> struct Use<Sparse> {
  static Sparse make() {
    return sparse_gp_from_covariance_and_mean(Use<Mix>::make(), LinearMean(), OneGroup(), "sparse");
  }
  static double eval(const Sparse &g) {
    return Use<Mix>::eval(g.get_covariance()) + g.get_mean()(kX) +
           g.get_param_value(details::measurement_nugget_name()) +
           2. * g.get_param_value(details::inducing_nugget_name());
  }
  static double expect(const Values &v) {
    return Use<Mix>::expect(v) + v.at("slope") * kX + v.at("offset") +
           v.at(details::measurement_nugget_name()) + 2. * v.at(details::inducing_nugget_name());
  }
};
RansacConfig ransac_config() {
  RansacConfig c;
  c.inlier_threshold = 1.;
  c.random_sample_size = 2;
  c.min_consensus_size = 2;
  c.max_iterations = 4;
  c.max_failed_candidates = 2;
  return c;
}
using Rans = std::decay_t<decltype(std::declval<Gp>().ransac(
    get_generic_ransac_strategy(RootMeanSquareError(), LeaveOneOutLikelihood<>(), LeaveOneOutGrouper()),
    std::declval<RansacConfig>()))>;
template <> struct Use<Rans> {
  static Rans make() {
    return Use<Gp>::make().ransac(
        get_generic_ransac_strategy(RootMeanSquareError(), LeaveOneOutLikelihood<>(),
                                    LeaveOneOutGrouper()),
        ransac_config());
  }
  static double eval(const Rans &r) {
    const auto p = r.get_params();
    return p.at("slope").value + 2. * p.at("sigma_constant").value;
  }
  static double expect(const Values &v) { return v.at("slope") + 2. * v.at("sigma_constant"); }
};
template <> struct Use<NullModel> {
  static NullModel make() {
    return NullModel(ParameterStore{{"x", Parameter(1.5, PositivePrior())},
                                    {"y", Parameter(0.5, UniformPrior(0., 1.))}});
  }
  static double eval(const NullModel &m) {
    const auto p = m.get_params();
    return p.at("x").value + 2. * p.at("y").value;
  }
  static double expect(const Values &v) { return v.at("x") + 2. * v.at("y"); }
};
template <> struct Use<Store> {
  static Store make() { return Store(); }
  static double eval(const Store &s) { return s.get_param_value("c") + 2. * s.get_param_value("d"); }
  static double expect(const Values &v) { return v.at("c") + 2. * v.at("d"); }
};

template <typename T> struct ThingOf : Thing {
  T t;
  explicit ThingOf(const T &x) : t(x) {}
  ParameterHandlingMixin &h() override { return t; }
  const ParameterHandlingMixin &h() const override { return t; }
  std::unique_ptr<Thing> clone() const override { return std::make_unique<ThingOf<T>>(t); }
  void assign(const Thing &other) override { t = static_cast<const ThingOf<T> &>(other).t; }
  void take(Thing *other) override { t = std::move(static_cast<ThingOf<T> *>(other)->t); }
  double eval() const override { return Use<T>::eval(t); }
  double expect(const Values &v) const override { return Use<T>::expect(v); }
  bool set_one_if_exists(const ParameterKey &k, const Parameter &p) override {
    return albatross::set_param_if_exists(k, p, &t);
  }
  bool set_value_if_exists(const ParameterKey &k, double v) override {
    return albatross::set_param_value_if_exists(k, v, &t);
  }
  bool set_some_if_exists(const ParameterStore &s) override {
    return albatross::set_params_if_exists(s, &t);
  }
  bool set_values_if_exists(const Values &v) override {
    return albatross::set_param_values_if_exists(v, &t);
  }
  bool set_in_any(const ParameterKey &k, const Parameter &p, Thing *other) override {
    return albatross::set_param_if_exists_in_any(k, p, &static_cast<ThingOf<T> *>(other)->t, &t);
  }
};
constexpr int kKinds = 14;
const char *const kKindName[kKinds] = {"store", "squared exponential", "matern", "polynomial",
                                       "sum", "product and measurement_only", "scaled",
                                       "scaled (right)", "means", "mean product", "gp",
                                       "gp with its own", "sparse gp", "null model"};
const char *name_of(int kind) {
  return kind < kKinds ? kKindName[kind] : kind == kKinds ? "ransac" : "shared names";
}
template <typename T> std::unique_ptr<Thing> fresh() { return std::make_unique<ThingOf<T>>(Use<T>::make()); }
std::unique_ptr<Thing> fresh_thing(int kind) {
  switch (kind) {
  case 0:
    return fresh<Store>();
  case 1:
    return fresh<SE>();
  case 2:
    return fresh<M52>();
  case 3:
    return fresh<Polynomial<2>>();
  case 4:
    return fresh<Sum>();
  case 5:
    return fresh<Mix>();
  case 6:
    return fresh<Scaled>();
  case 7:
    return fresh<Scaled2>();
  case 8:
    return fresh<Means>();
  case 9:
    return fresh<MeanProduct>();
  case 10:
    return fresh<Gp>();
  case 11:
    return fresh<Own>();
  case 12:
    return fresh<Sparse>();
  case 13:
    return fresh<NullModel>();
  case 14:
    return fresh<Rans>();
  default:
    return fresh<Shared>();
  }
}
const std::vector<std::vector<std::string>> kNames = {
    {"a", "b", "c", "d", "e"},
    {"sigma_squared_exponential", "squared_exponential_length_scale"},
    {"matern_52_length_scale", "sigma_matern_52"},
    {"sigma_polynomial_0", "sigma_polynomial_1", "sigma_polynomial_2"},
    {"sigma_constant", "sigma_independent_noise", "sigma_squared_exponential",
     "squared_exponential_length_scale"},
    {"exponential_length_scale", "nugget_sigma", "sigma_constant", "sigma_exponential",
     "sigma_independent_noise"},
    {"matern_32_length_scale", "scale_center", "scale_factor", "sigma_constant", "sigma_matern_32"},
    {"scale_center", "scale_factor", "sigma_squared_exponential",
     "squared_exponential_length_scale"},
    {"bump", "offset", "slope"},
    {"bump", "offset", "slope"},
    {"bump", "offset", "sigma_constant", "sigma_independent_noise", "sigma_squared_exponential",
     "slope", "squared_exponential_length_scale"},
    {"center", "offset", "scale_center", "scale_factor", "sigma_squared_exponential", "slope",
     "squared_exponential_length_scale"},
    {"exponential_length_scale", "inducing_nugget", "measurement_nugget", "nugget_sigma", "offset",
     "sigma_constant", "sigma_exponential", "sigma_independent_noise", "slope"},
    {"x", "y"},
    {"bump", "offset", "sigma_constant", "sigma_independent_noise", "sigma_squared_exponential",
     "slope", "squared_exponential_length_scale"},
    {"sigma_constant", "sigma_squared_exponential", "squared_exponential_length_scale"}};

// --- an object and what it should be ------------------------------------------
struct Slot {
  int kind = 0;
  std::unique_ptr<Thing> thing;
  ParameterStore ref;
};
std::string list(const ParameterStore &s) {
  std::ostringstream out;
  out.precision(17);
  for (const auto &p : s) {
    out << p.first << "=" << p.second.value << " ";
  }
  return out.str();
}
void expect_params(const ParameterStore &got, const ParameterStore &want, int kind, const char *when) {
  sim::NoFault no_fault;
  auto a = got.begin();
  for (const auto &w : want) {
    if (a == got.end() || a->first != w.first) {
      sim::violation("names", "%s (%s): the parameters are %s instead of %s", when, name_of(kind),
                     list(got).c_str(), list(want).c_str());
    }
    if (!same(a->second, w.second)) {
      sim::violation("value", "%s (%s): %s is %.17g (%s), expected %.17g (%s)", when,
                     name_of(kind), w.first.c_str(), a->second.value,
                     a->second.prior.get_name().c_str(), w.second.value,
                     w.second.prior.get_name().c_str());
    }
    ++a;
  }
  if (a != got.end()) {
    sim::violation("names", "%s (%s): there are %zu parameters instead of %zu", when,
                   name_of(kind), got.size(), want.size());
  }
}
Values values_of(const ParameterStore &s) {
  Values v;
  for (const auto &p : s) {
    v[p.first] = p.second.value;
  }
  return v;
}
void verify(const Slot &s, const char *when) {
  expect_params(s.thing->h().get_params(), s.ref, s.kind, when);
  const Values v = values_of(s.ref);
  const double got = s.thing->eval(), want = s.thing->expect(v);
  double size = 1.;
  for (const auto &x : v) {
    size += sq(x.second);
  }
  if (std::isfinite(want) && !(std::fabs(got - want) <= 1e-9 * size * size * size)) {
    sim::violation("effect", "%s (%s): with %s a value is %.17g, expected %.17g", when,
                   name_of(s.kind), list(s.ref).c_str(), got, want);
  }
  bool valid = true;
  double likelihood = 0.;
  for (const auto &x : s.ref) {
    valid = valid && x.second.value >= x.second.prior.lower_bound() &&
            x.second.value <= x.second.prior.upper_bound();
    likelihood += x.second.prior.log_pdf(x.second.value);
    const double direct = s.thing->h().get_param_value(x.first);
    if (std::memcmp(&direct, &x.second.value, 8) != 0) {
      sim::violation("value", "%s (%s): %s is %g, expected %g", when, name_of(s.kind),
                     x.first.c_str(), direct, x.second.value);
    }
  }
  if (s.thing->h().params_are_valid() != valid) {
    sim::violation("valid", "%s (%s): parameters are taken for %s", when, name_of(s.kind),
                   valid ? "invalid" : "valid");
  }
  if (std::isfinite(likelihood)) {
    const double l = s.thing->h().prior_log_likelihood();
    if (!(std::fabs(l - likelihood) <= 1e-9 * (1. + std::fabs(likelihood)))) {
      sim::violation("likelihood", "%s (%s): the prior's log likelihood is %.17g, expected %.17g",
                     when, name_of(s.kind), l, likelihood);
    }
  }
}

std::string some_name(int kind, bool *known) {
  const auto &names = kNames[static_cast<std::size_t>(kind)];
  if (sim::w(7) == 6) {
    *known = false;
    const char *const odd[] = {"unknown", "sigma", "zz", "A"};
    return odd[sim::w(4)];
  }
  *known = true;
  return names[sim::w(names.size())];
}

// What an operation should do: the store it leads to, or a refusal.
struct Effect {
  ParameterStore after;
  bool refused = false;
  int returns = -1; // for functions that say whether they did it
};

// Runs `op` on the slot; checks refusals, results and what is left after a failure.
template <typename Op>
void step(Slot *s, const Effect &e, const char *what, const Op &op, bool faults) {
  if (faults) {
    // A failed allocation first: afterwards every parameter is the old or the new one.
    std::unique_ptr<Thing> copy;
    {
      sim::NoFault no_fault;
      copy = s->thing->clone();
    }
    bool failed = false;
    sim::arm_alloc_fault(sim::f(40));
    try {
      sim::AssertThrows throws;
      op(copy.get());
    } catch (const sim::AssertionFailed &) {
    } catch (const std::bad_alloc &) {
      failed = true;
    }
    const bool fired = sim::alloc_fault_fired();
    sim::disarm_alloc_fault();
    if (fired) {
      sim::fault_fired("alloc");
    }
    if (failed && !fired) {
      sim::violation("exception", "%s fails without cause", what);
    }
    const ParameterStore now = copy->h().get_params();
    if (now.size() != s->ref.size()) {
      sim::violation("names", "after a failed %s there are %zu parameters, not %zu", what,
                     now.size(), s->ref.size());
    }
    std::size_t changed = 0, to_change = 0;
    for (const auto &x : s->ref) {
      const auto it = now.find(x.first);
      if (it == now.end()) {
        sim::violation("names", "after a failed %s there is no %s", what, x.first.c_str());
      }
      const Parameter &next = e.after.at(x.first);
      to_change += !same(x.second, next);
      if (!same(it->second, x.second)) {
        if (!same(it->second, next)) {
          sim::violation("value", "after a failed %s %s (%s) is neither the old nor the new one",
                         what, x.first.c_str(), name_of(s->kind));
        }
        ++changed;
      }
    }
    if (!failed && !e.refused && changed != to_change) {
      sim::violation("value", "%s changes %zu of %zu parameters although it does not fail", what,
                     changed, to_change);
    }
    if (e.refused && changed) {
      sim::violation("refused", "%s is refused but changes %zu parameters", what, changed);
    }
  }
  bool refused = false;
  int result = -1;
  try {
    sim::AssertThrows throws;
    result = op(s->thing.get());
  } catch (const sim::AssertionFailed &) {
    refused = true;
  }
  if (refused != e.refused) {
    sim::violation("refused", "%s (%s) is %s", what, name_of(s->kind),
                   refused ? "refused" : "accepted");
  }
  if (!refused && e.returns >= 0 && result >= 0 && result != e.returns) {
    sim::violation("returns", "%s (%s) returns %s", what, name_of(s->kind),
                   result ? "true" : "false");
  }
  if (!refused) {
    s->ref = e.after;
  }
  verify(*s, what);
  std::uint64_t sig = sim::hash_bytes(what, std::strlen(what), static_cast<std::uint64_t>(s->kind));
  for (const auto &x : s->ref) {
    const Desc d = describe(x.second);
    sig = sim::hash_bytes(d.data(), 8 * d.size(), sig);
  }
  sim::evaluated(s->ref.size() > 1, sig);
}

struct Plan { // drawn before the simulation starts
  int op = 0;
  std::size_t slot = 0, other = 0;
  std::vector<std::pair<std::string, Parameter>> params;
  std::vector<double> reals;
  std::size_t extra = 0;
  bool flag = false, faults = false;
};

void tunables(Slot *s, const Plan &p) {
  // Getting them: sorted by name, without the fixed ones, in log scale where asked.
  std::vector<std::string> names;
  bool valid = true;
  for (const auto &x : s->ref) {
    if (!x.second.is_fixed()) {
      names.push_back(x.first);
      valid = valid && x.second.value >= x.second.prior.lower_bound() &&
              x.second.value <= x.second.prior.upper_bound();
    }
  }
  TunableParameters t;
  bool refused = false;
  try {
    sim::AssertThrows throws;
    t = s->thing->h().get_tunable_parameters();
  } catch (const sim::AssertionFailed &) {
    refused = true;
  }
  if (refused == valid) {
    sim::violation("tunable", "parameters (%s) that are %s their bounds are %s", name_of(s->kind),
                   valid ? "within" : "out of", refused ? "refused" : "tuned");
  }
  std::vector<double> x(names.size());
  Effect e;
  e.after = s->ref;
  if (!refused) {
    if (t.names != names || t.values.size() != names.size() ||
        t.lower_bounds.size() != names.size() || t.upper_bounds.size() != names.size()) {
      sim::violation("tunable", "%zu parameters (%s) are tunable, expected %zu", t.names.size(),
                     name_of(s->kind), names.size());
    }
    for (std::size_t i = 0; i < names.size(); ++i) {
      const Parameter &q = s->ref.at(names[i]);
      const bool log_scale = q.prior.is_log_scale();
      const auto f = [&](double v) { return log_scale ? std::log(v) : v; };
      if (t.values[i] != f(q.value) || t.lower_bounds[i] != f(q.prior.lower_bound()) ||
          t.upper_bounds[i] != f(q.prior.upper_bound())) {
        sim::violation("tunable", "%s (%s) is tuned from %g in [%g, %g]", names[i].c_str(),
                       name_of(s->kind), t.values[i], t.lower_bounds[i], t.upper_bounds[i]);
      }
    }
  }
  // Setting them: to what they are, or to anything, with bounds or without.
  const bool back = !refused && p.reals.empty();
  for (std::size_t i = 0; i < names.size(); ++i) {
    Parameter &q = e.after.at(names[i]);
    x[i] = back ? t.values[i] : p.reals.empty() ? 0.5 : p.reals[i % p.reals.size()];
    double v = q.prior.is_log_scale() ? std::exp(x[i]) : x[i];
    if (p.flag) {
      v = within(q, v);
    }
    if (back && !(std::fabs(v - q.value) <= 1e-12 * std::fabs(q.value))) {
      sim::violation("tunable", "%s (%s) is %.17g after a round trip instead of %.17g",
                     names[i].c_str(), name_of(s->kind), v, q.value);
    }
    q.value = v;
  }
  if (p.extra == 1) {
    x.push_back(0.25);
    e.refused = true;
  } else if (p.extra == 2 && !x.empty()) {
    x.pop_back();
    e.refused = true;
  }
  if (e.refused) {
    e.after = s->ref;
  }
  x.shrink_to_fit();
  step(s, e, "set_tunable_params_values", [&](Thing *t) {
    t->h().set_tunable_params_values(x, p.flag);
    return -1;
  }, p.faults);
}

Effect effect_of(const Slot &s, const std::vector<std::pair<std::string, Parameter>> &params,
                 bool value, bool prior, bool if_exists, bool all_or_nothing = true) {
  Effect e;
  e.after = s.ref;
  bool all = !params.empty();
  for (const auto &p : params) {
    const auto it = e.after.find(p.first);
    if (it == e.after.end()) {
      all = false;
      continue;
    }
    if (value) {
      it->second.value = p.second.value;
    }
    if (prior) {
      it->second.prior = p.second.prior;
    }
  }
  (void)all_or_nothing;
  if (if_exists) {
    e.returns = all;
  } else if (!all && !params.empty()) {
    e.refused = true;
    e.after = s.ref;
  }
  return e;
}

constexpr int kOps = 22;
void apply(std::vector<Slot> *slots, const std::vector<Slot> &shared, const Plan &p) {
  Slot &s = (*slots)[p.slot % slots->size()];
  const auto &params = p.params;
  const std::vector<std::pair<std::string, Parameter>> one(params.begin(), params.begin() + 1);
  const std::string &key = one[0].first;
  const Parameter &param = one[0].second;
  // duplicates in a map: the first one stays
  ParameterStore store;
  Values values;
  std::vector<std::pair<std::string, Parameter>> unique;
  {
    for (const auto &x : params) {
      if (store.emplace(x.first, x.second).second) {
        unique.push_back(x);
      }
    }
    values = values_of(store);
  }
  switch (p.op % kOps) {
  case 0:
    return step(&s, effect_of(s, one, true, true, false), "set_param", [&](Thing *t) {
      t->h().set_param(key, param);
      return -1;
    }, p.faults);
  case 1:
    return step(&s, effect_of(s, one, true, false, false), "set_param (value)", [&](Thing *t) {
      t->h().set_param(key, param.value);
      return -1;
    }, p.faults);
  case 2:
    return step(&s, effect_of(s, one, true, false, false), "set_param_value", [&](Thing *t) {
      t->h().set_param_value(key, param.value);
      return -1;
    }, p.faults);
  case 3:
    return step(&s, effect_of(s, one, false, true, false), "set_prior", [&](Thing *t) {
      t->h().set_prior(key, param.prior);
      return -1;
    }, p.faults);
  case 4:
    return step(&s, effect_of(s, unique, true, true, false), "set_params", [&](Thing *t) {
      t->h().set_params(store);
      return -1;
    }, p.faults);
  case 5:
    return step(&s, effect_of(s, unique, true, true, true), "set_params_if_exists", [&](Thing *t) {
      t->h().set_params_if_exists(store);
      return -1;
    }, p.faults);
  case 6:
    return step(&s, effect_of(s, unique, true, false, false), "set_param_values", [&](Thing *t) {
      t->h().set_param_values(values);
      return -1;
    }, p.faults);
  case 7:
    return step(&s, effect_of(s, unique, true, false, true), "set_param_values_if_exists",
                [&](Thing *t) {
                  t->h().set_param_values_if_exists(values);
                  return -1;
                }, p.faults);
  case 8:
    return step(&s, effect_of(s, one, true, true, true), "set_param_if_exists",
                [&](Thing *t) { return static_cast<int>(t->set_one_if_exists(key, param)); },
                p.faults);
  case 9:
    return step(&s, effect_of(s, one, true, false, true), "set_param_value_if_exists",
                [&](Thing *t) { return static_cast<int>(t->set_value_if_exists(key, param.value)); },
                p.faults);
  case 10:
    return step(&s, effect_of(s, unique, true, true, true), "set_params_if_exists()",
                [&](Thing *t) { return static_cast<int>(t->set_some_if_exists(store)); }, p.faults);
  case 11:
    return step(&s, effect_of(s, unique, true, false, true), "set_param_values_if_exists()",
                [&](Thing *t) { return static_cast<int>(t->set_values_if_exists(values)); },
                p.faults);
  case 12:
  case 13:
  case 14:
    return tunables(&s, p);
  case 15: { // a copy has the same parameters and its own ones
    Slot copy;
    copy.kind = s.kind;
    copy.ref = s.ref;
    copy.thing = s.thing->clone();
    verify(copy, "copying");
    step(&copy, effect_of(copy, one, true, true, true), "set_param_if_exists (copy)",
         [&](Thing *t) { return static_cast<int>(t->set_one_if_exists(key, param)); }, false);
    verify(s, "changing a copy");
    if (p.flag) {
      s = std::move(copy);
    }
    return;
  }
  case 16: { // assignment between objects of a kind, with oneself too
    for (auto &o : *slots) {
      if (o.kind == s.kind && (&o != &s || p.flag)) {
        o.thing->assign(*s.thing);
        o.ref = s.ref;
        verify(o, "assignment");
        verify(s, "being assigned");
        return;
      }
    }
    return;
  }
  case 17: { // a copy of an object that all threads read
    const Slot &c = shared[p.other % shared.size()];
    s.kind = c.kind;
    s.ref = c.ref;
    s.thing = c.thing->clone();
    return verify(s, "copying a shared object");
  }
  case 18: { // moving
    std::unique_ptr<Thing> to = fresh_thing(s.kind);
    to->take(s.thing.get());
    s.thing = std::move(to);
    return verify(s, "moving");
  }
  case 19: { // the functions for stores
    const int form = static_cast<int>(p.extra);
    ParameterStore copy = s.ref;
    const auto &set = form < 3 ? one : unique;
    const bool value = form != 2, prior = form == 0 || form == 3 || form == 2;
    const Effect e = effect_of(s, set, value, prior, p.flag);
    bool refused = false;
    int r = -1;
    try {
      sim::AssertThrows throws;
      if (form == 0) {
        if (p.flag) {
          r = set_param_if_exists(key, param, &copy);
        } else {
          set_param(key, param, &copy);
        }
      } else if (form == 1) {
        if (p.flag) {
          r = set_param_value_if_exists(key, param.value, &copy);
        } else {
          set_param_value(key, param.value, &copy);
        }
      } else if (form == 2) {
        if (p.flag) {
          r = set_param_prior_if_exists(key, param.prior, &copy);
        } else {
          set_param_prior(key, param.prior, &copy);
        }
      } else if (form == 3) {
        if (p.flag) {
          r = set_params_if_exists(store, &copy);
        } else {
          set_params(store, &copy);
        }
      } else {
        if (p.flag) {
          r = set_param_values_if_exists(values, &copy);
        } else {
          set_param_values(values, &copy);
        }
      }
    } catch (const sim::AssertionFailed &) {
      refused = true;
    }
    if (refused != e.refused || (r >= 0 && r != e.returns)) {
      sim::violation("store", "a store (%s, form %d) %s", name_of(s.kind), form,
                     refused != e.refused ? "is refused or not" : "returns something else");
    }
    if (!refused) {
      expect_params(copy, e.after, s.kind, "setting in a store");
    } else if (copy.size() != s.ref.size()) {
      sim::violation("store", "a refused parameter is in the store");
    }
    // equality tells all of it
    for (const auto &x : copy) {
      const Parameter &old = s.ref.at(x.first);
      if ((x.second == old) != same(x.second, old) || (x.second != old) == same(x.second, old)) {
        sim::violation("equality", "%s: two parameters (%.17g %s, %.17g %s) are taken for %s",
                       x.first.c_str(), x.second.value, x.second.prior.get_name().c_str(),
                       old.value, old.prior.get_name().c_str(),
                       same(x.second, old) ? "different" : "the same");
      }
    }
    sim::evaluated(true, sim::mix(static_cast<std::uint64_t>(form), p.flag));
    return;
  }
  case 20: { // one that has it, of two
    for (auto &o : *slots) {
      if (o.kind == s.kind && &o != &s) {
        const Effect mine = effect_of(s, one, true, true, true);
        const Effect others = effect_of(o, one, true, true, true);
        const bool r = s.thing->set_in_any(key, param, o.thing.get());
        if (r != (mine.returns == 1)) {
          sim::violation("returns", "set_param_if_exists_in_any (%s) returns %d", name_of(s.kind), r);
        }
        // At least the first one that has it is set; the second may be.
        o.ref = others.after;
        verify(o, "set_param_if_exists_in_any");
        const ParameterStore now = s.thing->h().get_params();
        if (mine.after.count(key) && now.count(key) && same(now.at(key), mine.after.at(key))) {
          s.ref = mine.after;
        }
        verify(s, "set_param_if_exists_in_any");
        return;
      }
    }
    return;
  }
  default: { // printing
    const std::string text = s.thing->h().pretty_string();
    for (const auto &x : s.ref) {
      char want[128];
      std::snprintf(want, sizeof want, "{\"%s\", %.12e},", x.first.c_str(), x.second.value);
      if (text.find(want) == std::string::npos) {
        sim::violation("text", "%s is not in %s", want, text.c_str());
      }
    }
    verify(s, "printing");
  }
  }
}

Plan some_plan(int kind_hint) {
  Plan p;
  p.op = static_cast<int>(sim::w(kOps));
  p.slot = sim::w(3);
  p.other = sim::w(4);
  p.flag = sim::w(2);
  p.extra = sim::w(p.op == 19 ? 5 : 6);
  const std::size_t n = 1 + sim::w(4);
  for (std::size_t i = 0; i < n; ++i) {
    bool known;
    std::string k = some_name(kind_hint, &known);
    p.params.emplace_back(std::move(k), some_param());
  }
  if (sim::w(2)) {
    for (std::size_t i = 0; i < 5; ++i) {
      p.reals.push_back(some_value());
    }
  }
  return p;
}
} // namespace p14

void sim_run() {
  using namespace p14;
  std::cout.rdbuf(nullptr);
  std::cerr.rdbuf(nullptr);
  const std::size_t n_clients = 1 + sim::w(3);
  const bool memory = n_clients == 1 && sim::f(2);
  std::vector<Slot> shared(1 + sim::w(3));
  for (auto &s : shared) {
    s.kind = static_cast<int>(sim::w(kKinds + 2));
    s.thing = fresh_thing(s.kind);
    s.ref = s.thing->h().get_params();
    const auto &names = kNames[static_cast<std::size_t>(s.kind)];
    if (s.ref.size() != names.size()) {
      sim::violation("names", "a new %s has %zu parameters", name_of(s.kind), s.ref.size());
    }
    for (const auto &n : names) {
      if (!s.ref.count(n)) {
        sim::violation("names", "a new %s has no %s", name_of(s.kind), n.c_str());
      }
    }
    verify(s, "construction");
  }
  std::vector<std::vector<Slot>> slots(n_clients);
  std::vector<std::vector<Plan>> plans(n_clients);
  for (std::size_t i = 0; i < n_clients; ++i) {
    slots[i].resize(1 + sim::w(3));
    for (auto &s : slots[i]) {
      const Slot &c = shared[sim::w(shared.size())];
      s.kind = c.kind;
      s.ref = c.ref;
      s.thing = c.thing->clone();
    }
    const std::size_t n = 1 + sim::w(14);
    for (std::size_t j = 0; j < n; ++j) {
      plans[i].push_back(some_plan(shared[sim::w(shared.size())].kind));
      plans[i].back().faults = memory && sim::f(2);
    }
  }
  sim::begin(sim::random_sched());
  {
    const auto work = [&](std::size_t i) {
      for (const auto &p : plans[i]) {
        apply(&slots[i], shared, p);
        if (p.flag) {
          verify(shared[p.other % shared.size()], "reading a shared object");
        }
      }
    };
    std::vector<std::thread> threads;
    for (std::size_t i = 1; i < n_clients; ++i) {
      threads.emplace_back([&, i] { work(i); });
    }
    work(0);
    for (auto &t : threads) {
      t.join();
    }
  }
  sim::end();
  for (const auto &client : slots) {
    for (const auto &s : client) {
      verify(s, "at the end");
    }
  }
  for (const auto &s : shared) {
    verify(s, "at the end, shared");
  }
}
