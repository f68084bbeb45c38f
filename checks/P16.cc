// SHARDS: 5
// P16: covariance and mean functions of composed terms and features are what
// their definition says they are.
#include <albatross/GP>

#include "num.h"
#include "sim.h"

#include <array>
#include <atomic>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <thread>

#if SHARD == 0
extern const char *const kProperty, *const kRule, *const kRealCode, *const kStubs;
extern const std::vector<std::string> kAssumptions;
const char *const kProperty = "P16";
const char *const kRule =
    "one evaluation = one value, matrix, cross covariance, diagonal or mean of an expression, "
    "compared entry by entry with its definition; non-trivial = composed features (measured, "
    "variant, linear combination) are involved, or parameters have been changed since the "
    "expression was put together; distinct by expression, history and values";
const char *const kRealCode =
    "CovarianceFunction, MeanFunction and their sums and products, MeasurementOnly, ScalingTerm, "
    "Constant, Nugget, IndependentNoise, DefaultCaller (variant, measurement, linear "
    "combination, symmetric), compute_covariance_matrix, compute_mean_vector, sparse matrix "
    "times features, GaussianProcess prior and parameters; squared exponential, exponential, "
    "Matern and polynomial functions of three distances, call traces, state space grids";
const char *const kStubs = "ThreadPool (FIFO stub), pthread scheduling, the heap (simulated)";
const std::vector<std::string> kAssumptions = {
    "what a covariance function which tells measurements from other features says about a "
    "measurement of a linear combination is not defined and not asked"};
#endif

// --- features --------------------------------------------------------------------
namespace p16 {
using namespace albatross;
struct A {
  double v = 0.;
  bool operator==(const A &o) const { return v == o.v; }
};
struct B {
  double v = 0.;
  bool operator==(const B &o) const { return v == o.v; }
};
struct Atom {
  char type = 'A';
  double v = 0.;
  bool measured = false;
  std::array<double, 3> u = {0., 0., 0.};
};
using Flat = std::vector<std::pair<double, Atom>>;

using VAB = variant<A, B>;
using MV = variant<Measurement<A>, Measurement<B>>;
using LA = LinearCombination<A>;
using LV = LinearCombination<VAB>;
using VLB = variant<LA, B>;
using MLA = Measurement<LA>;
using MLV = Measurement<LV>;
using VML = variant<Measurement<LA>, Measurement<B>>;
using MA = Measurement<A>;
using MB = Measurement<B>;

inline double some_value() { return 0.5 * static_cast<double>(sim::range(-6, 6)); }
inline double some_coef() {
  return sim::w(6) == 5 ? 0. : 0.5 * static_cast<double>(sim::range(-5, 5));
}
inline void some(A &a) { a.v = some_value(); }
inline void some(B &b) { b.v = some_value(); }
// 'D' and 'V': what the built in functions of distances are for.
using V3 = Eigen::VectorXd;
inline void some(double &d) { d = some_value() + 0.01 * static_cast<double>(sim::range(-9, 9)); }
inline void some(V3 &v) {
  v.resize(3);
  for (Eigen::Index i = 0; i < 3; ++i) {
    v[i] = some_value();
  }
  if (v.norm() == 0.) {
    v[sim::w(3)] = 1.;
  }
}
template <typename X> void some(LinearCombination<X> &l);
template <typename X> void some(Measurement<X> &m);
template <typename X, typename Y> void some(variant<X, Y> &v) {
  if (sim::w(2)) {
    Y y;
    some(y);
    v = y;
  } else {
    X x;
    some(x);
    v = x;
  }
}
template <typename X> void some(Measurement<X> &m) { some(m.value); }
template <typename X> void some(LinearCombination<X> &l) {
  std::vector<X> xs(sim::w(12) == 11 ? 0 : 1 + sim::w(4));
  for (auto &x : xs) {
    some(x);
  }
  switch (sim::w(5)) {
  case 0:
    l = LinearCombination<X>(xs);
    return;
  case 1:
    if (xs.size() == 2) {
      l = linear_combination::difference(xs[0], xs[1]);
      return;
    }
    break;
  case 2:
    if (xs.size() == 2) {
      l = linear_combination::sum(xs[0], xs[1]);
      return;
    }
    if (xs.size() == 1) {
      l = linear_combination::to_linear_combination(xs[0]);
      return;
    }
    break;
  case 3:
    if (!xs.empty()) {
      l = linear_combination::mean(xs);
      return;
    }
  }
  Eigen::VectorXd c(static_cast<Eigen::Index>(xs.size()));
  for (Eigen::Index i = 0; i < c.size(); ++i) {
    c[i] = some_coef();
  }
  l = LinearCombination<X>(xs, c);
}
inline Flat flat(const double &d) { return {{1., {'D', d, false}}}; }
inline Flat flat(const V3 &v) { return {{1., {'V', 0., false, {v[0], v[1], v[2]}}}}; }
inline Flat flat(const A &a) { return {{1., {'A', a.v, false}}}; }
inline Flat flat(const B &b) { return {{1., {'B', b.v, false}}}; }
template <typename X> Flat flat(const LinearCombination<X> &l);
template <typename X> Flat flat(const Measurement<X> &m);
template <typename X, typename Y> Flat flat(const variant<X, Y> &v) {
  return v.template is<X>() ? flat(v.template get<X>()) : flat(v.template get<Y>());
}
template <typename X> Flat flat(const Measurement<X> &m) {
  Flat out = flat(m.value);
  for (auto &x : out) {
    x.second.measured = true;
  }
  return out;
}
template <typename X> Flat flat(const LinearCombination<X> &l) {
  Flat out;
  for (std::size_t i = 0; i < l.values.size(); ++i) {
    for (auto x : flat(l.values[i])) {
      x.first *= l.coefficients[static_cast<Eigen::Index>(i)];
      out.push_back(x);
    }
  }
  return out;
}
template <typename X> const char *name_of() { return __PRETTY_FUNCTION__; }
template <typename X> struct Basic {
  static constexpr bool kComposed = true, kMeasuredCombination = false;
};
template <> struct Basic<A> {
  static constexpr bool kComposed = false, kMeasuredCombination = false;
};
template <> struct Basic<B> : Basic<A> {};
template <> struct Basic<double> : Basic<A> {};
template <> struct Basic<V3> : Basic<A> {};
template <typename X> struct Basic<Measurement<LinearCombination<X>>> {
  static constexpr bool kComposed = true, kMeasuredCombination = true;
};
template <typename X, typename Y> struct Basic<variant<X, Y>> {
  static constexpr bool kComposed = true,
                        kMeasuredCombination =
                            Basic<X>::kMeasuredCombination || Basic<Y>::kMeasuredCombination;
};

// A term may fail: at the nth value from now on.
struct TermError {
  int tag;
};
inline std::atomic<int> g_fail_at{-1};
inline std::atomic<bool> g_failed{false};
inline void may_fail() {
  if (g_fail_at.load(std::memory_order_relaxed) >= 0 && g_fail_at.fetch_sub(1) == 0) {
    g_failed.store(true);
    throw TermError{7};
  }
}

// --- terms -------------------------------------------------------------------------
using Values = std::map<std::string, double>;
inline std::string key(const char *name, int i) { return name + std::to_string(i); }

// Their definitions, once more.
inline double field(double g, double l, double x, double y) {
  return g * g * std::exp(-std::fabs(x - y) / l);
}
inline double mix_aa(double g, double x, double y) { return g * g * (1. + std::cos(x - y)); }
inline double mix_ab(double g, double a, double b) {
  return g * g * std::sin(a + 0.3) * std::cos(0.7 * b);
}
inline double mix_bb(double g, double x, double y) {
  return g * g * (2. + std::sin(x) * std::sin(y));
}
inline double only_b(double g, double x, double y) {
  return g * g * std::exp(-(x - y) * (x - y));
}

template <int I> class FieldA : public CovarianceFunction<FieldA<I>> {
public:
  FieldA() {
    this->params_[key("field_gain", I)] = {1.5, PositivePrior()};
    this->params_[key("field_length", I)] = {2., PositivePrior()};
  }
  std::string name() const { return key("field", I); }
  double _call_impl(const A &x, const A &y) const {
    may_fail();
    return field(this->get_param_value(key("field_gain", I)),
                 this->get_param_value(key("field_length", I)), x.v, y.v);
  }
};
template <int I> class Mix : public CovarianceFunction<Mix<I>> {
public:
  Mix() { this->params_[key("mix_gain", I)] = {0.8, PositivePrior()}; }
  std::string name() const { return key("mix", I); }
  double _call_impl(const A &x, const A &y) const {
    may_fail();
    return mix_aa(gain(), x.v, y.v);
  }
  double _call_impl(const A &x, const B &y) const { return mix_ab(gain(), x.v, y.v); }
  double _call_impl(const B &x, const B &y) const { return mix_bb(gain(), x.v, y.v); }

private:
  double gain() const { return this->get_param_value(key("mix_gain", I)); }
};
class OnlyB : public CovarianceFunction<OnlyB> {
public:
  OnlyB() { only_b_gain = {1.2, PositivePrior()}; }
  ALBATROSS_DECLARE_PARAMS(only_b_gain)
  std::string name() const { return "only_b"; }
  double _call_impl(const B &x, const B &y) const { return only_b(only_b_gain.value, x.v, y.v); }
};
class Aware : public CovarianceFunction<Aware> {
public:
  Aware() { aware_gain = {1.1, PositivePrior()}; }
  ALBATROSS_DECLARE_PARAMS(aware_gain)
  std::string name() const { return "aware"; }
  double _call_impl(const A &x, const A &y) const { return f(x, y); }
  double _call_impl(const MA &x, const A &y) const { return 0.9 * f(x.value, y); }
  double _call_impl(const A &x, const MA &y) const { return 0.9 * f(x, y.value); }
  double _call_impl(const MA &x, const MA &y) const {
    return f(x.value, y.value) + (x.value == y.value ? 0.5 : 0.);
  }

private:
  double f(const A &x, const A &y) const { return field(aware_gain.value, 1., x.v, y.v); }
};
class ScaleA : public ScalingFunction {
public:
  ScaleA() { scale_a = {2., PositivePrior()}; }
  ALBATROSS_DECLARE_PARAMS(scale_a)
  std::string get_name() const override { return "scale_a"; }
  double _call_impl(const A &x) const { return scale_a.value + std::sin(x.v); }
};
class ScaleAB : public ScalingFunction {
public:
  ScaleAB() { scale_ab = {1.3, PositivePrior()}; }
  ALBATROSS_DECLARE_PARAMS(scale_ab)
  std::string get_name() const override { return "scale_ab"; }
  double _call_impl(const A &x) const { return scale_ab.value - 0.2 * x.v; }
  double _call_impl(const B &x) const { return scale_ab.value * x.v; }
};
class MeanA : public MeanFunction<MeanA> {
public:
  MeanA() { mean_a = {0.7, UninformativePrior()}; }
  ALBATROSS_DECLARE_PARAMS(mean_a)
  std::string name() const { return "mean_a"; }
  double _call_impl(const A &x) const { return mean_a.value + 0.5 * x.v; }
};
class MeanAB : public MeanFunction<MeanAB> {
public:
  MeanAB() { mean_ab = {-1.2, UninformativePrior()}; }
  ALBATROSS_DECLARE_PARAMS(mean_ab)
  std::string name() const { return "mean_ab"; }
  double _call_impl(const A &x) const { return mean_ab.value * x.v - 1.; }
  double _call_impl(const B &x) const { return mean_ab.value + x.v * x.v; }
};

// --- definitions ---------------------------------------------------------------------
using Maybe = std::optional<double>;
using Cov = std::function<Maybe(const Atom &, const Atom &, const Values &)>;
using Mean = std::function<Maybe(const Atom &, const Values &)>;

inline Cov d_field(int i) {
  return [i](const Atom &x, const Atom &y, const Values &p) -> Maybe {
    if (x.type != 'A' || y.type != 'A') {
      return {};
    }
    return field(p.at(key("field_gain", i)), p.at(key("field_length", i)), x.v, y.v);
  };
}
inline Cov d_mix(int i) {
  return [i](const Atom &x, const Atom &y, const Values &p) -> Maybe {
    const double g = p.at(key("mix_gain", i));
    if (x.type == y.type) {
      return x.type == 'A' ? mix_aa(g, x.v, y.v) : mix_bb(g, x.v, y.v);
    }
    return x.type == 'A' ? mix_ab(g, x.v, y.v) : mix_ab(g, y.v, x.v);
  };
}
inline Cov d_only_b() {
  return [](const Atom &x, const Atom &y, const Values &p) -> Maybe {
    if (x.type != 'B' || y.type != 'B') {
      return {};
    }
    return only_b(p.at("only_b_gain"), x.v, y.v);
  };
}
inline Cov d_aware() {
  return [](const Atom &x, const Atom &y, const Values &p) -> Maybe {
    if (x.type != 'A' || y.type != 'A') {
      return {};
    }
    const double f = field(p.at("aware_gain"), 1., x.v, y.v);
    if (x.measured && y.measured) {
      return f + (x.v == y.v ? 0.5 : 0.);
    }
    return x.measured || y.measured ? 0.9 * f : f;
  };
}
inline Cov d_constant() {
  return [](const Atom &, const Atom &, const Values &p) -> Maybe {
    return p.at("sigma_constant") * p.at("sigma_constant");
  };
}
inline Cov d_nugget() {
  return [](const Atom &x, const Atom &y, const Values &p) -> Maybe {
    if (x.type != y.type) {
      return {};
    }
    return x.v == y.v ? p.at("nugget_sigma") * p.at("nugget_sigma") : 0.;
  };
}
inline Cov d_noise() {
  return [](const Atom &x, const Atom &y, const Values &p) -> Maybe {
    if (x.type != 'A' || y.type != 'A') {
      return {};
    }
    const double s = p.at("sigma_independent_noise");
    return x.v == y.v ? s * s : 0.;
  };
}
inline Cov d_sum(Cov a, Cov b) {
  return [a, b](const Atom &x, const Atom &y, const Values &p) -> Maybe {
    const Maybe l = a(x, y, p), r = b(x, y, p);
    return l && r ? Maybe(*l + *r) : l ? l : r;
  };
}
inline Cov d_product(Cov a, Cov b) {
  return [a, b](const Atom &x, const Atom &y, const Values &p) -> Maybe {
    const Maybe l = a(x, y, p), r = b(x, y, p);
    return l && r ? Maybe(*l * *r) : l ? l : r;
  };
}
inline Cov d_measured(Cov a) {
  return [a](const Atom &x, const Atom &y, const Values &p) -> Maybe {
    const Maybe v = a({x.type, x.v, false}, {y.type, y.v, false}, p);
    return v ? Maybe(x.measured && y.measured ? *v : 0.) : v;
  };
}
inline double scaling(const Atom &x, const Values &p, bool both) {
  if (!both) {
    return x.type == 'A' ? p.at("scale_a") + std::sin(x.v) : 1.;
  }
  return x.type == 'A' ? p.at("scale_ab") - 0.2 * x.v : p.at("scale_ab") * x.v;
}
inline Cov d_scaled(bool both, Cov a) {
  return [a, both](const Atom &x, const Atom &y, const Values &p) -> Maybe {
    const Maybe v = a(x, y, p);
    return v ? Maybe(scaling(x, p, both) * scaling(y, p, both) * *v) : v;
  };
}
// Distances: 'e'uclidean, 'r'adial, 'a'ngular.
inline double distance(char metric, const Atom &x, const Atom &y) {
  if (x.type == 'D') {
    return std::fabs(x.v - y.v);
  }
  double xx = 0., yy = 0., xy = 0., dd = 0.;
  for (std::size_t i = 0; i < 3; ++i) {
    xx += x.u[i] * x.u[i];
    yy += y.u[i] * y.u[i];
    xy += x.u[i] * y.u[i];
    dd += (x.u[i] - y.u[i]) * (x.u[i] - y.u[i]);
  }
  switch (metric) {
  case 'e':
    return std::sqrt(dd);
  case 'r':
    return std::fabs(std::sqrt(xx) - std::sqrt(yy));
  default:
    return std::acos(std::max(-1., std::min(1., xy / std::sqrt(xx * yy))));
  }
}
inline Cov d_radial(const char *name, char metric) {
  const std::string n = name;
  return [n, metric](const Atom &x, const Atom &y, const Values &p) -> Maybe {
    const double d = distance(metric, x, y) / p.at(n + "_length_scale");
    const double s = p.at("sigma_" + n);
    if (n == "squared_exponential") {
      return s * s * std::exp(-d * d);
    }
    if (n == "exponential") {
      return s * s * std::exp(-d);
    }
    if (n == "matern_32") {
      return s * s * (1. + std::sqrt(3.) * d) * std::exp(-std::sqrt(3.) * d);
    }
    return s * s * (1. + std::sqrt(5.) * d + 5. * d * d / 3.) * std::exp(-std::sqrt(5.) * d);
  };
}
inline Cov d_polynomial(int order) {
  return [order](const Atom &x, const Atom &y, const Values &p) -> Maybe {
    double out = 0., power = 1.;
    for (int i = 0; i <= order; ++i) {
      const double s = p.at("sigma_polynomial_" + std::to_string(i));
      out += s * s * power;
      power *= x.v * y.v;
    }
    return out;
  };
}
inline Cov d_any_noise() {
  return [](const Atom &x, const Atom &y, const Values &p) -> Maybe {
    const double s = p.at("sigma_independent_noise");
    return x.v == y.v && x.u == y.u ? s * s : 0.;
  };
}
inline Cov d_nugget3() {
  return [](const Atom &x, const Atom &y, const Values &p) -> Maybe {
    return x.u == y.u ? p.at("nugget_sigma") * p.at("nugget_sigma") : 0.;
  };
}
inline Mean d_linear() {
  return [](const Atom &x, const Values &p) -> Maybe {
    return p.at("slope") * x.v + p.at("offset");
  };
}
inline Mean d_mean_a() {
  return [](const Atom &x, const Values &p) -> Maybe {
    return x.type == 'A' ? Maybe(p.at("mean_a") + 0.5 * x.v) : Maybe();
  };
}
inline Mean d_mean_ab() {
  return [](const Atom &x, const Values &p) -> Maybe {
    const double m = p.at("mean_ab");
    return x.type == 'A' ? m * x.v - 1. : m + x.v * x.v;
  };
}
inline Mean d_zero() {
  return [](const Atom &, const Values &) -> Maybe { return 0.; };
}
inline Mean d_sum(Mean a, Mean b) {
  return [a, b](const Atom &x, const Values &p) -> Maybe {
    const Maybe l = a(x, p), r = b(x, p);
    return l && r ? Maybe(*l + *r) : l ? l : r;
  };
}
inline Mean d_product(Mean a, Mean b) {
  return [a, b](const Atom &x, const Values &p) -> Maybe {
    const Maybe l = a(x, p), r = b(x, p);
    return l && r ? Maybe(*l * *r) : l ? l : r;
  };
}

// --- the worlds -----------------------------------------------------------------------
#define WORLD(...) WORLD_OF(A, __VA_ARGS__)
#define WORLD_OF(FEATURE, NAME, COV, DEF, MEAN, MEAN_DEF, AWARE)                                  \
  struct NAME {                                                                                   \
    using F = FEATURE;                                                                            \
    using C = std::decay_t<decltype(COV)>;                                                        \
    using M = std::decay_t<decltype(MEAN)>;                                                       \
    static constexpr bool kAware = AWARE;                                                         \
    static C cov() { return COV; }                                                                \
    static M mean() { return MEAN; }                                                              \
    static Cov cov_def() { return DEF; }                                                          \
    static Mean mean_def() { return MEAN_DEF; }                                                   \
  }

#if SHARD == 0
WORLD(W0, FieldA<0>() + Mix<0>(), d_sum(d_field(0), d_mix(0)), MeanA() + MeanAB(),
      d_sum(d_mean_a(), d_mean_ab()), false);
WORLD(W1, (FieldA<0>() + Constant(1.4)) * Mix<0>(),
      d_product(d_sum(d_field(0), d_constant()), d_mix(0)), MeanA() * MeanAB(),
      d_product(d_mean_a(), d_mean_ab()), false);
#elif SHARD == 1
WORLD(W2, Constant(1.4) + FieldA<0>() + measurement_only(IndependentNoise<A>(0.6)),
      d_sum(d_sum(d_constant(), d_field(0)), d_measured(d_noise())), MeanA(), d_mean_a(), true);
WORLD(W3, ScalingTerm<ScaleA>() * FieldA<0>() + Mix<0>(),
      d_sum(d_scaled(false, d_field(0)), d_mix(0)), ZeroMean() + MeanAB(),
      d_sum(d_zero(), d_mean_ab()), false);
#elif SHARD == 2
WORLD(W4, Mix<0>() * ScalingTerm<ScaleAB>() + Constant(1.4),
      d_sum(d_scaled(true, d_mix(0)), d_constant()), (MeanA() + MeanAB()) * MeanAB(),
      d_product(d_sum(d_mean_a(), d_mean_ab()), d_mean_ab()), false);
WORLD(W5, OnlyB() + FieldA<0>() + Nugget(), d_sum(d_sum(d_only_b(), d_field(0)), d_nugget()),
      MeanA() * MeanA() + MeanAB(), d_sum(d_product(d_mean_a(), d_mean_a()), d_mean_ab()), false);
#elif SHARD == 3
WORLD(W6, (Aware() + Constant(1.4)) * FieldA<1>() + OnlyB(),
      d_sum(d_product(d_sum(d_aware(), d_constant()), d_field(1)), d_only_b()),
      MeanAB() * ZeroMean() + MeanA(), d_sum(d_product(d_mean_ab(), d_zero()), d_mean_a()), true);
WORLD(W7, ScalingTerm<ScaleA>() * (FieldA<0>() * FieldA<1>()) + measurement_only(Mix<1>()) + Constant(1.4),
      d_sum(d_sum(d_scaled(false, d_product(d_field(0), d_field(1))), d_measured(d_mix(1))),
            d_constant()),
      ZeroMean(), d_zero(), true);
#else
using Eu = EuclideanDistance;
WORLD_OF(double, W8,
         SquaredExponential<Eu>(2., 1.5) + Exponential<Eu>(1.2, 0.8) * Polynomial<2>(0.5) +
             IndependentNoise<double>(0.3),
         d_sum(d_sum(d_radial("squared_exponential", 'e'),
                     d_product(d_radial("exponential", 'e'), d_polynomial(2))),
               d_any_noise()),
         LinearMean(), d_linear(), false);
WORLD_OF(double, W9,
         Matern32<Eu>(2., 1.5) * Matern52<Eu>(1.2, 0.8) + Polynomial<1>(0.4) +
             measurement_only(Constant(1.4)),
         d_sum(d_sum(d_product(d_radial("matern_32", 'e'), d_radial("matern_52", 'e')),
                     d_polynomial(1)),
               d_measured(d_constant())),
         LinearMean() + LinearMean(), d_sum(d_linear(), d_linear()), true);
WORLD_OF(V3, W10,
         SquaredExponential<RadialDistance>(2., 1.5) + Exponential<AngularDistance>(1.2, 0.8) +
             Matern32<Eu>(0.9, 1.1) * Matern52<RadialDistance>(1.7, 0.9) + Nugget(),
         d_sum(d_sum(d_sum(d_radial("squared_exponential", 'r'), d_radial("exponential", 'a')),
                     d_product(d_radial("matern_32", 'e'), d_radial("matern_52", 'r'))),
               d_nugget3()),
         ZeroMean(), d_zero(), false);
#endif

template <typename World> struct Machine {
  using W = World;
  using C = typename W::C;
  using M = typename W::M;
  struct Slot {
    std::unique_ptr<C> cov;
    std::unique_ptr<M> mean;
    Values values, means; // what the parameters should be
    bool changed = false;
    int pins = 0;
  };
  struct Job {
    std::thread thread;
    std::shared_ptr<Slot> slot;
    std::function<void()> judge;
  };

  const Cov cov_def = W::cov_def();
  const Mean mean_def = W::mean_def();
  std::vector<std::shared_ptr<Slot>> slots;
  std::vector<std::unique_ptr<Job>> jobs;
  std::vector<std::shared_ptr<ThreadPool>> pools;
  std::uint64_t history = 1;

  void say(const char *what) {
    sim::log("%s", what);
    history = sim::hash_bytes(what, strlen(what), history);
  }

  // --- expectations
  struct Want {
    double value = 0., size = 0.;
  };
  Want want(const Flat &x, const Flat &y, const Values &p) const {
    Want out;
    for (const auto &a : x) {
      for (const auto &b : y) {
        const Maybe v = cov_def(a.second, b.second, p);
        const double term = v ? a.first * b.first * *v : 0.;
        out.value += term;
        out.size += std::fabs(term);
      }
    }
    return out;
  }
  Want want(const Flat &x, const Values &p) const {
    Want out;
    for (const auto &a : x) {
      const Maybe v = mean_def(a.second, p);
      const double term = v ? a.first * *v : 0.;
      out.value += term;
      out.size += std::fabs(term);
    }
    return out;
  }
  static void same(const char *cls, const char *what, double got, const Want &want) {
    constexpr double tolerance = std::is_same<typename W::F, V3>::value ? 1e-6 : 1e-11;
    if (!(std::fabs(got - want.value) <= tolerance * (1. + want.size))) {
      sim::violation(cls, "%s is %.15g, its definition gives %.15g", what, got, want.value);
    }
  }
  template <typename X, typename Y>
  void same_matrix(const char *cls, const char *what, const Eigen::MatrixXd &got,
                   const std::vector<X> &xs, const std::vector<Y> &ys, const Values &p,
                   bool changed) {
    if (got.rows() != static_cast<Eigen::Index>(xs.size()) ||
        got.cols() != static_cast<Eigen::Index>(ys.size())) {
      sim::violation("shape", "%s of %zu and %zu features is %ldx%ld", what, xs.size(),
                     ys.size(), static_cast<long>(got.rows()), static_cast<long>(got.cols()));
    }
    for (std::size_t i = 0; i < xs.size(); ++i) {
      for (std::size_t j = 0; j < ys.size(); ++j) {
        same(cls, what, got(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)),
             want(flat(xs[i]), flat(ys[j]), p));
      }
    }
    sim::evaluated(changed || Basic<X>::kComposed || Basic<Y>::kComposed,
                   sim::mix(history, num::hash(got)));
  }

  template <typename X> static std::vector<X> features(std::size_t most) {
    std::vector<X> xs(sim::w(30) == 29 ? 8 + sim::w(40) : sim::w(most + 1));
    for (auto &x : xs) {
      some(x);
    }
    if (xs.size() > 1 && sim::w(3) == 2) {
      xs.back() = xs.front();
    }
    return xs;
  }
  ThreadPool *some_pool() {
    return pools.empty() || sim::w(2) ? nullptr : pools[sim::w(pools.size())].get();
  }
  Slot &some_slot() { return *slots[sim::w(slots.size())]; }

  // --- evaluations
  template <typename X, typename Y> void cross() {
    if constexpr ((Basic<X>::kMeasuredCombination || Basic<Y>::kMeasuredCombination) &&
                  W::kAware) {
      return;
    } else if constexpr (has_valid_caller<C, X, Y>::value) {
      Slot &s = some_slot();
      const C &k = *s.cov;
      sim::log("cross covariance of %s and %s", name_of<X>(), name_of<Y>());
      const auto xs = features<X>(4);
      const auto ys = features<Y>(4);
      switch (sim::w(4)) {
      case 0:
        for (const auto &x : xs) {
          for (const auto &y : ys) {
            const double got = k(x, y);
            same("value", "a covariance", got, want(flat(x), flat(y), s.values));
            sim::evaluated(s.changed || Basic<X>::kComposed || Basic<Y>::kComposed,
                           sim::mix(history, sim::hash_bytes(&got, sizeof got, 3)));
          }
        }
        break;
      case 1: // in a thread of its own
        if (jobs.size() < 3) {
          for (auto &slot : slots) {
            if (slot.get() == &s) {
              start(slot, [xs, ys](const C &c) { return c(xs, ys); }, xs, ys);
              break;
            }
          }
          return;
        }
        break;
      default: {
        ThreadPool *pool = some_pool();
        Eigen::MatrixXd got;
        if (sim::chance(sim::F, 1, 8)) {
          attempted("cross covariance", [&] { got = k(xs, ys, pool); });
        }
        got = k(xs, ys, pool);
        same_matrix("cross", "a cross covariance", got, xs, ys, s.values, s.changed);
      }
      }
      say("cross covariance");
    } else {
      // A term ignores what it is not defined for, it does not hide the others.
      X x;
      Y y;
      some(x);
      some(y);
      const Flat fx = flat(x), fy = flat(y);
      const bool combined = fx.size() != 1 || fy.size() != 1;
      if (!combined && cov_def(fx[0].second, fy[0].second, some_slot().values)) {
        sim::violation("undefined", "a covariance that is defined cannot be called");
      }
    }
  }
  template <typename X> void square() {
    if constexpr (Basic<X>::kMeasuredCombination && W::kAware) {
      return;
    } else if constexpr (has_valid_caller<C, X, X>::value) {
      Slot &s = some_slot();
      const C &k = *s.cov;
      sim::log("covariance of %s", name_of<X>());
      const auto xs = features<X>(7);
      switch (sim::w(6)) {
      case 0: {
        const Eigen::VectorXd got = k.diagonal(xs);
        if (got.size() != static_cast<Eigen::Index>(xs.size())) {
          sim::violation("shape", "a diagonal of the wrong size");
        }
        for (std::size_t i = 0; i < xs.size(); ++i) {
          same("diagonal", "a variance", got[static_cast<Eigen::Index>(i)],
               want(flat(xs[i]), flat(xs[i]), s.values));
        }
        sim::evaluated(s.changed || Basic<X>::kComposed, sim::mix(history, num::hash(got)));
        break;
      }
      case 1: { // as part of a model
        auto gp = gp_from_covariance_and_mean(k, *s.mean);
        if constexpr (has_valid_caller<M, X>::value && !Basic<X>::kComposed) {
          const auto prior = gp.prior(xs);
          const auto ms = as_measurements(xs);
          same_matrix("prior", "the covariance of a prior", prior.covariance, ms, ms, s.values,
                      s.changed);
          same_means("prior", prior.mean, ms, s.means, s.changed);
        }
        const Values p = other_values(s.values);
        for (const auto &v : p) {
          gp.set_param_value(v.first, v.second);
        }
        same_matrix("model", "the covariance of a model", gp.compute_covariance(xs), xs, xs, p,
                    true);
        same_matrix("model", "the covariance got from a model", gp.get_covariance()(xs), xs, xs,
                    p, true);
        break;
      }
      case 2:
        if (jobs.size() < 3) {
          for (auto &slot : slots) {
            if (slot.get() == &s) {
              start(slot, [xs](const C &c) { return c(xs); }, xs, xs);
              break;
            }
          }
          return;
        }
        break;
      default: {
        ThreadPool *pool = some_pool();
        Eigen::MatrixXd got;
        if (sim::chance(sim::F, 1, 8)) {
          attempted("covariance", [&] { got = k(xs, pool); });
        }
        got = k(xs, pool);
        same_matrix("matrix", "a covariance matrix", got, xs, xs, s.values, s.changed);
      }
      }
      say("covariance");
    } else {
      X x, y;
      some(x);
      some(y);
      const Flat fx = flat(x), fy = flat(y);
      const bool combined = fx.size() != 1 || fy.size() != 1;
      if (!combined && fx[0].second.type == fy[0].second.type &&
          cov_def(fx[0].second, fy[0].second, some_slot().values) && !is_variant<X>::value) {
        sim::violation("undefined", "a covariance that is defined cannot be called");
      }
    }
  }
  template <typename X>
  void same_means(const char *cls, const Eigen::VectorXd &got, const std::vector<X> &xs,
                  const Values &p, bool changed) {
    if (got.size() != static_cast<Eigen::Index>(xs.size())) {
      sim::violation("shape", "%ld means of %zu features", static_cast<long>(got.size()),
                     xs.size());
    }
    for (std::size_t i = 0; i < xs.size(); ++i) {
      same(cls, "a mean", got[static_cast<Eigen::Index>(i)], want(flat(xs[i]), p));
    }
    sim::evaluated(changed || Basic<X>::kComposed, sim::mix(history, num::hash(got)));
  }
  template <typename X> void mean() {
    if constexpr (has_valid_caller<M, X>::value) {
      Slot &s = some_slot();
      const M &m = *s.mean;
      sim::log("mean of %s", name_of<X>());
      const auto xs = features<X>(6);
      switch (sim::w(3)) {
      case 0:
        for (const auto &x : xs) {
          const double got = m(x);
          same("mean", "a mean", got, want(flat(x), s.means));
          sim::evaluated(s.changed || Basic<X>::kComposed,
                         sim::mix(history, sim::hash_bytes(&got, sizeof got, 4)));
        }
        break;
      case 1:
        same_means("mean", m(xs), xs, s.means, s.changed);
        break;
      default: {
        Eigen::VectorXd y(static_cast<Eigen::Index>(xs.size()));
        for (Eigen::Index i = 0; i < y.size(); ++i) {
          y[i] = sim::gauss();
        }
        Eigen::VectorXd got = y;
        const bool add = sim::w(2);
        if (add) {
          m.add_to(xs, &got);
        } else {
          m.remove_from(xs, &got);
        }
        got = add ? (got - y).eval() : (y - got).eval();
        same_means("mean", got, xs, s.means, s.changed);
      }
      }
      say("mean");
    } else {
      X x;
      some(x);
      const Flat fx = flat(x);
      if (fx.size() == 1 && mean_def(fx[0].second, some_slot().means) && !is_variant<X>::value) {
        sim::violation("undefined", "a mean that is defined cannot be called");
      }
    }
  }
  // A matrix times features is a vector of linear combinations of them.
  template <typename X, typename L> void mapped() {
    if constexpr (has_valid_caller<C, X, X>::value && has_valid_caller<C, L, L>::value) {
      Slot &s = some_slot();
      const C &k = *s.cov;
      std::vector<X> xs(1 + sim::w(5));
      for (auto &x : xs) {
        some(x);
      }
      const auto cols = static_cast<Eigen::Index>(xs.size());
      const auto rows = static_cast<Eigen::Index>(sim::range(1, 5));
      Eigen::MatrixXd m = Eigen::MatrixXd::Zero(rows, cols);
      for (Eigen::Index i = 0; i < rows; ++i) {
        for (Eigen::Index j = 0; j < cols; ++j) {
          m(i, j) = sim::w(2) ? some_coef() : 0.;
        }
      }
      std::vector<L> mixed;
      if (sim::w(2)) {
        const Eigen::SparseMatrix<double> sparse = m.sparseView();
        mixed = sparse * xs;
      } else {
        const Eigen::SparseMatrix<double, Eigen::RowMajor> sparse = m.sparseView();
        mixed = sparse * xs;
      }
      const Eigen::MatrixXd plain = k(xs);
      const Eigen::MatrixXd want = m * plain * m.transpose();
      const double size =
          1. + (m.cwiseAbs() * plain.cwiseAbs() * m.transpose().cwiseAbs()).maxCoeff();
      const Eigen::MatrixXd got = k(mixed, some_pool());
      num::expect_close("map", "covariance of a matrix times features", got, want, 1e-11, size);
      num::expect_close("map", "covariance of features and a matrix times features",
                        k(xs, mixed, some_pool()), plain * m.transpose(), 1e-11, size);
      if constexpr (has_valid_caller<M, X>::value && has_valid_caller<M, L>::value) {
        const Eigen::VectorXd mean = (*s.mean)(xs);
        num::expect_close("map", "mean of a matrix times features", (*s.mean)(mixed), m * mean,
                          1e-11, 1. + (m.cwiseAbs() * mean.cwiseAbs()).maxCoeff());
      }
      sim::evaluated(true, sim::mix(history, num::hash(got)));
      sim::probe("matrix times features");
      say("matrix times features");
    }
  }
  template <typename Op> void attempted(const char *what, const Op &op) {
    bool done = false;
    if (jobs.empty() && sim::f(2)) {
      g_failed.store(false);
      g_fail_at.store(static_cast<int>(sim::f(std::uint64_t(1) << sim::f(8))));
      try {
        op();
        done = true;
      } catch (const TermError &e) {
        if (e.tag != 7) {
          sim::violation("error", "%s throws something else than its term", what);
        }
      }
      g_fail_at.store(-1);
      const bool failed = g_failed.exchange(false);
      if (failed) {
        sim::fault_fired("throwing term");
      }
      if (failed == done) {
        sim::violation("error", "the error of a term %s out of %s",
                       failed ? "does not come" : "comes without need", what);
      }
      return;
    }
    sim::arm_alloc_fault(sim::f(std::uint64_t(1) << sim::f(9)), true);
    try {
      op();
      done = true;
    } catch (const std::bad_alloc &) {
    }
    const bool fired = sim::alloc_fault_fired();
    sim::disarm_alloc_fault();
    if (fired) {
      sim::fault_fired("alloc");
    } else if (!done) {
      sim::violation("error", "%s runs out of memory without need", what);
    }
  }

  // --- threads
  template <typename Op, typename X, typename Y>
  void start(std::shared_ptr<Slot> s, const Op &op, const std::vector<X> &xs,
             const std::vector<Y> &ys) {
    std::unique_ptr<Job> j(new Job());
    j->slot = s;
    ++s->pins;
    const C *c = s->cov.get();
    auto got = std::make_shared<Eigen::MatrixXd>();
    Eigen::MatrixXd *out = got.get();
    const Values p = s->values;
    const bool changed = s->changed;
    j->judge = [this, got, xs, ys, p, changed] {
      same_matrix("thread", "a covariance in another thread", *got, xs, ys, p, changed);
    };
    j->thread = std::thread([c, op, out] {
      Eigen::MatrixXd m = op(*c);
      sim::Quiet quiet;
      *out = std::move(m);
    });
    jobs.push_back(std::move(j));
    say("start a thread");
  }
  void join() {
    if (jobs.empty()) {
      return;
    }
    const std::size_t i = sim::w(jobs.size());
    std::unique_ptr<Job> j = std::move(jobs[i]);
    jobs.erase(jobs.begin() + static_cast<long>(i));
    j->thread.join();
    --j->slot->pins;
    j->judge();
    say("join");
  }

  // --- changes
  static Values read(const ParameterStore &store) {
    Values out;
    for (const auto &p : store) {
      out[p.first] = p.second.value;
    }
    return out;
  }
  static Values other_values(const Values &from) {
    Values out;
    for (const auto &v : from) {
      if (sim::w(2)) {
        out[v.first] = 0.25 * static_cast<double>(sim::range(1, 10));
      } else {
        out[v.first] = v.second;
      }
    }
    return out;
  }
  template <typename T> static void change(T &t, Values &values) {
    const Values to = other_values(values);
    switch (sim::w(4)) {
    case 0:
      for (const auto &v : to) {
        t.set_param_value(v.first, v.second);
      }
      break;
    case 1: {
      ParameterStore store = t.get_params();
      for (const auto &v : to) {
        store[v.first].value = v.second;
      }
      t.set_params(store);
      break;
    }
    case 2:
      for (const auto &v : to) {
        t.set_param(v.first, Parameter(v.second, UninformativePrior()));
      }
      break;
    default: {
      std::map<std::string, double> some;
      for (const auto &v : to) {
        if (v.second != values[v.first]) {
          some[v.first] = v.second;
        }
      }
      t.set_param_values(some);
    }
    }
    values = to;
  }
  void create() {
    auto s = std::make_shared<Slot>();
    s->cov.reset(new C(W::cov()));
    s->mean.reset(new M(W::mean()));
    s->values = read(s->cov->get_params());
    s->means = read(s->mean->get_params());
    slots.push_back(s);
    say("create");
  }
  void modify() {
    const std::size_t i = sim::w(slots.size());
    Slot &s = *slots[i];
    switch (sim::w(6)) {
    case 0:
    case 1:
      if (!s.pins) {
        change(*s.cov, s.values);
        change(*s.mean, s.means);
        s.changed = true;
        say("change parameters");
      }
      break;
    case 2: { // a copy lives its own life
      auto n = std::make_shared<Slot>();
      n->cov.reset(new C(*s.cov));
      n->mean.reset(new M(*s.mean));
      n->values = s.values;
      n->means = s.means;
      n->changed = s.changed;
      slots.push_back(n);
      say("copy");
      break;
    }
    case 3: {
      Slot &o = some_slot();
      if (!s.pins) {
        *s.cov = *o.cov;
        *s.mean = *o.mean;
        s.values = o.values;
        s.means = o.means;
        s.changed = o.changed;
        say("assign");
      }
      break;
    }
    case 4: // as terms of something else
      if constexpr (std::is_same<typename W::F, A>::value) {
        compose(s);
      }
      break;
    default:
      if (!s.pins && slots.size() > 1) {
        slots.erase(slots.begin() + static_cast<long>(i));
        say("destroy");
      }
    }
  }
  // An expression has copies of its terms.
  void compose(Slot &s) {
    std::unique_ptr<C> c(new C(*s.cov));
    const auto sum = *c + OtherTerm();
    const auto product = *c * OtherTerm();
    Values moved = s.values;
    change(*c, moved);
    c.reset();
    const auto xs = features<A>(4);
    for (const auto &x : xs) {
      for (const auto &y : xs) {
        Want w = want(flat(x), flat(y), s.values);
        const double other = field(1.7, 0.9, x.v, y.v);
        Want in_sum = w, in_product = w;
        in_sum.value += other;
        in_sum.size += other;
        in_product.value *= other;
        in_product.size *= other;
        same("compose", "a sum", sum(x, y), in_sum);
        same("compose", "a product", product(x, y), in_product);
        same("compose", "a measured sum", sum(x, as_measurement(y)),
             plus(want(flat(x), flat(as_measurement(y)), s.values), other));
      }
    }
    if (read(sum.get_params()) != s.values || read(product.get_params()) != s.values) {
      sim::violation("compose", "an expression has other parameters than its terms");
    }
    sim::evaluated(true, sim::mix(history, 77));
    say("compose");
  }
  static Want plus(Want w, double other) {
    w.value += other;
    w.size += other;
    return w;
  }
  class OtherTerm : public CovarianceFunction<OtherTerm> {
  public:
    OtherTerm() {}
    std::string name() const { return "other"; }
    double _call_impl(const A &x, const A &y) const { return field(1.7, 0.9, x.v, y.v); }
  };
  void check_params() {
    for (const auto &s : slots) {
      if (read(s->cov->get_params()) != s->values || read(s->mean->get_params()) != s->means) {
        sim::violation("parameters", "an expression does not have the parameters it was given");
      }
    }
  }

  // The lines of a trace start with the value itself.
  template <typename X, typename Y> void trace() {
    if constexpr ((Basic<X>::kMeasuredCombination || Basic<Y>::kMeasuredCombination) &&
                  W::kAware) {
      return;
    } else {
      Slot &s = some_slot();
      X x;
      Y y;
      some(x);
      some(y);
      const auto lines = s.cov->call_trace().get_trace(x, y);
      if (lines.size() < 3) {
        sim::violation("trace", "a trace of %zu lines", lines.size());
      }
      if constexpr (has_valid_caller<C, X, Y>::value) {
        const Want w = want(flat(x), flat(y), s.values);
        char *end = nullptr;
        const double got = std::strtod(lines[0].value.c_str(), &end);
        if (*end || !(std::fabs(got - w.value) <= 1e-5 * (1. + w.size))) {
          sim::violation("trace", "the trace of %.8g says %s", w.value, lines[0].value.c_str());
        }
      } else if (lines[0].value != "UNDEFINED") {
        sim::violation("trace", "the trace of an undefined value says %s",
                       lines[0].value.c_str());
      }
      // Values of direct parts of a sum or product make it up.
      const char op = lines[1].value.size() > 2 ? lines[1].value[2] : ' ';
      if (op != '+' && op != '*') {
        sim::violation("trace", "a part without operator: %s", lines[1].value.c_str());
      }
      double total = op == '+' ? 0. : 1., size = 1.;
      int parts = 0;
      for (std::size_t i = 1; i < lines.size(); ++i) {
        const std::string &v = lines[i].value;
        if (v.size() < 5 || v[2] != op || v.compare(0, 2, " |") != 0) {
          if (v.compare(0, 4, " |  ") != 0 && v.compare(0, 2, " |") != 0) {
            sim::violation("trace", "a part without margin: %s", v.c_str());
          }
          continue;
        }
        ++parts;
        if (v.find("UNDEFINED") == std::string::npos) {
          const double part = std::strtod(v.c_str() + 4, nullptr);
          total = op == '+' ? total + part : total * part;
          size = op == '+' ? size + std::fabs(part) : size * (1. + std::fabs(part));
        }
      }
      if (parts != 2) {
        sim::violation("trace", "%d direct parts", parts);
      }
      if constexpr (has_valid_caller<C, X, Y>::value && !Basic<X>::kComposed &&
                    !Basic<Y>::kComposed) {
        const Want w = want(flat(x), flat(y), s.values);
        if (!(std::fabs(total - w.value) <= 1e-4 * (size + w.size))) {
          sim::violation("trace", "the parts of %.8g make %.8g", w.value, total);
        }
      }
      sim::evaluated(s.changed, sim::mix(history, lines.size()));
      say("trace");
    }
  }
  // The grids of the terms of a sum or product, one after the other.
  void grid() {
    if constexpr (std::is_same<typename W::F, double>::value &&
                  has_valid_ssr_impl<C, double>::value) {
      Slot &s = some_slot();
      std::vector<double> xs(1 + sim::w(5));
      for (auto &x : xs) {
        some(x);
      }
      const std::vector<double> got = s.cov->state_space_representation(xs);
      const double lo = *std::min_element(xs.begin(), xs.end());
      const double hi = *std::max_element(xs.begin(), xs.end());
      std::size_t at = 0;
      for (const auto &term : {std::make_pair("squared_exponential", 10.),
                               std::make_pair("exponential", 20.)}) {
        const double l = s.values.at(std::string(term.first) + "_length_scale");
        const auto n = static_cast<std::size_t>(
            std::max(3., std::ceil(term.second * (hi - lo) / l)));
        for (std::size_t i = 0; i < n; ++i, ++at) {
          const double want =
              lo + (hi - lo) * static_cast<double>(i) / static_cast<double>(n - 1);
          if (at >= got.size() || !(std::fabs(got[at] - want) <= 1e-9 * (1. + hi - lo))) {
            sim::violation("grid", "point %zu of the grid of %s is %.9g instead of %.9g", i,
                           term.first, at < got.size() ? got[at] : -1., want);
          }
        }
      }
      if (at != got.size()) {
        sim::violation("grid", "a grid of %zu points instead of %zu", got.size(), at);
      }
      sim::evaluated(s.changed,
                     sim::mix(history, sim::hash_bytes(got.data(), got.size() * sizeof(double), 5)));
      say("grid");
    }
  }

  using Op = void (Machine::*)();
  static std::vector<Op> operations(const A &) {
    return std::vector<Op>{
        &Machine::template square<A>,          &Machine::template square<B>,
        &Machine::template square<MA>,         &Machine::template square<MB>,
        &Machine::template square<VAB>,        &Machine::template square<MV>,
        &Machine::template square<LA>,         &Machine::template square<LV>,
        &Machine::template square<MLA>,        &Machine::template square<MLV>,
        &Machine::template square<VLB>,        &Machine::template square<VML>,
        &Machine::template cross<A, B>,        &Machine::template cross<A, MA>,
        &Machine::template cross<MA, A>,       &Machine::template cross<MB, A>,
        &Machine::template cross<A, VAB>,      &Machine::template cross<VAB, B>,
        &Machine::template cross<MV, A>,       &Machine::template cross<MA, MV>,
        &Machine::template cross<VAB, MV>,     &Machine::template cross<LA, A>,
        &Machine::template cross<B, LA>,       &Machine::template cross<LA, MA>,
        &Machine::template cross<LV, A>,       &Machine::template cross<LV, MB>,
        &Machine::template cross<MLA, A>,      &Machine::template cross<MA, MLA>,
        &Machine::template cross<MLA, LA>,     &Machine::template cross<MLV, LA>,
        &Machine::template cross<LA, LV>,      &Machine::template cross<VLB, A>,
        &Machine::template cross<VML, VLB>,    &Machine::template cross<MLA, B>,
        &Machine::template cross<VAB, LV>,     &Machine::template mean<A>,
        &Machine::template mean<B>,            &Machine::template mean<MA>,
        &Machine::template mean<VAB>,          &Machine::template mean<MV>,
        &Machine::template mean<LA>,           &Machine::template mean<LV>,
        &Machine::template mean<MLA>,          &Machine::template mean<MLV>,
        &Machine::template mean<VML>,          &Machine::template trace<A, A>,
        &Machine::template trace<MA, B>,       &Machine::template trace<LV, VAB>,
                 &Machine::template mapped<A, LA>,
        &Machine::template mapped<LA, LA>,     &Machine::template mapped<VAB, LV>};
  }
  template <typename F> static std::vector<Op> operations(const F &) {
    using MF = Measurement<F>;
    using LF = LinearCombination<F>;
    return std::vector<Op>{
        &Machine::template square<F>,    &Machine::template square<MF>,
        &Machine::template square<LF>,   &Machine::template cross<F, MF>,
        &Machine::template cross<MF, F>, &Machine::template cross<LF, F>,
        &Machine::template cross<MF, LF>, &Machine::template mean<F>,
        &Machine::template mean<MF>,     &Machine::template mean<LF>,
        &Machine::template mapped<F, LF>, &Machine::template mapped<LF, LF>,
        &Machine::template trace<F, MF>, &Machine::grid};
  }

  void run() {
    const auto ops = operations(typename W::F());
    const auto n_pools = sim::w(3);
    for (std::uint64_t i = 0; i < n_pools; ++i) {
      pools.push_back(make_shared_thread_pool(1 + sim::w(4)));
    }
    create();
    const int n = static_cast<int>(sim::range(5, 40));
    for (int i = 0; i < n; ++i) {
      switch (sim::w(8)) {
      case 0:
        if (slots.size() < 4) {
          create();
        }
        break;
      case 1:
      case 2:
        modify();
        check_params();
        break;
      case 3:
        join();
        break;
      default:
        (this->*ops[sim::w(ops.size())])();
      }
    }
    while (!jobs.empty()) {
      join();
    }
    check_params();
    pools.clear();
  }
};

template <typename World> void play() {
  sim::SchedConfig c = sim::random_sched();
  c.step_cap = 300000000;
  sim::begin(c);
  {
    Machine<World> m;
    m.run();
  }
  sim::end();
}
void worlds0();
void worlds1();
void worlds2();
void worlds3();
void worlds4();
#if SHARD == 0
void worlds0() { sim::w(2) ? play<W1>() : play<W0>(); }
#elif SHARD == 1
void worlds1() { sim::w(2) ? play<W3>() : play<W2>(); }
#elif SHARD == 2
void worlds2() { sim::w(2) ? play<W5>() : play<W4>(); }
#elif SHARD == 3
void worlds3() { sim::w(2) ? play<W7>() : play<W6>(); }
#else
void worlds4() {
  switch (sim::w(3)) {
  case 0:
    return play<W8>();
  case 1:
    return play<W9>();
  default:
    return play<W10>();
  }
}
#endif
} // namespace p16

#if SHARD == 0
void sim_run() {
  switch (sim::w(5)) {
  case 4:
    return p16::worlds4();
  case 0:
    return p16::worlds0();
  case 1:
    return p16::worlds1();
  case 2:
    return p16::worlds2();
  default:
    return p16::worlds3();
  }
}
#endif
