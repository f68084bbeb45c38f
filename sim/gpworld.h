// A small world of Gaussian process observations shared by the workloads: real
// covariance and mean functions for two kinds of features, and an independent
// dense description of the same prior.
#pragma once
#include <albatross/GP>
#include <albatross/CovarianceFunctions>

#include "num.h"
#include "sim.h"

namespace gpw {
using namespace albatross;

// Called by every user supplied function of this world; P20 makes it throw.
#ifdef GPW_TICK
void tick();
#else
inline void tick() {}
#endif

// A second kind of observation: a weighted pair of field values.
struct Pair {
  double a = 0., b = 0.;
  bool operator==(const Pair &o) const { return a == o.a && b == o.b; }
  template <class Archive> void serialize(Archive &ar) { ar(a, b); }
};
constexpr double kPairB = -0.5;

inline double field_k(double s, double l, double x, double y) {
  const double d = (x - y) / l;
  return s * s * std::exp(-0.5 * d * d);
}
inline double drift_k(double s, double l, double x, double y) {
  return s * s * std::exp(-std::fabs(x - y) / l);
}

class Field : public CovarianceFunction<Field> {
public:
  Field() {
    field_sigma = {1.2, PositivePrior()};
    field_length = {1.5, PositivePrior()};
  }
  ALBATROSS_DECLARE_PARAMS(field_sigma, field_length)
  std::string name() const { return "field"; }
  double k(double x, double y) const {
    tick();
    return field_k(field_sigma.value, field_length.value, x, y);
  }
  double _call_impl(const double &x, const double &y) const { return k(x, y); }
  double _call_impl(const double &x, const Pair &y) const {
    return k(x, y.a) + kPairB * k(x, y.b);
  }
  double _call_impl(const Pair &x, const Pair &y) const {
    return k(x.a, y.a) + kPairB * (k(x.a, y.b) + k(x.b, y.a)) +
           kPairB * kPairB * k(x.b, y.b);
  }
};

// Noise that is correlated between measurements.
class Drift : public CovarianceFunction<Drift> {
public:
  Drift() {
    drift_sigma = {0.4, PositivePrior()};
    drift_length = {1., PositivePrior()};
  }
  ALBATROSS_DECLARE_PARAMS(drift_sigma, drift_length)
  std::string name() const { return "drift"; }
  double k(double x, double y) const {
    tick();
    return drift_k(drift_sigma.value, drift_length.value, x, y);
  }
  double _call_impl(const double &x, const double &y) const { return k(x, y); }
  double _call_impl(const double &x, const Pair &y) const {
    return k(x, y.a + y.b);
  }
  double _call_impl(const Pair &x, const Pair &y) const {
    return k(x.a + x.b, y.a + y.b);
  }
};

struct Trend : public MeanFunction<Trend> {
  Trend() {
    trend_offset = {0.7, FixedPrior()};
    trend_slope = {-0.3, FixedPrior()};
  }
  ALBATROSS_DECLARE_PARAMS(trend_offset, trend_slope)
  std::string name() const { return "trend"; }
  double m(double x) const {
    tick();
    return trend_offset.value + trend_slope.value * x;
  }
  double _call_impl(const double &x) const { return m(x); }
  double _call_impl(const Pair &x) const { return m(x.a) + kPairB * m(x.b); }
};

using Mixed = variant<double, Pair>;

// --- the reference ----------------------------------------------------------
struct Hyper {
  double fs = 1.2, fl = 1.5, ds = 0.4, dl = 1., off = 0.7, slope = -0.3,
         indep = 0.2;
  bool has_indep = true, has_drift = false, has_trend = false;
};
struct Obs {
  bool pair = false;
  double a = 0., b = 0.;
  bool meas = true;
  double mean = 0., var = 0.;
};
inline bool same_place(const Obs &x, const Obs &y) {
  return x.pair == y.pair && x.a == y.a && (!x.pair || x.b == y.b);
}
inline double ref_k(const Hyper &h, const Obs &x, const Obs &y) {
  const double wx[2] = {1., x.pair ? kPairB : 0.};
  const double wy[2] = {1., y.pair ? kPairB : 0.};
  const double px[2] = {x.a, x.b}, py[2] = {y.a, y.b};
  double v = 0.;
  for (int i = 0; i < 2; ++i) {
    for (int j = 0; j < 2; ++j) {
      v += wx[i] * wy[j] * field_k(h.fs, h.fl, px[i], py[j]);
    }
  }
  if (h.has_indep) {
    if (x.meas && y.meas && !x.pair && !y.pair && same_place(x, y)) {
      v += h.indep * h.indep;
    }
  }
  if (h.has_drift && x.meas && y.meas) {
    v += drift_k(h.ds, h.dl, x.pair ? x.a + x.b : x.a,
                 y.pair ? y.a + y.b : y.a);
  }
  return v;
}
inline double ref_m(const Hyper &h, const Obs &x) {
  if (!h.has_trend) {
    return 0.;
  }
  const auto m = [&](double p) { return h.off + h.slope * p; };
  return m(x.a) + (x.pair ? kPairB * m(x.b) : 0.);
}
inline Eigen::MatrixXd ref_cov(const Hyper &h, const std::vector<Obs> &x,
                        const std::vector<Obs> &y) {
  Eigen::MatrixXd k(x.size(), y.size());
  for (std::size_t i = 0; i < x.size(); ++i) {
    for (std::size_t j = 0; j < y.size(); ++j) {
      k(i, j) = ref_k(h, x[i], y[j]);
    }
  }
  return k;
}
inline Mixed as_mixed(const Obs &o) {
  return o.pair ? Mixed(Pair{o.a, o.b}) : Mixed(o.a);
}
inline std::vector<double> as_doubles(const std::vector<Obs> &obs) {
  std::vector<double> out;
  for (const auto &o : obs) {
    out.push_back(o.a);
  }
  return out;
}
inline std::vector<Pair> as_pairs(const std::vector<Obs> &obs) {
  std::vector<Pair> out;
  for (const auto &o : obs) {
    out.push_back(Pair{o.a, o.b});
  }
  return out;
}
inline std::vector<Mixed> as_mixeds(const std::vector<Obs> &obs) {
  std::vector<Mixed> out;
  for (const auto &o : obs) {
    out.push_back(as_mixed(o));
  }
  return out;
}
inline MarginalDistribution targets_of(const std::vector<Obs> &obs) {
  Eigen::VectorXd m(obs.size()), v(obs.size());
  for (std::size_t i = 0; i < obs.size(); ++i) {
    m[i] = obs[i].mean;
    v[i] = obs[i].var;
  }
  return MarginalDistribution(m, v);
}
// 0: doubles, 1: pairs, 2: mixed
inline int kind_of(const std::vector<Obs> &obs, bool force_mixed) {
  bool any_pair = false, any_double = false;
  for (const auto &o : obs) {
    (o.pair ? any_pair : any_double) = true;
  }
  if (force_mixed || (any_pair && any_double)) {
    return 2;
  }
  return any_pair ? 1 : 0;
}


} // namespace gpw
