// Small numeric helpers shared by the workloads.
#pragma once
#include <Eigen/Dense>
#include <cmath>
#include <cstring>
#include <string>
#include "sim.h"

namespace num {

// |got - want| <= tol * (1 + scale) entry by entry, NaN and shape count as
// differences.  Returns "" when equal.
inline std::string diff(const Eigen::MatrixXd &got, const Eigen::MatrixXd &want,
                        double tol, double scale = 1.) {
  char buf[200];
  if (got.rows() != want.rows() || got.cols() != want.cols()) {
    std::snprintf(buf, sizeof buf, "shape %ldx%ld, expected %ldx%ld",
                  (long)got.rows(), (long)got.cols(), (long)want.rows(),
                  (long)want.cols());
    return buf;
  }
  for (Eigen::Index c = 0; c < got.cols(); ++c) {
    for (Eigen::Index r = 0; r < got.rows(); ++r) {
      const double g = got(r, c), w = want(r, c);
      if (!(std::fabs(g - w) <= tol * (scale + std::fabs(w)))) {
        std::snprintf(buf, sizeof buf, "entry (%ld,%ld) is %.15g, expected %.15g",
                      (long)r, (long)c, g, w);
        return buf;
      }
    }
  }
  return "";
}

inline void expect_close(const char *cls, const std::string &what,
                         const Eigen::MatrixXd &got,
                         const Eigen::MatrixXd &want, double tol,
                         double scale = 1.) {
  const std::string d = diff(got, want, tol, scale);
  if (!d.empty()) {
    sim::violation(cls, "%s: %s", what.c_str(), d.c_str());
  }
}

inline bool same_bits(const Eigen::MatrixXd &a, const Eigen::MatrixXd &b) {
  return a.rows() == b.rows() && a.cols() == b.cols() &&
         (a.size() == 0 ||
          std::memcmp(a.data(), b.data(), sizeof(double) * a.size()) == 0);
}

inline std::uint64_t hash(const Eigen::MatrixXd &a, std::uint64_t h = 7) {
  return sim::hash_bytes(a.data(), sizeof(double) * a.size(), h);
}

// Fisher-Yates from the workload (or another) stream.
template <typename T>
void shuffle(std::vector<T> &v, sim::Stream s = sim::W) {
  for (std::size_t i = 0; i + 1 < v.size(); ++i) {
    const std::size_t j = i + sim::pick(s, v.size() - i);
    std::swap(v[i], v[j]);
  }
}

} // namespace num
