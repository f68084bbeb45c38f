// P15: random draws have the distribution they are asked for and depend on
// nothing but their generator.
#include <albatross/Core>
#include <albatross/Dataset>
#include <albatross/Evaluation>
#include <albatross/Indexing>
#include <albatross/utils/RandomUtils>

#include "num.h"
#include "sim.h"

#include <memory>
#include <random>
#include <sstream>
#include <thread>

extern const char *const kProperty, *const kRule, *const kRealCode, *const kStubs;
extern const std::vector<std::string> kAssumptions;
const char *const kProperty = "P15";
const char *const kRule =
    "one evaluation = one draw (or series of draws) judged by its exact constraints and by "
    "the distribution it must have, and made again alone with the same generator; "
    "non-trivial = more than one outcome was possible; distinct by kind, sizes and result";
const char *const kRealCode =
    "randint_without_replacement, random_without_replacement, random_fill, gaussian_fill, "
    "random_covariance_matrix, random_multivariate_normal, random_sparse_matrix, "
    "score::detail::draw_mvn, antithetic_sample, energy_score, Eigen decompositions";
const char *const kStubs =
    "pthread scheduling and the heap (simulated); generators are seeded by the simulator; "
    "distributions given by the caller are scripted";
const std::vector<std::string> kAssumptions = {
    "the generator is libstdc++'s std::default_random_engine; frequencies are judged with "
    "an error probability below 1e-13 for each of them"};

namespace p15 {
using namespace albatross;
using Gen = std::default_random_engine;

// Results, as numbers, to be compared with those of the same draw made alone.
using Record = std::vector<double>;
void put(Record &r, const Eigen::MatrixXd &m) {
  r.push_back(static_cast<double>(m.rows()));
  r.push_back(static_cast<double>(m.cols()));
  r.insert(r.end(), m.data(), m.data() + m.size());
}

// k of n with probability p: impossible but for one case in 1e14?
bool implausible(double k, double n, double p) {
  if (p <= 0.) {
    return k > 0;
  }
  if (p >= 1.) {
    return k < n;
  }
  const double q = k / n;
  double kl = 0.;
  if (q > 0.) {
    kl += q * std::log(q / p);
  }
  if (q < 1.) {
    kl += (1. - q) * std::log((1. - q) / (1. - p));
  }
  return n * kl > 33.;
}
double choose(std::size_t n, std::size_t k) {
  double c = 1.;
  for (std::size_t i = 0; i < k; ++i) {
    c = c * static_cast<double>(n - i) / static_cast<double>(i + 1);
  }
  return std::round(c);
}

struct Draw {
  int kind = 0;
  std::uint64_t seed = 1;
  std::size_t a = 0, b = 0, c = 0;
  double x = 0., y = 1.;
  Eigen::VectorXd v, w;
  Eigen::MatrixXd m;
  std::string name() const { return "draw kind " + std::to_string(kind); }
};

Gen generator(const Draw &d) { return Gen(static_cast<Gen::result_type>(d.seed)); }

void integers(const Draw &d, Record &out) {
  Gen gen = generator(d);
  const std::size_t low = d.a, k = d.b, n = d.c; // n of k integers from low
  const std::size_t high = low + k - 1;
  std::vector<std::string> items;
  for (std::size_t i = 0; i < k; ++i) {
    items.push_back("item-" + std::to_string(i));
  }
  const bool objects = d.kind == 1;
  const double p = static_cast<double>(n) / static_cast<double>(k);
  const double subsets = choose(k, n);
  const bool all_sets = d.x == 2.; // often enough to compare whole selections
  const std::size_t repeats =
      d.x == 0.   ? 1
      : all_sets ? 9000
                : static_cast<std::size_t>(
                      std::min(1500., 45. * std::max(1. / std::max(p, 0.03), subsets <= 12. ? subsets : 1.)));
  std::vector<double> count(k, 0.);
  std::map<std::vector<std::size_t>, double> seen;
  for (std::size_t r = 0; r < repeats; ++r) {
    std::vector<std::size_t> got;
    if (objects) {
      for (const auto &s : random_without_replacement(items, n, gen)) {
        const auto at = std::find(items.begin(), items.end(), s);
        if (at == items.end()) {
          sim::violation("range", "an item that was never given is drawn");
        }
        got.push_back(low + static_cast<std::size_t>(at - items.begin()));
      }
    } else {
      got = randint_without_replacement(n, low, high, gen);
    }
    for (auto i : got) {
      out.push_back(static_cast<double>(i));
    }
    if (got.size() != n) {
      sim::violation("range", "%zu of %zu are drawn, not %zu", got.size(), k, n);
    }
    std::sort(got.begin(), got.end());
    for (std::size_t i = 0; i < n; ++i) {
      if (got[i] < low || got[i] > high) {
        sim::violation("range", "%zu is drawn from %zu..%zu", got[i], low, high);
      }
      if (i > 0 && got[i] == got[i - 1]) {
        sim::violation("distinct", "%zu is drawn twice", got[i]);
      }
      ++count[got[i] - low];
    }
    if (subsets <= 12. || all_sets) {
      ++seen[got];
    }
  }
  if (repeats > 1) {
    const auto total = static_cast<double>(repeats);
    for (std::size_t i = 0; i < k; ++i) {
      if (implausible(count[i], total, p)) {
        sim::violation("uniform", "%zu of %zu..%zu (%zu at a time) is drawn %g times of %zu",
                       low + i, low, high, n, count[i], repeats);
      }
    }
    for (const auto &kv : seen) {
      if (implausible(kv.second, total, 1. / subsets)) {
        sim::violation("uniform", "one of %g selections is drawn %g times of %zu", subsets,
                       kv.second, repeats);
      }
    }
    if (!seen.empty() && static_cast<double>(seen.size()) != subsets &&
        total > 34. * subsets) {
      sim::violation("uniform", "only %zu of %g selections are ever drawn", seen.size(),
                     subsets);
    }
  }
}

struct Scripted {
  std::vector<double> given;
  double next = 1.;
  template <typename G> double operator()(G &gen) {
    (void)gen();
    next = std::fmod(next * 1.7 + 0.3, 5.) + 0.1;
    given.push_back(next);
    return next;
  }
};

void fills(const Draw &d, Record &out) {
  Gen gen = generator(d);
  const auto rows = static_cast<long>(d.a), cols = static_cast<long>(d.b);
  if (d.c == 0) {
    // Every entry is one value of the distribution.
    Scripted script;
    Eigen::MatrixXd m = Eigen::MatrixXd::Constant(rows, cols, NAN);
    random_fill(m, script, gen);
    put(out, m);
    std::vector<double> got(m.data(), m.data() + m.size());
    std::vector<double> want = script.given;
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    if (m.rows() != rows || m.cols() != cols || got != want) {
      sim::violation("fill", "a %ldx%ld matrix is not filled with the values drawn", rows,
                     cols);
    }
    return;
  }
  // Normal values of the given mean and deviation.
  Eigen::MatrixXd a(rows, cols), b(rows, cols);
  gaussian_fill(a, d.x, d.y, gen);
  gaussian_fill(b, d.x, d.y, gen);
  put(out, a);
  put(out, b);
  if (a.rows() != rows || a.cols() != cols) {
    sim::violation("fill", "filling changes the shape of a matrix");
  }
  const double n = static_cast<double>(a.size());
  if (n > 0 && d.y > 0. && a == b) {
    sim::violation("independent", "two draws from one generator are the same");
  }
  Gen again = generator(d);
  Eigen::MatrixXd z(rows, cols);
  gaussian_fill(z, again);
  num::expect_close("fill", "normal values", a, (d.y * z).array() + d.x, 1e-9,
                    std::fabs(d.x) + d.y);
  if (n >= 200) {
    const double m = z.mean();
    const double v = (z.array() - m).square().sum() / n;
    double fourth = z.array().pow(4).mean();
    if (std::fabs(m) > 8. / std::sqrt(n) || std::fabs(v - 1.) > 8. * std::sqrt(2. / n) ||
        std::fabs(fourth - 3.) > 12. * std::sqrt(96. / n)) {
      sim::violation("normal", "%g values have mean %g, variance %g and fourth moment %g", n,
                     m, v, fourth);
    }
  }
}

void covariance(const Draw &d, Record &out) {
  Gen gen = generator(d);
  const auto k = static_cast<long>(d.a);
  Scripted script;
  const Eigen::MatrixXd m = random_covariance_matrix(k, script, gen);
  put(out, m);
  num::expect_close("covariance", "a random covariance", m, m.transpose(), 1e-10);
  if (m.rows() != k) {
    sim::violation("covariance", "a random covariance of size %ld has %ld rows", k,
                   (long)m.rows());
  }
  std::vector<double> want = script.given;
  std::sort(want.begin(), want.end());
  if (static_cast<long>(want.size()) != k) {
    sim::violation("covariance", "%zu eigen values are drawn for %ld rows", want.size(), k);
  }
  if (k > 0) {
    Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(m);
    num::expect_close("covariance", "eigen values of a random covariance", es.eigenvalues(),
                      Eigen::Map<Eigen::VectorXd>(want.data(), k), 1e-9, 5.);
  }
  if (d.b > 0 && k > 0) { // the default distribution, twice
    const Eigen::MatrixXd x = random_covariance_matrix(k, gen);
    const Eigen::MatrixXd y = random_covariance_matrix(k, gen);
    put(out, x);
    if (x == y) {
      sim::violation("independent", "two random covariances are the same");
    }
    Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(x);
    if (!(es.eigenvalues().minCoeff() > -1e-9 * es.eigenvalues().maxCoeff())) {
      sim::violation("covariance", "a random covariance is not positive");
    }
  }
}

// Every sampler of normals is linear in standard normals that do not depend on
// the covariance: sample = A z + mean.  A is found from samples made for the
// identity with the same generator, and A A' must be the covariance.
void expect_factor(const char *what, const Eigen::MatrixXd &samples,
                   const Eigen::MatrixXd &standard, const Eigen::VectorXd &mean,
                   const Eigen::MatrixXd &cov) {
  const Eigen::MatrixXd s = samples.colwise() - mean;
  const Eigen::MatrixXd zt = standard.transpose();
  const Eigen::MatrixXd at = zt.colPivHouseholderQr().solve(Eigen::MatrixXd(s.transpose()));
  const double scale = cov.cwiseAbs().maxCoeff();
  num::expect_close("factor", what, zt * at, s.transpose(), 1e-7, std::sqrt(scale));
  num::expect_close("factor", what, at.transpose() * at, cov, 1e-7, scale);
}

void normals(const Draw &d, Record &out) {
  const auto k = d.v.size();
  const Eigen::MatrixXd eye = Eigen::MatrixXd::Identity(k, k);
  const Eigen::VectorXd zero = Eigen::VectorXd::Zero(k);
  const long n = 3 * k + 2;
  Gen gen = generator(d), gen1 = generator(d), gen2 = generator(d);
  Eigen::MatrixXd s(k, n), z(k, n);
  if (d.kind == 4) {
    for (long i = 0; i < n; ++i) {
      if (d.a) {
        s.col(i) = random_multivariate_normal(d.v, d.m, gen);
      } else {
        s.col(i) = random_multivariate_normal(d.m, gen) + d.v;
      }
      z.col(i) = random_multivariate_normal(zero, eye, gen1);
    }
    expect_factor("a multivariate normal", s, z, d.v, d.m);
  } else if (d.a) {
    s = score::detail::draw_mvn(Eigen::LDLT<Eigen::MatrixXd>(d.m), d.v, n, gen);
    z = score::detail::draw_mvn(Eigen::LDLT<Eigen::MatrixXd>(eye), zero, n, gen1);
    expect_factor("draws of a multivariate normal", s, z, d.v, d.m);
  } else {
    s = score::detail::antithetic_sample(2 * n, d.v, Eigen::LDLT<Eigen::MatrixXd>(d.m), gen);
    z = score::detail::antithetic_sample(2 * n, zero, Eigen::LDLT<Eigen::MatrixXd>(eye), gen1);
    if (s.rows() != k || s.cols() < 2 * n) {
      sim::violation("shape", "%ld antithetic samples of %ld", (long)s.cols(), 2 * n);
    }
    expect_factor("antithetic draws", s, z, d.v, d.m);
    num::expect_close("antithetic", "the mean of antithetic draws", s.rowwise().mean(), d.v,
                      1e-9, 1. + std::sqrt(d.m.diagonal().maxCoeff()));
  }
  put(out, s);
  // The standard normals are standard normals.
  const double count = static_cast<double>(z.size());
  const double m2 = z.array().square().mean();
  if (std::fabs(z.mean()) > 9. / std::sqrt(count) || m2 < 1. - 9. * std::sqrt(2. / count) ||
      m2 > 1. + 20. / std::sqrt(count)) {
    sim::violation("normal", "%g standard normals have mean %g and square %g", count, z.mean(),
                   m2);
  }
}

void sparse(const Draw &d, Record &out) {
  Gen gen = generator(d);
  const auto rows = static_cast<long>(d.a), cols = static_cast<long>(d.b);
  const double fill = d.x;
  const auto want = static_cast<long>(static_cast<double>(rows) * (static_cast<double>(cols) * fill));
  const std::size_t repeats = d.c;
  Eigen::MatrixXd hits = Eigen::MatrixXd::Zero(rows, cols);
  for (std::size_t r = 0; r < repeats; ++r) {
    const auto m = random_sparse_matrix<double>(rows, cols, fill, gen, 1., 3.);
    if (m.rows() != rows || m.cols() != cols || m.nonZeros() != want) {
      sim::violation("sparse", "a %ldx%ld matrix of %ld values has %ld", rows, cols, want,
                     (long)m.nonZeros());
    }
    const Eigen::MatrixXd dense(m);
    put(out, dense);
    for (long i = 0; i < dense.size(); ++i) {
      const double v = dense.data()[i];
      if (v != 0. && !(v >= 1. && v <= 3.)) {
        sim::violation("sparse", "a value of %g is not in 1..3", v);
      }
      hits.data()[i] += v != 0.;
    }
  }
  if (repeats > 1) {
    const double p = static_cast<double>(want) / static_cast<double>(rows * cols);
    for (long i = 0; i < hits.size(); ++i) {
      if (implausible(hits.data()[i], static_cast<double>(repeats), p)) {
        sim::violation("uniform", "entry %ld of a %ldx%ld matrix with %ld values is set %g "
                                  "times of %zu",
                       i, rows, cols, want, hits.data()[i], repeats);
      }
    }
  }
}

void scores(const Draw &d, Record &out) {
  const auto k = d.v.size();
  const JointDistribution p(d.v, d.m);
  const auto seed = static_cast<unsigned>(d.seed);
  const long n = 400;
  const Eigen::VectorXd &w = d.w;
  const Eigen::VectorXd truth =
      d.v + d.y * Eigen::VectorXd::LinSpaced(k, -1., 1.).cwiseProduct(Eigen::VectorXd::Constant(k, 1.3)) +
      Eigen::VectorXd::Constant(k, d.x);
  const Eigen::VectorXd ones = Eigen::VectorXd::Ones(k);
  const double plain = score::energy_score(p, truth, nullptr, seed, n);
  out.push_back(plain);
  if (score::energy_score(p, truth, &ones, seed, n) != plain) {
    sim::violation("score", "a score with weights of one is another one");
  }
  if (!(plain >= 0.) || !std::isfinite(plain)) {
    sim::violation("score", "an energy score is %g", plain);
  }
  // Weights stretch the dimensions.
  const double weighted = score::energy_score(p, truth, &w, seed, n);
  out.push_back(weighted);
  const Eigen::VectorXd root = w.array().sqrt();
  // The same from normals drawn independently of it.
  const Eigen::MatrixXd l = d.m.llt().matrixL();
  Gen gen(static_cast<Gen::result_type>(d.seed + 77));
  std::normal_distribution<double> normal;
  const auto draw = [&] {
    Eigen::VectorXd z(k);
    for (long i = 0; i < k; ++i) {
      z[i] = normal(gen);
    }
    return Eigen::VectorXd(root.asDiagonal() * (d.v + l * z));
  };
  double first = 0., second = 0.;
  const int total = 600;
  for (int i = 0; i < total; ++i) {
    const Eigen::VectorXd a = draw(), b = draw();
    first += 0.5 * ((a - root.asDiagonal() * truth).norm() + (b - root.asDiagonal() * truth).norm());
    second += (a - b).norm();
  }
  const double want = (first - 0.5 * second) / total;
  const double spread = std::sqrt((root.asDiagonal() * d.m * root.asDiagonal()).trace());
  if (!(std::fabs(weighted - want) < 9. * spread / std::sqrt(static_cast<double>(n)))) {
    sim::violation("score", "a weighted energy score is %g, expected %g (spread %g)", weighted,
                   want, spread);
  }
  // Uncertain truth widens the prediction.
  const MarginalDistribution fuzzy(truth, Eigen::VectorXd(Eigen::VectorXd::Constant(k, 0.4)));
  JointDistribution wide = p;
  wide.covariance += Eigen::MatrixXd(0.4 * Eigen::MatrixXd::Identity(k, k));
  num::expect_close("score", "score of an uncertain truth",
                    Eigen::MatrixXd::Constant(1, 1, score::energy_score(p, fuzzy, &w, seed, n)),
                    Eigen::MatrixXd::Constant(1, 1, score::energy_score(wide, truth, &w, seed, n)),
                    1e-9);
}

void make(const Draw &d, Record &out) {
  switch (d.kind) {
  case 0:
  case 1:
    return integers(d, out);
  case 2:
    return fills(d, out);
  case 3:
    return covariance(d, out);
  case 4:
  case 5:
    return normals(d, out);
  case 6:
    return sparse(d, out);
  default:
    return scores(d, out);
  }
}

Draw some() {
  Draw d;
  d.kind = static_cast<int>(sim::w(8));
  d.seed = 1 + sim::w(2000000);
  const auto spd = [&](long k) {
    d.v.resize(k);
    d.w.resize(k);
    d.m.resize(k, k);
    for (long i = 0; i < k; ++i) {
      d.v[i] = 3. * sim::gauss();
      d.w[i] = sim::w(4) ? 0.1 + sim::real(0., 4.) : 40.;
      for (long j = 0; j < k; ++j) {
        d.m(i, j) = sim::gauss();
      }
    }
    d.m = Eigen::MatrixXd(d.m * d.m.transpose());
    for (long i = 0; i < k; ++i) {
      d.m(i, i) += 0.1 + (sim::w(3) == 2 ? sim::real(0., 20.) : 0.);
    }
  };
  switch (d.kind) {
  case 0:
  case 1:
    d.b = 1 + sim::w(sim::w(4) ? 12 : 60);
    d.c = sim::w(d.b + 1);
    d.a = d.kind == 1 ? 0 : sim::w(3) ? sim::w(100) : 0;
    d.x = sim::w(3) ? 0. : 1.;
    if (sim::w(30) == 29) {
      d.x = 2.;
      d.b = 3 + sim::w(4);
      d.c = 1 + sim::w(d.b - 1);
    }
    if (d.kind == 1 && sim::w(12) == 11) {
      d.b = d.c = 0;
      d.x = 0.;
    }
    break;
  case 2:
    d.a = sim::w(30);
    d.b = sim::w(30);
    d.c = sim::w(3);
    d.x = sim::real(-20., 20.);
    d.y = sim::w(5) ? sim::real(0.1, 9.) : 0.;
    break;
  case 3:
    d.a = 1 + sim::w(8);
    d.b = sim::w(2);
    break;
  case 4:
  case 5:
    spd(static_cast<long>(1 + sim::w(7)));
    d.a = sim::w(2);
    break;
  case 6:
    d.a = 1 + sim::w(8);
    d.b = 1 + sim::w(8);
    d.x = static_cast<double>(sim::w(9)) / 8.;
    d.c = sim::w(3) ? 1 : std::min<std::size_t>(1200, 60. / std::max(0.05, d.x));
    break;
  default:
    spd(static_cast<long>(1 + sim::w(5)));
    d.x = sim::gauss();
    d.y = sim::gauss();
  }
  return d;
}
} // namespace p15

void sim_run() {
  using namespace p15;
  const std::size_t n_clients = 1 + sim::w(3);
  std::vector<std::vector<Draw>> draws(n_clients);
  std::vector<std::vector<Record>> got(n_clients);
  for (std::size_t i = 0; i < n_clients; ++i) {
    draws[i].resize(1 + sim::w(3));
    got[i].resize(draws[i].size());
    for (auto &d : draws[i]) {
      d = some();
    }
  }
  const bool memory = n_clients == 1 && sim::f(2);
  sim::begin(sim::random_sched());
  {
    const auto work = [&](std::size_t i) {
      for (std::size_t j = 0; j < draws[i].size(); ++j) {
        if (memory) {
          const Draw &d = draws[i][j];
          Record r;
          r.reserve(200000);
          sim::arm_alloc_fault(sim::f(60));
          bool failed = false;
          try {
            make(d, r);
          } catch (const std::bad_alloc &) {
            failed = true;
          }
          const bool fired = sim::alloc_fault_fired();
          sim::disarm_alloc_fault();
          if (fired) {
            sim::fault_fired("alloc");
          }
          if (failed != fired) {
            sim::violation("exception", "%s %s", d.name().c_str(),
                           failed ? "fails without cause" : "hides a failed allocation");
          }
        }
        make(draws[i][j], got[i][j]);
      }
    };
    std::vector<std::thread> threads;
    for (std::size_t i = 1; i < n_clients; ++i) {
      threads.emplace_back([&, i] { work(i); });
    }
    work(0);
    for (auto &t : threads) {
      t.join();
    }
  }
  sim::end();
  for (std::size_t i = 0; i < n_clients; ++i) {
    for (std::size_t j = 0; j < draws[i].size(); ++j) {
      Record alone;
      make(draws[i][j], alone);
      const auto &r = got[i][j];
      if (r.size() != alone.size() ||
          (!r.empty() && std::memcmp(r.data(), alone.data(), sizeof(double) * r.size()) != 0)) {
        sim::violation("repeat", "%s is another one when it is made alone",
                       draws[i][j].name().c_str());
      }
      sim::evaluated(r.size() > 1, sim::hash_bytes(r.data(), sizeof(double) * r.size(),
                                                   static_cast<std::uint64_t>(draws[i][j].kind)));
    }
  }
}
