// SHARDS: 2
// P11: the ensemble sampler moves walkers by the stretch move it documents,
// and its checkpoints can be read back.
#include <albatross/Core>
#include <albatross/GP>
#include <albatross/Samplers>

#include "gpworld.h"
#include "num.h"
#include "sim.h"

#include <algorithm>
#include <functional>
#include <memory>
#include <random>
#include <sstream>
#include <streambuf>
#include <thread>

#if SHARD == 0
extern const char *const kProperty, *const kRule, *const kRealCode, *const kStubs;
extern const std::vector<std::string> kAssumptions;
const char *const kProperty = "P11";
const char *const kRule =
    "one evaluation = one sampler run (or one recovery from a checkpoint) checked "
    "call by call; non-trivial = at least one proposal was accepted and one "
    "rejected, or a checkpoint row was read; distinct by the recorded chain";
const char *const kRealCode =
    "ensemble_sampler, stretch_move_step, ensure_finite_initial_state, "
    "initial_params_from_jitter, initial_params_from_csv, CsvWritingCallback, "
    "MaximumLikelihoodTrackingCallback, csv_utils row and header writing, Gaussian "
    "process log likelihood, parameter handling, random_utils";
const char *const kStubs =
    "pthread scheduling, clocks, the disk under the checkpoint stream; log "
    "probabilities of the generic runs are simulated";
const std::vector<std::string> kAssumptions = {
    "the random engine is the standard library's; acceptance and stretch factors "
    "are judged by their exact consequences and by 7 sigma tests per run",
    "target functions have a finite log probability on a set that convex "
    "combinations of finite walkers keep hitting"};
#endif

namespace p11 {
using namespace albatross;

struct Boom {};

// A file on a disk of limited size.
class MemFile : public std::streambuf {
public:
  explicit MemFile(std::size_t capacity = SIZE_MAX) : capacity_(capacity) {}
  const std::string &text() const { return text_; }
  bool full() const { return full_; }

protected:
  int overflow(int c) override {
    if (at_ >= capacity_) {
      full_ = true;
      return traits_type::eof();
    }
    if (at_ < text_.size()) {
      text_[at_] = static_cast<char>(c);
    } else {
      text_.push_back(static_cast<char>(c));
    }
    ++at_;
    return c;
  }
  std::streamsize xsputn(const char *s, std::streamsize n) override {
    std::streamsize k = 0;
    while (k < n && overflow(static_cast<unsigned char>(s[k])) != traits_type::eof()) {
      ++k;
    }
    return k;
  }
  pos_type seekoff(off_type off, std::ios_base::seekdir dir,
                   std::ios_base::openmode) override {
    const off_type base = dir == std::ios_base::beg   ? 0
                          : dir == std::ios_base::cur ? static_cast<off_type>(at_)
                                                      : static_cast<off_type>(text_.size());
    if (base + off < 0 || base + off > static_cast<off_type>(text_.size())) {
      return pos_type(off_type(-1));
    }
    at_ = static_cast<std::size_t>(base + off);
    return pos_type(base + off);
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override {
    return seekoff(off_type(p), std::ios_base::beg, m);
  }

private:
  std::string text_;
  std::size_t at_ = 0, capacity_;
  bool full_ = false;
};

// A disk that fails at some offset, as a file buffer reports it.
class BadDisk : public std::streambuf {
public:
  BadDisk(const std::string &text, std::size_t fail_at, std::size_t block)
      : text_(text), fail_at_(fail_at), block_(block) {}

protected:
  int_type underflow() override {
    if (at_ >= fail_at_) {
      throw std::ios_base::failure("injected");
    }
    const std::size_t n = std::min(block_, fail_at_ - at_);
    setg(&text_[at_], &text_[at_], &text_[at_] + n);
    at_ += n;
    return traits_type::to_int_type(*gptr());
  }

private:
  std::string text_;
  std::size_t fail_at_, block_, at_ = 0;
};

inline bool same_double(double a, double b) {
  return a == b || (std::isnan(a) && std::isnan(b));
}
inline bool same(const std::vector<double> &a, const std::vector<double> &b) {
  return a.size() == b.size() &&
         std::equal(a.begin(), a.end(), b.begin(), same_double);
}
inline bool same(const SamplerState &a, const SamplerState &b) {
  return same(a.params, b.params) && same_double(a.log_prob, b.log_prob) &&
         a.accepted == b.accepted;
}
inline bool same(const EnsembleSamplerState &a, const EnsembleSamplerState &b) {
  return a.size() == b.size() &&
         std::equal(a.begin(), a.end(), b.begin(),
                    [](const auto &x, const auto &y) { return same(x, y); });
}
inline bool same(const std::vector<EnsembleSamplerState> &a,
                 const std::vector<EnsembleSamplerState> &b) {
  return a.size() == b.size() &&
         std::equal(a.begin(), a.end(), b.begin(),
                    [](const auto &x, const auto &y) { return same(x, y); });
}
inline std::uint64_t hash_chain(const std::vector<EnsembleSamplerState> &c,
                                std::uint64_t h) {
  for (const auto &e : c) {
    for (const auto &s : e) {
      h = sim::hash_bytes(s.params.data(), s.params.size() * sizeof(double), h);
      h = sim::mix(h, s.accepted);
    }
  }
  return h;
}

struct Call {
  std::vector<double> x;
  double value;
};

// What was seen of one sampler run.
struct Seen {
  std::vector<Call> calls;
  std::vector<std::pair<std::size_t, EnsembleSamplerState>> callbacks;
  std::vector<EnsembleSamplerState> chain;
  std::size_t boom_call = SIZE_MAX, boom_iter = SIZE_MAX;
  int boom_kind = 0;
  bool boomed = false;
  std::size_t after_boom = 0;
};

[[noreturn]] inline void boom(Seen *s) {
  s->boomed = true;
  sim::fault_fired("callback-throws");
  switch (s->boom_kind) {
  case 0:
    throw Boom();
  case 1:
    throw std::bad_alloc();
  default:
    throw std::runtime_error("injected");
  }
}

// Statistics that do not depend on which test looks at them.
struct Tally {
  double acc = 0., acc_var = 0., z1 = 0., z2 = 0., who = 0.;
  std::size_t n_acc = 0, n_z = 0, n_who = 0;
  std::size_t accepted = 0, rejected = 0;
};

inline void expect_calibrated(const Tally &t) {
  const auto far = [](double sum, double var) {
    return var > 20. && std::fabs(sum) > 7. * std::sqrt(var);
  };
  if (far(t.acc, t.acc_var)) {
    sim::violation("acceptance", "%zu random decisions accept %.1f more than expected "
                                 "(standard deviation %.2f)",
                   t.n_acc, t.acc, std::sqrt(t.acc_var));
  }
  const double n = static_cast<double>(t.n_z);
  // u uniform: var 1/12; u^2: mean 1/3, var 4/45
  if (t.n_z > 300 && (std::fabs(t.z1) > 7. * std::sqrt(n / 12.) ||
                      std::fabs(t.z2) > 7. * std::sqrt(n * 4. / 45.))) {
    sim::violation("stretch", "the stretch factors of %zu proposals are not "
                              "distributed as 1/sqrt(z) on [1/2, 2]",
                   t.n_z);
  }
  if (t.n_who > 300 && std::fabs(t.who) > 7. * std::sqrt(static_cast<double>(t.n_who) / 12.)) {
    sim::violation("partner", "the partners of %zu proposals are not uniform", t.n_who);
  }
}

// Follows one run call by call.  `from` is the index of the first call made
// for the moves.
inline void expect_moves(const Seen &s, std::size_t from, Tally *tally) {
  const auto &chain = s.chain;
  const std::size_t n = chain[0].size();
  const std::size_t d = chain[0][0].params.size();
  const auto splits = split_indices(n, 2);
  std::vector<int> group(n, -1);
  int g = 0;
  for (const auto &split : splits) {
    for (const auto k : split) {
      if (k >= n || group[k] != -1) {
        sim::violation("partition", "%zu walkers are not partitioned", n);
      }
      group[k] = g;
    }
    ++g;
  }
  if (std::count(group.begin(), group.end(), -1) || g < 2) {
    sim::violation("partition", "%zu walkers are not partitioned in two", n);
  }
  std::size_t at = from;
  for (std::size_t it = 1; it < chain.size(); ++it) {
    if (chain[it].size() != n) {
      sim::violation("size", "iteration %zu has %zu of %zu walkers", it,
                     chain[it].size(), n);
    }
    EnsembleSamplerState now = chain[it - 1];
    for (const auto &split : splits) {
      for (const auto k : split) {
        if (at >= s.calls.size()) {
          sim::violation("calls", "iteration %zu made too few evaluations", it);
        }
        const Call &c = s.calls[at++];
        const SamplerState &next = chain[it][k];
        // Where can this proposal come from?
        struct Way {
          std::size_t j;
          double z;
        };
        std::vector<Way> ways;
        std::size_t others = 0;
        for (std::size_t j = 0; j < n; ++j) {
          if (group[j] == group[k]) {
            continue;
          }
          ++others;
          std::vector<double> delta(d);
          std::size_t big = 0;
          double scale = 0.;
          for (std::size_t i = 0; i < d; ++i) {
            delta[i] = now[k].params[i] - now[j].params[i];
            if (delta[i] == 0.) {
              delta[i] = 1e-6;
            }
            if (std::fabs(delta[i]) > std::fabs(delta[big])) {
              big = i;
            }
            scale = std::max({scale, std::fabs(now[k].params[i]),
                              std::fabs(now[j].params[i])});
          }
          const double z = (c.x[big] - now[j].params[big]) / delta[big];
          // The rounding of the proposal itself.
          const double slack = 1e-6 + 1e-15 * scale / std::fabs(delta[big]);
          if (!(z >= 0.5 - slack && z <= 2. + slack)) {
            continue;
          }
          bool on = true;
          for (std::size_t i = 0; i < d && on; ++i) {
            on = std::fabs(c.x[i] - (now[j].params[i] + z * delta[i])) <=
                 1e-11 * (scale + std::fabs(delta[big]));
          }
          if (on) {
            ways.push_back({j, z});
          }
        }
        const bool huge =
            std::any_of(now.begin(), now.end(), [](const SamplerState &w) {
              return std::any_of(w.params.begin(), w.params.end(),
                                 [](double v) { return std::fabs(v) > 1e100; });
            });
        if (ways.empty() && huge) {
          sim::probe("overflowing-walker");
        } else if (ways.empty()) {
          sim::violation("proposal", "iteration %zu: the proposal for walker %zu is no "
                                     "stretch along a walker of the other group",
                         it, k);
        }
        // What became of it?
        const bool kept = same(next.params, now[k].params) &&
                          same_double(next.log_prob, now[k].log_prob);
        if (next.accepted) {
          if (!same(next.params, c.x) || !same_double(next.log_prob, c.value)) {
            sim::violation("state", "iteration %zu: walker %zu accepted something else "
                                    "than its proposal",
                           it, k);
          }
          ++tally->accepted;
        } else {
          if (!kept) {
            sim::violation("state", "iteration %zu: walker %zu rejected its proposal but "
                                    "moved",
                           it, k);
          }
          ++tally->rejected;
        }
        if (!std::isfinite(c.value)) {
          if (next.accepted) {
            sim::violation("finite", "iteration %zu: walker %zu accepted log probability %g",
                           it, k, c.value);
          }
        } else if (!huge && !ways.empty() && (ways.size() == 1 || d == 1)) {
          const double diff = (static_cast<double>(d) - 1.) * std::log(ways[0].z) +
                              c.value - now[k].log_prob;
          const double tol = 1e-7 * (1. + std::fabs(c.value));
          if (diff > tol && !next.accepted) {
            sim::violation("acceptance", "iteration %zu: walker %zu rejected a move of log "
                                         "ratio %.9g",
                           it, k, diff);
          }
          if (diff < -40. && next.accepted) {
            sim::violation("acceptance", "iteration %zu: walker %zu accepted a move of log "
                                         "ratio %.9g",
                           it, k, diff);
          }
          if (diff < -tol && diff > -6.) {
            const double p = std::exp(diff);
            tally->acc += (next.accepted ? 1. : 0.) - p;
            tally->acc_var += p * (1. - p);
            ++tally->n_acc;
          }
        }
        if (!huge && ways.size() == 1 && d > 1) {
          const double u = std::sqrt(2. * ways[0].z) - 1.;
          tally->z1 += u - 0.5;
          tally->z2 += u * u - 1. / 3.;
          ++tally->n_z;
          std::size_t rank = 0;
          for (std::size_t j = 0; j < ways[0].j; ++j) {
            rank += group[j] != group[k];
          }
          if (others > 1) {
            tally->who += (static_cast<double>(rank) + 0.5) / static_cast<double>(others) - 0.5;
            ++tally->n_who;
          }
        }
        now[k] = next;
      }
    }
  }
  if (at != s.calls.size()) {
    sim::violation("calls", "%zu evaluations were not asked for", s.calls.size() - at);
  }
}

// The states handed to the callback and returned.
inline void expect_reported(const Seen &s, std::size_t iterations) {
  if (s.chain.size() != iterations + 1 || s.callbacks.size() != iterations + 1) {
    sim::violation("reported", "%zu iterations gave %zu states and %zu callbacks",
                   iterations, s.chain.size(), s.callbacks.size());
  }
  for (std::size_t i = 0; i < s.chain.size(); ++i) {
    if (s.callbacks[i].first != i || !same(s.callbacks[i].second, s.chain[i])) {
      sim::violation("reported", "callback %zu was given something else than the state", i);
    }
    for (const auto &w : s.chain[i]) {
      if (!std::isfinite(w.log_prob)) {
        sim::violation("finite", "iteration %zu has a walker of log probability %g", i,
                       w.log_prob);
      }
    }
  }
}

// The walkers the chain starts from; returns the number of calls used.
inline std::size_t expect_start(const Seen &s, std::size_t from,
                                const EnsembleSamplerState &initial,
                                std::size_t n_moves) {
  const auto &first = s.chain[0];
  if (first.size() != initial.size()) {
    sim::violation("start", "%zu initial walkers became %zu", initial.size(), first.size());
  }
  EnsembleSamplerState good;
  for (const auto &w : initial) {
    bool ok = std::isfinite(w.log_prob);
    for (const auto v : w.params) {
      ok = ok && std::isfinite(v);
    }
    if (ok) {
      good.push_back(w);
    }
  }
  for (std::size_t i = 0; i < good.size(); ++i) {
    if (!same(good[i].params, first[i].params) ||
        !same_double(good[i].log_prob, first[i].log_prob)) {
      sim::violation("start", "finite initial walker %zu was changed", i);
    }
  }
  // Each attempt lies between two of the walkers there are.
  std::size_t at = from;
  while (good.size() < initial.size()) {
    if (at + n_moves >= s.calls.size() + 0 && at >= s.calls.size()) {
      sim::violation("start", "missing walkers were not evaluated");
    }
    const Call &c = s.calls[at++];
    bool between = false;
    for (std::size_t i = 0; i < good.size() && !between; ++i) {
      for (std::size_t j = 0; j < good.size() && !between; ++j) {
        if (i == j) {
          continue;
        }
        bool in = true;
        for (std::size_t k = 0; k < c.x.size() && in; ++k) {
          const double a = good[i].params[k], b = good[j].params[k];
          const double eps = 1e-12 * (std::fabs(a) + std::fabs(b));
          in = c.x[k] >= std::min(a, b) - eps && c.x[k] <= std::max(a, b) + eps;
        }
        between = in;
      }
    }
    if (!between) {
      sim::violation("start", "a replacement walker is not between two finite ones");
    }
    if (std::isfinite(c.value)) {
      const auto &w = first[good.size()];
      if (!same(w.params, c.x) || !same_double(w.log_prob, c.value)) {
        sim::violation("start", "replacement walker %zu is not the evaluated one", good.size());
      }
      good.push_back(w);
      sim::probe("replacement-walker");
    }
  }
  return at;
}

void generic();
void on_model();
void checkpoint();

#if SHARD == 0
struct Target {
  int kind = 0;
  std::vector<double> centre, width;
  double tilt = 0.;
  std::uint64_t salt = 0;
  int holes = 0; // 1/holes of the space has no finite value

  double operator()(const std::vector<double> &x) const {
    double v = 0.;
    std::uint64_t h = salt;
    for (std::size_t i = 0; i < x.size(); ++i) {
      const double t = (x[i] - centre[i]) / width[i];
      switch (kind) {
      case 0:
        v -= 0.5 * t * t;
        if (i) {
          v -= tilt * t * (x[i - 1] - centre[i - 1]) / width[i - 1];
        }
        break;
      case 1: // uniform box
        if (std::fabs(t) > 3.) {
          v = -INFINITY;
        }
        break;
      case 2: // heavy tails
        v -= std::log1p(t * t);
        break;
      default: // cliff
        v -= t > 0.5 ? 60. : std::fabs(t);
      }
      std::uint64_t bits;
      std::memcpy(&bits, &x[i], sizeof bits);
      h = sim::mix(h, bits);
    }
    if (holes && (h >> 8) % static_cast<std::uint64_t>(holes) == 0) {
      switch ((h >> 40) % 3) {
      case 0:
        return NAN;
      case 1:
        return INFINITY;
      default:
        return -INFINITY;
      }
    }
    return v;
  }
};

struct Client {
  Target target;
  std::vector<std::vector<double>> start;
  bool as_states = false;
  std::size_t iterations = 0;
  unsigned seed = 1;
};

EnsembleSamplerState states_of(const Client &c) {
  EnsembleSamplerState out;
  for (const auto &p : c.start) {
    out.push_back({p, c.target(p), true});
  }
  return out;
}

void run(const Client &c, Seen *s, bool yields) {
  std::default_random_engine gen(c.seed);
  const auto f = [&](const std::vector<double> &x) {
    std::size_t index;
    double v;
    {
      sim::Quiet quiet;
      index = s->calls.size();
      v = c.target(x);
      s->calls.push_back({x, v});
    }
    if (s->boomed) {
      ++s->after_boom;
    }
    if (index == s->boom_call) {
      boom(s);
    }
    if (yields) {
      sim::yield_point();
    }
    return v;
  };
  const auto cb = [&](std::size_t i, const EnsembleSamplerState &e) {
    if (s->boomed) {
      ++s->after_boom;
    }
    {
      sim::Quiet quiet;
      s->callbacks.emplace_back(i, e);
    }
    if (i == s->boom_iter) {
      boom(s);
    }
    if (yields) {
      sim::yield_point();
    }
  };
  if (c.as_states) {
    const EnsembleSamplerState initial = states_of(c);
    const EnsembleSamplerState copy = initial;
    s->chain = ensemble_sampler(f, initial, c.iterations, gen, cb);
    if (!same(initial, copy)) {
      sim::violation("input", "sampling changed the initial state");
    }
  } else {
    s->chain = ensemble_sampler(f, c.start, c.iterations, gen, cb);
  }
}

Client draw_client() {
  Client c;
  const std::size_t d = 1 + sim::w(4);
  c.target.kind = static_cast<int>(sim::w(4));
  for (std::size_t i = 0; i < d; ++i) {
    c.target.centre.push_back(sim::real(-3., 3.));
    c.target.width.push_back(std::pow(10., sim::real(-1., 1.)));
  }
  c.target.tilt = sim::real(-0.6, 0.6);
  c.target.salt = sim::w(1u << 16);
  c.target.holes = sim::w(3) == 2 ? static_cast<int>(2 + sim::w(6)) : 0;
  const std::size_t n = 4 + sim::w(12);
  const bool stuck = sim::w(6) == 5 && d > 1; // a coordinate all walkers share
  for (std::size_t k = 0; k < n; ++k) {
    std::vector<double> x;
    for (std::size_t i = 0; i < d; ++i) {
      x.push_back(c.target.centre[i] + c.target.width[i] * sim::real(-1.5, 1.5));
    }
    if (stuck) {
      x[0] = c.target.centre[0];
    }
    if (sim::w(8) == 7) {
      x[sim::w(d)] = sim::w(2) ? NAN : 1e300;
    }
    c.start.push_back(x);
  }
  c.as_states = sim::w(2);
  c.iterations = sim::w(8) == 7    ? sim::w(2)
                 : sim::w(40) == 39 ? 200 + sim::w(600)
                                    : 1 + sim::w(60);
  c.seed = static_cast<unsigned>(1 + sim::w(1000));
  return c;
}

std::size_t finite_count(const Client &c) {
  std::size_t n = 0;
  for (const auto &s : states_of(c)) {
    bool ok = std::isfinite(s.log_prob);
    for (const auto v : s.params) {
      ok = ok && std::isfinite(v);
    }
    n += ok;
  }
  return n;
}

void expect_run(const Client &c, const Seen &s, Tally *tally) {
  expect_reported(s, c.iterations);
  const auto initial = states_of(c);
  std::size_t from = 0;
  if (!c.as_states) {
    if (s.calls.size() < c.start.size()) {
      sim::violation("calls", "not every initial walker was evaluated");
    }
    for (; from < c.start.size(); ++from) {
      if (!same(s.calls[from].x, c.start[from])) {
        sim::violation("start", "initial walker %zu was not evaluated as given", from);
      }
    }
  }
  from = expect_start(s, from, initial, c.iterations * c.start.size());
  for (const auto &e : s.chain) {
    for (const auto &w : e) {
      if (!same_double(w.log_prob, c.target(w.params))) {
        sim::violation("state", "a walker's log probability is not that of its parameters");
      }
    }
  }
  const std::size_t a = tally->accepted, r = tally->rejected;
  expect_moves(s, from, tally);
  sim::evaluated(tally->accepted > a && tally->rejected > r,
                 hash_chain(s.chain, c.start.size()));
}

void generic() {
  std::vector<Client> clients;
  std::vector<Seen> seen(1 + sim::w(3));
  for (std::size_t i = 0; i < seen.size(); ++i) {
    Client c = draw_client();
    while (finite_count(c) < 3) { // a walker may be unlucky
      c.target.salt++;
      c.target.holes = c.target.holes ? c.target.holes + 1 : 0;
      for (auto &p : c.start) {
        for (std::size_t k = 0; k < p.size(); ++k) {
          if (!std::isfinite(p[k]) || std::fabs(p[k]) > 1e100) {
            p[k] = c.target.centre[k] + 0.1 * c.target.width[k] *
                                            static_cast<double>(&p - c.start.data());
          }
        }
      }
    }
    clients.push_back(c);
  }
  sim::begin(sim::random_sched());
  {
    std::vector<std::thread> threads;
    for (std::size_t i = 1; i < seen.size(); ++i) {
      threads.emplace_back([&, i] { run(clients[i], &seen[i], true); });
    }
    run(clients[0], &seen[0], true);
    for (auto &t : threads) {
      t.join();
    }
  }
  sim::end();
  Tally tally;
  for (std::size_t i = 0; i < seen.size(); ++i) {
    expect_run(clients[i], seen[i], &tally);
  }
  expect_calibrated(tally);
  // Alone, with the same seed, the chain is the same.
  const std::size_t i = sim::w(seen.size());
  const Client &c = clients[i];
  Seen again;
  run(c, &again, false);
  if (!same(again.chain, seen[i].chain)) {
    sim::violation("repeat", "the same seed gives another chain");
  }
  switch (sim::f(4)) {
  case 1: { // something throws
    Seen s;
    s.boom_kind = static_cast<int>(sim::f(3));
    (sim::f(2) ? s.boom_iter : s.boom_call) =
        sim::f(2) ? sim::f(c.iterations + 1) : sim::f(again.calls.size());
    bool thrown = false;
    int kind = -1;
    try {
      run(c, &s, false);
    } catch (const Boom &) {
      thrown = true, kind = 0;
    } catch (const std::bad_alloc &) {
      thrown = true, kind = 1;
    } catch (const std::runtime_error &) {
      thrown = true, kind = 2;
    }
    if (s.boomed) {
      if (!thrown || kind != s.boom_kind || s.after_boom) {
        sim::violation("exception", "a callback threw, but sampling went on");
      }
      for (std::size_t k = 0; k < s.callbacks.size(); ++k) {
        if (!same(s.callbacks[k].second, again.chain[k])) {
          sim::violation("exception", "the states before a failure differ");
        }
      }
      sim::evaluated(true, sim::mix(s.calls.size(), 5));
    } else if (thrown) {
      sim::violation("exception", "sampling threw by itself");
    }
    break;
  }
  case 2: { // memory runs out
    if (again.calls.size() > 400) {
      break;
    }
    const auto once = [&](EnsembleSamplerState initial) {
      std::default_random_engine gen(c.seed);
      return ensemble_sampler([&](const std::vector<double> &x) { return c.target(x); },
                              initial, c.iterations, gen, NullCallback());
    };
    std::vector<EnsembleSamplerState> result;
    const auto initial = states_of(c);
    once(initial);
    sim::count_allocs_begin();
    result = once(initial);
    const auto n = sim::count_allocs_end();
    result.clear();
    result.shrink_to_fit();
    const auto blocks = sim::live_blocks();
    bool failed = false;
    sim::arm_alloc_fault(sim::f(n));
    try {
      result = once(initial);
    } catch (const std::bad_alloc &) {
      failed = true;
    }
    const bool fired = sim::alloc_fault_fired();
    sim::disarm_alloc_fault();
    if (fired) {
      sim::fault_fired("alloc");
    }
    if (fired != failed) {
      sim::violation("exception", "running out of memory was %s",
                     fired ? "not reported" : "reported without cause");
    }
    result.clear();
    result.shrink_to_fit();
    if (sim::live_blocks() != blocks) {
      sim::violation("leak", "%lld blocks were lost",
                     (long long)(sim::live_blocks() - blocks));
    }
    if (!same(once(initial), seen[i].chain)) {
      sim::violation("repeat", "sampling after a failure gives another chain");
    }
    sim::evaluated(failed, sim::mix(n, 9));
    break;
  }
  case 3: { // too few usable walkers
    Client poor = c;
    poor.target.kind = 1;
    poor.target.holes = 0;
    const std::size_t keep = sim::f(3);
    for (std::size_t k = 0; k < poor.start.size(); ++k) {
      for (std::size_t j = 0; j < poor.start[k].size(); ++j) {
        poor.start[k][j] = poor.target.centre[j] + (k < keep ? 0.1 * static_cast<double>(k) : 1e9);
      }
    }
    bool refused = false;
    try {
      sim::AssertThrows scope;
      Seen s;
      run(poor, &s, false);
    } catch (const sim::AssertionFailed &) {
      refused = true;
    }
    if (!refused) {
      sim::violation("start", "sampling began with %zu usable walkers", keep);
    }
    sim::probe("refused-start");
    sim::evaluated(false);
    break;
  }
  default:
    break;
  }
}
#endif

#if SHARD == 1
using namespace gpw;

template <typename M> void open_params(M &model) {
  model.set_prior("field_sigma", sim::w(2) ? ParameterPrior(UniformPrior(0.2, 3.))
                                           : ParameterPrior(LogScaleUniformPrior(1e-9, 10.)));
  model.set_prior("field_length", LogScaleUniformPrior(0.3, 10.));
  if (sim::w(3) == 2) {
    model.set_prior("trend_slope", UniformPrior(-5., 5.));
  }
  if (sim::w(2)) {
    model.set_prior("sigma_independent_noise", LogScaleUniformPrior(1e-12, 2.));
    model.set_param_value("sigma_independent_noise",
                          std::pow(10., sim::real(-9., -0.5)));
  } else {
    model.set_prior("sigma_independent_noise", FixedPrior());
    model.set_param_value("sigma_independent_noise", 0.3);
  }
}

inline RegressionDataset<double> draw_data() {
  std::vector<double> x;
  const std::size_t n = 2 + sim::w(4);
  Eigen::VectorXd m(n), v(n);
  for (std::size_t i = 0; i < n; ++i) {
    x.push_back(static_cast<double>(i) + sim::real(0., 0.7));
    m[static_cast<long>(i)] = sim::gauss();
    v[static_cast<long>(i)] = 0.1;
  }
  return RegressionDataset<double>(x, MarginalDistribution(m, v));
}

inline bool near(double a, double b) {
  return std::fabs(a - b) <= 1e-12 * (std::fabs(a) + std::fabs(b));
}

using Rows = std::vector<std::vector<std::string>>;

Rows parse(const std::string &text) {
  Rows rows;
  std::vector<std::string> row(1);
  for (const char c : text) {
    if (c == '\n') {
      rows.push_back(row);
      row.assign(1, "");
    } else if (c == ',') {
      row.emplace_back();
    } else {
      row.back().push_back(c);
    }
  }
  if (row.size() != 1 || !row[0].empty()) {
    rows.push_back(row); // torn
  }
  return rows;
}

// The checkpoint holds every state.
void expect_csv(const std::string &text, const ParameterStore &params,
                const std::vector<EnsembleSamplerState> &chain) {
  const auto rows = parse(text);
  std::vector<std::string> head = {"iteration", "log_probability", "ensemble_index"};
  for (const auto &kv : params) {
    head.push_back(kv.first);
  }
  if (rows.empty() || rows[0] != head) {
    sim::violation("csv", "the header of the checkpoint is wrong");
  }
  std::size_t at = 1;
  for (std::size_t it = 0; it < chain.size(); ++it) {
    for (std::size_t k = 0; k < chain[it].size(); ++k, ++at) {
      if (at >= rows.size() || rows[at].size() != head.size()) {
        sim::violation("csv", "row %zu of the checkpoint is missing or short", at);
      }
      const auto &w = chain[it][k];
      const auto want = set_tunable_params_values(params, w.params);
      bool ok = rows[at][0] == std::to_string(it) && rows[at][2] == std::to_string(k) &&
                std::fabs(std::stod(rows[at][1]) - w.log_prob) <=
                    1e-6 + 1e-6 * std::fabs(w.log_prob);
      std::size_t col = 3;
      for (const auto &kv : want) {
        ok = ok && near(std::stod(rows[at][col++]), kv.second.value);
      }
      if (!ok) {
        std::string line;
        for (const auto &v : rows[at]) {
          line += v + ",";
        }
        sim::violation("csv", "iteration %zu, walker %zu is written as %s", it, k,
                       line.c_str());
      }
    }
  }
  if (at != rows.size()) {
    sim::violation("csv", "%zu unexpected rows", rows.size() - at);
  }
}

// What can be read back from a file cut anywhere.
void expect_recovery(const std::string &text, const std::string &full,
                     const ParameterStore &params,
                     const std::vector<EnsembleSamplerState> &chain,
                     std::vector<std::vector<double>> *recovered) {
  const std::size_t n_cols = 3 + params.size();
  std::size_t complete = 0; // lines
  for (const char c : text) {
    complete += c == '\n';
  }
  const std::size_t last = text.find_last_of('\n');
  const std::string torn = text.substr(last == std::string::npos ? 0 : last + 1);
  const auto torn_cols = static_cast<std::size_t>(1 + std::count(torn.begin(), torn.end(), ','));
  bool refused = false;
  std::vector<std::vector<double>> got;
  std::istringstream is(text);
  try {
    sim::AssertThrows scope;
    got = initial_params_from_csv(params, is);
  } catch (const sim::AssertionFailed &) {
    refused = true;
  }
  if (refused) {
    if (complete && torn.empty()) {
      sim::violation("recovery", "a checkpoint of %zu whole lines is refused", complete);
    }
    sim::probe("recovery-refused");
    sim::evaluated(false);
    return;
  }
  if (text.empty()) {
    sim::violation("recovery", "an empty checkpoint is accepted");
  }
  // Rows of the last iteration.
  std::size_t rows = complete ? complete - 1 : 0;
  const bool torn_row = complete && !torn.empty();
  if (torn_row) {
    if (torn_cols != n_cols) {
      sim::violation("recovery", "a row of %zu of %zu columns is accepted", torn_cols, n_cols);
    }
    ++rows;
  }
  const std::size_t n = chain[0].size();
  const std::size_t it = rows ? (rows - 1) / n : 0;
  const std::size_t want = rows - it * n;
  if (got.size() != want) {
    sim::violation("recovery", "%zu walkers of iteration %zu are in the file, %zu were read",
                   want, it, got.size());
  }
  for (std::size_t k = 0; k < want; ++k) {
    // As the model sees them: within bounds.
    const auto expect =
        get_tunable_parameters(set_tunable_params_values(params, chain[it][k].params)).values;
    bool ok = got[k].size() == expect.size();
    for (std::size_t i = 0; ok && i < expect.size(); ++i) {
      ok = std::fabs(got[k][i] - expect[i]) <= 1e-11 * (1. + std::fabs(expect[i]));
    }
    if (!ok) {
      if (torn_row && k + 1 == want) {
        sim::violation("torn-value", "a value cut in the middle is read as if it was whole");
      }
      sim::violation("recovery", "walker %zu of iteration %zu is not read back", k, it);
    }
  }
  sim::evaluated(want > 0, sim::mix(rows, hash_chain({chain[it]}, text.size() == full.size())));
  if (recovered && want >= 3) {
    *recovered = got;
  }
}

void on_model() {
  auto model = gp_from_covariance_and_mean(
      Field() + measurement_only(IndependentNoise<double>()), Trend(), "sampled");
  open_params(model);
  const ParameterStore params = model.get_params();
  const auto data = draw_data();
  const std::size_t n_clients = 1 + sim::w(3);
  const std::size_t walkers = 3 + sim::w(14);
  const std::size_t iterations = sim::w(12);
  struct Out {
    unsigned seed;
    std::vector<EnsembleSamplerState> chain;
    std::shared_ptr<std::ostream> csv_os, ml_os;
    std::unique_ptr<MemFile> csv, ml;
    std::shared_ptr<CsvWritingCallback> csv_cb;
    std::shared_ptr<MaximumLikelihoodTrackingCallback> ml_cb;
    std::size_t callbacks = 0;
  };
  std::vector<Out> outs(n_clients);
  for (auto &o : outs) {
    o.seed = static_cast<unsigned>(1 + sim::w(500));
    const bool small = sim::f(3) == 2;
    o.csv = std::make_unique<MemFile>(small ? sim::f(6000) : SIZE_MAX);
    o.ml = std::make_unique<MemFile>(small ? sim::f(600) : SIZE_MAX);
    o.csv_os = std::make_shared<std::ostream>(o.csv.get());
    o.ml_os = std::make_shared<std::ostream>(o.ml.get());
    o.csv_cb = std::make_shared<CsvWritingCallback>(get_csv_writing_callback(model, o.csv_os));
    o.ml_cb = std::make_shared<MaximumLikelihoodTrackingCallback>(params, o.ml_os);
  }
  const auto sample = [&](Out &o) {
    std::default_random_engine gen(o.seed);
    const auto both = [&](std::size_t i, const EnsembleSamplerState &e) {
      (*o.csv_cb)(i, e);
      (*o.ml_cb)(i, e);
      ++o.callbacks;
      sim::yield_point();
    };
    o.chain = ensemble_sampler(model, data, walkers, iterations, gen, both);
  };
  sim::begin(sim::random_sched());
  {
    std::vector<std::thread> threads;
    for (std::size_t i = 1; i < n_clients; ++i) {
      threads.emplace_back([&, i] { sample(outs[i]); });
    }
    sample(outs[0]);
    for (auto &t : threads) {
      t.join();
    }
  }
  sim::end();
  const auto after = model.get_params();
  for (const auto &kv : params) {
    const auto &now = after.at(kv.first);
    if (!same_double(now.value, kv.second.value) || !(now.prior == kv.second.prior)) {
      sim::violation("model", "sampling changed parameter %s of the model", kv.first.c_str());
    }
  }
  const auto tunable = get_tunable_parameters(params).values;
  for (auto &o : outs) {
    if (o.chain.size() != iterations + 1 || o.callbacks != iterations + 1) {
      sim::violation("reported", "%zu iterations gave %zu states and %zu callbacks",
                     iterations, o.chain.size(), o.callbacks);
    }
    if (o.chain[0].size() < walkers || o.chain[0].size() < 2 * tunable.size() + 1) {
      sim::violation("start", "%zu walkers of %zu parameters began as %zu", walkers,
                     tunable.size(), o.chain[0].size());
    }
    double best = -HUGE_VAL;
    ParameterStore best_params = params;
    std::size_t moved = 0;
    for (const auto &e : o.chain) {
      for (const auto &w : e) {
        auto m = model;
        m.set_tunable_params_values(w.params);
        const double ll = m.log_likelihood(data);
        if (!same_double(ll, w.log_prob)) {
          sim::violation("state", "a walker has log probability %.17g, its model %.17g",
                         w.log_prob, ll);
        }
        if (w.log_prob > best) {
          best = w.log_prob;
          best_params = set_tunable_params_values(params, w.params);
        }
      }
      moved += std::any_of(e.begin(), e.end(), [](const auto &w) { return w.accepted; });
    }
    auto m = model;
    m.set_tunable_params_values(tunable);
    if (std::isfinite(m.log_likelihood(data))) {
      if (!same(o.chain[0][0].params, tunable)) {
        sim::violation("start", "the first walker is not the model");
      }
    }
    if (!same_double(o.ml_cb->max_ll, best)) {
      sim::violation("best", "tracked maximum %.17g, seen %.17g", o.ml_cb->max_ll, best);
    }
    for (const auto &kv : best_params) {
      if (!same_double(o.ml_cb->param_store.at(kv.first).value, kv.second.value)) {
        sim::violation("best", "the tracked parameters are not the best ones");
      }
    }
    // Each move, from what the target would have said.
    for (std::size_t i = 1; i < o.chain.size(); ++i) {
      for (std::size_t k = 0; k < o.chain[i].size(); ++k) {
        if (!o.chain[i][k].accepted && !same(o.chain[i][k].params, o.chain[i - 1][k].params)) {
          sim::violation("state", "a walker moved without accepting");
        }
      }
    }
    // The checkpoint, whatever became of the disk.
    const std::string &text = o.csv->text();
    MemFile whole;
    {
      auto os = std::make_shared<std::ostream>(&whole);
      auto cb = CsvWritingCallback(params, std::static_pointer_cast<std::ostream>(os));
      for (std::size_t i = 0; i < o.chain.size(); ++i) {
        cb(i, o.chain[i]);
      }
    }
    expect_csv(whole.text(), params, o.chain);
    if (o.csv->full()) {
      sim::fault_fired("disk-full");
      if (o.csv_os->good()) {
        sim::violation("csv", "rows were lost but the stream is good");
      }
      if (text.size() > whole.text().size() ||
          whole.text().compare(0, text.size(), text) != 0) {
        sim::violation("csv", "a full disk left something else than a prefix");
      }
    } else if (text != whole.text()) {
      sim::violation("csv", "the checkpoint depends on the interleaving");
    }
    std::vector<std::vector<double>> recovered;
    expect_recovery(text, whole.text(), params, o.chain, &recovered);
    sim::evaluated(moved > 1, hash_chain(o.chain, 3));
  }
  for (std::size_t i = 1; i < n_clients; ++i) {
    if (outs[i].seed == outs[0].seed && !same(outs[i].chain, outs[0].chain)) {
      sim::violation("repeat", "the same seed gives another chain");
    }
  }
  std::default_random_engine gen(outs[0].seed);
  if (!same(ensemble_sampler(model, data, walkers, iterations, gen), outs[0].chain)) {
    sim::violation("repeat", "the same seed gives another chain");
  }
}

// A process that checkpoints, dies anywhere and goes on from its checkpoint.
void checkpoint() {
  auto model = gp_from_covariance_and_mean(
      Field() + measurement_only(IndependentNoise<double>()), Trend(), "sampled");
  open_params(model);
  const ParameterStore params = model.get_params();
  const auto data = draw_data();
  const auto f = [&](const std::vector<double> &x) {
    auto m = model;
    m.set_tunable_params_values(x);
    return m.log_likelihood(data);
  };
  std::default_random_engine gen(static_cast<unsigned>(1 + sim::w(500)));
  std::normal_distribution<double> jitter(0., 0.1);
  auto start = initial_params_from_jitter(params, jitter, gen, 3 + sim::w(6));
  const std::size_t lives = 1 + sim::f(3);
  for (std::size_t life = 0; life < lives; ++life) {
    MemFile file;
    std::vector<EnsembleSamplerState> chain;
    {
      auto os = std::make_shared<std::ostream>(&file);
      auto cb = CsvWritingCallback(params, std::static_pointer_cast<std::ostream>(os));
      chain = ensemble_sampler(f, start, 1 + sim::w(6), gen, cb);
    }
    if (life && !start.empty()) {
      for (std::size_t k = 0; k < start.size(); ++k) {
        if (std::isfinite(f(start[k])) && !same(chain[0][k].params, start[k])) {
          break; // an unusable walker shifts the others
        }
        if (k + 1 == start.size()) {
          sim::probe("resumed-exactly");
        }
      }
    }
    expect_csv(file.text(), params, chain);
    // Where the process dies.
    std::vector<std::vector<double>> recovered;
    expect_recovery(file.text(), file.text(), params, chain, &recovered);
    const std::size_t cuts = 1 + sim::f(6);
    for (std::size_t i = 0; i < cuts; ++i) {
      std::string text = file.text();
      const bool at_line = sim::f(2);
      text.resize(sim::f(text.size() + 1));
      if (at_line) {
        const auto nl = text.find_last_of('\n');
        text.resize(nl == std::string::npos ? 0 : nl + 1);
      }
      sim::fault_fired(at_line ? "crash-between-rows" : "crash-torn-row");
      expect_recovery(text, file.text(), params, chain, &recovered);
    }
    // The disk fails while the checkpoint is read.
    if (sim::f(2)) {
      BadDisk disk(file.text(), sim::f(file.text().size()), 1 + sim::f(200));
      std::istream is(&disk);
      std::vector<std::vector<double>> result;
      bool failed = false;
      try {
        sim::AssertThrows scope;
        result = initial_params_from_csv(params, is);
      } catch (const std::ios_base::failure &) {
        failed = true;
      } catch (const sim::AssertionFailed &) {
        failed = true;
      }
      sim::fault_fired("disk-read-error");
      if (!failed) {
        sim::violation("recovery", "a checkpoint that could only be read in part gave "
                                   "%zu walkers",
                       result.size());
      }
      sim::evaluated(false);
    }
    // Memory runs out while the checkpoint is read.
    if (sim::f(2)) {
      const auto once = [&] {
        std::istringstream is(file.text());
        return initial_params_from_csv(params, is);
      };
      auto want = once();
      sim::count_allocs_begin();
      auto got = once();
      const auto n = sim::count_allocs_end();
      bool failed = false, fired;
      const auto blocks = sim::live_blocks();
      {
        std::vector<std::vector<double>> result;
        const auto k = sim::f(n);
        try {
          sim::AssertThrows scope;
          sim::arm_alloc_fault(k);
          result = once();
        } catch (const std::bad_alloc &) {
          failed = true;
        } catch (const sim::AssertionFailed &) {
          failed = true; // streams swallow exceptions
        }
        fired = sim::alloc_fault_fired();
        sim::disarm_alloc_fault();
        if (fired) {
          sim::fault_fired("alloc");
        }
        if (!failed) {
          bool equal = result.size() == want.size();
          for (std::size_t k = 0; equal && k < want.size(); ++k) {
            equal = same(result[k], want[k]);
          }
          if (!equal) {
            sim::violation("recovery", "running out of memory changed what was read");
          }
        }
      }
      if (sim::live_blocks() != blocks) {
        sim::violation("leak", "%lld blocks were lost",
                       (long long)(sim::live_blocks() - blocks));
      }
      sim::evaluated(failed, n);
    }
    if (recovered.size() < 3) {
      return;
    }
    std::size_t usable = 0;
    for (const auto &p : recovered) {
      usable += std::isfinite(f(p));
    }
    if (usable < 3) {
      return;
    }
    start = recovered;
    sim::probe("resumed");
  }
}
#endif
} // namespace p11

#if SHARD == 0
void sim_run() {
  switch (sim::w(5)) {
  case 0:
  case 1:
    return p11::generic();
  case 2:
  case 3:
    return p11::on_model();
  default:
    return p11::checkpoint();
  }
}
#endif
