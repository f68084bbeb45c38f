// SHARDS: 3
// P12: tuners return the best parameters they evaluated, inside the bounds,
// whatever the objective does.
#include <albatross/Tune>
#include <albatross/GP>
#include <albatross/LeastSquares>
#include <albatross/Evaluation>

#include "gpworld.h"
#include "num.h"
#include "sim.h"

#include <functional>
#include <memory>
#include <mutex>
#include <ostream>
#include <sstream>
#include <streambuf>
#include <thread>

#if SHARD == 0
extern const char *const kProperty, *const kRule, *const kRealCode, *const kStubs;
extern const std::vector<std::string> kAssumptions;
const char *const kProperty = "P12";
const char *const kRule =
    "one evaluation = one tuning (generic tuner with one of three signatures, "
    "model tuner, greedy tuner) or one numerical gradient, checked against the "
    "recorded calls of the objective; non-trivial = at least two objective calls; "
    "distinct by kind, parameters and recorded calls";
const char *const kRealCode =
    "GenericTuner, ModelTuner, run_optimizer, default optimizers, greedy_tune, "
    "compute_gradient, get_tunable_parameters, set_tunable_params_values, priors, "
    "parameter handling of Gaussian processes, NLopt";
const char *const kStubs =
    "ThreadPool (FIFO stub), pthread scheduling, clocks; objectives are simulated";
const std::vector<std::string> kAssumptions = {
    "NLopt is trusted to run its algorithm; only what albatross promises about "
    "the result is checked",
    "gradient based optimizers are only required to return parameters no worse "
    "than the initial ones for well behaved objectives"};
#endif

namespace p12 {
using namespace albatross;

struct Boom {};

// A stream that stops accepting characters.
class Disk : public std::streambuf {
public:
  explicit Disk(std::size_t capacity) : left_(capacity) {}
  bool full() const { return full_; }

protected:
  int overflow(int c) override {
    if (left_ == 0) {
      full_ = true;
      return traits_type::eof();
    }
    --left_;
    return c;
  }
  std::streamsize xsputn(const char *, std::streamsize n) override {
    const auto k = std::min<std::size_t>(left_, static_cast<std::size_t>(n));
    left_ -= k;
    full_ = full_ || k < static_cast<std::size_t>(n);
    return static_cast<std::streamsize>(k);
  }

private:
  std::size_t left_;
  bool full_ = false;
};

struct Record {
  ParameterStore params;
  std::vector<double> x;
  double value;
};

// What happens in the objective.
struct Plan {
  std::vector<double> centre; // of the bowl, per tunable parameter, 0..1
  double ripple = 0.;
  std::uint64_t salt = 0;
  int nan_of = 0;       // a value is NaN with probability 1/nan_of
  int inf_of = 0;
  std::size_t boom_at = SIZE_MAX;
  int boom_kind = 0;
  std::uint64_t cost_ns = 0;
  std::size_t jump_at = SIZE_MAX;
  bool yields = false;
};

// Calls of one objective.
struct Log {
  std::vector<Record> calls;
  std::size_t after_boom = 0;
  bool boomed = false;
};

inline double bowl(const Plan &p, const std::vector<double> &u) {
  // u: parameters on a 0..1 scale
  double v = 0.25;
  std::uint64_t h = p.salt;
  for (std::size_t i = 0; i < u.size(); ++i) {
    const double d = u[i] - p.centre[i % p.centre.size()];
    v += (1. + 0.5 * static_cast<double>(i)) * d * d;
    std::uint64_t bits;
    std::memcpy(&bits, &u[i], sizeof bits);
    h = sim::mix(h, bits);
  }
  v += p.ripple * static_cast<double>(h % 1000) * 1e-3;
  if (p.nan_of && (h >> 10) % static_cast<std::uint64_t>(p.nan_of) == 0) {
    return NAN;
  }
  if (p.inf_of && (h >> 20) % static_cast<std::uint64_t>(p.inf_of) == 0) {
    return (h >> 30) % 2 ? INFINITY : 1e300;
  }
  return v;
}

inline void effects(const Plan &p, Log *log, std::size_t index) {
  if (p.yields) {
    sim::yield_point();
  }
  if (p.cost_ns && sim::active()) {
    std::this_thread::sleep_for(std::chrono::nanoseconds(p.cost_ns));
  }
  if (index == p.jump_at && sim::active()) {
    sim::fault_fired("long-stall");
    std::this_thread::sleep_for(std::chrono::hours(100));
  }
  if (log->boomed) {
    ++log->after_boom;
  }
  if (index == p.boom_at) {
    log->boomed = true;
    sim::fault_fired("objective-throws");
    switch (p.boom_kind) {
    case 0:
      throw Boom();
    case 1:
      throw std::bad_alloc();
    case 2:
      throw std::invalid_argument("injected");
    default:
      throw std::runtime_error("injected");
    }
  }
}

// A parameter on a 0..1 scale, roughly.
inline double unit(const Parameter &p) {
  double lo = p.prior.lower_bound(), hi = p.prior.upper_bound(), v = p.value;
  if (p.prior.is_log_scale()) {
    lo = std::log(lo);
    hi = std::log(hi);
    v = std::log(v);
  }
  if (hi - lo > 1e6) {
    return std::atan(v * 0.2) / M_PI + 0.5;
  }
  return (v - lo) / (hi - lo);
}

inline ParameterStore draw_params(bool any_kind, std::size_t max_n) {
  ParameterStore out;
  const std::size_t n = 1 + sim::w(max_n);
  for (std::size_t i = 0; i < n; ++i) {
    const std::string name = std::string(1, static_cast<char>('a' + (i * 7) % 26)) +
                             (sim::w(2) ? "_a longer parameter name" : "");
    const double u = sim::w(5) == 4 ? static_cast<double>(sim::w(2)) : sim::real(0.02, 0.98);
    const auto between = [&](double lo, double hi) {
      return u == 0. ? lo : (u == 1. ? hi : lo + u * (hi - lo));
    };
    switch (any_kind ? sim::w(8) : 0) {
    case 0: {
      const double lo = static_cast<double>(sim::range(-4, 2));
      const double hi = lo + static_cast<double>(1 + sim::w(8));
      out[name] = {between(lo, hi), UniformPrior(lo, hi)};
      break;
    }
    case 1: {
      const double lo = std::pow(10., static_cast<double>(sim::range(-3, 0)));
      const double hi = lo * std::pow(10., static_cast<double>(1 + sim::w(4)));
      out[name] = {u == 0. ? lo : (u == 1. ? hi : lo * std::pow(hi / lo, u)),
                   LogScaleUniformPrior(lo, hi)};
      break;
    }
    case 2:
      out[name] = {u == 0. ? std::numeric_limits<double>::epsilon() : u * 5.,
                   PositivePrior()};
      break;
    case 3:
      out[name] = {u * 5., NonNegativePrior()};
      break;
    case 4:
      out[name] = {u * 10. - 5., UninformativePrior()};
      break;
    case 5:
      out[name] = {u * 4. - 2., GaussianPrior(0.5, 2.)};
      break;
    case 6:
      out[name] = {u * 10., PositiveGaussianPrior(0., 1.)};
      break;
    default:
      out[name] = {u * 6., FixedPrior()};
    }
  }
  return out;
}

inline std::size_t tunable_count(const ParameterStore &p) {
  std::size_t n = 0;
  for (const auto &kv : p) {
    n += !kv.second.is_fixed();
  }
  return n;
}

inline Plan draw_plan(std::size_t n) {
  Plan p;
  for (std::size_t i = 0; i < std::max<std::size_t>(n, 1); ++i) {
    p.centre.push_back(sim::w(4) == 3 ? sim::real(-0.4, 1.4) : sim::real(0.05, 0.95));
  }
  p.ripple = sim::w(3) == 2 ? sim::real(0., 2.) : 0.;
  p.salt = sim::w(1u << 16);
  p.nan_of = sim::w(3) == 2 ? static_cast<int>(1 + sim::w(5)) : 0;
  p.inf_of = sim::w(4) == 3 ? static_cast<int>(1 + sim::w(5)) : 0;
  return p;
}

inline bool same_double(double a, double b) {
  return a == b || (std::isnan(a) && std::isnan(b));
}

// Same names, priors and fixed values; valid.
inline void expect_sane(const char *what, const ParameterStore &initial,
                        const ParameterStore &got) {
  if (got.size() != initial.size()) {
    sim::violation("parameters", "%s: %zu parameters became %zu", what,
                   initial.size(), got.size());
  }
  auto j = got.begin();
  for (auto i = initial.begin(); i != initial.end(); ++i, ++j) {
    if (i->first != j->first || !(i->second.prior == j->second.prior)) {
      sim::violation("parameters", "%s: parameter %s changed its name or prior",
                     what, i->first.c_str());
    }
    if (i->second.is_fixed()) {
      if (!(i->second.value == j->second.value)) {
        sim::violation("fixed", "%s: fixed parameter %s changed from %.17g to %.17g",
                       what, i->first.c_str(), i->second.value, j->second.value);
      }
    } else if (!(j->second.value >= i->second.prior.lower_bound() &&
                 j->second.value <= i->second.prior.upper_bound())) {
      sim::violation("bounds", "%s: %s = %.17g is outside [%.17g, %.17g]", what,
                     i->first.c_str(), j->second.value,
                     i->second.prior.lower_bound(), i->second.prior.upper_bound());
    }
  }
}

inline bool near(double a, double b) {
  return same_double(a, b) || std::fabs(a - b) <= 1e-9 * (1e-9 + std::fabs(b));
}
inline bool near(const ParameterStore &a, const ParameterStore &b) {
  auto j = b.begin();
  for (auto i = a.begin(); i != a.end(); ++i, ++j) {
    if (!near(i->second.value, j->second.value)) {
      return false;
    }
  }
  return true;
}
inline bool equal(const ParameterStore &a, const ParameterStore &b) {
  auto j = b.begin();
  for (auto i = a.begin(); i != a.end(); ++i, ++j) {
    if (!same_double(i->second.value, j->second.value)) {
      return false;
    }
  }
  return true;
}

inline double ranked(double v) { return std::isnan(v) ? INFINITY : v; }

inline std::uint64_t hash_calls(const Log &log, std::uint64_t h) {
  for (const auto &c : log.calls) {
    h = sim::hash_bytes(&c.value, sizeof c.value, h);
  }
  return h;
}

// The result is the best of what was evaluated.
inline void expect_best(const char *what, const ParameterStore &initial,
                        const Log &log, const ParameterStore &got) {
  double best = INFINITY;
  for (const auto &c : log.calls) {
    best = std::min(best, ranked(c.value));
  }
  bool found = false;
  double at = NAN;
  for (const auto &c : log.calls) {
    if (near(c.params, got)) {
      at = std::isnan(at) ? ranked(c.value) : std::min(at, ranked(c.value));
      found = true;
    }
  }
  if (!found) {
    if (std::isinf(best) && near(got, initial)) {
      return;
    }
    sim::violation("best", "%s: the result is none of the %zu evaluated parameters",
                   what, log.calls.size());
  }
  if (!(at <= best)) {
    sim::violation("best", "%s: the result has objective %.17g, but %.17g was seen",
                   what, at, best);
  }
}

void generic_params();
void generic_vectors();
void greedy();
void gradients();
void model_tuner();

#if SHARD == 0
ParameterStore run_params(GenericTuner &tuner, const Plan &plan, Log *log) {
  auto objective = [&](const ParameterStore &p) {
    std::size_t index;
    double value;
    {
      sim::Quiet quiet;
      index = log->calls.size();
      std::vector<double> u;
      for (const auto &kv : p) {
        if (!kv.second.is_fixed()) {
          u.push_back(unit(kv.second));
        }
      }
      value = bowl(plan, u);
      log->calls.push_back({p, {}, value});
    }
    effects(plan, log, index);
    return value;
  };
  return tuner.tune(objective);
}

struct Limits {
  int maxeval;
  double maxtime;
  bool neldermead;
};

void apply_limits(nlopt::opt &o, const Limits &l) {
  o.set_maxeval(l.maxeval);
  if (l.maxtime > 0.) {
    o.set_maxtime(l.maxtime);
  }
}

void generic_params() {
  struct Client {
    ParameterStore initial;
    Plan plan;
    Limits limits;
    std::size_t capacity;
    Log log;
    ParameterStore result;
    std::unique_ptr<Disk> disk;
    std::unique_ptr<std::ostream> os;
    std::unique_ptr<GenericTuner> tuner;
  };
  std::vector<std::unique_ptr<Client>> clients;
  const std::size_t n_clients = 1 + sim::w(3);
  for (std::size_t i = 0; i < n_clients; ++i) {
    auto c = std::make_unique<Client>();
    c->initial = draw_params(true, 4);
    if (tunable_count(c->initial) == 0) {
      c->initial["z"] = {1., UniformPrior(0., 3.)};
    }
    c->plan = draw_plan(tunable_count(c->initial));
    c->plan.yields = true;
    c->limits.maxeval = static_cast<int>(1 + sim::w(sim::w(4) == 3 ? 150 : 40));
    c->limits.neldermead = sim::w(3) == 2;
    c->limits.maxtime = 0.;
    if (sim::f(4) == 3) {
      c->limits.maxtime = 0.01 * static_cast<double>(1 + sim::f(20));
      c->plan.cost_ns = 1000000 * (1 + sim::f(10));
      if (sim::f(2)) {
        c->plan.jump_at = sim::f(20);
      }
    }
    c->capacity = sim::f(3) == 2 ? sim::f(3000) : SIZE_MAX;
    c->disk = std::make_unique<Disk>(c->capacity);
    c->os = std::make_unique<std::ostream>(c->disk.get());
    c->tuner = std::make_unique<GenericTuner>(c->initial, *c->os);
    if (c->limits.neldermead) {
      c->tuner->optimizer = default_optimizer(c->initial, nlopt::LN_NELDERMEAD);
    }
    apply_limits(c->tuner->optimizer, c->limits);
    clients.push_back(std::move(c));
  }
  sim::begin(sim::random_sched());
  {
    const auto work = [&](std::size_t i) {
      Client &c = *clients[i];
      c.result = run_params(*c.tuner, c.plan, &c.log);
    };
    std::vector<std::thread> threads;
    for (std::size_t i = 1; i < n_clients; ++i) {
      threads.emplace_back(work, i);
    }
    work(0);
    for (auto &t : threads) {
      t.join();
    }
  }
  sim::end();
  for (auto &cp : clients) {
    Client &c = *cp;
    if (c.disk->full()) {
      sim::fault_fired("log-disk-full");
    }
    if (!equal(c.tuner->initial_params, c.initial)) {
      sim::violation("parameters", "the tuner's initial parameters changed");
    }
    expect_sane("tuner result", c.initial, c.result);
    for (const auto &r : c.log.calls) {
      expect_sane("evaluated parameters", c.initial, r.params);
    }
    if (c.log.calls.empty() || !near(c.log.calls[0].params, c.initial)) {
      sim::violation("start", "the tuner does not start at the initial parameters");
    }
    expect_best("generic tuner", c.initial, c.log, c.result);
    if (static_cast<int>(c.log.calls.size()) > c.limits.maxeval) {
      sim::violation("limit", "%zu evaluations, the limit is %d",
                     c.log.calls.size(), c.limits.maxeval);
    }
    if (c.limits.maxtime > 0. && c.plan.cost_ns) {
      const auto most = static_cast<std::size_t>(c.limits.maxtime * 1e9 /
                                                 static_cast<double>(c.plan.cost_ns)) + 3;
      if (c.log.calls.size() > most) {
        sim::violation("limit", "%zu evaluations of %g ms, the time limit is %g s",
                       c.log.calls.size(), static_cast<double>(c.plan.cost_ns) * 1e-6,
                       c.limits.maxtime);
      }
      sim::probe("time-limited");
    }
    sim::evaluated(c.log.calls.size() > 1, hash_calls(c.log, 3));
  }
  // Again, alone, with the same tuner, after a failure.
  Client &c = *clients[sim::w(n_clients)];
  if (c.limits.maxtime > 0.) {
    return;
  }
  if (sim::f(2)) {
    Log log;
    Plan plan = c.plan;
    plan.boom_at = sim::f(c.log.calls.size());
    plan.boom_kind = static_cast<int>(sim::f(4));
    bool thrown = false;
    const std::int64_t blocks = sim::live_blocks();
    std::int64_t logged = 0;
    try {
      (void)run_params(*c.tuner, plan, &log);
    } catch (...) {
      thrown = true;
    }
    (void)blocks;
    (void)logged;
    if (!thrown) {
      sim::violation("exception", "the objective threw (kind %d) at call %zu of %zu "
                                  "but tune returned",
                     plan.boom_kind, plan.boom_at, c.log.calls.size());
    }
    if (log.after_boom) {
      sim::violation("exception", "the objective is called %zu times after it threw",
                     log.after_boom);
    }
    sim::evaluated(true, sim::mix(plan.boom_at, 5));
  }
  {
    Log log;
    const auto again = run_params(*c.tuner, c.plan, &log);
    if (!equal(again, c.result) || log.calls.size() != c.log.calls.size()) {
      sim::violation("repeat", "tuning again takes %zu evaluations instead of %zu or "
                               "ends elsewhere",
                     log.calls.size(), c.log.calls.size());
    }
    for (std::size_t i = 0; i < log.calls.size(); ++i) {
      if (!equal(log.calls[i].params, c.log.calls[i].params)) {
        sim::violation("repeat", "tuning again differs at evaluation %zu", i);
      }
    }
    sim::evaluated(log.calls.size() > 1, hash_calls(log, 4));
  }
}

// Vectors instead of named parameters.
template <typename X> X as(const std::vector<double> &v);
template <> std::vector<double> as(const std::vector<double> &v) { return v; }
template <> Eigen::VectorXd as(const std::vector<double> &v) {
  return Eigen::Map<const Eigen::VectorXd>(v.data(), static_cast<long>(v.size()));
}
template <typename X> void vectors() {
  const std::size_t n = 1 + sim::w(sim::w(3) == 2 ? 14 : 4);
  std::vector<double> start;
  for (std::size_t i = 0; i < n; ++i) {
    start.push_back(static_cast<double>(i) - 2. + sim::real(0., 1.));
  }
  const Plan plan = draw_plan(n);
  Log log;
  std::ostringstream os;
  GenericTuner tuner(start, os);
  const int maxeval = static_cast<int>(1 + sim::w(60));
  const bool gradient = sim::w(3) == 2 && n < 5;
  if (gradient) {
    tuner.optimizer = default_gradient_optimizer(tuner.initial_params);
  }
  const auto workers = gradient ? sim::w(4) : 0;
  tuner.optimizer.set_maxeval(maxeval);
  auto objective = [&](const X &x) {
    sim::Quiet quiet;
    std::vector<double> u(static_cast<std::size_t>(x.size())), plain;
    for (std::size_t i = 0; i < u.size(); ++i) {
      plain.push_back(x[static_cast<long>(i)]);
      u[i] = std::atan((plain[i] - static_cast<double>(i)) * 0.2) / M_PI + 0.5;
    }
    Plan smooth(plan);
    if (gradient) {
      smooth.ripple = 0.;
      smooth.nan_of = smooth.inf_of = 0;
    }
    const double value = bowl(smooth, u);
    log.calls.push_back({ParameterStore(), plain, value});
    return value;
  };
  X out;
  sim::begin(sim::random_sched());
  if (workers) {
    tuner.threads = make_shared_thread_pool(workers);
  }
  try {
    out = tuner.tune(objective);
  } catch (const nlopt::roundoff_limited &) {
    sim::probe("roundoff-limited");
    tuner.threads.reset();
    sim::end();
    return;
  }
  tuner.threads.reset();
  sim::end();
  if (log.calls.empty() || log.calls[0].x.size() != n || static_cast<std::size_t>(out.size()) != n) {
    sim::violation("shape", "a vector of %zu became one of %zu", n,
                   static_cast<std::size_t>(out.size()));
  }
  for (std::size_t i = 0; i < n; ++i) {
    if (log.calls[0].x[i] != start[i]) {
      sim::violation("start", "tuning of %zu numbers starts with x[%zu] = %.17g "
                              "instead of %.17g",
                     n, i, log.calls[0].x[i], start[i]);
    }
  }
  double best = INFINITY, at = NAN;
  for (const auto &c : log.calls) {
    best = std::min(best, ranked(c.value));
    bool same = true;
    for (std::size_t i = 0; i < n; ++i) {
      same = same && c.x[i] == out[static_cast<long>(i)];
    }
    if (same) {
      at = std::isnan(at) ? ranked(c.value) : std::min(at, ranked(c.value));
    }
  }
  if (std::isnan(at)) {
    sim::violation("best", "the result is none of the evaluated points");
  }
  if (gradient ? !(at <= ranked(log.calls[0].value)) : !(at <= best)) {
    sim::violation("best", "the result has objective %.17g, but %.17g was seen%s", at,
                   gradient ? log.calls[0].value : best,
                   gradient ? " at the start" : "");
  }
  sim::evaluated(log.calls.size() > 1, hash_calls(log, n));
}
void generic_vectors() {
  if (sim::w(2)) {
    vectors<std::vector<double>>();
  } else {
    vectors<Eigen::VectorXd>();
  }
}
#endif

#if SHARD == 1
ParameterStore run_greedy(const ParameterStore &initial, const Plan &plan,
                          std::size_t queries, std::size_t iterations,
                          ThreadPool *pool, std::ostream *os, Log *log) {
  const auto objective = [&plan, log](const ParameterStore &p) {
    std::size_t index;
    double value;
    {
      sim::Quiet quiet;
      index = log->calls.size();
      std::vector<double> u;
      for (const auto &kv : p) {
        if (!kv.second.is_fixed()) {
          u.push_back(unit(kv.second));
        }
      }
      value = bowl(plan, u);
      log->calls.push_back({p, {}, value});
    }
    if (plan.yields) {
      sim::yield_point();
    }
    if (index == plan.boom_at) {
      sim::fault_fired("objective-throws");
      throw Boom();
    }
    return value;
  };
  return greedy_tune(objective, initial, queries, iterations, pool, os);
}

void greedy() {
  const ParameterStore initial = draw_params(true, 3);
  const std::size_t n = tunable_count(initial);
  Plan plan = draw_plan(n);
  plan.yields = true;
  const std::size_t queries = 1 + sim::w(3), iterations = sim::w(4);
  const auto workers = sim::w(5);
  Log log;
  ParameterStore result;
  std::ostringstream os;
  const bool quiet_stream = sim::w(2);
  sim::begin(sim::random_sched());
  {
    auto pool = workers ? make_shared_thread_pool(workers) : nullptr;
    result = run_greedy(initial, plan, queries, iterations, pool.get(),
                        quiet_stream ? nullptr : &os, &log);
    if (sim::f(3) == 2 && !log.calls.empty()) {
      Plan bad(plan);
      bad.boom_at = sim::f(log.calls.size());
      Log failed;
      bool thrown = false;
      try {
        (void)run_greedy(initial, bad, queries, iterations, pool.get(), nullptr, &failed);
      } catch (const Boom &) {
        thrown = true;
      }
      if (!thrown) {
        sim::violation("exception", "greedy_tune returned though an evaluation threw");
      }
      sim::evaluated(true, bad.boom_at);
    }
    pool.reset();
  }
  sim::end();
  expect_sane("greedy result", initial, result);
  for (const auto &c : log.calls) {
    expect_sane("greedy evaluation", initial, c.params);
  }
  const std::size_t expected =
      n && iterations ? 2 * queries * n * iterations + 1 : 0;
  if (log.calls.size() != expected) {
    sim::violation("count", "greedy_tune evaluated %zu parameter sets, expected %zu",
                   log.calls.size(), expected);
  }
  bool any = false, tried_initial = false;
  double first = INFINITY;
  for (const auto &c : log.calls) {
    any = any || c.value < HUGE_VAL;
    if (near(c.params, initial)) {
      tried_initial = true;
      first = c.value;
    }
  }
  if (expected && !tried_initial) {
    sim::violation("start", "greedy_tune never evaluates the initial parameters");
  }
  if (any) {
    expect_best("greedy tuner", initial, log, result);
  } else if (!equal(result, initial)) {
    sim::violation("best", "no evaluation is finite but the parameters changed");
  }
  sim::evaluated(log.calls.size() > 1, hash_calls(log, workers));
  Log serial;
  const auto alone = run_greedy(initial, plan, queries, iterations, nullptr, nullptr, &serial);
  if (!equal(alone, result)) {
    sim::violation("pool", "greedy_tune with %llu workers ends elsewhere than without",
                   static_cast<unsigned long long>(workers));
  }
  // Every batch moves one parameter away from the best so far.
  std::size_t at = 0;
  ParameterStore best(initial);
  double best_value = HUGE_VAL;
  for (std::size_t it = 0; it < iterations && n; ++it) {
    std::size_t which = 0;
    for (const auto &kv : initial) {
      if (kv.second.is_fixed()) {
        continue;
      }
      const std::size_t batch = 2 * queries + (it == 0 && which == 0 ? 1 : 0);
      ParameterStore next(best);
      for (std::size_t k = 0; k < batch; ++k, ++at) {
        const auto &c = serial.calls[at];
        for (const auto &e : c.params) {
          if (e.first != kv.first && !near(e.second.value, best[e.first].value)) {
            sim::violation("greedy", "while %s is tuned %s is %.17g instead of %.17g",
                           kv.first.c_str(), e.first.c_str(), e.second.value,
                           best[e.first].value);
          }
        }
        if (c.value < best_value) {
          best_value = c.value;
          next = c.params;
        }
      }
      best = next;
      ++which;
    }
  }
}

// Derivatives by finite differences, also at the bounds.
void gradients() {
  const ParameterStore params = draw_params(true, 4);
  const auto tunable = get_tunable_parameters(params);
  const std::size_t n = tunable.values.size();
  std::vector<double> slope, curve;
  for (std::size_t i = 0; i < n; ++i) {
    slope.push_back(sim::real(0.5, 3.) * (sim::w(2) ? 1. : -1.));
    curve.push_back(sim::real(-0.2, 0.2));
  }
  // In the coordinates of the optimizer; the scale keeps rounding small.
  const auto value = [&](const std::vector<double> &x) {
    double v = 0.;
    for (std::size_t i = 0; i < n; ++i) {
      const double d = x[i] - tunable.values[i];
      v += slope[i] * d + curve[i] * d * d;
    }
    return v;
  };
  std::vector<Record> calls;
  const auto objective = [&](const ParameterStore &p) {
    sim::yield_point();
    sim::Quiet quiet;
    std::vector<double> x;
    for (const auto &kv : p) {
      if (!kv.second.is_fixed()) {
        x.push_back(kv.second.prior.is_log_scale() ? std::log(kv.second.value)
                                                   : kv.second.value);
      }
    }
    calls.push_back({p, x, 0.});
    return value(x);
  };
  const auto workers = sim::w(4);
  std::vector<double> grad, plain;
  sim::begin(sim::random_sched());
  {
    auto pool = workers ? make_shared_thread_pool(workers) : nullptr;
    grad = compute_gradient(objective, params, value(tunable.values), pool.get());
    const auto on_vectors = [&](const std::vector<double> &x) {
      sim::yield_point();
      return value(x);
    };
    plain = compute_gradient(on_vectors, tunable.values, value(tunable.values), pool.get());
  }
  sim::end();
  for (const auto &c : calls) {
    expect_sane("gradient evaluation", params, c.params);
  }
  if (grad.size() != n || plain.size() != n) {
    sim::violation("gradient", "%zu parameters, gradient of %zu", n, grad.size());
  }
  for (std::size_t i = 0; i < n; ++i) {
    const bool low = tunable.values[i] <= tunable.lower_bounds[i];
    const bool high = tunable.values[i] >= tunable.upper_bounds[i];
    double want = slope[i];
    if ((high && want < 0.) || (low && want > 0.)) {
      want = 0.; // the way down leads out of bounds
    }
    if (!(std::fabs(grad[i] - want) <= 1e-4 * std::fabs(slope[i]) + 1e-4)) {
      sim::violation("gradient", "derivative by %s (%.17g in [%g, %g]) is %.9g, "
                                 "expected %.9g",
                     tunable.names[i].c_str(), tunable.values[i],
                     tunable.lower_bounds[i], tunable.upper_bounds[i], grad[i], want);
    }
    if (!(std::fabs(plain[i] - slope[i]) <= 1e-4 * std::fabs(slope[i]) + 1e-4)) {
      sim::violation("gradient", "derivative %zu of a vector function is %.9g, "
                                 "expected %.9g",
                     i, plain[i], slope[i]);
    }
    if (low || high) {
      sim::probe("gradient-at-bound");
    }
  }
  sim::evaluated(n > 1, sim::hash_bytes(grad.data(), n * sizeof(double), workers));
}
#endif

#if SHARD == 2
using namespace gpw;
// A metric that reports what it was given.
struct Seen {
  double size, first, param;
  double value;
};
struct SpyState {
  double hole = INFINITY;
  std::vector<Seen> calls;
  Plan plan;
  Log log;
};
double holed(double nll, double length, double first, double hole);
struct SpyMetric : public ModelMetric<SpyMetric> {
  template <typename FeatureType, typename ModelType>
  double _call_impl(const RegressionDataset<FeatureType> &dataset,
                    const ModelBase<ModelType> &model) const {
    const auto params = model.get_params();
    double nll;
    {
      const auto &m = *static_cast<const ModelType *>(&model);
      nll = -m.log_likelihood(dataset);
    }
    nll = holed(nll, params.at("field_length").value, dataset.targets.mean[0], state->hole);
    std::size_t index;
    {
      sim::Quiet quiet;
      index = state->calls.size();
      state->calls.push_back({static_cast<double>(dataset.size()),
                              dataset.targets.mean[0],
                              params.at("field_length").value, nll});
      state->log.calls.push_back({params, {}, nll});
    }
    effects(state->plan, &state->log, index);
    return nll;
  }
  SpyState *state = nullptr;
};
// A metric that has no value for some data and parameters.
inline double holed(double nll, double length, double first, double hole) {
  return length > hole && first > 0. ? NAN : nll;
}

double worst(const std::vector<double> &m) {
  double out = m[0];
  for (const double v : m) {
    if (std::isnan(v) || v > out) {
      out = v;
    }
  }
  return out;
}

void model_tuner() {
  auto model = gp_from_covariance_and_mean(
      Field() + measurement_only(IndependentNoise<double>()), Trend(), "tuned");
  model.set_prior("field_sigma", UniformPrior(0.2, 3.));
  model.set_prior("field_length", LogScaleUniformPrior(0.3, 10.));
  model.set_prior("sigma_independent_noise",
                  sim::w(2) ? ParameterPrior(FixedPrior())
                            : ParameterPrior(UniformPrior(0.05, 2.)));
  model.set_param_value("sigma_independent_noise", 0.3);
  model.set_param_value("field_length", sim::real(0.4, 4.));
  std::vector<RegressionDataset<double>> datasets;
  const std::size_t n_sets = 1 + sim::w(3);
  for (std::size_t k = 0; k < n_sets; ++k) {
    std::vector<double> x;
    const std::size_t n = 2 + sim::w(4);
    Eigen::VectorXd m(n), v(n);
    for (std::size_t i = 0; i < n; ++i) {
      x.push_back(static_cast<double>(i) + sim::real(0., 0.7));
      m[static_cast<long>(i)] = sim::gauss();
      v[static_cast<long>(i)] = 0.1;
    }
    datasets.emplace_back(x, MarginalDistribution(m, v));
  }
  const bool use_worst = sim::w(2);
  const bool limited = sim::w(3);
  const int maxeval = static_cast<int>(limited ? 1 + sim::w(25) : 0);
  static const nlopt::algorithm algorithms[] = {nlopt::LN_SBPLX, nlopt::LN_NELDERMEAD,
                                                nlopt::LN_SBPLX};
  const auto algorithm = algorithms[sim::w(3)];
  const double hole = sim::f(3) == 2 ? sim::real(0.3, 5.) : INFINITY;
  const auto setup = [&](nlopt::opt &o) {
    if (limited) {
      o.set_maxeval(maxeval);
    } else {
      o.set_ftol_abs(0.5);
      o.set_xtol_rel(0.1);
    }
  };
  const ParameterStore before = model.get_params();
  const std::size_t n_clients = 1 + sim::w(3);
  std::vector<SpyState> states(n_clients);
  std::vector<ParameterStore> results(n_clients);
  sim::begin(sim::random_sched());
  {
    const auto work = [&](std::size_t i) {
      std::ostringstream os;
      SpyMetric spy;
      spy.state = &states[i];
      states[i].hole = hole;
      auto tuner = use_worst ? get_tuner(model, spy, datasets, worst, os)
                             : get_tuner(model, spy, datasets, mean_aggregator, os);
      tuner.initialize_optimizer(algorithm);
      setup(tuner.optimizer);
      results[i] = tuner.tune();
      if (!equal(tuner.model.get_params(), before)) {
        sim::violation("model", "tuning changed the tuner's model");
      }
    };
    std::vector<std::thread> threads;
    for (std::size_t i = 1; i < n_clients; ++i) {
      threads.emplace_back(work, i);
    }
    work(0);
    for (auto &t : threads) {
      t.join();
    }
  }
  sim::end();
  if (!equal(model.get_params(), before)) {
    sim::violation("model", "tuning changed the model");
  }
  const auto &calls = states[0].calls;
  if (calls.empty() || calls.size() % n_sets ||
      (limited && calls.size() / n_sets > static_cast<std::size_t>(maxeval))) {
    sim::violation("count", "%zu metric calls for %zu data sets, at most %d "
                            "evaluations",
                   calls.size(), n_sets, maxeval);
  }
  Log objective;
  for (std::size_t i = 0; i + n_sets <= calls.size(); i += n_sets) {
    std::vector<double> v;
    for (std::size_t k = 0; k < n_sets; ++k) {
      const auto &c = calls[i + k];
      if (c.size != static_cast<double>(datasets[k].size()) ||
          c.first != datasets[k].targets.mean[0]) {
        sim::violation("data", "evaluation %zu does not use data set %zu", i / n_sets, k);
      }
      if (!equal(states[0].log.calls[i + k].params, states[0].log.calls[i].params)) {
        sim::violation("data", "one evaluation uses two sets of parameters");
      }
      // The metric sees the parameters, not only their names.
      auto m = model;
      m.set_params(states[0].log.calls[i + k].params);
      const double want = holed(-m.log_likelihood(datasets[k]), c.param, c.first, hole);
      if (!same_double(want, c.value)) {
        sim::violation("data", "metric %.17g, expected %.17g", c.value, want);
      }
      v.push_back(c.value);
    }
    objective.calls.push_back({states[0].log.calls[i].params, {},
                               use_worst ? worst(v) : mean_aggregator(v)});
    expect_sane("evaluated model parameters", before, objective.calls.back().params);
  }
  // The optimizer is the one that was set.
  {
    std::ostringstream os;
    GenericTuner tuner(before, os);
    tuner.optimizer = default_optimizer(before, algorithm);
    setup(tuner.optimizer);
    std::size_t n = 0;
    const auto f = [&](const ParameterStore &p) {
      ++n;
      std::vector<double> v;
      for (const auto &d : datasets) {
        auto m = model;
        m.set_params(p);
        v.push_back(holed(-m.log_likelihood(d), p.at("field_length").value,
                          d.targets.mean[0], hole));
      }
      return use_worst ? worst(v) : mean_aggregator(v);
    };
    if (!equal(tuner.tune(f), results[0]) || n != objective.calls.size()) {
      sim::violation("optimizer", "the model tuner makes %zu evaluations, its optimizer "
                                  "alone makes %zu",
                     objective.calls.size(), n);
    }
  }
  if (!near(objective.calls[0].params, before)) {
    sim::violation("start", "the model tuner does not start at the model's parameters");
  }
  expect_sane("model tuner result", before, results[0]);
  expect_best("model tuner", before, objective, results[0]);
  sim::evaluated(objective.calls.size() > 1, hash_calls(objective, n_sets));
  for (std::size_t i = 1; i < n_clients; ++i) {
    if (!equal(results[i], results[0])) {
      sim::violation("repeat", "concurrent tunings of one model differ");
    }
  }
  if (sim::f(2)) {
    SpyState state;
    state.hole = hole;
    state.plan.boom_at = sim::f(calls.size());
    state.plan.boom_kind = static_cast<int>(sim::f(4));
    SpyMetric spy;
    spy.state = &state;
    std::ostringstream os;
    auto tuner = get_tuner(model, spy, datasets, use_worst ? worst : mean_aggregator, os);
    tuner.initialize_optimizer(algorithm);
    setup(tuner.optimizer);
    bool thrown = false;
    try {
      (void)tuner.tune();
    } catch (...) {
      thrown = true;
    }
    if (!thrown || state.log.after_boom) {
      sim::violation("exception", "a metric threw but tuning went on");
    }
    state.plan.boom_at = SIZE_MAX;
    state.calls.clear();
    state.log = Log();
    if (!equal(tuner.tune(), results[0])) {
      sim::violation("repeat", "tuning after a failure ends elsewhere");
    }
    sim::evaluated(true, hash_calls(state.log, 77));
  }
}
#endif
} // namespace p12

#if SHARD == 0
void sim_run() {
  switch (sim::w(5)) {
  case 0:
    return p12::generic_params();
  case 1:
    return p12::generic_vectors();
  case 2:
    return p12::greedy();
  case 3:
    return p12::gradients();
  default:
    return p12::model_tuner();
  }
}
#endif
