// SHARDS: 4
// P17: a fit model is a snapshot of model and data, a prediction one of the
// fit model it was made from.
#include <albatross/LeastSquares>
#include <albatross/NullModel>
#include <albatross/Ransac>
#include <albatross/SparseGP>

#include "gpworld.h"
#include "num.h"
#include "sim.h"

#include <functional>
#include <map>
#include <memory>
#include <thread>

#if SHARD == 0
extern const char *const kProperty, *const kRule, *const kRealCode, *const kStubs;
extern const std::vector<std::string> kAssumptions;
const char *const kProperty = "P17";
const char *const kRule =
    "one evaluation = one mean, marginal or joint taken from a prediction (by any of its "
    "accessors, in any thread), compared with the same taken from a new model fit to the "
    "data recorded at the time of the fit; non-trivial = something the prediction was made "
    "from has been changed, moved or destroyed since; distinct by world, history and values";
const char *const kRealCode =
    "FitModel, Prediction and its mean, marginal and joint predictors, ModelBase (fit, "
    "equality, insights, thread pool), GaussianProcessRegression, "
    "SparseGaussianProcessRegression, LinearRegression, NullModel, ConditionalGaussian, "
    "Ransac, user defined models of seven kinds and one whose fit cannot be copied";
const char *const kStubs = "ThreadPool (FIFO stub), pthread scheduling, the heap (simulated)";
const std::vector<std::string> kAssumptions = {
    "a prediction made from a named fit model refers to it and is not used after the fit "
    "model was changed, moved or destroyed"};
#endif

namespace p17 {
using namespace albatross;
using namespace gpw;

using Params = std::vector<double>;

struct Answer {
  // 0: mean, 1: mean and variance, 2: mean and covariance, side by side
  Eigen::MatrixXd part[3];
  bool have[3] = {false, false, false};
};
inline Eigen::MatrixXd as_part(const Eigen::VectorXd &m) { return m; }
inline Eigen::MatrixXd as_part(const MarginalDistribution &d) {
  const Eigen::VectorXd v = d.covariance.diagonal();
  if (v.size() != d.mean.size()) {
    sim::violation("shape", "a marginal of %ld means and %ld variances",
                   static_cast<long>(d.mean.size()), static_cast<long>(v.size()));
  }
  Eigen::MatrixXd out(d.mean.size(), 2);
  if (d.mean.size()) {
    out << d.mean, v;
  }
  return out;
}
inline Eigen::MatrixXd as_part(const JointDistribution &d) {
  const Eigen::Index n = d.mean.size();
  if (d.covariance.rows() != n || d.covariance.cols() != n) {
    sim::violation("shape", "a joint of %ld means and a %ldx%ld covariance",
                   static_cast<long>(n), static_cast<long>(d.covariance.rows()),
                   static_cast<long>(d.covariance.cols()));
  }
  Eigen::MatrixXd out(n, n + 1);
  if (n) {
    out << d.mean, d.covariance;
  }
  return out;
}

// --- user defined models -------------------------------------------------------
struct UserError {
  int tag;
};
inline thread_local std::vector<int> t_route; // predict methods called
inline thread_local int t_throw = 0;          // 1: the next call throws
inline int g_alive = 0;                       // fits that exist (main thread)

struct Token { // every fit has exactly one
  int id;
  Token() : id(0x5eed) { __atomic_add_fetch(&g_alive, 1, __ATOMIC_SEQ_CST); }
  Token(const Token &o) : Token() { o.alive(); }
  Token(Token &&o) : Token() { o.alive(); }
  Token &operator=(const Token &o) { return o.alive(), alive(), *this; }
  Token &operator=(Token &&o) { return o.alive(), alive(), *this; }
  ~Token() {
    alive();
    id = 0;
    __atomic_sub_fetch(&g_alive, 1, __ATOMIC_SEQ_CST);
  }
  void alive() const {
    if (id != 0x5eed) {
      sim::violation("lifetime", "a fit is used that does not exist any more");
    }
  }
};
template <int Mask, bool MoveOnly> class User;
} // namespace p17

namespace albatross {
template <int Mask, bool MoveOnly> struct Fit<p17::User<Mask, MoveOnly>> {
  p17::Token token;
  std::vector<double> x, y;
  double gain = 1.;
  std::conditional_t<MoveOnly, std::unique_ptr<double>, std::shared_ptr<double>> shift;
  bool operator==(const Fit &o) const {
    return x == o.x && y == o.y && gain == o.gain && *shift == *o.shift;
  }
};
} // namespace albatross

namespace p17 {
template <int Mask, bool MoveOnly>
class User : public ModelBase<User<Mask, MoveOnly>> {
public:
  using FitT = Fit<User>;
  User() { set(1., 0.); }
  void set(double gain, double bias) {
    this->params_["gain"] = {gain, PositivePrior()};
    this->params_["bias"] = {bias, UninformativePrior()};
  }
  std::string get_name() const { return "user"; }

  FitT _fit_impl(const std::vector<double> &features,
                 const MarginalDistribution &targets) const {
    call(0);
    FitT fit;
    fit.x = features;
    for (Eigen::Index i = 0; i < targets.mean.size(); ++i) {
      fit.y.push_back(targets.mean[i]);
    }
    fit.gain = this->get_param_value("gain");
    fit.shift.reset(new double(targets.covariance.diagonal().sum()));
    return fit;
  }
  FitT _update_impl(const FitT &fit, const std::vector<double> &features,
                    const MarginalDistribution &targets) const {
    fit.token.alive();
    FitT out = _fit_impl(features, targets);
    out.x.insert(out.x.begin(), fit.x.begin(), fit.x.end());
    out.y.insert(out.y.begin(), fit.y.begin(), fit.y.end());
    out.gain = fit.gain;
    *out.shift += *fit.shift;
    return out;
  }
  template <int M = Mask, std::enable_if_t<(M & 1) != 0, int> = 0>
  Eigen::VectorXd _predict_impl(const std::vector<double> &q, const FitT &fit,
                                PredictTypeIdentity<Eigen::VectorXd>) const {
    call(1);
    return mean(q, fit);
  }
  template <int M = Mask, std::enable_if_t<(M & 2) != 0, int> = 0>
  MarginalDistribution _predict_impl(const std::vector<double> &q, const FitT &fit,
                                     PredictTypeIdentity<MarginalDistribution>) const {
    call(2);
    const Eigen::VectorXd v = covariance(q, fit).diagonal();
    return MarginalDistribution(mean(q, fit), v);
  }
  template <int M = Mask, std::enable_if_t<(M & 4) != 0, int> = 0>
  JointDistribution _predict_impl(const std::vector<double> &q, const FitT &fit,
                                  PredictTypeIdentity<JointDistribution>) const {
    call(4);
    return JointDistribution(mean(q, fit), covariance(q, fit));
  }

private:
  static void call(int what) {
    t_route.push_back(what);
    if (t_throw && --t_throw == 0) {
      throw UserError{77};
    }
  }
  Eigen::VectorXd mean(const std::vector<double> &q, const FitT &fit) const {
    fit.token.alive();
    const double gain = this->get_param_value("gain"), bias = this->get_param_value("bias");
    Eigen::VectorXd m(q.size());
    for (std::size_t i = 0; i < q.size(); ++i) {
      double s = 0.;
      for (std::size_t j = 0; j < fit.x.size(); ++j) {
        s += std::exp(-std::fabs(q[i] - fit.x[j])) * fit.y[j];
      }
      m[i] = gain * fit.gain * s + bias + *fit.shift;
    }
    return m;
  }
  Eigen::MatrixXd covariance(const std::vector<double> &q, const FitT &fit) const {
    fit.token.alive();
    const double bias = this->get_param_value("bias");
    Eigen::MatrixXd c(q.size(), q.size());
    for (std::size_t i = 0; i < q.size(); ++i) {
      for (std::size_t j = 0; j < q.size(); ++j) {
        c(i, j) = i == j ? 1. + bias * bias + q[i] * q[i] + *fit.shift
                         : 0.3 * std::exp(-std::fabs(q[i] - q[j])) * fit.gain;
      }
    }
    return c;
  }
};

// --- the worlds ------------------------------------------------------------------
struct Event { // what happened to a fit model, in order
  int kind;    // 0: fit, 1: other parameters, 2: update
  Params p;
  RegressionDataset<double> d;
  std::vector<std::size_t> indices; // of the conditional Gaussian
};
using Spec = std::vector<Event>;

struct Reference {
  bool known = false;
  Eigen::VectorXd mean;
  Eigen::MatrixXd cov; // only if it has rows
};

inline RegressionDataset<double> some_data(int lo, int hi, bool equal_variances) {
  std::vector<double> x;
  const int n = static_cast<int>(sim::range(lo, hi));
  for (int i = 0; i < n; ++i) {
    x.push_back(-4. + 8. * static_cast<double>(i) / hi + sim::real(0., 0.7));
  }
  num::shuffle(x);
  Eigen::VectorXd m(n), v(n);
  for (int i = 0; i < n; ++i) {
    m[i] = sim::gauss();
    v[i] = equal_variances ? 0.3 : 0.1 + 0.2 * sim::real(0., 1.);
  }
  return RegressionDataset<double>(x, MarginalDistribution(m, v));
}
inline std::vector<double> some_query() {
  std::vector<double> q;
  const std::size_t n = sim::w(10) == 9 ? 0 : 1 + sim::w(5);
  for (std::size_t i = 0; i < n; ++i) {
    q.push_back(sim::real(-4.5, 4.5));
  }
  return q;
}

// What regression models of doubles have in common.
template <typename ModelType> struct Regression {
  using Model = ModelType;
  using Feature = double;
  static constexpr bool kMarginal = true, kJoint = true, kUpdate = true, kInPlace = false,
                        kNoisy = false, kEqual = true, kEqualVariances = false, kStore = true;
  static constexpr int kUser = 0;
  static constexpr double kTol = 1e-9;
  static std::vector<Feature> query() { return some_query(); }
  static void fill(Event &e, int lo, bool equal_variances) {
    e.d = some_data(lo, 6, equal_variances);
  }
  template <typename M> static auto fit(const M &m, const Event &e, int how) {
    switch (how) {
    case 0:
      return m.fit(e.d);
    case 1:
      return m.fit(e.d.features, e.d.targets);
    default: {
      const std::size_t k = e.d.size() / 2;
      std::vector<std::size_t> a, b;
      for (std::size_t i = 0; i < e.d.size(); ++i) {
        (i < k ? a : b).push_back(i);
      }
      return m.fit(subset(e.d, a), subset(e.d, b));
    }
    }
  }
  static Reference reference(const Spec &, const std::vector<double> &, bool) { return {}; }
};

template <typename World, typename P> Answer all_of(const P &p) {
  Answer a;
  a.part[0] = as_part(p.mean());
  a.have[0] = true;
  if constexpr (World::kMarginal) {
    a.part[1] = as_part(p.marginal());
    a.have[1] = true;
  }
  if constexpr (World::kJoint) {
    a.part[2] = as_part(p.joint());
    a.have[2] = true;
  }
  return a;
}

// The same once more, from nothing but the record.
template <typename World, int Depth, typename FM>
Answer replayed(const FM &fm, const Spec &spec, std::size_t i,
                const std::vector<typename World::Feature> &query, bool noisy) {
  if (i == spec.size()) {
    if constexpr (World::kNoisy) {
      if (noisy) {
        return all_of<World>(fm.predict(as_measurements(query)));
      }
    }
    return all_of<World>(fm.predict(query));
  }
  if constexpr (World::kUpdate && Depth > 0) {
    if (spec[i].kind == 2) {
      return replayed<World, Depth - 1>(fm.update(spec[i].d), spec, i + 1, query, noisy);
    }
  }
  if constexpr (std::is_copy_constructible<typename FM::fit_type>::value) {
    if (spec[i].kind == 1) {
      typename FM::fit_type fit = fm.get_fit();
      return replayed<World, Depth>(FM(World::make(spec[i].p), std::move(fit)), spec, i + 1,
                                    query, noisy);
    }
  } else if (spec[i].kind == 1) {
    FM &mine = const_cast<FM &>(fm);
    mine.get_model() = World::make(spec[i].p);
    return replayed<World, Depth>(fm, spec, i + 1, query, noisy);
  }
  sim::harness_error("an event of kind %d cannot be replayed", spec[i].kind);
}
template <typename World>
Answer fresh(const Spec &spec, const std::vector<typename World::Feature> &query, bool noisy) {
  const typename World::Model model = World::make(spec[0].p);
  return replayed<World, World::kDepth>(World::fit(model, spec[0], 0), spec, 1, query, noisy);
}

// --- predictions, whatever their type ---------------------------------------------
struct SlotBase {
  Spec spec;
  int pins = 0;
  std::uint64_t version = 0;
  bool usable = true;
};

template <typename World> struct Pred {
  using F = typename World::Feature;
  std::function<Eigen::MatrixXd(int)> eval; // accessor 0..8
  std::function<std::shared_ptr<Pred>(bool)> clone;
  std::function<std::size_t()> size;
  Spec spec;
  std::vector<F> query;
  bool noisy = false;
  std::shared_ptr<SlotBase> slot; // what it refers to, if anything
  std::uint64_t version = 0;
  bool disturbed = false; // something it was made from is not what it was
  bool expected_known = false;
  Answer expected, first;
  bool usable() const { return !slot || (slot->usable && slot->version == version); }
};

template <typename World, typename P>
std::shared_ptr<Pred<World>> erased(std::shared_ptr<P> p) {
  auto out = std::make_shared<Pred<World>>();
  out->size = [p] { return p->size(); };
  out->eval = [p](int accessor) -> Eigen::MatrixXd {
    switch (accessor) {
    case 0:
      return as_part(p->mean());
    case 1:
      return as_part(p->template get<Eigen::VectorXd>());
    case 2:
      return as_part(p->get(PredictTypeIdentity<Eigen::VectorXd>()));
    }
    if constexpr (World::kMarginal) {
      switch (accessor) {
      case 3:
        return as_part(p->marginal());
      case 4:
        return as_part(p->template get<MarginalDistribution>());
      case 5:
        return as_part(static_cast<MarginalDistribution>(*p));
      }
    }
    if constexpr (World::kJoint) {
      switch (accessor) {
      case 6:
        return as_part(p->joint());
      case 7:
        return as_part(p->get(PredictTypeIdentity<JointDistribution>()));
      case 8:
        return as_part(static_cast<JointDistribution>(*p));
      }
    }
    sim::harness_error("no accessor %d", accessor);
  };
  out->clone = [p](bool move) -> std::shared_ptr<Pred<World>> {
    if constexpr (std::is_copy_constructible<P>::value) {
      if (move) {
        // Its members are const: moving must leave the old one usable or gone.
        return erased<World>(std::make_shared<P>(std::move(*std::make_shared<P>(*p))));
      }
      return erased<World>(std::make_shared<P>(*p));
    } else {
      return nullptr;
    }
  };
  return out;
}

template <typename World> int some_accessor() {
  const int n = World::kJoint ? 9 : World::kMarginal ? 6 : 3;
  return static_cast<int>(sim::w(static_cast<std::uint64_t>(n)));
}

// What the user's model must have been asked for.
template <typename World>
void check_route(int accessor, bool empty, const std::vector<int> &route) {
  if constexpr (World::kUser != 0) {
    const int base = accessor / 3;
    int want = 0;
    for (const int m : {1, 2, 4}) {
      if (!want && (World::kUser & m) && m >= (1 << base)) {
        want = m;
      }
    }
    if (empty ? !route.empty() : (route.size() != 1 || route[0] != want)) {
      sim::violation("route",
                     "%s of a model with predict methods %d calls the model %zu times (first "
                     "%d), expected %d",
                     base == 0 ? "the mean" : base == 1 ? "the marginal" : "the joint",
                     World::kUser, route.size(), route.empty() ? 0 : route[0],
                     empty ? 0 : want);
    }
  }
}

template <typename World> struct Machine {
  using W = World;
  using F = typename W::Feature;
  using Model = typename W::Model;
  using FM = decltype(W::fit(std::declval<const Model &>(), std::declval<const Event &>(), 0));
  template <typename T, bool B> struct Next { using type = T; };
  template <typename T> struct Next<T, true> {
    using type = decltype(std::declval<const T &>().update(
        std::declval<const RegressionDataset<double> &>()));
  };
  using UM = typename Next<FM, W::kUpdate>::type;
  static constexpr bool kOneType = std::is_same<FM, UM>::value;
  static constexpr bool kCopy = std::is_copy_constructible<typename FM::fit_type>::value;
  template <typename T> struct Slot : SlotBase {
    std::unique_ptr<T> fm;
  };
  template <typename T> using Slots = std::vector<std::shared_ptr<Slot<T>>>;
  struct ModelSlot {
    std::unique_ptr<Model> model;
    Params p;
    std::string insight;
  };
  struct DataSlot {
    std::unique_ptr<Event> now;
    Event kept;
  };
  struct Job {
    std::thread thread;
    std::vector<std::shared_ptr<Pred<W>>> preds;
    std::vector<int> accessors;
    std::vector<Eigen::MatrixXd> got;
    std::vector<std::vector<int>> routes;
    std::vector<std::shared_ptr<SlotBase>> pinned;
  };

  std::vector<ModelSlot> models;
  std::vector<DataSlot> data;
  Slots<FM> fits;
  Slots<UM> ups;
  std::vector<std::shared_ptr<Pred<W>>> preds;
  std::vector<std::unique_ptr<Job>> jobs;
  std::uint64_t history = 1;

  void say(const char *what) {
    sim::log("%s", what);
    history = sim::hash_bytes(what, strlen(what), history);
  }
  // Runs something in which one allocation may fail; false if it did. Whatever it
  // worked on has to be as it was before.
  template <typename Op> bool attempted(const char *what, const Op &op) {
    bool done = false;
    sim::arm_alloc_fault(sim::f(std::uint64_t(1) << sim::f(10)), true);
    try {
      op();
      done = true;
    } catch (const std::bad_alloc &) {
    }
    const bool fired = sim::alloc_fault_fired();
    sim::disarm_alloc_fault();
    if (fired) {
      sim::fault_fired("alloc");
      say(what);
    } else if (!done) {
      sim::violation("error", "%s runs out of memory without need", what);
    }
    return done;
  }
  bool failing() { return sim::chance(sim::F, 1, 8); }
  // Whatever is changed, predictions that do not refer to it must not notice.
  void disturb() {
    for (auto &p : preds) {
      p->disturbed = true;
    }
    for (auto &j : jobs) {
      for (auto &p : j->preds) {
        p->disturbed = true;
      }
    }
  }

  // --- checks
  void expectation(Pred<W> &p) {
    if (p.expected_known) {
      return;
    }
    p.expected = fresh<W>(p.spec, p.query, p.noisy);
    p.expected_known = true;
    const Reference r = W::reference(p.spec, p.query, p.noisy);
    if (r.known && !p.query.empty()) {
      num::expect_close("reference", "mean", p.expected.part[0], r.mean, 1e-7);
      if (r.cov.rows() && p.expected.have[2]) {
        num::expect_close("reference", "covariance",
                          p.expected.part[2].rightCols(r.cov.cols()), r.cov, 1e-7);
      }
      sim::probe("compared with the reference");
    }
  }
  void judge(Pred<W> &p, int accessor, const Eigen::MatrixXd &got) {
    const int base = accessor / 3;
    expectation(p);
    if (p.first.have[base] && !num::same_bits(p.first.part[base], got)) {
      sim::violation("repeat", "a prediction of %zu values differs when it is evaluated again",
                     p.query.size());
    }
    if (got.rows() != static_cast<Eigen::Index>(p.query.size())) {
      sim::violation("shape", "%ld values are predicted for %zu features",
                     static_cast<long>(got.rows()), p.query.size());
    }
    p.first.part[base] = got;
    p.first.have[base] = true;
    if (!p.query.empty()) {
      num::expect_close("snapshot", "prediction", got, p.expected.part[base], W::kTol);
      // Its parts agree with each other.
      num::expect_close("parts", "mean", got.col(0), p.expected.part[0].col(0), 1e-7);
      if (base == 2) {
        const Eigen::MatrixXd cov = got.rightCols(got.rows());
        num::expect_close("parts", "symmetry", cov, cov.transpose(), 1e-9);
        num::expect_close("parts", "variances", cov.diagonal(), p.expected.part[1].col(1),
                          1e-7);
      }
    }
    sim::evaluated(p.disturbed,
                   sim::mix(history, num::hash(got, static_cast<std::uint64_t>(accessor))));
  }
  void evaluate(Pred<W> &p) {
    const int accessor = some_accessor<W>();
    if (p.size() != p.query.size()) {
      sim::violation("shape", "a prediction of %zu features has size %zu", p.query.size(),
                     p.size());
    }
    if constexpr (W::kUser != 0) {
      if (sim::w(6) == 5 && !p.query.empty()) {
        t_throw = 1;
        bool thrown = false;
        try {
          p.eval(accessor);
        } catch (const UserError &e) {
          thrown = e.tag == 77;
        }
        t_throw = 0;
        sim::fault_fired("throwing predict");
        if (!thrown) {
          sim::violation("error", "an exception of the model's predict is lost");
        }
      }
    }
    Eigen::MatrixXd got;
    if (failing() && attempted("evaluate", [&] { got = p.eval(accessor); })) {
      judge(p, accessor, got);
    }
    t_route.clear();
    got = p.eval(accessor);
    check_route<W>(accessor, p.query.empty(), t_route);
    judge(p, accessor, got);
  }
  // A part of the features gets the same part of the prediction.
  void partial(Pred<W> &p) {
    if (p.query.size() < 2) {
      return;
    }
    std::vector<std::size_t> which;
    for (std::size_t i = 0; i < p.query.size(); ++i) {
      if (sim::w(2)) {
        which.push_back(i);
      }
    }
    num::shuffle(which);
    if (which.empty()) {
      return;
    }
    expectation(p);
    std::vector<F> part;
    for (const auto i : which) {
      part.push_back(p.query[i]);
    }
    const Answer a = fresh<W>(p.spec, part, p.noisy);
    for (std::size_t i = 0; i < which.size(); ++i) {
      const auto ei = static_cast<Eigen::Index>(i), wi = static_cast<Eigen::Index>(which[i]);
      num::expect_close("part", "mean of some of the features", a.part[0].row(ei),
                        p.expected.part[0].row(wi), 1e-7);
      for (std::size_t j = 0; a.have[2] && j < which.size(); ++j) {
        num::expect_close("part", "covariance of some of the features",
                          a.part[2].block(ei, 1 + static_cast<Eigen::Index>(j), 1, 1),
                          p.expected.part[2].block(
                              wi, 1 + static_cast<Eigen::Index>(which[j]), 1, 1),
                          1e-7);
      }
    }
  }
  template <typename T> void check_slot(const Slot<T> &s) {
    const Params *p = nullptr;
    for (const auto &e : s.spec) {
      if (e.kind < 2) {
        p = &e.p;
      }
    }
    const T &fm = *s.fm;
    const Model m = fm.get_model();
    if constexpr (W::kStore) {
      const Model want = W::make(*p);
      if (!(m.get_params() == want.get_params())) {
        sim::violation("model", "a fit model's model has other parameters than it was fit with");
      }
    }
  }

  // --- operations
  std::size_t pick(std::size_t n) { return sim::w(n); }
  Params more_params() { return W::params(); }

  void new_model() {
    ModelSlot s;
    s.p = more_params();
    s.model.reset(new Model(W::make(s.p)));
    models.push_back(std::move(s));
    say("new model");
  }
  void change_model() {
    ModelSlot &s = models[pick(models.size())];
    disturb();
    switch (sim::w(5)) {
    case 0:
      s.p = more_params();
      W::set(*s.model, s.p);
      say("set parameters");
      break;
    case 1: {
      ModelSlot &o = models[pick(models.size())];
      *s.model = *o.model;
      s.p = o.p;
      s.insight = o.insight;
      say("assign model");
      break;
    }
    case 2: {
      ModelSlot n;
      n.model.reset(new Model(std::move(*s.model)));
      n.p = s.p;
      n.insight = s.insight;
      s = std::move(n);
      say("move model");
      break;
    }
    case 3:
      s.insight = std::to_string(sim::w(1000));
      s.model->insights["note"] = s.insight;
      say("insight");
      break;
    default: {
      ModelSlot n;
      n.model.reset(new Model(*s.model));
      n.p = s.p;
      n.insight = s.insight;
      models.push_back(std::move(n));
      say("copy model");
    }
    }
  }
  void new_data() {
    DataSlot s;
    s.now.reset(new Event());
    W::fill(*s.now, 3, W::kEqualVariances);
    s.kept = *s.now;
    data.push_back(std::move(s));
    say("new data");
  }
  void change_data() {
    const std::size_t i = pick(data.size());
    DataSlot &s = data[i];
    disturb();
    if (sim::w(3) == 0) {
      data.erase(data.begin() + static_cast<long>(i));
      say("destroy data");
      if (data.empty()) {
        new_data();
      }
      return;
    }
    auto &d = *s.now;
    if (d.d.size() && sim::w(2)) {
      for (auto &x : d.d.features) {
        x += 0.37;
      }
      d.d.targets.mean *= -0.5;
      for (auto &x : d.indices) {
        (void)x;
      }
      say("change data in place");
    } else {
      W::fill(d, 3, W::kEqualVariances);
      say("replace data");
    }
    s.kept = d;
  }
  template <typename T>
  std::shared_ptr<Slot<T>> add(Slots<T> &to, std::unique_ptr<T> fm, Spec spec) {
    auto s = std::make_shared<Slot<T>>();
    s->fm = std::move(fm);
    s->spec = std::move(spec);
    to.push_back(s);
    return s;
  }
  void check_unchanged(const DataSlot &s) {
    if (!(s.now->d == s.kept.d) || s.now->indices != s.kept.indices) {
      sim::violation("input", "fitting changes the data it is given");
    }
  }
  void fit() {
    const ModelSlot &m = models[pick(models.size())];
    const DataSlot &d = data[pick(data.size())];
    const int how = static_cast<int>(sim::w(3));
    if constexpr (W::kUser != 0) {
      if (sim::w(8) == 7) {
        t_throw = 1;
        bool thrown = false;
        try {
          W::fit(*m.model, *d.now, how);
        } catch (const UserError &e) {
          thrown = e.tag == 77;
        }
        t_throw = 0;
        sim::fault_fired("throwing fit");
        if (!thrown) {
          sim::violation("error", "an exception of the model's fit is lost");
        }
      }
    }
    const Model &cm = *m.model;
    if (failing()) {
      attempted("fit", [&] { W::fit(cm, *d.now, how); });
    }
    Event e = d.kept;
    e.kind = 0;
    e.p = m.p;
    auto s = add<FM>(fits, std::unique_ptr<FM>(new FM(W::fit(cm, *d.now, how))), {e});
    check_unchanged(d);
    const Model of_fit = static_cast<const FM &>(*s->fm).get_model();
    const auto note = of_fit.insights.find("note");
    if ((note == of_fit.insights.end() ? std::string() : note->second) != m.insight) {
      sim::violation("model", "the insights of a model are lost when it is fit");
    }
    say("fit");
  }
  template <typename T> void touched(Slot<T> &s) {
    ++s.version;
    disturb();
  }
  template <typename T> void change_fit(Slots<T> &in) {
    const std::size_t i = pick(in.size());
    auto s = in[i];
    const bool free = s->pins == 0;
    switch (sim::w(8)) {
    case 0:
      if (free) {
        disturb();
        s->usable = false;
        s->fm.reset();
        in.erase(in.begin() + static_cast<long>(i));
        say("destroy fit model");
      }
      break;
    case 1:
      if constexpr (kCopy) {
        auto n = add<T>(in, std::unique_ptr<T>(new T(*s->fm)), s->spec);
        if constexpr (W::kEqual) {
          if (!(*n->fm == *s->fm)) {
            sim::violation("equal", "a copy of a fit model is not equal to it");
          }
        }
        say("copy fit model");
      }
      break;
    case 2:
      if (free) {
        touched(*s);
        s->usable = false;
        add<T>(in, std::unique_ptr<T>(new T(std::move(*s->fm))), s->spec);
        in.erase(in.begin() + static_cast<long>(i));
        say("move fit model");
      }
      break;
    case 3:
      if constexpr (kCopy) {
        auto o = in[pick(in.size())];
        if (free) {
          touched(*s);
          *s->fm = static_cast<const T &>(*o->fm);
          s->spec = o->spec;
          say("assign fit model");
        }
      }
      break;
    case 4: {
      auto o = in[pick(in.size())];
      if (free && o->pins == 0 && o != s) {
        touched(*s);
        touched(*o);
        std::swap(*s->fm, *o->fm);
        std::swap(s->spec, o->spec);
        say("swap fit models");
      }
      break;
    }
    case 5:
      if (free) {
        touched(*s);
        Event e;
        e.kind = 1;
        e.p = more_params();
        if constexpr (W::kStore) {
          W::set(s->fm->get_model(), e.p);
        } else {
          s->fm->get_model() = W::make(e.p);
        }
        s->spec.push_back(e);
        say("change the model of a fit model");
      }
      break;
    case 6: { // put the fit together with another model
      if (!free) {
        break;
      }
      Event e;
      e.kind = 1;
      e.p = more_params();
      Spec spec = s->spec;
      spec.push_back(e);
      const Model m = W::make(e.p);
      if (sim::w(2) || !kCopy) {
        touched(*s);
        s->usable = false;
        typename T::fit_type f = std::move(*s->fm).get_fit();
        s->fm.reset();
        in.erase(in.begin() + static_cast<long>(i));
        add<T>(in, std::unique_ptr<T>(new T(m, std::move(f))), spec);
      } else if constexpr (kCopy) {
        typename T::fit_type f = static_cast<const T &>(*s->fm).get_fit();
        add<T>(in, std::unique_ptr<T>(new T(m, std::move(f))), spec);
      }
      say("combine a fit and a model");
      break;
    }
    default:
      check_slot(*s);
    }
  }
  template <typename T> void update(Slots<T> &in) {
    if constexpr (W::kUpdate && (std::is_same<T, FM>::value || kOneType)) {
      const auto s = in[pick(in.size())];
      if (s->spec.size() > static_cast<std::size_t>(W::kDepth)) {
        return;
      }
      Event e;
      W::fill(e, 1, W::kEqualVariances);
      e.kind = 2;
      Spec spec = s->spec;
      spec.push_back(e);
      const T &fm = *s->fm;
      if (failing()) {
        attempted("update", [&] { fm.update(e.d); });
      }
      if constexpr (W::kInPlace) {
        if (sim::w(2) && s->pins == 0) {
          if (failing()) {
            if (attempted("update in place", [&] { s->fm->update_in_place(e.d); })) {
              touched(*s);
              s->spec = spec;
            }
            return;
          }
          touched(*s);
          if (sim::w(2)) {
            s->fm->update_in_place(e.d);
          } else {
            s->fm->update_in_place(e.d.features, e.d.targets);
          }
          s->spec = spec;
          say("update in place");
          return;
        }
      }
      switch (sim::w(3)) {
      case 0:
        add<UM>(ups, std::unique_ptr<UM>(new UM(fm.update(e.d))), spec);
        break;
      case 1:
        add<UM>(ups, std::unique_ptr<UM>(new UM(fm.update(e.d.features, e.d.targets))), spec);
        break;
      default:
        add<UM>(ups, std::unique_ptr<UM>(new UM(albatross::update(fm, e.d))), spec);
      }
      disturb();
      say("update");
    }
  }
  void keep(std::shared_ptr<Pred<W>> p, const Spec &spec, const std::vector<F> &query,
            bool noisy, std::shared_ptr<SlotBase> slot) {
    p->spec = spec;
    p->query = query;
    p->noisy = noisy;
    p->version = slot ? slot->version : 0;
    p->slot = slot;
    preds.push_back(p);
  }
  template <typename P> static std::shared_ptr<P> shared(P *p) { return std::shared_ptr<P>(p); }

  template <typename T> void predict(Slots<T> &in) {
    const std::size_t i = pick(in.size());
    auto s = in[i];
    const std::vector<F> query = W::query();
    std::vector<F> given = query;
    const bool noisy = W::kNoisy && sim::w(2);
    const T &fm = *s->fm;
    const auto spoil = [&given] {
      for (auto &g : given) {
        g = F();
      }
      given.clear();
      given.shrink_to_fit();
    };
    if (failing()) {
      attempted("predict", [&] { fm.predict(given); });
      if constexpr (W::kNoisy) {
        attempted("predict with noise", [&] { fm.predict_with_measurement_noise(given); });
      }
    }
    switch (sim::w(7)) {
    case 0:
    case 1: // refers to the fit model
      if constexpr (W::kNoisy) {
        if (noisy) {
          using P = std::decay_t<decltype(fm.predict_with_measurement_noise(given))>;
          auto p = shared(new P(fm.predict_with_measurement_noise(given)));
          spoil();
          keep(erased<W>(p), s->spec, query, noisy, s);
          say("predict with noise");
          return;
        }
      }
      {
        using P = std::decay_t<decltype(fm.predict(given))>;
        auto p = shared(new P(fm.predict(given)));
        spoil();
        keep(erased<W>(p), s->spec, query, false, s);
        say("predict");
      }
      return;
    case 2: // from a fit model that is given up
      if (s->pins) {
        return;
      }
      touched(*s);
      s->usable = false;
      if constexpr (W::kNoisy) {
        if (noisy) {
          using P = std::decay_t<decltype(std::move(*s->fm).predict_with_measurement_noise(given))>;
          auto p = shared(new P(std::move(*s->fm).predict_with_measurement_noise(given)));
          spoil();
          s->fm.reset();
          in.erase(in.begin() + static_cast<long>(i));
          keep(erased<W>(p), s->spec, query, true, nullptr);
          say("predict with noise from a fit model that is given up");
          return;
        }
      }
      {
        using P = std::decay_t<decltype(std::move(*s->fm).predict(given))>;
        auto p = shared(new P(std::move(*s->fm).predict(given)));
        spoil();
        s->fm.reset();
        in.erase(in.begin() + static_cast<long>(i));
        keep(erased<W>(p), s->spec, query, false, nullptr);
        say("predict from a fit model that is given up");
      }
      return;
    case 3: { // from a temporary
      const ModelSlot &m = models[pick(models.size())];
      const DataSlot &d = data[pick(data.size())];
      Event e = d.kept;
      e.kind = 0;
      e.p = m.p;
      if constexpr (W::kNoisy) {
        if (noisy) {
          using P = std::decay_t<decltype(W::fit(*m.model, *d.now, 0)
                                              .predict_with_measurement_noise(given))>;
          auto p = shared(
              new P(W::fit(*m.model, *d.now, 0).predict_with_measurement_noise(given)));
          spoil();
          keep(erased<W>(p), {e}, query, true, nullptr);
          say("predict with noise from a temporary");
          return;
        }
      }
      using P = std::decay_t<decltype(W::fit(*m.model, *d.now, 0).predict(given))>;
      auto p = shared(new P(W::fit(*m.model, *d.now, 0).predict(given)));
      spoil();
      keep(erased<W>(p), {e}, query, false, nullptr);
      say("predict from a temporary");
      return;
    }
    case 4: // with a model and a fit
      if constexpr (kCopy) {
        const Model m = fm.get_model();
        using P = std::decay_t<decltype(get_prediction(m, fm.get_fit(), given))>;
        auto p = shared(new P(get_prediction(m, fm.get_fit(), given)));
        spoil();
        keep(erased<W>(p), s->spec, query, false, nullptr);
        say("get_prediction");
      }
      return;
    case 5:
      if constexpr (W::kUpdate && (std::is_same<T, FM>::value || kOneType)) {
        if (s->spec.size() > static_cast<std::size_t>(W::kDepth)) {
          return;
        }
        Event e;
        W::fill(e, 1, W::kEqualVariances);
        e.kind = 2;
        Spec spec = s->spec;
        spec.push_back(e);
        using P = std::decay_t<decltype(fm.update(e.d).predict(given))>;
        auto p = shared(new P(fm.update(e.d).predict(given)));
        spoil();
        keep(erased<W>(p), spec, query, false, nullptr);
        say("predict from an updated temporary");
      }
      return;
    default: // without keeping the prediction
    {
      Pred<W> at_once;
      at_once.spec = s->spec;
      at_once.query = query;
      at_once.disturbed = true;
      int accessor = 0;
      Eigen::MatrixXd got;
      if (W::kJoint && sim::w(2)) {
        if constexpr (W::kJoint) {
          accessor = 6;
          got = as_part(fm.predict(given).joint());
        }
      } else {
        got = as_part(fm.predict(given).mean());
      }
      judge(at_once, accessor, got);
      say("predict at once");
    }
    }
  }
  void use_pred() {
    const std::size_t i = pick(preds.size());
    auto p = preds[i];
    if (!p->usable()) {
      preds.erase(preds.begin() + static_cast<long>(i));
      return;
    }
    switch (sim::w(6)) {
    case 0: {
      auto c = p->clone(sim::w(2));
      if (c) {
        keep(c, p->spec, p->query, p->noisy, p->slot);
        c->version = p->version;
        c->disturbed = p->disturbed;
        say("copy a prediction");
      }
      break;
    }
    case 1:
      preds.erase(preds.begin() + static_cast<long>(i));
      disturb();
      say("destroy a prediction");
      break;
    case 2:
      partial(*p);
      break;
    default:
      evaluate(*p);
      say("evaluate");
    }
  }
  void launch() {
    if (jobs.size() >= 3 || preds.empty()) {
      return;
    }
    std::unique_ptr<Job> j(new Job());
    const std::size_t n = 1 + pick(4);
    for (std::size_t k = 0; k < n; ++k) {
      auto p = preds[pick(preds.size())];
      if (p->usable()) {
        j->preds.push_back(p);
        j->accessors.push_back(some_accessor<W>());
        if (p->slot) {
          ++p->slot->pins;
          j->pinned.push_back(p->slot);
        }
      }
    }
    if (j->preds.empty()) {
      return;
    }
    j->got.resize(j->preds.size());
    j->routes.resize(j->preds.size());
    Job *raw = j.get();
    j->thread = std::thread([raw] {
      for (std::size_t k = 0; k < raw->preds.size(); ++k) {
        t_route.clear();
        Eigen::MatrixXd m = raw->preds[k]->eval(raw->accessors[k]);
        sim::Quiet quiet;
        raw->got[k] = m;
        raw->routes[k] = t_route;
      }
    });
    jobs.push_back(std::move(j));
    say("start a thread");
  }
  void join() {
    if (jobs.empty()) {
      return;
    }
    const std::size_t i = pick(jobs.size());
    std::unique_ptr<Job> j = std::move(jobs[i]);
    jobs.erase(jobs.begin() + static_cast<long>(i));
    j->thread.join();
    for (auto &s : j->pinned) {
      --s->pins;
    }
    for (std::size_t k = 0; k < j->preds.size(); ++k) {
      check_route<W>(j->accessors[k], j->preds[k]->query.empty(), j->routes[k]);
      judge(*j->preds[k], j->accessors[k], j->got[k]);
    }
    sim::probe("evaluated in another thread", j->preds.size());
    say("join");
  }
  void step() {
    if (models.empty()) {
      new_model();
    }
    if (data.empty()) {
      new_data();
    }
    if (fits.empty() && (ups.empty() || sim::w(2))) {
      fit();
    }
    const bool up = !ups.empty() && (fits.empty() || sim::w(2));
    switch (sim::w(16)) {
    case 0:
      return new_model();
    case 1:
    case 2:
      return change_model();
    case 3:
      if (models.size() > 1) {
        disturb();
        models.erase(models.begin() + static_cast<long>(pick(models.size())));
        say("destroy model");
      }
      return;
    case 4:
      return change_data();
    case 5:
      return new_data();
    case 6:
      return fit();
    case 7:
    case 8:
      return up ? change_fit(ups) : change_fit(fits);
    case 9:
      return up ? update(ups) : update(fits);
    case 10:
    case 11:
    case 12:
      return up ? predict(ups) : predict(fits);
    case 13:
      return launch();
    case 14:
      return join();
    default:
      if (!preds.empty()) {
        use_pred();
      }
    }
  }
  void run() {
    t_route.clear(); // registers its destructor
    const int n = static_cast<int>(sim::range(6, 34));
    for (int i = 0; i < n; ++i) {
      step();
    }
    while (!jobs.empty()) {
      join();
    }
    if (sim::w(2)) {
      models.clear();
      data.clear();
      disturb();
    }
    for (auto &p : preds) {
      if (p->usable()) {
        evaluate(*p);
      }
    }
    for (auto &s : fits) {
      check_slot(*s);
    }
    for (auto &s : ups) {
      check_slot(*s);
    }
    num::shuffle(preds);
    num::shuffle(fits);
    while (!preds.empty()) {
      if (!fits.empty() && sim::w(2)) {
        fits.back()->usable = false;
        fits.back()->fm.reset();
        fits.pop_back();
        disturb();
      }
      if (preds.back()->usable() && sim::w(2)) {
        evaluate(*preds.back());
      }
      preds.pop_back();
    }
    fits.clear();
    ups.clear();
    models.clear();
    if (W::kUser != 0 && g_alive != 0) {
      sim::violation("lifetime", "%d fits are left after everything was destroyed", g_alive);
    }
  }
};

template <typename World> void play() {
  sim::SchedConfig c = sim::random_sched();
  c.step_cap = 300000000;
  sim::begin(c);
  {
    Machine<World> m;
    m.run();
    World::done();
  }
  sim::end();
}

void world0();
void world1();
void world2();
void world3();

#if SHARD == 0
std::shared_ptr<ThreadPool> g_pool;
using GpCov = std::decay_t<decltype(Field() + measurement_only(IndependentNoise<double>()))>;
struct GpWorld : Regression<GaussianProcessRegression<GpCov, Trend>> {
  static constexpr bool kNoisy = true;
  static constexpr int kDepth = 1;
  static constexpr double kTol = 1e-8;
  static Params params() {
    return {sim::real(0.5, 2.), sim::real(0.5, 2.), sim::real(0.1, 0.6), sim::real(-2., 2.),
            g_pool ? 0. : 1.};
  }
  static void set(Model &m, const Params &p) {
    m.set_param_value("field_sigma", p[0]);
    m.set_param_value("field_length", p[1]);
    m.set_param_value("sigma_independent_noise", p[2]);
    m.set_param_value("trend_offset", p[3]);
  }
  static Model make(const Params &p) {
    Model m(Field() + measurement_only(IndependentNoise<double>()), Trend());
    if (g_pool) {
      m.set_thread_pool(g_pool);
    }
    set(m, p);
    return m;
  }
  static Hyper hyper(const Params &p) {
    Hyper h;
    h.fs = p[0];
    h.fl = p[1];
    h.indep = p[2];
    h.off = p[3];
    h.has_trend = true;
    return h;
  }
  static Reference reference(const Spec &spec, const std::vector<double> &query, bool noisy) {
    Reference r;
    std::vector<Obs> obs, test;
    std::size_t changes = 0;
    for (const auto &e : spec) {
      if (e.kind == 1) {
        ++changes;
        continue;
      }
      if (changes) {
        return r; // an update with other parameters than those of the fit
      }
      for (std::size_t i = 0; i < e.d.size(); ++i) {
        Obs o;
        o.a = e.d.features[i];
        o.mean = e.d.targets.mean[static_cast<Eigen::Index>(i)];
        o.var = e.d.targets.covariance.diagonal()[static_cast<Eigen::Index>(i)];
        obs.push_back(o);
      }
    }
    for (const double q : query) {
      Obs o;
      o.a = q;
      o.meas = noisy;
      test.push_back(o);
    }
    const Hyper of_fit = hyper(spec[0].p);
    const Params *last = nullptr;
    for (const auto &e : spec) {
      if (e.kind < 2) {
        last = &e.p;
      }
    }
    const Hyper now = hyper(*last);
    Eigen::MatrixXd s = ref_cov(of_fit, obs, obs);
    Eigen::VectorXd y(obs.size()), m(test.size());
    for (std::size_t i = 0; i < obs.size(); ++i) {
      s(i, i) += obs[i].var;
      y[i] = obs[i].mean - ref_m(of_fit, obs[i]);
    }
    for (std::size_t i = 0; i < test.size(); ++i) {
      m[i] = ref_m(now, test[i]);
    }
    const Eigen::MatrixXd cross = ref_cov(now, obs, test);
    const Eigen::FullPivLU<Eigen::MatrixXd> lu(s);
    r.mean = m + cross.transpose() * lu.solve(y);
    r.cov = ref_cov(now, test, test) - cross.transpose() * lu.solve(cross);
    r.known = true;
    return r;
  }
  static void done() { g_pool.reset(); }
};
void world0() {
  sim::SchedConfig c = sim::random_sched();
  c.step_cap = 300000000;
  sim::begin(c);
  {
    const auto n = sim::w(6);
    if (n > 3) {
      g_pool = make_shared_thread_pool(n - 2);
    }
    Machine<GpWorld> m;
    m.run();
    g_pool.reset(); // models share it
  }
  sim::end();
}
#elif SHARD == 1
using SparseCov = std::decay_t<decltype(Field() + measurement_only(IndependentNoise<double>()))>;
struct SparseWorld
    : Regression<SparseGaussianProcessRegression<SparseCov, Trend, LeaveOneOutGrouper,
                                                 UniformlySpacedInducingPoints,
                                                 DenseQRImplementation>> {
  static constexpr bool kNoisy = true, kInPlace = true;
  static constexpr int kDepth = 3;
  static constexpr double kTol = 1e-6;
  static Params params() {
    return {sim::real(0.5, 2.), sim::real(0.5, 2.), sim::real(0.2, 0.6), sim::real(-2., 2.)};
  }
  static void set(Model &m, const Params &p) {
    m.set_param_value("field_sigma", p[0]);
    m.set_param_value("field_length", p[1]);
    m.set_param_value("sigma_independent_noise", p[2]);
    m.set_param_value("trend_offset", p[3]);
  }
  static Model make(const Params &p) {
    Model m(Field() + measurement_only(IndependentNoise<double>()), Trend(),
            LeaveOneOutGrouper(), UniformlySpacedInducingPoints(4), "sparse");
    set(m, p);
    return m;
  }
  static void done() {}
};
void world1() { play<SparseWorld>(); }
#elif SHARD == 2
struct LinearWorld : Regression<LinearRegression> {
  static constexpr bool kMarginal = false, kJoint = false, kUpdate = false,
                        kEqualVariances = true, kStore = false;
  static constexpr int kDepth = 0;
  static Params params() { return {}; }
  static void set(Model &, const Params &) {}
  static Model make(const Params &) { return Model(); }
  static Reference reference(const Spec &spec, const std::vector<double> &query, bool) {
    Reference r;
    Eigen::Matrix2d a = Eigen::Matrix2d::Zero();
    Eigen::Vector2d b = Eigen::Vector2d::Zero();
    const auto &d = spec[0].d;
    for (std::size_t i = 0; i < d.size(); ++i) {
      const Eigen::Vector2d row(1., d.features[i]);
      a += row * row.transpose();
      b += row * d.targets.mean[static_cast<Eigen::Index>(i)];
    }
    const Eigen::Vector2d x = a.fullPivLu().solve(b);
    r.mean.resize(static_cast<Eigen::Index>(query.size()));
    for (std::size_t i = 0; i < query.size(); ++i) {
      r.mean[static_cast<Eigen::Index>(i)] = x[0] + x[1] * query[i];
    }
    r.known = true;
    return r;
  }
  static void done() {}
};
struct NullWorld : Regression<NullModel> {
  static constexpr bool kUpdate = false;
  static constexpr int kDepth = 0;
  static Params params() { return {sim::real(-2., 2.)}; }
  static void set(Model &m, const Params &p) { m.set_param_value("unused", p[0]); }
  static Model make(const Params &p) {
    ParameterStore s;
    s["unused"] = {p[0], UninformativePrior()};
    return Model(s);
  }
  static Reference reference(const Spec &, const std::vector<double> &query, bool) {
    Reference r;
    const auto n = static_cast<Eigen::Index>(query.size());
    r.mean = Eigen::VectorXd::Zero(n);
    r.cov = 1e4 * Eigen::MatrixXd::Identity(n, n);
    r.known = true;
    return r;
  }
  static void done() {}
};
struct ConditionalWorld {
  using Model = ConditionalGaussian;
  using Feature = std::size_t;
  static constexpr bool kMarginal = true, kJoint = true, kUpdate = false, kInPlace = false,
                        kNoisy = false, kEqual = false, kEqualVariances = false, kStore = false;
  static constexpr int kUser = 0, kDepth = 0;
  static constexpr double kTol = 1e-9;
  static constexpr int kN = 7;
  static Params params() { return {sim::real(0.5, 2.), sim::real(0.5, 2.), sim::real(0.1, 1.)}; }
  static JointDistribution prior(const Params &p) {
    Eigen::VectorXd m(kN);
    Eigen::MatrixXd c(kN, kN);
    for (int i = 0; i < kN; ++i) {
      m[i] = p[0] * std::sin(i);
      for (int j = 0; j < kN; ++j) {
        c(i, j) = field_k(p[0], p[1], i, j) + (i == j ? 0.2 : 0.);
      }
    }
    return JointDistribution(m, c);
  }
  static MarginalDistribution truth(const Params &p) {
    Eigen::VectorXd m(kN), v(kN);
    for (int i = 0; i < kN; ++i) {
      m[i] = std::cos(1.3 * i) - p[2];
      v[i] = p[2] * (1. + 0.1 * i);
    }
    return MarginalDistribution(m, v);
  }
  static Model make(const Params &p) { return Model(prior(p), truth(p)); }
  static void set(Model &m, const Params &p) {
    const auto insights = m.insights;
    m = make(p);
    m.insights = insights;
  }
  static std::vector<std::size_t> query() {
    std::vector<std::size_t> q;
    const std::size_t n = sim::w(10) == 9 ? 0 : 1 + sim::w(4);
    for (std::size_t i = 0; i < n; ++i) {
      q.push_back(sim::w(kN));
    }
    return q;
  }
  static void fill(Event &e, int lo, bool) {
    std::vector<std::size_t> all(kN);
    for (std::size_t i = 0; i < kN; ++i) {
      all[i] = i;
    }
    num::shuffle(all);
    all.resize(static_cast<std::size_t>(sim::range(lo, 5)));
    e.indices = all;
  }
  static auto fit(const Model &m, const Event &e, int) { return m.fit(e.indices); }
  static Reference reference(const Spec &spec, const std::vector<std::size_t> &q, bool) {
    Reference r;
    const auto &x = spec[0].indices;
    const JointDistribution a = prior(spec[0].p);
    const MarginalDistribution t = truth(spec[0].p);
    const Params *last = nullptr;
    for (const auto &e : spec) {
      if (e.kind < 2) {
        last = &e.p;
      }
    }
    const JointDistribution b = prior(*last);
    const auto n = static_cast<Eigen::Index>(x.size()), k = static_cast<Eigen::Index>(q.size());
    Eigen::MatrixXd s(n, n), cross(n, k), qq(k, k);
    Eigen::VectorXd y(n), m(k);
    for (Eigen::Index i = 0; i < n; ++i) {
      y[i] = t.mean[x[i]] - a.mean[x[i]];
      for (Eigen::Index j = 0; j < n; ++j) {
        s(i, j) = a.covariance(x[i], x[j]) + (i == j ? t.covariance.diagonal()[x[i]] : 0.);
      }
      for (Eigen::Index j = 0; j < k; ++j) {
        cross(i, j) = b.covariance(x[i], q[j]);
      }
    }
    for (Eigen::Index i = 0; i < k; ++i) {
      m[i] = b.mean[q[i]];
      for (Eigen::Index j = 0; j < k; ++j) {
        qq(i, j) = b.covariance(q[i], q[j]);
      }
    }
    const Eigen::FullPivLU<Eigen::MatrixXd> lu(s);
    r.mean = m + cross.transpose() * lu.solve(y);
    r.cov = qq - cross.transpose() * lu.solve(cross);
    r.known = true;
    return r;
  }
  static void done() {}
};
using Strategy =
    decltype(get_generic_ransac_strategy(RootMeanSquareError(), LeaveOneOutRMSE(),
                                         LeaveOneOutGrouper()));
struct RansacWorld : Regression<Ransac<LinearRegression, Strategy>> {
  static constexpr bool kMarginal = false, kJoint = false, kUpdate = false,
                        kEqualVariances = true, kStore = false;
  static constexpr int kDepth = 0;
  static Params params() { return {sim::real(20., 30.)}; }
  static void set(Model &m, const Params &p) { m.config_.inlier_threshold = p[0]; }
  static Model make(const Params &p) {
    return LinearRegression().ransac(
        get_generic_ransac_strategy(RootMeanSquareError(), LeaveOneOutRMSE(),
                                    LeaveOneOutGrouper()),
        p[0], 2, 2, 2);
  }
  static void done() {}
};
void world2() {
  switch (sim::w(4)) {
  case 0:
    return play<LinearWorld>();
  case 1:
    return play<NullWorld>();
  case 2:
    return play<ConditionalWorld>();
  default:
    return play<RansacWorld>();
  }
}
#else
template <int Mask, bool MoveOnly> struct UserWorld : Regression<User<Mask, MoveOnly>> {
  using Model = User<Mask, MoveOnly>;
  static constexpr bool kMarginal = (Mask & 6) != 0, kJoint = (Mask & 4) != 0, kInPlace = true;
  static constexpr int kUser = Mask, kDepth = 3;
  static Params params() { return {sim::real(0.5, 2.), sim::real(-2., 2.)}; }
  static void set(Model &m, const Params &p) {
    m.set_param_value("gain", p[0]);
    m.set_param_value("bias", p[1]);
  }
  static Model make(const Params &p) {
    Model m;
    set(m, p);
    return m;
  }
  static Reference reference(const Spec &spec, const std::vector<double> &query, bool) {
    Reference r;
    Params now = spec[0].p;
    double shift = 0.;
    r.mean = Eigen::VectorXd::Zero(static_cast<Eigen::Index>(query.size()));
    for (const auto &e : spec) {
      if (e.kind == 1) {
        now = e.p;
        continue;
      }
      shift += e.d.targets.covariance.diagonal().sum();
      for (std::size_t i = 0; i < query.size(); ++i) {
        for (std::size_t j = 0; j < e.d.size(); ++j) {
          r.mean[static_cast<Eigen::Index>(i)] +=
              std::exp(-std::fabs(query[i] - e.d.features[j])) *
              e.d.targets.mean[static_cast<Eigen::Index>(j)];
        }
      }
    }
    r.mean = (now[0] * spec[0].p[0] * r.mean).array() + (now[1] + shift);
    r.known = true;
    return r;
  }
  static void done() {}
};
void world3() {
  switch (sim::w(8)) {
  case 0:
    return play<UserWorld<1, false>>();
  case 1:
    return play<UserWorld<2, false>>();
  case 2:
    return play<UserWorld<4, false>>();
  case 3:
    return play<UserWorld<3, false>>();
  case 4:
    return play<UserWorld<5, false>>();
  case 5:
    return play<UserWorld<6, false>>();
  case 6:
    return play<UserWorld<7, false>>();
  default:
    return play<UserWorld<7, true>>();
  }
}
#endif
} // namespace p17

#if SHARD == 0
void sim_run() {
  switch (sim::w(5)) {
  case 0:
    return p17::world0();
  case 1:
    return p17::world1();
  case 2:
    return p17::world2();
  default:
    return p17::world3();
  }
}
#endif
