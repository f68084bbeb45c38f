// SHARDS: 3
// P08: data sets, groups, folds and distributions keep every value together
// with the thing it belongs to, through any history of operations.
#include <albatross/Core>
#include <albatross/Dataset>
#include <albatross/Evaluation>
#include <albatross/Indexing>
#include <albatross/NullModel>

#include "num.h"
#include "sim.h"

#include <memory>
#include <sstream>
#include <thread>

#if SHARD == 0
extern const char *const kProperty, *const kRule, *const kRealCode, *const kStubs;
extern const std::vector<std::string> kAssumptions;
const char *const kProperty = "P08";
const char *const kRule =
    "one evaluation = one operation on data sets, groups, folds or distributions, its "
    "result compared item by item with a model that only knows the identity of every "
    "measurement; non-trivial = more than one item was kept and the operation selected, "
    "reordered or grouped (or failed on purpose); distinct by operation, the identities "
    "involved and the fault";
const char *const kRealCode =
    "RegressionDataset, MarginalDistribution, JointDistribution, TransformedDistribution, "
    "LinearCombination, subset, set_subset, filter, apply, unique_values, concatenate, "
    "deduplicate, align_datasets, group_by, Grouped, KFoldGrouper, LeaveOneOutGrouper, "
    "RegressionFold, CrossValidation, prediction metrics";
const char *const kStubs =
    "pthread scheduling and the heap (simulated); the regression model is a spy that "
    "reports what it was fitted to";
const std::vector<std::string> kAssumptions = {
    "aligning data sets that contain a feature twice and what happens to metadata are "
    "left open, as the code does not define them; assignment to an Eigen matrix is not "
    "safe when memory runs out, so operations that change data in place are judged under "
    "failing user functions only"};
#endif

namespace p08 {
using namespace albatross;

// A feature: only `place` takes part in comparisons, `id` tells it apart.
struct Rec {
  int place = -1;
  int id = -1;
  bool operator==(const Rec &o) const { return place == o.place; }
};
inline std::ostream &operator<<(std::ostream &os, const Rec &r) {
  return os << "<" << r.place << "/" << r.id << ">";
}
struct Other {
  int id = -1;
  bool operator==(const Other &o) const { return id == o.id; }
};

struct Ref {
  int place, id;
};
inline double mean_of(int id) { return id + 0.25; }
inline double var_of(int id) { return 1. / (1. + id); }
inline bool operator==(const Ref &a, const Ref &b) {
  return a.place == b.place && a.id == b.id;
}

using Data = RegressionDataset<Rec>;
using Refs = std::vector<Ref>;
struct Table {
  Data data;
  Refs refs;
};
using Indices = std::vector<std::size_t>;

// Grouped data that all clients use.
inline int tens(const Rec &r) { return r.place / 10; }
struct Common {
  explicit Common(const Table &t) : table(t), groups(table.data.group_by(tens)) {}
  Table table;
  GroupBy<Data, int (*)(const Rec &)> groups;
};

inline Data make(const Refs &refs) {
  std::vector<Rec> f;
  Eigen::VectorXd m(static_cast<long>(refs.size())), v(static_cast<long>(refs.size()));
  for (std::size_t i = 0; i < refs.size(); ++i) {
    f.push_back({refs[i].place, refs[i].id});
    m[static_cast<long>(i)] = mean_of(refs[i].id);
    v[static_cast<long>(i)] = var_of(refs[i].id);
  }
  return Data(f, MarginalDistribution(m, v));
}
inline Refs pick(const Refs &r, const Indices &at) {
  Refs out;
  for (auto i : at) {
    out.push_back(r[i]);
  }
  return out;
}
inline Indices complement(const Indices &at, std::size_t n) {
  Indices out;
  for (std::size_t i = 0; i < n; ++i) {
    if (std::find(at.begin(), at.end(), i) == at.end()) {
      out.push_back(i);
    }
  }
  return out;
}

inline void expect_features(const char *what, const std::vector<Rec> &f, const Refs &r) {
  if (f.size() != r.size()) {
    sim::violation("items", "%s: %zu features, expected %zu", what, f.size(), r.size());
  }
  for (std::size_t i = 0; i < f.size(); ++i) {
    if (f[i].place != r[i].place || f[i].id != r[i].id) {
      sim::violation("items", "%s: feature %zu is %d/%d, expected %d/%d", what, i,
                     f[i].place, f[i].id, r[i].place, r[i].id);
    }
  }
}
inline void expect_targets(const char *what, const MarginalDistribution &t, const Refs &r) {
  const auto n = static_cast<long>(r.size());
  if (t.mean.size() != n || t.covariance.diagonal().size() != n) {
    sim::violation("targets", "%s: %ld means and %ld variances, expected %ld", what,
                   (long)t.mean.size(), (long)t.covariance.diagonal().size(), n);
  }
  for (long i = 0; i < n; ++i) {
    const int id = r[static_cast<std::size_t>(i)].id;
    if (t.mean[i] != mean_of(id) || t.covariance.diagonal()[i] != var_of(id)) {
      sim::violation("targets", "%s: target %ld is %g +- %g, expected the one of item %d",
                     what, i, t.mean[i], t.covariance.diagonal()[i], id);
    }
  }
}
inline void expect(const char *what, const Data &d, const Refs &r) {
  expect_features(what, d.features, r);
  expect_targets(what, d.targets, r);
}

// The faults of one client.
struct Boom {
  long id;
};
struct Faults {
  long left = -1; // calls of user functions until one throws
  long id = 0;
  bool fired = false;
  void tick() {
    if (left >= 0 && left-- == 0) {
      sim::Quiet quiet;
      fired = true;
      sim::fault_fired("callback-throws");
      throw Boom{id};
    }
  }
};

// A regression model that predicts what it was fitted to.
class Spy;
} // namespace p08

namespace albatross {
template <> struct Fit<p08::Spy> {
  double digest = 0.;
  bool operator==(const Fit &o) const { return digest == o.digest; }
};
} // namespace albatross

namespace p08 {
inline double digest_of(const std::vector<int> &ids, double offset) {
  double d = offset;
  for (int id : ids) {
    d = std::fmod(d * 31. + id + 1., 100003.);
  }
  return d;
}
class Spy : public ModelBase<Spy> {
public:
  Spy() : Spy(3., nullptr) {}
  Spy(double offset, Faults *faults) : faults_(faults) { spy_offset = {offset, FixedPrior()}; }
  ALBATROSS_DECLARE_PARAMS(spy_offset)
  std::string get_name() const { return "spy"; }
  Fit<Spy> _fit_impl(const std::vector<Rec> &features,
                     const MarginalDistribution &targets) const {
    tick();
    Refs refs;
    std::vector<int> ids;
    for (const auto &f : features) {
      refs.push_back({f.place, f.id});
      ids.push_back(f.id);
    }
    expect_targets("what a model is fitted to", targets, refs);
    Fit<Spy> fit;
    fit.digest = digest_of(ids, spy_offset.value);
    return fit;
  }
  Eigen::VectorXd _predict_impl(const std::vector<Rec> &f, const Fit<Spy> &fit,
                                PredictTypeIdentity<Eigen::VectorXd> &&) const {
    tick();
    Eigen::VectorXd m(static_cast<long>(f.size()));
    for (std::size_t i = 0; i < f.size(); ++i) {
      m[static_cast<long>(i)] = fit.digest + 1e-3 * f[i].id;
    }
    return m;
  }
  MarginalDistribution _predict_impl(const std::vector<Rec> &f, const Fit<Spy> &fit,
                                     PredictTypeIdentity<MarginalDistribution> &&) const {
    Eigen::VectorXd v(static_cast<long>(f.size()));
    for (std::size_t i = 0; i < f.size(); ++i) {
      v[static_cast<long>(i)] = 2. + f[i].id;
    }
    return MarginalDistribution(
        _predict_impl(f, fit, PredictTypeIdentity<Eigen::VectorXd>()), v);
  }
  JointDistribution _predict_impl(const std::vector<Rec> &f, const Fit<Spy> &fit,
                                  PredictTypeIdentity<JointDistribution> &&) const {
    const auto n = static_cast<long>(f.size());
    Eigen::MatrixXd c(n, n);
    for (long i = 0; i < n; ++i) {
      for (long j = 0; j < n; ++j) {
        const int a = f[static_cast<std::size_t>(i)].id, b = f[static_cast<std::size_t>(j)].id;
        c(i, j) = a == b ? 2. + a : 1e-2 / (1. + a + b);
      }
    }
    return JointDistribution(_predict_impl(f, fit, PredictTypeIdentity<Eigen::VectorXd>()), c);
  }

private:
  void tick() const {
    if (faults_ != nullptr) {
      faults_->tick();
    }
  }
  Faults *faults_ = nullptr;
};

struct Client {
  Faults faults;
  std::vector<Table> own;
  const std::vector<Table> *shared = nullptr;
  const Common *common = nullptr;
  std::string op;
  std::uint64_t sig = 0;
  bool nontrivial = false;

  const Table &any() const {
    const std::size_t n = own.size() + shared->size();
    const std::size_t i = sim::w(n);
    return i < own.size() ? own[i] : (*shared)[i - own.size()];
  }
  void keep(const Data &d, const Refs &r, const char *what) {
    sim::NoFault scope;
    expect(what, d, r);
    if (r.size() <= 24) {
      if (own.size() < 4) {
        own.push_back({d, r});
      } else {
        own[sim::w(4)] = {d, r};
      }
    }
  }
};

// Groups, by any key.
template <typename Key> using Want = std::map<Key, Indices>;

struct SpyFold {
  Indices test, train;
};

inline Eigen::VectorXd spy_mean(const Refs &all, const Indices &test, double offset) {
  std::vector<int> ids;
  for (auto i : complement(test, all.size())) {
    ids.push_back(all[i].id);
  }
  const double d = digest_of(ids, offset);
  Eigen::VectorXd m(static_cast<long>(test.size()));
  for (std::size_t i = 0; i < test.size(); ++i) {
    m[static_cast<long>(i)] = d + 1e-3 * all[test[i]].id;
  }
  return m;
}
inline Eigen::VectorXd spy_var(const Refs &all, const Indices &test) {
  Eigen::VectorXd v(static_cast<long>(test.size()));
  for (std::size_t i = 0; i < test.size(); ++i) {
    v[static_cast<long>(i)] = 2. + all[test[i]].id;
  }
  return v;
}

template <typename Key, typename Map>
void expect_keys(const char *what, const Map &got, const Want<Key> &want) {
  std::size_t n = 0;
  auto it = want.begin();
  for (const auto &kv : got) {
    if (it == want.end() || !(kv.first == it->first)) {
      sim::violation("groups", "%s: group %zu has the wrong key", what, n);
    }
    ++it;
    ++n;
  }
  if (it != want.end() || got.size() != want.size()) {
    sim::violation("groups", "%s: %zu groups, expected %zu", what, n, want.size());
  }
}

void cross_validation(Client &c, const Table &t, std::size_t which);

template <typename Key, typename Grouper>
void cross_validate(Client &c, const Table &t, const Grouper &grouper, const Want<Key> &want) {
  if (want.empty()) {
    return;
  }
  const double offset = static_cast<double>(sim::w(50));
  Faults none;
  const Spy spy(offset, &c.faults);
  const auto cv = spy.cross_validate();
  Eigen::VectorXd mean(static_cast<long>(t.refs.size())), var(mean.size());
  for (const auto &kv : want) {
    const auto m = spy_mean(t.refs, kv.second, offset);
    const auto v = spy_var(t.refs, kv.second);
    for (std::size_t i = 0; i < kv.second.size(); ++i) {
      mean[static_cast<long>(kv.second[i])] = m[static_cast<long>(i)];
      var[static_cast<long>(kv.second[i])] = v[static_cast<long>(i)];
    }
  }
  const auto prediction = cv.predict(t.data, grouper);
  switch (sim::w(8)) {
  case 0:
    num::expect_close("order", "cross validated mean", prediction.mean(), mean, 1e-12);
    break;
  case 1: {
    const auto m = prediction.marginal();
    num::expect_close("order", "cross validated marginal mean", m.mean, mean, 1e-12);
    num::expect_close("order", "cross validated marginal variance", m.covariance.diagonal(),
                      var, 1e-12);
    break;
  }
  case 2: {
    const auto means = prediction.means();
    expect_keys("cross validated means", means, want);
    for (const auto &kv : want) {
      num::expect_close("order", "cross validated means of a group", means.at(kv.first),
                        spy_mean(t.refs, kv.second, offset), 1e-12);
    }
    break;
  }
  case 3: {
    const auto ms = prediction.marginals();
    expect_keys("cross validated marginals", ms, want);
    for (const auto &kv : want) {
      num::expect_close("order", "cross validated marginals of a group", ms.at(kv.first).mean,
                        spy_mean(t.refs, kv.second, offset), 1e-12);
      num::expect_close("order", "cross validated variances of a group",
                        ms.at(kv.first).covariance.diagonal(), spy_var(t.refs, kv.second),
                        1e-12);
    }
    break;
  }
  case 4: {
    const auto js = prediction.joints();
    expect_keys("cross validated joints", js, want);
    for (const auto &kv : want) {
      num::expect_close("order", "cross validated joints of a group", js.at(kv.first).mean,
                        spy_mean(t.refs, kv.second, offset), 1e-12);
      num::expect_close("order", "cross validated joint variances of a group",
                        js.at(kv.first).covariance.diagonal(), spy_var(t.refs, kv.second),
                        1e-12);
    }
    break;
  }
  case 5: {
    const auto folds = folds_from_grouper(t.data, grouper);
    const auto ps = cv.predictions(folds);
    expect_keys("predictions of folds", ps, want);
    for (const auto &kv : want) {
      num::expect_close("order", "prediction of a fold", ps.at(kv.first).mean(),
                        spy_mean(t.refs, kv.second, offset), 1e-12);
    }
    break;
  }
  case 6: {
    const auto scores = cv.scores(RootMeanSquareError(), t.data, grouper);
    Eigen::VectorXd expected(static_cast<long>(want.size()));
    long i = 0;
    for (const auto &kv : want) {
      const auto m = spy_mean(t.refs, kv.second, offset);
      double s = 0.;
      for (std::size_t j = 0; j < kv.second.size(); ++j) {
        const double e = m[static_cast<long>(j)] - mean_of(t.refs[kv.second[j]].id);
        s += e * e;
      }
      expected[i++] = std::sqrt(s / static_cast<double>(kv.second.size()));
    }
    num::expect_close("scores", "cross validated scores", scores, expected, 1e-9);
    break;
  }
  default: {
    const auto folds = folds_from_grouper(t.data, grouper);
    const auto scores =
        cv.scores(NegativeLogLikelihood<MarginalDistribution>(), folds);
    Eigen::VectorXd expected(static_cast<long>(want.size()));
    long i = 0;
    for (const auto &kv : want) {
      const auto m = spy_mean(t.refs, kv.second, offset);
      const auto v = spy_var(t.refs, kv.second);
      double s = 0.;
      for (std::size_t j = 0; j < kv.second.size(); ++j) {
        const int id = t.refs[kv.second[j]].id;
        const double e = m[static_cast<long>(j)] - mean_of(id);
        const double vv = v[static_cast<long>(j)] + var_of(id);
        s += 0.5 * (e * e / vv + std::log(vv) + std::log(2. * M_PI));
      }
      expected[i++] = s;
    }
    num::expect_close("scores", "cross validated likelihoods", scores, expected, 1e-9);
  }
  }
}

// Operations on grouped data.
template <typename Key, typename Grouper, typename Groups>
void grouped(Client &c, const Table &t, const Grouper &grouper, const Want<Key> &want,
             const Groups &g) {
  const auto groups_of = [&](const auto &got, const char *what) {
    expect_keys(what, got, want);
    for (const auto &kv : got) {
      expect(what, kv.second, pick(t.refs, want.at(kv.first)));
    }
  };
  c.nontrivial = want.size() > 1;
  Faults &faults = c.faults;
  const std::size_t which = sim::w(14);
  c.op = "group/" + std::to_string(which);
  switch (which) {
  case 0: {
    const auto idx = g.indexers();
    expect_keys("indexers", idx, want);
    for (const auto &kv : idx) {
      if (Indices(kv.second.begin(), kv.second.end()) != want.at(kv.first)) {
        sim::violation("groups", "a group holds the wrong indices");
      }
    }
    // And the same for a vector.
    const auto v = albatross::group_by(t.data.features, grouper);
    expect_keys("indexers of a vector", v.indexers(), want);
    for (const auto &kv : v.groups()) {
      expect_features("groups of a vector", kv.second, pick(t.refs, want.at(kv.first)));
    }
    expect_features("all groups of a vector", v.groups().combine(), [&] {
      Refs r;
      for (const auto &kv : want) {
        for (auto i : kv.second) {
          r.push_back(t.refs[i]);
        }
      }
      return r;
    }());
    break;
  }
  case 1: {
    // A history of changes to a Grouped.
    auto groups = g.groups();
    groups_of(groups, "groups");
    std::map<Key, Refs> ref;
    for (const auto &kv : want) {
      ref[kv.first] = pick(t.refs, kv.second);
    }
    const auto before = groups;
    for (std::size_t step = sim::w(6); step > 0 && !ref.empty(); --step) {
      auto it = ref.begin();
      std::advance(it, static_cast<long>(sim::w(ref.size())));
      switch (sim::w(4)) {
      case 0: {
        const Key key = it->first;
        if (groups.erase(key) != 1 || groups.erase(key) != 0) {
          sim::violation("groups", "erasing a group does not report it");
        }
        ref.erase(key);
        break;
      }
      case 1: // keeps what is there
        groups.emplace(it->first, make({}));
        break;
      case 2: {
        // Assigning to an Eigen vector is not safe when memory runs out.
        sim::NoFault scope;
        const auto &o = c.any();
        groups[it->first] = o.data;
        it->second = o.refs;
        break;
      }
      default: {
        const auto &f = groups.find(it->first);
        if (f == groups.end() || !(f->first == it->first)) {
          sim::violation("groups", "a group is not found");
        }
        expect("a group that is found", f->second, it->second);
      }
      }
      if (groups.size() != ref.size() || groups.keys().size() != ref.size()) {
        sim::violation("groups", "%zu groups, expected %zu", groups.size(), ref.size());
      }
      std::size_t i = 0;
      const auto values = groups.values();
      for (const auto &kv : ref) {
        expect("a changed group", groups.at(kv.first), kv.second);
        expect("the values of groups", values.at(i++), kv.second);
      }
    }
    Refs all;
    for (const auto &kv : ref) {
      all.insert(all.end(), kv.second.begin(), kv.second.end());
    }
    if (!ref.empty()) {
      expect("the first value", groups.first_value(), ref.begin()->second);
      expect("the last value", groups.last_value(), ref.rbegin()->second);
      expect("the first group", groups.first_group().second, ref.begin()->second);
      c.keep(groups.combine(), all, "changed groups combined");
    }
    groups_of(before, "a copy of groups");
    break;
  }
  case 2: {
    const auto counts = g.counts();
    expect_keys("counts", counts, want);
    std::size_t total = 0;
    for (const auto &kv : counts) {
      total += kv.second;
      if (kv.second != want.at(kv.first).size()) {
        sim::violation("groups", "a group of %zu counts as %zu", want.at(kv.first).size(),
                       kv.second);
      }
    }
    if (counts.sum() != total || total != t.refs.size() || g.size() != want.size() ||
        g.keys().size() != want.size()) {
      sim::violation("groups", "the counts of groups do not add up");
    }
    if (!want.empty()) {
      if (counts.at(counts.min_key()) != counts.min_value() ||
          counts.at(counts.max_key()) != counts.max_value()) {
        sim::violation("groups", "the smallest or largest group is not where it is said");
      }
      for (const auto &kv : want) {
        if (kv.second.size() < counts.min_value() || kv.second.size() > counts.max_value()) {
          sim::violation("groups", "smaller or larger than the extremes");
        }
      }
      num::expect_close("groups", "mean count", Eigen::MatrixXd::Constant(1, 1, counts.mean()),
                        Eigen::MatrixXd::Constant(
                            1, 1, double(t.refs.size()) / double(want.size())),
                        1e-12);
    }
    break;
  }
  case 3: {
    if (want.empty()) {
      break;
    }
    auto it = want.begin();
    std::advance(it, static_cast<long>(sim::w(want.size())));
    c.keep(g.get_group(it->first), pick(t.refs, it->second), "one group");
    const auto first = g.first_group();
    if (!(first.first == want.begin()->first)) {
      sim::violation("groups", "the first group is another one");
    }
    expect("the first group", first.second, pick(t.refs, want.begin()->second));
    break;
  }
  case 4: {
    const auto sums = g.apply([&](const Data &d) {
      faults.tick();
      double s = 0.;
      for (const auto &f : d.features) {
        s += f.id;
      }
      return s;
    });
    expect_keys("applied", sums, want);
    Eigen::VectorXd expected(static_cast<long>(want.size()));
    long i = 0;
    for (const auto &kv : want) {
      expected[i] = 0.;
      for (auto j : kv.second) {
        expected[i] += t.refs[j].id;
      }
      if (sums.at(kv.first) != expected[i]) {
        sim::violation("groups", "a function was applied to something else");
      }
      ++i;
    }
    num::expect_close("groups", "combined values", combine(sums), expected, 0.);
    break;
  }
  case 5: {
    // Void functions are called once per group, in the order of the keys.
    std::vector<Key> seen;
    g.apply([&](const Key &k, const Data &d) {
      faults.tick();
      expect("a group that a function is applied to", d, pick(t.refs, want.at(k)));
      seen.push_back(k);
    });
    std::size_t again = 0;
    g.index_apply([&](const Key &k, const GroupIndices &at) {
      faults.tick();
      if (Indices(at.begin(), at.end()) != want.at(k)) {
        sim::violation("groups", "a function is applied to the wrong indices");
      }
      ++again;
    });
    std::vector<Key> keys;
    for (const auto &kv : want) {
      keys.push_back(kv.first);
    }
    if (seen != keys || again != keys.size()) {
      sim::violation("groups", "a function is not called once for each group in order");
    }
    break;
  }
  case 6: {
    const int m = 2 + static_cast<int>(sim::w(3));
    const bool by_key = sim::w(2);
    const auto keep = [&](const Data &d) { return !d.features.empty() && d.features[0].id % m != 0; };
    Want<Key> left;
    for (const auto &kv : want) {
      if (t.refs[kv.second[0]].id % m != 0) {
        left[kv.first] = kv.second;
      }
    }
    const auto check = [&](const auto &f) {
      expect_keys("filtered groups", f, left);
      Refs all;
      for (const auto &kv : left) {
        const auto r = pick(t.refs, kv.second);
        expect("a filtered group", f.at(kv.first), r);
        all.insert(all.end(), r.begin(), r.end());
      }
      c.keep(f.combine(), all, "filtered groups combined");
    };
    if (by_key) {
      check(g.filter([&](const Key &k, const Data &d) {
        faults.tick();
        expect("a group that is filtered", d, pick(t.refs, want.at(k)));
        return keep(d);
      }));
    } else {
      check(g.filter([&](const Data &d) {
        faults.tick();
        return keep(d);
      }));
    }
    break;
  }
  case 7: {
    // Something else of the same length, grouped in the same way.
    std::vector<short> tags;
    for (const auto &r : t.refs) {
      tags.push_back(static_cast<short>(1000 + r.id));
    }
    const auto w = g.with(tags);
    expect_keys("groups with tags", w, want);
    for (const auto &kv : w) {
      expect("a group with tags", kv.second.first, pick(t.refs, want.at(kv.first)));
      std::vector<short> expected;
      for (auto i : want.at(kv.first)) {
        expected.push_back(static_cast<short>(1000 + t.refs[i].id));
      }
      if (kv.second.second != expected) {
        sim::violation("groups", "a group comes with the tags of another one");
      }
    }
    const auto counts = g.counts();
    const auto wc = g.with(counts);
    expect_keys("groups with groups", wc, want);
    for (const auto &kv : wc) {
      expect("a group with a value", kv.second.first, pick(t.refs, want.at(kv.first)));
      if (kv.second.second != want.at(kv.first).size()) {
        sim::violation("groups", "a group comes with the value of another one");
      }
    }
    break;
  }
  case 8: {
    const auto applied = g.index_apply([&](const Key &, const GroupIndices &at) {
      faults.tick();
      Eigen::VectorXd v(static_cast<long>(at.size()));
      for (std::size_t i = 0; i < at.size(); ++i) {
        v[static_cast<long>(i)] = static_cast<double>(at[i]);
      }
      return v;
    });
    expect_keys("index_apply", applied, want);
    std::vector<double> flat;
    for (const auto &kv : want) {
      for (auto i : kv.second) {
        flat.push_back(static_cast<double>(i));
      }
    }
    num::expect_close("groups", "combined vectors", applied.combine(),
                      Eigen::Map<Eigen::VectorXd>(flat.data(), static_cast<long>(flat.size())),
                      0.);
    break;
  }
  case 9: {
    Refs all;
    for (const auto &kv : want) {
      const auto r = pick(t.refs, kv.second);
      all.insert(all.end(), r.begin(), r.end());
    }
    c.keep(combine(g.groups()), all, "groups combined");
    break;
  }
  case 10: {
    // Groups of groups.
    const auto nested = g.apply([&](const Data &d) {
      return d
          .group_by([&](const Rec &r) {
            faults.tick();
            return r.place % 2;
          })
          .groups()
          .combine();
    });
    Refs all;
    for (const auto &kv : want) {
      for (int parity = -1; parity < 2; ++parity) {
        for (auto i : kv.second) {
          if (t.refs[i].place % 2 == parity) {
            all.push_back(t.refs[i]);
          }
        }
      }
    }
    c.keep(nested.combine(), all, "groups of groups combined");
    break;
  }
  case 11: {
    const auto folds = sim::w(2) ? folds_from_grouper(t.data, grouper)
                                 : folds_from_group_indexer(t.data, g.indexers());
    expect_keys("folds", folds, want);
    for (const auto &kv : want) {
      const auto &f = folds.at(kv.first);
      expect("test set of a fold", f.test_dataset, pick(t.refs, kv.second));
      expect("training set of a fold", f.train_dataset,
             pick(t.refs, complement(kv.second, t.refs.size())));
      if (Indices(f.test_indices.begin(), f.test_indices.end()) != kv.second) {
        sim::violation("folds", "the indices of a fold are wrong");
      }
    }
    const auto back = group_indexer_from_folds(folds.get_map());
    expect_keys("indexer from folds", back, want);
    for (const auto &kv : want) {
      const auto &at = back.at(kv.first);
      if (Indices(at.begin(), at.end()) != kv.second) {
        sim::violation("folds", "the indexer made from folds is wrong");
      }
    }
    if (!want.empty() && (dataset_size_from_indexer(back) != t.refs.size() ||
                          unique_indices(back).size() != t.refs.size())) {
      sim::violation("folds", "the folds of %zu items say they are of %zu", t.refs.size(),
                     dataset_size_from_indexer(back));
    }
    std::vector<Key> some;
    Indices expected;
    for (const auto &kv : want) {
      if (sim::w(2)) {
        some.push_back(kv.first);
        expected.insert(expected.end(), kv.second.begin(), kv.second.end());
      }
    }
    const auto from = indices_from_groups(g.indexers(), some);
    if (Indices(from.begin(), from.end()) != expected) {
      sim::violation("folds", "the indices of some groups are wrong");
    }
    break;
  }
  default:
    cross_validate(c, t, grouper, want);
  }
}

template <typename Key, typename Grouper>
void grouped(Client &c, const Table &t, const Grouper &grouper, const Want<Key> &want) {
  // Grouped data outlives the data that was grouped.
  switch (sim::w(3)) {
  case 0:
    return grouped<Key>(c, t, grouper, want, t.data.group_by(grouper));
  case 1: {
    auto copy = std::make_unique<Data>(t.data);
    const auto g = albatross::group_by(*copy, grouper);
    copy.reset();
    return grouped<Key>(c, t, grouper, want, g);
  }
  default: {
    using G = decltype(t.data.group_by(grouper));
    auto first = std::make_unique<G>(make(t.refs).group_by(grouper));
    const G g = *first;
    first.reset();
    return grouped<Key>(c, t, grouper, want, g);
  }
  }
}

template <typename F> auto want_of(const Table &t, F key) {
  Want<decltype(key(0, t.refs[0]))> w;
  for (std::size_t i = 0; i < t.refs.size(); ++i) {
    w[key(i, t.refs[i])].push_back(i);
  }
  return w;
}

#if SHARD == 0
void group1(Client &c, const Table &t);
void group2(Client &c, const Table &t);
#elif SHARD == 1
void group1(Client &c, const Table &t) {
  const int m = 1 + static_cast<int>(sim::w(5));
  switch (sim::w(4)) {
  case 3: // grouped data that all threads share
    return grouped<int>(c, c.common->table, tens,
                        want_of(c.common->table, [](std::size_t, const Ref &r) { return r.place / 10; }),
                        c.common->groups);
  case 0:
    return grouped<int>(
        c, t,
        [&c, m](const Rec &r) {
          c.faults.tick();
          return r.place % m;
        },
        want_of(t, [m](std::size_t, const Ref &r) { return r.place % m; }));
  case 1:
    return grouped<int>(c, t, tens,
                        want_of(t, [](std::size_t, const Ref &r) { return r.place / 10; }));
  default:
    return grouped<std::string>(
        c, t,
        [&c, m](const Rec &r) {
          c.faults.tick();
          return std::string(static_cast<std::size_t>(1 + r.id % m) * 9, 'k');
        },
        want_of(t, [m](std::size_t, const Ref &r) {
          return std::string(static_cast<std::size_t>(1 + r.id % m) * 9, 'k');
        }));
  }
}
#else
void group2(Client &c, const Table &t) {
  switch (sim::w(3)) {
  case 0:
    return grouped<std::size_t>(c, t, LeaveOneOutGrouper(),
                                want_of(t, [](std::size_t i, const Ref &) { return i; }));
  case 1: {
    const std::size_t k = 1 + sim::w(7);
    return grouped<std::size_t>(
        c, t, KFoldGrouper(k),
        want_of(t, [k](std::size_t i, const Ref &) { return i % k; }));
  }
  default:
    return grouped<std::pair<int, bool>>(
        c, t,
        [&c](const Rec &r) {
          c.faults.tick();
          return std::make_pair(-(r.place / 7), r.id % 2 == 0);
        },
        want_of(t, [](std::size_t, const Ref &r) {
          return std::make_pair(-(r.place / 7), r.id % 2 == 0);
        }));
  }
}
#endif

#if SHARD == 0
JointDistribution joint_of(const Refs &r) {
  const auto n = static_cast<long>(r.size());
  Eigen::VectorXd m(n);
  Eigen::MatrixXd cov(n, n);
  for (long i = 0; i < n; ++i) {
    m[i] = mean_of(r[i].id);
    for (long j = 0; j < n; ++j) {
      cov(i, j) = r[i].id == r[j].id ? var_of(r[i].id) : 1e-3 / (1 + r[i].id + r[j].id);
    }
  }
  return JointDistribution(m, cov);
}
void expect_joint(const char *what, const JointDistribution &j, const Refs &r) {
  const auto want = joint_of(r);
  num::expect_close("targets", what, j.mean, want.mean, 0.);
  num::expect_close("targets", what, j.covariance, want.covariance, 0.);
}

Indices draw_indices(std::size_t n) {
  Indices at;
  if (n == 0) {
    return at;
  }
  if (sim::w(2)) {
    for (std::size_t i = 0; i < n; ++i) {
      if (sim::w(3)) {
        at.push_back(i);
      }
    }
    if (sim::w(2)) {
      num::shuffle(at);
    }
  } else { // with repetitions
    for (std::size_t k = sim::w(n + 3); k > 0; --k) {
      at.push_back(sim::w(n));
    }
  }
  return at;
}

Refs distinct_places(const Refs &r) {
  Refs out;
  for (const auto &x : r) {
    bool later = false;
    for (const auto *p = &x + 1; p != r.data() + r.size(); ++p) {
      later |= p->place == x.place;
    }
    if (!later) {
      out.push_back(x);
    }
  }
  return out;
}

// One operation.
void operate(Client &c) {
  const Table t = c.any();
  const std::size_t n = t.refs.size();
  Faults &faults = c.faults;
  for (const auto &r : t.refs) {
    c.sig = sim::mix(c.sig, static_cast<std::uint64_t>(r.id));
  }
  const std::size_t which = sim::w(20);
  c.op = "op/" + std::to_string(which);
  switch (which) {
  case 0: {
    const Indices at = draw_indices(n);
    c.nontrivial = at.size() > 1;
    c.keep(t.data.subset(at), pick(t.refs, at), "subset");
    expect_features("subset of a vector", subset(t.data.features, at), pick(t.refs, at));
    break;
  }
  case 1: {
    const Table o = c.any();
    c.nontrivial = n > 0 && !o.refs.empty();
    Refs all = t.refs;
    all.insert(all.end(), o.refs.begin(), o.refs.end());
    c.keep(concatenate_datasets(t.data, o.data), all, "concatenation");
    break;
  }
  case 2: {
    std::vector<Data> parts;
    Refs all;
    for (std::size_t k = sim::w(4); k > 0; --k) {
      const Table o = c.any();
      parts.push_back(o.data);
      all.insert(all.end(), o.refs.begin(), o.refs.end());
    }
    c.nontrivial = parts.size() > 1;
    c.keep(concatenate_datasets(parts), all, "concatenation of many");
    break;
  }
  case 3: {
    // Two kinds of features.
    std::vector<Other> others;
    const std::size_t k = sim::w(5);
    Eigen::VectorXd m(static_cast<long>(k)), v(m.size());
    for (std::size_t i = 0; i < k; ++i) {
      others.push_back({static_cast<int>(500 + i)});
      m[static_cast<long>(i)] = mean_of(others[i].id);
      v[static_cast<long>(i)] = var_of(others[i].id);
    }
    const RegressionDataset<Other> other(others, MarginalDistribution(m, v));
    c.nontrivial = n > 0 && k > 0;
    const auto check = [&](const auto &mixed, bool first) {
      Refs ids;
      for (std::size_t i = 0; i < k && !first; ++i) {
        ids.push_back({0, others[i].id});
      }
      ids.insert(ids.end(), t.refs.begin(), t.refs.end());
      for (std::size_t i = 0; i < k && first; ++i) {
        ids.push_back({0, others[i].id});
      }
      expect_targets("concatenation of two kinds", mixed.targets, ids);
      if (mixed.features.size() != ids.size()) {
        sim::violation("items", "concatenation of two kinds has %zu items",
                       mixed.features.size());
      }
      for (std::size_t i = 0; i < ids.size(); ++i) {
        const int id = mixed.features[i].match([](const Rec &r) { return r.id; },
                                               [](const Other &o) { return o.id; });
        if (id != ids[i].id) {
          sim::violation("items", "concatenation of two kinds: item %zu is %d, expected %d",
                         i, id, ids[i].id);
        }
      }
    };
    check(concatenate_datasets(t.data, other), true);
    check(concatenate_datasets(other, t.data), false);
    // And a third time onto a variant.
    const auto both = concatenate_datasets(t.data, other);
    const auto more = concatenate_datasets(both, other);
    const auto front = concatenate_datasets(other, both);
    Refs a = t.refs, b;
    for (int twice = 0; twice < 2; ++twice) {
      for (const auto &o : others) {
        a.push_back({0, o.id});
      }
    }
    for (const auto &o : others) {
      b.push_back({0, o.id});
    }
    b.insert(b.end(), t.refs.begin(), t.refs.end());
    for (const auto &o : others) {
      b.push_back({0, o.id});
    }
    expect_targets("concatenation onto a variant", more.targets, a);
    expect_targets("concatenation before a variant", front.targets, b);
    const auto id_of = [](const auto &f) {
      return f.match([](const Rec &r) { return r.id; }, [](const Other &o) { return o.id; });
    };
    for (std::size_t i = 0; i < a.size(); ++i) {
      if (id_of(more.features.at(i)) != a[i].id || id_of(front.features.at(i)) != b[i].id) {
        sim::violation("items", "item %zu of a concatenation with a variant is wrong", i);
      }
    }
    break;
  }
  case 4: {
    const Refs want = distinct_places(t.refs);
    c.nontrivial = want.size() < n;
    c.keep(deduplicate(t.data), want, "data without duplicates");
    break;
  }
  case 5: {
    // Align two data sets that hold every place once, in place (Eigen's
    // assignment is not safe when memory runs out).
    sim::NoFault scope;
    Table x, y;
    x.refs = distinct_places(t.refs);
    y.refs = distinct_places(c.any().refs);
    x.data = make(x.refs);
    y.data = make(y.refs);
    Refs ax, ay;
    for (const auto &i : x.refs) {
      for (const auto &j : y.refs) {
        if (i.place == j.place) {
          ax.push_back(i);
          ay.push_back(j);
        }
      }
    }
    c.nontrivial = ax.size() > 0 && (ax.size() < x.refs.size() || ay.size() < y.refs.size());
    bool done = false;
    try {
      if (sim::w(2)) {
        align_datasets(&x.data, &y.data);
      } else {
        align_datasets(&x.data, &y.data, [&](const Rec &a, const Rec &b) {
          faults.tick();
          return a.place == b.place;
        });
      }
      done = true;
    } catch (...) {
      // Each side is as before or aligned, never half of one.
      const auto whole = [](const Data &d, const Refs &before, const Refs &after) {
        const bool changed = d.features.size() != before.size();
        expect("a data set whose alignment failed", d, changed ? after : before);
      };
      whole(x.data, x.refs, ax);
      whole(y.data, y.refs, ay);
      throw;
    }
    if (done) {
      c.keep(x.data, ax, "first of aligned data sets");
      c.keep(y.data, ay, "second of aligned data sets");
    }
    break;
  }
  case 6: {
    const int m = 1 + static_cast<int>(sim::w(4));
    Refs want;
    for (const auto &r : t.refs) {
      if (r.id % m == 0) {
        want.push_back(r);
      }
    }
    c.nontrivial = want.size() < n;
    const auto keep = [&](const Rec &r) {
      faults.tick();
      return r.id % m == 0;
    };
    if (sim::w(2)) {
      c.keep(filter(t.data, keep), want, "filtered data");
    } else {
      expect_features("a filtered vector", filter(t.data.features, keep), want);
    }
    break;
  }
  case 7: {
    const int m = 1 + static_cast<int>(sim::w(5));
    std::set<int> want, squares;
    for (const auto &r : t.refs) {
      want.insert(r.place % m);
      squares.insert((r.place % m) * (r.place % m));
    }
    c.nontrivial = want.size() < n;
    const auto f = [&](const Rec &r) {
      faults.tick();
      return r.place % m;
    };
    const auto applied = apply(t.data.features, f);
    for (std::size_t i = 0; i < n; ++i) {
      if (applied.size() != n || applied[i] != t.refs[i].place % m) {
        sim::violation("items", "a function applied to a vector gives something else");
      }
    }
    std::size_t calls = 0;
    apply(t.data.features, [&](const Rec &r) {
      faults.tick();
      if (r.id != t.refs.at(calls).id) {
        sim::violation("items", "a function is applied out of order");
      }
      ++calls;
    });
    const auto square = [](const int &x) { return x * x; };
    if (calls != n || unique_values(t.data.features, f) != want ||
        unique_values(applied) != want ||
        unique_values(unique_values(applied), square) != squares) {
      sim::violation("items", "the unique values are wrong");
    }
    if (want.size() == 1 && unique_value(applied) != *want.begin()) {
      sim::violation("items", "the unique value is wrong");
    }
    std::set<int> odd;
    for (int x : want) {
      if (x % 2 == 1) {
        odd.insert(x);
      }
    }
    if (filter(want, [](const int &x) { return x % 2 == 1; }) != odd) {
      sim::violation("items", "a filtered set is wrong");
    }
    break;
  }
  case 8: {
    // Any test set, also one that is not a group.
    Indices at = draw_indices(n);
    std::set<std::size_t> once(at.begin(), at.end());
    Indices unique;
    for (auto i : at) {
      if (once.erase(i)) {
        unique.push_back(i);
      }
    }
    const auto rest = complement(unique, n);
    c.nontrivial = !unique.empty() && !rest.empty();
    if (indices_complement(unique, n) != rest) {
      sim::violation("folds", "the complement of indices is wrong");
    }
    const auto fold = create_fold(unique, t.data);
    expect("test set", fold.test_dataset, pick(t.refs, unique));
    expect("training set", fold.train_dataset, pick(t.refs, rest));
    break;
  }
  case 9: {
    const Indices at = draw_indices(n);
    c.nontrivial = at.size() > 1;
    expect_targets("subset of targets", subset(t.data.targets, at), pick(t.refs, at));
    std::vector<int> small;
    for (auto i : at) {
      small.push_back(static_cast<int>(i));
    }
    expect_targets("subset of targets", t.data.targets.subset(small), pick(t.refs, at));
    const auto j = joint_of(t.refs);
    expect_joint("subset of a joint distribution", subset(j, at), pick(t.refs, at));
    expect_targets("marginal of a joint distribution", j.marginal(), t.refs);
    for (std::size_t i = 0; i < n; ++i) {
      expect_targets("one of the targets", t.data.targets[i], {t.refs[i]});
      expect_targets("one of a joint distribution", j[i], {t.refs[i]});
    }
    break;
  }
  case 10: {
    // Overwrite some targets with others.
    Indices all(n);
    for (std::size_t i = 0; i < n; ++i) {
      all[i] = i;
    }
    num::shuffle(all);
    all.resize(n == 0 ? 0 : sim::w(n + 1));
    const Table o = c.any();
    if (o.refs.size() < all.size()) {
      break;
    }
    c.nontrivial = all.size() > 1;
    MarginalDistribution to = t.data.targets;
    Refs want = t.refs;
    Indices first(all.size());
    for (std::size_t i = 0; i < all.size(); ++i) {
      first[i] = i;
      want[all[i]] = o.refs[i];
    }
    to.set_subset(o.data.targets.subset(first), all);
    expect_targets("targets of which some were set", to, want);
    Eigen::VectorXd m = t.data.targets.mean;
    set_subset(Eigen::VectorXd(o.data.targets.mean.head(static_cast<long>(all.size()))), all, &m);
    num::expect_close("targets", "a vector of which some were set", m, to.mean, 0.);
    break;
  }
  case 11: {
    const Table o = c.any();
    Refs all = t.refs;
    all.insert(all.end(), o.refs.begin(), o.refs.end());
    c.nontrivial = n > 0 && !o.refs.empty();
    expect_targets("concatenated targets",
                   concatenate_marginals(t.data.targets, o.data.targets), all);
    expect_features("concatenated features", concatenate(t.data.features, o.data.features),
                    all);
    break;
  }
  case 12: {
    // Linear combinations: a transformation that only selects and scales.
    const std::size_t rows = sim::w(6);
    Eigen::MatrixXd a = Eigen::MatrixXd::Zero(static_cast<long>(rows), static_cast<long>(n));
    for (long i = 0; i < a.rows(); ++i) {
      for (long j = 0; j < a.cols(); ++j) {
        if (sim::w(3) == 2) {
          a(i, j) = static_cast<double>(sim::range(1, 5)) * (sim::w(2) ? 1. : -1.);
          a(i, j) *= std::pow(10., -4. * static_cast<double>(sim::w(6)));
        }
      }
    }
    c.nontrivial = rows > 0 && n > 1;
    Eigen::VectorXd mean = a * t.data.targets.mean, var(a.rows());
    for (long i = 0; i < a.rows(); ++i) {
      var[i] = 0.;
      for (long j = 0; j < a.cols(); ++j) {
        var[i] += a(i, j) * a(i, j) * var_of(t.refs[j].id);
      }
    }
    const auto check = [&](const auto &d) {
      if (d.features.size() != rows) {
        sim::violation("items", "%zu combinations, expected %zu", d.features.size(), rows);
      }
      for (std::size_t i = 0; i < rows; ++i) {
        const auto &f = d.features[i];
        if (static_cast<long>(f.values.size()) != f.coefficients.size()) {
          sim::violation("items", "a combination of %zu values with %ld coefficients",
                         f.values.size(), (long)f.coefficients.size());
        }
        std::vector<double> w(n, 0.);
        for (std::size_t k = 0; k < f.values.size(); ++k) {
          bool found = false;
          for (std::size_t j = 0; j < n && !found; ++j) {
            if (t.refs[j].id == f.values[k].id && t.refs[j].place == f.values[k].place &&
                w[j] == 0. && a(static_cast<long>(i), static_cast<long>(j)) ==
                                  f.coefficients[static_cast<long>(k)]) {
              w[j] = f.coefficients[static_cast<long>(k)];
              found = true;
            }
          }
          if (!found) {
            sim::violation("items", "a combination holds %g times item %d",
                           f.coefficients[static_cast<long>(k)], f.values[k].id);
          }
        }
        for (std::size_t j = 0; j < n; ++j) {
          if (w[j] != a(static_cast<long>(i), static_cast<long>(j))) {
            sim::violation("items", "a combination lacks an item");
          }
        }
      }
      num::expect_close("targets", "mean of combinations", d.targets.mean, mean, 1e-12);
      num::expect_close("targets", "variance of combinations",
                        d.targets.covariance.diagonal(), var, 1e-12);
    };
    const Eigen::SparseMatrix<double> s = a.sparseView();
    check(a * t.data);
    check(s * t.data);
    const Eigen::SparseMatrix<double, Eigen::RowMajor> r = s;
    check(r * t.data);
    const JointDistribution j = a * t.data.targets;
    num::expect_close("targets", "joint mean of combinations", j.mean, mean, 1e-12);
    num::expect_close("targets", "joint covariance of combinations", j.covariance,
                      a * t.data.targets.covariance.diagonal().asDiagonal() * a.transpose(),
                      1e-12);
    break;
  }
  case 13: {
    // Printing shows every item once, in order, on the stream that was given.
    // String streams do not report failed allocations.
    sim::NoFault scope;
    c.nontrivial = n > 0;
    std::ostringstream a, b, d;
    a << t.data;
    b << t.data.targets;
    const auto j = joint_of(t.refs);
    d << j;
    std::ostringstream wa, wb;
    for (std::size_t i = 0; i < n; ++i) {
      const int id = t.refs[i].id;
      wa << "<" << t.refs[i].place << "/" << id << ">    " << mean_of(id) << "   +/- "
         << std::sqrt(var_of(id)) << "\n";
      wb << i << "    " << mean_of(id) << "   +/- " << std::sqrt(var_of(id)) << "\n";
    }
    if (a.str() != wa.str() || b.str() != wb.str()) {
      sim::violation("print", "data is printed as %s", a.str().c_str());
    }
    std::istringstream in(d.str());
    for (std::size_t i = 0; i < n; ++i) {
      double x;
      if (!(in >> x) || std::fabs(x - j.mean[static_cast<long>(i)]) > 1e-4 * (1. + std::fabs(x))) {
        sim::violation("print", "a joint distribution is not printed where it should be");
      }
      for (std::size_t k = 0; k < n; ++k) {
        if (!(in >> x) || std::fabs(x - j.covariance(static_cast<long>(i), static_cast<long>(k))) >
                              1e-4 * (1. + std::fabs(x))) {
          sim::violation("print", "a joint distribution is printed wrong");
        }
      }
    }
    break;
  }
  case 14: {
    // Sums and multiples of distributions.
    const Table o = c.any();
    const auto k = static_cast<long>(std::min(n, o.refs.size()));
    Indices first(static_cast<std::size_t>(k));
    for (std::size_t i = 0; i < first.size(); ++i) {
      first[i] = i;
    }
    const auto x = t.data.targets.subset(first), y = o.data.targets.subset(first);
    const auto jx = joint_of(pick(t.refs, first)), jy = joint_of(pick(o.refs, first));
    c.nontrivial = k > 1;
    const Eigen::VectorXd vx = x.covariance.diagonal(), vy = y.covariance.diagonal();
    const auto m = [](const char *what, const MarginalDistribution &d,
                      const Eigen::VectorXd &mean, const Eigen::VectorXd &v) {
      num::expect_close("targets", what, d.mean, mean, 1e-12);
      num::expect_close("targets", what, d.covariance.diagonal(), v, 1e-12);
    };
    const auto jj = [](const char *what, const JointDistribution &d,
                       const Eigen::VectorXd &mean, const Eigen::MatrixXd &v) {
      num::expect_close("targets", what, d.mean, mean, 1e-12);
      num::expect_close("targets", what, d.covariance, v, 1e-12);
    };
    m("sum of marginals", x + y, x.mean + y.mean, vx + vy);
    m("difference of marginals", x - y, x.mean - y.mean, vx + vy);
    m("multiple of a marginal", x * -3., -3. * x.mean, 9. * vx);
    jj("sum of joints", jx + jy, x.mean + y.mean, jx.covariance + jy.covariance);
    jj("difference of joints", jx - jy, x.mean - y.mean, jx.covariance + jy.covariance);
    jj("sum of a joint and a marginal", jx + y, x.mean + y.mean,
       jx.covariance + Eigen::MatrixXd(vy.asDiagonal()));
    jj("difference of a joint and a marginal", jx - y, x.mean - y.mean,
       jx.covariance + Eigen::MatrixXd(vy.asDiagonal()));
    jj("multiple of a joint", jx * -3., -3. * x.mean, 9. * jx.covariance);
    if (!(x == x) || !(jx == jx) || (k > 0 && (x + y == x || jx + jy == jx))) {
      sim::violation("targets", "comparison of distributions is wrong");
    }
    break;
  }
  case 15:
  case 16:
  case 17:
    return group1(c, t);
  default:
    return group2(c, t);
  }
}

// Every operation, with at most one fault.
void step(Client &c, bool alone) {
  c.sig = 1;
  c.nontrivial = false;
  const std::size_t kind = sim::f(4);
  const bool memory = kind == 3 && alone;
  c.faults.left = kind == 2 ? static_cast<long>(sim::f(40)) : -1;
  c.faults.id = static_cast<long>(sim::steps());
  c.faults.fired = false;
  if (memory) {
    sim::arm_alloc_fault(sim::f(300));
  }
  int thrown = 0;
  try {
    operate(c);
  } catch (const Boom &b) {
    thrown = b.id == c.faults.id ? 1 : 3;
  } catch (const std::bad_alloc &) {
    thrown = 2;
  } catch (...) {
    thrown = 3;
  }
  bool out_of_memory = false;
  if (memory) {
    out_of_memory = sim::alloc_fault_fired();
    sim::disarm_alloc_fault();
    if (out_of_memory) {
      sim::fault_fired("alloc");
    }
  }
  if (thrown != (c.faults.fired ? 1 : 0) && !(thrown == 2 && out_of_memory) &&
      !(thrown == 0 && out_of_memory)) {
    sim::violation("exception", "%s ends with exception kind %d", c.op.c_str(), thrown);
  }
  c.faults.left = -1;
  for (const auto &t : c.own) {
    expect("a data set after an operation", t.data, t.refs);
  }
  for (const auto &t : *c.shared) {
    expect("a shared data set after an operation", t.data, t.refs);
  }
  sim::evaluated(c.nontrivial || thrown != 0,
                 sim::hash_bytes(c.op.data(), c.op.size(),
                                 sim::mix(c.sig, static_cast<std::uint64_t>(thrown))));
}
#endif
} // namespace p08

#if SHARD == 0
void sim_run() {
  using namespace p08;
  std::vector<Table> shared;
  int next = 0;
  for (std::size_t k = 1 + sim::w(3); k > 0; --k) {
    Refs refs;
    const std::size_t n = sim::w(6) == 0 ? 0 : sim::w(13);
    const int places = 1 + static_cast<int>(sim::w(40));
    for (std::size_t i = 0; i < n; ++i) {
      refs.push_back({static_cast<int>(sim::w(static_cast<std::uint64_t>(places))), next++});
    }
    shared.push_back({make(refs), refs});
  }
  const Common common(shared[0]);
  const std::size_t n_clients = sim::w(3) == 2 ? 1 + sim::w(3) : 1;
  std::vector<std::unique_ptr<Client>> clients;
  for (std::size_t i = 0; i < n_clients; ++i) {
    clients.push_back(std::make_unique<Client>());
    clients.back()->shared = &shared;
    clients.back()->common = &common;
  }
  const std::size_t steps = 1 + sim::w(10);
  sim::begin(sim::random_sched());
  {
    const auto work = [&](Client &c) {
      for (std::size_t i = 0; i < steps; ++i) {
        step(c, n_clients == 1);
      }
    };
    std::vector<std::thread> threads;
    for (std::size_t i = 1; i < n_clients; ++i) {
      threads.emplace_back([&, i] { work(*clients[i]); });
    }
    work(*clients[0]);
    for (auto &t : threads) {
      t.join();
    }
  }
  sim::end();
}
#endif
