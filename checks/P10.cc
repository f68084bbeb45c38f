// P10: exported CSV files hold every value in its column, and lost data is
// always visible.
#include <albatross/Core>
#include <albatross/Dataset>
#include <albatross/utils/CsvUtils>

#include "num.h"
#include "sim.h"

#include <algorithm>
#include <memory>
#include <set>
#include <sstream>
#include <streambuf>
#include <thread>

extern const char *const kProperty, *const kRule, *const kRealCode, *const kStubs;
extern const std::vector<std::string> kAssumptions;
const char *const kProperty = "P10";
const char *const kRule =
    "one evaluation = one export (or one failed export) compared cell by cell with "
    "an independent description of the data; non-trivial = at least one row and a "
    "cell that is empty for some rows, or an injected fault that fired; distinct by "
    "the bytes written";
const char *const kRealCode =
    "csv_utils (write_to_csv, write_row, write_header, to_map, XML flattening, "
    "get_column_names), RegressionDataset, MarginalDistribution, "
    "JointDistribution, cereal XML archive";
const char *const kStubs = "the device under the output stream, pthread scheduling, clocks";
const std::vector<std::string> kAssumptions = {
    "names and values hold no comma, quote or line break; the format has no quoting",
    "targets and predictions are printed with six decimals"};

namespace p10 {
using namespace albatross;

// Where the bytes go: a file (seekable) or a pipe, of limited size.
class Device : public std::streambuf {
public:
  Device(bool pipe, std::size_t capacity) : pipe_(pipe), capacity_(capacity) {}
  const std::string &text() const { return text_; }
  bool full() const { return full_; }

protected:
  int overflow(int c) override {
    if (at_ >= capacity_) {
      full_ = true;
      return traits_type::eof();
    }
    if (at_ < text_.size()) {
      text_[at_] = static_cast<char>(c);
    } else {
      text_.push_back(static_cast<char>(c));
    }
    ++at_;
    return c;
  }
  std::streamsize xsputn(const char *s, std::streamsize n) override {
    std::streamsize k = 0;
    while (k < n && overflow(static_cast<unsigned char>(s[k])) != traits_type::eof()) {
      ++k;
    }
    return k;
  }
  pos_type seekoff(off_type off, std::ios_base::seekdir dir,
                   std::ios_base::openmode) override {
    if (pipe_) {
      return pos_type(off_type(-1));
    }
    const off_type base = dir == std::ios_base::beg   ? 0
                          : dir == std::ios_base::cur ? static_cast<off_type>(at_)
                                                      : static_cast<off_type>(text_.size());
    if (base + off < 0 || base + off > static_cast<off_type>(text_.size())) {
      return pos_type(off_type(-1));
    }
    at_ = static_cast<std::size_t>(base + off);
    return pos_type(base + off);
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override {
    return seekoff(off_type(p), std::ios_base::beg, m);
  }

private:
  std::string text_;
  std::size_t at_ = 0;
  bool pipe_;
  std::size_t capacity_;
  bool full_ = false;
};

struct Inner {
  double depth = 0.;
  int count = 0;
  template <typename Archive> void serialize(Archive &ar) {
    ar(cereal::make_nvp("depth", depth), cereal::make_nvp("count", count));
  }
};
// Through XML.
struct Station {
  double x = 0.;
  std::string tag;
  Inner inner;
  bool has_extra = false;
  long extra = 0;
  std::uint8_t unused = 0;

  template <typename Archive> void save(Archive &ar) const {
    ar(cereal::make_nvp("x", x), cereal::make_nvp("tag", tag));
    ar(cereal::make_nvp("inner", inner));
    if (has_extra) {
      ar(cereal::make_nvp("extra", extra));
    }
  }
  template <typename Archive> void load(Archive &) {}
};
// Through its own description.
struct Custom {
  std::map<std::string, std::string> cells;
};
inline std::map<std::string, std::string> to_map(const Custom &c) { return c.cells; }

using Rows = std::vector<std::map<std::string, std::string>>;
// Cells that are numbers compare by value, the others by text.
struct Cell {
  std::string text;
  double number = NAN;
  double tol = -1.; // < 0: text
};
using Table = std::vector<std::map<std::string, Cell>>;

Cell text_cell(const std::string &s) { return {s, NAN, -1.}; }
Cell number_cell(double v, double tol) { return {"", v, tol}; }

bool equal(const Cell &want, const std::string &got) {
  if (want.tol < 0.) {
    return want.text == got;
  }
  char *end = nullptr;
  const double v = std::strtod(got.c_str(), &end);
  if (got.empty() || *end) {
    return false;
  }
  if (std::isnan(want.number)) {
    return std::isnan(v);
  }
  return std::fabs(v - want.number) <= want.tol * (1. + 1e-9 * std::fabs(want.number));
}

std::vector<std::vector<std::string>> lines_of(const std::string &text, bool *torn) {
  std::vector<std::vector<std::string>> out;
  std::vector<std::string> row(1);
  *torn = false;
  for (const char c : text) {
    if (c == '\n') {
      out.push_back(row);
      row.assign(1, "");
      *torn = false;
    } else {
      *torn = true;
      if (c == ',') {
        row.emplace_back();
      } else {
        row.back().push_back(c);
      }
    }
  }
  if (*torn) {
    out.push_back(row);
  }
  return out;
}

// Does the text hold the table?  Columns are all keys, in some order, when
// `columns` is empty.
void expect_table(const std::string &text, const Table &table, bool header,
                  const std::vector<std::string> &columns) {
  bool torn;
  const auto lines = lines_of(text, &torn);
  if (torn) {
    sim::violation("format", "the last line is not ended");
  }
  std::set<std::string> keys;
  for (const auto &r : table) {
    for (const auto &kv : r) {
      keys.insert(kv.first);
    }
  }
  if (lines.size() != table.size() + (header ? 1 : 0)) {
    sim::violation("rows", "%zu rows became %zu lines%s", table.size(), lines.size(),
                   header ? " with the header" : "");
  }
  std::vector<std::string> head = columns;
  if (head.empty()) {
    head.assign(keys.begin(), keys.end());
  }
  if (header && !head.empty()) {
    auto got = lines[0];
    std::sort(got.begin(), got.end());
    auto want = head;
    std::sort(want.begin(), want.end());
    if (got != want) {
      std::string all;
      for (const auto &c : got) {
        all += c + " ";
      }
      sim::violation("columns", "the columns are: %s", all.c_str());
    }
    head = lines[0];
  }
  for (std::size_t i = 0; i < table.size(); ++i) {
    const auto &line = lines[i + (header ? 1 : 0)];
    if (line.size() != std::max<std::size_t>(head.size(), 1)) {
      sim::violation("format", "row %zu has %zu cells for %zu columns", i, line.size(),
                     head.size());
    }
    for (std::size_t c = 0; c < head.size(); ++c) {
      const auto it = table[i].find(head[c]);
      const bool ok = it == table[i].end() ? line[c].empty() : equal(it->second, line[c]);
      if (!ok) {
        sim::violation("cell", "row %zu, column %s holds \"%s\" instead of \"%s\" (%.17g)", i,
                       head[c].c_str(), line[c].c_str(),
                       it == table[i].end() ? "" : it->second.text.c_str(),
                       it == table[i].end() ? NAN : it->second.number);
      }
    }
  }
}

std::string word() {
  static const char *const words[] = {"a", "beta", "x<y", "p&q", "'quoted'", "two words",
                                      "tab\tbed", "1e5", "-", "UTC"};
  return words[sim::w(10)];
}

double some_number() {
  switch (sim::w(5)) {
  case 0:
    return static_cast<double>(sim::range(-5, 5));
  case 1:
    return sim::gauss();
  case 2:
    return sim::gauss() * 1e-5;
  case 3:
    return sim::gauss() * 1e6;
  default:
    return sim::real(-100., 100.);
  }
}

template <typename F> struct Set {
  std::vector<RegressionDataset<F>> data;
  std::vector<MarginalDistribution> marginals;
  std::vector<JointDistribution> joints;
  bool joint = false;
  Table features; // the cells that come from the features
  Table table;    // everything
};

void make(Station *s, std::map<std::string, Cell> *cells) {
  s->x = some_number();
  s->tag = word();
  s->inner.depth = some_number();
  s->inner.count = static_cast<int>(sim::range(-3, 3));
  s->has_extra = sim::w(3) == 2;
  s->extra = sim::range(-100, 100);
  (*cells)["x"] = number_cell(s->x, 1e-12 * (1. + std::fabs(s->x)));
  (*cells)["tag"] = text_cell(s->tag);
  (*cells)["inner.depth"] =
      number_cell(s->inner.depth, 1e-12 * (1. + std::fabs(s->inner.depth)));
  (*cells)["inner.count"] = text_cell(std::to_string(s->inner.count));
  if (s->has_extra) {
    (*cells)["extra"] = text_cell(std::to_string(s->extra));
  }
}
void make(Custom *s, std::map<std::string, Cell> *cells) {
  static const char *const names[] = {"alpha", "zeta", "mid", "Upper", "under_score"};
  for (const auto n : names) {
    if (sim::w(2)) {
      s->cells[n] = word();
      (*cells)[n] = text_cell(s->cells[n]);
    }
  }
}
void make(double *s, std::map<std::string, Cell> *cells) {
  *s = some_number();
  (*cells)["feature"] = number_cell(*s, 5.1e-7);
}

template <typename F> Set<F> draw() {
  Set<F> out;
  const std::size_t sets = 1 + sim::w(3);
  out.joint = sim::w(2);
  for (std::size_t k = 0; k < sets; ++k) {
    const auto n = static_cast<long>(sim::w(12) == 11 ? 5 + sim::w(30) : sim::w(5));
    std::vector<F> features(n);
    Eigen::VectorXd m(n), v(n), pm(n), pv(n);
    Eigen::MatrixXd cov = Eigen::MatrixXd::Identity(n, n) * 0.5;
    Table cells(n);
    for (long i = 0; i < n; ++i) {
      make(&features[i], &cells[i]);
      m[i] = some_number();
      v[i] = std::fabs(some_number());
      pm[i] = some_number();
      pv[i] = std::fabs(some_number());
      cov(i, i) = pv[i];
      for (long j = 0; j < i; ++j) {
        cov(i, j) = cov(j, i) = some_number();
      }
    }
    RegressionDataset<F> d(features, MarginalDistribution(m, v));
    MarginalDistribution marginal(pm, pv);
    JointDistribution joint(pm, cov);
    std::map<std::string, Cell> meta;
    for (int i = 0; i < 2; ++i) {
      if (sim::w(3) == 2) {
        const std::string key = sim::w(2) ? "time" : "site";
        const std::string value = word();
        d.metadata[key] = value;
        meta[key] = text_cell(value);
      }
      if (sim::w(3) == 2) {
        const std::string key = sim::w(2) ? "model" : "run";
        const std::string value = word();
        marginal.metadata[key] = joint.metadata[key] = value;
        meta[key] = text_cell(value);
      }
    }
    for (long i = 0; i < n; ++i) {
      out.features.push_back(cells[i]);
      auto row = cells[i];
      row["target"] = number_cell(m[i], 5.1e-7);
      row["target_variance"] = number_cell(v[i], 5.1e-7);
      row["prediction"] = number_cell(pm[i], 5.1e-7);
      row["prediction_variance"] = number_cell(pv[i], 5.1e-7);
      for (const auto &kv : meta) {
        row[kv.first] = kv.second;
      }
      out.table.push_back(row);
    }
    out.data.push_back(d);
    out.marginals.push_back(marginal);
    out.joints.push_back(joint);
  }
  return out;
}

// One kind of export.
struct Job {
  int form = 0; // 0 all sets, 1 first set, 2 first set without header,
                // 3 first set with some columns, 4 data only
  std::vector<std::string> columns;
};

template <typename F> void write(std::ostream &os, const Set<F> &s, const Job &job) {
  const auto each = [&](const auto &predictions) {
    switch (job.form) {
    case 0:
      write_to_csv(os, s.data, predictions);
      break;
    case 1:
      write_to_csv(os, s.data[0], predictions[0]);
      break;
    case 2:
      write_to_csv(os, s.data[0], predictions[0], false);
      break;
    case 3:
      write_to_csv(os, s.data[0], predictions[0], job.columns);
      break;
    default:
      write_to_csv(os, s.data[0]);
    }
  };
  if (s.joint) {
    each(s.joints);
  } else {
    each(s.marginals);
  }
}

template <typename F>
void expect_export(const std::string &text, const Set<F> &s, const Job &job) {
  Table t = s.table;
  bool header = true;
  if (job.form != 0) {
    t.resize(s.data[0].size());
  }
  if (job.form == 2 || job.form == 3) {
    header = false;
  }
  if (job.form == 3) {
    expect_table(text, t, false, job.columns);
    return;
  }
  if (job.form == 4) {
    for (auto &row : t) {
      for (const auto &kv : s.joints[0].metadata) {
        if (!s.data[0].metadata.count(kv.first)) {
          row.erase(kv.first);
        }
      }
      row["prediction"] = number_cell(0., 1e-12);
      row["prediction_variance"] = number_cell(NAN, 0.);
      // Whatever a missing variance is printed as.
      row.erase("prediction_variance");
    }
    bool torn;
    const auto lines = lines_of(text, &torn);
    if (!t.empty()) {
      for (auto &row : t) {
        const auto at = static_cast<std::size_t>(&row - t.data()) + 1;
        std::size_t col = 0;
        for (const auto &name : lines.empty() ? std::vector<std::string>() : lines[0]) {
          if (name == "prediction_variance" && at < lines.size() && col < lines[at].size()) {
            row["prediction_variance"] = text_cell(lines[at][col]);
          }
          ++col;
        }
      }
    }
  }
  expect_table(text, t, header, {});
}

bool has_gaps(const Table &t) {
  std::set<std::string> keys;
  std::size_t cells = 0;
  for (const auto &r : t) {
    cells += r.size();
    for (const auto &kv : r) {
      keys.insert(kv.first);
    }
  }
  return !t.empty() && cells < keys.size() * t.size();
}

// The rows of the first set are exchanged in place.
template <typename F> void exchange(Set<F> *s, std::size_t i, std::size_t j) {
  const auto strip = [](std::map<std::string, Cell> *row, const auto &cells) {
    for (const auto &kv : cells) {
      row->erase(kv.first);
    }
  };
  strip(&s->table[i], s->features[i]);
  strip(&s->table[j], s->features[j]);
  std::swap(s->features[i], s->features[j]);
  std::swap(s->data[0].features[i], s->data[0].features[j]);
  s->table[i].insert(s->features[i].begin(), s->features[i].end());
  s->table[j].insert(s->features[j].begin(), s->features[j].end());
}

template <typename F> void exports() {
  Set<F> s = draw<F>();
  const std::size_t n_clients = 1 + sim::w(3);
  struct Client {
    Job job;
    bool pipe;
    std::size_t capacity;
    bool throws; // the stream reports errors by exceptions
    std::unique_ptr<Device> device;
    bool good = false, thrown = false;
  };
  std::vector<Client> clients(n_clients);
  for (auto &c : clients) {
    c.job.form = static_cast<int>(sim::w(5));
    if (c.job.form == 3) {
      const char *const some[] = {"prediction", "x", "zeta", "nonsense", "target",
                                  "inner.depth", "extra", "feature"};
      const std::size_t n = 1 + sim::w(4);
      for (std::size_t i = 0; i < n; ++i) {
        c.job.columns.push_back(some[(sim::w(8) + i) % 8]);
      }
      std::sort(c.job.columns.begin(), c.job.columns.end());
      c.job.columns.erase(std::unique(c.job.columns.begin(), c.job.columns.end()),
                          c.job.columns.end());
      num::shuffle(c.job.columns);
    }
    c.pipe = sim::w(3) == 2;
    c.capacity = sim::f(3) == 2 ? sim::f(1500) : SIZE_MAX;
    c.throws = sim::f(3) == 2;
    c.device = std::make_unique<Device>(c.pipe, c.capacity);
  }
  sim::begin(sim::random_sched());
  {
    const auto work = [&](Client &c) {
      std::ostream os(c.device.get());
      if (c.throws) {
        os.exceptions(std::ios_base::badbit | std::ios_base::failbit);
      }
      try {
        write(os, s, c.job);
      } catch (const std::ios_base::failure &) {
        c.thrown = true;
      }
      c.good = os.good();
    };
    std::vector<std::thread> threads;
    for (std::size_t i = 1; i < n_clients; ++i) {
      threads.emplace_back([&, i] { work(clients[i]); });
    }
    work(clients[0]);
    for (auto &t : threads) {
      t.join();
    }
  }
  sim::end();
  for (const auto &c : clients) {
    Device ideal(false, SIZE_MAX);
    {
      std::ostream os(&ideal);
      write(os, s, c.job);
      if (!os.good()) {
        sim::violation("stream", "an export without any fault leaves the stream bad");
      }
    }
    expect_export(ideal.text(), s, c.job);
    const std::string &text = c.device->text();
    if (c.device->full()) {
      sim::fault_fired(c.pipe ? "pipe-closed" : "disk-full");
      if (c.good || (c.throws && !c.thrown)) {
        sim::violation("loss", "bytes were lost but the stream is good");
      }
      if (text.size() > ideal.text().size() ||
          ideal.text().compare(0, text.size(), text) != 0) {
        sim::violation("loss", "a full device holds something else than the beginning");
      }
    } else {
      if (c.thrown || !c.good) {
        sim::violation("stream", "an export to %s fails without cause",
                       c.pipe ? "a pipe" : "a file");
      }
      if (text != ideal.text()) {
        sim::violation("repeat", "an export to %s differs", c.pipe ? "a pipe" : "a file");
      }
    }
    sim::evaluated(c.device->full() || has_gaps(s.table),
                   sim::hash_bytes(text.data(), text.size(), static_cast<std::uint64_t>(c.job.form)));
  }
  // The same objects, other contents.
  if (s.data[0].size() > 1 && sim::w(2)) {
    const auto n = s.data[0].size();
    const auto i = sim::w(n);
    exchange(&s, i, (i + 1 + sim::w(n - 1)) % n);
    Device again(false, SIZE_MAX);
    std::ostream os(&again);
    write(os, s, clients[0].job);
    if (!os.good()) {
      sim::violation("stream", "an export without any fault leaves the stream bad");
    }
    expect_export(again.text(), s, clients[0].job);
    sim::evaluated(true, sim::mix(i, n));
  }
  // Memory runs out.
  if (sim::f(3) == 2) {
    const Job job = clients[0].job;
    const auto once = [&](Device *d) {
      std::ostream os(d);
      write(os, s, job);
      return os.good();
    };
    Device want(false, SIZE_MAX), counted(false, SIZE_MAX), got(false, SIZE_MAX);
    once(&want);
    sim::count_allocs_begin();
    once(&counted);
    const auto n = sim::count_allocs_end();
    const auto k = sim::f(n);
    bool failed = false;
    sim::arm_alloc_fault(k);
    try {
      failed = !once(&got);
    } catch (const std::exception &) {
      failed = true; // also what the XML library makes of it
    }
    const bool fired = sim::alloc_fault_fired();
    sim::disarm_alloc_fault();
    if (fired) {
      sim::fault_fired("alloc");
    }
    if (failed && !fired) {
      sim::violation("exception", "an export failed without cause");
    }
    const std::string &text = got.text();
    // The streams inside cereal's XML archive swallow failed allocations.
    const bool xml = std::is_same<F, Station>::value;
    if (!failed && !xml && text != want.text()) {
      sim::violation("loss", "an export that ran out of memory lost data in silence");
    }
    sim::evaluated(failed, sim::mix(k, n));
  }
}

void matrices() {
  Eigen::MatrixXd x(static_cast<long>(sim::w(4)), static_cast<long>(1 + sim::w(4)));
  for (long i = 0; i < x.size(); ++i) {
    x.data()[i] = some_number();
  }
  const bool pipe = sim::w(2);
  Device d(pipe, sim::f(3) == 2 ? sim::f(60) : SIZE_MAX), ideal(false, SIZE_MAX);
  std::ostream os(&d), os2(&ideal);
  write_to_csv(os2, x);
  write_to_csv(os, x);
  bool torn;
  const auto lines = lines_of(ideal.text(), &torn);
  if (lines.size() != static_cast<std::size_t>(x.rows())) {
    sim::violation("rows", "a matrix of %ld rows became %zu lines", (long)x.rows(),
                   lines.size());
  }
  for (long i = 0; i < x.rows(); ++i) {
    if (lines[i].size() != static_cast<std::size_t>(x.cols())) {
      sim::violation("format", "row %ld has %zu cells for %ld columns", i, lines[i].size(),
                     (long)x.cols());
    }
    for (long j = 0; j < x.cols(); ++j) {
      if (!equal(number_cell(x(i, j), 1e-5 * std::fabs(x(i, j))), lines[i][j])) {
        sim::violation("cell", "entry (%ld,%ld) %.17g is written as %s", i, j, x(i, j),
                       lines[i][j].c_str());
      }
    }
  }
  if (d.full()) {
    sim::fault_fired("disk-full");
    if (os.good() || ideal.text().compare(0, d.text().size(), d.text()) != 0) {
      sim::violation("loss", "bytes were lost but the stream is good");
    }
  } else if (d.text() != ideal.text()) {
    sim::violation("repeat", "an export differs");
  }
  sim::evaluated(d.full(), sim::hash_bytes(ideal.text().data(), ideal.text().size()));
}
} // namespace p10

void sim_run() {
  switch (sim::w(7)) {
  case 0:
  case 1:
    return p10::exports<p10::Custom>();
  case 2:
  case 3:
  case 4:
    return p10::exports<p10::Station>();
  case 5:
    return p10::exports<double>();
  default:
    return p10::matrices();
  }
}
