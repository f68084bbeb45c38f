// SHARDS: 4
// P07: what is saved is what is loaded, and damage from short writes, short
// reads, full disks and failing allocations is never taken for data.
#include <albatross/SparseGP>
#include <albatross/LeastSquares>
#include <albatross/Ransac>
#include <albatross/serialize/GP>
#include <albatross/serialize/LeastSquares>
#include <albatross/serialize/Ransac>

#include "gpworld.h"
#include "num.h"
#include "sim.h"

#include <functional>
#include <memory>
#include <sstream>
#include <thread>

#if SHARD == 0
extern const char *const kProperty, *const kRule, *const kRealCode, *const kStubs;
extern const std::vector<std::string> kAssumptions;
const char *const kProperty = "P07";
const char *const kRule =
    "one evaluation = one sequence of objects saved to a simulated file and "
    "loaded from it (contents, behaviour and a second save compared bit for "
    "bit), or one attempt to load or save under a fault (file cut short, full "
    "disk, failing allocation) judged; non-trivial = a fault was injected or "
    "several clients were active; distinct by type, archive, contents and fault";
const char *const kRealCode =
    "all of albatross/serialize (Common, Core, GP, LeastSquares, Ransac), zstd and "
    "base64 payloads, cereal binary, portable binary and JSON archives, and the "
    "serialized classes themselves with Eigen and SuiteSparse";
const char *const kStubs =
    "gzip-hpp (same zlib calls), ThreadPool, the file system (in-memory stream "
    "buffers with short reads, short writes and a capacity)";
const std::vector<std::string> kAssumptions = {
    "the archive format has no checksum, so bytes that were altered in place are "
    "outside the property; missing bytes are inside",
    "assertions are enabled (a failed assertion counts as reporting the damage)",
    "allocations do not fail while an existing matrix is resized (Eigen frees the old "
    "storage first and keeps the pointer)",
    "allocations do not fail inside the JSON archives (rapidjson does not check them)",
    "XML archives are not used (cereal cannot read back non-finite values)"};
#endif

namespace p07 {
using namespace albatross;
using namespace gpw;

// --- the disk -----------------------------------------------------------------
class Reader : public std::streambuf {
public:
  Reader(std::string data, std::size_t chunk)
      : data_(std::move(data)), chunk_(chunk) {}
  bool exhausted() const { return pos_ == data_.size() && gptr() == egptr(); }

protected:
  int_type underflow() override {
    if (gptr() < egptr()) {
      return traits_type::to_int_type(*gptr());
    }
    if (pos_ == data_.size()) {
      return traits_type::eof();
    }
    const std::size_t n = std::min(chunk_, data_.size() - pos_);
    setg(&data_[pos_], &data_[pos_], &data_[pos_] + n);
    pos_ += n;
    return traits_type::to_int_type(*gptr());
  }

private:
  std::string data_;
  std::size_t chunk_, pos_ = 0;
};
class Writer : public std::streambuf {
public:
  explicit Writer(std::size_t capacity) : capacity_(capacity) {}
  const std::string &data() const { return data_; }

protected:
  int_type overflow(int_type c) override {
    if (data_.size() >= capacity_ || c == traits_type::eof()) {
      return traits_type::eof();
    }
    data_ += static_cast<char>(c);
    return c;
  }
  std::streamsize xsputn(const char *s, std::streamsize n) override {
    const std::size_t k =
        std::min(static_cast<std::size_t>(n), capacity_ - data_.size());
    data_.append(s, k);
    return static_cast<std::streamsize>(k);
  }

private:
  std::string data_;
  std::size_t capacity_;
};

// --- what an object contains ------------------------------------------------------
class Canon {
public:
  std::string str() const { return bytes_; }
  Canon &raw(const void *p, std::size_t n) {
    bytes_.append(static_cast<const char *>(p), n);
    return *this;
  }
  Canon &operator<<(double v) { return raw(&v, sizeof v); }
  Canon &operator<<(float v) { return raw(&v, sizeof v); }
  Canon &operator<<(int v) { return raw(&v, sizeof v); }
  Canon &operator<<(long v) { return raw(&v, sizeof v); }
  Canon &operator<<(std::size_t v) { return raw(&v, sizeof v); }
  Canon &operator<<(bool v) { return *this << static_cast<int>(v); }
  Canon &operator<<(const std::string &s) {
    *this << s.size();
    return raw(s.data(), s.size());
  }
  template <typename S, int R, int C, int O, int MR, int MC>
  Canon &operator<<(const Eigen::Matrix<S, R, C, O, MR, MC> &m) {
    *this << static_cast<long>(m.rows()) << static_cast<long>(m.cols());
    for (Eigen::Index j = 0; j < m.cols(); ++j) {
      for (Eigen::Index i = 0; i < m.rows(); ++i) {
        *this << m(i, j);
      }
    }
    return *this;
  }
  template <typename T> Canon &operator<<(const std::vector<T> &v) {
    *this << v.size();
    for (const auto &x : v) {
      *this << x;
    }
    return *this;
  }
  template <typename K, typename V> Canon &operator<<(const std::map<K, V> &v) {
    *this << v.size();
    for (const auto &x : v) {
      *this << x.first << x.second;
    }
    return *this;
  }
  Canon &operator<<(const Pair &p) { return *this << p.a << p.b; }
  Canon &operator<<(const Mixed &m) {
    *this << static_cast<int>(m.which());
    m.match([this](const auto &x) { *this << x; });
    return *this;
  }
  Canon &operator<<(const LinearCombination<double> &c) {
    return *this << c.values << c.coefficients;
  }
  Canon &operator<<(const MarginalDistribution &d) {
    *this << d.mean << Eigen::VectorXd(d.covariance.diagonal()) << d.metadata;
    return *this;
  }
  Canon &operator<<(const JointDistribution &d) {
    return *this << d.mean << d.covariance << d.metadata;
  }
  template <typename F> Canon &operator<<(const RegressionDataset<F> &d) {
    return *this << d.features << d.targets << d.metadata;
  }
  Canon &operator<<(const Parameter &p) {
    *this << p.value << p.prior.get_name() << p.prior.lower_bound()
          << p.prior.upper_bound() << p.prior.is_fixed()
          << p.prior.is_log_scale();
    for (const double x : {0.03, 0.7, 2.9}) {
      *this << p.prior.log_pdf(x);
    }
    return *this;
  }
  // The factorization and everything one can ask it.
  Canon &operator<<(const Eigen::SerializableLDLT &l) {
    *this << l.is_initialized();
    if (!l.is_initialized()) {
      return *this;
    }
    const Eigen::Index n = l.rows();
    *this << static_cast<long>(n)
          << Eigen::MatrixXd(l.matrixL().toDenseMatrix())
          << Eigen::VectorXd(l.vectorD())
          << Eigen::MatrixXd(l.transpositionsP() *
                             Eigen::MatrixXd::Identity(n, n))
          << l.l1_norm() << static_cast<int>(l.info()) << l.isPositive()
          << l.isNegative();
    if (n > 0) {
      const Eigen::MatrixXd rhs = Eigen::MatrixXd::Identity(n, n);
      *this << Eigen::MatrixXd(l.solve(rhs)) << l.sqrt_solve(rhs)
            << l.sqrt_product(rhs) << l.log_determinant() << l.rcond();
    }
    return *this;
  }
  Canon &operator<<(const Eigen::PermutationMatrixX &p) {
    return *this << Eigen::VectorXi(p.indices().cast<int>());
  }
  template <typename S, int O, typename I>
  Canon &operator<<(const Eigen::SparseMatrix<S, O, I> &m) {
    return *this << Eigen::Matrix<S, -1, -1>(m) << static_cast<long>(m.nonZeros());
  }

private:
  std::string bytes_;
};
template <typename T> std::string canon_of(const T &t) {
  return (Canon() << t).str();
}

// --- generators ---------------------------------------------------------------------
// Any double, including the ones arithmetic rarely meets.
inline double any_double(bool finite) {
  switch (sim::w(finite ? 8 : 11)) {
  case 0:
    return 0.;
  case 1:
    return -0.;
  case 2:
    return 1.7976931348623157e308;
  case 3:
    return 4.9406564584124654e-324;
  case 4:
    return -2.2250738585072014e-308;
  case 5:
    return 0.1 * static_cast<double>(sim::range(-1000, 1000));
  case 6:
  case 7:
    return sim::gauss();
  case 8:
    return NAN;
  case 9:
    return INFINITY;
  default:
    return -INFINITY;
  }
}
inline std::string any_string() {
  static const char *const some[] = {"", "a", "key with spaces", "quote\"d",
                                     "line\nbreak", "\xc3\xa9", "{\"x\": [1]}",
                                     "back\\slash"};
  return some[sim::w(8)];
}
template <typename M> M any_matrix(bool finite = false) {
  const Eigen::Index r =
      M::RowsAtCompileTime < 0 ? sim::range(0, 5) : M::RowsAtCompileTime;
  const Eigen::Index c =
      M::ColsAtCompileTime < 0 ? sim::range(0, 5) : M::ColsAtCompileTime;
  M m(r, c);
  for (Eigen::Index j = 0; j < c; ++j) {
    for (Eigen::Index i = 0; i < r; ++i) {
      if (std::is_integral<typename M::Scalar>::value) {
        m(i, j) = static_cast<typename M::Scalar>(sim::range(-70000, 70000));
      } else {
        m(i, j) = static_cast<typename M::Scalar>(any_double(finite));
      }
    }
  }
  return m;
}
inline Eigen::MatrixXd spd(Eigen::Index n, int missing_rank = 0) {
  Eigen::MatrixXd a(n, n + 2 - missing_rank);
  for (Eigen::Index i = 0; i < a.size(); ++i) {
    a.data()[i] = sim::gauss();
  }
  return a * a.transpose() +
         (missing_rank ? 0. : 0.3) * Eigen::MatrixXd::Identity(n, n);
}
inline std::map<std::string, std::string> any_metadata() {
  std::map<std::string, std::string> m;
  for (std::uint64_t i = sim::w(3); i > 0; --i) {
    m[any_string()] = any_string();
  }
  return m;
}
inline double below_one() { return sim::real(0., 1.); }
inline Parameter any_parameter() {
  const double v = 0.01 + 3. * below_one();
  const double a = 0.1 + below_one(), b = 2. + below_one();
  switch (sim::w(10)) {
  case 0:
    return Parameter(v);
  case 1:
    return Parameter(v, FixedPrior());
  case 2:
    return Parameter(v, NonNegativePrior());
  case 3:
    return Parameter(v, PositivePrior());
  case 4:
    return Parameter(v, UniformPrior(a, b));
  case 5:
    return Parameter(v, LogScaleUniformPrior(a, b));
  case 6:
    return Parameter(v, GaussianPrior(a, b));
  case 7:
    return Parameter(v, LogNormalPrior(a, b));
  case 8:
    return Parameter(v, PositiveGaussianPrior(a, b));
  default:
    return Parameter(any_double(true), UninformativePrior());
  }
}

// --- one kind of object ----------------------------------------------------------------
template <typename T> struct Kind {
  std::string name;
  std::function<T()> make;
  std::function<std::string(const T &)> canon;
  std::function<T()> fresh = [] { return T(); };
  bool alloc_faults = true;
  bool clients = true;
};

enum Format { kBinary, kPortable, kJson };
const char *const kFormat[] = {"binary", "portable binary", "JSON"};

template <typename T>
void save_all(std::ostream &os, int format, const std::vector<T> &objects) {
  if (format == kBinary) {
    cereal::BinaryOutputArchive ar(os);
    for (const T &o : objects) {
      ar(o);
    }
  } else if (format == kPortable) {
    cereal::PortableBinaryOutputArchive ar(os);
    for (const T &o : objects) {
      ar(o);
    }
  } else {
    cereal::JSONOutputArchive ar(os);
    for (const T &o : objects) {
      ar(o);
    }
  }
}
template <typename T>
void load_all(std::istream &is, int format, std::vector<T> &objects) {
  if (format == kBinary) {
    cereal::BinaryInputArchive ar(is);
    for (T &o : objects) {
      ar(o);
    }
  } else if (format == kPortable) {
    cereal::PortableBinaryInputArchive ar(is);
    for (T &o : objects) {
      ar(o);
    }
  } else {
    cereal::JSONInputArchive ar(is);
    for (T &o : objects) {
      ar(o);
    }
  }
}

struct Attempt {
  bool ok = false;
  std::string why;
};
template <typename F> Attempt attempt(F &&f) {
  Attempt a;
  sim::AssertThrows scope;
  try {
    f();
    a.ok = true;
  } catch (const std::exception &e) {
    a.why = "exception";
  } catch (const sim::AssertionFailed &) {
    a.why = "assertion";
  }
  return a;
}

template <typename T> void exercise(const Kind<T> &kind, bool alone) {
  const int format = static_cast<int>(sim::w(3));
  const std::size_t n = 1 + sim::w(3);
  std::vector<T> objects;
  std::vector<std::string> want;
  for (std::size_t i = 0; i < n; ++i) {
    objects.push_back(kind.make());
    want.push_back(kind.canon(objects.back()));
  }
  const char *what = kind.name.c_str();
  const auto unchanged = [&](const char *when) {
    for (std::size_t i = 0; i < n; ++i) {
      if (kind.canon(objects[i]) != want[i]) {
        sim::violation("changed", "%s (%s): object %zu was changed by %s", what,
                       kFormat[format], i, when);
      }
    }
  };
  const auto check_loaded = [&](const std::vector<T> &got, const char *when) {
    for (std::size_t i = 0; i < n; ++i) {
      if (kind.canon(got[i]) != want[i]) {
        sim::violation("differs", "%s (%s): object %zu of %zu differs after %s", what,
                       kFormat[format], i, n, when);
      }
    }
  };
  const std::uint64_t sig = sim::hash_bytes(
      want[0].data(), want[0].size(),
      sim::hash_bytes(what, kind.name.size(), static_cast<std::uint64_t>(format)));

  // A healthy disk.
  Writer file(static_cast<std::size_t>(-1));
  {
    std::ostream os(&file);
    save_all(os, format, objects);
    if (!os.good()) {
      sim::violation("save", "%s (%s): saving failed", what, kFormat[format]);
    }
  }
  const std::string bytes = file.data();
  unchanged("saving it");
  const auto fresh = [&] {
    std::vector<T> v;
    const bool used = sim::w(2);
    for (std::size_t i = 0; i < n; ++i) {
      v.push_back(used ? kind.make() : kind.fresh());
    }
    return v;
  };
  const std::size_t chunk = sim::f(2) ? 1 + sim::f(64) : bytes.size() + 1;
  if (chunk <= bytes.size()) {
    sim::fault_fired("short_reads");
  }
  {
    std::vector<T> got = fresh();
    Reader disk(bytes, chunk);
    std::istream is(&disk);
    load_all(is, format, got);
    check_loaded(got, "a round trip");
    if (format != kJson && !disk.exhausted()) {
      sim::violation("framing", "%s (%s): loading left bytes behind", what,
                     kFormat[format]);
    }
    Writer again(static_cast<std::size_t>(-1));
    std::ostream os(&again);
    save_all(os, format, got);
    if (again.data() != bytes) {
      sim::violation("differs", "%s (%s): saving the loaded object gives other bytes",
                     what, kFormat[format]);
    }
    // A copy and a moved object are the same object.
    std::vector<T> copy(got);
    check_loaded(copy, "a round trip and a copy");
    std::vector<T> moved;
    for (auto &o : got) {
      moved.push_back(std::move(o));
    }
    check_loaded(moved, "a round trip and a move");
  }
  sim::evaluated(!alone, sig);

  const std::uint64_t rounds = sim::f(5);
  for (std::uint64_t r = 0; r < rounds; ++r) {
    const std::uint64_t fault = sim::f(kind.alloc_faults && alone && format != kJson ? 4 : 2);
    std::uint64_t where = 0;
    if (fault == 0) {
      // The write was cut short (or the file is still growing).
      where = sim::f(2) ? bytes.size() - 1 - sim::f(std::min<std::size_t>(bytes.size(), 64))
                        : sim::f(bytes.size());
      where = std::min<std::uint64_t>(where, bytes.size() - 1);
      std::vector<T> got = fresh();
      Reader disk(bytes.substr(0, where), chunk);
      std::istream is(&disk);
      const Attempt a = attempt([&] { load_all(is, format, got); });
      sim::fault_fired("short_file");
      if (a.ok) {
        // JSON may end in white space.
        const bool same = format == kJson &&
                          bytes.find_first_not_of(" \n", where) == std::string::npos;
        if (!same) {
          sim::violation("undetected",
                         "%s (%s): a file of %zu bytes cut to %zu was loaded without "
                         "complaint",
                         what, kFormat[format], bytes.size(),
                         static_cast<std::size_t>(where));
        }
        check_loaded(got, "a load without the final white space");
      }
      // The reader tries again when the file is complete.
      Reader whole(bytes, chunk);
      std::istream is2(&whole);
      load_all(is2, format, got);
      check_loaded(got, "a failed load followed by a good one");
    } else if (fault == 1) {
      where = sim::f(bytes.size());
      Writer full(static_cast<std::size_t>(where));
      std::ostream os(&full);
      const Attempt a = attempt([&] { save_all(os, format, objects); });
      sim::fault_fired("disk_full");
      if (a.ok && os.good()) {
        sim::violation("undetected",
                       "%s (%s): writing %zu bytes to a disk with room for %zu was "
                       "not reported",
                       what, kFormat[format], bytes.size(),
                       static_cast<std::size_t>(where));
      }
      if (full.data() != bytes.substr(0, where)) {
        sim::violation("differs", "%s (%s): a partial file is not a prefix", what,
                       kFormat[format]);
      }
      unchanged("saving it to a full disk");
    } else if (fault == 2) {
      Writer out(static_cast<std::size_t>(-1));
      std::ostream os(&out);
      sim::count_allocs_begin();
      {
        Writer probe(static_cast<std::size_t>(-1));
        std::ostream ps(&probe);
        save_all(ps, format, objects);
      }
      const std::uint64_t total = sim::count_allocs_end();
      where = sim::f(total + 1);
      const Attempt a = attempt([&] {
        sim::arm_alloc_fault(where);
        save_all(os, format, objects);
      });
      sim::disarm_alloc_fault();
      if (a.ok && os.good() && out.data() != bytes) {
        sim::violation("undetected",
                       "%s (%s): saving with a failing allocation wrote other bytes",
                       what, kFormat[format]);
      }
      unchanged("saving it with a failing allocation");
    } else {
      const auto load = [&](std::vector<T> &got) {
        Reader disk(bytes, chunk);
        std::istream is(&disk);
        load_all(is, format, got);
      };
      std::vector<T> got = fresh();
      sim::count_allocs_begin();
      load(got);
      where = sim::f(sim::count_allocs_end() + 1);
      // Eigen frees before it allocates, so a matrix that could not be resized
      // refers to freed memory. Use empty objects.
      got.clear();
      for (std::size_t i = 0; i < n; ++i) {
        got.push_back(kind.fresh());
      }
      const Attempt a = attempt([&] {
        sim::arm_alloc_fault(where);
        load(got);
      });
      sim::disarm_alloc_fault();
      if (a.ok) {
        check_loaded(got, "a load with a failing allocation");
      }
      got.clear();
      for (std::size_t i = 0; i < n; ++i) {
        got.push_back(kind.fresh());
      }
      load(got);
      check_loaded(got, "a retried load");
    }
    sim::evaluated(true, sim::mix(sig, sim::mix(fault, where)));
  }
}

template <typename T> void run(const Kind<T> &kind);
template <typename T> void run_plain(Kind<T> kind) {
  kind.canon = canon_of<T>;
  run(kind);
}
template <typename T> void run(const Kind<T> &kind) {
  const int clients = kind.clients && sim::w(4) == 0 ? static_cast<int>(sim::range(2, 3)) : 1;
  sim::begin(sim::random_sched());
  if (clients == 1) {
    const auto inner = [&] {
      const std::int64_t before = sim::live_blocks();
      exercise(kind, true);
      return sim::live_blocks() - before;
    };
    inner();
  } else {
    std::vector<std::thread> threads;
    for (int i = 1; i < clients; ++i) {
      threads.emplace_back([&] { exercise(kind, false); });
    }
    exercise(kind, false);
    for (auto &t : threads) {
      t.join();
    }
  }
  sim::end();
}

void shard0();
void shard1();
void shard2();
void shard3();

#if SHARD == 0
template <typename M> void matrix(const char *name) {
  Kind<M> k;
  k.name = name;
  k.make = [] { return any_matrix<M>(); };
  run_plain(k);
}
template <typename S> S any_sparse() {
  const Eigen::Index r = sim::range(0, 5), c = sim::range(0, 5);
  std::vector<Eigen::Triplet<double, typename S::StorageIndex>> t;
  for (Eigen::Index i = 0; i < r; ++i) {
    for (Eigen::Index j = 0; j < c; ++j) {
      if (sim::w(2)) {
        t.emplace_back(i, j, any_double(false));
      }
    }
  }
  S s(r, c);
  s.setFromTriplets(t.begin(), t.end());
  return s;
}
template <typename S> void sparse(const char *name) {
  Kind<S> k;
  k.name = name;
  k.make = any_sparse<S>;
  run_plain(k);
}
inline Eigen::SerializableLDLT any_ldlt() {
  if (sim::w(8) == 7) {
    return Eigen::SerializableLDLT();
  }
  const Eigen::Index n = sim::range(1, 5);
  switch (sim::w(4)) {
  case 3:
    return Eigen::SerializableLDLT(Eigen::MatrixXd(-spd(n)));
  case 2:
    return Eigen::SerializableLDLT(spd(n, static_cast<int>(std::min<Eigen::Index>(n, 3))));
  default:
    return Eigen::SerializableLDLT(spd(n));
  }
}
void shard0() {
  switch (sim::w(12)) {
  case 0:
    return matrix<Eigen::VectorXd>("VectorXd");
  case 1:
    return matrix<Eigen::MatrixXd>("MatrixXd");
  case 2:
    return matrix<Eigen::Matrix3d>("Matrix3d");
  case 3:
    return matrix<Eigen::Matrix2i>("Matrix2i");
  case 4:
    return matrix<Eigen::VectorXi>("VectorXi");
  case 5:
    return matrix<Eigen::MatrixXf>("MatrixXf");
  case 6:
    return sparse<Eigen::SparseMatrix<double>>("SparseMatrix");
  case 7:
    return sparse<Eigen::SparseMatrix<double, Eigen::RowMajor>>(
        "row major SparseMatrix");
  case 8:
    return sparse<Eigen::SparseMatrix<double, Eigen::ColMajor, SuiteSparse_long>>(
        "SparseMatrix with long indices");
  case 9: {
    Kind<Eigen::PermutationMatrixX> k;
    k.name = "permutation";
    k.make = [] {
      const Eigen::Index n = sim::range(0, 6);
      std::vector<int> order;
      for (int i = 0; i < n; ++i) {
        order.push_back(i);
      }
      num::shuffle(order);
      Eigen::PermutationMatrixX p(n);
      for (int i = 0; i < n; ++i) {
        p.indices()[i] = order[static_cast<std::size_t>(i)];
      }
      return p;
    };
    return run_plain(k);
  }
  case 10: {
    Kind<BlockSymmetric<Eigen::SerializableLDLT>> k;
    k.name = "BlockSymmetric";
    k.make = [] {
      const Eigen::Index n = sim::range(2, 6), a = sim::range(1, n - 1);
      const Eigen::MatrixXd x = spd(n);
      return BlockSymmetric<Eigen::SerializableLDLT>(
          Eigen::SerializableLDLT(Eigen::MatrixXd(x.topLeftCorner(a, a))),
          x.topRightCorner(a, n - a),
          Eigen::MatrixXd(x.bottomRightCorner(n - a, n - a)));
    };
    k.canon = [](const BlockSymmetric<Eigen::SerializableLDLT> &b) {
      Canon c;
      c << b.A << b.Ai_B << b.S;
      if (b.A.is_initialized()) {
        const Eigen::MatrixXd eye = Eigen::MatrixXd::Identity(b.rows(), b.rows());
        c << b.solve(eye);
      }
      return c.str();
    };
    return run(k);
  }
  default: {
    Kind<Eigen::SerializableLDLT> k;
    k.name = "SerializableLDLT";
    k.make = any_ldlt;
    return run_plain(k);
  }
  }
}
#elif SHARD == 1
template <typename F> std::vector<F> any_features(std::size_t n);
template <> inline std::vector<double> any_features(std::size_t n) {
  std::vector<double> v;
  for (std::size_t i = 0; i < n; ++i) {
    v.push_back(any_double(true));
  }
  return v;
}
template <> inline std::vector<Pair> any_features(std::size_t n) {
  std::vector<Pair> v;
  for (std::size_t i = 0; i < n; ++i) {
    v.push_back({any_double(true), sim::gauss()});
  }
  return v;
}
template <> inline std::vector<Mixed> any_features(std::size_t n) {
  std::vector<Mixed> v;
  for (std::size_t i = 0; i < n; ++i) {
    v.push_back(sim::w(2) ? Mixed(Pair{sim::gauss(), 1.}) : Mixed(sim::gauss()));
  }
  return v;
}
inline LinearCombination<double> any_combination() {
  const std::size_t n = 1 + sim::w(3);
  Eigen::VectorXd c(n);
  for (std::size_t i = 0; i < n; ++i) {
    c[static_cast<Eigen::Index>(i)] = sim::gauss();
  }
  return LinearCombination<double>(any_features<double>(n), c);
}
template <> inline std::vector<LinearCombination<double>> any_features(std::size_t n) {
  std::vector<LinearCombination<double>> v;
  for (std::size_t i = 0; i < n; ++i) {
    v.push_back(any_combination());
  }
  return v;
}
inline MarginalDistribution any_marginal(std::size_t n) {
  Eigen::VectorXd m(n), v(n);
  for (std::size_t i = 0; i < n; ++i) {
    m[i] = any_double(false);
    v[i] = any_double(false);
  }
  MarginalDistribution d(m, v);
  d.metadata = any_metadata();
  return d;
}
template <typename F> void dataset(const char *name) {
  Kind<RegressionDataset<F>> k;
  k.name = name;
  k.make = [] {
    const std::size_t n = sim::w(5);
    RegressionDataset<F> d(any_features<F>(n), any_marginal(n));
    d.metadata = any_metadata();
    return d;
  };
  run_plain(k);
}
void shard1() {
  switch (sim::w(11)) {
  case 0: {
    Kind<MarginalDistribution> k;
    k.name = "MarginalDistribution";
    k.make = [] { return any_marginal(sim::w(6)); };
    return run_plain(k);
  }
  case 1: {
    Kind<JointDistribution> k;
    k.name = "JointDistribution";
    k.make = [] {
      const Eigen::Index n = sim::range(0, 4);
      JointDistribution d(Eigen::VectorXd::Zero(n), Eigen::MatrixXd::Zero(n, n));
      for (Eigen::Index i = 0; i < n; ++i) {
        d.mean[i] = any_double(false);
        for (Eigen::Index j = 0; j < n; ++j) {
          d.covariance(i, j) = any_double(false);
        }
      }
      d.metadata = any_metadata();
      return d;
    };
    return run_plain(k);
  }
  case 2:
    return dataset<Pair>("RegressionDataset<Pair>");
  case 3:
    return dataset<Pair>("RegressionDataset<Pair>");
  case 4:
    return dataset<Mixed>("RegressionDataset<variant>");
  case 5:
    return dataset<LinearCombination<double>>("RegressionDataset<LinearCombination>");
  case 6: {
    Kind<ParameterStore> k;
    k.name = "ParameterStore";
    k.make = [] {
      ParameterStore s;
      for (std::uint64_t i = sim::w(6); i > 0; --i) {
        s[any_string() + std::to_string(i)] = any_parameter();
      }
      return s;
    };
    return run_plain(k);
  }
  case 7: {
    using V = variant<int, double, std::string, Eigen::VectorXd>;
    Kind<V> k;
    k.name = "variant";
    k.make = []() -> V {
      switch (sim::w(4)) {
      case 0:
        return V(static_cast<int>(sim::range(-5, 5)));
      case 1:
        return V(any_double(true));
      case 2:
        return V(any_string());
      default:
        return V(any_matrix<Eigen::VectorXd>());
      }
    };
    k.canon = [](const V &v) {
      Canon c;
      c << static_cast<int>(v.which());
      v.match([&](const auto &x) { c << x; });
      return c.str();
    };
    return run(k);
  }
  case 8: {
    using Out = RansacOutput<std::string>;
    Kind<Out> k;
    k.name = "RansacOutput";
    k.make = [] {
      const auto iteration = [] {
        RansacIteration<std::string> it;
        for (int i = 0; i < 3; ++i) {
          it.candidates.push_back(any_string());
          (sim::w(2) ? it.inliers : it.outliers)[any_string()] = any_double(true);
        }
        it.consensus_metric_value = any_double(true);
        return it;
      };
      Out o;
      o.return_code = static_cast<ransac_return_code_t>(
          sim::w(static_cast<std::uint64_t>(RANSAC_RETURN_CODE_FAILURE) + 1));
      o.best = iteration();
      for (std::uint64_t i = sim::w(3); i > 0; --i) {
        o.iterations.push_back(iteration());
      }
      return o;
    };
    k.canon = [](const Out &o) {
      Canon c;
      const auto one = [&](const RansacIteration<std::string> &it) {
        c << it.candidates << it.inliers << it.outliers << it.consensus_metric_value;
      };
      c << static_cast<int>(o.return_code);
      one(o.best);
      for (const auto &it : o.iterations) {
        one(it);
      }
      return c.str();
    };
    return run(k);
  }
  case 9: {
    Kind<ExplainedCovariance> k;
    k.name = "ExplainedCovariance";
    k.make = [] {
      const Eigen::Index n = sim::range(1, 4);
      return ExplainedCovariance(spd(n), spd(n));
    };
    k.canon = [](const ExplainedCovariance &e) {
      Canon c;
      c << e.outer_ldlt << e.inner;
      if (e.outer_ldlt.is_initialized()) {
        const Eigen::MatrixXd eye =
            Eigen::MatrixXd::Identity(e.inner.rows(), e.inner.rows());
        c << e.solve(eye);
      }
      return c.str();
    };
    return run(k);
  }
  default: {
    Kind<DirectInverse> k;
    k.name = "DirectInverse";
    k.make = [] {
      const Eigen::Index n = sim::range(1, 4);
      return DirectInverse(spd(n));
    };
    k.canon = [](const DirectInverse &d) {
      Canon c;
      c << Eigen::MatrixXd(d.inverse_);
      return c.str();
    };
    return run(k);
  }
  }
}
#elif SHARD == 2
const std::vector<double> kQuery = {-1.3, 0.2, 0.9, 3.1};

inline RegressionDataset<double> some_data(int lo) {
  const int n = static_cast<int>(sim::range(lo, 7));
  std::vector<double> x;
  Eigen::VectorXd y(n), v(n);
  for (int i = 0; i < n; ++i) {
    x.push_back(-3. + i + 0.4 * below_one());
    y[i] = sim::gauss();
    v[i] = 0.1 * below_one() + 0.05;
  }
  num::shuffle(x);
  return RegressionDataset<double>(x, MarginalDistribution(y, v));
}
template <typename M> M personalised(M m) {
  for (const auto &p : m.get_params()) {
    m.set_param(p.first, Parameter(p.second.value * (0.5 + below_one()), p.second.prior));
  }
  if (sim::w(2)) {
    m.insights[any_string()] = any_string();
  }
  return m;
}
template <typename M> void canon_model(Canon &c, const M &m) {
  c << m.get_params() << m.insights << m.get_name();
}
inline auto the_gp() {
  return gp_from_covariance_and_mean(
      Field() + measurement_only(IndependentNoise<double>()), Trend(), "gp");
}
template <typename M> Kind<M> model_kind(const char *name, M blank) {
  Kind<M> k;
  k.name = name;
  k.make = [blank] { return personalised(blank); };
  k.fresh = [blank] { return blank; };
  k.canon = [](const M &m) {
    Canon c;
    canon_model(c, m);
    return c.str();
  };
  return k;
}
// What a fit model predicts, now and after more data.
template <typename FM> std::string canon_gp_fit(const FM &f) {
  Canon c;
  canon_model(c, f.get_model());
  if (f.get_fit().train_features.empty()) {
    return c.str();
  }
  c << f.get_fit().train_features << f.get_fit().information
    << f.predict(kQuery).joint() << f.predict(kQuery).marginal()
    << Eigen::VectorXd(f.predict(kQuery).mean());
  const RegressionDataset<double> more(
      std::vector<double>{0.33, 2.7},
      MarginalDistribution(Eigen::Vector2d(0.4, -0.2), Eigen::Vector2d(0.1, 0.2)));
  c << f.update(more).predict(kQuery).joint();
  return c.str();
}
void shard2() {
  switch (sim::w(9)) {
  case 0:
    return run(model_kind("GaussianProcessRegression", the_gp()));
  case 1:
    return run(model_kind("LinearRegression", LinearRegression()));
  case 2: {
    using FM = fit_model_type<decltype(the_gp()), double>::type;
    Kind<FM> k;
    k.name = "fit GaussianProcessRegression";
    k.make = [] { return personalised(the_gp()).fit(some_data(1)); };
    k.fresh = [] { return FM(); };
    k.canon = canon_gp_fit<FM>;
    return run(k);
  }
  case 3: {
    // An updated fit has the same type as a fresh one.
    using FM = decltype(the_gp().fit(some_data(1)).update(some_data(1)));
    Kind<FM> k;
    k.name = "updated GaussianProcessRegression";
    k.make = [] { return personalised(the_gp()).fit(some_data(1)).update(some_data(2)); };
    k.fresh = [] { return FM(); };
    k.canon = canon_gp_fit<FM>;
    return run(k);
  }
  case 4: {
    const auto blank = [] {
      return sparse_gp_from_covariance(Field(), LeaveOneOutGrouper(),
                                       UniformlySpacedInducingPoints(4), "sparse");
    };
    using M = decltype(blank());
    using FM = typename fit_model_type<M, double>::type;
    Kind<FM> k;
    k.name = "fit SparseGaussianProcessRegression";
    k.make = [blank] {
      auto fit = personalised(blank()).fit(some_data(4));
      if (sim::w(2)) {
        fit.update_in_place(some_data(2));
      }
      return fit;
    };
    k.fresh = [blank] { return FM(blank(), Fit<SparseGPFit<double>>()); };
    k.canon = [](const FM &f) {
      Canon c;
      const auto &fit = f.get_fit();
      canon_model(c, f.get_model());
      c << fit.train_features << fit.train_covariance << fit.information << fit.R
        << fit.P;
      if (fit.train_features.empty()) {
        return c.str();
      }
      c << static_cast<long>(fit.numerical_rank) << f.predict(kQuery).joint()
        << f.predict(kQuery).marginal();
      const RegressionDataset<double> more(
          std::vector<double>{0.33, 2.7},
          MarginalDistribution(Eigen::Vector2d(0.4, -0.2), Eigen::Vector2d(0.1, 0.2)));
      c << f.update(more).predict(kQuery).joint();
      return c.str();
    };
    return run(k);
  }
  case 5: {
    using FM = fit_model_type<LinearRegression, double>::type;
    Kind<FM> k;
    k.name = "fit LinearRegression";
    k.make = [] {
      auto data = some_data(3);
      data.targets.covariance.diagonal().setConstant(0.3);
      return LinearRegression().fit(data);
    };
    k.fresh = [] { return FM(); };
    k.canon = [](const FM &f) {
      Canon c;
      canon_model(c, f.get_model());
      c << f.get_fit().coefs;
      if (f.get_fit().coefs.size()) {
        c << Eigen::VectorXd(f.predict(kQuery).mean());
      }
      return c.str();
    };
    return run(k);
  }
  case 6: {
    const auto blank = [] {
      return the_gp().ransac(DefaultGPRansacStrategy(), RansacConfig(3., 2, 3, 3, 3));
    };
    using M = decltype(blank());
    using FM = typename fit_model_type<M, double>::type;
    Kind<FM> k;
    k.name = "fit Ransac";
    k.make = [] {
      const bool hard = sim::w(3) == 2; // no consensus to be found
      const auto model = personalised(the_gp());
      return model
          .ransac(DefaultGPRansacStrategy(),
                  RansacConfig(hard ? 1e-9 : 3., 2, hard ? 7 : 3, 3, 3))
          .fit(some_data(7));
    };
    k.fresh = [blank] {
      return FM(blank(), typename std::decay<decltype(std::declval<FM>().get_fit())>::type());
    };
    k.canon = [](const FM &f) {
      Canon c;
      const auto &out = f.get_fit().ransac_output;
      c << static_cast<int>(out.return_code) << out.best.candidates
        << out.best.inliers << out.best.outliers << out.best.consensus_metric_value
        << out.iterations.size() << f.get_fit().has_fit_model();
      for (const auto &it : out.iterations) {
        c << it.candidates << it.inliers << it.outliers << it.consensus_metric_value;
      }
      if (f.get_fit().has_fit_model()) {
        c << f.predict(kQuery).joint();
      }
      return c.str();
    };
    return run(k);
  }
  case 7: {
    // Fits built from a prediction.
    using FM = decltype(the_gp().fit_from_prediction(
        std::vector<double>(), std::declval<JointDistribution>()));
    Kind<FM> k;
    k.name = "fit from a prediction";
    k.make = [] {
      const auto m = personalised(the_gp());
      const std::vector<double> at = {-2., -0.4, 1.1};
      return m.fit_from_prediction(at, m.fit(some_data(3)).predict(at).joint());
    };
    k.fresh = [] { return FM(); };
    k.canon = [](const FM &f) {
      Canon c;
      canon_model(c, f.get_model());
      c << f.get_fit().train_features << f.get_fit().information;
      if (!f.get_fit().train_features.empty()) {
        c << f.predict(kQuery).joint();
      }
      return c.str();
    };
    return run(k);
  }
  default: {
    Kind<std::shared_ptr<ThreadPool>> k;
    k.name = "ThreadPool";
    k.clients = false;
    k.alloc_faults = false;
    k.make = [] {
      // At most 64 threads can be started in one run.
      return sim::w(4) || sim::live_threads() > 2 ? std::shared_ptr<ThreadPool>()
                                                  : std::make_shared<ThreadPool>(2);
    };
    k.canon = [](const std::shared_ptr<ThreadPool> &p) {
      Canon c;
      c << static_cast<long>(p ? p->thread_count() : 0);
      return c.str();
    };
    return run(k);
  }
  }
}
#else
void shard3() {
  using Sparse = Eigen::SparseMatrix<double, Eigen::ColMajor, SuiteSparse_long>;
  using SPQR = Eigen::SerializableSPQR<Sparse>;
  // SPQR objects can be neither copied nor moved.
  using T = std::shared_ptr<SPQR>;
  const auto make = [] {
    const Eigen::Index c = sim::range(1, 4), r = c + sim::range(0, 4);
    std::vector<Eigen::Triplet<double, SuiteSparse_long>> t;
    for (Eigen::Index i = 0; i < r; ++i) {
      for (Eigen::Index j = 0; j < c; ++j) {
        if (i == j || sim::w(2)) {
          t.emplace_back(i, j, sim::gauss() + (i == j ? 3. : 0.));
        }
      }
    }
    Sparse a(r, c);
    a.setFromTriplets(t.begin(), t.end());
    a.makeCompressed();
    auto qr = std::make_shared<SPQR>();
    qr->compute(a);
    return qr;
  };
  const auto canon = [](SPQR &qr) {
    Canon c;
    c << static_cast<long>(qr.rows()) << static_cast<long>(qr.cols())
      << static_cast<int>(qr.info()) << static_cast<long>(qr.rank());
    if (qr.info() != Eigen::Success) {
      return c.str();
    }
    Eigen::VectorXd b(qr.rows());
    for (Eigen::Index i = 0; i < b.size(); ++i) {
      b[i] = 0.1 * static_cast<double>(i * i) - 1.;
    }
    Eigen::VectorXd x = qr.solve(b);
    Eigen::VectorXd qtb = qr.matrixQ().transpose() * b;
    c << x << qtb << Eigen::MatrixXd(Sparse(qr.matrixR()))
      << Eigen::MatrixXd(qr.colsPermutation() *
                         Eigen::MatrixXd::Identity(qr.cols(), qr.cols()));
    return c.str();
  };
  sim::begin(sim::random_sched());
  const int format = static_cast<int>(sim::w(3));
  const bool ask_first = sim::w(2); // matrixR() is cached on demand
  auto qr = make();
  std::string want;
  if (ask_first) {
    want = canon(*qr);
  }
  const auto save = [&](std::ostream &os, const SPQR &q) {
    if (format == kBinary) {
      cereal::BinaryOutputArchive ar(os);
      ar(q);
    } else if (format == kPortable) {
      cereal::PortableBinaryOutputArchive ar(os);
      ar(q);
    } else {
      cereal::JSONOutputArchive ar(os);
      ar(q);
    }
  };
  const auto load = [&](std::istream &is, SPQR &q) {
    if (format == kBinary) {
      cereal::BinaryInputArchive ar(is);
      ar(q);
    } else if (format == kPortable) {
      cereal::PortableBinaryInputArchive ar(is);
      ar(q);
    } else {
      cereal::JSONInputArchive ar(is);
      ar(q);
    }
  };
  Writer file(static_cast<std::size_t>(-1));
  {
    std::ostream os(&file);
    save(os, *qr);
  }
  const std::string bytes = file.data();
  if (!ask_first) {
    want = canon(*qr);
  }
  if (canon(*qr) != want) {
    sim::violation("changed", "SPQR was changed by saving it");
  }
  const std::size_t chunk = sim::f(2) ? 1 + sim::f(64) : bytes.size() + 1;
  if (chunk <= bytes.size()) {
    sim::fault_fired("short_reads");
  }
  const auto round_trip = [&](SPQR &q, const char *when) {
    Reader disk(bytes, chunk);
    std::istream is(&disk);
    load(is, q);
    if (canon(q) != want) {
      sim::violation("differs", "SPQR (%s) differs after %s", kFormat[format], when);
    }
  };
  {
    auto fresh = std::make_shared<SPQR>();
    round_trip(*fresh, "a round trip");
    auto used = make();
    round_trip(*used, "a round trip into a used object");
    // It goes on working: another factorization in the same object.
    Sparse a(2, 2);
    a.insert(0, 0) = 2.;
    a.insert(1, 1) = 4.;
    a.makeCompressed();
    fresh->compute(a);
    const Eigen::VectorXd b = Eigen::VectorXd::Ones(2);
    const Eigen::VectorXd x = fresh->solve(b);
    if (!(std::fabs(x[0] - 0.5) < 1e-12 && std::fabs(x[1] - 0.25) < 1e-12)) {
      sim::violation("differs", "SPQR cannot be reused after loading");
    }
  }
  sim::evaluated(chunk <= bytes.size(),
                 sim::hash_bytes(want.data(), want.size(),
                                 static_cast<std::uint64_t>(format)));
  for (std::uint64_t r = sim::f(3); r > 0; --r) {
    const std::uint64_t where =
        sim::f(2) ? bytes.size() - 1 - sim::f(64) : sim::f(bytes.size());
    const bool reading = sim::f(2) == 0;
    if (reading) {
      auto q = std::make_shared<SPQR>();
      Reader disk(bytes.substr(0, where), chunk);
      std::istream is(&disk);
      const Attempt a = attempt([&] { load(is, *q); });
      sim::fault_fired("short_file");
      if (a.ok && !(format == kJson && bytes.find_first_not_of(" \n", where) ==
                                           std::string::npos)) {
        sim::violation("undetected", "SPQR (%s): a file of %zu bytes cut to %zu was "
                                     "loaded without complaint",
                       kFormat[format], bytes.size(), static_cast<std::size_t>(where));
      }
      round_trip(*q, "a failed load followed by a good one");
    } else {
      Writer full(static_cast<std::size_t>(where));
      std::ostream os(&full);
      const Attempt a = attempt([&] { save(os, *qr); });
      sim::fault_fired("disk_full");
      if (a.ok && os.good()) {
        sim::violation("undetected", "SPQR (%s): a full disk was not reported",
                       kFormat[format]);
      }
    }
    sim::evaluated(true, sim::hash_bytes(want.data(), want.size(),
                                         sim::mix(where, reading)));
  }
  qr.reset();
  sim::end();
}
#endif
} // namespace p07

#if SHARD == 0
void sim_run() {
  switch (sim::w(8)) {
  case 0:
  case 1:
    return p07::shard0();
  case 2:
  case 3:
  case 4:
    return p07::shard1();
  case 5:
  case 6:
    return p07::shard2();
  default:
    return p07::shard3();
  }
}
#endif
