// P18: structured matrices answer as the matrices they stand for.
// SHARDS: 2
#include <albatross/GP>
#include <albatross/SparseGP>
#include <albatross/CovarianceFunctions>
#include <albatross/linalg/Block>

#include "num.h"
#include "sim.h"

#include <algorithm>
#include <memory>
#include <sstream>
#include <thread>

namespace p18 {
using namespace albatross;
using Eigen::Index;
using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;
constexpr double kTol = 1e-8;

// Contents drawn before the run: everything is judged against these.
struct World {
  std::vector<Mat> blocks, blocks2, rects; // block diagonal
  Mat spd;                                 // pivoting, any scale
  Mat psd;                                 // rank deficient
  std::vector<Mat> chain;                  // growing symmetric matrix, leading parts
  Mat outer, inner;                        // explained covariance
  std::map<int, Mat> left, right;          // grouped, same shapes per key
  std::map<int, Mat> spds;                 // grouped, square
  Mat tall;                                // for QR
  Mat vectors;                             // orthonormal
  Vec values;                              // some of them (nearly) zero
  std::vector<Mat> stack, pile;
  std::uint64_t id = 0;
};

// The structures under test, shared by the clients.
struct Shared {
  BlockDiagonal bd, bd2, bdr;
  BlockDiagonalLDLT bd_ldlt;
  Eigen::SerializableLDLT ldlt, psd_ldlt;
  std::shared_ptr<ThreadPool> pool;
  ExplainedCovariance explained;
  DirectInverse direct;
  Grouped<int, Mat> left, right;
  Grouped<int, Eigen::SerializableLDLT> solvers;
  BlockSymmetric<Eigen::SerializableLDLT> grown;
  BlockSymmetric<BlockSymmetric<Eigen::SerializableLDLT>> grown2;
  BlockSymmetric<BlockDiagonalLDLT> mixed;
};

struct Op {
  int kind = 0;
  int form = 0;
  Mat rhs;      // as wide as needed, cut to the rows needed
  Index cols = 1;
  std::uint64_t a = 0, b = 0;
  bool pooled = false;
  std::vector<std::vector<std::size_t>> subsets;
};

Mat dense(const std::vector<Mat> &blocks);
Mat rect(Index n, Index m);
Mat spd(Index n, double scale);
void judge_close(const char *what, const Mat &got, const Mat &want, double tol = kTol);
void run_a(const World &w, const Shared &s, const Op &op);
void run_b(const World &w, const Shared &s, const Op &op);
constexpr int kKindsA = 10, kKindsB = 14;
extern const char *const kNamesA[kKindsA];
extern const char *const kNamesB[kKindsB];
inline Mat head(const Op &op, Index rows) { return op.rhs.topLeftCorner(rows, op.cols); }
} // namespace p18

#if SHARD == 0
extern const char *const kProperty, *const kRule, *const kRealCode, *const kStubs;
extern const std::vector<std::string> kAssumptions;
const char *const kProperty = "P18";
const char *const kRule =
    "one evaluation = one operation on a structured matrix compared with the dense matrix it "
    "stands for; non-trivial = the matrix has more than one entry; distinct by operation, "
    "shapes and contents";
const char *const kRealCode =
    "BlockDiagonal, BlockDiagonalLDLT, BlockSymmetric, SerializableLDLT, ExplainedCovariance, "
    "DirectInverse, block_utils, qr_utils, spqr_utils, eigen_utils, print_*_eigen_directions; "
    "Eigen, SuiteSparseQR";
const char *const kStubs = "ThreadPool (FIFO stub), pthread scheduling, the heap";
const std::vector<std::string> kAssumptions = {
    "matrices are well conditioned (up to their scale) or exactly rank deficient by "
    "construction; tolerance 1e-8 relative to the largest entry",
    "SuiteSparse does not report failed allocations: none are failed inside it",
    "condition numbers are estimates: at most 30 times the true reciprocal"};

namespace p18 {
Mat dense(const std::vector<Mat> &blocks) {
  Index r = 0, c = 0;
  for (const auto &b : blocks) {
    r += b.rows();
    c += b.cols();
  }
  Mat out = Mat::Zero(r, c);
  r = c = 0;
  for (const auto &b : blocks) {
    for (Index i = 0; i < b.rows(); ++i) {
      for (Index j = 0; j < b.cols(); ++j) {
        out(r + i, c + j) = b(i, j);
      }
    }
    r += b.rows();
    c += b.cols();
  }
  return out;
}

Mat rect(Index n, Index m) {
  Mat a(n, m);
  for (Index i = 0; i < n; ++i) {
    for (Index j = 0; j < m; ++j) {
      a(i, j) = sim::real(-2., 2.);
    }
  }
  return a;
}

Mat spd(Index n, double scale) {
  const Mat a = rect(n, n);
  Mat m = a * a.transpose();
  for (Index i = 0; i < n; ++i) {
    m(i, i) += 1. + sim::real(0., 4.); // different pivots
  }
  return scale * m;
}

void judge_close(const char *what, const Mat &got, const Mat &want, double tol) {
  sim::Quiet q;
  double scale = 0.;
  for (Index i = 0; i < want.size(); ++i) {
    scale = std::max(scale, std::fabs(want.data()[i]));
  }
  if (want.size() == 0) {
    scale = 1.;
  }
  num::expect_close("value", what, got, want, tol, scale + 1e-300);
}

const char *const kNamesA[kKindsA] = {
    "block product",   "block difference", "block diagonal",    "dense form",
    "block solve",     "block sqrt_solve", "block determinant", "block rcond",
    "sizes",           "rebuilt blocks"};

void run_a(const World &w, const Shared &s, const Op &op) {
  const auto D = [&] {
    sim::Quiet q;
    return dense(w.blocks);
  };
  const auto n = s.bd.rows();
  switch (op.kind) {
  case 0: {
    if (op.form % 2) {
      const Vec x = head(op, n).leftCols(std::min<Index>(1, op.cols)).size()
                        ? Vec(op.rhs.topRows(n).col(0))
                        : Vec(Vec::Zero(n));
      const Vec got = s.bd * x;
      judge_close("product with a vector", got, D() * x);
    } else {
      const Mat x = head(op, n);
      const Mat got = s.bd * x;
      judge_close("product with a matrix", got, D() * x);
      const Mat got2 = s.bd2 * x;
      sim::Quiet q;
      judge_close("product of blocks that are not symmetric", got2, dense(w.blocks2) * x);
    }
    break;
  }
  case 1: {
    const BlockDiagonal got = s.bd - s.bd2;
    judge_close("difference", got.toDense(), D() - dense(w.blocks2));
    break;
  }
  case 2: {
    const Vec got = s.bd.diagonal();
    judge_close("diagonal", got, D().diagonal());
    break;
  }
  case 3: {
    const Mat got = op.form % 2 ? s.bd.toDense() : s.bdr.toDense();
    judge_close("dense", got, op.form % 2 ? D() : dense(w.rects));
    break;
  }
  case 4:
  case 5: {
    const bool sqrt = op.kind == 5;
    const Mat x = head(op, n);
    Mat got;
    switch (op.form % 5) {
    case 0: {
      Mat g = sqrt ? s.bd_ldlt.sqrt_solve(x) : s.bd_ldlt.solve(x);
      got.swap(g);
      break;
    }
    case 1: {
      Mat g = sqrt ? s.bd_ldlt.sqrt_solve(x, op.pooled ? s.pool.get() : nullptr)
                   : s.bd_ldlt.solve(x, op.pooled ? s.pool.get() : nullptr);
      got.swap(g);
      break;
    }
    case 2: {
      if (sqrt) {
        Mat g = s.bd_ldlt.sqrt_solve(op.rhs.topLeftCorner(n, op.cols));
        got.swap(g);
      } else {
        Mat g = s.bd_ldlt.solve(op.rhs.topLeftCorner(n, op.cols));
        got.swap(g);
      }
      break;
    }
    case 3: {
      // a transposed expression
      const Mat xt = x.transpose();
      Mat g = sqrt ? s.bd_ldlt.sqrt_solve(xt.transpose()) : s.bd_ldlt.solve(xt.transpose());
      got.swap(g);
      break;
    }
    default: {
      const Vec v = op.rhs.topRows(n).col(0);
      const Vec one = sqrt ? Vec(s.bd_ldlt.sqrt_solve(v, op.pooled ? s.pool.get() : nullptr))
                           : Vec(s.bd_ldlt.solve(v, op.pooled ? s.pool.get() : nullptr));
      sim::Quiet q;
      if (sqrt) {
        judge_close("squared square root solve of a vector", one.transpose() * one,
                    n ? Mat(v.transpose() * D().fullPivLu().solve(v)) : Mat::Zero(1, 1));
      } else {
        judge_close("solve of a vector", D() * one, v);
      }
      sim::evaluated(n > 1, sim::mix(w.id, 4));
      return;
    }
    }
    sim::Quiet q;
    if (got.rows() != n || got.cols() != x.cols()) {
      sim::violation("shape", "solve gives %ldx%ld", (long)got.rows(), (long)got.cols());
    }
    if (sqrt) {
      judge_close("squared square root solve", got.transpose() * got,
                  n ? Mat(x.transpose() * D().fullPivLu().solve(x))
                    : Mat(Mat::Zero(x.cols(), x.cols())));
    } else {
      judge_close("solve", D() * got, x);
    }
    break;
  }
  case 6: {
    const double got = s.bd_ldlt.log_determinant();
    sim::Quiet q;
    double want = 0.;
    for (const auto &b : w.blocks) {
      want += std::log(b.fullPivLu().determinant());
    }
    judge_close("log determinant", Mat::Constant(1, 1, got), Mat::Constant(1, 1, want), 1e-7);
    break;
  }
  case 7: {
    if (n == 0) {
      break;
    }
    const bool single = op.form % 2;
    const double got = single ? s.ldlt.rcond() : s.bd_ldlt.rcond();
    sim::Quiet q;
    const Mat m = single ? w.spd : D();
    const Mat inv = m.fullPivLu().inverse();
    const double want = m.rows() == 1 ? 1.
                                      : 1. / (m.cwiseAbs().colwise().sum().maxCoeff() *
                                              inv.cwiseAbs().colwise().sum().maxCoeff());
    if (!(got >= want * (1. - 1e-6) && got <= want * 30.)) {
      sim::violation("value", "rcond is %.10g, expected about %.10g", got, want);
    }
    break;
  }
  case 8: {
    Index rows = 0, cols = 0;
    for (const auto &b : w.rects) {
      rows += b.rows();
      cols += b.cols();
    }
    const auto map = s.bd_ldlt.block_to_row_map();
    bool ok = s.bdr.rows() == rows && s.bdr.cols() == cols && s.bd_ldlt.rows() == n &&
              s.bd_ldlt.cols() == n && s.bd.cols() == n && map.size() == w.blocks.size() &&
              &s.bd_ldlt.adjoint() == &s.bd_ldlt;
    Index at = 0;
    for (std::size_t i = 0; i < w.blocks.size() && ok; ++i) {
      ok = map.count(i) == 1 && map.at(i) == at;
      at += w.blocks[i].rows();
    }
    if (!ok) {
      sim::violation("shape", "sizes or rows of blocks are wrong");
    }
    break;
  }
  default: {
    // a copy of one's own that grows and changes, the shared one does not
    BlockDiagonal own = s.bd;
    BlockDiagonalLDLT before = s.bd_ldlt;
    std::vector<Mat> mine;
    {
      sim::Quiet q;
      mine = w.blocks;
    }
    if (!own.blocks.empty()) {
      const std::size_t i = op.a % own.blocks.size();
      own.blocks[i] *= 2.;
      mine[i] *= 2.;
    }
    own.blocks.push_back(w.spd);
    mine.push_back(w.spd);
    const BlockDiagonalLDLT after = own.ldlt();
    const Index m = own.rows();
    const Mat x = head(op, m);
    const Mat got = after.solve(x, op.pooled ? s.pool.get() : nullptr);
    judge_close("solve after a change", dense(mine) * got, x);
    const Mat got2 = before.solve(Mat(head(op, n)));
    judge_close("solve of a copy made before", D() * got2, head(op, n));
    {
      sim::NoFault nf; // Eigen's assignment is not exception safe
      before = after;
    }
    const Mat got3 = before.solve(x);
    judge_close("solve of an assigned copy", dense(mine) * got3, x);
    break;
  }
  }
  sim::evaluated(n > 1, sim::mix(w.id, static_cast<std::uint64_t>(op.kind * 8 + op.form % 5)));
}

std::vector<std::vector<std::size_t>> draw_subsets(std::size_t n) {
  std::vector<std::vector<std::size_t>> out(sim::w(6));
  for (auto &v : out) {
    const std::size_t k = sim::w(5);
    for (std::size_t i = 0; i < k; ++i) {
      v.push_back(sim::w(n));
    }
  }
  return out;
}

void draw_world(World &w, Shared &s) {
  const double scales[] = {1., 1e-3, 1e3, 1e-9, 1e6, 1e-12};
  const auto scale = [&] { return scales[sim::w(3) ? 0 : sim::w(6)]; };
  const std::size_t nb = sim::w(8) == 7 ? sim::w(20) : sim::w(6);
  for (std::size_t i = 0; i < nb; ++i) {
    const Index n = 1 + static_cast<Index>(sim::w(4));
    w.blocks.push_back(spd(n, sim::w(3) ? 1. : sim::w(2) ? 50. : 0.02));
    w.blocks2.push_back(rect(n, n));
    w.rects.push_back(rect(static_cast<Index>(sim::w(4)), 1 + static_cast<Index>(sim::w(3))));
  }
  const Index n = 1 + static_cast<Index>(sim::w(7));
  w.spd = spd(n, scale());
  const Index r = 1 + static_cast<Index>(sim::w(static_cast<std::uint64_t>(n)));
  {
    const Mat a = rect(n, r);
    w.psd = scale() * (a * a.transpose());
  }
  // a symmetric matrix and its leading parts
  const Index n1 = 1 + static_cast<Index>(sim::w(4)), n2 = 1 + static_cast<Index>(sim::w(4)),
              n3 = 1 + static_cast<Index>(sim::w(4));
  const Mat big = spd(n1 + n2 + n3, scale());
  w.chain = {big.topLeftCorner(n1, n1), big.topLeftCorner(n1 + n2, n1 + n2), big};
  w.outer = spd(n, 1.);
  w.inner = spd(n, 1.);
  const std::size_t ng = 1 + sim::w(5);
  const Index rows = 1 + static_cast<Index>(sim::w(4)), c1 = 1 + static_cast<Index>(sim::w(3)),
              c2 = 1 + static_cast<Index>(sim::w(3));
  for (std::size_t i = 0; i < ng; ++i) {
    const int key = static_cast<int>(sim::w(30)) - 10;
    const Index k = rows + static_cast<Index>(sim::w(2));
    w.left[key] = rect(k, c1);
    w.right[key] = rect(k, c2);
    w.spds[key] = spd(k, 1.);
  }
  w.tall = rect(n + static_cast<Index>(sim::w(5)) + 1, n);
  for (Index j = 0; j < n; ++j) {
    w.tall(j, j) += 4.; // full rank, well conditioned
    if (sim::w(3) == 0) {
      w.tall.col(j) *= 5.; // makes the pivoting move columns
    }
  }
  {
    // orthonormal columns by two passes of Gram Schmidt
    w.vectors = rect(n, n);
    for (Index j = 0; j < n; ++j) {
      w.vectors(j, j) += 5.;
    }
    for (int pass = 0; pass < 2; ++pass) {
      for (Index j = 0; j < n; ++j) {
        for (Index k = 0; k < j; ++k) {
          w.vectors.col(j) -= w.vectors.col(k).dot(w.vectors.col(j)) * w.vectors.col(k);
        }
        w.vectors.col(j) /= w.vectors.col(j).norm();
      }
    }
    w.values = Vec(n);
    for (Index j = 0; j < n; ++j) {
      w.values[j] = sim::w(3) == 0 ? 0. : 0.1 + 0.3 * static_cast<double>(j) + sim::real(0., 0.2);
    }
  }
  const std::size_t ns = 1 + sim::w(4);
  const Index sc = 1 + static_cast<Index>(sim::w(3));
  for (std::size_t i = 0; i < ns; ++i) {
    w.stack.push_back(rect(static_cast<Index>(sim::w(4)), sc));
  }
  for (std::size_t i = 0; i < ns; ++i) {
    w.pile.push_back(rect(n, sc));
  }
  w.id = num::hash(w.spd, num::hash(dense(w.blocks), num::hash(big)));

  s.bd.blocks = w.blocks;
  s.bd2.blocks = w.blocks2;
  s.bdr.blocks = w.rects;
  s.bd_ldlt = s.bd.ldlt();
  s.ldlt = Eigen::SerializableLDLT(w.spd);
  s.psd_ldlt = Eigen::SerializableLDLT(w.psd);
  s.explained = sim::w(2) ? ExplainedCovariance(w.outer, w.inner)
                          : ExplainedCovariance(Eigen::SerializableLDLT(w.outer), w.inner);
  s.direct = DirectInverse(w.inner);
  for (const auto &kv : w.left) {
    s.left[kv.first] = kv.second;
  }
  for (auto it = w.right.rbegin(); it != w.right.rend(); ++it) {
    s.right[it->first] = it->second;
  }
  for (const auto &kv : w.spds) {
    s.solvers[kv.first] = Eigen::SerializableLDLT(kv.second);
  }
  const Mat B = big.block(0, n1, n1, n2), C = big.block(n1, n1, n2, n2);
  const Eigen::SerializableLDLT A0(w.chain[0]);
  if (sim::w(2)) {
    s.grown = build_block_symmetric(A0, B, C);
  } else {
    const Mat S = C - B.transpose() * w.chain[0].fullPivLu().solve(B);
    s.grown = build_block_symmetric(A0, B, Eigen::SerializableLDLT(S));
  }
  const Mat B2 = big.block(0, n1 + n2, n1 + n2, n3),
            C2 = big.block(n1 + n2, n1 + n2, n3, n3);
  s.grown2 = build_block_symmetric(s.grown, B2, C2);
  {
    // block diagonal with a border
    const Index nd = s.bd.rows();
    const Mat b = 0.1 * rect(nd, 2);
    Mat c = spd(2, 1.);
    if (nd) {
      c += b.transpose() * dense(w.blocks).fullPivLu().solve(b);
    }
    Mat full(nd + 2, nd + 2);
    full.topLeftCorner(nd, nd) = dense(w.blocks);
    full.topRightCorner(nd, 2) = b;
    full.bottomLeftCorner(2, nd) = b.transpose();
    full.bottomRightCorner(2, 2) = c;
    s.mixed = build_block_symmetric(s.bd_ldlt, b, c);
    w.chain.push_back(full);
  }
}
} // namespace p18

void sim_run() {
  using namespace p18;
  World w;
  Shared s;
  draw_world(w, s);
  const std::size_t n_clients = 1 + (sim::w(2) ? sim::w(3) : 0);
  const std::size_t workers = 2 + sim::w(4);
  std::vector<std::vector<std::pair<bool, Op>>> plan(n_clients);
  const Index most = std::max<Index>({s.bd.rows() + w.spd.rows(), w.chain[3].rows(), 16});
  for (auto &ops : plan) {
    const std::size_t k = 1 + sim::w(6);
    for (std::size_t i = 0; i < k; ++i) {
      Op op;
      const bool second = sim::w(2);
      op.kind = static_cast<int>(sim::w(second ? kKindsB : kKindsA));
      op.form = static_cast<int>(sim::w(30));
      op.cols = sim::w(6) == 5 ? static_cast<Index>(sim::w(8)) : 1 + static_cast<Index>(sim::w(3));
      op.rhs = rect(most, std::max<Index>(op.cols, 1));
      op.a = sim::w(1000);
      op.b = sim::w(1000);
      op.pooled = sim::w(2);
      op.subsets = draw_subsets(static_cast<std::size_t>(w.spd.rows()));
      ops.emplace_back(second, op);
    }
  }
  const bool memory = n_clients == 1 && sim::f(2);
  std::vector<std::uint64_t> when;
  for (std::size_t i = 0; memory && i < plan[0].size(); ++i) {
    when.push_back(sim::f(3) ? sim::f(25) : sim::f(200));
  }
  for (std::size_t k = 0; k < n_clients; ++k) {
    for (const auto &o : plan[k]) {
      sim::log("client %zu: %s form=%d cols=%ld pooled=%d", k,
               (o.first ? kNamesB : kNamesA)[o.second.kind], o.second.form,
               (long)o.second.cols, (int)o.second.pooled);
    }
  }
  sim::begin(sim::random_sched());
  {
    s.pool = make_shared_thread_pool(workers);
    const auto one = [&](const std::pair<bool, Op> &o) {
      o.first ? run_b(w, s, o.second) : run_a(w, s, o.second);
    };
    const auto work = [&](std::size_t i) {
      for (std::size_t j = 0; j < plan[i].size(); ++j) {
        const auto &o = plan[i][j];
        if (memory) {
          const std::int64_t before = sim::live_blocks();
          sim::arm_alloc_fault(when[j]);
          bool failed = false;
          try {
            one(o);
          } catch (const std::bad_alloc &) {
            failed = true;
          }
          const bool fired = sim::alloc_fault_fired();
          sim::disarm_alloc_fault();
          if (fired) {
            sim::fault_fired("alloc");
          }
          if (failed != fired) {
            sim::violation("exception", "%s %s", (o.first ? kNamesB : kNamesA)[o.second.kind],
                           failed ? "fails without cause" : "hides a failed allocation");
          }
          if (failed && !o.second.pooled && sim::live_blocks() > before + 8) {
            sim::violation("leak", "%s leaves %lld blocks behind",
                           (o.first ? kNamesB : kNamesA)[o.second.kind],
                           (long long)(sim::live_blocks() - before));
          }
        }
        one(o);
      }
    };
    std::vector<std::thread> threads;
    for (std::size_t i = 1; i < n_clients; ++i) {
      threads.emplace_back([&, i] { work(i); });
    }
    work(0);
    for (auto &t : threads) {
      t.join();
    }
    s.pool.reset();
  }
  sim::end();
}
#endif

#if SHARD == 1
namespace p18 {
const char *const kNamesB[kKindsB] = {
    "ldlt square roots", "ldlt solves",     "inverse blocks", "inverse diagonal",
    "semi definite",     "grown matrix",    "representation", "grouped blocks",
    "qr",                "sparse qr",       "truncated solve", "stacked",
    "equality", "ldlt of unlike scales"};

Mat invert(const Mat &m) {
  sim::Quiet q;
  return m.fullPivLu().inverse();
}

template <typename Qr>
void judge_qr(const World &w, const Qr &qr, const Mat &x) {
  const Mat R = get_R(qr);
  const Eigen::PermutationMatrix<Eigen::Dynamic, Eigen::Dynamic, Index> P = get_P(qr);
  const Mat got = sqrt_solve(qr, x);
  const Mat got2 = sqrt_solve(R, P, x);
  sim::Quiet q;
  const Index n = w.tall.cols();
  if (R.rows() != n || R.cols() != n || P.size() != n) {
    sim::violation("shape", "R is %ldx%ld", (long)R.rows(), (long)R.cols());
  }
  for (Index i = 0; i < n; ++i) {
    for (Index j = 0; j < i; ++j) {
      if (R(i, j) != 0.) {
        sim::violation("value", "R is not triangular");
      }
    }
  }
  const Mat BP = w.tall * P;
  judge_close("R' R", R.transpose() * R, BP.transpose() * BP);
  const Mat want = x.transpose() * (w.tall.transpose() * w.tall).fullPivLu().solve(x);
  judge_close("squared square root solve of a decomposition", got.transpose() * got, want);
  judge_close("square root solve of R and P", got2, got);
}

void run_b(const World &w, const Shared &s, const Op &op) {
  const Index n = w.spd.rows();
  ThreadPool *pool = op.pooled ? s.pool.get() : nullptr;
  switch (op.kind) {
  case 0: {
    const Mat half = s.ldlt.sqrt_product(Mat(Mat::Identity(n, n)));
    judge_close("product of square roots", half * half.transpose(), w.spd);
    const Mat x = head(op, n);
    const Mat px = s.ldlt.sqrt_product(x);
    judge_close("square root product", px, half * x);
    const Mat back = s.ldlt.sqrt_solve(px);
    judge_close("square root solve", back, x);
    const Mat t = s.ldlt.sqrt_transpose();
    judge_close("transposed square root", t, half.transpose());
    const Mat y = s.ldlt.sqrt_transpose_solve(x);
    judge_close("solve of the transposed square root", t * y, x);
    if (op.form % 2) {
      const Vec v = op.rhs.topRows(n).col(0);
      const Vec yv = s.ldlt.sqrt_transpose_solve(v);
      judge_close("solve of the transposed square root (vector)", t * yv, v);
      const Mat sv = s.ldlt.sqrt_solve(v);
      judge_close("square root solve (vector)", half * sv, v);
    }
    break;
  }
  case 1: {
    const Mat x = head(op, n);
    const Mat got = s.ldlt.solve(x);
    judge_close("solve", w.spd * got, x);
    const double ld = s.ldlt.log_determinant();
    const double l1 = s.ldlt.l1_norm();
    const bool pd = s.ldlt.is_positive_definite();
    const Vec d = s.ldlt.vectorD();
    const Vec root = s.ldlt.diagonal_sqrt().diagonal();
    const Vec inv = s.ldlt.diagonal_sqrt_inverse().diagonal();
    sim::Quiet q;
    judge_close("log determinant", Mat::Constant(1, 1, ld),
                Mat::Constant(1, 1,
                              [&] {
                                double sum = 0.;
                                const auto lu = w.spd.fullPivLu();
                                for (Index i = 0; i < n; ++i) {
                                  sum += std::log(std::fabs(lu.matrixLU()(i, i)));
                                }
                                return sum;
                              }()),
                1e-7);
    judge_close("norm", Mat::Constant(1, 1, l1),
                Mat::Constant(1, 1, w.spd.cwiseAbs().colwise().sum().maxCoeff()));
    if (!pd) {
      sim::violation("value", "a positive definite matrix is said not to be");
    }
    judge_close("root of the diagonal", root.cwiseProduct(root), d);
    judge_close("inverse root of the diagonal", inv.cwiseProduct(root), Vec::Ones(n));
    break;
  }
  case 2: {
    const std::vector<Mat> got = s.ldlt.inverse_blocks(op.subsets, pool);
    sim::Quiet q;
    const Mat inv = invert(w.spd);
    if (got.size() != op.subsets.size()) {
      sim::violation("shape", "%zu blocks instead of %zu", got.size(), op.subsets.size());
    }
    for (std::size_t k = 0; k < got.size(); ++k) {
      const auto &idx = op.subsets[k];
      Mat want(idx.size(), idx.size());
      for (std::size_t i = 0; i < idx.size(); ++i) {
        for (std::size_t j = 0; j < idx.size(); ++j) {
          want(i, j) = inv(idx[i], idx[j]);
        }
      }
      num::expect_close("value", "block of the inverse", got[k], want, kTol,
                        inv.cwiseAbs().maxCoeff());
    }
    break;
  }
  case 3: {
    const Vec got = s.ldlt.inverse_diagonal();
    judge_close("diagonal of the inverse", got, invert(w.spd).diagonal());
    break;
  }
  case 4: {
    const Mat half = s.psd_ldlt.sqrt_product(Mat(Mat::Identity(n, n)));
    judge_close("square root of a semi definite matrix", half * half.transpose(), w.psd, 1e-7);
    const Mat t = s.psd_ldlt.sqrt_transpose();
    judge_close("transposed square root of a semi definite matrix", t.transpose() * t, w.psd,
                1e-7);
    const Eigen::SerializableLDLT neg{Mat(-w.spd)};
    if (neg.is_positive_definite()) {
      sim::violation("value", "a negative definite matrix is said to be positive definite");
    }
    if (n > 1) {
      Mat mixed = w.spd;
      const Index i = static_cast<Index>(op.a) % n;
      mixed(i, i) = -mixed(i, i);
      const Eigen::SerializableLDLT m(mixed);
      if (m.is_positive_definite()) {
        sim::violation("value", "an indefinite matrix is said to be positive definite");
      }
    }
    break;
  }
  case 5: {
    const auto judge = [&](const auto &m, const Mat &full, const char *what) {
      const Index k = full.rows();
      if (m.rows() != k || m.cols() != k) {
        sim::violation("shape", "%s: size is %ldx%ld instead of %ld", what, (long)m.rows(),
                       (long)m.cols(), (long)k);
      }
      const Mat x = head(op, k);
      const Mat got = m.solve(x);
      sim::Quiet q;
      judge_close(what, full * got, x, 1e-7);
    };
    judge(s.grown, w.chain[1], "solve of a grown matrix");
    judge(s.grown2, w.chain[2], "solve of a matrix grown twice");
    judge(s.mixed, w.chain[3], "solve of a bordered block diagonal matrix");
    const Index k = w.chain[2].rows();
    const Vec v = op.rhs.topRows(k).col(0);
    const Vec got = s.grown2.solve(v);
    judge_close("solve of a matrix grown twice (vector)", w.chain[2] * got, v, 1e-7);
    auto copy = s.grown;
    const auto next = build_block_symmetric(
        copy, Mat(w.chain[2].topRightCorner(copy.rows(), k - copy.rows())),
        Mat(w.chain[2].bottomRightCorner(k - copy.rows(), k - copy.rows())));
    {
      sim::NoFault nf;
      copy = BlockSymmetric<Eigen::SerializableLDLT>();
    }
    judge(next, w.chain[2], "solve of a matrix grown from a copy that is gone");
    break;
  }
  case 6: {
    const Mat x = head(op, n);
    const Mat got = s.explained.solve(x);
    judge_close("solve of an explained covariance", got,
                invert(w.outer) * w.inner * invert(w.outer) * x);
    const Mat got2 = s.direct.solve(x);
    judge_close("product with an inverse", got2, w.inner * x);
    if (s.explained.rows() != n || s.explained.cols() != n || s.direct.rows() != n ||
        s.direct.cols() != n) {
      sim::violation("shape", "sizes of representations are wrong");
    }
    break;
  }
  case 7: {
    const Mat sum = block_sum(w.pile);
    Mat want;
    {
      sim::Quiet q;
      want = w.pile[0];
      for (std::size_t i = 1; i < w.pile.size(); ++i) {
        want += w.pile[i];
      }
    }
    judge_close("sum of blocks", sum, want);
    const auto solved = block_diag_solve(s.solvers, s.right);
    const auto twice = block_subtract(s.left, s.left);
    const auto less = block_subtract(solved, s.right);
    sim::Quiet q;
    if (solved.size() != w.spds.size() || twice.size() != w.left.size()) {
      sim::violation("shape", "blocks are missing");
    }
    for (const auto &kv : w.spds) {
      judge_close("solve of a group", kv.second * solved.at(kv.first), w.right.at(kv.first));
      judge_close("difference of groups", less.at(kv.first),
                  solved.at(kv.first) - w.right.at(kv.first));
      judge_close("difference of a group and itself", twice.at(kv.first),
                  Mat::Zero(w.left.at(kv.first).rows(), w.left.at(kv.first).cols()));
    }
    break;
  }
  case 8: {
    const Mat x = head(op, w.tall.cols());
    const auto qr = DenseQRImplementation::compute(w.tall, pool);
    judge_qr(w, *qr, x);
    break;
  }
  case 9: {
    sim::NoFault nf; // not reported by SuiteSparse
    const Mat x = head(op, w.tall.cols());
    const auto qr = SPQRImplementation::compute(w.tall, pool);
    judge_qr(w, *qr, x);
    break;
  }
  case 10: {
    const Mat m = w.vectors * w.values.asDiagonal() * w.vectors.transpose();
    const Eigen::SelfAdjointEigenSolver<Mat> evd(m);
    Vec inverse(n);
    for (Index i = 0; i < n; ++i) {
      inverse[i] = w.values[i] > 0. ? 1. / w.values[i] : 0.;
    }
    const Mat pinv = w.vectors * inverse.asDiagonal() * w.vectors.transpose();
    const Mat x = head(op, n);
    const Mat got = truncated_psd_solve(evd, x);
    judge_close("truncated solve", got, pinv * x);
    const Vec v = op.rhs.topRows(n).col(0);
    const double limit = 0.1 + 0.3 * static_cast<double>(op.a % 4);
    const Vec got2 = truncated_psd_solve(evd, v, limit - 0.05);
    for (Index i = 0; i < n; ++i) {
      inverse[i] = w.values[i] >= limit - 0.05 ? 1. / w.values[i] : 0.;
    }
    bool close = false;
    for (Index i = 0; i < n; ++i) {
      close = close || std::fabs(w.values[i] - (limit - 0.05)) < 1e-6;
    }
    if (!close) {
      const Mat p = w.vectors * inverse.asDiagonal() * w.vectors.transpose();
      judge_close("truncated solve with a threshold", got2, p * v);
    }
    break;
  }
  case 11: {
    const Mat got = vertical_stack(w.stack);
    sim::Quiet q;
    Index rows = 0;
    for (const auto &b : w.stack) {
      rows += b.rows();
    }
    Mat want(rows, w.stack[0].cols());
    Index at = 0;
    for (const auto &b : w.stack) {
      for (Index i = 0; i < b.rows(); ++i, ++at) {
        for (Index j = 0; j < b.cols(); ++j) {
          want(at, j) = b(i, j);
        }
      }
    }
    num::expect_close("value", "stack", got, want, 0.);
    break;
  }
  case 13: {
    // Variables in different units: D M D, where D holds powers of two.
    Vec d(n);
    Mat scaled(n, n), m(n, n);
    {
      sim::NoFault nf;
      sim::Quiet q;
      m = w.spd / w.spd.diagonal().maxCoeff();
      for (Index i = 0; i < n; ++i) {
        d[i] = std::ldexp(1., static_cast<int>((op.a + 37 * static_cast<std::uint64_t>(i) *
                                                           (op.b % 5)) % 81) - 40);
      }
      scaled = d.asDiagonal() * m * d.asDiagonal();
    }
    const Eigen::SerializableLDLT l(scaled);
    const Mat x = head(op, n);
    const Mat dx = d.asDiagonal() * x;
    const Mat half = l.sqrt_product(Mat(Mat::Identity(n, n)));
    const Mat root = l.sqrt_solve(dx);
    const Mat solved = l.solve(dx);
    const Vec inv = l.inverse_diagonal();
    const Mat t = l.sqrt_transpose();
    const Mat back = l.sqrt_transpose_solve(x);
    const Vec roots = l.diagonal_sqrt().diagonal();
    const Vec inverse_roots = l.diagonal_sqrt_inverse().diagonal();
    const bool pd = l.is_positive_definite();
    sim::NoFault nf;
    const Mat dh = d.cwiseInverse().asDiagonal() * half;
    judge_close("product of square roots in other units", dh * dh.transpose(), m);
    const Mat mi = invert(m);
    judge_close("squared square root solve in other units", root.transpose() * root,
                x.transpose() * mi * x);
    judge_close("solve in other units", Mat(d.asDiagonal() * solved), mi * x);
    judge_close("diagonal of the inverse in other units",
                Vec(d.cwiseProduct(d).cwiseProduct(inv)), mi.diagonal());
    judge_close("transposed square root in other units",
                t * Mat(d.cwiseInverse().asDiagonal()), dh.transpose());
    judge_close("squared solve of the transposed square root in other units",
                Mat((d.asDiagonal() * back).transpose() * m * (d.asDiagonal() * back)),
                x.transpose() * x, 1e-7);
    judge_close("inverse roots of pivots in other units", roots.cwiseProduct(inverse_roots),
                Vec::Ones(n));
    if (!pd) {
      sim::violation("value", "a positive definite matrix in other units is said not to be");
    }
    break;
  }
  default: {
    // equal to what was made from the same matrix, and to nothing else
    const Eigen::SerializableLDLT same(w.spd), other(Mat(2. * w.spd));
    bool ok = s.ldlt == same && !(s.ldlt == other) &&
              !(s.ldlt == Eigen::SerializableLDLT());
    Mat d = Mat::Zero(3, 3), p = Mat::Zero(3, 3);
    for (Index i = 0; i < 3; ++i) {
      d(i, i) = 3. - static_cast<double>(i);
      p((i + 1) % 3, (i + 1) % 3) = d(i, i);
    }
    const Eigen::SerializableLDLT d1(d), d2(p);
    ok = ok && !(d1 == d2) && d1 == Eigen::SerializableLDLT(d);
    auto copy = s.grown;
    ok = ok && copy == s.grown;
    copy.Ai_B(0, 0) += 1.;
    ok = ok && !(copy == s.grown);
    {
      sim::NoFault nf; // Eigen's assignment is not exception safe
      copy = s.grown;
      copy.S = other;
    }
    ok = ok && !(copy == s.grown);
    auto e = s.explained;
    ok = ok && e == s.explained;
    e.inner(0, 0) += 1.;
    ok = ok && !(e == s.explained) && s.direct == DirectInverse(w.inner) &&
         !(s.direct == DirectInverse(Mat(2. * w.inner))) &&
         !(s.direct == DirectInverse(Mat(Mat::Identity(n + 1, n + 1)))) &&
         !(s.ldlt == Eigen::SerializableLDLT(Mat(Mat::Identity(n + 1, n + 1))));
    if (!ok) {
      sim::violation("value", "equality of representations is wrong");
    }
    break;
  }
  }
  sim::evaluated(n > 1, sim::mix(w.id, static_cast<std::uint64_t>(1000 + op.kind)));
}
} // namespace p18
#endif
