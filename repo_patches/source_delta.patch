From be1c79c35526709656c1f8886bd65f71fbe178b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:18 +0000
Subject: [PATCH 01/33] fix: wait for queued tasks when a pooled apply fails

When one task threw (or could not be enqueued) apply()/apply_map() left the
caller's frame while the remaining tasks were still queued or running with
references to the caller's function and its captures.
---
 include/albatross/src/utils/async_utils.hpp | 47 ++++++++++++++++++++-
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/utils/async_utils.hpp b/include/albatross/src/utils/async_utils.hpp
index 3239325..ce6b7d3 100644
--- a/include/albatross/src/utils/async_utils.hpp
+++ b/include/albatross/src/utils/async_utils.hpp
@@ -21,6 +21,37 @@ inline bool should_serial_apply(ThreadPool *pool) {
   return (nullptr == pool) || (pool->thread_count() <= 1);
 }
 
+template <typename ResultType>
+inline void wait_if_valid(const std::future<ResultType> &future) {
+  if (future.valid()) {
+    future.wait();
+  }
+}
+
+template <typename KeyType, typename ResultType>
+inline void
+wait_if_valid(const std::pair<const KeyType, std::future<ResultType>> &entry) {
+  wait_if_valid(entry.second);
+}
+
+// Queued tasks refer to the caller's function and everything it captured, so
+// when one of them fails (or can't be queued) the others have to be finished
+// before the exception is allowed to leave the caller's scope.
+template <typename Futures> class WaitForPending {
+public:
+  explicit WaitForPending(const Futures &futures) : futures_(futures) {}
+  WaitForPending(const WaitForPending &) = delete;
+  WaitForPending &operator=(const WaitForPending &) = delete;
+  ~WaitForPending() {
+    for (const auto &f : futures_) {
+      wait_if_valid(f);
+    }
+  }
+
+private:
+  const Futures &futures_;
+};
+
 } // namespace detail
 
 template <typename ValueType, typename ApplyFunction,
@@ -38,6 +69,8 @@ inline void apply(const std::vector<ValueType> &xs, const ApplyFunction &func,
   }
 
   std::vector<std::future<void>> futures;
+  futures.reserve(xs.size());
+  const detail::WaitForPending<decltype(futures)> pending(futures);
   for (const auto &x : xs) {
     futures.emplace_back(pool->enqueue(func, x));
   }
@@ -60,6 +93,8 @@ inline auto apply(const std::vector<ValueType> &xs, const ApplyFunction &func,
   }
 
   std::vector<std::future<ApplyType>> futures;
+  futures.reserve(xs.size());
+  const detail::WaitForPending<decltype(futures)> pending(futures);
   for (const auto &x : xs) {
     futures.emplace_back(pool->enqueue(func, x));
   }
@@ -87,6 +122,8 @@ inline void apply_map(const Map<KeyType, ValueType> &xs,
   }
 
   std::vector<std::future<void>> futures;
+  futures.reserve(xs.size());
+  const detail::WaitForPending<decltype(futures)> pending(futures);
   for (const auto &x : xs) {
     futures.emplace_back(pool->enqueue(func, x.second));
   }
@@ -111,8 +148,10 @@ inline Grouped<KeyType, ApplyType> apply_map(const Map<KeyType, ValueType> &xs,
   }
 
   Grouped<KeyType, std::future<ApplyType>> futures;
+  const detail::WaitForPending<decltype(futures)> pending(futures);
   for (const auto &x : xs) {
-    futures[x.first] = pool->enqueue(func, x.second);
+    auto &future = futures[x.first];
+    future = pool->enqueue(func, x.second);
   }
 
   Grouped<KeyType, ApplyType> output;
@@ -139,6 +178,8 @@ inline void apply_map(const Map<KeyType, ValueType> &xs,
   }
 
   std::vector<std::future<void>> futures;
+  futures.reserve(xs.size());
+  const detail::WaitForPending<decltype(futures)> pending(futures);
   for (const auto &x : xs) {
     futures.emplace_back(pool->enqueue(func, x.first, x.second));
   }
@@ -164,8 +205,10 @@ inline Grouped<KeyType, ApplyType> apply_map(const Map<KeyType, ValueType> &xs,
   }
 
   Grouped<KeyType, std::future<ApplyType>> futures;
+  const detail::WaitForPending<decltype(futures)> pending(futures);
   for (const auto &x : xs) {
-    futures[x.first] = pool->enqueue(func, x.first, x.second);
+    auto &future = futures[x.first];
+    future = pool->enqueue(func, x.first, x.second);
   }
 
   Grouped<KeyType, ApplyType> output;
-- 
2.43.0


From 95022e4b22de554a7903127c087d2f2673e4ba82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:14 +0000
Subject: [PATCH 02/33] fix: name the solver type in the GP update

build_block_symmetric is overloaded on SerializableLDLT and MatrixXd, and an
Eigen::LDLT converts to both with Eigen 3.4, so GaussianProcessBase::update did
not compile.
---
 include/albatross/src/models/gp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/models/gp.hpp b/include/albatross/src/models/gp.hpp
index c10da0d..72add8b 100644
--- a/include/albatross/src/models/gp.hpp
+++ b/include/albatross/src/models/gp.hpp
@@ -393,7 +393,7 @@ public:
 
     Eigen::VectorXd delta = targets.mean - pred.mean;
     pred.covariance += targets.covariance;
-    const auto S_ldlt = pred.covariance.ldlt();
+    const Eigen::SerializableLDLT S_ldlt(pred.covariance);
 
     const Eigen::MatrixXd cross =
         covariance_function_(fit_.train_features, features);
-- 
2.43.0


From 6fcc54ec62923eb116a4d0fb4e04bb2870064210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:14 +0000
Subject: [PATCH 03/33] fix: condition on measurements when a GP fit is updated

A fit is conditioned on measurements of its features, but an update left out
all measurement only covariance terms, so updating gave a different posterior
from fitting the same data at once.
---
 include/albatross/src/models/gp.hpp | 52 ++++++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 5 deletions(-)

diff --git a/include/albatross/src/models/gp.hpp b/include/albatross/src/models/gp.hpp
index 72add8b..ce6be5a 100644
--- a/include/albatross/src/models/gp.hpp
+++ b/include/albatross/src/models/gp.hpp
@@ -388,16 +388,20 @@ public:
                             const MarginalDistribution &targets) const {
     const auto new_features = concatenate(fit_.train_features, features);
 
-    auto pred = this->_predict_impl(features, fit_,
-                                    PredictTypeIdentity<JointDistribution>());
+    // As in _fit_impl, the features being conditioned on are measurements.
+    const auto measurement_features = as_measurements(features);
+    const Eigen::MatrixXd cross = update_cross_covariance(
+        fit_.train_covariance, fit_.train_features, measurement_features);
+    const Eigen::MatrixXd prior_cov =
+        covariance_function_(measurement_features);
+    auto pred = gp_joint_prediction(cross, prior_cov, fit_.information,
+                                    fit_.train_covariance);
+    mean_function_.add_to(measurement_features, &pred.mean);
 
     Eigen::VectorXd delta = targets.mean - pred.mean;
     pred.covariance += targets.covariance;
     const Eigen::SerializableLDLT S_ldlt(pred.covariance);
 
-    const Eigen::MatrixXd cross =
-        covariance_function_(fit_.train_features, features);
-
     const auto new_covariance =
         build_block_symmetric(fit_.train_covariance, cross, S_ldlt);
 
@@ -451,6 +455,44 @@ public:
   }
 
 protected:
+  /*
+   * The covariance between what a fit was conditioned on and some new
+   * measurements.  A fit is conditioned on measurements of its features, unless
+   * it was built from a prediction, in which case it was conditioned on the
+   * features themselves.
+   */
+  template <typename Solver, typename FeatureType, typename MeasurementType>
+  Eigen::MatrixXd update_cross_covariance(
+      const Solver &solver ALBATROSS_UNUSED,
+      const std::vector<FeatureType> &train_features,
+      const std::vector<MeasurementType> &measurements) const {
+    return covariance_function_(as_measurements(train_features), measurements);
+  }
+
+  template <typename FeatureType, typename MeasurementType>
+  Eigen::MatrixXd update_cross_covariance(
+      const ExplainedCovariance &solver ALBATROSS_UNUSED,
+      const std::vector<FeatureType> &train_features,
+      const std::vector<MeasurementType> &measurements) const {
+    return covariance_function_(train_features, measurements);
+  }
+
+  template <typename Solver, typename FeatureType, typename MeasurementType>
+  Eigen::MatrixXd update_cross_covariance(
+      const BlockSymmetric<Solver> &solver,
+      const std::vector<FeatureType> &train_features,
+      const std::vector<MeasurementType> &measurements) const {
+    const auto split = std::next(train_features.begin(), solver.A.rows());
+    Eigen::MatrixXd cross(solver.rows(), cast::to_index(measurements.size()));
+    cross.topRows(solver.A.rows()) = update_cross_covariance(
+        solver.A, std::vector<FeatureType>(train_features.begin(), split),
+        measurements);
+    cross.bottomRows(solver.S.rows()) = covariance_function_(
+        as_measurements(std::vector<FeatureType>(split, train_features.end())),
+        measurements);
+    return cross;
+  }
+
   /*
    * CRTP Helpers
    */
-- 
2.43.0


From d9375bf280cf1000f1914bcb8526d1c3a4232b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:14 +0000
Subject: [PATCH 04/33] fix: remove the mean from the targets of a sparse GP

The targets were copied before the mean was removed from them, so the mean was
added to predictions without having been removed from the data.
---
 include/albatross/src/models/sparse_gp.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/albatross/src/models/sparse_gp.hpp b/include/albatross/src/models/sparse_gp.hpp
index 8927f08..7ffda12 100644
--- a/include/albatross/src/models/sparse_gp.hpp
+++ b/include/albatross/src/models/sparse_gp.hpp
@@ -662,10 +662,9 @@ private:
     const auto features =
         subset(out_of_order_measurement_features, reordered_inds);
     auto targets = subset(out_of_order_targets, reordered_inds);
-    *y = targets.mean;
-
     this->mean_function_.remove_from(
         subset(out_of_order_features, reordered_inds), &targets.mean);
+    *y = targets.mean;
 
     *K_fu = this->covariance_function_(features, inducing_features,
                                        Base::threads_.get());
-- 
2.43.0


From c97df5a44edcb225b54a6c372dcaa5aa8ba9d0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:14 +0000
Subject: [PATCH 05/33] fix: remove the mean in
 SparseGaussianProcessRegression::fit_from_prediction

Predictions add the mean back, so rebasing inducing points counted it twice.
---
 include/albatross/src/models/sparse_gp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/albatross/src/models/sparse_gp.hpp b/include/albatross/src/models/sparse_gp.hpp
index 7ffda12..b5720f8 100644
--- a/include/albatross/src/models/sparse_gp.hpp
+++ b/include/albatross/src/models/sparse_gp.hpp
@@ -422,6 +422,7 @@ public:
     JointDistribution prediction(prediction_);
     prediction.covariance.diagonal() += Eigen::VectorXd::Constant(
         cast::to_index(prediction.size()), 1, details::DEFAULT_NUGGET);
+    this->mean_function_.remove_from(new_inducing_points, &prediction.mean);
     new_fit.information = new_fit.train_covariance.solve(prediction.mean);
 
     // Here P is the posterior covariance at the new inducing points.  If
-- 
2.43.0


From 6dd8e1c81ab216ff8ce479136ce00bc02ce6e7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:14 +0000
Subject: [PATCH 06/33] fix: store the strategy in set_inducing_point_strategy

The argument was assigned to itself.
---
 include/albatross/src/models/sparse_gp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/models/sparse_gp.hpp b/include/albatross/src/models/sparse_gp.hpp
index b5720f8..a9a3fbf 100644
--- a/include/albatross/src/models/sparse_gp.hpp
+++ b/include/albatross/src/models/sparse_gp.hpp
@@ -609,7 +609,7 @@ public:
 
   void
   set_inducing_point_strategy(InducingPointStrategy &&inducing_point_strategy) {
-    inducing_point_strategy =
+    inducing_point_strategy_ =
         std::forward<InducingPointStrategy>(inducing_point_strategy);
   }
 
-- 
2.43.0


From 3dfa007c7c6752ce121e2cee57c4aa4c2e436fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:25 +0000
Subject: [PATCH 07/33] fix: include the target covariance in the GP log
 likelihood

---
 include/albatross/src/models/gp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/models/gp.hpp b/include/albatross/src/models/gp.hpp
index ce6be5a..4219a43 100644
--- a/include/albatross/src/models/gp.hpp
+++ b/include/albatross/src/models/gp.hpp
@@ -448,7 +448,8 @@ public:
     Eigen::VectorXd zero_mean(dataset.targets.mean);
     const auto measurement_features = as_measurements(dataset.features);
     mean_function_.remove_from(measurement_features, &zero_mean);
-    const Eigen::MatrixXd cov = covariance_function_(measurement_features);
+    Eigen::MatrixXd cov = covariance_function_(measurement_features);
+    cov += dataset.targets.covariance;
     double ll = -negative_log_likelihood(zero_mean, cov);
     ll += this->prior_log_likelihood();
     return ll;
-- 
2.43.0


From ff24d32fcb0554a95de71cac3bc782b54d63ada4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 08/33] fix: keep the numerical rank when a sparse GP fit is
 saved

---
 include/albatross/src/models/sparse_gp.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/albatross/src/models/sparse_gp.hpp b/include/albatross/src/models/sparse_gp.hpp
index a9a3fbf..7ba8534 100644
--- a/include/albatross/src/models/sparse_gp.hpp
+++ b/include/albatross/src/models/sparse_gp.hpp
@@ -93,6 +93,9 @@ template <typename FeatureType> struct SparseGPFit {};
 template <typename FeatureType> struct Fit<SparseGPFit<FeatureType>> {
   using PermutationIndices = Eigen::Matrix<Eigen::Index, Eigen::Dynamic, 1>;
 
+  // numerical_rank is only part of archives since version 2.
+  static const std::uint32_t serialization_version = 2;
+
   std::vector<FeatureType> train_features;
   Eigen::SerializableLDLT train_covariance;
   Eigen::MatrixXd R;
-- 
2.43.0


From 72d8dcb0f6491a05d810a27ce2d65452e0e7d0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:27 +0000
Subject: [PATCH 09/33] fix: save all of a sparse matrix, not transposed

---
 include/albatross/src/cereal/eigen.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/albatross/src/cereal/eigen.hpp b/include/albatross/src/cereal/eigen.hpp
index 188b24a..81c6b22 100644
--- a/include/albatross/src/cereal/eigen.hpp
+++ b/include/albatross/src/cereal/eigen.hpp
@@ -169,7 +169,7 @@ inline void save(Archive &ar,
   const _StorageIndex rows = m.rows();
   const _StorageIndex cols = m.cols();
   const std::size_t nnz = albatross::cast::to_size(m.nonZeros());
-  const std::size_t size_bytes = nnz * sizeof(_Scalar);
+  const std::size_t size_bytes = nnz * sizeof(Eigen::Triplet<_Scalar>);
 
   std::vector<Eigen::Triplet<_Scalar>> elems;
   elems.reserve(nnz);
@@ -177,7 +177,7 @@ inline void save(Archive &ar,
     for (typename Eigen::SparseMatrix<_Scalar, _Options,
                                       _StorageIndex>::InnerIterator it(m, col);
          it; ++it) {
-      elems.emplace_back(it.col(), it.row(), it.value());
+      elems.emplace_back(it.row(), it.col(), it.value());
     }
   }
 
@@ -207,7 +207,7 @@ inline void load(Archive &ar,
   ar(CEREAL_NVP(cols));
   ar(CEREAL_NVP(nnz));
   ar(CEREAL_NVP(payload));
-  const std::size_t size_bytes = nnz * sizeof(_Scalar);
+  const std::size_t size_bytes = nnz * sizeof(Eigen::Triplet<_Scalar>);
 
   if (::cereal::traits::is_text_archive<Archive>::value) {
     payload = base64::decode(payload);
-- 
2.43.0


From f6b81a2ccd6c082311311fc3a7bd72f671aa0205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:32 +0000
Subject: [PATCH 10/33] fix: save and restore all of an LDLT decomposition

---
 .../src/cereal/serializable_ldlt.hpp          | 38 ++++++++++++++++++-
 .../albatross/src/eigen/serializable_ldlt.hpp | 15 ++++++++
 2 files changed, 51 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/cereal/serializable_ldlt.hpp b/include/albatross/src/cereal/serializable_ldlt.hpp
index a6b6fe6..a3412a7 100644
--- a/include/albatross/src/cereal/serializable_ldlt.hpp
+++ b/include/albatross/src/cereal/serializable_ldlt.hpp
@@ -19,16 +19,50 @@ template <typename Archive>
 inline void save(Archive &archive, const Eigen::SerializableLDLT &ldlt,
                  const std::uint32_t) {
   save_lower_triangle(archive, ldlt.matrix());
-  archive(cereal::make_nvp("transpositions", ldlt.transpositionsP()),
+  archive(cereal::make_nvp("transpositions", ldlt.transpositions()),
           cereal::make_nvp("is_initialized", ldlt.is_initialized()));
+  if (ldlt.is_initialized()) {
+    archive(cereal::make_nvp("l1_norm", ldlt.l1_norm()),
+            cereal::make_nvp("sign", static_cast<int>(ldlt.sign())),
+            cereal::make_nvp("info", static_cast<int>(ldlt.info())));
+  }
 }
 
 template <typename Archive>
 inline void load(Archive &archive, Eigen::SerializableLDLT &ldlt,
-                 const std::uint32_t) {
+                 const std::uint32_t version) {
   load_lower_triangle(archive, ldlt.mutable_matrix());
   archive(cereal::make_nvp("transpositions", ldlt.mutable_transpositions()),
           cereal::make_nvp("is_initialized", ldlt.mutable_is_initialized()));
+  if (!ldlt.is_initialized()) {
+    return;
+  }
+  if (version > 0) {
+    int sign;
+    int info;
+    archive(cereal::make_nvp("l1_norm", ldlt.mutable_l1_norm()),
+            cereal::make_nvp("sign", sign), cereal::make_nvp("info", info));
+    ldlt.mutable_sign() = static_cast<Eigen::internal::SignMatrix>(sign);
+    ldlt.mutable_info() = static_cast<Eigen::ComputationInfo>(info);
+  } else {
+    // Older archives don't hold these, but they follow from what is there.
+    const Eigen::VectorXd d = ldlt.vectorD();
+    const bool any_positive = (d.array() > 0.).any();
+    const bool any_negative = (d.array() < 0.).any();
+    ldlt.mutable_sign() =
+        any_positive ? (any_negative ? Eigen::internal::Indefinite
+                                     : Eigen::internal::PositiveSemiDef)
+                     : (any_negative ? Eigen::internal::NegativeSemiDef
+                                     : Eigen::internal::ZeroSign);
+    ldlt.mutable_info() = Eigen::Success;
+    ldlt.mutable_l1_norm() =
+        d.size() > 0 ? ldlt.reconstructedMatrix()
+                           .cwiseAbs()
+                           .colwise()
+                           .sum()
+                           .maxCoeff()
+                     : 0.;
+  }
 }
 
 } // namespace cereal
diff --git a/include/albatross/src/eigen/serializable_ldlt.hpp b/include/albatross/src/eigen/serializable_ldlt.hpp
index 5e9eace..4fefd4f 100644
--- a/include/albatross/src/eigen/serializable_ldlt.hpp
+++ b/include/albatross/src/eigen/serializable_ldlt.hpp
@@ -18,6 +18,8 @@ namespace Eigen {
 // See LDLT.h in Eigen for a detailed description of the decomposition
 class SerializableLDLT : public LDLT<MatrixXd, Lower> {
 public:
+  static const std::uint32_t serialization_version = 1;
+
   using RealScalar = double;
   using Scalar = double;
   using MatrixType = MatrixXd;
@@ -39,6 +41,11 @@ public:
     return this->m_transpositions;
   }
 
+  // Unlike transpositionsP() this can be used before initialization.
+  const LDLT<MatrixXd, Lower>::TranspositionType &transpositions() const {
+    return this->m_transpositions;
+  }
+
   LDLT<MatrixXd, Lower>::MatrixType &mutable_matrix() { return this->m_matrix; }
 
   LDLT<MatrixXd, Lower>::MatrixType matrix() const { return this->m_matrix; }
@@ -52,6 +59,14 @@ public:
     return this->m_l1_norm;
   }
 
+  double &mutable_l1_norm() { return this->m_l1_norm; }
+
+  Eigen::internal::SignMatrix sign() const { return this->m_sign; }
+
+  Eigen::internal::SignMatrix &mutable_sign() { return this->m_sign; }
+
+  Eigen::ComputationInfo &mutable_info() { return this->m_info; }
+
   /*
    * Computes the inverse of the square root of the diagonal, D^{-1/2}
    */
-- 
2.43.0


From c6189605f21ee45c606dfb8490c61be13213d41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:31 +0000
Subject: [PATCH 11/33] fix: compare the best iteration of RANSAC outputs

---
 include/albatross/src/models/ransac.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/models/ransac.hpp b/include/albatross/src/models/ransac.hpp
index 52d2421..6efad39 100644
--- a/include/albatross/src/models/ransac.hpp
+++ b/include/albatross/src/models/ransac.hpp
@@ -125,7 +125,7 @@ template <typename GroupKey> struct RansacOutput {
   std::vector<RansacIteration<GroupKey>> iterations;
 
   bool operator==(const RansacOutput &other) const {
-    return (return_code == other.return_code && best == best &&
+    return (return_code == other.return_code && best == other.best &&
             iterations == other.iterations);
   }
 };
-- 
2.43.0


From 878ab2fab435be561ba01d919aec5b3b6d8f8842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:48 +0000
Subject: [PATCH 12/33] fix: differential entropy counts the log determinant
 once

---
 include/albatross/src/evaluation/differential_entropy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/evaluation/differential_entropy.hpp b/include/albatross/src/evaluation/differential_entropy.hpp
index 2f184c8..d393c7e 100644
--- a/include/albatross/src/evaluation/differential_entropy.hpp
+++ b/include/albatross/src/evaluation/differential_entropy.hpp
@@ -38,7 +38,7 @@ inline double
 differential_entropy(const Eigen::LDLT<Eigen::MatrixXd> &cov_ldlt) {
   double k = cast::to_double(cov_ldlt.rows());
   double log_det = log_determinant_of_symmetric(cov_ldlt);
-  return 0.5 * (k * (1 + log(2 * M_PI) + log_det));
+  return 0.5 * (k * (1 + log(2 * M_PI)) + log_det);
 }
 
 inline double differential_entropy(const Eigen::MatrixXd &cov) {
-- 
2.43.0


From 1ccb3d26cdd50c7b4fff54c94b4a2589d95b61f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 13/33] fix: tune vectors of more than ten values in order

---
 include/albatross/src/tune/tune.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/tune/tune.hpp b/include/albatross/src/tune/tune.hpp
index 1135cae..ad28e42 100644
--- a/include/albatross/src/tune/tune.hpp
+++ b/include/albatross/src/tune/tune.hpp
@@ -82,8 +82,13 @@ inline nlopt::opt default_gradient_optimizer(
 
 inline ParameterStore uninformative_params(const std::vector<double> &values) {
   ParameterStore params;
+  // Parameters are sorted by name, the leading zeros make sure that's the
+  // same as the order of the values.
+  const std::size_t width = std::to_string(values.size() - 1).size();
   for (std::size_t i = 0; i < values.size(); ++i) {
-    params[std::to_string(i)] = {values[i], UninformativePrior()};
+    std::string name = std::to_string(i);
+    name.insert(0, width - name.size(), '0');
+    params[name] = {values[i], UninformativePrior()};
   }
   return params;
 }
-- 
2.43.0


From 023cb2b4182498b759e83dc95175fa82605cd3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 14/33] fix: step away from the upper bound in numerical
 gradients

---
 include/albatross/src/tune/finite_difference.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/albatross/src/tune/finite_difference.hpp b/include/albatross/src/tune/finite_difference.hpp
index 586aac3..17f9d57 100644
--- a/include/albatross/src/tune/finite_difference.hpp
+++ b/include/albatross/src/tune/finite_difference.hpp
@@ -55,12 +55,12 @@ compute_gradient(Function f, const ParameterStore &params, double f_val,
     if (std::isfinite(range)) {
       epsilon = 1e-8 * range;
     }
-    auto perturbed_params = get_perturbed(i, epsilon);
-
-    if (!params_are_valid(perturbed_params)) {
+    // The perturbed parameters are forced to lie within the bounds, so we have
+    // to step back from the upper bound.
+    if (tunable_params.values[i] + epsilon > tunable_params.upper_bounds[i]) {
       epsilon *= -1;
-      perturbed_params = get_perturbed(i, epsilon);
     }
+    const auto perturbed_params = get_perturbed(i, epsilon);
 
     double grad_i = (f(perturbed_params) - f_val) / epsilon;
 
-- 
2.43.0


From b69a5bff6b27533d12eca29ed0aee479742e75a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 15/33] fix: keep the precision of sampled parameters in
 checkpoints

std::to_string leaves six decimals, which turns a small parameter of a log
scale into zero, so initial_params_from_csv restarted somewhere else.
---
 include/albatross/src/samplers/callbacks.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/samplers/callbacks.hpp b/include/albatross/src/samplers/callbacks.hpp
index ab391e6..330353e 100644
--- a/include/albatross/src/samplers/callbacks.hpp
+++ b/include/albatross/src/samplers/callbacks.hpp
@@ -30,6 +30,13 @@ get_sampler_csv_columns(const ParameterStore &example) {
   return columns;
 }
 
+// Unlike std::to_string this keeps enough digits to recover the value.
+inline std::string to_full_precision_string(double value) {
+  std::ostringstream oss;
+  oss << std::setprecision(std::numeric_limits<double>::max_digits10) << value;
+  return oss.str();
+}
+
 inline void write_ensemble_sampler_state(
     std::ostream &stream, const ParameterStore &param_store,
     const EnsembleSamplerState &ensemble, std::size_t iteration,
@@ -40,10 +47,10 @@ inline void write_ensemble_sampler_state(
     const auto params =
         set_tunable_params_values(param_store, ensemble[i].params);
     for (const auto &param : params) {
-      row[param.first] = std::to_string(param.second.value);
+      row[param.first] = to_full_precision_string(param.second.value);
     }
     row["iteration"] = std::to_string(iteration);
-    row["log_probability"] = std::to_string(ensemble[i].log_prob);
+    row["log_probability"] = to_full_precision_string(ensemble[i].log_prob);
     row["ensemble_index"] = std::to_string(i);
     write_row(stream, row, columns);
   }
-- 
2.43.0


From c695894e3254e53b5a4045237b70c0e33161ba44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 16/33] fix: refuse sampler checkpoints that could not be read
 to the end

---
 include/albatross/src/samplers/initialization.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/albatross/src/samplers/initialization.hpp b/include/albatross/src/samplers/initialization.hpp
index 5eeb0b9..a941cda 100644
--- a/include/albatross/src/samplers/initialization.hpp
+++ b/include/albatross/src/samplers/initialization.hpp
@@ -73,6 +73,9 @@ initial_params_from_csv(std::istream &ss) {
     output.emplace_back(param_values);
   }
 
+  // A stream that fails ends the loop just like the end of the file does.
+  ALBATROSS_ASSERT(!ss.bad());
+
   return output;
 }
 
-- 
2.43.0


From 093c80f1c1977221ebb108b94f6032b2edff7daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 17/33] fix: do not take a failed allocation for a bad value
 when reading a checkpoint

---
 include/albatross/src/samplers/initialization.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/samplers/initialization.hpp b/include/albatross/src/samplers/initialization.hpp
index a941cda..85f0ca7 100644
--- a/include/albatross/src/samplers/initialization.hpp
+++ b/include/albatross/src/samplers/initialization.hpp
@@ -31,7 +31,8 @@ std::vector<double> parse_line(const std::string &line) {
   for (const auto &s : split_string(line, ',')) {
     try {
       output.push_back(std::stod(s));
-    } catch (...) {
+    } catch (const std::logic_error &) {
+      // Thrown by std::stod if there is no number, or it is out of range.
       output.push_back(NAN);
       std::cout << "BAD VALUE: " << s << std::endl;
     }
-- 
2.43.0


From 5f90bdb57191858cc6302f26a91442111cebc6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 18/33] fix: count the columns of a checkpoint before reading
 them

---
 include/albatross/src/samplers/initialization.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/samplers/initialization.hpp b/include/albatross/src/samplers/initialization.hpp
index 85f0ca7..ebdd73e 100644
--- a/include/albatross/src/samplers/initialization.hpp
+++ b/include/albatross/src/samplers/initialization.hpp
@@ -51,12 +51,14 @@ initial_params_from_csv(std::istream &ss) {
   ALBATROSS_ASSERT(std::getline(ss, line));
   const std::vector<std::string> columns = split_string(line, ',');
 
+  ALBATROSS_ASSERT(columns.size() >= 3);
   ALBATROSS_ASSERT(columns[0] == "iteration");
   ALBATROSS_ASSERT(columns[1] == "log_probability");
   ALBATROSS_ASSERT(columns[2] == "ensemble_index");
 
   while (std::getline(ss, line)) {
     const std::vector<double> values = parse_line(line);
+    ALBATROSS_ASSERT(values.size() == columns.size());
 
     // Only store the params from the last iteration in the file.
     if (values[0] > iteration) {
@@ -65,7 +67,6 @@ initial_params_from_csv(std::istream &ss) {
     }
 
     std::map<std::string, double> param_values;
-    ALBATROSS_ASSERT(values.size() == columns.size());
     // Skip the first three columns which contain metadata
     for (std::size_t i = 3; i < columns.size(); ++i) {
       param_values[columns[i]] = values[i];
-- 
2.43.0


From d0fef3e6b6a3e0317d1bc466b8d21a5ed4f8cb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:04 +0000
Subject: [PATCH 19/33] fix: write CSV files to streams that can not seek

Every row took back its last comma by seeking, which fails on a pipe (and for
data without columns) and leaves the stream bad: all further rows were lost.
---
 include/albatross/src/utils/csv_utils.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/albatross/src/utils/csv_utils.hpp b/include/albatross/src/utils/csv_utils.hpp
index 39b8a71..a175ffe 100644
--- a/include/albatross/src/utils/csv_utils.hpp
+++ b/include/albatross/src/utils/csv_utils.hpp
@@ -187,21 +187,32 @@ get_column_names(const RegressionDataset<FeatureType> &dataset,
 inline void write_row(std::ostream &stream,
                       const std::map<std::string, std::string> &row,
                       const std::vector<std::string> &columns) {
+  // Some streams (pipes for example) can't seek, so a comma which has been
+  // written can't be taken back.
+  bool first = true;
   for (const auto &col : columns) {
+    if (!first) {
+      stream << ",";
+    }
+    first = false;
     if (map_contains(row, col)) {
       stream << row.at(col);
     }
-    stream << ",";
   }
-  replace_last_character_with_newline(stream);
+  stream << std::endl;
 }
 
 inline void write_header(std::ostream &stream,
                          const std::vector<std::string> &columns) {
+  bool first = true;
   for (const auto &col : columns) {
-    stream << col << ",";
+    if (!first) {
+      stream << ",";
+    }
+    first = false;
+    stream << col;
   }
-  replace_last_character_with_newline(stream);
+  stream << std::endl;
 }
 
 template <typename FeatureType, typename DistributionType>
-- 
2.43.0


From 98f1cfd627fbbfe71af5f5d05ddc0a07220a5835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 20/33] fix: write the columns of all datasets to a CSV file

Only the columns of the first dataset were written, values in columns of
later ones (or all of them, if the first one is empty) were lost.
---
 include/albatross/src/utils/csv_utils.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/utils/csv_utils.hpp b/include/albatross/src/utils/csv_utils.hpp
index a175ffe..8ca57d6 100644
--- a/include/albatross/src/utils/csv_utils.hpp
+++ b/include/albatross/src/utils/csv_utils.hpp
@@ -257,9 +257,15 @@ inline void
 write_to_csv(std::ostream &stream,
              const std::vector<RegressionDataset<FeatureType>> &datasets,
              const std::vector<DistributionType> &predictions) {
-  const auto columns = get_column_names(datasets[0], predictions[0]);
-  write_header(stream, columns);
   ALBATROSS_ASSERT(datasets.size() == predictions.size());
+  // The datasets don't necessarily have the same columns.
+  std::set<std::string> keys;
+  for (std::size_t i = 0; i < datasets.size(); i++) {
+    const auto next_keys = get_column_names(datasets[i], predictions[i]);
+    keys.insert(next_keys.begin(), next_keys.end());
+  }
+  const std::vector<std::string> columns(keys.begin(), keys.end());
+  write_header(stream, columns);
   for (std::size_t i = 0; i < datasets.size(); i++) {
     write_to_csv(stream, datasets[i], predictions[i], columns);
   }
-- 
2.43.0


From df31cc7c4db33ab89a43069d814235082ef83adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 21/33] fix: print joint distributions on the stream that is
 given

---
 include/albatross/src/core/distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/core/distribution.hpp b/include/albatross/src/core/distribution.hpp
index 7fc7d26..f090580 100644
--- a/include/albatross/src/core/distribution.hpp
+++ b/include/albatross/src/core/distribution.hpp
@@ -299,7 +299,7 @@ inline std::ostream &operator<<(std::ostream &os,
                            joint.covariance.cols() + 1);
   combined.rightCols(joint.covariance.cols()) = joint.covariance;
   combined.col(0) = joint.mean;
-  std::cout << combined;
+  os << combined;
   return os;
 }
 
-- 
2.43.0


From 9506488948172c270ac63aa27fb81648c7edbb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 22/33] fix: undo the pivoting when drawing from a decomposed
 covariance

Eigen's LDLT gives P S P^T = L D L^T, so a draw with covariance S is
P^T L D^(1/2) z. The draws were permuted by P instead, which gave the
covariance to the wrong dimensions as soon as the pivoting is not its own
inverse.
---
 include/albatross/src/evaluation/prediction_metrics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/evaluation/prediction_metrics.hpp b/include/albatross/src/evaluation/prediction_metrics.hpp
index b2a7437..5af6486 100644
--- a/include/albatross/src/evaluation/prediction_metrics.hpp
+++ b/include/albatross/src/evaluation/prediction_metrics.hpp
@@ -206,7 +206,7 @@ Eigen::MatrixXd draw_mvn(const Eigen::LDLT<Eigen::MatrixXd> &decomp,
   ALBATROSS_ASSERT((decomp.vectorD().array() > 0.).all() &&
                    "Please pass a positive definite covariance!");
   std::normal_distribution<double> standard_normal{0.0, 1.0};
-  return (decomp.transpositionsP() *
+  return (decomp.transpositionsP().transpose() *
           (decomp.matrixL() *
            (decomp.vectorD().array().sqrt().matrix().asDiagonal() *
             Eigen::MatrixXd::NullaryExpr(
-- 
2.43.0


From 9d6a0f031962ee0bf0ab73999c83165588f07a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 23/33] fix: weigh both terms of the energy score alike

The first term is the norm of errors whose squares are weighted; the second
one weighted the differences before squaring them, so that the two terms were
those of different distributions and the score could be negative.
---
 include/albatross/src/evaluation/prediction_metrics.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/evaluation/prediction_metrics.hpp b/include/albatross/src/evaluation/prediction_metrics.hpp
index 5af6486..1220b36 100644
--- a/include/albatross/src/evaluation/prediction_metrics.hpp
+++ b/include/albatross/src/evaluation/prediction_metrics.hpp
@@ -248,7 +248,9 @@ inline double pairwise_errors_paired(const Eigen::MatrixXd &samples_a,
                    "Sample matrices must be the same size!");
   ALBATROSS_ASSERT(samples_a.cols() == samples_b.cols() &&
                    "Sample matrices must be the same size!");
-  return ((samples_a - samples_b).array().colwise() * weights.array())
+  ALBATROSS_ASSERT(samples_a.rows() == weights.size() &&
+                   "invalid sampling weights");
+  return ((samples_a - samples_b).array().colwise() * weights.array().sqrt())
       .matrix()
       .colwise()
       .norm()
-- 
2.43.0


From 97ca755e680bd74e09baf85a2319d36582cf4ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:46 +0000
Subject: [PATCH 24/33] fix: set a parameter in every component that has it

A sum or product whose two sides have a parameter of the same name (for
instance two squared exponential terms) reported the value of the right hand
side but only ever set the one on the left, so that setting and tuning such a
parameter had no visible effect.
---
 include/albatross/src/core/parameter_handling_mixin.hpp | 6 ++++--
 include/albatross/src/models/gp.hpp                     | 7 ++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/albatross/src/core/parameter_handling_mixin.hpp b/include/albatross/src/core/parameter_handling_mixin.hpp
index 24bb746..53de612 100644
--- a/include/albatross/src/core/parameter_handling_mixin.hpp
+++ b/include/albatross/src/core/parameter_handling_mixin.hpp
@@ -184,8 +184,10 @@ template <typename ParameterHandler, typename... Args,
 inline bool
 variadic_set_param_if_exists(const ParameterKey &key, const Parameter &param,
                              ParameterHandler *param_handler, Args... args) {
-  return (set_param_if_exists(key, param, param_handler) ||
-          variadic_set_param_if_exists(key, param, args...));
+  // Several handlers may have a parameter of this name, in which case it is one
+  // parameter as far as the user can tell, so don't stop at the first one.
+  const bool is_set = set_param_if_exists(key, param, param_handler);
+  return variadic_set_param_if_exists(key, param, args...) || is_set;
 }
 
 } // namespace details
diff --git a/include/albatross/src/models/gp.hpp b/include/albatross/src/models/gp.hpp
index 4219a43..9504b37 100644
--- a/include/albatross/src/models/gp.hpp
+++ b/include/albatross/src/models/gp.hpp
@@ -260,10 +260,11 @@ public:
 
   virtual void set_param(const std::string &name,
                          const Parameter &param) override {
+    const bool is_own = set_param_if_exists(name, param, &impl().params_);
     const bool success =
-        (set_param_if_exists(name, param, &impl().params_) ||
-         set_param_if_exists_in_any(name, param, &covariance_function_,
-                                    &mean_function_));
+        set_param_if_exists_in_any(name, param, &covariance_function_,
+                                   &mean_function_) ||
+        is_own;
     ALBATROSS_ASSERT(success);
   }
 
-- 
2.43.0


From 57b4ced7a1586de3829d1ed60247e2f2e321b6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:31 +0000
Subject: [PATCH 25/33] fix: refuse too few values for the tunable parameters

The number of values was compared with the number of parameters only after all
of them had been read, past the end of the vector.
---
 include/albatross/src/core/parameters.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/albatross/src/core/parameters.hpp b/include/albatross/src/core/parameters.hpp
index 8db0bab..7be608d 100644
--- a/include/albatross/src/core/parameters.hpp
+++ b/include/albatross/src/core/parameters.hpp
@@ -176,6 +176,8 @@ set_tunable_params_values(const ParameterStore &params,
   std::size_t i = 0;
   for (const auto &pair : params) {
     if (!pair.second.is_fixed()) {
+      // Make sure there is a value left for this parameter.
+      ALBATROSS_ASSERT(i < x.size());
       double v = x[i];
       const bool use_log_scale = pair.second.prior.is_log_scale();
       if (use_log_scale) {
-- 
2.43.0


From 6d1c3ce68f570b66de6b45bd96ffb319840f920c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:31 +0000
Subject: [PATCH 26/33] fix: give a null model the parameters it is constructed
 with

They were kept in a member that hid the one that get_params and set_param use,
so the model had no parameters.
---
 include/albatross/src/models/null_model.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/albatross/src/models/null_model.hpp b/include/albatross/src/models/null_model.hpp
index f8086e4..197caa7 100644
--- a/include/albatross/src/models/null_model.hpp
+++ b/include/albatross/src/models/null_model.hpp
@@ -29,7 +29,9 @@ template <> struct Fit<NullModel> {
 class NullModel : public ModelBase<NullModel> {
 public:
   NullModel() {}
-  NullModel(const ParameterStore &param_store) : params_(param_store) {}
+  NullModel(const ParameterStore &param_store) {
+    this->params_ = param_store;
+  }
 
   std::string get_name() const { return "null_model"; };
 
@@ -72,9 +74,6 @@ public:
     const Eigen::VectorXd diag = 1.e4 * Eigen::VectorXd::Ones(en);
     return MarginalDistribution(mean, diag.asDiagonal());
   }
-
-private:
-  ParameterStore params_;
 };
 
 } // namespace albatross
-- 
2.43.0


From 966a273a5de261c78a0d6548fdf034783958d3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:31 +0000
Subject: [PATCH 27/33] fix: compare the bounds of uniform priors

They were compared by name, which has six digits of each bound, so that
different priors were taken for the same.
---
 include/albatross/src/core/priors.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/albatross/src/core/priors.hpp b/include/albatross/src/core/priors.hpp
index 978aa34..a3aed85 100644
--- a/include/albatross/src/core/priors.hpp
+++ b/include/albatross/src/core/priors.hpp
@@ -80,6 +80,10 @@ public:
     ALBATROSS_ASSERT(upper_ > lower_);
   };
 
+  bool operator==(const UniformPrior &other) const {
+    return other.lower_ == lower_ && other.upper_ == upper_;
+  }
+
   std::string get_name() const override {
     std::ostringstream oss;
     oss << "uniform[" << lower_ << "," << upper_ << "]";
-- 
2.43.0


From 4e7ca1a0336e7a2bdb8658f3330bcabb26e64464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:30 +0000
Subject: [PATCH 28/33] fix: a prediction with measurement noise from an rvalue
 fit owns the fit

---
 include/albatross/src/core/fit_model.hpp | 25 ++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/albatross/src/core/fit_model.hpp b/include/albatross/src/core/fit_model.hpp
index c0da05c..716b952 100644
--- a/include/albatross/src/core/fit_model.hpp
+++ b/include/albatross/src/core/fit_model.hpp
@@ -53,12 +53,15 @@ public:
 
   template <typename PredictFeatureType>
   auto predict_with_measurement_noise(
-      const std::vector<PredictFeatureType> &features) const {
-    std::vector<Measurement<PredictFeatureType>> measurements;
-    for (const auto &f : features) {
-      measurements.emplace_back(Measurement<PredictFeatureType>(f));
-    }
-    return predict(measurements);
+      const std::vector<PredictFeatureType> &features) const & {
+    return predict(with_measurement_noise(features));
+  }
+
+  // A prediction made from an rvalue needs to own the fit it was made from.
+  template <typename PredictFeatureType>
+  auto predict_with_measurement_noise(
+      const std::vector<PredictFeatureType> &features) && {
+    return std::move(*this).predict(with_measurement_noise(features));
   }
 
   template <
@@ -109,6 +112,16 @@ public:
   }
 
 private:
+  template <typename PredictFeatureType>
+  static std::vector<Measurement<PredictFeatureType>>
+  with_measurement_noise(const std::vector<PredictFeatureType> &features) {
+    std::vector<Measurement<PredictFeatureType>> measurements;
+    for (const auto &f : features) {
+      measurements.emplace_back(Measurement<PredictFeatureType>(f));
+    }
+    return measurements;
+  }
+
   ModelType model_;
   Fit fit_;
 };
-- 
2.43.0


From 0fbb6ee6ea7d4777fd976eee0abaae558bfb9718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:30 +0000
Subject: [PATCH 29/33] fix: Constant is only defined directly for basic types

---
 include/albatross/src/covariance_functions/polynomials.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/covariance_functions/polynomials.hpp b/include/albatross/src/covariance_functions/polynomials.hpp
index 1c39d63..4840fe2 100644
--- a/include/albatross/src/covariance_functions/polynomials.hpp
+++ b/include/albatross/src/covariance_functions/polynomials.hpp
@@ -52,8 +52,13 @@ public:
    *     sigma_mean^2 * ones(m, n)
    * which is saying all observations are perfectly correlated,
    * so you can move one if you move the rest the same amount.
+   *
+   * It is only defined directly for basic types, composite types (such as
+   * LinearCombination) need to be unpacked by the callers first.
    */
-  template <typename X, typename Y>
+  template <typename X, typename Y,
+            typename std::enable_if_t<
+                is_basic_type<X>::value && is_basic_type<Y>::value, int> = 0>
   double _call_impl(const X &x __attribute__((unused)),
                     const Y &y __attribute__((unused))) const {
     return sigma_constant.value * sigma_constant.value;
-- 
2.43.0


From 9aaf3061ce858f3d746c6b45711c094ac09a6dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:30 +0000
Subject: [PATCH 30/33] fix: ScalingTerm scales measurements of the types it is
 defined for

---
 .../src/covariance_functions/scaling_function.hpp         | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/covariance_functions/scaling_function.hpp b/include/albatross/src/covariance_functions/scaling_function.hpp
index 62351ec..e7b1436 100644
--- a/include/albatross/src/covariance_functions/scaling_function.hpp
+++ b/include/albatross/src/covariance_functions/scaling_function.hpp
@@ -87,11 +87,14 @@ public:
   }
 
   /*
-   * If only one of the types has a scaling function we ignore the other.
+   * If only one of the types has a scaling function we ignore the other, unless
+   * the other is a composite type (such as Measurement), in which case a scaling
+   * function may be defined for the type it wraps.
    */
   template <typename X, typename Y,
             typename std::enable_if<
                 (!has_valid_call_impl<ScalingFunction, X &>::value &&
+                 is_basic_type<X>::value &&
                  has_valid_call_impl<ScalingFunction, Y &>::value),
                 int>::type = 0>
   double _call_impl(const X &, const Y &y) const {
@@ -101,7 +104,8 @@ public:
   template <typename X, typename Y,
             typename std::enable_if<
                 (has_valid_call_impl<ScalingFunction, X &>::value &&
-                 !has_valid_call_impl<ScalingFunction, Y &>::value),
+                 !has_valid_call_impl<ScalingFunction, Y &>::value &&
+                 is_basic_type<Y>::value),
                 int>::type = 0>
   double _call_impl(const X &x, const Y &) const {
     return this->scaling_function_._call_impl(x);
-- 
2.43.0


From 2a394997e59ab1e0dba774eb836771366da5fa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:30 +0000
Subject: [PATCH 31/33] fix: compose mean functions of basic types only

---
 .../covariance_functions/mean_function.hpp    | 40 +++++++++++--------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/include/albatross/src/covariance_functions/mean_function.hpp b/include/albatross/src/covariance_functions/mean_function.hpp
index ea0f541..615d367 100644
--- a/include/albatross/src/covariance_functions/mean_function.hpp
+++ b/include/albatross/src/covariance_functions/mean_function.hpp
@@ -163,12 +163,13 @@ public:
   }
 
   /*
-   * If both LHS and RHS have a valid call method for the types X and Y
-   * this will return the sum of the two.
+   * If both LHS and RHS have an equivalent call method for the type X this will
+   * return the sum of the two. As with covariance functions composite types
+   * (such as LinearCombination) get unpacked by the callers first.
    */
   template <typename X,
-            typename std::enable_if<(has_valid_caller<LHS, X>::value &&
-                                     has_valid_caller<RHS, X>::value),
+            typename std::enable_if<(has_equivalent_caller<LHS, X>::value &&
+                                     has_equivalent_caller<RHS, X>::value),
                                     int>::type = 0>
   double _call_impl(const X &x) const {
     return this->lhs_(x) + this->rhs_(x);
@@ -178,8 +179,8 @@ public:
    * If only LHS has a valid call method we ignore R.
    */
   template <typename X,
-            typename std::enable_if<(has_valid_caller<LHS, X>::value &&
-                                     !has_valid_caller<RHS, X>::value),
+            typename std::enable_if<(has_equivalent_caller<LHS, X>::value &&
+                                     !has_equivalent_caller<RHS, X>::value),
                                     int>::type = 0>
   double _call_impl(const X &x) const {
     return this->lhs_(x);
@@ -189,8 +190,8 @@ public:
    * If only RHS has a valid call method we ignore L.
    */
   template <typename X,
-            typename std::enable_if<(!has_valid_caller<LHS, X>::value &&
-                                     has_valid_caller<RHS, X>::value),
+            typename std::enable_if<(!has_equivalent_caller<LHS, X>::value &&
+                                     has_equivalent_caller<RHS, X>::value),
                                     int>::type = 0>
   double _call_impl(const X &x) const {
     return this->rhs_(x);
@@ -228,12 +229,13 @@ public:
   }
 
   /*
-   * If both LHS and RHS have a valid call method for the types X and Y
-   * this will return the product of the two.
+   * If both LHS and RHS have an equivalent call method for the type X this will
+   * return the product of the two. A product is not linear, so composite types
+   * (such as LinearCombination) need to be unpacked by the callers first.
    */
   template <typename X,
-            typename std::enable_if<(has_valid_caller<LHS, X>::value &&
-                                     has_valid_caller<RHS, X>::value),
+            typename std::enable_if<(has_equivalent_caller<LHS, X>::value &&
+                                     has_equivalent_caller<RHS, X>::value),
                                     int>::type = 0>
   double _call_impl(const X &x) const {
     double output = this->lhs_(x);
@@ -247,8 +249,8 @@ public:
    * If only LHS has a valid call method we ignore R.
    */
   template <typename X,
-            typename std::enable_if<(has_valid_caller<LHS, X>::value &&
-                                     !has_valid_caller<RHS, X>::value),
+            typename std::enable_if<(has_equivalent_caller<LHS, X>::value &&
+                                     !has_equivalent_caller<RHS, X>::value),
                                     int>::type = 0>
   double _call_impl(const X &x) const {
     return this->lhs_(x);
@@ -258,8 +260,8 @@ public:
    * If only RHS has a valid call method we ignore L.
    */
   template <typename X,
-            typename std::enable_if<(!has_valid_caller<LHS, X>::value &&
-                                     has_valid_caller<RHS, X>::value),
+            typename std::enable_if<(!has_equivalent_caller<LHS, X>::value &&
+                                     has_equivalent_caller<RHS, X>::value),
                                     int>::type = 0>
   double _call_impl(const X &x) const {
     return this->rhs_(x);
@@ -272,7 +274,11 @@ protected:
 };
 
 struct ZeroMean : public MeanFunction<ZeroMean> {
-  template <typename X> double _call_impl(const X &) const { return 0.; }
+  template <typename X,
+            typename std::enable_if_t<is_basic_type<X>::value, int> = 0>
+  double _call_impl(const X &) const {
+    return 0.;
+  }
 };
 
 template <typename Derived>
-- 
2.43.0


From 65bb1c8d519e47930ce078ae2c8bf4515132e8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:43 +0000
Subject: [PATCH 32/33] fix: comparing factorizations of different sizes, or
 one uninitialized, failed an assertion

---
 .../albatross/src/covariance_functions/representations.hpp | 3 ++-
 include/albatross/src/eigen/serializable_ldlt.hpp          | 7 +++++--
 include/albatross/src/linalg/block_symmetric.hpp           | 3 ++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/albatross/src/covariance_functions/representations.hpp b/include/albatross/src/covariance_functions/representations.hpp
index f883aa8..b0b4ec0 100644
--- a/include/albatross/src/covariance_functions/representations.hpp
+++ b/include/albatross/src/covariance_functions/representations.hpp
@@ -108,7 +108,8 @@ struct DirectInverse {
   }
 
   bool operator==(const DirectInverse &rhs) const {
-    return (inverse_ == rhs.inverse_);
+    return (rows() == rhs.rows() && cols() == rhs.cols() &&
+            inverse_ == rhs.inverse_);
   }
 
   Eigen::Index rows() const { return inverse_.rows(); }
diff --git a/include/albatross/src/eigen/serializable_ldlt.hpp b/include/albatross/src/eigen/serializable_ldlt.hpp
index 4fefd4f..7a3c559 100644
--- a/include/albatross/src/eigen/serializable_ldlt.hpp
+++ b/include/albatross/src/eigen/serializable_ldlt.hpp
@@ -216,8 +216,11 @@ public:
   bool operator==(const SerializableLDLT &rhs) const {
     // Make sure the two lower triangles are the same and that
     // any permutations are identical.
-    if (!this->m_isInitialized && !rhs.m_isInitialized) {
-      return true;
+    if (!this->m_isInitialized || !rhs.m_isInitialized) {
+      return this->m_isInitialized == rhs.m_isInitialized;
+    }
+    if (this->rows() != rhs.rows()) {
+      return false;
     }
     auto this_lower =
         MatrixXd(MatrixXd(this->matrixLDLT()).triangularView<Eigen::Lower>());
diff --git a/include/albatross/src/linalg/block_symmetric.hpp b/include/albatross/src/linalg/block_symmetric.hpp
index e89170c..c17d6b1 100644
--- a/include/albatross/src/linalg/block_symmetric.hpp
+++ b/include/albatross/src/linalg/block_symmetric.hpp
@@ -105,7 +105,8 @@ inline Eigen::Matrix<_Scalar, _Rows, _Cols> BlockSymmetric<Solver>::solve(
 template <typename Solver>
 inline bool
 BlockSymmetric<Solver>::operator==(const BlockSymmetric &rhs) const {
-  return (A == rhs.A && Ai_B == rhs.Ai_B && S == rhs.S);
+  // Ai_B is compared last, its size is given by those of A and S.
+  return (A == rhs.A && S == rhs.S && Ai_B == rhs.Ai_B);
 }
 
 template <typename Solver>
-- 
2.43.0


From 8f64fe9dbffc53db4c704464b67d5e6728385625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:43 +0000
Subject: [PATCH 33/33] fix: the log densities of the Gaussian and log normal
 priors

---
 include/albatross/src/core/priors.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/albatross/src/core/priors.hpp b/include/albatross/src/core/priors.hpp
index a3aed85..0c307e6 100644
--- a/include/albatross/src/core/priors.hpp
+++ b/include/albatross/src/core/priors.hpp
@@ -138,7 +138,7 @@ public:
 
   double log_pdf(double x) const override {
     double deviation = (x - mu_) / sigma_;
-    return -0.5 * (LOG_2PI_ * 2 * log(sigma_) + deviation * deviation);
+    return -0.5 * (LOG_2PI_ + 2 * log(sigma_) + deviation * deviation);
   }
 
   double mu_;
@@ -166,7 +166,7 @@ public:
 
   double log_pdf(double x) const override {
     double deviation = (x - mu_) / sigma_;
-    return -0.5 * (LOG_2PI_ * 2 * log(sigma_) + deviation * deviation) + LOG_2_;
+    return -0.5 * (LOG_2PI_ + 2 * log(sigma_) + deviation * deviation) + LOG_2_;
   }
 
   double mu_;
@@ -189,7 +189,7 @@ public:
 
   double log_pdf(double x) const override {
     double deviation = (log(x) - mu_) / sigma_;
-    return -0.5 * LOG_2PI_ - log(sigma_) - log(x) - deviation * deviation;
+    return -0.5 * (LOG_2PI_ + deviation * deviation) - log(sigma_) - log(x);
   }
 
   double mu_;
-- 
2.43.0

