From 0808d9be00ae04c581f05840b2059f0776da0d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:55 +0000
Subject: [PATCH 01/31] fix: reject advance() before initialize() and after
 finalize() with an error instead of dereferencing a null profiling event

---
 src/precice/impl/ParticipantImpl.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/precice/impl/ParticipantImpl.cpp b/src/precice/impl/ParticipantImpl.cpp
index f57d477..2b97bf9 100644
--- a/src/precice/impl/ParticipantImpl.cpp
+++ b/src/precice/impl/ParticipantImpl.cpp
@@ -398,15 +398,16 @@ void ParticipantImpl::advance(
   // Enforce that all user-created events are stopped to prevent incorrect nesting.
   PRECICE_CHECK(_userEvents.empty(), "There are unstopped user defined events. Please stop them using stopLastProfilingSection() before calling advance().");
 
+  PRECICE_CHECK(_state != State::Constructed, "initialize() has to be called before advance().");
+  PRECICE_CHECK(_state != State::Finalized, "advance() cannot be called after finalize().");
+  PRECICE_CHECK(_state == State::Initialized, "initialize() has to be called before advance().");
+
   // Events for the solver time, stopped when we enter, restarted when we leave advance
   PRECICE_ASSERT(_solverAdvanceEvent, "The advance event is created in initialize");
   _solverAdvanceEvent->stop();
 
   Event e("advance", profiling::Fundamental, profiling::Synchronize);
 
-  PRECICE_CHECK(_state != State::Constructed, "initialize() has to be called before advance().");
-  PRECICE_CHECK(_state != State::Finalized, "advance() cannot be called after finalize().");
-  PRECICE_CHECK(_state == State::Initialized, "initialize() has to be called before advance().");
   PRECICE_ASSERT(_couplingScheme->isInitialized());
   PRECICE_CHECK(isCouplingOngoing(), "advance() cannot be called when isCouplingOngoing() returns false.");
 
-- 
2.43.0


From e28d7505ddd3511bf193f6b0cc87726e1a01d54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:10 +0000
Subject: [PATCH 02/31] fix: reject mesh and data API calls after finalize()
 with an error instead of dereferencing the released participant

---
 src/precice/impl/ValidationMacros.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/precice/impl/ValidationMacros.hpp b/src/precice/impl/ValidationMacros.hpp
index 5228d9e..50560c1 100644
--- a/src/precice/impl/ValidationMacros.hpp
+++ b/src/precice/impl/ValidationMacros.hpp
@@ -15,9 +15,10 @@
  * @attention Do not use this macro directly!
  */
 #include "utils/stacktrace.hpp"
-#define PRECICE_VALIDATE_MESH_NAME_IMPL(name)                     \
-  PRECICE_CHECK(_accessor->hasMesh(name),                         \
-                "The mesh named \"{}\" is unknown to preCICE.{}", \
+#define PRECICE_VALIDATE_MESH_NAME_IMPL(name)                                                     \
+  PRECICE_CHECK(_state != State::Finalized, "{}() cannot be called after finalize().", __func__); \
+  PRECICE_CHECK(_accessor->hasMesh(name),                                                         \
+                "The mesh named \"{}\" is unknown to preCICE.{}",                                 \
                 name, _accessor->hintForMesh(name));
 
 /** Implementation of PRECICE_REQUIRE_MESH_USE()
@@ -107,8 +108,9 @@
  *
  * @attention Do not use this macro directly!
  */
-#define PRECICE_VALIDATE_DATA_NAME_IMPL(mesh, data) \
-  PRECICE_CHECK(_accessor->hasData(mesh, data),     \
+#define PRECICE_VALIDATE_DATA_NAME_IMPL(mesh, data)                                               \
+  PRECICE_CHECK(_state != State::Finalized, "{}() cannot be called after finalize().", __func__); \
+  PRECICE_CHECK(_accessor->hasData(mesh, data),                                                   \
                 "The given data \"{}\" is unknown to preCICE mesh \"{}\".{}", data, mesh, _accessor->hintForMeshData(mesh, data));
 
 /** Implementation of PRECICE_REQUIRE_DATA_READ()
-- 
2.43.0


From 5bf7aa5ef3292e34dd51458ef4da100405ce854c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 03/31] fix: limit the receive time of the final time window to
 the maximum time

With data exchanged only at the end of time windows, the second participant of a serial coupling scheme stored the sample of a final window truncated by max-time at the end of the untruncated window: reads inside that window interpolated towards the wrong time, and the next implicit iteration stored a second sample before it.
---
 src/cplscheme/BaseCouplingScheme.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cplscheme/BaseCouplingScheme.cpp b/src/cplscheme/BaseCouplingScheme.cpp
index 5ea18b9..f6eb9f8 100644
--- a/src/cplscheme/BaseCouplingScheme.cpp
+++ b/src/cplscheme/BaseCouplingScheme.cpp
@@ -209,7 +209,8 @@ void BaseCouplingScheme::receiveDataForWindowEnd(const m2n::PtrM2N &m2n, const D
   // buffer current time
   const impl::TimeHandler oldTime = _time;
   // set _time state to point to end of this window such that _time in receiveData is at end of window
-  _time.progressBy(_nextTimeWindowSize);
+  // the final time window may be truncated by the maximum time
+  _time.progressBy(std::min(_nextTimeWindowSize, _time.untilEnd()));
   // receive data for end of window
   this->receiveData(m2n, receiveData);
   // reset time state;
-- 
2.43.0


From 47cc589bf9c2b0d1655e8c342e6ff32bda07a5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:30 +0000
Subject: [PATCH 04/31] fix: accept a preconditioner for Aitken acceleration

The tag has no attribute update-on-threshold, so that reading it aborted
the configuration.
---
 src/acceleration/config/AccelerationConfiguration.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/acceleration/config/AccelerationConfiguration.cpp b/src/acceleration/config/AccelerationConfiguration.cpp
index 0bda69a..1b29400 100644
--- a/src/acceleration/config/AccelerationConfiguration.cpp
+++ b/src/acceleration/config/AccelerationConfiguration.cpp
@@ -252,7 +252,8 @@ void AccelerationConfiguration::xmlTagCallback(
   } else if (callingTag.getName() == TAG_PRECONDITIONER) {
     _userDefinitions.definedPreconditionerType = true;
     _config.preconditionerType                 = callingTag.getStringAttributeValue(ATTR_TYPE);
-    _config.preconditionerUpdateOnThreshold    = callingTag.getBooleanAttributeValue(ATTR_PRECOND_UPDATE_ON_THRESHOLD);
+    // The Aitken preconditioner doesn't have this attribute
+    _config.preconditionerUpdateOnThreshold    = callingTag.getBooleanAttributeValue(ATTR_PRECOND_UPDATE_ON_THRESHOLD, true);
     _config.preconditionerNbNonConstTWindows   = callingTag.getIntAttributeValue(ATTR_PRECOND_NONCONST_TIME_WINDOWS);
   } else if (callingTag.getName() == TAG_IMVJRESTART) {
     _userDefinitions.defineRestartType = true;
-- 
2.43.0


From 16bd00aead04b0185d55430d24924116d3b9fa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:30 +0000
Subject: [PATCH 05/31] fix: keep the Aitken factor if the residual does not
 change

The factor was 0/0 in this case, e.g. for data at rest and a minimum
number of iterations, which turned all coupling data into NaN.
---
 src/acceleration/AitkenAcceleration.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/acceleration/AitkenAcceleration.cpp b/src/acceleration/AitkenAcceleration.cpp
index d45ca52..d86aac3 100644
--- a/src/acceleration/AitkenAcceleration.cpp
+++ b/src/acceleration/AitkenAcceleration.cpp
@@ -95,7 +95,10 @@ void AitkenAcceleration::performAcceleration(
     // compute fraction of aitken factor with residuals and residual deltas
     double nominator   = utils::IntraComm::dot(_oldResiduals, residualDeltas);
     double denominator = utils::IntraComm::dot(residualDeltas, residualDeltas);
-    _aitkenFactor      = -_aitkenFactor * (nominator / denominator);
+    // Residuals that did not change at all carry no information, keep the current factor in this case
+    if (denominator > 0.0) {
+      _aitkenFactor = -_aitkenFactor * (nominator / denominator);
+    }
   }
 
   PRECICE_DEBUG("AitkenFactor: {}", _aitkenFactor);
-- 
2.43.0


From 7205dc41866049e9224ac588102387df611194fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:33 +0000
Subject: [PATCH 06/31] fix: respect the data scaling configured for Aitken
 acceleration

---
 src/acceleration/config/AccelerationConfiguration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acceleration/config/AccelerationConfiguration.cpp b/src/acceleration/config/AccelerationConfiguration.cpp
index 1b29400..23736bf 100644
--- a/src/acceleration/config/AccelerationConfiguration.cpp
+++ b/src/acceleration/config/AccelerationConfiguration.cpp
@@ -205,7 +205,7 @@ void AccelerationConfiguration::xmlTagCallback(
     _meshName      = callingTag.getStringAttributeValue(ATTR_MESH);
     double scaling = 1.0;
 
-    if (_config.type == VALUE_IQNILS || _config.type == VALUE_IQNIMVJ) {
+    if (_config.type == VALUE_AITKEN || _config.type == VALUE_IQNILS || _config.type == VALUE_IQNIMVJ) {
       scaling = callingTag.getDoubleAttributeValue(ATTR_SCALING);
     }
 
-- 
2.43.0


From a9b2689725de39416297dae54b131ec79a343c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:20 +0000
Subject: [PATCH 07/31] fix: map zero values with non-zero gradients during
 initialization

---
 src/precice/impl/DataContext.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/precice/impl/DataContext.cpp b/src/precice/impl/DataContext.cpp
index 19a51c8..f21902f 100644
--- a/src/precice/impl/DataContext.cpp
+++ b/src/precice/impl/DataContext.cpp
@@ -150,7 +150,8 @@ int DataContext::mapData(std::optional<double> after, bool skipZero)
           Eigen::VectorXd::Zero(dataDims * mapping.getOutputMesh()->nVertices())};
 
       // Note that the l2norm is only computed during initialization due to short-circuit evaluation in C++
-      bool skipMapping = skipZero && (utils::IntraComm::l2norm(stample.sample.values) < math::NUMERICAL_ZERO_DIFFERENCE);
+      // Zero values may still have non-zero gradients, which contribute to the mapped values
+      bool skipMapping = skipZero && !mapping.requiresGradientData() && (utils::IntraComm::l2norm(stample.sample.values) < math::NUMERICAL_ZERO_DIFFERENCE);
 
       PRECICE_INFO("Mapping \"{}\" for t={} from \"{}\" to \"{}\"{}",
                    getDataName(), stample.timestamp, mapping.getInputMesh()->getName(), mapping.getOutputMesh()->getName(),
-- 
2.43.0


From 8f1b28eb61a5f4f8760ef74463cb27ef393dfb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:46 +0000
Subject: [PATCH 08/31] fix: solve the separate RBF polynomial with fewer
 vertices than polynomial parameters

The condition number of a wide matrix is computed from its smallest singular
value among min(rows, cols), so underdetermined systems were accepted: the
polynomial did not reproduce constants and sums were not conserved.
Reduce the polynomial in this case as for any other degenerate distribution.
---
 src/mapping/RadialBasisFctSolver.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mapping/RadialBasisFctSolver.hpp b/src/mapping/RadialBasisFctSolver.hpp
index 30ee5c9..6481b9f 100644
--- a/src/mapping/RadialBasisFctSolver.hpp
+++ b/src/mapping/RadialBasisFctSolver.hpp
@@ -392,8 +392,9 @@ RadialBasisFctSolver<RADIAL_BASIS_FUNCTION_T>::RadialBasisFctSolver(RADIAL_BASIS
       const double conditionNumber = svd.singularValues()(0) / std::max(svd.singularValues()(svd.singularValues().size() - 1), math::NUMERICAL_ZERO_DIFFERENCE);
       PRECICE_DEBUG("Condition number: {}", conditionNumber);
 
-      // Disable one axis
-      if (conditionNumber > 1e5) {
+      // Disable one axis: the polynomial is not uniquely defined if there are fewer vertices than parameters,
+      // which the singular values alone don't reveal
+      if (_matrixQ.rows() < _matrixQ.cols() || conditionNumber > 1e5) {
         reduceActiveAxis(inputMesh, inputIDs, _localActiveAxis);
         polyParams = getNumberOfPolynomials();
       } else {
-- 
2.43.0


From a8e666b5e56788e6abb2371a55635fcf8a2ad941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:40 +0000
Subject: [PATCH 09/31] fix: check and enforce data bounds on all samples of
 the time window in quasi-Newton accelerations

The concatenated values contain all the samples of the time window, but the
size of one sample was used as segment size. Samples but the first were not
checked and the values of other data were clamped or scaled instead.
---
 src/acceleration/BaseQNAcceleration.cpp | 16 +++++++++++++---
 src/acceleration/BaseQNAcceleration.hpp |  6 ++++++
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/acceleration/BaseQNAcceleration.cpp b/src/acceleration/BaseQNAcceleration.cpp
index 59ce142..2891073 100644
--- a/src/acceleration/BaseQNAcceleration.cpp
+++ b/src/acceleration/BaseQNAcceleration.cpp
@@ -114,6 +114,12 @@ void BaseQNAcceleration::initialize(
   _firstTimeWindow = true;
 }
 
+Eigen::Index BaseQNAcceleration::getSegmentSize(DataID id, const DataMap &cplData) const
+{
+  auto samples = _samplesPerWindow.find(id);
+  return cplData.at(id)->values().size() * (samples == _samplesPerWindow.end() ? 1 : samples->second);
+}
+
 std::vector<DataID> BaseQNAcceleration::checkBoundViolation(Eigen::VectorXd &data, DataMap &cplData) const
 {
   Eigen::Index        offset       = 0;
@@ -121,7 +127,7 @@ std::vector<DataID> BaseQNAcceleration::checkBoundViolation(Eigen::VectorXd &dat
 
   // check for bound violations
   for (auto id : _dataIDs) {
-    Eigen::Index size = cplData.at(id)->values().size();
+    Eigen::Index size = getSegmentSize(id, cplData);
 
     if (std::find(_idsWithBounds.begin(), _idsWithBounds.end(), id) == _idsWithBounds.end()) {
       offset += size;
@@ -152,7 +158,7 @@ void BaseQNAcceleration::onBoundViolationsClamp(Eigen::VectorXd &data, DataMap &
 {
   Eigen::Index offset = 0;
   for (auto id : _dataIDs) {
-    Eigen::Index size = cplData.at(id)->values().size();
+    Eigen::Index size = getSegmentSize(id, cplData);
 
     if (std::find(violatingIDs.begin(), violatingIDs.end(), id) == violatingIDs.end()) {
       offset += size;
@@ -179,7 +185,7 @@ void BaseQNAcceleration::onBoundViolationsScale(Eigen::VectorXd &data, DataMap &
   double       scaleStep = 0.0;
 
   for (auto id : _dataIDs) {
-    Eigen::Index size = cplData.at(id)->values().size();
+    Eigen::Index size = getSegmentSize(id, cplData);
 
     if (std::find(violatingIDs.begin(), violatingIDs.end(), id) == violatingIDs.end()) {
       offset += size;
@@ -855,6 +861,10 @@ void BaseQNAcceleration::initializeVectorsAndPreconditioner(const DataMap &cplDa
   _timeGrids.emplace(cplData, _dataIDs, false);
   _primaryTimeGrids.emplace(cplData, _primaryDataIDs, _reducedTimeGrid);
 
+  for (auto id : _dataIDs) {
+    _samplesPerWindow[id] = _timeGrids->getTimeGridAfter(id, windowStart).size();
+  }
+
   // Helper function
   auto addTimeSliceSize = [&](size_t sum, int id, precice::time::TimeGrids timeGrids) { return sum + timeGrids.getTimeGridAfter(id, windowStart).size() * cplData.at(id)->getSize(); };
 
diff --git a/src/acceleration/BaseQNAcceleration.hpp b/src/acceleration/BaseQNAcceleration.hpp
index 295589d..82d2eb5 100644
--- a/src/acceleration/BaseQNAcceleration.hpp
+++ b/src/acceleration/BaseQNAcceleration.hpp
@@ -333,6 +333,12 @@ private:
   /// @brief Samples and concatenates the data and old data in cplData into a long vector
   void concatenateCouplingData(Eigen::VectorXd &data, Eigen::VectorXd &oldData, const DataMap &cplData, std::vector<int> dataIDs, precice::time::TimeGrids timeGrids, double windowStart) const;
 
+  /// @brief Size of the segment which a data occupies in the concatenated data: all its samples of the time window
+  Eigen::Index getSegmentSize(DataID id, const DataMap &cplData) const;
+
+  /// @brief Number of samples per time window of every data in the QN system
+  std::map<DataID, Eigen::Index> _samplesPerWindow;
+
   /// @brief Stores the time grids to which the primary and secondary data involved in the QN system will be interpolated to.
   std::optional<time::TimeGrids> _timeGrids;
 
-- 
2.43.0


From eeaaa72f209c7613cc8c0036511250dba2037482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:40 +0000
Subject: [PATCH 10/31] fix: never shorten a quasi-Newton step by more than its
 length

For values at their bound, round-off led to a factor slightly larger than one
and thus to a failing assertion, for values beyond their bound the step was
reversed.
---
 src/acceleration/BaseQNAcceleration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acceleration/BaseQNAcceleration.cpp b/src/acceleration/BaseQNAcceleration.cpp
index 2891073..af46e9e 100644
--- a/src/acceleration/BaseQNAcceleration.cpp
+++ b/src/acceleration/BaseQNAcceleration.cpp
@@ -259,8 +259,8 @@ double BaseQNAcceleration::computeShorteningFactor(Eigen::Map<Eigen::MatrixXd> &
     }
   }
   PRECICE_ASSERT(scaleStep >= 0.0);
-  PRECICE_ASSERT(scaleStep <= 1.0);
-  return scaleStep;
+  // At most the entire step can be dropped. Round-off or values violating the bound already before the step could lead to more.
+  return std::min(scaleStep, 1.0);
 }
 /** ---------------------------------------------------------------------------------------------
  *         updateDifferenceMatrices()
-- 
2.43.0


From cce5f2b840b7a487051a84a19e4b382fd637a186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:08 +0000
Subject: [PATCH 11/31] fix: keep the least-squares system consistent if
 columns cannot be inserted into the QR-decomposition

With a QR1 filter, a system with as many columns as unknowns lost the newest
column in the QR-decomposition only, leading to a failing assertion and reads
out of bounds. Columns which cannot be inserted are now removed, from the
largest index, as the indices of the remaining columns shrink.
---
 src/acceleration/BaseQNAcceleration.cpp  | 12 +++++++-----
 src/acceleration/IQNIMVJAcceleration.cpp |  4 ++--
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/acceleration/BaseQNAcceleration.cpp b/src/acceleration/BaseQNAcceleration.cpp
index af46e9e..62f9401 100644
--- a/src/acceleration/BaseQNAcceleration.cpp
+++ b/src/acceleration/BaseQNAcceleration.cpp
@@ -434,8 +434,8 @@ void BaseQNAcceleration::performAcceleration(
 
     // the columns that fail to be inserted into the QR factorization while resetting need to be removed from V and W for consistency
     auto failAddedCols = _qrV.reset(_matrixV, getPrimaryLSSystemRows());
-    for (int i : failAddedCols) {
-      removeMatrixColumn(i);
+    for (auto i = failAddedCols.rbegin(); i != failAddedCols.rend(); ++i) { // from the largest index as V and W shrink
+      removeMatrixColumn(*i);
     }
     PRECICE_ASSERT(_matrixV.cols() == _qrV.cols(), _matrixV.cols(), _qrV.cols());
 
@@ -454,12 +454,14 @@ void BaseQNAcceleration::performAcceleration(
   // apply scaling to V, V' := P * V (only needed to reset the QR-dec of V)
   _preconditioner->apply(_matrixV);
 
-  if (_preconditioner->requireNewQR()) {
+  // If the newest column could not be inserted into the QR-decomposition, e.g., as there are as many columns as unknowns
+  // already, then the decomposition needs to be rebuilt starting from the newest column. The QR2 and QR3 filters do this anyhow.
+  if (_preconditioner->requireNewQR() || _qrV.cols() != getLSSystemCols()) {
     if (not(_filter == Acceleration::QR2FILTER || _filter == Acceleration::QR3FILTER)) { // for QR2 and QR3 filter, there is no need to do this twice
       auto failAddedCols = _qrV.reset(_matrixV, getPrimaryLSSystemRows());
       // the columns that fail to be inserted into the QR factorization while resetting need to be removed from V and W for consistency
-      for (int i : failAddedCols) {
-        removeMatrixColumn(i);
+      for (auto i = failAddedCols.rbegin(); i != failAddedCols.rend(); ++i) { // from the largest index as V and W shrink
+        removeMatrixColumn(*i);
       }
       PRECICE_ASSERT(_matrixV.cols() == _qrV.cols(), _matrixV.cols(), _qrV.cols());
     }
diff --git a/src/acceleration/IQNIMVJAcceleration.cpp b/src/acceleration/IQNIMVJAcceleration.cpp
index 751cdd6..68cb0ad 100644
--- a/src/acceleration/IQNIMVJAcceleration.cpp
+++ b/src/acceleration/IQNIMVJAcceleration.cpp
@@ -659,8 +659,8 @@ void IQNIMVJAcceleration::specializedIterationsConverged(
     if (_preconditioner->requireNewQR()) {
       if (not(_filter == Acceleration::QR2FILTER)) { // for QR2 filter, there is no need to do this twice
         auto failAddedCols = _qrV.reset(_matrixV, getPrimaryLSSystemRows());
-        for (int i : failAddedCols) {
-          removeMatrixColumn(i);
+        for (auto i = failAddedCols.rbegin(); i != failAddedCols.rend(); ++i) { // from the largest index as V and W shrink
+          removeMatrixColumn(*i);
         }
         PRECICE_ASSERT(_matrixV.cols() == _qrV.cols(), _matrixV.cols(), _qrV.cols());
       }
-- 
2.43.0


From 8aae6d338b073e28a6ac7c5b9ac58ac9bf17e932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:15 +0000
Subject: [PATCH 12/31] fix: keep the polynomial part of just-in-time writes
 outside of all supports

A cluster was skipped in completeJustInTimeMapping if the RBF part of its loads
was zero, although the polynomial part was not: such loads were lost.
---
 src/mapping/PartitionOfUnityMapping.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mapping/PartitionOfUnityMapping.hpp b/src/mapping/PartitionOfUnityMapping.hpp
index ccb536c..ac907aa 100644
--- a/src/mapping/PartitionOfUnityMapping.hpp
+++ b/src/mapping/PartitionOfUnityMapping.hpp
@@ -416,8 +416,9 @@ void PartitionOfUnityMapping<RADIAL_BASIS_FUNCTION_T>::completeJustInTimeMapping
   precice::profiling::Event e("map.pou.completeJustInTimeMapping.From" + input()->getName());
 
   for (std::size_t c = 0; c < _clusters.size(); ++c) {
-    // If there is no contribution, we don't have to evaluate
-    if (cache.p[c].squaredNorm() > 0) {
+    // If there is no contribution, we don't have to evaluate. Note that data outside of the support of
+    // all basis functions only contributes to the polynomial
+    if (!cache.p[c].isZero(0) || !cache.polynomialContributions[c].isZero(0)) {
       _clusters[c].evaluateConservativeCache(cache.polynomialContributions[c], cache.p[c], buffer);
     }
   }
-- 
2.43.0


From 42b78bce1f10bb1328684ddfd339efbd429fd737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:15 +0000
Subject: [PATCH 13/31] fix: radial multiscale mapping of unsorted vertices,
 empty bands and vector data

Vertices of the 1D mesh in arbitrary order gave wrong midpoints and out-of-bounds
indices, 1D vertices without neighbours became NaN (0/0), and only the first
component of vector data was mapped.
---
 src/mapping/RadialGeoMultiscaleMapping.cpp | 29 +++++++++++++---------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/mapping/RadialGeoMultiscaleMapping.cpp b/src/mapping/RadialGeoMultiscaleMapping.cpp
index 30a18ee..6b4711a 100644
--- a/src/mapping/RadialGeoMultiscaleMapping.cpp
+++ b/src/mapping/RadialGeoMultiscaleMapping.cpp
@@ -50,7 +50,7 @@ void RadialGeoMultiscaleMapping::computeMapping()
       // Compute the midpoints of the 1D input mesh
       for (size_t i = 0; i < (inSize - 1); i++) {
         auto axisPositionCurrent = inputVerticesRef[ordered_vertex_indices[i]].coord(effectiveCoordinate);
-        auto axisPositionNext    = inputVerticesRef[ordered_vertex_indices[i] + 1].coord(effectiveCoordinate);
+        auto axisPositionNext    = inputVerticesRef[ordered_vertex_indices[i + 1]].coord(effectiveCoordinate);
         axisMidpoints(i)         = (axisPositionCurrent + axisPositionNext) / 2;
       }
       axisMidpoints(inSize - 1) = std::numeric_limits<double>::max(); // large number, such that vertices after the last midpoint are still assigned
@@ -68,7 +68,7 @@ void RadialGeoMultiscaleMapping::computeMapping()
           PRECICE_ASSERT(index + 1 < inSize);
           ++index;
         }
-        _vertexIndicesSpread.push_back(index);
+        _vertexIndicesSpread.push_back(ordered_vertex_indices[index]);
       }
     } else {
       PRECICE_ASSERT(_type == MultiscaleType::COLLECT);
@@ -90,8 +90,8 @@ void RadialGeoMultiscaleMapping::computeMapping()
                        });
       // Compute the midpoints of the 1D output mesh
       for (size_t i = 0; i < (outSize - 1); i++) {
-        auto axisPositionCurrent = output()->vertex(i).coord(effectiveCoordinate);
-        auto axisPositionNext    = output()->vertex(i + 1).coord(effectiveCoordinate);
+        auto axisPositionCurrent = outputVerticesRef[ordered_vertex_indices[i]].coord(effectiveCoordinate);
+        auto axisPositionNext    = outputVerticesRef[ordered_vertex_indices[i + 1]].coord(effectiveCoordinate);
         axisMidpoints(i)         = (axisPositionCurrent + axisPositionNext) / 2;
       }
       axisMidpoints(outSize - 1) = std::numeric_limits<double>::max(); // large number, such that vertices after the last midpoint are still assigned
@@ -108,8 +108,8 @@ void RadialGeoMultiscaleMapping::computeMapping()
           PRECICE_ASSERT(index + 1 < outSize);
           ++index;
         }
-        _vertexIndicesCollect.push_back(index);
-        counters[index] += 1;
+        _vertexIndicesCollect.push_back(ordered_vertex_indices[index]);
+        counters[ordered_vertex_indices[index]] += 1;
       }
       _vertexCounter = std::move(counters);
     }
@@ -161,10 +161,14 @@ void RadialGeoMultiscaleMapping::mapConsistent(const time::Sample &inData, Eigen
   PRECICE_ASSERT(static_cast<std::size_t>(inDataDimensions) == outDataDimensions);
 
   PRECICE_DEBUG("Map consistent");
+  // Map the raw pointers as (dataDimensions x vertices) in column-major Eigen style
+  Eigen::Map<const Eigen::MatrixXd> inputMap(inputValues.data(), inDataDimensions, inSize);
+  Eigen::Map<Eigen::MatrixXd>       outputMap(outputValues.data(), outDataDimensions, outSize);
+
   if (_type == MultiscaleType::SPREAD) {
     // assign 1D vertex value to all 3D vertices in vicinity
     for (size_t i = 0; i < outSize; i++) {
-      outputValues(i * outDataDimensions) = inputValues(_vertexIndicesSpread[i] * inDataDimensions);
+      outputMap.col(i) = inputMap.col(_vertexIndicesSpread[i]);
     }
   } else {
     PRECICE_ASSERT(_type == MultiscaleType::COLLECT);
@@ -173,15 +177,16 @@ void RadialGeoMultiscaleMapping::mapConsistent(const time::Sample &inData, Eigen
       to (and averaged at) the nearest 1D vertex in projection space.
     */
 
-    for (size_t i = 0; i < outSize; i++) {
-      outputValues(i * outDataDimensions) = 0;
-    }
+    outputMap.setZero();
     // assign the 1D vertex the average of all 3D vertex values in vicinity
     for (size_t i = 0; i < inSize; i++) {
-      outputValues(_vertexIndicesCollect[i] * outDataDimensions) += inputValues(i * inDataDimensions);
+      outputMap.col(_vertexIndicesCollect[i]) += inputMap.col(i);
     }
     for (size_t i = 0; i < outSize; i++) {
-      outputValues(i * outDataDimensions) = outputValues(i * outDataDimensions) / _vertexCounter[i];
+      // 1D vertices without any 3D vertex in vicinity stay zero
+      if (_vertexCounter[i] > 0) {
+        outputMap.col(i) /= _vertexCounter[i];
+      }
     }
   }
 }
-- 
2.43.0


From 625bf3c4571728261a94b948896166fd5295921b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:15 +0000
Subject: [PATCH 14/31] fix: NaN in axial 2D-3D multiscale mapping if a band
 has no extent

The distance was divided by the largest distance of the band, which is zero if
all its vertices coincide with the input vertex.
---
 src/mapping/AxialGeoMultiscaleMapping.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mapping/AxialGeoMultiscaleMapping.cpp b/src/mapping/AxialGeoMultiscaleMapping.cpp
index c28b1ff..11c5150 100644
--- a/src/mapping/AxialGeoMultiscaleMapping.cpp
+++ b/src/mapping/AxialGeoMultiscaleMapping.cpp
@@ -285,7 +285,8 @@ void AxialGeoMultiscaleMapping::mapConsistent(const time::Sample &inData, Eigen:
           outputValues((i * outDataDimensions) + effectiveCoordinate) = inputValues((static_cast<size_t>(_nearestVertex[i]) * inDataDimensions) + effectiveCoordinate);
         } else if (_profile == MultiscaleProfile::PARABOLIC) {
           if (_crossSection == MultiscaleCrossSection::CIRCLE) {
-            double r_hat                                                = _vertexDistances[i] / R;
+            // All vertices of the band may coincide with the input vertex
+            double r_hat                                                = R > 0.0 ? _vertexDistances[i] / R : 0.0;
             outputValues((i * outDataDimensions) + effectiveCoordinate) = (4.0 / 3.0) * inputValues((static_cast<size_t>(_nearestVertex[i]) * inDataDimensions) + effectiveCoordinate) * (1.0 - r_hat * r_hat);
           } else if (_crossSection == MultiscaleCrossSection::SQUARE) {
             constexpr double umax_over_umean = 2.096;
-- 
2.43.0


From 570fc678c25aa1b67c418f61975f27a3263adfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:15 +0000
Subject: [PATCH 15/31] fix: initialize received data of vertices no remote
 rank sends

Point-to-point communication left the values uninitialized if the rank has no
communication partner at all, although it has vertices.
---
 src/m2n/PointToPointCommunication.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/m2n/PointToPointCommunication.cpp b/src/m2n/PointToPointCommunication.cpp
index cd3392c..3415ca9 100644
--- a/src/m2n/PointToPointCommunication.cpp
+++ b/src/m2n/PointToPointCommunication.cpp
@@ -630,12 +630,13 @@ void PointToPointCommunication::send(precice::span<double const> itemsToSend, in
 
 void PointToPointCommunication::receive(precice::span<double> itemsToReceive, int valueDimension)
 {
+  // Vertices, which no remote rank sends data for, are zero
+  std::fill(itemsToReceive.begin(), itemsToReceive.end(), 0.0);
+
   if (_mappings.empty() || itemsToReceive.empty()) {
     return;
   }
 
-  std::fill(itemsToReceive.begin(), itemsToReceive.end(), 0.0);
-
   for (auto &mapping : _mappings) {
     mapping.recvBuffer.resize(mapping.indices.size() * valueDimension);
     mapping.request = _communication->aReceive(span<double>{mapping.recvBuffer}, mapping.remoteRank);
-- 
2.43.0


From 3288884f609d81e92801a44217e27e94e42e8e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:34 +0000
Subject: [PATCH 16/31] fix: Fortran bindings read in front of blank strings

---
 extras/bindings/fortran/src/preciceFortran.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extras/bindings/fortran/src/preciceFortran.cpp b/extras/bindings/fortran/src/preciceFortran.cpp
index 8dc7691..0ee76f2 100644
--- a/extras/bindings/fortran/src/preciceFortran.cpp
+++ b/extras/bindings/fortran/src/preciceFortran.cpp
@@ -424,7 +424,7 @@ int precice::impl::strippedLength(
     int         length)
 {
   int i = length - 1;
-  while (((string[i] == ' ') || (string[i] == 0)) && (i >= 0)) {
+  while ((i >= 0) && ((string[i] == ' ') || (string[i] == 0))) {
     i--;
   }
   return i + 1;
-- 
2.43.0


From a79ec6b77741cf5390a09595d3bcc4a0390eb9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:34 +0000
Subject: [PATCH 17/31] fix: missing check of precicec_getMaxTimeStepSize

---
 extras/bindings/c/src/preciceC.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/extras/bindings/c/src/preciceC.cpp b/extras/bindings/c/src/preciceC.cpp
index cfc1c08..83aaeee 100644
--- a/extras/bindings/c/src/preciceC.cpp
+++ b/extras/bindings/c/src/preciceC.cpp
@@ -126,6 +126,7 @@ try {
 
 double precicec_getMaxTimeStepSize()
 try {
+  PRECICE_CHECK(impl != nullptr, errormsg);
   return impl->getMaxTimeStepSize();
 } catch (::precice::Error &e) {
   std::abort();
-- 
2.43.0


From 59456bb2913d9d61727bafc7e02258aec8425762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:06 +0000
Subject: [PATCH 18/31] fix: reject implicit coupling without convergence
 measures and iteration limit

The configuration replaces the undefined iteration limit by an infinite one
before checking for the undefined one, so the check never triggered and the
iteration ended only by the simulation being killed.
---
 src/cplscheme/config/CouplingSchemeConfiguration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cplscheme/config/CouplingSchemeConfiguration.cpp b/src/cplscheme/config/CouplingSchemeConfiguration.cpp
index 9b7c666..2830d52 100644
--- a/src/cplscheme/config/CouplingSchemeConfiguration.cpp
+++ b/src/cplscheme/config/CouplingSchemeConfiguration.cpp
@@ -982,7 +982,7 @@ void CouplingSchemeConfiguration::updateConfigForImplicitCoupling()
 void CouplingSchemeConfiguration::checkIterationLimits() const
 {
   if (_config.convergenceMeasureDefinitions.empty()) {
-    PRECICE_CHECK(_config.maxIterations != -1,
+    PRECICE_CHECK(_config.maxIterations != CouplingScheme::INFINITE_MAX_ITERATIONS,
                   "Not defining convergence measures without providing a maximum iteration limit is forbidden. "
                   "Please define a convergence measure or set a maximum iteration limit using <max-iterations value=\"...\" />.");
 
-- 
2.43.0


From de393bc52025f43261bb6359364d31cc4a6ab323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:06 +0000
Subject: [PATCH 19/31] fix: reject Gaussian basis functions with a support
 radius of zero

The conversion to a shape parameter divides by the support radius. The
resulting infinite shape parameter passed the check of the basis function
and turned the entries of the interpolation matrix into NaN.
---
 src/mapping/config/MappingConfiguration.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mapping/config/MappingConfiguration.cpp b/src/mapping/config/MappingConfiguration.cpp
index 2110901..a103dd0 100644
--- a/src/mapping/config/MappingConfiguration.cpp
+++ b/src/mapping/config/MappingConfiguration.cpp
@@ -516,6 +516,7 @@ void MappingConfiguration::xmlTagCallback(
       PRECICE_CHECK(exactlyOneSet, "The specified parameters for the Gaussian RBF mapping are invalid. Please specify either a \"shape-parameter\" or a \"support-radius\".");
 
       if (std::isfinite(supportRadius) && !std::isfinite(shapeParameter)) {
+        PRECICE_CHECK(supportRadius > 0., "The support-radius=\"{}\" of the Gaussian RBF mapping is invalid. Please specify a value larger than zero.", supportRadius);
         shapeParameter = std::sqrt(-std::log(Gaussian::cutoffThreshold)) / supportRadius;
       }
     }
-- 
2.43.0


From 6f0ef986512684a97f6cf79d5cc49dca0530e77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:22 +0000
Subject: [PATCH 20/31] fix: reject invalid cluster settings of
 partition-of-unity RBF mappings

The documented ranges of vertices-per-cluster and relative-overlap were
guarded by assertions only.
---
 src/mapping/config/MappingConfiguration.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mapping/config/MappingConfiguration.cpp b/src/mapping/config/MappingConfiguration.cpp
index a103dd0..fda615f 100644
--- a/src/mapping/config/MappingConfiguration.cpp
+++ b/src/mapping/config/MappingConfiguration.cpp
@@ -601,6 +601,8 @@ MappingConfiguration::RBFConfiguration MappingConfiguration::configureRBFMapping
   rbfConfig.deadAxis   = {{xDead, yDead, zDead}};
   rbfConfig.solverRtol = solverRtol;
 
+  PRECICE_CHECK(verticesPerCluster > 0, "The vertices-per-cluster=\"{}\" of the RBF mapping is invalid. Please specify a value larger than zero.", verticesPerCluster);
+  PRECICE_CHECK(relativeOverlap >= 0. && relativeOverlap < 1., "The relative-overlap=\"{}\" of the RBF mapping is invalid. Please specify a value between zero (included) and one (excluded).", relativeOverlap);
   rbfConfig.verticesPerCluster = verticesPerCluster;
   rbfConfig.relativeOverlap    = relativeOverlap;
   rbfConfig.projectToInput     = projectToInput;
-- 
2.43.0


From 1c73f6e9d79d23bbeb14c363ff872cbbb08a3be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:22 +0000
Subject: [PATCH 21/31] fix: strict convergence measures without an iteration
 limit

A strict measure ended the simulation after the first iteration (or failed
an assertion) if no maximum number of iterations was configured.
---
 src/cplscheme/BaseCouplingScheme.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cplscheme/BaseCouplingScheme.cpp b/src/cplscheme/BaseCouplingScheme.cpp
index f6eb9f8..2ada5f6 100644
--- a/src/cplscheme/BaseCouplingScheme.cpp
+++ b/src/cplscheme/BaseCouplingScheme.cpp
@@ -722,9 +722,8 @@ bool BaseCouplingScheme::measureConvergence()
     if (not convMeasure.measure->isConvergence()) {
       allConverged = false;
       if (convMeasure.strict) {
-        PRECICE_ASSERT(_maxIterations > 0);
         oneStrict = true;
-        PRECICE_CHECK(_iterations < _maxIterations,
+        PRECICE_CHECK(_maxIterations == INFINITE_MAX_ITERATIONS || _iterations < _maxIterations,
                       "The strict convergence measure for data \"" + convMeasure.couplingData->getDataName() +
                           "\" did not converge within the maximum allowed iterations, which terminates the simulation. "
                           "To avoid this forced termination do not mark the convergence measure as strict.");
-- 
2.43.0


From d300671942be8d0f06a6ce6fcfa5158b2e88da40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:31 +0000
Subject: [PATCH 22/31] fix: reject configurations defining a mesh twice

The duplicate was only noticed by an assertion.
---
 src/mesh/config/MeshConfiguration.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh/config/MeshConfiguration.cpp b/src/mesh/config/MeshConfiguration.cpp
index ecc9883..e280189 100644
--- a/src/mesh/config/MeshConfiguration.cpp
+++ b/src/mesh/config/MeshConfiguration.cpp
@@ -65,6 +65,9 @@ void MeshConfiguration::xmlTagCallback(
   if (tag.getName() == TAG) {
     std::string name       = tag.getStringAttributeValue(ATTR_NAME);
     int         dimensions = tag.getIntAttributeValue(ATTR_DIMENSIONS);
+    PRECICE_CHECK(!hasMeshName(name),
+                  "Mesh \"{0}\" has already been defined. Please rename or remove one of the mesh tags with name=\"{0}\".",
+                  name);
     insertMeshToMeshDimensionsMap(name, dimensions);
     PRECICE_ASSERT(dimensions != 0);
     _meshes.push_back(std::make_shared<Mesh>(name, dimensions, _meshIdManager.getFreeID()));
-- 
2.43.0


From ccec7ec6cd2154e227dd971d3834082ee7cd0ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:31 +0000
Subject: [PATCH 23/31] fix: reject convergence measures of data the mesh does
 not have

The check dereferenced the end of the container of data instead of looking
for the data.
---
 src/cplscheme/config/CouplingSchemeConfiguration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cplscheme/config/CouplingSchemeConfiguration.cpp b/src/cplscheme/config/CouplingSchemeConfiguration.cpp
index 2830d52..947c841 100644
--- a/src/cplscheme/config/CouplingSchemeConfiguration.cpp
+++ b/src/cplscheme/config/CouplingSchemeConfiguration.cpp
@@ -792,7 +792,7 @@ mesh::PtrData CouplingSchemeConfiguration::getData(
     const std::string &dataName,
     const std::string &meshName) const
 {
-  PRECICE_CHECK(_meshConfig->hasMeshName(meshName) && _meshConfig->getMesh(meshName)->data(dataName),
+  PRECICE_CHECK(_meshConfig->hasMeshName(meshName) && _meshConfig->getMesh(meshName)->hasDataName(dataName),
                 "Data \"{}\" used by mesh \"{}\" is not configured.", dataName, meshName);
   const mesh::PtrMesh &mesh = _meshConfig->getMesh(meshName);
   return mesh->data(dataName);
-- 
2.43.0


From 95e6cfbb3a602589a884c38026a0fe56d48b60e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:55 +0000
Subject: [PATCH 24/31] fix: reject multi coupling exchanging data between
 unconnected participants

An exchange between two participants without an m2n communication was
accepted and dereferenced a null pointer during the exchange.
---
 src/cplscheme/config/CouplingSchemeConfiguration.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cplscheme/config/CouplingSchemeConfiguration.cpp b/src/cplscheme/config/CouplingSchemeConfiguration.cpp
index 947c841..72d55da 100644
--- a/src/cplscheme/config/CouplingSchemeConfiguration.cpp
+++ b/src/cplscheme/config/CouplingSchemeConfiguration.cpp
@@ -1091,6 +1091,11 @@ void CouplingSchemeConfiguration::addMultiDataToBeExchanged(
     PRECICE_CHECK((utils::contained(to, _config.participants) || to == _config.controller),
                   "Participant \"{}\" is not configured for coupling scheme", to);
 
+    PRECICE_CHECK(_m2nConfig->isM2NConfigured(from, to),
+                  "The exchange of data \"{}\" from participant \"{}\" to participant \"{}\" requires an m2n communication between them. "
+                  "Please add an appropriate \"<m2n />\" tag.",
+                  dataName, from, to);
+
     const bool initialize       = exchange.requiresInitialization;
     const bool exchangeSubsteps = exchange.exchangeSubsteps;
 
-- 
2.43.0


From a7c55f05dccdbf7b642134d9319038c3ff908f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:21 +0000
Subject: [PATCH 25/31] fix: keep the column counter of the current time window
 in QN acceleration

If the filter removed the only column of the current time window, then its counter
was erased. Further columns of the window were counted for the previous window and
removed with it, i.e., too early.
---
 src/acceleration/BaseQNAcceleration.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/acceleration/BaseQNAcceleration.cpp b/src/acceleration/BaseQNAcceleration.cpp
index 62f9401..0d2acd0 100644
--- a/src/acceleration/BaseQNAcceleration.cpp
+++ b/src/acceleration/BaseQNAcceleration.cpp
@@ -745,7 +745,8 @@ void BaseQNAcceleration::removeMatrixColumn(
     if (cols > columnIndex) {
       PRECICE_ASSERT(*iter > 0);
       *iter -= 1;
-      if (*iter == 0) {
+      // The first entry always counts the columns of the current time window and has to remain.
+      if (*iter == 0 && iter != _matrixCols.begin()) {
         _matrixCols.erase(iter);
       }
       break;
-- 
2.43.0


From 1545ae60b682e83c40b063d55920b790fcde6730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:29 +0000
Subject: [PATCH 26/31] fix: log the residual of absolute-or-relative
 convergence measures

The convergence log always contained 0 for these measures.
---
 src/cplscheme/impl/AbsoluteOrRelativeConvergenceMeasure.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cplscheme/impl/AbsoluteOrRelativeConvergenceMeasure.hpp b/src/cplscheme/impl/AbsoluteOrRelativeConvergenceMeasure.hpp
index 35d44fa..0ab7c2c 100644
--- a/src/cplscheme/impl/AbsoluteOrRelativeConvergenceMeasure.hpp
+++ b/src/cplscheme/impl/AbsoluteOrRelativeConvergenceMeasure.hpp
@@ -107,6 +107,11 @@ public:
       return _normDiff / _norm;
   }
 
+  double getNormResidual() override
+  {
+    return getNormAbsResidual();
+  }
+
   std::string getAbbreviation() const override
   {
     return "AbsOrRel";
-- 
2.43.0


From 846c0d0ed79b6a786ade8ad78e812fbd023d75ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:29 +0000
Subject: [PATCH 27/31] fix: keep the iteration and convergence logs when
 remeshing

Reinitializing the coupling scheme created the log files anew, so everything logged
before the remeshing was lost.
---
 src/cplscheme/BaseCouplingScheme.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/cplscheme/BaseCouplingScheme.cpp b/src/cplscheme/BaseCouplingScheme.cpp
index 2ada5f6..023bde6 100644
--- a/src/cplscheme/BaseCouplingScheme.cpp
+++ b/src/cplscheme/BaseCouplingScheme.cpp
@@ -324,7 +324,6 @@ void BaseCouplingScheme::reinitialize()
         _acceleration->initialize(getAccelerationData());
       }
     }
-    initializeTXTWriters();
   }
 }
 
-- 
2.43.0


From eb6d330ba27c04107883c140aca3cd0bfad2c897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:52 +0000
Subject: [PATCH 28/31] fix: limit the columns of the IMVJ least-squares
 restart by the primary unknowns and keep at least one

---
 src/acceleration/IQNIMVJAcceleration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acceleration/IQNIMVJAcceleration.cpp b/src/acceleration/IQNIMVJAcceleration.cpp
index 68cb0ad..57cb780 100644
--- a/src/acceleration/IQNIMVJAcceleration.cpp
+++ b/src/acceleration/IQNIMVJAcceleration.cpp
@@ -505,7 +505,7 @@ void IQNIMVJAcceleration::restartIMVJ()
 
     if (_matrixV_RSLS.cols() > 0) {
       // avoid that the system is getting too squared
-      while (_matrixV_RSLS.cols() * 2 >= getLSSystemRows()) {
+      while (_matrixV_RSLS.cols() > 1 && _matrixV_RSLS.cols() * 2 >= getPrimaryLSSystemRows()) {
         removeMatrixColumnRSLS(_matrixV_RSLS.cols() - 1);
       }
 
-- 
2.43.0


From 3ea9f59d638753dce9d883966714e421a80dbd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:52 +0000
Subject: [PATCH 29/31] fix: rebuild the IMVJ decomposition if the newest
 column of a converged window could not be inserted

---
 src/acceleration/IQNIMVJAcceleration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acceleration/IQNIMVJAcceleration.cpp b/src/acceleration/IQNIMVJAcceleration.cpp
index 57cb780..0ad5f85 100644
--- a/src/acceleration/IQNIMVJAcceleration.cpp
+++ b/src/acceleration/IQNIMVJAcceleration.cpp
@@ -656,7 +656,7 @@ void IQNIMVJAcceleration::specializedIterationsConverged(
     // apply scaling to V, V' := P * V (only needed to reset the QR-dec of V)
     _preconditioner->apply(_matrixV);
 
-    if (_preconditioner->requireNewQR()) {
+    if (_preconditioner->requireNewQR() || _qrV.cols() != getLSSystemCols()) {
       if (not(_filter == Acceleration::QR2FILTER)) { // for QR2 filter, there is no need to do this twice
         auto failAddedCols = _qrV.reset(_matrixV, getPrimaryLSSystemRows());
         for (auto i = failAddedCols.rbegin(); i != failAddedCols.rend(); ++i) { // from the largest index as V and W shrink
-- 
2.43.0


From 067e5e5fbe308cc06c4e04b21935c545e8e00a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:52 +0000
Subject: [PATCH 30/31] fix: IMVJ Jacobian of time windows converging within
 one iteration

---
 src/acceleration/IQNIMVJAcceleration.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/acceleration/IQNIMVJAcceleration.cpp b/src/acceleration/IQNIMVJAcceleration.cpp
index 0ad5f85..a889aab 100644
--- a/src/acceleration/IQNIMVJAcceleration.cpp
+++ b/src/acceleration/IQNIMVJAcceleration.cpp
@@ -672,8 +672,17 @@ void IQNIMVJAcceleration::specializedIterationsConverged(
     _preconditioner->revert(_matrixV);
     // |===================          ============|
 
+    // Wtil is outdated if no quasi-Newton step was performed since the Jacobian changed
+    const bool hasColumns = getLSSystemCols() > 0;
+    if (hasColumns && (_resetLS || _firstIteration)) {
+      buildWtil();
+    }
+
     //              ------- RESTART/ JACOBIAN ASSEMBLY -------
-    if (_imvjRestart) {
+    if (not hasColumns) {
+      // The time window contributes nothing to the Jacobian
+
+    } else if (_imvjRestart) {
 
       // add the matrices Wtil and Z of the converged configuration to the storage containers
       Eigen::MatrixXd Z(_qrV.cols(), _qrV.rows());
-- 
2.43.0


From 73eef366d24adbe929f40beae5e3fbb2bf191cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:26 +0000
Subject: [PATCH 31/31] fix: export the written data of an iteration instead of
 the data at the start of the time window

---
 src/precice/impl/ParticipantImpl.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/precice/impl/ParticipantImpl.cpp b/src/precice/impl/ParticipantImpl.cpp
index 2b97bf9..6972122 100644
--- a/src/precice/impl/ParticipantImpl.cpp
+++ b/src/precice/impl/ParticipantImpl.cpp
@@ -510,8 +510,6 @@ void ParticipantImpl::handleDataAfterAdvance(bool reachedTimeWindowEnd, bool isT
   } else {
     // We are iterating
     PRECICE_ASSERT(math::greater(timeSteppedTo, timeAfterAdvance), "We must have moved back in time!");
-
-    trimSendDataAfter(timeAfterAdvance);
   }
 
   if (reachedTimeWindowEnd) {
@@ -541,6 +539,11 @@ void ParticipantImpl::handleDataAfterAdvance(bool reachedTimeWindowEnd, bool isT
   }
 
   handleExports(ExportTiming::Advance);
+
+  if (!isTimeWindowComplete) {
+    // The next iteration writes these samples again. The exports above still require the samples of this iteration.
+    trimSendDataAfter(timeAfterAdvance);
+  }
 }
 
 void ParticipantImpl::samplizeWriteData(double time)
-- 
2.43.0

