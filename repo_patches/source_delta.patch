From 286c1599ed886b6842f3bfdfa2b6ac769c2934d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 01/30] fix: check for a created participant in all C API
 functions

precicec_getMaxTimeStepSize, precicec_setMeshAccessRegion,
precicec_getMeshVertexIDsAndCoordinates, precicec_startProfilingSection and
precicec_stopLastProfilingSection dereferenced a null participant when called
before creation or after precicec_finalize().
---
 extras/bindings/c/src/preciceC.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extras/bindings/c/src/preciceC.cpp b/extras/bindings/c/src/preciceC.cpp
index cfc1c08..2d8f058 100644
--- a/extras/bindings/c/src/preciceC.cpp
+++ b/extras/bindings/c/src/preciceC.cpp
@@ -126,6 +126,7 @@ try {
 
 double precicec_getMaxTimeStepSize()
 try {
+  PRECICE_CHECK(impl != nullptr, errormsg);
   return impl->getMaxTimeStepSize();
 } catch (::precice::Error &e) {
   std::abort();
@@ -409,6 +410,7 @@ void precicec_setMeshAccessRegion(
     const char   *meshName,
     const double *boundingBox)
 try {
+  PRECICE_CHECK(impl != nullptr, errormsg);
   auto bbSize = static_cast<long unsigned>(impl->getMeshDimensions(meshName)) * 2;
   impl->setMeshAccessRegion(meshName, {boundingBox, bbSize});
 } catch (::precice::Error &e) {
@@ -421,6 +423,7 @@ void precicec_getMeshVertexIDsAndCoordinates(
     int        *ids,
     double     *coordinates)
 try {
+  PRECICE_CHECK(impl != nullptr, errormsg);
   auto coordinatesSize = static_cast<long unsigned>(impl->getMeshDimensions(meshName) * size);
   impl->getMeshVertexIDsAndCoordinates(meshName, {ids, static_cast<unsigned long>(size)}, {coordinates, coordinatesSize});
 } catch (::precice::Error &e) {
@@ -429,6 +432,7 @@ try {
 
 void precicec_startProfilingSection(const char *sectionName)
 try {
+  PRECICE_CHECK(impl != nullptr, errormsg);
   impl->startProfilingSection(sectionName);
 } catch (::precice::Error &e) {
   std::abort();
@@ -436,6 +440,7 @@ try {
 
 void precicec_stopLastProfilingSection()
 try {
+  PRECICE_CHECK(impl != nullptr, errormsg);
   impl->stopLastProfilingSection();
 } catch (::precice::Error &e) {
   std::abort();
-- 
2.43.0


From 6a4b168687b5bc630015d371b09ce2d301083fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 02/30] fix: do not read before the start of blank Fortran
 strings

strippedLength() evaluated string[-1] when the passed string consists of blanks only or is empty.
---
 extras/bindings/fortran/src/preciceFortran.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extras/bindings/fortran/src/preciceFortran.cpp b/extras/bindings/fortran/src/preciceFortran.cpp
index 8dc7691..0ee76f2 100644
--- a/extras/bindings/fortran/src/preciceFortran.cpp
+++ b/extras/bindings/fortran/src/preciceFortran.cpp
@@ -424,7 +424,7 @@ int precice::impl::strippedLength(
     int         length)
 {
   int i = length - 1;
-  while (((string[i] == ' ') || (string[i] == 0)) && (i >= 0)) {
+  while ((i >= 0) && ((string[i] == ' ') || (string[i] == 0))) {
     i--;
   }
   return i + 1;
-- 
2.43.0


From 2638fcfa0de5b11b792e0e8ba77fcdc02c37e76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 03/30] fix: check the state before using the solver event in
 advance()

advance() called before initialize() dereferenced a null event instead of
reporting the error.
---
 src/precice/impl/ParticipantImpl.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/precice/impl/ParticipantImpl.cpp b/src/precice/impl/ParticipantImpl.cpp
index f57d477..3857732 100644
--- a/src/precice/impl/ParticipantImpl.cpp
+++ b/src/precice/impl/ParticipantImpl.cpp
@@ -395,6 +395,10 @@ void ParticipantImpl::advance(
 
   PRECICE_TRACE(computedTimeStepSize);
 
+  PRECICE_CHECK(_state != State::Constructed, "initialize() has to be called before advance().");
+  PRECICE_CHECK(_state != State::Finalized, "advance() cannot be called after finalize().");
+  PRECICE_CHECK(_state == State::Initialized, "initialize() has to be called before advance().");
+
   // Enforce that all user-created events are stopped to prevent incorrect nesting.
   PRECICE_CHECK(_userEvents.empty(), "There are unstopped user defined events. Please stop them using stopLastProfilingSection() before calling advance().");
 
@@ -404,9 +408,6 @@ void ParticipantImpl::advance(
 
   Event e("advance", profiling::Fundamental, profiling::Synchronize);
 
-  PRECICE_CHECK(_state != State::Constructed, "initialize() has to be called before advance().");
-  PRECICE_CHECK(_state != State::Finalized, "advance() cannot be called after finalize().");
-  PRECICE_CHECK(_state == State::Initialized, "initialize() has to be called before advance().");
   PRECICE_ASSERT(_couplingScheme->isInitialized());
   PRECICE_CHECK(isCouplingOngoing(), "advance() cannot be called when isCouplingOngoing() returns false.");
 
-- 
2.43.0


From 2dce5994c949139505103b4c24d969926d7ff01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 04/30] fix: report API calls made after finalize()

finalize() releases the participant state. API functions which validate mesh
or data names dereferenced it instead of reporting an error.
---
 src/precice/impl/ValidationMacros.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/precice/impl/ValidationMacros.hpp b/src/precice/impl/ValidationMacros.hpp
index 5228d9e..dabac30 100644
--- a/src/precice/impl/ValidationMacros.hpp
+++ b/src/precice/impl/ValidationMacros.hpp
@@ -15,9 +15,10 @@
  * @attention Do not use this macro directly!
  */
 #include "utils/stacktrace.hpp"
-#define PRECICE_VALIDATE_MESH_NAME_IMPL(name)                     \
-  PRECICE_CHECK(_accessor->hasMesh(name),                         \
-                "The mesh named \"{}\" is unknown to preCICE.{}", \
+#define PRECICE_VALIDATE_MESH_NAME_IMPL(name)                                                   \
+  PRECICE_CHECK(_state != State::Finalized, "{}() cannot be called after finalize().", __func__); \
+  PRECICE_CHECK(_accessor->hasMesh(name),                                                       \
+                "The mesh named \"{}\" is unknown to preCICE.{}",                               \
                 name, _accessor->hintForMesh(name));
 
 /** Implementation of PRECICE_REQUIRE_MESH_USE()
@@ -107,8 +108,9 @@
  *
  * @attention Do not use this macro directly!
  */
-#define PRECICE_VALIDATE_DATA_NAME_IMPL(mesh, data) \
-  PRECICE_CHECK(_accessor->hasData(mesh, data),     \
+#define PRECICE_VALIDATE_DATA_NAME_IMPL(mesh, data)                                             \
+  PRECICE_CHECK(_state != State::Finalized, "{}() cannot be called after finalize().", __func__); \
+  PRECICE_CHECK(_accessor->hasData(mesh, data),                                                 \
                 "The given data \"{}\" is unknown to preCICE mesh \"{}\".{}", data, mesh, _accessor->hintForMeshData(mesh, data));
 
 /** Implementation of PRECICE_REQUIRE_DATA_READ()
-- 
2.43.0


From 758f1a99c53cbd8f32f68f07c729bdd4eff581d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 05/30] fix: refuse to create a second participant in the
 Fortran bindings

A second call to precicef_create replaced the living participant, whose
destruction then finalized the global state used by the new one.
---
 extras/bindings/fortran/src/preciceFortran.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/extras/bindings/fortran/src/preciceFortran.cpp b/extras/bindings/fortran/src/preciceFortran.cpp
index 0ee76f2..5fbd4a9 100644
--- a/extras/bindings/fortran/src/preciceFortran.cpp
+++ b/extras/bindings/fortran/src/preciceFortran.cpp
@@ -29,7 +29,8 @@ static std::unique_ptr<precice::Participant> impl = nullptr;
 
 static precice::logging::Logger _log("preciceFortran");
 
-static std::string errormsg = "preCICE has not been created properly. Be sure to call \"precicef_create\" before any other call to preCICE.";
+static std::string errormsg       = "preCICE has not been created properly. Be sure to call \"precicef_create\" before any other call to preCICE.";
+static std::string errormsgCreate = "preCICE has been created already! Be sure to call either \"precicef_create\" or \"precicef_create_with_communicator\" exactly once.";
 
 namespace precice::impl {
 /**
@@ -49,6 +50,7 @@ void precicef_create_(
     int         participantNameLength,
     int         configFileNameLength)
 try {
+  PRECICE_CHECK(impl == nullptr, errormsgCreate);
   impl = std::make_unique<precice::Participant>(
       precice::impl::strippedStringView(participantName, participantNameLength),
       precice::impl::strippedStringView(configFileName, configFileNameLength),
@@ -67,6 +69,7 @@ void precicef_create_with_communicator_(
     int         participantNameLength,
     int         configFileNameLength)
 try {
+  PRECICE_CHECK(impl == nullptr, errormsgCreate);
 #ifndef PRECICE_NO_MPI
   // MPI_Comm_f2c requires an MPI_Fint argument, which may differ from int.
   // However, the Fortran standard guarantees interoperability of the int type,
-- 
2.43.0


From b7df350ed4997120fbad746cfc6f6193f3f9f09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:08 +0000
Subject: [PATCH 06/30] fix: export precicef_set_tetrahedron with the trailing
 underscore Fortran expects

---
 extras/bindings/fortran/include/precice/preciceFortran.hpp | 2 +-
 extras/bindings/fortran/src/preciceFortran.cpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/extras/bindings/fortran/include/precice/preciceFortran.hpp b/extras/bindings/fortran/include/precice/preciceFortran.hpp
index e98ef17..4b9b170 100644
--- a/extras/bindings/fortran/include/precice/preciceFortran.hpp
+++ b/extras/bindings/fortran/include/precice/preciceFortran.hpp
@@ -505,7 +505,7 @@ PRECICE_API void precicef_set_mesh_tetrahedron_(
  * @brief @deprecated Use precicef_set_mesh_tetrahedron_() instead.
  * @see precicef_set_mesh_tetrahedron_
  */
-PRECICE_API void precicef_set_tetrahedron(
+PRECICE_API void precicef_set_tetrahedron_(
     const char *meshName,
     const int  *firstVertexID,
     const int  *secondVertexID,
diff --git a/extras/bindings/fortran/src/preciceFortran.cpp b/extras/bindings/fortran/src/preciceFortran.cpp
index 5fbd4a9..0f4c954 100644
--- a/extras/bindings/fortran/src/preciceFortran.cpp
+++ b/extras/bindings/fortran/src/preciceFortran.cpp
@@ -619,7 +619,7 @@ void precicef_set_quad_(
   precicef_set_mesh_quad_(meshName, firstVertexID, secondVertexID, thirdVertexID, fourthVertexID, meshNameLength);
 }
 
-void precicef_set_tetrahedron(
+void precicef_set_tetrahedron_(
     const char *meshName,
     const int  *firstVertexID,
     const int  *secondVertexID,
-- 
2.43.0


From 79401de61b316ccce5bbcaec679e67c10e43bc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:19 +0000
Subject: [PATCH 07/30] fix: name the leftover temporary connection file in the
 error message

---
 src/com/ConnectionInfoPublisher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/com/ConnectionInfoPublisher.cpp b/src/com/ConnectionInfoPublisher.cpp
index 11b3732..0e02b9e 100644
--- a/src/com/ConnectionInfoPublisher.cpp
+++ b/src/com/ConnectionInfoPublisher.cpp
@@ -117,7 +117,7 @@ void ConnectionInfoWriter::write(std::string_view info) const
                    "This is likely a leftover of a previous crash or stop during communication build-up. "
                    "Please remove the \"precice-run\" directory and restart the simulation.";
     PRECICE_CHECK(!fs::exists(path), message, "", path);
-    PRECICE_CHECK(!fs::exists(tmp), message, "temporary ");
+    PRECICE_CHECK(!fs::exists(tmp), message, "temporary ", tmp.generic_string());
   }
 
   PRECICE_DEBUG("Writing temporary connection file \"{}\"", tmp.generic_string());
-- 
2.43.0


From b845bf2945371629de64f6b75ca7854802a68b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:19 +0000
Subject: [PATCH 08/30] fix: report the damaged handshake and its sender

---
 src/m2n/M2N.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/m2n/M2N.cpp b/src/m2n/M2N.cpp
index cdfc3a9..5d3da31 100644
--- a/src/m2n/M2N.cpp
+++ b/src/m2n/M2N.cpp
@@ -57,7 +57,7 @@ void M2N::checkRemoteInfo(std::string_view localParticipant,
                           std::string_view remoteInfo)
 {
   auto sep = remoteInfo.find(";");
-  PRECICE_CHECK(sep != std::string::npos, "The received information string from participant {} is damaged. \"{}\"");
+  PRECICE_CHECK(sep != std::string::npos, "The received information string from participant {} is damaged. \"{}\"", remoteParticipant, remoteInfo);
 
   auto remoteVersion = remoteInfo.substr(0, sep);
   PRECICE_CHECK(remoteVersion == PRECICE_VERSION,
-- 
2.43.0


From 9eef84d7f16dcb72e7e8dbff41b3e113c99f1249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:19 +0000
Subject: [PATCH 09/30] fix: pass the missing argument of axial geometric
 multiscale error messages

---
 src/mapping/AxialGeoMultiscaleMapping.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mapping/AxialGeoMultiscaleMapping.cpp b/src/mapping/AxialGeoMultiscaleMapping.cpp
index c28b1ff..902bf40 100644
--- a/src/mapping/AxialGeoMultiscaleMapping.cpp
+++ b/src/mapping/AxialGeoMultiscaleMapping.cpp
@@ -44,7 +44,8 @@ void AxialGeoMultiscaleMapping::computeMapping()
       size_t const inSize  = input()->nVertices();
       size_t const outSize = output()->nVertices();
       if (_dimension == MultiscaleDimension::D1D3 || _dimension == MultiscaleDimension::D1D2) {
-        PRECICE_CHECK(input()->nVertices() == 1, "You can only define an axial geometric multiscale 1D-{} mapping of type spread from a mesh with exactly one vertex.");
+        PRECICE_CHECK(input()->nVertices() == 1, "You can only define an axial geometric multiscale 1D-{} mapping of type spread from a mesh with exactly one vertex.",
+                      _dimension == MultiscaleDimension::D1D3 ? "3D" : "2D");
 
         /* When we add support for 1D meshes (https://github.com/precice/precice/issues/1669),
           we should check for valid dimensions combination.
@@ -145,7 +146,7 @@ void AxialGeoMultiscaleMapping::computeMapping()
       size_t const inSize  = input()->nVertices();
       size_t const outSize = output()->nVertices();
       if (_dimension == MultiscaleDimension::D1D3) {
-        PRECICE_CHECK(output()->nVertices() == 1, "You can only define an axial geometric multiscale 1D-{} mapping of type collect to a mesh with exactly one vertex.");
+        PRECICE_CHECK(output()->nVertices() == 1, "You can only define an axial geometric multiscale 1D-3D mapping of type collect to a mesh with exactly one vertex.");
       } else if (_dimension == MultiscaleDimension::D1D2) {
         PRECICE_CHECK(output()->nVertices() == 1,
                       "You can only define an axial geometric multiscale 1D-2D mapping of type collect to a mesh with exactly one vertex.");
-- 
2.43.0


From a8b266f357d5a9d05d4470e21305b08c8d2409c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:19 +0000
Subject: [PATCH 10/30] fix: report the invalid flush-every value

---
 src/profiling/config/ProfilingConfiguration.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/profiling/config/ProfilingConfiguration.cpp b/src/profiling/config/ProfilingConfiguration.cpp
index 9ee41d5..d10f82b 100644
--- a/src/profiling/config/ProfilingConfiguration.cpp
+++ b/src/profiling/config/ProfilingConfiguration.cpp
@@ -75,7 +75,8 @@ void ProfilingConfiguration::xmlTagCallback(
   auto flushEvery   = tag.getIntAttributeValue("flush-every");
   auto directory    = std::filesystem::path(tag.getStringAttributeValue("directory"));
   PRECICE_CHECK(flushEvery >= 0, "You configured the profiling to flush-every=\"{}\", which is invalid. "
-                                 "Please choose a number >= 0.");
+                                 "Please choose a number >= 0.",
+                flushEvery);
 
   using namespace precice;
   auto &er = profiling::EventRegistry::instance();
-- 
2.43.0


From 133956666665595278b68cb63145083b2cf51f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:19 +0000
Subject: [PATCH 11/30] fix: include the reason when hashing fails

---
 src/utils/Hash.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/Hash.cpp b/src/utils/Hash.cpp
index ed22739..4e79d8e 100644
--- a/src/utils/Hash.cpp
+++ b/src/utils/Hash.cpp
@@ -18,7 +18,7 @@ try {
   return hash;
 
 } catch (const std::runtime_error &e) {
-  PRECICE_UNREACHABLE("preCICE hashing failed", e.what());
+  PRECICE_UNREACHABLE("preCICE hashing failed: {}", e.what());
   return "";
 }
 
-- 
2.43.0


From d317b2408bc950eb1e4a75ef69f8de7692b0c9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:20 +0000
Subject: [PATCH 12/30] fix: recompute the interpolation of a waveform after
 its samples were changed in place

---
 src/time/Waveform.cpp | 3 +++
 src/time/Waveform.hpp | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/time/Waveform.cpp b/src/time/Waveform.cpp
index b6c8e9c..a3dcb39 100644
--- a/src/time/Waveform.cpp
+++ b/src/time/Waveform.cpp
@@ -56,6 +56,9 @@ void Waveform::setAllSamples(const Sample &sample)
   for (auto &stample : _stampleStorage) {
     stample.sample = sample;
   }
+
+  // The spline has to be recomputed, since the underlying data has changed
+  _bspline.reset();
 }
 
 void Waveform::setInterpolationDegree(int interpolationDegree)
diff --git a/src/time/Waveform.hpp b/src/time/Waveform.hpp
index c67fd7e..43b736a 100644
--- a/src/time/Waveform.hpp
+++ b/src/time/Waveform.hpp
@@ -93,6 +93,8 @@ public:
 
   auto stamples()
   {
+    // The spline has to be recomputed, since the underlying data may be changed through the result
+    _bspline.reset();
     return boost::make_iterator_range(_stampleStorage);
   }
 
-- 
2.43.0


From 07522055bd07d4fef32c9b58bf7d59a17f229407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:02 +0000
Subject: [PATCH 13/30] fix: rebuild the QR decomposition when the newest
 column could not be inserted

---
 src/acceleration/BaseQNAcceleration.cpp  | 3 ++-
 src/acceleration/IQNIMVJAcceleration.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/acceleration/BaseQNAcceleration.cpp b/src/acceleration/BaseQNAcceleration.cpp
index 59ce142..2ab6d92 100644
--- a/src/acceleration/BaseQNAcceleration.cpp
+++ b/src/acceleration/BaseQNAcceleration.cpp
@@ -448,7 +448,8 @@ void BaseQNAcceleration::performAcceleration(
   // apply scaling to V, V' := P * V (only needed to reset the QR-dec of V)
   _preconditioner->apply(_matrixV);
 
-  if (_preconditioner->requireNewQR()) {
+  // A new QR decomposition is also required if the newest column could not be inserted
+  if (_preconditioner->requireNewQR() || _matrixV.cols() != _qrV.cols()) {
     if (not(_filter == Acceleration::QR2FILTER || _filter == Acceleration::QR3FILTER)) { // for QR2 and QR3 filter, there is no need to do this twice
       auto failAddedCols = _qrV.reset(_matrixV, getPrimaryLSSystemRows());
       // the columns that fail to be inserted into the QR factorization while resetting need to be removed from V and W for consistency
diff --git a/src/acceleration/IQNIMVJAcceleration.cpp b/src/acceleration/IQNIMVJAcceleration.cpp
index 751cdd6..42e9dd1 100644
--- a/src/acceleration/IQNIMVJAcceleration.cpp
+++ b/src/acceleration/IQNIMVJAcceleration.cpp
@@ -656,7 +656,8 @@ void IQNIMVJAcceleration::specializedIterationsConverged(
     // apply scaling to V, V' := P * V (only needed to reset the QR-dec of V)
     _preconditioner->apply(_matrixV);
 
-    if (_preconditioner->requireNewQR()) {
+    // A new QR decomposition is also required if the newest column could not be inserted
+    if (_preconditioner->requireNewQR() || _matrixV.cols() != _qrV.cols()) {
       if (not(_filter == Acceleration::QR2FILTER)) { // for QR2 filter, there is no need to do this twice
         auto failAddedCols = _qrV.reset(_matrixV, getPrimaryLSSystemRows());
         for (int i : failAddedCols) {
-- 
2.43.0


From 8acbc826de74895b3035d8705885ef00508ef080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:02 +0000
Subject: [PATCH 14/30] fix: remove columns which failed to be inserted into
 the QR decomposition from last to first

---
 src/acceleration/BaseQNAcceleration.cpp  | 10 ++++++----
 src/acceleration/IQNIMVJAcceleration.cpp |  5 +++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/acceleration/BaseQNAcceleration.cpp b/src/acceleration/BaseQNAcceleration.cpp
index 2ab6d92..6dfc836 100644
--- a/src/acceleration/BaseQNAcceleration.cpp
+++ b/src/acceleration/BaseQNAcceleration.cpp
@@ -428,8 +428,9 @@ void BaseQNAcceleration::performAcceleration(
 
     // the columns that fail to be inserted into the QR factorization while resetting need to be removed from V and W for consistency
     auto failAddedCols = _qrV.reset(_matrixV, getPrimaryLSSystemRows());
-    for (int i : failAddedCols) {
-      removeMatrixColumn(i);
+    // start with largest index, as V,W matrices are shrunk and shifted
+    for (auto i = failAddedCols.rbegin(); i != failAddedCols.rend(); ++i) {
+      removeMatrixColumn(*i);
     }
     PRECICE_ASSERT(_matrixV.cols() == _qrV.cols(), _matrixV.cols(), _qrV.cols());
 
@@ -453,8 +454,9 @@ void BaseQNAcceleration::performAcceleration(
     if (not(_filter == Acceleration::QR2FILTER || _filter == Acceleration::QR3FILTER)) { // for QR2 and QR3 filter, there is no need to do this twice
       auto failAddedCols = _qrV.reset(_matrixV, getPrimaryLSSystemRows());
       // the columns that fail to be inserted into the QR factorization while resetting need to be removed from V and W for consistency
-      for (int i : failAddedCols) {
-        removeMatrixColumn(i);
+      // start with largest index, as V,W matrices are shrunk and shifted
+      for (auto i = failAddedCols.rbegin(); i != failAddedCols.rend(); ++i) {
+        removeMatrixColumn(*i);
       }
       PRECICE_ASSERT(_matrixV.cols() == _qrV.cols(), _matrixV.cols(), _qrV.cols());
     }
diff --git a/src/acceleration/IQNIMVJAcceleration.cpp b/src/acceleration/IQNIMVJAcceleration.cpp
index 42e9dd1..2b42a04 100644
--- a/src/acceleration/IQNIMVJAcceleration.cpp
+++ b/src/acceleration/IQNIMVJAcceleration.cpp
@@ -660,8 +660,9 @@ void IQNIMVJAcceleration::specializedIterationsConverged(
     if (_preconditioner->requireNewQR() || _matrixV.cols() != _qrV.cols()) {
       if (not(_filter == Acceleration::QR2FILTER)) { // for QR2 filter, there is no need to do this twice
         auto failAddedCols = _qrV.reset(_matrixV, getPrimaryLSSystemRows());
-        for (int i : failAddedCols) {
-          removeMatrixColumn(i);
+        // start with largest index, as V,W matrices are shrunk and shifted
+        for (auto i = failAddedCols.rbegin(); i != failAddedCols.rend(); ++i) {
+          removeMatrixColumn(*i);
         }
         PRECICE_ASSERT(_matrixV.cols() == _qrV.cols(), _matrixV.cols(), _qrV.cols());
       }
-- 
2.43.0


From 27b34a0b2e994a7a84340d924df1e31e86c90b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:33 +0000
Subject: [PATCH 15/30] fix: do not access columns of an empty QR decomposition
 in the QR3 filter

---
 src/acceleration/impl/QRFactorization.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/acceleration/impl/QRFactorization.cpp b/src/acceleration/impl/QRFactorization.cpp
index c420e87..4bbdc8d 100644
--- a/src/acceleration/impl/QRFactorization.cpp
+++ b/src/acceleration/impl/QRFactorization.cpp
@@ -149,9 +149,8 @@ void QRFactorization::applyFilter(double singularityLimit, std::vector<int> &del
     resetFilter(singularityLimit, delIndices, V);
 
   } else if (_filter == Acceleration::QR3FILTER) {
-    int index = cols() - 1;
     // Iterate from the last column to the 2nd column from the left
-    for (size_t i = index; i > 0; i--) {
+    for (int i = cols() - 1; i > 0; i--) {
       Eigen::VectorXd v    = V.col(i);
       double          rho0 = utils::IntraComm::l2norm(v);
       if (std::fabs(_R(i, i)) < rho0 * singularityLimit) {
-- 
2.43.0


From 66c0499c3c144aab1768035f25b2ee0175f0f397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:33 +0000
Subject: [PATCH 16/30] fix: check and enforce bounds of accelerated data for
 all time steps of the window

---
 src/acceleration/BaseQNAcceleration.cpp | 24 +++++++++++++++---------
 src/acceleration/BaseQNAcceleration.hpp |  9 ++++++---
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/acceleration/BaseQNAcceleration.cpp b/src/acceleration/BaseQNAcceleration.cpp
index 6dfc836..bd350ae 100644
--- a/src/acceleration/BaseQNAcceleration.cpp
+++ b/src/acceleration/BaseQNAcceleration.cpp
@@ -114,14 +114,20 @@ void BaseQNAcceleration::initialize(
   _firstTimeWindow = true;
 }
 
-std::vector<DataID> BaseQNAcceleration::checkBoundViolation(Eigen::VectorXd &data, DataMap &cplData) const
+Eigen::Index BaseQNAcceleration::getConcatenatedSize(DataID id, const DataMap &cplData, double windowStart) const
+{
+  Eigen::Index timeSteps = _timeGrids.has_value() ? _timeGrids->getTimeGridAfter(id, windowStart).size() : 1;
+  return cplData.at(id)->values().size() * timeSteps;
+}
+
+std::vector<DataID> BaseQNAcceleration::checkBoundViolation(Eigen::VectorXd &data, DataMap &cplData, double windowStart) const
 {
   Eigen::Index        offset       = 0;
   std::vector<DataID> violatingIDs = {};
 
   // check for bound violations
   for (auto id : _dataIDs) {
-    Eigen::Index size = cplData.at(id)->values().size();
+    Eigen::Index size = getConcatenatedSize(id, cplData, windowStart);
 
     if (std::find(_idsWithBounds.begin(), _idsWithBounds.end(), id) == _idsWithBounds.end()) {
       offset += size;
@@ -148,11 +154,11 @@ std::vector<DataID> BaseQNAcceleration::checkBoundViolation(Eigen::VectorXd &dat
   return violatingIDs;
 }
 
-void BaseQNAcceleration::onBoundViolationsClamp(Eigen::VectorXd &data, DataMap &cplData, const std::vector<DataID> &violatingIDs)
+void BaseQNAcceleration::onBoundViolationsClamp(Eigen::VectorXd &data, DataMap &cplData, const std::vector<DataID> &violatingIDs, double windowStart)
 {
   Eigen::Index offset = 0;
   for (auto id : _dataIDs) {
-    Eigen::Index size = cplData.at(id)->values().size();
+    Eigen::Index size = getConcatenatedSize(id, cplData, windowStart);
 
     if (std::find(violatingIDs.begin(), violatingIDs.end(), id) == violatingIDs.end()) {
       offset += size;
@@ -173,13 +179,13 @@ void BaseQNAcceleration::onBoundViolationsClamp(Eigen::VectorXd &data, DataMap &
   }
 }
 
-void BaseQNAcceleration::onBoundViolationsScale(Eigen::VectorXd &data, DataMap &cplData, const std::vector<DataID> &violatingIDs, Eigen::VectorXd &xUpdate)
+void BaseQNAcceleration::onBoundViolationsScale(Eigen::VectorXd &data, DataMap &cplData, const std::vector<DataID> &violatingIDs, Eigen::VectorXd &xUpdate, double windowStart)
 {
   Eigen::Index offset    = 0;
   double       scaleStep = 0.0;
 
   for (auto id : _dataIDs) {
-    Eigen::Index size = cplData.at(id)->values().size();
+    Eigen::Index size = getConcatenatedSize(id, cplData, windowStart);
 
     if (std::find(violatingIDs.begin(), violatingIDs.end(), id) == violatingIDs.end()) {
       offset += size;
@@ -493,14 +499,14 @@ void BaseQNAcceleration::performAcceleration(
   // Check for bound violations
   if (_idsWithBounds.size() > 0 && _onBoundViolation != OnBoundViolation::Ignore) {
     profiling::Event e("CheckBoundViolationsInQN");
-    auto             violatingIDs = checkBoundViolation(_values, cplData);
+    auto             violatingIDs = checkBoundViolation(_values, cplData, windowStart);
 
     for (auto id : violatingIDs) {
       PRECICE_WARN("The coupling data {} has violated its bound after the quasi-Newton acceleration.", cplData.at(id)->getDataName());
     }
 
     if (violatingIDs.size() > 0 && _onBoundViolation == OnBoundViolation::Clamp) {
-      onBoundViolationsClamp(_values, cplData, violatingIDs);
+      onBoundViolationsClamp(_values, cplData, violatingIDs, windowStart);
     }
 
     if (_onBoundViolation == OnBoundViolation::Discard || _onBoundViolation == OnBoundViolation::ScaleToBound) {
@@ -513,7 +519,7 @@ void BaseQNAcceleration::performAcceleration(
         _values -= xUpdate;
       }
       if (violatingSizeSum > 0 && _onBoundViolation == OnBoundViolation::ScaleToBound) {
-        onBoundViolationsScale(_values, cplData, violatingIDs, xUpdate);
+        onBoundViolationsScale(_values, cplData, violatingIDs, xUpdate, windowStart);
       }
     }
   }
diff --git a/src/acceleration/BaseQNAcceleration.hpp b/src/acceleration/BaseQNAcceleration.hpp
index 295589d..4854401 100644
--- a/src/acceleration/BaseQNAcceleration.hpp
+++ b/src/acceleration/BaseQNAcceleration.hpp
@@ -110,15 +110,15 @@ public:
   /**
    * @brief Check bound violations caused by performing QN update.
    */
-  std::vector<DataID> checkBoundViolation(Eigen::VectorXd &data, DataMap &cplData) const;
+  std::vector<DataID> checkBoundViolation(Eigen::VectorXd &data, DataMap &cplData, double windowStart = 0.0) const;
   /**
    * @brief Handles bound violations after QN update by clamping.
    */
-  void onBoundViolationsClamp(Eigen::VectorXd &data, DataMap &cplData, const std::vector<DataID> &violatingIDs);
+  void onBoundViolationsClamp(Eigen::VectorXd &data, DataMap &cplData, const std::vector<DataID> &violatingIDs, double windowStart);
   /**
    * @brief Handles bound violations after QN update by scaling the QN step.
    */
-  void onBoundViolationsScale(Eigen::VectorXd &data, DataMap &cplData, const std::vector<DataID> &violatingIDs, Eigen::VectorXd &xUpdate);
+  void onBoundViolationsScale(Eigen::VectorXd &data, DataMap &cplData, const std::vector<DataID> &violatingIDs, Eigen::VectorXd &xUpdate, double windowStart);
   /**
    * @brief Clamp data to their bounds.
    */
@@ -319,6 +319,9 @@ protected:
   int its = 0, tWindows = 0;
 
 private:
+  /// Returns the number of entries of the given data in the concatenated values, which contain all time steps of the window
+  Eigen::Index getConcatenatedSize(DataID id, const DataMap &cplData, double windowStart) const;
+
   /// @brief Initializes the vectors, matrices and preconditioner
   /// This has to be done after the first iteration of the first time window, since everything in the QN-algorithm is sampled to the timegrid of the first waveform
   void initializeVectorsAndPreconditioner(const DataMap &cplData, double windowStart);
-- 
2.43.0


From af22b8aeee80245083409bea18c05a007fac60c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:52 +0000
Subject: [PATCH 17/30] fix: compute the normal of a triangle from two
 different edges

---
 src/mesh/Triangle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/Triangle.cpp b/src/mesh/Triangle.cpp
index 6e08403..ff14c0f 100644
--- a/src/mesh/Triangle.cpp
+++ b/src/mesh/Triangle.cpp
@@ -75,7 +75,7 @@ double Triangle::getArea() const
 Eigen::VectorXd Triangle::computeNormal() const
 {
   Eigen::Vector3d vectorA = (vertex(1).getCoords() - vertex(0).getCoords()) / 2.0;
-  Eigen::Vector3d vectorB = (vertex(1).getCoords() - vertex(0).getCoords()) / 2.0;
+  Eigen::Vector3d vectorB = (vertex(2).getCoords() - vertex(0).getCoords()) / 2.0;
 
   // Compute cross-product of vector A and vector B
   return vectorA.cross(vectorB).normalized();
-- 
2.43.0


From 327899d0511c26a077371991138e494a77f4407f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:51 +0000
Subject: [PATCH 18/30] fix: rebuild the search index after preprocessing a
 mesh

Mesh::preprocess() adds the edges and triangles implied by higher-dimensional
elements, and removes duplicates, but kept an index built before.
---
 src/mesh/Mesh.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/Mesh.cpp b/src/mesh/Mesh.cpp
index 1ad926d..9928a52 100644
--- a/src/mesh/Mesh.cpp
+++ b/src/mesh/Mesh.cpp
@@ -421,6 +421,7 @@ void Mesh::preprocess()
 {
   removeDuplicates();
   generateImplictPrimitives();
+  _index.clear();
 }
 
 void Mesh::removeDuplicates()
-- 
2.43.0


From 8d65fecb2cd7ff1c9f410a116d2092594eb8b82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:00 +0000
Subject: [PATCH 19/30] fix: keep the iteration and convergence logs when
 reinitializing after remeshing

BaseCouplingScheme::reinitialize() opened new writers, which truncated
precice-<participant>-iterations.log and -convergence.log and lost the rows of
the time windows before the mesh changed.
---
 src/cplscheme/BaseCouplingScheme.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/cplscheme/BaseCouplingScheme.cpp b/src/cplscheme/BaseCouplingScheme.cpp
index 5ea18b9..f187651 100644
--- a/src/cplscheme/BaseCouplingScheme.cpp
+++ b/src/cplscheme/BaseCouplingScheme.cpp
@@ -323,7 +323,6 @@ void BaseCouplingScheme::reinitialize()
         _acceleration->initialize(getAccelerationData());
       }
     }
-    initializeTXTWriters();
   }
 }
 
-- 
2.43.0


From 902b7fe6f7aa5fc0e6e1a974c6c26ca817584ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:16 +0000
Subject: [PATCH 20/30] fix: allow a python action without source data

The source data is documented as optional, but createAction() accessed the last
element of the empty list of source data.
---
 src/action/config/ActionConfiguration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/action/config/ActionConfiguration.cpp b/src/action/config/ActionConfiguration.cpp
index 5d27f71..71354b3 100644
--- a/src/action/config/ActionConfiguration.cpp
+++ b/src/action/config/ActionConfiguration.cpp
@@ -213,7 +213,7 @@ void ActionConfiguration::createAction()
   else if (_configuredAction.type == NAME_PYTHON) {
     action = action::PtrAction(
         new action::PythonAction(timing, _configuredAction.path, _configuredAction.module,
-                                 mesh, targetDataID, sourceDataIDs.back()));
+                                 mesh, targetDataID, sourceDataIDs.empty() ? -1 : sourceDataIDs.back()));
   }
 #endif
   PRECICE_ASSERT(action.get() != nullptr);
-- 
2.43.0


From 061bd017ce49dd01d8c821d49076955183432a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:16 +0000
Subject: [PATCH 21/30] fix: allow a python action without target data

The target data is documented as optional, but performAction() dereferenced it
unconditionally.
---
 src/action/PythonAction.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/action/PythonAction.cpp b/src/action/PythonAction.cpp
index d98bff5..af5b8d3 100644
--- a/src/action/PythonAction.cpp
+++ b/src/action/PythonAction.cpp
@@ -95,6 +95,31 @@ void PythonAction::performAction()
     initialize();
   }
 
+  if (!_targetData) {
+    // Only source data: there is nothing to write back
+    PyObject *dataArgs = PyTuple_New(_numberArguments);
+    if (_sourceData) {
+      for (auto &sourceStample : _sourceData->stamples()) {
+        PyObject *pythonTime = PyFloat_FromDouble(sourceStample.timestamp);
+        PyTuple_SetItem(dataArgs, 0, pythonTime);
+
+        npy_intp sourceDim[]  = {sourceStample.sample.values.size()};
+        double  *sourceValues = const_cast<double *>(sourceStample.sample.values.data());
+        _sourceValues         = PyArray_SimpleNewFromData(1, sourceDim, NPY_DOUBLE, sourceValues);
+        PRECICE_CHECK(_sourceValues != nullptr, "Creating python source values failed. Please check that the source data name is used by the mesh in action:python.");
+        PyTuple_SetItem(dataArgs, 1, _sourceValues);
+
+        PyObject_CallObject(_performAction, dataArgs);
+        PRECICE_CHECK(!PyErr_Occurred(),
+                      "Error occurred during call of function performAction() in python module \"{}\". "
+                      "The error message is: {}",
+                      _moduleName, python_error_as_string());
+      }
+    }
+    Py_DECREF(dataArgs);
+    return;
+  }
+
   if (!_sourceData) {
     PyObject *dataArgs = PyTuple_New(_numberArguments);
     for (auto &targetStample : _targetData->stamples()) {
-- 
2.43.0


From 8c6a931ac23a6f8ce34cc2e0f3eba3d8f2613bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:16 +0000
Subject: [PATCH 22/30] fix: do not call performAction() of a python module
 that does not define it

initialize() only warns about the missing function and stores a null pointer,
which performAction() then called.
---
 src/action/PythonAction.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/action/PythonAction.cpp b/src/action/PythonAction.cpp
index af5b8d3..1d80cfc 100644
--- a/src/action/PythonAction.cpp
+++ b/src/action/PythonAction.cpp
@@ -95,6 +95,11 @@ void PythonAction::performAction()
     initialize();
   }
 
+  // The module does not define performAction(), initialize() already warned about it
+  if (_performAction == nullptr) {
+    return;
+  }
+
   if (!_targetData) {
     // Only source data: there is nothing to write back
     PyObject *dataArgs = PyTuple_New(_numberArguments);
-- 
2.43.0


From c82d0767e54ae3b9c3f276e3611660e6b00309aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:16 +0000
Subject: [PATCH 23/30] fix: use the current path for python actions without a
 module path

This is the documented default, but the empty path was reported as an error.
---
 src/action/PythonAction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/action/PythonAction.cpp b/src/action/PythonAction.cpp
index 1d80cfc..d73bc57 100644
--- a/src/action/PythonAction.cpp
+++ b/src/action/PythonAction.cpp
@@ -60,7 +60,7 @@ PythonAction::PythonAction(
     int                  targetDataID,
     int                  sourceDataID)
     : Action(timing, mesh),
-      _modulePath(std::move(modulePath)),
+      _modulePath(modulePath.empty() ? "." : std::move(modulePath)),
       _moduleName(std::move(moduleName))
 {
   PRECICE_CHECK(std::filesystem::is_directory(_modulePath),
-- 
2.43.0


From 99a3b6f9807890aa66bcb0c3d64a643d63db11b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:16 +0000
Subject: [PATCH 24/30] fix: finalize the python interpreter after its last
 user

With several python actions, the first destructor finalized the interpreter, and
the others then released objects of it.
---
 src/action/PythonAction.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/action/PythonAction.cpp b/src/action/PythonAction.cpp
index d73bc57..e92eb38 100644
--- a/src/action/PythonAction.cpp
+++ b/src/action/PythonAction.cpp
@@ -23,6 +23,9 @@
 namespace precice::action {
 
 namespace {
+/// Number of actions that use the python interpreter
+int interpreterUsers = 0;
+
 std::string python_error_as_string()
 {
   PyObject *ptype, *pvalue, *ptraceback;
@@ -83,7 +86,9 @@ PythonAction::~PythonAction()
     PRECICE_ASSERT(_module != nullptr);
     Py_DECREF(_moduleNameObject);
     Py_DECREF(_module);
-    Py_Finalize();
+    if (--interpreterUsers == 0) {
+      Py_Finalize();
+    }
   }
 }
 
@@ -198,6 +203,7 @@ void PythonAction::initialize()
   _module           = PyImport_Import(_moduleNameObject);
   PRECICE_CHECK(_module,
                 "An error occurred while loading python module \"{}\": {}", _moduleName, python_error_as_string());
+  interpreterUsers++;
 
   // Construct method performAction
   _performAction = PyObject_GetAttrString(_module, "performAction");
@@ -206,6 +212,7 @@ void PythonAction::initialize()
     PRECICE_WARN("Python module \"{}\" does not define function performAction().", _moduleName);
     _performAction = nullptr;
   }
+  _isInitialized = true;
 }
 
 int PythonAction::makeNumPyArraysAvailable()
-- 
2.43.0


From a4bb281acb7f4c042e29310a442d6423ff61a7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:38 +0000
Subject: [PATCH 25/30] fix: forget the projection of a watch point if the mesh
 is empty

A partition which became empty on remeshing kept the distance and the
projection on the previous mesh, so it could be selected to export values of
vertices which do not exist any more. A mesh without any vertex led to the
dereference of a null pointer.
---
 src/precice/impl/WatchPoint.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/precice/impl/WatchPoint.cpp b/src/precice/impl/WatchPoint.cpp
index a1c1e2c..936043c 100644
--- a/src/precice/impl/WatchPoint.cpp
+++ b/src/precice/impl/WatchPoint.cpp
@@ -61,6 +61,10 @@ void WatchPoint::initialize()
     auto match        = _mesh->index().findCellOrProjection(_point, 4);
     _shortestDistance = match.polation.distance();
     _interpolation    = std::make_unique<mapping::Polation>(std::move(match.polation));
+  } else {
+    // The mesh may have been non-empty in a previous initialization
+    _shortestDistance = std::numeric_limits<double>::max();
+    _interpolation.reset();
   }
 
   if (utils::IntraComm::isSecondary()) {
@@ -91,7 +95,8 @@ void WatchPoint::initialize()
 void WatchPoint::exportPointData(
     double time)
 {
-  if (!_isClosest) {
+  // There is no projection if the mesh is empty on all ranks
+  if (!_isClosest || !_interpolation) {
     return;
   }
 
-- 
2.43.0


From 8bf9c330f9b8a02e91a5525be34c1324be6e7bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:38 +0000
Subject: [PATCH 26/30] fix: write the series file of exports of every
 iteration

The series was only written after the initial export with update-series, so
that it never contained the exported iterations.
---
 src/precice/impl/ParticipantState.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/precice/impl/ParticipantState.cpp b/src/precice/impl/ParticipantState.cpp
index 75d3862..80b6872 100644
--- a/src/precice/impl/ParticipantState.cpp
+++ b/src/precice/impl/ParticipantState.cpp
@@ -407,14 +407,12 @@ void ParticipantState::exportIntermediate(IntermediateExport exp)
     if (context.everyIteration) {
       PRECICE_DEBUG("Exporting mesh {} for iteration {} to location \"{}\"", context.meshName, exp.iteration, context.location);
       context.exporter->doExport(exp.iteration, exp.time);
-      continue;
-    }
-    if (exp.complete) {
+    } else if (exp.complete) {
       PRECICE_DEBUG("Exporting mesh {} for timewindow {} to location \"{}\"", context.meshName, exp.timewindow, context.location);
       context.exporter->doExport(exp.timewindow, exp.time);
     }
 
-    if (exp.final || (exp.complete && context.updateSeries)) {
+    if (exp.final || ((exp.complete || context.everyIteration) && context.updateSeries)) {
       PRECICE_DEBUG("Exporting series file of mesh {} to location \"{}\"", context.meshName, context.location);
       context.exporter->exportSeries();
     }
-- 
2.43.0


From 0014b5f1b23398b63e73345050fe80e9bac4a26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:38 +0000
Subject: [PATCH 27/30] fix: decide on the connectivity of a watch integral for
 the complete mesh

Each rank decided by itself. The surface area was not written if the primary
rank has no edges and ranks without edges added plain sums of values to the
scaled integrals of the others. Remeshing added a second column.
---
 src/precice/impl/WatchIntegral.cpp | 33 ++++++++++++++++++------------
 src/precice/impl/WatchIntegral.hpp |  8 ++++++++
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/precice/impl/WatchIntegral.cpp b/src/precice/impl/WatchIntegral.cpp
index 7ee8079..a8df287 100644
--- a/src/precice/impl/WatchIntegral.cpp
+++ b/src/precice/impl/WatchIntegral.cpp
@@ -45,11 +45,24 @@ WatchIntegral::WatchIntegral(
 
 void WatchIntegral::initialize()
 {
+  // The connectivity is a property of the mesh, partitions may be without edges
+  int localEdges  = static_cast<int>(_mesh->edges().size());
+  int globalEdges = localEdges;
+  if (utils::IntraComm::getSize() > 1) {
+    utils::IntraComm::allreduceSum(localEdges, globalEdges);
+  }
+  _hasConnectivity = globalEdges > 0;
+
   // Do not add surface area column if there is no connectivity
-  if ((not utils::IntraComm::isSecondary()) and (not _mesh->edges().empty())) {
-    _txtWriter.addData("SurfaceArea", io::TXTTableWriter::DOUBLE);
+  // The columns remain the same if the mesh changes and this is called again
+  if (!_isInitialized) {
+    _isInitialized     = true;
+    _writesSurfaceArea = _hasConnectivity;
+    if (_writesSurfaceArea && (not utils::IntraComm::isSecondary())) {
+      _txtWriter.addData("SurfaceArea", io::TXTTableWriter::DOUBLE);
+    }
   }
-  PRECICE_WARN_IF(_isScalingOn && _mesh->edges().empty(),
+  PRECICE_WARN_IF(_isScalingOn && !_hasConnectivity,
                   "Watch-integral is configured with scaling option on; "
                   "however, mesh {} does not contain connectivity information. "
                   "Therefore, the integral will be calculated without scaling.",
@@ -85,7 +98,7 @@ void WatchIntegral::exportIntegralData(
   }
 
   // Calculate surface area only if there is connectivity information
-  if (not _mesh->edges().empty()) {
+  if (_writesSurfaceArea) {
     double surfaceArea = calculateSurfaceArea();
     if (utils::IntraComm::getSize() > 1) {
       double surfaceAreaSum = 0.0;
@@ -95,13 +108,6 @@ void WatchIntegral::exportIntegralData(
     if (not utils::IntraComm::isSecondary()) {
       _txtWriter.writeData("SurfaceArea", surfaceArea);
     }
-  } else {
-    // Empty partitions should also call reduceSum to prevent deadlock
-    if (utils::IntraComm::getSize() > 1) {
-      double surfaceArea    = 0.0;
-      double surfaceAreaSum = 0.0;
-      utils::IntraComm::reduceSum(surfaceArea, surfaceAreaSum);
-    }
   }
 }
 
@@ -111,7 +117,7 @@ Eigen::VectorXd WatchIntegral::calculateIntegral(double time, const mesh::PtrDat
   const auto      sample = data->waveform().sample(time);
   Eigen::VectorXd sum    = Eigen::VectorXd::Zero(dim);
 
-  if (_mesh->edges().empty() || (not _isScalingOn)) {
+  if (!_hasConnectivity || (not _isScalingOn)) {
     for (const auto &vertex : _mesh->vertices()) {
       int offset = vertex.getID() * dim;
       for (int i = 0; i < dim; i++) {
@@ -119,6 +125,8 @@ Eigen::VectorXd WatchIntegral::calculateIntegral(double time, const mesh::PtrDat
       }
     }
     return sum;
+  } else if (_mesh->edges().empty()) { // This partition does not contribute
+    return sum;
   } else { // Connectivity information is given
     return mesh::integrateSurface(_mesh, sample.values());
   }
@@ -126,7 +134,6 @@ Eigen::VectorXd WatchIntegral::calculateIntegral(double time, const mesh::PtrDat
 
 double WatchIntegral::calculateSurfaceArea() const
 {
-  PRECICE_ASSERT(not _mesh->edges().empty());
   double surfaceArea = 0.0;
   if (_mesh->getDimensions() == 3) {
     for (const auto &face : _mesh->triangles()) {
diff --git a/src/precice/impl/WatchIntegral.hpp b/src/precice/impl/WatchIntegral.hpp
index f8056af..936d239 100644
--- a/src/precice/impl/WatchIntegral.hpp
+++ b/src/precice/impl/WatchIntegral.hpp
@@ -52,6 +52,14 @@ private:
 
   bool _isScalingOn;
 
+  /// Does any partition of the mesh have connectivity?
+  bool _hasConnectivity = false;
+
+  /// Has the mesh had connectivity when the columns of the table were defined?
+  bool _writesSurfaceArea = false;
+
+  bool _isInitialized = false;
+
   Eigen::VectorXd calculateIntegral(double time, const mesh::PtrData &data) const;
 
   double calculateSurfaceArea() const;
-- 
2.43.0


From 04f32c76ad7afb8e1462a7547d6951f4db8158d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:49 +0000
Subject: [PATCH 28/30] fix: complete just-in-time mappings of which only the
 polynomial part is nonzero

---
 src/mapping/PartitionOfUnityMapping.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mapping/PartitionOfUnityMapping.hpp b/src/mapping/PartitionOfUnityMapping.hpp
index ccb536c..d9e2704 100644
--- a/src/mapping/PartitionOfUnityMapping.hpp
+++ b/src/mapping/PartitionOfUnityMapping.hpp
@@ -417,7 +417,7 @@ void PartitionOfUnityMapping<RADIAL_BASIS_FUNCTION_T>::completeJustInTimeMapping
 
   for (std::size_t c = 0; c < _clusters.size(); ++c) {
     // If there is no contribution, we don't have to evaluate
-    if (cache.p[c].squaredNorm() > 0) {
+    if (cache.p[c].squaredNorm() > 0 || cache.polynomialContributions[c].squaredNorm() > 0) {
       _clusters[c].evaluateConservativeCache(cache.polynomialContributions[c], cache.p[c], buffer);
     }
   }
-- 
2.43.0


From ea04d39a4f4a102316c0f40739cef04a75dc5dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:40 +0000
Subject: [PATCH 29/30] fix: reject configured numbers that cannot be parsed or
 represented

---
 src/xml/ValueParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xml/ValueParser.cpp b/src/xml/ValueParser.cpp
index 510b32c..a869493 100644
--- a/src/xml/ValueParser.cpp
+++ b/src/xml/ValueParser.cpp
@@ -20,7 +20,7 @@ double parseDouble(const std::string &rawValue)
   }
   double value;
   iss >> value;
-  if (!iss.eof()) {
+  if ((iss.fail() && !rawValue.empty()) || !iss.eof()) {
     throw std::runtime_error{"Could not fully parse value \"" + rawValue + "\" as a double."};
   }
   return value;
@@ -47,7 +47,7 @@ void readValueSpecific(const std::string &rawValue, int &value)
   } catch (...) {
   }
   iss >> value;
-  if (!iss.eof()) {
+  if ((iss.fail() && !rawValue.empty()) || !iss.eof()) {
     throw std::runtime_error{"Could not fully parse value \"" + rawValue + "\" as an int."};
   }
 }
-- 
2.43.0


From 9df531768b53083287c60d71c0483e86d2293ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:41 +0000
Subject: [PATCH 30/30] fix: decode ampersands in attributes of the
 configuration, and every entity only once

---
 src/xml/ConfigParser.cpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/xml/ConfigParser.cpp b/src/xml/ConfigParser.cpp
index 12c7efb..fb1b443 100644
--- a/src/xml/ConfigParser.cpp
+++ b/src/xml/ConfigParser.cpp
@@ -23,21 +23,20 @@ namespace precice::xml {
 
 std::string decodeXML(std::string_view xml)
 {
-  static const std::map<std::string_view, char> escapes{{"&lt;", '<'}, {"&gt;", '>'}, {"&amp;", '&'}, {"&quot;", '"'}, {"&apos;", '\''}};
-  std::string                                   decodedXml(xml);
-  while (true) {
-    bool changes{false};
-    for (const auto &kv : escapes) {
-      auto position = decodedXml.find(kv.first);
-      if (position != std::string::npos) {
-        decodedXml.replace(position, kv.first.length(), 1, kv.second);
-        changes = true;
-      }
-    }
-    if (!changes) {
-      break;
+  // libxml2 passes ampersands in attribute values on as &#38;
+  static const std::map<std::string_view, char> escapes{{"&lt;", '<'}, {"&gt;", '>'}, {"&amp;", '&'}, {"&#38;", '&'}, {"&quot;", '"'}, {"&apos;", '\''}};
+  std::string                                   decodedXml;
+  decodedXml.reserve(xml.size());
+  while (!xml.empty()) {
+    auto escape = std::find_if(escapes.begin(), escapes.end(), [xml](const auto &kv) { return xml.substr(0, kv.first.size()) == kv.first; });
+    if (escape != escapes.end()) {
+      decodedXml += escape->second;
+      xml.remove_prefix(escape->first.size());
+    } else {
+      decodedXml += xml.front();
+      xml.remove_prefix(1);
     }
-  };
+  }
   return decodedXml;
 }
 
-- 
2.43.0

