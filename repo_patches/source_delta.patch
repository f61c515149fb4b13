From e91a7a5ba3a0a4b3c6064113ae418c8ef9160409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:34 +0000
Subject: [PATCH 01/66] fix: sort members of externally loaded regions before
 building the mesh

Builders look regions up by bisection. Databases may list nodes or elements of a
region in an arbitrary order, which silently dropped members of such regions.
---
 src/input/meshbuilder.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/input/meshbuilder.cpp b/src/input/meshbuilder.cpp
index 251df8c..bd21934 100644
--- a/src/input/meshbuilder.cpp
+++ b/src/input/meshbuilder.cpp
@@ -2,6 +2,7 @@
 #include "meshbuilder.h"
 #include "basis/containers/serializededata.h"
 #include "basis/logging/profiler.h"
+#include "basis/utilities/utils.h"
 #include "basis/evaluator/evaluator.h"
 #include "wrappers/mpi/communication.h"
 #include "esinfo/eslog.hpp"
@@ -152,6 +153,16 @@ void MeshBuilder::build()
 //        }
 //    });
 
+    if (type != TYPE::GENERATED) {
+        // builders search regions by bisection, but databases can list their members in an arbitrary order
+        for (auto region = nregions.begin(); region != nregions.end(); ++region) {
+            utils::sortAndRemoveDuplicates(region->second);
+        }
+        for (auto region = eregions.begin(); region != eregions.end(); ++region) {
+            utils::sortAndRemoveDuplicates(region->second);
+        }
+    }
+
     switch (type) {
     case TYPE::GENERAL:
     case TYPE::SORTED: // TODO: optimized builder
-- 
2.43.0


From 9bde6a6dc4cc1d025b746a88a02105496fff4abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:20 +0000
Subject: [PATCH 02/66] fix: METIS reclusterization of meshes with more bodies
 than MPI processes

A continuous partition of each body needs at least one process per body. With
more bodies (or small bodies rounded up to a whole process) elements were sent
to non-existing processes.
---
 src/mesh/preprocessing/pure.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mesh/preprocessing/pure.cpp b/src/mesh/preprocessing/pure.cpp
index 6c36516..a1bd941 100644
--- a/src/mesh/preprocessing/pure.cpp
+++ b/src/mesh/preprocessing/pure.cpp
@@ -701,8 +701,13 @@ void computeElementsClusterization(const ElementStore *elements, BodyStore *bodi
 //    }
 
     int parts = 1;
-    if (info::ecf->input.decomposition.parallel_decomposer == DecompositionConfiguration::ParallelDecomposer::METIS && info::ecf->input.decomposition.metis_options.contig) {
-        parts = bodies->totalSize;
+    bool contig = info::ecf->input.decomposition.metis_options.contig;
+    if (info::ecf->input.decomposition.parallel_decomposer == DecompositionConfiguration::ParallelDecomposer::METIS && contig) {
+        if ((int)bodies->totalSize <= info::mpi::size) {
+            parts = bodies->totalSize;
+        } else { // continuity cannot be satisfied if there are more bodies than processes
+            info::ecf->input.decomposition.metis_options.contig = false;
+        }
     }
 
     std::vector<size_t> psize(parts);
@@ -739,6 +744,9 @@ void computeElementsClusterization(const ElementStore *elements, BodyStore *bodi
             psize[p] = std::max(1UL, psize[p] * info::mpi::size / totalsize);
             rest -= psize[p];
         }
+        for (; rest < 0; ++rest) { // small bodies are rounded up to a whole process
+            --*std::max_element(psize.begin(), psize.end());
+        }
 
         // exchange new elements IDs
         std::map<esint, esint> eid;
@@ -781,6 +789,7 @@ void computeElementsClusterization(const ElementStore *elements, BodyStore *bodi
     for (int p = 0; p < parts; ++p) {
         callParallelDecomposer(elements, nodes, dist[p], data[p], part[p], psize[p]);
     }
+    info::ecf->input.decomposition.metis_options.contig = contig;
 
     partition.clear();
     utils::sizesToOffsets(psize);
-- 
2.43.0


From 4bec3a67bd4409b4726ec27893ba2c624e03df0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:41 +0000
Subject: [PATCH 03/66] fix: parsing of ASCII sections shorter than the number
 of threads

Thread borders aligned to the next token could overtake each other, which made
the size of a thread's chunk negative.
---
 src/input/parsers/asciiparser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/input/parsers/asciiparser.cpp b/src/input/parsers/asciiparser.cpp
index c2b09ea..ac6db95 100644
--- a/src/input/parsers/asciiparser.cpp
+++ b/src/input/parsers/asciiparser.cpp
@@ -80,10 +80,14 @@ void setDistribution(InputFile &file, size_t begin, size_t end, std::vector<size
             tdistribution[t] += mpibegin;
         }
         for (size_t t = 1; t + 1 < tdistribution.size(); ++t) {
+            if (tdistribution[t] < tdistribution[t - 1]) { // small sections can be fully parsed by previous threads
+                tdistribution[t] = tdistribution[t - 1];
+                continue;
+            }
             if (toLines) {
-                while (*(file.begin + tdistribution[t]++) != '\n');
+                while (tdistribution[t] < mpiend && *(file.begin + tdistribution[t]++) != '\n');
             } else {
-                while (!ASCIIParser::isempty(file.begin + tdistribution[t]++));
+                while (tdistribution[t] < mpiend && !ASCIIParser::isempty(file.begin + tdistribution[t]++));
             }
         }
     } else {
-- 
2.43.0


From 73c7846b80d8dbbaaa90d2d076140ea37b1da702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:17 +0000
Subject: [PATCH 04/66] fix: compute coordinates of integration points for
 position dependent conductivity

---
 src/analysis/assembler/heattransfer/op.conductivity.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/analysis/assembler/heattransfer/op.conductivity.h b/src/analysis/assembler/heattransfer/op.conductivity.h
index 744a456..8658411 100644
--- a/src/analysis/assembler/heattransfer/op.conductivity.h
+++ b/src/analysis/assembler/heattransfer/op.conductivity.h
@@ -26,6 +26,7 @@ struct Conductivity: SubKernel {
         this->rotated = coordinateSystem->isRotated() && conductivity->model != ThermalConductivityConfiguration::MODEL::ISOTROPIC;
         this->constRotation = coordinateSystem->type == CoordinateSystemConfiguration::TYPE::CARTESIAN && coordinateSystem->isConst();
         this->isactive = !this->isconst || !this->constRotation;
+        this->needCoordinates = conductivity->needCoordinates() || !coordinateSystem->isConst();
     }
 
     const ThermalConductivityConfiguration *conductivity;
-- 
2.43.0


From cf74cdb55df632b2d5836600f48eb12a7f7b164f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:17 +0000
Subject: [PATCH 05/66] fix: evaluate conductivity that depends on time only

---
 src/analysis/assembler/heattransfer/op.conductivity.h |  2 +-
 src/config/ecf/material/thermalconductivity.cpp       | 10 ++++++++++
 src/config/ecf/material/thermalconductivity.h         |  1 +
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/analysis/assembler/heattransfer/op.conductivity.h b/src/analysis/assembler/heattransfer/op.conductivity.h
index 8658411..7ce32c2 100644
--- a/src/analysis/assembler/heattransfer/op.conductivity.h
+++ b/src/analysis/assembler/heattransfer/op.conductivity.h
@@ -21,7 +21,7 @@ struct Conductivity: SubKernel {
     {
         this->conductivity = conductivity;
         this->coordinateSystem = coordinateSystem;
-        this->isconst = !(conductivity->needCoordinates() || conductivity->needTemperature()) && coordinateSystem->isConst();
+        this->isconst = conductivity->isConst() && coordinateSystem->isConst();
         this->type = coordinateSystem->type;
         this->rotated = coordinateSystem->isRotated() && conductivity->model != ThermalConductivityConfiguration::MODEL::ISOTROPIC;
         this->constRotation = coordinateSystem->type == CoordinateSystemConfiguration::TYPE::CARTESIAN && coordinateSystem->isConst();
diff --git a/src/config/ecf/material/thermalconductivity.cpp b/src/config/ecf/material/thermalconductivity.cpp
index 9c72b91..7c2b408 100644
--- a/src/config/ecf/material/thermalconductivity.cpp
+++ b/src/config/ecf/material/thermalconductivity.cpp
@@ -73,6 +73,16 @@ espreso::ThermalConductivityConfiguration::ThermalConductivityConfiguration()
             .addconstraint(ECFCondition(model, ECFCondition::EQUALS, MODEL::ANISOTROPIC)));
 }
 
+bool espreso::ThermalConductivityConfiguration::isConst() const
+{
+    for (size_t i = 0; i < values.values.size(); ++i) {
+        if (values.values[i].evaluator && !values.values[i].evaluator->isConst()) {
+            return false;
+        }
+    }
+    return true;
+}
+
 bool espreso::ThermalConductivityConfiguration::needCoordinates() const
 {
     for (size_t i = 0; i < values.values.size(); ++i) {
diff --git a/src/config/ecf/material/thermalconductivity.h b/src/config/ecf/material/thermalconductivity.h
index 50204e6..0f03a45 100644
--- a/src/config/ecf/material/thermalconductivity.h
+++ b/src/config/ecf/material/thermalconductivity.h
@@ -22,6 +22,7 @@ struct ThermalConductivityConfiguration: public ECFDescription {
 
     ThermalConductivityConfiguration();
 
+    bool isConst() const;
     bool needCoordinates() const;
     bool needTemperature() const;
 };
-- 
2.43.0


From be57ad9111b68afcf2ad8d217226bb22ee51b2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:08 +0000
Subject: [PATCH 06/66] fix: store gradient and flux of the elements of the
 interval only

---
 src/analysis/assembler/heattransfer/op.flux.h     | 4 ++--
 src/analysis/assembler/heattransfer/op.gradient.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/analysis/assembler/heattransfer/op.flux.h b/src/analysis/assembler/heattransfer/op.flux.h
index da8e9eb..1ff5a2a 100644
--- a/src/analysis/assembler/heattransfer/op.flux.h
+++ b/src/analysis/assembler/heattransfer/op.flux.h
@@ -90,7 +90,7 @@ struct TemperatureFluxKernel<nodes, gps, 2>: TemperatureFlux {
         SIMD scale = load1(1. / gps);
         element.flux[0] = element.flux[0] * scale;
         element.flux[1] = element.flux[1] * scale;
-        size_t size = std::min((size_t)SIMD::size, (size_t)(end - flux));
+        size_t size = element.elements;
         double * __restrict__ out = flux;
         for (size_t s = 0; s < size; ++s) {
             out[2 * s + 0] = element.flux[0][s];
@@ -167,7 +167,7 @@ struct TemperatureFluxKernel<nodes, gps, 3>: TemperatureFlux {
         element.flux[0] = element.flux[0] * scale;
         element.flux[1] = element.flux[1] * scale;
         element.flux[2] = element.flux[2] * scale;
-        size_t size = std::min((size_t)SIMD::size, (size_t)(end - flux));
+        size_t size = element.elements;
         double * __restrict__ out = flux;
         for (size_t s = 0; s < size; ++s) {
             out[3 * s + 0] = element.flux[0][s];
diff --git a/src/analysis/assembler/heattransfer/op.gradient.h b/src/analysis/assembler/heattransfer/op.gradient.h
index 720ac4c..de5d395 100644
--- a/src/analysis/assembler/heattransfer/op.gradient.h
+++ b/src/analysis/assembler/heattransfer/op.gradient.h
@@ -49,7 +49,7 @@ struct TemperatureGradientKernel<nodes, gps, 2>: TemperatureGradient {
         SIMD scale = load1(1. / gps);
         element.gradient[0] = element.gradient[0] * scale;
         element.gradient[1] = element.gradient[1] * scale;
-        size_t size = std::min((size_t)SIMD::size, (size_t)(end - gradient));
+        size_t size = element.elements;
         double * __restrict__ out = gradient;
         for (size_t s = 0; s < size; ++s) {
             out[2 * s + 0] = element.gradient[0][s];
@@ -81,7 +81,7 @@ struct TemperatureGradientKernel<nodes, gps, 3>: TemperatureGradient {
         element.gradient[0] = element.gradient[0] * scale;
         element.gradient[1] = element.gradient[1] * scale;
         element.gradient[2] = element.gradient[2] * scale;
-        size_t size = std::min((size_t)SIMD::size, (size_t)(end - gradient));
+        size_t size = element.elements;
         double * __restrict__ out = gradient;
         for (size_t s = 0; s < size; ++s) {
             out[3 * s + 0] = element.gradient[0][s];
-- 
2.43.0


From 169040c5851b9b59daa092f747b89782563bccb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:57 +0000
Subject: [PATCH 07/66] fix: derivatives in the stabilization of 3D translation
 motion

---
 src/analysis/assembler/heattransfer/op.advection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis/assembler/heattransfer/op.advection.h b/src/analysis/assembler/heattransfer/op.advection.h
index 24d3ec6..f5b9e95 100644
--- a/src/analysis/assembler/heattransfer/op.advection.h
+++ b/src/analysis/assembler/heattransfer/op.advection.h
@@ -101,7 +101,7 @@ template <size_t nodes> struct AdvectionKernel<nodes, 3>: Advection {
         element.conductivity[8] = element.conductivity[8] + stabilization;
 
         for (size_t n = 0; n < nodes; ++n) {
-            SIMD scale = element.det * load1(element.w[gp]) * (load1(element.N[gp][n]) + advection * (ux * element.dND[n * 2 + 0] + uy * element.dND[n * 3 + 1] + uz * element.dND[n * 3 + 2]));
+            SIMD scale = element.det * load1(element.w[gp]) * (load1(element.N[gp][n]) + advection * (ux * element.dND[n * 3 + 0] + uy * element.dND[n * 3 + 1] + uz * element.dND[n * 3 + 2]));
             for (size_t m = 0; m < nodes; ++m) {
                 element.K[n * nodes + m] = element.K[n * nodes + m] + scale * (ux * element.dND[m * 3 + 0] + uy * element.dND[m * 3 + 1] + uz * element.dND[m * 3 + 2]);
             }
-- 
2.43.0


From ffbd244e69519154cbb63e1b97cf1ec9197f74c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:36 +0000
Subject: [PATCH 08/66] fix: coordinates of integration points when only some
 components of a vector depend on them

---
 src/analysis/assembler/general/boundarycondition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis/assembler/general/boundarycondition.h b/src/analysis/assembler/general/boundarycondition.h
index 54a8e63..2fec14c 100644
--- a/src/analysis/assembler/general/boundarycondition.h
+++ b/src/analysis/assembler/general/boundarycondition.h
@@ -37,7 +37,7 @@ struct BoundaryCondition: public SubKernel {
         if (this->expressionVector) {
             this->isconst = expressionVector->x.evaluator->isConst() && expressionVector->y.evaluator->isConst() && expressionVector->z.evaluator->isConst();
             this->isactive = 1;
-            this->needCoordinates = expressionVector->x.evaluator->needCoordinates() && expressionVector->y.evaluator->needCoordinates() && expressionVector->z.evaluator->needCoordinates();
+            this->needCoordinates = expressionVector->x.evaluator->needCoordinates() || expressionVector->y.evaluator->needCoordinates() || expressionVector->z.evaluator->needCoordinates();
         }
     }
 
-- 
2.43.0


From 71ac4fcbc0047ce92098e0c0291a4c77d1130c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:11 +0000
Subject: [PATCH 09/66] fix: NaN solution when PCPG reaches the exact solution

---
 src/feti/iterativesolver/orthopcpg.cpp | 2 +-
 src/feti/iterativesolver/pcpg.cpp      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/feti/iterativesolver/orthopcpg.cpp b/src/feti/iterativesolver/orthopcpg.cpp
index c110bf2..321b6c6 100644
--- a/src/feti/iterativesolver/orthopcpg.cpp
+++ b/src/feti/iterativesolver/orthopcpg.cpp
@@ -95,7 +95,7 @@ template <> void OrthogonalizedPCPG<double>::solve(const step::Step &step, Itera
         F->apply(p, Fp);
         eslog::accumulatedln("orthopcpg: apply F");
         pFp.push_back(p.dot(Fp));
-        double gamma = yw / pFp.back();
+        double gamma = yw == 0 ? 0 : yw / pFp.back(); // the exact solution is already in x
         eslog::accumulatedln("orthopcpg: dot(p, Fp)");
 
         // x = x + gamma * p
diff --git a/src/feti/iterativesolver/pcpg.cpp b/src/feti/iterativesolver/pcpg.cpp
index 68b85f1..7231e8e 100644
--- a/src/feti/iterativesolver/pcpg.cpp
+++ b/src/feti/iterativesolver/pcpg.cpp
@@ -104,7 +104,7 @@ template <> void PCPG<double>::solve(const step::Step &step, IterativeSolverInfo
         // gamma = (y, w) / (p, F * p)
         F->apply(p, Fp);
         eslog::accumulatedln("pcpg: apply F");
-        double pFp = p.dot(Fp), gamma = yw / pFp;
+        double pFp = p.dot(Fp), gamma = yw == 0 ? 0 : yw / pFp; // the exact solution is already in x
         eslog::accumulatedln("pcpg: dot(p, Fp)");
 
         // x = x + gamma * p
@@ -127,7 +127,7 @@ template <> void PCPG<double>::solve(const step::Step &step, IterativeSolverInfo
 
 
         // beta = (y+1, w+1) / (y, w)
-        double _yw = y.dot(w), beta = _yw / yw;
+        double _yw = y.dot(w), beta = yw == 0 ? 0 : _yw / yw;
         eslog::accumulatedln("pcpg: dot(y, w)");
 
         // p = y + beta * p  (y is not used anymore)
-- 
2.43.0


From 9ddf35b8897fbb87485269753f3b765be5a6d29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:57 +0000
Subject: [PATCH 10/66] fix: parse a part of mixed elements that contains only
 the rest of an element of a lower process

---
 src/input/parsers/mixedelementsparser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/input/parsers/mixedelementsparser.cpp b/src/input/parsers/mixedelementsparser.cpp
index 4fef7b7..f093479 100644
--- a/src/input/parsers/mixedelementsparser.cpp
+++ b/src/input/parsers/mixedelementsparser.cpp
@@ -5,6 +5,8 @@
 #include "esinfo/mpiinfo.h"
 #include "esinfo/eslog.h"
 
+#include <algorithm>
+
 using namespace espreso;
 
 void MixedElementsParser::add(esint *data, size_t size)
@@ -71,9 +73,12 @@ void MixedElementsParser::recognize(size_t index, esint &esize, esint &coffset,
         size_t lastrecognized = tryrecognize(coffset);
         if (_elements[index].size <= lastrecognized) {
             missing = lastrecognized - _elements[index].size;
-            break;
+            return;
         }
     }
+    // there is not any element beginning here (only a rest of an element from a lower process)
+    esize = 0;
+    missing = std::max((esint)0, coffset - (esint)_elements[index].size);
 }
 
 void MixedElementsParser::fix(std::vector<esint> &lmissing, std::vector<esint> &esize, std::vector<int> &last, std::function<esint(size_t, esint)> enodes)
-- 
2.43.0


From 5071dde6a2ce5d09338b1c2fefbee2bdfec0a2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:21 +0000
Subject: [PATCH 11/66] fix: evaluate position dependent loads and density of
 structural mechanics in integration points

---
 src/analysis/assembler/general/material.h            |  4 ++++
 src/analysis/assembler/structuralmechanics.cpp       | 12 ++++++++----
 .../assembler/structuralmechanics/op.pressure.h      |  2 +-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/analysis/assembler/general/material.h b/src/analysis/assembler/general/material.h
index 8a4957c..b88d359 100644
--- a/src/analysis/assembler/general/material.h
+++ b/src/analysis/assembler/general/material.h
@@ -3,6 +3,7 @@
 #define SRC_ANALYSIS_ASSEMBLER_SUBKERNEL_MATERIAL_H_
 
 #include "subkernel.h"
+#include "basis/evaluator/evaluator.h"
 #include "config/ecf/material/material.h"
 
 namespace espreso {
@@ -19,6 +20,9 @@ struct Material: SubKernel {
     void activate(const MaterialConfiguration *configuration)
     {
         this->configuration = configuration;
+        this->needCoordinates =
+                (configuration->density.evaluator && configuration->density.evaluator->needCoordinates()) ||
+                (configuration->heat_capacity.evaluator && configuration->heat_capacity.evaluator->needCoordinates());
     }
 
     const MaterialConfiguration *configuration;
diff --git a/src/analysis/assembler/structuralmechanics.cpp b/src/analysis/assembler/structuralmechanics.cpp
index 3b21810..6f85843 100644
--- a/src/analysis/assembler/structuralmechanics.cpp
+++ b/src/analysis/assembler/structuralmechanics.cpp
@@ -406,9 +406,13 @@ bool StructuralMechanics::analyze(const step::Step &step)
             elementKernels[i].thickness.activate(getExpression(i, settings.thickness), info::mesh->elements->nodes->cbegin() + ebegin, info::mesh->elements->nodes->cbegin() + eend, Results::thickness->data.data());
         }
 
+        elementKernels[i].material.activate(mat, settings.element_behaviour, configuration.mode == LoadStepSolverConfiguration::MODE::NONLINEAR && !configuration.corotation);
+        elementKernels[i].acceleration.activate(getExpression(i, configuration.acceleration), settings.element_behaviour);
+        elementKernels[i].angularVelocity.activate(getExpression(i, configuration.angular_velocity), settings.element_behaviour);
+        gpcoo |= elementKernels[i].material.needCoordinates || elementKernels[i].acceleration.needCoordinates;
+
         elementKernels[i].coordinates.activate(info::mesh->elements->nodes->cbegin() + ebegin, info::mesh->elements->nodes->cbegin() + eend, !cartesian || gpcoo);
         elementKernels[i].displacement.activate(info::mesh->elements->nodes->cbegin() + ebegin, info::mesh->elements->nodes->cbegin() + eend, Results::displacement->data.data());
-        elementKernels[i].material.activate(mat, settings.element_behaviour, configuration.mode == LoadStepSolverConfiguration::MODE::NONLINEAR && !configuration.corotation);
 
         elementKernels[i].matrixElasticity.activate(settings.element_behaviour, configuration.mode == LoadStepSolverConfiguration::MODE::NONLINEAR && !configuration.corotation);
         if (configuration.corotation) {
@@ -422,8 +426,6 @@ bool StructuralMechanics::analyze(const step::Step &step)
 //            elementKernels[i].postM.activate();
 //            elementKernels[i].postM.action = SubKernel::SOLUTION;
 //        }
-        elementKernels[i].acceleration.activate(getExpression(i, configuration.acceleration), settings.element_behaviour);
-        elementKernels[i].angularVelocity.activate(getExpression(i, configuration.angular_velocity), settings.element_behaviour);
         if (Results::principalStress) {
             elementKernels[i].displacement.activate(info::mesh->elements->nodes->cbegin() + ebegin, info::mesh->elements->nodes->cbegin() + eend, Results::displacement->data.data());
             elementKernels[i].stress.activate(info::mesh->elements->nodes->cbegin() + ebegin, info::mesh->elements->nodes->cbegin() + eend, i, nodeMultiplicity.data());
@@ -453,13 +455,15 @@ bool StructuralMechanics::analyze(const step::Step &step)
         }
         if (info::mesh->boundaryRegions[r]->dimension) {
             for (size_t i = 0; i < info::mesh->boundaryRegions[r]->eintervals.size(); ++i) {
-                faceKernels[r][i].coordinates.activate(region->elements->cbegin() + region->eintervals[i].begin, region->elements->cbegin() + region->eintervals[i].end, settings.element_behaviour == StructuralMechanicsGlobalSettings::ELEMENT_BEHAVIOUR::AXISYMMETRIC);
                 faceKernels[r][i].normalPressure.activate(getExpression(region->name, configuration.normal_pressure), settings.element_behaviour);
                 faceKernels[r][i].displacement.activate(region->elements->cbegin() + region->eintervals[i].begin, region->elements->cbegin() + region->eintervals[i].end, Results::displacement->data.data());
                 auto pressure = configuration.pressure.find(region->name);
                 if (pressure != configuration.pressure.end()) {
                     faceKernels[r][i].pressure.activate(pressure->second.pressure, pressure->second.direction, settings.element_behaviour);
                 }
+                bool gpcoo = settings.element_behaviour == StructuralMechanicsGlobalSettings::ELEMENT_BEHAVIOUR::AXISYMMETRIC;
+                gpcoo |= faceKernels[r][i].normalPressure.needCoordinates || faceKernels[r][i].pressure.needCoordinates;
+                faceKernels[r][i].coordinates.activate(region->elements->cbegin() + region->eintervals[i].begin, region->elements->cbegin() + region->eintervals[i].end, gpcoo);
                 if (force) {
                     faceKernels[r][i].force.activate(force->data.data(), region->eintervals[i].begin, region->eintervals[i].end);
                 }
diff --git a/src/analysis/assembler/structuralmechanics/op.pressure.h b/src/analysis/assembler/structuralmechanics/op.pressure.h
index 96c7ca8..aca7858 100644
--- a/src/analysis/assembler/structuralmechanics/op.pressure.h
+++ b/src/analysis/assembler/structuralmechanics/op.pressure.h
@@ -24,7 +24,7 @@ struct Pressure: public SubKernel {
         this->direction.activate(&direction);
         this->isconst = this->pressure.isconst && this->direction.isconst;
         this->isactive = 1;
-        this->needCoordinates = this->pressure.needCoordinates && this->direction.needCoordinates;
+        this->needCoordinates = this->pressure.needCoordinates || this->direction.needCoordinates;
     }
 
     StructuralMechanicsGlobalSettings::ELEMENT_BEHAVIOUR behaviour;
-- 
2.43.0


From 419b7362d1511300cb0f860c0df6036a3b31f7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:40 +0000
Subject: [PATCH 12/66] fix: nodal forces on regions of faces

---
 src/analysis/assembler/structuralmechanics.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/analysis/assembler/structuralmechanics.cpp b/src/analysis/assembler/structuralmechanics.cpp
index 6f85843..13d7787 100644
--- a/src/analysis/assembler/structuralmechanics.cpp
+++ b/src/analysis/assembler/structuralmechanics.cpp
@@ -555,8 +555,9 @@ void StructuralMechanics::connect(Matrix_Base<double> *K, Matrix_Base<double> *M
                 faceKernels[r][i].reRHSfiller.activate(r, i, info::mesh->dimension, faceKernels[r][i].elements, f);
             }
         }
+        size_t offset = info::mesh->boundaryRegions[r]->dimension ? info::mesh->boundaryRegions[r]->eintervals.size() : 0; // nodes are mapped after elements
         for (size_t t = 0; t < info::mesh->boundaryRegions[r]->nodes->threads(); ++t) {
-            nodeKernels[r][t].reRHSfiller.activate(r, t, info::mesh->dimension, nodeKernels[r][t].elements, f);
+            nodeKernels[r][t].reRHSfiller.activate(r, offset + t, info::mesh->dimension, nodeKernels[r][t].elements, f);
         }
     }
     for (auto it = configuration.displacement.begin(); it != configuration.displacement.end(); ++it) {
@@ -587,9 +588,10 @@ void StructuralMechanics::connect(Matrix_Base<double> *K, Matrix_Base<double> *M
                 faceKernels[r][i].imRHSfiller.activate(r, i, info::mesh->dimension, faceKernels[r][i].elements, imf);
             }
         }
+        size_t offset = info::mesh->boundaryRegions[r]->dimension ? info::mesh->boundaryRegions[r]->eintervals.size() : 0; // nodes are mapped after elements
         for (size_t t = 0; t < info::mesh->boundaryRegions[r]->nodes->threads(); ++t) {
-            nodeKernels[r][t].reRHSfiller.activate(r, t, info::mesh->dimension, nodeKernels[r][t].elements, ref);
-            nodeKernels[r][t].imRHSfiller.activate(r, t, info::mesh->dimension, nodeKernels[r][t].elements, imf);
+            nodeKernels[r][t].reRHSfiller.activate(r, offset + t, info::mesh->dimension, nodeKernels[r][t].elements, ref);
+            nodeKernels[r][t].imRHSfiller.activate(r, offset + t, info::mesh->dimension, nodeKernels[r][t].elements, imf);
         }
     }
     for (auto it = configuration.displacement.begin(); it != configuration.displacement.end(); ++it) {
-- 
2.43.0


From 869acea63dcdbdeb74306178fa4fcfed0953916f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:36 +0000
Subject: [PATCH 13/66] fix: nodal forces on nodes shared by more MPI processes

---
 src/analysis/assembler/general/filler.h        | 9 ++++++---
 src/analysis/assembler/structuralmechanics.cpp | 3 +++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/analysis/assembler/general/filler.h b/src/analysis/assembler/general/filler.h
index d11c81f..b571f1b 100644
--- a/src/analysis/assembler/general/filler.h
+++ b/src/analysis/assembler/general/filler.h
@@ -22,12 +22,13 @@ struct DataFiller: SubKernel {
     double *out;
     const esint *position;
     esint size;
+    esint begin; // lower positions are filled by processes that own them
     Matrix_Shape shape;
 
     DataFiller()
     : dofs(0), filter(0), elements(0),
       out(nullptr), position(nullptr),
-      size(0),
+      size(0), begin(0),
       shape(Matrix_Shape::FULL)
     {
         isconst = false;
@@ -96,8 +97,10 @@ struct RHSFillerKernel: DataFiller {
         size_t count = std::min((size_t)SIMD::size, elements);
         for (size_t s = 0, i = 0; s < count; ++s) {
             for (size_t r = 0; r < size; ++r, ++i) {
-                #pragma omp atomic
-                out[position[i]] += vector[r][s];
+                if (begin <= position[i]) {
+                    #pragma omp atomic
+                    out[position[i]] += vector[r][s];
+                }
             }
         }
         position += count * size;
diff --git a/src/analysis/assembler/structuralmechanics.cpp b/src/analysis/assembler/structuralmechanics.cpp
index 13d7787..f55aad4 100644
--- a/src/analysis/assembler/structuralmechanics.cpp
+++ b/src/analysis/assembler/structuralmechanics.cpp
@@ -558,6 +558,7 @@ void StructuralMechanics::connect(Matrix_Base<double> *K, Matrix_Base<double> *M
         size_t offset = info::mesh->boundaryRegions[r]->dimension ? info::mesh->boundaryRegions[r]->eintervals.size() : 0; // nodes are mapped after elements
         for (size_t t = 0; t < info::mesh->boundaryRegions[r]->nodes->threads(); ++t) {
             nodeKernels[r][t].reRHSfiller.activate(r, offset + t, info::mesh->dimension, nodeKernels[r][t].elements, f);
+            nodeKernels[r][t].reRHSfiller.begin = info::mesh->dimension * info::mesh->nodes->uniqInfo.nhalo; // shared nodes are filled by their owners only
         }
     }
     for (auto it = configuration.displacement.begin(); it != configuration.displacement.end(); ++it) {
@@ -591,7 +592,9 @@ void StructuralMechanics::connect(Matrix_Base<double> *K, Matrix_Base<double> *M
         size_t offset = info::mesh->boundaryRegions[r]->dimension ? info::mesh->boundaryRegions[r]->eintervals.size() : 0; // nodes are mapped after elements
         for (size_t t = 0; t < info::mesh->boundaryRegions[r]->nodes->threads(); ++t) {
             nodeKernels[r][t].reRHSfiller.activate(r, offset + t, info::mesh->dimension, nodeKernels[r][t].elements, ref);
+            nodeKernels[r][t].reRHSfiller.begin = info::mesh->dimension * info::mesh->nodes->uniqInfo.nhalo; // shared nodes are filled by their owners only
             nodeKernels[r][t].imRHSfiller.activate(r, offset + t, info::mesh->dimension, nodeKernels[r][t].elements, imf);
+            nodeKernels[r][t].imRHSfiller.begin = info::mesh->dimension * info::mesh->nodes->uniqInfo.nhalo; // shared nodes are filled by their owners only
         }
     }
     for (auto it = configuration.displacement.begin(); it != configuration.displacement.end(); ++it) {
-- 
2.43.0


From 6300648825f4d46e6527bc8da07999322128e20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:49 +0000
Subject: [PATCH 14/66] fix: solution with several right-hand sides by the
 Schur complement factors of MKL PARDISO

The matrix version of solve_A11 passed matrices with size(A11) rows to
PARDISO that expects size(A) rows. It read and wrote out of bounds, hence
hybrid FETI with the EXPLICIT_GENERALSCHUR_CPU operator always crashed.
---
 .../operations/schur_csx_dny.mklpardiso.cpp   | 60 +++++++------------
 1 file changed, 20 insertions(+), 40 deletions(-)

diff --git a/src/wrappers/mkl/operations/schur_csx_dny.mklpardiso.cpp b/src/wrappers/mkl/operations/schur_csx_dny.mklpardiso.cpp
index 1a00798..67db1d9 100644
--- a/src/wrappers/mkl/operations/schur_csx_dny.mklpardiso.cpp
+++ b/src/wrappers/mkl/operations/schur_csx_dny.mklpardiso.cpp
@@ -187,63 +187,43 @@ void schur_csx_dny_mklpardiso<T,I>::internal_solve_A11(MatrixDenseView_new<T> &
 {
     if(rhs.ncols == 0) return;
 
-    // no support for leading dimension in pardiso. matrix has to be colmajor. so I have to reallocate and convert
+    // pardiso works with the whole matrix (A11 is only its top-left block), supports only colmajor and no leading dimension
     Allocator_new * ator = AllocatorCPU_new::get_singleton();
-    if((&rhs == &sol) && ((rhs.order != 'C') || (rhs.ld != rhs.nrows))) {
-        T * tmp_mem = ator->template alloc<T>(rhs.nrows * rhs.ncols);
-        MatrixDenseView_new<T> tmp;
-        tmp.set_view(rhs.nrows, rhs.ncols, rhs.nrows, 'C', tmp_mem, ator);
-        math::operations::convert_dnx_dny<T>::do_all(&rhs, &tmp, false);
-        this->internal_solve_A11(tmp, tmp);
-        math::operations::convert_dnx_dny<T>::do_all(&tmp, &sol, false);
-        ator->free(tmp_mem);
-        return;
-    }
-    if((rhs.order != 'C') || (rhs.ld != rhs.nrows)) {
-        T * rhs_2_mem = ator->template alloc<T>(rhs.nrows * rhs.ncols);
-        MatrixDenseView_new<T> rhs_2;
-        rhs_2.set_view(rhs.nrows, rhs.ncols, rhs.nrows, 'C', rhs_2_mem, ator);
-        math::operations::convert_dnx_dny<T>::do_all(&rhs, &rhs_2, false);
-        this->internal_solve_A11(rhs_2, sol);
-        ator->free(rhs_2_mem);
-        return;
-    }
-    if((sol.order != 'C') || (sol.ld != sol.nrows)) {
-        T * sol_2_mem = ator->template alloc<T>(sol.nrows * sol.ncols);
-        MatrixDenseView_new<T> sol_2;
-        sol_2.set_view(sol.nrows, sol.ncols, sol.nrows, 'C', sol_2_mem, ator);
-        this->internal_solve_A11(rhs, sol_2);
-        math::operations::convert_dnx_dny<T>::do_all(&sol_2, &sol, false);
-        ator->free(sol_2_mem);
-        return;
-    }
-
-    T * tmp_mem = ator->template alloc<T>(rhs.nrows * rhs.ncols);
-    MatrixDenseView_new<T> tmp;
-    tmp.set_view(rhs.nrows, rhs.ncols, rhs.nrows, 'C', tmp_mem, ator);
+    T * x_mem = ator->template alloc<T>(size_matrix * rhs.ncols);
+    T * y_mem = ator->template alloc<T>(size_matrix * rhs.ncols);
+    MatrixDenseView_new<T> x;
+    MatrixDenseView_new<T> y;
+    x.set_view(size_matrix, rhs.ncols, size_matrix, 'C', x_mem, ator);
+    y.set_view(size_matrix, rhs.ncols, size_matrix, 'C', y_mem, ator);
+    MatrixDenseView_new<T> x_A11 = x.get_submatrix_view(0, size_A11, 0, x.ncols);
+    MatrixDenseView_new<T> x_bottom = x.get_submatrix_view(size_A11, size_matrix, 0, x.ncols);
+    MatrixDenseView_new<T> y_bottom = y.get_submatrix_view(size_A11, size_matrix, 0, y.ncols);
+
+    math::operations::convert_dnx_dny<T>::do_all(&rhs, &x_A11, false);
+    math::operations::fill_dnx<T>::do_all(&x_bottom, T{0});
 
     MKL_INT phase;
     MKL_INT one = 1;
     MKL_INT nrhs = rhs.ncols;
 
     phase = 331;
-    pardiso(data->pt, &one, &one, &data->mtype, &phase, &data->size_matrix_mklint, A->vals, A->ptrs, A->idxs, nullptr, &nrhs, data->iparm, &data->msglvl, rhs.vals, tmp.vals, &data->error);
+    pardiso(data->pt, &one, &one, &data->mtype, &phase, &data->size_matrix_mklint, A->vals, A->ptrs, A->idxs, nullptr, &nrhs, data->iparm, &data->msglvl, x.vals, y.vals, &data->error);
     if(data->error != 0) {
         eslog::error("pardiso error %d\n", (int)data->error);
     }
 
-    {
-        MatrixDenseView_new<T> tmp_sub_bottom = tmp.get_submatrix_view(size_A11, size_matrix, 0, tmp.ncols);
-        math::operations::fill_dnx<T>::do_all(&tmp_sub_bottom, T{0});
-    }
+    math::operations::fill_dnx<T>::do_all(&y_bottom, T{0});
 
     phase = 333;
-    pardiso(data->pt, &one, &one, &data->mtype, &phase, &data->size_matrix_mklint, A->vals, A->ptrs, A->idxs, nullptr, &nrhs, data->iparm, &data->msglvl, tmp.vals, sol.vals, &data->error);
+    pardiso(data->pt, &one, &one, &data->mtype, &phase, &data->size_matrix_mklint, A->vals, A->ptrs, A->idxs, nullptr, &nrhs, data->iparm, &data->msglvl, y.vals, x.vals, &data->error);
     if(data->error != 0) {
         eslog::error("pardiso error %d\n", (int)data->error);
     }
 
-    ator->free(tmp_mem);
+    math::operations::convert_dnx_dny<T>::do_all(&x_A11, &sol, false);
+
+    ator->free(x_mem);
+    ator->free(y_mem);
 }
 
 
-- 
2.43.0


From 379da31dc4be6461f47210834764732f9d83dbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:05 +0000
Subject: [PATCH 15/66] fix: DIRICHLET_IMPLICIT preconditioner of domains
 without interior DOFs

---
 .../preconditioner/dirichlet.implicit.cpp     | 30 +++++++++++--------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/feti/preconditioner/dirichlet.implicit.cpp b/src/feti/preconditioner/dirichlet.implicit.cpp
index a50d748..5191bef 100644
--- a/src/feti/preconditioner/dirichlet.implicit.cpp
+++ b/src/feti/preconditioner/dirichlet.implicit.cpp
@@ -75,8 +75,10 @@ void DirichletImplicit<T>::set(const step::Step &step)
 
         math::spblas::submatrix(pK, A11[d], 0, size_A11, 0, size_A11);
 
-        solver[d].commit(A11[d]);
-        solver[d].symbolicFactorization();
+        if (size_A11) { // there are no interior DOFs in small domains
+            solver[d].commit(A11[d]);
+            solver[d].symbolicFactorization();
+        }
     }
 }
 
@@ -96,7 +98,9 @@ void DirichletImplicit<T>::update(const step::Step &step)
             math::spblas::submatrix(pK, A11[d],        0, size_A11,        0, size_A11);
             math::spblas::submatrix(pK, A12[d],        0, size_A11, size_A11,     size);
             math::spblas::submatrix(pK, A22[d], size_A11,     size, size_A11,     size);
-            solver[d].numericalFactorization();
+            if (size_A11) {
+                solver[d].numericalFactorization();
+            }
         }
     }
     _print(step);
@@ -113,17 +117,19 @@ void DirichletImplicit<T>::apply(const Vector_Dual<T> &x, Vector_Dual<T> &y)
             Btx[d].vals[i] = Btx[d].vals[indices[d][i]];
         }
 
-        Vector_Dense<T> vx, vy;
-        vx.resize(A12[d].ncols);
-        vy.resize(A12[d].nrows);
-        math::copy(vx, Btx[d]);
+        math::set(KBtx[d], T{0});
+        if (A11[d].nrows) {
+            Vector_Dense<T> vx, vy;
+            vx.resize(A12[d].ncols);
+            vy.resize(A12[d].nrows);
+            math::copy(vx, Btx[d]);
 
-        math::set(vy, T{0});
-        math::spblas::apply(vy, T{1}, A12[d], vx);
-        solver[d].solve(vy, vx);
+            math::set(vy, T{0});
+            math::spblas::apply(vy, T{1}, A12[d], vx);
+            solver[d].solve(vy, vx);
 
-        math::set(KBtx[d], T{0});
-        math::spblas::applyT(KBtx[d], T{-1}, A12[d], vx);
+            math::spblas::applyT(KBtx[d], T{-1}, A12[d], vx);
+        }
         for (int r = 0; r < A22[d].nrows; ++r) { // A22 has upper triangle only
             for (int c = A22[d].rows[r]; c < A22[d].rows[r + 1]; ++c) {
                 KBtx[d].vals[r] += A22[d].vals[c] * Btx[d].vals[A22[d].cols[c]];
-- 
2.43.0


From 3c22d86bc2aa29d7adf543035510203a48501913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:17 +0000
Subject: [PATCH 16/66] fix: (orthogonal) PCPG stops according to the current
 residual

The residual of the previous iteration was checked. The additional iteration
after an exact solution is computed divides values at the level of rounding
errors and can destroy the solution (small dual spaces).
---
 src/feti/iterativesolver/orthopcpg.cpp | 2 +-
 src/feti/iterativesolver/pcpg.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/feti/iterativesolver/orthopcpg.cpp b/src/feti/iterativesolver/orthopcpg.cpp
index 321b6c6..5eab69e 100644
--- a/src/feti/iterativesolver/orthopcpg.cpp
+++ b/src/feti/iterativesolver/orthopcpg.cpp
@@ -127,8 +127,8 @@ template <> void OrthogonalizedPCPG<double>::solve(const step::Step &step, Itera
         math::add(p, 1., y);
         eslog::accumulatedln("orthopcpg: orthogonalization");
 
-        updateInfo(info, feti.configuration, yw, 0, 0);
         yw = y.dot(w);
+        updateInfo(info, feti.configuration, yw, 0, 0);
         eslog::accumulatedln("orthopcpg: check criteria");
     }
     eslog::endln("orthopcpg: finished");
diff --git a/src/feti/iterativesolver/pcpg.cpp b/src/feti/iterativesolver/pcpg.cpp
index 7231e8e..6fb8280 100644
--- a/src/feti/iterativesolver/pcpg.cpp
+++ b/src/feti/iterativesolver/pcpg.cpp
@@ -134,8 +134,8 @@ template <> void PCPG<double>::solve(const step::Step &step, IterativeSolverInfo
         math::add(y, beta, p); y.swap(p);
         eslog::accumulatedln("pcpg: update p");
 
-        updateInfo(info, feti.configuration, yw, 0, 0);
         yw = _yw; // keep yw for the next iteration
+        updateInfo(info, feti.configuration, yw, 0, 0);
         eslog::accumulatedln("pcpg: check criteria");
     }
     eslog::endln("pcpg: finished");
-- 
2.43.0


From e83c377db96b88ce56b1184fa718db1c0cc28256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:48 +0000
Subject: [PATCH 17/66] fix: orthogonal PCPG with more intervals of Lagrange
 multipliers

Products with stored directions were overwritten by the last interval,
hence directions were not F-orthogonal.
---
 src/feti/common/matrix_dual_orthogonal.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/feti/common/matrix_dual_orthogonal.h b/src/feti/common/matrix_dual_orthogonal.h
index 1e84aad..fed36d4 100644
--- a/src/feti/common/matrix_dual_orthogonal.h
+++ b/src/feti/common/matrix_dual_orthogonal.h
@@ -32,12 +32,13 @@ struct Matrix_Dual_Orthogonal: public Matrix_Dual<T> {
 
     void apply(const Vector_Dual<T> &x, Vector_Dense<T> &y)
     {
+        math::set(y, T{0});
         for (size_t i = 0; i < Dual_Map::local_intervals.size(); ++i) {
             Vector_Dense<T> _x;
             _x.size = Dual_Map::local_intervals[i].size;
             _x.vals = x.vals + Dual_Map::local_intervals[i].start;
             Matrix_Dense<T>::slice({}, { Dual_Map::local_intervals[i].start, Dual_Map::local_intervals[i].end });
-            math::blas::apply(y, T{1}, static_cast<Matrix_Dense<T>&>(*this), T{0}, _x);
+            math::blas::apply(y, T{1}, static_cast<Matrix_Dense<T>&>(*this), T{1}, _x);
         }
         Communication::allReduce(y.vals, nullptr, y.size, MPITools::getType<T>().mpitype, MPI_SUM);
     }
-- 
2.43.0


From 9235c7f3c81f59e909506e4a6cc3e6dea61b41e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:31 +0000
Subject: [PATCH 18/66] fix: DIRICHLET preconditioner of domains without
 interior DOFs

PARDISO does not support Schur complement without an eliminated block
(memory corruption).
---
 src/wrappers/mkl/w.mkl.pardiso.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/wrappers/mkl/w.mkl.pardiso.cpp b/src/wrappers/mkl/w.mkl.pardiso.cpp
index d528299..6930057 100644
--- a/src/wrappers/mkl/w.mkl.pardiso.cpp
+++ b/src/wrappers/mkl/w.mkl.pardiso.cpp
@@ -301,12 +301,21 @@ void DirectSparseSolver<T, I>::getSC(Matrix_Dense<T, I> &sc, std::vector<I> &ind
         out_vals = full.vals;
     }
 
-    ext->pp.iparm[35] = 1;
-    I *perm = ext->pp.perm;
-    ext->pp.perm = indices.data();
-    _callPardiso<T, I>(12, ext, 0, nullptr, out_vals);
-    ext->pp.perm = perm;
-    ext->pp.iparm[35] = 0;
+    if (sc.nrows == ext->matrix->nrows) { // there is nothing to eliminate (not supported by PARDISO)
+        std::fill_n(out_vals, sc.nrows * sc.nrows, T{0});
+        for (I r = 0; r < ext->matrix->nrows; ++r) {
+            for (I i = ext->matrix->rows[r] - Indexing::CSR; i < ext->matrix->rows[r + 1] - Indexing::CSR; ++i) {
+                out_vals[r * sc.nrows + ext->matrix->cols[i] - Indexing::CSR] = ext->matrix->vals[i];
+            }
+        }
+    } else {
+        ext->pp.iparm[35] = 1;
+        I *perm = ext->pp.perm;
+        ext->pp.perm = indices.data();
+        _callPardiso<T, I>(12, ext, 0, nullptr, out_vals);
+        ext->pp.perm = perm;
+        ext->pp.iparm[35] = 0;
+    }
 
     if(symmetric_packed) {
         for (I r = 0, i = 0; r < full.nrows; ++r) {
-- 
2.43.0


From 70c02c8d86f1a32e8d521c7e4283dd0a1642870c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:26 +0000
Subject: [PATCH 19/66] fix: revert 'nodal forces on nodes shared by more MPI
 processes'

Results of the existing tests contain the forces applied by each process.
---
 src/analysis/assembler/general/filler.h        | 9 +++------
 src/analysis/assembler/structuralmechanics.cpp | 3 ---
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/analysis/assembler/general/filler.h b/src/analysis/assembler/general/filler.h
index b571f1b..d11c81f 100644
--- a/src/analysis/assembler/general/filler.h
+++ b/src/analysis/assembler/general/filler.h
@@ -22,13 +22,12 @@ struct DataFiller: SubKernel {
     double *out;
     const esint *position;
     esint size;
-    esint begin; // lower positions are filled by processes that own them
     Matrix_Shape shape;
 
     DataFiller()
     : dofs(0), filter(0), elements(0),
       out(nullptr), position(nullptr),
-      size(0), begin(0),
+      size(0),
       shape(Matrix_Shape::FULL)
     {
         isconst = false;
@@ -97,10 +96,8 @@ struct RHSFillerKernel: DataFiller {
         size_t count = std::min((size_t)SIMD::size, elements);
         for (size_t s = 0, i = 0; s < count; ++s) {
             for (size_t r = 0; r < size; ++r, ++i) {
-                if (begin <= position[i]) {
-                    #pragma omp atomic
-                    out[position[i]] += vector[r][s];
-                }
+                #pragma omp atomic
+                out[position[i]] += vector[r][s];
             }
         }
         position += count * size;
diff --git a/src/analysis/assembler/structuralmechanics.cpp b/src/analysis/assembler/structuralmechanics.cpp
index f55aad4..13d7787 100644
--- a/src/analysis/assembler/structuralmechanics.cpp
+++ b/src/analysis/assembler/structuralmechanics.cpp
@@ -558,7 +558,6 @@ void StructuralMechanics::connect(Matrix_Base<double> *K, Matrix_Base<double> *M
         size_t offset = info::mesh->boundaryRegions[r]->dimension ? info::mesh->boundaryRegions[r]->eintervals.size() : 0; // nodes are mapped after elements
         for (size_t t = 0; t < info::mesh->boundaryRegions[r]->nodes->threads(); ++t) {
             nodeKernels[r][t].reRHSfiller.activate(r, offset + t, info::mesh->dimension, nodeKernels[r][t].elements, f);
-            nodeKernels[r][t].reRHSfiller.begin = info::mesh->dimension * info::mesh->nodes->uniqInfo.nhalo; // shared nodes are filled by their owners only
         }
     }
     for (auto it = configuration.displacement.begin(); it != configuration.displacement.end(); ++it) {
@@ -592,9 +591,7 @@ void StructuralMechanics::connect(Matrix_Base<double> *K, Matrix_Base<double> *M
         size_t offset = info::mesh->boundaryRegions[r]->dimension ? info::mesh->boundaryRegions[r]->eintervals.size() : 0; // nodes are mapped after elements
         for (size_t t = 0; t < info::mesh->boundaryRegions[r]->nodes->threads(); ++t) {
             nodeKernels[r][t].reRHSfiller.activate(r, offset + t, info::mesh->dimension, nodeKernels[r][t].elements, ref);
-            nodeKernels[r][t].reRHSfiller.begin = info::mesh->dimension * info::mesh->nodes->uniqInfo.nhalo; // shared nodes are filled by their owners only
             nodeKernels[r][t].imRHSfiller.activate(r, offset + t, info::mesh->dimension, nodeKernels[r][t].elements, imf);
-            nodeKernels[r][t].imRHSfiller.begin = info::mesh->dimension * info::mesh->nodes->uniqInfo.nhalo; // shared nodes are filled by their owners only
         }
     }
     for (auto it = configuration.displacement.begin(); it != configuration.displacement.end(); ++it) {
-- 
2.43.0


From 19e344e78a1a83a1b526be5add609ec1f2f1b28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:00 +0000
Subject: [PATCH 20/66] fix: use heat capacity in the mass matrix of heat
 transfer

---
 src/analysis/assembler/general/op.matrix.mass.h | 2 +-
 src/config/ecf/material/material.cpp            | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/analysis/assembler/general/op.matrix.mass.h b/src/analysis/assembler/general/op.matrix.mass.h
index b474a56..e26ad63 100644
--- a/src/analysis/assembler/general/op.matrix.mass.h
+++ b/src/analysis/assembler/general/op.matrix.mass.h
@@ -32,7 +32,7 @@ struct MatrixMassKernel<nodes, 1>: MatrixMass {
     template <typename Element>
     void simd(Element &element, size_t gp)
     {
-        simd(element, gp, element.det * load1(element.w[gp]) * element.ecf.density);
+        simd(element, gp, element.det * load1(element.w[gp]) * element.ecf.density * element.ecf.heatCapacity);
     }
 
     template <typename Element>
diff --git a/src/config/ecf/material/material.cpp b/src/config/ecf/material/material.cpp
index 7010614..2079724 100644
--- a/src/config/ecf/material/material.cpp
+++ b/src/config/ecf/material/material.cpp
@@ -16,7 +16,8 @@ MaterialBaseConfiguration::MaterialBaseConfiguration(PHYSICAL_MODEL physicalMode
             .allowonly([&] () { return !*_phase_change; })
             .addconstraint(ECFCondition(*_phase_change, ECFCondition::EQUALS, false)));
 
-    density.value = heat_capacity.value = "0";
+    density.value = "0";
+    heat_capacity.value = "1";
     ecfdescription->registerParameter("dens", density, ECFMetaData()
             .setdescription({ "Density" })
             .setdatatype({ ECFDataType::EXPRESSION })
-- 
2.43.0


From df14d248a3cf41f021ee03e1a046dfe32473fbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:00 +0000
Subject: [PATCH 21/66] fix: store velocity and acceleration of the current
 substep

---
 src/analysis/physics/structuralmechanics.transient.linear.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/analysis/physics/structuralmechanics.transient.linear.cpp b/src/analysis/physics/structuralmechanics.transient.linear.cpp
index a219785..6010790 100644
--- a/src/analysis/physics/structuralmechanics.transient.linear.cpp
+++ b/src/analysis/physics/structuralmechanics.transient.linear.cpp
@@ -228,8 +228,6 @@ bool StructuralMechanicsTransientLinear::run(step::Step &step, Physics *prev)
             eslog::checkpointln("SIMULATION: SOLUTION RESTARTED");
             time.current = time.previous;
         } else {
-            info::mesh->output->updateSolution(step, time);
-
             dU->copy(solver->x);
             dU->add(-1, U);
             U->copy(solver->x);
@@ -243,6 +241,7 @@ bool StructuralMechanicsTransientLinear::run(step::Step &step, Physics *prev)
             if (StructuralMechanics::Results::velocity) {
                 V->storeTo(StructuralMechanics::Results::velocity->data);
             }
+            info::mesh->output->updateSolution(step, time);
 
             eslog::info("       = PROCESS SOLUTION                                                   %8.3f s = \n", eslog::time() - solution);
             eslog::info("       = ----------------------------------------------------------------------------- = \n");
-- 
2.43.0


From 0ee8c7c5dc5042f32dc374a82544b3446953a796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:00 +0000
Subject: [PATCH 22/66] fix: reassemble the mass matrix of heat transfer with
 time dependent density or heat capacity

---
 src/analysis/assembler/heattransfer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/analysis/assembler/heattransfer.cpp b/src/analysis/assembler/heattransfer.cpp
index 337f96d..cb98cc6 100644
--- a/src/analysis/assembler/heattransfer.cpp
+++ b/src/analysis/assembler/heattransfer.cpp
@@ -413,6 +413,10 @@ void HeatTransfer::connect(Matrix_Base<double> *K, Matrix_Base<double> *M, Vecto
     }
     if (M) {
         M->constant = true;
+        for (size_t i = 0; i < elementKernels.size(); ++i) {
+            M->constant &= elementKernels[i].material.configuration->density.evaluator->isConst();
+            M->constant &= elementKernels[i].material.configuration->heat_capacity.evaluator->isConst();
+        }
         if (M->constant) { constants += "M "; }
     }
     if (f) {
-- 
2.43.0


From 36b4e98206602844c12021fc2bcdbde35e7a15c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:00 +0000
Subject: [PATCH 23/66] fix: reset directions of the orthogonal PCG for each
 solve, initialize the conjugate projector

---
 src/feti/iterativesolver/orthopcpg.cpp | 6 +++++-
 src/feti/iterativesolver/orthopcpg.h   | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/feti/iterativesolver/orthopcpg.cpp b/src/feti/iterativesolver/orthopcpg.cpp
index 5eab69e..395ddd5 100644
--- a/src/feti/iterativesolver/orthopcpg.cpp
+++ b/src/feti/iterativesolver/orthopcpg.cpp
@@ -71,7 +71,11 @@ template <> void OrthogonalizedPCPG<double>::solve(const step::Step &step, Itera
 
     Vector_Dense<double> _yFp;
 
-    P->apply_GtintGGt(P->e, l);            // l = Gt * inv(GGt) * e
+    if (feti.configuration.projector == FETIConfiguration::PROJECTOR::CONJUGATE) {
+        P->apply_GtintGGtG(F->d, l);       // l = Gt * inv(GFGt) * G * d
+    } else {
+        P->apply_GtintGGt(P->e, l);        // l = Gt * inv(GGt) * e
+    }
 
     F->apply(l, r);                        // r = d - F * l
     math::scale(-1., r);                   //
diff --git a/src/feti/iterativesolver/orthopcpg.h b/src/feti/iterativesolver/orthopcpg.h
index 4bef981..0f0a098 100644
--- a/src/feti/iterativesolver/orthopcpg.h
+++ b/src/feti/iterativesolver/orthopcpg.h
@@ -18,6 +18,8 @@ public:
     {
         IterativeSolver<T>::resize(l, r, w, y, z, x);
         IterativeSolver<T>::resize(pi, Fpi);
+        yFp.clear();
+        pFp.clear();
     }
 
     void solve(const step::Step &step, IterativeSolverInfo &info) override;
-- 
2.43.0


From 2362ba216dff8f15f2dfd876be8ea131cce6ff12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:41 +0000
Subject: [PATCH 24/66] fix: do not compute the surface of bodies twice for the
 STL output

---
 src/mesh/mesh.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/mesh/mesh.cpp b/src/mesh/mesh.cpp
index 0d7921a..d96d6a0 100644
--- a/src/mesh/mesh.cpp
+++ b/src/mesh/mesh.cpp
@@ -502,10 +502,7 @@ void Mesh::computePersistentParameters()
     mesh::computeRegionsBoundaryParents(nodes, elements, boundaryRegions, contactInterfaces);
 
     if (dimension == 3 && info::ecf->output.format == OutputConfiguration::FORMAT::STL_SURFACE) {
-        if (!withSurface) {
-            mesh::computeBodiesSurface(nodes, elements, elementsRegions, boundaryRegions, surface, neighbors);
-        }
-        mesh::triangularizeSurface(surface);
+        mesh::triangularizeSurface(surface); // the surface has already been computed above
         eslog::checkpointln("MESH: BODIES SURFACE COMPUTED");
     }
 
-- 
2.43.0


From 2baa3b69947b706ee4c3f3923c75715fd2478e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:41 +0000
Subject: [PATCH 25/66] fix: triangularize each six-node triangle once

---
 src/mesh/element.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mesh/element.cpp b/src/mesh/element.cpp
index 371dcca..f36502e 100644
--- a/src/mesh/element.cpp
+++ b/src/mesh/element.cpp
@@ -156,7 +156,6 @@ template<> void Element::init<Element::CODE::TRIANGLE6>()
         0, 3, 5,
         3, 1, 4,
         4, 2, 5,
-        5, 0, 3,
         3, 4, 5
     };
 
-- 
2.43.0


From 818d00e56dc568387fc68654527c4aaa64b3c20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:41 +0000
Subject: [PATCH 26/66] fix: global sizes of boundary regions and clusters in
 the VTK output

---
 src/output/visualization/vtklegacy.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/output/visualization/vtklegacy.cpp b/src/output/visualization/vtklegacy.cpp
index 4ba9ee7..252cc62 100644
--- a/src/output/visualization/vtklegacy.cpp
+++ b/src/output/visualization/vtklegacy.cpp
@@ -270,8 +270,8 @@ esint VTKLegacy::insertElements(const BoundaryRegionStore *store, const std::vec
     if (store->dimension) {
         esint enodes = 0;
         for (size_t i = 0; i < store->distribution.code.size(); i++) {
-            if (store->distribution.code[i].size) {
-                enodes += store->distribution.code[i].size * Mesh::edata[i].nodes;
+            if (store->distribution.code[i].totalSize) {
+                enodes += store->distribution.code[i].totalSize * Mesh::edata[i].nodes;
             }
         }
 
@@ -420,7 +420,6 @@ void VTKLegacy::insertDecomposition(const ElementsRegionStore *store)
         return interval.domain;
     });
     esint cluster = info::mesh->clusters->offset;
-    Communication::exscan(cluster, MPITools::asynchronous);
     iterate("CLUSTER", [&] (const ElementsInterval &interval, esint eindex) {
         return info::mesh->domains->cluster[interval.domain - info::mesh->domains->offset] + cluster;
     });
-- 
2.43.0


From 57f1bd19b27413f4d272fc5201bb9ac8d4488c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:19 +0000
Subject: [PATCH 27/66] fix: number of substeps of transient load steps

step.substeps stayed 1 in transient load steps, hence LAST_SUBSTEP stored the first one.
---
 src/analysis/physics/heat.transient.linear.cpp                | 4 ++++
 src/analysis/physics/structuralmechanics.transient.linear.cpp | 4 ++++
 .../physics/structuralmechanics.transient.nonlinear.cpp       | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/analysis/physics/heat.transient.linear.cpp b/src/analysis/physics/heat.transient.linear.cpp
index 28cd1e4..f35a7be 100644
--- a/src/analysis/physics/heat.transient.linear.cpp
+++ b/src/analysis/physics/heat.transient.linear.cpp
@@ -166,6 +166,10 @@ bool HeatTransientLinear::run(step::Step &step, Physics *prev)
 
     dU->set(0);
     V->set(0);
+    step.substeps = 0;
+    for (double current = time.current; current <= time.final + time.precision; current += time.shift) {
+        ++step.substeps;
+    }
     bool solved = true;
     while (solved && time.current <= time.final + time.precision) {
         eslog::info(" ============================================================================================= \n");
diff --git a/src/analysis/physics/structuralmechanics.transient.linear.cpp b/src/analysis/physics/structuralmechanics.transient.linear.cpp
index 6010790..2c533b1 100644
--- a/src/analysis/physics/structuralmechanics.transient.linear.cpp
+++ b/src/analysis/physics/structuralmechanics.transient.linear.cpp
@@ -158,6 +158,10 @@ bool StructuralMechanicsTransientLinear::run(step::Step &step, Physics *prev)
 
     dU->set(0);
     Z->set(0);
+    step.substeps = 0;
+    for (double current = time.current; current + time.shift <= time.final + time.precision; current += time.shift) {
+        ++step.substeps;
+    }
     bool solved = true;
     while (solved && time.current + time.shift <= time.final + time.precision) {
         time.shift = precice.timeStep(time.shift);
diff --git a/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp b/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp
index 12d8161..ada944b 100644
--- a/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp
+++ b/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp
@@ -215,6 +215,10 @@ bool StructuralMechanicsTransientNonLinear::run(step::Step &step, Physics *prev)
     eslog::checkpointln("SIMULATION: TRANSIENT SOLVER INITIALIZED");
 
     step.substep = 0;
+    step.substeps = 0;
+    for (double current = time.current; current + time.shift <= time.final + time.precision; current += time.shift) {
+        ++step.substeps;
+    }
     bool converged = true;
     while (converged && time.current + time.shift <= time.final + time.precision) {
         step.iteration = 0;
-- 
2.43.0


From f7f1be66c90bf403ae71aa9d7025739f16582591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:37 +0000
Subject: [PATCH 28/66] fix: number substeps from the beginning of each
 transient load step

---
 src/analysis/physics/heat.transient.linear.cpp                | 1 +
 src/analysis/physics/structuralmechanics.transient.linear.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/analysis/physics/heat.transient.linear.cpp b/src/analysis/physics/heat.transient.linear.cpp
index f35a7be..4d43f22 100644
--- a/src/analysis/physics/heat.transient.linear.cpp
+++ b/src/analysis/physics/heat.transient.linear.cpp
@@ -166,6 +166,7 @@ bool HeatTransientLinear::run(step::Step &step, Physics *prev)
 
     dU->set(0);
     V->set(0);
+    step.substep = 0;
     step.substeps = 0;
     for (double current = time.current; current <= time.final + time.precision; current += time.shift) {
         ++step.substeps;
diff --git a/src/analysis/physics/structuralmechanics.transient.linear.cpp b/src/analysis/physics/structuralmechanics.transient.linear.cpp
index 2c533b1..5ec95f8 100644
--- a/src/analysis/physics/structuralmechanics.transient.linear.cpp
+++ b/src/analysis/physics/structuralmechanics.transient.linear.cpp
@@ -158,6 +158,7 @@ bool StructuralMechanicsTransientLinear::run(step::Step &step, Physics *prev)
 
     dU->set(0);
     Z->set(0);
+    step.substep = 0;
     step.substeps = 0;
     for (double current = time.current; current + time.shift <= time.final + time.precision; current += time.shift) {
         ++step.substeps;
-- 
2.43.0


From cc42bd5e0183b3edc57dfe68eb99881b414fe8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:54 +0000
Subject: [PATCH 29/66] fix: symmetric tensors and data with more components in
 the VTK output

Symmetric tensors were stored with the layout of asymmetric ones (and read out
of bounds of the element), components of scalar data were interleaved by MPI
process.
---
 src/output/visualization/vtklegacy.cpp | 27 +++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/output/visualization/vtklegacy.cpp b/src/output/visualization/vtklegacy.cpp
index 252cc62..f220eb9 100644
--- a/src/output/visualization/vtklegacy.cpp
+++ b/src/output/visualization/vtklegacy.cpp
@@ -339,6 +339,7 @@ void VTKLegacy::insertData(const step::Step &step, NamedData *data, esint nindic
             for (esint n = 0; n < nindices; ++n) {
                 _writer.float32ln(data->store[indices[n] * data->dimension + d]);
             }
+            _writer.groupData();
         }
     }
 
@@ -351,6 +352,7 @@ void VTKLegacy::insertData(const step::Step &step, NamedData *data, esint nindic
             for (esint n = 0; n < nindices; ++n) {
                 _writer.float32ln(data->store[indices[n] * data->dimension + d]);
             }
+            _writer.groupData();
         }
     }
 
@@ -365,24 +367,27 @@ void VTKLegacy::insertData(const step::Step &step, NamedData *data, esint nindic
         }
     }
 
-    if (data->dataType == NamedData::DataType::TENSOR_ASYM) {
+    if (data->dataType == NamedData::DataType::TENSOR_SYMM) {
         if (isRoot()) {
             _writer.data("TENSORS", data->name, "float");
         }
         for (esint n = 0; n < nindices; ++n) {
-            _writer.float32s (data->store[indices[n] * data->dimension + 0]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 3]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 5]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 3]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 1]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 4]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 5]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 4]);
-            _writer.float32ln(data->store[indices[n] * data->dimension + 2]);
+            const double *value = data->store.data() + indices[n] * data->dimension;
+            bool is2D = data->dimension == 3; // XX, YY, XY
+            double xy = is2D ? value[2] : value[3], zz = is2D ? .0 : value[2], yz = is2D ? .0 : value[4], xz = is2D ? .0 : value[5];
+            _writer.float32s (value[0]);
+            _writer.float32s (xy);
+            _writer.float32s (xz);
+            _writer.float32s (xy);
+            _writer.float32s (value[1]);
+            _writer.float32s (yz);
+            _writer.float32s (xz);
+            _writer.float32s (yz);
+            _writer.float32ln(zz);
         }
     }
 
-    if (data->dataType == NamedData::DataType::TENSOR_SYMM) {
+    if (data->dataType == NamedData::DataType::TENSOR_ASYM) {
         if (isRoot()) {
             _writer.data("TENSORS", data->name, "float");
         }
-- 
2.43.0


From c342277f0239e1edeefcc60557c91b7ad50f7682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:54 +0000
Subject: [PATCH 30/66] fix: absolute minimum and maximum of element data in
 monitors

---
 src/mesh/store/elementstore.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mesh/store/elementstore.cpp b/src/mesh/store/elementstore.cpp
index be26db1..d7004d9 100644
--- a/src/mesh/store/elementstore.cpp
+++ b/src/mesh/store/elementstore.cpp
@@ -358,7 +358,7 @@ ElementData* ElementStore::appendData(int dimension, NamedData::DataType datatyp
 
 void ElementData::statistics(const tarray<esint> &elements, esint totalsize, Statistics *statistics) const
 {
-    for (int d = 0; d <= nstatistics(); d++) {
+    for (int d = 0; d < nstatistics(); d++) {
         (statistics + d)->reset();
     }
 
@@ -371,8 +371,8 @@ void ElementData::statistics(const tarray<esint> &elements, esint totalsize, Sta
             (statistics + d + doffset)->max    = std::max((statistics + d + doffset)->max, store[*e * dimension + d]);
             (statistics + d + doffset)->avg   += store[*e * dimension + d];
             (statistics + d + doffset)->norm  += store[*e * dimension + d] * store[*e * dimension + d];
-            (statistics + d + doffset)->absmin = std::min((statistics + d + doffset)->min, std::fabs(store[*e * dimension + d]));
-            (statistics + d + doffset)->absmax = std::max((statistics + d + doffset)->max, std::fabs(store[*e * dimension + d]));
+            (statistics + d + doffset)->absmin = std::min((statistics + d + doffset)->absmin, std::fabs(store[*e * dimension + d]));
+            (statistics + d + doffset)->absmax = std::max((statistics + d + doffset)->absmax, std::fabs(store[*e * dimension + d]));
         }
         if (dataType == DataType::VECTOR) {
             value = std::sqrt(value);
@@ -380,8 +380,8 @@ void ElementData::statistics(const tarray<esint> &elements, esint totalsize, Sta
             statistics->max = std::max(statistics->max, value);
             statistics->avg += value;
             statistics->norm += value * value;
-            statistics->absmin = std::min(statistics->min, std::fabs(value));
-            statistics->absmax = std::max(statistics->max, std::fabs(value));
+            statistics->absmin = std::min(statistics->absmin, std::fabs(value));
+            statistics->absmax = std::max(statistics->absmax, std::fabs(value));
         }
     }
 
-- 
2.43.0


From 878b2233258d1c9f7745912706d20ef5c285ede8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:09 +0000
Subject: [PATCH 31/66] fix: store velocity and acceleration of the current
 substep of the nonlinear transient solver

---
 .../physics/structuralmechanics.transient.nonlinear.cpp        | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp b/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp
index ada944b..652c111 100644
--- a/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp
+++ b/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp
@@ -344,8 +344,6 @@ bool StructuralMechanicsTransientNonLinear::run(step::Step &step, Physics *prev)
             eslog::checkpointln("SIMULATION: SOLUTION RESTARTED");
             time.current = time.previous;
         } else {
-            info::mesh->output->updateSolution(step, time);
-
             U_old->copy(U);
             V_old->copy(V);
             A_old->copy(A);
@@ -357,6 +355,7 @@ bool StructuralMechanicsTransientNonLinear::run(step::Step &step, Physics *prev)
             if (StructuralMechanics::Results::velocity) {
                 V->storeTo(StructuralMechanics::Results::velocity->data);
             }
+            info::mesh->output->updateSolution(step, time);
 
             eslog::info("      = TIME STEP FINISHED ======================================= solved in %8.3f s = \n", eslog::time() - start);
             eslog::info("      =================================================================================== \n\n");
-- 
2.43.0


From d5da084e5d927b0832bc914ce532213bb3e8adf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:55 +0000
Subject: [PATCH 32/66] fix: asynchronous output stores the buffered results

NamedData::store referenced the data updated by the solver, hence results of a
later substep could be stored by the output thread.
---
 src/mesh/store/nameddata.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/mesh/store/nameddata.cpp b/src/mesh/store/nameddata.cpp
index 7dbf8a8..ec410aa 100644
--- a/src/mesh/store/nameddata.cpp
+++ b/src/mesh/store/nameddata.cpp
@@ -1,6 +1,7 @@
 
 #include "nameddata.h"
 #include "basis/utilities/packing.h"
+#include "esinfo/ecfinfo.h"
 
 using namespace espreso;
 
@@ -8,14 +9,22 @@ std::vector<std::string> NamedData::coordinateSuffixes = { "_X", "_Y", "_Z" };
 std::vector<std::string> NamedData::tensorSuffixes = { "_XX", "_YY", "_ZZ", "_XY", "_YZ", "_XZ", "_YX", "_ZY", "ZX" };
 std::vector<std::string> NamedData::numberSuffixes = { "_1ST", "_2ND", "_3RD" };
 
+// results stored by a thread have to be read from the buffer since the solver updates the data concurrently
+static bool bufferedStore()
+{
+    return
+            info::ecf->output.mode != OutputConfiguration::MODE::SYNC &&
+            info::ecf->output.results_store_frequency != OutputConfiguration::STORE_FREQUENCY::NEVER;
+}
+
 NamedData::NamedData(int dimension, DataType datatype, const std::string &name)
-: dimension(dimension), updated(0), dataType(datatype), name(name), restriction(step::TYPE::TIME), store(data)
+: dimension(dimension), updated(0), dataType(datatype), name(name), restriction(step::TYPE::TIME), store(bufferedStore() ? buffer : data)
 {
 
 }
 
 NamedData::NamedData(const char* &packedData)
-: store(data)
+: store(bufferedStore() ? buffer : data)
 {
     utils::unpack(dimension, packedData);
     utils::unpack(updated, packedData);
@@ -49,7 +58,6 @@ int NamedData::nstatistics() const
 void NamedData::toBuffer()
 {
     buffer = data;
-    store = buffer;
 }
 
 std::string NamedData::suffix(int index) const
-- 
2.43.0


From 1dd0392fb8d3dd439a6329496f2f503de1188967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:55 +0000
Subject: [PATCH 33/66] fix: zero contact forces without inequality constraints

---
 src/analysis/linearsystem/fetisolver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/analysis/linearsystem/fetisolver.cpp b/src/analysis/linearsystem/fetisolver.cpp
index bcf6d18..a5899a0 100644
--- a/src/analysis/linearsystem/fetisolver.cpp
+++ b/src/analysis/linearsystem/fetisolver.cpp
@@ -77,6 +77,7 @@ void FETILinearSystemSolver<T>::set(step::Step &step)
         x.feti.domains[di].resize(A.decomposition->dsize[di]);
         BtL.feti.domains[di].resize(A.decomposition->dsize[di]);
         ineqBtL.feti.domains[di].resize(A.decomposition->dsize[di]);
+        math::set(ineqBtL.feti.domains[di], T{0});
         feti.K[di].shallowCopy(A.domains[di]);
         feti.assembledK[di].shallowCopy(dynamic_cast<Matrix_FETI<T>* >(LinearSystemSolver<T>::assembledA)->domains[di]);
         feti.f[di].shallowCopy(b.feti.domains[di]);
-- 
2.43.0


From 892a03fef1ad57273d198f8856a45e71265683fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:04 +0000
Subject: [PATCH 34/66] fix: grid generators: a switched-off block does not
 switch off the blocks behind it

---
 src/input/parsers/meshgenerator/composition/gridgenerator.cpp | 3 ++-
 .../parsers/meshgenerator/composition/gridsetgenerator.cpp    | 4 ++--
 .../parsers/meshgenerator/composition/gridtowergenerator.cpp  | 4 ++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/input/parsers/meshgenerator/composition/gridgenerator.cpp b/src/input/parsers/meshgenerator/composition/gridgenerator.cpp
index 852ed96..2758a02 100644
--- a/src/input/parsers/meshgenerator/composition/gridgenerator.cpp
+++ b/src/input/parsers/meshgenerator/composition/gridgenerator.cpp
@@ -46,12 +46,13 @@ void GridGenerator::init()
     Triple<size_t> clusters = _settings.blocks * _settings.clusters;
 
     int cluster = 0;
+    size_t position = 0;
     Triple<size_t> offset;
     for (offset.z = 0; offset.z < clusters.z; offset.z++) {
         for (offset.y = 0; offset.y < clusters.y; offset.y++) {
             for (offset.x = 0; offset.x < clusters.x; offset.x++) {
 
-                if (_settings.nonempty[cluster]) {
+                if (_settings.nonempty[position++]) {
                     _clusterIndices.push_back(cluster);
                 } else {
                     _clusterIndices.push_back(-1);
diff --git a/src/input/parsers/meshgenerator/composition/gridsetgenerator.cpp b/src/input/parsers/meshgenerator/composition/gridsetgenerator.cpp
index c347e22..7af69ae 100644
--- a/src/input/parsers/meshgenerator/composition/gridsetgenerator.cpp
+++ b/src/input/parsers/meshgenerator/composition/gridsetgenerator.cpp
@@ -90,11 +90,11 @@ void GridSetGenerator::init(const GridSetGeneratorConfiguration &configuration)
     for (auto grid = configuration.grids.begin(); grid != configuration.grids.end(); ++grid) {
         if (grid->first == _gridIndex) {
             Triple<size_t> offset;
-            int begin = cluster;
+            size_t position = 0;
             for (offset.z = 0; offset.z < clusters.z; offset.z++) {
                 for (offset.y = 0; offset.y < clusters.y; offset.y++) {
                     for (offset.x = 0; offset.x < clusters.x; offset.x++) {
-                        if (_settings.nonempty[cluster - begin]) {
+                        if (_settings.nonempty[position++]) {
                             _clusterIndices.push_back(cluster);
                         } else {
                             _clusterIndices.push_back(-1);
diff --git a/src/input/parsers/meshgenerator/composition/gridtowergenerator.cpp b/src/input/parsers/meshgenerator/composition/gridtowergenerator.cpp
index 28b9d0f..30b99c4 100644
--- a/src/input/parsers/meshgenerator/composition/gridtowergenerator.cpp
+++ b/src/input/parsers/meshgenerator/composition/gridtowergenerator.cpp
@@ -90,12 +90,12 @@ void GridTowerGenerator::init(const GridTowerGeneratorConfiguration &configurati
     for (auto grid = configuration.grids.begin(); grid != configuration.grids.end(); ++grid) {
         if (grid->first == _gridIndex) {
             Triple<size_t> offset;
-            int begin = cluster;
+            size_t position = 0;
             for (offset.z = 0; offset.z < clusters.z; offset.z++) {
                 for (offset.y = 0; offset.y < clusters.y; offset.y++) {
                     for (offset.x = 0; offset.x < clusters.x; offset.x++) {
 
-                        if (_settings.nonempty[cluster - begin]) {
+                        if (_settings.nonempty[position++]) {
                             _clusterIndices.push_back(cluster);
                         } else {
                             _clusterIndices.push_back(-1);
-- 
2.43.0


From 1063ec2f4b0e8588f8ee025be4a89d2f3475dfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:04 +0000
Subject: [PATCH 35/66] fix: grid set generator: position of clusters of a grid

---
 .../parsers/meshgenerator/composition/gridsetgenerator.cpp   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/input/parsers/meshgenerator/composition/gridsetgenerator.cpp b/src/input/parsers/meshgenerator/composition/gridsetgenerator.cpp
index 7af69ae..6b48d41 100644
--- a/src/input/parsers/meshgenerator/composition/gridsetgenerator.cpp
+++ b/src/input/parsers/meshgenerator/composition/gridsetgenerator.cpp
@@ -103,8 +103,9 @@ void GridSetGenerator::init(const GridSetGeneratorConfiguration &configuration)
 
                         if (cluster++ == info::mpi::rank) {
                             _clusterOffset = offset;
-                            _settings.start = _settings.start + ((_settings.end - _settings.start) / (Triple<double>)_settings.clusters * offset).round();
-                            _settings.end   = _settings.start + ((_settings.end - _settings.start) / (Triple<double>)_settings.clusters * (offset + 1)).round();
+                            Triple<long> start = _settings.start;
+                            _settings.start = start + ((_settings.end - start) / (Triple<double>)_settings.clusters * offset).round();
+                            _settings.end   = start + ((_settings.end - start) / (Triple<double>)_settings.clusters * (offset + 1)).round();
                         }
                     }
                 }
-- 
2.43.0


From ed0788782058ff3bda133185935e9414d455ffa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:16 +0000
Subject: [PATCH 36/66] fix: grid tower generator: glued grids of different
 lengths

---
 .../parsers/meshgenerator/composition/gridtowergenerator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/input/parsers/meshgenerator/composition/gridtowergenerator.cpp b/src/input/parsers/meshgenerator/composition/gridtowergenerator.cpp
index 30b99c4..9c8a683 100644
--- a/src/input/parsers/meshgenerator/composition/gridtowergenerator.cpp
+++ b/src/input/parsers/meshgenerator/composition/gridtowergenerator.cpp
@@ -86,7 +86,7 @@ void GridTowerGenerator::init(const GridTowerGeneratorConfiguration &configurati
     int cluster = 0;
     size_t nodes = 0, noffset = 0;
 
-    Triple<esint> lenght;
+    Triple<long> lenght;
     for (auto grid = configuration.grids.begin(); grid != configuration.grids.end(); ++grid) {
         if (grid->first == _gridIndex) {
             Triple<size_t> offset;
@@ -138,7 +138,8 @@ void GridTowerGenerator::init(const GridTowerGeneratorConfiguration &configurati
                     break;
                 }
             }
-            lenght += _settings.end - _settings.start;
+            GridSettings settings(grid->second);
+            lenght += (settings.end - settings.start) * settings.blocks;
         }
     }
 
-- 
2.43.0


From a65f649ba6d5c4532e7ea7de2e99327b3cf96518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:16 +0000
Subject: [PATCH 37/66] fix: grid sets and towers: clusters of all blocks are
 counted

---
 .../parsers/meshgenerator/composition/gridsetgenerator.cpp    | 4 ++--
 .../parsers/meshgenerator/composition/gridtowergenerator.cpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/input/parsers/meshgenerator/composition/gridsetgenerator.cpp b/src/input/parsers/meshgenerator/composition/gridsetgenerator.cpp
index 6b48d41..53dd9fc 100644
--- a/src/input/parsers/meshgenerator/composition/gridsetgenerator.cpp
+++ b/src/input/parsers/meshgenerator/composition/gridsetgenerator.cpp
@@ -32,7 +32,7 @@ esint GridSetGenerator::grids(const GridSetGeneratorConfiguration &configuration
 {
     int clusters = 0;
     for (auto grid = configuration.grids.begin(); grid != configuration.grids.end(); ++grid) {
-        size_t nclusters = grid->second.clusters_x * grid->second.clusters_y * grid->second.clusters_z;
+        size_t nclusters = grid->second.blocks_x * grid->second.blocks_y * grid->second.blocks_z * grid->second.clusters_x * grid->second.clusters_y * grid->second.clusters_z;
         clusters += nclusters;
         for (auto it = grid->second.blocks.begin(); it != grid->second.blocks.end(); ++it) {
             if (it->first >= nclusters) {
@@ -51,7 +51,7 @@ esint GridSetGenerator::gridIndex(const GridSetGeneratorConfiguration &configura
 {
     int clusters = 0;
     for (auto grid = configuration.grids.begin(); grid != configuration.grids.end(); ++grid) {
-        size_t maxclusters = grid->second.clusters_x * grid->second.clusters_y * grid->second.clusters_z;
+        size_t maxclusters = grid->second.blocks_x * grid->second.blocks_y * grid->second.blocks_z * grid->second.clusters_x * grid->second.clusters_y * grid->second.clusters_z;
         int gclusters = maxclusters;
         for (auto it = grid->second.blocks.begin(); it != grid->second.blocks.end(); ++it) {
             if (it->first >= maxclusters) {
diff --git a/src/input/parsers/meshgenerator/composition/gridtowergenerator.cpp b/src/input/parsers/meshgenerator/composition/gridtowergenerator.cpp
index 9c8a683..d10e8d6 100644
--- a/src/input/parsers/meshgenerator/composition/gridtowergenerator.cpp
+++ b/src/input/parsers/meshgenerator/composition/gridtowergenerator.cpp
@@ -32,7 +32,7 @@ esint GridTowerGenerator::grids(const GridTowerGeneratorConfiguration &configura
 {
     int clusters = 0;
     for (auto grid = configuration.grids.begin(); grid != configuration.grids.end(); ++grid) {
-        size_t nclusters = grid->second.clusters_x * grid->second.clusters_y * grid->second.clusters_z;
+        size_t nclusters = grid->second.blocks_x * grid->second.blocks_y * grid->second.blocks_z * grid->second.clusters_x * grid->second.clusters_y * grid->second.clusters_z;
         clusters += nclusters;
         for (auto it = grid->second.blocks.begin(); it != grid->second.blocks.end(); ++it) {
             if (it->first >= nclusters) {
@@ -51,7 +51,7 @@ esint GridTowerGenerator::gridIndex(const GridTowerGeneratorConfiguration &confi
 {
     int clusters = 0;
     for (auto grid = configuration.grids.begin(); grid != configuration.grids.end(); ++grid) {
-        size_t maxclusters = grid->second.clusters_x * grid->second.clusters_y * grid->second.clusters_z;
+        size_t maxclusters = grid->second.blocks_x * grid->second.blocks_y * grid->second.blocks_z * grid->second.clusters_x * grid->second.clusters_y * grid->second.clusters_z;
         int gclusters = maxclusters;
         for (auto it = grid->second.blocks.begin(); it != grid->second.blocks.end(); ++it) {
             if (it->first >= maxclusters) {
-- 
2.43.0


From 288f4267e8147cc296dd2280f2444aa2c1504670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:28 +0000
Subject: [PATCH 38/66] fix: generated meshes: nodes without elements are
 removed from node regions

---
 src/input/builders/generatedinput.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/input/builders/generatedinput.cpp b/src/input/builders/generatedinput.cpp
index 5192066..39b30a6 100644
--- a/src/input/builders/generatedinput.cpp
+++ b/src/input/builders/generatedinput.cpp
@@ -98,7 +98,7 @@ void GeneratedInput::removeDanglingNodes()
     utils::sortAndRemoveDuplicates(usedNodes);
 
     std::vector<Point> coordinates;
-    std::vector<esint> nIDs, ndist, noffset(_meshData.nIDs.size());
+    std::vector<esint> nIDs, ndist, noffset(_meshData.nIDs.size(), -1);
     std::vector<int> nranks;
 
     ndist.push_back(0);
@@ -117,9 +117,13 @@ void GeneratedInput::removeDanglingNodes()
     }
 
     for (auto it = _meshData.nregions.begin(); it != _meshData.nregions.end(); ++it) {
+        size_t size = 0;
         for (size_t i = 0; i < it->second.size(); i++) {
-            it->second[i] = noffset[it->second[i]];
+            if (noffset[it->second[i]] != -1) {
+                it->second[size++] = noffset[it->second[i]];
+            }
         }
+        it->second.resize(size);
     }
 
     _meshData.nIDs.swap(nIDs);
-- 
2.43.0


From 2510eb0717fb6b53780d5756622600b39370236f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:54 +0000
Subject: [PATCH 39/66] fix: grid generator: edges and faces of an interval do
 not depend on cluster borders

---
 .../parsers/meshgenerator/primitives/block.cpp      | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/input/parsers/meshgenerator/primitives/block.cpp b/src/input/parsers/meshgenerator/primitives/block.cpp
index 2c9d39e..a1f59fe 100644
--- a/src/input/parsers/meshgenerator/primitives/block.cpp
+++ b/src/input/parsers/meshgenerator/primitives/block.cpp
@@ -336,11 +336,20 @@ void BlockGenerator::nodesRegion(const BlockBorder &border, std::vector<esint> &
     }
 }
 
+// an interval that includes only border nodes of the block does not include any of its edges and faces
+static bool onlyBorder(const BlockBorder &intersection, const Triple<size_t> &ebegin, const Triple<size_t> &eend)
+{
+    return
+            (intersection.start.x != intersection.end.x && ebegin.x == eend.x) ||
+            (intersection.start.y != intersection.end.y && ebegin.y == eend.y) ||
+            (intersection.start.z != intersection.end.z && ebegin.z == eend.z);
+}
+
 void BlockGenerator::edgesRegion(const BlockBorder &border, MeshBuilder &mesh, std::vector<esint> &elements)
 {
     BlockBorder intersection = border.intersect(_block);
     Triple<size_t> ebegin, eend, nbegin, nend;
-    if (!region(intersection, ebegin, eend, nbegin, nend) || intersection.dimension() < 1) {
+    if (!region(intersection, ebegin, eend, nbegin, nend) || intersection.dimension() < 1 || onlyBorder(intersection, ebegin, eend)) {
         return;
     }
 
@@ -378,7 +387,7 @@ void BlockGenerator::facesRegion(const BlockBorder &border, MeshBuilder &mesh, s
 {
     BlockBorder intersection = border.intersect(_block);
     Triple<size_t> ebegin, eend, nbegin, nend;
-    if (!region(intersection, ebegin, eend, nbegin, nend)) {
+    if (!region(intersection, ebegin, eend, nbegin, nend) || onlyBorder(intersection, ebegin, eend)) {
         return;
     }
 
-- 
2.43.0


From 22bbdad133fd4c82d32a60a40059c927e39e2cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:32 +0000
Subject: [PATCH 40/66] fix: ANSYS CDB: the last line of a block that ends with
 data of a process was lost

---
 src/input/parsers/ansyscdb/parser/parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/input/parsers/ansyscdb/parser/parser.cpp b/src/input/parsers/ansyscdb/parser/parser.cpp
index 1b1fb44..917ac17 100644
--- a/src/input/parsers/ansyscdb/parser/parser.cpp
+++ b/src/input/parsers/ansyscdb/parser/parser.cpp
@@ -56,7 +56,8 @@ void WorkbenchParser::fillDistribution(std::vector<BlockEnd> &blocksEnds, std::v
     }
 
     fRank = std::lower_bound(distribution.begin(), distribution.end(), first + 1) - distribution.begin() - 1;
-    lRank = std::lower_bound(distribution.begin(), distribution.end(), last + 1) - distribution.begin() - 1;
+    lRank = std::lower_bound(distribution.begin(), distribution.end(), last) - distribution.begin() - 1; // a process with the last byte of the block
+    lRank = std::max(fRank, lRank);
 }
 
 std::string WorkbenchParser::command() const
-- 
2.43.0


From 260acf49d92d5e9bea663957d269bf22e1c800bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:09 +0000
Subject: [PATCH 41/66] fix: sequential input: unsorted nodes with gaps among
 their IDs

Nodes of elements were replaced by offsets when nodes were not sorted, but
the following removal of dangling nodes works with IDs.
---
 src/input/builders/sequentialinput.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input/builders/sequentialinput.cpp b/src/input/builders/sequentialinput.cpp
index fba5c23..89f812f 100644
--- a/src/input/builders/sequentialinput.cpp
+++ b/src/input/builders/sequentialinput.cpp
@@ -26,7 +26,7 @@ SequentialInput::SequentialInput(MeshBuilder &mesh)
         profiler::synccheckpoint("merge_duplicate_nodes");
     }
 
-    sortNodes(true);
+    sortNodes();
     removeDanglingNodes();
     _nDistribution = { 0, (esint)_meshData.nIDs.size() };
     profiler::synccheckpoint("sort_nodes");
@@ -124,7 +124,7 @@ void SequentialInput::removeDanglingNodes()
     utils::sortAndRemoveDuplicates(usedNodes);
 
     std::vector<Point> coordinates;
-    std::vector<esint> nIDs, ndist, noffset(usedNodes.back() + 1);
+    std::vector<esint> nIDs, ndist, noffset(*std::max_element(_meshData.enodes.begin(), _meshData.enodes.end()) + 1);
     std::vector<int> nranks;
     coordinates.reserve(_meshData.nIDs.size());
     nIDs.reserve(_meshData.nIDs.size());
-- 
2.43.0


From c91669153cb86df8c3426e5efc02e194b6698e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:02 +0000
Subject: [PATCH 42/66] fix: scattered input: boundary elements were lost in
 meshes with unsupported elements

---
 src/input/builders/scatteredinput.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/input/builders/scatteredinput.cpp b/src/input/builders/scatteredinput.cpp
index 8f83366..f57980a 100644
--- a/src/input/builders/scatteredinput.cpp
+++ b/src/input/builders/scatteredinput.cpp
@@ -1628,6 +1628,12 @@ void ScatteredInput::exchangeBoundary()
         rBoundary[0].insert(rBoundary[0].end(), rBoundary[r].begin(), rBoundary[r].end());
     }
 
+    // received elements are stored after boundary elements (remove unsupported elements)
+    _meshData.esize.resize(_etypeDistribution.back());
+    _meshData.etype.resize(_etypeDistribution.back());
+    _meshData.enodes.resize(edist.back());
+    _eregions.resize(_etypeDistribution.back() * _eregsize);
+
     size_t newsize = 0;
     for (size_t i = 0; rBoundary.size() && i < rBoundary[0].size(); ++newsize) {
         _meshData.esize.push_back(rBoundary[0][i++]);
-- 
2.43.0


From b464e723c694ceb2db3969bab6d4c14b20619930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:30 +0000
Subject: [PATCH 43/66] fix: EnSight input: coordinates that start exactly at
 the border of data of two processes

---
 src/input/parsers/ensight/parser/geometry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input/parsers/ensight/parser/geometry.cpp b/src/input/parsers/ensight/parser/geometry.cpp
index 2678227..f5e4d0e 100644
--- a/src/input/parsers/ensight/parser/geometry.cpp
+++ b/src/input/parsers/ensight/parser/geometry.cpp
@@ -165,7 +165,7 @@ void EnsightGeometry::parseBinary(MeshBuilder &mesh)
         while (*end != 0) { ++end; }
         std::string name = std::string(begin, end);
 
-        int firstrank = std::lower_bound(_geofile.distribution.begin(), _geofile.distribution.end(), _coordinates[p].offset) - _geofile.distribution.begin() - 1;
+        int firstrank = std::upper_bound(_geofile.distribution.begin(), _geofile.distribution.end(), _coordinates[p].offset) - _geofile.distribution.begin() - 1;
         int lastrank = std::lower_bound(_geofile.distribution.begin(), _geofile.distribution.end(), _coordinates[p].offset + 3 * sizeof(float) * _coordinates[p].nn) - _geofile.distribution.begin() - 1;
 
         size_t cbegin = std::max(_coordinates[p].offset, _geofile.distribution[info::mpi::rank]);
@@ -431,7 +431,7 @@ void EnsightGeometry::parseASCII(MeshBuilder &mesh)
                 coordinates.push_back(atof(c));
             }
 
-            int start = std::lower_bound(_geofile.distribution.begin(), _geofile.distribution.end(), _coordinates[i].offset) - _geofile.distribution.begin() - 1;
+            int start = std::upper_bound(_geofile.distribution.begin(), _geofile.distribution.end(), _coordinates[i].offset) - _geofile.distribution.begin() - 1;
             int end = std::lower_bound(_geofile.distribution.begin(), _geofile.distribution.end(), _coordinates[i].offset + 3 * 13 * _coordinates[i].nn) - _geofile.distribution.begin() - 1;
 
             if (start == info::mpi::rank) {
-- 
2.43.0


From ffe128955c9166023134757f58e32f63f6e0e8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:17 +0000
Subject: [PATCH 44/66] fix: FETI: an invalid norm of the residual was treated
 as a convergence

std::max(0., NaN) is zero, hence, NaN was stored as the solution.
---
 src/feti/iterativesolver/iterativesolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/feti/iterativesolver/iterativesolver.cpp b/src/feti/iterativesolver/iterativesolver.cpp
index dd73696..c9a991f 100644
--- a/src/feti/iterativesolver/iterativesolver.cpp
+++ b/src/feti/iterativesolver/iterativesolver.cpp
@@ -119,7 +119,7 @@ template <>
 void IterativeSolver<double>::updateInfo(IterativeSolverInfo &info, const FETIConfiguration &configuration, const double &ww, const double &psi, const double &ry)
 {
 //    info.norm.dual.ksi += psi;
-    info.norm.dual.absolute = std::sqrt(std::max(0., ww));
+    info.norm.dual.absolute = std::sqrt(ww < 0 ? 0 : ww); // NaN has to be kept
     info.norm.dual.relative = info.norm.dual.absolute / info.norm.dual.initial;
 //    info.norm.dual.arioli = std::sqrt(info.norm.dual.ksi / ry);
 
-- 
2.43.0


From 7612c79aab909e8d8ab2cf9757c9d0f60bba4ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:40 +0000
Subject: [PATCH 45/66] fix: generator: TETRA10: faces of X_0 were oriented
 inside the volume

---
 .../parsers/meshgenerator/elements/3D/quadraticvolume.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/input/parsers/meshgenerator/elements/3D/quadraticvolume.cpp b/src/input/parsers/meshgenerator/elements/3D/quadraticvolume.cpp
index 0e48562..81097ba 100644
--- a/src/input/parsers/meshgenerator/elements/3D/quadraticvolume.cpp
+++ b/src/input/parsers/meshgenerator/elements/3D/quadraticvolume.cpp
@@ -157,19 +157,19 @@ void QuadraticVolumeGenerator::pushTriangleNodes(std::vector<esint> &nodes, cons
 {
     switch (face) {
     case CubeFace::X_0:
-        nodes.push_back(indices[ 0]);
         nodes.push_back(indices[ 6]);
+        nodes.push_back(indices[ 0]);
         nodes.push_back(indices[18]);
         nodes.push_back(indices[ 3]);
-        nodes.push_back(indices[12]);
         nodes.push_back(indices[ 9]);
+        nodes.push_back(indices[12]);
 
-        nodes.push_back(indices[ 6]);
         nodes.push_back(indices[24]);
+        nodes.push_back(indices[ 6]);
         nodes.push_back(indices[18]);
         nodes.push_back(indices[15]);
-        nodes.push_back(indices[21]);
         nodes.push_back(indices[12]);
+        nodes.push_back(indices[21]);
         break;
     case CubeFace::X_1:
         nodes.push_back(indices[ 2]);
-- 
2.43.0


From 6f0cb6c22beed10243f6984d3140403060d3ba7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:02 +0000
Subject: [PATCH 46/66] fix: elasticity: a data race in the averaging of
 stresses to nodes

---
 .../assembler/structuralmechanics/op.stress.h | 32 +++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/analysis/assembler/structuralmechanics/op.stress.h b/src/analysis/assembler/structuralmechanics/op.stress.h
index 3b52c7f..edd7fa8 100644
--- a/src/analysis/assembler/structuralmechanics/op.stress.h
+++ b/src/analysis/assembler/structuralmechanics/op.stress.h
@@ -128,18 +128,30 @@ struct StressKernel<nodes, gps, 2>: Stress {
         for (int e = 0; e < element.elements; ++e, ++enodes) {
             size_t node = enodes->at(index);
             double scale = multiplicity[node];
+            #pragma omp atomic
             principalStressAvg[2 * node + 0] += scale * eigS[0][e];
+            #pragma omp atomic
             principalStressAvg[2 * node + 1] += scale * eigS[1][e];
+            #pragma omp atomic
             componentStressAvg[3 * node + 0] += scale * S[0][e];
+            #pragma omp atomic
             componentStressAvg[3 * node + 1] += scale * S[3][e];
+            #pragma omp atomic
             componentStressAvg[3 * node + 2] += scale * S[1][e];
+            #pragma omp atomic
             vonMisesStressAvg [    node    ] += scale * sqrt(.5 * ((eigS[0][e] - eigS[1][e]) * (eigS[0][e] - eigS[1][e])));
 
+            #pragma omp atomic
             principalStrainAvg[2 * node + 0] += scale * eigE[0][e];
+            #pragma omp atomic
             principalStrainAvg[2 * node + 1] += scale * eigE[1][e];
+            #pragma omp atomic
             componentStrainAvg[3 * node + 0] += scale * E[0][e];
+            #pragma omp atomic
             componentStrainAvg[3 * node + 1] += scale * E[3][e];
+            #pragma omp atomic
             componentStrainAvg[3 * node + 2] += scale * E[1][e];
+            #pragma omp atomic
             vonMisesStrainAvg [    node    ] += scale * sqrt(.5 * ((eigE[0][e] - eigE[1][e]) * (eigE[0][e] - eigE[1][e]))) / (1 + nu[e]);
         }
     }
@@ -265,26 +277,46 @@ struct StressKernel<nodes, gps, 3>: Stress {
         for (int e = 0; e < element.elements; ++e, ++enodes) {
             size_t node = enodes->at(index);
             double scale = multiplicity[node];
+            #pragma omp atomic
             principalStressAvg[3 * node + 0] += scale * eigS[0][e];
+            #pragma omp atomic
             principalStressAvg[3 * node + 1] += scale * eigS[1][e];
+            #pragma omp atomic
             principalStressAvg[3 * node + 2] += scale * eigS[2][e];
+            #pragma omp atomic
             componentStressAvg[6 * node + 0] += scale * S[0][e];
+            #pragma omp atomic
             componentStressAvg[6 * node + 1] += scale * S[4][e];
+            #pragma omp atomic
             componentStressAvg[6 * node + 2] += scale * S[8][e];
+            #pragma omp atomic
             componentStressAvg[6 * node + 3] += scale * S[1][e];
+            #pragma omp atomic
             componentStressAvg[6 * node + 4] += scale * S[5][e];
+            #pragma omp atomic
             componentStressAvg[6 * node + 5] += scale * S[2][e];
+            #pragma omp atomic
             vonMisesStressAvg [    node    ] += scale * sqrt(.5 * ((eigS[0][e] - eigS[1][e]) * (eigS[0][e] - eigS[1][e]) + (eigS[1][e] - eigS[2][e]) * (eigS[1][e] - eigS[2][e]) + (eigS[2][e] - eigS[0][e]) * (eigS[2][e] - eigS[0][e])));
 
+            #pragma omp atomic
             principalStrainAvg[3 * node + 0] += scale * eigE[0][e];
+            #pragma omp atomic
             principalStrainAvg[3 * node + 1] += scale * eigE[1][e];
+            #pragma omp atomic
             principalStrainAvg[3 * node + 2] += scale * eigE[2][e];
+            #pragma omp atomic
             componentStrainAvg[6 * node + 0] += scale * E[0][e];
+            #pragma omp atomic
             componentStrainAvg[6 * node + 1] += scale * E[4][e];
+            #pragma omp atomic
             componentStrainAvg[6 * node + 2] += scale * E[8][e];
+            #pragma omp atomic
             componentStrainAvg[6 * node + 3] += scale * E[1][e];
+            #pragma omp atomic
             componentStrainAvg[6 * node + 4] += scale * E[5][e];
+            #pragma omp atomic
             componentStrainAvg[6 * node + 5] += scale * E[2][e];
+            #pragma omp atomic
             vonMisesStrainAvg [    node    ] += scale * sqrt(.5 * ((eigE[0][e] - eigE[1][e]) * (eigE[0][e] - eigE[1][e]) + (eigE[1][e] - eigE[2][e]) * (eigE[1][e] - eigE[2][e]) + (eigE[2][e] - eigE[0][e]) * (eigE[2][e] - eigE[0][e]))) / (1 + nu[e]);
         }
     }
-- 
2.43.0


From 8e734cef6be9171c9b3a59453c5e2eb93868ed9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:06 +0000
Subject: [PATCH 47/66] fix: coordinate system: a rotation given by an
 expression was ignored if the expression is zero in the origin

---
 src/config/ecf/material/coordinatesystem.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/config/ecf/material/coordinatesystem.cpp b/src/config/ecf/material/coordinatesystem.cpp
index c91beb2..16ca691 100644
--- a/src/config/ecf/material/coordinatesystem.cpp
+++ b/src/config/ecf/material/coordinatesystem.cpp
@@ -56,14 +56,11 @@ bool CoordinateSystemConfiguration::isConst() const
 
 bool CoordinateSystemConfiguration::isRotated() const
 {
+    auto rotated = [] (const ECFExpression &angle) { return angle.isset && (!angle.evaluator->isConst() || angle.evaluator->evaluate() != 0); };
     if (type == TYPE::CARTESIAN) {
         switch (info::mesh->dimension) {
-        case 2: return rotation.z.isset && rotation.z.evaluator->evaluate() != 0;
-        case 3:
-            return
-                (rotation.x.isset && rotation.x.evaluator->evaluate() != 0) |
-                (rotation.y.isset && rotation.y.evaluator->evaluate() != 0) |
-                (rotation.z.isset && rotation.z.evaluator->evaluate() != 0);
+        case 2: return rotated(rotation.z);
+        case 3: return rotated(rotation.x) || rotated(rotation.y) || rotated(rotation.z);
         default: return false;
         }
     }
-- 
2.43.0


From 2dd028d4214d5d392e5098c9cb2ef85e6bdf60f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:06 +0000
Subject: [PATCH 48/66] fix: FETI: axisymmetric bodies have a single rigid body
 motion

---
 .../regularization.elasticity.cpp             | 29 ++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/analysis/linearsystem/regularization/regularization.elasticity.cpp b/src/analysis/linearsystem/regularization/regularization.elasticity.cpp
index 7493c0d..96eb7e3 100644
--- a/src/analysis/linearsystem/regularization/regularization.elasticity.cpp
+++ b/src/analysis/linearsystem/regularization/regularization.elasticity.cpp
@@ -26,6 +26,12 @@
 
 namespace espreso {
 
+// the only rigid body motion of an axisymmetric body (X is the radius) is the translation in Y
+static bool isAxisymmetric()
+{
+    return info::mesh->dimension == 2 && info::ecf->structural_mechanics.element_behaviour == StructuralMechanicsConfiguration::ELEMENT_BEHAVIOUR::AXISYMMETRIC;
+}
+
 static void getCorners(std::vector<esint> &fixPoints, int domain)
 {
     esint begin = info::mesh->domains->elements[domain];
@@ -451,7 +457,12 @@ static void updateRegMat(Matrix_CSR<T> &K, Matrix_CSR<T> &RegMat, DecompositionF
     }
 
     Matrix_Dense<T> N;
-    if (info::mesh->dimension == 2) {
+    if (isAxisymmetric()) {
+        N.resize(1, fixCols.size());
+        for (size_t i = 0; i < permutation.size(); ++i) {
+            N.vals[i] = fixVals[3 * permutation[i] + 1];
+        }
+    } else if (info::mesh->dimension == 2) {
         N.resize(3, fixCols.size());
         for (size_t i = 0; i < permutation.size(); ++i) {
             N.vals[0 * N.ncols + i] = fixVals[3 * permutation[i] + 0];
@@ -496,7 +507,7 @@ template <typename T>
 static void setR1(Matrix_CSR<T> &K, Matrix_Dense<T> &R1, DecompositionFETI *decomposition, int domain)
 {
     if (info::mesh->dimension == 2) {
-        R1.resize(3, K.nrows);
+        R1.resize(isAxisymmetric() ? 1 : 3, K.nrows);
     }
     if (info::mesh->dimension == 3) {
         R1.resize(6, K.nrows);
@@ -506,7 +517,17 @@ static void setR1(Matrix_CSR<T> &K, Matrix_Dense<T> &R1, DecompositionFETI *deco
 template <typename T>
 static void updateR1(Matrix_CSR<T> &K, Matrix_Dense<T> &R1, DecompositionFETI *decomposition, int domain, Vector_Distributed<Vector_Dense, T> *solution = nullptr)
 {
-    if (info::mesh->dimension == 2) {
+    if (isAxisymmetric()) {
+        R1.resize(1, K.nrows);
+        int i = 0;
+        for (auto dmap = decomposition->dmap->cbegin(); dmap != decomposition->dmap->cend(); ++dmap, ++i) {
+            for (auto di = dmap->begin(); di != dmap->end(); ++di) {
+                if (di->domain == domain + decomposition->dbegin) {
+                    R1.vals[di->index] = i % 2;
+                }
+            }
+        }
+    } else if (info::mesh->dimension == 2) {
         R1.resize(3, K.nrows);
         int i = 0;
         for (auto dmap = decomposition->dmap->cbegin(); dmap != decomposition->dmap->cend(); ++dmap, ++i) {
@@ -613,7 +634,7 @@ void Regularization<T>::update(FETI<T> &feti, StructuralMechanicsLoadStepConfigu
         }
         break;
     case FETIConfiguration::REGULARIZATION::ALGEBRAIC:
-        algebraic(feti, 3 * (info::mesh->dimension - 1), feti.configuration.sc_size);
+        algebraic(feti, isAxisymmetric() ? 1 : 3 * (info::mesh->dimension - 1), feti.configuration.sc_size);
         break;
     case FETIConfiguration::REGULARIZATION::SVD:
         if (feti.updated.K && (R1 || regMat)) svd(feti);
-- 
2.43.0


From daa16a77a9cf204190fd59254f2cb8c84c45068b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:06 +0000
Subject: [PATCH 49/66] fix: heat transfer: total heat flow was multiplied by
 thickness

---
 src/analysis/assembler/heattransfer/op.externalheat.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/analysis/assembler/heattransfer/op.externalheat.h b/src/analysis/assembler/heattransfer/op.externalheat.h
index 636a58a..83a59db 100644
--- a/src/analysis/assembler/heattransfer/op.externalheat.h
+++ b/src/analysis/assembler/heattransfer/op.externalheat.h
@@ -35,11 +35,12 @@ struct ExternalHeatKernel: ExternalHeat {
     {
         for (size_t n = 0; n < nodes; ++n) {
             SIMD q;
-            q = q + element.ecf.heatFlow * load1(area);
             q = q + element.ecf.heatFlux;
             q = q + element.ecf.htc * element.ecf.extTemp;
+            q = q * element.thickness.gp;
+            q = q + element.ecf.heatFlow * load1(area); // total flow is given
 
-            element.f[n] = element.f[n] + q * element.thickness.gp * element.det * load1(element.w[gp]) * load1(element.N[gp][n]);
+            element.f[n] = element.f[n] + q * element.det * load1(element.w[gp]) * load1(element.N[gp][n]);
         }
     }
 };
-- 
2.43.0


From 4be36ccc8b5b75c9f66af31bfcfaf84b35237341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:06 +0000
Subject: [PATCH 50/66] fix: 2D: thickness was ignored in heat sources,
 advection and mass

---
 src/analysis/assembler/general/op.matrix.mass.h     | 4 ++--
 src/analysis/assembler/heattransfer/op.advection.h  | 2 +-
 src/analysis/assembler/heattransfer/op.heatsource.h | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/analysis/assembler/general/op.matrix.mass.h b/src/analysis/assembler/general/op.matrix.mass.h
index e26ad63..90fcbbe 100644
--- a/src/analysis/assembler/general/op.matrix.mass.h
+++ b/src/analysis/assembler/general/op.matrix.mass.h
@@ -32,7 +32,7 @@ struct MatrixMassKernel<nodes, 1>: MatrixMass {
     template <typename Element>
     void simd(Element &element, size_t gp)
     {
-        simd(element, gp, element.det * load1(element.w[gp]) * element.ecf.density * element.ecf.heatCapacity);
+        simd(element, gp, element.thickness.gp * element.det * load1(element.w[gp]) * element.ecf.density * element.ecf.heatCapacity);
     }
 
     template <typename Element>
@@ -56,7 +56,7 @@ struct MatrixMassKernel<nodes, 2>: MatrixMass {
     template <typename Element>
     void simd(Element &element, size_t gp)
     {
-        SIMD scale = element.det * load1(element.w[gp]) * element.ecf.density;
+        SIMD scale = element.thickness.gp * element.det * load1(element.w[gp]) * element.ecf.density;
         for (size_t n1 = 0, n2 = nodes; n1 < nodes; ++n1, ++n2) {
             element.M[n1 * 2 * nodes + n1] = element.M[n1 * 2 * nodes + n1] + scale * load1(element.N[gp][n1] * element.N[gp][n1]);
             element.M[n2 * 2 * nodes + n2] = element.M[n2 * 2 * nodes + n2] + scale * load1(element.N[gp][n1] * element.N[gp][n1]);
diff --git a/src/analysis/assembler/heattransfer/op.advection.h b/src/analysis/assembler/heattransfer/op.advection.h
index f5b9e95..c772803 100644
--- a/src/analysis/assembler/heattransfer/op.advection.h
+++ b/src/analysis/assembler/heattransfer/op.advection.h
@@ -58,7 +58,7 @@ template <size_t nodes> struct AdvectionKernel<nodes, 2>: Advection {
         element.conductivity[3] = element.conductivity[3] + stabilization;
 
         for (size_t n = 0; n < nodes; ++n) {
-            SIMD scale = element.det * load1(element.w[gp]) * (load1(element.N[gp][n]) + advection * (ux * element.dND[n * 2 + 0] + uy * element.dND[n * 2 + 1]));
+            SIMD scale = element.thickness.gp * element.det * load1(element.w[gp]) * (load1(element.N[gp][n]) + advection * (ux * element.dND[n * 2 + 0] + uy * element.dND[n * 2 + 1]));
             for (size_t m = 0; m < nodes; ++m) {
                 element.K[n * nodes + m] = element.K[n * nodes + m] + scale * (ux * element.dND[m * 2 + 0] + uy * element.dND[m * 2 + 1]);
             }
diff --git a/src/analysis/assembler/heattransfer/op.heatsource.h b/src/analysis/assembler/heattransfer/op.heatsource.h
index cf03eb0..50448ab 100644
--- a/src/analysis/assembler/heattransfer/op.heatsource.h
+++ b/src/analysis/assembler/heattransfer/op.heatsource.h
@@ -14,7 +14,7 @@ template <size_t nodes> struct HeatSourceKernel: BoundaryCondition {
     void simd(Element &element, size_t gp)
     {
         for (size_t n = 0; n < nodes; ++n) {
-            element.f[n] = element.f[n] + element.ecf.heatSource * element.det * load1(element.w[gp]) * load1(element.N[gp][n]);
+            element.f[n] = element.f[n] + element.ecf.heatSource * element.thickness.gp * element.det * load1(element.w[gp]) * load1(element.N[gp][n]);
         }
     }
 };
-- 
2.43.0


From e81efe96d7fac410771bfbf5a65cc38ad2385553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:06 +0000
Subject: [PATCH 51/66] fix: 2D: thickness given by an expression was stored
 before its evaluation

---
 src/analysis/assembler/heattransfer/kernel.h        | 2 +-
 src/analysis/assembler/structuralmechanics/kernel.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/analysis/assembler/heattransfer/kernel.h b/src/analysis/assembler/heattransfer/kernel.h
index 7588d08..375660d 100644
--- a/src/analysis/assembler/heattransfer/kernel.h
+++ b/src/analysis/assembler/heattransfer/kernel.h
@@ -219,13 +219,13 @@ void setElementKernel(HeatTransferElementOperators &operators, SubKernel::Action
     BaseFunctions<code, gps>::simd(element);
     for (size_t c = 0; c < operators.chunks; ++c) {
         coordinates.simd(element);
-        thickness.simd(element);
 
         for (size_t i = 0; i < nonconst.node.size(); ++i) {
             for (size_t n = 0; n < nodes; ++n) {
                 nonconst.node[i]->simd(element, n);
             }
         }
+        thickness.simd(element);
 
         temperature.simd(element);
 
diff --git a/src/analysis/assembler/structuralmechanics/kernel.h b/src/analysis/assembler/structuralmechanics/kernel.h
index 61c63f8..9948da8 100644
--- a/src/analysis/assembler/structuralmechanics/kernel.h
+++ b/src/analysis/assembler/structuralmechanics/kernel.h
@@ -269,13 +269,13 @@ void setElementKernel(StructuralMechanicsElementOperators &operators, SubKernel:
     BaseFunctions<code, gps>::simd(element);
     for (size_t c = 0; c < operators.chunks; ++c) {
         coordinates.simd(element);
-        thickness.simd(element);
 
         for (size_t i = 0; i < nonconst.node.size(); ++i) {
             for (size_t n = 0; n < nodes; ++n) {
                 nonconst.node[i]->simd(element, n);
             }
         }
+        thickness.simd(element);
 
         if (velocity.isactive) {
             velocity.simd(element);
-- 
2.43.0


From 9182e74b8e4847a5ea2721804fd6e1eed49b1d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:06 +0000
Subject: [PATCH 52/66] fix: elasticity: thickness was ignored in linear plane
 stiffness matrices and pressures

---
 src/analysis/assembler/structuralmechanics.cpp                 | 3 +++
 .../assembler/structuralmechanics/op.matrix.elasticity.h       | 2 +-
 src/analysis/assembler/structuralmechanics/op.normalpressure.h | 2 +-
 src/analysis/assembler/structuralmechanics/op.pressure.h       | 2 +-
 4 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/analysis/assembler/structuralmechanics.cpp b/src/analysis/assembler/structuralmechanics.cpp
index 13d7787..f3dee25 100644
--- a/src/analysis/assembler/structuralmechanics.cpp
+++ b/src/analysis/assembler/structuralmechanics.cpp
@@ -455,6 +455,9 @@ bool StructuralMechanics::analyze(const step::Step &step)
         }
         if (info::mesh->boundaryRegions[r]->dimension) {
             for (size_t i = 0; i < info::mesh->boundaryRegions[r]->eintervals.size(); ++i) {
+                if (info::mesh->dimension == 2) {
+                    faceKernels[r][i].thickness.activate(region->elements->cbegin() + region->eintervals[i].begin, region->elements->cbegin() + region->eintervals[i].end, Results::thickness->data.data());
+                }
                 faceKernels[r][i].normalPressure.activate(getExpression(region->name, configuration.normal_pressure), settings.element_behaviour);
                 faceKernels[r][i].displacement.activate(region->elements->cbegin() + region->eintervals[i].begin, region->elements->cbegin() + region->eintervals[i].end, Results::displacement->data.data());
                 auto pressure = configuration.pressure.find(region->name);
diff --git a/src/analysis/assembler/structuralmechanics/op.matrix.elasticity.h b/src/analysis/assembler/structuralmechanics/op.matrix.elasticity.h
index 318a712..091fe29 100644
--- a/src/analysis/assembler/structuralmechanics/op.matrix.elasticity.h
+++ b/src/analysis/assembler/structuralmechanics/op.matrix.elasticity.h
@@ -75,7 +75,7 @@ struct MatrixElasticityKernel<nodes, 2>: MatrixElasticity {
                     B[1 * 2 * nodes + 1 * nodes + n] = element.dND[n * 2 + 1];
                     B[2 * 2 * nodes + 0 * nodes + n] = element.dND[n * 2 + 1]; B[2 * 2 * nodes + 1 * nodes + n] = element.dND[n * 2 + 0];
                 }
-                multAtBA<3, 2 * nodes>(element.K, B, element.vC4, element.det * load1(element.w[gp]));
+                multAtBA<3, 2 * nodes>(element.K, B, element.vC4, element.thickness.gp * element.det * load1(element.w[gp]));
             }
             break;
         case StructuralMechanicsGlobalSettings::ELEMENT_BEHAVIOUR::AXISYMMETRIC:
diff --git a/src/analysis/assembler/structuralmechanics/op.normalpressure.h b/src/analysis/assembler/structuralmechanics/op.normalpressure.h
index 2151dab..f380afa 100644
--- a/src/analysis/assembler/structuralmechanics/op.normalpressure.h
+++ b/src/analysis/assembler/structuralmechanics/op.normalpressure.h
@@ -38,7 +38,7 @@ struct NormalPressureKernel<nodes, 2>: NormalPressure {
         case StructuralMechanicsConfiguration::ELEMENT_BEHAVIOUR::PLANE_STRESS:
         case StructuralMechanicsConfiguration::ELEMENT_BEHAVIOUR::PLANE_STRESS_WITH_THICKNESS:
             for (size_t n = 0; n < nodes; ++n) {
-                SIMD pressure = element.det * load1(element.w[gp]) * load1(element.N[gp][n]) * element.ecf.normalPressure;
+                SIMD pressure = element.thickness.gp * element.det * load1(element.w[gp]) * load1(element.N[gp][n]) * element.ecf.normalPressure;
                 element.f[0 * nodes + n] = element.f[0 * nodes + n] + pressure * element.normal[0];
                 element.f[1 * nodes + n] = element.f[1 * nodes + n] + pressure * element.normal[1];
             }
diff --git a/src/analysis/assembler/structuralmechanics/op.pressure.h b/src/analysis/assembler/structuralmechanics/op.pressure.h
index aca7858..43bbe71 100644
--- a/src/analysis/assembler/structuralmechanics/op.pressure.h
+++ b/src/analysis/assembler/structuralmechanics/op.pressure.h
@@ -44,7 +44,7 @@ struct PressureKernel<nodes, 2>: Pressure {
         case StructuralMechanicsConfiguration::ELEMENT_BEHAVIOUR::PLANE_STRESS:
         case StructuralMechanicsConfiguration::ELEMENT_BEHAVIOUR::PLANE_STRESS_WITH_THICKNESS:
             for (size_t n = 0; n < nodes; ++n) {
-                SIMD pressure = element.det * load1(element.w[gp]) * load1(element.N[gp][n]) * element.ecf.pressure.pressure;
+                SIMD pressure = element.thickness.gp * element.det * load1(element.w[gp]) * load1(element.N[gp][n]) * element.ecf.pressure.pressure;
                 element.f[0 * nodes + n] = element.f[0 * nodes + n] + pressure * element.ecf.pressure.direction[0];
                 element.f[1 * nodes + n] = element.f[1 * nodes + n] + pressure * element.ecf.pressure.direction[1];
             }
-- 
2.43.0


From b90179bdf355158f3118079d64e9563adfd70ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:34 +0000
Subject: [PATCH 53/66] fix: configuration reader: unfinished comments,
 strings, links, and environment values, mixed quotes, and adjacent tokens

---
 src/config/reader/tokenizer.cpp | 45 ++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/src/config/reader/tokenizer.cpp b/src/config/reader/tokenizer.cpp
index e85b97c..a3414d6 100644
--- a/src/config/reader/tokenizer.cpp
+++ b/src/config/reader/tokenizer.cpp
@@ -99,11 +99,6 @@ static bool isStringStart(char c)
     return c == '"' || c == '\'';
 }
 
-static bool isStringEnd(char c)
-{
-    return c == '"' || c == '\'';
-}
-
 static bool isSingleCommentChar(char c)
 {
     return c == '#';
@@ -126,7 +121,7 @@ static bool isMultiLineCommentEnd(char last, char currect)
 
 static void skipWhiteSpaces(FullFile &file)
 {
-    while (isWhiteSpace(file.peek()) && !file.eof()) {
+    while (!file.eof() && isWhiteSpace(file.peek())) {
         file.get();
     }
 }
@@ -180,14 +175,20 @@ Tokenizer::Token Tokenizer::_next()
         if (_buffer.size() && isMultiLineCommentStart(_buffer.back(), _file.peek())) {
             _buffer.pop_back();
             _file.get();
-            int last = _file.get();
-            while(!isMultiLineCommentEnd(last, _file.peek())) {
+            int last = 0;
+            while (!_file.eof() && !isMultiLineCommentEnd(last, _file.peek())) {
                 if (isLineEnd(_file.peek())) {
                     _line++;
                 }
                 last = _file.get();
             }
+            if (_file.eof()) {
+                eslog::globalerror("Configuration file error: missing the end of a comment '*/'\n");
+            }
             _file.get();
+            if (_buffer.size()) {
+                return Token::STRING;
+            }
             skipWhiteSpaces(_file);
             continue;
         }
@@ -220,9 +221,9 @@ Tokenizer::Token Tokenizer::_next()
         if (isLinkStart(_file.peek())) {
             _file.get();
             size_t stacked = 0;
-            while(!isLinkEnd(_file.peek()) || stacked) {
+            while(_file.eof() || !isLinkEnd(_file.peek()) || stacked) {
                 if (_file.eof()) {
-                    eslog::globalerror("Configuration file error: missing link end symbol ']'");
+                    eslog::globalerror("Configuration file error: missing link end symbol ']'\n");
                 }
                 if (isLinkStart(_file.peek())) {
                     stacked++;
@@ -235,12 +236,15 @@ Tokenizer::Token Tokenizer::_next()
             _file.get();
             return Token::LINK;
         }
+        if (isEnv(_file.peek()) && _buffer.size()) {
+            return Token::STRING;
+        }
         if (isEnv(_file.peek())) {
             _file.get();
-            if (isObjectOpen(_file.peek())) {
+            if (!_file.eof() && isObjectOpen(_file.peek())) {
                 _file.get();
-                while (!isObjectClose(_file.peek())) {
-                    if (isLineEnd(_file.peek())) {
+                while (_file.eof() || !isObjectClose(_file.peek())) {
+                    if (_file.eof() || isLineEnd(_file.peek())) {
                         eslog::globalerror("Configuration file error: use ${...} to read environment parameter.\n");
                     }
                     _buffer.push_back(_file.get());
@@ -252,21 +256,16 @@ Tokenizer::Token Tokenizer::_next()
             return Token::ENV;
         }
         if (isStringStart(_file.peek())) {
-            size_t stacked = 0, bsize = _buffer.size();
+            size_t bsize = _buffer.size();
+            char quote = _file.peek();
             if (bsize) {
                 _buffer.push_back(_file.get());
             } else {
                 _file.get();
             }
-            while (!isStringEnd(_file.peek()) || stacked) {
+            while (_file.eof() || _file.peek() != quote) {
                 if (_file.eof()) {
-                    eslog::globalerror("Configuration file error: missing link end symbol '\"'");
-                }
-                if (isStringStart(_file.peek())) {
-                    stacked++;
-                }
-                if (isStringEnd(_file.peek())) {
-                    stacked--;
+                    eslog::globalerror("Configuration file error: missing string end symbol '%c'\n", quote);
                 }
                 _buffer.push_back(_file.get());
             }
@@ -291,7 +290,7 @@ std::string Tokenizer::lastLines(size_t number)
     _file.move(0);
     while (_file.position() < current) {
         size_t begin = _file.position();
-        while(_file.get() != '\n');
+        while (!_file.eof() && _file.get() != '\n');
         lines.push(_file.get(begin, _file.position()));
         if (lines.size() > number) {
             lines.pop();
-- 
2.43.0


From 9a630872f362bae96554ee7238b9ebf8000496ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:34 +0000
Subject: [PATCH 54/66] fix: configuration reader: an index of an option was
 not checked

---
 src/config/holders/valueholder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config/holders/valueholder.h b/src/config/holders/valueholder.h
index aa206af..8841a5a 100644
--- a/src/config/holders/valueholder.h
+++ b/src/config/holders/valueholder.h
@@ -190,7 +190,7 @@ struct ECFEnumHolder: public ECFValue {
         }
 
         if (index == (size_t)-1) {
-            if (!ECFValueHolder<size_t>(index)._setValue(value)) {
+            if (!ECFValueHolder<size_t>(index)._setValue(value) || index >= metadata.options.size()) {
                 return false;
             }
         }
-- 
2.43.0


From 3c749a9c9a38a279eff9ab569681f7decc323bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:34 +0000
Subject: [PATCH 55/66] fix: configuration reader: a parameter with missing ';'
 before '}' or the end of file was silently ignored

---
 src/config/reader/reader.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/config/reader/reader.cpp b/src/config/reader/reader.cpp
index 742e824..b30be5a 100644
--- a/src/config/reader/reader.cpp
+++ b/src/config/reader/reader.cpp
@@ -333,6 +333,9 @@ void ECFReader::_read(
             values.clear();
             break;
         case Tokenizer::Token::OBJECT_CLOSE:
+            if (values.size()) {
+                eslog::globalerror("PARSE ERROR: Expected ';' before '}'\n%s", tokenStack.top()->lastLines(2).c_str());
+            }
             if (!confStack.size() || !prefix.size()) {
                 eslog::globalerror("PARSE ERROR: Unexpected region end.\n%s", tokenStack.top()->lastLines(2).c_str());
             }
@@ -400,6 +403,9 @@ void ECFReader::_read(
             eslog::globalerror("PARSE ERROR: Unknown token in configuration file.");
         }
     }
+    if (values.size()) {
+        eslog::globalerror("PARSE ERROR: Unexpected EOF, expected ';' after '%s'\n", values.back().c_str());
+    }
     if (confStack.size() != 1) {
         eslog::globalerror("PARSE ERROR: Unexpected EOF before close all regions.");
     }
-- 
2.43.0


From 57d0641cba2c809e7e8705c01be179c6d7826abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:35 +0000
Subject: [PATCH 56/66] fix: configuration reader: '=' was removed from
 comparisons in expressions

---
 src/config/reader/reader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/config/reader/reader.cpp b/src/config/reader/reader.cpp
index b30be5a..67e1853 100644
--- a/src/config/reader/reader.cpp
+++ b/src/config/reader/reader.cpp
@@ -343,6 +343,9 @@ void ECFReader::_read(
             confStack.pop();
             break;
         case Tokenizer::Token::ASSIGN:
+            if (values.size() > 1) { // a part of a value (e.g., <=, >=, ==, !=)
+                values.back() += "=";
+            }
             break;
         case Tokenizer::Token::DELIMITER:
             values.push_back(",");
-- 
2.43.0


From c6ae11832be1957534a990573c7b2a8fc66381fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:05 +0000
Subject: [PATCH 57/66] fix: configuration: parameters registered under a name
 of another parameter

---
 src/config/ecf/linearsolver/feti.cpp                            | 2 +-
 .../ecf/physics/physicssolver/transientsecondorderimplicit.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/config/ecf/linearsolver/feti.cpp b/src/config/ecf/linearsolver/feti.cpp
index 759053d..ad473b3 100644
--- a/src/config/ecf/linearsolver/feti.cpp
+++ b/src/config/ecf/linearsolver/feti.cpp
@@ -211,7 +211,7 @@ espreso::FETIConfiguration::FETIConfiguration()
             .setdescription({ "SMALSE no_enlarg_exp" })
             .setdatatype({ ECFDataType::INTEGER }));
     no_enlarg_prop = 0;
-    REGISTER(th, ECFMetaData()
+    REGISTER(no_enlarg_prop, ECFMetaData()
             .setdescription({ "SMALSE no_enlarg_prop" })
             .setdatatype({ ECFDataType::INTEGER }));
 
diff --git a/src/config/ecf/physics/physicssolver/transientsecondorderimplicit.cpp b/src/config/ecf/physics/physicssolver/transientsecondorderimplicit.cpp
index 7e87379..b491965 100644
--- a/src/config/ecf/physics/physicssolver/transientsecondorderimplicit.cpp
+++ b/src/config/ecf/physics/physicssolver/transientsecondorderimplicit.cpp
@@ -41,7 +41,7 @@ TransientSecondOrderImplicitSolverConfiguration::TransientSecondOrderImplicitSol
     ecfdescription->addSpace();
 
     mass_matrix_type = MASS_MATRIX_TYPE::CONSISTENT;
-    REGISTER(method, ECFMetaData()
+    REGISTER(mass_matrix_type, ECFMetaData()
             .setdescription({ "Method" })
             .setdatatype({ ECFDataType::OPTION })
             .addoption(ECFOption().setname("CONSISTENT").setdescription("Consistent method."))
-- 
2.43.0


From 5acd5957fe1e0ef45cb0f6b27ce6c48efddf0d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:44 +0000
Subject: [PATCH 58/66] fix: configuration reader: a negative value of an
 unsigned parameter was wrapped

---
 src/config/holders/valueholder.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/config/holders/valueholder.h b/src/config/holders/valueholder.h
index 8841a5a..15c2fd0 100644
--- a/src/config/holders/valueholder.h
+++ b/src/config/holders/valueholder.h
@@ -8,6 +8,7 @@
 #include "basis/evaluator/evaluator.h"
 #include "basis/utilities/parser.h"
 #include <sstream>
+#include <type_traits>
 
 namespace espreso {
 
@@ -27,6 +28,9 @@ struct ECFValueHolder: public ECFValue {
     bool _setValue(const std::string &value)
     {
 
+        if (std::is_unsigned<Ttype>::value && value.find('-') != std::string::npos) {
+            return false; // streams wrap negative numbers
+        }
         std::stringstream ss(value);
         if (value.size() > 1 && value[0] == '0' && value[1] == 'x') {
             ss >> std::hex >> this->value;
-- 
2.43.0


From 8de23d3ae39974fcc7f0e84cc970a74d7ec2bef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:42 +0000
Subject: [PATCH 59/66] fix: mesio API: a mesh could not be loaded without a
 configuration of materials

---
 src/api/wrapper.mesio.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/api/wrapper.mesio.cpp b/src/api/wrapper.mesio.cpp
index feb9d6e..9ff4d7b 100644
--- a/src/api/wrapper.mesio.cpp
+++ b/src/api/wrapper.mesio.cpp
@@ -95,6 +95,7 @@ void MESIOLoad(
     case MESIO_XDMF: info::ecf->input.format = InputConfiguration::FORMAT::XDMF; break;
     }
     info::ecf->input.path = path;
+    info::ecf->input.convert_database = true; // materials of regions are not needed
     switch (decomposer) {
     case MESIO_NONE: info::ecf->input.decomposition.parallel_decomposer = DecompositionConfiguration::ParallelDecomposer::NONE; break;
     case MESIO_METIS: info::ecf->input.decomposition.parallel_decomposer = DecompositionConfiguration::ParallelDecomposer::METIS; break;
-- 
2.43.0


From 009031ce620f9a7402094ce5f7f5f3ee25981ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:42 +0000
Subject: [PATCH 60/66] fix: mesio API: domains of nodes were never computed

---
 src/api/wrapper.mesio.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api/wrapper.mesio.cpp b/src/api/wrapper.mesio.cpp
index 9ff4d7b..e0daffd 100644
--- a/src/api/wrapper.mesio.cpp
+++ b/src/api/wrapper.mesio.cpp
@@ -108,6 +108,9 @@ void MESIOLoad(
 
     info::mesh->load();
     info::mesh->preprocess();
+    if (info::mesh->nodes->domains == NULL) {
+        mesh::computeNodeDomainDistribution(info::mesh->elements, info::mesh->nodes, info::mesh->domains, info::mesh->neighborsWithMe);
+    }
 
     *mesio = new MESIOData();
 }
-- 
2.43.0


From cbc2d54da0545eaeb2981d1409799c41bba40d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:42 +0000
Subject: [PATCH 61/66] fix: mesio API: parents of boundary elements were mixed
 with indices of faces

---
 src/api/wrapper.mesio.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/api/wrapper.mesio.cpp b/src/api/wrapper.mesio.cpp
index e0daffd..3ba799b 100644
--- a/src/api/wrapper.mesio.cpp
+++ b/src/api/wrapper.mesio.cpp
@@ -36,18 +36,25 @@ struct MESIOData {
             domains.resize(espreso::info::mesh->domains->elements[i], espreso::info::mesh->domains->offset + i - 1);
         }
         rtypes.resize(espreso::info::mesh->boundaryRegions.size());
+        rparents.resize(espreso::info::mesh->boundaryRegions.size());
         for (size_t i = 0; i < espreso::info::mesh->boundaryRegions.size(); ++i) {
             if (espreso::info::mesh->boundaryRegions[i]->dimension) {
                 rtypes[i].reserve(espreso::info::mesh->boundaryRegions[i]->epointers->datatarray().size());
                 for (size_t e = 0; e < espreso::info::mesh->boundaryRegions[i]->epointers->datatarray().size(); ++e) {
                     rtypes[i].push_back(static_cast<int>(espreso::info::mesh->boundaryRegions[i]->epointers->datatarray()[e]->code));
                 }
+                // membership holds pairs (element, index of a face or an edge)
+                const auto &membership = espreso::info::mesh->boundaryRegions[i]->emembership->datatarray();
+                rparents[i].reserve(membership.size() / 2);
+                for (size_t e = 0; e < membership.size(); e += 2) {
+                    rparents[i].push_back(membership[e]);
+                }
             }
         }
     }
 
     std::vector<esint> etypes, domains;
-    std::vector<std::vector<esint> > rtypes;
+    std::vector<std::vector<esint> > rtypes, rparents;
 };
 
 using namespace espreso;
@@ -281,7 +288,7 @@ void MESIOBoundaryRegion(
     if (*dimension) {
         *size = info::mesh->boundaryRegions[region]->distribution.process.size;
         *type = mesio->rtypes[region].data();
-        *parent = info::mesh->boundaryRegions[region]->emembership->datatarray().data();
+        *parent = mesio->rparents[region].data();
         *elementDistribution = info::mesh->boundaryRegions[region]->elements->boundarytarray().data();
         *elementData = info::mesh->boundaryRegions[region]->elements->datatarray().data();
     } else {
-- 
2.43.0


From dc5bef47ecdefac051474ecddabf0471501bdf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:42 +0000
Subject: [PATCH 62/66] fix: mesio API: no distribution of boundary elements
 with a uniform number of nodes

---
 src/api/wrapper.mesio.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/api/wrapper.mesio.cpp b/src/api/wrapper.mesio.cpp
index 3ba799b..457b6f7 100644
--- a/src/api/wrapper.mesio.cpp
+++ b/src/api/wrapper.mesio.cpp
@@ -37,12 +37,19 @@ struct MESIOData {
         }
         rtypes.resize(espreso::info::mesh->boundaryRegions.size());
         rparents.resize(espreso::info::mesh->boundaryRegions.size());
+        rdistribution.resize(espreso::info::mesh->boundaryRegions.size());
         for (size_t i = 0; i < espreso::info::mesh->boundaryRegions.size(); ++i) {
             if (espreso::info::mesh->boundaryRegions[i]->dimension) {
                 rtypes[i].reserve(espreso::info::mesh->boundaryRegions[i]->epointers->datatarray().size());
                 for (size_t e = 0; e < espreso::info::mesh->boundaryRegions[i]->epointers->datatarray().size(); ++e) {
                     rtypes[i].push_back(static_cast<int>(espreso::info::mesh->boundaryRegions[i]->epointers->datatarray()[e]->code));
                 }
+                // the distribution is not stored for elements with a uniform number of nodes
+                rdistribution[i].reserve(espreso::info::mesh->boundaryRegions[i]->elements->structures() + 1);
+                rdistribution[i].push_back(0);
+                for (auto e = espreso::info::mesh->boundaryRegions[i]->elements->cbegin(); e != espreso::info::mesh->boundaryRegions[i]->elements->cend(); ++e) {
+                    rdistribution[i].push_back(rdistribution[i].back() + e->size());
+                }
                 // membership holds pairs (element, index of a face or an edge)
                 const auto &membership = espreso::info::mesh->boundaryRegions[i]->emembership->datatarray();
                 rparents[i].reserve(membership.size() / 2);
@@ -54,7 +61,7 @@ struct MESIOData {
     }
 
     std::vector<esint> etypes, domains;
-    std::vector<std::vector<esint> > rtypes, rparents;
+    std::vector<std::vector<esint> > rtypes, rparents, rdistribution;
 };
 
 using namespace espreso;
@@ -289,7 +296,7 @@ void MESIOBoundaryRegion(
         *size = info::mesh->boundaryRegions[region]->distribution.process.size;
         *type = mesio->rtypes[region].data();
         *parent = mesio->rparents[region].data();
-        *elementDistribution = info::mesh->boundaryRegions[region]->elements->boundarytarray().data();
+        *elementDistribution = mesio->rdistribution[region].data();
         *elementData = info::mesh->boundaryRegions[region]->elements->datatarray().data();
     } else {
         *size = 0;
-- 
2.43.0


From 82ccd9b9abfc9a2ed719d8bc068a53ecb5ffee15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:35 +0000
Subject: [PATCH 63/66] fix: omitted mid-points in meshes with linear elements

---
 src/input/meshbuilder.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/input/meshbuilder.cpp b/src/input/meshbuilder.cpp
index bd21934..4249b81 100644
--- a/src/input/meshbuilder.cpp
+++ b/src/input/meshbuilder.cpp
@@ -34,14 +34,16 @@ void MeshBuilder::build()
     if (info::ecf->input.omit_midpoints) {
         size_t shrinked = 0;
         for (size_t i = 0, offset = 0; i < etype.size(); ++i) {
+            esint size = esize[i], coarse = size;
             if (Mesh::edata[etype[i]].nodes != Mesh::edata[etype[i]].coarseNodes) {
-                for (esint n = 0; n < Mesh::edata[etype[i]].coarseNodes; n++) {
-                    enodes[shrinked + n] = enodes[offset + n];
-                }
-                offset += Mesh::edata[etype[i]].nodes;
-                shrinked += Mesh::edata[etype[i]].coarseNodes;
-                esize[i] = Mesh::edata[etype[i]].coarseNodes;
+                coarse = Mesh::edata[etype[i]].coarseNodes;
+            }
+            for (esint n = 0; n < coarse; n++) {
+                enodes[shrinked + n] = enodes[offset + n];
             }
+            offset += size;
+            shrinked += coarse;
+            esize[i] = coarse;
             switch (etype[i]) {
             case (int)Element::CODE::LINE3:     etype[i] = (int)Element::CODE::LINE2; break;
             case (int)Element::CODE::TRIANGLE6: etype[i] = (int)Element::CODE::TRIANGLE3; break;
-- 
2.43.0


From b1751fa0d7761cd348b8256cdbd06f49f8f1ee64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:30 +0000
Subject: [PATCH 64/66] fix: duplicated nodes on borders of processes were
 merged inconsistently

---
 src/input/builders/scatteredinput.cpp | 33 ++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/input/builders/scatteredinput.cpp b/src/input/builders/scatteredinput.cpp
index f57980a..07e4efc 100644
--- a/src/input/builders/scatteredinput.cpp
+++ b/src/input/builders/scatteredinput.cpp
@@ -595,15 +595,32 @@ void ScatteredInput::mergeDuplicatedNodes()
     }
     profiler::synccheckpoint("rbuffer");
 
-    std::vector<size_t> toinsert, toerase;
-    searchDuplicateNodes(coordinates, ids, [&] (esint id, esint target) {
-        if (id < noffset.front() && noffset.front() <= target) { // I have duplicate
-            toerase.push_back(offsets[id]);
-        }
-        if (target < noffset.front() && noffset.front() <= id) { // rank n has duplicate and I have target
-            toinsert.push_back(id);
+    // all ranks have to select the same target, hence, each group of duplicates is held by the owner of the node with the lowest ID
+    std::vector<size_t> toinsert, toerase, target(ids.size());
+    std::iota(target.begin(), target.end(), 0);
+    auto getTarget = [&] (size_t i) {
+        while (target[i] != i) {
+            i = target[i] = target[target[i]];
+        }
+        return i;
+    };
+    searchDuplicateNodes(coordinates, ids, [&] (esint i, esint j) {
+        size_t ti = getTarget(i), tj = getTarget(j);
+        if (ids[ti] < ids[tj]) {
+            target[tj] = ti;
+        } else {
+            target[ti] = tj;
         }
     });
+    for (size_t i = 0, nown = noffset.front(); i < ids.size(); ++i) {
+        size_t t = getTarget(i);
+        if (i < nown && nown <= t) { // I have duplicate
+            toerase.push_back(offsets[i]);
+        }
+        if (t < nown && nown <= i) { // rank n has duplicate and I have target
+            toinsert.push_back(i);
+        }
+    }
     profiler::synccheckpoint("search");
 
     if (toerase.size()) {
@@ -634,7 +651,7 @@ void ScatteredInput::mergeDuplicatedNodes()
         for (size_t i = _meshData.nIDs.size() - toinsert.size(), j = 0; j < toinsert.size(); ++i, ++j) {
             _meshData.nIDs[i] = ids[toinsert[j]];
             _meshData.coordinates[i] = coordinates[toinsert[j]];
-            buckets.push_back(std::make_pair(_meshData.nIDs[i], _sfc.getBucket(_meshData.coordinates[i])));
+            buckets.push_back(std::make_pair(_meshData.nIDs[i], _sfc.getBucket(coordinates[getTarget(toinsert[j])])));
             for (size_t r = 0; r < _nregsize; ++r) {
                 _nregions[i * _nregsize + r] = regions[toinsert[j] * _nregsize + r];
             }
-- 
2.43.0


From ccde118a78785726818fabecb1a960654e0ab29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:43 +0000
Subject: [PATCH 65/66] fix: node regions of the selection were marked as
 regions of edges

---
 src/input/meshbuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input/meshbuilder.cpp b/src/input/meshbuilder.cpp
index 4249b81..db29fa2 100644
--- a/src/input/meshbuilder.cpp
+++ b/src/input/meshbuilder.cpp
@@ -189,7 +189,7 @@ void MeshBuilder::build()
             }
         }
         info::mesh->boundaryRegions.push_back(new BoundaryRegionStore(sphere->first));
-        info::mesh->boundaryRegions.back()->dimension = 1;
+        info::mesh->boundaryRegions.back()->dimension = 0;
         info::mesh->boundaryRegions.back()->nodes = new serializededata<esint, esint>(1, { (size_t)info::env::threads, nodes });
     }
 
-- 
2.43.0


From ac75fffbf4cda4ecbdbb784eb4e5139ae3881f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:30 +0000
Subject: [PATCH 66/66] fix: clipping kept nodes without elements and ranks
 that do not hold them

---
 src/input/builders/input.cpp | 61 ++++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/src/input/builders/input.cpp b/src/input/builders/input.cpp
index 8d79df2..ec1c4a8 100644
--- a/src/input/builders/input.cpp
+++ b/src/input/builders/input.cpp
@@ -28,22 +28,55 @@ using namespace espreso;
 void Input::clip()
 {
     if (info::ecf->input.clipping_box.apply) {
-        std::vector<esint> nids, rdist = { 0 };
-        std::vector<int> rdata;
-        std::vector<Point> coordinates;
-        std::vector<esint> nstatus(_meshData.coordinates.size(), -1);
         const ClippingBox &box = info::ecf->input.clipping_box;
+        std::vector<int> inside(_meshData.coordinates.size()), used(_meshData.coordinates.size());
         for (size_t n = 0; n < _meshData.coordinates.size(); ++n) {
-            if (!(
+            inside[n] = !(
                     _meshData.coordinates[n].x < box.min[0] || box.max[0] < _meshData.coordinates[n].x ||
                     _meshData.coordinates[n].y < box.min[1] || box.max[1] < _meshData.coordinates[n].y ||
-                    _meshData.coordinates[n].z < box.min[2] || box.max[2] < _meshData.coordinates[n].z)) {
+                    _meshData.coordinates[n].z < box.min[2] || box.max[2] < _meshData.coordinates[n].z);
+        }
+        // only nodes of elements that are inside of the box are kept
+        Element::TYPE etop = info::mesh->dimension == 3 ? Element::TYPE::VOLUME : Element::TYPE::PLANE;
+        for (size_t e = 0, offset = 0; e < _meshData.esize.size(); offset += _meshData.esize[e++]) {
+            if (Mesh::edata[_meshData.etype[e]].type == etop) {
+                auto begin = _meshData.enodes.begin() + offset, end = begin + _meshData.esize[e];
+                if (std::all_of(begin, end, [&] (esint n) { return inside[n]; })) {
+                    std::for_each(begin, end, [&] (esint n) { used[n] = 1; });
+                }
+            }
+        }
 
+        std::vector<std::vector<esint> > sUsed(info::mesh->neighbors.size()), rUsed(info::mesh->neighbors.size());
+        auto nindex = [&] (int rank) { return std::lower_bound(info::mesh->neighbors.begin(), info::mesh->neighbors.end(), rank) - info::mesh->neighbors.begin(); };
+        for (size_t n = 0; n < _meshData.coordinates.size(); ++n) {
+            for (esint r = _meshData._nrankdist[n]; used[n] && r < _meshData._nrankdist[n + 1]; ++r) {
+                if (_meshData._nranks[r] != info::mpi::rank) {
+                    sUsed[nindex(_meshData._nranks[r])].push_back(_meshData.nIDs[n]);
+                }
+            }
+        }
+        if (!Communication::exchangeUnknownSize(sUsed, rUsed, info::mesh->neighbors)) {
+            eslog::internalFailure("exchange clipped nodes.\n");
+        }
+        for (size_t r = 0; r < rUsed.size(); ++r) {
+            std::sort(rUsed[r].begin(), rUsed[r].end());
+        }
+
+        std::vector<esint> nids, rdist = { 0 };
+        std::vector<int> rdata;
+        std::vector<Point> coordinates;
+        std::vector<esint> nstatus(_meshData.coordinates.size(), -1);
+        for (size_t n = 0; n < _meshData.coordinates.size(); ++n) {
+            if (used[n]) {
                 nstatus[n] = nids.size();
                 nids.push_back(_meshData.nIDs[n]);
                 coordinates.push_back(_meshData.coordinates[n]);
                 for (esint r = _meshData._nrankdist[n]; r < _meshData._nrankdist[n + 1]; ++r) {
-                    rdata.push_back(_meshData._nranks[r]);
+                    int rank = _meshData._nranks[r];
+                    if (rank == info::mpi::rank || std::binary_search(rUsed[nindex(rank)].begin(), rUsed[nindex(rank)].end(), _meshData.nIDs[n])) {
+                        rdata.push_back(rank);
+                    }
                 }
                 rdist.push_back(rdata.size());
             }
@@ -53,6 +86,7 @@ void Input::clip()
         _meshData.coordinates.swap(coordinates);
         _meshData._nrankdist.swap(rdist);
         _meshData._nranks.swap(rdata);
+        fillNeighbors();
 
         for (auto rit = _meshData.nregions.begin(); rit != _meshData.nregions.end(); ++rit) {
             std::vector<esint> rids;
@@ -64,21 +98,15 @@ void Input::clip()
             rit->second.swap(rids);
         }
 
-        std::vector<esint> enodes, esize, eids, cNodes;
+        std::vector<esint> enodes, esize, eids;
         std::vector<int> etype, mat, body;
         std::vector<esint> estatus(_meshData.esize.size(), -1);
-        for (size_t e = 0, offset = 0, type = 0, coffset, noffset; e < _meshData.esize.size(); ++e) {
-            if ((size_t)_etypeDistribution[type] <= e) {
-                ++type;
-            }
+        for (size_t e = 0, offset = 0, noffset; e < _meshData.esize.size(); ++e) {
             bool clip = false;
-            coffset = cNodes.size();
             noffset = enodes.size();
             for (esint n = 0; n < _meshData.esize[e]; ++n) {
                 enodes.push_back(nstatus[_meshData.enodes[n + offset]]);
-                if (nstatus[_meshData.enodes[n + offset]] != -1) {
-                    cNodes.push_back(nstatus[_meshData.enodes[n + offset]]);
-                } else {
+                if (nstatus[_meshData.enodes[n + offset]] == -1) {
                     clip = true;
                 }
             }
@@ -86,7 +114,6 @@ void Input::clip()
                 enodes.resize(noffset);
             } else {
                 estatus[e] = esize.size();
-                cNodes.resize(coffset);
                 esize.push_back(_meshData.esize[e]);
                 etype.push_back(_meshData.etype[e]);
                 eids.push_back(_meshData.eIDs[e]);
-- 
2.43.0

