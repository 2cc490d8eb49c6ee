From 9d4bb930d28741968b06bc9a32836812d8937866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:56 +0000
Subject: [PATCH 01/26] fix: interpolate the inner cells in Volume::setVolume
 (ghost offset, 3d weight)

---
 alsfvm/include/alsfvm/volume/interpolate.hpp | 26 ++++++++++++--------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/alsfvm/include/alsfvm/volume/interpolate.hpp b/alsfvm/include/alsfvm/volume/interpolate.hpp
index 6c1547d..ef2da91 100644
--- a/alsfvm/include/alsfvm/volume/interpolate.hpp
+++ b/alsfvm/include/alsfvm/volume/interpolate.hpp
@@ -21,38 +21,40 @@
 namespace alsfvm {
 namespace volume {
 
+// (x, y, z) is the index of the output cell, (xIn, yIn, zIn) is the index of the
+// first of the input cells it covers (both including ghost cells).
 template<size_t dimension>
 void interpolate(memory::View<real>& out, memory::View<const real>& in,
-    size_t x, size_t y, size_t z);
+    size_t x, size_t y, size_t z, size_t xIn, size_t yIn, size_t zIn);
 
 template<>
 void interpolate<1>(memory::View<real>& out, memory::View<const real>& in,
-    size_t x, size_t y, size_t z) {
-    out.at(x, y, z) = (in.at(2 * x, y, z) + in.at(2 * x + 1, y, z)) / 2.0;
+    size_t x, size_t y, size_t z, size_t xIn, size_t yIn, size_t zIn) {
+    out.at(x, y, z) = (in.at(xIn, yIn, zIn) + in.at(xIn + 1, yIn, zIn)) / 2.0;
 }
 
 template<>
 void interpolate<2>(memory::View<real>& out, memory::View<const real>& in,
-    size_t x, size_t y, size_t z) {
-    out.at(x, y, z) = (in.at(2 * x, 2 * y, z) + in.at(2 * x + 1, 2 * y, z)
-            + in.at(2 * x, 2 * y + 1, z) + in.at(2 * x + 1, 2 * y + 1, z)) / 4.0;
+    size_t x, size_t y, size_t z, size_t xIn, size_t yIn, size_t zIn) {
+    out.at(x, y, z) = (in.at(xIn, yIn, zIn) + in.at(xIn + 1, yIn, zIn)
+            + in.at(xIn, yIn + 1, zIn) + in.at(xIn + 1, yIn + 1, zIn)) / 4.0;
 }
 
 template<>
 void interpolate<3>(memory::View<real>& out, memory::View<const real>& in,
-    size_t x, size_t y, size_t z) {
+    size_t x, size_t y, size_t z, size_t xIn, size_t yIn, size_t zIn) {
     out.at(x, y, z) = 0;
 
     // Do this with for-loop because there are just too many combinations
     for (size_t i = 0; i < 2; ++i) {
         for (size_t j = 0; j < 2; ++j) {
             for (size_t k = 0; k < 2; ++k) {
-                out.at(x, y, z) += in.at(2 * x + k, 2 * y + j, 2 * z + i);
+                out.at(x, y, z) += in.at(xIn + k, yIn + j, zIn + i);
             }
         }
     }
 
-    out.at(x, y, z) /= 16;
+    out.at(x, y, z) /= 8;
 }
 
 template<size_t dimension>
@@ -66,6 +68,7 @@ inline void interpolate(Volume& out, const Volume& in) {
     size_t nz = out.getTotalNumberOfZCells();
 
     size_t ng = out.getNumberOfXGhostCells();
+    size_t ngIn = in.getNumberOfXGhostCells();
     bool hasZ = dimension > 2;
     bool hasY = dimension > 1;
 
@@ -76,7 +79,10 @@ inline void interpolate(Volume& out, const Volume& in) {
         for (size_t z = hasZ * ng; z < nz - hasZ * ng ; ++z) {
             for (size_t y = hasY * ng; y < ny - hasY * ng; ++y) {
                 for (size_t x = ng; x < nx - ng; ++x) {
-                    interpolate<dimension>(viewOut, viewIn, x, y, z);
+                    interpolate<dimension>(viewOut, viewIn, x, y, z,
+                        ngIn + 2 * (x - ng),
+                        hasY ? ngIn + 2 * (y - ng) : y,
+                        hasZ ? ngIn + 2 * (z - ng) : z);
                 }
             }
         }
-- 
2.43.0


From df4a0f9ef8176631874ff107b6e2a0d6aada3c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:56 +0000
Subject: [PATCH 02/26] fix: reject operands of a different size in
 HostMemory::operator+=

---
 alsfvm/src/memory/HostMemory.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/alsfvm/src/memory/HostMemory.cpp b/alsfvm/src/memory/HostMemory.cpp
index 0e4584e..1e355e3 100644
--- a/alsfvm/src/memory/HostMemory.cpp
+++ b/alsfvm/src/memory/HostMemory.cpp
@@ -99,6 +99,10 @@ void HostMemory<T>::operator+=(const Memory<T>& other) {
         THROW("Memory not on host");
     }
 
+    if (other.getSize() != this->getSize()) {
+        THROW("Memory size not the same");
+    }
+
     auto pointer = other.getPointer();
     #pragma omp parallel for simd
 
-- 
2.43.0


From 25dd0c4ee95aedd00e4d5ef452320bb313994d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 03/26] fix: vec6 constructor dropped its last component, vec6
 addition did not compile

---
 alsutils/include/alsutils/vec6.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alsutils/include/alsutils/vec6.hpp b/alsutils/include/alsutils/vec6.hpp
index b85a3e2..3ff37eb 100644
--- a/alsutils/include/alsutils/vec6.hpp
+++ b/alsutils/include/alsutils/vec6.hpp
@@ -34,7 +34,7 @@ struct vec6 {
 
     }
     __device__ __host__ vec6(T x, T y, T z, T v, T w, T u)
-        : x(x), y(y), z(z), v(v), w(w), u(0) {
+        : x(x), y(y), z(z), v(v), w(w), u(u) {
         // Empty
     }
 
@@ -143,7 +143,7 @@ __device__ __host__ inline vec6<T> operator/(const vec6<T>& a, T scalar) {
 template<class T>
 __device__ __host__ inline vec6<T> operator+(const vec6<T>& a,
     const vec6<T>& b) {
-    return vec6<T>(a.x + b.x, a.y + b.y, a.z + b.z.a.v + b.v, a.w + b.w, a.u + b.u);
+    return vec6<T>(a.x + b.x, a.y + b.y, a.z + b.z, a.v + b.v, a.w + b.w, a.u + b.u);
 }
 
 
-- 
2.43.0


From 70143580eacd5e5bff3616e556d3db62d8e1f387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 04/26] fix: scalar equations accepted -infinity and scaled
 entropy variables were not R^T v

---
 .../alsfvm/equation/buckleyleverett/BuckleyLeverett.hpp       | 4 ++--
 alsfvm/include/alsfvm/equation/burgers/Burgers.hpp            | 4 ++--
 alsfvm/include/alsfvm/equation/cubic/Cubic.hpp                | 4 ++--
 alsfvm/include/alsfvm/equation/linear/Linear.hpp              | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/alsfvm/include/alsfvm/equation/buckleyleverett/BuckleyLeverett.hpp b/alsfvm/include/alsfvm/equation/buckleyleverett/BuckleyLeverett.hpp
index f7c66c7..b982442 100644
--- a/alsfvm/include/alsfvm/equation/buckleyleverett/BuckleyLeverett.hpp
+++ b/alsfvm/include/alsfvm/equation/buckleyleverett/BuckleyLeverett.hpp
@@ -223,7 +223,7 @@ public:
     __device__ __host__ bool obeysConstraints(const ConservedVariables& u,
         const ExtraVariables& v) const {
 
-        return u.u < INFINITY && (u.u == u.u);
+        return u.u > -INFINITY && u.u < INFINITY;
     }
 
     __device__ __host__ AllVariables makeAllVariables(real u) const {
@@ -282,7 +282,7 @@ public:
         const ConservedVariables& conserved) const {
 
 #if USE_LOG_ENTROPY
-        return rvec1(2.0 * conserved.u / (conserved.u * (conserved.u - 2)));
+        return computeEntropyVariables(conserved);
 #else
         return rvec1(conserved.u);
 #endif
diff --git a/alsfvm/include/alsfvm/equation/burgers/Burgers.hpp b/alsfvm/include/alsfvm/equation/burgers/Burgers.hpp
index 66418ad..0f90ef2 100644
--- a/alsfvm/include/alsfvm/equation/burgers/Burgers.hpp
+++ b/alsfvm/include/alsfvm/equation/burgers/Burgers.hpp
@@ -220,7 +220,7 @@ public:
     __device__ __host__ bool obeysConstraints(const ConservedVariables& u,
         const ExtraVariables& v) const {
 
-        return u.u < INFINITY && (u.u == u.u);
+        return u.u > -INFINITY && u.u < INFINITY;
     }
 
     __device__ __host__ AllVariables makeAllVariables(real u) const {
@@ -279,7 +279,7 @@ public:
         const ConservedVariables& conserved) const {
 
 #if USE_LOG_ENTROPY
-        return rvec1(2.0 * conserved.u / (conserved.u * (conserved.u - 2)));
+        return computeEntropyVariables(conserved);
 #else
         return rvec1(conserved.u);
 #endif
diff --git a/alsfvm/include/alsfvm/equation/cubic/Cubic.hpp b/alsfvm/include/alsfvm/equation/cubic/Cubic.hpp
index d331e07..d8df49d 100644
--- a/alsfvm/include/alsfvm/equation/cubic/Cubic.hpp
+++ b/alsfvm/include/alsfvm/equation/cubic/Cubic.hpp
@@ -220,7 +220,7 @@ public:
     __device__ __host__ bool obeysConstraints(const ConservedVariables& u,
         const ExtraVariables& v) const {
 
-        return u.u < INFINITY && (u.u == u.u);
+        return u.u > -INFINITY && u.u < INFINITY;
     }
 
     __device__ __host__ AllVariables makeAllVariables(real u) const {
@@ -279,7 +279,7 @@ public:
         const ConservedVariables& conserved) const {
 
 #if USE_LOG_ENTROPY
-        return rvec1(2.0 * conserved.u / (conserved.u * (conserved.u - 2)));
+        return computeEntropyVariables(conserved);
 #else
         return rvec1(conserved.u);
 #endif
diff --git a/alsfvm/include/alsfvm/equation/linear/Linear.hpp b/alsfvm/include/alsfvm/equation/linear/Linear.hpp
index 5401a3b..a366814 100644
--- a/alsfvm/include/alsfvm/equation/linear/Linear.hpp
+++ b/alsfvm/include/alsfvm/equation/linear/Linear.hpp
@@ -220,7 +220,7 @@ public:
     __device__ __host__ bool obeysConstraints(const ConservedVariables& u,
         const ExtraVariables& v) const {
 
-        return u.u < INFINITY && (u.u == u.u);
+        return u.u > -INFINITY && u.u < INFINITY;
     }
 
     __device__ __host__ AllVariables makeAllVariables(real u) const {
@@ -279,7 +279,7 @@ public:
         const ConservedVariables& conserved) const {
 
 #if USE_LOG_ENTROPY
-        return rvec1(2.0 * conserved.u / (conserved.u * (conserved.u - 2)));
+        return computeEntropyVariables(conserved);
 #else
         return rvec1(conserved.u);
 #endif
-- 
2.43.0


From 279787533d61edf3c45d7b84127cc59ad8d864d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:33 +0000
Subject: [PATCH 05/26] fix: Euler eigenvectors in y and z were left in rotated
 coordinates

---
 alsfvm/include/alsfvm/equation/euler/Euler.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/alsfvm/include/alsfvm/equation/euler/Euler.hpp b/alsfvm/include/alsfvm/equation/euler/Euler.hpp
index d252918..a1bd321 100644
--- a/alsfvm/include/alsfvm/equation/euler/Euler.hpp
+++ b/alsfvm/include/alsfvm/equation/euler/Euler.hpp
@@ -460,6 +460,13 @@ __device__ __host__ matrix5 Euler<3>::computeEigenVectorMatrix(
         matrixWithEigenVectors(4, 3) = primitive.u.z;
         matrixWithEigenVectors(4, 4) = H + primitive.u.x * a;
 
+        // rotate the momentum back to the original coordinate system
+        for (size_t column = 0; direction > 0 && column < 5; ++column) {
+            const real rotatedX = matrixWithEigenVectors(1, column);
+            matrixWithEigenVectors(1, column) = -matrixWithEigenVectors(1 + direction, column);
+            matrixWithEigenVectors(1 + direction, column) = rotatedX;
+        }
+
         return matrixWithEigenVectors.normalized();
     }
 
@@ -544,6 +551,13 @@ __device__ __host__ matrix4 Euler<2>::computeEigenVectorMatrix(
         matrixWithEigenVectors(3, 2) = primitive.u.y;
         matrixWithEigenVectors(3, 3) = H + primitive.u.x * a;
 
+        // rotate the momentum back to the original coordinate system
+        for (size_t column = 0; direction == 1 && column < 4; ++column) {
+            const real rotatedX = matrixWithEigenVectors(1, column);
+            matrixWithEigenVectors(1, column) = -matrixWithEigenVectors(2, column);
+            matrixWithEigenVectors(2, column) = rotatedX;
+        }
+
         return matrixWithEigenVectors;
     }
 
-- 
2.43.0


From 42a56838037f4a82a7237a609499440a52dd4772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:41 +0000
Subject: [PATCH 06/26] fix: HLL and HLL3 returned a zero flux when the left
 wave speed was exactly zero

---
 alsfvm/include/alsfvm/numflux/euler/HLL.hpp  | 4 +---
 alsfvm/include/alsfvm/numflux/euler/HLL3.hpp | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/alsfvm/include/alsfvm/numflux/euler/HLL.hpp b/alsfvm/include/alsfvm/numflux/euler/HLL.hpp
index d196970..2d6f671 100644
--- a/alsfvm/include/alsfvm/numflux/euler/HLL.hpp
+++ b/alsfvm/include/alsfvm/numflux/euler/HLL.hpp
@@ -60,9 +60,7 @@ public:
 
         computeHLLSpeeds<direction>(eq, left, right, speedLeft, speedRight);
 
-        if (speedLeft == 0) {
-            F = equation::euler::ConservedVariables<nsd>(0, rvec(0), 0);
-        } else if (speedLeft > 0) {
+        if (speedLeft >= 0) {
             eq.template computePointFlux<direction>(left, F);
         } else if (speedRight < 0) {
             eq.template computePointFlux<direction>(right, F);
diff --git a/alsfvm/include/alsfvm/numflux/euler/HLL3.hpp b/alsfvm/include/alsfvm/numflux/euler/HLL3.hpp
index 9639dba..1fc0b3c 100644
--- a/alsfvm/include/alsfvm/numflux/euler/HLL3.hpp
+++ b/alsfvm/include/alsfvm/numflux/euler/HLL3.hpp
@@ -79,9 +79,7 @@ public:
                 left.m ) / aa;
         us[direction] = sm;
 
-        if (speedLeft == 0) {
-            F = equation::euler::ConservedVariables<nsd>(0, rvec(0), 0);
-        } else if (speedLeft > 0) {
+        if (speedLeft >= 0) {
             F = fluxLeft;
         } else if (speedRight < 0) {
             F = fluxRight;
-- 
2.43.0


From ba376e12a7cac727d282ca3427fa6fd07ca7d7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:41 +0000
Subject: [PATCH 07/26] fix: linear Roe flux cut negative states to zero

---
 alsfvm/include/alsfvm/numflux/linear/Roe.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alsfvm/include/alsfvm/numflux/linear/Roe.hpp b/alsfvm/include/alsfvm/numflux/linear/Roe.hpp
index d9891ff..720d69b 100644
--- a/alsfvm/include/alsfvm/numflux/linear/Roe.hpp
+++ b/alsfvm/include/alsfvm/numflux/linear/Roe.hpp
@@ -43,7 +43,7 @@ public:
 
 
         ConservedVariables fluxLeft;
-        eq.computePointFlux<direction>(AllVariables(fmax(left.u, real(0.0))), fluxLeft);
+        eq.computePointFlux<direction>(left, fluxLeft);
         F = fluxLeft;
 
         // This looks a bit weird, but it is OK. The basic principle is that AllVariables
-- 
2.43.0


From 7774e3d82d26030309611433378716833a79239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:41 +0000
Subject: [PATCH 08/26] fix: logarithmic mean of equal values was zero

---
 alsfvm/include/alsfvm/numflux/tecno_utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alsfvm/include/alsfvm/numflux/tecno_utils.hpp b/alsfvm/include/alsfvm/numflux/tecno_utils.hpp
index 33c3a5d..76106cd 100644
--- a/alsfvm/include/alsfvm/numflux/tecno_utils.hpp
+++ b/alsfvm/include/alsfvm/numflux/tecno_utils.hpp
@@ -28,7 +28,8 @@ inline __device__ __host__ real diff(real left, real right) {
 }
 inline __device__ __host__ real ln(real left, real right) {
     if (diff(left, right) == 0 || diff(log(left), log(right)) == 0) {
-        return 0;
+        // limit of the logarithmic mean
+        return bar(left, right);
     }
 
     return diff(left, right) / diff(log(left), log(right));
-- 
2.43.0


From 3564312ff0e4c4bf9ca4a712e69842558cfc362d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:35 +0000
Subject: [PATCH 09/26] fix: 3d entropy conservative Euler flux dropped the z
 momentum

---
 .../include/alsfvm/numflux/euler/Tecno1.hpp   | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/alsfvm/include/alsfvm/numflux/euler/Tecno1.hpp b/alsfvm/include/alsfvm/numflux/euler/Tecno1.hpp
index 19706ad..ce97c09 100644
--- a/alsfvm/include/alsfvm/numflux/euler/Tecno1.hpp
+++ b/alsfvm/include/alsfvm/numflux/euler/Tecno1.hpp
@@ -67,19 +67,31 @@ __device__ __host__ inline  real Tecno1<3>::computeFlux(
         F[1] = bar(leftZ[4], rightZ[4]) / bar(leftZ[0], rightZ[0]) + bar(leftZ[1],
                 rightZ[1]) / bar(leftZ[0], rightZ[0]) * F[0];
         F[2] = bar(leftZ[2], rightZ[2]) / bar(leftZ[0], rightZ[0]) * F[0];
-        F[3] = 0; // assume 2D
+        F[3] = bar(leftZ[3], rightZ[3]) / bar(leftZ[0], rightZ[0]) * F[0];
         F[4] = 1.0 / (2 * bar(leftZ[0],
                     rightZ[0])) * ((gamma + 1) / (gamma - 1) * divLn(leftZ[0], rightZ[0],
-                    (F[0])) + bar(leftZ[1], rightZ[1]) * F[1] + bar(leftZ[2], rightZ[2]) * F[2]);
+                    (F[0])) + bar(leftZ[1], rightZ[1]) * F[1] + bar(leftZ[2], rightZ[2]) * F[2]
+                + bar(leftZ[3], rightZ[3]) * F[3]);
     } else  if (direction == 1) {
         F[0] = bar(leftZ[2], rightZ[2]) * ln(leftZ[4], rightZ[4]);
         F[1] = bar(leftZ[1], rightZ[1]) / bar(leftZ[0], rightZ[0]) * F[0];
         F[2] = bar(leftZ[4], rightZ[4]) / bar(leftZ[0], rightZ[0]) + bar(leftZ[2],
                 rightZ[2]) / bar(leftZ[0], rightZ[0]) * F[0];
-        F[3] = 0; // assume 2D
+        F[3] = bar(leftZ[3], rightZ[3]) / bar(leftZ[0], rightZ[0]) * F[0];
         F[4] = 1.0 / (2 * bar(leftZ[0],
                     rightZ[0])) * ((gamma + 1) / (gamma - 1) * divLn(leftZ[0], rightZ[0],
-                    (F[0])) + bar(leftZ[1], rightZ[1]) * F[1] + bar(leftZ[2], rightZ[2]) * F[2]);
+                    (F[0])) + bar(leftZ[1], rightZ[1]) * F[1] + bar(leftZ[2], rightZ[2]) * F[2]
+                + bar(leftZ[3], rightZ[3]) * F[3]);
+    } else if (direction == 2) {
+        F[0] = bar(leftZ[3], rightZ[3]) * ln(leftZ[4], rightZ[4]);
+        F[1] = bar(leftZ[1], rightZ[1]) / bar(leftZ[0], rightZ[0]) * F[0];
+        F[2] = bar(leftZ[2], rightZ[2]) / bar(leftZ[0], rightZ[0]) * F[0];
+        F[3] = bar(leftZ[4], rightZ[4]) / bar(leftZ[0], rightZ[0]) + bar(leftZ[3],
+                rightZ[3]) / bar(leftZ[0], rightZ[0]) * F[0];
+        F[4] = 1.0 / (2 * bar(leftZ[0],
+                    rightZ[0])) * ((gamma + 1) / (gamma - 1) * divLn(leftZ[0], rightZ[0],
+                    (F[0])) + bar(leftZ[1], rightZ[1]) * F[1] + bar(leftZ[2], rightZ[2]) * F[2]
+                + bar(leftZ[3], rightZ[3]) * F[3]);
     }
 
     real leftSpeed = 0, rightSpeed = 0;
-- 
2.43.0


From fa65e4d85f8304e3de4ae3ad9fa79646936d4a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 10/26] fix: tecno diffusion left the entropy variables of the
 last face unset

---
 alsfvm/src/diffusion/TecnoDiffusionCPU.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alsfvm/src/diffusion/TecnoDiffusionCPU.cpp b/alsfvm/src/diffusion/TecnoDiffusionCPU.cpp
index ef83a80..b6cb4b1 100644
--- a/alsfvm/src/diffusion/TecnoDiffusionCPU.cpp
+++ b/alsfvm/src/diffusion/TecnoDiffusionCPU.cpp
@@ -61,7 +61,7 @@ void applyDiffusionCPU(Equation equation, volume::Volume& outputVolume,
         equation.setViewAt(entropyRightView, leftIndex,
             RT * equation.computeEntropyVariables(conservedValuesLeft));
 
-    }, make_direction_vector(direction), make_direction_vector(direction));
+    }, make_direction_vector(direction));
 
 
 
-- 
2.43.0


From 0076c02d69f5f5b0abbe29f07554585f469d450a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:41 +0000
Subject: [PATCH 11/26] fix: eno chose its stencil away from the current one;
 tecno eno stepped along x in every direction

---
 alsfvm/src/reconstruction/ENOCPU.cpp       | 11 ++++++-----
 alsfvm/src/reconstruction/tecno/ENOCPU.cpp | 21 +++++++++++----------
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/alsfvm/src/reconstruction/ENOCPU.cpp b/alsfvm/src/reconstruction/ENOCPU.cpp
index 55e1b51..46ead97 100644
--- a/alsfvm/src/reconstruction/ENOCPU.cpp
+++ b/alsfvm/src/reconstruction/ENOCPU.cpp
@@ -139,10 +139,11 @@ void ENOCPU<order>::performReconstruction(const volume::Volume& inputVariables,
                     // We do this by looping through the levels of the divided
                     // differences, and each time we go left, we increment the shift.
                     int shift = 0;
+                    const size_t stride = indexRight - indexLeft;
 
                     for (size_t level = 0; level < order - 1; level++) {
-                        real dividedDifferenceRight = dividedDifferencesPointers[level][indexRight];
-                        real dividedDifferenceLeft = dividedDifferencesPointers[level][indexLeft];
+                        real dividedDifferenceRight = dividedDifferencesPointers[level][indexRight - shift * stride];
+                        real dividedDifferenceLeft = dividedDifferencesPointers[level][indexLeft - shift * stride];
 
                         if (std::fabs(dividedDifferenceLeft) < std::fabs(dividedDifferenceRight)) {
                             // Now we choose the left stencil
@@ -221,11 +222,11 @@ void ENOCPU<order>::computeDividedDifferences(const memory::Memory<real>& input,
     assert(ny > int(2 * direction.y * level));
     assert(nz > int(2 * direction.z * level));
 
-    const int startX =        (direction.x == 0) * order + direction.x * level +
+    const int startX =        (direction.x == 0) * order + direction.x +
         start.x;
-    const int startY = (ny > 1) * (direction.y == 0) * order + direction.y * level +
+    const int startY = (ny > 1) * (direction.y == 0) * order + direction.y +
         start.y;
-    const int startZ = (nz > 1) * (direction.z == 0) * order + direction.z * level +
+    const int startZ = (nz > 1) * (direction.z == 0) * order + direction.z +
         start.z;
 
     const int endX = nx -        ((direction.x == 0) * (order - 1) + direction.x *
diff --git a/alsfvm/src/reconstruction/tecno/ENOCPU.cpp b/alsfvm/src/reconstruction/tecno/ENOCPU.cpp
index 0cf6b86..7960aa0 100644
--- a/alsfvm/src/reconstruction/tecno/ENOCPU.cpp
+++ b/alsfvm/src/reconstruction/tecno/ENOCPU.cpp
@@ -125,10 +125,11 @@ void ENOCPU<order>::performReconstruction(const volume::Volume& leftInput,
                     // We do this by looping through the levels of the divided
                     // differences, and each time we go left, we increment the shift.
                     int shift = 0;
+                    const size_t stride = indexRight - indexLeft;
 
                     for (size_t level = 0; level < order - 1; level++) {
-                        real dividedDifferenceRight = dividedDifferencesPointers[level][indexRight];
-                        real dividedDifferenceLeft = dividedDifferencesPointers[level][indexLeft];
+                        real dividedDifferenceRight = dividedDifferencesPointers[level][indexRight - shift * stride];
+                        real dividedDifferenceLeft = dividedDifferencesPointers[level][indexLeft - shift * stride];
 
                         if (std::fabs(dividedDifferenceLeft) < std::fabs(dividedDifferenceRight)) {
                             // Now we choose the left stencil
@@ -149,9 +150,9 @@ void ENOCPU<order>::performReconstruction(const volume::Volume& leftInput,
 
                     for (int l = 0; l < order - 1; ++l) {
                         wCur[order + l]   = wCur[order + l - 1] +
-                            dividedDifferencesPointers[0][indexRight + l];
+                            dividedDifferencesPointers[0][indexRight + l * stride];
                         wCur[order - l - 2] = wCur[order - l - 1] -
-                            dividedDifferencesPointers[0][indexRight - l - 1];
+                            dividedDifferencesPointers[0][indexRight - (l + 1) * stride];
                     }
 
                     // Calculate wlR, wrR
@@ -211,13 +212,13 @@ void ENOCPU<order>::computeDividedDifferences(const memory::Memory<real>&
     assert(ny > 2 * direction.y * level);
     assert(nz > 2 * direction.z * level);
 
-    const size_t startX = direction.x * level;
-    const size_t startY = direction.y * level;
-    const size_t startZ = direction.z * level;
+    const size_t startX = direction.x;
+    const size_t startY = direction.y;
+    const size_t startZ = direction.z;
 
-    const size_t endX = nx - direction.x * level;
-    const size_t endY = ny - direction.y * level;
-    const size_t endZ = nz - direction.z * level;
+    const size_t endX = nx - direction.x * (level - 1);
+    const size_t endY = ny - direction.y * (level - 1);
+    const size_t endZ = nz - direction.z * (level - 1);
 
     auto leftView = leftInput.getView();
     auto rightView = rightInput.getView();
-- 
2.43.0


From 588ff9874aac62a09d828c9459ef9be60a3c9911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:25 +0000
Subject: [PATCH 12/26] fix: time averages weight each state by the part of its
 step inside the averaging window

---
 alsfvm/src/functional/TimeIntegrationFunctional.cpp |  8 ++++++--
 alsfvm/src/io/TimeIntegratedWriter.cpp              | 13 +++++++------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/alsfvm/src/functional/TimeIntegrationFunctional.cpp b/alsfvm/src/functional/TimeIntegrationFunctional.cpp
index 1fde1c9..e04bbd0 100644
--- a/alsfvm/src/functional/TimeIntegrationFunctional.cpp
+++ b/alsfvm/src/functional/TimeIntegrationFunctional.cpp
@@ -14,6 +14,7 @@
  */
 
 #include "alsfvm/functional/TimeIntegrationFunctional.hpp"
+#include <algorithm>
 #include <iostream>
 
 namespace alsfvm {
@@ -38,9 +39,12 @@ void TimeIntegrationFunctional::write(const volume::Volume& conservedVariables,
     }
 
     const double currentTime = timestepInformation.getCurrentTime();
-    const double dt = currentTime - lastTime;
 
-    if (std::abs(currentTime - time) <= timeRadius) {
+    // The part of the last step that lies within [time - timeRadius, time + timeRadius]
+    const double dt = std::min(currentTime, time + timeRadius)
+        - std::max(lastTime, time - timeRadius);
+
+    if (dt > 0) {
         (*functional)(*conservedVolume,  conservedVariables,
             dt, grid);
     }
diff --git a/alsfvm/src/io/TimeIntegratedWriter.cpp b/alsfvm/src/io/TimeIntegratedWriter.cpp
index fab5644..aa1c497 100644
--- a/alsfvm/src/io/TimeIntegratedWriter.cpp
+++ b/alsfvm/src/io/TimeIntegratedWriter.cpp
@@ -14,6 +14,7 @@
  */
 
 #include "alsfvm/io/TimeIntegratedWriter.hpp"
+#include <algorithm>
 
 namespace alsfvm {
 namespace io {
@@ -31,7 +32,12 @@ void TimeIntegratedWriter::write(const volume::Volume& conservedVariables,
 
     const real currentTime = timestepInformation.getCurrentTime();
 
-    if (std::abs(currentTime - time) < timeRadius) {
+    // The state is taken as constant over the step that led to it, restricted to the
+    // part of the step that lies within [time - timeRadius, time + timeRadius]
+    const real dt = std::min(currentTime, time + timeRadius)
+        - std::max(lastTime, time - timeRadius);
+
+    if (dt > 0) {
 
         if (!integratedConservedVariables) {
             integratedConservedVariables = conservedVariables.makeInstance();
@@ -39,11 +45,6 @@ void TimeIntegratedWriter::write(const volume::Volume& conservedVariables,
 
         }
 
-        const real dt = currentTime - lastTime;
-
-
-
-
         integratedConservedVariables->addLinearCombination(1,
             dt, conservedVariables,
             0, conservedVariables,
-- 
2.43.0


From 5c87acb0f8a3a930f968b9fc4667347ce651153f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:31 +0000
Subject: [PATCH 13/26] fix: directional variation statistics add up all
 samples instead of keeping the last

---
 alsuq/src/stats/BoundedVariationDirection.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/alsuq/src/stats/BoundedVariationDirection.cpp b/alsuq/src/stats/BoundedVariationDirection.cpp
index 33b1456..41b0d91 100644
--- a/alsuq/src/stats/BoundedVariationDirection.cpp
+++ b/alsuq/src/stats/BoundedVariationDirection.cpp
@@ -58,18 +58,18 @@ void BoundedVariationDirection::computeStatistics(const alsfvm::volume::Volume&
 
     for (size_t var = 0; var < conservedVariables.getNumberOfVariables(); ++var) {
         bvX.getVolumes().getConservedVolume()->getScalarMemoryArea(var)->getPointer()[0]
-            = conservedVariables.getScalarMemoryArea(var)->getTotalVariation(0, p, start,
+            += conservedVariables.getScalarMemoryArea(var)->getTotalVariation(0, p, start,
                     end);
 
         if (conservedVariables.getDimensions() > 1) {
             bvY.getVolumes().getConservedVolume()->getScalarMemoryArea(
-                var)->getPointer()[0] = conservedVariables.getScalarMemoryArea(
+                var)->getPointer()[0] += conservedVariables.getScalarMemoryArea(
                         var)->getTotalVariation(1, p, start, end);
         }
 
         if (conservedVariables.getDimensions() > 2) {
             bvZ.getVolumes().getConservedVolume()->getScalarMemoryArea(
-                var)->getPointer()[0] = conservedVariables.getScalarMemoryArea(
+                var)->getPointer()[0] += conservedVariables.getScalarMemoryArea(
                         var)->getTotalVariation(2, p, start, end);
         }
 
-- 
2.43.0


From 332190b640e7f0c14694ccc6103cd498e37348b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:31 +0000
Subject: [PATCH 14/26] fix: time integrated functional statistics weight each
 state by the part of its step inside the window

---
 .../TimeIntegratedFunctionalStatistics.cpp    | 24 +++++++++----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/alsuq/src/stats/TimeIntegratedFunctionalStatistics.cpp b/alsuq/src/stats/TimeIntegratedFunctionalStatistics.cpp
index cf2f41f..21a7889 100644
--- a/alsuq/src/stats/TimeIntegratedFunctionalStatistics.cpp
+++ b/alsuq/src/stats/TimeIntegratedFunctionalStatistics.cpp
@@ -14,6 +14,7 @@
  */
 
 #include "alsuq/stats/TimeIntegratedFunctionalStatistics.hpp"
+#include <algorithm>
 #include "alsfvm/functional/FunctionalFactory.hpp"
 #include "alsuq/stats/stats_util.hpp"
 
@@ -61,20 +62,17 @@ void TimeIntegratedFunctionalStatistics::computeStatistics(
             conservedVariables,
             gridFunctional.x, gridFunctional.y, gridFunctional.z, platform);
 
-    if (std::abs(currentTime - time) <= timeRadius) {
-        // Now we should write
-        double dt = currentTime - lastTime;
-
-        // If dt <= 0, we get no contributioni (usually it is because we
-        // are on a new sample)
-        if (dt > 0) {
-            functional->operator ()(*functionalTime.getVolumes().getConservedVolume(),
-                conservedVariables,
-                dt,
-                grid
-            );
-        }
+    // The part of the last step that lies within [time - timeRadius, time + timeRadius].
+    // If this is not positive, we get no contribution (this includes the first state of a new sample)
+    const double dt = std::min(currentTime, time + timeRadius)
+        - std::max(lastTime, time - timeRadius);
 
+    if (dt > 0) {
+        functional->operator ()(*functionalTime.getVolumes().getConservedVolume(),
+            conservedVariables,
+            dt,
+            grid
+        );
     }
 
     lastTime = currentTime;
-- 
2.43.0


From 3949b3b1e5328073e49b53dcdf5e7a7ff0d0bda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:03 +0000
Subject: [PATCH 15/26] fix: structure functional ignored its weight and left
 out the cells next to the upper boundary

---
 alsfvm/include/alsfvm/functional/StructureBase.hpp |  2 +-
 alsfvm/src/functional/StructureBase.cpp            | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/alsfvm/include/alsfvm/functional/StructureBase.hpp b/alsfvm/include/alsfvm/functional/StructureBase.hpp
index 9166324..8a03948 100644
--- a/alsfvm/include/alsfvm/functional/StructureBase.hpp
+++ b/alsfvm/include/alsfvm/functional/StructureBase.hpp
@@ -61,7 +61,7 @@ public:
 private:
 
     void computeStructure(alsfvm::volume::Volume& outputVolume,
-        const alsfvm::volume::Volume& input);
+        const alsfvm::volume::Volume& input, real weight);
 
     const size_t direction;
     const real p;
diff --git a/alsfvm/src/functional/StructureBase.cpp b/alsfvm/src/functional/StructureBase.cpp
index d66624a..acc4026 100644
--- a/alsfvm/src/functional/StructureBase.cpp
+++ b/alsfvm/src/functional/StructureBase.cpp
@@ -34,7 +34,7 @@ void StructureBase::operator()(volume::Volume& conservedVolumeOut,
     const real weight,
     const grid::Grid& grid) {
     computeStructure(conservedVolumeOut,
-        conservedVolumeIn);
+        conservedVolumeIn, weight);
 
 }
 
@@ -44,7 +44,7 @@ ivec3 StructureBase::getFunctionalSize(const grid::Grid& grid) const {
 }
 
 void StructureBase::computeStructure(volume::Volume& output,
-    const volume::Volume& input) {
+    const volume::Volume& input, real weight) {
     for (size_t var = 0; var < input.getNumberOfVariables(); ++var) {
         auto inputView = input[var]->getView();
         auto outputView = output[var]->getView();
@@ -53,9 +53,9 @@ void StructureBase::computeStructure(volume::Volume& output,
         int ngy = input.getNumberOfYGhostCells();
         int ngz = input.getNumberOfZGhostCells();
 
-        int nx = int(input.getNumberOfXCells()) - 2 * ngx;
-        int ny = int(input.getNumberOfYCells()) - 2 * ngy;
-        int nz = int(input.getNumberOfZCells()) - 2 * ngz;
+        int nx = int(input.getNumberOfXCells());
+        int ny = int(input.getNumberOfYCells());
+        int nz = int(input.getNumberOfZCells());
 
         for (int k = 0; k < nz; ++k) {
             for (int j = 0; j < ny; ++j) {
@@ -76,7 +76,7 @@ void StructureBase::computeStructure(volume::Volume& output,
 
 
 
-                        outputView.at(h, 0, 0) += std::pow(std::abs(u_ijk - u_ijk_h),
+                        outputView.at(h, 0, 0) += weight * std::pow(std::abs(u_ijk - u_ijk_h),
                                 p) / (nx * ny * nz);
                     }
                 }
-- 
2.43.0


From 9f4bb876cd92245aeb79503fe48a0f8ae8eef9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:03 +0000
Subject: [PATCH 16/26] fix: cube structure functional ignored its weight and
 cleared what was accumulated before

---
 .../alsfvm/functional/structure_common.hpp    | 22 +++++++++----------
 alsfvm/src/functional/StructureCube.cpp       |  6 ++---
 2 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/alsfvm/include/alsfvm/functional/structure_common.hpp b/alsfvm/include/alsfvm/functional/structure_common.hpp
index b818f83..b30a01e 100644
--- a/alsfvm/include/alsfvm/functional/structure_common.hpp
+++ b/alsfvm/include/alsfvm/functional/structure_common.hpp
@@ -108,10 +108,10 @@ __device__ __host__ void computeStructureCube(
     output,
     const alsfvm::memory::View<const real>& input,
     int i, int j, int k, int h, int nx, int ny, int nz,
-    int ngx, int ngy, int ngz, int dimensions, real p) {
+    int ngx, int ngy, int ngz, int dimensions, real p, real weight = 1) {
 
     forEachPointInComputeStructureCube<BoundaryType>([&](double u, double u_h) {
-        output.at(h) += PowerClass::power(fabs(u - u_h), p) / (nx * ny * nz);
+        output.at(h) += weight * PowerClass::power(fabs(u - u_h), p) / (nx * ny * nz);
     }, input, i, j, k, h, nx, ny, nz, ngx, ngy, ngz, dimensions);
 }
 
@@ -120,7 +120,7 @@ __device__ __host__ void computeStructureCube(
 
 template<alsfvm::boundary::Type BoundaryType, class PowerClass>
 inline void computeStructureCubeCPU(alsfvm::volume::Volume& output,
-    const alsfvm::volume::Volume& input, int numberOfH, double p) {
+    const alsfvm::volume::Volume& input, int numberOfH, double p, real weight = 1) {
     for (size_t var = 0; var < input.getNumberOfVariables(); ++var) {
         auto inputView = input[var]->getView();
         auto outputView = output[var]->getView();
@@ -140,7 +140,7 @@ inline void computeStructureCubeCPU(alsfvm::volume::Volume& output,
 
                         computeStructureCube<BoundaryType, PowerClass>(outputView, inputView, i, j, k,
                             h, nx, ny, nz,
-                            ngx, ngy, ngz, input.getDimensions(), p);
+                            ngx, ngy, ngz, input.getDimensions(), p, weight);
 
                     }
                 }
@@ -155,27 +155,27 @@ inline void computeStructureCubeCPU(alsfvm::volume::Volume& output,
 
 template<alsfvm::boundary::Type BoundaryType>
 inline void dispatchComputeStructureCubeCPU(alsfvm::volume::Volume& output,
-    const alsfvm::volume::Volume& input, int numberOfH, double p) {
+    const alsfvm::volume::Volume& input, int numberOfH, double p, real weight = 1) {
     if (p == 1.0) {
         computeStructureCubeCPU <BoundaryType, alsutils::math::FastPower<1>>
-            (output, input, numberOfH, p);
+            (output, input, numberOfH, p, weight);
     } else if (p == 2.0) {
         computeStructureCubeCPU <BoundaryType, alsutils::math::FastPower<2>>
-            (output, input, numberOfH, p);
+            (output, input, numberOfH, p, weight);
     }
 
     else if (p == 3.0) {
         computeStructureCubeCPU <BoundaryType, alsutils::math::FastPower<3>>
-            (output, input, numberOfH, p);
+            (output, input, numberOfH, p, weight);
     } else if (p == 4.0) {
         computeStructureCubeCPU <BoundaryType, alsutils::math::FastPower<4>>
-            (output, input, numberOfH, p);
+            (output, input, numberOfH, p, weight);
     } else if (p == 5.0) {
         computeStructureCubeCPU <BoundaryType, alsutils::math::FastPower<5>>
-            (output, input, numberOfH, p);
+            (output, input, numberOfH, p, weight);
     } else {
         computeStructureCubeCPU <BoundaryType, alsutils::math::PowPower>
-        (output, input, numberOfH, p);
+        (output, input, numberOfH, p, weight);
     }
 }
 
diff --git a/alsfvm/src/functional/StructureCube.cpp b/alsfvm/src/functional/StructureCube.cpp
index d12ca32..e2a1a36 100644
--- a/alsfvm/src/functional/StructureCube.cpp
+++ b/alsfvm/src/functional/StructureCube.cpp
@@ -33,8 +33,6 @@ void StructureCube::operator()(volume::Volume& conservedVolumeOut,
     const real weight,
     const grid::Grid& grid) {
 
-    conservedVolumeOut.makeZero();
-
     const auto boundaryConditions = grid.getBoundaryCondition(0);
 
     for (auto boundaryConditionOnSide : grid.getActiveBoundaryConditions()) {
@@ -48,12 +46,12 @@ void StructureCube::operator()(volume::Volume& conservedVolumeOut,
     if (boundaryConditions == alsfvm::boundary::PERIODIC) {
         dispatchComputeStructureCubeCPU<alsfvm::boundary::PERIODIC>(conservedVolumeOut,
             conservedVolumeIn,
-            numberOfH, p);
+            numberOfH, p, weight);
 
     } else if (boundaryConditions == alsfvm::boundary::NEUMANN) {
         dispatchComputeStructureCubeCPU<alsfvm::boundary::NEUMANN>(conservedVolumeOut,
             conservedVolumeIn,
-            numberOfH, p);
+            numberOfH, p, weight);
 
     } else {
         THROW("Unsupported boundary condition for StructureCube structure functions. "
-- 
2.43.0


From 719e556615b80f39e17bff9dd2887be28892f769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:03 +0000
Subject: [PATCH 17/26] fix: structure statistics looked up the boundary
 condition of the wrong side

---
 alsuq/src/stats/StructureBasic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alsuq/src/stats/StructureBasic.cpp b/alsuq/src/stats/StructureBasic.cpp
index 4ac4a46..907ac75 100644
--- a/alsuq/src/stats/StructureBasic.cpp
+++ b/alsuq/src/stats/StructureBasic.cpp
@@ -45,11 +45,11 @@ void StructureBasic::computeStatistics(const alsfvm::volume::Volume&
             conservedVariables,
             numberOfH, 1, 1);
 
-    if (grid.getBoundaryCondition(direction) == alsfvm::boundary::PERIODIC) {
+    if (grid.getBoundaryCondition(2 * direction) == alsfvm::boundary::PERIODIC) {
         computeStructure<alsfvm::boundary::PERIODIC>
         (*structure.getVolumes().getConservedVolume(),
             conservedVariables);
-    } else if (grid.getBoundaryCondition(direction) == alsfvm::boundary::NEUMANN) {
+    } else if (grid.getBoundaryCondition(2 * direction) == alsfvm::boundary::NEUMANN) {
         computeStructure<alsfvm::boundary::NEUMANN>
         (*structure.getVolumes().getConservedVolume(),
             conservedVariables);
-- 
2.43.0


From ff83f18b49600789604757c4b45cfdedd0d99db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:03 +0000
Subject: [PATCH 18/26] fix: two point structure statistics left out cells and
 ignored the second direction

---
 alsuq/src/stats/StructureTwoPoints.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/alsuq/src/stats/StructureTwoPoints.cpp b/alsuq/src/stats/StructureTwoPoints.cpp
index 2176920..bfbca1c 100644
--- a/alsuq/src/stats/StructureTwoPoints.cpp
+++ b/alsuq/src/stats/StructureTwoPoints.cpp
@@ -65,9 +65,9 @@ void StructureTwoPoints::computeStructure(alsfvm::volume::Volume& output,
         int ngy = input.getNumberOfYGhostCells();
         int ngz = input.getNumberOfZGhostCells();
 
-        int nx = int(input.getNumberOfXCells()) - 2 * ngx;
-        int ny = int(input.getNumberOfYCells()) - 2 * ngy;
-        int nz = int(input.getNumberOfZCells()) - 2 * ngz;
+        int nx = int(input.getNumberOfXCells());
+        int ny = int(input.getNumberOfYCells());
+        int nz = int(input.getNumberOfZCells());
 
         for (int k = 0; k < nz; ++k) {
             for (int j = 0; j < ny; ++j) {
@@ -82,10 +82,10 @@ void StructureTwoPoints::computeStructure(alsfvm::volume::Volume& output,
                                 std::min(k + h1 * directionVector1.z, nz - 1) + ngz);
 
                         for (int h2 = 0; h2 < int(numberOfH); ++h2) {
-                            auto u_ijk_h2 = inputView.at(std::min(i + h2 * directionVector1.x,
+                            auto u_ijk_h2 = inputView.at(std::min(i + h2 * directionVector2.x,
                                         nx - 1) % nx + ngx,
-                                    std::min(j + h2 * directionVector1.y, ny - 1) % ny + ngy,
-                                    std::min(k + h2 * directionVector1.z, nz - 1) % nz + ngz);
+                                    std::min(j + h2 * directionVector2.y, ny - 1) % ny + ngy,
+                                    std::min(k + h2 * directionVector2.z, nz - 1) % nz + ngz);
 
 
                             outputView.at(h1, h2, 0) += (u_ijk_h1 - u_ijk) * (u_ijk_h1 - u_ijk) *
-- 
2.43.0


From 31414c7df431d475342712e6955b637f0304bcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:03 +0000
Subject: [PATCH 19/26] fix: recursion of the Legendre polynomials

---
 alsutils/include/alsutils/math/legendre.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alsutils/include/alsutils/math/legendre.hpp b/alsutils/include/alsutils/math/legendre.hpp
index f80d855..84411a2 100644
--- a/alsutils/include/alsutils/math/legendre.hpp
+++ b/alsutils/include/alsutils/math/legendre.hpp
@@ -38,8 +38,8 @@ namespace math {
 template<int n>
 __device__ __host__
 real legendre(real x) {
-  return real(1.0 / n) * (x * legendre < n - 1 > (x) - (n - 1) * legendre < n - 2 >
-            (x));
+  return ((2 * n - 1) * x * legendre < n - 1 > (x) - (n - 1) * legendre < n - 2 >
+            (x)) / n;
 
 }
 
-- 
2.43.0


From 7877e5346c330723345cea4ea81e65430e57b58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:03 +0000
Subject: [PATCH 20/26] fix: addition of four-component vectors did not compile

---
 alsutils/include/alsutils/vec4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alsutils/include/alsutils/vec4.hpp b/alsutils/include/alsutils/vec4.hpp
index 8f644f9..8fe1bc2 100644
--- a/alsutils/include/alsutils/vec4.hpp
+++ b/alsutils/include/alsutils/vec4.hpp
@@ -172,7 +172,7 @@ __device__ __host__ inline vec4<T> operator/(const vec4<T>& a, T scalar) {
 template<class T, class S>
 __device__ __host__ inline vec4<T> operator+(const vec4<T>& a,
     const vec4<S>& b) {
-    return vec4<T>(a.x + b.x, a.y + b.y, a.z + b.z.a.v + b.v);
+    return vec4<T>(a.x + b.x, a.y + b.y, a.z + b.z, a.v + b.v);
 }
 
 
-- 
2.43.0


From b5aada0b2c668f03dae6092758fee7b7b69421e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:03 +0000
Subject: [PATCH 21/26] fix: norm of a one-component vector was truncated to an
 integer

---
 alsutils/include/alsutils/vec1.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alsutils/include/alsutils/vec1.hpp b/alsutils/include/alsutils/vec1.hpp
index 919174f..bc4122e 100644
--- a/alsutils/include/alsutils/vec1.hpp
+++ b/alsutils/include/alsutils/vec1.hpp
@@ -101,7 +101,7 @@ struct vec1 {
     }
 
     __device__ __host__ T norm() const {
-        return abs(x);
+        return x < 0 ? -x : x;
     }
 
     template<class S>
-- 
2.43.0


From a11ecfd964943df07fd5650b6c8b08b1ab02cf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:09 +0000
Subject: [PATCH 22/26] fix: Legendre functionals took the length of a cell for
 a number of cells and refused two dimensional grids with cells of unit height

---
 alsfvm/src/functional/Legendre.cpp          | 6 +++---
 alsfvm/src/functional/LegendrePointWise.cpp | 8 +++-----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/alsfvm/src/functional/Legendre.cpp b/alsfvm/src/functional/Legendre.cpp
index 8eac2d6..7013f40 100644
--- a/alsfvm/src/functional/Legendre.cpp
+++ b/alsfvm/src/functional/Legendre.cpp
@@ -50,9 +50,9 @@ void Legendre::operator()(volume::Volume& conservedVolumeOut,
 
     const auto lengths = grid.getCellLengths();
 
-    if (lengths.z > 1 || lengths.y == 1) {
-        THROW("For now, Legendre polynomials only support 2d, givne dimensions " <<
-            lengths);
+    if (grid.getActiveDimension() != 2) {
+        THROW("For now, Legendre polynomials only support 2d, given dimensions " <<
+            grid.getDimensions());
     }
 
     const real dxdydz = lengths.x * lengths.y * lengths.z;
diff --git a/alsfvm/src/functional/LegendrePointWise.cpp b/alsfvm/src/functional/LegendrePointWise.cpp
index 9e4a650..84ddf05 100644
--- a/alsfvm/src/functional/LegendrePointWise.cpp
+++ b/alsfvm/src/functional/LegendrePointWise.cpp
@@ -46,11 +46,9 @@ void LegendrePointWise::operator()(volume::Volume& conservedVolumeOut,
 
     }
 
-    const auto lengths = grid.getCellLengths();
-
-    if (lengths.z > 1 || lengths.y == 1) {
-        THROW("For now, Legendre polynomials only support 2d, givne dimensions " <<
-            lengths);
+    if (grid.getActiveDimension() != 2) {
+        THROW("For now, Legendre polynomials only support 2d, given dimensions " <<
+            grid.getDimensions());
     }
 
 
-- 
2.43.0


From 9ad8afa575d3a6f938ddb5ffde88b6f623a7bbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:31 +0000
Subject: [PATCH 23/26] fix: matrix::normalized took the square root in single
 precision

---
 alsutils/include/alsutils/mat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alsutils/include/alsutils/mat.hpp b/alsutils/include/alsutils/mat.hpp
index bfbff0c..409f61d 100644
--- a/alsutils/include/alsutils/mat.hpp
+++ b/alsutils/include/alsutils/mat.hpp
@@ -111,7 +111,7 @@ public:
                 norm += (*this)(row, column) * (*this)(row, column);
             }
 
-            norm = sqrtf(norm);
+            norm = sqrt(norm);
 
             for (size_t row = 0; row < NumberOfRows; ++row) {
                 newMatrix(row, column) = (*this)(row, column) / norm;
-- 
2.43.0


From a1e86d3530aaf1949c67eba2a8fc74c0db57dbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:12 +0000
Subject: [PATCH 24/26] fix: the Euler constraint check accepted an infinite
 pressure

---
 alsfvm/include/alsfvm/equation/euler/Euler.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/alsfvm/include/alsfvm/equation/euler/Euler.hpp b/alsfvm/include/alsfvm/equation/euler/Euler.hpp
index a1bd321..9a9f74a 100644
--- a/alsfvm/include/alsfvm/equation/euler/Euler.hpp
+++ b/alsfvm/include/alsfvm/equation/euler/Euler.hpp
@@ -270,9 +270,11 @@ public:
         const ExtraVariables& v) const {
 #ifdef __CUDA_ARCH__
 
-        return u.rho < INFINITY && (u.rho == u.rho) && (u.rho > 0) && (v.p > 0);
+        return u.rho < INFINITY && v.p < INFINITY && (u.rho == u.rho) && (u.rho > 0)
+            && (v.p > 0);
 #else
-        return std::isfinite(u.rho) && (u.rho == u.rho) && (u.rho > 0) && (v.p > 0);
+        return std::isfinite(u.rho) && std::isfinite(v.p) && (u.rho == u.rho)
+            && (u.rho > 0) && (v.p > 0);
 #endif
     }
 
-- 
2.43.0


From 29b4c5a9a8f1c766bb864a8c451d40ec8d565819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:34 +0000
Subject: [PATCH 25/26] fix: tecno diffusion kept its work volumes when the
 size changed in y or z or the ghost width changed

TecnoDiffusionCPU reallocated its work volumes only when the number of cells in
x changed, so that applying one operator to a grid of another size in y or z
wrote beyond the end of them.
---
 alsfvm/src/diffusion/TecnoDiffusionCPU.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/alsfvm/src/diffusion/TecnoDiffusionCPU.cpp b/alsfvm/src/diffusion/TecnoDiffusionCPU.cpp
index b6cb4b1..2995581 100644
--- a/alsfvm/src/diffusion/TecnoDiffusionCPU.cpp
+++ b/alsfvm/src/diffusion/TecnoDiffusionCPU.cpp
@@ -119,7 +119,10 @@ void TecnoDiffusionCPU<Equation, DiffusionMatrix>::applyDiffusion(
 
 
 
-    if (!left || left->getNumberOfXCells() != conservedVolume.getNumberOfXCells()) {
+    if (!left || left->getNumberOfXCells() != conservedVolume.getNumberOfXCells()
+        || left->getNumberOfYCells() != conservedVolume.getNumberOfYCells()
+        || left->getNumberOfZCells() != conservedVolume.getNumberOfZCells()
+        || left->getNumberOfXGhostCells() != conservedVolume.getNumberOfXGhostCells()) {
         size_t nx = conservedVolume.getNumberOfXCells();
         size_t ny = conservedVolume.getNumberOfYCells();
         size_t nz = conservedVolume.getNumberOfZCells();
-- 
2.43.0


From 287405f5e34f58fde6c73d75660fdb0cf300a6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:34 +0000
Subject: [PATCH 26/26] fix: the compile time selection of the energy of the
 one dimensional Euler equations returned the density

Views<..., 1>::get<2>() compared with 3 and fell through to the density.
---
 alsfvm/include/alsfvm/equation/euler/Views.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alsfvm/include/alsfvm/equation/euler/Views.hpp b/alsfvm/include/alsfvm/equation/euler/Views.hpp
index 922aeea..bd63151 100644
--- a/alsfvm/include/alsfvm/equation/euler/Views.hpp
+++ b/alsfvm/include/alsfvm/equation/euler/Views.hpp
@@ -230,7 +230,7 @@ public:
             return rho;
         } else if (variableIndex == 1) {
             return mx;
-        } else if (variableIndex == 3) {
+        } else if (variableIndex == 2) {
             return E;
         }
 
-- 
2.43.0

