From 163ce1851a14375dfb749fa6ec4a0a5452c1fb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:09 +0000
Subject: [PATCH 01/26] fix: Gaussian-spline entropy must scale with the
 maximum occupancy

---
 src/smearing.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smearing.hpp b/src/smearing.hpp
index 40ed9f3..2d264c2 100644
--- a/src/smearing.hpp
+++ b/src/smearing.hpp
@@ -193,10 +193,10 @@ struct gaussian_spline : summed<gaussian_spline>
     double sqrte = std::exp(0.5);
 
     if (x > 0) {
-      return 0.25 *
+      return mo * 0.25 *
              (2 * std::exp(-x * (sqrt2 + x)) * x + sqrte * sqrtpi * std::erfc(1 / sqrt2 + x));
     } else {
-      return 0.25 *
+      return mo * 0.25 *
              (-2 * std::exp(x * (sqrt2 - x)) * x + sqrte * sqrtpi * std::erfc(1 / sqrt2 - x));
     }
   }
-- 
2.43.0


From c8dcbc96322de3514a963401f79135dd9f8b323f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:09 +0000
Subject: [PATCH 02/26] fix: derivative of delta for Gaussian-spline and
 Methfessel-Paxton smearing misses a factor x

---
 src/smearing.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smearing.hpp b/src/smearing.hpp
index 2d264c2..bb27099 100644
--- a/src/smearing.hpp
+++ b/src/smearing.hpp
@@ -208,7 +208,7 @@ struct gaussian_spline : summed<gaussian_spline>
     if (x > 8 || x < -8) return 0;
 
     if (x <= 0) {
-      return -2 * mo * std::exp((sqrt2 - x) * x) * (sqrt2 - x);
+      return -2 * mo * std::exp((sqrt2 - x) * x) * x * (sqrt2 - x);
     } else {
       return -2 * mo * std::exp(-x * (sqrt2 + x)) * x * (sqrt2 + x);
     }
@@ -280,7 +280,7 @@ struct methfessel_paxton_smearing : summed<methfessel_paxton_smearing>, non_mono
   KOKKOS_INLINE_FUNCTION static double dxdelta(double x, double mo)
   {
     double sqrtpi = std::sqrt(constants::pi);
-    return mo * std::exp(-x * x) * (2 * x * x - 5) / sqrtpi;
+    return mo * std::exp(-x * x) * x * (2 * x * x - 5) / sqrtpi;
   }
 
   KOKKOS_INLINE_FUNCTION static double entropy(double x, double mo)
-- 
2.43.0


From c4dfa23406f25e42f1199779c74362a9fcd1173b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:09 +0000
Subject: [PATCH 03/26] fix: gradient of eta evaluates delta at (mu-e)/kT, cold
 smearing is not symmetric

---
 src/pseudo_hamiltonian/grad_eta.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pseudo_hamiltonian/grad_eta.hpp b/src/pseudo_hamiltonian/grad_eta.hpp
index 3e07e62..99bde17 100644
--- a/src/pseudo_hamiltonian/grad_eta.hpp
+++ b/src/pseudo_hamiltonian/grad_eta.hpp
@@ -39,7 +39,7 @@ struct GradEtaHelper
           "dFdmu",
           Kokkos::RangePolicy<Kokkos::Serial>(0, nbands),
           KOKKOS_LAMBDA(int i, Kokkos::complex<double>& result) {
-            double delta = smearing<smearing_t>::delta((en_loc(i) - mu) / kT, mo);
+            double delta = smearing<smearing_t>::delta((mu - en_loc(i)) / kT, mo);
             result += (hii(i) - en_loc(i)) * (delta);
           },
           v);
@@ -72,7 +72,7 @@ struct GradEtaHelper
       int nbands = en[key].size();
       auto en_loc = en[key];
       for (int i = 0; i < nbands; ++i) {
-        double delta = smearing<smearing_t>::delta((en_loc(i) - mu) / kT, mo);
+        double delta = smearing<smearing_t>::delta((mu - en_loc(i)) / kT, mo);
         v += delta * w_k;
       }
     }
@@ -151,7 +151,7 @@ public:
     double kT_loc = kT;
     Kokkos::parallel_for(
         "gEta (1)", Kokkos::RangePolicy<exec_space>(0, nbands), KOKKOS_LAMBDA(int i) {
-          double delta = smearing<smearing_t>::delta((ek(i) - mu) / kT_loc, mo);
+          double delta = smearing<smearing_t>::delta((mu - ek(i)) / kT_loc, mo);
           mgETA(i, i) = -1 / kT_loc * (mHij(i, i) - wk * ek(i)) * (delta);
         });
 
@@ -161,7 +161,7 @@ public:
       Kokkos::parallel_for(
           "gEta (2)", Kokkos::RangePolicy<exec_space>(0, nbands), KOKKOS_LAMBDA(int i) {
             // sumfn dmuFn
-            double delta = smearing<smearing_t>::delta((ek(i) - mu) / kT_loc, mo);
+            double delta = smearing<smearing_t>::delta((mu - ek(i)) / kT_loc, mo);
             mgETA(i, i) += wk * (delta) / dmu_deta * (dFdmu / kT_loc);
           });
     }
-- 
2.43.0


From fc299bb3fadcc18c2edc53bd0e4aa2051d2a6251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:09 +0000
Subject: [PATCH 04/26] fix: outer product used the dimensions of the inner
 product

---
 src/la/lapack_cpu.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/la/lapack_cpu.hpp b/src/la/lapack_cpu.hpp
index cb0e2e6..0609c6d 100644
--- a/src/la/lapack_cpu.hpp
+++ b/src/la/lapack_cpu.hpp
@@ -155,7 +155,7 @@ inner(KokkosDVector<T0**, LAYOUT0, KOKKOS0...>& C,
   }
 }
 
-///  Inner product: c = a^H * b, on CPU
+///  Outer product: c = a * b^H, on CPU
 template <class T0,
           class LAYOUT0,
           class... KOKKOS0,
@@ -190,9 +190,9 @@ outer(KokkosDVector<T0**, LAYOUT0, KOKKOS0...>& C,
 
   // single rank
   if (A.map().is_local() && B.map().is_local() && C.map().is_local()) {
-    int m = A.map().ncols();
-    int k = A.map().nrows();
-    int n = B.map().ncols();
+    int m = A.map().nrows();
+    int k = A.map().ncols();
+    int n = B.map().nrows();
     numeric_t* A_ptr = A.array().data();
     numeric_t* B_ptr = B.array().data();
     numeric_t* C_ptr = C.array().data();
-- 
2.43.0


From e1f67c5dc1f11590bddf99d158b052660536bdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:41 +0000
Subject: [PATCH 05/26] fix: MPI datatype of std::pair ignored padding between
 its members

---
 src/mpi/mpi_type.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mpi/mpi_type.hpp b/src/mpi/mpi_type.hpp
index 8fdf03d..6ea0230 100644
--- a/src/mpi/mpi_type.hpp
+++ b/src/mpi/mpi_type.hpp
@@ -86,7 +86,10 @@ struct mpi_type<std::pair<T1, T2>>
   {
     MPI_Datatype result;
     int array_of_block_lengths[2] = {1, 1};
-    MPI_Aint array_of_displacements[2] = {0, sizeof(T1)};
+    // second may be preceded by padding
+    std::pair<T1, T2> p;
+    MPI_Aint array_of_displacements[2] = {
+        0, reinterpret_cast<char*>(&p.second) - reinterpret_cast<char*>(&p)};
     MPI_Datatype types[2] = {mpi_type<T1>::type(), mpi_type<T2>::type()};
     CALL_MPI(
         MPI_Type_create_struct, (2,
-- 
2.43.0


From 85622d5df16a44c7ef94ad7955865ce943788212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:41 +0000
Subject: [PATCH 06/26] fix: operator iterator read past the end of its keys

---
 src/operator.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/operator.hpp b/src/operator.hpp
index e7807ff..80d441c 100644
--- a/src/operator.hpp
+++ b/src/operator.hpp
@@ -19,7 +19,7 @@ public:
       : keys(keys)
       , obj(obj)
   {
-    if (end) {
+    if (end || keys.empty()) {
       pos = keys.size();
     } else {
       key_t k = keys[0];
@@ -30,7 +30,9 @@ public:
   op_iterator& operator++()
   {
     pos++;
-    pair = std::make_unique<value_t>(keys[pos], obj.at(keys[pos]));
+    if (pos < static_cast<int>(keys.size())) {
+      pair = std::make_unique<value_t>(keys[pos], obj.at(keys[pos]));
+    }
     return *this;
   }
 
-- 
2.43.0


From 271fc436836bcd4c902f465cb8201dfdf13b3dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:41 +0000
Subject: [PATCH 07/26] fix: solve_sym returned garbage when the Cholesky
 factorization failed

---
 src/la/lapack_cpu.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/la/lapack_cpu.hpp b/src/la/lapack_cpu.hpp
index 0609c6d..f1005d1 100644
--- a/src/la/lapack_cpu.hpp
+++ b/src/la/lapack_cpu.hpp
@@ -75,11 +75,15 @@ solve_sym(KokkosDVector<T, LAYOUT, KOKKOS...>& A, KokkosDVector<T, LAYOUT, KOKKO
 
     char uplo = 'U';
     auto order = CBLAS_ORDER::CblasColMajor;
-    potrf_t::call(order, uplo, n, ptr_A, lda);
+    if (potrf_t::call(order, uplo, n, ptr_A, lda) != 0) {
+      throw std::runtime_error("solve_sym: potrf failed, matrix is not positive definite");
+    }
     int nrhs = RHS.array().extent(1);
 
     typedef cblas::potrs<numeric_t> potrs_t;
-    potrs_t::call(order, uplo, n, nrhs, ptr_A, lda, ptr_B, ldb);
+    if (potrs_t::call(order, uplo, n, nrhs, ptr_A, lda, ptr_B, ldb) != 0) {
+      throw std::runtime_error("solve_sym: potrs failed");
+    }
   } else {
     throw std::runtime_error("not implemented");
   }
-- 
2.43.0


From 8ae17c79979ef0db71791efe40355d34ed82e83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:41 +0000
Subject: [PATCH 08/26] fix: l2norm and innerh_reduce summed over the local
 k-points only

---
 src/la/lapack.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/la/lapack.hpp b/src/la/lapack.hpp
index bf411c3..7924238 100644
--- a/src/la/lapack.hpp
+++ b/src/la/lapack.hpp
@@ -331,7 +331,7 @@ Kokkos::complex<double>
 innerh_reduce(const mvector<X>& x, const mvector<Y>& y)
 {
   auto tmp = eval_threaded(tapply(innerh_tr(), x, y));
-  auto z = sum(tmp);
+  auto z = sum(tmp, x.commk());
   return Kokkos::real(z);
 }
 
@@ -341,7 +341,7 @@ double
 l2norm(const mvector<X>& x)
 {
   auto tmp = eval_threaded(tapply(innerh_tr(), x, x));
-  auto z = sum(tmp);
+  auto z = sum(tmp, x.commk());
   // if (std::abs(Kokkos::imag(z)) > 1e-10) {
   //   throw std::runtime_error("invalid value");
   // }
-- 
2.43.0


From b4603bf1d2c3d6e650a1ff4f4ab78a938733e8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:41 +0000
Subject: [PATCH 09/26] fix: format() overflowed its buffer

---
 src/utils/format.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/utils/format.hpp b/src/utils/format.hpp
index b14e9d6..1591080 100644
--- a/src/utils/format.hpp
+++ b/src/utils/format.hpp
@@ -8,10 +8,13 @@ namespace nlcglib {
 template<class... ARGS>
 std::string format(std::string format_string, ARGS&&... args)
 {
-  char buf[format_string.size()];
-  std::sprintf(buf, format_string.c_str(), args...);
+  int n = std::snprintf(nullptr, 0, format_string.c_str(), args...);
+  if (n < 0) return std::string();
+  std::string buf(n + 1, '\0');
+  std::snprintf(&buf[0], buf.size(), format_string.c_str(), args...);
+  buf.resize(n);
 
-  return std::string(buf);
+  return buf;
 }
 
 }  // nlcglib
-- 
2.43.0


From f26a4795a3ecb064109b19c43c4ed48024fe1c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:41 +0000
Subject: [PATCH 10/26] fix: StepLogger ignored the given file name

---
 src/utils/step_logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/step_logger.hpp b/src/utils/step_logger.hpp
index daf99d0..e24cba5 100644
--- a/src/utils/step_logger.hpp
+++ b/src/utils/step_logger.hpp
@@ -45,7 +45,7 @@ public:
   ~StepLogger()
   {
     if(active) {
-      std::ofstream fout(std::string("nlcg") + ".json", std::ios_base::app);
+      std::ofstream fout(fname, std::ios_base::app);
       fout << dict;
       fout.flush();
     }
-- 
2.43.0


From 11c2a3355a77ae5e5f07654bf9e5a4af803ee215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:41 +0000
Subject: [PATCH 11/26] fix: mvector assignment from a map did not return a
 value

---
 src/la/mvector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/la/mvector.hpp b/src/la/mvector.hpp
index c34610a..cedeb87 100644
--- a/src/la/mvector.hpp
+++ b/src/la/mvector.hpp
@@ -98,6 +98,7 @@ public :
   mvector& operator=(std::map<key_t, T>&& data)
   {
     data_ = std::forward<std::map<key_t, T>>(data);
+    return *this;
   }
 
   template<typename Z>
-- 
2.43.0


From 0fd0234857bbcbe7cccbfa361f1b7443cb9d7369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:04 +0000
Subject: [PATCH 12/26] fix: add with beta=0 propagated NaN/Inf from the
 (possibly uninitialized) destination

---
 src/la/cblas.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/la/cblas.hpp b/src/la/cblas.hpp
index d62b714..773913b 100644
--- a/src/la/cblas.hpp
+++ b/src/la/cblas.hpp
@@ -382,7 +382,9 @@ struct geam<Kokkos::complex<double>> : blas_base
 #pragma omp parallel for
       for (int j = 0; j < N; ++j) {
         for (int i = 0; i < M; ++i) {
-          cC[i + ldc * j] = alpha_ * (cA[i + lda * j]) + beta_ * cB[i + ldb * j];
+          // as in BLAS: B is not referenced if beta == 0
+          auto b = beta_ == 0.0 ? std::complex<double>{0} : beta_ * cB[i + ldb * j];
+          cC[i + ldc * j] = alpha_ * (cA[i + lda * j]) + b;
         }
       }
     } else {
-- 
2.43.0


From 7a9eb5b8d7b8973abb5bc72c21db8e270354ed92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:04 +0000
Subject: [PATCH 13/26] fix: smearing accepted negative temperatures

---
 src/smearing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smearing.hpp b/src/smearing.hpp
index bb27099..645b516 100644
--- a/src/smearing.hpp
+++ b/src/smearing.hpp
@@ -558,7 +558,7 @@ public:
       , wk(wk)
       , smearing_t(smearing_t)
   {
-    if (T == 0) {
+    if (!(T > 0)) {
       throw std::runtime_error("Temperature must be > 0.");
     }
     kT = T * physical_constants::kb;
-- 
2.43.0


From 9db4c98398d3d7531259848707d3b72bd06adb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:04 +0000
Subject: [PATCH 14/26] fix: failed line search left the system in a rejected
 trial state

---
 src/linesearch/linesearch.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/linesearch/linesearch.hpp b/src/linesearch/linesearch.hpp
index 3edc424..b75805a 100644
--- a/src/linesearch/linesearch.hpp
+++ b/src/linesearch/linesearch.hpp
@@ -78,6 +78,7 @@ line_search::bt_search(GEODESIC& G, FREE_ENERGY& FE, double F0, bool& force_rest
   // TODO: let logger print state
   Logger::GetInstance().flush();
   if (force_restart)  {
+    G(0);  // do not leave the system in a rejected trial state
     throw DescentError();
   } else {
     force_restart = true;
-- 
2.43.0


From 4baf5e53f7abd010581a449663932ce7b2109fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:04 +0000
Subject: [PATCH 15/26] fix: restart=0 caused an integer division by zero

---
 src/nlcglib.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nlcglib.cpp b/src/nlcglib.cpp
index fb1e9cf..a4ffd11 100644
--- a/src/nlcglib.cpp
+++ b/src/nlcglib.cpp
@@ -226,6 +226,10 @@ nlcg_us(EnergyBase& energy_base,
   // std::feclearexcept(FE_ALL_EXCEPT);
   // feenableexcept(FE_ALL_EXCEPT & ~FE_INEXACT &
   //                ~FE_UNDERFLOW);  // Enable all floating point exceptions but FE_INEXACT
+  if (restart < 1) {
+    throw std::runtime_error("nlcg: restart must be > 0");
+  }
+
   nlcg_info info;
 
   auto S = Overlap(overlap_base);
-- 
2.43.0


From dd56128d6d49dc3489438a42cc0c7a6f73542925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:04 +0000
Subject: [PATCH 16/26] fix: nlcg_info was stale (or uninitialized for
 maxiter=0) when maxiter is reached

---
 src/nlcglib.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/nlcglib.cpp b/src/nlcglib.cpp
index a4ffd11..f037ffd 100644
--- a/src/nlcglib.cpp
+++ b/src/nlcglib.cpp
@@ -442,6 +442,15 @@ nlcg_us(EnergyBase& energy_base,
       return info;
     }
   }
+
+  // maxiter reached, report the state after the last step
+  info = print_info(free_energy.get_F(),
+                    free_energy.ks_energy(),
+                    free_energy.get_entropy(),
+                    slope,
+                    -1,
+                    free_energy.get_chemical_potential(),
+                    maxiter);
   return info;
 }
 
-- 
2.43.0


From c44b38532474c4e7f0c26e0e5870209c3bb73c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:14 +0000
Subject: [PATCH 17/26] fix: nlcg_info.tolerance contained the placeholder
 slope of eta (-1)

---
 src/nlcglib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlcglib.cpp b/src/nlcglib.cpp
index f037ffd..58ccc62 100644
--- a/src/nlcglib.cpp
+++ b/src/nlcglib.cpp
@@ -88,7 +88,7 @@ print_info(double free_energy,
   nlcg_info info;
   info.F = free_energy;
   info.S = entropy;
-  info.tolerance = slope_x + slope_eta;
+  info.tolerance = slope_x;
   info.iter = step;
 
   return info;
-- 
2.43.0


From 78d06aa7455704aa40a44421e1f363eae4350a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:16 +0000
Subject: [PATCH 18/26] fix: quadratic line search took an infinite step when
 the profile has zero curvature

---
 src/linesearch/linesearch.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/linesearch/linesearch.hpp b/src/linesearch/linesearch.hpp
index b75805a..bb104a1 100644
--- a/src/linesearch/linesearch.hpp
+++ b/src/linesearch/linesearch.hpp
@@ -2,6 +2,7 @@
 
 #include "exceptions.hpp"
 #include "utils/logger.hpp"
+#include <cmath>
 #include <iomanip>
 #include <tuple>
 
@@ -131,6 +132,12 @@ line_search::qline(GEODESIC& G, FREE_ENERGY& FE, double slope, bool& force_resta
     }
   }
 
+  if (!std::isfinite(t_min)) {
+    // no curvature: the quadratic model has no minimum
+    Logger::GetInstance() << "\t quadratic line search failed: no minimum, a = " << a << "\n";
+    throw StepError();
+  }
+
   double F_pred = -b * b / (4 * a) + c;
 
   // evaluate FE at predicted minimum
-- 
2.43.0


From 2291af89ab6b054c3073a2902f9457b27d417029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:16 +0000
Subject: [PATCH 19/26] fix: quadratic line search accepted a step with NaN
 free energy

---
 src/linesearch/linesearch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linesearch/linesearch.hpp b/src/linesearch/linesearch.hpp
index bb104a1..7be8fa0 100644
--- a/src/linesearch/linesearch.hpp
+++ b/src/linesearch/linesearch.hpp
@@ -147,7 +147,7 @@ line_search::qline(GEODESIC& G, FREE_ENERGY& FE, double slope, bool& force_resta
                         << " q line prediction error: " << std::scientific << std::setprecision(8) << (F_pred - F_min)
                         << " dE: " << std::scientific << std::setprecision(8) << (F0 - F_min) << "\n";
 
-  if (F_min > F0) {
+  if (!(F_min <= F0)) {  // also reject NaN
     Logger::GetInstance() << std::setprecision(13)
                           << "\t quadratic line search failed:\n"
                           << "\t - F_min: " << F_min << "\n"
-- 
2.43.0


From c95533463b98ebc3996b249f2df51002f7b2e1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:53 +0000
Subject: [PATCH 20/26] fix: vectors of unspecified memory type were dropped
 silently

---
 src/la/mvector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/la/mvector.hpp b/src/la/mvector.hpp
index cedeb87..43d8062 100644
--- a/src/la/mvector.hpp
+++ b/src/la/mvector.hpp
@@ -405,6 +405,8 @@ auto make_mmvector(std::shared_ptr<VectorBaseZ> vector_base)
       Kokkos::deep_copy(dst, src);
       auto kindex = vector_base->kpoint_index(i);
       mvector[kindex] = dst;
+    } else {
+      throw std::runtime_error("expected host or device memory");
     }
   }
   return mvector;
-- 
2.43.0


From 54a620bb8a39cd189a9e762522cff2ff092b4764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:53 +0000
Subject: [PATCH 21/26] fix: nlcg.out was incomplete when a run ended without
 convergence

The error message of a failed line search and the state at the iteration
limit stayed in the buffer until the next run or the end of the process.
---
 src/nlcglib.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nlcglib.cpp b/src/nlcglib.cpp
index 58ccc62..bb1cb56 100644
--- a/src/nlcglib.cpp
+++ b/src/nlcglib.cpp
@@ -436,9 +436,11 @@ nlcg_us(EnergyBase& energy_base,
     } catch (DescentError&) {
       // CG failed abort
       logger << "[NLCG] Error: No descent direction found, nlcg didn't reach final tolerance\n";
+      logger.flush();
       return info;
     } catch (SlopeError&) {
       logger << "[NLCG] Error: slope > 0 after CG-restart. Abort.\n";
+      logger.flush();
       return info;
     }
   }
@@ -451,6 +453,7 @@ nlcg_us(EnergyBase& energy_base,
                     -1,
                     free_energy.get_chemical_potential(),
                     maxiter);
+  logger.flush();
   return info;
 }
 
-- 
2.43.0


From b1b07a126c6637ef3eed90aef12ea0e94cda3e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:01 +0000
Subject: [PATCH 22/26] fix: parameters in nlcg.out were formatted with the
 precision left behind by the previous run

e.g. tol was listed as 0.000
---
 src/utils/logger.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/logger.hpp b/src/utils/logger.hpp
index 4f581d7..2516d67 100644
--- a/src/utils/logger.hpp
+++ b/src/utils/logger.hpp
@@ -36,6 +36,8 @@ public:
     MPI_Comm_rank(MPI_COMM_WORLD, &pid_);
     if (pid_ == 0)
       stream_ptr_ = std::make_shared<std::ofstream>(fname);
+    // forget the formatting left behind by the previous run
+    sbuf_.copyfmt(std::stringstream());
   }
 
   template <typename T>
-- 
2.43.0


From c92dbcec5384ed1212ceb414de06fe7f3446a620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:53 +0000
Subject: [PATCH 23/26] fix: remains of an aborted run were written into
 nlcg.out of the next one

The new file was opened before the old stream flushed its buffer.
---
 src/utils/logger.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/logger.hpp b/src/utils/logger.hpp
index 2516d67..f4cbc00 100644
--- a/src/utils/logger.hpp
+++ b/src/utils/logger.hpp
@@ -34,8 +34,10 @@ public:
   void attach_file_master(const std::string& fname = "nlcg.out")
   {
     MPI_Comm_rank(MPI_COMM_WORLD, &pid_);
-    if (pid_ == 0)
+    if (pid_ == 0) {
+      stream_ptr_.reset();  // close the log of the previous run first, it might be the same file
       stream_ptr_ = std::make_shared<std::ofstream>(fname);
+    }
     // forget the formatting left behind by the previous run
     sbuf_.copyfmt(std::stringstream());
   }
-- 
2.43.0


From 2210ccfd76eddbd9b4535ad605b8b76a953ca4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:00 +0000
Subject: [PATCH 24/26] fix: every exchange of keys left behind a committed MPI
 datatype

---
 src/mpi/mpi_type.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mpi/mpi_type.hpp b/src/mpi/mpi_type.hpp
index 6ea0230..096b748 100644
--- a/src/mpi/mpi_type.hpp
+++ b/src/mpi/mpi_type.hpp
@@ -83,6 +83,14 @@ template <class T1, class T2>
 struct mpi_type<std::pair<T1, T2>>
 {
   static MPI_Datatype type()
+  {
+    // committed once, every call would leave behind another datatype otherwise
+    static const MPI_Datatype type = create();
+    return type;
+  }
+
+private:
+  static MPI_Datatype create()
   {
     MPI_Datatype result;
     int array_of_block_lengths[2] = {1, 1};
-- 
2.43.0


From cf53de3fafcaf19eb2a70fddbeb4521d04b5c995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:16 +0000
Subject: [PATCH 25/26] fix: coupling between degenerate levels was missing in
 the gradient of the pseudo-Hamiltonian

---
 src/pseudo_hamiltonian/grad_eta.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pseudo_hamiltonian/grad_eta.hpp b/src/pseudo_hamiltonian/grad_eta.hpp
index 99bde17..bf22091 100644
--- a/src/pseudo_hamiltonian/grad_eta.hpp
+++ b/src/pseudo_hamiltonian/grad_eta.hpp
@@ -176,7 +176,9 @@ public:
             double ej = ek(j);
             double ei = ek(i);
             if (std::abs(ej - ei) < 1e-10) {
-              // zero contribution
+              // degenerate levels: the difference quotient becomes the derivative
+              double delta = smearing<smearing_t>::delta((mu - ei) / kT_loc, mo);
+              mgETA(i, j) -= delta / kT_loc * mHij(i, j);
             } else {
               double II = (fn(j) - fn(i)) / (ej - ei);
               mgETA(i, j) += II * mHij(i, j);
-- 
2.43.0


From df911838eabd808cfe003302b214d555017539ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:10 +0000
Subject: [PATCH 26/26] fix: stride of the host's vectors was ignored

---
 src/la/mvector.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/la/mvector.hpp b/src/la/mvector.hpp
index 43d8062..90f2b70 100644
--- a/src/la/mvector.hpp
+++ b/src/la/mvector.hpp
@@ -390,6 +390,8 @@ auto make_mmvector(std::shared_ptr<VectorBaseZ> vector_base)
     auto buffer = vector_base->get(i);
     if (buffer.memtype == memory_type::device) {
 #ifdef __NLCGLIB__CUDA
+      if (buffer.stride[0] != 1)
+        throw std::runtime_error("vectors in device memory must be contiguous");
       Kokkos::View<double*, Kokkos::CudaSpace, Kokkos::MemoryUnmanaged> src(buffer.data, buffer.size[0]);
       vector_t dst("vector", buffer.size[0]);
       Kokkos::deep_copy(dst, src);
@@ -399,10 +401,13 @@ auto make_mmvector(std::shared_ptr<VectorBaseZ> vector_base)
       throw std::runtime_error("recompile nlcglib with CUDA support");
 #endif
     } else if (buffer.memtype == memory_type::host) {
-      Kokkos::View<double*, Kokkos::HostSpace, Kokkos::MemoryUnmanaged> src(buffer.data,
-                                                                            buffer.size[0]);
+      Kokkos::View<double*, Kokkos::LayoutStride, Kokkos::HostSpace, Kokkos::MemoryUnmanaged> src(
+          buffer.data, Kokkos::LayoutStride(buffer.size[0], buffer.stride[0]));
       vector_t dst("vector", buffer.size[0]);
-      Kokkos::deep_copy(dst, src);
+      // gather the entries, which need not be contiguous
+      auto dst_host = Kokkos::create_mirror_view(dst);
+      for (int j = 0; j < buffer.size[0]; ++j) dst_host(j) = src(j);
+      Kokkos::deep_copy(dst, dst_host);
       auto kindex = vector_base->kpoint_index(i);
       mvector[kindex] = dst;
     } else {
-- 
2.43.0

