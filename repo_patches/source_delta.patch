From 76d4db580a349ece44ea3da1e4dd1ee442d443d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:45 +0000
Subject: [PATCH 001/198] fix: let a zero perp_range or depth_range default to
 main_range, as documented

---
 src/gaussfft.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gaussfft.cpp b/src/gaussfft.cpp
index cdd7e2e..bf8a642 100644
--- a/src/gaussfft.cpp
+++ b/src/gaussfft.cpp
@@ -60,9 +60,9 @@ NRLib::Variogram * GaussFFT::CreateVariogram(const std::string & type,
                                              double              dip_angle,
                                              double              power)
 {
-  if (range_y < 0.0)
+  if (range_y <= 0.0)
     range_y = range_x;
-  if (range_z < 0.0)
+  if (range_z <= 0.0)
     range_z = range_x;
 
   azimuth_angle *= NRLib::Degree;
-- 
2.43.0


From d5e8c6f0e40a00ea3a7477ae63e4acc864aa273e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:18 +0000
Subject: [PATCH 002/198] fix: find the FFT size in double precision, so that
 it is never too small, and even when asked

---
 src/nrlib/fft/fft.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/fft/fft.cpp b/src/nrlib/fft/fft.cpp
index 1f59986..8a11a51 100644
--- a/src/nrlib/fft/fft.cpp
+++ b/src/nrlib/fft/fft.cpp
@@ -21,6 +21,8 @@
 
 #include "fft.hpp"
 
+#include <algorithm>
+
 template <>
 void NRLib::NRLibPrivate::ComputeFFT1D<double>(size_t n,
   double* in,
@@ -56,10 +58,11 @@ NRLib::FindNewSizeWithPadding(size_t minSize, bool must_be_even) {
   if (must_be_even)
     minant2 = 1;
 
-  int maxant2 = static_cast<int>(ceil((double)log((float)(minSize)) / log(2.0f)));
-  int maxant3 = static_cast<int>(ceil((double)log((float)(minSize)) / log(3.0f)));
-  int maxant5 = static_cast<int>(ceil((double)log((float)(minSize)) / log(5.0f)));
-  int maxant7 = static_cast<int>(ceil((double)log((float)(minSize)) / log(7.0f)));
+  int maxant2 = static_cast<int>(ceil(log((double)(minSize)) / log(2.0)));
+  int maxant3 = static_cast<int>(ceil(log((double)(minSize)) / log(3.0)));
+  int maxant5 = static_cast<int>(ceil(log((double)(minSize)) / log(5.0)));
+  int maxant7 = static_cast<int>(ceil(log((double)(minSize)) / log(7.0)));
+  maxant2 = std::max(maxant2, minant2);
   int maxant11 = 0;
   int maxant13 = 0;
   size_t closestprod = static_cast<size_t>(pow(2.0f, maxant2));
-- 
2.43.0


From 8d929ca21430b79a76cf8f286711ccca187f267c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:41 +0000
Subject: [PATCH 003/198] fix: do not leak a random generator on every 1D and
 2D simulation

---
 src/nrlib/variogram/gaussianfield.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/variogram/gaussianfield.cpp b/src/nrlib/variogram/gaussianfield.cpp
index 4eaea78..ca1d39c 100644
--- a/src/nrlib/variogram/gaussianfield.cpp
+++ b/src/nrlib/variogram/gaussianfield.cpp
@@ -217,6 +217,7 @@ void NRLib::Simulate2DGaussianField(const Variogram& variogram,
                           1,
                           grids,
                           rg);
+  delete rg;
   grid_out = grids[0];
 }
 
@@ -279,9 +280,10 @@ void NRLib::Simulate2DGaussianField(const Variogram              & variogram,
   // This is done to be able to do multithreading
   //NRLib::RandomGenerator random;
  // random.Initialize(seed);
+  RandomGenerator default_rg;
   if(rg == NULL) {
-    rg = new RandomGenerator();
-    rg->Initialize(NRLib::Random::DrawUint32());
+    default_rg.Initialize(NRLib::Random::DrawUint32());
+    rg = &default_rg;
   }
   for (int k = 0; k < n_fields; k++) {
     for (size_t i = 0; i < nx_tot; i++)
@@ -318,9 +320,10 @@ NRLib::Simulate1DGaussianField(const Variogram       & variogram,
 
   std::vector<double> cov = FFTCovGrid1D(variogram, static_cast<int>(nxp), dx, scaling_x).GetCov();
 
+  RandomGenerator default_rg;
   if(rg == NULL) {
-    rg = new RandomGenerator();
-    rg->Initialize(NRLib::Random::DrawUint32());
+    default_rg.Initialize(NRLib::Random::DrawUint32());
+    rg = &default_rg;
   }
   std::vector<double> noise(nxp);
   for(size_t i = 0; i < nxp; i++)
-- 
2.43.0


From 5ea1f9f25219877caee96e6c247f019d829e0031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:37 +0000
Subject: [PATCH 004/198] fix: reject None as a variogram instead of
 dereferencing a null pointer

---
 src/gaussfftinterface.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gaussfftinterface.cpp b/src/gaussfftinterface.cpp
index 41bbb5e..3850404 100644
--- a/src/gaussfftinterface.cpp
+++ b/src/gaussfftinterface.cpp
@@ -195,7 +195,7 @@ PYBIND11_MODULE(_gaussianfft, m, py::mod_gil_not_used(), py::multiple_interprete
   // Padding
   //
   m.def("simulation_size", &GaussFFT::FindGridSizeAfterPadding,
-      py::arg("variogram"),
+      py::arg("variogram").none(false),
       py::arg("nx"),
       py::arg("dx"),
       py::arg("ny") = 1U,
@@ -224,7 +224,7 @@ PYBIND11_MODULE(_gaussianfft, m, py::mod_gil_not_used(), py::multiple_interprete
   // Simulate core function
   //
   m.def("simulate", &GaussFFT::Simulate,
-      py::arg("variogram"),
+      py::arg("variogram").none(false),
       py::arg("nx"),
       py::arg("dx"),
       py::arg("ny")=1U,
@@ -240,7 +240,7 @@ PYBIND11_MODULE(_gaussianfft, m, py::mod_gil_not_used(), py::multiple_interprete
   // Simulate core function
   //
   advanced.def("simulate", &GaussFFT::SimulateWithAdvancedSettings,
-      py::arg("variogram"),
+      py::arg("variogram").none(false),
       py::arg("nx"),
       py::arg("dx"),
       py::arg("ny") = 1U,
-- 
2.43.0


From b3a77e4e652ad87c70647acb3329a7512bbeedd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:44 +0000
Subject: [PATCH 005/198] fix: project the variogram ranges with the full value
 of pi when smoothing

---
 src/nrlib/variogram/fftcovgrid.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/nrlib/variogram/fftcovgrid.cpp b/src/nrlib/variogram/fftcovgrid.cpp
index 0a898d7..e89a0a9 100644
--- a/src/nrlib/variogram/fftcovgrid.cpp
+++ b/src/nrlib/variogram/fftcovgrid.cpp
@@ -19,6 +19,7 @@
 
 #include "fftcovgrid.hpp"
 #include "variogram.hpp"
+#include "../math/constants.hpp"
 
 #include <algorithm>
 
@@ -46,14 +47,14 @@ namespace NRLib { namespace FFTCovGridUtilities
                              fabs(variogram.GetRangeX() * sin(dip))};
 
     // Project perpendicular vector onto the axes
-    double perp_vector[3] = {fabs(variogram.GetRangeY() * cos(azi + 3.14 / 2.0)),  // TODO: replace with PI
-                             fabs(variogram.GetRangeY() * sin(azi + 3.14 / 2.0)),
+    double perp_vector[3] = {fabs(variogram.GetRangeY() * cos(azi + PiHalf)),
+                             fabs(variogram.GetRangeY() * sin(azi + PiHalf)),
                              0.0};
 
     // Project final vector onto the axes
-    double down_vector[3] = {fabs(variogram.GetRangeZ() * cos(dip + 3.14 / 2.0) * cos(azi)), // TODO: replace with PI
-                             fabs(variogram.GetRangeZ() * cos(dip + 3.14 / 2.0) * sin(azi)),
-                             fabs(variogram.GetRangeZ() * sin(dip + 3.14 / 2.0))};
+    double down_vector[3] = {fabs(variogram.GetRangeZ() * cos(dip + PiHalf) * cos(azi)),
+                             fabs(variogram.GetRangeZ() * cos(dip + PiHalf) * sin(azi)),
+                             fabs(variogram.GetRangeZ() * sin(dip + PiHalf))};
 
     xmax = std::max(main_vector[0], perp_vector[0]);
     ymax = std::max(main_vector[1], perp_vector[1]);
-- 
2.43.0


From e2844346abf67ade85ae20d6e299890d441240e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:23 +0000
Subject: [PATCH 006/198] fix: keep the smoothing of short ranges from
 underflowing to white noise

---
 src/nrlib/variogram/fftcovgrid.cpp | 14 +++++++++++---
 src/nrlib/variogram/fftcovgrid.hpp | 18 ++++++++++++------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/nrlib/variogram/fftcovgrid.cpp b/src/nrlib/variogram/fftcovgrid.cpp
index e89a0a9..d48267e 100644
--- a/src/nrlib/variogram/fftcovgrid.cpp
+++ b/src/nrlib/variogram/fftcovgrid.cpp
@@ -83,9 +83,11 @@ namespace NRLib { namespace FFTCovGridUtilities
     assert(scaling_z > 1e-12);
     std::vector<double> axis_ranges = FFTCovGridUtilities::FindVariogramRanges(variogram);
 
-    double sx = pow(scaling_x, 1.0/(axis_ranges[0] * axis_ranges[0]));
-    double sy = pow(scaling_y, 1.0/(axis_ranges[1] * axis_ranges[1]));
-    double sz = pow(scaling_z, 1.0/(axis_ranges[2] * axis_ranges[2]));
+    // The exponents of the scaling parameters. Raising the parameters to them here
+    // would underflow for short ranges.
+    double sx = 1.0/(axis_ranges[0] * axis_ranges[0]);
+    double sy = 1.0/(axis_ranges[1] * axis_ranges[1]);
+    double sz = 1.0/(axis_ranges[2] * axis_ranges[2]);
 
     std::vector<double> scaling_factors;
     scaling_factors.push_back(sx);
@@ -131,6 +133,7 @@ void FFTCovGrid1D::InitializeSmoothingFactors(const Variogram & variogram,
                                                                                   1.0);
 
   sx_ = scaling_factors[0];
+  scaling_x_ = scaling_x;
 }
 
 /*******************************************************/
@@ -201,7 +204,9 @@ void FFTCovGrid2D::InitializeSmoothingFactors(const Variogram & variogram,
                                                                                   1.0);
 
   sx_ = scaling_factors[0];
+  scaling_x_ = scaling_x;
   sy_ = scaling_factors[1];
+  scaling_y_ = scaling_y;
 }
 
 /*******************************************************/
@@ -334,6 +339,9 @@ void FFTCovGrid3D::InitializeSmoothingFactors(const Variogram & variogram,
                                                                                   scaling_z);
 
   sx_ = scaling_factors[0];
+  scaling_x_ = scaling_x;
   sy_ = scaling_factors[1];
+  scaling_y_ = scaling_y;
   sz_ = scaling_factors[2];
+  scaling_z_ = scaling_z;
 }
diff --git a/src/nrlib/variogram/fftcovgrid.hpp b/src/nrlib/variogram/fftcovgrid.hpp
index 56e7030..f5fafd1 100644
--- a/src/nrlib/variogram/fftcovgrid.hpp
+++ b/src/nrlib/variogram/fftcovgrid.hpp
@@ -45,11 +45,12 @@ private:
   std::vector<double> cov_;
 
   double sx_;
+  double scaling_x_;
 
   void InitializeSmoothingFactors(const Variogram & variogram,
                                   double            scaling_x);
 
-  double FindSmoothingFactorX(double ddx) { return pow(sx_, ddx * ddx); }
+  double FindSmoothingFactorX(double ddx) { return pow(scaling_x_, sx_ * ddx * ddx); }
 };
 
 /// Same as FFTCovGrid1D, but for two dimensions
@@ -68,15 +69,17 @@ private:
   NRLib::Grid2D<double> cov_;
 
   double sx_;
+  double scaling_x_;
   double sy_;
+  double scaling_y_;
 
   void InitializeSmoothingFactors(const Variogram & variogram,
                                   double            scaling_x,
                                   double            scaling_y);
 
-  double FindSmoothingFactorX(double ddx) { return pow(sx_, ddx * ddx); }
+  double FindSmoothingFactorX(double ddx) { return pow(scaling_x_, sx_ * ddx * ddx); }
 
-  double FindSmoothingFactorY(double ddy) { return pow(sy_, ddy * ddy); }
+  double FindSmoothingFactorY(double ddy) { return pow(scaling_y_, sy_ * ddy * ddy); }
 };
 
 /// Same as FFTCovGrid1D, but for three dimensions
@@ -98,19 +101,22 @@ private:
   Grid<double> cov_;
 
   double sx_;
+  double scaling_x_;
   double sy_;
+  double scaling_y_;
   double sz_;
+  double scaling_z_;
 
   void InitializeSmoothingFactors(const Variogram & variogram,
                                   double            scaling_x,
                                   double            scaling_y,
                                   double            scaling_z);
 
-  double FindSmoothingFactorX(double ddx) { return pow(sx_, ddx * ddx); }
+  double FindSmoothingFactorX(double ddx) { return pow(scaling_x_, sx_ * ddx * ddx); }
 
-  double FindSmoothingFactorY(double ddy) { return pow(sy_, ddy * ddy); }
+  double FindSmoothingFactorY(double ddy) { return pow(scaling_y_, sy_ * ddy * ddy); }
 
-  double FindSmoothingFactorZ(double ddz) { return pow(sz_, ddz * ddz); }
+  double FindSmoothingFactorZ(double ddz) { return pow(scaling_z_, sz_ * ddz * ddz); }
 };
 
 }
-- 
2.43.0


From 70eafa08882edd4ce4c9a8a8cb343dfde18ab182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:28 +0000
Subject: [PATCH 007/198] fix: find the third and fourth index of a cell in
 Grid4D

---
 src/nrlib/grid/grid4d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/grid/grid4d.hpp b/src/nrlib/grid/grid4d.hpp
index ad740f7..7ebee6e 100644
--- a/src/nrlib/grid/grid4d.hpp
+++ b/src/nrlib/grid/grid4d.hpp
@@ -161,8 +161,8 @@ void Grid4D<A>::GetIJKL(size_t index, size_t &i, size_t &j, size_t &k, size_t &l
 
   i = index % ni_;
   j = (index-i)/ni_ % nj_;
-  k = (index - j*ni_ - i)/ni_/nj_;
-  l = (index - k*ni_*nj_)/ni_/nj_/nk_; //?
+  k = (index - j*ni_ - i)/ni_/nj_ % nk_;
+  l = index/ni_/nj_/nk_;
 }
 
 template<class A>
-- 
2.43.0


From f7fc3e90012884b375e369b25d1e946c5d242b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:28 +0000
Subject: [PATCH 008/198] fix: make Grid5D compile and find the indices of a
 cell

---
 src/nrlib/grid/grid5d.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/grid/grid5d.hpp b/src/nrlib/grid/grid5d.hpp
index 527f009..02c3f12 100644
--- a/src/nrlib/grid/grid5d.hpp
+++ b/src/nrlib/grid/grid5d.hpp
@@ -112,7 +112,7 @@ void Grid5D<A>::Resize(size_t ni, size_t nj, size_t nk, size_t nl, size_t nm, co
   nj_ = nj;
   nk_ = nk;
   nl_ = nl;
-  nm_ = nm
+  nm_ = nm;
 
   data_.resize(0); //To avoid copying of elements
   data_.resize(ni_ * nj_ * nk_ * nl * nm,  val);
@@ -166,9 +166,9 @@ void Grid5D<A>::GetIJKLM(size_t index, size_t &i, size_t &j, size_t &k, size_t &
 
   i = index % ni_;
   j = (index-i)/ni_ % nj_;
-  k = (index - j*ni_ - i)/ni_/nj_;
-  l = (index - k*ni_*nj_)/ni_/nj_/nk_; //?
-  m = (index - m*ni_*nj_*nk_)/ni_/nj_/nk_/nl_; //?
+  k = (index - j*ni_ - i)/ni_/nj_ % nk_;
+  l = index/ni_/nj_/nk_ % nl_;
+  m = index/ni_/nj_/nk_/nl_;
 }
 
 template<class A>
-- 
2.43.0


From 44edf8f8dcf15e0a0449f90b364342cd56c64073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:28 +0000
Subject: [PATCH 009/198] fix: swap the index bounds with the data in
 Grid2DGeneral

---
 src/nrlib/grid/grid2dgeneral.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nrlib/grid/grid2dgeneral.hpp b/src/nrlib/grid/grid2dgeneral.hpp
index 3a0d13a..746c697 100644
--- a/src/nrlib/grid/grid2dgeneral.hpp
+++ b/src/nrlib/grid/grid2dgeneral.hpp
@@ -197,6 +197,10 @@ void Grid2DGeneral<A>::Swap(NRLib::Grid2DGeneral<A> &other)
 {
   std::swap(ni_, other.ni_);
   std::swap(nj_, other.nj_);
+  std::swap(i_min_, other.i_min_);
+  std::swap(i_max_, other.i_max_);
+  std::swap(j_min_, other.j_min_);
+  std::swap(j_max_, other.j_max_);
   data_.swap(other.data_);
 }
 
-- 
2.43.0


From 34d083591ea08616316f3dfebefbe1a6d6543e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:16 +0000
Subject: [PATCH 010/198] fix: draw from the new parameters after
 LogNormal::SetParameters

---
 src/nrlib/random/lognormal.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/random/lognormal.hpp b/src/nrlib/random/lognormal.hpp
index e574d2f..b8fc82b 100644
--- a/src/nrlib/random/lognormal.hpp
+++ b/src/nrlib/random/lognormal.hpp
@@ -62,9 +62,9 @@ void LogNormal::SetParameters(double mu, double sigma)
 {
   // If mean and std. dev. are in the log normal distribution, we calculate the corresponding
   // mu and sigma in the normal distribution
-  normal_.SetParameters(mu_, sigma_);
   mu_ = mu;
   sigma_ = sigma;
+  normal_.SetParameters(mu_, sigma_);
   exp_ = std::exp(mu_ + 0.5 * sigma_ * sigma_);
   std_dev_ = std::sqrt((std::exp(sigma_*sigma_)-1.0) * std::exp(2.0 * mu_ + sigma_ * sigma_));
 }
-- 
2.43.0


From d05dccd12969d4bb547dd83200af13896e85e9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:16 +0000
Subject: [PATCH 011/198] fix: give the default LogNormal the standard
 deviation it draws with

---
 src/nrlib/random/lognormal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/random/lognormal.cpp b/src/nrlib/random/lognormal.cpp
index 619df76..2c27adf 100644
--- a/src/nrlib/random/lognormal.cpp
+++ b/src/nrlib/random/lognormal.cpp
@@ -31,7 +31,7 @@ namespace NRLib {
 LogNormal::LogNormal()
   : normal_(Normal()),
     mu_(0.0),
-    sigma_(0.0)
+    sigma_(1.0)
 {
   exp_ = std::exp(0.5);
   std_dev_ = std::sqrt((std::exp(1.0) - 1.0) * std::exp(1.0));
-- 
2.43.0


From 4e7ec122c947968580479f70b1752d2d671b1f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:16 +0000
Subject: [PATCH 012/198] fix: density of SplitUniform between mean and maximum

---
 src/nrlib/random/splituniform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/random/splituniform.hpp b/src/nrlib/random/splituniform.hpp
index 2e4b393..df15b7a 100644
--- a/src/nrlib/random/splituniform.hpp
+++ b/src/nrlib/random/splituniform.hpp
@@ -69,7 +69,7 @@ double SplitUniform::Pdf(double x) const {
   if (x >= min_val_ && x < mean_val_) {
     p = 0.5 / (mean_val_ - min_val_);
   }
-  else if (x > mean_val_ && x > max_val_) {
+  else if (x > mean_val_ && x <= max_val_) {
     p = 0.5 / (max_val_ - mean_val_);
   }
   else if (x == mean_val_) {
-- 
2.43.0


From 83b22a7f964e13ced69b7086e70bfba1d3e57f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:16 +0000
Subject: [PATCH 013/198] fix: density of Poisson overflowed, and its
 distribution function was not one

---
 src/nrlib/random/poisson.cpp | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/src/nrlib/random/poisson.cpp b/src/nrlib/random/poisson.cpp
index bae965d..b2d6ba5 100644
--- a/src/nrlib/random/poisson.cpp
+++ b/src/nrlib/random/poisson.cpp
@@ -66,29 +66,17 @@ namespace NRLib {
 
   double Poisson::Pdf(int x) const
   {
-    int x_fac = 1;
-    int i = 1;
-    while (i < x) {
-      i++;
-      x_fac = x_fac * i;
-    }
-    double pdf = std::exp(x*std::log(lambda_)-lambda_)/x_fac;
-    return pdf;
+    if (x < 0)
+      return 0.0;
+    return std::exp(x*std::log(lambda_) - lambda_ - NRLib::gammln(x + 1.0));
   }
 
 
   double Poisson::Cdf(int x) const
   {
-    int x_fac = 1;
-    int i = 1;
-    while (i < x) {
-      i++;
-      x_fac = x_fac * i;
-    }
-    double x1 = x + 1.0;
-    double cdf = NRLib::gammp(x1, lambda_)/x_fac;
-    return cdf;
-
+    if (x < 0)
+      return 0.0;
+    return 1.0 - NRLib::gammp(x + 1.0, lambda_);
   }
 
 
-- 
2.43.0


From a8f84b4c8d74ddde04440b20952520e48551c5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:16 +0000
Subject: [PATCH 014/198] fix: take the density of Beta from the cell that
 contains x

---
 src/nrlib/random/beta.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/random/beta.hpp b/src/nrlib/random/beta.hpp
index 182c563..da55717 100644
--- a/src/nrlib/random/beta.hpp
+++ b/src/nrlib/random/beta.hpp
@@ -66,8 +66,10 @@ private:
 double
 Beta::Pdf(double x) const
 {
-  // round x to cell-center
-  int ix = int( (x-min_val_)/(max_val_-min_val_) * nx_-0.5 );
+  // pdf at the center of the cell x is in
+  int ix = int( (x-min_val_)/(max_val_-min_val_) * nx_ );
+  if(ix > nx_-1)
+    ix = nx_-1;
   double d = 0.0;
   if(x >= min_val_ && x <= max_val_)
    d = pdf_[ix];
-- 
2.43.0


From 4644f8b840f3bafb2d972a687c1288ac4b74d551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:16 +0000
Subject: [PATCH 015/198] fix: keep GeneralDiscrete::Quantile inside the
 histogram

---
 src/nrlib/random/generaldiscrete.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/random/generaldiscrete.hpp b/src/nrlib/random/generaldiscrete.hpp
index fac145b..2565042 100644
--- a/src/nrlib/random/generaldiscrete.hpp
+++ b/src/nrlib/random/generaldiscrete.hpp
@@ -55,7 +55,8 @@ private:
 int GeneralDiscrete::Quantile(double p) const {
   assert(p >= 0.0 && p <= 1.0);
   int i = 0;
-  while (cum_hist_[i] < p) {
+  int n = static_cast<int>(cum_hist_.size());
+  while (i < n - 1 && cum_hist_[i] < p) {
     i++;
   }
   return(i);
-- 
2.43.0


From 8ee670f8bfdd230af34b9dabf9a5471061f123fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:16 +0000
Subject: [PATCH 016/198] fix: let Binomial::Quantile reach n

---
 src/nrlib/random/binomial.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/random/binomial.cpp b/src/nrlib/random/binomial.cpp
index 17df430..6a01bc6 100644
--- a/src/nrlib/random/binomial.cpp
+++ b/src/nrlib/random/binomial.cpp
@@ -103,7 +103,7 @@ int Binomial::Quantile(double q) const
   if (high == low)
     return low;
   else
-    if (cdf_[high] > q && cdf_[low] <= q)
+    if (cdf_[low] <= q)
       return high;
     else
       return low;
-- 
2.43.0


From b2111b3e402d0de4933e72142cb47bfcdaf5999e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:16 +0000
Subject: [PATCH 017/198] fix: density of Binomial overflowed for large n

---
 src/nrlib/random/binomial.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/random/binomial.cpp b/src/nrlib/random/binomial.cpp
index 6a01bc6..06be8f7 100644
--- a/src/nrlib/random/binomial.cpp
+++ b/src/nrlib/random/binomial.cpp
@@ -65,7 +65,8 @@ double Binomial::Pdf(int x) const
     return 0.0;
   else
   {
-    double pdf = bico(n_,x)*std::exp((x*std::log(p_))+((n_-x)*std::log(1.0-p_)));
+    double log_bico = gammln(n_ + 1.0) - gammln(x + 1.0) - gammln(n_ - x + 1.0);
+    double pdf = std::exp(log_bico + (x*std::log(p_)) + ((n_-x)*std::log(1.0-p_)));
     return pdf;
   }
 }
-- 
2.43.0


From dbb4ff2a31914e7683e06d713340d0ba56d04699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:16 +0000
Subject: [PATCH 018/198] fix: find the quantile in Normal::PhiInverse instead
 of an end of the search interval

---
 src/nrlib/random/normal.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/random/normal.cpp b/src/nrlib/random/normal.cpp
index fbc7903..07807c2 100644
--- a/src/nrlib/random/normal.cpp
+++ b/src/nrlib/random/normal.cpp
@@ -78,10 +78,10 @@ Normal::PhiInverse(double y) const
   else
     return mean_;
 
-  if (IsEqual(Cdf(upper_limit),y))
+  if (Cdf(upper_limit) == y)
     return upper_limit;
 
-  if (IsEqual(Cdf(lower_limit),y))
+  if (Cdf(lower_limit) == y)
     return lower_limit;
 
   return RootPHI(lower_limit, upper_limit, 1.0e-10, 1000, y);
@@ -127,9 +127,9 @@ double Normal::RootPHI(double lower,double upper,double xacc,int MaxIt, double y
   PHIMinusyAndphi(lower, y, fl, df);
   PHIMinusyAndphi(upper, y, fh, df);
 
-  if (IsZero(fl))
+  if (fl == 0.0)
     return lower;
-  else if (IsZero(fh))
+  else if (fh == 0.0)
     return upper;
 
   if (fl*fh >= 0.0)
-- 
2.43.0


From cbd3b370f9f4fd171fc2c885ed4dbe58c954247a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:51 +0000
Subject: [PATCH 019/198] fix: keep the start seed when a seed file cannot be
 read

---
 src/nrlib/random/random.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/random/random.cpp b/src/nrlib/random/random.cpp
index d00de76..44cdc9a 100644
--- a/src/nrlib/random/random.cpp
+++ b/src/nrlib/random/random.cpp
@@ -52,9 +52,11 @@ void Random::Initialize(const std::string& filename) {
   if (!file) {
     throw Exception("Error opening seed file " + filename + "\n");
   }
-  if (!(file >> start_seed_)) {
+  unsigned long seed;
+  if (!(file >> seed)) {
     throw Exception("Error reading seed from seed file " + filename + "\n");
   }
+  start_seed_ = seed;
   seed_file_ = filename;
   use_seed_file_ = true;
   is_initialized_ = true;
-- 
2.43.0


From 48791e534fd02ed6105cebe14f469878a2342621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:12 +0000
Subject: [PATCH 020/198] fix: keep Beta::Cdf inside its table just below the
 maximum

---
 src/nrlib/random/beta.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nrlib/random/beta.hpp b/src/nrlib/random/beta.hpp
index da55717..e4f5a18 100644
--- a/src/nrlib/random/beta.hpp
+++ b/src/nrlib/random/beta.hpp
@@ -82,6 +82,8 @@ Beta::Cdf(double x) const
 {
   // linear interpolation between cell bounaries
   int ix = int( (x-min_val_)/dx_);
+  if(ix > nx_-1)
+    ix = nx_-1;
 
   double lowP  = 0.0;
   double p     = 0.0;
-- 
2.43.0


From f1a85c11f7218fca1c9ab6768119c9c9b6ff6902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:57 +0000
Subject: [PATCH 021/198] fix: incomplete gamma function far out in the tail,
 where the integral underflows

---
 src/nrlib/random/gamma.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/random/gamma.cpp b/src/nrlib/random/gamma.cpp
index 8d5f57d..840060e 100644
--- a/src/nrlib/random/gamma.cpp
+++ b/src/nrlib/random/gamma.cpp
@@ -184,14 +184,14 @@ namespace NRLib {
 
     if( psig == 1 )
     {
-      if (ans > 0 )
+      if (x > a1)
         return 1-ans;
       else
         return -ans;
     }
     else
     {
-      if (ans >= 0)
+      if (x > a1)
         return ans;
       else
         return 1+ans;
-- 
2.43.0


From a2db7ba558bdd1bfaeb418342973d2e356068e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:16 +0000
Subject: [PATCH 022/198] fix: count negative lags in the y range of CovGrid2D

---
 src/nrlib/variogram/covgrid2d.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/variogram/covgrid2d.cpp b/src/nrlib/variogram/covgrid2d.cpp
index 5003c24..92aec4e 100644
--- a/src/nrlib/variogram/covgrid2d.cpp
+++ b/src/nrlib/variogram/covgrid2d.cpp
@@ -93,8 +93,8 @@ CovGrid2D::GetRangeY() const
     for(int j=-ny_;j<ny_;j++) {
       int index = i*2*ny_ + ny_ + j;
       if (cov_[index] >= 0.05) {
-        if (j*dy_ > ry)
-          ry = j*dy_;
+        if (abs(j)*dy_ > ry)
+          ry = abs(j)*dy_;
       }
     }
   }
-- 
2.43.0


From 64708c7a3bebb142f060d3a7417147843d3b9583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:16 +0000
Subject: [PATCH 023/198] fix: covariance of one pair of values is 0, like its
 variance, and not 0/0

---
 src/nrlib/statistics/statistics.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nrlib/statistics/statistics.hpp b/src/nrlib/statistics/statistics.hpp
index 3a7a6b3..def5156 100644
--- a/src/nrlib/statistics/statistics.hpp
+++ b/src/nrlib/statistics/statistics.hpp
@@ -341,6 +341,9 @@ double NRLib::Cov(FIA beginA, FIA endA, FIB beginB, FIB endB,
       return 0.0;
     }
   }
+  if (cA == 1) {
+    return 0.0;
+  }
 
   double sum = 0.0;
   double meanA = NRLib::Mean(beginA, endA, mayThrow);
-- 
2.43.0


From c989d71f13295c0fa6c30ae0095035006b41be8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:52 +0000
Subject: [PATCH 024/198] fix: draw from the multinormal distribution with the
 Cholesky factor of the current covariance

---
 src/nrlib/statistics/multinormal.cpp | 16 ++++++++++++----
 src/nrlib/statistics/multinormal.hpp |  3 ++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/nrlib/statistics/multinormal.cpp b/src/nrlib/statistics/multinormal.cpp
index fa7926b..97dd639 100644
--- a/src/nrlib/statistics/multinormal.cpp
+++ b/src/nrlib/statistics/multinormal.cpp
@@ -25,6 +25,16 @@
 
 namespace NRLib {
 
+// Adds Lx to y, where the upper half of chol_fac holds the transpose of the Cholesky factor L.
+static void AddCholeskyProduct(const SymmetricMatrix & chol_fac,
+                               const Vector          & x,
+                               Vector                & y)
+{
+  for (int i = 0; i < y.length(); i++)
+    for (int j = 0; j <= i; j++)
+      y(i) += chol_fac(j, i)*x(j);
+}
+
 MultiNormal::MultiNormal()
 {
 
@@ -55,8 +65,7 @@ MultiNormal::Draw() const
   for (int i = 0; i < rand_01.length(); i++)
     rand_01(i) = normal.Draw();
 
-  Vector help = chol_fac_cov_*rand_01;
-  result +=help;
+  AddCholeskyProduct(chol_fac_cov_, rand_01, result);
 
   return result;
 
@@ -72,8 +81,7 @@ MultiNormal::Draw(RandomGenerator & rg) const
   for (int i = 0; i < rand_01.length(); i++)
     rand_01(i) = normal.Draw(rg);
 
-  Vector help = chol_fac_cov_*rand_01;
-  result += help;
+  AddCholeskyProduct(chol_fac_cov_, rand_01, result);
 
   return result;
 
diff --git a/src/nrlib/statistics/multinormal.hpp b/src/nrlib/statistics/multinormal.hpp
index acdf7e7..6afb585 100644
--- a/src/nrlib/statistics/multinormal.hpp
+++ b/src/nrlib/statistics/multinormal.hpp
@@ -58,7 +58,8 @@ void MultiNormal::SetParameters(const Vector & exp,
 {
   exp_ = exp;
   cov_ = cov;
-
+  CholeskyFactorize(cov);
+  chol_fac_cov_ = cov;
 }
 
 
-- 
2.43.0


From f6302d2b62e29579be934c2bcdd00cbfbcbd5438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:52 +0000
Subject: [PATCH 025/198] fix: use the local correlation of the observation
 that is kept when nearly equal ones are eliminated

---
 src/nrlib/statistics/posteriormultinormal.cpp | 20 +++++++++++--------
 src/nrlib/statistics/posteriormultinormal.hpp |  2 +-
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/nrlib/statistics/posteriormultinormal.cpp b/src/nrlib/statistics/posteriormultinormal.cpp
index 12091cc..b824e04 100644
--- a/src/nrlib/statistics/posteriormultinormal.cpp
+++ b/src/nrlib/statistics/posteriormultinormal.cpp
@@ -161,7 +161,8 @@ bool NRLib::SecondayCondDistrMultiNormal2D(const std::vector<NRLib::Point> & pos
 
   std::vector<NRLib::Point> pos_known_used = pos_known;
   std::vector<double>       std_known_used = std_known;
-  EliminateLargeCorr(pos_known_used, delta_known, std_known_used, local_corr, vario);
+  std::vector<double>       local_corr_used = local_corr;
+  EliminateLargeCorr(pos_known_used, delta_known, std_known_used, local_corr_used, vario);
   int n_used = static_cast<int>(pos_known_used.size());
 
   sigma_22 = SymmetricMatrix(n_used);
@@ -170,10 +171,10 @@ bool NRLib::SecondayCondDistrMultiNormal2D(const std::vector<NRLib::Point> & pos
   for(int i = 0; i < n_used; i++) {
     for(int j = 0; j <= i; j++) {
       double corr;
-      if(local_corr[i] > local_corr[j])
-        corr = local_corr[j];
-      else if(local_corr[j] > local_corr[i])
-        corr = local_corr[i];
+      if(local_corr_used[i] > local_corr_used[j])
+        corr = local_corr_used[j];
+      else if(local_corr_used[j] > local_corr_used[i])
+        corr = local_corr_used[i];
       else
         corr = 1.0;
 
@@ -183,7 +184,7 @@ bool NRLib::SecondayCondDistrMultiNormal2D(const std::vector<NRLib::Point> & pos
     }
 
     for(int j = 0; j < n_unknown; j++)
-      sigma_12(j,i) = std_known_used[i]*std_unknown[j]*local_corr[i]*vario.GetCorr(pos_known_used[i].x-pos_unknown[j].x,
+      sigma_12(j,i) = std_known_used[i]*std_unknown[j]*local_corr_used[i]*vario.GetCorr(pos_known_used[i].x-pos_unknown[j].x,
                                                                               pos_known_used[i].y-pos_unknown[j].y);
   }
 
@@ -228,7 +229,7 @@ void
 NRLib::EliminateLargeCorr(std::vector<NRLib::Point> & pos_known,
                           Vector                    & delta_known,
                           std::vector<double>       & std_known,
-                          const std::vector<double> & local_corr,
+                          std::vector<double>       & local_corr,
                           const Variogram           & vario)
 {
   std::vector<int>                obs_chain_map;
@@ -238,16 +239,19 @@ NRLib::EliminateLargeCorr(std::vector<NRLib::Point> & pos_known,
   std::vector<NRLib::Point> pos_known_used(obs_chains.size());
   Vector                    delta_known_used(static_cast<int>(obs_chains.size()));
   std::vector<double>       std_known_used(obs_chains.size());
+  std::vector<double>       local_corr_used(obs_chains.size());
 
   for(size_t i=0;i<obs_chains.size();i++) {
     //For simplicity, use values from first obs, instead of averaging.
     pos_known_used[i]   = pos_known[obs_chains[i][0]];
     delta_known_used(static_cast<int>(i)) = delta_known(static_cast<int>(obs_chains[i][0]));
     std_known_used[i]   = std_known[obs_chains[i][0]];
+    local_corr_used[i]  = local_corr[obs_chains[i][0]];
   }
   pos_known   = pos_known_used;
   delta_known = delta_known_used;
   std_known   = std_known_used;
+  local_corr  = local_corr_used;
 }
 
 void
@@ -276,7 +280,7 @@ NRLib::IdentifyLargeCorr(const std::vector<NRLib::Point> & pos_known,
             if(local_corr[i] > local_corr[j])
               corr = local_corr[j];
             else if(local_corr[j] > local_corr[i])
-              corr = local_corr[j];
+              corr = local_corr[i];
             else
               corr = 1.0;
             corr *= vario.GetCorr(pos_known[i].x-pos_known[j].x, pos_known[i].y-pos_known[j].y);
diff --git a/src/nrlib/statistics/posteriormultinormal.hpp b/src/nrlib/statistics/posteriormultinormal.hpp
index 9af1a64..0627bbb 100644
--- a/src/nrlib/statistics/posteriormultinormal.hpp
+++ b/src/nrlib/statistics/posteriormultinormal.hpp
@@ -59,7 +59,7 @@ namespace NRLib {
   void EliminateLargeCorr(std::vector<NRLib::Point> & pos_known,
                           Vector                    & delta_known,
                           std::vector<double>       & std_known,
-                          const std::vector<double> & local_corr,
+                          std::vector<double>       & local_corr,
                           const Variogram           & vario);
 
   void IdentifyLargeCorr(const std::vector<NRLib::Point> & pos_known,
-- 
2.43.0


From bb3bd2d9bcf37ccab03d75137ae6275e72f0153c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:26 +0000
Subject: [PATCH 026/198] fix: give the last kriging block the data of the
 cells it covers beyond its nominal size

---
 src/nrlib/statistics/kriging.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/statistics/kriging.cpp b/src/nrlib/statistics/kriging.cpp
index 01e3a68..ddd4710 100644
--- a/src/nrlib/statistics/kriging.cpp
+++ b/src/nrlib/statistics/kriging.cpp
@@ -640,18 +640,19 @@ void Kriging::FindOptimalDataInBlock(const Grid2D<double>          & trend,
         index = i*n_blocks_y + j;
         kriging_data_blocks[index] = kriging_data.NewInstance();
 
+        // The last block in each direction reaches to the end of the grid
         size_t imin_block = i*nxb;
-        size_t imax_block = std::min(static_cast<int>((i+1)*nxb), static_cast<int>(nx));
+        size_t imax_block = (i == n_blocks_x - 1) ? nx : std::min((i+1)*nxb, nx);
         size_t jmin_block = j*nyb;
-        size_t jmax_block = std::min(static_cast<int>((j+1)*nyb), static_cast<int>(ny));
+        size_t jmax_block = (j == n_blocks_y - 1) ? ny : std::min((j+1)*nyb, ny);
         double P_est;
 
         DataInBlockBinarySearch(P_est, P_min, P_max, rx, ry, nx, ny, imin_block, imax_block, jmin_block, jmax_block, true, true, true, true, min_data_in_range, kriging_data, 0.05);
 
         size_t imin_range = std::max(static_cast<int>(std::floor(static_cast<double>(i*nxb)-P_est*static_cast<double>(rx))), 0);
-        size_t imax_range = std::min(static_cast<int>(std::ceil(static_cast<double>((i+1)*nxb)+P_est*static_cast<double>(rx))), static_cast<int>(nx));
+        size_t imax_range = std::min(static_cast<int>(std::ceil(static_cast<double>(imax_block)+P_est*static_cast<double>(rx))), static_cast<int>(nx));
         size_t jmin_range = std::max(static_cast<int>(std::floor(static_cast<double>(j*nyb)-P_est*static_cast<double>(ry))), 0);
-        size_t jmax_range = std::min(static_cast<int>(std::ceil(static_cast<double>((j+1)*nyb)+P_est*static_cast<double>(ry))), static_cast<int>(ny));
+        size_t jmax_range = std::min(static_cast<int>(std::ceil(static_cast<double>(jmax_block)+P_est*static_cast<double>(ry))), static_cast<int>(ny));
 
         kriging_data.AddDataToBlock(*kriging_data_blocks[index], imin_range, imax_range, jmin_range, jmax_range);
 
-- 
2.43.0


From e687d1f6d76781e0b1323e43f498a1a6745c039a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:26 +0000
Subject: [PATCH 027/198] fix: let kriging return zero residuals, and not the
 trend, in blocks without data

---
 src/nrlib/statistics/kriging.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/nrlib/statistics/kriging.cpp b/src/nrlib/statistics/kriging.cpp
index ddd4710..19ede9e 100644
--- a/src/nrlib/statistics/kriging.cpp
+++ b/src/nrlib/statistics/kriging.cpp
@@ -961,6 +961,11 @@ void Kriging::Krig2DBlock(const Grid2D<double>      & trend_orig,
       }
     }
   }
+  else if (md == 0 && get_residuals) { // no data near this block
+    for (int i = imin ; i < imax ; i++)
+      for (int j = jmin ; j < jmax ; j++)
+        trend(i,j) = 0.0;
+  }
 }
 
 //---------------------------------------------------------------
@@ -1075,6 +1080,11 @@ void Kriging::Krig2DBlock(const RegularSurface<double>   & trend_orig,
       }
     }
   }
+  else if (md == 0 && get_residuals) { // no data near this block
+    for (int i = imin ; i < imax ; i++)
+      for (int j = jmin ; j < jmax ; j++)
+        trend(i,j) = 0.0;
+  }
 }
 
 
-- 
2.43.0


From 3222dcbb74c343251d8a64ee50d700d75391d79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:22 +0000
Subject: [PATCH 028/198] fix: sort eigenvalues below -100000 too in Sort3x3

---
 src/nrlib/flens/nrlib_flens.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/flens/nrlib_flens.cpp b/src/nrlib/flens/nrlib_flens.cpp
index a47aecd..8464294 100644
--- a/src/nrlib/flens/nrlib_flens.cpp
+++ b/src/nrlib/flens/nrlib_flens.cpp
@@ -309,7 +309,7 @@ void NRLib::Sort3x3(NRLib::Vector & Eval,
   }
 
   for (int j=0 ; j < 3 ; j++) {
-    double max = -100000.0;
+    double max = -std::numeric_limits<double>::infinity();
     for (int i=0 ; i < 3 ; i++) {
       if (j==0 || (j==1 && i!=index(0)) ||(j==2 && i!=index(0) && i!=index(1))) {
         if (Eval(i) > max) {
-- 
2.43.0


From 68cf305c01c5b1613a39c460dfe6b9ea1e9fca89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:07 +0000
Subject: [PATCH 029/198] fix: let Deserialize2dVector read other types than
 size_t

---
 src/nrlib/iotools/serialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/iotools/serialize.hpp b/src/nrlib/iotools/serialize.hpp
index 2f06a68..9bcc514 100644
--- a/src/nrlib/iotools/serialize.hpp
+++ b/src/nrlib/iotools/serialize.hpp
@@ -98,7 +98,7 @@ void NRLib::Deserialize2dVector(std::istream& istream,
     if (line[0] == end_char)
       break;
     std::vector<std::string> tokens = GetTokens(line);
-    vec.push_back(std::vector<size_t>());
+    vec.push_back(std::vector<T>());
     for (size_t i = 0; i < tokens.size(); ++i) {
       vec[vec.size() - 1].push_back(NRLib::ParseType<T>(tokens[i]));
     }
-- 
2.43.0


From de95c5f6adf0375e25165dc0c81355a474321e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:07 +0000
Subject: [PATCH 030/198] fix: report too few elements in ParseAsciiArrayFast
 instead of repeating the first one

---
 src/nrlib/iotools/stringtools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/iotools/stringtools.hpp b/src/nrlib/iotools/stringtools.hpp
index f8a0e8c..e4f818b 100644
--- a/src/nrlib/iotools/stringtools.hpp
+++ b/src/nrlib/iotools/stringtools.hpp
@@ -202,7 +202,7 @@ I NRLib::ParseAsciiArrayFast(std::string& s, I begin, size_t n)
     }
     *begin = NRLibPrivate::UnsafeParser<T>::ParseType(&s[pos]);
     ++begin;
-    pos = s.find_first_not_of(whitespace, next_pos + 1);
+    pos = (next_pos == s.npos) ? s.npos : s.find_first_not_of(whitespace, next_pos + 1);
     next_pos = s.find_first_of(whitespace, pos + 1);
     ++i;
   }
-- 
2.43.0


From a32f9d7a502e7bf8cd60d8fc9cc2eff5e49fbc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:07 +0000
Subject: [PATCH 031/198] fix: let ReadAsciiArrayFast read an element that ends
 at the end of the file

---
 src/nrlib/iotools/fileio.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/iotools/fileio.hpp b/src/nrlib/iotools/fileio.hpp
index 2d1f490..7fc39c0 100644
--- a/src/nrlib/iotools/fileio.hpp
+++ b/src/nrlib/iotools/fileio.hpp
@@ -516,7 +516,7 @@ I NRLib::ReadAsciiArrayFast(std::istream& stream, I begin, size_t n)
   for (size_t i = 0; i < n; ++i) {
     stream >> *begin;
     ++begin;
-    if ( stream.eof() ) {
+    if ( stream.eof() && stream.fail() ) {
       throw EndOfFile();
     }
     if ( stream.fail() ) {
-- 
2.43.0


From f9b204020defd1fbdae2c72e7e6e42a519574a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:07 +0000
Subject: [PATCH 032/198] fix: replace the whole of the old text, once, in
 Substitute

---
 src/nrlib/iotools/stringtools.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/iotools/stringtools.cpp b/src/nrlib/iotools/stringtools.cpp
index e810b22..7c6e2b1 100644
--- a/src/nrlib/iotools/stringtools.cpp
+++ b/src/nrlib/iotools/stringtools.cpp
@@ -144,11 +144,13 @@ NRLib::Substitute(std::string       & text,
                    const std::string & out,
                    const std::string & in)
 {
-  std::string::size_type len = in.size();
+  if (out.empty())
+    return;
+  std::string::size_type len = out.size();
   std::string::size_type pos = text.find(out);
   while (pos != std::string::npos) {
     text.replace(pos, len, in);
-    pos = text.find(out);
+    pos = text.find(out, pos + in.size());
   }
 }
 
-- 
2.43.0


From 3b6cc12298d80e659c79a7d7e2473b623975ba2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:07 +0000
Subject: [PATCH 033/198] fix: find a quoted token at the start of the text,
 and end at an unterminated one

---
 src/nrlib/iotools/stringtools.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/iotools/stringtools.cpp b/src/nrlib/iotools/stringtools.cpp
index 7c6e2b1..166321e 100644
--- a/src/nrlib/iotools/stringtools.cpp
+++ b/src/nrlib/iotools/stringtools.cpp
@@ -118,7 +118,7 @@ NRLib::GetQuotedTokens(const std::string& s)
   std::istringstream iss(s);
   std::string tmp;
   std::string char_tmp;
-  size_t quotation_last_position = 0;
+  size_t quotation_last_position = std::string::npos;
   while(iss >> tmp) {
     char_tmp = tmp.substr(0, 1);
     if (char_tmp != "\"")
@@ -132,8 +132,8 @@ NRLib::GetQuotedTokens(const std::string& s)
       v.push_back(quotation);
       if (char_tmp == tmp)
         iss >> tmp;
-      while (tmp.substr((tmp.size() - 1), 1) != "\"")
-        iss >> tmp;
+      while (tmp.substr((tmp.size() - 1), 1) != "\"" && iss >> tmp)
+        ;
     }
   }
   return v;
-- 
2.43.0


From fd8f4d9cdf03ad08a0cd5f0480f60069068dc2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:07 +0000
Subject: [PATCH 034/198] fix: read an empty quoted string, and count the line
 of a newline after the quote

---
 src/nrlib/iotools/fileio.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/nrlib/iotools/fileio.cpp b/src/nrlib/iotools/fileio.cpp
index f751ff5..2f4f4a9 100644
--- a/src/nrlib/iotools/fileio.cpp
+++ b/src/nrlib/iotools/fileio.cpp
@@ -421,28 +421,27 @@ void NRLib::ReadNextQuoted(std::istream& stream, char quote, std::string&  s, in
   char c = 0;
 
   int found = 0;
-  while( found == 0 && !stream.eof() ){
-    stream.get(c);
+  while( found == 0 && stream.get(c) ){
     if (c == '\n'){
       line++;
     }
     if (c == quote){
       found++;
-      stream.get(c);
     }
   }
   s ="";
-  while( found == 1  && !stream.eof() ) {
-    s = s+c;
-    stream.get(c);
+  while( found == 1 && stream.get(c) ) {
     if (c == '\n'){
       line++;
     }
     if (c == quote){
       found++;
     }
+    else {
+      s = s+c;
+    }
   }
-  if (s == "")              //We are at end of file if nothing is read.
+  if (found < 2 && s == "") //We are at end of file if nothing is read.
     throw EndOfFile();
 
 }
-- 
2.43.0


From 307e0f73f4a75329c1127b549feaa70864a904f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:07 +0000
Subject: [PATCH 035/198] fix: do not look at uninitialised memory when finding
 the type of a short grid file

---
 src/nrlib/iotools/fileio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/iotools/fileio.cpp b/src/nrlib/iotools/fileio.cpp
index 2f4f4a9..948c261 100644
--- a/src/nrlib/iotools/fileio.cpp
+++ b/src/nrlib/iotools/fileio.cpp
@@ -350,7 +350,7 @@ int NRLib::FindGridFileType(const std::string& filename )
   char buffer[3201];
   if (length > 161) {
     file.read(buffer, 3200);
-    buffer[3200] = '\0';
+    buffer[file.gcount()] = '\0';
   }
   else {
     file.read(buffer, static_cast<std::streamsize>(length));
-- 
2.43.0


From 463856b771b03de4d9f840134fce438ae24690f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:07 +0000
Subject: [PATCH 036/198] fix: report an empty file as not tabular instead of
 reading out of bounds

---
 src/nrlib/iotools/tabularfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/iotools/tabularfile.cpp b/src/nrlib/iotools/tabularfile.cpp
index f19c192..f86f82a 100644
--- a/src/nrlib/iotools/tabularfile.cpp
+++ b/src/nrlib/iotools/tabularfile.cpp
@@ -67,7 +67,7 @@ bool TabularFile::CheckFile(const std::string & filename,
   last_line = FindLastNonEmptyLine(in_file0);
   std::vector<std::string> tokens = GetTokens(last_line);
   read_last_line = true;
-  if (!IsType<double>(tokens[0])) {
+  if (tokens.empty() || !IsType<double>(tokens[0])) {
     read_last_line = false;
   }
   else {
-- 
2.43.0


From 2df874a47cc9cc0b1cd55df02d951dc7d6462a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:34 +0000
Subject: [PATCH 037/198] fix: report short reads from BigFile in the binary
 read functions, and accept empty arrays

---
 src/nrlib/iotools/fileio.hpp | 82 ++++++++++++++++++++++++------------
 1 file changed, 54 insertions(+), 28 deletions(-)

diff --git a/src/nrlib/iotools/fileio.hpp b/src/nrlib/iotools/fileio.hpp
index 7fc39c0..5cbec69 100644
--- a/src/nrlib/iotools/fileio.hpp
+++ b/src/nrlib/iotools/fileio.hpp
@@ -386,6 +386,12 @@ bool IgnoreComment(std::ifstream& file,
 
 
 namespace NRLibPrivate {
+  /// True if all n bytes were read or written, given what read() or write() of a stream returned.
+  inline bool AllDone(const std::ios& stream, size_t /*n*/) { return !stream.fail(); }
+
+  /// As above, for the number of bytes returned by read() and write() of BigFile.
+  inline bool AllDone(size_t n_done, size_t n) { return n_done == n; }
+
   /// \todo Use stdint.h if available.
   // typedef unsigned int uint32_t;
   // typedef unsigned long long uint64_t;
@@ -566,7 +572,7 @@ void NRLib::WriteBinaryShort(F& stream,
     assert(false); // Invalid endianess descriptor
   }
 
-  if (!stream.write(buffer, 2)) {
+  if (!NRLibPrivate::AllDone(stream.write(buffer, 2), 2)) {
     throw Exception("Error writing to stream.");
   }
 }
@@ -581,7 +587,7 @@ short NRLib::ReadBinaryShort(F& stream,
   unsigned short us;
   char buffer[2];
 
-  if (!stream.read(buffer, 2)) {
+  if (!NRLibPrivate::AllDone(stream.read(buffer, 2), 2)) {
     if (stream.eof())
       throw EndOfFile();
     else
@@ -610,6 +616,8 @@ void NRLib::WriteBinaryShortArray(F& stream,
                                   NRLib::Endianess number_representation)
 {
   typename I::difference_type n_in = std::distance(begin, end);
+  if (n_in == 0)
+    return;
 
   std::vector<std::uint16_t> buffer(n_in);
   memcpy(&buffer[0], &begin[0], 2 * n_in);
@@ -627,8 +635,8 @@ void NRLib::WriteBinaryShortArray(F& stream,
     assert(false); // Invalid endianess descriptor
   }
 
-  if (!stream.write(reinterpret_cast<const char*>(&buffer[0]),
-                    static_cast<std::streamsize>(2 * n_in))) {
+  if (!NRLibPrivate::AllDone(stream.write(reinterpret_cast<const char*>(&buffer[0]),
+                    static_cast<std::streamsize>(2 * n_in)), 2 * n_in)) {
     throw Exception("Error writing to stream.");
   }
 }
@@ -640,10 +648,12 @@ I NRLib::ReadBinaryShortArray(F& stream,
                               size_t n,
                               NRLib::Endianess number_representation)
 {
+  if (n == 0)
+    return begin;
   std::vector<std::uint16_t> buffer(n);
 
-  if (!stream.read(reinterpret_cast<char *>(&buffer[0]),
-                   static_cast<std::streamsize>(2 * n))) {
+  if (!NRLibPrivate::AllDone(stream.read(reinterpret_cast<char *>(&buffer[0]),
+                   static_cast<std::streamsize>(2 * n)), 2 * n)) {
     throw Exception("Error reading from stream (f).");
   }
 
@@ -686,7 +696,7 @@ void NRLib::WriteBinaryInt(F& stream,
     throw Exception("Invalid file format.");
   }
 
-  if (!stream.write(buffer, 4)) {
+  if (!NRLibPrivate::AllDone(stream.write(buffer, 4), 4)) {
     throw Exception("Error writing to stream.");
   }
 }
@@ -701,7 +711,7 @@ int NRLib::ReadBinaryInt(F& stream,
   unsigned int ui;
   char buffer[4];
 
-  if (!stream.read(buffer, 4)) {
+  if (!NRLibPrivate::AllDone(stream.read(buffer, 4), 4)) {
     if (stream.eof())
       throw EndOfFile();
     else
@@ -730,6 +740,8 @@ void NRLib::WriteBinaryIntArray(F& stream,
                                 NRLib::Endianess number_representation)
 {
   typename I::difference_type n_in = std::distance(begin, end);
+  if (n_in == 0)
+    return;
 
   std::vector<std::uint32_t> buffer(n_in);
   memcpy(&buffer[0], &begin[0], 4 * n_in);
@@ -747,8 +759,8 @@ void NRLib::WriteBinaryIntArray(F& stream,
     assert(false); // Invalid endianess descriptor
   }
 
-  if (!stream.write(reinterpret_cast<const char*>(&buffer[0]),
-                    static_cast<std::streamsize>(4 * n_in))) {
+  if (!NRLibPrivate::AllDone(stream.write(reinterpret_cast<const char*>(&buffer[0]),
+                    static_cast<std::streamsize>(4 * n_in)), 4 * n_in)) {
     throw Exception("Error writing to stream.");
   }
 }
@@ -760,10 +772,12 @@ I NRLib::ReadBinaryIntArray(F& stream,
                             size_t n,
                             NRLib::Endianess number_representation)
 {
+  if (n == 0)
+    return begin;
   std::vector<std::uint32_t> buffer(n);
 
-  if (!stream.read(reinterpret_cast<char *>(&buffer[0]),
-                   static_cast<std::streamsize>(4 * n))) {
+  if (!NRLibPrivate::AllDone(stream.read(reinterpret_cast<char *>(&buffer[0]),
+                   static_cast<std::streamsize>(4 * n)), 4 * n)) {
     throw Exception("Error reading from stream (g).");
   }
 
@@ -806,7 +820,7 @@ void NRLib::WriteBinaryFloat(F& stream,
     throw Exception("Invalid file format.");
   }
 
-  if (!stream.write(buffer, 4)) {
+  if (!NRLibPrivate::AllDone(stream.write(buffer, 4), 4)) {
     throw Exception("Error writing to stream.");
   }
 }
@@ -821,7 +835,7 @@ float NRLib::ReadBinaryFloat(F& stream,
   float f;
   char buffer[4];
 
-  if (!stream.read(buffer, 4)) {
+  if (!NRLibPrivate::AllDone(stream.read(buffer, 4), 4)) {
     if (stream.eof())
       throw EndOfFile();
     else
@@ -850,6 +864,8 @@ void NRLib::WriteBinaryFloatArray(F& stream,
                                   NRLib::Endianess number_representation)
 {
   typename I::difference_type n_in = std::distance(begin, end);
+  if (n_in == 0)
+    return;
 
   std::vector<std::uint32_t> buffer(n_in);
 
@@ -868,8 +884,8 @@ void NRLib::WriteBinaryFloatArray(F& stream,
     assert(false); // Invalid endianess descriptor
   }
 
-  if (!stream.write(reinterpret_cast<const char*>(&buffer[0]),
-                    static_cast<std::streamsize>(4 * n_in))) {
+  if (!NRLibPrivate::AllDone(stream.write(reinterpret_cast<const char*>(&buffer[0]),
+                    static_cast<std::streamsize>(4 * n_in)), 4 * n_in)) {
     throw Exception("Error writing to stream.");
   }
 }
@@ -881,9 +897,11 @@ I NRLib::ReadBinaryFloatArray(F& stream,
                               size_t n,
                               NRLib::Endianess number_representation)
 {
+  if (n == 0)
+    return begin;
   std::vector<std::uint32_t> buffer(n);
 
-  if (!stream.read(reinterpret_cast<char *>(&buffer[0]), static_cast<std::streamsize>(4*n))) {
+  if (!NRLibPrivate::AllDone(stream.read(reinterpret_cast<char *>(&buffer[0]), static_cast<std::streamsize>(4 * n)), 4 * n)) {
     throw Exception("Error reading from stream (h).");
   }
 
@@ -931,7 +949,7 @@ void NRLib::WriteBinaryDouble(F& stream,
     throw Exception("Invalid file format.");
   }
 
-  if (!stream.write(buffer, 8)) {
+  if (!NRLibPrivate::AllDone(stream.write(buffer, 8), 8)) {
     throw Exception("Error writing to stream.");
   }
 }
@@ -946,7 +964,7 @@ double NRLib::ReadBinaryDouble(F& stream,
   double d;
   char buffer[8];
 
-  if (!stream.read(buffer, 8)) {
+  if (!NRLibPrivate::AllDone(stream.read(buffer, 8), 8)) {
     if (stream.eof())
       throw EndOfFile();
     else
@@ -975,6 +993,8 @@ void NRLib::WriteBinaryDoubleArray(F& stream,
                                    NRLib::Endianess number_representation)
 {
   typename I::difference_type n_in = std::distance(begin, end);
+  if (n_in == 0)
+    return;
   std::vector<std::uint64_t> buffer(n_in);
 
   memcpy(&buffer[0], &begin[0], 8 * n_in);
@@ -992,8 +1012,8 @@ void NRLib::WriteBinaryDoubleArray(F& stream,
     assert(false); // Invalid endianess descriptor
   }
 
-  if (!stream.write(reinterpret_cast<const char*>(&buffer[0]),
-                    static_cast<std::streamsize>(8 * n_in))) {
+  if (!NRLibPrivate::AllDone(stream.write(reinterpret_cast<const char*>(&buffer[0]),
+                    static_cast<std::streamsize>(8 * n_in)), 8 * n_in)) {
     throw Exception("Error writing to stream.");
   }
 }
@@ -1005,10 +1025,12 @@ I NRLib::ReadBinaryDoubleArray(F& stream,
                                size_t n,
                                NRLib::Endianess number_representation)
 {
+  if (n == 0)
+    return begin;
   std::vector<std::uint64_t> buffer(n);
 
-  if (!stream.read(reinterpret_cast<char *>(&buffer[0]),
-                   static_cast<std::streamsize>(8 * n))) {
+  if (!NRLibPrivate::AllDone(stream.read(reinterpret_cast<char *>(&buffer[0]),
+                   static_cast<std::streamsize>(8 * n)), 8 * n)) {
     throw Exception("Error reading from stream (i).");
   }
 
@@ -1038,6 +1060,8 @@ void NRLib::WriteBinaryIbmFloatArray(F& stream,
                                      NRLib::Endianess number_representation)
 {
   typename I::difference_type n_in = std::distance(begin, end);
+  if (n_in == 0)
+    return;
   std::vector<std::uint32_t> buffer(n_in);
 
   memcpy(&buffer[0], &begin[0], 4 * n_in);
@@ -1058,8 +1082,8 @@ void NRLib::WriteBinaryIbmFloatArray(F& stream,
     assert(false); // Invalid endianess descriptor
   }
 
-  if (!stream.write(reinterpret_cast<const char*>(&buffer[0]),
-                    static_cast<std::streamsize>(4 * n_in))) {
+  if (!NRLibPrivate::AllDone(stream.write(reinterpret_cast<const char*>(&buffer[0]),
+                    static_cast<std::streamsize>(4 * n_in)), 4 * n_in)) {
     throw Exception("Error writing to stream.");
   }
 }
@@ -1071,10 +1095,12 @@ I NRLib::ReadBinaryIbmFloatArray(F& stream,
                                  size_t n,
                                  NRLib::Endianess number_representation)
 {
+  if (n == 0)
+    return begin;
   std::vector<std::uint32_t> buffer(n);
 
   std::string error;
-  if (!stream.read(reinterpret_cast<char *>(&buffer[0]), static_cast<std::streamsize>(4*n))) {
+  if (!NRLibPrivate::AllDone(stream.read(reinterpret_cast<char *>(&buffer[0]), static_cast<std::streamsize>(4 * n)), 4 * n)) {
     if (stream.eof())
       error = "Error reading binary IBM float array. Trying to read 4*" + NRLib::ToString(n) + " elements when end-of-file was reached.\n";
     else {
@@ -1126,7 +1152,7 @@ void NRLib::WriteBinaryIbmFloat(F& stream,
     assert(false); // Invalid endianess descriptor
   }
 
-  if (!stream.write(buffer, 4)) {
+  if (!NRLibPrivate::AllDone(stream.write(buffer, 4), 4)) {
     throw Exception("Error writing to stream.");
   }
 }
@@ -1139,7 +1165,7 @@ float NRLib::ReadBinaryIbmFloat(F& stream,
   float f = 0.0;
   char buffer[4];
 
-  if (!stream.read(buffer, 4)) {
+  if (!NRLibPrivate::AllDone(stream.read(buffer, 4), 4)) {
     if (stream.eof())
       throw EndOfFile();
     else
-- 
2.43.0


From 01b9694230ae8169fd7e0a5a1804f558ec81ca22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:34 +0000
Subject: [PATCH 038/198] fix: keep the target of CopyFile when there is
 nothing to copy, or when it is the source

---
 src/nrlib/iotools/fileio.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/iotools/fileio.cpp b/src/nrlib/iotools/fileio.cpp
index 948c261..ce6fc3f 100644
--- a/src/nrlib/iotools/fileio.cpp
+++ b/src/nrlib/iotools/fileio.cpp
@@ -167,8 +167,14 @@ void NRLib::CopyFile(const std::string & from_path,
                      const std::string & to_path,
                      bool                allow_overwrite)
 {
-  if (allow_overwrite)
+  if (!boost::filesystem::exists(from_path))
+    throw IOError("Failed to open " + from_path + " for reading: File does not exist.");
+
+  if (allow_overwrite) {
+    if (boost::filesystem::exists(to_path) && boost::filesystem::equivalent(from_path, to_path))
+      return;
     RemoveFile(to_path);
+  }
   else {
     if (boost::filesystem::exists(to_path))
       throw IOError("Failed to open " + to_path + " for writing: The file already exists.");
-- 
2.43.0


From 9561d0fa4863759a2c26d4fa8eab26e9f3a69bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:34 +0000
Subject: [PATCH 039/198] fix: do not overflow a fixed buffer with long
 formatted log messages

---
 src/nrlib/iotools/logkit.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/nrlib/iotools/logkit.cpp b/src/nrlib/iotools/logkit.cpp
index 8199a79..2596276 100644
--- a/src/nrlib/iotools/logkit.cpp
+++ b/src/nrlib/iotools/logkit.cpp
@@ -21,6 +21,7 @@
 
 #include <algorithm>
 #include <cstdarg>
+#include <cstdio>
 #include <iostream>
 
 #include "fileio.hpp"
@@ -157,25 +158,37 @@ LogKit::LogMessage(int level, int phase, const std::string & message) {
 }
 
 
+static std::string
+FormatMessage(const char* format, va_list ap) {
+  va_list ap_copy;
+  va_copy(ap_copy, ap);
+  int length = vsnprintf(NULL, 0, format, ap_copy);
+  va_end(ap_copy);
+  if (length < 0)
+    return "";
+  std::vector<char> message(length + 1);
+  vsnprintf(&message[0], message.size(), format, ap);
+  return std::string(&message[0], length);
+}
+
+
 void
 LogKit::LogFormatted(int level, const char* format, ...) {
   va_list ap;
-  char message[5000];
   va_start(ap, format);
-  vsprintf(message, format, ap);
+  std::string message = FormatMessage(format, ap);
   va_end(ap);
-  LogMessage(level, std::string(message));
+  LogMessage(level, message);
 }
 
 
 void
 LogKit::LogFormatted(int level, int phase, const char* format, ...) {
   va_list ap;
-  char message[1000];
   va_start(ap, format);
-  vsprintf(message, format, ap);
+  std::string message = FormatMessage(format, ap);
   va_end(ap);
-  LogMessage(level, phase, std::string(message));
+  LogMessage(level, phase, message);
 }
 
 
-- 
2.43.0


From fbe8630389fdffc6e858352f7c080fe3b2f89dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:43 +0000
Subject: [PATCH 040/198] fix: leave the end of file to be seen after
 SkipComments

---
 src/nrlib/iotools/fileio.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/iotools/fileio.cpp b/src/nrlib/iotools/fileio.cpp
index ce6fc3f..d27802f 100644
--- a/src/nrlib/iotools/fileio.cpp
+++ b/src/nrlib/iotools/fileio.cpp
@@ -298,7 +298,7 @@ void NRLib::SkipComments(std::istream & stream,
   bool comment = true;
 
   while (comment == true && stream.good()) {
-    char c;
+    char c = ' ';
 
     while(stream.get(c) && std::isspace(c, loc)) {
       if (c == '\n')
@@ -310,7 +310,8 @@ void NRLib::SkipComments(std::istream & stream,
       line_num++;
     }
     else {
-      stream.unget();
+      if (stream.good())
+        stream.unget();
       comment = false;
     }
   }
-- 
2.43.0


From 2c7e1d27f59eda2c0a9745435cfe39ca9595813b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:23 +0000
Subject: [PATCH 041/198] fix: let PrependDir return empty and complete paths
 unchanged, as documented

---
 src/nrlib/iotools/stringtools.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nrlib/iotools/stringtools.cpp b/src/nrlib/iotools/stringtools.cpp
index 166321e..150f7d2 100644
--- a/src/nrlib/iotools/stringtools.cpp
+++ b/src/nrlib/iotools/stringtools.cpp
@@ -67,6 +67,8 @@ std::string
 NRLib::PrependDir(const std::string& prefix,
                    const std::string& str)
 {
+  if (str.empty() || boost::filesystem::path(str).has_root_directory())
+    return str;
   boost::filesystem::path path(prefix);
   path /= str;
   return path.string();
-- 
2.43.0


From 7849e5f4fe585e73c3b530a8217d815abf03e161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:14 +0000
Subject: [PATCH 042/198] fix: resample a rotated surface at the nodes of the
 resampled surface

---
 src/nrlib/surface/regularsurfacerotated.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nrlib/surface/regularsurfacerotated.hpp b/src/nrlib/surface/regularsurfacerotated.hpp
index 5f00431..ab3f75c 100644
--- a/src/nrlib/surface/regularsurfacerotated.hpp
+++ b/src/nrlib/surface/regularsurfacerotated.hpp
@@ -470,8 +470,7 @@ RegularSurface<A> RegularSurfaceRotated<A>::ResampleSurface() const
   for(i=0;i<nx;i++)
     for(j=0;j<ny;j++)
     {
-      x = x_min_ + i*dx;
-      y = y_min_ + j*dy;
+      surf.GetXY(i, j, x, y);
       value = GetZ(x,y);
       surf(i,j) = value;
     }
-- 
2.43.0


From aba645d21a6d457203051675a49f4019426e04a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:14 +0000
Subject: [PATCH 043/198] fix: update the extent of a rotated surface when its
 angle is set

---
 src/nrlib/surface/regularsurfacerotated.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/surface/regularsurfacerotated.hpp b/src/nrlib/surface/regularsurfacerotated.hpp
index ab3f75c..28b3041 100644
--- a/src/nrlib/surface/regularsurfacerotated.hpp
+++ b/src/nrlib/surface/regularsurfacerotated.hpp
@@ -150,7 +150,7 @@ public:
   RegularSurface<A> ResampleSurface() const ;
 
   double GetAngle() const       { return angle_  ;}
-  void   SetAngle(double angle) { angle_ = angle ;}
+  void   SetAngle(double angle) { angle_ = angle ; CalculateMinMaxXY() ;}
 
   A GetMissingValue() const { return surface_.GetMissingValue() ;}
   void SetMissingValue(A missing_val) { surface_.SetMissingValue(missing_val); }
-- 
2.43.0


From 33877a9162d4ce3d9402fd4c3fa61e23d2cb74d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:14 +0000
Subject: [PATCH 044/198] fix: find the binary file of a Sgri header without
 white space after the name, or without directory

---
 src/nrlib/surface/surfaceio.cpp | 14 ++------------
 src/nrlib/surface/surfaceio.hpp | 14 ++------------
 2 files changed, 4 insertions(+), 24 deletions(-)

diff --git a/src/nrlib/surface/surfaceio.cpp b/src/nrlib/surface/surfaceio.cpp
index 815a1f8..111355f 100644
--- a/src/nrlib/surface/surfaceio.cpp
+++ b/src/nrlib/surface/surfaceio.cpp
@@ -198,21 +198,11 @@ ReadMultipleSgriSurf(const std::string& filename, const std::vector<std::string>
     //Reading record 11+dim+ngrid: Filename of binary file
     std::string bin_file_name;
     getline(header_file, tmp_str);
-    if (!tmp_str.empty()) {
-      std::locale loc;
-      i = 0;
-      char c = tmp_str[i];
-      while (!std::isspace(c,loc)) {
-        i++;
-        c = tmp_str[i];
-      }
-      tmp_str.erase(tmp_str.begin()+i, tmp_str.end());
-    }
+    tmp_str = tmp_str.substr(0, tmp_str.find_first_of(Whitespace()));
     if (tmp_str.empty())
       bin_file_name = NRLib::ReplaceExtension(filename, "Sgri");
     else {
-      std::string path = GetPath(filename);
-      bin_file_name = path + "/" + tmp_str;
+      bin_file_name = PrependDir(GetPath(filename), tmp_str);
     }
     //Reading record 12+dim+ngrid: Complex values
     bool has_complex;
diff --git a/src/nrlib/surface/surfaceio.hpp b/src/nrlib/surface/surfaceio.hpp
index ab8f4d9..773355f 100644
--- a/src/nrlib/surface/surfaceio.hpp
+++ b/src/nrlib/surface/surfaceio.hpp
@@ -332,21 +332,11 @@ void  NRLib::ReadSgriSurf(const std::string & filename,
     //Reading record 11+dim+ngrid: Filename of binary file
     std::string bin_file_name;
     getline(header_file, tmp_str);
-    if (!tmp_str.empty()) {
-      std::locale loc;
-      int i = 0;
-      char c = tmp_str[i];
-      while (!std::isspace(c,loc)) {
-        i++;
-        c = tmp_str[i];
-      }
-      tmp_str.erase(tmp_str.begin()+i, tmp_str.end());
-    }
+    tmp_str = tmp_str.substr(0, tmp_str.find_first_of(Whitespace()));
     if (tmp_str.empty())
       bin_file_name = NRLib::ReplaceExtension(filename, "Sgri");
     else {
-      std::string path = GetPath(filename);
-      bin_file_name = path + "/" + tmp_str;
+      bin_file_name = PrependDir(GetPath(filename), tmp_str);
     }
     //Reading record 12+dim+ngrid: Complex values
     bool has_complex;
-- 
2.43.0


From fb8d3a3a27785f69522b5f2eba36a9d6719cd560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:14 +0000
Subject: [PATCH 045/198] fix: throw when the axis labels of a Sgri file are
 not the expected ones, as documented

---
 src/nrlib/surface/surfaceio.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/surface/surfaceio.cpp b/src/nrlib/surface/surfaceio.cpp
index 111355f..a5eec1d 100644
--- a/src/nrlib/surface/surfaceio.cpp
+++ b/src/nrlib/surface/surfaceio.cpp
@@ -121,12 +121,12 @@ ReadMultipleSgriSurf(const std::string& filename, const std::vector<std::string>
     for (i=0; i<dim; i++) {
       getline(header_file, axis_labels[i]);
       if(labels.size() > static_cast<size_t>(i)) {
-        NRLib::Uppercase(axis_labels[i]);
-        NRLib::Uppercase(labels[i]);
-        if (axis_labels[i].find(labels[i]) == std::string::npos)
+        if (NRLib::Uppercase(axis_labels[i]).find(NRLib::Uppercase(labels[i])) == std::string::npos)
           err_txt += "Wrong axis labels. Label for axis "+NRLib::ToString(i)+" should be '"+labels[i]+"'.\n";
       }
     }
+    if (!err_txt.empty())
+      throw Exception(err_txt);
     getline(header_file, tmp_str);
 
     //Reading record 4+dim: Number of grids
-- 
2.43.0


From d4a37d3b506db9b603d57d8f442cd79a2aba0e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:14 +0000
Subject: [PATCH 046/198] fix: do not throw on other files with two words on
 the first line in FindHufsaTrends

---
 src/nrlib/surface/surfaceio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/surface/surfaceio.cpp b/src/nrlib/surface/surfaceio.cpp
index a5eec1d..78c9ae8 100644
--- a/src/nrlib/surface/surfaceio.cpp
+++ b/src/nrlib/surface/surfaceio.cpp
@@ -242,7 +242,7 @@ bool FindHufsaTrends(const std::string& filename)
   std::vector<std::string> tokens = NRLib::GetTokens(line_string);
 
   //Check if the first line has two number elements
-  if (tokens.size() == 2 && NRLib::IsNumber(tokens[1])) {
+  if (tokens.size() == 2 && NRLib::IsType<int>(tokens[0]) && NRLib::IsType<int>(tokens[1])) {
     int n_row = NRLib::ParseType<int>(tokens[0]);
     int n_col = NRLib::ParseType<int>(tokens[1]);
     std::getline(file, line_string);
-- 
2.43.0


From 55cd23b1eec6bb55d056dfb56ca50b369c5fbe84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:40 +0000
Subject: [PATCH 047/198] fix: angle between parallel vectors was NaN when
 rounding took the cosine outside [-1, 1]

---
 src/nrlib/geometry/point.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/geometry/point.cpp b/src/nrlib/geometry/point.cpp
index c884158..7a7b8fd 100644
--- a/src/nrlib/geometry/point.cpp
+++ b/src/nrlib/geometry/point.cpp
@@ -63,7 +63,7 @@ double Point::GetAngle(const Point& p_in) const
   double norm = Norm()*p_in.Norm();
   if (norm > 0.0) {
     loc = this->Dot(p_in) / norm;
-    return std::acos(loc);
+    return std::acos(std::max(-1.0, std::min(1.0, loc))); // loc may be rounded to outside [-1, 1].
   }
   else
     return 0.0;   // returning unvalid value
-- 
2.43.0


From 447415a505662f17c86d308cfa1a06cc06c9937f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:40 +0000
Subject: [PATCH 048/198] fix: find the side of a line also for points that
 project beyond its second point

---
 src/nrlib/geometry/line.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/geometry/line.cpp b/src/nrlib/geometry/line.cpp
index 24aa2f8..1523a5f 100644
--- a/src/nrlib/geometry/line.cpp
+++ b/src/nrlib/geometry/line.cpp
@@ -97,7 +97,7 @@ double Line::FindDistanceAndSide(const Point& p_in, bool& right_side) const
 {
   Point  proj_pt   = FindProjection(p_in);
   Point  side_vec  = p_in - proj_pt;
-  Point  line_vec  = p2_  - proj_pt;
+  Point  line_vec  = p2_  - p1_;
   Point  cross     = side_vec.Cross(line_vec);
   if (cross.z >= 0) //true also if it is exact on line
     right_side = true;
-- 
2.43.0


From 177c2b489466e54b91e4d40b69d76d83934a4677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:40 +0000
Subject: [PATCH 049/198] fix: let lines with the same direction be parallel
 with the default tolerance 0

---
 src/nrlib/geometry/line.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/geometry/line.cpp b/src/nrlib/geometry/line.cpp
index 1523a5f..36b2a4d 100644
--- a/src/nrlib/geometry/line.cpp
+++ b/src/nrlib/geometry/line.cpp
@@ -144,7 +144,7 @@ bool Line::IsPointOnLine(const Point& p_in, double min_in) const
 
 bool Line::IsParallel(const Line& line_in, double min_in) const
 {
-  if (Cross(GetDir(), line_in.GetDir()).Norm() < min_in) // true -> parallel
+  if (Cross(GetDir(), line_in.GetDir()).Norm() <= min_in) // true -> parallel
     return true;
   else
     return false;
-- 
2.43.0


From a0c126b163be81208bd7858c4aefc80a77756284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:40 +0000
Subject: [PATCH 050/198] fix: find the distance from a line to a line segment
 of no length

---
 src/nrlib/geometry/line.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/nrlib/geometry/line.cpp b/src/nrlib/geometry/line.cpp
index 36b2a4d..61189a9 100644
--- a/src/nrlib/geometry/line.cpp
+++ b/src/nrlib/geometry/line.cpp
@@ -176,6 +176,14 @@ double Line::FindDistance(const Line   & line_in,
     sd = 1;     // Don't divide on 0.
     tn = e;
     td = c;
+    if (c == 0 && a > 0) { // line_in is a point. We use its projection on this line.
+      sn = -d;
+      sd = a;
+      if (IsEndPt1() && sn < 0)
+        sn = 0;
+      else if (IsEndPt2() && sn > sd)
+        sn = sd;
+    }
   }
   else {
     sn = b*e - c*d;
-- 
2.43.0


From 53594f96539b92c26c2170eb9e152bdd78908b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:40 +0000
Subject: [PATCH 051/198] fix: find the point inside a triangle that is nearest
 the end of a ray or line segment

---
 src/nrlib/geometry/triangle.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/nrlib/geometry/triangle.cpp b/src/nrlib/geometry/triangle.cpp
index 5c181ef..aba1c5c 100644
--- a/src/nrlib/geometry/triangle.cpp
+++ b/src/nrlib/geometry/triangle.cpp
@@ -136,6 +136,21 @@ double Triangle::FindNearestPoint(const Line& line, Point& nearest_pt) const
     nearest_pt = pt;
   }
 
+  // The end points of the line may be nearer the inside of the triangle than the edges.
+  Point normal = NRLib::Cross(p2_ - p1_, p3_ - p1_);
+  if (normal != Point(0.0, 0.0, 0.0)) {
+    if (line.IsEndPt1() && FindIntersection(Line::InfiniteLine(line.GetPt1(), normal), pt, true)
+        && pt.GetDistance(line.GetPt1()) < min_dist) {
+      min_dist   = pt.GetDistance(line.GetPt1());
+      nearest_pt = pt;
+    }
+    if (line.IsEndPt2() && FindIntersection(Line::InfiniteLine(line.GetPt2(), normal), pt, true)
+        && pt.GetDistance(line.GetPt2()) < min_dist) {
+      min_dist   = pt.GetDistance(line.GetPt2());
+      nearest_pt = pt;
+    }
+  }
+
   return min_dist;
 }
 
-- 
2.43.0


From 59bde5270fbf91ce05ef29d0fd3f6dc36811a32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:40 +0000
Subject: [PATCH 052/198] fix: include the edge from the last to the first
 point when finding the orientation of a polygon

---
 src/nrlib/geometry/polygon.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/geometry/polygon.cpp b/src/nrlib/geometry/polygon.cpp
index fd65aa7..deb46f4 100644
--- a/src/nrlib/geometry/polygon.cpp
+++ b/src/nrlib/geometry/polygon.cpp
@@ -92,7 +92,10 @@ bool Polygon::IsInsidePolygonXY(double x, double y)  const
 
 bool Polygon::IsCounterclockwise()
 {
-  double doublearea=0;
+  if (polygon_points_.empty())
+    return true;
+  const Point & last = polygon_points_.back();
+  double doublearea=last.x*polygon_points_[0].y-last.y*polygon_points_[0].x;
   for (size_t i=0; i<(polygon_points_.size()-1) ;i++) {
     doublearea+=polygon_points_[i].x*polygon_points_[i+1].y-polygon_points_[i].y*polygon_points_[i+1].x;
   }
-- 
2.43.0


From e8cb259cd07e0fd941d150039e398cc05b343630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:40 +0000
Subject: [PATCH 053/198] fix: include the last but one edge in the
 circumference of a polygon

---
 src/nrlib/geometry/polygon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/geometry/polygon.cpp b/src/nrlib/geometry/polygon.cpp
index deb46f4..2145dce 100644
--- a/src/nrlib/geometry/polygon.cpp
+++ b/src/nrlib/geometry/polygon.cpp
@@ -342,7 +342,7 @@ Polygon::GetCircumferenceXY() const
   size_t poly_size = poly.GetSize();
   double poly_circ = (poly[poly_size-1] - poly[0]).Norm();
 
-  for (size_t i = 0; i < poly_size - 2; i++){
+  for (size_t i = 0; i + 1 < poly_size; i++){
     poly_circ += (poly[i+1] - poly[i]).Norm();
   }
   return poly_circ;
-- 
2.43.0


From 2184fdcc2e6b07c661c870197f0bd9476a547d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:40 +0000
Subject: [PATCH 054/198] fix: do not read out of bounds when splining through
 two points

---
 src/nrlib/geometry/interpolation.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/geometry/interpolation.cpp b/src/nrlib/geometry/interpolation.cpp
index def427d..933d26d 100644
--- a/src/nrlib/geometry/interpolation.cpp
+++ b/src/nrlib/geometry/interpolation.cpp
@@ -124,8 +124,10 @@ std::vector<double> Interpolation::Spline1D(const std::vector<double> &x_in,
 
   std::vector<double> u(n_in, 0.0);
   std::vector<double> v(n_in, 0.0);
-  u[1] = 2.0*(h[0] + h[1]);
-  v[1] = b[1] - b[0];
+  if (n_in > 2) {
+    u[1] = 2.0*(h[0] + h[1]);
+    v[1] = b[1] - b[0];
+  }
   for (size_t i = 2; i < n_in - 1; ++i) {
     u[i] = 2.0*(h[i] + h[i-1]) - h[i-1]*h[i-1]/u[i-1];
     v[i] = b[i] - b[i-1] - h[i-1]*v[i-1]/u[i-1];
-- 
2.43.0


From 36ce4632fa21ad861ee93ce06181111fa57a06db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:40 +0000
Subject: [PATCH 055/198] fix: find each intersection with a box once when the
 line goes through its edges or corners

---
 src/nrlib/geometry/box.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/nrlib/geometry/box.cpp b/src/nrlib/geometry/box.cpp
index 857a2de..850c96c 100644
--- a/src/nrlib/geometry/box.cpp
+++ b/src/nrlib/geometry/box.cpp
@@ -57,6 +57,16 @@ Box::Box(const Point& refpt, double lengthx, double lengthy, double lengthz, dou
 {
 }
 
+// A line through an edge or corner of the box intersects several sides at the same point.
+static void AddIfNew(const Point& p, std::vector<Point>& points)
+{
+  for (size_t i = 0; i < points.size(); ++i) {
+    if (p.IsEqual(points[i]))
+      return;
+  }
+  points.push_back(p);
+}
+
 std::vector<Point> Box::FindIntersections(const NRLib::Line& line) const
 {
   std::vector<Point> intersections;
@@ -68,42 +78,42 @@ std::vector<Point> Box::FindIntersections(const NRLib::Line& line) const
   Point p;
   if (side.FindIntersection(line_loc, p)) {
     if (p.y >= 0.0 && p.y <= lengthy_ && p.z >= 0.0 && p.z <= lengthz_) {
-      intersections.push_back(p);
+      AddIfNew(p, intersections);
     }
   }
 
   side = Plane(Point(lengthx_, 0, 0), Point(1, 0, 0));
   if (side.FindIntersection(line_loc, p)) {
     if (p.y >= 0.0 && p.y <= lengthy_ && p.z >= 0.0 && p.z <= lengthz_) {
-      intersections.push_back(p);
+      AddIfNew(p, intersections);
     }
   }
 
   side = Plane(Point(0, 0, 0), Point(0, 1, 0));
   if (side.FindIntersection(line_loc, p)) {
     if (p.x >= 0.0 && p.x <= lengthx_ && p.z >= 0.0 && p.z <= lengthz_) {
-      intersections.push_back(p);
+      AddIfNew(p, intersections);
     }
   }
 
   side = Plane(Point(0, lengthy_, 0), Point(0, 1, 0));
   if (side.FindIntersection(line_loc, p)) {
     if (p.x >= 0.0 && p.x <= lengthx_ && p.z >= 0.0 && p.z <= lengthz_) {
-      intersections.push_back(p);
+      AddIfNew(p, intersections);
     }
   }
 
   side = Plane(Point(0, 0, 0), Point(0, 0, 1));
   if (side.FindIntersection(line_loc, p)) {
     if (p.x >= 0.0 && p.x <= lengthx_ && p.y >= 0.0 && p.y <= lengthy_) {
-      intersections.push_back(p);
+      AddIfNew(p, intersections);
     }
   }
 
   side = Plane(Point(0, 0, lengthz_), Point(0, 0, 1));
   if (side.FindIntersection(line_loc, p)) {
     if (p.x >= 0.0 && p.x <= lengthx_ && p.y >= 0.0 && p.y <= lengthy_) {
-      intersections.push_back(p);
+      AddIfNew(p, intersections);
     }
   }
 
-- 
2.43.0


From 3f9e4c53ad4f490969b64940e64f23e22ccaa423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:11 +0000
Subject: [PATCH 056/198] fix: copy the tolerance of a volume in its copy
 constructor

---
 src/nrlib/volume/volume.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/volume/volume.cpp b/src/nrlib/volume/volume.cpp
index 9082607..45cdc9f 100644
--- a/src/nrlib/volume/volume.cpp
+++ b/src/nrlib/volume/volume.cpp
@@ -118,7 +118,7 @@ Volume::Volume(const Volume & volume)
   else {
     erosion_bot_ = 0;
   }
-  tolerance_   = 1e-6;
+  tolerance_   = volume.tolerance_;
 }
 
 
-- 
2.43.0


From c1ebda0a0bc14b2268ebad5128f969899e28e294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:11 +0000
Subject: [PATCH 057/198] fix: take the rotation into account when finding the
 center of a volume

---
 src/nrlib/volume/volume.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nrlib/volume/volume.cpp b/src/nrlib/volume/volume.cpp
index 45cdc9f..c6047cf 100644
--- a/src/nrlib/volume/volume.cpp
+++ b/src/nrlib/volume/volume.cpp
@@ -328,8 +328,7 @@ Volume::GetZExtreme(size_t nx, size_t ny, const Surface<double> * surf, bool get
 void
 Volume::FindCenter(double & x, double & y, double & z) const
 {
-  x = GetXMin() + 0.5 * GetLX();
-  y = GetYMin() + 0.5 * GetLY();
+  LocalToGlobalCoord(0.5 * GetLX(), 0.5 * GetLY(), x, y);
   z = 0.5 * (z_top_->GetZ(x,y) + z_bot_->GetZ(x,y));
 }
 
-- 
2.43.0


From 9f8fb98c7e162c599fa556798508b26bad6b826a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:11 +0000
Subject: [PATCH 058/198] fix: allow setting the surfaces of a volume to
 surfaces it already has

---
 src/nrlib/volume/volume.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/nrlib/volume/volume.cpp b/src/nrlib/volume/volume.cpp
index c6047cf..432ca76 100644
--- a/src/nrlib/volume/volume.cpp
+++ b/src/nrlib/volume/volume.cpp
@@ -206,11 +206,15 @@ void Volume::SetSurfaces(const Surface<double>& top_surf,
                          const Surface<double>& bot_surf,
                          bool  skip_check)
 {
+  // Clone before deleting, as the new surfaces can be the ones we have.
+  Surface<double>* new_top = top_surf.Clone();
+  Surface<double>* new_bot = bot_surf.Clone();
+
   delete z_top_;
-  z_top_ = top_surf.Clone();
+  z_top_ = new_top;
 
   delete z_bot_;
-  z_bot_ = bot_surf.Clone();
+  z_bot_ = new_bot;
 
   if ((lx_ > 0.0 || ly_ > 0.0 ) && skip_check == false) { //Make sure area is set, and we need to check
     CheckSurfaces();
@@ -225,17 +229,23 @@ void Volume::SetSurfaces(const Surface<double>& top_surf,
                          const Surface<double>& erosion_top,
                          const Surface<double>& erosion_bot)
 {
+  // Clone before deleting, as the new surfaces can be the ones we have.
+  Surface<double>* new_top         = top_surf.Clone();
+  Surface<double>* new_bot         = bot_surf.Clone();
+  Surface<double>* new_erosion_top = erosion_top.Clone();
+  Surface<double>* new_erosion_bot = erosion_bot.Clone();
+
   delete z_top_;
-  z_top_ = top_surf.Clone();
+  z_top_ = new_top;
 
   delete z_bot_;
-  z_bot_ = bot_surf.Clone();
+  z_bot_ = new_bot;
 
   delete erosion_top_;
-  erosion_top_ = erosion_top.Clone();
+  erosion_top_ = new_erosion_top;
 
   delete erosion_bot_;
-  erosion_bot_ = erosion_bot.Clone();
+  erosion_bot_ = new_erosion_bot;
 
   if (lx_ > 0.0 || ly_ > 0.0 ) { //Check that area is set.
     CheckSurfaces();
-- 
2.43.0


From 8a2dacc802b305694eb8a7c498cc80f7d453d821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:11 +0000
Subject: [PATCH 059/198] fix: do not free a surface twice when reading a
 volume fails

---
 src/nrlib/volume/volume.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nrlib/volume/volume.cpp b/src/nrlib/volume/volume.cpp
index 432ca76..c621582 100644
--- a/src/nrlib/volume/volume.cpp
+++ b/src/nrlib/volume/volume.cpp
@@ -419,6 +419,7 @@ void Volume::ReadVolumeFromFile(std::ifstream& file, int line, const std::string
   }
   token = ReadNext<std::string>(file, line);
   delete z_bot_;
+  z_bot_ = NULL;
   if (IsType<double>(token)) {
     z_bot_ = new ConstantSurface<double>(ParseType<double>(token));
     botfile = false;
@@ -429,6 +430,7 @@ void Volume::ReadVolumeFromFile(std::ifstream& file, int line, const std::string
   }
   token = ReadNext<std::string>(file, line);
   delete erosion_top_;
+  erosion_top_ = NULL;
   if (IsType<double>(token)) {
     erosion_top_ = new ConstantSurface<double>(ParseType<double>(token));
     toperofile = false;
@@ -439,6 +441,7 @@ void Volume::ReadVolumeFromFile(std::ifstream& file, int line, const std::string
   }
   token = ReadNext<std::string>(file, line);
   delete erosion_bot_;
+  erosion_bot_ = NULL;
   if (IsType<double>(token)) {
     erosion_bot_ = new ConstantSurface<double>(ParseType<double>(token));
     boterofile = false;
-- 
2.43.0


From b4aaed245b0ce4f454ff4c4d439190994bcc1113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:11 +0000
Subject: [PATCH 060/198] fix: do not lose the position of a STORM grid and its
 missing code when writing it

---
 src/nrlib/stormgrid/stormcontgrid.cpp |  6 ++++--
 src/nrlib/volume/volume.cpp           | 10 +++++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/stormgrid/stormcontgrid.cpp b/src/nrlib/stormgrid/stormcontgrid.cpp
index 18771c1..dedebae 100644
--- a/src/nrlib/stormgrid/stormcontgrid.cpp
+++ b/src/nrlib/stormgrid/stormcontgrid.cpp
@@ -187,8 +187,10 @@ void StormContGrid::WriteToFile(const std::string& filename, const std::string&
   // Header
   if (predefinedHeader == "" && plainAscii==false) {
     file << format_desc[file_format_] << "\n\n"
-         << zone_number_ << " " << model_file_name_ << " "
-         << missing_code_ << "\n\n" << variable_name_ << "\n\n" ;
+         << zone_number_ << " " << model_file_name_ << " ";
+    if (file_format_ == STORM_BINARY)
+      file.precision(9); // The missing code must equal the values in the file.
+    file << missing_code_ << "\n\n" << variable_name_ << "\n\n" ;
 
     WriteVolumeToFile(file, filename, remove_path);
     file << "\n";
diff --git a/src/nrlib/volume/volume.cpp b/src/nrlib/volume/volume.cpp
index c621582..dea8038 100644
--- a/src/nrlib/volume/volume.cpp
+++ b/src/nrlib/volume/volume.cpp
@@ -23,6 +23,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <sstream>
 #include "../iotools/fileio.hpp"
 #include "../iotools/stringtools.hpp"
 #include "../math/constants.hpp"
@@ -355,7 +356,10 @@ static std::string WriteSingleSurface(const Surface<double>* surf,
   }
 
   if (typeid(*surf) == typeid(ConstantSurface<double>)) {
-    return (ToString((dynamic_cast<const ConstantSurface<double>*>(surf))->GetZ()));
+    std::ostringstream level;
+    level.precision(14);
+    level << (dynamic_cast<const ConstantSurface<double>*>(surf))->GetZ();
+    return level.str();
   }
   else if (typeid(*surf) == typeid(RegularSurface<double>)) {
     std::string filename = grid_filename + surface_name;
@@ -390,12 +394,16 @@ static std::string WriteSingleSurface(const Surface<double>* surf,
 void Volume::WriteVolumeToFile(std::ofstream& file,
                                const std::string& filename, bool remove_path) const
 {
+  std::streamsize old_precision = file.precision(14);
+
   file << x_min_ << " " << lx_ << " " << y_min_ << " " << ly_ << " "
        << WriteSingleSurface(z_top_, filename, "_top", remove_path) << " "
        << WriteSingleSurface(z_bot_, filename, "_bot", remove_path) << " "
        << WriteSingleSurface(erosion_top_, filename, "_erosion_top", remove_path) << " "
        << WriteSingleSurface(erosion_bot_, filename, "_erosion_bot", remove_path) << "\n"
        << GetLZ() << " " << (180.0*angle_)/NRLib::Pi << "\n";
+
+  file.precision(old_precision);
 }
 
 
-- 
2.43.0


From 8a72ce5cea215e122cfe3947c250fb9ca5664106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:11 +0000
Subject: [PATCH 061/198] fix: do not read past the end of the binary file name
 in an Sgri header

---
 src/nrlib/stormgrid/stormcontgrid.cpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/nrlib/stormgrid/stormcontgrid.cpp b/src/nrlib/stormgrid/stormcontgrid.cpp
index dedebae..a09b5d8 100644
--- a/src/nrlib/stormgrid/stormcontgrid.cpp
+++ b/src/nrlib/stormgrid/stormcontgrid.cpp
@@ -662,15 +662,7 @@ void StormContGrid::ReadSgriHeader(std::ifstream &headerFile, std::string &binFi
   if (tmpStr.empty())
     binFileName = "";
   else {
-    std::locale loc;
-    i = 0;
-    char c = tmpStr[i];
-    while (!std::isspace(c,loc)) {
-      i++;
-      c = tmpStr[i];
-    }
-    tmpStr.erase(tmpStr.begin()+i, tmpStr.end());
-    binFileName = tmpStr;
+    binFileName = tmpStr.substr(0, tmpStr.find_first_of(" \t\r\n\v\f"));
   }
   //Reading record 12+dim+ngrid: Complex values
   bool hasComplex;
-- 
2.43.0


From f816db0d67e8c107e5c8c5a602df2910595013bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:11 +0000
Subject: [PATCH 062/198] fix: find the binary file of an Sgri grid, which is
 named relative to the header

---
 src/nrlib/stormgrid/stormcontgrid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/stormgrid/stormcontgrid.cpp b/src/nrlib/stormgrid/stormcontgrid.cpp
index a09b5d8..5e9f824 100644
--- a/src/nrlib/stormgrid/stormcontgrid.cpp
+++ b/src/nrlib/stormgrid/stormcontgrid.cpp
@@ -111,7 +111,7 @@ void StormContGrid::ReadFromFile(const std::string& filename, bool commonPath, E
       if (binfilename.empty())
         binfilename = NRLib::ReplaceExtension(filename, "Sgri");
       else
-        binfilename = path + "/" + binfilename;
+        binfilename = NRLib::PrependDir(path, binfilename);
       std::ifstream binFile(binfilename.c_str(), std::ios::in | std::ios::binary);
       if(!binFile) {
         throw Exception("Error: Could not open Sgri binary file"+binfilename+"for reading.\n");
@@ -266,7 +266,7 @@ void StormContGrid::WriteToSgriFile(const std::string & file_name,
   header_file << missing_code_ << std::endl;
 
   //fName = fileName + IO::SuffixSgri();
-  header_file << file_name << std::endl;
+  header_file << RemovePath(file_name) << std::endl;
   header_file << "0\n";
 
   std::ofstream file;
-- 
2.43.0


From 12da383ff183ac5d33dfeb421251a162dc75ce69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:11 +0000
Subject: [PATCH 063/198] fix: give the number of layers written in the header
 of an Sgri grid

---
 src/nrlib/stormgrid/stormcontgrid.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nrlib/stormgrid/stormcontgrid.cpp b/src/nrlib/stormgrid/stormcontgrid.cpp
index 5e9f824..98b07aa 100644
--- a/src/nrlib/stormgrid/stormcontgrid.cpp
+++ b/src/nrlib/stormgrid/stormcontgrid.cpp
@@ -245,14 +245,13 @@ void StormContGrid::WriteToSgriFile(const std::string & file_name,
   header_file << label << std::endl;
   header_file << "1 1 1\n";
 
-  double z_max = GetZMax();
   double z_min = GetZMin();
 
 /*  float dz = static_cast<float> (floor(simbox->getdz()+0.5)); //To have the same sampling as in SegY
   if (dz == 0.0)
     dz = 1.0; */
   float dz = static_cast<float> (simbox_dz);
-  int nz = static_cast<int> (ceil((z_max - z_min)/dz));
+  int nz = static_cast<int>(GetNK());
   int ny = static_cast<int>(GetNJ());
   int nx = static_cast<int>(GetNI());
   header_file << nx << " " << ny << " " << nz << std::endl;
-- 
2.43.0


From 63c5d952efc4b01d2a271cd73681f0f89c415e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:11 +0000
Subject: [PATCH 064/198] fix: use the byte order asked for when reading an
 Sgri grid

---
 src/nrlib/stormgrid/stormcontgrid.cpp | 6 +++---
 src/nrlib/stormgrid/stormcontgrid.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/stormgrid/stormcontgrid.cpp b/src/nrlib/stormgrid/stormcontgrid.cpp
index 98b07aa..61f4b70 100644
--- a/src/nrlib/stormgrid/stormcontgrid.cpp
+++ b/src/nrlib/stormgrid/stormcontgrid.cpp
@@ -118,7 +118,7 @@ void StormContGrid::ReadFromFile(const std::string& filename, bool commonPath, E
         return;
       }
       binFile.close();
-      ReadSgriBinaryFile(binfilename);
+      ReadSgriBinaryFile(binfilename, number_representation);
       file_format_ = STORM_BINARY; // when writing to file, use binary format.
       zone_number_ = 0;
       model_file_name_ = "ModelFile";
@@ -674,11 +674,11 @@ void StormContGrid::ReadSgriHeader(std::ifstream &headerFile, std::string &binFi
 
 
 }
-void StormContGrid::ReadSgriBinaryFile(const std::string& filename)
+void StormContGrid::ReadSgriBinaryFile(const std::string& filename, Endianess number_representation)
 {
   std::ifstream binFile(filename.c_str(),std::ios::in | std::ios::binary); //Check opening of file before calling this function
   try {
-    ReadBinaryFloatArray(binFile, begin(), GetN());
+    ReadBinaryFloatArray(binFile, begin(), GetN(), number_representation);
   }
   catch (Exception& e) {
     throw Exception("Error: Reading from binary sgri file " +filename + "." + e.what() +"\n");
diff --git a/src/nrlib/stormgrid/stormcontgrid.hpp b/src/nrlib/stormgrid/stormcontgrid.hpp
index dfb1179..4b48b04 100644
--- a/src/nrlib/stormgrid/stormcontgrid.hpp
+++ b/src/nrlib/stormgrid/stormcontgrid.hpp
@@ -136,7 +136,7 @@ namespace NRLib {
   private:
     double RecalculateLZ();
     void ReadSgriHeader(std::ifstream &headerFile, std::string &binFileName);
-    void ReadSgriBinaryFile(const std::string& filename);
+    void ReadSgriBinaryFile(const std::string& filename, Endianess number_representation);
 
     double GetRelThick(int i, int j) const;
     double GetRelThick(double x, double y) const;
-- 
2.43.0


From 687d965976ccceed52089d21c253364388313911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:11 +0000
Subject: [PATCH 065/198] fix: find the lowest layer for a point on the bottom
 surface of a STORM grid

---
 src/nrlib/stormgrid/stormcontgrid.cpp   | 2 ++
 src/nrlib/stormgrid/stormfaciesgrid.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/nrlib/stormgrid/stormcontgrid.cpp b/src/nrlib/stormgrid/stormcontgrid.cpp
index 61f4b70..7c82d32 100644
--- a/src/nrlib/stormgrid/stormcontgrid.cpp
+++ b/src/nrlib/stormgrid/stormcontgrid.cpp
@@ -338,6 +338,8 @@ void StormContGrid::FindIndex(double x, double y, double z, size_t& i_out, size_
   }
   else {
     k_out = static_cast<size_t>((z - z_top)/dz);
+    if (k_out >= GetNK()) // z on the bottom surface.
+      k_out = GetNK() - 1;
   }
 
 }
diff --git a/src/nrlib/stormgrid/stormfaciesgrid.cpp b/src/nrlib/stormgrid/stormfaciesgrid.cpp
index 9827cba..e531333 100644
--- a/src/nrlib/stormgrid/stormfaciesgrid.cpp
+++ b/src/nrlib/stormgrid/stormfaciesgrid.cpp
@@ -295,6 +295,8 @@ void StormFaciesGrid::FindIndex(double x, double y, double z, size_t& i_out, siz
   }
   else {
     k_out = static_cast<size_t>((z - z_top)/dz);
+    if (k_out >= GetNK()) // z on the bottom surface.
+      k_out = GetNK() - 1;
   }
 
 }
-- 
2.43.0


From 1b57dced78922eca7e3a6d8ec25387d0abf43fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:11 +0000
Subject: [PATCH 066/198] fix: reject points outside a facies grid in negative
 direction

---
 src/nrlib/stormgrid/stormfaciesgrid.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nrlib/stormgrid/stormfaciesgrid.cpp b/src/nrlib/stormgrid/stormfaciesgrid.cpp
index e531333..33ad4b0 100644
--- a/src/nrlib/stormgrid/stormfaciesgrid.cpp
+++ b/src/nrlib/stormgrid/stormfaciesgrid.cpp
@@ -282,6 +282,10 @@ void StormFaciesGrid::FindIndex(double x, double y, double z, size_t& i_out, siz
     throw Exception("Index in x direction is too large.\n");
   if(j_out >= GetNJ())
    throw Exception("Index in y direction is too large.\n");
+  if(local_x < 0.0)
+    throw Exception("Local x-coordinate is too small.\n");
+  if(local_y < 0.0)
+    throw Exception("Local y-coordinate is too small.\n");
   double z_top = GetTopSurface().GetZ(x, y);
   double z_bot = GetBotSurface().GetZ(x, y);
   double dz = (z_bot - z_top) / GetNK();
-- 
2.43.0


From b58c8231313334b7ae16490ad9715f97b25ebfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:11 +0000
Subject: [PATCH 067/198] fix: interpolate between the layers around z in
 GetValueClosestInZ

---
 src/nrlib/stormgrid/stormcontgrid.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/nrlib/stormgrid/stormcontgrid.cpp b/src/nrlib/stormgrid/stormcontgrid.cpp
index 7c82d32..68290f6 100644
--- a/src/nrlib/stormgrid/stormcontgrid.cpp
+++ b/src/nrlib/stormgrid/stormcontgrid.cpp
@@ -483,12 +483,17 @@ float StormContGrid::GetValueClosestInZ(double x, double y, double z)const
 
   if (z<z_top+0.5*dz)
     z = z_top+0.5*dz;
-  else if (z>z_bot+0.5*dz)
-    z = z_bot+0.5*dz;
+  else if (z>z_bot-0.5*dz)
+    z = z_bot-0.5*dz;
 
-  int zInd1 = static_cast<int>(floor((z-z_top)/dz)-0.5);
-  double t = (z-z_top)/dz - 0.5 - static_cast<double>(zInd1);
-  int zInd2 = zInd1+1;
+  int n     = static_cast<int>(GetNK());
+  int zInd1 = 0;
+  double t  = 0.0;
+  if (dz > 0.0) {
+    zInd1 = std::max(0, std::min(n-1, static_cast<int>(floor((z-z_top)/dz-0.5))));
+    t     = (z-z_top)/dz - 0.5 - static_cast<double>(zInd1);
+  }
+  int zInd2 = std::min(zInd1+1, n-1);
   float value = static_cast<float>((1-t)*(*this)(GetIndex(i,j,zInd1))+t*(*this)(GetIndex(i,j,zInd2)));
   return(value);
 }
-- 
2.43.0


From 8eff7ccaf258032e6738d515ad69de2bc7a77526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:11 +0000
Subject: [PATCH 068/198] fix: do not count missing surface values in the
 height of a STORM grid

---
 src/nrlib/stormgrid/stormcontgrid.cpp   | 6 ++++--
 src/nrlib/stormgrid/stormfaciesgrid.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/stormgrid/stormcontgrid.cpp b/src/nrlib/stormgrid/stormcontgrid.cpp
index 68290f6..bfd908c 100644
--- a/src/nrlib/stormgrid/stormcontgrid.cpp
+++ b/src/nrlib/stormgrid/stormcontgrid.cpp
@@ -519,8 +519,10 @@ double StormContGrid::RecalculateLZ()
     for (size_t j = 0; j < GetNJ(); ++j) {
       double x, y;
       LocalToGlobalCoord(i * GetDX(), j * GetDY(), x, y);
-      lz = std::max(lz, GetBotSurface().GetZ(x, y) -
-                        GetTopSurface().GetZ(x, y));
+      double z_top = GetTopSurface().GetZ(x, y);
+      double z_bot = GetBotSurface().GetZ(x, y);
+      if (!GetTopSurface().IsMissing(z_top) && !GetBotSurface().IsMissing(z_bot))
+        lz = std::max(lz, z_bot - z_top);
     }
   }
   return lz;
diff --git a/src/nrlib/stormgrid/stormfaciesgrid.cpp b/src/nrlib/stormgrid/stormfaciesgrid.cpp
index 33ad4b0..77d7775 100644
--- a/src/nrlib/stormgrid/stormfaciesgrid.cpp
+++ b/src/nrlib/stormgrid/stormfaciesgrid.cpp
@@ -335,8 +335,10 @@ double StormFaciesGrid::RecalculateLZ()
     for (size_t j = 0; j < GetNJ(); ++j) {
       double x, y;
       LocalToGlobalCoord(i * GetDX(), j * GetDY(), x, y);
-      lz = std::max(lz, GetBotSurface().GetZ(x, y) -
-                        GetTopSurface().GetZ(x, y));
+      double z_top = GetTopSurface().GetZ(x, y);
+      double z_bot = GetBotSurface().GetZ(x, y);
+      if (!GetTopSurface().IsMissing(z_top) && !GetBotSurface().IsMissing(z_bot))
+        lz = std::max(lz, z_bot - z_top);
     }
   }
   return lz;
-- 
2.43.0


From 0c01cbacd0e3a613c533642251c3dc033543f1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:11 +0000
Subject: [PATCH 069/198] fix: reject cells of a facies grid that refer to a
 body which does not exist

---
 src/nrlib/stormgrid/stormfaciesgrid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/stormgrid/stormfaciesgrid.cpp b/src/nrlib/stormgrid/stormfaciesgrid.cpp
index 77d7775..fe41d24 100644
--- a/src/nrlib/stormgrid/stormfaciesgrid.cpp
+++ b/src/nrlib/stormgrid/stormfaciesgrid.cpp
@@ -59,7 +59,7 @@ StormFaciesGrid::StormFaciesGrid(const Volume &vol, size_t nx, size_t ny, size_t
   missing_code_ = STD_MISSING_CODE;
   zone_number_ = 0;
   model_file_name_ = "ModelFile";
-  Resize(nx,ny,nz);
+  Resize(nx,ny,nz,missing_code_);
 
 }
 
@@ -253,7 +253,7 @@ void StormFaciesGrid::CheckConsistency() const
   for (size_t ind = 0; ind < GetN(); ++ind) {
     int body = (*this)(ind);
     if ( !IsMissing(body)
-         && (body < 0 || body > static_cast<int>(body_facies_.size())) ) {
+         && (body < 0 || body >= static_cast<int>(body_facies_.size())) ) {
       size_t i, j, k;
       GetIJK(ind, i, j, k);
       throw Exception("Consistency check failed: body number "
-- 
2.43.0


From cde09ba739528fbbd9d44b03d59eba9ab00e7544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:00 +0000
Subject: [PATCH 070/198] fix: initialise the number of data, position and
 deviation flag of wells

---
 src/nrlib/well/well.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/nrlib/well/well.cpp b/src/nrlib/well/well.cpp
index 18ba288..857d79e 100644
--- a/src/nrlib/well/well.cpp
+++ b/src/nrlib/well/well.cpp
@@ -36,6 +36,11 @@
 using namespace NRLib;
 
 Well::Well()
+  : n_data_(0),
+    n_data_nonmissing_(0),
+    is_deviated_(false),
+    x_pos0_(0.0),
+    y_pos0_(0.0)
 {
   well_rmissing_ = -999.0;
   well_imissing_ = -999;
@@ -45,6 +50,11 @@ Well::Well()
 Well::Well(const std::string & name,
            double              rmissing,
            int                 imissing)
+  : n_data_(0),
+    n_data_nonmissing_(0),
+    is_deviated_(false),
+    x_pos0_(0.0),
+    y_pos0_(0.0)
 {
   well_name_ = name;
   well_rmissing_ = rmissing;
@@ -55,6 +65,11 @@ Well::Well(const std::string & name,
 Well::Well(const std::map<std::string,std::vector<double> > & cont_log,
            const std::map<std::string,std::vector<int> >    & disc_log,
            const std::string                                & well_name)
+  : n_data_(0),
+    n_data_nonmissing_(0),
+    is_deviated_(false),
+    x_pos0_(0.0),
+    y_pos0_(0.0)
 {
   cont_log_       = cont_log;
   disc_log_       = disc_log;
-- 
2.43.0


From 528a7e774b20914c6a874c1dce15d4ece3115753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:00 +0000
Subject: [PATCH 071/198] fix: return missing for values of logs that do not
 exist or are too short, as documented

---
 src/nrlib/well/well.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/nrlib/well/well.cpp b/src/nrlib/well/well.cpp
index 857d79e..fa54114 100644
--- a/src/nrlib/well/well.cpp
+++ b/src/nrlib/well/well.cpp
@@ -233,20 +233,18 @@ bool Well::IsMissing(int n)const
 int Well::GetDiscValue(size_t index, const std::string& logname) const
 {
   std::map<std::string, std::vector<int> >::const_iterator item = disc_log_.find(logname);
-  assert(item != disc_log_.end());
-  const std::vector<int>& log = item->second;
-  assert(index < log.size());
-  return log[index];
+  if (item == disc_log_.end() || index >= item->second.size())
+    return well_imissing_;
+  return item->second[index];
 }
 
 
 double Well::GetContValue(size_t index, const std::string& logname) const
 {
   std::map<std::string,std::vector<double> >::const_iterator item = cont_log_.find(logname);
-  assert(item != cont_log_.end());
-  const std::vector<double>& log = item->second;
-  assert(index < log.size());
-  return log[index];
+  if (item == cont_log_.end() || index >= item->second.size())
+    return well_rmissing_;
+  return item->second[index];
 }
 
 
-- 
2.43.0


From ce817b03d518f83f27f4bebd8ca858d2b8e5c96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:00 +0000
Subject: [PATCH 072/198] fix: keep all log values below the end of the well
 track of NORSAR wells

---
 src/nrlib/well/norsarwell.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/nrlib/well/norsarwell.cpp b/src/nrlib/well/norsarwell.cpp
index 705381d..93b5248 100644
--- a/src/nrlib/well/norsarwell.cpp
+++ b/src/nrlib/well/norsarwell.cpp
@@ -320,7 +320,6 @@ NorsarWell::MergeLogs(const std::vector<std::vector<double> > & track_logs, int
       else
         mdp = 1;
     }
-    il++;
   }
 
   return(result);
-- 
2.43.0


From ec321109d7f74abaf8c0b5aaab7efdb420545ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:00 +0000
Subject: [PATCH 073/198] fix: find the unit of NORSAR well logs by the name
 the log has

---
 src/nrlib/well/norsarwell.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/well/norsarwell.cpp b/src/nrlib/well/norsarwell.cpp
index 93b5248..ce3f931 100644
--- a/src/nrlib/well/norsarwell.cpp
+++ b/src/nrlib/well/norsarwell.cpp
@@ -119,7 +119,7 @@ NorsarWell::NorsarWell(const std::string & filename)
     if(name == "MD")
       track_MD = i;
     token = ReadNext<std::string>(file, line); //unit
-    units_.insert(unitpair(name,token));
+    units_.insert(unitpair(NRLib::Uppercase(name),token));
 
     DiscardRestOfLine(file, line, false);
   }
@@ -162,7 +162,7 @@ NorsarWell::NorsarWell(const std::string & filename)
         log_name.push_back(NRLib::Uppercase(name));
       token = ReadNext<std::string>(file, line); //unit
       if(log_MD != i)
-        units_.insert(unitpair(name,token));
+        units_.insert(unitpair(NRLib::Uppercase(name),token));
       DiscardRestOfLine(file, line, false);
     }
     if(log_MD < 0)
@@ -329,7 +329,7 @@ NorsarWell::MergeLogs(const std::vector<std::vector<double> > & track_logs, int
 std::string
 NorsarWell::GetLogUnit(const std::string & name)
 {
-  std::map<std::string,std::string>::iterator item = units_.find(name);
+  std::map<std::string,std::string>::iterator item = units_.find(NRLib::Uppercase(name));
   if(item == units_.end())
     return("");
   else
-- 
2.43.0


From 7b2820da80d692900e7800d4b3270c80bd50c527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:00 +0000
Subject: [PATCH 074/198] fix: do not take the unit of an RMS well log from an
 earlier line

---
 src/nrlib/well/rmswell.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nrlib/well/rmswell.cpp b/src/nrlib/well/rmswell.cpp
index 69e1c86..8b3ebb2 100644
--- a/src/nrlib/well/rmswell.cpp
+++ b/src/nrlib/well/rmswell.cpp
@@ -75,6 +75,7 @@ RMSWell::RMSWell(const std::string& filename)
     lognames_[i+3] = NRLib::Uppercase(ReadNext<std::string>(ist, line));
 
     //token = ReadNext<std::string>(ist, line); //H Error if line only containts log-name (test_case 19).
+    token = "";
     ReadNextToken(ist, token, line);
 
     if (token != "") {
-- 
2.43.0


From 1afb6149bc02f627496fe432664460d38ae3b2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:00 +0000
Subject: [PATCH 075/198] fix: make RMS wells of wells with discrete logs that
 are missing

---
 src/nrlib/well/rmswell.cpp | 29 ++++++-----------------------
 1 file changed, 6 insertions(+), 23 deletions(-)

diff --git a/src/nrlib/well/rmswell.cpp b/src/nrlib/well/rmswell.cpp
index 8b3ebb2..5655519 100644
--- a/src/nrlib/well/rmswell.cpp
+++ b/src/nrlib/well/rmswell.cpp
@@ -205,33 +205,16 @@ RMSWell::RMSWell(const Well& wellobj)
     scale_[i] ="scale1";
   }
 
-  size_t ndisc = nlog - k - 3;
-  std::vector<std::vector<int> > discvalues(ndisc);
-  i = 0;
-  size_t j;
-  size_t kk = 0;
-  bool found = false;
-  for (CI p = disclog.begin(); p != disclog.end(); ++p) {
-    while(wellobj.IsMissing((p->second)[kk]))
-      kk++;
-    discvalues[i].push_back((p->second)[kk]);
-
-    for (j = kk + 1; j < p->second.size(); j++) {
-      for (k = 0; k < discvalues[i].size(); k++)
-        if ((p->second)[j] == discvalues[i][k])
-          found = true;
-      if (found == false && (!wellobj.IsMissing((p->second)[j])))
-        discvalues[i].push_back((p->second)[j]);
-      found = false;
-    }
-  }
   ////Frode NB: M� se n�yere p� dette.
   typedef std::pair<int, std::string> pp;
   for (CI p = disclog.begin(); p !=disclog.end(); ++p) {
     std::string disc_name = p->first;
-    for (j = 0; j < p->second.size(); j++) {
-      std::string identstr = ToString(p->second[j]);
-      discnames_[disc_name].insert(pp(p->second[j], identstr));
+    discnames_[disc_name];
+    for (size_t j = 0; j < p->second.size(); j++) {
+      if (!wellobj.IsMissing(p->second[j])) {
+        std::string identstr = ToString(p->second[j]);
+        discnames_[disc_name].insert(pp(p->second[j], identstr));
+      }
     }
   }
 }
-- 
2.43.0


From f4120694af8f6224cbdc7953072609b1b04c53fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:00 +0000
Subject: [PATCH 076/198] fix: keep the missing codes of a well when it is
 blocked

---
 src/nrlib/well/welloperations.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/nrlib/well/welloperations.hpp b/src/nrlib/well/welloperations.hpp
index de0e5c0..9077d1e 100644
--- a/src/nrlib/well/welloperations.hpp
+++ b/src/nrlib/well/welloperations.hpp
@@ -153,16 +153,14 @@ void NRLib::BlockWell(const NRLib::Well & well,
     }
   }
 
-  std::map<std::string,std::vector<double> > contlognew;
+  std::string well_name = well.GetWellName() + "blocked";
+  blocked_well = Well(well_name, well.GetContMissing(), well.GetIntMissing());
   for (i = 0; i < ncont; i++) {
-    contlognew[contnames[i]] = contlogs[i];
+    blocked_well.AddContLog(contnames[i], contlogs[i]);
   }
-  std::map<std::string, std::vector<int> > disclognew;
   for (i = 0; i < ndisc; i++) {
-    disclognew[discnames[i]] = disclogs[i];
+    blocked_well.AddDiscLog(discnames[i], disclogs[i]);
   }
-  std::string well_name = well.GetWellName() + "blocked";
-  blocked_well = Well(contlognew, disclognew, well_name);
 }
 
 #endif
-- 
2.43.0


From f58788ab879abb98268a4faaef2f0fd9b7459e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:00 +0000
Subject: [PATCH 077/198] fix: stop reading LAS files with repeated or invalid
 sections instead of looping forever

---
 src/nrlib/well/laswell.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/nrlib/well/laswell.cpp b/src/nrlib/well/laswell.cpp
index eccf3e3..fc41d06 100644
--- a/src/nrlib/well/laswell.cpp
+++ b/src/nrlib/well/laswell.cpp
@@ -145,7 +145,7 @@ LasWell::ReadHeader(const std::string        & filename,
 
     bool end_of_header = false;
 
-    while ( !fin.eof() && !end_of_header) {
+    while ( !fin.eof() && !end_of_header && err_txt == "") {
       line = NRLib::Chomp(line);
 
       if (line.empty()) {                 // Empty line, do nothing
@@ -158,24 +158,30 @@ LasWell::ReadHeader(const std::string        & filename,
       }
       else if (line[0] == '~') {         // Command trigger
         if (line[1] == 'V') {
-          if(version_read == true)
+          if(version_read == true) {
             err_txt += "~VERSION INFORMATION given more than once in file "+filename+".\n";
+            end_of_header = true;
+          }
           else {
             version_read = true;
             ParseVersionInformation(fin, line, err_txt);
           }
         }
         else if (line[1] == 'W') {
-          if(well_read == true)
+          if(well_read == true) {
             err_txt += "~WELL INFORMATION given more than once in file "+filename+".\n";
+            end_of_header = true;
+          }
           else {
             well_read = true;
             ParseWellInformation(fin, line, err_txt);
           }
         }
         else if (line[1] == 'C') {
-          if(curve_read == true)
+          if(curve_read == true) {
             err_txt += "~CURVE INFORMATION given more than once in file "+filename+".\n";
+            end_of_header = true;
+          }
           else{
             curve_read = true;
             ParseCurveInformation(fin, line, err_txt);
@@ -189,8 +195,7 @@ LasWell::ReadHeader(const std::string        & filename,
           end_of_header = true;
         else {
           err_txt += "Invalid keyword \'~"+NRLib::ToString(line[1])+"\' has been encountered in LAS file "+filename+".\n";
-          std::vector<std::string> junk_info;
-          ParseInformation(junk_info, "", fin, line, err_txt);
+          end_of_header = true;
         }
       }
       else {
-- 
2.43.0


From 4454e032f23e375a6d829548b3983cd18c18e419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:35 +0000
Subject: [PATCH 078/198] fix: report wrong records of LAS files instead of
 reading zeros or writing out of bounds

---
 src/nrlib/well/laswell.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/well/laswell.cpp b/src/nrlib/well/laswell.cpp
index fc41d06..df0cd80 100644
--- a/src/nrlib/well/laswell.cpp
+++ b/src/nrlib/well/laswell.cpp
@@ -425,6 +425,10 @@ LasWell::ReadLogs(std::ifstream                  & fin,
   std::vector<std::string> record;
   while(GetRecord(fin, log.size(), record) == true && n_errors < 5 && n_records < n_data) {
     n_records++;
+    if(n_data_given == false) {
+      for(size_t i=0;i<log.size();i++)
+        log[i].push_back(0);
+    }
     if(record.size() != log.size()) {
       n_errors++;
       tmp_err_txt += "Error in well "+GetWellName()+", record "+NRLib::ToString(n_records)+"("+log_name_[0]+"="+record[0]
@@ -432,8 +436,6 @@ LasWell::ReadLogs(std::ifstream                  & fin,
     }
     else {
       for(size_t i=0;i<log.size();i++) {
-        if(n_data_given == false)
-          log[i].push_back(0);
         try {
           log[i][n_records-1] = NRLib::ParseType<double>(record[i]);
         }
@@ -449,7 +451,9 @@ LasWell::ReadLogs(std::ifstream                  & fin,
     n_records++;
   if(n_errors >= 5) //Note intentional use of err_txt below, final error.
      err_txt += tmp_err_txt +"Too many log errors found in well "+GetWellName()+". Stopped processing.\n";
-  else if(tmp_err_txt == "" && n_records < n_data && n_data_given == true) { //Note intentional use of err_txt below, only this error has occured.
+  else if(tmp_err_txt != "")
+    err_txt += tmp_err_txt;
+  else if(n_records < n_data && n_data_given == true) { //Note intentional use of err_txt below, only this error has occured.
     err_txt += "Wrong number of data records found in well "+GetWellName()+", found "+NRLib::ToString(n_records)
       +" while expecting "+NRLib::ToString(n_data)+".\n";
   }
-- 
2.43.0


From d8e6a8abeeaaf1aa1cb0a445b57ba8fb66052042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:35 +0000
Subject: [PATCH 079/198] fix: skip blank lines in the data section of LAS
 files

---
 src/nrlib/well/laswell.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/well/laswell.cpp b/src/nrlib/well/laswell.cpp
index df0cd80..c67194a 100644
--- a/src/nrlib/well/laswell.cpp
+++ b/src/nrlib/well/laswell.cpp
@@ -471,13 +471,15 @@ LasWell::GetRecord(std:: ifstream           & fin,
                    std::vector<std::string> & record) const
 {
   std::string line;
-  while(line.empty()==true && fin.eof() == false)
+  record.clear();
+  while(record.empty() == true && fin.eof() == false) {
     getline(fin,line);
-  if(line.empty() == true)
+    NRLib::Substitute(line, ",", " "); //Makes comma delimited space delimited.
+    record = NRLib::GetTokens(line);
+  }
+  if(record.empty() == true)
     return(false);
 
-  NRLib::Substitute(line, ",", " "); //Makes comma delimited space delimited.
-  record = NRLib::GetTokens(line);
   if(wrap_ == true) {
     while(record.size() < n_items && fin.eof()==false) {
       getline(fin,line);
-- 
2.43.0


From d9ce40207b09d2a5c33c0587bb4b23eefb9a7443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:35 +0000
Subject: [PATCH 080/198] fix: do not derive a number of records from a LAS
 header with a step in the wrong direction

---
 src/nrlib/well/laswell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/well/laswell.cpp b/src/nrlib/well/laswell.cpp
index c67194a..168e580 100644
--- a/src/nrlib/well/laswell.cpp
+++ b/src/nrlib/well/laswell.cpp
@@ -412,7 +412,7 @@ LasWell::ReadLogs(std::ifstream                  & fin,
   size_t n_data = 2000000000; //Anything more than this will easily give indexing problems, so ok upper limit.
   bool n_data_given = false;
   if(IsMissing(start_depth_) == false && IsMissing(stop_depth_) == false && IsMissing(depth_increment_) == false &&
-     stop_depth_ > start_depth_ && depth_increment_ != 0) {
+     stop_depth_ > start_depth_ && depth_increment_ > 0) {
     n_data_given = true;
     n_data = static_cast<size_t>(floor(0.5+(stop_depth_ - start_depth_)/depth_increment_))+1;
     for(size_t i=0;i<log.size();i++)
-- 
2.43.0


From a57e3eff24ad17352b7548e7e0837f1c6b1e5783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:35 +0000
Subject: [PATCH 081/198] fix: reject LAS files without curves

---
 src/nrlib/well/laswell.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nrlib/well/laswell.cpp b/src/nrlib/well/laswell.cpp
index 168e580..18faf21 100644
--- a/src/nrlib/well/laswell.cpp
+++ b/src/nrlib/well/laswell.cpp
@@ -400,6 +400,8 @@ LasWell::ParseCurveInformation(std::ifstream            & fin,
   }
   if(log_unit_.size() > 0)
     depth_unit_ = log_unit_[0];
+  else if (err_txt == "")
+    err_txt += "No curves given under ~CURVE INFORMATION in "+GetWellName()+".\n";
 }
 
 
-- 
2.43.0


From 1c71b7a82b790e7124b077063f27340fe689ddf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:35 +0000
Subject: [PATCH 082/198] fix: write the name, position and other information
 of a LAS well that was read from file

---
 src/nrlib/well/laswell.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/nrlib/well/laswell.cpp b/src/nrlib/well/laswell.cpp
index 18faf21..0a381e4 100644
--- a/src/nrlib/well/laswell.cpp
+++ b/src/nrlib/well/laswell.cpp
@@ -333,6 +333,7 @@ LasWell::ParseWellToken(const std::string & token,
   if(token == "WELL") {
     if(value.empty() == false)
       SetWellName(value);
+    well_info_.push_back(line);
   }
 
   else if(token == "STRT" || token == "STOP" || token == "STEP" ||
@@ -358,6 +359,8 @@ LasWell::ParseWellToken(const std::string & token,
         err_txt += std::string(e.what())+" for keyword "+token+" under ~WELL INFORMATION in well "+GetWellName();
       }
     }
+    if(token == "XWELL" || token == "YWELL")
+      well_info_.push_back(line);
   }
   else
     well_info_.push_back(line);
@@ -556,6 +559,14 @@ void LasWell::WriteToFile(const std::string              & filename,
   file << "\n";
 
 
+  // Other information. Only what is read from file.
+  if (other_info_.size() > 0) {
+    file << "~Other information\n";
+    for(size_t i=0;i<other_info_.size();i++)
+      file << other_info_[i] << "\n";
+    file << "\n";
+  }
+
   // Curve information
   // LAS only supports continuous logs...
 
-- 
2.43.0


From 549790fcbb0b047d40ab58a35600bc8e995f02d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:35 +0000
Subject: [PATCH 083/198] fix: write LAS wells that were read from wrapped
 files

---
 src/nrlib/well/laswell.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/nrlib/well/laswell.cpp b/src/nrlib/well/laswell.cpp
index 0a381e4..4a81c78 100644
--- a/src/nrlib/well/laswell.cpp
+++ b/src/nrlib/well/laswell.cpp
@@ -529,7 +529,7 @@ void LasWell::WriteToFile(const std::string              & filename,
   // Version information
   file << "~Version information\n";
   WriteLasLine(file, "VERS", "", version_, "");
-  WriteLasLine(file, "WRAP", "", (wrap_ ? "YES" : "NO"), "");
+  WriteLasLine(file, "WRAP", "", "NO", ""); // We don't support wrapped output yet.
   for(size_t i=0;i<version_info_.size();i++)
     file << version_info_[i] << "\n";
   file << "\n";
@@ -584,9 +584,6 @@ void LasWell::WriteToFile(const std::string              & filename,
     logs[i] = &(GetContLog(log_name_[i]));
   }
 
-  // We don't support wrapped output yet.
-  assert(wrap_ == false);
-
   file.precision(3);
   for (size_t i = 0; i < logs[0]->size(); ++i) {
     for (size_t j = 0; j < logs.size(); ++j) {
-- 
2.43.0


From a425b541e360199e13775e3a2006ea1312184598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:13 +0000
Subject: [PATCH 084/198] fix: read the point of an RMS internal points file
 with one point

---
 src/nrlib/pointset/pointset.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/pointset/pointset.cpp b/src/nrlib/pointset/pointset.cpp
index c4cd840..eef5617 100644
--- a/src/nrlib/pointset/pointset.cpp
+++ b/src/nrlib/pointset/pointset.cpp
@@ -318,9 +318,9 @@ PointSet::ReadRMSInternalPoints(const std::string & filename,
   double infloat;
   size_t n_token;
 
-  bool first_point = true;
+  bool first_point = IsType<double>(type_test); // The first point is read already.
   bool active;
-  while(!NRLib::CheckEndOfFile(file)) {
+  while(first_point || !NRLib::CheckEndOfFile(file)) {
     active = false;
     if (!first_point)
       std::getline(file, line);
-- 
2.43.0


From c421dc8f6dfe154faea98aa26c51506c4bf2d61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:13 +0000
Subject: [PATCH 085/198] fix: quote empty strings in RMS internal points
 files, so that they can be read

---
 src/nrlib/pointset/pointset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/pointset/pointset.cpp b/src/nrlib/pointset/pointset.cpp
index eef5617..1c63a2a 100644
--- a/src/nrlib/pointset/pointset.cpp
+++ b/src/nrlib/pointset/pointset.cpp
@@ -510,7 +510,7 @@ PointSet::WriteInternalPoints(const std::string& filename) const
         file << " ";
       }
       for(iter3 = string_tag_.begin(); iter3 != string_tag_.end(); ++iter3){
-        if (iter3->second[i].find(" ") != std::string::npos)
+        if (iter3->second[i].empty() || iter3->second[i].find_first_of(NRLib::Whitespace()) != std::string::npos)
           file << "\"" << iter3->second[i] << "\"";
         else
           file << std::setw(15) << iter3->second[i];
-- 
2.43.0


From e878204fb1960771d8f21f645bafef5a1a2e092e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:13 +0000
Subject: [PATCH 086/198] fix: read the decimals of coordinates in Jason XYZ
 files

---
 src/nrlib/pointset/pointset.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/pointset/pointset.cpp b/src/nrlib/pointset/pointset.cpp
index 1c63a2a..12f8a25 100644
--- a/src/nrlib/pointset/pointset.cpp
+++ b/src/nrlib/pointset/pointset.cpp
@@ -424,9 +424,9 @@ void PointSet::ReadJasonXYZ(const std::string &filename)
     }
     il[i] = NRLibPrivate::UnsafeParser<int>::ParseType(tokens[0].c_str());
     xl[i] = NRLibPrivate::UnsafeParser<int>::ParseType(tokens[1].c_str());
-    points_[i].x = NRLibPrivate::UnsafeParser<int>::ParseType(tokens[2].c_str());
-    points_[i].y = NRLibPrivate::UnsafeParser<int>::ParseType(tokens[3].c_str());
-    points_[i].z = NRLibPrivate::UnsafeParser<int>::ParseType(tokens[4].c_str());
+    points_[i].x = NRLibPrivate::UnsafeParser<double>::ParseType(tokens[2].c_str());
+    points_[i].y = NRLibPrivate::UnsafeParser<double>::ParseType(tokens[3].c_str());
+    points_[i].z = NRLibPrivate::UnsafeParser<double>::ParseType(tokens[4].c_str());
   }
 
   AddDiscreteParameter("IL", il);
-- 
2.43.0


From 744fe9095fc8ab93fedeb4d113c0d21df7b7ef31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:13 +0000
Subject: [PATCH 087/198] fix: do not read out of bounds for convex hulls of
 points that coincide or lie on a line

---
 src/nrlib/pointset/pointset.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/pointset/pointset.cpp b/src/nrlib/pointset/pointset.cpp
index 12f8a25..f84952d 100644
--- a/src/nrlib/pointset/pointset.cpp
+++ b/src/nrlib/pointset/pointset.cpp
@@ -717,10 +717,23 @@ Polygon PointSet::GetConvexHull()
       minpointindex=i;
     }
   }
+  if (points_.size() < 3) {
+    Polygon all_points;
+    for (size_t i = 0; i < points_.size(); i++)
+      all_points.AddPoint(points_[i]);
+    return all_points;
+  }
   indexes[minpointindex]=0;
   indexes[0]=minpointindex; //Switching, so that the element corresponding to lowest y-coordinate is first
+  size_t n_distinct = 1; //Leaving out copies of the first point
+  for (size_t i = 1; i < indexes.size(); i++) {
+    if (points_[indexes[i]].x != points_[minpointindex].x || points_[indexes[i]].y != points_[minpointindex].y)
+      indexes[n_distinct++] = indexes[i];
+  }
+  indexes.resize(n_distinct);
   AngleSort(indexes, minpointindex, 1, static_cast<int>(indexes.size())-1); //Sorting from second element to end
-  RemoveEqualAngles(indexes, minpointindex); //If two points has the same angle wrt p=points_[minpointindex], the one closest to p will be deleted
+  if (indexes.size() > 1)
+    RemoveEqualAngles(indexes, minpointindex); //If two points has the same angle wrt p=points_[minpointindex], the one closest to p will be deleted
   //debug
  // std::vector<NRLib::Point> points;
 //  for(unsigned int i = 0; i < indexes.size(); i++){
@@ -729,6 +742,13 @@ Polygon PointSet::GetConvexHull()
  // NRLib::PointSet polygon(points);
  // polygon.WriteToFile("reducedpoints.dat", NRLib::PointSet::RoxarText);
 
+  if (indexes.size() < 3) { //All points on a line
+    Polygon line;
+    for (size_t i = 0; i < indexes.size(); i++)
+      line.AddPoint(points_[indexes[i]]);
+    return line;
+  }
+
   std::vector<int> candidates; //Storing indexes of points in the convex hull for the first i (as in the variable i in the for-loop) indexes in the vector indexes
   candidates.push_back(indexes[0]);
   candidates.push_back(indexes[1]);
-- 
2.43.0


From 1b5854ab5f44dd71495f2d4a7183072529134fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:13 +0000
Subject: [PATCH 088/198] fix: keep the samples around the center when a
 wavelet is made smaller

---
 src/nrlib/wavelet/wavelet.cpp | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/nrlib/wavelet/wavelet.cpp b/src/nrlib/wavelet/wavelet.cpp
index a436603..243d2c0 100644
--- a/src/nrlib/wavelet/wavelet.cpp
+++ b/src/nrlib/wavelet/wavelet.cpp
@@ -116,20 +116,11 @@ void Wavelet::Resize(size_t nw)
   std::vector<double> new_wavelet(nw, 0.0);
   size_t old_center = wavelet_.size() / 2;
   size_t new_center = nw/2;
-  size_t start = 0;  // Start in old wavelet;
-  size_t end   = wavelet_.size();
-  size_t shift = 0;  // Start in new wavelet;
-  if (old_center > new_center) {
-    // Wavelet has become smaller.
-    start = old_center - new_center;
-    end   = nw + start;
-  }
-  else {
-    shift = new_center - old_center;
-  }
 
-  for (size_t i = start; i < end; ++i) {
-    new_wavelet[i + shift] = wavelet_[i - start];
+  for (size_t i = 0; i < wavelet_.size(); ++i) {
+    // Skip samples outside the new wavelet.
+    if (i + new_center >= old_center && i + new_center - old_center < nw)
+      new_wavelet[i + new_center - old_center] = wavelet_[i];
   }
 
   wavelet_.swap(new_wavelet);
-- 
2.43.0


From 164914dd25d1d32d805f112c3abd810a3209eb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:14 +0000
Subject: [PATCH 089/198] fix: accept multiples of the sample interval that are
 not exact

---
 src/nrlib/wavelet/wavelet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/wavelet/wavelet.cpp b/src/nrlib/wavelet/wavelet.cpp
index 243d2c0..cb55368 100644
--- a/src/nrlib/wavelet/wavelet.cpp
+++ b/src/nrlib/wavelet/wavelet.cpp
@@ -84,7 +84,7 @@ void Wavelet::Resample(double new_dt)
   if (NRLib::IsEqual(new_dt, dt_))
     return;
 
-  if (new_dt < dt_ || !NRLib::IsZero(std::fmod(new_dt, dt_)))
+  if (new_dt < dt_ || !NRLib::IsEqual(new_dt / dt_, std::floor(new_dt / dt_ + 0.5)))
     throw NRLib::Exception("Resampling only supported if new dt is a multiple of original dt.");
 
   int subsampling = static_cast<int>(std::floor(new_dt / dt_ + 0.5));
-- 
2.43.0


From b23eb87e9fdba7ef9e5a032f24196fa525b387b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:14 +0000
Subject: [PATCH 090/198] fix: do not keep samples of the earlier wavelet when
 one is read from file

---
 src/nrlib/wavelet/waveletio.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/nrlib/wavelet/waveletio.cpp b/src/nrlib/wavelet/waveletio.cpp
index c98c388..8e6d17a 100644
--- a/src/nrlib/wavelet/waveletio.cpp
+++ b/src/nrlib/wavelet/waveletio.cpp
@@ -134,9 +134,8 @@ void ReadJasonAsciiFile(const std::string& filename, Wavelet& wavelet)
     size_t center = static_cast<size_t>(-start/dt + 0.5);
     size_t nw     = ReadNext<size_t>(infile, line_number);
 
-    wavelet.SetSampleInterval(dt);
     size_t data_length = NRLibPrivate::FindWaveletLength(nw, center);
-    wavelet.Resize(data_length);
+    wavelet = Wavelet(data_length, dt);
     size_t shift = NRLibPrivate::FindWaveletShift(data_length, center);
 
     for (size_t i = 0; i < nw; ++i) {
@@ -262,11 +261,10 @@ void ReadSyntoolOWFile(const std::string& filename, Wavelet& wavelet)
   }
 
   size_t center = static_cast<size_t>(time_zero_sample);
-  wavelet.SetSampleInterval(sample_interval);
   size_t nw     = static_cast<size_t>(n_samples);
 
   size_t data_length = NRLibPrivate::FindWaveletLength(nw, center);
-  wavelet.Resize(data_length);
+  wavelet = Wavelet(data_length, sample_interval);
   size_t shift = NRLibPrivate::FindWaveletShift(data_length, center);
 
   try {
@@ -371,10 +369,9 @@ void ReadStrataFile(const std::string& filename, Wavelet& wavelet)
   }
 
   size_t center = time_zero_sample - 1;
-  wavelet.SetSampleInterval(sample_interval);
 
   size_t data_length = NRLibPrivate::FindWaveletLength(n_samples, center);
-  wavelet.Resize(data_length);
+  wavelet = Wavelet(data_length, sample_interval);
   size_t shift = NRLibPrivate::FindWaveletShift(data_length, center);
 
   wavelet[shift] = ParseType<double>(line);
@@ -410,10 +407,8 @@ void ReadLandmarkAsciiFile(const std::string& filename, Wavelet& wavelet)
     size_t center = ReadNext<size_t>(infile, line_number);
     double dt     = ReadNext<double>(infile, line_number);
 
-    wavelet.SetSampleInterval(dt);
-
     size_t data_length = NRLibPrivate::FindWaveletLength(nw, center);
-    wavelet.Resize(data_length);
+    wavelet = Wavelet(data_length, dt);
     size_t shift = NRLibPrivate::FindWaveletShift(data_length, center);
 
     for (size_t i = 0; i < nw; ++i) {
-- 
2.43.0


From bfda64b2af8912d5863a149439899ff9b0ef55e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:14 +0000
Subject: [PATCH 091/198] fix: reject wavelet files where time zero is outside
 the wavelet

---
 src/nrlib/wavelet/waveletio.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/wavelet/waveletio.cpp b/src/nrlib/wavelet/waveletio.cpp
index 8e6d17a..0eac7a6 100644
--- a/src/nrlib/wavelet/waveletio.cpp
+++ b/src/nrlib/wavelet/waveletio.cpp
@@ -51,7 +51,7 @@ bool CheckFileIsJasonAscii(const std::string& filename)
   OpenRead(file, filename);
 
   try {
-    int line_number;
+    int line_number = 0;
     std::string line = NRLibPrivate::JasonGetFirstNonCommentLine(file, line_number);
     std::string data_type, data_unit, depth_type, depth_unit;
     NRLibPrivate::JasonParseUnits(line, data_type, data_unit, depth_type, depth_unit);
@@ -131,6 +131,8 @@ void ReadJasonAsciiFile(const std::string& filename, Wavelet& wavelet)
 
     double start  = ReadNext<double>(infile, line_number);
     double dt     = ReadNext<double>(infile, line_number);
+    if (!(-start/dt + 0.5 >= 0.0))
+      throw FileFormatError("The time zero sample is outside the wavelet.");
     size_t center = static_cast<size_t>(-start/dt + 0.5);
     size_t nw     = ReadNext<size_t>(infile, line_number);
 
@@ -532,7 +534,8 @@ void JasonParseUnits(const std::string & line,
 
 size_t FindWaveletLength(size_t file_wavelet_length, size_t center_index)
 {
-  assert(file_wavelet_length > center_index);
+  if (center_index >= file_wavelet_length)
+    throw FileFormatError("The time zero sample is outside the wavelet.");
 
   size_t n_before = center_index;
   size_t n_after  = file_wavelet_length - center_index - 1;
-- 
2.43.0


From 9b1efc702aeec509106cbedbbf7deb00accab81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:14 +0000
Subject: [PATCH 092/198] fix: read Syntool wavelet files whose last line has
 no line end

---
 src/nrlib/wavelet/waveletio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/wavelet/waveletio.cpp b/src/nrlib/wavelet/waveletio.cpp
index 0eac7a6..d297bac 100644
--- a/src/nrlib/wavelet/waveletio.cpp
+++ b/src/nrlib/wavelet/waveletio.cpp
@@ -273,7 +273,7 @@ void ReadSyntoolOWFile(const std::string& filename, Wavelet& wavelet)
     for (size_t i = 0; i < nw; ++i) {
       double val;
       GetNextNonEmptyLine(infile, line_number, line);
-      if (infile.eof())
+      if (line.empty())
         throw EndOfFile();
       std::vector<std::string> tokens = GetTokens(line);
       if (tokens.size() == 2) {
-- 
2.43.0


From 6ce4bf4ad39a0d9f28d14efba4a8f6167d69eee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:29 +0000
Subject: [PATCH 093/198] fix: detect data after the last sample of Strata
 wavelet files

---
 src/nrlib/wavelet/waveletio.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/wavelet/waveletio.cpp b/src/nrlib/wavelet/waveletio.cpp
index d297bac..6311c99 100644
--- a/src/nrlib/wavelet/waveletio.cpp
+++ b/src/nrlib/wavelet/waveletio.cpp
@@ -382,10 +382,8 @@ void ReadStrataFile(const std::string& filename, Wavelet& wavelet)
     wavelet[i + shift] = ReadNext<double>(infile, line_number);
   }
 
-  if (std::getline(infile, line)) {
-    if (line.find_first_not_of(Whitespace()) != std::string::npos) {
-      throw FileFormatError("Unexpected data at end of file.");
-    }
+  if (!CheckEndOfFile(infile)) {
+    throw FileFormatError("Unexpected data at end of file.");
   }
 }
 
-- 
2.43.0


From cd362d62861b686f785d1ef6a0790bfb5c730127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:37 +0000
Subject: [PATCH 094/198] fix: write the textual SEG-Y header in EBCDIC

The EBCDIC text in the source had been replaced by Unicode replacement
characters, so the header was neither EBCDIC nor in lines of 80 characters.
---
 src/nrlib/segy/commonheaders.cpp | 107 +++++++------------------------
 1 file changed, 23 insertions(+), 84 deletions(-)

diff --git a/src/nrlib/segy/commonheaders.cpp b/src/nrlib/segy/commonheaders.cpp
index 92abd48..f078476 100644
--- a/src/nrlib/segy/commonheaders.cpp
+++ b/src/nrlib/segy/commonheaders.cpp
@@ -52,101 +52,40 @@ const unsigned char transtab[] =
 /// Translates an ASCII character to EBCDIC.
 static unsigned char ascii2ebcdic(unsigned char c)
 {
-  if (c > 128)
+  if (c > 127)
     return 0;
   return transtab[c];
 }
 
+/// Sets up a header where each line holds only its line number, e.g. "C 1".
 static void emptyHeader(std::string &ebcdicH)
 {
+  std::string text(3200, ' ');
+  for (int i = 0; i < 40; ++i) {
+    char label[16];
+    sprintf(label, "C%2d", i + 1);
+    text.replace(i*80, 3, label);
+  }
+  text.replace(39*80 + 4, 10, "END EBCDIC");
+
   ebcdicH = "";
-   ebcdicH+=  "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+=  "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@���@������@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+='@';
+  for (size_t i = 0; i < text.size(); ++i)
+    ebcdicH += ascii2ebcdic(text[i]);
+}
+
+static void setText(std::string &ebcdicH, int line, const std::string& text)
+{
+  for (size_t i = 0; i < text.size(); ++i)
+    ebcdicH[line*80 + 12 + i] = ascii2ebcdic(text[i]);
 }
 
 static void oldHeader(std::string &ebcdicH)
 {
-  ebcdicH = "";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "���@@@@@@@@@����@����@����@���@�������@��@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "���@@@@@@@@@���@�����@�������@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@���������@��@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@������@�����@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@����@�����@����������@@@@@@@@@@@���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@���@�����������@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@��@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@���@���������@���������@������@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@����@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@���@������@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="@";
+  emptyHeader(ebcdicH);
+  setText(ebcdicH, 11, "THIS SEGY FILE WAS WRITTEN BY");
+  setText(ebcdicH, 13, "NRLIB");
+  setText(ebcdicH, 15, "DEVELOPED BY");
+  setText(ebcdicH, 17, "THE NORWEGIAN COMPUTING CENTER");
 }
 
 TextualHeader::TextualHeader()
-- 
2.43.0


From 400a857bb6f6951db529eac1f217fc3908c69a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:37 +0000
Subject: [PATCH 095/198] fix: recognise the headers inside concatenated SEG-Y
 files

The EBCDIC characters compared with had been replaced by Unicode
replacement characters, and the status was never reset.
---
 src/nrlib/segy/traceheader.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/segy/traceheader.cpp b/src/nrlib/segy/traceheader.cpp
index 794ae2d..29a0328 100644
--- a/src/nrlib/segy/traceheader.cpp
+++ b/src/nrlib/segy/traceheader.cpp
@@ -427,13 +427,15 @@ TraceHeader::TraceHeader(const TraceHeaderFormat& format)
 
 void TraceHeader::Read(NRLib::BigFile& in_file)
 {
+  status_ = 0;
   if (!(in_file.read(buffer_,240))) {
     // end of file
     throw EndOfFile();
   }
 
-  if (buffer_[0] == '�' && buffer_[1] == '@' && buffer_[2] == '�'
-      && buffer_[80] == '�' && buffer_[160] == '�')
+  // "C 1", "C" and "C" at the start of the first three lines, in EBCDIC.
+  if (buffer_[0] == '\xc3' && buffer_[1] == '\x40' && buffer_[2] == '\xf1'
+      && buffer_[80] == '\xc3' && buffer_[160] == '\xc3')
   {
     // This is not a trace header, but the start of an EDBDIC-header.
     // Set file pointer at end of EDBDIC header.
-- 
2.43.0


From 2e38e8afa04a622234c49e38baeeda5f5a69824d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:06 +0000
Subject: [PATCH 096/198] fix: reject inlines and crosslines outside the SEG-Y
 grid

---
 src/nrlib/segy/segygeometry.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index f3e80e0..b6cd962 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -920,6 +920,9 @@ SegyGeometry::FindIndex(int IL, int XL, size_t &i, size_t &j) const
 {
   int ii, jj;
 
+  if (IL < minIL_ || IL > maxIL_ || XL < minXL_ || XL > maxXL_)
+    throw Exception("(IL, XL) = (" + NRLib::ToString(IL) + ", " + NRLib::ToString(XL) + ") is outside the SEGY cube.");
+
   if (IL0_ == minIL_) {
     ii = (IL - IL0_) / ILStep_;
   }
@@ -938,7 +941,7 @@ SegyGeometry::FindIndex(int IL, int XL, size_t &i, size_t &j) const
     std::swap(ii, jj);
   }
 
-  if (ii < 0 || jj < 0 || ii > static_cast<int>(nx_) || jj > static_cast<int>(ny_))
+  if (ii < 0 || jj < 0 || ii >= static_cast<int>(nx_) || jj >= static_cast<int>(ny_))
     throw Exception("Indexes (i, j) = (" + NRLib::ToString(ii) + ", " + NRLib::ToString(jj) + ") outside grid "
                     "found for (IL, XL) = (" + NRLib::ToString(IL) + ", " + NRLib::ToString(XL) + ")");
 
-- 
2.43.0


From c994b7deb48e8afc8c223822065ccdbc69a87727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:06 +0000
Subject: [PATCH 097/198] fix: initialise the members of SEG-Y trace headers

---
 src/nrlib/segy/traceheader.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/segy/traceheader.cpp b/src/nrlib/segy/traceheader.cpp
index 29a0328..2ff50fb 100644
--- a/src/nrlib/segy/traceheader.cpp
+++ b/src/nrlib/segy/traceheader.cpp
@@ -417,7 +417,16 @@ TraceHeader::TraceHeader(const TraceHeaderFormat& format)
   : format_(format),
     status_(0),
     scal_co_(1),
-    scalcoinitial_(1)
+    scalcoinitial_(1),
+    utmx_(0.0),
+    utmy_(0.0),
+    inline_(0),
+    crossline_(0),
+    start_time_(0),
+    ns_(0),
+    dt_(0),
+    offset_(0.0),
+    useBinaryInline(false)
 {
   memset(buffer_, 0, 240);
   rmissing_ = RMISSING;
-- 
2.43.0


From 36ad17a876cbc7f27eb14509c0d29c5e686b5e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:06 +0000
Subject: [PATCH 098/198] fix: reset the coordinate scaling of a SEG-Y trace
 header when its scaling code is 0 or 1

---
 src/nrlib/segy/traceheader.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nrlib/segy/traceheader.cpp b/src/nrlib/segy/traceheader.cpp
index 2ff50fb..800f08c 100644
--- a/src/nrlib/segy/traceheader.cpp
+++ b/src/nrlib/segy/traceheader.cpp
@@ -500,6 +500,9 @@ void TraceHeader::Read(NRLib::BigFile& in_file)
       case 1000:
       case 10000:
         scal_co_ = static_cast<double>(scalcoinitial_);
+        break;
+      default:
+        scal_co_ = 1.0;
     }
   }
 }
@@ -728,6 +731,9 @@ void TraceHeader::SetScalCo(short scalcoinitial)
   case 1000:
   case 10000:
     scal_co_ = static_cast<double>(scalcoinitial);
+    break;
+  default:
+    scal_co_ = 1.0;
   }
 }
 
-- 
2.43.0


From a8b855e793bd64e7b9758a251b60838ac974fc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:44 +0000
Subject: [PATCH 099/198] fix: round coordinates written to SEG-Y trace headers

They were cut off, so 4612.3 scaled by 0.1 was written as 4612.2.
---
 src/nrlib/segy/traceheader.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/segy/traceheader.cpp b/src/nrlib/segy/traceheader.cpp
index 800f08c..1dd9d77 100644
--- a/src/nrlib/segy/traceheader.cpp
+++ b/src/nrlib/segy/traceheader.cpp
@@ -21,6 +21,7 @@
 
 #include "traceheader.hpp"
 
+#include <cmath>
 #include <cstdio>
 #include <cstring>
 #include <sstream>
@@ -523,10 +524,10 @@ int TraceHeader::Write(NRLib::BigFile& outFile)
     WriteInt16BE(&buffer[format_.GetScalCoLoc() - 1], scalcoinitial_);
 
   if (format_.GetUtmxLoc() > 0)
-    WriteInt32BE(&buffer[format_.GetUtmxLoc() - 1], static_cast<int>(utmx_));
+    WriteInt32BE(&buffer[format_.GetUtmxLoc() - 1], static_cast<int>(floor(utmx_ + 0.5)));
 
   if (format_.GetUtmyLoc() > 0)
-    WriteInt32BE(&buffer[format_.GetUtmyLoc() - 1], static_cast<int>(utmy_));
+    WriteInt32BE(&buffer[format_.GetUtmyLoc() - 1], static_cast<int>(floor(utmy_ + 0.5)));
 
   if (format_.GetInlineLoc() > 0)
     WriteInt32BE(&buffer[format_.GetInlineLoc() - 1], inline_);
-- 
2.43.0


From cd1b4bc98cfab816fe9e857caca3dc4b4c08315f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:44 +0000
Subject: [PATCH 100/198] fix: do not take the rest of a truncated SEG-Y file
 as a trace header

---
 src/nrlib/segy/traceheader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/segy/traceheader.cpp b/src/nrlib/segy/traceheader.cpp
index 1dd9d77..07284c0 100644
--- a/src/nrlib/segy/traceheader.cpp
+++ b/src/nrlib/segy/traceheader.cpp
@@ -438,7 +438,7 @@ TraceHeader::TraceHeader(const TraceHeaderFormat& format)
 void TraceHeader::Read(NRLib::BigFile& in_file)
 {
   status_ = 0;
-  if (!(in_file.read(buffer_,240))) {
+  if (in_file.read(buffer_,240) < 240) {
     // end of file
     throw EndOfFile();
   }
-- 
2.43.0


From 7f44f11020b8f799c36564878d232095faef9554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:44 +0000
Subject: [PATCH 101/198] fix: round the sample interval written to SEG-Y files

---
 src/nrlib/segy/commonheaders.cpp | 7 ++++++-
 src/nrlib/segy/segy.cpp          | 6 +++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/segy/commonheaders.cpp b/src/nrlib/segy/commonheaders.cpp
index f078476..f02515a 100644
--- a/src/nrlib/segy/commonheaders.cpp
+++ b/src/nrlib/segy/commonheaders.cpp
@@ -21,6 +21,7 @@
 
 #include "commonheaders.hpp"
 
+#include <cmath>
 #include <cstdio>
 #include <cstring>
 #include "../iotools/fileio.hpp"
@@ -141,6 +142,10 @@ BinaryHeader::BinaryHeader(NRLib::BigFile& file)
 
 
 BinaryHeader::BinaryHeader()
+  : format_(5),
+    lino_(1),
+    hns_(0),
+    hdt_(0)
 {
 }
 
@@ -169,7 +174,7 @@ void BinaryHeader::Write(NRLib::BigFile& file, double dz, size_t nz, short n_sam
   NRLib::WriteInt32BE(&buffer[8], 1);             // Reel number
   NRLib::WriteInt16BE(&buffer[12], n_sam_per_ens);
   NRLib::WriteInt16BE(&buffer[14], n_sam_per_ens);
-  NRLib::WriteInt16BE(&buffer[16], static_cast<short>(1000 * dz));
+  NRLib::WriteInt16BE(&buffer[16], static_cast<short>(floor(1000 * dz + 0.5)));
   NRLib::WriteInt16BE(&buffer[20], static_cast<short>(nz));
   NRLib::WriteInt16BE(&buffer[24], 5);             // Format - IEEE 4-byte floating point
   NRLib::WriteInt16BE(&buffer[26], n_sam_per_ens);
diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index fd076dd..b03d13e 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -1283,7 +1283,7 @@ SegY::WriteTrace(double x, double y, int IL, int XL, const std::vector<float> &d
   assert(data.size() == nz_);
   TraceHeader header(trace_header_format_);
   header.SetNSamples(nz_);
-  header.SetDt(static_cast<unsigned short>(dz_ * 1000));
+  header.SetDt(static_cast<unsigned short>(floor(dz_*1000 + 0.5)));
   header.SetStartTime(static_cast<float>(z0_));
   header.SetScalCo(scalcoinitial);
   header.SetOffset(offset);
@@ -1305,7 +1305,7 @@ SegY::WriteTrace(double x, double y, const std::vector<float> &data, const Volum
   assert(geometry_ != 0);
   TraceHeader header(trace_header_format_);
   header.SetNSamples(nz_);
-  header.SetDt(static_cast<unsigned short>(dz_*1000));
+  header.SetDt(static_cast<unsigned short>(floor(dz_*1000 + 0.5)));
   header.SetStartTime(static_cast<float>(z0_));
   header.SetScalCo(scalcoinitial);
   header.SetOffset(offset);
@@ -1438,7 +1438,7 @@ SegY::WriteAllTracesToFile(short scalcoinitial)
       y = traces_[i]->GetY();
       TraceHeader header(trace_header_format_);
       header.SetNSamples(nz_);
-      header.SetDt(static_cast<unsigned short>(dz_*1000));
+      header.SetDt(static_cast<unsigned short>(floor(dz_*1000 + 0.5)));
       header.SetScalCo(scalcoinitial);
       header.SetUtmx(static_cast<double>(x));
       header.SetUtmy(static_cast<double>(y));
-- 
2.43.0


From 7999a3f4902d18b03aaf58fdade440f1fbdaa62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:44 +0000
Subject: [PATCH 102/198] fix: read SEG-Y files with a sample interval that is
 not a whole number of milliseconds

---
 src/nrlib/segy/segy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index b03d13e..2d1f45e 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -887,7 +887,7 @@ SegY::ReadHeader(TraceHeader & header)
     duplicateHeader = false;
     break;
   }
-  if (header.GetDt()/1000 != dz_) {
+  if (header.GetDt()/1000.0 != dz_) {
     if(dz_ == 0)
       dz_ = static_cast<double>(header.GetDt()/1000.0);
     else if(header.GetDt() > 0) {
@@ -1193,7 +1193,7 @@ SegY::ReadAndSetBinaryHeader(NRLib::BigFile& file)
 {
   binary_header_ = new BinaryHeader(file);
   nz_ = binary_header_->GetHns();
-  dz_ = static_cast<double>(binary_header_->GetHdt() / 1000);
+  dz_ = static_cast<double>(binary_header_->GetHdt() / 1000.0);
   if (binary_header_->GetFormat() == 3)
     datasize_ = 2;
   else
-- 
2.43.0


From 978596493c60d507f29b6e2817df5fa8081909b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:44 +0000
Subject: [PATCH 103/198] fix: do not read data for a SEG-Y trace that is not
 in the file

---
 src/nrlib/segy/segy.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index 2d1f45e..75638b7 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -412,6 +412,8 @@ SegY::GetTraceData(double x, double y, std::vector<float> & result, const Volume
     throw Exception("Can not find data without geometry set.\n");
 
   std::streampos pos = GetFilePos(x, y);
+  if (pos == static_cast<std::streampos>(0))
+    throw Exception("Trace is not defined.\n");
 
   bool outside = false;
   double z_top = -1; //Indicates inactive.
-- 
2.43.0


From ba19a93208897e252b3008773d3c57e91d68b5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:44 +0000
Subject: [PATCH 104/198] fix: read SEG-Y files with one trace, and report
 those with none

---
 src/nrlib/segy/segy.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index 75638b7..26605f5 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -614,6 +614,9 @@ SegY::ReadAllTraces(const Volume * volume,
                     bool           onlyVolume,
                     bool           relative_padding)
 {
+  if (n_traces_ == 0)
+    throw Exception("No traces in file \"" + file_.GetFileName().string() + "\".");
+
   single_trace_ = false;
   traces_.resize(n_traces_);
 
@@ -699,7 +702,7 @@ SegY::ReadAllTraces(const Volume * volume,
   }
 
   int count = 0;
-  for (unsigned int i=1 ; i<traces_.size() ; i++)
+  for (unsigned int i=0 ; i<traces_.size() ; i++)
     if (traces_[i] != NULL)
       count++;
   if (count == 0)
-- 
2.43.0


From 8d04bfa243668d7392c16f9a75df9c0fdd8faf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:44 +0000
Subject: [PATCH 105/198] fix: do not interpolate SEG-Y values with traces at
 the other side of the grid

---
 src/nrlib/segy/segy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index 26605f5..83735e4 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -1088,9 +1088,9 @@ SegY::GetValue(double x, double y, double z, int outsideMode) const
         // Along x:
         v0 = rmissing_;
         v2 = rmissing_;
-        if (index >= 1 && traces_[index-1] != NULL)
+        if (i >= 1 && traces_[index-1] != NULL)
           v0 = traces_[index-1]->GetValue(zind);
-        if (index+1 <= maxInd && traces_[index+1] != NULL)
+        if (static_cast<size_t>(i+1) < nx && traces_[index+1] != NULL)
           v2 = traces_[index+1]->GetValue(zind);
         if (v0 == rmissing_)
         {
-- 
2.43.0


From e4fff8bfa90f5b355ca6a9047a8281c0b1fd46f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:44 +0000
Subject: [PATCH 106/198] fix: count and locate the traces of concatenated
 SEG-Y files

---
 src/nrlib/segy/segy.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index 83735e4..81bc807 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -1506,8 +1506,13 @@ SegY::FindNumberOfTraces(void)
   {
     if (file_.eof() == false)
     {
+      try {
+        ReadHeader(traceHeader);
+      }
+      catch (EndOfFile & ) {
+        break;
+      }
       ntr++;
-      ReadHeader(traceHeader);
       file_.read(buffer, static_cast<std::streamsize>(nz_ * datasize_));
     }
   }
@@ -1585,12 +1590,18 @@ SegY::FindGridGeometry(bool only_ilxl, bool keep_header, bool remove_bogus_trace
           file_.seek(nz_*datasize_, SEEK_CUR);
           if (only_ilxl == true)
             traces_[i]->RemoveXY();
-          traces_[i]->SetFilePos(pos);
-          pos += step;
           if (extra_header == true)
             pos += 3600;
+          traces_[i]->SetFilePos(pos);
+          pos += step;
         }
       }
+      catch (EndOfFile & ) {
+        // The number of traces is an upper limit for concatenated files.
+        traces_.resize(i);
+        n_traces_ = i;
+        break;
+      }
       catch (Exception & e) {
         throw(Exception("In trace number " + ToString(i) + ":\n" + e.what()));
       }
-- 
2.43.0


From 729553c082a9e74b1b1cfd3a32b104fd92ce1873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:44 +0000
Subject: [PATCH 107/198] fix: copy SEG-Y traces without a trace header

---
 src/nrlib/segy/segytrace.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/segy/segytrace.cpp b/src/nrlib/segy/segytrace.cpp
index 7439fa2..edc44bd 100644
--- a/src/nrlib/segy/segytrace.cpp
+++ b/src/nrlib/segy/segytrace.cpp
@@ -182,7 +182,10 @@ SegYTrace::SegYTrace(const SegYTrace& trace)
   table_index_(trace.table_index_),
   file_position_(trace.file_position_)
 {
-  trace_header_ = new TraceHeader(*trace.trace_header_);
+  if (trace.trace_header_ != NULL)
+    trace_header_ = new TraceHeader(*trace.trace_header_);
+  else
+    trace_header_ = NULL;
 }
 
 SegYTrace::~SegYTrace()
-- 
2.43.0


From c0834775d6037de692650a920dffcb9a0d83e651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:18 +0000
Subject: [PATCH 108/198] fix: get whole traces from SEG-Y files that start at
 negative times

---
 src/nrlib/segy/segy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index 81bc807..043cccb 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -416,8 +416,8 @@ SegY::GetTraceData(double x, double y, std::vector<float> & result, const Volume
     throw Exception("Trace is not defined.\n");
 
   bool outside = false;
-  double z_top = -1; //Indicates inactive.
-  double z_bot = -1; //Indicates inactive.
+  double z_top = z0_; //Indicates inactive.
+  double z_bot = z0_; //Indicates inactive.
   if(volume != NULL) {
     try {
       z_top = volume->GetTopSurface().GetZ(x,y);
-- 
2.43.0


From 8871c0b3865557b0a3669a505ca68e7922ecb6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:14 +0000
Subject: [PATCH 109/198] fix: recognise SEG-Y trace header formats in files
 sorted on crosslines

---
 src/nrlib/segy/segy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index 043cccb..cb71f97 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -1937,7 +1937,7 @@ void SegY::FindDeltaILXL(const TraceHeader& t1, const TraceHeader& t2, const Tra
   xl3 = t3.GetCrossline();
 
   double teller = (xl2 - xl1)*(x3 - x1) - (xl3 - xl1)*(x2 - x1);
-  double nevner = (xl2 - xl1)*(il3 - il1) + (xl3 - xl1)*(il2 - il1);
+  double nevner = (xl2 - xl1)*(il3 - il1) - (xl3 - xl1)*(il2 - il1);
   dil = teller/nevner;
-  dxl = ((x2-x1) - (il2-il1)*dil) / (xl2 - xl1);
+  dxl = ((x2 - x1)*(il3 - il1) - (x3 - x1)*(il2 - il1)) / nevner;
 }
-- 
2.43.0


From cc1a7bf6bed82de8ed4de48361e3e0fc2009db72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:14 +0000
Subject: [PATCH 110/198] fix: compare SEG-Y traces on different inlines and
 crosslines without integer division

---
 src/nrlib/segy/segy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index cb71f97..1c013ea 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -191,10 +191,10 @@ bool SegY::CompareTraces(const TraceHeader& header1, const TraceHeader& header2,
     int i,j;
     double prodSum = utmDist/6.25;
     double prodSumSqRelXL = prodSum*prodSum/deltaxlSq;
-    double deltailxlRelSq = deltailSq/deltaxlSq;
+    double deltailxlRelSq = static_cast<double>(deltailSq)/deltaxlSq;
     i = static_cast<int>(floor(0.5+prodSum/static_cast<double>(deltail)));
     while(i > 0 && !ok) {
-      int j0 = static_cast<int>(floor(sqrt(prodSumSqRelXL-i*i*deltailxlRelSq)));
+      int j0 = static_cast<int>(floor(sqrt(std::max(prodSumSqRelXL-i*i*deltailxlRelSq, 0.0))));
       for(j=j0;j<=j0+1;j++) {
         k = utmDist/sqrt(static_cast<double>(i*i*deltailSq+j*j*deltaxlSq));
         double help = fmod(k,6.25);
-- 
2.43.0


From 92ce4f9b4c1a7281b792b827f736b36490b62cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:13 +0000
Subject: [PATCH 111/198] fix: initialise the members of SEG-Y volumes made for
 writing

---
 src/nrlib/segy/segy.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index 1c013ea..4350b8f 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -222,6 +222,9 @@ SegY::SegY(const std::string       & fileName,
   binary_header_         = NULL;
   sampling_inconsistency_ = false;
   n_traces_per_ensamble_ = 1;
+  single_trace_          = false;
+  n_traces_              = 0;
+  datasize_              = 4;
 
   file_.OpenWrite(fileName);
 
@@ -232,8 +235,17 @@ SegY::SegY(const std::string       & fileName,
 }
 
 SegY::SegY() {
-  geometry_              = NULL;
-  binary_header_         = NULL;
+  geometry_               = NULL;
+  binary_header_          = NULL;
+  single_trace_           = false;
+  n_traces_               = 0;
+  datasize_               = 4;
+  nz_                     = 0;
+  z0_                     = 0.0;
+  dz_                     = 0.0;
+  rmissing_               = segyRMISSING;
+  n_traces_per_ensamble_  = 1;
+  sampling_inconsistency_ = false;
 }
 
 SegY::SegY(const StormContGrid     * storm_grid,
@@ -250,6 +262,10 @@ SegY::SegY(const StormContGrid     * storm_grid,
   geometry_               = NULL;
   binary_header_          = NULL;
   sampling_inconsistency_ = false;
+  n_traces_per_ensamble_  = 1;
+  single_trace_           = false;
+  n_traces_               = 0;
+  datasize_               = 4;
 
   int i,k,j;
   TextualHeader header = TextualHeader::standardHeader();
-- 
2.43.0


From 3255e9894679896d9b9283210fbdac8fa1f7ca70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:13 +0000
Subject: [PATCH 112/198] fix: do not write outside the trace when a storm grid
 starts above or ends outside the SEG-Y range

---
 src/nrlib/segy/segy.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index 4350b8f..c5d3a4b 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -317,6 +317,8 @@ SegY::SegY(const StormContGrid     * storm_grid,
           printf("Internal warning: SEGY-grid too small (%d, %d needed). Truncating data.\n", nz, end_data);
           end_data = nz;
         }
+        end_data   = std::max(end_data, 0);
+        first_data = std::min(std::max(first_data, 0), nz);
         for (k = 0; k < first_data; k++) {
           data_vec[k] = 0.0;
         }
-- 
2.43.0


From 44034836eacda80670cbb97a8ff1c4fd3fa43035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:13 +0000
Subject: [PATCH 113/198] fix: do not write outside the SEG-Y trace when the
 data reach outside its range

---
 src/nrlib/segy/segy.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index c5d3a4b..9be68d4 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -1276,12 +1276,14 @@ SegY::StoreTrace(double x, double y, const std::vector<float> &data, const Volum
     }
     else
     {
-      size_t firstData = static_cast<size_t>((ztop-z0_) / dz_);
-      for (k = 0; k < firstData; k++)
+      size_t firstData = static_cast<size_t>(std::max((ztop-z0_) / dz_, 0.0));
+      for (k = 0; k < std::min(firstData, nz_); k++)
         trace[k] = topVal; //data[0];
-      for (k = firstData; k < firstData + data.size(); k++)
+      firstData = std::min(firstData, nz_);
+      size_t endData = std::min(firstData + data.size(), nz_);
+      for (k = firstData; k < endData; k++)
         trace[k] = data[k - firstData];
-      for (k = firstData + data.size(); k < nz_; k++)
+      for (k = endData; k < nz_; k++)
         trace[k] = baseVal; //data[simbox_->getnz()-1];
     }
 
@@ -1358,10 +1360,10 @@ SegY::WriteTrace(double x, double y, const std::vector<float> &data, const Volum
     }
     else
     {
-      size_t firstData = static_cast<size_t>((ztop-z0_)/dz_);
-      for (k = 0 ; k < firstData; k++)
+      size_t firstData = static_cast<size_t>(std::max((ztop-z0_)/dz_, 0.0));
+      for (k = 0 ; k < firstData && k < nz_; k++)
         trace[k] = topVal; //data[0];
-      for ( ; k < firstData + nData; k++)
+      for ( ; k < firstData + nData && k < nz_; k++)
         trace[k] = data[k-firstData];
       for ( ; k < nz_; k++)
         trace[k] = baseVal; //data[simbox_->getnz()-1];
@@ -1397,11 +1399,12 @@ SegY::WriteTrace(const TraceHeader & origTraceHeader,
   }
   else
   {
-    size_t firstData = static_cast<size_t>((z-z0_)/dz_);
+    size_t firstData = std::min(static_cast<size_t>(std::max((z-z0_)/dz_, 0.0)), nz_);
+    size_t nData     = std::min(std::min(data.size(), nz), nz_ - firstData);
 
     std::fill_n(trace.begin(), firstData, topVal);
-    std::copy(data.begin(), data.end(), trace.begin() + firstData);
-    std::fill(trace.begin() + firstData + nz, trace.end(), baseVal);
+    std::copy(data.begin(), data.begin() + nData, trace.begin() + firstData);
+    std::fill(trace.begin() + firstData + nData, trace.end(), baseVal);
   }
   WriteBinaryFloatArray(file_, trace.begin(), trace.end());
 }
-- 
2.43.0


From ae7d3eff056441c820f578616dc95c1bb835d7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:13 +0000
Subject: [PATCH 114/198] fix: number inlines along the second axis in SEG-Y
 geometries made from grids and surfaces

---
 src/nrlib/segy/segygeometry.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index b6cd962..7b5cc6c 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -768,12 +768,12 @@ SegyGeometry::SegyGeometry(double x0, double y0, double dx, double dy, size_t nx
   IL0_         = 0;
   XL0_         = 0;
   minIL_       = 0;
-  maxIL_       = static_cast<int>(nx - 1);
+  maxIL_       = static_cast<int>(ny - 1);
   ILStep_      = 1;
   minXL_       = 0;
-  maxXL_       = static_cast<int>(ny - 1);
+  maxXL_       = static_cast<int>(nx - 1);
   XLStep_      = 1;
-  firstAxisIL_ = true;
+  firstAxisIL_ = false;
 }
 
 SegyGeometry::SegyGeometry(double x0, double y0, double dx, double dy, size_t nx, size_t ny,
@@ -819,12 +819,12 @@ SegyGeometry::SegyGeometry(const RegularSurface<double> & surf)
   IL0_         = 0;
   XL0_         = 0;
   minIL_       = 0;
-  maxIL_       = static_cast<int>(nx_ - 1);
+  maxIL_       = static_cast<int>(ny_ - 1);
   ILStep_      = 1;
   minXL_       = 0;
-  maxXL_       = static_cast<int>(ny_ - 1);
+  maxXL_       = static_cast<int>(nx_ - 1);
   XLStep_      = 1;
-  firstAxisIL_ = true;
+  firstAxisIL_ = false;
 }
 
 SegyGeometry::SegyGeometry(const RegularSurfaceRotated<double> & surf)
@@ -847,12 +847,12 @@ SegyGeometry::SegyGeometry(const RegularSurfaceRotated<double> & surf)
   IL0_         = 0;
   XL0_         = 0;
   minIL_       = 0;
-  maxIL_       = static_cast<int>(nx_ - 1);
+  maxIL_       = static_cast<int>(ny_ - 1);
   ILStep_      = 1;
   minXL_       = 0;
-  maxXL_       = static_cast<int>(ny_ - 1);
+  maxXL_       = static_cast<int>(nx_ - 1);
   XLStep_      = 1;
-  firstAxisIL_ = true;
+  firstAxisIL_ = false;
 }
 
 SegyGeometry::SegyGeometry(const SegyGeometry *geometry)
-- 
2.43.0


From 5c1cf0f266b7e6cd352e01a396a115f8bc3c84e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:13 +0000
Subject: [PATCH 115/198] fix: round negative inlines and crosslines to the
 nearest

---
 src/nrlib/segy/segygeometry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index 7b5cc6c..fe844ea 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -1005,8 +1005,8 @@ SegyGeometry::FindContIndexFromContILXL(double il, double xl, double &xind, doub
 void
 SegyGeometry::FindILXL(double x, double y, int &IL, int &XL) const
 {
-  IL = static_cast<int>(0.5+in_line0_+(x-x0_)*il_stepX_+(y-y0_)*il_stepY_);
-  XL = static_cast<int>(0.5+cross_line0_+(x-x0_)*xl_stepX_+(y-y0_)*xl_stepY_);
+  IL = static_cast<int>(floor(0.5+in_line0_+(x-x0_)*il_stepX_+(y-y0_)*il_stepY_));
+  XL = static_cast<int>(floor(0.5+cross_line0_+(x-x0_)*xl_stepX_+(y-y0_)*xl_stepY_));
 }
 
 
-- 
2.43.0


From bbf58d67dd5108727dc54ece94c896fb22fa443c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:57 +0000
Subject: [PATCH 116/198] fix: find the SEG-Y geometry from traces that are not
 on a line

---
 src/nrlib/segy/segygeometry.cpp | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index fe844ea..3ac19a7 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -122,8 +122,8 @@ SegyGeometry::SegyGeometry(std::vector<SegYTrace *> & traces,
         int xl = traces[i]->GetCrossline();
         if (il != IMISSING && xl != IMISSING)
         {
-          double dist = sqrt(static_cast<double>((xl-xl0)*(xl-xl0) + (il-il0)*(il-il0)))
-                      + sqrt(static_cast<double>((xl-xl1)*(xl-xl1) + (il-il1)*(il-il1)));
+          // Use the trace that is furthest away from the line through 0 and 1.
+          double dist = std::abs(static_cast<double>(xl-xl0)*(il1-il0) - static_cast<double>(il-il0)*(xl1-xl0));
           if(dist > dist2) {
             dist2 = dist;
             ind2  = i;
@@ -154,22 +154,12 @@ SegyGeometry::SegyGeometry(std::vector<SegYTrace *> & traces,
     double dIL2 = static_cast<double>(il2-il0);
     double dXL2 = static_cast<double>(xl2-xl0);
 
-    if(dist2 > sqrt(dist1sq)+0.005) { //Standard case, not a simple straight line along XL, IL or diagonally..
-      double denominator;
-      if(dXL2 > 0) { //Rarely fails, but may happen with diagonal line.
-        denominator = dIL1-(dXL1/dXL2)*dIL2;
-        dxIL = (x1 - x0 - dXL1/dXL2*(x2-x0))/denominator;
-        dxXL = (x2 - x0 - dxIL*dIL2        )/dXL2;
-        dyIL = (y1 - y0 - dXL1/dXL2*(y2-y0))/denominator;
-        dyXL = (y2 - y0 - dyIL*dIL2        )/dXL2;
-      }
-      else {
-        denominator = dIL2-(dXL2/dXL1)*dIL1;
-        dxIL = (x2 - x0 - dXL2/dXL1*(x1-x0))/denominator;
-        dxXL = (x1 - x0 - dxIL*dIL1        )/dXL1;
-        dyIL = (y2 - y0 - dXL2/dXL1*(y1-y0))/denominator;
-        dyXL = (y1 - y0 - dyIL*dIL1        )/dXL1;
-      }
+    if(dist2 > 0.0) { //Standard case, not a simple straight line along XL, IL or diagonally..
+      double denominator = dIL1*dXL2 - dIL2*dXL1;
+      dxIL = ((x1 - x0)*dXL2 - (x2 - x0)*dXL1)/denominator;
+      dxXL = ((x2 - x0)*dIL1 - (x1 - x0)*dIL2)/denominator;
+      dyIL = ((y1 - y0)*dXL2 - (y2 - y0)*dXL1)/denominator;
+      dyXL = ((y2 - y0)*dIL1 - (y1 - y0)*dIL2)/denominator;
 
       LogKit::LogFormatted(LogKit::High,"\n                      x            y         IL       XL");
       LogKit::LogFormatted(LogKit::High,"\n--------------------------------------------------------\n");
-- 
2.43.0


From c6704fca7a0a6bc8a5f5c041197e989067345412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:57 +0000
Subject: [PATCH 117/198] fix: find the inline and crossline steps of SEG-Y
 volumes where the first line lacks neighbours

---
 src/nrlib/segy/segygeometry.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index 3ac19a7..da4845f 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -44,6 +44,16 @@ const int IMISSING = -99999;
 
 using namespace NRLib;
 
+static int GreatestCommonDivisor(int a, int b)
+{
+  while (b != 0) {
+    int r = a % b;
+    a = b;
+    b = r;
+  }
+  return a;
+}
+
 
 SegyGeometry::SegyGeometry(std::vector<SegYTrace *> & traces,
                            bool                       regularize_if_needed)
@@ -129,12 +139,10 @@ SegyGeometry::SegyGeometry(std::vector<SegYTrace *> & traces,
             ind2  = i;
           }
           int delta = abs(static_cast<int>(il)-prevIL);
-          if(delta > 0 && delta < deltaIL)
-            deltaIL = delta;
+          deltaIL = GreatestCommonDivisor(deltaIL, delta);
 
           delta = abs(static_cast<int>(xl)-prevXL);
-          if(delta > 0 && delta < deltaXL)
-            deltaXL = delta;
+          deltaXL = GreatestCommonDivisor(deltaXL, delta);
         }
       }
     }
-- 
2.43.0


From 18f8017c12896fad5df304d65b5c11eadab21aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:57 +0000
Subject: [PATCH 118/198] fix: find the direction of SEG-Y lines stored with
 decreasing inlines

---
 src/nrlib/segy/segygeometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index da4845f..714ff9e 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -205,7 +205,7 @@ SegyGeometry::SegyGeometry(std::vector<SegYTrace *> & traces,
     }
     else {
       if(dXL1 == 0 && dXL2 == 0) { //Single crossline or single trace.
-        if(dIL1 > 0) {
+        if(dIL1 != 0) {
           dxIL = (x1-x0)/dIL1;
           dyIL = (y1-y0)/dIL1;
         }
-- 
2.43.0


From 3ed38699d6e64f3947c6c10847880a5151a9d1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:57 +0000
Subject: [PATCH 119/198] fix: find positions accurately in SEG-Y geometries
 that are nearly along the axes

---
 src/nrlib/segy/segygeometry.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index 714ff9e..ed48322 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -1076,13 +1076,10 @@ SegyGeometry::FindXYFromContILXL(double IL, double XL, double &x, double &y) con
       xd = x0_-(yd-y0_)*sin_rot_/cos_rot_;
     }
   }
-  else if (std::abs(il_stepX_/xl_stepX_) < 1e-14 || std::abs(xl_stepY_/il_stepY_) < 1e-14) {
-    xd = x0_+(XL-cross_line0_)/xl_stepX_;
-    yd = y0_+(IL-in_line0_)/il_stepY_;
-  }
   else {
-    yd = y0_+(XL-cross_line0_-(IL-in_line0_)*xl_stepX_/il_stepX_)/(xl_stepY_-il_stepY_*xl_stepX_/il_stepX_);
-    xd = x0_+(IL-in_line0_-il_stepY_*(yd-y0_))/il_stepX_;
+    double det = il_stepX_*xl_stepY_ - il_stepY_*xl_stepX_;
+    xd = x0_+((IL-in_line0_)*xl_stepY_ - (XL-cross_line0_)*il_stepY_)/det;
+    yd = y0_+((XL-cross_line0_)*il_stepX_ - (IL-in_line0_)*xl_stepX_)/det;
   }
   x = xd;
   y = yd;
-- 
2.43.0


From 318525553b978cccf9456c50ad6965a14cb29b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:45 +0000
Subject: [PATCH 120/198] fix: set up SEG-Y geometries along the axes when
 corners differ by rounding only

---
 src/nrlib/segy/segygeometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index ed48322..b5741ca 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -637,7 +637,7 @@ SegyGeometry::SetupGeometry(double xRef, double yRef, int ilRef, int xlRef,
   double deltay = cornery[index_min_y] - cornery[index_max_x];
   if (deltax == 0.0) {
     assert(deltay != 0.0);
-    rot_ = 0.0;
+    rot_ = 0.5*NRLib::Pi;
   }
   else
     rot_ = atan(deltay / deltax);
-- 
2.43.0


From ba762d0415e48461894f749b507893509a18bc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:43 +0000
Subject: [PATCH 121/198] fix: end with an error when an Eclipse file ends
 inside the data of a keyword

---
 src/nrlib/eclipsegrid/eclipsetools.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/eclipsegrid/eclipsetools.cpp b/src/nrlib/eclipsegrid/eclipsetools.cpp
index 0dd9a85..91fd69e 100644
--- a/src/nrlib/eclipsegrid/eclipsetools.cpp
+++ b/src/nrlib/eclipsegrid/eclipsetools.cpp
@@ -27,6 +27,8 @@
 #include <fstream>
 #include <cctype>
 
+#include "../exception/exception.hpp"
+
 using namespace std;
 
 namespace NRLib {
@@ -38,12 +40,14 @@ void SkipComments( std::ifstream& in_file )
   bool comment = true;
 
   while (comment == true){
-    in_file.get(c);
+    if (!in_file.get(c))
+      return;
     if ( isspace(c) ){
 
     }
     else if (c == '-'){
-      in_file.get(c);
+      if (!in_file.get(c))
+        return;
       if (c == '-'){
         std::getline(in_file, line_removed);
       }
@@ -73,7 +77,11 @@ std::string ReadParameterBuffer(std::ifstream& in_file)
     counter+=K;
     buffer.resize(counter);
     in_file.read(&(buffer[counter-K]), K);
+    if (in_file.gcount() < static_cast<std::streamsize>(K))
+      buffer.resize(counter - K + static_cast<size_t>(in_file.gcount()));
     pos = buffer.find("/", counter-K);
+    if (pos == buffer.npos && !in_file)
+      throw EndOfFile();
   }
   if ( in_file.eof() ){
     in_file.clear();
-- 
2.43.0


From a819d0a4e799d332114168c398f0f5f7f8fc03d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:43 +0000
Subject: [PATCH 122/198] fix: end with an error when an Eclipse file ends
 inside FAULTS, MULTIPLY or GDORIENT

---
 src/nrlib/eclipsegrid/eclipsegrid.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegrid.cpp b/src/nrlib/eclipsegrid/eclipsegrid.cpp
index 7328e87..20878fa 100644
--- a/src/nrlib/eclipsegrid/eclipsegrid.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegrid.cpp
@@ -152,7 +152,8 @@ void EclipseGrid::ReadFaults(std::ifstream& in_file)
 
   bool be_in_loop = true;
   while (be_in_loop == true){
-    std::getline(in_file, in_line);
+    if (!std::getline(in_file, in_line))
+      throw EndOfFile();
     line_tokens = GetTokens(in_line);
     if ( line_tokens.empty() ){
     }
@@ -364,7 +365,8 @@ void EclipseGrid::ReadKeyword(std::ifstream& in_file, const std::string& token)
     string s;
     bool cont_read = true;
     while (cont_read){
-      std::getline(in_file, s);
+      if (!std::getline(in_file, s))
+        throw EndOfFile();
       std::vector<std::string> line_tokens;
       line_tokens = GetTokens(s);
       if ( line_tokens.empty() ){
@@ -379,7 +381,8 @@ void EclipseGrid::ReadKeyword(std::ifstream& in_file, const std::string& token)
     string s;
     bool cont_read = true;
     while (cont_read){
-      std::getline(in_file, s);
+      if (!std::getline(in_file, s))
+        throw EndOfFile();
       std::vector<std::string> line_tokens;
       line_tokens = GetTokens(s);
       if (!line_tokens.empty()) {
-- 
2.43.0


From 40425c9b711c10de988f4d5e60fa97462ae72b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:43 +0000
Subject: [PATCH 123/198] fix: accept Eclipse comments without a blank after
 the dashes

---
 src/nrlib/eclipsegrid/eclipsegrid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegrid.cpp b/src/nrlib/eclipsegrid/eclipsegrid.cpp
index 20878fa..2c369a5 100644
--- a/src/nrlib/eclipsegrid/eclipsegrid.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegrid.cpp
@@ -157,7 +157,7 @@ void EclipseGrid::ReadFaults(std::ifstream& in_file)
     line_tokens = GetTokens(in_line);
     if ( line_tokens.empty() ){
     }
-    else if (line_tokens[0] == "--"){ // -- is a comment
+    else if (line_tokens[0].substr(0, 2) == "--"){ // -- is a comment
     }
     else if (line_tokens[0] == "/"){
       be_in_loop = false;
@@ -336,7 +336,7 @@ void EclipseGrid::ReadFromFile(const std::string& file_name)
 void EclipseGrid::ReadKeyword(std::ifstream& in_file, const std::string& token)
 {
   // -- comment line
-  if (token == "--" || token == "NOECHO" || token == "ECHO"){
+  if (token.substr(0, 2) == "--" || token == "NOECHO" || token == "ECHO"){
     std::string s;
     std::getline(in_file, s);
   }
-- 
2.43.0


From 4e0f687b00e011b67aad76dda84de2b81809109a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:43 +0000
Subject: [PATCH 124/198] fix: keep the first and last character of unquoted
 fault names

---
 src/nrlib/eclipsegrid/eclipsegrid.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegrid.cpp b/src/nrlib/eclipsegrid/eclipsegrid.cpp
index 2c369a5..38b3182 100644
--- a/src/nrlib/eclipsegrid/eclipsegrid.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegrid.cpp
@@ -165,8 +165,11 @@ void EclipseGrid::ReadFaults(std::ifstream& in_file)
     else{
       if (line_tokens.size() == 9)
       {
-        line_tokens[0].erase(line_tokens[0].size() - 1, 1);
-        line_tokens[0].erase(0, 1);
+        // Remove the 's
+        if (line_tokens[0].size() > 1 && line_tokens[0][0] == '\'' && line_tokens[0][line_tokens[0].size() - 1] == '\'') {
+          line_tokens[0].erase(line_tokens[0].size() - 1, 1);
+          line_tokens[0].erase(0, 1);
+        }
         faults_[line_tokens[0]].SetName(line_tokens[0]);
         faults_[line_tokens[0]].ReadSegments(line_tokens);
       }
-- 
2.43.0


From 4d149aed9279f022502bc746f7667bcee2e3514f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:43 +0000
Subject: [PATCH 125/198] fix: transform local Eclipse coordinates for all
 directions of the map axes

---
 src/nrlib/eclipsegrid/eclipsegrid.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegrid.cpp b/src/nrlib/eclipsegrid/eclipsegrid.cpp
index 38b3182..3d36665 100644
--- a/src/nrlib/eclipsegrid/eclipsegrid.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegrid.cpp
@@ -303,15 +303,13 @@ void EclipseGrid::ReadFromFile(const std::string& file_name)
   if (local_coord == true) {
     if (has_map_axes == true) {
       NRLib::Transformation transformation;
-      double vector_length = sqrt( pow((map_ax_x3 - map_ax_x2), 2) + pow( (map_ax_y3 - map_ax_y2), 2) );
-      double theta = acos( (map_ax_x3 - map_ax_x2)/vector_length );
-
-      transformation.RotateZ(theta);
+      double theta = atan2(map_ax_y3 - map_ax_y2, map_ax_x3 - map_ax_x2);
 
       double cross_prod =(map_ax_y1 - map_ax_y2)*(map_ax_x3 - map_ax_x2) - (map_ax_x1 - map_ax_x2)*(map_ax_y3 - map_ax_y2);
       if (cross_prod <0){
         transformation.MirrorXZ();
       }
+      transformation.RotateZ(theta);
       transformation.TranslateX(map_ax_x2);
       transformation.TranslateY(map_ax_y2);
 
-- 
2.43.0


From 243d38a12bdbfb2ec3f73a2d3626ee4ca7f1b03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:43 +0000
Subject: [PATCH 126/198] fix: separate wide values in Eclipse parameters

---
 src/nrlib/eclipsegrid/eclipsegrid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegrid.cpp b/src/nrlib/eclipsegrid/eclipsegrid.cpp
index 3d36665..0ade15f 100644
--- a/src/nrlib/eclipsegrid/eclipsegrid.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegrid.cpp
@@ -559,7 +559,7 @@ void EclipseGrid::WriteContParameter(std::ofstream             & out_file,
     if(i%6 == 0){
       out_file << "\n";
     }
-    out_file << std::setw(15) << parameter(i);
+    out_file << " " << std::setw(14) << parameter(i);
   }
   out_file << "\n" << "  /\n\n";
 }
-- 
2.43.0


From 0c3195374d1d21e5c07829ce16a6bc22b5b2283a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:43 +0000
Subject: [PATCH 127/198] fix: find cells in Eclipse grids with one layer

---
 src/nrlib/eclipsegrid/eclipsegeometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegeometry.cpp b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
index 9df54e7..14f7ed2 100644
--- a/src/nrlib/eclipsegrid/eclipsegeometry.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
@@ -484,7 +484,7 @@ bool EclipseGeometry::FindIndex(double x_in, double y_in, double z_in,
       above_bot = true;
     if(above_top == true || above_bot == false)
       return false;
-    while(top < bot-1){
+    while(top + 1 < bot){
         newbot = static_cast<size_t>(0.5*(top+bot));
         if (z_in < FindPointCellSurface(i_out, j_out, newbot, 1, u, v).z ){
           bot = newbot;
-- 
2.43.0


From 01e1adb78c3b6f3107fbb875c2fa4803fc05064e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:43 +0000
Subject: [PATCH 128/198] fix: interpolate between the corners on the top and
 bottom of Eclipse cells

---
 src/nrlib/eclipsegrid/eclipsegeometry.cpp | 55 +++++++----------------
 1 file changed, 16 insertions(+), 39 deletions(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegeometry.cpp b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
index 14f7ed2..9cd3e98 100644
--- a/src/nrlib/eclipsegrid/eclipsegeometry.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
@@ -795,45 +795,22 @@ EclipseGeometry::FindZBotAtPillar(size_t i, size_t j, bool & found) const
 
 Point EclipseGeometry::FindPointCellSurface(size_t i_in, size_t j_in, size_t k_in, int lower_or_upper, double u_in, double v_in) const
 {
-  //The p values are the corner points on the cell, while q and r are points with the same z-value as the p-point
-  // at respectively the neighbouring pillar in i-direction and neighbouring pillar in j-direction.
-  Point p00 = FindPointAtPillar(i_in, j_in, GetZCorner(i_in, j_in, k_in, 0,0,lower_or_upper) );
-  Point q00 = FindPointAtPillar(i_in, j_in, GetZCorner(i_in, j_in, k_in, 1,0,lower_or_upper) );
-  Point r00 = FindPointAtPillar(i_in, j_in, GetZCorner(i_in, j_in, k_in, 0,1,lower_or_upper) );
-
-
-  Point p10 = FindPointAtPillar(i_in + 1, j_in, GetZCorner(i_in, j_in, k_in, 1,0,lower_or_upper) );
-  Point q10 = FindPointAtPillar(i_in + 1, j_in, GetZCorner(i_in, j_in, k_in, 0,0,lower_or_upper) );
-  Point r10 = FindPointAtPillar(i_in + 1, j_in, GetZCorner(i_in, j_in, k_in, 1,1,lower_or_upper) );
-
-
-  Point p01 = FindPointAtPillar(i_in, j_in + 1, GetZCorner(i_in, j_in, k_in, 0,1,lower_or_upper) );
-  Point q01 = FindPointAtPillar(i_in, j_in + 1, GetZCorner(i_in, j_in, k_in, 1,1,lower_or_upper) );
-  Point r01 = FindPointAtPillar(i_in, j_in + 1, GetZCorner(i_in, j_in, k_in, 0,0,lower_or_upper) );
-
-
-  Point p11 = FindPointAtPillar(i_in + 1, j_in + 1, GetZCorner(i_in, j_in, k_in, 1,1,lower_or_upper) );
-  Point q11 = FindPointAtPillar(i_in + 1, j_in + 1, GetZCorner(i_in, j_in, k_in, 0,1,lower_or_upper) );
-  Point r11 = FindPointAtPillar(i_in + 1, j_in + 1, GetZCorner(i_in, j_in, k_in, 1,0,lower_or_upper) );
-
-
-  //Coefficients for the model f(u,v) = (a2*v^2 + a1*v + a0)u^2 + (a1*v^2 + b1*v + c1)u + a0*v^2 + b0*v + c0
-  Point a2 = (p01 + p11 - q01 - q11) -(p00 + p10 - q00 - q10) -(r10 + r11 - 2*p10);
-  Point b2 = r10 + r11 - 2*p10;
-  Point c2 = p00 + p10 - q00 - q10;
-
-  Point a1 = (p00 + p10 - q00 - q10) + (p10 + p11 - r10 - r11) - (p01 + p11 - q01 - q11)
-             - (p00 + p01 - r00 - r01) + (r10 + r11 - 2*p10);
-  Point b1 = -1*(r00 + r01 - 2*p00);
-  Point c1 = q00 + q10 - 2*p00;
-
-  Point a0 = p00 + p01 - r00 - r01;
-  Point b0 = r00 + r01 - 2*p00;
-  Point c0 = p00;
-
-  Point f = (a2 * v_in*v_in + b2*v_in + c2) * u_in*u_in
-            + (a1 * v_in*v_in + b1*v_in + c1) * u_in
-            + a0 * v_in*v_in + b0*v_in + c0;
+  double w00 = (1 - u_in) * (1 - v_in);
+  double w10 = u_in * (1 - v_in);
+  double w01 = (1 - u_in) * v_in;
+  double w11 = u_in * v_in;
+
+  double z = w00 * GetZCorner(i_in, j_in, k_in, 0, 0, lower_or_upper)
+             + w10 * GetZCorner(i_in, j_in, k_in, 1, 0, lower_or_upper)
+             + w01 * GetZCorner(i_in, j_in, k_in, 0, 1, lower_or_upper)
+             + w11 * GetZCorner(i_in, j_in, k_in, 1, 1, lower_or_upper);
+
+  // Interpolate between the points with this z-value on the four pillars.
+  Point f = w00 * FindPointAtPillar(i_in, j_in, z)
+            + w10 * FindPointAtPillar(i_in + 1, j_in, z)
+            + w01 * FindPointAtPillar(i_in, j_in + 1, z)
+            + w11 * FindPointAtPillar(i_in + 1, j_in + 1, z);
+  f.z = z;
 
   return f;
 }
-- 
2.43.0


From 8cf17e76c3f782c44ccf97d0a9969e02c318164b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:43 +0000
Subject: [PATCH 129/198] fix: do not take -999 as a missing depth in Eclipse
 grids

---
 src/nrlib/eclipsegrid/eclipsegeometry.cpp | 68 +++++++++++------------
 1 file changed, 34 insertions(+), 34 deletions(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegeometry.cpp b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
index 9cd3e98..6f8bb70 100644
--- a/src/nrlib/eclipsegrid/eclipsegeometry.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
@@ -995,17 +995,17 @@ void EclipseGeometry::FindMinAndMaxZValueAndSetPolygons()
   //printf("find min and max z\n");
   size_t i, j, k;
   Point pt, botpt, toppt;
-  toppt.z = -999.0;
-  botpt.z = -999.0;
+  toppt.z = numeric_limits<double>::infinity();
+  botpt.z = -numeric_limits<double>::infinity();
   for(i = 0; i <= ni_; i++)
     for(j = 0; j <= nj_; j++){
       for(k = 0; k < nk_; k++){
         if(i < ni_ && j < nj_){
           if(IsActive(i,j,k)){
             pt = FindCornerPoint(i,j,k,0,0,0);
-            if(botpt.z == -999.0 || pt.z > botpt.z)
+            if(pt.z > botpt.z)
               botpt = pt;
-            if(toppt.z == -999.0 || pt.z < toppt.z)
+            if(pt.z < toppt.z)
               toppt = pt;
             pt = FindCornerPoint(i,j,k, 0, 0, 1);
             if(pt.z > botpt.z)
@@ -1017,42 +1017,42 @@ void EclipseGeometry::FindMinAndMaxZValueAndSetPolygons()
         if(i > 0 && j < nj_){
           if(IsActive(i-1,j,k)){
             pt = FindCornerPoint(i-1, j, k, 1, 0, 0);
-            if(botpt.z == -999.0 || pt.z > botpt.z)
+            if(pt.z > botpt.z)
               botpt = pt;
-            if(toppt.z == -999.0 || pt.z < toppt.z)
+            if(pt.z < toppt.z)
               toppt = pt;
             pt = FindCornerPoint(i-1, j, k, 1, 0, 1);
-            if(botpt.z == -999.0 || pt.z > botpt.z)
+            if(pt.z > botpt.z)
               botpt = pt;
-            if(toppt.z == -999.0 || pt.z < toppt.z)
+            if(pt.z < toppt.z)
               toppt = pt;
           }
         }
         if(j > 0 && i < ni_){
           if(IsActive(i,j-1,k)){
             pt = FindCornerPoint(i, j - 1, k, 0, 1, 0);
-            if(botpt.z == -999.0 || pt.z > botpt.z)
+            if(pt.z > botpt.z)
               botpt = pt;
-            if(toppt.z == -999.0 || pt.z < toppt.z)
+            if(pt.z < toppt.z)
               toppt = pt;
             pt = FindCornerPoint(i, j - 1, k, 0, 1, 1);
-            if(botpt.z == -999.0 || pt.z > botpt.z)
+            if(pt.z > botpt.z)
               botpt = pt;
-            if(toppt.z == -999.0 || pt.z < toppt.z)
+            if(pt.z < toppt.z)
               toppt = pt;
           }
         }
         if(i > 0 && j > 0){
           if(IsActive(i -1,j - 1,k)){
             pt = FindCornerPoint(i - 1, j - 1, k, 1, 1, 0);
-            if(botpt.z == -999.0 || pt.z > botpt.z)
+            if(pt.z > botpt.z)
               botpt = pt;
-            if(toppt.z == -999.0 || pt.z < toppt.z)
+            if(pt.z < toppt.z)
               toppt = pt;
             pt = FindCornerPoint(i - 1, j - 1, k, 1, 1, 1);
-            if(botpt.z == -999.0 || pt.z > botpt.z)
+            if(pt.z > botpt.z)
               botpt = pt;
-            if(toppt.z == -999.0 || pt.z < toppt.z)
+            if(pt.z < toppt.z)
               toppt = pt;
           }
         }
@@ -1764,15 +1764,15 @@ void EclipseGeometry::FindTopAndBotValuesOfGrid(std::vector<NRLib::Point> &toppo
   Point pt, botpt, toppt;
   for(i = 0; i <= ni_; i++) {
     for(j = 0; j <= nj_; j++) {
-      toppt.z = -999.0;
-      botpt.z = -999.0;
+      toppt.z = numeric_limits<double>::infinity();
+      botpt.z = -numeric_limits<double>::infinity();
       for(k = 0; k < nk_; k++){
         if(i < ni_ && j < nj_){
           if(IsActive(i,j,k)){
             pt = FindCornerPoint(i,j,k,0,0,0);
-            if(botpt.z == -999.0 || pt.z > botpt.z)
+            if(pt.z > botpt.z)
               botpt = pt;
-            if(toppt.z == -999.0 || pt.z < toppt.z)
+            if(pt.z < toppt.z)
               toppt = pt;
             pt = FindCornerPoint(i,j,k, 0, 0, 1);
             if(pt.z > botpt.z)
@@ -1784,49 +1784,49 @@ void EclipseGeometry::FindTopAndBotValuesOfGrid(std::vector<NRLib::Point> &toppo
         if(i > 0 && j < nj_){
           if(IsActive(i-1,j,k)){
             pt = FindCornerPoint(i-1, j, k, 1, 0, 0);
-            if(botpt.z == -999.0 || pt.z > botpt.z)
+            if(pt.z > botpt.z)
               botpt = pt;
-            if(toppt.z == -999.0 || pt.z < toppt.z)
+            if(pt.z < toppt.z)
               toppt = pt;
             pt = FindCornerPoint(i-1, j, k, 1, 0, 1);
-            if(botpt.z == -999.0 || pt.z > botpt.z)
+            if(pt.z > botpt.z)
               botpt = pt;
-            if(toppt.z == -999.0 || pt.z < toppt.z)
+            if(pt.z < toppt.z)
               toppt = pt;
           }
         }
         if(j > 0 && i < ni_){
           if(IsActive(i,j-1,k)){
             pt = FindCornerPoint(i, j - 1, k, 0, 1, 0);
-            if(botpt.z == -999.0 || pt.z > botpt.z)
+            if(pt.z > botpt.z)
               botpt = pt;
-            if(toppt.z == -999.0 || pt.z < toppt.z)
+            if(pt.z < toppt.z)
               toppt = pt;
             pt = FindCornerPoint(i, j - 1, k, 0, 1, 1);
-            if(botpt.z == -999.0 || pt.z > botpt.z)
+            if(pt.z > botpt.z)
               botpt = pt;
-            if(toppt.z == -999.0 || pt.z < toppt.z)
+            if(pt.z < toppt.z)
               toppt = pt;
           }
         }
         if(i > 0 && j > 0){
           if(IsActive(i -1,j - 1,k)){
             pt = FindCornerPoint(i - 1, j - 1, k, 1, 1, 0);
-            if(botpt.z == -999.0 || pt.z > botpt.z)
+            if(pt.z > botpt.z)
               botpt = pt;
-            if(toppt.z == -999.0 || pt.z < toppt.z)
+            if(pt.z < toppt.z)
               toppt = pt;
             pt = FindCornerPoint(i - 1, j - 1, k, 1, 1, 1);
-            if(botpt.z == -999.0 || pt.z > botpt.z)
+            if(pt.z > botpt.z)
               botpt = pt;
-            if(toppt.z == -999.0 || pt.z < toppt.z)
+            if(pt.z < toppt.z)
               toppt = pt;
           }
         }
       }
-      if(toppt.z !=-999.0)
+      if(toppt.z < numeric_limits<double>::infinity())
         toppoints.push_back(toppt);
-      if(botpt.z !=-999.0)
+      if(botpt.z > -numeric_limits<double>::infinity())
         botpoints.push_back(botpt);
     }
   }
-- 
2.43.0


From 4ab5a392518c2bba7d53c164fd01422322ed9993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:43 +0000
Subject: [PATCH 130/198] fix: do not read outside faults without segments

---
 src/nrlib/eclipsegrid/eclipsefaceindexer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nrlib/eclipsegrid/eclipsefaceindexer.cpp b/src/nrlib/eclipsegrid/eclipsefaceindexer.cpp
index 00ae848..e33adc1 100644
--- a/src/nrlib/eclipsegrid/eclipsefaceindexer.cpp
+++ b/src/nrlib/eclipsegrid/eclipsefaceindexer.cpp
@@ -31,6 +31,11 @@ FaceIndexer::FaceIndexer(const EclipseFault &fault)
 {
   segment_iterator_ = fault.SegmentsBegin();
   end_iterator_ = fault.SegmentsEnd();
+  i_ = 0;
+  j_ = 0;
+  k_ = 0;
+  if (IsFinished())
+    return;
   i_ = segment_iterator_->i_from;
   j_ = segment_iterator_->j_from;
   k_ = segment_iterator_->k_from;
-- 
2.43.0


From 38ce777224cae37709601fe13972dd50c81466ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:43 +0000
Subject: [PATCH 131/198] fix: remove the quotes from the names of Eclipse
 refinements

---
 src/nrlib/eclipsegrid/eclipsecarfin.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nrlib/eclipsegrid/eclipsecarfin.cpp b/src/nrlib/eclipsegrid/eclipsecarfin.cpp
index 25f586f..0eca9e2 100644
--- a/src/nrlib/eclipsegrid/eclipsecarfin.cpp
+++ b/src/nrlib/eclipsegrid/eclipsecarfin.cpp
@@ -220,6 +220,9 @@ bool EclipseCarFin::ReadCarFin(std::ifstream& file)
   int dummy_line = 0; // not used.
   try {
     name_ = NRLib::ReadNext<std::string>(file, dummy_line);
+    // Remove the 's
+    if (name_.size() > 1 && name_[0] == '\'' && name_[name_.size() - 1] == '\'')
+      name_ = name_.substr(1, name_.size() - 2);
     // The indices in the file format are 1 based.
     i0_ = NRLib::ReadNext<size_t>(file, dummy_line) - 1;
     i1_ = NRLib::ReadNext<size_t>(file, dummy_line) - 1;
-- 
2.43.0


From 000c5587f6a4c8d94a0878162c46022a3a57dddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:43 +0000
Subject: [PATCH 132/198] fix: give Eclipse refinements read from file their
 size

---
 src/nrlib/eclipsegrid/eclipsecarfin.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nrlib/eclipsegrid/eclipsecarfin.cpp b/src/nrlib/eclipsegrid/eclipsecarfin.cpp
index 0eca9e2..85518ae 100644
--- a/src/nrlib/eclipsegrid/eclipsecarfin.cpp
+++ b/src/nrlib/eclipsegrid/eclipsecarfin.cpp
@@ -257,6 +257,11 @@ bool EclipseCarFin::ReadCarFin(std::ifstream& file)
                                  + " missing final /.");
   }
 
+  eclipse_grid_.Resize(nx_, ny_, nz_);
+  for (size_t index = 0; index < eclipse_grid_.GetN(); ++index) {
+    eclipse_grid_.SetActive(index, true);
+  }
+
   try {
     token = NRLib::ReadNext<std::string>(file, dummy_line);
 
-- 
2.43.0


From 23acfc28e0b57ec34c2e2beb13b3d7d69c2bdb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:00 +0000
Subject: [PATCH 133/198] fix: do not read outside the pillars of empty Eclipse
 grids

---
 src/nrlib/eclipsegrid/eclipsegeometry.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nrlib/eclipsegrid/eclipsegeometry.cpp b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
index 6f8bb70..c8182a5 100644
--- a/src/nrlib/eclipsegrid/eclipsegeometry.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
@@ -993,6 +993,8 @@ void EclipseGeometry::InitializeActivePillars()
 void EclipseGeometry::FindMinAndMaxZValueAndSetPolygons()
 {
   //printf("find min and max z\n");
+  if (GetN() == 0)
+    return;
   size_t i, j, k;
   Point pt, botpt, toppt;
   toppt.z = numeric_limits<double>::infinity();
-- 
2.43.0


From f4d1f891a4fbaf21219f7794e4c950c9ee2ecd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:20 +0000
Subject: [PATCH 134/198] fix: find positions in Eclipse cells accurately when
 the sides are nearly parallel

---
 src/nrlib/eclipsegrid/eclipsegeometry.cpp | 26 ++++++++++++++---------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegeometry.cpp b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
index c8182a5..57db720 100644
--- a/src/nrlib/eclipsegrid/eclipsegeometry.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
@@ -30,6 +30,7 @@
 #include "../iotools/stringtools.hpp"
 #include "../math/constants.hpp"
 
+#include <algorithm>
 #include <stdexcept>
 #include <fstream>
 #include <iostream>
@@ -868,14 +869,16 @@ void EclipseGeometry::FindUVCoordinates(double x_in, double y_in, double z_in, s
   else{
     //seca*v^2 + secb*v + secc = 0
     seca = ax*cy - ay*cx;
-    secb = dy*ax + bx*cy + x_in*ay - dx*ay - by*cx - ax*y_in;
-    secc = dy*bx + x_in*by - by*dx - y_in*bx;
-
-    if (seca != 0){
-      // The expression with + in front of the square root seems to be the correct one
-      v_out = (-secb + sqrt(secb*secb - 4*seca*secc))/(2*seca);
-      if (v_out <0 || v_out>1){
-        v_out = (-secb - sqrt(secb*secb - 4*seca*secc))/(2*seca);
+    secb = bx*cy - by*cx + (x_in - dx)*ay - (y_in - dy)*ax;
+    secc = (x_in - dx)*by - (y_in - dy)*bx;
+
+    // The roots are secq/seca and secc/secq. The latter is accurate also when seca is close to 0.
+    double secq = sqrt(std::max(secb*secb - 4*seca*secc, 0.0));
+    secq = -0.5*(secb + (secb < 0 ? -secq : secq));
+    if (seca != 0 && secq != 0){
+      v_out = secc/secq;
+      if (std::abs(secq/seca - 0.5) < std::abs(v_out - 0.5)){
+        v_out = secq/seca;
       }
     }
     else{
@@ -891,8 +894,11 @@ void EclipseGeometry::FindUVCoordinates(double x_in, double y_in, double z_in, s
         }
       }
     }
-    if (ax*v_out + bx != 0){
-      u_out = (x_in - cx*v_out - dx)/(ax*v_out + bx);
+    if (std::abs(ay*v_out + by) > std::abs(ax*v_out + bx)){
+      u_out = (y_in - dy - cy*v_out)/(ay*v_out + by);
+    }
+    else if (ax*v_out + bx != 0){
+      u_out = (x_in - dx - cx*v_out)/(ax*v_out + bx);
     }
     else{
       u_out = 0; //free parameter
-- 
2.43.0


From 3ab2c32055d9ba1e1dd183eb2616a4c48d6b6313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:29 +0000
Subject: [PATCH 135/198] fix: find cells between sloping pillars outside the
 outlines of top and bottom of Eclipse grids

---
 src/nrlib/eclipsegrid/eclipsegeometry.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegeometry.cpp b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
index 57db720..973db28 100644
--- a/src/nrlib/eclipsegrid/eclipsegeometry.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
@@ -158,12 +158,6 @@ bool EclipseGeometry::GetCellIndex_ij(double x_in, double y_in, double z_in, siz
 {
 
   Point  p_in(x_in, y_in, z_in);
- // bool inside = largepoly.IsInsidePolygonXY(p_in);
-  bool inside1 = polymin_.IsInsidePolygonXY(p_in);
-  bool inside2 = polymax_.IsInsidePolygonXY(p_in);
-  if(inside1==false && inside2==false)
-    return false;
-
  // Generate check_plane, defined by given input point and any normal vector, here (0,0,1)
 
   Point  nvec_in( 0,0,1 );
-- 
2.43.0


From bfdbf8b359bc6cafae7bb5bdde2574e18ee172a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:02 +0000
Subject: [PATCH 136/198] fix: do not read outside the default padding when a
 field has one cell in y or z

---
 src/nrlib/variogram/gaussianfield.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/variogram/gaussianfield.cpp b/src/nrlib/variogram/gaussianfield.cpp
index ca1d39c..85a91f6 100644
--- a/src/nrlib/variogram/gaussianfield.cpp
+++ b/src/nrlib/variogram/gaussianfield.cpp
@@ -112,9 +112,9 @@ void NRLib::Simulate3DGaussianField(const Variogram              & variogram,
   std::vector<size_t> default_padding = FindNDimPadding(variogram,
                                                         nx,
                                                         dx,
-                                                        ny,
+                                                        std::max(ny, static_cast<size_t>(2)), // Padding in all three directions
                                                         dy,
-                                                        nz,
+                                                        std::max(nz, static_cast<size_t>(2)),
                                                         dz);
   // This is the desired padding, but may not be the actual of the
   // FFT grid. See below.
@@ -238,7 +238,7 @@ void NRLib::Simulate2DGaussianField(const Variogram              & variogram,
   std::vector<size_t> default_padding = FindNDimPadding(variogram,
                                                         nx,
                                                         dx,
-                                                        ny,
+                                                        std::max(ny, static_cast<size_t>(2)), // Padding in both directions
                                                         dy);
   // This is the desired padding, but may not be the actual of the
   // FFT grid. See below.
-- 
2.43.0


From 23aa768c9df49b082a3ad9cae8cf7e19af89ec2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:54 +0000
Subject: [PATCH 137/198] fix: use the width of the cells for positions beside
 a single SEG-Y line

---
 src/nrlib/segy/segygeometry.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index b5741ca..be1dbd0 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -149,6 +149,12 @@ SegyGeometry::SegyGeometry(std::vector<SegYTrace *> & traces,
     il2 = traces[ind2]->GetInline();
     xl2 = traces[ind2]->GetCrossline();
 
+    // A single line gets the same step in both directions, as in SetupGeometry.
+    if (deltaIL == 0)
+      deltaIL = deltaXL;
+    if (deltaXL == 0)
+      deltaXL = deltaIL;
+
     double dxIL, dyIL, dxXL, dyXL;
     double x0 = traces[ii]->GetCoord1();   // First defined trace
     double y0 = traces[ii]->GetCoord2();   // First defined trace
-- 
2.43.0


From 4a22a4be963aaf9b05b6307e4cf3683c9d6dc4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:17 +0000
Subject: [PATCH 138/198] fix: give no SEG-Y trace data outside the surfaces of
 a volume

---
 src/nrlib/segy/segy.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index 9be68d4..2e4750f 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -440,11 +440,13 @@ SegY::GetTraceData(double x, double y, std::vector<float> & result, const Volume
     try {
       z_top = volume->GetTopSurface().GetZ(x,y);
       z_bot = volume->GetBotSurface().GetZ(x,y);
+      outside = volume->GetTopSurface().IsMissing(z_top) || volume->GetBotSurface().IsMissing(z_bot);
     }
     catch (NRLib::Exception & ) {
       outside = true;
-      result.resize(0);
     }
+    if (outside)
+      result.resize(0);
   }
 
   if (outside == false) {
-- 
2.43.0


From b4d9a6979854633a8821bcb075989711565e80ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:44 +0000
Subject: [PATCH 139/198] fix: include the first value in the mean of 1D trends

---
 src/nrlib/trend/trend.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/trend/trend.cpp b/src/nrlib/trend/trend.cpp
index 4d465a4..4cb3e8f 100644
--- a/src/nrlib/trend/trend.cpp
+++ b/src/nrlib/trend/trend.cpp
@@ -357,7 +357,7 @@ Trend1D::GetMeanValue(void) const
 {
   assert (trend_.size() > 0);
   double mean = 0.0;
-  for (size_t i = 1; i < trend_.size(); i++)
+  for (size_t i = 0; i < trend_.size(); i++)
     mean +=trend_[i];
 
   return (mean/trend_.size());
-- 
2.43.0


From 814e83809a7aad473113ac75ac8f74ce6e6ddc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:44 +0000
Subject: [PATCH 140/198] fix: find a negative first value of 1D trends

---
 src/nrlib/trend/trend.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/trend/trend.cpp b/src/nrlib/trend/trend.cpp
index 4cb3e8f..99f33d3 100644
--- a/src/nrlib/trend/trend.cpp
+++ b/src/nrlib/trend/trend.cpp
@@ -376,7 +376,7 @@ bool
 Trend1D::CheckForNegative() const
 {
   bool ok = true;
-  for (size_t i = 1; i < trend_.size(); i++)
+  for (size_t i = 0; i < trend_.size(); i++)
     if (trend_[i] < 0)
       ok = false;
 
-- 
2.43.0


From fa1f8bdcc668ed5ed4e432a5c91c94fbc38b2892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:44 +0000
Subject: [PATCH 141/198] fix: interpolate 3D trends from the layer above to
 the layer below

---
 src/nrlib/trend/trend.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/trend/trend.cpp b/src/nrlib/trend/trend.cpp
index 99f33d3..87f177d 100644
--- a/src/nrlib/trend/trend.cpp
+++ b/src/nrlib/trend/trend.cpp
@@ -795,7 +795,7 @@ Trend3D::GetValue(double s1, double s2, double s3) const
   }
 
   double t          = k_frac - k0;
-  double val        = t*val_top + (1.0 - t)*val_bot;
+  double val        = (1.0 - t)*val_top + t*val_bot;
 
   return val;
 }
-- 
2.43.0


From 36bc13472d63be980b27473a2e50c1c489b503ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:44 +0000
Subject: [PATCH 142/198] fix: use all blocks of each well when estimating a
 constant trend

---
 src/nrlib/trend/trendkit.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/nrlib/trend/trendkit.cpp b/src/nrlib/trend/trendkit.cpp
index e55da08..ae61068 100644
--- a/src/nrlib/trend/trendkit.cpp
+++ b/src/nrlib/trend/trendkit.cpp
@@ -13,15 +13,13 @@ void EstimateConstantTrend(const std::vector<std::vector<double> > & blocked_log
   int nWells  = static_cast<int>(blocked_logs.size());
 
   if(nWells > 0) {
-    int nBlocks = static_cast<int>(blocked_logs[0].size());
-
     trend = 0;
 
     int count = 0;
 
     for (int w = 0 ; w < nWells ; w++) {
       if(blocked_logs[w].size() > 0) {
-        for (int k = 0 ; k < nBlocks ; k++) {
+        for (size_t k = 0 ; k < blocked_logs[w].size() ; k++) {
           if(blocked_logs[w][k] != RMISSING) {
             trend += blocked_logs[w][k];
             count++;
-- 
2.43.0


From ba417c45e6475de3ef2e9ef6faaab5614dea8bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:44 +0000
Subject: [PATCH 143/198] fix: write the number of values of 1D trends where it
 is read

---
 src/nrlib/trend/trendkit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/trend/trendkit.cpp b/src/nrlib/trend/trendkit.cpp
index ae61068..c230aee 100644
--- a/src/nrlib/trend/trendkit.cpp
+++ b/src/nrlib/trend/trendkit.cpp
@@ -132,7 +132,7 @@ void WriteTrend1D(const std::string         & filename,
        << std::setprecision(6)
        << s.front()   << "\n"
        << s[1] - s[0] << "\n"
-       << s.back()    << "\n";
+       << trend.size() << "\n";
 
   for (size_t i = 0; i < trend.size(); i++) {
     file << trend[i] << "\n";
-- 
2.43.0


From 58d0d1bf73bd5b175867fde7ee4d897e7d43de76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:44 +0000
Subject: [PATCH 144/198] fix: resample 1D trends at the end of the trend

---
 src/nrlib/trend/trendkit.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nrlib/trend/trendkit.cpp b/src/nrlib/trend/trendkit.cpp
index c230aee..43f4b9a 100644
--- a/src/nrlib/trend/trendkit.cpp
+++ b/src/nrlib/trend/trendkit.cpp
@@ -250,6 +250,12 @@ void ResampleTrend1D(const std::vector<double> & x,
 
     i++;
   }
+
+  // Samples at (or after) the last node
+  while(nx > 0 && j<ny && y[j]>=x[nx-1]) {
+    fy[j] = fx[nx-1];
+    j++;
+  }
 }
 //-------------------------------------------------------------------------------
 void EstimateTrend1D(const std::vector<double> & x,
-- 
2.43.0


From 0b1d47f8ef647d9874754c9d5ad00afa628421db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:44 +0000
Subject: [PATCH 145/198] fix: report an error when trends are estimated
 without data

---
 src/nrlib/trend/trendkit.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/nrlib/trend/trendkit.cpp b/src/nrlib/trend/trendkit.cpp
index 43f4b9a..b9844d4 100644
--- a/src/nrlib/trend/trendkit.cpp
+++ b/src/nrlib/trend/trendkit.cpp
@@ -392,6 +392,12 @@ bool CheckConfigurations1D(const std::vector<double> & x,
 
   size_t n_samples = y.size();
 
+  if (x.empty() || n_samples == 0) {
+    errTxt += "Error: Unable to estimate 1D trend/variance.\n";
+    errTxt += "       There are no observations.\n";
+    return(false);
+  }
+
   double x_min     = *std::min_element(x.begin(), x.end());
   double x_max     = *std::max_element(x.begin(), x.end());
   double x_delta   = std::abs(x_max - x_min);
@@ -953,6 +959,12 @@ bool CheckConfigurations2D(const std::vector<double> & x,
 
   size_t              n_samples     = z.size();
 
+  if (n_samples == 0) {
+    errTxt += "Error: Unable to estimate 2D trend/variance.\n";
+    errTxt += "       There are no observations.\n";
+    return(false);
+  }
+
   double              x_min         = *std::min_element(x.begin(), x.end());
   double              x_max         = *std::max_element(x.begin(), x.end());
   double              x_delta       = std::abs(x_max - x_min);
-- 
2.43.0


From d609d75aa605f84bbf49207246bb57eef8b53c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:44 +0000
Subject: [PATCH 146/198] fix: give empty bins of weighted data no weight

---
 src/nrlib/trend/trendkit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/trend/trendkit.cpp b/src/nrlib/trend/trendkit.cpp
index b9844d4..ecb854a 100644
--- a/src/nrlib/trend/trendkit.cpp
+++ b/src/nrlib/trend/trendkit.cpp
@@ -521,7 +521,7 @@ void MakeBinnedDataset1D(const std::vector<double>         & x,
     }
     else {
       y_new[i] = RMISSING;
-      w_new[i] = RMISSING;
+      w_new[i] = 0.0;
     }
   }
 
-- 
2.43.0


From 9f4fdda31c13d83b3df2f6817c06aeea4ee1441a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:44 +0000
Subject: [PATCH 147/198] fix: bin squared residuals at the positions they
 belong to

---
 src/nrlib/trend/trendkit.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/trend/trendkit.cpp b/src/nrlib/trend/trendkit.cpp
index ecb854a..cc3b691 100644
--- a/src/nrlib/trend/trendkit.cpp
+++ b/src/nrlib/trend/trendkit.cpp
@@ -721,10 +721,11 @@ void EstimateVariance1D(const std::vector<double> & x,
 
     // linear binning
     y_y_mean_squared_binned = y_y_mean_squared;
-    if (x.size() > 16384) {
-      MakeBinnedDataset1D(x,
+    if (x_binned.size() > 16384) {
+      std::vector<double> w = w_binned;
+      MakeBinnedDataset1D(x_binned,
                           y_y_mean_squared,
-                          weights,
+                          weights == NULL ? NULL : &w,
                           x0_regridded,
                           y_y_mean_squared_binned,
                           w_binned);
-- 
2.43.0


From 77611e053412c047d2e6d97587ac7cef82badcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:44 +0000
Subject: [PATCH 148/198] fix: report when a 2D trend could not be estimated
 everywhere

---
 src/nrlib/trend/trendkit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/trend/trendkit.cpp b/src/nrlib/trend/trendkit.cpp
index cc3b691..7bda826 100644
--- a/src/nrlib/trend/trendkit.cpp
+++ b/src/nrlib/trend/trendkit.cpp
@@ -896,7 +896,7 @@ void EstimateTrend2D(const std::vector<double>         & x,
     }
     l = l + 1;
   }
-  if (l > 1e4) {
+  if (!complete_surface) {
     errTxt +=  "Error: Unable to compute complete 2D trend surface.\n";
     errTxt +=  "       The interpolated region is too large compared to the support of the data.\n";
     errTxt +=  "       Reduce the size of the estiamted region or use a low-dimensional method.\n";
-- 
2.43.0


From b4b21e85b801551e7b09088c7c1c86127a3260d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:44 +0000
Subject: [PATCH 149/198] fix: regrid trends to at least two nodes when the
 bandwidth is large

---
 src/nrlib/trend/trendkit.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nrlib/trend/trendkit.cpp b/src/nrlib/trend/trendkit.cpp
index 7bda826..d1282c3 100644
--- a/src/nrlib/trend/trendkit.cpp
+++ b/src/nrlib/trend/trendkit.cpp
@@ -1105,6 +1105,9 @@ void MakeNewGridResolution(const double              & bandwidth_x,
   size_t              n_max            = 128;
   size_t              x0_n_regridded   = std::min(static_cast<size_t>(std::ceil(7*(x0_max - x0_min)/(2*bandwidth_x))), n_max);
 
+  // At least both ends
+  x0_n_regridded = std::max(x0_n_regridded, static_cast<size_t>(2));
+
   double              x0_regridded_inc = (x0_max - x0_min)/(x0_n_regridded - 1);
   x0_regridded.resize(x0_n_regridded);
 
-- 
2.43.0


From 1166fdb7addcbdcc961c9c37fd37fdfb0b4c7d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:44 +0000
Subject: [PATCH 150/198] fix: report that a 1D variance can not be estimated
 from one observation

---
 src/nrlib/trend/trendkit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/trend/trendkit.cpp b/src/nrlib/trend/trendkit.cpp
index d1282c3..692245a 100644
--- a/src/nrlib/trend/trendkit.cpp
+++ b/src/nrlib/trend/trendkit.cpp
@@ -700,7 +700,7 @@ void EstimateVariance1D(const std::vector<double> & x,
     }
   }
 
-  if (y_y_mean_squared.size() > 0) {
+  if (y_y_mean_squared.size() > 1) {
     y_var = y_var/(y_y_mean_squared.size() - 1);
   }
   else {
-- 
2.43.0


From 77970daf788e5a16b675844399095f5926051a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:44 +0000
Subject: [PATCH 151/198] fix: check 1D variance data against the trend cube
 they belong to

---
 src/nrlib/trend/trendstorage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/trend/trendstorage.cpp b/src/nrlib/trend/trendstorage.cpp
index 18ce612..ed4e2e7 100644
--- a/src/nrlib/trend/trendstorage.cpp
+++ b/src/nrlib/trend/trendstorage.cpp
@@ -344,7 +344,7 @@ Trend1DStorage::GenerateTrend(const std::string                       & path,
 
           double bandwidth = CalculateBandwidth(x, scale, 0.2);
 
-          if (CheckConfigurations1D(x, y, trend_cube_sampling[0], bandwidth,errTxt)) {
+          if (CheckConfigurations1D(x, y, trend_cube_sampling[reference - 1], bandwidth,errTxt)) {
             EstimateVariance1D(x,
                                y,
                                trend_cube_sampling[reference - 1],
-- 
2.43.0


From 10e2514403ef946b4a5d76c485a00f33730bd337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:44 +0000
Subject: [PATCH 152/198] fix: do not write outside the variance of 2D trends

---
 src/nrlib/trend/trendstorage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/trend/trendstorage.cpp b/src/nrlib/trend/trendstorage.cpp
index ed4e2e7..2d635a7 100644
--- a/src/nrlib/trend/trendstorage.cpp
+++ b/src/nrlib/trend/trendstorage.cpp
@@ -594,7 +594,7 @@ Trend2DStorage::GenerateTrend(const std::string                       & path,
                          y,
                          z);
 
-        std::vector<std::vector<double> > trend_cube_variance(trend_cube_n1, std::vector<double>(trend_cube_n1, RMISSING));
+        std::vector<std::vector<double> > trend_cube_variance(trend_cube_n1, std::vector<double>(trend_cube_n2, RMISSING));
 
         bandwidth_x = CalculateBandwidth(x, scale, 0.167);
         bandwidth_y = CalculateBandwidth(y, scale, 0.167);
-- 
2.43.0


From f8bf42554b2b38c0275dd24763e690d961b8953f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:12 +0000
Subject: [PATCH 153/198] fix: report that a constant variance can not be
 estimated from one observation

---
 src/nrlib/trend/trendstorage.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/trend/trendstorage.cpp b/src/nrlib/trend/trendstorage.cpp
index 2d635a7..8310170 100644
--- a/src/nrlib/trend/trendstorage.cpp
+++ b/src/nrlib/trend/trendstorage.cpp
@@ -90,7 +90,7 @@ TrendConstantStorage::GenerateTrend(const std::string                       & /*
             z_n++;
           }
         }
-        if (z_n > 0) {
+        if (z_n > 1) {
           var = var/(z_n - 1);
         }
         else {
@@ -145,7 +145,7 @@ TrendConstantStorage::GenerateTrend(const std::string                       & /*
             z_n++;
           }
         }
-        if (z_n > 0)
+        if (z_n > 1)
           var = var/(z_n - 1);
         else {
           var = RMISSING;
@@ -186,7 +186,7 @@ TrendConstantStorage::GenerateTrend(const std::string                       & /*
             z_n++;
           }
         }
-        if (z_n > 0)
+        if (z_n > 1)
           var = var/(z_n - 1);
         else {
           var = RMISSING;
-- 
2.43.0


From 6d671a6bf778787d5b6cacb747fba5064fa8c2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:01 +0000
Subject: [PATCH 154/198] fix: compute the potential when the determinant is
 outside the range of doubles

---
 src/nrlib/statistics/multinormal.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/nrlib/statistics/multinormal.cpp b/src/nrlib/statistics/multinormal.cpp
index 97dd639..c7c8339 100644
--- a/src/nrlib/statistics/multinormal.cpp
+++ b/src/nrlib/statistics/multinormal.cpp
@@ -95,11 +95,12 @@ MultiNormal::Potential(const Vector & x)  const
   Vector e_vec;
   ComputeEigenVectorsSymmetric(cov_, e_vec, e_mat);
 
-  double det(1.0);
+  double log_det(0.0);
   int dim = cov_.dim();
-  for (int i = 0; i < dim; i++)
-    det *= e_vec(i);
-  assert(det > 0);
+  for (int i = 0; i < dim; i++) {
+    assert(e_vec(i) > 0);
+    log_det += std::log(e_vec(i));
+  }
   Vector diff = x - exp_;
   Vector e_vec_inv = e_vec;
   for(int i = 0; i < dim; i++)
@@ -122,7 +123,7 @@ MultiNormal::Potential(const Vector & x)  const
     }
   }
 
-  double potential = 0.5 * (dim * NRLib::Log2Pi + std::log(det) + sum);
+  double potential = 0.5 * (dim * NRLib::Log2Pi + log_det + sum);
 
   return(potential);
 }
-- 
2.43.0


From ca8246eb595d33da0e61695df96a264f73cf0634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:40 +0000
Subject: [PATCH 155/198] fix: use seed 0 in the padding analyzer when asked to

---
 gaussianfft/util/padding_analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaussianfft/util/padding_analyzer.py b/gaussianfft/util/padding_analyzer.py
index b1679d9..e8cd41a 100644
--- a/gaussianfft/util/padding_analyzer.py
+++ b/gaussianfft/util/padding_analyzer.py
@@ -26,7 +26,7 @@ class PaddingAnalyzer:
         n = n or PaddingAnalyzerDefaults.n
         drf = drf or PaddingAnalyzerDefaults.DRF
         L = L or PaddingAnalyzerDefaults.L
-        seed = seed or PaddingAnalyzerDefaults.seed
+        seed = PaddingAnalyzerDefaults.seed if seed is None else seed
         nmax = nmax or PaddingAnalyzerDefaults.nmax
         ndims = ndims or PaddingAnalyzerDefaults.ndims
 
-- 
2.43.0


From f8c5997536b45949245677ac30fbb51939f68548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:40 +0000
Subject: [PATCH 156/198] fix: do not list names that are gone, star imports
 failed

---
 gaussianfft/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaussianfft/__init__.py b/gaussianfft/__init__.py
index 89d8c34..d5dae06 100644
--- a/gaussianfft/__init__.py
+++ b/gaussianfft/__init__.py
@@ -29,6 +29,6 @@ def variogram(type, *args, **kwargs):
 
 __all__ = [
     'variogram', 'simulate', 'seed', 'advanced', 'simulation_size',
-    'quote', 'Variogram', 'VariogramType', 'util', 'SizeTVector', 'DoubleVector',
+    'quote', 'Variogram', 'VariogramType', 'util',
     '__version__',
 ]
-- 
2.43.0


From 8aecd1b427ca2232ac3df796c5c35b8243c645a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:40 +0000
Subject: [PATCH 157/198] fix: report the midpoints of the bins, not their
 right edges

---
 gaussianfft/util/empirical_variogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaussianfft/util/empirical_variogram.py b/gaussianfft/util/empirical_variogram.py
index 7fe6230..316b909 100644
--- a/gaussianfft/util/empirical_variogram.py
+++ b/gaussianfft/util/empirical_variogram.py
@@ -136,7 +136,7 @@ class EmpiricalVariogram:
     def find_midpoints(self, resolution):
         s = self.simulate()
         means, edges = self.binned_variogram_statistics(resolution, s)
-        return edges[:-1] + np.diff(edges)[0]
+        return edges[:-1] + np.diff(edges) / 2.0
 
     def simulate(self):
         s = gaussianfft.advanced.simulate(self.v,
-- 
2.43.0


From 033754f6fdad2a5274eb392b84df346de0c456fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:40 +0000
Subject: [PATCH 158/198] fix: use the same distance bins for all reference
 points

---
 gaussianfft/util/empirical_variogram.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gaussianfft/util/empirical_variogram.py b/gaussianfft/util/empirical_variogram.py
index 316b909..2011f85 100644
--- a/gaussianfft/util/empirical_variogram.py
+++ b/gaussianfft/util/empirical_variogram.py
@@ -51,9 +51,9 @@ class EmpiricalVariogram:
             for ref in reference_points:
                 means, _ = self.binned_variogram_statistics(resolution, s, ref)
                 means = 1 - means / 2.0  # This will ensure an unbiased estimator for the variogram
-                len_diff = len(accumulated_sum) - len(means)
-                local_acc_mean += np.pad(means, (0, len_diff), 'constant')
-                local_count += np.pad(np.ones_like(means), (0, len_diff), 'constant')
+                has_data = ~np.isnan(means)
+                local_acc_mean[has_data] += means[has_data]
+                local_count += has_data
             # May divide on zero here, but that is okay. Interpreting nan as missing data will be the correct
             # interpretation
             local_acc_mean /= local_count
@@ -129,8 +129,10 @@ class EmpiricalVariogram:
         dists, deltas = self.calculate_deltas(grid, ref)
         dists = dists.flatten()
         deltas2 = np.square(deltas)
-        nbins = int(np.max(dists)/resolution)
-        mean_stats, edges, _ = binned_statistic(dists, deltas2, statistic='mean', bins=nbins)
+        # The bins are the same for all reference points
+        max_dist = cdist(self.points[:1], self.points[-1:])[0, 0]
+        nbins = int(max_dist/resolution)
+        mean_stats, edges, _ = binned_statistic(dists, deltas2, statistic='mean', bins=nbins, range=(0.0, max_dist))
         return mean_stats, edges
 
     def find_midpoints(self, resolution):
-- 
2.43.0


From c7005c9b32dedfa1db990a6e7b83b151175df277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:40 +0000
Subject: [PATCH 159/198] fix: give the distances of the deviations in the
 padding analyzer

---
 gaussianfft/util/padding_analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaussianfft/util/padding_analyzer.py b/gaussianfft/util/padding_analyzer.py
index e8cd41a..3bd281e 100644
--- a/gaussianfft/util/padding_analyzer.py
+++ b/gaussianfft/util/padding_analyzer.py
@@ -62,7 +62,7 @@ class PaddingAnalyzer:
 
         self.range = desired_range
         self.padding_f = np.array(output_padding) / n
-        self.grid = np.linspace(0, self.deltas.shape[2] * d, self.deltas.shape[2])
+        self.grid = mid
 
     def create_variograms(self, rrange, padding, ndims, d, n, L, vtype):
         if ndims == 1:
-- 
2.43.0


From 853601ad804a14a953ba09e3611aa515c974d9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:34 +0000
Subject: [PATCH 160/198] fix: do not read beyond the end of XML text, comments
 and CDATA that are not ended

---
 src/nrlib/tinyxml/tinyxmlparser.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/tinyxml/tinyxmlparser.cpp b/src/nrlib/tinyxml/tinyxmlparser.cpp
index a1bb72e..ecdc5aa 100644
--- a/src/nrlib/tinyxml/tinyxmlparser.cpp
+++ b/src/nrlib/tinyxml/tinyxmlparser.cpp
@@ -631,7 +631,7 @@ const char* TiXmlBase::ReadText(    const char* p,
             }
         }
     }
-    if ( p )
+    if ( p && *p )
         p += strlen( endTag );
     return p;
 }
@@ -1379,8 +1379,12 @@ const char* TiXmlComment::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
         value.append( p, 1 );
         ++p;
     }
-    if ( p )
-        p += strlen( endTag );
+    if ( !p || !*p )
+    {
+        if ( document ) document->SetError( TIXML_ERROR_PARSING_COMMENT, 0, 0, encoding );
+        return 0;
+    }
+    p += strlen( endTag );
 
     return p;
 }
@@ -1529,6 +1533,11 @@ const char* TiXmlText::Parse( const char* p, TiXmlParsingData* data, TiXmlEncodi
             ++p;
         }
 
+        if ( !p || !*p )
+        {
+            if ( document ) document->SetError( TIXML_ERROR_PARSING_CDATA, 0, 0, encoding );
+            return 0;
+        }
         TIXML_STRING dummy;
         p = ReadText( p, &dummy, false, endTag, false, encoding );
         return p;
@@ -1538,8 +1547,9 @@ const char* TiXmlText::Parse( const char* p, TiXmlParsingData* data, TiXmlEncodi
         bool ignoreWhite = true;
 
         const char* end = "<";
+        const char* start = p;
         p = ReadText( p, &value, ignoreWhite, end, false, encoding );
-        if ( p )
+        if ( p && p > start && *( p-1 ) == '<' )
             return p-1; // don't truncate the '<'
         return 0;
     }
-- 
2.43.0


From 78b5e89b3fcefba184f53c1cd75b3c4cb19c7c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:34 +0000
Subject: [PATCH 161/198] fix: report an XML attribute that is given twice

---
 src/nrlib/tinyxml/tinyxmlparser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nrlib/tinyxml/tinyxmlparser.cpp b/src/nrlib/tinyxml/tinyxmlparser.cpp
index ecdc5aa..d9c5c79 100644
--- a/src/nrlib/tinyxml/tinyxmlparser.cpp
+++ b/src/nrlib/tinyxml/tinyxmlparser.cpp
@@ -1162,6 +1162,7 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
             #endif
             if ( node )
             {
+                if ( document ) document->SetError( TIXML_ERROR_PARSING_ELEMENT, pErr, data, encoding );
                 node->SetValue( attrib->Value() );
                 delete attrib;
                 return 0;
-- 
2.43.0


From cc741b0d177956bdc719048297448f7e41a1f027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:34 +0000
Subject: [PATCH 162/198] fix: end when XML text is cut in a character

---
 src/nrlib/tinyxml/tinyxmlparser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nrlib/tinyxml/tinyxmlparser.cpp b/src/nrlib/tinyxml/tinyxmlparser.cpp
index d9c5c79..6554a85 100644
--- a/src/nrlib/tinyxml/tinyxmlparser.cpp
+++ b/src/nrlib/tinyxml/tinyxmlparser.cpp
@@ -274,6 +274,8 @@ void TiXmlParsingData::Stamp( const char* now, TiXmlEncoding encoding )
                         else
                             { p +=3; ++col; }   // A normal character.
                     }
+                    else
+                        { ++p; ++col; }     // A character that is cut.
                 }
                 else
                 {
-- 
2.43.0


From 3a11f9c33abd4744257fee26d9645e7ae0057f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:34 +0000
Subject: [PATCH 163/198] fix: do not read beyond XML text that is cut in a
 character

---
 src/nrlib/tinyxml/tinyxml.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/tinyxml/tinyxml.h b/src/nrlib/tinyxml/tinyxml.h
index b85f394..c6cdd01 100644
--- a/src/nrlib/tinyxml/tinyxml.h
+++ b/src/nrlib/tinyxml/tinyxml.h
@@ -350,10 +350,12 @@ protected:
         {
             //strncpy( _value, p, *length );    // lots of compilers don't like this function (unsafe),
                                                 // and the null terminator isn't needed
-            for( int i=0; p[i] && i<*length; ++i ) {
+            int i;
+            for( i=0; i<*length && p[i]; ++i ) {
                 _value[i] = p[i];
             }
-            return p + (*length);
+            *length = i;    // less if the text ends within the character
+            return p + i;
         }
         else
         {
-- 
2.43.0


From af4038444b6880e9e4d2726f6034c4eb13f823fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:34 +0000
Subject: [PATCH 164/198] fix: report an XML declaration that is not ended

---
 src/nrlib/tinyxml/tinyxmlparser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nrlib/tinyxml/tinyxmlparser.cpp b/src/nrlib/tinyxml/tinyxmlparser.cpp
index 6554a85..5fe5af3 100644
--- a/src/nrlib/tinyxml/tinyxmlparser.cpp
+++ b/src/nrlib/tinyxml/tinyxmlparser.cpp
@@ -1613,6 +1613,8 @@ const char* TiXmlDeclaration::Parse( const char* p, TiXmlParsingData* data, TiXm
         }
 
         p = SkipWhiteSpace( p, _encoding );
+        if ( !p || !*p )
+            break;
         if ( StringEqual( p, "version", true, _encoding ) )
         {
             TiXmlAttribute attrib;
@@ -1638,6 +1640,7 @@ const char* TiXmlDeclaration::Parse( const char* p, TiXmlParsingData* data, TiXm
                 ++p;
         }
     }
+    if ( document ) document->SetError( TIXML_ERROR_PARSING_DECLARATION, 0, 0, _encoding );
     return 0;
 }
 
-- 
2.43.0


From 7d8babda7e813caba046333e032f2bb6e8f5b8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:34 +0000
Subject: [PATCH 165/198] fix: report XML markup that is not ended

---
 src/nrlib/tinyxml/tinyxmlparser.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/tinyxml/tinyxmlparser.cpp b/src/nrlib/tinyxml/tinyxmlparser.cpp
index 5fe5af3..1eca70f 100644
--- a/src/nrlib/tinyxml/tinyxmlparser.cpp
+++ b/src/nrlib/tinyxml/tinyxmlparser.cpp
@@ -1298,13 +1298,12 @@ const char* TiXmlUnknown::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
         ++p;
     }
 
-    if ( !p )
+    if ( !p || !*p )
     {
         if ( document ) document->SetError( TIXML_ERROR_PARSING_UNKNOWN, 0, 0, encoding );
+        return 0;
     }
-    if ( *p == '>' )
-        return p+1;
-    return p;
+    return p+1;
 }
 
 #ifdef TIXML_USE_STL
-- 
2.43.0


From 1d28dfa31b1ffae7f041bdcaf797eb6e03e2567e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:34 +0000
Subject: [PATCH 166/198] fix: write XML text that only starts like a character
 reference as text

---
 src/nrlib/tinyxml/tinyxml.cpp | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/src/nrlib/tinyxml/tinyxml.cpp b/src/nrlib/tinyxml/tinyxml.cpp
index cc68af5..bb7f220 100644
--- a/src/nrlib/tinyxml/tinyxml.cpp
+++ b/src/nrlib/tinyxml/tinyxml.cpp
@@ -56,28 +56,21 @@ void TiXmlBase::EncodeString( const TIXML_STRING& str, TIXML_STRING* outString )
     {
           unsigned char c = static_cast<unsigned char>(str[i]);
 
-        if (    c == '&'
-                        && i < ( static_cast<int>(str.length()) - 2 )
-             && str[i+1] == '#'
-             && str[i+2] == 'x' )
+        // The length of a hexadecimal character reference, or 0 if this is none.
+        // &#xA9;   -- copyright symbol, for example.
+        size_t refLength = 0;
+        if ( c == '&' && str.compare( i, 3, "&#x" ) == 0 )
+        {
+            size_t end = str.find_first_not_of( "0123456789abcdefABCDEF", i + 3 );
+            if ( end != TIXML_STRING::npos && end > static_cast<size_t>(i) + 3 && str[end] == ';' )
+                refLength = end + 1 - i;
+        }
+
+        if ( refLength > 0 )
         {
-            // Hexadecimal character reference.
             // Pass through unchanged.
-            // &#xA9;   -- copyright symbol, for example.
-            //
-            // The -1 is a bug fix from Rob Laveaux. It keeps
-            // an overflow from happening if there is no ';'.
-            // There are actually 2 ways to exit this loop -
-            // while fails (error case) and break (semicolon found).
-            // However, there is no mechanism (currently) for
-            // this function to return an error.
-                  while ( i<static_cast<int>(str.length())-1 )
-            {
-                outString->append( str.c_str() + i, 1 );
-                ++i;
-                if ( str[i] == ';' )
-                    break;
-            }
+            outString->append( str, i, refLength );
+            i += static_cast<int>(refLength);
         }
         else if ( c == '&' )
         {
-- 
2.43.0


From 1037c540f3eaa885288e7701357d72c750598a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:34 +0000
Subject: [PATCH 167/198] fix: accept white space at the end of XML end tags

---
 src/nrlib/tinyxml/tinyxmlparser.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/nrlib/tinyxml/tinyxmlparser.cpp b/src/nrlib/tinyxml/tinyxmlparser.cpp
index 1eca70f..288d8cc 100644
--- a/src/nrlib/tinyxml/tinyxmlparser.cpp
+++ b/src/nrlib/tinyxml/tinyxmlparser.cpp
@@ -1085,7 +1085,6 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 
     TIXML_STRING endTag ("</");
     endTag += value;
-    endTag += ">";
 
     // Check for and read attributes. Also look for an empty
     // tag or an end tag.
@@ -1123,17 +1122,15 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
                 return 0;
             }
 
-            // We should find the end tag now
+            // We should find the end tag now, which may have white space before its '>'
             if ( StringEqual( p, endTag.c_str(), false, encoding ) )
             {
-                p += endTag.length();
-                return p;
-            }
-            else
-            {
-                if ( document ) document->SetError( TIXML_ERROR_READING_END_TAG, p, data, encoding );
-                return 0;
+                const char* end = SkipWhiteSpace( p + endTag.length(), encoding );
+                if ( end && *end == '>' )
+                    return end + 1;
             }
+            if ( document ) document->SetError( TIXML_ERROR_READING_END_TAG, p, data, encoding );
+            return 0;
         }
         else
         {
-- 
2.43.0


From 04e50445215080109a064bc9082a3aea87265d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:34 +0000
Subject: [PATCH 168/198] fix: do not replace an XML node by a document

---
 src/nrlib/tinyxml/tinyxml.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/tinyxml/tinyxml.cpp b/src/nrlib/tinyxml/tinyxml.cpp
index bb7f220..162d760 100644
--- a/src/nrlib/tinyxml/tinyxml.cpp
+++ b/src/nrlib/tinyxml/tinyxml.cpp
@@ -282,8 +282,14 @@ TiXmlNode* TiXmlNode::InsertAfterChild( TiXmlNode* afterThis, const TiXmlNode& a
 
 TiXmlNode* TiXmlNode::ReplaceChild( TiXmlNode* replaceThis, const TiXmlNode& withThis )
 {
-    if ( replaceThis->parent != this )
+    if ( !replaceThis || replaceThis->parent != this )
         return 0;
+    if ( withThis.ToDocument() )
+    {
+        // A document can never be a child.
+        if ( GetDocument() ) GetDocument()->SetError( TIXML_ERROR_DOCUMENT_TOP_ONLY, 0, 0, TIXML_ENCODING_UNKNOWN );
+        return 0;
+    }
 
     TiXmlNode* node = withThis.Clone();
     if ( !node )
-- 
2.43.0


From 279fd4004102cf0d762e2db8a9458a1a2bb1db05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:34 +0000
Subject: [PATCH 169/198] fix: give the index of the XML element that was found

---
 src/nrlib/tinyxml/tinyxml.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/tinyxml/tinyxml.cpp b/src/nrlib/tinyxml/tinyxml.cpp
index 162d760..fc85153 100644
--- a/src/nrlib/tinyxml/tinyxml.cpp
+++ b/src/nrlib/tinyxml/tinyxml.cpp
@@ -476,11 +476,11 @@ const TiXmlElement* TiXmlNode::FirstChildElement( const char * _value, int & ind
 
     index = 0;
 
-    for (   node = FirstChild( _value, index );
-            node;
-            node = node->NextSibling( _value ) )
+    for ( node = firstChild; node; node = node->next )
     {
-        if ( node->ToElement() )
+        if ( node->type != COMMENT )
+            index++;
+        if ( node->ToElement() && strcmp( node->Value(), _value ) == 0 )
             return node->ToElement();
     }
     return 0;
-- 
2.43.0


From 86f6dc4c6a1b0ce87e547ca54efb8a29e869ec13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:34 +0000
Subject: [PATCH 170/198] fix: keep the digits of doubles in XML attributes

---
 src/nrlib/tinyxml/tinyxml.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/nrlib/tinyxml/tinyxml.cpp b/src/nrlib/tinyxml/tinyxml.cpp
index fc85153..ffc6992 100644
--- a/src/nrlib/tinyxml/tinyxml.cpp
+++ b/src/nrlib/tinyxml/tinyxml.cpp
@@ -731,14 +731,25 @@ void TiXmlElement::SetAttribute( const std::string& name, int val )
 #endif
 
 
-void TiXmlElement::SetDoubleAttribute( const char * name, double val )
+// Writes a double with the digits it takes to read it back.
+static void PrintDouble( char (&buf)[64], double val )
 {
-    char buf[256];
     #if defined(TIXML_SNPRINTF)
-        TIXML_SNPRINTF( buf, sizeof(buf), "%f", val );
+        TIXML_SNPRINTF( buf, sizeof(buf), "%.15g", val );
+        if ( atof( buf ) != val )
+            TIXML_SNPRINTF( buf, sizeof(buf), "%.17g", val );
     #else
-        sprintf( buf, "%f", val );
+        sprintf( buf, "%.15g", val );
+        if ( atof( buf ) != val )
+            sprintf( buf, "%.17g", val );
     #endif
+}
+
+
+void TiXmlElement::SetDoubleAttribute( const char * name, double val )
+{
+    char buf[64];
+    PrintDouble( buf, val );
     SetAttribute( name, buf );
 }
 
@@ -1293,12 +1304,8 @@ void TiXmlAttribute::SetIntValue( int _value )
 
 void TiXmlAttribute::SetDoubleValue( double _value )
 {
-    char buf [256];
-    #if defined(TIXML_SNPRINTF)
-        TIXML_SNPRINTF( buf, sizeof(buf), "%f", _value); // NBNB-PAL: ISO C++ does not support the ‘%lf’ printf format
-    #else
-        sprintf (buf, "%lf", _value);
-    #endif
+    char buf [64];
+    PrintDouble( buf, _value );
     SetValue (buf);
 }
 
-- 
2.43.0


From 939d42dd77a0c2c8762cc8357ae8e5e81f74bf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:34 +0000
Subject: [PATCH 171/198] fix: end when an XML stream has a null character

---
 src/nrlib/tinyxml/tinyxmlparser.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/nrlib/tinyxml/tinyxmlparser.cpp b/src/nrlib/tinyxml/tinyxmlparser.cpp
index 288d8cc..8feafa5 100644
--- a/src/nrlib/tinyxml/tinyxmlparser.cpp
+++ b/src/nrlib/tinyxml/tinyxmlparser.cpp
@@ -953,6 +953,14 @@ void TiXmlElement::StreamIn (std::istream * in, TIXML_STRING * tag)
             // Do we have text?
             if ( in->good() && in->peek() != '<' )
             {
+                if ( in->peek() == 0 )
+                {
+                    TiXmlDocument* document = GetDocument();
+                    if ( document )
+                        document->SetError( TIXML_ERROR_EMBEDDED_NULL, 0, 0, TIXML_ENCODING_UNKNOWN );
+                    return;
+                }
+
                 // Yep, text.
                 TiXmlText text( "" );
                 text.StreamIn( in, tag );
-- 
2.43.0


From b40823e16ce397e30ad700348a4864f3fae78e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:34 +0000
Subject: [PATCH 172/198] fix: report that an XML file is empty, not an earlier
 error

---
 src/nrlib/tinyxml/tinyxml.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nrlib/tinyxml/tinyxml.cpp b/src/nrlib/tinyxml/tinyxml.cpp
index ffc6992..b332646 100644
--- a/src/nrlib/tinyxml/tinyxml.cpp
+++ b/src/nrlib/tinyxml/tinyxml.cpp
@@ -1020,6 +1020,7 @@ bool TiXmlDocument::LoadFile( FILE* file, TiXmlEncoding encoding )
 
     // Delete the existing data:
     Clear();
+    ClearError();
     location.Clear();
 
     // Get the file size, so we can pre-allocate the string. HUGE speed impact.
-- 
2.43.0


From 88d5f7c9b93125947002bf7044fbb0a125118487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:41 +0000
Subject: [PATCH 173/198] fix: do not stop the program at CDATA in an XML end
 tag

---
 src/nrlib/tinyxml/tinyxmlparser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nrlib/tinyxml/tinyxmlparser.cpp b/src/nrlib/tinyxml/tinyxmlparser.cpp
index 8feafa5..459e854 100644
--- a/src/nrlib/tinyxml/tinyxmlparser.cpp
+++ b/src/nrlib/tinyxml/tinyxmlparser.cpp
@@ -1000,12 +1000,11 @@ void TiXmlElement::StreamIn (std::istream * in, TIXML_STRING * tag)
                 in->get();
 
                 // Early out if we find the CDATA id.
-                if ( c == '[' && tag->size() >= 9 )
+                if ( c == '[' && !closingTag && tag->size() >= 9 )
                 {
                     size_t len = tag->size();
                     const char* start = tag->c_str() + len - 9;
                     if ( strcmp( start, "<![CDATA[" ) == 0 ) {
-                        assert( !closingTag );
                         break;
                     }
                 }
-- 
2.43.0


From 9c30d67cf6f358357c6c386c2b814770a9f85aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:42 +0000
Subject: [PATCH 174/198] fix: do not skip null characters in XML streams

---
 src/nrlib/tinyxml/tinyxmlparser.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/nrlib/tinyxml/tinyxmlparser.cpp b/src/nrlib/tinyxml/tinyxmlparser.cpp
index 459e854..c805069 100644
--- a/src/nrlib/tinyxml/tinyxmlparser.cpp
+++ b/src/nrlib/tinyxml/tinyxmlparser.cpp
@@ -664,7 +664,7 @@ void TiXmlDocument::StreamIn( std::istream * in, TIXML_STRING * tag )
             if ( c <= 0 )
             {
                 SetError( TIXML_ERROR_EMBEDDED_NULL, 0, 0, TIXML_ENCODING_UNKNOWN );
-                break;
+                return;
             }
             (*tag) += static_cast<char>(c);
         }
@@ -914,7 +914,7 @@ void TiXmlElement::StreamIn (std::istream * in, TIXML_STRING * tag)
     // element is in "tag". Go ahead and stream to the closing ">"
     while( in->good() )
     {
-        int c = in->get();
+        int c = in->peek();
         if ( c <= 0 )
         {
             TiXmlDocument* document = GetDocument();
@@ -923,6 +923,7 @@ void TiXmlElement::StreamIn (std::istream * in, TIXML_STRING * tag)
             return;
         }
         (*tag) += static_cast<char>(c) ;
+        in->get();
 
         if ( c == '>' )
             break;
@@ -1258,7 +1259,7 @@ void TiXmlUnknown::StreamIn( std::istream * in, TIXML_STRING * tag )
 {
     while ( in->good() )
     {
-        int c = in->get();
+        int c = in->peek();
         if ( c <= 0 )
         {
             TiXmlDocument* document = GetDocument();
@@ -1267,6 +1268,7 @@ void TiXmlUnknown::StreamIn( std::istream * in, TIXML_STRING * tag )
             return;
         }
         (*tag) += static_cast<char>(c);
+        in->get();
 
         if ( c == '>' )
         {
@@ -1315,7 +1317,7 @@ void TiXmlComment::StreamIn( std::istream * in, TIXML_STRING * tag )
 {
     while ( in->good() )
     {
-        int c = in->get();
+        int c = in->peek();
         if ( c <= 0 )
         {
             TiXmlDocument* document = GetDocument();
@@ -1325,6 +1327,7 @@ void TiXmlComment::StreamIn( std::istream * in, TIXML_STRING * tag )
         }
 
         (*tag) += static_cast<char>(c);
+        in->get();
 
         if ( c == '>'
              && tag->at( tag->length() - 2 ) == '-'
@@ -1566,7 +1569,7 @@ void TiXmlDeclaration::StreamIn( std::istream * in, TIXML_STRING * tag )
 {
     while ( in->good() )
     {
-        int c = in->get();
+        int c = in->peek();
         if ( c <= 0 )
         {
             TiXmlDocument* document = GetDocument();
@@ -1575,6 +1578,7 @@ void TiXmlDeclaration::StreamIn( std::istream * in, TIXML_STRING * tag )
             return;
         }
         (*tag) += static_cast<char>(c);
+        in->get();
 
         if ( c == '>' )
         {
-- 
2.43.0


From b8ff3836b3e9188be9a730a65bd00d668a89734d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:07 +0000
Subject: [PATCH 175/198] fix: regularize SEGY geometries of any rotation

---
 src/nrlib/segy/segygeometry.cpp | 51 ++++++++++++++-------------------
 1 file changed, 21 insertions(+), 30 deletions(-)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index be1dbd0..ceb3bad 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -375,7 +375,7 @@ SegyGeometry::Regularize(double & dxIL, double & dyIL,
 
   Orthogonalize(dxIL , dyIL,  dxXL , dyXL,  // Original values
                 dxILn, dyILn, dxXLn, dyXLn, // New values
-                dyIL/dxIL);                 // IL axis is not rotated in this case as original ratio is used.
+                0.0);                       // IL axis is not rotated in this case.
 
   LogKit::LogFormatted(LogKit::DebugLow,"\nChanging angle of XL axis so that it becomes orthogonal to IL axis.\n");
   LogKit::LogFormatted(LogKit::DebugLow,"\n               dx           dy");
@@ -416,12 +416,6 @@ SegyGeometry::Regularize(double & dxIL, double & dyIL,
 
     LogKit::LogFormatted(LogKit::High,"\nMismatch too large. Regularization activated.\n");
 
-    double fracIL = std::abs(dyIL/dxIL);
-    double fracXL = std::abs(dxXL/dyXL);
-    double minf   = std::min(fracIL, fracXL);
-    double maxf   = std::max(fracIL, fracXL);
-    double step   = (maxf - minf)/10;
-
     double dmin   = std::numeric_limits<double>::infinity();
     double fmin   = 0.0;
 
@@ -429,11 +423,11 @@ SegyGeometry::Regularize(double & dxIL, double & dyIL,
     LogKit::LogFormatted(LogKit::DebugLow,"\n------------------------------------------------------");
 
     for (int i = 0 ; i < 11 ; i++) {
-      double frac = minf + step*static_cast<double>(i);
+      double frac = 0.1*static_cast<double>(i); // IL axis takes this part of the rotation
 
       Orthogonalize(dxIL , dyIL,  dxXL , dyXL,  // Original values
                     dxILn, dyILn, dxXLn, dyXLn, // New values
-                    frac);                      //
+                    frac);
 
       dx1  = (dxILn - dxIL)*dIL1 + (dxXLn - dxXL)*dXL1;  // Corner corrections
       dy1  = (dyILn - dyIL)*dIL1 + (dyXLn - dyXL)*dXL1;
@@ -448,20 +442,20 @@ SegyGeometry::Regularize(double & dxIL, double & dyIL,
         fmin = frac;
       }
 
-      double angle = NRLib::RadToDeg(atan(frac));
+      double angle = NRLib::RadToDeg(atan2(dyILn, dxILn));
 
       LogKit::LogFormatted(LogKit::DebugLow,"\nCorner 1   %10.4f %10.2f %10.2f %10.2f", angle, dx1, dy1, dxy1);
       LogKit::LogFormatted(LogKit::DebugLow,"\nCorner 2   %10.4f %10.2f %10.2f %10.2f", angle, dx2, dy2, dxy2);
     }
 
-    LogKit::LogFormatted(LogKit::High,"\n\nOptimal angle     :  %8.4f", NRLib::RadToDeg(atan(fmin)));
-    LogKit::LogFormatted(LogKit::High,"\nSmallest mismatch :  %8.2f\n", dmin);
-
-    // Use fraction that minimizes error to find new dxIL, dyIL, ....
+    // Use rotation that minimizes error to find new dxIL, dyIL, ....
     Orthogonalize(dxIL , dyIL,  dxXL , dyXL,
                   dxILn, dyILn, dxXLn, dyXLn,
                   fmin);
 
+    LogKit::LogFormatted(LogKit::High,"\n\nOptimal angle     :  %8.4f", NRLib::RadToDeg(atan2(dyILn, dxILn)));
+    LogKit::LogFormatted(LogKit::High,"\nSmallest mismatch :  %8.2f\n", dmin);
+
     dxIL  = dxILn;
     dyIL  = dyILn;
     dxXL  = dxXLn;
@@ -486,22 +480,19 @@ SegyGeometry::Orthogonalize(double   dxIL , double   dyIL,
                             double & dxXLn, double & dyXLn,
                             double   frac)
 {
-  double dIL, dXL, dILn, dXLn;
-  // Rotate IL axis by changing dyIL/dxIL. Then rescale to original length.
-  dxILn  = dxIL;
-  dyILn  = dxIL*frac;
-  dIL    = std::sqrt(dxIL*dxIL   + dyIL*dyIL);
-  dILn   = std::sqrt(dxILn*dxILn + dyILn*dyILn);
-  dxILn  = dxILn*(dIL/dILn);
-  dyILn  = dyILn*(dIL/dILn);
-
-  // Rotate XL axis by changing dyIL/dxIL. Then rescale to original length.
-  dxXLn  =  dxXL;
-  dyXLn  = -dxXL*(1.0/frac);
-  dXL    = std::sqrt(dxXL*dxXL   + dyXL*dyXL);
-  dXLn   = std::sqrt(dxXLn*dxXLn + dyXLn*dyXLn);
-  dxXLn  = dxXLn*(dXL/dXLn);
-  dyXLn  = dyXLn*(dXL/dXLn);
+  // Rotation of the IL axis that makes it orthogonal to the XL axis.
+  double angle = atan2(dxIL*dyXL - dyIL*dxXL, dxIL*dxXL + dyIL*dyXL);
+  double skew  = angle - (angle > 0.0 ? 0.5 : -0.5)*NRLib::Pi;
+
+  double cosIL = cos(frac*skew);
+  double sinIL = sin(frac*skew);
+  dxILn = dxIL*cosIL - dyIL*sinIL;
+  dyILn = dxIL*sinIL + dyIL*cosIL;
+
+  double cosXL = cos((1.0 - frac)*skew);
+  double sinXL = sin((1.0 - frac)*skew);
+  dxXLn = dxXL*cosXL + dyXL*sinXL;
+  dyXLn = dyXL*cosXL - dxXL*sinXL;
 }
 
 void
-- 
2.43.0


From 9237f274fca13f9de61a66f2f5993f1dc415925a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:46 +0000
Subject: [PATCH 176/198] fix: keep SEG-Y lines next to bogus or missing lines

---
 src/nrlib/segy/segy.cpp | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index 2e4750f..1c3ad1e 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -1737,30 +1737,21 @@ SegY::SetBogusILXLUndefined(std::vector<NRLib::SegYTrace*> & traces)
     int XLstep = step;
 
     //
-    // 5. Identify and traces with IL and XL numbers not matching step
+    // 5. Identify traces with IL and XL numbers not matching step, that
+    //    is without any line a step away
     //
     std::list<int> ilWrong;
     std::list<int> xlWrong;
 
-    i = 1;
-    while (i + 1 < ils.size()) {
-      int step0 = ils[i    ] - ils[i - 1];
-      int step1 = ils[i + 1] - ils[i    ];
-      if (step0 != ILstep)
-        ilWrong.push_back(ils[i - 1]);
-      else if (step1 != ILstep)
-        ilWrong.push_back(ils[i + 1]);
-      i++;
+    for (i = 0 ; i < ils.size() ; i++) {
+      if (!std::binary_search(ils.begin(), ils.end(), ils[i] - ILstep) &&
+          !std::binary_search(ils.begin(), ils.end(), ils[i] + ILstep))
+        ilWrong.push_back(ils[i]);
     }
-    i = 1;
-    while (i + 1 < xls.size()) {
-      int step0 = xls[i    ] - xls[i - 1];
-      int step1 = xls[i + 1] - xls[i    ];
-      if (step0 != XLstep)
-        xlWrong.push_back(xls[i - 1]);
-      else if (step1 != XLstep)
-        xlWrong.push_back(xls[i + 1]);
-      i++;
+    for (i = 0 ; i < xls.size() ; i++) {
+      if (!std::binary_search(xls.begin(), xls.end(), xls[i] - XLstep) &&
+          !std::binary_search(xls.begin(), xls.end(), xls[i] + XLstep))
+        xlWrong.push_back(xls[i]);
     }
 
     //
-- 
2.43.0


From 3576477c57a6bcc583c2f4ab9b61ed95007008c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:46 +0000
Subject: [PATCH 177/198] fix: start SEG-Y geometries at a trace with line
 numbers

---
 src/nrlib/segy/segygeometry.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index ceb3bad..590c0b6 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -72,8 +72,10 @@ SegyGeometry::SegyGeometry(std::vector<SegYTrace *> & traces,
     size_t ntraces = traces.size();
 
     size_t ii = 0;
-    while(traces[ii]==0)
+    while (ii < ntraces && (traces[ii] == 0 || traces[ii]->GetInline() == IMISSING || traces[ii]->GetCrossline() == IMISSING))
       ii++;
+    if (ii == ntraces)
+      throw NRLib::Exception("Can not set up geometry: No traces with inline and crossline numbers.");
 
     // il0,xl0,xl1,il1,xl2,il2 are the three points used to find the geometry.
 
-- 
2.43.0


From f1195c41b58253dea9f8a7a36fdbd33a31ff52c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:37 +0000
Subject: [PATCH 178/198] fix: do not find traces for line numbers between
 SEG-Y lines

---
 src/nrlib/segy/segygeometry.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index 590c0b6..4aa1062 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -920,6 +920,9 @@ SegyGeometry::FindIndex(int IL, int XL, size_t &i, size_t &j) const
   if (IL < minIL_ || IL > maxIL_ || XL < minXL_ || XL > maxXL_)
     throw Exception("(IL, XL) = (" + NRLib::ToString(IL) + ", " + NRLib::ToString(XL) + ") is outside the SEGY cube.");
 
+  if ((IL - minIL_) % ILStep_ != 0 || (XL - minXL_) % XLStep_ != 0)
+    throw Exception("(IL, XL) = (" + NRLib::ToString(IL) + ", " + NRLib::ToString(XL) + ") is between the lines of the SEGY cube.");
+
   if (IL0_ == minIL_) {
     ii = (IL - IL0_) / ILStep_;
   }
-- 
2.43.0


From 22ceb1e6562e9761b062955823ce5ef72e90cff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:42 +0000
Subject: [PATCH 179/198] fix: intersect cell face edges with depths in x and y

---
 src/nrlib/eclipsegrid/eclipsegrid.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegrid.cpp b/src/nrlib/eclipsegrid/eclipsegrid.cpp
index 0ade15f..8a43e09 100644
--- a/src/nrlib/eclipsegrid/eclipsegrid.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegrid.cpp
@@ -978,9 +978,9 @@ double EclipseGrid::FindIntersectYFromZ(double z, const BilinearSurface& surface
   double b1 = surface.GetPoint(1,0).z + surface.GetPoint(0,1).z - 2*surface.GetPoint(0,0).z;
   double c1 = surface.GetPoint(0,0).z - z;
 
-  double a2 = surface.GetPoint(0,0).z + surface.GetPoint(1,1).z - surface.GetPoint(1,0).z - surface.GetPoint(0,1).z;
-  double b2 = surface.GetPoint(1,0).z + surface.GetPoint(0,1).z - 2*surface.GetPoint(0,0).z;
-  double c2 = surface.GetPoint(0,0).z;
+  double a2 = surface.GetPoint(0,0).y + surface.GetPoint(1,1).y - surface.GetPoint(1,0).y - surface.GetPoint(0,1).y;
+  double b2 = surface.GetPoint(1,0).y + surface.GetPoint(0,1).y - 2*surface.GetPoint(0,0).y;
+  double c2 = surface.GetPoint(0,0).y;
 
   double u = FindUFromK(a1, b1, c1);
   double y = a2*u*u + b2*u + c2;
@@ -994,9 +994,9 @@ double EclipseGrid::FindIntersectXFromZ(double z, const BilinearSurface& surface
   double b1 = surface.GetPoint(1,0).z + surface.GetPoint(0,1).z - 2*surface.GetPoint(0,0).z;
   double c1 = surface.GetPoint(0,0).z - z;
 
-  double a2 = surface.GetPoint(0,0).z + surface.GetPoint(1,1).z - surface.GetPoint(1,0).z - surface.GetPoint(0,1).z;
-  double b2 = surface.GetPoint(1,0).z + surface.GetPoint(0,1).z - 2*surface.GetPoint(0,0).z;
-  double c2 = surface.GetPoint(0,0).z;
+  double a2 = surface.GetPoint(0,0).x + surface.GetPoint(1,1).x - surface.GetPoint(1,0).x - surface.GetPoint(0,1).x;
+  double b2 = surface.GetPoint(1,0).x + surface.GetPoint(0,1).x - 2*surface.GetPoint(0,0).x;
+  double c2 = surface.GetPoint(0,0).x;
 
   double u = FindUFromK(a1, b1, c1);
   double x = a2*u*u + b2*u + c2;
-- 
2.43.0


From 35ff9ba9192a59806609e8684ab2acd462becdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:42 +0000
Subject: [PATCH 180/198] fix: use the cells at the two sides of faces in y
 when finding common areas

---
 src/nrlib/eclipsegrid/eclipsegrid.cpp | 48 +++++++++++++--------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegrid.cpp b/src/nrlib/eclipsegrid/eclipsegrid.cpp
index 8a43e09..29fbbdc 100644
--- a/src/nrlib/eclipsegrid/eclipsegrid.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegrid.cpp
@@ -1192,20 +1192,20 @@ void EclipseGrid::FindPointsPosY(Point& p11, Point& p12, Point& p13, Point& p14,
   p13 = geometry_.FindCornerPoint(cf.i_, cf.j_, cf.k_, 0, 1, 1);
   p14 = geometry_.FindCornerPoint(cf.i_, cf.j_, cf.k_, 1, 1, 1);
 
-  q11 = geometry_.FindPointAtPillar(cf.i_ + 1, cf.j_, p11.z);
-  q12 = geometry_.FindPointAtPillar(cf.i_, cf.j_, p12.z);
-  q13 = geometry_.FindPointAtPillar(cf.i_ + 1, cf.j_, p13.z);
-  q14 = geometry_.FindPointAtPillar(cf.i_, cf.j_, p14.z);
+  q11 = geometry_.FindPointAtPillar(cf.i_ + 1, cf.j_ + 1, p11.z);
+  q12 = geometry_.FindPointAtPillar(cf.i_, cf.j_ + 1, p12.z);
+  q13 = geometry_.FindPointAtPillar(cf.i_ + 1, cf.j_ + 1, p13.z);
+  q14 = geometry_.FindPointAtPillar(cf.i_, cf.j_ + 1, p14.z);
 
-  p21 = geometry_.FindCornerPoint(cf.i_, cf.j_ - 1, k_other_cell, 0, 0, 0);
-  p22 = geometry_.FindCornerPoint(cf.i_, cf.j_ - 1, k_other_cell, 1, 0, 0);
-  p23 = geometry_.FindCornerPoint(cf.i_, cf.j_ - 1, k_other_cell, 0, 0, 1);
-  p24 = geometry_.FindCornerPoint(cf.i_, cf.j_ - 1, k_other_cell, 1, 0, 1);
+  p21 = geometry_.FindCornerPoint(cf.i_, cf.j_ + 1, k_other_cell, 0, 0, 0);
+  p22 = geometry_.FindCornerPoint(cf.i_, cf.j_ + 1, k_other_cell, 1, 0, 0);
+  p23 = geometry_.FindCornerPoint(cf.i_, cf.j_ + 1, k_other_cell, 0, 0, 1);
+  p24 = geometry_.FindCornerPoint(cf.i_, cf.j_ + 1, k_other_cell, 1, 0, 1);
 
-  q21 = geometry_.FindPointAtPillar(cf.i_ + 1, cf.j_, p21.z);
-  q22 = geometry_.FindPointAtPillar(cf.i_, cf.j_, p22.z);
-  q23 = geometry_.FindPointAtPillar(cf.i_ + 1, cf.j_, p23.z);
-  q24 = geometry_.FindPointAtPillar(cf.i_, cf.j_, p24.z);
+  q21 = geometry_.FindPointAtPillar(cf.i_ + 1, cf.j_ + 1, p21.z);
+  q22 = geometry_.FindPointAtPillar(cf.i_, cf.j_ + 1, p22.z);
+  q23 = geometry_.FindPointAtPillar(cf.i_ + 1, cf.j_ + 1, p23.z);
+  q24 = geometry_.FindPointAtPillar(cf.i_, cf.j_ + 1, p24.z);
 }
 
 
@@ -1222,20 +1222,20 @@ void EclipseGrid::FindPointsNegY(Point& p11, Point& p12, Point& p13, Point& p14,
   p13 = geometry_.FindCornerPoint(cf.i_, cf.j_, cf.k_, 0, 0, 1);
   p14 = geometry_.FindCornerPoint(cf.i_, cf.j_, cf.k_, 1, 0, 1);
 
-  q11 = geometry_.FindPointAtPillar(cf.i_ + 1, cf.j_ + 1, p11.z);
-  q12 = geometry_.FindPointAtPillar(cf.i_, cf.j_ + 1, p12.z);
-  q13 = geometry_.FindPointAtPillar(cf.i_ + 1, cf.j_ + 1, p13.z);
-  q14 = geometry_.FindPointAtPillar(cf.i_, cf.j_ + 1, p14.z);
+  q11 = geometry_.FindPointAtPillar(cf.i_ + 1, cf.j_, p11.z);
+  q12 = geometry_.FindPointAtPillar(cf.i_, cf.j_, p12.z);
+  q13 = geometry_.FindPointAtPillar(cf.i_ + 1, cf.j_, p13.z);
+  q14 = geometry_.FindPointAtPillar(cf.i_, cf.j_, p14.z);
 
-  p21 = geometry_.FindCornerPoint(cf.i_, cf.j_ + 1, k_other_cell, 0, 1, 0);
-  p22 = geometry_.FindCornerPoint(cf.i_, cf.j_ + 1, k_other_cell, 1, 1, 0);
-  p23 = geometry_.FindCornerPoint(cf.i_, cf.j_ + 1, k_other_cell, 0, 1, 1);
-  p24 = geometry_.FindCornerPoint(cf.i_, cf.j_ + 1, k_other_cell, 1, 1, 1);
+  p21 = geometry_.FindCornerPoint(cf.i_, cf.j_ - 1, k_other_cell, 0, 1, 0);
+  p22 = geometry_.FindCornerPoint(cf.i_, cf.j_ - 1, k_other_cell, 1, 1, 0);
+  p23 = geometry_.FindCornerPoint(cf.i_, cf.j_ - 1, k_other_cell, 0, 1, 1);
+  p24 = geometry_.FindCornerPoint(cf.i_, cf.j_ - 1, k_other_cell, 1, 1, 1);
 
-  q21 = geometry_.FindPointAtPillar(cf.i_ + 1, cf.j_ + 1, p21.z);
-  q22 = geometry_.FindPointAtPillar(cf.i_, cf.j_ + 1, p22.z);
-  q23 = geometry_.FindPointAtPillar(cf.i_ + 1, cf.j_ + 1, p23.z);
-  q24 = geometry_.FindPointAtPillar(cf.i_, cf.j_ + 1, p24.z);
+  q21 = geometry_.FindPointAtPillar(cf.i_ + 1, cf.j_, p21.z);
+  q22 = geometry_.FindPointAtPillar(cf.i_, cf.j_, p22.z);
+  q23 = geometry_.FindPointAtPillar(cf.i_ + 1, cf.j_, p23.z);
+  q24 = geometry_.FindPointAtPillar(cf.i_, cf.j_, p24.z);
 }
 
 
-- 
2.43.0


From 581a1df819f4649ddb803b2183c5b65e0da2ecd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:42 +0000
Subject: [PATCH 181/198] fix: let the edges of cell faces end at the corners
 when finding common areas

---
 src/nrlib/eclipsegrid/eclipsegrid.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegrid.cpp b/src/nrlib/eclipsegrid/eclipsegrid.cpp
index 29fbbdc..3f01796 100644
--- a/src/nrlib/eclipsegrid/eclipsegrid.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegrid.cpp
@@ -1265,10 +1265,10 @@ void EclipseGrid::FindAreaZ(Point& p11, Point& p12, Point& p13, Point& p14,
   double x_cur = x_start;
   a_z = 0;
 
-  BilinearSurface surf_11(p11, q11, q12, p12);
-  BilinearSurface surf_12(p13, q13, q14, p14);
-  BilinearSurface surf_21(p21, q21, q22, p22);
-  BilinearSurface surf_22(p23, q23, q24, p24);
+  BilinearSurface surf_11(p11, q11, p12, q12);
+  BilinearSurface surf_12(p13, q13, p14, q14);
+  BilinearSurface surf_21(p21, q21, p22, q22);
+  BilinearSurface surf_22(p23, q23, p24, q24);
   Line line_13(p11, p13);
   Line line_14(p12, p14);
   Line line_23(p21, p23);
@@ -1350,10 +1350,10 @@ void EclipseGrid::FindAreaX(Point& p11, Point& p12, Point& p13, Point& p14,
   double z_cur = z_start;
   a_x = 0;
 
-  BilinearSurface surf_11(p11, q11, q12, p12);
-  BilinearSurface surf_12(p13, q13, q14, p14);
-  BilinearSurface surf_21(p21, q21, q22, p22);
-  BilinearSurface surf_22(p23, q23, q24, p24);
+  BilinearSurface surf_11(p11, q11, p12, q12);
+  BilinearSurface surf_12(p13, q13, p14, q14);
+  BilinearSurface surf_21(p21, q21, p22, q22);
+  BilinearSurface surf_22(p23, q23, p24, q24);
   Line line_13(p11, p13);
   Line line_14(p12, p14);
   Line line_23(p21, p23);
@@ -1437,10 +1437,10 @@ void EclipseGrid::FindAreaY(Point& p11, Point& p12, Point& p13, Point& p14,
   a_y = 0;
 
 
-  BilinearSurface surf_11(p11, q11, q12, p12);
-  BilinearSurface surf_12(p13, q13, q14, p14);
-  BilinearSurface surf_21(p21, q21, q22, p22);
-  BilinearSurface surf_22(p23, q23, q24, p24);
+  BilinearSurface surf_11(p11, q11, p12, q12);
+  BilinearSurface surf_12(p13, q13, p14, q14);
+  BilinearSurface surf_21(p21, q21, p22, q22);
+  BilinearSurface surf_22(p23, q23, p24, q24);
   Line line_13(p11, p13);
   Line line_14(p12, p14);
   Line line_23(p21, p23);
-- 
2.43.0


From b4eeffae5ebf28a52389dc1e9284522322626117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:42 +0000
Subject: [PATCH 182/198] fix: step through common areas of cell faces in a
 given number of steps with two edges of each face

---
 src/nrlib/eclipsegrid/eclipsegrid.cpp | 30 +++++++++++----------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegrid.cpp b/src/nrlib/eclipsegrid/eclipsegrid.cpp
index 3f01796..7ee6aa6 100644
--- a/src/nrlib/eclipsegrid/eclipsegrid.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegrid.cpp
@@ -1262,7 +1262,6 @@ void EclipseGrid::FindAreaZ(Point& p11, Point& p12, Point& p13, Point& p14,
   FindStartAndEndForAlgorithm(xmin11, xmin12, xmin21, xmin22, xmax11, xmax12, xmax21, xmax22, x_start, x_end);
   double delta_x = (x_end - x_start) * 0.001;
 
-  double x_cur = x_start;
   a_z = 0;
 
   BilinearSurface surf_11(p11, q11, p12, q12);
@@ -1274,10 +1273,11 @@ void EclipseGrid::FindAreaZ(Point& p11, Point& p12, Point& p13, Point& p14,
   Line line_23(p21, p23);
   Line line_24(p22, p24);
 
-  while (x_cur < x_end){
+  for (int n = 0; n < 1000 && x_start < x_end; n++) {
+    double x_cur = x_start + (n + 0.5)*delta_x;
     double y;
     std::vector<double> y_val;
-    if (x_cur <= xmax11 && x_cur >= xmin11){
+    if (x_cur < xmax11 && x_cur >= xmin11){
       y = FindIntersectYFromX(x_cur, surf_11);
       y_val.push_back(y);
     }
@@ -1314,12 +1314,10 @@ void EclipseGrid::FindAreaZ(Point& p11, Point& p12, Point& p13, Point& p14,
 
 
     double height;
-    bool isHeight = FindHeight(y_val[0], y_val[1], y_val[2], y_val[3], height);
+    bool isHeight = y_val.size() == 4 && FindHeight(y_val[0], y_val[1], y_val[2], y_val[3], height);
     if (isHeight == true){
       a_z += (height*delta_x);
     }
-
-    x_cur+=delta_x;
   }
 }
 
@@ -1347,7 +1345,6 @@ void EclipseGrid::FindAreaX(Point& p11, Point& p12, Point& p13, Point& p14,
   FindStartAndEndForAlgorithm(zmin11, zmin12, zmin21, zmin22, zmax11, zmax12, zmax21, zmax22, z_start, z_end);
   double delta_z = (z_end - z_start) * 0.001;
 
-  double z_cur = z_start;
   a_x = 0;
 
   BilinearSurface surf_11(p11, q11, p12, q12);
@@ -1359,10 +1356,11 @@ void EclipseGrid::FindAreaX(Point& p11, Point& p12, Point& p13, Point& p14,
   Line line_23(p21, p23);
   Line line_24(p22, p24);
 
-  while (z_cur < z_end){
+  for (int n = 0; n < 1000 && z_start < z_end; n++) {
+    double z_cur = z_start + (n + 0.5)*delta_z;
     double y;
     std::vector<double> y_val;
-    if (z_cur <= zmax11 && z_cur >= zmin11){
+    if (z_cur < zmax11 && z_cur >= zmin11){
       y = FindIntersectYFromZ(z_cur, surf_11);
       y_val.push_back(y);
     }
@@ -1399,12 +1397,10 @@ void EclipseGrid::FindAreaX(Point& p11, Point& p12, Point& p13, Point& p14,
 
 
     double height;
-    bool isHeight = FindHeight(y_val[0], y_val[1], y_val[2], y_val[3], height);
+    bool isHeight = y_val.size() == 4 && FindHeight(y_val[0], y_val[1], y_val[2], y_val[3], height);
     if (isHeight == true){
       a_x += (height*delta_z);
     }
-
-    z_cur+=delta_z;
   }
 
 }
@@ -1433,7 +1429,6 @@ void EclipseGrid::FindAreaY(Point& p11, Point& p12, Point& p13, Point& p14,
   FindStartAndEndForAlgorithm(zmin11, zmin12, zmin21, zmin22, zmax11, zmax12, zmax21, zmax22, z_start, z_end);
   double delta_z = (z_end - z_start) * 0.001;
 
-  double z_cur = z_start;
   a_y = 0;
 
 
@@ -1446,10 +1441,11 @@ void EclipseGrid::FindAreaY(Point& p11, Point& p12, Point& p13, Point& p14,
   Line line_23(p21, p23);
   Line line_24(p22, p24);
 
-  while (z_cur < z_end){
+  for (int n = 0; n < 1000 && z_start < z_end; n++) {
+    double z_cur = z_start + (n + 0.5)*delta_z;
     double x;
     std::vector<double> x_val;
-    if (z_cur <= zmax11 && z_cur >= zmin11){
+    if (z_cur < zmax11 && z_cur >= zmin11){
       x = FindIntersectXFromZ(z_cur, surf_11);
       x_val.push_back(x);
     }
@@ -1486,12 +1482,10 @@ void EclipseGrid::FindAreaY(Point& p11, Point& p12, Point& p13, Point& p14,
 
 
     double height;
-    bool isHeight = FindHeight(x_val[0], x_val[1], x_val[2], x_val[3], height);
+    bool isHeight = x_val.size() == 4 && FindHeight(x_val[0], x_val[1], x_val[2], x_val[3], height);
     if (isHeight == true){
       a_y += (height*delta_z);
     }
-
-    z_cur+=delta_z;
   }
 }
 
-- 
2.43.0


From a792ba65c9285214d97b16ee0c663923b9cb6b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:42 +0000
Subject: [PATCH 183/198] fix: find points on the edges of cell faces without
 loss of precision

---
 src/nrlib/eclipsegrid/eclipsegrid.cpp | 30 ++++++++++++---------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegrid.cpp b/src/nrlib/eclipsegrid/eclipsegrid.cpp
index 7ee6aa6..444a908 100644
--- a/src/nrlib/eclipsegrid/eclipsegrid.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegrid.cpp
@@ -32,6 +32,7 @@
 #include "eclipsegeometry.hpp"
 #include "eclipsetools.hpp"
 
+#include <algorithm>
 #include <cassert>
 #include <cmath>
 #include <fstream>
@@ -1006,7 +1007,7 @@ double EclipseGrid::FindIntersectXFromZ(double z, const BilinearSurface& surface
 
 double EclipseGrid::FindIntersectYFromXPillar(double x, const Line& line) const
 {
-  if ( abs( line.GetPt2().x - line.GetPt1().x ) > pow(10.0, -14) ){
+  if ( std::abs( line.GetPt2().x - line.GetPt1().x ) > pow(10.0, -14) ){
     double u =( x - line.GetPt1().x ) / ( line.GetPt2().x - line.GetPt1().x );
     double y = ( line.GetPt2().y - line.GetPt1().y )*u + line.GetPt1().y;
     return y;
@@ -1019,7 +1020,7 @@ double EclipseGrid::FindIntersectYFromXPillar(double x, const Line& line) const
 
 double EclipseGrid::FindIntersectYFromZPillar(double z, const Line& line) const
 {
-  if ( abs( line.GetPt2().z - line.GetPt1().z ) > pow(10.0, -14) ){
+  if ( std::abs( line.GetPt2().z - line.GetPt1().z ) > pow(10.0, -14) ){
     double u =( z - line.GetPt1().z ) / ( line.GetPt2().z - line.GetPt1().z );
     double y = ( line.GetPt2().y - line.GetPt1().y )*u + line.GetPt1().y;
     return y;
@@ -1032,7 +1033,7 @@ double EclipseGrid::FindIntersectYFromZPillar(double z, const Line& line) const
 
 double EclipseGrid::FindIntersectXFromZPillar(double z, const Line& line) const
 {
-  if ( abs( line.GetPt2().z - line.GetPt1().z ) > pow(10.0, -14) ){
+  if ( std::abs( line.GetPt2().z - line.GetPt1().z ) > pow(10.0, -14) ){
     double u =( z - line.GetPt1().z ) / ( line.GetPt2().z - line.GetPt1().z );
     double x = ( line.GetPt2().x - line.GetPt1().x )*u + line.GetPt1().x;
     return x;
@@ -1045,20 +1046,15 @@ double EclipseGrid::FindIntersectXFromZPillar(double z, const Line& line) const
 
 double EclipseGrid::FindUFromK(double a, double b, double c) const
 {
-  if (a != 0) {
-    double u1 = ( -b + sqrt(b*b - 4*a*c) )/(2*a);
-    if (u1 < 0 || u1 > 1) {
-      double u2 = ( -b - sqrt(b*b - 4*a*c) )/(2*a);
-      assert(u2 >= 0 && u2 <= 1);
-      return u2;
-    }
-    else {
-      return u1;
-    }
-  }
-  else {
-    return (-c/b);
-  }
+  // The roots are q/a and c/q. The one in [0,1] is used.
+  double q  = -0.5*(b + (b < 0.0 ? -1.0 : 1.0)*sqrt(std::max(0.0, b*b - 4*a*c)));
+  double u1 = (q != 0.0) ? c/q : 0.0;
+  if (a != 0 && (u1 < 0 || u1 > 1)) {
+    double u2 = q/a;
+    if (std::abs(u2 - 0.5) < std::abs(u1 - 0.5))
+      u1 = u2;
+  }
+  return std::min(1.0, std::max(0.0, u1));
 }
 
 
-- 
2.43.0


From 6ca6936ea21136ed282195314108cf15af7d5fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:17 +0000
Subject: [PATCH 184/198] fix: do not read SEG-Y traces without samples

---
 src/nrlib/segy/segy.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index 1c3ad1e..f3ab118 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -1230,6 +1230,12 @@ SegY::ReadAndSetBinaryHeader(NRLib::BigFile& file)
                           "\" that use floating point with gain representation.");
     return;
   }
+  if (nz_ == 0)
+  {
+    delete binary_header_;
+    throw FileFormatError("Can not read SegY-file \"" + file.GetFileName().string() +
+                          "\" with no samples in the traces.");
+  }
 }
 
 
-- 
2.43.0


From 9ac80c6ee372da54f42fb72a919cf1c0044a098a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:18 +0000
Subject: [PATCH 185/198] fix: compare SEG-Y traces that are far from each
 other

---
 src/nrlib/segy/segy.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index f3ab118..6ddae0f 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -154,8 +154,8 @@ bool SegY::CompareTraces(const TraceHeader& header1, const TraceHeader& header2,
   double deltaxSq = deltax*deltax;
   double deltaySq = deltay*deltay;
   double utmDist = sqrt(deltaxSq+deltaySq);
-  int   deltaxlSq = deltaxl*deltaxl;
-  int   deltailSq = deltail*deltail;
+  double deltaxlSq = static_cast<double>(deltaxl)*deltaxl;
+  double deltailSq = static_cast<double>(deltail)*deltail;
 
   double k;
   if (deltail == 0 && deltaxl == 0)
@@ -188,15 +188,15 @@ bool SegY::CompareTraces(const TraceHeader& header1, const TraceHeader& header2,
   else
   {
     // solution of a^2dXL^2+b^2dIL^2=dx^2+dy^2, a and b multiples of 6.25.
-    int i,j;
+    double i,j; // Large distances do not fit in integers.
     double prodSum = utmDist/6.25;
     double prodSumSqRelXL = prodSum*prodSum/deltaxlSq;
-    double deltailxlRelSq = static_cast<double>(deltailSq)/deltaxlSq;
-    i = static_cast<int>(floor(0.5+prodSum/static_cast<double>(deltail)));
+    double deltailxlRelSq = deltailSq/deltaxlSq;
+    i = floor(0.5+prodSum/static_cast<double>(deltail));
     while(i > 0 && !ok) {
-      int j0 = static_cast<int>(floor(sqrt(std::max(prodSumSqRelXL-i*i*deltailxlRelSq, 0.0))));
+      double j0 = floor(sqrt(std::max(prodSumSqRelXL-i*i*deltailxlRelSq, 0.0)));
       for(j=j0;j<=j0+1;j++) {
-        k = utmDist/sqrt(static_cast<double>(i*i*deltailSq+j*j*deltaxlSq));
+        k = utmDist/sqrt(i*i*deltailSq+j*j*deltaxlSq);
         double help = fmod(k,6.25);
         if (k/6.25<8.5 && k/6.25>0.5 && (help<=1.0 || (6.25-help)<=1.0))
           ok = true;
-- 
2.43.0


From a23ae8d20399aa0d2e6792758523dd8f8fe565c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:18 +0000
Subject: [PATCH 186/198] fix: report a negative number of logs in RMS well
 files

---
 src/nrlib/well/rmswell.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/well/rmswell.cpp b/src/nrlib/well/rmswell.cpp
index 5655519..1ae703a 100644
--- a/src/nrlib/well/rmswell.cpp
+++ b/src/nrlib/well/rmswell.cpp
@@ -52,7 +52,10 @@ RMSWell::RMSWell(const std::string& filename)
  // getline(file,dummy);// Line may contain a dummy number
   //-----line shift
   DiscardRestOfLine(file, line, false);
-  nlog = ReadNext<int>(file, line);          // read number of logs
+  int n_logs = ReadNext<int>(file, line);    // read number of logs
+  if (n_logs < 0)
+    throw FileFormatError("Negative number of logs in file '"+filename+"'.");
+  nlog = n_logs;
   DiscardRestOfLine(file, line, false);
   lognames_.resize(nlog+3);
   lognames_[0] = "X";
-- 
2.43.0


From 1063ae6acfd8015488d96b9010e3ba12670c725b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:18 +0000
Subject: [PATCH 187/198] fix: stop reading grid labels at the end of Sgri
 headers

---
 src/nrlib/stormgrid/stormcontgrid.cpp | 2 +-
 src/nrlib/surface/surfaceio.cpp       | 2 +-
 src/nrlib/surface/surfaceio.hpp       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/stormgrid/stormcontgrid.cpp b/src/nrlib/stormgrid/stormcontgrid.cpp
index bfd908c..64bbf87 100644
--- a/src/nrlib/stormgrid/stormcontgrid.cpp
+++ b/src/nrlib/stormgrid/stormcontgrid.cpp
@@ -559,7 +559,7 @@ void StormContGrid::ReadSgriHeader(std::ifstream &headerFile, std::string &binFi
   getline(headerFile, tmpStr);
   //Reading record 5+dim ... 5+dim+ngrid-1: Grid labels
 
-  for (i=0; i<nGrid; i++)
+  for (i=0; i<nGrid && headerFile; i++)
     getline(headerFile, tmpStr);
 
   std::vector<float> dValues1(dim);
diff --git a/src/nrlib/surface/surfaceio.cpp b/src/nrlib/surface/surfaceio.cpp
index 78c9ae8..edba8d6 100644
--- a/src/nrlib/surface/surfaceio.cpp
+++ b/src/nrlib/surface/surfaceio.cpp
@@ -138,7 +138,7 @@ ReadMultipleSgriSurf(const std::string& filename, const std::vector<std::string>
     getline(header_file, tmp_str);
 
     //Reading record 5+dim ... 5+dim+ngrid-1: Grid labels
-    for (i=0; i<n_grid; i++)
+    for (i=0; i<n_grid && header_file; i++)
       getline(header_file, tmp_str);
 
     std::vector<float> d_values1(dim);
diff --git a/src/nrlib/surface/surfaceio.hpp b/src/nrlib/surface/surfaceio.hpp
index 773355f..bdcf596 100644
--- a/src/nrlib/surface/surfaceio.hpp
+++ b/src/nrlib/surface/surfaceio.hpp
@@ -263,7 +263,7 @@ void  NRLib::ReadSgriSurf(const std::string & filename,
     getline(header_file, tmp_str);
     //Reading record 5+dim ... 5+dim+ngrid-1: Grid labels
 
-    for (int i=0; i<n_grid; i++)
+    for (int i=0; i<n_grid && header_file; i++)
       getline(header_file, tmp_str);
 
     std::vector<float> d_values1(dim);
-- 
2.43.0


From 8a42de6925d15141a9cea75eccd247a811a635b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:18 +0000
Subject: [PATCH 188/198] fix: report the end of a 2D trend file once

---
 src/nrlib/trend/trendkit.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/trend/trendkit.cpp b/src/nrlib/trend/trendkit.cpp
index 692245a..bc84435 100644
--- a/src/nrlib/trend/trendkit.cpp
+++ b/src/nrlib/trend/trendkit.cpp
@@ -1814,8 +1814,10 @@ void ReadTrend2DPlainAscii(const std::string     & file_name,
     for (int j = 0; j < nj; j++) {
       if (!CheckEndOfFile(file))
         trend2d(i,j) = ReadNext<double>(file, line);
-      else
+      else {
         err_txt += "Premature end of file for 2D trend: " + file_name + ".\n";
+        return;
+      }
     }
   }
 
-- 
2.43.0


From 4b855af286c9ce1a412b2597805add1c14a289a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:52 +0000
Subject: [PATCH 189/198] fix: read SEG-Y sample counts and intervals above
 32767

---
 src/nrlib/segy/commonheaders.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/segy/commonheaders.hpp b/src/nrlib/segy/commonheaders.hpp
index 65d6a93..3e2c18e 100644
--- a/src/nrlib/segy/commonheaders.hpp
+++ b/src/nrlib/segy/commonheaders.hpp
@@ -71,8 +71,8 @@ public:
   void Write(NRLib::BigFile& file, double dz, size_t nz, short n_sam_per_ens) const;
   short GetFormat() {return(format_);}
   int GetLino() {return(lino_);}
-  short GetHns() {return(hns_);}
-  short GetHdt() {return(hdt_);}
+  unsigned short GetHns() {return(static_cast<unsigned short>(hns_));}
+  unsigned short GetHdt() {return(static_cast<unsigned short>(hdt_));}
 private:
   short format_;
   int lino_;
-- 
2.43.0


From eb13eb2973f3316b998e2c42349c3a7479e9b5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:24 +0000
Subject: [PATCH 190/198] fix: report Eclipse parameters that do not fit the
 grid that follows them

---
 src/nrlib/eclipsegrid/eclipsegrid.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nrlib/eclipsegrid/eclipsegrid.cpp b/src/nrlib/eclipsegrid/eclipsegrid.cpp
index 444a908..0e91141 100644
--- a/src/nrlib/eclipsegrid/eclipsegrid.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegrid.cpp
@@ -289,6 +289,12 @@ void EclipseGrid::ReadFromFile(const std::string& file_name)
     else if (token == "SPECGRID") {
       geometry_.ReadSpecGrid(in_file);
       has_spec_grid = true;
+      for (ParameterConstIterator p_it = ParametersBegin(); p_it != ParametersEnd(); ++p_it) {
+        const Grid<double>& parameter = (*p_it).second;
+        if (parameter.GetNI() != GetNI() || parameter.GetNJ() != GetNJ() || parameter.GetNK() != GetNK()) {
+          throw IOError("The parameter " + (*p_it).first + " was read before SPECGRID in " + file_name + ".");
+        }
+      }
     }
     else if (token == "COORD") {
       if (!has_spec_grid) {
-- 
2.43.0


From e144b18aa529376566b7c67e4703158cfca1fe64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:24 +0000
Subject: [PATCH 191/198] fix: report RMS well files that end before all logs
 are described

---
 src/nrlib/well/rmswell.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/well/rmswell.cpp b/src/nrlib/well/rmswell.cpp
index 1ae703a..3f41004 100644
--- a/src/nrlib/well/rmswell.cpp
+++ b/src/nrlib/well/rmswell.cpp
@@ -73,7 +73,8 @@ RMSWell::RMSWell(const std::string& filename)
   isDiscrete_[1] = false;
   isDiscrete_[2] = false;
   for (size_t i = 0; i < nlog; i++) {
-    getline(file,dummy);
+    if (!getline(file,dummy))
+      throw EndOfFile();
     std::istringstream ist(dummy);
     lognames_[i+3] = NRLib::Uppercase(ReadNext<std::string>(ist, line));
 
-- 
2.43.0


From a0c9301a8efe6effa131c17e84ef5b72c926bc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:30 +0000
Subject: [PATCH 192/198] fix: give the empty Eclipse geometry its pillar

---
 src/nrlib/eclipsegrid/eclipsegeometry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegeometry.cpp b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
index 973db28..77fed9a 100644
--- a/src/nrlib/eclipsegrid/eclipsegeometry.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
@@ -44,8 +44,8 @@ EclipseGeometry::EclipseGeometry()
  : ni_(0),
    nj_(0),
    nk_(0),
-   pillars_(),
-   active_pillars_(),
+   pillars_(1, 1),
+   active_pillars_(1, 1),
    z_corners_(),
    active_()
 { }
-- 
2.43.0


From d5512920a73d9339134055b738b8c8bb9b0429b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:52 +0000
Subject: [PATCH 193/198] fix: read sample intervals above 32767 in SEG-Y trace
 headers

---
 src/nrlib/segy/traceheader.cpp | 4 ++--
 src/nrlib/segy/traceheader.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/segy/traceheader.cpp b/src/nrlib/segy/traceheader.cpp
index 07284c0..9d0b92a 100644
--- a/src/nrlib/segy/traceheader.cpp
+++ b/src/nrlib/segy/traceheader.cpp
@@ -564,8 +564,8 @@ TraceHeader::Dump(NRLib::BigFile& outFile, bool changeNs)
 
 void TraceHeader::WriteValues()
 {
-  float dtms = static_cast<float>(dt_)/1000.0f;
-  float lms  = static_cast<float>(ns_-1)*dtms;
+  float dtms = static_cast<float>(static_cast<unsigned short>(dt_))/1000.0f;
+  float lms  = static_cast<float>(static_cast<unsigned short>(ns_)-1)*dtms;
   if (format_.GetScalCoLoc() == -1) {
     LogKit::LogFormatted(LogKit::High,"\n\nThe following header information was extracted from the first trace:\n\n");
     LogKit::LogFormatted(LogKit::High,"     UTMx         UTMy        IL    XL   StartTime   Samples   dt(ms)  Length(ms)\n");
diff --git a/src/nrlib/segy/traceheader.hpp b/src/nrlib/segy/traceheader.hpp
index 8177a58..14a8a9e 100644
--- a/src/nrlib/segy/traceheader.hpp
+++ b/src/nrlib/segy/traceheader.hpp
@@ -245,7 +245,7 @@ public:
 
   /// Set sample interval in mikroseconds.
   void SetDt(int dt);
-  short GetDt() {return(dt_);}
+  unsigned short GetDt() {return(static_cast<unsigned short>(dt_));}
 
   void SetScalCo(short scalcoinitial);
 
-- 
2.43.0


From 2b3eb7f07f6ae5bff6cfce114ab25e69d67719e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:05 +0000
Subject: [PATCH 194/198] fix: report wavelets whose length overflows

---
 src/nrlib/wavelet/waveletio.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nrlib/wavelet/waveletio.cpp b/src/nrlib/wavelet/waveletio.cpp
index 6311c99..51f03c8 100644
--- a/src/nrlib/wavelet/waveletio.cpp
+++ b/src/nrlib/wavelet/waveletio.cpp
@@ -27,6 +27,7 @@
 
 #include <algorithm>
 #include <fstream>
+#include <limits>
 #include <string>
 
 namespace NRLib {
@@ -534,6 +535,8 @@ size_t FindWaveletLength(size_t file_wavelet_length, size_t center_index)
 {
   if (center_index >= file_wavelet_length)
     throw FileFormatError("The time zero sample is outside the wavelet.");
+  if (file_wavelet_length > std::numeric_limits<size_t>::max() / 2)
+    throw FileFormatError("The wavelet is too long.");
 
   size_t n_before = center_index;
   size_t n_after  = file_wavelet_length - center_index - 1;
-- 
2.43.0


From f3e005307dafe04b42074b0a85febed7c646338b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:10 +0000
Subject: [PATCH 195/198] fix: report negative dimensions in SPECGRID

---
 src/nrlib/eclipsegrid/eclipsegeometry.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegeometry.cpp b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
index 77fed9a..4c36ba8 100644
--- a/src/nrlib/eclipsegrid/eclipsegeometry.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
@@ -904,9 +904,14 @@ void EclipseGeometry::ReadSpecGrid(std::ifstream& in_file)
 {
   //the line number is not used here, so it is just set as 0.
   int line = 0;
-  ni_ = ReadNext<int>(in_file, line);
-  nj_ = ReadNext<int>(in_file, line);
-  nk_ = ReadNext<int>(in_file, line);
+  int ni = ReadNext<int>(in_file, line);
+  int nj = ReadNext<int>(in_file, line);
+  int nk = ReadNext<int>(in_file, line);
+  if (ni < 0 || nj < 0 || nk < 0)
+    throw Exception("Negative grid dimension in SPECGRID.");
+  ni_ = ni;
+  nj_ = nj;
+  nk_ = nk;
 
   pillars_.Resize(ni_+1, nj_+1);         // local 2D-grid of class Line
   z_corners_.resize(8 * ni_ * nj_ * nk_);   // local 3D-grid, each cell with local 3D-grid (loc_grid)
-- 
2.43.0


From 5abf7d8fa7c1ee30f31c5f7744cad33785a1e578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:10 +0000
Subject: [PATCH 196/198] fix: set up SEG-Y geometries with line numbers far
 from each other

---
 src/nrlib/segy/segygeometry.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index 4aa1062..6096c4f 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -25,6 +25,7 @@
 #include <cstdlib>
 #include <ctime>
 #include <iostream>
+#include <limits>
 
 #include "segygeometry.hpp"
 #include "segy.hpp"
@@ -109,7 +110,9 @@ SegyGeometry::SegyGeometry(std::vector<SegYTrace *> & traces,
             xlMin = xl;
           if (xl > xlMax)
             xlMax = xl;
-          double distsq = (xl-xl0)*(xl-xl0)+(il-il0)*(il-il0);
+          double dXL    = static_cast<double>(xl) - xl0;
+          double dIL    = static_cast<double>(il) - il0;
+          double distsq = dXL*dXL + dIL*dIL;
           if(distsq > dist1sq) {
             dist1sq = distsq;
             ind1    = i;
@@ -120,6 +123,9 @@ SegyGeometry::SegyGeometry(std::vector<SegYTrace *> & traces,
     il1 = traces[ind1]->GetInline();
     xl1 = traces[ind1]->GetCrossline();
 
+    if (static_cast<double>(ilMax) - ilMin > std::numeric_limits<int>::max() || static_cast<double>(xlMax) - xlMin > std::numeric_limits<int>::max())
+      throw NRLib::Exception("Can not set up geometry: The inline or crossline numbers are too far from each other.");
+
     int  deltaIL = ilMax-ilMin;
     int  deltaXL = xlMax-xlMin;
     double dist2 = 0.0;
-- 
2.43.0


From b10a89fa86e86f4211907c2edeeb87e451a14be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:10 +0000
Subject: [PATCH 197/198] fix: report trends without positive dimensions

---
 src/nrlib/trend/trendkit.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nrlib/trend/trendkit.cpp b/src/nrlib/trend/trendkit.cpp
index bc84435..1ecc017 100644
--- a/src/nrlib/trend/trendkit.cpp
+++ b/src/nrlib/trend/trendkit.cpp
@@ -1808,6 +1808,8 @@ void ReadTrend2DPlainAscii(const std::string     & file_name,
 
   int ni = ReadNext<int>(file, line);
   int nj = ReadNext<int>(file, line);
+  if (ni <= 0 || nj <= 0)
+    throw NRLib::Exception("The dimensions of the 2D trend in " + file_name + " are not positive.");
   trend2d.Resize(ni, nj);
 
   for (int i = 0; i < ni; i++) {
@@ -1837,6 +1839,8 @@ void ReadTrend3DPlainAscii(const std::string   & file_name,
   int ni = ReadNext<int>(file, line);
   int nj = ReadNext<int>(file, line);
   int nk = ReadNext<int>(file, line);
+  if (ni <= 0 || nj <= 0 || nk <= 0)
+    throw NRLib::Exception("The dimensions of the 3D trend in " + file_name + " are not positive.");
   trend3d.Resize(ni, nj, nk);
   ReadAsciiArrayFast(file, trend3d.begin(), trend3d.GetN());
   file.close();
@@ -1853,6 +1857,8 @@ void ReadTrend3DBinary(const std::string   & file_name,
   OpenRead(file, file_name, std::ios::in | std::ios::binary);
   std::vector<int> dim(3);
   ReadBinaryIntArray(file, dim.begin(), 3, file_format);
+  if (dim[0] <= 0 || dim[1] <= 0 || dim[2] <= 0)
+    throw NRLib::Exception("The dimensions of the 3D trend in " + file_name + " are not positive.");
   trend3d.Resize(dim[0], dim[1], dim[2]);
   ReadBinaryFloatArray(file, trend3d.begin(), trend3d.GetN(), file_format);
   file.close();
-- 
2.43.0


From 4e3e7d399bed11ac6fa8957021cccc84d0accbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:02 +0000
Subject: [PATCH 198/198] fix: report grids whose number of cells overflows

---
 src/nrlib/grid/grid.hpp   | 20 ++++++++++++++++----
 src/nrlib/grid/grid2d.hpp | 17 ++++++++++++++---
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/nrlib/grid/grid.hpp b/src/nrlib/grid/grid.hpp
index 277b1b4..1a6ff88 100644
--- a/src/nrlib/grid/grid.hpp
+++ b/src/nrlib/grid/grid.hpp
@@ -24,6 +24,7 @@
 
 #include <cassert>
 #include <sstream>
+#include <stdexcept>
 #include <vector>
 #include <limits>
 
@@ -85,6 +86,8 @@ public:
   void LogTransform(A missing);
 
 private:
+  static size_t FindN(size_t ni, size_t nj, size_t nk);
+
   size_t ni_;
   size_t nj_;
   size_t nk_;
@@ -106,13 +109,22 @@ Grid<A>::Grid(size_t ni, size_t nj, size_t nk, const A& val)
   : ni_(ni),
     nj_(nj),
     nk_(nk),
-    data_(ni*nj*nk, val)
+    data_(FindN(ni, nj, nk), val)
 {}
 
 template<class A>
 Grid<A>::~Grid()
 {}
 
+template<class A>
+size_t Grid<A>::FindN(size_t ni, size_t nj, size_t nk)
+{
+  const size_t max = std::numeric_limits<size_t>::max();
+  if (ni > 0 && nj > 0 && (nj > max / ni || nk > max / (ni * nj)))
+    throw std::length_error("The grid has too many cells.");
+  return ni * nj * nk;
+}
+
 template<class A>
 void Grid<A>::Resize(size_t ni, size_t nj, size_t nk, const A& val)
 {
@@ -121,7 +133,7 @@ void Grid<A>::Resize(size_t ni, size_t nj, size_t nk, const A& val)
   nk_ = nk;
 
   data_.resize(0); //To avoid copying of elements
-  data_.resize(ni_ * nj_ * nk_, val);
+  data_.resize(FindN(ni_, nj_, nk_), val);
 }
 
 template<class A>
@@ -129,7 +141,7 @@ void Grid<A>::ResizeK(size_t nk)
 {
   nk_ = nk;
 
-  data_.resize(ni_ * nj_ * nk_);
+  data_.resize(FindN(ni_, nj_, nk_));
 }
 
 
@@ -140,7 +152,7 @@ void Grid<A>::Assign(size_t ni, size_t nj, size_t nk, const A& val)
   nj_ = nj;
   nk_ = nk;
 
-  data_.assign(ni_ * nj_ * nk_, val);
+  data_.assign(FindN(ni_, nj_, nk_), val);
 }
 
 
diff --git a/src/nrlib/grid/grid2d.hpp b/src/nrlib/grid/grid2d.hpp
index 29945a7..995ecce 100644
--- a/src/nrlib/grid/grid2d.hpp
+++ b/src/nrlib/grid/grid2d.hpp
@@ -24,6 +24,7 @@
 
 #include <cassert>
 #include <sstream>
+#include <stdexcept>
 #include <vector>
 #include <limits>
 
@@ -79,6 +80,8 @@ public:
   A                      FindMax(A missingValue) const;
 
 private:
+  static size_t FindN(size_t ni, size_t nj);
+
   size_t ni_;
   size_t nj_;
   /// The grid data, column-major ordering.
@@ -96,13 +99,21 @@ template<class A>
 Grid2D<A>::Grid2D(size_t ni, size_t nj, const A& val)
   : ni_(ni),
     nj_(nj),
-    data_(ni*nj, val)
+    data_(FindN(ni, nj), val)
 {}
 
 template<class A>
 Grid2D<A>::~Grid2D()
 {}
 
+template<class A>
+size_t Grid2D<A>::FindN(size_t ni, size_t nj)
+{
+  if (ni > 0 && nj > std::numeric_limits<size_t>::max() / ni)
+    throw std::length_error("The grid has too many cells.");
+  return ni * nj;
+}
+
 template<class A>
 void Grid2D<A>::Resize(size_t ni, size_t nj, const A& val)
 {
@@ -110,7 +121,7 @@ void Grid2D<A>::Resize(size_t ni, size_t nj, const A& val)
   nj_ = nj;
 
   data_.resize(0); //To avoid copying of elements
-  data_.resize(ni_ * nj_, val);
+  data_.resize(FindN(ni_, nj_), val);
 }
 
 
@@ -120,7 +131,7 @@ void Grid2D<A>::Assign(size_t ni, size_t nj, const A& val)
   ni_ = ni;
   nj_ = nj;
 
-  data_.assign(ni_ * nj_, val);
+  data_.assign(FindN(ni_, nj_), val);
 }
 
 
-- 
2.43.0

