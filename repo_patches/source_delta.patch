From a0b8215346dbd486764919fe349c47bec24ab53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 1/7] fix: branch of the inversion formula when the phase angle
 underflows

For Im(z) > 0 and |z| > 1 the phase angle arg(z) can underflow to zero.
Li3-Li6 then chose the branch of log(-z) that belongs to Im(z) <= 0, so
the imaginary part of the result had the wrong sign.
---
 src/c/Li3.c         | 4 ++--
 src/c/Li4.c         | 4 ++--
 src/c/Li5.c         | 4 ++--
 src/c/Li6.c         | 4 ++--
 src/cpp/Li3.cpp     | 4 ++--
 src/cpp/Li4.cpp     | 4 ++--
 src/cpp/Li5.cpp     | 4 ++--
 src/cpp/Li6.cpp     | 4 ++--
 src/fortran/Li3.f90 | 2 +-
 src/fortran/Li4.f90 | 2 +-
 src/fortran/Li5.f90 | 2 +-
 src/fortran/Li6.f90 | 2 +-
 12 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/c/Li3.c b/src/c/Li3.c
index ef1f532..35f1f6c 100644
--- a/src/c/Li3.c
+++ b/src/c/Li3.c
@@ -167,7 +167,7 @@ double _Complex cli3(double _Complex z)
    if (nz <= 1.0) {
       u = -pos_clog(1.0 - z);
    } else { // nz > 1
-      const double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const double arg = (pz > 0.0 || iz > 0.0) ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       u = -pos_clog(1.0 - 1.0/z);
       rest = -lmz*(lmz*lmz/6.0 + zeta2);
@@ -319,7 +319,7 @@ long double _Complex cli3l(long double _Complex z)
    if (nz <= 1.0L) {
       u = -pos_clogl(1.0L - z);
    } else { // nz > 1
-      const long double arg = pz > 0.0L ? pz - PI : pz + PI;
+      const long double arg = (pz > 0.0L || iz > 0.0L) ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       u = -pos_clogl(1.0L - 1.0L/z);
       rest = -lmz*(lmz*lmz/6.0L + zeta2);
diff --git a/src/c/Li4.c b/src/c/Li4.c
index 0c7cf7a..ac4e854 100644
--- a/src/c/Li4.c
+++ b/src/c/Li4.c
@@ -226,7 +226,7 @@ double _Complex cli4(double _Complex z)
    if (nz <= 1.0) {
       u = -pos_clog(1.0 - z);
    } else { // nz > 1
-      const double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const double arg = (pz > 0.0 || iz > 0.0) ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       const double _Complex lmz2 = lmz*lmz;
       u = -pos_clog(1.0 - 1.0/z);
@@ -379,7 +379,7 @@ long double _Complex cli4l(long double _Complex z)
    if (nz <= 1.0L) {
       u = -pos_clogl(1.0L - z);
    } else { // nz > 1
-      const long double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const long double arg = (pz > 0.0 || iz > 0.0) ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       const long double _Complex lmz2 = lmz*lmz;
       u = -pos_clogl(1.0L - 1.0L/z);
diff --git a/src/c/Li5.c b/src/c/Li5.c
index 2249583..ca43fba 100644
--- a/src/c/Li5.c
+++ b/src/c/Li5.c
@@ -86,7 +86,7 @@ double _Complex cli5(double _Complex z)
    if (nz <= 1.0) {
       u = -pos_clog(1.0 - z);
    } else { // nz > 1
-      const double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const double arg = (pz > 0.0 || iz > 0.0) ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       const double _Complex lmz2 = lmz*lmz;
       u = -pos_clog(1.0 - 1.0/z);
@@ -238,7 +238,7 @@ long double _Complex cli5l(long double _Complex z)
    if (nz <= 1.0L) {
       u = -pos_clogl(1.0L - z);
    } else { // nz > 1
-      const long double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const long double arg = (pz > 0.0 || iz > 0.0) ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       const long double _Complex lmz2 = lmz*lmz;
       u = -pos_clogl(1.0L - 1.0L/z);
diff --git a/src/c/Li6.c b/src/c/Li6.c
index 555e952..e1fc4e7 100644
--- a/src/c/Li6.c
+++ b/src/c/Li6.c
@@ -88,7 +88,7 @@ double _Complex cli6(double _Complex z)
    if (nz <= 1.0) {
       u = -pos_clog(1.0 - z);
    } else { // nz > 1
-      const double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const double arg = (pz > 0.0 || iz > 0.0) ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       const double _Complex lmz2 = lmz*lmz;
       u = -pos_clog(1.0 - 1.0/z);
@@ -249,7 +249,7 @@ long double _Complex cli6l(long double _Complex z)
    if (nz <= 1.0L) {
       u = -pos_clogl(1.0L - z);
    } else { // nz > 1
-      const long double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const long double arg = (pz > 0.0 || iz > 0.0) ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       const long double _Complex lmz2 = lmz*lmz;
       u = -pos_clogl(1.0L - 1.0L/z);
diff --git a/src/cpp/Li3.cpp b/src/cpp/Li3.cpp
index d7fe2c5..380c3e4 100644
--- a/src/cpp/Li3.cpp
+++ b/src/cpp/Li3.cpp
@@ -175,7 +175,7 @@ std::complex<double> Li3(const std::complex<double>& z) noexcept
    if (nz <= 1) {
       u = -log1p(-z);
    } else { // nz > 1
-      const double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const double arg = (pz > 0.0 || iz > 0.0) ? pz - PI : pz + PI;
       const std::complex<double> lmz(lnz, arg); // log(-z)
       u = -log1p(-1.0/z);
       rest = -lmz*(lmz*lmz/6.0 + zeta2);
@@ -317,7 +317,7 @@ std::complex<long double> Li3(const std::complex<long double>& z) noexcept
    if (nz <= 1) {
       u = -log1p(-z);
    } else { // nz > 1
-      const long double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const long double arg = (pz > 0.0 || iz > 0.0) ? pz - PI : pz + PI;
       const std::complex<long double> lmz(lnz, arg); // log(-z)
       u = -log1p(-1.0L/z);
       rest = -lmz*(lmz*lmz/6.0L + zeta2);
diff --git a/src/cpp/Li4.cpp b/src/cpp/Li4.cpp
index df16968..901e9e9 100644
--- a/src/cpp/Li4.cpp
+++ b/src/cpp/Li4.cpp
@@ -224,7 +224,7 @@ std::complex<double> Li4(const std::complex<double>& z) noexcept
    if (nz <= 1) {
       u = -log1p(-z);
    } else { // nz > 1
-      const double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const double arg = (pz > 0.0 || iz > 0.0) ? pz - PI : pz + PI;
       const std::complex<double> lmz(lnz, arg); // log(-z)
       const auto lmz2 = lmz*lmz;
       u = -log1p(-1.0/z);
@@ -369,7 +369,7 @@ std::complex<long double> Li4(const std::complex<long double>& z) noexcept
    if (nz <= 1) {
       u = -log1p(-z);
    } else { // nz > 1
-      const long double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const long double arg = (pz > 0.0 || iz > 0.0) ? pz - PI : pz + PI;
       const std::complex<long double> lmz(lnz, arg); // log(-z)
       const auto lmz2 = lmz*lmz;
       u = -log1p(-1.0L/z);
diff --git a/src/cpp/Li5.cpp b/src/cpp/Li5.cpp
index 9706eb5..e8aa7a1 100644
--- a/src/cpp/Li5.cpp
+++ b/src/cpp/Li5.cpp
@@ -83,7 +83,7 @@ std::complex<double> Li5(const std::complex<double>& z) noexcept
    if (nz <= 1) {
       u = -log1p(-z);
    } else { // nz > 1
-      const double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const double arg = (pz > 0.0 || iz > 0.0) ? pz - PI : pz + PI;
       const std::complex<double> lmz(lnz, arg); // log(-z)
       const auto lmz2 = lmz*lmz;
       u = -log1p(-1.0/z);
@@ -228,7 +228,7 @@ std::complex<long double> Li5(const std::complex<long double>& z) noexcept
    if (nz <= 1) {
       u = -log1p(-z);
    } else { // nz > 1
-      const long double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const long double arg = (pz > 0.0 || iz > 0.0) ? pz - PI : pz + PI;
       const std::complex<long double> lmz(lnz, arg); // log(-z)
       const auto lmz2 = lmz*lmz;
       u = -log1p(-1.0L/z);
diff --git a/src/cpp/Li6.cpp b/src/cpp/Li6.cpp
index aa53d6c..d70f30f 100644
--- a/src/cpp/Li6.cpp
+++ b/src/cpp/Li6.cpp
@@ -86,7 +86,7 @@ std::complex<double> Li6(const std::complex<double>& z) noexcept
    if (nz <= 1) {
       u = -log1p(-z);
    } else { // nz > 1
-      const double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const double arg = (pz > 0.0 || iz > 0.0) ? pz - PI : pz + PI;
       const std::complex<double> lmz(lnz, arg); // log(-z)
       const auto lmz2 = lmz*lmz;
       u = -log1p(-1.0/z);
@@ -236,7 +236,7 @@ std::complex<long double> Li6(const std::complex<long double>& z) noexcept
    if (nz <= 1) {
       u = -log1p(-z);
    } else { // nz > 1
-      const long double arg = pz > 0.0 ? pz - PI : pz + PI;
+      const long double arg = (pz > 0.0 || iz > 0.0) ? pz - PI : pz + PI;
       const std::complex<long double> lmz(lnz, arg); // log(-z)
       const auto lmz2 = lmz*lmz;
       u = -log1p(-1.0L/z);
diff --git a/src/fortran/Li3.f90 b/src/fortran/Li3.f90
index 6ce02a8..b2a098f 100644
--- a/src/fortran/Li3.f90
+++ b/src/fortran/Li3.f90
@@ -168,7 +168,7 @@ double complex function cdli3(z)
       u = -pos_cdlog(1 - z)
       rest = 0
    else ! nz > 1
-      if (pz .gt. 0) then
+      if (pz .gt. 0 .or. iz .gt. 0) then
          arg = pz - PI
       else
          arg = pz + PI
diff --git a/src/fortran/Li4.f90 b/src/fortran/Li4.f90
index 3e1f257..04eac54 100644
--- a/src/fortran/Li4.f90
+++ b/src/fortran/Li4.f90
@@ -229,7 +229,7 @@ double complex function cdli4(z)
       r = 0
       sgn = 1
    else ! nz > 1
-      if (pz .gt. 0) then
+      if (pz .gt. 0 .or. iz .gt. 0) then
          arg = pz - PI
       else
          arg = pz + PI
diff --git a/src/fortran/Li5.f90 b/src/fortran/Li5.f90
index 46900f1..3c63d6c 100644
--- a/src/fortran/Li5.f90
+++ b/src/fortran/Li5.f90
@@ -82,7 +82,7 @@ double complex function cdli5(z)
       u = -pos_cdlog(1 - z)
       rest = 0
    else ! nz > 1
-      if (pz .gt. 0) then
+      if (pz .gt. 0 .or. iz .gt. 0) then
          arg = pz - PI
       else
          arg = pz + PI
diff --git a/src/fortran/Li6.f90 b/src/fortran/Li6.f90
index 4c05c69..db0c261 100644
--- a/src/fortran/Li6.f90
+++ b/src/fortran/Li6.f90
@@ -83,7 +83,7 @@ double complex function cdli6(z)
       r = 0
       sgn = 1
    else ! nz > 1
-      if (pz .gt. 0) then
+      if (pz .gt. 0 .or. iz .gt. 0) then
          arg = pz - PI
       else
          arg = pz + PI
-- 
2.43.0


From 4fb50f5da5ecff537a79a7ace2f46a1a5dfac025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:59 +0000
Subject: [PATCH 2/7] fix: real Li2 of minus infinity is minus infinity, not
 NaN

---
 src/c/Li2.c         | 6 +++---
 src/cpp/Li2.cpp     | 6 +++---
 src/fortran/Li2.f90 | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/c/Li2.c b/src/c/Li2.c
index 1e60dd8..b6a11ba 100644
--- a/src/c/Li2.c
+++ b/src/c/Li2.c
@@ -40,7 +40,7 @@ float li2f(float x)
    if (x < -1) {
       const float l = logf(1 - x);
       y = 1/(1 - x);
-      r = -PI*PI/6 + l*(0.5f*l - logf(-x));
+      r = -PI*PI/6 - l*(0.5f*l + log1pf(-y));
       s = 1;
    } else if (x == -1) {
       return -PI*PI/12;
@@ -117,7 +117,7 @@ double li2(double x)
    if (x < -1) {
       const double l = log(1 - x);
       y = 1/(1 - x);
-      r = -PI*PI/6 + l*(0.5*l - log(-x));
+      r = -PI*PI/6 - l*(0.5*l + log1p(-y));
       s = 1;
    } else if (x == -1) {
       return -PI*PI/12;
@@ -245,7 +245,7 @@ long double li2l(long double x)
    if (x < -1) {
       const long double l = logl(1 - x);
       y = 1/(1 - x);
-      r = -PI*PI/6 + l*(0.5L*l - logl(-x));
+      r = -PI*PI/6 - l*(0.5L*l + log1pl(-y));
       s = 1;
    } else if (x == -1) {
       return -PI*PI/12;
diff --git a/src/cpp/Li2.cpp b/src/cpp/Li2.cpp
index 57bf7d1..ba00693 100644
--- a/src/cpp/Li2.cpp
+++ b/src/cpp/Li2.cpp
@@ -35,7 +35,7 @@ float Li2(float x) noexcept
    if (x < -1) {
       const float l = std::log(1 - x);
       y = 1/(1 - x);
-      r = -PI*PI/6 + l*(0.5f*l - std::log(-x));
+      r = -PI*PI/6 - l*(0.5f*l + std::log1p(-y));
       s = 1;
    } else if (x == -1) {
       return -PI*PI/12;
@@ -112,7 +112,7 @@ double Li2(double x) noexcept
    if (x < -1) {
       const double l = std::log(1 - x);
       y = 1/(1 - x);
-      r = -PI*PI/6 + l*(0.5*l - std::log(-x));
+      r = -PI*PI/6 - l*(0.5*l + std::log1p(-y));
       s = 1;
    } else if (x == -1) {
       return -PI*PI/12;
@@ -239,7 +239,7 @@ long double Li2(long double x) noexcept
    if (x < -1) {
       const long double l = std::log(1 - x);
       y = 1/(1 - x);
-      r = -PI*PI/6 + l*(0.5L*l - std::log(-x));
+      r = -PI*PI/6 - l*(0.5L*l + std::log1p(-y));
       s = 1;
    } else if (x == -1) {
       return -PI*PI/12;
diff --git a/src/fortran/Li2.f90 b/src/fortran/Li2.f90
index 8eaa847..fb639e3 100644
--- a/src/fortran/Li2.f90
+++ b/src/fortran/Li2.f90
@@ -40,7 +40,7 @@ double precision function dli2(x)
    if (x .lt. -1) then
       l = log(1 - x)
       y = 1/(1 - x)
-      r = -PI**2/6 + l*(0.5D0*l - log(-x))
+      r = -PI**2/6 - l*(0.5D0*l + log(1 - y))
       s = 1
    elseif (x .eq. -1) then
       dli2 = -PI**2/12
-- 
2.43.0


From 286fad0ed489dcebde0d4092fddc60cecfbb4110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:42 +0000
Subject: [PATCH 3/7] fix: Cl(n,x) for n = 7..9 is not NaN for the smallest
 subnormal angle

---
 src/cpp/Cl.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cpp/Cl.cpp b/src/cpp/Cl.cpp
index 1605f18..119737f 100644
--- a/src/cpp/Cl.cpp
+++ b/src/cpp/Cl.cpp
@@ -307,9 +307,10 @@ double Cl(int64_t n, double x)
       const double sign1 = is_even((n + 1)/2) ? 1.0 : -1.0;
 
       // first line in Eq.(2.13)
-      const double term1 = x == 0 ? 0
+      const double sin2 = 2*std::sin(x/2);
+      const double term1 = sin2 == 0 ? 0
          : sign1*std::pow(x, n - 1)*inverse_factorial[n - 1] *
-           std::log(2*std::sin(x/2));
+           std::log(sin2);
 
       const double sign2 = is_even(n/2) ? 1.0 : -1.0;
 
-- 
2.43.0


From 3d9bb17213369e0d3d62c8d919e202f3a9fa89c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:38 +0000
Subject: [PATCH 4/7] fix: Fortran dcl2..dcl6 and dli4 do not modify the
 caller's argument

---
 src/fortran/Cl2.f90 |  6 ++++--
 src/fortran/Cl3.f90 |  7 +++++--
 src/fortran/Cl4.f90 |  6 ++++--
 src/fortran/Cl5.f90 |  7 +++++--
 src/fortran/Cl6.f90 |  6 ++++--
 src/fortran/Li4.f90 | 26 ++++++++++++++------------
 6 files changed, 36 insertions(+), 22 deletions(-)

diff --git a/src/fortran/Cl2.f90 b/src/fortran/Cl2.f90
index 4d0e3a4..e8403e4 100644
--- a/src/fortran/Cl2.f90
+++ b/src/fortran/Cl2.f90
@@ -6,14 +6,15 @@
 
 !*********************************************************************
 !> @brief Clausen function \f$\operatorname{Cl}_2(\theta) = \operatorname{Im}(\operatorname{Li}_2(e^{i\theta}))\f$
-!> @param x real angle
+!> @param angle real angle
 !> @return \f$\operatorname{Cl}_2(\theta)\f$
 !> @author Alexander Voigt
 !> Implemented as rational function approximation.
 !*********************************************************************
 
-double precision function dcl2(x)
+double precision function dcl2(angle)
   implicit none
+  double precision, intent(in) :: angle
   double precision :: x, y, z, z2, z4, p, q, p0, p1, sgn
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -42,6 +43,7 @@ double precision function dcl2(x)
       9.5432542196310670D-6,                &
      -1.8184302880448247D-8                 /)
 
+  x = angle
   sgn = 1
 
   if (x .lt. 0) then
diff --git a/src/fortran/Cl3.f90 b/src/fortran/Cl3.f90
index fed7d0e..ae1873f 100644
--- a/src/fortran/Cl3.f90
+++ b/src/fortran/Cl3.f90
@@ -6,14 +6,15 @@
 
 !*********************************************************************
 !> @brief Clausen function \f$\operatorname{Cl}_3(\theta) = \operatorname{Re}(\operatorname{Li}_3(e^{i\theta}))\f$
-!> @param x real angle
+!> @param angle real angle
 !> @return \f$\operatorname{Cl}_3(\theta)\f$
 !> @author Alexander Voigt
 !> Implemented as rational function approximation.
 !*********************************************************************
 
-double precision function dcl3(x)
+double precision function dcl3(angle)
   implicit none
+  double precision, intent(in) :: angle
   double precision :: x, y, z, z2, z4, p, q, p0, p1
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -43,6 +44,8 @@ double precision function dcl3(x)
       1.0199322763377861D-6,                &
       1.9612106499469264D-9                 /)
 
+  x = angle
+
   if (x .lt. 0) then
      x = -x
   endif
diff --git a/src/fortran/Cl4.f90 b/src/fortran/Cl4.f90
index 3d00a08..033d53b 100644
--- a/src/fortran/Cl4.f90
+++ b/src/fortran/Cl4.f90
@@ -6,14 +6,15 @@
 
 !*********************************************************************
 !> @brief Clausen function \f$\operatorname{Cl}_4(\theta) = \operatorname{Im}(\operatorname{Li}_4(e^{i\theta}))\f$
-!> @param x real angle
+!> @param angle real angle
 !> @return \f$\operatorname{Cl}_4(\theta)\f$
 !> @author Alexander Voigt
 !> Implemented as rational function approximation.
 !*********************************************************************
 
-double precision function dcl4(x)
+double precision function dcl4(angle)
   implicit none
+  double precision, intent(in) :: angle
   double precision :: x, y, z, z2, z4, p, q, p0, p1, sgn
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -43,6 +44,7 @@ double precision function dcl4(x)
       5.9283675098376635D-7,                &
       9.4127575773361230D-10                /)
 
+  x = angle
   sgn = 1
 
   if (x .lt. 0) then
diff --git a/src/fortran/Cl5.f90 b/src/fortran/Cl5.f90
index 0468821..4959d26 100644
--- a/src/fortran/Cl5.f90
+++ b/src/fortran/Cl5.f90
@@ -6,14 +6,15 @@
 
 !*********************************************************************
 !> @brief Clausen function \f$\operatorname{Cl}_5(\theta) = \operatorname{Re}(\operatorname{Li}_5(e^{i\theta}))\f$
-!> @param x real angle
+!> @param angle real angle
 !> @return \f$\operatorname{Cl}_5(\theta)\f$
 !> @author Alexander Voigt
 !> Implemented as a rational function approximation.
 !*********************************************************************
 
-double precision function dcl5(x)
+double precision function dcl5(angle)
   implicit none
+  double precision, intent(in) :: angle
   double precision :: x, y, z, z2, z4, p, q, p0, p1
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -44,6 +45,8 @@ double precision function dcl5(x)
      -7.4383354448335299D-8,                &
      -3.4131758392216437D-10                /)
 
+  x = angle
+
   if (x .lt. 0) then
      x = -x
   endif
diff --git a/src/fortran/Cl6.f90 b/src/fortran/Cl6.f90
index d7a5af6..f9e8020 100644
--- a/src/fortran/Cl6.f90
+++ b/src/fortran/Cl6.f90
@@ -6,14 +6,15 @@
 
 !*********************************************************************
 !> @brief Clausen function \f$\operatorname{Cl}_6(\theta) = \operatorname{Im}(\operatorname{Li}_6(e^{i\theta}))\f$
-!> @param x real angle
+!> @param angle real angle
 !> @return \f$\operatorname{Cl}_6(\theta)\f$
 !> @author Alexander Voigt
 !> Implemented as rational function approximation.
 !*********************************************************************
 
-double precision function dcl6(x)
+double precision function dcl6(angle)
   implicit none
+  double precision, intent(in) :: angle
   double precision :: x, y, z, z2, z4, p, q, p0, p1, sgn
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -42,6 +43,7 @@ double precision function dcl6(x)
       3.5669441618295266D-8,                &
       2.5315391843409925D-10                /)
 
+  x = angle
   sgn = 1
 
   if (x .lt. 0) then
diff --git a/src/fortran/Li4.f90 b/src/fortran/Li4.f90
index 04eac54..0445f95 100644
--- a/src/fortran/Li4.f90
+++ b/src/fortran/Li4.f90
@@ -109,16 +109,17 @@ end function dli4_one
 !*********************************************************************
 double precision function dli4(x)
   implicit none
-  double precision :: x, app, rest, sgn, l, l2
+  double precision, intent(in) :: x
+  double precision :: y, app, rest, sgn, l, l2
   double precision :: dli4_neg, dli4_half, dli4_mid, dli4_one
   double precision, parameter :: zeta2 = 1.6449340668482264D0
   double precision, parameter :: zeta4 = 1.0823232337111382D0
 
-  ! transform x to [-1,1]
+  ! transform x to y in [-1,1]
   if (x .lt. -1) then
      l = log(-x)
      l2 = l**2
-     x = 1/x
+     y = 1/x
      rest = -7.0D0/4*zeta4 + l2*(-0.5D0*zeta2 - 1.0D0/24*l2)
      sgn = -1
   elseif (x .eq. -1) then
@@ -128,6 +129,7 @@ double precision function dli4(x)
      dli4 = x
      return
   elseif (x .lt. 1) then
+     y = x
      rest = 0
      sgn = 1
   elseif (x .eq. 1) then
@@ -136,19 +138,19 @@ double precision function dli4(x)
   else ! x > 1
      l = log(x)
      l2 = l**2
-     x = 1/x
+     y = 1/x
      rest = 2*zeta4 + l2*(zeta2 - 1.0D0/24*l2)
      sgn = -1
   endif
 
-  if (x .lt. 0) then
-     app = dli4_neg(x)
-  elseif (x .lt. 0.5D0) then
-     app = dli4_half(x)
-  elseif (x .lt. 0.8D0) then
-     app = dli4_mid(x)
-  else ! x <= 1
-     app = dli4_one(x)
+  if (y .lt. 0) then
+     app = dli4_neg(y)
+  elseif (y .lt. 0.5D0) then
+     app = dli4_half(y)
+  elseif (y .lt. 0.8D0) then
+     app = dli4_mid(y)
+  else ! y <= 1
+     app = dli4_one(y)
   endif
 
   dli4 = rest + sgn*app
-- 
2.43.0


From 74fb8517aa5f51e4fd90af57733ed7e4374afb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:11 +0000
Subject: [PATCH 5/7] fix: no signed integer overflow in zeta, neg_eta and
 harmonic for the extreme orders

---
 src/cpp/eta.cpp      | 2 +-
 src/cpp/harmonic.cpp | 2 +-
 src/cpp/zeta.cpp     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cpp/eta.cpp b/src/cpp/eta.cpp
index c59d618..f5fb03b 100644
--- a/src/cpp/eta.cpp
+++ b/src/cpp/eta.cpp
@@ -85,7 +85,7 @@ double neg_eta(int64_t n) noexcept
          return 0.0;
       } else if (-(1 + n)/2 < static_cast<int64_t>(sizeof(NEG_ETA_NEG_N)/sizeof(NEG_ETA_NEG_N[0]))) {
          return NEG_ETA_NEG_N[-(1 + n)/2];
-      } else if (is_even((1 - n)/2)) {
+      } else if (is_even((n - 1)/2)) {
          return std::numeric_limits<double>::infinity();
       } else {
          return -std::numeric_limits<double>::infinity();
diff --git a/src/cpp/harmonic.cpp b/src/cpp/harmonic.cpp
index 84e3e0d..c408852 100644
--- a/src/cpp/harmonic.cpp
+++ b/src/cpp/harmonic.cpp
@@ -63,7 +63,7 @@ double harmonic(int64_t n) noexcept
       return sum;
    } else {
       const double eulergamma = 0.57721566490153286;
-      return eulergamma + digamma(n + 1);
+      return eulergamma + digamma(n) + 1.0/n;
    }
 }
 
diff --git a/src/cpp/zeta.cpp b/src/cpp/zeta.cpp
index bd691f4..db5793d 100644
--- a/src/cpp/zeta.cpp
+++ b/src/cpp/zeta.cpp
@@ -87,7 +87,7 @@ double zeta(int64_t n) noexcept
          return 0.0;
       } else if (-(1 + n)/2 < static_cast<int64_t>(sizeof(ZETAS_NEG)/sizeof(ZETAS_NEG[0]))) {
          return ZETAS_NEG[-(1 + n)/2];
-      } else if (is_even((1 - n)/2)) {
+      } else if (is_even((n - 1)/2)) {
          return std::numeric_limits<double>::infinity();
       } else {
          return -std::numeric_limits<double>::infinity();
-- 
2.43.0


From 7c5793740157bd0eab5555fff2bab3e3d7995739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:33 +0000
Subject: [PATCH 6/7] fix: Li(n,z) takes time independent of n for |z| ~ 1

---
 src/cpp/Li.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 773994e..0d07e36 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -72,7 +72,9 @@ namespace {
 
       for (int64_t j = 1; j < n - 1; ++j) {
          p *= lnz/static_cast<double>(j);
+         const auto old_sum = sum;
          sum += zeta(n - j)*p;
+         if (sum == old_sum) { return sum; }
       }
 
       p *= lnz/static_cast<double>(n - 1);
-- 
2.43.0


From ecc0a5cd273b84608152b1b4a8efa71a08642fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:51 +0000
Subject: [PATCH 7/7] fix: Li(n,z) for n > 100 and very large |z| is no longer
 NaN or truncated

---
 src/cpp/Li.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 0d07e36..463ade9 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -151,18 +151,18 @@ namespace {
       const std::complex<double> lnz = clog(-z);
       const std::complex<double> lnz2 = lnz*lnz;
       const int64_t kmax = is_even(n) ? n/2 : (n - 1)/2;
-      std::complex<double> p = is_even(n) ? 1.0 : lnz;
-      std::complex<double> sum(0.0, 0.0), old_sum;
+      std::complex<double> p = is_even(n) ? 1.0 : lnz; // lnz^m/m!, m = n - 2*k
+      std::complex<double> sum(0.0, 0.0);
 
       for (int64_t k = kmax; k != 0; --k) {
-         const double ifac = inv_fac(n - 2*k);
-         if (ifac == 0) { return 2.0*sum; }
-         sum += neg_eta(2*k)*ifac*p;
-         p *= lnz2;
-         if (sum == old_sum) { break; }
+         const double m = n - 2*k;
+         const auto old_sum = sum;
+         sum += neg_eta(2*k)*p;
+         if (sum == old_sum) { return 2.0*sum; }
+         p *= lnz2/((m + 1)*(m + 2));
       }
 
-      return 2.0*sum - p*inv_fac(n);
+      return 2.0*sum - p;
    }
 
 } // anonymous namespace
-- 
2.43.0

