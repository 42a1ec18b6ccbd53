// Scalar arithmetic used by the analysis: long double or __float128.
#pragma once
#include <cmath>
#include <cstdint>
#include <limits>
#include <quadmath.h>
typedef __float128 q128;
typedef long double ld;

template<class T> struct Num;
template<> struct Num<ld> {
   static ld u() { return 5.421010862427522170037e-20L; }  // 2^-64
   static ld log(ld x) { return logl(x); } static ld log1p(ld x) { return log1pl(x); }
   static ld exp(ld x) { return expl(x); } static ld sqrt(ld x) { return sqrtl(x); }
   static ld sin(ld x) { return sinl(x); } static ld cos(ld x) { return cosl(x); }
   static ld atan2(ld y, ld x) { return atan2l(y, x); } static ld hypot(ld x, ld y) { return hypotl(x, y); }
   static ld abs(ld x) { return x < 0 ? -x : x; } static ld expm1(ld x) { return expm1l(x); }
   static ld from(q128 x) { return (ld)x; } static bool fin(ld x) { return std::isfinite(x); }
};
template<> struct Num<q128> {
   static q128 u() { return 9.62964972193617926527988971292463659e-35Q; } // 2^-113
   static q128 log(q128 x) { return logq(x); } static q128 log1p(q128 x) { return log1pq(x); }
   static q128 exp(q128 x) { return expq(x); } static q128 sqrt(q128 x) { return sqrtq(x); }
   static q128 sin(q128 x) { return sinq(x); } static q128 cos(q128 x) { return cosq(x); }
   static q128 atan2(q128 y, q128 x) { return atan2q(y, x); } static q128 hypot(q128 x, q128 y) { return hypotq(x, y); }
   static q128 abs(q128 x) { return x < 0 ? -x : x; } static q128 expm1(q128 x) { return expm1q(x); }
   static q128 from(q128 x) { return x; } static bool fin(q128 x) { return finiteq(x); }
};

template<class T> struct Cx {
   T re, im;
   Cx() : re(0), im(0) {}
   Cx(T a) : re(a), im(0) {}
   Cx(T a, T b) : re(a), im(b) {}
};
template<class T> inline Cx<T> operator+(const Cx<T>& a, const Cx<T>& b) { return {a.re + b.re, a.im + b.im}; }
template<class T> inline Cx<T> operator-(const Cx<T>& a, const Cx<T>& b) { return {a.re - b.re, a.im - b.im}; }
template<class T> inline Cx<T> operator-(const Cx<T>& a) { return {-a.re, -a.im}; }
template<class T> inline Cx<T> operator*(const Cx<T>& a, const Cx<T>& b) { return {a.re*b.re - a.im*b.im, a.re*b.im + a.im*b.re}; }
template<class T> inline Cx<T> operator*(const Cx<T>& a, T b) { return {a.re*b, a.im*b}; }
template<class T> inline Cx<T> conj(const Cx<T>& a) { return {a.re, -a.im}; }
template<class T> inline Cx<T> cdiv(const Cx<T>& a, const Cx<T>& b) {
   // scaled to avoid overflow for very large or small |b|
   T m = Num<T>::abs(b.re) > Num<T>::abs(b.im) ? Num<T>::abs(b.re) : Num<T>::abs(b.im);
   T br = b.re/m, bi = b.im/m; T d = br*br + bi*bi;
   return {(a.re*br + a.im*bi)/d/m, (a.im*br - a.re*bi)/d/m};
}
// upper bound (within a factor 1.09) of |a|
template<class T> inline ld amag(const Cx<T>& a) {
   ld x = (ld)(a.re < 0 ? -a.re : a.re), y = (ld)(a.im < 0 ? -a.im : a.im);
   if (x < y) { ld t = x; x = y; y = t; }
   return y == 0 ? x : hypotl(x, y);
}
