// Interval / IEEE class domain for one floating point number of a given format.
#pragma once
#include "num.hpp"
#include <algorithm>
#include <cstdio>
#include <string>

inline ld fmax_of(int p) { return p == 24 ? (ld)std::numeric_limits<float>::max() : p == 53 ? (ld)std::numeric_limits<double>::max() : std::numeric_limits<ld>::max(); }
inline ld dmin_of(int p) { return p == 24 ? (ld)std::numeric_limits<float>::denorm_min() : p == 53 ? (ld)std::numeric_limits<double>::denorm_min() : std::numeric_limits<ld>::denorm_min(); }
inline ld u_of(int p) { return p == 24 ? 0x1p-24L : p == 53 ? 0x1p-53L : 0x1p-64L; }
inline ld rnd(int p, ld x) { return p == 24 ? (ld)(float)x : p == 53 ? (ld)(double)x : x; }
inline ld nextup(int p, ld x) { return p == 24 ? (ld)nextafterf((float)x, INFINITY) : p == 53 ? (ld)std::nextafter((double)x, (double)INFINITY) : nextafterl(x, (ld)INFINITY); }
inline ld nextdn(int p, ld x) { return p == 24 ? (ld)nextafterf((float)x, -INFINITY) : p == 53 ? (ld)std::nextafter((double)x, -(double)INFINITY) : nextafterl(x, -(ld)INFINITY); }
// operations rounded once, to the format of the operation
inline ld radd(int p, ld a, ld b) { return p == 24 ? (ld)((float)a + (float)b) : p == 53 ? (ld)((double)a + (double)b) : a + b; }
inline ld rmul(int p, ld a, ld b) { return p == 24 ? (ld)((float)a*(float)b) : p == 53 ? (ld)((double)a*(double)b) : a*b; }
inline ld rdiv(int p, ld a, ld b) { return p == 24 ? (ld)((float)a/(float)b) : p == 53 ? (ld)((double)a/(double)b) : a/b; }

struct Tri { bool t, f; };

struct Itv {
   ld lo = 1, hi = -1;      // numeric range (zeros count as 0); empty if lo > hi
   bool nan = false, pz = false, nz = false;
   bool empty() const { return !(lo <= hi); }
   bool none() const { return empty() && !nan; }
   bool zero() const { return pz || nz; }
   bool hasinf() const { return !empty() && (lo == -INFINITY || hi == INFINITY); }
   bool single() const { return lo == hi && !nan && !(pz && nz); }
   bool singleval() const { return lo == hi && !nan; }
   ld mag() const { return empty() ? 0 : std::max(fabsl(lo), fabsl(hi)); }
   ld mig() const { return empty() ? 0 : (lo <= 0 && hi >= 0) ? 0 : std::min(fabsl(lo), fabsl(hi)); }
   bool canpos() const { return (!empty() && hi > 0) || pz; }   // sign bit clear possible
   bool canneg() const { return (!empty() && lo < 0) || nz; }   // sign bit set possible
   void canon(int p) {
      if (empty()) { pz = nz = false; lo = 1; hi = -1; return; }
      if (lo > 0 || hi < 0) pz = nz = false;
      else if (!pz && !nz) {
         if (lo == 0) lo = dmin_of(p);
         if (hi == 0) hi = -dmin_of(p);
         if (lo > hi) { lo = 1; hi = -1; }
      }
   }
   static Itv range(ld a, ld b, bool z = true) { Itv r; r.lo = a; r.hi = b; r.pz = r.nz = z && a <= 0 && b >= 0; return r; }
   static Itv point(ld a) { Itv r; if (a != a) { r.nan = true; return r; } r.lo = r.hi = a; if (a == 0) { r.nz = std::signbit(a); r.pz = !r.nz; } return r; }
   static Itv top() { Itv r; r.lo = -INFINITY; r.hi = INFINITY; r.nan = r.pz = r.nz = true; return r; }
   static Itv onlynan() { Itv r; r.nan = true; return r; }
   std::string str() const { char b[160]; if (empty()) return nan ? "NaN" : "(empty)"; snprintf(b, sizeof b, "[%.10Lg, %.10Lg]%s%s%s", lo, hi, pz ? "+0" : "", nz ? "-0" : "", nan ? "|NaN" : ""); return b; }
};
inline Itv neg(const Itv& a) { Itv r = a; if (!a.empty()) { r.lo = -a.hi; r.hi = -a.lo; } r.pz = a.nz; r.nz = a.pz; return r; }
inline Itv uni(const Itv& a, const Itv& b) { if (a.empty()) { Itv r = b; r.nan |= a.nan; return r; } if (b.empty()) { Itv r = a; r.nan |= b.nan; return r; }
   Itv r; r.lo = std::min(a.lo, b.lo); r.hi = std::max(a.hi, b.hi); r.nan = a.nan || b.nan; r.pz = a.pz || b.pz; r.nz = a.nz || b.nz; return r; }
inline Itv iadd(int p, const Itv& a, const Itv& b) {
   Itv r; r.nan = a.nan || b.nan;
   if (a.empty() || b.empty()) return r;
   const bool ap = a.hi == INFINITY, an = a.lo == -INFINITY, bp = b.hi == INFINITY, bn = b.lo == -INFINITY;
   if ((ap && bn) || (an && bp)) r.nan = true;
   ld lo = radd(p, a.lo, b.lo), hi = radd(p, a.hi, b.hi);
   if (lo != lo) { // -inf + inf at the lower end: other combinations decide
      if (a.lo == a.hi && b.lo == b.hi) return r;
      lo = -INFINITY; if ((a.lo == INFINITY || b.lo == INFINITY)) lo = INFINITY;
   }
   if (hi != hi) { if (a.lo == a.hi && b.lo == b.hi) return r; hi = INFINITY; if (a.hi == -INFINITY || b.hi == -INFINITY) hi = -INFINITY; }
   if (lo > hi) { return r; }
   r.lo = lo; r.hi = hi;
   // zero results: x + (-x) gives +0, (-0) + (-0) gives -0
   if (lo <= 0 && hi >= 0) {
      r.nz = a.nz && b.nz;
      r.pz = (a.pz && b.zero()) || (a.nz && b.pz);
      const ld l = std::max(a.lo, -b.hi), h = std::min(a.hi, -b.lo);
      if (l <= h) { // a nonzero common magnitude possible?
         if (l < 0 || h > 0) r.pz = true;
         else if (!(a.zero() && b.zero())) r.pz = r.pz || false;
      }
      if (std::isinf(l) && l == h) r.pz = r.pz;
   }
   r.canon(p); return r;
}
inline Itv isub(int p, const Itv& a, const Itv& b) { return iadd(p, a, neg(b)); }
inline Itv imul(int p, const Itv& a, const Itv& b) {
   Itv r; r.nan = a.nan || b.nan;
   if (a.empty() || b.empty()) return r;
   if ((a.zero() && b.hasinf()) || (b.zero() && a.hasinf())) {
      r.nan = true;
      if ((a.lo == 0 && a.hi == 0 && b.lo == b.hi) || (b.lo == 0 && b.hi == 0 && a.lo == a.hi)) return r;
   }
   ld c[4]; int k = 0;
   for (ld x : {a.lo, a.hi}) for (ld y : {b.lo, b.hi}) { ld v = (x == 0 || y == 0) ? 0 : rmul(p, x, y); c[k++] = v; }
   r.lo = std::min(std::min(c[0], c[1]), std::min(c[2], c[3])); r.hi = std::max(std::max(c[0], c[1]), std::max(c[2], c[3]));
   if (r.lo <= 0 && r.hi >= 0) {
      const bool under = rmul(p, a.mig(), b.mig()) == 0 ; // zero reachable by underflow or zero operand
      bool z = a.zero() || b.zero();
      if (!z && under) { ld m1 = std::max(a.mig(), dmin_of(p)), m2 = std::max(b.mig(), dmin_of(p)); z = rmul(p, m1, m2) == 0; }
      if (z) { r.pz = (a.canpos() && b.canpos()) || (a.canneg() && b.canneg()); r.nz = (a.canpos() && b.canneg()) || (a.canneg() && b.canpos()); }
   }
   r.canon(p); return r;
}
inline Itv isqr(int p, const Itv& a) { // x*x of the same value
   Itv r; r.nan = a.nan; if (a.empty()) return r;
   r.lo = rmul(p, a.mig(), a.mig()); r.hi = rmul(p, a.mag(), a.mag());
   if (r.lo == 0) { ld m = std::max(a.mig(), dmin_of(p)); r.pz = a.zero() || rmul(p, m, m) == 0; }
   r.canon(p); return r;
}
inline Itv idiv(int p, const Itv& a, const Itv& b) {
   Itv r; r.nan = a.nan || b.nan;
   if (a.empty() || b.empty()) return r;
   if (a.zero() && b.zero()) r.nan = true;
   if (a.hasinf() && b.hasinf()) r.nan = true;
   const bool anz = a.lo < 0 || a.hi > 0; // nonzero numerator possible
   bool have = false; ld lo = 0, hi = 0;
   auto put = [&](ld v) { if (v != v) return; if (!have) { lo = hi = v; have = true; } else { lo = std::min(lo, v); hi = std::max(hi, v); } };
   // split the divisor into its positive and negative nonzero parts
   ld parts[2][2]; int np = 0;
   if (b.hi > 0) { parts[np][0] = std::max(b.lo, dmin_of(p)); parts[np][1] = b.hi; ++np; }
   if (b.lo < 0) { parts[np][0] = b.lo; parts[np][1] = std::min(b.hi, -dmin_of(p)); ++np; }
   for (int k = 0; k < np; ++k) for (ld x : {a.lo, a.hi}) for (ld y : {parts[k][0], parts[k][1]}) {
      if (std::isinf(x) && std::isinf(y)) { // inf/inf is NaN; nearby finite combinations give anything between
         if (a.lo != a.hi || parts[k][0] != parts[k][1]) { put(0); if (a.lo != a.hi && parts[k][0] != parts[k][1]) put((x > 0) == (y > 0) ? INFINITY : -INFINITY); else if (a.lo == a.hi) put((x > 0) == (y > 0) ? INFINITY : -INFINITY); }
         continue; }
      put(x == 0 ? 0 : rdiv(p, x, y)); }
   if (b.zero() && anz) { // x/0
      const bool pos = (a.hi > 0 && b.pz) || (a.lo < 0 && b.nz), ne = (a.hi > 0 && b.nz) || (a.lo < 0 && b.pz);
      if (pos) put(INFINITY);
      if (ne) put(-INFINITY);
   }
   if (!have) return r;
   r.lo = lo; r.hi = hi;
   if (lo <= 0 && hi >= 0) {
      const bool bnz = b.lo < 0 || b.hi > 0;
      bool z = (a.zero() && bnz) || b.hasinf();
      if (!z) { ld m = std::max(a.mig(), dmin_of(p)); z = rdiv(p, m, b.mag()) == 0; }
      if (z) { r.pz = (a.canpos() && b.canpos()) || (a.canneg() && b.canneg()); r.nz = (a.canpos() && b.canneg()) || (a.canneg() && b.canpos()); }
   }
   r.canon(p); return r;
}
// outward widening by k ulps (models of libm functions)
inline Itv widen(int p, Itv r, int k) {
   if (r.empty()) return r;
   for (int i = 0; i < k; ++i) {
      if (std::isfinite(r.lo) && r.lo != 0) r.lo = nextdn(p, rnd(p, r.lo)) < r.lo ? nextdn(p, rnd(p, r.lo)) : r.lo;
      if (std::isfinite(r.hi) && r.hi != 0) r.hi = nextup(p, rnd(p, r.hi)) > r.hi ? nextup(p, rnd(p, r.hi)) : r.hi;
   }
   return r;
}
inline Tri ilt(const Itv& a, const Itv& b) { // a < b (ordered)
   Tri r{false, false}; if (a.nan || b.nan) r.f = true;
   if (!a.empty() && !b.empty()) { if (a.lo < b.hi) r.t = true; if (a.hi >= b.lo) r.f = true; }
   return r;
}
inline Tri ile(const Itv& a, const Itv& b) {
   Tri r{false, false}; if (a.nan || b.nan) r.f = true;
   if (!a.empty() && !b.empty()) { if (a.lo <= b.hi) r.t = true; if (a.hi > b.lo) r.f = true; }
   return r;
}
inline Tri ieq(const Itv& a, const Itv& b) {
   Tri r{false, false}; if (a.nan || b.nan) r.f = true;
   if (!a.empty() && !b.empty()) {
      ld l = std::max(a.lo, b.lo), h = std::min(a.hi, b.hi);
      if (l <= h) { if (l == 0 && h == 0) r.t = a.zero() && b.zero(); else r.t = true; }
      if (!(a.lo == a.hi && b.lo == b.hi && a.lo == b.lo)) r.f = true;
   }
   return r;
}
