// Reference enclosures: Taylor models of Li_n(e^w) and of Clausen type functions,
// derived from the mathematical definition only (nothing here comes from /repo).
#pragma once
#include "tm.hpp"
#include "ref_tab.inc"
#include <stdexcept>
#include <vector>

inline q128 zeta_ref(int s) { if (s > ZHI) return 1 + powq(2, -s) + powq(3, -s); if (s < ZLO) throw std::runtime_error("zeta range"); return ZTAB[s - ZLO]; }
template<class T> struct RefLi {
   typedef Cx<T> C; typedef typename TM<T>::P TP;
   static T zt(int s) {
      static std::vector<T> tab; static bool init = false;
      if (!init) { for (int k = ZLO; k <= ZHI; ++k) tab.push_back(Num<T>::from(ZTAB[k - ZLO])); init = true; }
      if (s <= ZHI && s >= ZLO) return tab[s - ZLO];
      return Num<T>::from(zeta_ref(s));
   }
   static T fac(int n) { T f = 1; for (int k = 2; k <= n; ++k) f *= k; return f; }
   static C cexp(C w) { T m = Num<T>::exp(w.re); return w.im == 0 ? C(m) : C(m*Num<T>::cos(w.im), m*Num<T>::sin(w.im)); }
   // side: +1 when w approaches the cut [0,inf) from above, -1 from below (used when Im w == 0, Re w > 0)
   static C logm(C w, int side) { // log(-w)
      C m(-w.re, -w.im); T h = Num<T>::hypot(m.re, m.im); T ph;
      if (m.im == 0) ph = m.re > 0 ? T(0) : (side > 0 ? -Num<T>::from(M_PIq) : Num<T>::from(M_PIq));
      else ph = Num<T>::atan2(m.im, m.re);
      return C(Num<T>::log(h), ph);
   }
   // Li_s(e^w), -pi <= Im w <= pi (a little beyond is fine); err: absolute error bound
   static C li(int s, C w, int side, ld& err, ld* er = nullptr, ld* ei = nullptr) {
      const ld u = (ld)Num<T>::u();
      if (w.re < -3) return lismall(s, w, err);
      if (w.re > 3) {
         // inversion
         ld e1; C a = lismall(s, C(-w.re, -w.im), e1);
         if (s % 2 == 0) a = -a;                 // -(-1)^s Li_s(1/z)
         err = e1;
         if (s == 0) return C(T(-1)) + a;
         if (s < 0) return a;
         const T PI = Num<T>::from(M_PIq);
         const bool up = w.im > 0 || (w.im == 0 && side > 0);
         C L(w.re, up ? w.im - PI : w.im + PI);
         // -2 sum eta(2k) L^(s-2k)/(s-2k)!
         C sum; ld mag = 0;
         for (int k = 0; 2*k <= s; ++k) {
            T eta = k == 0 ? T(0.5) : zt(2*k)*(1 - Num<T>::exp((1 - 2*k)*Num<T>::from(M_LN2q)));
            C p(T(1)); for (int i = 1; i <= s - 2*k; ++i) { p = p*L; p.re /= i; p.im /= i; }
            p = p*eta; mag += amag(p); sum = sum + p;
         }
         sum = sum*T(-2);
         err += 60*u*mag;
         return sum + a;
      }
      // |w| <= 4.4: expansion at z = 1
      C sum; ld mag = 0, mr = 0, mi = 0; C p(T(1)); ld last = 0; int small = 0;
      for (int k = 0; k < 420; ++k) {
         if (k) { p = p*w; p.re /= k; p.im /= k; }
         if (s - k == 1) continue;
         const T z = zt(s - k); C t = p*z; const ld m = amag(t);
         sum = sum + t; mag += m; mr += fabsl((ld)t.re); mi += fabsl((ld)t.im);
         if (z != 0) { last = m; if (k > s + 2 && m < (er ? std::min(mr > 0 ? mr : mag, mi > 0 ? mi : mag) : mag)*u*1e-2L) { if (++small >= 3) break; } else small = 0; }
      }
      if (s >= 1) {
         C p2(T(1)); for (int i = 1; i < s; ++i) { p2 = p2*w; p2.re /= i; p2.im /= i; }
         T H = 0; for (int i = 1; i < s; ++i) H += T(1)/i;
         C l = logm(w, side); C q = p2*(C(H) - l); sum = sum + q; const ld z = amag(p2)*(amag(l) + (ld)H); mag += z; mr += p2.re == 0 ? fabsl((ld)(p2.im*l.im)) : p2.im == 0 ? fabsl((ld)p2.re)*(fabsl((ld)l.re) + (ld)H) : z; mi += p2.re == 0 ? fabsl((ld)p2.im)*(fabsl((ld)l.re) + (ld)H) : p2.im == 0 ? fabsl((ld)(p2.re*l.im)) : z;
      } else {
         // (-s)! (-w)^(s-1)
         C m(-w.re, -w.im); C inv = cdiv(C(T(1)), m); C q = inv; for (int i = 1; i <= -s; ++i) q = q*inv*T(i);
         sum = sum + q; const ld z = 2 + 0.3L*(-s); mag += amag(q)*z; mr += fabsl((ld)q.re)*z; mi += fabsl((ld)q.im)*z;
      }
      err = 40*u*mag + 10*last;
      if (er) { *er = 40*u*mr + 10*last; *ei = 40*u*mi + 10*last; if (w.re != 0) *er = *ei = err; }
      return sum;
   }
   static C lismall(int s, C w, ld& err) { // Re w <= -3: sum z^k/k^s
      const ld u = (ld)Num<T>::u();
      C z = cexp(w), p = z, sum; ld mag = 0; ld last = 0; int small = 0;
      for (int k = 1; k < 4000; ++k) {
         T ks = 1; const int a = s < 0 ? -s : s; for (int i = 0; i < a; ++i) ks *= k;
         C t = s > 0 ? C(p.re/ks, p.im/ks) : p*ks;
         sum = sum + t; last = amag(t); mag += last;
         if (k > 4 + a/2 && last <= mag*u*1e-2L) { if (++small >= 3) break; } else small = 0;
         p = p*z;
      }
      err = mag*u*(60 + 4*fabsl((ld)w.re) + 4*fabsl((ld)w.im)) + 10*last;
      return sum;
   }
   // bound of sum_j |w - 2 pi i j|^-2, and distance D to the nearest singularity (excluding those in 'skip')
   static ld dist(C w) { ld D = INFINITY; for (int j = -2; j <= 2; ++j) { ld d = hypotl((ld)w.re, (ld)w.im - 2*M_PIl*j); if (d < D) D = d; } return D; }
   // first omitted coefficient: ad^k/k! m!/D^m D (2/D^2 + 1/4), k = deg + 1, m = k - n
   static ld tail0(int n, ld ad, ld D, int deg) {
      const int k = deg + 1, m = k - n; ld t = powl(ad/D, k)*powl(D, n)*D*(2/(D*D) + 0.25L);
      if (n >= 0) { for (int i = m + 1; i <= k; ++i) t /= i; } else for (int i = k + 1; i <= m; ++i) t *= i;
      return t;
   }
   // real Taylor model of Im or Re Li_n(e^{ix}), x = x0 + h t, |t| <= 1
   static TP clcell(int n, bool im, T x0, T h, int deg) {
      auto r = TM<T>::mk(false, deg); T p = 1; ld R = 0; const ld ad = fabsl((ld)h), u = (ld)Num<T>::u();
      for (int k = 0; k <= deg; ++k) {
         if (k) p = p*h/k;
         ld e, er, ei; C v = li(n - k, C(T(0), x0), x0 > 0 ? 1 : -1, e, &er, &ei);
         // part of i^k v
         T c; ld ee;
         switch (k % 4) { case 0: c = im ? v.im : v.re; ee = im ? ei : er; break; case 1: c = im ? v.re : -v.im; ee = im ? er : ei; break;
            case 2: c = im ? -v.im : -v.re; ee = im ? ei : er; break; default: c = im ? -v.re : v.im; ee = im ? er : ei; }
         r->c[k] = C(c*p); R += fabsl((ld)p)*ee + 4*k*u*fabsl((ld)(c*p));
      }
      const ld D = dist(C(T(0), x0))*0.9999999L; if (!(ad < D)) throw std::runtime_error("clcell: radius");
      // orders above the degree: |Li_m| <= 2 (m >= 2), |Li_1| <= |log D| + 5, |Li_0| <= 1/D + 1 on the unit circle
      const int k0 = std::max(deg, n); ld mid = 0;
      { ld f = 1; for (int k = 1; k <= k0; ++k) { f *= ad/k; if (k > deg) mid += f*(n - k >= 2 ? 2 : n - k == 1 ? fabsl(logl(D)) + 5 : 1/D + 1); } }
      ld t = tail0(n, ad, D, k0), tail = mid; for (int k = k0 + 1; k < k0 + 400; ++k) { tail += t; t *= ad/D*(k + 1 - n)/(ld)(k + 1); if (t < tail*1e-3L) break; }
      r->R = R + tail + t*10; r->tidy(); return r;
   }
   // Taylor model of Li_n(e^(w0 + d*zeta)), |zeta| <= 1; d may be complex
   static TP licell(int n, C w0, C d, int side, int deg) {
      auto r = TM<T>::mk(false, deg); C p(T(1)); ld R = 0, rho = 1; const ld ad = amag(d);
      std::vector<C> co; std::vector<ld> er;
      ld e; C v;
      const ld u = (ld)Num<T>::u();
      for (int k = 0; k <= deg; ++k) {
         if (k) { p = p*d; p.re /= k; p.im /= k; rho *= ad/k; }
         v = li(n - k, w0, side, e);
         r->c[k] = v*p; R += e*rho*1.0001L + 4*k*u*amag(r->c[k]);
      }
      // tail: |Li_{-m}| <= m! sum_j d_j^(-m-1) <= m! D^(1-m) (2/D^2 + 1/4), k = n + m > deg
      const ld D = dist(w0)*0.9999999L; ld tail = 0;
      const int k0 = std::max(deg, n); ld mid = 0; // orders above the degree: evaluated
      { ld f = rho; for (int k = deg + 1; k <= k0; ++k) { f *= ad/k; if (f < 1e-60L*rho && k < n - 2) f = 1e-60L*rho; C a = li(n - k, w0, side, e); mid += (amag(a) + e)*f*1.0001L; } }
      { ld t = tail0(n, ad, D, k0); ld q = ad/D; if (!(q < 1)) throw std::runtime_error("licell: radius");
        // for n < 0 the ratio m!/k! grows: t_{k+1}/t_k = q (m+1)/(k+1)
        for (int k = k0 + 1; k < k0 + 400; ++k) { tail += t; t *= q*(k + 1 - n)/(ld)(k + 1); if (t < tail*1e-3L) break; }
        tail += t*10 + mid; }
      // relative bound for tiny |z|: Li_s(z) ~ z, coefficients decay as rho^k/k!
      if (w0.re + ad < -2) { ld z = expl((ld)w0.re); ld t = z*4; for (int i = 1; i <= deg + 1; ++i) t *= ad/i;
         // |Li_s(z')| on the disc; next coefficients |Li_{n-k}(e^{w0})| <= sum k^j z^k bounded through Cauchy on radius ad2
         const ld r2 = std::max(ad*1.5L, std::min(-(ld)w0.re - 2, 12.0L)); if (r2 > ad && (ld)w0.re + r2 <= -0.7L) { // |Li_n| <= sum |z|^k k^{-n}, |z| <= e^{w0+r2} <= 1/2
            ld zz = expl((ld)w0.re + r2), s = 0, pw = zz; for (int k = 1; k < 400; ++k) { s += n >= 0 ? pw : pw*powl(k, -n); pw *= zz; if (pw*powl(k + 1, n < 0 ? -n : 0) < 1e-6L*s && k > -2*n) break; }
            ld q = ad/r2; ld c = 2*s*powl(q, deg + 1)/(1 - q); if (c < tail) tail = c; }
         (void)t; }
      r->R = R + tail; r->tidy(); return r;
   }
};
