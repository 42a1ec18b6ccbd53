// Taylor models: a value is enclosed, for every point zeta of the closed unit
// disc (2D mode; the parameter of the input cell) or of [-1,1] (1D mode), by
//    P(zeta, conj zeta) + { |e| <= R }.
// HOL storage keeps powers of zeta only (always used in 1D mode, where
// conj zeta = zeta); FULL storage keeps all monomials zeta^(n-j) conj(zeta)^j.
#pragma once
#include "num.hpp"
#include <memory>
#include <vector>

struct TMConf { static int maxdeg; static bool oneD; };

template<class T> struct TM {
   typedef Cx<T> C;
   typedef std::shared_ptr<const TM> P;
   bool full = false;
   int deg = 0;
   std::vector<C> c;     // HOL: c[n]; FULL: part n at n(n+1)/2, index j
   ld R = 0;

   static ld up(ld x) { return x*(1 + 1e-17L) ; }
   int len(int n) const { return full ? n + 1 : 1; }
   C* part(int n) { return &c[full ? n*(n + 1)/2 : n]; }
   const C* part(int n) const { return &c[full ? n*(n + 1)/2 : n]; }
   void alloc(bool f, int d) { full = f; deg = d; c.assign(f ? (d + 1)*(d + 2)/2 : d + 1, C()); }

   static std::shared_ptr<TM> mk(bool f, int d) { auto p = std::make_shared<TM>(); p->alloc(f, d); return p; }
   static P constant(C v, ld R = 0) { auto p = mk(false, 0); p->c[0] = v; p->R = R; return p; }

   ld pnorm(int n) const { ld s = 0; const C* p = part(n); for (int j = 0; j < len(n); ++j) s += amag(p[j]); return s; }
   void norms(std::vector<ld>& a) const { a.resize(deg + 1); for (int n = 0; n <= deg; ++n) a[n] = pnorm(n); }
   ld norm() const { ld s = 0; for (int n = 0; n <= deg; ++n) s += pnorm(n); return s; }
   ld tailnorm() const { ld s = 0; for (int n = 1; n <= deg; ++n) s += pnorm(n); return s; }
   C c0() const { return c[0]; }
   ld maxabs() const { return up(norm() + R); }
   ld minabs() const { ld m = amag(c[0])*(1 - 1e-17L) - up(tailnorm() + R); return m; }
   void relo(ld& lo, ld& hi) const { ld s = up(tailnorm() + R); ld x = (ld)c[0].re; ld e = fabsl(x)*1.1e-19L; lo = x - s - e; hi = x + s + e; }
   void imlo(ld& lo, ld& hi) const { ld s = up(tailnorm() + R); ld x = (ld)c[0].im; ld e = fabsl(x)*1.1e-19L; lo = x - s - e; hi = x + s + e; }
   bool isconst() const { return deg == 0; }

   // drop negligible high parts; try to return to HOL storage
   void tidy() {
      std::vector<ld> a; norms(a);
      ld s = 0; for (ld x : a) s += x;
      ld lim = (s + R)*0.02L*(ld)Num<T>::u() + R*1e-3L;
      int d = deg; ld drop = 0;
      while (d > 0 && drop + a[d] <= lim) { drop += a[d]; --d; }
      if (d != deg) { deg = d; c.resize(full ? (d + 1)*(d + 2)/2 : d + 1); R += up(drop); }
      if (full) {
         ld off = 0; const ld lim2 = (s + R)*(ld)Num<T>::u();
         for (int n = 1; n <= deg && off <= lim2; ++n) { const C* p = part(n); for (int j = 1; j <= n; ++j) off += amag(p[j]); }
         if (off <= lim2) {
            std::vector<C> h(deg + 1);
            for (int n = 0; n <= deg; ++n) h[n] = part(n)[0];
            c.swap(h); full = false; R += up(off);
         }
      }
   }
   std::shared_ptr<TM> tofull() const {
      if (full) return std::make_shared<TM>(*this);
      auto p = mk(true, deg); p->R = R;
      for (int n = 0; n <= deg; ++n) p->part(n)[0] = c[n];
      return p;
   }
   static P add(const TM& a, const TM& b, int sb = 1) {
      const bool f = a.full || b.full; const int d = a.deg > b.deg ? a.deg : b.deg;
      auto r = mk(f, d);
      for (int n = 0; n <= a.deg; ++n) { const C* p = a.part(n); C* q = r->part(n); for (int j = 0; j < a.len(n); ++j) q[j] = p[j]; }
      for (int n = 0; n <= b.deg; ++n) { const C* p = b.part(n); C* q = r->part(n);
         if (sb > 0) for (int j = 0; j < b.len(n); ++j) q[j] = q[j] + p[j];
         else for (int j = 0; j < b.len(n); ++j) q[j] = q[j] - p[j]; }
      r->R = up(a.R + b.R + r->norm()*(ld)Num<T>::u());
      r->tidy();
      return r;
   }
   static P neg(const TM& a) { auto r = std::make_shared<TM>(a); for (auto& x : r->c) x = -x; return r; }
   static P scale(const TM& a, C s) { // s exact
      auto r = std::make_shared<TM>(a); for (auto& x : r->c) x = x*s;
      ld m = amag(s); r->R = up(a.R*m + r->norm()*2*(ld)Num<T>::u()); return r; }
   static P scale2(const TM& a, T s) { // power of two: exact
      auto r = std::make_shared<TM>(a); for (auto& x : r->c) x = x*s; r->R = up(a.R*(ld)Num<T>::abs(s)); return r; }
   // multiplication by i (exact)
   static P muli(const TM& a) { auto r = std::make_shared<TM>(a); for (auto& x : r->c) x = C(-x.im, x.re); return r; }
   static P conjugate(const TM& a) {
      if (TMConf::oneD || a.deg == 0) { auto r = std::make_shared<TM>(a); for (auto& x : r->c) x = conj(x); return r; }
      auto r = mk(true, a.deg); r->R = a.R;
      for (int n = 0; n <= a.deg; ++n) { const C* p = a.part(n); C* q = r->part(n);
         if (a.full) for (int j = 0; j <= n; ++j) q[n - j] = conj(p[j]); else q[n] = conj(p[0]); }
      return r;
   }
   static P re(const TM& a) { auto k = conjugate(a); auto r = add(a, *k); auto s = std::make_shared<TM>(*scale2(*r, T(0.5))); s->R = a.R + (s->norm())*(ld)Num<T>::u(); s->c[0].im = 0; return s; }
   static P im(const TM& a) { auto k = conjugate(a); auto r = add(a, *k, -1); auto s = std::make_shared<TM>(*scale(*r, C(0, T(-0.5)))); s->R = a.R + (s->norm())*(ld)Num<T>::u(); s->c[0].im = 0; return s; }

   // accumulates the product of homogeneous parts: out += s * a_i * b_j
   static inline void pmul(const C* a, int la, const C* b, int lb, C* out, bool sub) {
      for (int i = 0; i < la; ++i) {
         const C x = sub ? -a[i] : a[i];
         if (x.im == 0) { if (x.re == 0) continue; const T xr = x.re;
            for (int j = 0; j < lb; ++j) { out[i + j].re += xr*b[j].re; out[i + j].im += xr*b[j].im; }
         } else for (int j = 0; j < lb; ++j) {
            out[i + j].re += x.re*b[j].re - x.im*b[j].im;
            out[i + j].im += x.re*b[j].im + x.im*b[j].re;
         }
      }
   }
   static int sparsity(const TM& a) { if (!a.full) return 0; int k = 0; for (auto& x : a.c) k += (x.re != 0 || x.im != 0); return k; }
   static std::shared_ptr<TM> mulraw(const TM& a, const TM& b, int D) {
      const bool f = a.full || b.full; int d = a.deg + b.deg; if (d > D) d = D;
      auto r = mk(f, d);
      std::vector<ld> na, nb; a.norms(na); b.norms(nb);
      ld A = 0, B = 0, wA = 0, wB = 0;
      for (int i = 0; i <= a.deg; ++i) { A += na[i]; wA += i*na[i]; }
      for (int i = 0; i <= b.deg; ++i) { B += nb[i]; wB += i*nb[i]; }
      const TM &x = (f && sparsity(a) > sparsity(b)) ? b : a; const TM& y = (&x == &a) ? b : a;
      ld tail = 0;
      for (int i = 0; i <= a.deg; ++i) for (int j = d - i + 1; j <= b.deg; ++j) if (j >= 0) tail += na[i]*nb[j];
      for (int i = 0; i <= x.deg; ++i) for (int j = 0; j <= y.deg && i + j <= d; ++j)
         pmul(x.part(i), x.len(i), y.part(j), y.len(j), r->part(i + j), false);
      // number of additions per coefficient grows with the number of monomials
      const ld w = f ? 1.5L : 1.0L;
      ld noise = (ld)Num<T>::u()*(3*A*B + w*(wA*B + A*wB));
      r->R = up(tail + noise + A*b.R + B*a.R + a.R*b.R);
      return r;
   }
   static P mul(const TM& a, const TM& b) {
      if (a.deg == 0 && a.R == 0 && a.c[0].im == 0 && a.c[0].re == 1) return std::make_shared<TM>(b);
      if (b.deg == 0 && b.R == 0 && b.c[0].im == 0 && b.c[0].re == 1) return std::make_shared<TM>(a);
      auto r = mulraw(a, b, TMConf::maxdeg); r->tidy(); return r;
   }
   // bound of |a - q b| including everything but the remainders of a, b
   static ld residual(const TM& a, const TM& q, const TM& b) {
      TM q0 = q; q0.R = 0; TM b0 = b; b0.R = 0;
      auto p = mulraw(q0, b0, q.deg + b.deg < 2*TMConf::maxdeg ? TMConf::maxdeg : TMConf::maxdeg);
      ld s = p->R;
      const int d = a.deg > p->deg ? a.deg : p->deg;
      const bool f = a.full || p->full;
      for (int n = 0; n <= d; ++n) for (int j = 0; j < (f ? n + 1 : 1); ++j) {
         C x, y; if (n <= a.deg && j < a.len(n)) x = a.part(n)[j];
         if (n <= p->deg && j < p->len(n)) y = p->part(n)[j];
         s += amag(x - y);
      }
      return up(s);
   }
   static bool div(const TM& a, const TM& b, P& out) {
      const ld mb = b.minabs();
      if (!(mb > 0) || !std::isfinite(mb)) return false;
      if (b.deg == 0) {
         auto r = std::make_shared<TM>(a);
         for (auto& x : r->c) x = cdiv(x, b.c[0]);
         r->R = up((a.R + r->norm()*b.R)/mb + r->norm()*6*(ld)Num<T>::u());
         r->tidy(); out = r; return true;
      }
      const bool f = a.full || b.full; const int D = TMConf::maxdeg;
      auto q = mk(f, D);
      std::vector<C> bf; // b in matching storage
      for (int n = 0; n <= D; ++n) {
         C* w = q->part(n);
         if (n <= a.deg) { const C* p = a.part(n); for (int j = 0; j < a.len(n); ++j) w[j] = p[j]; }
         for (int k = (n > b.deg ? n - b.deg : 0); k < n; ++k)
            pmul(b.part(n - k), b.len(n - k), q->part(k), q->len(k), w, true);
         for (int j = 0; j < q->len(n); ++j) w[j] = cdiv(w[j], b.c[0]);
      }
      q->R = 0;
      const ld res = residual(a, *q, b);
      q->R = up((res + a.R + q->norm()*b.R)/mb);
      if (!std::isfinite(q->R)) return false;
      q->tidy(); out = q; return true;
   }
   static std::shared_ptr<TM> theta(const TM& a) { auto r = std::make_shared<TM>(a); r->R = 0; for (int n = 0; n <= a.deg; ++n) { C* p = r->part(n); for (int j = 0; j < r->len(n); ++j) p[j] = p[j]*T(n); } return r; }
   // g = g0 + integral of theta(f)/h along rays; h = f (log) or 1+f (log1p).
   // fR: remainder of f; hd: rounding error of h's coefficients relative to those of f
   static bool logint(const TM& f, const TM& h, C g0, ld g0err, ld fR, ld hd, P& out) {
      TM h0 = h; h0.R = fR + hd;
      const ld mh = h0.minabs();
      if (!(mh > 0)) return false;
      if (h.deg == 0) { out = constant(g0, up(g0err + fR/mh)); return true; }
      h0.R = 0;
      auto th = theta(f);
      const bool fl = f.full || h.full; const int D = TMConf::maxdeg;
      auto q = mk(fl, D);
      for (int n = 1; n <= D; ++n) {
         C* w = q->part(n);
         if (n <= th->deg) { const C* p = th->part(n); for (int j = 0; j < th->len(n); ++j) w[j] = p[j]; }
         for (int k = (n > h.deg ? n - h.deg : 0); k < n; ++k) if (k > 0)
            pmul(h.part(n - k), h.len(n - k), q->part(k), q->len(k), w, true);
         for (int j = 0; j < q->len(n); ++j) w[j] = cdiv(w[j], h.c[0]);
      }
      const ld res = residual(*th, *q, h0) + q->norm()*hd;
      for (int n = 1; n <= D; ++n) { C* w = q->part(n); for (int j = 0; j < q->len(n); ++j) { w[j].re /= T(n); w[j].im /= T(n); } }
      ld tn = q->tailnorm();
      q->c[0] = g0;
      q->R = up((res + fR)/mh + g0err + tn*(ld)Num<T>::u());
      if (!std::isfinite(q->R)) return false;
      q->tidy(); out = q; return true;
   }
   static C clog(C z) { return C(Num<T>::log(Num<T>::hypot(z.re, z.im)), Num<T>::atan2(z.im, z.re)); }
   // more accurate log near |z| = 1
   static C clog_acc(C z) {
      T h = Num<T>::hypot(z.re, z.im);
      T l;
      if (h > T(0.5) && h < T(2)) {
         // log|z| = 1/2 log1p(x^2+y^2-1), with x = 1+d
         T x = Num<T>::abs(z.re), y = Num<T>::abs(z.im); if (x < y) { T t = x; x = y; y = t; }
         T d = (x - 1); l = Num<T>::log1p(d*(2 + d) + y*y)/2;
      } else l = Num<T>::log(h);
      return C(l, Num<T>::atan2(z.im, z.re));
   }
   // complex or real logarithm continued from the value g0 at the centre
   static bool log(const TM& f, C g0, P& out) {
      return logint(f, f, g0, 4*(ld)Num<T>::u()*amag(g0) + 1e-4930L, f.R, 0, out);
   }
   static bool sqrt(const TM& f, P& out) {
      const ld mf = f.minabs(); if (!(mf > 0)) return false;
      const int D = TMConf::maxdeg; auto s = mk(f.full, f.deg == 0 ? 0 : D);
      C z = f.c[0]; T h = Num<T>::hypot(z.re, z.im);
      C s0;
      if (z.re >= 0) { T t = Num<T>::sqrt((h + z.re)/2); s0 = C(t, z.im/(2*t)); }
      else { T t = Num<T>::sqrt((h - z.re)/2); s0 = z.im < 0 ? C(-z.im/(2*t), -t) : C(z.im/(2*t), t); }
      s->c[0] = s0;
      for (int n = 1; n <= s->deg; ++n) {
         C* w = s->part(n);
         if (n <= f.deg) { const C* p = f.part(n); for (int j = 0; j < f.len(n); ++j) w[j] = p[j]; }
         for (int k = 1; k < n; ++k) pmul(s->part(k), s->len(k), s->part(n - k), s->len(n - k), w, true);
         const C d = s0 + s0;
         for (int j = 0; j < s->len(n); ++j) w[j] = cdiv(w[j], d);
      }
      s->R = 0;
      const ld res = residual(f, *s, *s);
      ld ms = s->minabs(); if (ms < 0) ms = 0;
      s->R = up((res + f.R)/(ms + sqrtl(mf)));
      s->tidy(); out = s; return std::isfinite(s->R);
   }
   static bool exp(const TM& f, P& out) {
      const ld M = f.maxabs(); if (!(M < 11356)) return false;
      const int D = f.deg == 0 ? 0 : TMConf::maxdeg; auto e = mk(f.full, D);
      const T m = Num<T>::exp(f.c[0].re);
      e->c[0] = f.c[0].im == 0 ? C(m) : C(m*Num<T>::cos(f.c[0].im), m*Num<T>::sin(f.c[0].im));
      auto th = theta(f);
      for (int n = 1; n <= D; ++n) {
         C* w = e->part(n);
         for (int k = 1; k <= n && k <= f.deg; ++k) pmul(th->part(k), th->len(k), e->part(n - k), e->len(n - k), w, false);
         for (int j = 0; j < e->len(n); ++j) { w[j].re /= T(n); w[j].im /= T(n); }
      }
      e->R = 0;
      auto te = theta(*e); TM th0 = *th; th0.R = 0;
      const ld res = residual(*te, *e, th0);
      const ld s = f.tailnorm() + f.R;
      // |e - exp f| <= |exp f| * res * max|exp -f|
      const ld E = expl(s), e0 = amag(e->c[0]);
      e->R = up(res*E*E + e0*E*expm1l(f.R) + 8*(ld)Num<T>::u()*e0*E*(1 + fabsl((ld)f.c[0].re)));
      e->tidy(); out = e; return std::isfinite(e->R);
   }
   static bool powi(const TM& a, unsigned long n, P& out) {
      P r = constant(C(T(1))); P b = std::make_shared<TM>(a);
      while (n) { if (n & 1) r = mul(*r, *b); n >>= 1; if (n) b = mul(*b, *b); if (!std::isfinite(r->R) || !std::isfinite(b->R)) return false; }
      out = r; return true;
   }
};
