// Static analyser driver. See DESIGN.md.
#include <algorithm>
#include <cstring>
#include <chrono>
#include "interp.hpp"
#include "ref.hpp"
FieldNames g_fields;
int TMConf::maxdeg = 20; bool TMConf::oneD = false;

typedef std::map<std::string, std::string> Opts;
static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static ld optf(const Opts& o, const std::string& k, ld d) { auto i = o.find(k); return i == o.end() ? d : strtold(i->second.c_str(), nullptr); }
static std::string opts(const Opts& o, const std::string& k, const std::string& d) { auto i = o.find(k); return i == o.end() ? d : i->second; }
static std::string fmt(ld x) { char b[64]; snprintf(b, sizeof b, "%.21Lg", x); return b; }

template<class T> struct Eng {
   typedef Interp<T> I; typedef typename I::Value Value; typedef typename I::NP NP; typedef typename I::TP TP; typedef TM<T> M; typedef Cx<T> C;
   const Program& P; const Fn* f; std::string sig; int prec;
   Eng(const Program& p, const std::string& fn, const std::string& s, int pr) : P(p), sig(s), prec(pr) { f = p.find("", fn); if (!f) { printf("{\"error\": \"function %s not found\"}\n", fn.c_str()); exit(3); } }
   // builds the argument list: x real or complex node; n integer value
   std::vector<Value> args(I& ip, const NP& x, const Value& n) {
      std::vector<Value> a; std::string s = sig;
      if (s[0] == 'n') { Value v = n; v.ty = T_I64; a.push_back(v); s = s.substr(1); }
      if (s.empty()) return a;
      if (s[0] == 'd' || s[0] == 'c') a.push_back(ip.fv(x));
      else { int o = ip.newobj("<argument>"); ip.heap[o].ety = x->cx ? cplx_of(prec) : flt_of(prec); ip.heap[o].s.emplace_back(typename I::Key(), ip.fv(x)); ip.heap[o].arg = true;
         Value v; v.k = Value::PTR; v.ty = T_PTR; v.obj = o; a.push_back(v); }
      return a;
   }
   bool cxarg() const { char c = sig.back(); return c == 'c' || c == 'q'; }
};

struct Stat { long cells = 0, parts = 0, evals = 0, fails = 0, unprov = 0, ops = 0; ld worst = 0; std::string worstat; std::vector<std::string> bad, unk; std::set<std::string> fns, ext; std::map<std::string, long> ureason; ld worstP = 0; };

// outcome of one cell
struct Res { ld bound = 0, nominal = 0; bool unproven = false; std::string why; int parts = 0; bool inf = false, open = false; };

template<class T> struct Acc : Eng<T> {
   typedef Eng<T> E; typedef typename E::I I; typedef typename E::Value Value; typedef typename E::NP NP; typedef typename E::TP TP; typedef TM<T> M; typedef Cx<T> C;
   typedef RefLi<T> RF;
   Opts o; Stat st; std::string dom; int n; bool hasn; i128 nmax = 0, none = 0 /* the order to evaluate, if it is not n itself */; int nstep = 1; int deg; ld tol, floor_ = 0; int maxdepth; bool verbose; bool partimag = false; std::string kind;
   I ip;
   Acc(const Program& p, const Opts& op) : E(p, opts(op, "fn", ""), opts(op, "sig", "d"), (int)optf(op, "prec", 53)), o(op) {
      dom = opts(op, "dom", "re"); n = (int)optf(op, "n", 2); hasn = this->sig[0] == 'n'; nmax = strtoll(opts(op, "nmax", std::to_string(n).c_str()).c_str(), 0, 10); nstep = (int)optf(op, "nstep", 1); none = strtoll(opts(op, "none", "0").c_str(), 0, 10); deg = (int)optf(op, "deg", 20); tol = optf(op, "tol", 1e-13L); floor_ = optf(op, "floor", 0); maxdepth = (int)optf(op, "depth", 6); verbose = optf(op, "verbose", 0) != 0;
      TMConf::maxdeg = deg; TMConf::oneD = dom != "cx"; ip.P = &p; ip.maxrss = 2500000000L; ip.vnt.on = optf(op, "vn", 1) != 0; ip.maxpaths = (int)optf(op, "maxpaths", 48); ip.joincalls = optf(op, "join", 0) != 0; ip.joinulps = optf(op, "joinulps", 32); ip.tend = (double)optf(op, "tend", 0); ip.maxsteps = (long)optf(op, "maxsteps", 4000000);
   }
   // runs the function on input x; per partition calls chk(value)
   template<class F> Res run(const std::function<NP()>& mk, F chk) {
      Res r;
      auto body = [&]() {
         NP x = mk(); Value nv; if (hasn) nv = I::mkint(none ? none : (i128)n, T_I64); ip.symN = false;
         if (hasn && nmax > n) { ip.Nlo = 0; ip.Nhi = (nmax - n)/nstep; ip.symN = true; nv = ip.mklin(nstep, n, T_I64); } // orders n, n + nstep, .. , nmax

         Value v = ip.call(*this->f, this->args(ip, x, nv));
         if (v.k != Value::FLT) throw Unproven("result is not floating point");
         ++r.parts; Res r1; chk(v.n, r1); if (!(r1.bound <= r.bound)) r.bound = r1.bound; if (!(r1.nominal <= r.nominal)) r.nominal = r1.nominal; r.inf |= r1.inf; if (r1.inf && !nonfinite(ip.reI(v.n)) && !nonfinite(ip.imI(v.n))) r.open = true; if (r1.why.size()) r.why = r1.why;
         if (verbose && !(r1.bound <= tol)) { fprintf(stderr, "  partition bound %.3Lg nominal %.3Lg value re %s im %s:", r1.bound, r1.nominal, ip.reI(v.n).str().c_str(), ip.imI(v.n).str().c_str()); for (auto& s : ip.trace) fprintf(stderr, " %s", s.c_str()); fprintf(stderr, "\n"); }
      };
      r.parts = 0;
      if (st.unprov >= 100 && st.unprov == st.cells) ip.late = true; // nothing can be analysed
      if (ip.late) { r.unproven = true; r.why = "time budget exhausted"; return r; }
      ip.explore(body, [&](const std::string& w) { r.unproven = true; r.why = w; });
      ++st.evals; st.parts += r.parts;
      return r;
   }
   // the analysis stops at a construct it does not cover, which smaller cells will not change
   std::map<std::string, int> stuck;
   bool hopeless(const Res& r) {
      if (!r.unproven) return false;
      for (const char* k : {"unsupported", "no model", "pointer", "uninitialised", "cast", "unknown", "deref", "bad ", "read past", "table read", "memory offset", "untyped", "store with", "comparison of"})
         if (!r.why.compare(0, strlen(k), k)) return ++stuck[r.why] > 20;
      return false;
   }
   // value of a Taylor model at one parameter value
   static TP at(const M& m, C z) { C s; C p(T(1)); ld mag = 0; for (int k = 0; k <= m.deg; ++k) { C t = m.part(k)[0]*p; s = s + t; mag += amag(t); p = p*z; } return M::constant(s, m.R + mag*40*(ld)Num<T>::u()); }
   // a Taylor model re-expanded on the sub-range [zlo, zhi] of its parameter (1D)
   static TP sub(const M& m, T zlo, T zhi) {
      auto r = M::mk(false, m.deg); std::vector<C> c(m.c.begin(), m.c.begin() + m.deg + 1); const T z = (zlo + zhi)/2, h = (zhi - zlo)/2;
      for (int i = 0; i < m.deg; ++i) for (int k = m.deg - 1; k >= i; --k) c[k] = c[k] + c[k + 1]*z;
      T p = 1; for (int k = 0; k <= m.deg; ++k) { r->c[k] = c[k]*p; p *= h; }
      r->R = m.R + m.norm()*m.deg*4*(ld)Num<T>::u(); return r;
   }
   // compares the result enclosure with the reference enclosure
   static bool nonfinite(const Itv& i) { return i.empty() ? i.nan : i.lo == INFINITY || i.hi == -INFINITY; } // certainly NaN or infinite
   void cmp(const TP& t, const TP& ref, ld scale, Res& r) {
      if (!t) { r.bound = INFINITY; r.inf = true; return; }
      TP d = M::add(*t, *ref, -1);
      if (TMConf::oneD && ip.zhi - ip.zlo < T(1.99L)) d = sub(*d, ip.zlo, ip.zhi);
      const ld nom = d->norm()/scale, b = nom + d->R/scale;
      if (!(b <= r.bound)) r.bound = b;
      if (!(nom <= r.nominal)) r.nominal = nom;
   }
   void report(const Res& r, const std::string& where, bool leaf) {
      if (verbose) fprintf(stderr, "%s: bound %.3Lg nominal %.3Lg parts %d%s %s\n", where.c_str(), r.bound, r.nominal, r.parts, leaf ? " LEAF" : "", r.unproven ? r.why.c_str() : "");
      if (!leaf) return;
      ++st.cells;
      if (r.unproven) { ++st.unprov; ++st.ureason[r.why]; if (st.unk.size() < 5) st.unk.push_back(where + ": " + r.why); return; }
      if (r.parts && r.bound > st.worst) { st.worst = r.bound; st.worstat = where; }
      if (r.bound <= tol) return;
      const ld slack = optf(o, "slack", 50);
      if (r.open && !(r.nominal > tol)) { ++st.unprov; ++st.ureason["no finite enclosure"]; if (st.unk.size() < 5) st.unk.push_back(where + ": no finite enclosure"); return; }
      if (r.nominal > tol || r.bound > slack*tol) { ++st.fails; if (st.bad.size() < 8) { char b[256]; snprintf(b, sizeof b, ": error bound %.3Lg (systematic part %.3Lg) exceeds tolerance %.3Lg", r.bound, r.nominal, tol); st.bad.push_back(where + b + (r.inf ? " [no finite enclosure]" : "")); } }
      else { ++st.unprov; ++st.ureason["bound above tolerance but within analysis slack"]; if (st.unk.size() < 5) st.unk.push_back(where + ": bound " + fmt(r.bound)); }
   }
   // ---------------------------------------------------------------- real line, x = sg*exp(w)
   static ld roundin(int p, ld x, bool up) { ld r = rnd(p, x); return up ? (r >= x ? r : nextup(p, r)) : (r <= x ? r : nextdn(p, r)); }
   void realcell(int sg, T lo, T hi, int depth, int axis) { // w in [lo,hi]
      const T w0 = (lo + hi)/2, h = (hi - lo)/2;
      C W(w0, sg < 0 ? Num<T>::from(M_PIq) : T(0));
      char b[128]; snprintf(b, sizeof b, "x = %s%.12Lg .. %s%.12Lg", sg < 0 ? "-" : "", expl((ld)(sg < 0 ? hi : lo)), sg < 0 ? "-" : "", expl((ld)(sg < 0 ? lo : hi)));
      Res r;
      try {
         TP ref = RF::licell(n, W, C(h), -1, deg);
         TP ref1 = RF::licell(n - 1, W, C(h), -1, deg);
         const bool cut = sg > 0 && lo > 0;
         const C v0 = ref->c0(), v1 = ref1->c0();
         TP x; { auto l = M::mk(false, 1); l->c[0] = C(w0); l->c[1] = C(h); if (!M::exp(*l, x)) throw Unproven("argument range"); if (sg < 0) x = M::neg(*x); }
         ld el = expl((ld)lo), eh = expl((ld)hi); // outward
         el *= 1 - 1e-16L*(1 + fabsl((ld)lo)); eh *= 1 + 1e-16L*(1 + fabsl((ld)hi));
         Itv iv = sg > 0 ? Itv::range(roundin(this->prec, el, false), roundin(this->prec, eh, true)) : Itv::range(roundin(this->prec, -eh, false), roundin(this->prec, -el, true));
         if (lo > 0 && hi < 1 && sg > 0) iv.lo = std::max(iv.lo, nextup(this->prec, 1.0L));
         if (hi < 0 && lo > -1 && sg > 0) iv.hi = std::min(iv.hi, nextdn(this->prec, 1.0L));
         if (!axis) {
            const ld scale = std::max(fabsl((ld)v0.re) + fabsl((ld)v1.re), floor_);
            TP rr = M::re(*ref);
            r = run([&]() { return ip.mkre(this->prec, iv, x, ip.vnt.fresh()); }, [&](const NP& z, Res& q) { cmp(z->tm, rr, scale, q); });
         } else {
            const ld scale = std::max(amag(v0) + amag(v1), floor_);
            const Itv zi = Itv::point(axis > 0 ? 0.0L : -0.0L);
            TP rr = cut ? ref : M::re(*ref);
            r = run([&]() { return ip.mkcomplex(ip.mkre(this->prec, iv, x, ip.vnt.fresh()), ip.mkre(this->prec, zi, nullptr, 0)); },
               [&](const NP& z, Res& q) { cmp(z->tm, rr, scale, q);
                  const Itv im = ip.imI(z);
                  if (!cut) { const std::string iz = opts(o, "imzero", "1"); const bool ok = im.lo == 0 && im.hi == 0 && !im.nan && (iz == "2" || (axis > 0 ? !im.nz : !im.pz)); if (!ok && iz != "0") { q.bound = q.nominal = INFINITY; q.why = "imaginary part " + im.str(); } }
               });
         }
      } catch (std::runtime_error& e) { r.unproven = true; r.why = e.what(); }
      const bool bad = r.unproven || !(r.bound <= tol);
      if (bad && depth < maxdepth && !ip.late && !(depth > 1 && hopeless(r))) { if (verbose) report(r, b, false); realcell(sg, lo, w0, depth + 1, axis); realcell(sg, w0, hi, depth + 1, axis); return; }
      report(r, std::string(b) + (axis > 0 ? " + 0i" : axis < 0 ? " - 0i" : ""), true);
   }
   void raycell(T th, T lo, T hi, int depth) { // z = exp(w + i*th), w in [lo,hi], one parameter
      const T w0 = (lo + hi)/2, h = (hi - lo)/2; const int p = this->prec;
      char b[160]; snprintf(b, sizeof b, "z = %.12Lg .. %.12Lg * exp(%.6Lgi)", expl((ld)lo), expl((ld)hi), (ld)th);
      Res r;
      try {
         C W(w0, th); const int sd = th > 0 ? 1 : -1;
         TP ref = RF::licell(n, W, C(h), sd, deg); ld er; const C v0 = ref->c0(), v1 = RF::li(n - 1, W, sd, er);
         const ld scale = std::max(amag(v0) + amag(v1), floor_);
         TP z; { auto l = M::mk(false, 1); l->c[0] = W; l->c[1] = C(h); if (!M::exp(*l, z)) throw Unproven("argument range"); }
         const ld e = 1e-16L*(2 + std::max(fabsl((ld)lo), fabsl((ld)hi))), el = expl((ld)lo)*(1 - e), eh = expl((ld)hi)*(1 + e), cs = cosl((ld)th), sn = sinl((ld)th);
         auto box = [&](ld c) { ld a = c > 0 ? el*c : eh*c, d = c > 0 ? eh*c : el*c; return Itv::range(roundin(p, a, false), roundin(p, d, true)); };
         r = run([&]() { NP q = ip.mkcx(p, box(cs), box(sn), z, ip.vnt.fresh(), ip.vnt.fresh()); q->amin = el*0.9999999L; return q; }, [&](const NP& q, Res& rr) { cmp(q->tm, ref, scale, rr); });
      } catch (std::runtime_error& e) { r.unproven = true; r.why = e.what(); }
      const bool bad = r.unproven || !(r.bound <= tol);
      if (bad && depth < maxdepth && !ip.late && !(depth > 1 && hopeless(r))) { if (verbose) report(r, b, false); raycell(th, lo, w0, depth + 1); raycell(th, w0, hi, depth + 1); return; }
      report(r, b, true);
   }
   void rays() {
      const ld wlo = optf(o, "wlo", -4), whi = optf(o, "whi", 4), cap = optf(o, "cap", 0.1L); const int m = (int)optf(o, "rays", 4), slice = (int)optf(o, "slice", 0), nsl = (int)optf(o, "slices", 1); long idx = 0;
      const std::string hs = opts(o, "half", "u");
      for (int j = 0; j < m; ++j) for (char hc : hs) { const ld th = M_PIl*(j + 0.37L)/m;
         for (ld a = wlo; a < whi;) { ld d = hypotl(th, std::max(0.0L, std::max(a, -a - 2*cap))); ld s = std::min(2*cap, 0.5L*d); ld b = std::min(a + s, whi); const ld gap = 0.01L; if (a >= -gap && a < gap) { a = gap; continue; } if (a < -gap && b > -gap) b = -gap; /* (|z| = 1: partitions pinned to Re log z = 0) */ if (idx++ % nsl == slice) raycell(T(hc == 'u' ? th : -th), T(a), T(b), 0); a = b; } }
   }
   void realline(int axis) {
      const ld wmin = this->prec == 24 ? -86 : this->prec == 53 ? -700 : -11000, wmax = this->prec == 24 ? 88 : this->prec == 53 ? 709 : 11355;
      const ld cap = optf(o, "cap", 0.7L), far = optf(o, "far", 0);
      const ld eps = this->prec == 24 ? 0x1p-23L : this->prec == 53 ? 0x1p-52L : 0x1p-63L;
      const ld ratio = optf(o, "ratio", 0.3L); // half width / distance to the singularity
      const int slice = (int)optf(o, "slice", 0), nsl = (int)optf(o, "slices", 1); long idx = 0;
      const ld xlo = optf(o, "wlo", wmin), xhi = optf(o, "whi", wmax);
      auto go = [&](int sg, T a, T b) { if ((ld)b < xlo || (ld)a > xhi) return; if (idx++ % nsl == slice) realcell(sg, a, b, 0, axis); };
      // positive arguments: shells around w = 0
      for (int side : {-1, 1}) {
         ld a = eps*(side < 0 ? 0.5L : 1.0L)*0.9L; const ld end = side < 0 ? -wmin : wmax;
         while (a < end) {
            ld b = a*(1 + ratio)/(1 - ratio); if (b > a + 2*cap) b = a + 2*cap; if (b > end) b = end;
            if (far > 0 && a > 45 && a + far < end) { T x = T(a), y = T(b); side < 0 ? go(1, -y, -x) : go(1, x, y); a += far; continue; }
            T x = T(a), y = T(b);
            if (side < 0) go(1, -y, -x); else go(1, x, y);
            a = b;
         }
      }
      // negative arguments
      { ld a = wmin; while (a < wmax) { ld b = std::min(a + 2*cap, wmax); if (far > 0 && fabsl(a) > 45 && a + far < wmax && fabsl(a + far) > 45) { go(-1, T(a), T(b)); a += far; continue; } go(-1, T(a), T(b)); a = b; } }
   }
   // ---------------------------------------------------------------- Clausen type: x in (0, 2 pi)
   // kind: "im" / "re" part of Li_n(e^{ix})
   void clcell(T lo, T hi, int depth) {
      const T x0 = (lo + hi)/2, h = (hi - lo)/2;
      char b[128]; snprintf(b, sizeof b, "x = %.15Lg .. %.15Lg", (ld)lo, (ld)hi);
      Res r;
      try {
         const T TP2 = 2*Num<T>::from(M_PIq);
         T y = x0; if (y > TP2/2) y -= TP2;
         const bool im = kind == "im";
         const int rn = std::min(n, 140) + (n > 140 ? (n ^ 140) & 1 : 0); // the functions of the same parity differ by 2^-139 from there on
         TP rr = RF::clcell(rn, im, y, h, deg), r1 = RF::clcell(rn - 1, !im, y, h, 12 + std::max(0, rn));
         // error of the argument: relative to the distance from the nearest multiple of 2 pi, plus a fixed part ('near')
         const ld nearf = optf(o, "near", -1);
         const ld scale = fabsl((ld)rr->c0().re) + fabsl((ld)r1->c0().re)*(nearf < 0 ? (ld)x0 : fabsl((ld)y) + nearf/tol);
         TP x; { auto l = M::mk(false, 1); l->c[0] = C(x0); l->c[1] = C(h); x = l; }
         Itv iv = Itv::range(roundin(this->prec, (ld)lo*(1 - 1e-19L), false), roundin(this->prec, (ld)hi*(1 + 1e-19L), true));
         r = run([&]() { return ip.mkre(this->prec, iv, x, ip.vnt.fresh()); }, [&](const NP& z, Res& q) { cmp(z->tm, rr, scale, q); });
      } catch (std::runtime_error& e) { r.unproven = true; r.why = e.what(); }
      const bool bad = r.unproven || !(r.bound <= tol);
      if (bad && depth < maxdepth && !ip.late && !(depth > 1 && hopeless(r))) { if (verbose) report(r, b, false); clcell(lo, x0, depth + 1); clcell(x0, hi, depth + 1); return; }
      report(r, b, true);
   }
   void clausen() {
      kind = opts(o, "part", "im");
      const int slice = (int)optf(o, "slice", 0), nsl = (int)optf(o, "slices", 1); long idx = 0;
      const ld ratio = optf(o, "ratio", 0.3L), cap = optf(o, "cap", 0.35L);
      const ld xmin = optf(o, "xmin", 1e-100L);
      auto go = [&](T a, T b) { if (idx++ % nsl == slice) clcell(a, b, 0); };
      const T TP2 = 2*Num<T>::from(M_PIq); const T mid = TP2/2;
      const ld ymin = (this->prec == 64 ? 0x1p-59L : 0x1p-48L);
      ld step = optf(o, "tiny", 8);
      for (int side = 0; side < 2; ++side) { // distance from the end point
         T a = T(side ? ymin : xmin);
         while (a < mid) {
            T b = a*T((1 + ratio)/(1 - ratio)); if (b > a + T(2*cap)) b = a + T(2*cap); if (b > mid) b = mid;
            if (side == 0) go(a, b); else go(TP2 - b, TP2 - a);
            if (side == 0 && a < 1e-6L) a *= step > 2 ? T(step) : b/a; else a = b; // sparse cells for tiny arguments
         }
      }
   }
   // ---------------------------------------------------------------- complex plane, z = exp(w)
   int half = 1;
   void cxcell(T a, T b, T c, T d, int depth) { // Re w in [a,b], |Im w| in [c,d]
      T s = half > 0 ? T(1) : T(-1);
      const T w0r = (a + b)/2, w0i = (c + d)/2, hr = (b - a)/2, hi = (d - c)/2;
      const T rho = Num<T>::hypot(hr, hi)*T(1 + 1e-15L);
      C W(w0r, s*w0i);
      char buf[200]; snprintf(buf, sizeof buf, "z = %.10Lg .. %.10Lg * exp(i*(%.10Lg .. %.10Lg))", expl((ld)a), expl((ld)b), (ld)(s > 0 ? c : -d), (ld)(s > 0 ? d : -c));
      Res r; bool toolarge = false; const ld capw = optf(o, "capw", 1e9L);
      const ld D = RF::dist(W);
      if ((ld)rho > optf(o, "ratio", 0.22L)*D || (ld)rho > ((ld)a > -capw && (ld)b < capw ? optf(o, "cap", 0.75L) : std::min(0.75L, optf(o, "capo", 0.75L)))) toolarge = true;
      if (!toolarge) try {
         const int rn = n > 140 && (ld)b <= 4 ? 140 : n; // (|Li_n - Li_140| < 1e-38 there)
         TP ref = RF::licell(rn, W, C(rho), half, deg); if (rn != n) ref = ip.addR(ref, 1e-36L*std::min(1.0L, expl(2*(ld)b)));
         ld er; const C v1 = RF::li(rn - 1, W, half, er); const C v0 = ref->c0();
         const ld scale = std::max(amag(v0) + amag(v1), floor_);
         TP z; { auto l = M::mk(false, 1); l->c[0] = W; l->c[1] = C(rho); if (!M::exp(*l, z)) throw Unproven("argument range"); }
         // interval box of the annular sector
         ld r1 = expl((ld)a)*(1 - 1e-16L*(1 + fabsl((ld)a))), r2 = expl((ld)b)*(1 + 1e-16L*(1 + fabsl((ld)b)));
         ld c1 = std::max((ld)c - 1e-16L, 0.0L), d1 = std::min((ld)d + 1e-16L, M_PIl);
         ld cl = cosl(c1), cd = cosl(d1); // cos decreasing on [0,pi]: cd <= cos <= cl
         ld xlo = cd < 0 ? r2*cd : r1*cd, xhi = cl > 0 ? r2*cl : r1*cl;
         ld s1 = sinl(c1), s2 = sinl(d1); ld smin = std::min(s1, s2), smax = (c1 <= M_PIl/2 && d1 >= M_PIl/2) ? 1 : std::max(s1, s2);
         if (smin < 0) smin = 0;
         ld ylo = r1*smin, yhi = r2*smax; const ld e = 1e-17L*r2; xlo -= e; xhi += e; ylo -= e; yhi += e; 
         const int p = this->prec;
         const ld ymin = optf(o, "ymin", p == 24 ? 0x1p-126L : p == 53 ? 0x1p-1022L : 3.3621031431120935063e-4932L);
         ylo = std::max(ylo, ymin); // subnormal imaginary parts are excluded
         Itv X = Itv::range(roundin(p, xlo, false), roundin(p, xhi, true)); Itv Y = Itv::range(std::max(roundin(p, ylo, false), 0.0L), roundin(p, yhi, true), false); Y.pz = Y.nz = false; Y.canon(p);
         if (half < 0) Y = neg(Y);
         r = run([&]() { NP q = ip.mkcx(p, X, Y, z, ip.vnt.fresh(), ip.vnt.fresh()); q->amin = r1*0.9999999L; return q; }, [&](const NP& q, Res& rr) { cmp(q->tm, ref, scale, rr); });
      } catch (std::runtime_error& e) { r.unproven = true; r.why = e.what(); }
      const bool bad = toolarge || r.unproven || !(r.bound <= tol);
      if (bad && (toolarge || (depth < maxdepth && !ip.late && !(depth > 1 && hopeless(r))))) {
         if (verbose && !toolarge) report(r, buf, false);
         const int dn = toolarge ? depth : depth + 1;
         // split the longer side (or both)
         if (hr > T(1.4)*hi) { cxcell(a, w0r, c, d, dn); cxcell(w0r, b, c, d, dn); }
         else if (hi > T(1.4)*hr) { cxcell(a, b, c, w0i, dn); cxcell(a, b, w0i, d, dn); }
         else { cxcell(a, w0r, c, w0i, dn); cxcell(w0r, b, c, w0i, dn); cxcell(a, w0r, w0i, d, dn); cxcell(w0r, b, w0i, d, dn); }
         return;
      }
      report(r, buf, true);
   }
   void plane() {
      const ld lim = optf(o, "lim", this->prec == 24 ? 86 : this->prec == 53 ? 708 : 11350);
      const ld wlo = optf(o, "wlo", -lim), whi = optf(o, "whi", lim), in = optf(o, "inner", 0.05L);
      const int slice = (int)optf(o, "slice", 0), nsl = (int)optf(o, "slices", 1); long idx = 0;
      const std::string hs = opts(o, "half", "u");
      const T PI = Num<T>::from(M_PIq);
      for (char hc : hs) { half = hc == 'u' ? 1 : -1;
         auto go = [&](ld a, ld b, T c, T d) { if (b <= wlo || a >= whi) return; if (idx++ % nsl == slice) cxcell(T(a), T(b), c, d, 0); };
         // central band: |Re w| <= 4, in blocks
         const ld cb = optf(o, "core", 1.0L);
         if (in < cb) { // around the singularity: square |w| <= 1 minus shells handled by distance; recursion stops at 'in'
            ld a = cb; while (a > in) { ld b = a/2; // ring b..a in max norm
               for (int k = 0; k < 2; ++k) { go(b, a, T(a/2*k), T(a/2*(k + 1))); go(-a, -b, T(a/2*k), T(a/2*(k + 1))); }
               go(0, b, T(b), T(a)); go(-b, 0, T(b), T(a)); a = b; }
         }
         for (int k = 0; k < 4; ++k) { T c = T(cb) + (PI - T(cb))*k/4, d = T(cb) + (PI - T(cb))*(k + 1)/4; go(-cb, 0, c, d); go(0, cb, c, d); }
         const ld far = optf(o, "far", 0);
         for (int sd : {-1, 1}) { ld a = cb; while (a < lim) { ld b = std::min(a + 0.8L, lim);
               for (int k = 0; k < 4; ++k) sd > 0 ? go(a, b, PI*k/4, PI*(k + 1)/4) : go(-b, -a, PI*k/4, PI*(k + 1)/4);
               a = (far > 0 && a > 42 && b < lim) ? std::max(b, std::min(a + far, lim - 0.8L)) : b; } }
      }
   }
   void main() {
      auto t0 = std::chrono::steady_clock::now();
      if (dom == "re") realline(0); else if (dom == "ax") { realline(1); realline(-1); } else if (dom == "cl") clausen(); else if (dom == "cx") plane(); else if (dom == "ray") rays();
      st.fns = ip.fns_seen; st.ext = ip.ext_seen;
      const double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      printf("{\"fn\": \"%s\", \"n\": %d, \"dom\": \"%s\", \"cells\": %ld, \"partitions\": %ld, \"evals\": %ld, \"fails\": %ld, \"unproven\": %ld, \"ops\": %ld, \"worst\": %.4Lg, \"worst_at\": \"%s\", \"tol\": %.4Lg, \"wall\": %.2f,",
         this->f->name.c_str(), n, dom.c_str(), st.cells, st.parts, st.evals, st.fails, st.unprov, ip.nops, std::isinf(st.worst) ? 1e999L : st.worst, jesc(st.worstat).c_str(), tol, dt);
      printf("\"bad\": ["); for (size_t i = 0; i < st.bad.size(); ++i) printf("%s\"%s\"", i ? ", " : "", jesc(st.bad[i]).c_str());
      printf("], \"unk\": ["); for (size_t i = 0; i < st.unk.size(); ++i) printf("%s\"%s\"", i ? ", " : "", jesc(st.unk[i]).c_str());
      printf("], \"fns\": ["); { bool c = false; for (auto& x : st.fns) { printf("%s\"%s\"", c ? ", " : "", jesc(x).c_str()); c = true; } }
      printf("], \"ext\": ["); { bool c = false; for (auto& x : st.ext) { printf("%s\"%s\"", c ? ", " : "", jesc(x).c_str()); c = true; } }
      printf("]}\n");
   }
};

// ---------------------------------------------------------------- class evaluation (no Taylor models)
static ld pnum(const std::string& s) { if (s == "inf") return INFINITY; if (s == "-inf") return -INFINITY; return strtold(s.c_str(), nullptr); }
static Itv parseitv(const std::string& s0, int p) {
   std::string s = s0; bool nn = false; if (!s.empty() && s.back() == 'n' && s != "nan" && s != "fin") { nn = true; s.pop_back(); }
   Itv r;
   if (s == "nan") return Itv::onlynan();
   if (s == "top") return Itv::top();
   if (s == "fin") { r = Itv::range(-fmax_of(p), fmax_of(p)); return r; }
   if (s == "+0") return Itv::point(0.0L);
   if (s == "-0") return Itv::point(-0.0L);
   if (s == "0") { r = Itv::range(0, 0); return r; }
   auto c = s.find(':');
   if (c == std::string::npos) r = Itv::point(rnd(p, pnum(s)));
   else { std::string a = s.substr(0, c), b = s.substr(c + 1); ld l = pnum(a), h = pnum(b);
      bool lo = false, ho = false; if (a == "0+") { l = dmin_of(p); lo = true; } if (b == "0-") { h = -dmin_of(p); ho = true; } if (a == "min+") l = dmin_of(p); if (b == "max") h = fmax_of(p); if (a == "-max") l = -fmax_of(p);
      (void)lo; (void)ho; ld l2 = rnd(p, l), h2 = rnd(p, h); if (l2 < l) l2 = nextup(p, l2); if (h2 > h) h2 = nextdn(p, h2); r = Itv::range(l2, h2); }
   r.nan = nn; r.canon(p); return r;
}
static std::string jitv(const Itv& i) { char b[256]; if (i.empty()) snprintf(b, sizeof b, "{\"empty\": true, \"nan\": %s}", i.nan ? "true" : "false");
   else { auto q = [](ld x) { char c[64]; if (std::isinf(x)) snprintf(c, sizeof c, "%s1e999", x < 0 ? "-" : ""); else snprintf(c, sizeof c, "%.21Lg", x); return std::string(c); };
      snprintf(b, sizeof b, "{\"lo\": %s, \"hi\": %s, \"nan\": %s, \"pz\": %s, \"nz\": %s}", q(i.lo).c_str(), q(i.hi).c_str(), i.nan ? "true" : "false", i.pz ? "true" : "false", i.nz ? "true" : "false"); }
   return b; }
static std::vector<std::string> split(const std::string& s, char c) { std::vector<std::string> r; std::string t; for (char x : s) if (x == c) { r.push_back(t); t.clear(); } else t += x; r.push_back(t); return r; }

// one case: "re|im|nlo:nhi:a:b" (order = a*N+b with N in nlo..nhi)
template<class T> struct Sv : Eng<T> {
   typedef Eng<T> E; typedef typename E::I I; typedef typename E::Value Value; typedef typename E::NP NP;
   Opts o; I ip;
   Sv(const Program& p, const Opts& op) : E(p, opts(op, "fn", ""), opts(op, "sig", "d"), (int)optf(op, "prec", 53)), o(op) {
      ip.P = &p; ip.maxrss = 2500000000L; ip.useTM = false; ip.fmodsplit = (int)optf(op, "fmodsplit", 1); ip.vnt.on = true; ip.maxpaths = (int)optf(op, "maxpaths", 400); ip.maxsteps = (long)optf(op, "maxsteps", 400000); ip.maxtotal = (long)optf(op, "maxtotal", 4.0e6); TMConf::oneD = true; }
   void one(const std::string& spec, bool first) {
      auto c = split(spec, '|'); while (c.size() < 3) c.push_back("");
      const bool cx = this->cxarg();
      struct R { Itv re, im; std::string tr; bool i; i128 lo, hi; }; std::vector<R> list; std::vector<std::string> unp; std::set<std::string> argw;
      ip.events.clear(); ip.evseen.clear(); ip.symN = false;
      auto body = [&]() {
         Value nv = I::mkint(2, T_I64);
         if (!c[2].empty()) { auto q = split(c[2], ':'); i128 lo = strtoll(q[0].c_str(), 0, 10), hi = q.size() > 1 ? (i128)strtoll(q[1].c_str(), 0, 10) : lo, a = q.size() > 2 ? strtoll(q[2].c_str(), 0, 10) : 1, b = q.size() > 3 ? strtoll(q[3].c_str(), 0, 10) : 0;
            if (lo == hi) nv = I::mkint(a*lo + b, T_I64); else { ip.Nlo = lo; ip.Nhi = hi; ip.symN = true; nv = ip.mklin(a, b, T_I64); } }
         NP x = nullptr;
         if (this->sig != "n") { NP re = ip.mkre(this->prec, parseitv(c[0], this->prec), nullptr, ip.vnt.fresh());
            x = cx ? ip.mkcomplex(re, ip.mkre(this->prec, parseitv(c[1], this->prec), nullptr, ip.vnt.fresh())) : re; }
         std::vector<Value> av = this->args(ip, x, nv);
         Value v = ip.call(*this->f, av);
         for (auto& a : av) if (a.k == Value::PTR) { (void)a; }
         R r; r.i = v.k == Value::INT; if (r.i) { r.lo = v.lo; r.hi = v.hi; } else { if (v.k != Value::FLT) throw Unproven("result is not floating point"); r.re = ip.reI(v.n); r.im = ip.imI(v.n); }
         for (auto& s : ip.trace) r.tr += s + " "; list.push_back(r);
      };
      int n = ip.explore(body, [&](const std::string& w) { unp.push_back(w + " [" + ip.curfn + " " + ip.curloc + "]"); });
      Itv re, im; for (auto& r : list) { re = uni(re, r.re); im = uni(im, r.im); }
      if (!first) printf(", ");
      printf("{\"case\": \"%s\", \"paths\": %d, \"results\": %zu, \"re\": %s, \"im\": %s, ", jesc(spec).c_str(), n, list.size(), jitv(re).c_str(), jitv(im).c_str());
      printf("\"list\": ["); for (size_t i = 0; i < list.size() && i < 40000; ++i) printf("%s{\"re\": %s, \"im\": %s, \"tr\": \"%s\"}", i ? ", " : "", jitv(list[i].re).c_str(), jitv(list[i].im).c_str(), jesc(list[i].tr.substr(0, list.size() > 100 ? 60 : 300)).c_str());
      printf("], \"unproven\": ["); std::set<std::string> us(unp.begin(), unp.end()); { bool k = false; for (auto& u : us) { printf("%s\"%s\"", k ? ", " : "", jesc(u).c_str()); k = true; } }
      printf("], \"events\": ["); { bool k = false; for (auto& e : ip.events) { printf("%s{\"kind\": \"%s\", \"loc\": \"%s\", \"fn\": \"%s\", \"msg\": \"%s\", \"def\": %s}", k ? ", " : "", jesc(e.kind).c_str(), jesc(e.loc).c_str(), jesc(e.fn).c_str(), jesc(e.msg).c_str(), e.def ? "true" : "false"); k = true; } }
      printf("]}");
   }
   void main() {
      printf("{\"fn\": \"%s\", \"cases\": [", this->f->name.c_str()); bool first = true;
      for (auto& s : split(opts(o, "cases", ""), ';')) { one(s, first); first = false; }
      printf("], \"ops\": %ld, \"fns\": [", ip.nops); { bool c = false; for (auto& x : ip.fns_seen) { printf("%s\"%s\"", c ? ", " : "", jesc(x).c_str()); c = true; } }
      printf("], \"ext\": ["); { bool c = false; for (auto& x : ip.ext_seen) { printf("%s\"%s\"", c ? ", " : "", jesc(x).c_str()); c = true; } }
      printf("]}\n");
   }
};

int main(int argc, char** argv) {
   if (argc < 3) { fprintf(stderr, "usage: ana MODE IR key=value...\n"); return 2; }
   std::string mode = argv[1]; Program P; P.load(argv[2]);
   Opts o; for (int i = 3; i < argc; ++i) { std::string s = argv[i]; auto p = s.find('='); if (p != std::string::npos) o[s.substr(0, p)] = s.substr(p + 1); }
   if (mode == "acc") { if (opts(o, "T", "q") == "q") { Acc<q128> a(P, o); a.main(); } else { Acc<ld> a(P, o); a.main(); } }
   else if (mode == "sv") { Sv<ld> a(P, o); a.main(); }
   return 0;
}
