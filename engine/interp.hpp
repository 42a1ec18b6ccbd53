// Abstract interpreter over the SSA IR: a reduced product of an interval /
// IEEE-class domain, Taylor models, value numbers, and integer intervals with
// one symbolic parameter; trace partitioned at undecided branches.
#pragma once
#include "ir.hpp"
#include "itv.hpp"
#include "tm.hpp"
#include <chrono>
#include <functional>
#include <string>
#include <unordered_map>

struct Unproven : std::runtime_error { using std::runtime_error::runtime_error; };
struct Infeasible {};
struct Event { std::string kind, loc, fn, msg; bool def; };

template<class T> struct Interp {
   typedef TM<T> M; typedef typename M::P TP; typedef Cx<T> C;

   // ------------------------------------------------------------ value numbers
   // signed value numbers: +id / -id; 0 = unknown (never equal to anything)
   typedef int64_t VN;
   struct VNT {
      std::map<std::vector<int64_t>, VN> m; VN nxt = 1; bool on = false;
      VN fresh() { return on ? nxt++ : 0; }
      VN get(std::vector<int64_t> k) { if (!on) return 0; auto i = m.find(k); if (i != m.end()) return i->second; VN v = nxt++; m.emplace(std::move(k), v); return v; }
   } vnt;
   enum { VCONST = 1, VADD, VMUL, VDIV, VFN, VCMUL, VCDIV, VCFN, VPART, VCAST, VCMP, VABS, VINT };
   VN vconst(ld v) { if (!vnt.on || v != v) return 0; ld a = fabsl(v); int e; ld f = frexpl(a, &e); int64_t mant = std::isinf(a) ? -1 : (int64_t)(uint64_t)ldexpl(f, 64); if (f == 0) e = 0; VN k = vnt.get({VCONST, mant, e}); return (v < 0 || (v == 0 && std::signbit(v))) ? -k : k; }
   bool vzero(VN a) { if (!vnt.on) return false; VN z = vconst(0.0L); return a == z || a == -z; }
   static VN vabs(VN a) { return a < 0 ? -a : a; }
   VN vadd(int p, VN a, VN b) {
      if (!a || !b) return 0;
      if (vzero(a)) return b;
      if (vzero(b)) return a;
      if (a == -b) return vconst(0.0L);
      if (vabs(a) > vabs(b)) std::swap(a, b);
      if (a < 0) return -vnt.get({VADD, p, -a, -b});
      return vnt.get({VADD, p, a, b});
   }
   VN vmul(int p, VN a, VN b) {
      if (!a || !b) return 0;
      int s = (a < 0) != (b < 0) ? -1 : 1; a = vabs(a); b = vabs(b); if (a > b) std::swap(a, b);
      VN one = vconst(1.0L);
      if (a == one) return s*b;
      if (b == one) return s*a;
      VN z = vabs(vconst(0.0L)); if (a == z || b == z) return s*z;
      return s*vnt.get({VMUL, p, a, b});
   }
   VN vdiv(int p, VN a, VN b) { if (!a || !b) return 0; int s = (a < 0) != (b < 0) ? -1 : 1; a = vabs(a); b = vabs(b); if (b == vconst(1.0L)) return s*a; return s*vnt.get({VDIV, p, a, b}); }
   VN vfn(int p, const std::string& n, std::vector<VN> a) { // parity: 0 none, 1 odd in first, 2 even in all
      if (!vnt.on) return 0;
      for (VN x : a) if (!x) return 0;
      int s = 1;
      if (n == "sin" || n == "atan" || n == "tan" || n == "sinh" || n == "asin" || n == "cbrt" || n == "trunc" || n == "round") { if (a[0] < 0) { s = -1; a[0] = -a[0]; } }
      else if (n == "cos" || n == "fabs" || n == "cosh" || n == "hypot") { for (auto& x : a) x = vabs(x); if (n == "hypot" && a[0] > a[1]) std::swap(a[0], a[1]); }
      else if (n == "atan2") { if (a[0] < 0) { s = -1; a[0] = -a[0]; } }
      else if (n == "fmod") { if (a[0] < 0) { s = -1; a[0] = -a[0]; } a[1] = vabs(a[1]); }
      std::vector<int64_t> k{VFN, p}; for (char c : n) k.push_back(-(int64_t)c); for (VN x : a) k.push_back(x);
      return s*vnt.get(k);
   }
   // complex operation on component value numbers, canonical up to conjugation
   void vcop(int op, int p, const std::string& n, std::vector<VN> a, VN& re, VN& im) { // a = re0,im0,re1,im1..
      re = im = 0; if (!vnt.on) return;
      for (VN x : a) if (!x) return;
      bool flip = false;
      for (size_t i = 1; i < a.size(); i += 2) if (!vzero(a[i])) { flip = a[i] < 0; break; }
      if (flip) for (size_t i = 1; i < a.size(); i += 2) a[i] = -a[i];
      for (size_t i = 1; i < a.size(); i += 2) if (vzero(a[i])) a[i] = vabs(a[i]);
      if (op == VCMUL && a.size() == 4 && std::make_pair(vabs(a[0]), vabs(a[1])) > std::make_pair(vabs(a[2]), vabs(a[3]))) { std::swap(a[0], a[2]); std::swap(a[1], a[3]);
         flip = flip; }
      if (op == VCMUL || op == VCDIV) { // overall sign of each factor
         int s = 1; for (int o = 0; o < 4; o += 2) { if (a[o] < 0) { a[o] = -a[o]; a[o + 1] = -a[o + 1]; s = -s; } }
         // the sign extraction may have changed which imaginary part leads; renormalise
         bool fl2 = false; for (size_t i = 1; i < a.size(); i += 2) if (!vzero(a[i])) { fl2 = a[i] < 0; break; }
         if (fl2) { for (size_t i = 1; i < a.size(); i += 2) a[i] = -a[i]; flip = !flip; }
         for (size_t i = 1; i < a.size(); i += 2) if (vzero(a[i])) a[i] = vabs(a[i]);
         std::vector<int64_t> k{op, p}; for (VN x : a) k.push_back(x);
         VN v = vnt.get(k); re = s*vnt.get({VPART, v, 0}); im = s*vnt.get({VPART, v, 1});
      } else {
         std::vector<int64_t> k{op, p}; for (char c : n) k.push_back(-(int64_t)c); for (VN x : a) k.push_back(x);
         VN v = vnt.get(k); re = vnt.get({VPART, v, 0}); im = vnt.get({VPART, v, 1});
      }
      if (flip) im = -im;
   }

   // ------------------------------------------------------------ values
   struct Node; typedef std::shared_ptr<Node> NP;
   struct Node { int prec = 53; bool cx = false; Itv re, im; TP tm; VN vn = 0, vi = 0; NP pr, pi; NP base, term; /* value = base (+) term, rounded once */
      NP lnarg;          // value = log(lnarg)
      NP f1, f2, dv;     // value = f1*f2/dv (f2, dv optional), recorded for log(u)*z/(u-1)
      bool hasne = false; ld ne = 0; /* value != ne */
      std::weak_ptr<Node> whole; /* imaginary part of this value */
      std::weak_ptr<Node> owner; int which = 0; // 1/2: real/imaginary part of owner
      std::weak_ptr<Node> so; NP sc; int swh = 0; bool sdiv = false; // value = part swh of so times (divided by) the real sc
      int eqm = 0;       // parts known to be equal to those of one operand of the sum
      ld amin = 0;       // |value| >= amin
      NP hx, hy; int fk = 0; // fk: 1 hypot(hx, hy), 2 log(hypot(hx, hy)), 3 atan2(hy, hx)
   };
   struct Obj;
   struct Cond { std::string op; NP a, b; bool neg = false; };
   typedef std::vector<int> Key;
   struct Value {
      enum K : uint8_t { UNDEF, INT, FLT, PTR, AGG } k = UNDEF; Ty ty = T_ANY;
      i128 lo = 0, hi = 0; bool lin = false; i128 la = 0, lb = 0;   // INT; lin: value = la*N + lb
      NP n; int obj = -1; Key key; long boff = 0 /* bytes beyond the element, element type unknown */; std::shared_ptr<Obj> agg; std::shared_ptr<Cond> cond; VN vn = 0;
   };
   struct Obj { std::string name; std::vector<std::pair<Key, Value>> s; const std::vector<ld>* tab = nullptr; const Data* data = nullptr; Ty ety = T_ANY; std::vector<int> dims; bool arg = false, global = false, cnst = false; };

   // ------------------------------------------------------------ configuration and state
   const Program* P = nullptr;
   bool useTM = true;
   i128 Nlo = 0, Nhi = 0; bool symN = false;  // the symbolic integer N
   long maxsteps = 4000000, maxtotal = 0, maxrss = 0; bool overmem = false;
   static long rss() { long a = 0, b = 0; FILE* f = fopen("/proc/self/statm", "r"); if (!f) return 0; if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); return b*4096; }
   double tend = 0; bool late = false; // end of the time budget (seconds since the epoch)
   static double now() { return std::chrono::duration<double>(std::chrono::system_clock::now().time_since_epoch()).count(); }
   int maxpaths = 48;
   std::vector<bool> script; std::vector<std::pair<bool, bool>> taken; size_t pos = 0; // decisions
   std::vector<std::string> trace;
   std::vector<Event> events; std::set<std::string> evseen;
   std::vector<Obj> heap; long steps = 0; int depth = 0; long nops = 0;
   std::set<std::string> fns_seen, ext_seen; std::set<std::string> sites_seen;
   std::string curfn, curloc;
   std::map<std::pair<std::string, std::string>, int> globals_;
   std::map<VN, bool> fixedcond; // decisions keyed by condition value number (relational mode)
   std::map<VN, bool> condlog;
   bool collect_sites = false; int fmodsplit = 1;
   std::function<bool(Interp&, const std::string&, const std::vector<Value>&, Value&)> callhook;

   void event(const std::string& k, const std::string& m, bool def = true) { // def: every value of the operands is affected
      std::string key = k + curloc + curfn + m; if (!evseen.insert(key).second) return;
      events.push_back({k, curloc, curfn, m, def}); }

   static ld i2ld(i128 v) { return (ld)v; }
   static std::string i2s(i128 v) { if (v == 0) return "0"; bool n = v < 0; unsigned __int128 u = n ? -(unsigned __int128)v : v; std::string s; while (u) { s.insert(s.begin(), '0' + (int)(u % 10)); u /= 10; } return n ? "-" + s : s; }

   // -------- integer values
   static Value mkint(i128 lo, i128 hi, Ty t) { Value v; v.k = Value::INT; v.ty = t; v.lo = lo; v.hi = hi; return v; }
   static Value mkint(i128 x, Ty t = T_ANY) { return mkint(x, x, t); }
   Value mklin(i128 a, i128 b, Ty t) { i128 x = a*Nlo + b, y = a*Nhi + b; Value v = mkint(std::min(x, y), std::max(x, y), t); if (a != 0 && symN) { v.lin = true; v.la = a; v.lb = b; } return v; }
   static bool isun(Ty t) { return t == T_B || (t >= T_U8 && t <= T_U64); }
   static int bits(Ty t) { return t == T_B ? 1 : ty_size(t)*8; }
   static i128 tmin(Ty t) { return isun(t) ? 0 : -((i128)1 << (bits(t) - 1)); }
   static i128 tmax(Ty t) { return isun(t) ? ((i128)1 << bits(t)) - 1 : ((i128)1 << (bits(t) - 1)) - 1; }
   Value normint(Value v, Ty t, const char* what) { // v computed exactly; fit to type t
      v.ty = t; if (t == T_ANY) return v;
      if (v.lo >= tmin(t) && v.hi <= tmax(t)) return v;
      if (isun(t)) {
         i128 m = (i128)1 << bits(t);
         auto fl = [&](i128 x) { i128 q = x/m; if (x % m < 0) --q; return q; };
         if (fl(v.lo) == fl(v.hi)) { i128 q = fl(v.lo); v.lo -= q*m; v.hi -= q*m; if (v.lin) v.lb -= q*m; return v; }
         Value r = mkint(0, m - 1, t); return r;
      }
      if (what) event("int-overflow", std::string("signed overflow possible in '") + what + "': exact result range [" + i2s(v.lo) + ", " + i2s(v.hi) + "]", v.hi < tmin(t) || v.lo > tmax(t));
      else { // conversion: implementation defined wrap
         i128 m = (i128)1 << bits(t);
         auto fl = [&](i128 x) { x -= tmin(t); i128 q = x/m; if (x % m < 0) --q; return q; };
         if (fl(v.lo) == fl(v.hi)) { i128 q = fl(v.lo); v.lo -= q*m; v.hi -= q*m; if (v.lin) v.lb -= q*m; return v; }
         return mkint(tmin(t), tmax(t), t); // wraps around
      }
      if (v.hi < tmin(t) || v.lo > tmax(t)) { if (what) throw Infeasible(); return mkint(tmin(t), tmax(t), t); }
      Value r = mkint(std::max(v.lo, tmin(t)), std::min(v.hi, tmax(t)), t); return r;
   }
   static Ty opty(const Value& a, const Value& b) { return a.ty == T_ANY ? b.ty : a.ty; }
   static i128 fdiv(i128 a, i128 b) { return a/b; }
   Value intop(const std::string& op, Value a, Value b) {
      Ty t = opty(a, b);
      if (a.k != Value::INT || b.k != Value::INT) throw Unproven("integer operation on non-integer");
      if (t == T_B && (op == "+" || op == "-" || op == "*")) t = T_I32;
      const bool single = a.lo == a.hi && b.lo == b.hi;
      if (op == "+" || op == "-") {
         Value r;
         if ((a.lin || a.lo == a.hi) && (b.lin || b.lo == b.hi) && (a.lin || b.lin)) {
            i128 aa = a.lin ? a.la : 0, ab = a.lin ? a.lb : a.lo, ba = b.lin ? b.la : 0, bb = b.lin ? b.lb : b.lo;
            r = op == "+" ? mklin(aa + ba, ab + bb, t) : mklin(aa - ba, ab - bb, t);
         } else r = op == "+" ? mkint(a.lo + b.lo, a.hi + b.hi, t) : mkint(a.lo - b.hi, a.hi - b.lo, t);
         return normint(r, t, op.c_str());
      }
      if (op == "*") {
         Value r;
         if (a.lin && b.lo == b.hi) r = mklin(a.la*b.lo, a.lb*b.lo, t);
         else if (b.lin && a.lo == a.hi) r = mklin(b.la*a.lo, b.lb*a.lo, t);
         else {
            // products fit: operands are at most 64 bit
            i128 c[4] = {a.lo*b.lo, a.lo*b.hi, a.hi*b.lo, a.hi*b.hi};
            r = mkint(*std::min_element(c, c + 4), *std::max_element(c, c + 4), t);
         }
         return normint(r, t, "*");
      }
      if (op == "/" || op == "%") {
         if (b.lo <= 0 && b.hi >= 0) { event("div0", "integer division by a value that may be zero", b.lo == 0 && b.hi == 0); if (b.lo == 0 && b.hi == 0) throw Infeasible(); if (b.lo == 0) b.lo = 1; if (b.hi == 0) b.hi = -1; }
         if (b.lo != b.hi) { if (op == "/") { i128 m = std::max(a.lo < 0 ? -a.lo : a.lo, a.hi < 0 ? -a.hi : a.hi); return normint(mkint(-m, m, t), t, "/"); }
            i128 m = std::max(b.lo < 0 ? -b.lo : b.lo, b.hi < 0 ? -b.hi : b.hi) - 1; return mkint(a.lo < 0 ? -m : 0, a.hi > 0 ? m : 0, t); }
         const i128 d = b.lo;
         if (op == "/") {
            if (a.lin && d > 0 && a.la % d == 0) {
               if (a.lb % d == 0) return normint(mklin(a.la/d, a.lb/d, t), t, "/");
               if (a.lo >= 0) { i128 q = a.lb/d; if (a.lb % d < 0) --q; return normint(mklin(a.la/d, q, t), t, "/"); }       // floor
               if (a.hi <= 0) { i128 q = a.lb/d; if (a.lb % d > 0) ++q; return normint(mklin(a.la/d, q, t), t, "/"); }       // ceil
            }
            i128 x = a.lo/d, y = a.hi/d; return normint(mkint(std::min(x, y), std::max(x, y), t), t, "/");
         }
         const i128 m = d < 0 ? -d : d;
         if (a.lo == a.hi) return mkint(a.lo % m, t);
         if (a.lin && a.la % m == 0) { i128 r = a.lb % m; if (r == 0) return mkint(0, t); if (a.lo >= 0) { if (r < 0) r += m; return mkint(r, t); } if (a.hi <= 0) { if (r > 0) r -= m; return mkint(r, t); } }
         if (a.lo >= 0 && a.hi < m) { Value r = a; r.ty = t; return r; }
         return mkint(a.lo < 0 ? -(m - 1) : 0, a.hi > 0 ? m - 1 : 0, t);
      }
      if (op == "&") {
         if (single) return mkint(a.lo & b.lo, t);
         if (a.lo == a.hi) std::swap(a, b);
         if (b.lo == b.hi && b.lo >= 0) {
            if (b.lo == 1 && a.lin && a.la % 2 == 0) return mkint(((a.lb % 2) + 2) % 2, t);
            if (b.lo == 3 && a.lin && a.la % 4 == 0) return mkint(((a.lb % 4) + 4) % 4, t);
            return mkint(0, b.lo, t); }
         if (t == T_B) return mkint(a.lo & b.lo, a.hi & b.hi, t);
         return mkint(tmin(t), tmax(t), t);
      }
      if (op == "|" || op == "^") {
         if (single) return mkint(op == "|" ? (a.lo | b.lo) : (a.lo ^ b.lo), t);
         if (t == T_B) return op == "|" ? mkint(a.lo | b.lo, a.hi | b.hi, t) : mkint(0, 1, t);
         return t == T_ANY ? throw Unproven("bit op") : mkint(tmin(t), tmax(t), t);
      }
      if (op == "<<") {
         if (b.lo < 0 || b.hi >= bits(t)) event("shift", "shift count out of range", b.hi < 0 || b.lo >= bits(t));
         if (single && b.lo >= 0 && b.lo < 63) return normint(mkint(a.lo*((i128)1 << (int)b.lo), t), t, "<<");
         return mkint(tmin(t), tmax(t), t);
      }
      if (op == ">>") {
         if (b.lo < 0 || b.hi >= bits(t)) event("shift", "shift count out of range", b.hi < 0 || b.lo >= bits(t));
         if (b.lo == b.hi && b.lo >= 0 && b.lo < 64) return mkint(a.lo >> (int)b.lo, a.hi >> (int)b.lo, t);
         return mkint(std::min(a.lo, (i128)0), std::max(a.hi, (i128)0), t);
      }
      if (op == "min") return mkint(std::min(a.lo, b.lo), std::min(a.hi, b.hi), t);
      if (op == "max") return mkint(std::max(a.lo, b.lo), std::max(a.hi, b.hi), t);
      throw Unproven("integer operator " + op);
   }
   Tri intcmp(const std::string& op, const Value& a, const Value& b) {
      i128 l = a.lo - b.hi, h = a.hi - b.lo; // range of a-b
      if ((a.lin || a.lo == a.hi) && (b.lin || b.lo == b.hi) && (a.lin || b.lin)) {
         Value d = mklin((a.lin ? a.la : 0) - (b.lin ? b.la : 0), (a.lin ? a.lb : a.lo) - (b.lin ? b.lb : b.lo), T_ANY); l = d.lo; h = d.hi; }
      Tri r{false, false};
      if (op == "<") { r.t = l < 0; r.f = h >= 0; } else if (op == "<=") { r.t = l <= 0; r.f = h > 0; }
      else if (op == ">") { r.t = h > 0; r.f = l <= 0; } else if (op == ">=") { r.t = h >= 0; r.f = l < 0; }
      else if (op == "==") { r.t = l <= 0 && h >= 0; r.f = !(l == 0 && h == 0); }
      else if (op == "!=") { r.f = l <= 0 && h >= 0; r.t = !(l == 0 && h == 0); }
      else throw Unproven("int compare " + op);
      return r;
   }

   // -------- float values
   Value fv(NP n, Ty t = T_ANY) { Value v; v.k = Value::FLT; v.n = n; v.ty = t != T_ANY ? t : (n->cx ? cplx_of(n->prec) : flt_of(n->prec)); return v; }
   // values are numbers of the format inside [l,h]
   static void cutI(Itv& i, ld l, ld h, int p) {
      if (i.empty()) return;
      if (l > i.lo) { ld r = rnd(p, l); i.lo = r >= l ? r : nextup(p, r); }
      if (h < i.hi) { ld r = rnd(p, h); i.hi = r <= h ? r : nextdn(p, r); }
      if (i.lo > i.hi) { i.lo = 1; i.hi = -1; }
      i.canon(p);
   }
   NP mkre(int p, Itv iv, TP tm, VN vn) {
      auto n = std::make_shared<Node>(); n->prec = p; n->vn = vn;
      iv.canon(p ? p : 64);
      if (!useTM) tm = nullptr;
      if (tm && !std::isfinite(tm->R)) tm = nullptr;
      if (tm) {
         ld l, h; tm->relo(l, h);
         const ld mx = fmax_of(p ? p : 64);
         if (!(l > -mx && h < mx)) { if (iv.hasinf()) tm = nullptr; }
         if (tm && !iv.empty()) {
            iv.nan = false;
            cutI(iv, l, h, p ? p : 64);
            if (iv.none()) throw Infeasible();
         }
      }
      // (2D mode: a value pinned by an equality test keeps its enclosure over the whole cell)
      if (useTM && iv.singleval() && std::isfinite(iv.lo) && (TMConf::oneD || !tm || tm->tailnorm() <= tm->R + 0x1p-60L*iv.mag())) tm = M::constant(C(T(iv.lo)));
      n->re = iv; n->tm = tm; n->im = Itv::point(0.0L);
      return n;
   }
   NP cst(ld v, int p) { Itv i = Itv::point(v); return mkre(p, i, std::isfinite(v) && useTM ? M::constant(C(T(v))) : nullptr, vconst(v)); }
   NP mkcx(int p, Itv re, Itv im, TP tm, VN vr, VN vi) {
      auto n = std::make_shared<Node>(); n->prec = p; n->cx = true; n->vn = vr; n->vi = vi;
      re.canon(p ? p : 64); im.canon(p ? p : 64);
      if (!useTM) tm = nullptr;
      if (tm && !std::isfinite(tm->R)) tm = nullptr;
      if (tm) {
         ld a, b, c, d; tm->relo(a, b); tm->imlo(c, d); const ld mx = fmax_of(p ? p : 64);
         if (!(a > -mx && b < mx) && re.hasinf()) tm = nullptr;
         else if (!(c > -mx && d < mx) && im.hasinf()) tm = nullptr;
         if (tm) { if (!re.empty()) re.nan = false; if (!im.empty()) im.nan = false; cutI(re, a, b, p ? p : 64); cutI(im, c, d, p ? p : 64); if (re.none() || im.none()) throw Infeasible(); }
      }
      if (useTM && re.singleval() && im.singleval() && std::isfinite(re.lo) && std::isfinite(im.lo) && (TMConf::oneD || !tm)) tm = M::constant(C(T(re.lo), T(im.lo)));
      n->re = re; n->im = im; n->tm = tm;
      return n;
   }
   TP addR(TP t, ld e) { if (!t) return t; if (e == 0) return t; auto r = std::make_shared<M>(*t); r->R = M::up(r->R + e); return r; }
   static ld magn(const Node& n) { ld m = n.cx ? hypotl(n.re.mag(), n.im.mag()) : n.re.mag(); if (n.tm) { ld k = n.tm->maxabs(); if (k < m) m = k; } return m; }
   static ld tmmag(const TP& t, ld imag) { if (!t) return imag; ld k = t->maxabs(); return k < imag ? k : imag; }
   static bool pow2(const Itv& a) { if (!a.singleval() || a.lo == 0 || !std::isfinite(a.lo)) return false; int e; ld f = frexpl(fabsl(a.lo), &e); return f == 0.5L; }
   static int mp(int a, int b) { return a > b ? a : b; }
   static bool sterb(const Itv& a, const Itv& b) { // a - b exact
      if (a.nan || b.nan || a.empty() || b.empty()) return false;
      if ((a.lo == 0 && a.hi == 0) || (b.lo == 0 && b.hi == 0)) return true;
      if (a.lo > 0 && b.lo > 0) return a.lo >= b.hi/2 && a.hi <= 2*b.lo;
      if (a.hi < 0 && b.hi < 0) return -a.hi >= -b.lo/2 && -a.lo <= -2*b.hi;
      return false;
   }
   NP part(const NP& z, bool im) {
      if (!z->cx) return im ? cst(0.0L, z->prec) : z;
      if (!im && z->pr) return z->pr;
      if (im && z->pi) return z->pi;
      TP t = nullptr;
      const Itv& iv = im ? z->im : z->re;
      if (z->tm && (!TMConf::oneD || !iv.singleval())) t = im ? M::im(*z->tm) : !TMConf::oneD && zeroI(z->im) ? z->tm : M::re(*z->tm);
      NP n = mkre(z->prec, iv, t, im ? z->vi : z->vn);
      if (im) { z->pi = n; n->whole = z; } else z->pr = n;
      n->owner = z; n->which = im ? 2 : 1;
      if (z->base) { n->base = part(z->base, im); n->term = part(z->term, im); n->base->base = n->base->term = nullptr; }
      return n;
   }
   Itv reI(const NP& z) { if (z->cx) return z->pr ? z->pr->re : z->re; return z->re; }
   Itv imI(const NP& z) { if (z->cx) return z->pi ? z->pi->re : z->im; return Itv::point(0.0L); }
   static ld minmag(const NP& n) { // lower bound of the absolute value
      ld m = n->re.nan || n->re.empty() ? 0 : n->re.mig();
      if (n->cx) { ld k = n->im.nan || n->im.empty() ? 0 : n->im.mig(); m = hypotl(m, k)*(1 - 1e-18L); }
      if (n->tm) m = std::max(m, n->tm->minabs());
      return std::max(m, n->amin); }
   static bool sameparts(const NP& a, const NP& b) {
      auto eq = [](const NP& x, const NP& y) { return x == y || (x->vn && x->vn == y->vn); };
      return (eq(a->hx, b->hx) && eq(a->hy, b->hy)) || (eq(a->hx, b->hy) && eq(a->hy, b->hx)); }
   NP mkcomplex(const NP& a, const NP& b) {
      TP t = nullptr; ld am = 0;
      if (a->sc && a->sc == b->sc && a->sdiv == b->sdiv && a->swh == 1 && b->swh == 2 && a->prec == b->prec) { // a complex value scaled by a real one
         NP w = a->so.lock(), sc = a->sc;
         if (w && w == b->so.lock() && w->tm && sc->tm) {
            const int p = a->prec; const ld m = sc->re.mig(), mm = minmag(w);
            if (a->sdiv) { TP q; if (M::div(*w->tm, *sc->tm, q)) t = q; if (sc->re.mag() > 0) am = mm/sc->re.mag(); }
            else { t = M::mul(*w->tm, *sc->tm); am = mm*m; }
            if (t) t = addR(t, (pow2(sc->re) ? 0 : u_of(p)*tmmag(t, hypotl(a->re.mag(), b->re.mag()))) + 2*dmin_of(p));
            am = am*(1 - 4*u_of(p)) - 2*dmin_of(p);
         }
      }
      if (!t && a->fk == 2 && b->fk == 3 && !TMConf::oneD && a->prec == b->prec && a->hx->tm && a->hy->tm && sameparts(a, b)) { // log|z| + i arg z
         const NP &X = b->hx, &Y = b->hy; NP o; if (X->which == 1 && Y->which == 2 && X->owner.lock() && X->owner.lock() == Y->owner.lock()) o = X->owner.lock();
         TP z = o && o->tm ? o->tm : M::add(*X->tm, *M::muli(*Y->tm)), l;
         if (z->minabs() > 0 && tmclog(z, X->re, Y->re, l)) t = addR(l, 2*u_of(a->prec)*(1 + tmmag(l, hypotl(a->re.mag(), b->re.mag()))) + 2*dmin_of(a->prec));
      }
      if (!t && a->tm && b->tm) { if (b->re.lo == 0 && b->re.hi == 0) t = a->tm; else t = M::add(*a->tm, *M::muli(*b->tm)); }
      NP n = mkcx(mp(a->prec, b->prec), a->re, b->re, t, a->vn, b->vn);
      if (am > 0) n->amin = am;
      n->pr = a; n->pi = b; b->whole = n;
      if (!a->which) { a->owner = n; a->which = 1; } if (!b->which) { b->owner = n; b->which = 2; }
      return n;
   }
   // 2D mode: where the imaginary part is zero, the value itself encloses the real part
   void realize(const NP& n) {
      if (TMConf::oneD || !useTM || n->re.nan || !(n->re.lo == 0 && n->re.hi == 0)) return;
      NP w = n->whole.lock(); if (!w || !w->tm) return;
      NP r = part(w, false); note(r); r->tm = w->tm; r->whole.reset();
   }
   // a +- b cannot be zero when one operand is known to differ from the other
   void nezero(Itv& iv, const NP& a, const NP& b, bool sub, int p) {
      const ld s = sub ? 1 : -1;
      if (a->hasne && b->re.singleval() && b->re.lo == s*a->ne) { iv.pz = iv.nz = false; iv.canon(p); }
      if (b->hasne && a->re.singleval() && a->re.lo == s*b->ne) { iv.pz = iv.nz = false; iv.canon(p); }
   }
   // the node pattern  v = u - 1, exactly
   bool um1(const NP& v, const NP& u) {
      if (!vnt.on || v->cx != u->cx || v->prec != u->prec) return false;
      const NP ur = part(u, false), vr = part(v, false);
      if (!ur->vn || !vr->vn || vr->vn != vadd(u->prec, ur->vn, -vconst(1.0L))) return false;
      if (u->cx) { const NP ui = part(u, true), vi = part(v, true); if (!ui->vn || ui->vn != vi->vn) return false; }
      return ur->re.lo >= 0.5L && ur->re.hi <= 2;
   }
   bool nonzero(const NP& v) { if (!reI(v).zero() && !reI(v).nan) return true; return v->cx && !imI(v).zero() && !imI(v).nan; }
   // log(1 + v)/v as a smooth function of v (valid at v = 0), |v| <= 3/4
   TP loglin(const TP& v) {
      const ld m = v->maxabs(); if (!(m <= 0.75L)) return nullptr;
      auto v0 = std::make_shared<M>(*v); v0->R = 0; TP h;
      if (m <= 0.3L) {
         h = M::constant(C(T(0))); const int n = (int)ceill(logl(1e-4L*(ld)Num<T>::u())/logl(m > 1e-30L ? m : 1e-30L)) + 1;
         for (int k = n; k >= 0; --k) { h = M::mul(*h, *v0); h = M::add(*h, *M::constant(C(T(k & 1 ? -1 : 1)/T(k + 1)), (ld)Num<T>::u()/(k + 1))); }
         h = addR(h, powl(m, n + 1)*2);
      } else {
         TP w = M::add(*v0, *M::constant(C(T(1)))), l; const C c = w->c0();
         if (!M::logint(*v0, *w, M::clog_acc(c), 8*(ld)Num<T>::u()*amag(M::clog_acc(c)) + 1e-4930L, 0, 2*(ld)Num<T>::u()*w->norm(), l)) return nullptr;
         if (!M::div(*l, *v0, h)) return nullptr;
      }
      return addR(h, 4*v->R);
   }
   // rewrites log(u)*z/(u-1), computed in any order, whose separate factors lose all accuracy for u near 1
   TP kahan(const std::vector<NP>& num, const NP& dv, int p, bool cx) {
      if (!dv) return nullptr;
      for (size_t i = 0; i < num.size(); ++i) if (num[i] && num[i]->lnarg && um1(dv, num[i]->lnarg) && dv->tm && nonzero(dv)) {
         TP h = loglin(dv->tm); if (!h) return nullptr;
         for (size_t k = 0; k < num.size(); ++k) if (k != i && num[k]) { if (!num[k]->tm) return nullptr; h = M::mul(*h, *num[k]->tm); }
         return addR(h, (cx ? 18 : 5)*u_of(p)*h->maxabs() + 8*dmin_of(p));
      }
      return nullptr;
   }
   NP fmul(const NP& a, const NP& b) { NP n = fmul0(a, b); return track(n, a, b, false); }
   NP fdivide(const NP& a, const NP& b) { NP n = fdivide0(a, b); return track(n, a, b, true); }
   NP track(NP n, const NP& a, const NP& b, bool div) {
      if (!useTM || !vnt.on) return n;
      if (n->cx) { const int p = n->prec; ld l = div ? (magn(*b) > 0 ? minmag(a)/magn(*b) : 0) : minmag(a)*minmag(b); l = l*(1 - 16*u_of(p)) - 16*dmin_of(p); if (l > n->amin) n->amin = l; }
      else { const NP &w = a->which ? a : b, &s = a->which ? b : a; if (w->which && !s->cx && w->prec == s->prec && (!div || w == a)) { NP o = w->owner.lock(); if (o && o->cx) { n->so = o; n->sc = s; n->swh = w->which; n->sdiv = div; } } }
      const bool ql = a->lnarg || b->lnarg || a->f1 || b->f1, qd = div && part(b, false)->vn && b->tm && b->tm->maxabs() < 0.8L;
      if (!ql && !qd) return n;
      NP dv; std::vector<NP> num;
      if (div) { if (b->f1 || (a->f1 && a->dv)) return n; dv = b; if (a->f1) { num.push_back(a->f1); num.push_back(a->f2); } else num.push_back(a); }
      else {
         if ((a->f1 && a->f2) || (b->f1 && b->f2) || (a->dv && b->dv)) return n;
         dv = a->dv ? a->dv : b->dv; num.push_back(a->f1 ? a->f1 : a); num.push_back(b->f1 ? b->f1 : b);
      }
      TP t = kahan(num, dv, n->prec, n->cx);
      if (t) { NP m = n->cx ? mkcx(n->prec, Itv::range(-INFINITY, INFINITY), Itv::range(-INFINITY, INFINITY), t, n->vn, n->vi) : mkre(n->prec, Itv::range(-INFINITY, INFINITY), t, n->vn);
         return m; }
      n->f1 = num[0]; n->f2 = num.size() > 1 ? num[1] : nullptr; n->dv = dv;
      if (!dv && !(n->f1->lnarg || (n->f2 && n->f2->lnarg))) n->f1 = n->f2 = nullptr;
      return n;
   }
   NP fadd(const NP& a, const NP& b, bool sub) {
      ++nops;
      if (a->cx || b->cx) return cadd(a, b, sub);
      const int p = mp(a->prec, b->prec);
      const Itv B = sub ? neg(b->re) : b->re;
      Itv iv = iadd(p, a->re, B);
      nezero(iv, a, b, sub, p);
      if (a == b && sub) { iv = Itv::point(0.0L); iv.nan = a->re.nan || a->re.hasinf(); }
      if (a == b && !sub) { iv.lo = radd(p, a->re.lo, a->re.lo); iv.hi = radd(p, a->re.hi, a->re.hi); }
      TP t = nullptr;
      if (a->tm && b->tm) {
         t = M::add(*a->tm, *b->tm, sub ? -1 : 1);
         if (!sterb(a->re, neg(B))) t = addR(t, u_of(p)*tmmag(t, iv.mag()));
      }
      NP n = mkre(p, iv, t, vadd(p, a->vn, sub ? -b->vn : b->vn));
      link(n, a, b, p); return n;
   }
   // remembers the larger operand of a sum, for "sum did not change" tests
   void link(const NP& n, const NP& a, const NP& b, int p) {
      if (a->prec > p || b->prec > p) return;
      const bool sw = magn(*a) < magn(*b); n->base = sw ? b : a; n->term = sw ? a : b;
      if (n->base->base) { n->base->base = n->base->term = nullptr; } n->term->base = n->term->term = nullptr; }
   NP fneg(const NP& a) {
      if (a->cx) { NP n = mkcx(a->prec, neg(reI(a)), neg(imI(a)), a->tm ? M::neg(*a->tm) : nullptr, -a->vn, -a->vi); if (a->pr) n->pr = fneg(a->pr); if (a->pi) { n->pi = fneg(a->pi); n->pi->whole = n; } return n; }
      return mkre(a->prec, neg(a->re), a->tm ? M::neg(*a->tm) : nullptr, -a->vn);
   }
   NP fmul0(const NP& a, const NP& b) {
      ++nops;
      if (a->cx || b->cx) return cmul(a, b);
      const int p = mp(a->prec, b->prec);
      Itv iv = (a == b) ? isqr(p, a->re) : imul(p, a->re, b->re);
      TP t = nullptr;
      if (a->tm && b->tm) {
         if (pow2(b->re)) t = M::scale2(*a->tm, T(b->re.lo));
         else if (pow2(a->re)) t = M::scale2(*b->tm, T(a->re.lo));
         else t = M::mul(*a->tm, *b->tm);
         const bool ex = pow2(a->re) || pow2(b->re);
         const ld m = tmmag(t, iv.mag());
         const bool z = (a->re.lo == 0 && a->re.hi == 0) || (b->re.lo == 0 && b->re.hi == 0);
         if (!z) {
            const bool under = !(a->re.mig()*b->re.mig() > 4*std::numeric_limits<double>::min()) || p == 24;
            t = addR(t, (ex ? 0 : u_of(p)*m) + (under ? dmin_of(p) : 0)); }
      }
      return mkre(p, iv, t, vmul(p, a->vn, b->vn));
   }
   NP fdivide0(const NP& a, const NP& b) {
      ++nops;
      if (a->cx || b->cx) return cdivide(a, b);
      const int p = mp(a->prec, b->prec);
      Itv iv = idiv(p, a->re, b->re);
      TP t = nullptr;
      if (a->tm && b->tm && !iv.empty()) {
         if (M::div(*a->tm, *b->tm, t)) t = addR(t, (pow2(b->re) ? 0 : u_of(p)*tmmag(t, iv.mag())) + dmin_of(p));
         else t = nullptr;
      }
      return mkre(p, iv, t, vdiv(p, a->vn, b->vn));
   }
   NP cadd(const NP& a, const NP& b, bool sub) {
      const int p = mp(a->prec, b->prec);
      // mixed real/complex operands keep the imaginary part untouched
      NP ar = part(a, false), br = part(b, false);
      Itv ai = imI(a), bi = imI(b);
      Itv re = iadd(p, ar->re, sub ? neg(br->re) : br->re); nezero(re, ar, br, sub, p);
      Itv im; VN vi;
      if (!a->cx) { im = sub ? neg(bi) : bi; vi = sub ? -b->vi : b->vi; }
      else if (!b->cx) { im = ai; vi = a->vi; }
      else { im = iadd(p, ai, sub ? neg(bi) : bi); vi = vadd(p, a->vi, sub ? -b->vi : b->vi); }
      TP t = nullptr;
      if (a->tm && b->tm) {
         t = M::add(*a->tm, *b->tm, sub ? -1 : 1);
         ld er = sterb(ar->re, sub ? br->re : neg(br->re)) ? 0 : re.mag();
         ld ei = (!a->cx || !b->cx || sterb(ai, sub ? bi : neg(bi))) ? 0 : im.mag();
         ld m = std::min(hypotl(er, ei), tmmag(t, INFINITY));
         t = addR(t, u_of(p)*m);
      }
      NP n = mkcx(p, re, im, t, vadd(p, ar->vn, sub ? -br->vn : br->vn), vi);
      link(n, a, b, p); return n;
   }
   static bool zeroI(const Itv& i) { return i.lo == 0 && i.hi == 0 && !i.nan; }
   NP cmul(const NP& a, const NP& b) {
      const int p = mp(a->prec, b->prec);
      const Itv ar = reI(a), br = reI(b), ai = imI(a), bi = imI(b);
      Itv re, im;
      const bool ra = !a->cx, rb = !b->cx;
      if (ra) { re = imul(p, ar, br); im = imul(p, ar, bi); }
      else if (rb) { re = imul(p, ar, br); im = imul(p, ai, br); }
      else if (a == b) { re = isub(p, isqr(p, ar), isqr(p, ai)); im = imul(p, ar, bi); im = iadd(p, im, im); }
      else { re = isub(p, imul(p, ar, br), imul(p, ai, bi)); im = iadd(p, imul(p, ar, bi), imul(p, ai, br)); }
      if (!ra && !rb && (re.nan && im.nan) && (ar.hasinf() || ai.hasinf() || br.hasinf() || bi.hasinf())) { re = Itv::top(); im = Itv::top(); }
      TP t = nullptr;
      if (a->tm && b->tm) {
         t = M::mul(*a->tm, *b->tm);
         ld f;
         const bool axa = ra || zeroI(ai) || zeroI(ar), axb = rb || zeroI(bi) || zeroI(br);
         if ((pow2(ar) && zeroI(ai)) || (pow2(br) && zeroI(bi)) || (pow2(ai) && zeroI(ar)) || (pow2(bi) && zeroI(br))) f = 0;
         else if (axa || axb) f = 1; else f = 2.2360679775L;
         const ld m = std::min(tmmag(t, INFINITY), hypotl(ar.mag(), ai.mag())*hypotl(br.mag(), bi.mag()));
         t = addR(t, f*u_of(p)*m + 4*dmin_of(p));
      }
      VN vr = 0, vi = 0;
      if (vnt.on) {
         if (ra || zeroI(ai)) { vr = vmul(p, a->vn, b->cx ? b->vn : b->vn); vi = vmul(p, a->vn, rb ? vconst(0.0L) : b->vi); }
         else if (rb || zeroI(bi)) { vr = vmul(p, a->vn, b->vn); vi = vmul(p, a->vi, b->vn); }
         else vcop(VCMUL, p, "", {a->vn, a->vi, b->vn, b->vi}, vr, vi);
      }
      return mkcx(p, re, im, t, vr, vi);
   }
   NP cdivide(const NP& a, const NP& b) {
      const int p = mp(a->prec, b->prec);
      const Itv ar = reI(a), br = reI(b), ai = imI(a), bi = imI(b);
      Itv re = Itv::top(), im = Itv::top(); VN vr = 0, vi = 0;
      TP t = nullptr;
      const bool rb = !b->cx || zeroI(bi);
      if (!b->cx) { re = idiv(p, ar, br); im = idiv(p, ai, br); vr = vdiv(p, a->vn, b->vn); vi = vdiv(p, a->vi, b->vn); }
      else {
         const bool fin = !ar.nan && !ai.nan && !br.nan && !bi.nan && !ar.hasinf() && !ai.hasinf() && !br.hasinf() && !bi.hasinf();
         // a component that is always NaN makes both parts NaN: no infinity, no zero divisor to recover from
         const bool inf_ = ar.hasinf() || ai.hasinf() || br.hasinf() || bi.hasinf();
         const bool an = (ar.empty() && ar.nan) || (ai.empty() && ai.nan), bn = (br.empty() && br.nan) || (bi.empty() && bi.nan);
         if (!inf_ && (bn || (an && (br.mig() > 0 || bi.mig() > 0)))) return mkcx(p, Itv::onlynan(), Itv::onlynan(), nullptr, 0, 0);
         // |a/b| and sign information
         if (fin && (br.mig() > 0 || bi.mig() > 0)) {
            const ld mb = hypotl(br.mig(), bi.mig()), ma = hypotl(ar.mag(), ai.mag());
            ld q = ma/mb*(1 + 1e-5L); bool inf = !(q < fmax_of(p));
            re = Itv::range(-q, q); im = Itv::range(-q, q); if (inf) { re.nan = im.nan = true; re.lo = im.lo = -INFINITY; re.hi = im.hi = INFINITY; }
            if (zeroI(bi) && !inf) { re = widen(p, idiv(p, ar, br), 2); im = widen(p, idiv(p, ai, br), 2); re.pz = re.nz = re.lo <= 0 && re.hi >= 0; im.pz = im.nz = im.lo <= 0 && im.hi >= 0; }
            else if (zeroI(ai) && !inf) {
               // x/(c+id) = x c/(c^2+d^2) - i x d/(c^2+d^2): signs
               auto sg = [&](Itv& o, const Itv& x, const Itv& y, bool minus) {
                  const bool pp = (x.canpos() && y.canpos()) || (x.canneg() && y.canneg()), nn = (x.canpos() && y.canneg()) || (x.canneg() && y.canpos());
                  const bool cp = minus ? nn : pp, cn = minus ? pp : nn;
                  if (!cp) { o.hi = 0; o.pz = false; } if (!cn) { o.lo = 0; o.nz = false; } };
               if (!br.zero() && br.mig() > 0) sg(re, ar, br, false);
               if (!bi.zero() && bi.mig() > 0) sg(im, ar, bi, true);
               else if (!bi.zero()) { sg(im, ar, bi, true); }
            }
         }
         if (vnt.on) {
            if (rb) { vr = vdiv(p, a->vn, b->vn); vi = vdiv(p, a->cx ? a->vi : vconst(0.0L), b->vn); }
            else vcop(VCDIV, p, "", {a->vn, a->cx ? a->vi : vconst(0.0L), b->vn, b->vi}, vr, vi);
         }
      }
      if (a->tm && b->tm) {
         if (M::div(*a->tm, *b->tm, t)) t = addR(t, (rb ? 1.42L : 6)*u_of(p)*tmmag(t, INFINITY) + 8*dmin_of(p)); else t = nullptr;
      }
      return mkcx(p, re, im, t, vr, vi);
   }
   NP fcast(const NP& a, int p) {
      if (a->prec == p) return a;
      auto ci = [&](Itv i) { if (!i.empty()) { const bool z0 = i.lo <= 0 && i.hi >= 0; ld l = rnd(p, i.lo), h = rnd(p, i.hi);
            if (l == 0 && i.lo != 0) { if (i.lo < 0) i.nz = true; else i.pz = true; } if (h == 0 && i.hi != 0) { if (i.hi < 0) i.nz = true; else i.pz = true; }
            if (z0) { ld d = dmin_of(a->prec ? a->prec : 64); if (rnd(p, d) == 0) { if (i.hi > 0) i.pz = true; if (i.lo < 0) i.nz = true; } }
            i.lo = l; i.hi = h; } i.canon(p); return i; };
      TP t = a->tm;
      if (a->prec > p || a->prec == 0) t = addR(t, u_of(p)*magn(*a) + dmin_of(p));
      if (a->cx) return mkcx(p, ci(reI(a)), ci(imI(a)), t, a->vn, a->vi);
      if (a->re.singleval() && rnd(p, a->re.lo) == a->re.lo) return mkre(p, a->re, a->tm, a->vn);
      return mkre(p, ci(a->re), t, a->prec && a->prec <= p ? a->vn : (a->vn ? (a->vn < 0 ? -1 : 1)*vnt.get({VCAST, p, vabs(a->vn)}) : 0));
   }
   NP fabsn(const NP& a) {
      Itv r = a->re; if (!r.empty()) { ld l = a->re.mig(), h = a->re.mag(); r.lo = l; r.hi = h; r.pz = a->re.zero(); r.nz = false; }
      TP t = nullptr;
      if (a->tm) { if (a->re.lo >= 0) t = a->tm; else if (a->re.hi <= 0) t = M::neg(*a->tm); }
      VN v = 0; if (a->vn) { if (a->re.lo > 0) v = a->vn; else if (a->re.hi < 0) v = -a->vn; else v = vnt.get({VABS, vabs(a->vn)}); }
      return mkre(a->prec, r, t, v);
   }
   // interval image of a monotone increasing function with k ulps of error
   template<class F> Itv mono(int p, const Itv& x, F f, int k, bool dec = false) {
      Itv r; r.nan = x.nan; if (x.empty()) return r;
      ld a = f(x.lo), b = f(x.hi); if (dec) std::swap(a, b);
      r.lo = a; r.hi = b; r = widen(p, r, k);
      if (r.lo <= 0 && r.hi >= 0) r.pz = r.nz = true; // conservatively; exact cases below
      return r;
   }
   TP tround(TP t, int p, ld ulps, ld imag = INFINITY) { return t ? addR(t, ulps*2*u_of(p)*tmmag(t, imag) + dmin_of(p)) : t; }

   // principal complex logarithm of the enclosure tm of a point with parts re, im
   bool tmclog(const TP& t, const Itv& re, const Itv& im, TP& out) {
      if (!t) return false;
      C z = t->c0(); C g = M::clog_acc(z);
      const T PI = Num<T>::from(M_PIq);
      if (re.lo > 0) {}
      else if (!im.canneg() && !im.empty()) { if (z.re < 0 && (z.im < 0 || (z.im == 0 && g.im < 0))) g.im += 2*PI; }
      else if (!im.canpos() && !im.empty()) { if (z.re < 0 && (z.im > 0 || (z.im == 0 && g.im > 0))) g.im -= 2*PI; }
      else {
         // does the enclosure avoid the negative axis?
         ld a, b, c, d; t->relo(a, b); t->imlo(c, d);
         if (!(a > 0 || c > 0 || d < 0)) return false;
      }
      return M::log(*t, g, out);
   }
   Itv iatan2(int p, const Itv& y, const Itv& x) {
      Itv r; r.nan = x.nan || y.nan; if (x.empty() || y.empty()) return r;
      const ld PI = M_PIl;
      if (x.lo > 0 || (x.lo >= 0 && !x.canneg())) {
         if ((x.lo == 0) && y.zero()) { r.lo = y.lo < 0 ? -PI/2 : 0; r.hi = y.hi > 0 ? PI/2 : 0; }
         else { ld c[4] = {atan2l(y.lo, x.lo), atan2l(y.lo, x.hi), atan2l(y.hi, x.lo), atan2l(y.hi, x.hi)};
            if (std::isinf(y.lo) && std::isinf(x.hi)) c[1] = -PI/2; if (std::isinf(y.hi) && std::isinf(x.hi)) c[3] = PI/2;
            r.lo = std::min(std::min(c[0], c[1]), std::min(c[2], c[3])); r.hi = std::max(std::max(c[0], c[1]), std::max(c[2], c[3])); }
         r.lo = y.lo == 0 ? 0 : r.lo; r.hi = y.hi == 0 ? 0 : r.hi;
      } else if (!y.canneg()) {
         // y in [+0, ..)
         ld lo = INFINITY, hi = -INFINITY;
         for (ld yy : {y.lo, y.hi}) for (ld xx : {x.lo, x.hi}) { ld v = (yy == 0) ? (xx < 0 || (xx == 0 && x.nz) ? PI : 0.0L) : atan2l(yy, xx); lo = std::min(lo, v); hi = std::max(hi, v); }
         if (x.hi >= 0 && (y.lo == 0 )) { lo = std::min(lo, 0.0L); if (x.zero() || x.lo <= 0) hi = std::max(hi, x.lo < 0 || x.nz ? PI : PI/2); }
         if (y.hi == INFINITY && x.hasinf()) { lo = 0; hi = PI; }
         r.lo = lo; r.hi = hi;
      } else if (!y.canpos()) {
         Itv q = iatan2(p, neg(y), x); return neg(q);
      } else { r.lo = -PI; r.hi = PI; }
      const bool z0 = r.lo <= 0 && r.hi >= 0;
      ld l = r.lo, h = r.hi; r = widen(p, r, 1);
      if (l >= 0 && r.lo <= 0) { r.lo = 0; if (l > 0) r.pz = true; }
      if (h <= 0 && r.hi >= 0) { r.hi = 0; if (h < 0) r.nz = true; }
      if (z0) { r.pz = y.canpos(); r.nz = y.canneg(); }
      r.canon(p);
      return r;
   }
   Itv ihypot(int p, const Itv& x, const Itv& y) {
      Itv r; r.nan = x.nan || y.nan; if (x.empty() || y.empty()) return r;
      r.lo = hypotl(x.mig(), y.mig()); r.hi = hypotl(x.mag(), y.mag()); r = widen(p, r, 2); if (r.lo < 0) r.lo = 0; r.pz = r.lo == 0; r.lo = std::max(r.lo, 0.0L);
      if (r.hi > fmax_of(p)) r.hi = INFINITY;
      r.canon(p); return r;
   }
   Itv ilog(int p, const Itv& x, int k = 2) {
      Itv r; r.nan = x.nan || x.lo < 0; if (x.empty()) return r;
      if (x.hi < 0) return r;
      if (x.hi == 0) { if (x.zero()) { r.lo = r.hi = -INFINITY; } return r; }
      r.lo = x.lo <= 0 ? (x.zero() || x.lo < 0 ? -INFINITY : logl(dmin_of(p))) : logl(x.lo); r.hi = logl(x.hi);
      ld l = r.lo, h = r.hi; r = widen(p, r, k); if (l == 0) r.lo = 0; if (h == 0) r.hi = 0;
      if (x.lo <= 1 && x.hi >= 1) { r.pz = true; }
      r.canon(p); return r;
   }

   NP libm1(const std::string& f, int p, const NP& a) {
      ++nops;
      const Itv& x = a->re; TP t = nullptr; Itv r; VN v = vfn(p, f, {a->vn});
      if (x.empty()) return mkre(p, Itv::onlynan(), nullptr, v);
      if (f == "log") {
         r = ilog(p, x);
         if (a->tm && x.lo > 0 && a->tm->minabs() > 0) { C z = a->tm->c0(); if ((z.re > 0 || z.im != 0) && M::log(*a->tm, M::clog_acc(z), t)) t = tround(t, p, 1, r.mag()); else t = nullptr; }
         NP n = mkre(p, r, t, v); n->lnarg = a; if (a->fk == 1) { n->fk = 2; n->hx = a->hx; n->hy = a->hy; } return n;
      }
      if (f == "log1p") {
         r.nan = x.nan || x.lo < -1; if (!x.empty() && x.hi >= -1) { r.lo = x.lo <= -1 ? -INFINITY : log1pl(x.lo); r.hi = log1pl(x.hi); ld l = r.lo, h = r.hi; r = widen(p, r, 2); if (l == 0) r.lo = 0; if (h == 0) r.hi = 0; if (r.lo <= 0 && r.hi >= 0) { r.pz = x.pz; r.nz = x.nz; } }
         if (a->tm && x.lo > -1) { TP h = M::add(*a->tm, *M::constant(C(T(1)))); C z = a->tm->c0(); if (z.re > -1) { T g = Num<T>::log1p(z.re);
               if (M::logint(*a->tm, *h, C(g), 4*(ld)Num<T>::u()*fabsl((ld)g) + 1e-4930L, a->tm->R, (ld)Num<T>::u()*h->norm() + (h->R > a->tm->R ? h->R - a->tm->R : 0), t)) t = tround(t, p, 1, r.mag()); else t = nullptr; } }
         return mkre(p, r, t, v);
      }
      if (f == "exp" || f == "exp2" || f == "expm1") {
         auto g = [&](ld q) { return f == "exp" ? expl(q) : f == "exp2" ? exp2l(q) : expm1l(q); };
         r.nan = x.nan; if (!x.empty()) { r.lo = g(x.lo); r.hi = g(x.hi); const bool zl = r.lo == 0 || rnd(p, r.lo) == 0; r.lo = rnd(p, r.lo); r.hi = rnd(p, r.hi); if (f != "exp2" || x.lo != floorl(x.lo) || !x.singleval()) r = widen(p, r, 2); if (f != "expm1") { if (r.lo < 0 || zl) r.lo = 0; r.pz = r.lo == 0; } else { r.pz = r.nz = r.lo <= 0 && r.hi >= 0; } }
         if (a->tm) { TP b = a->tm; if (f == "exp2") b = M::mul(*b, *M::constant(C(Num<T>::from(M_LN2q)), 1e-20L)); TP e; if (M::exp(*b, e)) { if (f == "expm1") e = M::add(*e, *M::constant(C(T(-1)))); t = tround(e, p, 1, r.mag()); } }
         return mkre(p, r, t, v);
      }
      if (f == "sqrt") {
         r.nan = x.nan || x.lo < 0; if (!x.empty() && x.hi >= 0) { r.lo = x.lo <= 0 ? 0 : rnd(p, sqrtl(x.lo)); r.hi = rnd(p, sqrtl(x.hi)); r.pz = x.pz || (r.lo == 0 && x.lo < 0); r.nz = x.nz; r = widen(p, r, 1); if (r.lo < 0) r.lo = 0; }
         if (a->tm && x.lo > 0) { if (M::sqrt(*a->tm, t)) t = tround(t, p, 0.5L, r.mag()); else t = nullptr; }
         return mkre(p, r, t, v);
      }
      if (f == "sin" || f == "cos") {
         r.nan = x.nan || x.hasinf(); if (!x.empty()) { r.lo = -1; r.hi = 1; r.pz = r.nz = true;
            if (x.mag() < 1e6L) { ld m = (x.lo + x.hi)/2, w = (x.hi - x.lo)/2*(1 + 1e-15L), y = f == "sin" ? sinl(m) : cosl(m); w += 1e-18L;
               if (w < 2) { r.lo = std::max(-1.0L, y - w); r.hi = std::min(1.0L, y + w); r = widen(p, r, 1); r.lo = std::max(r.lo, -1.0L); r.hi = std::min(r.hi, 1.0L); if (x.lo == 0 && x.hi == 0 && f == "sin") { r = x; } else if (f == "sin" && x.lo >= 0 && x.hi <= 3.14L) { r.lo = std::max(r.lo, 0.0L); r.nz = x.nz; r.pz = x.pz; } else r.pz = r.nz = r.lo <= 0 && r.hi >= 0; } } }
         if (a->tm && x.mag() < 1e4L) { TP e; if (M::exp(*M::muli(*a->tm), e)) t = tround(f == "sin" ? M::im(*e) : M::re(*e), p, 1, 1.0L);
            if (t && f == "sin" && x.mag() < 0.5L) { // relative error of sin for small arguments: |sin x| <= |x|
               t = M::im(*e); const ld m = x.mag(); auto q = std::make_shared<M>(*t); q->R = M::up(q->R + 2*u_of(p)*m); 
               if (m < 1e-2L) { // series in the argument, accurate to relative precision
                  TP x2 = M::mul(*a->tm, *a->tm); TP s = M::constant(C(T(1))); T fct = T(1); TP term = M::constant(C(T(1)));
                  for (int k = 1; k <= 12; ++k) { fct = T(2*k)*T(2*k + 1); TP pr = M::mul(*term, *x2); TP dv; M::div(*pr, *M::constant(C(-fct)), dv); term = dv; s = M::add(*s, *term); }
                  s = M::mul(*s, *a->tm); q = std::make_shared<M>(*s); q->R = M::up(q->R + 2*u_of(p)*m + powl(m, 20)*m); }
               t = q; } }
         return mkre(p, r, t, v);
      }
      if (f == "tan" || f == "atan" || f == "asin" || f == "acos" || f == "sinh" || f == "cosh" || f == "tanh" || f == "cbrt" || f == "log2" || f == "log10") {
         if (f == "log2" || f == "log10") { r = ilog(p, x); const ld s = f == "log2" ? 1/M_LN2l : 1/M_LN10l; r.lo *= s*(r.lo < 0 ? 1.0001L : 0.9999L); r.hi *= s*(r.hi < 0 ? 0.9999L : 1.0001L);
            if (a->tm && x.lo > 0) { C z = a->tm->c0(); if (z.re > 0 && M::log(*a->tm, M::clog_acc(C(z.re)), t)) { TP q; M::div(*t, *M::constant(C(Num<T>::from(f == "log2" ? M_LN2q : M_LN10q)), 1e-19L), q); t = tround(q, p, 1, r.mag()); } } }
         else if (f == "atan") { r = Itv::range(atanl(x.lo), atanl(x.hi)); r.nan = x.nan; r = widen(p, r, 1); r.pz = x.pz; r.nz = x.nz;
            if (a->tm) { TP z = M::add(*M::constant(C(T(1))), *M::muli(*a->tm)), l; if (tmclog(z, Itv::point(1.0L), x, l)) t = tround(M::im(*l), p, 1, r.mag()); } }
         else if ((f == "sinh" || f == "cosh" || f == "tanh") && !x.empty()) {
            auto g = [&](ld q) { return f == "sinh" ? sinhl(q) : f == "cosh" ? coshl(q) : tanhl(q); };
            r.nan = x.nan; r.lo = g(x.lo); r.hi = g(x.hi);
            if (f == "cosh") { if (r.lo > r.hi) std::swap(r.lo, r.hi); if (x.lo <= 0 && x.hi >= 0) r.lo = 1; } else { r.pz = x.pz; r.nz = x.nz; }
            r = widen(p, r, 3);
            if (a->tm) { TP e, i; if (M::exp(*a->tm, e) && M::div(*M::constant(C(T(1))), *e, i)) { TP sh = M::scale(*M::add(*e, *i, -1), C(T(0.5L))), ch = M::scale(*M::add(*e, *i), C(T(0.5L))); if (f == "sinh") t = sh; else if (f == "cosh") t = ch; else M::div(*sh, *ch, t); if (t) t = tround(t, p, 2, r.mag()); } } }
         else if (f == "tan") { r = Itv::top(); r.nan = x.nan || x.hasinf(); if (x.zero() && x.lo == x.hi) r = x;
            if (a->tm && x.mag() < 1.57L) { r.lo = tanl(x.lo); r.hi = tanl(x.hi); r.pz = x.pz; r.nz = x.nz; r = widen(p, r, 2); TP e; if (M::exp(*M::muli(*a->tm), e)) { TP q; if (M::div(*M::im(*e), *M::re(*e), q)) t = tround(q, p, 2, r.mag()); } } }
         else if (f == "cbrt" && !x.empty()) { r.nan = x.nan; r.lo = cbrtl(x.lo); r.hi = cbrtl(x.hi); r.pz = x.pz; r.nz = x.nz; r = widen(p, r, 2); }
         else r = Itv::top();
         return mkre(p, r, t, v);
      }
      if (f == "fabs") return fabsn(a);
      if (f == "floor" || f == "ceil" || f == "trunc" || f == "round" || f == "rint" || f == "nearbyint") {
         auto g = [&](ld q) { return f == "floor" ? floorl(q) : f == "ceil" ? ceill(q) : f == "trunc" ? truncl(q) : f == "round" ? roundl(q) : rintl(q); };
         r.nan = x.nan; if (!x.empty()) { r.lo = g(x.lo); r.hi = g(x.hi); r.pz = r.nz = r.lo <= 0 && r.hi >= 0; }
         if (!r.empty() && r.lo == r.hi) { r.nz = r.nz && x.canneg(); r.pz = r.pz && x.canpos(); }
         return mkre(p, r, nullptr, v);
      }
      if (f == "tgamma") {
         if (x.singleval() && x.lo > 0 && x.lo < 1760) { ld g = tgammal(x.lo); if (g > fmax_of(p)) { r.lo = r.hi = INFINITY; return mkre(p, r, nullptr, v); } const ld e = x.lo == floorl(x.lo) && x.lo <= 23 && p == 53 ? 0 : 12; r.lo = g*(1 - e*2*u_of(p) - 1e-18L); r.hi = g*(1 + e*2*u_of(p) + 1e-18L); if (e == 0) { r.lo = r.hi = rnd(p, g); }
            if (!(g*(1 + e*2*u_of(p)) < fmax_of(p))) r.hi = INFINITY;
            t = M::constant(C(T(g)), g*(e*2*u_of(p) + 1e-18L)); return mkre(p, r, t, v); }
         if (!x.empty() && !x.nan && x.lo > 172 && p == 53) { r.lo = r.hi = INFINITY; return mkre(p, r, nullptr, v); }
         if (!x.empty() && x.lo >= 1) { r.lo = 0.88L; r.hi = INFINITY; r.nan = x.nan; return mkre(p, r, nullptr, v); }
         return mkre(p, Itv::top(), nullptr, v);
      }
      throw Unproven("no model of library function " + f);
   }
   NP fpowi(const NP& a, i128 n, int p, ld ulps, VN v) { // a^n with ulps error (value domain)
      const Itv& x = a->re; Itv r; r.nan = x.nan; TP t = nullptr;
      if (n == 0) return cst(1.0L, p);
      if (!x.empty()) {
         const bool odd = n & 1; const ld e = (ld)n;
         auto pw = [&](ld b) { return powl(b, e); };
         if (x.lo > 0 || (x.lo >= 0 && !x.canneg())) { ld A = pw(x.lo), B = pw(x.hi); r.lo = std::min(A, B); r.hi = std::max(A, B); }
         else if (x.hi < 0) { ld A = pw(x.lo), B = pw(x.hi); r.lo = std::min(A, B); r.hi = std::max(A, B); }
         else if (n > 0) { ld A = pw(x.lo), B = pw(x.hi); if (odd) { r.lo = A; r.hi = B; } else { r.lo = 0; r.hi = std::max(A, B); } }
         else { r = Itv::top(); r.nan = x.nan; }
         bool wasz = rnd(p, r.lo) == 0 && rnd(p, r.hi) == 0;
         const bool ex = r.lo == r.hi && fabsl(r.lo) < 0x1p20L && r.lo == floorl(r.lo) && x.singleval();
         r.lo = rnd(p, r.lo); r.hi = rnd(p, r.hi);
         if (!ex) r = widen(p, r, (int)std::min((ld)200, ceill(ulps)));
         (void)wasz;
         if (r.lo <= 0 && r.hi >= 0) { r.pz = true; r.nz = odd && x.canneg(); if (!odd || !x.canneg()) r.lo = std::max(r.lo, 0.0L); if (odd && !x.canpos()) { r.pz = false; r.hi = std::min(r.hi, 0.0L); } }
      }
      if (a->tm) {
         i128 m = n < 0 ? -n : n; TP q;
         if (m <= 4096) { if (M::powi(*a->tm, (unsigned long)m, q)) { if (n < 0) { TP w; if (M::div(*M::constant(C(T(1))), *q, w)) t = w; } else t = q; } }
         else if (x.lo > 0) { TP l; if (M::log(*a->tm, M::clog_acc(C(a->tm->c0().re)), l)) { TP s = M::scale(*l, C(T((ld)n))); TP e; if (M::exp(*s, e)) t = e; } }
         if (t) t = tround(t, p, ulps, r.mag());
      }
      return mkre(p, r, t, v);
   }
   NP libm2(const std::string& f, int p, const NP& a, const NP& b) {
      ++nops;
      const Itv &x = a->re, &y = b->re; Itv r; TP t = nullptr; VN v = vfn(p, f, {a->vn, b->vn});
      if ((f == "atan2" && (x.empty() || y.empty())) || (f == "hypot" && ((x.empty() && !y.hasinf()) || (y.empty() && !x.hasinf())))) return mkre(p, Itv::onlynan(), nullptr, v);
      if (f == "atan2") {
         if (zeroI(x) && !y.nan && !y.empty() && y.hi < 0 && x.pz != x.nz) { const ld q = rnd(p, M_PIl)*(x.nz ? -1 : 1); return mkre(p, Itv::point(q), nullptr, v); }
         r = iatan2(p, x, y); // atan2(a,b): a = ordinate
         if (a->tm && b->tm) { TP z = zeroI(x) ? b->tm : M::add(*b->tm, *M::muli(*a->tm)); TP l;
            if (tmclog(z, y, x, l)) t = tround(M::im(*l), p, 1, r.mag()); }
         NP n = mkre(p, r, t, v); n->fk = 3; n->hy = a; n->hx = b; return n;
      }
      if (f == "hypot") {
         auto zc = [&](const NP& n) { return zeroI(n->re) && (TMConf::oneD || !n->tm || n->tm->tailnorm() <= n->tm->R); }; // (not when pinned by a test)
         if (zc(b)) return fabsn(a);
         if (zc(a)) return fabsn(b);
         r = ihypot(p, x, y);
         if (a->tm && b->tm) { const ld m = std::max(a->tm->maxabs(), b->tm->maxabs()); const int e = m > 0 && std::isfinite(m) ? ilogbl(m) : 0; const bool sc = abs(e) > 2000 ;
            TP A = sc ? M::scale2(*a->tm, T(ldexpl(1, -e))) : a->tm, B = sc ? M::scale2(*b->tm, T(ldexpl(1, -e))) : b->tm;
            TP s = M::add(*M::mul(*A, *A), *M::mul(*B, *B)); if (s->minabs() > 0 && M::sqrt(*s, t)) { if (sc) t = M::scale2(*t, T(ldexpl(1, e))); t = tround(t, p, 1, r.mag()); } else t = nullptr; }
         NP n = mkre(p, r, t, v); n->fk = 1; n->hx = a; n->hy = b; return n;
      }
      if (f == "fmod") {
         r.nan = x.nan || y.nan || x.hasinf() || y.zero();
         if (x.empty() || y.empty() || (x.lo == x.hi && std::isinf(x.lo))) return mkre(p, Itv::onlynan(), nullptr, v);
         if (!x.empty() && !y.empty() && y.singleval() && y.lo > 0 && std::isfinite(y.lo)) {
            const ld m = y.lo; const bool fin = std::isfinite(x.lo) && std::isfinite(x.hi);
            ld q1 = fin ? x.lo/m : 0, q2 = fin ? x.hi/m : 0;
            bool same = false;
            if (fin && fabsl(q1) < 1e9L && fabsl(q2) < 1e9L && x.lo >= 0) {
               // exact: fmodl is exact in long double
               ld a1 = fmodl(x.lo, m), a2 = fmodl(x.hi, m);
               ld k1 = roundl((x.lo - a1)/m), k2 = roundl((x.hi - a2)/m);
               if (k1 == k2) { same = true; r.lo = a1; r.hi = a2; r.pz = a1 == 0; if (a->tm) t = M::add(*a->tm, *M::mul(*M::constant(C(T(m))), *M::constant(C(T(k1)))), -1); if (k1 == 0) { r.pz = x.pz; r.nz = x.nz; if (a->vn) v = a->vn; } }
            }
            if (!same) { r.lo = x.canneg() ? -m : 0; r.hi = x.canpos() ? m : 0; if (r.lo < 0) r.lo = nextup(p, r.lo); if (r.hi > 0) r.hi = nextdn(p, r.hi); r.pz = x.canpos(); r.nz = x.canneg(); }
            if (!same && fmodsplit > 1) { // partition of the remainder
               for (int k = fmodsplit; k > 1; k = (k + 1)/2) {
                  Itv q = r; const ld md = rnd(p, (r.lo + r.hi)/2); if (!(r.lo < md && md < r.hi)) break;
                  if (decide(Tri{true, true}, nullptr)) q.hi = md; else q.lo = md;
                  q.pz = q.pz && q.lo <= 0 && q.hi >= 0; q.nz = q.nz && q.lo <= 0 && q.hi >= 0; r = q;
               } }
         } else { r = Itv::top(); }
         return mkre(p, r, t, v);
      }
      if (f == "pow") {
         if (y.singleval() && y.lo == floorl(y.lo) && fabsl(y.lo) < 9.3e18L) return fpowi(a, (i128)y.lo, p, 1, v);
         if (y.singleval() && y.lo == 0.5L) { NP s = libm1("sqrt", p, a); return mkre(p, widen(p, s->re, 1), s->tm ? tround(s->tm, p, 1) : nullptr, v); }
         r.nan = x.nan || y.nan;
         if ((x.empty() && !y.empty() && !y.zero()) || (y.empty() && !x.empty() && (x.lo > 1 || x.hi < 1)) || (x.empty() && y.empty())) return mkre(p, Itv::onlynan(), nullptr, v);
         if (x.lo >= 0 && !x.canneg() && !x.empty() && !y.empty()) {
            ld lo = INFINITY, hi = -INFINITY; for (ld q : {x.lo, x.hi}) for (ld w : {y.lo, y.hi}) { ld z = powl(q, w); lo = std::min(lo, z); hi = std::max(hi, z); }
            if (x.lo < 1 && x.hi > 1) { lo = std::min(lo, 1.0L); hi = std::max(hi, 1.0L); }
            if (y.lo < 0 && y.hi > 0) { lo = std::min(lo, 1.0L); hi = std::max(hi, 1.0L); }
            r.lo = rnd(p, lo); r.hi = rnd(p, hi); r = widen(p, r, 2); if (r.lo <= 0) { r.lo = 0; r.pz = true; }
            if (a->tm && b->tm && x.lo > 0) { TP l, e; if (M::log(*a->tm, M::clog_acc(C(a->tm->c0().re)), l)) { TP s = M::mul(*l, *b->tm); if (M::exp(*s, e)) t = tround(e, p, 1, r.mag()); } }
            if (useTM && !t && x.singleval() && !r.nan && std::isfinite(r.lo) && std::isfinite(r.hi)) t = M::constant(C(T((r.lo + r.hi)/2)), (r.hi - r.lo)*0.5001L);
         } else r = Itv::top();
         return mkre(p, r, t, v);
      }
      if (f == "copysign") {
         NP m = fabsn(a);
         if (!y.nan && !y.canneg()) return m;
         if (!y.nan && !y.canpos()) return fneg(m);
         r = uni(m->re, neg(m->re)); return mkre(p, r, nullptr, 0);
      }
      if (f == "fmin" || f == "fmax") {
         Tri c = ile(x, y); if (!x.nan && !y.nan) { if (c.t && !c.f) return f == "fmin" ? a : b; if (!c.t) return f == "fmin" ? b : a; }
         r = uni(x, y); if (!x.empty() && !y.empty()) { if (f == "fmin") { r.hi = (x.nan ? y.hi : y.nan ? x.hi : std::min(x.hi, y.hi)); if (x.nan || y.nan) r.hi = std::max(x.hi, y.hi); } else { if (!x.nan && !y.nan) r.lo = std::max(x.lo, y.lo); } }
         r.nan = x.nan && y.nan; return mkre(p, r, nullptr, v);
      }
      if (f == "ldexp" || f == "scalbn") throw Unproven("ldexp");
      throw Unproven("no model of library function " + f);
   }
   NP libmc(const std::string& f, int p, const NP& z) {
      ++nops;
      const Itv re = reI(z), im = imI(z); TP t = nullptr; VN vr = 0, vi = 0;
      const VN zi = z->cx ? z->vi : vconst(0.0L);
      if (f == "clog") {
         Itv lr = ilog(p, ihypot(p, re, im), 6), li = iatan2(p, im, re);
         li = widen(p, li, 3); lr.pz = lr.nz = lr.lo <= 0 && lr.hi >= 0;
         if (vnt.on && z->vn && zi) { VN h = vfn(p, "hypot", {z->vn, zi}); vr = vfn(p, "clogre", {h}); vi = vfn(p, "atan2", {zi, z->vn}); }
         if (z->tm) { TP l; if (tmclog(z->tm, re, im, l)) t = tround(l, p, 3); }
         NP n = mkcx(p, lr, li, t, vr, vi); n->lnarg = z; return n;
      }
      if (f == "csqrt") {
         ld m = sqrtl(ihypot(p, re, im).hi); Itv a = Itv::range(0, m*1.000001L), b = Itv::range(-m*1.000001L, m*1.000001L); a.nan = b.nan = re.nan || im.nan; a.nz = false;
         if (re.hasinf() || im.hasinf()) { a.hi = INFINITY; b.lo = -INFINITY; b.hi = INFINITY; a.nan = b.nan = true; }
         if (!im.canneg()) { b.lo = 0; b.nz = false; } if (!im.canpos()) { b.hi = 0; b.pz = false; }
         if (zeroI(im) && re.lo > 0) { b = im; a.lo = sqrtl(re.lo)*0.999999L; }
         if (zeroI(im) && re.hi < 0) { a = Itv::point(0.0L); }
         if (z->tm) { TP s; ld l0, h0; z->tm->relo(l0, h0); C c = z->tm->c0(); bool flip = false, ok = true;
            if (re.lo > 0) {} else if (!im.canneg()) flip = c.re < 0 && c.im < 0; else if (!im.canpos()) flip = c.re < 0 && c.im >= 0; else ok = false;
            if (ok && M::sqrt(*z->tm, s)) { if (flip) s = M::neg(*s); t = tround(s, p, 3); } }
         if (vnt.on) vcop(VCFN, p, f, {z->vn, zi}, vr, vi);
         return mkcx(p, a, b, t, vr, vi);
      }
      if (f == "cexp") {
         NP e = libm1("exp", p, part(z, false)), c = libm1("cos", p, part(z, true)), s = libm1("sin", p, part(z, true));
         NP a = fmul(e, c), b = fmul(e, s); TP q; if (z->tm && M::exp(*z->tm, q)) t = tround(q, p, 3);
         if (vnt.on) vcop(VCFN, p, f, {z->vn, zi}, vr, vi);
         return mkcx(p, a->re, b->re, t, vr, vi);
      }
      throw Unproven("no model of library function " + f);
   }
   // exact interval images of <complex> style powers are left to their bodies

   // -------- comparisons and branching
   // one of a, b is the sum of the other one (c) and a value o
   static const Node* linked(const NP& a, const NP& b, NP& c, NP& o) {
      if (a->base && a->base == b) { c = b; o = a->term; return a.get(); }
      if (a->term && a->term == b) { c = b; o = a->base; return a.get(); }
      if (b->base && b->base == a) { c = a; o = b->term; return b.get(); }
      if (b->term && b->term == a) { c = a; o = b->base; return b.get(); }
      return nullptr; }
   // both parts of a complex sum equal those of an operand: the other operand is negligible
   void eqpart(const NP& a, const NP& b) {
      NP c, o; const Node* n = linked(a, b, c, o); if (!n || !n->which) return;
      NP w = n->owner.lock(); if (!w || !w->base || !n->prec) return;
      note(w); w->eqm |= n->which; if (w->eqm != 3) return;
      NP cw, ow; if (c->which && (w->base == c->owner.lock())) { cw = w->base; ow = w->term; } else if (c->which && w->term == c->owner.lock()) { cw = w->term; ow = w->base; } else return;
      const ld u = u_of(n->prec);
      if (minmag(ow) > 1.5L*u*magn(*cw) + 4*dmin_of(n->prec)) throw Infeasible();
   }
   Tri feq(const NP& a, const NP& b) {
      Tri r = ieq(a->re, b->re);
      NP c, o; const Node* n = linked(a, b, c, o);
      if (n && n->prec) { // n = c (+) o rounded; n == c iff o is negligible
         const Itv &x = c->re, &d = o->re; const ld u = u_of(n->prec);
         if (!x.nan && !d.nan && !x.empty() && !d.empty()) {
            if (d.mag() <= u/4*x.mig() && !x.hasinf()) return {true, false};
            if (d.mig() > u*x.mag() && d.mig() > 2*dmin_of(n->prec)) r.t = false;
            if (x.mag() == 0 && d.mag() == 0) return {true, false};
         }
      }
      return r;
   }
   Tri fcmp(const std::string& op, const NP& a, const NP& b) {
      if (a->cx || b->cx) {
         Tri x = feq(part(a, false), part(b, false)), y = feq(part(a, true), part(b, true));
         Tri e{x.t && y.t, x.f || y.f};
         if (op == "==") return e; if (op == "!=") return Tri{e.f, e.t};
         throw Unproven("complex comparison " + op);
      }
      const Itv &x = a->re, &y = b->re;
      if (a == b && !x.empty()) { bool le = op == "<=" || op == ">=" || op == "==" || op == "u<=" || op == "u>="; if (!x.nan) { if (le) return {true, false}; if (op == "<" || op == ">" || op == "!=" ) return {false, true}; } }
      const bool un = x.nan || y.nan, od = !x.empty() && !y.empty();
      auto flip = [](Tri r) { return Tri{r.f, r.t}; };
      if (op == "<") return ilt(x, y);
      if (op == ">") return ilt(y, x);
      if (op == "<=") return ile(x, y);
      if (op == ">=") return ile(y, x);
      if (op == "==") return feq(a, b);
      if (op == "!=") return flip(feq(a, b));
      if (op == "u<") return flip(ile(y, x));
      if (op == "u>") return flip(ile(x, y));
      if (op == "u<=") return flip(ilt(y, x));
      if (op == "u>=") return flip(ilt(x, y));
      if (op == "unord") return {un, od};
      if (op == "ord") return {od, un};
      if (op == "<>") { Tri l = ilt(x, y), g = ilt(y, x); return {l.t || g.t, un || ieq(x, y).t}; }
      if (op == "u==") { Tri e = ieq(x, y); return {e.t || un, e.f && !(!od)}; }
      throw Unproven("compare " + op);
   }
   // 1D mode: the parameter range consistent with the decisions taken so far
   T zlo = -1, zhi = 1; bool zpoint = false;
   void narrow(const NP& n) {
      if (!TMConf::oneD || !n->tm || n->cx || n->tm->deg == 0 || n->re.nan || n->re.empty()) return;
      const M& t = *n->tm; if (!std::isfinite(n->re.lo) && !std::isfinite(n->re.hi)) return;
      for (int it = 0; it < 4; ++it) {
         const T m = (zlo + zhi)/2, h = (zhi - zlo)/2;
         T v = 0, d = 0; for (int k = t.deg; k >= 0; --k) { d = d*m + v; v = v*m + t.c[k].re; }
         // derivative range: d + [-s, s]
         T s = 0, pw = 1; for (int k = 2; k <= t.deg; ++k) { s += T(k)*T(k - 1)*Num<T>::abs(t.c[k].re)*pw; } s = s*h; (void)pw;
         const T R = T(t.R) + Num<T>::u()*T(t.norm()*4);
         const T l = T(n->re.lo) - v - R, u = T(n->re.hi) - v + R; // v + D*(z-m) in [re.lo - R, re.hi + R]
         T dl = d - s, du = d + s; if (!(dl > 0 || du < 0)) return;
         if (du < 0) { T a = -du, b = -dl; T q0 = (-u) < 0 ? (-u)/a : (-u)/b, q1 = (-l) < 0 ? (-l)/b : (-l)/a; // negated slope
            q0 = std::isfinite(n->re.hi) ? q0 : -h; q1 = std::isfinite(n->re.lo) ? q1 : h;
            if (m + q0 > zlo) zlo = m + q0; if (m + q1 < zhi) zhi = m + q1; }
         else { T q0 = l < 0 ? l/dl : l/du, q1 = u < 0 ? u/du : u/dl; q0 = std::isfinite(n->re.lo) ? q0 : -h; q1 = std::isfinite(n->re.hi) ? q1 : h;
            if (m + q0 > zlo) zlo = m + q0; if (m + q1 < zhi) zhi = m + q1; }
         if (zlo > zhi) { if (zlo - zhi < T(1e-25L)) { T k = zlo; zlo = zhi; zhi = k; return; } throw Infeasible(); }
         if (zhi - zlo > h*T(1.2L)) return;
      }
   }
   // undo log and write barrier of local explorations
   struct Undo { NP n; Itv re; TP tm; std::weak_ptr<Node> whole; bool hasne; ld ne; int eqm; };
   std::vector<Undo>* undo = nullptr; size_t heapmark = 0; bool onlylinked = false; struct JoinFail {}; struct SnapFail {};
   void note(const NP& n) { if (undo) undo->push_back({n, n->re, n->tm, n->whole, n->hasne, n->ne, n->eqm}); }
   void setI(const NP& n, Itv i) { note(n); i.canon(n->prec ? n->prec : 64); n->re = i; if (i.none()) throw Infeasible(); narrow(n); realize(n); }
   void refine(const Cond& c0, bool truth) {
      std::string op = c0.op; NP a = c0.a, b = c0.b; if (c0.neg) truth = !truth;
      if (a->cx || b->cx) return;
      static const std::map<std::string, std::string> ng = {{"<", "u>="}, {">", "u<="}, {"<=", "u>"}, {">=", "u<"}, {"==", "!="}, {"!=", "=="}, {"u<", ">="}, {"u>", "<="}, {"u<=", ">"}, {"u>=", "<"}, {"unord", "ord"}, {"ord", "unord"}};
      if (!truth) { auto i = ng.find(op); if (i == ng.end()) return; op = i->second; }
      Itv x = a->re, y = b->re; const int p = mp(a->prec, b->prec) ? mp(a->prec, b->prec) : 64;
      const bool unord_ok = op[0] == 'u' || op == "!=";
      if (op == "ord") { x.nan = y.nan = false; setI(a, x); if (a != b) setI(b, y); return; }
      if (op == "unord") { if (!y.nan) { x.lo = 1; x.hi = -1; setI(a, x); } else if (!x.nan) { y.lo = 1; y.hi = -1; setI(b, y); } return; }
      if (unord_ok && (x.nan || y.nan)) { return; }
      if (!unord_ok) { x.nan = y.nan = false; }
      std::string q = op[0] == 'u' ? op.substr(1) : op;
      auto less = [&](Itv& s, Itv& l, bool strict) { // s < l
         if (s.empty() || l.empty()) return;
         ld h = l.hi; if (strict && std::isfinite(h)) h = nextdn(p, h); if (strict && h == INFINITY) h = fmax_of(p);
         if (strict && l.hi == 0) { s.pz = s.nz = false; }
         if (s.hi > h) s.hi = h;
         ld lo = s.lo; if (strict && std::isfinite(lo)) lo = nextup(p, lo); if (strict && lo == -INFINITY) lo = -fmax_of(p);
         if (strict && s.lo == 0) { l.pz = l.nz = false; }
         if (l.lo < lo) l.lo = lo;
      };
      if (q == "<") less(x, y, true); else if (q == "<=") less(x, y, false); else if (q == ">") less(y, x, true); else if (q == ">=") less(y, x, false);
      else if (q == "==") { ld l = std::max(x.lo, y.lo), h = std::min(x.hi, y.hi); x.lo = y.lo = l; x.hi = y.hi = h; if (l == 0 && h == 0) {} }
      else if (q == "!=") { auto ex = [&](Itv& s, const Itv& o) { if (o.singleval()) { if (o.lo == 0) { s.pz = s.nz = false; } else { if (s.lo == o.lo) s.lo = nextup(p, s.lo); if (s.hi == o.lo) s.hi = nextdn(p, s.hi); } } }; Itv x0 = x; ex(x, y); ex(y, x0);
         note(a); note(b); if (y.singleval()) { a->hasne = true; a->ne = y.lo; } else if (x0.singleval()) { b->hasne = true; b->ne = x0.lo; } }
      else return;
      setI(a, x); if (a != b) setI(b, y);
   }
   VN condvn(const std::string& op0, const NP& a, const NP& b, bool& neg) {
      if (!vnt.on || a->cx || b->cx || !a->vn || !b->vn) return 0;
      std::string op = op0; VN x = a->vn, y = b->vn; neg = false;
      if (op == "unord" || op == "ord") { neg = op == "ord"; x = vabs(x); y = vabs(y); if (x > y) std::swap(x, y); return vnt.get({VCMP, 9, x, y}); }
      if (op == "!=") { op = "=="; neg = true; }
      if (op == "u<") { op = ">="; neg = true; } else if (op == "u>") { op = "<="; neg = true; } else if (op == "u<=") { op = ">"; neg = true; } else if (op == "u>=") { op = "<"; neg = true; }
      // a < b  <=> -b < -a ; normalise to < and <= with canonical sides
      int k;
      if (op == ">") { std::swap(x, y); op = "<"; } else if (op == ">=") { std::swap(x, y); op = "<="; }
      if (op == "==") { if (x < 0 || (vabs(x) > vabs(y) && false)) { x = -x; y = -y; } if (vzero(x) ) { y = vabs(y); x = vabs(x); } if (vzero(y)) { x = vabs(x); y = vabs(y); } if (x > y) std::swap(x, y); k = 0; }
      else { k = op == "<" ? 1 : 2; // candidates (x,y) and (-y,-x)
         if (vzero(x)) x = vabs(x); if (vzero(y)) y = vabs(y);
         VN x2 = vzero(y) ? y : -y, y2 = vzero(x) ? x : -x; if (std::make_pair(x2, y2) < std::make_pair(x, y)) { x = x2; y = y2; } }
      return vnt.get({VCMP, k, x, y});
   }
   bool decide(const Tri& t, const std::function<void(bool)>& ref, VN cvn = 0, bool cneg = false) {
      if (t.t && !t.f) return true;
      if (t.f && !t.t) return false;
      if (!t.t && !t.f) throw Infeasible();
      if (onlylinked && !lastlinked) throw JoinFail();
      if (snaps) throw SnapFail();
      bool d;
      if (cvn) { auto i = fixedcond.find(cvn); if (i == fixedcond.end()) i = condlog.find(cvn); else condlog[cvn] = i->second;
         if (i != fixedcond.end() && i != condlog.end()) { d = i->second != cneg; if (ref) ref(d); return d; } }
      if (pos < script.size()) d = script[pos]; else { d = true; script.push_back(true); }
      ++pos;
      trace.push_back(curloc + (d ? ":T" : ":F"));
      if (cvn) condlog[cvn] = (d != cneg);
      if (ref) ref(d);
      return d;
   }

   // ------------------------------------------------------------ memory
   Obj& obj(int i) { return heap.at(i); }
   int newobj(const std::string& n) { heap.emplace_back(); heap.back().name = n; return heap.size() - 1; }

   struct Frame { const Fn* f; std::vector<Value> ssa; std::vector<int> objs; };
   int frobj(Frame& fr, int id) {
      if ((int)fr.objs.size() <= id) fr.objs.resize(id + 1, -1);
      if (fr.objs[id] >= 0) return fr.objs[id];
      const std::string& nm = fr.f->objname[id];
      auto l = fr.f->objlocal.find(id);
      std::string base = nm; auto q = base.find("D."); if (q != std::string::npos && q > 0) base = base.substr(0, q);
      if (l != fr.f->objlocal.end()) {
         const Local& L = fr.f->locals[l->second];
         if (L.hastab) { int o = newobj(nm); heap[o].tab = &L.tab; heap[o].ety = L.ty; heap[o].dims = pdims(L.dims); heap[o].cnst = L.cnst; heap[o].global = true; if (!L.cnst) event("static-mutable", "use of mutable static object " + nm); return fr.objs[id] = o; }
         if (L.stat) { event("static-mutable", "use of mutable static object " + nm); int o = newobj(nm); heap[o].global = true; heap[o].ety = L.ty; return fr.objs[id] = o; }
         int o = newobj(nm); heap[o].ety = L.ty; heap[o].dims = pdims(L.dims);
         return fr.objs[id] = o;
      }
      for (size_t i = 0; i < fr.f->pobj.size(); ++i) if (fr.f->pobj[i] == id) { int o = newobj(nm); heap[o].ety = fr.f->params[i].second; return fr.objs[id] = o; }
      if (nm == "<retval>") { int o = newobj(nm); return fr.objs[id] = o; }
      // global data
      auto g = globals_.find({fr.f->tu, base});
      if (g != globals_.end()) return fr.objs[id] = g->second;
      auto d = P->data.find(fr.f->tu + "::" + base);
      if (d == P->data.end()) { auto k = P->dataname.find(base); if (k != P->dataname.end()) d = P->data.find(k->second + "::" + base); }
      int o = newobj(base); heap[o].global = true;
      if (d != P->data.end()) { heap[o].data = &d->second; heap[o].dims = d->second.dims; heap[o].cnst = d->second.ro(); if (!d->second.ro()) event("global-mutable", "use of mutable global " + base); }
      else heap[o].name = "?" + base;
      globals_[{fr.f->tu, base}] = o;
      return fr.objs[id] = o;
   }
   static std::vector<int> pdims(const std::string& s) { std::vector<int> d; int v = 0; bool in = false; for (char c : s) { if (c == '[') { v = 0; in = true; } else if (c == ']') { if (in) d.push_back(v); in = false; } else if (in && isdigit(c)) v = v*10 + (c - '0'); } return d; }

   // path keys: fields are negative (-2-field), array indices nonnegative; -1000001/-1000002 real/imag part
   enum { KRE = -1000001, KIM = -1000002 };
   static bool dropfield(int f) { const std::string& s = g_fields.v[f]; return s == "_M_value" || s == "_M_elems"; }
   struct Loc { int obj; Key key; std::vector<std::pair<i128, i128>> rng; bool exact = true; Ty want = T_ANY; long boff = 0; };
   Loc resolve(Frame& fr, const Ref& r) {
      Loc L;
      if (r.k == 'm') L.obj = frobj(fr, r.id);
      else if (r.k == 'd') {
         Value& v = fr.ssa.at(r.id); if (v.k != Value::PTR) throw Unproven("dereference of unknown pointer " + r.name);
         L.obj = v.obj; L.key = v.key; L.boff = v.boff;
      } else throw Unproven("bad reference");
      for (const auto& e : r.path) {
         if (L.boff && e.k != 'o') settle(L, e.k == 'p' || e.k == 'i' ? T_ANY : heap[L.obj].ety);
         if (e.k == 'f') { if (!dropfield(e.field)) L.key.push_back(-2 - e.field); }
         else if (e.k == 'p') L.key.push_back(e.im ? KIM : KRE);
         else if (e.k == 'i') {
            Value v = eval(fr, *e.idx); if (v.k != Value::INT) throw Unproven("array index");
            const Obj& o = heap[L.obj];
            // bounds, where the extent of this dimension is known
            size_t dim = 0; for (int k : L.key) if (k >= 0) ++dim;
            if (r.k == 'd' && &e == &r.path[0] && dim > 0 && L.key.back() >= 0 && (o.dims.empty() ? o.data && dim == 1 : dim == o.dims.size())) { // pointer to an element, indexed as an array
               v.lo += L.key.back(); v.hi += L.key.back(); L.key.pop_back(); --dim; }
            i128 ext = -1;
            if (dim < o.dims.size()) ext = o.dims[dim];
            else if (o.data && dim == 0 && o.dims.empty() && o.ety != T_ANY && ty_size(o.ety)) ext = o.data->b.size()/ty_size(o.ety);
            if (ext >= 0 && (v.lo < 0 || v.hi >= ext)) {
               event("oob", "index range [" + i2s(v.lo) + ", " + i2s(v.hi) + "] exceeds array " + o.name + " of extent " + i2s(ext), v.hi < 0 || v.lo >= ext);
               v.lo = std::max(v.lo, (i128)0); v.hi = std::min(v.hi, ext - 1); if (v.lo > v.hi) throw Infeasible();
            }
            sites("index");
            if (v.lo != v.hi) { L.exact = false; L.rng.push_back({v.lo, v.hi}); L.key.push_back(-1000003); }
            else { if (v.lo > 2000000000 || v.lo < 0) { event("oob", "index " + i2s(v.lo) + " into " + o.name); throw Infeasible(); } L.key.push_back((int)v.lo); }
         } else if (e.k == 'o') {
            L.want = e.ty; if (L.boff) settle(L, e.ty);
            if (e.off != 0) {
               const int es = ty_size(e.ty);
               const Obj& o = heap[L.obj];
               if (!L.key.empty() && L.key.back() >= 0 && es && e.off % es == 0) L.key.back() += e.off/es;
               else if (is_flt(e.ty) && e.off == es) L.key.push_back(KIM);
               else if (!o.dims.empty() && es && e.off % es == 0) L.key.push_back(e.off/es);
               else throw Unproven("memory offset");
            }
         }
      }
      return L;
   }
   void sites(const char* k) { if (collect_sites) sites_seen.insert(std::string(k) + "@" + curfn + "@" + curloc); }
   Value cvalue(ld v, Ty t) { if (is_int(t)) return mkint((i128)v, t); return fv(cst(v, prec_of(t) ? prec_of(t) : 0), t); }
   static ld rdval(const std::vector<uint8_t>& b, size_t off, Ty t) {
      if (off + (t == T_F80 ? 10 : ty_size(t)) > b.size()) throw Unproven("read past constant data");
      switch (t) { case T_F32: { float f; memcpy(&f, &b[off], 4); return f; } case T_F64: { double f; memcpy(&f, &b[off], 8); return f; }
         case T_F80: { ld f = 0; memcpy(&f, &b[off], 10); return f; } case T_I32: { int32_t v; memcpy(&v, &b[off], 4); return v; } case T_I64: { int64_t v; memcpy(&v, &b[off], 8); return v; }
         case T_U32: { uint32_t v; memcpy(&v, &b[off], 4); return v; } case T_U64: { uint64_t v; memcpy(&v, &b[off], 8); return v; } case T_U8: case T_B: return b[off]; case T_I8: return (int8_t)b[off];
         case T_I16: { int16_t v; memcpy(&v, &b[off], 2); return v; } case T_U16: { uint16_t v; memcpy(&v, &b[off], 2); return v; } default: throw Unproven("type of constant data"); }
   }
   static long flat(const Key& k, const std::vector<int>& dims) { long i = 0; size_t d = 0; for (int x : k) { if (x < 0) return -1; i = i*(d < dims.size() && d > 0 ? dims[d] : 1); if (d > 0 && d >= dims.size()) throw Unproven("array dimensions unknown"); i += x; ++d; } return i; }
   Value joinv(const Value& a, const Value& b) {
      if (a.k == Value::INT && b.k == Value::INT) return mkint(std::min(a.lo, b.lo), std::max(a.hi, b.hi), a.ty);
      if (a.k == Value::FLT && b.k == Value::FLT && !a.n->cx) { TP t = nullptr; Itv u = uni(a.n->re, b.n->re); if (useTM && std::isfinite(u.lo) && std::isfinite(u.hi) && !u.nan) t = M::constant(C(T((u.lo + u.hi)/2)), (u.hi - u.lo)/2*(1 + 1e-15L)); return fv(mkre(a.n->prec, u, t, 0), a.ty); }
      throw Unproven("join");
   }
   int esz(Ty t) { return t == T_B && !P->fns.empty() && P->fns[0]->tu.compare(0, 2, "f_") == 0 ? 4 : ty_size(t); } // (Fortran default logical)
   // a pending byte offset in units of elements
   void settle(Loc& L, Ty t) {
      if (!ty_size(t)) t = heap[L.obj].ety; const int es = esz(t);
      if (!es || L.boff % es || (!L.key.empty() && L.key.back() < 0)) throw Unproven("pointer arithmetic");
      if (L.key.empty()) L.key.push_back(0); L.key.back() += (int)(L.boff/es); L.boff = 0;
      if (L.key.back() < 0) { event("oob", "pointer before the start of " + heap[L.obj].name); throw Infeasible(); }
      const Obj& o = heap[L.obj]; if (L.key.size() == 1) { i128 ext = o.dims.size() == 1 ? o.dims[0] : o.data && o.dims.empty() ? (i128)o.data->b.size()/es : -1; if (ext >= 0 && L.key[0] >= ext) { event("oob", "pointer to element " + i2s(L.key[0]) + " of array " + o.name + " of extent " + i2s(ext)); throw Infeasible(); } }
   }
   void first(Loc& L, Ty t) { const Obj& o = heap[L.obj]; if (L.exact && L.key.empty() && o.dims.size() == 1 && t != T_ANY && t != T_AGG && t == o.ety) L.key.push_back(0); } // access through a pointer to the array
   void inside(const Loc& L) { const Obj& o = heap[L.obj]; if (L.exact && L.key.size() == 1 && o.dims.size() == 1 && o.dims[0] > 0 && (L.key[0] >= o.dims[0] || (L.key[0] < 0 && L.key[0] > -2))) { event("oob", "pointer to element " + i2s(L.key[0]) + " of array " + o.name + " of extent " + i2s(o.dims[0])); throw Infeasible(); } }
   // distance of two pointers into one object in bytes
   bool ptrdiff(const Value& a, const Value& b, i128& d) {
      if (a.obj != b.obj) return false;
      if (a.key == b.key) { d = a.boff - b.boff; return true; }
      Key x = a.key, y = b.key; if (x.size() < y.size()) x.push_back(0); if (y.size() < x.size()) y.push_back(0);
      const int es = esz(heap[a.obj].ety); if (!es || x.size() != y.size() || x.back() < 0 || y.back() < 0 || !std::equal(x.begin(), x.end() - 1, y.begin())) throw Unproven("pointer comparison");
      d = ((i128)x.back() - y.back())*es + a.boff - b.boff; return true;
   }
   Value load(const Loc& L0, Ty want) {
      Loc L = L0;
      if (L.boff) settle(L, want != T_ANY ? want : L.want);
      Obj& o = heap[L.obj]; inside(L);
      if (want == T_ANY) want = L.want;
      first(L, want);
      if (!L.exact) {
         if (L.rng.size() != 1) throw Unproven("two symbolic indices");
         auto r = L.rng[0]; if (r.second - r.first > 4096) throw Unproven("symbolic index range");
         Value acc; bool first = true;
         for (i128 i = r.first; i <= r.second; ++i) { Loc q; q.obj = L.obj; q.key = L.key; for (int& k : q.key) if (k == -1000003) k = (int)i; Value v = load(q, want); acc = first ? v : joinv(acc, v); first = false; }
         return acc;
      }
      for (auto& s : o.s) if (s.first == L.key) {
         if (s.second.k == Value::FLT && s.second.n->cx && is_flt(want)) return fv(part(s.second.n, false));
         return s.second; }
      if (!L.key.empty() && (L.key.back() == KRE || L.key.back() == KIM)) {
         Key k = L.key; const bool im = k.back() == KIM; k.pop_back(); Loc q; q.obj = L.obj; q.key = k;
         Value v = load(q, T_ANY); if (v.k == Value::FLT) return fv(part(v.n, im));
      }
      // both parts stored separately
      { Key a = L.key, b = L.key; a.push_back(KRE); b.push_back(KIM); const Value *x = nullptr, *y = nullptr; for (auto& s : o.s) { if (s.first == a) x = &s.second; if (s.first == b) y = &s.second; } if (x && y) return fv(mkcomplex(x->n, y->n)); }
      if (o.tab) { long i = flat(L.key, o.dims); if (i < 0 || i >= (long)o.tab->size()) { if (i >= 0 && o.dims.size() && i < prod(o.dims)) return cvalue(0, o.ety); throw Unproven("table read"); } return cvalue((*o.tab)[i], o.ety != T_ANY ? o.ety : want); }
      if (o.data) {
         if (o.data->reloc) throw Unproven("relocated data");
         Ty t = want != T_ANY ? want : o.ety; if (t == T_ANY) throw Unproven("untyped constant data " + o.name);
         if (o.ety == T_ANY) o.ety = t;
         long i = flat(L.key, o.dims); if (i < 0) throw Unproven("constant struct data");
         if ((size_t)(i + 1)*ty_size(t) > o.data->b.size()) { event("oob", "read past the end of " + o.name); throw Infeasible(); }
         if (is_cpl(t)) { Ty e = flt_of(prec_of(t)); return fv(mkcomplex(cst(rdval(o.data->b, i*ty_size(t), e), prec_of(t)), cst(rdval(o.data->b, i*ty_size(t) + ty_size(e), e), prec_of(t)))); }
         if (!o.cnst) { if (is_int(t)) return mkint(tmin(t), tmax(t), t); return fv(mkre(prec_of(t), Itv::top(), nullptr, 0)); }
         return cvalue(rdval(o.data->b, i*ty_size(t), t), t);
      }
      if (o.global && !o.name.empty() && o.name[0] == '?') throw Unproven("unknown global " + o.name);
      event("uninit", "read of uninitialised storage in " + o.name);
      throw Unproven("uninitialised read of " + o.name);
   }
   static long prod(const std::vector<int>& d) { long p = 1; for (int x : d) p *= x; return p; }
   void checkwrite(Obj& o) {
      if (&o < heap.data() + heapmark) throw JoinFail();
      if (o.arg) event("arg-write", "store into the caller's argument " + o.name);
      else if (o.global) event("global-write", "store into static storage " + o.name);
   }
   void store(const Loc& L0, const Value& v) {
      Loc L = L0; if (L.boff) settle(L, L.want != T_ANY ? L.want : v.ty);
      Obj& o = heap[L.obj]; checkwrite(o); inside(L); first(L, L.want != T_ANY ? L.want : v.ty);
      if (!L.exact) throw Unproven("store with symbolic index");
      if (!L.key.empty() && (L.key.back() == KRE || L.key.back() == KIM)) {
         Key k = L.key; bool im = k.back() == KIM; k.pop_back();
         for (auto& s : o.s) if (s.first == k && s.second.k == Value::FLT && s.second.n->cx) { NP z = s.second.n; s.second = fv(im ? mkcomplex(part(z, false), v.n) : mkcomplex(v.n, part(z, true))); return; }
      }
      for (auto& s : o.s) if (s.first == L.key) { if (s.second.k == Value::FLT && s.second.n->cx && v.k == Value::FLT && !v.n->cx && is_flt(L.want)) { s.second = fv(mkcomplex(v.n, part(s.second.n, true))); return; } s.second = v; return; }
      // drop parts stored separately
      for (size_t i = 0; i < o.s.size();) { const Key& k = o.s[i].first; if (k.size() == L.key.size() + 1 && (k.back() == KRE || k.back() == KIM) && std::equal(L.key.begin(), L.key.end(), k.begin())) o.s.erase(o.s.begin() + i); else ++i; }
      o.s.emplace_back(L.key, v);
   }
   // all slots below a location
   std::shared_ptr<Obj> loadagg(const Loc& L) {
      auto r = std::make_shared<Obj>(); Obj& o = heap[L.obj]; r->ety = o.ety; r->dims = o.dims; r->name = o.name;
      if (o.tab || o.data) { r->tab = o.tab; r->data = o.data; if (!L.key.empty()) throw Unproven("sub-aggregate of a table"); }
      for (auto& s : o.s) if (s.first.size() >= L.key.size() && std::equal(L.key.begin(), L.key.end(), s.first.begin())) r->s.emplace_back(Key(s.first.begin() + L.key.size(), s.first.end()), s.second);
      return r;
   }
   void storeagg(const Loc& L, const Obj& a) {
      Obj& o = heap[L.obj]; checkwrite(o);
      for (size_t i = 0; i < o.s.size();) { if (o.s[i].first.size() >= L.key.size() && std::equal(L.key.begin(), L.key.end(), o.s[i].first.begin())) o.s.erase(o.s.begin() + i); else ++i; }
      if (a.tab || a.data) {
         Loc src; int t = newobj("tmp"); heap[t] = a; heap[t].s.clear(); heap[t].cnst = true; Obj& oo = heap[L.obj]; if (oo.ety == T_ANY) oo.ety = a.ety;
         Ty et = oo.ety; std::vector<int> dm = oo.dims.empty() ? a.dims : oo.dims; heap[t].dims = dm; heap[t].ety = et;
         long n = a.tab ? (long)a.tab->size() : (ty_size(et) ? (long)a.data->b.size()/ty_size(et) : 0);
         if (dm.size() > 1 || !n) throw Unproven("aggregate constant copy");
         for (long i = 0; i < n && (dm.empty() || i < dm[0]); ++i) { src.obj = t; src.key = {(int)i}; Value v = load(src, et); Key k = L.key; k.push_back(i); heap[L.obj].s.emplace_back(k, v); }
         return;
      }
      for (auto& s : a.s) { Key k = L.key; k.insert(k.end(), s.first.begin(), s.first.end()); o.s.emplace_back(k, s.second); }
   }

   // ------------------------------------------------------------ evaluation
   Value eval(Frame& fr, const Operand& o, Ty want = T_ANY) {
      switch (o.k) {
      case 's': { Value& v = fr.ssa.at(o.id); if (v.k == Value::UNDEF) { if (fr.f->undef.count(o.id)) { event("uninit", "use of uninitialised variable " + o.txt); } throw Unproven("undefined SSA name " + o.txt + " in " + fr.f->name); } return v; }
      case 'i': return mkint(o.i, is_int(want) ? want : T_ANY);
      case 'f': return fv(cst(o.f, 0), T_ANY);
      case 'c': return fv(mkcomplex(cst(o.f, 0), cst(o.g, 0)), T_ANY);
      case 'a': { Loc L = resolve(fr, o.ref); Value v; v.k = Value::PTR; v.ty = T_PTR; v.obj = L.obj; v.key = L.key; v.boff = L.boff; return v; }
      case 'l': { Loc L = resolve(fr, o.ref);
         Obj& ob = heap[L.obj];
         if (L.exact && (want == T_AGG || want == T_ANY)) { bool ex = false; for (auto& s : ob.s) if (s.first == L.key) ex = true;
            if (!ex) { bool sub = false; for (auto& s : ob.s) if (s.first.size() > L.key.size() && std::equal(L.key.begin(), L.key.end(), s.first.begin()) && s.first[L.key.size()] != KRE && s.first[L.key.size()] != KIM) sub = true;
               if (sub) { Value v; v.k = Value::AGG; v.ty = T_AGG; v.agg = loadagg(L); return v; } } }
         return load(L, want); }
      default: throw Unproven("unsupported operand " + o.txt);
      }
   }
   static int dprec(Ty t) { return prec_of(t); }
   Value typed(Value v, Ty t) { // give wildcard constants the type of their destination
      if (v.k == Value::FLT && v.n->prec == 0 && prec_of(t)) v = fv(retype(v.n, prec_of(t)), t);
      if (v.k == Value::INT && v.ty == T_ANY && is_int(t)) v.ty = t;
      if (v.k == Value::INT && v.ty == T_I32 && t == T_B) v.ty = T_B;
      return v;
   }
   NP retype(const NP& n, int p) { if (n->prec == p) return n; auto m = std::make_shared<Node>(*n); m->prec = p; if (m->pr) m->pr = retype(m->pr, p); if (m->pi) m->pi = retype(m->pi, p); return m; }
   Value boolv(const Tri& t) { return mkint(t.t && !t.f ? 1 : 0, t.t ? 1 : 0, T_B); }
   Value evalrhs(Frame& fr, const Rhs& r, Ty want) {
      if (r.kind == "op1") {
         const std::string& op = r.op;
         if (op == "mov") return typed(eval(fr, r.a[0], want), want);
         Value a = eval(fr, r.a[0]);
         if (op == "neg") { if (a.k == Value::INT) return intop("-", mkint(0, a.ty), a); return fv(fneg(a.n), a.ty); }
         if (op == "re") return fv(part(a.n, false));
         if (op == "im") return fv(part(a.n, true));
         if (op == "conj") { NP z = a.n; NP n = mkcx(z->prec, reI(z), neg(imI(z)), z->tm ? M::conjugate(*z->tm) : nullptr, z->vn, -z->vi); return fv(n, a.ty); }
         if (op == "abs") { if (a.k == Value::INT) { i128 l = a.lo < 0 ? -a.lo : a.lo, h = a.hi < 0 ? -a.hi : a.hi; if (a.lo < 0 && a.hi > 0) return normint(mkint(0, std::max(l, h), a.ty), a.ty, "abs"); return normint(mkint(std::min(l, h), std::max(l, h), a.ty), a.ty, "abs"); } return fv(fabsn(a.n), a.ty); }
         if (op == "not") { if (a.ty == T_B || want == T_B) { Value v = mkint(1 - a.hi, 1 - a.lo, T_B); if (a.cond) { v.cond = std::make_shared<Cond>(*a.cond); v.cond->neg = !v.cond->neg; } return v; } if (a.lo == a.hi) return normint(mkint(-a.lo - 1, a.ty), a.ty, nullptr); return mkint(-a.hi - 1, -a.lo - 1, a.ty); }
         if (op == "lnot") return mkint(1 - a.hi, 1 - a.lo, T_B);
         throw Unproven("unary " + op);
      }
      if (r.kind == "op2") {
         Value a = eval(fr, r.a[0]), b = eval(fr, r.a[1]);
         const std::string& op = r.op;
         static const std::set<std::string> cm = {"<", ">", "<=", ">=", "==", "!=", "u<", "u>", "u<=", "u>=", "unord", "ord", "<>", "u=="};
         if (cm.count(op)) {
            if (a.k == Value::FLT && b.k == Value::FLT) { Value v = boolv(fcmp(op, a.n, b.n)); v.cond = std::make_shared<Cond>(Cond{op, a.n, b.n, false}); return v; }
            if (a.k == Value::INT && b.k == Value::INT) {
               Value v = boolv(intcmp(op, a, b));
               if (a.cond && b.lo == b.hi && (a.ty == T_B || (a.lo >= 0 && a.hi <= 1)) && (op == "!=" || op == "==") && (b.lo == 0 || b.lo == 1)) { v.cond = std::make_shared<Cond>(*a.cond); if ((op == "==") == (b.lo == 0)) v.cond->neg = !v.cond->neg; }
               return v; }
            if (a.k == Value::PTR && b.k == Value::PTR) {
               i128 d = 0; if (!ptrdiff(a, b, d)) { if (op == "==") return mkint(0, T_B); if (op == "!=") return mkint(1, T_B); throw Unproven("pointer compare"); }
               return mkint(op == "==" ? d == 0 : op == "!=" ? d != 0 : op == "<" ? d < 0 : op == "<=" ? d <= 0 : op == ">" ? d > 0 : d >= 0, T_B); }
            if (a.k == Value::PTR && b.k == Value::INT) { if (op == "==") return mkint(0, T_B); if (op == "!=") return mkint(1, T_B); }
            throw Unproven("comparison of unlike values");
         }
         if (op == "cplx") { NP x = a.n, y = b.n; const int p = prec_of(want) ? prec_of(want) : mp(x->prec, y->prec); if (p) { x = retype0(x, p); y = retype0(y, p); } return fv(mkcomplex(x, y)); }
         if (a.k == Value::PTR || b.k == Value::PTR) {
            if (op == "-" && a.k == Value::PTR && b.k == Value::PTR) { i128 d = 0; if (ptrdiff(a, b, d)) return mkint(d, is_int(want) ? want : T_I64); throw Unproven("difference of pointers into different objects"); }
            if (a.k != Value::PTR && op == "+") std::swap(a, b);
            if (a.k == Value::PTR && (op == "+" || op == "-") && b.k == Value::INT && b.lo == b.hi) { const Obj& o = heap[a.obj]; int es = esz(o.ety); i128 d = op == "+" ? b.lo : -b.lo; if (d > (i128)1 << 62) d -= (i128)1 << 64;
               if (es && d % es == 0 && o.dims.size() == 1 && (a.key.empty() || a.key.back() >= 0)) { if (a.key.empty()) a.key.push_back(0); a.key.back() += (int)(d/es); }
               else a.boff += (long)d;
               return a; }
            throw Unproven("pointer arithmetic");
         }
         if (a.k == Value::INT && b.k == Value::INT) {
            Ty w = want; if (a.ty == T_ANY && b.ty == T_ANY && is_int(w)) a.ty = b.ty = w;
            if ((op == "&" || op == "|") && (a.cond || b.cond) && a.lo >= 0 && a.hi <= 1 && b.lo >= 0 && b.hi <= 1) { // decide condition by condition
               const i128 ab = op == "|"; // absorbing element
               if ((a.lo == a.hi && a.lo == ab) || (b.lo == b.hi && b.lo == ab)) return mkint(ab, T_B);
               if (a.lo == a.hi) return b;
               if (b.lo == b.hi) return a;
               if (!a.cond) std::swap(a, b);
               return branch(a) == (ab == 1) ? mkint(ab, T_B) : b; }
            sites(op == "+" || op == "-" || op == "*" ? "arith" : "intop");
            return intop(op, a, b); }
         if (a.k != Value::FLT || b.k != Value::FLT) throw Unproven("mixed operands for " + op);
         NP x = a.n, y = b.n; int p = mp(x->prec, y->prec); if (!p) p = prec_of(want); if (!p) p = 53;
         x = retype0(x, p); y = retype0(y, p);
         if (op == "+") return fv(fadd(x, y, false));
         if (op == "-") return fv(fadd(x, y, true));
         if (op == "*") return fv(fmul(x, y));
         if (op == "/") return fv(fdivide(x, y));
         if (op == "min" || op == "max") return fv(libm2(op == "min" ? "fmin" : "fmax", p, x, y));
         throw Unproven("float operator " + op);
      }
      if (r.kind == "cast") {
         Value a = eval(fr, r.a[0]); Ty t = r.ty; if (t == T_ANY) t = want;
         if (t == T_PTR) return a;
         if (a.k == Value::PTR) throw Unproven("pointer cast");
         if (t == T_ANY) { if (a.k == Value::INT) throw Unproven("cast to unknown type"); return a; }
         if (a.k == Value::INT) {
            if (is_int(t)) { Value v = normint(a, t, nullptr); if (t == T_B && !(a.lo >= 0 && a.hi <= 1)) v = mkint(a.lo <= 0 && a.hi >= 0 && !(a.lo == 0 && a.hi == 0) ? 0 : (a.lo == 0 && a.hi == 0 ? 0 : 1), (a.lo == 0 && a.hi == 0) ? 0 : 1, t); v.cond = a.cond; return v; }
            if (is_flt(t)) { const int p = prec_of(t);
               if (a.lo == a.hi) return fv(cst(rnd(p, i2ld(a.lo)), p), t);
               Itv i = Itv::range(rnd(p, i2ld(a.lo)), rnd(p, i2ld(a.hi))); i.nz = false; i.pz = a.lo <= 0 && a.hi >= 0;
               TP tm = nullptr; return fv(mkre(p, i, tm, 0), t); }
            if (is_cpl(t)) { Rhs q; Value f = fv(cst(i2ld(a.lo), prec_of(t))); if (a.lo != a.hi) throw Unproven("int to complex"); return fv(mkcomplex(f.n, cst(0.0L, prec_of(t)))); }
         }
         if (a.k == Value::FLT) {
            if (is_int(t)) return f2i(a.n, t, "conversion");
            if (is_flt(t) && !a.n->cx) return fv(fcast(a.n, prec_of(t)), t);
            if (is_flt(t) && a.n->cx) return fv(fcast(part(a.n, false), prec_of(t)), t);
            if (is_cpl(t) && a.n->cx) return fv(fcast(a.n, prec_of(t)), t);
            if (is_cpl(t)) return fv(mkcomplex(fcast(a.n, prec_of(t)), cst(0.0L, prec_of(t))), t);
         }
         throw Unproven("cast");
      }
      if (r.kind == "cond") {
         Value c = evalrhs(fr, *r.cnd, T_B);
         bool d = branch(c); return typed(eval(fr, r.a[d ? 0 : 1], want), want);
      }
      if (r.kind == "call") return docall(fr, r, want);
      throw Unproven("unsupported expression " + r.kind + " " + r.callee);
   }
   NP retype0(const NP& n, int p) { return n->prec == 0 ? retype(n, p) : n; }
   Value f2i(const NP& n, Ty t, const char* what) {
      const Itv& i = n->re;
      if (i.nan || i.empty() || !(i.lo > (ld)tmin(t) - 1) || !(i.hi < (ld)tmax(t) + 1)) event("float-to-int", std::string(what) + " of " + i.str() + " to a " + i2s(bits(t)) + "-bit integer", i.empty() || i.lo >= (ld)tmax(t) + 1 || i.hi <= (ld)tmin(t) - 1);
      i128 l = i.empty() || !(i.lo > (ld)tmin(t) - 1) ? tmin(t) : (i128)truncl(i.lo), h = i.empty() || !(i.hi < (ld)tmax(t) + 1) ? tmax(t) : (i128)truncl(i.hi);
      return mkint(l, h, t);
   }
   bool lastlinked = false;
   struct Br { Tri t; std::shared_ptr<Cond> cd; VN v = 0; bool ng = false, lk = false; };
   Br prepare(const Value& c) {
      if (c.k != Value::INT) throw Unproven("branch on non-boolean");
      Br q; q.t = Tri{c.hi != 0 || c.lo != 0, c.lo <= 0 && c.hi >= 0};
      if (c.cond) {
         q.cd = c.cond; Tri e = fcmp(q.cd->op, q.cd->a, q.cd->b); if (q.cd->neg) std::swap(e.t, e.f); q.t.t = q.t.t && e.t; q.t.f = q.t.f && e.f;
         q.v = condvn(q.cd->op, q.cd->a, q.cd->b, q.ng); if (q.cd->neg) q.ng = !q.ng;
         NP q1, q2; const Node* ln = nullptr; q.lk = (q.cd->op == "==" || q.cd->op == "!=") && (ln = linked(q.cd->a, q.cd->b, q1, q2));
         if (q.lk && useTM) { // size of the last summand relative to the sum
            NP w = ln->owner.lock(); NP t = w && w->base && w->cx ? w->term : nullptr;
            linkmag = t ? magn(*t) : magn(*ln->term); const ld sm = t ? minmag(w) : ln->re.mig();
            linkneg = linkmag <= 0x1p-64L*sm; }
      }
      return q;
   }
   void finish(const Br& q, bool res) { if (q.lk && useTM && (res != q.cd->neg) == (q.cd->op == "==")) eqpart(q.cd->a, q.cd->b); }
   bool branch(const Value& c) { return branch(prepare(c)); }
   bool branch(const Br& q) {
      lastlinked = q.lk;
      const bool res = decide(q.t, q.cd ? std::function<void(bool)>([&](bool d) { refine(*q.cd, d); }) : nullptr, q.v, q.ng);
      finish(q, res); return res;
   }
   // in the frame of a joined function the state is saved at an undecided branch and both sides are followed
   bool linkneg = false; ld linkmag = 0, prevmag = 0; int negl = 0;
   struct Snap { Frame fr; int prev, next; std::vector<Obj> heap; std::map<VN, bool> condlog; std::vector<std::string> trace; size_t undo; T zlo, zhi; long steps; Br br; std::map<std::pair<std::string, std::string>, int> globals; int negl; ld prevmag; };
   long tailcuts = 0; std::vector<Snap>* snaps = nullptr; int snapdepth = -1;
   bool snapbranch(const Frame& fr, const Block& B, const Stmt& s, const Br& q) { // both sides are possible
      bool d = true;
      if (q.v) { auto i = fixedcond.find(q.v); bool k = i != fixedcond.end(), vl = k && i->second; auto j = condlog.find(q.v); if (!k && j != condlog.end()) { k = true; vl = j->second; }
         if (k) { d = vl != q.ng; condlog[q.v] = vl; if (q.cd) refine(*q.cd, d); finish(q, d); return d; } }
      // modelling assumption: once eight successive summands decrease and stay below 2^-64 of the sum the rest of the series is negligible
      if (linkneg && linkmag <= prevmag) { if (++negl > 8) { ++tailcuts; throw Infeasible(); } } else negl = 0;
      prevmag = linkneg ? linkmag : INFINITY; linkneg = false;
      snaps->push_back({fr, B.id, s.t2, heap, condlog, trace, undo->size(), zlo, zhi, steps, q, globals_, negl, prevmag});
      trace.push_back(curloc + ":T"); if (q.v) condlog[q.v] = !q.ng; if (q.cd) refine(*q.cd, true); finish(q, true);
      return true;
   }
   // split name into library function and precision
   static bool libname(const std::string& n0, std::string& f, int& p) {
      std::string n = n0; if (n.compare(0, 10, "__builtin_") == 0) n = n.substr(10);
      static const std::set<std::string> k = {"log", "log1p", "exp", "exp2", "expm1", "sin", "cos", "tan", "atan", "asin", "acos", "sinh", "cosh", "tanh", "cbrt", "log2", "log10", "sqrt", "fabs", "floor", "ceil", "trunc", "round", "rint", "nearbyint", "tgamma", "atan2", "hypot", "fmod", "pow", "copysign", "fmin", "fmax",
         "clog", "csqrt", "cexp", "cabs", "carg", "creal", "cimag", "conj", "powi", "lceil", "lfloor", "llceil", "llfloor", "iceil", "ifloor", "lround", "llround", "isnan", "isinf", "isfinite", "signbit", "isnormal", "ldexp", "scalbn", "scalbln", "fma", "fdim", "cpow", "cpowi", "isinf_sign"};
      if (k.count(n)) { f = n; p = 53; if (n0 == "log" || true) return true; }
      if (n.size() > 1) { std::string b = n.substr(0, n.size() - 1); char c = n.back(); if (k.count(b)) { f = b; p = c == 'f' ? 24 : c == 'l' ? 64 : 0; if (p) return true; } }
      return false;
   }
   Value docall(Frame& fr, const Rhs& r, Ty want) {
      const std::string& n = r.callee;
      const Fn* g = P->find(fr.f->tu, n);
      std::vector<Value> av;
      for (size_t i = 0; i < r.a.size(); ++i) {
         Ty w = g && i < g->params.size() ? g->params[i].second : T_ANY;
         av.push_back(typed(eval(fr, r.a[i], w), w));
      }
      if (g) {
         Value out; if (callhook && callhook(*this, n, av, out)) return out;
         return callj(*g, av); }
      ext_seen.insert(n);
      std::string f; int p;
      if (n == "__builtin_expect") return av[0];
      if (n == "__builtin_unreachable" || n == "__builtin_trap" || n == "abort" || n == "_ZSt9terminatev" || n == "__builtin_abort") { event("noreturn", "call of " + n); throw Infeasible(); }
      if (n == "__builtin_nan" || n == "__builtin_nanf" || n == "__builtin_nanl" || n == "nan" || n == "nanf" || n == "nanl") { int q = n.back() == 'f' ? 24 : n.back() == 'l' ? 64 : 53; return fv(cst(NAN, q)); }
      if (n == "__builtin_inf" || n == "__builtin_huge_val") return fv(cst(INFINITY, 53));
      if (!libname(n, f, p)) { event("unknown-call", "call of function without a body or model: " + n); throw Unproven("no model for call to " + n); }
      for (auto& v : av) if (v.k == Value::FLT) { v.n = retype0(v.n, p); }
      auto F = [&](size_t i) -> NP { if (i >= av.size() || av[i].k != Value::FLT) throw Unproven("argument of " + n); return av[i].n; };
      if (f == "atan2" || f == "hypot" || f == "fmod" || f == "copysign" || f == "fmin" || f == "fmax" || f == "pow") return fv(libm2(f, p, F(0), F(1)));
      if (f == "powi") { if (av[1].k != Value::INT || av[1].lo != av[1].hi) throw Unproven("powi"); i128 e = av[1].lo < 0 ? -av[1].lo : av[1].lo; return fv(fpowi(F(0), av[1].lo, p, std::max<ld>(1, (ld)e/2), vnt.on ? vfn(p, "powi", {F(0)->vn, vconst((ld)av[1].lo)}) : 0)); }
      if (f == "clog" || f == "csqrt" || f == "cexp") return fv(libmc(f, p, F(0)));
      if (f == "cabs") return fv(libm2("hypot", p, part(F(0), false), part(F(0), true)));
      if (f == "carg") return fv(libm2("atan2", p, part(F(0), true), part(F(0), false)));
      if (f == "creal") return fv(part(F(0), false));
      if (f == "cimag") return fv(part(F(0), true));
      if (f == "conj") { NP z = F(0); return fv(mkcx(z->prec, reI(z), neg(imI(z)), z->tm ? M::conjugate(*z->tm) : nullptr, z->vn, -z->vi)); }
      if (f == "ldexp" || f == "scalbn" || f == "scalbln") { if (av[1].k != Value::INT) throw Unproven("exponent of " + n);
         if (av[1].lo != av[1].hi || av[1].lo > 8000 || av[1].lo < -8000) {
            const i128 L = std::max<i128>(-32000, std::min<i128>(32000, av[1].lo)), H = std::max<i128>(-32000, std::min<i128>(32000, av[1].hi));
            Itv q = Itv::range(rnd(p, ldexpl(1, (int)L)), rnd(p, ldexpl(1, (int)H))); if (q.lo == 0) q.pz = true;
            TP t = useTM && std::isfinite(q.hi) ? M::constant(C(T((q.lo + q.hi)/2)), (q.hi - q.lo)*0.5001L) : nullptr;
            return fv(fmul(F(0), mkre(p, q, t, 0))); }
         const int e = (int)av[1].lo; NP a = F(0); if (e > 1000 || e < -1000) { const int h = e/2; return fv(fmul(fmul(a, cst(ldexpl(1, h), p)), cst(ldexpl(1, e - h), p))); } return fv(fmul(a, cst(ldexpl(1, e), p))); }
      if (f == "fma") { // exact product, one rounding; enclosed by the two-step result widened by the saved rounding
         NP a = F(0), b = F(1), c = F(2), m = fmul(a, b), s = fadd(m, c, false); Itv q = s->re; const ld ex = 2*u_of(p)*m->re.mag() + 4*dmin_of(p);
         if (!q.empty() && std::isfinite(m->re.mag()) && std::isfinite(q.lo) && std::isfinite(q.hi)) { q.lo = rnd(p, q.lo - 2*ex); q.hi = rnd(p, q.hi + 2*ex); if (q.lo <= 0 && q.hi >= 0) q.pz = q.nz = true; } else { q = Itv::top(); q.nan = true; if (a->re.empty() || b->re.empty() || c->re.empty()) q = Itv::onlynan(); }
         TP t = nullptr; if (a->tm && b->tm && c->tm) t = tround(M::add(*M::mul(*a->tm, *b->tm), *c->tm), p, 0.5L, q.mag());
         return fv(mkre(p, q, t, vfn(p, "fma", {a->vn, b->vn, c->vn}))); }
      if (f == "fdim") throw Unproven("fdim");
      if (f == "isnormal") { NP a = fabsn(F(0)); Itv i = a->re; const ld mn = p == 24 ? 0x1p-126L : p == 53 ? 0x1p-1022L : 0x1p-16382L; const bool no = i.nan || i.empty() || i.hasinf() || i.lo < mn, ye = !i.empty() && i.hi >= mn && std::isfinite(i.lo);
         Value v = mkint(no ? 0 : 1, ye ? 1 : 0, T_B); return v; }
      if (f == "cpow" || f == "cpowi") throw Unproven("cpow");
      if (f == "lceil" || f == "lfloor" || f == "llceil" || f == "llfloor" || f == "iceil" || f == "ifloor" || f == "lround" || f == "llround") {
         NP q = libm1(f.find("ceil") != std::string::npos ? "ceil" : f.find("floor") != std::string::npos ? "floor" : "round", F(0)->prec, F(0)); return f2i(q, f[0] == 'i' ? T_I32 : T_I64, n.c_str()); }
      if (f == "isnan") { NP a = F(0); Value v = boolv(fcmp("unord", a, a)); v.cond = std::make_shared<Cond>(Cond{"unord", a, a, false}); return v; }
      if (f == "isinf" || f == "isinf_sign") { const Itv& i = F(0)->re; bool inf = i.hasinf(), fin = i.nan || (!i.empty() && !(i.lo == i.hi && std::isinf(i.lo))); Value v = mkint(inf && !fin ? 1 : 0, inf ? 1 : 0, T_B);
         if (!i.empty() && inf && fin) { NP a = fabsn(F(0)); v.cond = std::make_shared<Cond>(Cond{"u>", a, cst(fmax_of(a->prec), a->prec), false}); v.cond = nullptr; } return v; }
      if (f == "isfinite") { NP a = fabsn(F(0)); Value v = boolv(fcmp("<=", a, cst(fmax_of(a->prec), a->prec))); v.cond = std::make_shared<Cond>(Cond{"<=", a, cst(fmax_of(a->prec), a->prec), false}); return v; }
      if (f == "signbit") { const Itv& i = F(0)->re; if (i.nan) return mkint(0, 1, T_B); Value v = mkint(i.canpos() ? 0 : 1, i.canneg() ? 1 : 0, T_B); if (!i.zero()) v.cond = std::make_shared<Cond>(Cond{"<", F(0), cst(0.0L, F(0)->prec), false}); return v; }
      return fv(libm1(f, p, F(0)));
   }
   // Functions that end a loop when a sum stops changing are explored on their own; where the results of
   // their paths agree to a few units in the last place they are joined, so that the caller has one path.
   bool joincalls = false; ld joinulps = 32; std::map<const Fn*, int> jcls;
   int joinclass(const Fn& f) {
      auto i = jcls.find(&f); if (i != jcls.end()) return i->second;
      int c = 0; bool loop = false, eq = false;
      for (size_t b = 0; b < f.bbs.size(); ++b) for (auto& st : f.bbs[b].st) {
         for (int t : {st.t1, st.t2}) if (t >= 0) { auto k = f.bbidx.find(t); if (k != f.bbidx.end() && k->second <= (int)b) loop = true; }
         if (st.rhs.op == "==" || st.rhs.op == "!=") eq = true;
      }
      if (f.ret == T_B) c = eq && !loop ? 1 : 0; else if (loop && (is_flt(f.ret) || is_cpl(f.ret) || f.ret == T_AGG)) c = 2;
      return jcls[&f] = c;
   }
   bool merge(Value& a, const Value& b, bool& close) { // a := join of a and b
      if (a.k != b.k) return false;
      if (a.k == Value::INT) { a = mkint(std::min(a.lo, b.lo), std::max(a.hi, b.hi), a.ty); return true; }
      if (a.k == Value::AGG) {
         if (a.agg->s.size() != b.agg->s.size()) return false;
         auto o = std::make_shared<Obj>(*a.agg);
         for (size_t i = 0; i < o->s.size(); ++i) { if (o->s[i].first != b.agg->s[i].first || !merge(o->s[i].second, b.agg->s[i].second, close)) return false; }
         a.agg = o; return true; }
      if (a.k != Value::FLT || a.n->cx != b.n->cx || a.n->prec != b.n->prec) return false;
      const NP x = a.n, y = b.n; if (x == y) return true;
      if (!x->tm || !y->tm) return false;
      auto d = M::add(*x->tm, *y->tm, -1); const ld nd = d->norm();
      if (!(nd <= joinulps*u_of(x->prec ? x->prec : 53)*x->tm->maxabs())) close = false;
      auto t = std::make_shared<M>(*x->tm); t->R = M::up(std::max(x->tm->R, nd + y->tm->R + d->norm()*1e-17L));
      NP n = x->cx ? mkcx(x->prec, uni(reI(x), reI(y)), uni(imI(x), imI(y)), t, vnt.fresh(), vnt.fresh()) : mkre(x->prec, uni(x->re, y->re), t, vnt.fresh());
      a = fv(n, a.ty); return true;
   }
   Value callj(const Fn& f, const std::vector<Value>& args) {
      const int jc = joincalls ? joinclass(f) : 0;
      if (!jc) return call(f, args);
      std::vector<bool> s0; std::vector<std::string> t0 = trace; s0.swap(script);
      const size_t p0 = pos, h0 = heapmark, hs = heap.size(); const auto c0 = condlog; auto* u0 = undo; const bool l0 = onlylinked; const long st0 = steps; const int d0 = depth; const std::string cf = curfn, cl = curloc; const T za = zlo, zb = zhi;
      std::vector<Undo> ul; bool any = false, close = true, ok = true; Value acc; int ran = 0; long stmax = st0;
      auto restore = [&]() {
         for (size_t i = ul.size(); i-- > 0;) { auto& q = ul[i]; q.n->re = q.re; q.n->tm = q.tm; q.n->whole = q.whole; q.n->hasne = q.hasne; q.n->ne = q.ne; q.n->eqm = q.eqm; } ul.clear();
         for (auto i = globals_.begin(); i != globals_.end();) if (i->second >= (int)hs) i = globals_.erase(i); else ++i;
         heap.resize(hs); condlog = c0; stmax = std::max(stmax, steps); steps = st0; depth = d0; curfn = cf; curloc = cl; zlo = za; zhi = zb; trace = t0;
      };
      auto* sn0 = snaps; const int sd0 = snapdepth, ng0 = negl; const ld pm0 = prevmag; const long tc0 = tailcuts;
      auto leave = [&]() { script.swap(s0); pos = p0; heapmark = h0; undo = u0; onlylinked = l0; steps = stmax; snaps = sn0; snapdepth = sd0; negl = ng0; prevmag = pm0; };
      heapmark = hs; undo = &ul; onlylinked = jc == 1;
      for (int mode = jc == 2 ? 0 : 1; mode < 2; ++mode) { // 0: by saved states, 1: by repeated execution
         std::vector<Snap> sv; snaps = mode ? nullptr : &sv; snapdepth = mode ? -1 : depth + 1; bool again = false; negl = 0; prevmag = INFINITY; linkneg = false;
         script.clear(); any = false; close = ok = true; ran = 0;
         for (bool first = true;; first = false) {
            pos = 0;
            try {
               Value r;
               if (first || mode) r = call(f, args);
               else {
                  Snap q = std::move(sv.back()); sv.pop_back();
                  while (ul.size() > q.undo) { auto& w = ul.back(); w.n->re = w.re; w.n->tm = w.tm; w.n->whole = w.whole; w.n->hasne = w.hasne; w.n->ne = w.ne; w.n->eqm = w.eqm; ul.pop_back(); }
                  heap = std::move(q.heap); condlog = std::move(q.condlog); trace = std::move(q.trace); zlo = q.zlo; zhi = q.zhi; stmax = std::max(stmax, steps); steps = q.steps; globals_ = std::move(q.globals); negl = q.negl; prevmag = q.prevmag; linkneg = false;
                  depth = d0 + 1; curfn = f.pretty; trace.push_back(":F"); if (q.br.v) condlog[q.br.v] = q.br.ng;
                  if (q.br.cd) refine(*q.br.cd, false); finish(q.br, false);
                  r = run(q.fr, f.bbidx.at(q.next), q.prev); --depth;
               }
               if (!any) { acc = r; any = true; } else if (!merge(acc, r, close)) ok = false;
            } catch (Infeasible&) {} catch (JoinFail&) { ok = false; } catch (SnapFail&) { again = true; } catch (...) { restore(); leave(); throw; }
            if (mode) restore();
            ++ran;
            if (again || !ok || !close || ran > 256) { ok = false; break; }
            if (!mode) { if (sv.empty()) break; continue; }
            script.resize(std::min(script.size(), pos));
            while (!script.empty() && !script.back()) script.pop_back();
            if (script.empty()) break;
            script.back() = false;
         }
         restore();
         if (!again) break;
      }
      leave();
      if (ok && any) return acc;
      if (ok && tailcuts > tc0) throw Unproven("no exit of a series found");
      if (ok) throw Infeasible();
      if (jc == 2 && ran > 6) throw Unproven("results of the exits of a series differ");
      return call(f, args);
   }
   Value call(const Fn& f, const std::vector<Value>& args) {
      if (++depth > 60) throw Unproven("call depth exceeded in " + f.name);
      const std::string sf = curfn, sl = curloc; const size_t hmark = heap.size(), gmark = globals_.size();
      curfn = f.pretty; fns_seen.insert(f.tu + "::" + f.name);
      Frame fr; fr.f = &f; fr.ssa.resize(f.ssaname.size());
      if (args.size() < f.params.size()) throw Unproven("too few arguments for " + f.name);
      for (size_t i = 0; i < f.params.size(); ++i) {
         Value v = args[i];
         if (f.pssa[i] >= 0) fr.ssa[f.pssa[i]] = v;
         int o = frobj(fr, f.pobj[i]);
         if (v.k == Value::AGG) { Loc L; L.obj = o; heap[o].arg = false; storeagg(L, *v.agg); }
         else heap[o].s.emplace_back(Key(), v);
      }
      Value ret = run(fr);
      curfn = sf; curloc = sl; --depth;
      if (globals_.size() == gmark && !(ret.k == Value::PTR && ret.obj >= (int)hmark)) heap.resize(hmark); // the locals are dead
      return ret;
   }
   Value run(Frame& fr, int b = 0, int prev = -1) {
      const Fn& f = *fr.f; if (f.bbs.empty()) throw Unproven("no body: " + f.name);
      for (;;) {
         const Block& B = f.bbs[b];
         if (!B.phis.empty()) {
            std::vector<std::pair<int, Value>> nv;
            for (const auto& p : B.phis) {
               bool ok = false;
               for (const auto& a : p.args) if (a.first == prev) { if (a.second.k == 's' && fr.ssa[a.second.id].k == Value::UNDEF) { nv.emplace_back(p.id, Value()); } else nv.emplace_back(p.id, typed(eval(fr, a.second, p.ty), p.ty)); ok = true; break; }
               if (!ok) throw Unproven("phi without predecessor");
            }
            for (auto& x : nv) fr.ssa[x.first] = x.second;
         }
         int next = -1;
         for (const auto& s : B.st) {
            if (tend > 0 && (steps & 63) == 0 && (late || now() > tend)) { late = true; throw Unproven("time budget exhausted"); }
            if ((steps & 16383) == 16383 && maxrss > 0 && rss() > maxrss) { overmem = true; throw Unproven("memory budget exhausted in " + f.pretty + " at " + s.loc); }
            if (++steps > maxsteps) throw Unproven("step budget exhausted (loop not shown to end) in " + f.pretty + " at " + s.loc);
            if (s.loc != "-") curloc = s.loc;
            if (s.kind == "SET") exec(fr, s);
            else if (s.kind == "IF") { Value c = evalrhs(fr, s.rhs, T_B); Br q = prepare(c); next = (snaps && depth == snapdepth && q.t.t && q.t.f ? snapbranch(fr, B, s, q) : branch(q)) ? s.t1 : s.t2; break; }
            else if (s.kind == "GOTO") { next = s.t1; break; }
            else if (s.kind == "SWITCH") {
               Value v = eval(fr, s.op); int dflt = -1; next = -1;
               for (const auto& c : s.cases) {
                  if (c.dflt) { dflt = c.bb; continue; }
                  Tri t{v.hi >= c.lo && v.lo <= c.hi, !(v.lo >= c.lo && v.hi <= c.hi)};
                  if (decide(t, nullptr)) { next = c.bb; break; }
               }
               if (next < 0) next = dflt;
               break;
            }
            else if (s.kind == "RET") {
               if (s.op.k == 'n') return Value();
               return typed(eval(fr, s.op, f.ret), f.ret);
            } else throw Unproven("unsupported statement " + s.op.txt);
         }
         if (next < 0) { if (b + 1 >= (int)f.bbs.size()) throw Unproven("fell off the end of " + f.name); prev = B.id; ++b; continue; }
         prev = B.id; b = f.bbidx.at(next);
      }
   }
   void exec(Frame& fr, const Stmt& s) {
      const Rhs& r = s.rhs;
      if (s.lhs.k == 'n') { evalrhs(fr, r, T_ANY); return; }
      if (s.lhs.k == 's') { Value v = typed(evalrhs(fr, r, s.ty), s.ty); fr.ssa[s.lhs.id] = v; return; }
      // memory destination
      if (r.kind == "pool") {
         auto d = P->data.find(fr.f->tu + "::" + r.callee); if (d == P->data.end()) throw Unproven("constant pool entry " + r.callee);
         Obj a; a.data = &d->second; Loc L = resolve(fr, s.lhs); a.ety = heap[L.obj].ety; a.dims = heap[L.obj].dims; a.cnst = true; storeagg(L, a); return; }
      if (r.kind == "init" ) { Loc L = resolve(fr, s.lhs); Ty et = heap[L.obj].ety; storeagg(L, Obj()); for (size_t i = 0; i < r.vals.size(); ++i) { Loc q = L; q.key.push_back(i); store(q, cvalue(r.vals[i], et)); }
         if (heap[L.obj].dims.size() == 1) for (int i = r.vals.size(); i < heap[L.obj].dims[0]; ++i) { Loc q = L; q.key.push_back(i); store(q, cvalue(0, et)); } return; }
      if (r.kind == "zero") { Loc L = resolve(fr, s.lhs); storeagg(L, Obj()); Ty et = heap[L.obj].ety; if (heap[L.obj].dims.size() == 1 && et != T_AGG && et != T_ANY) for (int i = 0; i < heap[L.obj].dims[0]; ++i) { Loc q = L; q.key.push_back(i); store(q, cvalue(0, et)); } return; }
      Ty w = T_ANY; { auto l = s.lhs.k == 'm' ? fr.f->objlocal.find(s.lhs.id) : fr.f->objlocal.end(); if (l != fr.f->objlocal.end() && fr.f->locals[l->second].ty != T_AGG) w = fr.f->locals[l->second].ty; }
      if (w == T_PTR) w = T_ANY;
      if (w == T_ANY && s.lhs.name == "<retval>") w = fr.f->ret;
      if (!s.lhs.path.empty() && is_cpl(w)) { bool partp = false; for (auto& e : s.lhs.path) if (e.k == 'p') partp = true; if (partp) w = flt_of(prec_of(w)); }
      Value v = typed(evalrhs(fr, r, w == T_AGG ? T_ANY : w), w);
      Loc L = resolve(fr, s.lhs);
      if (v.k == Value::FLT && v.n->prec == 0) { // constant stored into memory of unknown type: take the object's type
         int p = prec_of(heap[L.obj].ety); if (p) v = fv(retype(v.n, p)); }
      if (v.k == Value::AGG) storeagg(L, *v.agg); else store(L, v);
   }

   // ------------------------------------------------------------ path exploration
   void reset() { heapmark = 0; undo = nullptr; onlylinked = false; vnt.m.clear(); vnt.nxt = 1; zlo = -1; zhi = 1; heap.clear(); globals_.clear(); steps = 0; depth = 0; pos = 0; trace.clear(); curfn.clear(); curloc.clear(); condlog.clear(); }
   // runs body() once per feasible trace partition; body must set up inputs itself
   // returns number of partitions
   int explore(const std::function<void()>& body, const std::function<void(const std::string&)>& failed) {
      script.clear(); int n = 0, ran = 0; long total = 0;
      for (;;) {
         reset();
         try { body(); ++n; } catch (Infeasible&) {} catch (Unproven& e) { ++n; failed(e.what()); }
         if (overmem) { overmem = false; return n; }
         total += steps; if (maxtotal > 0 && total > maxtotal) { failed("step budget of all partitions exhausted"); return n; }
         if (++ran > maxpaths) { failed("too many trace partitions"); return n; }
         script.resize(std::min(script.size(), std::max(pos, (size_t)0)));
         while (!script.empty() && !script.back()) script.pop_back();
         if (script.empty()) break;
         script.back() = false;
      }
      return n;
   }
};
