// Intermediate representation produced by tools/front.py
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
typedef long double ld;
typedef __int128 i128;

enum Ty : uint8_t { T_ANY, T_VOID, T_B, T_I8, T_I16, T_I32, T_I64, T_U8, T_U16, T_U32, T_U64,
                    T_F32, T_F64, T_F80, T_F128, T_C32, T_C64, T_C80, T_PTR, T_AGG };
inline Ty parse_ty(const std::string& s) {
   static const std::map<std::string, Ty> m = {
      {"void", T_VOID}, {"b", T_B}, {"i8", T_I8}, {"i16", T_I16}, {"i32", T_I32}, {"i64", T_I64},
      {"u8", T_U8}, {"u16", T_U16}, {"u32", T_U32}, {"u64", T_U64}, {"f32", T_F32}, {"f64", T_F64},
      {"f80", T_F80}, {"f128", T_F128}, {"c32", T_C32}, {"c64", T_C64}, {"c80", T_C80}, {"ptr", T_PTR}, {"agg", T_AGG}};
   auto i = m.find(s); return i == m.end() ? T_ANY : i->second;
}
inline bool is_int(Ty t) { return t >= T_B && t <= T_U64; }
inline bool is_flt(Ty t) { return t >= T_F32 && t <= T_F128; }
inline bool is_cpl(Ty t) { return t >= T_C32 && t <= T_C80; }
inline int prec_of(Ty t) { switch (t) { case T_F32: case T_C32: return 24; case T_F64: case T_C64: return 53; case T_F80: case T_C80: return 64; case T_F128: return 113; default: return 0; } }
inline int ty_size(Ty t) { switch (t) { case T_B: case T_I8: case T_U8: return 1; case T_I16: case T_U16: return 2;
   case T_I32: case T_U32: case T_F32: return 4; case T_I64: case T_U64: case T_F64: case T_C32: case T_PTR: return 8;
   case T_F80: case T_C64: case T_F128: return 16; case T_C80: return 32; default: return 0; } }
inline Ty cplx_of(int prec) { return prec == 24 ? T_C32 : prec == 53 ? T_C64 : prec == 64 ? T_C80 : T_ANY; }
inline Ty flt_of(int prec) { return prec == 24 ? T_F32 : prec == 53 ? T_F64 : prec == 64 ? T_F80 : T_ANY; }

struct Operand; struct Ref;
struct PathEl { char k; int field = 0; std::shared_ptr<Operand> idx; bool im = false; int off = 0; Ty ty = T_ANY; };
struct Ref { char k = 'n'; int id = -1; std::string name; std::vector<PathEl> path; };
struct Operand {
   char k = 'n';       // s ssa, i int, f float, c complex, a address, l load, u unsupported, n none
   int id = -1; i128 i = 0; ld f = 0, g = 0; Ref ref; std::string txt;
};
struct Rhs { std::string kind, op; std::vector<Operand> a; Ty ty = T_ANY; std::string callee; std::shared_ptr<Rhs> cnd; std::vector<ld> vals; };
struct Stmt { std::string kind, loc; Ty ty = T_ANY; Ref lhs; Rhs rhs; int t1 = -1, t2 = -1; Operand op; struct Case { bool dflt; i128 lo, hi; int bb; }; std::vector<Case> cases; };
struct Phi { int id; Ty ty; std::vector<std::pair<int, Operand>> args; };
struct Block { int id; std::vector<Phi> phis; std::vector<Stmt> st; };
struct Local { std::string name; Ty ty; std::string dims; bool stat, cnst; std::vector<ld> tab; bool hastab = false; };
struct Fn {
   std::string name, tu, pretty; Ty ret;
   std::vector<std::pair<std::string, Ty>> params; std::vector<int> pssa, pobj; // ids
   std::vector<Local> locals; std::map<std::string, int> objidx, ssaidx; std::vector<std::string> objname, ssaname;
   std::vector<Block> bbs; std::map<int, int> bbidx;
   int ssa(const std::string& s) { auto i = ssaidx.find(s); if (i != ssaidx.end()) return i->second; int k = ssaname.size(); ssaidx[s] = k; ssaname.push_back(s); return k; }
   int obj(const std::string& s) { auto i = objidx.find(s); if (i != objidx.end()) return i->second; int k = objname.size(); objidx[s] = k; objname.push_back(s); return k; }
   std::map<int, int> objlocal; // object -> locals index
   std::set<int> undef;         // never assigned SSA names (uninitialised variables)
};
struct Data { std::string name, tu, sec; bool reloc = false; std::vector<uint8_t> b; std::vector<int> dims; bool ro() const { return sec.compare(0, 7, ".rodata") == 0 || sec.compare(0, 12, ".data.rel.ro") == 0; } };

struct FieldNames { std::map<std::string, int> m; std::vector<std::string> v; int get(const std::string& s) { auto i = m.find(s); if (i != m.end()) return i->second; int k = v.size(); m[s] = k; v.push_back(s); return k; } };
extern FieldNames g_fields;

struct Program {
   std::vector<std::unique_ptr<Fn>> fns;
   std::map<std::string, Fn*> bytu;   // tu::name
   std::map<std::string, Fn*> byname;
   std::map<std::string, Data> data;  // tu::name
   std::map<std::string, std::string> dataname; // name -> first tu

   Fn* find(const std::string& tu, const std::string& n) const {
      auto i = bytu.find(tu + "::" + n); if (i != bytu.end()) return i->second;
      auto j = byname.find(n); if (j != byname.end()) return j->second;
      // complete-object constructors are emitted as base-object ones
      for (const char* pre : {"C1E", "C1I", "D1E"}) for (auto p = n.find(pre); p != std::string::npos; p = n.find(pre, p + 1)) {
         std::string m = n; m[p + 1] = '2'; auto k = bytu.find(tu + "::" + m); if (k != bytu.end()) return k->second; auto l = byname.find(m); if (l != byname.end()) return l->second; }
      return nullptr;
   }
   struct Tok { std::vector<std::string> t; size_t i = 0; const std::string& next() { if (i >= t.size()) throw std::runtime_error("IR: short line"); return t[i++]; } bool end() const { return i >= t.size(); } };
   static i128 p128(const std::string& s) { bool n = s[0] == '-'; i128 v = 0; for (size_t i = n; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') throw std::runtime_error("IR: int " + s); v = v*10 + (s[i] - '0'); } return n ? -v : v; }
   static ld pf(const std::string& s) { return strtold(s.c_str(), nullptr); }
   static Ref pref(Fn& f, Tok& t) {
      Ref r; const std::string k = t.next(); r.k = k[0];
      if (k == "n") return r;
      r.name = t.next();
      if (k == "s") { r.id = f.ssa(r.name); return r; }
      if (k == "m") r.id = f.obj(r.name); else r.id = f.ssa(r.name);
      int n = std::stoi(t.next());
      for (int i = 0; i < n; ++i) {
         PathEl e; const std::string p = t.next(); e.k = p[0];
         if (p == "f") e.field = g_fields.get(t.next());
         else if (p == "p") e.im = t.next() == "im";
         else if (p == "o") { e.off = std::stoi(t.next()); e.ty = parse_ty(t.next()); }
         else { e.idx = std::make_shared<Operand>(pop(f, t)); }
         r.path.push_back(e);
      }
      return r;
   }
   static Operand pop(Fn& f, Tok& t) {
      Operand o; const std::string k = t.next(); o.k = k[0];
      if (k == "s") { o.txt = t.next(); o.id = f.ssa(o.txt); }
      else if (k == "i") o.i = p128(t.next());
      else if (k == "f") { o.txt = t.next(); o.f = pf(o.txt); }
      else if (k == "c") { o.f = pf(t.next()); o.g = pf(t.next()); }
      else if (k == "a" || k == "l") o.ref = pref(f, t);
      else if (k == "u") o.txt = t.next();
      else if (k != "n") throw std::runtime_error("IR: operand " + k);
      return o;
   }
   static Rhs prhs(Fn& f, Tok& t) {
      Rhs r; r.kind = t.next();
      if (r.kind == "op1") { r.op = t.next(); r.a.push_back(pop(f, t)); }
      else if (r.kind == "op2") { r.op = t.next(); r.a.push_back(pop(f, t)); r.a.push_back(pop(f, t)); }
      else if (r.kind == "cast") { r.ty = parse_ty(t.next()); r.a.push_back(pop(f, t)); }
      else if (r.kind == "call") { r.callee = t.next(); int n = std::stoi(t.next()); for (int i = 0; i < n; ++i) r.a.push_back(pop(f, t)); }
      else if (r.kind == "cond") { r.cnd = std::make_shared<Rhs>(prhs(f, t)); r.a.push_back(pop(f, t)); r.a.push_back(pop(f, t)); }
      else if (r.kind == "pool") r.callee = t.next();
      else if (r.kind == "init") { int n = std::stoi(t.next()); for (int i = 0; i < n; ++i) r.vals.push_back(pf(t.next())); }
      else if (r.kind == "zero") {}
      else if (r.kind == "unsup") r.callee = t.end() ? "" : t.next();
      else throw std::runtime_error("IR: rhs " + r.kind);
      return r;
   }
   void load(const std::string& file) {
      std::ifstream in(file); if (!in) throw std::runtime_error("cannot read " + file);
      std::string line; Fn* f = nullptr;
      while (std::getline(in, line)) {
         Tok t; { std::istringstream ss(line); std::string w; while (ss >> w) t.t.push_back(w); }
         if (t.t.empty()) continue;
         const std::string k = t.next();
         if (k == "FUNC") {
            fns.emplace_back(new Fn); f = fns.back().get();
            f->name = t.next(); f->tu = t.next(); f->ret = parse_ty(t.next()); f->pretty = t.next();
            bytu.emplace(f->tu + "::" + f->name, f); byname.emplace(f->name, f);
         } else if (k == "PARAM") {
            std::string n = t.next(); Ty ty = parse_ty(t.next());
            f->params.emplace_back(n, ty);
            std::string sn = t.next();
            f->pobj.push_back(f->obj(n)); f->pssa.push_back(sn == "-" ? -1 : f->ssa(sn));
         } else if (k == "UNDEF") { f->undef.insert(f->ssa(t.next()));
         } else if (k == "LOCAL") {
            Local l; l.name = t.next(); l.ty = parse_ty(t.next()); l.dims = t.next(); l.stat = t.next() == "static"; l.cnst = t.next() == "const";
            f->objlocal[f->obj(l.name)] = f->locals.size(); f->locals.push_back(l);
         } else if (k == "TABLE") {
            std::string n = t.next(); t.next(); t.next(); int c = std::stoi(t.next());
            auto& l = f->locals.at(f->objlocal.at(f->obj(n)));
            l.hastab = true; for (int i = 0; i < c; ++i) l.tab.push_back(pf(t.next()));
         } else if (k == "BB") { Block b; b.id = std::stoi(t.next()); f->bbidx[b.id] = f->bbs.size(); f->bbs.push_back(b); }
         else if (k == "PHI") {
            Phi p; p.id = f->ssa(t.next()); p.ty = parse_ty(t.next()); int n = std::stoi(t.next());
            for (int i = 0; i < n; ++i) { int b = std::stoi(t.next()); p.args.emplace_back(b, pop(*f, t)); }
            f->bbs.back().phis.push_back(p);
         } else if (k == "SET") { Stmt s; s.kind = k; s.loc = t.next(); s.ty = parse_ty(t.next()); s.lhs = pref(*f, t); if (t.next() != "=") throw std::runtime_error("IR: set"); s.rhs = prhs(*f, t); f->bbs.back().st.push_back(s); }
         else if (k == "IF") { Stmt s; s.kind = k; s.loc = t.next(); s.t1 = std::stoi(t.next()); s.t2 = std::stoi(t.next()); s.rhs = prhs(*f, t); f->bbs.back().st.push_back(s); }
         else if (k == "GOTO") { Stmt s; s.kind = k; s.loc = t.next(); s.t1 = std::stoi(t.next()); f->bbs.back().st.push_back(s); }
         else if (k == "SWITCH") { Stmt s; s.kind = k; s.loc = t.next(); s.op = pop(*f, t); int n = std::stoi(t.next());
            for (int i = 0; i < n; ++i) { Stmt::Case c; std::string lo = t.next(), hi = t.next(); c.dflt = lo == "default"; if (!c.dflt) { c.lo = p128(lo); c.hi = p128(hi); } c.bb = std::stoi(t.next()); s.cases.push_back(c); } f->bbs.back().st.push_back(s); }
         else if (k == "RET") { Stmt s; s.kind = k; s.loc = t.next(); s.op = pop(*f, t); f->bbs.back().st.push_back(s); }
         else if (k == "UNSUP") { Stmt s; s.kind = k; s.loc = t.next(); s.op.txt = t.next(); f->bbs.back().st.push_back(s); }
         else if (k == "ENDF") f = nullptr;
         else if (k == "DATA") {
            Data d; d.name = t.next(); d.tu = t.next(); d.sec = t.next(); d.reloc = t.next() == "reloc"; const std::string h = t.end() ? "" : t.next();
            for (size_t i = 0; i + 1 < h.size(); i += 2) d.b.push_back((uint8_t)std::stoi(h.substr(i, 2), nullptr, 16));
            dataname.emplace(d.name, d.tu); data[d.tu + "::" + d.name] = d;
         } else if (k == "DIMS") { std::string n = t.next(), tu = t.next(); auto i = data.find(tu + "::" + n); while (!t.end()) { int d = std::stoi(t.next()); if (i != data.end()) i->second.dims.push_back(d); }
         } else throw std::runtime_error("IR: " + k);
      }
   }
};
