"""Structural whole-program checks on the lowered sources: effects (U03), bounded work (U02)."""
import math, os, re
import vf
from . import irpy

TRUST = ['gcc / g++ / gfortran front ends (GIMPLE SSA dump)', 'tools/front.py', 'checks/irpy.py', 'models of the C library functions']
I64 = (-2**63, 2**63 - 1)
TYRANGE = {'b': (0, 1), 'i8': (-128, 127), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1), 'i64': I64, 'u8': (0, 255),
           'u16': (0, 2**16 - 1), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1)}
FULL = (-math.inf, math.inf)


class Model:
    def __init__(s):
        irs = vf.lower(('c', 'cpp', 'f'))
        s.P = irpy.load(irs)
        d = os.path.dirname(irs['c'])
        s.globl, s.weak = {}, {}
        for x in os.listdir(d):
            p = os.path.join(d, x, 'o0.s')
            if os.path.exists(p):
                t = open(p).read()
                s.globl[x[:-2]] = set(re.findall(r'^\s*\.globl\s+(\S+)', t, re.M))
                s.weak[x[:-2]] = set(re.findall(r'^\s*\.weak\s+(\S+)', t, re.M))
        for f in s.P.fns:
            f.exported = f.name in s.globl.get(f.tu, ()) and f.name not in s.weak.get(f.tu, ())
            f.defs = {}
            for b in f.order:
                for p in b.phis:
                    f.defs[p.name] = (b.id, p)
                for t in b.st:
                    if t.kind == 'SET' and t.lhs.kind == 's':
                        f.defs[t.lhs.name] = (b.id, t)
        s.calls = []        # (caller, block, stmt, callee Fn or None)
        s.into = {}
        for f in s.P.fns:
            for b, t in f.stmts():
                if t.rhs is not None and t.rhs.kind == 'call':
                    g = s.P.find(f.tu, t.rhs.op)
                    s.calls.append((f, b, t, g))
                    if g:
                        s.into.setdefault(id(g), []).append((f, b, t))
        s._dom = {}

    def dom(s, f):
        if id(f) not in s._dom:
            s._dom[id(f)] = irpy.loops(f)
        return s._dom[id(f)]

    def exported(s):
        return [f for f in s.P.fns if f.exported]

    def roots(s):
        """functions a user can call: all external definitions of the library"""
        return [f for f in s.P.fns if f.exported and not f.name.startswith(('_ZSt', '_ZNSt', '_ZNKSt', '_ZN9__gnu'))]


# ------------------------------------------------------------------ integer / real ranges
def optype(f, o):
    """type of an operand that is an SSA name"""
    if o.kind != 's':
        return None
    d = f.defs.get(o.val)
    if d:
        return d[1].ty
    for p in f.params:
        if o.val in (p[0], p[2]):
            return p[1]
    return None


class Ranges:
    """ranges of SSA names from constants, dominating comparisons and call sites"""
    def __init__(s, m):
        s.m, s.stack, s.memo = m, set(), {}

    def guards(s, f, blk):
        """comparisons known to hold in block blk: [(op, lhs operand, rhs operand)]"""
        _, _, dom = s.m.dom(f)
        out = []
        for d in dom.get(blk, ()):
            b = f.blocks[d]
            t = b.st[-1] if b.st else None
            if t is None or t.kind != 'IF' or t.targets[0] == t.targets[1]:
                continue
            for k, want in ((0, True), (1, False)):
                x = t.targets[k]
                if x in dom[blk] and f.blocks[x].pred == [d]:
                    out += s.facts(f, t.rhs, want)
        return out

    NEG = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}

    def facts(s, f, r, want, depth=0):
        if r.kind != 'op2' or r.op not in s.NEG or depth > 6:
            return []
        op = r.op if want else s.NEG[r.op]
        a, b = r.args
        out = [(op, a, b)]
        if a.kind == 's' and b.kind == 'i' and b.val == 0 and op in ('==', '!='):
            true = op == '!='
            d = f.defs.get(a.val)
            if d:
                st = d[1]
                if isinstance(st, irpy.Phi):
                    arms = [(pb, o) for pb, o in st.args]
                    if all(o.kind == 'i' for _, o in arms):
                        sel = [pb for pb, o in arms if bool(o.val) == true]
                        if len(sel) == 1:
                            out += s.guards(f, sel[0])
                            pb = f.blocks[sel[0]]
                elif st.rhs.kind == 'op1' and st.rhs.op == 'mov' and st.rhs.args[0].kind == 's':
                    out += s.facts(f, irpy.Rhs('op2', '!=' if true else '==', [st.rhs.args[0], irpy.Op('i', 0)], None), True, depth + 1)
                elif st.rhs.kind == 'op2' and st.rhs.op in ('&', '|') and st.ty == 'b':
                    if (st.rhs.op == '&') == true:
                        for o in st.rhs.args:
                            out += s.facts(f, irpy.Rhs('op2', '!=' if true else '==', [o, irpy.Op('i', 0)], None), True, depth + 1)
                elif st.rhs.kind == 'op2':
                    out += s.facts(f, st.rhs, true, depth + 1)
                elif st.rhs.kind == 'op1' and st.rhs.op in ('not', 'lnot') and st.ty == 'b':
                    out += s.facts(f, irpy.Rhs('op2', '==' if true else '!=', [st.rhs.args[0], irpy.Op('i', 0)], None), True, depth + 1)
                elif st.rhs.kind == 'cast' and optype(f, st.rhs.args[0]) in TYRANGE:
                    out += s.facts(f, irpy.Rhs('op2', '!=' if true else '==', [st.rhs.args[0], irpy.Op('i', 0)], None), True, depth + 1)
                elif st.rhs.kind == 'call':
                    out += s.predicate(f, st.rhs, true, depth + 1)
        return out

    def predicate(s, f, r, true, depth):
        """what the truth value of a call tells about its arguments"""
        g = s.m.P.find(f.tu, r.op)
        rets = [(b.id, t) for b, t in g.stmts() if t.kind == 'RET'] if g and depth < 5 else []
        if len(rets) != 1 or rets[0][1].rhs.args[0].kind != 's':
            return []
        out = []
        for op, a, b in s.facts(g, irpy.Rhs('op2', '!=' if true else '==', [rets[0][1].rhs.args[0], irpy.Op('i', 0)], None), True, depth + 1):
            q = []
            for o in (a, b):
                if o.kind in 'if':
                    q.append(o)
                else:
                    k = [k for k, p in enumerate(g.params) if p[2] and k < len(r.args) and s.same(g, o, p[2])]
                    q.append(r.args[k[0]] if k else None)
            if None not in q:
                out.append((op, q[0], q[1]))
        return out

    def narrows(s, f, t):
        """does the cast t lose values of an integer operand?"""
        if t.rhs.kind != 'cast' or t.ty not in TYRANGE:
            return False
        q = optype(f, t.rhs.args[0])
        return q in TYRANGE and not (TYRANGE[t.ty][0] <= TYRANGE[q][0] and TYRANGE[q][1] <= TYRANGE[t.ty][1])

    def same(s, f, a, name):
        """is operand a the value `name` (through copies and widening casts)?"""
        seen = 0
        while a.kind == 's' and seen < 8:
            if a.val == name:
                return True
            d = f.defs.get(a.val)
            if not d or isinstance(d[1], irpy.Phi) or d[1].rhs.kind not in ('cast',) and not (d[1].rhs.kind == 'op1' and d[1].rhs.op == 'mov'):
                return False
            if s.narrows(f, d[1]):
                return False
            a = d[1].rhs.args[0]
            seen += 1
        return False

    def get(s, f, o, blk):
        if o.kind == 'i':
            return (o.val, o.val)
        if o.kind == 'f':
            try:
                v = float(o.val)
                return (v, v)
            except ValueError:
                return FULL
        if o.kind == 'l':
            v = s.load(f, o.val, blk, 0)
            return FULL if v is None else v
        if o.kind != 's':
            return FULL
        key = (id(f), o.val, blk)
        if key in s.memo:
            return s.memo[key]
        if key in s.stack:
            return FULL
        s.stack.add(key)
        r = s.base(f, o.val)
        for op, a, b in s.guards(f, blk):
            if s.same(f, a, o.val) and not s.same(f, b, o.val):
                c = s.get(f, b, blk)
            elif s.same(f, b, o.val) and not s.same(f, a, o.val):
                c = s.get(f, a, blk)
                op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op)
            else:
                continue
            integer = all(isinstance(v, int) or math.isinf(v) for v in r + c)
            if op == '<':
                r = (r[0], min(r[1], c[1] - (1 if integer else 0)))
            elif op == '<=':
                r = (r[0], min(r[1], c[1]))
            elif op == '>':
                r = (max(r[0], c[0] + (1 if integer else 0)), r[1])
            elif op == '>=':
                r = (max(r[0], c[0]), r[1])
            elif op == '==':
                r = (max(r[0], c[0]), min(r[1], c[1]))
            elif op == '!=' and c[0] == c[1]:
                if r[0] == c[0]:
                    r = (r[0] + 1, r[1])
                if r[1] == c[0]:
                    r = (r[0], r[1] - 1)
        s.stack.discard(key)
        s.memo[key] = r
        return r

    def load(s, f, ref, blk, depth):
        """range of a scalar integer object read at ref, None if not known"""
        if ref.path or depth > 6:
            return None
        key = ('load', id(f), ref.kind, ref.name)
        if key in s.stack:
            return None
        s.stack.add(key)
        try:
            if ref.kind == 'm':
                return s.object(f, ref.name, depth)
            v = None
            for g, n in s.targets(f, irpy.Op('s', ref.name), 0):
                x = s.object(g, n, depth) if g else None
                if x is None:
                    return None
                v = x if v is None else (min(v[0], x[0]), max(v[1], x[1]))
            return v
        finally:
            s.stack.discard(key)

    def object(s, f, name, depth):
        t = f.tables.get(name)
        if t is not None:
            try:
                v = [int(x) for x in t]
                return (min(v), max(v))
            except ValueError:
                return None
        l = f.locals.get(name)
        if not l or l['static'] or l['ty'] not in TYRANGE:
            return None
        v = None
        for b, t in f.stmts():
            if t.kind == 'SET' and t.lhs.kind == 'm' and t.lhs.name == name:
                x = s.rhs(f, t.rhs, b.id, l['ty'])
                v = x if v is None else (min(v[0], x[0]), max(v[1], x[1]))
            if t.rhs is not None and any(o.kind == 'a' and o.val.name == name for o in t.rhs.args):
                g = s.m.P.find(f.tu, t.rhs.op) if t.rhs.kind == 'call' else None
                if not g or any(u.kind == 'SET' and u.lhs.kind == 'd' for _, u in g.stmts()):
                    return None
        return v

    def targets(s, f, o, depth):
        """objects [(function, name)] a pointer may refer to; (None, None) if not known"""
        if depth > 6:
            return [(None, None)]
        if o.kind == 'a' and o.val.kind == 'm' and not o.val.path:
            return [(f, o.val.name)]
        if o.kind != 's':
            return [(None, None)]
        for k, p in enumerate(f.params):
            if p[2] == o.val:
                if f.exported:
                    return [(None, None)]
                out = []
                for g, b, t in s.m.into.get(id(f), ()):
                    out += s.targets(g, t.rhs.args[k], depth + 1) if k < len(t.rhs.args) else [(None, None)]
                return out or [(None, None)]
        d = f.defs.get(o.val)
        if d and not isinstance(d[1], irpy.Phi) and (d[1].rhs.kind == 'op1' and d[1].rhs.op == 'mov' or d[1].rhs.kind == 'cast'):
            return s.targets(f, d[1].rhs.args[0], depth + 1)
        return [(None, None)]

    KNOWN = {'op2': {'+', '-', '*', '/', 'min', 'max', '&', '%', '>>', '|'}, 'op1': {'mov', 'neg'}}

    def exact(s, f, o, blk, seen=None, depth=0):
        """is the range of o built from arguments and constants by understood operations only, on paths whose tests are understood?"""
        seen = set() if seen is None else seen
        if o.kind in 'if':
            return True
        if o.kind == 'l':
            if o.val.kind == 'd' and not o.val.path:
                tg = s.targets(f, irpy.Op('s', o.val.name), 0)
                return all(g and s.object(g, n, 0) is not None for g, n in tg)
            return o.val.kind == 'm' and not o.val.path and s.object(f, o.val.name, 0) is not None
        if o.kind != 's' or depth > 40:
            return False
        if (id(f), o.val) in seen:
            return True
        seen.add((id(f), o.val))
        if not s.clear(f, blk):
            return False
        for k, p in enumerate(f.params):
            if p[2] == o.val:
                if f.exported:
                    return p[1] in TYRANGE
                return all(k < len(t.rhs.args) and s.exact(g, t.rhs.args[k], b.id, seen, depth + 1) for g, b, t in s.m.into.get(id(f), ()))
        d = f.defs.get(o.val)
        if not d:
            return False
        t = d[1]
        if isinstance(t, irpy.Phi):
            return all(s.exact(f, x, pb, seen, depth + 1) for pb, x in t.args)
        r = t.rhs
        if r.kind == 'cast' or r.op in s.KNOWN.get(r.kind, ()):
            return all(s.exact(f, x, d[0], seen, depth + 1) for x in r.args)
        if r.kind == 'call':
            g = s.m.P.find(f.tu, r.op)
            if g and not all(s.exact(g, u.rhs.args[0], b.id, seen, depth + 1) for b, u in g.stmts() if u.kind == 'RET'):
                return False
            return (bool(g) or r.op in ('pow', 'powl', 'ceil', 'floor', 'trunc', 'round', 'sqrt', 'exp', 'log', 'exp2', 'ceill')) and \
                all(s.exact(f, x, d[0], seen, depth + 1) for x in r.args)
        return False

    def clear(s, f, blk):
        """are all tests on the way to blk understood?"""
        _, _, dom = s.m.dom(f)
        for d in dom.get(blk, ()):
            b = f.blocks[d]
            t = b.st[-1] if b.st else None
            if d == blk or t is None or t.kind not in ('IF', 'SWITCH', 'UNSUP'):
                continue
            if t.kind != 'IF':
                return False
            if not any(x in dom[blk] and f.blocks[x].pred == [d] for x in t.targets) and t.targets[0] != t.targets[1]:
                continue
            if not s.plain(f, t.rhs, 0):
                return False
        return True

    def plain(s, f, r, depth):
        if r.kind != 'op2' or depth > 8:
            return False
        a, b = r.args
        d = f.defs.get(a.val) if a.kind == 's' else None
        if d and b.kind == 'i' and b.val == 0 and r.op in ('==', '!=') and d[1].ty == 'b':
            st = d[1]
            if isinstance(st, irpy.Phi):
                return all(o.kind == 'i' for _, o in st.args) and len({bool(o.val) for _, o in st.args}) == len(st.args)
            if st.rhs.kind == 'call':
                fl = [o for o in st.rhs.args if o.kind == 's' and optype(f, o) not in TYRANGE and optype(f, o) != 'ptr']
                return len(fl) == len(st.rhs.args) or bool(s.predicate(f, st.rhs, True, 0))
            if st.rhs.kind in ('op1', 'cast') and st.rhs.args[0].kind == 's':
                return s.plain(f, irpy.Rhs('op2', '!=', [st.rhs.args[0], b], None), depth + 1)
            if st.rhs.kind == 'op2' and st.rhs.op in ('&', '|', '^'):
                return False
            return st.rhs.kind == 'op2' and s.plain(f, st.rhs, depth + 1)
        return True

    def base(s, f, name):
        for k, p in enumerate(f.params):
            if p[2] == name:
                ty = TYRANGE.get(p[1], FULL)
                if f.exported:
                    return ty
                r = None
                for g, b, t in s.m.into.get(id(f), ()):
                    if k >= len(t.rhs.args):
                        return ty
                    x = s.get(g, t.rhs.args[k], b.id)
                    r = x if r is None else (min(r[0], x[0]), max(r[1], x[1]))
                return ty if r is None else (max(r[0], ty[0]), min(r[1], ty[1]))
        d = f.defs.get(name)
        if not d:
            return FULL
        blk, t = d
        if isinstance(t, irpy.Phi):
            r = None
            for pb, o in t.args:
                x = s.get(f, o, pb)
                r = x if r is None else (min(r[0], x[0]), max(r[1], x[1]))
            return r
        return s.rhs(f, t.rhs, blk, t.ty)

    def rhs(s, f, r, blk, ty):
        lim = TYRANGE.get(ty, FULL)
        a = [s.get(f, o, blk) for o in r.args] if r.kind in ('op1', 'op2', 'cast', 'call') else []
        clip = lambda v: (max(v[0], lim[0]), min(v[1], lim[1])) if v[0] <= lim[1] and v[1] >= lim[0] else lim
        try:
            if r.kind == 'op1':
                if r.op == 'mov':
                    return a[0]
                if r.op == 'neg':
                    return clip((-a[0][1], -a[0][0]))
                return lim
            if r.kind == 'cast':
                v = a[0]
                if optype(f, r.args[0]) in TYRANGE and (v[0] < lim[0] or v[1] > lim[1]):
                    return lim          # wraps around
                if lim != FULL:
                    lo = math.floor(v[0]) if not math.isinf(v[0]) else lim[0]
                    hi = math.ceil(v[1]) if not math.isinf(v[1]) else lim[1]
                    return clip((lo, hi))
                return v
            if r.kind == 'op2':
                x, y = a
                inf = any(isinstance(v, float) and math.isinf(v) for v in x + y)
                if lim[0] == 0 and ty != 'b':          # unsigned arithmetic wraps around
                    clip = lambda v: v if v[0] >= lim[0] and v[1] <= lim[1] else lim
                if r.op == '+':
                    return clip((x[0] + y[0], x[1] + y[1])) if not inf else lim
                if r.op == '-':
                    return clip((x[0] - y[1], x[1] - y[0])) if not inf else lim
                if inf:
                    return lim
                if r.op == 'min':
                    return (min(x[0], y[0]), min(x[1], y[1]))
                if r.op == 'max':
                    return (max(x[0], y[0]), max(x[1], y[1]))
                if r.op == '&' and (x[0] >= 0 or y[0] >= 0):
                    return clip((0, min(v[1] for v in (x, y) if v[0] >= 0)))
                if r.op == '%' and y[0] == y[1] and y[0] > 0:
                    return clip((max(x[0], 1 - y[0]) if x[0] < 0 else 0, min(x[1], y[0] - 1) if x[1] > 0 else 0))
                if r.op == '>>' and y[0] == y[1] and 0 <= y[0] < 64:
                    return clip((x[0] >> y[0], x[1] >> y[0]))
                if r.op == '|' and x[0] >= 0 and y[0] >= 0:
                    return clip((0, (1 << max(int(x[1]).bit_length(), int(y[1]).bit_length())) - 1))
                if r.op == '*':
                    p = [u*v for u in x for v in y]
                    return clip((min(p), max(p)))
                if r.op == '/' and (y[0] > 0 or y[1] < 0):
                    if ty in TYRANGE:
                        q = [(abs(u)//abs(v))*(1 if (u < 0) == (v < 0) else -1) for u in x for v in y]
                    else:
                        q = [u/v for u in x for v in y]
                    return clip((min(q + ([0] if x[0] <= 0 <= x[1] else [])), max(q + ([0] if x[0] <= 0 <= x[1] else []))))
                return lim
            if r.kind == 'call':
                nm = r.op
                if nm in ('ceil', 'floor', 'trunc', 'round', 'ceill', 'floorl', '__builtin_ceil'):
                    return (math.floor(a[0][0]) if not math.isinf(a[0][0]) else a[0][0], math.ceil(a[0][1]) if not math.isinf(a[0][1]) else a[0][1])
                g = s.m.P.find(f.tu, nm)
                short = nm if not g else re.sub(r'^_ZSt\d+|I.*$|[de]+$', '', nm)
                if nm in ('pow', 'powl') or g and g.pretty.endswith('::pow') or short == 'pow':
                    x, y = a[0], a[1]
                    if x[0] > 0 and not any(math.isinf(v) for v in x + y):
                        p = []
                        for u in x:
                            for v in y:
                                try:
                                    p.append(u**v)
                                except OverflowError:
                                    p.append(math.inf)
                        return (min(p)*(1 - 1e-12), max(p)*(1 + 1e-12))
                    return FULL
                if nm in ('exp', 'exp2', 'sqrt', 'log') and not any(math.isinf(v) for v in a[0]):
                    fn = {'exp': math.exp, 'exp2': lambda v: 2.0**v, 'sqrt': math.sqrt, 'log': math.log}[nm]
                    return (fn(a[0][0])*(1 - 1e-12) - 1e-300, fn(a[0][1])*(1 + 1e-12) + 1e-300)
                if g:
                    key = ('ret', id(g))
                    if key in s.stack:
                        return lim
                    s.stack.add(key)
                    v = None
                    for b, t in g.stmts():
                        if t.kind == 'RET' and t.rhs.args[0].kind != 'n':
                            # arguments known at this call are used through the call-site union only
                            x = s.get(g, t.rhs.args[0], b.id)
                            v = x if v is None else (min(v[0], x[0]), max(v[1], x[1]))
                    s.stack.discard(key)
                    return v if v is not None else lim
                if lim != FULL:
                    return lim
                return FULL
        except (ValueError, OverflowError, TypeError):
            return lim
        return lim


# ------------------------------------------------------------------ U02: bounded work
MAXITER = 10**6
FLT = ('f32', 'f64', 'f80', 'f128', 'c32', 'c64', 'c80')


def deps(f, body, o, seen):
    """transitive operands (inside the loop) an operand depends on; yields (kind, thing)"""
    todo = [o]
    while todo:
        o = todo.pop()
        if o.kind in ('a', 'l'):
            yield ('mem', o.val)
            for p in o.val.path:
                if p[0] == 'i':
                    todo.append(p[1])
            if o.val.kind == 'd':
                todo.append(irpy.Op('s', o.val.name))
            continue
        if o.kind != 's' or o.val in seen:
            continue
        seen.add(o.val)
        d = f.defs.get(o.val)
        if not d or d[0] not in body:
            yield ('inv', o.val)
            continue
        t = d[1]
        if isinstance(t, irpy.Phi):
            yield ('phi', (d[0], t))
            todo += [x for _, x in t.args]
        else:
            yield ('stmt', t)
            todo += t.rhs.args
            if t.rhs.kind == 'cond':
                todo += t.rhs.extra.args


def loop_info(m, R, f, h, body):
    """classification of the exits of one natural loop"""
    written = set()      # memory objects assigned in the loop
    for x in body:
        for t in f.blocks[x].st:
            if t.kind == 'SET' and t.lhs.kind in 'md':
                written.add(t.lhs.name)
            if t.kind == 'SET' and t.rhs.kind == 'call':
                for a in t.rhs.args:
                    if a.kind == 'a' and a.val.kind == 'm':
                        written.add(a.val.name)
    exits = []
    for x in body:
        b = f.blocks[x]
        t = b.st[-1] if b.st else None
        if not any(y not in body for y in b.succ):
            continue
        if t is None or t.kind not in ('IF', 'SWITCH'):
            exits.append(('other', None, t.loc if t else '?'))
            continue
        stay = t.targets[0] in body if t.kind == 'IF' else None
        info = counted(m, R, f, h, body, x, t, stay) if t.kind == 'IF' else None
        if info is not None:
            exits.append(('counted', info, t.loc))
            continue
        flt = var = False
        for o in t.rhs.args:
            for k, v in deps(f, body, o, set()):
                if k == 'phi' and v[1].ty in FLT:
                    flt = True
                if k == 'mem' and v.name in written and not (v.kind == 'm' and R_isint(f, v)):
                    flt = True
                if k == 'stmt' and v.rhs.kind == 'call':
                    var = True
                if k in ('phi', 'stmt'):
                    var = True
        exits.append(('convergence' if flt else 'data' if var else 'invariant', None, t.loc))
    return exits


def R_isint(f, ref):
    l = f.locals.get(ref.name)
    return bool(l) and l['ty'] in TYRANGE


def counted(m, R, f, h, body, x, t, stay):
    """(lo, hi) bound on the number of iterations if this exit compares an induction variable with an invariant"""
    r = t.rhs
    for _ in range(8):      # conditions kept in boolean variables
        if r.kind != 'op2' or r.op not in Ranges.NEG:
            return None
        a, b = r.args
        d = f.defs.get(a.val) if a.kind == 's' else None
        if not (b.kind == 'i' and b.val == 0 and r.op in ('!=', '==') and d and d[0] in body and not isinstance(d[1], irpy.Phi)):
            break
        q = d[1].rhs
        if q.kind == 'cast' and d[1].ty in TYRANGE or q.kind == 'op1' and q.op == 'mov' and q.args[0].kind == 's':
            q = irpy.Rhs('op2', '!=', [q.args[0], b], None)
        elif q.kind == 'op1' and q.op in ('lnot', 'not') and d[1].ty == 'b':
            q = irpy.Rhs('op2', '==', [q.args[0], b], None)
        elif not (q.kind == 'op2' and q.op in Ranges.NEG):
            break
        r = q if r.op == '!=' else irpy.Rhs('op2', Ranges.NEG[q.op], q.args, None)
    _, _, dom = m.dom(f)
    if not all(x in dom[l] for l in f.blocks[h].pred if l in body):
        return None          # the test is not made in every iteration
    op = r.op if stay else Ranges.NEG[r.op]
    for a, b, o in ((r.args[0], r.args[1], op), (r.args[1], r.args[0], {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op))):
        iv = induction(f, h, body, a)
        if iv is None:
            continue
        if any(k in ('phi', 'stmt') and not invariant_stmt(f, body, v if k == 'stmt' else None) for k, v in deps(f, body, b, set())):
            continue
        start, step = iv
        pre = [p for p in f.blocks[h].pred if p not in body]
        lo, hi = None, None
        for p in pre:
            q = R.get(f, start[p], p) if p in start else FULL
            lo = q[0] if lo is None else min(lo, q[0])
            hi = q[1] if hi is None else max(hi, q[1])
        bound = R.get(f, b, h)
        if o in ('<', '<=') and step > 0:
            return max(0, (bound[1] - lo)/step + 1)
        if o in ('>', '>=') and step < 0:
            return max(0, (hi - bound[0])/-step + 1)
        if o == '!=' and step == -1 and lo >= bound[1]:
            return hi - bound[0] + 1
        if o == '!=' and step == 1 and hi <= bound[0]:
            return bound[1] - lo + 1
        if o == '!=' and abs(step) == 1:
            return math.inf
    return None


def invariant_stmt(f, body, st):
    """statements in the loop whose operands are invariant (casts of constants, calls of numeric limits)"""
    if st is None:
        return False
    for o in st.rhs.args:
        if o.kind in ('a', 'l'):
            return False
        if o.kind == 's':
            d = f.defs.get(o.val)
            if d and d[0] in body and (isinstance(d[1], irpy.Phi) or not invariant_stmt(f, body, d[1])):
                return False
    return True


def induction(f, h, body, o):
    """({entry block: start operand}, step) if o is an induction variable of loop h (or a copy, cast or shift of it)"""
    off = 0
    for _ in range(8):
        if o.kind != 's':
            return None
        d = f.defs.get(o.val)
        if not d or d[0] not in body:
            return None
        t = d[1]
        if isinstance(t, irpy.Phi):
            if d[0] != h or t.ty not in TYRANGE and t.ty not in FLT:
                return None
            steps, start = set(), {}
            for pb, a in t.args:
                if pb in body:
                    s = step_of(f, a, t.name, 0)
                    if s is None:
                        return None
                    steps.add(s)
                else:
                    start[pb] = a
            if len(steps) != 1 or 0 in steps:
                return None
            return start, steps.pop()
        if t.rhs.kind == 'cast' or t.rhs.kind == 'op1' and t.rhs.op == 'mov':
            o = t.rhs.args[0]
        elif t.rhs.kind == 'op2' and t.rhs.op in '+-' and t.rhs.args[1].kind == 'i':
            o = t.rhs.args[0]
        else:
            return None
    return None


def step_of(f, a, name, depth):
    if a.kind != 's' or depth > 8:
        return None
    if a.val == name:
        return 0
    d = f.defs.get(a.val)
    if not d or isinstance(d[1], irpy.Phi):
        return None
    r = d[1].rhs
    if r.kind == 'cast' and optype(f, r.args[0]) in TYRANGE and d[1].ty in TYRANGE:
        p, q = TYRANGE[d[1].ty], TYRANGE[optype(f, r.args[0])]
        if p[1] - p[0] < q[1] - q[0]:
            return None             # the counter may wrap around
    if r.kind == 'op1' and r.op == 'mov' or r.kind == 'cast':
        return step_of(f, r.args[0], name, depth + 1)
    if r.kind == 'op2' and r.op in ('+', '-'):
        c = r.args[1]
        v = c.val if c.kind == 'i' else int(float(c.val)) if c.kind == 'f' and float(c.val) == int(float(c.val)) else None
        if v is not None:
            s = step_of(f, r.args[0], name, depth + 1)
            return None if s is None else s + (v if r.op == '+' else -v)
        if r.op == '+' and r.args[0].kind == 'i':
            s = step_of(f, r.args[1], name, depth + 1)
            return None if s is None else s + r.args[0].val
    return None


def certain(R, f, h, body):
    """are the bounds of the loop's exits derived by understood steps only?"""
    for x in body:
        t = f.blocks[x].st[-1] if f.blocks[x].st else None
        if t is None or t.kind != 'IF' or all(y in body for y in t.targets):
            continue
        for o in t.rhs.args:
            seen = set()
            for k, v in deps(f, body, o, seen):
                if k == 'inv' and not R.exact(f, irpy.Op('s', v), h):
                    return False
                if k == 'mem' or k == 'stmt' and v.rhs.kind == 'call':
                    return False
                if k == 'phi':
                    for pb, a in v[1].args:
                        if pb not in body and not R.exact(f, a, pb):
                            return False
    return True


def scc(m):
    """strongly connected components of the call graph with a cycle"""
    g = {}
    for f, b, t, c in m.calls:
        if c:
            g.setdefault(id(f), set()).add(id(c))
    idx, low, on, st, out, n = {}, {}, set(), [], [], [0]
    byid = {id(f): f for f in m.P.fns}

    def go(v):
        work = [(v, iter(g.get(v, ())))]
        idx[v] = low[v] = n[0]
        n[0] += 1
        st.append(v)
        on.add(v)
        while work:
            x, it = work[-1]
            for y in it:
                if y not in idx:
                    idx[y] = low[y] = n[0]
                    n[0] += 1
                    st.append(y)
                    on.add(y)
                    work.append((y, iter(g.get(y, ()))))
                    break
                if y in on:
                    low[x] = min(low[x], idx[y])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[x])
                if low[x] == idx[x]:
                    c = []
                    while True:
                        y = st.pop()
                        on.discard(y)
                        c.append(y)
                        if y == x:
                            break
                    if len(c) > 1 or x in g.get(x, ()):
                        out.append([byid[y] for y in c])
    for f in m.P.fns:
        if id(f) not in idx:
            go(id(f))
    return out


def u02(prop):
    m = Model()
    R = Ranges(m)
    rep = vf.Report(prop)
    roots = m.roots()
    if len(roots) < 60:
        raise vf.Broken('only %d library functions found' % len(roots))
    nl = 0
    for f in m.P.fns:
        L, irr, dom = m.dom(f)
        for x, y in irr:
            rep.obl += 1
            rep.notes.append('%s: irreducible loop %d -> %d' % (f.pretty, x, y))
        for h, body, latches in L:
            nl += 1
            rep.obl += 1
            ex = loop_info(m, R, f, h, body)
            loc = next((e[2] for e in ex), None) or next((t.loc for x in sorted(body) for t in f.blocks[x].st), '?')
            kinds = [e[0] for e in ex]
            best = min([e[1] for e in ex if e[0] == 'counted'], default=None)
            key = '%s:%s' % (f.tu, f.pretty)
            if best is not None and best <= MAXITER:
                rep.dis += 1
                rep.samples.append('%s %s: at most %d iterations' % (f.pretty, loc, best))
            elif 'convergence' in kinds:
                rep.dis += 1
                rep.samples.append('%s %s: left when the partial sum does not change or overflows' % (f.pretty, loc))
            elif not ex:
                rep.violation(key, '%s, loop at %s has no exit' % (f.pretty, loc))
            elif set(kinds) <= {'counted', 'invariant'} and not certain(R, f, h, body):
                rep.notes.append('%s: the length of the loop at %s is not known' % (f.pretty, loc))
            elif set(kinds) <= {'counted', 'invariant'}:
                rep.violation(key, '%s, loop at %s runs up to %s iterations, depending on the argument; no exit depends on the convergence of the result'
                              % (f.pretty, loc, '%.3g' % best if best is not None else 'an unbounded number of'))
            else:
                rep.notes.append('%s: loop at %s not classified (%s)' % (f.pretty, loc, ', '.join(kinds)))
    for comp in scc(m):
        rep.obl += 1
        bad = None
        for f, b, t, c in m.calls:
            if len(comp) == 1 and f is comp[0] and c is f:
                same = [R.same(f, a, p[2]) if p[2] else False for a, p in zip(t.rhs.args, f.params)]
                if same and all(same):
                    bad = t
        if bad:
            rep.violation('%s:%s' % (comp[0].tu, comp[0].pretty), '%s calls itself with unchanged arguments at %s' % (comp[0].pretty, bad.loc))
        else:
            rep.dis += 1
            rep.samples.append('recursion with changing arguments: ' + ', '.join(f.pretty for f in comp))
    rep.cov.update(functions_analysed=len(m.P.fns), loops=nl, call_sites=len(m.calls), recursive_components=len(scc(m)),
                   rule='every natural loop has an exit test of an induction variable against a bound of at most %d (bound ranges from constants, '
                        'dominating guards and all call sites) or an exit on stagnation / overflow of the accumulated value; no recursion with unchanged arguments' % MAXITER)
    return vf.finish(rep, 'other', 'Loop and recursion analysis of all functions: natural loops from dominators, induction variables, integer range '
                     'analysis with guards and call sites, classification of exit conditions.', TRUST)


# ------------------------------------------------------------------ U03: effects
PURE = set()
for _n in ('acos acosh asin asinh atan atan2 atanh cbrt ceil copysign cos cosh erf erfc exp exp2 exp10 expm1 fabs fdim floor fma fmax fmin fmod hypot '
           'ilogb ldexp llrint llround log log10 log1p log2 logb lrint lround nearbyint nextafter pow pow10 powi remainder rint round scalbln scalbn sin '
           'sinh sqrt tan tanh tgamma trunc signbit isnan isinf isfinite nan abs labs llabs div ldiv lldiv huge_val inf '
           'cabs carg cimag creal conj cproj cexp clog csqrt cpow csin ccos ctan csinh ccosh ctanh cacos casin catan cacosh casinh catanh').split():
    for _s in ('', 'f', 'l'):
        PURE.add(_n + _s)
PURE |= {'__builtin_' + n for n in PURE} | {'__builtin_unreachable', '__builtin_expect', '__builtin_constant_p', '__builtin_clear_padding'}
PURE |= {'__muldc3', '__mulsc3', '__mulxc3', '__divdc3', '__divsc3', '__divxc3', '__powidf2', '__powixf2', '__powisf2', '__isnan', '__isinf', '__finite', '__signbit',
         '__fpclassify', '_gfortran_pow_r8_i4', '_gfortran_pow_c8_i4', '_gfortran_pow_r8_i8', '_gfortran_pow_c8_i8', '_gfortran_pow_i4_i4', '_gfortran_pow_i8_i8'}
WRITES = {'sincos': (1, 2), 'sincosf': (1, 2), 'sincosl': (1, 2), 'modf': (1,), 'modff': (1,), 'modfl': (1,), 'frexp': (1,), 'frexpf': (1,), 'frexpl': (1,),
          'remquo': (2,), 'remquof': (2,), 'remquol': (2,), 'memcpy': (0,), 'memset': (0,), 'memmove': (0,), '__builtin_memcpy': (0,), '__builtin_memset': (0,),
          '__builtin_memmove': (0,)}
DENY = re.compile(r'^(__builtin_)?(malloc|calloc|realloc|free|aligned_alloc|_Zn[wa]|_Zd[la]|__cxa_(throw|allocate|rethrow|begin_catch|free_exc)|_Unwind_Resume|'
                  r'fe(set|raise|clear|hold|update|test|get)\w*|l?gamma[fl]?(_r)?$|lgamma|rand|srand|random|drand|time$|clock|gettimeofday|getenv|setenv|putenv|printf|fprintf|puts|fputs|'
                  r'putchar|fopen|fwrite|write$|read$|open$|exit|abort|_exit|raise|signal|longjmp|setjmp|pthread|__errno_location|setlocale|strtod|system|_gfortran_(st_|transfer|stop|'
                  r'error|runtime|os_error|random|getenv|system_clock|time|date)|_ZSt(4cout|4cerr|9terminate|lsI|17__throw|20__throw|24__throw)|_ZNSo|_ZNKSt9basic_ios|_ZNSt6vector|'
                  r'_ZNSt3mapI|_ZNSt6mutex|_ZNSt7__cxx1112basic_string|__tls|_ZTW|_ZTH)')
GUARD = ('__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort', '__cxa_atexit')


class Effects:
    def __init__(s, m):
        s.m = m
        s.w = {id(f): {} for f in m.P.fns}         # root -> (loc, text)
        s.ret = {id(f): set() for f in m.P.fns}
        s.store = {}
        for f in m.P.fns:
            st = s.store[id(f)] = {}
            for b, t in f.stmts():
                if t.kind == 'SET' and t.lhs.kind == 'm':
                    st.setdefault(t.lhs.name, []).append(t)
        s.alias = {}
        for _ in range(30):
            if not s.sweep():
                break

    def obj(s, f, name):
        if name in f.locals:
            return ('static', f.tu + ':' + f.name + ':' + name) if f.locals[name]['static'] else ('local', name)
        if any(p[0] == name for p in f.params) or name.startswith(('<retval>', '<result>')):
            return ('local', name)
        if re.match(r'^(D\.\d+|__result|.*D\.\d+)$', name) and not (f.tu, re.sub(r'D\.\d+$', '', name)) in s.m.P.data:
            # result objects have no declaration of their own
            return ('result', name) if name.startswith(('__result', 'D.')) else ('global', name)
        return ('global', name)

    def roots(s, f, o, seen=None):
        seen = set() if seen is None else seen
        if o.kind == 'a':
            r = o.val
            return {s.obj(f, r.name)} if r.kind == 'm' else s.roots(f, irpy.Op('s', r.name), seen) if r.kind in 'ds' else set()
        if o.kind == 'l':
            r = o.val
            if r.kind == 'm' and s.obj(f, r.name)[0] in ('local', 'result'):
                if any(p[0] == r.name and p[1] == 'ptr' for p in f.params):
                    return {('param', [p[0] for p in f.params].index(r.name))}
                out = set()
                for t in s.store[id(f)].get(r.name, ()):
                    if (id(t), 0) not in seen:
                        seen.add((id(t), 0))
                        out |= s.rroots(f, t.rhs, seen)
                return out
            if r.kind == 'm':
                return {('global', 'pointed to by ' + r.name)}
            return {('unknown', '')}
        if o.kind != 's' or o.val in seen:
            return set()
        seen.add(o.val)
        for k, p in enumerate(f.params):
            if p[2] == o.val:
                return {('param', k)}
        d = f.defs.get(o.val)
        if not d:
            return {('unknown', '')}
        if isinstance(d[1], irpy.Phi):
            out = set()
            for _, x in d[1].args:
                out |= s.roots(f, x, seen)
            return out
        return s.rroots(f, d[1].rhs, seen)

    def rroots(s, f, r, seen):
        out = set()
        if r.kind in ('op1', 'cast', 'cond'):
            for x in r.args:
                out |= s.roots(f, x, seen)
        elif r.kind == 'op2':
            out |= s.roots(f, r.args[0], seen)
        elif r.kind == 'call':
            g = s.m.P.find(f.tu, r.op)
            if not g:
                return {('unknown', '')}
            for k, v in s.ret[id(g)]:
                if k == 'param':
                    if v < len(r.args):
                        out |= s.roots(f, r.args[v], seen)
                elif k in ('global', 'static', 'unknown'):
                    out.add((k, v))
        return out

    def add(s, f, root, loc, txt):
        if root[0] == 'local' or root in s.w[id(f)]:
            return False
        s.w[id(f)][root] = (loc, txt)
        return True

    def sweep(s):
        ch = False
        for f in s.m.P.fns:
            for b, t in f.stmts():
                if t.kind == 'RET' and f.ret == 'ptr':
                    n = s.roots(f, t.rhs.args[0]) - s.ret[id(f)]
                    if n:
                        s.ret[id(f)] |= n
                        ch = True
                if t.kind != 'SET':
                    continue
                if t.lhs.kind == 'm':
                    ch |= s.add(f, s.obj(f, t.lhs.name), t.loc, 'assigns ' + t.lhs.name)
                elif t.lhs.kind == 'd':
                    for r in s.roots(f, irpy.Op('s', t.lhs.name)):
                        ch |= s.add(f, r, t.loc, 'stores through ' + t.lhs.name)
                if t.rhs.kind == 'call':
                    g = s.m.P.find(f.tu, t.rhs.op)
                    if g:
                        for (k, v), (loc, txt) in list(s.w[id(g)].items()):
                            if k == 'param' and v < len(t.rhs.args):
                                for r in s.roots(f, t.rhs.args[v]):
                                    ch |= s.add(f, r, t.loc, 'calls %s, which %s (%s)' % (g.pretty, txt, loc))
                            elif k in ('global', 'static', 'unknown'):
                                ch |= s.add(f, (k, v), t.loc, 'calls %s, which %s (%s)' % (g.pretty, txt, loc))
                    else:
                        n = re.sub(r'^(C?__builtin_)', '', t.rhs.op)
                        for k in WRITES.get(t.rhs.op, WRITES.get(n, ())):
                            if k < len(t.rhs.args):
                                for r in s.roots(f, t.rhs.args[k]):
                                    ch |= s.add(f, r, t.loc, 'calls ' + t.rhs.op)
        return ch


def closure(m, f):
    out, st = {}, [f]
    while st:
        g = st.pop()
        if id(g) in out:
            continue
        out[id(g)] = g
        for b, t in g.stmts():
            if t.rhs is not None and t.rhs.kind == 'call':
                h = m.P.find(g.tu, t.rhs.op)
                if h:
                    st.append(h)
    return list(out.values())


def isctor(name):
    return re.match(r'^_ZNSt7complexI[def]EC[12]', name)


def u03(prop):
    m = Model()
    E = Effects(m)
    rep = vf.Report(prop)
    roots = m.roots()
    if len(roots) < 60:
        raise vf.Broken('only %d library functions found' % len(roots))
    ext, seen = set(), {}
    nst = 0
    for f in roots:
        rep.obl += 1
        ok = True
        for (k, v), (loc, txt) in E.w[id(f)].items():
            if k == 'param':
                ty = f.params[v][1]
                rep.violation('%s:%s' % (f.tu, f.name), '%s (%s) modifies its argument %s at %s: %s' % (f.pretty, f.name, f.params[v][0], loc, txt))
                ok = False
            elif k in ('global', 'static'):
                if dyninit(m, f, v):
                    rep.notes.append('%s: %s at %s initialises a static constant' % (f.pretty, txt, loc))
                else:
                    rep.violation('%s:%s' % (f.tu, f.name), '%s modifies static storage %s at %s: %s' % (f.pretty, v, loc, txt))
                ok = False
            elif k == 'unknown':
                rep.notes.append('%s: write through an unresolved pointer at %s: %s' % (f.pretty, loc, txt))
                ok = False
        for g in closure(m, f):
            if id(g) not in seen:
                r = seen[id(g)] = []
                for b, t in g.stmts():
                    nst += 1
                    if t.rhs is not None and t.rhs.kind == 'call' and not m.P.find(g.tu, t.rhs.op):
                        n = t.rhs.op
                        base = re.sub(r'^__builtin_', '', n)
                        if n in PURE or base in PURE or n in WRITES or base in WRITES or isctor(n) or n in GUARD:
                            ext.add(n)
                        elif DENY.match(n):
                            r.append(('bad', g, t))
                        else:
                            r.append(('unknown', g, t))
                    if t.rhs is not None and t.rhs.kind == 'unsup' and not t.rhs.op.startswith('resx'):
                        r.append(('unsup', g, t))
            for kind, g, t in seen[id(g)]:
                if kind == 'bad':
                    rep.violation('%s:%s:%s' % (f.tu, f.name, t.rhs.op), '%s calls %s in %s at %s, which is not free of side effects' % (f.pretty, t.rhs.op, g.pretty, t.loc))
                    ok = False
                elif kind == 'unsup':
                    rep.notes.append('%s: statement not understood at %s: %s' % (f.pretty, t.loc, t.rhs.op[:80]))
                    ok = False
                elif kind == 'unknown':
                    rep.notes.append('%s: call of unknown function %s at %s' % (f.pretty, t.rhs.op, t.loc))
                    ok = False
        if ok:
            rep.dis += 1
            rep.samples.append('%s: %d functions in the call closure, writes only to its own locals and result' % (f.pretty, len(closure(m, f))))
    rep.cov.update(functions_analysed=len(seen), entry_points=len(roots), call_sites=len(m.calls), statements=nst, library_functions=sorted(ext),
                   rule='no store of a library function or anything it calls reaches an argument or static storage; every external callee is a pure mathematical function')
    return vf.finish(rep, 'other', 'Interprocedural effect analysis: roots of every stored-through pointer (parameter, local, static, unknown) with call '
                     'summaries to a fixed point; classification of external callees.', TRUST)


def dyninit(m, f, v):
    """is static object v only assigned under a C++ initialisation guard?"""
    for g in m.P.fns:
        if v.startswith(g.tu + ':' + g.name + ':'):
            name = v.rsplit(':', 1)[1]
            return g.locals[name]['const'] and any(t.rhs is not None and t.rhs.kind == 'call' and t.rhs.op == GUARD[0] for b, t in g.stmts())
    return False


REGISTRY = {'U02': u02, 'U03': u03}
