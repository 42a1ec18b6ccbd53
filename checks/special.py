"""Exceptional arguments, exact special values and totality, decided by evaluating the
lowered sources in the interval / IEEE-class domain (mode sv of the analyser)."""
import copy, functools, json, math, os, time, zlib
from decimal import Decimal, getcontext
import vf
from .accuracy import cpp, TRUST

INF = float('inf')
L3 = ('c', 'cpp', 'f')
PI = 3.14159265358979323846


class Fun:
    def __init__(s, lang, fn, sig, prec, name):
        s.lang, s.fn, s.sig, s.prec, s.name = lang, fn, sig, prec, '%s %s' % (lang, name)
        s.extra = {}


SUF = {53: '', 24: 'f', 64: 'l'}
CH = {53: 'd', 24: 'f', 64: 'e'}


def li(lang, n, prec=53):
    if lang == 'c':
        return Fun('c', 'li%d%s' % (n, SUF[prec]), 'd', prec, 'li%d%s' % (n, SUF[prec]))
    if lang == 'cpp':
        return Fun('cpp', cpp('Li%d' % n, CH[prec]), 'd', prec, 'Li%d(real%d)' % (n, prec))
    return Fun('f', 'dli%d_' % n, 'p', prec, 'dli%d' % n)


def cli(lang, n, prec=53):
    if lang == 'c':
        return Fun('c', 'cli%d%s' % (n, SUF[prec]), 'c', prec, 'cli%d%s' % (n, SUF[prec]))
    if lang == 'cpp':
        return Fun('cpp', cpp('Li%d' % n, CH[prec], True), 'q', prec, 'Li%d(complex%d)' % (n, prec))
    return Fun('f', 'cdli%d_' % n, 'q', prec, 'cdli%d' % n)


def cl(lang, n, prec=53):
    if lang == 'c':
        return Fun('c', 'cl%d%s' % (n, SUF[prec]), 'd', prec, 'cl%d%s' % (n, SUF[prec]))
    if lang == 'cpp':
        return Fun('cpp', cpp('Cl%d' % n, CH[prec]), 'd', prec, 'Cl%d(real%d)' % (n, prec))
    return Fun('f', 'dcl%d_' % n, 'p', prec, 'dcl%d' % n)


GLI = Fun('cpp', cpp('Li', 'd', True, True), 'nq', 53, 'Li(n,z)')
GCL = Fun('cpp', cpp('Cl', 'd', False, True), 'nd', 53, 'Cl(n,x)')
GSL = Fun('cpp', cpp('Sl', 'd', False, True), 'nd', 53, 'Sl(n,x)')


def internal(name):
    return Fun('cpp', '_ZN13polylogarithm%d%sEl' % (len(name), name), 'n', 53, name)


REAL_LI = [li(l, n) for l in L3 for n in (2, 3, 4)] + [li(l, 2, p) for l in ('c', 'cpp') for p in (24, 64)]
CX_LI = [cli(l, n) for l in L3 for n in range(2, 7)] + [cli(l, n, 64) for l in ('c', 'cpp') for n in range(2, 7)] + [cli(l, 2, 24) for l in ('c', 'cpp')]
CLAUSEN = [cl(l, n) for l in L3 for n in range(2, 7)] + [cl(l, n, 64) for l in ('c', 'cpp') for n in range(2, 7)] + [cl('cpp', 1)]


# ---- predicates on one path result: True (holds), False (definitely violated), None (not decided)
def _num(i):
    return 'lo' in i


def is_nan(i):
    return (True if not _num(i) else None) if i['nan'] else False


def within(lo, hi):
    def f(i):
        if not _num(i):
            return False if i['nan'] else True
        if i['hi'] < lo or i['lo'] > hi:
            return False
        return True if not i['nan'] and i['lo'] >= lo and i['hi'] <= hi else None
    return f


def zero(sign):     # exactly +0 / -0 ('any': either)
    def f(i):
        if not _num(i):
            return False if i['nan'] else True
        if i['lo'] > 0 or i['hi'] < 0 or not (i['pz'] or i['nz']):
            return False
        if i['lo'] < 0 or i['hi'] > 0 or i['nan']:
            return None
        if sign == '+' and not i['pz'] or sign == '-' and not i['nz']:
            return False
        return True if sign == 'any' or not (i['pz'] and i['nz']) else None
    return f


def finite(i):
    if not _num(i):
        return False if i['nan'] else True
    if i['lo'] == i['hi'] and abs(i['lo']) == INF:
        return False
    return True if not i['nan'] and abs(i['lo']) != INF and abs(i['hi']) != INF else None


MINF, PINF = within(-INF, -INF), within(INF, INF)


def near(v, rel):
    e = abs(v)*rel
    return within(v - e, v + e)


def both(fr, fi):
    def f(r):
        a, b = fr(r['re']), fi(r['im'])
        return False if a is False or b is False else None if a is None or b is None else True
    return f


def real(fr):
    return lambda r: fr(r['re'])


def nonfinite(r):  # at least one component is not a finite number
    a, b = finite(r['re']), finite(r['im'])
    return False if a and b else True if a is False or b is False else None


BOTHNAN = both(is_nan, is_nan)


class Case:
    def __init__(s, fun, spec, pred, what):
        s.fun, s.spec, s.pred, s.what = fun, spec, pred, what


CHUNK = 12


def evaluate(cases):
    """runs all cases, returns [(case, result dict)]"""
    irs = vf.lower(sorted({c.fun.lang for c in cases}))
    groups = {}
    for c in cases:
        groups.setdefault((c.fun.lang, c.fun.fn, c.fun.sig, c.fun.prec, tuple(sorted(c.fun.extra.items()))), []).append(c)
    jobs, where = [], {}
    for g, cs in groups.items():
        for k in range(0, len(cs), CHUNK):
            part = cs[k:k + CHUNK]
            key = (g, k)
            where[key] = part
            jobs.append((key, functools.partial(vf.ana, 'sv', irs[g[0]], fn=g[1], sig=g[2], prec=g[3],
                                                cases=';'.join(c.spec for c in part), **dict(g[4]))))
    res = vf.run_jobs(jobs)
    out, fns, ext, ops = [], set(), set(), 0
    for key, part in where.items():
        d = res[key]
        if 'error' in d:
            raise vf.Broken('%s: %s' % (part[0].fun.name, d['error']))
        fns.update(part[0].fun.lang + ':' + f for f in d['fns'])
        ext.update(d['ext'])
        ops += d['ops']
        if len(d['cases']) != len(part):
            raise vf.Broken('%s: %d results for %d cases' % (part[0].fun.name, len(d['cases']), len(part)))
        out += list(zip(part, d['cases']))
    return out, fns, ext, ops


def show(i):
    if not _num(i):
        return 'NaN' if i['nan'] else '(none)'
    z = ('+0' if i['pz'] else '') + ('-0' if i['nz'] else '')
    s = z if z and i['lo'] == 0 == i['hi'] else '%.17g' % i['lo'] if i['lo'] == i['hi'] else '[%.6g, %.6g]' % (i['lo'], i['hi'])
    return s + (' or NaN' if i['nan'] else '')


def judge(case, r):
    """(verdict, text)"""
    v = True
    txt = ''
    for p in r['list']:
        w = case.pred(p)
        if w is False:
            return False, 'argument %s: result (%s, %s), required: %s; path %s' % (case.spec, show(p['re']), show(p['im']), case.what, p['tr'][:160])
        if w is None and v:
            v, txt = None, 'argument %s: result (%s, %s) not decided' % (case.spec, show(p['re']), show(p['im']))
    if r['unproven']:
        return None, 'argument %s: %s' % (case.spec, r['unproven'][0])
    if r['results'] > len(r['list']):
        return None, 'argument %s: too many paths' % case.spec
    if not r['list']:
        return None, 'argument %s: no path' % case.spec
    return v, txt


POS = ['4.9406564584124654e-324', '1e-310', '1e-300', '1e-200', '1e-100', '1e-20', '1e-5', '0.1', '0.7', '1.7', '3', '6', '20', '1e5', '1e10', '1e20', '1e100', '1e160', '1e200', '1e300', '1.7976931348623157e308']
WIDE = {'fin': ['0', '-0'] + POS + ['-' + x for x in POS]}
WIDE['top'] = WIDE['fin'] + ['inf', '-inf', 'nan']


def halves(spec):
    """parts of the widest component of a case: order ranges and numeric ranges are halved, classes become single values"""
    f = (spec.split('|') + ['', ''])[:3]
    q = f[2].split(':')
    if len(q) > 1 and q[0] != q[1]:
        lo, hi = int(q[0]), int(q[1])
        m = (lo + hi)//2
        return ['|'.join([f[0], f[1], ':'.join([str(a), str(b)] + q[2:])]) for a, b in ((lo, m), (m + 1, hi))]
    for i in (0, 1):
        if f[i] in WIDE:
            return ['|'.join(f[:i] + [x] + f[i + 1:]) for x in WIDE[f[i]]]
        t = f[i].split(':')
        if len(t) == 2:
            a, b = Decimal(t[0]), Decimal(t[1])
            if a < 0 < b:
                ps = [(a, Decimal('-1e-300')), (Decimal('1e-300'), b)]
            elif abs(b - a) <= abs(a)*Decimal('1e-15') + Decimal('1e-330'):
                ps = []
            else:
                m = (a + b)/2 if a == 0 or b == 0 or max(abs(a), abs(b)) < 4*min(abs(a), abs(b)) else (a*b).sqrt()*(1 if a > 0 else -1)
                ps = [(a, m), (m, b)]
            return ['|'.join(f[:i] + ['%.20e:%.20e' % p] + f[i + 1:]) for p in ps] or ['|'.join(f[:i] + ['%.17e' % x] + f[i + 1:]) for x in (a, b)]
    return []


def singles(spec):
    """representative single arguments of a case (the values of the classes x some orders)"""
    out = []
    for p in points(spec):
        f = p.split('|')
        g = (spec.split('|') + [''])[:2]
        xs = WIDE.get(g[0], [f[0]])
        ys = WIDE.get(g[1], [f[1]])
        if len(xs)*len(ys) > 24:
            xs, ys = xs[::5] + xs[1:2], ys[::5] + ys[1:2]
        out += ['%s|%s|%s' % (x, y, f[2]) for x in xs for y in ys]
    return sorted(out, key=lambda t: zlib.crc32(t.encode()))    # (mixed)


def confirm(c, r):
    """a definitely wrong path result of a case that covers many arguments may belong to an infeasible path: follow it
    to a single argument or to a part of the case with one path; (spec, text) or None"""
    t0 = time.time()
    fun = copy.copy(c.fun)
    fun.extra = dict(c.fun.extra, maxtotal=400000)
    ps = singles(c.spec)
    for k in range(0, len(ps), 64):
        if time.time() - t0 > 60:
            break
        for q, r in evaluate([Case(fun, p, c.pred, c.what) for p in ps[k:k + 64]])[0]:
            v, txt = judge(q, r)
            if v is False and len(r['list']) == 1:
                return q.spec, txt
    todo = [c]
    t0 = time.time()
    for _ in range(140):
        new = []
        for k in todo:
            h = halves(k.spec)
            new += [Case(fun, s, c.pred, c.what) for s in h]
        if not new or time.time() - t0 > 60:
            return None
        out, _, _, _ = evaluate(new)
        todo = []
        for k, r in out:
            v, txt = judge(k, r)
            if v is False:
                if len(r['list']) == 1 or not halves(k.spec):
                    return k.spec, txt
                todo.append(k)
        if not todo:
            return None
        todo = todo[:2] + todo[-2:] if len(todo) > 4 else todo
    return None


def settled(c, r, v, txt, done):
    """verdict after confirmation"""
    if v is False and len(r['list']) > 1 and halves(c.spec):
        k = done.setdefault(c.fun.name, [0, 0])     # confirmed, tried
        if k[0] >= 3 or k[1] >= 6:
            return (False if k[0] else None), txt
        k[1] += 1
        w = confirm(c, r)
        if w is None:
            return None, txt + ' (not confirmed on single arguments)'
        k[0] += 1
        return False, '%s (part of %s)' % (w[1], c.spec)
    return v, txt


def decide(prop, cases, explanation, rule, mincases, minshare=0.5):
    rep = vf.Report(prop)
    out, fns, ext, ops = evaluate(cases)
    und = 0
    perfun, done = {}, {}
    for c, r in out:
        v, txt = settled(c, r, *judge(c, r), done)
        p = perfun.setdefault(c.fun.name, [0, 0])
        p[0] += 1
        if v is False:
            rep.violation('%s:%s' % (c.fun.name, c.spec), '%s, %s' % (c.fun.name, txt))
        elif v is None:
            und += 1
            rep.notes.append('%s %s' % (c.fun.name, txt))
        else:
            rep.dis += 1
            p[1] += 1
    rep.obl = len(out)
    if len(out) < mincases:
        raise vf.Broken('only %d cases' % len(out))
    if sum(q[1]/q[0] for q in perfun.values()) < minshare*len(perfun) and not rep.viol:
        raise vf.Broken('%d of %d cases not decided: %s' % (und, len(out), rep.notes[0]))
    rep.samples = ['%s: %d cases, %d discharged' % (k, v[0], v[1]) for k, v in sorted(perfun.items())][:12]
    rep.cov.update(cases=len(out), undecided_cases=und, functions_analysed=len(fns), library_models=sorted(ext),
                   abstract_operations=ops, rule=rule)
    return vf.finish(rep, 'other', explanation, TRUST)


NMAX, NMIN = 9223372036854775807, -9223372036854775808


def s01_cases():
    c = []
    for f in REAL_LI:
        c += [Case(f, 'nan', real(is_nan), 'NaN'), Case(f, 'inf', real(MINF), '-inf'), Case(f, '-inf', real(MINF), '-inf')]
    for f in CLAUSEN:
        c += [Case(f, x, real(is_nan), 'NaN') for x in ('nan', 'inf', '-inf')]
    for f in CX_LI:
        if f.lang == 'f':
            c += [Case(f, 'nan|nan', nonfinite, 'not a finite value')]
        else:
            c += [Case(f, s, BOTHNAN, 'NaN in both components') for s in ('nan|nan', 'nan|fin', 'fin|nan', 'nan|+0', 'nan|-0', '+0|nan', '0.5|nan', '-2|nan', 'nan|1', 'nan|1e-300')]
    # generic functions: whole range of orders
    lo, hi = NMIN + 1000, 9223372036854775000
    for n in ('%d:%d' % (lo, -1), '0', '1', '2:%d' % hi):
        for s in ('nan|nan', 'nan|fin', 'fin|nan', 'nan|top', 'top|nan'):
            c.append(Case(GLI, '%s|%s' % (s, n), BOTHNAN, 'NaN in both components'))
        for s in ('inf|+0', '-inf|+0', 'inf|fin', '-inf|fin', 'fin|inf', 'fin|-inf', 'inf|inf', '-inf|-inf', 'inf|-0'):
            c.append(Case(GLI, '%s|%s' % (s, n), both(MINF, zero('any')), '-inf'))
    c += [Case(GCL, '%s||%d:0' % (s, NMIN), real(is_nan), 'NaN for order below 1') for s in ('0', 'fin', 'inf', 'nan')]
    c += [Case(GSL, '%s||%d:0' % (s, NMIN), real(is_nan), 'NaN for order below 1') for s in ('0', 'fin', 'inf', 'nan')]
    for f in (GCL, GSL):
        for n in range(1, 70):
            c += [Case(f, '%s||%d' % (s, n), real(is_nan), 'NaN') for s in ('nan', 'inf', '-inf')]
        for par in (0, 1):
            c += [Case(f, '%s||40:%d:2:%d' % (s, 4611686018427387000, par), real(is_nan), 'NaN') for s in ('nan', 'inf', '-inf')]
    return c


def s01(p):
    return decide(p, s01_cases(), 'Evaluation of the lowered sources on classes of exceptional arguments (NaN, infinities, orders outside '
                  'the domain) in the IEEE-class domain; every feasible path must return the documented exceptional value.',
                  'one obligation per function and argument class: every feasible path returns the required class of value', 700)



getcontext().prec = 30


class Range(Case):
    """a range of the (real part of the) argument, split until decided"""
    why = ''
    def __init__(s, fun, lo, hi, rest, pred, what, depth=0):
        s.lo, s.hi, s.rest, s.depth = Decimal(lo), Decimal(hi), rest, depth
        Case.__init__(s, fun, '%s:%s%s' % (lo, hi, rest), pred, what)

    def split(s):
        a, b = s.lo, s.hi
        if a > 0 and b/a > 16 or b < 0 and a/b > 16:
            m = (a*b).sqrt()
            if b < 0:
                m = -m
            m = +m.normalize()
        else:
            m = (a + b)/2
        m = Decimal('%.15e' % m)
        if not a < m < b:
            return []
        return [Range(s.fun, a, m, s.rest, s.pred, s.what, s.depth + 1), Range(s.fun, m, b, s.rest, s.pred, s.what, s.depth + 1)]


def decide_ranges(prop, cases, explanation, rule, mincases, maxdepth=9, minshare=0.5):
    rep = vf.Report(prop)
    und, n, nev = 0, 0, 0
    perfun, fns, ext, ops = {}, set(), set(), 0
    todo = cases
    badfun, done, lost = {}, {}, {}
    while todo:
        out, f, e, o = evaluate(todo)
        fns |= f; ext |= e; ops += o
        nev += len(out)
        todo = []
        for c, r in out:
            v, txt = judge(c, r)
            # (a bad path among several is confirmed on smaller ranges first)
            why = txt.split(': ', 1)[-1] if v is None and (not r['list'] or r['unproven']) else ''     # (a construct rather than a range, where it stays the same)
            if why:
                lost[c.fun.name, why] = lost.get((c.fun.name, why), 0) + 1
            if isinstance(c, Range) and (v is None and c.depth < maxdepth and not (why and c.depth >= 2 and why == c.why and (not r['list'] or lost[c.fun.name, why] > 300)) or v is False and len(r['list']) > 1 and c.depth < 4):
                k = c.split()
                if k:
                    for q in k:
                        q.why = why
                    todo += k
                    continue
            n += 1
            p = perfun.setdefault(c.fun.name, [0, 0])
            p[0] += 1
            v, txt = settled(c, r, v, txt, done)
            if v is False:
                k = badfun[c.fun.name] = badfun.get(c.fun.name, 0) + 1
                if k <= 5:
                    rep.violation('%s:%s' % (c.fun.name, c.spec), '%s, %s' % (c.fun.name, txt))
            elif v is None:
                und += 1
                rep.notes.append('%s %s' % (c.fun.name, txt))
            else:
                rep.dis += 1
                p[1] += 1
    rep.obl = n
    if n < mincases:
        raise vf.Broken('only %d cells' % n)
    if sum(q[1]/q[0] for q in perfun.values()) < minshare*len(perfun) and not rep.viol:
        raise vf.Broken('%d of %d cells not decided: %s' % (und, n, rep.notes[0]))
    rep.samples = ['%s: %d cells, %d discharged' % (k, v[0], v[1]) for k, v in sorted(perfun.items())][:12]
    rep.cov.update(cells=n, undecided_cells=und, abstract_executions=nev, functions_analysed=len(fns), library_models=sorted(ext),
                   abstract_operations=ops, rule=rule)
    return vf.finish(rep, 'other', explanation, TRUST)


MIN = {24: '1.4012984643248170709e-45', 53: '4.9406564584124654418e-324', 64: '3.6451995318824746025e-4951'}
MAX = {24: '3.4028234663852885981e+38', 53: '1.7976931348623157081e+308', 64: '1.189731495357231765e+4932'}


def axis(f, rest, pred, what, lo=None, hi=None):
    """ranges covering the finite non-zero reals (optionally only those in [lo, hi])"""
    cuts = ['-' + MAX[f.prec], '-6.3', '-2', '-1', '-0.5', '-0.01', '-' + MIN[f.prec], MIN[f.prec], '0.01', '0.5', '1', '2', '6.3', MAX[f.prec]]
    r = []
    for a, b in zip(cuts, cuts[1:]):
        if a == '-' + MIN[f.prec] or (lo is not None and Decimal(a) < lo) or (hi is not None and Decimal(b) > hi):
            continue
        r.append(Range(f, a, b, rest, pred, what))
    return r


def s06_cases():
    c = []
    for f in REAL_LI + CLAUSEN:
        if f in CLAUSEN and f.prec == 64:   # cells for the remainder of fmod
            f.extra = {'fmodsplit': 16384, 'maxpaths': 40000}
        if f.fn == cpp('Cl1', 'd'):     # Cl1 is singular at 0
            c += [Range(f, '1e-323', MAX[53], '', real(within(-1, INF)), 'not NaN, above -1')]
            continue
        c += axis(f, '', real(finite), 'a finite number')
    for f in (GCL, GSL):
        for n in list(range(1, 70)) + ['35:%d:2:0' % (NMAX//2 - 100), '35:%d:2:1' % (NMAX//2 - 100)]:
            if f is GCL and n == 1:
                c.append(Range(f, '1e-323', MAX[53], '||1', real(within(-1, INF)), 'not NaN, above -1'))
            elif f is GCL and n in (7, 8, 9):   # series loops: the ranges must be narrow
                cut = [Decimal(MIN[53])] + [Decimal('1e%d' % k) for k in range(-323, -7)]
                while cut[-1] < 6:
                    cut.append(cut[-1]*Decimal('1.3') if cut[-1] < Decimal('0.05') else cut[-1] + Decimal('0.02'))
                for a, b in zip(cut, cut[1:]):
                    c += [Range(f, '%.15e' % a, '%.15e' % b, '||%d' % n, real(finite), 'a finite number')]
                c += [Case(f, s + MIN[53] + '||%d' % n, real(finite), 'a finite number') for s in ('', '-')]
            else:
                c += axis(f, '||%s' % n, real(finite), 'a finite number')
    return c


def s06(p):
    return decide_ranges(p, s06_cases(), 'Evaluation of the lowered sources over ranges that cover every finite argument, zeros and subnormals '
                         'included, in the interval domain; ranges are split until decided.',
                         'one obligation per range: on every feasible path the result is a finite number', 300, maxdepth=14)


def s02_cases():
    z2 = {2: 1.6449340668482264365, 3: 1.2020569031595942854, 4: 1.0823232337111381915, 5: 1.0369277551433699263, 6: 1.0173430619844491397}
    c = []
    tol = {24: 2.5e-7, 53: 5e-16, 64: 5e-16}
    eta = lambda n: (1 - 2.0**(1 - n))*z2[n]
    for f in REAL_LI:
        n = int(''.join(ch for ch in f.name.split('(')[0].replace('f', '') if ch.isdigit()))
        c += [Case(f, '+0', real(zero('+')), '+0'), Case(f, '-0', real(zero('-')), '-0'),
              Case(f, '1', real(near(z2[n], tol[f.prec])), 'zeta(%d)' % n), Case(f, '-1', real(near(-eta(n), tol[f.prec])), '-eta(%d)' % n)]
    for f in CX_LI:
        n = int(f.name.split('Li')[1][0]) if 'Li' in f.name else int(f.name.split('li')[1][0])
        for s in '+-':
            for t in '+-':
                c.append(Case(f, '%s0|%s0' % (s, t), both(zero(s), zero(t)), '(%s0, %s0)' % (s, t)))
            c.append(Case(f, '1|%s0' % s, both(near(z2[n], tol[f.prec]), zero('any')), 'zeta(%d)' % n))
            c.append(Case(f, '-1|%s0' % s, both(near(-eta(n), tol[f.prec]), zero('any')), '-eta(%d)' % n))
            c += axis(f, '|%s0' % s, both(lambda i: True, zero('any')), 'a zero imaginary part', hi=1)
    for f in CLAUSEN + [GCL, GSL]:
        orders = [0]
        if f in (GCL, GSL):
            orders = list(range(1, 70)) + [100, 101, 5000, 5001]
        for o in orders:
            n = o or int(''.join(ch for ch in f.name.split('(')[0].split(' ')[1] if ch.isdigit())[0])
            odd = (n % 2 == 1) if f is not GSL else (n % 2 == 0)   # cosine series
            zn = INF if n == 1 else z2.get(n) or 1 + sum(k**-float(n) for k in range(60, 1, -1)) + 60.5**(1.0 - n)/(n - 1)
            for s in '+-':
                spec = s + '0' + ('||%d' % o if o else '')
                if not odd:
                    c.append(Case(f, spec, real(zero(s)), s + '0'))
                else:
                    c.append(Case(f, spec, real(PINF if zn == INF else near(zn, 1e-14)), 'zeta(%d)' % n))
    for s in '+-':
        for n in list(range(-60, 0)) + ['%d:-61' % (NMIN + 1000)]:
            c.append(Case(GLI, '1|%s0|%s' % (s, n), both(PINF, PINF), 'complex infinity'))
        for n in (0,):
            c.append(Case(GLI, '1|%s0|%s' % (s, n), both(PINF, PINF), 'complex infinity'))
        c.append(Case(GLI, '1|%s0|1' % s, both(PINF, zero('any')), 'infinity'))
        for n in range(2, 70):
            zn = z2.get(n) or 1 + sum(k**-float(n) for k in range(60, 1, -1)) + 60.5**(1.0 - n)/(n - 1)
            c.append(Case(GLI, '1|%s0|%s' % (s, n), both(near(zn, 1e-14), zero('any')), 'zeta(n)'))
            c.append(Case(GLI, '-1|%s0|%s' % (s, n), both(near(-(1 - 2.0**(1 - n))*zn, 1e-14), zero('any')), '-eta(n)'))
        for t in '+-':
            for n in ('%d:-1' % (NMIN + 1000), '0', '1', '2:%d' % (NMAX - 100)):
                c.append(Case(GLI, '%s0|%s0|%s' % (s, t, n), both(zero(s), zero(t)), '(%s0, %s0)' % (s, t)))
    return c


def s02(p):
    return decide_ranges(p, s02_cases(), 'Evaluation of the lowered sources at the special points 0, 1, -1 (all zero signs) and over the real '
                         'axis up to 1 in the IEEE-class domain.',
                         'one obligation per function and special argument (or range of the real axis): every feasible path returns the '
                         'required value, zero sign or zero imaginary part', 600)


def a10_cases():
    ref = json.load(open(os.path.join(vf.VERIF, 'data', 'aux.json')))
    c = []

    def value(v, rel):
        d = Decimal(v)
        if abs(d) > Decimal(MAX[53])*(1 + Decimal('1e-16')):
            return MINF if d < 0 else PINF, 'overflow of ' + v
        if d == 0:
            return zero('any'), '0'
        if abs(d) < Decimal('2.3e-308'):
            e = Decimal('5e-324')
            return within(float(d - e), float(d + e)), v
        e = abs(d)*Decimal(rel)
        return within(float(d - e), float(d + e)), v
    for name, rel in (('zeta', '4e-16'), ('neg_eta', '4e-16'), ('inv_fac', '4e-16'), ('harmonic', '2e-15')):
        f = internal(name)
        for n, v in ref[name].items():
            pr, w = value(v, rel)
            c.append(Case(f, '||' + n, real(pr), w))
    z, e, fa, h = (internal(x) for x in ('zeta', 'neg_eta', 'inv_fac', 'harmonic'))
    c += [Case(z, '||1', real(PINF), 'infinity'), Case(z, '||300:%d' % NMAX, real(within(1, 1)), '1')]
    # tails, by residue class; large enough for the values to overflow
    big = 2305843009213693951
    for f in (z, e):
        c += [Case(f, '||%d:-160:2:0' % (NMIN//2), real(zero('any')), '0')]
    c += [Case(z, '||%d:-80:4:1' % -big, real(PINF), '+inf'), Case(z, '||%d:-80:4:3' % -big, real(MINF), '-inf')]
    c += [Case(e, '||%d:-80:4:1' % -big, real(within(INF, INF)), '+inf'), Case(e, '||%d:-80:4:3' % -big, real(within(-INF, -INF)), '-inf')]
    for f in (z, e):     # the lowest orders
        for k in range(0, 8):
            n = NMIN + k
            c.append(Case(f, '||%d' % n, real(zero('any') if n % 2 == 0 else PINF if n % 4 == 1 else MINF), 'limit for a large negative order'))
    c += [Case(e, '||60:%d' % NMAX, real(within(-1, -1)), '-1'), Case(fa, '||400:%d' % NMAX, real(zero('+')), '0'),
          Case(fa, '||%d:-1' % NMIN, real(is_nan), 'NaN'), Case(h, '||%d:0' % NMIN, real(is_nan), 'NaN')]
    # single large orders, among them the ones that change in narrower integer types
    getcontext().prec = 30
    for k in list(range(9, 63)):
        for d in ((-1, 0, 1, 5, 130) if k in (15, 16, 31, 32) else (0, 7)):
            n = 2**k + d
            c.append(Case(h, '||%d' % n, real(near(math.log(n) + 0.57721566490153286 + 0.5/n - 1.0/12/n/n + 1.0/120/n**4, 3e-15)), 'log n + gamma + 1/(2n)'))
            if k > 12:
                c += [Case(z, '||%d' % n, real(within(1, 1)), '1'), Case(e, '||%d' % n, real(within(-1, -1)), '-1'), Case(fa, '||%d' % n, real(zero('+')), '0')]
                for m in (-n, -n - 1):
                    w = real(zero('any') if m % 2 == 0 else PINF if m % 4 == 1 else MINF)
                    c += [Case(z, '||%d' % m, w, 'limit for a large negative order'), Case(e, '||%d' % m, w, 'limit for a large negative order')]
                    c += [Case(fa, '||%d' % m, real(is_nan), 'NaN'), Case(h, '||%d' % m, real(is_nan), 'NaN')]
    # harmonic numbers on geometrically growing ranges: log n + gamma + 1/(2n) - 1/(12 n^2) < H_n < ... + 0
    n = 512
    while n < NMAX:
        m = min(NMAX, n + max(1, n//8))
        lo = math.log(n) + 0.57721566490153286 + 0.5/n - 1.0/12/n/n
        hi = math.log(m) + 0.57721566490153286 + 0.5/m
        c.append(Case(h, '||%d:%d' % (n, m), real(within(lo*(1 - 1e-15) - 0.2/n, hi*(1 + 1e-15) + 0.2/n)), 'log n + gamma + 1/(2n)'))
        n = m + (1 if m == NMAX else 0)
    return c


def a10(p):
    return decide_ranges(p, a10_cases(), 'Evaluation of the auxiliary functions zeta, neg_eta, inv_fac and harmonic over all 64-bit integers: every '
                         'order from -320 to 320 (resp. table range) one by one against reference values, the rest as symbolic ranges '
                         'split by residue class.',
                         'one obligation per order or range of orders: every feasible path returns a value within the tolerance of the '
                         'reference (zeta, neg_eta, inv_fac: 4e-16 relative, harmonic 2e-15)', 2500)


UB = ('int-overflow', 'oob', 'div0', 'shift', 'float-to-int', 'uninit', 'noreturn')


def points(spec):
    """representative single arguments of a case"""
    def num(t):
        if ':' not in t:
            return [t]
        a, b = [Decimal(x) for x in t.split(':')]
        if a > 0 or b < 0:
            m = (a*b).sqrt()*(1 if a > 0 else -1)
        else:
            m = (a + b)/2
        return ['%.17e' % a, '%.17e' % m, '%.17e' % b]

    def order(t):
        q = t.split(':')
        if len(q) == 1:
            return [t]
        lo, hi = int(q[0]), int(q[1])
        a, b = (int(q[2]), int(q[3])) if len(q) > 2 else (1, 0)
        # the ends, some in between, and the neighbours of multiples of 2^31
        ks = {lo, lo + 1, lo + (hi - lo)//4, (lo + hi)//2, hi - (hi - lo)//4, hi - 1, hi}
        ks |= {(s*m + d - b)//a for m in (2**15, 2**16, 2**31, 2**32) for s in (1, -1) for d in range(-4, 10)}
        return sorted({str(a*k + b) for k in ks if lo <= k <= hi}, key=int)
    f = (spec.split('|') + ['', ''])[:3]
    rep = {'fin': ['0.7'], 'top': ['0.7'], '0': ['0']}
    xs = rep.get(f[0]) or num(f[0]) if f[0] else ['']
    ys = rep.get(f[1]) or num(f[1]) if f[1] else ['']
    return ['%s|%s|%s' % (x, y, n) for x in xs for y in ys for n in (order(f[2]) if f[2] else [''])]


def u01_cases():
    c = s01_cases() + s02_cases() + a10_cases()
    for k in s06_cases():     # the narrow cells of order 7..9 are covered by the coarse ranges below
        if not (k.fun is GCL and k.spec.rsplit('|', 1)[1] in ('7', '8', '9')):
            c.append(Case(k.fun, k.spec, k.pred, k.what))
    for n in (7, 8, 9):
        c += axis(GCL, '||%d' % n, None, '')
    c += [Case(GCL, 'fin||34:%d:2:%d' % (NMAX//2, q), None, '') for q in (0, 1)] + [Case(GSL, 'fin||34:%d:2:%d' % (NMAX//2, q), None, '') for q in (0, 1)]
    quad = [(a, b) for a in ('-1e308:-2', '-2:-1e-300', '0', '1e-300:2', '2:1e308') for b in ('-1e308:-2', '-2:-1e-300', '0', '1e-300:2', '2:1e308')]
    for f in CX_LI:
        for a, b in quad:
            if f.prec == 24:
                a, b = a.replace('308', '38').replace('300', '37'), b.replace('308', '38').replace('300', '37')
            c.append(Case(f, a + '|' + b, None, ''))
    orders = ['%d:-2:2:0' % (NMIN//2 + 500), '%d:-2:2:1' % (NMIN//2 + 500)] + ['%d' % n for n in range(-12, 13)] + ['7:%d:2:0' % (NMAX//2 - 8), '7:%d:2:1' % (NMAX//2 - 8)]
    for f in (GLI,):
        for a, b in quad:
            for n in orders:
                c.append(Case(f, '%s|%s|%s' % (a, b, n), None, ''))
    seen, out = set(), []
    for k in c:
        if (k.fun.name, k.spec) not in seen:
            seen.add((k.fun.name, k.spec))
            out.append(k)
    return out


def u01(prop):
    rep = vf.Report(prop)
    cases = u01_cases()
    for k in cases:
        k.fun.extra = {'maxpaths': 60, 'maxsteps': 20000}
    out, fns, ext, ops = evaluate(cases)
    suspects = {}
    part = 0
    perfun = {}
    for c, r in out:
        ev = [e for e in r['events'] if e['kind'] in UB]
        p = perfun.setdefault(c.fun.name, [0, 0])
        p[0] += 1
        if r['unproven']:
            part += 1
        if not ev:
            rep.dis += 1
            p[1] += 1
        for e in ev:
            suspects.setdefault((c.fun.name, e['kind'], e['fn'], e['loc']), []).append((c, e))
    rep.obl = len(out)
    if len(out) < 2500:
        raise vf.Broken('only %d cases' % len(out))
    # confirm on single arguments
    probe = []
    for key, cs in suspects.items():
        for c, e in cs[:6]:
            probe += [(key, Case(c.fun, s, None, '')) for s in points(c.spec)]
    nprobe = len(probe)
    if probe:
        keys = {}
        uniq = []
        for key, c in probe:
            t = (c.fun.name, c.spec)
            if t not in keys:
                keys[t] = set()
                uniq.append(c)
            keys[t].add(key)
        o2, f2, e2, p2 = evaluate(uniq)
        done = set()
        for c, r in o2:
            for e in r['events']:
                if e['kind'] in UB and e['def']:
                    k = (c.fun.name, e['kind'], e['fn'], e['loc'])
                    if k not in done:
                        done.add(k)
                        rep.violation('%s:%s:%s' % (e['kind'], e['fn'], e['loc'].rsplit(':', 2)[0]), '%s with argument %s: %s in %s at %s: %s'
                                      % (c.fun.name, c.spec, e['kind'], e['fn'], e['loc'], e['msg']))
        for k, cs in suspects.items():
            if k not in done:
                rep.notes.append('%s: possible %s in %s at %s (%s), argument %s; not confirmed' % (k[0], k[1], k[2], k[3], cs[0][1]['msg'], cs[0][0].spec))
    rep.samples = ['%s: %d argument classes, %d without a possible event' % (k, v[0], v[1]) for k, v in sorted(perfun.items())][:12]
    rep.cov.update(argument_classes=len(out), classes_with_loops_cut_off=part, confirming_evaluations=nprobe, functions_analysed=len(fns), library_models=sorted(ext),
                   abstract_operations=ops, rule='no reachable operation whose operands can leave the range in which C and C++ define it: signed overflow, array index, '
                   'integer division by zero, shift count, float to integer conversion, read of uninitialised storage, unreachable()')
    return vf.finish(rep, 'other', 'Evaluation of all functions in the interval domain over classes that cover all arguments and orders (symbolic orders up to the '
                     'ends of the 64-bit range); every integer operation, index and conversion met is an obligation; a possible event is confirmed on single arguments.', TRUST)


REGISTRY = {'U01': u01, 'S01': s01, 'S02': s02, 'S06': s06, 'A10': a10}
