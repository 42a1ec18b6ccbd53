"""Accuracy properties: abstract interpretation of the lowered sources over cells that
cover the argument domain, against an independent reference expansion."""
import functools
import vf

THOROUGH = vf.TIER == 'thorough'
REF = {0: 'd', 24: 'f', 53: 'd', 64: 'e'}


class Job:
    def __init__(s, lang, fn, weight=1, slices=1, soft=False, **kw):
        # soft: a job of which nothing can be analysed is reported as undecided
        s.lang, s.fn, s.kw, s.slices, s.weight, s.soft = lang, fn, kw, slices, weight, soft


def cpp(name, arg, cx=False, gen=False):
    """assembler name of a C++ function of namespace polylogarithm; arg: f/d/e"""
    a = ('RKSt7complexI%sE' % arg) if cx else arg
    return '_ZN13polylogarithm%d%sE%s%s' % (len(name), name, 'l' if gen else '', a)


def run(prop, jobs, explanation, mincells):
    rep = vf.Report(prop)
    irs = vf.lower(sorted({j.lang for j in jobs}))
    todo = []
    for j in sorted(jobs, key=lambda j: -j.weight):
        for s in range(j.slices):
            kw = dict(j.kw)
            if j.slices > 1:
                kw.update(slices=j.slices, slice=s)
            todo.append(((id(j), s), functools.partial(vf.ana, 'acc', irs[j.lang], fn=j.fn, **kw)))
    res = vf.run_jobs(todo)
    cells = evals = parts = ops = unproven = 0
    fns, ext, per, lost = set(), set(), [], []
    for j in jobs:
        c = u = f = 0
        worst = 0.0
        wat = ''
        for s in range(j.slices):
            d = res[(id(j), s)]
            if 'error' in d:
                raise vf.Broken('%s %s: %s' % (j.lang, j.fn, d['error']))
            c += d['cells']; u += d['unproven']; f += d['fails']
            evals += d['evals']; parts += d['partitions']; ops += d['ops']
            fns.update(j.lang + ':' + x for x in d['fns']); ext.update(d['ext'])
            if d['worst'] > worst:
                worst, wat = d['worst'], d['worst_at']
            for b in d['bad']:
                rep.violation('%s:%s:%s' % (j.lang, j.fn, b.split(':')[0]), '%s function %s, %s' % (j.lang, j.fn, b))
            for b in d['unk']:
                rep.notes.append('%s %s %s' % (j.lang, j.fn, b))
        if c == 0:
            raise vf.Broken('%s %s: no cells (%s)' % (j.lang, j.fn, '; '.join(rep.notes[-2:])))
        if u == c and not j.soft:
            lost.append('%s %s n=%s: %s' % (j.lang, j.fn, j.kw.get('n'), '; '.join(rep.notes[-1:])))
        cells += c; unproven += u
        rep.dis += c - u - f
        per.append('%s %s %s n=%s: %d cells, %d undecided, worst bound %.3g (tolerance %s) at %s'
                   % (j.lang, j.fn, j.kw.get('dom'), j.kw.get('n'), c, u, worst, j.kw.get('tol'), wat))
    if cells < mincells:
        raise vf.Broken('only %d cells were analysed, at least %d expected' % (cells, mincells))
    for t in lost:
        print('UNDECIDED property=%s %s' % (prop, t))
    if 2*len(lost) > len(jobs) and not rep.viol:
        raise vf.Broken('%d of %d functions could not be analysed' % (len(lost), len(jobs)))
    rep.obl = cells
    rep.samples = per[:12]
    rep.cov.update(cells=cells, undecided_cells=unproven, abstract_executions=evals, path_partitions=parts,
                   abstract_operations=ops, functions_analysed=len(fns), library_models=sorted(ext), per_function=per,
                   rule='one obligation per cell of the argument domain: on every feasible path of the cell the enclosure of '
                        'the computed value minus the reference expansion stays below the tolerance')
    return vf.finish(rep, 'other', explanation, TRUST)


TRUST = ('front end (gcc -fdump-tree GIMPLE of /repo sources), transfer functions of engine/, reference expansion engine/ref.hpp '
         '(tables generated by tools/gen_ref.py), error bounds assumed for the C library: 1-2 ulp')
EXPL = ('Abstract interpretation of the GIMPLE of the current sources. Each cell is a sub-range of the argument; values are '
        'Taylor models plus intervals, every floating-point operation adds its rounding bound, branches are followed on all '
        'feasible sides. The enclosure of the result is compared with an independent Taylor expansion of the mathematical '
        'function. A cell is a violation if the systematic difference exceeds the tolerance or the bound exceeds the '
        'tolerance by the analysis slack; a cell in between is listed as undecided.')

L3 = ('c', 'cpp', 'f')


def real_li(lang, n, prec, **kw):
    nm = {53: '', 24: 'f', 64: 'l'}[prec]
    if lang == 'c':
        return Job('c', 'li%d%s' % (n, nm), sig='d', prec=prec, n=n, **kw)
    if lang == 'cpp':
        return Job('cpp', cpp('Li%d' % n, {53: 'd', 24: 'f', 64: 'e'}[prec]), sig='d', prec=prec, n=n, **kw)
    return Job('f', 'dli%d_' % n, sig='p', prec=prec, n=n, **kw)


def cx_li(lang, n, prec, **kw):
    if lang == 'c':
        return Job('c', 'cli%d%s' % (n, {53: '', 24: 'f', 64: 'l'}[prec]), sig='c', prec=prec, n=n, **kw)
    if lang == 'cpp':
        return Job('cpp', cpp('Li%d' % n, {53: 'd', 24: 'f', 64: 'e'}[prec], True), sig='q', prec=prec, n=n, **kw)
    return Job('f', 'cdli%d_' % n, sig='q', prec=prec, n=n, **kw)


def clausen(lang, n, prec, **kw):
    if THOROUGH:
        kw['tiny'] = 1
    kw = dict(dom='cl', part='re' if n % 2 else 'im', n=n, prec=prec, T='q', deg=28 if prec == 53 else 34, **kw)
    if lang == 'c':
        return Job('c', 'cl%d%s' % (n, 'l' if prec == 64 else ''), sig='d', **kw)
    if lang == 'cpp':
        return Job('cpp', cpp('Cl%d' % n, 'e' if prec == 64 else 'd'), sig='d', **kw)
    return Job('f', 'dcl%d_' % n, sig='p', **kw)


def real_double(p):
    jobs = [real_li(l, n, 53, dom='re', T='q', deg=28, tol=1e-13, slack=8) for l in L3 for n in (2, 3, 4)]
    return run(p, jobs, EXPL + ' Domain: the whole real line with the full exponent range of double.', 5000)


def li2_float(p):
    jobs = [real_li(l, 2, 24, dom='re', T='q', deg=28, tol=1e-5, slack=8) for l in ('c', 'cpp')]
    jobs += [cx_li(l, 2, 24, dom='cx', half='ul', T='l', deg=16, tol=2e-5, depth=3, inner=1e-5, floor=1, slices=4, slack=8) for l in ('c', 'cpp')]
    jobs += [cx_li(l, 2, 24, dom='ax', T='q', deg=28, tol=2e-5, depth=4, floor=1, imzero=2, slack=8) for l in ('c', 'cpp')]
    return run(p, jobs, EXPL + ' Domain: real line, complex plane and real axis of the float versions of Li2.', 800)


def clausen_double(p):
    jobs = [clausen(l, n, 53, tol=5e-14, near=1e-18, slack=8) for l in L3 for n in range(2, 7)] + [clausen('cpp', 1, 53, tol=5e-14, near=1e-18, slack=8)]
    return run(p, jobs, EXPL + ' Domain: (0, 2 pi) with cells graded towards both end points.', 1000)


MAXN = 2**63 - 200
BIGN = (2**15 + 2, 2**16 + 7, 2**16 + 8, 2**31 + 3, 2**32 + 1, 2**32 + 10, 2**32 + 37, 2**62 + 4)


def anyorder(p):
    jobs = []
    for f in ('Cl', 'Sl'):
        for n in range(1, 65):
            kw = dict(sig='nd', prec=53, n=n, dom='cl', part='re' if (n % 2) == (f == 'Cl') else 'im', T='q', deg=28, near=1e-18, slack=8, join=1)
            if THOROUGH:
                kw['tiny'] = 1
            kw['tol'] = 2e-13 if f == 'Cl' and n >= 7 else 5e-14
            if n > 60:
                kw.update(nmax=MAXN, nstep=4)
            jobs.append(Job('cpp', cpp(f, 'd', gen=True), slices=4 if f == 'Cl' and n in (7, 8, 9) else 1,
                            weight=9 if n in (7, 8, 9) else 1, soft=n > 6, **kw))
        for n in BIGN:     # single large orders, among them the ones that change in narrower integer types
            m = 61 + (n - 61) % 4
            kw = dict(sig='nd', prec=53, n=m, none=n, dom='cl', part='re' if (n % 2) == (f == 'Cl') else 'im', T='q', deg=28, near=1e-18, slack=8, join=1)
            jobs.append(Job('cpp', cpp(f, 'd', gen=True), soft=True, tol=2e-13 if f == 'Cl' else 5e-14, **kw))
    return run(p, jobs, EXPL + ' Domain: (0, 2 pi) for the orders 1 to 60 one by one and all larger orders as four symbolic residue classes, '
               'whose functions agree with those of order 61 to 64 to 1e-18.', 15000)


LDTOL = {2: 3e-17, 3: 1e-16, 4: 1e-16, 5: 5e-16, 6: 5e-15}


def generic_li(p):
    fn, jobs = cpp('Li', 'd', True, True), []
    base = dict(sig='nq', prec=53, T='l', deg=20, slack=8, join=1, joinulps=2000)

    def cx(n, half='u', slices=2, **kw):
        d = dict(base, dom='cx', tol=1e-12, depth=3, n=n, half=half, inner=1e-3, far=300, floor=0 if n >= 7 else 1,
                 cap=0.12, capw=2.5, capo=0.4)
        d.update(kw)
        jobs.append(Job('cpp', fn, slices=slices, weight=5, soft=not 0 <= n < 7, **d))

    def ax(n, **kw):
        d = dict(base, dom='ax', tol=1e-12, depth=4, n=n, far=300, floor=0 if n >= 7 else 1, imzero=0)
        d.update(kw)
        jobs.append(Job('cpp', fn, soft=not 0 <= n < 7, **d))
    top = 65 if THOROUGH else 41
    for n in range(7, top):
        if THOROUGH:
            cx(n, 'ul')
        elif n <= 13 or n in (20, 33, 34, 35):
            cx(n, 'ul' if n < 9 else 'u' if n % 3 else 'l')
        ax(n)
    for n in (100, 169, 170, 171) if THOROUGH else (101,):
        cx(n, 'u', 4)
    cx(1000, 'u', whi=3.2)
    cx(200, 'u', whi=-0.35, nmax=MAXN)
    for m in BIGN:
        cx(200, 'u', 1, whi=3.2, none=m)
    for n in range(2, 7):  # dispatch to the functions of fixed order
        cx(n, 'ul', 4, cap=0.75, join=0)
    cx(1, 'ul', 1)
    cx(0, 'ul', 1)
    cx(-1, 'ul', 1, whi=340)
    for n, hi in ((-2, -1.2), (-3, -1.5), (-5, -2.2), (-8, -2.5), (-20, -4)):
        cx(n, 'u', whi=hi)
    for n in range(1, 2):
        ax(n)
    ax(-1, wlo=-700, whi=340)
    for n in range(-2, -9, -1):
        ax(n, wlo=-6, whi=3)
    for n in range(-2, -9, -1):
        jobs.append(Job('cpp', fn, soft=True, **dict(base, dom='ray', half='ul', rays=8 if THOROUGH else 3, n=n, depth=6, floor=1, tol=1e-12 if n > -5 else 3e-11 if n > -8 else 1e-9)))
    return run(p, jobs, EXPL + ' Series whose length depends on the data are followed over all possible exits; once eight successive '
               'summands decrease and are below 2^-64 of the sum, the remainder of the series is taken as negligible. Domain: the '
               'complex plane (both half planes or one of them) for the orders listed per function, the real axis, all orders '
               'above 200 as one symbolic order for |z| < 0.7, and for negative orders |z| up to a bound, the real axis and rays.', 20000)


def real_ld(p):
    jobs = [clausen(l, n, 64, tol=LDTOL[n], near=1e-21, slack=8, weight=3) for l in ('c', 'cpp') for n in range(2, 7)]
    jobs += [real_li(l, 2, 64, dom='re', T='q', deg=34, tol=1e-16, far=100, weight=9, slack=8) for l in ('c', 'cpp')]
    return run(p, jobs, EXPL + ' Domain: (0, 2 pi) for the Clausen functions, the real line for Li2.', 1000)


def cx_double(p):
    kw = dict(T='l', deg=20, tol=1e-13, depth=3, inner=1e-10, floor=1, slack=8)
    if not THOROUGH:
        kw['far'] = 50
    jobs = [cx_li(l, n, 53, dom='cx', half='ul', slices=8, weight=5, **kw) for l in L3 for n in range(2, 7)]
    jobs += [cx_li(l, n, 53, dom='ax', T='q', deg=28 if n < 5 else 30, tol=1e-13, depth=4 if n < 5 else 2, far=500, floor=1, imzero=2, slack=8, weight=9)
             for l in L3 for n in range(2, 7)]
    return run(p, jobs, EXPL + ' Domain: both half planes (normal imaginary parts) and the real axis with both signs of zero, '
               'full exponent range of double.', 30000)


def cx_ld(lang):
    def go(p):
        kw = dict(T='l', deg=26, tol=3e-16, depth=3, inner=1e-10, floor=1, far=1000, slack=8)
        if THOROUGH:
            kw.update(T='q', far=300)
        jobs = [cx_li(lang, n, 64, dom='cx', half='ul', slices=8, weight=5, **kw) for n in range(2, 7)]
        jobs += [cx_li(lang, n, 64, dom='ax', T='q', deg=30, tol=3e-16, depth=2, far=500, floor=1, imzero=2, slack=8, weight=9) for n in range(2, 7)]
        return run(p, jobs, EXPL + ' Domain: both half planes and the real axis, full exponent range of long double.', 20000)
    return go


REGISTRY = {'A01': real_double, 'A02': li2_float, 'A03': clausen_double, 'A04': real_ld, 'A05': cx_double,
            'A06': cx_ld('c'), 'A07': cx_ld('cpp'),
            'A08': generic_li, 'A09': anyorder}
