"""Reads the line based IR written by tools/front.py: control flow graphs, dominators,
natural loops, call graph and pointer roots for the structural checks."""
import collections, re

Ref = collections.namedtuple('Ref', 'kind name path')          # kind: n none, s ssa, m object, d dereferenced ssa pointer
Op = collections.namedtuple('Op', 'kind val')                  # s/i/f/c/a/l/u/n
Rhs = collections.namedtuple('Rhs', 'kind op args extra')
Stmt = collections.namedtuple('Stmt', 'kind loc lhs ty rhs targets')
Phi = collections.namedtuple('Phi', 'name ty args')


class Block:
    def __init__(s, i):
        s.id, s.phis, s.st, s.succ, s.pred = i, [], [], [], []


class Fn:
    def __init__(s, name, tu, ret, pretty, lang):
        s.name, s.tu, s.ret, s.pretty, s.lang = name, tu, ret, pretty, lang
        s.params, s.locals, s.blocks, s.order = [], {}, {}, []
        s.undef, s.tables = set(), {}

    def stmts(s):
        for b in s.order:
            for t in b.st:
                yield b, t


class Toks:
    def __init__(s, l):
        s.t, s.i = l, 0

    def next(s):
        v = s.t[s.i]
        s.i += 1
        return v


def pref(t):
    k = t.next()
    if k == 'n':
        return Ref('n', '', ())
    name = t.next()
    if k == 's':
        return Ref('s', name, ())
    path = []
    for _ in range(int(t.next())):
        p = t.next()
        if p == 'f' or p == 'p':
            path.append((p, t.next()))
        elif p == 'o':
            path.append((p, t.next(), t.next()))
        else:
            path.append((p, pop(t)))
    return Ref(k, name, tuple(path))


def pop(t):
    k = t.next()
    if k == 'i':
        return Op('i', int(t.next()))
    if k in 'sfu':
        return Op(k, t.next())
    if k == 'c':
        return Op('c', (t.next(), t.next()))
    if k in 'al':
        return Op(k, pref(t))
    return Op('n', None)


def prhs(t):
    k = t.next()
    if k in ('op1', 'cast'):
        o = t.next()
        return Rhs(k, o, [pop(t)], None)
    if k == 'op2':
        o = t.next()
        return Rhs(k, o, [pop(t), pop(t)], None)
    if k == 'call':
        c = t.next()
        n = int(t.next())
        return Rhs(k, c, [pop(t) for _ in range(n)], None)
    if k == 'cond':
        c = prhs(t)
        return Rhs(k, 'cond', [pop(t), pop(t)], c)
    return Rhs(k, ' '.join(t.t[t.i:]), [], None)


class Program:
    def __init__(s):
        s.fns, s.bytu, s.byname, s.data = [], {}, {}, {}

    def find(s, tu, name):
        for n in (name, re.sub(r'C1(?=[EI])', 'C2', name), name.replace('D1E', 'D2E')):
            f = s.bytu.get((tu, n)) or s.byname.get(n)
            if f:
                return f
        return None


def load(files):
    """files: {lang: path}"""
    P = Program()
    for lang, path in files.items():
        f = b = None
        for line in open(path):
            w = line.split()
            if not w:
                continue
            t = Toks(w)
            k = t.next()
            if k == 'FUNC':
                f = Fn(w[1], w[2], w[3], w[4] if len(w) > 4 else '', lang)
                P.fns.append(f)
                P.bytu.setdefault((f.tu, f.name), f)
                P.byname.setdefault(f.name, f)
            elif k == 'PARAM':
                f.params.append((w[1], w[2], None if w[3] == '-' else w[3]))
            elif k == 'UNDEF':
                f.undef.add(w[1])
            elif k == 'LOCAL':
                f.locals[w[1]] = {'ty': w[2], 'dims': w[3], 'static': w[4] == 'static', 'const': w[5] == 'const'}
            elif k == 'TABLE':
                f.locals[w[1]]['table'] = int(w[4])
                f.tables[w[1]] = w[5:]
            elif k == 'BB':
                b = Block(int(w[1]))
                f.blocks[b.id] = b
                f.order.append(b)
            elif k == 'PHI':
                n, ty, c = t.next(), t.next(), int(t.next())
                b.phis.append(Phi(n, ty, [(int(t.next()), pop(t)) for _ in range(c)]))
            elif k == 'SET':
                loc, ty = t.next(), t.next()
                lhs = pref(t)
                t.next()
                b.st.append(Stmt('SET', loc, lhs, ty, prhs(t), ()))
            elif k == 'IF':
                loc, a, c = t.next(), int(t.next()), int(t.next())
                b.st.append(Stmt('IF', loc, None, '', prhs(t), (a, c)))
            elif k == 'GOTO':
                b.st.append(Stmt('GOTO', w[1], None, '', None, (int(w[2]),)))
            elif k == 'SWITCH':
                loc = t.next()
                o = pop(t)
                n = int(t.next())
                tg = []
                for _ in range(n):
                    lo = t.next()
                    if t.t[t.i - 1] != 'default' or True:
                        t.next()
                    tg.append(int(t.next()))
                b.st.append(Stmt('SWITCH', loc, None, '', Rhs('switch', '', [o], None), tuple(tg)))
            elif k == 'RET':
                loc = t.next()
                b.st.append(Stmt('RET', loc, None, '', Rhs('op1', 'mov', [pop(t)], None), ()))
            elif k == 'UNSUP':
                b.st.append(Stmt('UNSUP', w[1], None, '', Rhs('unsup', w[2], [], None), ()))
            elif k == 'DATA':
                P.data[(w[2], w[1])] = {'sec': w[3], 'lang': lang}
        if f is None:
            raise RuntimeError('empty IR ' + path)
    for f in P.fns:
        for i, b in enumerate(f.order):
            last = b.st[-1] if b.st else None
            if last is not None and last.kind in ('IF', 'GOTO', 'SWITCH'):
                b.succ = list(dict.fromkeys(last.targets))
            elif last is not None and last.kind == 'RET' or last is not None and last.kind == 'UNSUP' and last.rhs.op.startswith(('resx', 'eh_dispatch')):
                b.succ = []
            elif last is not None and last.kind == 'SET' and last.rhs.kind == 'call' and last.rhs.op in ('__builtin_unreachable', 'abort', '__builtin_abort'):
                b.succ = []
            elif i + 1 < len(f.order):
                b.succ = [f.order[i + 1].id]
        for b in f.order:
            for s in b.succ:
                f.blocks[s].pred.append(b.id)
    return P


def dominators(f):
    """{block: set of dominating blocks}, reachable blocks only"""
    entry = f.order[0].id
    seen, st = set(), [entry]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st += f.blocks[x].succ
    dom = {x: set(seen) for x in seen}
    dom[entry] = {entry}
    ch = True
    order = [b.id for b in f.order if b.id in seen]
    while ch:
        ch = False
        for x in order:
            if x == entry:
                continue
            ps = [p for p in f.blocks[x].pred if p in seen]
            n = set.intersection(*[dom[p] for p in ps]) | {x} if ps else {x}
            if n != dom[x]:
                dom[x] = n
                ch = True
    return dom


def loops(f):
    """natural loops: [(header, set of blocks, latches)]; raises if irreducible"""
    dom = dominators(f)
    heads = {}
    for x in dom:
        for y in f.blocks[x].succ:
            if y in dom[x]:
                heads.setdefault(y, []).append(x)
    # irreducible: a retreating edge (in a DFS) whose target does not dominate
    color, irr = {}, []

    def dfs(u):
        st = [(u, iter(f.blocks[u].succ))]
        color[u] = 1
        while st:
            x, it = st[-1]
            for y in it:
                if y not in color:
                    color[y] = 1
                    st.append((y, iter(f.blocks[y].succ)))
                    break
                if color[y] == 1 and y not in dom[x]:
                    irr.append((x, y))
            else:
                color[x] = 2
                st.pop()
    dfs(f.order[0].id)
    out = []
    for h, ls in heads.items():
        body = {h}
        st = list(ls)
        while st:
            x = st.pop()
            if x in body:
                continue
            body.add(x)
            st += f.blocks[x].pred
        out.append((h, body, ls))
    return out, irr, dom
