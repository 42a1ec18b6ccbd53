#!/usr/bin/env python3
"""Front end: compile /repo's sources with the project's own flags, read the
GIMPLE SSA form and the constant data out of the compiler, and write a line
based IR for the analysis engine.  Nothing of /repo is executed.

usage: front.py REPO OUTDIR [c cpp f]
writes OUTDIR/<lang>.ir
"""
import re, sys, os, subprocess, struct, json
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

class FrontError(Exception):
    pass

LOC = re.compile(r'\[(?:[^\[\]\s]+:\d+:\d+|0:0)(?: discrim \d+)?\] ?')
FIRSTLOC = re.compile(r'\[([^\[\]\s]+):(\d+):(\d+)(?: discrim \d+)?\] ?')
UID = re.compile(r'(?<=[A-Za-z0-9_>\)])D\.\d+')

def sources(repo, lang):
    d = {'c': 'src/c', 'cpp': 'src/cpp', 'f': 'src/fortran'}[lang]
    ext = {'c': ('.c',), 'cpp': ('.cpp', '.cc', '.cxx'), 'f': ('.f90', '.F90', '.f')}[lang]
    p = os.path.join(repo, d)
    return [os.path.join(p, f) for f in sorted(os.listdir(p)) if f.endswith(ext)]

def flags(repo, lang):
    if lang == 'c':
        return ['gcc', '-std=c11', '-DENABLE_FORTRAN=1', '-DNDEBUG', '-I' + os.path.join(repo, 'src/c')]
    if lang == 'cpp':
        return ['g++', '-std=c++11', '-DENABLE_FORTRAN=1', '-DNDEBUG', '-I' + os.path.join(repo, 'src/cpp')]
    return ['gfortran', '-DENABLE_FORTRAN=1', '-DNDEBUG', '-I' + os.path.join(repo, 'src/fortran')]

def run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise FrontError('compile failed: %s\n%s' % (' '.join(cmd), r.stdout[-4000:]))

def compile_tu(repo, lang, src, out):
    b = lang + '_' + os.path.basename(src).replace('.', '_')
    w = os.path.join(out, b + '.d')
    os.makedirs(w, exist_ok=True)
    ssa = os.path.join(w, 'ssa'); asm = os.path.join(w, 'o0.s')
    # -O0: the SSA form is built before any optimisation pass, so this is the
    # program as the language front end defines it; static constants are all kept.
    run(flags(repo, lang) + ['-O0', '-S', '-fkeep-static-consts',
                             '-fdump-tree-ssa-lineno-asmname-uid=' + ssa] + (['-fdump-tree-original=' + ssa + '.orig'] if lang == 'f' else []) + [src, '-o', asm], w)
    return b, ssa, asm

# ---------------------------------------------------------------- types
def norm_type(t, structs, fn=''):
    t = t.strip()
    t = re.sub(r'\b(const|volatile|restrict|register|static|extern)\b', '', t)
    t = t.strip()
    if t.endswith('&') or t.endswith('*') or re.search(r'[&*]\s*(restrict)?\s*$', t) or '(*' in t:
        return 'ptr'
    m = re.match(r'^(.*?)D\.(\d+)$', t)
    base, uid = (m.group(1).strip(), m.group(2)) if m else (t, None)
    base = re.sub(r'\s+', ' ', base)
    tab = {
        'double': 'f64', 'float': 'f32', 'long double': 'f80',
        'real(kind=8)': 'f64', 'real(kind=4)': 'f32', 'real(kind=10)': 'f80', 'real(kind=16)': 'f128',
        'complex(kind=8)': 'c64', 'complex(kind=4)': 'c32', 'complex(kind=10)': 'c80',
        'complex double': 'c64', 'complex float': 'c32', 'complex long double': 'c80',
        'int': 'i32', 'signed int': 'i32', 'unsigned int': 'u32', 'long int': 'i64', 'unsigned long': 'u64',
        'long unsigned int': 'u64', 'long long int': 'i64', 'long long unsigned int': 'u64', 'short int': 'i16', 'short unsigned int': 'u16',
        'char': 'i8', 'signed char': 'i8', 'unsigned char': 'u8', 'bool': 'b', '_Bool': 'b', 'logical(kind=4)': 'b',
        'int64_t': 'i64', 'uint64_t': 'u64', 'int32_t': 'i32', 'uint32_t': 'u32', 'int_fast64_t': 'i64', 'intmax_t': 'i64', 'uintmax_t': 'u64',
        'size_t': 'u64', 'ptrdiff_t': 'i64', 'ssizetype': 'i64', 'sizetype': 'u64', 'bitsizetype': 'u64', 'bitsizetype': 'u64', 'long': 'i64',
        'double_t': 'f64', 'float_t': 'f32',
        'integer(kind=4)': 'i32', 'integer(kind=8)': 'i64', 'void': 'void',
        '__int64_t': 'i64', 'complex128': 'c64',
    }
    if base in tab:
        return tab[base]
    if base == 'struct complex' or base.endswith('::complex'):
        return structs.get(uid, 'cplx?')
    if base in ('__type', 'type') and fn:
        return 'f80' if re.search(r'Ie', fn) else 'f64'
    if base.startswith('enum ') or base.startswith('<unnamed'):
        return 'u32'
    if base.startswith('struct') or base.startswith('union') or base.startswith('class'):
        return 'agg'
    return '?'

TOK = re.compile(r'''
   (?P<cplx>__complex__\s*\()
 | (?P<num>-?(?:\d+\.\d*(?:e[+-]?\d+)?|\d+e[+-]?\d+|\d+))(?:B|f|l|u|ul|)?(?![A-Za-z_0-9.])
 | (?P<special>-?(?:\+?Inf|Nan|QNaN|SNaN)(?:\([^)]*\))?)
 | (?P<id><retval>|\*?\.?[A-Za-z_][A-Za-z0-9_]*(?:\.[0-9]+)*(?:_[0-9]+)?(?:D\.\d+)?(?:\.[0-9]+)?|_[0-9]+|D\.\d+)
 | (?P<punct>->|&&|\|\||<<|>>|==|!=|u<=|u>=|u<|u>|<=|>=|[-+*/%&|^~!<>()\[\],.:=?{};])
 | (?P<ws>\s+)
''', re.X)

def fconst(s):
    s = s.strip()
    if 'Inf' in s:
        return '-inf' if s.startswith('-') else 'inf'
    if 'aN' in s:
        return 'nan'
    return s

class Fn: pass

class Parser:
    def __init__(self, lang, tu, ssa, asm):
        self.lang, self.tu = lang, tu
        self.text = open(ssa, errors='replace').read()
        self.structs = {}
        self.asm = open(asm, errors='replace').read()
        for m in re.finditer(r'_ZN?K?St7complexI([dfe])E.*?struct complexD\.(\d+) \* const', self.text):
            pass
        # map struct complex uids to precisions via methods
        for hdr in re.finditer(r'^;; Function (.*?) \((\S+), funcdef_no.*?\n(.*?)^\{', self.text, re.M | re.S):
            m = re.match(r'_ZNK?St7complexI([dfe])E', hdr.group(2))
            if m:
                mm = re.search(r'struct complexD\.(\d+) \* const this', hdr.group(3))
                if mm:
                    self.structs[mm.group(1)] = {'d': 'c64', 'f': 'c32', 'e': 'c80'}[m.group(1)]
        self.fns = []
        # values of literals passed by reference (Fortran): only the dump of the front end's tree has them
        self.lits = {}
        if os.path.exists(ssa + '.orig'):
            for m in re.finditer(r'^\s*static (.*?) C\.(\d+) = (.*);$', open(ssa + '.orig', errors='replace').read(), re.M):
                self.lits[m.group(2)] = (m.group(1), m.group(3))
        self.parse()

    def parse(self):
        parts = re.split(r'^;; Function ', self.text, flags=re.M)[1:]
        for p in parts:
            m = re.match(r'(.*?) \((\S+), funcdef_no', p)
            if not m:
                raise FrontError('cannot parse function header: ' + p[:80])
            self.fn(m.group(1), m.group(2), p[p.index('\n') + 1:])

    def fn(self, pretty, name, body):
        f = Fn(); f.pretty, f.name = pretty, name
        i = body.index('\n{')
        header = body[:i]
        # the signature: last line(s) of header
        sig = [l for l in header.split('\n') if '(' in l and not l.startswith('__attribute__') and not l.startswith('No longer') and not l.startswith('Now a') and not l.startswith(';;')]
        sig = sig[-1] if sig else ''
        f.params = []
        f.sig = sig
        j = self.sig_open(sig)
        args = sig[j + 1:sig.rindex(')')] if j >= 0 else ''
        f.rettype = '?'
        if j >= 0:
            head = sig[:j].strip()
            mm = re.match(r'^(.*\S)\s+(\S+)$', re.sub(r'D\.\d+$', '', head))
            k = head.find(' ' + pretty.split('(')[0].split('<')[0])
            f.rettype = norm_type(head[:k] if k > 0 else head.rsplit(' ', 1)[0], self.structs, name)
        for a in self.split_top(args):
            a = a.strip()
            if not a or a == 'void': continue
            mm = re.match(r'^(.*?)([A-Za-z_][A-Za-z0-9_]*D\.\d+)$', a)
            if not mm:
                mm = re.match(r'^(.*?)(D\.\d+)$', a)
            if not mm:
                # unnamed parameter: only a type
                f.params.append(('', norm_type(a, self.structs, name), a)); continue
            f.params.append((mm.group(2), norm_type(mm.group(1), self.structs, name), mm.group(1).strip()))
        f.locals = []; f.tables = []; f.types = {}; f.blocks = []
        f.ddefs = {}
        for mm in re.finditer(r'(?<![\w.])([A-Za-z_][A-Za-z0-9_]*(?:\.\d+)*|D\.\d+)_(\d+)\(D\)', body[i:]):
            f.ddefs.setdefault(mm.group(1), set()).add(int(mm.group(2)))
        for k in sorted(set(re.findall(r'(?<![\w.])C\.(\d+)(?![\w.]*D\.)\b', body[i:]))):
            if k in self.lits and not self.lits[k][1].startswith('{'):
                nm, nt = 'C.%sD.%s' % (k, k), norm_type(self.lits[k][0], self.structs, name)
                f.locals.append((nm, nt, '', 'static', 'const')); f.tables.append((nm, nt, '', [self.lits[k][1]]))
        if self.lits:
            body = body[:i] + re.sub(r'(?<![\w.])C\.(\d+)(?![\w.]*D\.)\b', r'C.\1D.\1', body[i:])
        for c in [k for k in f.ddefs if k.startswith('CHAIN.')]:
            f.params.append((c + 'D.0', 'ptr', 'CHAIN'))
        lines = body[i + 2:].split('\n')
        cur = None
        n = 0
        # join continuation lines (initializers)
        while n < len(lines):
            l = lines[n]; n += 1
            if l.startswith('}'): break
            s = l.strip()
            if not s: continue
            while cur is None and s.endswith(',') or (cur is None and '{' in s and '}' not in s):
                s += ' ' + lines[n].strip(); n += 1
            mb = re.match(r'<bb (\d+)> (?:\[.*\] )?:$', s)
            if mb:
                cur = {'id': int(mb.group(1)), 'phis': [], 'stmts': [], 'labels': []}
                f.blocks.append(cur); continue
            if cur is None:
                self.decl(f, s); continue
            if s.startswith('//') or s.startswith(';;'): continue
            try:
                self.stmt(f, cur, s, lines, n)
            except (FrontError, IndexError, ValueError, AttributeError, KeyError):
                # not understood: the analyses treat the path as unsupported
                cur['stmts'].append(('unsup', f.loc, LOC.sub('', s)[:200]))
            if s.find('if (') >= 0 and self.isif:
                n = self.isif
        f.blocks_by = {b['id']: b for b in f.blocks}
        self.fns.append(f)

    def sig_open(self, sig):
        # position of the '(' opening the parameter list: matching the last ')'
        d = 0
        for k in range(sig.rindex(')') if ')' in sig else -1, -1, -1):
            if sig[k] == ')': d += 1
            if sig[k] == '(':
                d -= 1
                if d == 0: return k
        return -1

    def split_top(self, s, sep=','):
        out, d, cur = [], 0, ''
        for ch in s:
            if ch in '([{<': d += 1
            if ch in ')]}>': d -= 1
            if ch == sep and d == 0:
                out.append(cur); cur = ''
            else: cur += ch
        if cur.strip(): out.append(cur)
        return out

    def decl(self, f, s):
        s = LOC.sub('', s)
        if not s.endswith(';'):
            return
        s = s[:-1].strip()
        init = None
        if ' = ' in s:
            s, init = s.split(' = ', 1)
        static = s.startswith('static ')
        m = re.match(r'^(.*?)((?:[A-Za-z_<][A-Za-z0-9_.>]*)?D\.\d+|[A-Za-z_.0-9]*_\d+|<retval>|[A-Za-z_][A-Za-z0-9_.]*)((?:\[[^\]]*\])*)$', s)
        if not m:
            return
        ty, nm, dims = m.group(1), m.group(2), m.group(3)
        if re.search(r'D\.\d+$', nm) is None or re.match(r'.*_\d+$', nm):
            f.types[nm] = norm_type(ty, self.structs, f.name)
            if nm != '<retval>': return
        nt = norm_type(ty, self.structs, f.name)
        base = re.sub(r'D\.\d+$', '', nm)
        if not dims:
            f.types.setdefault('var:' + base, set()).add(nt)
        if static and init is not None and init.startswith('{'):
            f.tables.append((nm, nt, dims, self.flat_init(init)))
        elif static and init is not None:
            f.tables.append((nm, nt, dims, [init.strip()]))
        elif static:
            f.statics = getattr(f, 'statics', []) + [(nm, nt, dims)]
        f.locals.append((nm, nt, dims, 'static' if static else 'auto', 'const' if re.search(r'\bconst\b', ty) else 'mut'))

    def flat_init(self, init):
        init = re.sub(r'\[\d+\]=', '', init)
        return [x.strip() for x in re.sub(r'[{}]', ' ', init).replace(' ', '').split(',') if x.strip()]

    # ------------------------------------------------ statements
    def stmt(self, f, b, s, lines, n):
        self.isif = 0
        m = FIRSTLOC.match(s)
        loc = '%s:%s:%s' % m.groups() if m else '-'
        s = LOC.sub('', s).strip()
        f.loc = loc
        if s.startswith('//'): return
        m = re.match(r'^(.*)\); \[static-chain: (.*)\];?$', s)
        if m:   # call of an internal procedure: the frame of the host is a further argument
            s = m.group(1) + ('' if m.group(1).endswith('(') else ', ') + m.group(2) + ');'
        if s.startswith('# '):
            if ' = PHI <' in s:
                d, a = s[2:].split(' = PHI <', 1)
                a = a[:a.rindex('>')]
                if d.startswith('.MEM') : return
                args = []
                for x in self.split_phi(a):
                    mm = re.match(r'^(.*)\((\d+)\)$', x.strip())
                    args.append((int(mm.group(2)), self.operand(f, mm.group(1))))
                b['phis'].append((d.strip(), args))
            return
        if re.match(r'^<L\d+>', s) or re.match(r'^[A-Za-z_<][\w.>]*(D\.\d+)?( \[[^\]]*\])?:$', s):
            mm = re.match(r'^(<L\d+>|[A-Za-z_][\w.]*?)(D\.\d+)?( \[[^\]]*\])?:', s)
            if mm: b['labels'].append(mm.group(1))
            return
        if 'CLOBBER' in s:
            return
        if s.startswith('GIMPLE_NOP') or s.startswith('GIMPLE_PREDICT') or s == ';' :
            return
        if s.startswith('if ('):
            cond = s[4:s.rindex(')')]
            # following lines: goto <bb a>; else goto <bb b>;
            rest = [s[s.rindex(')') + 1:]]
            k = n
            tgt = []
            txt = s[s.rindex(')') + 1:]
            tgt += re.findall(r'goto <bb (\d+)>', txt)
            while len(tgt) < 2:
                tgt += re.findall(r'goto <bb (\d+)>', lines[k]); k += 1
            self.isif = k
            b['stmts'].append(('if', loc, self.cond(f, cond), int(tgt[0]), int(tgt[1])))
            return
        if s.startswith('goto <bb'):
            b['stmts'].append(('goto', loc, int(re.match(r'goto <bb (\d+)>', s).group(1)))); return
        if s.startswith('goto '):
            b['stmts'].append(('gotol', loc, s[5:].split(';')[0].split(' ')[0])); return
        if s.startswith('switch ('):
            mm = re.match(r'switch \((.*?)\) <(.*)>;?$', s)
            cases = []
            for c in self.split_top(mm.group(2)):
                c = c.strip()
                c = re.sub(r' \[[^\]]*\]$', '', c)
                k, t = c.rsplit(': ', 1)
                cases.append((k.replace('case ', '').strip(), t.strip()))
            b['stmts'].append(('switch', loc, self.operand(f, mm.group(1)), cases)); return
        if s.startswith('return'):
            v = s[6:].strip().rstrip(';').strip()
            b['stmts'].append(('ret', loc, self.operand(f, v) if v else None)); return
        if s.startswith('resx') or s.startswith('__asm__') or s.startswith('eh_dispatch'):
            b['stmts'].append(('unsup', loc, s)); return
        s = s.rstrip(';').strip()
        s = re.sub(r' \[(return slot optimization|tail call|must tail call|static-chain[^\]]*)\]', '', s).rstrip(';').strip()
        s = re.sub(r'^\[(LP|MNT) -?\d+\] ', '', s)
        s = re.sub(r';? ?(\[(LP|MNT) -?\d+\])', '', s).rstrip(';').strip()
        # assignment or call
        if ' = ' in s or re.match(r'^\S+ =\{v\} ', s):
            vol = '={v}' in s
            l, r = s.split(' ={v} ' if vol else ' = ', 1)
            b['stmts'].append(('set', loc, self.ref(f, l.strip()), self.rhs(f, r.strip())))
            return
        mm = re.match(r'^([A-Za-z_.][\w.]*?)(D\.\d+)? \((.*)\)$', s)
        if mm:
            b['stmts'].append(('set', loc, None, self.call(f, mm)))
            return
        mm = re.match(r'^(\S+) \((.*)\)$', s)
        if mm:
            b['stmts'].append(('set', loc, None, ('icall', self.operand(f, mm.group(1)), [self.operand(f, x) for x in self.split_top(mm.group(2))])))
            return
        b['stmts'].append(('unsup', loc, s))

    def split_phi(self, a):
        # args separated by ', ' each ending with (N)
        out = []; cur = ''; d = 0
        for ch in a:
            if ch in '([{': d += 1
            if ch in ')]}': d -= 1
            if ch == ',' and d == 0:
                out.append(cur); cur = ''
            else: cur += ch
        out.append(cur)
        return out

    def call(self, f, mm):
        name, args = mm.group(1), mm.group(3)
        return ('call', name, [self.operand(f, x) for x in self.split_top(args)])

    BIN = re.compile(r'^(.*\S) (\+|-|\*|/|%|&|\||\^|<<|>>|==|!=|<=|>=|<|>|u<=|u>=|u<|u>|u==|unord|ord|ltgt|r>>|r<<|\[fl\]|\[cl\]|\[ex\]|\[rd\]|/\[ex\]|w\*) (\S.*)$')

    def cond(self, f, c):
        r = self.rhs(f, c)
        if r[0] == 'op1' and r[1] == 'mov':
            return ('op2', '!=', r[2], ('i', '0'))
        return r

    def rhs(self, f, r):
        r = r.strip()
        m = re.match(r'^\(\((.*)\)\)$', r)
        if m and self.balanced(m.group(1)):
            return ('op1', 'mov', self.operand(f, m.group(1)))
        m = re.match(r'^COMPLEX_EXPR <(.*)>$', r)
        if m:
            a = self.split_top(m.group(1))
            return ('op2', 'cplx', self.operand(f, a[0]), self.operand(f, a[1]))
        m = re.match(r'^(REALPART_EXPR|IMAGPART_EXPR) <(.*)>$', r)
        if m:
            return ('op1', 're' if m.group(1)[0] == 'R' else 'im', self.operand(f, m.group(2)))
        m = re.match(r'^(ABS_EXPR|CONJ_EXPR|ABSU_EXPR|PAREN_EXPR) <(.*)>$', r)
        if m:
            return ('op1', {'A': 'abs', 'C': 'conj', 'P': 'mov'}[m.group(1)[0]], self.operand(f, m.group(2)))
        m = re.match(r'^(MAX_EXPR|MIN_EXPR) <(.*)>$', r)
        if m:
            a = self.split_top(m.group(2))
            return ('op2', m.group(1)[:3].lower(), self.operand(f, a[0]), self.operand(f, a[1]))
        m = re.match(r'^VIEW_CONVERT_EXPR<(.*?)>\((.*)\)$', r)
        if m:
            return ('unsup', r)
        # conditional expression
        m = re.match(r'^(.*) \? (.*) : (.*)$', r)
        if m:
            c = self.rhs(f, m.group(1))
            return ('cond', c, self.operand(f, m.group(2)), self.operand(f, m.group(3)))
        # call
        m = re.match(r'^([A-Za-z_.][\w.]*?)(D\.\d+)? \((.*)\)$', r)
        if m and not r.startswith('__complex__'):
            return self.call(f, m)
        # cast
        m = re.match(r'^\((<unnamed[^<>]*>|[A-Za-z_][^()]*(?:\(kind=\d+\))?[^()]*)\) (\S.*)$', r)
        if m and not self.BIN.match(r[r.index(') ') + 2:]):
            return ('cast', norm_type(m.group(1), self.structs, f.name), self.operand(f, m.group(2)), m.group(1))
        m = self.split_bin(r)
        if m:
            a, op, b2 = m
            return ('op2', op, self.operand(f, a), self.operand(f, b2))
        if r.startswith('~'):
            return ('op1', 'not', self.operand(f, r[1:]))
        if r.startswith('-') and not re.match(r'^-[\d.]|^-Inf|^-Nan|^- ?Nan', r):
            return ('op1', 'neg', self.operand(f, r[1:]))
        if r.startswith('!'):
            return ('op1', 'lnot', self.operand(f, r[1:]))
        if r.startswith('{}'):
            return ('zero',)
        if r.startswith('{') :
            return ('init', self.flat_init(r))
        m = re.match(r'^\*?(\.LC\d+)D\.\d+$', r)
        if m:
            return ('pool', m.group(1))
        return ('op1', 'mov', self.operand(f, r))

    def balanced(self, s):
        d = 0
        for ch in s:
            if ch == '(': d += 1
            if ch == ')':
                d -= 1
                if d < 0: return False
        return d == 0

    def split_bin(self, r):
        # split on a top level ' op '
        d = 0; i = 0
        ops = ('+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '==', '!=', '<=', '>=', '<', '>', 'u<=', 'u>=', 'u<', 'u>', 'u==', 'unord', 'ord', '<>')
        toks = r.split(' ')
        depth = 0
        for k, t in enumerate(toks):
            if k > 0 and depth == 0 and t in ops and k < len(toks) - 1:
                return ' '.join(toks[:k]), t, ' '.join(toks[k + 1:])
            depth += t.count('(') + t.count('[') - t.count(')') - t.count(']')
            if re.search(r'[A-Z_]+$', t) and k + 1 < len(toks) and toks[k + 1].startswith('<') and t.endswith('_EXPR'):
                return None
        return None

    # references -> ('s',name) ssa | ('m',obj,path) | ('d',ssa,path) ; path list of ('f',name)|('i',operand)|('p',re|im)|('o',bytes)
    def ref(self, f, t):
        t = t.strip()
        m = re.match(r'^(REALPART_EXPR|IMAGPART_EXPR) <(.*)>$', t)
        if m:
            r = self.ref(f, m.group(2))
            if r[0] == 's': raise FrontError('part store to ssa')
            return (r[0], r[1], r[2] + [('p', 're' if m.group(1)[0] == 'R' else 'im')])
        r, rest = self.prim(f, t)
        while rest:
            m = re.match(r'^(->|\.)D\.\d+', rest)
            if m:
                if m.group(1) == '->': r = self.deref(r)
                rest = rest[m.end():]; continue
            m = re.match(r'^(->|\.)([A-Za-z_][\w]*?)(D\.\d+)?(?![\w])', rest)
            if m:
                if m.group(1) == '->':
                    r = self.deref(r)
                r = (r[0], r[1], r[2] + [('f', m.group(2))])
                rest = rest[m.end():]; continue
            if rest[0] == '[':
                d = 0
                for k, ch in enumerate(rest):
                    if ch == '[': d += 1
                    if ch == ']':
                        d -= 1
                        if d == 0: break
                idx = rest[1:k]
                idx = re.sub(r'\{lb:.*', '', idx)
                r = (r[0], r[1], r[2] + [('i', self.operand(f, idx))])
                rest = rest[k + 1:]; continue
            raise FrontError('%s: cannot parse reference %r (rest %r)' % (f.name, t, rest))
        return r

    def deref(self, r):
        if r[0] == 's': return ('d', r[1], [])
        raise FrontError('deref of non-ssa')

    SSAN = re.compile(r'^((?:[A-Za-z_][A-Za-z0-9_]*(?:\.\d+)*|D\.\d+)?_\d+)(\(D\)|\(ab\))*')

    @staticmethod
    def close(t, k):    # position of the bracket closing the one at k
        d = 0
        for i in range(k, len(t)):
            if t[i] in '([': d += 1
            if t[i] in ')]':
                d -= 1
                if d == 0: return i
        raise FrontError('unbalanced ' + t)

    def prim(self, f, t):
        if t.startswith('(*'):
            # (*ssa)
            m = re.match(r'^\(\*(.*?)\)', t)
            inner = t[2:t.index(')', self.SSAN.match(t[2:]).end() + 2) if False else None]
            mm = self.SSAN.match(t[2:])
            if mm:
                e = 2 + mm.end()
                if t[e] != ')': raise FrontError('paren deref ' + t)
                return ('d', mm.group(1), []), t[e + 1:]
            # (*objD.1)?
            raise FrontError('paren deref ' + t)
        if t.startswith('*'):
            mm = self.SSAN.match(t[1:])
            if mm:
                return ('d', mm.group(1), []), t[1 + mm.end():]
            raise FrontError('deref ' + t)
        if t.startswith('MEM'):
            h = re.match(r'^MEM(?: <([^>]*)>)? ?\[\(', t)
            if not h: raise FrontError('MEM ' + t)
            k = self.close(t, h.end() - 1); e = self.close(t, h.end() - 2)
            m = re.match(r'^(.*?)(?: \+ (-?\d+)B?)?$', t[k + 1:e])
            base = m.group(1).strip()
            ty = re.sub(r'[*&]\s*(restrict)?\s*$', '', (h.group(1) or t[h.end():k]).strip()).strip()
            ty = norm_type(re.sub(r'(\[\d*\])+$', '', ty), self.structs, f.name)
            off = int(m.group(2) or 0)
            if base.startswith('&'):
                r = self.ref(f, base[1:])
            else:
                mm = self.SSAN.match(base)
                if not mm: raise FrontError('MEM base ' + t)
                r = ('d', mm.group(1), [])
            return (r[0], r[1], r[2] + [('o', off, ty)]), t[e + 1:]
        m = re.match(r'^<retval>', t)
        if m: return ('m', '<retval>', []), t[m.end():]
        # ssa name?
        m = re.match(r'^((?:[A-Za-z_<>][\w]*?)?(?:\.\d+)*)?D\.\d+(?!\d)', t)
        ms = self.SSAN.match(t)
        if ms and (not m or ms.end() >= m.end()):
            return ('s', ms.group(1), []), t[ms.end():]
        m = re.match(r'^(\*?\.?[A-Za-z_][\w]*(?:\.\d+)*|)D\.(\d+)', t)
        if m:
            return ('m', m.group(0).lstrip('*'), []), t[m.end():]
        m = re.match(r'^[A-Za-z_]\w*', t)
        if m:
            return ('m', m.group(0), []), t[m.end():]
        raise FrontError('%s: cannot parse primary %r' % (f.name, t))

    def operand(self, f, t):
        t = t.strip()
        if re.match(r'^-?\d+(?:B|u|l|ul|ull|ll)?$', t):
            return ('i', re.sub(r'[A-Za-z]+$', '', t))
        if re.match(r'^-?\d+\.\d*(e[+-]?\d+)?$', t) or re.match(r'^-?\d+e[+-]?\d+$', t):
            return ('f', t)
        if re.match(r'^(-|\+)?\s?(\+?Inf|Nan|QNaN|SNaN)', t):
            return ('f', fconst(t))
        m = re.match(r'^__complex__ ?\((.*)\)$', t)
        if m:
            a = self.split_top(m.group(1))
            return ('c', fconst(a[0]), fconst(a[1]))
        if t.startswith('{'):
            return ('unsup', t)
        if t.startswith('"') or t.startswith('&"'):
            return ('str', t)
        m = re.match(r'^\(([A-Za-z_][^()]*)\) ?(-?\d[\d.e+-]*)$', t)
        if m:  # constant with cast
            return self.operand(f, m.group(2))
        if t.startswith('&'):
            r = self.ref(f, t[1:])
            return ('a', r)
        m = re.match(r'^(REALPART_EXPR|IMAGPART_EXPR) <(.*)>$', t)
        r = self.ref(f, t)
        if r[0] == 's' and not r[2]:
            return ('s', r[1])
        return ('l', r)

# ---------------------------------------------------------------- data
def unescape(s):
    return s

def read_data(asm):
    """constant data objects of a -O0 assembly file: name -> bytes, section"""
    out = {}
    sec = '.text'; cur = None
    for line in asm.split('\n'):
        s = line.strip()
        if not s or s.startswith('#'): continue
        if re.match(r'^\.(text|data|bss)\b', s):
            sec = s.split()[0]; cur = None; continue
        if s.startswith('.section'):
            sec = s.split()[1].split(',')[0]; cur = None; continue
        m = re.match(r'^([.\w$]+):$', s)
        if m:
            cur = m.group(1)
            out[cur] = {'sec': sec, 'b': bytearray()}
            continue
        if cur is None or sec.startswith('.text'): continue
        b = out[cur]['b']
        m = re.match(r'^\.(long|quad|value|byte|zero|string|ascii|float|double|int|word|short|hword|2byte|4byte|8byte|octa)\s+(.*)$', s)
        if not m: continue
        d, a = m.groups()
        try:
            if d == 'zero':
                b.extend(bytes(int(a.split(',')[0])))
            elif d in ('string', 'ascii'):
                b.extend(b'?')
            elif d in ('float', 'double'):
                for x in a.split(','):
                    b.extend(struct.pack('<f' if d == 'float' else '<d', float(x)))
            else:
                sz = {'long': 4, 'int': 4, '4byte': 4, 'quad': 8, '8byte': 8, 'value': 2, 'short': 2, 'hword': 2, 'word': 2, '2byte': 2, 'byte': 1, 'octa': 16}[d]
                for x in a.split(','):
                    b.extend((int(x, 0) & ((1 << (8 * sz)) - 1)).to_bytes(sz, 'little'))
        except ValueError:
            out[cur]['reloc'] = True
    for m in re.finditer(r'^\s*\.(?:local|comm)\s+([.\w$]+)(?:,(\d+))?', asm, re.M):
        if m.group(2):
            out[m.group(1)] = {'sec': '.bss', 'b': bytearray(int(m.group(2)))}
    return out

# ---------------------------------------------------------------- emission
def opstr(o):
    k = o[0]
    if k == 's': return 's ' + o[1]
    if k == 'i': return 'i ' + o[1]
    if k == 'f': return 'f ' + o[1]
    if k == 'c': return 'c %s %s' % (o[1], o[2])
    if k == 'a': return 'a ' + refstr(o[1])
    if k == 'l': return 'l ' + refstr(o[1])
    if k == 'str': return 'u str'
    return 'u ' + re.sub(r'\s+', '_', str(o[1:]))

def refstr(r):
    # ref: s NAME | m OBJ npath path.. | d SSA npath path..
    if r[0] == 's' and not r[2]:
        return 's ' + r[1]
    if r[0] == 's':
        raise FrontError('path on ssa ' + str(r))
    ps = []
    for p in r[2]:
        if p[0] == 'f': ps.append('f ' + p[1])
        elif p[0] == 'p': ps.append('p ' + p[1])
        elif p[0] == 'o': ps.append('o %d %s' % (p[1], p[2]))
        else: ps.append('i ' + opstr(p[1]))
    return '%s %s %d %s' % (r[0], r[1], len(ps), ' '.join(ps))

def rhsstr(r):
    k = r[0]
    if k == 'op1': return 'op1 %s %s' % (r[1], opstr(r[2]))
    if k == 'op2': return 'op2 %s %s %s' % (r[1], opstr(r[2]), opstr(r[3]))
    if k == 'cast': return 'cast %s %s' % (r[1], opstr(r[2]))
    if k == 'call': return 'call %s %d %s' % (r[1], len(r[2]), ' '.join(opstr(x) for x in r[2]))
    if k == 'cond': return 'cond %s %s %s' % (rhsstr(r[1]), opstr(r[2]), opstr(r[3]))
    if k == 'pool': return 'pool %s' % r[1]
    if k == 'init': return 'init %d %s' % (len(r[1]), ' '.join(fconst(x) if not x.startswith('__complex__') else 'nan' for x in r[1]))
    if k == 'zero': return 'zero'
    return 'unsup ' + re.sub(r'\s+', '_', str(r[1:]))

def stype(f, name):
    if name in f.types: return f.types[name]
    m = re.match(r'^(.*)_\d+$', name)
    if m and m.group(1):
        for p in f.params:
            if re.sub(r'D\.\d+$', '', p[0]) == m.group(1) and ('var:' + m.group(1)) not in f.types:
                return p[1]
        s = f.types.get('var:' + m.group(1))
        if s and len(s) == 1: return next(iter(s))
    return '?'

def emit(P, w, repo):
    for f in P.fns:
        w.write('FUNC %s %s %s %s\n' % (f.name, P.tu, f.rettype, re.sub(r'\s+', ' ', f.pretty).replace(' ', '_')))
        used = set()
        for nm, ty, raw in f.params:
            base = re.sub(r'D\.\d+$', '', nm)
            dd = sorted(f.ddefs.get(base, ()))
            ssa = '-'
            if dd and nm:
                # a shadowing, never initialised local of the same name would
                # have its own default definition; the parameter's comes first
                ssa = '%s_%d' % (base, dd[0]); used.add((base, dd[0]))
            w.write('PARAM %s %s %s\n' % (nm or '-', ty, ssa))
        for base, ns in f.ddefs.items():
            for k in sorted(ns):
                if (base, k) not in used:
                    w.write('UNDEF %s_%d\n' % (base, k))
        for nm, ty, dims, st, cv in f.locals:
            w.write('LOCAL %s %s %s %s %s\n' % (nm, ty, dims or '-', st, cv))
        for nm, ty, dims, vals in f.tables:
            w.write('TABLE %s %s %s %d %s\n' % (nm, ty, dims or '-', len(vals), ' '.join(fconst(v) for v in vals)))
        for b in f.blocks:
            w.write('BB %d\n' % b['id'])
            for d, args in b['phis']:
                w.write('PHI %s %s %d %s\n' % (d, stype(f, d), len(args), ' '.join('%d %s' % (p, opstr(o)) for p, o in args)))
            for s in b['stmts']:
                k, loc = s[0], s[1].replace(repo.rstrip('/') + '/', '')
                if k == 'set':
                    l = s[2]
                    if l is None: ls, ty = 'n', 'void'
                    else:
                        ls = refstr(l); ty = stype(f, l[1]) if l[0] == 's' else '?'
                    w.write('SET %s %s %s = %s\n' % (loc, ty, ls, rhsstr(s[3])))
                elif k == 'if':
                    w.write('IF %s %d %d %s\n' % (loc, s[3], s[4], rhsstr(s[2])))
                elif k == 'goto':
                    w.write('GOTO %s %d\n' % (loc, s[2]))
                elif k == 'gotol':
                    t = [x['id'] for x in f.blocks if s[2] in x['labels']]
                    if not t: raise FrontError('label ' + s[2])
                    w.write('GOTO %s %d\n' % (loc, t[0]))
                elif k == 'switch':
                    cs = []
                    for c, t in s[3]:
                        bb = [x['id'] for x in f.blocks if t in x['labels']]
                        if not bb: raise FrontError('switch label %s in %s' % (t, f.name))
                        lo, hi = c, c
                        mm = re.match(r'^(-?\d+) ?\.\.\. ?(-?\d+)$', c)
                        if mm: lo, hi = mm.groups()
                        cs.append('%s %s %d' % (lo, hi, bb[0]))
                    w.write('SWITCH %s %s %d %s\n' % (loc, opstr(s[2]), len(cs), ' '.join(cs)))
                elif k == 'ret':
                    w.write('RET %s %s\n' % (loc, opstr(s[2]) if s[2] else 'n'))
                else:
                    w.write('UNSUP %s %s\n' % (loc, re.sub(r'\s+', '_', str(s[2]))))
        w.write('ENDF\n')
    for name, o in read_data(P.asm).items():
        if name.isdigit(): continue
        if o['b'] and not o['sec'].startswith('.debug'):
            w.write('DATA %s %s %s %s %s\n' % (name, P.tu, o['sec'], 'reloc' if o.get('reloc') else 'plain', bytes(o['b']).hex()))

def global_dims(P, lang, src, repo):
    """array bounds of namespace-scope arrays that are indexed twice"""
    want = set()
    def look(o):
        if isinstance(o, tuple):
            if len(o) == 3 and o[0] in ('m',) and isinstance(o[2], list) and sum(1 for p in o[2] if p[0] == 'i') >= 2:
                want.add(re.sub(r'D\.\d+$', '', o[1]))
            for x in o: look(x)
        elif isinstance(o, list):
            for x in o: look(x)
    for f in P.fns:
        loc = {re.sub(r'D\.\d+$', '', l[0]) for l in f.locals}
        for b in f.blocks:
            for s in b['stmts']: look(s)
        want -= loc
    out = {}
    for name in want:
        base = name
        m = re.findall(r'L?(\d+)', name)
        mm = re.search(r'(\d+)([A-Za-z_]\w*?)E?$', name)
        if name.startswith('_Z'):
            # last length-prefixed identifier of the mangled name
            rest = name; base = None
            i = 0
            for q in re.finditer(r'(\d+)(?=[A-Za-z_])', name):
                n = int(q.group(1)); cand = name[q.end():q.end() + n]
                if len(cand) == n and re.match(r'^[A-Za-z_]\w*$', cand) and name[q.end() + n:] in ('E', ''):
                    base = cand
        cc = {'c': 'clang', 'cpp': 'clang++'}.get(lang)
        if not base or not cc: continue
        fl = [x for x in flags(repo, lang)[1:]]
        r = subprocess.run([cc] + fl + ['-fsyntax-only', '-Xclang', '-ast-dump', '-Xclang', '-ast-dump-filter=' + base, src],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        q = re.search(r"VarDecl .*\b%s '[^']*?((?:\[\d+\])+)'" % re.escape(base), re.sub(r'\x1b\[[0-9;]*m', '', r.stdout))
        if q: out[name] = re.findall(r'\d+', q.group(1))
    return out

def build(repo, out, langs):
    os.makedirs(out, exist_ok=True)
    repo = os.path.abspath(repo); out = os.path.abspath(out)
    jobs = []
    with ThreadPoolExecutor(8) as ex:
        for lang in langs:
            for src in sources(repo, lang):
                jobs.append((lang, src, ex.submit(compile_tu, repo, lang, src, out)))
        res = [(l, s, j.result()) for l, s, j in jobs]
    stats = {}
    for lang in langs:
        with open(os.path.join(out, lang + '.ir'), 'w') as w:
            n = 0
            for l, s, (tu, ssa, asm) in res:
                if l != lang: continue
                P = Parser(lang, tu, ssa, asm)
                n += len(P.fns)
                emit(P, w, repo)
                for nm, d in global_dims(P, lang, s, repo).items():
                    w.write('DIMS %s %s %s\n' % (nm, tu, ' '.join(d)))
            stats[lang] = n
    return stats

if __name__ == '__main__':
    langs = sys.argv[3:] or ['c', 'cpp', 'f']
    try:
        print(json.dumps(build(sys.argv[1], sys.argv[2], langs)))
    except FrontError as e:
        sys.stderr.write('FRONT-ERROR %s\n' % e); sys.exit(3)
