"""Common machinery of the checks: building the analyser, lowering /repo's current
sources, running analysis jobs in parallel, evidence files and verdicts."""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
ANA = os.path.join(VERIF, 'build', 'ana')
NCPU = min(8, os.cpu_count() or 8)
T0 = time.time()


class Broken(Exception):
    """the analysis itself could not be carried out (vanished anchor, tool failure)"""


def newest(d):
    return max(os.path.getmtime(os.path.join(d, f)) for f in os.listdir(d))


def ensure_built():
    eng = os.path.join(VERIF, 'engine')
    if not os.path.exists(ANA) or os.path.getmtime(ANA) < newest(eng):
        r = subprocess.run(['bash', os.path.join(VERIF, 'build.sh')], capture_output=True, text=True)
        if r.returncode:
            raise Broken('analyser does not build: ' + r.stderr[-2000:])


_work = None


def workdir():
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix='vf-')
    return _work


def cleanup():
    if _work and os.path.isdir(_work):
        shutil.rmtree(_work, ignore_errors=True)


_ir = {}


def lower(langs=('c', 'cpp', 'f')):
    """lowers /repo's current sources to the analyser's IR"""
    need = [l for l in langs if l not in _ir]
    if need:
        out = os.path.join(workdir(), 'ir')
        os.makedirs(out, exist_ok=True)
        r = subprocess.run([sys.executable, os.path.join(VERIF, 'tools', 'front.py'), REPO, out] + need,
                           capture_output=True, text=True)
        if r.returncode:
            raise Broken('front end failed: ' + (r.stderr or r.stdout)[-3000:])
        for l in need:
            _ir[l] = os.path.join(out, l + '.ir')
    return {l: _ir[l] for l in langs}


def ana(mode, irfile, timeout=880, **kw):
    if mode == 'acc' and TIER == 'quick':
        kw.setdefault('tend', '%.0f' % (T0 + 560))  # what is not reached in time is reported as undecided
    cmd = [ANA, mode, irfile] + ['%s=%s' % (k, v) for k, v in kw.items()]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return {'error': 'analysis time limit', 'cmd': ' '.join(cmd)}
    try:
        d = json.loads(r.stdout.strip().splitlines()[-1].replace(': inf', ': 1e999').replace(': -inf', ': -1e999').replace(': nan', ': NaN').replace(': -nan', ': NaN'))
    except Exception:
        return {'error': 'analyser failed (exit %d): %s' % (r.returncode, (r.stderr + r.stdout)[-800:]), 'cmd': ' '.join(cmd)}
    d['cmd'] = ' '.join(cmd)
    return d


def run_jobs(jobs):
    """jobs: list of (name, callable) -> {name: result}; longest first is up to the caller"""
    res = {}
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        fu = {ex.submit(f): n for n, f in jobs}
        for f in concurrent.futures.as_completed(fu):
            res[fu[f]] = f.result()
    return res


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.viol = []          # (key, text)
        self.known = []
        self.obl = self.dis = 0
        self.cov = {}
        self.samples = []
        self.assume = []
        self.notes = []

    def violation(self, key, text):
        self.viol.append((key, text))


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def finish(rep, level, explanation, trusted, rc_broken=None):
    kf = [k for k in known_findings() if k.get('property') == rep.prop and k.get('status') == 'finding']
    viol = []
    for key, text in rep.viol:
        m = [k for k in kf if k['key'] == key]
        if m:
            print('KNOWN-FINDING: property=%s %s' % (rep.prop, m[0]['what']))
            rep.known.append(key)
        else:
            viol.append((key, text))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    cov = dict(rep.cov)
    cov['obligations'] = rep.obl
    cov['discharged'] = rep.dis
    cov['explanation'] = explanation
    cov['trusted_base'] = trusted
    cov['checker_cmd'] = 'python3 check.py ' + rep.prop
    if rep.samples:
        cov['samples'] = rep.samples[:12]
    if rep.notes:
        cov['undecided'] = rep.notes[:40]
    if rep.known:
        cov['known_findings'] = rep.known
    ev = {'property': rep.prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': level,
          'coverage': cov, 'assumptions': rep.assume, 'wall_s': round(time.time() - T0, 2), 'violations': len(viol)}
    with open(os.path.join(VERIF, 'evidence', rep.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    rp = os.path.join(VERIF, 'evidence', rep.prop + '.violations.txt')
    if os.path.exists(rp):
        os.remove(rp)
    if viol:
        with open(rp, 'w') as f:
            for key, text in viol:
                f.write('[%s] %s\n' % (key, text))
        for key, text in viol[:20]:
            print('  %s: %s' % (key, text))
        print('VIOLATION property=%s replay=%s' % (rep.prop, rp))
        return 1
    if rep.notes:
        print('undecided: %d, e.g. %s' % (len(rep.notes), rep.notes[0][:200]))
    print('OK property=%s obligations=%d discharged=%d wall=%.1fs' % (rep.prop, rep.obl, rep.dis, time.time() - T0))
    return 0
