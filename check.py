#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide property ID for /repo's current tree.

 1. the contract functions are extracted from /repo (typed clang AST -> WhyML), Why3 generates the
    obligations, the solver portfolio discharges them;
 2. a harness, compiled from /repo's sources, executes the same contracts on concrete inputs: it
    replays/searches a failing input when an obligation fails, and is the bounded stand-in for
    functions the extraction cannot reach (labelled bounded)."""
import os, sys, re, json, time, tempfile, shutil, subprocess, hashlib, threading
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
from vgen import *
import prove, dev
sys.setrecursionlimit(20000)
EVD = os.path.join(ROOT, 'evidence') if not os.environ.get('VERIF_NOEV') else tempfile.mkdtemp()

def h(s): return hashlib.sha256(s.encode()).hexdigest()[:16]
def shape(tr): return ['%d:%s' % (x[1], 'range' if x[2] == 'forrange' else 'do' if x[2] == 'do' else 'loop') for x in tr.loopinfo]
def load_baseline():
    p = os.path.join(ROOT, 'specs', 'baseline.json')
    return json.load(open(p)) if os.path.exists(p) else {}

class Harness(threading.Thread):
    """build the harness from /repo's sources and run it"""
    def __init__(self, pid, tier, seed, work):
        super().__init__(); self.pid = pid; self.tier = tier; self.seed = seed; self.work = work
        self.src = os.path.join(ROOT, 'harness', pid + '.cc'); self.ran = False; self.fails = []; self.cases = 0; self.nontrivial = 0; self.samples = []; self.note = ''; self.rule = ''; self.wall = 0; self.parts = {}
    def run(self):
        t0 = time.time()
        try: self.go()
        except Exception as e: self.note = 'harness error: %r' % e
        self.wall = time.time() - t0
    def go(self):
        if not os.path.exists(self.src): self.note = 'no harness'; return
        txt = open(self.src).read()
        m = re.findall(r'^// SRC: (.*)$', txt, re.M)
        srcs = []
        for x in ' '.join(m).split():
            if '*' in x:
                import glob
                srcs += sorted(s[len(REPO) + 1:] for s in glob.glob(os.path.join(REPO, x)) if not re.search(r'_main\.cc$|_test\.cc$|test\.cc$|/main\.', s))
            elif x.startswith('-'): srcs = [s for s in srcs if s != x[1:]]
            else: srcs.append(x)
        flags = re.findall(r'^// FLAGS: (.*)$', txt, re.M)
        od = os.path.join(self.work, 'h'); os.makedirs(od, exist_ok=True)
        base = ['g++', '-std=c++11', '-w', '-O0', '-D_GLIBCXX_ASSERTIONS'] + ' '.join(flags).split() + cflags() + ['-I' + os.path.join(ROOT, 'harness')]
        def cc(s):
            src = s if s.startswith('/') else os.path.join(REPO, s)
            o = os.path.join(od, re.sub(r'\W', '_', s) + '.o')
            p = subprocess.run(base + ['-c', src, '-o', o], capture_output=True, text=True)
            return s, o, p.returncode, p.stderr
        with cf.ThreadPoolExecutor(8) as ex: rs = list(ex.map(cc, [self.src] + srcs))
        bad = [(s, e) for s, o, rc, e in rs if rc]
        if bad: self.note = 'harness does not build against this tree: %s: %s' % (bad[0][0], bad[0][1][-600:]); return
        exe = os.path.join(od, 'harness')
        libs = ' '.join(re.findall(r'^// LIBS: (.*)$', txt, re.M)).split()
        p = subprocess.run(['g++'] + [o for s, o, rc, e in rs] + ['-o', exe] + libs + ['-lboost_program_options', '-lboost_iostreams', '-lboost_thread', '-lboost_system', '-lz', '-lpthread'], capture_output=True, text=True)
        if p.returncode: self.note = 'harness does not link against this tree: %s' % p.stderr[-600:]; return
        rd = os.path.join(self.work, 'run'); os.makedirs(rd, exist_ok=True)
        lim = 150 if self.tier == 'quick' else 600
        env = dict(os.environ, VERIF_SEED=str(self.seed), VERIF_TIER=self.tier, VERIF_LIMIT=str(lim))
        out = os.path.join(self.work, 'hout')
        with open(out, 'w') as fo, open(out + '.err', 'w') as fe:
            try: rc = subprocess.run([exe], stdout=fo, stderr=fe, cwd=rd, env=env, timeout=lim + 60).returncode
            except subprocess.TimeoutExpired: rc = 'timeout'
        for l in open(out, errors='replace'):
            l = l.rstrip('\n')
            if l.startswith('FAIL '): self.fails.append(l[5:])
            elif l.startswith('CASES '): self.cases = int(l[6:])
            elif l.startswith('NONTRIVIAL '): self.nontrivial = int(l[11:])
            elif l.startswith('SAMPLE '): self.samples.append(l[7:][:400])
            elif l.startswith('RULE '): self.rule = l[5:]
            elif l.startswith('PART '): a = l[5:].rsplit(' ', 1); self.parts[a[0]] = int(a[1])
        self.ran = True
        if rc != 0 and not self.fails: self.fails.append('harness ended with %s; %s' % (rc, open(out + '.err', errors='replace').read()[-300:]))

def main():
    pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER') or (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'): tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    record = '--record' in sys.argv
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='verif_%s_' % pid, dir=os.environ.get('TMPDIR') or '/tmp')
    try: rc = run(pid, tier, seed, record, work, t0)
    finally:
        if not os.environ.get('VERIF_KEEP'): shutil.rmtree(work, ignore_errors=True)
        else: print('kept', work)
    sys.exit(rc)

def run(pid, tier, seed, record, work, t0):
    known = {}
    kp = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(kp):
        for l in open(kp):
            m = re.match(r'known: property=(\S+) match=(\S+) (.*)', l)
            if m and m.group(1) == pid: known[m.group(2)] = m.group(3).strip()
    H = Harness(pid, tier, seed, work)
    specs = sorted(f for f in os.listdir(os.path.join(ROOT, 'specs')) if re.match(pid + r'\w*\.spec$', f))
    base = load_baseline().get(pid, {})
    goals = []; inconclusive = []; funcs = []; fnmeta = {}; trusted = set(); dropped = {}; newbase = {}; inlined = set(); vac_bad = []; npre = 0
    if not specs: H.start(); H.join()
    for sf in specs:
        spec = load_spec(os.path.join(ROOT, 'specs', sf))
        w = os.path.join(work, sf); os.makedirs(w)
        P = Prog()
        ok = True
        for f, js, err in dump(spec.files, w):
            if js is None: inconclusive.append(('extraction of ' + f, err[-300:])); ok = False; continue
            P.load(js)
        if not ok and not P.fns: continue
        W = World2(P, spec, {k: v['locals'] for k, v in base.get(sf, {}).get('fns', {}).items()})
        W.heaps['nextptr'] = 'int'
        try:
            dev.apply_needs(W, spec); W.translate_all()
        except (Unsupported, KeyError, AttributeError, TypeError, IndexError, SystemExit) as e:
            inconclusive.append((sf, 'extraction: %r' % e)); continue
        for c, why in W.unbound: inconclusive.append((c.q, why))
        nb = {'fns': {}, 'pre': None}
        pre = W.pre(); open(w + '/pre.mlw', 'w').write(pre); nb['pre'] = h(pre)
        units = [('pre', 'Pre', None)]
        for k, c in W.bykey.items():
            nm = W.names[k]
            if c.trusted or k not in P.fns: trusted.add(c.q + ' ' + (c.sig or '')); continue
            if W.bodies.get(k) is None: inconclusive.append((nm, 'extraction: ' + W.errors.get(k, '?'))); continue
            txt = W.fnfile(k); open('%s/f_%s.mlw' % (w, nm), 'w').write(txt)
            hd = W.header(k, 'let')
            open('%s/v_%s.mlw' % (w, nm), 'w').write(vacuity(W, k))
            nb['fns'][k] = {'locals': local_names(P.fns[k]), 'shape': shape(W.tr[k]), 'hash': h(txt), 'name': nm}
            units.append(('f_' + nm, 'M', k))
            if 'novac' not in c.flags: units.append(('v_' + nm, 'V', k))
        newbase[sf] = nb
        def gen(u): return u, prove.why3_goals(w, '%s/%s.mlw' % (w, u[0]), u[1], '%s/o_%s' % (w, u[0]), drivers=('z3_487',) if u[1] == 'V' else ('z3_487', 'cvc5', 'z3nl'))
        with cf.ThreadPoolExecutor(4) as ex: rs = list(ex.map(gen, units))
        for u, (g, err) in rs:
            if g is None:
                nm = u[0]
                inconclusive.append((nm, 'Why3: ' + '\n'.join(x for x in err.split('\n') if not x.startswith('Warning'))[-400:]))
                nb['fns'].pop(u[2], None) if u[2] else None
                continue
            for x in g: x.key = u[2]; x.spec = sf; x.kind = u[1]; x.fn = u[0]; x.changed = True; x.pre = u[0] == 'pre'
            b = base.get(sf, {})
            for x in g:
                if u[2] is None: x.changed = nb['pre'] != b.get('pre'); x.reshaped = False
                else:
                    bf = b.get('fns', {}).get(u[2])
                    x.changed = bf is None or bf['hash'] != nb['fns'][u[2]]['hash'] or nb['pre'] != b.get('pre')
                    x.hint = (bf or {}).get('hint', {}).get(x.id) if not x.changed else None
                    x.reshaped = bf is None or bf['shape'] != nb['fns'][u[2]]['shape']
            goals += g
            if u[1] == 'M':
                funcs.append(W.names[u[2]]); fnmeta[W.names[u[2]]] = (u[2], sf)
        for k, v in W.inlined.items(): inlined.add(k)
        for k, v in W.dropped.items(): dropped[k] = dropped.get(k, 0) + v
    real = [g for g in goals if g.kind != 'V']; vac = [g for g in goals if g.kind == 'V']
    if specs: H.start()
    tl = 3
    deadline = t0 + (540 if tier == 'quick' else 1500)
    prove.Pool(8).run(vac, 1, [('z3-5.3', 1)])
    vac_bad = [g for g in vac if g.status == 'valid']
    prove.Pool(8).run(real, tl, prove.PORTFOLIO, deadline=deadline)
    rest = [g for g in real if g.status != 'valid']
    if specs: H.join()
    if rest and len(rest) <= 60 and not H.fails:
        for m in ((10, 30) if tier == 'quick' else (20, 60, 120)):
            rest = [g for g in rest if g.status != 'valid']
            prove.Pool(8).spread(rest, m, prove.ROUND2, deadline=min(deadline, time.time() + (150 if tier == 'quick' else 900)))
    failed = [g for g in real if g.status != 'valid']
    if record:
        for g in real:
            if g.status == 'valid' and g.solver != 'z3-5.3' and g.key is not None: newbase[g.spec]['fns'][g.key].setdefault('hint', {})[g.id] = g.solver
        B = load_baseline(); B[pid] = newbase
        json.dump(B, open(os.path.join(ROOT, 'specs', 'baseline.json'), 'w'), indent=0, sort_keys=True)
    # verdict
    viol = []      # (text, replay-lines, has_input)
    realfails = []; knownhits = {}
    for f in H.fails:
        for k, d in known.items():
            if k in f.replace(' ', '_'): knownhits[k] = d; break
        else: realfails.append(f)
    bounded_fns = [n for n, why in inconclusive]
    failed_v = []; undecided = []
    for g in failed:
        if not g.changed: undecided.append((g, 'resource limit on an obligation of unchanged source'))
        elif g.reshaped: undecided.append((g, 'loop structure changed: the annotations do not fit; bounded stand-in decides'))
        elif g.pre: undecided.append((g, 'lemma'))
        elif any(s == 'extracted-type' for s in ()): pass
        else: failed_v.append(g)
    knownobl = [k for k in known if k.startswith('obligation:')]
    def goaltext(g):
        txt = open(list(g.files.values())[0]).read(); i = txt.rfind(';; Goal'); return ' '.join(txt[i:].split('\n')[2:]).split('(check-sat)')[0][:1500]
    nviol = 0
    rp = os.path.join(EVD, 'replay_%s.txt' % pid)
    os.makedirs(EVD, exist_ok=True)
    if os.path.exists(rp): os.remove(rp)
    if realfails or failed_v:
        with open(rp, 'w') as f:
            f.write('property %s  tier %s  seed %d\n' % (pid, tier, seed))
            for x in failed_v[:40]:
                f.write('FAILED OBLIGATION %s %s (function %s, key %s)\n  goal: %s\n  solvers: %s\n' % (x.id, x.name, x.fn, x.key, goaltext(x), x.tried))
            for x in realfails[:40]: f.write('FAILING INPUT (real code, harness/%s.cc): %s\n' % (pid, x))
            f.write('re-run: VERIF_SEED=%d python3 /verif/check.py %s %s\n' % (seed, pid, tier))
        nviol = len(realfails) + len(failed_v)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    byb = {}
    for g in real:
        if g.status == 'valid': byb[g.solver] = byb.get(g.solver, 0) + 1
    cov = {}
    if specs:
        ev['level'] = 'proof'
        cov.update({'obligations': len(real), 'discharged': len(real) - len(failed), 'checker_cmd': 'python3 check.py %s %s' % (pid, tier),
          'functions_under_contract': sorted(funcs), 'helpers_inlined_from_source': sorted(inlined), 'discharged_by': byb,
          'solver_time_s': round(sum(g.time for g in real), 1), 'vacuity_guards': len(vac), 'vacuity_guards_failed': [g.fn for g in vac_bad],
          'undecided_obligations': ['%s %s: %s' % (g.fn, g.id, why) for g, why in undecided][:50],
          'bounded_stand_in': ['%s: %s' % (a, b[:200]) for a, b in inconclusive],
          'dropped_by_extraction': dropped, 'assumed_contracts': sorted(trusted), 'trusted_base': trusted_base(trusted)})
    else: ev['level'] = 'exploration'
    cov.update({'evaluations': H.cases, 'distinct_nontrivial': H.nontrivial, 'rule': H.rule or 'random inputs', 'samples': H.samples[:6] or ['none'], 'harness_parts': H.parts,
                'harness': ('ran, %.0fs' % H.wall) if H.ran else H.note})
    ev['coverage'] = cov
    ev['assumptions'] = ASSUME
    json.dump(ev, open(os.path.join(EVD, pid + '.json'), 'w'), indent=1)
    for k, d in knownhits.items(): print('KNOWN-FINDING: property=%s %s' % (pid, d))
    print('%s %s: %d functions under contract, %d/%d obligations discharged, %d undecided, %d bounded, harness %s cases=%d fails=%d, %.0fs' % (pid, tier, len(funcs), len(real) - len(failed), len(real), len(undecided), len(inconclusive), 'ok' if H.ran else 'not run', H.cases, len(realfails), time.time() - t0))
    for n, why in inconclusive: print('  bounded: %s: %s' % (n, why.strip()[-260:]))
    for g, why in undecided[:10]: print('  undecided: %s %s: %s' % (g.fn, g.id, why))
    for g in vac_bad: print('  VACUOUS: %s' % g.fn)
    if not H.ran: print('  harness: %s' % H.note)
    for x in failed_v[:10]: print('  failed obligation: %s %s :: %s' % (x.fn, x.id, goaltext(x)[:300]))
    for x in realfails[:5]: print('  failing input: %s' % x[:400])
    if realfails: print('VIOLATION property=%s replay=%s' % (pid, rp)); return 1
    if failed_v: print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp)); return 1
    return 0

def vacuity(W, k):
    hd = W.header(k, 'let')
    # keep only the preconditions
    body = []
    lines = hd.split('\n')
    head = lines[0]
    reqs = clauses(hd, 'requires')
    head = re.sub(r'^let (rec )?\w+', 'let vacuity_guard', head)
    head = head[:head.rindex(' : ')] + ' : unit'
    hreads = W.eff[k].reads
    return 'module V\nuse pre.Pre\n%s\n%s\n= assert { false }\nend\n' % (head, '\n'.join(reqs))
def clauses(txt, kw):
    out = []
    for m in re.finditer(r'\b%s\s*\{' % kw, txt):
        i = m.end(); d = 1
        while d: d += {'{': 1, '}': -1}.get(txt[i], 0); i += 1
        out.append(txt[m.start():i])
    return out
def trusted_base(tr):
    n = len(re.findall(r'^\s*axiom ', open(os.path.join(ROOT, 'why', 'cxx.mlw')).read(), re.M))
    m = len(re.findall(r'^\s*val ', open(os.path.join(ROOT, 'why', 'cxx.mlw')).read(), re.M))
    return ['extraction from the typed clang AST to WhyML (extract/cxxdump.cpp, lib/base.py, lib/fntr.py, lib/stdlib_tr.py)',
            'semantics of the C++ built-ins and standard library in why/cxx.mlw (%d axioms, %d declarations)' % (n, m),
            'Why3 1.6.0 obligation generator; z3 5.3.2, z3 4.8.12, cvc5 1.1.2'] + ['assumed contract: ' + t for t in sorted(tr)]
ASSUME = ['machine integers are mathematical integers (signed overflow not modelled; unsigned subtraction must not wrap is an obligation)',
          'double is the mathematical reals (rounding, NaN and infinities not modelled)',
          'reference arguments of one call do not alias', 'single thread; exceptions keep only the fact that they were thrown',
          'memory allocation succeeds']
if __name__ == '__main__': main()
