"""Why3 VC generation (one SMT-LIB file per obligation) and a parallel solver portfolio."""
import os, re, subprocess, time, sys, hashlib, json, threading, queue, concurrent.futures as cf, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from prune import prune
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SOLVERS = {
  'z3-5.3':  ('z3_487', lambda t, f: ['z3-new', '-T:%d' % t, '-memory:3000', f]),
  'cvc5-1.1': ('cvc5', lambda t, f: ['cvc5', '--tlimit=%d' % (t * 1000), '--lang=smt2', f]),
  'z3-4.8':  ('z3_487', lambda t, f: ['z3', '-T:%d' % t, '-memory:3000', f]),
  'z3-5.3-nl': ('z3nl', lambda t, f: ['z3-new', '-T:%d' % t, '-memory:3000', f]),
  'cvc5-1.1-nl': ('z3nl', lambda t, f: ['cvc5', '--tlimit=%d' % (t * 1000), '--lang=smt2', '-q', f]),
  'z3-5.3-nombqi': ('z3_487', lambda t, f: ['z3-new', '-T:%d' % t, '-memory:3000', 'smt.mbqi=false', 'smt.auto_config=false', f]),
}
class Goal:
    def __init__(self, unit, name, line, files): self.unit = unit; self.name = name; self.line = line; self.files = files; self.status = None; self.solver = None; self.time = 0.0; self.what = ''; self.tried = []; self.srcfile = ''

def why3_goals(work, mlw, theory, outdir, transf=('split_vc',), drivers=('z3_487', 'cvc5', 'z3nl')):
    os.makedirs(outdir, exist_ok=True)
    res = {}; err = ''
    def one(d):
        od = os.path.join(outdir, d); os.makedirs(od, exist_ok=True)
        cmd = ['why3', 'prove', '-C', os.path.join(VERIF, 'why', 'why3.conf'), '-L', os.path.join(VERIF, 'why'), '-L', work]
        for t in transf: cmd += ['-a', t]
        cmd += ['-M', 'select_lskept=all', '-D', d if d != 'z3nl' else os.path.join(VERIF, 'why', 'z3nl.drv'), '-o', od, mlw, '-T', theory]
        p = subprocess.run(cmd, capture_output=True, text=True, cwd=work, timeout=600)
        return d, od, p
    with cf.ThreadPoolExecutor(3) as ex: rs = list(ex.map(one, drivers))
    for d, od, p in rs:
        if p.returncode != 0: return None, (p.stderr + p.stdout)
        for f in os.listdir(od): res.setdefault(f, {})[d] = os.path.join(od, f)
    goals = []
    for f in sorted(res, key=lambda x: [int(t) if t.isdigit() else t for t in re.split(r'(\d+)', x)]):
        fs = res[f]
        txt = open(list(fs.values())[0]).read()
        m = re.findall(r';; Goal "([^"]*)"\n;; File "([^"]*)", line (\d+)', txt)
        nm, fl, ln = m[-1] if m else (f, '?', '0')
        g = Goal(os.path.basename(mlw), nm, int(ln), fs); g.srcfile = fl; g.id = f
        goals.append(g)
    return goals, ''

class Pool:
    def __init__(self, n=8): self.n = n
    def attempt(self, g, s, t):
        drv, mk = SOLVERS[s.rstrip('+')]
        if drv not in g.files: return
        full = s.endswith('+')
        f = g.files[drv]
        if not full:
            f = f[:-5] + '.pr.smt2'
            if not os.path.exists(f):
                try: open(f, 'w').write(prune(open(g.files[drv]).read())[0])
                except Exception: f = g.files[drv]
        t0 = time.time()
        try:
            p = subprocess.run(mk(t, f), capture_output=True, text=True, timeout=t + 10)
            out = p.stdout.strip().split('\n')[0] if p.stdout.strip() else (p.stderr.strip()[:80] or 'none')
        except subprocess.TimeoutExpired: out = 'timeout'
        dt = time.time() - t0
        g.time += dt; g.tried.append((s, out[:60], round(dt, 2)))
        if out == 'unsat': g.status = 'valid'; g.solver = s
    def run(self, goals, tlim, order, deadline=None, stop=None):
        """each goal: try the solvers in order (quick slice first), in parallel over goals"""
        def work(g):
            hint = getattr(g, 'hint', None)
            if hint: self.attempt(g, hint, max(4, int(2 * tlim)))
            for s, t in order:
                if deadline and time.time() > deadline: break
                if g.status == 'valid': return
                if stop is not None and stop.is_set(): break
                self.attempt(g, s, max(1, int(t * tlim)))
            if g.status != 'valid': g.status = 'unproved'
        with cf.ThreadPoolExecutor(self.n) as ex: list(ex.map(work, goals))
    def spread(self, goals, tlim, order, deadline=None):
        """few goals: one job per goal and solver"""
        jobs = [(g, s) for s, _ in order for g in goals]
        def work(j):
            g, s = j
            if g.status == 'valid' or (deadline and time.time() > deadline): return
            self.attempt(g, s, tlim)
        with cf.ThreadPoolExecutor(self.n) as ex: list(ex.map(work, jobs))

PORTFOLIO = [('z3-5.3', .5), ('cvc5-1.1', .5), ('z3-5.3-nl', .5), ('cvc5-1.1-nl', .5), ('z3-5.3', 1), ('cvc5-1.1', 1), ('z3-5.3-nl', 1), ('z3-5.3-nombqi', 1), ('z3-4.8', 1), ('z3-5.3+', 1), ('cvc5-1.1+', 1)]
ROUND2 = [('z3-5.3', 1), ('cvc5-1.1', 1), ('cvc5-1.1-nl', 1), ('z3-5.3-nl', 1), ('z3-5.3-nombqi', 1), ('z3-4.8', 1), ('cvc5-1.1+', 1)]
