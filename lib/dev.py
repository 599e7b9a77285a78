"""development driver: dev.py SPEC [name-regex] [-t N]"""
import sys, os, re, time, tempfile, shutil, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vgen import *
import prove
def main():
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument('spec'); ap.add_argument('pat', nargs='?', default='.'); ap.add_argument('-t', type=int, default=5); ap.add_argument('--show', action='store_true'); ap.add_argument('--nopre', action='store_true'); ap.add_argument('--keep', default='/tmp/dev')
    a = ap.parse_args()
    spec = load_spec(os.path.join(VERIF, 'specs', a.spec + '.spec'))
    work = os.path.join(a.keep, a.spec); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    t0 = time.time()
    P = Prog()
    for f, js, err in dump(spec.files, work):
        if js is None: print('DUMP FAIL', f, err); continue
        if 'error:' in err: print('dump errors', f, err[:500])
        P.load(js)
    W = World2(P, spec); 
    W.heaps['nextptr'] = 'int'
    apply_needs(W, spec)
    W.translate_all()
    for c, why in W.unbound: print('UNBOUND', why)
    for k, e in W.errors.items(): print('NOT EXTRACTED', W.names[k], ':', e)
    open(work + '/pre.mlw', 'w').write(W.pre())
    print('extract %.1fs; inlined: %s' % (time.time() - t0, dict(W.inlined)))
    units = [] if a.nopre else [('pre', 'Pre')]
    for k, c in W.bykey.items():
        if c.trusted or W.bodies.get(k) is None or not re.search(a.pat, W.names[k]): continue
        open('%s/f_%s.mlw' % (work, W.names[k]), 'w').write(W.fnfile(k)); units.append(('f_' + W.names[k], 'M'))
    goals = []
    def gen(u):
        return u, prove.why3_goals(work, '%s/%s.mlw' % (work, u[0]), u[1], '%s/o_%s' % (work, u[0]))
    with cf.ThreadPoolExecutor(4) as ex: rs = list(ex.map(gen, units))
    for u, (g, err) in rs:
        if g is None:
            print('WHY3 ERROR', u[0], '\n'.join(x for x in err.split('\n') if not x.startswith('Warning'))[:1500])
            m = re.search(r'File "[^"]*/?([^"/]*)", line (\d+)', err)
            if m:
                L = open(work + '/' + m.group(1)).read().split('\n') if os.path.isfile(work + '/' + m.group(1)) else []
                n = int(m.group(2)); print('\n'.join('%4d %s' % (i + 1, L[i]) for i in range(max(0, n - 4), min(len(L), n + 3))))
        else: goals += g
    print('gen %.1fs: %d goals' % (time.time() - t0, len(goals)))
    prove.Pool(8).run(goals, a.t, prove.PORTFOLIO)
    bad = [g for g in goals if g.status != 'valid']
    for g in bad:
        L = open('%s/%s' % (work, g.unit)).read().split('\n') if g.srcfile.endswith(g.unit) else ['?'] * 100000
        print('UNPROVED', g.unit, g.id, 'line', g.line, ':', (L[g.line - 1].strip() if g.line <= len(L) else g.srcfile)[:200])
        if a.show:
            txt = open(list(g.files.values())[0]).read(); i = txt.rfind(';; Goal')
            print('     ', ' '.join(txt[i:].split('\n')[2:])[:1200])
    for u in units:
        gs = [g for g in goals if g.unit == u[0] + '.mlw']
        print('%-40s %d/%d  max %.1fs' % (u[0], sum(g.status == 'valid' for g in gs), len(gs), max([g.time for g in gs] or [0])))
    print('total %.1fs' % (time.time() - t0))
def apply_needs(W, spec):
    for kind, rest in getattr(spec, 'needs', []):
        if kind == 'type': W.rectype(rest)
        elif kind == 'heap':
            c, f = rest.rsplit('::', 1); W.heap(c, f)
        elif kind == 'global':
            g = W.P.globals[rest]; W.glob(rest, g['type'])
if __name__ == '__main__': main()
