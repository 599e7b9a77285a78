#!/usr/bin/env python3
"""bug.py ID...: confirm seeded bugs in a scratch copy of /repo and run the property's check on them.
 bug.py --new ID PROPERTY 'needs' 'breaks' : make seeded/ID/{patch.diff,meta.json} from the edits in /tmp/mk (a copy of /repo)"""
import sys, os, subprocess, json, shutil, re, concurrent.futures as cf, tempfile, time
V = '/verif'
def sh(c, cwd=None, env=None, t=900):
    p = subprocess.run(c, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=t, errors='replace'); return p.returncode, p.stdout + p.stderr
def tests(d):
    rc, o = sh('make -j8 2>&1', d)
    if rc: return None, o[-1500:]
    sh('rm -f /tmp/test-compoundsplit.arpa /tmp/test-compoundsplit2.arpa /tmp/test-hyper-graph-lm.arpa')
    rc, o = sh('timeout 120 ./test-travatar --log_level=test_suite 2>&1', d + '/src/test')
    return set(re.findall(r'error: in "([^"]+)"', o)) | set(re.findall(r'in "([^"]+)": fatal', o)) | ({'exit %d' % rc} if rc not in (0, 201) else set()), o
def one(b, check=True):
    bd = '%s/seeded/%s' % (V, b); m = json.load(open(bd + '/meta.json'))
    d = tempfile.mkdtemp(prefix='bug_%s_' % b, dir='/tmp'); w = d + '/repo'
    r = {'id': b, 'property': m['property']}
    try:
        sh('cp -a /repo %s' % w)
        rc, o = sh('git apply --check %s/patch.diff' % bd, w)
        if rc: r['err'] = 'apply: ' + o; return r
        dd = d + '/demo'; sh('mkdir %s; cp %s/* %s; rm -f %s/*.diff %s/meta.json' % (dd, bd, dd, dd, dd))
        sh('make -j8', w)
        rc, o = sh('bash %s/demo.sh' % dd, w)
        r['demo_clean'] = rc
        if rc: r['clean_out'] = o[-600:]
        base, o = tests(w)
        sh('git apply %s/patch.diff' % bd, w)
        t, o = tests(w)
        if t is None: r['err'] = 'build: ' + o; return r
        r['newfail'] = sorted(t - base)
        rc, o = sh('bash %s/demo.sh' % dd, w)
        r['demo_patched'] = rc
        if check:
            rc, o = sh('python3 %s/check.py %s quick' % (V, m['property']), V, dict(os.environ, VERIF_REPO=w, VERIF_NOEV='1'))
            r['check'] = rc; r['out'] = o[-1500:]
    finally: shutil.rmtree(d, ignore_errors=True)
    r['ok'] = r.get('demo_clean') == 0 and r.get('demo_patched') not in (0, None) and not r.get('newfail')
    return r
if sys.argv[1] == '--new':
    b, p, needs, br = sys.argv[2:6]
    bd = '%s/seeded/%s' % (V, b); os.makedirs(bd, exist_ok=True)
    open(bd + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', '/tmp/mk', 'diff'], text=True))
    json.dump({'property': p, 'needs': needs, 'what_it_breaks': br}, open(bd + '/meta.json', 'w'), indent=1)
    subprocess.run('git checkout -q -- .', shell=True, cwd='/tmp/mk')
else:
    for b in sys.argv[1:]:
        r = one(b); print(b, 'OK' if r.get('ok') else 'NOT-COUNTING', 'CAUGHT' if r.get('check') == 1 else 'MISSED', {k: v for k, v in r.items() if k not in ('out', 'id')}); print('   ' + '\n   '.join(r.get('out', '').strip().split('\n')[-6:])); sys.stdout.flush()
