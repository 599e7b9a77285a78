"""From a spec unit and /repo's current sources to WhyML files, one per contract function."""
import os, sys, re, json, subprocess, hashlib, concurrent.futures as cf, shutil, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from base import *
from specfile import load_spec
from fntr import FnTr

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

def build_dumper():
    exe = os.path.join(BUILD, 'cxxdump'); src = os.path.join(VERIF, 'extract', 'cxxdump.cpp')
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src): return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + '.%d' % os.getpid()
    subprocess.check_call(['g++', '-O1', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
                           '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '/usr/lib/llvm-18/lib/libLLVM-18.so'])
    os.replace(tmp, exe)
    return exe

INC = ['src/include', 'src/kenlm', 'src/tercpp', 'src/marisa', 'src/liblbfgs', '', 'src']
def cflags():
    return ['-I' + os.path.join(REPO, i) for i in INC] + ['-DKENLM_MAX_ORDER=6', '-include', 'map']

def dump(files, work):
    exe = build_dumper()
    def one(f):
        src = os.path.join(REPO, f) if not f.startswith('/') else f
        if f.startswith('VERIF/'): src = os.path.join(VERIF, f[6:])
        out = os.path.join(work, re.sub(r'\W', '_', f) + '.json')
        p = subprocess.run([exe, out, REPO + '/src,' + VERIF + '/extract', src, '--', '-std=c++11', '-x', 'c++', '-I' + os.path.join(VERIF, 'extract/shim'), '-w',
                            '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-ferror-limit=5'] + cflags(), capture_output=True, text=True)
        if p.returncode != 0 or not os.path.exists(out):
            return f, None, p.stderr[-2000:]
        js = json.load(open(out)); os.remove(out)
        return f, js, p.stderr
    with cf.ThreadPoolExecutor(8) as ex: return list(ex.map(one, files))

def shortsig(s):
    """signature without default template arguments and blanks"""
    out = ''; i = 0
    for pat in ('std::allocator<', 'boost::hash<', 'std::hash<', 'std::equal_to<', 'std::less<', 'std::char_traits<'):
        while True:
            i = s.find(pat)
            if i < 0: break
            j = i + len(pat); d = 1
            while d: d += {'<': 1, '>': -1}.get(s[j], 0); j += 1
            b = i
            while b > 0 and s[b - 1] in ' ,': b -= 1
            s = s[:b] + s[j:]
    s = s.replace('std::basic_string<char>', 'string').replace('boost::unordered::unordered_map', 'umap').replace('boost::shared_ptr', 'shared_ptr').replace('travatar::', '').replace('std::', '')
    return s.replace(' ', '')
class World2(World):
    def __init__(self, prog, spec, baseline=None):
        World.__init__(self, prog, spec)
        self.callees = {}
        self.bykey = {}; self.names = {}
        self.unbound = []
        self.baseline = baseline or {}
        self.bodies = {}; self.errors = {}; self.tr = {}
        self._dev = {}
        for c in spec.contracts:
            ks = prog.byq.get(c.q, [])
            if c.sig is not None:
                want = c.sig.replace(' ', '')
                ks = [k for k in ks if want in shortsig(k.split('|', 1)[1])]
            ex = [k for k in self.externs(c) if k not in ks] if not ks else []
            if len(ks) != 1 and not ex:
                self.unbound.append((c, 'function %s %s: %d definitions found' % (c.q, c.sig or '', len(ks)))); continue
            for k in (ks or ex):
                self.bykey[k] = c; self.names[k] = c.name or lname_fn(c.q)
                c.key = k
        seen = {}
        for k, n in list(self.names.items()):
            if n in seen and self.bykey[seen[n]] is not self.bykey[k]: raise SystemExit('duplicate contract name %s: use "as"' % n)
            seen[n] = k
    def externs(self, c):
        """calls in the program to functions without a body in the extracted units"""
        if not hasattr(self, '_ext'):
            self._ext = {}
            for f in self.P.fns.values():
                for x in scan(f, lambda n: n.get('k') in ('call', 'mcall', 'opcall', 'ctor') and n.get('fn'), []):
                    k = fkey(x['fn'])
                    if k not in self.P.fns: self._ext[k] = x
        r = [k for k, x in self._ext.items() if x['fn']['q'] == c.q and (c.sig is None or c.sig.replace(' ', '') in shortsig(k.split('|', 1)[1]))]
        return r
    def extern(self, fn):
        k = fkey(fn)
        x = self._ext[k] if hasattr(self, '_ext') and k in self._ext else None
        r = dict(fn); r['params'] = [{'name': 'a%d' % i, 'type': t, 'id': -1} for i, t in enumerate(fn['pt'])]
        r['ret'] = x['t'] if x else {'k': 'b', 'n': 'void'}; r['kind'] = 'method' if fn.get('cls') else 'func'; r['body'] = None
        return r
    def fnof(self, key):
        if key in self.P.fns: return self.P.fns[key]
        return self.extern(self._ext[key]['fn'])
    def contract_for(self, key): return self.bykey.get(key)
    def fname(self, key): return self.names[key]
    @property
    def fnnames(self): return set(self.names.values())
    def devirt(self, key):
        """a virtual method that no class of the extracted program overrides"""
        q = self.P.fns[key]; m = q['q'].split('::')[-1]; cls = q['cls']
        if key in self._dev: return self._dev[key]
        def derived(n, seen=()):
            r = self.P.recs.get(n)
            if not r: return False
            for b in r['bases']:
                bn = rn(b)
                if bn == cls or (bn and derived(bn)): return True
            return False
        res = True
        for k, f in self.P.fns.items():
            if f.get('cls') and f['cls'] != cls and f['q'].split('::')[-1] == m and derived(f['cls']): res = False
        self._dev[key] = res
        return res
    def effects(self, key):
        return self.eff.get(key) or Eff()
    def rename_for(self, key):
        b = self.baseline.get(key)
        if not b: return {}
        f = self.P.fns.get(key)
        if not f: return {}
        cur = local_names(f)
        bn = [n for n, t in b]; cn = [n for n, t in cur]
        miss = [(n, t) for n, t in b if n not in cn]; new = [(n, t) for n, t in cur if n not in bn]
        r = {}
        for n, t in miss:
            for i, (m, u) in enumerate(new):
                if u == t: r[n] = m; del new[i]; break
        # parameters positionally
        return r
    def signature(self, key): return None

    def translate_all(self):
        keys = [k for k, c in self.bykey.items()]
        self.hstack = []; self.wpos = {}
        for k in keys:
            c = self.bykey[k]; e = Eff()
            if c.trusted or k not in self.P.fns:
                for h in (c.reads or []): e.reads[h] = None
                for h in (c.writes or []): e.writes[h] = None; e.reads[h] = None
                if 'raises' in c.clauses or 'throws' in c.flags: e.throws = True
            self.eff[k] = e
        for it in range(6):
            changed = False
            for k in keys:
                c = self.bykey[k]
                if c.trusted or k not in self.P.fns: continue
                self.callees[k] = set(); self.inlined_cur = {}
                t = FnTr(self, k, c, self.rename_for(k))
                try:
                    body = t.translate(); self.errors.pop(k, None)
                except Unsupported as ex:
                    body = None; self.errors[k] = str(ex)
                except (KeyError, AttributeError, TypeError, IndexError) as ex:
                    import traceback
                    body = None; self.errors[k] = 'internal: %r %s' % (ex, traceback.format_exc()[-400:] if os.environ.get('VERIF_DEBUG') else '')
                self.bodies[k] = body; self.tr[k] = t
                old = self.eff[k]
                if set(old.reads) != set(t.eff.reads) or set(old.writes) != set(t.eff.writes) or old.throws != t.eff.throws: changed = True
                e = t.eff.copy()
                self.eff[k] = e
            if not changed: break
        for k in keys:
            e = self.eff[k]
            for h in list(e.reads):
                if h not in self.heaps and h != 'nextptr': raise SystemExit('effect on unknown heap %s in %s' % (h, k))

    def passes_written(self, key, m, body):
        """does the call in which '&x' (match m) is an argument write that parameter?"""
        ls = body.rfind('\n', 0, m.start()) + 1; line = body[ls:m.start()]
        best = None
        for k, n in self.names.items():
            for q in re.finditer(r'(?<![\w&.])%s (?!=|:|<-)' % re.escape(n), line):
                if best is None or q.end() > best[0]: best = (q.end(), k)
        if best is None: return True
        rest = line[best[0]:]; pos = 0; d = 0; atom = False
        for ch in rest:
            if ch in '([': d += 1; atom = True
            elif ch in ')]':
                d -= 1
                if d < 0: return True
            elif ch == ' ' and d == 0:
                if atom: pos += 1
                atom = False
            else: atom = True
        if d: return True
        if best[1] == key:   # a recursive call passing its own parameter on is no evidence by itself; passing another one is taken as a write
            f = self.fnof(key); off = 1 if f.get('cls') and not f.get('static') and f.get('kind') != 'ctor' else 0
            own = ['this'] * off + [sane(p['name'] or 'unnamed%d' % i) for i, p in enumerate(f['params'])]
            return not (pos < len(own) and own[pos] == m.group(0)[1:])
        if best[1] in self.hstack: return True
        self.hstack.append(best[1])
        try: w = self.writtenpos(best[1])
        finally: self.hstack.pop()
        return w is None or pos in w
    def writtenpos(self, key):
        if key not in self.wpos:
            h = self.header(key, 'val')
            first = h.split('\n')[0]; ps = re.findall(r'\((ref )?([\w]+):', first)
            wl = re.search(r'(?m)^writes \{(.*)\}$', h); w = [x.strip() for x in wl.group(1).split(',')] if wl else []
            self.wpos[key] = set(i for i, (r, n) in enumerate(ps) if r and n in w)
        return self.wpos[key]
    def header(self, key, kind):
        """kind: 'val' | 'let'"""
        f = self.fnof(key); c = self.bykey[key]; t = self.tr.get(key)
        ps = []; written = []
        body = self.bodies.get(key)
        def iswritten(n):
            if body is None: return True
            if re.search(r'(?<![\w])%s <- ' % n, body): return True
            return any(self.passes_written(key, m, body) for m in re.finditer(r'&%s\b' % n, body))
        env = {}; nonnull = []
        if f.get('cls') and f['cls'] in self.heapcls and not f.get('static'): nonnull.append('this')
        if f.get('cls') and not f.get('static') and f.get('kind') != 'ctor':
            if f['cls'] in self.heapcls: ps.append('(this: int)')
            else:
                ty = self.ty({'k': 'rec', 'n': f['cls']})
                if f.get('const'): ps.append('(this: %s)' % ty)
                else:
                    ps.append('(ref this: %s)' % ty)
                    if iswritten('this'): written.append('this')
        elif f.get('kind') == 'ctor' and f['cls'] in self.heapcls: ps.append('(this: int)')
        used = set(['this'])
        for i, p in enumerate(f['params']):
            n = sane(p['name'] or 'unnamed%d' % i); b = n; j = 2
            while n in used or n in self.heaps: n = '%s_s%d' % (b, j); j += 1
            used.add(n); env[p['name']] = n
            pt = p['type']; ty = self.ty(pt)
            if rn(pt) in self.heapcls and pt['k'] in ('ref', 'rref', 'rec'): nonnull.append(n)
            if rn(pt) in self.heapcls or const_param(pt): ps.append('(%s: %s)' % (n, ty))
            else:
                ps.append('(ref %s: %s)' % (n, ty))
                if iswritten(n): written.append(n)
        if not ps: ps = ['()']
        if f.get('kind') == 'ctor' and f['cls'] not in self.heapcls: ret = self.ty({'k': 'rec', 'n': f['cls']})
        elif f.get('kind') == 'ctor': ret = 'unit'
        else: ret = self.ty(f['ret'])
        for a, b in self.rename_for(key).items():
            if b in env and a not in env: env[a] = env[b]
        cl = IDRE_sub(c.clauses, env)
        e = self.eff[key]
        raises = None
        m = re.search(r'\braises\s*\{', cl)
        if m:
            i = m.end(); d = 1
            while d: d += {'{': 1, '}': -1}.get(cl[i], 0); i += 1
            raises = cl[m.start():i]; cl = cl[:m.start()] + cl[i:]
        out = ['%s %s %s : %s' % ({'val': 'val', 'let': 'let'}[kind] + (' rec' if kind == 'let' and key in self.callees.get(key, ()) else ''), self.names[key], ' '.join(ps), ret)]
        if kind == 'val': cl = re.sub(r'(?m)^\s*variant\s*\{[^}]*\}\s*$', '', cl)
        if 'rec' not in out[0].split()[:2]: cl = re.sub(r'(?m)^\s*variant\s*\{[^}]*\}\s*$', '', cl)
        out.append(cl.rstrip())
        r = sorted(set(e.reads) | set()); w = sorted(set(e.writes)) + written
        if r or w:
            out.append('reads { %s }' % ', '.join(sorted(set(r + written))) if False else ('reads { %s }' % ', '.join(r) if r else ''))
            out.append('writes { %s }' % ', '.join(w) if w else '')
        np = 'nextptr' in e.writes
        if np or 'nextptr' in e.reads: out.append('requires { [@expl:allocator] nextptr > 0 }')
        if np: out.append('ensures { [@expl:allocator] nextptr >= old nextptr }')
        for n in nonnull: out.append('requires { [@expl:object %s] %s <> 0 }' % (n, n))
        if e.throws: out.append(raises or ('raises { CxxThrow -> nextptr >= old nextptr }' if np else 'raises { CxxThrow -> true }'))
        return '\n'.join(x for x in out if x)
    def pre(self):
        out = ['module Pre', 'use export cxx.Cxx', self.spec.prelude]
        out += list(self.typedecls.values())
        for h, t in self.heaps.items():
            if h != 'nextptr': out.append('val ref %s : %s' % (h, t))
        out.append(self.spec.prelude2); out.append('end')
        return '\n'.join(out) + '\n'
    def fnfile(self, key):
        out = ['module M', 'use pre.Pre']
        for k in sorted(self.callees.get(key, ()), key=str):
            if k == key: continue
            out.append(self.header(k, 'val'))
        out.append(self.header(key, 'let'))
        np = 'nextptr' in self.eff[key].writes
        out.append('= ' + re.sub(r'\(\*NPTR (\d+)\*\)', (lambda m: 'invariant { [@expl:auto alloc] 0 < (nextptr at L%s) <= nextptr }' % m.group(1)) if np else '', self.bodies[key]))
        out.append('end')
        return '\n'.join(out) + '\n'

IDRE2 = re.compile(r"(?<![\w'$.])([A-Za-z_]\w*)(?![\w'])")
def IDRE_sub(text, env):
    return IDRE2.sub(lambda m: env.get(m.group(1), m.group(1)), text)
def lname_fn(q):
    p = q.split('::')
    n = p[-1]
    ops = {'operator+=': 'op_addeq', 'operator-=': 'op_subeq', 'operator*=': 'op_muleq', 'operator/=': 'op_diveq', 'operator+': 'op_add', 'operator-': 'op_sub', 'operator*': 'op_mul',
           'operator==': 'op_eq', 'operator!=': 'op_ne', 'operator<': 'op_lt', 'operator[]': 'op_idx', 'operator()': 'op_call', 'operator<<': 'op_out', 'operator=': 'op_assign'}
    n = ops.get(n, n)
    c = p[-2] if len(p) > 1 and p[-2] != 'travatar' else ''
    r = (lname(c) + '_' if c else '') + re.sub(r'\W', '_', n)
    r = r[0].lower() + r[1:]
    return r if c else 'f_' + r
def tystr(t): 
    t = strip(t)
    if t['k'] == 'rec': return t['n'] + ('<' + ','.join(tystr(a) if isinstance(a, dict) else str(a) for a in t.get('a', [])) + '>' if 'a' in t else '')
    if t['k'] in ('ptr', 'arr'): return t['k'] + ' ' + tystr(t['t'])
    return t.get('n', t['k'])
def local_names(f):
    out = [(p['name'], tystr(p['type'])) for p in f['params']]
    def go(n):
        if isinstance(n, list):
            for x in n: go(x)
        elif isinstance(n, dict):
            if n.get('k') == 'decl': out.extend((v['name'], tystr(v['type'])) for v in n['vars'])
            if n.get('k') == 'forrange': out.append((n['var']['name'], tystr(n['var']['type'])))
            for k, v in n.items():
                if isinstance(v, (dict, list)) and k not in ('t', 'vt', 'type', 'fn'): go(v)
    go(f['body'])
    return out
