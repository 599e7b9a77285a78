"""Translation of one C++ function (typed AST) to WhyML."""
import re, json
from base import *

IDRE = re.compile(r"(?<![\w'$.])([A-Za-z_]\w*)(?![\w'])")

class FnTr:
    def __init__(self, W, key, contract=None, rename=None):
        self.W = W; self.key = key; self.f = W.P.fns[key]; self.K = contract
        self.eff = Eff()
        self.scopes = []          # list of dict id -> binding
        self.names = []           # stack of (cxxname, binding)
        self.used = set()         # why names in use
        self.out = []
        self.nloop = 0
        self.ntmp = 0
        self.rename = rename or {}
        self.this = None
        self.ret = None           # None: native return; else dict
        self.inl = [key]
        self.loopinfo = []        # (ordinal, depth)
        self.depth = 0
        self.iv = None
        self.ghostlabels = 0
        self.inloops = []

    # ------------------------------------------------------------ emission
    def emit(self, s): self.out.append(s)
    def tmp(self, base='t'):
        self.ntmp += 1
        return '_%s%d' % (base, self.ntmp) if False else '%s_%d' % (base, self.ntmp)
    def bind(self, text, base='t'):
        if re.fullmatch(r"[\w']+|\(-?\d+\)|-?\d+(\.\d+)?", text) and not self.is_mut_name(text): return text
        n = self.tmp(base); self.emit('let %s = %s in' % (n, text)); return n
    def is_mut_name(self, text):
        return not re.fullmatch(r'\w+_\d+|\d+|true|false', text)
    def sub(self, fn):
        saved = self.out; self.out = []
        try:
            r = fn(); lines = self.out
        finally:
            self.out = saved
        if not lines: return r
        return '(' + '\n'.join(lines) + '\n' + r + ')'
    def pure_or_none(self, fn):
        """run fn; returns (text, emitted lines)"""
        saved = self.out; self.out = []
        try: r = fn(); lines = self.out
        finally: self.out = saved
        return r, lines

    # ------------------------------------------------------------ scopes
    def push(self): self.scopes.append({}); self.names.append([])
    def pop(self):
        for n, b in self.names.pop():
            if isinstance(b, (Var, IterVar)): self.used.discard(b.why)
        self.scopes.pop()
    def lookup(self, id):
        for s in reversed(self.scopes):
            if id in s: return s[id]
        return None
    def fresh(self, name):
        n = sane(name); b = n; i = 2
        while n in self.used or n in self.W.heaps or n in self.W.fnnames:
            n = '%s_s%d' % (b, i); i += 1
        return n
    def declare(self, id, name, b):
        self.scopes[-1][id] = b; self.names[-1].append((name, b))
        if isinstance(b, (Var, IterVar)): self.used.add(b.why)

    # ------------------------------------------------------------ spec text
    def env(self):
        e = {}
        for lvl in self.names:
            for n, b in lvl:
                if isinstance(b, Var): e[n] = b.why
                elif isinstance(b, IterVar): e[n] = b.why
                elif isinstance(b, Alias):
                    try: e[n] = self.spec_read(b.path)
                    except Unsupported: pass
        return e
    def spec_read(self, path):
        return '(' + self.read(path, spec=True) + ')'
    def spectext(self, text, iv=None, extra=None):
        env = self.env()
        for a, b in self.rename.items():
            if b in env and a not in env: env[a] = env[b]
        if extra: env.update(extra)
        def r(m):
            w = m.group(1)
            return env.get(w, w) if w in env else w
        t = IDRE.sub(r, text)
        if iv: t = t.replace('$i', iv)
        if self.inloops:
            t = re.sub(r'\$L(\d+)', lambda m: 'L%s' % m.group(1), t)
        return t
    def ghost(self, where, iv=None, extra=None):
        if self.K and where in self.K.ghost:
            self.emit(self.spectext(self.K.ghost[where], iv, extra).rstrip().rstrip(';') + ';')

    # ------------------------------------------------------------ heap access
    def hread(self, h):
        self.eff.reads[h] = self.W.heaps[h]
    def hwrite(self, h):
        self.eff.writes[h] = self.W.heaps[h]; self.eff.reads[h] = self.W.heaps[h]

    # ------------------------------------------------------------ paths
    def freeze(self, p):
        q = Path(p.kind, p.a, p.b, ())
        if p.kind in ('heap', 'obj'):
            if p.kind == 'heap' : q = Path('heap', p.a, self.bind(p.b, 'p'))
            else: q = Path('obj', self.bind(p.a, 'p'))
        out = []
        for x in p.proj:
            if x[0] in ('idx', 'ent', 'mval', 'sidx'): out.append((x[0], self.bind(x[1], 'j')) + tuple(x[2:]))
            else: out.append(x)
        return Path(q.kind, q.a, q.b, out)
    def read(self, p, spec=False):
        if p.kind == 'var': base = p.a
        elif p.kind == 'text': base = p.a
        elif p.kind == 'glob': self.hread(p.a); base = p.a
        elif p.kind == 'heap': self.hread(p.a); base = '(hget %s %s)' % (p.a, p.b)
        elif p.kind == 'obj':
            if p.proj: raise Unsupported('projection on heap object')
            return p.a
        else: raise Unsupported('path ' + p.kind)
        for x in p.proj: base = self.rdproj(base, x, spec)
        return base
    def rdproj(self, base, x, spec=False):
        if x[0] == 'idx': return '(%s[%s])' % (base, x[1])
        if x[0] == 'fld': return '(%s_%s %s)' % (x[1], x[2], base)
        if x[0] in ('p1', 'p2'):
            return '(%s %s)' % (x[0], base)
        if x[0] == 'mval': return '(fm_get %s %s)' % (base, x[1])
        if x[0] == 'entk': return '((fm_keys %s)[%s])' % (base, x[1])
        if x[0] == 'ent': return '(fm_ent %s %s)' % (base, x[1])
        if x[0] == 'sidx': return '((fs_keys %s)[%s])' % (base, x[1])
        raise Unsupported('proj ' + x[0])
    def upd(self, base, x, v):
        if x[0] == 'idx': return '(set %s %s %s)' % (base, x[1], v)
        if x[0] == 'fld': return '(%s_set_%s %s %s)' % (x[1], x[2], base, v)
        if x[0] == 'p1': return '(mkp %s (p2 %s))' % (v, base)
        if x[0] == 'p2': return '(mkp (p1 %s) %s)' % (base, v)
        if x[0] == 'mval': return '(fm_put %s %s %s)' % (base, x[1], v)
        raise Unsupported('update of ' + x[0])
    def write(self, p, v):
        if p.kind == 'obj': raise Unsupported('assignment of a whole heap object')
        if p.kind == 'text': raise Unsupported('write to a temporary')
        proj = p.proj
        while proj:
            pre = Path(p.kind, p.a, p.b, proj[:-1])
            v = self.upd(self.read(pre), proj[-1], v)
            proj = proj[:-1]
        if p.kind == 'var': self.emit('%s <- %s;' % (p.a, v))
        elif p.kind == 'glob': self.hwrite(p.a); self.emit('%s <- %s;' % (p.a, v))
        elif p.kind == 'heap': self.hwrite(p.a); self.emit('%s <- hset %s %s %s;' % (p.a, p.a, p.b, v))
    def pair_proj(self, p, which):
        """path of first/second of a pair valued path"""
        if p.proj and p.proj[-1][0] == 'ent':
            m = Path(p.kind, p.a, p.b, p.proj[:-1]); i = p.proj[-1][1]
            if which == 'p1': return m.plus('entk', i)
            k = self.bind(self.read(m.plus('entk', i)), 'k')
            return m.plus('mval', k)
        return p.plus(which)

    def objcls(self, t):
        """class name if t (after refs) is a heap class object type"""
        n = rn(t)
        if n in self.W.heapcls: return n
        return None

    # ------------------------------------------------------------ lvalues
    def lv(self, e):
        e = peel(e)
        k = e['k']
        if k == 'ref':
            b = self.lookup(e['id'])
            if b is None:
                return self.globpath(e)
            if isinstance(b, Var):
                if self.objcls(b.ctype): return Path('obj', b.why)
                return Path('var', b.why)
            if isinstance(b, Alias): return b.path
            if isinstance(b, IterVar): return Path('var', b.why)
        if k == 'this': raise Unsupported('this as lvalue')
        if k == 'mem': return self.memlv(e)
        if k == 'un' and e['op'] == '*':
            s = peel(e['e'])
            if s['k'] == 'this': return self.this
            if s['k'] == 'un' and s['op'] == '&': return self.lv(s['e'])
            pt = pointee(s['t'])
            if pt is not None and self.objcls(pt): return Path('obj', self.ex(s))
            if is_iter(s['t']):
                c, i = self.itex(s); return self.itelem(c, i, s['t'])
            if s['k'] == 'ref':
                b = self.lookup(s['id'])
                if isinstance(b, Alias) and b.cont == 'ptr': return b.path
            return self.vobj(s)
        if k == 'opcall':
            op = e['op']; a = e['args']
            if op == '[]':
                ct = self.W.norm(a[0]['t'])
                if is_ptr(a[0]['t']): raise Unsupported('pointer index')
                p = self.lvv(a[0])
                if is_contbase(ct): return p.plus('idx', self.ex(a[1]))
                if is_map(ct):
                    p = self.freeze(p); key = self.bind(self.ex(a[1]), 'k')
                    m = self.read(p)
                    d = self.W.default(ct['a'][1])
                    self.write(p, '(fm_touch %s %s %s)' % (m, key, d))
                    return p.plus('mval', key)
                return self.call_any(e, want='lv')
            if op == '*':
                r = self.rbeg(a[0])
                if r: return self.itelem(r[0], r[1], None)
                if is_iter(a[0]['t']):
                    c, i = self.itex(a[0]); return self.itelem(c, i, a[0]['t'])
                if is_ptr(a[0]['t']):
                    return self.vobj(a[0])
            if op == '->':
                if is_iter(a[0]['t']):
                    c, i = self.itex(a[0]); return self.itelem(c, i, a[0]['t'])
                pt = pointee(a[0]['t'])
                if pt is not None: return self.vobj(a[0])
            if op in ('=', '+=', '-=', '*=', '/=') and a:
                self.effect(e); return self.lv(a[0])
            if op in ('++', '--') and len(a) == 1 and is_iter(a[0]['t']):
                self.effect(e); return self.lv(a[0])
            return self.call_any(e, want='lv')
        if k == 'mcall':
            p = self.std_mlv(e)
            if p is not None: return p
            return self.call_any(e, want='lv')
        if k == 'call':
            q = e['fn'] and e['fn']['q']
            if q in ('std::get',): raise Unsupported('std::get')
            if q in ('std::max', 'std::min', 'std::move', 'std::forward') :
                if q in ('std::move', 'std::forward'): return self.lv(e['args'][0])
                return Path('text', self.bind(self.ex(e)))
            if q in ('travatar::SafeAccess', 'travatar::SafeReference') or (q or '').endswith('::SafeAccess'):
                return self.safeaccess(e)
            return self.call_any(e, want='lv')
        if k == 'sub':
            return self.lvv(e['a']).plus('idx', self.ex(e['b']))
        if k in ('bin', 'cassign') and (k == 'cassign' or e['op'] == '='):
            self.effect(e); return self.lv(e['a'])
        if k == 'un' and e['op'] in ('++', '--'):
            self.effect(e); return self.lv(e['e'])
        if k == 'cond':
            raise Unsupported('conditional lvalue')
        if k == 'cast' and e['ck'] in ('ArrayToPointerDecay',): return self.lv(e['e'])
        raise Unsupported('lvalue ' + k + ' ' + str(e.get('n', '')) + str(e.get('op', '')) + str(e.get('ck', '')))
    def safeaccess(self, e):
        a = e['args']
        if is_ptr(a[0]['t']) and len(a) == 1:
            return Path('obj', self.ex(a[0]))
        return self.lvv(a[0]).plus('idx', self.ex(a[1]))
    def vobj(self, e):
        """object a pointer expression points to"""
        pt = pointee(e['t'])
        if pt is None: raise Unsupported('deref')
        if self.objcls(pt): return Path('obj', self.ex(e))
        e = peel(e)
        if e['k'] == 'ref':
            b = self.lookup(e['id'])
            if isinstance(b, Alias) and b.cont == 'ptr': return b.path
        if e['k'] == 'this': return self.this
        if e['k'] == 'un' and e['op'] == '&': return self.lv(e['e'])
        return Path('heap', self.W.vheap(pt), self.bind(self.ex(e), 'p'))
    def lvv(self, e):
        """path of an expression used as an object (lvalue or temporary)"""
        e = peel(e)
        if e['k'] == 'cond' or not e.get('lv'):
            if e['k'] == 'un' and e['op'] == '*' or e['k'] == 'this': return self.lv(e)
            if e['k'] == 'opcall' and e['op'] == '->': return self.lv(e)
            if e['k'] == 'cast' and e['ck'] == 'ArrayToPointerDecay': return self.lv(e['e'])
            t = self.ex(e)
            if self.objcls(e['t']): return Path('obj', t)
            return Path('text', self.bind(t))
        return self.lv(e)
    def globpath(self, e):
        if e['vk'] in ('global', 'sfield'):
            h = self.W.glob(e['q'], e['vt'])
            return Path('glob', h)
        raise Unsupported('unbound variable ' + e['name'])
    def memlv(self, e):
        b = peel(e['e'])
        if b['k'] == 'this': base = self.this
        elif e['arrow']:
            if b['k'] == 'opcall' and b['op'] == '->': base = self.lv(b)
            elif is_iter(b['t']):
                c, i = self.itex(b); base = self.itelem(c, i, b['t'])
            else:
                pt = pointee(b['t'])
                if pt is not None and self.objcls(pt): base = Path('obj', self.ex(b))
                elif b['k'] == 'un' and b['op'] == '&': base = self.lv(b['e'])
                elif b['k'] == 'ref' and isinstance(self.lookup(b['id']), Alias) and self.lookup(b['id']).cont == 'ptr': base = self.lookup(b['id']).path
                else: base = self.vobj(b)
        else: base = self.lvv(b)
        f = e['f']
        if e.get('cls') == 'std::pair' or (e.get('cls') is None and f in ('first', 'second')):
            return self.pair_proj(base, 'p1' if f == 'first' else 'p2')
        return self.field(base, e['cls'], f)
    def field(self, base, cls, f):
        if (cls + '::' + f) in self.W.spec.ignore_fields: raise Unsupported('ignored field ' + f)
        if base is None: raise Unsupported('field without object')
        if base.kind == 'obj': return Path('heap', self.W.heap(cls, f), base.a)
        w = self.recof(base, cls)
        return base.plus('fld', w, f)
    def recof(self, base, cls):
        # record type actually used for the object: derived classes flatten their bases, so find it
        w = getattr(base, 'a', None)
        if base.kind == 'var' and base.a == 'this' and not base.proj and self.thiscls:
            return self.W.rectype(self.thiscls)
        return self.W.rectype(cls)

    # ------------------------------------------------------------ iterators
    def itelem(self, c, i, t=None):
        if c[0] == 'map': return c[1].plus('ent', i)
        if c[0] == 'set': return c[1].plus('sidx', i)
        return c[1].plus('idx', i)
    def contof(self, e):
        ct = self.W.norm(e['t'])
        p = self.lvv(e)
        p = self.freeze(p)
        if is_map(ct): return ('map', p)
        if is_set(ct): return ('set', p)
        if is_contbase(ct): return ('seq', p)
        raise Unsupported('iterator over ' + str(rn(ct)))
    def contlen(self, c, spec=False):
        t = self.read(c[1], spec)
        if c[0] == 'map': return '(length (fm_keys %s))' % t
        if c[0] == 'set': return '(length (fs_keys %s))' % t
        return '(length %s)' % t
    def rbeg(self, e):
        """*c.rbegin(): the last element (a reverse iterator is supported in this form only)"""
        e = peel(e)
        while e['k'] == 'ctor' and len(e['args']) == 1: e = peel(e['args'][0])
        if e['k'] == 'mcall' and e['fn']['q'].split('::')[-1] in ('rbegin', 'crbegin'):
            c = self.contof(e['obj'])
            return c, '(%s - 1)' % self.contlen(c)
    def itex(self, e):
        e = peel(e); k = e['k']
        if k == 'ref':
            b = self.lookup(e['id'])
            if isinstance(b, IterVar):
                if b.cont is None: raise Unsupported('iterator without container')
                return b.cont, b.why
            raise Unsupported('iterator variable')
        if k == 'ctor' and len(e['args']) == 1: return self.itex(e['args'][0])
        if k in ('mcall', 'call') and e['fn'] and fkey(e['fn']) in self.W.P.fns and not self.W.contract_for(fkey(e['fn'])):
            return self.inline_iter(e)
        if k == 'mcall':
            m = e['fn']['q'].split('::')[-1]
            if m in ('begin', 'end', 'cbegin', 'cend'):
                c = self.contof(e['obj'])
                return c, ('0' if m in ('begin', 'cbegin') else self.contlen(c))
            if m == 'find':
                c = self.contof(e['obj']); key = self.ex(e['args'][0])
                if c[0] == 'map': return c, self.bind('(fm_find %s %s)' % (self.read(c[1]), key), 'it')
                if c[0] == 'set': return c, self.bind('(fs_find %s %s)' % (self.read(c[1]), key), 'it')
            if m in ('insert', 'erase') and is_contbase(self.W.norm(e['obj']['t'])):
                c = self.contof(e['obj'])
                pos = self.bind(self.itex(e['args'][0])[1], 'it')
                self.seq_insert_erase(e, m, c, pos); return c, pos
            if m in ('operator+', 'base'): pass
        if k == 'opcall':
            op = e['op']; a = e['args']
            if op in ('+', '-') and len(a) == 2 and is_iter(a[0]['t']):
                c, i = self.itex(a[0]); return c, '(%s %s %s)' % (i, op, self.ex(a[1]))
            if op in ('++', '--'):
                c, i = self.itex(a[0])
                if len(a) == 2: i = self.bind_copy(i)
                self.effect(e)
                return (c, i) if len(a) == 2 else self.itex(a[0])
            if op == '=': self.effect(e); return self.itex(a[0])
            if op in ('+=', '-='): self.effect(e); return self.itex(a[0])
        if k == 'call' and e['fn']:
            q = e['fn']['q']
            if q in ('std::lower_bound', 'std::upper_bound', 'std::find', 'std::max_element', 'std::min_element') :
                c, i = self.itex(e['args'][0]); c2, j = self.itex(e['args'][1])
                fn = {'std::find': 'seq_find_in', 'std::lower_bound': 'seq_lower_bound', 'std::upper_bound': 'seq_upper_bound',
                      'std::max_element': 'seq_max_element', 'std::min_element': 'seq_min_element'}[q]
                if c[0] != 'seq': raise Unsupported(q)
                et = self.elemty(c, e)
                if len(e['args']) > 3: raise Unsupported(q + ' with comparator')
                suf = '' if q == 'std::find' else self.cmpsuffix(et)
                if len(e['args']) == 3: x = ' ' + self.ex(e['args'][2])
                else: x = ''
                return c, self.bind('(%s%s %s %s %s%s)' % (fn, suf, self.read(c[1]), i, j, x), 'it')
        if k == 'mem': raise Unsupported('iterator field')
        raise Unsupported('iterator expression ' + k + str(e.get('op', '')) + (e['fn']['q'] if e.get('fn') else ''))
    def elemty(self, c, e):
        t = e['t']
        # element type from the iterator type: __normal_iterator<T*, vector<T>>
        t = strip(t)
        for a in t.get('a', []):
            if isinstance(a, dict) and is_contbase(a): return elem(a)
        raise Unsupported('iterator element type')
    def cmpsuffix(self, t):
        t = self.W.norm(t)
        if is_int(t): return '_int'
        if is_real(t): return '_real'
        if is_pair(t): return '_pair' + self.cmpsuffix(t['a'][0]) + self.cmpsuffix(t['a'][1])
        if is_contbase(t) and is_int(elem(t)): return '_str'
        if is_ptr(t): return '_ptr'
        raise Unsupported('order on ' + str(t)[:80])
    def bind_copy(self, t):
        n = self.tmp('it'); self.emit('let %s = %s in' % (n, t)); return n
    def havoc_iters(self, p, skip=None):
        """iterators into container p become indeterminate after a structural change"""
        for lvl in self.names:
            for n, b in lvl:
                if isinstance(b, IterVar) and b.cont and b is not skip:
                    q = b.cont[1]
                    if (q.kind, q.a, q.b) == (p.kind, p.a, p.b) and (q.proj[:len(p.proj)] == p.proj or p.proj[:len(q.proj)] == q.proj):
                        self.emit('%s <- any int;' % b.why)

    # ------------------------------------------------------------ rvalues
    def exs(self, es):
        """several operands, left to right, protecting earlier values from later effects"""
        texts = []
        for e in es:
            n0 = len(self.out)
            t = self.ex(e)
            if len(self.out) > n0:
                late = self.out[n0:]; self.out = self.out[:n0]
                for j in range(len(texts)):
                    if self.is_mut_name(texts[j]): texts[j] = self.bind(texts[j], 'a')
                self.out += late
            texts.append(t)
        return texts
    def ex(self, e):
        e = peel(e); k = e['k']
        m = getattr(self, 'ex_' + k, None)
        if m is None: raise Unsupported('expr ' + k + ' ' + str(e.get('n', '')))
        return m(e)
    def ex_int(self, e): return e['v'] if not e['v'].startswith('-') else '(%s)' % e['v']
    def ex_bool(self, e): return 'true' if e['v'] else 'false'
    def ex_float(self, e):
        s = e.get('src') or ''
        if e['v'].startswith('1.7976931348623157') and 'E+308' in e['v'].upper(): return 'real_max'
        m = re.fullmatch(r'([0-9]*\.?[0-9]*(?:[eE][-+]?[0-9]+)?)[fFlL]?', s)
        v = m.group(1) if m and m.group(1) not in ('', '.') else e['v']
        if v.startswith('.'): v = '0' + v
        if '.' not in v and 'e' not in v.lower(): v += '.0'
        v = re.sub(r'\.(?=$|[eE])', '.0', v)
        if '.' not in v: v = re.sub(r'[eE]', '.0e', v)
        return v.replace('E', 'e').replace('e+', 'e')
    def ex_str(self, e):
        t = '(empty: seq int)'
        for c in e['v']: t = '(snoc %s %d)' % (t, c if c < 128 else c - 256)
        return t
    def ex_null(self, e): return '0'
    def ex_zeroinit(self, e): return self.W.default(e['t'])
    def ex_this(self, e):
        if self.this.kind == 'obj': return self.this.a
        raise Unsupported('this pointer as a value')
    def ex_ref(self, e):
        if 'cv' in e and self.lookup(e['id']) is None: return e['cv'] if not e['cv'].startswith('-') else '(%s)' % e['cv']
        if is_iter(e['t']): return self.itex(e)[1]
        b = self.lookup(e['id'])
        if isinstance(b, Alias) and b.cont == 'ptr': raise Unsupported('pointer value')
        if b is None:
            g = self.W.P.globals.get(e['q'])
            if g and g.get('init') and strip(e['vt']).get('c') and (is_real(e['vt']) or is_int(e['vt'])): return self.ex(g['init'])
        return self.read(self.lv(e))
    def ex_mem(self, e): return self.read(self.memlv(e))
    def ex_sub(self, e): return self.read(self.lv(e))
    def ex_cond(self, e):
        c = self.ex(e['c'])
        a = self.sub(lambda: self.ex(e['a'])); b = self.sub(lambda: self.ex(e['b']))
        return '(if %s then %s else %s)' % (c, a, b)
    def ex_cast(self, e):
        ck = e['ck']; s = e['e']
        if ck in ('IntegralCast',):
            x = self.ex(s)
            if is_bool(s['t']): return '(if %s then 1 else 0)' % x
            if is_b(e['t'], UNS) and not is_b(s['t'], UNS) and not re.fullmatch(r'\d+', x):
                if strip(s['t'])['k'] == 'enum': return x
                if x == '(-1)' : return 'npos'
                return '(to_u %s)' % x
            if is_b(e['t'], {'char', 'signed char', 'short', 'unsigned char', 'unsigned short'}) and not re.fullmatch(r'\(?-?\d+\)?', x): 
                if is_b(s['t'], {'char', 'signed char'}) and is_b(e['t'], {'unsigned char'}): return '(uchar_of %s)' % x
                if not is_b(s['t'], {'char', 'signed char', 'short', 'unsigned char', 'unsigned short'}): return '(narrow %s)' % x
            return x
        if ck in ('IntegralToBoolean',): return '(%s <> 0)' % self.ex(s)
        if ck in ('PointerToBoolean',): return '(%s <> 0)' % self.ex(s)
        if ck == 'FloatingToBoolean': return '(real_ne %s 0.0)' % self.ex(s)
        if ck == 'IntegralToFloating':
            x = self.ex(s)
            if is_bool(s['t']): return '(if %s then 1.0 else 0.0)' % x
            if re.fullmatch(r'\d+', x): return x + '.0'
            if re.fullmatch(r'\(-\d+\)', x): return '(-. %s.0)' % x[2:-1]
            return '(of_int %s)' % x
        if ck == 'FloatingToIntegral': return '(real_trunc %s)' % self.ex(s)
        if ck in ('FloatingCast', 'NullToPointer', 'LValueToRValue', 'AtomicToNonAtomic'):
            return '0' if ck == 'NullToPointer' else self.ex(s)
        if ck == 'ArrayToPointerDecay' and s['k'] == 'str': return self.ex(s)
        if ck in ('ToVoid',): self.effect(s); return '()'
        if ck == 'IntegralToPointer': return self.ex(s)
        raise Unsupported('cast ' + ck)
    def ex_un(self, e):
        op = e['op']
        if op == '!': return '(not %s)' % self.ex(e['e'])
        if op == '-': return ('(-. %s)' if is_real(e['t']) else '(- %s)') % self.ex(e['e'])
        if op == '+': return self.ex(e['e'])
        if op == '&':
            s = peel(e['e'])
            p = self.lvv(s)
            if p.kind == 'obj': return p.a
            raise Unsupported('address of')
        if op == '*': return self.read(self.lv(e))
        if op in ('++', '--'):
            self.effect(e); return self.read(self.lv(e['e']))
        if op in ('++_', '--_'):
            p = self.freeze(self.lv(e['e'])); t = self.tmp('old'); self.emit('let %s = %s in' % (t, self.read(p)))
            self.write(p, self.incdec(t, op[0], e['t'])); return t
        raise Unsupported('unary ' + op)
    def incdec(self, t, c, ty):
        if is_real(ty): return '(%s %s. 1.0)' % (t, c)
        if c == '-' and is_b(ty, UNS): return '(usub %s 1)' % t
        return '(%s %s 1)' % (t, c)
    def arith(self, op, a, b, t, bt=None):
        if is_real(t):
            f = {'+': '(%s +. %s)', '-': '(%s -. %s)', '*': '(%s *. %s)', '/': '(real_div %s %s)'}.get(op)
            if f: return f % (a, b)
            raise Unsupported('real op ' + op)
        if is_b(t, UNS) and op == '-': return '(usub %s %s)' % (a, b)
        if op in '+-*': return '(%s %s %s)' % (a, op, b)
        if op == '/': return '(cdiv %s %s)' % (a, b)
        if op == '%': return '(cmod %s %s)' % (a, b)
        if op == '<<': return '(shl %s %s)' % (a, b)
        if op == '>>': return '(shr %s %s)' % (a, b)
        if op == '&': return '(bitand %s %s)' % (a, b)
        if op == '|': return '(bitor %s %s)' % (a, b)
        if op == '^': return '(bitxor %s %s)' % (a, b)
        raise Unsupported('op ' + op)
    def ex_bin(self, e):
        op = e['op']; a, b = e['a'], e['b']
        if op == ',':
            self.effect(a); return self.ex(b)
        if op == '=': self.effect(e); return self.read(self.lv(a))
        if op in ('&&', '||'):
            x = self.ex(a); y = self.sub(lambda: self.ex(b))
            return '(%s %s %s)' % (x, op, y)
        x, y = self.exs([a, b])
        if op in ('<', '>', '<=', '>=', '==', '!='):
            return self.compare(op, x, y, a['t'])
        if is_ptr(a['t']) and not is_ptr(b['t']): raise Unsupported('pointer arithmetic')
        return self.arith(op, x, y, e['t'])
    def compare(self, op, x, y, t):
        t = self.W.norm(t)
        if is_real(t):
            if op == '==': return '(real_eq %s %s)' % (x, y)
            if op == '!=': return '(real_ne %s %s)' % (x, y)
            return '(%s %s. %s)' % (x, op, y)
        if is_int(t) or is_ptr(t) or t['k'] == 'ptr' or is_iter(t):
            if op in ('==', '!='): return '(%s %s %s)' % (x, '=' if op == '==' else '<>', y)
            return '(%s %s %s)' % (x, op, y)
        if is_bool(t):
            if op == '==': return '(bool_eq %s %s)' % (x, y)
            if op == '!=': return '(bool_ne %s %s)' % (x, y)
            raise Unsupported('bool order')
        if op in ('==', '!='):
            if not self.eqok(t): raise Unsupported('equality on ' + str(t)[:100])
            r = '(poly_eq %s %s)' % (x, y)
            return r if op == '==' else '(not %s)' % r
        s = self.cmpsuffix(t)
        if op == '<': return '(lt%s %s %s)' % (s, x, y)
        if op == '>': return '(lt%s %s %s)' % (s, y, x)
        if op == '<=': return '(not (lt%s %s %s))' % (s, y, x)
        return '(not (lt%s %s %s))' % (s, x, y)
    def eqok(self, t):
        t = self.W.norm(t)
        if is_int(t) or is_bool(t) or is_real(t) or is_ptr(t): return True
        if is_contbase(t): return self.eqok(elem(t))
        if is_pair(t): return self.eqok(t['a'][0]) and self.eqok(t['a'][1])
        if is_map(t): return self.eqok(t['a'][0]) and self.eqok(t['a'][1])
        if is_set(t): return self.eqok(t['a'][0])
        return False
    def ex_cassign(self, e): self.effect(e); return self.read(self.lv(e['a']))
    def ex_throw(self, e):
        self.throw(); return 'absurd'
    def throw(self):
        self.eff.throws = True
        self.emit('raise CxxThrow;')
    def ex_initlist(self, e):
        if is_contbase(self.W.norm(e['t'])) or strip(e['t'])['k'] == 'arr' or rn(e['t']) == 'std::initializer_list':
            t = 'empty'
            for x in self.exs(e['args']): t = '(snoc %s %s)' % (t, x)
            return t
        if len(e['args']) == 1: return self.ex(e['args'][0])
        if not e['args']: return self.W.default(e['t'])
        raise Unsupported('init list')
    def ex_ctor(self, e):
        t = self.W.norm(e['t']); a = e['args']
        n = rn(t)
        if e['copy'] and len(a) == 1:
            if is_iter(t): return self.itex(a[0])[1]
            if self.objcls(t): return self.newobj(t, e)
            return self.ex(a[0])
        if is_iter(t):
            if not a: return '(any int)'
            return self.itex(a[0])[1]
        if n in PTRS:
            if not a: return '0'
            return self.ex(a[0])
        if is_pair(t):
            if len(a) == 2:
                x, y = self.exs(a); return '(mkp %s %s)' % (x, y)
            if not a: return self.W.default(t)
            if len(a) == 1 and is_pair(a[0]['t']):
                p = self.bind(self.ex(a[0]))
                s, d = strip(a[0]['t']), t
                def conv(v, st, dt):
                    if self.W.ty(st) == self.W.ty(dt): return v
                    if is_int(st) and is_real(dt): return '(of_int %s)' % v
                    raise Unsupported('pair conversion')
                return '(mkp %s %s)' % (conv('(p1 %s)' % p, s['a'][0], d['a'][0]), conv('(p2 %s)' % p, s['a'][1], d['a'][1]))
        if is_str(t):
            if not a: return '(empty: seq int)'
            if is_int(a[0]['t']) and len(a) >= 2: x, y = self.exs(a[:2]); return '(seq_fill %s %s)' % (x, y)
            if len(a) == 1 or (len(a) == 2 and rn(a[1]['t']) and 'allocator' in rn(a[1]['t'])): return self.ex(a[0])
            if len(a) >= 2 and is_iter(a[0]['t']):
                c, i = self.itex(a[0]); c2, j = self.itex(a[1]); return '(%s[%s .. %s])' % (self.read(c[1]), i, j)
            if len(a) >= 2 and is_str(a[0]['t']):
                x = self.exs(a[:3] if len(a) > 2 and is_int(a[2]['t']) else a[:2])
                if len(x) == 3: return '(str_substr %s %s %s)' % tuple(x)
        if is_seq(t):
            if n in ('std::stack', 'std::queue') and a: return self.ex(a[0])
            if not a: return self.W.default(t)
            et = elem(t)
            if is_int(a[0]['t']):
                x = self.bind(self.ex(a[0]))
                if len(a) == 1 or (rn(a[1]['t']) and 'allocator' in rn(a[1]['t'])): v = self.W.default(et) if not self.W.spec else self.defval(et)
                else: v = self.ex(a[1])
                return '(seq_fill %s %s)' % (x, v)
            if is_iter(a[0]['t']):
                c, i = self.itex(a[0]); c2, j = self.itex(a[1])
                s = {'seq': self.read(c[1]), 'set': '(fs_keys %s)' % self.read(c[1]), 'map': '(fm_ents %s)' % self.read(c[1])}[c[0]]
                return '(%s[%s .. %s])' % (s, i, j)
            if a[0]['k'] in ('initlist',): return self.ex(a[0])
            if is_seq(self.W.norm(a[0]['t'])): return self.ex(a[0])
        if is_map(t) or is_set(t):
            if not a: return self.W.default(t)
            if is_map(a[0]['t']) or is_set(a[0]['t']): return self.ex(a[0])
            if is_set(t) and is_iter(a[0]['t']):
                c, i = self.itex(a[0]); c2, j = self.itex(a[1])
                if c[0] == 'seq': return '(fs_of_seq (%s[%s .. %s]))' % (self.read(c[1]), i, j)
        if is_ost(t):
            if not a: return '(empty: seq int)'
            return self.ex(a[0])
        if rn(t) in ISTREAMS:
            if not a or not is_str(a[0]['t']): raise Unsupported('stream constructor')
            return '(mk_is %s 0 true)' % self.ex(a[0])
        if n in self.W.P.recs or self.objcls(t):
            if self.objcls(t): return self.newobj(t, e)
            return self.ctor_value(e, t)
        if n in self.W.spec.opaque and not a: return '(any %s)' % self.W.spec.opaque[n]
        # plain default construction of something whose why type is a container
        raise Unsupported('constructor of ' + str(n))
    def defval(self, t):
        t = self.W.norm(t)
        n = rn(t)
        if n in self.W.P.recs and n not in self.W.heapcls:
            # value initialisation through the default constructor, if the class has one in /repo
            for k in self.W.P.byq.get(n + '::' + n.split('::')[-1], []):
                if not self.W.P.fns[k]['params']:
                    return self.ctor_value({'k': 'ctor', 't': t, 'fn': self.W.P.fns[k], 'args': [], 'copy': False, 'zero': False}, t)
        return self.W.default(t)
    def ex_new(self, e):
        if e['arr']: raise Unsupported('array new')
        t = e['at']; n = rn(t)
        if n in self.W.heapcls:
            return self.newobj(t, e['init'])
        h = self.W.vheap(t)
        v = self.ex(e['init']) if e['init'] is not None else self.W.default(t, False)
        v = self.bind(v, 'v')
        self.hwrite('nextptr'); p = self.tmp('p')
        self.emit('let %s = nextptr in' % p); self.emit('nextptr <- nextptr + 1;')
        self.hwrite(h); self.emit('%s <- hset %s %s %s;' % (h, h, p, v))
        return p
    def ex_delete(self, e):
        self.W.dropped['delete'] += 1
        p = self.ex(e['e']); return '()'
    def newobj(self, t, init):
        n = rn(t)
        self.hwrite('nextptr')
        p = self.tmp('p')
        self.emit('let %s = nextptr in' % p); self.emit('nextptr <- nextptr + 1;')
        if init is None: return p
        if init['k'] != 'ctor': raise Unsupported('new initialiser')
        key = fkey(init['fn'])
        if init['copy'] and key not in self.W.P.fns or (init['fn'].get('implicit') and init['copy']):
            src = self.bind(self.ex(init['args'][0]), 'p')
            for f, ft, c in self.W.allfields(n):
                h = self.W.heap(n, f); self.hwrite(h)
                self.emit('%s <- hset %s %s (hget %s %s);' % (h, h, p, h, src))
            return p
        if key not in self.W.P.fns:
            # implicit default ctor: containers empty, scalars indeterminate
            for f, ft, c in self.W.allfields(n):
                h = self.W.heap(n, f); self.hwrite(h)
                self.emit('%s <- hset %s %s %s;' % (h, h, p, self.W.default(ft, False)))
            return p
        self.call_fn(self.W.P.fns[key], Path('obj', p), init['args'], e=init)
        return p
    def ctor_value(self, e, t):
        fn = e['fn']; key = fkey(fn); w = self.W.rectype(rn(t))
        if key not in self.W.P.fns:
            return self.W.default(t, e.get('zero', False))
        return self.call_fn(self.W.P.fns[key], None, e['args'], e=e)
    def ex_opcall(self, e):
        op = e['op']; a = e['args']
        if e['fn'] and fkey(e['fn']) in self.W.P.fns and not (op in ('==', '!=') and False):
            return self.call_any(e, want='ex')
        t0 = self.W.norm(a[0]['t'])
        if op in ('==', '!=', '<', '>', '<=', '>=') and len(a) == 2:
            if is_iter(t0):
                c, i = self.itex(a[0]); c2, j = self.itex(a[1])
                return self.compare(op, i, j, INT)
            x, y = self.exs(a)
            if is_ptr(t0) : return self.compare(op, x, y, INT)
            if not (is_str(t0) or is_pair(t0) or is_seq(t0) or is_map(t0) or is_set(t0)): raise Unsupported('comparison ' + str(rn(t0)))
            if is_contbase(t0) or is_pair(t0) or is_map(t0) or is_set(t0):
                if not is_str(t0) and op in ('==', '!=') and not self.eqok(t0): return self.custom_eq(op, x, y, t0)
            return self.compare(op, x, y, t0 if not (t0['k'] == 'ptr') else a[1]['t'])
        if op == '[]' or op == '->' or (op == '*' and len(a) == 1): 
            p = self.lv(e); return self.read(p)
        if op in ('+', '-') and len(a) == 2 and is_iter(t0):
            if is_iter(a[1]['t']):
                c, i = self.itex(a[0]); c2, j = self.itex(a[1]); return '(%s - %s)' % (i, j)
            return self.itex(e)[1]
        if op == '+' and (is_str(e['t'])):
            x, y = self.exs(a)
            if is_int(a[0]['t']): x = '(singleton %s)' % x
            if is_int(a[1]['t']): return '(snoc %s %s)' % (x, y)
            return '(%s ++ %s)' % (x, y)
        if op in ('=', '+=', '-=', '*=', '++', '--'):
            self.effect(e)
            if is_iter(t0): return self.itex(a[0])[1]
            return self.read(self.lv(a[0]))
        if op == '<<': self.effect(e); return '()'
        if op == '>>': p = self.stream_in(e); return self.read(p)
        if op == '!' and rn(t0) in PTRS: return '(%s = 0)' % self.ex(a[0])
        if op == '!' and (rn(t0) in ISTREAMS or rn(t0) == 'std::basic_ios'): return '(not (is_ok %s))' % self.ex(a[0])
        if op == '()' and e['fn'] is not None: return self.call_any(e, want='ex')
        return self.call_any(e, want='ex')
    def custom_eq(self, op, x, y, t): raise Unsupported('equality with custom element comparison')
    def ex_lambda(self, e): raise Unsupported('lambda')
    def ex_fnref(self, e): raise Unsupported('function value')

    from stdlib_tr import (ex_mcall, std_mlv, seq_insert_erase, ex_call, std_effect, stream_out, stream_in, fmt)  # noqa

    # ------------------------------------------------------------ calls into /repo
    def call_any(self, e, want):
        """call/mcall/opcall resolved to a function of /repo. want: 'ex' | 'lv' | 'eff'"""
        fn = e['fn']
        if fn is None: raise Unsupported('indirect call')
        key = fkey(fn)
        args = e['args']; obj = None
        virt = False
        if e['k'] == 'mcall':
            objx = peel(e['obj'])
            if fn.get('static'): obj = None
            elif objx['k'] == 'this': obj = self.this
            elif e['arrow']:
                if objx['k'] == 'opcall' and objx['op'] == '->': obj = self.lv(objx)
                elif is_iter(objx['t']): c, i = self.itex(objx); obj = self.itelem(c, i)
                else:
                    pt = pointee(objx['t'])
                    if pt is not None and self.objcls(pt): obj = Path('obj', self.ex(objx))
                    elif objx['k'] == 'ref' and isinstance(self.lookup(objx['id']), Alias) and self.lookup(objx['id']).cont == 'ptr': obj = self.lookup(objx['id']).path
                    elif objx['k'] == 'un' and objx['op'] == '&': obj = self.lv(objx['e'])
                    else: obj = self.vobj(objx)
            else: obj = self.lvv(objx)
            virt = fn.get('virt') and not e.get('qual')
        elif e['k'] == 'opcall' and fn.get('cls') and not fn.get('static'):
            obj = self.lvv(args[0]); args = args[1:]
            if e['op'] in ('++', '--') : args = []
        if virt and not self.W.contract_for(key):
            if key not in self.W.P.fns or not self.W.devirt(key):
                raise Unsupported('virtual call without contract: ' + fn['q'])
        if key not in self.W.P.fns and not self.W.contract_for(key):
            raise Unsupported('external call ' + fn['q'] + ' ' + fn['sig'])
        f = self.W.P.fns.get(key) or self.W.extern(fn)
        return self.call_fn(f, obj, args, e=e, want=want)

    def call_fn(self, f, obj, args, e=None, want='ex'):
        key = fkey(f)
        K = self.W.contract_for(key)
        if K: return self.call_contract(K, f, obj, args, want)
        if key in self.inl: raise Unsupported('recursive call without contract: ' + f['q'])
        if len(self.inl) > 12: raise Unsupported('inlining depth')
        return self.inline(f, obj, args, want, e)

    def call_contract(self, K, f, obj, args, want):
        W = self.W; sig = W.signature(fkey(f))
        texts = []; copyout = []
        if f.get('kind') == 'ctor':
            if obj is not None: texts.append(obj.a)
        elif f.get('cls') and not f.get('static'):
            if obj.kind == 'obj': texts.append(obj.a)
            elif f.get('const') : texts.append(self.read(obj))
            else: texts.append(self.refarg(obj, W.ty({'k': 'rec', 'n': f['cls']}), copyout))
        argtexts = []
        for p, a in zip(f['params'], args):
            n0 = len(self.out)
            pt = p['type']
            if not const_param(pt) and not self.objcls(pt) :
                if is_iter(pt): raise Unsupported('iterator out parameter')
                argtexts.append(self.refarg(self.lv(a), W.ty(pt), copyout))
            elif self.objcls(pt):
                x = self.lvv(a); argtexts.append(x.a)
            else:
                if is_iter(pt): raise Unsupported('iterator parameter')
                t = self.ex(a)
                if len(self.out) > n0 and argtexts: 
                    late = self.out[n0:]; self.out = self.out[:n0]
                    argtexts = [x if x.startswith('&') else self.bind(x, 'a') for x in argtexts]
                    self.out += late
                argtexts.append(t)
        texts += argtexts
        eff = W.effects(fkey(f))
        for h, t in eff.reads.items(): self.hread(h)
        for h, t in eff.writes.items(): self.hwrite(h)
        if eff.throws: self.eff.throws = True
        name = W.fname(fkey(f))
        if not texts: texts = ['()']
        call = '%s %s' % (name, ' '.join(texts))
        isvoid = is_void(f['ret']) and not (f.get('kind') == 'ctor' and obj is None)
        self.W.callees.setdefault(self.key, set()).add(fkey(f))
        if isvoid:
            self.emit(call + ';'); r = '()'
        else:
            r = self.tmp('r'); self.emit('let %s = %s in' % (r, call))
        for p, v in copyout: self.write(p, v)
        if want == 'lv':
            rt = f['ret']
            if self.objcls(rt): return Path('obj', r)
            # reference results: only "returns its first operand" and read-only uses
            if 'returns_first' in K.flags: return self.lv(args[0]) if obj is None else obj
            return Path('text', r)
        return r
    def refarg(self, p, wty, copyout):
        if p.kind == 'var' and not p.proj: return '&' + p.a
        if p.kind == 'glob' and not p.proj:
            pass
        p = self.freeze(p)
        t = self.tmp('m')
        self.emit('let ref %s = %s in' % (t, self.read(p)))
        copyout.append((p, t))
        return '&' + t

    # ------------------------------------------------------------ inlining
    def inline(self, f, obj, args, want, e=None):
        W = self.W
        if f.get('body') is None: raise Unsupported('no body: ' + f['q'])
        W.inlined[f['q']] += 1
        binds = []
        written = written_roots(f['body'])
        for p, a in zip(f['params'], args):
            pt = p['type']; nm = p['name'] or 'unnamed'
            if self.objcls(pt):
                x = self.lvv(a)
                if pt['k'] in ('ref', 'rref'): binds.append((p, Alias(self.freeze(x), pt)))
                else: raise Unsupported('heap object by value')
            elif pt['k'] in ('ref', 'rref'):
                if is_iter(pt): raise Unsupported('iterator by reference')
                ap = peel(a)
                if ap.get('lv'): binds.append((p, Alias(self.freeze(self.lv(a)), pt)))
                else:
                    t = self.tmp('a'); self.emit('let %s = %s in' % (t, self.ex(a))); binds.append((p, Alias(Path('text', t), pt)))
            elif is_iter(pt):
                c, i = self.itex(a)
                n = self.fresh(nm); self.used.add(n); binds.append((p, IterVar(n, pt, c))); self.emit('let ref %s = %s in' % (n, i))
            elif pt['k'] == 'ptr' and not (pointee(pt) is not None and self.objcls(pointee(pt))):
                aa = peel(a)
                if aa['k'] == 'un' and aa['op'] == '&': binds.append((p, Alias(self.freeze(self.lv(aa['e'])), pt))); binds[-1][1].cont = 'ptr'
                else: raise Unsupported('pointer parameter')
            else:
                t = self.ex(a)
                n = self.fresh(nm); self.used.add(n)
                mut = p['id'] in written
                self.emit('let %s%s = %s in' % ('ref ' if mut else '', n, t)); binds.append((p, Var(n, pt, mut)))
        saved = (self.this, self.ret, getattr(self, 'thiscls', None))
        self.inl.append(fkey(f))
        self.push()
        isctor = f.get('kind') == 'ctor' and obj is None
        try:
            for p, b in binds: self.declare(p['id'], p['name'], b)
            if isctor:
                w = W.rectype(f['cls']); n = self.fresh('obj'); self.used.add(n)
                self.emit('let ref %s = %s in' % (n, W.default({'k': 'rec', 'n': f['cls']}, False)))
                self.this = Path('var', n); self.thiscls = f['cls']
                self.ctor_inits(f)
                self.stmts_inl(f)
                return n
            if obj is not None:
                self.this = self.freeze(obj); self.thiscls = None
            if f.get('kind') == 'ctor': self.ctor_inits(f)
            body = f['body']['s'] if f['body']['k'] == 'block' else [f['body']]
            body = [s for s in body if s['k'] != 'null']
            rets = scan(f['body'], lambda x: x.get('k') == 'return' and 'e' in x and 'l' in x and 't' not in x, [])
            if is_void(f['ret']) or f.get('kind') == 'ctor':
                if not rets: 
                    for s in body: self.st(s)
                else: self.exc_inline(f, body)
                return '()'
            if len(rets) == 1 and body and body[-1]['k'] == 'return':
                for s in body[:-1]: self.st(s)
                re_ = body[-1]['e']
                if want == 'lv' or f['ret']['k'] == 'ref':
                    p = self.lvv(re_)
                    p = self.freeze(p)
                    if want == 'lv': return p
                    return self.read(p)
                t = self.ex(re_)
                if is_iter(f['ret']): raise Unsupported('iterator result')
                return self.bind_copy(t) if self.is_mut_name(t) else t
            if want == 'lv' and self.objcls(f['ret']) is None and f['ret']['k'] == 'ref' and not f['ret']['t'].get('c'): raise Unsupported('inlined reference result')
            r = self.exc_inline(f, body)
            if want == 'lv': return Path('obj', r) if self.objcls(f['ret']) else Path('text', r)
            return r
        finally:
            self.pop(); self.inl.pop()
            self.this, self.ret, self.thiscls = saved
    def inline_iter(self, e):
        """a /repo function returning an iterator, with a single return statement"""
        f = self.W.P.fns[fkey(e['fn'])]
        body = f['body']['s'] if f['body']['k'] == 'block' else [f['body']]
        body = [x for x in body if x['k'] != 'null']
        if len(body) != 1 or body[0]['k'] != 'return' or f['params']: raise Unsupported('function returning an iterator: ' + f['q'])
        obj = None
        if e['k'] == 'mcall':
            o = peel(e['obj'])
            obj = self.this if o['k'] == 'this' else self.lv(o) if not e['arrow'] else Path('obj', self.ex(o))
        saved = (self.this, self.thiscls)
        self.push()
        try:
            self.this = self.freeze(obj) if obj is not None else None
            if obj is not None and not (obj.kind == 'var' and obj.a == 'this'): self.thiscls = None
            return self.itex(body[0]['e'])
        finally:
            self.pop(); self.this, self.thiscls = saved
    def stmts_inl(self, f):
        body = f['body']['s'] if f['body']['k'] == 'block' else [f['body']]
        if scan(f['body'], lambda x: x.get('k') == 'return' and 't' not in x, []): self.exc_inline(dict(f, ret=None), body)
        else:
            for s in body: self.st(s)
    def exc_inline(self, f, body):
        self.ntmp += 1; exn = 'Ret_%d' % self.ntmp
        void = is_void(f['ret'])
        self.ret = {'exn': exn, 'void': void, 'type': f['ret']}
        def b():
            for s in body: self.st(s)
            return '()' if void else 'absurd'
        t = self.sub(b)
        if void:
            self.emit('begin exception %s in try %s with %s -> () end end;' % (exn, t, exn)); return '()'
        r = self.tmp('r')
        self.emit('let %s = begin exception %s %s in try %s with %s _v -> _v end end in' % (r, exn, self.W.ty(f['ret']), t, exn))
        return r
    def ctor_inits(self, f):
        for i in f['inits']:
            if i.get('deleg'): raise Unsupported('delegating constructor')
            if 'base' in i:
                b = i['base']; x = peel(i['e'])
                bn = rn(b)
                if bn in self.W.P.recs and x['k'] == 'ctor':
                    key = fkey(x['fn'])
                    if key in self.W.P.fns:
                        cls = self.thiscls
                        if self.this.kind != 'obj':
                            # flatten: run the base constructor body on the derived record
                            self.inline_base_ctor(self.W.P.fns[key], x['args'])
                        else: self.inline(self.W.P.fns[key], self.this, x['args'], 'eff')
                elif x['k'] == 'ctor' and not x['args']: pass
                elif bn and not (bn in self.W.P.recs): 
                    if self.W.derived_cont(f['cls']): self.write(self.this, self.ex(x))
                continue
            cls = f['cls']
            if (cls + '::' + i['field']) in self.W.spec.ignore_fields: continue
            p = self.field(self.this, cls, i['field'])
            e = i['e']
            if e is None: continue
            ft = [t for n, t, c in self.W.allfields(cls) if n == i['field']][0]
            if not i['written'] and e['k'] == 'ctor' and not e['args']:
                # implicit default construction of a member
                if rn(self.W.norm(ft)) in self.W.P.recs and rn(ft) not in self.W.heapcls: self.write(p, self.ex(e))
                elif self.this.kind == 'obj' and not self.objcls(ft): self.write(p, self.W.default(ft, False))
                elif self.objcls(ft): self.write(p, self.ex(e))
                continue
            self.write(p, self.ex(e))
    def inline_base_ctor(self, f, args):
        if args or f['params']: 
            self.inline(f, self.this, args, 'eff'); return
        self.inline(f, self.this, args, 'eff')

    # ------------------------------------------------------------ effects (expression statements)
    def effect(self, e):
        e = peel(e); k = e['k']
        if k == 'bin' and e['op'] == '=':
            if is_iter(e['a']['t']): return self.assign_iter(e['a'], e['b'])
            # C++17 order: right operand first
            v = self.ex(e['b'])
            n0 = len(self.out); p = self.lv(e['a'])
            if len(self.out) > n0 and self.is_mut_name(v):
                late = self.out[n0:]; self.out = self.out[:n0]; v = self.bind(v, 'a'); self.out += late
            return self.write(p, v)
        if k == 'cassign':
            p = self.freeze(self.lv(e['a']))
            v = self.ex(e['b'])
            op = e['op'][:-1]
            ct = e['ct']
            old = self.read(p)
            at = e['a']['t']
            if is_real(ct) and is_int(at): old = '(of_int %s)' % old
            if is_real(ct) and is_bool(at): raise Unsupported('bool compound')
            if is_bool(at):
                r = {'|': '(%s || %s)' % (old, '(%s <> 0)' % v), '&': '(%s && %s)' % (old, '(%s <> 0)' % v)}.get(op)
                if r is None: raise Unsupported('bool compound')
                return self.write(p, r)
            r = self.arith(op, old, v, ct)
            if is_real(ct) and is_int(at): r = '(real_trunc %s)' % r
            return self.write(p, r)
        if k == 'un' and e['op'].rstrip('_') in ('++', '--'):
            p = self.freeze(self.lv(e['e']))
            return self.write(p, self.incdec(self.read(p), e['op'][0], e['t']))
        if k == 'bin' and e['op'] == ',': self.effect(e['a']); self.effect(e['b']); return
        if k == 'cond':
            c = self.ex(e['c'])
            def blk(x): self.effect(x); return '()'
            a = self.sub(lambda: blk(e['a'])); b = self.sub(lambda: blk(e['b']))
            self.emit('if %s then %s else %s;' % (c, a, b)); return
        if k == 'bin' and e['op'] in ('&&', '||'):
            c = self.ex(e['a'])
            def blk(): self.effect(e['b']); return '()'
            b = self.sub(blk)
            self.emit(('if %s then %s;' if e['op'] == '&&' else 'if not %s then %s;') % (c, b)); return
        if k == 'throw': self.throw(); return
        if k == 'delete': self.ex(e); return
        if k == 'cast' and e['ck'] == 'ToVoid': self.effect(e['e']); return
        if k in ('opcall', 'mcall', 'call'):
            if self.std_effect(e): return
            if k == 'opcall' and e['op'] in ('=', '+=', '-=', '*=', '++', '--', '<<') and not (e['fn'] and (fkey(e['fn']) in self.W.P.fns or self.W.contract_for(fkey(e['fn'])))): raise Unsupported(e['op'] + ' on ' + str(self.W.norm(e['args'][0]['t']))[:90] + ' / ' + str(self.W.norm(e['args'][-1]['t']))[:60])
            r = self.call_any(e, 'eff') if (e['fn'] and (fkey(e['fn']) in self.W.P.fns or self.W.contract_for(fkey(e['fn'])))) else self.ex(e)
            return
        if k in ('int', 'ref', 'bool', 'mem', 'this', 'float', 'zeroinit'): return
        t = self.ex(e)
        if t not in ('()',): self.emit('let _ = %s in' % t)
    def assign_iter(self, a, b):
        a = peel(a)
        if a['k'] != 'ref': raise Unsupported('iterator assignment')
        bnd = self.lookup(a['id'])
        if not isinstance(bnd, IterVar): raise Unsupported('iterator assignment')
        c, i = self.itex(b)
        if bnd.cont is None: bnd.cont = c
        elif not self.samecont(bnd.cont, c): raise Unsupported('iterator re-targeted')
        self.emit('%s <- %s;' % (bnd.why, i))
    def samecont(self, a, b):
        p, q = a[1], b[1]
        if (p.kind, p.a) != (q.kind, q.a): return False
        if (p.kind in ('heap',) and p.b != q.b): return False
        return [x for x in p.proj if x[0] in ('fld', 'p1', 'p2')] == [x for x in q.proj if x[0] in ('fld', 'p1', 'p2')] and len(p.proj) == len(q.proj) and not any(x[0] in ('idx', 'mval') for x in p.proj)

    # ------------------------------------------------------------ statements
    def block(self, s):
        """statement -> unit expression text"""
        def b():
            self.push(); mark = len(self.names)
            try: self.st(s)
            finally: self.pop()
            return '()'
        t = self.sub(b)
        return t
    def st(self, s):
        k = s['k']
        if k == 'block':
            self.push()
            # a nested block scopes its declarations; emitted lets simply extend to the end
            for x in s['s']: self.st(x)
            self.pop(); return
        if k == 'null': return
        if k == 'expr':
            if self.droppable(s['e']): self.W.dropped['diagnostic output'] += 1; return
            self.effect(s['e']); return
        if k == 'decl':
            for v in s['vars']: self.decl(v)
            return
        if k == 'if': return self.st_if(s)
        if k == 'return':
            e = s['e']
            return self.do_return(e)
        if k == 'for': return self.st_for(s)
        if k == 'forrange': return self.st_range(s)
        if k == 'while': return self.st_while(s)
        if k == 'do': return self.st_do(s)
        if k == 'break':
            self.emit('%s;' % (self.brk[-1])); return
        if k == 'continue':
            self.emit('%s;' % self.cont[-1]); return
        if k == 'switch': return self.st_switch(s)
        raise Unsupported('statement ' + k + ' ' + str(s.get('n', '')))
    brk = []; cont = []
    def droppable(self, e):
        e = peel(e)
        if e['k'] == 'opcall' and e['op'] == '<<':
            r = stream_root(e)
            if r['k'] == 'ref' and r['q'] in ('std::cerr', 'std::clog'): return True
        if e['k'] == 'mcall' and peel(e['obj'])['k'] == 'ref' and peel(e['obj']).get('q') in ('std::cerr', 'std::clog'): return True
        return False
    def decl(self, v):
        t = v['type']; e = v['init']; nm = v['name']
        if v.get('static'): raise Unsupported('static local')
        if t['k'] in ('ref', 'rref'):
            if is_iter(t): raise Unsupported('iterator reference')
            ep = peel(e)
            if ep.get('lv'):
                p = self.freeze(self.lv(e))
                self.declare(v['id'], nm, Alias(p, t))
            else:
                n = self.fresh(nm); x = self.ex(e)
                if self.objcls(t): self.emit('let %s = %s in' % (n, x)); self.declare(v['id'], nm, Var(n, t, False))
                else: self.emit('let ref %s = %s in' % (n, x)); self.declare(v['id'], nm, Var(n, t, True))
            return
        if is_iter(t):
            n = self.fresh(nm)
            if e is None or (e['k'] == 'ctor' and not e['args']):
                b = IterVar(n, t, None); self.emit('let ref %s = (any int) in' % n)
            else:
                c, i = self.itex(e); b = IterVar(n, t, c); self.emit('let ref %s = %s in' % (n, i))
            self.declare(v['id'], nm, b); return
        if rn(t) and rn(t).startswith(('boost::', 'std::')) and re.search(r'lock', rn(t)):
            self.W.dropped['lock (single thread assumed)'] += 1; return
        if self.objcls(t):
            n = self.fresh(nm)
            if e is None: raise Unsupported('heap class local')
            x = self.ex(e); self.emit('let %s = %s in' % (n, x)); self.declare(v['id'], nm, Var(n, t, False)); return
        if t['k'] == 'ptr' and not (pointee(t) is not None and self.objcls(pointee(t))):
            ep = peel(e) if e else None
            if ep and ep['k'] == 'un' and ep['op'] == '&':
                a = Alias(self.freeze(self.lv(ep['e'])), t); a.cont = 'ptr'; self.declare(v['id'], nm, a); return
            self.W.vheap(pointee(t))
        wty = self.W.ty(t)
        if e is None: x = self.W.default(t, False)
        elif e['k'] == 'ctor' and not e['args'] and rn(self.W.norm(t)) not in self.W.P.recs: x = self.W.default(t)
        else: x = self.ex(e)
        n = self.fresh(nm)
        self.emit('let ref %s : %s = %s in' % (n, wty, x) if False else 'let ref %s = (%s : %s) in' % (n, x, wty))
        self.declare(v['id'], nm, Var(n, t, True))
    def do_return(self, e):
        if self.ret:
            if self.ret['void'] or e is None: 
                self.emit('raise %s;' % self.ret['exn']); return
            x = self.ex(e)
            self.emit('raise (%s %s);' % (self.ret['exn'], x)); return
        f = self.f
        if f.get('kind') == 'ctor' or is_void(f['ret']):
            if e is not None: self.effect(e)
            self.ghost('exit')
            self.emit('return %s;' % ('this' if f.get('kind') == 'ctor' and self.this.kind != 'obj' else '()')); return
        if self.objcls(f['ret']): x = self.lvv(e).a
        elif is_iter(f['ret']): c, x = self.itex(e)
        else: x = self.ex(e)
        if self.K and 'exit' in self.K.ghost:
            self.emit('let result_ = %s in' % x); self.ghost('exit', extra={'result': 'result_'}); x = 'result_'
        self.emit('return %s;' % x)
    def st_if(self, s):
        self.push()
        if s.get('init'): self.st(s['init'])
        if s.get('cv'): self.decl(s['cv'])
        c = self.ex(s['c'])
        a = self.block(s['a'])
        if s['b'] is not None:
            b = self.block(s['b'])
            self.emit('if %s then begin\n%s end\nelse begin\n%s end;' % (c, a, b))
        else: self.emit('if %s then begin\n%s end;' % (c, a))
        self.pop()
    def st_switch(self, s):
        x = self.bind_copy(self.ex(s['c']))
        body = s['body']['s'] if s['body']['k'] == 'block' else [s['body']]
        groups = []
        for b in body:
            labels = []
            while b['k'] in ('case', 'default'):
                labels.append(None if b['k'] == 'default' else self.ex(b['v'])); b = b['s']
            if labels: groups.append((labels, [b]))
            elif groups: groups[-1][1].append(b)
            else: raise Unsupported('switch')
        # every group must end in break/return/throw (no fallthrough)
        txt = None; parts = []; dflt = '()'
        for i, (labels, ss) in enumerate(groups):
            ss = [z for z in ss if z['k'] != 'null']
            while ss and ss[-1]['k'] == 'block' and len(ss) == 1: ss = ss[0]['s']
            if ss and ss[-1]['k'] == 'break': core = ss[:-1]
            elif ss and (ss[-1]['k'] in ('return', 'continue') or self.throws(ss[-1])): core = ss
            elif i == len(groups) - 1: core = ss
            else: raise Unsupported('switch fallthrough')
            if scan(core, lambda z: z.get('k') == 'break', []) and not scan(core, lambda z: z.get('k') in ('for', 'while', 'do', 'forrange'), []): raise Unsupported('break in switch')
            t = self.block({'k': 'block', 's': core, 'l': 0})
            if None in labels:
                dflt = t
                if i != len(groups) - 1: raise Unsupported('default not last')
            else: parts.append((labels, t))
        code = dflt
        for labels, t in reversed(parts):
            code = 'if %s then begin\n%s end else begin\n%s end' % (' || '.join('%s = %s' % (x, l) for l in labels), t, code)
        self.emit(code + ';')
    def throws(self, s):
        if s['k'] == 'expr' and peel(s['e'])['k'] == 'throw': return True
        if s['k'] == 'do' and is_do_once(s):
            b = s['body']['s'] if s['body']['k'] == 'block' else [s['body']]
            return bool(b) and self.throws(b[-1])
        return False
    def st_do(self, s):
        if is_do_once(s):
            if self.throws(s):
                self.W.dropped['exception message'] += 1; self.throw(); return
            b = s['body']['s'] if s['body']['k'] == 'block' else [s['body']]
            if all((x['k'] == 'expr' and self.droppable(x['e'])) or x['k'] == 'null' or (x['k'] == 'if' and x['b'] is None and x['a']['k'] in ('expr','block') and self.alldrop(x['a'])) for x in b):
                self.W.dropped['diagnostic output'] += 1; return
            if not scan(s['body'], lambda z: z.get('k') in ('break', 'continue'), []):
                self.st(s['body']); return
        n = self.open_loop(s)
        inv = self.loopspec(n, s, None)
        has_c = self.has_continue(s['body'])
        def body():
            self.ghost('loop %d start' % n)
            self.loop_body(s['body'], has_c)
            c = self.ex(s['c'])
            self.ghost('loop %d end' % n)
            self.emit('if not %s then break;' % c)
            return '()'
        t = self.sub(body)
        self.emit('label L%d in' % n)
        self.emit('while true do\n%slabel I%d in\n%s\ndone;' % (inv, n, t))
        self.close_loop(n)
    def alldrop(self, s):
        if s['k'] == 'block': return all(self.alldrop(x) for x in s['s'])
        return s['k'] == 'null' or (s['k'] == 'expr' and self.droppable(s['e']))
    def has_continue(self, body):
        found = []
        def go(n):
            if isinstance(n, list):
                for x in n: go(x)
            elif isinstance(n, dict):
                if n.get('k') == 'continue': found.append(1)
                if n.get('k') in ('for', 'while', 'do', 'forrange') and 'body' in n: return
                for v in n.values():
                    if isinstance(v, (dict, list)): go(v)
        if body.get('k') in ('for', 'while', 'do', 'forrange'): return False
        go(body); return bool(found)
    def open_loop(self, s):
        self.nloop += 1; self.depth += 1
        n = self.nloop
        self.loopinfo.append((n, self.depth, s["k"]))
        self.inloops.append(n)
        self.ghost('loop %d before' % n)
        return n
    def close_loop(self, n):
        self.depth -= 1; self.inloops.pop()
        self.ghost('loop %d after' % n)
    def loop_body(self, body, has_c):
        if has_c:
            self.ntmp += 1; exn = 'Cont_%d' % self.ntmp
            self.brk = self.brk + ['break']; self.cont = self.cont + ['raise ' + exn]
            t = self.block(body)
            self.emit('begin exception %s in try %s with %s -> () end end;' % (exn, t, exn))
        else:
            self.brk = self.brk + ['break']; self.cont = self.cont + ['continue']
            t = self.block(body)
            if t != '()': self.emit(t + ';')
        self.brk = self.brk[:-1]; self.cont = self.cont[:-1]
    def loopspec(self, n, s, iv, auto=(), variant=None):
        out = []
        for a in auto: out.append('invariant { [@expl:auto loop %d] %s }' % (n, a))
        out.append('(*NPTR %d*)' % n)
        out += self.autoframe(n, s)
        if self.K and n in self.K.loops:
            t = self.spectext(self.K.loops[n], iv)
            if re.search(r'\bvariant\b', t): variant = None
            out.append(t.rstrip())
        if variant: out.append('variant { %s }' % variant)
        return '\n'.join(out) + '\n'
    def autoframe(self, n, s):
        out = []
        # fields of a value 'this' that the loop does not touch
        wf = self.written_fields(s)
        if self.this is not None and self.this.kind == 'var' and getattr(self, 'thiscls', None) and wf is not None:
            w = self.W.rectype(self.thiscls)
            if wf:
                for f, t, c in self.W.allfields(self.thiscls):
                    if f not in wf: out.append('invariant { [@expl:auto frame %d] %s_%s %s = %s_%s (%s at L%d) }' % (n, w, f, self.this.a, w, f, self.this.a, n))
        for id in self.lenpreserved(s):
            b = self.lookup(id)
            if isinstance(b, Var) and b.mut and (is_contbase(self.W.norm(b.ctype))):
                out.append('invariant { [@expl:auto length %d] length %s = length (%s at L%d) }' % (n, b.why, b.why, n))
        return out
    def written_fields(self, s):
        """set of this-fields possibly written in s; None if unknown/none relevant"""
        res = set(); unknown = []
        def target(e):
            e = peel(e); prev = None
            while e is not None:
                if e['k'] == 'this':
                    if prev and prev['k'] == 'mem': res.add(prev['f'])
                    else: unknown.append(1)
                    return
                if e['k'] == 'mem': prev = e; e = peel(e['e'])
                elif e['k'] == 'opcall' and e['args']: prev = e; e = peel(e['args'][0])
                elif e['k'] == 'mcall': prev = e; e = peel(e['obj'])
                elif e['k'] == 'sub': prev = e; e = peel(e['a'])
                elif e['k'] == 'un': prev = e; e = peel(e['e'])
                elif e['k'] == 'ref':
                    b = self.lookup(e['id'])
                    if isinstance(b, Alias) and b.path.kind == 'var' and self.this and b.path.a == self.this.a:
                        if b.path.proj and b.path.proj[0][0] == 'fld': res.add(b.path.proj[0][2])
                        else: unknown.append(1)
                    return
                else: return
        def go(n):
            if isinstance(n, list):
                for x in n: go(x)
                return
            if not isinstance(n, dict): return
            k = n.get('k')
            if k in ('bin', 'cassign') and (k == 'cassign' or n['op'] == '='): target(n['a'])
            elif k == 'un' and n['op'].rstrip('_') in ('++', '--'): target(n['e'])
            elif k == 'opcall' and n['op'] in ASSIGN_OPS and n['args']: target(n['args'][0])
            elif k == 'opcall' and n['op'] == '[]' and n['args'] and is_map(self.W.norm(n['args'][0]['t'])): target(n['args'][0])
            elif k == 'mcall' and not (n['fn'] and n['fn'].get('const')): target(n['obj'])
            elif k == 'forrange' and n['var']['type']['k'] == 'ref' and not n['var']['type']['t'].get('c'): target(n['range'])
            if k in ('call', 'mcall', 'ctor', 'opcall') and n.get('fn'):
                pts = n['fn'].get('pt', []); args = n['args']
                if k == 'opcall' and len(args) == len(pts) + 1: args = args[1:]
                for p, a in zip(pts, args):
                    if not const_param(p): target(a)
            for v in n.values():
                if isinstance(v, (dict, list)): go(v)
        go(s)
        if unknown: return None
        return res
    def lenpreserved(self, s):
        """variables only written through element access in s"""
        elemw = set(); struct = set()
        def target(e):
            e = peel(e)
            inner = False
            while True:
                if e is None: return
                if e['k'] == 'ref':
                    (elemw if inner else struct).add(e['id']); return
                if e['k'] == 'mem': e = peel(e['e'])
                elif e['k'] == 'sub': inner = True; e = peel(e['a'])
                elif e['k'] == 'opcall' and e['op'] == '[]' and e['args']:
                    if is_contbase(self.W.norm(e['args'][0]['t'])): inner = True
                    e = peel(e['args'][0])
                elif e['k'] == 'opcall' and e['args']: e = peel(e['args'][0])
                elif e['k'] == 'mcall': e = peel(e['obj'])
                elif e['k'] == 'un': e = peel(e['e'])
                else: return
        def go(n):
            if isinstance(n, list):
                for x in n: go(x)
                return
            if not isinstance(n, dict): return
            k = n.get('k')
            if k in ('bin', 'cassign') and (k == 'cassign' or n['op'] == '='): target(n['a'])
            elif k == 'un' and n['op'].rstrip('_') in ('++', '--'): target(n['e'])
            elif k == 'opcall' and n['op'] in ASSIGN_OPS and n['args']: target(n['args'][0])
            elif k == 'mcall' and not (n['fn'] and n['fn'].get('const')): 
                m = n['fn']['q'].split('::')[-1] if n['fn'] else ''
                if m not in ('begin', 'end', 'operator[]', 'at', 'back', 'front'): target(n['obj'])
                elif m in ('at', 'back', 'front', 'begin'): pass
            if k in ('call', 'mcall', 'ctor', 'opcall') and n.get('fn'):
                pts = n['fn'].get('pt', []); args = n['args']
                if k == 'opcall' and len(args) == len(pts) + 1: args = args[1:]
                for p, a in zip(pts, args):
                    if not const_param(p): target(a)
            for v in n.values():
                if isinstance(v, (dict, list)): go(v)
        go(s)
        return sorted(elemw - struct)

    def st_for(self, s):
        self.push()
        if s['init']: self.st(s['init'])
        n = self.open_loop(s)
        # the induction variable
        ivb = None
        inc = s['inc']
        incs = []
        def flat(e):
            e = peel(e) if e else None
            if e is None: return
            if e['k'] == 'bin' and e['op'] == ',': flat(e['a']); flat(e['b'])
            else: incs.append(e)
        flat(inc)
        ivs = []
        for x in incs:
            tgt = None
            if x['k'] == 'un' and x['op'].rstrip('_') in ('++', '--'): tgt = peel(x['e'])
            elif x['k'] == 'opcall' and x['op'] in ('++', '--'): tgt = peel(x['args'][0])
            elif x['k'] == 'cassign': tgt = peel(x['a'])
            if tgt is not None and tgt['k'] == 'ref' and self.lookup(tgt['id']) is not None: ivs.append((tgt, x))
        iv = None; variant = None; auto = []
        if ivs:
            b = self.lookup(ivs[0][0]['id'])
            if isinstance(b, (Var, IterVar)): iv = b.why
            else: iv = self.read(b.path)
            up = ivs[0][1]['op'].startswith('++') or ivs[0][1]['op'] == '+='
            bodyw = written_roots(s['body'])
            if ivs[0][0]['id'] not in bodyw and up and isinstance(b, (Var, IterVar)):
                auto.append('(%s at L%d) <= %s' % (iv, n, iv))
            if s['c'] is not None:
                c = s['c']
                if c['k'] == 'bin' and c['op'] in ('<', '<=', '!=') :
                    try:
                        txt, lines = self.pure_or_none(lambda: self.ex(c['b']))
                        rl = peel(c['a']); 
                        while rl['k'] == 'cast': rl = peel(rl['e'])
                        if not lines and up and rl['k'] == 'ref' and rl['id'] == ivs[0][0]['id']:
                            variant = '%s - %s%s' % (self.logictext(txt), iv, ' + 1' if c['op'] == '<=' else '')
                    except Unsupported: pass
                if c['k'] == 'bin' and c['op'] in ('>', '>=') and not up:
                    rl = peel(c['a']); 
                    while rl['k'] == 'cast': rl = peel(rl['e'])
                    if rl['k'] == 'ref' and rl['id'] == ivs[0][0]['id']:
                        try:
                            txt, lines = self.pure_or_none(lambda: self.ex(c['b']))
                            if not lines: variant = '%s - %s + 1' % (iv, self.logictext(txt))
                        except Unsupported: pass
                if c['k'] == 'opcall' and c['op'] in ('!=', '<') and isinstance(b, IterVar) and b.cont and up:
                    try: variant = '%s - %s' % (self.contlen(b.cont, True), iv)
                    except Unsupported: pass
        inv = self.loopspec(n, {'b': s['body'], 'c': s['c'], 'i': s['inc']}, iv, auto, variant)
        has_c = self.has_continue(s['body'])
        def cond(): return self.ex(s['c']) if s['c'] is not None else 'true'
        ct, lines = self.pure_or_none(cond)
        def body():
            if lines:
                self.out += lines; self.emit('if not %s then break;' % ct)
            self.ghost('loop %d start' % n, iv)
            self.loop_body(s['body'], has_c)
            self.ghost('loop %d end' % n, iv)
            if s['inc'] is not None: self.effect(s['inc'])
            return '()'
        t = self.sub(body)
        self.emit('label L%d in' % n)
        self.emit('while %s do\n%slabel I%d in\n%s\ndone;' % ('true' if lines else ct, inv, n, t))
        self.close_loop(n)
        self.pop()
    def logictext(self, t):
        """program text -> logic text for use in variants"""
        t = t.replace('(to_u ', '(')
        t = re.sub(r'\(usub (\S+) (\S+)\)', r'(\1 - \2)', t)
        return t
    def st_while(self, s):
        self.push()
        if s.get('cv'): raise Unsupported('while with declaration')
        n = self.open_loop(s)
        inv = self.loopspec(n, {'b': s['body'], 'c': s['c']}, None)
        has_c = False
        ct, lines = self.pure_or_none(lambda: self.ex(s['c']))
        hc = self.has_continue(s['body'])
        def body():
            if lines: self.out += lines; self.emit('if not %s then break;' % ct)
            self.ghost('loop %d start' % n)
            self.loop_body(s['body'], hc and ('loop %d end' % n) in (self.K.ghost if self.K else {}))
            self.ghost('loop %d end' % n)
            return '()'
        t = self.sub(body)
        self.emit('label L%d in' % n)
        self.emit('while %s do\n%slabel I%d in\n%s\ndone;' % ('true' if lines else ct, inv, n, t))
        self.close_loop(n)
        self.pop()
    def st_range(self, s):
        self.push()
        rt = self.W.norm(s['range']['t'])
        v = s['var']
        c = self.contof(s['range']) if (is_contbase(rt) or is_map(rt) or is_set(rt)) else None
        if c is None: raise Unsupported('range over ' + str(rn(rt)))
        n = self.open_loop(s)
        iv = 'ix%d' % n
        while iv in self.used: iv += '_'
        self.used.add(iv)
        self.emit('let ref %s = 0 in' % iv)
        lenS = self.contlen(c, True); lenP = self.contlen(c)
        ivar = Var(iv, INT, True)
        self.names[-1].append(('ix%d' % n, ivar))
        auto = ['0 <= %s <= %s' % (iv, lenS)]
        inv = self.loopspec(n, {'b': s['body'], 'v': s['var'] , 'k2': 0, 'fr': {'k': 'forrange', 'var': s['var'], 'range': s['range'], 'body': None}}, iv, auto, '%s - %s' % (lenS, iv))
        has_c = self.has_continue(s['body'])
        t = v['type']
        def body():
            self.push()
            j = self.bind_copy(iv)
            p = self.itelem(c, j)
            byref = t['k'] in ('ref', 'rref')
            if self.objcls(t): raise Unsupported('range of heap objects by value')
            if byref: self.declare(v['id'], v['name'], Alias(p, t))
            else:
                init = v['init']
                nm = self.fresh(v['name'])
                val = self.read(p)
                et = None
                ct_ = self.W.norm(rt)
                if is_contbase(ct_): et = elem(ct_)
                elif is_set(ct_): et = ct_['a'][0]
                if et is not None and self.W.ty(et) != self.W.ty(t):
                    if is_int(et) and is_real(t): val = '(of_int %s)' % val
                    elif is_bool(et) and is_int(t): val = '(if %s then 1 else 0)' % val
                    else: raise Unsupported('range element conversion')
                self.emit('let ref %s = %s in' % (nm, val)); self.declare(v['id'], v['name'], Var(nm, t, True))
            self.ghost('loop %d start' % n, iv)
            self.loop_body(s['body'], has_c)
            self.ghost('loop %d end' % n, iv)
            self.pop()
            self.emit('%s <- %s + 1;' % (iv, iv))
            return '()'
        txt = self.sub(body)
        self.emit('label L%d in' % n)
        self.emit('while %s < %s do\n%slabel I%d in\n%s\ndone;' % (iv, lenP, inv, n, txt))
        self.close_loop(n)
        self.pop()

    # ------------------------------------------------------------ whole function
    def translate(self):
        f = self.f; W = self.W
        self.push()
        pnames = []
        written = written_roots(f['body']) if f['body'] else set()
        pre = []
        self.thiscls = None
        isctor = f.get('kind') == 'ctor'
        if f.get('cls') and not f.get('static'):
            if f['cls'] in W.heapcls: self.this = Path('obj', 'this')
            else:
                self.this = Path('var', 'this'); self.thiscls = f['cls']; W.ty({'k': 'rec', 'n': f['cls']})
                if W.derived_cont(f['cls']): self.thiscls = None
            self.used.add('this')
        for i, p in enumerate(f['params']):
            nm = p['name'] or 'unnamed%d' % i
            n = self.fresh(nm)
            pt = p['type']
            if self.objcls(pt):
                b = Var(n, pt, False)
            elif is_iter(pt): raise Unsupported('iterator parameter')
            elif pt['k'] == 'ptr' and not (pointee(pt) is not None and self.objcls(pointee(pt))):
                raise Unsupported('pointer parameter')
            elif not const_param(pt): b = Var(n, pt, True)
            else:
                b = Var(n, pt, False)
                if pt['k'] not in ('ref', 'rref') and p['id'] in written:
                    pre.append('let ref %s = %s in' % (n, n)); b.mut = True
            W.ty(pt)
            self.declare(p['id'], p['name'], b)
        for l in pre: self.emit(l)
        self.emit('label Entry in')
        if isctor and self.this.kind != 'obj':
            self.emit('let ref this = %s in' % W.default({'k': 'rec', 'n': f['cls']}, False))
        self.ghost('entry')
        if isctor: self.ctor_inits(f)
        body = f['body']['s'] if f['body']['k'] == 'block' else [f['body']]
        for s in body: self.st(s)
        isvoid = is_void(f['ret'])
        last = body[-1] if body else None
        if isctor and self.this.kind != 'obj':
            self.ghost('exit'); self.emit('return this')
        elif isvoid or isctor:
            self.ghost('exit'); self.emit('return ()')
        else: self.emit('absurd')
        return '\n'.join(self.out)
