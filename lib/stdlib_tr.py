"""The C++ standard library operations the extraction understands, as operations of why/cxx.mlw."""
import re
from base import *

def _arrowobj(self, e):
    o = peel(e['obj'])
    if e['arrow']:
        if o['k'] == 'this': return self.this
        if o['k'] == 'un' and o['op'] == '&': return self.lv(o['e'])
        if o['k'] == 'opcall' and o['op'] == '->': return self.lv(o)
        if o['k'] == 'ref':
            b = self.lookup(o['id'])
            if isinstance(b, Alias) and b.cont == 'ptr': return b.path
        if is_iter(o['t']): c, i = self.itex(o); return self.itelem(c, i)
        return self.vobj(o)
    return self.lvv(o)
def _objtype(self, e):
    t = strip(e['obj']['t'])
    if t['k'] == 'ptr': t = t['t']
    return self.W.norm(t)

def std_mlv(self, e):
    if e['fn'] is None: return None
    if fkey(e['fn']) in self.W.P.fns: return None
    m = e['fn']['q'].split('::')[-1]; t = _objtype(self, e); a = e['args']
    if is_contbase(t):
        if m == 'at' or m == 'operator[]': return _arrowobj(self, e).plus('idx', self.ex(a[0]))
        if m in ('back', 'top') :
            p = _arrowobj(self, e); return p.plus('idx', self.bind('(usub (length %s) 1)' % self.read(p), 'j'))
        if m == 'front': return _arrowobj(self, e).plus('idx', '0')
        if m in ('append', 'assign', 'operator=') and is_str(t): self.effect(e); return self.lv(e['obj'])
    if is_map(t) and m == 'at':
        p = _arrowobj(self, e); return p.plus('mval', self.bind(self.ex(a[0]), 'k'))
    if rn(t) in PTRS and m == 'get': return None
    if m == 'str' and is_ost(t): return None
    return None

def ex_mcall(self, e):
    fn = e['fn']
    if fn is None: raise Unsupported('member pointer call')
    key = fkey(fn)
    if key in self.W.P.fns or self.W.contract_for(key): return self.call_any(e, 'ex')
    m = fn['q'].split('::')[-1]; t = _objtype(self, e); a = e['args']
    if is_contbase(t):
        if m in ('size', 'length'): return '(length %s)' % self.read(_arrowobj(self, e))
        if m == 'empty': return '(length %s = 0)' % self.read(_arrowobj(self, e))
        if m in ('c_str', 'data') and is_str(t): return self.read(_arrowobj(self, e))
        if m == 'substr':
            x = self.read(_arrowobj(self, e)); y = self.exs(a)
            if len(y) == 1 or y[1] == 'npos': return '(str_suffix %s %s)' % (x, y[0])
            return '(str_substr %s %s %s)' % (x, y[0], y[1])
        if m == 'find' and is_str(t):
            x = self.read(_arrowobj(self, e)); y = self.exs(a)
            st = y[1] if len(y) > 1 else '0'
            if is_int(a[0]['t']): return '(str_find_char %s %s %s)' % (x, y[0], st)
            return '(str_find %s %s %s)' % (x, y[0], st)
        if m == 'compare' : raise Unsupported('compare')
        if m in ('back', 'front', 'at', 'top', 'operator[]'): return self.read(self.std_mlv(e))
        if m in ('begin', 'end', 'cbegin', 'cend', 'insert', 'erase'): return self.itex(e)[1]
        if m in ('capacity',): return '(any int)'
        if m in ('append', 'assign', 'operator+=') and is_str(t):
            self.effect(e); return self.read(self.lv(e['obj']))
    if is_map(t) or is_set(t):
        pre = 'fm' if is_map(t) else 'fs'
        if m == 'size': return '(length (%s_keys %s))' % (pre, self.read(_arrowobj(self, e)))
        if m == 'empty': return '(length (%s_keys %s) = 0)' % (pre, self.read(_arrowobj(self, e)))
        if m == 'count':
            x = self.read(_arrowobj(self, e)); return '(if %s_mem %s %s then 1 else 0)' % (pre, x, self.ex(a[0]))
        if m in ('begin', 'end', 'find', 'cbegin', 'cend'): return self.itex(e)[1]
        if m == 'at': return self.read(self.std_mlv(e))
        if m == 'insert':
            p = self.freeze(_arrowobj(self, e)); x = self.bind(self.ex(a[0]))
            r = self.tmp('ins')
            if is_map(t):
                self.emit('let %s = not (fm_mem %s (p1 %s)) in' % (r, self.read(p), x))
                self.write(p, '(fm_insert %s (p1 %s) (p2 %s))' % (self.read(p), x, x))
                self.havoc_iters(p)
                return '(mkp (fm_find %s (p1 %s)) %s)' % (self.read(p), x, r)
            self.emit('let %s = not (fs_mem %s %s) in' % (r, self.read(p), x))
            self.write(p, '(fs_add %s %s)' % (self.read(p), x)); self.havoc_iters(p)
            return '(mkp (fs_find %s %s) %s)' % (self.read(p), x, r)
        if m == 'erase':
            self.effect(e); return '(any int)'
    if is_ost(t) and m == 'str' and not a: return self.read(_arrowobj(self, e))
    if rn(t) in PTRS:
        if m == 'get': return self.read(_arrowobj(self, e))
        if m in ('operator bool',): return '(%s <> 0)' % self.read(_arrowobj(self, e))
        if m == 'reset': self.effect(e); return '()'
    if rn(t) == 'std::_Bit_reference' and m == 'operator bool': return self.ex(e['obj'])
    if m == 'operator bool' or m == 'operator!':
        x = self.ex(e['obj'])
        return ('(is_ok %s)' if m == 'operator bool' else '(not (is_ok %s))') % x
    if rn(t) in ('std::basic_ios', 'std::ios_base') or m in ('operator bool', 'eof', 'good', 'fail'):
        raise Unsupported('stream state')
    if fn.get('conv'): return self.read(_arrowobj(self, e))
    if m in MUTATORS: self.effect(e); return '()'
    raise Unsupported('method ' + fn['q'])

def seq_insert_erase(self, e, m, c, pos):
    a = e['args']; p = c[1]; s = self.read(p)
    if m == 'insert':
        if len(a) == 2: 
            x = self.ex(a[1]); new = '(seq_insert %s %s %s)' % (s, pos, x)
        elif len(a) == 3 and is_iter(a[1]['t']):
            c2, i = self.itex(a[1]); c3, j = self.itex(a[2])
            src = self.read(c2[1])
            if c2[0] == 'set': src = '(fs_keys %s)' % src
            new = '(seq_insert_seq %s %s (%s[%s .. %s]))' % (s, pos, src, i, j)
        elif len(a) == 3:
            x, y = self.exs(a[1:]); new = '(seq_insert_seq %s %s (seq_fill %s %s))' % (s, pos, x, y)
        else: raise Unsupported('insert')
    else:
        if len(a) == 1: new = '(seq_erase %s %s)' % (s, pos)
        else:
            c2, j = self.itex(a[1]); new = '(seq_erase_range %s %s %s)' % (s, pos, j)
    self.write(p, new)
    self.havoc_iters(p)

def ex_call(self, e):
    fn = e['fn']
    if fn is None: raise Unsupported('indirect call')
    key = fkey(fn)
    if key in self.W.P.fns or self.W.contract_for(key): return self.call_any(e, 'ex')
    q = fn['q']; a = e['args']
    n = q.split('::')[-1]
    if q in ('std::max', 'std::min', 'std::fmax', 'std::fmin', 'fmax', 'fmin') and len(a) == 2:
        x, y = self.exs(a)
        s = '_real' if is_real(e['t']) else '_int' if is_int(e['t']) else None
        if s is None: raise Unsupported(q)
        return '(cxx_%s%s %s %s)' % (n[-3:], s, x, y)
    if n in ('abs', 'fabs', 'labs') and len(a) == 1:
        return '(abs_%s %s)' % ('real' if is_real(e['t']) else 'int', self.ex(a[0]))
    if n in ('exp', 'log', 'sqrt', 'log10', 'expf', 'logf', 'sqrtf', 'floor', 'ceil', 'tanh') and len(a) == 1: return '(m_%s %s)' % (n.rstrip('f') if n not in ('expf',) else 'exp', self.ex(a[0]))
    if n == 'pow' and len(a) == 2: x, y = self.exs(a); return '(m_pow %s %s)' % (x, y)
    if n in ('isnan', '__builtin_isnan', 'isinf'): x = self.ex(a[0]); return 'false'
    if n in ('isfinite',): return 'true'
    if n == 'make_pair':
        x, y = self.exs(a); return '(mkp %s %s)' % (x, y)
    if n in ('move', 'forward') and len(a) == 1: return self.ex(a[0])
    if q in ('std::lower_bound', 'std::upper_bound', 'std::find', 'std::max_element', 'std::min_element') and is_iter(e['t']): return self.itex(e)[1]
    if q == 'std::distance':
        c, i = self.itex(a[0]); c2, j = self.itex(a[1]); return '(%s - %s)' % (j, i)
    if q == 'std::binary_search':
        c, i = self.itex(a[0]); c2, j = self.itex(a[1]); x = self.ex(a[2])
        return '(seq_find_in %s %s %s %s < %s)' % (self.read(c[1]), i, j, x, j)
    if q == 'std::accumulate' and len(a) == 3:
        c, i = self.itex(a[0]); c2, j = self.itex(a[1]); x = self.ex(a[2])
        sfx = 'real' if is_real(e['t']) else 'int'
        return '(seq_acc_%s %s %s %s %s)' % (sfx, self.read(c[1]), i, j, x)
    if q == 'std::equal' and len(a) == 3:
        c, i = self.itex(a[0]); c2, j = self.itex(a[1]); c3, k = self.itex(a[2])
        return '(seq_equal_range %s %s %s %s %s)' % (self.read(c[1]), i, j, self.read(c3[1]), k)
    if q == 'std::numeric_limits::max' or q.endswith('numeric_limits::max'):
        return 'real_max' if is_real(e['t']) else 'int_max'
    if q.endswith('numeric_limits::infinity'): return 'real_inf'
    if q.endswith('numeric_limits::min') or q.endswith('numeric_limits::lowest'): 
        if is_real(e['t']): return 'real_lowest' if q.endswith('lowest') else 'real_minpos'
        return 'int_min'
    if n in ('__builtin_huge_val', '__builtin_inf', '__builtin_huge_valf', '__builtin_inff'): return 'real_inf'
    if n == 'isspace': return '(is_space %s)' % self.ex(a[0])
    if n == 'verif_reverse': return '(seq_reverse %s)' % self.ex(a[0])
    if n in ('rand', 'random'): return '(c_rand ())'
    if n == 'to_string' or (n == 'lexical_cast' and is_str(e['t'])):
        return self.fmt(a[0])
    if n == 'lexical_cast' and len(a) == 1 and is_str(a[0]['t']) and (is_real(e['t']) or is_int(e['t']) and not is_bool(e['t'])):
        x = self.ex(a[0]); self.eff.throws = True; r = self.tmp('r'); self.emit('let %s = lex_%s %s in' % (r, 'real' if is_real(e['t']) else 'int', x)); return r
    if n in ('atoi', 'stoi') : return '(str_to_int %s)' % self.ex(a[0])
    if n in ('atof', 'stod', 'strtod'): return '(str_to_real %s)' % self.ex(a[0])
    if n in ('find', 'swap', 'sort', 'getline', 'reverse', 'copy', 'fill', 'unique'):
        if self.std_effect(e): return '()'
    raise Unsupported('call ' + q + ' ' + fn['sig'][:80])

def fmt(self, e):
    e = peel(e); t = self.W.norm(e['t'])
    if t['k'] == 'fn' or e['k'] == 'fnref':
        if e.get('name') == 'endl': return '(singleton 10)'
        raise Unsupported('manipulator')
    if is_str(t) or e['k'] == 'str': return self.ex(e)
    if e['k'] == 'cast' and e['ck'] == 'ArrayToPointerDecay': return self.ex(e)
    if t['k'] == 'ptr' and is_b(t['t'], {'char'}): return self.ex(e)
    if is_b(t, {'char', 'signed char', 'unsigned char'}): return '(singleton %s)' % self.ex(e)
    if is_bool(t): return '(itoa (if %s then 1 else 0))' % self.ex(e)
    if is_int(t): return '(itoa %s)' % self.ex(e)
    if is_real(t): return '(dtoa %s)' % self.ex(e)
    if is_ost(t): return self.ex(e)
    raise Unsupported('format of ' + str(rn(t)))

def stream_out(self, e):
    """a << b << c on an output stream; returns the stream path"""
    e = peel(e)
    if e['k'] == 'opcall' and e['op'] == '<<' and not (fkey(e['fn']) in self.W.P.fns if e['fn'] else False):
        p = self.stream_out(e['args'][0])
        b = peel(e['args'][1])
        if b['k'] == 'fnref' and b['name'] == 'flush' : return p
        x = self.fmt(e['args'][1])
        self.write(p, '(%s ++ %s)' % (self.read(p), x))
        return p
    if e['k'] == 'opcall' and e['op'] == '<<':
        p = self.stream_out(e['args'][0])
        self.call_stream(e, p)
        return p
    if e['k'] == 'mcall' and e['fn'] and e['fn']['q'].endswith('::flush'): return self.stream_out(e['obj'])
    if e['k'] == 'mcall' and e['fn'] and e['fn']['q'].endswith('::operator<<'):
        p = self.stream_out(e['obj']); x = self.fmt(e['args'][0])
        self.write(p, '(%s ++ %s)' % (self.read(p), x)); return p
    p = self.lv(e)
    if not is_ost(e['t']): raise Unsupported('<< on ' + str(rn(e['t'])))
    return self.freeze(p)

def stream_in(self, e):
    """a >> b >> c on an input stream; returns the stream path"""
    e = peel(e)
    if e['k'] == 'mcall' and e['fn'] and e['fn']['q'].endswith('::operator>>'):
        p = self.stream_in(e['obj']); tgt = e['args'][0]
    elif e['k'] == 'opcall' and e['op'] == '>>':
        if e['fn'] and fkey(e['fn']) in self.W.P.fns: raise Unsupported('user >>')
        p = self.stream_in(e['args'][0]); tgt = e['args'][1]
    else:
        p = self.lv(e)
        if rn(e['t']) not in ISTREAMS: raise Unsupported('>> on ' + str(rn(e['t'])))
        return self.freeze(p)
    t = self.W.norm(tgt['t'])
    s = self.bind_copy(self.read(p)); q = self.freeze(self.lv(tgt)); old = self.bind_copy(self.read(q))
    kind = 'str' if is_str(t) else 'chr' if is_b(t, {'char'}) else 'int' if is_int(t) and not is_bool(t) else 'real' if is_real(t) else None
    if kind is None: raise Unsupported('>> to ' + str(t)[:60])
    self.write(q, '(is_get_%s %s %s)' % (kind, s, old)); self.write(p, '(is_next_%s %s)' % (kind, s))
    if is_str(t): self.havoc_iters(q)
    return p

def std_effect(self, e):
    """effectful std operation in statement position; True if handled"""
    k = e['k']; fn = e['fn']
    if fn is not None and (fkey(fn) in self.W.P.fns or self.W.contract_for(fkey(fn))):
        if k == 'opcall' and e['op'] == '<<' and is_ost(e['args'][0]['t']):
            a0 = peel(e['args'][0])
            if a0['k'] == 'opcall' and a0['op'] == '<<': 
                p = self.stream_out(a0)   # then the /repo operator on the same stream
        return False
    a = e['args']
    if k == 'opcall':
        op = e['op']; t = self.W.norm(a[0]['t'])
        if op == '=':
            if is_iter(t): self.assign_iter(a[0], a[1]); return True
            if rn(t) in PTRS or is_contbase(t) or is_map(t) or is_set(t) or is_pair(t) or (rn(t) in self.W.P.recs and rn(t) not in self.W.heapcls):
                v = self.ex(a[1])
                if is_pair(t) and is_pair(self.W.norm(a[1]['t'])):
                    s = self.W.norm(a[1]['t'])
                    if self.W.ty(s) != self.W.ty(t):
                        pv = self.bind(v)
                        def conv(x, st, dt): 
                            if self.W.ty(st) == self.W.ty(dt): return x
                            if is_int(st) and is_real(dt): return '(of_int %s)' % x
                            raise Unsupported('pair conversion')
                        v = '(mkp %s %s)' % (conv('(p1 %s)' % pv, s['a'][0], t['a'][0]), conv('(p2 %s)' % pv, s['a'][1], t['a'][1]))
                if is_str(t) and is_int(a[1]['t']): v = '(singleton %s)' % v
                n0 = len(self.out); p = self.lv(a[0])
                if len(self.out) > n0 and self.is_mut_name(v):
                    late = self.out[n0:]; self.out = self.out[:n0]; v = self.bind(v, 'a'); self.out += late
                self.write(p, v)
                if is_contbase(t) or is_map(t) or is_set(t): self.havoc_iters(p)
                return True
            if rn(t) in self.W.heapcls:
                # implicit copy assignment, field by field
                src = self.bind(self.ex(a[1]), 'p'); dst = self.bind(self.ex(a[0]), 'p')
                for f, ft, c in self.W.allfields(rn(t)):
                    h = self.W.heap(rn(t), f); self.hwrite(h)
                    self.emit('%s <- hset %s %s (hget %s %s);' % (h, h, dst, h, src))
                return True
            if rn(t) == 'std::_Bit_reference':
                v = self.ex(a[1]); n0 = len(self.out); p = self.lv(a[0])
                if len(self.out) > n0 and self.is_mut_name(v):
                    late = self.out[n0:]; self.out = self.out[:n0]; v = self.bind(v, 'a'); self.out += late
                self.write(p, v)
                return True
            raise Unsupported('assignment of ' + str(rn(t)))
        if op in ('++', '--') and is_iter(t):
            c, i = self.itex(a[0]); p = self.lv(a[0]); self.write(p, '(%s %s 1)' % (i, op[0])); return True
        if op in ('+=', '-=') and is_iter(t):
            x = self.ex(a[1]); c, i = self.itex(a[0]); p = self.lv(a[0]); self.write(p, '(%s %s %s)' % (i, op[0], x)); return True
        if op == '+=' and is_str(t):
            p = self.freeze(self.lv(a[0])); x = self.ex(a[1])
            self.write(p, ('(snoc %s %s)' if is_int(a[1]['t']) else '(%s ++ %s)') % (self.read(p), x)); return True
        if op == '<<':
            self.stream_out(e); return True
        if op == '>>' and fn is not None and fkey(fn) not in self.W.P.fns and (rn(t) in ISTREAMS):
            stream_in(self, e); return True
        return False
    if k == 'mcall' and fn is not None:
        m = fn['q'].split('::')[-1]; t = _objtype(self, e)
        if is_contbase(t):
            if m not in MUTATORS and m not in ('sort', 'reverse', 'shrink_to_fit'): return False
            p = self.freeze(_arrowobj(self, e)); s = lambda: self.read(p)
            if m in ('reserve', 'shrink_to_fit'): return True
            if m in ('push_back', 'push', 'emplace_back'):
                if m == 'emplace_back': raise Unsupported(m)
                x = self.ex(a[0]); self.write(p, '(snoc %s %s)' % (s(), x))
            elif m in ('push_front',): x = self.ex(a[0]); self.write(p, '(cons %s %s)' % (x, s()))
            elif m in ('pop_back',) or (m == 'pop' and rn(t) == 'std::stack'): self.write(p, '(seq_pop_back %s)' % s())
            elif m == 'pop_front' or (m == 'pop' and rn(t) == 'std::queue'): self.write(p, '(seq_pop_front %s)' % s())
            elif m == 'clear': self.write(p, '(empty: %s)' % self.W.ty(t))
            elif m == 'resize':
                xs = [self.bind(self.ex(a[0]))]
                v = self.ex(a[1]) if len(a) > 1 else self.defval(elem(t))
                self.write(p, '(seq_resize %s %s %s)' % (s(), xs[0], v))
            elif m == 'assign' and len(a) == 2 and is_int(a[0]['t']): x, y = self.exs(a); self.write(p, '(seq_fill %s %s)' % (x, y))
            elif m in ('insert', 'erase'):
                if not is_iter(a[0]['t']): raise Unsupported('string insert/erase')
                self.itex(e); return True
            elif m == 'append' and len(a) == 1: x = self.ex(a[0]); self.write(p, '(%s ++ %s)' % (s(), x))
            elif m == 'append' and len(a) == 2 and is_int(a[0]['t']): x, y = self.exs(a); self.write(p, '(%s ++ (seq_fill %s %s))' % (s(), x, y))
            elif m == 'swap':
                q = self.freeze(self.lvv(a[0])); t1 = self.bind_copy(s()); t2 = self.bind_copy(self.read(q))
                if p.kind != 'text': self.write(p, t2)
                if q.kind != 'text': self.write(q, t1)
                self.havoc_iters(q)
            else: raise Unsupported('container method ' + m)
            self.havoc_iters(p)
            return True
        if is_map(t) or is_set(t):
            if m not in MUTATORS: return False
            p = self.freeze(_arrowobj(self, e)); pre = 'fm' if is_map(t) else 'fs'
            if m == 'clear': self.write(p, '(%s_empty: %s)' % (pre, self.W.ty(t)))
            elif m == 'erase':
                if len(a) == 1 and is_iter(a[0]['t']):
                    c, i = self.itex(a[0]); x = self.bind('((%s_keys %s)[%s])' % (pre, self.read(p), i), 'k')
                else: x = self.ex(a[0])
                self.write(p, '(%s_remove %s %s)' % (pre, self.read(p), x))
            elif m == 'insert' and len(a) == 1 and not is_iter(a[0]['t']):
                if is_map(t):
                    x = self.bind(self.ex(a[0])); self.write(p, '(fm_insert %s (p1 %s) (p2 %s))' % (self.read(p), x, x))
                else:
                    x = self.ex(a[0]); self.write(p, '(fs_add %s %s)' % (self.read(p), x))
            elif m == 'insert' and len(a) == 2 and is_iter(a[0]['t']) and is_set(t):
                c, i = self.itex(a[0]); c2, j = self.itex(a[1]); src = self.read(c[1])
                if c[0] == 'set': src = '(fs_keys %s)' % src
                self.write(p, '(fs_add_all %s (%s[%s .. %s]))' % (self.read(p), src, i, j))
            elif m == 'swap':
                q = self.freeze(self.lvv(a[0])); t1 = self.bind_copy(self.read(p)); t2 = self.bind_copy(self.read(q))
                self.write(p, t2); self.write(q, t1)
            elif m == 'reserve': return True
            else: raise Unsupported('map method ' + m)
            self.havoc_iters(p)
            return True
        if rn(t) in PTRS:
            if m == 'reset':
                p = self.freeze(_arrowobj(self, e))
                self.write(p, self.ex(a[0]) if a else '0'); return True
        if is_ost(t) and m in ('flush', 'precision', 'setf', 'width'): return True
        if is_ost(t) and m == 'operator<<': self.stream_out(e); return True
        return False
    if k == 'call' and fn is not None:
        q = fn['q']; n = q.split('::')[-1]
        if q == 'std::swap' or q == 'std::iter_swap':
            if is_iter(a[0]['t']): raise Unsupported('iter swap')
            p = self.freeze(self.lv(a[0])); r = self.freeze(self.lv(a[1]))
            t1 = self.bind_copy(self.read(p)); t2 = self.bind_copy(self.read(r))
            self.write(p, t2); self.write(r, t1); return True
        if q in ('std::sort', 'std::stable_sort', 'std::reverse', 'std::fill'):
            c, i = self.itex(a[0]); c2, j = self.itex(a[1])
            if c[0] != 'seq': raise Unsupported(q)
            rev = False
            # element type
            et = self.elemty(c, a[0])
            s = self.read(c[1])
            if q == 'std::fill': self.write(c[1], '(seq_fill_range %s %s %s %s)' % (s, i, j, self.ex(a[2]))); return True
            whole = i == '0' and j == self.contlen(c)
            if not whole: raise Unsupported(q + ' on a sub-range')
            if q == 'std::reverse': self.write(c[1], '(seq_reverse %s)' % s); return True
            if len(a) == 3:
                cmp_ = peel(a[2]); name = None
                nm = rn(cmp_['t']) or (cmp_.get('name') if cmp_['k'] == 'fnref' else None)
                if nm and nm.endswith('std::greater'): self.write(c[1], '(seq_sort_desc%s %s)' % (self.cmpsuffix(et), s)); return True
                if nm: self.write(c[1], '(seq_sort_by_%s %s)' % (lname(nm), s)); return True
                raise Unsupported('sort comparator')
            self.write(c[1], '(seq_sort%s %s)' % (self.cmpsuffix(et), s)); return True
        if q == 'std::getline':
            raise Unsupported('getline')
        if n in ('exit', 'abort', '__assert_fail'): self.throw(); return True
        if n in ('srand', 'printf', 'fprintf'): 
            for x in a: pass
            return True
        return False
    return False
