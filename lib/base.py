"""cxx2why: mechanical translation of the C++ functions of /repo (typed clang AST, see
extract/cxxdump.cpp) into WhyML, with contracts attached from specs/*.spec.

The translation is syntax directed and total on the subset it supports; anything outside raises
Unsupported, and the function is then reported as *not extracted* (never as proved).

Semantics chosen (also listed as assumptions in the evidence):
  int/unsigned/size_t/char/enum -> mathematical int   (unsigned subtraction and signed->unsigned
                                   conversion carry a proof obligation "does not wrap")
  float/double                  -> mathematical real
  std::string                   -> sequence of ints (chars);  std::vector/list/deque -> sequence
  std::pair                     -> pair;  std::map/unordered_map/set -> finite map / set with a
                                   key enumeration (specs in why/cxx.mlw)
  value classes                 -> immutable records held in references
  heap classes                  -> integer addresses, one global map per field
  C++ references                -> access paths, resolved statically
  BOOST_FOREACH                 -> range-for (shim header)
  exceptions                    -> WhyML exception CxxThrow (message text dropped)
"""
import re, json, collections

class Unsupported(Exception):
    pass

KEYWORDS = set('''abstract absurd alias any as assert assume at axiom begin break by check clone coinductive
constant continue diverges do done downto else end ensures epsilon exception exists export false float for
forall fun function ghost goal if import in inductive invariant label lemma let match meta module
mutable not old partial predicate private pure raise raises range reads rec ref requires result return
returns scope so then theory to true try type use val variant while with writes
empty length get set snoc cons singleton create map int real bool pair keys mem find exp log sqrt abs
div mod min max fst snd p1 p2 mkp default this sum'''.split())

def sane(n):
    n = re.sub(r'[^A-Za-z0-9_]', '_', n)
    if not n: n = 'anon'
    if n == 'this': return 'this'
    if n[0].isupper() or n[0] == '_' and False or n in KEYWORDS or n[0].isdigit():
        n = 'v_' + n
    if re.match(r'_+[0-9]', n): n = 'v' + n
    return n

def lname(n):
    n = re.sub(r'[^A-Za-z0-9_]', '_', n.split('::')[-1])
    return n[0].lower() + n[1:]

# ----------------------------------------------------------------- types
INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'signed char',
        'unsigned char', 'long long', 'unsigned long long', 'wchar_t', '__int128', 'unsigned __int128'}
UNS = {'unsigned int', 'unsigned long', 'unsigned short', 'unsigned long long'}
REALS = {'float', 'double', 'long double'}
SEQS = {'std::vector', 'std::deque', 'std::list', 'std::stack', 'std::queue'}
STRS = {'std::basic_string', 'std::__cxx11::basic_string'}
MAPS = {'std::map', 'std::unordered_map', 'boost::unordered::unordered_map', 'boost::unordered_map', 'std::tr1::unordered_map'}
SETS = {'std::set', 'std::unordered_set', 'boost::unordered::unordered_set', 'boost::unordered_set', 'std::tr1::unordered_set'}
PTRS = {'std::shared_ptr', 'boost::shared_ptr', 'boost::scoped_ptr', 'std::unique_ptr', 'boost::scoped_array'}
OSTREAMS = {'std::basic_ostringstream', 'std::__cxx11::basic_ostringstream', 'std::basic_ostream',
            'std::basic_stringstream', 'std::__cxx11::basic_stringstream'}
ISTREAMS = {'std::basic_istream', 'std::basic_istringstream', 'std::__cxx11::basic_istringstream'}

def strip(t):
    while t and t['k'] in ('ref', 'rref'):
        t = t['t']
    return t
def is_b(t, names):
    t = strip(t); return t and t['k'] == 'b' and t['n'] in names
def is_int(t): return is_b(t, INTS) or strip(t)['k'] == 'enum'
def is_bool(t): return is_b(t, {'bool', '_Bool'})
def is_real(t): return is_b(t, REALS)
def is_void(t): return t is None or (t['k'] == 'b' and t['n'] == 'void')
def rn(t):
    t = strip(t)
    return t['n'] if t and t['k'] == 'rec' else None
def is_str(t): return rn(t) in STRS
def is_seq(t): return rn(t) in SEQS
def is_map(t): return rn(t) in MAPS
def is_set(t): return rn(t) in SETS
def is_pair(t): return rn(t) == 'std::pair'
def is_ost(t): return rn(t) in OSTREAMS
def is_ptr(t): return strip(t)['k'] == 'ptr' or rn(t) in PTRS
def pointee(t):
    t = strip(t)
    if t['k'] == 'ptr': return strip(t['t'])
    if rn(t) in PTRS: return t['a'][0]
ITERS = ('iterator', '_Rb_tree_iterator', '_Rb_tree_const_iterator', '_Node_iterator', '_Node_const_iterator',
         '_List_iterator', '_List_const_iterator', '_Deque_iterator', 'iterator_base', 'c_iterator', '__normal_iterator')
def is_iter(t):
    n = rn(t)
    return bool(n) and (n.split('::')[-1] in ITERS or n.endswith('::iterator') or n.endswith('::c_iterator')) and n != 'std::iterator'
def is_contbase(t): return is_seq(t) or is_str(t)
CHAR = {'k': 'b', 'n': 'char'}
INT = {'k': 'b', 'n': 'int'}
BOOL = {'k': 'b', 'n': 'bool'}
REAL = {'k': 'b', 'n': 'double'}
ULONG = {'k': 'b', 'n': 'unsigned long'}
def elem(t):
    t = strip(t)
    if is_str(t): return CHAR
    return t['a'][0]

# ----------------------------------------------------------------- program database
class Prog:
    def __init__(self):
        self.fns = {}          # key -> function json
        self.byq = collections.defaultdict(list)
        self.recs = {}
        self.globals = {}
    def load(self, js):
        for f in js['functions']:
            k = fkey(f)
            if k not in self.fns:
                self.fns[k] = f
                self.byq[f['q']].append(k)
        for n, r in js['records'].items():
            self.recs.setdefault(n, r)
        for g in js['globals']:
            if g['q'] not in self.globals or (self.globals[g['q']].get('init') is None):
                self.globals[g['q']] = g

def fkey(f):
    return f['q'] + '|' + f['sig']

# ----------------------------------------------------------------- paths
class Path:
    __slots__ = ('kind', 'a', 'b', 'proj')
    def __init__(self, kind, a, b=None, proj=()):
        self.kind = kind; self.a = a; self.b = b; self.proj = tuple(proj)
    def plus(self, *p): return Path(self.kind, self.a, self.b, self.proj + (p,))

class Var:     # a Why3 variable
    def __init__(self, why, ctype, mut): self.why = why; self.ctype = ctype; self.mut = mut; self.cont = None
class Alias:
    def __init__(self, path, ctype): self.path = path; self.ctype = ctype; self.cont = None
class IterVar:
    def __init__(self, why, ctype, cont): self.why = why; self.ctype = ctype; self.cont = cont

class Eff:
    def __init__(self): self.reads = {}; self.writes = {}; self.throws = False
    def copy(self):
        e = Eff(); e.reads = dict(self.reads); e.writes = dict(self.writes); e.throws = self.throws; return e

class World:
    """Everything needed to print WhyML for one spec unit."""
    def __init__(self, prog, spec):
        self.P = prog; self.spec = spec
        self.typedecls = collections.OrderedDict()   # why type name -> decl text
        self.heaps = collections.OrderedDict()        # heap/global var name -> why type
        self.eff = {}                                 # key -> Eff
        self.heapcls = set(spec.heapcls)
        self.used_std = set()
        self.dropped = collections.Counter()
        self.inlined = collections.Counter()

    # ---- types
    def derived_cont(self, n):
        r = self.P.recs.get(n)
        if r and len(r['bases']) == 1 and not r['fields'] and (is_contbase(r['bases'][0]) or is_map(r['bases'][0]) or is_set(r['bases'][0]) or is_pair(r['bases'][0]) or rn(r['bases'][0]) in self.P.recs):
            return r['bases'][0]
        return None
    def norm(self, t):
        """canonical C++ type with field-less wrappers of a container replaced by the container"""
        t = strip(t)
        n = rn(t)
        while n and n in self.P.recs:
            b = self.derived_cont(n)
            if b is None: return t
            t = strip(b); n = rn(t)
        return t
    def ty(self, t):
        t = self.norm(t)
        if t is None: return 'unit'
        k = t['k']
        if k == 'b':
            if t['n'] in INTS: return 'int'
            if t['n'] in REALS: return 'real'
            if t['n'] in ('bool', '_Bool'): return 'bool'
            if t['n'] == 'void': return 'unit'
            raise Unsupported('type ' + t['n'])
        if k == 'enum': return 'int'
        if k == 'ptr': return 'int'
        if k == 'arr': return '(seq %s)' % self.ty(t['t'])
        if k == 'rec':
            n = t['n']
            if n in STRS: return '(seq int)'
            if n in SEQS: return '(seq %s)' % self.ty(t['a'][0])
            if n == 'std::pair': return '(pair %s %s)' % (self.ty(t['a'][0]), self.ty(t['a'][1]))
            if n in MAPS: return '(fmap %s %s)' % (self.ty(t['a'][0]), self.ty(t['a'][1]))
            if n in SETS: return '(fset %s)' % self.ty(t['a'][0])
            if n in PTRS: return 'int'
            if n in OSTREAMS: return '(seq int)'
            if n in ISTREAMS: return 'istream'
            if is_iter(t): return 'int'
            if n in self.P.recs:
                if n in self.heapcls: return 'int'
                return self.rectype(n)
            if n in self.spec.opaque:
                w = self.spec.opaque[n]; return w
            raise Unsupported('type ' + n)
        raise Unsupported('type kind ' + k + ' ' + str(t.get('n')))
    def allfields(self, n):
        out = []
        r = self.P.recs[n]
        for b in r['bases']:
            bn = rn(b)
            if bn in self.P.recs: out += self.allfields(bn)
            elif bn is None or r['fields']:
                out.append(('base_', b, n))
        for f in r['fields']:
            if (n + '::' + f['name']) in self.spec.ignore_fields: continue
            out.append((f['name'], f['type'], n))
        return out
    def fldname(self, cls, f):
        """field accessor in the record type of the class that declares it is shared by name"""
        return lname(cls) + '_' + f
    def rectype(self, n):
        w = lname(n)
        if w in self.typedecls: return w
        self.typedecls[w] = ''    # guards recursion
        fs = [(f, self.ty(t)) for f, t, c in self.allfields(n)]
        del self.typedecls[w]
        out = ['type %s' % w]
        for f, t in fs: out.append('val function %s_%s (_r: %s) : %s' % (w, f, w, t))
        out.append('val function mk_%s %s : %s' % (w, ' '.join('(_%s: %s)' % (f, t) for f, t in fs), w))
        vs = ' '.join('(_%s: %s)' % (f, t) for f, t in fs)
        if fs:
            q = ', '.join('_%s: %s' % (f, t) for f, t in fs)
            app = 'mk_%s %s' % (w, ' '.join('_' + f for f, t in fs))
            for f, t in fs: out.append('axiom %s_%s_mk : forall %s [%s]. %s_%s (%s) = _%s' % (w, f, q, app, w, f, app, f))
            out.append('axiom %s_ext : forall _r: %s, _s: %s. %s -> _r = _s' % (w, w, w, ' -> '.join('%s_%s _r = %s_%s _s' % (w, f, w, f) for f, t in fs)))
            for f, t in fs:
                out.append('let function %s_set_%s (_r: %s) (_x: %s) : %s = mk_%s %s' % (
                    w, f, w, t, w, w, ' '.join('_x' if g == f else '(%s_%s _r)' % (w, g) for g, _ in fs)))
        self.typedecls[w] = '\n'.join(out)
        return w
    def default(self, t, value_init=True):
        """value of a default/value initialised object; None -> indeterminate"""
        t = self.norm(t); k = t['k']
        if k in ('b', 'enum'):
            if not value_init: return '(any %s)' % self.ty(t)
            return '0' if is_int(t) else 'false' if is_bool(t) else '0.0'
        if k == 'ptr': return '0' if value_init else '(any int)'
        if k == 'rec':
            n = t['n']
            if n in STRS or n in SEQS or n in OSTREAMS: return '(empty: %s)' % self.ty(t)
            if n in MAPS: return '(fm_empty: %s)' % self.ty(t)
            if n in SETS: return '(fs_empty: %s)' % self.ty(t)
            if n == 'std::pair': return '(mkp %s %s)' % (self.default(t['a'][0]), self.default(t['a'][1]))
            if n in PTRS: return '0'
            if is_iter(t): return '(any int)'
            if n in self.P.recs and n not in self.heapcls:
                w = self.rectype(n)
                fs = self.allfields(n)
                if not fs: return 'mk_' + w
                return '(mk_%s %s)' % (w, ' '.join(self.default(ft, value_init) for f, ft, c in fs))
        if k == 'arr': return '(any %s)' % self.ty(t)
        raise Unsupported('default of ' + json.dumps(t)[:80])
    def heap(self, cls, f):
        for fn, ft, dc in self.allfields(cls):
            if fn == f:
                h = 'h_%s_%s' % (lname(dc), f)
                if h not in self.heaps: self.heaps[h] = '(heap %s)' % self.ty(ft)
                return h
        raise Unsupported('no heap field %s::%s' % (cls, f))
    def vheap(self, t):
        """memory holding values of a non-class or value type reached through a pointer"""
        t = self.norm(t)
        if t['k'] not in ('b', 'enum', 'rec', 'ptr') or rn(t) in self.heapcls: raise Unsupported('memory of ' + str(t)[:60])
        if t['k'] == 'b' and t['n'] in ('void', 'char'): raise Unsupported('raw memory')
        w = self.ty(t)
        h = 'hv_' + re.sub(r'\W+', '_', w).strip('_')
        if h not in self.heaps: self.heaps[h] = '(heap %s)' % w
        return h
    def glob(self, q, t):
        h = 'g_' + re.sub(r'[^A-Za-z0-9_]', '_', '_'.join(q.split('::')[-2:]) if len(q.split('::')) > 2 else q.split('::')[-1])
        if h not in self.heaps: self.heaps[h] = self.ty(t)
        return h
    def extraheap(self, h):
        return h in self.heaps

def scan(node, pred, out):
    if isinstance(node, dict):
        if pred(node): out.append(node)
        for v in node.values(): scan(v, pred, out)
    elif isinstance(node, list):
        for v in node: scan(v, pred, out)
    return out

def peel(e):
    while e and e['k'] == 'cast' and e['ck'] in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'Dynamic', 'NoOp', 'BitCast'):
        e = e['e']
    return e

def root_id(e):
    """id of the variable at the root of an lvalue expression, or 'this', or None"""
    while True:
        e = peel(e)
        if e is None: return None
        k = e['k']
        if k == 'ref': return e['id']
        if k == 'this': return 'this'
        if k == 'mem': e = e['e']
        elif k == 'opcall' and e['op'] in ('[]', '*', '->', '()') and e['args']: e = e['args'][0]
        elif k == 'mcall': e = e['obj']
        elif k == 'sub': e = e['a']
        elif k == 'un' and e['op'] in ('*', '&'): e = e['e']
        else: return None

ASSIGN_OPS = {'=', '+=', '-=', '*=', '/=', '%=', '++', '--', '<<', '>>', '|=', '&='}
MUTATORS = {'push_back', 'pop_back', 'clear', 'resize', 'insert', 'erase', 'assign', 'swap', 'push', 'pop', 'append', 'push_front', 'pop_front', 'reserve', 'emplace_back'}

def const_param(t):
    return not (t['k'] == 'ref' and not t['t'].get('c'))

def written_roots(node):
    """ids of variables whose value may be written somewhere in node (conservative)"""
    out = set()
    def w(e):
        r = root_id(e)
        if r is not None: out.add(r)
    def go(n):
        if isinstance(n, list):
            for x in n: go(x)
            return
        if not isinstance(n, dict): return
        k = n.get('k')
        if k in ('bin', 'cassign') and (k == 'cassign' or n['op'] == '='): w(n['a'])
        elif k == 'un' and n['op'].rstrip('_') in ('++', '--'): w(n['e'])
        elif k == 'opcall' and n['op'] in ASSIGN_OPS and n['args']: w(n['args'][0])
        elif k == 'mcall':
            if not (n['fn'] and n['fn'].get('const')): w(n['obj'])
        if k in ('call', 'mcall', 'ctor', 'opcall') and n.get('fn'):
            pts = n['fn'].get('pt', [])
            args = n['args']
            if k == 'opcall' and len(args) == len(pts) + 1:
                if not n['fn'].get('const') and n['op'] not in ('[]', '->', '*'): w(args[0])
                args = args[1:]
            for p, a in zip(pts, args):
                if not const_param(p): w(a)
        if k in ('call', 'opcall') and n.get('fn') is None:
            for a in n['args']: w(a)
        if k == 'un' and n['op'] == '&': w(n['e'])
        for v in n.values():
            if isinstance(v, (dict, list)): go(v)
    go(node)
    return out

def is_do_once(s):
    if s['k'] != 'do': return False
    c = s['c']
    while c['k'] == 'cast': c = c['e']
    return (c['k'] == 'int' and c['v'] == '0') or (c['k'] == 'bool' and not c['v'])

def stream_root(e):
    """for a << chain, the leftmost operand"""
    e = peel(e)
    while e['k'] == 'opcall' and e['op'] == '<<' and e['args']:
        e = peel(e['args'][0])
    while e['k'] == 'mcall' and is_ost(e['fn']['pt'][0] if False else e['t'] or INT) and False:
        e = e['obj']
    return e

