"""Contract files.  Line oriented; a directive starts with '@' in column 0.

  @files F...                 translation units to extract
  @heapclass C...             classes whose objects live on the heap model
  @ignorefield C::f           field not modelled (must not be read or written by extracted code)
  @opaque C whytype           foreign class mapped to an abstract why type
  @prelude / @prelude2        WhyML text: before / after the record types
  @fn QNAME [sig=SIG] [as NAME] [flags]     contract of a function of /repo (proved)
  @trusted QNAME ...          contract assumed, body not verified (counted as assumption)
  @loop N                     clauses for the N-th loop (textual order, inlined helpers included)
  @ghost WHERE                ghost code; WHERE = entry | exit | loop N start|end|before|after
  @include FILE
"""
import os, re
def strlit(line):
    def r(m):
        t = '(empty: seq int)'
        for c in m.group(1).encode().decode('unicode_escape').encode('latin-1'): t = '(snoc %s %d)' % (t, c if c < 128 else c - 256)
        return t
    return re.sub(r'\bs"((?:[^"\\]|\\.)*)"', r, line)
class Contract:
    def __init__(self, q, line):
        self.q = q; self.sig = None; self.name = None; self.trusted = False; self.flags = set()
        self.clauses = ''; self.loops = {}; self.ghost = {}; self.line = line; self.reads = None; self.writes = None; self.file = ''
        self.throws = None
class Spec:
    def __init__(self):
        self.files = []; self.heapcls = []; self.ignore_fields = set(); self.opaque = {}
        self.prelude = ''; self.prelude2 = ''; self.contracts = []; self.included = set(); self.options = set()
        self.noinline = set(); self.needs = []
def load_spec(path, spec=None):
    spec = spec or Spec()
    if path in spec.included: return spec
    spec.included.add(path)
    cur = None; sink = None
    def add(text):
        if sink is None:
            if text.strip() and not text.strip().startswith('#'): raise SystemExit('%s: stray text: %s' % (path, text))
            return
        sink(text)
    for ln, line in enumerate(open(path), 1):
        if line.startswith('#'): continue
        if not line.startswith('@'):
            add(strlit(line)); continue
        d, _, rest = line[1:].rstrip('\n').partition(' ')
        rest = rest.strip()
        if d == 'files':
            spec.files += [f for f in rest.split() if f not in spec.files]; sink = None
        elif d == 'include':
            load_spec(os.path.join(os.path.dirname(path), rest), spec); sink = None
        elif d == 'heapclass': spec.heapcls += rest.split(); sink = None
        elif d == 'ignorefield': spec.ignore_fields |= set(rest.split()); sink = None
        elif d == 'opaque':
            a, b = rest.split(None, 1); spec.opaque[a] = b; sink = None
        elif d == 'need':
            a, b = rest.split(None, 1); spec.needs.append((a, b)); sink = None
        elif d == 'option': spec.options |= set(rest.split()); sink = None
        elif d == 'prelude':
            def sink(t): spec.prelude += t
        elif d == 'prelude2':
            def sink(t): spec.prelude2 += t
        elif d in ('fn', 'trusted'):
            m = re.match(r'(operator\(\)|\S*operator\s*(?:\(\)|\S+)|\S+)\s*(.*)$', rest)
            cur = Contract(m.group(1), ln); cur.trusted = d == 'trusted'; cur.file = os.path.basename(path)
            r = m.group(2)
            mm = re.search(r'\bsig=\[(.*?)\]', r)
            if mm: cur.sig = mm.group(1); r = r.replace(mm.group(0), '')
            mm = re.search(r'\bas\s+(\w+)', r)
            if mm: cur.name = mm.group(1); r = r.replace(mm.group(0), '')
            cur.flags = set(r.split())
            spec.contracts.append(cur)
            def sink(t, c=cur): c.clauses += t
        elif d == 'loop':
            n = int(rest)
            cur.loops.setdefault(n, '')
            def sink(t, c=cur, n=n): c.loops[n] += t
        elif d == 'ghost':
            cur.ghost.setdefault(rest, '')
            def sink(t, c=cur, w=rest): c.ghost[w] += t
        elif d == 'end': sink = None
        elif d == 'reads': cur.reads = rest.split()
        elif d == 'writes': cur.writes = rest.split()
        else: raise SystemExit('%s:%d: unknown directive @%s' % (path, ln, d))
    return spec
