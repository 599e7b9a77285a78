"""Sound premise selection on a Why3-generated SMT-LIB file: dropping assertions only weakens the
hypotheses, so unsat of the pruned file implies unsat of the full one."""
import re
TOK = re.compile(r'\|[^|]*\||"[^"]*"|;[^\n]*|[()]|[^\s()]+')
BUILTIN = set('and or not => = ite forall exists let + - * / < <= > >= Int Real Bool true false assert ! :pattern :named to_real distinct div mod abs int'.split())
def forms(txt):
    out = []; d = 0; st = None; toks = None
    for m in TOK.finditer(txt):
        t = m.group(0)
        if t[0] == ';': continue
        if t == '(':
            if d == 0: st = m.start(); toks = []
            d += 1
        elif t == ')':
            d -= 1
            if d == 0: out.append((txt[st:m.end()], toks))
        elif d: toks.append(t)
    return out
def prune(txt, depth=100, nopoly=True):
    fs = forms(txt)
    decl = {}; consts = set()
    for s, t in fs:
        if t[0] in ('declare-fun', 'define-fun', 'declare-const'):
            decl[t[1]] = s
            if re.match(r'\(declare-fun\s+\S+\s+\(\)\s+(?!ty\))', s) or t[0] == 'declare-const': consts.add(t[1])
    asserts = []
    freq = {}
    glob = set()
    i = txt.rfind(';; Goal')
    for n, (s, t) in enumerate(fs):
        if t[0] == 'assert':
            sy = set(x for x in t if x in decl)
            asserts.append((n, s, sy))
            for x in sy: freq[x] = freq.get(x, 0) + 1
        elif t[0] == 'define-fun':
            sy = set(x for x in t[2:] if x in decl)
            for x in sy: freq[x] = freq.get(x, 0) + 1
    poly = re.compile(r't2tb|tb2t|_sort\b|^sort$|^witness')
    # the VC's own constants: declared after the last definition/axiom-free prefix
    keep = set(); R = set(); rest = []
    last = asserts[-1][0]
    for n, s, sy in asserts:
        loc = sy & consts
        quant = '(forall' in s[:14]
        if n == last or (loc and not is_theory(loc)): keep.add(n); R |= sy
        else: rest.append((n, s, sy))
    defs = [(n, t[1], set(x for x in t[2:] if x in decl)) for n, (s, t) in enumerate(fs) if t[0] == 'define-fun']
    for _ in range(depth):
        ch = False
        for n, nm, sy in defs:
            if nm in R and not sy <= R: R |= sy; ch = True
        nr = []
        add = set()
        for n, s, sy in rest:
            if nopoly and any(poly.search(x) for x in sy): continue
            if not sy: keep.add(n); continue
            head = min(sy, key=lambda x: (freq[x], x))
            f0 = freq[head]
            if sy <= R or any(x in R for x in sy if freq[x] <= 1.5 * f0):
                keep.add(n); add |= sy; ch = True
            else: nr.append((n, s, sy))
        rest = nr; R |= add
        if not ch: break
    out = []
    for n, (s, t) in enumerate(fs):
        if t[0] == 'assert' and n not in keep: continue
        out.append(s)
    return '\n'.join(out) + '\n', len(keep), len(asserts)
THEORY = {'npos', 'int_max', 'int_min', 'real_max', 'real_inf', 'real_lowest', 'real_minpos'}
def is_theory(loc): return all(x in THEORY or x.startswith('fm_empty') or x.startswith('fs_empty') or x.startswith('empty') for x in loc)
if __name__ == '__main__':
    import sys
    t, a, b = prune(open(sys.argv[1]).read()); print(a, b, file=sys.stderr); print(t)
