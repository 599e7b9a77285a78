#!/usr/bin/env python3
"""mb.py ID PROP NEEDS BREAKS FILE OLD NEW [FILE OLD NEW ...] < demo.cc : plant a bug (patch from /repo's HEAD) with its demonstration"""
import sys, os, subprocess, json, shutil, difflib
b, p, needs, br = sys.argv[1:5]; ed = sys.argv[5:]
out = ''; txt = {}
for f, o, n in zip(ed[0::3], ed[1::3], ed[2::3]):
    s = txt.get(f) or open('/repo/' + f).read()
    o = o.encode().decode('unicode_escape') if '\\n' in o and o not in s else o
    if s.count(o) != 1: raise SystemExit('%s: %d matches for %r' % (f, s.count(o), o))
    txt[f] = s.replace(o, n)
for f, s in txt.items():
    a = open('/repo/' + f).read()
    out += 'diff --git a/%s b/%s\n' % (f, f) + ''.join(l if l.endswith('\n') else l + '\n\\ No newline at end of file\n' for l in difflib.unified_diff(a.splitlines(True), s.splitlines(True), 'a/' + f, 'b/' + f))
d = '/verif/seeded/' + b; os.makedirs(d, exist_ok=True)
open(d + '/patch.diff', 'w').write(out); json.dump({'property': p, 'needs': needs, 'what_it_breaks': br}, open(d + '/meta.json', 'w'), indent=1)
open(d + '/demo.cc', 'w').write(sys.stdin.read()); shutil.copy('/verif/tools/demo.inc', d + '/demo.sh')
