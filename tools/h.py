#!/usr/bin/env python3
"""tools/h.py ID [quick|thorough]: build and run only the harness of a property."""
import sys, os, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')); sys.path.insert(0, os.path.join(sys.path[0], 'lib'))
import check
w = tempfile.mkdtemp(prefix='verif_h_')
H = check.Harness(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'quick', int(os.environ.get('VERIF_SEED') or 1), w)
H.run(); shutil.rmtree(w)
print(H.note, 'cases', H.cases, H.parts, '%.0fs' % H.wall)
for f in H.fails[:12]: print("FAIL", f[:500] + (" ..... " + f[-300:] if len(f) > 500 else ""))
