#!/usr/bin/env python3
"detect.py [id|id:PROP]...: runs the quick check of the property of every planted bug against a copy with the bug."
import sys, shutil, subprocess, time, os
import seeds, seedlib
args = sys.argv[1:] or list(seeds.S)
for a in args:
    id, _, p = a.partition(':')
    prop, edits = seeds.S[id]
    prop = p or prop
    d = seedlib.copy(id)
    try:
        seedlib.apply(d, edits)
        t = time.time()
        r = subprocess.run(['/verif/bin/gosym','check',prop,'-quick'],env=dict(os.environ,GOSYM_REPO=d,GOSYM_VERIF='/verif'),cwd='/verif',capture_output=True,text=True)
        out = [l for l in r.stdout.splitlines() if l.startswith(('VIOLATION','INCONCLUSIVE','  violation','  '+'VIOL'))]
        print('%-18s %s rc=%d %.0fs %s' % (id, prop, r.returncode, time.time()-t, ' | '.join(o[:230] for o in out[:2])), flush=True)
    finally: shutil.rmtree(d, ignore_errors=True)
