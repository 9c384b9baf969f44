#!/usr/bin/env python3
"Builds every planted bug and runs the stable tests on it."
import sys, shutil
from concurrent.futures import ThreadPoolExecutor
import seeds, seedlib
def one(id):
    prop, edits = seeds.S[id]
    try:
        d = seedlib.copy(id)
        seedlib.apply(d, edits)
        r = seedlib.stable(d)
        if isinstance(r, str): return id, 'BUILD '+r
        res, base = r
        bad = [t for t in base['stable'] if t not in res['passed']]
        return id, 'ok' if not bad else 'FAILS '+', '.join(b.split('/')[-1] for b in bad[:4])
    except Exception as e: return id, 'ERR %s' % e
    finally: shutil.rmtree('/tmp/seed-%s' % id, ignore_errors=True)
ids = [i for i in seeds.S if not sys.argv[1:] or i in sys.argv[1:]]
with ThreadPoolExecutor(4) as ex:
    for id, r in ex.map(one, ids): print('%-18s %s' % (id, r), flush=True)
