#!/usr/bin/env python3
"""mkseeds.py [id...]: writes /verif/seeded/<id> and confirms in a copy of /repo that
the change applies, builds and passes the stable tests, and that its
demonstration passes without and fails with it."""
import sys, os, re, json, shutil, subprocess, difflib
from concurrent.futures import ThreadPoolExecutor
import seeds, seedlib, demos
OUT = '/verif/seeded'
SH = '''#!/bin/bash
# run with cwd = the repository, after it was built
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export TMPDIR=$tmp
cat > "$tmp/overlay.json" <<EOF
{"Replace": {"$PWD/%(pkg)szz_demo_test.go": "$here/demo_test.go"}}
EOF
go test -overlay "$tmp/overlay.json" -vet=off -run '^TestDemo$' -count=1 -timeout 120s ./%(pkg)s
'''
NAME = {'.': 'gosync', 'cmd/gosync': 'main', 'patcher/sequential': 'sequential'}
def one(id):
    prop, edits = seeds.S[id]
    pkg, code, needs, what = demos.D[id]
    d = seedlib.copy(id)
    try:
        code = re.sub(r'\{\{(\w+)\}\}', lambda m: demos.H[m.group(1)], code)
        base = os.path.basename(pkg)
        head = 'package %s\n' % (NAME[pkg] if pkg in NAME else base + '_test')
        p = os.path.join(d, pkg, 'zz_demo_test.go')
        open(p, 'w').write(head + '\n' + code)
        r = subprocess.run(['/usr/bin/env', 'goimports', '-w', p], cwd=d, env=seedlib.ENV, capture_output=True, text=True)
        if r.returncode: return id, 'goimports: ' + r.stderr
        code = open(p).read(); os.unlink(p)
        o = os.path.join(OUT, id)
        os.makedirs(o, exist_ok=True)
        open(o + '/demo_test.go', 'w').write(code)
        open(o + '/demo.sh', 'w').write(SH % {'pkg': '' if pkg == '.' else pkg + '/'})
        os.chmod(o + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(o + '/meta.json', 'w'), indent=1)
        for i in range(2):
            r = subprocess.run(['bash', o + '/demo.sh'], cwd=d, capture_output=True, text=True)
            if r.returncode: return id, 'demo fails on the unchanged tree:\n' + r.stdout[-1500:] + r.stderr[-1500:]
        seedlib.apply(d, edits)
        files = sorted({e[0] for e in edits})
        diff = subprocess.run(['git', 'diff', '--no-color', '--'] + files, cwd=d, capture_output=True, text=True).stdout
        open(o + '/patch.diff', 'w').write(diff)
        r = seedlib.stable(d)
        if isinstance(r, str): return id, r
        bad = [t for t in r[1]['stable'] if t not in r[0]['passed']]
        if bad: return id, 'breaks tests: %s' % bad[:3]
        n = 0
        for i in range(3):
            r = subprocess.run(['bash', o + '/demo.sh'], cwd=d, capture_output=True, text=True)
            if 'build failed' in r.stdout or 'setup failed' in r.stdout: return id, 'demo does not build ' + r.stdout
            n += r.returncode != 0
        if n < 3: return id, 'demo failed only %d times of 3 with the bug' % n
        return id, 'ok'
    except Exception as e: return id, 'ERR %r' % e
    finally: shutil.rmtree(d, ignore_errors=True)
ids = [i for i in seeds.S if i in demos.D and (not sys.argv[1:] or i in sys.argv[1:])]
print('without a demo:', [i for i in seeds.S if i not in demos.D], 'without a bug:', [i for i in demos.D if i not in seeds.S])
with ThreadPoolExecutor(4) as ex:
    for id, r in ex.map(one, ids): print('%-18s %s' % (id, r), flush=True)
