import os, shutil, subprocess, json, tempfile, sys
ENV = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
def copy(id):
    d = '/tmp/seed-%s' % id
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(['cp','-a','/repo',d])
    return d
def apply(d, edits):
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(old) != 1: raise Exception('%s: %d occurrences of %r' % (f, s.count(old), old))
        open(p,'w').write(s.replace(old,new))
def stable(d):
    r = subprocess.run(['go','build','./...'],cwd=d,env=ENV,capture_output=True,text=True)
    if r.returncode: return 'build: '+r.stderr
    r = subprocess.run(['go','test','-json','-vet=off','-count=1','-cpu','1','-timeout','3m','./...'],cwd=d,env=ENV,capture_output=True,text=True)
    log=tempfile.mktemp(); open(log,'w').write(r.stdout)
    out=tempfile.mktemp()
    subprocess.run(['python3','/opt/vp/results.py',out,'gojson:'+log],capture_output=True)
    res=json.load(open(out)); base=json.load(open('/opt/vp/BASELINE.json'))
    os.unlink(log); os.unlink(out)
    return res, base
