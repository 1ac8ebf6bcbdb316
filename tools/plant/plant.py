"""plant.py FILE [ids]: FILE defines P = [dict(id, prop, needs, breaks, edits=[(file, old, new)...], pkg, run, test, stack=bool)].
Confirms each bug in a scratch copy (builds, stable tests pass, demo passes without and fails with it) and writes
/verif/seeded/<id>/; with NOSAVE=1 only confirms."""
import sys,subprocess,os,shutil,json,tempfile
V='/verif'; HERE=os.path.dirname(os.path.abspath(__file__))
g={}; exec(open(sys.argv[1]).read(),g); P=g['P']; ids=sys.argv[2:]
env=dict(os.environ,PATH='/opt/veriftools/go1.23.12/bin:'+os.environ['PATH'],HOME='/root',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',CGO_ENABLED='1',GOCACHE='/root/.cache/go-build',GOMODCACHE='/root/go/pkg/mod')
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO='''#!/bin/bash
# runs the test beside this file inside the package %(pkg)s of the current directory
D=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
export GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod
T=$(mktemp -d) || exit 3
export TMPDIR=$T
trap 'rm -rf "$T"' EXIT
R=""
for f in "$D"/*_test.go; do
  R="$R,\\"$PWD/%(pkg)s/zz_$(basename "$f")\\": \\"$f\\""
done
echo "{\\"Replace\\": {${R:1}}}" > "$T/overlay.json"
timeout 250 go test -overlay "$T/overlay.json" -vet=off -count=1 -run 'TestDemo' ./%(pkg)s
'''
def sh(c,cwd,**k): return subprocess.run(c,cwd=cwd,env=env,capture_output=True,text=True,**k)
for p in P:
    if ids and p['id'] not in ids: continue
    d=tempfile.mkdtemp(prefix='pl-',dir='/tmp'); w=d+'/repo'; s=d+'/seed'
    try:
        shutil.copytree('/repo',w,symlinks=True); os.makedirs(s)
        open(s+'/demo.sh','w').write(DEMO%p); os.chmod(s+'/demo.sh',0o755)
        open(s+'/demo_test.go','w').write(p['test'])
        if p.get('stack'): shutil.copy(HERE+'/stack_test.go',s)
        r=sh([s+'/demo.sh'],w)
        if r.returncode: print(p['id'],'DEMO FAILS ON CLEAN',(r.stdout+r.stderr)[-1500:]); continue
        ok=True
        for f,a,b in p['edits']:
            q=os.path.join(w,f); t=open(q).read()
            if a not in t: print(p['id'],'EDIT DOES NOT APPLY',f,a[:60]); ok=False; break
            open(q,'w').write(t.replace(a,b,1))
        if not ok: continue
        diff=sh(['git','diff'],w).stdout
        r=sh(['go','build','./...'],w)
        if r.returncode: print(p['id'],'BUILD',r.stderr[-500:]); continue
        r=sh([s+'/demo.sh'],w)
        if r.returncode==0: print(p['id'],'DEMO PASSES WITH THE BUG'); continue
        if 'FAIL' not in r.stdout: print(p['id'],'DEMO ODD',(r.stdout+r.stderr)[-500:]); continue
        why=[l for l in r.stdout.splitlines() if l.strip()][:4]
        lg=d+'/log'; os.makedirs(d+'/tmp')
        pk=sh("go list ./... | grep -vxE 'github.com/solarisdb/solaris/(golibs/timeout|pkg/storage/postgres)'",w,shell=True).stdout.split()
        subprocess.run(['go','test','-json','-vet=off','-count=1','-timeout','5m']+pk,cwd=w,env=dict(env,TMPDIR=d+'/tmp'),stdout=open(lg,'w'),stderr=subprocess.DEVNULL)
        subprocess.run(['python3','/opt/vp/results.py',d+'/res','gojson:'+lg],capture_output=True)
        miss=base-set(json.load(open(d+'/res'))['passed'])
        if miss: print(p['id'],'TESTS',list(miss)[:3]); continue
        if not os.environ.get('NOSAVE'):
            o=os.path.join(V,'seeded',p['id']); shutil.rmtree(o,ignore_errors=True); shutil.copytree(s,o)
            open(o+'/patch.diff','w').write(diff)
            json.dump(dict(property=p['prop'],needs=p['needs'],what_it_breaks=p['breaks']),open(o+'/meta.json','w'),indent=1)
        res=''
        if not os.environ.get('NOCHECK'):
            r=subprocess.run(['./check',p['prop']],cwd=V,env=dict(os.environ,VERIF_REPO=w),capture_output=True,text=True)
            res='CAUGHT' if r.returncode==1 else 'NOT CAUGHT rc=%d %s'%(r.returncode,r.stderr[-300:] if r.returncode==3 else '')
            res+=' '+''.join([x for x in r.stdout.splitlines() if x.startswith('#')][:1])[:200]
        print(p['id'],p['prop'],'ok',res,'| demo:',' / '.join(why)[:160],flush=True)
    finally: shutil.rmtree(d,ignore_errors=True)
