import os,subprocess,json,sys,shutil
REPO='/repo'
def mk(id,prop,edits,demo,needs,breaks,srcs=(),libs='',stubs=False,extra=None,includes=''):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    W='/tmp/seedw'
    subprocess.run(['rm','-rf',W]); subprocess.run(['cp','-a',REPO,W],check=True)
    for f,a,b,*cnt in edits:
        p=W+'/ndt_gslam/'+f; s=open(p).read(); n=cnt[0] if cnt else 1
        assert s.count(a)>=1,(id,f,a,s.count(a))
        if cnt and cnt[0]=='nth':
            k=cnt[1]; parts=s.split(a); s=a.join(parts[:k+1])+b+a.join(parts[k+1:])
        else:
            assert s.count(a)==n,(id,a,s.count(a)); s=s.replace(a,b)
        open(p,'w').write(s)
    diff=subprocess.run(['git','-C',W,'diff'],capture_output=True,text=True).stdout
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.cpp','w').write(demo)
    src=' '.join('ndt_gslam/'+s for s in srcs)
    st='-I"$D/stubs" ' if stubs else ''
    open(d+'/demo.sh','w').write('''#!/bin/bash
# exit 0: the demonstrated guarantee holds; otherwise nonzero. cwd: the repository.
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 2
g++-11 -std=c++17 -O1 -fopenmp -w %s-Indt_gslam/include %s-I/usr/include/eigen3 "$D/demo.cpp" %s -o "$T/demo" %s >"$T/log" 2>&1 || { tail -20 "$T/log"; rm -rf "$T"; exit 3; }
timeout 60 "$T/demo"; r=$?
rm -rf "$T"
exit $r
''' % (st,includes,src,libs))
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    # verify
    def demo_in(w):
        return subprocess.run(['bash',d+'/demo.sh'],cwd=w,capture_output=True,text=True)
    a=demo_in(REPO); b=demo_in(W)
    # build+test in W: bash script hard-codes /repo; so apply to /repo
    subprocess.run(['git','-C',REPO,'apply',d+'/patch.diff'],check=True)
    try:
        bb=subprocess.run(['bash','/opt/vp/build.sh'],capture_output=True,text=True)
        tt=subprocess.run(['bash','/opt/vp/test.sh','/tmp/seed_t.json'],capture_output=True,text=True)
        t=json.load(open('/tmp/seed_t.json'))
    finally:
        subprocess.run(['git','-C',REPO,'checkout','--','.']); subprocess.run(['bash','/opt/vp/build.sh'],capture_output=True)
    base=json.load(open('/opt/vp/BASELINE.json'))
    passed=set(t.get('passed',[])); need=set(base.get('stable',base.get('passed',[])))
    ok = a.returncode==0 and b.returncode!=0 and bb.returncode==0 and need<=passed and len(need)>0
    print(id,'OK' if ok else 'BAD','clean',a.returncode,'patched',b.returncode,'build',bb.returncode,'tests',len(passed),'/',len(need), (a.stdout[-300:] if a.returncode else ''), b.stdout[-120:].strip())
    subprocess.run(['rm','-rf',W])
