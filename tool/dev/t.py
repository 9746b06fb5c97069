import sys,time
sys.path.insert(0,'/verif/vc')
import importlib, front, verify, traceback, prove
mod, tu = sys.argv[1], sys.argv[2]
libs=tuple(sys.argv[4].split(',')) if len(sys.argv)>4 and sys.argv[4] else ()
m=importlib.import_module('props.'+mod)
P=front.extract(tu,libs=libs)
for n in sys.argv[3].split(','):
    V=verify.Verifier(P,n)
    t=time.time()
    try:
        getattr(m,n)(V)
    except Exception as e:
        traceback.print_exc(limit=-6)
    print(n,'obl',len(V.obl),'fails',len(V.fails),'t %.1f'%(time.time()-t), [ (r['contract'],r['obligations'],r['paths'],r['time']) for r in V.runs])
    for f in V.fails[:6]:
        print('  FAIL',f['run'],'|',f['name'],'|',f['status'],f['backend'],f.get('goal','')[:300].replace('\n',' '),f.get('model'))
    if len(sys.argv)>5:
        for o in sorted(V.obl,key=lambda o:-o['time'])[:12]: print('   ',o['time'],o['backend'],o['run'],'|',o['name'])
