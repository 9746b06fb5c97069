import sys; sys.path.insert(0,'/verif/vc')
import front
P=front.extract(sys.argv[1],libs=tuple(sys.argv[3].split(',')) if len(sys.argv)>3 and sys.argv[3] else (),stubs=len(sys.argv)>4)
for f in P.fns.values() if isinstance(P.fns,dict) else P.fns:
    if f.get('body') is not None and sys.argv[2] in f['q']: print(f['q'],len(f['params']),f.get('mk'),f.get('rec'),f['qt'][:100])
