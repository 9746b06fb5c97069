import sys
src=open('/tmp/refac1.py').read().split('def run(k)')[0]
exec(src)
for e in RF[sys.argv[1]][1]:
    f,a,b=e[:3]; p=R+f; s=open(p).read(); open(p,'w').write(s.replace(a,b))
