import sys
f,a,b=sys.argv[1:4]
p='/tmp/mk/'+f; s=open(p).read(); n=s.count(a)
k=int(sys.argv[4]) if len(sys.argv)>4 else 0
if n==0 or (n>1 and len(sys.argv)<=4): raise SystemExit('count %d'%n)
i=-1
for _ in range(k+1): i=s.find(a,i+1)
open(p,'w').write(s[:i]+b+s[i+len(a):])
