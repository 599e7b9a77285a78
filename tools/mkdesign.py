"""regenerate section 2 of DESIGN.md from tools/props.py, specs, harness and seeded"""
import json,re,glob,os,io
exec(open('/verif/tools/props.py').read())
o=io.StringIO(); B={}
for d in sorted(glob.glob('/verif/seeded/b*')):
    m=json.load(open(d+'/meta.json')); B.setdefault(m['property'],[]).append((os.path.basename(d),m['what_it_breaks']))
for p in PROPS:
    f='/verif/specs/%s.spec'%p['id']; s=open(f).read() if os.path.exists(f) else ''
    fns=[re.sub(r'travatar::','',x) for x in re.findall(r'^@fn (\S+)',s,re.M)]; tr=[re.sub(r'travatar::','',x) for x in re.findall(r'^@trusted (\S+)',s,re.M)]
    print('### %s - %s\n'%(p['id'],p['title']),file=o)
    print('*Why tests cannot settle it:* %s\n'%p['why'],file=o)
    print('*Under contract (%d):* %s.%s\n'%(len(fns),', '.join(fns),(' *Assumed:* '+', '.join(tr)+'.') if tr else ''),file=o)
    n=p['note'].replace(NOTE,'').strip() or 'Everything stated is proved.'
    print('*Decided by:* %s\n'%n,file=o)
    rule=re.search(r'init\("(.*?)"',open('/verif/harness/%s.cc'%p['id']).read())
    if rule: print('*Harness domain (bounded):* %s\n'%rule.group(1)[:700],file=o)
    print('*Seeded bugs caught:* %s\n'%'; '.join('%s (%s)'%x for x in B.get(p['id'],[])),file=o)
t=open('/verif/DESIGN.md').read(); a=t.index('## 2. Properties\n')+len('## 2. Properties\n'); b=t.index('## 3. Defects')
open('/verif/DESIGN.md','w').write(t[:a]+'\n'+o.getvalue()+t[b:])
