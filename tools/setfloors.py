"""Rewrite FLOORS of the given checks to about 55% of what their last (quick) run observed."""
import sys,re,json
for c in sys.argv[1:]:
    p='checks/%s.py'%c.lower()
    s=open(p).read()
    m=re.search(r'^FLOORS = \{.*?\}\n',s,re.S|re.M)
    keys=re.findall(r'"(\w+)":',m.group(0))
    ob=json.load(open('evidence/%s.json'%c.upper()))['coverage']['observed']
    if not keys: keys=sorted(k for k in ob if ob[k]>=20)
    def r(v):
        v=int(v*0.55)
        k=10**max(0,len(str(v))-2)
        return max(1,v//k*k)
    items=['"%s": %d'%(k,r(ob.get(k,0))) for k in keys]
    for k in keys:
        if not ob.get(k): print(c,'ZERO',k)
    lines=[];cur='FLOORS = {'
    for i,it in enumerate(items):
        t=it+(', ' if i<len(items)-1 else '}')
        if len(cur+t)>148: lines.append(cur.rstrip()); cur='          '
        cur+=t
    lines.append(cur)
    s=s[:m.start()]+'\n'.join(lines)+'\n'+s[m.end():]
    open(p,'w').write(s)
