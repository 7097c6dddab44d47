import json,glob,re,os
b=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m={}
for f in sorted(glob.glob(b+'/seeded/*/meta.json')):
    m.setdefault(json.load(open(f))['property'],[]).append(f.split('/')[-2])
L=open(b+'/DESIGN.md').read().split('\n')
idx=[i for i,l in enumerate(L) if re.match(r'\* [A-Z]\d\d: `',l)]
assert idx==list(range(idx[0],idx[-1]+1))
order=[L[i][2:5] for i in idx]
order+= [p for p in sorted(m) if p not in order]
L[idx[0]:idx[-1]+1]=['* %s: %s'%(p,', '.join('`%s`'%s for s in m[p])) for p in order if p in m]
open(b+'/DESIGN.md','w').write('\n'.join(L))
