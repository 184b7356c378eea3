import sys; sys.path.insert(0,'/verif/lib')
import build,time
from walk import *; from models import Models
import re
build.ensure_tool()
lv,src,pat=sys.argv[1:4]
if not src.startswith('/'): src=src
u=Unit(build.extract(src,lv))
def pe(e,ind=2):
    s=' '*ind
    if e[0]=='for':
        print(s+'for',atom(e[1]),'<',show(e[2]))
        for cs,ef in e[3]:
            print(s+'  if',[show(c) for c in cs])
            for x in ef: pe(x,ind+4)
    elif e[0]=='st': print(s+'st%d [%s] = %s'%(e[2],show(e[1]),show(e[3])))
    else: print(s+show(tuple(x for x in e if not (isinstance(x,list) and x and isinstance(x[0],list)))))
for f in u.j['functions']:
    if re.search(pat,f['dem']) :
        t=time.time()
        w=Walker(f,u,Models())
        print('=====',f['dem'])
        try:
            cs=w.run()
        except Unknown as e:
            print('UNKNOWN',e); continue
        print(len(cs),'cases %.2fs steps %d'%(time.time()-t,w.steps))
        for c in cs:
            if c.outcome!='ret' and '-a' not in sys.argv: continue
            print(' case',c.outcome,[show(x) for x in c.facts.conds])
            for e in c.eff: pe(e)
            if '-v' in sys.argv: print('  vecs',{show(k):(show(v.buf),show(v.size)) for k,v in c.vecs.items()})
            print('  ret',show(c.ret))
