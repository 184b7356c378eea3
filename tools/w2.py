import sys; sys.path.insert(0,'/verif/lib')
from walk import *; from models import Models
import build,re
u=Unit(build.extract(sys.argv[1],'vec'))
for f in u.j['functions']:
    if re.search(sys.argv[2],f['dem']):
        w=Walker(f,u,Models())
        for c in w.run():
            for e in c.eff:
                if e[0]=='for':
                    print(e[2].t,{i:atom(i) for i in all_atoms(e[2])})
                    for cs,ef in e[3]:
                        for x in ef: print(x[:4], {i:atom(i) for i in all_atoms(x[3])} if x[0]=='st' else '')
