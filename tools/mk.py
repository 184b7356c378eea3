import os, subprocess, json, tempfile
DEMO='''#!/bin/bash
# builds and runs the small program beside this script against the library built in the current directory
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=gnu++11 -O1 -w -I_build/include -Iinclude "$d/demo.cc" -o "$t/demo" _build/src/.libs/libtensor.a -lgfortran -lopenblas -lfftw3 || exit 3
cd "$t" && timeout 120 ./demo
'''
def mk(id, prop, edits, demo, needs, breaks):
    d='/verif/seeded/'+id
    os.makedirs(d, exist_ok=True)
    files={}
    for f,old,new in edits:
        t=files.get(f) or open('/repo/'+f).read()
        assert t.count(old)==1,(id,f,t.count(old))
        files[f]=t.replace(old,new)
    out=''
    for f,t in files.items():
        with tempfile.NamedTemporaryFile('w',delete=False) as tf: tf.write(t)
        r=subprocess.run(['git','diff','--no-index','--no-color','/repo/'+f,tf.name],capture_output=True,text=True).stdout
        lines=r.split('\n')
        k=[i for i,l in enumerate(lines) if l.startswith('@@')][0]
        out+='diff --git a/%s b/%s\n--- a/%s\n+++ b/%s\n'%(f,f,f,f)+'\n'.join(lines[k:])
        os.unlink(tf.name)
    open(d+'/patch.diff','w').write(out)
    open(d+'/demo.sh','w').write(DEMO)
    open(d+'/demo.cc','w').write(demo)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
