import subprocess, os, json, sys
def mk(id, prop, edits, needs, breaks, demo):
    d='/verif/seeded/'+id
    assert subprocess.run(['git','-C','/tmp/sw','status','--short'],capture_output=True,text=True).stdout=='', 'dirty'
    try:
        for f,old,new in edits:
            p='/tmp/sw/'+f; s=open(p).read()
            assert s.count(old)==1, (id, f, s.count(old), old[:60])
            open(p,'w').write(s.replace(old,new))
        diff=subprocess.run(['git','-C','/tmp/sw','diff'],capture_output=True,text=True).stdout
    finally:
        subprocess.run(['git','-C','/tmp/sw','checkout','-q','--','.'])
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write('''#!/bin/bash
# run in /repo after build.sh
PY=/opt/vp/pyvenv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONPATH="$PWD/python" PYTHONDONTWRITEBYTECODE=1 exec "$PY" "$(dirname "$0")/demo.py"
''')
    os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.py','w').write('from math_core import LatexToMathML, LatexError\nimport xml.dom.minidom as X, sys\n'+demo.strip()+'\n')
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
R='crates/mathml-renderer/src/'; C='crates/math-core/src/'
def mkr(id, prop, edits, needs, breaks, demo):
    mk(id,prop,edits,needs,breaks,'')
    d='/verif/seeded/'+id
    os.remove(d+'/demo.py')
    open(d+'/demo.rs','w').write('#![allow(unused)]\nuse math_core::*;\n'+demo.strip()+'\n')
    open(d+'/demo.sh','w').write('''#!/bin/bash
# run in /repo after build.sh
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
rustc --edition 2024 -L dependency="$PWD/target/debug/deps" --extern math_core="$PWD/target/debug/libmath_core.rlib" -o "$T/demo" "$(dirname "$0")/demo.rs" || exit 3
"$T/demo"
''')
DEMO='''
import subprocess,os,tempfile,sys
T=os.path.join(os.getcwd(),'target','debug','mathcore')
def run(doc,*args):
    with tempfile.TemporaryDirectory() as d:
        p=os.path.join(d,'x.html'); open(p,'w').write(doc)
        r=subprocess.run([T,*args,p],capture_output=True,text=True,cwd=d)
        return r.returncode,r.stdout
'''
def mkc(id,prop,edits,needs,breaks,demo):
    mk(id,prop,edits,needs,breaks,'')
    d='/verif/seeded/'+id
    open(d+'/demo.py','w').write(DEMO.lstrip()+demo.strip()+'\n')
    open(d+'/demo.sh','w').write('#!/bin/bash\n# run in /repo after build.sh\nPYTHONDONTWRITEBYTECODE=1 exec python3 "$(dirname "$0")/demo.py"\n')
