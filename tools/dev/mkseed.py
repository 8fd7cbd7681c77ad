#!/usr/bin/env python3
# mkseed.py spec.py ; spec defines ID PROP EDITS=[(file,old,new[,idx])] DEMO NEEDS BREAKS
import sys,subprocess,os,json,tempfile,shutil
ns={}
exec(open(sys.argv[1]).read(),ns)
for S in ns['SEEDS']:
    d='/verif/seeded/'+S['id']
    os.makedirs(d,exist_ok=True)
    w='/tmp/mkseed_w'
    shutil.rmtree(w,ignore_errors=True)
    files=sorted({e[0] for e in S['edits']})
    for side in 'ab':
        for f in files:
            os.makedirs(os.path.dirname(f'{w}/{side}/{f}'),exist_ok=True)
            s=subprocess.run(['git','-C','/repo','show','HEAD:'+f],capture_output=True,text=True,check=True).stdout
            if side=='b':
                for e in S['edits']:
                    if e[0]!=f: continue
                    n=s.count(e[1]); i=e[3] if len(e)>3 else 0
                    assert n>=1 and (len(e)>3 or n==1),(S['id'],f,n,e[1])
                    p=s.split(e[1]); s=e[1].join(p[:i+1])+e[2]+e[1].join(p[i+1:])
            open(f'{w}/{side}/{f}','w').write(s)
    r=subprocess.run(['git','diff','--no-index','--no-prefix','a','b'],cwd=w,capture_output=True,text=True)
    t=r.stdout
    open(d+'/patch.diff','w').write(t)
    subprocess.run(['git','-C','/repo','apply','--check',d+'/patch.diff'],check=True)
    if 'demo' in S:
        open(d+'/demo.py','w').write(S['demo'].lstrip('\n'))
        open(d+'/demo.sh','w').write('''#!/bin/bash
# exit 0 when the property holds on this input
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH=/repo/_build/pkg LD_LIBRARY_PATH=/repo/_build/pkg/awkward PYTHONDONTWRITEBYTECODE=1
exec timeout 250 /opt/vp/venv/bin/python "$D/demo.py"
''')
        os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':S['prop'],'needs':S['needs'],'what_it_breaks':S['breaks']},open(d+'/meta.json','w'),indent=1)
    r=subprocess.run(['bash',d+'/demo.sh'],cwd='/repo',capture_output=True,text=True)
    print(S['id'],'demo on clean rc',r.returncode,r.stdout[-300:],r.stderr[-600:])
    # checks
    if '--nocheck' not in sys.argv:
        subprocess.run(['git','-C','/repo','apply',d+'/patch.diff'],check=True)
        try:
            r=subprocess.run(['python3','/verif/run.py',S['prop']],capture_output=True,text=True)
            print('   check rc',r.returncode,'\n   '.join(r.stdout.splitlines()[-3:]))
            if '--build' in sys.argv:
                r=subprocess.run(['bash','/opt/vp/build.sh'],capture_output=True,text=True)
                if r.returncode: print('BUILD FAIL',r.stdout[-1500:],r.stderr[-500:])
                r=subprocess.run(['bash',d+'/demo.sh'],cwd='/repo',capture_output=True,text=True)
                print('   demo on patched rc',r.returncode,r.stdout[-300:],r.stderr[-300:])
        finally:
            subprocess.run(['git','-C','/repo','checkout','--','.'],check=True)
            if '--build' in sys.argv: subprocess.run(['bash','/opt/vp/build.sh'],capture_output=True,text=True)
