#!/usr/bin/env python3
# mut.py FILE 'old' 'new' CHECKS... : apply, run checks, revert
import sys,subprocess,os
f,old,new=sys.argv[1:4]
p=os.path.join('/repo',f)
s=open(p).read()
n=s.count(old)
idx=0
if '@@' in old:
    old,i=old.split('@@');idx=int(i);n=s.count(old)
assert n>idx,(n,'occurrences')
parts=s.split(old)
t=old.join(parts[:idx+1])+new+old.join(parts[idx+1:])
open(p,'w').write(t)
try:
    for c in sys.argv[4:]:
        r=subprocess.run(['python3','/verif/run.py',c],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        print(c,'rc',r.returncode); print('\n'.join(r.stdout.splitlines()[-8:]))
finally:
    open(p,'w').write(s)
