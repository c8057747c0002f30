#!/usr/bin/env python3
"""hunkcommit.py FILE 'i,j,..' PROPERTY MESSAGE WHAT  - commit only the given hunks (0-based, of git diff -U0) of FILE in /repo as one fix."""
import sys,subprocess
f,idx,prop,msg,what=sys.argv[1:6]
d=subprocess.run(['git','-C','/repo','diff','-U1','--',f],capture_output=True).stdout
parts=d.split(b'\n@@ '); head=parts[0]; hunks=parts[1:]
if idx=='show':
    for i,h in enumerate(hunks): print(i,h[:200])
    sys.exit()
p=head+b''.join(b'\n@@ '+hunks[int(i)].rstrip(b'\n') for i in idx.split(','))+b'\n'
subprocess.run(['git','-C','/repo','apply','--cached','-'],input=p,check=True)
subprocess.run(['git','-C','/repo','commit','-qm','fix: '+msg],check=True)
h=subprocess.run(['git','-C','/repo','rev-parse','--short','HEAD'],capture_output=True,text=True).stdout.strip()
open('/verif/KNOWN_FINDINGS.txt','a').write(f'fixed: property={prop} {h} {what}\n'); print(h)
