#!/usr/bin/env python3
"""mut.py ID file old new [count]: plant one textual change in /repo, run the quick check of ID, undo. For development only."""
import subprocess,sys
i,f,o,n=sys.argv[1:5]
p='/repo/'+f; s=open(p).read()
assert s.count(o)>=1,("not found",o)
k=int(sys.argv[5]) if len(sys.argv)>5 else 0
parts=s.split(o); assert len(parts)>k+1
t=o.join(parts[:k+1])+n+o.join(parts[k+1:])
open(p,'w').write(t)
try:
    r=subprocess.run(['bin/check',i,'quick'],cwd='/verif',capture_output=True,text=True)
    L=[l for l in r.stdout.splitlines() if '[rapid] draw' not in l]
    v=[l for l in L if 'VIOLATION' in l]
    print('CAUGHT' if r.returncode==1 else 'MISSED rc=%d'%r.returncode, '|', f,'|',o.strip().replace('\n','; ')[:60],'->',n.strip()[:60].replace('\n','; '),'|', (v or L[-2:]))
    if r.returncode==1 and '-v' in sys.argv: print('\n'.join(L[:14]))
finally: open(p,'w').write(s)
