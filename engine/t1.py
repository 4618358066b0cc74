import sys,time
sys.path.insert(0,'/verif/engine'); sys.setrecursionlimit(20000)
import mirparse, stdlib
from exec import Ex
from contracts import *
import specs_wire, stdlib_state
for m in ('specs_keys','specs_cert','specs_sig','specs_priv','specs_x','specs_signers','specs_hw'):
    try: __import__(m)
    except ModuleNotFoundError as e:
        if e.name!=m: raise
c=mirparse.Crate(open('/tmp/w/d/mir.txt').read(),open('/tmp/w/d/exp.txt').read(),'/repo')
ex=Ex(c,stdlib.Std())
ex.contracts=dict(specs_wire.CON)
for k in specs_wire.CON: ex.status[k]=True
for k in specs_wire.CON:
    if len(sys.argv)>1 and not any(a in k for a in sys.argv[1:]):
        ex.status[k]=True
        continue
    fn=c.by_key[k]
    full=not (len(sys.argv)>1)
    r=verify(ex,fn,ex.contracts[k])
    ex.status[k]=r.ok
    print(k, 'OK' if r.ok else 'FAIL' if r.failed else 'UNDECIDED', r.undecided or '', r.paths,'paths %.2fs'%r.secs, sum(o['n'] for o in r.obls.values()),'obls')
    for n,o in r.obls.items():
        for w in ('fail','weak'):
            if o[w]: print('   ',w,n,'\n',o[w][0][:1500])
