import sys
sys.path.insert(0,'/verif/engine'); sys.setrecursionlimit(20000)
import mirparse, stdlib, core
from exec import Ex
from contracts import *
import specs_all, lemmas
c=mirparse.Crate(open('/tmp/w/d/mir.txt').read(),open('/tmp/w/d/exp.txt').read(),'/repo')
for k,l in lemmas.LEMMAS.items():
    if len(sys.argv)>1 and not any(a in k for a in sys.argv[1:]): continue
    ex=Ex(c,stdlib.Std()); ex.contracts=dict(specs_all.CON)
    for q in ex.contracts: ex.status[q]=True
    r=verify_lemma(ex,l)
    print(k,'OK' if r.ok else 'FAIL' if r.failed else 'UNDECIDED', r.undecided or '', r.paths,'paths %.2fs'%r.secs, sum(o['n'] for o in r.obls.values()),'obls', [u for u in l.uses if u not in ex.contracts])
    for n,o in r.obls.items():
        print('   ',n,o['n'],o['ok'])
        for w in ('fail','weak'):
            if o[w]: print('   ',w,'\n',o[w][0][:1500])
