"""development aid: searches for refutations without loop summaries; on a correct tree it must find none"""
import sys,time,os
sys.argv=['check.py','']+sys.argv[1:]
filt=sys.argv[2:]
os.environ['VERIF_REPO']=os.environ.get('T','/repo'); os.environ['VERIF_BUILD']=os.environ.get('SWEEP_BUILD','/tmp/w/sweep')
sys.path.insert(0,'/verif/engine'); sys.setrecursionlimit(20000)
import check, contracts
check.load()
G=check.G
import multiprocessing as mp
def one(k):
    ex=G['Ex'](G['crate'],G['std'].Std()); ex.contracts=dict(G['con']); ex.opaque=True
    for q in G['con']: ex.status[q]=True
    t=time.time()
    try: r=contracts.verify(ex,G['crate'].by_key[k],ex.contracts[k],max_s=60,refute=True)
    except Exception as e: return k,'EXC '+repr(e)[:200],time.time()-t,{}
    return k,(r.why or '')[:80],time.time()-t,{n:o['fail'][0][:int(os.environ.get('V','0'))] for n,o in r.failed.items()}
ks=[k for k,c in G['con'].items() if check.has(k) and (not filt or any(f in k for f in filt))]
if not filt: ks=[k for k in ks if G['con'][k].recs or os.environ.get('ALL')]
with mp.get_context('fork').Pool(6) as p:
    for k,w,s,f in p.imap_unordered(one,ks):
        print('BAD' if f else 'ok',k,w,'%.1fs'%s)
        for n,d in f.items(): print('    ',n); print(d)
        sys.stdout.flush()
