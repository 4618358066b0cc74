#!/usr/bin/env python3-vt
"""sweep.py TREE [--changed] [FILTER...]: development aid. Verifies every contract on another tree and prints those not proved.
--changed: only contracts whose own MIR differs from /repo's, or which inline a function whose MIR differs."""
import os
import re
import sys
tree = sys.argv[1]
args = sys.argv[2:]
changed = '--changed' in args
filt = [a for a in args if not a.startswith('--')]
sys.argv = ['check.py', '']
os.environ['VERIF_REPO'] = tree
os.environ['VERIF_BUILD'] = os.environ.get('SWEEP_BUILD', '/tmp/w/sweep')
sys.path.insert(0, '/verif/engine')
import check  # noqa
check.load()
G = check.G
import multiprocessing as mp
keys = [k for k in G['con'] if check.has(k)] + ([] if changed else list(G['lemmas']))
gone = frozenset(k for k in G['con'] if not check.has(k))
if gone:
    print('gone:', sorted(gone))
if filt:
    keys = [k for k in keys if any(f in k for f in filt)]
if changed:
    import mirparse
    base = mirparse.Crate(open('/tmp/w/d/mir.txt').read(), open('/tmp/w/d/exp.txt').read(), '/repo')

    def norm(fn):
        return re.sub(r'[a-z_/0-9.]*\.rs:\d+:\d+(: \d+:\d+)?( \(#\d+\))?', '', repr([(b, v) for b, v in fn.blocks.items()]) if hasattr(fn, 'blocks') else repr(vars(fn)))
    diff = {k for k in G['crate'].by_key if k not in base.by_key or norm(G['crate'].by_key[k]) != norm(base.by_key[k])}
    print('changed functions:', sorted(diff))
    c2 = []
    for k in keys:
        calls = repr(getattr(G['crate'].by_key[k], 'blocks', ''))
        if k in diff or any(k + '::{' in d for d in diff):
            c2.append(k)
    non = {d for d in diff if d not in G['con']}
    if non:
        c2 += [k for k in keys if k not in c2 and any(d.split('::')[-1].split('>')[-1] in repr(vars(G['crate'].by_key[k])) for d in non)]
    keys = c2
    print('verifying:', keys)
with mp.get_context('fork').Pool(8) as pool:
    bad = 0
    for r in pool.imap_unordered(check.one, [(k, gone, 200, True) for k in keys]):
        if not r['ok']:
            bad += 1
            print('REFUTED' if r['failed'] else 'undecided', r['key'], list(G['con'][r['key']].props), 'internal' if getattr(G['con'][r['key']], 'internal', False) else '', '; '.join(r['failed'])[:400], (r['undecided'] or '')[:2600], '%.1fs' % r['secs'])
            if os.environ.get('V'):
                for k, v in r['failed'].items():
                    print('    ', k, v[:1500])
            sys.stdout.flush()
print(len(keys), 'verified,', bad, 'not proved')
