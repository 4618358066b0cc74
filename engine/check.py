#!/usr/bin/env python3-vt
"""check.py PROPERTY: decide one property on /repo's working tree.

1. dump the MIR and the expanded source of /repo's current tree with rustc
2. verify every function the property rests on against its contract (engine/specs_*.py)
3. run the executable oracle of the property on the real library (witnesses; bounded stand-in
   for functions the verifier could not decide)
4. write evidence/<id>.json; exit 0, or 1 with a VIOLATION line
"""
import fcntl
import hashlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
PROP = sys.argv[1] if len(sys.argv) > 1 else ''
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
DEADLINE = 480 if TIER == 'quick' else 3300


def left():
    return DEADLINE - (time.time() - T0)


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


# ---------------------------------------------------------------- tree and dump

def tree_hash():
    h = hashlib.sha256()
    for base in ('src', 'Cargo.toml', 'build.rs'):
        p = os.path.join(REPO, base)
        fs = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in fs:
            h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    return h.hexdigest()[:24]


def env(nightly=False):
    e = dict(os.environ)
    e['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin'
    e['HOME'] = '/root'
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['RUSTC_WRAPPER'] = ''
    e['RUSTUP_TOOLCHAIN'] = 'nightly' if nightly else 'stable-x86_64-unknown-linux-gnu'
    e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'tgt-nightly' if nightly else 'tgt')
    e.pop('RUSTFLAGS', None)
    if nightly:
        e['CARGO_PROFILE_DEV_DEBUG'] = '0'
    return e


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


MIRFLAGS = ['-Zunpretty=mir', '-Zmir-opt-level=0', '-Ztrim-diagnostic-paths=no',
            '-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums', '-C', 'panic=abort']


def lockfile():
    lk = os.path.join(REPO, 'Cargo.lock')
    if not os.path.exists(lk) and os.path.exists('/opt/vp/Cargo.lock'):
        import shutil
        shutil.copy('/opt/vp/Cargo.lock', lk)


def dump():
    """(mir text, expanded text) of the current tree"""
    h = tree_hash()
    d = os.path.join(BUILD, 'dump', h)
    with Lock('dump'):
        if not os.path.exists(os.path.join(d, 'done')):
            os.makedirs(d, exist_ok=True)
            lockfile()
            e = env(True)
            for name, flags in (('mir', MIRFLAGS), ('exp', ['-Zunpretty=expanded'])):
                fp = os.path.join(e['CARGO_TARGET_DIR'], 'debug', '.fingerprint')
                if os.path.isdir(fp):
                    for x in os.listdir(fp):
                        if x.startswith('sshcerts-'):
                            subprocess.run(['rm', '-rf', os.path.join(fp, x)])
                with open(os.path.join(d, name + '.txt'), 'w') as out, open(os.path.join(d, name + '.err'), 'w') as err:
                    r = subprocess.run(['cargo', 'rustc', '--offline', '--lib', '--'] + flags, cwd=REPO, env=e, stdout=out, stderr=err)
                if r.returncode or os.path.getsize(os.path.join(d, name + '.txt')) < 1000:
                    raise RuntimeError('rustc could not dump the tree: ' + open(os.path.join(d, name + '.err')).read()[-2000:])
            open(os.path.join(d, 'done'), 'w').close()
            for x in os.listdir(os.path.join(BUILD, 'dump')):
                if x != h:
                    subprocess.run(['rm', '-rf', os.path.join(BUILD, 'dump', x)])
        return open(os.path.join(d, 'mir.txt')).read(), open(os.path.join(d, 'exp.txt')).read()


# ---------------------------------------------------------------- verification

G = {}


def load():
    import mirparse
    import stdlib
    from exec import Ex
    import specs_all
    mir, exp = dump()
    c = mirparse.Crate(mir, exp, REPO)
    G['crate'] = c
    G['con'] = specs_all.CON
    G['lemmas'] = specs_all.LEMMAS
    G['relevant'] = specs_all.relevant
    G['rests'] = specs_all.rests
    G['std'] = stdlib
    G['Ex'] = Ex


def has(k):
    if k in G['lemmas']:
        return True
    return k in G['crate'].by_key


UNDEC = {'ok': False, 'okp': False, 'failed': {}, 'n': 0, 'okn': 0, 'names': [], 'secs': 0, 'paths': 0, 'used': [], 'inlined': [], 'ext': {}, 'bad': [],
         'weak': {}, 'solver_s': 0}


def one(task):
    """verify one function in a worker"""
    key, bad, budget, opaque = task
    import contracts
    import core
    try:
        ex = G['Ex'](G['crate'], G['std'].Std())
        ex.contracts = dict(G['con'])
        ex.opaque = opaque
        for k in G['con']:
            ex.status[k] = k not in bad
        s0 = core.STATS.solver_s if hasattr(core.STATS, 'solver_s') else 0
        if key in G['lemmas']:
            out = [u for u in G['lemmas'][key].uses if u in bad]
            if out:
                return dict(UNDEC, key=key, undecided='rests on contracts that were not proved: ' + ', '.join(out), used=sorted(G['lemmas'][key].uses), bad=sorted(bad))
            r = contracts.verify_lemma(ex, G['lemmas'][key], max_s=budget)
        else:
            con = ex.contracts[key]
            r = contracts.verify(ex, G['crate'].by_key[key], con, max_s=min(con.max_s, budget) if opaque else budget)
        rel = lambda k: G['relevant'](PROP, k)
        okp = r.why is None and bool(r.obls) and not any(rel(k) and (o['fail'] or o['unknown'] or o['weak']) for k, o in r.obls.items())
        out = {'key': key, 'ok': bool(r.ok), 'okp': okp, 'failed': {k: (o['fail'][0] if o['fail'] else '') for k, o in r.failed.items() if rel(k)},
               'undecided': r.undecided or (None if r.ok else 'an obligation failed that this property does not rest on: ' + '; '.join(r.failed)[:300]), 'n': sum(o['n'] for o in r.obls.values()), 'okn': sum(o['ok'] for o in r.obls.values()),
               'names': sorted(r.obls), 'secs': r.secs, 'paths': r.paths, 'used': sorted(r.used), 'inlined': sorted(r.inlined),
               'ext': dict(r.ext) if isinstance(r.ext, dict) else sorted(r.ext), 'bad': sorted(bad)}
        out['solver_s'] = (core.STATS.solver_s if hasattr(core.STATS, 'solver_s') else 0) - s0
        weak = {k: o['weak'][0] for k, o in r.obls.items() if o['weak']}
        out['weak'] = weak
        return out
    except Exception:
        return dict(UNDEC, key=key, undecided='engine error: ' + traceback.format_exc().strip().split('\n')[-1] + '\n' + traceback.format_exc()[-1500:], bad=sorted(bad))


def verify_all(prop):
    """results per function for the property's roots and everything they use"""
    con, lem = G['con'], G['lemmas']
    roots = [k for k, c in con.items() if prop in c.props] + [k for k, l in lem.items() if prop in l.props]
    missing = [k for k in roots if not has(k)]
    roots = [k for k in roots if has(k)]
    res = {}
    gone = frozenset(k for k in con if not has(k))
    budget = 240 if TIER == 'quick' else 900
    with mp.get_context('fork').Pool(8) as pool:
        def batch(tasks):
            """run tasks, newly discovered callees included"""
            pend = {}
            done = {}
            for t in tasks:
                pend[t[0]] = pool.apply_async(one, (t,))
            while pend:
                for k in list(pend):
                    if pend[k].ready() or left() < 60:
                        a = pend.pop(k)
                        if a.ready():
                            done[k] = a.get()
                        else:
                            done[k] = dict(UNDEC, key=k, undecided='time budget of the check used up')
                        yield done[k]
                time.sleep(0.02)
        queue = list(roots)
        seen = set(queue)
        while queue:
            nxt = []
            for r in batch([(k, gone, budget, True) for k in queue]):
                res[r['key']] = r
                for u in r['used']:
                    if u not in seen and has(u):
                        seen.add(u)
                        nxt.append(u)
            queue = nxt
        # a function whose obligations were not all discharged is taken by its body in its callers
        bad = {k for k, r in res.items() if not r['ok']}
        if bad or missing:
            # look for a failing input first: with one in hand nothing is left to decide
            G['orc'] = oracle(prop, 40 if TIER == 'quick' else 300, 8)
            if fresh(prop, G['orc']):
                return roots, missing, res
        first = dict(res)
        tried = {}
        rounds = 0
        while bad and rounds < 6 and left() > 90 and not any(res[k]['failed'] for k in roots):
            rounds += 1
            todo = []
            for k, r in first.items():
                b = frozenset(x for x in bad if x != k)
                dep = uses(first, k, b)
                if not dep and k not in bad:
                    continue
                if not dep:
                    continue
                if tried.get(k) == b:
                    continue
                tried[k] = b
                todo.append((k, gone | b, min(budget, max(30, left() - 60)), True))
            if not todo:
                break
            for r in batch(todo):
                k = r['key']
                res[k] = r
                if r['ok']:
                    bad.discard(k)
                else:
                    bad.add(k)
        # second attempt with the definitions of all specification functions visible
        for k in [k for k in roots if not res[k]['okp'] and not res[k]['failed']]:
            if left() < 120:
                break
            b = frozenset(x for x in bad if x != k)
            for r in batch([(k, gone | b, min(120, left() - 60), False)]):
                if r['okp'] or r['failed']:
                    res[k] = r
    return roots, missing, res


def uses(res, k, bad):
    """does k's proof use a function in bad?"""
    return [u for u in res[k]['used'] if u in bad]


# ---------------------------------------------------------------- oracle

def start_oracle():
    """build the oracle against the current tree while the verifier runs"""
    os.makedirs(BUILD, exist_ok=True)
    lockfile()
    G['oracle_log'] = open(os.path.join(BUILD, 'oracle-build.%d.log' % os.getpid()), 'w+')
    G['oracle'] = subprocess.Popen(['flock', os.path.join(BUILD, 'oracle.lock'), 'nice', 'cargo', 'build', '--offline', '--release', '--quiet'],
                                   cwd=os.path.join(VERIF, 'oracle'), env=env(), stdout=G['oracle_log'], stderr=subprocess.STDOUT)


NO_ORACLE = {'C23': 'the functions of this property need a hardware token: proof only, no run on the real code'}


def oracle(prop, secs, workers):
    if prop in NO_ORACLE:
        return {'skipped': NO_ORACLE[prop]}
    """run the property's executable specification against the real library"""
    rc = G['oracle'].wait()
    G['oracle_log'].seek(0)
    t = G['oracle_log'].read()
    os.remove(G['oracle_log'].name)
    log('oracle built' if not rc else 'oracle does not build')
    if rc:
        return {'skipped': 'oracle does not build: ' + t[-3000:]}
    e = env()
    exe = os.path.join(e['CARGO_TARGET_DIR'], 'release', 'oracle')
    out = {'violations': [], 'evaluations': 0, 'distinct': 0, 'samples': [], 'seconds': secs, 'workers': workers}
    ps = []
    for i in range(workers):
        o = open(os.path.join(BUILD, 'oracle-%s-%d.out' % (prop, i)), 'w+')
        ps.append((i, o, subprocess.Popen([exe, prop, str(SEED + 1000 * i), str(secs)], env=e, stdout=o, stderr=subprocess.STDOUT, cwd=BUILD)))
    end = time.time() + secs * 3 + 60
    for i, o, p in ps:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            out.setdefault('timed_out', []).append(i)
            continue
        o.seek(0)
        t = o.read()
        o.close()
        os.remove(o.name)
        rep = None
        for l in t.splitlines():
            if l.startswith('{"evaluations"'):
                try:
                    rep = json.loads(l)
                except ValueError:
                    pass
        if rep is None:
            # the process died: the library aborted it or overflowed its stack
            out['violations'].append({'tag': 'abort', 'what': 'the library aborted the process (exit %s)' % p.returncode, 'input': t[-3000:],
                                      'replay': 'oracle %s %d %d' % (prop, SEED + 1000 * i, secs)})
            continue
        out['evaluations'] += rep['evaluations']
        out['distinct'] += rep['distinct']
        if not out['samples']:
            out['samples'] = rep['samples']
        if rep['violations'] and not out['violations']:
            # the same seed must show it again
            try:
                t = subprocess.run([exe, prop, str(SEED + 1000 * i), str(3 * secs)], env=e, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=BUILD, timeout=3 * secs + 60).stdout.decode('utf8', 'replace')
                again = json.loads([l for l in t.splitlines() if l.startswith('{"evaluations"')][-1])['violations']
            except Exception as x:
                again = [str(x)]
            if not again:
                out.setdefault('not_reproduced', []).append(rep['violations'][0])
                continue
        out['violations'] += rep['violations']
    return out


# ---------------------------------------------------------------- main

def known(prop):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                out.append(l.split(' ', 2)[2])
    return out


def fresh(prop, orc):
    """violations that the known-findings file does not list"""
    kn = known(prop)
    return [v for v in orc.get('violations', []) if not any(v.get('tag') and v['tag'] == f.split(':')[0] for f in kn)]


def main():
    prop = sys.argv[1]
    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join(EVID, prop + '.replay.txt')
    if os.path.exists(replay):
        os.remove(replay)
    err = None
    if prop not in NO_ORACLE:
        start_oracle()
    roots, missing, res = [], [], {}
    try:
        load()
        log('dumped and parsed', len(G['crate'].by_key), 'functions')
        roots, missing, res = verify_all(prop)
    except Exception:
        err = traceback.format_exc()
        log('verifier did not run:', err[-1500:])
    n = sum(r['n'] for r in res.values())
    okn = sum(r['okn'] for r in res.values())
    failed = [k for k in roots if res[k]['failed']]
    undec = [k for k in roots if not res[k]['okp'] and not res[k]['failed']]
    # a public function whose own contract is refuted and whose effect on a root could not be followed
    blame = []
    for k in undec:
        for u in closure(res, k):
            fl = [o for o in res[u]['failed'] if k not in G['lemmas'] or G['rests'](prop, o)]
            if fl and not getattr(G['con'].get(u), 'internal', False) and u not in blame:
                blame.append(u)
    for k in sorted(res):
        r = res[k]
        log(' ', 'proved   ' if r['ok'] else 'REFUTED  ' if r['failed'] else 'undecided', k, '%d/%d obligations, %d paths, %.1fs' % (r['okn'], r['n'], r['paths'], r['secs']),
            '' if r['ok'] else (r['undecided'] or '')[:300])
    if 'orc' in G:
        orc = G['orc']
    elif failed or blame or undec or missing or err:
        orc = oracle(prop, 40 if TIER == 'quick' else 300, 8)
    else:
        orc = oracle(prop, 6 if TIER == 'quick' else 300, 4 if TIER == 'quick' else 8)
    log('oracle:', json.dumps({k: v for k, v in orc.items() if k not in ('samples', 'violations')})[:600])
    kn = known(prop)
    viols = fresh(prop, orc)
    status = 0
    lines = []
    if viols:
        status = 1
        lines.append('VIOLATION property=%s replay=%s' % (prop, replay))
    elif failed or blame:
        status = 1
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay))
    if status:
        with open(replay, 'w') as f:
            f.write('property %s on %s (tree %s)\n' % (prop, REPO, tree_hash()))
            for v in viols:
                f.write('\nfailing input on the real code:\n' + json.dumps(v, indent=1) + '\nreplay: %s\n' % v.get('replay', 'oracle %s %d (seed and case above)' % (prop, SEED)))
            for k in failed + blame:
                for o, d in res[k]['failed'].items():
                    f.write('\nfailed obligation: %s\n%s\n' % (o, d))
    ext = {}
    for r in res.values():
        for e in r['ext']:
            ext[e] = 1
    inl = sorted({i for r in res.values() for i in r['inlined']})
    proved = [k for k in sorted(res) if res[k]['ok']]
    cov = {
        'obligations': n, 'discharged': okn,
        'checker_cmd': './check %s' % prop,
        'functions_under_contract': [k for k in proved if k not in G.get('lemmas', ())],
        'lemmas_over_contracts': [k for k in proved if k in G.get('lemmas', ())],
        'functions_inlined_in_proofs': inl,
        'roots': roots,
        'not_discharged': {k: ('refuted: ' + '; '.join(res[k]['failed']) if res[k]['failed'] else res[k]['undecided']) for k in sorted(res) if not res[k]['ok']},
        'bounded': {k: 'decided only by the bounded oracle below' for k in undec + missing},
        'back_end': 'z3 (python bindings), one query per obligation and path',
        'solver_s': round(sum(r.get('solver_s', 0) for r in res.values()), 2),
        'paths': sum(r['paths'] for r in res.values()),
        'trusted_base': ['rustc nightly MIR generation', 'z3', '/verif/engine MIR semantics'] + sorted('assumed contract: ' + e for e in ext),
        'oracle': {k: v for k, v in orc.items() if k != 'violations'},
        'evaluations': int(orc.get('evaluations', 0)), 'distinct_nontrivial': int(orc.get('distinct', 0)),
    }
    if err:
        cov['verifier_error'] = err[-2000:]
    assumptions = [
        'slices, strings and vectors are shorter than 2^56 bytes (address space)',
        'dependency functions behave as the assumed contracts listed in trusted_base say (cryptographic primitives are uninterpreted)',
        'system randomness is available; memory allocation succeeds',
        'default cargo features; panic=abort MIR of the debug profile (overflow checks on)',
    ]
    assumptions += sorted({'%s (in lemmas)' % a for k in res if k in G.get('lemmas', ()) for a in G['lemmas'][k].assumes})
    ev = {'property': prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': 'proof', 'coverage': cov, 'assumptions': assumptions,
          'wall_s': round(time.time() - T0, 2), 'violations': len(viols) + (len(failed) + len(blame) if not viols else 0)}
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for f in kn:
        print('KNOWN-FINDING: property=%s %s' % (prop, f))
    if status == 0:
        print('OK property=%s: %d/%d obligations in %d functions%s' % (prop, okn, n, len(res), ', bounded: ' + ', '.join(undec + missing) if undec or missing else ''))
    for l in lines:
        print(l)
    sys.stdout.flush()
    os._exit(status)


def closure(res, k):
    out, q = [], [k]
    while q:
        x = q.pop()
        for u in res.get(x, {}).get('used', []) + res.get(x, {}).get('inlined', []):
            if u in res and u not in out:
                out.append(u)
                q.append(u)
    return out


if __name__ == '__main__':
    main()
