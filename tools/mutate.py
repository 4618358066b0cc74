#!/usr/bin/env python3-vt
"""mutate.py SEED COUNT [FILE...]: development aid. Random small changes to a scratch clone of /repo; those that compile and pass
the test suite are given to the verifier and the oracle. Prints one line per surviving mutant."""
import json
import os
import random
import re
import subprocess
import sys
seed, count = int(sys.argv[1]), int(sys.argv[2])
W = '/tmp/w/mut%d' % seed
T = W + '/repo'
FILES = sys.argv[3:] or ['ssh/keytype.rs', 'ssh/cert.rs', 'ssh/privkey.rs', 'ssh/reader.rs', 'ssh/allowed_signer.rs', 'ssh/pubkey.rs', 'ssh/writer.rs',
                         'ssh/signature.rs', 'utils.rs', 'x509/mod.rs', 'yubikey/verification.rs', 'fido/verification.rs', 'fido/parsing.rs', 'fido/generate/mod.rs']
OPS = [
    (r' == ', [' != ']), (r' != ', [' == ']), (r' < ', [' <= ', ' > ']), (r' > ', [' >= ', ' < ']), (r' <= ', [' < ']), (r' >= ', [' > ']),
    (r' && ', [' || ']), (r' \|\| ', [' && ']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r' & ', [' | ']), (r' \| ', [' & ']),
    (r'\bif !', ['if ']), (r'\bif (?!let|!)', ['if !']), (r'(?<![\w.])(\d+)(?![\w.])', ['+1', '-1']), (r'0x([0-9a-fA-F]+)', ['hex']),
    (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\.to_be_bytes', ['.to_le_bytes']), (r'from_be_bytes', ['from_le_bytes']),
    (r'\bNone\b(?= =>)', None), (r'"([^"\\]+)"', ['str']), (r'\bas usize\b', ['as u8 as usize']), (r'\.trim_end\(\)', ['.trim()']), (r'\.trim\(\)', ['', '.trim_end()']),
    (r'Some\(([a-z_.]+)\)', ['None']), (r'\.\.(\w+)\]', ['..=']), (r'starts_with', ['contains', 'ends_with']), (r'SHA256', ['SHA512', 'SHA384']), (r'P256', ['P384']), (r'(\w+)\.(\w+)\.clone\(\)', None),
    (r'^(\s*)([a-z_.]+\([^;]*\)\??;)$', ['del']), (r'^(\s*)(return Err\(.*\);)$', ['del']), (r'^(\s*)([\w.]+ [+-]?= .*;)$', ['del']),
]


def sh(c, cwd=T, t=600, env=None):
    e = dict(os.environ)
    e.update(PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
             CARGO_PROFILE_DEV_DEBUG='0', CARGO_TARGET_DIR=W + '/tgt')
    e.update(env or {})
    try:
        return subprocess.run(c, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True, errors='replace')
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(c, 99, 'timeout')


os.makedirs(W, exist_ok=True)
if not os.path.exists(T):
    sh('git clone -q /repo %s && cp /repo/Cargo.lock %s/' % (T, T), cwd=W)
    sh('cp -a /verif/oracle %s/oracle && sed -i "s|/repo|%s|" %s/oracle/Cargo.toml' % (W, T, W), cwd=W)
base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if False else None
rnd = random.Random(seed)
sites = []
for f in FILES:
    ls = open('%s/src/%s' % (T, f)).read().split('\n')
    for n, l in enumerate(ls):
        if '#[cfg(test)]' in l or 'mod tests' in l:
            break
        if l.strip().startswith(('//', '#', 'use ', 'pub mod', 'impl', 'pub struct', 'pub enum', 'mod ')):
            continue
        for pat, reps in OPS:
            if reps == ['str'] and re.search(r'Error|write!|pretty|format!|to_owned|expect|Could|debug', l):
                continue
            for m in re.finditer(pat, l):
                for r in reps or []:
                    sites.append((f, n, m.start(), m.end(), r, m.group(0)))
rnd.shuffle(sites)
done = 0
for f, n, a, b, r, old in sites:
    if done >= count:
        break
    p = '%s/src/%s' % (T, f)
    src = open(p).read()
    ls = src.split('\n')
    l = ls[n]
    if r in ('+1', '-1'):
        v = int(old) + int(r)
        if v < 0:
            continue
        new = str(v)
    elif r == 'hex':
        new = '0x%x' % (int(old, 16) ^ rnd.choice([1, 0x80, 0x10]) if len(old) <= 4 else int(old, 16) ^ 1)
    elif r == 'str':
        k = rnd.randrange(len(old) - 2) + 1
        new = old[:k] + rnd.choice([old[k].swapcase(), 'x', '']) + old[k + 1:]
    elif r == 'del':
        new = ''
    elif r == '..=':
        new = '..=' + old[2:]
    else:
        new = r
    if new == old:
        continue
    ls[n] = l[:a] + new + l[b:]
    open(p, 'w').write('\n'.join(ls))
    try:
        if sh('cargo check --offline --lib -q').returncode:
            continue
        if sh('cargo test --workspace --offline -q -- --test-threads 4', t=240).returncode:
            continue
        done += 1
        print('MUT %s:%d | %s | -> | %s' % (f, n + 1, l.strip(), ls[n].strip()), flush=True)
        o = sh('python3-vt /verif/tools/sweep.py %s --changed' % T, env={'SWEEP_BUILD': W + '/sweep'}, t=900).stdout
        o = [x for x in o.split('\n') if x.startswith(('REFUTED', 'undecided', 'gone')) or 'verified,' in x]
        for x in o:
            print('    ', x[:260])
        ob = sh('cargo build --release --offline -q', cwd=W + '/oracle', env={'CARGO_TARGET_DIR': W + '/otgt'})
        hits = []
        if ob.returncode == 0:
            ps = []
            for i in range(1, 23):
                ps.append(('C%02d' % i, subprocess.Popen([W + '/otgt/release/oracle', 'C%02d' % i, '1', '8'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=W)))
                if len(ps) == 8 or i == 22:
                    for q, x in ps:
                        try:
                            t = x.communicate(timeout=120)[0].decode('utf8', 'replace').strip().split('\n')[-1]
                            if json.loads(t)['violations']:
                                hits.append(q)
                        except Exception:
                            x.kill()
                            hits.append(q + '(died)')
                    ps = []
        else:
            hits = ['oracle does not build: ' + ob.stdout[-200:]]
        ref = [x for x in o if x.startswith('REFUTED')]
        print('     %s oracle: %s' % ('CAUGHT' if ref or hits else 'MISSED' if not [x for x in o if x.startswith('und')] else 'UNDECIDED', hits), flush=True)
    finally:
        open(p, 'w').write(src)
