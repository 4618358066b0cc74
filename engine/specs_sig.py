"""Specifications of signature verification, SSHSIG and the DER/SSH signature conversions."""
from specs_keys import *
from specs_keys import mkstruct, fld, upd
from stdlib import verifies, rsa_key_term
import specs_keys as K
from specs_wire import _C

VS_OK = ufn('sig.ok', B, B, U, IS, BS)

EC_ALG = {'ecdsa-sha2-nistp256': ('ECDSA_P256_SHA256_FIXED', 32),
          'sk-ecdsa-sha2-nistp256@openssh.com': ('ECDSA_P256_SHA256_FIXED', 32),
          'ecdsa-sha2-nistp384': ('ECDSA_P384_SHA384_FIXED', 48)}
RSA_ALG = {'rsa-sha2-256': 'RSA_PKCS1_2048_8192_SHA256', 'rsa-sha2-512': 'RSA_PKCS1_2048_8192_SHA512',
           'ssh-rsa': 'RSA_PKCS1_2048_8192_SHA1_FOR_LEGACY_USE_ONLY'}
ED_ALG = ('ssh-ed25519', 'sk-ssh-ed25519@openssh.com')


def name_case(ex, cx, name, table):
    for n in table:
        if cx.branch(zb(seq_eq(cx, name, lit(n))), 'algorithm ' + n):
            return n
    return None


def sk_message(ex, cx, r, app, msg):
    """flags and counter from the blob, wrapped message; None if truncated"""
    fl = W.s_raw(ex, cx, r, 1)
    if fl.v == 'Err':
        return None
    ctr = W.s_u32(ex, cx, r)
    if ctr.v == 'Err':
        return None
    return cat(hashed(cx, 'SHA256', app), fl.f[0], be(4, ctr.f[0]), hashed(cx, 'SHA256', msg))


def sig_ok(ex, cx, sig, msg, key):
    """is sig a valid SSH signature blob by key over msg?  (concrete bool, by branching)"""
    if W.opaque(ex, 'ssh::signature::verify_signature'):
        f = VS_OK(bterm(cx, sig), bterm(cx, msg), ex.uterm(cx, fld(ex, key, 'kind')), zi(ex.discr(cx, fld(ex, fld(ex, key, 'key_type'), 'kind'))))
        return cx.branch(f, 'the signature is valid')
    r = local_reader(ex, cx, sig)
    n = W.s_string(ex, cx, r)
    if n.v == 'Err':
        return False
    name = n.f[0]
    ok, kt = keytype_of(ex, cx, name)
    if not cx.branch(ok, 'a supported algorithm name'):
        return False
    if not cx.branch(zb(ex.veq(cx, fld(ex, fld(ex, key, 'key_type'), 'kind'), fld(ex, kt, 'kind'))), 'algorithm of the family of the key'):
        return False
    k = ex.expand(cx, fld(ex, key, 'kind'))
    d = k.f[0]
    if k.v == 'Rsa':
        n = name_case(ex, cx, name, RSA_ALG)
        if n is None:
            return False
        s = W.s_bytes(ex, cx, r)
        if s.v == 'Err':
            return False
        f = stdlib.verify_uf(RSA_ALG[n])(rsa_key_term(cx, fld(ex, d, 'n'), fld(ex, d, 'e')), bterm(cx, msg), bterm(cx, s.f[0]))
        return cx.branch(f, 'RSA signature verifies')
    b = W.s_bytes(ex, cx, r)
    if b.v == 'Err':
        return False
    if k.v == 'Ed25519':
        if name_case(ex, cx, name, ED_ALG) is None:
            return False
        alg, raw = 'ED25519', b.f[0]
    else:
        n = name_case(ex, cx, name, EC_ALG)
        if n is None:
            return False
        alg, size = EC_ALG[n]
        r2 = local_reader(ex, cx, b.f[0])
        rr = W.s_mpint(ex, cx, r2)
        if rr.v == 'Err':
            return False
        ss = W.s_mpint(ex, cx, r2)
        if ss.v == 'Err':
            return False
        rr, ss = rr.f[0], ss.f[0]
        if not cx.branch(band(zb(ile(slen(rr), size)), zb(ile(slen(ss), size))), 'r and s fit the field'):
            return False
        raw = cat(zeros(isub(size, slen(rr))), rr, zeros(isub(size, slen(ss))), ss)
    a = ex.expand(cx, fld(ex, d, 'sk_application'))
    if a.v == 'Some':
        msg = sk_message(ex, cx, r, a.f[0], msg)
        if msg is None:
            return False
    return cx.branch(verifies(cx, alg, fld(ex, d, 'key'), msg, raw), 'signature verifies (%s)' % alg)


def zeros(n):
    return Seq((('rep', 0, n),)) if isz(n) else lit(b'\0' * n)


@contract('ssh::signature::verify_signature', props=('C05',), max_s=400)
def v_sig(ex, cx, sig, msg, key):
    sig, msg = ex.deref(cx, sig), ex.deref(cx, msg)
    if sig_ok(ex, cx, sig, msg, ex.deref(cx, key)):
        return Ok(sig)
    return some_err()


# ------------------------------------------------------------------ SSHSIG

HASHES = {'Sha256': ('sha256', 'SHA256'), 'Sha512': ('sha512', 'SHA512')}
MAGIC = lit(b'SSHSIG')


@contract('HashAlgorithm::as_str', props=('C06', 'C07'))
def h_str(ex, cx, h):
    return lit(HASHES[ex.expand(cx, ex.deref(cx, h)).v][0])


def sshsig_read(ex, cx, r):
    m = W.s_raw(ex, cx, r, 6)
    if m.v == 'Err' or not cx.branch(zb(seq_eq(cx, m.f[0], MAGIC)), 'SSHSIG magic'):
        return some_err()
    v = W.s_u32(ex, cx, r)
    if v.v == 'Err' or not cx.branch(zb(ieq(v.f[0], 1)), 'version 1'):
        return some_err()
    kb = W.s_bytes(ex, cx, r)
    if kb.v == 'Err':
        return kb
    k = p_from_bytes(ex, cx, kb.f[0])
    if k.v == 'Err':
        return k
    ns = W.s_string(ex, cx, r)
    if ns.v == 'Err':
        return ns
    if cx.branch(zb(ieq(slen(ns.f[0]), 0)), 'empty namespace'):
        return some_err()
    rs = W.s_string(ex, cx, r)
    if rs.v == 'Err':
        return rs
    h = W.s_string(ex, cx, r)
    if h.v == 'Err':
        return h
    for v, (n, _) in HASHES.items():
        if cx.branch(zb(seq_eq(cx, h.f[0], lit(n))), 'hash ' + n):
            break
    else:
        return some_err()
    s = W.s_bytes(ex, cx, r)
    if s.v == 'Err':
        return s
    return Ok(mkstruct(ex, 'SshSignature', pubkey=k.f[0], namespace=ns.f[0], hash_algorithm=Enum('HashAlgorithm', v), signature=s.f[0]))


@contract('SshSignature::from_reader', props=('C07',), err_free=True, max_s=200)
def ss_from_reader(ex, cx, r):
    return sshsig_read(ex, cx, r)


BEGIN_SIG, END_SIG = lit('-----BEGIN SSH SIGNATURE-----'), lit('-----END SSH SIGNATURE-----')


def _armor_step(end):
    def step(ex, cx, st):
        it, acc = st
        coll, i, rb, _ = it_split(it)
        if cx.branch(zb(ile(ex.vlen(cx, coll), i)), 'no more lines'):
            return 'done', NONE
        line = ex.elem(cx, coll, i)
        if cx.branch(zb(seq_eq(cx, line, end)), 'footer line'):
            return 'done', Some(acc)
        return 'next', [rb(iadd(i, 1)), cat(acc, line)]
    return step


R_SIGARMOR = TailRec('sigarmor', ['it', 'seq'], _armor_step(END_SIG), 'std::option::Option<std::string::String>')


def armor(ex, cx, s, begin, rec):
    """body text between a header line and a footer line, or None"""
    lines = stdlib.lines_list(_C(ex, cx), s)
    n = ex.vlen(cx, lines)
    if cx.branch(zb(ile(n, 0)), 'no lines'):
        return None
    if not cx.branch(zb(seq_eq(cx, ex.elem(cx, lines, 0), begin)), 'header line'):
        return None
    c = _C(ex, cx)
    r = ex.expand(cx, rec.call(ex, cx, [list_iter(ex, cx, lines, 1), Seq(())]))
    return r.f[0] if r.v == 'Some' else None


def list_iter(ex, cx, v, i):
    return It('list', v, i)


@contract('SshSignature::from_armored_string', props=('C07',), recs=(R_SIGARMOR,), max_s=200)
def ss_armored(ex, cx, contents):
    body = armor(ex, cx, ex.deref(cx, contents), BEGIN_SIG, R_SIGARMOR)
    if body is None:
        return some_err()
    ok, dec = unb64(cx, body)
    if not cx.branch(zb(ok), 'valid base64'):
        return some_err()
    return sshsig_read(ex, cx, local_reader(ex, cx, dec))


def signed_format(ex, cx, ns, hash_, msg):
    h = ex.expand(cx, hash_)
    n, alg = HASHES[h.v]
    return cat(MAGIC, enc_bytes(cx, ns), enc_bytes(cx, Seq(())), enc_bytes(cx, lit(n)), enc_bytes(cx, hashed(cx, alg, msg)))


@contract('SshSignature::to_signed_format', props=('C06',))
def ss_signed(ex, cx, s, msg):
    s = ex.deref(cx, s)
    return signed_format(ex, cx, fld(ex, s, 'namespace'), fld(ex, s, 'hash_algorithm'), ex.deref(cx, msg))


@contract('VerifiedSshSignature::from_ssh_signature', props=('C06',), max_s=200)
def vs_from(ex, cx, msg, s, ns, key):
    msg, s, ns = ex.deref(cx, msg), ex.deref(cx, s), ex.deref(cx, ns)
    key = ex.expand(cx, ex.deref(cx, key))
    if key.v == 'Some' and not cx.branch(zb(ex.veq(cx, fld(ex, s, 'pubkey'), ex.deref(cx, key.f[0]))), 'the expected key is the one in the signature'):
        return some_err()
    if not cx.branch(zb(seq_eq(cx, ns, fld(ex, s, 'namespace'))), 'same namespace'):
        return some_err()
    if not sig_ok(ex, cx, fld(ex, s, 'signature'), signed_format(ex, cx, ns, fld(ex, s, 'hash_algorithm'), msg), fld(ex, s, 'pubkey')):
        return some_err()
    return Ok(mkstruct(ex, 'VerifiedSshSignature', signature=s, message=msg))


# ------------------------------------------------------------------ DER signatures

def der_rs(ex, cx, s):
    """SEQUENCE of two short-form INTEGERs ending with the second -> (r, s) or None"""
    n = slen(s)
    def lt(a, b):
        return cx.branch(zb(ilt(a, b)))
    def byte(i):
        return at(cx, s, i)
    # tag len 02 rlen r 02 slen s
    if lt(n, 4) or not cx.branch(band(zb(ieq(byte(0), 0x30)), zb(ieq(byte(2), 2))), 'SEQUENCE of INTEGER'):
        return None
    rl = byte(3)
    if lt(n, iadd(rl, 4 + 3)):
        return None
    if not cx.branch(zb(ieq(byte(iadd(rl, 4)), 2)), 'second INTEGER'):
        return None
    sl = byte(iadd(rl, 5))
    if not cx.branch(zb(ieq(n, iadd(iadd(rl, 6), sl))), 'ends with the second integer'):
        return None
    return sub(cx, s, 4, iadd(rl, 4)), sub(cx, s, iadd(rl, 6), n)


DER_OK = ufn('der.ok', B, BS)
DER_R, DER_S = ufn('der.r', B, B), ufn('der.s', B, B)


def der_parts(ex, cx, s):
    if W.opaque(ex, 'utils::asn_der_to_r_s'):
        t = bterm(cx, s)
        if not cx.branch(DER_OK(t), 'a DER signature'):
            return None
        r, q = DER_R(t), DER_S(t)
        cx.blen(r)
        cx.blen(q)
        cx.add(And(LEN(r) <= 255, LEN(q) <= 255))
        return sym(r), sym(q)
    return der_rs(ex, cx, s)


@contract('utils::asn_der_to_r_s', props=('C22',))
def u_der(ex, cx, buf):
    p = der_parts(ex, cx, ex.deref(cx, buf))
    return NONE if p is None else Some(Tup(p))


@contract('utils::signature_convert_asn1_ecdsa_to_ssh', props=('C22',))
def u_conv(ex, cx, sig):
    p = der_parts(ex, cx, ex.deref(cx, sig))
    return NONE if p is None else Some(cat(enc_bytes(cx, p[0]), enc_bytes(cx, p[1])))


@contract('utils::format_signature_for_ssh', props=('C22',))
def u_fmt(ex, cx, key, sig):
    key, sig = ex.deref(cx, key), ex.deref(cx, sig)
    k = ex.expand(cx, fld(ex, key, 'kind'))
    name = fld(ex, fld(ex, key, 'key_type'), 'name')
    if k.v == 'Ecdsa':
        p = der_parts(ex, cx, sig)
        if p is None:
            return NONE
        return Some(cat(enc_bytes(cx, name), enc_bytes(cx, cat(enc_bytes(cx, p[0]), enc_bytes(cx, p[1])))))
    if k.v == 'Rsa':
        name = lit('rsa-sha2-512')
    return Some(cat(enc_bytes(cx, name), enc_bytes(cx, sig)))
