"""Specifications of key types, curves and public keys."""
from contracts import *
import stdlib
from stdlib import hashed, b64, unb64
from specs_wire import CON, contract, _C, enc_bytes, mpint_body, w_app, rd, set_off, tr32, EOF, BAD
import specs_wire as W
from recs import *

KTK = ('adt', 'ssh::keytype::KeyTypeKind', ())
CVK = ('adt', 'ssh::keytype::CurveKind', ())

# the supported OpenSSH key types: name -> (plain, short, is_cert, is_sk, kind)
SFX = '-cert-v01@openssh.com'
KT = {
    'ssh-rsa': ('ssh-rsa', 'RSA', False, False, 'Rsa'),
    'rsa-sha2-256': ('ssh-rsa', 'RSA', False, False, 'Rsa'),
    'rsa-sha2-512': ('ssh-rsa', 'RSA', False, False, 'Rsa'),
    'ssh-rsa' + SFX: ('ssh-rsa', 'RSA-CERT', True, False, 'RsaCert'),
    'ssh-ed25519': ('ssh-ed25519', 'ED25519', False, False, 'Ed25519'),
    'ssh-ed25519' + SFX: ('ssh-ed25519', 'ED25519-CERT', True, False, 'Ed25519Cert'),
    'sk-ssh-ed25519@openssh.com': ('sk-ssh-ed25519@openssh.com', 'ED25519-SK', False, True, 'Ed25519'),
    'sk-ssh-ed25519' + SFX: ('sk-ssh-ed25519@openssh.com', 'ED25519-SK', True, True, 'Ed25519'),
    'sk-ecdsa-sha2-nistp256@openssh.com': ('sk-ecdsa-sha2-nistp256@openssh.com', 'ECDSA-SK', False, True, 'Ecdsa'),
    'sk-ecdsa-sha2-nistp256' + SFX: ('sk-ecdsa-sha2-nistp256@openssh.com', 'ECDSA-SK', True, True, 'Ecdsa'),
}
for _c in ('256', '384', '521'):
    _n = 'ecdsa-sha2-nistp' + _c
    KT[_n] = (_n, 'ECDSA', False, False, 'Ecdsa')
    KT[_n + SFX] = (_n, 'ECDSA-CERT', True, False, 'EcdsaCert')
CURVES = {'nistp256': 'Nistp256', 'nistp384': 'Nistp384', 'nistp521': 'Nistp521'}

K_OK = ufn('kt.supported', B, BS)
K_PLAIN = ufn('kt.plain', B, B)
K_SHORT = ufn('kt.short', B, B)
K_CERT = ufn('kt.cert', B, BS)
K_SK = ufn('kt.sk', B, BS)
K_KIND = ufn('kt.kind', B, U)
C_OK = ufn('curve.supported', B, BS)
C_KIND = ufn('curve.kind', B, U)


def kt_facts(ex, cx, s):
    """table of the supported names, instantiated at s"""
    t = bterm(cx, s)
    if cx.once(('kt', t.get_id())):
        cx.blen(K_PLAIN(t))
        cx.blen(K_SHORT(t))
        eqs = []
        for n, (plain, short, cert, sk, kind) in KT.items():
            f = zb(seq_eq(cx, s, lit(n))) if ex.current == 'KeyType::from_name' else t == lit_facts(cx, n.encode())
            eqs.append(f)
            cx.add(Implies(f, And(K_PLAIN(t) == lit_facts(cx, plain.encode()), 
                                  K_CERT(t) == cert, K_SK(t) == sk,
                                  DISCR(K_KIND(t)) == ex.discr_of(Enum('KeyTypeKind', kind)))))
        cx.add(K_OK(t) == Or(*eqs))
        assert all(v[0][-12:] == '@openssh.com' for v in KT.values() if v[3])
        cx.add(Implies(And(K_OK(t), K_SK(t)), cx.at(K_PLAIN(t), LEN(K_PLAIN(t)) - 12) == ord('@')))
        cx.add(UTF8(K_PLAIN(t)))
        cx.add(UTF8(K_SHORT(t)))
    return t


def keytype_of(ex, cx, s):
    """(supported, KeyType value)"""
    t = kt_facts(ex, cx, s)
    kind = SymE(KTK, K_KIND(t))
    ex.discr(cx, kind)
    by = {'name': s, 'short_name': sym(K_SHORT(t)), 'is_cert': K_CERT(t), 'is_sk': K_SK(t), 'kind': kind, 'plain': sym(K_PLAIN(t))}
    names = ex.field_names('KeyType', 6)
    return K_OK(t), Struct('KeyType', [by[n] for n in names])


def fld(ex, v, name):
    """field by name"""
    if isinstance(v, MRef):
        raise Unsupported('fld of reference')
    return v.f[ex.field_names(v.name, len(v.f)).index(name)]


def mkstruct(ex, name, **kw):
    names = ex.field_names(name, len(kw))
    if set(names) != set(kw):
        raise Unsupported('%s has other fields than the specification knows' % name)
    return Struct(name, [kw[n] for n in names])


def upd(ex, v, **kw):
    names = ex.field_names(v.name, len(v.f))
    return Struct(v.name, [kw.get(n, x) for n, x in zip(names, v.f)])


@contract('KeyType::from_name', props=('C11',), max_s=200)
def k_from_name(ex, cx, name):
    s = ex.deref(cx, name)
    ok, kt = keytype_of(ex, cx, s)
    if cx.branch(ok, 'a supported key type'):
        return Ok(kt)
    return Err(E('UnknownKeyType'))


@contract('Curve::from_identifier', props=('C11',))
def k_curve(ex, cx, name):
    s = ex.deref(cx, name)
    t = bterm(cx, s)
    k = C_KIND(t)
    if cx.once(('curve', t.get_id())):
        eqs = []
        for n, kind in CURVES.items():
            f = zb(seq_eq(cx, s, lit(n)))
            eqs.append(f)
            cx.add(Implies(f, DISCR(k) == ex.discr_of(Enum('CurveKind', kind))))
        cx.add(C_OK(t) == Or(*eqs))
    if cx.branch(C_OK(t), 'a supported curve'):
        kind = SymE(CVK, k)
        ex.discr(cx, kind)
        return Ok(mkstruct(ex, 'Curve', kind=kind, identifier=s))
    return Err(E('UnknownCurve'))


def wf_keytype(ex, cx, kt):
    """the value is one that from_name can return"""
    ok, want = keytype_of(ex, cx, fld(ex, kt, 'name'))
    return band(zb(ok), *[zb(ex.veq(cx, a, b)) for a, b in zip(kt.f, want.f)])


def pre_kt(ex, cx, kt):
    return wf_keytype(ex, cx, ex.deref(cx, kt))


@contract('KeyType::as_cert_name', props=('C11', 'C03'), pre=pre_kt)
def k_cert_name(ex, cx, kt):
    """<plain>-cert-v01@openssh.com, the @openssh.com of a hardware key's plain name being replaced"""
    v = ex.deref(cx, kt)
    t = bterm(cx, fld(ex, v, 'plain'))
    c = K_CNAME(t)
    if ex.current == 'KeyType::as_cert_name':
        for p in sorted({x[0] for x in KT.values()}):
            if cx.branch(zb(seq_eq(cx, fld(ex, v, 'plain'), lit(p))), 'plain name is ' + p):
                return lit((p[:-12] if p.endswith('@openssh.com') else p) + SFX)
        raise PathEnd()
    if cx.once(('cname', t.get_id())):
        cx.blen(c)
        cx.add(UTF8(c))
        for p in sorted({x[0] for x in KT.values()}):
            cn = (p[:-12] if p.endswith('@openssh.com') else p) + SFX
            assert cn in KT and KT[cn][0] == p and KT[cn][2]
            cx.add(Implies(t == lit_facts(cx, p.encode()), c == lit_facts(cx, cn.encode())))
    return sym(c)


K_CNAME = ufn('kt.certname', B, B)


@contract('KeyType::as_pubkey_name', props=('C11',))
def k_pub_name(ex, cx, kt):
    return fld(ex, ex.deref(cx, kt), 'plain')


def fmt_spec(f):
    def spec(ex, cx, v, fm):
        x = ex.deref(cx, fm)
        ex.wr(cx, fm, Struct('Formatter', (cat(x.f[0], f(ex, cx, ex.deref(cx, v), x.f[1])), x.f[1])))
        return Ok(UNIT)
    return spec


CON['<KeyType as Display>::fmt'] = Contract('<KeyType as Display>::fmt', fmt_spec(lambda ex, cx, v, alt: fld(ex, v, 'name')), props=('C11', 'C10', 'C04'))


# ------------------------------------------------------------------ derived implementations

def s_eq(ex, cx, a, b):
    return ex.veq(cx, ex.deref(cx, a), ex.deref(cx, b))


def s_clone(ex, cx, a):
    return ex.deref(cx, a)


for _t, _p in (('KeyTypeKind', ('C11', 'C05', 'C02', 'C12')), ('CurveKind', ('C11', 'C12')), ('Curve', ('C11', 'C12')), ('KeyType', ('C11', 'C12', 'C06')),
               ('PublicKeyKind', ('C06', 'C12', 'C10')), ('RsaPublicKey', ('C06', 'C12', 'C10')), ('EcdsaPublicKey', ('C06', 'C12', 'C10')),
               ('Ed25519PublicKey', ('C06', 'C12', 'C10')), ('PublicKey', ('C06', 'C12', 'C10', 'C03'))):
    CON['<%s as PartialEq>::eq' % _t] = Contract('<%s as PartialEq>::eq' % _t, s_eq, props=_p)
    CON['<%s as Clone>::clone' % _t] = Contract('<%s as Clone>::clone' % _t, s_clone, props=_p)


# ------------------------------------------------------------------ public keys

PK = ('adt', 'ssh::pubkey::PublicKey', ())


def pk_app(ex, cx, key):
    """well-formedness: hardware-backed keys carry an application string"""
    sk = zb(fld(ex, fld(ex, key, 'key_type'), 'is_sk'))
    k = fld(ex, key, 'kind')
    cs = []
    for v in ('Ecdsa', 'Ed25519'):
        if isinstance(k, Enum):
            if k.v != v:
                continue
            app = fld(ex, k.f[0], 'sk_application')
            c = True
        else:
            d = ex.from_term(cx, ufn('PublicKeyKind.%s.0' % v, U, U)(k.t), ('adt', 'ssh::pubkey::%sPublicKey' % v, ()))
            app = fld(ex, d, 'sk_application')
            c = ex.discr(cx, k) == ex.discr_of(Enum('PublicKeyKind', v))
        cs.append(Implies(And(sk, zb(c)), zb(ieq(ex.discr(cx, app), 1))))
    return band(*cs)


def pre_pk(ex, cx, key):
    return pk_app(ex, cx, ex.deref(cx, key))


def pre_w_pk(ex, cx, w, key):
    return pk_app(ex, cx, ex.deref(cx, key))


PKD = ufn('pk.data', U, U, B)


def enc_pk_data(ex, cx, key):
    if W.opaque(ex, 'Writer::write_pub_key_data', 'PublicKey::encode'):
        t = PKD(ex.uterm(cx, fld(ex, key, 'kind')), ex.uterm(cx, fld(ex, fld(ex, key, 'key_type'), 'is_sk')))
        cx.blen(t)
        return sym(t)
    k = ex.expand(cx, fld(ex, key, 'kind'))
    d = k.f[0]
    if k.v == 'Rsa':
        return cat(enc_bytes(cx, mpint_body(ex, cx, fld(ex, d, 'e'))), enc_bytes(cx, mpint_body(ex, cx, fld(ex, d, 'n'))))
    out = []
    if k.v == 'Ecdsa':
        out.append(enc_bytes(cx, fld(ex, fld(ex, d, 'curve'), 'identifier')))
    out.append(enc_bytes(cx, fld(ex, d, 'key')))
    if cx.branch(zb(fld(ex, fld(ex, key, 'key_type'), 'is_sk')), 'hardware-backed key'):
        a = ex.expand(cx, fld(ex, d, 'sk_application'), 'Some')
        if a is None:
            raise PathEnd()
        out.append(enc_bytes(cx, a.f[0]))
    return cat(*out)


def enc_pk(ex, cx, key, plain=True):
    return cat(enc_bytes(cx, fld(ex, fld(ex, key, 'key_type'), 'plain' if plain else 'name')), enc_pk_data(ex, cx, key))


@contract('Writer::write_pub_key_data', props=('C09', 'C03', 'C13'), pre=pre_w_pk)
def w_pkd(ex, cx, w, key):
    return w_app(ex, cx, w, enc_pk_data(ex, cx, ex.deref(cx, key)))


@contract('Writer::write_pub_key', props=('C09', 'C07', 'C13'), pre=pre_w_pk)
def w_pk(ex, cx, w, key):
    return w_app(ex, cx, w, enc_bytes(cx, enc_pk(ex, cx, ex.deref(cx, key), False)))


PENC = ufn('pk.enc', U, B)


@contract('PublicKey::encode', props=('C10', 'C03'), pre=pre_pk)
def p_encode(ex, cx, key):
    return enc_pk(ex, cx, ex.deref(cx, key))


@contract('PublicKey::bits', props=('C10',))
def p_bits(ex, cx, key):
    key = ex.deref(cx, key)
    k = ex.expand(cx, fld(ex, key, 'kind'))
    if k.v == 'Rsa':
        return imul(slen(fld(ex, k.f[0], 'n')), 8)
    if k.v == 'Ed25519':
        return 256
    c = ex.expand(cx, fld(ex, fld(ex, k.f[0], 'curve'), 'kind'))
    return {'Nistp256': 256, 'Nistp384': 384, 'Nistp521': 521}[c.v]


PKR_OK = ufn('pk.ok', B, B, IS, BS)
PKR_END = ufn('pk.end', B, B, IS, IS)
PKR_KIND = ufn('pk.kind', B, B, IS, U)


def kind_matches(ex, cx, kt, kind):
    """RSA types have RSA keys and so on"""
    d, k = ex.discr(cx, fld(ex, kt, 'kind')), ex.discr(cx, kind)
    cs = []
    for v in ('Rsa', 'Ecdsa', 'Ed25519'):
        is_t = bor(*[zb(ieq(d, ex.discr_of(Enum('KeyTypeKind', n)))) for n in (v, v + 'Cert')])
        cs.append(zb(is_t) == zb(ieq(k, ex.discr_of(Enum('PublicKeyKind', v)))))
    return band(*cs)


def read_pk(ex, cx, name, r):
    """specification of a public key body of the named type at the reader"""
    ok, kt = keytype_of(ex, cx, name)
    if not cx.branch(ok, 'a supported key type'):
        return some_err()
    if W.opaque(ex, 'PublicKey::from_reader'):
        inner, off = rd(ex, cx, r)
        a = (bterm(cx, name), bterm(cx, inner), zi(off))
        if not cx.branch(PKR_OK(*a), 'a well-formed key of that type'):
            return some_err()
        end = PKR_END(*a)
        cx.add(And(end >= zi(off), end <= zi(slen(inner))))
        set_off(ex, cx, r, end)
        kind = SymE(('adt', 'ssh::pubkey::PublicKeyKind', ()), PKR_KIND(*a))
        ex.discr(cx, kind)
        key = mkstruct(ex, 'PublicKey', key_type=kt, kind=kind, comment=NONE)
        cx.add(zb(pk_app(ex, cx, key)))
        cx.add(zb(kind_matches(ex, cx, kt, kind)))
        return Ok(key)
    kind = fld(ex, kt, 'kind')
    d = ex.discr(cx, kind)
    dk = lambda n: d == ex.discr_of(Enum('KeyTypeKind', n))
    if cx.branch(Or(dk('Rsa'), dk('RsaCert')), 'an RSA type'):
        e = W.s_mpint(ex, cx, r)
        if e.v == 'Err':
            return e
        n = W.s_mpint(ex, cx, r)
        if n.v == 'Err':
            return n
        k = Enum('PublicKeyKind', 'Rsa', (mkstruct(ex, 'RsaPublicKey', e=e.f[0], n=n.f[0]),))
    else:
        ec = cx.branch(Or(dk('Ecdsa'), dk('EcdsaCert')), 'an ECDSA type')
        if ec:
            i = W.s_string(ex, cx, r)
            if i.v == 'Err':
                return i
            c = k_curve(ex, cx, i.f[0])
            if c.v == 'Err':
                return c
        b = W.s_bytes(ex, cx, r)
        if b.v == 'Err':
            return b
        app = NONE
        if cx.branch(zb(fld(ex, kt, 'is_sk')), 'hardware-backed'):
            a = W.s_string(ex, cx, r)
            if a.v == 'Err':
                return a
            app = Some(a.f[0])
        if ec:
            k = Enum('PublicKeyKind', 'Ecdsa', (mkstruct(ex, 'EcdsaPublicKey', curve=c.f[0], key=b.f[0], sk_application=app),))
        else:
            k = Enum('PublicKeyKind', 'Ed25519', (mkstruct(ex, 'Ed25519PublicKey', key=b.f[0], sk_application=app),))
    key = mkstruct(ex, 'PublicKey', key_type=kt, kind=k, comment=NONE)
    if ex.current == 'PublicKey::from_reader':
        # what callers may assume of the key
        cx.oblige_spec(pk_app(ex, cx, key), 'a hardware-backed key has an application')
        cx.oblige_spec(kind_matches(ex, cx, kt, k), 'the key is of the kind its type says')
    return Ok(key)


@contract('PublicKey::from_reader', props=('C10', 'C02'), err_free=True, max_s=200)
def p_from_reader(ex, cx, name, r):
    return read_pk(ex, cx, ex.deref(cx, name), r)


def local_reader(ex, cx, s):
    cx.frames += 1
    fr = Frame(None, cx.frames)
    fr.l[0] = Struct('Reader', (s, 0))
    return MRef(fr, 0)


@contract('PublicKey::from_bytes', props=('C10', 'C02', 'C07', 'C12'), max_s=200)
def p_from_bytes(ex, cx, data):
    r = local_reader(ex, cx, stdlib.as_seq(_C(ex, cx), ex.deref(cx, data)))
    n = W.s_string(ex, cx, r)
    if n.v == 'Err':
        return n
    return read_pk(ex, cx, n.f[0], r)


def words(ex, cx, s):
    """whitespace-separated words of s as an iterator-like accessor"""
    c = _C(ex, cx)
    return stdlib.words_list(c, s)


@contract('PublicKey::from_string', props=('C10',), max_s=200)
def p_from_string(ex, cx, contents):
    v = words(ex, cx, ex.deref(cx, contents))
    n = ex.vlen(cx, v)
    if cx.branch(zb(ilt(n, 2)), 'fewer than two words'):
        return some_err()
    name, data = ex.elem(cx, v, 0), ex.elem(cx, v, 1)
    ok, dec = unb64(cx, data)
    if not cx.branch(zb(ok), 'valid base64'):
        return some_err()
    r = local_reader(ex, cx, dec)
    inner = W.s_string(ex, cx, r)
    if inner.v == 'Err':
        return inner
    if not cx.branch(zb(seq_eq(cx, inner.f[0], name)), 'text and blob name the same type'):
        return some_err()
    k = read_pk(ex, cx, name, r)
    if k.v == 'Err':
        return k
    com = NONE
    if cx.branch(zb(ilt(2, n)), 'a comment'):
        com = Some(ex.elem(cx, v, 2))
    return Ok(upd(ex, k.f[0], comment=com))


def pk_text(ex, cx, key, *tail):
    e = b64(cx, enc_pk(ex, cx, key))
    out = [fld(ex, fld(ex, key, 'key_type'), 'name'), lit(' '), e]
    c = ex.expand(cx, fld(ex, key, 'comment'))
    if c.v == 'Some':
        out += [lit(' '), c.f[0]]
    return cat(*(out + list(tail)))


CON['<PublicKey as Display>::fmt'] = Contract('<PublicKey as Display>::fmt', fmt_spec(lambda ex, cx, v, alt: pk_text(ex, cx, v)), props=('C10',),
                                              pre=lambda ex, cx, k, f: pk_app(ex, cx, ex.deref(cx, k)))


def sink_mk(ex, cx, i, ty, hint):
    if ty[0] == 'ref' and ty[1] and ty[2][0] in ('param', 'unknown') or 'W' == str(ty[2][1] if ty[0] == 'ref' and len(ty[2]) > 1 else ''):
        return Struct('IoSink', (cx.fseq('written'), 0))
    return None


def sink_write(ex, cx, w, data):
    """everything in one go, or an error"""
    v = ex.deref(cx, w)
    if cx.branch(ufn('sink.ok', IS, BS)(zi(v.f[1])), 'write succeeds'):
        ex.wr(cx, w, Struct('IoSink', (cat(v.f[0], data), v.f[1])))
        return Ok(UNIT)
    return some_err()


@contract('PublicKey::write', props=('C10',), mk=sink_mk, pre=lambda ex, cx, k, w: pk_app(ex, cx, ex.deref(cx, k)), err_free=True)
def p_write(ex, cx, key, w):
    return sink_write(ex, cx, w, pk_text(ex, cx, ex.deref(cx, key), lit('\n')))


FPK = ('adt', 'ssh::pubkey::FingerprintKind', ())
FP_ALG = {'Sha256': 'SHA256', 'Sha384': 'SHA384', 'Sha512': 'SHA512'}


def fp_value(ex, cx, kind, data):
    k = ex.expand(cx, kind)
    h = hashed(cx, FP_ALG[k.v], data)
    e = b64(cx, h)
    return mkstruct(ex, 'Fingerprint', kind=k, hash=trim_pad(ex, cx, e))


def trim_pad(ex, cx, e):
    """base64 text without its padding"""
    k = stdlib.b64_core(cx, e)
    return sub(cx, e, 0, k)


@contract('Fingerprint::compute', props=('C10',))
def fp_compute(ex, cx, kind, data):
    return fp_value(ex, cx, ex.deref(cx, kind), stdlib.as_seq(_C(ex, cx), ex.deref(cx, data)))


@contract('PublicKey::fingerprint_with', props=('C10',), pre=lambda ex, cx, k, f: pk_app(ex, cx, ex.deref(cx, k)))
def fp_with(ex, cx, key, kind):
    return fp_value(ex, cx, ex.deref(cx, kind), enc_pk(ex, cx, ex.deref(cx, key)))


@contract('PublicKey::fingerprint', props=('C10',), pre=pre_pk)
def fp_default(ex, cx, key):
    return fp_value(ex, cx, Enum('FingerprintKind', 'Sha256'), enc_pk(ex, cx, ex.deref(cx, key)))


def fp_kind_text(ex, cx, v, alt):
    return lit(FP_ALG[ex.expand(cx, v).v])


CON['<FingerprintKind as Display>::fmt'] = Contract('<FingerprintKind as Display>::fmt', fmt_spec(fp_kind_text), props=('C10',))
CON['<Fingerprint as Display>::fmt'] = Contract('<Fingerprint as Display>::fmt', fmt_spec(
    lambda ex, cx, v, alt: cat(fp_kind_text(ex, cx, fld(ex, v, 'kind'), alt), lit(':'), fld(ex, v, 'hash'))), props=('C10',))
