"""Specifications of X.509/DER import, FIDO and PIV attestation, authenticator data."""
from contracts import *
import stdlib
from stdlib_x import *
from specs_wire import CON, contract
import specs_wire as W
from specs_keys import KT, CURVES, keytype_of, k_from_name, k_curve, fld, mkstruct, upd
from recs import *

P256, P384, EC = '1.2.840.10045.3.1.7', '1.3.132.0.34', '1.2.840.10045.2.1'


def is_lit(cx, s, text):
    return zb(seq_eq(cx, s, lit(text)))


def plain_ecdsa(ex, cx, curve, key):
    """the SSH form of an EC point on this curve"""
    n = 'ecdsa-sha2-' + curve
    kt = k_from_name(ex, cx, lit(n)).f[0]
    cv = k_curve(ex, cx, lit(curve)).f[0]
    return mkstruct(ex, 'PublicKey', key_type=kt,
                    kind=Enum('PublicKeyKind', 'Ecdsa', [mkstruct(ex, 'EcdsaPublicKey', curve=cv, key=key, sk_application=Enum('Option', 'None'))]),
                    comment=Enum('Option', 'None'))


def by_curve(ex, cx, oid, key):
    s = oid_str(ex, cx, oid)
    if cx.branch(is_lit(cx, s, P256), 'P-256'):
        return Ok(plain_ecdsa(ex, cx, 'nistp256', key))
    if cx.branch(is_lit(cx, s, P384), 'P-384'):
        return Ok(plain_ecdsa(ex, cx, 'nistp384', key))
    return some_err()


def import_spki(ex, cx, pki):
    """subject key info -> SSH key: an EC key on P-256 or P-384, its point bytes unchanged"""
    alg = ex.rd_field(cx, pki, 0, 'x509_parser::x509::AlgorithmIdentifier')
    oid = ex.rd_field(cx, alg, 0, OID)
    if not cx.branch(is_lit(cx, oid_str(ex, cx, oid), EC), 'EC key'):
        return some_err()
    par = ex.expand(cx, ex.rd_field(cx, alg, 1, 'std::option::Option<x509_parser::der_parser::asn1_rs::Any>'))
    if par.v == 'None':
        return some_err()
    o = ufres(ex, cx, 'any.oid', OID, par.f[0])
    if o.v == 'Err':
        return some_err()
    bits = ex.rd_field(cx, pki, 1, 'x509_parser::der_parser::asn1_rs::BitString')
    return by_curve(ex, cx, o.f[0], ex.rd_field(cx, bits, 1, 'std::borrow::Cow<[u8]>'))


@contract('x509::convert_x509_pki_to_pubkey', props=('C20',), internal=True)
def x_pki(ex, cx, pki):
    return import_spki(ex, cx, ex.deref(cx, pki))


@contract('x509::extract_ssh_pubkey_from_x509_certificate', props=('C20', 'C21'))
def x_cert(ex, cx, data):
    r = x509_cert(ex, cx, ex.deref(cx, data))
    if r.v == 'Err':
        return some_err()
    return import_spki(ex, cx, spki_of(ex, cx, r.f[0].f[1]))


@contract('x509::extract_ssh_pubkey_from_x509_csr', props=('C20', 'C21'))
def x_csr(ex, cx, data):
    r = parsed(ex, cx, 'x509.csr', CSR, ex.deref(cx, data))
    if r.v == 'Err':
        return some_err()
    info = ex.rd_field(cx, r.f[0].f[1], 0, 'x509_parser::certification_request::X509CertificationRequestInfo')
    return import_spki(ex, cx, ex.rd_field(cx, info, 2, SPKI))


@contract('x509::der_encoding_to_ssh_public_key', props=('C20', 'C21'))
def x_der(ex, cx, data):
    """SEQUENCE { SEQUENCE { OID ecPublicKey, OID curve }, BIT STRING point }"""
    r = parsed(ex, cx, 'der.sequence', BEROBJ, ex.deref(cx, data))
    if r.v == 'Err':
        return some_err()
    SEQ = 'std::vec::Vec<%s>' % BEROBJ
    top = ufres(ex, cx, 'ber.sequence', SEQ, r.f[0].f[1])
    if top.v == 'Err' or not cx.branch(zb(ieq(ex.lenl(cx, top.f[0]), 2)), 'two members'):
        return some_err()
    a, b = ex.elem(cx, top.f[0], 0), ex.elem(cx, top.f[0], 1)
    alg = ufres(ex, cx, 'ber.sequence', SEQ, a)
    if alg.v == 'Err' or not cx.branch(zb(ieq(ex.lenl(cx, alg.f[0]), 2)), 'two identifiers'):
        return some_err()
    t = ufres(ex, cx, 'ber.oid', 'der_parser::oid::Oid', ex.elem(cx, alg.f[0], 0))
    if t.v == 'Err':
        return some_err()
    k = ufres(ex, cx, 'ber.oid', 'der_parser::oid::Oid', ex.elem(cx, alg.f[0], 1))
    if k.v == 'Err':
        return some_err()
    if not cx.branch(is_lit(cx, oid_str(ex, cx, t.f[0]), EC), 'EC key'):
        return some_err()
    bs = ufres(ex, cx, 'ber.bitstring', 'der_parser::ber::BitStringObject', b)
    if bs.v == 'Err':
        return some_err()
    return by_curve(ex, cx, k.f[0], ex.rd_field(cx, bs.f[0], 0, '&[u8]'))


# ------------------------------------------------------------------ certificate extensions of attestations

NONE = Enum('Option', 'None')


def dotted(ex, cx, s):
    return cat(stdlib.dec(cx, at(cx, s, 0)), lit('.'), stdlib.dec(cx, at(cx, s, 1)), lit('.'), stdlib.dec(cx, at(cx, s, 2)))


def ext_at(ex, cx, it):
    coll, i, rb, _ = it_split(it)
    if not cx.branch(zb(ilt(i, ex.vlen(cx, coll))), 'another extension'):
        return None
    e = ex.elem(cx, coll, i)
    return oid_str(ex, cx, ex.rd_field(cx, e, 0, OID)), ex.rd_field(cx, e, 2, '&[u8]'), rb(iadd(i, 1))


TRANSPORTS = ('Bluetooth', 'BluetoothLE', 'USB', 'NFC', 'USBInternal')


def _fido_step(ex, cx, st):
    it, va = st
    e = ext_at(ex, cx, it)
    if e is None:
        return 'done', Ok(va)
    oid, val, nxt = e
    if cx.branch(is_lit(cx, oid, '1.3.6.1.4.1.41482.13.1'), 'firmware extension'):
        r = ber(ex, cx, 'der.octets', 'OctetString', val)
        if r.v == 'Err':
            return 'done', some_err()
        s = r.f[0].f[1].f[1].f[0]
        if cx.branch(zb(ieq(slen(s), 3)), 'three bytes'):
            va = upd(ex, va, firmware=Some(dotted(ex, cx, s)))
    elif cx.branch(is_lit(cx, oid, '1.3.6.1.4.1.45724.1.1.4'), 'AAGUID extension'):
        r = ber(ex, cx, 'der.octets', 'OctetString', val)
        if r.v == 'Err':
            return 'done', some_err()
        s = r.f[0].f[1].f[1].f[0]
        if cx.branch(zb(ieq(slen(s), 16)), 'sixteen bytes'):
            va = upd(ex, va, aaguid=Some(s))
    elif cx.branch(is_lit(cx, oid, '1.3.6.1.4.1.45724.2.1.1'), 'transports extension'):
        r = ber(ex, cx, 'ber.bits', 'BitString', val)
        if r.v == 'Err':
            return 'done', some_err()
        bs = r.f[0].f[1].f[1].f[1]
        l = []
        for i, n in enumerate(TRANSPORTS):
            if cx.branch(bit_is_set(ex, cx, bs, i), 'transport ' + n):
                l.append(Enum('Transport', n))
        va = upd(ex, va, transports=Some(VecL(l, None, ('adt', 'fido::verification::Transport', ()))))
    return 'next', [nxt, va]


R_FEXT = TailRec('fido extensions', ['it', 'ValidAttestation'], _fido_step, 'std::result::Result<fido::verification::ValidAttestation, error::Error>')


def fido_ext(ex, cx, ad, cert):
    va = mkstruct(ex, 'ValidAttestation', auth_data=ad, firmware=NONE, aaguid=NONE, transports=NONE)
    return R_FEXT.call(ex, cx, [It('list', extensions_of(ex, cx, cert), 0), va])


@contract('fido::verification::extract_certificate_extension_data', props=('C18', 'C21'), recs=(R_FEXT,), internal=True)
def x_fext(ex, cx, ad, cert):
    return fido_ext(ex, cx, ex.deref(cx, ad), ex.deref(cx, cert))


@contract('<Transport as TryFrom<usize>>::try_from', props=('C18',))
def x_transport(ex, cx, v):
    for i, n in enumerate(TRANSPORTS):
        if cx.branch(zb(ieq(v, i)), n):
            return Ok(Enum('Transport', n))
    return some_err()


def root_spki(ex, cx, pem, which):
    """subject key of the given PEM root, or of the built-in one; None when malformed"""
    p = ex.expand(cx, ex.deref(cx, pem))
    text = p.f[0] if p.v == 'Some' else builtin_root(ex, cx, which)
    r = parsed(ex, cx, 'x509.pem', 'x509_parser::pem::Pem', text)
    if r.v == 'Err':
        return None
    x = ufres(ex, cx, 'pem.x509', X509, r.f[0].f[1])
    if x.v == 'Err':
        return None
    return spki_of(ex, cx, x.f[0])


import os
ROOTS = {}


def builtin_root(ex, cx, which):
    """the Yubico root certificates, as published (engine/roots/*.pem)"""
    if which not in ROOTS:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'roots', which + '.pem')) as f:
            ROOTS[which] = f.read().strip()
    return lit(ROOTS[which])


@contract('fido::verification::verify_auth_data', props=('C18', 'C21'), max_s=200)
def x_vad(ex, cx, ad, sig, chal, alg, inter, root):
    ad, sig, chal, inter = [ex.deref(cx, x) for x in (ad, sig, chal, inter)]
    if not cx.branch(zb(ieq(alg, -7)), 'ES256'):
        return some_err()
    ca = root_spki(ex, cx, root, 'yubico-u2f')
    if ca is None:
        return some_err()
    r = x509_cert(ex, cx, inter)
    if r.v == 'Err':
        return some_err()
    cert = r.f[0].f[1]
    if not cx.branch(x509_signed_by(ex, cx, cert, ca), 'root signed the certificate'):
        return some_err()
    bits = ex.rd_field(cx, spki_of(ex, cx, cert), 1, 'x509_parser::der_parser::asn1_rs::BitString')
    key = ex.rd_field(cx, bits, 1, 'std::borrow::Cow<[u8]>')
    if not cx.branch(stdlib.verify_uf('ECDSA_P256_SHA256_ASN1')(bterm(cx, key), bterm(cx, cat(ad, chal)), bterm(cx, sig)), 'signature over data and challenge'):
        return some_err()
    a = x_authdata(ex, cx, ad)
    if a.v == 'Err':
        return some_err()
    return fido_ext(ex, cx, a.f[0], cert)


# ------------------------------------------------------------------ PIV

def _piv_step(ex, cx, st):
    it, fw, ser, pol = st
    e = ext_at(ex, cx, it)
    if e is None:
        return 'done', Ok(Tup([fw, ser, pol]))
    oid, val, nxt = e
    if cx.branch(is_lit(cx, oid, '1.3.6.1.4.1.41482.3.3'), 'firmware extension'):
        if cx.branch(zb(ieq(slen(val), 3)), 'three bytes'):
            fw = Some(dotted(ex, cx, val))
    elif cx.branch(is_lit(cx, oid, '1.3.6.1.4.1.41482.3.7'), 'serial extension'):
        r = ber(ex, cx, 'der.integer', 'Integer', val)
        if r.v == 'Err':
            return 'done', some_err()
        s = r.f[0].f[1].f[1].f[0]
        if cx.branch(zb(ile(slen(s), 8)), 'at most eight bytes'):
            ser = Some(from_be(cx, cat(Seq(norm([('rep', 0, isub(8, slen(s)))])), s), 8))
    elif cx.branch(is_lit(cx, oid, '1.3.6.1.4.1.41482.3.8'), 'policy extension'):
        if cx.branch(zb(ile(2, slen(val))), 'two bytes'):
            pol = Some(sub(cx, val, 0, 2))
    return 'next', [nxt, fw, ser, pol]


R_PEXT = TailRec('piv extensions', ['it', 'enum|String', 'enum|u64', 'enum|[u8'], _piv_step,
                 'std::result::Result<(std::option::Option<std::string::String>, std::option::Option<u64>, std::option::Option<[u8; 2]>), error::Error>')


def piv_ext(ex, cx, pk, cert):
    r = ex.expand(cx, R_PEXT.call(ex, cx, [It('list', extensions_of(ex, cx, cert), 0), NONE, NONE, NONE]))
    if r.v == 'Err':
        return some_err()
    vs = [ex.expand(cx, x) for x in r.f[0].f]
    if any(v.v == 'None' for v in vs):
        return some_err()
    fw, ser, pol = [v.f[0] for v in vs]
    return Ok(mkstruct(ex, 'ValidPIVKey', public_key=pk, firmware=fw, serial=ser, pin_policy=at(cx, pol, 0), touch_policy=at(cx, pol, 1)))


@contract('yubikey::verification::extract_certificate_extension_data', props=('C19', 'C21'), recs=(R_PEXT,), internal=True)
def x_pext(ex, cx, pk, cert):
    return piv_ext(ex, cx, ex.deref(cx, pk), ex.deref(cx, cert))


@contract('yubikey::verification::verify_certificate_chain', props=('C19', 'C21'), max_s=200)
def x_chain(ex, cx, client, inter, root):
    client, inter = ex.deref(cx, client), ex.deref(cx, inter)
    ca = root_spki(ex, cx, root, 'yubico-piv')
    if ca is None:
        return some_err()
    i = x509_cert(ex, cx, inter)
    if i.v == 'Err':
        return some_err()
    k = x509_cert(ex, cx, client)
    if k.v == 'Err':
        return some_err()
    icert, ccert = i.f[0].f[1], k.f[0].f[1]
    if not cx.branch(x509_signed_by(ex, cx, icert, ca), 'root signed the intermediate'):
        return some_err()
    if not cx.branch(x509_signed_by(ex, cx, ccert, spki_of(ex, cx, icert)), 'intermediate signed the client'):
        return some_err()
    pk = import_spki(ex, cx, spki_of(ex, cx, ccert))
    if pk.v == 'Err':
        return some_err()
    return piv_ext(ex, cx, pk.f[0], ccert)


# ------------------------------------------------------------------ authenticator data (WebAuthn section 6.1, RFC 8152)

def mk_decoder(ex, cx, i, ty, hint):
    if i == 0:
        s = cx.fseq(hint)
        return Struct('Decoder', (s, cx.fint('pos', 0, MAXLEN)))


@contract('fido::parsing::read_integer', props=('C17', 'C21'), mk=mk_decoder, err_free=True, internal=True)
def x_int(ex, cx, d):
    v = ex.deref(cx, d)
    ok, val, nxt = cbor_int(cx, v.f[0], v.f[1])
    if cx.branch(ok, 'CBOR integer'):
        ex.wr(cx, d, Struct('Decoder', (v.f[0], nxt)))
        return Ok(val)
    return some_err()


def map_entries(cx, s):
    """number of entries of the definite-length map at the start"""
    ok, b, info, A, N = head(cx, s, 0)
    return And(ok, b >= 0xa0, b < 0xc0), A, N


def _cose_step(ex, cx, st):
    """one map entry: 1 = key type, 3 = algorithm, -1 = curve, -2 and -3 = byte strings, anything else undefined"""
    d, ck, y, idx = st
    s, p = d.f
    _, n, _ = map_entries(cx, s)
    if not cx.branch(zb(ilt(idx, imul(n, 2))), 'another map entry'):
        return 'done', Ok(Tup([ck, y]))
    ok, k, p = cbor_int(cx, s, p)
    if not cx.branch(ok, 'integer label'):
        return 'done', some_err()
    nxt = None
    for lab in (-1, 1, 3):
        if cx.branch(k == lab, 'label %d' % lab):
            ok, v, nxt = cbor_int(cx, s, p)
            if not cx.branch(ok, 'integer value'):
                return 'done', some_err()
            if lab == 1:
                ck = upd(ex, ck, key_type=v)
            elif lab == 3:
                ck = upd(ex, ck, algorithm=v)
            else:
                ck = upd(ex, ck, parameters=stdlib.minsert(ex, cx, fld(ex, ck, 'parameters'), k, stdlib.dec(cx, v)))
            break
    else:
        ok, b, info, A, N = head(cx, s, p)
        if cx.branch(Or(k == -2, k == -3), 'coordinate'):
            if not cx.branch(And(ok, b >= 0x40, b < 0x60, N + A <= zi(slen(s))), 'byte string value'):
                return 'done', some_err()
            nxt = N + A
            v = sub(cx, s, N, nxt)
            if cx.branch(k == -2, 'first coordinate'):
                ck = upd(ex, ck, key=v)
            else:
                y = Some(v)
        else:
            if not cx.branch(And(zi(p) < zi(slen(s)), b == 0xf7), 'undefined value'):
                return 'done', some_err()
            nxt = zi(p) + 1
    return 'next', [Struct('Decoder', (s, nxt)), ck, y, iadd(idx, 2)]


R_COSE = TailRec('cose map', ['Decoder', 'CoseKey', 'enum|Option', 'int|u64'], _cose_step,
                 'std::result::Result<(fido::parsing::CoseKey, std::option::Option<std::vec::Vec<u8>>), error::Error>')


@contract('AuthData::parse', props=('C17', 'C21'), recs=(R_COSE,), max_s=200)
def x_ad(ex, cx, data):
    """32 bytes RP id hash, flags, 4 bytes counter, 16 bytes AAGUID, 2 bytes length, credential id, COSE key"""
    data = ex.deref(cx, data)
    if W.opaque(ex, 'AuthData::parse'):
        return x_authdata(ex, cx, data)
    if not cx.branch(zb(ile(55, slen(data))), 'fixed part present'):
        return some_err()
    flags = at(cx, data, 32)
    n = from_be(cx, sub(cx, data, 53, 55), 2)
    if not cx.branch(zb(ile(iadd(55, n), slen(data))), 'credential id present'):
        return some_err()
    if not cx.branch((zi(flags) / 64) % 2 == 1, 'attested credential data included'):
        return some_err()
    cose = sub(cx, data, iadd(55, n), slen(data))
    ok, cnt, p = map_entries(cx, cose)
    if not cx.branch(ok, 'definite map'):
        return some_err()
    if not cx.branch(cnt <= 256, 'at most 256 entries'):
        return some_err()
    empty = mkstruct(ex, 'CoseKey', key_type=0, algorithm=0, key=Seq(()), parameters=stdlib.empty_map())
    r = ex.expand(cx, R_COSE.call(ex, cx, [Struct('Decoder', (cose, p)), empty, NONE, 0]))
    if r.v == 'Err':
        return some_err()
    ck, y = r.f[0].f
    y = ex.expand(cx, y)
    if y.v == 'Some':
        # an elliptic curve key: both coordinates form an uncompressed point
        ck = upd(ex, ck, key=cat(lit(b'\x04'), fld(ex, ck, 'key'), y.f[0]))
    return Ok(mkstruct(ex, 'AuthData', rpid_hash=sub(cx, data, 0, 32), flags=flags, sign_count=from_be(cx, sub(cx, data, 33, 37), 4),
                       aaguid=sub(cx, data, 37, 53), credential_id=sub(cx, data, 55, iadd(55, n)), cose_key=ck))


AD = 'std::result::Result<fido::parsing::AuthData, error::Error>'


def x_authdata(ex, cx, data):
    """The result of parsing authenticator data, a function of its bytes (defined by the contract of AuthData::parse)"""
    r = ex.expand(cx, uv(ex, cx, 'authdata.parse', AD, data))
    return r if r.v == 'Ok' else some_err()


@contract('AuthData::user_presence', props=('C17',))
def x_up(ex, cx, a):
    return simp(zi(fld(ex, ex.deref(cx, a), 'flags')) % 2 == 1)


@contract('AuthData::user_verification', props=('C17',))
def x_uv(ex, cx, a):
    return simp((zi(fld(ex, ex.deref(cx, a), 'flags')) / 4) % 2 == 1)


@contract('AuthData::ssh_public_key', props=('C17',))
def x_ssh(ex, cx, a, app):
    ck = fld(ex, ex.deref(cx, a), 'cose_key')
    alg, key, app = fld(ex, ck, 'algorithm'), fld(ex, ck, 'key'), ex.deref(cx, app)
    if cx.branch(zb(ieq(alg, -7)), 'ES256'):
        n = 'sk-ecdsa-sha2-nistp256@openssh.com'
        kind = Enum('PublicKeyKind', 'Ecdsa', [mkstruct(ex, 'EcdsaPublicKey', curve=k_curve(ex, cx, lit('nistp256')).f[0], key=key, sk_application=Some(app))])
    elif cx.branch(zb(ieq(alg, -8)), 'EdDSA'):
        n = 'sk-ssh-ed25519@openssh.com'
        kind = Enum('PublicKeyKind', 'Ed25519', [mkstruct(ex, 'Ed25519PublicKey', key=key, sk_application=Some(app))])
    else:
        return some_err()
    return Ok(mkstruct(ex, 'PublicKey', key_type=k_from_name(ex, cx, lit(n)).f[0], kind=kind, comment=NONE))


@contract('U2FAttestation::verify', props=('C18',))
def x_u2f(ex, cx, a):
    a = ex.deref(cx, a)
    return x_vad(ex, cx, *[fld(ex, a, n) for n in ('auth_data', 'auth_data_sig', 'challenge', 'alg', 'intermediate')], NONE)
