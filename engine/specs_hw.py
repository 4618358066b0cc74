"""Specifications of signing and key generation with hardware tokens."""
from specs_priv import *
from specs_priv import _C
from specs_x import *
from stdlib_hw import *
from exec import Frame

PIV_ALG = {'EcP256': ('EccP256', 'SHA256'), 'EcP384': ('EccP384', 'SHA384'), 'Rsa': ('Rsa2048', 'SHA256')}


def dev(ex, cx, yk):
    return fld(ex, ex.deref(cx, yk), 'yk')


@contract('Yubikey::configured', props=('C23',))
def yk_conf(ex, cx, yk, slot):
    r = slot_cert(ex, cx, dev(ex, cx, yk), ex.deref(cx, slot))
    return some_err() if r.v == 'Err' else Ok(cert_pki(ex, cx, r.f[0]))


@contract('Yubikey::fetch_certificate', props=('C23',))
def yk_cert(ex, cx, yk, slot):
    r = slot_cert(ex, cx, dev(ex, cx, yk), ex.deref(cx, slot))
    return some_err() if r.v == 'Err' else Ok(cert_bytes(ex, cx, r.f[0]))


@contract('Yubikey::fetch_attestation', props=('C23',))
def yk_attest(ex, cx, yk, slot):
    r = res(ex, cx, 'yk.attest', ZVEC, dev(ex, cx, yk), ex.deref(cx, slot))
    return some_err() if r.v == 'Err' else r


@contract('Yubikey::ssh_cert_fetch_pubkey', props=('C23',))
def yk_pub(ex, cx, yk, slot):
    r = yk_cert(ex, cx, yk, slot)
    if r.v == 'Err':
        return r
    k = CON['x509::extract_ssh_pubkey_from_x509_certificate'].spec(ex, cx, r.f[0])
    return some_err() if k.v == 'Err' else k


@contract('Yubikey::get_ssh_key_type', props=('C23',))
def yk_type(ex, cx, yk, slot):
    k = yk_pub(ex, cx, yk, slot)
    if k.v == 'Err':
        return k
    kind = ex.expand(cx, fld(ex, k.f[0], 'kind'))
    if kind.v != 'Ecdsa':
        return some_err()
    c = ex.expand(cx, fld(ex, fld(ex, kind.f[0], 'curve'), 'kind'))
    if c.v == 'Nistp521':
        return some_err()
    return Ok(Enum('AlgorithmId', {'Nistp256': 'EccP256', 'Nistp384': 'EccP384'}[c.v]))


@contract('Yubikey::sign_data', props=('C23',))
def yk_sign(ex, cx, yk, data, alg, slot):
    """the digest of exactly this data goes to exactly this slot, and only if it holds a key of that algorithm"""
    alg, slot = ex.deref(cx, alg), ex.deref(cx, slot)
    r = yk_conf(ex, cx, yk, slot)
    if r.v == 'Err':
        return r
    a, h = PIV_ALG[ex.expand(cx, r.f[0]).v]
    if not cx.branch(zb(ex.veq(cx, Enum('AlgorithmId', a), alg)), 'the slot holds a key of that algorithm'):
        return some_err()
    r = res(ex, cx, 'yk.sign', ZVEC, dev(ex, cx, yk), hashed(cx, h, ex.deref(cx, data)), alg, slot)
    return some_err() if r.v == 'Err' else r


@contract('Yubikey::ssh_cert_signer', props=('C23',))
def yk_signer(ex, cx, yk, data, slot):
    a = yk_type(ex, cx, yk, slot)
    if a.v == 'Err':
        return a
    s = yk_sign(ex, cx, yk, data, a.f[0], slot)
    if s.v == 'Err':
        return s
    k = yk_pub(ex, cx, yk, slot)
    if k.v == 'Err':
        return k
    f = ex.expand(cx, CON['utils::format_signature_for_ssh'].spec(ex, cx, k.f[0], s.f[0]))
    return some_err() if f.v == 'None' else Ok(f.f[0])


def tell(ex, cx, yk, name, ty, *vals):
    """tell the device to do something: its answer, and its new state"""
    d = dev(ex, cx, yk)
    r = res(ex, cx, name, ty, d, *vals)
    x = ex.deref(cx, yk)
    ex.wr(cx, yk, upd(ex, x, yk=uv(ex, cx, name + '.device', 'yubikey::YubiKey', d, *vals)))
    return r


@contract('Yubikey::unlock', props=('C23',))
def yk_unlock(ex, cx, yk, pin, mgm):
    if tell(ex, cx, yk, 'yk.pin', None, ex.deref(cx, pin)).v == 'Err':
        return some_err()
    m = res(ex, cx, 'yk.mgmkey', 'yubikey::MgmKey', ex.deref(cx, mgm))
    if m.v == 'Err' or tell(ex, cx, yk, 'yk.authenticate', None, m.f[0]).v == 'Err':
        return some_err()
    return Ok(UNIT)


@contract('Yubikey::provision', props=('C23',))
def yk_provision(ex, cx, yk, slot, name, alg, touch, pin):
    """a key of that algorithm with those policies in that slot, certified there, and the key of that slot returned"""
    slot = ex.deref(cx, slot)
    g = tell(ex, cx, yk, 'yk.generate', PKINFO, slot, ex.deref(cx, alg), ex.deref(cx, pin), ex.deref(cx, touch))
    if g.v == 'Err':
        return some_err()
    if tell(ex, cx, yk, 'yk.selfsign', YKCERT, slot, g.f[0]).v == 'Err':
        return some_err()
    return yk_pub(ex, cx, yk, slot)


@contract('Yubikey::open', props=('C23',))
def yk_open(ex, cx, serial):
    r = res(ex, cx, 'yk.open', 'yubikey::YubiKey', ex.deref(cx, serial))
    return some_err() if r.v == 'Err' else Ok(mkstruct(ex, 'Yubikey', yk=r.f[0]))


@contract('Yubikey::new', props=('C23',))
def yk_new(ex, cx):
    r = res(ex, cx, 'yk.open1', 'yubikey::YubiKey')
    return some_err() if r.v == 'Err' else Ok(mkstruct(ex, 'Yubikey', yk=r.f[0]))


@contract('Yubikey::reconnect', props=('C23',))
def yk_reconnect(ex, cx, yk):
    """the same device, or an error"""
    if tell(ex, cx, yk, 'yk.reconnect', None).v == 'Ok':
        return Ok(UNIT)
    r = yk_open(ex, cx, uv(ex, cx, 'yk.serial', 'u32', dev(ex, cx, yk)))
    if r.v == 'Err':
        return r
    ex.wr(cx, yk, r.f[0])
    return Ok(UNIT)


@contract('Yubikey::write_certificate', props=('C23',))
def yk_write(ex, cx, yk, slot, data):
    c = res(ex, cx, 'yk.parse', YKCERT, ex.deref(cx, data))
    if c.v == 'Err':
        return some_err()
    r = tell(ex, cx, yk, 'yk.write', None, ex.deref(cx, slot), c.f[0], Struct('Uncompressed', ()))
    return some_err() if r.v == 'Err' else Ok(UNIT)


@contract('<CSRSigner as RemoteKeyPair>::sign', props=('C23',))
def csr_sign(ex, cx, s, msg):
    s = ex.deref(cx, s)
    y = yk_open(ex, cx, fld(ex, s, 'serial'))
    if y.v == 'Err':
        return Err(ANYV)
    cx.frames += 1
    fr = Frame(None, cx.frames)
    fr.l[0] = y.f[0]
    r = yk_sign(ex, cx, MRef(fr, 0), msg, fld(ex, s, 'algorithm'), fld(ex, s, 'slot'))
    return Err(ANYV) if r.v == 'Err' else r


@contract('<CSRSigner as RemoteKeyPair>::public_key', props=('C23',))
def csr_pub(ex, cx, s):
    return fld(ex, ex.deref(cx, s), 'public_key')


# ------------------------------------------------------------------ FIDO

ADATA = 'authenticator::ctap2::attestation::AuthenticatorData'


@contract('fido::signing::mozilla::sign_with_private_key', props=('C23',), pre=pre_sk)
def fido_sign(ex, cx, k, msg):
    """an assertion over the digest of exactly this message, for the key's application and handle, in SSH form with flags and counter"""
    k = ex.deref(cx, k)
    kind = ex.expand(cx, fld(ex, k, 'kind'))
    if not kind.v.endswith('Sk'):
        return NONE
    pk = fld(ex, k, 'pubkey')
    pub = ex.expand(cx, fld(ex, pk, 'kind'))
    if pub.v == 'Rsa':
        return NONE
    app = ex.expand(cx, fld(ex, pub.f[0], 'sk_application'))
    if not cx.branch(AVAIL, 'authenticator service available'):
        return NONE      # no device, or it could not be asked
    pin = ex.expand(cx, fld(ex, kind.f[0], 'pin'))
    q = [hashed(cx, 'SHA256', ex.deref(cx, msg)), app.f[0], VecL([fld(ex, kind.f[0], 'handle')], None, None), NONE if pin.v == 'None' else Some(Struct('Pin', (pin.f[0],)))]
    r = answer(ex, cx, 'sign', q)
    if r.v == 'Err':
        return NONE
    a = ex.rd_field(cx, r.f[0], 0, 'authenticator::Assertion')
    auth, sig = ex.rd_field(cx, a, 1, ADATA), ex.rd_field(cx, a, 2, ZVEC)
    fl = uv(ex, cx, 'fido.flags', 'u8', ex.rd_field(cx, auth, 1, 'authenticator::ctap2::attestation::AuthenticatorDataFlags'))
    ctr = ex.rd_field(cx, auth, 2, 'u32')
    cx.assertion = (sig, fl, ctr)
    s = ex.expand(cx, CON['utils::format_signature_for_ssh'].spec(ex, cx, pk, sig))
    return NONE if s.v == 'None' else Some(cat(s.f[0], be(1, fl), be(4, ctr)))


ATTOBJ = 'authenticator::AttestationObject'
PACKED = 'authenticator::ctap2::attestation::AttestationStatementPacked'


@contract('fido::generate::mozilla::generate_new_ssh_key', props=('C23',))
def fido_gen(ex, cx, app, comment, pin, path):
    """the key the device's authenticator data names, with an attestation over it that verifies against the random challenge sent"""
    app, comment, pin = ex.deref(cx, app), ex.deref(cx, comment), ex.expand(cx, ex.deref(cx, pin))
    if not cx.branch(AVAIL, 'authenticator service available'):
        return some_err()     # no device, or it could not be asked
    ch = cx.randoms[-1] if getattr(cx, 'randoms', ()) else cx.fseq('challenge')
    q = [ch, app, NONE if pin.v == 'None' else Some(Struct('Pin', (pin.f[0],)))]
    r = answer(ex, cx, 'register', q)
    if r.v == 'Err':
        return some_err()
    o = ex.rd_field(cx, r.f[0], 0, ATTOBJ)
    raw = uv(ex, cx, 'fido.authdata', ZVEC, ex.rd_field(cx, o, 0, ADATA))
    ad = CON['AuthData::parse'].spec(ex, cx, raw)
    if ad.v == 'Err':
        return some_err()
    ad = ad.f[0]
    pk = x_ssh(ex, cx, ad, app)
    if pk.v == 'Err':
        return some_err()
    st = ex.expand(cx, ex.rd_field(cx, o, 1, 'authenticator::ctap2::attestation::AttestationStatement'))
    if st.v != 'Packed':
        return some_err()
    p = st.f[0]
    certs = ex.rd_field(cx, p, 2, 'std::vec::Vec<authenticator::ctap2::attestation::AttestationCertificate>')
    if cx.branch(zb(ieq(ex.vlen(cx, certs), 0)), 'no attestation certificate'):
        inter = Seq(())
    else:
        inter = ex.rd_field(cx, ex.rd_index(cx, certs, 0), 0, ZVEC)
    at = mkstruct(ex, 'U2FAttestation', auth_data=raw, auth_data_sig=ex.rd_field(cx, ex.rd_field(cx, p, 1, 'authenticator::ctap2::attestation::Signature'), 0, ZVEC),
                  intermediate=inter, challenge=ch, alg=ex.discr(cx, ex.rd_field(cx, p, 0, 'authenticator::crypto::COSEAlgorithm')))
    if ex.expand(cx, x_u2f(ex, cx, at)).v == 'Err':
        return some_err()
    kind = Enum('PrivateKeyKind', 'Ed25519Sk', [mkstruct(ex, 'Ed25519SkPrivateKey', flags=fld(ex, ad, 'flags'), handle=fld(ex, ad, 'credential_id'),
                                                         reserved=Seq(()), pin=pin, device_path=NONE)])
    sk = mkstruct(ex, 'PrivateKey', key_type=k_from_name(ex, cx, lit('sk-ssh-ed25519@openssh.com')).f[0], kind=kind, pubkey=pk.f[0], magic=0, comment=comment)
    return Ok(mkstruct(ex, 'FIDOSSHKey', private_key=sk, attestation=at))
