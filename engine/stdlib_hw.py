"""Assumed contracts of the hardware back ends (yubikey, authenticator): the device is a function of its state and of what it is asked."""
from stdlib_x import *
import stdlib

YKERR = Opq(z3.Const('yubikey.error', U), ('unknown', ''))
PKINFO = 'yubikey::certificate::PublicKeyInfo'
YKCERT = 'yubikey::Certificate'
ZVEC = 'std::vec::Vec<u8>'

def res(ex, cx, name, ty, *vals):
    if cx.branch(ub(ex, cx, name + '.ok', *vals), name + ' succeeds'):
        return Ok(uv(ex, cx, name, ty, *vals) if ty else UNIT)
    return Err(YKERR)


def changed(ex, cx, ref, name, *vals):
    """the device after it was told to do something"""
    dev = ex.deref(cx, ref)
    ex.wr(cx, ref, uv(ex, cx, name + '.device', 'yubikey::YubiKey', dev, *vals))


def slot_cert(ex, cx, dev, slot):
    return res(ex, cx, 'yk.certificate', YKCERT, dev, slot)


def cert_bytes(ex, cx, cert):
    return uv(ex, cx, 'yk.certificate.bytes', '&[u8]', cert)


def cert_pki(ex, cx, cert):
    return uv(ex, cx, 'yk.certificate.pki', PKINFO, cert)


@std('Certificate::read')
def _ykread(c):
    return slot_cert(c.ex, c.cx, c.v(0), c.v(1))


@std('Certificate::subject_pki')
def _ykpki(c):
    return cert_pki(c.ex, c.cx, c.v(0))


@std('piv::sign_data')
def _yksign(c):
    return res(c.ex, c.cx, 'yk.sign', ZVEC, c.v(0), c.seq(1), c.v(2), c.v(3))


@std('piv::attest')
def _ykattest(c):
    return res(c.ex, c.cx, 'yk.attest', ZVEC, c.v(0), c.v(1))


@std('piv::generate')
def _ykgen(c):
    a = [c.v(i) for i in range(5)]
    r = res(c.ex, c.cx, 'yk.generate', PKINFO, *a)
    changed(c.ex, c.cx, c.a[0], 'yk.generate', *a[1:])
    return r


@std('Certificate::generate_self_signed')
def _ykself(c):
    a = [c.v(0), c.v(1), c.v(5)]
    r = res(c.ex, c.cx, 'yk.selfsign', YKCERT, *a)
    changed(c.ex, c.cx, c.a[0], 'yk.selfsign', *a[1:])
    return r


@std('YubiKey::verify_pin')
def _ykpin(c):
    r = res(c.ex, c.cx, 'yk.pin', None, c.v(0), c.seq(1))
    changed(c.ex, c.cx, c.a[0], 'yk.pin', c.seq(1))
    return r


@std('MgmKey::from_bytes')
def _mgm(c):
    return res(c.ex, c.cx, 'yk.mgmkey', 'yubikey::MgmKey', c.seq(0))


@std('YubiKey::authenticate')
def _ykauth(c):
    k = c.v(1)
    r = res(c.ex, c.cx, 'yk.authenticate', None, c.v(0), k)
    changed(c.ex, c.cx, c.a[0], 'yk.authenticate', k)
    return r


_asref = H['AsRef.as_ref']


def _asref2(c):
    if c.selfty and strip_generics(c.selfty).startswith('yubikey::'):
        return cert_bytes(c.ex, c.cx, c.v(0))
    return _asref(c)


H['AsRef.as_ref'] = _asref2


@std('YubiKey::open_by_serial')
def _ykopen(c):
    return res(c.ex, c.cx, 'yk.open', 'yubikey::YubiKey', c.v(0))


@std('RelativeDistinguishedName::common_name')
def _rdn(c):
    return Opq(z3.Const('x509.cn', U), ('unknown', ''))


# ------------------------------------------------------------------ FIDO devices (authenticator)

def ext_field(ex, v, name):
    return v.f[ex.ext_fields[v.name].index(name)]


AVAIL = z3.Bool('fido.service.available')


@std('AuthenticatorService::new')
def _asnew(c):
    if c.branch(AVAIL, 'authenticator service available'):
        return Ok(Opq(z3.Const('fido.service', U), ('unknown', '')))
    return Err(YKERR)


@std('AuthenticatorService::add_u2f_usb_hid_platform_transports')
def _astr(c):
    return UNIT


@std('mpsc::channel')
def _chan(c):
    return Tup((Opq(z3.Const('sender', U), ('unknown', '')), Opq(z3.Const('receiver', U), ('unknown', ''))))


@std('StateCallback::new')
def _scb(c):
    return Opq(z3.Const('callback', U), ('unknown', ''))


@std('thread::spawn')
def _spawn(c):
    return Opq(z3.Const('thread', U), ('unknown', ''))


@std('Pin::new')
def _pin(c):
    return Struct('Pin', (c.seq(0),))


def only_id(ex, cx, lst):
    """the credential ids of the allow list, as a term"""
    lst = ex.deref(cx, lst)
    return VecL([ext_field(ex, d, 'id') for d in lst.el], None, None) if isinstance(lst, VecL) and lst.base is None else lst


def request(ex, cx, op, args):
    """what the device is asked: the digest, the relying party, the credentials, the PIN"""
    g = lambda n: ex.deref(cx, ext_field(ex, args, n))
    if op == 'sign':
        return [g('client_data_hash'), g('relying_party_id'), only_id(ex, cx, g('allow_list')), g('pin')]
    return [g('client_data_hash'), ext_field(ex, g('relying_party'), 'id'), g('pin')]


def asked(c, op):
    # assumed: the authenticator crate's queue takes the request and the callback is run with the answer or a time-out
    args = c.v(2)
    q = request(c.ex, c.cx, op, args)
    c.cx.fido = getattr(c.cx, 'fido', ()) + ((op, q),)
    return Ok(UNIT)


@std('AuthenticatorService::sign')
def _assign(c):
    return asked(c, 'sign')


@std('AuthenticatorService::register')
def _asreg(c):
    return asked(c, 'register')


ANSWER = {'sign': 'authenticator::GetAssertionResult', 'register': 'authenticator::MakeCredentialsResult'}


def answer(ex, cx, op, q):
    r = res(ex, cx, 'fido.' + op, ANSWER[op], *q)
    return r if r.v == 'Ok' else Err(uv(ex, cx, 'fido.%s.error' % op, 'authenticator::errors::AuthenticatorError', *q))


@std('Receiver::recv')
def _recv(c):
    t = str(c.rty)
    if 'GetAssertionResult' in t or 'MakeCredentialsResult' in t:
        op = 'sign' if 'GetAssertionResult' in t else 'register'
        qs = [q for o, q in getattr(c.cx, 'fido', ()) if o == op]
        if not qs:
            raise Unsupported('an answer to nothing asked')
        return Ok(answer(c.ex, c.cx, op, qs[-1]))
    if c.branch(c.cx.fbool('a status arrives')):
        return Ok(E('ANY'))
    return Err(YKERR)


@std('AuthenticatorDataFlags::bits')
def _flags(c):
    return uv(c.ex, c.cx, 'fido.flags', 'u8', c.v(0))


@std('AuthenticatorData::to_vec')
def _adv(c):
    return uv(c.ex, c.cx, 'fido.authdata', ZVEC, c.v(0))


@std('io::_print', 'io::_eprint')
def _print(c):
    return UNIT


@std('Certificate::from_bytes')
def _ykcfb(c):
    return res(c.ex, c.cx, 'yk.parse', YKCERT, c.seq(0))


@std('Certificate::write')
def _ykcw(c):
    a = [c.v(1), c.v(2), c.v(0), c.v(3)]
    r = res(c.ex, c.cx, 'yk.write', None, *a)
    changed(c.ex, c.cx, c.a[1], 'yk.write', *a[1:])
    return r


@std('YubiKey::reconnect')
def _ykrec(c):
    r = res(c.ex, c.cx, 'yk.reconnect', None, c.v(0))
    changed(c.ex, c.cx, c.a[0], 'yk.reconnect')
    return r


@std('YubiKey::serial')
def _ykser(c):
    return uv(c.ex, c.cx, 'yk.serial', 'u32', c.v(0))


@std('YubiKey::open')
def _ykopen1(c):
    return res(c.ex, c.cx, 'yk.open1', 'yubikey::YubiKey')
