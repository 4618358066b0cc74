"""Assumed contracts of num-bigint, simple_asn1, ring key pairs, bcrypt-pbkdf, aes and zeroize."""
from stdlib import *
import stdlib

BIGV = ufn('big.value', B, IS)
BIGB = ufn('big.bytes', IS, B)
BMOD = ufn('big.mod', IS, IS, IS)
BPOW = ufn('big.modpow', IS, IS, IS, IS)


def bigval(cx, s):
    """the number whose big-endian bytes are s"""
    b = seq_bytes(s)
    if b is not None:
        return int.from_bytes(b, 'big')
    v = BIGV(bterm(cx, s))
    if cx.once(('bigv', v.get_id())):
        cx.add(v >= 0)
    return v


def bigbytes(cx, n):
    t = BIGB(zi(n))
    cx.blen(t)
    return sym(t)


def big_mod(cx, a, m):
    v = BMOD(zi(a), zi(m))
    if cx.once(('bmod', v.get_id())):
        cx.add(And(v >= 0, Implies(zi(m) > 0, v < zi(m))))
    return v


@std('BigUint::from_bytes_be')
def _bfrom(c):
    return bigval(c.cx, c.seq(0))


@std('BigInt::from_bytes_be')
def _bifrom(c):
    s = c.ex.expand(c.cx, c.v(0)) if isinstance(c.v(0), (Enum, SymE)) else None
    if not (isinstance(s, Enum) and s.v == 'Plus'):
        raise Unsupported('sign of a BigInt')
    return bigval(c.cx, c.seq(1))


def digits(c, v):
    if isinstance(v, VecL) and v.base is None and all(not isz(x) for x in v.el):
        return sum(int(x) << (32 * i) for i, x in enumerate(v.el))
    if isinstance(v, Seq) and seq_bytes(v) is not None:
        return sum(int(x) << (32 * i) for i, x in enumerate(seq_bytes(v)))
    raise Unsupported('BigUint digits')


@std('BigUint::from_slice', 'BigUint::new')
def _bslice(c):
    return digits(c, c.v(0))


@std('BigInt::new')
def _binew(c):
    s = c.v(0)
    if not (isinstance(s, Enum) and s.v == 'Plus'):
        raise Unsupported('sign of a BigInt')
    return digits(c, c.v(1))


@std('BigUint::to_bytes_be')
def _bto(c):
    return bigbytes(c.cx, c.v(0))


@std('BigUint::modpow')
def _modpow(c):
    b, e, m = c.v(0), c.v(1), c.v(2)
    c.panic_free(zb(bnot(ieq(m, 0))), 'modpow with a zero modulus')
    if not isz(e) and e == 1:
        return big_mod(c.cx, b, m)
    v = BPOW(zi(b), zi(e), zi(m))
    c.cx.add(v >= 0)
    return v


@std('One.one')
def _one(c):
    return 1


@std('Zero.zero')
def _zero(c):
    return 0


_old_from = H['From.from']


def _from2(c):
    if c.selfty and last_seg(c.selfty.lstrip('&').split('<')[0]) in ('BigUint', 'BigInt') and isinstance(c.v(0), (int, z3.ArithRef)):
        return c.v(0)
    return _old_from(c)


H['From.from'] = _from2

for _k in ('Sub.sub', 'Add.add', 'Mul.mul', 'Rem.rem'):
    def _mk(old, k):
        def f(c):
            if c.selfty and 'BigUint' in c.selfty:
                a, b = c.v(0), c.v(1)
                if k == 'Sub.sub':
                    c.panic_free(zb(ile(b, a)), 'big integer subtraction below zero')
                    return isub(a, b)
                if k == 'Add.add':
                    return iadd(a, b)
                if k == 'Rem.rem':
                    c.panic_free(zb(bnot(ieq(b, 0))), 'big integer remainder by zero')
                    return big_mod(c.cx, a, b)
                raise Unsupported('big integer ' + k)
            if old is None:
                raise Unsupported(k)
            return old(c)
        return f
    H[_k] = _mk(H.get(_k), _k)


# ------------------------------------------------------------------ DER of RSA keys

RES = 'std::result::Result'
DEROK = ufn('der.encodes', U, BS)
DERB = ufn('der.encoding', U, B)


def der_of(ex, cx, blocks):
    """(ok, bytes) of simple_asn1::der_encode for these blocks"""
    u = ex.uterm(cx, blocks)
    t = DERB(u)
    cx.blen(t)
    return DEROK(u), sym(t)


@std('simple_asn1::der_encode')
def _der(c):
    g = generic_args(c.callee)
    ty = last_seg(g[0])
    f = c.ex.crate.by_key.get('<%s as ToASN1>::to_asn1_class' % ty)
    if f is None:
        raise Unsupported('der_encode of ' + ty)
    r = c.ex.expand(c.cx, c.ex.deref(c.cx, c.ex.call_fn(c.cx, f, [c.a[0], Enum('ASN1Class', 'Universal')])))
    if r.v == 'Err':
        return Err(E('ANY'))
    ok, s = der_of(c.ex, c.cx, r.f[0])
    if c.branch(ok, 'DER encoding succeeds'):
        return Ok(s)
    return Err(E('ANY'))


REJ = Opq(z3.Const('ring.KeyRejected', U), ('adt', 'ring::error::KeyRejected', ()))
KPOK = {}


def kp_ok(alg, *ts):
    return ufn('keypair.%s.ok' % alg, *([B] * len(ts) + [BS]))(*ts)


def sig_of(cx, alg, *seqs):
    """the signature primitive (randomised primitives: one of their possible results)"""
    ts = [bterm(cx, s) for s in seqs]
    t = ufn('sign.' + alg, *([B] * len(ts) + [B]))(*ts)
    cx.blen(t)
    cx.signed = getattr(cx, 'signed', ()) + (sym(t),)
    return sym(t)


@std('RsaKeyPair::from_der', 'KeyPair::from_der', 'rsa::KeyPair::from_der')
def _rsader(c):
    s = c.seq(0)
    if c.branch(kp_ok('rsa', bterm(c.cx, s)), 'RSA key accepted'):
        return Ok(Struct('RsaKeyPair', (s,)))
    return Err(REJ)


RSALEN = ufn('rsa.modlen', B, IS)


def rsa_len(cx, der):
    n = RSALEN(bterm(cx, der))
    cx.add(And(n >= 1, n <= 1024))
    return n


@std('KeyPair::public', 'RsaKeyPair::public')
def _kppub(c):
    return c.v(0)


@std('PublicKey::modulus_len', 'KeyPair::public_modulus_len', 'RsaKeyPair::public_modulus_len')
def _modlen(c):
    return rsa_len(c.cx, c.v(0).f[0])


@std('KeyPair::sign', 'RsaKeyPair::sign', 'rsa::KeyPair::sign')
def _rsasign(c):
    alg = static_name(c.v(1))
    if alg is None:
        raise Unsupported('RSA signing algorithm')
    der, msg = c.v(0).f[0], c.seq(3)
    buf = c.v(4)
    n = rsa_len(c.cx, der)
    if not c.branch(zb(ieq(slen(buf), n)), 'signature buffer has the size of the modulus'):
        return Err(stdlib.UNSPEC)
    s = sig_of(c.cx, alg, der, msg)
    c.cx.add(LEN(bterm(c.cx, s)) == zi(n))
    if c.branch(ufn('sign.ok.' + alg, B, B, BS)(bterm(c.cx, der), bterm(c.cx, msg)), 'RSA signing succeeds'):
        c.wr(4, s)
        return Ok(UNIT)
    return Err(stdlib.UNSPEC)


@std('EcdsaKeyPair::from_private_key_and_public_key')
def _ecnew(c):
    alg = static_name(c.v(0))
    if alg is None:
        raise Unsupported('ECDSA signing algorithm')
    k, p = c.seq(1), c.seq(2)
    if c.branch(kp_ok(alg, bterm(c.cx, k), bterm(c.cx, p)), 'ECDSA key pair accepted'):
        return Ok(Struct('EcdsaKeyPair', (FnV(alg), k, p)))
    return Err(REJ)


@std('EcdsaKeyPair::sign')
def _ecsign(c):
    kp = c.v(0)
    alg = kp.f[0].path
    msg = c.seq(2)
    s = sig_of(c.cx, alg, kp.f[1], kp.f[2], msg)
    if c.branch(ufn('sign.ok.' + alg, B, B, BS)(bterm(c.cx, kp.f[1]), bterm(c.cx, msg)), 'ECDSA signing succeeds'):
        return Ok(s)
    return Err(stdlib.UNSPEC)


@std('Ed25519KeyPair::from_seed_and_public_key')
def _ednew(c):
    k, p = c.seq(0), c.seq(1)
    if c.branch(kp_ok('ed25519', bterm(c.cx, k), bterm(c.cx, p)), 'Ed25519 key pair accepted'):
        return Ok(Struct('Ed25519KeyPair', (k, p)))
    return Err(REJ)


EDPUB = ufn('ed25519.public', B, B)


def ed_public(cx, seed):
    p = EDPUB(bterm(cx, seed))
    cx.blen(p)
    cx.add(LEN(p) == 32)
    return sym(p)


@std('Ed25519KeyPair::from_seed_unchecked')
def _edun(c):
    k = c.seq(0)
    if c.branch(zb(ieq(slen(k), 32)), 'seed of 32 bytes'):
        return Ok(Struct('Ed25519KeyPair', (k, ed_public(c.cx, k))))
    return Err(REJ)


@std('Ed25519KeyPair::sign')
def _edsign(c):
    kp = c.v(0)
    s = sig_of(c.cx, 'ED25519', kp.f[0], kp.f[1], c.seq(1))
    c.cx.add(LEN(bterm(c.cx, s)) == 64)
    return s


@std('KeyPair.public_key')
def _kppk(c):
    kp = c.v(0)
    if isinstance(kp, Struct) and kp.name == 'Ed25519KeyPair':
        return kp.f[1]
    if isinstance(kp, Struct) and kp.name == 'EcdsaKeyPair':
        return kp.f[2]
    raise Unsupported('public key of a key pair')


@std('Random::expose')
def _expose(c):
    return c.v(0)


# ------------------------------------------------------------------ encrypted containers

def bcrypt(cx, pw, salt, rounds, n):
    a = (bterm(cx, pw), bterm(cx, salt), zi(rounds))
    ok = ufn('bcrypt.ok', B, B, IS, BS)(*a)
    t = ufn('bcrypt', B, B, IS, IS, B)(*(a + (zi(n),)))
    cx.blen(t)
    cx.add(LEN(t) == zi(n))
    return ok, sym(t)


@std('bcrypt_pbkdf::bcrypt_pbkdf')
def _bcrypt(c):
    n = slen(c.v(3))
    ok, s = bcrypt(c.cx, c.seq(0), c.seq(1), c.v(2), n)
    if c.branch(ok, 'key derivation succeeds'):
        c.wr(3, s)
        return Ok(UNIT)
    return Err(Opq(z3.Const('bcrypt.error', U), ('adt', 'bcrypt_pbkdf::Error', ())))


def typenum(t):
    m = re.search(r'GenericArray::<u8, (.*)>::from_slice', t)
    if not m:
        return None
    bits = re.findall(r'B([01])\b', m.group(1))
    return int(''.join(bits), 2) if bits else None


@std('GenericArray::from_slice')
def _ga(c):
    s = c.seq(0)
    n = typenum(c.callee if isinstance(c.callee, str) else str(c.callee))
    if n is None:
        raise Unsupported('GenericArray size')
    c.panic_free(zb(ieq(slen(s), n)), 'GenericArray::from_slice with another length than %d' % n)
    return s


def aes_ctr(cx, key, iv, data):
    t = ufn('aes256ctr', B, B, B, B)(bterm(cx, key), bterm(cx, iv), bterm(cx, data))
    cx.blen(t)
    cx.add(LEN(t) == zi(slen(data)))
    return sym(t)


@std('NewCipher.new')
def _aesnew(c):
    if 'Aes256Ctr' not in c.selfty:
        raise Unsupported('cipher ' + c.selfty)
    return Struct('Aes256Ctr', (c.seq(0), c.seq(1)))


@std('StreamCipher.try_apply_keystream', 'StreamCipher.apply_keystream')
def _aesap(c):
    k = c.v(0)
    c.wr(1, aes_ctr(c.cx, k.f[0], k.f[1], c.v(1)))
    c.wr(0, Struct('Aes256Ctr', (k.f[0], sym(ufn('aes.next', B, B, B)(bterm(c.cx, k.f[1]), bterm(c.cx, c.v(1)))))))
    return Ok(UNIT) if 'try' in c.key else UNIT


# ------------------------------------------------------------------ zeroize

ZEROED = z3.Const('zeroized', B)
ZOPT = z3.Const('zeroized.option', U)


@std('Zeroize.zeroize')
def _zero_(c):
    zeroize(c, c.a[0])
    return UNIT


def zeroize(c, m):
    v = c.ex.deref(c.cx, m)
    if isinstance(v, Seq):
        c.cx.blen(ZEROED)
        c.ex.wr(c.cx, m, sym(ZEROED))
    elif isinstance(v, (bool, z3.BoolRef)):
        c.ex.wr(c.cx, m, False)
    elif isinstance(v, (int, z3.ArithRef)):
        c.ex.wr(c.cx, m, 0)
    elif isinstance(v, (Enum, SymE)) and (v.name if isinstance(v, Enum) else c.ex.enum_name(v.ty)) == 'Option':
        c.ex.wr(c.cx, m, SymE(v.ty if isinstance(v, SymE) else parse_type('std::option::Option<std::vec::Vec<u8>>'), ZOPT))
    else:
        raise Unsupported('zeroize of %r' % (v,))


def is_zeroed(ex, cx, v):
    """has this component been through zeroize?"""
    if isinstance(v, Seq):
        return zb(seq_eq(cx, v, sym(ZEROED)))
    if isinstance(v, SymE):
        if v.t.eq(ZOPT):
            return True
        v = ex.expand(cx, v)
    if isinstance(v, Enum):
        if v.v == 'None':
            return True
        return is_zeroed(ex, cx, v.f[0])
    return zb(ieq(v, 0))
