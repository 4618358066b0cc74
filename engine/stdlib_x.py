"""Assumed contracts of x509-parser, der-parser, chrono and minicbor."""
from stdlib import *
import stdlib

X509 = 'x509_parser::certificate::X509Certificate'
CSR = 'x509_parser::certification_request::X509CertificationRequest'
TBS = 'x509_parser::certificate::TbsCertificate'
SPKI = 'x509_parser::x509::SubjectPublicKeyInfo'
OID = 'x509_parser::der_parser::Oid'
EXT = 'x509_parser::extensions::X509Extension'


def ut(ex, cx, name, *vals):
    args = [ex.uterm(cx, ex.deref(cx, v)) if not (isz(v) and v.sort() == U) else v for v in vals]
    cx.ufs[1 if cx.quiet else 0].add(name)
    return ufn(name, *([U] * (len(args) + 1)))(*args) if args else z3.Const(name, U)


def ub(ex, cx, name, *vals):
    """uninterpreted predicate"""
    return pT(ut(ex, cx, name, *vals))


def uv(ex, cx, name, ty, *vals):
    """uninterpreted function with a typed result"""
    return ex.from_term(cx, ut(ex, cx, name, *vals), parse_type(ty) if isinstance(ty, str) else ty)


NOMERR = Opq(z3.Const('nom.error', U), ('unknown', ''))


def parsed(ex, cx, name, ty, *vals):
    """Ok((rest, value)) or Err, as a function of the arguments"""
    if cx.branch(ub(ex, cx, name + '.ok', *vals), name + ' succeeds'):
        return Ok(Tup([uv(ex, cx, name + '.rest', '&[u8]', *vals), uv(ex, cx, name, ty, *vals)]))
    return Err(NOMERR)


def ufres(ex, cx, name, ty, *vals):
    if cx.branch(ub(ex, cx, name + '.ok', *vals), name + ' succeeds'):
        return Ok(uv(ex, cx, name, ty, *vals))
    return Err(NOMERR)


def x509_cert(ex, cx, data):
    return parsed(ex, cx, 'x509.cert', X509, data)


@std('x509_parser::parse_x509_certificate', 'certificate::parse_x509_certificate')
def _px(c):
    return x509_cert(c.ex, c.cx, c.seq(0))


@std('FromDer.from_der')
def _fd(c):
    t = last_seg(strip_generics(c.selfty or ''))
    if t == 'X509Certificate':
        return x509_cert(c.ex, c.cx, c.seq(0))
    if t == 'X509CertificationRequest':
        return parsed(c.ex, c.cx, 'x509.csr', CSR, c.seq(0))
    raise Unsupported('from_der of ' + t)


@std('pem::parse_x509_pem', 'x509_parser::parse_x509_pem')
def _pem(c):
    return parsed(c.ex, c.cx, 'x509.pem', 'x509_parser::pem::Pem', c.seq(0))


@std('Pem::parse_x509')
def _pemx(c):
    return ufres(c.ex, c.cx, 'pem.x509', X509, c.v(0))


def tbs(ex, cx, v):
    """a certificate derefs to its to-be-signed part"""
    if isinstance(v, Opq) and v.ty and v.ty[0] == 'adt' and last_seg(v.ty[1]) == 'X509Certificate':
        return ex.rd_field(cx, v, 0, TBS)
    return v


_deref = H['Deref.deref']


def _deref2(c):
    v = c.v(0)
    t = tbs(c.ex, c.cx, v)
    if t is not v:
        return t
    return _deref(c)


H['Deref.deref'] = _deref2


def spki_of(ex, cx, cert):
    return ex.rd_field(cx, tbs(ex, cx, cert), 6, SPKI)


def extensions_of(ex, cx, cert):
    return ex.rd_field(cx, tbs(ex, cx, cert), 9, '&[%s]' % EXT)


@std('TbsCertificate::public_key', 'X509Certificate::public_key')
def _pk(c):
    return spki_of(c.ex, c.cx, c.v(0))


@std('TbsCertificate::extensions', 'X509Certificate::extensions')
def _exts(c):
    return extensions_of(c.ex, c.cx, c.v(0))


def x509_signed_by(ex, cx, cert, spki):
    """the certificate's signature verifies under this subject public key"""
    return ub(ex, cx, 'x509.signed_by', cert, spki)


@std('X509Certificate::verify_signature')
def _vs(c):
    k = c.ex.expand(c.cx, c.v(1))
    if k.v == 'None':
        f = ub(c.ex, c.cx, 'x509.self_signed', c.v(0))
    else:
        f = x509_signed_by(c.ex, c.cx, c.v(0), k.f[0])
    if c.branch(f, 'X.509 signature verifies'):
        return Ok(UNIT)
    return Err(NOMERR)


def oid_str(ex, cx, oid):
    return uv(ex, cx, 'oid.string', 'std::string::String', oid)


@std('Oid::to_id_string')
def _oid(c):
    return oid_str(c.ex, c.cx, c.v(0))


_tostr = H['ToString.to_string']


def _tostr2(c):
    if c.selfty and last_seg(strip_generics(c.selfty.lstrip('&'))) == 'Oid':
        return oid_str(c.ex, c.cx, c.v(0))
    return _tostr(c)


H['ToString.to_string'] = _tostr2


@std('Any::as_oid')
def _anyoid(c):
    return ufres(c.ex, c.cx, 'any.oid', OID, c.v(0))


BEROBJ = 'der_parser::ber::BerObject'


@std('der::parse_der_sequence')
def _pseq(c):
    return parsed(c.ex, c.cx, 'der.sequence', BEROBJ, c.seq(0))


@std('BerObject::as_sequence')
def _asseq(c):
    return ufres(c.ex, c.cx, 'ber.sequence', 'std::vec::Vec<%s>' % BEROBJ, c.v(0))


@std('BerObject::as_oid')
def _asoid(c):
    return ufres(c.ex, c.cx, 'ber.oid', 'der_parser::oid::Oid', c.v(0))


@std('BerObject::as_bitstring')
def _asbits(c):
    return ufres(c.ex, c.cx, 'ber.bitstring', 'der_parser::ber::BitStringObject', c.v(0))


def ber(ex, cx, name, variant, data):
    """parse_der_integer and friends: on success the object has exactly that content"""
    if cx.branch(ub(ex, cx, name + '.ok', data), name + ' succeeds'):
        if variant == 'BitString':
            fs = [uv(ex, cx, name + '.unused', 'u8', data), uv(ex, cx, name, 'x509_parser::der_parser::ber::BitStringObject', data)]
        else:
            fs = [uv(ex, cx, name, '&[u8]', data)]
        return Ok(Tup([uv(ex, cx, name + '.rest', '&[u8]', data),
                       Struct('BerObject', (Opq(ut(ex, cx, name + '.header', data), ('unknown', '')), Enum('BerObjectContent', variant, fs)))]))
    return Err(NOMERR)


@std('der::parse_der_octetstring')
def _poct(c):
    return ber(c.ex, c.cx, 'der.octets', 'OctetString', c.seq(0))


@std('der::parse_der_integer')
def _pint(c):
    return ber(c.ex, c.cx, 'der.integer', 'Integer', c.seq(0))


@std('ber::parse_ber_bitstring')
def _pbit(c):
    return ber(c.ex, c.cx, 'ber.bits', 'BitString', c.seq(0))


def bit_is_set(ex, cx, bs, i):
    """bit i, most significant first, of the bit string's bytes"""
    d = ex.rd_field(cx, bs, 0, '&[u8]')
    if isz(i):
        return ub(ex, cx, 'bit_is_set', bs, i)
    v = at(cx, d, i // 8)
    return band(zb(ilt(i // 8, slen(d))), zb(ieq((zi(v) / (1 << (7 - i % 8))) % 2, 1)))


@std('BitStringObject::is_set')
def _isset(c):
    return bit_is_set(c.ex, c.cx, c.v(0), c.v(1))


# ------------------------------------------------------------------ minicbor (RFC 8949 heads)

CBOR_A = ufn('cbor.arg', B, IS, IS)
CBOR_N = ufn('cbor.next', B, IS, IS)


def head(cx, s, p):
    """(item head complete, first byte, info, argument, next position)"""
    t = bterm(cx, s)
    p = zi(p)
    b = zi(at(cx, s, p))
    info = b % 32
    A, N = CBOR_A(t, p), CBOR_N(t, p)
    if cx.once(('cborhead', A.get_id())):
        n = zi(slen(s))
        cx.add(And(A >= 0, A < (1 << 64), N > p, N <= p + 9))
        cx.add(z3.Implies(And(p < n, info < 24), And(A == info, N == p + 1)))
        for i, w in ((24, 1), (25, 2), (26, 4), (27, 8)):
            v = 0
            for k in range(w):
                v = v + zi(at(cx, s, p + 1 + k)) * (1 << (8 * (w - 1 - k)))
            cx.add(z3.Implies(And(p < n, info == i), N == p + 1 + w))
            cx.add(z3.Implies(And(p + 1 + w <= n, info == i), A == v))
    return And(p < zi(slen(s)), info < 28, N <= zi(slen(s))), b, info, A, N


def cbor_int(cx, s, p):
    """(is an integer in the range of i64/u64, value, next)"""
    ok, b, info, A, N = head(cx, s, p)
    return And(ok, Or(b < 32, And(b < 64, A < (1 << 63)))), z3.If(b < 32, A, -1 - A), N


def dec_state(c):
    d = c.v(0)
    if not isinstance(d, Struct):
        raise Unsupported('unknown decoder')
    return d.f[0], d.f[1]


def dec_move(c, s, p):
    c.wr(0, Struct('Decoder', (s, p)))


def dec_err(c, s):
    # the position after an error is not specified
    dec_move(c, s, c.cx.fint('pos_after_error', 0, MAXLEN))
    return Err(Opq(c.cx.fu('cbor_error'), ('adt', 'minicbor::decode::Error', ())))


@std('Decoder::new')
def _dnew(c):
    return Struct('Decoder', (c.seq(0), 0))


@std('Decoder::position')
def _dpos(c):
    return dec_state(c)[1]


@std('Decoder::datatype')
def _dtype(c):
    cx = c.cx
    s, p = dec_state(c)
    n = zi(slen(s))
    err = lambda: Err(Opq(cx.fu('cbor_error'), ('adt', 'minicbor::decode::Error', ())))
    if not c.branch(zi(p) < n, 'another byte'):
        return err()
    b = zi(at(cx, s, p))
    head(cx, s, p)

    def T(name):
        return Ok(Enum('Type', name))
    if c.branch(b < 0x20, 'unsigned'):
        for lim, nm in ((0x19, 'U8'), (0x1a, 'U16'), (0x1b, 'U32'), (0x1c, 'U64')):
            if c.branch(b < lim, nm):
                return T(nm)
        return T('F16')
    if c.branch(b < 0x3c, 'negative'):
        if c.branch(b < 0x38, 'small negative'):
            return T('I8')
        if c.branch(b == 0x3b, 'i64'):
            return T('I64')
        if not c.branch(zi(p) + 1 < n, 'next byte'):
            return err()
        nb = zi(at(cx, s, iadd(p, 1)))
        for k, lo, hi in ((0x38, 'I8', 'I16'), (0x39, 'I16', 'I32'), (0x3a, 'I32', 'I64')):
            if c.branch(b == k, 'head %x' % k):
                return T(lo if c.branch(nb < 0x80, 'fits the smaller type') else hi)
        return T('F16')
    # every other type: not an integer
    if c.branch(b == 0xf6, 'null'):
        return T('Null')
    if c.branch(b == 0xf7, 'undefined'):
        return T('Undefined')
    if c.branch(Or(b == 0xf4, b == 0xf5), 'boolean'):
        return T('Bool')
    return T('F16')


def _dint(c):
    t = c.key.rsplit('::', 1)[1]
    lo, hi = RANGES[t]
    s, p = dec_state(c)
    ok, b, info, A, N = head(c.cx, s, p)
    if t[0] == 'u':
        f, v = And(ok, b < 32, A <= hi), A
    else:
        f, v = And(ok, b < 64, A <= hi), z3.If(b < 32, A, -1 - A)
    if c.branch(f, 'CBOR ' + t):
        dec_move(c, s, N)
        return Ok(v)
    return dec_err(c, s)


for _t in ('u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64'):
    H['Decoder::' + _t] = _dint


@std('Decoder::bytes')
def _dbytes(c):
    s, p = dec_state(c)
    ok, b, info, A, N = head(c.cx, s, p)
    if c.branch(And(ok, b >= 0x40, b < 0x60, N + A <= zi(slen(s))), 'CBOR byte string'):
        dec_move(c, s, N + A)
        return Ok(sub(c.cx, s, N, N + A))
    return dec_err(c, s)


@std('Decoder::map')
def _dmap(c):
    s, p = dec_state(c)
    ok, b, info, A, N = head(c.cx, s, p)
    if c.branch(And(ok, b >= 0xa0, b < 0xc0), 'CBOR map'):
        dec_move(c, s, N)
        return Ok(Some(A))
    if c.branch(And(zi(p) < zi(slen(s)), b == 0xbf), 'indefinite map'):
        dec_move(c, s, iadd(p, 1))
        return Ok(Enum('Option', 'None'))
    return dec_err(c, s)


@std('Decoder::undefined')
def _dundef(c):
    s, p = dec_state(c)
    ok, b, info, A, N = head(c.cx, s, p)
    if c.branch(And(zi(p) < zi(slen(s)), b == 0xf7), 'CBOR undefined'):
        dec_move(c, s, iadd(p, 1))
        return Ok(UNIT)
    return dec_err(c, s)


# ------------------------------------------------------------------ io::Cursor over bytes

@std('Cursor::new')
def _cnew(c):
    return Struct('Cursor', (c.seq(0), 0))


@std('Cursor::position')
def _cpos(c):
    return c.v(0).f[1]


@std('Read.read_exact')
def _rex(c):
    cur = c.v(0)
    if not (isinstance(cur, Struct) and cur.name == 'Cursor'):
        raise Unsupported('read_exact from ' + str(c.selfty))
    s, p = cur.f
    buf = c.v(1)
    n = slen(buf)
    if c.branch(zb(ile(iadd(p, n), slen(s))), 'enough bytes'):
        c.wr(0, Struct('Cursor', (s, iadd(p, n))))
        c.wr(1, sub(c.cx, s, p, iadd(p, n)))
        return Ok(UNIT)
    c.wr(0, Struct('Cursor', (s, slen(s))))
    c.wr(1, c.cx.fseq('partly_read'))
    return Err(Opq(c.cx.fu('io_error'), ('adt', 'std::io::Error', ())))
