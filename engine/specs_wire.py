"""Specifications of ssh::reader and ssh::writer (RFC 4251)."""
from contracts import *
import stdlib

CON = {}


def contract(key, **kw):
    def deco(f):
        CON[key] = Contract(key, f, **kw)
        return f
    return deco


EOF = lambda: Err(E('UnexpectedEof'))
BAD = lambda: Err(E('InvalidFormat'))
PIN = ('UnexpectedEof',)


def rd(ex, cx, r):
    v = ex.deref(cx, r)
    return v.f[0], v.f[1]


def set_off(ex, cx, r, off):
    v = ex.deref(cx, r)
    ex.wr(cx, r, Struct('Reader', (v.f[0], off)))


def ge(a, b):
    return zb(ile(b, a))


@contract('Reader::new', props=('C08',))
def s_new(ex, cx, inner):
    return Struct('Reader', (stdlib.as_seq(_C(ex, cx), ex.deref(cx, inner)), 0))


class _C:
    def __init__(self, ex, cx):
        self.ex, self.cx = ex, cx


@contract('Reader::set_offset', props=('C08',))
def s_set(ex, cx, r, off):
    set_off(ex, cx, r, off)
    return Ok(UNIT)


@contract('Reader::get_offset', props=('C08',))
def s_get(ex, cx, r):
    return rd(ex, cx, r)[1]


def avail(cx, s, off, n):
    """off + n <= len (off < len known)"""
    return cx.branch(zb(ile(iadd(off, n), slen(s))), '%s more bytes available' % (n if not isz(n) else 'n'))


@contract('Reader::read_u32', pins=PIN, props=('C08',))
def s_u32(ex, cx, r):
    s, off = rd(ex, cx, r)
    if cx.branch(ge(off, slen(s)), 'position at or past the end'):
        return EOF()
    if not avail(cx, s, off, 4):
        return BAD()
    set_off(ex, cx, r, iadd(off, 4))
    return Ok(from_be(cx, sub(cx, s, off, iadd(off, 4)), 4))


@contract('Reader::read_u64', pins=PIN, props=('C08',))
def s_u64(ex, cx, r):
    s, off = rd(ex, cx, r)
    if cx.branch(ge(off, slen(s)), 'position at or past the end'):
        return EOF()
    if not avail(cx, s, off, 8):
        return BAD()
    set_off(ex, cx, r, iadd(off, 8))
    return Ok(from_be(cx, sub(cx, s, off, iadd(off, 8)), 8))


@contract('Reader::read_bytes', pins=PIN, props=('C08',))
def s_bytes(ex, cx, r):
    s, off = rd(ex, cx, r)
    if cx.branch(ge(off, slen(s)), 'position at or past the end'):
        return EOF()
    if not avail(cx, s, off, 4):
        return BAD()
    n = from_be(cx, sub(cx, s, off, iadd(off, 4)), 4)
    st = iadd(off, 4)
    if not avail(cx, s, st, n):
        return BAD()
    set_off(ex, cx, r, iadd(st, n))
    return Ok(sub(cx, s, st, iadd(st, n)))


@contract('Reader::read_raw_bytes', pins=(), props=('C08',))
def s_raw(ex, cx, r, n):
    s, off = rd(ex, cx, r)
    if cx.branch(ge(off, slen(s)), 'position at or past the end'):
        return EOF()
    if not avail(cx, s, off, n):
        return BAD()
    set_off(ex, cx, r, iadd(off, n))
    return Ok(sub(cx, s, off, iadd(off, n)))


@contract('Reader::read_string', err_free=True, pins=PIN, props=('C08',))
def s_string(ex, cx, r):
    e = s_bytes(ex, cx, r)
    if e.v == 'Err':
        return e
    if cx.branch(zb(is_utf8(cx, e.f[0])), 'valid UTF-8'):
        return e
    return BAD()


MP_OK = ufn('mpint.ok', B, BS)
MP_VAL = ufn('mpint.val', B, B)
MP_ENC = ufn('mpint.enc', B, B)


def opaque(ex, *keys):
    """is the specification function used without its definition here?"""
    return ex.opaque and ex.current not in keys and not any(k in ex.see for k in keys)


@contract('Reader::read_positive_mpint', err_free=True, pins=PIN, props=('C08',))
def s_mpint(ex, cx, r):
    e = s_bytes(ex, cx, r)
    if e.v == 'Err':
        return e
    b = e.f[0]
    if opaque(ex, 'Reader::read_positive_mpint'):
        t = bterm(cx, b)
        if cx.branch(MP_OK(t), 'canonical non-negative mpint'):
            v = MP_VAL(t)
            cx.blen(v)
            cx.add(LEN(v) <= LEN(t))
            return Ok(sym(v))
        return BAD()
    n = slen(b)
    if cx.branch(zb(ieq(n, 0)), 'empty mpint'):
        return e
    b0 = at(cx, b, 0)
    if cx.branch(ge(b0, 128), 'negative mpint'):
        return BAD()
    if cx.branch(zb(ieq(b0, 0)), 'leading zero byte'):
        if cx.branch(zb(ieq(n, 1))):
            return BAD()
        if cx.branch(zb(ilt(at(cx, b, 1), 128)), 'redundant zero byte'):
            return BAD()
        return Ok(sub(cx, b, 1, n))
    return e


# ------------------------------------------------------------------ loops of the reader
from recs import *


def _cstring_step(ex, cx, st):
    r, s = st
    inner, off = r.f
    if cx.branch(ge(off, slen(inner)), 'position at or past the end'):
        return 'done', Tup((EOF(), off))
    b = at(cx, inner, off)
    if cx.branch(zb(ieq(b, 0)), 'NUL byte'):
        return 'done', Tup((Ok(s), iadd(off, 1)))
    return 'next', [Struct('Reader', (inner, iadd(off, 1))), cat(s, stdlib.char_seq(cx, b))]


R_CSTRING = TailRec('cstring', ['Reader', 'seq'], _cstring_step, '(std::result::Result<std::string::String, error::Error>, usize)')


@contract('Reader::read_cstring', recs=(R_CSTRING,), pins=(), props=('C08',))
def s_cstring(ex, cx, r):
    v = ex.deref(cx, r)
    t = R_CSTRING.call(ex, cx, [v, Seq(())])
    e = ex.expand(cx, t.f[0])
    if e.v == 'Ok':
        set_off(ex, cx, r, t.f[1])
    return e


# ------------------------------------------------------------------ writer

def tr32(cx, n):
    """n as u32 (lengths above 4 GiB wrap)"""
    if not isz(n):
        return n & 0xffffffff
    if cx.proves(And(n >= 0, n < (1 << 32))):
        return n
    return simp(n % (1 << 32))


def w_app(ex, cx, w, *ss):
    v = ex.deref(cx, w)
    ex.wr(cx, w, Struct('Writer', (cat(v.f[0], *ss),)))
    return UNIT


def enc_bytes(cx, s):
    return cat(be(4, tr32(cx, slen(s))), s)


@contract('Writer::new', props=('C09',))
def w_new(ex, cx):
    return Struct('Writer', (Seq(()),))


@contract('<Writer as Default>::default', props=('C09',))
def w_default(ex, cx):
    return Struct('Writer', (Seq(()),))


@contract('Writer::into_bytes', props=('C09',))
def w_into(ex, cx, w):
    return ex.deref(cx, w).f[0]


@contract('Writer::as_bytes', props=('C09',))
def w_as(ex, cx, w):
    return ex.deref(cx, w).f[0]


@contract('Writer::write_raw_bytes', props=('C09',))
def w_raw(ex, cx, w, s):
    return w_app(ex, cx, w, ex.deref(cx, s))


@contract('Writer::write_cstring', props=('C09',))
def w_cstr(ex, cx, w, s):
    return w_app(ex, cx, w, ex.deref(cx, s), lit(b'\0'))


@contract('Writer::write_u32', props=('C09',))
def w_u32(ex, cx, w, n):
    return w_app(ex, cx, w, be(4, n))


@contract('Writer::write_u64', props=('C09',))
def w_u64(ex, cx, w, n):
    return w_app(ex, cx, w, be(8, n))


@contract('Writer::write_bytes', props=('C09',))
def w_bytes(ex, cx, w, s):
    return w_app(ex, cx, w, enc_bytes(cx, ex.deref(cx, s)))


@contract('Writer::write_string', props=('C09',))
def w_string(ex, cx, w, s):
    return w_app(ex, cx, w, enc_bytes(cx, ex.deref(cx, s)))


def mpint_body(ex, cx, s):
    """minimal non-negative big-endian form of the number in s"""
    t = bterm(cx, s)
    if opaque(ex, 'Writer::write_mpint'):
        v = MP_ENC(t)
        cx.blen(v)
        cx.add(LEN(v) <= LEN(t) + 1)
        return sym(v)
    z = zprefix(cx, t)
    n = slen(s)
    m = sub(cx, s, z, n)
    if cx.branch(zi(z) == zi(n), 'mpint is zero'):
        return Seq(())
    if cx.branch(ge(at(cx, m, 0), 128), 'top bit of the mpint set'):
        return cat(lit(b'\0'), m)
    return m


@contract('Writer::write_mpint', recs=(ZeroPrefix(),), props=('C09',))
def w_mpint(ex, cx, w, s):
    return w_app(ex, cx, w, enc_bytes(cx, mpint_body(ex, cx, ex.deref(cx, s))))


A_STRS = Append('strings', lambda ex, cx, x: enc_bytes(cx, x), stdlib.STR)


@contract('Writer::write_string_vec', recs=(A_STRS,), props=('C09',))
def w_strs(ex, cx, w, v):
    body = A_STRS.whole(ex, cx, ex.deref(cx, v))
    return w_app(ex, cx, w, enc_bytes(cx, body))


CON['Writer::write_string_vec'].fold = fold_hook_for(A_STRS, (4, 0))


def enc_opt(ex, cx, x):
    k, v = x.f
    if cx.branch(zb(ieq(slen(v), 0)), 'empty option value'):
        return cat(enc_bytes(cx, k), be(4, 0))
    return cat(enc_bytes(cx, k), enc_bytes(cx, enc_bytes(cx, v)))


A_OPTS = Append('options', enc_opt, stdlib.ENTRY)


def enc_map(ex, cx, m):
    t = stdlib.ment(_C(ex, cx), m.t)
    return A_OPTS.whole(ex, cx, VecL((), t, stdlib.ENTRY))


@contract('Writer::write_string_map', maxlen=(1 << 32) - 16, recs=(A_OPTS,), props=('C09',))
def w_map(ex, cx, w, m):
    return w_app(ex, cx, w, enc_bytes(cx, enc_map(ex, cx, ex.deref(cx, m))))


CON['Writer::write_string_map'].fold = fold_hook_for(A_OPTS, (8, 4, 0))
