"""Specifications of certificates."""
from specs_sig import *
from specs_sig import _C
from specs_wire import A_OPTS, A_STRS, enc_map
from stdlib import minsert

STRMAP = 'std::collections::HashMap<std::string::String, std::string::String>'


def _opts_step(ex, cx, st):
    rd0, m = st
    r = local_reader_at(ex, cx, rd0)
    n = W.s_string(ex, cx, r)
    if n.v == 'Err':
        return 'done', (Ok(m) if n.f[0].v == 'UnexpectedEof' else some_err())
    b = W.s_bytes(ex, cx, r)
    if b.v == 'Err':
        return 'done', some_err()
    if cx.branch(zb(ieq(slen(b.f[0]), 0)), 'flag option'):
        v = lit('')
    else:
        q = W.s_string(ex, cx, local_reader(ex, cx, b.f[0]))
        if q.v == 'Err':
            return 'done', some_err()
        v = q.f[0]
    return 'next', [ex.deref(cx, r), minsert(ex, cx, m, n.f[0], v)]


def local_reader_at(ex, cx, rd0):
    cx.frames += 1
    fr = Frame(None, cx.frames)
    fr.l[0] = rd0
    return MRef(fr, 0)


def _princ_step(ex, cx, st):
    rd0, l = st
    r = local_reader_at(ex, cx, rd0)
    n = W.s_string(ex, cx, r)
    if n.v == 'Err':
        return 'done', (Ok(l) if n.f[0].v == 'UnexpectedEof' else some_err())
    return 'next', [ex.deref(cx, r), vpush(ex, cx, l, n.f[0])]


def vpush(ex, cx, l, x):
    return VecL(tuple(l.el) + (x,), l.base, l.ety)


R_OPTS = TailRec('options', ['Reader', 'map'], _opts_step, 'std::result::Result<%s, error::Error>' % STRMAP)
R_PRINC = TailRec('principals', ['Reader', 'vec'], _princ_step, 'std::result::Result<std::vec::Vec<std::string::String>, error::Error>')


def read_opts(ex, cx, buf):
    return ex.expand(cx, R_OPTS.call(ex, cx, [Struct('Reader', (buf, 0)), stdlib.empty_map()]))


def read_princ(ex, cx, buf):
    return ex.expand(cx, R_PRINC.call(ex, cx, [Struct('Reader', (buf, 0)), VecL((), None, stdlib.STR)]))


@contract('ssh::cert::read_options', props=('C02',), recs=(R_OPTS,))
def c_opts(ex, cx, buf):
    return read_opts(ex, cx, ex.deref(cx, buf))


@contract('ssh::cert::read_principals', props=('C02',), recs=(R_PRINC,))
def c_princ(ex, cx, buf):
    return read_princ(ex, cx, ex.deref(cx, buf))


def cert_read(ex, cx, data):
    """the certificate format; returns Err or Ok(Certificate)"""
    if W.opaque(ex, 'Certificate::from_bytes'):
        t = bterm(cx, data)
        if not cx.branch(CR_OK(t), 'an authentic certificate'):
            return some_err()
        return Ok(upd(ex, ex.from_term(cx, CR_VAL(t), CERT), comment=NONE, serialized=data))
    r = local_reader(ex, cx, data)

    class Bad(Exception):
        pass

    def need(v):
        if v.v == 'Err':
            raise Bad
        return v.f[0]
    try:
        name = need(W.s_string(ex, cx, r))
        ok, kt = keytype_of(ex, cx, name)
        if not cx.branch(ok, 'a supported key type') or not cx.branch(zb(fld(ex, kt, 'is_cert')), 'a certificate type'):
            raise Bad
        nonce = need(W.s_bytes(ex, cx, r))
        key = need(read_pk(ex, cx, fld(ex, kt, 'plain'), r))
        serial = need(W.s_u64(ex, cx, r))
        t = need(W.s_u32(ex, cx, r))
        if cx.branch(zb(ieq(t, 1)), 'user certificate'):
            role = Enum('CertType', 'User')
        elif cx.branch(zb(ieq(t, 2)), 'host certificate'):
            role = Enum('CertType', 'Host')
        else:
            raise Bad
        key_id = need(W.s_string(ex, cx, r))
        pr = need(read_princ(ex, cx, need(W.s_bytes(ex, cx, r))))
        va = need(W.s_u64(ex, cx, r))
        vb = need(W.s_u64(ex, cx, r))
        co = need(read_opts(ex, cx, need(W.s_bytes(ex, cx, r))))
        exts = need(read_opts(ex, cx, need(W.s_bytes(ex, cx, r))))
        res = need(W.s_bytes(ex, cx, r))
        ca = need(p_from_bytes(ex, cx, need(W.s_bytes(ex, cx, r))))
        off = rd(ex, cx, r)[1]
        sig = need(W.s_bytes(ex, cx, r))
        if not sig_ok(ex, cx, sig, sub(cx, data, 0, off), ca):
            raise Bad
    except Bad:
        return some_err()
    return Ok(mkstruct(ex, 'Certificate', key_type=kt, nonce=nonce, key=key, serial=serial, cert_type=role, key_id=key_id,
                       principals=pr, valid_after=va, valid_before=vb, critical_options=co, extensions=exts, reserved=res,
                       signature_key=ca, signature=sig, comment=NONE, serialized=data))


@contract('Certificate::from_bytes', props=('C01', 'C02'), max_s=300)
def c_from_bytes(ex, cx, data):
    return cert_read(ex, cx, ex.deref(cx, data))


CERT = ('adt', 'ssh::cert::Certificate', ())


def kind_of_name(ex, cx, s):
    return keytype_of(ex, cx, s)


CR_OK = ufn('cert.ok', B, BS)
CR_VAL = ufn('cert.val', B, U)


@contract('Certificate::from_string', props=('C01', 'C02'), max_s=300)
def c_from_string(ex, cx, s):
    v = words(ex, cx, ex.deref(cx, s))
    n = ex.vlen(cx, v)
    if cx.branch(zb(ilt(n, 2)), 'fewer than two words'):
        return some_err()
    ok, kt = keytype_of(ex, cx, ex.elem(cx, v, 0))
    if not cx.branch(ok, 'a supported key type'):
        return some_err()
    ok, dec = unb64(cx, ex.elem(cx, v, 1))
    if not cx.branch(zb(ok), 'valid base64'):
        return some_err()
    c = cert_read(ex, cx, dec)
    if c.v == 'Err':
        return c
    c = c.f[0]
    if not cx.branch(zb(ex.veq(cx, fld(ex, fld(ex, c, 'key_type'), 'kind'), fld(ex, kt, 'kind'))), 'text and blob name the same kind'):
        return some_err()
    com = NONE
    if cx.branch(zb(ilt(2, n)), 'a comment'):
        com = Some(ex.elem(cx, v, 2))
    return Ok(upd(ex, c, comment=com))


# ------------------------------------------------------------------ issuing

def wf_cert(ex, cx, c):
    """the certificate's own type is a supported one, and its keys carry what their types need"""
    return band(wf_keytype(ex, cx, fld(ex, c, 'key_type')), pk_app(ex, cx, fld(ex, c, 'key')), pk_app(ex, cx, fld(ex, c, 'signature_key')))


def pre_cert(ex, cx, c, *a):
    return wf_cert(ex, cx, ex.deref(cx, c))


def pre_builder(ex, cx, pk, t, ca):
    return band(wf_keytype(ex, cx, fld(ex, ex.deref(cx, pk), 'key_type')))


def tbs(ex, cx, c):
    g = lambda n: fld(ex, c, n)
    role = ex.expand(cx, g('cert_type'))
    name = k_cert_name(ex, cx, g('key_type'))
    return cat(enc_bytes(cx, name), enc_bytes(cx, g('nonce')), enc_pk_data(ex, cx, g('key')), be(8, g('serial')),
               be(4, {'User': 1, 'Host': 2}[role.v]), enc_bytes(cx, g('key_id')), enc_bytes(cx, A_STRS.whole(ex, cx, g('principals'))),
               be(8, g('valid_after')), be(8, g('valid_before')), enc_bytes(cx, enc_map(ex, cx, g('critical_options'))),
               enc_bytes(cx, enc_map(ex, cx, g('extensions'))), enc_bytes(cx, Seq(())), enc_bytes(cx, enc_pk(ex, cx, g('signature_key'))))


@contract('Certificate::tbs_certificate', props=('C03',), pre=pre_cert)
def c_tbs(ex, cx, c):
    return tbs(ex, cx, ex.deref(cx, c))


@contract('Certificate::add_signature', props=('C03',), pre=pre_cert)
def c_add(ex, cx, c, sig):
    c, sig = ex.deref(cx, c), ex.deref(cx, sig)
    t = tbs(ex, cx, c)
    if not sig_ok(ex, cx, sig, t, fld(ex, c, 'signature_key')):
        return some_err()
    return Ok(upd(ex, c, signature=sig, serialized=cat(t, enc_bytes(cx, sig))))


def _fresh32(ex, cx, v):
    return bor(*[zb(seq_eq(cx, v, r)) for r in getattr(cx, 'randoms', ()) if cx.proves(zb(ieq(slen(r), 32)))]) if getattr(cx, 'randoms', ()) else False


FRESH32 = Pred(_fresh32, '32 fresh random bytes')


@contract('Certificate::builder', props=('C03',), pre=pre_builder)
def c_builder(ex, cx, pk, role, ca):
    pk, ca = ex.deref(cx, pk), ex.deref(cx, ca)
    name = k_cert_name(ex, cx, fld(ex, pk, 'key_type'))
    ok, kt = keytype_of(ex, cx, name)
    if not cx.branch(ok, 'a supported certificate type'):
        return some_err()
    em = stdlib.empty_map()
    return Ok(mkstruct(ex, 'Certificate', key_type=kt, nonce=FRESH32, key=pk, serial=ANYV, cert_type=ex.deref(cx, role), key_id=Seq(()),
                       principals=VecL((), None, stdlib.STR), valid_after=0, valid_before=0, critical_options=em, extensions=em, reserved=ANYV,
                       signature_key=ca, signature=ANYV, comment=NONE, serialized=ANYV))


def setter(field, f):
    def spec(ex, cx, c, *a):
        c = ex.deref(cx, c)
        return upd(ex, c, **{field: f(ex, cx, fld(ex, c, field), *[ex.deref(cx, x) for x in a])})
    return spec


for _n, _f in (('serial', lambda ex, cx, o, v: v), ('key_id', lambda ex, cx, o, v: v), ('valid_after', lambda ex, cx, o, v: v),
               ('valid_before', lambda ex, cx, o, v: v), ('comment', lambda ex, cx, o, v: Some(v))):
    CON['Certificate::' + _n] = Contract('Certificate::' + _n, setter(_n, _f), props=('C03',))
for _n, _fl, _f in (('principal', 'principals', lambda ex, cx, o, v: vpush(ex, cx, o, v)),
                    ('set_principals', 'principals', lambda ex, cx, o, v: v),
                    ('critical_option', 'critical_options', lambda ex, cx, o, k, v: minsert(ex, cx, o, k, v)),
                    ('set_critical_options', 'critical_options', lambda ex, cx, o, v: v),
                    ('extension', 'extensions', lambda ex, cx, o, k, v: minsert(ex, cx, o, k, v)),
                    ('set_extensions', 'extensions', lambda ex, cx, o, v: v)):
    CON['Certificate::' + _n] = Contract('Certificate::' + _n, setter(_fl, _f), props=('C03',))

STD_EXT = ('permit-agent-forwarding', 'permit-port-forwarding', 'permit-pty', 'permit-user-rc', 'permit-X11-forwarding')


@contract('Certificate::standard_extensions', props=('C03',))
def c_std(ex, cx):
    m = stdlib.empty_map()
    for n in STD_EXT:
        m = minsert(ex, cx, m, lit(n), lit(''))
    return m


@contract('Certificate::sign', props=('C03',), pre=pre_cert)
def c_sign(ex, cx, c, signer):
    c = ex.deref(cx, c)
    t = tbs(ex, cx, c)
    sig = ex.expand(cx, stdlib.signer_sign(_C(ex, cx), ex.deref(cx, signer), t))
    if sig.v == 'None' or not sig_ok(ex, cx, sig.f[0], t, fld(ex, c, 'signature_key')):
        return some_err()
    return Ok(upd(ex, c, signature=sig.f[0], serialized=cat(t, enc_bytes(cx, sig.f[0]))))


def plain_fmt(ex, cx, i, ty, hint):
    if hint == 'f' or 'Formatter' in str(ty):
        return Struct('Formatter', (cx.fseq('f'), False))
    return None


# the {:#} report for people is not part of any property
CON['<Certificate as Display>::fmt'] = Contract('<Certificate as Display>::fmt', fmt_spec(
    lambda ex, cx, c, alt: cat(fld(ex, fld(ex, c, 'key_type'), 'name'), lit(' '), b64(cx, fld(ex, c, 'serialized')), lit(' '), fld(ex, c, 'key_id'))),
    props=('C04',), mk=plain_fmt)
