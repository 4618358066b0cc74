"""Lemmas over the contracts: what follows from them for every value (round trips)."""
from specs_cert import *
from specs_cert import _C
from specs_wire import *
import specs_priv

LEMMAS = {}
FIT = (1 << 32) - 64        # lengths that a 32-bit length prefix can express
SMALL = 1 << 26             # so that a 32-bit length prefix can express the sum of a few


LEN32 = 'every byte string in a value is short enough for a 32-bit length prefix'
SUM32 = 'every byte string in a value is at most 64 MiB long'
WORDS = 'str::split_whitespace gives back the words of words set apart by single white-space characters'
LINES = 'str::lines gives back header, body lines and footer of an armored text; its body lines joined are the base64 text, and none is the footer'
B64 = 'decoding the base64 of data gives data'
MAPS = 'a map is the result of inserting its entries into an empty map; the first n and the next entry of a list are its first n + 1'
CRYPTO = 'verification accepts what signing with the matching key returned; an ECDSA signature is the DER form of two numbers below the group order'


def lemma(name, **kw):
    def deco(f):
        kw.setdefault('assumes', ())
        if kw.get('maxlen'):
            kw['assumes'] += (LEN32 if kw['maxlen'] == FIT else SUM32,)
        LEMMAS['lemma: ' + name] = Lemma('lemma: ' + name, f, **kw)
        return f
    return deco


def place(ex, cx, enc):
    """a reader standing at enc, anything before and behind it"""
    pre, post = cx.fseq('before'), cx.fseq('behind')
    return local_reader_at(ex, cx, Struct('Reader', (cat(pre, enc, post), slen(pre)))), iadd(slen(pre), slen(enc))


def reads_back(ex, cx, enc, read, want, what):
    r, end = place(ex, cx, enc)
    cx.quiet += 1
    try:
        got = read(r)
    finally:
        cx.quiet -= 1
    if got.v == 'Err':
        cx.oblige(False, what + ' is read back')
        return
    for lab, a, b in parts(ex, got.f[0], want):
        cx.oblige(holds(ex, cx, a, b), what + ': the value read' + lab)
    cx.oblige(zb(ieq(rd(ex, cx, r)[1], end)), what + ': exactly its bytes are consumed')


@lemma('an integer reads back', props=('C09',), uses=('Writer::write_u32', 'Writer::write_u64', 'Reader::read_u32', 'Reader::read_u64'))
def l_ints(ex, cx):
    n = cx.fint('n', 0, RANGES['u32'][1])
    reads_back(ex, cx, be(4, n), lambda r: s_u32(ex, cx, r), n, 'a 32-bit integer')
    n = cx.fint('n', 0, RANGES['u64'][1])
    reads_back(ex, cx, be(8, n), lambda r: s_u64(ex, cx, r), n, 'a 64-bit integer')


def fstr(cx, hint):
    s = cx.fseq(hint)
    cx.add(UTF8(s.p[0][1]))
    return s


@lemma('bytes and strings read back', props=('C09',), maxlen=FIT,
       uses=('Writer::write_bytes', 'Writer::write_string', 'Writer::write_raw_bytes', 'Reader::read_bytes', 'Reader::read_string', 'Reader::read_raw_bytes'))
def l_bytes(ex, cx):
    b = cx.fseq('data')
    reads_back(ex, cx, enc_bytes(cx, b), lambda r: s_bytes(ex, cx, r), b, 'a byte string')
    s = fstr(cx, 'text')
    reads_back(ex, cx, enc_bytes(cx, s), lambda r: s_string(ex, cx, r), s, 'a string')
    w = cx.fseq('raw')
    cx.add(slen(w) > 0)
    reads_back(ex, cx, w, lambda r: s_raw(ex, cx, r, slen(w)), w, 'raw bytes')


@lemma('an mpint reads back', props=('C09',), maxlen=FIT, see=('Writer::write_mpint', 'Reader::read_positive_mpint'),
       uses=('Writer::write_mpint', 'Reader::read_positive_mpint'))
def l_mpint(ex, cx):
    b = cx.fseq('number')
    z = zprefix(cx, bterm(cx, b))
    reads_back(ex, cx, enc_bytes(cx, mpint_body(ex, cx, b)), lambda r: s_mpint(ex, cx, r), sub(cx, b, z, slen(b)), 'the number without leading zeros')


def know_mpint(ex, cx, s):
    """the lemma 'an mpint reads back', for a number without leading zeros"""
    t = bterm(cx, mpint_body(ex, cx, s))
    cx.add(And(MP_OK(t), MP_VAL(t) == bterm(cx, s)))


def know_rec(ex, cx, rec, st, v):
    cx.recknown = getattr(cx, 'recknown', []) + [(rec.term(ex, cx, st), v)]


# ------------------------------------------------------------------ induction over the readers' loops

def induct(ex, cx, what, rec, base, step):
    """R(state(i)) = result for every i <= n, by induction on n - i: base = (state, result, same) at i = n,
    step = (state, check(next state)) at an arbitrary i < n"""
    st, same = base
    cx.quiet += 1
    try:
        r = rec.step(ex, cx, st)
    finally:
        cx.quiet -= 1
    if r[0] != 'done':
        cx.oblige(False, what + ': the reader stops at the end')
    else:
        for lab, f in same(r[1]):
            cx.oblige(f, what + ' at the end: ' + lab)
    st, check = step
    cx.quiet += 1
    try:
        r = rec.step(ex, cx, st)
    finally:
        cx.quiet -= 1
    if r[0] != 'next':
        cx.oblige(False, what + ': the reader goes on before the end')
    else:
        for lab, f in check(r[1]):
            cx.oblige(f, what + ', one step: ' + lab)


@lemma('a NUL-terminated string reads back', props=('C09',), maxlen=FIT, uses=('Writer::write_cstring', 'Reader::read_cstring'))
def l_cstring(ex, cx):
    """for text of the characters 1 to 127 (the reader takes one byte for one character)"""
    pre, post, s = cx.fseq('before'), cx.fseq('behind'), fstr(cx, 'text')
    t = s.p[0][1]
    inner = cat(pre, s, lit(b'\0'), post)
    n = LEN(t)

    def state(i):
        return [Struct('Reader', (inner, iadd(slen(pre), i))), sub(cx, s, 0, i)]
    i = cx.fint('i', 0)
    cx.add(i < n)
    c = cx.at(t, i)
    cx.add(And(c > 0, c < 128))
    induct(ex, cx, 'a NUL-terminated string', R_CSTRING,
           (state(n), lambda r: [('the text', r.f[0].v == 'Ok' and seq_eq(cx, r.f[0].f[0], s)), ('just behind the NUL', zb(ieq(r.f[1], iadd(iadd(slen(pre), n), 1))))]),
           (state(i), lambda q: [('position', zb(ieq(q[0].f[1], iadd(iadd(slen(pre), i), 1)))), ('text so far', seq_eq(cx, q[1], sub(cx, s, 0, iadd(i, 1))))]))


def know_cstring(ex, cx, text, data):
    """the lemma 'a NUL-terminated string reads back', for plain text at the start of data"""
    know_rec(ex, cx, R_CSTRING, [Struct('Reader', (data, 0)), Seq(())], Tup((Ok(text), slen(text) + 1)))


def list_induction(ex, cx, what, rec, app, L, acc, next_ok, final_ok):
    """reading ENC(L) element by element; acc(i): what has been read of the first i elements"""
    n = LENL(L)
    # base: everything read
    mid = cx.fb('read')
    tail = app.term(cx, L, n)
    whole = cat(sym(mid), sym(tail))
    i = cx.fint('i', 0)
    mid2 = cx.fb('read')
    cx.add(i < n)
    e = app.unfold(ex, cx, L, i)
    rest = app.term(cx, L, iadd(i, 1))
    inner = cat(sym(mid2), e, sym(rest))
    x = ex.from_term(cx, ELEM(L, zi(i)), app.ety)
    induct(ex, cx, what, rec,
           ([Struct('Reader', (whole, LEN(mid))), acc(n)], lambda r: [('all elements', final_ok(r))]),
           ([Struct('Reader', (inner, LEN(mid2))), acc(i)],
            lambda q: [('position', zb(ieq(q[0].f[1], iadd(LEN(mid2), slen(e))))), ('the element', next_ok(q[1], acc(i), x))]))


@lemma('a string list reads back', assumes=(MAPS,), props=('C09', 'C04'), maxlen=FIT, uses=('Writer::write_string_vec', 'ssh::cert::read_principals'))
def l_strings(ex, cx):
    L = cx.fu('strings')
    ex.lenl(cx, VecL((), L, None))

    def acc(i):
        return VecL((), stdlib.TAKE(L, zi(i)), stdlib.STR)
    # take(L, i) ++ [L[i]] is take(L, i + 1) and take(L, len) is L by definition
    list_induction(ex, cx, 'a string list', R_PRINC, A_STRS, L, acc,
                   lambda got, a, x: got.base.eq(a.base) and len(got.el) == 1 and seq_eq(cx, got.el[0], x),
                   lambda r: r.v == 'Ok' and not r.f[0].el and r.f[0].base.eq(acc(LENL(L)).base))


PREF = ufn('map.firstentries', U, IS, U)


@lemma('an option map reads back', assumes=(MAPS,), props=('C09', 'C04'), maxlen=FIT, uses=('Writer::write_string_map', 'ssh::cert::read_options'))
def l_options(ex, cx):
    M = cx.fu('options')
    m = Opq(M, ('adt', 'std::collections::HashMap', (stdlib.STR, stdlib.STR)))
    L = stdlib.ment(_C(ex, cx), M)

    def acc(i):
        return Opq(PREF(M, zi(i)), m.ty)

    def next_ok(got, a, x):
        k, v = x.f
        return ex.veq(cx, got, minsert(ex, cx, a, k, v))
    # a map is what inserting its entries one after the other into an empty map gives, by definition of its entries
    list_induction(ex, cx, 'an option map', R_OPTS, A_OPTS, L, acc, next_ok, lambda r: r.v == 'Ok' and r.f[0].t.eq(acc(LENL(L)).t))


# ------------------------------------------------------------------ public keys

def canon(cx, s):
    """no leading zero byte"""
    z = zprefix(cx, bterm(cx, s))
    f = bor(zb(ieq(slen(s), 0)), Not(zb(ieq(at(cx, s, 0), 0))))
    cx.add(zb(f) == (z == 0))      # definition of the number of leading zeros
    return f


def wf_pk(ex, cx, key):
    """what parsing a key establishes; branches on the kind of the key"""
    kt = fld(ex, key, 'key_type')
    cs = [zb(wf_keytype(ex, cx, kt)), zb(kind_matches(ex, cx, kt, fld(ex, key, 'kind')))]
    k = ex.expand(cx, fld(ex, key, 'kind'))
    d = k.f[0]
    if k.v == 'Rsa':
        cs += [zb(canon(cx, fld(ex, d, f))) for f in ('e', 'n')]
        return band(*cs)
    if k.v == 'Ecdsa':
        c = fld(ex, d, 'curve')
        t = bterm(cx, fld(ex, c, 'identifier'))
        w = k_curve(ex, cx, fld(ex, c, 'identifier'))
        if w.v == 'Err':
            return False
        cs.append(zb(ex.veq(cx, w.f[0], c)))
    cs.append(zb(fld(ex, kt, 'is_sk')) == zb(ieq(ex.discr(cx, fld(ex, d, 'sk_application')), 1)))
    return band(*cs)


def fresh_pk(ex, cx, hint):
    k = ex.fresh(cx, PK, hint)
    cx.quiet += 1
    try:
        f = wf_pk(ex, cx, k)
    finally:
        cx.quiet -= 1
    if f is False:
        raise PathEnd()
    cx.add(zb(f))
    return k


OPEN_PK = ('Writer::write_pub_key_data', 'PublicKey::from_reader', 'Writer::write_mpint', 'Reader::read_positive_mpint')
USE_PK = ('Writer::write_pub_key_data', 'Writer::write_pub_key', 'PublicKey::encode', 'PublicKey::from_reader', 'PublicKey::from_bytes',
          'Writer::write_mpint', 'Writer::write_bytes', 'Writer::write_string', 'Reader::read_positive_mpint', 'Reader::read_bytes', 'Reader::read_string')


@lemma('a number read has no leading zeros', props=('C09', 'C13'), see=('Reader::read_positive_mpint',), uses=('Reader::read_positive_mpint',))
def l_mpint_canon(ex, cx):
    b = cx.fseq('data')
    v = quiet(cx, lambda: s_mpint(ex, cx, local_reader(ex, cx, b)))
    if v.v == 'Ok':
        cx.oblige(canon(cx, v.f[0]), 'a number read has no leading zeros')


@lemma('a public key reads back', props=('C10', 'C09', 'C04', 'C07', 'C13'), maxlen=FIT, see=OPEN_PK, uses=USE_PK)
def l_pk(ex, cx):
    key = fresh_pk(ex, cx, 'key')
    kt = fld(ex, key, 'key_type')
    name = fld(ex, kt, 'plain' if cx.branch(cx.fbool('under its plain name')) else 'name')
    want = mkstruct(ex, 'PublicKey', key_type=keytype_of(ex, cx, name)[1], kind=fld(ex, key, 'kind'), comment=NONE)
    cx.quiet += 1
    e = enc_pk_data(ex, cx, key)
    cx.quiet -= 1
    reads_back(ex, cx, e, lambda r: read_pk(ex, cx, name, r), want, 'a public key')


@lemma('a parsed public key is well-formed', props=('C10', 'C04', 'C13'), see=OPEN_PK, uses=('PublicKey::from_reader',))
def l_pk_wf(ex, cx):
    name, b = fstr(cx, 'name'), cx.fseq('data')
    off = cx.fint('off', 0, RANGES['usize'][1])
    cx.quiet += 1
    k = read_pk(ex, cx, name, local_reader_at(ex, cx, Struct('Reader', (b, off))))
    cx.quiet -= 1
    if k.v == 'Err':
        return
    cx.oblige(wf_pk(ex, cx, k.f[0]), 'a parsed public key is well-formed')


def know_pk(ex, cx, name, key, inner, off):
    """the lemma 'a public key reads back', for the encoding of key at off of inner"""
    e = enc_pk_data(ex, cx, key)
    n = slen(e)
    cx.oblige(seq_eq(cx, sub(cx, inner, off, iadd(off, n)), e), 'the key stands where it is read')
    a = (bterm(cx, name), bterm(cx, inner), zi(off))
    cx.add(And(PKR_OK(*a), PKR_END(*a) == zi(iadd(off, n)), PKR_KIND(*a) == ex.uterm(cx, fld(ex, key, 'kind'))))


def know_strings(ex, cx, v):
    """the lemma 'a string list reads back'"""
    b = A_STRS.whole(ex, cx, v)
    know_rec(ex, cx, R_PRINC, [Struct('Reader', (b, 0)), VecL((), None, stdlib.STR)], Ok(v))


def know_options(ex, cx, m):
    """the lemma 'an option map reads back'"""
    b = enc_map(ex, cx, m)
    know_rec(ex, cx, R_OPTS, [Struct('Reader', (b, 0)), stdlib.empty_map()], Ok(m))


def plain_key(ex, cx, key):
    """the key as it is read back: under its plain name, without a comment"""
    kt = keytype_of(ex, cx, fld(ex, fld(ex, key, 'key_type'), 'plain'))[1]
    return mkstruct(ex, 'PublicKey', key_type=kt, kind=fld(ex, key, 'kind'), comment=NONE)


def assume(ex, cx, f):
    if f is False:
        raise PathEnd()
    cx.add(zb(f))


def quiet(cx, f):
    cx.quiet += 1
    try:
        return f()
    finally:
        cx.quiet -= 1


def plain_kind(ex, cx, key):
    d = ex.discr(cx, fld(ex, fld(ex, key, 'key_type'), 'kind'))
    return bor(*[zb(ieq(d, ex.discr_of(Enum('KeyTypeKind', n)))) for n in ('Rsa', 'Ecdsa', 'Ed25519')])


@lemma('only plain key types verify signatures', props=('C05', 'C04'), see=('ssh::signature::verify_signature',), uses=('ssh::signature::verify_signature',))
def l_kinds(ex, cx):
    key = ex.fresh(cx, PK, 'key')
    sig, msg = cx.fseq('sig'), cx.fseq('msg')
    if quiet(cx, lambda: sig_ok(ex, cx, sig, msg, key)):
        cx.oblige(plain_kind(ex, cx, key), 'the type of a key that verifies is not a certificate type')


def issued(ex, cx):
    """a certificate that issuing returned: (certificate, bytes to be signed)"""
    c = ex.fresh(cx, CERT, 'cert')
    g = lambda n: fld(ex, c, n)
    kt = g('key_type')
    key, ca = g('key'), g('signature_key')
    # from the builder or from parsing: a certificate type of the subject's plain type, well-formed keys
    assume(ex, cx, wf_keytype(ex, cx, kt))
    assume(ex, cx, zb(fld(ex, kt, 'is_cert')))
    assume(ex, cx, seq_eq(cx, fld(ex, kt, 'plain'), fld(ex, fld(ex, key, 'key_type'), 'plain')))
    for k in (key, ca):
        quiet(cx, lambda: assume(ex, cx, wf_pk(ex, cx, k)))
    t = quiet(cx, lambda: tbs(ex, cx, c))
    sig = g('signature')
    # add_signature and sign: the signature verifies, the stored bytes are these
    if not quiet(cx, lambda: sig_ok(ex, cx, sig, t, ca)):
        raise PathEnd()
    cx.add(zb(plain_kind(ex, cx, ca)))      # lemma 'only plain key types verify signatures'
    return c, t, cat(t, enc_bytes(cx, sig))


@lemma('an issued certificate parses back', props=('C04',), maxlen=FIT, see=('Certificate::from_bytes',), max_s=300,
       uses=('Certificate::tbs_certificate', 'Certificate::add_signature', 'Certificate::sign', 'Certificate::builder', 'Certificate::from_bytes',
             'Writer::write_string_vec', 'Writer::write_string_map', 'ssh::cert::read_options', 'ssh::cert::read_principals', 'KeyType::as_cert_name') + USE_PK)
def l_cert(ex, cx):
    c, t, data = issued(ex, cx)
    g = lambda n: fld(ex, c, n)
    kt, key, ca = g('key_type'), g('key'), g('signature_key')
    name = k_cert_name(ex, cx, kt)
    off = slen(cat(enc_bytes(cx, name), enc_bytes(cx, g('nonce'))))
    plain = fld(ex, kt, 'plain')
    know_pk(ex, cx, plain, key, data, off)
    cap = fld(ex, fld(ex, ca, 'key_type'), 'plain')
    know_pk(ex, cx, cap, ca, enc_pk(ex, cx, ca), slen(enc_bytes(cx, cap)))
    know_strings(ex, cx, g('principals'))
    know_options(ex, cx, g('critical_options'))
    know_options(ex, cx, g('extensions'))
    got = quiet(cx, lambda: cert_read(ex, cx, data))
    if got.v == 'Err':
        cx.oblige(False, 'the issued certificate parses')
        return
    got = got.f[0]
    want = {'key': plain_key(ex, cx, key), 'signature_key': plain_key(ex, cx, ca), 'serialized': data}
    for f in ('key_type', 'nonce', 'key', 'serial', 'cert_type', 'key_id', 'principals', 'valid_after', 'valid_before', 'critical_options',
              'extensions', 'signature_key', 'signature', 'serialized'):
        for lab, a, b in parts(ex, fld(ex, got, f), want.get(f, g(f))):
            cx.oblige(holds(ex, cx, a, b), 'issued certificate parses back: ' + f + lab)


@lemma('certificates under construction carry a certificate type of their subject', props=('C04',), see=('Certificate::from_bytes',), max_s=300,
       uses=('Certificate::builder', 'Certificate::from_bytes', 'KeyType::as_cert_name'))
def l_wf_cert(ex, cx):
    if cx.branch(cx.fbool('built'), 'from the builder'):
        pk = ex.fresh(cx, PK, 'key')
        assume(ex, cx, wf_keytype(ex, cx, fld(ex, pk, 'key_type')))
        c = quiet(cx, lambda: c_builder(ex, cx, pk, ex.fresh(cx, ('adt', 'ssh::cert::CertType', ()), 'role'), ex.fresh(cx, PK, 'ca')))
    else:
        c = quiet(cx, lambda: cert_read(ex, cx, cx.fseq('data')))
    if c.v == 'Err':
        return
    c = c.f[0]
    kt = fld(ex, c, 'key_type')
    cx.oblige(wf_keytype(ex, cx, kt), 'the type is a supported one')
    cx.oblige(zb(fld(ex, kt, 'is_cert')), 'the type is a certificate type')
    cx.oblige(seq_eq(cx, fld(ex, kt, 'plain'), fld(ex, fld(ex, fld(ex, c, 'key'), 'key_type'), 'plain')), 'the type is that of the subject key')


def text_of(cx, data):
    """base64 of data; decoding it gives data back piece by piece"""
    e = b64(cx, data)
    cx.b64known = getattr(cx, 'b64known', []) + [(bterm(cx, e), data)]
    return e


def know_words(ex, cx, text, ws, exact):
    """str::split_whitespace: words set apart by single spaces, themselves without white space"""
    v = words(ex, cx, text)
    n = ex.vlen(cx, v)
    cx.add(zi(n) == len(ws) if exact else zi(n) >= len(ws))
    for i, w in enumerate(ws):
        cx.add(zb(ex.veq(cx, ex.elem(cx, v, i), w)))


@lemma('a displayed certificate parses back', assumes=(WORDS, B64,), props=('C04',), maxlen=FIT,
       uses=('<Certificate as Display>::fmt', '<KeyType as Display>::fmt', 'Certificate::from_string', 'Certificate::from_bytes'))
def l_cert_text(ex, cx):
    """given 'an issued certificate parses back': the stored bytes parse, and to a certificate of the same type"""
    c = ex.fresh(cx, CERT, 'cert')
    data = fld(ex, c, 'serialized')
    t = bterm(cx, data)
    assume(ex, cx, wf_keytype(ex, cx, fld(ex, c, 'key_type')))
    cx.add(CR_OK(t))
    back = upd(ex, ex.from_term(cx, CR_VAL(t), CERT), comment=NONE, serialized=data)
    assume(ex, cx, ex.veq(cx, fld(ex, back, 'key_type'), fld(ex, c, 'key_type')))
    cx.frames += 1
    fr = Frame(None, cx.frames)
    fr.l[0] = Struct('Formatter', (Seq(()), False))
    quiet(cx, lambda: CON['<Certificate as Display>::fmt'].spec(ex, cx, c, MRef(fr, 0)))
    text = fr.l[0].f[0]
    know_words(ex, cx, text, [fld(ex, fld(ex, c, 'key_type'), 'name'), b64(cx, data)], False)
    got = quiet(cx, lambda: c_from_string(ex, cx, text))
    if got.v == 'Err':
        cx.oblige(False, 'the displayed certificate parses')
        return
    for n, a, b in zip(ex.field_names('Certificate', len(back.f)), got.f[0].f, back.f):
        if n != 'comment':
            cx.oblige(zb(ex.veq(cx, a, b)), 'displayed certificate parses back: ' + n)


@lemma('a displayed or written public key parses back', assumes=(WORDS, B64,), props=('C10',), maxlen=FIT,
       uses=('<PublicKey as Display>::fmt', '<KeyType as Display>::fmt', 'PublicKey::write', 'PublicKey::from_string', 'PublicKey::encode') + USE_PK)
def l_pk_text(ex, cx):
    """for keys as parsed: type named by its plain name, comment absent or one word"""
    key = fresh_pk(ex, cx, 'key')
    kt = fld(ex, key, 'key_type')
    name = fld(ex, kt, 'plain')
    assume(ex, cx, seq_eq(cx, name, fld(ex, kt, 'name')))
    blob = enc_pk(ex, cx, key)
    know_pk(ex, cx, name, key, blob, slen(enc_bytes(cx, name)))
    com = ex.expand(cx, fld(ex, key, 'comment'))
    tail = [lit('\n')] if cx.branch(cx.fbool('written')) else []
    text = quiet(cx, lambda: pk_text(ex, cx, key, *tail))
    know_words(ex, cx, text, [name, text_of(cx, blob)] + ([com.f[0]] if com.v == 'Some' else []), True)
    got = quiet(cx, lambda: p_from_string(ex, cx, text))
    if got.v == 'Err':
        cx.oblige(False, 'the text of a public key parses')
        return
    for lab, a, b in parts(ex, got.f[0], key):
        cx.oblige(holds(ex, cx, a, b), 'the text of a public key parses back' + lab)


# ------------------------------------------------------------------ armored text

CATL = ufn('lines.joined', U, IS, B)


def armored(ex, cx, begin, body, end, tail):
    """str::lines of header, base64 broken anywhere, footer: (text, list of lines, index of the footer)"""
    text = cat(begin, lit('\n'), sym(cx.fb('wrapped')), lit('\n'), end, *tail)
    v = stdlib.lines_list(_C(ex, cx), text)
    m = cx.fint('footer', 1)
    cx.add(m < zi(ex.vlen(cx, v)))
    assume(ex, cx, seq_eq(cx, ex.elem(cx, v, 0), begin))
    assume(ex, cx, seq_eq(cx, ex.elem(cx, v, m), end))
    L = ex.uterm(cx, v)
    cx.add(CATL(L, m) == bterm(cx, body))     # the line breaks taken out
    cx.add(CATL(L, IntVal(1)) == bterm(cx, Seq(())))
    return text, v, m


def l_armor(rec, begin, end):
    def body(ex, cx):
        """between header and footer stand lines of base64 characters, and the footer has others"""
        text, v, m = armored(ex, cx, begin, sym(cx.fb('body')), end, [])
        L = ex.uterm(cx, v)
        i = cx.fint('i', 1)
        cx.add(i < m)
        line = ex.elem(cx, v, i)
        assume(ex, cx, Not(zb(seq_eq(cx, line, end))))
        cx.add(CATL(L, i + 1) == bterm(cx, cat(sym(CATL(L, i)), line)))

        def state(i):
            return [list_iter(ex, cx, v, i), sym(CATL(L, zi(i)))]
        induct(ex, cx, 'armored text', rec,
               (state(m), lambda r: [('the joined lines', r.v == 'Some' and seq_eq(cx, r.f[0], sym(CATL(L, m))))]),
               (state(i), lambda q: [('next line', zb(ieq(it_split(q[0])[1], i + 1))), ('joined so far', seq_eq(cx, q[1], sym(CATL(L, i + 1))))]))
    return body


from specs_sig import R_SIGARMOR, BEGIN_SIG, END_SIG, sshsig_read, list_iter, ss_armored
from specs_priv import R_PRIVARMOR, BEGIN_PRIV, END_PRIV, enc_sshsig, enc_priv, container, pv_text, RSA_FIELDS
from recs import it_split
lemma('the body of an armored signature is collected', assumes=(LINES,), props=('C07',), uses=('SshSignature::from_armored_string',))(l_armor(R_SIGARMOR, BEGIN_SIG, END_SIG))
lemma('the body of an armored private key is collected', assumes=(LINES,), props=('C13',), uses=('PrivateKey::from_string', 'PrivateKey::from_string_with_passphrase'))(
    l_armor(R_PRIVARMOR, BEGIN_PRIV, END_PRIV))


def know_armor(ex, cx, rec, begin, data, end, tail):
    """the lemma about armored text, for the base64 of data"""
    body = text_of(cx, data)
    text, v, m = armored(ex, cx, begin, body, end, tail)
    know_rec(ex, cx, rec, [list_iter(ex, cx, v, 1), Seq(())], Some(body))
    return text


def fields_back(ex, cx, what, name, got, want, **other):
    for n, a, b in zip(ex.field_names(name, len(want.f)), got.f, want.f):
        b = other.get(n, b)
        if b is ANYV:
            continue
        for lab, x, y in parts(ex, a, b):
            cx.oblige(holds(ex, cx, x, y), what + ': ' + n + lab)


def named_key(ex, cx, key):
    """the key as it is read back: under its own name, without a comment"""
    return mkstruct(ex, 'PublicKey', key_type=keytype_of(ex, cx, fld(ex, fld(ex, key, 'key_type'), 'name'))[1], kind=fld(ex, key, 'kind'), comment=NONE)


def know_named(ex, cx, key):
    name = fld(ex, fld(ex, key, 'key_type'), 'name')
    know_pk(ex, cx, name, key, enc_pk(ex, cx, key, False), slen(enc_bytes(cx, name)))


SSHSIG = ('adt', 'ssh::ssh_signature::SshSignature', ())


@lemma('an SSH signature reads back, also from its displayed text', assumes=(LINES, B64,), props=('C07',), maxlen=FIT, max_s=200,
       uses=('<SshSignature as Display>::fmt', '<VerifiedSshSignature as Display>::fmt', 'SshSignature::from_reader', 'SshSignature::from_armored_string') + USE_PK)
def l_sshsig(ex, cx):
    """for signatures with a namespace and a well-formed key"""
    s = ex.fresh(cx, SSHSIG, 'signature')
    key = fld(ex, s, 'pubkey')
    quiet(cx, lambda: assume(ex, cx, wf_pk(ex, cx, key)))
    cx.add(zi(slen(fld(ex, s, 'namespace'))) > 0)
    data = quiet(cx, lambda: enc_sshsig(ex, cx, s))
    know_named(ex, cx, key)
    if cx.branch(cx.fbool('from text'), 'from text'):
        text = know_armor(ex, cx, R_SIGARMOR, BEGIN_SIG, data, END_SIG, [])
        got = quiet(cx, lambda: ss_armored(ex, cx, text))
    else:
        got = quiet(cx, lambda: sshsig_read(ex, cx, local_reader(ex, cx, data)))
    if got.v == 'Err':
        cx.oblige(False, 'the signature parses')
        return
    fields_back(ex, cx, 'the signature read back', 'SshSignature', got.f[0], s, pubkey=named_key(ex, cx, key))


def whole_priv(ex, cx, k, need=assume):
    """what loading and generating a private key establish: its parts agree; branches on the kind of the key"""
    kt, pk = fld(ex, k, 'key_type'), fld(ex, k, 'pubkey')
    # the public half and the private half name the same supported type, which is not a certificate type
    need(ex, cx, wf_keytype(ex, cx, kt))
    need(ex, cx, ex.veq(cx, fld(ex, pk, 'key_type'), kt))
    need(ex, cx, zb(ieq(ex.discr(cx, fld(ex, pk, 'comment')), 0)))
    need(ex, cx, plain_kind(ex, cx, pk))
    need(ex, cx, quiet(cx, lambda: wf_pk(ex, cx, pk)))
    kind, pub = ex.expand(cx, fld(ex, k, 'kind')), ex.expand(cx, fld(ex, pk, 'kind'))
    if not kind.v.startswith(pub.v):
        need(ex, cx, False)
        return
    d, p = kind.f[0], pub.f[0]
    if kind.v == 'Rsa':
        for f in RSA_FIELDS:
            need(ex, cx, canon(cx, fld(ex, d, f)))
        for f in ('n', 'e'):
            need(ex, cx, seq_eq(cx, fld(ex, d, f), fld(ex, p, f)))
        P, Q, D = (specs_priv.bigval(cx, fld(ex, d, f)) for f in ('p', 'q', 'd'))
        need(ex, cx, band(zb(ilt(1, P)), zb(ilt(1, Q))))
        for f, m in (('exp', P), ('exq', Q)):
            need(ex, cx, ex.veq(cx, fld(ex, d, f), Some(specs_priv.bigbytes(cx, specs_priv.big_mod(cx, D, isub(m, 1))))))
        return
    sk = kind.v.endswith('Sk')
    need(ex, cx, zb(fld(ex, kt, 'is_sk')) == sk)
    if kind.v == 'Ecdsa':
        need(ex, cx, ex.veq(cx, fld(ex, d, 'curve'), fld(ex, p, 'curve')))
    if sk:
        # the PIN and the device path are not part of the file
        for f in ('pin', 'device_path'):
            need(ex, cx, zb(ieq(ex.discr(cx, fld(ex, d, f)), 0)))


OPEN_PRIV = ('PrivateKey::read_private_key', 'Writer::write_pub_key_data')
USE_PRIV = ('PrivateKey::encode', 'PrivateKey::write', 'PrivateKey::read_private_key', 'PrivateKey::from_reader', 'PrivateKey::from_string',
            'PrivateKey::from_string_with_passphrase', 'Reader::read_cstring') + USE_PK


@lemma('a private key reads back, also from its written text', assumes=(LINES, B64,), props=('C13',), maxlen=SMALL, see=OPEN_PRIV, max_s=300, uses=USE_PRIV)
def l_priv(ex, cx):
    k = ex.fresh(cx, specs_priv.PRIV, 'key')
    whole_priv(ex, cx, k)
    pad = cx.fseq('padding')      # whatever its bytes
    cx.add(zi(slen(pad)) < 8)
    data = quiet(cx, lambda: enc_priv(ex, cx, k, pad))
    kind = ex.expand(cx, fld(ex, k, 'kind'))
    if kind.v == 'Rsa':
        for f in RSA_FIELDS:
            know_mpint(ex, cx, fld(ex, kind.f[0], f))
    know_cstring(ex, cx, lit('openssh-key-v1'), data)
    know_named(ex, cx, fld(ex, k, 'pubkey'))
    if cx.branch(cx.fbool('from text'), 'from text'):
        text = know_armor(ex, cx, R_PRIVARMOR, BEGIN_PRIV, data, END_PRIV, [lit('\n')])
        got = quiet(cx, lambda: pv_text(ex, cx, text, NONE))
    else:
        got = quiet(cx, lambda: container(ex, cx, local_reader(ex, cx, data), NONE))
    if got.v == 'Err':
        cx.oblige(False, 'the written private key loads')
        return
    fields_back(ex, cx, 'the private key read back', 'PrivateKey', got.f[0], k)


@lemma('loading or generating a private key yields parts that agree', props=('C13', 'C12'), see=OPEN_PRIV, max_s=300,
       uses=('PrivateKey::read_private_key', 'PrivateKey::new', 'KeyType::from_name'))
def l_priv_wf(ex, cx):
    if cx.branch(cx.fbool('generated'), 'generated'):
        seed = cx.fseq('seed')
        cx.add(slen(seed) == 32)
        cx.randoms = [seed]
        k = quiet(cx, lambda: specs_priv.pv_new(ex, cx, ex.fresh(cx, KTK, 'type'), fstr(cx, 'comment')))
    else:
        b, off = cx.fseq('data'), cx.fint('off', 0, RANGES['usize'][1])
        k = quiet(cx, lambda: specs_priv.read_priv(ex, cx, local_reader_at(ex, cx, Struct('Reader', (b, off)))))
    if k.v == 'Err':
        return

    kind = ex.expand(cx, fld(ex, k.f[0], 'kind'))
    if kind.v == 'Rsa':
        for f in RSA_FIELDS:      # lemma 'a number read has no leading zeros'
            cx.add(zb(canon(cx, fld(ex, kind.f[0], f))))

    def need(ex, cx, f):
        cx.oblige(f, 'the parts of a loaded or generated private key agree')
    whole_priv(ex, cx, k.f[0], need)


# ------------------------------------------------------------------ signing and verifying

from specs_sig import DER_OK, DER_R, DER_S, RSA_ALG, EC_ALG, zeros
from stdlib import verifies, rsa_key_term


def genuine(ex, cx, k, msg):
    """the mathematics of the primitives, for a key whose halves belong together: what its signing operation returns,
    its verification accepts (an ECDSA signature being the DER form of two numbers below the group order)"""
    d, p = ex.expand(cx, fld(ex, k, 'kind')).f[0], ex.expand(cx, fld(ex, fld(ex, k, 'pubkey'), 'kind')).f[0]
    kind = ex.expand(cx, fld(ex, k, 'kind')).v
    m = bterm(cx, msg)
    if kind == 'Rsa':
        ok, der = specs_priv.der_of(ex, cx, specs_priv.rsa_asn1(ex, cx, d))
        s = specs_priv.sig_of(cx, 'RSA_PKCS1_SHA512', der, msg)
        cx.add(stdlib.verify_uf(RSA_ALG['rsa-sha2-512'])(rsa_key_term(cx, fld(ex, p, 'n'), fld(ex, p, 'e')), m, bterm(cx, s)))
    elif kind == 'Ed25519':
        s = specs_priv.sig_of(cx, 'ED25519', sub(cx, fld(ex, d, 'key'), 0, 32), fld(ex, p, 'key'), msg)
        cx.add(verifies(cx, 'ED25519', fld(ex, p, 'key'), msg, s))
    else:
        name = fld(ex, fld(ex, fld(ex, k, 'pubkey'), 'key_type'), 'name')
        c = ex.expand(cx, fld(ex, fld(ex, d, 'curve'), 'kind')).v
        if c == 'Nistp521':
            raise PathEnd()
        w, n = {'Nistp256': (32, '256'), 'Nistp384': (48, '384')}[c]
        assume(ex, cx, seq_eq(cx, name, lit('ecdsa-sha2-nistp' + n)))     # the type named is that of the curve
        alg = 'ECDSA_P%s_SHA%s_ASN1_SIGNING' % (n, n)
        cx.genuine = (alg, 'ECDSA_P%s_SHA%s_FIXED' % (n, n), w, fld(ex, p, 'key'))


def ec_axiom(cx, s, msg):
    """an ECDSA signature in DER form"""
    alg, fixed, w, pub = cx.genuine
    t = bterm(cx, s)
    r, q = DER_R(t), DER_S(t)
    cx.add(And(DER_OK(t), MP_OK(r), MP_OK(q)))
    vs = [MP_VAL(r), MP_VAL(q)]
    for v, x in zip(vs, (r, q)):
        cx.blen(v)
        cx.add(And(LEN(v) <= w, LEN(x) <= w + 1))
    raw = cat(*[y for v in vs for y in (zeros(isub(w, LEN(v))), sym(v))])
    cx.add(verifies(cx, fixed, pub, msg, raw))


@lemma('what a private key signs verifies under its public half', assumes=(CRYPTO,), props=('C14', 'C07'), maxlen=SMALL, see=('ssh::signature::verify_signature',), max_s=300,
       uses=('<PrivateKey as SSHCertificateSigner>::sign', 'utils::format_signature_for_ssh', 'utils::asn_der_to_r_s', 'ssh::signature::verify_signature',
             'Reader::read_positive_mpint', 'Reader::read_bytes', 'Reader::read_string'))
def l_sign(ex, cx):
    k = ex.fresh(cx, specs_priv.PRIV, 'key')
    whole_priv(ex, cx, k)
    kind = ex.expand(cx, fld(ex, k, 'kind')).v
    if kind.endswith('Sk'):
        return
    msg = cx.fseq('message')
    quiet(cx, lambda: genuine(ex, cx, k, msg))
    s = quiet(cx, lambda: ex.expand(cx, specs_priv.pv_sign(ex, cx, k, msg)))
    if s.v == 'None':
        return
    if kind == 'Ecdsa':
        for t in cx.signed:
            ec_axiom(cx, t, msg)
    ok = quiet(cx, lambda: sig_ok(ex, cx, s.f[0], msg, fld(ex, k, 'pubkey')))
    cx.oblige(ok, 'the signature verifies under the public half')


DEVICE = 'a security key signs the digest of the application, its flags byte, its counter and the digest it was given, with the key of the handle it was given'


@lemma('what a security key signs verifies under its public half', assumes=(CRYPTO, DEVICE), props=('C23',), maxlen=SMALL, see=('ssh::signature::verify_signature',), max_s=300,
       uses=('<PrivateKey as SSHCertificateSigner>::sign', 'fido::signing::mozilla::sign_with_private_key', 'utils::format_signature_for_ssh', 'utils::asn_der_to_r_s',
             'ssh::signature::verify_signature', 'Reader::read_positive_mpint', 'Reader::read_bytes', 'Reader::read_string'))
def l_sk(ex, cx):
    import specs_hw as hw
    k = ex.fresh(cx, specs_priv.PRIV, 'key')
    pk = fld(ex, k, 'pubkey')
    kind, pub = ex.expand(cx, fld(ex, k, 'kind')), ex.expand(cx, fld(ex, pk, 'kind'))
    if not kind.v.endswith('Sk') or not kind.v.startswith(pub.v):
        return
    name = 'sk-ssh-ed25519@openssh.com' if pub.v == 'Ed25519' else 'sk-ecdsa-sha2-nistp256@openssh.com'
    assume(ex, cx, ex.veq(cx, fld(ex, pk, 'key_type'), hw.k_from_name(ex, cx, lit(name)).f[0]))
    assume(ex, cx, zb(specs_priv.pre_sk(ex, cx, k)))
    msg = cx.fseq('message')
    s = quiet(cx, lambda: ex.expand(cx, specs_priv.pv_sign(ex, cx, k, msg)))
    if s.v == 'None':
        return
    raw, fl, ctr = cx.assertion
    app = ex.expand(cx, fld(ex, pub.f[0], 'sk_application')).f[0]
    signed = cat(hw.hashed(cx, 'SHA256', app), be(1, fl), be(4, ctr), hw.hashed(cx, 'SHA256', msg))
    if pub.v == 'Ed25519':
        cx.add(verifies(cx, 'ED25519', fld(ex, pub.f[0], 'key'), signed, raw))
    else:
        cx.genuine = (None, 'ECDSA_P256_SHA256_FIXED', 32, fld(ex, pub.f[0], 'key'))
        ec_axiom(cx, raw, signed)
    ok = quiet(cx, lambda: sig_ok(ex, cx, s.f[0], msg, pk))
    cx.oblige(ok, 'the signature verifies under the public half')


@lemma('what is signed for an SSH signature determines namespace, hash and digest', props=('C06',), maxlen=FIT, uses=('SshSignature::to_signed_format', 'HashAlgorithm::as_str'))
def l_signed(ex, cx):
    """read back from the signed bytes, hence different ones give different signed bytes"""
    from specs_sig import signed_format, HASHES, hashed
    ns, msg = fstr(cx, 'namespace'), cx.fseq('message')
    h = ex.expand(cx, ex.fresh(cx, ('adt', 'ssh::signature::HashAlgorithm', ()), 'hash'))
    b = quiet(cx, lambda: signed_format(ex, cx, ns, h, msg))
    r = local_reader(ex, cx, b)
    got = quiet(cx, lambda: [s_raw(ex, cx, r, 6), s_string(ex, cx, r), s_bytes(ex, cx, r), s_string(ex, cx, r), s_bytes(ex, cx, r)])
    n, alg = HASHES[h.v]
    for g, want, what in zip(got[1:], (ns, Seq(()), lit(n), hashed(cx, alg, msg)), ('namespace', 'reserved field', 'hash name', 'digest')):
        cx.oblige(g.v == 'Ok' and seq_eq(cx, g.f[0], want), 'read back from the signed bytes: ' + what)
    cx.oblige(zb(ieq(rd(ex, cx, r)[1], slen(b))), 'read back from the signed bytes: nothing else')
