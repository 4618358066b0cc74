"""Specifications of the allowed-signers parser."""
from contracts import *
import stdlib
from stdlib import H, C
from stdlib_x import uv, ub, ut
from specs_wire import CON, contract
import specs_wire as W
from specs_keys import fld, mkstruct, upd
import specs_keys as K
from recs import *

NONE = Enum('Option', 'None')
STR = ('ref', False, ('prim', 'str'))
SPL = 'AllowedSignerSplitter'
QUOTE = lit('"')


def call(ex, cx, key, rty, *args):
    """the assumed contract of a library function, as used in a specification"""
    c = C()
    c.ex, c.cx, c.callee, c.a, c.rty, c.atys, c.fr = ex, cx, key, list(args), parse_type(rty), [], None
    c.key, c.selfty, c.trait = key, 'str', None
    return H[key](c)


def eq(cx, s, text):
    return zb(seq_eq(cx, s, lit(text)))


# ------------------------------------------------------------------ tokens of a line

MEND = ufn('match.end', U, IS, IS)


def match_facts(ex, cx, L, i, x):
    """matches of a set of characters: in order, not overlapping, inside the text"""
    if not L.decl().name().startswith('list.match_indices'):
        return
    s = stdlib.as_seq(W._C(ex, cx), ex.from_term(cx, L.arg(0), STR))
    idx, m = x.f
    if not cx.once(('matchidx', L.get_id(), str(i))):
        return
    i = zi(i)
    cx.add(And(MEND(L, 0) == 0, MEND(L, i) >= 0, MEND(L, i) <= zi(idx), zi(idx) < zi(slen(s)), zi(slen(m)) == 1,
               MEND(L, i + 1) == zi(idx) + 1, zi(at(cx, s, idx)) < 0x80, zi(at(cx, s, idx)) == zi(at(cx, m, 0)), zb(is_utf8(cx, s))))
    cx.add(z3.Implies(MEND(L, i) > 0, zi(at(cx, s, MEND(L, i) - 1)) < 0x80))


Ex.elem_hooks['list.match_indices'] = match_facts


def text_of(ex, cx, it):
    L = it_split(it)[0].base
    if L is None or not L.decl().name().startswith('list.match_indices'):
        raise Unsupported('not the matches of a pattern')
    return L, stdlib.as_seq(W._C(ex, cx), ex.from_term(cx, L.arg(0), STR))


def _tok_step(ex, cx, st):
    """the text before each delimiter (when there is any), the delimiter; at the end the rest"""
    it, toks, last = st
    L, s = text_of(ex, cx, it)
    coll, i, rb, _ = it_split(it)
    push = lambda v, x: VecL(v.el + (x,), v.base, v.ety)
    if not cx.branch(zb(ilt(i, ex.vlen(cx, coll))), 'another delimiter'):
        if cx.branch(zb(ilt(last, slen(s))), 'text after the last delimiter'):
            toks = push(toks, sub(cx, s, last, slen(s)))
        return 'done', toks
    idx, m = ex.elem(cx, coll, i).f
    if cx.branch(z3.Not(zb(ieq(idx, last))), 'text before the delimiter'):
        toks = push(toks, sub(cx, s, last, idx))
    toks = push(toks, m)
    return 'next', [rb(iadd(i, 1)), toks, iadd(idx, 1)]


def _tok_inv(ex, cx, st):
    it, toks, last = st
    L, s = text_of(ex, cx, it)
    i = zi(it_split(it)[1])
    cx.add(And(MEND(L, 0) == 0))
    return And(zi(last) == MEND(L, i), zi(last) >= 0, zi(last) <= zi(slen(s)), z3.Implies(zi(last) > 0, zi(at(cx, s, isub(last, 1))) < 0x80))


R_TOK = TailRec('tokens of a line', ['it', 'vec', 'int|usize'], _tok_step, 'std::vec::Vec<std::string::String>', inv=_tok_inv)
DELIMS = (32, 34, 35)


@contract('AllowedSignerSplitter::new', props=('C16', 'C21'), recs=(R_TOK,), internal=True)
def g_new(ex, cx, s):
    """the tokens of the line, last one first; delimiters (space, double quote, #) are tokens of their own"""
    s = ex.deref(cx, s)
    if W.opaque(ex, 'AllowedSignerSplitter::new'):
        t = ut(ex, cx, 'line.tokens', s)
        ex.lenl(cx, VecL((), t, None))
        return mk_stack(cx, SPL, t, LENL(t), STR)
    it = call(ex, cx, 'str::match_indices', 'std::str::MatchIndices', s, VecL(DELIMS, None, ('prim', 'char')))
    L = R_TOK.call(ex, cx, [it, VecL((), None, STR), 0])
    if isinstance(L, VecL) and L.base is None:
        return Struct(SPL, (VecL(tuple(reversed(L.el)), None, STR),))
    t = ufn('revl', U, U)(ex.uterm(cx, L))
    return Struct(SPL, (VecL((), t, STR),))


def mk_spl(ex, cx, i, ty, hint):
    if i == 0:
        T = cx.fu('tokens')
        ex.lenl(cx, VecL((), T, None))
        return mk_stack(cx, SPL, T, cx.fint('depth', 0, MAXLEN), STR)


def top(ex, cx, T, n):
    return ex.elem(cx, VecL((), T, STR), isub(n, 1))


def _trim_step(ex, cx, st):
    """spaces are dropped; from # on everything is"""
    T, n = stack_of(st[0])
    if cx.branch(zb(ieq(n, 0)), 'no token left'):
        return 'done', n
    t = top(ex, cx, T, n)
    if cx.branch(eq(cx, t, ' '), 'a space'):
        return 'next', [mk_stack(cx, SPL, T, isub(n, 1), STR)]
    if cx.branch(eq(cx, t, '#'), 'a comment'):
        return 'next', [mk_stack(cx, SPL, T, 0, STR)]
    return 'done', n


R_TRIM = TailRec('trim', [SPL], _trim_step, 'usize')


def trimmed(ex, cx, T, n):
    return R_TRIM.call(ex, cx, [mk_stack(cx, SPL, T, n, STR)])


def spl(ex, cx, me):
    return stack_of(ex.deref(cx, me))


def set_spl(ex, cx, me, T, n):
    ex.wr(cx, me, mk_stack(cx, SPL, T, n, STR))


@contract('AllowedSignerSplitter::trim', props=('C16', 'C21'), recs=(R_TRIM,), mk=mk_spl, internal=True)
def g_trim(ex, cx, me):
    T, n = spl(ex, cx, me)
    set_spl(ex, cx, me, T, trimmed(ex, cx, T, n))
    return UNIT


@contract('AllowedSignerSplitter::is_empty_after_trim', props=('C16', 'C21'), recs=(R_TRIM,), mk=mk_spl, internal=True)
def g_empty(ex, cx, me):
    T, n = spl(ex, cx, me)
    n = trimmed(ex, cx, T, n)
    set_spl(ex, cx, me, T, n)
    return zb(ieq(n, 0))


def bad(ex, cx):
    return Err(Pred(lambda ex, cx, e: variant_is(ex, cx, e, 'InvalidAllowedSigner'), 'InvalidAllowedSigner'))


def variant_is(ex, cx, e, v):
    e = ex.deref(cx, e)
    if isinstance(e, Enum):
        return e.v == v
    return ex.expand(cx, e).v == v


def as_err():
    """how a failed parse of a line is reported"""
    return Err(E('InvalidAllowedSigner', Opq(z3.Const('signer.error', U), ('adt', 'ssh::allowed_signer::AllowedSignerParsingError', ()))))


def _quote_step(ex, cx, st):
    """everything up to and including the next double quote"""
    T, n = stack_of(st[0])
    if cx.branch(zb(ieq(n, 0)), 'no closing quote'):
        return 'done', some_err()
    t = top(ex, cx, T, n)
    s = cat(st[1], t)
    if cx.branch(eq(cx, t, '"'), 'closing quote'):
        return 'done', Ok(Tup([isub(n, 1), s]))
    return 'next', [mk_stack(cx, SPL, T, isub(n, 1), STR), s]


R_QUOTE = TailRec('quoted text', [SPL, 'seq'], _quote_step, 'std::result::Result<(usize, std::string::String), error::Error>')


def quoted(ex, cx, T, n):
    """(rest, text) or None"""
    if not cx.branch(zb(ilt(0, n)), 'another token') or not cx.branch(eq(cx, top(ex, cx, T, n), '"'), 'opening quote'):
        return None
    r = ex.expand(cx, R_QUOTE.call(ex, cx, [mk_stack(cx, SPL, T, isub(n, 1), STR), QUOTE]))
    return None if r.v == 'Err' else r.f[0].f


PIN = ('InvalidAllowedSigner', 'InvalidAllowedSigners')


@contract('AllowedSignerSplitter::split_quote', props=('C16', 'C21'), recs=(R_QUOTE,), mk=mk_spl, err_free=True, internal=True, pins=PIN)
def g_quote(ex, cx, me):
    T, n = spl(ex, cx, me)
    r = quoted(ex, cx, T, n)
    if r is None:
        return as_err()
    set_spl(ex, cx, me, T, r[0])
    return Ok(r[1])


def _word_step(ex, cx, st):
    T, n = stack_of(st[0])
    if cx.branch(zb(ieq(n, 0)), 'no token left'):
        return 'done', Tup([n, st[1]])
    t = top(ex, cx, T, n)
    if cx.branch(Or(eq(cx, t, ' '), eq(cx, t, '"'), eq(cx, t, '#')), 'a delimiter'):
        return 'done', Tup([n, st[1]])
    return 'next', [mk_stack(cx, SPL, T, isub(n, 1), STR), cat(st[1], t)]


R_WORD = TailRec('word', [SPL, 'seq'], _word_step, '(usize, std::string::String)')


def next_token(ex, cx, T, n, allowed):
    """('none', n) | ('err', None) | ('some', n, text): a word, then possibly a quoted text that must end the token"""
    n = trimmed(ex, cx, T, n)
    if cx.branch(zb(ieq(n, 0)), 'nothing but blanks and comments'):
        return 'none', n, None
    if not cx.branch(zb(allowed), 'may start with a quote'):
        if cx.branch(And(eq(cx, top(ex, cx, T, n), '"'), eq(cx, ex.elem(cx, VecL((), T, STR), 0), '"')), 'quoted where no quote may start'):
            return 'err', None, None
    n, s = R_WORD.call(ex, cx, [mk_stack(cx, SPL, T, n, STR), Seq(())]).f
    if cx.branch(zb(ilt(0, n)), 'another token') and cx.branch(eq(cx, top(ex, cx, T, n), '"'), 'a quote follows'):
        q = quoted(ex, cx, T, n)
        if q is None:
            return 'err', None, None
        n, s = q[0], cat(s, q[1])
        if cx.branch(zb(ilt(0, n)), 'another token'):
            t = top(ex, cx, T, n)
            if not cx.branch(Or(eq(cx, t, ' '), eq(cx, t, '#')), 'the token ends with the quote'):
                return 'err', None, None
    return 'some', n, s


@contract('AllowedSignerSplitter::next', props=('C16', 'C21'), recs=(R_WORD,), mk=mk_spl, err_free=True, internal=True, pins=PIN)
def g_next(ex, cx, me, allowed):
    T, n = spl(ex, cx, me)
    if W.opaque(ex, 'AllowedSignerSplitter::next'):
        k, n, s = token(ex, cx, T, n, allowed)
    else:
        k, n, s = next_token(ex, cx, T, n, allowed)
    if k == 'err':
        return as_err()
    set_spl(ex, cx, me, T, n)
    return Ok(NONE if k == 'none' else Some(s))


def token(ex, cx, T, n, allowed):
    """next_token as an uninterpreted function (defined by the contract of next)"""
    a = (T, ex.uterm(cx, n), ex.uterm(cx, allowed))
    if cx.branch(ub(ex, cx, 'token.err', *a), 'malformed token'):
        return 'err', None, None
    n2 = uv(ex, cx, 'token.rest', 'usize', *a)
    if cx.branch(ub(ex, cx, 'token.none', *a), 'no token'):
        return 'none', n2, None
    return 'some', n2, uv(ex, cx, 'token.text', 'std::string::String', *a)


# ------------------------------------------------------------------ timestamps

@contract('ssh::allowed_signer::parse_timestamp', props=('C16', 'C21'), internal=True, pins=PIN)
def g_ts(ex, cx, s):
    """YYYYMMDD[HHMM[SS]][Z], optionally in double quotes; local time without Z"""
    s = ex.deref(cx, s)
    if W.opaque(ex, 'ssh::allowed_signer::parse_timestamp'):
        if cx.branch(ub(ex, cx, 'timestamp.ok', s), 'a timestamp'):
            return Ok(uv(ex, cx, 'timestamp', 'i64', s))
        return as_err()
    s = call(ex, cx, 'str::trim_matches', '&str', s, 34)
    n = slen(s)
    z = cx.branch(zb(ile(1, n)), 'not empty') and cx.branch(zb(ieq(at(cx, s, isub(n, 1)), ord('Z'))), 'ends with Z')
    if z:
        s = sub(cx, s, 0, isub(n, 1))
        n = isub(n, 1)
    DT = 'chrono::NaiveDateTime'
    R = 'std::result::Result<%s, chrono::ParseError>'
    if cx.branch(zb(ieq(n, 8)), 'YYYYMMDD'):
        d = ex.expand(cx, uv(ex, cx, 'NaiveDate::parse_from_str', R % 'chrono::NaiveDate', s, lit('%Y%m%d')))
        if d.v == 'Err':
            return as_err()
        t = uv(ex, cx, 'NaiveTime::from_hms_opt', 'std::option::Option<chrono::NaiveTime>', 0, 0, 0)
        t = ex.expand(cx, t)
        if t.v == 'None':
            raise PathEnd()      # midnight exists
        dt = uv(ex, cx, 'NaiveDate::and_time', DT, d.f[0], t.f[0])
    else:
        if cx.branch(zb(ieq(n, 12)), 'YYYYMMDDHHMM'):
            f = '%Y%m%d%H%M'
        elif cx.branch(zb(ieq(n, 14)), 'YYYYMMDDHHMMSS'):
            f = '%Y%m%d%H%M%S'
        else:
            return as_err()
        d = ex.expand(cx, uv(ex, cx, 'NaiveDateTime::parse_from_str', R % DT, s, lit(f)))
        if d.v == 'Err':
            return as_err()
        dt = d.f[0]
    if z:
        t = uv(ex, cx, 'NaiveDateTime::and_utc', 'chrono::DateTime', dt)
    else:
        l = local_time(ex, cx, dt)
        o = ex.expand(cx, uv(ex, cx, 'local.earliest', 'std::option::Option<chrono::DateTime>', l))
        if o.v == 'None':
            return as_err()
        t = o.f[0]
    return Ok(uv(ex, cx, 'DateTime::timestamp', 'i64', t))


def local_time(ex, cx, dt):
    return uv(ex, cx, 'local.time', 'chrono::LocalResult', dt)


@stdlib.std('NaiveDateTime::and_local_timezone')
def _alt(c):
    return local_time(c.ex, c.cx, c.v(0))


@stdlib.std('LocalResult::earliest', 'MappedLocalTime::earliest')
def _ear(c):
    return uv(c.ex, c.cx, 'local.earliest', 'std::option::Option<chrono::DateTime>', c.v(0))


@stdlib.std('NaiveTime::from_hms_opt')
def _hms(c):
    t = c.uf('NaiveTime::from_hms_opt', c.v(0), c.v(1), c.v(2), ty=parse_type('std::option::Option<chrono::NaiveTime>'))
    if not any(isz(c.v(i)) for i in range(3)) and c.v(0) < 24 and c.v(1) < 60 and c.v(2) < 60:
        c.cx.add(zb(zi(c.ex.discr(c.cx, t)) == 1))
    return t


# ------------------------------------------------------------------ a line

SL = 'std::vec::Vec<std::string::String>'


def comma_list(ex, cx, s):
    it = call(ex, cx, 'str::split', 'std::str::Split', s, 44)
    return it


def probe(ex, cx):
    return ex.from_term(cx, z3.Const('mapprobe', U), STR)


def _opt_step(ex, cx, st):
    me, ca, ns, va, vb = st
    T, n = stack_of(me)
    k, n, tok = token(ex, cx, T, n, False)
    if k != 'some':
        return 'done', some_err()
    kv = ex.expand(cx, call(ex, cx, 'str::split_once', 'std::option::Option<(&str, &str)>', tok, 61))
    if kv.v == 'Some':
        p = kv.f[0]
        p = p if isinstance(p, (Tup, Struct)) else ex.deref(cx, p)
        key, val = p.f
    else:
        key, val = tok, Seq(())
    val = call(ex, cx, 'str::trim_matches', '&str', val, 34)
    if cx.branch(zb(call(ex, cx, 'str::contains', 'bool', val, QUOTE)), 'quote inside the value'):
        return 'done', some_err()
    key = call(ex, cx, 'str::to_lowercase', 'std::string::String', key)
    nme = mk_stack(cx, SPL, T, n, STR)
    if cx.branch(eq(cx, key, 'cert-authority'), 'cert-authority'):
        return 'next', [nme, True, ns, va, vb]
    if cx.branch(eq(cx, key, 'namespaces'), 'namespaces'):
        if ex.expand(cx, ns).v == 'Some':
            return 'done', some_err()
        it = comma_list(ex, cx, val)
        x = probe(ex, cx)
        c = W._C(ex, cx)
        t = ufn('filterl', U, BS, U)(ex.uterm(cx, it.a[0]), z3.simplify(z3.Not(zb(ieq(slen(x), 0)))))
        return 'next', [nme, ca, Some(VecL((), t, STR)), va, vb]
    if cx.branch(eq(cx, key, 'valid-after'), 'valid-after'):
        if ex.expand(cx, va).v == 'Some':
            return 'done', some_err()
        r = g_ts(ex, cx, val)
        if r.v == 'Err':
            return 'done', some_err()
        return 'next', [nme, ca, ns, Some(r.f[0]), vb]
    if cx.branch(eq(cx, key, 'valid-before'), 'valid-before'):
        if ex.expand(cx, vb).v == 'Some':
            return 'done', some_err()
        r = g_ts(ex, cx, val)
        if r.v == 'Err':
            return 'done', some_err()
        return 'next', [nme, ca, ns, va, Some(r.f[0])]
    return 'done', Ok(Tup([n, tok, ca, ns, va, vb]))


R_OPT = TailRec('options of a line', [SPL, 'bool', 'enum|Vec<', 'enum|~after', 'enum|~before'], _opt_step,
                'std::result::Result<(usize, std::string::String, bool, std::option::Option<%s>, std::option::Option<i64>, std::option::Option<i64>), error::Error>' % SL)

AS = 'ssh::allowed_signer::AllowedSigner'


def parse_line(ex, cx, s):
    """a parsed line as a function of its text (defined by the contract of AllowedSigner::from_string)"""
    if cx.branch(ub(ex, cx, 'signer.ok', s), 'the line is well formed'):
        return Ok(uv(ex, cx, 'signer', AS, s))
    return as_err()


@contract('AllowedSigner::from_string', props=('C16', 'C21'), recs=(R_OPT,), max_s=300, pins=PIN)
def g_line(ex, cx, s):
    s = ex.deref(cx, s)
    if W.opaque(ex, 'AllowedSigner::from_string'):
        return parse_line(ex, cx, s)
    T, n = stack_of(g_new(ex, cx, s))
    k, n, tok = token(ex, cx, T, n, True)
    if k != 'some':
        return as_err()
    pr = comma_list(ex, cx, call(ex, cx, 'str::trim_matches', '&str', tok, 34)).a[0]
    x = probe(ex, cx)
    if cx.branch(ufn('anyl', U, IS, BS, BS)(ex.uterm(cx, pr), zi(0), z3.simplify(zb(ieq(slen(x), 0)))), 'an empty principal'):
        return as_err()
    r = ex.expand(cx, R_OPT.call(ex, cx, [mk_stack(cx, SPL, T, n, STR), False, NONE, NONE, NONE]))
    if r.v == 'Err':
        return as_err()
    n, kt, ca, ns, va, vb = r.f[0].f
    k, n, data = token(ex, cx, T, n, False)
    if k != 'some':
        return as_err()
    pk = K_from_string(ex, cx, cat(kt, lit(' '), data))
    if pk.v == 'Err':
        return as_err()
    a, b = ex.expand(cx, va), ex.expand(cx, vb)
    if a.v == 'Some' and b.v == 'Some' and not cx.branch(zb(ilt(a.f[0], b.f[0])), 'valid-after is before valid-before'):
        return as_err()
    if not cx.branch(zb(ieq(trimmed(ex, cx, T, n), 0)), 'only a comment follows'):
        return as_err()
    return Ok(mkstruct(ex, 'AllowedSigner', principals=pr, cert_authority=ca, namespaces=ns, valid_after=va, valid_before=vb, key=pk.f[0]))


def K_from_string(ex, cx, s):
    return ex.expand(cx, CON['PublicKey::from_string'].spec(ex, cx, s))


# ------------------------------------------------------------------ a file

def _file_step(ex, cx, st):
    it, acc = st
    coll, i, rb, _ = it_split(it)
    if not cx.branch(zb(ilt(i, ex.vlen(cx, coll))), 'another line'):
        return 'done', Tup([True, acc, 0])
    line = call(ex, cx, 'str::trim', '&str', ex.elem(cx, coll, i))
    nxt = rb(iadd(i, 1))
    if cx.branch(zb(ieq(slen(line), 0)), 'blank line'):
        return 'next', [nxt, acc]
    if cx.branch(zb(ieq(at(cx, line, 0), ord('#'))), 'comment line'):
        return 'next', [nxt, acc]
    r = parse_line(ex, cx, line)
    if r.v == 'Err':
        return 'done', Tup([False, VecL((), None, acc.ety), i])
    return 'next', [nxt, VecL(acc.el + (r.f[0],), acc.base, acc.ety)]


R_FILE = TailRec('lines', ['it', 'vec'], _file_step, '(bool, std::vec::Vec<%s>, usize)' % AS)


@contract('AllowedSigners::from_string', props=('C16', 'C21'), recs=(R_FILE,), pins=PIN)
def g_file(ex, cx, s):
    s = ex.deref(cx, s)
    it = It('enumerate', call(ex, cx, 'str::lines', 'std::str::Lines', s), 0)
    ok, l, line = R_FILE.call(ex, cx, [it, VecL((), None, parse_type(AS))]).f
    if cx.branch(zb(ok), 'every line parses'):
        return Ok(mkstruct(ex, 'AllowedSigners', **{'0': l}))

    def named(ex, cx, e):
        e = ex.expand(cx, ex.deref(cx, e))
        return zb(ieq(e.f[1], line)) if e.v == 'InvalidAllowedSigners' else False
    return Err(Pred(named, 'names the line'))
