"""Contracts assumed for the standard library and for dependencies.

Every function here is a *trusted* specification of code outside /repo: it either
computes the result in the byte/list algebra or returns an uninterpreted function of
its arguments.  Names that have no entry make the verifier give up on the caller
(undecided), never pass it.
"""
import re
import z3
from z3 import And, Or, Not, Implies, If, IntVal
from core import *
from exec import *
from mirparse import parse_type, last_seg, strip_generics, find_close, top_as, split_top

DEC = ufn('dec', IS, B)           # decimal rendering of an integer
MINS = ufn('minsert', U, U, U, U)
MEMPTY = z3.Const('mempty', U)
MLEN = ufn('mlen', U, IS)
MITER = ufn('miter', U, U)        # entries in the map's own (arbitrary) iteration order
MENT = ufn('mentries', U, U)      # entries in lexical order of the keys
LINES = ufn('lines', B, U)
WORDS = ufn('words', B, U)

_key_cache = {}


def std_key(c):
    r = _key_cache.get(c)
    if r is None:
        r = _key_cache[c] = _std_key(c.strip())
    return r


def _std_key(c):
    if c.startswith('<'):
        e = find_close(c, 0)
        inner = c[1:e]
        rest = c[e + 1:]
        a = top_as(inner)
        if a:
            ty, tr = inner[:a], inner[a + 4:]
            return '%s.%s' % (last_seg(strip_generics(tr)), last_seg(strip_generics(rest))), ty, tr
        return '%s%s' % (last_seg(strip_generics(inner)), strip_generics(rest)), inner, None
    m = re.search(r'<impl (.*?)>::(\w+)(?:::<.*>)?$', c)
    if m:
        t = m.group(1)
        if t.startswith('['):
            t = 'slice'
        return '%s::%s' % (t, m.group(2)), m.group(1), None
    p = strip_generics(c)
    return '::'.join(p.split('::')[-2:]), None, None


def generic_args(c):
    """last ::<...> of the callee text"""
    c = c.strip()
    if c.endswith('>'):
        d = 0
        for i in range(len(c) - 1, -1, -1):
            if c[i] == '>' and c[i - 1] not in '-=':
                d += 1
            elif c[i] == '<':
                d -= 1
                if d == 0:
                    return split_top(c[i + 1:-1])
    return []


H = {}


def std(*names):
    def deco(f):
        for n in names:
            H[n] = f
        return f
    return deco


class C:
    """one call"""
    __slots__ = ('ex', 'cx', 'callee', 'a', 'rty', 'atys', 'fr', 'key', 'selfty', 'trait')

    def v(self, i):
        return self.ex.deref(self.cx, self.a[i])

    def seq(self, i):
        v = self.v(i)
        return as_seq(self, v)

    def wr(self, i, val):
        self.ex.wr(self.cx, self.a[i], val)

    def panic_free(self, c, what):
        fn = self.fr.fn if self.fr is not None else None
        self.ex.no_panic(self.cx, c, what, fn)

    def uf(self, name, *vals, **kw):
        """uninterpreted function of the values, result by return type"""
        ty = kw.get('ty', self.rty)
        args = [self.ex.uterm(self.cx, self.ex.deref(self.cx, v)) if not isz(v) or v.sort() == IS or v.sort() == BS else v for v in vals]
        args = [self.ex.uterm(self.cx, a) if a.sort() != U else a for a in args]
        t = ufn(name, *([U] * (len(args) + 1)))(*args) if args else z3.Const(name, U)
        self.cx.ufs[1 if self.cx.quiet else 0].add(name)
        r = self.ex.from_term(self.cx, t, ty)
        if name.startswith('str.'):
            self.cx.apps.append((name, vals, r))
        return r

    def branch(self, c, why=''):
        return self.cx.branch(c, why)

    def mark(self, name):
        """an abstraction whose refutations are not believed unless the specification uses it too"""
        self.cx.ufs[1 if self.cx.quiet else 0].add(name)


def as_seq(c, v):
    if isinstance(v, Seq):
        return v
    if isinstance(v, (Opq, SymE)):
        b = pB(v.t)
        c.cx.blen(b)
        return sym(b)
    if isinstance(v, Enum) and v.name == 'Cow':
        return as_seq(c, v.f[0])
    if isinstance(v, VecL) and v.base is None and all(isinstance(e, int) or isinstance(e, z3.ArithRef) for e in v.el):
        return cat(*[be(1, e) for e in v.el])
    if isinstance(v, VecL) and v.base is not None and not v.el:
        b = pB(v.base)
        c.cx.blen(b)
        return sym(b)
    raise Unsupported('not a byte string: %r' % (v,))


class Std:
    def __init__(self):
        self.used = {}
        self.extra = {}

    def call(self, ex, cx, callee, args, rty, atys, fr):
        key, selfty, trait = std_key(callee)
        h = self.extra.get(key) or H.get(key)
        if h is None:
            h = self.extra.get('*' + key.split('::')[-1])
        if h is None:
            raise Unsupported('no contract for external function %s' % callee[:120])
        c = C()
        c.ex, c.cx, c.callee, c.a, c.rty, c.atys, c.fr = ex, cx, callee, args, rty, atys, fr
        c.key, c.selfty, c.trait = key, selfty, trait
        self.used[key] = self.used.get(key, 0) + 1
        return h(c)


# ------------------------------------------------------------------ transparent conversions

@std('Deref.deref', 'AsRef.as_ref', 'Borrow.borrow', 'String::as_bytes', 'String::as_str', 'str::as_bytes', 'Vec::as_slice',
     'slice::to_vec', 'ToOwned.to_owned', 'Clone.clone', 'hint::must_use', 'slice::into_vec', 'str::to_string',
     'str::to_owned', 'Into.into', 'String::into_bytes', 'Cow::into_owned', 'Box::new', 'Vec::into_boxed_slice',
     'Random::expose', 'Option::copied', 'Option::cloned', 'slice::as_ref', 'Option::as_deref', 'hint::black_box',
     'Result::as_ref', 'String::into_boxed_str', 'str::as_ref', 'Zeroizing::new', 'slice::as_slice', 'String::from_utf8_unchecked',
     'array::as_slice', 'Any::downcast_ref', 'convert::identity', 'DerefMut.deref', 'Rc::new', 'Arc::new', 'str::into_boxed_bytes', 'Wrapping.from')
def _id(c):
    v = c.v(0)
    if isinstance(v, Enum) and v.name == 'Cow':
        return v.f[0]
    if isinstance(v, SymE) and last_seg(v.ty[1]) == 'Cow':
        e = c.ex.expand(c.cx, v)
        return e.f[0]
    if c.key == 'Into.into' or c.key == 'AsRef.as_ref':
        return conv(c, v)
    return v


def conv(c, v):
    if isinstance(v, (Opq,)) and is_bytes(c.rty):
        return as_seq(c, v)
    if c.key == 'Into.into' and c.trait:
        dst = parse_type(generic_args(c.trait)[0]) if generic_args(c.trait) else c.rty
        return convert_from(c, v, dst, parse_type(c.selfty))
    return v


def convert_from(c, v, dst, src):
    """<dst as From<src>>::from(v)"""
    if isinstance(v, Seq) and (is_bytes(dst) or dst[0] in ('param', 'unknown')):
        return v
    if dst[0] == 'adt' and last_seg(dst[1]) == 'Option':
        return Some(v)
    if isinstance(v, (int, z3.ArithRef)) and dst[0] == 'prim':
        return v
    if dst == src:
        return v
    if dst[0] == 'adt':
        full = c.ex.ty.adt(dst[1])
        if full:
            for f in c.ex.crate.fns:
                m = re.match(r'^<(\w+) as From<(.*)>>::from$', f.key)
                if m and m.group(1) == last_seg(full) and f.params and len(f.params) == 1:
                    if parse_type(f.params[0][1]) == src:
                        return c.ex.call_fn(c.cx, f, [v])
        if last_seg(dst[1]) == 'Error':
            return E('ANY')
        if last_seg(dst[1]) in ('Box', 'Rc', 'Arc', 'Cow', 'Zeroizing'):
            return v
        if dst[1] == 'yubikey::Serial':
            return v
    raise Unsupported('conversion %s -> %s' % (src, dst))


@std('From.from')
def _from(c):
    v = c.v(0)
    src = c.atys[0] if c.atys and c.atys[0][0] != 'unknown' else parse_type(generic_args(c.trait)[0]) if c.trait and generic_args(c.trait) else ('unknown', '')
    g = generic_args(c.trait) if c.trait else []
    if g:
        src = parse_type(g[0])
    return convert_from(c, v, parse_type(c.selfty), src)


@std('DerefMut.deref_mut', 'AsMut.as_mut', 'Vec::as_mut_slice', 'slice::as_mut', 'BorrowMut.borrow_mut', 'Option::as_mut', 'Vec::as_mut')
def _idm(c):
    if c.key == 'Option::as_mut':
        v = c.v(0)
        e = c.ex.expand(c.cx, v)
        if e.v == 'None':
            return NONE
        m = c.a[0]
        c.ex.wr(c.cx, m, e)
        return Some(MRef(m.fr, m.loc, m.proj + (('downcast', 'Some'), ('field', 0, ''))))
    return c.a[0]


@std('Option::as_ref', 'Option::as_deref', 'Result::as_ref', 'Option::as_slice')
def _oref(c):
    return c.v(0)


@std('Box::new_uninit')
def _newun(c):
    c.cx.frames += 1
    fr = Frame(c.fr.fn, c.cx.frames)
    fr.l[0] = UNINIT
    return MRef(fr, 0, ())


@std('boxed::box_assume_init_into_vec_unsafe')
def _boxinit(c):
    v = c.v(0)
    return v


# ------------------------------------------------------------------ Option / Result

def opt(c, i=0):
    return c.ex.expand(c.cx, c.v(i))


@std('Option::is_some', 'Option::is_none', 'Result::is_ok', 'Result::is_err')
def _is(c):
    v = c.v(0)
    want = {'Option::is_some': 1, 'Option::is_none': 0, 'Result::is_ok': 0, 'Result::is_err': 1}[c.key]
    d = c.ex.discr(c.cx, v)
    return ieq(d, want) if isz(d) else d == want


@std('Option::is_some_and', 'Result::is_ok_and')
def _is_and(c):
    e = opt(c)
    if e.v in ('Some', 'Ok'):
        return c.ex.call_value(c.cx, c.a[1], [e.f[0]])
    return False


@std('Option::is_none_or')
def _isnoneor(c):
    e = opt(c)
    if e.v == 'Some':
        return c.ex.call_value(c.cx, c.a[1], [e.f[0]])
    return True


def assume_ok(c):
    """failures that are outside the property (exhausted system randomness)"""
    return 'ring::rand::Random' in c.callee


@std('Option::unwrap', 'Result::unwrap', 'Option::expect', 'Result::expect', 'Option::unwrap_unchecked')
def _unwrap(c):
    v = c.v(0)
    good = {'Option': 'Some', 'Result': 'Ok'}
    if isinstance(v, Enum):
        if v.v in ('Some', 'Ok'):
            return v.f[0]
        c.panic_free(False, 'unwrap of %s' % v.v)
        raise PathEnd()
    if isinstance(v, Opq) and v.ty and c.ex.ty.variants(v.ty) is not None:
        v = SymE(v.ty, v.t)
    if isinstance(v, SymE):
        nm = c.ex.enum_name(v.ty)
        d = c.ex.discr(c.cx, v)
        if nm == 'Option':
            cond = d == 1
        else:
            cond = d == 0
        if assume_ok(c):
            c.cx.add(cond)
        else:
            c.panic_free(cond, 'unwrap of a %s' % nm)
        e = c.ex.expand(c.cx, v, good[nm])
        if e is None:
            raise PathEnd()
        return e.f[0]
    raise Unsupported('unwrap of %r' % (v,))


@std('LocalResult::unwrap')
def _lrunwrap(c):
    v = c.v(0)
    t = c.ex.uterm(c.cx, v)
    c.panic_free(DISCR(t) == 0, 'LocalResult::unwrap')
    return c.uf('LocalResult.single', v)


@std('LocalResult::single', 'LocalResult::earliest', 'LocalResult::latest')
def _lrsingle(c):
    v = c.v(0)
    t = c.ex.uterm(c.cx, v)
    m = c.key.split('::')[1]
    d = DISCR(t)
    ok = d == 0 if m == 'single' else Or(d == 0, d == 1)
    if c.branch(ok, 'local time is unique' if m == 'single' else 'local time exists'):
        if m == 'single':
            return Some(c.uf('LocalResult.single', v, ty=c.rty[2][0]))
        return Some(c.uf('LocalResult.' + m, v, ty=c.rty[2][0]))
    return NONE


@std('Option::unwrap_or', 'Result::unwrap_or')
def _unwrap_or(c):
    e = opt(c)
    return e.f[0] if e.v in ('Some', 'Ok') else c.a[1]


@std('Option::unwrap_or_else', 'Result::unwrap_or_else')
def _unwrap_or_else(c):
    e = opt(c)
    if e.v in ('Some', 'Ok'):
        return e.f[0]
    return c.ex.call_value(c.cx, c.a[1], list(e.f))


@std('Option::unwrap_or_default', 'Result::unwrap_or_default')
def _unwrap_or_default(c):
    e = opt(c)
    if e.v in ('Some', 'Ok'):
        return e.f[0]
    return default(c, c.rty)


def default(c, ty):
    if ty[0] == 'prim':
        return False if ty[1] == 'bool' else 0
    if is_bytes(ty):
        return Seq(())
    if ty[0] == 'adt':
        s = last_seg(ty[1])
        if s == 'Vec':
            return VecL((), None, ty[2][0])
        if s == 'Option':
            return NONE
        if s in ('HashMap', 'BTreeMap'):
            return Opq(MEMPTY, ty)
        if s == 'AuthenticationExtensionsClientInputs':
            return Opq(z3.Const('default.' + s, U), ty)
    raise Unsupported('default of %s' % (ty,))


@std('Default.default')
def _default(c):
    return default(c, parse_type(c.selfty))


@std('Option::map', 'Result::map')
def _map(c):
    e = opt(c)
    if e.v in ('Some', 'Ok'):
        return Enum(e.name, e.v, (c.ex.call_value(c.cx, c.a[1], [e.f[0]]),))
    return e


@std('Option::map_or')
def _mapor(c):
    e = opt(c)
    if e.v in ('Some', 'Ok'):
        return c.ex.call_value(c.cx, c.a[2], [e.f[0]])
    return c.a[1]


@std('Option::map_or_else', 'Result::map_or_else')
def _maporelse(c):
    e = opt(c)
    if e.v in ('Some', 'Ok'):
        return c.ex.call_value(c.cx, c.a[2], [e.f[0]])
    return c.ex.call_value(c.cx, c.a[1], list(e.f))


@std('Result::map_err')
def _maperr(c):
    e = opt(c)
    if e.v == 'Err':
        try:
            return Err(c.ex.call_value(c.cx, c.a[1], [e.f[0]]))
        except Unsupported:
            return Err(E('ANY'))
    return e


@std('Result::and_then', 'Option::and_then')
def _andthen(c):
    e = opt(c)
    if e.v in ('Some', 'Ok'):
        return c.ex.call_value(c.cx, c.a[1], [e.f[0]])
    return e


@std('Option::filter')
def _ofilter(c):
    e = opt(c)
    if e.v == 'Some':
        if c.branch(zb(c.ex.call_value(c.cx, c.a[1], [e.f[0]]))):
            return e
    return NONE


@std('Option::or', 'Result::or')
def _or(c):
    e = opt(c)
    return e if e.v in ('Some', 'Ok') else c.a[1]


@std('Option::or_else', 'Result::or_else')
def _orelse(c):
    e = opt(c)
    if e.v in ('Some', 'Ok'):
        return e
    return c.ex.call_value(c.cx, c.a[1], list(e.f))


@std('Option::ok_or')
def _okor(c):
    e = opt(c)
    return Ok(e.f[0]) if e.v == 'Some' else Err(c.a[1])


@std('Option::ok_or_else')
def _okorelse(c):
    e = opt(c)
    if e.v == 'Some':
        return Ok(e.f[0])
    try:
        return Err(c.ex.call_value(c.cx, c.a[1], []))
    except Unsupported:
        return Err(E('ANY'))


@std('Result::ok')
def _ok(c):
    e = opt(c)
    return Some(e.f[0]) if e.v == 'Ok' else NONE


@std('Result::err')
def _err(c):
    e = opt(c)
    return Some(e.f[0]) if e.v == 'Err' else NONE


@std('Option::take')
def _take(c):
    v = c.v(0)
    c.wr(0, NONE)
    return v


@std('Option::replace')
def _replace(c):
    v = c.v(0)
    c.wr(0, Some(c.a[1]))
    return v


@std('mem::take')
def _memtake(c):
    v = c.v(0)
    c.wr(0, default(c, c.rty))
    return v


@std('mem::replace')
def _memreplace(c):
    v = c.v(0)
    c.wr(0, c.a[1])
    return v


@std('mem::swap')
def _memswap(c):
    v, w = c.v(0), c.v(1)
    c.wr(0, w)
    c.wr(1, v)
    return UNIT


@std('mem::drop', 'mem::forget')
def _drop(c):
    return UNIT


@std('Try.branch')
def _branch(c):
    e = opt(c)
    if e.v in ('Ok', 'Some'):
        return Enum('ControlFlow', 'Continue', e.f)
    return Enum('ControlFlow', 'Break', (e,))


@std('FromResidual.from_residual')
def _resid(c):
    v = c.v(0)
    st = parse_type(c.selfty)
    if last_seg(st[1]) == 'Option':
        return NONE
    e = c.ex.expand(c.cx, v)
    src = parse_type(generic_args(c.trait)[0])
    ps = src[2][1] if len(src[2]) > 1 else None
    pd = st[2][1] if len(st[2]) > 1 else None
    err = e.f[0]
    if ps == pd or pd is None:
        return Err(err)
    try:
        return Err(convert_from(c, err, pd, ps))
    except Unsupported:
        return Err(E('ANY'))


# ------------------------------------------------------------------ integers

def _be_to(w):
    def f(c):
        return be(w, c.v(0))
    return f


def _be_from(w):
    def f(c):
        s = c.seq(0)
        return from_be(c.cx, s, w)
    return f


for _n, _w in (('u8', 1), ('u16', 2), ('u32', 4), ('u64', 8), ('u128', 16)):
    H['%s::to_be_bytes' % _n] = _be_to(_w)
    H['%s::from_be_bytes' % _n] = _be_from(_w)


def rev_seq(cx, s, w):
    return cat(*[be(1, at(cx, s, w - 1 - k)) for k in range(w)])


for _n, _w in (('u16', 2), ('u32', 4), ('u64', 8)):
    H['%s::to_le_bytes' % _n] = (lambda w: lambda c: rev_seq(c.cx, be(w, c.v(0)), w))(_w)
    H['%s::from_le_bytes' % _n] = (lambda w: lambda c: from_be(c.cx, rev_seq(c.cx, c.seq(0), w), w))(_w)
    H['%s::to_ne_bytes' % _n] = H['%s::to_le_bytes' % _n]
    H['%s::from_ne_bytes' % _n] = H['%s::from_le_bytes' % _n]
    H['%s::swap_bytes' % _n] = (lambda w: lambda c: from_be(c.cx, rev_seq(c.cx, be(w, c.v(0)), w), w))(_w)

for _t in ('u8', 'u16', 'u32', 'u64', 'usize', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'):
    lo, hi = RANGES[_t]

    def _mk(op, kind, lo, hi, t):
        def f(c):
            a, b = c.v(0), c.v(1)
            if op == 'div' or op == 'rem':
                if not isz(b) and b != 0 and lo == 0:
                    r = simp(zi(a) / b) if op == 'div' else simp(zi(a) % b)
                    return Some(r) if kind == 'checked' else r
                raise Unsupported('division')
            r = {'add': iadd, 'sub': isub, 'mul': imul}[op](a, b)
            inr = band(ile(lo, r), ile(r, hi))
            if kind == 'checked':
                return Some(r) if c.branch(zb(inr)) else NONE
            if kind == 'wrapping':
                return c.ex.wrap(c.cx, r, lo, hi)
            if kind == 'overflowing':
                return Tup((c.ex.wrap(c.cx, r, lo, hi), bnot(inr)))
            if c.branch(zb(inr)):
                return r
            return hi if c.branch(zb(ilt(hi, r))) else lo
        return f
    for _op in ('add', 'sub', 'mul', 'div', 'rem'):
        for _k in ('checked', 'wrapping', 'saturating', 'overflowing'):
            H['%s::%s_%s' % (_t, _k, _op)] = _mk(_op, _k, lo, hi, _t)
    H['%s::is_multiple_of' % _t] = lambda c: ieq(simp(zi(c.v(0)) % zi(c.v(1))), 0) if not isz(c.v(1)) and c.v(1) > 0 else _unsup('is_multiple_of')
    H['%s::div_ceil' % _t] = lambda c: simp((zi(c.v(0)) + (c.v(1) - 1)) / c.v(1)) if not isz(c.v(1)) and c.v(1) > 0 else _unsup('div_ceil')

    def _nmo(c):
        b = c.v(1)
        if isz(b) or b <= 0:
            raise Unsupported('next_multiple_of')
        return simp((zi(c.v(0)) + (b - 1)) / b * b)
    H['%s::next_multiple_of' % _t] = _nmo


def _unsup(x):
    raise Unsupported(x)


@std('BitAnd.bitand', 'BitOr.bitor', 'BitXor.bitxor', 'Add.add', 'Sub.sub', 'Mul.mul', 'Shr.shr', 'Shl.shl')
def _binop(c):
    a, b = c.v(0), c.v(1)
    if isinstance(a, Opq):
        return big_arith(c, a, b)
    if isinstance(a, Seq) and c.key == 'Add.add':
        return cat(a, as_seq(c, b))
    t = parse_type(c.selfty.lstrip('&'))
    op = {'BitAnd.bitand': 'BitAnd', 'BitOr.bitor': 'BitOr', 'BitXor.bitxor': 'BitXor', 'Add.add': 'AddWithOverflow', 'Sub.sub': 'SubWithOverflow',
          'Mul.mul': 'MulWithOverflow', 'Shr.shr': 'Shr', 'Shl.shl': 'Shl'}[c.key]
    r = c.ex.arith(c.cx, op, a, b, lambda: t, lambda: t)
    if op.endswith('Overflow'):
        c.panic_free(bnot(r.f[1]), 'arithmetic overflow')
        return r.f[0]
    return r


@std('AddAssign.add_assign', 'SubAssign.sub_assign')
def _opassign(c):
    a, b = c.v(0), c.v(1)
    if isinstance(a, Seq):
        c.wr(0, cat(a, as_seq(c, b)))
        return UNIT
    t = parse_type(c.selfty.lstrip('&'))
    r = c.ex.arith(c.cx, 'AddWithOverflow' if c.key.startswith('Add') else 'SubWithOverflow', a, b, lambda: t, lambda: t)
    c.panic_free(bnot(r.f[1]), 'arithmetic overflow')
    c.wr(0, r.f[0])
    return UNIT


def num_try(c, v, dst):
    lo, hi = RANGES[dst[1]]
    if c.branch(zb(band(ile(lo, v), ile(v, hi)))):
        return Ok(v)
    return Err(Opq(z3.Const('TryFromIntError', U)))


@std('TryInto.try_into', 'TryFrom.try_from')
def _tryinto(c):
    v = c.v(0)
    if c.key == 'TryInto.try_into':
        dst = parse_type(generic_args(c.trait)[0])
    else:
        dst = parse_type(c.selfty)
    while dst[0] == 'ref':
        dst = dst[2]
    if isinstance(v, (int, z3.ArithRef)) and dst[0] == 'prim':
        return num_try(c, v, dst)
    if dst[0] == 'array' and isinstance(v, Seq):
        n = int(dst[2])
        if c.branch(zb(ieq(slen(v), n)), 'slice has length %d' % n):
            return Ok(v)
        return Err(Opq(z3.Const('TryFromSliceError', U)))
    if dst[0] == 'array' and dst[2].isdigit() and isinstance(v, VecL):
        n = int(dst[2])
        if c.branch(zb(ieq(c.ex.lenl(c.cx, v), n))):
            return Ok(v)
        return Err(Opq(z3.Const('TryFromSliceError', U)))
    full = c.ex.ty.adt(dst[1]) if dst[0] == 'adt' else None
    if full:
        for f in c.ex.crate.fns:
            if re.match(r'^<%s as TryFrom<.*>>::try_from$' % last_seg(full), f.key):
                return c.ex.call_fn(c.cx, f, [v])
    raise Unsupported('try_into %s' % (dst,))


@std('cmp::min', 'Ord.min', 'cmp::max', 'Ord.max', 'usize::min', 'usize::max')
def _minmax(c):
    a, b = c.v(0), c.v(1)
    mn = c.key.endswith('min')
    if c.branch(zb(ile(a, b))):
        return a if mn else b
    return b if mn else a


# ------------------------------------------------------------------ comparison

@std('PartialEq.eq', 'PartialEq.ne', 'slice::eq')
def _eq(c):
    a, b = c.v(0), c.v(1)
    if isinstance(a, Seq) != isinstance(b, Seq):
        a, b = as_seq(c, a), as_seq(c, b)
    f = c.ex.veq(c.cx, a, b)
    return bnot(f) if c.key.endswith('.ne') else f


BLT = ufn('blt', B, B, BS)


@std('PartialOrd.le', 'PartialOrd.lt', 'PartialOrd.ge', 'PartialOrd.gt', 'Ord.cmp', 'PartialOrd.partial_cmp')
def _ord(c):
    a, b = c.v(0), c.v(1)
    m = c.key.split('.')[1]
    if isinstance(a, (int, z3.ArithRef)) and isinstance(b, (int, z3.ArithRef)):
        if m in ('cmp', 'partial_cmp'):
            r = c.ex.arith(c.cx, 'Cmp', a, b, None)
            return Some(r) if m == 'partial_cmp' else r
        return {'le': ile(a, b), 'lt': ilt(a, b), 'ge': ile(b, a), 'gt': ilt(b, a)}[m]
    if m in ('le', 'lt', 'ge', 'gt') and isinstance(a, (SymE, Enum)) and isinstance(b, (SymE, Enum)):
        # Option<i64>: None < Some
        x, y = c.ex.expand(c.cx, a), c.ex.expand(c.cx, b)
        if x.name == 'Option':
            if x.v == 'None' or y.v == 'None':
                xi, yi = int(x.v == 'Some'), int(y.v == 'Some')
            else:
                xi, yi = x.f[0], y.f[0]
            return {'le': ile(xi, yi), 'lt': ilt(xi, yi), 'ge': ile(yi, xi), 'gt': ilt(yi, xi)}[m]
    raise Unsupported('ordering of %s' % c.selfty)


# ------------------------------------------------------------------ vectors and slices

@std('slice::len', 'Vec::len', 'str::len', 'String::len', 'array::len')
def _len(c):
    return c.ex.vlen(c.cx, seqish(c, 0))


def seqish(c, i):
    v = c.v(i)
    if isinstance(v, (Seq, VecL)):
        return v
    if isinstance(v, Opq):
        t = c.atys[i] if c.atys else ('unknown', '')
        if is_bytes(t) or is_bytes(c.rty):
            return as_seq(c, v)
    if isinstance(v, Enum) and v.name == 'Cow':
        return v.f[0]
    raise Unsupported('%s on %r' % (c.key, v))


@std('slice::is_empty', 'Vec::is_empty', 'str::is_empty', 'String::is_empty')
def _isempty(c):
    n = c.ex.vlen(c.cx, seqish(c, 0))
    return ieq(n, 0)


@std('Vec::new', 'String::new', 'Vec::with_capacity', 'String::with_capacity')
def _vnew(c):
    t = c.rty
    if is_bytes(t) or c.key.startswith('String'):
        return Seq(())
    return VecL((), None, t[2][0] if t[0] == 'adt' and t[2] else None)


@std('Vec::push')
def _push(c):
    v = c.v(0)
    if isinstance(v, Seq):
        c.wr(0, cat(v, be(1, c.v(1))))
    elif isinstance(v, VecL):
        b = v.base
        if b is not None and not v.el and z3.is_app(b) and b.decl().eq(TAKE):
            # pushing back what was popped
            x = c.ex.from_term(c.cx, ELEM(b.arg(0), b.arg(1)), v.ety or ('unknown', ''))
            if c.cx.proves(zb(c.ex.veq(c.cx, x, c.v(1)))):
                c.wr(0, VecL((), take_term(c, b, b.arg(1) + 1), v.ety))
                return UNIT
        c.wr(0, VecL(v.el + (c.a[1],), v.base, v.ety))
    else:
        raise Unsupported('push')
    return UNIT


CHENC = ufn('utf8enc', IS, B)


def char_seq(cx, ch):
    if not isz(ch):
        return lit(chr(ch).encode())
    if cx.proves(And(ch >= 0, ch < 128)):
        return be(1, ch)
    t = CHENC(ch)
    if cx.once(('chenc', t.get_id())):
        cx.blen(t)
        cx.add(And(LEN(t) >= 1, LEN(t) <= 4, UTF8(t)))
        cx.add(Implies(And(ch >= 0, ch < 128), And(LEN(t) == 1, AT(t, IntVal(0)) == ch)))
    return sym(t)


@std('String::push')
def _spush(c):
    v = c.v(0)
    c.wr(0, cat(v, char_seq(c.cx, c.v(1))))
    return UNIT


@std('String::push_str', 'Vec::extend_from_slice')
def _ext(c):
    v = c.v(0)
    if isinstance(v, VecL):
        w = c.v(1)
        if isinstance(w, VecL) and w.base is None:
            c.wr(0, VecL(v.el + w.el, v.base, v.ety))
            return UNIT
        raise Unsupported('extend_from_slice of list')
    c.wr(0, cat(as_seq(c, v), c.seq(1)))
    return UNIT


@std('Vec::append')
def _append(c):
    v, w = c.v(0), c.v(1)
    if isinstance(v, Seq):
        c.wr(0, cat(v, as_seq(c, w)))
        c.wr(1, Seq(()))
        return UNIT
    if isinstance(v, VecL) and isinstance(w, VecL) and w.base is None:
        c.wr(0, VecL(v.el + w.el, v.base, v.ety))
        c.wr(1, VecL((), None, w.ety))
        return UNIT
    raise Unsupported('append')


@std('Extend.extend')
def _extend(c):
    v, w = c.v(0), c.v(1)
    if isinstance(v, Seq):
        if isinstance(w, It):
            w = collect_seq(c, w)
        c.wr(0, cat(v, as_seq(c, w)))
        return UNIT
    if isinstance(v, VecL):
        if isinstance(w, It):
            w = collect(c, w, v.ety)
        if w.base is None:
            c.wr(0, VecL(v.el + w.el, v.base, v.ety))
            return UNIT
    raise Unsupported('extend')


@std('Vec::insert')
def _insert(c):
    v, i, x = c.v(0), c.v(1), c.a[2]
    if isinstance(v, Seq):
        n = slen(v)
        c.panic_free(zb(ile(i, n)), 'Vec::insert index')
        c.wr(0, cat(sub(c.cx, v, 0, i), be(1, x), sub(c.cx, v, i, n)))
        return UNIT
    if isinstance(v, VecL) and v.base is None and not isz(i):
        c.panic_free(i <= len(v.el), 'Vec::insert index')
        c.wr(0, VecL(v.el[:i] + (x,) + v.el[i:], None, v.ety))
        return UNIT
    raise Unsupported('insert')


@std('Vec::remove')
def _remove(c):
    v, i = c.v(0), c.v(1)
    if isinstance(v, Seq):
        n = slen(v)
        c.panic_free(zb(ilt(i, n)), 'Vec::remove index')
        x = at(c.cx, v, i)
        c.wr(0, cat(sub(c.cx, v, 0, i), sub(c.cx, v, iadd(i, 1), n)))
        return x
    if isinstance(v, VecL) and v.base is None and not isz(i):
        c.panic_free(i < len(v.el), 'Vec::remove index')
        x = v.el[i]
        c.wr(0, VecL(v.el[:i] + v.el[i + 1:], None, v.ety))
        return x
    raise Unsupported('remove')


@std('String::pop')
def _strpop(c):
    v = c.v(0)
    n = slen(v)
    if c.branch(zb(ieq(n, 0))):
        return NONE
    x = at(c.cx, v, isub(n, 1))
    if c.branch(zb(ilt(x, 128))):
        c.wr(0, sub(c.cx, v, 0, isub(n, 1)))
        return Some(x)
    raise Unsupported('pop of a character that is not ASCII')


@std('Vec::pop')
def _pop(c):
    v = c.v(0)
    if isinstance(v, Seq):
        n = slen(v)
        if c.branch(zb(ieq(n, 0))):
            return NONE
        x = at(c.cx, v, isub(n, 1))
        c.wr(0, sub(c.cx, v, 0, isub(n, 1)))
        return Some(x)
    if v.el:
        c.wr(0, VecL(v.el[:-1], v.base, v.ety))
        return Some(v.el[-1])
    if v.base is None:
        return NONE
    n = c.ex.lenl(c.cx, v)
    if c.branch(zb(ieq(n, 0)), 'vector is empty'):
        return NONE
    x = c.ex.elem(c.cx, v, isub(n, 1))
    c.wr(0, VecL((), take_term(c, v.base, isub(n, 1)), v.ety))
    return Some(x)


TAKE = ufn('take', U, IS, U)


def take_term(c, base, n):
    if z3.is_app(base) and base.decl().name() == TAKE.name():
        base = base.arg(0)
    t = TAKE(base, zi(n))
    if c.cx.once(('take', t.get_id())):
        c.cx.add(LENL(t) == zi(n))
    return t


@std('Vec::clear', 'String::clear')
def _clear(c):
    v = c.v(0)
    if isinstance(v, VecL) and v.base is not None:
        c.wr(0, VecL((), take_term(c, v.base, 0), v.ety))
        return UNIT
    c.wr(0, Seq(()) if isinstance(v, Seq) else VecL((), None, v.ety))
    return UNIT


@std('Vec::truncate', 'String::truncate')
def _trunc(c):
    v, n = c.v(0), c.v(1)
    if isinstance(v, Seq):
        if c.branch(zb(ile(n, slen(v)))):
            c.wr(0, sub(c.cx, v, 0, n))
        return UNIT
    raise Unsupported('truncate')


@std('Vec::resize')
def _resize(c):
    v, n, x = c.v(0), c.v(1), c.v(2)
    if isinstance(v, Seq):
        L = slen(v)
        if c.branch(zb(ile(n, L))):
            c.wr(0, sub(c.cx, v, 0, n))
        else:
            c.wr(0, cat(v, Seq(norm([('rep', x, isub(n, L))]))))
        return UNIT
    raise Unsupported('resize')


@std('Vec::reserve', 'String::reserve', 'Vec::shrink_to_fit', 'Vec::reserve_exact')
def _noop(c):
    return UNIT


@std('vec::from_elem')
def _fromelem(c):
    x, n = c.v(0), c.v(1)
    if isinstance(x, (int, z3.ArithRef)) and (is_bytes(c.rty) or 'u8' in c.callee):
        return Seq(norm([('rep', x, n)]))
    if not isz(n) and n <= 64:
        return VecL([x] * n, None, None)
    raise Unsupported('vec![x; n]')


def rng(c, v, n):
    """(lo, hi) of a range value"""
    if isinstance(v, Struct):
        if v.name == 'Range':
            return v.f[0], v.f[1]
        if v.name == 'RangeTo':
            return 0, v.f[0]
        if v.name == 'RangeFrom':
            return v.f[0], n
        if v.name == 'RangeFull':
            return 0, n
        if v.name == 'RangeToInclusive':
            return 0, iadd(v.f[0], 1)
        if v.name == 'RangeInclusive':
            return v.f[0], iadd(v.f[1], 1)
    if isinstance(v, FnV) and v.path.endswith('RangeFull'):
        return 0, n
    raise Unsupported('range %r' % (v,))


@std('RangeInclusive::new')
def _ri(c):
    return Struct('RangeInclusive', (c.v(0), c.v(1)))


@std('Index.index', 'Index.index_mut', 'IndexMut.index_mut', 'slice::index', 'SliceIndex.index')
def _index(c):
    m = c.a[0]
    v = seqish(c, 0)
    i = c.v(1)
    n = c.ex.vlen(c.cx, v)
    mut = c.key.endswith('_mut')
    if isinstance(i, (int, z3.ArithRef)):
        c.panic_free(zb(ilt(i, n)), 'index out of bounds')
        if mut:
            return MRef(m.fr, m.loc, m.proj + (('idx', i),))
        return c.ex.rd_index(c.cx, v, i)
    a, b = rng(c, i, n)
    c.panic_free(band(ile(a, b), ile(b, n)), 'slice range out of bounds')
    if isinstance(v, Seq) and c.selfty and last_seg(strip_generics(c.selfty.lstrip('&'))) in ('str', 'String'):
        for x in (a, b):
            c.panic_free(char_boundary(c.cx, v, x), 'slice of a string not at a character boundary')
    if mut:
        return MRef(m.fr, m.loc, m.proj + (('range', a, b),))
    if isinstance(v, Seq):
        return sub(c.cx, v, a, b)
    return sublist(c, v, a, b)


def char_boundary(cx, s, i):
    n = slen(s)
    if not isz(i) and i == 0 or isz(i) and isz(n) and i.eq(n) or not isz(i) and not isz(n) and i == n:
        return True
    i = zi(i)
    b = zi(at(cx, s, i))
    p = zi(at(cx, s, i - 1))
    cont = And(b >= 0x80, b < 0xc0)
    # in UTF-8 the byte after an ASCII character starts a character
    cx.add(Implies(And(i > 0, i < zi(n), zb(is_utf8(cx, s)), p < 0x80), Not(cont)))
    return Or(i == 0, i == zi(n), Not(cont))


def sublist(c, v, a, b):
    if v.base is None and not isz(a) and not isz(b):
        return VecL(v.el[a:b], None, v.ety)
    if not isz(a) and a == 0 and (not isz(b) and not isz(c.ex.lenl(c.cx, v)) and b == c.ex.lenl(c.cx, v) or isz(b) and isz(c.ex.lenl(c.cx, v)) and b.eq(c.ex.lenl(c.cx, v))):
        return v
    raise Unsupported('sub-list')


@std('slice::get', 'Vec::get', 'str::get')
def _get(c):
    v = seqish(c, 0)
    i = c.v(1)
    n = c.ex.vlen(c.cx, v)
    if isinstance(i, (int, z3.ArithRef)):
        if c.branch(zb(ilt(i, n)), 'index in range'):
            return Some(c.ex.rd_index(c.cx, v, i))
        return NONE
    a, b = rng(c, i, n)
    if c.branch(zb(band(ile(a, b), ile(b, n))), 'range in bounds'):
        return Some(sub(c.cx, v, a, b) if isinstance(v, Seq) else sublist(c, v, a, b))
    return NONE


@std('slice::first', 'slice::last')
def _first(c):
    v = seqish(c, 0)
    n = c.ex.vlen(c.cx, v)
    if isinstance(v, VecL) and v.el and c.key.endswith('last'):
        return Some(v.el[-1])
    if c.branch(zb(ieq(n, 0)), 'empty'):
        return NONE
    return Some(c.ex.rd_index(c.cx, v, 0 if c.key.endswith('first') else isub(n, 1)))


@std('slice::split_first', 'slice::split_last')
def _sfirst(c):
    v = seqish(c, 0)
    n = c.ex.vlen(c.cx, v)
    if c.branch(zb(ieq(n, 0))):
        return NONE
    if not isinstance(v, Seq):
        raise Unsupported('split_first of list')
    if c.key.endswith('first'):
        return Some(Tup((at(c.cx, v, 0), sub(c.cx, v, 1, n))))
    return Some(Tup((at(c.cx, v, isub(n, 1)), sub(c.cx, v, 0, isub(n, 1)))))


@std('slice::split_at', 'str::split_at')
def _splitat(c):
    v, i = seqish(c, 0), c.v(1)
    n = c.ex.vlen(c.cx, v)
    c.panic_free(zb(ile(i, n)), 'split_at')
    return Tup((sub(c.cx, v, 0, i), sub(c.cx, v, i, n)))


@std('slice::split_at_checked')
def _splitatc(c):
    v, i = seqish(c, 0), c.v(1)
    n = c.ex.vlen(c.cx, v)
    if c.branch(zb(ile(i, n))):
        return Some(Tup((sub(c.cx, v, 0, i), sub(c.cx, v, i, n))))
    return NONE


@std('slice::first_chunk')
def _firstchunk(c):
    n = int(generic_args(c.callee)[0])
    v = seqish(c, 0)
    if c.branch(zb(ile(n, slen(v)))):
        return Some(sub(c.cx, v, 0, n))
    return NONE


@std('Vec::split_off')
def _splitoff(c):
    v, i = c.v(0), c.v(1)
    n = c.ex.vlen(c.cx, v)
    c.panic_free(zb(ile(i, n)), 'split_off')
    c.wr(0, sub(c.cx, v, 0, i))
    return sub(c.cx, v, i, n)


@std('slice::concat', 'Concat.concat', 'Join.join')
def _concat(c):
    v = c.v(0)
    if isinstance(v, VecL) and v.base is None:
        if all(isinstance(e, Seq) for e in v.el):
            return cat(*v.el)
        if all(isinstance(e, VecL) and e.base is None for e in v.el):
            return VecL([x for e in v.el for x in e.el], None, None)
    raise Unsupported('concat')


@std('slice::join')
def _join(c):
    v = c.v(0)
    sep = c.seq(1)
    if isinstance(v, VecL) and v.base is None and all(isinstance(e, Seq) for e in v.el):
        out = []
        for k, e in enumerate(v.el):
            if k:
                out.append(sep)
            out.append(e)
        return cat(*out)
    if isinstance(v, VecL) and not v.el and v.base is not None and v.base.decl().name() == CHUNKL.name() and seq_bytes(sep) == b'\n':
        return wrapped(c.cx, v.base.arg(0), v.base.arg(1))
    c.mark('joinl')
    t = ufn('joinl', U, B, B)(c.ex.uterm(c.cx, v), bterm(c.cx, sep))
    if c.cx.once(('join', t.get_id())):
        c.cx.blen(t)
        c.cx.add(UTF8(t))
    return sym(t)


@std('slice::reverse')
def _reverse(c):
    v = c.v(0)
    if isinstance(v, VecL):
        if v.base is None:
            c.wr(0, VecL(v.el[::-1], None, v.ety))
            return UNIT
        c.mark('revl')
        t = ufn('revl', U, U)(c.ex.uterm(c.cx, v))
        c.cx.add(LENL(t) == LENL(c.ex.uterm(c.cx, v)))
        c.wr(0, VecL((), t, v.ety))
        return UNIT
    raise Unsupported('reverse')


SORTL = ufn('sortl', U, U)


@std('slice::sort', 'slice::sort_unstable', 'slice::sort_by_key', 'slice::sort_by', 'slice::sort_unstable_by', 'slice::sort_unstable_by_key')
def _sort(c):
    v = c.v(0)
    if isinstance(v, Seq):
        raise Unsupported('sort bytes')
    t = c.ex.uterm(c.cx, v)
    if c.key in ('slice::sort', 'slice::sort_unstable'):
        c.wr(0, VecL((), sorted_term(c, t), v.ety))
        return UNIT
    # by key / comparator: recognised when the comparator orders by the map key
    f = c.a[1]
    if c.key.endswith('by_key'):
        x = c.ex.from_term(c.cx, z3.Const('sortprobe', U), v.ety)
        k = c.ex.deref(c.cx, c.ex.call_value(c.cx, f, [x]))
        if isinstance(k, Seq) and isinstance(x, Tup) and isinstance(x.f[0], Seq) and k.p == x.f[0].p:
            c.wr(0, VecL((), sorted_term(c, t), v.ety))
            return UNIT
        raise Unsupported('sort_by_key')
    x = c.ex.from_term(c.cx, z3.Const('sortprobe1', U), v.ety)
    y = c.ex.from_term(c.cx, z3.Const('sortprobe2', U), v.ety)
    hook = []
    old = H['Ord.cmp']

    def cmp(cc):
        hook.append((cc.v(0), cc.v(1)))
        return Opq(z3.Const('cmpresult', U), ('adt', 'Ordering', ()))
    H['Ord.cmp'] = cmp
    try:
        r = c.ex.call_value(c.cx, f, [x, y])
    finally:
        H['Ord.cmp'] = old
    if len(hook) == 1 and isinstance(r, Opq) and str(r.t) == 'cmpresult':
        a, b = hook[0]
        for p, q in ((x, a), (x.f[0] if isinstance(x, Tup) else None, a)):
            if p is not None and same_val(p, q):
                q2 = y if p is x else y.f[0]
                if same_val(q2, b):
                    c.wr(0, VecL((), sorted_term(c, t), v.ety))
                    return UNIT
    raise Unsupported('sort_by')


def same_val(a, b):
    if isinstance(a, Seq) and isinstance(b, Seq):
        return norm(a.p) == norm(b.p)
    if isinstance(a, Tup) and isinstance(b, Tup):
        return len(a.f) == len(b.f) and all(same_val(x, y) for x, y in zip(a.f, b.f))
    return False


def sorted_term(c, t):
    """sorting the entries of a map by key gives its entries in lexical order"""
    if z3.is_app(t) and t.decl().name() == MITER.name():
        return ment(c, t.arg(0))
    if z3.is_app(t) and t.decl().name() == 'mkeys/U,U':
        r = ufn('mkeysorted', U, U)(t.arg(0))
        c.cx.add(LENL(r) == MLEN(t.arg(0)))
        return r
    if z3.is_app(t) and t.decl().name() in (MENT.name(), 'mkeysorted/U,U', SORTL.name()):
        return t
    c.mark('sortl')
    r = SORTL(t)
    c.cx.add(LENL(r) == LENL(t))
    return r


def ment(c, m):
    t = MENT(m)
    if c.cx.once(('ment', t.get_id())):
        c.cx.add(LENL(t) == MLEN(m))
        c.cx.add(And(MLEN(m) >= 0, MLEN(m) <= MAXLEN))
    return t


@std('slice::contains')
def _contains(c):
    v, x = c.v(0), c.v(1)
    if isinstance(v, VecL) and v.base is None:
        return bor(*[zb(c.ex.veq(c.cx, e, x)) for e in v.el])
    if isinstance(v, Seq) and seq_bytes(v) is not None:
        return bor(*[zb(ieq(x, b)) for b in seq_bytes(v)])
    return c.uf('contains', v, x, ty=('prim', 'bool'))


@std('slice::copy_from_slice', 'slice::clone_from_slice')
def _copyfrom(c):
    v, w = c.v(0), c.seq(1)
    c.panic_free(zb(ieq(slen(v), slen(w))), 'copy_from_slice length')
    c.wr(0, w)
    return UNIT


@std('slice::fill')
def _fill(c):
    v, x = c.v(0), c.v(1)
    c.wr(0, Seq(norm([('rep', x, slen(v))])))
    return UNIT


@std('slice::starts_with', 'str::starts_with', 'slice::ends_with', 'str::ends_with')
def _starts(c):
    v = c.seq(0)
    p = pat_seq(c, 1)
    n, k = slen(v), slen(p)
    if not c.branch(zb(ile(k, n)), 'long enough for prefix/suffix'):
        return False
    if c.key.endswith('starts_with'):
        return seq_eq(c.cx, sub(c.cx, v, 0, k), p)
    return seq_eq(c.cx, sub(c.cx, v, isub(n, k), n), p)


def pat_seq(c, i):
    v = c.v(i)
    if isinstance(v, Seq):
        return v
    if isinstance(v, int) or isinstance(v, z3.ArithRef):
        return char_seq(c.cx, v)
    raise Unsupported('pattern %r' % (v,))


@std('slice::strip_prefix', 'str::strip_prefix', 'str::strip_suffix', 'slice::strip_suffix')
def _strip(c):
    v = c.seq(0)
    p = pat_seq(c, 1)
    n, k = slen(v), slen(p)
    if not c.branch(zb(ile(k, n))):
        return NONE
    if c.key.endswith('prefix'):
        if c.branch(zb(seq_eq(c.cx, sub(c.cx, v, 0, k), p))):
            return Some(sub(c.cx, v, k, n))
        return NONE
    if c.branch(zb(seq_eq(c.cx, sub(c.cx, v, isub(n, k), n), p))):
        return Some(sub(c.cx, v, 0, isub(n, k)))
    return NONE


# ------------------------------------------------------------------ strings

@std('String::from_utf8', 'str::from_utf8', 'converts::from_utf8')
def _fromutf8(c):
    s = c.seq(0)
    f = is_utf8(c.cx, s)
    if c.branch(zb(f), 'bytes are UTF-8'):
        return Ok(s)
    return Err(Opq(z3.Const('FromUtf8Error', U), ('adt', 'FromUtf8Error', ())))


@std('String::from_utf8_lossy')
def _lossy(c):
    s = c.seq(0)
    if c.branch(zb(is_utf8(c.cx, s))):
        return Enum('Cow', 'Borrowed', (s,))
    t = ufn('lossy', B, B)(bterm(c.cx, s))
    c.cx.blen(t)
    c.cx.add(UTF8(t))
    return Enum('Cow', 'Owned', (sym(t),))


def strfn(name, ty=None):
    """uninterpreted string function; pattern arguments by value"""
    def f(c):
        args = [c.seq(0)]
        for i in range(1, len(c.a)):
            args.append(patval(c, c.v(i)))
        return c.uf('str.' + name, *args, **({'ty': ty} if ty else {}))
    return f


def patval(c, v):
    if isinstance(v, (FnV, Clo)):
        return Opq(z3.Const('pat.' + (v.path if isinstance(v, FnV) else v.loc), U))
    return v


STR = ('ref', False, ('prim', 'str'))
for _n in ('to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'trim', 'trim_matches', 'trim_end_matches',
           'trim_start_matches', 'trim_start', 'trim_end', 'replace', 'contains', 'find', 'rfind', 'split_once', 'rsplit_once',
           'is_char_boundary', 'matches', 'trim_ascii'):
    H['str::' + _n] = strfn(_n)


def b64_core(cx, s):
    """number of characters before the padding, when s is a whole base64 text (alphabet has no '=' elsewhere)"""
    ps = norm(s.p)
    if len(ps) == 1 and ps[0][0] == 'sub' and z3.is_app(ps[0][1]) and ps[0][1].decl().eq(B64):
        t = ps[0][1]
        if not isz(ps[0][2]) and ps[0][2] == 0 and (ps[0][3].eq(LEN(t)) if isz(ps[0][3]) else False):
            n = LEN(t.arg(0))
            for k in (20, 32, 48, 64):
                if cx.proves(n == k):
                    return (k * 4 + 2) // 3
            return simp((n * 4 + 2) / 3)
    return None


def _find(c):
    s, p = c.seq(0), c.v(1)
    if isinstance(p, Seq):
        b = seq_bytes(p)
        if b is not None and len(b) == 1:
            p = b[0]
    if isinstance(p, int) and p == 61:
        k = b64_core(c.cx, s)
        if k is not None:
            if c.branch(zb(ilt(k, slen(s))), 'base64 padding'):
                return Some(k)
            return NONE
    b = seq_bytes(s)
    if b is not None and isinstance(p, int) and p < 128:
        i = b.find(bytes([p]))
        return NONE if i < 0 else Some(i)
    if isinstance(p, int) and p < 128:
        t = bterm(c.cx, s)
        n = bytepos(c.cx, t, p)
        if c.branch(zb(ilt(n, slen(s))), 'contains %r' % chr(p)):
            return Some(n)
        return NONE
    return strfn('find')(c)


H['str::find'] = _find


def _trimend(c):
    s, p = c.seq(0), c.v(1)
    if isinstance(p, int) and p == 61:
        k = b64_core(c.cx, s)
        if k is not None:
            return sub(c.cx, s, 0, k)
    return strfn(c.key.split('::')[1])(c)


H['str::trim_end_matches'] = _trimend
H['str::trim_matches'] = _trimend
H['str::is_ascii'] = strfn('is_ascii')


def words_list(c, s):
    return VecL((), WORDS(bterm(c.cx, s)), STR)


def lines_list(c, s):
    return VecL((), LINES(bterm(c.cx, s)), STR)
H['slice::is_ascii'] = strfn('is_ascii')
H['slice::eq_ignore_ascii_case'] = strfn('eqic')


@std('str::eq_ignore_ascii_case')
def _eqic(c):
    return c.uf('str.eqic', c.seq(0), c.seq(1), ty=('prim', 'bool'))


@std('str::parse', 'FromStr.from_str')
def _parse(c):
    return c.uf('str.parse.' + str(c.rty[2][0][1] if c.rty[0] == 'adt' and c.rty[2] and len(c.rty[2][0]) > 1 else ''), c.seq(0))


def ulist(c, name, ety, *vals):
    c.mark('list.' + name)
    args = [c.ex.uterm(c.cx, v) for v in vals]
    t = ufn('list.' + name, *([U] * (len(args) + 1)))(*args)
    return It('list', VecL((), t, ety), 0)


@std('str::lines')
def _lines(c):
    b = bterm(c.cx, c.seq(0))
    t = LINES(b)
    return It('list', VecL((), t, STR), 0)


@std('str::split_whitespace', 'str::split_ascii_whitespace')
def _words(c):
    b = bterm(c.cx, c.seq(0))
    if c.key != 'str::split_whitespace':
        return ulist(c, 'asciiwords', STR, c.seq(0))
    return It('list', VecL((), WORDS(b), STR), 0)


@std('str::split', 'str::splitn', 'str::rsplit', 'str::split_terminator', 'str::split_inclusive', 'str::rsplitn')
def _split(c):
    return ulist(c, c.key.split('::')[1], STR, c.seq(0), *[patval(c, c.v(i)) for i in range(1, len(c.a))])


@std('str::match_indices')
def _mi(c):
    return ulist(c, 'match_indices', ('tuple', (('prim', 'usize'), STR)), c.seq(0), patval(c, c.v(1)))


CHUNKL = ufn('chunkl', B, U, U)
WRAP = ufn('wrapped', B, U, B)


def wrapped(cx, t, how):
    """the text t with line breaks between some of its characters"""
    w = WRAP(t, how)
    if cx.once(('wrap', w.get_id())):
        cx.blen(w)
        cx.add(Implies(UTF8(t), UTF8(w)))
        cx.wraps = getattr(cx, 'wraps', []) + [w]
    return sym(w)


def ascii_seq(s):
    for p in norm(s.p):
        if p[0] == 'lit' and all(b < 128 for b in p[1]):
            continue
        if p[0] == 'sub' and z3.is_app(p[1]) and p[1].decl().name() == B64.name():
            continue
        return False
    return True


@std('str::chars')
def _chars(c):
    if ascii_seq(c.seq(0)):
        return It('bytes', c.seq(0), 0)
    return ulist(c, 'chars', ('prim', 'char'), c.seq(0))


@std('str::char_indices')
def _charind(c):
    return ulist(c, 'char_indices', ('tuple', (('prim', 'usize'), ('prim', 'char'))), c.seq(0))


@std('str::bytes')
def _bytes(c):
    return It('bytes', c.seq(0), 0)


@std('String::drain')
def _drain(c):
    v = c.v(0)
    n = slen(v)
    a, b = rng(c, c.v(1), n)
    c.panic_free(band(ile(a, b), ile(b, n)), 'drain range')
    r = sub(c.cx, v, a, b)
    c.wr(0, cat(sub(c.cx, v, 0, a), sub(c.cx, v, b, n)))
    return It('bytes', r, 0)


@std('u8::is_ascii', 'u8::is_ascii_digit', 'char::is_whitespace', 'char::is_ascii_digit', 'char::is_alphanumeric', 'char::is_ascii', 'char::is_numeric', 'u8::is_ascii_whitespace',
     'char::is_ascii_whitespace', 'char::is_ascii_alphanumeric')
def _chclass(c):
    v = c.v(0)
    if c.key.endswith('is_ascii'):
        return ilt(v, 128)
    if c.key.endswith('is_ascii_digit'):
        return band(ile(48, v), ile(v, 57))
    return c.uf(c.key, v, ty=('prim', 'bool'))


# ------------------------------------------------------------------ iterators

@std('slice::iter', 'Vec::iter', 'slice::iter_mut', 'Vec::drain', 'Option::iter')
def _iter(c):
    if c.key == 'slice::iter_mut':
        raise Unsupported('iter_mut')
    return mkiter(c, c.v(0))


def mkiter(c, v):
    if isinstance(v, It):
        return v
    if isinstance(v, Seq):
        return It('bytes', v, 0)
    if isinstance(v, VecL):
        return It('list', v, 0)
    if isinstance(v, Struct) and v.name == 'Range':
        return It('range', v.f[0], v.f[1])
    if isinstance(v, Struct) and v.name == 'RangeInclusive':
        return It('range', v.f[0], iadd(v.f[1], 1))
    if isinstance(v, Struct) and v.name == 'RangeFrom':
        return It('rangefrom', v.f[0])
    if isinstance(v, Enum) and v.name == 'Option':
        return It('list', VecL(v.f, None, None), 0)
    if isinstance(v, SymE) and c.ex.enum_name(v.ty) == 'Option':
        e = c.ex.expand(c.cx, v)
        return It('list', VecL(e.f, None, None), 0)
    if isinstance(v, Opq) and v.ty and v.ty[0] == 'adt' and last_seg(v.ty[1]) in ('HashMap', 'BTreeMap'):
        return map_iter(c, v)
    if isinstance(v, (Struct, MRef, Opq)):
        return v   # a crate type that is its own iterator
    raise Unsupported('iterate %r' % (v,))


ENTRY = ('tuple', (STR, STR))


def map_iter(c, v):
    ety = ENTRY
    if v.ty and v.ty[0] == 'adt' and len(v.ty[2]) >= 2:
        ety = ('tuple', (v.ty[2][0], v.ty[2][1]))
    if v.ty and v.ty[0] == 'adt' and last_seg(v.ty[1]) == 'BTreeMap':
        return It('list', VecL((), ment(c, v.t), ety), 0)
    t = MITER(v.t)
    c.cx.add(LENL(t) == MLEN(v.t))
    return It('list', VecL((), t, ety), 0)


@std('IntoIterator.into_iter')
def _intoiter(c):
    return mkiter(c, c.v(0))


@std('iter::once')
def _once(c):
    return It('list', VecL((c.a[0],), None, None), 0)


@std('iter::repeat_n')
def _repeatn(c):
    x, n = c.v(0), c.v(1)
    if c.atys and c.atys[0] == ('prim', 'u8'):
        return It('bytes', Seq(norm([('rep', x, n)])), 0)
    raise Unsupported('repeat_n')


@std('iter::repeat')
def _repeat(c):
    return It('repeat', c.v(0))


@std('iter::empty')
def _iempty(c):
    return It('list', VecL((), None, None), 0)


def nxt(c, it):
    """(None or element, iterator') -- branches"""
    ex, cx = c.ex, c.cx
    k = it.k
    if k == 'bytes':
        s, i = it.a
        if cx.branch(zb(ilt(i, slen(s))), 'more bytes'):
            return at(cx, s, i), It('bytes', s, iadd(i, 1))
        return None, it
    if k == 'list':
        v, i = it.a
        n = ex.lenl(cx, v)
        if cx.branch(zb(ilt(i, n)), 'iterator has another element'):
            return ex.elem(cx, v, i), It('list', v, iadd(i, 1))
        return None, it
    if k == 'range':
        a, b = it.a
        if cx.branch(zb(ilt(a, b)), 'more in range'):
            return a, It('range', iadd(a, 1), b)
        return None, it
    if k == 'rangefrom':
        return it.a[0], It('rangefrom', iadd(it.a[0], 1))
    if k == 'repeat':
        return it.a[0], it
    if k == 'map':
        x, j = nxt(c, it.a[0])
        if x is None:
            return None, It('map', j, it.a[1])
        return ex.call_value(cx, it.a[1], [x]), It('map', j, it.a[1])
    if k == 'enumerate':
        x, j = nxt(c, it.a[0])
        if x is None:
            return None, It('enumerate', j, it.a[1])
        return Tup((it.a[1], x)), It('enumerate', j, iadd(it.a[1], 1))
    if k == 'filter':
        j = it.a[0]
        for _ in range(UNROLL):
            x, j = nxt(c, j)
            if x is None:
                return None, It('filter', j, it.a[1])
            if cx.branch(zb(ex.call_value(cx, it.a[1], [x]))):
                return x, It('filter', j, it.a[1])
        raise Unsupported('filter')
    if k == 'filtermap':
        j = it.a[0]
        for _ in range(UNROLL):
            x, j = nxt(c, j)
            if x is None:
                return None, It('filtermap', j, it.a[1])
            e = ex.expand(cx, ex.call_value(cx, it.a[1], [x]))
            if e.v == 'Some':
                return e.f[0], It('filtermap', j, it.a[1])
        raise Unsupported('filter_map')
    if k == 'chain':
        x, j = nxt(c, it.a[0])
        if x is not None:
            return x, It('chain', j, it.a[1])
        x, j2 = nxt(c, it.a[1])
        return x, It('chain', j, j2)
    if k == 'take':
        j, n = it.a
        if cx.branch(zb(ilt(0, n))):
            x, j = nxt(c, j)
            return x, It('take', j, isub(n, 1))
        return None, it
    if k == 'zip':
        x, j = nxt(c, it.a[0])
        if x is None:
            return None, It('zip', j, it.a[1])
        y, j2 = nxt(c, it.a[1])
        if y is None:
            return None, It('zip', j, j2)
        return Tup((x, y)), It('zip', j, j2)
    if k == 'skipwhile':
        j, f, started = it.a
        if started:
            x, j = nxt(c, j)
            return x, It('skipwhile', j, f, True)
        for _ in range(UNROLL):
            x, j = nxt(c, j)
            if x is None:
                return None, It('skipwhile', j, f, True)
            if not cx.branch(zb(ex.call_value(cx, f, [x]))):
                return x, It('skipwhile', j, f, True)
        raise Unsupported('skip_while')
    if k == 'takewhile':
        j, f, done = it.a
        if done:
            return None, it
        x, j = nxt(c, j)
        if x is None or not cx.branch(zb(ex.call_value(cx, f, [x]))):
            return None, It('takewhile', j, f, True)
        return x, It('takewhile', j, f, False)
    if k == 'chunks':
        s, n = it.a
        L = c.ex.vlen(cx, s)
        if cx.branch(zb(ieq(L, 0))):
            return None, it
        if cx.branch(zb(ile(n, L))):
            return sub(cx, s, 0, n), It('chunks', sub(cx, s, n, L), n)
        return s, It('chunks', Seq(()), n)
    if k == 'peekable':
        if it.a[1] is not None:
            return it.a[1][0], It('peekable', it.a[0], None)
        x, j = nxt(c, it.a[0])
        return x, It('peekable', j, None)
    raise Unsupported('next on %s iterator' % k)


@std('Iterator.next')
def _next(c):
    it = c.v(0)
    if not isinstance(it, It):
        it = mkiter(c, it)
    if not isinstance(it, It):
        # a crate iterator
        t = parse_type(c.selfty.replace('&mut ', ''))
        raise Unsupported('next on %r' % (it,))
    x, j = nxt(c, it)
    c.wr(0, j)
    return NONE if x is None else Some(x)


@std('Iterator.map', 'Iterator.filter')
def _imap(c):
    return It(c.key.split('.')[1], mkiter(c, c.v(0)), c.a[1])


@std('Iterator.filter_map')
def _ifm(c):
    return It('filtermap', mkiter(c, c.v(0)), c.a[1])


@std('Iterator.enumerate')
def _ienum(c):
    return It('enumerate', mkiter(c, c.v(0)), 0)


@std('Iterator.copied', 'Iterator.cloned', 'Iterator.by_ref', 'Iterator.fuse', 'Iterator.into_iter')
def _icop(c):
    return mkiter(c, c.v(0))


@std('Iterator.chain', 'Iterator.zip')
def _ichain(c):
    return It(c.key.split('.')[1], mkiter(c, c.v(0)), mkiter(c, c.v(1)))


@std('Iterator.peekable')
def _ipeek(c):
    return It('peekable', mkiter(c, c.v(0)), None)


@std('Peekable::peek')
def _peek(c):
    it = c.v(0)
    if it.a[1] is not None:
        x = it.a[1][0]
    else:
        x, j = nxt(c, it.a[0])
        if x is None:
            c.wr(0, It('peekable', j, None))
            return NONE
        c.wr(0, It('peekable', j, (x,)))
    return Some(x)


@std('Iterator.take')
def _itake(c):
    it, n = mkiter(c, c.v(0)), c.v(1)
    if it.k == 'bytes':
        s, i = it.a
        L = slen(s)
        if c.branch(zb(ile(iadd(i, n), L))):
            return It('bytes', sub(c.cx, s, i, iadd(i, n)), 0)
        return It('bytes', sub(c.cx, s, i, L), 0)
    if it.k == 'repeat' and isinstance(it.a[0], (int, z3.ArithRef)):
        return It('bytes', Seq(norm([('rep', it.a[0], n)])), 0)
    return It('take', it, n)


@std('Iterator.skip')
def _iskip(c):
    it, n = mkiter(c, c.v(0)), c.v(1)
    if it.k == 'bytes':
        s, i = it.a
        L = slen(s)
        if c.branch(zb(ile(iadd(i, n), L))):
            return It('bytes', s, iadd(i, n))
        return It('bytes', s, L)
    if it.k == 'list':
        v, i = it.a
        L = c.ex.lenl(c.cx, v)
        if c.branch(zb(ile(iadd(i, n), L))):
            return It('list', v, iadd(i, n))
        return It('list', v, L)
    raise Unsupported('skip')


@std('Iterator.skip_while')
def _iskipw(c):
    return It('skipwhile', mkiter(c, c.v(0)), c.a[1], False)


@std('Iterator.take_while')
def _itakew(c):
    return It('takewhile', mkiter(c, c.v(0)), c.a[1], False)


@std('slice::chunks', 'slice::chunks_exact')
def _chunks(c):
    v, n = c.v(0), c.v(1)
    if isinstance(v, Seq) and c.key == 'slice::chunks':
        return It('chunks', v, n)
    if isinstance(v, VecL):
        return ulist(c, c.key.split('::')[1], ('slice', v.ety or ('unknown', '')), v, n)
    raise Unsupported('chunks')


def concrete_items(c, it, limit=UNROLL):
    out = []
    for _ in range(limit + 1):
        x, it = nxt(c, it)
        if x is None:
            return out
        out.append(x)
    raise Unsupported('iterator of unknown length')


def is_finite(c, it):
    k = it.k
    if k == 'bytes':
        return not isz(slen(it.a[0])) and not isz(it.a[1])
    if k == 'list':
        return it.a[0].base is None and not isz(it.a[1])
    if k == 'range':
        return not isz(it.a[0]) and not isz(it.a[1])
    if k in ('map', 'filter', 'filtermap', 'enumerate', 'peekable', 'skipwhile', 'takewhile'):
        return is_finite(c, it.a[0])
    if k == 'chain':
        return is_finite(c, it.a[0]) and is_finite(c, it.a[1])
    if k == 'zip':
        return is_finite(c, it.a[0]) or is_finite(c, it.a[1])
    if k == 'take':
        return not isz(it.a[1])
    return False


def map_elems(c, it):
    """(list VecL, index expr->value function) view of a map chain over an unknown list, or None"""
    if it.k == 'list':
        return it.a[0], it.a[1], (lambda x: x)
    if it.k == 'map':
        r = map_elems(c, it.a[0])
        if r is None:
            return None
        v, i, g = r
        f = it.a[1]
        return v, i, (lambda x: c.ex.call_value(c.cx, f, [g(x)]))
    return None


def collect_seq(c, it):
    if it.k == 'bytes':
        s, i = it.a
        return sub(c.cx, s, i, slen(s))
    if is_finite(c, it):
        xs = concrete_items(c, it)
        out = []
        for x in xs:
            x = c.ex.deref(c.cx, x)
            out.append(x if isinstance(x, Seq) else be(1, x))
        return cat(*out)
    if it.k == 'range' and not isz(it.a[0]):
        raise Unsupported('collect range')
    if it.k == 'chain':
        return cat(collect_seq(c, it.a[0]), collect_seq(c, it.a[1]))
    if it.k == 'flatmap':
        # induction over the characters: each one is kept, possibly after a line break
        cx = c.cx
        j, f = it.a
        b = j.a[0] if j.k == 'enumerate' else j
        s, i0 = b.a
        if isz(i0) or i0 != 0 or j.k == 'enumerate' and (isz(j.a[1]) or j.a[1] != 0):
            raise Unsupported('flat_map from the middle')
        i = cx.fint('i', 0)
        n = slen(s)
        if not cx.branch(zb(ilt(0, n)), 'some characters'):
            return Seq(())
        cx.add(i < zi(n))
        ch = at(cx, s, i)
        r = c.ex.deref(cx, c.ex.call_value(cx, f, [Tup((i, ch)) if j.k == 'enumerate' else ch]))
        e = collect_seq(c, mkiter(c, r))
        one = be(1, ch)
        if cx.proves(zb(seq_eq(cx, e, one))) or cx.proves(zb(seq_eq(cx, e, cat(lit('\n'), one)))) and cx.proves(i > 0):
            return wrapped(cx, bterm(cx, s), c.ex.uterm(cx, f))
        raise Unsupported('flat_map')
    if it.k == 'skipwhile' or it.k == 'filter' or it.k == 'map':
        raise Unsupported('collect %s' % it.k)
    raise Unsupported('collect')


def collect(c, it, ety):
    if it.k == 'bytes' and ety == ('prim', 'char'):
        return collect_seq(c, it)
    if it.k == 'map' and it.a[0].k == 'chunks' and not is_finite(c, it):
        s, n = it.a[0].a
        if isinstance(s, Seq) and not isz(n) and n > 0:
            x = c.cx.fseq('chunk')
            y = c.ex.deref(c.cx, c.ex.call_value(c.cx, it.a[1], [x]))
            if isinstance(y, Seq) and c.cx.proves(zb(seq_eq(c.cx, x, y))):
                t = bterm(c.cx, s)
                return VecL((), CHUNKL(t, c.ex.uterm(c.cx, n)), STR)
        raise Unsupported('collect chunks')
    if is_finite(c, it):
        return VecL(concrete_items(c, it), None, ety)
    if it.k == 'list':
        v, i = it.a
        if not isz(i) and i == 0:
            return VecL(v.el, v.base, ety or v.ety)
        raise Unsupported('collect rest of list')
    if it.k == 'map':
        r = map_elems(c, it)
        if r is not None:
            v, i, g = r
            if not isz(i) and i == 0:
                x = c.ex.from_term(c.cx, z3.Const('mapprobe', U), v.ety or ('unknown', ''))
                y = c.ex.deref(c.cx, g(x))
                if same_val2(x, y):
                    return VecL(v.el, v.base, ety or v.ety)
                return VecL((), map_term(c, v, x, y), ety)
    if it.k in ('filter',):
        base = collect(c, it.a[0], ety)
        x = c.ex.from_term(c.cx, z3.Const('mapprobe', U), base.ety or ('unknown', ''))
        y = zb(c.ex.call_value(c.cx, it.a[1], [x]))
        c.mark('filterl')
        t = ufn('filterl', U, BS, U)(c.ex.uterm(c.cx, base), y)
        return VecL((), t, ety or base.ety)
    raise Unsupported('collect %s' % it.k)


def same_val2(a, b):
    if isinstance(a, Seq) and isinstance(b, Seq):
        return norm(a.p) == norm(b.p)
    if isinstance(a, (SymE, Opq)) and isinstance(b, (SymE, Opq)):
        return a.t.eq(b.t)
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, (Struct, Tup)) and isinstance(b, (Struct, Tup)):
        return len(a.f) == len(b.f) and all(same_val2(x, y) for x, y in zip(a.f, b.f))
    return False


def map_term(c, v, x, y):
    """term of the list obtained by mapping x -> y (y mentions the probe constant)"""
    c.mark('mapl')
    t = ufn('mapl', U, U, U)(c.ex.uterm(c.cx, v), c.ex.uterm(c.cx, y))
    c.cx.add(LENL(t) == LENL(c.ex.uterm(c.cx, v)))
    return t


@std('Iterator.collect')
def _collect(c):
    it = mkiter(c, c.v(0))
    t = c.rty
    if t[0] == 'unknown':
        g = generic_args(c.callee)
        if g:
            t = parse_type(g[0])
    if t[0] == 'adt' and last_seg(t[1]) in ('HashMap', 'BTreeMap'):
        xs = concrete_items(c, it) if is_finite(c, it) else None
        if xs is None:
            if it.k == 'list' and not isz(it.a[1]) and it.a[1] == 0 and it.a[0].base is not None and not it.a[0].el:
                base = it.a[0].base
                if base.decl().name() in (MITER.name(), MENT.name()):
                    return Opq(base.arg(0), t)
            raise Unsupported('collect map')
        m = Opq(MEMPTY, t)
        for x in xs:
            m = minsert(c.ex, c.cx, m, x.f[0], x.f[1])
        return m
    if is_bytes(t) or t[0] == 'adt' and last_seg(t[1]) == 'String':
        if it.k in ('map', 'list', 'filter') and not is_finite(c, it):
            # String from chars/strings
            v = collect(c, it, None)
            c.mark('strcollect')
            b = ufn('strcollect', U, B)(c.ex.uterm(c.cx, v))
            c.cx.blen(b)
            if is_str(t):
                c.cx.add(UTF8(b))
            return sym(b)
        return collect_seq(c, it)
    if t[0] == 'adt' and last_seg(t[1]) in ('Result', 'Option'):
        if is_finite(c, it):
            out = []
            for x in concrete_items(c, it):
                e = c.ex.expand(c.cx, x)
                if e.v in ('Err', 'None'):
                    return e
                out.append(e.f[0])
            return Enum(last_seg(t[1]), 'Ok' if last_seg(t[1]) == 'Result' else 'Some', (VecL(out, None, None),))
        raise Unsupported('collect into %s' % last_seg(t[1]))
    ety = t[2][0] if t[0] == 'adt' and t[2] else None
    if ety is not None and ety[0] == 'unknown':
        ety = None
    return collect(c, it, ety)


SUMF = {}


def short_bytes(c, it):
    """a byte iterator that is provably short: one case per length"""
    if it.k in ('map', 'filter', 'filtermap', 'enumerate', 'copied'):
        return It(it.k, short_bytes(c, it.a[0]), *it.a[1:])
    if it.k != 'bytes' or is_finite(c, it):
        return it
    s, i = it.a
    n = isub(slen(s), i)
    if not c.cx.proves(zb(ile(n, 16))):
        return it
    for k in range(17):
        if c.branch(zb(ieq(n, k)), '%d bytes' % k):
            return It('bytes', cat(*[be(1, at(c.cx, s, iadd(i, j))) for j in range(k)]), 0)
    raise PathEnd()


@std('Iterator.fold')
def _fold(c):
    it, acc, f = short_bytes(c, mkiter(c, c.v(0))), c.v(1), c.a[2]
    if is_finite(c, it):
        for x in concrete_items(c, it):
            acc = c.ex.call_value(c.cx, f, [acc, x])
        return acc
    return fold_sum(c, it, acc, f)


@std('Iterator.sum')
def _sum(c):
    it = mkiter(c, c.v(0))
    if is_finite(c, it):
        acc = 0
        for x in concrete_items(c, it):
            acc = iadd(acc, x)
            lo, hi = RANGES[c.rty[1]]
            c.panic_free(band(ile(lo, acc), ile(acc, hi)), 'sum overflow')
        return acc
    return fold_sum(c, it, 0, None)


def fold_sum(c, it, acc, f):
    """init + sum of h(x) over a list of unknown length; h(x) is summarised symbolically"""
    ex, cx = c.ex, c.cx
    r = map_elems(c, it)
    if r is None:
        raise Unsupported('fold over %s' % it.k)
    v, i, g = r
    hook = getattr(ex, 'fold_hook', None)
    if hook is None:
        raise Unsupported('fold over an unknown list')
    return hook(c, v, i, g, acc, f)


@std('Iterator.any', 'Iterator.all', 'Iterator.position', 'Iterator.find', 'Iterator.count', 'Iterator.last', 'Iterator.nth', 'Iterator.for_each',
     'Iterator.find_map', 'Iterator.try_fold', 'Iterator.try_for_each', 'Iterator.max', 'Iterator.min', 'Iterator.rposition')
def _iany(c):
    it = mkiter(c, c.v(0))
    m = c.key.split('.')[1]
    if m == 'nth' and not isz(c.v(1)):
        x = None
        for _ in range(c.v(1) + 1):
            x, it = nxt(c, it)
            if x is None:
                break
        if isinstance(c.a[0], MRef):
            c.wr(0, it)
        return NONE if x is None else Some(x)
    if m == 'count' and it.k == 'list':
        return isub(c.ex.lenl(c.cx, it.a[0]), it.a[1])
    if m == 'count' and it.k == 'bytes':
        return isub(slen(it.a[0]), it.a[1])
    if m == 'last' and it.k == 'list':
        n = c.ex.lenl(c.cx, it.a[0])
        if c.branch(zb(ilt(it.a[1], n))):
            return Some(c.ex.elem(c.cx, it.a[0], isub(n, 1)))
        return NONE
    if not is_finite(c, it):
        if m in ('any', 'all') and it.k == 'list':
            # opaque predicate of the list
            x = c.ex.from_term(c.cx, z3.Const('mapprobe', U), it.a[0].ety or ('unknown', ''))
            y = zb(c.ex.call_value(c.cx, c.a[1], [x]))
            return ufn(m + 'l', U, IS, BS, BS)(c.ex.uterm(c.cx, it.a[0]), zi(it.a[1]), y)
        if m == 'position' and it.k == 'bytes':
            return byte_position(c, it)
        raise Unsupported('%s over an unknown list' % m)
    xs = concrete_items(c, it)
    f = c.a[1] if len(c.a) > 1 else None
    for k, x in enumerate(xs):
        if m == 'for_each':
            c.ex.call_value(c.cx, f, [x])
            continue
        if m in ('max', 'min', 'last', 'count'):
            continue
        r = c.ex.call_value(c.cx, f, [x])
        if m == 'find_map':
            e = c.ex.expand(c.cx, r)
            if e.v == 'Some':
                return e
            continue
        r = c.branch(zb(r))
        if m == 'any' and r:
            return True
        if m == 'all' and not r:
            return False
        if m == 'position' and r:
            return Some(k)
        if m == 'find' and r:
            return Some(x)
    if m == 'for_each':
        return UNIT
    if m == 'any':
        return False
    if m == 'all':
        return True
    if m in ('position', 'find', 'find_map'):
        return NONE
    raise Unsupported(m)


ZPRE = ufn('zprefix', B, IS)      # number of leading zero bytes
NULPOS = ufn('bytepos', B, IS, IS)  # first position of a byte value (len if none)


def zprefix(cx, t):
    n = ZPRE(t)
    if cx.once(('zpre', t.get_id())):
        cx.add(And(n >= 0, n <= LEN(t)))
        cx.add(Implies(n < LEN(t), AT(t, n) != 0))
        cx.at(t, n)
        cx.add(Implies(n > 0, AT(t, IntVal(0)) == 0))
        cx.add(Implies(And(LEN(t) > 0, AT(t, IntVal(0)) != 0), n == 0))
    return n


def bytepos(cx, t, val):
    n = NULPOS(t, zi(val))
    if cx.once(('bpos', n.get_id())):
        cx.add(And(n >= 0, n <= LEN(t)))
        cx.add(Implies(n < LEN(t), AT(t, n) == zi(val)))
    return n


def byte_position(c, it):
    """position(|b| b != 0) or position(|b| b == k)"""
    s, i = it.a
    cx = c.cx
    base = sub(cx, s, i, slen(s))
    t = bterm(cx, base)
    p = cx.fint('probe', 0, 255)
    y = c.ex.call_value(cx, c.a[1], [p])
    y = zb(y)
    n = None
    if cx.proves(y == (p != 0)):
        n = zprefix(cx, t)
    else:
        for k in range(256):
            if cx.proves(y == (p == k)):
                n = bytepos(cx, t, k)
                break
    if n is None:
        raise Unsupported('position')
    if cx.branch(n < LEN(t)):
        return Some(n)
    return NONE


@std('Iterator.rev')
def _rev(c):
    it = mkiter(c, c.v(0))
    if is_finite(c, it):
        return It('list', VecL(concrete_items(c, it)[::-1], None, None), 0)
    raise Unsupported('rev')


@std('Iterator.flat_map', 'Iterator.flatten')
def _flatmap(c):
    it = mkiter(c, c.v(0))
    if c.key.endswith('flatten'):
        return It('opaque', c.uf('flatten', it, ty=('unknown', '')))
    f = c.a[1]
    if it.k == 'enumerate' and it.a[0].k == 'bytes' or it.k == 'bytes':
        return It('flatmap', it, f)
    c.mark('flat_map')
    return It('list', VecL((), ufn('flat_map', U, U, U)(c.ex.uterm(c.cx, it), c.ex.uterm(c.cx, f)), None), 0)


@std('Iterator.size_hint', 'ExactSizeIterator.len')
def _islen(c):
    it = mkiter(c, c.v(0))
    if it.k == 'bytes':
        return isub(slen(it.a[0]), it.a[1])
    if it.k == 'list':
        return isub(c.ex.lenl(c.cx, it.a[0]), it.a[1])
    raise Unsupported('size_hint')


# ------------------------------------------------------------------ maps

MHIST = {}


def empty_map():
    return Opq(MEMPTY, ('adt', 'std::collections::HashMap', (STR, STR)))


def minsert(ex, cx, m, k, v):
    # inserts under distinct constant keys commute: keep them in the order of the keys
    kb = seq_bytes(k) if isinstance(k, Seq) else None
    h = MHIST.get(m.t.get_id())
    if kb is not None and h is not None and h[0].eq(m.t):
        _, m0, k0, kb0, v0 = h
        if kb0 == kb:
            return minsert(ex, cx, m0, k, v)
        if kb < kb0:
            return minsert(ex, cx, minsert(ex, cx, m0, k, v), k0, v0)
    t = MINS(m.t, ex.uterm(cx, k), ex.uterm(cx, v))
    if kb is not None:
        MHIST[t.get_id()] = (t, m, k, kb, v)
    if cx.once(('mins', t.get_id())):
        cx.add(And(MLEN(t) >= MLEN(m.t), MLEN(t) <= MLEN(m.t) + 1, MLEN(t) >= 1))
    return Opq(t, m.ty)


@std('HashMap::new', 'BTreeMap::new', 'HashMap::with_capacity')
def _mnew(c):
    if c.cx.once('mempty'):
        c.cx.add(MLEN(MEMPTY) == 0)
    return Opq(MEMPTY, c.rty)


@std('HashMap::insert', 'BTreeMap::insert')
def _minsert(c):
    m = c.v(0)
    c.wr(0, minsert(c.ex, c.cx, m, c.v(1), c.v(2)))
    return Opq(c.cx.fu('oldvalue'), c.rty)


@std('HashMap::len', 'BTreeMap::len')
def _mlen(c):
    n = MLEN(c.v(0).t)
    c.cx.add(And(n >= 0, n <= MAXLEN))
    return n


@std('HashMap::is_empty', 'BTreeMap::is_empty')
def _mempty(c):
    n = MLEN(c.v(0).t)
    c.cx.add(And(n >= 0, n <= MAXLEN))
    return simp(n == 0)


@std('HashMap::iter', 'BTreeMap::iter')
def _miter(c):
    return map_iter(c, c.v(0))


@std('HashMap::keys', 'BTreeMap::keys', 'HashMap::into_keys')
def _mkeys(c):
    m = c.v(0)
    t = ufn('mkeys', U, U)(m.t)
    c.cx.add(LENL(t) == MLEN(m.t))
    return It('list', VecL((), t, STR), 0)


MGET = ufn('mget', U, U, U)


@std('HashMap::get', 'HashMap::contains_key', 'BTreeMap::get', 'BTreeMap::contains_key', 'HashMap::get_mut')
def _mget(c):
    m, k = c.v(0), c.v(1)
    if c.key.endswith('get_mut'):
        raise Unsupported('get_mut')
    r = MGET(m.t, c.ex.uterm(c.cx, k))
    if c.key.endswith('contains_key'):
        return DISCR(r) == 1
    return c.ex.from_term(c.cx, r, c.rty)


# ------------------------------------------------------------------ formatting

@std('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex', 'Argument::new_debug_noop')
def _arg(c):
    ty = generic_args(c.callee)
    return Struct('FmtArg', (FnV(c.key.split('::')[1]), FnV(ty[0] if ty else ''), c.v(0)))


@std('Arguments::new', 'Arguments::new_v1', 'Arguments::new_const')
def _args(c):
    return Struct('FmtArgs', tuple(c.v(i) for i in range(len(c.a))))


@std('Arguments::from_str', 'Arguments::from_str_nonconst', 'Arguments::new_str')
def _argss(c):
    return Struct('FmtArgs', (c.seq(0),))


def render(c, a):
    """text of format_args"""
    if len(a.f) == 1:
        return a.f[0]
    tpl = seq_bytes(a.f[0])
    args = a.f[1]
    if tpl is None or not isinstance(args, VecL) or args.base is not None:
        raise Unsupported('format template')
    out = []
    i = 0
    n = 0
    while i < len(tpl):
        b = tpl[i]
        if b == 0:
            break
        if b < 0x80:
            out.append(lit(tpl[i + 1:i + 1 + b]))
            i += 1 + b
            continue
        if b == 0x80:
            k = tpl[i + 1] | (tpl[i + 2] << 8)
            out.append(lit(tpl[i + 3:i + 3 + k]))
            i += 3 + k
            continue
        if b == 0xc0:
            out.append(display(c, args.el[n]))
            n += 1
            i += 1
            continue
        if b & 0xc0 == 0xc0:
            # flags u32 if bit 0, width u16 if bit 1, precision u16 if bit 2, index u16 if bit 3
            i += 1
            opts = []
            idx = n
            if b & 1:
                opts.append(('f', int.from_bytes(tpl[i:i + 4], 'little')))
                i += 4
            if b & 2:
                opts.append(('w', int.from_bytes(tpl[i:i + 2], 'little')))
                i += 2
            if b & 4:
                opts.append(('p', int.from_bytes(tpl[i:i + 2], 'little')))
                i += 2
            if b & 8:
                idx = int.from_bytes(tpl[i:i + 2], 'little')
                i += 2
            n = idx + 1
            if not opts:
                out.append(display(c, args.el[idx]))
                continue
            x = args.el[idx]
            t = ufn('fmtspec.' + repr(opts) + x.f[0].path, U, B)(c.ex.uterm(c.cx, x.f[2]))
            c.cx.blen(t)
            c.cx.add(UTF8(t))
            out.append(sym(t))
            continue
        raise Unsupported('format template byte %x' % b)
    return cat(*out)


def display(c, arg):
    kind, ty, v = arg.f
    v = c.ex.deref(c.cx, v)
    if kind.path == 'new_display':
        return to_text(c, v, ty.path)
    t = ufn('fmt.' + kind.path, U, B)(c.ex.uterm(c.cx, v))
    c.cx.blen(t)
    c.cx.add(UTF8(t))
    return sym(t)


def dec(cx, n):
    if not isz(n):
        return lit(str(n))
    t = DEC(n)
    if cx.once(('dec', t.get_id())):
        cx.blen(t)
        cx.add(And(LEN(t) >= 1, LEN(t) <= 40, UTF8(t)))
    return sym(t)


def to_text(c, v, tytext, alternate=False):
    ex, cx = c.ex, c.cx
    ty = parse_type(tytext)
    while ty[0] == 'ref':
        ty = ty[2]
    if isinstance(v, Seq):
        return v
    if ty[0] == 'prim' and ty[1] == 'char':
        return char_seq(cx, v)
    if isinstance(v, (int, z3.ArithRef)) and not isinstance(v, bool):
        return dec(cx, v)
    name = None
    if isinstance(v, (Struct, Enum)):
        name = v.name
    elif isinstance(v, SymE):
        name = ex.enum_name(v.ty)
    if ty[0] == 'adt':
        name = last_seg(ty[1])
        full = ex.ty.adt(ty[1])
        f = ex.crate.by_key.get('<%s as Display>::fmt' % name) if full else None
        if f is not None:
            if name == 'Error':
                t = ufn('errtext', U, B)(ex.uterm(cx, v))
                cx.blen(t)
                cx.add(UTF8(t))
                return sym(t)
            cx.frames += 1
            fr = Frame(f, cx.frames)
            fr.l[0] = Struct('Formatter', (Seq(()), alternate))
            ex.call_fn(cx, f, [v, MRef(fr, 0)])
            return fr.l[0].f[0]
    t = ufn('text.' + str(name), U, B)(ex.uterm(cx, v))
    cx.blen(t)
    cx.add(UTF8(t))
    return sym(t)


@std('fmt::format', 'format::format')
def _format(c):
    return render(c, c.v(0))


@std('ToString.to_string')
def _tostring(c):
    return to_text(c, c.v(0), c.selfty)


@std('Formatter::write_fmt')
def _fwf(c):
    f = c.v(0)
    if not (isinstance(f, Struct) and f.name == 'Formatter'):
        raise Unsupported('formatter')
    c.wr(0, Struct('Formatter', (cat(f.f[0], render(c, c.v(1))), f.f[1])))
    return Ok(UNIT)


@std('Formatter::write_str', 'Formatter::pad', 'Write.write_str')
def _fws(c):
    f = c.v(0)
    if isinstance(f, Struct) and f.name == 'Formatter':
        c.wr(0, Struct('Formatter', (cat(f.f[0], c.seq(1)), f.f[1])))
        return Ok(UNIT)
    if isinstance(f, Seq):
        c.wr(0, cat(f, c.seq(1)))
        return Ok(UNIT)
    raise Unsupported('formatter')


@std('Formatter::write_char', 'Write.write_char')
def _fwc(c):
    f = c.v(0)
    if isinstance(f, Struct) and f.name == 'Formatter':
        c.wr(0, Struct('Formatter', (cat(f.f[0], char_seq(c.cx, c.v(1))), f.f[1])))
        return Ok(UNIT)
    raise Unsupported('formatter')


@std('Formatter::alternate')
def _falt(c):
    return c.v(0).f[1]


@std('Display.fmt')
def _dfmt(c):
    v = c.v(0)
    f = c.v(1)
    if isinstance(f, Struct) and f.name == 'Formatter':
        c.wr(1, Struct('Formatter', (cat(f.f[0], to_text(c, v, c.selfty, f.f[1])), f.f[1])))
        return Ok(UNIT)
    raise Unsupported('Display::fmt')


def io_write(c, data):
    """write to an io::Write: the sink either takes all of it or reports an error"""
    w = c.v(0)
    if isinstance(w, Seq):
        c.wr(0, cat(w, data))
        return Ok(UNIT)
    if isinstance(w, Struct) and w.name == 'IoSink':
        if c.branch(ufn('sink.ok', IS, BS)(zi(w.f[1])), 'write succeeds'):
            c.wr(0, Struct('IoSink', (cat(w.f[0], data), iadd(w.f[1], 0))))
            return Ok(UNIT)
        return Err(Opq(z3.Const('io.error', U), ('adt', 'std::io::Error', ())))
    raise Unsupported('io write')


@std('Write.write_fmt')
def _wfmt(c):
    return io_write(c, render(c, c.v(1)))


@std('Write.write_all')
def _wall(c):
    return io_write(c, c.seq(1))


# ------------------------------------------------------------------ base64, hashing, crypto (uninterpreted primitives)

B64 = ufn('b64', B, B)
UNB64OK = ufn('unb64ok', B, BS)
UNB64 = ufn('unb64', B, B)
B64LEN = None


def b64(cx, s):
    b = seq_bytes(s)
    if b is not None:
        import base64 as _b
        return lit(_b.b64encode(b))
    t0 = bterm(cx, s)
    t = B64(t0)
    if cx.once(('b64', t.get_id())):
        cx.blen(t)
        cx.add(UTF8(t))
        cx.add(UNB64OK(t))
        cx.add(UNB64(t) == t0)
        cx.add(LEN(t) == (LEN(t0) + 2) / 3 * 4)
    return sym(t)


@std('base64::encode', 'encode::encode')
def _b64e(c):
    return b64(c.cx, c.seq(0))


def unb64(cx, s):
    """Option-like: (ok formula, decoded Seq)"""
    t0 = bterm(cx, s)
    for t, d in getattr(cx, 'b64known', ()):
        if cx.proves(t0 == t):
            return True, d
    ok = UNB64OK(t0)
    t = UNB64(t0)
    cx.blen(t)
    return ok, sym(t)


@std('base64::decode', 'decode::decode')
def _b64d(c):
    ok, s = unb64(c.cx, c.seq(0))
    if c.branch(ok, 'valid base64'):
        return Ok(s)
    return Err(Opq(z3.Const('base64.error', U), ('adt', 'base64::DecodeError', ())))


HASHF = {}


def hash_uf(alg):
    if alg not in HASHF:
        HASHF[alg] = ufn('hash.' + alg, B, B)
    return HASHF[alg]


HLEN = {'SHA1_FOR_LEGACY_USE_ONLY': 20, 'SHA256': 32, 'SHA384': 48, 'SHA512': 64}


def hashed(cx, alg, s):
    t = hash_uf(alg)(bterm(cx, s))
    cx.blen(t)
    if alg in HLEN:
        cx.add(LEN(t) == HLEN[alg])
    return sym(t)


def static_name(v):
    if isinstance(v, Opq) and z3.is_app(v.t) and v.t.num_args() == 0 and str(v.t).startswith('static.'):
        return str(v.t)[7:]
    return None


@std('digest::digest')
def _digest(c):
    alg = static_name(c.v(0))
    if alg is None:
        raise Unsupported('digest algorithm')
    return hashed(c.cx, alg, c.seq(1))


@std('Context::new')
def _dctx(c):
    alg = static_name(c.v(0))
    if alg is None:
        raise Unsupported('digest algorithm')
    return Struct('DigestContext', (FnV(alg), Seq(())))


@std('Context::update')
def _dupd(c):
    d = c.v(0)
    c.wr(0, Struct('DigestContext', (d.f[0], cat(d.f[1], c.seq(1)))))
    return UNIT


@std('Context::finish')
def _dfin(c):
    d = c.v(0)
    return hashed(c.cx, d.f[0].path, d.f[1])


VERIFY = {}


def verify_uf(alg):
    return ufn('verify.' + alg, B, B, B, BS)


def verifies(cx, alg, key, msg, sig):
    return verify_uf(alg)(bterm(cx, key), bterm(cx, msg), bterm(cx, sig))


@std('UnparsedPublicKey::new')
def _upk(c):
    alg = static_name(c.v(0))
    if alg is None:
        v = c.v(0)
        raise Unsupported('verification algorithm %r' % (v,))
    return Struct('UnparsedPublicKey', (FnV(alg), c.seq(1)))


UNSPEC = Opq(z3.Const('ring.Unspecified', U), ('adt', 'ring::error::Unspecified', ()))


@std('UnparsedPublicKey::verify')
def _upkv(c):
    k = c.v(0)
    if c.branch(verifies(c.cx, k.f[0].path, k.f[1], c.seq(1), c.seq(2)), 'signature verifies (%s)' % k.f[0].path):
        return Ok(UNIT)
    return Err(UNSPEC)


def rsa_key_term(cx, n, e):
    return ufn('rsakey', B, B, B)(bterm(cx, n), bterm(cx, e))


@std('ring::rsa::PublicKeyComponents<&std::vec::Vec<u8>>::verify', 'PublicKeyComponents::verify')
def _rsav(c):
    k = c.v(0)
    if not isinstance(k, Struct) or len(k.f) != 2:
        raise Unsupported('RSA key components')
    alg = static_name(c.v(1))
    if alg is None:
        raise Unsupported('verification algorithm')
    kt = rsa_key_term(c.cx, as_seq(c, k.f[0]), as_seq(c, k.f[1]))
    f = verify_uf(alg)(kt, bterm(c.cx, c.seq(2)), bterm(c.cx, c.seq(3)))
    if c.branch(f, 'signature verifies (%s)' % alg):
        return Ok(UNIT)
    return Err(UNSPEC)


@std('SystemRandom::new')
def _sysr(c):
    return Opq(z3.Const('rng', U))


@std('SecureRandom.fill')
def _fillr(c):
    v = c.v(1)
    n = slen(v)
    # exhausted system randomness is outside every property
    r = random_draw(c.cx, n)
    c.wr(1, r)
    return Ok(UNIT)


def random_draw(cx, n):
    r = cx.fseq('random')
    cx.add(LEN(r.p[0][1]) == zi(n))
    cx.randoms = getattr(cx, 'randoms', ()) + (r,)
    return r


@std('rand::generate')
def _rgen(c):
    g = generic_args(c.callee)
    t = parse_type(g[0])
    n = int(t[2])
    return Ok(random_draw(c.cx, n))      # exhausted system randomness is outside every property


# ------------------------------------------------------------------ opaque dependencies: uninterpreted functions

def pure(name):
    def f(c):
        return c.uf(name, *[c.v(i) for i in range(len(c.a))])
    return f


for _n in ('BigUint::from_bytes_be', 'BigUint::from_slice', 'BigUint::to_bytes_be', 'BigInt::from_bytes_be', 'BigInt::new',
           'NaiveDate::parse_from_str', 'NaiveDateTime::parse_from_str', 'NaiveDate::and_time', 'NaiveDateTime::and_local_timezone',
           'NaiveDateTime::and_utc', 'DateTime::timestamp', 'NaiveTime::from_hms_opt', 'NaiveDate::and_hms_opt',
           'x509_parser::parse_x509_certificate', 'pem::parse_x509_pem', 'Pem::parse_x509', 'TbsCertificate::extensions', 'TbsCertificate::public_key',
           'Oid::to_id_string', 'Any::as_oid', 'BerObject::as_bitstring', 'BerObject::as_oid', 'BerObject::as_sequence',
           'ber::parse_ber_bitstring', 'der::parse_der_integer', 'der::parse_der_octetstring', 'der::parse_der_sequence',
           'BitStringObject::is_set', 'FromDer.from_der', 'simple_asn1::der_encode', 'ASN1Block::to_asn1', 'KeyPair::public', 'PublicKey::modulus_len'):
    H[_n] = pure(_n)


@std('X509Certificate::verify_signature')
def _x509v(c):
    return c.uf('x509.verify_signature', *[c.v(i) for i in range(len(c.a))])


def big_arith(c, a, b):
    return c.uf('big.' + c.key, a, b)


@std('BigUint::modpow')
def _modpow(c):
    m = c.v(2)
    z = c.ex.uterm(c.cx, m)
    c.panic_free(Not(ufn('big.is_zero', U, BS)(z)), 'modpow with a zero modulus')
    return c.uf('big.modpow', c.v(0), c.v(1), m)


@std('File::open', 'Read.read_to_string', 'fs::read_to_string', 'fs::read')
def _file(c):
    if c.key == 'Read.read_to_string':
        data = c.cx.fseq('filetext')
        c.cx.add(UTF8(data.p[0][1]))
        if c.branch(c.cx.fbool('read_ok')):
            c.wr(1, cat(c.v(1), data))
            return Ok(slen(data))
        return Err(Opq(z3.Const('io.error', U), ('adt', 'std::io::Error', ())))
    if c.key.startswith('fs::'):
        data = c.cx.fseq('filetext')
        c.cx.add(UTF8(data.p[0][1]))
        if c.branch(c.cx.fbool('read_ok')):
            return Ok(data)
        return Err(Opq(z3.Const('io.error', U), ('adt', 'std::io::Error', ())))
    if c.branch(c.cx.fbool('open_ok')):
        return Ok(Opq(c.cx.fu('file'), ('adt', 'std::fs::File', ())))
    return Err(Opq(z3.Const('io.error', U), ('adt', 'std::io::Error', ())))


SIGNOPT = ('adt', 'std::option::Option', (('adt', 'std::vec::Vec', (('adt', 'u8', ()),)),))


def signer_sign(c, signer, data):
    """an arbitrary implementation of the signer trait: any answer, as a function of signer and data"""
    t = ufn('signer.sign', U, B, U)(c.ex.uterm(c.cx, signer), bterm(c.cx, data))
    return c.ex.from_term(c.cx, t, parse_type('std::option::Option<std::vec::Vec<u8>>'))


@std('SSHCertificateSigner.sign', 'T.sign')
def _signer(c):
    return signer_sign(c, c.v(0), c.seq(1))
