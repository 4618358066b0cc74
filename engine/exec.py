"""Symbolic execution of the compiler's MIR against contracts."""
import re
import z3
from z3 import Function, And, Or, Not, Implies, IntVal, If
from core import *
import core
from mirparse import ParseError, parse_type, last_seg, split_top, strip_generics, find_close, top_as, Fn, norm_path_types

# ------------------------------------------------------------------ types

BUILTIN_ENUMS = {
    'Option': [('None', 0, 0), ('Some', 1, 1)],
    'Result': [('Ok', 0, 1), ('Err', 1, 1)],
    'ControlFlow': [('Continue', 0, 1), ('Break', 1, 1)],
    'Cow': [('Borrowed', 0, 1), ('Owned', 1, 1)],
    'Ordering': [('Less', -1, 0), ('Equal', 0, 0), ('Greater', 1, 0)],
}


class Types:
    def __init__(self, crate):
        self.crate = crate
        self.ext_enums = {'Sign': [('Minus', 0, []), ('NoSign', 1, []), ('Plus', 2, [])],
                          'ASN1Block': [('Integer', 1, [('prim', 'usize'), ('unknown', '')]), ('Sequence', 15, [('prim', 'usize'), ('unknown', '')])],
                          'BerObjectContent': [('Integer', 2, [('slice', ('prim', 'u8'))]), ('BitString', 3, [('prim', 'u8'), ('adt', 'x509_parser::der_parser::ber::BitStringObject', ())]),
                                               ('OctetString', 4, [('slice', ('prim', 'u8'))])],
                          'PublicKeyInfo': [('Rsa', 0, [('unknown', ''), ('unknown', '')]), ('EcP256', 1, [('unknown', '')]), ('EcP384', 2, [('unknown', '')])],
                          'AttestationStatement': [('None', 0, []), ('Packed', 1, [('adt', 'authenticator::ctap2::attestation::AttestationStatementPacked', ())])]
                          + [(n, i + 2, [('unknown', '')]) for i, n in enumerate(('FidoU2F', 'AndroidKey', 'AndroidSafetyNet', 'Apple', 'Tpm'))],
                          'AuthenticatorError': [('PinError', 10, [('adt', 'authenticator::errors::PinError', ())])] + [('E%d' % i, i, []) for i in range(14) if i != 10],
                          'PinError': [('PinRequired', 0, [])] + [('E%d' % i, i, []) for i in range(1, 11)],
                          'AlgorithmId': [('Rsa1024', 0, []), ('Rsa2048', 1, []), ('EccP256', 2, []), ('EccP384', 3, [])],
                          'Type': [(n, i, []) for i, n in enumerate(('Bool', 'Null', 'Undefined', 'U8', 'U16', 'U32', 'U64', 'I8', 'I16', 'I32', 'I64', 'F16'))]}

    def adt(self, path):
        """crate ADT full path for a type path as written in MIR or in the source"""
        p = path.replace(' ', '')
        if p.startswith('crate::'):
            p = p[7:]
        if p in self.crate.structs or p in self.crate.enums:
            return p
        s = last_seg(p)
        if '::' in p and p.split('::')[0] in ('std', 'core', 'alloc', 'ring', 'minicbor', 'chrono', 'x509_parser',
                                             'der_parser', 'io', 'string', 'base64', 'simple_asn1', 'num_bigint', 'yubikey', 'authenticator', 'rcgen'):
            return None
        c = self.crate.adt_short.get(s)
        if c and len(c) == 1:
            return c[0]
        if c and s == 'Error':
            return 'error::Error' if 'error::Error' in c else None
        return None

    def variants(self, ty):
        """[(name, discr, [field types])] for an enum type or None"""
        if ty[0] == 'ref':
            return self.variants(ty[2])
        if ty[0] != 'adt':
            return None
        s = last_seg(ty[1])
        full = self.adt(ty[1])
        if full in self.crate.enums:
            return [(v, d, [parse_type(tfix(t)) for _, t in fl]) for v, d, fl in self.crate.enums[full]]
        if s in BUILTIN_ENUMS:
            a = ty[2]
            if s == 'Option':
                return [('None', 0, []), ('Some', 1, [a[0] if a else ('unknown', '')])]
            if s == 'Result':
                ok = a[0] if a else ('unknown', '')
                er = a[1] if len(a) > 1 else ('adt', 'error::Error', ())
                return [('Ok', 0, [ok]), ('Err', 1, [er])]
            if s == 'ControlFlow':
                return [('Continue', 0, [a[1] if len(a) > 1 else ('tuple', ())]), ('Break', 1, [a[0]])]
            if s == 'Cow':
                return [('Borrowed', 0, [a[0]]), ('Owned', 1, [a[0]])]
            return [(v, d, []) for v, d, _ in BUILTIN_ENUMS[s]]
        if s in self.ext_enums:
            return self.ext_enums[s]
        return None


def tfix(t):
    """types as tokenised from the expanded source"""
    t = re.sub(r"'\s*\w+\s+", '', t)
    t = re.sub(r'\s*::\s*', '::', t)
    t = re.sub(r'\s*<\s*', '<', t)
    t = re.sub(r'\s*>', '>', t)
    t = re.sub(r'&\s+', '&', t)
    t = re.sub(r'\[\s*', '[', t)
    t = re.sub(r'\s*\]', ']', t)
    t = re.sub(r'\s*;\s*', '; ', t)
    return t.strip()


def is_str(ty):
    while ty[0] == 'ref':
        ty = ty[2]
    return ty == ('prim', 'str') or (ty[0] == 'adt' and last_seg(ty[1]) == 'String')


def is_u8(ty):
    return ty == ('prim', 'u8')


def is_bytes(ty):
    """is this a byte-string type (after references)?"""
    while ty[0] in ('ref',):
        ty = ty[2]
    if is_str(ty):
        return True
    if ty[0] == 'slice' and is_u8(ty[1]):
        return True
    if ty[0] == 'array' and is_u8(ty[1]):
        return True
    if ty[0] == 'adt' and last_seg(ty[1]) in ('Vec', 'Box', 'Cow') and ty[2] and (is_u8(ty[2][0]) or (last_seg(ty[1]) != 'Vec' and is_bytes(ty[2][0]))):
        return True
    return False


pI = Function('pI', U, IS)
pT = Function('pT', U, BS)
pB = Function('pB', U, B)
mI = Function('mI', IS, U)
mT = Function('mT', BS, U)
mB = Function('mB', B, U)
DISCR = Function('discr', U, IS)
NIL = z3.Const('nil', U)
PUSH = Function('push', U, U, U)
LENL = Function('lenl', U, IS)
ELEM = Function('elem', U, IS, U)

_fn_cache = {}


def ufn(name, *sorts):
    k = (name,) + tuple(s.name() for s in sorts)
    f = _fn_cache.get(k)
    if f is None:
        f = _fn_cache[k] = Function('%s/%s' % (name, ','.join(s.name() for s in sorts)), *sorts)
    return f


UNINIT = Opq(z3.Const('uninit', U))


class Frame:
    __slots__ = ('fn', 'l', 'id', 'loops', 'subst', 'shared')

    def __init__(self, fn, id_):
        self.fn = fn
        self.l = {}
        self.id = id_
        self.loops = {}


class LoopBack(Exception):
    pass


CALL_LIMIT = 60
UNROLL = 70       # iterations of a loop whose course is known
SYMROLL = 3       # iterations of a loop whose course depends on the input


class Ex:
    """the verifier: holds the crate, std contracts, function contracts and loop invariants"""

    def __init__(self, crate, std, log=None):
        self.crate = crate
        self.ty = Types(crate)
        self.std = std
        self.contracts = {}        # key -> Contract
        self.ext_fields = {}      # field names of structs of other crates, as aggregates give them
        self.see = set()           # specification functions a lemma opens
        self.status = {}           # key -> verified? (True/False/'busy')
        self.recs = []             # loop templates available in the current task
        self.log = log or (lambda *a: None)
        self.used_ext = {}         # external function -> count (assumed contracts)
        self.used_contracts = set()
        self.inlined = set()
        self.const_cache = {}

    # ------------------------------------------------------------ symbolic values by type

    def from_term(self, cx, t, ty, depth=0):
        while ty[0] == 'ref':
            ty = ty[2]
        k = ty[0]
        if k == 'prim':
            n = ty[1]
            if n in RANGES:
                v = pI(t)
                if cx.once(('rng', v.get_id(), n)):
                    lo, hi = RANGES[n]
                    cx.add(And(v >= lo, v <= hi))
                return v
            if n == 'bool':
                return pT(t)
        if is_bytes(ty):
            b = pB(t)
            cx.blen(b)
            if is_str(ty):
                cx.add(UTF8(b))
            if ty[0] == 'array' and ty[2].isdigit():
                cx.add(LEN(b) == int(ty[2]))
            return sym(b)
        if k == 'tuple':
            if not ty[1]:
                return UNIT
            return Tup([self.from_term(cx, ufn('tup%d' % i, U, U)(t), x, depth + 1) for i, x in enumerate(ty[1])])
        if k == 'adt':
            if last_seg(ty[1]) == 'Box' and ty[2]:
                return self.from_term(cx, t, ty[2][0], depth)
            full = self.ty.adt(ty[1])
            if full in self.crate.structs:
                fl = self.crate.structs[full]
                s = last_seg(full)
                v = Struct(s, [self.from_term(cx, ufn('%s.%s' % (s, n), U, U)(t), parse_type(tfix(ft)), depth + 1)
                               for n, ft in fl], org=t)
                if cx.once(('ext', t.get_id(), s)):
                    try:
                        cx.add(t == self.uterm(cx, Struct(s, v.f)))
                    except Unsupported:
                        pass
                return v
            if self.ty.variants(ty) is not None:
                self.discr(cx, SymE(ty, t))
                return SymE(ty, t)
            if last_seg(ty[1]) in ('Vec',):
                return VecL((), t, ty[2][0] if ty[2] else None)
        if k in ('slice', 'array'):
            return VecL((), t, ty[1])
        return Opq(t, ty)

    def fresh(self, cx, ty, hint='v'):
        while ty[0] == 'ref':
            ty = ty[2]
        if ty[0] == 'prim':
            if ty[1] in RANGES:
                lo, hi = RANGES[ty[1]]
                return cx.fint(hint, lo, hi)
            if ty[1] == 'bool':
                return cx.fbool(hint)
        if is_bytes(ty):
            s = cx.fseq(hint)
            t = s.p[0][1]
            if is_str(ty):
                cx.add(UTF8(t))
            if ty[0] == 'array' and ty[2].isdigit():
                cx.add(LEN(t) == int(ty[2]))
            return s
        return self.from_term(cx, cx.fu(hint), ty)

    def uterm(self, cx, v):
        if isinstance(v, bool):
            v = zb(v)
        if isinstance(v, z3.BoolRef):
            if z3.is_app(v) and v.decl().name() == 'pT':
                return v.arg(0)
            t = mT(v)
            if cx.once(('mT', t.get_id())):
                cx.add(pT(t) == v)
            return t
        if isinstance(v, int) or isinstance(v, z3.ArithRef):
            if isz(v) and z3.is_app(v) and v.decl().name() == 'pI':
                return v.arg(0)
            t = mI(zi(v))
            if cx.once(('mI', t.get_id())):
                cx.add(pI(t) == zi(v))
            return t
        if isinstance(v, Seq):
            b = bterm(cx, v)
            if z3.is_app(b) and b.decl().name() == 'pB':
                return b.arg(0)
            t = mB(b)
            if cx.once(('mB', t.get_id())):
                cx.add(pB(t) == b)
            return t
        if isinstance(v, (SymE, Opq)):
            return v.t
        if isinstance(v, Struct):
            if v.org is not None:
                return v.org
            args = [self.uterm(cx, x) for x in v.f]
            names = self.field_names(v.name, len(args))
            t = ufn('mk.' + v.name, *([U] * (len(args) + 1)))(*args) if args else z3.Const('mk.' + v.name, U)
            if cx.once(('mk', t.get_id())):
                for n, a in zip(names, args):
                    cx.add(ufn('%s.%s' % (v.name, n), U, U)(t) == a)
            return t
        if isinstance(v, Tup):
            args = [self.uterm(cx, x) for x in v.f]
            if not args:
                return z3.Const('unit', U)
            t = ufn('mktup', *([U] * (len(args) + 1)))(*args)
            if cx.once(('mk', t.get_id())):
                for i, a in enumerate(args):
                    cx.add(ufn('tup%d' % i, U, U)(t) == a)
            return t
        if isinstance(v, Enum):
            args = [self.uterm(cx, x) for x in v.f] if not (v.name == 'Result' and v.v == 'Err') else []
            nm = 'mk.%s.%s' % (v.name, v.v)
            t = ufn(nm, *([U] * (len(args) + 1)))(*args) if args else z3.Const(nm, U)
            if cx.once(('mk', t.get_id())):
                d = self.discr_of(v)
                if d is not None:
                    cx.add(DISCR(t) == d)
                for i, a in enumerate(args):
                    cx.add(ufn('%s.%s.%d' % (v.name, v.v, i), U, U)(t) == a)
            return t
        if isinstance(v, VecL):
            t = v.base if v.base is not None else NIL
            for e in v.el:
                t = self.push_term(cx, t, self.uterm(cx, e))
            return t
        if isinstance(v, It):
            return ufn('it.' + v.k, *([U] * (len(v.a) + 1)))(*[self.uterm(cx, a) if not isinstance(a, str) else z3.Const('s.' + a, U) for a in v.a]) if v.a else z3.Const('it.' + v.k, U)
        if isinstance(v, FnV):
            return z3.Const('fn.' + v.path, U)
        if isinstance(v, Clo):
            args = [self.uterm(cx, x) for x in v.caps]
            nm = 'clo.' + v.loc
            return ufn(nm, *([U] * (len(args) + 1)))(*args) if args else z3.Const(nm, U)
        raise Unsupported('no term for %r' % (v,))

    def push_term(self, cx, l, e):
        t = PUSH(l, e)
        if cx.once(('push', t.get_id())):
            cx.add(LENL(t) == LENL(l) + 1)
            cx.add(ELEM(t, LENL(l)) == e)
            cx.add(LENL(l) >= 0)
        if cx.once('nil'):
            cx.add(LENL(NIL) == 0)
        return t

    def lenl(self, cx, v):
        if v.base is None:
            return len(v.el)
        if cx.once(('lenl', v.base.get_id())):
            cx.add(And(LENL(v.base) >= 0, LENL(v.base) <= MAXLEN))
        return iadd(LENL(v.base), len(v.el))

    def elem(self, cx, v, i):
        """element i of a VecL, in range"""
        if v.base is None:
            if not isz(i):
                return v.el[i]
            for k in range(len(v.el)):
                if cx.branch(zb(ieq(i, k))):
                    return v.el[k]
            raise PathEnd()
        n = LENL(v.base)
        for k in range(len(v.el)):
            if cx.proves(zb(ieq(i, iadd(n, k)))):
                return v.el[k]
        if v.el and not cx.proves(zb(ilt(i, n))):
            t = self.uterm(cx, v)
            return self.from_term(cx, ELEM(t, zi(i)), v.ety or ('unknown', ''))
        base = v.base
        if z3.is_app(base) and base.decl().name().startswith('take/'):
            base = base.arg(0)
        x = self.from_term(cx, ELEM(base, zi(i)), v.ety or ('unknown', ''))
        h = self.elem_hooks.get(base.decl().name().split('/')[0]) if z3.is_app(base) else None
        if h is not None:
            h(self, cx, base, i, x)
        return x

    elem_hooks = {}

    def field_names(self, name, n):
        for full, fl in self.crate.structs.items():
            if last_seg(full) == name and len(fl) == n:
                return [a for a, _ in fl]
        return [str(i) for i in range(n)]

    def variant_arity(self, name, v):
        for tab in (BUILTIN_ENUMS.get(name), *[vs for full, vs in self.crate.enums.items() if last_seg(full) == name or full == name],
                    self.ty.ext_enums.get(name)):
            for n, _, a in tab or ():
                if n == v:
                    return a if isinstance(a, int) else len(a or ())
        return 0

    def enum_variants(self, name):
        if name in BUILTIN_ENUMS:
            return [(v, d) for v, d, _ in BUILTIN_ENUMS[name]]
        for full, vs in self.crate.enums.items():
            if last_seg(full) == name or full == name:
                return [(v, d) for v, d, _ in vs]
        if name in self.ty.ext_enums:
            return [(v, d) for v, d, _ in self.ty.ext_enums[name]]
        return None

    def discr_of(self, v):
        if v.name == 'Error':
            vs = None
            for full, e in self.crate.enums.items():
                if last_seg(full) == 'Error' and any(x[0] == v.v for x in e):
                    for n, d, _ in e:
                        if n == v.v:
                            return d
            return None
        vs = self.enum_variants(v.name)
        if vs:
            for n, d in vs:
                if n == v.v:
                    return d
        return None

    def discr(self, cx, v):
        """discriminant of an enum value as int expr"""
        if isinstance(v, Enum):
            d = self.discr_of(v)
            if d is None and v.name == 'Error' and v.v in ('ANY', 'ANYOTHER'):
                # some error: any variant (looking twice could give two answers, so such paths are not refutations)
                if v.v == 'ANYOTHER' or not cx.once(('anyerror', id(v))):
                    cx.weak = True
                cx.keep = getattr(cx, 'keep', []) + [v]
                return cx.fint('variant', 0, 63)
            if d is None:
                raise Unsupported('discriminant of %s::%s' % (v.name, v.v))
            return d
        if isinstance(v, SymE):
            d = DISCR(v.t)
            if cx.once(('dis', v.t.get_id())):
                cx.add(Or(*[d == x[1] for x in self.ty.variants(v.ty)]))
            return d
        if isinstance(v, Opq) and v.ty is not None:
            if self.ty.variants(v.ty) is not None:
                return self.discr(cx, SymE(v.ty, v.t))
            if cx.once(('dis', v.t.get_id())):
                cx.add(And(DISCR(v.t) >= -2**31, DISCR(v.t) < 2**31))
            return DISCR(v.t)
        raise Unsupported('discriminant of %r' % (v,))

    def expand(self, cx, v, want=None):
        """enum value with a known variant (branches when necessary)"""
        if isinstance(v, Enum):
            return v
        if isinstance(v, Opq) and v.ty is not None and self.ty.variants(v.ty) is not None:
            v = SymE(v.ty, v.t)
        if isinstance(v, SymE):
            d = self.discr(cx, v)
            vs = self.ty.variants(v.ty)
            name = self.enum_name(v.ty)
            for n, k, fts in vs:
                if want is not None and n != want:
                    continue
                if cx.branch(d == k, '%s is %s' % (str(v.t)[:40], n)):
                    e = Enum(name, n, [self.from_term(cx, ufn('%s.%s.%d' % (name, n, i), U, U)(v.t), ft)
                                       for i, ft in enumerate(fts)])
                    if cx.once(('ext', v.t.get_id(), n)):
                        try:
                            cx.add(v.t == self.uterm(cx, e))
                        except Unsupported:
                            pass
                    return e
            if want is not None:
                return None
            raise PathEnd()
        raise Unsupported('expand %r' % (v,))

    def enum_name(self, ty):
        while ty[0] == 'ref':
            ty = ty[2]
        return last_seg(ty[1])

    # ------------------------------------------------------------ equality

    def veq(self, cx, a, b):
        """formula: the two values are equal (error payloads are compared by class only)"""
        if isinstance(a, MRef):
            a = self.deref(cx, a)
        if isinstance(b, MRef):
            b = self.deref(cx, b)
        if isinstance(a, (bool, int, z3.ArithRef, z3.BoolRef)) and isinstance(b, (bool, int, z3.ArithRef, z3.BoolRef)):
            if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
                if isinstance(a, bool) and isinstance(b, bool):
                    return a == b
                return simp(zb(a) == zb(b))
            return ieq(a, b)
        if isinstance(a, Seq) and isinstance(b, Seq):
            return seq_eq(cx, a, b)
        if isinstance(a, Seq) and isinstance(b, Opq) or isinstance(a, Opq) and isinstance(b, Seq):
            return self.uterm(cx, a) == self.uterm(cx, b)
        if isinstance(a, Struct) and isinstance(b, Struct):
            if a.name != b.name or len(a.f) != len(b.f):
                return False
            if a.org is not None and b.org is not None and a.org.eq(b.org):
                return True
            return band(*[self.veq(cx, x, y) for x, y in zip(a.f, b.f)])
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.f) != len(b.f):
                return False
            return band(*[self.veq(cx, x, y) for x, y in zip(a.f, b.f)])
        if isinstance(a, Enum) and isinstance(b, Enum):
            if a.v != b.v:
                return False
            if a.name == 'Result' and a.v == 'Err':
                return self.err_eq(cx, a.f[0], b.f[0])
            return band(*[self.veq(cx, x, y) for x, y in zip(a.f, b.f)])
        if isinstance(b, Enum) and isinstance(a, (SymE, Opq)):
            a, b = b, a
        if isinstance(a, Enum) and isinstance(b, (SymE, Opq)):
            ty = b.ty
            d = self.discr_of(a)
            if ty is None or self.ty.variants(ty) is None:
                return self.uterm(cx, a) == b.t
            s = SymE(ty, b.t)
            cs = [self.discr(cx, s) == d]
            if a.name == 'Result' and a.v == 'Err':
                return cs[0]
            for n, k, fts in self.ty.variants(ty):
                if n == a.v:
                    for i, ft in enumerate(fts):
                        y = self.from_term(cx, ufn('%s.%s.%d' % (a.name, n, i), U, U)(b.t), ft)
                        cs.append(self.veq(cx, a.f[i], y))
            return band(*cs)
        if isinstance(a, (SymE, Opq)) and isinstance(b, (SymE, Opq)) and a.ty is not None and not a.t.eq(b.t):
            r = self.enum_eq(cx, a.ty, a.t, b.t)
            if r is not None:
                return r
        if isinstance(a, VecL) and isinstance(b, VecL):
            if a.base is None and b.base is None:
                if len(a.el) != len(b.el):
                    return False
                return band(*[self.veq(cx, x, y) for x, y in zip(a.el, b.el)])
            if a.base is not None and b.base is not None and a.base.eq(b.base) and len(a.el) == len(b.el):
                return band(*[self.veq(cx, x, y) for x, y in zip(a.el, b.el)])
            return self.uterm(cx, a) == self.uterm(cx, b)
        if isinstance(a, It) and isinstance(b, It):
            if a.k != b.k:
                return False
        if isinstance(a, Clo) and isinstance(b, Clo) and a.loc == b.loc:
            return band(*[self.veq(cx, x, y) for x, y in zip(a.caps, b.caps)])
        ta, tb = self.uterm(cx, a), self.uterm(cx, b)
        if ta.eq(tb):
            return True
        return ta == tb

    def enum_eq(self, cx, ty, x, y):
        """structural equality of two enum terms"""
        vs = self.ty.variants(ty)
        if vs is None:
            return None
        name = self.enum_name(ty)
        if name in ('Result', 'Error'):
            return None
        dx, dy = self.discr(cx, SymE(ty, x)), self.discr(cx, SymE(ty, y))
        cs = [dx == dy]
        for n, k, fts in vs:
            fe = []
            for i, ft in enumerate(fts):
                f = ufn('%s.%s.%d' % (name, n, i), U, U)
                fe.append(zb(self.veq(cx, self.from_term(cx, f(x), ft), self.from_term(cx, f(y), ft))))
            if fe:
                cs.append(Implies(dx == k, And(*fe)))
        return simp(And(*cs))

    def err_eq(self, cx, a, b):
        """errors: compared by class unless the specification pins the variant"""
        pin = self.pinned
        va = a.v if isinstance(a, Enum) else None
        vb = b.v if isinstance(b, Enum) else None
        if va == 'ANY' or vb == 'ANY' or not pin:
            return True
        for x, y, e in ((va, vb, b), (vb, va, a)):
            if x in pin and y is not None and y != x:
                return False
        return True

    pinned = ()

    # ------------------------------------------------------------ places

    def deref(self, cx, v):
        while isinstance(v, MRef):
            v = self.rd_path(cx, v.fr.l.get(v.loc, POISON), v.proj)
        return v

    def rd_path(self, cx, v, proj, frame=None):
        for pr in proj:
            k = pr[0]
            if k == 'deref':
                if isinstance(v, MRef):
                    v = self.rd_path(cx, v.fr.l.get(v.loc, POISON), v.proj)
                continue
            if isinstance(v, MRef):
                v = self.deref(cx, v)
            if v is POISON or v is None:
                raise Unsupported('read of a variable that is not known here')
            if k == 'field':
                v = self.rd_field(cx, v, pr[1], pr[2])
            elif k == 'downcast':
                if isinstance(v, Enum):
                    if isinstance(pr[1], str) and v.v != pr[1]:
                        raise PathEnd()
                else:
                    v = self.expand(cx, v, pr[1] if isinstance(pr[1], str) else None)
                    if v is None:
                        raise PathEnd()
            elif k == 'index':
                i = frame.l[pr[1]] if frame is not None and not isinstance(pr[1], tuple) else pr[1][1]
                v = self.rd_index(cx, v, i)
            elif k == 'idx':
                v = self.rd_index(cx, v, pr[1])
            elif k == 'cindex':
                i = pr[1]
                n = self.vlen(cx, v)
                if i < 0:
                    i = isub(n, -i)
                v = self.rd_index(cx, v, i)
            elif k == 'subslice':
                a = pr[1]
                n = self.vlen(cx, v)
                e = pr[2]
                if e == '':
                    end = n
                elif e.startswith('-'):
                    end = isub(n, int(e[1:]))
                else:
                    end = int(e)
                if isinstance(v, Seq):
                    v = sub(cx, v, a, end)
                elif isinstance(v, VecL) and v.base is None:
                    v = VecL(v.el[a:end], None, v.ety)
                else:
                    raise Unsupported('subslice of list')
            elif k == 'range':
                v = sub(cx, v, pr[1], pr[2])
            else:
                raise Unsupported('projection ' + k)
        return v

    def rd_field(self, cx, v, i, tytext=None):
        if isinstance(v, (Struct, Tup, Enum)):
            if i >= len(v.f):
                if isinstance(v, Struct) and len(v.f) == 0:
                    raise Unsupported('field of opaque struct')
                raise Unsupported('field %d of %r' % (i, v))
            return v.f[i]
        if isinstance(v, Clo):
            return v.caps[i]
        if isinstance(v, (Opq, SymE)):
            ty = parse_type(tytext) if tytext else ('unknown', '')
            nm = 'fld%d' % i
            if isinstance(v, Opq) and v.ty is not None and v.ty[0] == 'adt':
                nm = '%s.%d' % (last_seg(v.ty[1]), i)
            return self.from_term(cx, ufn(nm, U, U)(v.t), ty)
        if isinstance(v, Seq) and i == 0:
            return v      # Unique/NonNull wrappers around boxed bytes
        if isinstance(v, (VecL, It)) and i == 0:
            return v
        raise Unsupported('field %d of %r' % (i, v))

    def vlen(self, cx, v):
        if isinstance(v, MRef):
            v = self.deref(cx, v)
        if isinstance(v, Seq):
            return slen(v)
        if isinstance(v, VecL):
            return self.lenl(cx, v)
        raise Unsupported('len of %r' % (v,))

    def rd_index(self, cx, v, i):
        if isinstance(v, Seq):
            return at(cx, v, i)
        if isinstance(v, VecL):
            return self.elem(cx, v, i)
        raise Unsupported('index of %r' % (v,))

    def place_proj(self, cx, fr, place):
        """resolve index locals now"""
        out = []
        for pr in place.proj:
            if pr[0] == 'index':
                out.append(('idx', fr.l[pr[1]]))
            else:
                out.append(pr)
        return tuple(out)

    def read(self, cx, fr, place):
        v = fr.l.get(place.local, POISON)
        if place.proj:
            v = self.rd_path(cx, v, place.proj, fr)
        if v is POISON:
            raise Unsupported('read of unknown variable %s in %s' % (place, fr.fn.key))
        return v

    def write(self, cx, fr, place, val):
        self.write_path(cx, fr, place.local, self.place_proj(cx, fr, place), val)

    def write_path(self, cx, fr, local, proj, val):
        # follow MRefs: find the last deref that crosses a reference
        base = fr.l.get(local, POISON)
        for k, pr in enumerate(proj):
            if pr[0] == 'deref':
                v = self.rd_path(cx, base, proj[:k])
                if isinstance(v, MRef):
                    self.write_path(cx, v.fr, v.loc, v.proj + tuple(proj[k + 1:]), val)
                    return
        fr.l[local] = self.upd(cx, base, list(proj), val)

    def upd(self, cx, v, proj, val):
        while proj and proj[0][0] == 'deref':
            proj = proj[1:]
        if not proj:
            return val
        if isinstance(v, MRef):
            self.write_path(cx, v.fr, v.loc, v.proj + tuple(proj), val)
            return v
        pr = proj[0]
        k = pr[0]
        if k == 'field':
            i = pr[1]
            if v is UNINIT and all(q[0] == 'field' for q in proj):
                return val      # through MaybeUninit and ManuallyDrop to the value itself
            if v is POISON or v is None:
                raise Unsupported('partial initialisation')
            if isinstance(v, Struct):
                f = list(v.f)
                f[i] = self.upd(cx, f[i], proj[1:], val)
                return Struct(v.name, f)
            if isinstance(v, Tup):
                f = list(v.f)
                f[i] = self.upd(cx, f[i], proj[1:], val)
                return Tup(f)
            if isinstance(v, Enum):
                f = list(v.f)
                f[i] = self.upd(cx, f[i], proj[1:], val)
                return Enum(v.name, v.v, f)
            if isinstance(v, Clo):
                f = list(v.caps)
                f[i] = self.upd(cx, f[i], proj[1:], val)
                return Clo(v.loc, f)
        if k == 'downcast':
            e = self.expand(cx, v)
            return self.upd(cx, e, proj[1:], val)
        if k in ('idx', 'cindex'):
            i = pr[1]
            if isinstance(v, Seq):
                n = slen(v)
                if k == 'cindex' and i < 0:
                    i = isub(n, -i)
                return cat(sub(cx, v, 0, i), be(1, val), sub(cx, v, iadd(i, 1), n))
            if isinstance(v, VecL) and v.base is None and not isz(i):
                el = list(v.el)
                el[i] = self.upd(cx, el[i], proj[1:], val)
                return VecL(el, None, v.ety)
        if k == 'range' and isinstance(v, Seq):
            old = sub(cx, v, pr[1], pr[2])
            new = self.upd(cx, old, proj[1:], val)
            return cat(sub(cx, v, 0, pr[1]), new, sub(cx, v, pr[2], slen(v)))
        raise Unsupported('write through %r of %r' % (pr, type(v).__name__))

    # mutable reference to a place
    def mref(self, cx, fr, place):
        proj = self.place_proj(cx, fr, place)
        base = fr.l.get(place.local, POISON)
        for k in range(len(proj) - 1, -1, -1):
            if proj[k][0] == 'deref':
                v = self.rd_path(cx, base, proj[:k])
                if isinstance(v, MRef):
                    return MRef(v.fr, v.loc, v.proj + tuple(proj[k + 1:]))
        return MRef(fr, place.local, [p for p in proj if p[0] != 'deref'])

    def wr(self, cx, m, val):
        """write through a &mut"""
        if not isinstance(m, MRef):
            raise Unsupported('write through %r' % (m,))
        self.write_path(cx, m.fr, m.loc, m.proj, val)

    # ------------------------------------------------------------ place types

    def ptype(self, fr, place):
        t = parse_type(fr.fn.locals.get(place.local, '()'))
        for pr in place.proj:
            if pr[0] == 'deref':
                if t[0] in ('ref',):
                    t = t[2]
                elif t[0] == 'ptr':
                    t = t[1]
                elif t[0] == 'adt' and last_seg(t[1]) == 'Box' and t[2]:
                    t = t[2][0]
            elif pr[0] == 'field':
                t = parse_type(pr[2])
            elif pr[0] in ('index', 'cindex'):
                t = t[1] if t[0] in ('slice', 'array') else ('unknown', '')
        return t

    # ------------------------------------------------------------ constants

    def const(self, cx, fr, text):
        text = text.strip()
        m = re.match(r'^(-?\d+)_([iu](?:8|16|32|64|128|size))$', text)
        if m:
            return int(m.group(1))
        if text == 'true':
            return True
        if text == 'false':
            return False
        if text == '()':
            return UNIT
        if text.startswith('"'):
            return lit(rust_str(text))
        if text.startswith('b"'):
            return lit(rust_bytes(text[1:]))
        if text.startswith("'"):
            return ord(rust_char(text))
        m = re.match(r"^\{(alloc\d+): (.*)\}$", text)
        if m:
            a = self.crate.allocs.get(m.group(1))
            if a and a[0]:
                return Opq(z3.Const('static.' + last_seg(a[0]), U), ('unknown', a[0]))
            raise Unsupported('allocation ' + text)
        if text.startswith('ZeroSized: ') or text.startswith('<ZST>'):
            return UNIT
        m = re.match(r'^(.*)::promoted\[(\d+)\]$', text)
        if m or True:
            f = self.find_const(text)
            if f is not None:
                key = f.name
                if key not in self.const_cache:
                    self.const_cache[key] = self.run_const(cx, f)
                return self.const_cache[key]
        if text.startswith('{closure@'):
            return Clo(text[1:-1], ())
        st = self.crate.statics.get(self.crate.def_key(text)) if '::' in text or re.match(r'^\w+$', text) else None
        if st is not None:
            st = st.strip()
            return self.const(cx, fr, st[6:] if st.startswith('const ') else st)
        m = re.match(r'^(?:[\w:]*::)?([iu](?:8|16|32|64|size))::(MAX|MIN)$|^<impl ([iu]\w+)>::(MAX|MIN)$', text)
        if m:
            t = m.group(1) or m.group(3)
            return RANGES[t][1 if (m.group(2) or m.group(4)) == 'MAX' else 0]
        mm = re.search(r'<impl ([iu](?:8|16|32|64|128|size))>::(MAX|MIN|BITS)$', text)
        if mm:
            t = mm.group(1)
            if mm.group(2) == 'BITS':
                return RANGES[t][1].bit_length()
            return RANGES[t][1 if mm.group(2) == 'MAX' else 0]
        # unit enum variant or fn item
        v = self.unit_variant(text)
        if v is not None:
            return v
        mm = re.match(r'^(.*?)(?: as [^()]*)? \{\{? .*\}\}?$', text)
        if re.match(r'^[<\w]', text):
            return FnV(text)
        raise Unsupported('constant ' + text[:80])

    def unit_variant(self, text):
        p = strip_generics(text)
        segs = p.split('::')
        if len(segs) >= 2:
            en = segs[-2]
            vs = self.enum_variants(en)
            if vs and any(n == segs[-1] for n, _ in vs) and not self.variant_arity(en, segs[-1]):
                return Enum(en, segs[-1], ())
        return None

    def find_const(self, text):
        k = self.crate.def_key(text) if '<impl at' in text else None
        for key in (k, text, strip_generics(text), self.crate.call_key(text)):
            if key and key in self.crate.consts:
                return self.crate.consts[key]
        # promoted of inherent methods: Type::method::promoted[i]
        ck = self.crate.call_key(text)
        if ck:
            segs = ck.split('::')
            for n in (2, 3, 4):
                if len(segs) >= n and '::'.join(segs[-n:]) in self.crate.consts:
                    return self.crate.consts['::'.join(segs[-n:])]
        return None

    def run_const(self, cx, f):
        return self.run_body(cx, f, [])

    def operand(self, cx, fr, op):
        if op[0] == 'place':
            return self.read(cx, fr, op[1])
        return self.const(cx, fr, op[1])

    def optype(self, fr, op):
        if op[0] == 'place':
            return self.ptype(fr, op[1])
        m = re.match(r'^-?\d+_([iu](?:8|16|32|64|128|size))$', op[1])
        if m:
            return ('prim', m.group(1))
        if op[1] in ('true', 'false'):
            return ('prim', 'bool')
        if op[1].startswith("'"):
            return ('prim', 'char')
        return ('unknown', '')

    # ------------------------------------------------------------ rvalues

    def rvalue(self, cx, fr, rv, dest):
        k = rv[0]
        if k == 'use':
            return self.operand(cx, fr, rv[1])
        if k == 'ref':
            if rv[1]:
                return self.mref(cx, fr, rv[2])
            if len(rv[2].proj) == 1 and rv[2].proj[0][0] == 'deref':
                b = fr.l.get(rv[2].local)
                if isinstance(b, MRef) and b.fr.fn is None and getattr(b.fr, 'shared', False):
                    return b      # a cell that can change behind shared references
            v = self.read(cx, fr, rv[2])
            return v
        if k == 'rawref':
            return self.mref(cx, fr, rv[1])
        if k == 'cast':
            return self.cast(cx, fr, rv)
        if k == 'binop':
            return self.binop(cx, fr, rv[1], rv[2], rv[3], dest)
        if k == 'unop':
            v = self.operand(cx, fr, rv[2])
            if rv[1] == 'Not':
                if isinstance(v, (bool, z3.BoolRef)):
                    return bnot(v)
                t = self.optype(fr, rv[2])
                lo, hi = RANGES[t[1]]
                return isub(hi, v) if lo == 0 else isub(-1, v)
            if rv[1] == 'Neg':
                return isub(0, v)
            if rv[1] in ('PtrMetadata', 'Len'):
                return self.vlen(cx, v)
            if rv[1] == 'CopyForDeref':
                return v
            raise Unsupported('unop ' + rv[1])
        if k == 'discriminant':
            v = self.read(cx, fr, rv[1])
            if isinstance(v, MRef):
                v = self.deref(cx, v)
            return self.discr(cx, v)
        if k == 'array':
            els = [self.operand(cx, fr, o) for o in rv[1]]
            t = self.ptype(fr, dest)
            if t[0] == 'array' and is_u8(t[1]) or (t[0] == 'unknown' and rv[1] and self.optype(fr, rv[1][0]) == ('prim', 'u8')):
                return cat(*[be(1, e) for e in els])
            return VecL(els, None, t[1] if t[0] in ('array', 'slice') else None)
        if k == 'repeat':
            v = self.operand(cx, fr, rv[1])
            n = rv[2]
            n = self.array_len(cx, fr, n)
            if self.optype(fr, rv[1]) == ('prim', 'u8'):
                return Seq(norm([('rep', v, n)]))
            if isinstance(n, int) and n <= 64:
                return VecL([v] * n)
            raise Unsupported('array repeat')
        if k == 'tuple':
            return Tup([self.operand(cx, fr, o) for o in rv[1]])
        if k == 'closure':
            return Clo(rv[1], [self.operand(cx, fr, o) for o in rv[2]])
        if k == 'adt':
            return self.aggregate(cx, fr, rv, dest)
        raise Unsupported('rvalue ' + k)

    def array_len(self, cx, fr, n):
        n = n.strip()
        m = re.match(r'^(\d+)(_usize)?$', n)
        if m:
            return int(m.group(1))
        if n.startswith('const '):
            n = n[6:]
        v = self.const(cx, fr, n)
        if isinstance(v, int):
            return v
        raise Unsupported('array length ' + n)

    def aggregate(self, cx, fr, rv, dest):
        path, fields = rv[1], rv[2]
        vals = [self.operand(cx, fr, o) for _, o in fields]
        p = strip_generics(path)
        segs = p.split('::')
        # enum variant?
        if len(segs) >= 2:
            en = segs[-2]
            full = '::'.join(segs[:-1])
            vs = None
            cf = self.ty.adt(full)
            if cf in self.crate.enums:
                vs = self.crate.enums[cf]
                names = {v: fl for v, d, fl in vs}
                if segs[-1] in names:
                    fl = names[segs[-1]]
                    if rv[3] == 'named':
                        by = {n: v for (n, _), v in zip(fields, vals)}
                        vals = [by[n] for n, _ in fl]
                    return Enum(en, segs[-1], vals)
            elif en in BUILTIN_ENUMS and any(v == segs[-1] for v, _, _ in BUILTIN_ENUMS[en]):
                return Enum(en, segs[-1], vals)
            elif en in self.ty.ext_enums:
                return Enum(en, segs[-1], vals)
        cf = self.ty.adt(p)
        if cf in self.crate.structs:
            if rv[3] == 'named':
                by = {n: v for (n, _), v in zip(fields, vals)}
                vals = [by[n] for n, _ in self.crate.structs[cf]]
            return Struct(last_seg(cf), vals)
        if rv[3] == 'named':
            self.ext_fields[segs[-1]] = [n for n, _ in fields]
        return Struct(segs[-1], vals)

    def cast(self, cx, fr, rv):
        kind, op, tytext = rv[1], rv[2], rv[3]
        if kind.startswith('BoxDerefTransmute') and len(op) > 1 and hasattr(op[1], 'proj') and op[1].proj and op[1].proj[-1][0] == 'field':
            b = fr.l.get(op[1].local, POISON)
            for_ = op[1].proj[:-1]
            v = self.rd_path(cx, b, for_, fr) if for_ else b
            if isinstance(v, MRef):
                return v
        v = self.operand(cx, fr, op)
        if kind.startswith(('PointerCoercion', 'PtrToPtr', 'Transmute', 'Subtype', 'BoxDerefTransmute', 'PointerExposeProvenance')):
            if kind.startswith('Transmute'):
                src = self.optype(fr, op)
                dst = parse_type(tytext)
                if src[0] == 'prim' and src[1] in RANGES and dst != src and not (src[1] in ('u32',) and dst == ('prim', 'char')):
                    raise Unsupported('transmute')
            return v
        if kind.startswith('IntToInt'):
            dst = parse_type(tytext)
            if isinstance(v, (bool, z3.BoolRef)):
                return zi(v) if isz(v) else int(v)
            if isinstance(v, (Enum, SymE, Opq)):
                v = self.discr(cx, v)
            n = dst[1]
            lo, hi = RANGES[n]
            if not isz(v):
                if lo <= v <= hi:
                    return v
                w = (hi - lo + 1)
                v = v % w
                return v - w if v > hi else v
            src = self.optype(fr, op)
            if src[0] == 'prim' and src[1] in RANGES:
                slo, shi = RANGES[src[1]]
                if slo >= lo and shi <= hi:
                    return v
            if cx.proves(And(v >= lo, v <= hi)):
                return v
            w = hi - lo + 1
            if lo == 0:
                return simp(v % w)
            return simp(If(v % w > hi, v % w - w, v % w))
        raise Unsupported('cast ' + kind)

    def binop(self, cx, fr, op, oa, ob, dest):
        a = self.operand(cx, fr, oa)
        b = self.operand(cx, fr, ob)
        return self.arith(cx, op, a, b, lambda: self.optype(fr, oa), lambda: self.optype(fr, ob))

    def arith(self, cx, op, a, b, tya, tyb=None):
        if op in ('Eq', 'Ne'):
            f = self.veq(cx, a, b)
            return f if op == 'Eq' else bnot(f)
        if op == 'Cmp':
            a, b = zi(a), zi(b)
            if cx.branch(a < b):
                return Enum('Ordering', 'Less')
            if cx.branch(a == b):
                return Enum('Ordering', 'Equal')
            return Enum('Ordering', 'Greater')
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            if isinstance(a, (bool, z3.BoolRef)):
                a, b = zi(a), zi(b)
            if not isz(a) and not isz(b):
                return {'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[op]
            if not isinstance(a, (int, z3.ArithRef)) or not isinstance(b, (int, z3.ArithRef)):
                raise Unsupported('comparison')
            a, b = zi(a), zi(b)
            return simp({'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[op])
        if op.endswith('WithOverflow'):
            t = tya()
            if t[0] != 'prim':
                t = tyb()
            lo, hi = RANGES[t[1]]
            r = {'A': iadd, 'S': isub, 'M': imul}[op[0]](a, b)
            if isz(r):
                ov = simp(Or(r < lo, r > hi))
            else:
                ov = not (lo <= r <= hi)
                if ov:
                    r = (r - lo) % (hi - lo + 1) + lo
            return Tup((r, ov))
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            t = tya()
            lo, hi = RANGES[t[1]]
            r = {'A': iadd, 'S': isub, 'M': imul}[op[0]](a, b)
            return self.wrap(cx, r, lo, hi)
        if op in ('Div', 'Rem'):
            if not isz(a) and not isz(b):
                if a >= 0 and b > 0:
                    return a // b if op == 'Div' else a % b
            t = tya()
            if RANGES[t[1]][0] == 0:
                return simp(zi(a) / zi(b)) if op == 'Div' else simp(zi(a) % zi(b))
            raise Unsupported('signed division')
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if isinstance(a, (bool, z3.BoolRef)):
                if op == 'BitAnd':
                    return simp(And(zb(a), zb(b))) if isz(a) or isz(b) else a and b
                if op == 'BitOr':
                    return simp(Or(zb(a), zb(b))) if isz(a) or isz(b) else a or b
                return simp(zb(a) != zb(b))
            if not isz(a) and not isz(b):
                return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[op]
            return self.bitop(cx, op, a, b, tya)
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            t = tya()
            lo, hi = RANGES[t[1]]
            if isz(b):
                raise Unsupported('shift by a variable amount')
            if op.startswith('Shl'):
                r = imul(a, 1 << b)
                return self.wrap(cx, r, lo, hi)
            return simp(zi(a) / (1 << b)) if isz(a) else a >> b
        raise Unsupported('binop ' + op)

    def wrap(self, cx, r, lo, hi):
        if not isz(r):
            return (r - lo) % (hi - lo + 1) + lo
        if cx.proves(And(r >= lo, r <= hi)):
            return r
        w = hi - lo + 1
        if lo == 0:
            return simp(r % w)
        return simp((r - lo) % w + lo)

    def bitop(self, cx, op, a, b, tya):
        if isz(b) and not isz(a):
            a, b = b, a
        t = tya()
        lo, hi = RANGES[t[1]] if t[0] == 'prim' and t[1] in RANGES else (0, 255)
        if lo != 0:
            raise Unsupported('signed bit operation')
        if not isz(b):
            if op == 'BitAnd':
                # runs of ones
                r = 0
                k = 0
                while (b >> k):
                    if (b >> k) & 1:
                        j = k
                        while (b >> j) & 1:
                            j += 1
                        r = iadd(r, imul(simp((zi(a) / (1 << k)) % (1 << (j - k))), 1 << k))
                        k = j
                    else:
                        k += 1
                return r
            if op == 'BitOr' and b == 0:
                return a
            if op == 'BitOr':
                x = self.bitop(cx, 'BitAnd', a, b, tya)
                return isub(iadd(a, b), x)
            if op == 'BitXor':
                x = self.bitop(cx, 'BitAnd', a, b, tya)
                return isub(iadd(a, b), imul(2, x))
        if op in ('BitOr', 'BitXor'):
            for x, y in ((a, b), (b, a)):
                for k in (8, 16, 24, 32, 40, 48, 56):
                    if cx.proves(And(zi(y) < (1 << k), zi(y) >= 0, zi(x) % (1 << k) == 0)):
                        return iadd(x, y)
        raise Unsupported('bit operation on two variables')

    # ------------------------------------------------------------ execution

    def run_body(self, cx, fn, args):
        cx.depth += 1
        if cx.depth > CALL_LIMIT:
            raise Unsupported('call depth')
        cx.frames += 1
        fr = Frame(fn, cx.frames)
        for (l, _), v in zip(fn.params, args):
            fr.l[l] = v
        try:
            return self.run_blocks(cx, fr)
        finally:
            cx.depth -= 1

    def run_blocks(self, cx, fr):
        fn = fr.fn
        loops = fn.loops()
        bb = 0
        steps = 0
        while True:
            steps += 1
            if steps > 20000:
                raise Unsupported('too many steps')
            while cx.openloops and cx.openloops[-1][0] is fr and bb not in cx.openloops[-1][1]:
                if cx.forks > cx.openloops.pop()[2]:
                    cx.symrolled = True     # left a loop followed only so far
            if bb in loops:
                self.at_loop_head(cx, fr, bb, loops[bb])
            stmts, term = fn.block(bb)
            for st in stmts:
                if st[0] == 'assign':
                    dest = st[1]
                    v = self.rvalue(cx, fr, st[2], dest)
                    self.write(cx, fr, dest, v)
                elif st[0] == 'setdiscr':
                    raise Unsupported('set discriminant')
            k = term[0]
            if k == 'goto':
                bb = term[1]
            elif k == 'return':
                return fr.l.get(0, UNIT)
            elif k == 'switch':
                bb = self.switch(cx, fr, term)
            elif k == 'drop':
                self.on_drop(cx, fr, term[1])
                bb = term[2]
            elif k == 'assert':
                c = self.operand(cx, fr, term[1])
                if term[2]:
                    c = bnot(c)
                self.no_panic(cx, c, term[3].strip('"')[:60] or 'assertion', fn)
                bb = term[4]
            elif k == 'call':
                dest, callee, aops, ret = term[1], term[2], term[3], term[4]
                if callee.startswith(('move _', 'copy _')):
                    from mirparse import parse_operand
                    f = self.operand(cx, fr, parse_operand(callee))
                    args = [self.operand(cx, fr, a) for a in aops]
                    v = self.call_value(cx, f, args)
                else:
                    args = [self.operand(cx, fr, a) for a in aops]
                    v = self.call(cx, callee, args, self.ptype(fr, dest), [self.optype(fr, a) for a in aops], fr)
                if ret is None:
                    raise PathEnd()
                self.write(cx, fr, dest, v)
                bb = ret
            elif k == 'unreachable':
                raise PathEnd()
            else:
                raise Unsupported('terminator ' + k)

    def on_drop(self, cx, fr, place):
        h = getattr(cx, 'drop_hook', None)
        if h is not None:
            h(cx, fr, place)

    def no_panic(self, cx, c, what, fn):
        cx.oblige(c if not isinstance(c, bool) else c, 'no panic in %s: %s' % (fn.key if fn else '?', what))

    def switch(self, cx, fr, term):
        v = self.operand(cx, fr, term[1])
        cases, other = term[2], term[3]
        if isinstance(v, (bool, z3.BoolRef)):
            tgt = {}
            for k, t in cases:
                tgt[k] = t
            ft = tgt.get(0, other)
            tt = tgt.get(1, other)
            return tt if cx.branch(v, str(v)[:90] if isz(v) else '') else ft
        if not isz(v):
            for k, t in cases:
                if k == v or (v < 0 and k == v % (1 << 128)) or (k > (1 << 63) and k - (1 << 64) == v):
                    return t
            if other is None:
                raise PathEnd()
            return other
        for k, t in cases:
            ty = self.optype(fr, term[1])
            kk = k
            if ty[0] == 'prim' and ty[1] in RANGES and k > RANGES[ty[1]][1]:
                kk = k - (RANGES[ty[1]][1] * 2 + 2)
            if cx.branch(zi(v) == kk, '%s == %d' % (str(v)[:60], kk)):
                return t
        if other is None:
            raise PathEnd()
        return other

    # ------------------------------------------------------------ loops

    def at_loop_head(self, cx, fr, h, body):
        st = fr.loops.get(h)
        if st is not None and st[0] == 'cut':
            # back edge of a loop proved by invariant
            st[1].back(self, cx, fr)
            raise PathEnd()
        if st is None or st[0] == 'out':
            for T in self.recs:
                inst = T.match(self, cx, fr, h, body)
                if inst is not None:
                    fr.loops[h] = ('cut', inst)
                    inst.enter(self, cx, fr)
                    return
            if self.fixed_count(cx, fr, h, body):
                fr.loops[h] = ('unroll', 1, None, cx.forks)
                return
            fr.loops[h] = ('unroll', 1, 0, cx.forks)
            cx.unrolled = True
            cx.openloops.append((fr, body, cx.forks))
            return
        n = st[1] + 1
        if st[2] is None:
            # the iterator of this loop ends after a number of steps the source fixes
            if n > UNROLL:
                raise Unsupported('loop in %s has no invariant' % fr.fn.key)
            fr.loops[h] = ('unroll', n, None, cx.forks)
            return
        m = st[2] + (cx.forks > st[3])
        if n > UNROLL or m > SYMROLL + (cx.run.refute is not None):
            if cx.run.refute is not None:
                raise PathEnd()
            raise Unsupported('loop in %s has no invariant' % fr.fn.key)
        fr.loops[h] = ('unroll', n, m, cx.forks)

    def fixed_count(self, cx, fr, h, body):
        import recs
        for f, l, live in recs.loop_vars(self, cx, fr, h, body):
            v = f.l.get(l)
            if live and isinstance(v, It):
                if v.k == 'range' and not isz(v.a[0]) and not isz(v.a[1]) and v.a[1] - v.a[0] <= 64:
                    return True
                if v.k == 'range' and cx.proves(zi(v.a[1]) - zi(v.a[0]) <= 16):
                    return True
        return False

    def modified(self, cx, fr, body):
        """locals (and &mut targets) that the loop body may change"""
        fn = fr.fn
        roots = []
        for b in body:
            stmts, term = fn.block(b)
            for s in stmts:
                if s[0] == 'assign':
                    roots.append(s[1])
                    if s[2][0] == 'ref' and s[2][1]:
                        roots.append(s[2][2])
                    if s[2][0] == 'rawref':
                        roots.append(s[2][1])
            if term[0] == 'call':
                roots.append(term[1])
            if term[0] == 'drop':
                pass
        used = set()
        for b in body:
            stmts, term = fn.block(b)
            used |= used_locals(stmts, term)
        out = {}
        for p in roots:
            out[(fr, p.local)] = True
        # targets of live &mut values used in the loop
        for l in used:
            v = fr.l.get(l)
            for m in find_mrefs(v):
                out[(m.fr, m.loc)] = True
        return list(out)

    # ------------------------------------------------------------ calls

    def call(self, cx, callee, args, rty, atys, fr=None):
        fn = self.crate.lookup(callee)
        if fn is None and callee.startswith('<'):
            # ne from eq
            m = re.match(r'^<(.*) as std::cmp::PartialEq(<.*>)?>::ne$', callee)
            if m:
                fe = self.crate.lookup(callee[:-2] + 'eq')
                if fe is not None:
                    return bnot(self.call_fn(cx, fe, args))
            g = self.crate.lookup_generic(callee) if hasattr(self.crate, 'lookup_generic') else None
        if fn is not None:
            return self.call_fn(cx, self.instance(fn, callee), args)
        return self.std.call(self, cx, callee, args, rty, atys, fr)

    def instance(self, fn, callee):
        try:
            return self.crate.instantiate(fn, callee)
        except ParseError as e:
            raise Unsupported(str(e))

    def call_fn(self, cx, fn, args):
        c = self.contracts.get(fn.key)
        if c is not None and self.usable(fn.key):
            self.used_contracts.add(fn.key)
            return c.apply(self, cx, args)
        self.inlined.add(fn.key)
        return self.run_body(cx, fn, args)

    current = None
    opaque = True

    def usable(self, key):
        return key != self.current and self.status.get(key) is True and not self.contracts[key].inline

    def call_value(self, cx, f, args):
        """call a closure or function value"""
        if isinstance(f, MRef):
            f2 = self.deref(cx, f)
            if isinstance(f2, Clo):
                body = self.crate.closures.get(f2.loc)
                if body is None:
                    raise Unsupported('closure ' + f2.loc)
                return self.run_body(cx, body, [f if body.params and body.params[0][1].startswith('&mut') else f2] + self.spread(body, args))
            f = f2
        if isinstance(f, Clo):
            body = self.crate.closures.get(f.loc)
            if body is None:
                raise Unsupported('closure ' + f.loc)
            self_arg = f
            if body.params and body.params[0][1].startswith('&mut'):
                cx.frames += 1
                cell = Frame(body, cx.frames)
                cell.l[0] = f
                self_arg = MRef(cell, 0)
            return self.run_body(cx, body, [self_arg] + self.spread(body, args))
        if isinstance(f, FnV):
            fn = self.crate.lookup(f.path)
            if fn is not None:
                return self.call_fn(cx, self.instance(fn, f.path), args)
            v = self.ctor(f.path, args)
            if v is not None:
                return v
            return self.std.call(self, cx, f.path, args, ('unknown', ''), [('unknown', '')] * len(args), None)
        raise Unsupported('call of %r' % (f,))

    def spread(self, body, args):
        return list(args)

    def ctor(self, path, args):
        p = strip_generics(path)
        segs = p.split('::')
        if len(segs) >= 2:
            cf = self.ty.adt('::'.join(segs[:-1]))
            if cf in self.crate.enums and any(v == segs[-1] for v, _, _ in self.crate.enums[cf]):
                return Enum(segs[-2], segs[-1], args)
            if segs[-2] in BUILTIN_ENUMS and any(v == segs[-1] for v, _, _ in BUILTIN_ENUMS[segs[-2]]):
                return Enum(segs[-2], segs[-1], args)
        cf = self.ty.adt(p)
        if cf in self.crate.structs:
            return Struct(last_seg(cf), args)
        return None


def find_mrefs(v, depth=0):
    if isinstance(v, MRef):
        yield v
        if depth < 4:
            t = v.fr.l.get(v.loc)
            yield from find_mrefs(t, depth + 1)
    elif isinstance(v, (Struct, Tup, Enum)):
        for x in v.f:
            yield from find_mrefs(x, depth)
    elif isinstance(v, Clo):
        for x in v.caps:
            yield from find_mrefs(x, depth)
    elif isinstance(v, It):
        for x in v.a:
            yield from find_mrefs(x, depth)


def _op_locals(o, out):
    if o and o[0] == 'place':
        _place_locals(o[1], out)


def _place_locals(p, out):
    out.add(p.local)
    for pr in p.proj:
        if pr[0] == 'index':
            out.add(pr[1])


def used_locals(stmts, term):
    out = set()
    for s in stmts:
        if s[0] != 'assign':
            continue
        _place_locals(s[1], out)
        rv = s[2]
        k = rv[0]
        if k in ('use',):
            _op_locals(rv[1], out)
        elif k == 'ref':
            _place_locals(rv[2], out)
        elif k == 'rawref':
            _place_locals(rv[1], out)
        elif k == 'cast':
            _op_locals(rv[2], out)
        elif k == 'binop':
            _op_locals(rv[2], out)
            _op_locals(rv[3], out)
        elif k == 'unop':
            _op_locals(rv[2], out)
        elif k == 'discriminant':
            _place_locals(rv[1], out)
        elif k in ('array', 'tuple'):
            for o in rv[1]:
                _op_locals(o, out)
        elif k == 'repeat':
            _op_locals(rv[1], out)
        elif k == 'closure':
            for o in rv[2]:
                _op_locals(o, out)
        elif k == 'adt':
            for _, o in rv[2]:
                _op_locals(o, out)
    k = term[0]
    if k == 'switch':
        _op_locals(term[1], out)
    elif k == 'assert':
        _op_locals(term[1], out)
    elif k == 'call':
        _place_locals(term[1], out)
        for o in term[3]:
            _op_locals(o, out)
    return out


# ------------------------------------------------------------------ literals

def rust_unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c != '\\':
            out += c.encode()
            i += 1
            continue
        n = s[i + 1]
        if n == 'x':
            v = int(s[i + 2:i + 4], 16)
            out.append(v)
            i += 4
        elif n == 'u':
            j = s.index('}', i)
            out += chr(int(s[i + 3:j], 16)).encode()
            i = j + 1
        elif n == '\n':
            i += 2
            while i < len(s) and s[i] in ' \t\n':
                i += 1
        else:
            out += {'n': b'\n', 't': b'\t', 'r': b'\r', '0': b'\0', '\\': b'\\', '"': b'"', "'": b"'"}[n]
            i += 2
    return bytes(out)


def rust_str(t):
    return rust_unescape(t[1:t.rindex('"')])


def rust_bytes(t):
    return rust_unescape(t[1:t.rindex('"')])


def rust_char(t):
    return rust_unescape(t[1:t.rindex("'")]).decode()
