"""Loop invariants.

TailRec:  the loop computes a tail-recursive specification function R: the invariant is
          R(current state) == R(state at loop entry); R is unfolded with the specification's
          own step function where the proof needs it.
Append:   the loop appends enc(x) for every remaining list element to a byte buffer: the
          invariant is buffer ++ ENC(list, i) == buffer0 ++ ENC(list, i0).
ZeroPrefix: counts leading zero bytes.
"""
import z3
from z3 import And, Or, Not, Implies, IntVal
from core import *
from exec import *
import stdlib
from stdlib import ZPRE, zprefix
from mirparse import last_seg, parse_type


# ------------------------------------------------------------------ liveness

def live_in(fn, bb):
    lv = getattr(fn, '_live', None)
    if lv is None:
        use, dfn = {}, {}
        for b in fn.blocks:
            stmts, term = fn.block(b)
            u, d = set(), set()

            def rd(ls):
                for l in ls:
                    if l not in d:
                        u.add(l)
            for s in stmts:
                if s[0] != 'assign':
                    continue
                a = used_locals([s], ('goto', 0))
                dest = s[1]
                full = not dest.proj
                own = set()
                if full:
                    # does the rvalue itself read dest?
                    b2 = used_locals([('assign', _DUMMY, s[2])], ('goto', 0)) - {-1}
                    rd(b2)
                    d.add(dest.local)
                else:
                    rd(a)
            if term[0] == 'call':
                out = set()
                for o in term[3]:
                    if o and o[0] == 'place':
                        out |= {o[1].local}
                import re as _re
                m = _re.match(r'^(?:move|copy) _(\d+)', term[2])
                if m:
                    out.add(int(m.group(1)))
                rd(out)
                if not term[1].proj:
                    d.add(term[1].local)
                else:
                    rd({term[1].local})
            elif term[0] == 'return':
                rd({0})
            elif term[0] != 'drop':
                rd(used_locals([], term))
            use[b], dfn[b] = u, d
        lv = {b: set() for b in fn.blocks}
        changed = True
        while changed:
            changed = False
            for b in fn.blocks:
                o = set()
                for s in fn.succs(b):
                    o |= lv.get(s, set())
                n = use[b] | (o - dfn[b])
                if n != lv[b]:
                    lv[b] = n
                    changed = True
        fn._live = lv
    return lv[bb]


class _D:
    local = -1
    proj = ()


_DUMMY = _D()


def loop_vars(ex, cx, fr, h, body):
    """[(frame, local, live?)] the loop may modify"""
    live = live_in(fr.fn, h)
    # frames/locals reachable through live references
    reach = set()
    for l in live:
        for m in find_mrefs(fr.l.get(l)):
            reach.add((id(m.fr), m.loc))
    out = []
    for f, l in ex.modified(cx, fr, body):
        if f is fr:
            out.append((f, l, l in live or (id(f), l) in reach))
        else:
            out.append((f, l, True))
    return out


# ------------------------------------------------------------------ iterator state

def it_split(it):
    """(collection value, index, rebuild(index)) of an iterator over one collection"""
    k = it.k
    if k in ('list', 'bytes'):
        return it.a[0], it.a[1], (lambda i: It(k, it.a[0], i)), k
    if k == 'enumerate':
        r = it_split(it.a[0])
        if r is None:
            return None
        v, i0, rb, kk = r
        n0 = it.a[1]
        return v, i0, (lambda i: It('enumerate', rb(i), iadd(n0, isub(i, i0)))), kk
    if k == 'map':
        r = it_split(it.a[0])
        if r is None:
            return None
        v, i0, rb, kk = r
        return v, i0, (lambda i: It('map', rb(i), it.a[1])), kk
    if k == 'peekable' and it.a[1] is None:
        r = it_split(it.a[0])
        if r is None:
            return None
        v, i0, rb, kk = r
        return v, i0, (lambda i: It('peekable', rb(i), None)), kk
    return None


def same_shape(cx, ex, a, b):
    """structural comparison of iterators (for the fixed parts)"""
    if isinstance(a, It) and isinstance(b, It):
        ra, rb = it_split(a), it_split(b)
        if ra is None or rb is None or a.k != b.k:
            return None
        return ra, rb
    return None


KINDS = {}


def stack_of(v):
    """(elements, length) of a struct holding one vector used as a stack"""
    l = v.f[0]
    b = l.base
    if b is None or l.el:
        return None
    if z3.is_app(b) and b.decl().name().startswith('take/'):
        return b.arg(0), b.arg(1)
    return b, LENL(b)


def mk_stack(cx, name, T, n, ety):
    t = stdlib.TAKE(T, zi(n))
    if cx.once(('take', t.get_id())):
        cx.add(LENL(t) == zi(n))
    return Struct(name, (VecL((), t, ety),))


STACKS = ('AllowedSignerSplitter',)


def kind_of(ex, cx, v):
    if isinstance(v, Struct):
        return v.name
    if isinstance(v, It):
        r = it_split(v)
        return 'it' if r is not None and r[3] == 'list' else 'itb' if r is not None else None
    if isinstance(v, Seq):
        return 'seq'
    if isinstance(v, VecL):
        return 'vec'
    if isinstance(v, Opq) and v.ty and v.ty[0] == 'adt' and last_seg(v.ty[1]) in ('HashMap', 'BTreeMap'):
        return 'map'
    if isinstance(v, (bool, z3.BoolRef)):
        return 'bool'
    if isinstance(v, (int, z3.ArithRef)):
        return 'int'
    if isinstance(v, (Enum, SymE)):
        return 'enum'
    return None


def havoc(ex, cx, kind, v, ty, hint):
    """fresh value of the same kind; fixed parts kept"""
    if kind in ('Reader', 'Decoder'):
        off = cx.fint('off', 0, RANGES['usize'][1])
        return Struct(kind, (v.f[0], off))
    if kind in STACKS:
        T, n0 = stack_of(v)
        ex.lenl(cx, VecL((), T, None))
        n = cx.fint('depth', 0, MAXLEN)
        return mk_stack(cx, kind, T, n, v.f[0].ety)
    if kind in ('it', 'itb'):
        coll, i0, rb, k = it_split(v)
        n = ex.vlen(cx, coll)
        i = cx.fint('pos', 0)
        cx.add(And(i >= zi(i0), Or(i <= zi(n), i == zi(i0))))
        return rb(i)
    if kind == 'seq':
        s = cx.fseq(hint)
        if ty is not None and is_str(ty):
            cx.add(UTF8(s.p[0][1]))
        return s
    if kind == 'vec':
        b = cx.fu(hint)
        cx.add(And(LENL(b) >= 0, LENL(b) <= MAXLEN))
        return VecL((), b, v.ety)
    if kind == 'map':
        return Opq(cx.fu(hint), v.ty)
    if kind == 'bool':
        return cx.fbool(hint)
    if kind == 'int':
        lo, hi = RANGES['u64']
        if ty is not None and ty[0] == 'prim' and ty[1] in RANGES:
            lo, hi = RANGES[ty[1]]
        return cx.fint(hint, lo, hi)
    if kind == 'enum':
        if isinstance(v, SymE):
            return ex.from_term(cx, cx.fu(hint), v.ty)
        if ty is not None and ex.ty.variants(ty) is not None:
            return ex.from_term(cx, cx.fu(hint), ty)
        return POISON
    if isinstance(v, Struct) and ty is not None:
        return ex.fresh(cx, ty, hint)
    return POISON


def fixed_ok(ex, cx, kind, v0, v):
    """formula: the fixed part of v is that of v0"""
    if kind in ('Reader', 'Decoder'):
        return ex.veq(cx, v0.f[0], v.f[0]) if isinstance(v, Struct) and v.name == kind else False
    if kind in STACKS:
        st = stack_of(v) if isinstance(v, Struct) and v.name == kind else None
        return stack_of(v0)[0] == st[0] if st is not None else False
    if kind in ('it', 'itb'):
        r = same_shape(cx, ex, v0, v)
        if r is None:
            return False
        return ex.veq(cx, r[0][0], r[1][0])
    return True


def generic_havoc(ex, cx, fr, h, body, keep):
    """havoc everything the loop modifies except the (frame, local) in keep"""
    for f, l, live in loop_vars(ex, cx, fr, h, body):
        if (id(f), l) in keep:
            continue
        if not live:
            f.l[l] = POISON
            continue
        v = f.l.get(l, POISON)
        if v is POISON or v is None:
            continue
        if isinstance(v, MRef) or isinstance(v, Clo):
            # a reference variable reassigned in the loop is outside the templates
            if f is fr and any(st[0] == 'assign' and st[1].local == l and not st[1].proj for b in body for st in fr.fn.block(b)[0]):
                f.l[l] = POISON
            continue
        ty = None
        if f is fr:
            ty = parse_type(fr.fn.locals.get(l, ''))
            while ty[0] == 'ref':
                ty = ty[2]
        k = kind_of(ex, cx, v)
        if k in ('Reader', 'Decoder', 'it', 'itb') or k in STACKS:
            # fixed part is not known to be kept: check on the back edge is done by the template; otherwise poison
            f.l[l] = POISON
        else:
            f.l[l] = havoc(ex, cx, k, v, ty, fr.fn.debug.get(l, 'v%d' % l) if isinstance(fr.fn.debug, dict) else 'v')


class TailRec:
    def __init__(self, name, roles, step, rty, inv=None):
        self.inv = inv
        self.name, self.roles, self.step, self.rty = name, roles, step, parse_type(rty) if isinstance(rty, str) else rty

    # ---- specification side
    def term(self, ex, cx, st):
        args = []
        for k, v in zip(self.roles, st):
            k = k.partition('|')[0]
            if k in STACKS:
                T, n = stack_of(v)
                args += [T, ex.uterm(cx, n)]
            elif k in ('Reader', 'Decoder'):
                args += [ex.uterm(cx, v.f[0]), ex.uterm(cx, v.f[1])]
            elif k in ('it', 'itb'):
                coll, i, _, _ = it_split(v)
                args += [ex.uterm(cx, coll), ex.uterm(cx, i)]
            else:
                args.append(ex.uterm(cx, v))
        return ufn('rec.' + self.name, *([U] * (len(args) + 1)))(*args)

    def call(self, ex, cx, st, unfold=0):
        """value of the recursive function at st (used in specifications)"""
        insts = getattr(cx, 'recinst', ())
        for r in insts:
            r.close(ex, cx)
        if self in (cx.run.refute or ()) or cx.unrolled and not any(r.rec is self for r in insts):
            # the code has a loop no template matched: unfold as far as it was followed
            r = self.unfold(ex, cx, st, SYMROLL + 2)
            if r[0] == 'done':
                return r[1]
            cx.weak = True
        t = self.term(ex, cx, st)
        for k, v in getattr(cx, 'recknown', ()):      # lemmas: a value proved before
            if k.eq(t):
                return v
        return ex.from_term(cx, t, self.rty)

    def unfold(self, ex, cx, st, depth=1):
        """add the defining equation(s) at st"""
        cx.quiet += 1
        try:
            for _ in range(depth):
                r = self.step(ex, cx, st)
                t = self.term(ex, cx, st)
                if r[0] == 'done':
                    cx.add(t == ex.uterm(cx, r[1]))
                    return r
                cx.add(t == self.term(ex, cx, r[1]))
                st = r[1]
            return r
        finally:
            cx.quiet -= 1

    # ---- code side
    def match(self, ex, cx, fr, h, body):
        vars_ = [(f, l) for f, l, live in loop_vars(ex, cx, fr, h, body) if live]
        found = []
        used = set()
        for k in self.roles:
            c = []
            k, _, tyname = k.partition('|')
            for f, l in vars_:
                if (id(f), l) in used:
                    continue
                v = f.l.get(l)
                if isinstance(v, MRef) or v is None or v is POISON:
                    continue
                if kind_of(ex, cx, v) == k:
                    if tyname.startswith('~'):
                        if not f.fn or tyname[1:] not in str(f.fn.debug.get(l, '') if isinstance(f.fn.debug, dict) else ''):
                            continue
                    elif tyname and tyname not in (f.fn.locals.get(l, '') if f.fn else ''):
                        continue
                    c.append((f, l))
                elif k == 'seq' and isinstance(v, Struct) and v.name == 'Writer':
                    c.append((f, l))
            if not c:
                return None
            if len(c) > 1:
                # prefer user variables
                d = [x for x in c if isinstance(x[0].fn.debug, dict) and x[1] in x[0].fn.debug]
                if len(d) == 1:
                    c = d
                else:
                    return None
            found.append(c[0])
            used.add((id(c[0][0]), c[0][1]))
        return TRInst(self, found, h, body)


def get_state(ex, cx, found, roles):
    return [f.l[l] for (f, l) in found]


class TRInst:
    def __init__(self, rec, found, h, body):
        self.rec, self.found, self.h, self.body = rec, found, h, body
        self.closed = False

    def enter(self, ex, cx, fr):
        rec = self.rec
        self.init = get_state(ex, cx, self.found, rec.roles)
        keep = {(id(f), l) for f, l in self.found}
        generic_havoc(ex, cx, fr, self.h, self.body, keep)
        cur = []
        for (f, l), k, v in zip(self.found, rec.roles, self.init):
            ty = parse_type(f.fn.locals.get(l, '')) if f.fn else None
            nv = havoc(ex, cx, k.partition('|')[0], v, ty, rec.name + '.' + k)
            f.l[l] = nv
            cur.append(nv)
        self.cur = cur
        cx.add(rec.term(ex, cx, cur) == rec.term(ex, cx, self.init))
        if rec.inv is not None:
            cx.oblige(rec.inv(ex, cx, self.init), 'loop invariant of %s (%s) holds at entry' % (fr.fn.key, rec.name))
            cx.add(zb(rec.inv(ex, cx, cur)))
        if not hasattr(cx, 'recinst'):
            cx.recinst = []
        cx.recinst.append(self)
        cx.weak = True

    def back(self, ex, cx, fr):
        rec = self.rec
        new = get_state(ex, cx, self.found, rec.roles)
        nm = 'loop invariant of %s (%s)' % (fr.fn.key, rec.name)
        for k, v0, v in zip(rec.roles, self.init, new):
            cx.oblige(fixed_ok(ex, cx, k, v0, v), nm + ': ' + k + ' keeps its input')
        if rec.inv is not None:
            cx.oblige(rec.inv(ex, cx, new), nm + ': kept')
        r = rec.unfold(ex, cx, self.cur)
        self.closed = True
        if r[0] == 'done':
            cx.oblige(False, nm + ': the loop goes on where the specification stops')
            return
        for k, a, b in zip(rec.roles, new, r[1]):
            if k in STACKS:
                f = ex.veq(cx, stack_of(a)[1], stack_of(b)[1])
            elif k in ('Reader', 'Decoder'):
                f = ex.veq(cx, a.f[1], b.f[1])
            elif k in ('it', 'itb'):
                f = ex.veq(cx, it_split(a)[1], it_split(b)[1])
            else:
                f = ex.veq(cx, a, b)
            cx.oblige(f, nm + ': ' + k + ' is preserved')

    def close(self, ex, cx):
        if self.closed:
            return
        self.closed = True
        self.rec.unfold(ex, cx, self.cur, 2)


# ------------------------------------------------------------------ append loops

ENCR = {}


def encr(name):
    return ufn('enc.' + name, U, IS, B)


class Append:
    """enc(ex, cx, elem) -> Seq"""

    def __init__(self, name, enc, ety, to_list=None):
        self.name, self.enc, self.ety = name, enc, ety
        self.to_list = to_list

    def term(self, cx, L, i):
        t = encr(self.name)(L, zi(i))
        cx.blen(t)
        if cx.once(('encr', t.get_id())):
            cx.add(Implies(zi(i) >= LENL(L), LEN(t) == 0))
        return t

    def whole(self, ex, cx, v):
        """Seq: the encoding of all of list v (VecL)"""
        L = ex.uterm(cx, v)
        ex.lenl(cx, VecL((), L, None))
        for r in getattr(cx, 'appinst', ()):
            r.close(ex, cx)
        if cx.run.refute is not None:
            # only a list whose length the path fixes is spelled out
            n = cx.concrete(LENL(L)) if not isinstance(v, VecL) or v.base is not None else len(v.el)
            if n is None or n > 6:
                cx.weak = True
            else:
                for i in range(n):
                    self.unfold(ex, cx, L, i)
                self.term(cx, L, n)
        t = self.term(cx, L, 0)
        return sym(t)

    def unfold(self, ex, cx, L, i):
        """ENC(L,i) = enc(elem) ++ ENC(L,i+1)   (i < len known)"""
        x = ex.from_term(cx, ELEM(L, zi(i)), self.ety)
        cx.quiet += 1
        try:
            e = self.enc(ex, cx, x)
        finally:
            cx.quiet -= 1
        t = self.term(cx, L, i)
        rest = self.term(cx, L, iadd(i, 1))
        full = cat(e, sym(rest))
        cx.add(t == bterm(cx, full))
        cx.add(LEN(t) == zi(slen(full)))
        return e

    def match(self, ex, cx, fr, h, body):
        vars_ = [(f, l) for f, l, live in loop_vars(ex, cx, fr, h, body) if live]
        its, accs = [], []
        for f, l in vars_:
            v = f.l.get(l)
            k = kind_of(ex, cx, v)
            if k == 'it':
                its.append((f, l))
            elif k == 'seq' or (isinstance(v, Struct) and v.name == 'Writer'):
                accs.append((f, l))
        if len(its) != 1 or len(accs) != 1:
            return None
        v, i, rb, k = it_split(its[0][0].l[its[0][1]])
        if v.base is None:
            return None
        return APInst(self, its[0], accs[0], h, body)


def acc_get(v):
    return v.f[0] if isinstance(v, Struct) else v


def acc_set(v, s):
    return Struct(v.name, (s,)) if isinstance(v, Struct) else s


class APInst:
    def __init__(self, rec, it, acc, h, body):
        self.rec, self.it, self.acc, self.h, self.body = rec, it, acc, h, body
        self.closed = False

    def enter(self, ex, cx, fr):
        f, l = self.it
        g, m = self.acc
        self.it0 = f.l[l]
        self.v0 = g.l[m]
        coll, i0, rb, _ = it_split(self.it0)
        self.L = ex.uterm(cx, coll)
        ex.lenl(cx, VecL((), self.L, None))
        generic_havoc(ex, cx, fr, self.h, self.body, {(id(f), l), (id(g), m)})
        i = cx.fint('pos', 0)
        cx.add(And(i >= zi(i0), Or(i <= LENL(self.L), i == zi(i0))))
        f.l[l] = rb(i)
        self.i0, self.i = i0, i
        mid = cx.fb('appended')
        self.mid = mid
        s0 = acc_get(self.v0)
        g.l[m] = acc_set(self.v0, cat(s0, sym(mid)))
        t, t0 = self.rec.term(cx, self.L, i), self.rec.term(cx, self.L, i0)
        c = CAT(mid, t)
        cx.add(LEN(c) == LEN(mid) + LEN(t))
        cx.add(c == t0)
        cx.add(Implies(LEN(t) == 0, mid == t0))
        cx.add(Implies(LEN(mid) == 0, t == t0))
        cx.appinst = getattr(cx, 'appinst', []) + [self]
        cx.weak = True

    def back(self, ex, cx, fr):
        f, l = self.it
        g, m = self.acc
        nm = 'loop invariant of %s (%s)' % (fr.fn.key, self.rec.name)
        r = same_shape(cx, ex, self.it0, f.l[l])
        if r is None:
            raise Unsupported('loop changes its iterator')
        cx.oblige(ex.veq(cx, r[0][0], r[1][0]), nm + ': iterates the same list')
        j = r[1][1]
        cx.oblige(zb(ieq(j, iadd(self.i, 1))), nm + ': one element per iteration')
        if not cx.proves(self.i < LENL(self.L)):
            raise Unsupported('loop continues past the end of its list')
        e = self.rec.unfold(ex, cx, self.L, self.i)
        want = cat(acc_get(self.v0), sym(self.mid), e)
        cx.oblige(seq_eq(cx, acc_get(g.l[m]), want), nm + ': each iteration appends exactly the encoding of its element')

    def close(self, ex, cx):
        if self.closed:
            return
        self.closed = True


# ------------------------------------------------------------------ leading zero bytes

class ZeroPrefix:
    name = 'leading zeros'

    def match(self, ex, cx, fr, h, body):
        vars_ = [(f, l) for f, l, live in loop_vars(ex, cx, fr, h, body) if live]
        its, ns = [], []
        for f, l in vars_:
            v = f.l.get(l)
            k = kind_of(ex, cx, v)
            if k == 'itb':
                its.append((f, l))
            elif k == 'int':
                ns.append((f, l))
        if len(its) == 1 and len(ns) == 1:
            return ZPInst(its[0], ns[0], h, body)
        if not its and len(ns) == 1:
            # while n < val.len() && val[n] == 0 { n += 1 }
            return ZPInst(None, ns[0], h, body)
        return None


class ZPInst:
    def __init__(self, it, n, h, body):
        self.it, self.n, self.h, self.body = it, n, h, body

    def enter(self, ex, cx, fr):
        if self.it is None:
            raise Unsupported('index loop')
        f, l = self.it
        g, m = self.n
        self.it0, self.n0 = f.l[l], g.l[m]
        s, i0, rb, _ = it_split(self.it0)
        if isz(i0) or i0 != 0:
            raise Unsupported('zero prefix from the middle')
        t = bterm(cx, s)
        generic_havoc(ex, cx, fr, self.h, self.body, {(id(f), l), (id(g), m)})
        i = cx.fint('pos', 0)
        z = zprefix(cx, t)
        cx.add(i <= z)
        a = at(cx, s, i)
        cx.add(Implies(i < LEN(t), (zi(a) == 0) == (i < z)))
        f.l[l] = rb(i)
        g.l[m] = iadd(self.n0, i)
        self.i, self.z, self.s = i, z, s
        cx.weak = True

    def back(self, ex, cx, fr):
        f, l = self.it
        g, m = self.n
        nm = 'loop invariant of %s (leading zeros)' % fr.fn.key
        r = same_shape(cx, ex, self.it0, f.l[l])
        if r is None:
            raise Unsupported('loop changes its iterator')
        j = r[1][1]
        cx.oblige(zb(ieq(j, iadd(self.i, 1))), nm + ': one byte per iteration')
        cx.oblige(zi(j) <= self.z, nm + ': every counted byte is zero')
        cx.oblige(zb(ieq(g.l[m], iadd(self.n0, j))), nm + ': the counter counts the bytes seen')


# ------------------------------------------------------------------ folds

def fold_hook_for(rec, per):
    """Iterator::fold / sum over a list: init + sum of h(x).  Decided against the length of the
    list's encoding `rec`: by induction, if len(enc(x)) == per + h(x) for an arbitrary element x then
    sum of h over the list == len(ENC(list)) - per * len(list)."""
    def hook(c, v, i, g, acc, f):
        ex, cx = c.ex, c.cx
        if isz(i) or i != 0 or v.base is None or v.el:
            raise Unsupported('fold over part of a list')
        x = ex.from_term(cx, cx.fu('foldprobe'), rec.ety)
        h = ex.deref(cx, g(x))
        if f is not None:
            a = cx.fint('foldacc', 0, 1 << 40)
            cx.add(zi(h) <= (1 << 40))
            r = ex.call_value(cx, f, [a, h])
            if not cx.proves(zb(ieq(r, iadd(a, h)))):
                raise Unsupported('fold is not a sum')
        cx.quiet += 1
        try:
            e = rec.enc(ex, cx, x)
        finally:
            cx.quiet -= 1
        k = None
        for cand in per:
            if cx.proves(zb(ieq(slen(e), iadd(cand, h)))):
                k = cand
                break
        n = ex.lenl(cx, v)
        if k is None:
            # the sum is some other number
            t = ufn('othersum', U, U, IS)(ex.uterm(cx, v), ex.uterm(cx, h))
            cx.add(t >= 0)
            return iadd(acc, t)
        L = ex.uterm(cx, v)
        if L.decl().name() == stdlib.MITER.name():
            # a sum does not depend on the order of the entries
            L = stdlib.ment(c, L.arg(0))
        t = rec.term(cx, L, 0)
        tot = isub(iadd(acc, LEN(t)), imul(k, n))
        # the listed strings exist in memory at once, so their total size fits a usize
        cx.add(And(zi(tot) >= 0, zi(tot) < (1 << 62)))
        return tot
    return hook
