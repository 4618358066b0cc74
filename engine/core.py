"""Symbolic values, the byte-sequence algebra and the path context.

A function is explored path by path: the interpreter is run in direct style and
re-run once per path with a recorded trail of decisions.  Every branch condition,
assumption and proof obligation is a z3 formula over
  Int/Bool          machine integers (as mathematical integers with explicit ranges)
  B                 byte strings (Vec<u8>, [u8], String, str)
  U                 any other value
"""
import os
import time
import z3
from z3 import (Int, Bool, IntVal, BoolVal, And, Or, Not, Implies, If, Function, DeclareSort,
                IntSort, BoolSort, ArithRef, BoolRef, is_int_value, simplify)

B = DeclareSort('B')
U = DeclareSort('U')
IS = IntSort()
BS = BoolSort()
LEN = Function('len', B, IS)
AT = Function('at', B, IS, IS)
SUB = Function('sub', B, IS, IS, B)
CAT = Function('cat', B, B, B)
UTF8 = Function('utf8', B, BS)
BE = {w: Function('be%d' % w, IS, B) for w in (1, 2, 4, 8, 16)}
REP = Function('rep', IS, IS, B)
EMPTY = z3.Const('empty', B)
BU = {w: Function('bu%d' % w, B, IS, IS) for w in (1, 2, 4, 8, 16)}

MAXLEN = (1 << 56)      # no object is larger than the user address space of a 64-bit machine

RANGES = {}
for _w in (8, 16, 32, 64, 128):
    RANGES['u%d' % _w] = (0, (1 << _w) - 1)
    RANGES['i%d' % _w] = (-(1 << (_w - 1)), (1 << (_w - 1)) - 1)
RANGES['usize'] = RANGES['u64']
RANGES['isize'] = RANGES['i64']
RANGES['char'] = (0, 0x10ffff)


class Unsupported(Exception):
    """the code uses something the verifier has no rule for (undecided, never an alarm)"""


class PathEnd(Exception):
    """this path is over (infeasible, diverging or cut)"""


class Budget(Exception):
    pass


# ------------------------------------------------------------------ scalars

def isz(e):
    return isinstance(e, z3.ExprRef)


def simp(e):
    if not isz(e):
        return e
    e = simplify(e)
    if is_int_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def iadd(a, b):
    if not isz(a) and not isz(b):
        return a + b
    if not isz(a) and a == 0:
        return b
    if not isz(b) and b == 0:
        return a
    return simp(a + b)


def isub(a, b):
    if not isz(a) and not isz(b):
        return a - b
    if not isz(b) and b == 0:
        return a
    return simp(a - b)


def imul(a, b):
    if not isz(a) and not isz(b):
        return a * b
    return simp(a * b)


def ieq(a, b):
    if not isz(a) and not isz(b):
        return a == b
    return simp(zi(a) == zi(b))


def zi(a):
    if isinstance(a, bool):
        return IntVal(1 if a else 0)
    if isinstance(a, int):
        return IntVal(a)
    if isinstance(a, BoolRef):
        return If(a, IntVal(1), IntVal(0))
    return a


def zb(a):
    if isinstance(a, bool):
        return BoolVal(a)
    return a


def band(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
            continue
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return And(*out)


def bor(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
            continue
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return Or(*out)


def bnot(x):
    if isinstance(x, bool):
        return not x
    return simp(Not(x))


# ------------------------------------------------------------------ values

class Val:
    __slots__ = ()


class Seq(Val):
    """a byte string: tuple of pieces"""
    __slots__ = ('p', '_t')

    def __init__(self, p=()):
        self.p = tuple(p)
        self._t = None

    def __repr__(self):
        return 'Seq' + repr(self.p)


def lit(b):
    if isinstance(b, str):
        b = b.encode()
    return Seq((('lit', bytes(b)),)) if b else Seq(())


class Struct(Val):
    __slots__ = ('name', 'f', 'org')

    def __init__(self, name, f, org=None):
        self.name = name
        self.f = tuple(f)
        self.org = org

    def __repr__(self):
        return '%s%r' % (self.name, self.f)


class Tup(Val):
    __slots__ = ('f',)

    def __init__(self, f=()):
        self.f = tuple(f)

    def __repr__(self):
        return 'Tup%r' % (self.f,)


UNIT = Tup(())


class Enum(Val):
    __slots__ = ('name', 'v', 'f')

    def __init__(self, name, v, f=()):
        self.name = name
        self.v = v
        self.f = tuple(f)

    def __repr__(self):
        return '%s::%s%r' % (self.name, self.v, self.f)


class SymE(Val):
    """enum value of unknown variant; t: U term, ty: parsed type"""
    __slots__ = ('ty', 't')

    def __init__(self, ty, t):
        self.ty = ty
        self.t = t

    def __repr__(self):
        return 'SymE(%s)' % self.t


class Opq(Val):
    """any value known only through its U term"""
    __slots__ = ('t', 'ty')

    def __init__(self, t, ty=None):
        self.t = t
        self.ty = ty

    def __repr__(self):
        return 'Opq(%s)' % self.t


class VecL(Val):
    """Vec<T>/slice/array of non-bytes: an unknown prefix (U term of sort list) then known elements"""
    __slots__ = ('base', 'el', 'ety')

    def __init__(self, el=(), base=None, ety=None):
        self.base = base
        self.el = tuple(el)
        self.ety = ety

    def __repr__(self):
        return 'VecL(%s,%r)' % (self.base, self.el)


class Clo(Val):
    __slots__ = ('loc', 'caps')

    def __init__(self, loc, caps):
        self.loc = loc
        self.caps = tuple(caps)


class FnV(Val):
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path


class MRef(Val):
    """&mut place"""
    __slots__ = ('fr', 'loc', 'proj')

    def __init__(self, fr, loc, proj=()):
        self.fr = fr
        self.loc = loc
        self.proj = tuple(proj)

    def __repr__(self):
        return 'MRef(%s,%r)' % (self.loc, self.proj)


class It(Val):
    """iterator"""
    __slots__ = ('k', 'a')

    def __init__(self, k, *a):
        self.k = k
        self.a = a

    def __repr__(self):
        return 'It(%s,%r)' % (self.k, self.a)


class Poison(Val):
    __slots__ = ()


POISON = Poison()


def Ok(v):
    return Enum('Result', 'Ok', (v,))


def Err(v):
    return Enum('Result', 'Err', (v,))


def Some(v):
    return Enum('Option', 'Some', (v,))


NONE = Enum('Option', 'None', ())


def E(variant, *a):
    """crate error::Error value"""
    return Enum('Error', variant, a)


def some_err():
    return Err(E('ANY'))


# ------------------------------------------------------------------ engine state shared by all paths of a run

class Obl:
    __slots__ = ('fn', 'name', 'status', 'detail', 'secs')

    def __init__(self, fn, name, status, detail='', secs=0.0):
        self.fn, self.name, self.status, self.detail, self.secs = fn, name, status, detail, secs


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.sat_unknown = 0


STATS = Stats()

QUERY_MS = 6000
DEBUG = False
DETAIL = int(os.environ.get('VERIF_DETAIL', '600'))


class Solver:
    """assertion stack shared across replays (common prefixes are kept)"""

    def __init__(self):
        self.s = z3.Solver()
        self.s.set('timeout', QUERY_MS)
        self.stack = []
        self.p = 0

    def begin(self):
        self.p = 0

    def add(self, e):
        if self.p < len(self.stack) and self.stack[self.p].eq(e):
            self.p += 1
            return
        self.trunc()
        self.s.push()
        self.s.add(e)
        self.stack.append(e)
        self.p += 1

    def trunc(self):
        k = len(self.stack) - self.p
        if k > 0:
            self.s.pop(k)
            del self.stack[self.p:]

    def check(self, *extra):
        self.trunc()
        t = time.time()
        r = self.s.check(*extra)
        dt = time.time() - t
        STATS.queries += 1
        STATS.solver_s += dt
        return r

    def check_hard(self, extra):
        """fresh solver, other seeds, longer time"""
        self.trunc()
        t = time.time()
        for seed, ms in ((7, 15000), (23, 15000)):
            s = z3.Solver()
            s.set('timeout', ms)
            s.set('random_seed', seed)
            for e in self.stack:
                s.add(e)
            s.add(extra)
            r = s.check()
            STATS.queries += 1
            if r != z3.unknown:
                STATS.solver_s += time.time() - t
                return r, (s.model() if r == z3.sat else None)
        STATS.solver_s += time.time() - t
        return z3.unknown, None


STRUCTURAL = {'len', 'at', 'sub', 'cat', 'utf8', 'rep', 'litid'} | {'bu%d' % w for w in range(1, 33)} | {'be%d' % w for w in range(1, 33)}


class Cx:
    """one path"""

    def __init__(self, run, trail):
        self.run = run
        self.trail = list(trail)
        self.pos = 0
        self.cnt = {}
        self.seen = set()
        self.sol = run.solver
        self.sol.begin()
        self.note = []
        self.depth = 0
        self.frames = 0
        self.weak = False
        self.unrolled = False
        self.symrolled = False
        self.openloops = []
        self.forks = 0
        self.maxlen = run.maxlen
        self.ufs = (set(), set())
        self.apps = []      # applications of abstract library functions in the code
        self.raw = 0        # >0: inside a decision, nested ones are not recorded
        self.seqs = {}      # byte string terms and the sequences they stand for
        self.cells = {}
        self.quiet = 0      # >0: inside a spec: obligations are assumptions about the input domain
        for e in run.globals:
            self.sol.add(e)

    # -- names
    def name(self, hint):
        k = self.cnt.get(hint, 0)
        self.cnt[hint] = k + 1
        return '%s!%d' % (hint, k)

    def fint(self, hint, lo=None, hi=None):
        v = Int(self.name(hint))
        if lo is not None:
            self.add(v >= lo)
        if hi is not None:
            self.add(v <= hi)
        return v

    def fbool(self, hint):
        return Bool(self.name(hint))

    def fb(self, hint):
        t = z3.Const(self.name(hint), B)
        self.blen(t)
        return t

    def fu(self, hint):
        return z3.Const(self.name(hint), U)

    def fseq(self, hint):
        t = self.fb(hint)
        return Seq((('sub', t, 0, LEN(t)),))

    # -- facts
    def add(self, e):
        e = simp(e) if isz(e) else e
        if e is True:
            return
        if e is False:
            self.sol.add(BoolVal(False))
            raise PathEnd()
        i = e.get_id()
        if i in self.seen:
            return
        self.seen.add(i)
        self.sol.add(e)

    def event(self, f):
        if self.raw:
            return f()
        if self.pos < len(self.trail):
            v = self.trail[self.pos]
        else:
            v = f()
            self.trail.append(v)
        self.pos += 1
        return v

    def branch(self, c, why=''):
        c = simp(c)
        if isinstance(c, bool):
            return c
        if not isinstance(c, BoolRef):
            c = zi(c) != 0

        def decide():
            self.run.tick()
            r1 = self.sol.check(c)
            if r1 == z3.unsat:
                return False
            r2 = self.sol.check(Not(c))
            if r2 == z3.unsat:
                return True
            self.run.fork(self.trail + [2])
            return 3
        v = self.event(decide)
        if v is not True and v is not False:
            self.forks += 1
            v = v == 3
        self.add(c if v else Not(c))
        if why and self.run.tracing:
            self.note.append((why, v))
        return v

    def proves(self, c):
        c = simp(c)
        if isinstance(c, bool):
            return c

        def decide():
            return self.sol.check(Not(c)) == z3.unsat
        return self.event(decide)

    def concrete(self, e):
        """the value of an int expression when the path fixes it"""
        if not isz(e):
            return e

        def decide():
            if self.sol.check() != z3.sat:
                return None
            v = self.sol.s.model().eval(e, model_completion=True)
            if not is_int_value(v):
                return None
            v = v.as_long()
            return v if self.sol.check(e != v) == z3.unsat else None
        return self.event(decide)

    def feasible(self):
        return self.event(lambda: self.sol.check() != z3.unsat)

    def oblige(self, c, name):
        """proof obligation; afterwards its truth is assumed"""
        if self.quiet:
            # inside a specification: a partial operation outside its domain cannot be used
            if not self.proves(c):
                raise Unsupported('specification uses %s outside its domain' % name)
            return
        c = simp(c)

        def decide():
            self.run.tick()
            if c is True:
                self.run.obl(name, 'ok', '', 0.0)
                return True
            t = time.time()
            neg = BoolVal(True) if c is False else Not(c)
            r = self.sol.check(neg)
            model = None
            if r == z3.sat:
                model = self.sol.s.model()
            elif r == z3.unknown:
                r, model = self.sol.check_hard(neg)
            loose = False
            if r == z3.sat:
                r, loose, m2 = self.congruence(neg)
                model = m2 or model
            dt = time.time() - t
            if r == z3.unsat:
                self.run.obl(name, 'ok', '', dt)
            elif r == z3.sat:
                weak = self.weak or loose or (self.ufs[0] if name.startswith('no panic') else (self.symrolled and self.run.refute is None) or self.ufs[0] - self.ufs[1])
                if weak and not self.weak and not loose and self.apps and (self.run.refute is not None or not self.symrolled):
                    m2 = self.genuine(neg)
                    if m2 is not None:
                        weak, model = False, m2
                self.run.obl(name, 'weak' if weak else 'fail', self.describe(model, c), dt)
            else:
                self.run.obl(name, 'unknown', '', dt)
            return r == z3.unsat
        ok = self.event(decide)
        if c is False:
            raise PathEnd()
        if c is not True:
            self.add(c)
        return ok

    def congruence(self, neg):
        """a countermodel may only exist because two equal byte strings are written differently:
        relate the arguments of uninterpreted functions, then ask again.
        (verdict, an argument pair could not be compared, model)"""
        apps, eqs, done = {}, [], set()
        work = list(self.sol.stack) + [neg]
        while work:
            e = work.pop()
            i = e.get_id()
            if i in done or not z3.is_app(e):
                continue
            done.add(i)
            ch = e.children()
            work.extend(ch)
            bs = [k for k, a in enumerate(ch) if a.sort() == B]
            if not bs:
                continue
            d = e.decl()
            if d.kind() == z3.Z3_OP_EQ:
                eqs.append((ch[0], ch[1]))
            elif d.kind() == z3.Z3_OP_UNINTERPRETED and d.name() not in STRUCTURAL:
                for k in bs:
                    apps.setdefault((d.name(), k), {})[ch[k].get_id()] = ch[k]
        pairs, seen = [], set()
        for a in list(apps.values()):
            ts = list(a.values())
            for i, x in enumerate(ts):
                for y in ts[:i]:
                    pairs.append((x, y))
        pairs += eqs
        todo = []
        for x, y in pairs:
            k = (min(x.get_id(), y.get_id()), max(x.get_id(), y.get_id()))
            if k in seen or x.eq(y) or (x.get_id() not in self.seqs and y.get_id() not in self.seqs):
                continue
            seen.add(k)
            todo.append((x, y))
        if not todo:
            return z3.sat, False, None
        self.raw += 1
        loose = []
        try:
            m = self.sol.s.model()
            rel = [(x, y) for x, y in todo if z3.is_true(m.eval(LEN(x) == LEN(y), model_completion=True))]
            for x, y in rel[:60]:
                sx = self.seqs.get(x.get_id(), (x, sym(x)))[1]
                sy = self.seqs.get(y.get_id(), (y, sym(y)))[1]
                self.unaligned = False
                f = seq_eq(self, sx, sy)
                if DEBUG: print('PAIR', sx.p, '\n    ', sy.p, '\n    ', self.unaligned, str(f)[:300])
                if self.unaligned and isz(f) and f.num_args() == 2 and {f.arg(0).get_id(), f.arg(1).get_id()} == {x.get_id(), y.get_id()} and len(sx.p) == len(sy.p) == 1:
                    continue      # two byte strings as they are: equal or not
                if self.unaligned:
                    loose.append((x, y))
                else:
                    self.add(Implies(zb(f), x == y))
            if len(rel) > 60:
                loose += rel[60:]
            r = self.sol.check(neg)
            model = self.sol.s.model() if r == z3.sat else None
            if model is not None and loose:
                loose = [(x, y) for x, y in loose if z3.is_true(model.eval(LEN(x) == LEN(y), model_completion=True))]
            return (r, bool(loose) and r == z3.sat, model)
        except PathEnd:
            return z3.unsat, False, None
        finally:
            self.raw -= 1

    def genuine(self, neg):
        """a countermodel in which the abstract library functions take values they really have"""
        import examples
        self.raw += 1
        try:
            cs = examples.sample(self, neg)
            if not cs:
                return None
            g = And(neg, *cs)
            if self.sol.check(g) != z3.sat:
                return None
            m = self.sol.s.model()
            r, loose, m2 = self.congruence(g)
            return (m2 or m) if r == z3.sat and not loose else None
        except (PathEnd, Unsupported):
            return None
        finally:
            self.raw -= 1

    def oblige_spec(self, c, name):
        """lemma about the specification itself"""
        q, self.quiet = self.quiet, 0
        try:
            self.oblige(c if isz(c) else bool(c), 'specification lemma: ' + name)
        finally:
            self.quiet = q

    def describe(self, model, goal):
        try:
            s = 'goal: %s\n' % str(goal)[:DETAIL]
            s += 'path:\n' + '\n'.join('  %s = %s' % (a, b) for a, b in self.note[-60:])
            ms = str(model)
            return s + '\nmodel: ' + ms[:3000]
        except Exception as ex:  # pragma: no cover
            return repr(ex)

    def once(self, key):
        if key in self.seen:
            return False
        self.seen.add(key)
        return True

    # -- byte strings
    def blen(self, t):
        n = LEN(t)
        if self.once(('len', t.get_id())):
            self.add(n >= 0)
            self.add(n <= self.maxlen)
        return n

    def at(self, t, i):
        e = AT(t, zi(i))
        if self.once(('at', e.get_id())):
            self.add(And(e >= 0, e <= 255))
            if z3.is_app(t) and t.decl().name() == 'b64/B,B':
                # the padding character stands exactly behind the encoded data
                core = (LEN(t.arg(0)) * 4 + 2) / 3
                self.add(Implies(And(zi(i) >= 0, zi(i) < LEN(t)), (e == 61) == (zi(i) >= core)))
                self.add(Implies(And(zi(i) >= 0, zi(i) < LEN(t)), And(e >= 43, e <= 122)))
        return e

    def bu(self, w, t, off):
        e = BU[w](t, zi(off))
        if self.once(('bu', e.get_id())):
            self.add(And(e >= 0, e <= (1 << (8 * w)) - 1))
            if w <= 8:
                s = 0
                for k in range(w):
                    s = s + self.at(t, iadd(off, k)) * (1 << (8 * (w - 1 - k)))
                self.add(e == s)
        return e


# ------------------------------------------------------------------ sequence algebra

def plen(p):
    k = p[0]
    if k == 'lit':
        return len(p[1])
    if k == 'sub':
        return p[3]
    if k == 'be':
        return p[1]
    if k == 'rep':
        return p[2]
    raise AssertionError(k)


def slen(s):
    n = 0
    for p in s.p:
        n = iadd(n, plen(p))
    return n


def sym(t):
    """whole symbolic byte string"""
    return Seq((('sub', t, 0, LEN(t)),))


def norm(ps):
    out = []
    for p in ps:
        k = p[0]
        if k == 'lit' and not p[1]:
            continue
        if k == 'sub' and not isz(p[3]) and p[3] == 0:
            continue
        if k == 'rep' and not isz(p[2]):
            if p[2] <= 0:
                continue
            if not isz(p[1]) and p[2] <= 4096:
                p = ('lit', bytes([p[1]]) * p[2])
                k = 'lit'
        if k == 'be' and not isz(p[2]):
            p = ('lit', int(p[2]).to_bytes(p[1], 'big'))
            k = 'lit'
        if k == 'be' and isz(p[2]):
            d = p[2].decl().name() if z3.is_app(p[2]) else ''
            if d == 'bu%d' % p[1]:
                p = ('sub', p[2].arg(0), simp(p[2].arg(1)), p[1])
                k = 'sub'
            elif d == 'at' and p[1] == 1:
                p = ('sub', p[2].arg(0), simp(p[2].arg(1)), 1)
                k = 'sub'
        if k == 'rep' and not isz(p[2]) and p[2] == 1:
            p = ('be', 1, p[1])
            k = 'be'
        if out:
            q = out[-1]
            if k == 'lit' and q[0] == 'lit':
                out[-1] = ('lit', q[1] + p[1])
                continue
            if k == 'sub' and q[0] == 'sub' and q[1].eq(p[1]):
                e = iadd(q[2], q[3])
                if (not isz(e) and not isz(p[2]) and e == p[2]) or (isz(e) and isz(p[2]) and e.eq(p[2])):
                    out[-1] = ('sub', q[1], q[2], iadd(q[3], p[3]))
                    continue
        out.append(p)
    return tuple(out)


def cat(*ss):
    ps = []
    for s in ss:
        ps.extend(s.p)
    return Seq(norm(ps))


def be(w, e):
    return Seq(norm([('be', w, e)]))


LITS = {}


def lit_term(b):
    t = LITS.get(b)
    if t is None:
        t = z3.Const('L%d' % len(LITS), B)
        LITS[b] = t
        LITREV[t.get_id()] = b
    return t


LITREV = {}


def lit_bytes(cx, t):
    """the byte facts of a literal that is indexed or sliced at an unknown position"""
    b = LITREV.get(t.get_id())
    if b is not None and len(b) <= 64 and cx.once(('litb', b)):
        lit_facts(cx, b)
        for i, c in enumerate(b):
            cx.add(AT(t, IntVal(i)) == c)


def lit_facts(cx, b):
    t = lit_term(b)
    if cx.once(('lit', b)):
        cx.add(LEN(t) == len(b))
        # distinct from every other literal used on this path
        lid = Function('litid', B, IS)
        cx.add(lid(t) == list(LITS).index(b))
        try:
            b.decode('utf-8')
            cx.add(UTF8(t))
        except UnicodeDecodeError:
            cx.add(Not(UTF8(t)))
        if len(b) <= 4:
            for i, c in enumerate(b):
                cx.add(AT(t, IntVal(i)) == c)
    return t


def pterm(cx, p):
    k = p[0]
    if k == 'lit':
        return lit_facts(cx, p[1])
    if k == 'sub':
        base, off, n = p[1], p[2], p[3]
        if not isz(off) and off == 0 and isz(n) and n.eq(LEN(base)):
            return base
        t = SUB(base, zi(off), zi(n))
        if cx.once(('subt', t.get_id())):
            cx.add(Implies(And(zi(off) >= 0, zi(n) >= 0, zi(off) + zi(n) <= LEN(base)), LEN(t) == zi(n)))
            cx.add(Implies(And(zi(off) == 0, zi(n) == LEN(base)), t == base))
            cx.add(LEN(t) >= 0)
        return t
    if k == 'be':
        t = BE[p[1]](zi(p[2]))
        if cx.once(('bet', t.get_id())):
            cx.add(LEN(t) == p[1])
            if p[1] == 1:
                cx.add(AT(t, IntVal(0)) == zi(p[2]))
        return t
    if k == 'rep':
        t = REP(zi(p[1]), zi(p[2]))
        if cx.once(('rept', t.get_id())):
            cx.add(Implies(zi(p[2]) >= 0, LEN(t) == zi(p[2])))
        return t
    raise AssertionError(k)


def empty_facts(cx):
    if cx.once('emptyb'):
        cx.add(LEN(EMPTY) == 0)
        cx.add(UTF8(EMPTY))
    return EMPTY


def bterm(cx, s):
    """canonical B term of a sequence"""
    ps = norm(s.p)
    # drop pieces that are provably empty
    qs = []
    for p in ps:
        n = plen(p)
        if isz(n) and cx.proves(n == 0):
            continue
        qs.append(p)
    qs = norm(qs)
    if not qs:
        return empty_facts(cx)
    t = pterm(cx, qs[-1])
    allutf = True
    for p in reversed(qs[:-1]):
        a = pterm(cx, p)
        c = CAT(a, t)
        if cx.once(('cat', c.get_id())):
            cx.add(LEN(c) == LEN(a) + LEN(t))
            cx.add(Implies(And(UTF8(a), UTF8(t)), UTF8(c)))
        t = c
    cx.seqs[t.get_id()] = (t, Seq(qs))
    return t


def at(cx, s, i):
    """byte at index i (i in range)"""
    ps = s.p
    if len(ps) == 1 and ps[0][0] == 'sub':
        return cx.at(ps[0][1], iadd(ps[0][2], i))
    cum = 0
    for p in ps:
        n = plen(p)
        e = iadd(cum, n)
        if cx.proves(zb(ilt(i, e))):
            off = isub(i, cum)
            k = p[0]
            if k == 'sub':
                return cx.at(p[1], iadd(p[2], off))
            if k == 'rep':
                return p[1]
            if not isz(off):
                if k == 'lit':
                    return p[1][off]
                if k == 'be':
                    w = p[1]
                    if w == 1:
                        return p[2]
                    return simp((zi(p[2]) / (256 ** (w - 1 - off))) % 256)
            break
        if not cx.proves(zb(ile(e, i))):
            break
        cum = e
    t = bterm(cx, s)
    lit_bytes(cx, t)
    return cx.at(t, i)


def ilt(a, b):
    if not isz(a) and not isz(b):
        return a < b
    return simp(zi(a) < zi(b))


def ile(a, b):
    if not isz(a) and not isz(b):
        return a <= b
    return simp(zi(a) <= zi(b))


def split_at(cx, s, i):
    """(s[..i], s[i..]) with 0<=i<=len known; None when the position cannot be located"""
    left = []
    cum = 0
    ps = list(s.p)
    for k, p in enumerate(ps):
        if (not isz(i) and not isz(cum) and i == cum) or (isz(i) and isz(cum) and i.eq(cum)) or cx.proves(zb(ieq(i, cum))):
            return Seq(norm(left)), Seq(norm(ps[k:]))
        n = plen(p)
        e = iadd(cum, n)
        if cx.proves(zb(ile(e, i))):
            left.append(p)
            cum = e
            continue
        if cx.proves(zb(ile(i, e))):
            off = isub(i, cum)
            kind = p[0]
            if kind == 'sub':
                a = ('sub', p[1], p[2], off)
                b = ('sub', p[1], iadd(p[2], off), isub(n, off))
                return Seq(norm(left + [a])), Seq(norm([b] + ps[k + 1:]))
            if kind == 'rep':
                return Seq(norm(left + [('rep', p[1], off)])), Seq(norm([('rep', p[1], isub(n, off))] + ps[k + 1:]))
            if kind == 'lit' and isz(off) and len(set(p[1])) == 1:
                c = p[1][0]
                return Seq(norm(left + [('rep', c, off)])), Seq(norm([('rep', c, isub(n, off))] + ps[k + 1:]))
            if not isz(off):
                if kind == 'lit':
                    return Seq(norm(left + [('lit', p[1][:off])])), Seq(norm([('lit', p[1][off:])] + ps[k + 1:]))
                if kind == 'be':
                    w = p[1]
                    bs = [('be', 1, at(cx, Seq([p]), q)) for q in range(w)]
                    return Seq(norm(left + bs[:off])), Seq(norm(bs[off:] + ps[k + 1:]))
        return None
    return Seq(norm(left)), Seq(())


def sub(cx, s, i, j):
    """s[i..j] with 0<=i<=j<=len known"""
    r = split_at(cx, s, i)
    if r is not None:
        r2 = split_at(cx, r[1], isub(j, i))
        if r2 is not None:
            return r2[0]
    t = bterm(cx, s)
    return Seq(norm([('sub', t, i, isub(j, i))]))


def seq_bytes(s):
    """concrete bytes or None"""
    out = b''
    for p in norm(s.p):
        if p[0] != 'lit':
            return None
        out += p[1]
    return out


def from_be(cx, s, w):
    ps = norm(s.p)
    if len(ps) == 1:
        p = ps[0]
        if p[0] == 'be' and p[1] == w:
            return p[2]
        if p[0] == 'lit' and len(p[1]) == w:
            return int.from_bytes(p[1], 'big')
        if p[0] == 'sub':
            return cx.bu(w, p[1], p[2])
    # byte-wise
    v = 0
    for k in range(w):
        v = iadd(v, imul(at(cx, s, k), 1 << (8 * (w - 1 - k))))
    return v


def be_split(p, k):
    """the first k bytes of a big-endian number, and the others"""
    w, v = p[1], p[2]
    m = 256 ** (w - k)
    return [('be', k, simp(zi(v) / m) if isz(v) else v // m), ('be', w - k, simp(zi(v) % m) if isz(v) else v % m)]


def seq_eq(cx, a, b):
    """formula: a and b are the same byte string"""
    pa, pb = norm(a.p), norm(b.p)
    if pa == pb:
        return True
    la, lb = seq_bytes(a), seq_bytes(b)
    if la is not None and lb is not None:
        return la == lb
    if la is not None:
        a, b, la, lb = b, a, lb, la
        pa, pb = pb, pa
    na, nb = slen(a), slen(b)
    if not isz(na) and not isz(nb) and na != nb:
        return False
    if lb is not None:
        if lb == b'':
            return zb(ieq(na, 0)) if isz(na) else na == 0
        if len(pa) == 1 and pa[0][0] == 'sub':
            t = pterm(cx, pa[0])
            L = lit_facts(cx, lb)
            f = t == L
            if cx.once(('liteq', f.get_id())):
                base, off, n = pa[0][1], pa[0][2], pa[0][3]
                lit_bytes(cx, base)
                if len(lb) <= 64:
                    cs = [zi(n) == len(lb)] + [cx.at(base, iadd(off, i)) == c for i, c in enumerate(lb)]
                    cx.add(f == And(*cs))
                else:
                    cx.add(Implies(f, zi(n) == len(lb)))
                cx.add(Implies(f, UTF8(t)))
            return f
    # piecewise alignment
    xs, ys = list(pa), list(pb)
    cs = []
    ok = True
    while xs and ys:
        x, y = xs[0], ys[0]
        if x == y:
            xs.pop(0), ys.pop(0)
            continue
        if x[0] == 'lit' and y[0] == 'lit':
            k = min(len(x[1]), len(y[1]))
            if x[1][:k] != y[1][:k]:
                return False
            xs[0] = ('lit', x[1][k:])
            ys[0] = ('lit', y[1][k:])
            xs, ys = list(norm(xs)), list(norm(ys))
            continue
        nx, ny = plen(x), plen(y)
        if (not isz(nx) and not isz(ny) and nx == ny) or (isz(nx) and isz(ny) and nx.eq(ny)) or cx.proves(zb(ieq(nx, ny))):
            if x[0] == 'be' and y[0] == 'be':
                cs.append(zb(ieq(x[2], y[2])))
            elif x[0] == 'rep' and y[0] == 'rep':
                cs.append(bor(zb(ieq(x[1], y[1])), zb(ieq(nx, 0))))
            elif x[0] == 'be' and y[0] == 'sub':
                cs.append(zb(ieq(x[2], cx.bu(x[1], y[1], y[2]))))
            elif y[0] == 'be' and x[0] == 'sub':
                cs.append(zb(ieq(y[2], cx.bu(y[1], x[1], x[2]))))
            elif x[0] == 'be' and y[0] == 'lit':
                cs.append(zb(ieq(x[2], int.from_bytes(y[1], 'big'))))
            elif y[0] == 'be' and x[0] == 'lit':
                cs.append(zb(ieq(y[2], int.from_bytes(x[1], 'big'))))
            elif x[0] == 'sub' and y[0] == 'sub':
                cs.append(pterm(cx, x) == pterm(cx, y))
            elif (x[0] == 'lit') != (y[0] == 'lit') and (x[0] == 'sub' or y[0] == 'sub'):
                cs.append(zb(seq_eq(cx, Seq([x]), Seq([y]))))
            else:
                cs.append(pterm(cx, x) == pterm(cx, y))
            xs.pop(0), ys.pop(0)
            continue
        if x[0] == 'lit' and not isz(ny) and ny < nx:
            xs[0:1] = [('lit', x[1][:ny]), ('lit', x[1][ny:])]
            continue
        if y[0] == 'lit' and not isz(nx) and nx < ny:
            ys[0:1] = [('lit', y[1][:nx]), ('lit', y[1][nx:])]
            continue
        if isz(nx) and cx.proves(nx == 0):
            xs.pop(0)
            continue
        if isz(ny) and cx.proves(ny == 0):
            ys.pop(0)
            continue
        if x[0] == 'sub' and y[0] == 'lit' and not isz(nx) and nx > ny:
            xs[0:1] = [('sub', x[1], x[2], ny), ('sub', x[1], iadd(x[2], ny), isub(nx, ny))]
            continue
        if y[0] == 'sub' and x[0] == 'lit' and not isz(ny) and ny > nx:
            ys[0:1] = [('sub', y[1], y[2], nx), ('sub', y[1], iadd(y[2], nx), isub(ny, nx))]
            continue
        if x[0] == 'sub' and y[0] == 'lit' and isz(nx):
            k = cx.concrete(nx)
            if k is not None:
                xs[0] = ('sub', x[1], x[2], k)
                continue
        if y[0] == 'sub' and x[0] == 'lit' and isz(ny):
            k = cx.concrete(ny)
            if k is not None:
                ys[0] = ('sub', y[1], y[2], k)
                continue
        if x[0] == 'be' and not isz(ny) and 0 < ny < nx:
            xs[0:1] = be_split(x, ny)
            continue
        if y[0] == 'be' and not isz(nx) and 0 < nx < ny:
            ys[0:1] = be_split(y, nx)
            continue
        if x[0] == 'sub' and y[0] == 'be' and not isz(nx) and nx > ny:
            xs[0:1] = [('sub', x[1], x[2], ny), ('sub', x[1], iadd(x[2], ny), nx - ny)]
            continue
        if y[0] == 'sub' and x[0] == 'be' and not isz(ny) and ny > nx:
            ys[0:1] = [('sub', y[1], y[2], nx), ('sub', y[1], iadd(y[2], nx), ny - nx)]
            continue
        if xs[-1] == ys[-1]:
            xs.pop(), ys.pop()
            continue
        ok = False
        break
    if ok:
        rest = xs or ys
        for p in rest:
            cs.append(zb(ieq(plen(p), 0)))
        return band(*cs)
    cx.unaligned = True
    ta, tb = bterm(cx, a), bterm(cx, b)
    f = ta == tb
    return f


def is_utf8(cx, s):
    b = seq_bytes(s)
    if b is not None:
        try:
            b.decode('utf-8')
            return True
        except UnicodeDecodeError:
            return False
    ps = norm(s.p)
    fs = []
    for p in ps:
        if p[0] == 'lit':
            try:
                p[1].decode()
                continue
            except UnicodeDecodeError:
                break
        if p[0] == 'sub':
            fs.append(UTF8(pterm(cx, p)))
            continue
        break
    else:
        if len(ps) > 1 and cx.proves(band(*fs)):
            return True
    return UTF8(bterm(cx, s))


# ------------------------------------------------------------------ running

class Run:
    """exploration of all paths of one verification task"""

    def __init__(self, label, max_paths=6000, max_s=240, globals_=(), maxlen=None, refute=None):
        self.refute = refute      # loops are followed for a few rounds, in search of a refutation only
        self.maxlen = maxlen or MAXLEN
        self.label = label
        self.solver = Solver()
        self.work = [[]]
        self.obls = {}
        self.max_paths = max_paths
        self.t0 = time.time()
        self.max_s = max_s
        self.tracing = True
        self.paths = 0
        self.ended = 0
        self.globals = list(globals_)

    def fork(self, trail):
        self.work.append(trail)

    def tick(self):
        if time.time() - self.t0 > self.max_s:
            raise Budget('time budget of %ds used up' % self.max_s)

    def obl(self, name, status, detail, secs):
        o = self.obls.get(name)
        if o is None:
            o = self.obls[name] = {'n': 0, 'ok': 0, 'fail': [], 'weak': [], 'unknown': 0, 'secs': 0.0}
        o['n'] += 1
        o['secs'] += secs
        if status == 'ok':
            o['ok'] += 1
        elif status == 'fail':
            o['fail'].append(detail)
        elif status == 'weak':
            o['weak'].append(detail)
        else:
            o['unknown'] += 1

    def explore(self, body):
        """body(cx); returns None or a reason string when undecided"""
        unsup = []
        try:
            while self.work:
                # refuting: short paths first
                trail = self.work.pop() if self.refute is None else self.work.pop(min(range(len(self.work)), key=lambda i: len(self.work[i])))
                self.paths += 1
                STATS.paths += 1
                if self.paths > self.max_paths:
                    return 'more than %d paths' % self.max_paths
                self.tick()
                if time.time() - self.t0 > 20 and sum(len(o['fail']) for o in self.obls.values()) >= 3:
                    return 'stopped: obligations already refuted'
                cx = Cx(self, trail)
                try:
                    body(cx)
                    self.ended += 1
                except PathEnd:
                    pass
                except Unsupported as e:
                    # go on: another path may still refute an obligation
                    unsup.append('unsupported: %s' % e)
                    if len(unsup) > 40:
                        return unsup[0]
        except Budget as e:
            return str(e)
        except z3.Z3Exception as e:
            return 'solver error: %s' % e
        except RecursionError:
            return 'recursion depth'
        return unsup[0] if unsup else None

    def failed(self):
        return {k: o for k, o in self.obls.items() if o['fail']}

    def unknown(self):
        return {k: o for k, o in self.obls.items() if o['unknown'] and not o['fail']}
