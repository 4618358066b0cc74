"""Function contracts and their verification against the MIR of the real code."""
import os
import time
import z3
from core import *
from exec import *
from mirparse import parse_type, last_seg
import stdlib


class Contract:
    """spec(ex, cx, *args) -> result; &mut arguments are written through ex.wr.

    pre(ex, cx, *args) -> formula assumed at entry, proved at call sites.
    pins: error variants the specification distinguishes.
    """

    def __init__(self, key, spec, pre=None, pins=(), props=(), recs=(), doc='', mk=None, max_s=120, post=None, err_free=False, maxlen=None, internal=False, inline=False):
        self.internal, self.inline = internal, inline
        self.err_free, self.maxlen = err_free, maxlen
        self.key, self.spec, self.pre, self.pins = key, spec, pre, pins
        self.props, self.recs, self.doc, self.mk, self.max_s = props, recs, doc, mk, max_s
        self.post = post

    def apply(self, ex, cx, args):
        if self.pre is not None:
            p = self.pre(ex, cx, *args)
            if not cx.quiet:
                cx.oblige(p, 'precondition of %s at a call in %s' % (self.key, ex.current))
            else:
                cx.add(zb(p))
        cx.quiet += 1
        try:
            r = self.spec(ex, cx, *args)
        finally:
            cx.quiet -= 1
        if self.err_free and isinstance(r, Enum) and r.v == 'Err':
            # the state after an error is not specified
            for a in args:
                if isinstance(a, MRef):
                    v = ex.deref(cx, a)
                    if isinstance(v, Struct) and v.name in ('Reader', 'Decoder'):
                        ex.wr(cx, a, Struct(v.name, (v.f[0], cx.fint('off_after_error', 0, RANGES['usize'][1]))))
                    elif isinstance(v, Struct) and v.name == 'AllowedSignerSplitter':
                        import recs
                        ex.wr(cx, a, recs.havoc(ex, cx, v.name, v, None, 'after_error'))
        return r


class Pred(Val):
    """a specified value given by a predicate on it"""

    def __init__(self, f, why=''):
        self.f, self.why = f, why


ANYV = Pred(lambda ex, cx, v: True, 'unspecified')


class Result_:
    def __init__(self, key):
        self.key = key
        self.why = None
        self.obls = {}
        self.secs = 0
        self.paths = 0
        self.used = set()
        self.inlined = set()
        self.ext = {}

    @property
    def failed(self):
        return {k: o for k, o in self.obls.items() if o['fail']}

    @property
    def ok(self):
        return self.why is None and self.obls and not any(o['fail'] or o['unknown'] or o['weak'] for o in self.obls.values())

    @property
    def undecided(self):
        if self.failed:
            return None
        if self.why:
            return self.why
        w = [k for k, o in self.obls.items() if o['weak']]
        if w:
            return 'not proved over abstracted loops or library functions: ' + '; '.join(w)[:300]
        u = [k for k, o in self.obls.items() if o['unknown']]
        if u:
            return 'solver gave no answer: ' + '; '.join(u)[:300]
        if not self.obls:
            return 'no obligation was generated'
        return None


def make_args(ex, cx, fn, mk=None):
    """fresh symbolic arguments; &mut parameters become references to fresh cells"""
    args, cells = [], []
    for i, (l, t) in enumerate(fn.params):
        ty = parse_type(t)
        hint = fn.debug.get(l, 'arg%d' % i) if isinstance(fn.debug, dict) else 'arg%d' % i
        v = mk(ex, cx, i, ty, hint) if mk else None
        mut = ty[0] == 'ref' and ty[1]
        if v is None:
            base = ty[2] if ty[0] == 'ref' else ty
            v = fresh_arg(ex, cx, base, hint)
        if mut:
            cx.frames += 1
            fr = Frame(fn, cx.frames)
            fr.l[0] = v
            cells.append((i, fr, v))
            v = MRef(fr, 0)
        args.append(v)
    return args, cells


def fresh_arg(ex, cx, ty, hint):
    while ty[0] == 'ref':
        ty = ty[2]
    if ty[0] == 'adt' and last_seg(ty[1]) == 'Formatter':
        return Struct('Formatter', (cx.fseq(hint), cx.fbool('alternate')))
    if ty[0] in ('param',):
        return cx.fseq(hint)
    if ty[0] == 'opaque' and 'AsRef<str>' in str(ty):
        s = cx.fseq(hint)
        cx.add(UTF8(s.p[0][1]))
        return s
    return ex.fresh(cx, ty, hint)


def verify(ex, fn, contract, max_s=None, globals_=(), refute=False):
    """check the body of fn against its contract, all paths"""
    r = Result_(fn.key)
    t0 = time.time()
    run = Run(fn.key, max_s=max_s or contract.max_s, globals_=globals_, maxlen=contract.maxlen, refute=tuple(contract.recs) if refute else None)
    old = ex.current, ex.recs, ex.pinned, ex.used_contracts, ex.inlined
    ex.current, ex.recs, ex.pinned = fn.key, [] if refute else list(contract.recs), contract.pins
    ex.used_contracts, ex.inlined = set(), set()
    oldext = ex.std.used
    ex.fold_hook = getattr(contract, 'fold', None)
    ex.std.used = {}

    def body(cx):
        args, cells = make_args(ex, cx, fn, contract.mk)
        if contract.pre is not None:
            cx.add(zb(contract.pre(ex, cx, *args)))
        # copies of the mutable cells for the specification
        sargs = list(args)
        scells = []
        for i, fr, v in cells:
            cx.frames += 1
            f2 = Frame(fn, cx.frames)
            f2.l[0] = v
            sargs[i] = MRef(f2, 0)
            scells.append(f2)
        ret = ex.run_body(cx, fn, args)
        cx.quiet += 1
        try:
            want = contract.spec(ex, cx, *sargs)
        finally:
            cx.quiet -= 1
        nm = 'postcondition of %s' % fn.key
        ret = ex.deref(cx, ret)
        want = ex.deref(cx, want)
        if isinstance(want, Enum) and isinstance(ret, (SymE,)):
            pass
        if isinstance(ret, Enum) and isinstance(want, Enum):
            if ret.v != want.v:
                cx.oblige(False, '%s: returns %s where %s is specified' % (nm, show(ret), show(want)))
                return
        eqs = parts(ex, ret, want)
        for lab, a, b in eqs:
            cx.oblige(holds(ex, cx, a, b), nm + ': returned value' + lab)
        is_err = isinstance(ret, Enum) and ret.v == 'Err'
        for (i, fr, _), f2 in zip(cells, scells):
            a, b = fr.l[0], f2.l[0]
            if is_err and contract.err_free:
                continue
            for lab, x, y in parts(ex, a, b):
                cx.oblige(holds(ex, cx, x, y), nm + ': %s after the call%s' % (fn.debug.get(fn.params[i][0], 'arg%d' % i) if isinstance(fn.debug, dict) else 'arg', lab))
    try:
        r.why = run.explore(body)
    finally:
        r.used, r.inlined = ex.used_contracts, ex.inlined
        ex.current, ex.recs, ex.pinned, ex.used_contracts, ex.inlined = old
        r.ext = ex.std.used
        ex.std.used = oldext
    r.obls = run.obls
    r.paths = run.paths
    if r.why is None and run.ended == 0:
        r.why = 'no path of the function reaches its end'
    r.secs = time.time() - t0
    if not refute and not r.ok and not r.failed and REFUTE and r.secs < 150 and not any(type(x).__name__ == 'ZeroPrefix' for x in contract.recs):
        # not proved over summarised loops: look for a refutation along paths of a few rounds
        try:
            q = verify(ex, fn, contract, max_s=min(REFUTE_S, max(20, 240 - r.secs)), globals_=globals_, refute=True)
        except (Unsupported, z3.Z3Exception):
            return r
        for k, o in q.failed.items():
            p = r.obls.setdefault(k, {'n': 0, 'ok': 0, 'fail': [], 'weak': [], 'unknown': 0, 'secs': 0.0})
            p['n'] += len(o['fail'])
            p['fail'] += ['(loops followed for a few rounds)\n' + x for x in o['fail']]
        r.secs = time.time() - t0
    return r


REFUTE = True
REFUTE_S = int(os.environ.get("VERIF_REFUTE_S", "90"))


class Lemma:
    """a statement over the contracts of `uses`: body(ex, cx) builds arbitrary values, applies the
    specifications and raises obligations.  see: specification functions whose definition it opens."""

    def __init__(self, name, body, props=(), uses=(), see=(), max_s=200, maxlen=None, doc='', assumes=()):
        self.assumes = tuple(assumes)
        self.name, self.body, self.props, self.uses, self.see = name, body, props, tuple(uses), tuple(see)
        self.max_s, self.maxlen, self.doc = max_s, maxlen, doc
        self.internal = False


def verify_lemma(ex, lem, max_s=None):
    r = Result_(lem.name)
    t0 = time.time()
    run = Run(lem.name, max_s=min(max_s or lem.max_s, lem.max_s), maxlen=lem.maxlen)
    old = ex.current, ex.recs, ex.pinned, ex.see
    ex.current, ex.recs, ex.pinned, ex.see = lem.name, [], (), set(lem.see)
    oldext, ex.std.used = ex.std.used, {}
    alive = []

    def body(cx):
        lem.body(ex, cx)
        if not alive and cx.sol.check() == z3.sat:
            alive.append(1)
    try:
        r.why = run.explore(body)
        if r.why is None and not alive:
            r.why = 'the premises of the lemma contradict each other'
    finally:
        ex.current, ex.recs, ex.pinned, ex.see = old
        r.ext = ex.std.used
        ex.std.used = oldext
    r.used = set(lem.uses)
    r.obls, r.paths = run.obls, run.paths
    r.secs = time.time() - t0
    return r


def holds(ex, cx, a, b):
    if isinstance(b, Pred):
        return b.f(ex, cx, a)
    return ex.veq(cx, a, b)


def show(v):
    if isinstance(v, Enum):
        if v.v == 'Err' and v.f and isinstance(v.f[0], Enum):
            return 'Err(%s)' % v.f[0].v
        return v.v
    return str(v)[:40]


def parts(ex, a, b, lab='', depth=0):
    """split a comparison into named obligations"""
    if isinstance(a, MRef) or isinstance(b, (MRef, Pred)):
        return [(lab, a, b)]
    if isinstance(a, Enum) and isinstance(b, Enum) and a.v == b.v == 'Err' and isinstance(b.f[0], Pred):
        return [(lab + ' (error)', a.f[0], b.f[0])]
    if isinstance(a, Enum) and isinstance(b, Enum) and a.v == b.v and a.v in ('Ok', 'Some') and len(a.f) == 1:
        return parts(ex, a.f[0], b.f[0], lab, depth)
    if isinstance(a, Struct) and isinstance(b, Struct) and a.name == b.name and len(a.f) == len(b.f) and a.f and depth < 4:
        if a.org is not None and b.org is not None and a.org.eq(b.org):
            return [(lab, a, b)]
        out = []
        for n, x, y in zip(ex.field_names(a.name, len(a.f)), a.f, b.f):
            if n == 'short_name':
                continue      # a display label no property speaks of
            out += parts(ex, x, y, lab + '.' + n, depth + 1)
        return out
    return [(lab, a, b)]
