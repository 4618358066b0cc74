"""Sample points of library functions that the verifier leaves uninterpreted.

A countermodel in which such a function takes an arbitrary value is no refutation.  When every
application on the path is tied to one of these input/output pairs of the real function, it is:
the pairs below are true of Rust's standard library (text is ASCII except where said), and they are
only used on texts the caller or the input chooses freely.
"""
import re
import z3
from core import *
import stdlib
from exec import pB, ELEM

WS = b' \t\n\x0b\x0c\r'


def pattern(v):
    """the strings a pattern argument stands for, or None"""
    if isinstance(v, int) and not isinstance(v, bool):
        return [chr(v).encode()] if v < 0x110000 else None
    if isinstance(v, Seq):
        b = seq_bytes(v)
        return [b] if b else None
    if isinstance(v, VecL) and v.base is None and v.el and all(isinstance(e, int) for e in v.el):
        return [chr(e).encode() for e in v.el]
    return None


def strip(b, ps, left, right):
    while left and any(b.startswith(p) for p in ps):
        p = next(p for p in ps if b.startswith(p))
        b = b[len(p):]
    while right and any(b.endswith(p) for p in ps):
        p = next(p for p in ps if b.endswith(p))
        b = b[:len(b) - len(p)]
    return b


PLAIN = [b'', b'a', b'aB', b'a b', b'xyzw']


def rows(name, args):
    """[(bytes of the text arguments, result)] or None; result: bytes, bool"""
    n = name[4:]
    if n in ('trim', 'trim_start', 'trim_end', 'trim_ascii'):
        ps = [bytes([c]) for c in WS if n != 'trim_ascii' or c != 11]
        return [((b,), strip(b, ps, n != 'trim_end', n != 'trim_start')) for b in PLAIN + [b' a', b'a ', b' a ', b'a\t', b' ']]
    if n in ('trim_matches', 'trim_start_matches', 'trim_end_matches'):
        ps = pattern(args[1])
        if ps is None:
            return None
        q = ps[0]
        return [((b,), strip(b, ps, n != 'trim_end_matches', n != 'trim_start_matches')) for b in PLAIN + [q, q + b'a', b'a' + q, b'a' + q + q, q + b'a' + q]]
    if n in ('to_lowercase', 'to_ascii_lowercase'):
        return [((b,), b.lower()) for b in PLAIN + [b'AB', b'A']]
    if n in ('to_uppercase', 'to_ascii_uppercase'):
        return [((b,), b.upper()) for b in PLAIN + [b'AB', b'A']]
    if n == 'contains':
        ps = pattern(args[1])
        if ps is None:
            return None
        return [((b,), any(p in b for p in ps)) for b in PLAIN + [p for p in ps] + [b'x' + ps[0], ps[0] + b'x', b'x' + ps[0] + b'y']]
    if n == 'replace':
        ps, q = pattern(args[1]), args[2]
        q = seq_bytes(q) if isinstance(q, Seq) else None
        if ps is None or q is None or len(ps) != 1:
            return None
        p = ps[0]
        return [((b,), b.replace(p, q)) for b in PLAIN + [p, b'a' + p, p + b'b', b'a' + p + b'b']]
    if n == 'is_ascii':
        return [((b,), True) for b in PLAIN] + [(('é'.encode(),), False)]
    if n == 'eqic':
        lits = [seq_bytes(a) for a in args[:2] if isinstance(a, Seq) and seq_bytes(a)]
        out = [((a, b), a.lower() == b.lower()) for a, b in ((b'', b''), (b'a', b'A'), (b'a', b'a'), (b'A', b'a'), (b'a', b'b'), (b'ab', b'aB'), (b'a', b'aa'))]
        for l in lits:
            for x in (l, l.swapcase(), l.upper(), l.lower(), l + b'x', b''):
                out += [((l, x), l.lower() == x.lower()), ((x, l), l.lower() == x.lower())]
        return out
    return None


SELECT = re.compile(r'^([A-Z]\w*\.\w+(\.\w+)?|tup\d+)/U,U$')


def free(t, lines=False):
    """None: not known to be freely chosen; else the bytes that cannot occur"""
    if not z3.is_app(t):
        return None
    if t.num_args() == 0:
        return b'' if t.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
    nm = t.decl().name()
    if nm == 'pB' or (t.num_args() == 1 and SELECT.match(nm)):
        return free(t.arg(0))
    if nm == 'elem':
        a = t.arg(0)
        if z3.is_app(a) and a.decl().eq(stdlib.LINES):
            return b'\r\n' if free(a.arg(0)) == b'' else None
        return free(a)
    return None


# functions whose value at one text says nothing about their value at another
GENERIC = re.compile(r'^(bcrypt|digest|sha|hmac|sig\.|ring|verify|enc\.|mk|mk\.|mktup|push|litid|discr)')


def mixes(cx, neg, texts):
    """some other function is applied to one of the sampled texts: its value there is not arbitrary"""
    ids = {t.get_id() for t in texts}
    done, work = set(), list(cx.sol.stack) + [neg]
    while work:
        e = work.pop()
        if e.get_id() in done or not z3.is_app(e):
            continue
        done.add(e.get_id())
        ch = e.children()
        work.extend(ch)
        d = e.decl()
        if d.kind() != z3.Z3_OP_UNINTERPRETED or not ch:
            continue
        nm = d.name()
        if nm in STRUCTURAL or nm in ('mB', 'pB', 'len', 'at', 'sub', 'utf8', 'cat') or nm.startswith('str.') or nm.startswith('bu') or GENERIC.match(nm):
            continue
        for a in ch:
            if a.get_id() in ids or (z3.is_app(a) and a.num_args() == 1 and a.decl().name() == 'mB' and a.arg(0).get_id() in ids):
                if DEBUG:
                    print('MIXES', nm)
                return True
    return False


def sample(cx, neg):
    """constraints that tie every abstract application to a genuine value, or None"""
    names = cx.ufs[0] ^ cx.ufs[1]
    if not names or not all(n.startswith('str.') for n in names) or len(cx.apps) > 12:
        return None
    apps = cx.apps
    texts = [x.p[0][1] for n, args, r in apps for x in list(args[:2]) + [r] if isinstance(x, Seq) and len(x.p) == 1 and x.p[0][0] == 'sub']
    if mixes(cx, neg, texts):
        return None
    cs = []
    for name, args, res in apps:
        rs = rows(name, args)
        if rs is None:
            return None
        texts = [a for a in (args[:2] if name == 'str.eqic' else args[:1])]
        bad = b''
        for a in texts:
            if not isinstance(a, Seq):
                return None
            if seq_bytes(a) is not None:
                continue
            if len(a.p) != 1 or a.p[0][0] != 'sub':
                return None
            f = free(a.p[0][1])
            if f is None and not any(o is not args and isinstance(r, Seq) and r.p and r.p[0][0] == 'sub' and r.p[0][1].eq(a.p[0][1]) for n2, o, r in apps):
                return None
            bad += f or b''
        alts = []
        for bs, want in rs:
            if any(c in b for b in bs for c in bad):
                continue
            f = [zb(seq_eq(cx, a, lit(b))) for a, b in zip(texts, bs)]
            if isinstance(want, bool):
                f.append(zb(res) if want else z3.Not(zb(res)))
            elif isinstance(res, Seq):
                f.append(zb(seq_eq(cx, res, lit(want))))
            else:
                return None
            alts.append(z3.And(*f))
        if not alts:
            return None
        cs.append(z3.Or(*alts))
    return cs
