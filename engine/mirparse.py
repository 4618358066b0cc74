"""Parser for the textual MIR that rustc prints (-Zunpretty=mir) and for the
item declarations of the macro-expanded crate (-Zunpretty=expanded).

The verified text is the compiler's own MIR of the crate that runs: nothing is
rewritten by hand.  What is dropped: StorageLive/StorageDead/nop markers, debug
info, and unwind (cleanup) blocks (the dump is taken with panic=abort; every
panic site is turned into a proof obligation instead)."""
import re


class ParseError(Exception):
    pass


# ------------------------------------------------------------ text utilities

def find_close(s, i):
    """s[i] opens a bracket; index of the matching closing one."""
    depth = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i = skip_string(s, i)
            continue
        if c == "'" :
            j = skip_char(s, i)
            if j != i:
                i = j
                continue
        if c in '([{<':
            depth += 1
        elif c in ')]}':
            depth -= 1
        elif c == '>':
            if s[i - 1] in '-=':
                i += 1
                continue
            depth -= 1
        if depth == 0:
            return i
        i += 1
    raise ParseError('unbalanced: ' + s[:80])


def skip_string(s, i):
    assert s[i] == '"'
    i += 1
    while s[i] != '"':
        if s[i] == '\\':
            i += 1
        i += 1
    return i + 1


def skip_char(s, i):
    """char literal at i -> index after it; lifetime -> i"""
    m = re.match(r"'(\\x[0-9a-fA-F]{2}|\\u\{[0-9a-fA-F]+\}|\\.|[^\\'])'", s[i:])
    if m:
        return i + m.end()
    return i


def split_top(s, sep=','):
    out = []
    depth = 0
    cur = 0
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i = skip_string(s, i)
            continue
        if c == "'":
            j = skip_char(s, i)
            if j != i:
                i = j
                continue
        if c in '([{<':
            depth += 1
        elif c in ')]}':
            depth -= 1
        elif c == '>' and (i == 0 or s[i - 1] not in '-='):
            depth -= 1
        elif c == sep and depth == 0:
            out.append(s[cur:i].strip())
            cur = i + 1
        i += 1
    t = s[cur:].strip()
    if t:
        out.append(t)
    return out


_gen_cache = {}


def strip_generics(p):
    """Drop ::<...> and <...> generic arguments from a path (keeps leading <T as Trait>)."""
    r = _gen_cache.get(p)
    if r is not None:
        return r
    out = []
    i = 0
    n = len(p)
    while i < n:
        if p[i] == '<' and i > 0:
            # keep <impl ...>
            j = find_close(p, i)
            seg = p[i:j + 1]
            if seg.startswith('<impl '):
                out.append(seg)
            else:
                if out and ''.join(out).endswith('::'):
                    t = ''.join(out)[:-2]
                    out = [t]
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    r = ''.join(out)
    _gen_cache[p] = r
    return r


# ------------------------------------------------------------ types

_ty_cache = {}


def parse_type(s):
    s = s.strip()
    r = _ty_cache.get(s)
    if r is None:
        r = _parse_type(s)
        _ty_cache[s] = r
    return r


PRIMS = {'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize',
         'bool', 'char', 'str', '!', 'f64', 'f32'}


def _parse_type(s):
    if s == '':
        return ('unknown', '')
    if s.startswith('&'):
        t = s[1:].strip()
        m = re.match(r"'[a-zA-Z_0-9]+ ", t)
        if m:
            t = t[m.end():]
        if t.startswith('mut '):
            return ('ref', True, parse_type(t[4:]))
        return ('ref', False, parse_type(t))
    if s.startswith('*const ') or s.startswith('*mut '):
        return ('ptr', parse_type(s.split(' ', 1)[1]))
    if s.startswith('['):
        inner = s[1:-1]
        parts = split_top(inner, ';')
        if len(parts) == 2:
            return ('array', parse_type(parts[0]), parts[1].strip())
        return ('slice', parse_type(inner))
    if s.startswith('('):
        inner = s[1:find_close(s, 0)]
        return ('tuple', tuple(parse_type(x) for x in split_top(inner)))
    if s in PRIMS:
        return ('prim', s)
    if s.startswith('{closure@'):
        return ('closure', s[1:-1])
    if s.startswith('{'):
        return ('opaque', s)
    if s.startswith('dyn ') or s.startswith('impl ') or s.startswith('fn(') or s.startswith('for<') or s.startswith('unsafe '):
        return ('opaque', s)
    if s.startswith('<'):
        return ('proj', s)
    # path with generics
    i = s.find('<')
    if i < 0:
        if re.match(r'^[A-Z][A-Za-z0-9]?$', s):
            return ('param', s)
        return ('adt', s, ())
    # generics may occur at last segment
    args = []
    path = []
    j = 0
    while j < len(s):
        if s[j] == '<':
            k = find_close(s, j)
            seg = s[j + 1:k]
            if not seg.startswith('impl '):
                args = [x for x in split_top(seg) if not x.startswith("'")]
            else:
                path.append(s[j:k + 1])
            j = k + 1
            continue
        path.append(s[j])
        j += 1
    p = ''.join(path)
    if p.endswith('::'):
        p = p[:-2]
    return ('adt', p, tuple(parse_type(a) for a in args if '=' not in a))


def last_seg(p):
    return p.rsplit('::', 1)[-1]


# ------------------------------------------------------------ places / operands / rvalues

class Place:
    __slots__ = ('local', 'proj', 'text')

    def __init__(self, local, proj, text):
        self.local = local
        self.proj = proj
        self.text = text

    def __repr__(self):
        return self.text


_place_cache = {}


def parse_place(s):
    s = s.strip()
    p = _place_cache.get(s)
    if p is None:
        pr, j = _place(s, 0)
        if j != len(s):
            raise ParseError('place: ' + s)
        p = Place(pr[0], tuple(pr[1]), s)
        _place_cache[s] = p
    return p


def _place(s, i):
    """returns ((local, [proj]), next)"""
    if s[i] == '_':
        m = re.match(r'_(\d+)', s[i:])
        res = (int(m.group(1)), [])
        i += m.end()
    elif s[i] == '(':
        j = find_close(s, i)
        inner = s[i + 1:j]
        if inner.startswith('*'):
            (l, pr), k = _place(inner, 1)
            if k != len(inner):
                raise ParseError('place ' + s)
            res = (l, pr + [('deref',)])
        else:
            (l, pr), k = _place(inner, 0)
            rest = inner[k:]
            m = re.match(r'\.(\d+): (.*)$', rest, re.S)
            if m:
                res = (l, pr + [('field', int(m.group(1)), m.group(2))])
            else:
                m = re.match(r' as (.*)$', rest)
                if not m:
                    raise ParseError('place ' + s)
                v = m.group(1)
                if v.startswith('variant#'):
                    res = (l, pr + [('downcast', int(v[8:]))])
                elif v.startswith('subtype '):
                    res = (l, pr)
                else:
                    res = (l, pr + [('downcast', v)])
        i = j + 1
    else:
        raise ParseError('place ' + s[i:i + 60])
    while i < len(s) and s[i] == '[':
        j = find_close(s, i)
        inner = s[i + 1:j]
        m = re.match(r'^_(\d+)$', inner)
        if m:
            res = (res[0], res[1] + [('index', int(m.group(1)))])
        else:
            m = re.match(r'^(-?\d+) of (\d+)$', inner)
            if m:
                res = (res[0], res[1] + [('cindex', int(m.group(1)), int(m.group(2)))])
            else:
                m = re.match(r'^(\d+):(-?\d*)$', inner)
                if not m:
                    raise ParseError('index ' + s)
                res = (res[0], res[1] + [('subslice', int(m.group(1)), m.group(2))])
        i = j + 1
    return res, i


def parse_operand(s):
    s = s.strip()
    if s.startswith('no_retag '):
        s = s[9:]
    if s.startswith('copy '):
        return ('place', parse_place(s[5:]))
    if s.startswith('move '):
        return ('place', parse_place(s[5:]))
    if s.startswith('const '):
        return ('const', s[6:].strip())
    return ('const', s)  # function item


BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'Eq', 'Ne', 'Lt', 'Le',
          'Gt', 'Ge', 'Cmp', 'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow', 'AddUnchecked', 'SubUnchecked',
          'MulUnchecked', 'ShlUnchecked', 'ShrUnchecked', 'Offset'}
UNOPS = {'Not', 'Neg', 'PtrMetadata', 'Len', 'CopyForDeref'}


def top_paren(s):
    """index of first '(' at depth 0"""
    depth = 0
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i = skip_string(s, i)
            continue
        if c == "'":
            j = skip_char(s, i)
            if j != i:
                i = j
                continue
        if c == '(' and depth == 0:
            return i
        if c in '([{<':
            depth += 1
        elif c in ')]}':
            depth -= 1
        elif c == '>' and (i == 0 or s[i - 1] not in '-='):
            depth -= 1
        i += 1
    return -1


def parse_rvalue(s):
    s = s.strip()
    if s.startswith('no_retag '):
        s = s[9:]
    if s.startswith('&raw const (fake) '):
        return ('ref', False, parse_place(s[18:]))
    if s.startswith('&raw const '):
        return ('rawref', parse_place(s[11:]))
    if s.startswith('&raw mut '):
        return ('rawref', parse_place(s[9:]))
    if s.startswith('&mut '):
        return ('ref', True, parse_place(s[5:]))
    if s.startswith('&fake '):
        return ('ref', False, parse_place(re.sub(r'^&fake (shallow |deep )?', '', s)))
    if s.startswith('&'):
        return ('ref', False, parse_place(s[1:]))
    if s.startswith(('copy ', 'move ', 'const ')):
        # cast?
        m = re.search(r' \(([A-Za-z]+)(\([^()]*(\([^()]*\))?[^()]*\)|)?\)$', s)
        if m and ' as ' in s and not s.endswith('"'):
            body = s[:m.start()]
            # split on top-level ' as '
            k = top_as(body)
            if k is not None:
                return ('cast', m.group(1) + (m.group(2) or ''), parse_operand(body[:k]), body[k + 4:])
        return ('use', parse_operand(s))
    if s.startswith('discriminant('):
        return ('discriminant', parse_place(s[13:-1]))
    m = re.match(r'^([A-Za-z]+)\(', s)
    if m and m.group(1) in BINOPS:
        a, b = split_top(s[m.end():-1])
        return ('binop', m.group(1), parse_operand(a), parse_operand(b))
    if m and m.group(1) in UNOPS:
        inner = s[m.end():-1]
        if m.group(1) in ('Len', 'CopyForDeref') and not inner.startswith(('copy', 'move', 'const')):
            return ('unop', m.group(1), ('place', parse_place(inner)))
        return ('unop', m.group(1), parse_operand(inner))
    if s.startswith('['):
        inner = s[1:find_close(s, 0)]
        p = split_top(inner, ';')
        if len(p) == 2:
            return ('repeat', parse_operand(p[0]), p[1].strip())
        return ('array', [parse_operand(x) for x in split_top(inner)])
    if s.startswith('('):
        inner = s[1:find_close(s, 0)]
        return ('tuple', [parse_operand(x) for x in split_top(inner)])
    if s.startswith('{closure@') or s.startswith('{coroutine'):
        j = find_close(s, 0)
        loc = s[1:j]
        rest = s[j + 1:].strip()
        caps = []
        if rest.startswith('{'):
            for f in split_top(rest[1:-1]):
                k = f.index(': ')
                caps.append(parse_operand(f[k + 2:]))
        elif rest.startswith('('):
            caps = [parse_operand(x) for x in split_top(rest[1:-1])]
        return ('closure', loc, caps)
    # ADT aggregate
    if s.endswith('}'):
        # Path { f: op }
        depth_i = agg_brace(s)
        path = s[:depth_i].strip()
        fields = []
        for f in split_top(s[depth_i + 1:-1]):
            k = f.index(': ')
            fields.append((f[:k], parse_operand(f[k + 2:])))
        return ('adt', path, fields, 'named')
    if s.endswith(')'):
        i = top_paren(s)
        path = s[:i]
        return ('adt', path, [(None, parse_operand(x)) for x in split_top(s[i + 1:-1])], 'tuple')
    return ('adt', s, [], 'unit')


def top_as(s):
    depth = 0
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i = skip_string(s, i)
            continue
        if c in '([{<':
            depth += 1
        elif c in ')]}':
            depth -= 1
        elif c == '>' and (i == 0 or s[i - 1] not in '-='):
            depth -= 1
        elif depth == 0 and s.startswith(' as ', i):
            return i
        i += 1
    return None


def agg_brace(s):
    depth = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == '"':
            i = skip_string(s, i)
            continue
        if c == '{' and depth == 0:
            return i
        if c in '([{<':
            depth += 1
        elif c in ')]}':
            depth -= 1
        elif c == '>' and s[i - 1] not in '-=':
            depth -= 1
        i += 1
    raise ParseError('agg ' + s)


# ------------------------------------------------------------ functions

class Fn:
    def __init__(self, header):
        self.header = header
        self.name = None        # raw definition path
        self.key = None         # normalised key
        self.params = []        # [(local, typestr)]
        self.ret = ''
        self.locals = {}        # n -> typestr
        self.debug = {}         # n -> user name
        self.blocks = {}        # bb -> (stmts raw, term raw)
        self.parsed = {}        # bb -> (stmts, term)
        self.is_const = False
        self._loops = None

    def block(self, bb):
        b = self.parsed.get(bb)
        if b is None:
            raw = self.blocks[bb]
            b = parse_block(raw)
            self.parsed[bb] = b
        return b

    def succs(self, bb):
        st, t = self.block(bb)
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x for _, x in t[2]] + ([t[3]] if t[3] is not None else [])
        if k in ('drop',):
            return [t[2]]
        if k == 'assert':
            return [t[4]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        return []

    def loops(self):
        """loop head -> set of blocks of its natural loop"""
        if self._loops is not None:
            return self._loops
        # DFS for back edges
        color = {}
        back = []
        stack = [(0, iter(self.succs(0)))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                if color.get(s) is None:
                    color[s] = 1
                    stack.append((s, iter(self.succs(s))))
                    adv = True
                    break
                elif color[s] == 1:
                    back.append((b, s))
            if not adv:
                color[b] = 2
                stack.pop()
        preds = {}
        for b in color:
            for s in self.succs(b):
                preds.setdefault(s, []).append(b)
        loops = {}
        for (b, h) in back:
            body = loops.setdefault(h, {h})
            work = [b]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work.extend(preds.get(x, []))
        self._loops = loops
        return loops


def parse_block(lines):
    stmts = []
    term = None
    for l in lines:
        if l.startswith(('StorageLive', 'StorageDead', 'nop', 'FakeRead', 'PlaceMention', 'AscribeUserType',
                         'ConstEvalCounter', 'BackwardIncompatibleDropHint', 'Coverage', 'Retag')):
            continue
        t = parse_term(l)
        if t is not None:
            term = t
            break
        if l.startswith('discriminant('):
            i = find_close(l, 12)
            stmts.append(('setdiscr', parse_place(l[13:i]), l[i + 4:].strip()))
            continue
        if l.startswith(('assume(', 'Deinit(', 'deinit(', 'copy_nonoverlapping')):
            if l.startswith('assume'):
                continue
            if l.startswith(('Deinit', 'deinit')):
                continue
            raise ParseError(l)
        i = l.index(' = ')
        stmts.append(('assign', parse_place(l[:i]), parse_rvalue(l[i + 3:])))
    return stmts, term


def parse_term(l):
    if l.startswith('goto -> '):
        return ('goto', int(l[10:]))
    if l == 'return':
        return ('return',)
    if l == 'unreachable':
        return ('unreachable',)
    if l.startswith(('resume', 'terminate')):
        return ('unreachable',)
    if l.startswith('switchInt('):
        i = find_close(l, 9)
        op = parse_operand(l[10:i])
        tgt = l[i + 1:]
        inner = tgt[tgt.index('[') + 1:tgt.rindex(']')]
        cases = []
        other = None
        for c in split_top(inner):
            k, v = c.split(': ')
            if k == 'otherwise':
                other = int(v[2:])
            else:
                cases.append((int(k), int(v[2:])))
        return ('switch', op, cases, other)
    if l.startswith('drop('):
        i = find_close(l, 4)
        m = re.search(r'return: bb(\d+)', l[i:])
        return ('drop', parse_place(l[5:i]), int(m.group(1)))
    if l.startswith('assert('):
        i = find_close(l, 6)
        args = split_top(l[7:i])
        c = args[0]
        neg = False
        if c.startswith('!'):
            neg = True
            c = c[1:]
        m = re.search(r'success: bb(\d+)', l[i:])
        return ('assert', parse_operand(c), neg, args[1] if len(args) > 1 else '', int(m.group(1)), args[2:])
    if l.startswith('falseEdge') or l.startswith('falseUnwind'):
        m = re.search(r'real: bb(\d+)', l)
        return ('goto', int(m.group(1)))
    m = re.search(r' -> (\[return: bb(\d+), unwind[^\]]*\]|unwind [a-z0-9: ]+|bb\d+|\[return: bb\d+\])$', l)
    if m and ' = ' in l:
        body = l[:m.start()]
        i = body.index(' = ')
        dest = parse_place(body[:i])
        call = body[i + 3:]
        tail = m.group(1)
        mm = re.search(r'return: bb(\d+)', tail)
        ret = int(mm.group(1)) if mm else None
        callee_end = top_paren(call)
        # fn-pointer calls: "move _5(args)" / "copy _5(args)"
        callee = call[:callee_end]
        args = [parse_operand(a) for a in split_top(call[callee_end + 1:-1])]
        return ('call', dest, callee, args, ret)
    return None


def parse_mir(text):
    fns = []
    statics = {}
    allocs = {}
    cur = None
    blk = None
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        line = lines[i]
        if cur is None:
            if line.startswith('fn ') or ((line.startswith('const ') or line.startswith('static ')) and line.endswith('= {')):
                cur = Fn(line)
                parse_header(cur, line)
            elif (line.startswith('const ') or line.startswith('static ')) and line.rstrip().endswith(';'):
                m = re.match(r'^(?:const|static(?: mut)?) (.*): (.*?) = (.*);$', line)
                if m:
                    statics[m.group(1)] = m.group(3)
            else:
                m = re.match(r'^(alloc\d+) \((.*?)\) \{', line)
                if m:
                    a = m.group(1)
                    data = []
                    mm = re.match(r'static: (.*?)(, size|$)', m.group(2))
                    if not line.rstrip().endswith('}'):
                        i += 1
                        while i < n and lines[i] != '}':
                            data.append(lines[i])
                            i += 1
                    allocs.setdefault(a, (mm.group(1) if mm else None, m.group(2), data))
            i += 1
            continue
        if line == '}':
            fns.append(cur)
            cur = None
            blk = None
            i += 1
            continue
        s = line.strip()
        if blk is None:
            m = re.match(r'^bb(\d+)( \(cleanup\))?: \{$', s)
            if m:
                blk = int(m.group(1))
                cur.blocks[blk] = []
            else:
                m = re.match(r'^let (?:mut )?_(\d+): (.*);$', s)
                if m:
                    cur.locals[int(m.group(1))] = m.group(2)
                else:
                    m = re.match(r'^debug (\S+) => _(\d+);$', s)
                    if m:
                        cur.debug[int(m.group(2))] = m.group(1)
        else:
            if s == '}':
                blk = None
            elif s:
                # statements may span lines when they contain multi-line strings
                while not s.endswith(';'):
                    i += 1
                    s = s + '\n' + lines[i]
                cur.blocks[blk].append(s[:-1])
        i += 1
    return fns, statics, allocs


def parse_header(f, line):
    if line.startswith('fn '):
        s = line[3:]
        # name up to the '(' at depth 0
        i = top_paren(s)
        f.name = s[:i]
        j = find_close(s, i)
        for p in split_top(s[i + 1:j]):
            m = re.match(r'^_(\d+): (.*)$', p, re.S)
            f.params.append((int(m.group(1)), m.group(2)))
            f.locals[int(m.group(1))] = m.group(2)
        m = re.match(r'^ -> (.*) \{$', s[j + 1:])
        f.ret = m.group(1) if m else '()'
    else:
        m = re.match(r'^(?:const|static(?: mut)?) (.*?): (.*) = \{$', line)
        # names contain '::' so use split at ': ' with top-level awareness
        body = re.sub(r'^(const|static mut|static) ', '', line)[:-4]
        depth = 0
        for k in range(len(body)):
            c = body[k]
            if c in '<([{':
                depth += 1
            elif c in ')]}' or (c == '>' and body[k - 1] not in '-='):
                depth -= 1
            elif c == ':' and depth == 0 and body[k + 1] == ' ':
                f.name = body[:k]
                f.ret = body[k + 2:]
                break
        f.is_const = True


# ------------------------------------------------------------ item declarations (expanded source)

TOK = re.compile(r'''\s+|//[^\n]*|/\*.*?\*/|r#*"(?:.|\n)*?"#*|b?"(?:\\.|[^"\\])*"|b?'(?:\\x..|\\u\{[^}]*\}|\\.|[^\\'])'|'[A-Za-z_]\w*|[A-Za-z_]\w*!?|\d[\w.]*|::|->|=>|.''', re.S)


def tokenize(src):
    out = []
    for m in TOK.finditer(src):
        t = m.group(0)
        if t.isspace() or t.startswith('//') or t.startswith('/*'):
            continue
        out.append(t)
    return out


def parse_items(src):
    """returns (structs, enums): path-> [(fieldname, type)], path -> [(variant, discr, [(field,type)])]"""
    toks = tokenize(src)
    structs, enums = {}, {}
    i = 0
    n = len(toks)
    path = []
    ends = []

    def match_close(i):
        d = 0
        while True:
            t = toks[i]
            if t in '([{' and len(t) == 1:
                d += 1
            elif t in ')]}' and len(t) == 1:
                d -= 1
                if d == 0:
                    return i
            i += 1

    def fields_named(a, b):
        out = []
        j = a
        while j < b:
            while toks[j] == '#':
                j = match_close(j + 1) + 1
            if toks[j] == 'pub':
                j += 1
                if toks[j] == '(':
                    j = match_close(j) + 1
            nm = toks[j]
            j += 2
            st = j
            d = 0
            while j < b and not (toks[j] == ',' and d == 0):
                if toks[j] in ('<', '(', '[', '{'):
                    d += 1
                elif toks[j] in ('>', ')', ']', '}'):
                    d -= 1
                j += 1
            out.append((nm, ' '.join(toks[st:j])))
            j += 1
        return out

    def fields_tuple(a, b):
        out = []
        j = a
        k = 0
        while j < b:
            while toks[j] == '#':
                j = match_close(j + 1) + 1
            if toks[j] == 'pub':
                j += 1
                if toks[j] == '(':
                    j = match_close(j) + 1
            st = j
            d = 0
            while j < b and not (toks[j] == ',' and d == 0):
                if toks[j] in ('<', '(', '[', '{'):
                    d += 1
                elif toks[j] in ('>', ')', ']', '}'):
                    d -= 1
                j += 1
            out.append((str(k), ' '.join(toks[st:j])))
            k += 1
            j += 1
        return out

    while i < n:
        t = toks[i]
        if ends and i == ends[-1]:
            ends.pop()
            path.pop()
            i += 1
            continue
        if t == 'mod' and i + 2 < n and toks[i + 2] == '{':
            path.append(toks[i + 1])
            ends.append(match_close(i + 2))
            i += 3
            continue
        if t in ('struct', 'enum') and re.match(r'[A-Za-z_]\w*$', toks[i + 1]):
            nm = toks[i + 1]
            j = i + 2
            if toks[j] == '<':
                d = 0
                while True:
                    if toks[j] == '<':
                        d += 1
                    elif toks[j] == '>':
                        d -= 1
                    j += 1
                    if d == 0:
                        break
            while toks[j] not in ('{', '(', ';'):
                j += 1
            full = '::'.join(path + [nm])
            if t == 'struct':
                if toks[j] == '{':
                    e = match_close(j)
                    structs[full] = fields_named(j + 1, e)
                elif toks[j] == '(':
                    e = match_close(j)
                    structs[full] = fields_tuple(j + 1, e)
                else:
                    e = j
                    structs[full] = []
            else:
                e = match_close(j)
                vs = []
                k = j + 1
                d = 0
                while k < e:
                    while toks[k] == '#':
                        k = match_close(k + 1) + 1
                    vn = toks[k]
                    k += 1
                    fl = []
                    if toks[k] == '(':
                        c = match_close(k)
                        fl = fields_tuple(k + 1, c)
                        k = c + 1
                    elif toks[k] == '{':
                        c = match_close(k)
                        fl = fields_named(k + 1, c)
                        k = c + 1
                    if toks[k] == '=':
                        st = k + 1
                        while toks[k] != ',' and k < e:
                            k += 1
                        try:
                            d = int(''.join(toks[st:k]).replace('_', ''), 0)
                        except ValueError:
                            pass
                    vs.append((vn, d, fl))
                    d += 1
                    k += 1
                enums[full] = vs
            i = e + 1
            continue
        if t == 'fn':
            # skip the body
            j = i + 1
            while toks[j] not in ('{', ';'):
                if toks[j] in ('(', '['):
                    j = match_close(j)
                j += 1
            if toks[j] == '{':
                j = match_close(j)
            i = j + 1
            continue
        i += 1
    return structs, enums


# ------------------------------------------------------------ crate

def norm_path_types(s):
    """drop path qualifiers and lifetimes and whitespace from a type text"""
    s = re.sub(r"'\w+\s*,?\s*", '', s)
    s = re.sub(r'([A-Za-z_]\w*\s*::\s*)+(?=[A-Za-z_<])', '', s)
    s = s.replace('::<', '<')
    return re.sub(r'\s+', '', s)


class Crate:
    def __init__(self, mir_text, expanded_text, root):
        self.root = root
        self.fns, self.statics, self.allocs = parse_mir(mir_text)
        self.structs, self.enums = parse_items(expanded_text)
        self.const_generics = {}
        for m in re.finditer(r'\bfn\s+(\w+)\s*<', expanded_text):
            try:
                ps = split_top(expanded_text[m.end():find_close(expanded_text, m.end() - 1)])
            except ParseError:
                continue
            ps = [x.strip() for x in ps if x.strip() and not x.strip().startswith("'")]
            if any(x.startswith('const ') for x in ps):
                self.const_generics.setdefault(m.group(1), []).append(ps)
        self.instances = {}
        self.src = {}
        self.by_key = {}
        self.closures = {}
        self.consts = {}
        for f in self.fns:
            f.key = self.def_key(f.name)
            if f.is_const:
                self.consts[f.key] = f
                continue
            if f.params:
                t = f.params[0][1].lstrip('&').replace('mut ', '').strip()
                m = re.search(r'\{closure#\d+\}$', f.name)
                if m and t.startswith('{closure@'):
                    self.closures[t[1:-1]] = f
                    continue
            self.by_key[f.key] = f
        self.statics = {self.def_key(k): v for k, v in self.statics.items()}
        self.adt_short = {}
        for k in list(self.structs) + list(self.enums):
            self.adt_short.setdefault(k.rsplit('::', 1)[-1], []).append(k)

    def srcline(self, file, l):
        if file not in self.src:
            try:
                self.src[file] = open(self.root + '/' + file).read().split('\n')
            except OSError:
                self.src[file] = []
        s = self.src[file]
        return s[l - 1] if l - 1 < len(s) else ''

    def impl_info(self, loc):
        """'src/x.rs:12:1: 12:16' -> (type short, trait or None)"""
        m = re.match(r'(.*?):(\d+):(\d+): (\d+):(\d+)$', loc)
        file, l1, c1, l2, c2 = m.group(1), *map(int, m.groups()[1:])
        if l1 == l2:
            text = self.srcline(file, l1)[c1 - 1:c2 - 1]
        else:
            parts = [self.srcline(file, l1)[c1 - 1:]]
            for l in range(l1 + 1, l2):
                parts.append(self.srcline(file, l))
            parts.append(self.srcline(file, l2)[:c2 - 1])
            text = ' '.join(parts)
        text = text.strip()
        if not re.match(r'(unsafe\s+)?impl\b', text):
            # derive: the next item declaration
            for l in range(l2, l2 + 60):
                mm = re.search(r'\b(?:struct|enum|union)\s+([A-Za-z_]\w*)', self.srcline(file, l))
                if mm:
                    return mm.group(1), norm_path_types(text)
            return '?', text
        t = re.sub(r'^(unsafe\s+)?impl\s*', '', text)
        if t.startswith('<'):
            t = t[find_close(t, 0) + 1:]
        t = t.rstrip('{').strip()
        t = re.sub(r'\bwhere\b.*$', '', t).strip()
        k = re.search(r'\bfor\b', t)
        # ' for ' at depth 0
        idx = None
        d = 0
        for q in range(len(t)):
            if t[q] in '<([':
                d += 1
            elif t[q] in ')]' or (t[q] == '>' and t[q - 1] != '-'):
                d -= 1
            elif d == 0 and t.startswith(' for ', q):
                idx = q
                break
        if idx is None:
            return norm_path_types(strip_lts(t)).split('<')[0], None
        return norm_path_types(strip_lts(t[idx + 5:])).split('<')[0], norm_path_types(strip_lts(t[:idx]))

    def def_key(self, name):
        m = re.search(r'<impl at ([^>]*)>::', name)
        if m:
            ty, tr = self.impl_info(m.group(1))
            rest = name[m.end():]
            rest = strip_generics(rest)
            if tr is None:
                return '%s::%s' % (ty, rest)
            return '<%s as %s>::%s' % (ty, tr, rest)
        p = strip_generics(name)
        return p

    def call_key(self, callee):
        """normalised key(s) under which a crate function may be defined"""
        c = callee.strip()
        if c.startswith('<'):
            j = find_close(c, 0)
            inner = c[1:j]
            k = top_as(inner)
            if k is None:
                return None
            ty = norm_path_types(strip_lts(inner[:k])).lstrip('&')
            ty = re.sub(r'^mut', '', ty)
            tr = norm_path_types(strip_lts(inner[k + 4:]))
            return '<%s as %s>::%s' % (ty.split('<')[0], tr, strip_generics(c[j + 3:]))
        p = strip_generics(c)
        m = re.match(r'^.*<impl ([^>]*(?:<.*>)?)>::(.*)$', p)
        if m:
            return '%s::%s' % (norm_path_types(m.group(1)).split('<')[0], m.group(2))
        return p

    def lookup(self, callee):
        k = self.call_key(callee)
        if k is None:
            return None
        f = self.by_key.get(k)
        if f:
            return f
        # inherent method: last two segments
        segs = k.split('::')
        if not k.startswith('<') and len(segs) >= 2:
            f = self.by_key.get('::'.join(segs[-2:]))
            if f and (len(segs) == 2 or self.is_crate_path(segs[:-1])):
                return f
        if k.startswith('<'):
            # trait generics may be spelled out (Rhs=Self defaults)
            m = re.match(r'^<(.*) as ([A-Za-z_]+)(<.*>)?>::(.*)$', k)
            if m:
                ty, tr, g, meth = m.groups()
                f = self.by_key.get('<%s as %s>::%s' % (ty, tr, meth))
                if f:
                    return f
        return None

    def instantiate(self, f, callee):
        """the body of a function with const generics, for the constants of this call"""
        cands = self.const_generics.get(f.key.split('::')[-1])
        if not cands:
            return f
        if len(cands) > 1 or not callee.endswith('>'):
            raise ParseError('const generics of ' + f.key)
        i = callee.rfind('::<')
        while i > 0 and find_close(callee, i + 2) != len(callee) - 1:
            i = callee.rfind('::<', 0, i)
        args = [a for a in split_top(callee[i + 3:-1]) if not a.strip().startswith("'")]
        sub = {}
        for p, a in zip(cands[0], args):
            m = re.match(r'^const (\w+)\s*:\s*(\w+)', p)
            if m:
                v = re.match(r'^\{?\s*(?:const )?(\d+)(?:_\w+)?\s*\}?$', a.strip())
                if not v:
                    raise ParseError('const argument ' + a)
                sub[m.group(1)] = (v.group(1), m.group(2))
        k = (f.key, tuple(sorted(sub.items())))
        g = self.instances.get(k)
        if g is None:
            def conv(t):
                if '"' in t:
                    i = t.index('"')
                    j = skip_string(t, i)
                    return conv(t[:i]) + t[i:j] + conv(t[j:])
                for n, (v, ty) in sub.items():
                    t = re.sub(r'\bconst %s\b(?!::)' % n, 'const %s_%s' % (v, ty), t)
                    t = re.sub(r'(?<![\w:])%s\b(?!::)' % n, v, t)
                return t
            g = Fn(conv(f.header))
            g.name, g.key, g.is_const, g.debug = f.name, f.key, f.is_const, f.debug
            g.params = [(l, conv(t)) for l, t in f.params]
            g.ret = conv(f.ret)
            g.locals = {l: conv(t) for l, t in f.locals.items()}
            g.blocks = {b: [conv(x) for x in ls] for b, ls in f.blocks.items()}
            self.instances[k] = g
        return g

    def is_crate_path(self, segs):
        p = '::'.join(segs)
        if p in self.structs or p in self.enums:
            return True
        # re-exported or shorter path (`yubikey` is also the name of a crate)
        if segs[0] == 'yubikey' and not any(p.startswith('yubikey::') for p in self.adt_short.get(segs[-1], ())):
            return False
        return segs[-1] in self.adt_short and segs[0] in ('ssh', 'fido', 'yubikey', 'x509', 'utils', 'error', 'crate')

    def adt(self, path):
        """full path in crate for an ADT path printed in MIR, or None"""
        if path in self.structs or path in self.enums:
            return path
        return None


def strip_lts(t):
    t = re.sub(r"<'_>|<'\w+>", '', t)
    t = re.sub(r"'\w+\s*,\s*", '', t)
    t = re.sub(r"&'\w+\s+", '&', t)
    return t
