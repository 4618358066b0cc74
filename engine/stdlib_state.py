"""State that outlives a call (statics, thread locals, the environment, the clock): a property holds for every history,
so whatever such state holds is arbitrary."""
import re
from stdlib_x import *
from mirparse import parse_type, find_close
from exec import Frame
import stdlib


def self_generic(c):
    """T of Wrapper::<T>::method"""
    i = c.callee.find('::<')
    if i < 0:
        raise Unsupported('type of ' + c.callee[:80])
    return parse_type(c.callee[i + 3:find_close(c.callee, i + 2)])


def is_static(v):
    return isinstance(v, Opq) and isinstance(v.t, z3.ExprRef) and str(v.t).startswith('static.')


def anything(c, ty, what):
    return c.ex.fresh(c.cx, ty, what)


def static_only(c):
    v = c.a[0]
    v = c.ex.deref(c.cx, v) if isinstance(v, MRef) else v
    if not is_static(v):
        raise Unsupported('interior mutability of a value that is not a static')
    return v


def _atomic(op):
    def f(c):
        static_only(c)
        v = anything(c, self_generic(c), 'static')
        if op == 'store':
            return UNIT
        if op in ('compare_exchange', 'compare_exchange_weak', 'fetch_update'):
            return Ok(v) if c.branch(c.cx.fbool('exchanged')) else Err(v)
        return v
    return f


for _op in ('load', 'store', 'swap', 'fetch_add', 'fetch_sub', 'fetch_max', 'fetch_min', 'fetch_or', 'fetch_and', 'fetch_xor',
            'compare_exchange', 'compare_exchange_weak', 'fetch_update'):
    H['Atomic::' + _op] = _atomic(_op)
    for _t in ('Bool', 'U8', 'U16', 'U32', 'U64', 'Usize', 'I8', 'I16', 'I32', 'I64', 'Isize'):
        H['Atomic%s::%s' % (_t, _op)] = _atomic(_op)


def cell(c, ty, what):
    c.cx.frames += 1
    fr = Frame(None, c.cx.frames)
    fr.shared = True
    fr.l[0] = anything(c, ty, what)
    return MRef(fr, 0)


# ---- Mutex, RwLock: another thread may have put anything there

@std('Mutex::lock', 'RwLock::write', 'RwLock::read')
def _lock(c):
    static_only(c)
    r = cell(c, self_generic(c), 'locked')
    return Ok(r)      # poisoning needs a panic while locked


# ---- thread locals: what an earlier call left there

@std('LocalKey::new')
def _lknew(c):
    return Opq(z3.Const('static.threadlocal', U), ('unknown', ''))


def inner(ty):
    if ty[0] == 'adt' and last_seg(ty[1]) in ('RefCell', 'Cell', 'UnsafeCell'):
        return ty[2][0]
    return ty


def local_cell(c):
    cs = getattr(c.cx, 'threadlocals', None)
    if cs is None:
        cs = c.cx.threadlocals = {}
    ty = self_generic(c)
    k = str(ty)
    if k not in cs:
        cs[k] = cell(c, inner(ty), 'threadlocal')
    return cs[k]


@std('LocalKey::with', 'LocalKey::with_borrow', 'LocalKey::with_borrow_mut')
def _lkwith(c):
    return c.ex.call_value(c.cx, c.a[1], [local_cell(c)])


@std('LocalKey::get')
def _lkget(c):
    return c.ex.deref(c.cx, local_cell(c))


@std('LocalKey::set')
def _lkset(c):
    c.ex.wr(c.cx, local_cell(c), c.v(1))
    return UNIT


@std('LocalKey::take', 'LocalKey::replace')
def _lktake(c):
    r = local_cell(c)
    old = c.ex.deref(c.cx, r)
    c.ex.wr(c.cx, r, c.v(1) if len(c.a) > 1 else stdlib.default(c, c.rty))
    return old


def state_ref(c):
    if not isinstance(c.a[0], MRef):
        raise Unsupported('interior mutability of a local value')
    return c.a[0]


@std('RefCell::borrow')
def _rb(c):
    return c.ex.deref(c.cx, state_ref(c))


@std('RefCell::borrow_mut')
def _rbm(c):
    return state_ref(c)


@std('Cell::get')
def _cg(c):
    return c.ex.deref(c.cx, state_ref(c))


@std('Cell::set')
def _cs(c):
    c.ex.wr(c.cx, state_ref(c), c.v(1))
    return UNIT


@std('Cell::replace', 'RefCell::replace', 'Cell::take', 'RefCell::take')
def _cr(c):
    r = state_ref(c)
    old = c.ex.deref(c.cx, r)
    c.ex.wr(c.cx, r, c.v(1) if len(c.a) > 1 else stdlib.default(c, c.rty))
    return old


# ---- OnceLock: what the first caller put there

def once_init(c, f):
    if isinstance(f, Clo) and not f.caps or not isinstance(f, Clo):
        return c.ex.call_value(c.cx, f, [])
    if c.branch(c.cx.fbool('first use')):
        return c.ex.call_value(c.cx, f, [])
    return anything(c, self_generic(c), 'once')


@std('OnceLock::get_or_init', 'OnceCell::get_or_init')
def _once(c):
    static_only(c)
    return once_init(c, c.a[1])


@std('OnceLock::get', 'OnceCell::get')
def _onceget(c):
    static_only(c)
    return Some(anything(c, self_generic(c), 'once')) if c.branch(c.cx.fbool('set before')) else NONE


@std('OnceLock::set', 'OnceCell::set')
def _onceset(c):
    static_only(c)
    return Ok(UNIT) if c.branch(c.cx.fbool('first use')) else Err(c.v(1))


# ---- environment and clock

@std('env::var', 'env::var_os')
def _env(c):
    s = c.cx.fseq('environment')
    if c.callee.split('::<')[0].endswith('var_os'):
        return Some(s) if c.branch(c.cx.fbool('variable set')) else NONE
    c.cx.add(UTF8(s.p[0][1]))
    return Ok(s) if c.branch(c.cx.fbool('variable set')) else Err(UNSPEC)


@std('SystemTime::now', 'Instant::now')
def _now(c):
    return anything(c, ('adt', 'std::time::Now', ()), 'now')


@std('SystemTime::duration_since')
def _dsince(c):
    return Ok(anything(c, ('adt', 'std::time::Duration', ()), 'duration'))


@std('Instant::elapsed')
def _elapsed(c):
    return anything(c, ('adt', 'std::time::Duration', ()), 'duration')


@std('Duration::as_secs', 'Duration::as_millis', 'Duration::subsec_nanos', 'Duration::as_nanos')
def _dsecs(c):
    return anything(c, c.rty, 'time')
