"""Models (assumed contracts) of the runtime, libc and libstdc++ functions that verified code reaches."""
import re
import z3
from engine import *

H = []


def hook(*names):
    def d(f):
        for n in names:
            H.append((n, f))
        return f
    return d


def rx(p):
    return re.compile(p)


# ---------------------------------------------------------------- helpers
def cstring(E, st, p):
    """python bytes of a concrete NUL-terminated string, or a Str"""
    if isinstance(p, int) and p == 0:
        return ''
    p, o = E.resolve(st, p, 'read')
    if o.tag is not None and isinstance(p.off, int) and p.off == 0:
        return o.tag
    r = bytearray()
    off = p.off
    if not isinstance(off, int):
        raise Unsupported('cstring at symbolic offset')
    while True:
        b = E.read(st, o, off, 1)
        if not isinstance(b, int):
            raise Unsupported('symbolic C string')
        if b == 0:
            return r.decode('latin1')
        r.append(b)
        off += 1
        if len(r) > 4000:
            raise Unsupported('unterminated string')


def nm(E, st, p):
    s = cstring(E, st, p)
    return s if isinstance(s, str) else str(s)


def nondet(E, st, name, w, term=None):
    t = E.fresh(name, w) if term is None else term
    st.trace = (st.trace, (name, t, w))
    return t


# ---------------------------------------------------------------- intrinsics
def _nd(w):
    def f(E, st, a, i, fn):
        return nondet(E, st, nm(E, st, a[0]), w)
    return f


for _n, _w in (('vc_u64', 64), ('vc_u32', 32), ('vc_u16', 16), ('vc_u8', 8), ('vc_i32', 32), ('vc_i64', 64), ('vc_bool', 1), ('vc_opaque', 64)):
    hook(_n)(_nd(_w))


@hook('vc_f64')
def vc_f64(E, st, a, i, fn):
    t = nondet(E, st, nm(E, st, a[0]), 64)
    return z3.fpBVToFP(t, z3.Float64())


@hook('vc_choice')
def vc_choice(E, st, a, i, fn):
    # concrete case split 0..n-1
    n = a[1]
    name = nm(E, st, a[0])
    key = ('choice', st.frames[-1].uid, st.frames[-1].blk, st.frames[-1].ip, len(st.traces()))
    t = st.ghost.get(key)
    if t is None:
        t = E.fresh(name, 32)
        st.ghost[key] = t
        E.assume(st, z3.ULT(t, n))
    for k in range(n - 1):
        if E.decide(st, t == k):
            break
    else:
        k = n - 1
    del st.ghost[key]
    st.trace = (st.trace, (name, t, 32))
    return k


@hook('vc_assume')
def vc_assume(E, st, a, i, fn):
    c = tobool(a[0])
    f, _ = E.feasible(st, z3.simplify(c))
    if f is False:
        raise PathEnd()
    E.assume(st, c)


@hook('vc_assert')
def vc_assert(E, st, a, i, fn):
    E.obligation(st, tobool(a[0]), nm(E, st, a[1]))


@hook('vc_cover')
def vc_cover(E, st, a, i, fn):
    n = nm(E, st, a[0])
    if E.analysis:
        return
    if not E.covers.get(n):
        r, m = E.check(st.pcs())
        if r == 'sat':
            E.covers[n] = True
        elif r == 'unsat':
            E.covers.setdefault(n, False)
            raise PathEnd()
        else:
            E.covers.setdefault(n, False)


@hook('vc_symbolic')
def vc_symbolic(E, st, a, i, fn):
    return 1


@hook('vc_alloc')
def vc_alloc(E, st, a, i, fn):
    """object with symbolic base address aligned to a[1] (a power of two constant), nondeterministic content"""
    size, al = a[0], a[1]
    base = nondet(E, st, 'addr', 64)
    oid = E.new_obj(st, size, 'ext', 'region%d' % E.next_obj, ('nondet', z3.Array('mem!%d' % E.next_obj, z3.BitVecSort(64), z3.BitVecSort(8))), base)
    E.assume(st, z3.UGE(base, 4096))
    E.assume(st, z3.ULE(base, BV(1 << 47, 64)))
    szb = E.bv(size)
    E.assume(st, z3.ULE(szb, BV(1 << 47, 64)))
    if isinstance(al, int) and al > 1:
        E.assume(st, z3.Extract(al.bit_length() - 2, 0, base) == 0)
    E.hook_state.setdefault('symbase', []).append((oid, base))
    return Ptr(oid, 0)


@hook('vc_malloc')
def vc_malloc(E, st, a, i, fn):
    oid = E.new_obj(st, a[0], 'heap', 'block%d' % E.next_obj, ('nondet', z3.Array('mem!%d' % E.next_obj, z3.BitVecSort(64), z3.BitVecSort(8))))
    return Ptr(oid, 0)


@hook('vc_zalloc')
def vc_zalloc(E, st, a, i, fn):
    return Ptr(E.new_obj(st, a[0], 'ext', 'block%d' % E.next_obj, 'zero'), 0)


@hook('vc_kill')
def vc_kill(E, st, a, i, fn):
    p, o = E.resolve(st, a[0])
    st.wobj(p.obj).alive = False


@hook('vc_is_dead')
def vc_is_dead(E, st, a, i, fn):
    o = st.obj(a[0].obj)
    return int(not o.alive)


@hook('vc_havoc')
def vc_havoc(E, st, a, i, fn):
    p, o = E.resolve(st, a[0])
    n = a[1]
    if not isinstance(p.off, int) or not isinstance(n, int):
        raise Unsupported('vc_havoc symbolic')
    k = 0
    while k < n:
        s = 8 if n - k >= 8 and (p.off + k) % 8 == 0 else 4 if n - k >= 4 and (p.off + k) % 4 == 0 else 2 if n - k >= 2 and (p.off + k) % 2 == 0 else 1
        E.write(st, p.obj, p.off + k, s, nondet(E, st, 'havoc', 8 * s))
        k += s


@hook('vc_inv')
def vc_inv(E, st, a, i, fn):
    n = nm(E, st, a[1])
    if not any(x[0] == n for x in E.invs):
        E.invs.append((n, a[0].name))


@hook('vc_inv_clear')
def vc_inv_clear(E, st, a, i, fn):
    E.invs = []


@hook('vc_heap_live')
def vc_heap_live(E, st, a, i, fn):
    return sum(1 for o in st.mem.values() if o.kind == 'heap' and o.alive and o.name != 'exception')


@hook('vc_same_object')
def vc_same_object(E, st, a, i, fn):
    return int(isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and a[0].obj == a[1].obj)


@hook('vc_name_fn')
def vc_name_fn(E, st, a, i, fn):
    return None


@hook('vc_log')
def vc_log(E, st, a, i, fn):
    import sys
    print('VCLOG', nm(E, st, a[0]), a[1] if len(a) > 1 else '', 'pc=%d' % st.npc, file=sys.stderr)


@hook('vc_unreachable')
def vc_unreachable(E, st, a, i, fn):
    E.violation(st, nm(E, st, a[0]))


@hook('vc_exit_path')
def vc_exit_path(E, st, a, i, fn):
    raise PathEnd()


# ---------------------------------------------------------------- llvm intrinsics
@hook(rx(r'^llvm\.(lifetime|dbg|assume|var\.annotation|donothing|prefetch|experimental)'))
def nop(E, st, a, i, fn):
    return None


@hook(rx(r'^llvm\.(memcpy|memmove)\.'))
def ll_memcpy(E, st, a, i, fn):
    E.memcpy(st, a[0], a[1], a[2])


@hook(rx(r'^llvm\.memset\.'))
def ll_memset(E, st, a, i, fn):
    E.memset(st, a[0], a[1], a[2])


@hook('memcpy', 'memmove')
def c_memcpy(E, st, a, i, fn):
    E.memcpy(st, a[0], a[1], a[2])
    return a[0]


@hook('memset')
def c_memset(E, st, a, i, fn):
    b = a[1]
    E.memset(st, a[0], b & 255 if isinstance(b, int) else z3.Extract(7, 0, b), a[2])
    return a[0]


@hook(rx(r'^llvm\.threadlocal\.address'))
def ll_tls(E, st, a, i, fn):
    return a[0]


@hook(rx(r'^llvm\.eh\.typeid\.for'))
def ll_typeid(E, st, a, i, fn):
    p = a[0]
    if isinstance(p, int):
        return E.tid_null()
    o = st.obj(p.obj)
    return E.tid(o.name)


@hook(rx(r'^llvm\.(umul|smul|uadd|sadd|usub|ssub)\.with\.overflow'))
def ll_ovf(E, st, a, i, fn):
    w = width(fn.ret[2][0][1])
    op = fn.dem.split('.')[1]
    x, y = a
    if isinstance(x, int) and isinstance(y, int):
        sx = x - (1 << w) if op[0] == 's' and x >> (w - 1) else x
        sy = y - (1 << w) if op[0] == 's' and y >> (w - 1) else y
        r = {'mul': sx * sy, 'add': sx + sy, 'sub': sx - sy}[op[1:]]
        lo, hi = (-(1 << (w - 1)), 1 << (w - 1)) if op[0] == 's' else (0, 1 << w)
        return [r & ((1 << w) - 1), int(not lo <= r < hi)]
    x, y = E.bv(x, w), E.bv(y, w)
    e = z3.ZeroExt if op[0] == 'u' else z3.SignExt
    X, Y = e(w, x), e(w, y)
    r = {'mul': X * Y, 'add': X + Y, 'sub': X - Y}[op[1:]]
    lo = z3.Extract(w - 1, 0, r)
    return [E.norm(lo), z3.simplify(e(w, lo) != r)]


@hook(rx(r'^llvm\.(umax|umin|smax|smin)\.'))
def ll_minmax(E, st, a, i, fn):
    w = width(fn.ret)
    x, y = E.bv(a[0], w), E.bv(a[1], w)
    k = fn.dem.split('.')[1]
    c = {'umax': z3.UGE(x, y), 'umin': z3.ULE(x, y), 'smax': x >= y, 'smin': x <= y}[k]
    return E.norm(z3.If(c, x, y))


@hook(rx(r'^llvm\.(trap|debugtrap|ubsantrap)'))
def ll_trap(E, st, a, i, fn):
    E.violation(st, 'no-abort', 'trap')


@hook(rx(r'^llvm\.(ceil|floor|trunc|fabs|sqrt)\.f64'))
def ll_math(E, st, a, i, fn):
    import math
    k = fn.dem.split('.')[1]
    v = a[0]
    if isinstance(v, float):
        return {'ceil': lambda: float(math.ceil(v)), 'floor': lambda: float(math.floor(v)), 'trunc': lambda: float(int(v)), 'fabs': lambda: abs(v), 'sqrt': lambda: math.sqrt(v)}[k]()
    if k == 'fabs':
        return z3.fpAbs(v)
    return z3.fpRoundToIntegral({'ceil': z3.RTP(), 'floor': z3.RTN(), 'trunc': z3.RTZ()}[k], v)


@hook(rx(r'^llvm\.fmuladd\.f(64|32)'))
def ll_fma(E, st, a, i, fn):
    ty = fn.ret
    return E.fbin('fadd', ty, E.fbin('fmul', ty, a[0], a[1]), a[2])


@hook(rx(r'^llvm\.(stacksave|stackrestore|expect|ctpop|is\.constant|objectsize)'))
def ll_misc(E, st, a, i, fn):
    if 'expect' in fn.dem:
        return a[0]
    if 'is.constant' in fn.dem:
        return 0
    raise Unsupported(fn.dem)


# ---------------------------------------------------------------- heap
def do_new(E, st, size, what):
    if isinstance(size, z3.BitVecRef):
        size = E.norm(size)
    return Ptr(E.new_obj(st, size, 'heap', what, 'undef'), 0)


@hook('_Znwm', '_Znam', '_ZnwmSt11align_val_t', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t')
def op_new(E, st, a, i, fn):
    return do_new(E, st, a[0], 'heap@' + E.where(st)[0][-60:])


@hook('malloc')
def c_malloc(E, st, a, i, fn):
    return do_new(E, st, a[0], 'malloc')


@hook('calloc')
def c_calloc(E, st, a, i, fn):
    n = E.binop(st, 'mul', 64, a[0], a[1])
    return Ptr(E.new_obj(st, n, 'heap', 'calloc', 'zero'), 0)


@hook('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t', '_ZdlPvRKSt9nothrow_t')
def op_delete(E, st, a, i, fn):
    p = a[0]
    if isinstance(p, int) and p == 0:
        return
    p, o = E.resolve(st, p, 'free')
    if not o.alive:
        E.violation(st, 'memory-safety', 'double free of %s' % o.name)
    if o.kind != 'heap':
        E.violation(st, 'memory-safety', 'free of non-heap object %s' % o.name)
    if not E.must(st, E.bv(p.off & M64 if isinstance(p.off, int) else p.off) == 0):
        E.violation(st, 'memory-safety', 'free of interior pointer')
    w = st.wobj(p.obj)
    w.alive = False
    w.layers = [Layer('cells', {})]


# ---------------------------------------------------------------- libc
@hook('strlen', '_ZNSt11char_traitsIcE6lengthEPKc')
def c_strlen(E, st, a, i, fn):
    s = cstring(E, st, a[0])
    if isinstance(s, str):
        return len(s)
    return str_len(E, st, s)


@hook('__errno_location')
def errno_loc(E, st, a, i, fn):
    k = E.gobj.get('__errno')
    if k is None:
        k = E.gobj['__errno'] = E.next_obj
        E.next_obj += 1
    if k not in st.mem:
        o = Obj(k, 4, 'global', 'errno', 'zero', st.uid)
        st.mem[k] = o
    return Ptr(k, 0)


@hook('abort', '_ZSt9terminatev', '__clang_call_terminate', '__assert_fail', '_ZSt21__glibcxx_assert_failPKciS0_S0_')
def c_abort(E, st, a, i, fn):
    note = ''
    if fn.name == '__assert_fail':
        note = nm(E, st, a[0])
    E.violation(st, 'no-abort', '%s %s' % (fn.name, note))


@hook('__cxa_pure_virtual')
def pure_virtual(E, st, a, i, fn):
    E.violation(st, 'no-abort', 'pure virtual call')


@hook('__cxa_atexit', '__cxa_thread_atexit')
def cxa_atexit(E, st, a, i, fn):
    return 0


@hook('__cxa_guard_acquire')
def guard_acq(E, st, a, i, fn):
    v = E.load(st, a[0], 'i8')
    return int(v == 0) if isinstance(v, int) else 1


@hook('__cxa_guard_release')
def guard_rel(E, st, a, i, fn):
    E.store(st, a[0], 'i8', 1)


@hook('__cxa_guard_abort')
def guard_abort(E, st, a, i, fn):
    return None


@hook('memcmp', 'strncmp')
def c_memcmp(E, st, a, i, fn):
    n = a[2]
    if not isinstance(n, int):
        raise Unsupported('memcmp symbolic length')
    p, o = E.resolve(st, a[0]) if n else (None, None)
    q, o2 = E.resolve(st, a[1]) if n else (None, None)
    for k in range(n):
        x = E.read(st, o, p.off + k, 1)
        y = E.read(st, o2, q.off + k, 1)
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                return (1 if x > y else -1) & 0xffffffff
            if x == 0 and fn.name == 'strncmp':
                return 0
        else:
            raise Unsupported('memcmp symbolic')
    return 0


@hook('strcmp')
def c_strcmp(E, st, a, i, fn):
    x, y = cstring(E, st, a[0]), cstring(E, st, a[1])
    if isinstance(x, str) and isinstance(y, str):
        return 0 if x == y else (1 if x > y else -1) & 0xffffffff
    raise Unsupported('strcmp symbolic')


# ---------------------------------------------------------------- exceptions
@hook('__cxa_allocate_exception')
def cxa_alloc(E, st, a, i, fn):
    return Ptr(E.new_obj(st, max(a[0], 16), 'heap', 'exception', 'zero'), 0)


@hook('__cxa_free_exception')
def cxa_free(E, st, a, i, fn):
    return None


@hook('__cxa_throw')
def cxa_throw(E, st, a, i, fn):
    ti = a[1]
    o = st.obj(ti.obj)
    if E.hook_state.get('on_throw'):
        E.hook_state['on_throw'](E, st, o.name)
    E.throw(st, (a[0], o.name, E.where(st)[0]))
    return PENDING


@hook('__cxa_begin_catch')
def cxa_begin(E, st, a, i, fn):
    st.caught.append(st.exc)
    return a[0]


@hook('__cxa_end_catch')
def cxa_end(E, st, a, i, fn):
    if st.caught:
        st.caught.pop()
    return None


@hook('__cxa_get_exception_ptr')
def cxa_getp(E, st, a, i, fn):
    return a[0]


@hook('__cxa_rethrow')
def cxa_rethrow(E, st, a, i, fn):
    if not st.caught:
        E.violation(st, 'no-abort', 'rethrow without exception')
    E.throw(st, st.caught[-1])
    return PENDING


@hook(rx(r'^std::current_exception\(\)'))
def current_exc(E, st, a, i, fn):
    return 0


# constructors / destructors of standard exceptions
@hook(rx(r'^std::(runtime_error|logic_error|out_of_range|invalid_argument|exception|bad_alloc|length_error|system_error|domain_error|range_error|overflow_error|bad_cast)::(~)?(runtime_error|logic_error|out_of_range|invalid_argument|exception|bad_alloc|length_error|system_error|domain_error|range_error|overflow_error|bad_cast)\('))
def std_exc_ctor(E, st, a, i, fn):
    if len(a) > 1 and isinstance(a[0], Ptr):
        try:
            v = None
            if 'char const*' in fn.dem:
                v = cstring(E, st, a[1])
                v = Str([v]) if isinstance(v, str) else v
            elif 'basic_string' in fn.dem:
                v = get_str(E, st, a[1])
            if v is not None:
                o = st.wobj(a[0].obj)
                o.tag = v
            elif 'const&' in fn.dem and isinstance(a[1], Ptr):
                o = st.wobj(a[0].obj)
                o.tag = st.obj(a[1].obj).tag
        except Unsupported:
            pass
    return None


@hook(rx(r'^std::(runtime_error|logic_error|exception|bad_alloc)::what\(\)'))
def std_exc_what(E, st, a, i, fn):
    o = st.obj(a[0].obj)
    n = E.new_obj(st, 4096, 'ext', 'what', 'zero')
    st.mem[n].tag = o.tag if o.tag is not None else Str(['?'])
    return Ptr(n, 0)


STD_THROW = {
    'std::__throw_out_of_range': '_ZTISt12out_of_range', 'std::__throw_out_of_range_fmt': '_ZTISt12out_of_range',
    'std::__throw_length_error': '_ZTISt12length_error', 'std::__throw_logic_error': '_ZTISt11logic_error',
    'std::__throw_bad_alloc': '_ZTISt9bad_alloc', 'std::__throw_bad_array_new_length': '_ZTISt20bad_array_new_length',
    'std::__throw_bad_function_call': '_ZTISt17bad_function_call', 'std::__throw_runtime_error': '_ZTISt13runtime_error',
    'std::__throw_invalid_argument': '_ZTISt16invalid_argument', 'std::__throw_bad_cast': '_ZTISt8bad_cast',
    'std::__throw_system_error': '_ZTISt12system_error',
}


@hook(rx(r'^std::__throw_'))
def std_throw(E, st, a, i, fn):
    k = fn.dem.split('(')[0]
    if k in STD_THROW:
        E.throw_std(st, STD_THROW[k], E.where(st)[0])
        return PENDING
    if fn.blocks is None:
        raise Unsupported(fn.dem)
    E.push_call(st, fn, a, i)
    return PENDING


# ---------------------------------------------------------------- synchronisation
def lock_set(st):
    return st.ghost.get('locks', frozenset())


def mkey(p):
    return (p.obj, p.off)


def do_lock(E, st, p, shared=False):
    k = mkey(p)
    if k in lock_set(st):
        E.violation(st, 'no-deadlock', 'mutex locked twice by the same thread')
    st.ghost['locks'] = lock_set(st) | {k}
    h = E.hook_state.get('on_lock')
    if h:
        h(E, st, k)


def do_unlock(E, st, p):
    k = mkey(p)
    if k not in lock_set(st):
        E.violation(st, 'lock-discipline', 'unlock of a mutex that is not held')
    h = E.hook_state.get('on_unlock')
    if h:
        h(E, st, k)
    st.ghost['locks'] = lock_set(st) - {k}


@hook(rx(r'^std::(recursive_|timed_|shared_)?mutex::lock\(\)'))
def mutex_lock(E, st, a, i, fn):
    do_lock(E, st, a[0])


@hook(rx(r'^std::(recursive_|timed_|shared_)?mutex::unlock\(\)'))
def mutex_unlock(E, st, a, i, fn):
    do_unlock(E, st, a[0])


@hook('vc_lock_held')
def vc_lock_held(E, st, a, i, fn):
    return int(mkey(a[0]) in lock_set(st))


@hook('vc_lock')
def vc_lock(E, st, a, i, fn):
    do_lock(E, st, a[0])


@hook('vc_unlock')
def vc_unlock(E, st, a, i, fn):
    do_unlock(E, st, a[0])


@hook('vc_guarded_by')
def vc_guarded_by(E, st, a, i, fn):
    """vc_guarded_by(ptr, len, mutex): accesses require the lock"""
    g = st.ghost.get('guards', ())
    p = a[0]
    st.ghost['guards'] = g + ((p.obj, p.off, a[1], mkey(a[2])),)
    E.hook_state['on_access'] = on_access


@hook('vc_shared_atomic')
def vc_shared_atomic(E, st, a, i, fn):
    """vc_shared_atomic(ptr, len, rely_fn or null, guar_fn or null): other threads may change the cell between our atomic steps"""
    g = st.ghost.get('atomics', ())
    p = a[0]
    st.ghost['atomics'] = g + ((p.obj, p.off, a[1], a[2].name if isinstance(a[2], Fn) else None, a[3].name if isinstance(a[3], Fn) else None),)
    E.hook_state['on_access'] = on_access


@hook('vc_unshare')
def vc_unshare(E, st, a, i, fn):
    p = a[0]
    st.ghost['atomics'] = tuple(x for x in st.ghost.get('atomics', ()) if (x[0], x[1]) != (p.obj, p.off))
    st.ghost['guards'] = tuple(x for x in st.ghost.get('guards', ()) if (x[0], x[1]) != (p.obj, p.off))


def overlaps(p, n, o, off, ln, E=None, st=None):
    if p.obj != o:
        return False
    if same(p.off, off) and not isinstance(off, int):
        return True
    if isinstance(p.off, int) and isinstance(n, int) and isinstance(off, int) and isinstance(ln, int):
        return p.off < off + ln and off < p.off + n
    x, y, n, ln = E.bv(p.off), E.bv(off), E.bv(n), E.bv(ln)
    return not E.must(st, z3.simplify(z3.And(z3.UGE(x - y, ln), z3.UGE(y - x, n))))


def on_access(E, st, p, o, n, is_write, atomic):
    if st.ghost.get('vc_ghost_access'):
        return
    for (ob, off, ln, mk) in st.ghost.get('guards', ()):
        if overlaps(p, n, ob, off, ln, E, st) and mk not in lock_set(st):
            E.obligation(st, False, 'lock-discipline', '%s of a field without holding its mutex' % ('write' if is_write else 'read'))
            raise PathEnd()
    for (ob, off, ln, rely, guar) in st.ghost.get('atomics', ()):
        if overlaps(p, n, ob, off, ln, E, st):
            if not atomic:
                E.obligation(st, False, 'no-data-race', 'non-atomic %s of a shared counter' % ('write' if is_write else 'read'))
                raise PathEnd()
            if not is_write and not st.ghost.get('in_rely'):
                # environment step before our atomic read
                t = nondet(E, st, 'env', 8 * ln)
                if rely:
                    f = rely_formula(E, st, rely, t, ln, E.read(st, o, off, ln))
                    E.assume(st, f)
                E.write(st, ob, off, ln, t)


def rely_formula(E, st, fname, new, ln, old):
    """contract predicate bool rely(uint64 old, uint64 new)"""
    s = st.clone()
    s.ghost['vc_ghost_access'] = True
    base = s.pc
    res = []

    def done(E2, s2, v, fr):
        cs = []
        q = s2.pc
        while q is not base and q:
            cs.append(q[1])
            q = q[0]
        res.append((cs, v))
        raise PathEnd()
    def z(v):
        if v is UNDEF:
            v = E.fresh('undef', 8 * ln)
        return v if isinstance(v, int) else z3.ZeroExt(64 - v.size(), v) if v.size() < 64 else v
    E.push_call(s, E.m.funcs[fname], [z(old), z(new)], None, done)
    E.analysis += 1
    try:
        E.run(s, None)
    finally:
        E.analysis -= 1
    f = []
    for cs, v in res:
        v = tobool(v) if not isinstance(v, z3.BitVecRef) else v != 0
        f.append(z3.Implies(z3.And(*cs) if cs else z3.BoolVal(True), v))
    return z3.And(*f)


@hook('vc_ghost_begin')
def vc_ghost_begin(E, st, a, i, fn):
    st.ghost['vc_ghost_access'] = st.ghost.get('vc_ghost_access', 0) + 1


@hook('vc_ghost_end')
def vc_ghost_end(E, st, a, i, fn):
    n = st.ghost.get('vc_ghost_access', 0) - 1
    if n > 0:
        st.ghost['vc_ghost_access'] = n
    else:
        st.ghost.pop('vc_ghost_access', None)


# ---------------------------------------------------------------- strings
class Str:
    """symbolic string: concatenation of python strings and z3 sequence terms"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        r = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if r and isinstance(r[-1], str):
                    r[-1] += p
                    continue
            r.append(p)
        self.parts = tuple(r)

    @property
    def conc(self):
        if not self.parts:
            return ''
        if len(self.parts) == 1 and isinstance(self.parts[0], str):
            return self.parts[0]
        return None

    def z(self):
        if not self.parts:
            return z3.StringVal('')
        t = [zstr(p) if isinstance(p, str) else p for p in self.parts]
        return t[0] if len(t) == 1 else z3.Concat(*t)

    def __add__(self, o):
        return Str(self.parts + o.parts)

    def vc_same(self, o):
        return len(self.parts) == len(o.parts) and all(same(a, b) for a, b in zip(self.parts, o.parts))

    def __eq__(self, o):
        return isinstance(o, Str) and self.vc_same(o)

    def __hash__(self):
        return hash(len(self.parts))

    def vc_havoc(self, E):
        E.string_mode = True
        E.fresh_n += 1
        return Str([z3.String('hvs!%d' % E.fresh_n)])

    def vc_model(self, m):
        out = ''
        for p in self.parts:
            if isinstance(p, str):
                out += p
            else:
                v = m.eval(p, model_completion=True)
                out += v.as_string() if z3.is_string_value(v) else str(v)
        return out

    def __repr__(self):
        return 'Str%r' % (self.parts,)


def flat(s):
    """characters of a string of known length (python characters and 8-bit terms), or None"""
    out = []
    for p in s.parts:
        if isinstance(p, str):
            out.extend(p)
        else:
            c = ch_of(p)
            if c is None:
                return None
            out.append(c)
    return out


def ch_of(t):
    """the byte of a one-character string term made by char_str"""
    if isinstance(t, str) or t.decl().kind() != z3.Z3_OP_SEQ_UNIT:
        return None
    u = t.arg(0)
    if u.num_args() != 1 or not z3.is_bv(u.arg(0)):
        return None
    e = u.arg(0)
    return e.arg(0) if e.decl().kind() == z3.Z3_OP_ZERO_EXT and e.arg(0).size() == 8 else None


def char_eq(x, y):
    if isinstance(x, str) and isinstance(y, str):
        return z3.BoolVal(x == y)
    x, y = [BV(ord(c), 8) if isinstance(c, str) else c for c in (x, y)]
    return x == y


def zstr(s):
    return z3.StringVal(''.join(c if 32 <= ord(c) < 127 and c != '\\' else '\\u{%x}' % ord(c) for c in s))


STRSZ = 32


def get_str(E, st, p):
    p, o = E.resolve(st, p, 'string read')
    E.bounds(st, p, o, STRSZ, 'string read')
    h = E.hook_state.get('on_access')
    if h:
        h(E, st, p, o, STRSZ, False, False)
        o = st.obj(p.obj)
    v = E.read(st, o, p.off, STRSZ)
    if isinstance(v, Str):
        return v
    if v is UNDEF:
        E.violation(st, 'memory-safety', 'use of an unconstructed string in %s' % o.name)
    raise Unsupported('string object without model at %s of %s: %r' % (p, o.name, v))


def set_str(E, st, p, s):
    p, o = E.resolve(st, p, 'string write')
    E.bounds(st, p, o, STRSZ, 'string write')
    h = E.hook_state.get('on_access')
    if h:
        h(E, st, p, o, STRSZ, True, False)
    E.write(st, p.obj, p.off, STRSZ, s)


def arg_cstr(E, st, p):
    s = cstring(E, st, p)
    return Str([s]) if isinstance(s, str) else s


def str_eq(E, st, a, b):
    """formula or bool"""
    if a.conc is not None and b.conc is not None:
        return a.conc == b.conc
    if a.vc_same(b):
        return True
    fa, fb = flat(a), flat(b)
    if fa is not None and fb is not None:
        return len(fa) == len(fb) and z3.simplify(z3.And(*[char_eq(x, y) for x, y in zip(fa, fb)]))
    # strip common concrete prefixes / suffixes
    pa, pb = list(a.parts), list(b.parts)
    while pa and pb:
        x, y = pa[0], pb[0]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return False
            if x[n:]:
                pa[0] = x[n:]
            else:
                pa.pop(0)
            if y[n:]:
                pb[0] = y[n:]
            else:
                pb.pop(0)
        elif not isinstance(x, str) and not isinstance(y, str) and x.eq(y):
            pa.pop(0)
            pb.pop(0)
        else:
            break
    while pa and pb:
        x, y = pa[-1], pb[-1]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[len(x) - n:] != y[len(y) - n:]:
                return False
            if x[:len(x) - n]:
                pa[-1] = x[:len(x) - n]
            else:
                pa.pop()
            if y[:len(y) - n]:
                pb[-1] = y[:len(y) - n]
            else:
                pb.pop()
        elif not isinstance(x, str) and not isinstance(y, str) and x.eq(y):
            pa.pop()
            pb.pop()
        else:
            break
    if not pa and not pb:
        return True
    # decimal renderings of unsigned numbers are injective
    if len(pa) == 1 and len(pb) == 1:
        x, y = num_of(pa[0]), num_of(pb[0])
        if x is not None and y is not None:
            w = max(x.size(), y.size())
            return z3.ZeroExt(w - x.size(), x) == z3.ZeroExt(w - y.size(), y)
        if y is not None:
            x, y, pa, pb = y, x, pb, pa
        if x is not None and isinstance(pb[0], str):
            t = pb[0]
            if not t.isdigit() or str(int(t)) != t or int(t) >= 1 << x.size():
                return False
            return x == int(t)
    elif (not pa and num_of(pb[0]) is not None) or (not pb and num_of(pa[0]) is not None):
        return False
    E.string_mode = True
    return Str(pa).z() == Str(pb).z()


def num_of(t):
    """the bit vector of which the term is the decimal rendering"""
    if isinstance(t, str) or t.decl().kind() != z3.Z3_OP_INT_TO_STR:
        return None
    a = t.arg(0)
    return a.arg(0) if a.decl().kind() == z3.Z3_OP_BV2INT else None


def is_num(t):
    """a decimal rendering, possibly with sign"""
    if t.decl().kind() == z3.Z3_OP_ITE:
        return all(is_num(x) for x in t.children()[1:])
    if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return t.num_args() == 2 and z3.is_string_value(t.arg(0)) and t.arg(0).as_string() == '-' and is_num(t.arg(1))
    return t.decl().kind() == z3.Z3_OP_INT_TO_STR


def str_eq_v(E, st, a, b):
    r = str_eq(E, st, a, b)
    if isinstance(r, bool):
        return int(r)
    r = z3.simplify(r)
    return 1 if z3.is_true(r) else 0 if z3.is_false(r) else r


def str_len(E, st, s):
    if s.conc is not None:
        return len(s.conc)
    f = flat(s)
    if f is not None:
        return len(f)
    E.string_mode = True
    key = ('len', s.z().get_id())
    c = st.ghost.get(key)
    if c is not None:
        return c[0]
    L = E.fresh('len', 64)
    ln = z3.Length(s.z())
    E.assume(st, z3.ULT(L, BV(1 << 30, 64)))
    E.assume(st, z3.BV2Int(L) == ln)
    E.assume(st, (L == 0) == (ln == 0))
    st.ghost[key] = (L, s)
    return L


SRX = r'^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>\s*>::'
BS = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>\s*>'


def sm(sig):
    """string member"""
    return rx(SRX + sig)


@hook(sm(r'basic_string\(\)'))
def s_ctor0(E, st, a, i, fn):
    set_str(E, st, a[0], Str([]))


@hook(sm(r'basic_string\(std::allocator'))
def s_ctor0a(E, st, a, i, fn):
    set_str(E, st, a[0], Str([]))


@hook(sm(r'basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)'))
def s_ctor_c(E, st, a, i, fn):
    set_str(E, st, a[0], arg_cstr(E, st, a[1]))


@hook(sm(r'basic_string(<.*>)?\(char const\*, unsigned long, std::allocator<char> const&\)'))
def s_ctor_cn(E, st, a, i, fn):
    n = a[2]
    if isinstance(n, int):
        set_str(E, st, a[0], raw_bytes(E, st, a[1], n))
        return
    s = cstring(E, st, a[1])
    set_str(E, st, a[0], s if isinstance(s, Str) else Str([s]))


def raw_bytes(E, st, p, n):
    if n == 0:
        return Str([])
    p, o = E.resolve(st, p)
    if o.tag is not None and o.tag.conc is not None and isinstance(p.off, int):
        return Str([o.tag.conc[p.off:p.off + n]])
    r = Str([])
    for k in range(n):
        r = r + char_str(E, E.read(st, o, p.off + k, 1))
    return r


@hook(sm(r'basic_string\((std::__cxx11::basic_string.*|' + BS + r')(const&|&&)(, std::allocator<char> const&)?\)$'))
def s_ctor_copy(E, st, a, i, fn):
    v = get_str(E, st, a[1])
    set_str(E, st, a[0], v)
    if '&&' in fn.dem.split('basic_string(')[-1]:
        set_str(E, st, a[1], Str([]))


@hook(sm(r'basic_string\(unsigned long, char, std::allocator<char> const&\)'))
def s_ctor_fill(E, st, a, i, fn):
    if not isinstance(a[1], int) or not isinstance(a[2], int):
        raise Unsupported('string fill')
    set_str(E, st, a[0], Str([chr(a[2]) * a[1]]))


@hook(sm(r'basic_string\(.*basic_string.* const&, unsigned long(, unsigned long)?(, std::allocator<char> const&)?\)$'))
def s_ctor_sub(E, st, a, i, fn):
    s = get_str(E, st, a[1])
    set_str(E, st, a[0], substr(E, st, s, a[2], a[3] if 'unsigned long, unsigned long' in fn.dem else M64))


@hook(sm(r'basic_string<(char const\*|__gnu_cxx::__normal_iterator<char.*)\(.*\)$'))
def s_ctor_iter(E, st, a, i, fn):
    p, q = a[1], a[2]
    if isinstance(p, Ptr) and isinstance(q, Ptr) and p.obj == q.obj and isinstance(p.off, int) and isinstance(q.off, int):
        set_str(E, st, a[0], raw_bytes(E, st, p, q.off - p.off))
        return
    raise Unsupported(fn.dem)


@hook(sm(r'~basic_string\(\)'))
def s_dtor(E, st, a, i, fn):
    return None


@hook(sm(r'operator=\(.*basic_string.*\)'))
def s_assign(E, st, a, i, fn):
    v = get_str(E, st, a[1])
    set_str(E, st, a[0], v)
    if '&&' in fn.dem.split('operator=')[-1] and a[0] != a[1]:
        set_str(E, st, a[1], Str([]))
    return a[0]


@hook(sm(r'(operator=|assign)\(char const\*\)'))
def s_assign_c(E, st, a, i, fn):
    set_str(E, st, a[0], arg_cstr(E, st, a[1]))
    return a[0]


@hook(sm(r'assign\(.*basic_string.*const&\)'))
def s_assign2(E, st, a, i, fn):
    set_str(E, st, a[0], get_str(E, st, a[1]))
    return a[0]


@hook(sm(r'(operator\+=|append)\(.*basic_string.*const&\)'))
def s_append(E, st, a, i, fn):
    set_str(E, st, a[0], get_str(E, st, a[0]) + get_str(E, st, a[1]))
    return a[0]


@hook(sm(r'(operator\+=|append)\(char const\*\)'))
def s_append_c(E, st, a, i, fn):
    set_str(E, st, a[0], get_str(E, st, a[0]) + arg_cstr(E, st, a[1]))
    return a[0]


def char_str(E, c):
    if isinstance(c, int):
        return Str([chr(c & 255)])
    return Str([z3.Unit(z3.CharFromBv(z3.ZeroExt(10, c)))])


@hook(sm(r'(operator\+=|push_back)\(char\)'))
def s_append_ch(E, st, a, i, fn):
    set_str(E, st, a[0], get_str(E, st, a[0]) + char_str(E, a[1]))
    return a[0]


@hook(sm(r'(size|length)\(\)'))
def s_size(E, st, a, i, fn):
    return str_len(E, st, get_str(E, st, a[0]))


@hook(sm(r'empty\(\)'))
def s_empty(E, st, a, i, fn):
    s = get_str(E, st, a[0])
    return str_eq_v(E, st, s, Str([])) if not any(isinstance(p, str) for p in s.parts) else 0


@hook(sm(r'clear\(\)'))
def s_clear(E, st, a, i, fn):
    set_str(E, st, a[0], Str([]))


@hook(sm(r'reserve\('))
def s_reserve(E, st, a, i, fn):
    return None


@hook(sm(r'(c_str|data)\(\)'))
def s_cstr(E, st, a, i, fn):
    s = get_str(E, st, a[0])
    c = s.conc
    n = E.new_obj(st, len(c) + 1 if c is not None else 1 << 20, 'ext', 'characters of a string', ('bytes', c.encode('latin1') + b'\0') if c is not None else 'undef')
    st.mem[n].tag = s
    st.mem[n].ro = True
    return Ptr(n, 0)


@hook(sm(r'(swap)\('))
def s_swap(E, st, a, i, fn):
    x, y = get_str(E, st, a[0]), get_str(E, st, a[1])
    set_str(E, st, a[0], y)
    set_str(E, st, a[1], x)


def cmp_v(E, st, x, y):
    if x.conc is not None and y.conc is not None:
        return 0 if x.conc == y.conc else (1 if x.conc > y.conc else 0xffffffff)
    e = str_eq(E, st, x, y)
    e = z3.BoolVal(e) if isinstance(e, bool) else e
    return z3.If(e, BV(0, 32), z3.If(x.z() < y.z(), BV(0xffffffff, 32), BV(1, 32)))


@hook(sm(r'compare\((?!unsigned).*basic_string.*const&\) const'))
def s_compare(E, st, a, i, fn):
    return cmp_v(E, st, get_str(E, st, a[0]), get_str(E, st, a[1]))


@hook(sm(r'compare\(char const\*\) const'))
def s_compare_c(E, st, a, i, fn):
    return cmp_v(E, st, get_str(E, st, a[0]), arg_cstr(E, st, a[1]))


def substr(E, st, s, pos, n):
    c = s.conc
    if c is not None and isinstance(pos, int) and isinstance(n, int):
        return Str([c[pos:pos + n]])
    if isinstance(pos, int) and isinstance(n, int) and s.parts and isinstance(s.parts[0], str):
        p0 = s.parts[0]
        if pos + n <= len(p0):
            return Str([p0[pos:pos + n]])
        if n == M64 and pos <= len(p0):
            return Str((p0[pos:],) + s.parts[1:])
    f = flat(s)
    if f is not None and isinstance(pos, int) and isinstance(n, int):
        r = Str([])
        for x in f[pos:pos + n]:
            r = r + (Str([x]) if isinstance(x, str) else char_str(E, x))
        return r
    E.string_mode = True
    z = s.z()
    pi = pos if isinstance(pos, int) else z3.BV2Int(pos)
    if isinstance(n, int) and n >= 1 << 60:
        ni = z3.Length(z) - pi
    else:
        ni = n if isinstance(n, int) else z3.If(n == BV(M64, 64), z3.Length(z), z3.BV2Int(n))
    return Str([z3.simplify(z3.SubString(z, pi, ni))])


@hook(sm(r'substr\('))
def s_substr(E, st, a, i, fn):
    s = get_str(E, st, a[1])
    pos, n = a[2], a[3]
    L = str_len(E, st, s)
    if isinstance(L, int) and isinstance(pos, int):
        if pos > L:
            E.throw_std(st, '_ZTISt12out_of_range', E.where(st)[0])
            return PENDING
    else:
        if not E.decide(st, z3.ULE(E.bv(pos), E.bv(L))):
            E.throw_std(st, '_ZTISt12out_of_range', E.where(st)[0])
            return PENDING
    set_str(E, st, a[0], substr(E, st, s, pos, n))


def find(E, st, s, sub, pos=0):
    c = s.conc
    if c is not None and sub.conc is not None and isinstance(pos, int):
        r = c.find(sub.conc, pos)
        return r & M64
    if sub.conc is not None and isinstance(pos, int) and s.parts and isinstance(s.parts[0], str):
        r = s.parts[0].find(sub.conc, pos)
        if r >= 0:
            return r
    E.string_mode = True
    if not isinstance(pos, int):
        pos = z3.BV2Int(pos)
    idx = z3.IndexOf(s.z(), sub.z(), pos)
    R = E.fresh('find', 64)
    E.assume(st, z3.If(idx < 0, R == BV(M64, 64), z3.And(z3.ULT(R, BV(1 << 30, 64)), z3.BV2Int(R) == idx)))
    if isinstance(pos, int) and pos == 0:
        E.assume(st, (R == BV(M64, 64)) == z3.Not(z3.Contains(s.z(), sub.z())))
        E.assume(st, (R == 0) == z3.PrefixOf(sub.z(), s.z()))
    return R


@hook(sm(r'find\(char const\*, unsigned long\) const'))
def s_find_c(E, st, a, i, fn):
    return find(E, st, get_str(E, st, a[0]), arg_cstr(E, st, a[1]), a[2])


@hook(sm(r'find\(char, unsigned long\) const'))
def s_find_ch(E, st, a, i, fn):
    return find(E, st, get_str(E, st, a[0]), char_str(E, a[1]), a[2])


@hook(sm(r'find\(.*basic_string.* const&, unsigned long\) const'))
def s_find_s(E, st, a, i, fn):
    return find(E, st, get_str(E, st, a[0]), get_str(E, st, a[1]), a[2])


@hook(sm(r'(rfind|find_first_of|find_last_of|find_first_not_of|find_last_not_of)\('))
def s_find_other(E, st, a, i, fn):
    s = get_str(E, st, a[0])
    what = re.search(r'>::(\w+)\((.*?),', fn.dem).group(1)
    if '(char,' in fn.dem:
        sub = char_str(E, a[1])
    elif '(char const*,' in fn.dem:
        sub = arg_cstr(E, st, a[1])
    else:
        sub = get_str(E, st, a[1])
    pos = a[2]
    c, sc = s.conc, sub.conc
    if c is None or sc is None or not isinstance(pos, int):
        if what == 'rfind' and isinstance(pos, int) and pos == 0:
            E.string_mode = True
            return z3.If(z3.PrefixOf(sub.z(), s.z()), BV(0, 64), BV(M64, 64))
        if what == 'rfind' and isinstance(pos, int) and pos >= 1 << 62:
            if sc is not None and len(sc) == 1 and not sc.isdigit() and sc != '-':
                ps = list(s.parts)
                while ps and not isinstance(ps[-1], str) and is_num(ps[-1]):
                    ps.pop()
                if len(ps) == 1 and isinstance(ps[0], str) and sc in ps[0]:
                    return ps[0].rfind(sc)
            E.string_mode = True
            idx = z3.LastIndexOf(s.z(), sub.z())
            R = E.fresh('rfind', 64)
            E.assume(st, z3.If(idx < 0, R == BV(M64, 64), z3.And(z3.ULT(R, BV(1 << 30, 64)), z3.BV2Int(R) == idx)))
            return R
        if what == 'find_first_of' and sc is not None and len(sc) == 1:
            return find(E, st, s, sub, pos)
        raise Unsupported('symbolic ' + what)
    if what == 'rfind':
        r = c.rfind(sc, 0, min(len(c), pos + len(sc)) if pos < 1 << 62 else len(c))
    elif what == 'find_first_of':
        r = next((k for k in range(pos, len(c)) if c[k] in sc), -1)
    elif what == 'find_first_not_of':
        r = next((k for k in range(pos, len(c)) if c[k] not in sc), -1)
    elif what == 'find_last_of':
        r = next((k for k in range(min(len(c) - 1, pos), -1, -1) if c[k] in sc), -1)
    else:
        r = next((k for k in range(min(len(c) - 1, pos), -1, -1) if c[k] not in sc), -1)
    return r & M64


@hook(sm(r'compare\(unsigned long, unsigned long, .*\) const'))
def s_compare_n(E, st, a, i, fn):
    s = get_str(E, st, a[0])
    if 'char const*)' in fn.dem:
        o = arg_cstr(E, st, a[3])
    elif 'basic_string' in fn.dem.split('unsigned long, unsigned long,')[1] and fn.dem.count('unsigned long') == 2:
        o = get_str(E, st, a[3])
    else:
        raise Unsupported(fn.dem)
    L = str_len(E, st, s)
    if isinstance(L, int) and isinstance(a[1], int):
        if a[1] > L:
            E.throw_std(st, '_ZTISt12out_of_range', E.where(st)[0])
            return PENDING
    elif not E.decide(st, z3.ULE(E.bv(a[1]), E.bv(L))):
        E.throw_std(st, '_ZTISt12out_of_range', E.where(st)[0])
        return PENDING
    return cmp_v(E, st, substr(E, st, s, a[1], a[2]), o)


@hook(sm(r'(at|operator\[\]|front|back)\('))
def s_at(E, st, a, i, fn):
    s = get_str(E, st, a[0])
    c = s.conc
    what = re.search(r'>::(at|operator\[\]|front|back)\(', fn.dem).group(1)
    if c is None:
        # only first/last characters that are concrete
        if what == 'front' and s.parts and isinstance(s.parts[0], str):
            c = s.parts[0]
        elif what == 'back' and s.parts and isinstance(s.parts[-1], str):
            c = s.parts[-1]
        elif isinstance(a[1] if len(a) > 1 else None, int) and s.parts and isinstance(s.parts[0], str) and a[1] < len(s.parts[0]):
            c = s.parts[0]
        else:
            k = a[1] if what in ('at', 'operator[]') else (0 if what == 'front' else None)
            f = flat(s)
            if f is not None and (isinstance(k, int) or what == 'back'):
                k = len(f) - 1 if what == 'back' else k
                if what == 'at' and k >= len(f):
                    E.throw_std(st, '_ZTISt12out_of_range', E.where(st)[0])
                    return PENDING
                n = E.new_obj(st, 1, 'ext', 'character of a string', 'undef')
                x = f[k] if 0 <= k < len(f) else '\0'
                E.write(st, n, 0, 1, ord(x) if isinstance(x, str) else x)
                st.mem[n].ro = True
                return Ptr(n, 0)
            if isinstance(k, int):
                E.string_mode = True
                # fresh character tied to the string
                ch = E.fresh('ch', 8)
                L = str_len(E, st, s)
                if what == 'at' and not E.decide(st, z3.UGT(E.bv(L), BV(k, 64))):
                    E.throw_std(st, '_ZTISt12out_of_range', E.where(st)[0])
                    return PENDING
                E.assume(st, z3.If(z3.UGT(E.bv(L), BV(k, 64)), z3.BV2Int(ch) == z3.StrToCode(z3.SubString(s.z(), k, 1)), ch == 0))
                n = E.new_obj(st, 1, 'ext', 'character of a string', 'undef')
                E.write(st, n, 0, 1, ch)
                st.mem[n].ro = True
                return Ptr(n, 0)
            raise Unsupported('symbolic ' + what)
    k = {'front': 0, 'back': len(c) - 1}.get(what)
    if k is None:
        k = a[1]
    if not isinstance(k, int):
        raise Unsupported('symbolic string index')
    if what == 'at' and k >= len(c):
        E.throw_std(st, '_ZTISt12out_of_range', E.where(st)[0])
        return PENDING
    n = E.new_obj(st, 1, 'ext', 'character of a string', ('bytes', (c[k] if 0 <= k < len(c) else '\0').encode('latin1')))
    st.mem[n].ro = True
    return Ptr(n, 0)


@hook(sm(r'(begin|end|cbegin|cend|rbegin|rend)\('))
def s_begin(E, st, a, i, fn):
    s = get_str(E, st, a[0])
    if s.conc is None:
        raise Unsupported('iteration over symbolic string')
    # one buffer per string value (so begin/end are comparable)
    key = ('sbuf', s.conc)
    oid = st.ghost.get(key)
    if oid is None or oid not in st.mem:
        oid = E.new_obj(st, len(s.conc) + 1, 'ext', 'characters of a string', ('bytes', s.conc.encode('latin1') + b'\0'))
        st.ghost[key] = oid
        st.mem[oid].tag = s
        st.mem[oid].ro = True
    if 'rbegin' in fn.dem or 'rend' in fn.dem:
        raise Unsupported('reverse string iteration')
    return Ptr(oid, len(s.conc) if re.search(r'>::c?end\(', fn.dem) else 0)


@hook(sm(r'erase\(unsigned long, unsigned long\)'))
def s_erase(E, st, a, i, fn):
    s = get_str(E, st, a[0])
    L = str_len(E, st, s)
    if s.conc is not None and isinstance(a[1], int) and isinstance(a[2], int):
        c = s.conc
        if a[1] > len(c):
            E.throw_std(st, '_ZTISt12out_of_range')
            return PENDING
        set_str(E, st, a[0], Str([c[:a[1]] + (c[a[1] + a[2]:] if a[2] < 1 << 60 else '')]))
        return a[0]
    pre = substr(E, st, s, 0, a[1])
    if isinstance(a[2], int) and a[2] >= 1 << 60:
        set_str(E, st, a[0], pre)
        return a[0]
    e = E.binop(st, 'add', 64, a[1], a[2])
    set_str(E, st, a[0], pre + substr(E, st, s, e, M64))
    return a[0]


# free operators
@hook(rx(r'^(' + BS + r'\s+)?std::operator\+<char'))
def s_plus(E, st, a, i, fn):
    sig = fn.dem[fn.dem.index('operator+'):]
    sig = sig[sig.index('>(') + 2:] if '>(' in sig else sig
    # args: [sret, lhs, rhs]
    ps = split_params(fn.dem)
    out = []
    for p, v in zip(ps, a[1:]):
        if p.startswith('char const*'):
            out.append(arg_cstr(E, st, v))
        elif p == 'char':
            out.append(char_str(E, v))
        else:
            out.append(get_str(E, st, v))
    set_str(E, st, a[0], out[0] + out[1])


def split_params(dem):
    """parameter list of a demangled function"""
    d = 0
    end = dem.rindex(')')
    k = end
    depth = 0
    while k >= 0:
        ch = dem[k]
        if ch in ')>' and not (ch == '>' and dem[k - 1] == '-'):
            depth += 1
        elif ch in '(<':
            depth -= 1
            if depth == 0 and ch == '(':
                break
        k -= 1
    s = dem[k + 1:end]
    out, cur, depth = [], '', 0
    for ch in s:
        if ch in '(<':
            depth += 1
        elif ch in ')>':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


@hook(rx(r'^(bool\s+)?std::operator(==|!=|<|>|<=|>=)<char, '))
def s_cmpop(E, st, a, i, fn):
    ps = split_params(fn.dem)
    if 'basic_string_view' in fn.dem:
        raise Unsupported(fn.dem)
    v = [arg_cstr(E, st, x) if p.startswith('char const*') else get_str(E, st, x) for p, x in zip(ps, a)]
    op = re.search(r'operator(==|!=|<=|>=|<|>)<char', fn.dem).group(1)
    if op in ('==', '!='):
        r = str_eq_v(E, st, v[0], v[1])
        if op == '!=':
            r = 1 - r if isinstance(r, int) else z3.Not(r)
        return r
    if v[0].conc is not None and v[1].conc is not None:
        x, y = v[0].conc, v[1].conc
        return int({'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op])
    E.string_mode = True
    x, y = v[0].z(), v[1].z()
    return {'<': lambda: x < y, '>': lambda: y < x, '<=': lambda: x <= y, '>=': lambda: y <= x}[op]()


@hook(rx(r'^(bool\s+)?(std::)?__gnu_cxx::__is_null_pointer'))
def s_isnull(E, st, a, i, fn):
    return E.icmp(st, 'eq', 'p', a[0], 0)


def num_str(E, st, v, w, signed):
    if isinstance(v, int):
        if signed and v >> (w - 1):
            v -= 1 << w
        return Str([str(v)])
    if signed:
        top = z3.simplify(z3.Extract(w - 1, w - 1, v))
        if z3.is_bv_value(top) and top.as_long() == 0:
            signed = False
            v = z3.simplify(v)
    if signed:
        if E is not None:
            E.string_mode = True
        n = z3.BV2Int(v, True)
        return Str([z3.If(n >= 0, z3.IntToStr(n), z3.Concat(z3.StringVal('-'), z3.IntToStr(-n)))])
    return Str([z3.IntToStr(z3.BV2Int(v))])


@hook(rx(r'^std::__cxx11::to_string\('), rx(r'^std::to_string\('))
def s_tostring(E, st, a, i, fn):
    t = split_params(fn.dem)[0]
    w = {'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64}.get(t)
    if w is None:
        raise Unsupported(fn.dem)
    set_str(E, st, a[0], num_str(E, st, a[1], w, not t.startswith('unsigned')))


@hook(rx(r'^std::allocator<.*>::(~)?allocator\('), rx(r'^std::__new_allocator<.*>::(~)?__new_allocator\('))
def alloc_ctor(E, st, a, i, fn):
    return None


def fresh_str(E, st, name):
    E.string_mode = True
    E.fresh_n += 1
    t = z3.String('%s!%d' % (name, E.fresh_n))
    s = Str([t])
    st.trace = (st.trace, (name, s, 'str'))
    return s


@hook('vc_string')
def vc_string(E, st, a, i, fn):
    """void vc_string(std::string* out, const char* name)"""
    set_str(E, st, a[0], fresh_str(E, st, nm(E, st, a[1])))


@hook('vc_cstr_of')
def vc_cstr_of(E, st, a, i, fn):
    """turn const char* (possibly symbolic) into a string: void vc_cstr_of(std::string* out, const char*)"""
    set_str(E, st, a[0], arg_cstr(E, st, a[1]))


@hook('vc_str_prefix')
def vc_str_prefix(E, st, a, i, fn):
    s, p = get_str(E, st, a[0]), get_str(E, st, a[1])
    if s.conc is not None and p.conc is not None:
        return int(s.conc.startswith(p.conc))
    E.string_mode = True
    return z3.PrefixOf(p.z(), s.z())


@hook('vc_str_suffix')
def vc_str_suffix(E, st, a, i, fn):
    s, p = get_str(E, st, a[0]), get_str(E, st, a[1])
    if s.conc is not None and p.conc is not None:
        return int(s.conc.endswith(p.conc))
    E.string_mode = True
    return z3.SuffixOf(p.z(), s.z())


@hook('vc_str_contains')
def vc_str_contains(E, st, a, i, fn):
    s, p = get_str(E, st, a[0]), get_str(E, st, a[1])
    if s.conc is not None and p.conc is not None:
        return int(p.conc in s.conc)
    E.string_mode = True
    return z3.Contains(s.z(), p.z())


def pin_concrete(E, st, s):
    return s


@hook('__cxa_demangle')
def cxa_demangle(E, st, a, i, fn):
    """of a concrete name: c++filt"""
    import subprocess
    n = cstring(E, st, a[0])
    n = n.conc if isinstance(n, Str) else n
    if n is None:
        raise Unsupported('demangling a symbolic name')
    out = subprocess.run(['c++filt', '-t'], input=n + '\n', capture_output=True, text=True).stdout.rstrip('\n')
    if not (isinstance(a[3], int) and a[3] == 0):
        E.store(st, a[3], 'i32', 0 if out != n else (1 << 32) - 2)
    if out == n:
        return 0
    p = do_new(E, st, len(out) + 1, 'malloc')
    for k, ch in enumerate(out.encode() + b'\0'):
        E.store(st, Ptr(p.obj, k), 'i8', ch)
    return p


@hook('strtol', '__isoc23_strtol')
def c_strtol(E, st, a, i, fn):
    """decimal prefix of a concrete string; of a symbolic one: some number determined by the string"""
    s = cstring(E, st, a[0])
    s = s.conc if isinstance(s, Str) else s
    if not (isinstance(a[1], int) and a[1] == 0) or a[2] != 10:
        raise Unsupported('strtol with end pointer or base')
    if s is not None:
        m = re.match(r'[ \t\n\v\f\r]*([+-]?\d+)', s)
        v = int(m.group(1)) if m else 0
        return min(max(v, -(1 << 63)), (1 << 63) - 1) & ((1 << 64) - 1)
    raise Unsupported('strtol of a symbolic string')
