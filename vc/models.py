"""Further models; tried before hooks.py."""
import re
import z3
from engine import *
from hooks import *
import hooks as _h
H = []


def hook(*names):
    def d(f):
        for n in names:
            H.append((n, f))
        return f
    return d


def call_then(E, st, inst, fname, args, result, fin=None):
    """run callback `fname` in place of the current call, then return `result`"""
    def done(E2, s2, v, fr):
        r = fin(E2, s2) if fin else result
        E2.finish_call(s2, inst, r)
    E.push_call(st, E.m.funcs[fname], args, None, done)
    return PENDING


# ---------------------------------------------------------------- environment steps
@hook('vc_on_lock')
def vc_on_lock(E, st, a, i, fn):
    """vc_on_lock(mutex, cb): other threads may act (cb) before the lock is obtained"""
    d = dict(st.ghost.get('onlock', ()))
    d[mkey(a[0])] = a[1].name if isinstance(a[1], Fn) else None
    st.ghost['onlock'] = tuple(sorted(d.items(), key=str))


@hook('vc_on_wait')
def vc_on_wait(E, st, a, i, fn):
    st.ghost['onwait'] = a[0].name if isinstance(a[0], Fn) else None


@hook(rx(r'^std::(recursive_|timed_|shared_)?mutex::lock\(\)'))
def m_lock(E, st, a, i, fn):
    cb = dict(st.ghost.get('onlock', ())).get(mkey(a[0]))
    if cb and not st.ghost.get('in_env'):
        do_lock(E, st, a[0])
        st.ghost['in_env'] = True

        def fin(E2, s2):
            s2.ghost.pop('in_env', None)
            return None
        return call_then(E, st, i, cb, [], None, fin)
    do_lock(E, st, a[0])


@hook('pthread_mutex_lock')
def pt_lock(E, st, a, i, fn):
    m_lock(E, st, a, i, fn)
    return 0


@hook('pthread_mutex_unlock')
def pt_unlock(E, st, a, i, fn):
    do_unlock(E, st, a[0])
    return 0


@hook(rx(r'^std::(recursive_|timed_|shared_)?mutex::try_lock\(\)'))
def m_trylock(E, st, a, i, fn):
    if mkey(a[0]) in lock_set(st):
        return 0
    t = nondet(E, st, 'trylock', 1)
    if E.decide(st, t == 1):
        do_lock(E, st, a[0])
        return 1
    return 0


def cv_wait(E, st, i, mtx, result, cvkey):
    """release, environment step, reacquire"""
    if mtx not in lock_set(st):
        E.obligation(st, False, 'lock-discipline', 'condition wait without holding the mutex')
        raise PathEnd()
    st.ghost['waits'] = st.ghost.get('waits', 0) + 1
    st.ghost['lastwait'] = cvkey
    others = [k for k in lock_set(st) if k != mtx]
    cb = st.ghost.get('onwait')
    if cb and not st.ghost.get('in_env'):
        st.ghost['locks'] = lock_set(st) - {mtx}
        st.ghost['in_env'] = True

        def fin(E2, s2):
            s2.ghost['locks'] = lock_set(s2) | {mtx}
            s2.ghost.pop('in_env', None)
            return result(E2, s2) if callable(result) else result
        return call_then(E, st, i, cb, [], None, fin)
    return result(E, st) if callable(result) else result


@hook(rx(r'^std::condition_variable::(~)?condition_variable\('))
def cv_ctor(E, st, a, i, fn):
    return None


@hook(rx(r'^std::condition_variable::notify_(one|all)\('))
def cv_notify(E, st, a, i, fn):
    k = ('notify', mkey(a[0]))
    st.ghost[k] = st.ghost.get(k, 0) + (1 if 'notify_one' in fn.dem else 1000)


@hook('vc_notified')
def vc_notified(E, st, a, i, fn):
    """number of notify_one + 1000 * notify_all on this condition variable"""
    return st.ghost.get(('notify', mkey(a[0])), 0)


@hook('vc_waits')
def vc_waits(E, st, a, i, fn):
    return st.ghost.get('waits', 0)


@hook(rx(r'^std::condition_variable::wait\(std::unique_lock'))
def cv_wait1(E, st, a, i, fn):
    m = E.load(st, a[1], 'p')
    return cv_wait(E, st, i, mkey(m), None, mkey(a[0]))


@hook('pthread_cond_clockwait', 'pthread_cond_timedwait')
def cv_wait2(E, st, a, i, fn):
    def res(E2, s2):
        t = nondet(E2, s2, 'cv_timeout', 1)
        return z3.If(t if z3.is_bool(t) else t == 1, BV(110, 32), BV(0, 32))
    return cv_wait(E, st, i, mkey(a[1]), res, mkey(a[0]))


@hook('pthread_cond_signal')
def pt_signal(E, st, a, i, fn):
    k = ('notify', mkey(a[0]))
    st.ghost[k] = st.ghost.get(k, 0) + 1
    return 0


@hook('pthread_cond_broadcast')
def pt_bcast(E, st, a, i, fn):
    k = ('notify', mkey(a[0]))
    st.ghost[k] = st.ghost.get(k, 0) + 1000
    return 0


@hook('pthread_cond_init', 'pthread_cond_destroy', 'pthread_mutex_init', 'pthread_mutex_destroy', 'sched_yield', 'nanosleep', 'usleep',
      rx(r'^std::this_thread::__sleep_for'))
def nop0(E, st, a, i, fn):
    return 0


# ---------------------------------------------------------------- threads: the body does not run inside the calling thread's contract
@hook(rx(r'^std::thread::_M_start_thread\('))
def thr_start(E, st, a, i, fn):
    n = st.ghost.get('threads', 0) + 1
    st.ghost['threads'] = n
    E.store(st, a[0], 'i64', 0x7000 + n)


@hook(rx(r'^std::thread::(join|detach)\(\)'))
def thr_join(E, st, a, i, fn):
    v = E.load(st, a[0], 'i64')
    if not isinstance(v, int):
        raise Unsupported('symbolic thread id')
    if v == 0:
        E.obligation(st, False, 'no-abort', 'join of a thread that is not running')
        raise PathEnd()
    k = 'joined' if 'join' in fn.dem else 'detached'
    st.ghost[k] = st.ghost.get(k, 0) + 1
    E.store(st, a[0], 'i64', 0)


@hook(rx(r'^std::thread::(hardware_concurrency|_M_thread_deps_never_run|_State::~_State)'))
def thr_misc(E, st, a, i, fn):
    return 4


@hook('vc_threads_started')
def vc_threads_started(E, st, a, i, fn):
    return st.ghost.get('threads', 0)


@hook('vc_threads_joined')
def vc_threads_joined(E, st, a, i, fn):
    return st.ghost.get('joined', 0)


@hook('pthread_self', 'gettid', 'getpid', 'geteuid', 'getuid')
def ids(E, st, a, i, fn):
    return 1


# ---------------------------------------------------------------- clocks
@hook(rx(r'^std::chrono::(_V2::)?(steady|system)_clock::now\(\)'))
def clk_now(E, st, a, i, fn):
    t = nondet(E, st, 'now', 64)
    last = st.ghost.get('clock')
    E.assume(st, z3.And(t >= 0, t < BV(1 << 61, 64)))
    if last is not None:
        E.assume(st, t >= last)
    st.ghost['clock'] = t
    return t


# ---------------------------------------------------------------- string streams
def okey(p):
    return ('oss', p.obj)


def isstream(st, p):
    return isinstance(p, Ptr) and okey(p) in st.ghost


OSS = r'^std::__cxx11::basic_(o|i)?stringstream<char, std::char_traits<char>, std::allocator<char>\s*>::'


@hook(rx(OSS + r'(~)?basic_(o|i)?stringstream\('))
def oss_ctor(E, st, a, i, fn):
    if '::~' in fn.dem:
        st.ghost.pop(okey(a[0]), None)
        return None
    s = Str([])
    ps = split_params(fn.dem)
    if ps and 'basic_string<' in ps[0]:
        s = get_str(E, st, a[1])
    if 'istringstream' in fn.dem:
        raise Unsupported('istringstream')
    st.ghost[okey(a[0])] = s
    return None


@hook(rx(OSS + r'str\(\) const'))
def oss_str(E, st, a, i, fn):
    s = st.ghost.get(okey(a[1]))
    if s is None:
        raise Unsupported('str() of unknown stream')
    if s == 'lossy':
        s = fresh_str(E, st, 'stream')
    set_str(E, st, a[0], s)
    return None


@hook(rx(OSS + r'str\(.*basic_string'))
def oss_setstr(E, st, a, i, fn):
    st.ghost[okey(a[0])] = get_str(E, st, a[1])
    return None


def put(E, st, p, s):
    if not isstream(st, p):
        return p
    cur = st.ghost[okey(p)]
    if cur == 'lossy' or s is None:
        st.ghost[okey(p)] = 'lossy'
    else:
        st.ghost[okey(p)] = cur + s
    return p


@hook(rx(r'^(std::(basic_)?ostream(<.*>)?&\s+)?std::operator<<\s*<(char, )?std::char_traits<char>\s*(, std::allocator<char>\s*)?>\(std::(basic_)?ostream'))
def oss_put_free(E, st, a, i, fn):
    ps = split_params(fn.dem)
    t = ps[1]
    if t.startswith('char const*'):
        s = arg_cstr(E, st, a[1])
    elif t in ('char', 'signed char', 'unsigned char'):
        s = char_str(E, a[1]) if isinstance(a[1], int) else None
    elif 'basic_string' in t:
        s = get_str(E, st, a[1]) if 'view' not in t else None
    else:
        s = None
    return put(E, st, a[0], s)


@hook(rx(r'^(std::(basic_)?ostream<.*>&\s+)?std::operator<<\s*<char, std::char_traits<char>, std::allocator<char>\s*>\('))
def oss_put_str(E, st, a, i, fn):
    return put(E, st, a[0], get_str(E, st, a[1]))


@hook(rx(r'^(std::(basic_)?ostream<.*>&\s+)?std::operator<<\s*<char, std::char_traits<char>\s*>\(.*(_Setw|_Setfill|_Setprecision|_Setbase)'))
def oss_manip(E, st, a, i, fn):
    return put(E, st, a[0], None)


W = {'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'short': 16, 'unsigned short': 16, 'long long': 64, 'unsigned long long': 64}


@hook(rx(r'^std::ostream::operator<<\('), rx(r'^std::basic_ostream<char, std::char_traits<char>\s*>::operator<<\('))
def oss_put_mem(E, st, a, i, fn):
    t = split_params(fn.dem)[0]
    if not isstream(st, a[0]):
        return a[0]
    if t in W:
        return put(E, st, a[0], num_str(E, st, a[1], W[t], not t.startswith('unsigned')))
    if t == 'bool':
        v = a[1] & 1 if isinstance(a[1], int) else int(E.decide(st, a[1] if z3.is_bool(a[1]) else z3.Extract(0, 0, a[1]) == 1))
        return put(E, st, a[0], Str([('false', 'true')[v] if st.ghost.get(('boolalpha', okey(a[0]))) else str(v)]))
    if '(*)' in t:
        name = a[1].name if isinstance(a[1], Fn) else ''
        if 'boolalpha' in name:
            st.ghost[('boolalpha', okey(a[0]))] = 'noboolalpha' not in name
            return a[0]
        return a[0] if re.search(r'(left|right|dec)', name) and 'ios_base' in t else put(E, st, a[0], None)
    return put(E, st, a[0], None)


@hook(rx(r'^std::(basic_)?ostream(<.*>)?::(flush|put|write)\('), rx(r'^std::(ostream|basic_ostream<.*>)& std::(endl|flush)<'))
def oss_flush(E, st, a, i, fn):
    return a[0]


@hook(rx(r'^std::(ios_base|ios|basic_ios<.*>)::(precision|width|flags|setf|unsetf|fill)\('))
def ios_misc(E, st, a, i, fn):
    return 0


@hook(rx(r'^std::ios_base::Init::'))
def ios_init(E, st, a, i, fn):
    return None


@hook(rx(r'^llvm\.(cttz|ctlz)\.i'))
def ll_cttz(E, st, a, i, fn):
    w = int(fn.name.rsplit('.i', 1)[1])
    v = a[0]
    hi = 'ctlz' in fn.name
    if isinstance(v, int):
        for k in range(w):
            if v >> (w - 1 - k if hi else k) & 1:
                return k
        return w
    if not hi:
        # case split on the small results: powers of two derived from them stay concrete
        for k in range(16):
            if E.decide(st, z3.simplify(z3.Extract(k, k, v)) == 1):
                return k
    r = BV(w, w)
    for k in reversed(range(w)):
        b = w - 1 - k if hi else k
        r = z3.If(z3.Extract(b, b, v) == 1, BV(k, w), r)
    return r


@hook('vc_in')
def vc_in(E, st, a, i, fn):
    """uint64_t vc_in(name, lo, hi): arbitrary value in [lo, hi]"""
    t = nondet(E, st, nm(E, st, a[0]), 64)
    c = z3.simplify(z3.And(z3.UGE(t, E.bv(a[1])), z3.ULE(t, E.bv(a[2]))))
    f, _ = E.feasible(st, c)
    if f is False:
        raise PathEnd()
    E.assume(st, c)
    return t


# ---------------------------------------------------------------- string_view
def sv_str(E, st, n, p):
    """Str denoted by the view (n, p)"""
    if isinstance(n, int) and n == 0:
        return Str([])
    q, o = E.resolve(st, p, 'string_view')
    if o.tag is not None and isinstance(o.tag, Str):
        if isinstance(q.off, int) and q.off == 0 and not isinstance(n, int) and same(str_len(E, st, o.tag), n):
            return o.tag
        if o.tag.conc is None:
            return _h.substr(E, st, o.tag, q.off, n)
    if isinstance(n, int):
        return raw_bytes(E, st, p, n)
    raise Unsupported('string_view of symbolic length')


@hook(sm(r'operator std::basic_string_view<'))
def s_to_sv(E, st, a, i, fn):
    s = get_str(E, st, a[0])
    p = _h.s_cstr(E, st, a, i, fn)
    return [str_len(E, st, s), p]


@hook(rx(r'^(bool\s+)?std::operator(==|!=|<|>|<=|>=)<char, std::char_traits<char>\s*>\(.*basic_string_view'))
def sv_cmp(E, st, a, i, fn):
    if len(a) != 4:
        raise Unsupported(fn.dem)
    x, y = sv_str(E, st, a[0], a[1]), sv_str(E, st, a[2], a[3])
    op = re.search(r'operator(==|!=|<=|>=|<|>)<char', fn.dem).group(1)
    if op in ('==', '!='):
        r = str_eq_v(E, st, x, y)
        return r if op == '==' else 1 - r if isinstance(r, int) else z3.Not(r)
    raise Unsupported(fn.dem)


@hook(rx(r'^(std::(basic_)?ostream(<.*>)?&\s+)?std::operator<<\s*<char, std::char_traits<char>\s*>\(.*basic_string_view<'))
def oss_put_sv(E, st, a, i, fn):
    if not isstream(st, a[0]):
        return a[0]
    return put(E, st, a[0], sv_str(E, st, a[1], a[2]))


@hook(sm(r'basic_string<std::basic_string_view<.*\(std::basic_string_view<'))
def s_ctor_sv(E, st, a, i, fn):
    q, o = E.resolve(st, a[1], 'string_view')
    n, p = E.read(st, o, q.off, 8), E.read(st, o, q.off + 8, 8)
    set_str(E, st, a[0], sv_str(E, st, n, p))


@hook('__dynamic_cast')
def dyn_cast(E, st, a, i, fn):
    """single, non-virtual inheritance (offset 0)"""
    if isinstance(a[0], int) and a[0] == 0:
        return 0
    p, o = E.resolve(st, a[0], 'dynamic_cast')
    vp = E.read(st, o, p.off, 8)
    if not isinstance(vp, Ptr) or not st.obj(vp.obj).name.startswith('_ZTV'):
        raise Unsupported('dynamic_cast of %r' % (vp,))
    ti = '_ZTI' + st.obj(vp.obj).name[4:]
    dst = st.obj(a[2].obj).name
    return a[0] if E.derives(ti, dst) else 0


@hook(rx(r'^std::pmr::memory_resource::~memory_resource\(\)'))
def pmr_dtor(E, st, a, i, fn):
    return None


# ---------------------------------------------------------------- regular expressions over known strings (same as the model in vcregex.h, but faster)
@hook(rx(r'^vc_regex_match\('))
def re_match(E, st, a, i, fn):
    if len(split_params(fn.dem)) != 2:
        return NOTMINE
    s, r = get_str(E, st, a[0]), get_str(E, st, a[1])
    if s.conc is None or r.conc is None or re.search(r'[^\w.\\*\-:/ ]', r.conc):
        return NOTMINE
    return int(re.fullmatch(r.conc, s.conc) is not None)
