"""Symbolic-execution based deductive verifier for LLVM IR of the real FairMQ sources.

The IR is produced by clang -O0 from /repo's current sources on every run (see build.py).
Harness functions (contracts written in C++, vc/specs/*.cpp) call vc_* intrinsics.
"""
import json, os, re, struct, sys, time
import z3

BV = z3.BitVecVal
M64 = (1 << 64) - 1


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    """this path is over (assumption infeasible, exit, ...)"""


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Timeout(Exception):
    pass


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return 'Ptr(%s+%s)' % (self.obj, self.off)

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and same(self.off, o.off)

    def __hash__(self):
        return hash(self.obj)


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Fn(%s)' % self.name

    def __eq__(self, o):
        return isinstance(o, Fn) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Byte:
    """k-th byte of a non-integer value (Ptr etc.)"""
    __slots__ = ('val', 'k', 'n')

    def __init__(self, val, k, n):
        self.val, self.k, self.n = val, k, n


class Undef:
    __slots__ = ()

    def __repr__(self):
        return 'undef'


UNDEF = Undef()


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (int, float, str, bytes)) and isinstance(b, (int, float, str, bytes)):
        return type(a) == type(b) and a == b
    if isinstance(a, z3.AstRef) and isinstance(b, z3.AstRef):
        return a.eq(b)
    if isinstance(a, (Ptr, Fn)) and type(a) is type(b):
        return a == b
    if isinstance(a, (list, tuple)) and type(a) is type(b) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    if hasattr(a, 'vc_same') and type(a) is type(b):
        return a.vc_same(b)
    return False


def is_sym(v):
    return isinstance(v, z3.AstRef)


class Layer:
    """one layer of an object's content; kind: cells | w | copy | fill"""
    __slots__ = ('kind', 'd')

    def __init__(self, kind, d):
        self.kind, self.d = kind, d


class Obj:
    __slots__ = ('id', 'size', 'kind', 'name', 'alive', 'base', 'layers', 'owner', 'baseaddr', 'ro', 'tag')

    def __init__(self, id, size, kind, name, base, owner, baseaddr=None):
        self.id, self.size, self.kind, self.name = id, size, kind, name
        self.alive = True
        self.base = base            # 'undef' | 'zero' | ('nondet', arr) | ('bytes', b)
        self.layers = [Layer('cells', {})]
        self.owner = owner
        self.baseaddr = baseaddr
        self.ro = False
        self.tag = None

    def clone(self, owner):
        o = Obj.__new__(Obj)
        o.id, o.size, o.kind, o.name, o.alive, o.base = self.id, self.size, self.kind, self.name, self.alive, self.base
        o.layers = list(self.layers)
        if o.layers and o.layers[-1].kind == 'cells':
            o.layers[-1] = Layer('cells', dict(o.layers[-1].d))
        o.owner = owner
        o.baseaddr = self.baseaddr
        o.ro = self.ro
        o.tag = self.tag
        return o


class Frame:
    __slots__ = ('fn', 'blk', 'prev', 'ip', 'regs', 'call', 'allocas', 'loops', 'uid', 'onret', 'varargs')

    def __init__(self, fn, uid):
        self.fn = fn
        self.blk = 0
        self.prev = -1
        self.ip = 0
        self.regs = {}
        self.call = None            # instruction in the caller
        self.allocas = []
        self.loops = {}
        self.uid = uid
        self.onret = None           # python continuation
        self.varargs = None

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn, f.blk, f.prev, f.ip = self.fn, self.blk, self.prev, self.ip
        f.regs = dict(self.regs)
        f.call = self.call
        f.allocas = list(self.allocas)
        f.loops = dict(self.loops)
        f.uid = self.uid
        f.onret = self.onret
        f.varargs = self.varargs
        return f


class State:
    _n = 0

    def __init__(self):
        State._n += 1
        self.uid = State._n
        self.mem = {}
        self.frames = []
        self.pc = ()                # nested tuples (parent, cond)
        self.npc = 0
        self.trace = ()             # nested tuples (parent, (name, term, width))
        self.model = None
        self.exc = None
        self.caught = []
        self.ghost = {}             # immutable values only
        self.steps = 0
        self.path = ()              # branch trail (for reports)

    def clone(self):
        s = State.__new__(State)
        State._n += 1
        s.uid = State._n
        State._n += 1
        self.uid = State._n         # both get new owners: copy-on-write
        s.mem = dict(self.mem)
        s.frames = [f.clone() for f in self.frames]
        s.pc, s.npc = self.pc, self.npc
        s.trace = self.trace
        s.model = self.model
        s.exc = self.exc
        s.caught = list(self.caught)
        s.ghost = dict(self.ghost)
        s.steps = self.steps
        s.path = self.path
        return s

    def obj(self, oid):
        o = self.mem.get(oid)
        return o

    def wobj(self, oid):
        o = self.mem[oid]
        if o.owner != self.uid:
            o = o.clone(self.uid)
            self.mem[oid] = o
        return o

    def pcs(self):
        r = []
        p = self.pc
        while p:
            r.append(p[1])
            p = p[0]
        r.reverse()
        return r

    def traces(self):
        r = []
        p = self.trace
        while p:
            r.append(p[1])
            p = p[0]
        r.reverse()
        return r


class Fun:
    def __init__(self, name, d):
        self.name = name
        self.dem = d['dem']
        self.params = d['params']
        self.ret = d['ret']
        self.blocks = d.get('blocks')
        self.file = d.get('file', '')
        self.in_repo = '/repo/' in (self.file or '')
        self.line = d.get('line', 0)
        self.loops = {}
        for h, bs, depth in d.get('loops', []):
            self.loops[h] = (frozenset(bs), depth)
        self.succ_exit = {}
        self.hook = None
        self.hook_done = False


class Violation:
    def __init__(self, label, where, trace, note='', stack=None):
        self.label, self.where, self.trace, self.note, self.stack = label, where, trace, note, stack

    def __repr__(self):
        return 'Violation(%s @ %s %s)' % (self.label, self.where, self.note)


class Module:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.funcs = {k: Fun(k, v) for k, v in d['funcs'].items()}
        self.globals = d['globals']
        self.ctors = d.get('ctors', [])
        self.bydem = {}
        for f in self.funcs.values():
            self.bydem.setdefault(f.dem, []).append(f)


STD_BASES = {
    '_ZTISt9exception': [],
    '_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt11logic_error': ['_ZTISt9exception'],
    '_ZTISt12out_of_range': ['_ZTISt11logic_error'], '_ZTISt16invalid_argument': ['_ZTISt11logic_error'],
    '_ZTISt12length_error': ['_ZTISt11logic_error'], '_ZTISt12domain_error': ['_ZTISt11logic_error'],
    '_ZTISt11range_error': ['_ZTISt13runtime_error'], '_ZTISt14overflow_error': ['_ZTISt13runtime_error'],
    '_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt8bad_cast': ['_ZTISt9exception'],
    '_ZTISt12system_error': ['_ZTISt13runtime_error'], '_ZTISt18bad_variant_access': ['_ZTISt9exception'],
    '_ZTISt19bad_optional_access': ['_ZTISt9exception'], '_ZTISt17bad_function_call': ['_ZTISt9exception'],
    '_ZTISt12bad_any_cast': ['_ZTISt8bad_cast'], '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc'],
}


def width(ty):
    if isinstance(ty, str):
        if ty[0] == 'i':
            return int(ty[1:])
        if ty == 'p':
            return 64
        if ty == 'f64':
            return 64
        if ty == 'f32':
            return 32
    raise Unsupported('width of %s' % (ty,))


def tysize(ty):
    if isinstance(ty, str):
        if ty[0] == 'i':
            return (int(ty[1:]) + 7) // 8 if int(ty[1:]) <= 64 else 16
        if ty in ('p', 'f64'):
            return 8
        if ty == 'f32':
            return 4
        if ty == 'f80':
            return 16
    if ty[0] == 'st':
        return ty[1]
    if ty[0] in ('ar', 'vec'):
        return ty[1] * ty[3]
    raise Unsupported('size of %s' % (ty,))


def tobool(v):
    if isinstance(v, int):
        return z3.BoolVal(bool(v))
    if isinstance(v, z3.BoolRef):
        return v
    raise Unsupported('tobool %r' % (v,))


def zand(*cs):
    cs = [c for c in cs if not (c is True or z3.is_true(tobool(c) if not isinstance(c, bool) else z3.BoolVal(c)))]
    if not cs:
        return z3.BoolVal(True)
    return z3.And(*cs) if len(cs) > 1 else cs[0]


class LoopRec:
    __slots__ = ('header', 'blocks', 'npc0', 'snap', 'snapid', 'concrete_exit', 'count', 'depth', 'unrolled')

    def __init__(self):
        for k in self.__slots__:
            setattr(self, k, None)

    def clone(self):
        r = LoopRec()
        for k in self.__slots__:
            setattr(r, k, getattr(self, k))
        return r


def linear(t, k, w, out):
    """t*k as a sum of coefficient * term, into out"""
    if z3.is_bv_value(t):
        o = out.get(None, (None, 0))
        out[None] = (None, o[1] + k * t.as_long())
        return True
    d = t.decl().kind()
    if d == z3.Z3_OP_BADD:
        return all(linear(a, k, w, out) for a in t.children())
    if d == z3.Z3_OP_BNEG:
        return linear(t.arg(0), -k, w, out)
    if d == z3.Z3_OP_BSUB and t.num_args() == 2:
        return linear(t.arg(0), k, w, out) and linear(t.arg(1), -k, w, out)
    if d == z3.Z3_OP_BMUL and t.num_args() == 2:
        for i in (0, 1):
            if z3.is_bv_value(t.arg(i)):
                return linear(t.arg(1 - i), k * t.arg(i).as_signed_long(), w, out)
    o = out.get(t.get_id(), (t, 0))
    out[t.get_id()] = (t, o[1] + k)
    return True


class Engine:
    def __init__(self, module, hooks, config=None):
        self.m = module
        self.hooks = hooks                  # list of (regex or str, fn)
        self.exact = {}
        self.rx = []
        for h, f in hooks:
            if hasattr(h, 'match'):
                self.rx.append((h, f))
            else:
                self.exact[h] = f
        c = config or {}
        self.replace = dict(c.get('replace', {}))     # mangled real fn -> mangled contract fn
        self.mode = c.get('mode', 'proof')            # proof | unroll
        self.unroll_k = c.get('unroll', 4)
        self.env_steps = int(c.get('env_steps', 0))
        self.cut_grow = c.get('cut')
        self.cut_outer = c.get('cut_outer')
        self.deadline = time.time() + c.get('timeout', 600)
        self.solver_timeout = c.get('solver_timeout', 20000)
        self.max_steps = c.get('max_steps', 2000000)
        self.next_obj = 1
        self.gobj = {}
        self.fresh_n = 0
        self.next_frame = 1
        self.oblig = {}                     # label -> dict
        self.violations = []
        self.unknowns = []
        self.covers = {}
        self.entered = {}                   # functions whose body was symbolically executed
        self.contract_used = {}             # functions replaced by contract
        self.assumed = {}                   # external functions modelled (trusted)
        self.queries = 0
        self.solver_time = 0.0
        self.paths = 0
        self.incomplete = []                # bounded cut-offs
        self.analysis = 0                   # >0: obligations are assumed, not recorded
        self.tids = {}
        self.invs = []
        self.loops_summarized = {}
        self.unmodeled_calls = set()
        self.opaque_sizes = {}
        self.fp_hint = None
        self.done_snaps = set()
        self.smt_log = None
        self.qcache = {}
        self.hook_state = {}
        self.trace_calls = c.get('trace_calls', False)
        self.max_viol = c.get('max_viol', 3)
        self.named = c.get('named', {})
        self.string_mode = False
        self.total_steps = 0
        self.cur = None

    def last_where(self):
        try:
            return self.where(self.cur) if self.cur is not None and self.cur.frames else []
        except Exception:
            return []

    # ------------------------------------------------------------ solver
    def fresh(self, name, w):
        self.fresh_n += 1
        n = '%s!%d' % (name, self.fresh_n)
        return z3.Bool(n) if w == 1 else z3.BitVec(n, w)

    def check(self, conds):
        """conds: list of z3 bools -> 'sat'/'unsat'/'unknown', model"""
        if time.time() > self.deadline:
            raise Timeout()
        key = tuple(sorted(c.get_id() for c in conds))
        hit = self.qcache.get(key)
        if hit is not None:
            return hit[0], hit[1]
        t = time.time()
        s = z3.Solver() if self.string_mode else z3.SolverFor('QF_AUFBV')
        s.set('timeout', self.solver_timeout)
        s.add(*conds)
        r = s.check()
        self.queries += 1
        m = None
        if r == z3.sat:
            m = s.model()
            res = 'sat'
        elif r == z3.unsat:
            res = 'unsat'
        else:
            # second chance: default tactic
            s2 = z3.Solver()
            s2.set('timeout', self.solver_timeout)
            s2.add(*conds)
            r = s2.check()
            if r == z3.sat:
                m = s2.model()
                res = 'sat'
            elif r == z3.unsat:
                res = 'unsat'
            else:
                res = 'unknown'
                if os.environ.get('VC_DUMP'):
                    open(os.environ['VC_DUMP'] + '.%d.txt' % self.queries, 'w').write('\n'.join(map(str, conds)))
        self.solver_time += time.time() - t
        if os.environ.get('VC_SLOW') and time.time() - t > 2:
            open(os.environ['VC_SLOW'], 'a').write('---- %.1f %s %s\n%s\n' % (time.time() - t, res, self.last_where()[:2], '\n'.join(map(str, conds))))
        self.qcache[key] = (res, m, conds)   # keep conds alive: ids stay unique
        return res, m

    def relevant(self, st, cond):
        """cone-of-influence slice of the path condition"""
        pcs = st.pcs()
        need = set(self.vars(cond))
        sets = [(c, self.vars(c)) for c in pcs]
        changed = True
        used = [False] * len(sets)
        while changed:
            changed = False
            for i, (c, vs) in enumerate(sets):
                if not used[i] and (not vs or (vs & need)):
                    used[i] = True
                    if not vs <= need:
                        need |= vs
                        changed = True
        return [c for i, (c, _) in enumerate(sets) if used[i]]

    _vcache = {}

    def vars(self, t):
        i = t.get_id()
        v = Engine._vcache.get(i)
        if v is not None:
            return v[0]
        res = set()
        stack = [t]
        seen = set()
        while stack:
            x = stack.pop()
            xi = x.get_id()
            if xi in seen:
                continue
            seen.add(xi)
            c = Engine._vcache.get(xi)
            if c is not None:
                res |= c[0]
                continue
            if z3.is_app(x):
                if x.num_args() == 0:
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        res.add(x.decl().name())
                else:
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        res.add('fn:' + x.decl().name())
                    stack.extend(x.children())
            elif z3.is_quantifier(x):
                stack.append(x.body())
        fs = frozenset(res)
        Engine._vcache[i] = (fs, t)
        return fs

    def feasible(self, st, cond):
        """is pc && cond satisfiable; updates nothing"""
        if z3.is_true(cond):
            return True, st.model
        if z3.is_false(cond):
            return False, None
        if st.model is not None:
            try:
                if z3.is_true(st.model.eval(cond, model_completion=True)):
                    return True, st.model
            except z3.Z3Exception:
                pass
        r, m = self.check(self.relevant(st, cond) + [cond])
        if r == 'unsat':
            return False, None
        if r == 'unknown':
            return None, None
        return True, None

    def assume(self, st, cond):
        if isinstance(cond, (int, bool)):
            if not cond:
                raise PathEnd()
            return
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathEnd()
        st.pc = (st.pc, cond)
        st.npc += 1
        if st.model is not None:
            try:
                if not z3.is_true(st.model.eval(cond, model_completion=True)):
                    st.model = None
            except z3.Z3Exception:
                st.model = None

    def fullmodel(self, st):
        if st.model is not None:
            return st.model
        r, m = self.check(st.pcs())
        if r == 'sat':
            st.model = m
        return st.model

    def decide(self, st, cond):
        """True/False if implied by pc, else raise Fork(cond)"""
        if isinstance(cond, (int, bool)):
            return bool(cond)
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        f1, _ = self.feasible(st, cond)
        if f1 is False:
            return False
        f2, _ = self.feasible(st, z3.Not(cond))
        if f2 is False:
            return True
        raise Fork(cond)

    def must(self, st, cond):
        """is cond implied by pc (no fork)?"""
        if isinstance(cond, (int, bool)):
            return bool(cond)
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        f, _ = self.feasible(st, z3.Not(cond))
        return f is False

    # ------------------------------------------------------------ obligations
    def where(self, st):
        r = []
        for f in reversed(st.frames):
            line = 0
            b = f.fn.blocks[f.blk] if f.fn.blocks else []
            if f.ip < len(b):
                line = b[f.ip][-1]
            r.append('%s:%s (%s)' % (f.fn.file.split('/repo/')[-1], line, f.fn.dem.split('(')[0][-70:]))
        return r

    def obligation(self, st, cond, label, note=''):
        """check pc => cond; records; afterwards assumes cond"""
        if self.analysis:
            self.assume(st, cond)
            return
        w = self.where(st)
        o = self.oblig.setdefault(label, {'checked': 0, 'discharged': 0, 'failed': 0, 'unknown': 0, 'trivial': 0})
        o['checked'] += 1
        if isinstance(cond, (int, bool)):
            if cond:
                o['discharged'] += 1
                o['trivial'] += 1
                return
            cond = z3.BoolVal(False)
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            o['discharged'] += 1
            o['trivial'] += 1
            return
        neg = z3.Not(cond)
        rel = self.relevant(st, neg)
        r, m = self.check(rel + [neg])
        if r == 'unsat':
            o['discharged'] += 1
            if self.smt_log is not None:
                self.smt_log.append((label, rel + [neg]))
            self.assume(st, cond)
            return
        if r == 'unknown':
            o['unknown'] += 1
            self.unknowns.append((label, w[:4]))
            self.assume(st, cond)
            return
        r2, m2 = self.check(st.pcs() + [neg])
        if r2 == 'unsat':
            # the path itself is infeasible
            raise PathEnd()
        if r2 == 'unknown':
            o['unknown'] += 1
            self.unknowns.append((label, w[:4]))
            self.assume(st, cond)
            return
        o['failed'] += 1
        tr = []
        for n, t, wd in st.traces():
            tr.append((n, self.modelval(m2, t), wd))
        gen = any(f.loops.get('__generic') for f in st.frames) or st.ghost.get('generic')
        self.violations.append(Violation(label, w[:6], tr, note + (' [from generic loop state]' if gen else ''), None))
        if len(self.violations) >= self.max_viol:
            raise Timeout()
        self.assume(st, cond)
        f, _ = self.feasible(st, z3.BoolVal(True)) if st.model else (None, None)
        r3, _ = self.check(st.pcs())
        if r3 == 'unsat':
            raise PathEnd()

    def modelval(self, m, t):
        if isinstance(t, (int, str)):
            return t
        if hasattr(t, 'vc_model'):
            return t.vc_model(m)
        v = m.eval(t, model_completion=True)
        if z3.is_bv_value(v):
            return v.as_long()
        if z3.is_true(v):
            return 1
        if z3.is_false(v):
            return 0
        if z3.is_string_value(v):
            return v.as_string()
        if z3.is_int_value(v):
            return v.as_long()
        return str(v)

    def violation(self, st, label, note=''):
        self.obligation(st, False, label, note)
        raise PathEnd()

    # ------------------------------------------------------------ memory
    def new_obj(self, st, size, kind, name, base='undef', baseaddr=None):
        oid = self.next_obj
        self.next_obj += 1
        o = Obj(oid, size, kind, name, base, st.uid, baseaddr)
        st.mem[oid] = o
        return oid

    def global_obj(self, st, name):
        oid = self.gobj.get(name)
        if oid is None:
            oid = self.next_obj
            self.next_obj += 1
            self.gobj[name] = oid
        if oid not in st.mem:
            g = self.m.globals.get(name)
            if g is None:
                raise Unsupported('global %s' % name)
            if name.startswith('_ZTI') and 'init' not in g:    # type information defined by the C++ runtime: only its name is known
                nid = self.gobj.get('name of ' + name)
                if nid is None:
                    nid = self.gobj['name of ' + name] = self.next_obj
                    self.next_obj += 1
                b = name[4:].encode() + b'\0'
                no = Obj(nid, len(b), 'global', 'name of ' + name, ('bytes', b), st.uid)
                no.ro = True
                st.mem[nid] = no
                o = Obj(oid, 24, 'global', name, 'undef', st.uid)
                o.layers[-1].d[8] = (8, Ptr(nid, 0))
                o.ro = True
                st.mem[oid] = o
                return oid
            o = Obj(oid, g['size'], 'global', name, 'zero' if 'init' in g else 'undef', st.uid)
            st.mem[oid] = o
            if 'init' in g:
                self.init_const(st, o, 0, g['init'])
            o.ro = g['const'] and 'init' in g
        return oid

    def init_const(self, st, o, off, c):
        k = c[0]
        cells = o.layers[-1].d
        if k == 'i':
            w = c[1]
            cells[off] = ((w + 7) // 8, int(c[2]))
        elif k in ('n', 'z', 'u'):
            pass
        elif k == 'bytes':
            b = bytes.fromhex(c[1])
            if off == 0 and len(b) == o.size:
                o.base = ('bytes', b)
            else:
                for i, x in enumerate(b):
                    cells[off + i] = (1, x)
        elif k == 'agg':
            t = c[1]
            if t[0] == 'st':
                for (eo, et), e in zip(t[2], c[2]):
                    self.init_const(st, o, off + eo, e)
            else:
                for i, e in enumerate(c[2]):
                    self.init_const(st, o, off + i * t[3], e)
        else:
            v = self.cval(st, c)
            cells[off] = (8 if k != 'f' else tysize(c[1]), v)

    def addr(self, st, p):
        """integer value of a pointer"""
        if isinstance(p, (int, z3.BitVecRef)):
            return p
        if isinstance(p, Ptr):
            o = st.obj(p.obj)
            b = o.baseaddr if o is not None and o.baseaddr is not None else (p.obj + 16) << 34
            return self.add64(b, p.off)
        if isinstance(p, Fn):
            return (1 << 62) + (hash(p.name) & 0xffffffff) * 16
        if p is UNDEF:
            return self.fresh('undef', 64)
        raise Unsupported('addr of %r' % (p,))

    def add64(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return (a + b) & M64
        if isinstance(a, int) and a == 0:
            return b
        if isinstance(b, int) and b == 0:
            return a
        return z3.simplify((BV(a, 64) if isinstance(a, int) else a) + (BV(b, 64) if isinstance(b, int) else b))

    def bv(self, v, w=64):
        if isinstance(v, int):
            return BV(v, w)
        if isinstance(v, z3.BoolRef):
            return z3.If(v, BV(1, w), BV(0, w))
        if isinstance(v, z3.BitVecRef):
            return v
        raise Unsupported('bv of %r' % (v,))

    def resolve(self, st, p, what='access'):
        if isinstance(p, Ptr):
            o = st.obj(p.obj)
            if o is None:
                raise Unsupported('dangling object %s' % p)
            return p, o
        if isinstance(p, int):
            if p < 4096:
                self.violation(st, 'memory-safety', 'null pointer %s (%d)' % (what, p))
            # try concrete address
            k = (p >> 34) - 16
            o = st.obj(k)
            if o is not None and o.baseaddr is None:
                return Ptr(k, p - ((k + 16) << 34)), o
            raise Unsupported('wild pointer %x' % p)
        if isinstance(p, z3.BitVecRef):
            # null possible?
            if not self.must(st, p != 0):
                self.obligation(st, p != 0, 'memory-safety', 'null pointer %s' % what)
            for (oid, base) in self.hook_state.get('symbase', []):
                o = st.obj(oid)
                if o is None:
                    continue
                off = z3.simplify(p - base)
                szb = self.bv(o.size)
                if z3.is_bv_value(off):
                    return Ptr(oid, off.as_long()), o
            for (oid, base) in self.hook_state.get('symbase', []):
                o = st.obj(oid)
                if o is None:
                    continue
                off = z3.simplify(p - base)
                szb = self.bv(o.size)
                if self.must(st, z3.ULE(off, szb)):
                    return Ptr(oid, off), o
            raise Unsupported('symbolic pointer without provenance: %s' % str(z3.simplify(p))[:120])
        if isinstance(p, Fn):
            raise Unsupported('access through function pointer')
        if p is UNDEF:
            self.violation(st, 'memory-safety', 'access through uninitialised pointer')
        raise Unsupported('resolve %r' % (p,))

    def bounds(self, st, p, o, n, what):
        if not o.alive:
            self.violation(st, 'memory-safety', 'use after free/lifetime of %s' % o.name)
        off = p.off
        if isinstance(off, int) and isinstance(o.size, int) and isinstance(n, int):
            if off < 0 or off + n > o.size:
                self.violation(st, 'memory-safety', '%s of %d bytes at offset %d outside %s (size %d)' % (what, n, off, o.name, o.size))
            return
        offb, szb, nb = self.bv(off), self.bv(o.size), self.bv(n)
        c = z3.And(z3.ULE(offb, szb), z3.ULE(nb, szb - offb))
        if z3.is_true(z3.simplify(c)):
            return
        self.obligation(st, c, 'memory-safety', '%s outside %s' % (what, o.name))

    def bytes_of(self, v, n):
        """list of n byte values, little endian"""
        if isinstance(v, int):
            return [(v >> (8 * i)) & 255 for i in range(n)]
        if isinstance(v, z3.BitVecRef):
            if v.size() < 8 * n:
                v = z3.ZeroExt(8 * n - v.size(), v)
            return [z3.simplify(z3.Extract(8 * i + 7, 8 * i, v)) for i in range(n)]
        if isinstance(v, z3.BoolRef):
            return self.bytes_of(z3.If(v, BV(1, 8 * n), BV(0, 8 * n)), n)
        return [Byte(v, i, n) for i in range(n)]

    def join_bytes(self, st, bs):
        n = len(bs)
        if all(isinstance(b, int) for b in bs):
            r = 0
            for i, b in enumerate(bs):
                r |= b << (8 * i)
            return r
        if isinstance(bs[0], Byte):
            b0 = bs[0]
            if b0.n == n and all(isinstance(b, Byte) and b.val is b0.val and b.k == i for i, b in enumerate(bs)):
                return b0.val
        out = []
        for b in bs:
            if isinstance(b, Byte):
                if b.val is UNDEF:
                    b = self.fresh('undef', 8)
                elif isinstance(b.val, (Ptr, Fn)):
                    a = self.bytes_of(self.addr(st, b.val), 8)
                    b = a[b.k]
                elif isinstance(b.val, float) or z3.is_fp(b.val):
                    b = self.bytes_of(self.fpbits(b.val, b.n), b.n)[b.k]
                else:
                    raise Unsupported('bytes of ghost value %r' % (b.val,))
            out.append(BV(b, 8) if isinstance(b, int) else b)
        if n == 1:
            return out[0]
        r = z3.simplify(z3.Concat(*reversed(out)))
        if z3.is_bv_value(r):
            return r.as_long()
        return r

    def fpbits(self, v, n):
        if isinstance(v, float):
            return struct.unpack('<Q', struct.pack('<d', v))[0] if n == 8 else struct.unpack('<I', struct.pack('<f', v))[0]
        return z3.fpToIEEEBV(v)

    def read(self, st, o, off, n):
        """raw value of n bytes at off"""
        return self._read(st, o, len(o.layers) - 1, off, n)

    def _read(self, st, o, li, off, n):
        while li >= 0:
            L = o.layers[li]
            if L.kind == 'cells':
                d = L.d
                if isinstance(off, int):
                    c = d.get(off)
                    if c is not None and c[0] == n:
                        return c[1]
                    # overlapping?
                    ov = False
                    if d:
                        if n <= 8:
                            for o2 in range(max(0, off - 63), off + n):
                                c = d.get(o2)
                                if c is not None and o2 + c[0] > off:
                                    ov = True
                                    break
                        else:
                            ov = any(o2 < off + n and o2 + c2[0] > off for o2, c2 in d.items())
                    if ov:
                        if n == 1:
                            for o2 in range(max(0, off - 63), off + 1):
                                c = d.get(o2)
                                if c is not None and o2 + c[0] > off:
                                    return self.bytes_of(c[1], c[0])[off - o2]
                        bs = [self._read(st, o, li, off + i, 1) for i in range(n)]
                        bs = [self.bytes_of(b, 1)[0] if not isinstance(b, (int, Byte)) else b for b in bs]
                        return self.join_bytes(st, bs)
                else:
                    for o2 in sorted(d):
                        s2, v2 = d[o2]
                        if s2 == n and self.decide(st, off == o2):
                            return v2
                        if s2 != n or True:
                            # partial overlap must be impossible
                            inter = z3.And(z3.UGT(off + n, BV(o2, 64)), z3.ULT(off, BV(o2 + s2, 64)))
                            if s2 == n:
                                inter = z3.And(inter, off != o2)
                            if not self.must(st, z3.Not(inter)):
                                if s2 > n and self.decide(st, inter):
                                    # read inside a bigger cell: enumerate
                                    for k in range(s2 - n + 1):
                                        if self.decide(st, off == o2 + k):
                                            return self.join_bytes(st, self.bytes_of(v2, s2)[k:k + n])
                                    raise Unsupported('partial symbolic overlap')
                                if self.decide(st, inter):
                                    bs = [self._read(st, o, li, z3.simplify(off + i), 1) for i in range(n)]
                                    return self.join_bytes(st, bs)
            elif L.kind == 'w':
                o2, s2, v2 = L.d
                a, b = self.bv(off), self.bv(o2)
                if s2 == n:
                    if self.decide(st, a == b):
                        return v2
                    inter = z3.And(z3.ULT(a - b + (n - 1), BV(n + s2 - 1, 64)))
                    if not self.must(st, z3.Not(inter)):
                        if self.decide(st, inter):
                            raise Unsupported('partial overlap of symbolic accesses')
                else:
                    inter = z3.ULT(a - b + (n - 1), BV(n + s2 - 1, 64))
                    if self.decide(st, inter):
                        if n == 1 and s2 <= 64:
                            for k in range(s2):
                                if self.decide(st, a == b + k):
                                    x = self.bytes_of(v2, s2)[k]
                                    return x
                            raise PathEnd()
                        bs = [self._read(st, o, li, self.add64(off, i), 1) for i in range(n)]
                        return self.join_bytes(st, bs)
            elif L.kind == 'copy':
                o2, ln, src, soff = L.d       # src: frozen Obj
                a, b, l = self.bv(off), self.bv(o2), self.bv(ln)
                inside = z3.And(z3.ULE(b, a), z3.ULE(a + n, b + l), z3.ULE(BV(n, 64), l))
                if self.decide(st, inside):
                    return self._read(st, src, len(src.layers) - 1, self.add64(soff, self.norm(a - b)), n)
                outside = z3.Or(z3.ULE(a + n, b), z3.ULE(b + l, a), l == 0)
                if not self.decide(st, outside):
                    if n == 1:
                        raise PathEnd()
                    bs = [self._read(st, o, li, self.add64(off, i), 1) for i in range(n)]
                    return self.join_bytes(st, bs)
            elif L.kind == 'fill':
                o2, ln, byte = L.d
                a, b, l = self.bv(off), self.bv(o2), self.bv(ln)
                inside = z3.And(z3.ULE(b, a), z3.ULE(a + n, b + l), z3.ULE(BV(n, 64), l))
                if self.decide(st, inside):
                    return self.join_bytes(st, [byte] * n)
                outside = z3.Or(z3.ULE(a + n, b), z3.ULE(b + l, a), l == 0)
                if not self.decide(st, outside):
                    if n == 1:
                        raise PathEnd()
                    bs = [self._read(st, o, li, self.add64(off, i), 1) for i in range(n)]
                    return self.join_bytes(st, bs)
            li -= 1
        b = o.base
        if b == 'zero':
            return 0
        if b == 'undef':
            return UNDEF
        if b[0] == 'bytes':
            if isinstance(off, int):
                return int.from_bytes(b[1][off:off + n], 'little')
            data = b[1]
            r = None
            if n == 1 and len(data) <= 512:
                r = BV(0, 8)
                for i, x in enumerate(data):
                    r = z3.If(off == i, BV(x, 8), r)
                return r
            raise Unsupported('symbolic read of constant data')
        if b[0] == 'nondet':
            arr = b[1]
            offb = self.bv(off)
            bs = [z3.Select(arr, z3.simplify(offb + i)) for i in range(n)]
            return bs[0] if n == 1 else z3.Concat(*reversed(bs))
        raise Unsupported('read base %r' % (b,))

    def norm(self, v):
        v = z3.simplify(v)
        if z3.is_bv_value(v):
            return v.as_long()
        return v

    def write(self, st, oid, off, n, v):
        o = st.wobj(oid)
        if not isinstance(off, int):
            o.layers.append(Layer('w', (off, n, v)))
            o.layers.append(Layer('cells', {}))
            return
        if o.layers[-1].kind != 'cells':
            o.layers.append(Layer('cells', {}))
        d = o.layers[-1].d
        c = d.get(off)
        if c is not None and c[0] == n:
            d[off] = (n, v)
            return
        self.clear_range(d, off, n)
        d[off] = (n, v)

    def clear_range(self, d, off, n):
        if n <= 64:
            cand = [x for x in range(max(0, off - 255), off + n) if x in d]
        else:
            cand = [x for x in d if x < off + n]
        for o2 in cand:
            s2, v2 = d[o2]
            if o2 + s2 > off:
                del d[o2]
                if o2 < off or o2 + s2 > off + n:
                    bs = self.bytes_of(v2, s2)
                    for i in range(s2):
                        p = o2 + i
                        if not (off <= p < off + n):
                            d[p] = (1, bs[i])

    def load(self, st, p, ty, atomic=False):
        if isinstance(ty, list):
            if ty[0] == 'st':
                return [self.load(st, self.padd(st, p, eo), et) for eo, et in ty[2]]
            return [self.load(st, self.padd(st, p, i * ty[3]), ty[2]) for i in range(ty[1])]
        p, o = self.resolve(st, p, 'read')
        n = tysize(ty)
        self.bounds(st, p, o, n, 'read')
        h = self.hook_state.get('on_access')
        if h:
            h(self, st, p, o, n, False, atomic)
            o = st.obj(p.obj)
        v = self.read(st, o, p.off, n)
        return self.typed(st, v, ty, p, n)

    def typed(self, st, v, ty, p=None, n=None):
        if v is UNDEF:
            w = 1 if ty == 'i1' else width(ty)
            if ty in ('f64', 'f32'):
                return z3.FP('undef!%d' % self.fresh_n, z3.Float64() if ty == 'f64' else z3.Float32())
            v = self.fresh('undef', w)
            if p is not None and isinstance(p.off, int):
                # stable value for repeated reads
                self.write(st, p.obj, p.off, n, v if w != 1 else z3.If(v, BV(1, 8), BV(0, 8)))
            return v
        if isinstance(v, Byte):
            v = self.join_bytes(st, [v])
        if ty == 'i1':
            if isinstance(v, int):
                return v & 1
            if isinstance(v, z3.BoolRef):
                return v
            r = z3.simplify(z3.Extract(0, 0, v) == 1)
            if z3.is_true(r):
                return 1
            if z3.is_false(r):
                return 0
            return r
        if ty in ('f64', 'f32'):
            if isinstance(v, float) or z3.is_fp(v):
                return v
            if isinstance(v, int):
                return struct.unpack('<d', struct.pack('<Q', v))[0] if ty == 'f64' else struct.unpack('<f', struct.pack('<I', v))[0]
            if isinstance(v, z3.BitVecRef):
                return z3.fpBVToFP(v, z3.Float64() if ty == 'f64' else z3.Float32())
        elif isinstance(v, float) or z3.is_fp(v):
            return self.norm(self.bv(self.fpbits(v, tysize(ty)), 8 * tysize(ty)))
        if isinstance(v, z3.BoolRef):
            return z3.If(v, BV(1, width(ty)), BV(0, width(ty)))
        return v

    def store(self, st, p, ty, v, atomic=False):
        if isinstance(ty, list):
            if v is UNDEF:
                return
            if ty[0] == 'st':
                for (eo, et), x in zip(ty[2], v):
                    self.store(st, self.padd(st, p, eo), et, x)
            else:
                for i, x in enumerate(v):
                    self.store(st, self.padd(st, p, i * ty[3]), ty[2], x)
            return
        p, o = self.resolve(st, p, 'write')
        n = tysize(ty)
        self.bounds(st, p, o, n, 'write')
        if o.ro:
            if o.name in ('character of a string', 'characters of a string'):
                raise Unsupported('write into the characters of a string')
            self.violation(st, 'memory-safety', 'write to constant %s' % o.name)
        h = self.hook_state.get('on_access')
        if h:
            h(self, st, p, o, n, True, atomic)
        if ty == 'i1' and isinstance(v, z3.BoolRef):
            v = z3.If(v, BV(1, 8), BV(0, 8))
        self.write(st, p.obj, p.off, n, v)

    def padd(self, st, p, off):
        if isinstance(off, int) and off == 0:
            return p
        if isinstance(p, Ptr):
            return Ptr(p.obj, self.sadd(p.off, off))
        if isinstance(p, (int, z3.BitVecRef)):
            return self.add64(p, off if not isinstance(off, int) else off & M64)
        if p is UNDEF:
            return UNDEF
        if isinstance(p, Fn):
            raise Unsupported('fn ptr arithmetic')
        raise Unsupported('padd %r' % (p,))

    def sadd(self, a, b):
        """offset addition: concrete offsets stay small signed python ints"""
        if isinstance(a, int) and isinstance(b, int):
            r = a + b
            if r >= 1 << 63:
                r -= 1 << 64
            return r
        r = self.add64(a & M64 if isinstance(a, int) else a, b & M64 if isinstance(b, int) else b)
        if z3.is_bv_value(r):
            r = r.as_long()
            if r >= 1 << 63:
                r -= 1 << 64
        return r

    def memcpy(self, st, d, s, n):
        if isinstance(n, int) and n == 0:
            return
        if isinstance(n, z3.BitVecRef):
            n = self.norm(n)
        if is_sym(n):
            if self.decide(st, n == 0):
                return
        sp, so = self.resolve(st, s, 'read')
        dp, do = self.resolve(st, d, 'write')
        self.bounds(st, sp, so, n, 'memcpy read')
        self.bounds(st, dp, do, n, 'memcpy write')
        h = self.hook_state.get('on_access')
        if h:
            h(self, st, sp, so, n, False, False)
            h(self, st, dp, do, n, True, False)
            so = st.obj(sp.obj)
        if isinstance(n, int) and isinstance(sp.off, int) and isinstance(dp.off, int) and len(so.layers) == 1 and \
                (so.base in ('undef', 'zero') or n <= 256):
            cells = so.layers[0].d
            items = []
            ok = True
            for o2, (s2, v2) in cells.items():
                if o2 + s2 <= sp.off or o2 >= sp.off + n:
                    continue
                if o2 < sp.off or o2 + s2 > sp.off + n:
                    bs = self.bytes_of(v2, s2)
                    for i in range(s2):
                        if sp.off <= o2 + i < sp.off + n:
                            items.append((o2 + i, 1, bs[i]))
                    continue
                items.append((o2, s2, v2))
            if so.base not in ('undef', 'zero') or (so.base != do.base):
                # fill the gaps explicitly
                cov = set()
                for o2, s2, _ in items:
                    cov.update(range(o2, o2 + s2))
                gaps = [i for i in range(sp.off, sp.off + n) if i not in cov]
                # group gaps into maximal runs, split to 8/4/2/1
                i = 0
                while i < len(gaps):
                    j = i
                    while j + 1 < len(gaps) and gaps[j + 1] == gaps[j] + 1:
                        j += 1
                    a, e = gaps[i], gaps[j] + 1
                    while a < e:
                        k = 8
                        while k > 1 and (a % k or a + k > e):
                            k //= 2
                        v = self._read(st, so, len(so.layers) - 1, a, k)
                        items.append((a, k, v))
                        a += k
                    i = j + 1
            do = st.wobj(dp.obj)
            if do.layers[-1].kind != 'cells':
                do.layers.append(Layer('cells', {}))
            dd = do.layers[-1].d
            self.clear_range(dd, dp.off, n)
            for o2, s2, v2 in items:
                dd[o2 - sp.off + dp.off] = (s2, v2)
            return
        frozen = so.clone(-1)
        do = st.wobj(dp.obj)
        do.layers.append(Layer('copy', (dp.off if is_sym(dp.off) else BV(dp.off, 64), n if is_sym(n) else BV(n, 64), frozen, sp.off if is_sym(sp.off) else BV(sp.off, 64))))
        do.layers.append(Layer('cells', {}))

    def memset(self, st, d, byte, n):
        if isinstance(n, z3.BitVecRef):
            n = self.norm(n)
        if isinstance(n, int) and n == 0:
            return
        if is_sym(n) and self.decide(st, n == 0):
            return
        dp, do = self.resolve(st, d, 'write')
        self.bounds(st, dp, do, n, 'memset')
        do = st.wobj(dp.obj)
        if isinstance(n, int) and isinstance(dp.off, int) and n <= 4096 and isinstance(byte, int):
            if do.layers[-1].kind != 'cells':
                do.layers.append(Layer('cells', {}))
            dd = do.layers[-1].d
            self.clear_range(dd, dp.off, n)
            if byte == 0 and do.base == 'zero' and len(do.layers) == 1:
                return
            a, e = dp.off, dp.off + n
            while a < e:
                k = 8
                while k > 1 and (a % k or a + k > e):
                    k //= 2
                dd[a] = (k, int.from_bytes(bytes([byte & 255]) * k, 'little'))
                a += k
            return
        do.layers.append(Layer('fill', (self.bv(dp.off), self.bv(n), byte)))
        do.layers.append(Layer('cells', {}))

    # ------------------------------------------------------------ values
    def cval(self, st, c):
        k = c[0]
        if k == 'i':
            return int(c[2])
        if k == 'n':
            return 0
        if k == 'g':
            n = c[1]
            if n in self.m.funcs:
                return Fn(n)
            return Ptr(self.global_obj(st, n), 0)
        if k == 'gep':
            return self.padd(st, self.cval(st, c[1]), c[2])
        if k == 'u':
            return self.undef_of(c[1])
        if k == 'z':
            return self.zero_of(c[1])
        if k == 'f':
            b = int(c[2])
            if c[1] == 'f64':
                return struct.unpack('<d', struct.pack('<Q', b))[0]
            if c[1] == 'f32':
                return struct.unpack('<f', struct.pack('<I', b))[0]
            raise Unsupported('fp const %s' % c[1])
        if k == 'agg':
            return [self.cval(st, e) for e in c[2]]
        if k == 'cast':
            return self.cval(st, c[2])
        if k == 'bytes':
            return list(bytes.fromhex(c[1]))
        if k == 'ce' and c[1] == 'sub':
            a, b = self.cval(st, c[3]), self.cval(st, c[4])
            return self.binop(st, 'sub', 64, a, b)
        if k == 'md' or k == 'asm' or k == 'bb':
            return None
        raise Unsupported('const %r' % (c,))

    def undef_of(self, ty):
        if isinstance(ty, list):
            if ty[0] == 'st':
                return [self.undef_of(t) for _, t in ty[2]]
            return [self.undef_of(ty[2]) for _ in range(ty[1])]
        return UNDEF

    def zero_of(self, ty):
        if isinstance(ty, list):
            if ty[0] == 'st':
                return [self.zero_of(t) for _, t in ty[2]]
            return [self.zero_of(ty[2]) for _ in range(ty[1])]
        if ty in ('f64', 'f32'):
            return 0.0
        return 0

    def ev(self, st, v):
        if isinstance(v, int):
            return st.frames[-1].regs[v]
        if v[0] == 'i' :
            return int(v[2])
        return self.cval(st, v)

    def intval(self, st, v, w):
        """value as int or BV"""
        if isinstance(v, (int, z3.BitVecRef, z3.BoolRef)):
            return v
        if isinstance(v, (Ptr, Fn)):
            return self.addr(st, v)
        if v is UNDEF:
            return self.fresh('undef', w)
        if isinstance(v, float) or z3.is_fp(v):
            return self.fpbits(v, w // 8)
        raise Unsupported('intval %r' % (v,))

    def binop(self, st, op, w, a, b, fl=0):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'add':
                if isinstance(a, Ptr) and not isinstance(b, Ptr):
                    return self.padd(st, a, b if is_sym(b) else (b if b < 1 << 63 else b - (1 << 64)))
                if isinstance(b, Ptr) and not isinstance(a, Ptr):
                    return self.padd(st, b, a if is_sym(a) else (a if a < 1 << 63 else a - (1 << 64)))
            if op == 'sub' and isinstance(a, Ptr):
                if isinstance(b, Ptr):
                    if a.obj == b.obj:
                        x, y = a.off, b.off
                        if isinstance(x, int) and isinstance(y, int):
                            return (x - y) & M64
                        return self.norm(self.bv(x & M64 if isinstance(x, int) else x) - self.bv(y & M64 if isinstance(y, int) else y))
                elif isinstance(b, int):
                    return self.padd(st, a, -b if b < 1 << 63 else (1 << 64) - b)
                elif isinstance(b, z3.BitVecRef):
                    return self.padd(st, a, z3.simplify(-b))
        a = self.intval(st, a, w)
        b = self.intval(st, b, w)
        mask = (1 << w) - 1
        if w == 1:
            if isinstance(a, int) and isinstance(b, int):
                if op in ('and', 'or', 'xor'):
                    return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op] & 1
                if op == 'add' or op == 'sub':
                    return (a ^ b) & 1
            x, y = tobool(a), tobool(b)
            r = {'and': lambda: z3.And(x, y), 'or': lambda: z3.Or(x, y), 'xor': lambda: z3.Xor(x, y), 'add': lambda: z3.Xor(x, y)}
            if op not in r:
                raise Unsupported('i1 ' + op)
            r = z3.simplify(r[op]())
            return 1 if z3.is_true(r) else 0 if z3.is_false(r) else r
        if isinstance(a, int) and isinstance(b, int):
            def sg(x):
                return x - (1 << w) if x >> (w - 1) else x
            if op == 'add':
                if fl & 1 and not (-(1 << (w - 1)) <= sg(a) + sg(b) < (1 << (w - 1))):
                    self.violation(st, 'signed-overflow', 'add')
                return (a + b) & mask
            if op == 'sub':
                if fl & 1 and not (-(1 << (w - 1)) <= sg(a) - sg(b) < (1 << (w - 1))):
                    self.violation(st, 'signed-overflow', 'sub')
                return (a - b) & mask
            if op == 'mul':
                if fl & 1 and not (-(1 << (w - 1)) <= sg(a) * sg(b) < (1 << (w - 1))):
                    self.violation(st, 'signed-overflow', 'mul')
                return (a * b) & mask
            if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0:
                self.violation(st, 'division-by-zero')
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            if op == 'sdiv':
                q = abs(sg(a)) // abs(sg(b))
                return (q if (sg(a) < 0) == (sg(b) < 0) else -q) & mask
            if op == 'srem':
                r = abs(sg(a)) % abs(sg(b))
                return (r if sg(a) >= 0 else -r) & mask
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & mask if b < w else 0
            if op == 'lshr':
                return a >> b if b < w else 0
            if op == 'ashr':
                return (sg(a) >> min(b, w - 1)) & mask
            raise Unsupported(op)
        x, y = self.bv(a, w), self.bv(b, w)
        if op in ('add', 'sub', 'mul') and fl & 1:
            # signed overflow is undefined behaviour: obligation
            if op == 'add':
                c = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
            elif op == 'sub':
                c = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
            else:
                c = z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
            if self.hook_state.get('check_overflow', True):
                self.obligation(st, c, 'signed-overflow', op)
        if op in ('udiv', 'urem', 'sdiv', 'srem') and not isinstance(b, int):
            self.obligation(st, y != 0, 'division-by-zero')
        if op in ('udiv', 'urem', 'sdiv', 'srem') and isinstance(b, int) and b == 0:
            self.violation(st, 'division-by-zero')
        if op in ('udiv', 'urem', 'sdiv', 'srem', 'ashr', 'lshr') and isinstance(b, int) and w >= 16:
            r = self.exact_div(st, op, x, b, w)
            if r is not None:
                return r
        if op == 'add':
            r = x + y
        elif op == 'sub':
            r = x - y
        elif op == 'mul':
            r = x * y
        elif op == 'udiv':
            r = z3.UDiv(x, y)
        elif op == 'urem':
            r = z3.URem(x, y)
        elif op == 'sdiv':
            r = x / y
        elif op == 'srem':
            r = z3.SRem(x, y)
        elif op == 'and':
            r = x & y
        elif op == 'or':
            r = x | y
        elif op == 'xor':
            r = x ^ y
        elif op == 'shl':
            r = x << y
        elif op == 'lshr':
            r = z3.LShR(x, y)
        elif op == 'ashr':
            r = x >> y
        else:
            raise Unsupported(op)
        return self.norm(r)

    def exact_div(self, st, op, x, c, w):
        """x / c, x % c where x is a sum of multiples of c: the quotient without a division, if it cannot wrap around"""
        if op in ('ashr', 'lshr'):
            if not 0 < c < w - 1:
                return None
            c = 1 << c
        if c < 2 or c >> (w - 1):
            return None
        x = z3.simplify(x)
        lin = {}
        if not linear(x, 1, w, lin) or not lin:
            return None
        signed = op in ('sdiv', 'srem', 'ashr')
        q, rest, nz = None, None, False
        for t, k in lin.values():
            k &= (1 << w) - 1
            if k >> (w - 1):
                k -= 1 << w
            if k == 0:
                continue
            if k % c and (op not in ('sdiv', 'udiv') or c < 1000):
                return None
            exact = k % c == 0
            if exact:
                nz = nz or t is not None
                k //= c
            y = BV(k & ((1 << w) - 1), w) if t is None else t * BV(k & ((1 << w) - 1), w) if k != 1 else t
            if exact:
                q = y if q is None else q + y
            else:
                rest = y if rest is None else rest + y
        if not nz:
            return None
        q = z3.simplify(q)
        if rest is not None:
            # x = c*q + rest with |rest| < c: rounded towards zero
            lim = ((1 << (w - 1)) - 1) // c - 1
            ok = z3.And(q <= BV(lim, w), q >= BV((1 << w) - lim, w), rest < BV(c, w), rest > BV((1 << w) - c, w))
            if op == 'udiv':
                ok = z3.And(ok, q >= 0, z3.Or(q > 0, rest >= 0))
            if not self.must(st, ok):
                return None
            one = BV(1, w)
            return self.norm(z3.If(z3.And(q > 0, rest < 0), q - one, z3.If(z3.And(q < 0, rest > 0), q + one, q)))
        if signed:
            lim = ((1 << (w - 1)) - 1) // c
            ok = z3.And(q <= BV(lim, w), q >= BV((1 << w) - lim, w))
        else:
            ok = z3.ULE(q, BV(((1 << w) - 1) // c, w))
        if not self.must(st, ok):
            return None
        return 0 if op in ('urem', 'srem') else self.norm(q)

    def icmp(self, st, pred, ty, a, b):
        w = 64 if ty == 'p' else width(ty)
        if isinstance(a, Fn) and isinstance(b, Fn):
            eq = a.name == b.name
            if pred in ('eq', 'ne'):
                return int(eq == (pred == 'eq'))
        if isinstance(a, Fn) and isinstance(b, int) and b == 0 or isinstance(b, Fn) and isinstance(a, int) and a == 0:
            if pred in ('eq', 'ne'):
                return int(pred == 'ne')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj:
                    x, y = a.off, b.off
                    if isinstance(x, int) and isinstance(y, int):
                        # signed offsets within one object
                        r = {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y,
                             'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[pred]
                        return int(r)
                    a = x & M64 if isinstance(x, int) else x
                    b = y & M64 if isinstance(y, int) else y
                elif pred in ('eq', 'ne'):
                    return int(pred == 'ne')
                else:
                    a, b = self.addr(st, a), self.addr(st, b)
            else:
                p, q = (a, b) if isinstance(a, Ptr) else (b, a)
                if isinstance(q, int) and q == 0:
                    if pred in ('eq', 'ne'):
                        return int(pred == 'ne')
                if isinstance(q, Fn) and pred in ('eq', 'ne'):
                    return int(pred == 'ne')
                a, b = self.addr(st, a), self.addr(st, b)
        a = self.intval(st, a, w)
        b = self.intval(st, b, w)
        if w == 1:
            if isinstance(a, int) and isinstance(b, int):
                return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ugt': a > b, 'ule': a <= b, 'uge': a >= b}[pred])
            x, y = tobool(a), tobool(b)
            r = z3.simplify((x == y) if pred == 'eq' else z3.Xor(x, y))
            return 1 if z3.is_true(r) else 0 if z3.is_false(r) else r
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == 's':
                if a >> (w - 1):
                    a -= 1 << w
                if b >> (w - 1):
                    b -= 1 << w
            p = pred if pred in ('eq', 'ne') else pred[1:]
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p])
        x, y = self.bv(a, w), self.bv(b, w)
        r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
             'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y,
             'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]()
        r = z3.simplify(r)
        return 1 if z3.is_true(r) else 0 if z3.is_false(r) else r

    # ------------------------------------------------------------ FP
    def fpv(self, v, ty='f64'):
        so = z3.Float64() if ty == 'f64' else z3.Float32()
        if isinstance(v, float):
            return z3.FPVal(v, so)
        if isinstance(v, int):
            return z3.FPVal(float(v), so)
        return v

    def fbin(self, op, ty, a, b):
        if isinstance(a, float) and isinstance(b, float):
            if op == 'fadd':
                r = a + b
            elif op == 'fsub':
                r = a - b
            elif op == 'fmul':
                r = a * b
            elif op == 'fdiv':
                if b == 0:
                    r = float('nan') if a == 0 else float('inf') * (1 if (a > 0) == (str(b)[0] != '-') else -1)
                else:
                    r = a / b
            else:
                raise Unsupported(op)
            if ty == 'f32':
                r = struct.unpack('<f', struct.pack('<f', r))[0]
            return r
        x, y = self.fpv(a, ty), self.fpv(b, ty)
        rm = z3.RNE()
        return {'fadd': lambda: z3.fpAdd(rm, x, y), 'fsub': lambda: z3.fpSub(rm, x, y), 'fmul': lambda: z3.fpMul(rm, x, y),
                'fdiv': lambda: z3.fpDiv(rm, x, y)}[op]()

    def fcmp(self, pred, ty, a, b):
        if isinstance(a, float) and isinstance(b, float):
            nan = a != a or b != b
            base = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}
            if pred in ('ord', 'uno'):
                return int(nan == (pred == 'uno'))
            if pred[0] == 'o':
                return int(not nan and base[pred[1:]])
            return int(nan or base[pred[1:]])
        x, y = self.fpv(a, ty), self.fpv(b, ty)
        nan = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        if pred == 'ord':
            return z3.Not(nan)
        if pred == 'uno':
            return nan
        base = {'eq': lambda: z3.fpEQ(x, y), 'ne': lambda: z3.Not(z3.fpEQ(x, y)), 'lt': lambda: z3.fpLT(x, y), 'le': lambda: z3.fpLEQ(x, y),
                'gt': lambda: z3.fpGT(x, y), 'ge': lambda: z3.fpGEQ(x, y)}[pred[1:]]()
        r = z3.And(z3.Not(nan), base) if pred[0] == 'o' else z3.Or(nan, base)
        r = z3.simplify(r)
        return 1 if z3.is_true(r) else 0 if z3.is_false(r) else r

    def castop(self, st, op, sty, dty, v):
        if isinstance(sty, list) or isinstance(dty, list):
            raise Unsupported('cast of aggregate')
        if v is UNDEF:
            if op in ('ptrtoint', 'inttoptr', 'bitcast'):
                return v
            v = self.fresh('undef', width(sty))
        if op in ('bitcast', 'ptrtoint', 'inttoptr'):
            if op == 'ptrtoint' and dty != 'i64':
                v = self.intval(st, v, 64)
                return self.castop(st, 'trunc', 'i64', dty, v)
            if op == 'bitcast' and (isinstance(v, float) or z3.is_fp(v)):
                return self.fpbits(v, tysize(sty))
            return self.typed(st, v, dty) if dty in ('f64', 'f32') else v
        if op in ('trunc', 'zext', 'sext'):
            sw, dw = width(sty), width(dty)
            v = self.intval(st, v, sw)
            if op == 'trunc':
                if isinstance(v, int):
                    return v & ((1 << dw) - 1)
                if dw == 1:
                    r = z3.simplify(z3.Extract(0, 0, v) == 1)
                    return 1 if z3.is_true(r) else 0 if z3.is_false(r) else r
                return self.norm(z3.Extract(dw - 1, 0, v))
            if isinstance(v, int):
                if op == 'sext' and v >> (sw - 1):
                    return v | (((1 << dw) - 1) ^ ((1 << sw) - 1))
                return v
            if isinstance(v, z3.BoolRef):
                one = 1 if op == 'zext' else (1 << dw) - 1
                return z3.If(v, BV(one, dw), BV(0, dw))
            return self.norm(z3.ZeroExt(dw - sw, v) if op == 'zext' else z3.SignExt(dw - sw, v))
        if op in ('sitofp', 'uitofp'):
            w = width(sty)
            if isinstance(v, int):
                if op == 'sitofp' and v >> (w - 1):
                    v -= 1 << w
                r = float(v)
                if dty == 'f32':
                    r = struct.unpack('<f', struct.pack('<f', r))[0]
                return r
            so = z3.Float64() if dty == 'f64' else z3.Float32()
            return z3.fpSignedToFP(z3.RNE(), self.bv(v, w), so) if op == 'sitofp' else z3.fpUnsignedToFP(z3.RNE(), self.bv(v, w), so)
        if op in ('fptosi', 'fptoui'):
            w = width(dty)
            if isinstance(v, float):
                lo, hi = (-(1 << (w - 1)), 1 << (w - 1)) if op == 'fptosi' else (0, 1 << w)
                if v != v or not (lo - 1 < v < hi):
                    self.violation(st, 'fp-to-int-overflow', 'value %r does not fit' % v)
                return int(v) & ((1 << w) - 1)
            f = self.fpv(v, sty)
            so = z3.Float64() if sty == 'f64' else z3.Float32()
            lo, hi = (-(1 << (w - 1)), 1 << (w - 1)) if op == 'fptosi' else (0, 1 << w)
            self.obligation(st, z3.And(z3.Not(z3.fpIsNaN(f)), z3.fpLT(f, z3.FPVal(float(hi), so)), z3.fpGT(f, z3.FPVal(float(lo) - 1.0, so)) if w < 53 else z3.fpGEQ(f, z3.FPVal(float(lo), so))), 'fp-to-int-overflow')
            return z3.fpToSBV(z3.RTZ(), f, z3.BitVecSort(w)) if op == 'fptosi' else z3.fpToUBV(z3.RTZ(), f, z3.BitVecSort(w))
        if op == 'fpext':
            return v if isinstance(v, float) else z3.fpFPToFP(z3.RNE(), v, z3.Float64())
        if op == 'fptrunc':
            if isinstance(v, float):
                try:
                    return struct.unpack('<f', struct.pack('<f', v))[0]
                except OverflowError:
                    return float('inf') if v > 0 else float('-inf')
            return z3.fpFPToFP(z3.RNE(), v, z3.Float32())
        raise Unsupported('cast ' + op)

    # ------------------------------------------------------------ calls
    def hook_for(self, fn):
        if fn.hook_done:
            return fn.hook
        h = self.exact.get(fn.name) or self.exact.get(fn.dem)
        if h is None:
            for r, f in self.rx:
                if r.match(fn.dem):
                    h = f
                    break
        if h is not None and fn.blocks and 'specs/' in (fn.file or ''):
            h = None    # the contract file gives its own definition
        fn.hook = h
        fn.hook_done = True
        return h

    def push_call(self, st, fn, args, inst, onret=None):
        self.next_frame += 1
        f = Frame(fn, self.next_frame)
        f.call = inst
        f.onret = onret
        np = len(fn.params)
        for i, a in enumerate(args[:np]):
            f.regs[i] = a
        if len(args) < np:
            raise Unsupported('too few args to %s' % fn.dem)
        if len(st.frames) > 400:
            raise Unsupported('call depth: %s' % fn.dem)
        st.frames.append(f)
        if not self.analysis:
            self.entered[fn.name] = self.entered.get(fn.name, 0) + 1

    def do_call(self, st, inst, callee, args):
        if isinstance(callee, Fn):
            name = callee.name
        else:
            if isinstance(callee, int) and callee == 0:
                self.violation(st, 'memory-safety', 'call through null function pointer')
            raise Unsupported('indirect call through %r' % (callee,))
        rep = self.replace.get(name)
        if rep is not None and not any(f.fn.name == rep for f in st.frames):
            self.contract_used[name] = self.contract_used.get(name, 0) + 1
            name = rep
        fn = self.m.funcs.get(name)
        if fn is None:
            raise Unsupported('no function %s' % name)
        h = self.hook_for(fn)
        if h is not None:
            if self.trace_calls:
                print('  ' * len(st.frames), 'HOOK', fn.dem[:120], file=sys.stderr)
            if not self.analysis and not fn.name.startswith('vc_'):
                self.assumed[fn.dem[:160]] = self.assumed.get(fn.dem[:160], 0) + 1
            r = h(self, st, args, inst, fn)
            if r is PENDING:
                return
            if r is not NOTMINE:
                self.finish_call(st, inst, r)
                return
        if fn.blocks is None:
            raise Unsupported('external function without contract: %s' % fn.dem)
        if self.trace_calls:
            print('  ' * len(st.frames), 'CALL', fn.dem[:140], file=sys.stderr)
        # byval copies
        fr = st.frames[-1]
        for i, p in enumerate(fn.params):
            if i < len(args) and p[2]:
                oid = self.new_obj(st, p[2], 'stack', 'byval', 'undef')
                self.memcpy(st, Ptr(oid, 0), args[i], p[2])
                args[i] = Ptr(oid, 0)
        self.push_call(st, fn, args, inst)

    def finish_call(self, st, inst, r):
        """returned normally to the frame on top"""
        f = st.frames[-1]
        if inst is None:
            return
        if inst[1] >= 0:
            if r is None:
                r = UNDEF
            f.regs[inst[1]] = r
        if inst[5] >= 0:
            self.jump(st, inst[5])
        else:
            f.ip += 1

    def do_ret(self, st, v):
        f = st.frames.pop()
        for oid in f.allocas:
            # end of lifetime: keep memory cheap
            o = st.mem.get(oid)
            if o is not None:
                if o.kind == 'stack':
                    w = st.wobj(oid)
                    w.alive = False
                    w.layers = [Layer('cells', {})]
        if f.onret is not None:
            f.onret(self, st, v, f)
            return
        if not st.frames:
            raise PathEnd()
        self.finish_call(st, f.call, v)

    def throw(self, st, exc):
        st.exc = exc
        # does the frame on top invoke?
        self.unwind(st, first=True)

    def unwind(self, st, first=False):
        """propagate st.exc: the top frame's current instruction threw"""
        while True:
            f = st.frames[-1]
            b = f.fn.blocks[f.blk] if f.fn.blocks else []
            inst = b[f.ip] if f.ip < len(b) else None
            if inst is not None and inst[0] == 'call' and inst[6] >= 0:
                ub = inst[6]
                # find landingpad
                for i in f.fn.blocks[ub]:
                    if i[0] == 'landingpad':
                        lp = i
                        break
                else:
                    raise Unsupported('no landingpad')
                sel = self.lp_match(st, lp)
                if sel is not None:
                    self.jump(st, ub)
                    f.ip = f.fn.blocks[ub].index(lp)
                    f.regs[lp[1]] = [st.exc[0], sel]
                    f.ip += 1
                    return
            f = st.frames.pop()
            for oid in f.allocas:
                o = st.mem.get(oid)
                if o is not None:
                    st.wobj(oid).alive = False
            if f.onret is not None:
                raise Unsupported('exception through python continuation')
            if not st.frames:
                self.obligation_uncaught(st)
                raise PathEnd()

    def obligation_uncaught(self, st):
        self.next_frame += 1
        if not self.analysis:
            o = self.oblig.setdefault('no-uncaught-exception', {'checked': 0, 'discharged': 0, 'failed': 0, 'unknown': 0, 'trivial': 0})
            o['checked'] += 1
            r, m = self.check(st.pcs())
            if r == 'sat':
                o['failed'] += 1
                tr = [(n, self.modelval(m, t), wd) for n, t, wd in st.traces()]
                self.violations.append(Violation('no-uncaught-exception', ['%s' % (st.exc[1],)], tr, 'exception %s escaped %s' % (st.exc[1], st.exc[2])))
                if len(self.violations) >= self.max_viol:
                    raise Timeout()
            elif r == 'unknown':
                o['unknown'] += 1
            else:
                o['discharged'] += 1

    def bases(self, ti):
        if ti in STD_BASES:
            return STD_BASES[ti]
        g = self.m.globals.get(ti)
        if g is None or 'init' not in g or g['init'][0] != 'agg':
            return []
        r = []
        for e in g['init'][2][2:]:
            if e[0] == 'g' and e[1].startswith('_ZTI'):
                r.append(e[1])
            elif e[0] == 'agg':
                for x in e[2]:
                    if x[0] == 'g' and x[1].startswith('_ZTI'):
                        r.append(x[1])
        return r

    def derives(self, ti, base):
        if ti == base:
            return True
        return any(self.derives(b, base) for b in self.bases(ti))

    def tid(self, ti):
        return self.tids.setdefault(ti, len(self.tids) + 1)

    def lp_match(self, st, lp):
        ti = st.exc[1]
        for kind, c in lp[3]:
            if kind == 'catch':
                if c[0] == 'n':
                    return self.tid('...') if False else self.tid_null()
                if c[0] == 'g' and (ti is not None and self.derives(ti, c[1])):
                    return self.tid(c[1])
            else:
                # filter: noexcept / exception spec -> terminate path; treat as match
                return (1 << 32) - 1
        if lp[2]:
            return 0
        return None

    def tid_null(self):
        return self.tid('(null)')

    def throw_std(self, st, tiname, msg='', size=16):
        oid = self.new_obj(st, size, 'heap', 'exception', 'zero')
        self.throw(st, (Ptr(oid, 0), tiname, msg))

    # ------------------------------------------------------------ control flow
    def jump(self, st, b):
        f = st.frames[-1]
        fn = f.fn
        f.prev = f.blk
        f.blk = b
        f.ip = 0
        if fn.loops:
            # loops left?
            for h in list(f.loops):
                if b not in fn.loops[h][0]:
                    del f.loops[h]
            if b in fn.loops:
                self.at_header(st, f, b)

    probing = False
    PURE = {'load', 'icmp', 'br', 'jmp', 'bin', 'castop', 'gep', 'phi', 'select', 'freeze'}

    def leaves_at_once(self, st, f, h, blocks):
        """the guard evaluated in the state of the back edge is false: the state leaves the loop (st is advanced), no next iteration"""
        p = st.clone()
        g = p.frames[-1]
        depth = len(p.frames)
        self.probing = True
        try:
            for _ in range(60):
                if g.blk not in blocks:
                    self.adopt(st, p)
                    return True
                inst = g.fn.blocks[g.blk][g.ip]
                if inst[0] not in self.PURE:
                    return False
                blk = g.blk
                self.step(p, g, inst)
                if p.frames[-1] is not g or len(p.frames) != depth:
                    return False
        except (Fork, TwoWay, BackEdge, LoopCut, PathEnd, Unsupported):
            return False
        finally:
            self.probing = False
        return False

    def nested(self, st, f, h):
        """h lies inside another loop of the same activation, or of a caller in the code under test"""
        if any(h2 != h and h in l2[0] for h2, l2 in f.fn.loops.items()):
            return True
        return any(g is not f and g.loops and g.fn.in_repo for g in st.frames)

    def at_header(self, st, f, h):
        fn = f.fn
        blocks = fn.loops[h][0]
        rec = f.loops.get(h)
        ctx = self.loop_ctx
        if rec is not None and rec.count == -1:
            if ctx is not None and ctx[0] == f.uid and ctx[1] == h:
                if not self.probing and self.leaves_at_once(st, f, h, blocks):
                    return
                raise BackEdge()
            st.ghost['pending_back'] = (f.uid, h)
            return
        if rec is None:
            rec = LoopRec()
            rec.header, rec.blocks = h, blocks
            rec.count = 0
            rec.concrete_exit = False
            rec.unrolled = 0
            f.loops[h] = rec
        else:
            rec = rec.clone()
            f.loops[h] = rec
            rec.count += 1
            if self.mode == 'unroll':
                if not rec.concrete_exit:
                    rec.unrolled += 1
                    if rec.unrolled > self.unroll_k or rec.count > 3000:
                        self.incomplete.append('%s block %d' % (fn.dem, h))
                        raise PathEnd()
            elif (self.env_steps and st.trace is not rec.npc0 and rec.count <= self.env_steps):
                pass    # the contract's environment step ends the path at the second iteration (induction by the harness)
            elif not rec.concrete_exit or rec.count > 256 or (self.cut_grow is not None and fn.in_repo and st.trace is not rec.npc0 and rec.count >= self.cut_grow and not (self.cut_outer and self.nested(st, f, h))):
                # needs an inductive argument
                raise LoopCut(rec)
            rec.concrete_exit = False
        rec.npc0 = st.trace
        if self.mode != 'unroll':
            rec.snap = None
            snap = st.clone()
            snap.fresh_mark = self.fresh_n
            rec.snap = snap
            rec.snapid = snap.uid

    # ------------------------------------------------------------ main loop
    loop_ctx = None

    def run(self, st, ctx=None):
        """explore all paths from st. ctx=(frame uid, header, blocks, depth): analysis/loop mode; returns (backedge states, exit states)"""
        saved = self.loop_ctx
        self.loop_ctx = ctx
        back, exits = [], []
        work = [st]
        try:
            while work:
                s = work.pop()
                if isinstance(s, BackState):
                    back.append(s.st)
                    continue
                try:
                    r = self.run_path(s, work, ctx)
                    if r == 'back':
                        back.append(s)
                    elif r == 'exit':
                        exits.append(s)
                except PathEnd:
                    if ctx is None:
                        self.paths += 1
                except LoopCut as lc:
                    for e in self.summarize(lc.rec):
                        work.append(e)
        finally:
            self.loop_ctx = saved
        return back, exits

    def run_path(self, st, work, ctx):
        while True:
            f = st.frames[-1] if st.frames else None
            if f is None:
                raise PathEnd()
            if ctx is not None:
                if st.ghost.get('pending_back') == (ctx[0], ctx[1]):
                    del st.ghost['pending_back']
                    return 'back'
                if len(st.frames) < ctx[3] or (len(st.frames) == ctx[3] and (f.uid != ctx[0] or f.blk not in ctx[2])):
                    return 'exit'
            st.steps += 1
            self.total_steps += 1
            self.cur = st
            if st.steps > self.max_steps:
                raise Unsupported('step limit')
            if st.steps & 1023 == 0 and time.time() > self.deadline:
                raise Timeout()
            inst = f.fn.blocks[f.blk][f.ip]
            try:
                self.step(st, f, inst)
            except Fork as fk:
                other = st.clone()
                c = z3.simplify(fk.cond)
                ok1 = self.try_assume(st, c)
                ok2 = self.try_assume(other, z3.simplify(z3.Not(c)))
                if ok1 and ok2:
                    work.append(other)
                elif ok2:
                    # continue with other in place: copy its content
                    self.adopt(st, other)
                elif not ok1:
                    raise PathEnd()
            except TwoWay as tw:
                # branch: (cond, target true, target false)
                other = st.clone()
                self.assume(st, tw.cond)
                try:
                    self.assume(other, z3.Not(tw.cond))
                    oth = True
                except PathEnd:
                    oth = False
                if oth:
                    try:
                        self.jump(other, tw.f)
                        work.append(other)
                    except BackEdge:
                        work.append(BackState(other))
                    except LoopCut as lc:
                        for e in self.summarize(lc.rec):
                            work.append(e)
                    except PathEnd:
                        pass
                try:
                    self.jump(st, tw.t)
                except BackEdge:
                    return 'back'
            except BackEdge:
                return 'back'

    def adopt(self, st, other):
        for k in ('mem', 'frames', 'pc', 'npc', 'trace', 'model', 'exc', 'caught', 'ghost', 'path'):
            setattr(st, k, getattr(other, k))
        st.uid = other.uid

    def try_assume(self, st, c):
        f, m = self.feasible(st, c)
        if f is False:
            return False
        try:
            self.assume(st, c)
        except PathEnd:
            return False
        return True

    def branch(self, st, f, c, t, e):
        """conditional branch"""
        L = f.fn.loops
        if isinstance(c, Undef):
            c = self.fresh('undef', 1)
        if isinstance(c, int):
            tgt = t if c & 1 else e
            for h, rec in list(f.loops.items()):
                if f.blk in rec.blocks and (t not in rec.blocks or e not in rec.blocks):
                    rec = rec.clone()
                    rec.concrete_exit = True
                    f.loops[h] = rec
            self.jump(st, tgt)
            return
        c = z3.simplify(c)
        f1, m1 = self.feasible(st, c)
        f2, m2 = self.feasible(st, z3.Not(c)) if f1 is not False else (True, None)
        if f1 is False:
            self.assume(st, z3.Not(c)) if False else None
            self.jump(st, e)
            return
        if f2 is False:
            self.jump(st, t)
            return
        raise TwoWay(c, t, e)

    def step(self, st, f, inst):
        op = inst[0]
        regs = f.regs
        if op == 'load':
            v = self.load(st, self.ev(st, inst[3]), inst[2], inst[4])
            regs[inst[1]] = v
            f.ip += 1
        elif op == 'store':
            self.store(st, self.ev(st, inst[4]), inst[2], self.ev(st, inst[3]), inst[5])
            f.ip += 1
        elif op == 'alloca':
            n = self.ev(st, inst[3])
            if not isinstance(n, int):
                raise Unsupported('dynamic alloca')
            oid = self.new_obj(st, inst[2] * n, 'stack', inst[4] or 'tmp', 'undef')
            f.allocas.append(oid)
            regs[inst[1]] = Ptr(oid, 0)
            f.ip += 1
        elif op == 'gep':
            p = self.ev(st, inst[2])
            off = inst[3]
            for v, sc, w in inst[4]:
                x = self.ev(st, v)
                x = self.intval(st, x, w)
                if isinstance(x, int):
                    if x >> (w - 1):
                        x -= 1 << w
                    off = off + x * sc if isinstance(off, int) else self.sadd(off, x * sc)
                else:
                    if w < 64:
                        x = z3.SignExt(64 - w, x)
                    t = x * BV(sc & M64, 64) if sc != 1 else x
                    off = z3.simplify(t + BV(off & M64, 64)) if isinstance(off, int) else z3.simplify(off + t)
            if not isinstance(off, int) and z3.is_bv_value(off):
                off = off.as_signed_long()
            regs[inst[1]] = self.padd(st, p, off)
            f.ip += 1
        elif op == 'bin':
            if inst[3] in ('f64', 'f32'):
                regs[inst[1]] = self.fbin(inst[2], inst[3], self.ev(st, inst[4]), self.ev(st, inst[5]))
            else:
                regs[inst[1]] = self.binop(st, inst[2], width(inst[3]), self.ev(st, inst[4]), self.ev(st, inst[5]), inst[6])
            f.ip += 1
        elif op == 'icmp':
            regs[inst[1]] = self.icmp(st, inst[2], inst[3], self.ev(st, inst[4]), self.ev(st, inst[5]))
            f.ip += 1
        elif op == 'castop':
            regs[inst[1]] = self.castop(st, inst[2], inst[3], inst[4], self.ev(st, inst[5]))
            f.ip += 1
        elif op == 'br':
            self.branch(st, f, self.ev(st, inst[2]), inst[3], inst[4])
        elif op == 'jmp':
            self.jump(st, inst[2])
        elif op == 'call':
            callee = self.ev(st, inst[3]) if isinstance(inst[3], int) else self.cval(st, inst[3])
            if callee is None:
                # inline asm (e.g. compiler barriers)
                f.ip += 1
                return
            args = []
            for a in inst[4]:
                if isinstance(a, list) and a[0] == 'byval':
                    args.append(self.ev(st, a[2]))
                elif isinstance(a, list) and a[0] == 'md':
                    args.append(None)
                else:
                    args.append(self.ev(st, a))
            self.do_call(st, inst, callee, args)
        elif op == 'ret':
            self.do_ret(st, self.ev(st, inst[2]) if len(inst) > 3 else None)
        elif op == 'select':
            c = self.ev(st, inst[3])
            a, b = self.ev(st, inst[4]), self.ev(st, inst[5])
            if not isinstance(c, int):
                c = z3.simplify(c)
                ty = inst[2]
                if isinstance(ty, str) and ty[0] == 'i' and all(isinstance(x, (int, z3.BitVecRef, z3.BoolRef)) for x in (a, b)):
                    w = width(ty)
                    if w == 1:
                        r = z3.If(c, tobool(a), tobool(b))
                    else:
                        r = z3.If(c, self.bv(a, w), self.bv(b, w))
                    r = z3.simplify(r)
                    regs[inst[1]] = r.as_long() if z3.is_bv_value(r) else 1 if z3.is_true(r) else 0 if z3.is_false(r) else r
                    f.ip += 1
                    return
                c = int(self.decide(st, c))
            regs[inst[1]] = a if c & 1 else b
            f.ip += 1
        elif op == 'phi':
            # all phis of the block read the old values
            blk = f.fn.blocks[f.blk]
            new = {}
            i = f.ip
            while blk[i][0] == 'phi':
                for pb, v in blk[i][2]:
                    if pb == f.prev:
                        new[blk[i][1]] = self.ev(st, v)
                        break
                else:
                    raise Unsupported('phi')
                i += 1
            regs.update(new)
            f.ip = i
        elif op == 'switch':
            v = self.ev(st, inst[2])
            if isinstance(v, z3.BoolRef):
                v = z3.If(v, BV(1, 1), BV(0, 1))
            if v is UNDEF:
                raise Unsupported('switch on undef')
            if isinstance(v, int):
                for c, b in inst[4]:
                    if int(c[2]) == v:
                        self.jump(st, b)
                        return
                self.jump(st, inst[3])
                return
            for c, b in inst[4]:
                if self.decide(st, v == int(c[2])):
                    self.jump(st, b)
                    return
            self.jump(st, inst[3])
        elif op == 'extractvalue':
            v = self.ev(st, inst[2])
            for i in inst[3]:
                v = UNDEF if v is UNDEF else v[i]
            regs[inst[1]] = v
            f.ip += 1
        elif op == 'insertvalue':
            v = self.ev(st, inst[2])
            x = self.ev(st, inst[3])

            def ins(a, ix):
                a = list(a)
                if len(ix) == 1:
                    a[ix[0]] = x
                else:
                    a[ix[0]] = ins(a[ix[0]], ix[1:])
                return a
            if v is UNDEF:
                v = self.undef_of(inst[5])
            regs[inst[1]] = ins(v, inst[4])
            f.ip += 1
        elif op == 'fcmp':
            regs[inst[1]] = self.fcmp(inst[2], inst[3], self.ev(st, inst[4]), self.ev(st, inst[5]))
            f.ip += 1
        elif op == 'un':
            v = self.ev(st, inst[4])
            if inst[2] == 'fneg':
                regs[inst[1]] = -v if isinstance(v, float) else z3.fpNeg(v)
            else:
                raise Unsupported(inst[2])
            f.ip += 1
        elif op == 'resume':
            v = self.ev(st, inst[2])
            f.ip = f.ip
            # pop this frame's instruction: continue unwinding in the caller
            self.resume(st)
        elif op == 'landingpad':
            raise Unsupported('landingpad reached directly')
        elif op == 'unreachable':
            raise PathEnd()
        elif op == 'rmw':
            self.rmw(st, f, inst)
        elif op == 'cmpxchg':
            self.cmpxchg(st, f, inst)
        elif op == 'fence':
            f.ip += 1
        elif op == 'freeze':
            v = self.ev(st, inst[2])
            regs[inst[1]] = v
            f.ip += 1
        else:
            raise Unsupported('instruction %s' % (inst[:3],))

    def resume(self, st):
        f = st.frames.pop()
        for oid in f.allocas:
            if oid in st.mem:
                st.wobj(oid).alive = False
        if not st.frames:
            self.obligation_uncaught(st)
            raise PathEnd()
        self.unwind(st)

    def rmw(self, st, f, inst):
        _, rid, op, ty, pv, vv = inst[:6]
        p = self.ev(st, pv)
        v = self.ev(st, vv)
        w = width(ty) if ty != 'p' else 64
        self.hook_state['atomic_rmw'] = True
        old = self.load(st, p, ty, True)
        if op == 'xchg':
            new = v
        elif op in ('add', 'sub', 'and', 'or', 'xor'):
            new = self.binop(st, op, w, old, v)
        elif op in ('umax', 'umin', 'max', 'min'):
            x, y = self.bv(old, w), self.bv(v, w)
            c = {'umax': z3.UGE(x, y), 'umin': z3.ULE(x, y), 'max': x >= y, 'min': x <= y}[op]
            new = self.norm(z3.If(c, x, y))
        else:
            raise Unsupported('atomicrmw ' + op)
        h = self.hook_state.get('on_rmw')
        if h:
            h(self, st, p, old, new)
        self.store(st, p, ty, new, True)
        f.regs[rid] = old
        f.ip += 1

    def cmpxchg(self, st, f, inst):
        _, rid, ty, pv, cv, nv, weak = inst[:7]
        p = self.ev(st, pv)
        old = self.load(st, p, ty, True)
        eq = self.icmp(st, 'eq', ty, old, self.ev(st, cv))
        ok = self.decide(st, tobool(eq)) if not isinstance(eq, int) else bool(eq)
        if ok:
            h = self.hook_state.get('on_rmw')
            if h:
                h(self, st, p, old, self.ev(st, nv))
            self.store(st, p, ty, self.ev(st, nv), True)
        f.regs[rid] = [old, int(ok)]
        f.ip += 1

    # ------------------------------------------------------------ loops
    def summarize(self, rec):
        """rec.snap: state at the loop header. Returns list of states after the loop (generic), having proved the invariant."""
        if rec.snapid in self.done_snaps:
            return []
        self.done_snaps.add(rec.snapid)
        import loops
        return loops.summarize(self, rec)


class BackState:
    def __init__(self, st):
        self.st = st


class TwoWay(Exception):
    def __init__(self, cond, t, f):
        self.cond, self.t, self.f = cond, t, f


class BackEdge(Exception):
    pass


class LoopCut(Exception):
    def __init__(self, rec):
        self.rec = rec


class _Pending:
    pass


PENDING = _Pending()
NOTMINE = _Pending()     # the hook does not apply: use the function's code
