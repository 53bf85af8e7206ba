"""Loop rule: cut a loop at its header with an inductive invariant.

The invariant is the conjunction of (a) the frame: every memory cell the body does not modify keeps its value
(found by executing the body), (b) those candidate facts that hold on entry and are preserved by the body
(Houdini): bounds against the entry value, bounds against loop-guard terms, lock-step relations between modified
cells, and the contract's own candidate predicates (vc_inv).  Nothing is assumed that was not proved inductive.
"""
import os
import z3
from engine import *


def cell_value(E, st, key):
    oid, off, n = key
    o = st.obj(oid)
    if o is None:
        return None
    if o.layers[-1].kind == 'cells':
        c = o.layers[-1].d.get(off)
        if c is not None and c[0] == n:
            return c[1]
    try:
        return E.read(st, o, off, n)
    except (Fork, Unsupported):
        return None


def sym(x):
    return isinstance(x, z3.ExprRef)


def diff(E, a, b, M, H):
    """cells of objects existing in a that differ in b; adds to M / H. returns True if something new"""
    new = False
    for oid, oa in a.mem.items():
        ob = b.mem.get(oid)
        if ob is None or ob is oa:
            continue
        if oa.alive != ob.alive:
            if oa.kind == 'stack':
                continue
            raise Unsupported('loop frees/creates pre-existing object %s' % oa.name)
        if oid in H:
            continue
        if len(oa.layers) != len(ob.layers) or any(x is not y for x, y in zip(oa.layers[:-1], ob.layers[:-1])):
            H.add(oid)
            new = True
            continue
        da, db = oa.layers[-1].d, ob.layers[-1].d
        if da is db:
            continue
        for off, c in db.items():
            ca = da.get(off)
            if ca is not None and ca[0] == c[0] and same(ca[1], c[1]):
                continue
            k = (oid, off, c[0])
            if k not in M:
                # ghost cells that read back the same underlying value
                for k2 in [k2 for k2 in M if k2[0] == oid and k2[1] < off + c[0] and off < k2[1] + k2[2]]:
                    del M[k2]
                M[k] = None
                new = True
        for off, c in da.items():
            if off not in db:
                k = (oid, off, c[0])
                if k not in M and not any(k2[0] == oid and k2[1] < off + c[0] and off < k2[1] + k2[2] for k2 in M):
                    M[k] = None
                    new = True
    for k in set(a.ghost) | set(b.ghost):
        if k in ('generic', 'pending_back', 'lastwait') or (isinstance(k, tuple) and k and k[0] in ('scratch', 'len', 'sbuf')):
            continue
        if k == 'locks' and not a.ghost.get(k) and not b.ghost.get(k):
            continue
        if not same(a.ghost.get(k), b.ghost.get(k)) and (sym(a.ghost.get(k)) or sym(b.ghost.get(k)) or a.ghost.get(k) != b.ghost.get(k)):
            if k in ('waits', 'clock') or (isinstance(k, tuple) and k[0] == 'notify'):   # ghost counters
                if ('counter', k) not in H:
                    H.add(('counter', k))
                    new = True
                continue
            raise Unsupported('loop changes ghost state %r' % (k,))
    return new


def cell_bytes_hint(c):
    return c


def str_template(vals):
    """('str', common prefix, width of the number that follows or 0 for any text)"""
    import hooks
    parts = [list(v.parts) for v in vals]
    pre = []
    while all(parts):
        h = [p[0] for p in parts]
        if all(isinstance(x, str) for x in h):
            n = min(len(x) for x in h)
            k = 0
            while k < n and all(x[k] == h[0][k] for x in h):
                k += 1
            if k == 0:
                break
            pre.append(h[0][:k])
            for p in parts:
                p[0] = p[0][k:]
                if not p[0]:
                    p.pop(0)
            if any(p and isinstance(p[0], str) for p in parts) and k < max(len(x) for x in h):
                break
        elif not any(isinstance(x, str) for x in h) and all(x.eq(h[0]) for x in h):
            pre.append(h[0])
            for p in parts:
                p.pop(0)
        else:
            break
    w = 0
    for p in parts:
        if len(p) == 1 and isinstance(p[0], str) and p[0].isdigit() and str(int(p[0])) == p[0] and int(p[0]) < 1 << 31:
            w = w or 32
        elif len(p) == 1 and not isinstance(p[0], str) and hooks.num_of(p[0]) is not None:
            w = w if w < 0 else max(w, hooks.num_of(p[0]).size())
        elif len(p) == 1 and not isinstance(p[0], str) and hooks.is_num(p[0]):
            w = -64
        else:
            w = 0
            break
    return ('str', hooks.Str(pre).parts, w)


def template_instance(kd):
    import hooks
    return hooks.Str(kd[1]) + (hooks.num_str(None, None, z3.BitVec('tmpl', abs(kd[2])), abs(kd[2]), kd[2] < 0) if kd[2] else hooks.Str([z3.String('tmpl')]))


def make_generic(E, snap, M, H, kinds):
    g = snap.clone()
    g.ghost['generic'] = True
    hv = {}
    for k in M:
        oid, off, n = k
        kind = kinds.get(k)
        if kind is not None and kind[0] == 'ptr':
            t = E.fresh('hv_off', 64)
            E.write(g, oid, off, n, Ptr(kind[1], t))
            hv[k] = t
        elif kind is not None and kind[0] == 'str':
            import hooks
            tail = hooks.num_str(E, g, E.fresh('hv_num', abs(kind[2])), abs(kind[2]), kind[2] < 0) if kind[2] else hooks.Str([]).vc_havoc(E)
            E.write(g, oid, off, n, hooks.Str(kind[1]) + tail)
        elif kind is not None and kind[0] == 'ghost':
            v = kind[1].vc_havoc(E)
            E.write(g, oid, off, n, v)
        elif kind is not None and kind[0] == 'fp':
            E.fresh_n += 1
            E.write(g, oid, off, n, z3.FP('hv!%d' % E.fresh_n, kind[1]))
        elif n in (1, 2, 4, 8):
            t = E.fresh('hv', 8 * n)
            E.write(g, oid, off, n, t)
            hv[k] = t
        else:
            # opaque blob
            for i in range(n):
                E.write(g, oid, off + i, 1, E.fresh('hvb', 8))
    for oid in H:
        if isinstance(oid, tuple):
            t = E.fresh('counter', 64)
            g.ghost[oid[1]] = t
            E.assume(g, z3.UGE(t, E.bv(snap.ghost.get(oid[1], 0), 64)))
            E.assume(g, z3.ULE(t, BV((1 << 61) - 1 if oid[1] == 'clock' else 1 << 40, 64)))
            continue
        o = g.wobj(oid)
        E.fresh_n += 1
        o.base = ('nondet', z3.Array('hvarr!%d' % E.fresh_n, z3.BitVecSort(64), z3.BitVecSort(8)))
        o.layers = [Layer('cells', {})]
    return g, hv


def setup_ctx(g, rec):
    fr = g.frames[-1]
    r = rec.clone()
    r.count = -1
    r.snap = None
    fr.loops[rec.header] = r
    return (fr.uid, rec.header, rec.blocks, len(g.frames))


def val_for(E, st, k, kinds):
    """64/8n-bit term of the cell for candidate substitution, or None"""
    v = cell_value(E, st, k)
    kind = kinds.get(k)
    if v is None or v is UNDEF:
        return None
    if kind is not None and kind[0] == 'ptr':
        if isinstance(v, Ptr) and v.obj == kind[1]:
            return E.bv(v.off & M64 if isinstance(v.off, int) else v.off)
        return None
    if isinstance(v, (int, z3.BitVecRef)):
        t = E.bv(v, 8 * k[2])
        return t if t.size() == 8 * k[2] else None
    if isinstance(v, z3.BoolRef):
        return E.bv(v, 8 * k[2])
    return None


def atoms(t, out, seen):
    if t.get_id() in seen:
        return
    seen.add(t.get_id())
    if z3.is_app(t):
        k = t.decl().kind()
        if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT, z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT) or \
                (k == z3.Z3_OP_EQ and z3.is_bv(t.arg(0))):
            out.append((t.arg(0), t.arg(1)))
            return
        if z3.is_bool(t):
            for c in t.children():
                atoms(c, out, seen)


def eval_pred(E, st, fname):
    """z3 formula of the C++ predicate `fname()` evaluated in st (all paths)"""
    s = st.clone()
    base = s.pc
    results = []

    def done(E2, s2, v, fr):
        cs = []
        p = s2.pc
        while p is not base and p:
            cs.append(p[1])
            p = p[0]
        results.append((cs, v))
        raise PathEnd()
    fn = E.m.funcs[fname]
    # a private frame so that nothing of the current frame is touched
    E.push_call(s, fn, [], None, done)
    E.analysis += 1
    saved = E.mode
    try:
        E.mode = 'unroll'
        E.run(s, None)
    finally:
        E.mode = saved
        E.analysis -= 1
    f = []
    for cs, v in results:
        v = z3.BoolVal(bool(v & 1)) if isinstance(v, int) else v
        if isinstance(v, z3.BitVecRef):
            v = v != 0
        f.append(z3.Implies(z3.And(*cs) if cs else z3.BoolVal(True), v))
    return z3.simplify(z3.And(*f)) if f else z3.BoolVal(True)


def summarize(E, rec):
    snap = rec.snap
    M, H, kinds = {}, set(), {}
    fr = snap.frames[-1]
    if fr.fn.blocks[rec.header][0][0] == 'phi':
        raise Unsupported('phi in loop header')
    key = '%s#%d' % (fr.fn.dem, rec.header)
    # ---- phase 1: frame
    E.analysis += 1
    g = None
    try:
        for it in range(12):
            g, hv = make_generic(E, snap, M, H, kinds)
            ctx = setup_ctx(g, rec)
            ref = g.clone()
            back, _ = E.run(g, ctx)
            new = False
            for b in back:
                new |= diff(E, ref, b, M, H)
            # kinds
            for k in M:
                vals = [cell_value(E, b, k) for b in back] + [cell_value(E, snap, k)]
                vals = [v for v in vals if v is not None and v is not UNDEF]
                kd = None
                if vals and all(isinstance(v, Ptr) for v in vals) and len({v.obj for v in vals}) == 1 and vals[0].obj in snap.mem:
                    kd = ('ptr', vals[0].obj)
                elif vals and all(type(v).__name__ == 'Str' for v in vals) and type(cell_value(E, snap, k)).__name__ == 'Str':
                    kd = str_template(vals)
                elif vals and all(hasattr(v, 'vc_havoc') for v in vals):
                    kd = ('ghost', vals[0])
                elif vals and all(isinstance(v, float) or z3.is_fp(v) for v in vals):
                    kd = ('fp', z3.Float64() if k[2] == 8 else z3.Float32())
                if kinds.get(k) != kd and not (kinds.get(k) and kd and kinds[k][0] == kd[0] == 'ghost'):
                    kinds[k] = kd
                    new = True
            if os.environ.get('VC_LOOP'):
                print('LOOP', key, it, [(snap.mem[k[0]].name, k[1:], kinds.get(k) and (kinds[k][0], str(kinds[k][1:])[:200])) for k in M], H, [str(cell_value(E, b, k))[:200] for b in back for k in M])
            if not new:
                break
        else:
            raise Unsupported('loop frame does not stabilise: ' + key)
        # ---- phase 2: candidates
        cands = []
        entry = {k: val_for(E, snap, k, kinds) for k in hv}
        backv = [{k: val_for(E, b, k, kinds) for k in hv} for b in back]

        def mk(name, e):
            cands.append((name, e))
        deltas = {}
        for k, t in hv.items():
            e = entry[k]
            if e is None:
                continue
            w = 8 * k[2]
            mk('uge-entry', z3.UGE(t, e))
            mk('ule-entry', z3.ULE(t, e))
            mk('sge-entry', t >= e)
            mk('sle-entry', t <= e)
            bvs = [b[k] for b in backv]
            if bvs and all(v is not None for v in bvs):
                consts = [z3.simplify(v) for v in bvs]
                cs = [c for c in consts if z3.is_bv_value(c)]
                if all(z3.is_bv_value(c) or c.eq(t) for c in consts):
                    mk('oneof', z3.Or(t == e, *[t == c for c in cs]))
                ds = [z3.simplify(v - t) for v in bvs]
                deltas[k] = ds
                if all(z3.is_bv_value(d) for d in ds):
                    for p in (2, 3, 4, 5):
                        if all(d.as_long() % (1 << p) == 0 for d in ds) and any(d.as_long() for d in ds):
                            mk('stride', z3.Extract(p - 1, 0, t - e) == 0)
        ks = list(deltas)

        def ext(x, w):
            return x if x.size() == w else z3.SignExt(w - x.size(), x)
        for i in range(len(ks)):
            for j in range(i + 1, len(ks)):
                a, b = ks[i], ks[j]
                da, db = deltas[a], deltas[b]
                if all(z3.is_bv_value(x) for x in da + db):
                    va = [x.as_signed_long() for x in da]
                    vb = [x.as_signed_long() for x in db]
                    nz = [(x, y) for x, y in zip(va, vb) if x or y]
                    if not nz:
                        continue
                    x0, y0 = nz[0]
                    if x0 == 0 or y0 == 0 or any(x * y0 != y * x0 for x, y in nz):
                        continue
                    import math
                    gg = math.gcd(x0, y0)
                    w = max(hv[a].size(), hv[b].size())
                    mk('lockstep', ext(hv[a] - entry[a], w) * BV((y0 // gg) & ((1 << w) - 1), w) == ext(hv[b] - entry[b], w) * BV((x0 // gg) & ((1 << w) - 1), w))
                elif hv[a].size() == hv[b].size() and all(x.eq(y) for x, y in zip(da, db)):
                    mk('lockstep-sym', hv[a] - entry[a] == hv[b] - entry[b])
        # copies of the same value
        allk = [k for k in hv if entry[k] is not None and all(b[k] is not None for b in backv)]
        for i in range(len(allk)):
            for j in range(i + 1, len(allk)):
                a, b = allk[i], allk[j]
                if a[2] == b[2] and z3.simplify(entry[a]).eq(z3.simplify(entry[b])) and all(z3.simplify(v[a]).eq(z3.simplify(v[b])) for v in backv):
                    mk('equal', hv[a] == hv[b])
        # guard terms
        hvnames = {t.decl().name() for t in hv.values()}
        prenames = None
        seen, ats = set(), []
        base = ref.pc
        _, exs = [], []
        for b in back:
            p = b.pc
            while p is not base and p:
                atoms(p[1], ats, seen)
                p = p[0]
        fixed = set()
        p = snap.pc
        done = set()
        for x, y in ats:
            vs = E.vars(x) | E.vars(y)
            if not (vs & hvnames):
                continue
            # only symbols that exist before the loop
            bad = False
            for n in vs:
                if n in hvnames or n.startswith('fn:'):
                    continue
                num = n.rsplit('!', 1)
                if len(num) == 2 and num[1].isdigit() and int(num[1]) > rec_fresh(snap, E):
                    bad = True
            if bad:
                continue
            kk = (x.get_id(), y.get_id())
            if kk in done:
                continue
            done.add(kk)
            # the guard as it was before the step
            sh = [(hv[k], hv[k] - ds[0]) for k, ds in deltas.items() if all(z3.is_bv_value(d) and d.eq(ds[0]) for d in ds) and ds[0].as_long() and hv[k].decl().name() in vs]
            if sh:
                xs, ys = z3.substitute(x, *sh), z3.substitute(y, *sh)
                mk('guard-before', xs <= ys)
                mk('guard-before', xs >= ys)
            mk('guard-ule', z3.ULE(x, y))
            mk('guard-uge', z3.UGE(x, y))
            mk('guard-sle', x <= y)
            mk('guard-sge', x >= y)
        # entry filter
        def subst(e, vals):
            pairs = []
            for k, t in hv.items():
                if vals.get(k) is None:
                    if t.decl().name() in E.vars(e):
                        return None
                    continue
                pairs.append((t, vals[k]))
            return z3.simplify(z3.substitute(e, *pairs))
        keep = []
        seen2 = set()
        for n, e in cands:
            e = z3.simplify(e)
            if e.get_id() in seen2 or z3.is_true(e):
                continue
            seen2.add(e.get_id())
            x = subst(e, entry)
            if x is not None and E.must(snap, x):
                keep.append((n, e))
        user = []
        for nm, fname in E.invs:
            try:
                x = eval_pred(E, snap, fname)
                if E.must(snap, x):
                    user.append((nm, fname))
            except Fork:
                pass
        # ---- phase 3: houdini
        for rnd in range(30):
            g, hv2 = make_generic(E, snap, M, H, kinds)
            ren = [(hv[k], hv2[k]) for k in hv]
            for n, e in keep:
                E.assume(g, z3.substitute(e, *ren) if ren else e)
            for nm, fname in user:
                E.assume(g, eval_pred(E, g, fname))
            ctx = setup_ctx(g, rec)
            final = g.clone()
            back, _ = E.run(g, ctx)
            nk = list(keep)
            nu = list(user)
            for b in back:
                bvv = {k: val_for(E, b, k, kinds) for k in hv}
                nk2 = []
                for n, e in nk:
                    x = subst(e, bvv)
                    if x is not None and E.must(b, x):
                        nk2.append((n, e))
                nk = nk2
                nu2 = []
                for nm, fname in nu:
                    x = eval_pred(E, b, fname)
                    if E.must(b, x):
                        nu2.append((nm, fname))
                nu = nu2
            if len(nk) == len(keep) and len(nu) == len(user):
                break
            keep, user = nk, nu
        else:
            raise Unsupported('houdini')
        for k, kd in kinds.items():
            if kd is not None and kd[0] == 'str':
                for b in back + [snap]:
                    t = str_template([cell_value(E, b, k), template_instance(kd)])
                    if t[1:] != kd[1:]:
                        raise Unsupported('string pattern unstable: ' + key)
        # the frame must be stable for the final generic state as well
        for b in back:
            if diff(E, final, b, dict(M), set(H)):
                raise Unsupported('loop frame unstable: ' + key)
    finally:
        E.analysis -= 1
    info = {'modified_cells': len(M), 'havocked_objects': len(H), 'invariants': sorted({n for n, _ in keep}), 'n_invariants': len(keep),
            'contract_invariants': [n for n, _ in user]}
    E.loops_summarized[key] = info
    E.dropped_user = [n for n, f in E.invs if n not in [x for x, _ in user]]
    # ---- final: continue from the generic state, obligations recorded
    ctx = setup_ctx(final, rec)
    back, exits = E.run(final, ctx)
    return exits


def rec_fresh(snap, E):
    return snap.ghost.get('fresh_at', {}).get('x', 1 << 60) if False else getattr(snap, 'fresh_mark', 1 << 60)
