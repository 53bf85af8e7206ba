#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough : prove every contract of PROPERTY on /repo's current source.

exit 0: every obligation discharged (or: outside the verifier's reach and the bounded stand-in found nothing)
exit 1: a contract obligation fails (VIOLATION line)
exit 2: no answer (solver unknown / timeout / build problem)
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VC = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(VC)
REPO = os.environ.get('VC_REPO', '/repo')
CLANG = '/usr/bin/clang++-18'
PY = 'python3-vt'
CACHE = os.path.join(VERIF, '.cache')
FLAGS = ['-std=c++17', '-O0', '-gline-tables-only', '-fno-discard-value-names', '-fno-access-control', '-w',
         '-DBOOST_ERROR_CODE_HEADER_ONLY', '-DBOOST_ASIO_HAS_HAS_STD_CHRONO', '-DFAIRMQ_HAS_STD_FILESYSTEM=1', '-DFAIRMQ_HAS_STD_PMR=1',
         '-DVC_SPEC', '-I', VC, '-I', os.path.join(VC, 'stubs'), '-I', REPO, '-I', os.path.join(REPO, 'fairmq')]


def sh(cmd, timeout=600, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode('utf8', 'replace') + '\n[timeout]'


class Spec:
    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)[:-4]
        src = open(path).read()
        self.src = src
        self.cxx, self.ld, self.opts, self.assume, self.replace, self.bounds = [], [], {}, [], [], {}
        self.trusted = []
        for line in src.split('\n'):
            if not line.startswith('//@ '):
                continue
            w = line[4:].split()
            if w[0] == 'cxxflags':
                self.cxx += w[1:]
            elif w[0] == 'ldflags':
                self.ld += w[1:]
            elif w[0] == 'opt':
                d = self.opts.setdefault(w[1], {})
                for kv in w[2:]:
                    k, _, v = kv.partition('=')
                    d[k] = json.loads(v) if re.match(r'^[\d\[{"tf-]', v) and v not in ('thorough',) and _ok(v) else v
            elif w[0] == 'assume':
                self.assume.append((w[1], line[4:].split(None, 2)[2]))
            elif w[0] == 'bound':
                self.bounds[w[1]] = line[4:].split(None, 2)[2]
            elif w[0] == 'replace':
                self.replace.append((w[1], line[4:].split(None, 2)[2]))
        self.harnesses = re.findall(r'^VC_PROOF\((\w+),\s*(\w+)\)', src, re.M)
        self.covers = re.findall(r'vc_cover\("([^"]+)"\)', src)

    def opt(self, prop, name):
        o = {}
        for k in ('*', prop, name):
            o.update(self.opts.get(k, {}))
        return o


def _ok(v):
    try:
        json.loads(v)
        return True
    except ValueError:
        return False


def tools():
    """build irdump once per source version"""
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, 'irdump')
    h = hashlib.sha1(open(os.path.join(VC, 'irdump.cpp'), 'rb').read()).hexdigest()
    st = os.path.join(CACHE, 'irdump.sha')
    if os.path.exists(out) and os.path.exists(st) and open(st).read() == h:
        return out
    cfg = lambda a: subprocess.check_output(['llvm-config-18', a]).decode().split()
    tmp = out + '.%d' % os.getpid()
    rc, o = sh(['g++', '-O1', '-w', '-std=c++17'] + cfg('--cppflags') + [os.path.join(VC, 'irdump.cpp'), '-o', tmp] + cfg('--ldflags') + ['-lLLVM-18'])
    if rc:
        raise SystemExit('cannot build irdump:\n' + o)
    os.rename(tmp, out)
    open(st, 'w').write(h)
    return out


def build(spec, prop, work):
    bc = os.path.join(work, spec.name + '.bc')
    js = os.path.join(work, spec.name + '.json')
    rc, o = sh([CLANG] + spec.cxx + FLAGS + ['-emit-llvm', '-c', spec.path, '-o', bc])
    if rc:
        return None, 'compile of %s failed:\n%s' % (spec.name, o[-6000:])
    roots = ['vcp_%s_' % prop, 'vcc_']
    rc, o = sh([tools(), bc, js] + roots)
    if rc:
        return None, 'irdump failed: ' + o[-2000:]
    return js, None


def mangled_replace(spec, js, harness):
    """replace directives -> {mangled: contract}"""
    r = {}
    pats = [(h, t) for h, t in spec.replace if h in ('*', harness)]
    if not pats:
        return r
    d = json.load(open(js))['funcs']
    for h, t in pats:
        real, _, con = t.partition(' => ')
        hits = [n for n, f in d.items() if f['dem'] == real.strip() or n == real.strip()]
        for n in hits:
            r[n] = con.strip()
    return r


def run_proof(js, harness, opts, work, tag=''):
    of = os.path.join(work, harness + tag + '.opts')
    out = os.path.join(work, harness + tag + '.res')
    opts = dict(opts)
    if opts.get('until') and opts['mode'] == 'proof':
        opts['timeout'] = max(15, min(opts['timeout'], opts['until'] - time.time()))
    json.dump(opts, open(of, 'w'))
    rc, o = sh([PY, os.path.join(VC, 'prove.py'), js, harness, of, out], timeout=opts.get('timeout', 240) + 60)
    if not os.path.exists(out):
        return {'harness': harness, 'error': ['crash' if rc != 124 else 'timeout', o[-3000:], []], 'oblig': {}, 'violations': [], 'covers': {}, 'entered': {},
                'unknowns': [], 'contract_used': [], 'assumed': {}, 'incomplete': [], 'loops': {}, 'paths': 0, 'queries': 0, 'solver_s': 0, 'wall_s': 0, 'mode': opts.get('mode')}
    return json.load(open(out))


def native(spec, work):
    exe = os.path.join(work, spec.name + '.exe')
    if os.path.exists(exe):
        return exe, None
    san = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr,function']
    fl = [f for f in FLAGS if f != '-gline-tables-only'] + ['-g1']
    rc, o = sh([CLANG] + spec.cxx + fl + san + [spec.path, os.path.join(VC, 'vc_rt.cpp'), '-rdynamic', '-o', exe, '-pthread', '-ldl', '-lrt'] + spec.ld)
    if rc:
        return None, o[-3000:]
    return exe, None


def write_trace(path, harness, spec, v, extra=''):
    with open(path, 'w') as f:
        f.write('# property harness %s of %s\n# failed obligation: %s\n' % (harness, spec.name, v['label']))
        if v.get('note'):
            f.write('# note: %s\n' % v['note'])
        for w in v.get('where', []):
            f.write('#   at %s\n' % w)
        for l in extra.split('\n'):
            if l:
                f.write('# %s\n' % l)
        for n, val, wd in v.get('trace', []):
            if wd == 'str':
                b = zstr_bytes(val)
                f.write('%s s%s\n' % (n, b.hex()))
            elif n in ('env',):
                f.write('# env %s\n' % val)
            else:
                f.write('%s %s\n' % (n, val))


def zstr_bytes(s):
    s = re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), str(s))
    return s.encode('latin1', 'replace')


def replay(exe, harness, path):
    env = dict(os.environ)
    env.pop('VC_TRACE_OUT', None)
    rc, o = sh([exe, harness, 'replay', path], timeout=70, env=env)
    return (rc not in (0, 77, 2, 124)), rc, o[-3000:]


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    t0 = time.time()
    only = os.environ.get('VC_ONLY')
    budget = float(os.environ.get('VC_BUDGET', '840' if tier == 'quick' else '7200'))
    tools()
    work = tempfile.mkdtemp(prefix='vc_%s_' % prop)
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, prop + '_*')):
        os.unlink(f)
    try:
        return check(prop, tier, only, budget, work, rdir, t0)
    finally:
        if os.environ.get('VC_KEEP'):
            print('kept', work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def known_findings(prop):
    r = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'finding: property=(\S+) harness=(\S+) label=(\S+) (.*)$', l)
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3), m.group(4)))
    return r


def check(prop, tier, only, budget, work, rdir, t0):
    specs = [Spec(p) for p in sorted(glob.glob(os.path.join(VC, 'specs', '*.cpp')))]
    specs = [s for s in specs if any(p == prop for p, _ in s.harnesses)]
    if not specs:
        print('no contracts for', prop)
        return 2
    ex = ThreadPoolExecutor(8)
    builds = {s.name: ex.submit(build, s, prop, work) for s in specs}
    jobs = []
    noanswer = []
    for s in specs:
        js, err = builds[s.name].result()
        if err:
            print('NO-ANSWER', err)
            noanswer.append('build %s' % s.name)
            continue
        for p, n in s.harnesses:
            if p != prop or (only and only not in n):
                continue
            o = s.opt(prop, n)
            if o.get('tier') == 'thorough' and tier != 'thorough':
                continue
            opts = {'mode': 'proof', 'timeout': 300 if tier == 'quick' else 1500, 'solver_timeout': 20000 if tier == 'quick' else 120000, 'unroll': 4}
            opts.update(o)
            if tier == 'thorough':
                opts['smt'] = os.path.join(work, 'smt')
                opts['timeout'] = max(1500, opts['timeout'])
            h = 'vcp_%s_%s' % (p, n)
            opts['replace'] = mangled_replace(s, js, n)
            opts['until'] = t0 + budget * 0.62
            jobs.append((s, n, h, js, opts, ex.submit(run_proof, js, h, opts, work)))
    results = []
    violations = []
    standins = []
    known = known_findings(prop)
    knownhit = []
    for s, n, h, js, opts, fut in jobs:
        r = fut.result()
        r['spec'] = s.name
        results.append(r)
        if os.environ.get('VC_VERBOSE'):
            print('   ', h, 'viol=%d' % len(r['violations']), 'err=%s' % (r.get('error'),), 'paths=%s' % r['paths'], 'obl=%d' % sum(o['checked'] for o in r['oblig'].values()), 'wall=%s' % r['wall_s'], 'solver=%s' % r['solver_s'], flush=True)
    # ---- decide
    left = lambda: budget - (time.time() - t0)
    bad = []
    for job, r in zip(jobs, results):
        s, n, h, js, opts, fut = job
        if r['violations']:
            bad.append((job, r, 'violation'))
        elif r.get('error') or r['unknowns'] or any(o['unknown'] for o in r['oblig'].values()):
            bad.append((job, r, 'unreached'))
        else:
            # vacuity guards
            miss = [c for c in s.covers if c.split(':')[0] == n and not r['covers'].get(c)]
            if miss or (sum(o['checked'] for o in r['oblig'].values()) == 0 and not any(c.split(':')[0] == n for c in s.covers)):
                path = os.path.join(rdir, '%s_%s_cover.replay' % (prop, n))
                v = {'label': 'reachable: %s' % (', '.join(miss) or 'any obligation'), 'where': [], 'trace': []}
                write_trace(path, h, s, v, extra='every path of the contract was explored and none reaches the listed outcomes, which are possible on the unchanged code')
                violations.append((h, v['label'], path, False, v))
    for name in sorted({j[0].name for j, r, k in bad}):
        native([j[0] for j, r, k in bad if j[0].name == name][0], work)

    def settle(job, r, kind):
        """a failed obligation: look for an input that fails on the real code. Outside the verifier's reach: bounded stand-in."""
        s, n, h, js, opts, fut = job
        exe, err = native(s, work)

        def search():
            """concrete counterexample: re-run without contracts, bounded loops"""
            o2 = dict(opts)
            o2.update({'mode': 'unroll', 'replace': {}, 'timeout': max(20, min(150, left() / 3)), 'max_viol': 4})
            o2.pop('smt', None)
            return run_proof(js, h, o2, work, '_search')

        def try_(cands, tag):
            for k, v in enumerate(cands):
                path = os.path.join(rdir, '%s_%s_%s%d.replay' % (prop, n, tag, k))
                write_trace(path, h, s, v)
                hit, rc, out = replay(exe, h, path)
                if hit:
                    with open(path, 'a') as f:
                        f.write('# replayed against the real code: exit %s\n' % rc + ''.join('# | %s\n' % l for l in out.split('\n')[:40]))
                    return (h, v['label'], path, True, v)
                os.unlink(path)

        def randomly(runs, secs):
            out = os.path.join(work, 'rnd_' + n)
            rc, o = sh([exe, h, 'random', seed, str(runs), str(secs), out], timeout=secs + 60)
            m = re.search(r'VC-RANDOM-FAIL run=(\d+)', o)
            if rc == 42 and m:
                path = os.path.join(rdir, '%s_%s_r.replay' % (prop, n))
                lab = re.findall(r'VC-FAIL (.*)', o)
                lab = lab[-1] if lab else r['violations'][0]['label'] if r['violations'] else 'native failure'
                with open(path, 'w') as f:
                    f.write('# failed obligation: %s\n# random run of %s (%s): rerun %s %s\n' % (lab, h, s.name, seed, m.group(1)))
                    f.write(''.join('# | %s\n' % l for l in o.split('\n')[-30:]))
                    if os.path.exists(out):
                        f.write(open(out).read())
                return (h, lab, path, True, r['violations'][0] if r['violations'] else {}), rc, o
            return None, rc, o
        seed = os.environ.get('VERIF_SEED', '1')
        if kind == 'violation':
            if exe:
                cand = [v for v in r['violations'] if 'generic loop state' not in v.get('note', '') and not opts['replace']]
                x = try_(cand, '')
                if not x:
                    x = try_(search()['violations'], 's')
                if not x:
                    x = randomly(20000, 20)[0]
                if x:
                    return 'viol', x
            v = r['violations'][0]
            path = os.path.join(rdir, '%s_%s_obligation.replay' % (prop, n))
            write_trace(path, h, s, v, extra='no failing input reproduced natively; verifier output above and model below' + ('\nnative build failed: ' + err if err else ''))
            return 'viol', (h, v['label'], path, False, v)
        why = str(r.get('error') or ('solver gave no answer', r['unknowns'][:3]))
        if not exe:
            return 'none', '%s: %s; native build: %s' % (h, why, err)
        st = {'harness': h, 'reason': why[:1500], 'kind': 'bounded'}
        r2 = search() if not r.get('error') or r['error'][0] != 'crash' else {'violations': []}
        x = try_(r2['violations'], 's')
        if not x:
            st['bounded_search'] = {'unroll': opts.get('unroll', 4), 'paths': r2.get('paths'), 'error': str(r2.get('error'))[:300]}
            x, rc, o = randomly(100000, 40)
            st['bound'] = o.strip().split('\n')[-1][:200]
            if not x and rc != 0:
                return 'none', '%s: %s; stand-in rc=%s %s' % (h, why, rc, o[-300:])
        return ('viol', x) if x else ('standin', st)
    ex2 = ThreadPoolExecutor(4)
    for f in [ex2.submit(settle, *b) for b in bad]:
        kind, x = f.result()
        if kind == 'viol':
            violations.append(x)
        elif kind == 'standin':
            standins.append(x)
        else:
            noanswer.append(x)
    # ---- second back end
    second = None
    if tier == 'thorough':
        second = cvc5_pass(work, max(60, budget - (time.time() - t0) - 120))
    # ---- known findings
    real = []
    for v in violations:
        k = [x for x in known if x[0] == v[0] and x[1] == v[1].replace(' ', '_')]
        if k:
            knownhit.append((v, k[0][2]))
        else:
            real.append(v)
    evidence(prop, tier, specs, jobs, results, standins, real, knownhit, second, t0, noanswer)
    for v, text in knownhit:
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    for h, label, path, rep, v in real:
        print('failed obligation "%s" in %s%s' % (label, h, (' at ' + v['where'][0]) if v.get('where') else ''))
    if real:
        real.sort(key=lambda x: not x[3])
        h, label, path, rep, v = real[0]
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if rep else ' no-failing-input-found'))
        return 1
    if noanswer:
        for x in noanswer:
            print('NO-ANSWER', x)
        return 2
    for x in standins:
        print('BOUNDED stand-in for %s: %s (%s)' % (x['harness'], x.get('bound'), x['reason'][:300]))
    bh = {'vcp_%s_%s' % (prop, n) for s in specs for n in s.bounds}
    for word, sel in (('PROVED', lambda h: h not in bh), ('HELD-WITHIN-BOUND', lambda h: h in bh)):
        rs = [r for r in results if sel(r['harness']) and not r.get('error')]
        if rs:
            print('%s property=%s harnesses=%d obligations=%d wall=%.1fs' % (word, prop, len(rs), sum(o['discharged'] for r in rs for o in r['oblig'].values()), time.time() - t0))
    return 0


def cvc5_pass(work, secs):
    d = os.path.join(work, 'smt')
    files = sorted(glob.glob(d + '/*.smt2'))
    t0 = time.time()
    res = {'files': len(files), 'unsat': 0, 'unknown': 0, 'sat': 0, 'not_run': 0}

    def one(f):
        if time.time() - t0 > secs:
            return 'not_run'
        rc, o = sh(['cvc5', '--strings-exp', '--tlimit=60000', f], timeout=90)
        l = [x for x in o.split('\n') if x in ('sat', 'unsat', 'unknown')]
        return l[0] if l else 'unknown'
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, files):
            res[r] += 1
    res['wall_s'] = round(time.time() - t0, 1)
    return res


def evidence(prop, tier, specs, jobs, results, standins, real, knownhit, second, t0, noanswer):
    proved = [r for r in results if not r.get('error')]
    bmode = {h: s.bounds.get(n, 'loops unrolled') for s, n, h, js, o, f in jobs if o['mode'] == 'unroll' or n in s.bounds}
    full = [r for r in proved if r['harness'] not in bmode]
    ob = sum(o['checked'] for r in full for o in r['oblig'].values())
    dis = sum(o['discharged'] for r in full for o in r['oblig'].values())
    triv = sum(o['trivial'] for r in full for o in r['oblig'].values())
    ent = {}
    for r in proved:
        ent.update(r['entered'])
    loops = {}
    for r in proved:
        loops.update(r['loops'])
    trusted = {}
    for r in results:
        for k in r.get('assumed', {}):
            trusted[k] = 1
    labels = {}
    for r in proved:
        for k, o in r['oblig'].items():
            labels[k] = labels.get(k, 0) + o['discharged']
    bounded = sorted({x for r in results for x in r['incomplete']})
    tb = ['clang 18 front end (-O0 LLVM IR of the sources in /repo)', 'vc engine (symbolic semantics of LLVM IR; /verif/vc/engine.py, loops.py)', 'z3 ' + 'QF_AUFBV/Seq decision procedures']
    tb += ['model of: ' + k for k in sorted(trusted)][:400]
    level = 'proof' if not standins and not bmode else 'other'
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': level,
        'coverage': {
            'obligations': ob, 'discharged': dis,
            'explanation': 'deductive verification of contracts against the LLVM IR of the sources in /repo' + ('' if level == 'proof' else '; the harnesses in bounded_harnesses / bounded_standins are bounded and not counted as proved'),
            'obligations_in_bounded_harnesses': sum(o['checked'] for r in proved if r['harness'] in bmode for o in r['oblig'].values()),
            'checker_cmd': 'python3 %s/check.py %s %s' % (VC, prop, tier),
            'trusted_base': tb,
            'discharged_by': {'z3': dis - triv, 'simplifier': triv},
            'second_back_end_cvc5': second,
            'harnesses': [{'name': r['harness'], 'spec': r['spec'], 'mode': r.get('mode'), 'paths': r['paths'], 'solver_queries': r['queries'], 'solver_s': r['solver_s'], 'wall_s': r['wall_s'],
                           'obligations': {k: o['discharged'] for k, o in r['oblig'].items()}, 'error': r.get('error'), 'contracts_used': r['contract_used']} for r in results],
            'functions_under_contract': ent,
            'obligation_labels': labels,
            'loops_proved_inductively': loops,
            'bounded_harnesses': bmode, 'bounded_cutoffs': bounded, 'bounded_standins': standins,
            'solver_s': round(sum(r['solver_s'] for r in results), 2),
            'no_answer': noanswer,
            'violations': [{'harness': h, 'label': l, 'replay': p, 'reproduced': x} for h, l, p, x, v in real],
            'known_findings': [t for v, t in knownhit],
        },
        'assumptions': sorted({t for s in specs for p, t in s.assume if p in ('*', prop)}) + GENERAL,
        'wall_s': round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.rename(p + '.tmp', p)


GENERAL = [
    'log statements are compiled against a logger stand-in that drops its arguments (FairLogger is not installed)',
    'operator new never fails; std::mutex, exceptions runtime, libc and std::string follow the models listed in trusted_base',
    'sequentially consistent atomics',
    'the contract is proved for the clang -O0 LLVM IR of the sources; the compiler back end is trusted',
]

if __name__ == '__main__':
    sys.exit(main())
