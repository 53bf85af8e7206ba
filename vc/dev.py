#!/usr/bin/env python3
"""developer helper: prove harnesses of one spec without stand-ins. dev.py SPEC [substr] [key=val...]"""
import sys, os, json, tempfile, time
import check
from concurrent.futures import ThreadPoolExecutor
spec = check.Spec(os.path.join(check.VC, 'specs', sys.argv[1] + '.cpp'))
sub = sys.argv[2] if len(sys.argv) > 2 and '=' not in sys.argv[2] else ''
extra = dict(a.split('=') for a in sys.argv[2:] if '=' in a)
work = tempfile.mkdtemp(prefix='vcdev_')
check.tools()
props = sorted({p for p, n in spec.harnesses if sub in p + '_' + n})
ex = ThreadPoolExecutor(8)
jobs = []
for p in props:
    t = time.time()
    js, err = check.build(spec, p, work)
    if err:
        print(err); sys.exit(1)
    j2 = js + '.' + p
    os.rename(js, j2)
    for q, n in spec.harnesses:
        if q != p or sub not in p + '_' + n:
            continue
        o = {'mode': 'proof', 'timeout': 300, 'solver_timeout': 20000, 'unroll': 4}
        o.update(spec.opt(p, n))
        for k, v in extra.items():
            o[k] = int(v) if v.isdigit() else v
        o['replace'] = check.mangled_replace(spec, j2, n)
        jobs.append((p, n, o, ex.submit(check.run_proof, j2, 'vcp_%s_%s' % (p, n), o, work)))
exe = None
if os.environ.get('N'):
    exe, err = check.native(spec, work)
    if not exe:
        print(err)
for p, n, o, f in jobs:
    r = f.result()
    if exe:
        print('   NATIVE', check.sh([exe, 'vcp_%s_%s' % (p, n), 'random', '1', '100000', os.environ['N'], work + '/rnd'], timeout=100)[1][-600:].strip())
    print('%s_%s' % (p, n), 'viol=%d' % len(r['violations']), 'paths=%s' % r['paths'], 'obl=%d' % sum(x['checked'] for x in r['oblig'].values()), 'wall=%s solver=%s' % (r['wall_s'], r['solver_s']), 'inc=%s' % r['incomplete'] if r['incomplete'] else '')
    if r.get('error'):
        print('   ERROR', r['error'][0], r['error'][1][:600])
        for w in r['error'][2]:
            print('       ', w[:200])
    for u in r['unknowns'][:3]:
        print('   UNKNOWN', u)
    miss = [c for c in spec.covers if c.split(':')[0] == n and not r['covers'].get(c)]
    if miss:
        print('   NOT COVERED', miss)
    for v in r['violations'][:4]:
        print('   VIOL', v['label'], '|', v.get('note', '')[:200])
        for w in v['where'][:8]:
            print('       ', w[:160])
        if os.environ.get('T'):
            print('      ', v['trace'])
if os.environ.get('K'):
    print(work)
else:
    import shutil; shutil.rmtree(work)
