#!/usr/bin/env python3
"""tryseed.py ID...|all: run the check of each planted bug's property against a scratch copy of /repo with the bug; results in vc/caught.json"""
import json, os, re, subprocess, sys, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:]
if ids == ['all']:
    ids = sorted(os.listdir(V + '/seeded'))
for i in ids:
    t = '/tmp/tryseed_' + i
    subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(t)
    t0d, t = t, t + '/repo'
    subprocess.run('cp -a /repo %s && git -C %s apply %s/seeded/%s/patch.diff' % (t, t, V, i), shell=True, check=True)
    p = json.load(open(V + '/seeded/%s/meta.json' % i))['property']
    t0 = time.time()
    r = subprocess.run(['python3', V + '/vc/check.py', p, 'quick'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VC_REPO=t))
    vs = re.findall(r'^VIOLATION property=(\S+) replay=(\S+)(.*)$', r.stdout, re.M)
    res = 'missed (exit %d)' % r.returncode
    if r.returncode == 1 and any(v[0] == p for v in vs):
        lab = ''
        try:
            lab = [l for l in open(vs[0][1]).read().split('\n') if 'failed obligation' in l][0].split(':', 1)[1].strip()
        except (OSError, IndexError):
            pass
        res = '%s: %s%s' % (re.sub(r'.*/|\.replay', '', vs[0][1]).split('_', 1)[1].rsplit('_', 1)[0], lab[:110], ' (no failing input)' if all(v[2].strip() for v in vs) else '')
    print(i, '%.0fs' % (time.time() - t0), res, flush=True)
    c = V + '/vc/caught.json'
    d = json.load(open(c)) if os.path.exists(c) else {}
    d[i] = p + ' ' + res
    json.dump(d, open(c, 'w'), indent=1, sort_keys=True)
    shutil.rmtree(t0d, ignore_errors=True)
