#!/usr/bin/env python3
"""mkseed.py ID...|all: (re)creates and confirms /verif/seeded/<ID> from vc/seeds/<ID>.py (edits, demo sources, description).

A definition sets: prop, needs, breaks, edits = [(file, old, new)], srcs = [files of /repo], cpp = demo source (optional: flags).
Confirmation, in a scratch copy of /repo: the patch applies to HEAD, the demo (which compiles the changed sources) is 0 without and
nonzero with it. Whether the library builds and the stable test passes with the patch is left to vcheck."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = '/tmp/mkseed.%d' % os.getpid()
R = B + '/repo'
ALLSHM = ['TransportFactory', 'ProgOptions', 'Properties', 'SuboptParser', 'Channel', 'MemoryResources', 'EventManager', 'JSONParser',
          'shmem/Common', 'shmem/Monitor', 'shmem/Manager', 'tools/Unique', 'tools/Network', 'tools/Process', 'tools/Semaphore']


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def make(i):
    d = {'ALLSHM': ALLSHM, 'srcs': [], 'flags': ''}
    exec(open(V + '/vc/seeds/%s.py' % i).read(), d)
    out = V + '/seeded/' + i
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    assert sh('git -C %s status --porcelain' % R).stdout.strip() == ''
    shutil.copytree(V + '/vc/demo_support/stub', out + '/stub')
    shutil.copy(V + '/vc/demo_support/build.sh', out + '/build.sh')
    open(out + '/demo.cpp', 'w').write(d['cpp'].lstrip())
    srcs = ' '.join('fairmq/%s.cxx' % s for s in d['srcs'])
    open(out + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: behaves as documented; nonzero: broken (run with cwd = the FairMQ tree)
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/fmqd.XXXXXX)
trap 'rm -r -f "$T"' EXIT
CXXF="%s" bash "$H/build.sh" "$T/demo" "$H/demo.cpp" %s || { echo "demo does not build"; exit 2; }
cd "$T" && timeout 120 ./demo
''' % (d['flags'], srcs))
    json.dump({'property': d['prop'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    try:
        for f, old, new in d['edits']:
            s = open(R + '/' + f).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(R + '/' + f, 'w').write(s.replace(old, new))
        open(out + '/patch.diff', 'w').write(sh('git -C %s diff' % R).stdout)
        r = sh('bash %s/demo.sh' % out, cwd=R)
        print(i, 'with patch: rc', r.returncode, r.stdout[-400:].strip())
        assert r.returncode not in (0, 2), r.stdout
    finally:
        sh('git -C %s checkout -- .' % R)
    for k in range(3):
        r = sh('bash %s/demo.sh' % out, cwd=R)
        assert r.returncode == 0, ('unchanged', r.returncode, r.stdout)
    print(i, 'confirmed')


ids = sys.argv[1:]
if ids == ['all']:
    ids = sorted(f[:-3] for f in os.listdir(V + '/vc/seeds') if f.endswith('.py'))
shutil.rmtree(B, ignore_errors=True)
os.makedirs(B)
sh('git clone -q /repo ' + R)
for i in ids:
    try:
        make(i)
    except AssertionError as e:
        print(i, 'NOT CONFIRMED', e)
shutil.rmtree(B, ignore_errors=True)
