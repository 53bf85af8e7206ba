"""Worker: verify one harness. usage: prove.py module.json harness opts.json out.json"""
import json, sys, time, os, resource, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import z3
import engine
from engine import *
import hooks
import models


def run(modpath, harness, opts):
    t0 = time.time()
    m = Module(modpath)
    E = Engine(m, models.H + hooks.H, opts)
    res = {'harness': harness, 'mode': E.mode}
    if opts.get('smt'):
        E.smt_log = []
    st = State()
    fn = m.funcs.get(harness)
    if fn is None:
        res['error'] = 'no such harness'
        return res
    err = None
    try:
        E.push_call(st, fn, [], None)
        for c in reversed(m.ctors):
            E.push_call(st, m.funcs[c], [], None)
        E.run(st)
    except Unsupported as e:
        err = ('unsupported', str(e), E.last_where())
    except Timeout:
        if len(E.violations) < E.max_viol:
            err = ('timeout', '', E.last_where())
    except RecursionError:
        err = ('unsupported', 'recursion', [])
    except (z3.Z3Exception, MemoryError, AssertionError, KeyError, TypeError, IndexError, AttributeError, ValueError) as e:
        err = ('internal', '%s: %s' % (type(e).__name__, e), E.last_where() + traceback.format_exc().strip().split('\n')[-(40 if os.environ.get('VC_TB') else 6):])
    res['error'] = err
    res['oblig'] = E.oblig
    res['violations'] = [{'label': v.label, 'where': v.where, 'trace': v.trace, 'note': v.note} for v in E.violations]
    res['unknowns'] = E.unknowns[:20]
    res['covers'] = E.covers
    ent = {}
    for n, c in E.entered.items():
        f = m.funcs[n]
        if '/repo/' in (f.file or '') or opts.get('all_entered'):
            ent[f.dem] = '%s:%s' % (f.file.split('/repo/')[-1], f.line)
    res['entered'] = ent
    res['contract_used'] = sorted(m.funcs[n].dem for n in E.contract_used if n in m.funcs)
    res['assumed'] = E.assumed
    res['incomplete'] = sorted(set(E.incomplete))
    res['loops'] = E.loops_summarized
    res['paths'] = E.paths
    res['queries'] = E.queries
    res['solver_s'] = round(E.solver_time, 3)
    res['wall_s'] = round(time.time() - t0, 3)
    res['steps'] = E.total_steps
    if opts.get('smt') and E.smt_log is not None:
        d = opts['smt']
        os.makedirs(d, exist_ok=True)
        n = 0
        for label, cs in E.smt_log:
            s = z3.Solver()
            s.add(*cs)
            with open(os.path.join(d, '%s_%d.smt2' % (harness, n)), 'w') as f:
                f.write('; %s\n' % label + s.to_smt2())
            n += 1
        res['smt_files'] = n
    return res


def main():
    modpath, harness, optf, out = sys.argv[1:5]
    opts = json.load(open(optf))
    mem = opts.get('mem_gb', 6)
    resource.setrlimit(resource.RLIMIT_AS, (mem << 30, mem << 30))
    r = run(modpath, harness, opts)
    with open(out + '.tmp', 'w') as f:
        json.dump(r, f, default=str)
    os.rename(out + '.tmp', out)


if __name__ == '__main__':
    main()
