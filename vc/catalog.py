#!/usr/bin/env python3
"""Source of /verif/properties.jsonl and /verif/MANIFEST.json: run after changing it."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, note=None, level='proof', na=None, tech=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, level=level, na=na,
                  tech=tech, state=state))


BASE = 'Every obligation generated from the clang -O0 LLVM IR of the current /repo sources is discharged by z3 (all inputs, all loop iterations by inductive invariants). '
TECH = 'contract-based deductive verification of the real code (own VC generator over LLVM IR, z3)'

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'catalog_props.py')).read())


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    P.sort(key=lambda p: p['id'])
    with open(root + '/properties.jsonl', 'w') as f:
        for p in P:
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
            if p['state']:
                a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': [],
         'notes': 'No hooks in /repo: the contracts live in /verif/vc/specs and are compiled together with the unmodified sources of /repo on every run.'}
    for p in P:
        if p['na']:
            m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
        else:
            m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 vc/check.py %s quick' % p['id'], 'thorough_cmd': 'python3 vc/check.py %s thorough' % p['id'],
                                'technique': p['tech'] or TECH, 'level': p['level'], 'level_note': p['note']})
    json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
    design(root)


def design(root):
    """DESIGN.md from DESIGN.tmpl.md, the catalogue, the contract files, the known findings and the planted bugs"""
    import glob, re
    specs = {}
    for f in sorted(glob.glob(root + '/vc/specs/*.cpp')):
        src = open(f).read()
        d = dict(h={}, bound={}, assume=[], replace={})
        for p, n in re.findall(r'^VC_PROOF\((\w+),\s*(\w+)\)', src, re.M):
            d['h'].setdefault(p, []).append(n)
        d['bound'] = dict(re.findall(r'^//@ bound (\S+) (.*)$', src, re.M))
        d['assume'] = re.findall(r'^//@ assume (\S+) (.*)$', src, re.M)
        specs[os.path.basename(f)] = d
    out = []
    for p in P:
        out.append('### %s %s\n' % (p['id'], p['title']))
        if p['na']:
            out.append('Not applicable: %s\n' % p['na'])
            continue
        for f, d in specs.items():
            hs = d['h'].get(p['id'])
            if hs:
                out.append('* Contracts: `vc/specs/%s`: %s.' % (f, ', '.join('`%s`' % h + (' (bounded: %s)' % d['bound'][h] if h in d['bound'] else '') for h in hs)))
                for a, t in d['assume']:
                    if a == p['id']:
                        out.append('* Assumed: %s.' % t.strip().rstrip('.'))
        out.append('* Functions: %s.' % '; '.join('%s (`%s`)' % (n, w) for n, w in p['mech']))
        out.append('* Quantified over: %s. Level `%s`. %s\n' % (p['text'], p['level'], (p['note'] or '').replace(BASE, '').strip()))
    try:
        CAUGHT = json.load(open(root + '/vc/caught.json'))
    except OSError:
        CAUGHT = {}
    fixes = [l.strip() for l in open(root + '/known_findings.txt') if l.startswith(('fixed:', 'finding:'))]
    seeds = []
    for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
        m = json.load(open(f))
        n = os.path.basename(os.path.dirname(f))
        seeds.append('| %s | %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), CAUGHT.get(n, '?')))
    t = open(root + '/vc/DESIGN.tmpl.md').read()
    t = t.replace('@@PROPS@@', '\n'.join(out)).replace('@@FIXES@@', '\n'.join('* ' + x for x in fixes))
    t = t.replace('@@SEEDS@@', '\n'.join(['| id | property | what it breaks | needs | caught by |', '|---|---|---|---|---|'] + seeds))
    open(root + '/DESIGN.md', 'w').write(t)


main()
