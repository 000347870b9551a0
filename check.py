#!/usr/bin/env python3
"""check.py PROPERTY [--thorough] [-v]: decide one property from the sources.

exit 0: no obligation is violated (undecided ones are counted in the evidence)
exit 1: VIOLATION line(s)
exit 2: no answer (a public entity the rule is about is gone, the front end
        rejects the tree, or nothing at all could be decided)
"""
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def registry():
    props = {}
    for f in sorted(os.listdir(os.path.join(HERE, 'rules'))):
        if f.startswith('r_') and f.endswith('.py'):
            m = importlib.import_module('rules.' + f[:-3])
            props.update(m.PROPS)
    return props


def known_findings():
    out = []
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        out = json.load(open(p))
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    pid = args[0]
    tier = 'thorough' if '--thorough' in sys.argv else 'quick'
    verbose = '-v' in sys.argv
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import load
    import rule
    props = registry()
    if pid not in props:
        print('unknown property', pid)
        return 3
    spec = props[pid]
    try:
        prog = load.load(spec['sources'])
    except load.FrontEndError as e:
        print('NO-ANSWER property=%s front end: %s' % (pid, e))
        return 2
    s = rule.Session(prog, pid, tier, seed, verbose)
    s.repo = load.REPO
    err = None
    try:
        spec['run'](s)
    except rule.AnchorMissing as e:
        err = 'the public entity this property is about is gone: %s' % e
    s.flush()
    if s.missing:
        err = 'the public entity this property is about is gone: %s' % sorted(s.missing)[0]
    obl = sum(v[0] for v in s.obl.values())
    dis = sum(v[1] for v in s.obl.values())
    known = [k for k in known_findings() if k.get('property') == pid and k.get('status') == 'known']
    viol, kn = [], []
    for oid, v in sorted(s.viol.items()):
        hit = next((k for k in known if k['obligation'] == oid and (not k.get('contains') or k['contains'] in v['message'] + ' ' + v['at'])), None)
        (kn if hit else viol).append((oid, v))
    if verbose:
        for m in sorted(set(s.missing)):
            print('  MISSING', m)
        print('load+run %.1fs; obligations %d discharged %d undecided %d imprecise %d partitions %d' % (time.time() - t0, obl, dis, len(s.undec), len(s.imprecise), s.partitions))
        for k in s.roots:
            print('   root %-40s partitions %d (%.2fs)' % (k, s.roots[k], s.times[k]))
        seen = set()
        for i in s.imprecise:
            if (i[1], i[2]) not in seen:
                seen.add((i[1], i[2]))
                print('  IMPRECISE', i[0], i[1], i[2])
        for u in sorted(set(s.undec))[:40]:
            print('  UNDECIDED', u)
    ev = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, 'replay_%s.json' % pid)
    if os.path.exists(replay):
        os.remove(replay)
    fns = sorted({f['name'] for f in s.cover.fns.values() if f['file'].startswith(load.REPO)})
    out = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': spec['rule'],
            'translation_units': spec['sources'],
            'functions_analysed': fns,
            'n_functions': len(fns),
            'source_lines_reached': len({x for x in s.cover.lines if x[0].startswith(load.REPO)}),
            'guards_partitioned': len({x for x in s.cover.branches if x[0].startswith(load.REPO)}),
            'call_sites_evaluated': s.calls,
            'analysis_roots': s.roots,
            'partitions': s.partitions,
            'infeasible_partitions': s.infeasible,
            'obligations': obl, 'discharged': dis,
            'undecided': len(s.undec), 'imprecise_partitions': len(s.imprecise),
            'imprecise_reasons': sorted({'%s @ %s' % (i[1], i[2]) for i in s.imprecise})[:30],
            'undecided_obligations': sorted({'%s: %s' % u for u in s.undec})[:30],
            'obligation_kinds': {k: {'instances': v[0], 'discharged': v[1], 'undecided': v[2]} for k, v in sorted(s.obl.items())},
            'samples': s.samples,
        },
        'assumptions': spec.get('assumptions', []) + [
            'standard-library and absl operations behave as modelled in engine/lib*.py',
            'single-threaded use unless stated otherwise'],
        'violations': [dict(v, obligation=o) for o, v in viol],
        'wall_s': round(time.time() - t0, 2),
    }
    json.dump(out, open(os.path.join(ev, pid + '.json'), 'w'), indent=1, default=str)
    for oid, v in kn:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, oid, v['message'][:300]))
    if viol:
        json.dump([dict(v, obligation=o) for o, v in viol], open(replay, 'w'), indent=1, default=str)
        for oid, v in viol:
            print('VIOLATION property=%s replay=%s' % (pid, replay))
            print('   %s at %s: %s' % (oid, v['at'], v['message'][:400]))
            if v['witness']:
                print('   for example with %s' % {k: v['witness'][k] for k in list(v['witness'])[:8]})
            if v.get('functions'):
                print('   on a path through %s' % ', '.join(v['functions'][-6:]))
        return 1
    if err:
        print('NO-ANSWER property=%s %s' % (pid, err))
        return 2
    if dis == 0:
        print('NO-ANSWER property=%s no obligation could be decided' % pid)
        return 2
    print('%s: %d obligations, %d discharged, %d undecided; %d functions, %d partitions, %.1fs' % (pid, obl, dis, len(s.undec) + len(s.imprecise), len(fns), s.partitions, time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
