"""Authoring aid (not used by any check): applies textual edits in a scratch
copy and says what the checks report. kind 'ref' must stay quiet (0), 'bug' must be 1."""
import importlib.util
import os
import sys
import seedlib
from seedlib import SC, sh, copy, HERE


def main(path, ids):
    spec = importlib.util.spec_from_file_location('m', path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    if not os.environ.get("KEEP"): copy()
    bad = 0
    for id, kind, props, edits in m.EDITS:
        if ids and id not in ids:
            continue
        sh('git -C %s checkout -q -- .' % SC)
        err = None
        for e in edits:
            f, old, new = e[:3]
            p = os.path.join(SC, m.BASE + f)
            t = '\n'.join(l for l in open(p).read().split('\n') if l.strip() and not l.strip().startswith('//')) + '\n'
            if len(e) > 3:
                parts = t.split(old)
                if len(parts) <= e[3] + 1:
                    err = 'only %d matches of %r' % (len(parts) - 1, old[:60])
                    break
                open(p, 'w').write(old.join(parts[:e[3] + 1]) + new + old.join(parts[e[3] + 1:]))
                continue
            if t.count(old) != 1:
                err = '%d matches of %r in %s' % (t.count(old), old[:60], f)
                break
            open(p, 'w').write(t.replace(old, new))
        if err:
            print(id, 'EDIT', err)
            continue
        bt = seedlib.build_test() if getattr(m, 'BUILD', True) else 'nobuild'
        if bt != 'nobuild' and 'pass' not in bt:
            print(id, bt[:1500])
        for p in props.split():
            r = sh('cd %s && VERIF_REPO=%s VERIF_EVIDENCE=/tmp/scev timeout 900 python3 check.py %s' % (HERE, SC, p))
            want = 1 if kind == 'bug' else 0
            imp = [l for l in r.stdout.split('\n') if 'undecided' in l]
            und = '' if not imp or ' 0 undecided' in imp[0] else ' UNDECIDED ' + imp[0]
            flag = 'ok ' if r.returncode == want and not und else 'BAD'
            bad += flag == 'BAD'
            print('%s %s %s %s -> %d %s%s' % (flag, id, kind, p, r.returncode, '' if flag == 'ok ' else ' | '.join(r.stdout.strip().split('\n')[:3])[:500], und))
            sys.stdout.flush()
    os.environ.get('LEAVE') or sh('git -C %s checkout -q -- .' % SC)
    print('bad:', bad)


main(sys.argv[1], sys.argv[2:])
