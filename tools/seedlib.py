"""Authoring aid for planted bugs (not used by any check): makes the patch from
textual edits in a scratch copy, confirms build + tests + demo, and says which
check reports it."""
import json
import os
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = os.environ.get('SC', '/tmp/sc')
ALL = '-Wl,--start-group $(ls /usr/lib/x86_64-linux-gnu/libabsl_*.so | grep -v flags_ ) -Wl,--end-group -lpthread'
LIBS = {'all': ALL, '': '', 'hash': '-labsl_hash -labsl_base -labsl_raw_logging_internal',
        'te': '-labsl_statusor -labsl_status -labsl_strings -labsl_cord -labsl_bad_variant_access -labsl_hash -labsl_base -labsl_raw_logging_internal'}
DEMO = '''#!/bin/bash
# exit 0: behaviour as documented; nonzero: broken
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
clang++-18 -std=c++17 -g -O1 %(san)s -I"$PWD" %(inc)s "$H/demo.cc" %(srcs)s -o "$T/demo" %(libs)s || exit 9
"$T/demo"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def copy():
    shutil.rmtree(SC, ignore_errors=True)
    r = sh('git -C /repo worktree prune; mkdir -p %s && cd /repo && git archive HEAD | tar -x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x' % (SC, SC, SC))
    assert r.returncode == 0, r.stdout


def build_test():
    r = sh('cmake -S /opt/vp/cmake -B {0}/_build -G Ninja -DMPACT_ROOT={0} -DCMAKE_CXX_COMPILER=/usr/bin/clang++-18 -DCMAKE_CXX_FLAGS="-O1 -g" -DFETCHCONTENT_FULLY_DISCONNECTED=ON && ninja -C {0}/_build -j8'.format(SC))
    if r.returncode:
        return 'BUILD FAILS\n' + r.stdout[-2500:]
    r = sh('cd {0} && ctest --test-dir {0}/_build -j8 --timeout 120'.format(SC))
    return 'tests: ' + ('pass' if r.returncode == 0 else 'FAIL ' + r.stdout[-1500:])


def seed(id, prop, needs, breaks, edits, demo, srcs='', libs='', san='-fsanitize=address', checks=None, inc=False):
    d = os.path.join(HERE, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(SC):
        copy()
    sh('git -C %s checkout -q -- .' % SC)
    open(d + '/demo.cc', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(DEMO % {'srcs': ' '.join('"$PWD/%s"' % s for s in srcs.split()), 'libs': LIBS.get(libs, libs), 'san': san,
                                                 'inc': '-I"$H/inc" -include pre.h' if inc else '-include cstdint'})
    if inc:
        shutil.rmtree(d + '/inc', ignore_errors=True)
        shutil.copytree(HERE + '/tools/demo_inc', d + '/inc')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    r = sh('cd %s && bash %s/demo.sh' % (SC, d))
    clean = r.returncode
    if clean:
        print(id, 'demo on clean tree:', clean, r.stdout[-1500:])
    for f, old, new, *nth in edits:
        p = os.path.join(SC, f)
        t = open(p).read()
        if nth:     # the nth occurrence
            i = -1
            for _ in range(nth[0] + 1):
                i = t.index(old, i + 1)
            open(p, 'w').write(t[:i] + new + t[i + len(old):])
            continue
        assert t.count(old) == 1, '%s: %d matches of %r in %s' % (id, t.count(old), old, f)
        open(p, 'w').write(t.replace(old, new))
    open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', SC, 'diff'], text=True))
    bt = build_test()
    r = sh('cd %s && bash %s/demo.sh' % (SC, d))
    print('%s [%s] clean demo %d, %s, patched demo %d' % (id, prop, clean, bt, r.returncode))
    run(checks or [prop])
    sh('git -C %s checkout -q -- .' % SC)
    sys.stdout.flush()


def run(props):
    for p in props:
        r = sh('cd %s && VERIF_REPO=%s VERIF_EVIDENCE=/tmp/scev timeout 900 python3 check.py %s' % (HERE, SC, p))
        print('    check %s -> %d: %s' % (p, r.returncode, ' | '.join(r.stdout.strip().split('\n')[:2])[:300]))
