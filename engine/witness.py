"""Type-level witnesses: translation units that compile exactly when their
static assertions hold for the current tree. Only the front end is run."""
import os
import re
import subprocess
import load


def check(s, unit, kinds=None):
    path = os.path.join(load.VERIF, unit)
    src = open(path).read()
    cmd = [load.CXX, '-fsyntax-only', '-ferror-limit=0', '-fno-caret-diagnostics', '-Wno-everything'] + [f for f in load.flags() if not f.startswith('-ferror-limit')] + [path]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    # the number of obligations: assertions after macro expansion
    pp = subprocess.run([load.CXX, '-E', '-P'] + [f for f in load.flags() if not f.startswith('-ferror-limit')] + [path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout
    tail = pp[pp.rfind('using namespace mpact::sim'):] if 'using namespace mpact::sim' in pp else pp
    allk = re.findall(r'static_assert\(.*?"([\w-]+)"\)', tail, re.S)
    bad = {}
    other = []
    for l in r.stdout.split('\n'):
        m = re.match(r'(.*?):(\d+):(\d+): error: (.*)', l)
        if not m:
            continue
        f, ln, _, msg = m.groups()
        if os.path.abspath(f) == path:
            k = re.search(r'static assertion failed.*?(?:: ([\w-]+))?$', msg)
            line = src.split('\n')[int(ln) - 1].strip()
            if k:
                bad.setdefault(k.group(1) or 'assertion', []).append((ln, line, msg))
            elif "no type named 'type'" in msg or "no member named 'type'" in msg:
                bad.setdefault('defined', []).append((ln, line, msg))
            elif 'not an integral constant expression' in msg:
                bad.setdefault('constant', []).append((ln, line, msg))
            else:
                other.append((f, ln, msg))
        elif not bad:
            other.append((f, ln, msg))
    for k in allk:
        st = s.obl.setdefault('%s/%s' % (os.path.basename(unit), k), [0, 0, 0])
        st[0] += 1
        st[1] += 1
    if other and not bad:
        import rule
        raise rule.AnchorMissing('%s:%s: %s' % other[0])
    for k, v in bad.items():
        oid = '%s/%s' % (os.path.basename(unit), k)
        st = s.obl.setdefault(oid, [0, 0, 0])
        st[1] = max(0, st[1] - len(v))
        s.viol[oid] = {'obligation': oid, 'message': '; '.join('%s (line %s: %s)' % (m, ln, line) for ln, line, m in v[:4]), 'kind': 'type-level',
                       'at': '%s:%s' % (path, v[0][0]), 'witness': {}, 'path': [], 'stack': [], 'functions': []}
    s.roots[unit] = len(allk)
    s.times[unit] = 0
    s.samples.append({'root': unit, 'guards': ['static_assert, line %d' % (i + 1) for i, l in enumerate(src.split('\n')) if 'static_assert' in l][:6]})
