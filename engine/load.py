"""Front end driver: builds the extractor when needed and turns the *current*
working tree of the repository into one resolved Program."""
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from program import Program

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CXX = 'clang++-18'


class FrontEndError(Exception):
    pass


def builddir():
    d = os.path.join(VERIF, 'build')
    os.makedirs(d, exist_ok=True)
    return d


def extractor():
    src = os.path.join(VERIF, 'extract', 'extract.cc')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(builddir(), 'extract-' + h)
    if os.path.exists(out):
        return out
    with open(out + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        flags = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).split()
        flags = [f for f in flags if not f.startswith('-std=')]
        tmp = out + '.tmp%d' % os.getpid()
        cmd = [CXX, '-std=c++17', '-O1', '-fno-rtti'] + flags + [src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18']
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise FrontEndError('extractor does not build:\n' + r.stdout[-3000:])
        os.rename(tmp, out)
    return out


_rd = None


def flags():
    global _rd
    if _rd is None:
        _rd = subprocess.check_output([CXX, '-print-resource-dir'], text=True).strip()
    return ['-std=c++17', '-I' + os.path.join(VERIF, 'shims'), '-I' + REPO, '-include', 'cstdint', '-resource-dir', _rd, '-ferror-limit=20']


def literals(path):
    """the values of the string literals of a source file, adjacent ones joined, with their lines"""
    if not os.path.exists(path):
        raise FrontEndError('source file %s is gone' % path)
    t = open(path).read()
    out = []
    i, last = 0, None
    tok = re.compile(r'''//[^\n]*|/\*.*?\*/|R"(?P<d>[^()\s\\]*)\((?P<raw>.*?)\)(?P=d)"|"(?P<s>(?:[^"\\\n]|\\.)*)"|'(?:[^'\\\n]|\\.)+'|(?P<w>\S)''', re.S)
    for m in tok.finditer(t):
        if m.group('w'):
            last = None
            continue
        if m.group('raw') is not None:
            v = m.group('raw')
        elif m.group('s') is not None:
            v = m.group('s').encode().decode('unicode_escape')
        else:
            continue
        if last is None:
            out.append([v, t.count('\n', 0, m.start()) + 1])
            last = True
        else:
            out[-1][0] += v
    return out


def generated(spec):
    """a translation unit made of code that the generators emit verbatim:
    FILE#NAME,NAME takes the string literals of FILE that define the functions NAME"""
    f, names = spec.split('#')
    lits = literals(os.path.join(REPO, f))
    use, pick = [], []
    for n in names.split(','):
        c = [l for l in lits if re.search(r'\b%s\s*\(' % n, l[0]) and 'template' in l[0]]
        if not c:
            raise FrontEndError('no generated definition of %s in %s' % (n, f))
        if c[0] not in pick:
            pick.append(c[0])
        use.append(n)
    # every literal stays on the lines it has in the source file
    text = '#include <algorithm>\n#include <cstdint>\nnamespace verif_gen {'
    for v, line in sorted(pick, key=lambda l: l[1]):
        text += '\n' * max(1, line - 1 - text.count('\n')) + v
    out = [text]
    out.append('}')
    out.append('namespace verif_unit { using namespace verif_gen;')
    for t in ('uint8_t', 'uint16_t', 'uint32_t', 'uint64_t', 'int8_t', 'int16_t', 'int32_t', 'int64_t'):
        out.append('inline void Use_%s(uint8_t *d, %s v) {' % (t, t))
        if 'ExtractBits' in use:
            out.append('  v = internal::ExtractBits<%s>(d, 1, 1, 1);' % t)
        if 'InsertBits' in use and not t.startswith('int'):
            out.append('  internal::InsertBits(d, 1, 1, 1, v);')
        out.append('}')
    out.append('void Anchor(uint8_t *d) {')
    for t in ('uint8_t', 'uint16_t', 'uint32_t', 'uint64_t', 'int8_t', 'int16_t', 'int32_t', 'int64_t'):
        out.append('  Use_%s(d, 1);' % t)
    out.append('}')
    out.append('}')
    return '\n'.join(out) + '\n'


def load(sources):
    """sources: paths relative to the repository, or units/NAME.cc of /verif"""
    ex = extractor()
    tmp = tempfile.mkdtemp(prefix='vx-', dir=builddir())
    try:
        jobs = []
        for i, s in enumerate(sources):
            if s.startswith('gen:'):
                p = os.path.join(tmp, 'generated_%d.cc' % i)
                open(p, 'w').write(generated(s[4:]))
                jobs.append((p, os.path.join(tmp, '%d.json' % i), str(1 + i * 1000000)))
                continue
            p = os.path.join(VERIF, s) if s.startswith('units/') else os.path.join(REPO, s)
            if not os.path.exists(p):
                raise FrontEndError('source file %s is gone' % s)
            jobs.append((p, os.path.join(tmp, '%d.json' % i), str(1 + i * 1000000)))

        def run(j):
            env = dict(os.environ, DECL_BASE=j[2])
            roots = REPO + '/,' + tmp + '/,' + os.path.join(VERIF, 'units') + '/,' + os.path.join(VERIF, 'shims', 'mpact') + '/'
            r = subprocess.run([ex, j[1], roots, j[0], '--'] + flags(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
            if 'error:' in r.stdout or not os.path.exists(j[1]):
                raise FrontEndError('%s does not parse:\n%s' % (j[0], r.stdout[-2500:]))
        with ThreadPoolExecutor(8) as tp:
            list(tp.map(run, jobs))
        p = Program()
        for s, j in zip(sources, jobs):
            if s.startswith('gen:'):
                # report the code where it is written
                t = open(j[1]).read().replace(j[0], os.path.join(REPO, s[4:].split('#')[0]))
                open(j[1], 'w').write(t)
            p.load(j[1])
        p.finish()
        p.units = list(sources)
        return p
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
