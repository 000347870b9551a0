"""The program loader and the instruction profiler."""
from rules.util import *
from values import *

MASK64 = (1 << 64) - 1

UT = 'mpact::sim::util::'
LD = UT + 'ElfProgramLoader'
PRO = UT + 'InstructionProfiler'
SRC = ['units/elf.cc', 'mpact/sim/util/program_loader/elf_program_loader.cc', 'mpact/sim/util/other/instruction_profiler.cc', 'mpact/sim/generic/data_buffer.cc']
STACK = 0x6474e551
R, W, X = 4, 2, 1


def seg(paddr, vaddr, n, flags=R, mem=None, type=1):
    return dict(paddr=paddr, vaddr=vaddr, n=n, flags=flags, mem=n if mem is None else mem, type=type)


class Files(object):
    """the files there are: what the ELF reader says about each of them"""

    def __init__(self, c, **files):
        self.c, self.files, self.cur = c, files, None
        self.data, self.index = {}, {}
        Z = lambda v, w: (lambda I, t, a: const(v, w))
        E = c.I.ext = dict(c.I.ext or {})
        E['stat'] = lambda I, a, f, node: const(0 if text(c.val(a[0])) in files else -1, 32)
        E['ELFIO::vp_load'] = self.load
        E['ELFIO::vp_segments'] = lambda I, a, f, node: const(len(self.f('segs')), 32)
        E['ELFIO::vp_sections'] = lambda I, a, f, node: const(len(self.f('secs')), 32)
        E['ELFIO::vp_validate'] = lambda I, a, f, node: StrV(self.f('invalid', ''))
        E['ELFIO::vp_entry'] = lambda I, a, f, node: const(self.f('entry', 0), 64)
        E['ELFIO::vp_segment'] = self.segment
        E['ELFIO::vp_section'] = self.section

    def f(self, k, d=()):
        return self.files[self.cur].get(k, d)

    def load(self, I, a, f, node):
        self.cur = text(self.c.val(a[0]))
        return boolc(self.cur in self.files and not self.files[self.cur].get('broken'))

    def bytes(self, file, i):
        k = (file, i)
        if k not in self.data:
            n = self.files[file]['segs'][i]['n']
            self.data[k] = [self.c.sym('%s%d_%d' % (file, i, j), 8) for j in range(n)]
        return self.data[k]

    def segment(self, I, a, f, node):
        c, i = self.c, cval(self.c.val(a[0]))
        s = self.f('segs')[i]
        bs = self.bytes(self.cur, i)
        arr = Arr(list(bs), ty(c, 'char'), 1)
        Z = lambda v, w: (lambda I, t, a: const(v, w))
        r = c.host('ELFIO::segment', 'segment%d' % i, {'get_type': Z(s['type'], 32), 'get_flags': Z(s['flags'], 32), 'get_physical_address': Z(s['paddr'], 64), 'get_virtual_address': Z(s['vaddr'], 64),
                                                      'get_align': Z(4, 64), 'get_file_size': Z(s['n'], 64), 'get_memory_size': Z(s['mem'], 64), 'get_data': lambda I, t, a: Ptr(base=arr, off=0)})
        self.index[r] = i
        I.alloc(r, 'new')
        return Ptr(r)

    def section(self, I, a, f, node):
        c, i = self.c, cval(self.c.val(a[0]))
        kind, syms = self.f('secs')[i]

        def put(a, s, k):
            for x, v in zip(a[k:], (const(s[1], 64), const(s[2], 64), const(1, 8), const(s[3], 8), const(1, 16), const(0, 8))):
                x.set(v)
            return TRUE

        def symbol(I, t, a):
            k = cval(c.val(a[0]))
            if not 0 <= k < len(syms):
                return FALSE
            a[1].p = StrV(syms[k][0]).p
            return put(a, syms[k], 2)

        def find(I, t, a):
            n = text(c.val(a[0]))
            for s in syms:
                if s[0] == n:
                    return put(a, s, 1)
            return FALSE
        r = c.host('ELFIO::section', 'section%d' % i, {'get_type': lambda I, t, a: const(kind, 32), 'get_name': lambda I, t, a: StrV('.s%d' % i), 'get_size': lambda I, t, a: const(24 * len(syms), 64),
                                                      'vp_num': lambda I, t, a: const(len(syms), 64), 'vp_symbol': symbol, 'vp_find': find})
        I.alloc(r, 'new')
        return Ptr(r)


class Mems(object):
    """memories, and what is stored in them"""

    def __init__(self, c):
        self.c, self.log, self.live = c, [], []

    def mem(self, tag):
        def store(I, t, a):
            db = obj(self.c, a[1])
            n = cval(self.c.val(self.c.call(db, 'size', targs=['unsigned char'])))
            self.log.append((tag, cval(self.c.val(a[0])), [self.c.val(self.c.call(db, 'Get', i, targs=['unsigned char'])) for i in range(n)]))
        return self.c.host('mpact::sim::util::MemoryInterface', tag, {'Store': store})


def outcome(c, r):
    r = c.val(r)
    if cval(r.st.code) if isinstance(r.st.code, T) else r.st.code:
        return 'error'
    return r.v


def code(r):
    x = r.st.code
    return cval(x) if isinstance(x, T) else x


def run_loader(s):
    C, D = ('code', 'data')
    CASES = [
        [], [seg(0x1000, 0x8000, 4, R | X), seg(0x2000, 0x9000, 3, R | W)], [seg(0, 0x8000, 4, R | X), seg(0, 0, 2, R)], [seg(0x1000, 0, 0, R | X, mem=16), seg(0x2000, 0, 1, R | X, mem=16)],
        [seg(0x1000, 0, 4, R, type=4), seg(0x1004, 0, 4, R)], [seg(0, 0, 0, R | W, mem=0x4000, type=STACK), seg(0x1000, 0x1000, 2, X)], [seg(0x1000, 0x1000, 2, X), seg(0, 0, 0, R | W, mem=0, type=STACK)],
        [seg(0xfffffffffffffff0, 1, 16, W), seg(0x100000000, 1, 1, X)], [seg(0x1000, 0, 5, R | W | X), seg(0x1005, 0, 5, R | W), seg(0x100a, 0, 6, R | X)], [seg(0, 0, 4, R, type=0, mem=9)],
    ]

    def want(segs, f, place):
        return [x for i, g in enumerate(segs) if g['type'] == 1 and g['n'] for x in place(i, g, g['paddr'] or g['vaddr'])]

    def same(c, m, exp, what):
        got = [(t, a, len(b)) for t, a, b in m.log]
        e = [(t, a, len(b)) for t, a, b in exp]
        if not c.check(got == e, 'stores', '%s: stores %s, required %s' % (what, got, e)):
            return
        for (_, a, x), (_, _, y) in zip(m.log, exp):
            for i, (p, q) in enumerate(zip(x, y)):
                c.eq(p, q, 'bytes', '%s: byte %d of the segment at 0x%x' % (what, i, a))

    def stack(c, l, segs, what):
        want = [g['mem'] for g in segs if g['type'] == STACK]
        r = c.val(c.call(l, 'GetStackSize'))
        if want and want[-1]:
            c.check(code(r) == 0 and cval(c.val(r.v)) == want[-1], 'stack', '%s: the stack size is %s, required %d' % (what, r.v, want[-1]))
        else:
            c.check(code(r) == 5, 'stack', '%s: there is no stack size' % what)

    def program(c):
        """each loadable segment is stored once, in the memory it belongs in"""
        segs = c.choose(*CASES)
        f = Files(c, prog=dict(segs=segs, secs=[], entry=0x1234))
        m = Mems(c)
        how = c.choose('one', 'two', 'list')
        what = '%s with %s' % (['%s 0x%x+%d flags %d' % (g['type'], g['paddr'] or g['vaddr'], g['n'], g['flags']) for g in segs], how)
        if how == 'one':
            l = c.new(LD, m.mem('all'), types=['mpact::sim::util::MemoryInterface *'])
            place = lambda i, g, a: [('all', a, f.bytes('prog', i))]
        elif how == 'two':
            l = c.new(LD, m.mem(C), m.mem(D))
            place = lambda i, g, a: [(C if g['flags'] & X else D, a, f.bytes('prog', i))]
        else:
            # the first memory that takes the segment gets it, perhaps at another address
            def desc(tag, pred, fn):
                d = c.new(UT + 'MemoryDescriptor')
                k = (c.cls(UT + 'MemoryDescriptor'),)
                d.f[k + ('memory',)] = Ptr(m.mem(tag))
                d.f[k + ('predicate_fcn',)] = c.fn(lambda I, a: boolc(pred(f.index[obj(c, a[0])])))
                if fn:
                    d.f[k + ('address_fcn',)] = c.fn(lambda I, a: const(fn(cval(c.val(a[0]))) & MASK64, 64))
                return d
            v = Arr([desc('even', lambda i: i % 2 == 0, lambda a: a + 0x100), desc('first', lambda i: i <= 1, None)], ty(c, UT + 'MemoryDescriptor'), 48, 'vector')
            l = c.new(LD, v, types=['const std::vector<%sMemoryDescriptor> &' % UT])
            place = lambda i, g, a: [('even', a + 0x100 & MASK64, f.bytes('prog', i))] if i % 2 == 0 else [('first', a, f.bytes('prog', i))] if i <= 1 else []
        r = c.val(c.call(l, 'LoadProgram', StrV('prog')))
        c.check(code(r) == 0 and cval(c.val(r.v)) == 0x1234, 'entry', '%s: the entry point is returned' % what)
        same(c, m, want(segs, f, place), what)
        stack(c, l, segs, what)
        c.delete(l)
    s.explore('program', program)

    def debug(c):
        """loading through a debug interface"""
        segs = c.choose(*CASES)
        f = Files(c, prog=dict(segs=segs, secs=[], entry=0x1234))
        exp = want(segs, f, lambda i, g, a: [('dbg', a, f.bytes('prog', i))])
        bad = c.choose(*([None] + [(k, w) for k in range(len(exp)) for w in ('fails', 'short')]))
        m = Mems(c)
        what = '%s, write %s' % (['0x%x+%d' % (g['paddr'] or g['vaddr'], g['n']) for g in segs], bad)

        def write(I, t, a):
            import libcalls
            n = cval(c.val(a[2]))
            sa, so = libcalls.arrview(I, c.val(a[1]), 'write')
            m.log.append(('dbg', cval(c.val(a[0])), [I.load(I.elem(sa, so + i, ty(c, 'char'))) for i in range(n)]))
            if bad and bad[0] == len(m.log) - 1:
                return StatusOrV(StatusV(13, StrV('no')), None, None) if bad[1] == 'fails' else StatusOrV(StatusV(0, StrV()), const(n - 1, 64), None)
            return StatusOrV(StatusV(0, StrV()), const(n, 64), None)
        l = c.new(LD, c.host('mpact::sim::generic::CoreDebugInterface', 'dbg', {'WriteMemory': write}), types=['mpact::sim::generic::CoreDebugInterface *'])
        r = c.val(c.call(l, 'LoadProgram', StrV('prog')))
        if bad:
            c.check(code(r) != 0, 'write-error', '%s: a write that fails or falls short is an error' % what)
            same(c, m, exp[:bad[0] + 1], what)
        else:
            c.check(code(r) == 0 and cval(c.val(r.v)) == 0x1234, 'entry', '%s: the entry point is returned' % what)
            same(c, m, exp, what)
        c.delete(l)
    s.explore('debug', debug)

    FN = 2
    SYMS = [('main', 0x1000, 16, FN), ('f', 0x1010, 4, FN), ('x', 0x2000, 8, 1), ('g', 0x1014, 1, FN), ('h', 0x1100, 0x100, FN), ('top', 0xfffffffffffffff0, 8, FN), ('z', 0x3000, 0, FN)]
    TABLES = [[(2, SYMS)], [(1, []), (2, SYMS[:3]), (3, []), (2, SYMS[3:])], [(2, SYMS[::-1])], [(2, [('a', 0x1000, 8, FN), ('b', 0x1000, 8, FN)])], [(2, [('o', 0x10, 4, 1), ('o2', 0x10, 4, 0)])], [(2, [])], [(1, SYMS)]]

    def lookup(c, l, secs, scale, what):
        syms = [x for k, t in secs if k == 2 for x in t]
        for n in sorted(set(x[0] for x in SYMS + syms)) + ['none']:
            r = c.val(c.call(l, 'GetSymbol', StrV(n)))
            e = [x for x in syms if x[0] == n]
            if e:
                ok = code(r) == 0 and [cval(c.val(x)) for x in r.v.v] == [e[0][1], e[0][2]]
                c.check(ok, 'symbol', '%s: value and size of symbol %s' % (what, n))
            else:
                c.check(code(r) == 5, 'symbol', '%s: there is no symbol %s' % (what, n))
        fns = [x for x in syms if x[3] == FN]
        for a in sorted(set(y for x in SYMS + syms for y in (x[1] - 1, x[1], x[1] + max(0, x[2] // scale - 1), x[1] + x[2] // scale, x[1] + x[2]) if 0 <= y <= MASK64)):
            r = c.val(c.call(l, 'GetFcnSymbolName', const(a, 64)))
            e = [x[0] for x in fns if x[1] == a]
            c.check(text(c.val(r.v)) in e if code(r) == 0 else code(r) == 5 and not e, 'function-at', '%s: the function at 0x%x is %s, required %s' % (what, a, 'none' if code(r) else text(c.val(r.v)), e))
            r = c.val(c.call(l, 'GetFunctionName', const(a, 64)))
            e = [x[0] for x in fns if x[1] <= a < x[1] + x[2] // scale]
            c.check(text(c.val(r.v)) in e if code(r) == 0 else code(r) == 5 and not e, 'function-around', '%s: the function around 0x%x is %s, required one of %s' % (what, a, 'none' if code(r) else text(c.val(r.v)), e))

    def loader(c):
        return c.new(LD, Mems(c).mem('all'), types=['mpact::sim::util::MemoryInterface *'])

    def symbols(c):
        """symbols are found by name and by address"""
        secs = c.choose(*TABLES)
        scale = c.choose(1, 2)
        Files(c, prog=dict(segs=[], secs=secs, entry=7))
        l = loader(c)
        if scale != 1:
            c.call(l, 'set_text_size_scale', const(scale, 64))
        r = c.val(c.call(l, 'LoadSymbols', StrV('prog')))
        c.check(code(r) == 0 and cval(c.val(r.v)) == 7, 'entry', 'the entry point is returned')
        lookup(c, l, secs, scale, 'table %s, scale %d' % (secs, scale))
        c.delete(l)
    s.explore('symbols', symbols)

    def errors(c):
        """files that cannot be loaded"""
        how = c.choose('missing', 'broken', 'invalid', 'none')
        prog = dict(segs=[seg(0x1000, 0, 2)], secs=[(2, SYMS)])
        Files(c, **{'missing': {}, 'broken': dict(prog=dict(prog, broken=True)), 'invalid': dict(prog=dict(prog, invalid='bad')), 'none': {}}[how])
        m = Mems(c)
        l = c.new(LD, m.mem('all'), types=['mpact::sim::util::MemoryInterface *'])
        if how != 'none':
            fn = c.choose('LoadProgram', 'LoadSymbols')
            r = c.val(c.call(l, fn, StrV('prog')))
            c.check(code(r) != 0, 'refused', '%s of a %s file is an error' % (fn, how))
        c.check(not m.log, 'refused', 'nothing is stored from a %s file' % how)
        for fn, a in (('GetSymbol', StrV('main')), ('GetFcnSymbolName', const(0x1000, 64)), ('GetFunctionName', const(0x1000, 64))):
            c.check(code(c.val(c.call(l, fn, a))) != 0, 'not-loaded', '%s without a program is an error' % fn)
        c.delete(l)
    s.explore('errors', errors)

    def again(c):
        """symbols and segments are those of the file that was loaded last"""
        a = dict(segs=[seg(0x1000, 0, 2), seg(0, 0, 0, type=STACK, mem=64)], secs=[(2, SYMS[:2])], entry=1)
        b = dict(segs=[seg(0x3000, 0, 2)], secs=[(2, [('k', 0x1010, 16, FN), ('main', 0x20, 8, FN)])], entry=2)
        f = Files(c, a=a, b=b)
        m = Mems(c)
        l = c.new(LD, m.mem('all'), types=['mpact::sim::util::MemoryInterface *'])
        x, y = c.choose(('a', 'b'), ('b', 'a'), ('a', 'a'))
        f1 = c.choose('LoadProgram', 'LoadSymbols')
        c.call(l, f1, StrV(x))
        del m.log[:]
        r = c.val(c.call(l, 'LoadProgram', StrV(y)))
        what = '%s %s, then LoadProgram %s' % (f1, x, y)
        F = f.files[y]
        c.check(code(r) == 0 and cval(c.val(r.v)) == F['entry'], 'entry', '%s: the entry point is returned' % what)
        same(c, m, want(F['segs'], f, lambda i, g, ad: [('all', ad, f.bytes(y, i))]), what)
        lookup(c, l, F['secs'], 1, what)
        stack(c, l, F['segs'], what)
        c.delete(l)
    s.explore('again', again)

    def fails(c):
        """a load that fails leaves no program"""
        a = dict(segs=[seg(0x1000, 0, 2), seg(0, 0, 0, type=STACK, mem=64)], secs=[(2, SYMS[:2])], entry=1)
        how = c.choose('missing', 'broken', 'invalid')
        Files(c, a=a, **{'missing': {}, 'broken': dict(b=dict(a, broken=True)), 'invalid': dict(b=dict(a, invalid='bad'))}[how])
        m = Mems(c)
        l = c.new(LD, m.mem('all'), types=['mpact::sim::util::MemoryInterface *'])
        c.call(l, 'LoadProgram', StrV('a'))
        del m.log[:]
        fn = c.choose('LoadProgram', 'LoadSymbols')
        r = c.val(c.call(l, fn, StrV('b')))
        what = 'after a program, %s of a %s file' % (fn, how)
        c.check(code(r) != 0, 'refused', '%s is an error' % what)
        c.check(not m.log, 'refused', '%s stores nothing' % what)
        if how != 'missing':
            for fn, x in (('GetSymbol', StrV('main')), ('GetFcnSymbolName', const(0x1000, 64)), ('GetFunctionName', const(0x1000, 64))):
                c.check(code(c.val(c.call(l, fn, x))) != 0, 'not-loaded', '%s: %s is an error' % (what, fn))
        c.delete(l)
    s.explore('fails', fails)


def run_profiler(s):
    P1 = [seg(0, 0x1000, 4, R | X, mem=64)]
    CASES = [
        P1, [seg(0, 0x1000, 4, R | X, mem=64), seg(0, 0x1040, 4, R | X, mem=32)], [seg(0, 0x1000, 4, R | X, mem=64), seg(0, 0x2000, 4, R | W, mem=64), seg(0, 0x9000000, 4, R | X, mem=16)],
        [seg(0, 0x1000, 4, R | X, mem=64), seg(0, 0x2000, 4, R | X, mem=64), seg(0, 0x9000000, 4, R | X, mem=16), seg(0, 0x9000080, 4, R | X, mem=8), seg(0, 0xf0000000, 4, R | X, mem=4)],
        [seg(0, 0, 4, R | X, mem=16)], [seg(0, 0x1002, 4, R | X, mem=9)], [seg(0, 0x1000, 4, R | X, mem=0), seg(0, 0x3000, 4, R | X, mem=2)], [seg(0, 0x1000, 4, R | X, mem=64, type=4), seg(0, 0x8000, 4, R | X, mem=8)],
        [seg(0, 0x1000, 4, R | X, mem=1), seg(0, 0xa00000, 4, R, mem=16), seg(0, 0xb00000, 4, R | X, mem=1), seg(0, 0xc00000, 4, R | X, mem=0)], [seg(0, 0, 4, R, mem=16), seg(0, 0x100, 4, R | X, mem=4)],
        [seg(0, 0x1000, 4, R | X, mem=6), seg(0, 0x1006, 4, R | X, mem=6)], [],
    ]

    def inside(segs, a):
        return any(g['type'] == 1 and g['flags'] & X and g['vaddr'] <= a < g['vaddr'] + g['mem'] for g in segs)

    def profile(c):
        """the profile lists exactly the samples within the program"""
        segs = c.choose(*CASES)
        shift = c.choose(0, 1, 2)
        f = Files(c, prog=dict(segs=segs, secs=[]))
        l = c.new(LD, Mems(c).mem('all'), types=['mpact::sim::util::MemoryInterface *'])
        c.call(l, 'LoadSymbols', StrV('prog'))
        late = c.choose(False, True)
        if late:
            p = c.new(PRO, const(1 << shift, 32))
            c.call(p, 'SetElfLoader', Ptr(l))
        else:
            p = c.new(PRO, l, const(1 << shift, 32))
        edges = sorted(set(y for g in segs for b in (g['vaddr'], g['vaddr'] + g['mem']) for y in (b - 1, b, b + 1) if y >= 0)) or [0]
        order = c.choose('up', 'down', 'twice')
        seq = edges if order == 'up' else edges[::-1] if order == 'down' else [x for e in edges for x in (e, edges[0], e)]
        n = {}
        ranges = [(g['vaddr'] >> shift, g['vaddr'] + g['mem'] - 1 >> shift) for g in segs if g['type'] == 1 and g['flags'] & X and g['mem']]
        lo = hi = None
        for a in seq:
            c.call(p, 'SetValue', const(a, 64))
            n[a >> shift << shift] = n.get(a >> shift << shift, 0) + 1
        os = StreamV('out')
        c.call(p, 'WriteProfile', os)
        got = os.s.const()
        what = 'segments %s, granularity %d, samples %s' % ([(hex(g['vaddr']), g['mem'], g['flags'], g['type']) for g in segs], 1 << shift, [hex(x) for x in seq])
        lines = got.split('\n')
        c.check(lines[0] == 'Address,Count' and lines[-1] == '', 'format', '%s: profile %r' % (what, got))
        seen = {}
        last = -1
        for x in lines[1:-1]:
            a, k = x.split(',')
            a, k = int(a, 16), int(k)
            c.check(a > last, 'order', '%s: the addresses of the profile are in order' % what)
            last = a
            seen[a] = k
            # small gaps between executable segments may be part of the profile
            u = a >> shift
            close = any(x <= u <= y for x, y in ranges) or any(y < u < x2 and x2 - y <= 0x1001 for _, y in ranges for x2, _ in ranges)
            c.check(close, 'elsewhere', '%s: the samples at 0x%x, which is not part of the program, are listed' % (what, a))
            c.check(n.get(a) == k, 'count', '%s: %d samples listed at 0x%x, required %d' % (what, k, a, n.get(a, 0)))
        for a in n:
            if any(u <= a >> shift <= v for u, v in ranges):
                c.check(a in seen, 'count', '%s: the samples at 0x%x are missing' % (what, a))
        c.delete(p)
        c.delete(l)
    s.explore('profile', profile)

    def nothing(c):
        """samples without program, and at the end of the address space"""
        shift = c.choose(0, 1, 2)
        p = c.new(PRO, const(1 << shift, 32))
        for a in (0, 0x1000, MASK64, MASK64 - 1):
            c.call(p, 'SetValue', const(a, 64))
        os = StreamV('out')
        c.call(p, 'WriteProfile', os)
        c.check(os.s.const() == 'Address,Count\n', 'nothing', 'the profile without a program is %r' % os.s.const())
        c.delete(p)
    s.explore('nothing', nothing)

    def change(c):
        """the program can be replaced"""
        A, B = P1, [seg(0, 0x1020, 4, R | X, mem=64)]
        x, y = c.choose((A, A), (A, B))
        Files(c, a=dict(segs=x, secs=[]), b=dict(segs=y, secs=[]))
        ls = []
        for n in 'ab':
            l = c.new(LD, Mems(c).mem('all'), types=['mpact::sim::util::MemoryInterface *'])
            c.call(l, 'LoadSymbols', StrV(n))
            ls.append(l)
        p = c.new(PRO, ls[0], const(4, 32))
        c.call(p, 'SetElfLoader', Ptr(ls[1]))
        for a in (0x1020, 0x1024, 0x1020):
            c.call(p, 'SetValue', const(a, 64))
        os = StreamV('out')
        c.call(p, 'WriteProfile', os)
        c.check(os.s.const() == 'Address,Count\n0x1020,2\n0x1024,1\n', 'change', 'the profile after the program is set again is %r' % os.s.const())
        c.delete(p)
        for l in ls:
            c.delete(l)
    s.explore('change', change)


PROPS = {
    'P48': dict(sources=SRC, run=run_loader, rule='stores and writes made for enumerated segment tables with symbolic contents, symbol look-ups, ownership of the accessors'),
    'P49': dict(sources=SRC, run=run_profiler, rule='profile for enumerated segment tables and samples, bounds of the counters'),
}
