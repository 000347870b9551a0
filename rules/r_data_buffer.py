"""Reference counts, data buffers, their factory and their submission."""
from rules.util import *

SRC = ['mpact/sim/generic/data_buffer.cc', 'units/data_buffer.cc']
DB = 'mpact::sim::generic::DataBuffer'
FAC = 'mpact::sim::generic::DataBufferFactory'


def rc(c, o):
    return c.call(o, 'ref_count')


# ---------------------------------------------------------------- P01
def run_ref(s):
    depth = 9 if s.thorough else 7

    def counted(c):
        o = c.stack('verif_unit::CountedObject')
        count = 1
        zeros = 0
        c.eq(rc(c, o), 1, 'initial', 'a new object has one reference')
        for i in range(depth):
            if count == 0:
                if c.choose(True, False):
                    c.call(o, 'ResetCounts')
                    count = 1
                else:
                    break
            else:
                op = c.choose('inc', 'dec', 'stop')
                if op == 'stop':
                    break
                if op == 'inc':
                    c.call(o, 'IncRef')
                    count += 1
                else:
                    c.call(o, 'DecRef')
                    count -= 1
                    zeros += count == 0
            c.eq(rc(c, o), count, 'count', 'the reference count is acquisitions minus releases')
            c.eq(c.call(o, 'zero_calls'), zeros, 'notify', 'the zero notification fires exactly when the last reference goes')
    s.explore('histories', counted, limit=20000)

    def default(c):
        o = c.new('verif_unit::DefaultCounted')
        n = c.choose(0, 1, 2, 3)
        for i in range(n):
            c.call(o, 'IncRef')
        for i in range(n):
            c.call(o, 'DecRef')
            c.check(o.alive, 'alive', 'object lives while references remain')
        c.call(o, 'DecRef')
        c.check(not o.alive, 'deleted', 'the last release deletes the object')
        c.check(not c.leaks(), 'leak', 'nothing is left allocated')
    s.explore('default-action', default)

    def many(c):
        """large counts are exact: no narrow counter wraps around"""
        o = c.stack('verif_unit::CountedObject')
        n = 70000 if s.thorough else 66000
        I = c.I
        f = None
        for i in range(1, n + 1):
            c.call(o, 'IncRef')
            if i in (100, 127, 128, 255, 256, 300, 32767, 32768, 65535, 65536, n):
                c.eq(rc(c, o), i + 1, 'count-large', 'the reference count after %d acquisitions' % i)
        for i in range(n, 0, -1):
            c.call(o, 'DecRef')
            if i in (128, 256, 257, 32768, 65536, 65537):
                c.eq(rc(c, o), i, 'count-large', 'the reference count after releases')
        c.eq(rc(c, o), 1, 'count-large', 'the reference count after all but the first reference are released')
        c.eq(c.call(o, 'zero_calls'), 0, 'notify-large', 'no notification while a reference remains')
        c.call(o, 'DecRef')
        c.eq(c.call(o, 'zero_calls'), 1, 'notify-large', 'one notification after the last release')
    s.explore('large-counts', many, maxsteps=20000000)

    def accelerated(c):
        """counts beyond any practical history: where one acquisition and one
        release each change the integer state of the object by a constant (checked
        as an inductive step for a symbolic number of them), the state after n
        acquisitions and m releases is known for every n and m"""
        o = c.stack('verif_unit::CountedObject')

        def state():
            return {k: v for k, v in o.f.items() if isinstance(v, T) and v.w >= 8 and isc(v)}
        s0 = state()
        c.call(o, 'IncRef')
        s1 = state()
        c.call(o, 'IncRef')
        s2 = state()
        c.call(o, 'DecRef')
        s3 = state()
        c.call(o, 'DecRef')
        s4 = state()

        def fit(x, w):
            return x if x.w == w else trunc(x, w) if x.w > w else zext(x, w)

        def d(a, b):
            return {k: (cval(b[k]) - cval(a[k])) % (1 << a[k].w) for k in a if k in b}
        inc, dec = d(s0, s1), d(s2, s3)
        if not (set(s0) == set(s1) == set(s2) == set(s3) == set(s4)) or inc != d(s1, s2) or dec != d(s3, s4) or not any(inc.values()):
            return

        def at(n, m):
            return {k: add(v, add(mul(const(inc[k], v.w), fit(n, v.w)), mul(const(dec[k], v.w), fit(m, v.w)))) for k, v in s0.items()}

        def put(st):
            for k, v in st.items():
                o.f[k] = v

        def is_at(st, what):
            for k, v in st.items():
                c.eq(o.f[k], v, 'step', 'one %s changes the state the same way whatever the history' % what)
        k = c.choose(1, 2, 3)       # references held
        where = c.choose(None, *[b + e for b in (1 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 33, 1 << 40) for e in (-2, -1, 0, 1)])
        # n acquisitions after construction, n + 1 - k releases
        if where is None:
            n = c.sym('acquisitions', 64)
            c.assume(ult(n, const(1 << 62, 64)))
            c.assume(ult(const(8, 64), n))
        else:
            n = const(where, 64)
        m = sub(add(n, const(1, 64)), const(k, 64))
        z = cval(c.call(o, 'zero_calls'))
        put(at(n, m))
        c.eq(rc(c, o), k, 'count-any', 'the reference count is acquisitions minus releases after any number of them')
        op = c.choose('inc', 'dec')
        if op == 'inc':
            c.call(o, 'IncRef')
            is_at(at(add(n, const(1, 64)), m), 'acquisition')
            c.eq(rc(c, o), k + 1, 'count-any', 'the reference count after one more acquisition')
            return
        for j in range(k - 1, -1, -1):
            c.call(o, 'DecRef')
            if j:
                c.eq(rc(c, o), j, 'count-any', 'the reference count after a release')
            c.eq(c.call(o, 'zero_calls'), z + (j == 0), 'notify-any', 'the notification fires exactly when the last reference goes, after any number of acquisitions')
    s.explore('accelerated', accelerated)

    def below(c):
        o = c.stack('verif_unit::CountedObject')
        for i in range(c.choose(0, 1, 2)):
            c.call(o, 'IncRef')
            c.call(o, 'DecRef')
        c.call(o, 'DecRef')
        try:
            c.call(o, 'DecRef')
        except PathEnd as e:
            if e.kind == 'abort':
                c.check(True, 'below-zero', '')
                return
            raise
        c.check(False, 'below-zero', 'a release without a reference is accepted (count %r)' % (rc(c, o),))
    s.explore('below-zero', below)


# ---------------------------------------------------------------- P02
SIZES = [1, 4, 8, 4096, 4097, 5000]


def run_factory(s):
    def chk_fresh(c, db, size, live, what):
        p = c.val(db)
        c.check(not p.isnull, 'non-null', '%s yields a buffer' % what)
        o = p.t
        c.check(o.alive, 'alive', '%s hands out a live buffer' % what)
        c.check(all(o is not x for x, _ in live), 'distinct', '%s hands out a buffer that is still referenced' % what)
        c.eq(c.call(o, 'size', targs=['unsigned char']), size, 'size', 'size after %s' % what)
        c.eq(rc(c, o), 1, 'one-reference', 'reference count after %s' % what)
        for x, _ in live:
            c.check(x.alive, 'others-alive', 'other buffers survive %s' % what)
        return o

    def history(sizes, steps):
        def f(c):
            fac = c.new(FAC)
            live = []
            hist = []
            for i in range(steps):
                alts = [('alloc', z) for z in sizes]
                if live:
                    alts.append(('release', 0))
                if len(live) > 1:
                    alts.append(('release', -1))
                if hist and 'clear' not in hist:
                    alts.append(('clear', 0))
                op, a = c.choose(*alts)
                if op == 'alloc':
                    hist.append('allocate %d' % a)
                    o = chk_fresh(c, c.call(fac, 'Allocate', a), a, live, '; '.join(hist))
                    live.append((o, a))
                elif op == 'clear':
                    hist.append('clear')
                    c.call(fac, 'Clear')
                    for x, z in live:
                        c.check(x.alive, 'clear-keeps-live', 'Clear leaves referenced buffers alone')
                        c.eq(rc(c, x), 1, 'clear-keeps-count', 'Clear leaves reference counts alone')
                else:
                    x, z = live.pop(a)
                    hist.append('release %d' % z)
                    c.call(x, 'IncRef')
                    c.call(x, 'DecRef')
                    c.eq(rc(c, x), 1, 'inc-dec', 'acquire and release leaves the buffer held')
                    c.call(x, 'DecRef')
                    for y, _ in live:
                        c.check(y.alive, 'release-keeps-others', 'releasing one buffer keeps the others')
            for x, z in live:
                c.call(x, 'DecRef')
            c.delete(fac)
            lk = c.leaks()
            c.check(not lk, 'everything-freed', 'destroying the factory frees every recycled buffer (%s): %d allocation(s) left' % ('; '.join(hist), len(lk)))
        return f
    d = 5 if s.thorough else 4
    s.explore('history-short', history([1, 4], d), limit=30000, budget=400)
    s.explore('history-long', history([4096, 4097], d), limit=30000, budget=400)
    s.explore('history-longer', history([5000, 6000], d), limit=30000, budget=400)

    def many(c):
        """many sizes recycled at once"""
        fac = c.new(FAC)
        group = c.choose([4097, 5000, 6000, 7001, 9000, 12000], [1, 2, 3, 4, 100, 4095, 4096], [8, 4096, 4097, 6000, 20000, 16])
        reps = c.choose(1, 3)
        live = []
        for z in group:
            for k in range(reps):
                live.append((chk_fresh(c, c.call(fac, 'Allocate', z), z, live, 'allocating many sizes'), z))
        order = live if c.choose(True, False) else live[::-1]
        for x, z in order:
            c.call(x, 'DecRef')
        again = c.choose('none', 'clear', 'reallocate')
        if again == 'clear':
            c.call(fac, 'Clear')
            c.check(not [o for o in c.leaks() if o is not fac], 'clear-frees', 'Clear frees every recycled buffer')
        if again != 'none':
            live = []
            for k in range(reps + 1):
                for z in group:
                    live.append((chk_fresh(c, c.call(fac, 'Allocate', z), z, live, 'reallocating many sizes'), z))
            for x, z in live:
                c.call(x, 'DecRef')
        c.delete(fac)
        lk = c.leaks()
        c.check(not lk, 'everything-freed', 'destroying the factory frees every recycled buffer: %d allocation(s) left' % len(lk))
    s.explore('many-sizes', many)

    def stack(c):
        """many buffers of one size: all distinct, all reused, all freed"""
        fac = c.new(FAC)
        z = c.choose(8, 4096, 4097)
        n = 300
        bufs = [obj(c, c.call(fac, 'Allocate', z, types=['int'])) for i in range(n)]
        c.check(len({id(b) for b in bufs}) == n, 'stack-distinct', '%d buffers of size %d are distinct' % (n, z))
        order = c.choose(bufs, bufs[::-1], bufs[::2] + bufs[1::2])
        for b in order:
            c.call(b, 'DecRef')
        again = [obj(c, c.call(fac, 'Allocate', z, types=['int'])) for i in range(n)]
        c.check(len({id(b) for b in again}) == n, 'stack-distinct', '%d buffers of size %d allocated again are distinct' % (n, z))
        c.check(all(b.alive for b in again), 'stack-alive', 'buffers allocated again are live')
        for b in again:
            c.eq(rc(c, b), 1, 'stack-reference', 'reference count of a buffer allocated again')
            c.eq(c.call(b, 'size', targs=['unsigned char']), z, 'stack-size', 'size of a buffer allocated again')
        for b in again:
            c.call(b, 'DecRef')
        if c.choose(False, True):
            c.call(fac, 'Clear')
        c.delete(fac)
        c.check(not c.leaks(), 'leak', 'everything is freed')
    s.explore('many-buffers', stack)

    def large(c):
        """sizes beyond 16 bits are allocated, used and recycled in full"""
        fac = c.new(FAC)
        zs = c.choose((65535, 65536), (65536, 65540), (70000, 4464), (100000, 65536))
        bufs = [chk_fresh(c, c.call(fac, 'Allocate', z), z, [], 'allocating %d bytes' % z) for z in zs]
        for b, z in zip(bufs, zs):
            for i in (0, 1, 255, 4095, 4096, z // 2, z - 1):
                if i < z:
                    c.call(b, 'Set', i, i % 251, targs=['unsigned char'], types=['int', 'unsigned char'])
            c.eq(c.call(b, 'Get', z - 1, targs=['unsigned char']), (z - 1) % 251, 'large-storage', 'the last byte of a buffer of %d bytes is usable' % z)
        for b in bufs:
            c.call(b, 'DecRef')
        live = []
        for z in zs[::-1]:
            live.append((chk_fresh(c, c.call(fac, 'Allocate', z), z, live, 'reallocating %d bytes' % z), z))
            c.call(live[-1][0], 'Set', z - 1, 7, targs=['unsigned char'], types=['int', 'unsigned char'])
        for b, z in live:
            c.call(b, 'DecRef')
        c.delete(fac)
        c.check(not c.leaks(), 'everything-freed', 'destroying the factory frees every recycled buffer')
    s.explore('large-sizes', large, maxsteps=20000000)

    def typed(c):
        fac = c.new(FAC)
        name, w = c.choose(*INTS)
        n = c.choose(0, 1, 3, 600)
        db = c.call(fac, 'Allocate', n, targs=[name])
        o = chk_fresh(c, db, n * w // 8, [], 'typed allocation')
        for t, tw in INTS:
            c.eq(c.call(o, 'size', targs=[t]), n * w // tw, 'size-in-elements', 'size in elements of %s' % t)
        c.call(o, 'DecRef')
        db2 = c.call(fac, 'Allocate', n * w // 8)
        chk_fresh(c, db2, n * w // 8, [], 'reallocation')
        c.call(obj(c, db2), 'DecRef')
        c.delete(fac)
        c.check(not c.leaks(), 'everything-freed', 'destroying the factory frees every recycled buffer')
    s.explore('typed', typed)


# ---------------------------------------------------------------- P03
def fill(c, o, n, tag):
    bs = [c.sym('%s%d' % (tag, i), 8) for i in range(n)]
    for i, b in enumerate(bs):
        c.call(o, 'Set', i, b, targs=['unsigned char'], types=['int', 'unsigned char'])
    return bs


def byte(c, o, i):
    return c.call(o, 'Get', i, targs=['unsigned char'])


def run_access(s):
    def mk(c, n, tag='b'):
        fac = c.new(FAC)
        o = obj(c, c.call(fac, 'Allocate', n))
        return fac, o, fill(c, o, n, tag)

    def bytes_are(c, o, bs, oid, msg):
        for i, b in enumerate(bs):
            c.eq(byte(c, o, i), b, oid, '%s (byte %d)' % (msg, i))

    def element(n):
        def f(c):
            name, w = c.choose(*INTS)
            k = w // 8
            fac, o, bs = mk(c, n)
            idx = c.choose(*range(n // k))
            c.eq(c.call(o, 'Get', idx, targs=[name]), joinb(bs[idx * k:idx * k + k]), 'read', 'element %d of type %s' % (idx, name))
            v = c.sym('v', w)
            c.call(o, 'Set', idx, v, targs=[name], types=['int', name])
            for i in range(k):
                bs[idx * k + i] = extract(v, 8 * i + 7, 8 * i)
            bytes_are(c, o, bs, 'write', 'contents after setting element %d of type %s' % (idx, name))
            c.eq(c.call(o, 'Get', idx, targs=[name]), v, 'read-back', 'element %d of type %s reads back' % (idx, name))
        return f
    s.explore('element-8', element(8))
    s.explore('element-12', element(12))
    if s.thorough:
        s.explore('element-16', element(16))

    def bounds(write):
        def f(c):
            name, w = c.choose(*INTS)
            n = c.choose(8, 11)
            fac, o, bs = mk(c, n)
            idx = c.sym('index', 32)
            k = n // (w // 8)
            c.assume(lnot(ult(idx, const(k, 32))))
            try:
                if write:
                    c.call(o, 'Set', idx, c.sym('v', w), targs=[name], types=['int', name])
                else:
                    c.call(o, 'Get', idx, targs=[name])
            except PathEnd as e:
                if e.kind == 'abort':
                    c.check(True, 'rejected', '')
                    return
                raise
            c.check(False, 'rejected', 'an index outside the buffer is accepted')
        return f
    s.explore('bounds-get', bounds(False))
    s.explore('bounds-set', bounds(True))

    def dest(c, o, got):
        d = c.host('mpact::sim::generic::DataBufferDestination', 'dest', {'SetDataBuffer': lambda I, t, a: got.append(1)})
        c.call(o, 'set_destination', d)
        c.call(o, 'set_latency', 0)
        c.call(o, 'IncRef')

    def submit_bounds(c):
        """SetSubmit refuses what Set refuses"""
        name, w = c.choose(*INTS)
        n = c.choose(8, 11)
        fac, o, bs = mk(c, n)
        got = []
        dest(c, o, got)
        k = n // (w // 8)
        try:
            if c.choose(True, False):
                idx = c.sym('index', 32)
                c.assume(lnot(ult(idx, const(k, 32))))
                c.call(o, 'SetSubmit', idx, c.sym('v', w), targs=[name], types=['int', name])
            else:
                cnt = k + c.choose(1, 2)
                c.call(o, 'SetSubmit', span(c, [c.sym('v%d' % i, w) for i in range(cnt)], w, ty(c, name)), targs=[name])
        except PathEnd as e:
            if e.kind == 'abort':
                c.check(not got, 'rejected', 'a rejected write is delivered')
                return
            raise
        c.check(False, 'rejected', 'a submitted write outside the buffer is accepted')
    s.explore('bounds-submit', submit_bounds)

    def submit_write(c):
        name, w = c.choose(*INTS)
        n = c.choose(8, 12)
        k = w // 8
        fac, o, bs = mk(c, n)
        got = []
        dest(c, o, got)
        m = n // k
        if c.choose(True, False):
            idx = c.choose(*range(m))
            v = [c.sym('v', w)]
            c.call(o, 'SetSubmit', idx, v[0], targs=[name], types=['int', name])
        else:
            idx = 0
            v = [c.sym('v%d' % i, w) for i in range(c.choose(*sorted({0, 1, m // 2, m})))]
            c.call(o, 'SetSubmit', span(c, v, w, ty(c, name)), targs=[name])
        for i, x in enumerate(v):
            for j in range(k):
                bs[(idx + i) * k + j] = extract(x, 8 * j + 7, 8 * j)
        bytes_are(c, o, bs, 'submit-write', 'contents after a submitted write of %s' % name)
        c.check(len(got) == 1, 'submit-delivers', 'the written buffer is delivered once')
    s.explore('submit-write', submit_write)

    def spans(c):
        name, w = c.choose(*INTS)
        k = w // 8
        n = c.choose(16, 8, 13)
        fac, o, bs = mk(c, n)
        m = n // k
        sp = c.val(c.call(o, 'Get', targs=[name]))
        c.eq(sp.n, m, 'span-size', 'the span of %s covers every whole element' % name)
        if m:
            e = c.I.load(c.I.elem(sp.p.base, (sp.p.off if isinstance(sp.p.off, int) else cval(sp.p.off)) + (m - 1) * k, ty(c, name)))
            c.eq(e, joinb(bs[(m - 1) * k:m * k]), 'span-data', 'last element of the span')
        cnt = c.choose(*sorted({0, 1, m // 2, m}))
        vals = [c.sym('v%d' % i, w) for i in range(cnt)]
        c.call(o, 'Set', span(c, vals, w, ty(c, name)), targs=[name])
        for i, v in enumerate(vals):
            for j in range(k):
                bs[i * k + j] = extract(v, 8 * j + 7, 8 * j)
        bytes_are(c, o, bs, 'span-write', 'contents after setting a span of %d %s' % (cnt, name))
    s.explore('spans', spans)

    def span_too_long(c):
        name, w = c.choose(*INTS)
        n = 8
        fac, o, bs = mk(c, n)
        cnt = n // (w // 8) + c.choose(1, 2)
        try:
            c.call(o, 'Set', span(c, [c.sym('v%d' % i, w) for i in range(cnt)], w, ty(c, name)), targs=[name])
        except PathEnd as e:
            if e.kind == 'abort':
                c.check(True, 'rejected', '')
                return
            raise
        c.check(False, 'rejected', 'a span longer than the buffer is accepted')
    s.explore('span-too-long', span_too_long)

    def copies(c):
        n = c.choose(1, 3, 8, 13)
        fac, o, bs = mk(c, n)
        how = c.choose('make', 'from', 'bytes', 'to', 'recycled')
        if how in ('make', 'recycled'):
            if how == 'recycled':
                t = obj(c, c.call(fac, 'Allocate', n))
                fill(c, t, n, 'old')
                c.call(t, 'DecRef')
            q = obj(c, c.call(fac, 'MakeCopyOf', o))
            c.check(q is not o, 'copy-distinct', 'the copy is another buffer')
            c.eq(c.call(q, 'size', targs=['unsigned char']), n, 'copy-size', 'size of the copy')
            c.eq(rc(c, q), 1, 'copy-count', 'the copy has one reference')
            c.eq(rc(c, o), 1, 'source-count', 'the source keeps its reference count')
        elif how == 'from':
            q = obj(c, c.call(fac, 'Allocate', n))
            fill(c, q, n, 'old')
            c.call(q, 'CopyFrom', o)
        elif how == 'bytes':
            q = obj(c, c.call(fac, 'Allocate', n))
            src = Arr([c.sym('s%d' % i, 8) for i in range(n)], ty(c, 'unsigned char'), 1)
            c.call(q, 'CopyFrom', Ptr(base=src, off=0))
            bytes_are(c, q, src.items, 'copy-from-bytes', 'contents copied from memory')
            bytes_are(c, o, bs, 'source-unchanged', 'other buffers keep their contents')
            return
        else:
            dst = Arr([c.sym('s%d' % i, 8) for i in range(n + 2)], ty(c, 'unsigned char'), 1)
            keep = list(dst.items)
            c.call(o, 'CopyTo', Ptr(base=dst, off=0))
            for i in range(n):
                c.eq(dst.items[i], bs[i], 'copy-to', 'byte %d copied out' % i)
            for i in (n, n + 1):
                c.eq(dst.items[i], keep[i], 'copy-to-bound', 'bytes beyond the buffer are untouched')
            bytes_are(c, o, bs, 'source-unchanged', 'the source keeps its contents')
            return
        bytes_are(c, q, bs, 'copy-contents', 'contents of the copy')
        bytes_are(c, o, bs, 'source-unchanged', 'the source keeps its contents')
        v = c.sym('x', 8)
        c.call(q, 'Set', 0, v, targs=['unsigned char'], types=['int', 'unsigned char'])
        bytes_are(c, o, bs, 'copy-independent', 'writing the copy leaves the source alone')
    s.explore('copies', copies)

    def large(c):
        """buffers of more than 64 KiB are copied in full"""
        n = 65536 + 40
        fac = c.new(FAC)
        o = obj(c, c.call(fac, 'Allocate', n, types=['int']))
        how = c.choose('make', 'from', 'bytes', 'to')
        look = (0, 1, 39, 40, 255, 256, 4095, 4096, 32767, 32768, 65535, 65536, n - 2, n - 1)
        for i in look:
            c.call(o, 'Set', i, i * 7 % 251, targs=['unsigned char'], types=['int', 'unsigned char'])
        if how == 'to':
            dst = Arr([const(0, 8)] * n, ty(c, 'unsigned char'), 1)
            c.call(o, 'CopyTo', Ptr(base=dst, off=0))
            for i in look:
                c.eq(dst.items[i], i * 7 % 251, 'copy-large', 'byte %d copied out of a large buffer' % i)
            return
        if how == 'make':
            q = obj(c, c.call(fac, 'MakeCopyOf', o))
        else:
            q = obj(c, c.call(fac, 'Allocate', n, types=['int']))
            for i in look:
                c.call(q, 'Set', i, 255, targs=['unsigned char'], types=['int', 'unsigned char'])
        if how == 'from':
            c.call(q, 'CopyFrom', o)
        elif how == 'bytes':
            src = Arr([const(i * 7 % 251, 8) for i in range(n)], ty(c, 'unsigned char'), 1)
            c.call(q, 'CopyFrom', Ptr(base=src, off=0))
        for i in look:
            c.eq(byte(c, q, i), i * 7 % 251, 'copy-large', 'byte %d of a copied large buffer' % i)
    s.explore('copies-large', large, maxsteps=20000000)

    def mismatch(c):
        fac, o, bs = mk(c, 4)
        q = obj(c, c.call(fac, 'Allocate', c.choose(1, 2, 3, 5, 8)))
        try:
            c.call(q, 'CopyFrom', o)
        except PathEnd as e:
            if e.kind == 'abort':
                c.check(True, 'size-mismatch', '')
                return
            raise
        c.check(False, 'size-mismatch', 'copying between buffers of different size is accepted')
    s.explore('copy-mismatch', mismatch)


# ---------------------------------------------------------------- P04
class Dest(object):
    """a state item: keeps the newest buffer, releases the previous one"""

    def __init__(self, c, tag, hold=True):
        self.c, self.cur, self.calls, self.hold = c, None, [], hold
        self.h = c.host('mpact::sim::generic::DataBufferDestination', tag, {'SetDataBuffer': self.set})

    def set(self, I, this, args):
        p = args[0]
        o = self.c.val(p).t
        self.c.check(o.alive, 'delivered-alive', 'the delivered buffer is alive')
        self.calls.append(o)
        if self.hold:
            self.c.call(o, 'IncRef')
            if self.cur is not None:
                self.c.call(self.cur, 'DecRef')
            self.cur = o
        return None


def settle(c, fac, *bufs):
    """every buffer is back at the factory: allocations reuse each exactly once"""
    got = [obj(c, c.call(fac, 'Allocate', 4)) for _ in range(len(bufs) + 2)]
    for b in bufs:
        c.check(got.count(b) == 1, 'recycled', 'a buffer with no references left is recycled exactly once')
    c.check(len(set(map(id, got))) == len(got), 'recycled-once', 'no buffer is handed out twice')


def run_submit(s):
    LAT = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64]
    if s.thorough:
        LAT = list(range(0, 70))

    def submit(how):
        def f(c):
            fac = c.new(FAC)
            n0 = c.choose(None, 1, 2, 4)
            dl = c.new('mpact::sim::generic::DelayLine<mpact::sim::generic::DataBufferDelayRecord>', *([] if n0 is None else [n0]))
            d = Dest(c, 'dest', c.choose(True, False))
            o = obj(c, c.call(fac, 'Allocate', 4))
            lat = c.choose(*LAT)
            c.call(o, 'set_destination', d.h)
            c.call(o, 'set_delay_line', dl)
            c.call(o, 'set_latency', lat)
            c.eq(c.call(o, 'latency'), lat, 'latency', 'the stored latency')
            extra = c.choose(0, 1)
            for i in range(extra):
                c.call(o, 'IncRef')
            for i in range(c.choose(0, 1, 3)):
                c.call(dl, 'Advance')
            v = c.sym('value', 32)
            if how == 'explicit':
                c.call(o, 'set_latency', 6)
                c.call(o, 'Submit', lat)
            elif how == 'stored':
                c.call(o, 'Submit')
            elif how == 'set-submit':
                c.call(o, 'SetSubmit', 0, v, targs=['unsigned int'], types=['int', 'unsigned int'])
            else:
                c.call(o, 'SetSubmit', span(c, [v], 32, ty(c, 'unsigned int')), targs=['unsigned int'])
            for t in range(0, lat + 3):
                if t:
                    c.call(dl, 'Advance')
                want = 1 if t >= lat else 0
                c.check(len(d.calls) == want, 'when', '%s with latency %d: after %d cycle(s) the destination was updated %d time(s)' % (how, lat, t, len(d.calls)))
                c.eq(c.call(dl, 'IsEmpty'), t >= lat, 'pending', 'delay line emptiness after %d cycle(s)' % t)
                if t >= lat:
                    c.check(d.calls[0] is o if d.calls else False, 'what', 'the destination received the submitted buffer')
                if len(d.calls) != want:
                    return
                held = extra + (1 if (d.hold and t >= lat) else 0) + (1 if t < lat else 0)
                if held:
                    c.check(o.alive, 'kept', 'the buffer lives while referenced')
                    c.eq(rc(c, o), held, 'balance', '%s with latency %d consumes exactly the submitted reference (after %d cycles)' % (how, lat, t))
                    if 'set' in how and t >= lat:
                        c.eq(c.call(o, 'Get', 0, targs=['unsigned int']), v, 'value', 'the delivered value')
            if d.cur:
                c.call(d.cur, 'DecRef')
            for i in range(extra):
                c.call(o, 'DecRef')
            # exactly recycled: the next allocation of this size reuses it, once
            p = obj(c, c.call(fac, 'Allocate', 4))
            q = obj(c, c.call(fac, 'Allocate', 4))
            c.check(p is not q, 'recycled-once', 'the buffer is recycled at most once')
            c.check(p is o or q is o, 'recycled', 'the buffer is recycled once all references are gone')
            c.call(p, 'DecRef')
            c.call(q, 'DecRef')
            c.delete(dl)
        return f
    for how in ('explicit', 'stored', 'set-submit', 'set-submit-span'):
        s.explore('submit-' + how, submit(how), limit=6000)

    def again(c):
        """one buffer submitted repeatedly, also to another destination, each
        time with a reference of its own"""
        fac = c.new(FAC)
        dl = c.new('mpact::sim::generic::DelayLine<mpact::sim::generic::DataBufferDelayRecord>', 4)
        ds = [Dest(c, 'dest0', False), Dest(c, 'dest1', False)]
        o = obj(c, c.call(fac, 'Allocate', 4))
        c.call(o, 'set_delay_line', dl)
        c.call(o, 'set_destination', ds[0].h)
        lats = [c.choose(0, 1, 3), c.choose(0, 1, 2, 6), c.choose(0, 2)]
        gap = c.choose(0, 1, 4)
        other = c.choose(False, True)
        how = c.choose('explicit', 'stored')
        due = []
        now = 0
        for i, l in enumerate(lats):
            if i < 2:
                c.call(o, 'IncRef')
            to = 0
            if other and i == 1:
                c.call(o, 'set_destination', ds[1].h)
            if other and i >= 1:
                to = 1
            if how == 'explicit':
                c.call(o, 'Submit', l)
            else:
                c.call(o, 'set_latency', l)
                c.call(o, 'Submit')
            due.append((now + l, to))
            for j in range(gap):
                c.call(dl, 'Advance')
                now += 1
            for k in (0, 1):
                c.check(len(ds[k].calls) == sum(1 for t, x in due if x == k and t <= now), 'resubmit', 'a buffer submitted again (latencies %r) is delivered once per submission, to the destination of that submission' % (lats,))
        for j in range(8):
            c.call(dl, 'Advance')
            now += 1
            for k in (0, 1):
                c.check(len(ds[k].calls) == sum(1 for t, x in due if x == k and t <= now), 'resubmit', 'a buffer submitted again (latencies %r) is delivered once per submission, to the destination of that submission' % (lats,))
        c.eq(c.call(dl, 'IsEmpty'), True, 'pending', 'nothing is pending any more')
        c.delete(dl)
        settle(c, fac, o)
    s.explore('resubmitted', again)

    def zero_span(c):
        """submitting with an empty span writes nothing and still submits"""
        fac = c.new(FAC)
        dl = c.new('mpact::sim::generic::DelayLine<mpact::sim::generic::DataBufferDelayRecord>', 4)
        d = Dest(c, 'dest')
        o = obj(c, c.call(fac, 'Allocate', 4))
        bs = fill(c, o, 4, 'b')
        c.call(o, 'set_destination', d.h)
        c.call(o, 'set_delay_line', dl)
        l = c.choose(0, 2)
        c.call(o, 'set_latency', l)
        name, w = c.choose(('unsigned char', 8), ('unsigned int', 32), ('unsigned long', 64))
        c.call(o, 'SetSubmit', span(c, [], w, ty(c, name)), targs=[name])
        for t in range(4):
            c.check(len(d.calls) == (1 if t >= l else 0), 'empty-span', 'an empty span submitted with latency %d is delivered after %d cycle(s)' % (l, l))
            c.call(dl, 'Advance')
        for i in range(4):
            c.eq(byte(c, o, i), bs[i], 'empty-span', 'an empty span changes nothing')
    s.explore('empty-span', zero_span)

    def nodest(c):
        fac = c.new(FAC)
        dl = c.new('mpact::sim::generic::DelayLine<mpact::sim::generic::DataBufferDelayRecord>')
        o = obj(c, c.call(fac, 'Allocate', 4))
        if c.choose(True, False):
            c.call(o, 'set_destination', None)
            c.call(o, 'set_delay_line', dl)
        lat = c.choose(0, 1, 20)
        extra = c.choose(0, 1)
        for i in range(extra):
            c.call(o, 'IncRef')
        if c.choose(True, False):
            c.call(o, 'set_latency', lat)
        if c.choose(True, False):
            c.call(o, 'Submit')
        else:
            c.call(o, 'Submit', lat)
        c.eq(c.call(dl, 'IsEmpty'), True, 'dropped', 'a buffer without destination is dropped')
        if extra:
            c.eq(rc(c, o), 1, 'dropped-balance', 'dropping consumes exactly one reference')
            c.call(o, 'DecRef')
        c.delete(dl)
        settle(c, fac, o)
    s.explore('no-destination', nodest)

    def several(c):
        """several buffers for the same and different destinations in flight"""
        fac = c.new(FAC)
        dl = c.new('mpact::sim::generic::DelayLine<mpact::sim::generic::DataBufferDelayRecord>', c.choose(1, 4))
        ds = [Dest(c, 'dest0'), Dest(c, 'dest1')]
        lats = [c.choose(1, 2, 5), c.choose(1, 2, 8), c.choose(0, 1, 4)]
        adv = c.choose(0, 2)
        for i in range(adv):
            c.call(dl, 'Advance')
        bufs = []
        for i, l in enumerate(lats):
            o = obj(c, c.call(fac, 'Allocate', 4))
            d = ds[i % 2]
            c.call(o, 'set_destination', d.h)
            c.call(o, 'set_delay_line', dl)
            c.call(o, 'Submit', l)
            bufs.append((o, d, l))
        for t in range(0, 10):
            if t:
                c.call(dl, 'Advance')
            for o, d, l in bufs:
                c.check(d.calls.count(o) == (1 if t >= l else 0), 'each-once', 'latencies %r: buffer with latency %d delivered %d time(s) after %d cycle(s)' % (lats, l, d.calls.count(o), t))
        for d in ds:
            if d.cur:
                c.call(d.cur, 'DecRef')
        c.delete(dl)
        settle(c, fac, o)
    s.explore('several', several)

    def dropped_line(c):
        """a delay line destroyed with pending updates releases them"""
        fac = c.new(FAC)
        dl = c.new('mpact::sim::generic::DelayLine<mpact::sim::generic::DataBufferDelayRecord>', 4)
        d = Dest(c, 'dest')
        o = obj(c, c.call(fac, 'Allocate', 4))
        c.call(o, 'set_destination', d.h)
        c.call(o, 'set_delay_line', dl)
        c.call(o, 'IncRef')
        c.call(o, 'Submit', c.choose(1, 3, 6))
        if c.choose(True, False):
            p = obj(c, c.call(fac, 'Allocate', 4))
            c.call(p, 'set_destination', d.h)
            c.call(p, 'set_delay_line', dl)
            c.call(p, 'Submit', 9)
        c.delete(dl)
        c.eq(rc(c, o), 1, 'abandoned', 'destroying the delay line releases pending references')
        c.check(not d.calls, 'abandoned-silent', 'destroying the delay line delivers nothing')
        c.call(o, 'DecRef')
        settle(c, fac, o)
    s.explore('abandoned', dropped_line)


PROPS = {
    'P01': dict(sources=SRC, run=run_ref, rule='typestate of the reference count along every bounded acquire/release history: count equals acquisitions minus releases, notification exactly at zero, release below zero rejected'),
    'P02': dict(sources=SRC, run=run_factory, rule='ownership analysis of allocate/release/clear histories: sizes, uniqueness of live buffers, counts and exactly-once release of the storage'),
    'P03': dict(sources=SRC, run=run_access, rule='byte-provenance of every element/span access and copy for symbolic contents; out-of-range accesses are rejected before memory is touched'),
    'P04': dict(sources=SRC, run=run_submit, rule='reference balance and delivery effects of submission for enumerated latencies and ring states'),
}
