"""Memories: flat, demand allocated, tagged, atomic, watched, routed, cached."""
from rules.util import *
import lib

N = 'mpact/sim/generic/'
U = 'mpact/sim/util/memory/'
BASE = ['units/memory.cc'] + [N + x + '.cc' for x in (
    'arch_state', 'component', 'instruction', 'data_buffer', 'state_item_base', 'program_error', 'simple_resource', 'resource_bitset')]
G = 'mpact::sim::generic::'
M = 'mpact::sim::util::'
MASK64 = (1 << 64) - 1


class World(object):
    """buffers, instructions and simulated time of one client of a memory"""

    def __init__(self, c):
        self.c = c
        self.fac = c.new(G + 'DataBufferFactory')
        self.st = None
        self.log = []
        self.now = 0
        self.n = 0
        self.made = []

    def state(self):
        if self.st is None:
            self.st = self.c.new('verif_unit::State', 'cpu')
        return self.st

    def db(self, bts, latency=0):
        c = self.c
        d = obj(c, c.call(self.fac, 'Allocate', len(bts), types=['int']))
        for i, b in enumerate(bts):
            c.call(d, 'Set', i, b, targs=['unsigned char'], types=['int', 'unsigned char'])
        c.call(d, 'set_latency', latency)
        self.made.append(d)
        return d

    def fresh(self, n):
        self.n += 1
        return [self.c.sym('d%d_%d' % (self.n, i), 8) for i in range(n)]

    def words(self, vals):
        """a buffer of 64 bit values"""
        out = []
        for v in vals:
            v = const(v & MASK64, 64) if not isinstance(v, T) else v
            out += splitb(v)
        return self.db(out)

    def bools(self, vals):
        return self.db([const(int(v), 8) if not isinstance(v, T) else v for v in vals])

    def bytes(self, d, n):
        return [self.c.val(self.c.call(d, 'Get', i, targs=['unsigned char'])) for i in range(n)]

    def inst(self, tag):
        c = self.c
        i = c.new(G + 'Instruction', 0, self.state())

        def run(I, a):
            ctx = c.val(c.call(i, 'context'))
            self.log.append((self.now, tag, ctx.t if isinstance(ctx, Ptr) and not ctx.isnull else None))
        c.call(i, 'set_semantic_function', c.fn(run))
        return i

    def context(self):
        return self.c.new('verif_unit::Context')

    def advance(self):
        self.now += 1
        self.c.call(self.st, 'AdvanceDelayLines')


def load_protocol(c, w, issue, what):
    """issue(db latency, inst, context) starts a load: the instruction is executed once, on time, with the context, both kept alive until then"""
    lat = c.choose(0, 1, 3)
    mode = c.choose('inst+context', 'inst', 'none')
    what += ', latency %d, %s' % (lat, mode)
    inst = w.inst('i') if mode != 'none' else None
    ctx = w.context() if mode == 'inst+context' else None
    if inst is None:
        w.state()
    issue(lat, inst, ctx)
    # the issuer may drop its references at once
    early = bool(lat) and c.choose(True, False)
    if early:
        for o in (inst, ctx):
            if o is not None:
                c.call(o, 'DecRef')
    for t in range(lat + 2):
        due = inst is not None and t == lat
        want = [(lat, 'i', ctx)] if inst is not None and t >= lat else []
        c.check(len(w.log) == len(want), 'executed-on-time', '%s: after %d cycles the instruction was executed %d times, required %d' % (what, t, len(w.log), len(want)))
        if want and w.log:
            c.check(w.log[0][2] is ctx, 'context', '%s: the instruction sees the context of the load' % what)
        if early and t < lat:
            c.check(inst is None or inst.alive, 'instruction-kept', '%s: the instruction is kept until it is executed' % what)
            c.check(ctx is None or ctx.alive, 'context-kept', '%s: the context is kept until the instruction is executed' % what)
        if t <= lat:
            w.advance()
    for o in (inst, ctx):
        if o is not None:
            if early:
                c.check(not o.alive, 'released', '%s: the reference taken for the load is released' % what)
            else:
                c.eq(c.call(o, 'ref_count'), 1, 'released', '%s: references left after the load' % what)


class Flat(object):
    """byte map model of a memory at [base, base + size)"""

    def __init__(self, base, size, fill, unit=1):
        self.base, self.size, self.fill, self.unit = base, size, fill, unit
        self.m = {}

    def get(self, addr, n):
        o = (addr - self.base) * self.unit
        return [self.m.get(o + i, const(self.fill, 8)) for i in range(n)]

    def put(self, addr, bts):
        o = (addr - self.base) * self.unit
        for i, b in enumerate(bts):
            self.m[o + i] = b


def same_bytes(c, got, want, oid, what):
    for i, (g, x) in enumerate(zip(got, want)):
        c.eq(g, x, oid, '%s: byte %d' % (what, i))


def elements(addrs, n, el, unit=1):
    """the address of every element of a vector access"""
    return [addrs[i] if len(addrs) > 1 else (addrs[0] + i * (el // unit)) & MASK64 for i in range(n)]


def vec_shapes(c, a):
    """(addresses, mask, element size) of a vector access around address a"""
    el = c.choose(1, 2, 4, 8)
    addrs = c.choose([a], [a + 3 * el, a, a + el + 1], [a])
    mask = c.choose([1, 1, 1], [0, 1, 0], [1, 0, 1], [0, 0, 0])
    return addrs, mask, el


def do_vstore(c, w, mem, addrs, mask, el, data):
    c.call(mem, 'Store', w.words(addrs), w.bools(mask), el, w.db(data), types=[None, None, 'int', None])


def apply_vstore(model, addrs, mask, el, data):
    for i, a in enumerate(elements(addrs, len(mask), el, model.unit)):
        if mask[i]:
            model.put(a, data[i * el:(i + 1) * el])


def sload(c, w, mem, a, n):
    d = w.db([const(0xee, 8)] * n)
    c.call(mem, 'Load', const(a & MASK64, 64), d, None, None)
    return w.bytes(d, n)


def sstore(c, w, mem, a, data):
    c.call(mem, 'Store', const(a & MASK64, 64), w.db(data))


def vload(c, w, mem, addrs, mask, el, n=None):
    old = w.fresh(el * len(mask))
    d = w.db(old)
    c.call(mem, 'Load', w.words(addrs), w.bools(mask), el, d, None, None, types=[None, None, 'int', None, None, None])
    return old, w.bytes(d, len(old))


def expect_vload(model, addrs, mask, el, old):
    want = list(old)
    for i, a in enumerate(elements(addrs, len(mask), el, model.unit)):
        if mask[i]:
            want[i * el:(i + 1) * el] = model.get(a, el)
    return want


def history(c, w, mem, model, spots, ops, steps=2, sizes=(1, 3, 4, 8, 20)):
    """stores of symbolic data, then loads of everything around"""
    what = ''
    for s in range(steps):
        a = c.choose(*spots)
        op = c.choose(*ops)
        if op == 'store':
            n = c.choose(*sizes)
            data = w.fresh(n)
            sstore(c, w, mem, a, data)
            model.put(a, data)
            what += ' store %d at %#x;' % (n, a)
        elif op == 'vstore':
            addrs, mask, el = vec_shapes(c, a)
            data = w.fresh(el * len(mask))
            do_vstore(c, w, mem, addrs, mask, el, data)
            apply_vstore(model, addrs, mask, el, data)
            what += ' vector store of %d byte elements at %s, mask %r;' % (el, [hex(x) for x in addrs], mask)
    return what


def run_flat(s):
    DEM = M + 'FlatDemandMemory'

    def make(c, kind):
        """memory, model, interesting addresses, last valid address"""
        w = World(c)
        if kind == 'flat':
            base, fill = c.choose((0, 0), (0x1000, 0xab))
            mem = c.new(M + 'FlatMemory', 96, base, 1, fill)
            return w, mem, Flat(base, 96, fill), [base, base + 13, base + 60]
        cfg = c.choose('default', 'base', 'sized')
        if cfg == 'default':
            mem = c.new(DEM)
            return w, mem, Flat(0, MASK64, 0), [0, 0x3ffd, 0x1234_5678_9abc_bffa]
        if cfg == 'base':
            mem = c.new(DEM, const(0x8000_0000, 64), types=['unsigned long'])
            return w, mem, Flat(0x8000_0000, MASK64 - 0x8000_0000, 0), [0x8000_0000, 0x8000_3ff9]
        base = 0x3ff8
        mem = c.new(DEM, const(96, 64), const(base, 64), 1, 0x5c)
        return w, mem, Flat(base, 96, 0x5c), [base, base + 3, base + 60]

    def verify(c, w, mem, model, spots, what, last):
        how = c.choose('bytes', 'block', 'gather', 'stride')
        lo = c.choose(*spots) if s.thorough else last
        lo = max(lo - 4, model.base)
        n = min(36, model.base + model.size - lo)
        if how == 'bytes':
            for a in range(lo, lo + n, 3):
                same_bytes(c, sload(c, w, mem, a, 1), model.get(a, 1), 'load', 'after%s load of 1 byte at %#x' % (what, a))
        elif how == 'block':
            same_bytes(c, sload(c, w, mem, lo, n), model.get(lo, n), 'load', 'after%s load of %d bytes at %#x' % (what, n, lo))
        else:
            el = c.choose(1, 2, 4, 8) if s.thorough else c.choose(2, 8)
            addrs = [lo + 2 * el, lo + 1, lo, lo + 3 * el] if how == 'gather' else [lo]
            mask = c.choose([1, 1, 1, 1], [0, 1, 0, 1])
            old, got = vload(c, w, mem, addrs, mask, el)
            same_bytes(c, got, expect_vload(model, addrs, mask, el, old), 'vector-load',
                       'after%s vector load of %d byte elements at %s, mask %r' % (what, el, [hex(x) for x in addrs], mask))

    def hist(kind):
        def f(c):
            w, mem, model, spots = make(c, kind)
            what = history(c, w, mem, model, spots, ('store', 'vstore') if s.thorough else ('store',), 1, (1, 3, 4, 8, 20) if s.thorough else (3, 20))
            # a second store over or beside the first
            a = c.choose(*spots) + 2
            n = c.choose(1, 8)
            data = w.fresh(n)
            sstore(c, w, mem, a, data)
            model.put(a, data)
            what += ' store %d at %#x;' % (n, a)
            verify(c, w, mem, model, spots, what, a)
        return f

    def vhist(kind):
        def f(c):
            w, mem, model, spots = make(c, kind)
            a = c.choose(*spots)
            d0 = w.fresh(32)
            sstore(c, w, mem, a, d0)
            model.put(a, d0)
            addrs, mask, el = vec_shapes(c, a)
            data = w.fresh(el * len(mask))
            do_vstore(c, w, mem, addrs, mask, el, data)
            apply_vstore(model, addrs, mask, el, data)
            got = sload(c, w, mem, a, 34)
            same_bytes(c, got, model.get(a, 34), 'vector-store', 'after a vector store of %d byte elements at %s, mask %r' % (el, [hex(x) for x in addrs], mask))
        return f

    def templates(kind):
        """Load<T>/Store<T> use the size of T"""
        def f(c):
            w, mem, model, spots = make(c, kind)
            a = spots[1]
            data = w.fresh(12)
            c.call(mem, 'Store', w.words([a]), w.bools([1, 0, 1]), w.db(data), targs=['unsigned int'])
            apply_vstore(model, [a], [1, 0, 1], 4, data)
            same_bytes(c, sload(c, w, mem, a, 16), model.get(a, 16), 'vector-store', 'after Store<uint32_t>')
            old = w.fresh(12)
            d = w.db(old)
            c.call(mem, 'Load', w.words([a + 4, a + 8, a]), w.bools([1, 1, 0]), d, None, None, targs=['unsigned int'])
            same_bytes(c, w.bytes(d, 12), expect_vload(model, [a + 4, a + 8, a], [1, 1, 0], 4, old), 'vector-load', 'Load<uint32_t>')
        return f

    def units(kind):
        """memories addressed in units of several bytes"""
        def f(c):
            w = World(c)
            unit = c.choose(2, 4, 8)
            base = c.choose(0, 0x3ffe)
            if kind == 'flat':
                mem = c.new(M + 'FlatMemory', 16, base, unit, 7)
            else:
                mem = c.new(DEM, const(16, 64), const(base, 64), unit, 7)
            model = Flat(base, 16, 7, unit)
            for i in range(2):
                a = base + c.choose(0, 3)
                n = c.choose(8, 24)
                data = w.fresh(n)
                sstore(c, w, mem, a, data)
                model.put(a, data)
            for a, n in ((base, 8), (base + 1, 16), (base + 3, 40 if unit > 2 else 24), (base + 16 - 8 // unit, 8)):
                same_bytes(c, sload(c, w, mem, a, n), model.get(a, n), 'load', 'unit size %d: load of %d bytes at %#x' % (unit, n, a))
            addrs = c.choose([base + 3, base, base + 5], [base + 1])
            el = c.choose(*[e for e in (2, 4, 8) if e >= unit])
            mask = c.choose([1, 1, 1], [1, 0, 1])
            data = w.fresh(3 * el)
            do_vstore(c, w, mem, addrs, mask, el, data)
            apply_vstore(model, addrs, mask, el, data)
            kind_ = 'a scatter' if len(addrs) > 1 else 'a unit stride store'
            same_bytes(c, sload(c, w, mem, base, 32), model.get(base, 32), 'vector-store', 'unit size %d: after %s of %d byte elements' % (unit, kind_, el))
            old, got = vload(c, w, mem, addrs, mask, el)
            kind_ = 'gather' if len(addrs) > 1 else 'unit stride load'
            same_bytes(c, got, expect_vload(model, addrs, mask, el, old), 'vector-load', 'unit size %d: %s of %d byte elements' % (unit, kind_, el))
        return f

    def bounds(kind):
        """no access outside the range of the memory takes place"""
        def f(c):
            w = World(c)
            base = 0x1000
            if kind == 'flat':
                mem = c.new(M + 'FlatMemory', 96, base, 1, 0)
            else:
                mem = c.new(DEM, const(96, 64), const(base, 64), 1, 0)
            op = c.choose('store', 'vstore', 'vstride', 'vload', 'vlstride') if kind == 'demand' else c.choose('load', 'store', 'vstore', 'vstride', 'vload', 'vlstride')
            n = c.choose(1, 4, 8)
            a = c.choose(c.sym('a', 64), None)
            if a is None:
                a = const(c.choose(base - 1, base + 96, base + 96 - n + 1), 64)
            else:
                # any address that is outside, apart from those that wrap around the address space
                c.assume(lor(ult(a, const(base, 64)), ult(const(base + 96 - n, 64), a)))
                c.assume(ult(a, const(MASK64 - 63, 64)))

            def go():
                if op == 'load':
                    c.call(mem, 'Load', a, w.db(w.fresh(n)), None, None)
                elif op == 'store':
                    c.call(mem, 'Store', a, w.db(w.fresh(n)))
                else:
                    ads = [a, base] if op in ('vstore', 'vload') else [a]
                    ads = c.choose(ads, ads[::-1])
                    if op in ('vstore', 'vstride'):
                        c.call(mem, 'Store', w.words(ads), w.bools([1, 1] if len(ads) > 1 else [1]), n, w.db(w.fresh(2 * n)), types=[None, None, 'int', None])
                    else:
                        c.call(mem, 'Load', w.words(ads), w.bools([1, 1] if len(ads) > 1 else [1]), n, w.db(w.fresh(2 * n)), None, None,
                               types=[None, None, 'int', None, None, None])
            aborts(c, go, 'rejected', '%s of %d bytes outside the memory is rejected' % (op, n))
        return f

    def edges(kind):
        """every access inside the range is served"""
        def f(c):
            w = World(c)
            base = 0x1000
            if kind == 'flat':
                mem = c.new(M + 'FlatMemory', 96, base, 1, 0)
            else:
                mem = c.new(DEM, const(96, 64), const(base, 64), 1, 0)
            n = c.choose(1, 4, 8, 96)
            a = base + c.choose(0, 96 - n)
            data = w.fresh(n)
            sstore(c, w, mem, a, data)
            same_bytes(c, sload(c, w, mem, a, n), data, 'load', 'access of %d bytes at the edge' % n)
            if n <= 8:
                data = w.fresh(n)
                do_vstore(c, w, mem, [a], [1], n, data)
                same_bytes(c, vload(c, w, mem, [a], [1], n)[1], data, 'vector-load', 'access of %d bytes at the edge' % n)
                # masked off elements are not accessed
                do_vstore(c, w, mem, [a, base + 200, 3], [1, 0, 0], n, w.fresh(3 * n))
                vload(c, w, mem, [base - 8, a, base + 96], [0, 1, 0], n)
        return f

    def top(c):
        """a demand memory without a size covers the address space up to its end"""
        w = World(c)
        if c.choose(True, False):
            mem = c.new(DEM)
        else:
            mem = c.new(DEM, const(0x8000_0000, 64), types=['unsigned long'])
        a = MASK64 - 20
        data = w.fresh(8)
        sstore(c, w, mem, a, data)
        same_bytes(c, sload(c, w, mem, a, 8), data, 'load', 'access at the top of the address space')
        do_vstore(c, w, mem, [a], [1, 1], 4, data)
        same_bytes(c, vload(c, w, mem, [a], [1, 1], 4)[1], data, 'vector-load', 'access at the top of the address space')

    def deliver(kind):
        def f(c):
            w, mem, model, spots = make(c, kind) if kind == 'flat' else (World(c), None, Flat(0, 1 << 30, 0), [0x3ffd])
            if mem is None:
                mem = c.new(DEM)
            a = spots[0]
            data = w.fresh(4)
            sstore(c, w, mem, a, data)
            vec = c.choose(True, False)
            bufs = []

            def issue(lat, inst, ctx):
                d = w.db([const(0, 8)] * 4, lat)
                bufs.append(d)
                if vec:
                    c.call(mem, 'Load', w.words([a]), w.bools([1, 1]), 2, d, inst, ctx, types=[None, None, 'int', None, None, None])
                else:
                    c.call(mem, 'Load', const(a, 64), d, inst, ctx)
                same_bytes(c, w.bytes(d, 4), data, 'load', 'load with an instruction')
            load_protocol(c, w, issue, '%s load' % ('vector' if vec else 'scalar'))
            c.eq(c.call(bufs[0], 'ref_count'), 1, 'buffer-reference', 'references to the data buffer after the load')
        return f

    def release(kind):
        """the memory owns its storage"""
        def f(c):
            w = World(c)
            base = set(map(id, c.leaks()))
            if kind == 'flat':
                mem = c.new(M + 'FlatMemory', 64, 1, 0)
                addrs = (0, 10)
            else:
                mem = c.new(DEM)
                addrs = c.choose((), (5,), (5, 0x10005, 0x3ffe))
            for a in addrs:
                d = w.db(w.fresh(4))
                c.call(mem, 'Store', const(a, 64), d)
                c.eq(c.call(d, 'ref_count'), 1, 'buffer-reference', 'references to the data buffer after the store')
                c.call(d, 'DecRef')
            if kind == 'demand' and c.choose(True, False):
                c.call(mem, 'Clear')
                for a in addrs:
                    same_bytes(c, sload(c, w, mem, a, 4), [const(0, 8)] * 4, 'cleared', 'load after Clear')
                    c.call(w.made[-1], 'DecRef')
            if c.choose(True, False):
                c.delete(mem)
                c.delete(w.fac)
                left = [o for o in c.leaks() if id(o) not in base]
                c.check(not left, 'leak', 'the storage of the memory is released with it')
        return f

    for k in ('flat', 'demand'):
        s.explore('history-' + k, hist(k), limit=9000 if not s.thorough else 40000)
        s.explore('vector-' + k, vhist(k))
        s.explore('templates-' + k, templates(k))
        s.explore('units-' + k, units(k))
        s.explore('bounds-' + k, bounds(k))
        s.explore('edges-' + k, edges(k))
        s.explore('deliver-' + k, deliver(k))
        s.explore('release-' + k, release(k))
    s.explore('top', top)


class Tagged(Flat):
    """byte map plus one tag per granule"""

    def __init__(self, base, size, fill, gran, unit=1):
        Flat.__init__(self, base, size, fill, unit)
        self.gran = gran
        self.tags = {}

    def clear(self, addr, n):
        b = addr * self.unit
        for g in range(b // self.gran, (b + n - 1) // self.gran + 1):
            self.tags.pop(g, None)

    def tput(self, addr, tags):
        for i, t in enumerate(tags):
            self.tags[addr * self.unit // self.gran + i] = t

    def tget(self, addr, n):
        return [self.tags.get(addr * self.unit // self.gran + i, const(0, 8)) for i in range(n)]


def tload(c, w, mem, a, n, gran, data=True):
    """tagged load; with data=False a load of the tags only"""
    d = w.db([const(0xee, 8)] * (n * gran)) if data else None
    t = w.db([const(0xee, 8)] * n)
    c.call(mem, 'Load', const(a, 64), d, t, None, None)
    return (w.bytes(d, n * gran) if data else None), w.bytes(t, n)


def tstore(c, w, mem, a, data, tags):
    c.call(mem, 'Store', const(a, 64), w.db(data), w.db(tags))


def tagged_same(c, w, mem, model, lo, n, what):
    """all data and tags of n granules from lo"""
    g = model.gran
    data, tags = tload(c, w, mem, lo, n, g)
    same_bytes(c, data, model.get(lo, n * g), 'data', 'after%s tagged load of %d granules at %#x, data' % (what, n, lo))
    same_bytes(c, tags, model.tget(lo, n), 'tags', 'after%s tagged load of %d granules at %#x, tags' % (what, n, lo))
    if c.choose(True, False):
        _, tags = tload(c, w, mem, lo, n, g, False)
        same_bytes(c, tags, model.tget(lo, n), 'tags-only', 'after%s load of only the tags of %d granules at %#x' % (what, n, lo))
    else:
        same_bytes(c, sload(c, w, mem, lo + 1, n * g - 1), model.get(lo + 1, n * g - 1), 'data', 'after%s untagged load' % what)


def tagged_history(c, w, mem, model, a, what=' '):
    g = model.gran
    data, tags = w.fresh(4 * g), w.fresh(4)
    tstore(c, w, mem, a, data, tags)
    model.put(a, data)
    model.tput(a, tags)
    what += 'tagged store of 4 granules at %#x;' % a
    op = c.choose('store', 'tstore', 'vstore', 'vstride', 'none')
    if op == 'store':
        b = a + c.choose(0, 1, g - 1, g, 2 * g + 1)
        n = c.choose(1, g, g + 1, 2 * g) if g > 1 else c.choose(1, 2)
        data = w.fresh(n)
        sstore(c, w, mem, b, data)
        model.put(b, data)
        model.clear(b, n)
        what += ' untagged store of %d at %#x;' % (n, b)
    elif op == 'tstore':
        b = a + c.choose(0, g, 3 * g)
        n = c.choose(1, 2)
        data, tags = w.fresh(n * g), w.fresh(n)
        tstore(c, w, mem, b, data, tags)
        model.put(b, data)
        model.tput(b, tags)
        what += ' tagged store of %d granules at %#x;' % (n, b)
    elif op in ('vstore', 'vstride'):
        el = c.choose(1, 2, 8)
        addrs = [a + 1] if op == 'vstride' else [a + 3 * g, a, a + g + (1 if g > 1 else 0)]
        mask = c.choose([1, 1, 1], [0, 1, 0], [0, 0, 1], [1, 0, 0])
        data = w.fresh(3 * el)
        do_vstore(c, w, mem, addrs, mask, el, data)
        for i, x in enumerate(elements(addrs, 3, el)):
            if mask[i]:
                model.put(x, data[i * el:(i + 1) * el])
                model.clear(x, el)
        what += ' vector store of %d byte elements at %s, mask %r;' % (el, [hex(x) for x in addrs], mask)
    return what


def run_tagged(s):
    TAG = M + 'TaggedFlatDemandMemory'

    def make(c):
        w = World(c)
        g = c.choose(8, 16, 1)
        cfg = c.choose('default', 'base', 'sized', 'full')
        if cfg == 'default':
            mem = c.new(TAG, const(g, 32), types=['unsigned int'])
            return w, mem, Tagged(0, MASK64, 0, g), [0, 0x4000 * g - 2 * g]
        if cfg == 'base':
            mem = c.new(TAG, const(0x8000_0000, 64), const(g, 32))
            return w, mem, Tagged(0x8000_0000, MASK64 - 0x8000_0000, 0, g), [0x8000_0000, 0x8000_4000 - g]
        if cfg == 'sized':
            n = max(20 * g, 64)
            mem = c.new(TAG, const(n, 64), const(0x1000, 64), const(g, 32))
            return w, mem, Tagged(0x1000, n, 0, g), [0x1000, 0x1000 + (14 if g > 1 else 32) * g]
        mem = c.new(TAG, const(20 * g + 64, 64), const(0x1000, 64), 1, 0x6d, const(g, 32))
        return w, mem, Tagged(0x1000, 20 * g + 64, 0x6d, g), [0x1000 + g]

    def hist(c):
        w, mem, model, spots = make(c)
        a = c.choose(*spots)
        what = tagged_history(c, w, mem, model, a)
        tagged_same(c, w, mem, model, a, 6, what)

    def units(c):
        """addressable units of several bytes: a granule is so many bytes, not units"""
        w = World(c)
        unit = c.choose(2, 4, 8)
        g = c.choose(8, 16)
        base = 0x1000
        n = 16 * g // unit
        mem = c.new(TAG, const(n, 64), const(base, 64), unit, 0x6d, const(g, 32))
        model = Tagged(base, n, 0x6d, g, unit)
        data, tags = w.fresh(6 * g), w.fresh(6)
        a = base + g // unit * c.choose(0, 3)
        tstore(c, w, mem, a, data, tags)
        model.put(a, data)
        model.tput(a, tags)
        what = 'unit size %d, granule %d: ' % (unit, g)
        op = c.choose('none', 'store', 'vstore', 'vstride', 'tstore')
        if op == 'store':
            b = a + c.choose(0, 1, g // unit, 2 * g // unit - 1)
            k = c.choose(8, 16)
            d = w.fresh(k)
            sstore(c, w, mem, b, d)
            model.put(b, d)
            model.clear(b, k)
            what += 'store of %d bytes at unit %#x, ' % (k, b)
        elif op == 'tstore':
            b = a + g // unit * 2
            d, t = w.fresh(2 * g), w.fresh(2)
            tstore(c, w, mem, b, d, t)
            model.put(b, d)
            model.tput(b, t)
        elif op != 'none':
            addrs = [a + 1] if op == 'vstride' else [a + 3 * g // unit, a, a + g // unit + 1]
            mask = c.choose([1, 0, 1], [0, 1, 0])
            d = w.fresh(24)
            do_vstore(c, w, mem, addrs, mask, 8, d)
            apply_vstore(model, addrs, mask, 8, d)
            for i, x in enumerate(elements(addrs, 3, 8, unit)):
                if mask[i]:
                    model.clear(x, 8)
            what += 'vector store of 8 byte elements at %s, mask %r, ' % ([hex(x) for x in addrs], mask)
        d, t = tload(c, w, mem, a, 6, g)
        same_bytes(c, d, model.get(a, 6 * g), 'data', what + 'tagged load, data')
        same_bytes(c, t, model.tget(a, 6), 'tags', what + 'tagged load, tags')
        b = a + g // unit * 4
        _, t = tload(c, w, mem, b, 2, g, False)
        same_bytes(c, t, model.tget(b, 2), 'tags-only', what + 'load of only tags')

    def initial(c):
        w, mem, model, spots = make(c)
        tagged_same(c, w, mem, model, c.choose(*spots), 3, ' creation')

    def vloads(c):
        w, mem, model, spots = make(c)
        g = model.gran
        a = spots[0]
        data = w.fresh(8 * g)
        tstore(c, w, mem, a, data, w.fresh(8))
        model.put(a, data)
        addrs, mask, el = vec_shapes(c, a) if g >= 8 else ([a, a + 2, a + 1], [1, 0, 1], 2)
        old, got = vload(c, w, mem, addrs, mask, el)
        same_bytes(c, got, expect_vload(model, addrs, mask, el, old), 'vector-load', 'untagged vector load')

    def edge(c):
        """a granule that is only partly inside the memory"""
        w = World(c)
        g = 16
        extra = c.choose(1, 8, 15)
        mem = c.new(TAG, const(g + extra, 64), const(0x1000, 64), const(g, 32))
        data = w.fresh(1)
        sstore(c, w, mem, 0x1000 + g + extra - 1, data)
        same_bytes(c, sload(c, w, mem, 0x1000 + g + extra - 1, 1), data, 'data', 'the last byte of the memory')
        _, t = tload(c, w, mem, 0x1000 + g, 1, g, False)
        same_bytes(c, t, [const(0, 8)], 'tags', 'tag of the last, partial granule')

    def top(c):
        w = World(c)
        g = c.choose(8, 16)
        mem = c.new(TAG, const(g, 32), types=['unsigned int'])
        a = (MASK64 + 1) - 3 * g
        data, tags = w.fresh(g), w.fresh(1)
        tstore(c, w, mem, a, data, tags)
        d, t = tload(c, w, mem, a, 1, g)
        same_bytes(c, d + t, data + tags, 'data', 'granule at the top of the address space')
        sstore(c, w, mem, a + g, w.fresh(g))
        sstore(c, w, mem, a + 2 * g, w.fresh(g - 1))

    def invalid(c):
        """a request that does not fit the granules has no effect"""
        w, mem, model, spots = make(c)
        g = model.gran
        if g == 1:
            return
        a = spots[0]
        data, tags = w.fresh(4 * g), w.fresh(4)
        tstore(c, w, mem, a, data, tags)
        model.put(a, data)
        model.tput(a, tags)
        ba, bn, bt = c.choose((a + 1, g, 1), (a + g - 1, g, 1), (a, g + 1, 1), (a, 2 * g, 1), (a, g, 2), (a, g - 1, 1))
        what = 'tagged access of %d bytes with %d tags at %#x (granule %d)' % (bn, bt, ba, g)
        if c.choose(True, False):
            tstore(c, w, mem, ba, w.fresh(bn), w.fresh(bt))
        else:
            od, ot = w.fresh(bn), w.fresh(bt)
            d, t = w.db(od), w.db(ot)
            inst = w.inst('i')
            c.call(mem, 'Load', const(ba, 64), d, t, inst, None)
            same_bytes(c, w.bytes(d, bn) + w.bytes(t, bt), od + ot, 'rejected', what + ' leaves the buffers')
        tagged_same(c, w, mem, model, a, 4, ' a rejected ' + what)

    def deliver(c):
        w = World(c)
        mem = c.new(TAG, const(8, 32), types=['unsigned int'])
        kind = c.choose('tagged', 'tags', 'plain', 'vector')
        data, tags = w.fresh(8), w.fresh(1)
        tstore(c, w, mem, 0x1000, data, tags)
        bufs = []

        def issue(lat, inst, ctx):
            d = w.db([const(0, 8)] * 8, lat)
            t = w.db([const(0, 8)], lat if kind == 'tags' else 7)
            a = const(0x1000, 64)
            bufs.extend([d, t])
            if kind == 'tagged':
                c.call(mem, 'Load', a, d, t, inst, ctx)
            elif kind == 'tags':
                c.call(mem, 'Load', a, None, t, inst, ctx)
            elif kind == 'plain':
                c.call(mem, 'Load', a, d, inst, ctx)
            else:
                c.call(mem, 'Load', w.words([0x1000]), w.bools([1, 1]), 4, d, inst, ctx, types=[None, None, 'int', None, None, None])
            if kind != 'tags':
                same_bytes(c, w.bytes(d, 8), data, 'data', 'load with an instruction')
            if kind in ('tagged', 'tags'):
                same_bytes(c, w.bytes(t, 1), tags, 'tags', 'load with an instruction')
        load_protocol(c, w, issue, '%s load' % kind)
        for b in bufs:
            c.eq(c.call(b, 'ref_count'), 1, 'buffer-reference', 'references to the data buffer after the load')

    def release(c):
        w = World(c)
        base = set(map(id, c.leaks()))
        mem = c.new(TAG, const(8, 32), types=['unsigned int'])
        for a in (0x1000, 0x9_0003):
            d = w.db(w.fresh(4))
            c.call(mem, 'Store', const(a, 64), d)
            c.eq(c.call(d, 'ref_count'), 1, 'buffer-reference', 'references to the data buffer after the store')
            c.call(d, 'DecRef')
        c.delete(mem)
        c.delete(w.fac)
        left = [o for o in c.leaks() if id(o) not in base]
        c.check(not left, 'leak', 'the storage of the memory is released with it')
    s.explore('history', hist, limit=9000)
    s.explore('initial', initial)
    s.explore('units', units)
    s.explore('vector-load', vloads)
    s.explore('edge', edge)
    s.explore('top', top)
    s.explore('invalid', invalid)
    s.explore('deliver', deliver)
    s.explore('release', release)


OPS = ['LoadLinked', 'StoreConditional', 'AtomicSwap', 'AtomicAdd', 'AtomicSub', 'AtomicAnd', 'AtomicOr', 'AtomicXor', 'AtomicMax', 'AtomicMaxu', 'AtomicMin', 'AtomicMinu']


def opcode(c, name):
    """value of an enumerator of AtomicMemoryOpInterface::Operation"""
    return c.static('verif_unit::Ops', name)


def jn(bts):
    return frombits([bit(b, j) for b in bts for j in range(8)])


def sp(v):
    return [frombits([bit(v, 8 * i + j) for j in range(8)]) for i in range(v.w // 8)]


def atomic_result(c, op, old, arg):
    if op == 'AtomicSwap':
        return arg
    if op in ('AtomicAdd', 'AtomicSub', 'AtomicAnd', 'AtomicOr', 'AtomicXor'):
        return {'AtomicAdd': add, 'AtomicSub': sub, 'AtomicAnd': band, 'AtomicOr': bor, 'AtomicXor': bxor}[op](old, arg)
    lt = {'AtomicMax': slt(old, arg), 'AtomicMaxu': ult(old, arg), 'AtomicMin': slt(arg, old), 'AtomicMinu': ult(arg, old)}[op]
    return arg if c.decide(lt) else old


def run_atomic(s):
    def make(c, tagged):
        w = World(c)
        if tagged:
            inner = c.new(M + 'TaggedFlatDemandMemory', const(8, 32), types=['unsigned int'])
            return w, c.new(M + 'AtomicTaggedMemory', inner), inner
        inner = c.new(M + 'FlatDemandMemory')
        return w, c.new(M + 'AtomicMemory', inner), inner

    def perform(c, w, mem, a, op, bts, inst=None, ctx=None, lat=0):
        d = w.db(bts, lat)
        st = c.call(mem, 'PerformMemoryOp', const(a, 64), opcode(c, op), d, inst, ctx)
        return d, st

    def rmw(tagged):
        def f(c):
            w, mem, inner = make(c, tagged)
            n = c.choose(1, 2, 4, 8)
            op = c.choose(*OPS[2:])
            a = 0x1000 + c.choose(0, n)
            before = w.fresh(24)
            sstore(c, w, mem, 0x1000 - 4, before)
            o = a - (0x1000 - 4)
            old, arg = jn(before[o:o + n]), jn(w.fresh(n))
            inst = w.inst('i') if c.choose(True, False) else None
            seen = []
            d = w.db(sp(arg))
            if inst is not None:
                c.call(inst, 'set_semantic_function', c.fn(lambda I, x: seen.append(w.bytes(d, n))))
            st = c.call(mem, 'PerformMemoryOp', const(a, 64), opcode(c, op), d, inst, None)
            what = '%s of %d bytes' % (op, n)
            c.check(ok(c, st), 'accepted', '%s is supported' % what)
            c.eq(jn(w.bytes(d, n)), old, 'returned', '%s returns the previous contents' % what)
            after = sload(c, w, mem, 0x1000 - 4, 24)
            c.eq(jn(after[o:o + n]), atomic_result(c, op, old, arg), 'result', '%s: new contents' % what)
            same_bytes(c, after[:o] + after[o + n:], before[:o] + before[o + n:], 'neighbours', '%s leaves the neighbouring bytes' % what)
            if inst is not None:
                c.check(len(seen) == 1, 'executed', '%s executes its instruction once (%d)' % (what, len(seen)))
                for x in seen[:1]:
                    c.eq(jn(x), old, 'returned', '%s: the instruction sees the previous contents' % what)
            # the temporaries do not leak into the next operation
            d2, st = perform(c, w, mem, a, 'AtomicSwap', w.fresh(n))
            c.eq(jn(w.bytes(d2, n)), atomic_result(c, op, old, arg), 'returned', 'swap after %s returns the contents' % what)
        return f

    def sizes(tagged):
        def f(c):
            """element sizes that are not supported are refused without a write"""
            w, mem, inner = make(c, tagged)
            n = c.choose(3, 5, 16)
            op = c.choose('AtomicSwap', 'AtomicAdd', 'AtomicMinu')
            before = w.fresh(24)
            sstore(c, w, mem, 0x1000, before)
            d, st = perform(c, w, mem, 0x1000, op, w.fresh(n))
            c.check(lnot(ok(c, st)), 'refused', '%s of %d bytes is refused' % (op, n))
            same_bytes(c, sload(c, w, mem, 0x1000, 24), before, 'refused', '%s of %d bytes: memory' % (op, n))
        return f

    def llsc(tagged):
        def f(c):
            w, mem, inner = make(c, tagged)
            model = Flat(0, 1 << 40, 0)
            init = w.fresh(64)
            sstore(c, w, mem, 0x1000, init)
            model.put(0x1000, init)
            res = set()     # granules with an unbroken load linked
            hits = [c.choose(0x1008, 0x100c)] + ([0x1018] if c.choose(True, False) else [])
            what = ''
            for a in hits:
                d, st = perform(c, w, mem, a, 'LoadLinked', [const(0, 8)] * 4)
                c.check(ok(c, st), 'accepted', 'load linked succeeds')
                same_bytes(c, w.bytes(d, 4), model.get(a, 4), 'linked-value', 'load linked at %#x' % a)
                res.add(a >> 3)
                what += ' load linked at %#x;' % a

            def wrote(a, n):
                for g in range(a >> 3, ((a + n - 1) >> 3) + 1):
                    res.discard(g)
            op = c.choose('none', 'store', 'vstore', 'vstride', 'amo', 'load', 'sc') if not tagged else c.choose('none', 'store', 'vstride', 'amo', 'tstore')
            if op == 'store':
                a, n = c.choose((0x1008, 1), (0x100f, 1), (0x1010, 8), (0x1006, 2), (0x1007, 2), (0x1004, 8), (0x1000, 32), (0x1000, 8))
                data = w.fresh(n)
                sstore(c, w, mem, a, data)
                model.put(a, data)
                wrote(a, n)
                what += ' store of %d at %#x;' % (n, a)
            elif op == 'tstore':
                a, n = c.choose((0x1000, 16), (0x1010, 8), (0x1008, 8))
                data = w.fresh(n)
                tstore(c, w, mem, a, data, w.fresh(n // 8))
                model.put(a, data)
                wrote(a, n)
                what += ' tagged store of %d at %#x;' % (n, a)
            elif op in ('vstore', 'vstride'):
                el = c.choose(2, 8)
                addrs = [0x1020, 0x1006 if el == 8 else 0x1008, 0x1030] if op == 'vstore' else [c.choose(0x1000, 0x1007)]
                mask = c.choose([1, 1, 1], [1, 0, 1], [0, 1, 0])
                data = w.fresh(3 * el)
                do_vstore(c, w, mem, addrs, mask, el, data)
                for i, x in enumerate(elements(addrs, 3, el)):
                    if mask[i]:
                        model.put(x, data[i * el:(i + 1) * el])
                        wrote(x, el)
                what += ' vector store of %d byte elements at %s, mask %r;' % (el, [hex(x) for x in addrs], mask)
            elif op == 'amo':
                a = c.choose(0x1008, 0x1010)
                k = c.choose('AtomicSwap', 'AtomicAdd')
                arg = w.fresh(4)
                perform(c, w, mem, a, k, arg)
                model.put(a, sp(atomic_result(c, k, jn(model.get(a, 4)), jn(arg))))
                wrote(a, 4)
                what += ' %s at %#x;' % (k, a)
            elif op == 'load':
                sload(c, w, mem, 0x1008, 8)
                vload(c, w, mem, [0x1008], [1, 1], 4)
            for a in (c.choose(0x1008, 0x1000, 0x1018), 0x1008):
                arg = w.fresh(4)
                d, st = perform(c, w, mem, a, 'StoreConditional', arg)
                good = (a >> 3) in res
                c.check(ok(c, st), 'accepted', 'store conditional is performed')
                c.eq(jn(w.bytes(d, 4)), 0 if good else 1, 'conditional', 'after%s store conditional at %#x reports' % (what, a))
                if good:
                    model.put(a, arg)
                    wrote(a, 4)
                what += ' store conditional at %#x;' % a
                same_bytes(c, sload(c, w, mem, 0x1000, 64), model.get(0x1000, 64), 'contents', 'after%s memory' % what)
        return f

    def forward(tagged):
        """plain accesses behave as those of the memory behind"""
        def f(c):
            w, mem, inner = make(c, tagged)
            model = Flat(0, 1 << 40, 0)
            spots = [0x1000, 0x3ffd]
            what = history(c, w, mem, model, spots, ('store', 'vstore'), 1, (3, 20))
            a = c.choose(*spots)
            target = c.choose(mem, inner)
            same_bytes(c, sload(c, w, target, a, 30), model.get(a, 30), 'contents', 'after%s load at %#x' % (what, a))
            addrs, mask, el = [a, a + 9, a + 3], [1, 0, 1], 4
            old, got = vload(c, w, mem, addrs, mask, el)
            same_bytes(c, got, expect_vload(model, addrs, mask, el, old), 'vector-load', 'after%s vector load' % what)
        return f

    def tagfwd(c):
        w, mem, inner = make(c, True)
        model = Tagged(0, 1 << 40, 0, 8)
        what = tagged_history(c, w, mem, model, 0x1000)
        tagged_same(c, w, c.choose(mem, inner), model, 0x1000, 6, what)

    def amotag(c):
        """an atomic operation clears the tag of the granule it writes"""
        w, mem, inner = make(c, True)
        tags = w.fresh(2)
        tstore(c, w, mem, 0x1000, w.fresh(16), tags)
        op = c.choose('AtomicSwap', 'AtomicAdd', 'StoreConditional', 'LoadLinked')
        if op == 'StoreConditional':
            perform(c, w, mem, 0x1000, 'LoadLinked', w.fresh(4))
        perform(c, w, mem, 0x1000, op, w.fresh(4))
        t = tload(c, w, mem, 0x1000, 2, 8)[1]
        same_bytes(c, t, [tags[0] if op == 'LoadLinked' else const(0, 8), tags[1]], 'tags', 'tags after %s' % op)

    def deliver(tagged):
        def f(c):
            w, mem, inner = make(c, tagged)
            data = w.fresh(4)
            sstore(c, w, mem, 0x1000, data)
            kind = c.choose('plain', 'vector') if not tagged else c.choose('plain', 'vector', 'tagged')

            def issue(lat, inst, ctx):
                n = 8 if kind == 'tagged' else 4
                d = w.db([const(0, 8)] * n, lat)
                if kind == 'plain':
                    c.call(mem, 'Load', const(0x1000, 64), d, inst, ctx)
                elif kind == 'tagged':
                    c.call(mem, 'Load', const(0x1000, 64), d, w.db([const(0, 8)]), inst, ctx)
                else:
                    c.call(mem, 'Load', w.words([0x1000]), w.bools([1, 1]), 2, d, inst, ctx, types=[None, None, 'int', None, None, None])
            load_protocol(c, w, issue, kind + ' load')
        return f

    def opdeliver(tagged):
        """the instruction of an atomic operation is executed once, with its context"""
        def f(c):
            w, mem, inner = make(c, tagged)
            op = c.choose('LoadLinked', 'StoreConditional', 'AtomicSwap', 'AtomicOr')
            inst = w.inst('i')
            ctx = c.choose(None, 1) and w.context()
            d, st = perform(c, w, mem, 0x1000, op, w.fresh(4), inst, ctx, c.choose(0, 3))
            for i in range(4):
                w.advance()
            c.check(len(w.log) == 1, 'executed', '%s executes its instruction %d times' % (op, len(w.log)))
            for x in w.log[:1]:
                c.check(x[2] is ctx, 'context', '%s: the instruction sees the context' % op)
            for o in (inst, ctx, d):
                if o is not None:
                    c.eq(c.call(o, 'ref_count'), 1, 'released', '%s: references left' % op)
        return f

    def release(tagged):
        def f(c):
            w = World(c)
            if tagged:
                inner = c.new(M + 'TaggedFlatDemandMemory', const(8, 32), types=['unsigned int'])
            else:
                inner = c.new(M + 'FlatDemandMemory')
            sstore(c, w, inner, 0x1000, [const(0, 8)] * 8)
            base = set(map(id, c.leaks()))
            mem = c.new(M + ('AtomicTaggedMemory' if tagged else 'AtomicMemory'), inner)
            perform(c, w, mem, 0x1000, 'LoadLinked', w.fresh(4))
            c.call(w.made[-1], 'DecRef')
            perform(c, w, mem, 0x1004, 'AtomicAdd', w.fresh(2))
            c.call(w.made[-1], 'DecRef')
            c.delete(mem)
            c.check(inner.alive, 'not-owned', 'the memory behind is not deleted')
            for d in w.made:
                if d.alive and cval(c.val(c.call(d, 'ref_count'))) > 0:
                    c.call(d, 'DecRef')
            c.delete(w.fac)
            left = [o for o in c.leaks() if id(o) not in base]
            c.check(not left, 'leak', 'everything it allocated is released')
        return f
    for t in (False, True):
        n = '-tagged' if t else '-plain'
        s.explore('rmw' + n, rmw(t))
        s.explore('sizes' + n, sizes(t))
        s.explore('llsc' + n, llsc(t))
        s.explore('forward' + n, forward(t))
        s.explore('deliver' + n, deliver(t))
        s.explore('operation' + n, opdeliver(t))
        s.explore('release' + n, release(t))
    s.explore('tags', tagfwd)
    s.explore('operation-tags', amotag)


class Target(object):
    """a recording memory behind the one analysed"""

    def __init__(self, c, cls, tag, log):
        self.tag, self.log = tag, log
        self.h = c.host(M + cls, tag, {'Load': self.call('Load'), 'Store': self.call('Store'), 'PerformMemoryOp': self.op})

    def call(self, name):
        def f(I, this, args):
            self.log.append((self.tag, name, [lib.val(I, a) for a in args]))
        return f

    def op(self, I, this, args):
        self.log.append((self.tag, 'PerformMemoryOp', [lib.val(I, a) for a in args]))
        return StatusV(0, StrV())


def same_args(c, got, want, oid, what):
    """the arguments of a forwarded call are those of the original one"""
    c.check(len(got) == len(want), oid, '%s: forwarded with %d arguments, required %d' % (what, len(got), len(want)))
    for g, x in zip(got, want):
        if isinstance(x, (T, int)):
            c.eq(g, x, oid, '%s: forwarded argument' % what)
        else:
            c.same(g, x, oid, '%s: forwarded argument' % what)


def access(c, w, mem, kind, a, n, log, tagged=False):
    """issues one access of the given kind; returns (method, arguments, element list of (address, size, mask))"""
    inst, ctx = (c.host(G + 'Instruction', 'inst'), c.host(G + 'ReferenceCount', 'ctx')) if 'load' in kind else (None, None)
    A = a if isinstance(a, T) else const(a & MASK64, 64)
    if kind in ('load', 'store'):
        args = [A, w.db(w.fresh(n))] + ([inst, ctx] if kind == 'load' else [])
        els = [(A, n)]
    elif kind in ('tload', 'tstore'):
        args = [A, w.db(w.fresh(n)), w.db(w.fresh(max(n // 8, 1)))] + ([inst, ctx] if kind == 'tload' else [])
        els = [(A, n)]
    elif kind == 'tagsload':
        args = [A, None, w.db(w.fresh(max(n // 8, 1))), inst, ctx]
        els = [(A, n)]
    else:
        stride = 'stride' in kind
        mask = c.choose([1, 1, 1], [0, 1, 1], [1, 1, 0])
        addrs = [A] if stride else [A, add(A, const(0x40, 64)), add(A, const(4 * n, 64))]
        all_ = [add(A, const(i * n, 64)) for i in range(3)] if stride else addrs
        args = [w.words(addrs), w.bools(mask), const(n, 32), w.db(w.fresh(3 * n))] + ([inst, ctx] if 'load' in kind else [])
        els = [(x, n) for x, m in zip(all_, mask) if m]
    name = 'Load' if 'load' in kind else 'Store'
    ty = [None, None, 'int'] + [None] * (len(args) - 3) if kind.startswith('v') else None
    if ty is None and kind in ('tload', 'tstore', 'tagsload'):
        c.call(mem, name, *args)
    else:
        c.call(mem, name, *args, types=ty)
    return name, args, els


KINDS = ('load', 'store', 'vload', 'vstore', 'vstrideload', 'vstridestore')
TKINDS = KINDS + ('tload', 'tstore')


def run_watch(s):
    RANGES = [(0x1000, 0x1007), (0x1010, 0x1010), (0x1011, 0x101f), (0x2000, 0x2fff)]

    def make(c, tagged):
        w = World(c)
        log = []
        t = Target(c, 'TaggedMemoryInterface' if tagged else 'MemoryInterface', 'mem', log)
        cls = M + ('TaggedMemoryWatcher' if tagged else 'MemoryWatcher')
        return w, c.new(cls, t.h), log, cls

    def watch(c, mem, cls, which, lo, hi, log, tag):
        r = c.stack(cls + '::AddressRange', const(lo, 64), const(hi, 64))
        return c.call(mem, 'Set%sWatchCallback' % which, r, c.fn(lambda I, a: log.append((tag, which, [lib.val(I, x) for x in a]))))

    def observe(c, log, which, name, args, els, active, what):
        """exactly the required events, in the required order"""
        want = []
        for a, n in els:
            for k in active:
                lo, hi = RANGES[k]
                # overlap, for accesses that do not wrap around
                if c.decide(land(lnot(ult(const(hi, 64), a)), lnot(ult(add(a, const(n - 1, 64)), const(lo, 64))))):
                    want.append((k, a, n))
        fwd = [e for e in log if e[0] == 'mem']
        c.check(len(fwd) == 1 and fwd[0][1] == name, 'forwarded', '%s is forwarded %d times' % (what, len(fwd)))
        if len(fwd) == 1:
            same_args(c, fwd[0][2], args, 'forwarded', what)
        calls = [e for e in log if e[0] != 'mem']
        c.check(sorted(e[0] for e in calls) == sorted(k for k, _, _ in want), 'callbacks', '%s: callbacks of ranges %r, required %r' % (what, [e[0] for e in calls], [k for k, _, _ in want]))
        if fwd and calls:
            i = log.index(fwd[0])
            c.check(all((log.index(e) < i) == (name == 'Load') for e in calls), 'order', '%s: callbacks run %s the access' % (what, 'before' if name == 'Load' else 'after'))
        for e in calls:
            c.check(e[1] == which, 'kind', '%s calls only its own kind of callback' % what)
            # address and size of an element that overlaps
            cand = [(a, n) for k, a, n in want if k == e[0]]
            hit = FALSE
            for a, n in cand:
                hit = lor(hit, land(eq(e[2][0], a), eq(e[2][1], const(n, 32))))
            c.check(hit, 'arguments', '%s: the callback is given the address and size of the access' % what)

    def one(tagged):
        def f(c):
            w, mem, log, cls = make(c, tagged)
            kind = c.choose(*(TKINDS if tagged else KINDS))
            active = c.choose((0,), (1, 2), (0, 1, 2), (3,), ())
            for k in active[::-1]:
                c.check(ok(c, watch(c, mem, cls, 'Load', RANGES[k][0], RANGES[k][1], log, k)), 'set', 'a load watch is accepted')
                c.check(ok(c, watch(c, mem, cls, 'Store', RANGES[k][0], RANGES[k][1], log, k)), 'set', 'a store watch is accepted')
            n = c.choose(1, 8) if kind in ('load', 'store') else 8
            if kind.startswith('v'):
                n = c.choose(1, 4)
                a = c.choose(0xff8, 0x1000, 0x1004, 0xfd0, 0x1008, 0x1fff, 0x3000)
            else:
                a = c.sym('a', 64)
                c.assume(ult(a, const(MASK64 - 64, 64)))
            name, args, els = access(c, w, mem, kind, a, n, log)
            observe(c, log, name, name, args, els, active, '%s of %d bytes' % (kind, n))
        return f

    def tagsonly(c):
        w, mem, log, cls = make(c, True)
        watch(c, mem, cls, 'Load', 0x1000, 0x1fff, log, 0)
        name, args, els = access(c, w, mem, 'tagsload', 0x1000, 8, log)
        fwd = [e for e in log if e[0] == 'mem']
        c.check(len(fwd) == 1, 'forwarded', 'a load of only the tags is forwarded')
        same_args(c, fwd[0][2], args, 'forwarded', 'load of only the tags')

    def ranges(tagged):
        """malformed and overlapping ranges are refused and change nothing; cleared ones are gone"""
        def f(c):
            w, mem, log, cls = make(c, tagged)
            which, other = c.choose(('Load', 'Store'), ('Store', 'Load'))
            lo, hi = c.sym('lo', 64), c.sym('hi', 64)
            c.check(ok(c, watch(c, mem, cls, which, 0x1000, 0x10ff, log, 'first')), 'set', 'a watch is accepted')
            r = c.stack(cls + '::AddressRange', lo, hi)
            st = c.call(mem, 'Set%sWatchCallback' % which, r, c.fn(lambda I, a: log.append(('second', which, [lib.val(I, x) for x in a]))))
            bad = lor(ult(hi, lo), land(lnot(ult(const(0x10ff, 64), lo)), lnot(ult(hi, const(0x1000, 64)))))
            c.check(lxor(ok(c, st), bad), 'range-accepted', 'a watch on a second range is accepted exactly if it is well formed and does not overlap')
            taken = c.decide(ok(c, st))
            access(c, w, mem, which.lower(), 0x1080, 4, log)
            calls = [e[0] for e in log if e[0] != 'mem']
            c.check(calls == ['first'], 'first-kept', 'the first watch is still active: %r' % calls)
            del log[:]
            access(c, w, mem, which.lower(), lo, 1, log)
            calls = [e[0] for e in log if e[0] != 'mem']
            if taken:
                c.check(calls == ['second'], 'second-active', 'the second watch is active: %r' % calls)
            else:
                c.check('second' not in calls, 'second-refused', 'a refused watch is not active')
            # clearing
            del log[:]
            at = c.sym('at', 64)
            st = c.call(mem, 'Clear%sWatchCallback' % other, at)
            c.check(lnot(ok(c, st)), 'clear-other', 'clearing a watch of the other kind reports an error')
            inside1 = land(lnot(ult(at, const(0x1000, 64))), lnot(ult(const(0x10ff, 64), at)))
            inside2 = land(boolc(taken), lnot(ult(at, lo)), lnot(ult(hi, at)))
            st = c.call(mem, 'Clear%sWatchCallback' % which, at)
            c.check(lnot(lxor(ok(c, st), lor(inside1, inside2))), 'cleared', 'clearing succeeds exactly for an address in a watched range')
            in1 = c.decide(inside1)
            access(c, w, mem, which.lower(), 0x1080, 4, log)
            calls = [e[0] for e in log if e[0] != 'mem']
            c.check(calls == ([] if in1 else ['first']), 'cleared', 'after clearing, the watches called are %r' % calls)
        return f
    for t in (False, True):
        n = '-tagged' if t else '-plain'
        s.explore('access' + n, one(t), limit=6000)
        s.explore('ranges' + n, ranges(t))
    s.explore('tags-only', tagsonly)


def run_route(s):
    KIND_IF = {'load': 'mt', 'store': 'mt', 'vload': 'mt', 'vstore': 'mt', 'vstrideload': 'mt', 'vstridestore': 'mt', 'tload': 't', 'tstore': 't', 'tagsload': 't', 'op': 'a'}
    IFC = {'m': 'MemoryInterface', 't': 'TaggedMemoryInterface', 'a': 'AtomicMemoryOpInterface'}

    def contains(r, a, n):
        return land(lnot(ult(a, const(r[0], 64))), lnot(ult(const(r[1], 64), add(a, const(n - 1, 64)))))

    def overlaps(r, a, n):
        return land(lnot(ult(const(r[1], 64), a)), lnot(ult(add(a, const(n - 1, 64)), const(r[0], 64))))

    def pick(c, maps, defaults, ifcs, els):
        """tag of the target that has to get the access, None if no target may"""
        for k in ifcs:
            got = []
            for a, n in els:
                over = [t for t, r in maps[k] if c.decide(overlaps(r, a, n))]
                full = [t for t, r in maps[k] if t in over and c.decide(contains(r, a, n))]
                if full:
                    got.append(full[0])
                elif not over and defaults.get(k):
                    got.append(defaults[k])
                else:
                    got.append(None)
            if None in got:
                continue
            if len(set(got)) > 1:
                return None
            return got[0]
        return None

    def setup(c, log):
        r = c.new(M + 'SingleInitiatorRouter', 'cpu')
        maps = {'m': [], 't': [], 'a': []}
        defaults = {}
        cfg = c.choose('mem', 'tagged', 'both', 'adjacent', 'default', 'both-default')
        spec = {'mem': [('m', 0x1000, 0x1fff)], 'tagged': [('t', 0x1000, 0x1fff)], 'both': [('m', 0x1000, 0x1fff), ('t', 0x2000, 0x2fff)],
                'adjacent': [('m', 0x2000, 0x2fff), ('m', 0x1000, 0x1fff), ('t', 0x3000, 0x3fff), ('t', 0x4000, 0x4fff)],
                'default': [('m', 0x1000, 0x1fff), ('t', 0x2000, 0x2fff), ('D', 'm')], 'both-default': [('t', 0x1000, 0x1fff), ('D', 't')]}[cfg]
        for i, e in enumerate(spec + [('a', 0x1000, 0x1fff)] + ([('D', 'a')] if 'default' in cfg else [])):
            if e[0] == 'D':
                t = Target(c, IFC[e[1]], 'default-' + e[1], log)
                c.check(ok(c, c.call(r, 'AddDefaultTarget', t.h, targs=[M + IFC[e[1]]])), 'default-set', 'a default target is accepted')
                defaults[e[1]] = t.tag
                t2 = Target(c, IFC[e[1]], 'late', log)
                c.check(lnot(ok(c, c.call(r, 'AddDefaultTarget', t2.h, targs=[M + IFC[e[1]]]))), 'default-set', 'a second default target is refused')
            else:
                t = Target(c, IFC[e[0]], '%s%d' % (e[0], i), log)
                c.check(ok(c, c.call(r, 'AddTarget', t.h, const(e[1], 64), const(e[2], 64), targs=[M + IFC[e[0]]])), 'target-set', 'a target is accepted')
                maps[e[0]].append((t.tag, (e[1], e[2])))
        return r, maps, defaults

    def route(kind):
        def f(c):
            w = World(c)
            log = []
            r, maps, defaults = setup(c, log)
            if kind.startswith('v'):
                n = c.choose(4, 1)
                a = const(c.choose(0x1000, 0xffc, 0x1ff8, 0x1ffc, 0x1fc0, 0x1fbd, 0x2ff4, 0x3ff8, 0x9000), 64)
            else:
                n = c.choose(1, 8) if not kind.startswith('t') else 8
                a = c.sym('a', 64)
                c.assume(ult(a, const(MASK64 - 64, 64)))
            if kind == 'op':
                name = 'PerformMemoryOp'
                args = [a, opcode(c, 'AtomicAdd'), w.db(w.fresh(n)), c.host(G + 'Instruction', 'inst'), c.host(G + 'ReferenceCount', 'ctx')]
                els = [(a, n)]
                st = c.call(r, name, *args)
            else:
                name, args, els = access(c, w, r, kind, a, n, log)
            want = pick(c, maps, defaults, KIND_IF[kind], els)
            what = '%s of %d bytes' % (kind, n)
            got = [e[0] for e in log]
            c.check(got == ([want] if want else []), 'routed', '%s goes to %r, required %r' % (what, got, want))
            if want and got == [want]:
                c.check(log[0][1] == name, 'forwarded', '%s is forwarded' % what)
                same_args(c, log[0][2], args, 'forwarded', what)
            if kind == 'op':
                c.eq(ok(c, st), want is not None, 'status', '%s reports success' % what)
        return f

    def ranges(k):
        """a target range is accepted exactly if it is well formed and does not conflict"""
        def f(c):
            w = World(c)
            log = []
            r = c.new(M + 'SingleInitiatorRouter', 'cpu')
            t1, t2 = Target(c, IFC[k], 'first', log), Target(c, IFC[k], 'second', log)
            T1 = [M + IFC[k]]
            c.check(ok(c, c.call(r, 'AddTarget', t1.h, const(0x1000, 64), const(0x10ff, 64), targs=T1)), 'target-set', 'a target is accepted')
            lo, hi = c.sym('lo', 64), c.sym('hi', 64)
            c.assume(lnot(eq(lo, hi)))
            c.assume(lnot(land(eq(lo, const(0x1000, 64)), eq(hi, const(0x10ff, 64)))))
            st = c.call(r, 'AddTarget', t2.h, lo, hi, targs=T1)
            bad = lor(ult(hi, lo), land(lnot(ult(const(0x10ff, 64), lo)), lnot(ult(hi, const(0x1000, 64)))))
            c.check(lxor(ok(c, st), bad), 'range-accepted', 'a second target is accepted exactly if its range is well formed and does not overlap')
            taken = c.decide(ok(c, st))
            for a, want in ((const(0x1080, 64), ['first']), (lo, ['second'])):
                if want == ['second'] and not taken:
                    continue
                del log[:]
                if k == 'a':
                    c.call(r, 'PerformMemoryOp', a, opcode(c, 'AtomicAdd'), w.db(w.fresh(1)), None, None)
                else:
                    access(c, w, r, 'store', a, 1, log)
                c.check([e[0] for e in log] == want, 'kept', 'afterwards an access of the %s range goes to %r' % (want[0], [e[0] for e in log]))
        return f

    def router(c):
        """named initiators and targets"""
        w = World(c)
        log = []
        base = set(map(id, c.leaks()))
        r = c.new(M + 'MemoryRouter')
        ini = {'x': obj(c, c.call(r, 'AddMemoryInitiator', 'x')), 'y': obj(c, c.call(r, 'AddTaggedInitiator', 'y'))}
        c.same(c.call(r, 'AddTaggedInitiator', 'x'), ini['x'], 'one-initiator', 'an initiator exists once for all of its interfaces')
        c.check(ini['x'] is not ini['y'], 'initiators-distinct', 'initiators with different names are distinct')
        tg = {}
        for n, k in (('m', 'm'), ('t', 't'), ('a', 'a')):
            tg[n] = Target(c, IFC[k], n, log)
            c.check(ok(c, c.call(r, 'AddTarget', n, tg[n].h, types=[None, M + IFC[k] + ' *'])), 'target-added', 'a target is accepted')
        dup = Target(c, IFC['m'], 'dup', log)
        n = c.choose('m', 't', 'a')
        c.check(lnot(ok(c, c.call(r, 'AddTarget', n, dup.h, types=[None, M + IFC['m'] + ' *']))), 'target-once', 'a second target of the same name is refused')
        c.check(lnot(ok(c, c.call(r, 'AddMapping', 'nobody', 'm', const(0, 64), const(7, 64)))), 'unknown-initiator', 'an unknown initiator is reported')
        c.check(lnot(ok(c, c.call(r, 'AddMapping', 'x', 'nothing', const(0, 64), const(7, 64)))), 'unknown-target', 'an unknown target is reported')
        c.check(ok(c, c.call(r, 'AddMapping', 'x', 'm', const(0x1000, 64), const(0x1fff, 64))), 'mapping', 'a mapping is accepted')
        c.check(ok(c, c.call(r, 'AddMapping', 'y', 't', const(0x1000, 64), const(0x1fff, 64))), 'mapping', 'a mapping is accepted')
        c.check(ok(c, c.call(r, 'AddMapping', 'x', 't', const(0x3000, 64), const(0x3fff, 64))), 'mapping', 'a mapping is accepted')
        c.check(ok(c, c.call(r, 'AddMapping', 'y', 'a', const(0x1000, 64), const(0x1fff, 64))), 'mapping', 'a mapping is accepted')
        c.check(lnot(ok(c, c.call(r, 'AddMapping', 'x', 'm', const(0x1800, 64), const(0x2fff, 64)))), 'mapping-conflict', 'a conflicting mapping is refused')
        i, kind, a, want = c.choose(('x', 'store', 0x1004, 'm'), ('y', 'store', 0x1004, 't'), ('x', 'load', 0x3000, 't'), ('x', 'store', 0x5000, None),
                                    ('y', 'tload', 0x1008, 't'), ('y', 'op', 0x1010, 'a'), ('x', 'op', 0x1010, None))
        if kind == 'op':
            o = obj(c, c.call(r, 'AddAtomicInitiator', i))
            c.call(o, 'PerformMemoryOp', const(a, 64), opcode(c, 'AtomicOr'), w.db(w.fresh(4)), None, None)
        else:
            access(c, w, ini[i], kind, a, 8, log)
        c.check([e[0] for e in log] == ([want] if want else []), 'routed', '%s of %s at %#x goes to %r, required %r' % (kind, i, a, [e[0] for e in log], want))
        for d in w.made:
            c.call(d, 'DecRef')
        c.delete(r)
        c.delete(w.fac)
        left = [o for o in c.leaks() if id(o) not in base]
        c.check(not left, 'leak', 'the router releases its initiators')

    def transact(c):
        """tagged accesses to untagged memory: data unchanged, tags read as zero"""
        w = World(c)
        log = []
        t = Target(c, 'MemoryInterface', 'mem', log)
        x = c.new(M + 'TaggedToUntaggedMemoryTransactor', t.h)
        kind = c.choose(*TKINDS)
        name, args, els = access(c, w, x, kind, c.sym('a', 64) if not kind.startswith('v') else 0x1000, 8, log)
        c.check(len(log) == 1 and log[0][1] == name, 'forwarded', '%s is forwarded once' % kind)
        want = list(args)
        if kind in ('tload', 'tstore'):
            tags = want.pop(2)
            if kind == 'tload':
                same_bytes(c, w.bytes(tags, 1), [const(0, 8)], 'tags', 'tags of untagged memory')
        if len(log) == 1:
            same_args(c, log[0][2], want, 'forwarded', kind)

    def transact_tags(c):
        """a load of only the tags still executes its instruction"""
        w = World(c)
        log = []
        t = Target(c, 'MemoryInterface', 'mem', log)
        x = c.new(M + 'TaggedToUntaggedMemoryTransactor', t.h)

        def issue(lat, inst, ctx):
            tags = w.db(w.fresh(2), lat)
            c.call(x, 'Load', const(0x1000, 64), None, tags, inst, ctx)
            same_bytes(c, w.bytes(tags, 2), [const(0, 8)] * 2, 'tags', 'tags of untagged memory')
        load_protocol(c, w, issue, 'load of only the tags')
        c.check(not log, 'no-access', 'a load of only the tags does not access the memory')
    for k in ('load', 'store', 'vload', 'vstore', 'vstrideload', 'vstridestore', 'tload', 'tstore', 'tagsload', 'op'):
        s.explore('route-' + k, route(k))
    for k in 'mta':
        s.explore('ranges-' + IFC[k], ranges(k))
    s.explore('router', router)
    s.explore('transactor', transact)
    s.explore('transactor-tags', transact_tags)


class CacheModel(object):
    """set associative cache with least recently used replacement"""

    def __init__(self, size, line, ways, wa, nc=(), cc=()):
        self.line, self.lines, self.wa, self.nc, self.cc = line, size // line, wa, nc, cc
        self.ways = ways or self.lines
        self.now = 0
        self.sets = {}
        self.n = dict.fromkeys(('read_hit', 'read_miss', 'write_hit', 'write_miss', 'dirty_line_writeback', 'read_around', 'write_around',
                                'read_non_cacheable', 'write_non_cacheable'), 0)

    def access(self, a, n, read):
        kind = 'read' if read else 'write'
        for b in range(a // self.line, (a + n - 1) // self.line + 1):
            over = lambda rs: any(a <= hi and lo <= a + n - 1 for lo, hi in rs)
            if self.cc and not over(self.cc) or self.nc and over(self.nc):
                self.n[kind + '_non_cacheable'] += 1
                continue
            self.now += 1
            now = self.now
            s = self.sets.setdefault(b % (self.lines // self.ways), {})
            if b in s:
                self.n[kind + '_hit'] += 1
                s[b] = (now, s[b][1] or not read)
                continue
            self.n[kind + '_miss'] += 1
            if not read and not self.wa:
                self.n['write_around'] += 1
                continue
            if len(s) == self.ways:
                old = min(s, key=lambda k: s[k][0])
                self.n['dirty_line_writeback'] += s.pop(old)[1]
            s[b] = (now, not read)


def run_cache(s):
    CONFIGS = [('64,16,1,true', (64, 16, 1, True)), ('64,16,2,false', (64, 16, 2, False)), ('64,16,0,true', (64, 16, 0, True)), ('128,8,4,true', (128, 8, 4, True)),
               ('1k,256,2,true', (1024, 256, 2, True))]
    RANGED = [('64,16,2,true,c:0x100:0x1ff,c:0x300:0x3ff', (64, 16, 2, True, (), ((0x100, 0x1ff), (0x300, 0x3ff)))),
              ('64,16,2,true,nc:0x100:0x1ff,nc:768:1023', (64, 16, 2, True, ((0x100, 0x1ff), (0x300, 0x3ff)), ())),
              ('64,16,2,true,c:0x100:0x100,c:0x3ff:0x3ff', (64, 16, 2, True, (), ((0x100, 0x100), (0x3ff, 0x3ff))))]

    class Rig(object):
        def __init__(self, c, mem='none', tagged=False):
            self.c, self.now = c, 0
            self.w = World(c)
            self.log = []
            ty = M + ('Tagged' if tagged else '') + 'MemoryInterface *'
            self.mem = None
            if mem == 'record':
                self.mem = Target(c, 'TaggedMemoryInterface' if tagged else 'MemoryInterface', 'mem', self.log).h
            elif mem == 'real':
                self.mem = c.new(M + 'TaggedFlatDemandMemory', const(8, 32)) if tagged else c.new(M + 'FlatDemandMemory')
            self.cache = c.new(M + 'Cache', 'cache', None, self.mem, types=[None, G + 'Component *', ty])
            self.clock = c.host(G + 'CounterValueOutputBase<unsigned long>', 'cycles', {'GetValue': self.tick})

        def tick(self, I, this, a):
            # never the same value twice, so that there is one least recently used line
            self.now += 1
            return const(self.now, 64)

        def configure(self, text, clock=True):
            return self.c.call(self.cache, 'Configure', text, self.clock if clock else None)

        def counter(self, name):
            k = obj(self.c, self.c.call(self.cache, 'GetCounter', name))
            return self.c.val(self.c.call(k, 'GetValue'))

        def agree(self, m, what):
            for k, v in sorted(m.n.items()):
                self.c.eq(self.counter(k), v, 'counter-' + k, '%s: %s' % (what, k))

    def step(r, m, kind, a, n, what):
        name, args, els = access(r.c, r.w, r.cache, kind, a, n, r.log)
        for x, k in els:
            m.access(cval(x), k, name == 'Load')
        return name, args

    def short(c):
        """all short histories of accesses that compete for lines"""
        text, cfg = c.choose(*CONFIGS[:3])
        r = Rig(c)
        c.check(ok(c, r.configure(text)), 'configure', '%s is accepted' % text)
        m = CacheModel(*cfg)
        L = cfg[1]
        span = cfg[0]
        hist = []
        for i in range(3):
            r.now += 1
            kind = c.choose('load', 'store')
            a = 0x1000 + c.choose(0, L - 1, span, 2 * span + 1)
            hist.append('%s 0x%x' % (kind, a))
            step(r, m, kind, a, 2, '')
        r.agree(m, '%s: %s' % (text, ', '.join(hist)))

    def longer(c):
        """long histories: every line is replaced several times"""
        text, cfg = c.choose(*(CONFIGS + RANGED))
        seed = c.choose(*range(6))
        r = Rig(c)
        c.check(ok(c, r.configure(text)), 'configure', '%s is accepted' % text)
        m = CacheModel(*cfg)
        x = seed * 7919 + 13
        r.now = (1 << 33) * (seed % 2)
        for i in range(24):
            x = (x * 1103515245 + 12345) & 0x7fffffff
            r.now += 1 + ((x >> 3) & 1) * ((1 << 32) - 1)
            kind = 'load' if (x >> 7) % 3 else 'store'
            blk = (x >> 9) % 6
            a = 0x100 + (blk % 2) * cfg[1] + (blk // 2) * cfg[0] * (seed % 3 + 1) + (x >> 13) % cfg[1]
            if seed == 5:
                a += 0xfffffffffffff000 - 0x1000
            step(r, m, kind, a, (1, 4, 8, 2 * cfg[1])[(x >> 17) % 4], '')
            if i % 8 == 7:
                r.agree(m, '%s, history %d, step %d' % (text, seed, i))

    def ranges(c):
        """cacheable and non cacheable ranges, exactly at their ends"""
        text, cfg = c.choose(*RANGED)
        r = Rig(c)
        c.check(ok(c, r.configure(text)), 'configure', '%s is accepted' % text)
        m = CacheModel(*cfg)
        a, n = c.choose((0xff, 1), (0x100, 1), (0x1ff, 1), (0x200, 1), (0xfc, 4), (0xfd, 4), (0x1fc, 4), (0x1fd, 8), (0x2ff, 1), (0x300, 1), (0x3ff, 1), (0x400, 1), (0, 8), (0xf8, 0x110))
        kind = c.choose('load', 'store')
        for i in range(2):
            r.now += 1
            step(r, m, kind, a, n, '')
        r.agree(m, '%s: two %ss of %d bytes at 0x%x' % (text, kind, n, a))

    def forwarded(tagged):
        def f(c):
            r = Rig(c, 'record', tagged)
            text, cfg = CONFIGS[1]
            r.configure(text)
            m = CacheModel(*cfg)
            kind = c.choose(*(TKINDS + ('tagsload',) if tagged else KINDS))
            a = 0x1000 + c.choose(0, 24)
            name, args = step(r, m, kind, a, 8, '')
            what = '%s at 0x%x' % (kind, a)
            r.agree(m, what)
            c.check(len(r.log) == 1 and r.log[0][1] == name, 'forwarded', '%s is forwarded %d times' % (what, len(r.log)))
            if len(r.log) != 1:
                return
            got = r.log[0][2]
            k = len(args) - (2 if name == 'Load' else 0)
            same_args(c, got[:k], args[:k], 'forwarded', what)
        return f

    def complete(tagged):
        """a load through the cache: data, instruction, context, references, latency"""
        def f(c):
            r = Rig(c, 'real', tagged)
            w = r.w
            r.configure(CONFIGS[1][0])
            kind = c.choose(*(('load', 'vload', 'tload', 'tagsload') if tagged else ('load', 'vload')))
            data = w.fresh(16)
            keep = {}
            c.call(r.cache, 'Store', const(0x1000, 64), w.db(data))

            def issue(lat, inst, ctx):
                d = w.db([const(0, 8)] * (8 if kind != 'vload' else 8), latency=lat)
                t = w.db([const(0, 8)], latency=lat)
                keep.update(d=d, t=t, lat=lat)
                A = const(0x1004 if not kind.startswith('t') else 0x1008, 64)
                if kind == 'load':
                    c.call(r.cache, 'Load', A, d, inst, ctx)
                elif kind == 'vload':
                    c.call(r.cache, 'Load', w.words([0x1000, 0x1008]), w.bools([1, 1]), const(4, 32), d, inst, ctx, types=[None, None, 'int', None, None, None])
                else:
                    c.call(r.cache, 'Load', A, d if kind == 'tload' else None, t, inst, ctx)
            load_protocol(c, w, issue, kind)
            d, t = keep['d'], keep['t']
            c.eq(c.call(d, 'ref_count'), 1, 'buffer-released', '%s: references to the data buffer' % kind)
            c.eq(c.call(t, 'ref_count'), 1, 'buffer-released', '%s: references to the tag buffer' % kind)
            c.eq(c.call(d, 'latency'), keep['lat'], 'latency-kept', '%s: the latency of the data buffer' % kind)
            c.eq(c.call(t, 'latency'), keep['lat'], 'latency-kept', '%s: the latency of the tag buffer' % kind)
            want = {'load': data[4:12], 'vload': data[0:4] + data[8:12], 'tload': data[8:16], 'tagsload': None}[kind]
            if want:
                same_bytes(c, w.bytes(d, 8), want, 'data', '%s through the cache' % kind)
        return f

    def contextonly(tagged):
        def f(c):
            r = Rig(c, 'real', tagged)
            w = r.w
            r.configure(CONFIGS[0][0])
            kind = c.choose('load', 'vload')
            ctx = w.context()
            d = w.db([const(0, 8)] * 8, latency=c.choose(0, 2))
            if kind == 'load':
                c.call(r.cache, 'Load', const(0x1000, 64), d, None, ctx)
            else:
                c.call(r.cache, 'Load', w.words([0x1000, 0x1008]), w.bools([1, 1]), const(4, 32), d, None, ctx, types=[None, None, 'int', None, None, None])
            c.eq(c.call(ctx, 'ref_count'), 1, 'context-released', 'a %s without an instruction keeps no reference to the context' % kind)
            c.eq(c.call(d, 'ref_count'), 1, 'buffer-released', 'a %s without an instruction keeps no reference to the buffer' % kind)
        return f

    BAD = ['', '64,16,1', '64,16,1,maybe', '64,16,1,', 'x,16,1,true', '64,y,1,true', '64,16,z,true', ',16,1,true', '64,,1,true', '64,16,,true', '60,16,1,true', '64,12,1,true',
           '64,16,3,true', '0,16,1,true', '64,2,1,true', '64,0,1,true', '16,64,1,true', '64,16,8,true', '64q,16,1,true', '64kk,16,1,true', '64,16k,1,true', '64,16,1x,true',
           '99999999999999999999,16,1,true', '64,16,1,true,c:0x100', '64,16,1,true,c:q:0x200', '64,16,1,true,c:0x100:', '64,16,1,true,c:0x200:0x100', '64,16,1,true,d:0x100:0x200',
           '64,16,1,true,c:0x100:0x1ff,nc:0x200:0x2ff', '64,16,1,true,nc:0x100:0x1ff,c:0x200:0x2ff', '64,16,1,true,c:0x100:0x1ff:0', '64,16,1,true,c:0x100x:0x1ff', 'clock']

    def refused(c):
        """a malformed configuration is an error and leaves the cache as it was"""
        bad = c.choose(*BAD)
        before = c.choose(None, CONFIGS[1], RANGED[0])
        r = Rig(c)
        m = None
        if before:
            r.configure(before[0])
            m = CacheModel(*before[1])
            r.now = 5
            step(r, m, 'load', 0x100, 4, '')
        st = r.configure(bad) if bad != 'clock' else r.configure('128,16,1,true', clock=False)
        c.check(lnot(ok(c, st)), 'refused', 'the configuration %r is refused' % bad)
        if m:
            for i, (k, a) in enumerate((('load', 0x100), ('store', 0x140), ('load', 0x180), ('store', 0x200), ('store', 0x1f0), ('load', 0x240), ('load', 0x140))):
                r.now = 6 + i
                step(r, m, k, a, 4, '')
            r.agree(m, 'configuration %s after the refused %r' % (before[0], bad))

    def again(c):
        """a new configuration replaces the previous one entirely"""
        first = c.choose(*(CONFIGS[:3] + RANGED))
        text, cfg = c.choose(*(CONFIGS[:3] + RANGED))
        r = Rig(c)
        r.configure(first[0])
        c.check(ok(c, r.configure(text)), 'configure', '%s is accepted after %s' % (text, first[0]))
        m = CacheModel(*cfg)
        for i, (k, a) in enumerate((('load', 0x100), ('store', 0x140), ('load', 0x180), ('store', 0x200), ('store', 0x1f0), ('load', 0x240), ('load', 0x140))):
            r.now = 6 + i
            step(r, m, k, a, 4, '')
        r.agree(m, 'configuration %s after %s' % (text, first[0]))

    s.explore('history', short)
    s.explore('long-history', longer)
    s.explore('ranges', ranges)
    s.explore('refused', refused)
    s.explore('reconfigured', again)
    for t in (False, True):
        n = '-tagged' if t else '-plain'
        s.explore('forwarded' + n, forwarded(t))
        s.explore('complete' + n, complete(t))
        s.explore('context' + n, contextonly(t))


def run_profile(s):
    SEG = 128 * 1024
    HIST = [[('load', 0, 1)], [('store', 0, 4)], [('load', 0x1000, 8)], [('store', 0x1004, 8), ('load', 0x1010, 4)], [('load', 0x1006, 8)], [('load', 0x101c, 8)], [('store', 0x1003, 2)],
            [('load', SEG - 4, 4)], [('load', SEG - 4, 8)], [('load', SEG - 6, 8), ('load', SEG - 8, 1)], [('store', 0x1000, 16)], [('load', SEG - 4, 4), ('load', 3 * SEG, 4)],
            [('load', 3 * SEG - 8, 8), ('load', SEG - 8, 8), ('store', SEG, 1)], [('load', (1 << 64) - 8, 8)], [('load', (1 << 64) - 4, 4), ('load', 0, 4)], [('load', 0x80000000, 4), ('load', 0x7fffffff, 1)],
            [('vload', 0x1000, 4)], [('vstore', 0x1000, 8)], [('vstrideload', 0x1000, 4)], [('vstridestore', SEG - 8, 8)], [('vstrideload', 0x1000, 1)], [('load', 0x20, 4), ('load', 0x24, 4), ('load', 0x3c, 8), ('load', 0x48, 2)]]

    def ranges(words):
        out = []
        for x in sorted(words):
            if out and out[-1][1] + 4 == x:
                out[-1][1] = x
            else:
                out.append([x, x])
        return ''.join('0x%x,0x%x,%d\n' % (a, b, b - a + 4) for a, b in out)

    def run(tagged):
        def f(c):
            w = World(c)
            log = []
            t = Target(c, 'TaggedMemoryInterface' if tagged else 'MemoryInterface', 'mem', log)
            p = c.new(M + ('TaggedMemoryUseProfiler' if tagged else 'MemoryUseProfiler'), t.h)
            hist = c.choose(*(HIST if not tagged else HIST[3:6] + HIST[16:20] + [[('tload', 0x1000, 8), ('tstore', 0x1010, 8)], [('tagsload', 0x1000, 8)]]))
            words = set()
            on = True
            c.call(p, 'set_is_enabled', TRUE)
            for kind, a, n in hist:
                del log[:]
                name, args, els = access(c, w, p, kind, a, n, log)
                what = '%s of %d bytes at 0x%x' % (kind, n, a)
                c.check(len(log) == 1 and log[0][1] == name, 'forwarded', '%s is forwarded %d times' % (what, len(log)))
                if len(log) == 1:
                    same_args(c, log[0][2], args, 'forwarded', what)
                if kind == 'tagsload':
                    continue
                for x, k in els:
                    if k <= 8:
                        words |= set((cval(x) + i) & ~3 & MASK64 for i in range(k))
            profile(c, p, words, ', '.join('%s of %d bytes at 0x%x' % (k, n, a) for k, a, n in hist))
        return f

    def profile(c, p, words, what):
        os = StreamV('out')
        c.call(p, 'WriteProfile', os)
        got = os.s.const()
        c.check(got == ranges(words), 'profile', '%s: profile %r, required %r' % (what, got, ranges(words)))

    def enabled(tagged):
        """only accesses made while the profiler is enabled are profiled; all are forwarded"""
        def f(c):
            w = World(c)
            log = []
            t = Target(c, 'TaggedMemoryInterface' if tagged else 'MemoryInterface', 'mem', log)
            p = c.new(M + ('TaggedMemoryUseProfiler' if tagged else 'MemoryUseProfiler'), t.h)
            kind = c.choose(*(TKINDS if tagged else KINDS))
            words = set()
            for i, on in enumerate((None, True, False)):
                if on is not None:
                    c.call(p, 'set_is_enabled', boolc(on))
                del log[:]
                name, args, els = access(c, w, p, kind, 0x1000 * (i + 1), 8, log)
                c.check(len(log) == 1 and log[0][1] == name, 'forwarded', '%s is forwarded %d times' % (kind, len(log)))
                if on:
                    for x, k in els:
                        words |= set((cval(x) + j) & ~3 for j in range(k))
            profile(c, p, words, 'one %s before, while and after the profiler is enabled' % kind)
        return f

    def detached(c):
        """without a memory the accesses are only profiled"""
        w = World(c)
        tagged = c.choose(False, True)
        p = c.new(M + ('TaggedMemoryUseProfiler' if tagged else 'MemoryUseProfiler'))
        c.call(p, 'set_is_enabled', TRUE)
        words = set()
        for kind in (TKINDS if tagged else KINDS):
            name, args, els = access(c, w, p, kind, 0x1000, 4, None)
            for x, k in els:
                words |= set((cval(x) + j) & ~3 for j in range(k))
        profile(c, p, words, 'accesses of all kinds')
    for t in (False, True):
        n = '-tagged' if t else '-plain'
        s.explore('history' + n, run(t))
        s.explore('enabled' + n, enabled(t))
    s.explore('detached', detached)


PROPS = {
    'P25': dict(sources=BASE + [U + 'flat_memory.cc', U + 'flat_demand_memory.cc'], run=run_flat, rule='byte provenance of every load against a byte map of all stores, over enumerated histories with symbolic contents; range guards dominate every access; reference and delivery typestate of delayed loads'),
    'P26': dict(sources=BASE + [U + 'flat_demand_memory.cc', U + 'tagged_flat_demand_memory.cc'], run=run_tagged,
                rule='byte and tag provenance of every load against a map of all stores over enumerated histories; an untagged store kills the tags of every granule it touches'),
    'P27': dict(sources=BASE + [U + 'flat_demand_memory.cc', U + 'tagged_flat_demand_memory.cc', U + 'atomic_memory.cc', U + 'atomic_tagged_memory.cc'], run=run_atomic,
                rule='terms stored and returned by every atomic operation on symbolic contents and operands; typestate of load linked granules over enumerated histories of writes'),
    'P28': dict(sources=BASE + [U + 'memory_watcher.cc', U + 'tagged_memory_watcher.cc'], run=run_watch,
                rule='events (forwarded access, callbacks) of every access with a symbolic address against interval overlap; order of effects'),
    'P29': dict(sources=BASE + [U + 'single_initiator_router.cc', U + 'memory_router.cc', U + 'tagged_to_untagged_memory_transactor.cc'], run=run_route,
                rule='target of every access with a symbolic address against interval containment; arguments of the forwarded call'),
    'P30': dict(sources=BASE + [U + 'cache.cc', U + 'flat_demand_memory.cc', U + 'tagged_flat_demand_memory.cc'], run=run_cache,
                rule='counter values against a set associative LRU model over enumerated access histories and configurations; arguments of forwarded calls; reference and delivery typestate of loads; failed configurations have no effect'),
    'P31': dict(sources=BASE + [U + 'memory_use_profiler.cc'], run=run_profile,
                rule='output of the profile against the set of words of all accesses made while enabled, over enumerated histories; arguments of forwarded calls'),
}
