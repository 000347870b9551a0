"""Simple and complex resources: bit sets, pools, sets, operands."""
from rules.util import *
import lib
from rules.r_operands import same_text

N = 'mpact/sim/generic/'
SRC = ['units/resource.cc'] + [N + x + '.cc' for x in (
    'arch_state', 'component', 'register', 'data_buffer', 'state_item_base', 'program_error', 'fifo', 'simple_resource', 'resource_bitset',
    'complex_resource', 'complex_resource_operand')]
G = 'mpact::sim::generic::'
BS = G + 'ResourceBitSet'


def cell(v, w=32):
    return Cell(const(v, w))


def members(c, b, what):
    """all members, by the iteration idiom of the interface"""
    out = []
    pos = cell(0)
    while True:
        r = c.val(c.call(b, 'FindNextSetBit', Ptr(pos)))
        if not c.decide(r):
            return out
        v = c.val(pos.v)
        if not isc(v):
            raise Imprecise('symbolic position')
        if out and cval(v) <= out[-1] or len(out) > 400:
            c.check(False, 'iteration', '%s: iteration returns position %d after %r' % (what, cval(v), out[-3:]))
            return out
        out.append(cval(v))
        pos.v = const(cval(v) + 1, 32)


def content(c, b, model, what):
    got = members(c, b, what)
    c.check(got == sorted(model), 'content', '%s: the set holds %r, required %r' % (what, got, sorted(model)))
    c.eq(c.call(b, 'GetOnesCount'), len(model), 'count', '%s: number of members' % what)
    pos = cell(777)
    r = c.call(b, 'FindFirstSetBit', Ptr(pos))
    c.eq(r, bool(model), 'first-found', '%s: first member exists' % what)
    c.eq(pos.v, min(model) if model else 777, 'first', '%s: first member' % what)
    c.eq(c.call(b, 'FindFirstSetBit', None), bool(model), 'first-null', '%s: first member exists (no position wanted)' % what)


def run_bits(s):
    POS = (0, 5, 63, 64, 127, 128, 200)
    SIZES = (None, 1, 64, 65, 130)

    def mk(c, n):
        return c.stack(BS) if n is None else c.stack(BS, n)

    def single(c):
        """set, then look from every starting point"""
        b = mk(c, c.choose(*SIZES))
        model = set()
        content(c, b, model, 'empty set')
        what = 'set'
        for i in range(2):
            p = c.choose(*POS)
            c.call(b, 'Set', p)
            model.add(p)
            what += ' %d' % p
            content(c, b, model, what)
        for start in (0, 4, 5, 6, 62, 63, 64, 65, 126, 127, 128, 129, 199, 200, 201, 1000):
            pos = cell(start)
            r = c.call(b, 'FindNextSetBit', Ptr(pos))
            nx = [m for m in model if m >= start]
            c.eq(r, bool(nx), 'next-found', '%s: member at or after %d' % (what, start))
            c.eq(pos.v, min(nx) if nx else start, 'next', '%s: member at or after %d' % (what, start))
        c.destroy(b)
        c.check(not c.leaks(), 'leak', 'storage is released')

    def resize(c):
        n0, n1 = c.choose(*SIZES), c.choose(0, 1, 10, 64, 65, 128, 200)
        b = mk(c, n0)
        model = {p for p in POS if p < (n0 or 0)}
        for p in sorted(model):
            c.call(b, 'Set', p)
        c.call(b, 'Resize', n1)
        got = members(c, b, 'resized')
        c.check({p for p in got if p < n1} == {p for p in model if p < n1} and set(got) <= model, 'resize-keeps',
                'resizing a set of %s bits holding %r to %d leaves %r' % (n0, sorted(model), n1, got))
        c.call(b, 'Set', max(n1 - 1, 0))
        c.check(max(n1 - 1, 0) in members(c, b, 'resized'), 'resize-usable', 'the last bit can be set after resizing to %d' % n1)
        c.destroy(b)
        c.check(not c.leaks(), 'leak', 'storage is released')

    def pair(c):
        """operations on two sets against the set algebra"""
        a, b = mk(c, c.choose(None, 64, 130)), mk(c, c.choose(None, 64, 130))
        A, B = set(), set()
        for p in c.choose((), (0, 63), (64, 129), (5, 64, 200)):
            c.call(a, 'Set', p)
            A.add(p)
        for p in c.choose((), (0,), (63, 64), (128, 129, 200)):
            c.call(b, 'Set', p)
            B.add(p)
        what = '%r, %r' % (sorted(A), sorted(B))
        for i in range(2):
            c.eq(c.call(a, 'IsIntersectionNonEmpty', b), bool(A & B), 'intersection', '%s: intersection is non-empty' % what)
            op = c.choose('or', 'andnot', 'assign', 'copy', 'move', 'self-or', 'self-andnot', 'self-assign') if i == 0 else c.choose('or', 'andnot', 'set')
            what += ' ' + op
            if op == 'or':
                c.call(a, 'Or', b)
                A |= B
            elif op == 'andnot':
                c.call(a, 'AndNot', b)
                A -= B
            elif op == 'self-or':
                c.call(a, 'Or', a)
            elif op == 'self-andnot':
                c.call(a, 'AndNot', a)
                A = set()
            elif op == 'assign':
                c.static('verif_unit::BitSets', 'Assign', a, b)
                A = set(B)
            elif op == 'self-assign':
                c.static('verif_unit::BitSets', 'Assign', a, a)
            elif op == 'set':
                c.call(a, 'Set', 65)
                A.add(65)
            else:
                n = obj(c, c.static('verif_unit::BitSets', 'Copy' if op == 'copy' else 'Move', a))
                content(c, n, A, what)
                c.call(n, 'Set', 3)
                content(c, n, A | {3}, what + ' set 3')
                if op == 'move':
                    c.delete(n)
                    A = set(members(c, a, 'moved-from'))
                else:
                    content(c, a, A, what + ' (original)')
                    c.delete(n)
            content(c, a, A, what)
            content(c, b, B, what + ' (other)')
        c.destroy(a)
        c.destroy(b)
        c.check(not c.leaks(), 'leak', 'storage is released')

    # ---- pools
    NAMES = ['alpha', 'beta', 'gamma', 'delta']

    def pool(c, n=2):
        return c.new(G + 'SimpleResourcePool', 'pool', n)

    def names(c):
        w = c.choose(1, 2, 3)
        p = pool(c, w)
        c.eq(c.call(p, 'width'), w, 'width', 'the width of the pool')
        same_text(c, c.call(p, 'name'), StrV('pool'), 'pool')
        model = []
        objs = []
        for i in range(4):
            nm = c.choose(*NAMES[:3])
            how = c.choose('add', 'get')
            if how == 'add':
                r = ok(c, c.call(p, 'AddResource', nm))
                fits = nm not in model and len(model) < w
                c.eq(r, fits, 'add-result', 'adding %s to %r of at most %d' % (nm, model, w))
                if fits:
                    model.append(nm)
                    objs.append(obj(c, c.call(p, 'GetResource', nm)))
            else:
                r = c.call(p, 'GetOrAddResource', nm)
                if nm in model:
                    c.same(r, objs[model.index(nm)], 'get-existing', 'asking for %s gives the existing resource' % nm)
                elif len(model) < w:
                    model.append(nm)
                    objs.append(obj(c, r))
                    c.check(not c.val(r).isnull, 'get-added', 'a resource is made')
                else:
                    c.same(r, None, 'get-full', 'a full pool gives no resource')
            for k in NAMES:
                c.same(c.call(p, 'GetResource', k), objs[model.index(k)] if k in model else None, 'lookup', 'resource %s of %r' % (k, model))
            for k in range(w + 2):
                c.same(c.call(p, 'GetResource', const(k, 32)), objs[k] if k < len(model) else None, 'lookup-index', 'resource %d of %r' % (k, model))
        for k, o in enumerate(objs):
            same_text(c, c.call(o, 'name'), StrV(model[k]), 'resource')
            c.eq(c.call(o, 'index'), k, 'index', 'the index of resource %d' % k)
            c.same(c.call(o, 'pool'), p, 'pool', 'the pool of a resource')
            content(c, obj(c, c.call(o, 'resource_bit')), {k}, 'bits of resource %d' % k)
        c.delete(p)
        c.check(not c.leaks(), 'leak', 'resources are freed with their pool')

    def shown(v):
        return text(v)

    def reserve(wide):
        def f(c):
            n = 130 if wide else 3
            p = pool(c, n)
            ids = [0, 63, 64, 129] if wide else [0, 1, 2]
            nm = lambda i: 'r%d' % i
            for i in range(n):
                c.call(p, 'AddResource', nm(i))
            res = {i: obj(c, c.call(p, 'GetResource', nm(i))) for i in ids}
            sets = []
            for sel in c.choose(((0, 1), (1, 2)), ((0,), ()), ((0, 1, 2), (2,))):
                st = obj(c, c.call(p, 'CreateResourceSet'))
                ms = {ids[k] for k in sel}
                for k in ms:
                    if wide:
                        c.check(ok(c, c.call(st, 'AddResource', nm(k))), 'set-add', 'adding a resource by name')
                    else:
                        c.check(ok(c, c.call(st, 'AddResource', res[k])), 'set-add', 'adding a resource')
                sets.append((st, ms))
            busy = set()
            what = ''
            for step in range(2 if wide and not s.thorough else 3):
                kind = c.choose('res', 'set')
                tgt, ms = (lambda k: (res[k], {k}))(c.choose(*ids[:2])) if kind == 'res' else c.choose(*sets)
                act = c.choose('Acquire', 'Release')
                c.call(tgt, act)
                busy = busy | ms if act == 'Acquire' else busy - ms
                what += ' %s%r' % (act, sorted(ms))
                for i in ids:
                    c.eq(c.call(res[i], 'IsFree'), i not in busy, 'free', '%s: resource %d free' % (what, i))
                    c.eq(c.call(p, 'IsFree', res[i]), i not in busy, 'free-pool', '%s: resource %d free' % (what, i))
                for st, ms in sets:
                    c.eq(c.call(st, 'IsFree'), not (busy & ms), 'free-set', '%s: set %r free' % (what, sorted(ms)))
                content(c, obj(c, c.call(p, 'resource_vector')), busy, what + ': busy resources')
                t = '[%s]' % ', '.join(nm(i) for i in sorted(busy))
                c.check(shown(c.val(c.call(p, 'ReservedAsString'))) == t, 'reserved-text', '%s: reserved resources read %s, required %s' % (what, shown(c.val(c.call(p, 'ReservedAsString'))), t))
            for st, ms in sets:
                t = '[%s]' % ', '.join(nm(i) for i in sorted(ms))
                c.check(shown(c.val(c.call(st, 'AsString'))) == t, 'set-text', 'set %r reads %s' % (sorted(ms), shown(c.val(c.call(st, 'AsString')))))
            c.delete(p)
            c.check(not c.leaks(), 'leak', 'resources and sets are freed with their pool')
        return f

    def sets(c):
        """set membership rules"""
        p, q = pool(c, 2), pool(c, 2)
        st = obj(c, c.call(p, 'CreateResourceSet'))
        own, other = obj(c, c.call(p, 'GetOrAddResource', 'own')), obj(c, c.call(q, 'GetOrAddResource', 'other'))
        c.check(lnot(ok(c, c.call(st, 'AddResource', other))), 'foreign', 'a resource of another pool is rejected')
        c.check(ok(c, c.call(st, 'AddResource', None, types=[G + 'SimpleResource *'])), 'null', 'a null resource is accepted and ignored')
        content(c, obj(c, c.call(st, 'resource_vector')), set(), 'set after rejected additions')
        c.check(ok(c, c.call(st, 'AddResource', own)), 'own', 'a resource of the pool is accepted')
        c.check(ok(c, c.call(st, 'AddResource', 'new')), 'by-name', 'an unknown name is added to the pool and the set')
        content(c, obj(c, c.call(st, 'resource_vector')), {0, 1}, 'set')
        c.check(not c.val(c.call(p, 'GetResource', 'new')).isnull, 'by-name-pool', 'the new name is in the pool')
        c.check(lnot(ok(c, c.call(st, 'AddResource', 'more'))), 'by-name-full', 'a name that does not fit the pool is rejected')
        content(c, obj(c, c.call(st, 'resource_vector')), {0, 1}, 'set')
        c.delete(q)
        c.delete(p)
        c.check(not c.leaks(), 'leak', 'resources and sets are freed with their pool')

    def operand(c):
        """a set acquired through an operand is released exactly latency cycles later"""
        p = pool(c, 3)
        for n in NAMES[:3]:
            c.call(p, 'AddResource', n)
        line = c.new(G + 'DelayLine<%sSimpleResourceDelayRecord>' % G, c.choose(4, 16))
        ops = []
        late = c.choose(True, False)
        for sel, lats in (((0, 1), (0, 1, 4, 9)), ((2,), (0, 2, 16))):
            st = obj(c, c.call(p, 'CreateResourceSet'))
            for k in sel:
                c.call(st, 'AddResource', NAMES[k])
            lat = c.choose(*lats)
            if late:
                op = c.new(G + 'SimpleResourceOperand', st, lat)
                c.call(op, 'set_delay_line', line)
            else:
                op = c.new(G + 'SimpleResourceOperand', st, lat, line)
            c.same(c.call(op, 'resource_set'), st, 'operand-set', 'the set of the operand')
            c.eq(c.call(op, 'latency'), lat, 'operand-latency', 'the latency of the operand')
            ops.append((op, st, lat, [NAMES[k] for k in sel]))
            c.check(text(c.val(c.call(op, 'AsString'))) == '[%s]' % ', '.join(NAMES[k] for k in sel), 'operand-text', 'the text of the operand')
        gap = c.choose(0, 1)
        rel = {}
        for t in range(0, 20):
            if t:
                c.call(line, 'Advance')
            for i, (op, st, lat, nm) in enumerate(ops):
                if t == i * gap:
                    c.eq(c.call(op, 'IsFree'), True, 'operand-free', 'free before acquisition')
                    c.call(op, 'Acquire')
                    rel[i] = t + lat
                busy = i in rel and t < rel[i]
                c.eq(c.call(op, 'IsFree'), not busy, 'operand-busy', 'cycle %d: set acquired at %s with latency %d is free' % (t, i * gap if i in rel else '-', lat))
                for x in nm:
                    c.eq(c.call(obj(c, c.call(p, 'GetResource', x)), 'IsFree'), not busy, 'operand-resource', 'cycle %d: resource %s is free' % (t, x))
        for op in ops:
            c.delete(op[0])
        c.delete(line)
        c.delete(p)
        c.check(not c.leaks(), 'leak', 'everything is released')

    def explicit(c):
        p = pool(c, 3)
        st = obj(c, c.call(p, 'CreateResourceSet'))
        c.call(st, 'AddResource', 'x')
        line = c.new(G + 'DelayLine<%sSimpleResourceDelayRecord>' % G, 4)
        op = c.new(G + 'SimpleResourceOperand', st, 2, line)
        c.call(st, 'Acquire')
        lat = c.choose(0, 1, 3, 4, None)
        c.call(op, 'Release', *([] if lat is None else [lat]))
        n = 2 if lat is None else lat
        for t in range(0, 7):
            if t:
                c.call(line, 'Advance')
            c.eq(c.call(op, 'IsFree'), t >= n, 'explicit-release', 'cycle %d after a release with latency %d: free' % (t, n))
    s.explore('bits', single)
    s.explore('resize', resize)
    s.explore('algebra', pair, limit=20000)
    s.explore('names', names, limit=20000)
    s.explore('reserve', reserve(False), limit=20000)
    s.explore('reserve-wide', reserve(True), limit=20000)
    s.explore('sets', sets)
    s.explore('operand', operand)
    s.explore('explicit', explicit)



# ---------------------------------------------------------------- complex resources
M64 = (1 << 64) - 1


def words(n):
    return [(n >> (64 * i)) & M64 for i in range(8)]


def run_complex(s):
    U64 = 'unsigned long'

    def mk(c, depth):
        st = c.new('verif_unit::State', 'cpu')
        c.base = set(map(id, c.leaks()))
        r = c.new(G + 'ComplexResource', st, 'unit', depth)
        return st, r

    def arr(c, r, what, n):
        v = c.val(c.call(r, 'bit_array'))
        nn = c.val(v.n)
        c.check(isc(nn) and cval(nn) == n, 'array-size', '%s: %s words of state, required %d' % (what, nn, n))
        return [c.val(lib.span_at(c.I, v, i)) for i in range(n)]

    def ones(depth, n):
        return [((1 << depth) - 1 >> (64 * i)) & M64 for i in range(n)]

    def advance(ws, k):
        """the window k cycles later: cycle k becomes cycle 0"""
        n = len(ws)
        q, r = divmod(k, 64)
        out = []
        for i in range(n):
            lo = ws[i + q] if i + q < n else const(0, 64)
            hi = ws[i + q + 1] if i + q + 1 < n else const(0, 64)
            out.append(bor(lshr(lo, const(r, 64)), shl(hi, const(64 - r, 64))) if r else lo)
        return out

    def use(depths, steps, late=True):
        def f(c):
            depth = c.choose(*depths)
            n = (depth + 63) // 64
            ds = [const(x, 64) for x in ones(depth, n)]
            st, r = mk(c, depth)
            held = [const(0, 64)] * n
            now = 0
            what = 'depth %d:' % depth
            c.eq(c.call(r, 'cycle_depth'), depth, 'depth', 'the cycle depth')
            for i in range(2):
                op = c.choose('Acquire', 'Release') if i else 'Acquire'
                m = c.choose(n, 1, n + 1) if i == 0 else n
                sp = [sym('m%d_%d' % (i, k), 64) for k in range(m)]
                c.call(r, op, sp)
                what += ' %s of %d words' % (op, m)
                for k in range(min(m, n)):
                    b = band(sp[k], ds[k])
                    held[k] = bor(held[k], b) if op == 'Acquire' else band(held[k], bnot(b))
                got = arr(c, r, what, n)
                for k in range(n):
                    if not c.eq(got[k], held[k], 'held', '%s: cycles %d-%d held' % (what, 64 * k, 64 * k + 63)):
                        return
                k = c.choose(*steps(depth)) if i == 0 else 0
                if k:
                    now += k
                    c.call(st, 'SetCycle', now)
                    what += ' advance %d' % k
                    held = advance(held, k)
                    if late and c.choose(False, True):
                        continue        # the next operation is the first to see the new cycle
                    c.call(r, 'IsFree', [0])
                    got = arr(c, r, what, n)
                    for k in range(n):
                        if not c.eq(got[k], held[k], 'advanced', '%s: cycles %d-%d held' % (what, 64 * k, 64 * k + 63)):
                            return
                    b = c.choose(0, 5, 63, depth - 1, depth - 64)
                    if 0 <= b < depth:
                        q = [const(x, 64) for x in words(1 << b)[:n]]
                        bit = trunc(lshr(held[b // 64], const(b % 64, 64)), 1)
                        c.eq(c.call(r, 'IsFree', q), lnot(bit), 'free', '%s: free in cycle %d' % (what, b))
            c.delete(r)
            c.check(all(id(o) in getattr(c, 'base', ()) for o in c.leaks()), 'leak', 'everything is released')
        return f

    def far(depths):
        def f(c):
            depth = c.choose(*depths)
            st, r = mk(c, depth)
            n = (depth + 63) // 64
            c.call(r, 'Acquire', [sym('w%d' % i, 64) for i in range(n)])
            c.call(st, 'SetCycle', depth + c.choose(0, 1, 63, 64, 1 << 40) if depth == 64 else depth + c.choose(1, 64, 1 << 40))
            c.eq(c.call(r, 'IsFree', [const(M64, 64)] * n), True, 'expired', 'depth %d: every reservation has expired after the whole window' % depth)
        return f

    def mask_range(c):
        """the cycle mask by first and last cycle"""
        depth = c.choose(20, 64, 128, 200)
        st, r = mk(c, depth)
        op = c.new(G + 'ComplexResourceOperand', r)
        same_text(c, c.call(op, 'AsString'), StrV('unit'), 'operand')
        for i in range(2):
            b, e = (c.choose(0, 3, 63, 64, 100), c.choose(0, 3, 19, 20, 63, 64, 65, 127, 128, 199)) if i == 0 else (c.choose(0, 64), c.choose(0, 70))
            good = b <= e < depth
            had = [] if i == 0 else got
            c.eq(ok(c, c.call(op, 'SetCycleMask', b, e)), good, 'range-result', 'cycles %d to %d of a depth of %d' % (b, e, depth))
            got = [c.val(x) for x in spanof(c, c.call(op, 'bit_array'))]
            if good:
                want = words(((1 << (e + 1)) - 1) & ~((1 << b) - 1))
                for k in range(max(len(got), e // 64 + 1)):
                    c.eq(got[k] if k < len(got) else const(0, 64), want[k], 'range-mask', 'cycles %d to %d: mask word %d' % (b, e, k))
            else:
                c.check(len(got) == len(had), 'range-rejected', 'a rejected mask leaves the previous one')
                for x, y in zip(got, had):
                    c.eq(x, y, 'range-rejected', 'a rejected mask leaves the previous one')
        c.delete(op)
        c.delete(r)
        c.check(all(id(o) in getattr(c, 'base', ()) for o in c.leaks()), 'leak', 'everything is released')

    def spanof(c, v):
        v = c.val(v)
        n = c.val(v.n)
        if not isc(n):
            raise Imprecise('symbolic span length')
        return [lib.span_at(c.I, v, i) for i in range(cval(n))]

    def mask_span(c):
        """the cycle mask as words"""
        depth = c.choose(20, 64, 128, 200)
        n = (depth + 63) // 64
        st, r = mk(c, depth)
        op = c.new(G + 'ComplexResourceOperand', r)
        had = []
        if c.choose(True, False):
            c.call(op, 'SetCycleMask', 1, 2)
            had = [const(6, 64)]
        m = c.choose(0, 1, n, n + 1)
        sp = [sym('m%d' % i, 64) for i in range(m)]
        res = ok(c, c.call(op, 'SetCycleMask', sp))
        fits = boolc(m <= n)
        if m == n and depth % 64:
            fits = land(fits, eq(lshr(sp[-1], const(depth % 64, 64)), const(0, 64)))
        some = const(0, 64)
        for x in sp:
            some = bor(some, x)
        some = lnot(eq(some, const(0, 64)))
        good = c.decide(land(fits, some))
        c.eq(res, good, 'span-result', 'a mask of %d words for a depth of %d' % (m, depth))
        got = [c.val(x) for x in spanof(c, c.call(op, 'bit_array'))]
        want = sp if good else had
        c.check(len(got) == len(want), 'span-mask', 'the mask has %d words, required %d' % (len(got), len(want)))
        for x, y in zip(got, want):
            c.eq(x, y, 'span-mask', 'a word of the mask')
        c.delete(op)
        c.delete(r)
        c.check(all(id(o) in getattr(c, 'base', ()) for o in c.leaks()), 'leak', 'everything is released')

    def operand(c):
        """operands reserve exactly their cycles, relative to the cycle of the acquisition"""
        depth = c.choose(64, 128)
        st, r = mk(c, depth)
        ops = []
        for b, e in (c.choose((0, 0), (2, 5), (60, 63)), c.choose((0, 3), (1, 1), (depth - 4, depth - 1))):
            op = c.new(G + 'ComplexResourceOperand', r)
            c.check(ok(c, c.call(op, 'SetCycleMask', b, e)), 'operand-mask', 'cycles %d to %d of %d' % (b, e, depth))
            ops.append((op, set(range(b, e + 1))))
        t1 = c.choose(0, 1, 3, 60)
        busy = set()
        for t, (op, cy) in ((0, ops[0]), (t1, ops[1])):
            c.call(st, 'SetCycle', t)
            want = {t + x for x in cy}
            c.eq(c.call(op, 'IsFree'), not (busy & want), 'operand-free', 'at cycle %d with cycles %r busy' % (t, sorted(busy)))
            c.call(op, 'Acquire')
            busy |= want
            for o2, c2 in ops:
                c.eq(c.call(o2, 'IsFree'), not (busy & {t + x for x in c2}), 'operand-busy', 'at cycle %d with cycles %r busy' % (t, sorted(busy)))
        for op, x in ops:
            c.delete(op)
        c.delete(r)
        c.check(all(id(o) in getattr(c, 'base', ()) for o in c.leaks()), 'leak', 'everything is released')

    def nores(c):
        op = c.new(G + 'ComplexResourceOperand', None)
        c.check(lnot(ok(c, c.call(op, 'SetCycleMask', 0, 1))), 'no-resource', 'an operand without resource rejects a mask')
        c.check(lnot(ok(c, c.call(op, 'SetCycleMask', [const(1, 64)]))), 'no-resource', 'an operand without resource rejects a mask')
        c.delete(op)
        c.check(all(id(o) in getattr(c, 'base', ()) for o in c.leaks()), 'leak', 'everything is released')
    s.explore('window', use((64, 128, 256), lambda d: (0, 1, 7, 63) + ((64,) if d == 64 else ())))
    s.explore('window-long-advance', use((128, 256), lambda d: (64, 65, 100, d - 1, d), late=False))
    s.explore('window-part-word', use((20, 100), lambda d: (0, 1, 7)))
    s.explore('window-expired', far((64, 128)))
    s.explore('mask-range', mask_range)
    s.explore('mask-words', mask_span)
    s.explore('operand', operand)
    s.explore('no-resource', nores)


PROPS = {
    'P23': dict(sources=SRC, run=run_bits, rule='typestate of resource pools, sets and operands against the algebra of sets of names; heap ownership'),
    'P24': dict(sources=SRC, run=run_complex, rule='bit provenance of the cycle window of complex resources under symbolic masks; masks of operands by range and by words'),
}
