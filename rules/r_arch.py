"""Registers, their operands and the architectural state that owns them."""
from rules.util import *
import lib
from rules.r_operands import ACC, check_shape, same_text, ints, conv

N = 'mpact/sim/generic/'
SRC = ['units/arch.cc', 'units/data_buffer.cc'] + [N + x + '.cc' for x in (
    'arch_state', 'component', 'register', 'control_register', 'data_buffer', 'state_item_base', 'program_error', 'fifo', 'fifo_with_notify',
    'token_fifo', 'simple_resource', 'resource_bitset')]
G = 'mpact::sim::generic::'


def item(base, t, dims='', src='Register'):
    return G + 'StateItem<%s%s, %s, %s%sSourceOperand<%s%s>, %s%sDestinationOperand<%s>%s>' % (G, base, t, G, src, t, ', void' if src == 'Fifo' else '', G, src, t, dims)


def state(c):
    return c.new('verif_unit::State', c.string('cpu'))


def factory(c, st):
    return obj(c, c.call(st, 'db_factory'))


def put(c, o, vals, name):
    for i, v in enumerate(vals):
        c.call(o, 'Set', i, v, targs=[name], types=['int', name])


def run_reg(s):
    KINDS = [('RegisterBase', '', [1]), ('RegisterBase', ', 4', [4]), ('RegisterBase', ', 2, 3', [2, 3])]

    def mk(c, name, w, kind=None):
        st = state(c)
        base, dims, shape = kind or c.choose(*KINDS)
        n = 1
        for d in shape:
            n *= d
        r = c.new(item(base, name, dims), st, c.string('reg'))
        return st, r, n, shape

    def fresh(name, w):
        def f(c):
            st, r, n, shape = mk(c, name, w)
            what = 'new register of %s %r' % (name, shape)
            check_shape(c, r, [const(d, 32) for d in shape], what)
            c.eq(c.call(r, 'size'), n * w // 8, 'size', '%s: size' % what)
            same_text(c, c.call(r, 'name'), c.string('reg'), what)
            c.same(c.call(r, 'arch_state'), st, 'owner', '%s: architectural state' % what)
            db = obj(c, c.call(r, 'data_buffer'))
            c.eq(c.call(db, 'ref_count'), 1, 'initial-reference', '%s holds exactly one reference to its value' % what)
            for i in range(n):
                c.eq(c.call(db, 'Get', i, targs=[name]), 0, 'zero', '%s reads 0' % what)
            c.delete(r)
            c.delete(st)
            c.check(not c.leaks(), 'leak', 'everything is released')
        return f

    def reads(name, w):
        def f(c):
            st, r, n, shape = mk(c, name, w)
            vals = [c.sym('v%d' % i, w) for i in range(n)]
            db = obj(c, c.call(r, 'data_buffer'))
            put(c, db, vals, name)
            if c.choose(True, False):
                src = obj(c, c.call(r, 'CreateSourceOperand'))
                same_text(c, c.call(src, 'AsString'), c.string('reg'), 'source operand')
            else:
                src = obj(c, c.call(r, 'CreateSourceOperand', c.string('alias')))
                same_text(c, c.call(src, 'AsString'), c.string('alias'), 'source operand')
            what = 'register of %s' % name
            check_shape(c, src, [const(d, 32) for d in shape], what)
            for i, v in enumerate(vals):
                c.eq(c.call(src, 'AsBool', i), lnot(eq(v, const(0, w))), 'AsBool', '%s: AsBool of element %d' % (what, i))
                for a, aw in ACC:
                    sg = name in SIGNED or not a.startswith('AsU')
                    c.eq(c.call(src, a, i), conv(v, sg, aw), a, '%s: %s of element %d' % (what, a, i))
            c.eq(c.call(db, 'ref_count'), 1, 'read-balance', '%s: reading leaves the reference count alone' % what)
        return f

    def outside(c):
        name, w = c.choose(*INTS)
        st, r, n, shape = mk(c, name, w)
        src = obj(c, c.call(r, 'CreateSourceOperand'))
        idx = c.sym('index', 32)
        c.assume(lnot(ult(idx, const(n, 32))))
        a = c.choose('AsInt8', 'AsUint64', 'AsBool', 'AsInt32')
        aborts(c, lambda: c.call(src, a, idx), 'index-rejected', 'reading beyond the last element is accepted')

    def writes(c):
        name, w = c.choose(('unsigned char', 8), ('unsigned int', 32), ('long', 64))
        st, r, n, shape = mk(c, name, w)
        fac = factory(c, st)
        lat = c.choose(0, 1, 2, 5, 20)
        opname = c.choose(None, 'dst')
        dst = obj(c, c.call(r, 'CreateDestinationOperand', lat)) if opname is None else obj(c, c.call(r, 'CreateDestinationOperand', lat, c.string('dst')))
        c.eq(c.call(dst, 'latency'), lat, 'operand-latency', 'latency of the destination operand')
        same_text(c, c.call(dst, 'AsString'), c.string('reg' if opname is None else 'dst'), 'destination operand')
        check_shape(c, dst, [const(d, 32) for d in shape], 'destination operand')
        old = [c.sym('old%d' % i, w) for i in range(n)]
        cur = obj(c, c.call(r, 'data_buffer'))
        put(c, cur, old, name)
        vals = [c.sym('v%d' % i, w) for i in range(n)]
        how = c.choose('allocate', 'copy', 'initialize')
        if how == 'allocate':
            db = obj(c, c.call(dst, 'AllocateDataBuffer'))
        elif how == 'copy':
            db = obj(c, c.call(dst, 'CopyDataBuffer'))
            for i in range(n):
                c.eq(c.call(db, 'Get', i, targs=[name]), old[i], 'copy-value', 'the copied buffer holds the register value')
        else:
            db = obj(c, c.call(fac, 'Allocate', n * w // 8))
            c.call(dst, 'InitializeDataBuffer', db)
        c.check(db is not cur, 'new-buffer', 'the buffer to write is not the register value itself')
        c.eq(c.call(db, 'size', targs=['unsigned char']), n * w // 8, 'buffer-size', 'the buffer has the size of the register')
        c.eq(c.call(db, 'latency'), lat, 'buffer-latency', 'the buffer carries the latency')
        put(c, db, vals, name)
        keep = c.choose(0, 1)
        if keep:
            c.call(db, 'IncRef')
        c.call(db, 'Submit')
        for t in range(lat + 2):
            if t:
                c.call(st, 'AdvanceDelayLines')
            c.eq(c.call(st, 'cycle'), t, 'cycle', 'cycles advanced')
            now = obj(c, c.call(r, 'data_buffer'))
            want = vals if t >= lat else old
            c.check(now is (db if t >= lat else cur), 'when', 'a write with latency %d is visible after %d cycle(s) exactly when due' % (lat, t))
            for i in range(n):
                c.eq(c.call(now, 'Get', i, targs=[name]), want[i], 'value', 'register value after %d of %d cycle(s)' % (t, lat))
            if t >= lat:
                c.eq(c.call(db, 'ref_count'), 1 + keep, 'write-balance', 'the register holds exactly one reference to its new value')
        # the replaced value is recycled, once
        g = [obj(c, c.call(fac, 'Allocate', n * w // 8)) for _ in range(3)]
        c.check(sum(1 for x in g if x is cur) == 1, 'old-recycled', 'the replaced value is recycled exactly once')
        c.check(all(x is not db for x in g), 'new-kept', 'the new value is not recycled while the register holds it')
        for x in g:
            c.call(x, 'DecRef')
        if keep:
            c.call(db, 'DecRef')
        if lat not in (0, 2) or opname:
            return
        c.delete(dst)
        c.delete(r)
        c.delete(st)
        c.check(not c.leaks(), 'leak', 'everything is released')

    def rewrite(c):
        """histories of direct updates, including an update with the present value"""
        st, r, n, shape = mk(c, 'unsigned int', 32, KINDS[0])
        fac = factory(c, st)
        cur = obj(c, c.call(r, 'data_buffer'))
        ext = {}
        known = [cur]
        for i in range(3):
            op = c.choose('new', 'same', 'older')
            if op == 'new':
                db = obj(c, c.call(fac, 'Allocate', 4))
                put(c, db, [c.sym('x%d' % i, 32)], 'unsigned int')
                ext[db] = 1
                known.append(db)
            elif op == 'same':
                db = cur
            else:
                held = [k for k in known if ext.get(k)]
                if not held:
                    return
                db = held[0]
            c.call(r, 'SetDataBuffer', db)
            cur = db
            c.same(c.call(r, 'data_buffer'), cur, 'updated', 'the register holds the buffer it was given')
            c.eq(c.call(cur, 'ref_count'), ext.get(cur, 0) + 1, 'update-balance', 'the register holds exactly one reference to its value')
            for k, e in ext.items():
                if k is not cur and e:
                    c.eq(c.call(k, 'ref_count'), e, 'update-releases', 'the register released its reference to a replaced value')
        a = obj(c, c.call(fac, 'Allocate', 4))
        c.check(a is not cur, 'held-not-recycled', 'a value the register holds is handed out again')
        b = obj(c, c.call(fac, 'Allocate', 4))
        c.check(b is not cur and a is not b, 'held-not-recycled', 'a value the register holds is handed out again')
        for x in (a, b):
            c.call(x, 'DecRef')
        for k, e in ext.items():
            c.call(k, 'DecRef')
        c.delete(r)
        c.delete(st)
        c.check(not c.leaks(), 'leak', 'everything is released')

    def reserved(c):
        st = state(c)
        pool = c.new(G + 'SimpleResourcePool', c.string('pool'), 8)
        rs = [obj(c, c.call(pool, 'GetOrAddResource', 'r%d' % i)) for i in range(3)]
        which = c.choose(0, 2)
        for x in rs:
            c.call(x, 'Acquire')
        r = c.new(item('ReservedRegisterBase', 'unsigned int'), st, c.string('reg'), rs[which])
        c.same(c.call(r, 'resource'), rs[which], 'resource', 'the attached resource')
        c.eq(c.call(rs[which], 'IsFree'), False, 'still-reserved', 'creating the register leaves the resource reserved')
        lat = c.choose(0, 1, 3)
        dst = obj(c, c.call(r, 'CreateDestinationOperand', lat))
        db = obj(c, c.call(dst, 'AllocateDataBuffer'))
        v = c.sym('v', 32)
        put(c, db, [v], 'unsigned int')
        c.call(db, 'Submit')
        for t in range(lat + 2):
            if t:
                c.call(st, 'AdvanceDelayLines')
            for i, x in enumerate(rs):
                c.eq(c.call(x, 'IsFree'), i == which and t >= lat, 'released-when-written', 'the resource is released exactly when the write lands (latency %d, cycle %d)' % (lat, t))
        c.eq(c.call(obj(c, c.call(r, 'data_buffer')), 'Get', 0, targs=['unsigned int']), v, 'value', 'the value written')
        c.call(rs[which], 'Acquire')
        kind = c.choose('same buffer', 'new buffer')
        b2 = obj(c, c.call(r, 'data_buffer')) if kind == 'same buffer' else obj(c, c.call(dst, 'AllocateDataBuffer'))
        c.call(r, 'SetDataBuffer', b2)
        if kind != 'same buffer':
            c.call(b2, 'DecRef')
        c.eq(c.call(rs[which], 'IsFree'), True, 'released-when-written', 'the resource, acquired again, is released by the next write (%s)' % kind)
        c.delete(dst)
        c.delete(r)
        c.delete(pool)
        c.delete(st)
        c.check(not c.leaks(), 'leak', 'everything is released')

    def reserved_none(c):
        st = state(c)
        r = c.new(item('ReservedRegisterBase', 'unsigned int'), st, c.string('reg'), None)
        db = obj(c, c.call(factory(c, st), 'Allocate', 4))
        c.call(r, 'SetDataBuffer', db)
        c.same(c.call(r, 'data_buffer'), db, 'updated', 'the register holds the buffer it was given')

    def control(c):
        st = state(c)
        calls = []
        fwd = c.choose(True, False)

        def upd(I, a):
            a = [c.val(x) for x in a]
            calls.append((a[0].t, a[1].t))
            if fwd:
                c.call(a[0].t, 'SetDataBuffer', a[1], cls=G + 'RegisterBase', nonvirtual=True)
        r = c.new(item('ControlRegisterBase', 'unsigned int'), st, c.string('reg'), c.fn(upd))
        c.check(not calls, 'no-early-callback', 'construction makes no update')
        first = obj(c, c.call(r, 'data_buffer'))
        lat = c.choose(0, 2)
        dst = obj(c, c.call(r, 'CreateDestinationOperand', lat))
        db = obj(c, c.call(dst, 'AllocateDataBuffer'))
        put(c, db, [c.sym('v', 32)], 'unsigned int')
        c.call(db, 'Submit')
        for t in range(lat + 2):
            if t:
                c.call(st, 'AdvanceDelayLines')
            c.check(len(calls) == (1 if t >= lat else 0), 'callback-once', 'the update function is called once, when the write lands')
        c.check(calls[0][0] is r and calls[0][1] is db, 'callback-arguments', 'the update function gets the register and the buffer')
        c.same(c.call(r, 'data_buffer'), db if fwd else first, 'callback-decides', 'only the update function changes the value')
        c.delete(dst)
        c.delete(r)
        c.delete(st)
        c.check(not c.leaks(), 'leak', 'everything is released')

    def devnull(c):
        st = state(c)
        name, w = c.choose(*INTS)
        shape = c.choose([1], [3], [2, 5])
        n = 1
        for d in shape:
            n *= d
        o = c.new(G + 'DevNullOperand<%s>' % name, st, [const(d, 32) for d in shape], c.string('zero'))
        check_shape(c, o, [const(d, 32) for d in shape], 'null operand')
        same_text(c, c.call(o, 'AsString'), c.string('zero'), 'null operand')
        c.eq(c.call(o, 'latency'), 0, 'latency', 'latency')
        fac = factory(c, st)
        old = c.new(item('RegisterBase', 'unsigned int'), st, c.string('reg'))
        cur = obj(c, c.call(old, 'data_buffer'))
        how = c.choose('AllocateDataBuffer', 'CopyDataBuffer', 'initialize')
        if how == 'initialize':
            db = obj(c, c.call(fac, 'Allocate', n * w // 8))
            c.call(db, 'set_destination', old)
            c.call(db, 'set_latency', 3)
            c.call(o, 'InitializeDataBuffer', db)
        else:
            db = obj(c, c.call(o, how))
        c.eq(c.call(db, 'size', targs=['unsigned char']), n * w // 8, 'buffer-size', 'the buffer has the size of the operand')
        c.call(db, 'Submit')
        c.call(st, 'AdvanceDelayLines')
        c.same(c.call(old, 'data_buffer'), cur, 'discarded', 'a write to the null operand changes nothing')
        c.delete(o)
        c.delete(old)
        c.delete(st)
        c.check(not c.leaks(), 'leak', 'everything is released')

    for name, w in INTS:
        s.explore('fresh', fresh(name, w))
        s.explore('reads', reads(name, w))
    s.explore('outside', outside)
    s.explore('writes', writes)
    s.explore('rewrite', rewrite)
    s.explore('reserved', reserved)
    s.explore('reserved-none', reserved_none)
    s.explore('control', control)
    s.explore('devnull', devnull)


# ---------------------------------------------------------------- architectural state
def run_state(s):
    def ownership(c):
        """registers and fifos, aliased or not, are deleted exactly once"""
        st = state(c)
        m = c.choose('registers', 'fifos')
        reg = m == 'registers'
        cls = item('RegisterBase', 'unsigned int') if reg else item('FifoBase', 'unsigned int', src='Fifo')
        add, rem = ('AddRegister', 'RemoveRegister') if reg else ('AddFifo', 'RemoveFifo')
        extra = [] if reg else [4]
        a = c.new(cls, st, 'a', *extra)
        b = c.new(cls, st, 'b', *extra)
        c.call(st, add, a)
        c.call(st, add, 'b', b)
        names = {'a': a, 'b': b}
        if c.choose(True, False):
            c.call(st, add, 'alias', a)
            names['alias'] = a
        gone = c.choose(None, 'a', 'b')
        if gone:
            c.call(st, rem, gone)
            o = names.pop(gone)
        got = {text(k): v for k, v in entries(c, c.call(st, m))}
        c.check(set(got) == set(names), 'lookup', 'the names known are %s, required %s' % (sorted(got), sorted(names)))
        for k, v in names.items():
            if k in got:
                c.same(got[k], v, 'lookup-object', 'the object known as %s' % k)
        c.delete(st)
        for o in (a, b):
            owned = any(v is o for v in names.values())
            c.check(o.alive != owned, 'deleted-once', 'an object known to the state is deleted with it, one removed is not')
        if gone is None or gone == 'a' and 'alias' in names:
            c.check(not c.leaks(), 'leak', 'everything is released')

    def created(c):
        """AddRegister<T>/AddFifo<T> create, register and return the object"""
        st = state(c)
        if c.choose(True, False):
            r = obj(c, c.call(st, 'AddRegister', 'x', targs=[item('RegisterBase', 'unsigned int')]))
            mp = entries(c, c.call(st, 'registers'))
        else:
            r = obj(c, c.call(st, 'AddFifo', 'x', 3, targs=[item('FifoBase', 'unsigned int', src='Fifo'), 'int']))
            mp = entries(c, c.call(st, 'fifos'))
            c.eq(c.call(r, 'Capacity'), 3, 'capacity', 'capacity of the created fifo')
        same_text(c, c.call(r, 'name'), StrV('x'), 'created item')
        c.check(len(mp) == 1, 'created-known', 'the created object is known to the state')
        c.same(mp[0][1], r, 'created-known', 'the created object is known to the state')
        c.same(c.call(r, 'arch_state'), st, 'created-owner', 'the created object refers to the state')
        c.delete(st)
        c.check(not r.alive, 'created-deleted', 'the created object is deleted with the state')
        c.check(not c.leaks(), 'leak', 'everything is released')

    def advance(c):
        """each delay line advances once per cycle"""
        st = state(c)
        lines = [obj(c, c.call(st, 'data_buffer_delay_line')), obj(c, c.call(st, 'function_delay_line'))]
        for i in range(c.choose(0, 1, 2)):
            lines.append(obj(c, c.call(st, 'CreateAndAddDelayLine', 8, targs=[G + 'DelayLine<%sFunctionDelayRecord>' % G, 'int'])))
        c.check(len(set(map(id, lines))) == len(lines), 'lines-distinct', 'delay lines are distinct')
        done = []
        now = [0]
        lats = [c.choose(1, 2, 4), c.choose(1, 3)]
        start = c.choose(None, 5)
        if start:
            c.call(st, 'SetCycle', start)
        fl = [lines[1]] + lines[2:]
        for i, l in enumerate(fl):
            for j, lat in enumerate(lats):
                c.call(l, 'Add', lat, c.fn(lambda I, a, i=i, j=j: done.append((now[0], i, j))))
        for t in range(1, 6):
            now[0] = t
            c.call(st, 'AdvanceDelayLines')
            c.eq(c.call(st, 'cycle'), (start or 0) + t, 'cycle', 'the cycle count')
            got = sorted((i, j) for x, i, j in done if x == t)
            want = sorted((i, j) for i in range(len(fl)) for j, lat in enumerate(lats) if lat == t)
            c.check(got == want, 'advanced-once', 'cycle %d runs %r, due are %r' % (t, got, want))
        c.delete(st)
        c.check(not c.leaks(), 'leak', 'everything is released')

    def pending(c):
        """destruction with writes in flight releases everything and delivers nothing"""
        st = state(c)
        r = obj(c, c.call(st, 'AddRegister', 'x', targs=[item('RegisterBase', 'unsigned int')]))
        f = obj(c, c.call(st, 'AddFifo', 'f', 3, targs=[item('FifoBase', 'unsigned int', src='Fifo'), 'int']))
        d1 = obj(c, c.call(r, 'CreateDestinationOperand', 3))
        d2 = obj(c, c.call(f, 'CreateDestinationOperand', c.choose(0, 2)))
        for d in (d1, d2, d2):
            c.call(obj(c, c.call(d, 'AllocateDataBuffer')), 'Submit')
        for i in range(c.choose(0, 1, 2, 3)):
            c.call(st, 'AdvanceDelayLines')
        c.delete(d1)
        c.delete(d2)
        c.delete(st)
        c.check(not c.leaks(), 'leak', 'everything is released')

    def basics(c):
        pc = c.host(G + 'SourceOperandInterface', 'pc')
        st = c.new('verif_unit::State', c.string('cpu'), pc)
        same_text(c, c.call(st, 'id'), c.string('cpu'), 'state')
        c.same(c.call(st, 'pc_operand'), pc, 'pc', 'the program counter operand')
        pc2 = c.host(G + 'SourceOperandInterface', 'pc2')
        c.call(st, 'SetPc', pc2)
        c.same(c.call(st, 'pc_operand'), pc2, 'pc', 'the program counter operand')
        c.check(not c.val(c.call(st, 'program_error_controller')).isnull, 'errors', 'the state has a program error controller')
        c.eq(c.call(st, 'cycle'), 0, 'cycle', 'the cycle count')
    s.explore('ownership', ownership)
    s.explore('created', created)
    s.explore('advance', advance)
    s.explore('pending', pending)
    s.explore('basics', basics)


# ---------------------------------------------------------------- fifos
class Fifo(object):
    def __init__(self, c, kind, cap, tokens=None):
        self.c, self.kind, self.cap = c, kind, cap
        self.st = c.new('verif_unit::State', 'cpu')
        self.fac = factory(c, self.st)
        base = {'plain': 'FifoBase', 'token': 'TokenFifoBase', 'notify': 'FifoWithNotifyBase'}[kind]
        self.cls = item(base, 'unsigned int', src='Fifo')
        self.ctl = obj(c, c.call(self.st, 'program_error_controller'))
        self.f = self.make('f', tokens)
        self.q, self.res = [], 0
        self.n = 0
        self.bufs = []

    def make(self, name, tokens=None):
        c = self.c
        f = c.new(self.cls, *([self.st, name, self.cap] + ([tokens] if self.kind == 'token' else [])))
        for e, m in ((name + 'over', 'SetOverflowProgramError'), (name + 'under', 'SetUnderflowProgramError')):
            c.call(self.ctl, 'AddProgramErrorName', e)
            pe = c.call(self.ctl, 'GetProgramError', e)
            c.call(f, m, Ptr(c.val(pe)))
        return f

    def errors(self):
        c = self.c
        names = [text(c.val(x)) for x in c.val(c.call(self.ctl, 'GetUnmaskedErrorNames')).items]
        c.call(self.ctl, 'ClearAll')
        return names

    def buf(self):
        c = self.c
        b = obj(c, c.call(self.fac, 'Allocate', 4))
        put(c, b, [const(len(self.bufs) + 1, 32)], 'unsigned int')
        self.bufs.append(b)
        return b


def run_fifo(s):
    def agree(c, F, hist, full, over):
        f = F.f
        h = '; '.join(hist)
        c.eq(c.call(f, 'Available'), len(F.q), 'available', 'number of elements after %s' % h)
        c.eq(c.call(f, 'Reserved'), F.res, 'reserved', 'number of reserved slots after %s' % h)
        c.eq(c.call(f, 'IsEmpty'), not F.q and F.res == 0, 'is-empty', 'IsEmpty after %s' % h)
        c.eq(c.call(f, 'IsFull'), full, 'is-full', 'IsFull after %s' % h)
        c.eq(c.call(f, 'IsOverSubscribed'), over, 'over-subscribed', 'IsOverSubscribed after %s' % h)
        for b in F.bufs:
            c.check(b.alive, 'alive', 'buffers live while referenced')
            c.eq(c.call(b, 'ref_count'), 1 + F.q.count(b), 'balance', 'the fifo holds one reference per element (%s)' % h)
        e = F.errors()
        c.check(not e, 'no-spurious-error', '%s raises %r' % (h, e))
        if F.q:
            c.same(c.call(f, 'Front'), F.q[0], 'front', 'the oldest element is at the front (%s)' % h)
            e = F.errors()
            c.check(not e, 'no-spurious-error', 'Front after %s raises %r' % (h, e))

    def plain(kind, depth):
        def g(c):
            cap = c.choose(1, 2, 3)
            F = Fifo(c, kind, cap)
            c.eq(c.call(F.f, 'Capacity'), cap, 'capacity', 'capacity')
            f = F.f
            hist = ['capacity %d' % cap]
            ev = []
            if kind == 'notify':
                c.call(f, 'SetOnNotEmpty', c.fn(lambda I, a: ev.append(('not-empty', c.val(a[0]).t))))
                c.call(f, 'SetOnEmpty', c.fn(lambda I, a: ev.append(('empty', c.val(a[0]).t))))
            for i in range(depth):
                ops = ['push', 'pop'] + (['reserve'] if kind == 'plain' else []) + (['again'] if F.bufs else [])
                op = c.choose(*ops)
                hist.append(op)
                del ev[:]
                if op in ('push', 'again'):
                    b = F.bufs[-1] if op == 'again' else F.buf()
                    was = not F.q
                    F.res = max(0, F.res - 1)
                    fits = len(F.q) + F.res < cap
                    via = kind == 'plain' and i == 0 and c.choose(False, True)
                    if via:
                        c.call(f, 'SetDataBuffer', b)
                    else:
                        r = c.call(f, 'Push', b)
                        c.eq(r, fits, 'push-result', 'Push reports whether the element was stored (%s)' % '; '.join(hist))
                    if fits:
                        F.q.append(b)
                    e = F.errors()
                    c.check(e == ([] if fits else ['fover']), 'overflow', '%s raises %r' % ('; '.join(hist), e))
                    if kind == 'notify' and fits:
                        c.check(ev == ([('not-empty', f)] if was else []), 'notify-not-empty', '%s: notifications %r' % ('; '.join(hist), [x[0] for x in ev]))
                elif op == 'pop':
                    had = bool(F.q)
                    c.call(f, 'Pop')
                    if had:
                        F.q.pop(0)
                    e = F.errors()
                    c.check(e == ([] if had else ['funder']), 'underflow', '%s raises %r' % ('; '.join(hist), e))
                    if kind == 'notify' and had:
                        c.check(ev == ([] if F.q else [('empty', f)]), 'notify-empty', '%s: notifications %r' % ('; '.join(hist), [x[0] for x in ev]))
                else:
                    k = c.choose(1, 2)
                    hist[-1] = 'reserve %d' % k
                    c.call(f, 'Reserve', k)
                    F.res += k
                agree(c, F, hist, len(F.q) + F.res >= cap, len(F.q) + F.res > cap)
            if not F.q:
                c.check(c.val(c.call(f, 'Front')).isnull, 'front-empty', 'Front of an empty fifo is null')
                c.check(F.errors() == ['funder'], 'underflow', 'Front of an empty fifo raises the underflow error')
            c.delete(f)
            for b in F.bufs:
                c.eq(c.call(b, 'ref_count'), 1, 'destroyed', 'destroying the fifo releases its elements')
        return g

    def silent(c):
        """without program errors attached, over- and underflow are only reported"""
        st = c.new('verif_unit::State', 'cpu')
        kind = c.choose('FifoBase', 'TokenFifoBase', 'FifoWithNotifyBase')
        ts = c.new(G + 'FifoTokenStore', 1)
        f = c.new(item(kind, 'unsigned int', src='Fifo'), *([st, 'f', 1] + ([ts] if 'Token' in kind else [])))
        fac = factory(c, st)
        a, b = [obj(c, c.call(fac, 'Allocate', 4)) for _ in range(2)]
        c.check(c.val(c.call(f, 'Front')).isnull, 'front-empty', 'Front of an empty fifo is null')
        c.call(f, 'Pop')
        c.eq(c.call(f, 'Push', a), True, 'push-result', 'push')
        c.eq(c.call(f, 'Push', b), False, 'push-result', 'push beyond capacity')
        c.eq(c.call(b, 'ref_count'), 1, 'balance', 'a rejected buffer is not referenced')
        c.eq(c.call(f, 'Available'), 1, 'available', 'elements')

    def token(depth):
        def g(c):
            cap, n = c.choose((2, 3), (4, 2))
            ts = c.new(G + 'FifoTokenStore', n)
            F = Fifo(c, 'token', cap, ts)
            f2 = F.make('g', ts)
            fs = [F.f, f2]
            qs = [[], []]
            res = [0, 0]
            hist = ['capacity %d, %d token(s)' % (cap, n)]
            for i in range(depth):
                k, op = c.choose(*[(k, op) for k in ((0, 1) if i else (0,)) for op in ('push', 'pop', 'reserve')])
                hist.append('%s %s' % (op, 'fg'[k]))
                h = '; '.join(hist)
                free = n - len(qs[0]) - len(qs[1])
                if op == 'push':
                    b = F.buf()
                    r2 = max(0, res[k] - 1)
                    fits = free > 0 and r2 < free and len(qs[k]) + r2 < cap
                    r = c.call(fs[k], 'Push', b)
                    c.eq(r, fits, 'push-result', 'Push reports whether the element was stored (%s)' % h)
                    e = F.errors()
                    c.check(e == ([] if fits else ['fg'[k] + 'over']), 'overflow', '%s raises %r' % (h, e))
                    if fits:
                        qs[k].append(b)
                        res[k] = r2
                    else:
                        res[k] = cval(c.val(c.call(fs[k], 'Reserved')))
                        c.check(res[k] in (r2, r2 + 1), 'reserved', 'reserved slots after %s' % h)
                elif op == 'pop':
                    had = bool(qs[k])
                    c.call(fs[k], 'Pop')
                    if had:
                        qs[k].pop(0)
                    e = F.errors()
                    c.check(e == ([] if had else ['fg'[k] + 'under']), 'underflow', '%s raises %r' % (h, e))
                else:
                    c.call(fs[k], 'Reserve', 1)
                    res[k] += 1
                free = n - len(qs[0]) - len(qs[1])
                c.eq(c.call(ts, 'available'), free, 'tokens', 'free tokens are the capacity minus the elements of all fifos (%s)' % h)
                for j in (0, 1):
                    F.f, F.q, F.res = fs[j], qs[j], res[j]
                    c.eq(c.call(F.f, 'Available'), len(F.q), 'available', 'elements after %s' % h)
                    c.eq(c.call(F.f, 'Reserved'), F.res, 'reserved', 'reserved slots after %s' % h)
                    c.eq(c.call(F.f, 'IsFull'), free == 0 or F.res >= free or len(F.q) + F.res >= cap, 'is-full', 'IsFull after %s' % h)
                    c.eq(c.call(F.f, 'IsEmpty'), not F.q and F.res == 0, 'is-empty', 'IsEmpty after %s' % h)
                    if F.q:
                        c.same(c.call(F.f, 'Front'), F.q[0], 'front', 'front after %s' % h)
                for b in F.bufs:
                    c.eq(c.call(b, 'ref_count'), 1 + qs[0].count(b) + qs[1].count(b), 'balance', 'one reference per element (%s)' % h)
        return g

    def store(c):
        n = c.choose(0, 1, 3)
        ts = c.new(G + 'FifoTokenStore', n)
        c.eq(c.call(ts, 'capacity'), n, 'store-capacity', 'capacity')
        out = 0
        for i in range(5):
            if c.choose(True, False):
                can = out < n
                r = c.val(c.call(ts, 'Acquire'))
                out += can
            else:
                can = out > 0
                r = c.val(c.call(ts, 'Release'))
                out -= can
            c.eq(ok(c, r), can, 'store-status', 'a token is handed out or taken back only when possible')
            c.eq(c.call(ts, 'available'), n - out, 'store-count', 'free tokens')

    def reads(c):
        name, w = c.choose(*INTS)
        n, dims = c.choose((1, ''), (4, ', 4'))
        st = c.new('verif_unit::State', 'cpu')
        f = c.new(item('FifoBase', name, dims, src='Fifo'), st, c.string('f'), 2)
        src = obj(c, c.call(f, 'CreateSourceOperand', c.string('op')) if c.choose(True, False) else c.call(f, 'CreateSourceOperand'))
        check_shape(c, src, [const(n, 32)], 'fifo operand')
        for a, aw in ACC + [('AsBool', 1)]:
            c.eq(c.call(src, a, 0), 0, 'empty-reads-zero', 'reading an empty fifo yields 0')
        fac = factory(c, st)
        bufs = []
        for k in range(2):
            b = obj(c, c.call(fac, 'Allocate', n * w // 8))
            vals = [c.sym('v%d_%d' % (k, i), w) for i in range(n)]
            put(c, b, vals, name)
            c.call(f, 'Push', b)
            bufs.append(vals)
        for k in range(2):
            for i, v in enumerate(bufs[k]):
                c.eq(c.call(src, 'AsBool', i), lnot(eq(v, const(0, w))), 'AsBool', 'fifo of %s: AsBool' % name)
                for a, aw in ACC:
                    c.eq(c.call(src, a, i), conv(v, not a.startswith('AsU'), aw), a, 'fifo of %s: %s of element %d' % (name, a, i))
            c.call(f, 'Pop')

    def writes(c):
        st = c.new('verif_unit::State', 'cpu')
        name, w = c.choose(('unsigned char', 8), ('unsigned int', 32), ('long', 64))
        n, dims = c.choose((1, ''), (4, ', 4'))
        f = c.new(item('FifoBase', name, dims, src='Fifo'), st, c.string('f'), 2)
        lat = c.choose(0, 1, 3)
        opname = c.choose('f', 'op')
        d = obj(c, c.call(f, 'CreateDestinationOperand', lat)) if opname == 'f' else obj(c, c.call(f, 'CreateDestinationOperand', lat, c.string('op')))
        same_text(c, c.call(d, 'AsString'), c.string(opname), 'fifo operand')
        check_shape(c, d, [const(n, 32)], 'fifo operand')
        c.eq(c.call(d, 'latency'), lat, 'operand-latency', 'latency of the operand')
        if c.choose(True, False):
            b = obj(c, c.call(d, 'AllocateDataBuffer'))
        else:
            b = obj(c, c.call(factory(c, st), 'Allocate', n * w // 8))
            c.call(d, 'InitializeDataBuffer', b)
        c.eq(c.call(b, 'size', targs=['unsigned char']), n * w // 8, 'buffer-size', 'the buffer has the size of an element')
        v = c.sym('v', w)
        put(c, b, [v], name)
        c.call(b, 'Submit')
        for t in range(lat + 2):
            if t:
                c.call(st, 'AdvanceDelayLines')
            c.eq(c.call(f, 'Available'), 1 if t >= lat else 0, 'when', 'a write with latency %d arrives after %d cycle(s) exactly when due' % (lat, t))
        c.same(c.call(f, 'Front'), b, 'value', 'the element written')
        c.eq(c.call(b, 'ref_count'), 1, 'balance', 'the fifo holds the only reference')
        c.eq(c.call(b, 'Get', 0, targs=[name]), v, 'value', 'the value written')

    def depth(c):
        """configuration import sets the depth"""
        st = c.new('verif_unit::State', 'cpu')
        f = c.new(item('FifoBase', 'unsigned int', src='Fifo'), st, 'f', 2)
        P = 'mpact::sim::proto::'
        d = c.new(P + 'ComponentData')
        c.call(d, 'set_name', 'f')
        n = c.choose(1, 2, 5)
        e = obj(c, c.call(d, 'add_configuration'))
        c.call(e, 'set_name', 'depth')
        c.call(e, 'set_uint64_value', n)
        r = c.call(f, 'Import', d)
        c.eq(ok(c, r), True, 'import', 'the import succeeds')
        c.eq(c.call(f, 'Capacity'), n, 'depth', 'the capacity after importing the depth')
    D = 6 if s.thorough else 4
    s.explore('plain', plain('plain', D), limit=60000)
    s.explore('notify', plain('notify', D), limit=60000)
    s.explore('token', token(5 if s.thorough else 4), limit=60000)
    s.explore('silent', silent)
    s.explore('store', store)
    s.explore('reads', reads)
    s.explore('writes', writes)
    s.explore('depth', depth)


PROPS = {
    'P20': dict(sources=SRC, run=run_reg, rule='bit provenance of typed register reads; delivery time, value and reference balance of register writes for enumerated kinds and latencies'),
    'P21': dict(sources=SRC, run=run_state, rule='ownership and effect analysis of the architectural state: names, aliases, delay lines, destruction'),
    'P22': dict(sources=SRC, run=run_fifo, rule='typestate of fifos over all bounded push/pop/reserve histories against a queue; reference balance, tokens, notifications and program errors'),
}
