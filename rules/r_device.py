"""Memory mapped devices and the Renode front end."""
from rules.util import *
from rules import r_memory
from rules.r_memory import World, load_protocol, same_bytes
from values import *

T_ = T

N = 'mpact/sim/generic/'
U = 'mpact/sim/util/'
G = 'mpact::sim::generic::'
M = 'mpact::sim::util::'
R = M + 'renode::'
BASE = ['units/device.cc'] + [N + x + '.cc' for x in (
    'arch_state', 'component', 'instruction', 'data_buffer', 'state_item_base', 'program_error', 'simple_resource', 'resource_bitset')]
OFFS = (0, 4, 8, 0xc, 0x10, 0x14, 0x18, 0x1c, 0x20, 0xfffc)


class Uart(object):
    """the registers of the device"""

    def __init__(self):
        self.lcr = const(0, 32)
        self.low = self.high = self.ie = self.scratch = const(0, 32)
        self.out = []

    def dlab(self, c):
        return c.decide(eq(trunc(lshr(self.lcr, const(7, 32)), 1), const(1, 1)))

    def write(self, c, off, v):
        if off == 0:
            if self.dlab(c):
                self.low = v
            else:
                self.out.append(trunc(v, 8))
        elif off == 4:
            if self.dlab(c):
                self.high = v
            else:
                self.ie = v
        elif off == 0xc:
            self.lcr = v
        elif off == 0x1c:
            self.scratch = v

    def read(self, c, off):
        z = const(0, 32)
        if off == 0:
            return self.low if self.dlab(c) else z
        if off == 4:
            return self.high if self.dlab(c) else self.ie
        return {0xc: self.lcr, 0x1c: self.scratch}.get(off, z)


def run_uart(s):
    def make(c):
        w = World(c)
        os = StreamV('out')
        u = c.new(M + 'SimpleUart', w.state(), os)
        return w, u, os

    def load(c, w, u, a, n):
        d = w.db([const(0xee, 8)] * n)
        c.call(u, 'Load', const(a, 64), d, None, None)
        return w.bytes(d, n)

    def registers(c, w, u, m, base, what):
        # ordinary registers, then the divisor latch behind the DLAB bit
        for off in OFFS:
            same_bytes(c, load(c, w, u, base + off, 4), splitb(m.read(c, off)), 'register', '%s register at offset %#x' % (what, off))

    def output(c, os, m, what):
        got = os.s.chars()
        c.check(got is not None and len(got) == len(m.out), 'output', '%s %s characters written, required %d' % (what, got and len(got), len(m.out)))
        for g, x in zip(got or [], m.out):
            c.eq(g, x, 'output', what + ' a character written to the output')

    def single(depth):
        def f(c):
            w, u, os = make(c)
            m = Uart()
            base = c.choose(0, 0x1000_0000)
            what = 'after'
            for i in range(depth):
                off = c.choose(*OFFS)
                v = c.sym('v%d' % i, 32)
                c.call(u, 'Store', const(base + off, 64), w.db(splitb(v)))
                m.write(c, off, v)
                what += ' a store to %#x;' % off
                output(c, os, m, what)
            registers(c, w, u, m, base, what)
            output(c, os, m, what + ' loads;')
        return f

    def dlab(c):
        """the divisor latch and the registers it hides keep their values"""
        w, u, os = make(c)
        m = Uart()
        what = 'after'
        order = c.choose((0x0c, 0, 4, 0x0c, 0, 4), (0, 4, 0x0c, 4, 0, 0x0c), (4, 0x0c, 0x0c, 4, 0x0c, 0))
        n = 0
        for off in order:
            if off == 0xc:
                n += 1
                v = const((0x80, 0x83, 0x03, 0xffffff7f)[c.choose(0, 1) if n == 1 else c.choose(1, 2, 3)], 32)
            else:
                v = c.sym('v%d' % len(what), 32)
            c.call(u, 'Store', const(off, 64), w.db(splitb(v)))
            m.write(c, off, v)
            what += ' a store to %#x;' % off
        output(c, os, m, what)
        registers(c, w, u, m, 0, what)
        for bit in (0x80, 0):
            c.call(u, 'Store', const(0xc, 64), w.db(splitb(const(bit, 32))))
            m.write(c, 0xc, const(bit, 32))
            registers(c, w, u, m, 0, what + ' DLAB %d;' % (bit != 0))

    def wide(c):
        """accesses of several words: one register per word, in order"""
        w, u, os = make(c)
        m = Uart()
        off = c.choose(0, 4, 8, 0x10, 0x18, 0xfff8)
        n = c.choose(2, 3, 4)
        vs = [c.sym('v%d' % i, 32) for i in range(n)]
        c.call(u, 'Store', const(0x4000_0000 + off, 64), w.db([b for v in vs for b in splitb(v)]))
        for i, v in enumerate(vs):
            m.write(c, off + 4 * i, v)
        what = 'after a store of %d words at %#x;' % (n, off)
        output(c, os, m, what)
        registers(c, w, u, m, 0, what)
        got = load(c, w, u, off, 4 * n)
        for i in range(n):
            same_bytes(c, got[4 * i:4 * i + 4], splitb(m.read(c, off + 4 * i)), 'register', '%s load of %d words, word %d' % (what, n, i))

    def odd(c):
        """unaligned accesses and sizes that are not words"""
        w, u, os = make(c)
        m = Uart()
        for off in (0x1c, 4, 0xc):
            v = c.sym('v%d' % off, 32)
            c.call(u, 'Store', const(off, 64), w.db(splitb(v)))
            m.write(c, off, v)
        a, n = c.choose((0, 1), (0x1c, 1), (0x1c, 2), (0x1c, 3), (0xd, 4), (0x1e, 4), (0x1f, 1), (4, 5), (3, 4), (1, 8), (0xc, 6))
        what = 'access of %d bytes at %#x:' % (n, a)
        same_bytes(c, load(c, w, u, a, n), [const(0, 8)] * n, 'misaligned-load', what + ' load is zero')
        c.call(u, 'Store', const(a, 64), w.db(w.fresh(n)))
        output(c, os, m, what)
        registers(c, w, u, m, 0, what)

    def deliver(c):
        w, u, os = make(c)
        v = c.sym('v', 32)
        c.call(u, 'Store', const(0x1c, 64), w.db(splitb(v)))
        a, n, want = c.choose((0x1c, 4, splitb(v)), (0x1d, 4, [const(0, 8)] * 4), (0x1c, 1, [const(0, 8)]))

        def issue(lat, inst, ctx):
            d = w.db([const(0xee, 8)] * n, lat)
            c.call(u, 'Load', const(a, 64), d, inst, ctx)
            same_bytes(c, w.bytes(d, n), want, 'register', 'load with an instruction')
            c.eq(c.call(d, 'ref_count'), 1, 'buffer-reference', 'references to the data buffer after the load')
        load_protocol(c, w, issue, 'load')
    s.explore('single', single(2))
    if s.thorough:
        s.explore('triple', single(3), limit=60000)
    s.explore('dlab', dlab)
    s.explore('wide', wide)
    s.explore('odd', odd)
    s.explore('deliver', deliver)

    # ---- accesses forwarded to the system bus
    def rig(c, r, wr):
        log = []
        mem = {}

        def read(I, a):
            a = [c.val(x) for x in a]
            n = cval(a[2])
            got = n if r is True else r
            log.append(('read', a[0], n))
            bs = w.fresh(n)
            mem['in'] = bs
            import libcalls
            da, do = libcalls.arrview(I, a[1], 'read')
            for i in range(min(got, n)):
                I.elem(da, do + i, ty(c, 'char')).set(bs[i])
            return const(got, 32)

        def write(I, a):
            a = [c.val(x) for x in a]
            n = cval(a[2])
            import libcalls
            sa, so = libcalls.arrview(I, a[1], 'write')
            log.append(('write', a[0], n, [I.load(I.elem(sa, so + i, ty(c, 'unsigned char'))) for i in range(n)]))
            return const(n if wr is True else wr, 32)
        w = World(c)
        w.state()
        m = obj(c, c.static('verif_unit::Use', 'Access', c.fn(read) if r is not None else None, c.fn(write) if wr is not None else None))
        return w, m, log, mem

    def bus(c):
        has = c.choose('both', 'read', 'write', 'none')
        late = c.choose(False, True)
        r, wr = has in ('both', 'read') or None, has in ('both', 'write') or None
        w, m, log, mem = rig(c, r, wr)
        c.eq(c.call(m, 'has_read_fcn'), r is not None, 'has-function', 'has_read_fcn')
        c.eq(c.call(m, 'has_write_fcn'), wr is not None, 'has-function', 'has_write_fcn')
        if late:
            extra = []

            def rd(I, a):
                extra.append('read')
                return c.val(a[2])

            def wrf(I, a):
                extra.append('write')
                return c.val(a[2])
            c.call(m, 'set_read_fcn', c.fn(rd))
            c.call(m, 'set_write_fcn', c.fn(wrf))
        n = c.choose(1, 4, 8, 24)
        a = c.sym('a', 64)
        old = w.fresh(n)
        d = w.db(old)
        c.call(m, 'Load', a, d, None, None)
        if late:
            c.check(extra == ['read'] and not log, 'replaced', 'the load uses the function set last')
        elif r:
            c.check([x[0] for x in log] == ['read'] and log[0][2] == n, 'one-read', 'a load of %d bytes reads %r' % (n, [x[2] for x in log]))
            c.eq(log[0][1], a, 'address', 'address read')
            same_bytes(c, w.bytes(d, n), mem['in'], 'data', 'load of %d bytes' % n)
        else:
            c.check(not log, 'one-read', 'no function')
            same_bytes(c, w.bytes(d, n), [const(0, 8)] * n, 'zero', 'a load without read function')
        del log[:]
        data = w.fresh(n)
        d = w.db(data)
        c.call(m, 'Store', a, d)
        if late:
            c.check(extra == ['read', 'write'] and not log, 'replaced', 'the store uses the function set last')
        elif wr:
            c.check([x[0] for x in log] == ['write'] and log[0][2] == n, 'one-write', 'a store of %d bytes writes %r' % (n, [x[2] for x in log]))
            c.eq(log[0][1], a, 'address', 'address written')
            same_bytes(c, log[0][3], data, 'data', 'store of %d bytes' % n)
        else:
            c.check(not log, 'one-write', 'no function')
        same_bytes(c, w.bytes(d, n), data, 'data', 'the buffer of a store is unchanged')

    def busdeliver(c):
        kind = c.choose('read', 'null', 'short')
        w, m, log, mem = rig(c, None if kind == 'null' else 2 if kind == 'short' else True, True)

        def issue(lat, inst, ctx):
            d = w.db([const(0xee, 8)] * 4, lat)
            c.call(m, 'Load', const(0x100, 64), d, inst, ctx)
        load_protocol(c, w, issue, {'read': 'load', 'null': 'load without a read function', 'short': 'load that reads too little'}[kind])
    s.explore('bus', bus)
    s.explore('bus-deliver', busdeliver)


# ---------------------------------------------------------------- Renode agent

class Sim(object):
    """the debug interfaces the agent creates"""

    def __init__(self, c):
        self.c = c
        self.made = []          # (name, cpu type, memory access, host object)
        self.fail = False
        self.calls = []
        self.answers = {}
        c.I.ext = {'CreateMpactSim': self.create}

    def create(self, I, a, f, node):
        c = self.c
        name, cpu, mem = c.val(a[0]), c.val(a[1]), c.val(a[2])
        self.made.append([text(name), text(cpu), mem.t])
        if self.fail:
            self.made[-1].append(None)
            return null()
        h = c.host(R + 'RenodeDebugInterface', 'sim%d' % len(self.made), {'*': self.method})
        I.alloc(h, 'new')
        self.made[-1].append(h)
        return Ptr(h)

    def method(self, I, this, callee, args):
        c = self.c
        n = callee['mn']
        if n.startswith('~') or n == '(dtor)':
            return None
        self.calls.append((n, this, args))
        a = self.answers.get(n)
        if a is None:
            raise Imprecise('method %s of the simulator' % n)
        return a(this, args)


def agent(c):
    return obj(c, c.static('verif_unit::Use', 'Agent'))


def i32(v):
    return const(v & 0xffffffff, 32)


def status(v):
    return StatusV(13 if v == 'bad' else 0, StrV())


def statusor(v, t):
    if v is None:
        return StatusOrV(StatusV(13, StrV('refused')), None, t)
    return StatusOrV(StatusV(0, StrV()), v, t)


CPU = 'rv32'


def fnp(c, log, tag, n=None):
    """a bus callback"""
    def f(I, a):
        log.append((tag, c.val(a[0]), c.val(a[2])))
        return c.val(a[2])
    return c.fn(f)


def run_agent(s):
    def start(c):
        sim = Sim(c)
        return sim, agent(c)

    def create(c, sim, a, fail, rd=None, wr=None, id=None, length=16, cpu=CPU):
        sim.fail = fail
        if id is None:
            r = c.call(a, 'Construct', StrV(cpu), i32(length) if isinstance(length, int) else length, rd, wr)
        else:
            r = c.call(a, 'Connect', StrV(cpu), i32(id), i32(length) if isinstance(length, int) else length, rd, wr)
        sim.fail = False
        return c.val(r)

    # ---- identities: histories of construct, connect and destroy
    def ids(depth):
        ops = [('new', False), ('new', True)] + [('connect', i, f) for i in (0, 1, 2, 5) for f in (False, True)] + [('destroy', i) for i in (0, 1, 2, 5)]

        def f(c):
            sim, a = start(c)
            live = {}           # id -> record of the instance
            what = 'after'
            for d in range(depth):
                op = c.choose(*ops)
                n = len(sim.made)
                if op[0] == 'destroy':
                    what += ' destroy %d;' % op[1]
                    c.call(a, 'Destroy', i32(op[1]))
                    c.check(len(sim.made) == n, 'creations', what + ' destroying creates nothing')
                    live.pop(op[1], None)
                elif op[0] == 'new':
                    what += ' construct%s;' % (' (refused)' if op[1] else '')
                    r = create(c, sim, a, op[1])
                    c.check(len(sim.made) == n + 1, 'creations', '%s %d simulators are created' % (what, len(sim.made) - n))
                    if op[1]:
                        c.eq(r, i32(-1), 'refused', what + ' result of a refused construction')
                    else:
                        c.check(isc(r) and sval(r) >= 0 and sval(r) not in live, 'unique-id', '%s construct returns %s, in use: %s' % (what, r, sorted(live)))
                        live[sval(r) if isc(r) else None] = sim.made[-1]
                else:
                    i = op[1]
                    what += ' connect %d%s;' % (i, ' (refused)' if op[2] else '')
                    r = create(c, sim, a, op[2], id=i)
                    if i in live:
                        c.check(len(sim.made) == n, 'creations', what + ' a simulator is created for an existing instance')
                        c.eq(r, i, 'connect-id', what + ' result of connecting')
                    else:
                        c.check(len(sim.made) == n + 1, 'creations', '%s %d simulators are created' % (what, len(sim.made) - n))
                        c.eq(r, i32(-1 if op[2] else i), 'connect-id', what + ' result of connecting')
                        if not op[2]:
                            live[i] = sim.made[-1]
                for m in sim.made[n:]:
                    c.check(m[1] == CPU, 'cpu-type', '%s cpu type passed on: %s' % (what, m[1]))
                    c.check(m[2] is not None, 'memory', what + ' a memory interface is passed to the simulator')
                names = [m[0] for m in live.values()]
                c.check(len(set(names)) == len(names), 'unique-name', '%s names of the live instances: %s' % (what, names))
                for m in sim.made:
                    keep = any(m is x for x in live.values())
                    if m[3] is not None:
                        c.check(m[3].alive == keep, 'lifetime', '%s simulator %s is %s' % (what, m[0], 'deleted' if keep else 'not deleted'))
                    c.check(m[2].alive == keep, 'lifetime', '%s memory access of %s is %s' % (what, m[0], 'deleted' if keep else 'not deleted'))
                for i in (0, 1, 2, 3, 4, 5, 6):
                    p = c.val(c.call(a, 'core_dbg', i32(i)))
                    want = live.get(i)
                    got = None if p.null is TRUE else p.t
                    c.check(got is (want[3] if want else None), 'lookup', '%s instance found for id %d' % (what, i))
        return f
    s.explore('ids', ids(3), limit=20000)
    if s.thorough:
        s.explore('ids-long', ids(4), limit=60000)

    # ---- the bus callbacks of an instance
    def callbacks(c):
        sim, a = start(c)
        log = []
        sets = []
        for k in range(3):
            r, w = c.choose((True, True), (True, False), (False, True), (False, False))
            sets.append((r, w))
        free = c.choose(False, True)
        for k, (r, w) in enumerate(sets):
            rd = fnp(c, log, 'read%d' % k) if r else None
            wr = fnp(c, log, 'write%d' % k) if w else None
            if k == 0 and free:
                x = c.func('construct_with_sysbus', StrV(CPU), i32(16), rd, wr)
            elif free:
                x = c.func('connect_with_sysbus', StrV(CPU), i32(0), i32(16), rd, wr)
            else:
                x = create(c, sim, a, False, rd, wr, None if k == 0 else 0)
            c.eq(x, 0, 'id', 'result of call %d' % k)
        c.check(len(sim.made) == 1, 'creations', 'simulators created')
        w = World(c)
        w.state()
        mem = sim.made[0][2]
        d = w.db([const(0xee, 8)] * 4)
        c.call(mem, 'Load', const(0x100, 64), d, None, None)
        first = [k for k in range(3) if sets[k][0]]
        c.check([x[0] for x in log] == ['read%d' % k for k in first[:1]], 'read-callback', 'callbacks given %r: a load calls %r' % (sets, [x[0] for x in log]))
        del log[:]
        c.call(mem, 'Store', const(0x100, 64), d)
        first = [k for k in range(3) if sets[k][1]]
        c.check([x[0] for x in log] == ['write%d' % k for k in first[:1]], 'write-callback', 'callbacks given %r: a store calls %r' % (sets, [x[0] for x in log]))
    s.explore('callbacks', callbacks)

    # ---- requests: exactly one call of the simulator addressed, its result handed back
    def buf(c, n):
        return Ptr(base=Arr([const(0x55, 8)] * n, ty(c, 'char'), 1), off=0)

    def same(c, p, q):
        p, q = c.val(p), c.val(q)
        return isinstance(p, Ptr) and isinstance(q, Ptr) and c.decide(c.I.ptr_eq(p, q)) is True

    def out(c, t, v):
        return Cell(v)

    I64, I32 = lambda c: ty(c, 'unsigned long'), lambda c: ty(c, 'int')

    def forward(c):
        sim, a = start(c)
        lens = [c.sym('length%d' % i, 32) for i in range(3)]
        for i in (0, 1):
            create(c, sim, a, False, length=lens[i])
        create(c, sim, a, False, id=4, length=lens[2])
        again = c.choose(None, 'connect', 'replace')
        if again == 'connect':
            create(c, sim, a, False, id=1, length=c.sym('other', 32))
        elif again == 'replace':
            c.call(a, 'Destroy', i32(1))
            lens[1] = c.sym('renewed', 32)
            create(c, sim, a, False, id=1, length=lens[1])
        who = {0: (sim.made[0], lens[0]), 1: (sim.made[3 if again == 'replace' else 1], lens[1]), 4: (sim.made[2], lens[2])}
        id = c.choose(0, 1, 4, 2, -1)
        known = id in who
        good = c.choose(True, False)
        free = c.choose(True, False)
        v = c.sym('value', 64)
        w = c.sym('argument', 64)
        r = c.sym('register', 32)
        b = buf(c, 8)
        infot = c.cls(R + 'RenodeCpuRegister')
        info = c.stack(infot)
        name = Ptr(base=Arr([const(0, 8)] * 4, ty(c, 'char'), 1), off=0)
        cell = Cell(const(0x1234, 64))
        st = Cell(const(0x77, 32))
        names = Ptr(base=Arr([StrV('a'), StrV('b')], None, 8), off=0)
        vals = Ptr(base=Arr([StrV('1'), StrV('2')], None, 8), off=0)
        flag = c.sym('flag', 1)
        # request: (method, free function, arguments after the id, method of the simulator, its result, expected arguments, result, failure)
        UL, SZ = ty(c, 'unsigned long'), ty(c, 'unsigned long')
        kind = c.choose('size', 'info', 'readreg', 'writereg', 'readmem', 'writemem', 'config', 'irq', 'elf', 'reset')
        V = None if not good else v
        T = {
            'size': ('GetRegisterInfoSize', 'get_reg_info_size', [], 'GetRenodeRegisterInfoSize', trunc(v, 32), [], trunc(v, 32), i32(-1)),
            'info': ('GetRegisterInfo', 'get_reg_info', [r, name, Ptr(info)], 'GetRenodeRegisterInfo', status('ok' if good else 'bad'),
                     [r, who[id][1] if known else None, name, info], i32(0), i32(-1)),
            'readreg': ('ReadRegister', 'read_register', [r, Ptr(cell)], 'ReadRegister', statusor(V, UL), [r], i32(0), i32(-1)),
            'writereg': ('WriteRegister', 'write_register', [r, v], 'WriteRegister', status('ok' if good else 'bad'), [r, v], i32(0), i32(-1)),
            'readmem': ('ReadMemory', 'read_memory', [w, b, const(8, 64)], 'ReadMemory', statusor(V, SZ), [w, b, const(8, 64)], v, const(0, 64)),
            'writemem': ('WriteMemory', 'write_memory', [w, b, const(8, 64)], 'WriteMemory', statusor(V, SZ), [w, b, const(8, 64)], v, const(0, 64)),
            'config': ('SetConfig', 'set_config', [names, vals, i32(2)], 'SetConfig', status('ok' if good else 'bad'), [names, vals, i32(2)], i32(0), i32(-1)),
            'irq': ('SetIrqValue', 'set_irq_value', [r, flag], 'SetIrqValue', status('ok' if good else 'bad'), [r, flag], i32(0), i32(-1)),
            'elf': ('LoadExecutable', 'load_elf', [b, flag, Ptr(st)], 'LoadExecutable', statusor(V, UL), [b, flag], v, const(0, 64)),
            'reset': ('Reset', 'reset', [], None, None, None, i32(0), i32(-1)),
        }[kind]
        meth, fn, args, target, ans, exp, res, bad = T
        fails = not known or (not good and kind not in ('size', 'reset'))
        what = '%s of instance %d (%s)' % (kind, id, 'unknown' if not known else 'accepted' if good else 'refused')
        if target:
            sim.answers[target] = lambda this, x: ans
        del sim.calls[:]
        got = c.val(c.func(fn, i32(id), *args) if free else c.call(a, meth, i32(id), *args))
        c.eq(got, bad if fails else res, 'result', 'result of ' + what)
        calls = sim.calls
        if not known or target is None:
            c.check(target is None or not calls, 'no-call', what + ' calls a simulator')
        else:
            c.check([x[0] for x in calls] == [target], 'one-call', '%s calls %r' % (what, [x[0] for x in calls]))
            if len(calls) == 1:
                c.check(calls[0][1] is who[id][0][3], 'instance', what + ' reaches the instance addressed')
                c.check(len(calls[0][2]) == len(exp), 'arguments', what + ' number of arguments')
                for k, (g, x) in enumerate(zip(calls[0][2], exp)):
                    g = c.val(g)
                    if isinstance(x, T_):
                        c.eq(g, x, 'arguments', '%s argument %d' % (what, k))
                    elif isinstance(x, Rec):
                        c.check(g is x or isinstance(g, Ptr) and g.t is x, 'arguments', '%s argument %d' % (what, k))
                    else:
                        c.check(same(c, g, x), 'arguments', '%s argument %d' % (what, k))
        if kind == 'readreg':
            c.eq(cell.v, v if not fails else const(0x1234, 64), 'register-value', 'value stored by ' + what)
        if kind == 'elf':
            c.eq(st.v, i32(-1) if fails else i32(0), 'load-status', 'status stored by ' + what)

    def nulls(c):
        sim, a = start(c)
        create(c, sim, a, False)
        sim.answers['ReadRegister'] = lambda this, x: statusor(c.sym('v', 64), ty(c, 'unsigned long'))
        sim.answers['GetRenodeRegisterInfo'] = lambda this, x: status('ok')
        id = c.choose(0, 3)
        k = c.choose('info', 'infoc', 'reg', 'regc')
        name = Ptr(base=Arr([const(0, 8)] * 4, ty(c, 'char'), 1), off=0)
        if k == 'info':
            r = c.call(a, 'GetRegisterInfo', i32(id), i32(0), name, None)
        elif k == 'infoc':
            r = c.func('get_reg_info', i32(id), i32(0), name, None)
        elif k == 'reg':
            r = c.call(a, 'ReadRegister', i32(id), i32(0), None)
        else:
            r = c.func('read_register', i32(id), i32(0), None)
        c.eq(r, i32(-1), 'null-pointer', 'result without a place to store to')
    s.explore('forward', forward, limit=20000)
    s.explore('nulls', nulls)

    # ---- stepping
    NONE, SWB, SEMI, DONE = 0x7fffffff, None, None, None
    IMAX = 0x7fffffff

    def step(c):
        reasons = {n: cval(c.val(c.static('verif_unit::Halt', n))) for n in ('None', 'SoftwareBreakpoint', 'SemihostHaltRequest', 'ProgramDone')}
        inv = {v: k for k, v in reasons.items()}
        sim, a = start(c)
        create(c, sim, a, False)
        create(c, sim, a, False)
        which = c.choose(1, 0, 7)
        asked = []
        state = {'reasons': [], 'done': [], 'wanted': [], 'error': False}
        ut, it = ty(c, 'unsigned int'), ty(c, 'int')
        many = c.choose(False, True) if which == 1 else False
        outcomes = ['full', 'less', 'error'] if which == 1 else ['full']

        def reason(this, x):
            first = not state['reasons']
            c.check(this is sim.made[which][3], 'instance', 'the halt reason is asked of the instance stepped')
            k = c.choose('None', 'SoftwareBreakpoint', 'SemihostHaltRequest', 'ProgramDone', 'error') if which == 1 else 'None'
            state['reasons'].append(k)
            if k == 'error':
                return statusor(None, ut)
            return statusor(const(reasons[k], 32), ut)

        def stepped(this, x):
            c.check(this is sim.made[which][3], 'instance', 'the instance stepped')
            n = c.val(x[0])
            state['wanted'].append(n)
            c.check(slt(const(0, 32), n), 'step-count', 'a step of no instructions or a negative number')
            k = c.choose(*outcomes) if len(state['wanted']) < 4 else 'less'
            if k == 'error':
                state['error'] = True
                return statusor(None, it)
            if k == 'full':
                d = n
            else:
                d = c.choose(sub(n, const(1, 32)), const(0, 32))
                if cval(n) == 1000 and len(state['wanted']) == 1 and isc(d) and cval(d):
                    d = zext(c.sym('executed', 31), 32)
                    c.assume(ult(d, n))
            state['done'].append((d, n, k))
            return statusor(d, it)
        sim.answers['GetLastHaltReason'] = reason
        sim.answers['Step'] = stepped
        if not many:
            n = c.choose(const(0, 64), const(1, 64), const(2, 64), const(1000, 64), const(IMAX - 1, 64), const(IMAX, 64)) if which == 1 else c.choose(const(0, 64), const(9, 64))
        else:
            n = c.choose(const(IMAX + 1, 64), const(2 * IMAX, 64), const(2 * IMAX + 1, 64), const(3 * IMAX, 64), const((1 << 32) + 5, 64), const((1 << 64) - 1, 64))
        place = c.choose('status', 'null', 'free')
        st = Cell(const(0x77, 32))
        ptr = None if place == 'null' else Ptr(st)
        r = c.func('step', i32(which), n, ptr) if place == 'free' else c.call(a, 'Step', i32(which), n, ptr)
        r = c.val(r)
        what = 'step of %d instructions' % cval(n)

        def stat(v, why):
            if place != 'null':
                c.eq(st.v, i32(v), 'status', '%s %s: status' % (what, why))
        if which == 7:
            c.eq(r, const(0, 64), 'total', 'steps of an unknown instance')
            return stat(-1, 'unknown instance')
        if isc(n) and cval(n) == 0:
            c.check(not state['wanted'], 'no-step', what + ' steps')
            c.eq(r, const(0, 64), 'total', what)
            return stat(0, 'nothing to do')
        total = const(0, 64)
        left = n
        for i, w in enumerate(state['wanted']):
            big = c.decide(ult(const(IMAX, 64), left))
            c.eq(zext(w, 64), const(IMAX, 64) if big else left, 'step-count', '%s: instructions asked for in step %d' % (what, i))
            if i < len(state['done']):
                total = add(total, zext(state['done'][i][0], 64))
                left = sub(left, zext(state['done'][i][0], 64))
        c.eq(r, total, 'total', '%s: total, of the %d steps %s' % (what, len(state['wanted']), [k for _, _, k in state['done']]))
        # what has to end the run, and when
        rs = state['reasons']
        c.check(len(rs) >= 1, 'halt-reason', what + ' without looking at the last halt reason')
        if rs[0] in ('SemihostHaltRequest', 'error'):
            c.check(not state['wanted'], 'stopped', what + ' after a %s steps' % rs[0])
            return stat(-1, 'after ' + rs[0])
        c.check(state['wanted'] != [], 'stepped', what + ' does not step')
        ends = []
        for i in range(len(state['done'])):
            k = rs[i + 1] if i + 1 < len(rs) else '(not asked)'
            if k != 'None' or state['done'][i][2] == 'less':
                ends.append((i, k))
        if state['error']:
            c.check(not ends, 'stopped', what + ' continues after an end of the run')
            return stat(-1, 'failed step')
        if ends:
            c.check(len(ends) == 1 and ends[0][0] == len(state['wanted']) - 1, 'stopped', '%s continues after the run ended: %s' % (what, rs[1:]))
            k = ends[0][1]
            return stat({'None': 0, 'SoftwareBreakpoint': 3}.get(k, -1), 'ended by ' + k)
        c.eq(r, n, 'complete', what + ' without an event executes all')
        stat(0, 'complete')
    s.explore('step', step, limit=20000)

    # ---- images
    def image(c):
        sim, a = start(c)
        create(c, sim, a, False)
        size, kinds = c.choose(*([(None, 0), (0, 0), (1, 2), (65535, 0), (65536, 1), (65537, 0), (65536 + 900, 2)] if not s.thorough else [
            (None, 0), (0, 2), (1, 2), (2, 2), (1000, 2), (65535, 2), (65536, 2), (65537, 2), (65536 * 2 - 1, 2), (65536 * 2, 2), (65536 * 2 + 9, 2), (65536 * 3, 2)]))
        data = [const((i * 7 + (i >> 8)) & 255, 8) for i in range(size or 0)]
        c.I.ext['(file)'] = lambda name: data if size is not None and text(name) == 'image.bin' else None
        bad = c.choose(*(None, 'short', 'error')[:kinds + 1]) if size else None
        at = c.choose(0, 1) if bad and size > 65536 else 0
        addr = c.choose(0x8000_0000, (1 << 64) - 0x100) if not bad and (kinds or not size) else 0xfffff000
        mem = {}
        count = [0]
        import libcalls

        def write(this, x):
            p, b, n = c.val(x[0]), x[1], cval(c.val(x[2]))
            k = count[0]
            if n:
                count[0] += 1
            if bad == 'error' and k == at:
                return statusor(None, ty(c, 'unsigned long'))
            m = n - 1 if bad == 'short' and k == at and n else n
            if n:
                sa, so = libcalls.arrview(c.I, b, 'write')
                for i in range(m):
                    v = c.I.load(c.I.elem(sa, so + i, ty(c, 'unsigned char')))
                    q = (cval(p) + i) % (1 << 64)
                    c.check(q not in mem, 'once', 'an address is written twice') if q in mem else None
                    mem[q] = v
            return statusor(const(m, 64), ty(c, 'unsigned long'))
        sim.answers['WriteMemory'] = write
        who = c.choose(0, 5) if not size else 0
        r = c.val(c.func('load_image', i32(who), StrV('image.bin'), const(addr, 64)))
        what = 'image of %s bytes%s' % (size, ', write %d %s' % (at, bad) if bad else '')
        if who == 5 or size is None or bad:
            c.eq(r, i32(-1), 'result', what + ': result of a failed load')
            if who == 5 or size is None:
                c.check(not mem, 'nothing-written', what + ' writes memory')
            return
        c.eq(r, i32(0), 'result', what + ': result')
        c.check(len(mem) == size, 'extent', '%s: %d bytes are written' % (what, len(mem)))
        wrong = [i for i in range(size) if mem.get((addr + i) % (1 << 64)) is not data[i] and (
            mem.get((addr + i) % (1 << 64)) is None or cval(mem[(addr + i) % (1 << 64)]) != cval(data[i]))]
        c.check(not wrong, 'content', '%s: byte %s of the image is not at its address' % (what, wrong[:1]))
    s.explore('image', image)


PROPS = {
    'P39': dict(sources=BASE + [U + 'other/simple_uart.cc', U + 'renode/renode_memory_access.cc'], run=run_uart,
                rule='register map of the UART and forwarding of bus accesses compared with a model for symbolic values'),
    'P40': dict(sources=BASE + [U + 'renode/renode_mpact.cc', U + 'renode/renode_memory_access.cc'], run=run_agent,
                rule='histories of the agent against a model: simulators created, calls forwarded with their arguments and results, bytes written'),
}
