"""The GDB server: packets, commands and what they do to the core."""
from rules.util import *
from rules.r_memory import World
from values import *

GS = 'mpact::sim::util::gdbserver::GdbServer'
SRC = ['units/gdbserver.cc', 'mpact/sim/util/gdbserver/gdbserver.cc', 'mpact/sim/generic/data_buffer.cc']
HALT = {'sw': 0, 'hw': 1, 'user': 2, 'semihost': 3, 'watch': 4, 'action': 5, 'done': 6, 'error': 0x7ffffffe, 'none': 0x7fffffff, 'own': 0x80000005}
XML = '<target>\n<reg name="x0" bitsize="32" regnum="0"/>\n<reg name="x1" bitsize="64" regnum="1"/>\n<reg name="v" bitsize="128" regnum="3"/>\n<reg name="pc" bitsize="32" regnum="4"/>\n</target>'
REGS = {0: ('x0', [1, 0x80, 0xff, 0x7f]), 1: ('x1', [0, 1, 2, 3, 4, 5, 0xfe, 0xa0]), 3: ('v', list(range(0x90, 0xa0))), 4: ('pc', [0x10, 0x20, 0, 0x80])}


def packet(s):
    return '$%s#%02x' % (s, sum(map(ord, s)) & 255)


class Gdb(object):
    """a server, the core it controls and the client at the other end"""

    def __init__(self, c, regs=None, xml=XML, fail=(), halt='sw', running=False, host='', last=1, cores=1, watch=None):
        self.c, self.fail, self.calls, self.halt, self.running, self.xml = c, set(fail), [], halt, running, xml
        self.regs, self.s = dict(regs or REGS), None
        self.mem, self.last, self.hostinfo, self.cores, self.access, self.port = {}, last, host, cores, watch, 1234
        self.w = World(c)
        self.bufs = {n: self.w.db([const(b, 8) for b in bs]) for n, bs in self.regs.values()}
        core = 'mpact::sim::generic::CoreDebugInterface'
        m = {k: getattr(self, 'c_' + k) for k in ('Halt', 'Step', 'Run', 'Wait', 'GetRunStatus', 'GetLastHaltReason', 'ReadRegister', 'WriteRegister', 'GetRegisterDataBuffer', 'ReadMemory', 'WriteMemory',
                                                  'SetSwBreakpoint', 'ClearSwBreakpoint', 'GetSwBreakpointInfo', 'SetDataWatchpoint', 'ClearDataWatchpoint', 'GetWatchpointInfo', 'GetExecutableFileName')}
        self.core = c.host(core, 'core', m)
        # a core the server must leave alone
        self.extra = c.host(core, 'extra', {k: (lambda I, t, a, k=k: self.stray(k)) for k in m})
        d = c.host('mpact::sim::generic::DebugInfo', 'info', {
            'debug_register_map': lambda I, t, a: self.regmap, 'GetFirstGpr': lambda I, t, a: const(0, 32), 'GetLastGpr': lambda I, t, a: const(self.last, 32), 'GetPcRegister': lambda I, t, a: const(4, 32),
            'GetGprWidth': lambda I, t, a: const(32, 32), 'GetPcWidth': lambda I, t, a: const(32, 32), 'GetGdbTargetXml': lambda I, t, a: StrV(self.xml), 'GetLLDBHostInfo': lambda I, t, a: StrV(self.hostinfo)})
        self.regmap = MapV('hmap', ty(c, 'unsigned long'), ty(c, 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>'))
        self.regmap.ents = [[const(k, 64), StrV(n)] for k, (n, _) in self.regs.items()]
        self.info = d
        self.net(c)

    # ---- the network
    def net(self, c):
        self.sent, self.open, self.bad, self.script, self.eof, self.ready = [], {}, [], [], 'eof', set()
        z = lambda v: (lambda I, a, f, node: const(v, 32))
        c.I.flags.setdefault('globals', {})['FLAGS_log_packets'] = lambda *a: Opq(None)
        self.ext = c.I.ext = {'absl::GetFlag': lambda I, a, f, node: FALSE, 'socket': self.opens(3), 'accept': self.opens(7), 'setsockopt': self.setup('setsockopt'), 'bind': self.setup('bind'), 'listen': self.setup('listen'),
                   'htons': lambda I, a, f, node: const(0, 16), 'strerror': lambda I, a, f, node: StrV('error'), 'std::memset': lambda I, a, f, node: None, 'memset': lambda I, a, f, node: None,
                   'read': self.read, 'write': self.write, 'close': self.close, 'shutdown': self.shutdown, 'fcntl': self.fcntl}

    def stray(self, k):
        self.c.check(False, 'extra', '%s of a core the server does not control is called' % k)
        return StatusV(13, StrV('failed'))

    def setup(self, what):
        def f(I, a, fn, node):
            if self.fd(a[0], what) != 3 or what in self.fail:
                return const(-1, 32)
            self.ready.add(what)
            return const(0, 32)
        return f

    def opens(self, fd):
        def f(I, a, fn, node):
            if ('accept' if fd == 7 else 'socket') in self.fail or (fd == 7 and not {'bind', 'listen'} <= self.ready):
                return const(-1, 32)
            if self.open.get(fd):
                self.bad.append('a second descriptor is opened while %d is open' % fd)
            self.open[fd] = True
            if fd == 3:
                self.ready = set()
            return const(fd, 32)
        return f

    def fd(self, v, what):
        v = sval(self.c.val(v))
        if self.open.get(v):
            return v
        if v >= 0:
            self.bad.append('%s of descriptor %d, which is not open' % (what, v))
        return None

    def read(self, I, a, f, node):
        if self.fd(a[0], 'read') != 7:
            return const(-1, 64)
        if not self.script:
            self.over = getattr(self, 'over', 0) + 1
            if self.over > 50:
                self.c.check(False, 'ends', 'the server goes on after the connection has ended')
            return const(0 if self.eof == 'eof' else -1, 64)
        self.put(a[1], [const(self.script.pop(0), 8)])
        return const(1, 64)

    def write(self, I, a, f, node):
        import libcalls
        n = cval(self.c.val(a[2]))
        if self.fd(a[0], 'write') != 7:
            return const(-1, 64)
        p = self.c.val(a[1])
        if n == 1 and p.base is None:
            self.sent.append(cval(trunc(self.c.val(p.t), 8)))
        else:
            sa, so = libcalls.arrview(I, p, 'write')
            self.sent += [cval(I.load(I.elem(sa, so + i, ty(self.c, 'unsigned char')))) for i in range(n)]
        return const(n, 64)

    def close(self, I, a, f, node):
        fd = self.fd(a[0], 'close')
        if fd is None:
            return const(-1, 32)
        self.open[fd] = False
        return const(0, 32)

    def shutdown(self, I, a, f, node):
        return const(0 if self.open.get(sval(self.c.val(a[0]))) else -1, 32)

    def fcntl(self, I, a, f, node):
        return const(0 if self.open.get(sval(self.c.val(a[0]))) else -1, 32)

    def st(self, what):
        return StatusV(13, StrV('failed')) if what in self.fail else StatusV(0, StrV())

    def sor(self, what, v):
        return StatusOrV(self.st(what), None if what in self.fail else v, None)

    # ---- the core
    def c_Halt(self, I, t, a):
        self.calls.append(('Halt',))
        return self.st('halt')

    def c_Step(self, I, t, a):
        self.calls.append(('Step', sval(self.c.val(a[0]))))
        return self.sor('step', const(1, 32))

    def c_Run(self, I, t, a):
        self.calls.append(('Run',))
        if 'run' not in self.fail:
            self.running = True
        return self.st('run')

    def c_Wait(self, I, t, a):
        self.calls.append(('Wait',))
        self.running = False
        return self.st('wait')

    def c_GetRunStatus(self, I, t, a):
        return self.sor('status', const(1 if self.running else 0, 32))

    def c_GetLastHaltReason(self, I, t, a):
        return self.sor('reason', const(HALT[self.halt], 32))

    def c_ReadRegister(self, I, t, a):
        n = text(self.c.val(a[0]))
        for x, bs in self.regs.values():
            if x == n and len(bs) <= 8:
                return self.sor('reg', const(int.from_bytes(bytes(bs), 'little'), 64))
        return StatusOrV(StatusV(5, StrV('no such register')), None, None)

    def c_WriteRegister(self, I, t, a):
        self.calls.append(('WriteRegister', text(self.c.val(a[0])), cval(self.c.val(a[1]))))
        return self.st('wreg')

    def c_GetRegisterDataBuffer(self, I, t, a):
        n = text(self.c.val(a[0]))
        return self.sor('buf', Ptr(self.bufs[n]))

    def c_ReadMemory(self, I, t, a):
        n = cval(self.c.val(a[2]))
        ad = cval(self.c.val(a[1 - 1]))
        self.calls.append(('ReadMemory', ad, n))
        if 'read' not in self.fail:
            self.put(a[1], [const((ad + i) * 37 & 255, 8) for i in range(n)])
        return self.sor('read', const(max(0, n - 1) if 'short' in self.fail else n, 64))

    def put(self, p, bs):
        import libcalls
        I = self.c.I
        da, do = libcalls.arrview(I, self.c.val(p), 'read')
        for i, b in enumerate(bs):
            I.elem(da, do + i, ty(self.c, 'unsigned char')).set(b)

    def c_WriteMemory(self, I, t, a):
        import libcalls
        n = cval(self.c.val(a[2]))
        sa, so = libcalls.arrview(I, self.c.val(a[1]), 'write')
        bs = [cval(I.load(I.elem(sa, so + i, ty(self.c, 'unsigned char')))) for i in range(n)]
        self.calls.append(('WriteMemory', cval(self.c.val(a[0])), bs))
        return self.sor('write', const(max(0, n - 1) if 'short' in self.fail else n, 64))

    def c_SetSwBreakpoint(self, I, t, a):
        self.calls.append(('SetSw', cval(self.c.val(a[0]))))
        return StatusV(12, StrV('no')) if 'nobreak' in self.fail else self.st('break')

    def c_ClearSwBreakpoint(self, I, t, a):
        self.calls.append(('ClearSw', cval(self.c.val(a[0]))))
        return StatusV(12, StrV('no')) if 'nobreak' in self.fail else self.st('break')

    def c_GetSwBreakpointInfo(self, I, t, a):
        return const(0x1000, 64)

    def c_SetDataWatchpoint(self, I, t, a):
        self.calls.append(('SetWatch', cval(self.c.val(a[0])), cval(self.c.val(a[1])), cval(self.c.val(a[2]))))
        return self.st('watch')

    def c_ClearDataWatchpoint(self, I, t, a):
        self.calls.append(('ClearWatch', cval(self.c.val(a[0])), cval(self.c.val(a[1]))))
        return self.st('watch')

    def c_GetWatchpointInfo(self, I, t, a):
        if self.access is not None:
            a[0].set(const(0x1234, 64))
            a[1].set(const(self.access, 32))
        return None

    def c_GetExecutableFileName(self, I, t, a):
        return StrV('prog.elf')

    # ---- the client
    def session(self, script):
        """everything the server sends to a client that sends the script and goes away"""
        c = self.c
        if self.s is None:
            arr = Arr([Ptr(self.core)] + [Ptr(self.extra)] * (self.cores - 1), ty(c, 'mpact::sim::generic::CoreDebugInterface *'), 8)
            self.s = c.new(GS, SpanV(Ptr(base=arr, off=0), const(self.cores, 64), arr.el), self.info)
        self.script, self.sent, self.over = list(script.encode('latin-1')), [], 0
        self.r = c.call(self.s, 'Connect', const(self.port, 32))
        return bytes(self.sent).decode('latin-1')

    def done(self):
        c = self.c
        c.delete(self.s)
        c.check(not self.bad, 'descriptor', '%s' % self.bad)
        left = [k for k, v in self.open.items() if v]
        c.check(not left, 'closed', 'the descriptors %s are still open at the end' % left)


def talk(*cmds):
    """the script of a client that acknowledges every reply"""
    return '+' + ''.join(packet(x) + '+' for x in cmds)


def reply(*rs):
    """what the server sends when it acknowledges every command"""
    return ''.join('+' + packet(x) for x in rs)


def hexs(bs):
    return ''.join('%02x' % b for b in bs)


def run_commands(s):
    def one(cases):
        def f(c):
            k = c.choose(*range(len(cases)))
            cmds, want, calls, kw = (cases[k] + ({},))[:4]
            cmds, want = [x if isinstance(x, (list, tuple)) else [x] for x in (cmds, want)]
            g = Gdb(c, **kw)
            got = g.session(talk(*cmds))
            what = 'commands %s with %s' % (list(cmds), kw)
            exp = reply(*want)
            if any(w.endswith('*') for w in want):
                # an error, whatever its text
                import re
                pat = ''.join(r'\+' + (re.escape('$' + w[:-1]) + r'[^#]*#[0-9a-f]{2}' if w.endswith('*') else re.escape(packet(w))) for w in want)
                c.check(re.fullmatch(pat, got) is not None, 'reply', '%s: replies %r, required %s' % (what, got, want))
            else:
                c.check(got == exp, 'reply', '%s: replies %r, required %r' % (what, got, exp))
            c.check(g.calls == calls, 'effect', '%s: the core is asked for %s, required %s' % (what, g.calls, calls))
            g.done()
        return f
    mem = lambda a, n: hexs((a + i) * 37 & 255 for i in range(n))
    READ = [
        ('m1000,4', mem(0x1000, 4), [('ReadMemory', 0x1000, 4)]), ('mffffffff80000001,1', mem(0xffffffff80000001, 1), [('ReadMemory', 0xffffffff80000001, 1)]),
        ('m0,0', '', [('ReadMemory', 0, 0)]), ('m10', 'E01', []), ('mx,1', 'E01', []), ('m1,x', 'E01', []), ('m1,4001', 'E01', []), ('m1000,4', 'E01', [('ReadMemory', 0x1000, 4)], dict(fail=['read'])), ('m1000,4', mem(0x1000, 3), [('ReadMemory', 0x1000, 4)], dict(fail=['short'])),
        (['qSupported:error-message+', 'm10'], ['PacketSize*', 'E.*'], []),
    ]
    s.explore('memory-read', one(READ))
    WRITE = [
        ('M1000,3:00ff80', 'OK', [('WriteMemory', 0x1000, [0, 255, 128])]), ('Mabc,1:5A', 'OK', [('WriteMemory', 0xabc, [0x5a])]), ('M1000,2:00', 'E*', []), ('M1000,1', 'E*', []), ('M1000', 'E*', []),
        ('Mx,1:00', 'E*', []), ('M1,x:00', 'E*', []), ('M1,1:zz', 'E*', []), ('M1,2:00z1', 'E*', []), ('M1000,1:00', 'E*', [('WriteMemory', 0x1000, [0])], dict(fail=['write'])),
        ('M1000,2:0011', 'E*', [('WriteMemory', 0x1000, [0, 0x11])], dict(fail=['short'])), ('M1,4001:00', 'E*', []), ('M1000,2:001122', 'OK', [('WriteMemory', 0x1000, [0, 0x11])]), ('M1000,0:', 'OK', [('WriteMemory', 0x1000, [])]),
        (['qSupported:error-message+', 'M1000,2:00', 'M1000,1:zz', 'M1000'], ['PacketSize*', 'E.*', 'E.*', 'E.*'], []),
    ]
    s.explore('memory-write', one(WRITE))
    r = {k: hexs(v[1]) for k, v in REGS.items()}
    RR = [
        ('p0', r[0], []), ('p1', r[1], []), ('p3', r[3], []), ('p4', r[4], []), ('p2', 'E.*', []), ('px', 'E.*', []), ('p', 'E.*', []), ('p0', 'E.*', [], dict(fail=['reg'])), ('p3', 'E.*', [], dict(fail=['buf'])),
        ('g', r[0] + r[1], []), ('g', r[0] + r[1] + r[3] + r[4], [], dict(last=4)), ('g', 'E.*', [], dict(fail=['buf'])), ('p5', hexs([9, 8, 7]), [], dict(regs={5: ('odd', [9, 8, 7])})),
        (['QThreadSuffixSupported', 'p0;thread:1;', 'g;thread:1;'], ['OK', r[0], r[0] + r[1]], []), (['QThreadSuffixSupported', 'p0;thread:9;'], ['OK', '*'], []), (['QThreadSuffixSupported', 'g;thread:0;'], ['OK', '*'], []),
        (['Hg1', 'g'], ['OK', r[0] + r[1]], []), (['Hg0', 'g'], ['OK', r[0] + r[1]], []), (['Hg-1', 'g'], ['OK', r[0] + r[1]], []), (['Hg5', 'g'], ['*', '*'], []), (['Hgx', 'g'], ['E.*', r[0] + r[1]], []), ('H', '*', []),
        (['Hc-2', '?'], ['*', 'T*'], []), (['Hg2', 'g'], ['E.*', r[0] + r[1]], [], dict(cores=2)), (['QThreadSuffixSupported', 'g;thread:2;'], ['OK', '*'], [], dict(cores=2)), ('qfThreadInfo', 'm1', [], dict(cores=3)),
    ]
    s.explore('register-read', one(RR))
    WR = [
        (['P0=11223344', 'P1=8899aabbccddeeff', 'P3=' + hexs(range(16)), 'g'], ['OK', 'OK', 'OK', '112233448899aabbccddeeff' + hexs(range(16)) + r[4]], [], dict(last=4)), (['P0=1', 'g'], ['*', '*'], []), (['P0=', 'g'], ['*', r[0] + r[1]], []),
        (['P2=00', 'g'], ['E.*', r[0] + r[1]], []), ('P0', 'E.*', []), ('Px=00', 'E.*', []), ('P0=00000000', 'E.*', [], dict(fail=['buf'])), (['P0=112233zz', 'g'], ['E*', '*'], []),
        (['G' + '11223344' + '8899aabbccddeeff', 'g'], ['OK', '112233448899aabbccddeeff'], []), (['G11', 'g'], ['E.*', '*'], []), (['G1122334', 'g'], ['E.*', '*'], []), ('G11223344', 'E.*', [], dict(fail=['buf'])),
        (['QThreadSuffixSupported', 'P0=11223344;thread:1;', 'p1;thread:1;'], ['OK', 'OK', r[1]], []), (['G112233448899aabbccddeefz', 'g'], ['E*', '*'], []),
        (['G' + '11223344' + '8899aabbccddeeff' + hexs(range(16)) + '01020304', 'g'], ['OK', '112233448899aabbccddeeff' + hexs(range(16)) + '01020304'], [], dict(last=4)),
    ]
    s.explore('register-write', one(WR))
    BR = [
        ('Z0,1000,4', 'OK', [('SetSw', 0x1000)]), ('z0,ffffffff80001000,2', 'OK', [('ClearSw', 0xffffffff80001000)]), ('Z0,1000,4', '', [('SetSw', 0x1000)], dict(fail=['nobreak'])), ('z0,1000,4', '', [('ClearSw', 0x1000)], dict(fail=['nobreak'])),
        ('Z0,1000,4', 'E.*', [('SetSw', 0x1000)], dict(fail=['break'])), ('z0,1000,4', 'E.*', [('ClearSw', 0x1000)], dict(fail=['break'])), ('Z9,0,1', '', []), ('Z0', '', []), ('z0,,', '', []), ('Z0,11112222333344445,4', 'E.*', []),
    ]
    s.explore('breakpoints', one(BR))
    RW = [('Run',), ('Wait',)]
    PC = '4:%s;' % r[4]
    SW = [('Step', 1), ('Wait',)]
    RUN = [
        ('c', 'T*', RW), ('c2000', 'T*', [('WriteRegister', 'pc', 0x2000)] + RW), ('cx', 'E.*', []), ('c', 'E.*', [('Run',)], dict(fail=['run'])), ('c', 'E.*', RW, dict(fail=['wait'])), ('c', 'E.*', [], dict(fail=['status'])),
        ('c20', 'E.*', [('WriteRegister', 'pc', 0x20)], dict(fail=['wreg'])), (['Hc1', 'c'], ['OK', 'T*'], RW), ('s', 'T05', [('Step', 1)]), ('s', 'E.*', [('Step', 1)], dict(fail=['step'])), ('c', 'W00*', RW, dict(halt='done')),
        (['?', 'c'], ['W00*', 'W00'], [], dict(halt='done')), ('c', 'T02thread:1;' + PC, RW), ('c', 'T03thread:1;' + PC, RW, dict(halt='user')), ('c', 'T06thread:1;' + PC, RW, dict(halt='error')), ('c', 'T05thread:1;' + PC, RW, dict(halt='none')), ('c', 'T05*', RW, dict(halt='own')),
        (['QThreadSuffixSupported', 'c;thread:1;', 's;thread:1;'], ['OK', 'T*', 'T05'], RW + [('Step', 1)]), (['QThreadSuffixSupported', 's;thread:3;'], ['OK', '*'], [('Step', 1)]),
        ('c', 'T*', [('Wait',)], dict(running=True)), ('?', 'T02thread:1;' + PC, []), ('?', 'E01', [], dict(fail=['reason'])), ('?', 'E01', [], dict(fail=['reg'])), ('c', 'E01', RW, dict(fail=['reason'])), ('c', 'T02thread:1;' + PC, RW, dict(halt='hw')),
        ('c', 'T02thread:1;' + PC, RW, dict(halt='watch')), ('c', 'T02thread:1;' + PC, RW, dict(halt='action')), ('c', 'W00*', RW, dict(halt='semihost')), ('c', 'T02thread:1;' + PC, RW, dict(cores=2)), ('s', 'T05', [('Step', 1)], dict(cores=2)),
        (['c', '?', 'c'], ['T02thread:1;' + PC] * 3, RW + RW),
    ]
    s.explore('run', one(RUN))
    VC = [
        ('vCont?', 'vCont*', []), ('vCont;c', 'T*', RW), ('vCont;s', 'T*', [('Step', 1), ('Wait',)]), ('vCont;c:1', 'T*', RW), ('vCont;s:1', 'T*', [('Step', 1), ('Wait',)]), ('vCont;c:-1', 'T*', RW), ('vCont;s:-1', 'T*', [('Step', 1), ('Wait',)]),
        ('vCont;c:9', 'E.*', []), ('vCont;c:0', 'T*', RW), ('vCont;c:x', 'E.*', []), ('vCont', '*', []), ('vContx', 'E.*', []), ('vCont;c:1', 'W00', RW, dict(halt='done')), ('vCont;c:1', 'T05thread:1;swbreak:;*', RW),
        ('vCont;c:1', 'T05thread:1;hwbreak:;*', RW, dict(halt='hw')), ('vCont;c:1', 'T03*', RW, dict(halt='user')), ('vCont;c:1', 'T06*', RW, dict(halt='error')), ('vCont;c:1', 'T06*', RW, dict(halt='action')),
        ('vCont;c:1', 'T05thread:1;swbreak:;' + PC, RW, dict(cores=2)), ('vCont;s', 'T05thread:1;swbreak:;' + PC, SW, dict(cores=2)), ('vCont;c', 'T05thread:1;swbreak:;' + PC, RW, dict(cores=2)), ('vCont;c:2', 'E.*', [], dict(cores=2)),
        ('vCont;c:1', 'T05thread:1;rwatch:;' + PC, RW, dict(halt='watch', watch=1)), ('vCont;c:1', 'T05thread:1;watch:;' + PC, RW, dict(halt='watch', watch=2)), ('vCont;c:1', 'T05thread:1;awatch:;' + PC, RW, dict(halt='watch', watch=3)),
        ('vCont;c:1', 'T05thread:1;' + PC, RW, dict(halt='watch', watch=0)), ('vCont;c:1', 'T05thread:1;' + PC, RW, dict(halt='none')), ('vCont;c:1', 'T05thread:1;', RW, dict(fail=['reason'])), ('vCont;c:1', 'E01', RW, dict(fail=['reg'])),
        ('vCont;s:1', 'T*', [('Wait',)], dict(running=True)), ('vCont;c:1', 'T*', [('Wait',)], dict(running=True)), ('vCont;s:1;c', 'T*', [('Step', 1), ('Run',), ('Wait',)]), (['vCont;s', 'vCont;s', 'm10,1'], ['T*', 'T*', mem(16, 1)], SW + SW + [('ReadMemory', 16, 1)]),
        (['c', 'vCont;s', '?'], ['W00*', 'W00', 'W00*'], RW, dict(halt='done')), ('vCont;c:1', 'T03thread:1;' + PC, RW, dict(halt='user')),
        (['vCont;c:1', 'vCont;c:1', 'c'], ['W00', 'W00', 'W00'], RW, dict(halt='done')), ('vMustReplyEmpty', '', []), ('vCont;c:1', 'W00', RW, dict(halt='semihost')),
    ]
    s.explore('vcont', one(VC))
    Q = [
        ('qC', 'QC1', []), ('qGDBServerVersion', 'name:*', []), ('qExecAndArgs:x', 'prog.elf', []), ('qSearch:x', '', []), ('qAttached:1', '0', []), ('QListThreadsInStopReply', 'OK', []), ('qSymbolx', '', []), ('qAttached', '0', []), ('qfThreadInfo', 'm1', []), ('qsThreadInfo', 'l', []), ('qSymbol::', '', []), ('qZ', '', []), ('q', '', []), ('qSupported', 'PacketSize*', []), ('qSupported:x+;y-', 'PacketSize*', []),
        ('qHostInfo', 'triple:%s;ptrsize:4;' % hexs(b'riscv'), [], dict(host='triple:riscv;ptrsize:4;')), ('qExecAndArgs', 'prog.elf', []), ('QX', '', []), ('QEnableErrorStrings', 'OK', []), ('x', '', []), ('!', '', []), ('', '', []),
        ('qXfer:features:read:target.xml:0,fff', 'l' + XML.replace('#', ''), []), ('qXfer:features:read:target.xml:0,10', 'm' + XML[:16], []), ('qXfer:features:read:target.xml:10,20', 'm' + XML[16:48], []),
        ('qXfer:features:read:target.xml:%x,fff' % (len(XML) - 3), 'l' + XML[-3:], []), ('qXfer:features:read:target.xml:%x,1' % len(XML), 'l', []), ('qXfer:features:read:target.xml:8,ffffffffffffffff', 'l' + XML[8:], []),
        (['qXfer:features:read:target.xml:11112222333344445,1'], 'E.*', []),
        ('qXfer:features:read:target.xml:0,fff', 'la}\x03b}\x04c}]d}\x0ae', [], dict(xml='a#b$c}d*e')),
    ]
    s.explore('queries', one(Q))


def run_packets(s):
    def stream(c):
        """what arrives is taken apart into packets; each is acknowledged and answered, or refused"""
        cases = [
            ('+', ''), ('-', None), ('', None), ('+$qC#b4+', reply('QC1')), ('+$qC#B4+', reply('QC1')), ('+$qC#b5', '-'), ('+$qC#b5$qC#b4+', '-' + reply('QC1')), ('+$qC#zz', '-'), ('+$qC#b5$qC#b5$qC#b4+', '--' + reply('QC1')),
            # escapes
            ('+' + packet('}QC') + '+', reply('QC1')), ('+' + packet('q}c') + '+', reply('QC1')), ('+' + packet('}\x51}c') + '+', reply('QC1')), ('+' + packet('q}') + '+', reply('')), ('+' + packet('}') + '+', reply('')),
            # the client asks for the reply again
            ('+$qC#b4-+', reply('QC1') + packet('QC1')), ('+$qC#b4---+', reply('QC1') + packet('QC1') * 3), ('+$qC#b4-----', reply('QC1') + packet('QC1') * 4), ('+$qC#b4-----+$qC#b4+', reply('QC1') + packet('QC1') * 4),
            # without acknowledgements
            ('+' + packet('QStartNoAckMode') + '+' + packet('qC') + packet('qAttached'), reply('OK') + packet('QC1') + packet('0')), ('+' + packet('QStartNoAckMode') + '+$qC#00' + packet('qC'), reply('OK') + '$E.*' + packet('QC1')),
            ('+' + packet('QStartNoAckMode') + '-+' + packet('qC'), reply('OK') + packet('OK') + packet('QC1')),
            # the connection ends in the middle
            ('+$', ''), ('+$qC', ''), ('+$qC#', ''), ('+$qC#b', ''), ('+qC', ''), ('+$qC#b4', reply('QC1') + packet('QC1') * 4),
            # the end
            (talk('D', 'qC'), reply('OK')), (talk('k', 'qC'), '+'),
            ('+' + packet('!' * 300) + '+', reply('')),
        ]
        k = c.choose(*range(len(cases)))
        script, want = cases[k]
        g = Gdb(c)
        g.eof = c.choose('eof', 'error')
        got = g.session(script)
        if want is None:
            c.check(not got, 'handshake', 'nothing is sent to a client that does not start with an acknowledgement, not %r' % got)
        elif '$E.*' in want:
            import re
            a, b = want.split('$E.*')
            c.check(re.fullmatch(re.escape(a) + r'\$E\.[^#]*#[0-9a-f]{2}' + re.escape(b), got) is not None, 'sent', 'to a client that sends %r the server sends %r, required %r' % (script, got, want))
        else:
            c.check(got == want, 'sent', 'to a client that sends %r the server sends %r, required %r' % (script, got, want))
        g.done()
    s.explore('stream', stream)

    def long(c):
        """packets up to and beyond the size the server has room for"""
        n = c.choose(*([0x2000 - 4, 16 * 1024 - 4] if s.thorough else [2000]), 16 * 1024 - 3, 16 * 1024, 16 * 1024 + 400)
        g = Gdb(c)
        got = g.session(talk('!' * n))
        if n <= 0x2000:
            c.check(got == reply(''), 'long', 'a packet of %d characters is answered' % n)
        g.done()
    s.explore('long', long)

    def connect(c):
        """a connection that cannot be made"""
        w = c.choose('accept', 'socket', 'setsockopt', 'bind', 'listen', 'port')
        g = Gdb(c, fail=[w])
        if w == 'port':
            g.port = c.choose(0, -1)
        g.session('+')
        c.check(not g.sent, 'refused', 'nothing is sent without connection')
        c.check(cval(c.val(g.r)) == 0, 'result', 'Connect returns false when there is no connection')
        g.done()
    s.explore('connect', connect)

    def again(c):
        """a server serves one client after the other: the second is served as if it were the first"""
        first = c.choose('+', '-', '', talk('QStartNoAckMode', 'qC'), talk('QStartNoAckMode', 'QThreadSuffixSupported'), '+$qC#b', '+$qC', '+$', talk('k'), talk('D'), talk('Hg1'), '+' + packet('qC'), '+' + packet('qSupported:error-message+') + '+', 'fail')
        g = Gdb(c)
        g.port = 1
        if first == 'fail':
            g.fail = {c.choose('accept', 'bind')}
        g.session(first)
        g.fail = set()
        got = g.session(talk('qC', 'm', 'g;thread:1;'))
        g2 = Gdb(c)
        want = g2.session(talk('qC', 'm', 'g;thread:1;'))
        g2.done()
        c.I.ext.update(g.ext)
        c.check(got == want, 'again', 'to a client after one that sends %r the server sends %r, required %r' % (first, got, want))
        g.done()
    s.explore('again', again)


PROPS = {
    'P46': dict(sources=SRC, run=run_packets, rule='the bytes the server sends for enumerated byte streams of a client, every end of the connection, and typestate of the descriptors'),
    'P47': dict(sources=SRC, run=run_commands, rule='calls of the core and replies for enumerated command sequences, register contents and failures of the core'),
}
