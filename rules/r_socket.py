"""The socket stream buffer: bytes between a stream and a socket."""
from rules.util import *

SB = 'mpact::sim::util::renode::SocketStreambuf'
FD = 5
EOF_ = const(-1, 32)


class Net(object):
    """the operating system's view of one socket"""

    def __init__(self, c, script, fail_write=()):
        self.c, self.script, self.sent, self.open, self.closes, self.reads = c, list(script), [], True, 0, 0
        self.bad = []
        self.fail = list(fail_write)
        self.writes = 0
        c.I.ext = {'read': self.read, 'write': self.write, 'close': self.close, 'recv': self.read, 'send': self.write}

    def fd(self, I, v, what):
        v = self.c.val(v)
        c = self.c
        own = c.decide(eq(v, const(FD, 32)))
        if not own:
            # a descriptor that is no descriptor: the call fails harmlessly
            if c.decide(slt(v, const(0, 32))):
                return False
            self.bad.append('%s on descriptor %r' % (what, v))
            return False
        if not self.open:
            self.bad.append('%s on the closed descriptor' % what)
            return False
        return True

    def read(self, I, a, f, node):
        self.reads += 1
        if not self.fd(I, a[0], 'read'):
            return const(-1, 64)
        n = cval(self.c.val(a[2]))
        if n == 0:
            return const(0, 64)
        if not self.script:
            return const(0, 64)
        x = self.script.pop(0)
        if x in ('eof', 'error'):
            self.script.insert(0, x)
            return const(0 if x == 'eof' else -1, 64)
        got = [x]
        while len(got) < n and self.script and not isinstance(self.script[0], str):
            got.append(self.script.pop(0))
        p = self.c.val(a[1])
        import libcalls
        da, do = libcalls.arrview(I, p, 'read')
        for i, b in enumerate(got):
            I.elem(da, do + i, ty(self.c, 'char')).set(b)
        return const(len(got), 64)

    def write(self, I, a, f, node):
        self.writes += 1
        if not self.fd(I, a[0], 'write'):
            return const(-1, 64)
        n = cval(self.c.val(a[2]))
        if self.writes in self.fail:
            return const(-1, 64)
        p = self.c.val(a[1])
        if isinstance(p, StrV):
            bs = (p.chars() + [const(0, 8)])[:n]
        else:
            import libcalls
            sa, so = libcalls.arrview(I, p, 'write')
            bs = [I.load(I.elem(sa, so + i, ty(self.c, 'unsigned char'))) for i in range(n)]
        self.sent += bs
        return const(n, 64)

    def close(self, I, a, f, node):
        if not self.fd(I, a[0], 'close'):
            return const(-1, 32)
        self.closes += 1
        self.open = False
        return const(0, 32)


def same(c, got, want, oid, msg):
    c.check(len(got) == len(want), oid, '%s: %d byte(s), required %d' % (msg, len(got), len(want)))
    for g, w in zip(got, want):
        c.eq(g, w, oid, msg)


def run(s):
    def out(c):
        """any sequence of characters"""
        net = Net(c, [])
        b = c.new(SB, FD)
        want = []
        for i in range(c.choose(1, 2, 3)):
            x = c.choose('any', 'newline', 'return')
            if x == 'any':
                v = c.sym('ch%d' % i, 8)
                c.assume(lnot(eq(v, const(10, 8))))
                want.append(v)
            else:
                v = const(10 if x == 'newline' else 13, 8)
                want += [const(13, 8), const(10, 8)] if x == 'newline' else [v]
            r = c.call(b, 'overflow', zext(v, 32))
            c.check(lnot(eq(c.val(r), EOF_)), 'accepted', 'a character that was sent is accepted')
            same(c, net.sent, want, 'sent', 'bytes sent to the socket')
        c.check(net.open, 'open', 'the socket stays open while characters are sent')
        c.delete(b)
        c.check(net.closes == 1, 'closed-once', 'the socket is closed exactly once, not %d time(s)' % net.closes)
        c.check(not net.bad, 'closed-use', '%s' % net.bad)
        same(c, net.sent, want, 'sent', 'bytes sent to the socket')
    s.explore('output', out)

    def outend(c):
        """end of file on the output closes the socket, once"""
        net = Net(c, [])
        b = c.new(SB, FD)
        n = c.choose(0, 1)
        for i in range(n):
            c.call(b, 'overflow', zext(c.sym('ch', 8), 32))
        sent = list(net.sent)
        c.call(b, 'overflow', EOF_)
        c.check(net.closes == 1, 'end-closes', 'end of output closes the socket')
        same(c, net.sent, sent, 'end-silent', 'bytes sent by end of output')
        again = c.choose('no', 'end', 'char')
        if again == 'end':
            c.call(b, 'overflow', EOF_)
        elif again == 'char':
            r = c.call(b, 'overflow', const(65, 32))
            c.eq(r, EOF_, 'closed-refuses', 'a character after the end of output is refused')
        c.delete(b)
        c.check(net.closes == 1, 'closed-once', 'the socket is closed exactly once, not %d time(s)' % net.closes)
        c.check(not net.bad, 'closed-use', 'a descriptor that may belong to something else by now is used: %s' % net.bad)
    s.explore('output-end', outend)

    def outfail(c):
        """a failed write is reported"""
        net = Net(c, [], fail_write=[c.choose(1, 2)])
        b = c.new(SB, FD)
        for i in range(2):
            before = len(net.sent)
            r = c.call(b, 'overflow', const(c.choose(10, 65), 32))
            if len(net.sent) == before:
                c.eq(r, EOF_, 'write-failure', 'a character that could not be sent is reported as a failure')
            else:
                c.check(lnot(eq(c.val(r), EOF_)), 'accepted', 'a character that was sent is accepted')
        c.delete(b)
        c.check(net.closes == 1, 'closed-once', 'the socket is closed exactly once')
    s.explore('output-failure', outfail)

    def inp(c):
        """every received character is delivered once, carriage returns before it dropped"""
        script, want = [], []
        end = c.choose('eof', 'error')
        cr = False
        for i in range(c.choose(0, 1, 2, 3, 4)):
            x = c.choose('any', 'newline', 'return')
            if x == 'any':
                v = c.sym('ch%d' % i, 8)
                c.assume(lnot(eq(v, const(13, 8))))
            else:
                v = const(10 if x == 'newline' else 13, 8)
            script.append(v)
            if x == 'return' and not cr:
                cr = True
                continue
            want.append(v)
            cr = False
        script.append(end)
        net = Net(c, script)
        b = c.new(SB, FD)
        def off(p):
            return p.off if isinstance(p.off, int) else cval(p.off)

        def getc():
            """what the stream does to take one character"""
            g = b.f.get('#get')
            r = None
            if g is None or off(g[1]) >= off(g[2]):
                r = c.val(c.call(b, 'underflow'))
                if c.decide(eq(r, EOF_)):
                    return EOF_
                g = b.f.get('#get')
                c.check(g is not None and off(g[1]) < off(g[2]), 'get-area', 'a delivered character is in the get area')
            lo, cur, hi = g
            v = c.I.load(c.I.deref(cur, ty(c, 'char')))
            if r is not None:
                c.eq(r, zext(v, 32), 'get-area', 'the delivered character is the current character of the get area')
            b.f['#get'] = (lo, Ptr(base=cur.base, off=off(cur) + 1) if cur.base is not None else hi if off(hi) == 1 else Ptr(base=hi.base, off=1), hi)
            return zext(v, 32)
        for i, w in enumerate(want):
            c.eq(getc(), zext(w, 32), 'received', 'character %d delivered' % i)
        for i in range(2):
            c.eq(getc(), EOF_, 'end', 'after the last character the end of input is reported (%s)' % end)
        c.delete(b)
        c.check(net.closes == 1, 'closed-once', 'the socket is closed exactly once')
        c.check(not net.sent, 'silent', 'reading sends nothing')
    s.explore('input', inp)


PROPS = {
    'P37': dict(sources=['units/socket.cc'], run=run, rule='byte provenance between the stream and the read/write/close calls for symbolic characters, every end and failure of the socket, and typestate of the descriptor'),
}
