"""Delay lines: every scheduled action happens exactly once, on time."""
from rules.util import *

SRC = ['units/delay_line.cc']
REC = 'mpact::sim::generic::DelayLine<verif_unit::Record>'
FUN = 'mpact::sim::generic::DelayLine<mpact::sim::generic::FunctionDelayRecord>'


class Line(object):
    """a delay line of either kind with its reference schedule"""

    def __init__(self, c, kind, size):
        self.c, self.kind = c, kind
        self.dl = c.new(REC if kind == 'record' else FUN, *([] if size is None else [size]))
        self.applied = []
        self.chain = {}
        self.now = 0
        self.sched = {}     # id -> (due, order)
        self.order = 0
        self.sink = c.host('verif_unit::Sink', 'sink', {'Apply': self.apply})

    def fire(self, i):
        self.applied.append((self.now, i))
        if i in self.chain:
            j, l = self.chain.pop(i)
            self.sched[j] = (self.now + l, self.order)
            self.order += 1
            self.raw_add(l, j)

    def apply(self, I, this, args):
        self.fire(cval(self.c.val(args[0])))
        return None

    def raw_add(self, lat, i):
        if self.kind == 'record':
            return self.c.call(self.dl, 'Add', lat, self.sink, i)
        return self.c.call(self.dl, 'Add', lat, self.c.fn(lambda *a: self.fire(i)))

    def pending(self):
        return sum(1 for d, o in self.sched.values() if d > self.now)

    def add(self, lat, i, hist):
        hist.append('add %d' % lat)
        self.sched[i] = (self.now + lat, self.order)
        self.order += 1
        r = self.raw_add(lat, i)
        self.c.eq(r, self.pending(), 'add-count', 'the number of pending entries reported by Add (%s)' % '; '.join(hist))
        self.empty(hist)

    def advance(self, hist, n=1):
        c = self.c
        hist.append('advance')
        self.now += 1
        before = len(self.applied)
        r = c.call(self.dl, 'Advance')
        got = [i for t, i in self.applied[before:]]
        want = [i for d, o, i in sorted((d, o, i) for i, (d, o) in self.sched.items()) if d == self.now]
        c.check(sorted(got) == sorted(want), 'on-time', '%s: cycle %d performs entries %r, due are %r' % ('; '.join(hist), self.now, got, want))
        c.check(got == want or sorted(got) != sorted(want), 'order', '%s: cycle %d performs %r in this order, scheduled in order %r' % ('; '.join(hist), self.now, got, want))
        c.eq(r, self.pending(), 'advance-count', 'the number of pending entries reported by Advance (%s)' % '; '.join(hist))
        self.empty(hist)

    def empty(self, hist):
        self.c.eq(self.c.call(self.dl, 'IsEmpty'), self.pending() == 0, 'is-empty', 'IsEmpty after %s' % '; '.join(hist))

    def done(self):
        self.c.delete(self.dl)
        self.c.check(not self.c.leaks(), 'leak', 'the delay line frees its storage')


def chained(kind):
    def f(c):
        L = Line(c, kind, c.choose(1, 2, 4, None))
        hist = []
        for i in range(c.choose(0, 1, 3)):
            L.advance(hist)
        L.chain[0] = (2, c.choose(1, 2, 3, 4, 5, 9))
        if c.choose(False, True):
            L.chain[1] = (3, c.choose(1, 8))
        L.add(1, 0, hist)
        L.add(c.choose(1, 2), 1, hist)
        for t in range(13):
            L.advance(hist)
        L.done()
    return f


def burst(kind):
    def f(c):
        """many entries, in one cycle or spread over several"""
        L = Line(c, kind, c.choose(None, 2))
        hist = ['%d entries' % BURST]
        spread = c.choose(1, 3)
        L.quiet = True
        for i in range(BURST):
            L.add(1 + i % spread, i, hist[:1])
        for t in range(spread + 1):
            L.advance(hist)
        L.done()
    return f


def far(kind, lats):
    def f(c):
        """latencies beyond 8 and 16 bits, from any position in the ring"""
        lat = c.choose(*lats)
        L = Line(c, kind, c.choose(None, 64) if lat < 9999 else None)
        hist = ['far']
        for i in range(c.choose(0, 5) if lat < 9999 else 5):
            L.advance(hist)
        L.add(lat, 0, hist)
        L.add(2, 1, hist)
        L.add(lat - 1, 2, hist)
        hist = ['latencies %d, 2, %d' % (lat, lat - 1)]
        for t in range(lat + 1):
            if 9 < t < lat - 4 and lat > 9999:
                L.now += 1
                c.call(L.dl, 'Advance')
                continue
            c.check(len(L.applied) == (t >= 2) + (t >= lat - 1) + (t >= lat), 'on-time', 'latency %d: performed before it is due' % lat)
            L.advance(hist)
            del hist[1:]
        L.done()
    return f


BURST = 300


def run(s):
    def single(kind):
        def f(c):
            size = c.choose(None, 1, 2, 3, 4, 8)
            L = Line(c, kind, size)
            hist = ['size %s' % size]
            for i in range(c.choose(0, 1, 3, 5)):
                L.advance(hist)
            top = 40 if s.thorough else 18
            lat = c.choose(*list(range(1, top)) + [31, 32, 33, 63, 64, 65])
            L.add(lat, 0, hist)
            for t in range(lat + 2):
                L.advance(hist)
            L.done()
        return f

    def pair(kind, triple):
        def f(c):
            size = c.choose(1, 2, 4)
            L = Line(c, kind, size)
            hist = ['size %s' % size]
            for i in range(c.choose(0, 1, 2, 3)):
                L.advance(hist)
            lats = [1, 2, 3, 4, 5, 8] if not s.thorough else [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17]
            L.add(c.choose(*lats), 0, hist)
            if c.choose(False, True):
                L.advance(hist)
            L.add(c.choose(*lats), 1, hist)
            if triple:
                if c.choose(False, True):
                    L.advance(hist)
                    L.advance(hist)
                L.add(c.choose(1, 2, 4, 9), 2, hist)
            for t in range(19 if s.thorough else 11):
                L.advance(hist)
            L.done()
        return f
    s.explore('single-record', single('record'), limit=6000, budget=300)
    s.explore('pair-record', pair('record', False), limit=9000, budget=300)
    s.explore('triple-record', pair('record', True), limit=9000, budget=300)
    s.explore('chained-record', chained('record'), limit=4000)
    s.explore('burst-record', burst('record'))
    s.explore('far-record', far('record', [127, 128, 129, 255, 256, 257, 1000]), maxsteps=20000000)
    s.explore('very-far-record', far('record', [66000]), maxsteps=200000000)


def run_fun(s):
    def f(c):
        size = c.choose(None, 1, 4)
        L = Line(c, 'function', size)
        hist = ['size %s' % size]
        for i in range(c.choose(0, 1, 3)):
            L.advance(hist)
        lats = [1, 2, 3, 4, 5, 8, 9, 16, 17]
        L.add(c.choose(*lats), 0, hist)
        if c.choose(False, True):
            L.advance(hist)
        L.add(c.choose(*lats), 1, hist)
        for t in range(20):
            L.advance(hist)
        L.done()
    s.explore('function', f, limit=4000, budget=300)
    s.explore('chained-function', chained('function'), limit=4000)
    s.explore('burst-function', burst('function'))
    s.explore('far-function', far('function', [128, 256, 600]), maxsteps=20000000)


PROPS = {
    'P05': dict(sources=SRC, run=run, rule='effect order of Add/Advance histories over ring sizes, ring positions and latencies: each entry is performed exactly once, in the cycle it is due, in scheduling order; counts agree'),
    'P06': dict(sources=SRC, run=run_fun, rule='as P05 for deferred function calls'),
}
