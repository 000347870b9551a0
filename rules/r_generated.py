"""Code the generators emit verbatim: bit fields of byte vectors."""
from rules.util import *

GEN = 'verif_gen::internal::'
TYPES = [('unsigned char', 8), ('unsigned short', 16), ('unsigned int', 32), ('unsigned long', 64), ('signed char', 8), ('short', 16), ('int', 32), ('long', 64)]


def field(bs, msb, width):
    """the bits msb .. msb-width+1 of a big endian byte vector, bit 0 being the last"""
    n = len(bs)
    out = []
    for i in range(msb - width + 1, msb + 1):
        out.append(bit(bs[n - 1 - i // 8], i % 8))
    return out


def run(s):
    sizes = (1, 2, 3, 5, 9, 10, 17) if s.thorough else (1, 2, 3, 9, 17)

    def cases(w, n):
        out = []
        widths = sorted({1, 2, 3, 7, 8, 9, 12, 15, 16, 17, 24, 30, 31, 32, 33, 39, 40, 48, 56, 63, 64} if not s.thorough else set(range(1, 65)))
        for width in widths:
            if width > w or width > 8 * n:
                continue
            lo = range(0, 8 * n - width + 1)
            if not s.thorough and len(lo) > 20:
                lo = sorted({0, 1, 3, 4, 7, 8, 9, 15, 16, 8 * n - width, 8 * n - width - 1, 8 * n - width - 4, (8 * n - width) // 2} & set(lo))
            out += [(l, width) for l in lo]
        return out

    def extract_(name, w, n):
        def f(c):
            lsb, width = c.choose(*cases(w, n))
            bs = [c.sym('b%d' % i, 8) for i in range(n)]
            a = Arr(list(bs), ty(c, 'unsigned char'), 1)
            msb = lsb + width - 1
            got = c.func(GEN + 'ExtractBits', Ptr(base=a, off=0), n, msb, width, targs=[name])
            want = frombits(field(bs, msb, width) + [FALSE] * (w - width))
            c.eq(got, want, 'extract', 'ExtractBits<%s> of %d bit(s) from bit %d of %d byte(s)' % (name, width, lsb, n))
            for x, y in zip(a.items, bs):
                c.check(x is y, 'extract-pure', 'extraction leaves the data alone')
        return f

    def insert_(name, w, n):
        def f(c):
            lsb, width = c.choose(*cases(w, n))
            bs = [c.sym('b%d' % i, 8) for i in range(n)]
            a = Arr(list(bs), ty(c, 'unsigned char'), 1)
            v = c.sym('v', w)
            msb = lsb + width - 1
            c.func(GEN + 'InsertBits', Ptr(base=a, off=0), n, msb, width, v, targs=[name])
            for i in range(n):
                want = []
                for k in range(8):
                    pos = (n - 1 - i) * 8 + k
                    want.append(bit(v, pos - lsb) if lsb <= pos <= msb else bit(bs[i], k))
                c.eq(a.items[i], frombits(want), 'insert', 'byte %d after InsertBits<%s> of %d bit(s) at bit %d of %d byte(s)' % (i, name, width, lsb, n))
        return f

    def empty(c):
        bs = [c.sym('b%d' % i, 8) for i in range(2)]
        a = Arr(list(bs), ty(c, 'unsigned char'), 1)
        msb = c.choose(-1, 0, 7, 15)
        c.eq(c.func(GEN + 'ExtractBits', Ptr(base=a, off=0), 2, msb, 0, targs=['unsigned int']), 0, 'extract-empty', 'an empty field is 0')
        c.func(GEN + 'InsertBits', Ptr(base=a, off=0), 2, msb, 0, c.sym('v', 32), targs=['unsigned int'])
        for x, y in zip(a.items, bs):
            c.eq(x, y, 'insert-empty', 'an empty field changes nothing')
    s.explore('empty', empty)
    for n in sizes:
        for name, w in TYPES:
            s.explore('extract', extract_(name, w, n), limit=9000)
            if name.startswith('unsigned'):
                s.explore('insert', insert_(name, w, n), limit=9000)


PROPS = {
    'P38': dict(sources=['gen:mpact/sim/decoder/bin_format_visitor.cc#ExtractBits,InsertBits'], run=run,
                rule='bit provenance of the code that the generators emit, taken from the string literals of the generator source: every bit of the result and of the written bytes, for symbolic contents'),
}
