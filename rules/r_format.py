"""Instruction formats: where fields and overlays lie, what they are worth."""
from rules.util import *
from terms import TRUE, FALSE

D = 'mpact/sim/decoder/'
N = 'mpact::sim::decoder::bin_format::'
SRC = [D + 'format.cc', D + 'overlay.cc', D + 'bin_encoding_info.cc', D + 'bin_decoder.cc', D + 'instruction_encoding.cc', D + 'instruction_group.cc',
       D + 'encoding_group.cc', D + 'extract.cc', D + 'format_name.cc']


class Info(object):
    """an encoding description under construction, with a recording error listener"""

    def __init__(self, c, enum='Op'):
        self.c = c
        self.errors, self.warnings = [], []

        def method(I, this, callee, args):
            m = callee['mn']
            if m == 'semanticError':
                self.errors.append(c.val(args[-1]))
                return None
            if m == 'semanticWarning':
                self.warnings.append(c.val(args[-1]))
                return None
            raise Imprecise('error listener: %s' % m)
        self.listener = c.host('mpact::sim::decoder::DecoderErrorListener', 'listener', {'*': method})
        self.o = c.new(N + 'BinEncodingInfo', enum, Ptr(self.listener))

    def format(self, name, width, base=None, check=True):
        c = self.c
        r = c.val(c.call(self.o, 'AddFormat', name, width, *([base] if base else [])))
        if not c.check(ok(c, r), 'add-format', 'a new format is accepted'):
            raise Infeasible()
        return obj(c, r.v)

    def layout(self, *fmts):
        """the widths are computed; True when all are accepted"""
        good = True
        for f in fmts:
            r = ok(self.c, self.c.call(f, 'ComputeAndCheckFormatWidth'))
            if not (isc(r) and cval(r)):
                good = False
        return good


def add_fields(c, fmt, fields):
    for n, sg, w in fields:
        r = c.call(fmt, 'AddField', n, boolc(bool(sg)), w)
        c.check(ok(c, r), 'add-field', 'a new field is accepted')


def overlay(c, fmt, name, sg, width, comps):
    """comps: ('field', name) | ('field', name, [(hi, lo)...]) | ('bits', [(hi, lo)...]) | ('const', value, width)"""
    r = c.val(c.call(fmt, 'AddFieldOverlay', name, boolc(bool(sg)), width))
    c.check(ok(c, r), 'add-overlay', 'a new overlay is accepted')
    o = obj(c, r.v)
    for k in comps:
        if k[0] == 'const':
            b = c.construct(N + 'BinaryNum')
            setm(c, b, 'value', const(k[1] & mask(64), 64))
            setm(c, b, 'width', const(k[2], 32))
            c.call(o, 'AddBitConstant', b)
            continue
        if k[0] == 'field' and len(k) == 2:
            r = c.call(o, 'AddFieldReference', k[1])
        else:
            rs = []
            for h, l in k[-1]:
                b = c.construct(N + 'BitRange')
                setm(c, b, 'first', const(h, 32))
                setm(c, b, 'last', const(l, 32))
                rs.append(b)
            if k[0] == 'field':
                r = c.call(o, 'AddFieldReference', k[1], rs)
            else:
                r = c.call(o, 'AddFormatReference', rs)
        c.check(ok(c, r), 'add-component', 'a component inside its field or format is accepted')
    return o


def setm(c, r, name, v):
    for k in list(r.f):
        if k[1] == name:
            r.f[k] = v
            return
    if not any(f['name'] == name for f in c.p.records[r.cls]['fields']):
        raise AnchorMissing('field %s of %s' % (name, r.cls))
    r.f[(r.cls, name)] = v


def getm(c, r, name):
    for k in r.f:
        if k[1] == name:
            return c.val(r.f[k])
    raise AnchorMissing('field %s of %s' % (name, r.cls))


LAYOUTS = [
    [8], [1, 7], [5, 3], [7, 5, 5, 3, 5, 7], [12, 5, 3, 5, 7], [1] * 8, [16], [32], [31, 1], [1, 31], [33], [20, 12, 16], [63, 1], [1, 63], [64],
    [32, 32], [3, 10, 2], [65], [40, 40], [64, 64], [100, 28], [129], [64, 65, 71], [8, 240, 8]]


def widths(c, fmt, ws, sg=0):
    add_fields(c, fmt, [('f%d' % i, sg, w) for i, w in enumerate(ws)])


def where(ws):
    """[(high, low)] of fields of these widths, the first being the leftmost"""
    out, top = [], sum(ws)
    for w in ws:
        out.append((top - 1, top - w))
        top -= w
    return out


def compose(word, parts, w=64):
    """the value whose parts, left to right, are bits hi..lo of the word or constants"""
    bits = []
    for p in reversed(parts):
        if p[0] == 'const':
            bits += [boolc(bool(p[1] >> i & 1)) for i in range(p[2])]
        else:
            bits += [bit(word, i) for i in range(p[1], p[0] + 1)]
    return frombits(bits + [FALSE] * (w - len(bits)))


# (format width, [field widths], overlay width, components)
OVERLAYS = [
    (32, [7, 5, 5, 3, 5, 7], 12, [('field', 'f0'), ('field', 'f4')]),
    (32, [7, 5, 5, 3, 5, 7], 13, [('field', 'f0', [(6, 6)]), ('field', 'f4', [(0, 0)]), ('field', 'f0', [(5, 0)]), ('field', 'f4', [(4, 1)]), ('const', 0, 1)]),
    (32, [7, 5, 5, 3, 5, 7], 6, [('bits', [(31, 30), (0, 0)]), ('const', 5, 3)]),
    (32, [7, 5, 5, 3, 5, 7], 32, [('bits', [(15, 0), (31, 16)])]),
    (32, [7, 5, 5, 3, 5, 7], 8, [('const', 2, 2), ('field', 'f3'), ('const', 1, 1), ('field', 'f5', [(1, 0)])]),
    (32, [32], 40, [('const', 0x81, 8), ('field', 'f0')]),
    (32, [32], 40, [('field', 'f0'), ('const', 0x81, 8)]),
    (32, [32], 64, [('const', 0x80000001, 32), ('field', 'f0')]),
    (32, [31, 1], 1, [('field', 'f1')]),
    (16, [3, 13], 9, [('field', 'f0'), ('const', 0, 3), ('field', 'f0')]),
    (16, [3, 13], 4, [('bits', [(0, 0), (1, 1), (2, 2), (3, 3)])]),
    (16, [3, 13], 5, [('field', 'f1', [(12, 10), (1, 0)])]),
    (8, [4, 4], 8, [('field', 'f1'), ('field', 'f0')]),
    (8, [4, 4], 4, [('const', 3, 2), ('const', 0, 2)]),
    (64, [32, 32], 64, [('field', 'f1'), ('field', 'f0')]),
    (64, [32, 32], 33, [('bits', [(63, 63), (47, 16)])]),
    (64, [64], 64, [('field', 'f0')]),
    (64, [64], 64, [('bits', [(63, 0)])]),
    (64, [20, 44], 45, [('const', 1, 1), ('field', 'f1')]),
    (64, [20, 44], 41, [('field', 'f0', [(19, 0)]), ('const', 0x155, 10), ('field', 'f1', [(43, 33)])]),
    (24, [8, 16], 17, [('field', 'f1'), ('const', 1, 1)]),
]


def parts_of(ws, comps):
    """the components as bit ranges of the word"""
    pos = where(ws)
    out = []
    for k in comps:
        if k[0] == 'const':
            out.append(k)
        elif k[0] == 'bits':
            out += list(k[1])
        else:
            hi, lo = pos[int(k[1][1:])]
            if len(k) == 2:
                out.append((hi, lo))
            else:
                out += [(h + lo, l + lo) for h, l in k[2]]
    return out


def run_layout(s):
    def fields(c):
        """fields lie one after the other, the first in the highest bits"""
        ws = c.choose(*LAYOUTS)
        w = Info(c)
        n = sum(ws)
        f = w.format('Fmt', n)
        widths(c, f, ws)
        c.check(w.layout(f), 'layout', 'fields of %r fill a format of %d bits' % (ws, n))
        c.eq(c.call(f, 'computed_width'), const(n, 32), 'computed-width', 'the computed width')
        c.eq(c.call(f, 'declared_width'), const(n, 32), 'declared-width', 'the declared width')
        for i, (hi, lo) in enumerate(where(ws)):
            fl = obj(c, c.call(f, 'GetField', 'f%d' % i))
            if fl is None:
                c.check(False, 'get-field', 'a field is found by its name')
                continue
            c.eq(getm(c, fl, 'high'), const(hi, 32), 'field-high', 'high bit of field %d of %r' % (i, ws))
            c.eq(getm(c, fl, 'low'), const(lo, 32), 'field-low', 'low bit of field %d of %r' % (i, ws))
            c.eq(getm(c, fl, 'width'), const(ws[i], 32), 'field-width', 'width of field %d of %r' % (i, ws))
        c.same(c.call(f, 'GetField', 'other'), None, 'no-field', 'a name that is no field is not found')
        want = 'uint8_t *' if n > 128 else 'absl::uint128' if n > 64 else 'uint%d_t' % min(x for x in (8, 16, 32, 64) if x >= n)
        c.eq(c.call(f, 'uint_type_name'), StrV(want), 'word-type', 'the type that holds a format of %d bits' % n)
    s.explore('fields', fields)

    def mismatch(c):
        ws = c.choose([7, 5, 5, 3, 5, 7], [8], [33], [64])
        off = c.choose(-2, -1, 1, 2, 32)
        w = Info(c)
        f = w.format('Fmt', sum(ws) + off)
        widths(c, f, ws)
        c.check(not w.layout(f), 'width-refused', 'fields of %d bits are refused for a format of %d bits' % (sum(ws), sum(ws) + off))
    s.explore('mismatch', mismatch)

    def nested(c):
        """a format made of other formats"""
        w = Info(c)
        size = c.choose(1, 2, 3)
        a = w.format('Inner', 8)
        widths(c, a, [3, 5])
        n = 4 + 8 * size + 6
        wrong = c.choose(0, 1, -8)
        f = w.format('Outer', n + wrong)
        add_fields(c, f, [('top', 0, 4)])
        c.call(f, 'AddFormatReferenceField', 'inner', 'Inner', size, None)
        add_fields(c, f, [('low', 1, 6)])
        good = w.layout(a) and w.layout(f)
        if wrong:
            c.check(not good, 'nested-width', 'the widths of nested formats count once for each instance')
            return
        c.check(good, 'nested', 'a format may contain %d instance(s) of another one' % size)
        t, l = obj(c, c.call(f, 'GetField', 'top')), obj(c, c.call(f, 'GetField', 'low'))
        c.eq(getm(c, t, 'low'), const(n - 4, 32), 'nested-before', 'the field before nested formats')
        c.eq(getm(c, l, 'high'), const(5, 32), 'nested-after', 'the field after nested formats')
        c.eq(getm(c, l, 'low'), const(0, 32), 'nested-after', 'the field after nested formats')
    s.explore('nested', nested)

    def unknown(c):
        w = Info(c)
        f = w.format('Outer', 8)
        c.call(f, 'AddFormatReferenceField', 'inner', 'Inner', 1, None)
        c.check(not w.layout(f), 'nested-unknown', 'a reference to an undefined format is refused')
    s.explore('unknown', unknown)

    def bases(c):
        w = Info(c)
        k = c.choose('match', 'width', 'missing')
        b = w.format('Base', 16)
        widths(c, b, [16])
        d = w.format('Derived', 16 if k != 'width' else 17, 'Base' if k != 'missing' else 'Bass')
        widths(c, d, [4, 12] if k != 'width' else [5, 12])
        c.check(w.layout(b), 'layout', 'a format without base is accepted')
        good = w.layout(d)
        if k != 'match':
            c.check(not good, 'base-' + k, 'a base format that is undefined or of another width is refused')
            return
        c.check(good, 'base', 'a derived format of the same width is accepted')
        c.same(c.call(d, 'base_format'), b, 'base-format', 'the base format is the one that is named')
        e = w.format('Last', 16, 'Derived')
        widths(c, e, [16])
        o = w.format('Other', 16)
        widths(c, o, [16])
        c.check(w.layout(e) and w.layout(o), 'base', 'a derived format of the same width is accepted')
        for x, y, z in ((b, b, 1), (d, b, 1), (e, b, 1), (e, d, 1), (b, d, 0), (d, e, 0), (o, b, 0), (e, o, 0)):
            c.eq(c.call(x, 'IsDerivedFrom', Ptr(y)), boolc(bool(z)), 'derived', 'a format derives from itself and from its bases, and from nothing else')
    s.explore('bases', bases)

    def names(c):
        """names are not used twice"""
        w = Info(c)
        f = w.format('Fmt', 8)
        same = c.choose(True, False)
        r = c.call(w.o, 'AddFormat', 'Fmt' if same else 'Gmt', c.choose(8, 9), *c.choose([], ['Fmt']))
        c.eq(ok(c, r), boolc(not same), 'format-twice', 'a format name is taken once')
        c.same(c.call(w.o, 'GetFormat', 'Fmt'), f, 'get-format', 'a format is found by its name')
        c.same(c.call(w.o, 'GetFormat', 'Hmt'), None, 'get-format', 'a format is found by its name')
        add_fields(c, f, [('a', 0, 8)])
        x = obj(c, c.call(f, 'GetField', 'a'))
        c.check(lnot(ok(c, c.call(f, 'AddField', 'a', boolc(c.choose(True, False)), c.choose(8, 3)))), 'field-twice', 'a field name is taken once')
        c.same(c.call(f, 'GetField', 'a'), x, 'field-twice-kept', 'a refused field leaves the first one')
        c.check(lnot(ok(c, c.call(f, 'AddFieldOverlay', 'a', FALSE, 8))), 'overlay-field', 'an overlay does not take the name of a field')
        r = c.val(c.call(f, 'AddFieldOverlay', 'o', FALSE, 8))
        c.check(ok(c, r), 'add-overlay', 'a new overlay is accepted')
        c.check(lnot(ok(c, c.call(f, 'AddFieldOverlay', 'o', TRUE, 4))), 'overlay-twice', 'an overlay name is taken once')
        c.same(c.call(f, 'GetOverlay', 'o'), obj(c, r.v), 'get-overlay', 'an overlay is found by its name')
        c.same(c.call(f, 'GetOverlay', 'a'), None, 'get-overlay', 'an overlay is found by its name')
        c.same(c.call(f, 'GetField', 'o'), None, 'no-field', 'a name that is no field is not found')
    s.explore('names', names)


def run_overlay(s):
    def value(ov):
        def f(c):
            n, ws, ow, comps = c.choose(*ov)
            sg = c.choose(False, True)
            w = Info(c)
            f = w.format('Fmt', n)
            widths(c, f, ws)
            o = overlay(c, f, 'ov', sg, ow, comps)
            c.eq(c.call(o, 'must_be_extracted'), boolc(any(k[0] == 'const' for k in comps)), 'extracted', 'an overlay with constant bits has to be extracted to be compared')
            c.eq(c.call(o, 'computed_width'), const(ow, 32), 'overlay-width', 'the widths of the components add up')
            c.eq(c.call(o, 'declared_width'), const(ow, 32), 'overlay-declared', 'the declared width')
            c.eq(c.call(o, 'is_signed'), boolc(sg), 'overlay-signed', 'the declared sign')
            c.check(w.layout(f), 'layout', 'the format is accepted')
            if c.choose(False, True):
                c.check(ok(c, c.call(o, 'ComputeHighLow')), 'again', 'computing the positions again changes nothing')
            word = c.sym('word', 64)
            parts = parts_of(ws, comps)
            r = c.val(c.call(o, 'GetValue', word, types=['unsigned long']))
            c.check(ok(c, r), 'value-ok', 'a complete overlay has a value')
            c.eq(r.v, compose(word, parts), 'value', 'the value of the overlay %r of %r' % (comps, ws))
            m = 0
            for p in parts:
                if p[0] != 'const':
                    m |= ((1 << (p[0] - p[1] + 1)) - 1) << p[1]
            c.eq(c.call(o, 'mask'), const(m, 64), 'mask', 'the bits of the format the overlay %r refers to' % (comps,))
            v = c.sym('value', 64)
            once = sum(1 << i for i in range(64) if sum(1 for p in parts if p[0] != 'const' and p[1] <= i <= p[0]) == 1)
            r = c.val(c.call(o, 'GetBitField', v))
            c.check(ok(c, r), 'field-ok', 'an overlay value has its bits')
            bits = [FALSE] * 64
            at = 0
            for p in reversed(parts):
                if p[0] == 'const':
                    at += p[2]
                    continue
                for i in range(p[1], p[0] + 1):
                    bits[i] = bit(v, at)
                    at += 1
            got = r.v
            if m == once:
                c.eq(got, frombits(bits), 'bit-field', 'the bits of the format that give the overlay %r a value' % (comps,))
            else:
                c.check(eq(band(got, const(mask(64) & ~m, 64)), const(0, 64)), 'bit-field-mask', 'only bits the overlay refers to are set')
        return f
    for i in range(0, len(OVERLAYS), 3):
        s.explore('value', value(OVERLAYS[i:i + 3]))

    def every(c):
        """every bit range of a field and of the format"""
        w = Info(c)
        f = w.format('Fmt', 16)
        widths(c, f, [4, 9, 3])
        base = c.choose(('field', 'f1', 3, 9), ('bits', None, 0, 16), ('field', 'f0', 12, 4))
        lo = c.choose(*range(base[3]))
        hi = c.choose(*range(lo, base[3]))
        cw = c.choose(0, 2)
        comps = [('const', 2, 2)] * bool(cw) + [(base[0], base[1], [(hi, lo)]) if base[0] == 'field' else ('bits', [(hi, lo)])] + [('const', 1, 2)] * bool(cw)
        o = overlay(c, f, 'ov', 0, hi - lo + 1 + 2 * cw, comps)
        c.check(w.layout(f), 'layout', 'the format is accepted')
        word = c.sym('word', 64)
        r = c.val(c.call(o, 'GetValue', word, types=['unsigned long']))
        parts = [(hi + base[2], lo + base[2])]
        if cw:
            parts = [('const', 2, 2)] + parts + [('const', 1, 2)]
        c.check(ok(c, r), 'value-ok', 'a complete overlay has a value')
        c.eq(r.v, compose(word, parts), 'value', 'the value of bits %d..%d of %s' % (hi, lo, base[1] or 'the format'))
    s.explore('every', every)

    def refused(c):
        w = Info(c)
        f = w.format('Fmt', 16)
        widths(c, f, [4, 9, 3])
        r = c.val(c.call(f, 'AddFieldOverlay', 'ov', FALSE, 4))
        o = obj(c, r.v)
        hi = const(c.choose(-2147483648, -1, 0, 2, 3, 8, 9, 15, 16, 2147483647) & 0xffffffff, 32)
        lo = const(c.choose(-2147483648, -1, 0, 3, 8, 9, 15, 16, 2147483647) & 0xffffffff, 32)
        k = c.choose('f1', 'bits')
        b = c.construct(N + 'BitRange')
        setm(c, b, 'first', hi)
        setm(c, b, 'last', lo)
        n = 9 if k == 'f1' else 16
        if k == 'f1':
            r = c.call(o, 'AddFieldReference', 'f1', [b])
        else:
            r = c.call(o, 'AddFormatReference', [b])
        inside = land(lnot(slt(lo, const(0, 32))), lnot(slt(hi, lo)), slt(hi, const(n, 32)))
        good = ok(c, r)
        if not c.decide(inside):
            good = lnot(good)
        c.check(good, 'range', 'a bit range is accepted exactly when it lies in the field or format and is not reversed')
    s.explore('refused', refused)

    def other(c):
        w = Info(c)
        f = w.format('Fmt', 16)
        widths(c, f, [4, 9, 3])
        r = c.val(c.call(f, 'AddFieldOverlay', 'ov', FALSE, 9))
        o = obj(c, r.v)
        c.check(lnot(ok(c, c.call(o, 'AddFieldReference', 'f3'))), 'unknown-field', 'a field the format does not have is refused')
        b = c.construct(N + 'BitRange')
        setm(c, b, 'first', const(0, 32))
        setm(c, b, 'last', const(0, 32))
        c.check(lnot(ok(c, c.call(o, 'AddFieldReference', 'g', [b]))), 'unknown-field', 'a field the format does not have is refused')
        c.eq(c.call(o, 'computed_width'), const(0, 32), 'refused-width', 'a refused component adds nothing')
        c.check(ok(c, c.call(o, 'AddFieldReference', 'f0')), 'add-component', 'a field is accepted')
        c.check(w.layout(f), 'layout', 'the format is accepted')
        r = c.call(o, 'GetValue', c.sym('word', 64), types=['unsigned long'])
        c.check(lnot(ok(c, r)), 'incomplete', 'an overlay whose components do not add up to its width has no value')
    s.explore('other', other)


def run(s):
    run_layout(s)
    run_overlay(s)


PROPS = {
    'P41': dict(sources=SRC, run=run, rule='field positions for chosen width lists; overlay value, mask and scattered bits for a symbolic word, bit by bit; symbolic bit ranges'),
}
