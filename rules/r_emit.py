"""The C++ the format generator writes: extractors and inserters."""
import cxx
from rules.util import *
from rules.r_format import Info, add_fields, widths, overlay, compose, parts_of, where, getm, OVERLAYS, SRC, N
from terms import TRUE, FALSE

U8 = cxx.IT(8, False)


def smallest(w):
    return min(x for x in (8, 16, 32, 64) if x >= w)


def vtype(w, sg):
    if w > 64:
        return cxx.Ty('big', 128, sg)
    return cxx.IT(smallest(w), sg)


class Words(object):
    """an instruction of n bits, in the forms the generated functions take it"""

    def __init__(self, c, n, name='word', clean=True):
        self.n = n
        self.bits = [bit(c.sym('%s%d' % (name, i // 64), 64), i % 64) for i in range(n)]

    def value(self):
        w = smallest(self.n) if self.n <= 64 else 128
        return cxx.V(vtype(self.n, False), frombits(self.bits + [FALSE] * (w - self.n)))

    def size(self):
        return (self.n + 7) // 8

    def big(self):
        b = self.bits + [FALSE] * (8 * self.size() - self.n)
        return cxx.V(cxx.Ty('ptr', 64, to=U8), cxx.Bytes([frombits(b[8 * i:8 * i + 8]) for i in reversed(range(self.size()))]))

    def little(self):
        b = self.bits + [FALSE] * (8 * self.size() - self.n)
        return cxx.V(cxx.Ty('ptr', 64, to=U8), cxx.Bytes([frombits(b[8 * i:8 * i + 8]) for i in range(self.size())]))

    def arg(self):
        return self.value() if self.n <= 128 else self.big()


def cat(word, parts, ow, sg):
    """the bits of the parts (leftmost first), extended to the result type"""
    bits = []
    for p in reversed(parts):
        if p[0] == 'const':
            bits += [boolc(bool(p[1] >> i & 1)) for i in range(p[2])]
        else:
            bits += word.bits[p[1]:p[0] + 1]
    w = vtype(ow, sg).w
    return frombits(bits + [bits[-1] if sg else FALSE] * (w - len(bits)))


class Text(object):
    """what GenerateExtractors and GenerateInserters wrote, parsed"""

    def __init__(self, c, fmts, inserters=False):
        self.c, self.ok = c, True
        self.t = ''
        try:
            if inserters:
                self.t = ''.join(self.const(c.call(f, 'GenerateInserters')) for f in fmts)
                types = ''.join(self.const(getm(c, c.val(c.call(f, 'GenerateExtractors')), 'types_output')) for f in fmts)
                self.u = cxx.Unit(types + self.t, c=c)
            else:
                ex = [c.val(c.call(f, 'GenerateExtractors')) for f in fmts]
                types = ''.join(self.const(getm(c, e, 'types_output')) for e in ex)
                self.t = types + ''.join(self.const(getm(c, e, 'h_output')) for e in ex)
                cls = 'class Extractors {\npublic: \n' + ''.join(self.const(getm(c, e, 'class_output')) for e in ex) + '};\n'
                self.u = cxx.Unit(self.t + cls, c=c)
        except cxx.Bad as e:
            self.ok = False
            c.check(False, 'valid', 'the generated code is not valid C++: %s in %r' % (e, self.t[-700:]))

    def const(self, s):
        t = self.c.val(s).const()
        if t is None:
            raise Imprecise('text is not constant')
        return t

    def call(self, fn, args, want, oid, msg, ret=None):
        """the function fn returns want"""
        c = self.c
        if not self.ok:
            return
        try:
            q = self.u.look(self.u.fns, fn, ())
            if q is None:
                c.check(False, oid, '%s: there is no function %s' % (msg, fn))
                return
            if ret is not None:
                c.check(all(f['ret'] == ret for f in self.u.fns[q]), oid + '-type', '%s: %s returns %r, required %r' % (msg, fn, self.u.fns[q][0]['ret'], ret))
            c.check(all(not f['member'] for f in self.u.fns[q]), oid + '-static', '%s: %s cannot be called without an object: %s' % (msg, fn, self.show(fn)))
            c.check(all(f['inline'] for f in self.u.fns[q]), oid + '-inline', '%s: %s is defined in a header and not inline: %s' % (msg, fn, self.show(fn)))
            r = self.u.call(fn, args)
        except cxx.Bad as e:
            c.check(False, oid, '%s: %s is not valid C++ (%s): %s' % (msg, fn, e, self.show(fn)))
            return
        except cxx.Undefined as e:
            c.check(False, oid, '%s: %s has no defined result (%s): %s' % (msg, fn, e, self.show(fn)))
            return
        except cxx.Fatal:
            c.check(False, oid, '%s: %s terminates' % (msg, fn))
            return
        if want is None:
            return r
        c.check(eq(fit(r, want.w), want), oid, '%s: %s computes %s, required %s: %s' % (msg, fn, r.v, want, self.show(fn)))
        return r

    def show(self, fn):
        n = fn.split('::')[-1] + '('
        i = self.t.find(n)
        return repr(self.t[max(0, i - 40):i + 420]) if i >= 0 else ''


def fit(r, w):
    v = r.v
    return trunc(v, w) if v.w > w else (sext if r.ty.sg else zext)(v, w)


LAY = [[1, 7], [5, 3], [8], [7, 5, 5, 3, 5, 7], [16], [3, 13], [32], [31, 1], [33], [20, 12, 16], [8, 16], [1, 63], [63, 1], [64], [32, 32], [20, 44]]
WIDE = [[1, 64], [65], [40, 40], [64, 64], [28, 100], [100, 28], [128], [127, 1], [96], [32, 64]]
HUGE = [[65, 64], [64, 65, 71], [8, 120, 128, 8], [3, 64, 100, 1, 17], [128, 1]]


def run_extract(s):
    def fields(lays):
        def f(c):
            ws = c.choose(*lays)
            sg = c.choose(False, True)
            n = sum(ws)
            w = Info(c)
            f = w.format('my_fmt', n)
            widths(c, f, ws, sg)
            c.check(w.layout(f), 'layout', 'the format is accepted')
            t = Text(c, [f])
            word = Words(c, n)
            for i, (hi, lo) in enumerate(where(ws)):
                if ws[i] > 128:
                    continue
                want = cat(word, [(hi, lo)], ws[i], sg)
                what = '%s field of bits %d..%d of a %d bit format' % ('signed' if sg else 'unsigned', hi, lo, n)
                for ns in ('my_fmt', 'Extractors::MyFmt'):
                    fn = '%s::ExtractF%d' % (ns, i)
                    t.call(fn, [word.arg()], want, 'field', what, vtype(ws[i], sg))
                    if n <= 128 and bin(n).count('1') > 1:
                        t.call(fn, [word.big()], want, 'field-bytes', what + ' in bytes')
        return f
    for lays in (LAY[:6], LAY[6:11], LAY[11:], WIDE[:5], WIDE[5:], HUGE):
        s.explore('fields', fields(lays))

    def every(c):
        """every position of a field in a format"""
        n = c.choose(8, 16, 24, 32, 64, 96)
        step = c.choose(*range(1, n + 1, 1 if s.thorough or n < 33 else 5))
        sg = c.choose(False, True)
        lo = c.choose(*range(0, n - step + 1, 1 if n < 17 or s.thorough else 7))
        ws = [x for x in (n - step - lo, step, lo) if x]
        at = 1 if n - step - lo else 0
        w = Info(c)
        f = w.format('fmt', n)
        widths(c, f, ws, sg)
        c.check(w.layout(f), 'layout', 'the format is accepted')
        t = Text(c, [f])
        word = Words(c, n)
        t.call('fmt::ExtractF%d' % at, [word.arg()], cat(word, [(lo + step - 1, lo)], step, sg), 'every', 'bits %d..%d of %d' % (lo + step - 1, lo, n))
    s.explore('every', every, limit=9000)

    def overlays(ovs):
        def f(c):
            n, ws, ow, comps = c.choose(*ovs)
            sg = c.choose(False, True)
            w = Info(c)
            f = w.format('fmt', n)
            widths(c, f, ws)
            overlay(c, f, 'my_ov', sg, ow, comps)
            c.check(w.layout(f), 'layout', 'the format is accepted')
            t = Text(c, [f])
            word = Words(c, n)
            want = cat(word, parts_of(ws, comps), ow, sg)
            for ns in ('fmt', 'Extractors::Fmt'):
                t.call('%s::ExtractMyOv' % ns, [word.arg()], want, 'overlay', '%s overlay %r of %r' % ('signed' if sg else 'unsigned', comps, ws), vtype(ow, sg))
        return f
    extra = [
        (32, [32], 4, [('const', 0, 4)]),
        (32, [32], 50, [('const', 0x3ffff, 18), ('field', 'f0')]),
        (32, [32], 33, [('const', 1, 1), ('field', 'f0')]),
        (16, [8, 8], 40, [('field', 'f0'), ('field', 'f1'), ('const', 0, 24)]),
        (32, [8, 24], 64, [('field', 'f0'), ('const', 0, 20), ('field', 'f1'), ('const', 5, 12)]),
        (16, [16], 31, [('field', 'f0'), ('const', 0, 15)]),
        (32, [32], 90, [('field', 'f0'), ('const', 3, 20), ('field', 'f0', [(20, 3)]), ('const', 0, 20)]),
        (64, [64], 64, [('bits', [(0, 0), (63, 1)])]),
    ]
    wide = [
        (96, [32, 64], 64, [('field', 'f1')]),
        (96, [32, 64], 40, [('field', 'f0'), ('const', 0x81, 8)]),
        (96, [32, 64], 72, [('field', 'f0', [(7, 0)]), ('field', 'f1')]),
        (128, [64, 64], 20, [('field', 'f1', [(9, 0)]), ('bits', [(127, 118)])]),
        (160, [32, 64, 64], 64, [('field', 'f2', [(31, 0)]), ('field', 'f0')]),
        (160, [32, 64, 64], 13, [('const', 1, 1), ('bits', [(159, 152)]), ('const', 0, 1), ('field', 'f2', [(2, 0)])]),
        (160, [32, 64, 64], 100, [('bits', [(99, 0)])]),
    ]
    al = OVERLAYS + extra
    for i in range(0, len(al), 4):
        s.explore('overlays', overlays(al[i:i + 4]))
    s.explore('wide-overlays', overlays(wide))

    def nested(c):
        n0 = c.choose(8, 5, 24)
        size = c.choose(1, 2, 3)
        top, low = c.choose((4, 6), (0, 8), (8, 0), (30, 10), (60, 60), (100, 30))
        n = top + n0 * size + low
        w = Info(c)
        a = w.format('Inner', n0)
        widths(c, a, [n0])
        f = w.format('Outer', n)
        if top:
            add_fields(c, f, [('top', 0, top)])
        c.call(f, 'AddFormatReferenceField', 'inner_alias', 'Inner', size, None)
        if low:
            add_fields(c, f, [('low', 0, low)])
        c.check(w.layout(a, f), 'layout', 'the formats are accepted')
        t = Text(c, [a, f])
        word = Words(c, n)
        for k in range(size):
            hi = n - top - 1 - k * n0
            want = cat(word, [(hi, hi - n0 + 1)], n0, False)
            ix = [cxx.V(cxx.IT(32, True), const(k, 32))] if size > 1 else []
            what = 'instance %d of %d of a format of %d bits in one of %d' % (k, size, n0, n)
            t.call('outer::ExtractInnerAlias', [word.arg()] + ix, want, 'nested', what, vtype(n0, False))
            if n <= 128 and bin(n).count('1') > 1:
                t.call('outer::ExtractInnerAlias', [word.big()] + ix, want, 'nested-bytes', what + ' in bytes')
    s.explore('nested', nested)

    def promoted(c):
        """what a base format offers for its derived formats is right for each of them"""
        w = Info(c)
        b = w.format('base', 16)
        k = c.choose('same', 'moved', 'width', 'sign', 'own', 'overlay-same', 'overlay-moved', 'overlay-sign', 'mixed', 'ref')
        add_fields(c, b, [('x', 0, 4), ('rest', 0, 12)] if k == 'own' else [('all', 0, 16)])
        d1 = w.format('derived_a', 16, 'base')
        d2 = w.format('derived_b', 16, 'base')
        want = {'x': (15, 12, 0)} if k == 'own' else {'all': (15, 0, 0)}
        fields = {'base': want, 'derived_a': {}, 'derived_b': {}}

        def put(fmt, name, fs):
            add_fields(c, fmt, fs)
            for (n_, sg, wd), (hi, lo) in zip(fs, where([x[2] for x in fs])):
                fields[name][n_] = (hi, lo, sg)
        A = [('x', 0, 4), ('y', 0, 5), ('z', 0, 7)]
        put(d1, 'derived_a', A)
        B = {'same': A, 'moved': [('p', 0, 2), ('x', 0, 4), ('q', 0, 10)], 'width': [('x', 0, 5), ('q', 0, 11)], 'sign': [('x', 1, 4), ('q', 0, 12)],
             'own': [('p', 0, 2), ('x', 0, 4), ('q', 0, 10)]}.get(k, [('p', 0, 16)])
        put(d2, 'derived_b', B)
        if k.startswith('overlay') or k == 'mixed':
            comps = [('bits', [(3, 0), (15, 14)])]
            overlay(c, d1, 'ov', 0, 6, comps)
            fields['derived_a']['ov'] = ([(3, 0), (15, 14)], 0)
            if k != 'mixed':
                comps = comps if k != 'overlay-moved' else [('bits', [(5, 0)])]
                overlay(c, d2, 'ov', int(k == 'overlay-sign'), 6, comps)
                fields['derived_b']['ov'] = (comps[0][1], int(k == 'overlay-sign'))
            else:
                overlay(c, d2, 'x', 0, 4, [('bits', [(3, 0)])])
                fields['derived_b']['x'] = ([(3, 0)], 0)
        if k == 'ref':
            i = w.format('inner', 8)
            widths(c, i, [8])
            for fmt, name, at in ((w.format('derived_c', 16, 'base'), 'derived_c', 0), (w.format('derived_d', 16, 'base'), 'derived_d', 1)):
                fields[name] = {}
                if at:
                    add_fields(c, fmt, [('u', 0, 8)])
                c.call(fmt, 'AddFormatReferenceField', 'in', 'inner', 1, None)
                if not at:
                    add_fields(c, fmt, [('u', 0, 8)])
                fields[name]['in'] = (7, 0, 0) if at else (15, 8, 0)
                fields[name]['u'] = (15, 8, 0) if at else (7, 0, 0)
        fm = {n: obj(c, c.call(w.o, 'GetFormat', n)) for n in list(fields) + (['inner'] if k == 'ref' else [])}
        good = w.layout(*[fm[n] for n in sorted(fm)])
        c.check(good, 'layout', 'the formats are accepted')
        c.call(w.o, 'PropagateExtractors')
        t = Text(c, [fm[n] for n in sorted(fm)])
        if not t.ok:
            return
        word = Words(c, 16)

        def value(d):
            if isinstance(d[0], list):
                return cat(word, d[0], sum(h - l + 1 for h, l in d[0]), bool(d[1]))
            return cat(word, [(d[0], d[1])], d[0] - d[1] + 1, bool(d[2]))
        for name, fs in fields.items():
            for fn, d in fs.items():
                e = 'Extract' + ''.join(x.capitalize() for x in fn.split('_'))
                t.call('%s::%s' % (name, e), [word.arg()], value(d), 'own', 'the extractor of %s in %s (%s)' % (fn, name, k))
                q = 'base::' + e
                if name != 'base' and fn not in fields['base'] and q in t.u.fns:
                    t.call(q, [word.arg()], value(d), 'promoted', 'the extractor of %s that base offers, for %s (%s)' % (fn, name, k))
        if k == 'same':
            for fn in ('X', 'Y', 'Z'):
                c.check('base::Extract' + fn in t.u.fns, 'promoted-there', 'an extractor that all derived formats share is offered by the base')
    s.explore('promoted', promoted)

    def packed(c):
        """formats laid out as packed structures"""
        ws = c.choose([4, 4], [1, 7, 8], [7, 5, 5, 3, 5, 7], [8, 16], [20, 44], [64], [32, 40], [64, 64, 8])
        n = sum(ws)
        sg = c.choose(False, True)
        w = Info(c)
        f = w.format('pk_fmt', n)
        widths(c, f, ws, sg)
        set_packed(c, f)
        c.check(w.layout(f), 'layout', 'the format is accepted')
        t = Text(c, [f])
        word = Words(c, n)
        arg = word.value() if n <= 64 else word.little()
        for i, (hi, lo) in enumerate(where(ws)):
            want = frombits(word.bits[lo:hi + 1])
            if not t.ok:
                return
            r = t.call('pk_fmt::ExtractF%d' % i, [arg], None, 'packed', 'field %d of the packed format %r' % (i, ws))
            if r is not None:
                c.check(eq(trunc(r.v, ws[i]) if r.v.w > ws[i] else r.v, want), 'packed', 'field %d of the packed format %r: %s, required %s' % (i, ws, r.v, want))
    s.explore('packed', packed)

    def packed_overlay(c):
        n, ws, ow, comps = c.choose(*([o for o in OVERLAYS if o[0] <= 64] + extra + [
            (72, [32, 40], 20, [('field', 'f1', [(9, 0)]), ('const', 1, 1), ('bits', [(70, 62)])]),
            (136, [64, 64, 8], 100, [('bits', [(99, 0)])]),
            (136, [64, 64, 8], 67, [('field', 'f2', [(2, 0)]), ('field', 'f0')])]))
        sg = c.choose(False, True)
        w = Info(c)
        f = w.format('pk_fmt', n)
        widths(c, f, ws)
        set_packed(c, f)
        overlay(c, f, 'ov', sg, ow, comps)
        c.check(w.layout(f), 'layout', 'the format is accepted')
        t = Text(c, [f])
        word = Words(c, n)
        t.call('pk_fmt::ExtractOv', [word.value() if n <= 64 else word.little()], cat(word, parts_of(ws, comps), ow, sg), 'packed-overlay', 'overlay %r of the packed format %r' % (comps, ws), vtype(ow, sg))
    s.explore('packed-overlay', packed_overlay)


def set_packed(c, f):
    c.call(f, 'set_layout', const(1, 32))


def run_insert(s):
    def merged(word, v, pieces):
        """the bits of word with [(hi, lo, bits of v from)] replaced"""
        out = list(word.bits)
        for hi, lo, at in pieces:
            for i in range(lo, hi + 1):
                out[i] = bit(v, at + i - lo)
        return out

    def result(c, t, fn, word, v, want, oid, msg, ix=(), arg=None, little=False):
        arg = arg or (word.value() if word.n <= 128 else word.big())
        q = t.u.look(t.u.fns, fn, ()) if t.ok else None
        if not t.ok:
            return
        if q is None:
            c.check(False, oid, '%s: there is no function %s' % (msg, fn))
            return
        vt = t.u.fns[q][0]['ps'][len(ix)][0]
        val = cxx.V(vt, v) if v.w == vt.w else cxx.V(vt, trunc(v, vt.w))
        r = t.call(fn, list(ix) + [val, arg], None, oid, msg)
        if r is None:
            return
        if isinstance(r.v, cxx.Bytes):
            b = r.v.b if little else list(reversed(r.v.b))
            got = frombits([bit(x, i) for x in b for i in range(8)])
            w = frombits(want + [FALSE] * (8 * len(b) - len(want)))
        else:
            got = r.v
            w = frombits(want + [FALSE] * (r.v.w - len(want)))
        c.check(eq(got, w), oid, '%s: %s computes %s, required %s: %s' % (msg, fn, got, w, t.show(fn)))

    def symv(c, w):
        return frombits([bit(c.sym('value%d' % (i // 64), 64), i % 64) for i in range(w)])

    def fields(lays):
        def f(c):
            ws = c.choose(*lays)
            n = sum(ws)
            w = Info(c)
            f = w.format('my_fmt', n)
            widths(c, f, ws, c.choose(0, 1))
            c.check(w.layout(f), 'layout', 'the format is accepted')
            t = Text(c, [f], True)
            for i, (hi, lo) in enumerate(where(ws)):
                word = Words(c, n)
                if ws[i] > 128:
                    continue
                v = symv(c, 128)
                result(c, t, 'MyFmt::InsertF%d' % i, word, v, merged(word, v, [(hi, lo, 0)]), 'field', 'insertion into bits %d..%d of %d' % (hi, lo, n))
        return f
    for lays in (LAY[:6], LAY[6:11], LAY[11:], WIDE[:5], WIDE[5:], HUGE):
        s.explore('insert-fields', fields(lays))

    def overlays(ovs):
        def f(c):
            n, ws, ow, comps = c.choose(*ovs)
            w = Info(c)
            f = w.format('my_fmt', n)
            widths(c, f, ws)
            overlay(c, f, 'ov', c.choose(0, 1), ow, comps)
            c.check(w.layout(f), 'layout', 'the format is accepted')
            t = Text(c, [f], True)
            word = Words(c, n)
            v = symv(c, 128)
            pieces, at = [], 0
            for p in reversed(parts_of(ws, comps)):
                if p[0] == 'const':
                    at += p[2]
                else:
                    pieces.append((p[0], p[1], at))
                    at += p[0] - p[1] + 1
            cov = [i for hi, lo, _ in pieces for i in range(lo, hi + 1)]
            if len(set(cov)) != len(cov):
                return
            result(c, t, 'MyFmt::InsertOv', word, v, merged(word, v, pieces), 'overlay', 'insertion of the overlay %r of %r' % (comps, ws))
        return f
    wide = [
        (96, [32, 64], 64, [('field', 'f1')]),
        (96, [32, 64], 72, [('field', 'f0', [(7, 0)]), ('field', 'f1')]),
        (128, [64, 64], 20, [('field', 'f1', [(9, 0)]), ('bits', [(127, 118)])]),
        (160, [32, 64, 64], 64, [('field', 'f2', [(31, 0)]), ('field', 'f0')]),
        (160, [32, 64, 64], 13, [('const', 1, 1), ('bits', [(159, 152)]), ('const', 0, 1), ('field', 'f2', [(2, 0)])]),
        (160, [32, 64, 64], 100, [('bits', [(99, 0)])]),
        (128, [64, 64], 128, [('bits', [(127, 0)])]),
    ]
    al = OVERLAYS + wide
    for i in range(0, len(al), 5):
        s.explore('insert-overlays', overlays(al[i:i + 5]))

    def nested(c):
        n0 = c.choose(8, 5, 64)
        size = c.choose(1, 2, 3)
        top, low = c.choose((4, 6), (0, 8), (8, 0), (30, 10), (60, 60), (100, 30))
        n = top + n0 * size + low
        w = Info(c)
        a = w.format('Inner', n0)
        widths(c, a, [n0])
        f = w.format('Outer', n)
        if top:
            add_fields(c, f, [('top', 0, top)])
        c.call(f, 'AddFormatReferenceField', 'inner_alias', 'Inner', size, None)
        if low:
            add_fields(c, f, [('low', 0, low)])
        c.check(w.layout(a, f), 'layout', 'the formats are accepted')
        t = Text(c, [f], True)
        for k in range(size):
            hi = n - top - 1 - k * n0
            word = Words(c, n)
            v = symv(c, 128)
            ix = [cxx.V(cxx.IT(32, True), const(k, 32))] if size > 1 else []
            result(c, t, 'Outer::InsertInnerAlias', word, v, merged(word, v, [(hi, hi - n0 + 1, 0)]), 'nested',
                   'insertion of instance %d of %d of a format of %d bits into one of %d' % (k, size, n0, n), ix)
    s.explore('insert-nested', nested)

    def packed(c):
        ws = c.choose([4, 4], [1, 7, 8], [7, 5, 5, 3, 5, 7], [8, 16], [20, 44], [64], [32, 40], [64, 64, 8])
        n = sum(ws)
        w = Info(c)
        f = w.format('pk_fmt', n)
        widths(c, f, ws, c.choose(0, 1))
        set_packed(c, f)
        c.check(w.layout(f), 'layout', 'the format is accepted')
        t = Text(c, [f], True)
        for i, (hi, lo) in enumerate(where(ws)):
            word = Words(c, n)
            v = symv(c, 128)
            arg = word.value() if n <= 64 else word.little()
            result(c, t, 'PkFmt::InsertF%d' % i, word, v, merged(word, v, [(hi, lo, 0)]), 'packed', 'insertion into field %d of the packed format %r' % (i, ws), arg=arg, little=True)
    s.explore('insert-packed', packed)


PROPS = {
    'P42': dict(sources=SRC, run=run_extract, rule='the emitted extractors are parsed and evaluated on a symbolic instruction word, bit by bit, for enumerated layouts'),
    'P43': dict(sources=SRC, run=run_insert, rule='the emitted inserters are parsed and evaluated on symbolic words and values, bit by bit, for enumerated layouts'),
}
