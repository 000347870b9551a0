"""Instruction encodings and the decoders emitted for them."""
import random
import cxx
from rules.util import *
from rules.r_format import Info, add_fields, widths, overlay, compose, parts_of, where, getm, SRC, N
from rules.r_emit import Words
from terms import TRUE, FALSE

CMP = {'==': 0, '!=': 1, '<': 2, '<=': 3, '>': 4, '>=': 5}


def compare(op, a, b):
    w = max(a.w, b.w)
    a, b = zext(a, w), zext(b, w)
    return {'==': lambda: eq(a, b), '!=': lambda: lnot(eq(a, b)), '<': lambda: ult(a, b), '<=': lambda: lnot(ult(b, a)),
            '>': lambda: ult(b, a), '>=': lambda: lnot(ult(a, b))}[op]()


def bits_of(ws, ovs, name):
    """the parts of a field or overlay, leftmost first"""
    if name in ovs:
        return parts_of(ws, ovs[name][2])
    hi, lo = where(ws)[int(name[1:])]
    return [(hi, lo)]


def mask_of(parts):
    m = 0
    for p in parts:
        if p[0] != 'const':
            m |= ((1 << (p[0] - p[1] + 1)) - 1) << p[1]
    return m


def value(c, n, sg):
    """a value of n bits, each of them symbolic, or one around the ends of what n bits hold"""
    outside = sorted({x & mask(64) for x in (-1, 1 << n, (1 << n) + 1, 1 << (n - 1), (1 << n) - 1, -(1 << (n - 1)), -(1 << (n - 1)) - 1, -(1 << n), 1 << 63, (1 << 63) - 1, 1 << 32, -(1 << 32))})
    v = c.choose(None, *outside)
    if v is not None:
        return const(v, 64)
    x = trunc(c.sym('v', 64), n) if n < 64 else c.sym('v', 64)
    if n == 64:
        return x if sg else band(x, const(mask(63), 64))
    return sext(x, 64) if sg else zext(x, 64)


def inside(v, n, sg):
    if not isc(v):
        return True
    x = sval(v)
    return -(1 << (n - 1)) <= x < 1 << (n - 1) if sg else 0 <= x < 1 << n


def run_encoding(s):
    WS = [[8, 8, 16], [1, 30, 1], [31, 1], [1, 31], [32], [33, 31], [1, 63], [40, 8, 16], [20, 44]]

    def fields(sg):
        def f(c):
            """which values are accepted, and what mask and value result"""
            ws = c.choose(*WS)
            k = c.choose(*range(len(ws)))
            w = Info(c)
            f = w.format('Fmt', sum(ws))
            widths(c, f, ws, sg)
            c.check(w.layout(f), 'layout', 'the format is accepted')
            enc = c.new(N + 'InstructionEncoding', 'enc', Ptr(f), FALSE)
            n = ws[k]
            v = value(c, n, sg)
            op = c.choose('==', '!=', '<', '<=', '>', '>=')
            fn = c.choose(True, False) if op == '==' else False
            if fn:
                r = c.call(enc, 'AddEqualConstraint', 'f%d' % k, v)
            else:
                r = c.call(enc, 'AddOtherConstraint', const(CMP[op], 32), 'f%d' % k, v, types=[None, None, 'long'])
            good = ok(c, r)
            if not inside(v, n, sg) or sg and op not in ('==', '!='):
                c.check(lnot(good), 'refused', 'a value outside the %d bit %s field is refused (%s)' % (n, 'signed' if sg else 'unsigned', op))
                c.eq(c.call(enc, 'GetCombinedMask'), const(0, 64), 'refused-mask', 'a refused constraint adds nothing')
                return
            c.check(good, 'accepted', 'a value of the %d bit %s field is accepted (%s)' % (n, 'signed' if sg else 'unsigned', op))
            hi, lo = where(ws)[k]
            m = const(((1 << n) - 1) << lo, 64)
            c.eq(c.call(enc, 'GetCombinedMask'), m, 'combined', 'the bits that constraints refer to')
            c.eq(c.call(enc, 'GetMask'), m if fn else const(0, 64), 'mask', 'the bits that have to be equal')
            c.eq(c.call(enc, 'GetValue'), band(shl(v, const(lo, 64)), m) if fn else const(0, 64), 'value', 'the value they have')
        return f
    for sg in (0, 1):
        s.explore('fields', fields(sg))

    def wide(c):
        sg = c.choose(0, 1)
        w = Info(c)
        f = w.format('Fmt', 64)
        widths(c, f, [64], sg)
        c.check(w.layout(f), 'layout', 'the format is accepted')
        enc = c.new(N + 'InstructionEncoding', 'enc', Ptr(f), FALSE)
        r = c.call(enc, 'AddEqualConstraint', 'f0', c.sym('v', 64))
        c.check(lnot(ok(c, r)), 'wide', 'a field of 64 bits is refused')
        r = c.call(enc, 'AddEqualConstraint', 'f9', c.sym('v', 64))
        c.check(lnot(ok(c, r)), 'unknown', 'a name that is neither field nor overlay is refused')
        for a, b in (('f9', 'f0'), ('f0', 'f9'), ('f0', 'f0')):
            r = c.call(enc, 'AddOtherConstraint', const(1, 32), a, b, types=[None, None, 'std::string'])
            c.check(lnot(ok(c, r)), 'unknown', 'a comparison of %s with %s is refused' % (a, b))
        c.eq(c.call(enc, 'GetCombinedMask'), const(0, 64), 'refused-mask', 'a refused constraint adds nothing')
    s.explore('wide', wide)

    OV = [
        ([7, 5, 5, 3, 5, 7], 12, [('field', 'f0'), ('field', 'f4')]),
        ([7, 5, 5, 3, 5, 7], 6, [('bits', [(31, 30), (0, 0)]), ('const', 5, 3)]),
        ([32], 32, [('field', 'f0')]), ([32], 31, [('bits', [(31, 1)])]), ([32, 32], 40, [('field', 'f1'), ('field', 'f0', [(7, 0)])]),
        ([32], 40, [('field', 'f0'), ('const', 0x81, 8)]), ([64], 63, [('bits', [(62, 0)])]), ([1, 63], 64, [('field', 'f1'), ('field', 'f0')]),
    ]

    def overlays(c):
        ws, ow, comps = c.choose(*OV)
        sg = c.choose(0, 1)
        w = Info(c)
        f = w.format('Fmt', sum(ws))
        widths(c, f, ws)
        overlay(c, f, 'ov', sg, ow, comps)
        c.check(w.layout(f), 'layout', 'the format is accepted')
        enc = c.new(N + 'InstructionEncoding', 'enc', Ptr(f), FALSE)
        v = value(c, ow, sg)
        op = c.choose('==', '!=', '<')
        fn = op == '=='
        if fn:
            r = c.call(enc, 'AddEqualConstraint', 'ov', v)
        else:
            r = c.call(enc, 'AddOtherConstraint', const(CMP[op], 32), 'ov', v, types=[None, None, 'long'])
        good = ok(c, r)
        if not inside(v, ow, sg) or sg and op not in ('==', '!='):
            c.check(lnot(good), 'overlay-refused', 'a value outside the %d bit %s overlay is refused (%s)' % (ow, 'signed' if sg else 'unsigned', op))
            return
        c.check(good, 'overlay-accepted', 'a value of the %d bit %s overlay is accepted (%s)' % (ow, 'signed' if sg else 'unsigned', op))
        parts = parts_of(ws, comps)
        m = const(mask_of(parts), 64)
        c.eq(c.call(enc, 'GetCombinedMask'), m, 'combined', 'the bits that constraints refer to')
        plain = fn and not any(p[0] == 'const' for p in parts)
        c.eq(c.call(enc, 'GetMask'), m if plain else const(0, 64), 'mask', 'the bits that have to be equal')
        bits, at = [FALSE] * 64, 0
        for p in reversed(parts):
            if p[0] == 'const':
                at += p[2]
                continue
            for i in range(p[1], p[0] + 1):
                bits[i] = bit(v, at)
                at += 1
        c.eq(c.call(enc, 'GetValue'), frombits(bits) if plain else const(0, 64), 'value', 'the value they have')
    s.explore('overlays', overlays)

    def several(c):
        """constraints add up, in any order, read or not in between; a copy has the same"""
        ws = [7, 5, 5, 3, 5, 7]
        w = Info(c)
        f = w.format('Fmt', 32)
        widths(c, f, ws)
        overlay(c, f, 'ov', 0, 8, [('field', 'f1'), ('field', 'f3')])
        overlay(c, f, 'cv', 0, 7, [('field', 'f4'), ('const', 2, 2)])
        c.check(w.layout(f), 'layout', 'the format is accepted')
        enc = c.new(N + 'InstructionEncoding', 'enc', Ptr(f), FALSE)
        ops = [('==', 'f5', 0x33), ('==', 'ov', 0xa5), ('==', 'cv', 0x4e), ('!=', 'f2', 3), ('!=', 'f4', 'f2'), ('<', 'ov', 'f0'), ('>=', 'f3', 'ov')]
        em, ev, cm = 0, 0, 0
        pos = {'f%d' % i: [x] for i, x in enumerate(where(ws))}
        pos['ov'] = parts_of(ws, [('field', 'f1'), ('field', 'f3')])
        pos['cv'] = parts_of(ws, [('field', 'f4'), ('const', 2, 2)])
        for k in range(3):
            op, a, b = c.choose(*ops)
            if isinstance(b, str):
                r = c.call(enc, 'AddOtherConstraint', const(CMP[op], 32), a, b, types=[None, None, 'std::string'])
                cm |= mask_of(pos[b])
            elif op == '==':
                r = c.call(enc, 'AddEqualConstraint', a, const(b, 64))
            else:
                r = c.call(enc, 'AddOtherConstraint', const(CMP[op], 32), a, const(b, 64), types=[None, None, 'long'])
            c.check(ok(c, r), 'accepted', 'the constraint %s %s %s is accepted' % (a, op, b))
            cm |= mask_of(pos[a])
            if op == '==' and a != 'cv':
                em |= mask_of(pos[a])
                at = 0
                for hi, lo in reversed(pos[a]):
                    ev |= ((b >> at) & ((1 << (hi - lo + 1)) - 1)) << lo
                    at += hi - lo + 1
            if k < 2 and c.choose(False, True):
                c.eq(c.call(enc, 'GetCombinedMask'), const(cm, 64), 'combined', 'the bits that constraints refer to')
        if c.choose(False, True):
            enc = c.new(N + 'InstructionEncoding', enc, copy=True)
        c.eq(c.call(enc, 'GetValue'), const(ev, 64), 'value', 'the value they have')
        c.eq(c.call(enc, 'GetMask'), const(em, 64), 'mask', 'the bits that have to be equal')
        c.eq(c.call(enc, 'GetCombinedMask'), const(cm, 64), 'combined', 'the bits that constraints refer to')
    s.explore('several', several, limit=4000)


PROPS = {
    'P44': dict(sources=SRC, run=run_encoding, rule='constraint acceptance, mask and value for a symbolic constraint value, over enumerated fields and overlays'),
}


RV = [7, 5, 5, 3, 5, 7]          # func7 rs2 rs1 func3 rd op
# name: (field widths, {overlay: (sign, width, parts)}, [(encoding, [constraints], [(specialization, [constraints])])])
DESC = {
    'one': (RV, {}, [('a', [('f5', '==', 0x33)], [])]),
    'alu': (RV, {}, [
        ('addi', [('f5', '==', 0x13), ('f3', '==', 0)], []), ('slti', [('f5', '==', 0x13), ('f3', '==', 2)], []), ('xori', [('f5', '==', 0x13), ('f3', '==', 4)], []),
        ('slli', [('f5', '==', 0x13), ('f3', '==', 1), ('f0', '==', 0)], []), ('srli', [('f5', '==', 0x13), ('f3', '==', 5), ('f0', '==', 0)], []),
        ('srai', [('f5', '==', 0x13), ('f3', '==', 5), ('f0', '==', 0x20)], []),
        ('add', [('f5', '==', 0x33), ('f3', '==', 0), ('f0', '==', 0)], []), ('sub', [('f5', '==', 0x33), ('f3', '==', 0), ('f0', '==', 0x20)], []),
        ('lui', [('f5', '==', 0x37)], []), ('auipc', [('f5', '==', 0x17)], []), ('jal', [('f5', '==', 0x6f)], []),
        ('ebreak', [('f0', '==', 0), ('f1', '==', 1), ('f2', '==', 0), ('f3', '==', 0), ('f4', '==', 0), ('f5', '==', 0x73)], []),
        ('ecall', [('f0', '==', 0), ('f1', '==', 0), ('f2', '==', 0), ('f3', '==', 0), ('f4', '==', 0), ('f5', '==', 0x73)], []),
        ('csrrw', [('f5', '==', 0x73), ('f3', '==', 1)], [])]),
    'other': ([3, 5, 6, 2], {}, [
        ('nop', [('f3', '==', 1), ('f0', '==', 0), ('f1', '==', 0)], []), ('addi', [('f3', '==', 1), ('f0', '==', 0), ('f1', '!=', 0)], []),
        ('low', [('f3', '==', 1), ('f0', '==', 1), ('f2', '<', 9)], []), ('mid', [('f3', '==', 1), ('f0', '==', 1), ('f2', '>=', 9), ('f2', '<=', 0x20)], []),
        ('high', [('f3', '==', 1), ('f0', '==', 1), ('f2', '>', 0x20)], []),
        ('mv', [('f3', '==', 2), ('f0', '==', 4), ('f1', '!=', 0), ('f2', '==', 0)], []), ('add', [('f3', '==', 2), ('f0', '==', 4), ('f1', '!=', 0), ('f2', '!=', 0)], [])]),
    'fields': ([4, 4, 4, 4], {}, [
        ('lt', [('f0', '==', 3), ('f1', '<', 'f2')], []), ('eq', [('f0', '==', 3), ('f1', '==', 'f2')], []), ('gt', [('f0', '==', 3), ('f1', '>', 'f2')], []),
        ('ne', [('f0', '==', 4), ('f1', '!=', 'f3')], [])]),
    'overlays': ([7, 5, 5, 3, 5, 7], {'ov': (0, 12, [('field', 'f0'), ('field', 'f4')]), 'cv': (0, 7, [('field', 'f2'), ('const', 2, 2)]), 'sp': (0, 6, [('bits', [(30, 28), (9, 7)])])}, [
        ('a', [('f5', '==', 1), ('ov', '==', 0xa5c)], []), ('b', [('f5', '==', 1), ('ov', '==', 0xa5d), ('f3', '!=', 2)], []),
        ('c', [('f5', '==', 2), ('cv', '==', 0x1a)], []), ('d', [('f5', '==', 2), ('cv', '!=', 0x1a)], []),
        ('e', [('f5', '==', 3), ('sp', '<', 'f3')], []), ('f', [('f5', '==', 3), ('sp', '>=', 'f3')], [])]),
    'wide-overlay': ([32], {'cv': (0, 40, [('field', 'f0'), ('const', 0x81, 8)]), 'w': (0, 32, [('bits', [(31, 0)])])}, [
        ('a', [('cv', '==', 0x1234567881)], []), ('b', [('cv', '!=', 0x1234567881)], [])]),
    'full-overlay': ([32], {'w': (0, 32, [('bits', [(31, 0)])])}, [('a', [('w', '==', 0x80000001)], []), ('b', [('w', '==', 0xc0000000)], [])]),
    'special': ([4, 4, 4, 4], {}, [
        ('mv', [('f0', '==', 1), ('f1', '!=', 0)], [('mvz', [('f2', '==', 0)])]), ('ld', [('f0', '==', 2)], [('ldz', [('f2', '==', 0)])]),
        ('st', [('f0', '==', 3), ('f3', '==', 1)], [])]),
    'special-one': ([8, 8], {}, [('b', [('f0', '==', 1)], [('bs', [('f1', '==', 7)])])]),
    'special-two': ([8, 8], {}, [('b', [('f0', '==', 1), ('f1', '!=', 3)], [('bs', [('f1', '==', 7)]), ('bt', [('f1', '==', 9)])])]),
    'special-and': ([4, 4, 4, 4], {}, [('b', [('f0', '==', 1), ('f3', '<', 9)], [('bs', [('f1', '==', 7), ('f2', '!=', 1)])]), ('c', [('f0', '==', 2)], [])]),
    'special-two-and': ([4, 4, 4, 4], {}, [('b', [('f0', '==', 1), ('f3', '<', 9)], [('bs', [('f1', '==', 7), ('f2', '!=', 1)]), ('bt', [('f1', '==', 3), ('f2', '==', 1)])]), ('c', [('f0', '==', 2)], [])]),
    'groups': ([4, 4], {}, [('a', [('f0', '==', 1)], []), ('b', [('f1', '==', 2), ('f0', '!=', 1)], [])]),
    'groups3': ([4, 4, 8], {}, [('a', [('f0', '==', 1)], []), ('b', [('f1', '==', 2), ('f0', '!=', 1)], []), ('c', [('f0', '==', 7), ('f1', '!=', 2)], []), ('d', [('f2', '==', 9), ('f0', '>', 7), ('f1', '>', 2)], [])]),
    'no-equal': ([4, 4], {}, [('a', [('f0', '!=', 1)], [])]),
    'byte': ([2, 3, 3], {}, [('a', [('f0', '==', 0)], []), ('b', [('f0', '==', 1), ('f1', '==', 5)], []), ('c', [('f0', '==', 1), ('f1', '==', 2)], []), ('d', [('f0', '==', 3), ('f1', '==', 0), ('f2', '==', 7)], [])]),
    'w24': ([8, 8, 8], {}, [('a', [('f0', '==', 0x80)], []), ('b', [('f0', '==', 0x81), ('f2', '==', 0xff)], [])]),
    'w64': ([32, 24, 8], {}, [('a', [('f2', '==', 0x80), ('f0', '==', 0xffffffff)], []), ('b', [('f2', '==', 0x80), ('f0', '==', 0x80000000)], []), ('c', [('f2', '==', 0x1), ('f0', '>', 0xfffffff0)], [])]),
    'signed': ([4, 4], {}, [('a', [('f0', '==', -1), ('f1', '!=', -2)], []), ('b', [('f0', '==', 3), ('f1', '==', -8)], [])]),
    'deep': ([2, 2, 2, 2], {}, [('e%d%d%d' % (i, j, k), [('f0', '==', i), ('f1', '==', j), ('f2', '==', k)], []) for i in range(3) for j in range(3) for k in range(3)]),
    'mixed': ([3, 3, 2], {}, [('e%d%d' % (i, j), [('f0', '==', i), ('f1', '==', j)], []) for i in range(4) for j in range(0, 8, 2)] + [('g%d' % i, [('f0', '==', i)], []) for i in range(4, 7)]
              + [('h%d' % i, [('f0', '==', 7), ('f1', '==', i), ('f2', '!=', 1)], []) for i in (1, 6)]),
    'sparse': ([8, 8, 8, 8], {}, [('a', [('f0', '==', 1), ('f3', '==', 1)], []), ('b', [('f0', '==', 1), ('f3', '==', 4)], []), ('c', [('f1', '==', 3), ('f3', '==', 2)], []),
                                  ('d', [('f1', '==', 5), ('f3', '==', 2), ('f2', '!=', 0)], [])]),
}


def described(seed):
    """a description put together from the numbers of a fixed sequence"""
    r = random.Random(seed)
    ws = r.choice([[2, 3, 3], [4, 4], [3, 5], [2, 2, 2, 2], [4, 4, 4, 4], [3, 5, 6, 2], [7, 5, 5, 3, 5, 7], [6, 4, 6], [1, 1, 6], [2, 2, 4, 8]])
    encs = []
    hot = r.sample(range(len(ws)), min(len(ws), r.choice([1, 2, 2, 3])))
    for k in range(r.choice([2, 3, 4, 6, 9])):
        cons = []
        for f in range(len(ws)):
            if r.random() < (.85 if f in hot else .2):
                op = '==' if r.random() < .8 else r.choice(['!=', '<', '>=', '>', '<='])
                lim = (1 << ws[f]) - 1
                v = r.choice([0, 1, lim, r.randint(0, lim)]) if r.random() < .5 else r.randint(0, min(lim, 3))
                if op != '==' and r.random() < .3:
                    v = 'f%d' % r.choice([x for x in range(len(ws)) if x != f])
                cons.append(('f%d' % f, op, v))
        cons = cons or [('f%d' % hot[0], '==', k & ((1 << ws[hot[0]]) - 1))]
        specs = []
        free = [f for f in range(len(ws)) if 'f%d' % f not in {x[0] for x in cons}]
        if r.random() < .2 and free:
            specs = [('s%d' % k, [('f%d' % f, r.choice(['==', '!=']), r.randint(0, (1 << ws[f]) - 1)) for f in free[:r.choice([1, 2])]])]
            if r.random() < .4:
                specs.append(('t%d' % k, [('f%d' % free[0], '==', r.randint(0, (1 << ws[free[0]]) - 1))]))
        encs.append(('e%d' % k, cons, specs))
    return ws, {}, encs


def pascal(n):
    return ''.join(x.capitalize() for x in n.split('_'))


def build(c, desc, sg=0):
    """the description given to the tool, as far as the decoder it writes; (text, header) or None when refused"""
    ws, ovs, encs = desc
    w = Info(c)
    n = sum(ws)
    f = w.format('fmt', n)
    widths(c, f, ws, sg)
    for o, (osg, ow, comps) in ovs.items():
        overlay(c, f, o, osg, ow, comps)
    c.check(w.layout(f), 'layout', 'the format is accepted')
    r = c.val(c.call(w.o, 'AddInstructionGroup', 'Grp', n, 'fmt'))
    c.check(ok(c, r), 'group', 'a new instruction group is accepted')
    grp = obj(c, r.v)
    dec = obj(c, c.call(w.o, 'AddBinDecoder', 'Dec'))
    c.call(dec, 'AddInstructionGroup', Ptr(grp))

    def constrain(e, cons):
        for a, op, b in cons:
            if isinstance(b, str):
                r = c.call(e, 'AddOtherConstraint', const(CMP[op], 32), a, b, types=[None, None, 'std::string'])
            elif op == '==':
                r = c.call(e, 'AddEqualConstraint', a, const(b & mask(64), 64))
            else:
                r = c.call(e, 'AddOtherConstraint', const(CMP[op], 32), a, const(b & mask(64), 64), types=[None, None, 'long'])
            c.check(ok(c, r), 'constraint', 'the constraint %s %s %s is accepted' % (a, op, b))
    fp = Ptr(f)
    for name, cons, _ in encs:
        e = obj(c, c.call(grp, 'AddInstructionEncoding', None, name, fp, FALSE))
        constrain(e, cons)
    c.call(dec, 'CheckEncodings')
    for name, _, specs in encs:
        for sn, cons in specs:
            e = c.new(N + 'InstructionEncoding', sn, fp, FALSE)
            constrain(e, cons)
            c.check(ok(c, c.call(grp, 'AddSpecialization', sn, name, Ptr(e))), 'specialization', 'a specialization is accepted')
    return w, grp


def matches(ws, ovs, word, cons, sg=0):
    def val(x):
        if isinstance(x, str):
            return cat64(word, bits_of(ws, ovs, x))
        return x
    out = TRUE
    for a, op, b in cons:
        va = val(a)
        if not isinstance(b, str):
            width = sum(p[2] if p[0] == 'const' else p[0] - p[1] + 1 for p in bits_of(ws, ovs, a))
            vb = const(b & mask(width), 64)
        else:
            vb = val(b)
        out = land(out, compare(op, va, vb))
    return out


def cat64(word, parts):
    bits = []
    for p in reversed(parts):
        if p[0] == 'const':
            bits += [boolc(bool(p[1] >> i & 1)) for i in range(p[2])]
        else:
            bits += word.bits[p[1]:p[0] + 1]
    return frombits(bits + [FALSE] * (64 - len(bits)))


def run_decoder(s):
    def decode(names):
        def f(c):
            k = c.choose(*names)
            ws, ovs, encs = DESC[k]
            sg = int(k == 'signed')
            w, grp = build(c, DESC[k], sg)
            c.check(not w.errors, 'errors', 'the description is accepted: %s' % [str(e) for e in w.errors])
            r = c.val(c.call(grp, 'EmitDecoderCode'))
            h, cc = [c.val(x).const() for x in r.v]
            ops = {'kNone'} | {'k' + pascal(e[0]) for e in encs} | {'k' + pascal(q[0]) for e in encs for q in e[2]}
            try:
                u = cxx.Unit(cc, enums={'Op': ops, 'FormatEnum': {'kNone', 'kFmt'}}, c=c)
            except cxx.Bad as e:
                c.check(False, 'valid', '%s: the generated decoder is not valid C++: %s in %r' % (k, e, cc[-900:]))
                return
            word = Words(c, sum(ws))
            for fn in ('DecodeGrp', 'DecodeGrpWithFormat'):
                try:
                    r = u.call(fn, [word.value()])
                except cxx.Bad as e:
                    c.check(False, 'valid', '%s: %s is not valid C++ (%s): %r' % (k, fn, e, cc[-900:]))
                    return
                except cxx.Undefined as e:
                    c.check(False, 'defined', '%s: %s has no defined result (%s): %r' % (k, fn, e, cc[-900:]))
                    return
                if fn.endswith('Format'):
                    got, fm = r.v[0].v, r.v[1].v
                    c.check(fm == ('kNone' if got == 'kNone' else 'kFmt'), 'format', '%s: %s is decoded with the format %s' % (k, got, fm))
                else:
                    got = r.v
                what = '%s: %s' % (k, got)
                if got == 'kNone':
                    for e in encs:
                        c.check(lnot(matches(ws, ovs, word, e[1], sg)), 'none', '%s: no opcode for a word that is encoded as %s' % (k, e[0]))
                    continue
                for e in encs:
                    if 'k' + pascal(e[0]) == got:
                        c.check(matches(ws, ovs, word, e[1], sg), 'match', what + ' although the word does not satisfy its constraints')
                        for q in e[2]:
                            c.check(lnot(matches(ws, ovs, word, q[1], sg)), 'specialized', what + ' for a word that is encoded as its specialization %s' % q[0])
                    for q in e[2]:
                        if 'k' + pascal(q[0]) == got:
                            c.check(land(matches(ws, ovs, word, e[1], sg), matches(ws, ovs, word, q[1], sg)), 'special', what + ' although the word does not satisfy the constraints of it and of %s' % e[0])
        return f
    for n in list(DESC):
        s.explore('decode-' + n, decode([n]), limit=3000)
    slow = {6, 10, 17, 20, 30, 40, 61, 68, 75, 94, 110, 131, 147}
    for i in range(130 if s.thorough else 60):
        if i in slow:
            continue
        DESC['g%d' % i] = described(i)
        s.explore('decode-g%d' % i, decode(['g%d' % i]), limit=1000)


PROPS['P45'] = dict(sources=SRC, run=run_decoder, rule='the emitted decoders are parsed and evaluated on a symbolic instruction word for enumerated descriptions; the opcode returned on each path is compared with the constraints')
