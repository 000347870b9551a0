"""Operands: every typed read is the C++ conversion of the operand's value."""
from rules.util import *
import lib

SRC = ['units/operands.cc', 'mpact/sim/generic/data_buffer.cc', 'mpact/sim/generic/state_item_base.cc']
G = 'mpact::sim::generic::'
ACC = [('AsInt8', 8), ('AsUint8', 8), ('AsInt16', 16), ('AsUint16', 16), ('AsInt32', 32), ('AsUint32', 32), ('AsInt64', 64), ('AsUint64', 64)]


def conv(v, signed, w):
    if w <= v.w:
        return trunc(v, w)
    return sext(v, w) if signed else zext(v, w)


def check_all(c, o, v, signed, idx, what):
    c.eq(c.call(o, 'AsBool', idx), lnot(eq(v, const(0, v.w))), 'AsBool', '%s: AsBool' % what)
    for n, w in ACC:
        c.eq(c.call(o, n, idx), conv(v, signed, w), n, '%s: %s' % (what, n))


def ints(c, v):
    return [c.val(x) for x in c.val(v).items]


def check_shape(c, o, want, what):
    got = ints(c, c.call(o, 'shape'))
    c.check(len(got) == len(want), 'shape', '%s: %d dimension(s), required %d' % (what, len(got), len(want)))
    for g, w in zip(got, want):
        c.eq(g, w, 'shape', '%s: shape' % what)


def same_text(c, got, want, what):
    g = c.val(got)
    c.check(lib.keq(c.I, g, want), 'text', '%s: text is %r, required %r' % (what, g, want))


def noobject(c, o, what):
    a = c.val(c.call(o, 'GetObject'))
    c.check(getattr(a, 'v', None) is None, 'no-object', '%s: no underlying object' % what)


def run_imm(s):
    def imm(name, w):
        def f(c):
            v = c.sym('value', w)
            cls = G + 'ImmediateOperand<%s>' % name
            how = c.choose('value', 'string', 'shape', 'both')
            shape = [c.sym('n0', 32), c.sym('n1', 32)]
            text = c.string('text')
            if how == 'value':
                o = c.new(cls, v)
            elif how == 'string':
                o = c.new(cls, v, text)
            elif how == 'shape':
                o = c.new(cls, v, shape)
            else:
                o = c.new(cls, v, shape, text)
            what = 'immediate %s' % name
            check_all(c, o, v, name in SIGNED, c.sym('index', 32), what)
            check_shape(c, o, shape if how in ('shape', 'both') else [const(1, 32)], what)
            if how in ('string', 'both'):
                same_text(c, c.call(o, 'AsString'), text, what)
            else:
                want = c.val(lib_strcat(c, v, name))
                same_text(c, c.call(o, 'AsString'), want, what)
            noobject(c, o, what)
            c.delete(o)
            c.check(not c.leaks(), 'leak', 'storage released')
        return f

    def vec(name, w):
        def f(c):
            n = c.choose(1, 2, 3, 5)
            vs = [c.sym('v%d' % i, w) for i in range(n)]
            cls = G + 'VectorImmediateOperand<%s>' % name
            if c.choose(True, False):
                o = c.new(cls, vs)
            else:
                o = c.new(cls, vs, [const(n, 32)])
            what = 'vector immediate %s' % name
            for i in range(n):
                check_all(c, o, vs[i], name in SIGNED, i, what + ' element %d' % i)
            check_shape(c, o, [const(n, 32)], what)
            same_text(c, c.call(o, 'AsString'), StrV(tuple(StrV('[').p) + tuple(c.val(lib_strcat(c, vs[0], name)).p) + tuple(StrV('...').p)
                                                     + tuple(c.val(lib_strcat(c, vs[-1], name)).p) + tuple(StrV(']').p)), what)
            noobject(c, o, what)
            c.delete(o)
            c.check(not c.leaks(), 'leak', 'storage released')
        return f

    def badshape(c):
        vs = [c.sym('v%d' % i, 32) for i in range(2)]
        bad = c.choose([const(1, 32)], [const(3, 32)], [const(2, 32), const(1, 32)], [])
        aborts(c, lambda: c.new(G + 'VectorImmediateOperand<unsigned int>', vs, bad), 'shape-mismatch', 'a shape that disagrees with the number of elements is accepted')
    for name, w in INTS:
        s.explore('immediate-' + name.replace(' ', '-'), imm(name, w))
        s.explore('vector-' + name.replace(' ', '-'), vec(name, w))
    s.explore('vector-shape', badshape)


def lib_strcat(c, v, name):
    return lib.fmt_int(c.I, v, name in SIGNED)


def run_lit(s):
    vals = {0: None, 1: None}
    seen = 0
    for cls in sorted(s.prog.records):
        for pre in ('IntLiteralOperand<', 'BoolLiteralOperand<', 'BoolLiteralPredicateOperand<'):
            if not cls.startswith(G + pre):
                continue
            a = cls[len(G + pre):-1]
            val = {'true': 1, 'false': 0}.get(a)
            if val is None:
                val = int(a)
            seen += 1
            s.explore('literal', lit(cls, pre, val))
    if not seen:
        raise AnchorMissing('literal operands')


def lit(cls, pre, val):
    def f(c):
        if 'Predicate' in pre:
            o = c.new(cls)
            c.eq(c.call(o, 'Value'), bool(val), 'predicate', 'constant predicate')
            return
        v = const(val, 32) if 'Int' in pre else const(val, 1)
        shape = [c.sym('n0', 32)]
        text = c.string('text')
        how = c.choose('none', 'text', 'shape', 'both')
        o = {'none': lambda: c.new(cls), 'text': lambda: c.new(cls, text), 'shape': lambda: c.new(cls, shape),
             'both': lambda: c.new(cls, shape, text)}[how]()
        check_all(c, o, v, 'Int' in pre, c.sym('index', 32), 'literal %d' % val)
        if how in ('shape', 'both'):
            check_shape(c, o, shape, 'literal %d' % val)
        same_text(c, c.call(o, 'AsString'), text if how in ('text', 'both') else StrV(str(val)), 'literal %d' % val)
        noobject(c, o, 'literal')
        c.delete(o)
        c.check(not c.leaks(), 'leak', 'storage released')
    return f


# ---------------------------------------------------------------- status register
def run_status(s):
    TS = [('unsigned char', 8), ('signed char', 8), ('unsigned short', 16), ('unsigned int', 32), ('int', 32), ('unsigned long', 64)]

    def mk(c, name):
        st = G + 'StateItem<%sStatusRegisterBase<%s>, %s, %sStatusRegisterSourceOperand<%s>, void>' % (G, name, name, G, name)
        return c.new(st, None, c.string('status'))

    def fresh(name, w):
        def f(c):
            r = mk(c, name)
            c.eq(c.call(r, 'Read'), 0, 'default', 'an unconfigured status register reads 0')
            m = [c.sym('m%d' % i, 1) if i in (0, 3, w - 1) else boolc(i % 2) for i in range(w)]
            c.eq(c.call(r, 'Read', frombits(m)), 0, 'default', 'an unconfigured status register reads 0 under any mask')
            c.eq(c.call(r, 'size'), w // 8, 'size', 'size in bytes')
            check_shape(c, r, [const(1, 32)], 'status register')
        return f

    def bits(name, w, masked):
        def f(c):
            r = mk(c, name)
            want = []
            calls = {}
            special = sorted({0, 1, w // 2, w - 2, w - 1})
            other = c.choose(False, True)

            def mkf(i, b):
                def g(*a):
                    calls[i] += 1
                    return b
                return g
            for i in range(w):
                calls[i] = 0
                b = c.sym('cond%d' % i, 1) if i in special else boolc(other)
                if i in special or other:
                    c.call(r, 'SetEvaluateFunction', i, c.fn(mkf(i, b)))
                want.append(b)
            what = 'status register of %s' % name
            if masked:
                mo = c.choose(False, True)
                m = [c.sym('m%d' % i, 1) if i in special else boolc(mo) for i in range(w)]
                got = c.call(r, 'Read', frombits(m))
                val = frombits([land(x, y) for x, y in zip(m, want)])
                c.eq(got, val, 'masked-read', '%s: bit i is condition i for the selected bits' % what)
                for i in special:
                    c.eq(boolc(calls[i] > 0), m[i], 'masked-evaluation', '%s: condition %d is evaluated exactly when selected' % (what, i))
                return
            val = frombits(want)
            c.eq(c.call(r, 'Read'), val, 'read', '%s: bit i is condition i' % what)
            op = obj(c, c.call(r, 'CreateSourceOperand')) if c.choose(True, False) else obj(c, c.call(r, 'CreateSourceOperand', c.string('opname')))
            check_all(c, op, val, name in SIGNED, 0, what + ' operand')
            check_shape(c, op, [const(1, 32)], what + ' operand')
        return f

    def single(name, w):
        def f(c):
            r = mk(c, name)
            i = c.choose(*range(w))
            b = c.sym('cond', 1)
            c.call(r, 'SetEvaluateFunction', i, c.fn(lambda *a: b))
            c.eq(c.call(r, 'Read'), shl(zext(b, w), const(i, w)), 'single', 'status register of %s: condition %d alone' % (name, i))
        return f

    for name, w in TS:
        s.explore('fresh', fresh(name, w))
        s.explore('read-' + name.replace(' ', '-'), bits(name, w, False), limit=4000)
        s.explore('masked-' + name.replace(' ', '-'), bits(name, w, True), limit=4000)
        s.explore('single-' + name.replace(' ', '-'), single(name, w))

    def changing(name, w):
        def f(c):
            """conditions are evaluated anew for every read, and can be replaced"""
            r = mk(c, name)
            i = c.choose(0, 1, w - 1)
            j = c.choose(0, w // 2, w - 1)
            op = obj(c, c.call(r, 'CreateSourceOperand'))
            now = [c.sym('t0', 1)]
            c.call(r, 'SetEvaluateFunction', i, c.fn(lambda *a: now[0]))
            bits = {i: lambda: now[0]}

            def val():
                return frombits([bits[k]() if k in bits else FALSE for k in range(w)])

            def look(what):
                c.eq(c.call(r, 'Read'), val(), 'current', 'status register of %s %s: the current conditions' % (name, what))
                c.eq(c.call(r, 'Read', const((1 << w) - 1, w)), val(), 'current', 'status register of %s %s: the current conditions under a full mask' % (name, what))
                c.eq(c.call(r, 'Read', const(0, w)), 0, 'current', 'status register of %s %s: nothing is selected' % (name, what))
                c.eq(c.call(op, 'AsUint64', 0), conv(val(), name in SIGNED, 64), 'current', 'operand of %s %s' % (name, what))
            look('at first')
            now[0] = c.sym('t1', 1)
            look('after the condition changed')
            second = [c.sym('u0', 1)]
            c.call(r, 'SetEvaluateFunction', j, c.fn(lambda *a: second[0]))
            bits[j] = lambda: second[0]
            look('after a condition was configured')
            second[0] = c.sym('u1', 1)
            now[0] = c.sym('t2', 1)
            look('after all conditions changed')
        return f

    for name, w in TS:
        s.explore('changing', changing(name, w))

    def names(c):
        r = mk(c, 'unsigned int')
        o = obj(c, c.call(r, 'CreateSourceOperand'))
        same_text(c, c.call(o, 'AsString'), c.string('status'), 'operand of the register')
        o2 = obj(c, c.call(r, 'CreateSourceOperand', c.string('alias')))
        same_text(c, c.call(o2, 'AsString'), c.string('alias'), 'operand with its own name')
        c.delete(o)
        c.delete(o2)
        c.delete(r)
        c.check(not c.leaks(), 'leak', 'storage released')
    s.explore('names', names)

    def readonly(c):
        r = mk(c, 'unsigned int')
        b = c.sym('cond', 1)
        c.call(r, 'SetEvaluateFunction', 3, c.fn(lambda *a: b))
        fac = c.new(G + 'DataBufferFactory')
        db = obj(c, c.call(fac, 'Allocate', 4))
        c.call(db, 'set_destination', r)
        keep = c.choose(True, False)
        if keep:
            c.call(db, 'IncRef')
        c.call(db, 'Submit', 0)
        if keep:
            c.eq(c.call(db, 'ref_count'), 1, 'write-balance', 'a write consumes exactly the submitted reference')
            c.call(db, 'DecRef')
        a = obj(c, c.call(fac, 'Allocate', 4))
        d = obj(c, c.call(fac, 'Allocate', 4))
        c.check(a is not d, 'write-recycled-once', 'the written buffer is recycled once')
        c.eq(c.call(r, 'Read'), shl(zext(b, 32), const(3, 32)), 'read-only', 'a write does not change the register')
    s.explore('read-only', readonly)


# ---------------------------------------------------------------- state item
def run_state(s):
    def f(c):
        n = c.choose(0, 1, 2, 3, 4)
        dims = [c.sym('d%d' % i, 32) for i in range(n)]
        es = c.sym('es', 32)
        total = const(1, 64)
        lim = const(1 << 9, 32)
        for d in dims + [es]:
            c.assume(ult(d, lim))
        st = c.choose(None, 1)
        o = c.new('verif_unit::PlainState', None, c.string('name'), dims, es)
        want = es
        for d in dims:
            want = mul(want, d)
        if n < 3:
            c.eq(c.call(o, 'size'), want, 'size', 'byte size is the product of the dimensions and the element size')
        c.eq(c.call(o, 'element_size'), es, 'element-size', 'element size')
        same_text(c, c.call(o, 'name'), c.string('name'), 'state item')
        got = ints(c, c.call(o, 'shape'))
        c.check(len(got) == n, 'shape', 'number of dimensions')
        for g, d in zip(got, dims):
            c.eq(g, d, 'shape', 'dimension')
        c.check(c.val(c.call(o, 'arch_state')).isnull, 'owner', 'owner')
        c.delete(o)
        c.check(not c.leaks(), 'leak', 'storage released')
    s.explore('state-item', f)

    def g(c):
        """three and four dimensions with concrete small dimensions"""
        dims = [c.choose(1, 2, 5), c.choose(1, 3, 4), c.choose(0, 1, 7)] + c.choose([], [1], [3], [2, 300])
        es = c.choose(1, 2, 4, 8)
        o = c.new('verif_unit::PlainState', None, c.string('name'), [const(d, 32) for d in dims], es)
        total = es
        for d in dims:
            total *= d
        c.eq(c.call(o, 'size'), total, 'size', 'byte size of %r elements of %d bytes' % (dims, es))
    s.explore('state-item-3d', g)

    def kinds(c):
        """scalar, byte array, vector and matrix items and their operands"""
        V = 'verif_unit::'
        et, dst, dims, width, es, want = c.choose(
            ('unsigned char', 'Dst', '', None, 1, [1]), ('unsigned short', 'Dst', '', None, 2, [1]),
            ('unsigned int', 'Dst', '', None, 4, [1]), ('unsigned long', 'Dst', '', None, 8, [1]),
            ('unsigned int', None, '', None, 4, [1]), ('unsigned char *', 'Dst', '', 12, 1, [12]), ('unsigned char *', 'Dst', '', 1, 1, [1]),
            ('unsigned int', 'Dst', ', 5', None, 4, [5]), ('unsigned char', 'Dst', ', 3', None, 1, [3]),
            ('unsigned short', 'Dst', ', 3, 7', None, 2, [3, 7]), ('unsigned long', 'Dst', ', 4, 2', None, 8, [4, 2]))
        cls = G + 'StateItem<verif_unit::Base, %s, verif_unit::Src, %s%s>' % (et, 'verif_unit::Dst' if dst else 'void', dims)
        extra = c.sym('extra', 32)
        what = 'state item of %s%s' % (et, dims)
        o = c.new(cls, *([None, c.string('name')] + ([width] if width else []) + [extra]))
        check_shape(c, o, [const(x, 32) for x in want], what)
        n = es
        for x in want:
            n *= x
        c.eq(c.call(o, 'size'), n, 'size', '%s: size in bytes' % what)
        c.eq(c.call(o, 'element_size'), es, 'element-size', '%s: element size' % what)
        same_text(c, c.call(o, 'name'), c.string('name'), what)
        c.eq(c.call(o, 'extra'), extra, 'extra', '%s: further constructor arguments are passed on' % what)
        a = obj(c, c.call(o, 'CreateSourceOperand'))
        b = obj(c, c.call(o, 'CreateSourceOperand', c.string('opname')))
        ops = [a, b]
        same_text(c, c.call(b, 'AsString'), c.string('opname'), what + ': source operand name')
        if dst:
            lat = c.sym('latency', 32)
            d = obj(c, c.call(o, 'CreateDestinationOperand', lat))
            e = obj(c, c.call(o, 'CreateDestinationOperand', lat, c.string('opname')))
            same_text(c, c.call(e, 'AsString'), c.string('opname'), what + ': destination operand name')
            for x in (d, e):
                c.eq(c.call(x, 'latency'), lat, 'operand-latency', '%s: latency of the destination operand' % what)
            ops += [d, e]
        c.check(len(set(map(id, ops))) == len(ops), 'operand-distinct', '%s: every operand is a new object' % what)
        for x in ops:
            c.same(c.call(x, 'item'), o, 'operand-item', '%s: the operand refers to this item' % what)
            c.delete(x)
        c.delete(o)
        c.check(not c.leaks(), 'leak', 'storage released')
    s.explore('state-item-kinds', kinds)

    def wrap(c):
        w = c.host('verif_unit::Wrapped', 'wrapped', {'AsString': lambda I, t, a: StrV((('s', 'wrappedname'),))})
        dst = c.choose(True, False)
        c.I.alloc(w, 'new')
        shape = [c.sym('n%d' % i, 32) for i in range(c.choose(1, 0, 2, 3))]
        o = c.new(G + ('WrapperDestinationOperand' if dst else 'WrapperSourceOperand') + '<verif_unit::Wrapped>', w, shape)
        a = c.val(c.call(o, 'GetObject'))
        c.check(isinstance(a.v, Ptr) and a.v.t is w, 'object', 'the wrapped object is returned')
        check_shape(c, o, shape, 'wrapper')
        same_text(c, c.call(o, 'AsString'), c.string('wrappedname'), 'wrapper')
        if not dst:
            check_all(c, o, const(0, 64), False, c.sym('i', 32), 'wrapper')
        else:
            c.check(c.val(c.call(o, 'AllocateDataBuffer')).isnull, 'no-buffer', 'no data buffer')
            c.check(c.val(c.call(o, 'CopyDataBuffer')).isnull, 'no-buffer', 'no data buffer')
            c.eq(c.call(o, 'latency'), 0, 'latency', 'latency')
        c.delete(o)
        c.check(w.alive, 'not-owned', 'the wrapped object is not owned')
    s.explore('wrapper', wrap)


PROPS = {
    'P08': dict(sources=SRC, run=run_imm, rule='bit provenance of every typed accessor for a fully symbolic value and index'),
    'P09': dict(sources=SRC, run=run_lit, rule='bit provenance of every typed accessor of the literal operands instantiated in units/operands.cc'),
    'P10': dict(sources=SRC, run=run_status, rule='bit provenance of status register reads for symbolic conditions and masks'),
    'P11': dict(sources=SRC, run=run_state, rule='size/shape/name of state items for symbolic dimensions'),
}
