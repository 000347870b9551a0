"""Decode cache, instruction trees, operand read helpers and semantic function helpers."""
from rules.util import *
import lib
from rules.r_operands import same_text

N = 'mpact/sim/generic/'
SRC = ['units/instruction.cc', 'units/data_buffer.cc'] + [N + x + '.cc' for x in (
    'arch_state', 'component', 'register', 'data_buffer', 'state_item_base', 'program_error', 'fifo', 'simple_resource', 'resource_bitset',
    'instruction', 'decode_cache')]
G = 'mpact::sim::generic::'
U = 'verif_unit::'
INST = G + 'Instruction'


def inst_at(c, a):
    return c.new(INST, a, None, types=['unsigned long', None])


def check_dead(c, o, dead, oid, msg):
    c.check(bool(o.alive) != dead, oid, msg)


# ---------------------------------------------------------------- decode cache
def run_cache(s):
    ENTRIES = ((1, 1), (2, 2), (3, 4), (4, 4), (5, 8))

    class Rig(object):
        def __init__(self, c, n, inc):
            self.c, self.n, self.inc = c, n[1], inc
            self.decoded = []
            self.fail = False
            self.dec = c.host(G + 'DecoderInterface', 'decoder', {'DecodeInstruction': self.decode})
            r = c.val(c.static(U + 'Caches', 'Make', n[0], inc, self.dec))
            c.check(lnot(c.I.is_null(r)) if hasattr(c.I, 'is_null') else r.t is not None, 'created', 'a cache of %d entries with pc increment %d is created' % (n[0], inc))
            self.dc = r.t
            self.model = {}
            c.eq(c.call(self.dc, 'num_entries'), self.n, 'entries', 'number of entries for %d' % n[0])

        def decode(self, I, this, args):
            a = self.c.val(args[0])
            if self.fail:
                return null()
            o = inst_at(self.c, a)
            self.decoded.append((a, o))
            return Ptr(o)

        def slot(self, a):
            return (a // self.inc) % self.n

        def get(self, a, what):
            c = self.c
            del self.decoded[:]
            r = c.val(c.call(self.dc, 'GetDecodedInstruction', a))
            k = self.slot(a)
            old = self.model.get(k)
            if old is not None and old[0] == a:
                c.check(not self.decoded, 'hit', '%s: a cached instruction is not decoded again' % what)
                c.same(r, old[1], 'cached', '%s: the cached instruction is returned' % what)
                return old[1]
            c.check(len(self.decoded) == 1, 'miss', '%s: decoded %d times' % (what, len(self.decoded)))
            if len(self.decoded) != 1:
                return None
            da, o = self.decoded[0]
            c.eq(da, const(a, 64), 'decoded-address', '%s: decoded address' % what)
            c.same(r, o, 'returned', '%s: the decoded instruction is returned' % what)
            c.eq(c.call(o, 'ref_count'), 1, 'owned', '%s: references to a cached instruction' % what)
            self.model[k] = (a, o)
            if old is not None:
                self.gone(old, what)
            return o

        def gone(self, e, what):
            c = self.c
            a, o = e[:2]
            if len(e) > 2:
                c.check(o.alive, 'in-flight', '%s: the instruction at 0x%x is still referenced, but was deleted' % (what, a))
                if o.alive:
                    c.eq(c.call(o, 'ref_count'), 1, 'dropped', '%s: the cache drops its reference to 0x%x' % (what, a))
                    c.call(o, 'DecRef')
                c.check(not o.alive, 'last', '%s: the instruction at 0x%x is deleted with its last reference' % (what, a))
            else:
                c.check(not o.alive, 'released', '%s: the instruction at 0x%x is released' % (what, a))

        def kill(self, sel, what):
            for k in [k for k, e in self.model.items() if sel(e[0])]:
                self.gone(self.model.pop(k), what)
            for k, e in self.model.items():
                self.c.check(e[1].alive, 'kept', '%s: the instruction at 0x%x is still cached, but was deleted' % (what, e[0]))

        def agree(self, what):
            """everything that has to be cached is, and nothing else"""
            for k, e in sorted(self.model.items()):
                self.get(e[0], what + ' get 0x%x' % e[0])

        def done(self, what):
            c = self.c
            es = list(self.model.values())
            c.delete(self.dc)
            for e in es:
                self.gone(e, what + ' delete cache')
            c.check(not c.leaks(), 'leak', '%s: everything is released' % what)

    def hist(c):
        n, inc = c.choose(*ENTRIES), c.choose(1, 4)
        r = Rig(c, n, inc)
        A = [0, inc, 2 * inc, r.n * inc, (r.n + 1) * inc, 0x80000000, 0x180000000, (1 << 64) - inc]
        what = '%d entries, increment %d:' % (n[0], inc)
        for i in range(3):
            a = c.choose(*A)
            what += ' get 0x%x' % a
            o = r.get(a, what)
            if o is None:
                return
            if i == 0 and c.choose(False, True):
                c.call(o, 'IncRef')
                r.model[r.slot(a)] = (a, o, 'held')
                what += ' (held)'
        r.agree(what)
        r.done(what)

    def inval(c):
        n, inc = (4, 4), c.choose(1, 2, 4)
        r = Rig(c, n, inc)
        what = '4 entries, increment %d:' % inc
        F = c.choose([0, 1, 2, 3], [1, 6], [4, 5, 10, 15], [(1 << 64) // inc - 1, (1 << 64) // inc - 2])
        for k in F:
            what += ' get 0x%x' % (k * inc)
            r.get(k * inc, what)
        r.agree(what)
        op = c.choose('one', 'other', 'range', 'all')
        if op in ('one', 'other'):
            k = c.choose(*F)
            a = k * inc if op == 'one' else (k * inc + 4 * inc) & ((1 << 64) - 1)
            what += ' invalidate 0x%x' % a
            c.call(r.dc, 'Invalidate', a)
            r.kill(lambda x: x == a, what)
        elif op == 'all':
            what += ' invalidate all'
            c.call(r.dc, 'InvalidateAll')
            r.kill(lambda x: True, what)
        else:
            top = (1 << 64) - 1
            lo, hi = c.choose((0, inc), (0, 4 * inc), (inc, 3 * inc), (inc, inc), (3 * inc, inc), (inc - 1, 2 * inc), (1, 4 * inc), (inc + 1, 4 * inc),
                              (0, 40 * inc), (3 * inc, 11 * inc), (5 * inc, 16 * inc - 1), (0, top), (top - 1, top), (top - 3 * inc, top), (6 * inc, 7 * inc), (top, 0))
            what += ' invalidate 0x%x..0x%x' % (lo, hi)
            c.call(r.dc, 'InvalidateRange', lo, hi)
            r.kill(lambda x: lo <= x < hi, what)
        r.agree(what)
        for k in F:
            r.get(k * inc, what + ' get 0x%x' % (k * inc))
        r.done(what)

    def symbolic(c):
        """any two addresses: the instruction returned is always the one of the address asked for"""
        n, inc = (4, 4), 4
        r = Rig(c, n, inc)
        a, b = c.sym('a', 64), c.sym('b', 64)
        cached = {}
        for x, nm in ((a, 'a'), (b, 'b'), (a, 'a')):
            del r.decoded[:]
            p = obj(c, c.call(r.dc, 'GetDecodedInstruction', x))
            c.check(p is not None and p.alive, 'alive', 'get %s returns a live instruction' % nm)
            if p is None or not p.alive:
                return
            c.eq(c.call(p, 'address'), x, 'address', 'address of the instruction returned for %s' % nm)
            c.check(len(r.decoded) <= 1, 'decoded', 'at most one decode per lookup')

    def large(c):
        """pc increments up to the largest power of two"""
        inc = 1 << c.choose(16, 29, 30, 31)
        r = Rig(c, (8, 8), inc)
        what = '8 entries, increment %d:' % inc
        for i in range(2):
            a = inc * c.choose(0, 1, 3, 4, 7, 8, 12)
            what += ' get 0x%x' % a
            if r.get(a, what) is None:
                return
        r.agree(what)
        r.done(what)

    def nodecode(c):
        """a failing decode leaves the cache as it was"""
        n, inc = (4, 4), 4
        r = Rig(c, n, inc)
        r.get(4, 'get 0x4')
        r.fail = True
        a = c.choose(8, 4 + 16)
        p = c.val(c.call(r.dc, 'GetDecodedInstruction', a))
        c.check(c.I.ptr_eq(p, null()), 'no-instruction', 'an address that does not decode gives no instruction')
        r.fail = False
        r.agree('after a failing decode of 0x%x' % a)
        r.done('after a failing decode of 0x%x' % a)

    def refused(c):
        inc = c.choose(0, 3, 5, 6, 12, 0xffffffff)
        n = c.choose(1, 16)
        dec = c.host(G + 'DecoderInterface', 'decoder', {})
        p = c.val(c.static(U + 'Caches', 'Make', n, inc, dec))
        c.check(c.I.ptr_eq(p, null()), 'refused', 'a pc increment of %d is refused' % inc)
        c.check(not c.leaks(), 'leak', 'nothing is left of the refused cache')

    s.explore('history', hist, limit=20000)
    s.explore('invalidate', inval)
    s.explore('any-addresses', symbolic)
    s.explore('large-increment', large)
    s.explore('no-decode', nodecode)
    s.explore('refused', refused)


# ---------------------------------------------------------------- instructions
def run_inst(s):
    def owned(c, kind, n):
        cls = {'src': 'SourceOperandInterface', 'dst': 'DestinationOperandInterface', 'hold': 'ResourceOperandInterface', 'acq': 'ResourceOperandInterface',
               'pred': 'PredicateOperandInterface'}[kind]
        h = c.host(G + cls, '%s%d' % (kind, n))
        c.I.alloc(h, 'new')
        return h

    def operands(c):
        i = inst_at(c, c.sym('pc', 64))
        ns, nd, nh, na = c.choose((0, 0, 0, 0), (1, 1, 0, 0), (3, 2, 1, 2), (2, 0, 3, 1))
        src = [owned(c, 'src', k) for k in range(ns)]
        dst = [owned(c, 'dst', k) for k in range(nd)]
        hold = [owned(c, 'hold', k) for k in range(nh)]
        acq = [owned(c, 'acq', k) for k in range(na)]
        pred = owned(c, 'pred', 0) if c.choose(False, True) else None
        for o in src:
            c.call(i, 'AppendSource', o)
        for o in dst:
            c.call(i, 'AppendDestination', o)
        for o in hold:
            c.call(i, 'AppendResourceHold', o)
        for o in acq:
            c.call(i, 'AppendResourceAcquire', o)
        c.same(c.call(i, 'Predicate'), None, 'no-predicate', 'a new instruction has no predicate')
        if pred is not None:
            c.call(i, 'SetPredicate', pred)
            c.same(c.call(i, 'Predicate'), pred, 'predicate', 'the predicate is the one set')
        c.eq(c.call(i, 'SourcesSize'), ns, 'sources', 'number of sources')
        c.eq(c.call(i, 'DestinationsSize'), nd, 'destinations', 'number of destinations')
        for k, o in enumerate(src):
            c.same(c.call(i, 'Source', k), o, 'source', 'source %d' % k)
        for k, o in enumerate(dst):
            c.same(c.call(i, 'Destination', k), o, 'destination', 'destination %d' % k)
        for nm, os in (('ResourceHold', hold), ('ResourceAcquire', acq)):
            v = c.val(c.call(i, nm))
            c.check(len(v.items) == len(os), nm, '%s holds %d operands, required %d' % (nm, len(v.items), len(os)))
            for k, o in enumerate(os[:len(v.items)]):
                c.same(v.items[k], o, nm + '-order', '%s: operand %d' % (nm, k))
        c.eq(c.call(i, 'address'), c.sym('pc', 64), 'address', 'address')
        c.eq(c.call(i, 'ref_count'), 1, 'references', 'references of a new instruction')
        c.call(i, 'DecRef')
        c.check(not i.alive, 'deleted', 'an instruction is deleted with its last reference')
        for o in src + dst + hold + acq + ([pred] if pred is not None else []):
            c.check(not o.alive, 'owned', 'operand %s is released with its instruction' % o.tag)
        c.check(not c.leaks(), 'leak', 'everything is released')

    def attributes(c):
        i = inst_at(c, 0x1000)
        c.eq(c.static(U + 'Sem', 'AttrSize', i), 0, 'no-attributes', 'attributes of a new instruction')
        for k in range(2):
            n = c.choose(0, 1, 3)
            vals = [c.sym('attr%d_%d' % (k, j), 32) for j in range(n)]
            c.static(U + 'Sem', 'Attr', i, vals)
            c.eq(c.static(U + 'Sem', 'AttrSize', i), n, 'attribute-count', 'number of attributes')
            for j in range(n):
                c.eq(c.static(U + 'Sem', 'AttrAt', i, j), vals[j], 'attribute', 'attribute %d' % j)
        c.call(i, 'DecRef')
        c.check(not c.leaks(), 'leak', 'the attributes are released')

    def fields(c):
        i = inst_at(c, c.sym('pc', 64))
        c.call(i, 'set_opcode', c.sym('opcode', 32))
        c.call(i, 'set_size', c.sym('size', 32))
        c.eq(c.call(i, 'opcode'), c.sym('opcode', 32), 'opcode', 'opcode')
        c.eq(c.call(i, 'size'), c.sym('size', 32), 'size', 'size')
        c.eq(c.call(i, 'address'), c.sym('pc', 64), 'address', 'address')
        c.call(i, 'set_address', c.sym('pc2', 64))
        c.eq(c.call(i, 'address'), c.sym('pc2', 64), 'set-address', 'address')
        same_text(c, c.call(i, 'AsString'), StrV(''), 'new instruction')
        c.call(i, 'SetDisassemblyString', c.string('add r1, r2'))
        same_text(c, c.call(i, 'AsString'), c.string('add r1, r2'), 'instruction')
        c.call(i, 'SetDisassemblyString', c.string('sub'))
        same_text(c, c.call(i, 'AsString'), c.string('sub'), 'instruction')

    def execute(c):
        i = inst_at(c, 0x1000)
        ctx = c.host(G + 'ReferenceCount', 'context')
        log = []

        def sem(I, args):
            log.append((c.val(args[0]), c.val(c.call(i, 'context'))))
            return None
        c.static(U + 'Sem', 'Set', i, c.fn(sem))
        for k in range(3):
            del log[:]
            with_ctx = c.choose(False, True)
            if with_ctx:
                c.call(i, 'Execute', ctx)
            else:
                c.call(i, 'Execute')
            c.check(len(log) == 1, 'once', 'the semantic function is called %d times' % len(log))
            if len(log) == 1:
                c.same(log[0][0], i, 'argument', 'the semantic function gets its instruction')
                c.same(log[0][1], ctx if with_ctx else None, 'context', 'context seen by the semantic function')
            c.same(c.call(i, 'context'), None, 'context-after', 'the context is gone after the execution')
        n2 = []
        c.static(U + 'Sem', 'Set', i, c.fn(lambda I, args: n2.append(1)))
        c.call(i, 'Execute', ctx)
        c.check(len(n2) == 1 and len(log) == 1, 'replaced', 'the semantic function set last is called')

    def chain(c, first):
        out = []
        p = obj(c, first)
        while p is not None and len(out) < 10:
            out.append(p)
            p = obj(c, c.call(p, 'next'))
        return out

    def tree(c):
        """a bundle of up to three children, some of them still referenced when the bundle goes away"""
        n = c.choose(0, 1, 2, 3)
        p = inst_at(c, 0x1000)
        kids = [inst_at(c, 0x1000 + k) for k in range(n)]
        c.call(p, 'AppendChild', None)
        c.call(p, 'Append', None)
        for k in kids:
            c.call(p, 'AppendChild', k)
            c.same(c.call(k, 'parent'), p, 'parent', 'parent of a child')
        got = chain(c, c.call(p, 'child'))
        c.check(len(got) == n and all(a is b for a, b in zip(got, kids)), 'children', 'the children are listed in order (%d of %d)' % (len(got), n))
        c.same(c.call(p, 'parent'), None, 'root', 'parent of a root')
        for k in kids:
            c.eq(c.call(k, 'ref_count'), 2, 'reference', 'a child is referenced by its creator and the tree')
            c.same(c.call(k, 'child'), None, 'leaf', 'child of a leaf')
        held = [k for k in kids if c.choose(False, True)]
        for k in kids:
            if k not in held:
                c.call(k, 'DecRef')
        for k in kids:
            c.check(k.alive, 'kept', 'a child in the tree stays alive')
        c.call(p, 'DecRef')
        c.check(not p.alive, 'deleted', 'the parent is deleted with its last reference')
        for j, k in enumerate(kids):
            # a held child keeps its successors
            keep = any(h in held for h in kids[:j + 1])
            c.check(bool(k.alive) == keep, 'children-released', 'child %d of %d is %s after the parent was deleted' % (j, n, 'alive' if k.alive else 'deleted'))
            if k.alive:
                c.same(c.call(k, 'parent'), None, 'orphan', 'a child that outlives its parent has no parent')
        order = held if c.choose(False, True) else held[::-1]
        for k in order:
            c.check(k.alive, 'held', 'a referenced child stays alive')
            c.call(k, 'DecRef')
        for k in kids:
            c.check(not k.alive, 'released', 'every child is deleted with its last reference')
        c.check(not c.leaks(), 'leak', 'everything is released')

    def deep(c):
        """master -> bundle -> operations, as for a VLIW instruction, and lists of next instructions"""
        m, b = inst_at(c, 0x1000), inst_at(c, 0x1000)
        ops = [inst_at(c, 0x1000) for k in range(2)]
        nx = [inst_at(c, 0x1008) for k in range(2)]
        order = c.choose(0, 1)
        if order:
            for o in ops:
                c.call(b, 'AppendChild', o)
            c.call(m, 'AppendChild', b)
        else:
            c.call(m, 'AppendChild', b)
            for o in ops:
                c.call(b, 'AppendChild', o)
        for x in nx:
            c.call(m, 'Append', x)
        c.same(c.call(b, 'parent'), m, 'parent', 'parent of the bundle')
        for o in ops:
            c.same(c.call(o, 'parent'), b, 'parent', 'parent of an operation')
        got = chain(c, c.call(m, 'next'))
        c.check(len(got) == 2 and got[0] is nx[0] and got[1] is nx[1], 'next', 'next instructions are listed in order')
        for o in [b] + ops + nx:
            c.call(o, 'DecRef')
        hold = c.choose(None, b, ops[0], ops[1], nx[0], nx[1])
        if hold is not None:
            c.call(hold, 'IncRef')
        c.call(m, 'DecRef')
        c.check(not m.alive, 'deleted', 'the master is deleted')
        live = {id(b): [b] + ops, id(ops[0]): ops, id(ops[1]): [ops[1]], id(nx[0]): nx, id(nx[1]): [nx[1]]}.get(id(hold), [])
        for o in [b] + ops + nx:
            want = any(o is x for x in live)
            c.check(bool(o.alive) == want, 'kept-exactly', 'an instruction is %s although it is %sreferenced' % ('alive' if o.alive else 'deleted', '' if want else 'not '))
        if hold is not None and hold.alive:
            c.call(hold, 'DecRef')
        for o in [b] + ops + nx:
            c.check(not o.alive, 'released', 'every instruction is deleted with its last reference')
        c.check(not c.leaks(), 'leak', 'everything is released')

    s.explore('operands', operands)
    s.explore('attributes', attributes)
    s.explore('fields', fields)
    s.explore('execute', execute)
    s.explore('tree', tree)
    s.explore('bundle', deep)


# ---------------------------------------------------------------- operand helpers
ACCS = [('AsBool', 1), ('AsInt8', 8), ('AsUint8', 8), ('AsInt16', 16), ('AsUint16', 16), ('AsInt32', 32), ('AsUint32', 32), ('AsInt64', 64), ('AsUint64', 64)]


def source(c, n):
    """a source operand with one 64 bit value per element, read in any width"""
    def val_at(args):
        e = c.val(args[0])
        if not isc(e):
            raise Imprecise('symbolic element')
        return c.sym('src%d_%d' % (n, cval(e)), 64)
    ms = {}
    for nm, w in ACCS:
        ms[nm] = (lambda w: lambda I, this, args: lnot(eq(val_at(args), const(0, 64))) if w == 1 else trunc(val_at(args), w))(w)
    h = c.host(G + 'SourceOperandInterface', 'src%d' % n, ms)
    c.I.alloc(h, 'new')
    return h


def run_helpers(s):
    TYPES = [('bool', 1)] + INTS + [('float', 32), ('double', 64)]

    def mk(c):
        i = inst_at(c, 0x1000)
        for k in range(3):
            c.call(i, 'AppendSource', source(c, k))
        return i

    def get(name, w):
        def f(c):
            i = mk(c)
            k = c.choose(0, 1, 2)
            e = c.choose(None, 0, 1, 5)
            v = c.sym('src%d_%d' % (k, e or 0), 64)
            want = lnot(eq(v, const(0, 64))) if w == 1 else trunc(v, w) if w < 64 else v
            r = c.static(U + 'Source<%s>' % name, 'Get', i, k) if e is None else c.static(U + 'Element<%s>' % name, 'Get', i, k, e)
            c.eq(r, want, 'value', 'source %d%s as %s' % (k, '' if e is None else ', element %d' % e, name))
            c.call(i, 'DecRef')
            c.check(not c.leaks(), 'leak', 'operands are released')
        return f

    def half(c):
        i = mk(c)
        k = c.choose(0, 1, 2)
        v = c.sym('src%d_0' % k, 64)
        c.eq(c.static(U + 'Half', 'Get', i, k), trunc(v, 16), 'half', 'source %d as half precision' % k)

    OPS = [('unsigned int', 'signed char', 'unsigned short', 'long'), ('long', 'unsigned int', 'short', 'unsigned char'), ('unsigned char', 'unsigned long', 'int', 'unsigned short')]

    def dest(c, n, log):
        """a destination of n elements that records the buffers submitted to it"""
        fac = c.new(G + 'DataBufferFactory')

        def alloc(I, this, args):
            db = obj(c, c.call(fac, 'Allocate', const(64, 32), types=['int']))
            c.call(db, 'set_destination', item)
            c.call(db, 'set_latency', 0)
            return Ptr(db)

        def setdb(I, this, args):
            d = obj(c, args[0])
            log.append(d)
            c.call(d, 'IncRef')
            return None
        item = c.host(G + 'DataBufferDestination', 'item', {'SetDataBuffer': setdb})
        h = c.host(G + 'DestinationOperandInterface', 'dst', {
            'AllocateDataBuffer': alloc,
            'shape': lambda I, this, args: lib_vec(c, [n])})
        c.I.alloc(h, 'new')
        return fac, h

    def op(name, targs):
        r, a, b, d = targs
        types = {'Bin3': [a, b], 'Bin2': [a, a], 'Bin1': [r, r], 'Un2': [a], 'Un1': [r], 'VTer4': [a, b, d], 'VTer2': [a, a, a], 'VTer1': [r, r, r],
                 'VBin3': [a, b], 'VBin2': [a, a], 'VBin1': [r, r], 'VUn2': [a], 'VUn1': [r]}[name]

        def f(c):
            i = mk(c)
            n = c.choose(0, 1, 3) if name[0] == 'V' else 1
            log, calls = [], []
            fac, h = dest(c, n, log)
            c.call(i, 'AppendDestination', h)

            def fn(I, args):
                calls.append([c.val(x) for x in args])
                return c.sym('result%d' % (len(calls) - 1), WIDTH[r])
            c.static(U + 'Ops<%s, %s, %s, %s>' % targs, name, i, c.fn(fn))
            what = '%s of %s with %d elements' % (name, ', '.join([r] + types), n)
            c.check(len(calls) == n, 'applied', '%s: the operation is applied %d times' % (what, len(calls)))
            for e, args in enumerate(calls):
                c.check(len(args) == len(types), 'arity', '%s: number of arguments' % what)
                for k, (x, t) in enumerate(zip(args, types)):
                    v = c.sym('src%d_%d' % (k, e), 64)
                    c.eq(x, trunc(v, WIDTH[t]) if WIDTH[t] < 64 else v, 'argument', '%s: argument %d of element %d' % (what, k, e))
            c.check(len(log) == 1, 'submitted', '%s: %d results are submitted' % (what, len(log)))
            for db in log:
                for e in range(n):
                    c.eq(c.call(db, 'Get', e, targs=[r]), c.sym('result%d' % e, WIDTH[r]), 'result', '%s: element %d of the result' % (what, e))
                c.eq(c.call(db, 'ref_count'), 1, 'reference', '%s: only the destination references the result' % what)
                c.call(db, 'DecRef')
            c.call(i, 'DecRef')
            c.delete(fac)
            c.check(not c.leaks(), 'leak', '%s: everything is released' % what)
        return f

    for name, w in TYPES:
        s.explore('source-' + name.replace(' ', '-'), get(name, w))
    s.explore('source-half', half)
    for j, t in enumerate(OPS):
        for name in ('Bin3', 'Bin2', 'Bin1', 'Un2', 'Un1', 'VTer4', 'VTer2', 'VTer1', 'VBin3', 'VBin2', 'VBin1', 'VUn2', 'VUn1'):
            s.explore('op-%s-%d' % (name, j), op(name, t))


def lib_vec(c, vals):
    t = ty(c, 'int')
    return Arr([const(v, 32) for v in vals], t, 4)


PROPS = {
    'P32': dict(sources=SRC, run=run_cache, rule='value, identity and reference typestate of every cached instruction against a direct mapped model over enumerated histories; symbolic addresses; construction rejects bad increments without effects'),
    'P33': dict(sources=SRC, run=run_inst, rule='ownership and reference typestate of instruction trees and operands over enumerated shapes and retained references; terms returned by accessors; effects of Execute'),
    'P34': dict(sources=SRC, run=run_helpers, rule='terms read and results submitted by every helper instantiation on symbolic operands'),
}
