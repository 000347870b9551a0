"""Instructions and opcodes of the description language, and those derived from them."""
from rules.util import *
from values import *
from rules.r_template import World, m_eval, m_const, m_value, ERR, N

D = 'mpact/sim/decoder/'
SRC = [D + x + '.cc' for x in ('opcode', 'instruction', 'template_expression', 'resource', 'format_name')]
TE = 'TemplateExpression *'


def fields(c, p):
    return {k[1]: v for k, v in obj(c, p).f.items()}


def same_expr(c, p, m, oid, what):
    """the expression p has the value of the model m"""
    p = c.val(p)
    if m is None:
        c.check(p.t is None, oid, '%s: an expression appears' % what)
        return
    if not c.check(p.t is not None, oid, '%s: the expression is missing' % what):
        return
    r = c.val(c.call(obj(c, p), 'GetValue'))
    v = m_value(c, m)
    good = c.decide(ok(c, r))
    c.check(good == (v is not None), oid, '%s: the expression has %s value' % (what, 'a' if good else 'no'))
    if good and v is not None:
        c.eq(c.val(r.v.v), v, oid, '%s: value' % what)


class Inst(object):
    """an instruction of the code, and what it is made of"""

    def __init__(self, c, w, slot, fac, name, dests, uses, acqs, attrs, child=None, size=4):
        self.c, self.name, self.dests, self.uses, self.acqs, self.attrs, self.child, self.size = c, name, dests, uses, acqs, attrs, child, size
        new = lambda m: Ptr(w.build(m)) if m else null()
        op = c.val(c.call(fac, 'CreateOpcode', StrV(name))).v
        self.op = op = obj(c, op)
        self.value = c.call(op, 'value')
        c.call(op, 'set_instruction_size', const(size, 32))
        c.call(op, 'set_predicate_op_name', StrV(name + '_pred'))
        self.srcs = [('s1', False, True), ('s2', True, False)]
        for n, a, r in self.srcs:
            c.call(op, 'AppendSourceOp', StrV(n), boolc(a), boolc(r))
        for n, a, r, m in dests:
            if m is None:
                c.call(op, 'AppendDestOp', StrV(n), boolc(a), boolc(r))
            else:
                c.call(op, 'AppendDestOp', StrV(n), boolc(a), boolc(r), new(m))
        self.inst = c.new(N + 'Instruction', Ptr(op), Ptr(slot))
        self.res = [c.host(N + 'Resource', 'res%d' % i, {}) for i in range(4)]
        for what, refs in (('AppendResourceUse', uses), ('AppendResourceAcquire', acqs)):
            for i, a, b, e in refs:
                ref = c.new(N + 'ResourceReference', Ptr(self.res[i]), boolc(a), null(), new(b), new(e))
                c.call(self.inst, what, Ptr(ref))
        for n, m in attrs.items():
            c.call(self.inst, 'AddInstructionAttribute', StrV(n), new(m))
        c.call(self.inst, 'set_semfunc_code_string', StrV(name + '_sem'))
        if child:
            c.call(self.inst, 'AppendChild', Ptr(child.inst))

    def exprs(self):
        r = [m for _, _, _, m in self.dests] + [m for q in self.uses + self.acqs for m in q[2:]] + list(self.attrs.values())
        return [m for m in r if m] + (self.child.exprs() if self.child else [])

    def compare(self, c, inst, args, oid, what):
        ev = lambda m: None if m is None else m_eval(c, m, args) if args is not None else m
        op = obj(c, c.call(inst, 'opcode'))
        c.check(text(c.val(c.call(op, 'name'))) == self.name, oid, '%s: name' % what)
        c.eq(c.call(op, 'value'), self.value, oid, '%s: value of the opcode' % what)
        c.eq(c.call(op, 'instruction_size'), self.size, oid, '%s: size' % what)
        c.check(text(c.val(c.call(op, 'predicate_op_name'))) == self.name + '_pred', oid, '%s: predicate' % what)
        c.check(text(c.val(c.call(inst, 'semfunc_code_string'))) == self.name + '_sem', oid, '%s: semantic function' % what)
        got = [(text(c.val(g['name'])), cval(c.val(g['is_array'])) == 1, cval(c.val(g['is_reloc'])) == 1) for g in [fields(c, x) for x in obj(c, c.call(op, 'source_op_vec')).items]]
        c.check(got == self.srcs, oid, '%s: source operands %s' % (what, got))
        ds = [obj(c, x) for x in obj(c, c.call(op, 'dest_op_vec')).items]
        got = [(text(c.val(c.call(d, 'name'))), cval(c.val(c.call(d, 'is_array'))) == 1, cval(c.val(c.call(d, 'is_reloc'))) == 1) for d in ds]
        if c.check(got == [d[:3] for d in self.dests], oid, '%s: destination operands %s' % (what, got)):
            for d, q in zip(ds, self.dests):
                same_expr(c, c.call(d, 'expression'), ev(q[3]), oid, '%s: latency of %s' % (what, q[0]))
                c.check(obj(c, c.call(inst, 'GetDestOp', StrV(q[0]))) is d, oid, '%s: %s is not found by its name' % (what, q[0]))
                c.eq(c.call(d, 'HasLatency'), boolc(q[3] is not None), oid, '%s: latency of %s' % (what, q[0]))
        for m, refs in (('resource_use_vec', self.uses), ('resource_acquire_vec', self.acqs)):
            got = [fields(c, x) for x in obj(c, c.call(inst, m)).items]
            if c.check([(c.val(g['resource']).t, cval(c.val(g['is_array'])) == 1) for g in got] == [(self.res[q[0]], q[1]) for q in refs], oid, '%s: %s' % (what, m)):
                for g, q in zip(got, refs):
                    same_expr(c, g['begin_expression'], ev(q[2]), oid, '%s: begin of %s' % (what, m))
                    same_expr(c, g['end_expression'], ev(q[3]), oid, '%s: end of %s' % (what, m))
        got = {text(k): v for k, v in entries(c, c.call(inst, 'attribute_map'))}
        if c.check(set(got) == set(self.attrs), oid, '%s: attributes %s' % (what, sorted(got))):
            for k, m in self.attrs.items():
                same_expr(c, got[k], ev(m), oid, '%s: attribute %s' % (what, k))
        ch = c.val(c.call(inst, 'child'))
        if c.check((ch.t is not None) == (self.child is not None), oid, '%s: child' % what) and self.child:
            self.child.compare(c, ch.t, args, oid, what + ', child')


def run_derive(s):
    x = sym('x', 32)
    k = lambda v: ('c', const(v & 0xffffffff, 32))
    P0, P1 = ('p', 0), ('p', 1)
    EX = [None, k(3), P0, ('op', 'Add', P0, P1), ('op', 'Subtract', k(9), ('neg', P1)), ('op', 'Divide', k(7), P0), ('p', 2), ('op', 'Multiply', P0, ('p', 3))]

    def world(c):
        w = World(c)
        fac = c.new(N + 'OpcodeFactory')
        names = []
        iset = c.host(N + 'InstructionSet', 'isa', {'opcode_factory': lambda I, t, a: Ptr(fac)})
        base = c.host(N + 'Slot', 'base', {'instruction_set': lambda I, t, a: Ptr(iset), 'AddAttributeName': lambda I, t, a: names.append('base')})
        new = c.host(N + 'Slot', 'new', {'instruction_set': lambda I, t, a: Ptr(iset), 'AddAttributeName': lambda I, t, a: names.append(text(c.val(a[0])))})
        return w, fac, base, new, names

    def derive(c):
        w, fac, base, new, names = world(c)
        site = c.choose('dest', 'begin', 'end', 'abegin', 'aend', 'attr', 'cdest', 'cbegin', 'cattr', 'none')
        e = c.choose(*EX)
        if e is None and 'attr' in site:
            return
        at = lambda n, d=k(1): e if site == n else d
        child = Inst(c, w, base, fac, 'kid', [('kd', False, False, at('cdest', None))], [(3, False, at('cbegin', None), k(2))], [], {'ka': at('cattr', P1)}) if site[0] == 'c' else None
        i = Inst(c, w, base, fac, 'add', [('d1', False, True, P0), ('d2', True, False, at('dest')), ('d3', False, False, None)], [(0, False, at('begin', None), at('end')), (1, True, k(0), P1)],
                 [(2, False, at('abegin', P0), at('aend', None))], {'a': k(5), 'b': at('attr', P1)}, child)
        args = [('c', x), k(4)]
        objs = [w.build(m) for m in args]
        vec = w.argvec(objs)
        what = '%s is %s' % (site, e)
        r = c.val(c.call(i.inst, 'CreateDerivedInstruction', vec, Ptr(new)))
        bad = any(m_eval(c, m, args) == ERR for m in i.exprs())
        good = c.decide(ok(c, r))
        c.check(good == (not bad), 'outcome', '%s: derivation %s' % (what, 'succeeds' if good else 'fails'))
        i.compare(c, i.inst, None, 'base', what + ', base')
        c.delete(i.inst)
        for o in objs:
            c.delete(o)
        if good:
            d = obj(c, r.v)
            i.compare(c, d, args, 'derived', what)
            c.check(sorted(names) == sorted(list(i.attrs) + (list(child.attrs) if child else [])), 'attributes', '%s: attributes made known to the slot: %s' % (what, names))
            c.delete(d)
        c.delete(vec)
        c.delete(fac)
        for f in w.formals.values():
            c.delete(f)
        l = c.leaks()
        c.check(not l, 'ownership', '%s: objects left behind: %s' % (what, l))
    s.explore('derive', derive)

    def override(c):
        """parts replaced in an instruction"""
        w, fac, base, new, names = world(c)
        i = Inst(c, w, base, fac, 'add', [('d', False, False, k(1))], [(0, False, k(1), k(2))], [(1, False, k(1), k(2))], {'a': k(5), 'b': k(6)})
        what = c.choose('attr', 'default', 'again', 'resources', 'attributes', 'sem', 'latency')
        if what == 'attr':
            c.call(i.inst, 'AddInstructionAttribute', StrV('a'), Ptr(w.build(k(8))))
            i.attrs['a'] = k(8)
        elif what == 'default':
            c.call(i.inst, 'AddInstructionAttribute', StrV('z'))
            i.attrs['z'] = k(1)
        elif what == 'again':
            c.call(i.inst, 'AddInstructionAttribute', StrV('b'))
            i.attrs['b'] = k(1)
        elif what == 'resources':
            c.call(i.inst, 'ClearResourceSpecs')
            i.uses, i.acqs = [], []
        elif what == 'attributes':
            c.call(i.inst, 'ClearAttributeSpecs')
            i.attrs = {}
        elif what == 'latency':
            d = c.choose(k(1), ('p', 0), None)
            if d:
                c.call(i.op, 'AppendDestOp', StrV('e'), FALSE, FALSE, Ptr(w.build(d)))
            else:
                c.call(i.op, 'AppendDestOp', StrV('e'), FALSE, FALSE)
            i.dests.append(('e', False, False, d))
            t = c.choose(0, 1)
            want = d != ('p', 0) and t < 1
            f = c.fn(lambda I, a, *r: ult(const(t, 32), c.val(a[0])))
            c.eq(c.call(i.op, 'ValidateDestLatencies', f), boolc(want), 'validate', 'latencies with a last one of %s, above %d' % (d, t))
        else:
            c.call(i.inst, 'ClearSemfuncCodeString')
            c.check(text(c.val(c.call(i.inst, 'semfunc_code_string'))) == '', 'override', 'the semantic function is cleared')
            c.call(i.inst, 'set_semfunc_code_string', StrV('add_sem'))
        i.compare(c, i.inst, None, 'override', what)
        c.check(c.val(c.call(i.inst, 'GetDestOp', StrV('nope'))).t is None, 'override', 'an operand that is not there is found')
        c.delete(i.inst)
        c.delete(fac)
        for f in w.formals.values():
            c.delete(f)
        l = c.leaks()
        c.check(not l, 'ownership', '%s: objects left behind: %s' % (what, l))
    s.explore('override', override)

    def names(c):
        """opcodes by name"""
        fac = c.new(N + 'OpcodeFactory')
        ops, seen = [], []
        for n in ('add', 'sub', c.choose('add', 'sub', 'mul'), 'div', c.choose('div', 'add', 'rem')):
            r = c.val(c.call(fac, 'CreateOpcode', StrV(n)))
            good = c.decide(ok(c, r))
            c.check(good == (n not in seen), 'names', 'opcode %s after %s is %s' % (n, seen, 'accepted' if good else 'refused'))
            if good:
                seen.append(n)
                ops.append(obj(c, r.v))
        got = [obj(c, p) for p in obj(c, c.call(fac, 'opcode_vec')).items]
        c.check(got == ops and [text(c.val(c.call(o, 'name'))) for o in ops] == seen, 'names', 'the opcodes made, in order')
        vals = [cval(c.val(c.call(o, 'value'))) for o in ops]
        c.check(len(set(vals)) == len(vals) and 0 not in vals and all(v < 1 << 31 for v in vals), 'values', 'values of the opcodes: %s' % vals)
        d = obj(c, c.call(fac, 'CreateChildOpcode', Ptr(ops[0])))
        c.check(text(c.val(c.call(d, 'name'))) == seen[0], 'names', 'a child has the name of its opcode')
        c.check([obj(c, p) for p in obj(c, c.call(fac, 'opcode_vec')).items] == ops, 'names', 'a child is no opcode of its own')
        for o in ops + [d, fac]:
            c.delete(o)
        c.check(not c.leaks(), 'ownership', 'objects left behind')
    s.explore('names', names)


PROPS = {'P53': dict(sources=SRC, run=run_derive, rule='instructions derived for enumerated expressions and symbolic template arguments, overridden parts, opcode names, ownership')}
