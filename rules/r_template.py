"""Template expressions: arithmetic, error propagation, ownership."""
from rules.util import *
import itertools

SRC = ['mpact/sim/decoder/template_expression.cc', 'units/template_expression.cc']
N = 'mpact::sim::machine_description::instruction_set::'
OPS = {'Add': add, 'Subtract': sub, 'Multiply': mul, 'Divide': sdiv}
ERR = ('err',)


class World(object):
    def __init__(self, c):
        self.c = c
        self.formals = {}
        self.nfn = 0

    def formal(self, i):
        if i not in self.formals:
            self.formals[i] = self.c.new(N + 'TemplateFormal', StrV('formal%d' % i), i)
        return self.formals[i]

    # model tree -> code tree
    def build(self, m):
        c = self.c
        k = m[0]
        if k == 'c':
            return c.new(N + 'TemplateConstant', m[1], types=['int'])
        if k == 'p':
            return c.new(N + 'TemplateParam', self.formal(m[1]))
        if k == 'neg':
            return c.new(N + 'TemplateNegate', self.build(m[1]))
        if k == 'slot':
            return c.new(N + 'SlotConstant', self.build(m[1]))
        if k == 'op':
            l = self.build(m[2])
            return c.new(N + 'Template' + m[1], l, self.build(m[3]))
        if k == 'f':
            args = [self.build(x) for x in m[2]]
            return c.new(N + 'TemplateFunction', self.evaluator(m), self.argvec(args))
        raise KeyError(k)

    def evaluator(self, m):
        c = self.c
        proto = c.val(c.call(c.stack(N + 'TemplateConstant', c.sym('proto', 32), types=['int']), 'GetValue'))

        def f(*a):
            if m[1] is None:
                return StatusOrV(StatusV(13, StrV('evaluator failed')), None, proto.vt)
            v = c.I.copy_value(proto.v)
            v.v = m[1]
            return StatusOrV(StatusV(0, StrV()), v, proto.vt)
        return c.fn(f)

    def argvec(self, objs):
        c = self.c
        t = ty(c, N + 'TemplateExpression *')
        a = Arr([Ptr(o) for o in objs], t, 8, 'std::vector')
        c.I.alloc(a, 'new')
        return Ptr(a)


# ---- reference semantics over model trees
def m_const(m):
    k = m[0]
    return {'c': lambda: True, 'p': lambda: False, 'neg': lambda: m_const(m[1]), 'slot': lambda: m_const(m[1]),
            'op': lambda: m_const(m[2]) and m_const(m[3]), 'f': lambda: all(m_const(x) for x in m[2])}[k]()


def apply(c, name, a, b):
    if a is None or b is None:
        return None
    if name == 'Divide':
        if c.decide(eq(b, const(0, 32))):
            return None
        if c.decide(land(eq(b, const(-1, 32)), eq(a, const(1 << 31, 32)))):
            return None
        return sdiv(a, b)
    return OPS[name](a, b)


def m_value(c, m):
    k = m[0]
    if k == 'c':
        return m[1]
    if k == 'p':
        return None
    if k == 'slot':
        return m_value(c, m[1])
    if k == 'neg':
        v = m_value(c, m[1])
        return None if v is None else neg(v)
    if k == 'op':
        a = m_value(c, m[2])
        b = m_value(c, m[3])
        return apply(c, m[1], a, b)
    if k == 'f':
        return m[1] if m_const(m) else None


def m_eval(c, m, args):
    k = m[0]
    if k == 'c':
        return m
    if k == 'slot':
        return m_eval(c, m[1], args)
    if k == 'p':
        if args is None:
            return m
        if m[1] >= len(args):
            return ERR
        a = args[m[1]]
        if m_const(a):
            v = m_value(c, a)
            return ERR if v is None else ('c', v)
        return m_eval(c, a, None)
    if k == 'neg':
        e = m_eval(c, m[1], args)
        if e == ERR:
            return ERR
        if m_const(e):
            v = m_value(c, e)
            return ERR if v is None else ('c', neg(v))
        return ('neg', e)
    if k == 'op':
        l = m_eval(c, m[2], args)
        if l == ERR:
            return ERR
        r = m_eval(c, m[3], args)
        if r == ERR:
            return ERR
        if m_const(l) and m_const(r):
            v = apply(c, m[1], m_value(c, l), m_value(c, r))
            return ERR if v is None else ('c', v)
        return ('op', m[1], l, r)
    if k == 'f':
        out = []
        for x in m[2]:
            e = m_eval(c, x, args)
            if e == ERR:
                return ERR
            out.append(e)
        return ('f', m[1], out)


def txt(m):
    k = m[0]
    if k == 'c':
        return str(m[1])
    if k == 'p':
        return '$%d' % m[1]
    if k == 'op':
        return '(%s %s %s)' % (txt(m[2]), {'Add': '+', 'Subtract': '-', 'Multiply': '*', 'Divide': '/'}[m[1]], txt(m[3]))
    if k == 'f':
        return 'fn%s(%s)' % ('' if m[1] is not None else '!', ', '.join(map(txt, m[2])))
    return '%s(%s)' % (k, txt(m[1]))


def check_value(c, o, m, oid, what):
    want = m_value(c, m)
    got = c.val(c.call(o, 'GetValue'))
    ok = got.st.code == 0
    c.check(ok == (want is not None), oid + '-status', '%s: GetValue %s' % (what, 'succeeds' if ok else 'fails'))
    if ok and want is not None:
        c.eq(got.v.v, want, oid, '%s: value' % what)


def check_eval(c, w, o, m, args_m, args_o, what, depth=0):
    r = c.val(c.call(o, 'Evaluate', None if args_o is None else args_o))
    want = m_eval(c, m, args_m)
    ok = r.st.code == 0
    c.check(ok == (want != ERR), 'evaluate-status', '%s: Evaluate %s' % (what, 'succeeds' if ok else 'fails'))
    if not ok or want == ERR:
        return None
    res = c.val(r.v).t
    c.eq(c.call(res, 'IsConstant'), m_const(want), 'evaluate-constant', '%s: constancy of the result' % what)
    check_value(c, res, want, 'evaluate-value', '%s, result' % what)
    return res, want


def run_value(s):
    tests(s, False)


def run_owner(s):
    tests(s, True)


def leafset(c, small=False):
    A = ('c', c.sym('a', 32))
    B = ('c', c.sym('b', 32))
    L = [A, B, ('p', 0), ('p', 1), ('p', 3), ('f', c.sym('fv', 32), [A]), ('f', None, [B])]
    if not small:
        L += [('slot', A), ('slot', ('p', 0)), ('f', c.sym('fv', 32), [('p', 0), B]), ('f', c.sym('fv', 32), [B, ('p', 3)]), ('neg', A), ('neg', ('p', 1)), ('neg', ('f', None, []))]
    return L


def argsets(c):
    K = ('c', c.sym('k', 32))
    return [None, [K, ('op', 'Add', K, ('c', c.sym('k2', 32)))], [('p', 1), K], [('op', 'Divide', K, ('c', const(0, 32))), ('f', c.sym('gv', 32), [])], [('neg', ('p', 0)), ('f', None, [])], []]


def tests(s, owner):
    def root(shape):
        def f(c):
            w = World(c)
            if shape == 'leaf':
                m = c.choose(*leafset(c))
            elif shape == 'unary':
                k = c.choose('neg', 'slot')
                m = (k, c.choose(*leafset(c)))
            elif shape == 'unary2':
                m = (c.choose('neg', 'slot'), (c.choose('neg', 'slot'), c.choose(*leafset(c, True))))
            elif shape in OPS:
                m = ('op', shape, c.choose(*leafset(c)), c.choose(*leafset(c, True)))
            elif shape.startswith('deep-left'):
                m = ('op', shape[10:], ('op', c.choose(*OPS), c.choose(('c', c.sym('a', 32)), ('p', 0)), ('c', c.sym('b', 32))), c.choose(('c', c.sym('d', 32)), ('p', 1), ('p', 3)))
            elif shape.startswith('deep-right'):
                m = ('op', shape[11:], c.choose(('c', c.sym('d', 32)), ('p', 1), ('p', 3)), ('op', c.choose(*OPS), ('c', c.sym('b', 32)), c.choose(('c', c.sym('a', 32)), ('p', 0))))
            elif shape == 'fn':
                m = ('f', c.choose(c.sym('fv', 32), None), [c.choose(('c', c.sym('a', 32)), ('p', 0)), c.choose(('c', c.sym('b', 32)), ('p', 1), ('p', 3), ('neg', ('p', 0)))])
            am = c.choose(*argsets(c))
            o = w.build(m)
            args_o = None
            if am is not None:
                args_o = w.argvec([w.build(x) for x in am])
            what = '%s with arguments %s' % (txt(m), 'none' if am is None else [txt(x) for x in am])
            c.eq(c.call(o, 'IsConstant'), m_const(m), 'is-constant', '%s: IsConstant' % what)
            check_value(c, o, m, 'value', what)
            made = []
            if not owner or True:
                r = check_eval(c, w, o, m, am, args_o, what)
                if r:
                    made.append(r[0])
                    if not m_const(r[1]):
                        bind = [('c', c.sym('z0', 32)), ('c', c.sym('z1', 32)), ('c', c.sym('z2', 32)), ('c', c.sym('z3', 32))]
                        bo = w.argvec([w.build(x) for x in bind])
                        r2 = check_eval(c, w, r[0], r[1], bind, bo, what + ', then bound')
                        if r2:
                            made.append(r2[0])
                        free_args(c, bo)
                d = c.val(c.call(o, 'DeepCopy')).t
                c.check(d is not o, 'copy-distinct', '%s: the copy is another object' % what)
                c.eq(c.call(d, 'IsConstant'), m_const(m), 'copy-constant', '%s: copy' % what)
                check_value(c, d, m, 'copy-value', what + ', copy')
                made.append(d)
            if owner:
                # release in either order; the survivors must stay usable
                order = c.choose('original first', 'copies first')
                if order == 'original first':
                    c.delete(o)
                    check_value(c, d, m, 'copy-independent', what + ', copy after the original is gone')
                    for x in made:
                        c.delete(x)
                else:
                    for x in made:
                        c.delete(x)
                    check_value(c, o, m, 'original-intact', what + ', original after its results are gone')
                    c.delete(o)
                if args_o is not None:
                    for x in args_o.t.items:
                        c.check(x.t.alive, 'arguments-kept', '%s: arguments stay owned by the caller' % what)
                    free_args(c, args_o)
                for x in w.formals.values():
                    c.check(x.alive, 'formals-kept', 'formals stay owned by their template')
                    c.delete(x)
                lk = c.leaks()
                c.check(not lk, 'leak', '%s: %d object(s) never freed (%s)' % (what, len(lk), ', '.join(sorted({getattr(x, 'cls', 'array').split('::')[-1] for x in lk}))))
        return f
    shapes = ['leaf', 'unary', 'unary2', 'fn'] + list(OPS) + ['deep-left-%s' % o for o in OPS] + ['deep-right-%s' % o for o in OPS]
    for sh in shapes:
        s.explore(sh, root(sh), limit=6000, budget=150)


def free_args(c, p):
    for x in p.t.items:
        c.delete(x)
    c.I.delete(p, False)


PROPS = {
    'P12': dict(sources=SRC, run=run_value, rule='values, errors and constancy of every expression shape up to depth 3 with symbolic constants, compared with the reference semantics of the expression language'),
    'P13': dict(sources=SRC, run=run_owner, rule='ownership analysis: every tree, evaluation result and copy is freed exactly once, independently of each other, on success and error paths'),
}
