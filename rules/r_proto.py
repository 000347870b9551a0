"""Protobuf decoder generator: the value sets of constraints, the constraints of an instruction."""
from rules.util import *
from values import *

SRC = ['mpact/sim/decoder/proto_constraint_expression.cc', 'mpact/sim/decoder/proto_constraint_value_set.cc', 'mpact/sim/decoder/proto_instruction_encoding.cc', 'mpact/sim/decoder/proto_encoding_group.cc', 'mpact/sim/decoder/format_name.cc', 'units/proto.cc']
N = 'mpact::sim::decoder::proto_fmt::'
VAL, ENUM, NEG, SET, CON, ENC = [N + x for x in ('ProtoConstraintValueExpression', 'ProtoConstraintEnumExpression', 'ProtoConstraintNegateExpression', 'ProtoConstraintValueSet', 'ProtoConstraint', 'ProtoInstructionEncoding')]
EQ, NE, LT, LE, GT, GE, HAS = range(7)
NAMES = ['==', '!=', '<', '<=', '>', '>=', 'has']
# variant index -> type, width, signed
INTS = {0: ('int', 32, True), 1: ('long', 64, True), 2: ('unsigned int', 32, False), 3: ('unsigned long', 64, False), 6: ('bool', 1, False)}


def lim(t):
    n, w, sg = INTS[t]
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)


def num(t, v):
    """the integer a constant term stands for"""
    n, w, sg = INTS[t]
    v = cval(v)
    return v - (1 << w) if sg and v >> (w - 1) else v


def value(c, t, v):
    return c.new(VAL, v, types=[INTS[t][0]])


def enumv(c, v):
    h = c.host('google::protobuf::EnumValueDescriptor', 'enum value', {'number': lambda I, t, a: v})
    return c.new(ENUM, Ptr(h), types=['const google::protobuf::EnumValueDescriptor *'])


def read(c, p, t, oid):
    r = c.val(c.call(obj(c, p), 'GetValue'))
    c.check(ok(c, r.st), oid, 'the limit of the set has a value')
    v = r.v
    c.check(v.i == t, oid, 'the limit of the set has type %d, required %d' % (v.i, t))
    return num(t, c.val(v.v))


def ranges(c, s, t, oid):
    out = []
    for d in obj(c, c.call(s, 'subranges')).items:
        g = {k[1]: c.val(v) for k, v in obj(c, d).f.items()}
        out.append((read(c, g['min'], t, oid), cval(g['min_included']) == 1, read(c, g['max'], t, oid), cval(g['max_included']) == 1))
    return out


def member(rs, x):
    return any((lo < x or (li and lo == x)) and (x < hi or (ri and x == hi)) for lo, li, hi, ri in rs)


HOLDS = {EQ: lambda x, v: x == v, NE: lambda x, v: x != v, LT: lambda x, v: x < v, LE: lambda x, v: x <= v, GT: lambda x, v: x > v, GE: lambda x, v: x >= v}


def expr(c, t, v, kind='value'):
    """an expression of the type and value"""
    w = INTS[t][1]
    k = lambda x: const(x & ((1 << w) - 1), w)
    if kind == 'value':
        return value(c, t, k(v))
    if kind == 'enum':
        return enumv(c, k(v))
    return c.new(NEG, value(c, t, k(1 - v if t == 6 else -v)))


def build(c, op, e, fd=None):
    k = c.new(CON, null(), fd or null(), const(op, 32), e or null(), const(0, 64), null())
    s = c.new(SET, Ptr(k), types=['const ' + CON + ' *'])
    c.delete(k)
    return s


def exact(c, s, t, want, cuts, oid, what, full=True):
    """the members of s are exactly those of want, which changes only at the cuts"""
    rs = ranges(c, s, t, oid)
    lo, hi = lim(t)
    for k in set(cuts) | {lo, hi} | {x for r in rs for x in (r[0], r[2])}:
        for x in (k - 1, k, k + 1):
            if lo <= x <= hi:
                m = member(rs, x)
                if m != want(x):
                    c.check(False, oid, '%s: %d is %s the set %s' % (what, x, 'in' if m else 'not in', rs))
                    return
    c.check(True, oid, '')
    if full:
        c.eq(c.call(s, 'IsEmpty'), boolc(not rs), oid, '%s: empty' % what)
        for a, ai, b, bi in rs:
            c.check(a < b or (a == b and ai and bi), oid, '%s: the empty range %s is left in the set' % (what, (a, ai, b, bi)))


def finish(c, *objs):
    for o in objs:
        c.delete(o)
    l = c.leaks()
    c.check(not l, 'ownership', 'objects left behind: %s' % l)


def reps(t):
    lo, hi = lim(t)
    return [0, 1] if t == 6 else [lo, 3, hi]


def near(t):
    lo, hi = lim(t)
    return [0, 1] if t == 6 else [lo, lo + 1, 2, 3, 4, hi - 1, hi]


def run_sets(s):
    OPS = [EQ, NE, LT, LE, GT, GE]

    def single(c):
        t = c.choose(*INTS)
        kind = c.choose('value', 'neg', 'enum') if t == 0 else c.choose('value', 'neg')
        op, v = c.choose(*OPS), c.choose(*reps(t))
        if kind == 'neg' and INTS[t][2] and v == lim(t)[0]:
            v += 1  # the lowest value is no negation
        e = expr(c, t, v, kind)
        what = 'x %s %d, %s, %s' % (NAMES[op], v, INTS[t][0], kind)
        want = lambda x: HOLDS[op](x, v)
        a = build(c, op, e)
        c.delete(e)
        exact(c, a, t, want, [v], 'constraint', what, False)
        b = c.construct(SET, a, copy=True)
        c.I.alloc(b, 'new')
        c.delete(a)
        exact(c, b, t, want, [v], 'copy', what, False)
        finish(c, b)
    s.explore('single', single)

    def pair(c):
        t = c.choose(*INTS)
        o, v = c.choose(*OPS), c.choose(*reps(t))
        both = c.choose('and', 'or') == 'and'
        for p in OPS:
            for w in near(t):
                e, g = expr(c, t, v), expr(c, t, w)
                a, b = build(c, o, e), build(c, p, g)
                what = 'x %s %d %s x %s %d, %s' % (NAMES[o], v, 'and' if both else 'or', NAMES[p], w, INTS[t][0])
                r = c.call(a, 'IntersectWith' if both else 'UnionWith', b)
                c.check(ok(c, r), 'and' if both else 'or', '%s: refused' % what)
                if both:
                    exact(c, a, t, lambda x: HOLDS[o](x, v) and HOLDS[p](x, w), [v, w], 'and', what)
                else:
                    exact(c, a, t, lambda x: HOLDS[o](x, v) or HOLDS[p](x, w), [v, w], 'or', what, False)
                exact(c, b, t, lambda x: HOLDS[p](x, w), [w], 'other', what, False)
                finish(c, a, b, e, g)
    s.explore('pair', pair)

    def interval(c):
        """sets given by their limits, three of them in turn"""
        t = c.choose(*[t for t in INTS if t != 6])
        base = c.choose(10, -5) if INTS[t][2] else 10
        fl = c.choose(*[(a, b) for a in (True, False) for b in (True, False)])
        swap = c.choose(False, True)
        R = [(-6, -1), (-6, 0), (-6, 2), (-6, 9), (0, 4), (0, 0), (1, 3), (2, 2), (2, 9), (4, 4), (4, 9), (5, 9)]

        def mk(r, f):
            lo, hi = expr(c, t, base + r[0]), expr(c, t, base + r[1])
            x = c.new(SET, Ptr(lo), boolc(f[0]), Ptr(hi), boolc(f[1]))
            c.delete(lo)
            c.delete(hi)
            return x
        for r in R:
            for f in [(a, b) for a in (True, False) for b in (True, False)]:
                rr = [((0, 4), fl), (r, f)]
                if swap:
                    rr.reverse()
                a, b = [mk(*q) for q in rr]
                m = [[(base + q[0], g[0], base + q[1], g[1])] for q, g in rr]
                what = '%s and %s of %s' % (m[0], m[1], INTS[t][0])
                c.check(ok(c, c.call(a, 'IntersectWith', b)), 'and', '%s: refused' % what)
                exact(c, a, t, lambda x: member(m[0], x) and member(m[1], x), [base + y for q, _ in rr for y in q], 'and', what, r[0] != r[1] or all(f))
                # what is left intersects with nothing outside, and with itself
                g = expr(c, t, base + 1)
                d = build(c, NE, g)
                c.call(a, 'IntersectWith', d)
                exact(c, a, t, lambda x: x != base + 1 and member(m[0], x) and member(m[1], x), [base + 1] + [base + y for q, _ in rr for y in q], 'three', what + ', without %d' % (base + 1), False)
                finish(c, a, b, d, g)
    s.explore('interval', interval)

    def types(c):
        """values of different types, or of no ordered type, are not compared"""
        t, u = c.choose(*INTS), c.choose(*INTS)
        o = c.choose(*OPS)
        e, g = expr(c, t, 1), expr(c, u, 1)
        q = c.new(VAL, StrV('one'), types=['std::string'])
        x = c.new(SET, Ptr(e), TRUE, Ptr(g), TRUE)
        c.eq(c.call(x, 'IsEmpty'), boolc(t != u), 'types', 'limits of types %s and %s make an empty set' % (INTS[t][0], INTS[u][0]))
        for p in OPS:
            a, b, z = build(c, o, e), build(c, p, g), build(c, p, q)
            if t != u:
                c.check(lnot(ok(c, c.call(a, 'IntersectWith', b))), 'types', 'sets of %s and %s are intersected' % (INTS[t][0], INTS[u][0]))
            c.check(lnot(ok(c, c.call(a, 'IntersectWith', z))), 'types', 'sets of %s and strings are intersected' % INTS[t][0])
            c.check(lnot(ok(c, c.call(z, 'IntersectWith', a))), 'types', 'sets of strings and %s are intersected' % INTS[t][0])
            if t == u:
                y = build(c, o, q)
                c.check(lnot(ok(c, c.call(z, 'IntersectWith', y))), 'types', 'sets of strings are intersected')
                c.delete(y)
            exact(c, a, t, lambda k: HOLDS[o](k, 1), [1], 'types', 'the set after a refused intersection', False)
            for k in (a, b, z):
                c.delete(k)
        finish(c, x, e, g, q)
    s.explore('types', types)

    def negation(c):
        """the negation of a symbolic value"""
        t = c.choose(*INTS)
        w = INTS[t][1]
        v = c.sym('v', w)
        if INTS[t][2]:
            c.assume(lnot(eq(v, const(1 << (w - 1), w))))
        e = c.new(NEG, value(c, t, v))
        g = obj(c, c.call(e, 'Clone'))
        c.delete(e)
        r = c.val(c.call(g, 'GetValue'))
        c.check(ok(c, r.st), 'negation', 'a number is negated')
        c.check(r.v.i == t, 'negation', 'the negation has the type of the value')
        c.eq(r.v.v, lnot(v) if t == 6 else neg(v), 'negation', 'the negation of %s' % INTS[t][0])
        c.eq(c.call(g, 'variant_type'), const(t, 32), 'negation', 'type of the negation')
        q = c.new(NEG, c.new(VAL, StrV('one'), types=['std::string']))
        c.check(lnot(ok(c, c.val(c.call(q, 'GetValue')).st)), 'negation', 'a string is negated')
        finish(c, g, q)
    s.explore('negation', negation)

    def has(c):
        """fields of a choice: at most one of them is there"""
        n = c.choose(1, 2, 4)
        F = []
        one = c.host('google::protobuf::OneofDescriptor', 'choice', {'field_count': lambda I, t, a: const(n, 32), 'field': lambda I, t, a: Ptr(F[cval(c.val(a[0]))])})
        for i in range(n):
            F.append(c.host('google::protobuf::FieldDescriptor', 'f%d' % i, {'name': lambda I, t, a, i=i: StrV('f%d' % i), 'containing_oneof': lambda I, t, a: Ptr(one), 'index': lambda I, t, a, i=i: const(7 + i, 32)}))
        for i in range(n):
            for j in range(n):
                a, b = build(c, HAS, None, Ptr(F[i])), build(c, HAS, None, Ptr(F[j]))
                exact(c, a, 0, lambda x: x == i, [i], 'has', 'field %d of the choice' % i)
                c.check(c.val(c.call(a, 'field_descriptor')).t is F[i], 'has', 'the field of the set')
                c.check(ok(c, c.call(a, 'IntersectWith', b)), 'has', 'fields of one choice')
                exact(c, a, 0, lambda x: x == i == j, [i, j], 'has', 'fields %d and %d of a choice' % (i, j))
                c.delete(a)
                c.delete(b)
        finish(c)
    s.explore('has', has)


class Message(object):
    """fields a b (plain), x y (of choice 1), u v (of choice 2, in the message of x)"""

    def __init__(self, c):
        self.c = c
        ones, self.fd, self.key = {}, {}, {}
        for n, (o, i) in {'a': (None, 0), 'b': (None, 1), 'x': ('o1', 2), 'y': ('o1', 3), 'u': ('o2', 0), 'v': ('o2', 1), 'k': (None, 2)}.items():
            if o and o not in ones:
                ones[o] = c.host('google::protobuf::OneofDescriptor', o, {
                    'name': lambda I, t, a, o=o: StrV(o), 'field_count': lambda I, t, a: const(2, 32),
                    'field': lambda I, t, a, o=o: Ptr(self.fd[{'o1': 'xy', 'o2': 'uv'}[o][cval(c.val(a[0]))]])})
            h = c.host('google::protobuf::FieldDescriptor', n, {
                'name': lambda I, t, a, n=n: StrV(n), 'full_name': lambda I, t, a, n=n: StrV('m.' + n), 'index': lambda I, t, a, i=i: const(i, 32),
                'cpp_type': lambda I, t, a, n=n: const(9 if n == 'k' else 1, 32),
                'containing_oneof': lambda I, t, a, o=o: Ptr(ones[o]) if o else null()})
            self.fd[n], self.key[id(h)] = h, n
        self.ctx = c.host(N + 'generated::ProtoFormatParser::Field_constraintContext', 'constraint', {'qualified_ident': lambda I, t, a: null()})
        self.set = c.host(N + 'generated::ProtoFormatParser::Setter_defContext', 'setter', {})


    def vec(self, names):
        a = Arr([Ptr(self.fd[n]) for n in names], ty(self.c, 'const google::protobuf::FieldDescriptor *'), 8, 'std::vector')
        return a

    def add(self, enc, op, f, path, v):
        c = self.c
        e = null() if v is None else Ptr(c.new(VAL, StrV('s%d' % v), types=['std::string']) if f == 'k' else value(c, 0, const(v, 32)))
        r = c.call(enc, 'AddConstraint', Ptr(self.ctx), const(op, 32), Ptr(self.fd[f]), self.vec(path), e)
        good = c.decide(ok(c, r))
        if not good and v is not None and e.t.alive:
            c.delete(e)
        return good

    def item(self, p, oid):
        c = self.c
        g = {k[1]: c.val(v) for k, v in obj(c, p).f.items()}
        v = None
        if not is_null(g['expr']):
            r = c.val(c.call(obj(c, g['expr']), 'GetValue'))
            v = int(text(r.v.v)[1:]) if r.v.i == 7 else num(0, c.val(r.v.v))
        return (cval(g['op']), self.key[id(g['field_descriptor'].t)], v), g['depends_on']

    def demands(self, enc, oid):
        out = []
        for w in ('equal_constraints', 'other_constraints'):
            for p in obj(self.c, self.c.call(enc, w)).items:
                k, d = self.item(p, oid)
                out.append((w[0], k, d))
        return out


def is_null(p):
    return isinstance(p, Ptr) and p.t is None


def run_encoding(s):
    # op, field, choices on the way, value
    A = [(EQ, 'a', '', 1), (EQ, 'b', '', 2), (NE, 'a', '', 3), (GT, 'b', '', 4), (EQ, 'k', '', 5), (HAS, 'x', '', None), (HAS, 'y', '', None), (EQ, 'x', 'x', 6), (LE, 'x', 'x', 7), (EQ, 'y', 'y', 8),
         (HAS, 'u', 'x', None), (HAS, 'v', 'x', None), (EQ, 'u', 'xu', 9), (GE, 'v', 'xv', 10), (LT, 'a', 'x', 11), (EQ, 'b', 'xu', 12), (EQ, 'a', 'yu', 13), (HAS, 'a', '', None)]
    ONE = dict(x=1, y=1, u=2, v=2)

    def add(c):
        """any of the constraints, one after the other"""
        n = 3 if s.thorough else 2
        first = c.choose(*A)
        for second in A:
            for third in (A[::4] if n == 3 else [None]):
                m = Message(c)
                enc = c.new(ENC, StrV('inst'), null())
                chosen, need, what = {}, set(), ''
                for q in [first, second] + ([third] if third else []):
                    op, f, path, v = q
                    what += ' %s %s%s under [%s]' % (f, NAMES[op], '' if v is None else ' %d' % v, path)
                    clash = any(chosen.get(ONE[p], p) != p for p in path)
                    late = op == HAS and f in ONE and chosen.get(ONE[f], f) != f
                    good = m.add(enc, op, f, path, v)
                    c.check(not (good and (clash or (late and not path))), 'refused', 'a constraint that contradicts another is accepted:%s' % what)
                    c.check(good or clash or late, 'accepted', 'a constraint is refused that contradicts no other:%s' % what)
                    if not good:
                        break
                    for p in path:
                        chosen[ONE[p]] = p
                        need.add((HAS, p, None))
                    if op == HAS and f in ONE and not path:
                        chosen[ONE[f]] = f
                    need.add((op, f, v))
                if good:
                    l = m.demands(enc, 'exact')
                    got = [k for _, k, _ in l]
                    c.check(set(got) == need, 'exact', 'the instruction demands %s, required %s:%s' % (sorted(got, key=str), sorted(need, key=str), what))
                    for w, k, d in l:
                        if w == 'e':
                            c.check((k[0] == EQ and k[1] != 'k') or (k[0] == HAS and k[1] in ONE), 'equal', '%s is used to select instructions:%s' % (k, what))
                            c.check(got.count(k) == 1 or k[0] != HAS, 'equal', '%s is demanded more than once:%s' % (k, what))
                    copy = c.construct(ENC, enc, copy=True)
                    c.I.alloc(copy, 'new')
                    c.delete(enc)
                    l2 = m.demands(copy, 'copy')
                    c.check(sorted(str(k) for _, k, _ in l2) == sorted(str(k) for k in got), 'copy', 'the copy demands %s, the original %s:%s' % ([k for _, k, _ in l2], got, what))
                    for f in 'xyuv':
                        if chosen.get(ONE[f], f) != f:
                            c.check(not m.add(copy, HAS, f, '', None), 'copy', 'the copy accepts a constraint the original refuses: %s after%s' % (f, what))
                    own = {id(obj(c, v)) for _, v in entries(c, c.call(copy, 'has_constraints'))}
                    for (_, k, d) in l2:
                        while not is_null(d):
                            c.check(id(d.t) in own, 'copy', 'the copy depends on a constraint of the original:%s' % what)
                            d = m.item(d, 'copy')[1]
                    enc = copy
                finish(c, enc)
    s.explore('add', add)


def run_groups(s):
    import itertools
    E = [[], [(EQ, 'a', '', 1)], [(EQ, 'a', '', 5)], [(NE, 'a', '', 5)], [(GE, 'a', '', 3), (LE, 'a', '', 7)], [(GT, 'a', '', 5)], [(LE, 'a', '', 5), (GT, 'a', '', 1), (NE, 'a', '', 3)],
         [(EQ, 'a', '', 5), (EQ, 'b', '', 5)], [(EQ, 'a', '', 5), (EQ, 'b', '', 7)], [(EQ, 'a', '', 1), (GE, 'b', '', 3)], [(LT, 'b', '', 5), (GT, 'a', '', 3)], [(HAS, 'x', '', None)], [(HAS, 'y', '', None)],
         [(EQ, 'x', 'x', 5)], [(EQ, 'x', 'x', 2)], [(GE, 'x', 'x', 3), (LT, 'x', 'x', 5)], [(EQ, 'y', 'y', 5)], [(HAS, 'x', '', None), (EQ, 'a', '', 5)], [(HAS, 'y', '', None), (EQ, 'a', '', 5)]]
    V = (0, 1, 2, 3, 4, 5, 6, 7, 8)
    MSG = [dict(a=a, b=b, o1=o) for a in V for b in (2, 3, 4, 5, 7) for o in (None,)] + [dict(a=a, b=b, o1=o, **{o: k}) for a in (1, 4, 5, 6) for b in (3, 5, 7) for o in 'xy' for k in (2, 3, 4, 5)]

    def sat(cs, m):
        return all(m.get('o1') == f if op == HAS else (all(m.get('o1') == p for p in path) and f in m and HOLDS[op](m[f], v)) for op, f, path, v in cs)

    def tests(cs):
        return {(f, op == HAS) for op, f, path, v in cs} | {(p, True) for _, _, path, _ in cs for p in path}

    def pairs(c):
        first = c.choose(*E)
        for i, second in enumerate(E):
            for third in [None] + ([E[2], E[12], E[13]] if s.thorough or i % 3 == 0 else []):
                m = Message(c)
                errs = []
                lst = c.host('mpact::sim::decoder::DecoderErrorListener', 'listener', {'semanticError': lambda I, t, a: errs.append(a) and None})
                grp = c.host(N + 'ProtoInstructionGroup', 'group', {'name': lambda I, t, a: StrV('group')})
                g = c.new(N + 'ProtoEncodingGroup', Ptr(grp), const(0, 32), Ptr(lst))
                es = [first, second] + ([third] if third else [])
                for k, cs in enumerate(es):
                    e = c.new(ENC, StrV('i%d' % k), null())
                    for q in cs:
                        c.check(m.add(e, *q), 'accepted', 'the constraints of %s' % cs)
                    c.call(g, 'AddEncoding', Ptr(e))
                c.call(g, 'AddSubGroups')
                what = ' | '.join(' and '.join('%s%s %s %s' % (''.join(p + '.' for p in path), f, NAMES[op], v) for op, f, path, v in cs) or 'anything' for cs in es)
                both = [(a, b) for a, b in itertools.combinations(es, 2) if any(sat(a, x) and sat(b, x) for x in MSG)]
                if any(tests(a) == tests(b) for a, b in both):
                    c.check(len(errs) > 0, 'ambiguous', 'two instructions match the same message, and nothing is reported: %s' % what)
                if not both:
                    c.check(not errs, 'distinct', 'no message matches two instructions, but an ambiguity is reported: %s' % what)
                finish(c, g)
    s.explore('pairs', pairs)


PROPS = {'P50': dict(sources=SRC, run=run_sets, rule='members of the sets built, intersected and joined, at every value next to a limit; ownership; symbolic negation'),
         'P51': dict(sources=SRC, run=run_encoding, rule='constraints demanded after every sequence of additions, refusals, copies, ownership'),
         'P52': dict(sources=SRC, run=run_groups, rule='ambiguities reported for enumerated sets of instructions, ownership')}
