"""Names written by the generators, and the resource registry."""
from rules.util import *
import lib
import itertools

SRC = ['mpact/sim/decoder/format_name.cc', 'mpact/sim/decoder/resource.cc']
N = 'mpact::sim::machine_description::instruction_set::'


def up(c, x):
    if c.decide(land(lnot(ult(x, const(97, 8))), ult(x, const(123, 8)))):
        return sub(x, const(32, 8))
    return x


def low(c, x):
    if c.decide(isup(x)):
        return add(x, const(32, 8))
    return x


def isup(x):
    return land(lnot(ult(x, const(65, 8))), ult(x, const(91, 8)))


def is_(c, x, ch):
    return c.decide(eq(x, const(ord(ch), 8)))


def run_names(s):
    L = 6 if s.thorough else 5

    def chars(c):
        n = c.choose(*range(L + 1))
        cs = [c.sym('c%d' % i, 8) for i in range(n)]
        for x in cs:
            c.assume(ult(x, const(128, 8)))
        return cs

    def same(c, got, want, oid, what):
        g = c.val(got).chars()
        if g is None:
            raise Imprecise('text of unknown length')
        c.check(len(g) == len(want), oid, '%s: %d characters, required %d' % (what, len(g), len(want)))
        for a, b in zip(g, want):
            c.eq(a, b, oid, what)

    def pascal(c):
        cs = chars(c)
        got = c.func(N + 'ToPascalCase', c.chars(*cs))
        want, cap = [], True
        for x in cs:
            if is_(c, x, '_'):
                cap = True
                continue
            want.append(up(c, x) if cap else x)
            cap = False
        same(c, got, want, 'pascal', 'PascalCase: underscores go, the next letter is capitalised')

    def snake(c):
        cs = chars(c)
        got = c.func(N + 'ToSnakeCase', c.chars(*cs))
        want = []
        for x in cs:
            if want and c.decide(isup(x)):
                want.append(const(ord('_'), 8))
            want.append(low(c, x))
        same(c, got, want, 'snake', 'snake_case: an underscore precedes every capital but the first character, letters are lowered')

    def guard(c):
        cs = chars(c)
        got = c.func(N + 'ToHeaderGuard', c.chars(*cs))
        want = []
        for x in cs:
            if is_(c, x, '/') or is_(c, x, '.'):
                want.append(const(ord('_'), 8))
            else:
                want.append(up(c, x))
        same(c, got, want, 'guard', 'header guard: / and . become _, letters are raised')

    def lower(c):
        cs = chars(c)
        got = c.func(N + 'ToLowerCase', c.chars(*cs))
        same(c, got, [low(c, x) for x in cs], 'lower', 'lower case')

    def indent(c):
        if c.choose(True, False):
            cs = chars(c)
            got, n = c.func(N + 'Indent', c.chars(*cs), types=['std::basic_string_view<char, std::char_traits<char>>']), len(cs)
        else:
            n = c.choose(0, 1, 2, 7)
            got = c.func(N + 'Indent', n, types=['int'])
        same(c, got, [const(32, 8)] * n, 'indent', 'indentation has the requested width')
    for nm, f in (('pascal', pascal), ('snake', snake), ('guard', guard), ('lower', lower), ('indent', indent)):
        s.explore(nm, f, limit=40000)


# names that are different, however alike
NAMESETS = [('gpr', 'gp', 'x_reg'), ('x_reg', 'xReg', 'XReg'), ('x_reg', 'X_REG', 'x__reg'), ('', '_', 'a'), ('a', 'A', 'a_'),
            ('r1', 'r_1', 'r01'), ('a', 'a ', ' a'), ('a[0]', 'a', 'a[1]'), ('a.b', 'a/b', 'a_b'),
            ('long_resource_name_0', 'long_resource_name_1', 'long_resource_name_')]


def run_res(s):
    """the factory registers each name once and owns what it made"""
    depth = 5 if s.thorough else 4

    def f(c):
        fac = c.new(N + 'ResourceFactory')
        ns = NAMESETS[c.choose(*range(len(NAMESETS)))]
        names = [StrV(x) for x in ns]
        made = {}
        for i in range(depth if ns is NAMESETS[0] else 3):
            op = c.choose('stop', 'create', 'get')
            if op == 'stop':
                break
            k = c.choose(0, 1, 2)
            n = names[k]
            if op == 'create':
                r = c.val(c.call(fac, 'CreateResource', n))
                ok = r.st.code == 0
                c.check(ok == (k not in made), 'create-status', 'creating %s' % ('an existing name succeeds' if k in made else 'a new name fails'))
                if not ok:
                    c.check(r.st.code == 6, 'create-code', 'a duplicate is reported as already existing (status code %s)' % r.st.code)
                if ok:
                    o = c.val(r.v).t
                    if k not in made:
                        c.check(all(o is not x for x in made.values()), 'create-distinct', 'a new name gets a new resource')
                        made[k] = o
            else:
                p = c.val(c.call(fac, 'GetOrInsertResource', n))
                c.check(not p.isnull, 'get-found', 'looking a name up always yields a resource')
                if p.isnull:
                    return
                if k in made:
                    c.check(p.t is made[k], 'get-same', 'looking a registered name up yields the registered resource')
                else:
                    c.check(all(p.t is not x for x in made.values()), 'get-distinct', 'a new name gets a new resource')
                    made[k] = p.t
            for j, o in made.items():
                c.check(o.alive, 'alive', 'resources live as long as the factory')
                c.check(lib.keq(c.I, c.val(c.call(o, 'name')), names[j]), 'name', 'a resource keeps its name')
            ents = c.val(c.call(fac, 'resource_map')).ents
            c.check(len(ents) == len(made), 'map-size', 'the registry has one entry per name')
            for e in ents:
                js = [j for j, o in made.items() if c.val(e[1]).t is o]
                c.check(len(js) == 1 and lib.keq(c.I, c.val(e[0]), names[js[0]]), 'map-entry', 'the registry lists each resource under its name')
        for j, o in made.items():
            c.eq(c.call(o, 'is_simple'), True, 'default-simple', 'resources start simple')
            c.eq(c.call(o, 'is_multi_valued'), False, 'default-multi', 'resources start single valued')
            c.eq(c.call(o, 'is_array'), False, 'default-array', 'resources start non-array')
            a, b, d = c.sym('a', 1), c.sym('b', 1), c.sym('d', 1)
            c.call(o, 'set_is_simple', a)
            c.call(o, 'set_is_multi_valued', b)
            c.call(o, 'set_is_array', d)
            c.eq(c.call(o, 'is_simple'), a, 'simple', 'simple flag')
            c.eq(c.call(o, 'is_multi_valued'), b, 'multi', 'multi-valued flag')
            c.eq(c.call(o, 'is_array'), d, 'array', 'array flag')
            if ns[j] == 'x_reg':
                c.check(lib.keq(c.I, c.val(c.call(o, 'pascal_name')), StrV('XReg')), 'pascal-name', 'Pascal case name')
        c.delete(fac)
        for o in made.values():
            c.check(not o.alive, 'freed', 'the factory frees its resources')
        c.check(not c.leaks(), 'leak', 'the factory frees everything')

    def many(c):
        """many resources: each name keeps its own"""
        fac = c.new(N + 'ResourceFactory')
        made = []
        for i in range(300):
            n = StrV('r%d' % i)
            if i % 2:
                made.append(c.val(c.call(fac, 'GetOrInsertResource', n)).t)
            else:
                r = c.val(c.call(fac, 'CreateResource', n))
                c.check(r.st.code == 0, 'many-create', 'creating %r' % n)
                made.append(c.val(r.v).t)
        c.check(len({id(o) for o in made}) == 300, 'many-distinct', '300 names have 300 resources')
        for i, o in enumerate(made):
            c.check(c.val(c.call(fac, 'GetOrInsertResource', StrV('r%d' % i))).t is o, 'many-same', 'looking r%d up again yields its resource' % i)
            c.check(lib.keq(c.I, c.val(c.call(o, 'name')), StrV('r%d' % i)), 'many-name', 'name of resource r%d' % i)
        c.delete(fac)
        c.check(not c.leaks(), 'leak', 'the factory frees everything')
    s.explore('registry', f, limit=60000)
    s.explore('many', many)


PROPS = {
    'P15': dict(sources=SRC, run=run_names, rule='per-character provenance of the formatted names for every ASCII string up to length 5 (6 thorough)'),
    'P16': dict(sources=SRC, run=run_res, rule='registry and ownership typestate over create/look-up histories with symbolic distinct names'),
}
