"""Program errors: the masked/unmasked bookkeeping of the error controller."""
from terms import *
from values import *
import itertools
import lib
from rules.util import text

INTERNAL = 'internal_simulator_error'


def strlist(c, v):
    v = c.val(v)
    return [c.val(x) for x in v.items]


def eq_multiset(c, got, want, oid, msg):
    got = strlist(c, got)
    ok = len(got) == len(want)
    rest = list(got)
    for w in want:
        for g in rest:
            if g.pieces == w.pieces:
                rest.remove(g)
                break
        else:
            ok = False
    c.check(ok, oid, '%s: reported %r, required %r' % (msg, got, want))


class Model(object):
    def __init__(self, c, names):
        self.c = c
        self.n = {StrV(INTERNAL).pieces: [False, False, []]}  # masked, active, messages
        self.s = {StrV(INTERNAL).pieces: StrV(INTERNAL)}
        self.loose = False   # internal error has simulator chosen message texts

    def add(self, n):
        if n.pieces in self.n:
            self.internal()
            return False
        self.n[n.pieces] = [False, False, []]
        self.s[n.pieces] = n
        return True

    def internal(self):
        e = self.n[StrV(INTERNAL).pieces]
        e[1] = True
        e[2].append(None)

    def raise_(self, n, m):
        e = self.n.get(n.pieces)
        if e is None:
            return self.internal()
        e[1] = True
        e[2].append(m)

    def clear(self, n):
        e = self.n.get(n.pieces)
        if e is None:
            return self.internal()
        e[1] = False
        e[2] = []

    def clearall(self):
        for e in self.n.values():
            e[1], e[2] = False, []

    def mask(self, n, v):
        e = self.n.get(n.pieces)
        if v and n.pieces == StrV(INTERNAL).pieces:
            return self.internal()
        if e is None:
            return self.internal()
        e[0] = v


def observe(c, ctl, m, step):
    act = [k for k, e in m.n.items() if e[1]]
    mk = [k for k in act if m.n[k][0]]
    um = [k for k in act if not m.n[k][0]]
    c.eq(c.call(ctl, 'HasError'), bool(act), 'has-error', 'after %s: HasError' % step)
    c.eq(c.call(ctl, 'HasMaskedError'), bool(mk), 'has-masked', 'after %s: HasMaskedError' % step)
    c.eq(c.call(ctl, 'HasUnmaskedError'), bool(um), 'has-unmasked', 'after %s: HasUnmaskedError' % step)
    eq_multiset(c, c.call(ctl, 'GetMaskedErrorNames'), [m.s[k] for k in mk], 'masked-names', 'after %s' % step)
    eq_multiset(c, c.call(ctl, 'GetUnmaskedErrorNames'), [m.s[k] for k in um], 'unmasked-names', 'after %s' % step)
    for k, e in m.n.items():
        c.eq(c.call(ctl, 'HasProgramErrorName', m.s[k]), True, 'registered', 'after %s: name known' % step)
        c.eq(c.call(ctl, 'IsMasked', m.s[k]), e[0], 'is-masked', 'after %s: IsMasked(%r)' % (step, m.s[k]))
        got = strlist(c, c.call(ctl, 'GetErrorMessages', m.s[k]))
        ok = len(got) == len(e[2]) and all(w is None or g.pieces == w.pieces for g, w in zip(got, e[2]))
        c.check(ok, 'messages', 'after %s: messages of %r are %r, required %r' % (step, m.s[k], got, e[2]))


MANY = 300
# names that are different, however alike
ALIKE = [('overflow', 'Overflow', 'OVERFLOW'), ('a', '', 'b'), ('', 'a', 'aa'), ('err', 'err1', 'er'), ('e_1', 'e1', 'e-1'), ('x ', 'x', ' x'),
         ('internal_error', INTERNAL + '_', INTERNAL[:-1]), ('long_program_error_name_1', 'long_program_error_name_2', 'long_program_error_name_')]


def run(s):
    A, B, U = 'A', 'B', 'unknown'

    def ops():
        o = [('clearall', None)]
        for n in (A, B, U, INTERNAL):
            o += [('raise', n), ('clear', n), ('mask', n), ('unmask', n)]
        o += [('add', A), ('handle', A), ('handle', U)]
        return o

    def root(hist, reg, alike=None):
        def f(c):
            ctl = c.new('ProgramErrorController', c.string('ctl'))
            names = {A: c.string('nameA'), B: c.string('nameB'), U: c.string('nameU'), INTERNAL: StrV(INTERNAL)}
            if alike:
                names.update(zip((A, B, U), [StrV(x) for x in alike]))
            # the names are arbitrary but different from each other
            for x, y in itertools.combinations(names.values(), 2):
                c.assume(lnot(lib.keq(c.I, x, y)))
            m = Model(c, names)
            c.eq(c.call(ctl, 'HasProgramErrorName', names[A]), False, 'unregistered', 'fresh controller')
            for n in reg:
                c.eq(c.call(ctl, 'AddProgramErrorName', names[n]), m.add(names[n]), 'add', 'registration of %s' % n)
            observe(c, ctl, m, 'registration')
            done = []
            for i, (op, n) in enumerate(hist):
                done.append('%s %s' % (op, n or ''))
                step = '; '.join(done)
                msg = StrV(('m', 'm', '', 'm ')[i]) if alike else c.string('msg%d' % i)
                if op == 'raise':
                    c.call(ctl, 'Raise', names[n], msg)
                    m.raise_(names[n], msg)
                elif op == 'clear':
                    c.call(ctl, 'Clear', names[n])
                    m.clear(names[n])
                elif op == 'clearall':
                    c.call(ctl, 'ClearAll')
                    m.clearall()
                elif op in ('mask', 'unmask'):
                    c.call(ctl, 'Mask' if op == 'mask' else 'Unmask', names[n])
                    m.mask(names[n], op == 'mask')
                elif op == 'add':
                    c.eq(c.call(ctl, 'AddProgramErrorName', names[n]), m.add(names[n]), 'add', 'registration after %s' % step)
                elif op == 'ismasked':
                    e = m.n.get(names[n].pieces)
                    c.eq(c.call(ctl, 'IsMasked', names[n]), bool(e and e[0]), 'is-masked', 'IsMasked of %s' % n)
                    if e is None:
                        m.internal()
                elif op == 'messages':
                    if names[n].pieces not in m.n:
                        m.internal()
                    c.call(ctl, 'GetErrorMessages', names[n])
                elif op == 'handle':
                    h = c.val(c.call(ctl, 'GetProgramError', names[n])).p
                    known = names[n].pieces in m.n
                    c.check(bool(h.isnull) != known, 'handle', 'a handle exists exactly for registered names')
                    if known and not h.isnull:
                        c.call(h, 'Raise', msg)
                        m.raise_(names[n], msg)
                        c.delete(h)
                observe(c, ctl, m, step)
            c.eq(c.call(ctl, 'HasProgramErrorName', names[U]), False, 'unregistered', 'unknown name')
            c.delete(ctl)
            c.check(not c.leaks(), 'leaks', 'controller storage released')
        return f

    def many(c):
        """many error names and many messages: none is confused with another"""
        ctl = c.new('ProgramErrorController', StrV('ctl'))
        names = [StrV('error_%d' % i) for i in range(MANY)]
        for n in names:
            c.eq(c.call(ctl, 'AddProgramErrorName', n), True, 'add', 'registration of %r' % n)
        c.eq(c.call(ctl, 'HasError'), False, 'has-error', 'nothing raised among %d errors' % MANY)
        some = [0, 1, 127, 128, 254, 255, 256, 257, MANY - 1]
        a, b = [names[i] for i in c.choose(*[(i, j) for i in some for j in some if i != j])]
        c.call(ctl, 'Mask', b)
        for n, k in ((a, 3), (b, 2)):
            for i in range(k):
                c.call(ctl, 'Raise', n, StrV('%s message %d' % (text(n), i)))
        eq_multiset(c, c.call(ctl, 'GetUnmaskedErrorNames'), [a], 'unmasked-names', 'one of %d errors raised' % MANY)
        eq_multiset(c, c.call(ctl, 'GetMaskedErrorNames'), [b], 'masked-names', 'one of %d errors raised while masked' % MANY)
        for n, k in ((a, 3), (b, 2)):
            got = [g.pieces for g in strlist(c, c.call(ctl, 'GetErrorMessages', n))]
            c.check(got == [StrV('%s message %d' % (text(n), i)).pieces for i in range(k)], 'messages', 'messages of %r are %r' % (n, got))
        c.call(ctl, 'Clear', a)
        eq_multiset(c, c.call(ctl, 'GetUnmaskedErrorNames'), [], 'unmasked-names', 'after clearing %r' % a)
        eq_multiset(c, c.call(ctl, 'GetMaskedErrorNames'), [b], 'masked-names', 'after clearing %r' % a)
        c.call(ctl, 'Unmask', b)
        eq_multiset(c, c.call(ctl, 'GetUnmaskedErrorNames'), [b], 'unmasked-names', 'after unmasking %r' % b)

    def manymsg(c):
        """every message is kept, in order"""
        ctl = c.new('ProgramErrorController', StrV('ctl'))
        n = c.string('nameA')
        c.assume(lnot(lib.keq(c.I, n, StrV(INTERNAL))))
        c.call(ctl, 'AddProgramErrorName', n)
        if c.choose(False, True):
            c.call(ctl, 'Mask', n)
        msgs = []
        for i in range(MANY):
            msgs.append(StrV('') if i in (0, 5) else c.string('msg%d' % (i % 7)))
            c.call(ctl, 'Raise', n, msgs[-1])
        got = [g.pieces for g in strlist(c, c.call(ctl, 'GetErrorMessages', n))]
        c.check(got == [m.pieces for m in msgs], 'all-messages', '%d messages were raised, %d are kept in order' % (len(msgs), len(got)))
    s.explore('many-errors', many)
    s.explore('many-messages', manymsg)
    every = ops()
    asks = [('ismasked', U), ('messages', U), ('ismasked', A), ('messages', INTERNAL)]
    hs = [[a] for a in asks] + [[a, b] for a in every for b in asks] + [[a, b] for a in asks for b in every]
    hs += [[]] + [[a] for a in every] + [[a, b] for a in every for b in every]
    # every pair of operations from every bookkeeping state of one error
    pre = [[('mask', A), ('raise', A)], [('raise', A), ('raise', B), ('mask', A)], [('mask', A), ('mask', B), ('raise', A), ('raise', B)],
           [('mask', A), ('raise', A), ('unmask', A), ('raise', A)], [('raise', B), ('raise', A), ('mask', B), ('raise', B)]]
    hs += [p + [a] for p in pre for a in every]
    hs += [[a, b, d] for a in every for b in every for d in every]
    hs += [p + [a, b] for p in pre for a in every for b in every]
    if s.thorough:
        core = [('clearall', None)] + [(o, n) for n in (A, B) for o in ('raise', 'clear', 'mask', 'unmask')]
        hs += [list(h) for h in itertools.product(core, repeat=4)]
        hs += [p + list(h) for p in pre for h in itertools.product(core, repeat=3)]
    for h in hs:
        s.explore('history', root(h, [A, B]), limit=200)
    for al in ALIKE:
        for h in ([('raise', A), ('mask', B), ('raise', B), ('raise', U)], [('raise', B), ('clear', A), ('unmask', A), ('handle', A)],
                  [('mask', A), ('raise', B), ('handle', U), ('clear', U)], [('raise', A), ('raise', B), ('clear', B), ('mask', U)]):
            s.explore('alike-names', root(h, [A, B], al), limit=200)
    s.explore('history-unregistered', root([('raise', A), ('add', A), ('raise', A), ('mask', A)], [B]), limit=200)


PROPS = {
    'P07': dict(sources=['mpact/sim/generic/program_error.cc'], run=run,
                rule='for every bounded history of public operations on symbolic, pairwise distinct error names the reported sets, masks and messages equal those of the reference bookkeeping'),
}
