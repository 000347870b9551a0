"""Bit-field extraction recipes, and the C code written for them."""
import re
from rules.util import *
import lib

SRC = ['mpact/sim/decoder/extract.cc']
N = 'mpact::sim::decoder::bin_format::'


def steps(c, recipe):
    """[(mask, shift)] of a recipe value"""
    out = []
    for it in c.val(recipe).items:
        f = {k[1]: c.val(v) for k, v in c.val(it).f.items()}
        out.append((f['mask'], f['shift']))
    return out


def packed(v, bits):
    """the bits of v at the positions, lowest first, packed"""
    w = v.w
    return frombits([bit(v, i) for i in bits] + [boolc(False)] * (w - len(bits)))


def setf(c, r, name, v):
    if not any(f['name'] == name for f in c.p.records[r.cls]['fields']):
        raise AnchorMissing('field %s of %s' % (name, r.cls))
    r.f[(r.cls, name)] = v


class Bad(Exception):
    pass


class CExpr(object):
    """evaluates the C expressions the generator writes (unsigned 64 bit)"""
    TOK = re.compile(r'\s*(0x[0-9a-fA-F]+[uUlL]*|\d+[uUlL]*|[A-Za-z_]\w*|<<|>>|\|=|[()&|=;+-])')

    def __init__(self, text, env):
        self.t, self.i, self.env = [], 0, env
        p = 0
        text = text.strip()
        while p < len(text):
            m = self.TOK.match(text, p)
            if not m:
                raise Bad(text)
            self.t.append(m.group(1))
            p = m.end()

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def take(self, x=None):
        v = self.peek()
        if v is None or (x is not None and v != x):
            raise Bad('expected %r' % x)
        self.i += 1
        return v

    def stmts(self):
        while self.peek() is not None:
            n = self.take()
            if not n[0].isalpha() and n[0] != '_':
                raise Bad(n)
            o = self.take()
            v = self.bor()
            self.take(';')
            if o == '=':
                self.env[n] = v
            elif o == '|=':
                self.env[n] = bor(self.env[n], v)
            else:
                raise Bad(o)

    def bor(self):
        v = self.band()
        while self.peek() == '|':
            self.take()
            v = bor(v, self.band())
        return v

    def band(self):
        v = self.shift()
        while self.peek() == '&':
            self.take()
            v = band(v, self.shift())
        return v

    def shift(self):
        v = self.add()
        while self.peek() in ('<<', '>>'):
            o = self.take()
            r = self.add()
            if not isc(r) or cval(r) >= 64:
                raise Bad('shift count')
            v = shl(v, r) if o == '<<' else lshr(v, r)
        return v

    def add(self):
        v = self.prim()
        while self.peek() in ('+', '-'):
            o = self.take()
            r = self.prim()
            v = add(v, r) if o == '+' else sub(v, r)
        return v

    def prim(self):
        x = self.take()
        if x == '(':
            v = self.bor()
            self.take(')')
            return v
        if x[0].isdigit():
            return const(int(x.rstrip('uUlL'), 0), 64)
        if x not in self.env:
            raise Bad('unknown name %s' % x)
        return self.env[x]


def runs_masks(s):
    """masks as sets of bit positions: every single run and many run pairs/combs"""
    out = [()]
    for i in range(64):
        for j in range(i, 64):
            out.append(tuple(range(i, j + 1)))
    E = [0, 1, 7, 8, 15, 30, 31, 32, 33, 47, 62, 63]
    for a in E:
        for b in E:
            for d in E:
                for e in E:
                    if a <= b < d - 1 and d <= e:
                        out.append(tuple(range(a, b + 1)) + tuple(range(d, e + 1)))
    out.append(tuple(range(0, 64, 2)))
    out.append(tuple(range(1, 64, 2)))
    out.append(tuple(i for i in range(64) if i % 3))
    out.append(tuple(i for i in range(64) if i % 5 in (0, 2)))
    out.append(tuple(i for i in range(64) if i not in (3, 40, 41, 63)))
    return out


def run(s):
    masks = runs_masks(s)
    chunk = 60

    def recipes(ms):
        def f(c):
            bits_ = ms[c.choose(*range(len(ms)))]
            m = sum(1 << i for i in bits_)
            r = c.func(N + 'GetExtractionRecipe', const(m, 64))
            v = c.sym('value', 64)
            c.eq(c.func(N + 'ExtractValue', v, c.val(r)), packed(v, bits_), 'packed', 'extracting the bits 0x%x packs exactly these bits in order' % m)
        return f
    for i in range(0, len(masks), chunk):
        s.explore('recipe', recipes(masks[i:i + chunk]))

    # masks with a window of arbitrary bits (every subset), at several positions
    wid = 9 if s.thorough else 7

    def window(lo, rest):
        def f(c):
            b = [boolc(bool(rest >> i & 1)) for i in range(64)]
            pos = []
            for i in range(64):
                if lo <= i < lo + wid:
                    on = c.choose(False, True)
                    b[i] = boolc(on)
                if cval(b[i]):
                    pos.append(i)
            m = frombits(b)
            r = c.func(N + 'GetExtractionRecipe', m)
            v = c.sym('value', 64)
            c.eq(c.func(N + 'ExtractValue', v, c.val(r)), packed(v, pos), 'packed', 'extracting the bits 0x%x packs exactly these bits in order' % cval(m))
        return f
    for lo in (0, 12, 28, 64 - wid):
        for rest in (0, 0x8000000000000001, 0x0F0F000FF00000F0):
            s.explore('window', window(lo, rest))

    def value(c):
        """a recipe is the disjunction of its steps, for any masks"""
        n = c.choose(0, 1, 2, 3)
        st = []
        v = c.sym('value', 64)
        want = const(0, 64)
        cls = c.cls(N + 'ExtractionStep')
        for i in range(n):
            r = c.construct(cls)
            m = c.sym('mask%d' % i, 64)
            sh = c.choose(0, 1, 13, 32, 63) if i < 2 else 7
            setf(c, r, 'mask', m)
            setf(c, r, 'shift', const(sh, 32))
            st.append(r)
            want = bor(want, band(lshr(v, const(sh, 64)), m))
        got = c.func(N + 'ExtractValue', v, st)
        c.eq(got, want, 'value', 'a recipe extracts the union of its steps')
    s.explore('value', value)

    def text(ms):
        def f(c):
            bits_ = ms[c.choose(*range(len(ms)))]
            m = sum(1 << i for i in bits_)
            r = c.val(c.func(N + 'GetExtractionRecipe', const(m, 64)))
            out = c.val(c.func(N + 'WriteExtraction', r, 'the_word', 'the_result', '    '))
            t = out.const()
            if t is None:
                raise Imprecise('text is not constant')
            v = c.sym('value', 64)
            env = {'the_word': v, 'the_result': c.sym('garbage', 64)}
            try:
                CExpr(t, env).stmts()
            except Bad as e:
                c.check(False, 'text-valid', 'the code written for 0x%x is not valid: %r (%s)' % (m, t, e))
                return
            c.eq(env['the_result'], packed(v, bits_), 'text', 'the code written for the bits 0x%x computes the packed bits' % m)
            c.eq(env['the_word'], v, 'text-input', 'the code written leaves its input alone')
            for l in t.split('\n'):
                c.check(l == '' or l.startswith('    '), 'text-indent', 'each line is indented')
        return f
    tm = [m for m in masks if m]
    tm = tm[::7] + tm[-5:]
    for i in range(0, len(tm), chunk):
        s.explore('text', text(tm[i:i + chunk]))


PROPS = {
    'P14': dict(sources=SRC, run=run, rule='bit provenance of recipe construction, extraction and of the emitted C text for a fully symbolic word'),
}
