"""Canonical value domain of the analyser.

A value is a hash-consed term of a fixed bit width.  Three sub-domains are kept
in normal form, so that two expressions that compute the same value normally
are the same Python object:
  * linear combinations modulo 2^w            (op 'lin')
  * bit-provenance vectors                    (op 'bits', 'zext', 'sext', 'trunc')
  * boolean literals and conjunctions of them (op 'andb')
Everything else is an uninterpreted application.
"""
import random

_tab = {}


class T(object):
    __slots__ = ('op', 'a', 'w', 'top', 'n')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.n < o.n


def mk(op, a, w):
    key = (op, a, w)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.w = op, a, w
        t.n = len(_tab)
        t.top = (op == 's' and a[0].startswith('top!')) or _anytop(a)
        _tab[key] = t
    return t


def _anytop(a):
    for x in a:
        if isinstance(x, T):
            if x.top:
                return True
        elif isinstance(x, tuple):
            if _anytop(x):
                return True
    return False


def mask(w):
    return (1 << w) - 1


def const(v, w):
    return mk('c', (v & mask(w),), w)


TRUE = const(1, 1)
FALSE = const(0, 1)


def boolc(b):
    return TRUE if b else FALSE


def sym(name, w):
    return mk('s', (name,), w)


def isc(t):
    return t.op == 'c'


def cval(t):
    return t.a[0]


def sval(t):
    v = t.a[0]
    return v - (1 << t.w) if v >> (t.w - 1) else v


def show(t):
    op, a = t.op, t.a
    if op == 'c':
        if t.w == 1:
            return 'true' if a[0] else 'false'
        v = a[0]
        s = sval(t)
        return str(s) if -4096 < s < 0 else (str(v) if v < 4096 else hex(v))
    if op == 's':
        return a[0]
    if op == 'lin':
        parts = []
        for (x, c) in a[1]:
            sc = c - (1 << t.w) if c >> (t.w - 1) else c
            parts.append(show(x) if sc == 1 else '%d*%s' % (sc, show(x)))
        s = a[0] - (1 << t.w) if a[0] >> (t.w - 1) else a[0]
        if s:
            parts.append(str(s))
        return '(' + ' + '.join(parts) + ')'
    if op == 'bits':
        return 'bits' + str(t.w) + '[' + ','.join(show(x) for x in reversed(a)) + ']'
    if op == 'bit':
        return '%s.%d' % (show(a[0]), a[1])
    if op == 'andb':
        return '(' + ' & '.join(show(x) for x in a) + ')'
    if op == 'not':
        return '!' + show(a[0])
    if op in ('eq', 'ult', 'slt'):
        s = {'eq': '==', 'ult': '<u', 'slt': '<s'}[op]
        return '(%s %s %s)' % (show(a[0]), s, show(a[1]))
    if op in ('zext', 'sext', 'trunc'):
        return '%s%d(%s)' % (op, t.w, show(a[0]))
    return '%s(%s)' % (op, ', '.join(show(x) if isinstance(x, T) else str(x) for x in a))


# ---------------------------------------------------------------- linear
def _lin(c, terms, w):
    """terms: dict atom->coef"""
    m = mask(w)
    c &= m
    items = sorted(((t, k & m) for t, k in terms.items() if k & m), key=lambda p: p[0].n)
    if not items:
        return const(c, w)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk('lin', (c, tuple(items)), w)


def _tolin(t):
    if t.op == 'c':
        return t.a[0], {}
    if t.op == 'lin':
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def add(x, y):
    if x.w != y.w:
        raise ValueError('width %s %s' % (x, y))
    c1, d1 = _tolin(x)
    c2, d2 = _tolin(y)
    for k, v in d2.items():
        d1[k] = d1.get(k, 0) + v
    return _lin(c1 + c2, d1, x.w)


def neg(x):
    c, d = _tolin(x)
    return _lin(-c, {k: -v for k, v in d.items()}, x.w)


def sub(x, y):
    return add(x, neg(y))


def mul(x, y):
    w = x.w
    if isc(y):
        x, y = y, x
    if isc(x):
        c, d = _tolin(y)
        k = cval(x)
        return _lin(c * k, {t: v * k for t, v in d.items()}, w)
    # distribute over linear forms
    if x.op == 'lin' or y.op == 'lin':
        cx, dx = _tolin(x)
        cy, dy = _tolin(y)
        if len(dx) * len(dy) <= 16:
            out = {}
            for a, ka in dx.items():
                for b, kb in dy.items():
                    p = _mulatom(a, b, w)
                    out[p] = out.get(p, 0) + ka * kb
            for a, ka in dx.items():
                out[a] = out.get(a, 0) + ka * cy
            for b, kb in dy.items():
                out[b] = out.get(b, 0) + kb * cx
            return _lin(cx * cy, out, w)
    return _mulatom(x, y, w)


def _mulatom(a, b, w):
    fs = []
    for t in (a, b):
        if t.op == 'mul':
            fs.extend(t.a)
        else:
            fs.append(t)
    fs.sort(key=lambda t: t.n)
    return mk('mul', tuple(fs), w)


def _pow2(v):
    return v > 0 and v & (v - 1) == 0


def udiv(x, y):
    if isc(y):
        v = cval(y)
        if v == 0:
            return mk('uf', ('udiv0', x), x.w)
        if isc(x):
            return const(cval(x) // v, x.w)
        if v == 1:
            return x
        if _pow2(v):
            return lshr(x, const(v.bit_length() - 1, x.w))
    if isc(x) and cval(x) == 0:
        return x
    return mk('udiv', (x, y), x.w)


def urem(x, y):
    if isc(y):
        v = cval(y)
        if v == 0:
            return mk('uf', ('urem0', x), x.w)
        if isc(x):
            return const(cval(x) % v, x.w)
        if _pow2(v):
            return band(x, const(v - 1, x.w))
    return mk('urem', (x, y), x.w)


def sdiv(x, y):
    if isc(y) and isc(x) and cval(y):
        a, b = sval(x), sval(y)
        q = abs(a) // abs(b)
        return const(q if (a < 0) == (b < 0) else -q, x.w)
    if isc(y) and cval(y) == 1:
        return x
    if x.op == 'zext' and isc(y) and sval(y) > 0:
        return udiv(x, y)
    return mk('sdiv', (x, y), x.w)


def srem(x, y):
    if isc(y) and isc(x) and cval(y):
        a, b = sval(x), sval(y)
        r = abs(a) % abs(b)
        return const(-r if a < 0 else r, x.w)
    if x.op == 'zext' and isc(y) and sval(y) > 0:
        return urem(x, y)
    return mk('srem', (x, y), x.w)


# ---------------------------------------------------------------- bits
def bit(t, i):
    op = t.op
    if op == 'c':
        return boolc((t.a[0] >> i) & 1)
    if t.w == 1:
        return t
    if op == 'bits':
        return t.a[i]
    if op == 'zext':
        return bit(t.a[0], i) if i < t.a[0].w else FALSE
    if op == 'sext':
        return bit(t.a[0], min(i, t.a[0].w - 1))
    if op == 'trunc':
        return bit(t.a[0], i)
    if op == 'cat':
        pass
    return mk('bit', (t, i), 1)


def frombits(bs):
    w = len(bs)
    if w == 1:
        return bs[0]
    if all(isc(b) for b in bs):
        v = 0
        for i, b in enumerate(bs):
            v |= cval(b) << i
        return const(v, w)
    b0 = bs[0]
    base = None
    if b0.op == 'bit' and b0.a[1] == 0:
        base = b0.a[0]
        bw = base.w
        k = 0
        while k < w and k < bw and bs[k].op == 'bit' and bs[k].a[0] is base and bs[k].a[1] == k:
            k += 1
        if k == w:
            return base if bw == w else mk('trunc', (base,), w)
        if k == bw or (k > 1 and k < bw):
            rest = bs[k:]
            low = base if k == bw else mk('trunc', (base,), k)
            if all(r is FALSE for r in rest):
                return mk('zext', (low,), w)
            if all(r is bs[k - 1] for r in rest):
                return mk('sext', (low,), w)
    elif not isc(b0) and all(r is FALSE for r in bs[1:]):
        return mk('zext', (b0,), w)
    # low sub-vector zero extended
    if bs[-1] is FALSE:
        k = w
        while k > 0 and bs[k - 1] is FALSE:
            k -= 1
        return mk('zext', (frombits(bs[:k]),), w) if k < w else mk('bits', tuple(bs), w)
    return mk('bits', tuple(bs), w)


def _bl(t):
    return [bit(t, i) for i in range(t.w)]


def trunc(t, w):
    if w == t.w:
        return t
    if isc(t):
        return const(cval(t), w)
    if t.op in ('zext', 'sext'):
        u = t.a[0]
        if w <= u.w:
            return trunc(u, w)
        return (zext if t.op == 'zext' else sext)(u, w)
    if t.op == 'lin':
        return _linsum(t, w)
    if t.op == 'mul':
        r = trunc(t.a[0], w)
        for f in t.a[1:]:
            r = mul(r, trunc(f, w))
        return r
    if t.op == 'trunc':
        return trunc(t.a[0], w)
    if w == 1:
        return bit(t, 0)
    return frombits([bit(t, i) for i in range(w)])


def _linsum(t, w):
    r = const(t.a[0], w)
    for x, c in t.a[1]:
        r = add(r, mul(const(c, w), trunc(x, w)))
    return r


def zext(t, w):
    if w == t.w:
        return t
    if isc(t):
        return const(cval(t), w)
    if t.op == 'zext':
        return zext(t.a[0], w)
    return mk('zext', (t,), w)


def sext(t, w):
    if w == t.w:
        return t
    if isc(t):
        return const(sval(t), w)
    if t.op == 'sext':
        return sext(t.a[0], w)
    if t.op == 'zext':
        return zext(t.a[0], w)
    return mk('sext', (t,), w)


def _bitsy(t):
    return t.op in ('bits', 'zext', 'sext', 'trunc', 'c')


def _zbits(t):
    """number of leading known-zero bits"""
    if t.op == 'zext':
        return t.w - t.a[0].w
    if isc(t):
        return t.w - cval(t).bit_length()
    return 0


def _bw(op, x, y):
    w = x.w
    if isc(x) and isc(y):
        a, b = cval(x), cval(y)
        return const(a & b if op == 'and' else a | b if op == 'or' else a ^ b, w)
    if w == 1:
        return {'and': land, 'or': lor, 'xor': lxor}[op](x, y)
    if x is y:
        return x if op in ('and', 'or') else const(0, w)
    if isc(x):
        x, y = y, x
    if isc(y):
        v = cval(y)
        if op == 'and':
            if v == 0:
                return y
            if v == mask(w):
                return x
            if (v & (v + 1)) == 0:  # low mask
                return zext(trunc(x, v.bit_length()), w)
        elif v == 0:
            return x
        elif op == 'or' and v == mask(w):
            return y
        return frombits([{'and': land, 'or': lor, 'xor': lxor}[op](bit(x, i), bit(y, i)) for i in range(w)])
    if _bitsy(x) and _bitsy(y):
        xb, yb = _bl(x), _bl(y)
        # exact when at each position one side is constant or both are equal
        if all(isc(p) or isc(q) or p is q for p, q in zip(xb, yb)):
            return frombits([{'and': land, 'or': lor, 'xor': lxor}[op](p, q) for p, q in zip(xb, yb)])
        if x.op == 'bits' or y.op == 'bits' or min(_zbits(x), _zbits(y)) > 0:
            k = w - min(_zbits(x), _zbits(y))
            if k <= 16 or x.op == 'bits' or y.op == 'bits':
                return frombits([{'and': land, 'or': lor, 'xor': lxor}[op](p, q) for p, q in zip(xb, yb)])
    fs = []
    for t in (x, y):
        if t.op == op:
            fs.extend(t.a)
        else:
            fs.append(t)
    if op in ('and', 'or'):
        fs = sorted(set(fs), key=lambda t: t.n)
    else:
        cnt = {}
        for f in fs:
            cnt[f] = cnt.get(f, 0) ^ 1
        fs = sorted((f for f in cnt if cnt[f]), key=lambda t: t.n)
        if not fs:
            return const(0, w)
    if len(fs) == 1:
        return fs[0]
    return mk(op, tuple(fs), w)


def band(x, y):
    return _bw('and', x, y)


def bor(x, y):
    return _bw('or', x, y)


def bxor(x, y):
    return _bw('xor', x, y)


def bnot(x):
    # ~x == -x - 1
    if x.w == 1:
        return lnot(x)
    if _bitsy(x) and not isc(x):
        return frombits([lnot(b) for b in _bl(x)])
    return sub(neg(x), const(1, x.w))


def shl(x, y):
    if isc(y):
        n = cval(y)
        if n >= x.w:
            return mk('uf', ('shl_oob', x, y), x.w)
        if n == 0:
            return x
        if isc(x):
            return const(cval(x) << n, x.w)
        if x.op in ('lin', 'mul'):
            return mul(x, const(1 << n, x.w))
        return frombits([FALSE] * n + [bit(x, i) for i in range(x.w - n)])
    if isc(x) and cval(x) == 0:
        return x
    return mk('shl', (x, y), x.w)


def lshr(x, y):
    if isc(y):
        n = cval(y)
        if n >= x.w:
            return mk('uf', ('lshr_oob', x, y), x.w)
        if n == 0:
            return x
        if isc(x):
            return const(cval(x) >> n, x.w)
        return frombits([bit(x, i) for i in range(n, x.w)] + [FALSE] * n)
    if isc(x) and cval(x) == 0:
        return x
    return mk('lshr', (x, y), x.w)


def ashr(x, y):
    if isc(y):
        n = cval(y)
        if n >= x.w:
            return mk('uf', ('ashr_oob', x, y), x.w)
        if n == 0:
            return x
        if isc(x):
            return const(sval(x) >> n, x.w)
        s = bit(x, x.w - 1)
        return frombits([bit(x, i) for i in range(n, x.w)] + [s] * n)
    return mk('ashr', (x, y), x.w)


# ---------------------------------------------------------------- booleans
def lnot(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x.op == 'not':
        return x.a[0]
    return mk('not', (x,), 1)


def land(*xs):
    fs = set()
    for x in xs:
        if x.op == 'andb':
            fs.update(x.a)
        else:
            fs.add(x)
    fs.discard(TRUE)
    if FALSE in fs:
        return FALSE
    for f in fs:
        if lnot(f) in fs:
            return FALSE
    if len(fs) > 1:
        for f in [f for f in fs if f.op == 'not' and f.a[0].op == 'andb']:
            # a disjunction one of whose terms is a conjunct
            if any(lnot(l) in fs for l in f.a[0].a):
                fs.discard(f)
    if not fs:
        return TRUE
    if len(fs) == 1:
        return next(iter(fs))
    return mk('andb', tuple(sorted(fs, key=lambda t: t.n)), 1)


def lor(*xs):
    return lnot(land(*[lnot(x) for x in xs]))


def lxor(x, y):
    if isc(x):
        return lnot(y) if cval(x) else y
    if isc(y):
        return lnot(x) if cval(y) else x
    if x is y:
        return FALSE
    n = 0
    if x.op == 'not':
        x = x.a[0]
        n ^= 1
    if y.op == 'not':
        y = y.a[0]
        n ^= 1
    if x is y:
        return boolc(n)
    if y.n < x.n:
        x, y = y, x
    r = mk('xorb', (x, y), 1)
    return lnot(r) if n else r


_BWOPS = ('and', 'or', 'xor')


def _deep(t):
    """bits of t, through bitwise operations"""
    if t.op in _BWOPS:
        f = {'and': land, 'or': lor, 'xor': lxor}[t.op]
        r = _deep(t.a[0])
        for u in t.a[1:]:
            r = [f(p, q) for p, q in zip(r, _deep(u))]
        return r
    return _bl(t)


def eq(x, y):
    if x is y:
        return TRUE
    if x.w != y.w:
        raise ValueError('eq width %s %s' % (x, y))
    if isc(x) and isc(y):
        return FALSE
    if x.w == 1:
        return lnot(lxor(x, y))
    if isc(x):
        x, y = y, x
    if isc(y):
        v = cval(y)
        if x.op == 'zext':
            u = x.a[0]
            if v >> u.w:
                return FALSE
            return eq(u, const(v, u.w))
        if x.op == 'sext':
            u = x.a[0]
            if cval(sext(const(v, u.w), x.w)) != v:
                return FALSE
            return eq(u, const(v, u.w))
        if x.op == 'bits':
            return land(*[b if (v >> i) & 1 else lnot(b) for i, b in enumerate(x.a)])
        if x.op == 'trunc':
            return land(*[b if (v >> i) & 1 else lnot(b) for i, b in enumerate(_bl(x))])
    else:
        if x.op == 'zext' and y.op == 'zext':
            a, b = x.a[0], y.a[0]
            k = max(a.w, b.w)
            if k < x.w:
                return eq(zext(a, k), zext(b, k))
        if x.op == 'sext' and y.op == 'sext':
            a, b = x.a[0], y.a[0]
            k = max(a.w, b.w)
            if k < x.w:
                return eq(sext(a, k), sext(b, k))
        if (x.op in _BWOPS or y.op in _BWOPS) and x.op in _BWOPS + ('bits',) and y.op in _BWOPS + ('bits',):
            if all(p is q for p, q in zip(_deep(x), _deep(y))):
                return TRUE
    d = sub(x, y)
    if isc(d):
        return FALSE if cval(d) else TRUE
    # canonical: d == 0 as (nonconst part == const)
    c, items = _tolin(d)
    if len(items) == 1:
        (t, k), = items.items()
        w = x.w
        if k & 1:
            inv = pow(k, -1, 1 << w)
            v = const(-c * inv, w)
            if t.op in ('zext', 'sext', 'bits', 'trunc') and not (t is x and y is v):
                return eq(t, v)
            return mk('eq', (t, v), 1)
        sh = (k & -k).bit_length() - 1
        if (-c) & ((1 << sh) - 1):
            return FALSE
        if t.op in ('zext', 'bits') and sh < w:
            w2 = w - sh
            return eq(trunc(t, w2), const(((-c & mask(w)) >> sh) * pow(k >> sh, -1, 1 << w2), w2))
    first = min(items, key=lambda t: t.n)
    k = items[first]
    if k >> (x.w - 1):
        c, items = -c, {t: -v for t, v in items.items()}
    return mk('eq', (_lin(0, items, x.w), const(-c, x.w)), 1)


def ult(x, y):
    if x is y:
        return FALSE
    if isc(x) and isc(y):
        return boolc(cval(x) < cval(y))
    if isc(y):
        v = cval(y)
        if v == 0:
            return FALSE
        if v == 1:
            return eq(x, const(0, x.w))
        if x.op == 'zext':
            u = x.a[0]
            if v >= (1 << u.w):
                return TRUE
            return ult(u, const(v, u.w))
        if x.op == 'sext':
            u = x.a[0]
            half = 1 << (u.w - 1)
            top = (1 << x.w) - half
            if v <= half:
                return ult(u, const(v, u.w))
            if v <= top:
                return lnot(bit(u, u.w - 1))
            return ult(u, const(v - (1 << x.w) + (1 << u.w), u.w))
        if x.op in ('bits', 'trunc') and x.w > 1:
            # against a mask of top bits: all those bits set (and, for mask + 1, some lower one)
            for c in (v, v - 1):
                low = mask(x.w) & ~c
                if low and low & (low + 1) == 0 and c:
                    k = low.bit_length()
                    bs = _bl(x)
                    hi = land(*bs[k:])
                    return lnot(hi) if c == v else lnot(land(hi, lor(*bs[:k])))
    if isc(x):
        v = cval(x)
        if v == mask(x.w):
            return FALSE
        if v == 0:
            return lnot(eq(y, x))
        if y.op == 'zext':
            u = y.a[0]
            if v >= mask(u.w):
                return FALSE
            return ult(const(v, u.w), u)
        # c < y  <=>  !(y < c+1)
        return lnot(ult(y, const(v + 1, x.w)))
    if x.op == 'zext' and y.op == 'zext':
        k = max(x.a[0].w, y.a[0].w)
        if k < x.w:
            return ult(zext(x.a[0], k), zext(y.a[0], k))
    return mk('ult', (x, y), 1)


def slt(x, y):
    if x is y:
        return FALSE
    w = x.w
    if isc(x) and isc(y):
        return boolc(sval(x) < sval(y))
    if isc(y):
        v = sval(y)
        if v == -(1 << (w - 1)):
            return FALSE
        if x.op == 'zext':
            if v <= 0:
                return FALSE
            return ult(x, y)
        if x.op == 'sext':
            u = x.a[0]
            if v >= (1 << (u.w - 1)):
                return TRUE
            if v <= -(1 << (u.w - 1)):
                return FALSE
            return slt(u, const(v, u.w))
        if v == 0 and x.op in ('s', 'bits', 'trunc'):
            return bit(x, w - 1)
    if isc(x):
        v = sval(x)
        if v == (1 << (w - 1)) - 1:
            return FALSE
        return lnot(slt(y, const(v + 1, w)))
    if x.op == 'zext' and y.op == 'zext':
        return ult(x, y)
    if x.op == 'sext' and y.op == 'sext':
        k = max(x.a[0].w, y.a[0].w)
        if k < w:
            return slt(sext(x.a[0], k), sext(y.a[0], k))
    if x.op in ('sext', 'zext') and y.op in ('sext', 'zext'):
        k = max(x.a[0].w + 1, y.a[0].w + 1)
        if k < w:
            return slt(trunc(x, k), trunc(y, k))
    # orient by linear difference is unsound with overflow: keep as is
    return mk('slt', (x, y), 1)


def uf(name, args, w):
    return mk('uf', (name,) + tuple(args), w)


# ---------------------------------------------------------------- evaluation
class NoEval(Exception):
    pass


def _s(v, w):
    return v - (1 << w) if v >> (w - 1) else v


UF_EVAL = {}


def ev(t, env):
    """value of t under a valuation of its leaves (used to exhibit witnesses)."""
    key = t
    r = env.get(key)
    if r is not None:
        return r
    op, a, w = t.op, t.a, t.w
    m = mask(w)
    if op == 'c':
        return a[0]
    if op == 's':
        r = env['rng'](t)
    elif op == 'lin':
        r = a[0]
        for x, c in a[1]:
            r += c * ev(x, env)
        r &= m
    elif op == 'mul':
        r = 1
        for x in a:
            r = r * ev(x, env) & m
    elif op == 'bit':
        r = (ev(a[0], env) >> a[1]) & 1
    elif op == 'bits':
        r = 0
        for i, b in enumerate(a):
            r |= ev(b, env) << i
    elif op == 'zext':
        r = ev(a[0], env)
    elif op == 'sext':
        r = _s(ev(a[0], env), a[0].w) & m
    elif op == 'trunc':
        r = ev(a[0], env) & m
    elif op == 'and':
        r = m
        for x in a:
            r &= ev(x, env)
    elif op == 'or':
        r = 0
        for x in a:
            r |= ev(x, env)
    elif op == 'xor':
        r = 0
        for x in a:
            r ^= ev(x, env)
    elif op in ('shl', 'lshr', 'ashr'):
        x, y = ev(a[0], env), ev(a[1], env)
        if y >= w:
            raise NoEval()
        r = (x << y) & m if op == 'shl' else (x >> y if op == 'lshr' else (_s(x, w) >> y) & m)
    elif op in ('udiv', 'urem'):
        x, y = ev(a[0], env), ev(a[1], env)
        if y == 0:
            raise NoEval()
        r = x // y if op == 'udiv' else x % y
    elif op in ('sdiv', 'srem'):
        x, y = _s(ev(a[0], env), w), _s(ev(a[1], env), w)
        if y == 0:
            raise NoEval()
        q = abs(x) // abs(y)
        q = q if (x < 0) == (y < 0) else -q
        r = (q if op == 'sdiv' else x - q * y) & m
    elif op == 'not':
        r = 1 - ev(a[0], env)
    elif op == 'andb':
        r = 1
        for x in a:
            if not ev(x, env):
                r = 0
                break
    elif op == 'xorb':
        r = ev(a[0], env) ^ ev(a[1], env)
    elif op == 'eq':
        r = int(ev(a[0], env) == ev(a[1], env))
    elif op == 'ult':
        r = int(ev(a[0], env) < ev(a[1], env))
    elif op == 'slt':
        r = int(_s(ev(a[0], env), a[0].w) < _s(ev(a[1], env), a[1].w))
    elif op == 'uf':
        f = UF_EVAL.get(a[0])
        args = tuple(ev(x, env) if isinstance(x, T) else x for x in a[1:])
        if f:
            r = f(*args) & m
        else:
            k = ('uf', a[0], args, w)
            r = env.get(k)
            if r is None:
                r = env['rng'](t)
                env[k] = r
    else:
        raise NoEval()
    env[key] = r
    return r


def leaves(t, acc, seen):
    if t in seen:
        return
    seen.add(t)
    if t.op == 's' or t.op == 'uf':
        acc.add(t)
    _walk(t.a, acc, seen)


def _walk(a, acc, seen):
    for x in a:
        if isinstance(x, T):
            leaves(x, acc, seen)
        elif isinstance(x, tuple):
            _walk(x, acc, seen)


def consts_in(t, acc, seen):
    if t in seen:
        return
    seen.add(t)
    if t.op == 'c':
        acc.add((t.a[0], t.w))
    if t.op == 'lin':
        acc.add((t.a[0], t.w))
        acc.add((-t.a[0] & mask(t.w), t.w))
    for x in t.a:
        if isinstance(x, T):
            consts_in(x, acc, seen)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    consts_in(y, acc, seen)
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            consts_in(z, acc, seen)
