"""Helpers shared by the rules."""
from terms import *
from values import *
from rule import AnchorMissing

INTS = [('unsigned char', 8), ('signed char', 8), ('unsigned short', 16), ('short', 16), ('unsigned int', 32), ('int', 32),
        ('unsigned long', 64), ('long', 64)]
SIGNED = {'signed char', 'short', 'int', 'long'}
WIDTH = dict(INTS)


def extract(t, hi, lo):
    return trunc(lshr(t, const(lo, t.w)), hi - lo + 1) if lo else trunc(t, hi + 1)


def concat(hi, lo):
    w = hi.w + lo.w
    return bor(shl(zext(hi, w), const(lo.w, w)), zext(lo, w))


def joinb(bs):
    r = bs[0]
    for b in bs[1:]:
        r = concat(b, r)
    return r


def splitb(v):
    return [extract(v, 8 * i + 7, 8 * i) for i in range(v.w // 8)]


def obj(c, p):
    p = c.val(p)
    if isinstance(p, (UniqueV, SharedV)):
        p = p.p
    return p.t if isinstance(p, Ptr) else p


def ty(c, name):
    t = c.p.types.get(name)
    if t is None:
        raise AnchorMissing('type ' + name)
    return t


def span(c, vals, w, t):
    arr = Arr(list(vals), t, w // 8)
    return SpanV(Ptr(base=arr, off=0), const(len(vals), 64))


def aborts(c, fn, oid, msg):
    """fn must not return: the code rejects the call"""
    try:
        fn()
    except PathEnd as e:
        if e.kind == 'abort':
            c.check(True, oid, '')
            return True
        raise
    c.check(False, oid, msg)
    return False


def text(v):
    """the characters of a constant string"""
    return ''.join(q[1] if q[0] == 'c' else '<%s>' % (q[1],) for q in v.p)


def ok(c, r):
    """whether a status (or the status of a result) is ok; as a term"""
    r = c.val(r)
    if isinstance(r, StatusOrV):
        r = r.st
    code = r.code
    return boolc(code == 0) if isinstance(code, int) else eq(code, const(0, code.w))


def entries(c, m):
    """key/value list of a map (or pointer to one)"""
    m = c.val(m)
    if isinstance(m, Ptr):
        m = c.val(m.t)
    return [(c.val(e[0]), c.val(e[1]) if len(e) > 1 and e[1] is not None else None) for e in m.ents]
