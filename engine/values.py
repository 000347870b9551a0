"""Abstract objects of the analyser: records, arrays, containers, strings."""
from terms import *


class Ptr(object):
    """pointer value.  t: object or scalar location; or (base array, byte offset)."""
    __slots__ = ('t', 'null', 'base', 'off', 'undef', 'tag')

    def __init__(self, t=None, null=FALSE, base=None, off=0, undef=False, tag=None):
        self.t, self.null, self.base, self.off, self.undef, self.tag = t, null, base, off, undef, tag

    def __repr__(self):
        if self.null is TRUE:
            return 'nullptr'
        if self.undef:
            return 'uninit-ptr'
        return '&%r' % (self.t if self.base is None else (self.base, self.off),)

    @property
    def isnull(self):
        return self.null is TRUE


NULL = None  # set below


def null():
    return Ptr(None, TRUE)


class Obj(object):
    """base of everything with identity and lifetime"""
    __slots__ = ('alive', 'oid', 'heap', 'site', 'dead_at')
    kind = 'obj'

    def init(self):
        self.alive = True
        self.heap = None
        self.site = None
        self.dead_at = None
        self.oid = 0


class Rec(Obj):
    __slots__ = ('cls', 'f', 'cur', 'opaque', 'tag', 'host', 'built', 'home')
    kind = 'rec'

    def __init__(self, cls):
        self.init()
        self.cls = cls
        self.f = {}
        self.cur = None
        self.opaque = False
        self.tag = None
        self.host = None
        self.built = False
        self.home = None        # the array it was last seen in

    def __repr__(self):
        return '<%s%s>' % (self.cls, ':' + self.tag if self.tag else '')


class Cell(Obj):
    __slots__ = ('v', 'name')
    kind = 'cell'

    def __init__(self, v, name=''):
        self.init()
        self.v, self.name = v, name

    def get(self):
        return self.v

    def set(self, v):
        self.v = v


class FieldLV(object):
    __slots__ = ('r', 'k')
    kind = 'field'

    def __init__(self, r, k):
        self.r, self.k = r, k

    def get(self):
        return self.r.f.get(self.k)

    def set(self, v):
        self.r.f[self.k] = v

    @property
    def alive(self):
        return self.r.alive

    def __repr__(self):
        return '%r.%s' % (self.r, self.k[1])


class DictLV(object):
    """scalar mapped value inside a container"""
    __slots__ = ('e', 'i')
    kind = 'dict'

    def __init__(self, e, i):
        self.e, self.i = e, i

    def get(self):
        return self.e[self.i]

    def set(self, v):
        self.e[self.i] = v

    alive = True


class ElemLV(object):
    __slots__ = ('a', 'i', 'gen')
    kind = 'elem'

    def __init__(self, a, i):
        self.a, self.i = a, i
        self.gen = a.gen

    def sync(self):
        while self.gen != self.a.gen:
            m = getattr(self.a, 'moved', None)
            if m is None or m[0] != self.gen:
                return
            self.a, self.gen = m[1], m[2]

    def get(self):
        if self.gen != self.a.gen:
            self.sync()
        if self.gen != self.a.gen:
            raise PathEnd('ub', 'use of a reference to an element of a vector that has been reallocated', '')
        return self.a.items[self.i]

    def set(self, v):
        if self.gen != self.a.gen:
            self.sync()
        if self.gen != self.a.gen:
            raise PathEnd('ub', 'write through a reference to an element of a vector that has been reallocated', '')
        self.a.items[self.i] = v

    @property
    def alive(self):
        return self.a.alive


class PunLV(object):
    """w bits at byte offset off of array a, viewed with another type"""
    __slots__ = ('a', 'off', 'w', 'ty')
    kind = 'pun'

    def __init__(self, a, off, w, ty=None):
        self.a, self.off, self.w, self.ty = a, off, w, ty

    def get(self):
        a = self.a
        es = a.es
        bits = []
        if isinstance(a, Arr):
            n = len(a.items)
        for i in range(self.w):
            p = self.off * 8 + i
            e = a.items[p // (8 * es)]
            if not isinstance(e, T):
                raise Imprecise('bit view of a non scalar')
            b = p % (8 * es)
            bits.append(bit(e, b) if b < e.w else FALSE)
        return frombits(bits)

    def set(self, v):
        a = self.a
        es = a.es
        p0 = self.off * 8
        k = p0 // (8 * es)
        k2 = (p0 + self.w - 1) // (8 * es)
        for e in range(k, k2 + 1):
            old = a.items[e]
            if not isinstance(old, T):
                raise Imprecise('bit view of a non scalar')
            bits = []
            for b in range(8 * es):
                pos = e * 8 * es + b - p0
                if 0 <= pos < self.w:
                    bits.append(bit(v, pos) if pos < v.w else FALSE)
                else:
                    bits.append(bit(old, b) if b < old.w else FALSE)
            a.items[e] = frombits(bits) if old.w != 1 else bits[0]

    @property
    def alive(self):
        return self.a.alive


class ScalarView(object):
    """a scalar location viewed as an array of one element (for punning)"""
    __slots__ = ('loc', 'es')
    gen = 0

    def __init__(self, loc, es):
        self.loc, self.es = loc, es

    @property
    def items(self):
        return _One(self.loc)

    @property
    def alive(self):
        return self.loc.alive


class _One(object):
    def __init__(self, loc):
        self.loc = loc

    def __getitem__(self, i):
        if i != 0:
            raise Imprecise('view past a scalar')
        return self.loc.get()

    def __setitem__(self, i, v):
        if i != 0:
            raise Imprecise('view past a scalar')
        self.loc.set(v)

    def __len__(self):
        return 1


class Arr(Obj):
    """C array, std::array, vector, deque, list, InlinedVector, span storage"""
    __slots__ = ('items', 'el', 'es', 'sort', 'node', 'cap', 'gen', 'fwd', 'moved')
    kind = 'arr'

    def __init__(self, items, el, es, sort='array'):
        self.init()
        self.items, self.el, self.es, self.sort = items, el, es, sort
        self.cap = len(items)
        self.gen = 0
        self.fwd = None
        self.moved = None       # (gen, where the buffer of that generation went, its gen there)

    def __repr__(self):
        return '%s[%d]' % (self.sort, len(self.items))


class Sparse(object):
    """items of a large array of scalars: the elements touched, and a default for the others"""
    __slots__ = ('d', 'n', 'mk')

    def __init__(self, n, mk):
        self.d, self.n, self.mk = {}, n, mk

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if isinstance(i, slice):
            return [self[k] for k in range(*i.indices(self.n))]
        if i < 0:
            i += self.n
        if not 0 <= i < self.n:
            raise IndexError(i)
        v = self.d.get(i)
        if v is None:
            v = self.d[i] = self.mk()
        return v

    def __setitem__(self, i, v):
        if isinstance(i, slice) or not 0 <= i < self.n:
            raise Imprecise('sparse array')
        self.d[i] = v

    def __iter__(self):
        for i in range(self.n):
            yield self[i]

    def fill(self, v):
        self.d = {}
        self.mk = lambda: v


class SpanV(Obj):
    __slots__ = ('p', 'n', 'el')
    kind = 'span'

    def __init__(self, p, n, el=None):
        self.init()
        self.p, self.n, self.el = p, n, el      # el: scalar element type, if it may differ from that of the array


class MapV(Obj):
    """ents: list of [key, value]; a set has value None"""
    __slots__ = ('ents', 'sort', 'kt', 'vt', 'cmp', 'multi', 'gen', 'mod', 'move', 'rsv')
    kind = 'map'

    def __init__(self, sort, kt, vt, cmp=None, multi=False):
        self.init()
        self.ents = []
        self.sort, self.kt, self.vt, self.cmp, self.multi = sort, kt, vt, cmp, multi
        self.gen = self.mod = self.rsv = 0
        self.move = None    # 'btree'/'flat': elements move on insertion

    def __repr__(self):
        return '%s{%d}' % (self.sort, len(self.ents))


class PairV(Obj):
    """std::pair / std::tuple; for map entries the list is the entry itself"""
    __slots__ = ('v',)
    kind = 'pair'

    def __init__(self, v):
        self.init()
        self.v = v


class It(Obj):
    """iterator"""
    __slots__ = ('c', 'pos', 'rev', 'gen', 'mod', 'ent')
    kind = 'it'

    def __init__(self, c, pos, rev=False):
        self.init()
        self.c, self.pos, self.rev = c, pos, rev
        self.gen = getattr(c, 'gen', 0)
        self.mod = getattr(c, 'mod', 0)
        self.ent = None
        if type(c) is MapV:
            i = pos - 1 if rev else pos
            self.ent = c.ents[i] if 0 <= i < len(c.ents) else None

    def bind(self):
        """after pos was changed"""
        if type(self.c) is MapV:
            i = self.pos - 1 if self.rev else self.pos
            self.ent = self.c.ents[i] if 0 <= i < len(self.c.ents) else None


class StrV(Obj):
    """pieces: ('c', str) ('b', term8) ('s', name) ('f', fmt, term, ...)"""
    __slots__ = ('p', 'view', 'tail')
    kind = 'str'

    def __init__(self, p=()):
        self.init()
        if isinstance(p, str):
            p = (('c', p),) if p else ()
        self.p = norm_pieces(p)
        self.view = False
        self.tail = None

    def __repr__(self):
        return 'str' + repr(self.p)

    @property
    def pieces(self):
        return self.p

    def chars(self):
        """list of 8 bit terms or None"""
        out = []
        for q in self.p:
            if q[0] == 'c':
                out.extend(const(ord(c), 8) for c in q[1])
            elif q[0] == 'b':
                out.append(q[1])
            else:
                return None
        return out

    def const(self):
        if not self.p:
            return ''
        if len(self.p) == 1 and self.p[0][0] == 'c':
            return self.p[0][1]
        return None


def norm_pieces(p):
    out = []
    for q in p:
        if q[0] == 'b' and isc(q[1]):
            q = ('c', chr(cval(q[1])))
        if q[0] == 'c':
            if not q[1]:
                continue
            if out and out[-1][0] == 'c':
                out[-1] = ('c', out[-1][1] + q[1])
                continue
        out.append(q)
    return tuple(out)


class FnV(Obj):
    """callable.  k: fn(id) | clo(Rec, id) | host(python) | bound(FnV,args) | mem(method) | null"""
    __slots__ = ('k', 'a', 'b')
    kind = 'fn'

    def __init__(self, k, a=None, b=None):
        self.init()
        self.k, self.a, self.b = k, a, b


class StatusV(Obj):
    __slots__ = ('code', 'msg')
    kind = 'status'

    def __init__(self, code, msg=None):
        self.init()
        self.code, self.msg = code, msg


class StatusOrV(Obj):
    __slots__ = ('st', 'v', 'vt')
    kind = 'statusor'

    def __init__(self, st, v, vt):
        self.init()
        self.st, self.v, self.vt = st, v, vt


class OptV(Obj):
    __slots__ = ('has', 'v', 'vt')
    kind = 'opt'

    def __init__(self, has, v, vt):
        self.init()
        self.has, self.v, self.vt = has, v, vt


class VarV(Obj):
    __slots__ = ('i', 'v', 'alts')
    kind = 'variant'

    def __init__(self, i, v, alts):
        self.init()
        self.i, self.v, self.alts = i, v, alts


class AnyV(Obj):
    __slots__ = ('ty', 'v')
    kind = 'any'

    def __init__(self, ty=None, v=None):
        self.init()
        self.ty, self.v = ty, v


class UniqueV(Obj):
    __slots__ = ('p', 'arr', 'deleter')
    kind = 'unique'

    def __init__(self, p, arr=False):
        self.init()
        self.p, self.arr = p, arr
        self.deleter = None


class SharedV(Obj):
    __slots__ = ('p', 'cb')
    kind = 'shared'

    def __init__(self, p, cb):
        self.init()
        self.p, self.cb = p, cb


class AtomicV(Obj):
    __slots__ = ('cell',)
    kind = 'atomic'

    def __init__(self, v):
        self.init()
        self.cell = Cell(v)


class StreamV(Obj):
    __slots__ = ('s', 'pos', 'tag', 'flags', 'good', 'inp', 'gc', 'eof', 'buf')
    kind = 'stream'

    def __init__(self, tag):
        self.init()
        self.s = StrV()
        self.pos = 0
        self.tag = tag
        self.flags = {}
        self.good = True
        self.inp = None         # input: the bytes that are left
        self.buf = None         # the stream buffer of a stream made from one
        self.gc = 0             # characters the last unformatted input got
        self.eof = False


class Opq(Obj):
    """library object the analyser has no model for"""
    __slots__ = ('ty', 'tag')
    kind = 'opq'

    def __init__(self, ty):
        self.init()
        self.ty = ty
        self.tag = None


class InitListV(Obj):
    __slots__ = ('items', 'el')
    kind = 'il'

    def __init__(self, items, el):
        self.init()
        self.items, self.el = items, el


# --------------------------------------------------------------- outcomes
class Imprecise(Exception):
    """the partition left the modelled fragment: no verdict from it"""


class Infeasible(Exception):
    pass


class PathEnd(Exception):
    """abort / ub outcome of the partition"""

    def __init__(self, kind, msg, where=None):
        Exception.__init__(self, msg)
        self.kind, self.msg, self.where = kind, msg, where
