"""Disjunctive (trace-partitioned) abstract interpreter over the typed AST.

One *partition* is a sequence of branch outcomes.  Inside a partition every
object has an abstract state (canonical terms, ownership/lifetime typestate);
a branch whose guard the domain cannot decide splits the partition.  Nothing is
executed: the values are terms over the symbolic inputs of the analysis root.
"""
import struct
import sys
from terms import *
import terms as TM
from paths import Path
from values import *
import lib

sys.setrecursionlimit(20000)

BRK, CONT = 'brk', 'cont'


class Ret(object):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Frame(object):
    __slots__ = ('fn', 'this', 'vars', 'line', 'scopes', 'cls')

    def __init__(self, fn, this):
        self.fn, self.this = fn, this
        self.vars = {}
        self.line = fn['line'] if fn else 0
        self.scopes = []


def bits_of_float(v, w):
    try:
        if w == 32:
            return struct.unpack('<I', struct.pack('<f', v))[0]
        return struct.unpack('<Q', struct.pack('<d', v))[0]
    except OverflowError:
        return 0x7f800000 if w == 32 else 0x7ff0000000000000


def float_of_bits(b, w):
    return struct.unpack('<f', struct.pack('<I', b))[0] if w == 32 else struct.unpack('<d', struct.pack('<Q', b))[0]


def _fop(op):
    def mkf(w):
        def f(a, b):
            x, y = float_of_bits(a, w), float_of_bits(b, w)
            try:
                r = x + y if op == '+' else x - y if op == '-' else x * y if op == '*' else x / y
            except ZeroDivisionError:
                r = float('nan') if x == 0 or x != x else float('inf') * (1 if (x > 0) == (not (b >> (w - 1))) else -1)
            return bits_of_float(r, w)
        return f
    return mkf


for _w in (32, 64):
    for _op in '+-*/':
        UF_EVAL['f%s%d' % (_op, _w)] = _fop(_op)(_w)
    UF_EVAL['flt%d' % _w] = (lambda w: lambda a, b: int(float_of_bits(a, w) < float_of_bits(b, w)))(_w)
    UF_EVAL['feq%d' % _w] = (lambda w: lambda a, b: int(float_of_bits(a, w) == float_of_bits(b, w)))(_w)
UF_EVAL['f32to64'] = lambda a: bits_of_float(float_of_bits(a, 32), 64)
UF_EVAL['f64to32'] = lambda a: bits_of_float(float_of_bits(a, 64), 32)


class Interp(object):
    MAXSTEPS = 400000
    MAXDEPTH = 80

    def __init__(self, prog, cover, prefix=()):
        self.ext = None
        self.p = prog
        self.cover = cover
        self.prefix = list(prefix)
        self.pos = 0
        self.alts = []
        self.path = Path()
        self.frames = []
        self.temps = [[]]
        self.events = []
        self.globals = {}
        self.heap = []
        self.nsym = 0
        self.noid = 0
        self.steps = 0
        self.trail = []
        self.imprecise = None
        self.flags = {}
        self.host_frame = Frame(None, None)
        self.frames.append(self.host_frame)
        self.ncalls = 0

    # ------------------------------------------------------------ symbols
    def fresh(self, name, w):
        self.nsym += 1
        return sym('%s#%d' % (name, self.nsym), w)

    def undef(self, w):
        self.nsym += 1
        return sym('undef!%d' % self.nsym, w)

    def top(self, w):
        self.nsym += 1
        return sym('top!%d' % self.nsym, w)

    def bits_of(self, ty):
        k = ty.k
        if k == 'bool':
            return 1
        if k in ('int', 'enum', 'float'):
            return ty.w
        return None

    def sizeof(self, ty):
        k = ty.k
        if k == 'bool':
            return 1
        if k in ('int', 'enum', 'float'):
            return ty.w // 8
        if k in ('ptr', 'ref', 'nullptr'):
            return 8
        if k == 'rec':
            return ty.size or 1
        if k == 'array' and ty.n is not None:
            return ty.n * self.sizeof(ty.el)
        return 1

    def fresh_of(self, name, ty, kind='sym'):
        """unknown value of a type"""
        k = ty.k
        w = self.bits_of(ty)
        if w:
            return self.fresh(name, w) if kind == 'sym' else self.top(w) if kind == 'top' else self.undef(w)
        if k == 'ptr':
            if kind == 'undef':
                return Ptr(undef=True)
            raise Imprecise('unknown pointer %s' % name)
        if k == 'void':
            return None
        if k == 'rec':
            if kind == 'sym' and ty.plain in ('std::basic_string', 'std::basic_string_view'):
                self.nsym += 1
                return StrV((('s', '%s#%d' % (name, self.nsym)),))
            if kind == 'undef':
                return self.undef_obj(ty)
        raise Imprecise('unknown value of type %s' % ty.s)

    # ------------------------------------------------------------ decisions
    def decide(self, c):
        if isc(c):
            return bool(cval(c))
        d = self.path.decide(c)
        if d is not None:
            return d
        if c.top:
            raise Imprecise('branch on an unknown value')
        if self.pos < len(self.prefix):
            ch = self.prefix[self.pos]
        else:
            ch = True
            self.alts.append(self.prefix[:self.pos] + [False])
            self.prefix.append(True)
        self.pos += 1
        if self.pos > 400:
            raise Imprecise('too many splits')
        f = self.frames[-1]
        self.trail.append((f.fn['name'] if f.fn else '(client)', f.fn['file'] if f.fn else '', f.line, repr(c)[:200], ch))
        if not self.path.assume(c if ch else lnot(c)):
            raise Infeasible()
        return ch

    def choose(self, n):
        """nondeterministic choice among n alternatives (partition by index)"""
        if n <= 1:
            return 0
        if self.pos < len(self.prefix):
            ch = self.prefix[self.pos]
        else:
            ch = 0
            for i in range(n - 1, 0, -1):
                self.alts.append(self.prefix[:self.pos] + [i])
            self.prefix.append(0)
        self.pos += 1
        return ch

    def cint(self, t, signed=False, what='size', limit=17):
        """concrete value of a term, splitting over a small range"""
        from paths import rebuild
        if isinstance(t, int):
            return t
        if not isc(t) and self.path.known:
            t = rebuild(t, self.path.known, self.path.memo)
        if isc(t):
            return sval(t) if signed else cval(t)
        lo, hi = self.path._rng(t, signed)
        if hi - lo < limit:
            for v in range(lo, hi):
                if self.decide(eq(t, const(v, t.w))):
                    return v
            if not self.path.assume(eq(t, const(hi, t.w))):
                raise Infeasible()
            return hi
        raise Imprecise('unbounded %s %r' % (what, t))

    def where(self):
        for f in reversed(self.frames):
            if f.fn:
                return '%s:%d (%s)' % (f.fn['file'], f.line, f.fn['name'])
        return '(client)'

    def stack(self):
        return ['%s:%d %s' % (f.fn['file'], f.line, f.fn['name']) for f in self.frames if f.fn]

    def ub(self, msg):
        raise PathEnd('ub', msg, self.where())

    def abort(self, msg):
        raise PathEnd('abort', msg, self.where())

    # ------------------------------------------------------------ memory
    def load(self, loc):
        """rvalue of a scalar location"""
        if isinstance(loc, Obj) and not isinstance(loc, Cell):
            return loc
        if not loc.alive:
            self.ub('access to an object after its lifetime ended')
        v = loc.get()
        if v is None:
            if isinstance(loc, FieldLV):
                v = self.field_undef(loc.r, loc.k)
                return v
            raise Imprecise('empty location')
        return v

    def field_type(self, key):
        r = self.p.records.get(key[0])
        if r:
            for f in r.get('fields', ()):
                if f['name'] == key[1]:
                    return f['t']
        return None

    def field_undef(self, rec, key):
        ty = self.field_type(key)
        if ty is None:
            raise Imprecise('field %s' % (key,))
        if rec.opaque:
            v = self.fresh_of(key[1], ty)
        else:
            v = self.undef_value(ty)
        rec.f[key] = v
        return v

    def undef_value(self, ty):
        k = ty.k
        w = self.bits_of(ty)
        if w:
            return self.undef(w)
        if k == 'ptr':
            if ty.to.k == 'func':
                return FnV('undef')
            return Ptr(undef=True)
        if k == 'array':
            return Arr([self.undef_value(ty.el) for _ in range(ty.n or 0)], ty.el, self.sizeof(ty.el))
        if k == 'rec':
            return self.undef_obj(ty)
        if k == 'memptr':
            return FnV('undef')
        raise Imprecise('undef %s' % ty.s)

    def undef_obj(self, ty):
        if self.p.records.get(ty.name, {}).get('repo'):
            r = Rec(ty.name)
            r.built = True
            return r
        return lib.default(self, ty)

    def zero(self, ty):
        k = ty.k
        w = self.bits_of(ty)
        if w:
            return const(0, w)
        if k in ('ptr', 'nullptr'):
            if k == 'ptr' and ty.to.k == 'func':
                return FnV('null')
            return null()
        if k == 'memptr':
            return FnV('null')
        if k == 'array':
            return Arr([self.zero(ty.el) for _ in range(ty.n or 0)], ty.el, self.sizeof(ty.el))
        if k == 'rec':
            rec = self.p.records.get(ty.name)
            if rec and rec.get('repo'):
                return self.value_init(ty)
            return lib.default(self, ty)
        if k == 'void':
            return None
        raise Imprecise('zero of %s' % ty.s)

    def value_init(self, ty):
        rec = self.p.records.get(ty.name)
        for m in rec['methods']:
            if m['name'] == '(ctor)' and m['np'] == 0 and not m['deleted']:
                if m['id'] in self.p.functions and not m['defaulted']:
                    return self.construct(ty.name, m['id'], [])
        r = Rec(ty.name)
        self.zero_fields(r, ty.name)
        r.built = True
        return r

    def zero_fields(self, r, cls):
        rec = self.p.records[cls]
        for b in rec['bases']:
            if self.p.records.get(b['name'], {}).get('repo'):
                self.zero_fields(r, b['name'])
        for f in rec['fields']:
            if f.get('init'):
                self.with_this(r, lambda f=f: self.init_field(r, cls, f))
            elif f['t'].k != 'ref':
                r.f[(cls, f['name'])] = self.zero(f['t'])

    def with_this(self, r, fn):
        fr = Frame(None, r)
        fr.line = 0
        self.frames.append(fr)
        try:
            return fn()
        finally:
            self.frames.pop()

    def init_field(self, r, cls, f):
        r.f[(cls, f['name'])] = self.init_value(f['t'], f['init'])

    def init_value(self, ty, e):
        """value of initialising an object of type ty with expression e"""
        if ty.k == 'ref':
            return self.ev(e)
        v = self.ev(e)
        if e.get('lv') and ty.k in ('rec',):
            v = self.copy_value(v)
        return v

    def store(self, loc, v):
        if not loc.alive:
            self.ub('write to an object after its lifetime ended')
        if isinstance(v, Obj) and isinstance(v, Rec):
            raise Imprecise('record stored as scalar')
        loc.set(v)

    def alloc(self, obj, how, site=None):
        obj.heap = how
        obj.site = self.where()
        self.noid += 1
        obj.oid = self.noid
        self.heap.append(obj)
        return obj

    def nonnull(self, p, what):
        if isinstance(p, FnV):
            return
        if not isinstance(p, Ptr):
            raise Imprecise('deref of %r' % (p,))
        if p.undef:
            self.ub('%s through an uninitialised pointer' % what)
        if p.null is TRUE or (p.null is not FALSE and self.decide(p.null)):
            self.ub('%s through a null pointer' % what)

    def first_scalar(self, r, cls):
        """the scalar at offset 0 of a plain aggregate"""
        rec = self.p.records.get(cls)
        if not rec or rec.get('bases') or not rec.get('fields'):
            return None
        f = rec['fields'][0]
        if self.bits_of(f['t']):
            return FieldLV(r, (cls, f['name']))
        v = r.f.get((cls, f['name']))
        return self.first_scalar(v, v.cls) if isinstance(v, Rec) else None

    def deref(self, p, ty, what='access'):
        """location a pointer denotes, viewed with type ty"""
        self.nonnull(p, what)
        if p.base is not None:
            return self.elem(p.base, p.off, ty)
        t = p.t
        if t is None:
            raise Imprecise('opaque pointer dereferenced')
        if not t.alive:
            self.ub('%s after the object was destroyed' % what)
        if isinstance(t, Rec) and not t.opaque and ty is not None and self.bits_of(ty):
            q = self.first_scalar(t, t.cls)
            if q is not None:
                t = q
        if not isinstance(t, Obj) or isinstance(t, Cell):
            w = self.bits_of(ty) if ty is not None else None
            if w:
                cur = self.load(t)
                if isinstance(cur, T) and cur.w != w and not (cur.w == 1 and w == 8):
                    cw = 8 if cur.w == 1 else cur.w
                    if w > cw:
                        self.ub('%s past the end of a scalar' % what)
                    return PunLV(ScalarView(t, cw // 8), 0, w, ty)
        return t

    @staticmethod
    def exhausted(o, sz, n):
        """o (known to be none of 0, sz .. (n-1)*sz) has no other value"""
        c, items = TM._tolin(o)
        if len(items) != 1:
            return False
        (t, k), = items.items()
        while t.op == 'zext':
            t = t.a[0]
        if t.op not in ('bits', 's', 'trunc') or t.w > 10 or c % (1 << 64):
            return False
        vals = set()
        fixed = [(i, cval(b)) for i, b in enumerate(t.a) if isc(b)] if t.op == 'bits' else []
        for v in range(1 << t.w):
            if all((v >> i) & 1 == b for i, b in fixed):
                vals.add(v * k % (1 << 64))
        return vals <= {i * sz for i in range(n)}

    def elem(self, a, off, ty):
        while type(a) is Arr and a.fwd is not None:
            a = a.fwd
        if not a.alive:
            self.ub('array access after the array was destroyed')
        es = a.es
        n = len(a.items)
        sz = self.sizeof(ty) if ty is not None else es
        if not isinstance(off, int):
            from paths import rebuild
            o = rebuild(off, self.path.known, self.path.memo) if self.path.known else off
            if isc(o):
                off = sval(o)
            else:
                # bounds first, then split over the elements
                for i in range(n * es // sz):
                    if self.decide(eq(o, const(i * sz, 64))):
                        off = i * sz
                        break
                else:
                    if self.exhausted(o, sz, n * es // sz):
                        raise Infeasible()
                    self.ub('array index out of bounds (size %d)' % n)
        if off < 0 or off + sz > n * es:
            self.ub('array index out of bounds (element %d of %d)' % (off // max(sz, 1), n * es // max(sz, 1)))
        if sz == es and off % es == 0:
            v = a.items[off // es]
            if isinstance(v, Obj) and not isinstance(v, (Ptr, FnV)):
                if type(v) is Rec and type(a) is Arr:
                    v.home = a
                return v
            if ty is not None and isinstance(v, T):
                w = self.bits_of(ty)
                if w and w != v.w and not (w == 8 and v.w == 1):
                    return PunLV(a, off, w, ty)
            return ElemLV(a, off // es)
        w = self.bits_of(ty) if ty is not None else None
        if not w:
            raise Imprecise('array viewed as %s' % (ty.s if ty else '?'))
        if w == 1:
            w = 8
        return PunLV(a, off, w, ty)

    def addr(self, loc):
        if isinstance(loc, ElemLV):
            return Ptr(base=loc.a, off=loc.i * loc.a.es)
        if isinstance(loc, PunLV) and isinstance(loc.a, Arr):
            return Ptr(base=loc.a, off=loc.off)
        if isinstance(loc, Ptr):
            return loc
        if isinstance(loc, Arr) and loc.sort == 'array':
            return Ptr(t=loc)
        return Ptr(loc)

    def ptr_of_elem(self, a, i):
        v = a.items[i] if i < len(a.items) else None
        return Ptr(base=a, off=i * a.es)

    def ptr_add(self, p, n, ty):
        """n: int or 64 bit term, in elements of ty"""
        sz = self.sizeof(ty)
        if p.undef:
            return p
        if p.base is None:
            if isinstance(n, int) and n == 0 or (isinstance(n, T) and isc(n) and cval(n) == 0):
                return p
            if p.t is None:
                raise Imprecise('arithmetic on opaque pointer')
            if isinstance(p.t, Arr):
                return self.ptr_add(Ptr(base=p.t, off=0), n, ty)
            if type(p.t) is Rec:
                a, o = self.rec_home(p.t, sz)
                return self.ptr_add(Ptr(base=a, off=o), n, ty)
            if not isinstance(p.t, Obj) or isinstance(p.t, Cell):
                v = self.load(p.t)
                if isinstance(v, T):
                    cw = 8 if v.w == 1 else v.w
                    return self.ptr_add(Ptr(base=self.view(p.t, cw // 8), off=0), n, ty)
            raise Imprecise('pointer arithmetic on %r' % (p.t,))
        if isinstance(n, T) and isc(n):
            n = sval(n)
        if isinstance(n, int) and isinstance(p.off, int):
            return Ptr(base=p.base, off=p.off + n * sz)
        nt = const(n, 64) if isinstance(n, int) else n
        ot = const(p.off, 64) if isinstance(p.off, int) else p.off
        return Ptr(base=p.base, off=add(ot, mul(nt, const(sz, 64))))

    def view(self, loc, es):
        for v in self.flags.setdefault('views', []):
            if self.same_loc(v.loc, loc):
                return v
        v = ScalarView(loc, es)
        self.flags['views'].append(v)
        return v

    def same_loc(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, FieldLV):
            return a.r is b.r and a.k == b.k
        if isinstance(a, ElemLV):
            return a.a is b.a and a.i == b.i
        if isinstance(a, DictLV):
            return a.e is b.e and a.i == b.i
        if isinstance(a, PunLV):
            return a.a is b.a and a.off == b.off
        return False

    def ptr_eq(self, p, q):
        if isinstance(p, FnV) or isinstance(q, FnV):
            pn = isinstance(p, FnV) and p.k == 'null' or isinstance(p, Ptr) and p.null is TRUE
            qn = isinstance(q, FnV) and q.k == 'null' or isinstance(q, Ptr) and q.null is TRUE
            if pn or qn:
                return boolc(pn and qn)
            if p.k == 'fn' and q.k == 'fn':
                return boolc(p.a['id'] == q.a['id'])
            return boolc(p is q)
        if isinstance(p, T) or isinstance(q, T):
            raise Imprecise('pointer compared with integer')
        if p.undef or q.undef:
            return self.undef(1)
        both_null = land(p.null, q.null)
        if p.null is TRUE or q.null is TRUE:
            return both_null
        same = self.same_target(p, q)
        return lor(both_null, land(lnot(p.null), lnot(q.null), same))

    def norm_ptr(self, p):
        if p.base is None and isinstance(p.t, Arr):
            return p.t, 0
        if p.base is None:
            return p.t, None
        a, o = p.base, p.off
        if isinstance(a, Arr) and isinstance(o, int) and a.items and o % a.es == 0 and 0 <= o // a.es < len(a.items):
            v = a.items[o // a.es]
            if isinstance(v, Rec):
                return v, None
        if isinstance(a, ScalarView) and o == 0:
            return a.loc, None
        return a, o

    def same_target(self, p, q):
        a, o1 = self.norm_ptr(p)
        b, o2 = self.norm_ptr(q)
        if o1 is None and o2 is None:
            if a is None or b is None:
                return boolc(p.tag is not None and p.tag == q.tag)
            return boolc(self.same_loc(a, b))
        if o1 is None or o2 is None:
            return FALSE
        if a is not b:
            return FALSE
        return eq(self._t64(o1), self._t64(o2))

    def _t64(self, o):
        return const(o, 64) if isinstance(o, int) else o

    # ------------------------------------------------------------ copies
    def copy_value(self, v, move=False):
        if isinstance(v, Rec):
            if v.cls not in self.p.records:
                raise Imprecise('copy of %s' % v.cls)
            if not v.alive:
                self.ub('copy of a destroyed object')
            if self.p.records[v.cls].get('lambda'):
                r = Rec(v.cls)
                r.f = {k: (x if isinstance(k, tuple) and k[0] == 'ref' else self.copy_cell(x, move)) for k, x in v.f.items()}
                return r
            r = Rec(v.cls)
            r.opaque, r.host, r.tag = v.opaque, v.host, v.tag
            self.copy_into(r, v, v.cls, move)
            r.built = True
            return r
        if isinstance(v, Obj) and not isinstance(v, (Cell,)):
            return lib.copy(self, v, move)
        return v

    def copy_cell(self, x, move):
        if isinstance(x, Cell):
            return Cell(self.copy_value(x.v, move), x.name)
        if isinstance(x, Obj):
            return self.copy_value(x, move)
        return x

    def special(self, cls, move, assign):
        """the copy/move constructor or assignment of cls that would be selected"""
        rec = self.p.records.get(cls)
        best = None
        for m in rec.get('methods', ()):
            if m['deleted'] or m['np'] != 1:
                continue
            pt = m['pt'][0]
            if pt.k != 'ref' or pt.to.k != 'rec' or pt.to.name != cls:
                continue
            if assign != (m['name'] == 'operator=') or (not assign and m['name'] != '(ctor)'):
                continue
            if pt.rv and move:
                return m
            if not pt.rv:
                best = m
        return best

    def copy_into(self, dst, src, cls, move):
        m = self.special(cls, move, False)
        if m is not None and m['id'] in self.p.functions and not m['defaulted']:
            self.run_ctor(dst, cls, m['id'], [src])
            return
        mv = move and (m is None or m['pt'][0].rv)
        rec = self.p.records[cls]
        for b in rec['bases']:
            if self.p.records.get(b['name'], {}).get('repo'):
                self.copy_into(dst, src, b['name'], mv)
        for f in rec.get('fields', ()):
            k = (cls, f['name'])
            if f['t'].k == 'ref':
                dst.f[k] = src.f.get(k)
                continue
            v = src.f.get(k)
            if v is None:
                if rec['union']:
                    continue
                v = self.field_undef(src, k)
            dst.f[k] = self.copy_value(v, mv)

    def assign_into(self, dst, src, cls, move):
        m = self.special(cls, move, True)
        if m is not None and m['id'] in self.p.functions and not m['defaulted']:
            self.call_fn(self.p.functions[m['id']], dst, [src])
            return
        mv = move and (m is None or m['pt'][0].rv)
        rec = self.p.records[cls]
        for b in rec['bases']:
            if self.p.records.get(b['name'], {}).get('repo'):
                self.assign_into(dst, src, b['name'], mv)
        for f in rec.get('fields', ()):
            k = (cls, f['name'])
            v = src.f.get(k)
            if v is None:
                v = self.field_undef(src, k)
            old = dst.f.get(k)
            if old is None:
                dst.f[k] = self.copy_value(v, mv)
            else:
                self.assign_value(FieldLV(dst, k), old, v, mv)

    def assign_value(self, loc, old, v, move):
        if isinstance(old, Rec):
            if old is v:
                return
            self.assign_into(old, v, old.cls, move)
        elif isinstance(old, Obj) and not isinstance(old, FnV):
            if old is not v:
                lib.assign(self, old, v, move)
        else:
            loc.set(self.copy_value(v, move))

    # ------------------------------------------------------------ construct / destroy
    def construct(self, cls, fid, args, rec=None):
        r = rec if rec is not None else Rec(cls)
        self.run_ctor(r, cls, fid, args)
        r.built = True
        return r

    def run_ctor(self, r, cls, fid, args):
        f = self.p.functions.get(fid) if fid else None
        saved = r.cur
        r.cur = cls
        try:
            if f is None or (f['m']['defaulted'] and not f.get('inits') and not self._hasbody(f)):
                m = self.p.method_by_id(fid) if fid else None
                if m and (m.get('copy') or m.get('move')):
                    self.copy_into_nc(r, args[0], cls, m.get('move'))
                elif m is None or m['implicit'] or m['defaulted'] or fid is None:
                    self.default_init(r, cls)
                else:
                    raise Imprecise('constructor without body %s' % fid)
                return
            if f['m']['defaulted'] and (f['m'].get('copy') or f['m'].get('move')):
                self.copy_into_nc(r, args[0], cls, f['m'].get('move'))
                return
            self.call_fn(f, r, args, ctor=cls)
        finally:
            r.cur = saved

    def _hasbody(self, f):
        b = f.get('body')
        return bool(b and b.get('b'))

    def copy_into_nc(self, dst, src, cls, move):
        rec = self.p.records[cls]
        for b in rec['bases']:
            if self.p.records.get(b['name'], {}).get('repo'):
                self.copy_into(dst, src, b['name'], move)
        for f in rec.get('fields', ()):
            k = (cls, f['name'])
            if f['t'].k == 'ref':
                dst.f[k] = src.f.get(k)
                continue
            v = src.f.get(k)
            if v is None:
                v = self.field_undef(src, k)
            dst.f[k] = self.copy_value(v, move)

    def default_init(self, r, cls):
        rec = self.p.records.get(cls)
        if not rec or not rec.get('repo'):
            return
        for b in rec['bases']:
            br = self.p.records.get(b['name'])
            if br and br.get('repo'):
                fid = None
                for m in br['methods']:
                    if m['name'] == '(ctor)' and m['np'] == 0:
                        fid = m['id']
                self.run_ctor(r, b['name'], fid, [])
        for f in rec['fields']:
            if f.get('init'):
                self.with_this(r, lambda f=f: self.init_field(r, cls, f))
            elif f['t'].k == 'rec':
                r.f[(cls, f['name'])] = self.default_obj(f['t'])

    def default_obj(self, ty):
        rec = self.p.records.get(ty.name)
        if rec and rec.get('repo'):
            fid = None
            for m in rec['methods']:
                if m['name'] == '(ctor)' and m['np'] == 0:
                    fid = m['id']
            return self.construct(ty.name, fid, [])
        return lib.default(self, ty)

    def destroy(self, v):
        """end the lifetime of a value that owns something"""
        if isinstance(v, Rec):
            if not v.alive:
                self.ub('object destroyed twice')
            self.run_dtor(v, v.cls)
            v.alive = False
            v.dead_at = self.where()
        elif isinstance(v, Cell):
            self.destroy(v.v)
            v.alive = False
        elif isinstance(v, Obj):
            lib.destroy(self, v)

    def run_dtor(self, r, cls):
        rec = self.p.records.get(cls)
        if rec is None or not rec.get('repo'):
            return
        saved = r.cur
        r.cur = cls
        if rec.get('lambda'):
            for k, x in r.f.items():
                if not (isinstance(k, tuple) and k[0] == 'ref'):
                    if isinstance(x, Obj):
                        self.destroy(x)
            return
        d = rec.get('dtor')
        f = self.p.functions.get(d) if d else None
        if f is not None and not f['m']['defaulted']:
            self.call_fn(f, r, [])
        elif rec.get('userdtor') and f is None and not rec.get('dtordefaulted'):
            if not r.opaque:
                raise Imprecise('destructor without body %s' % cls)
        for fd in reversed(rec.get('fields', ())):
            if fd['t'].k in ('rec', 'array'):
                v = r.f.get((cls, fd['name']))
                if v is not None and isinstance(v, Obj):
                    self.destroy(v)
        for b in reversed(rec['bases']):
            self.run_dtor(r, b['name'])
        r.cur = saved

    def delete(self, p, arr):
        if isinstance(p, FnV):
            return
        if p.undef:
            self.ub('delete of an uninitialised pointer')
        if p.null is TRUE or (p.null is not FALSE and self.decide(p.null)):
            return
        t = p.t
        if t is None and p.base is not None:
            t = p.base
            if p.off != 0:
                self.ub('delete of an interior pointer')
        if t is None:
            raise Imprecise('delete of opaque pointer')
        if not t.alive:
            self.ub('double delete (object already destroyed at %s)' % t.dead_at)
        heap = getattr(t, 'heap', None)
        if heap is None:
            if isinstance(t, Rec) and t.opaque:
                t.alive = False
                t.dead_at = self.where()
                self.events.append(('delete', t))
                return
            if self.flags.get('lenient_delete'):
                return
            self.ub('delete of an object that was not allocated with new')
        if heap == 'new' and arr or heap == 'new[]' and not arr or heap == 'malloc':
            if not (heap == 'new[]' and self.flags.get('lenient_arrdel')):
                self.ub('mismatched deallocation (%s freed with %s)' % (heap, 'delete[]' if arr else 'delete'))
        self.events_delete(t)
        if isinstance(t, Rec):
            self.destroy(t)
        else:
            if isinstance(t, Obj):
                self.destroy(t)
            t.alive = False
        t.dead_at = self.where()

    def events_delete(self, t):
        pass

    def leaks(self):
        return [o for o in self.heap if o.alive]

    # ------------------------------------------------------------ calls
    def call_fn(self, f, this, args, ctor=None, caps=None):
        if len(self.frames) > self.MAXDEPTH:
            raise Imprecise('call depth')
        self.ncalls += 1
        fr = Frame(f, this)
        self.cover.fn(f)
        if caps:
            fr.vars.update(caps)
        own = []
        for prm, a in zip(f['params'], args):
            ty = prm['t']
            if ty.k == 'ref':
                fr.vars[prm['d']] = a
            elif isinstance(a, Obj) and not isinstance(a, (Cell, FnV)) and not (ty.k == 'ptr' and isinstance(a, (StrV, It))):
                fr.vars[prm['d']] = a
                own.append(a)
            elif isinstance(a, FnV) and ty.k == 'rec':
                fr.vars[prm['d']] = a
            else:
                fr.vars[prm['d']] = Cell(a, prm['n'])
        self.frames.append(fr)
        nt = len(self.temps)
        try:
            if ctor is not None:
                self.ctor_inits(f, this, ctor, fr)
            body = f.get('body')
            r = None
            if body is not None:
                self.temps.append([])
                r = self.ex(body, fr)
                self.temps.pop()
            for a in reversed(own):
                if a.alive or isinstance(a, Rec):
                    self.destroy(a)
            for c in fr.vars.values():
                pass
            if isinstance(r, Ret):
                return r.v
            if f['ret'] is not None and f['ret'].k not in ('void',) and ctor is None and body is not None \
                    and f['m']['name'] != '(dtor)' if f.get('m') else f['ret'].k != 'void':
                if r is None and not f.get('m', {}).get('defaulted'):
                    self.ub('control reaches the end of a non-void function')
            return None
        finally:
            self.frames.pop()
            del self.temps[nt:]

    def ctor_inits(self, f, this, cls, fr):
        for i in f.get('inits', ()):
            fr.line = i.get('l') or fr.line
            k = i['k']
            if k == 'deleg':
                e = self.unwrap(i['e'])
                args = [self.ev(a) for a in e['a']]
                self.run_ctor(this, cls, e['f']['id'], args)
                return
            if k == 'base':
                b = i['base']
                br = self.p.records.get(b)
                e = self.unwrap(i['e'])
                if br is None or not br.get('repo'):
                    if e['k'] == 'Ctor':
                        for a in e['a']:
                            self.ev(a)
                    lib.base_ctor(self, this, b)
                    continue
                if e['k'] == 'Ctor':
                    args = [self.ev(a) for a in e['a']]
                    self.run_ctor(this, b, e['f']['id'], args)
                elif e['k'] == 'InhCtor':
                    args = [self.var(fr, p['d'], p['t']) for p in f['params']]
                    self.run_ctor(this, b, e['f']['id'], args)
                elif e['k'] == 'InitList':
                    self.agg_init(this, b, e)
                elif e['k'] == 'Zero':
                    self.zero_fields(this, b)
                else:
                    raise Imprecise('base initialiser %s' % e['k'])
                continue
            if k == 'field':
                this.f[(cls, i['f'])] = self.init_value(i['ft'], i['e'])
                continue
            raise Imprecise('initialiser %s' % k)
        # trivially constructible class members without initialiser stay lazily undefined

    def var(self, fr, d, t):
        loc = fr.vars[d]
        if t.k == 'ref':
            return loc
        return self.load(loc) if isinstance(loc, Cell) else loc

    def unwrap(self, e):
        while e['k'] in ('Cleanups', 'BindTemp', 'Mat') or (e['k'] == 'Cast' and e['ck'] in ('NoOp', 'ConstructorConversion')):
            e = e['e']
        return e

    def scan_cls(self, node):
        return node.get('cls')

    def call(self, callee, this, args, node=None, qual=False):
        """call a resolved callee"""
        fid = callee['id']
        if this is not None and callee.get('m') and not callee.get('static'):
            if isinstance(this, FnV):
                return lib.call_method(self, this, callee, args, node)
            if isinstance(this, Rec):
                return self.call_method(this, callee, args, node, qual)
            if isinstance(this, Obj) or not isinstance(this, Ptr):
                return lib.call_method(self, this, callee, args, node)
        f = self.p.functions.get(fid)
        h = self.flags.get('hooks', {}).get(callee['n'])
        if h:
            return h(self, this, args)
        if f is not None and f.get('body') is not None:
            return self.call_fn(f, this, args)
        return lib.call(self, callee, args, node)

    def call_method(self, this, callee, args, node=None, qual=False):
        if not this.alive:
            self.ub('call of %s on a destroyed object' % callee['n'])
        fid = callee['id']
        if callee.get('virt') and not qual:
            cls = this.cur or this.cls
            m = self.p.overrider(cls, fid)
            if m is not None:
                fid = m['id']
                if m['name'] == '(dtor)':
                    return self.destroy(this)
            pure = m is not None and m['pure']
        else:
            pure = False
            if callee.get('mn') == '(dtor)':
                return self.destroy(this)
        h = self.flags.get('hooks', {}).get(callee['n'])
        if h:
            return h(self, this, args)
        if this.opaque:
            r = self.host_call(this, callee, args)
            if r is not NotImplemented:
                return r
        f = self.p.functions.get(fid)
        if f is None or (f.get('body') is None):
            m = self.p.method_by_id(fid)
            if m is not None and m['name'] == 'operator=' and (m['defaulted'] or m['implicit']):
                self.assign_into_nc(this, args[0], m)
                return this
            if pure:
                self.ub('pure virtual call of %s' % callee['n'])
            rec = self.p.records.get(this.cls)
            if rec and rec.get('lambda'):
                return self.call_closure(this, args, fid)
            r = lib.rec_base_method(self, this, callee, args)
            if r is not NotImplemented:
                return r
            raise Imprecise('no body for %s' % fid)
        if f['m']['name'] == 'operator=' and f['m']['defaulted']:
            self.assign_into_nc(this, args[0], f['m'])
            return this
        rec = self.p.records.get(f.get('cls'))
        if rec and rec.get('lambda'):
            return self.call_closure(this, args, fid)
        return self.call_fn(f, this, args)

    def assign_into_nc(self, dst, src, m):
        if dst is src:
            return
        cls = m['pt'][0].to.name
        mv = bool(m['pt'][0].rv)
        rec = self.p.records[cls]
        for b in rec['bases']:
            if self.p.records.get(b['name'], {}).get('repo'):
                self.assign_into(dst, src, b['name'], mv)
        for f in rec.get('fields', ()):
            k = (cls, f['name'])
            v = src.f.get(k)
            if v is None:
                v = self.field_undef(src, k)
            old = dst.f.get(k)
            if old is None:
                dst.f[k] = self.copy_value(v, mv)
            else:
                self.assign_value(FieldLV(dst, k), old, v, mv)

    def call_closure(self, clo, args, fid):
        f = self.p.functions.get(fid)
        if f is None:
            raise Imprecise('closure body %s' % fid)
        if not clo.alive:
            self.ub('call of a destroyed closure')
        caps = {}
        this = None
        for k, x in clo.f.items():
            if k == 'this':
                this = x.t if isinstance(x, Ptr) else x
            else:
                caps[k[1]] = x
        # a captured reference to a dead local is caught on access
        return self.call_fn(f, this, args, caps=caps)

    def host_call(self, this, callee, args):
        name = callee['mn']
        h = this.host.get(name) if this.host else None
        if h is not None:
            return h(self, this, args)
        m = self.p.overrider(this.cls, callee['id'])
        if m is not None and not m['pure'] and m['id'] in self.p.functions:
            return NotImplemented
        if this.host is not None and this.host.get('*'):
            return this.host['*'](self, this, callee, args)
        self.events.append(('call', this.tag or this.cls, name, args))
        return self.fresh_of('%s.%s' % (this.tag or this.cls.split('::')[-1], name), callee['ret'])

    def invoke(self, fv, args, node=None):
        """call a callable value"""
        if isinstance(fv, Ptr):
            fv = fv.t if fv.t is not None else fv
            if isinstance(fv, Ptr):
                self.nonnull(fv, 'call')
        if isinstance(fv, Cell):
            fv = fv.v
        if isinstance(fv, Rec):
            rec = self.p.records.get(fv.cls)
            if rec and rec.get('lambda'):
                for m in self.p.find_methods(fv.cls, 'operator()'):
                    if len(m['pt']) == len(args):
                        f = self.p.functions.get(m['id'])
                        if f is not None:
                            return self.call_closure(fv, args, m['id'])
                raise Imprecise('generic closure')
            ms = [m for m in self.p.find_methods(fv.cls, 'operator()') if len(m['pt']) == len(args)]
            if ms:
                return self.call_method(fv, {'id': ms[0]['id'], 'n': 'operator()', 'mn': 'operator()', 'virt': ms[0]['virt'], 'm': True, 'ret': ms[0]['ret']}, args)
        if isinstance(fv, FnV):
            return lib.invoke(self, fv, args)
        if isinstance(fv, Opq) and fv.ty is not None and fv.ty.plain in lib.LOCKS:
            ta = [t for t in (fv.ty.ta or []) if not isinstance(t, int) and t is not None and t.k != 'void']
            return lib.libcalls_functor(self, fv.ty.plain, args, {'pt': ta})
        raise Imprecise('call of %r' % (fv,))

    # ------------------------------------------------------------ statements
    def tick(self):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Imprecise('step limit')

    def ex(self, s, fr):
        if s is None:
            return None
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Imprecise('step limit')
        k = s['k']
        l = s.get('l')
        if l:
            fr.line = l
            self.cover.line(fr.fn, l)
        return getattr(self, 'x_' + k)(s, fr)

    def scope_exit(self, sc):
        for v in reversed(sc):
            if isinstance(v, Cell):
                v.alive = False
            elif isinstance(v, Rec):
                self.destroy(v)
            elif isinstance(v, Obj):
                if v.alive:
                    lib.destroy(self, v)

    def x_Block(self, s, fr):
        sc = []
        fr.scopes.append(sc)
        r = None
        for x in s['b']:
            r = self.ex(x, fr)
            if r is not None:
                break
        fr.scopes.pop()
        if sc:
            self.scope_exit(sc)
        return r

    def x_Decl(self, s, fr):
        for v in s['v']:
            self.decl(v, fr)

    def decl(self, v, fr):
        ty = v['t']
        if v.get('static'):
            key = ('static', fr.fn['id'] if fr.fn else '', v['d'])
            if key not in self.globals:
                self.globals[key] = self.mkvar(v, ty, fr, static=True)
            fr.vars[v['d']] = self.globals[key]
            self.globals['(static)%d' % v['d']] = self.globals[key]
            return
        loc = self.mkvar(v, ty, fr)
        fr.vars[v['d']] = loc
        if v.get('bind'):
            for b in v['bind']:
                if b.get('hv'):
                    self.decl(b['hv'], fr)
                    fr.vars[b['d']] = fr.vars[b['hv']['d']]
                elif b.get('e'):
                    fr.vars[b['d']] = self.ev(b['e'])

    def mkvar(self, v, ty, fr, static=False):
        init = v.get('init')
        sc = fr.scopes[-1] if fr.scopes else []
        if ty.k == 'ref':
            loc = self.ev(init)
            if not init.get('lv') and not isinstance(loc, Obj):
                loc = Cell(loc, v['n'])
            return loc
        if init is None:
            val = self.undef_value(ty) if ty.k != 'rec' else self.default_obj(ty)
        else:
            val = self.init_value(ty, init)
        if isinstance(val, Obj) and not isinstance(val, (Cell, FnV)) and not (ty.k == 'ptr' and isinstance(val, (StrV, It))):
            if not static:
                sc.append(val)
            return val
        c = Cell(val, v['n'])
        if not static:
            sc.append(c)
        return c

    def cond(self, s, fr):
        if s.get('cv'):
            self.decl(s['cv'], fr)
        c = s['c']
        if c['k'] == 'Bool':
            return c['v']
        v = self.ev(c)
        self.cover.branch(fr.fn, fr.line)
        return self.truth(v)

    def truth(self, v):
        return self.decide(self.tobool(v))

    def tobool(self, v):
        if isinstance(v, T):
            return v if v.w == 1 else lnot(eq(v, const(0, v.w)))
        if isinstance(v, Ptr):
            if v.undef:
                return self.undef(1)
            return lnot(v.null)
        if isinstance(v, FnV):
            if v.k == 'undef':
                self.ub('use of an uninitialised function pointer')
            return boolc(v.k != 'null')
        if isinstance(v, (Cell, FieldLV, ElemLV, PunLV)):
            return self.tobool(self.load(v))
        raise Imprecise('condition %r' % (v,))

    def x_If(self, s, fr):
        sc = None
        if s.get('init') or s.get('cv'):
            sc = []
            fr.scopes.append(sc)
            if s.get('init'):
                self.ex(s['init'], fr)
        c = self.cond(s, fr)
        r = None
        if c:
            r = self.ex(s['t'], fr)
        elif s.get('e'):
            r = self.ex(s['e'], fr)
        if sc is not None:
            fr.scopes.pop()
            self.scope_exit(sc)
        return r

    MAXITER = 20000

    def x_While(self, s, fr):
        n = 0
        p0 = self.pos
        while True:
            sc = []
            fr.scopes.append(sc)
            c = self.cond(s, fr)
            r = self.ex(s['b'], fr) if c else None
            fr.scopes.pop()
            self.scope_exit(sc)
            if not c:
                return None
            if r is not None:
                if r == BRK:
                    return None
                if r != CONT:
                    return r
            n += 1
            self.loopcheck(n, p0)

    def loopcheck(self, n, p0):
        self.tick()
        if n > self.MAXITER or self.pos - p0 > self.flags.get('loopsplit', 80):
            raise Imprecise('loop bound')

    def x_Do(self, s, fr):
        n = 0
        p0 = self.pos
        while True:
            r = self.ex(s['b'], fr)
            if r is not None:
                if r == BRK:
                    return None
                if r != CONT:
                    return r
            if not self.truth(self.ev(s['c'])):
                return None
            n += 1
            self.loopcheck(n, p0)

    def x_For(self, s, fr):
        sc = []
        fr.scopes.append(sc)
        if s.get('i'):
            self.ex(s['i'], fr)
        n = 0
        p0 = self.pos
        out = None
        while True:
            if s.get('c') and not self.cond(s, fr):
                break
            r = self.ex(s['b'], fr)
            if r is not None:
                if r == BRK:
                    break
                if r != CONT:
                    out = r
                    break
            if s.get('u'):
                self.discard(self.ev(s['u']), s['u'])
            n += 1
            self.loopcheck(n, p0)
        fr.scopes.pop()
        self.scope_exit(sc)
        return out

    def x_ForRange(self, s, fr):
        sc = []
        fr.scopes.append(sc)
        if s.get('i'):
            self.ex(s['i'], fr)
        rng = self.ev(s['r'])
        if not s['r'].get('lv') and isinstance(rng, Obj):
            sc.append(rng)
        if isinstance(rng, (Cell, FieldLV, ElemLV)):
            rng = self.load(rng)
        out = None
        n = 0
        p0 = self.pos
        v = s['v']
        for loc in lib.iterate(self, rng):
            isc2 = []
            fr.scopes.append(isc2)
            self.bind_range(v, loc, fr)
            r = self.ex(s['b'], fr)
            fr.scopes.pop()
            self.scope_exit(isc2)
            if r is not None:
                if r == BRK:
                    break
                if r != CONT:
                    out = r
                    break
            n += 1
            self.loopcheck(n, p0)
        fr.scopes.pop()
        self.scope_exit(sc)
        return out

    def bind_range(self, v, loc, fr):
        ty = v['t']
        if ty.k == 'ref':
            # a conversion in the loop variable initialiser (const T& x : range of U)
            fr.vars[v['d']] = loc
        else:
            val = loc if (isinstance(loc, Obj) and not isinstance(loc, Cell)) else self.load(loc)
            val = self.copy_value(val)
            if isinstance(val, T):
                w = self.bits_of(ty)
                if w and val.w != w:
                    raise Imprecise('range variable conversion')
            if isinstance(val, Obj) and not isinstance(val, FnV):
                fr.scopes[-1].append(val)
                fr.vars[v['d']] = val
            else:
                c = Cell(val, v['n'])
                fr.vars[v['d']] = c
        if v.get('bind'):
            for b in v['bind']:
                if b.get('hv'):
                    self.decl(b['hv'], fr)
                    fr.vars[b['d']] = fr.vars[b['hv']['d']]
                elif b.get('e'):
                    fr.vars[b['d']] = self.ev(b['e'])

    def x_Return(self, s, fr):
        e = s.get('e')
        if e is None:
            return Ret(None)
        rt = fr.fn['ret']
        v = self.ev(e)
        if rt.k == 'ref':
            return Ret(v)
        if e.get('lv') and rt.k == 'rec':
            v = self.copy_value(v)
        if rt.k == 'void':
            self.discard(v, e)
            return Ret(None)
        return Ret(v)

    def x_Break(self, s, fr):
        return BRK

    def x_Continue(self, s, fr):
        return CONT

    def x_Null(self, s, fr):
        return None

    def x_Case(self, s, fr):
        return self.ex(s['b'], fr)

    def x_Default(self, s, fr):
        return self.ex(s['b'], fr)

    def x_Unsupported(self, s, fr):
        raise Imprecise('statement %s' % s.get('cls'))

    def x_Switch(self, s, fr):
        sc = []
        fr.scopes.append(sc)
        if s.get('init'):
            self.ex(s['init'], fr)
        if s.get('cv'):
            self.decl(s['cv'], fr)
        c = self.ev(s['c'])
        self.cover.branch(fr.fn, fr.line)
        body = s['b']
        stmts = body['b'] if body['k'] == 'Block' else [body]
        labels = []
        for i, x in enumerate(stmts):
            while x['k'] in ('Case', 'Default'):
                labels.append((i, x))
                x = x['b']
        start = None
        dflt = None
        for i, x in labels:
            if x['k'] == 'Default':
                dflt = i
                continue
            v = self.ev(x['e'])
            if v.w != c.w:
                v = zext(v, c.w) if v.w < c.w else trunc(v, c.w)
            if self.decide(eq(c, v)):
                start = i
                break
        if start is None:
            start = dflt
        out = None
        if start is not None:
            isc2 = []
            fr.scopes.append(isc2)
            for x in stmts[start:]:
                r = self.ex(x, fr)
                if r is not None:
                    if r != BRK:
                        out = r
                    break
            fr.scopes.pop()
            self.scope_exit(isc2)
        fr.scopes.pop()
        self.scope_exit(sc)
        return out

    def x_Expr(self, s, fr):
        e = s['e']
        if e['k'] == 'Cleanups':
            self.temps.append([])
            v = self.ev(e['e'])
            self.discard(v, e['e'])
            self.pop_temps()
            return None
        v = self.ev(e)
        self.discard(v, e)

    def discard(self, v, e):
        """destroy a discarded class prvalue"""
        ty = e.get('t')
        if not e.get('lv') and isinstance(v, Obj) and not isinstance(v, Cell) and ty is not None and ty.k == 'rec':
            if isinstance(v, Rec) or v.alive:
                if e['k'] not in ('Assign', 'CAssign'):
                    self.destroy(v)

    def pop_temps(self):
        ts = self.temps.pop()
        for t in reversed(ts):
            if isinstance(t, Rec):
                self.destroy(t)
            elif t.alive:
                self.destroy(t)

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            raise Imprecise('expression %s' % e['k'])
        return m(e)

    def e_Unsupported(self, e):
        if e.get('cls') == 'SourceLocExpr' and e.get('t') is not None:
            if e['t'].k == 'int':
                return const(0, e['t'].w)
            if e['t'].k == 'ptr':
                return Ptr(base=Arr([const(0, 8)], e['t'].to, 1), off=0)
        raise Imprecise('expression %s' % e.get('cls'))

    def e_Bool(self, e):
        return boolc(e['v'])

    def e_Int(self, e):
        r = e.get('_c')
        if r is None:
            w = self.bits_of(e['t'])
            r = const(int(e['v']), w or 64)
            e['_c'] = r
        return r

    def e_Float(self, e):
        return const(bits_of_float(e['v'], e['t'].w), e['t'].w)

    def e_Str(self, e):
        if 'v' in e:
            s = StrV(e['v'])
        elif 'bytes' in e:
            s = StrV(''.join(chr(c) for c in e['bytes']))
        else:
            raise Imprecise('wide string')
        s.view = True
        return s

    def e_Null(self, e):
        return null()

    def e_This(self, e):
        this = self.frames[-1].this
        if this is None:
            raise Imprecise('no this')
        return Ptr(this)

    def e_Zero(self, e):
        return self.zero(e['t'])

    def e_Ref(self, e):
        loc = self.frames[-1].vars.get(e['d'])
        if loc is None:
            g = self.globals.get('(static)%d' % e['d'])
            if g is not None:
                return g
            raise Imprecise('variable %s' % e['n'])
        return loc

    def e_Global(self, e):
        return self.global_loc(e['g'], e['t'])

    def global_loc(self, g, ty):
        loc = self.globals.get(g)
        if loc is not None:
            return loc
        if g.startswith('(static)'):
            d = g.rsplit('#', 1)[1]
            loc = self.globals.get('(static)' + d)
            if loc is not None:
                return loc
        h = self.flags.get('globals', {}).get(g)
        if h is not None:
            loc = h(self)
            self.globals[g] = loc
            return loc
        gd = self.p.globals.get(g)
        if gd is None or not gd.get('init'):
            if gd is not None and gd.get('repo'):
                v = self.zero(gd['t']) if gd['t'].k != 'rec' else self.default_obj(gd['t'])
            else:
                v = lib.global_var(self, g, ty)
        else:
            fr = Frame(None, None)
            self.frames.append(fr)
            fr.scopes.append([])
            self.temps.append([])
            try:
                v = self.init_value(gd['t'], gd['init'])
            finally:
                self.frames.pop()
                self.temps.pop()
        if isinstance(v, Obj) and not isinstance(v, FnV):
            loc = v
        else:
            loc = Cell(v, g)
        self.globals[g] = loc
        return loc

    def e_Fn(self, e):
        return FnV('fn', e['f'])

    def obj_of(self, e, arrow):
        v = self.ev(e)
        if arrow:
            if isinstance(v, (Cell, FieldLV, ElemLV)):
                v = self.load(v)
            self.nonnull(v, 'member access')
            if v.base is not None:
                v = self.elem(v.base, v.off, None)
            else:
                v = v.t
            if v is None:
                raise Imprecise('member access through opaque pointer')
        return v

    def e_Mem(self, e):
        o = self.obj_of(e['b'], e['arrow'])
        if isinstance(o, Rec):
            if not o.alive:
                self.ub("access to member '%s' of a destroyed %s" % (e['f'], o.cls.split('::')[-1]))
            k = (e['own'], e['f'])
            v = o.f.get(k)
            if v is None:
                ty = self.field_type(k)
                v = self.field_undef(o, k)
            elif isinstance(v, (FieldLV, ElemLV, PunLV, DictLV, Cell)):
                return v
            if isinstance(v, Obj) and not isinstance(v, FnV):
                return v
            ty = self.field_type(k)
            return FieldLV(o, k)
        return lib.member(self, o, e['f'])

    def e_MemFn(self, e):
        return FnV('bound', FnV('fn', e['f']), [Ptr(self.obj_of(e['b'], e['arrow']))])

    def e_Cleanups(self, e):
        self.temps.append([])
        v = self.ev(e['e'])
        self.pop_temps()
        return v

    def e_Mat(self, e):
        v = self.ev(e['e'])
        if isinstance(v, Obj) and not isinstance(v, Cell):
            loc = v
        else:
            loc = Cell(v, 'tmp')
        if isinstance(v, Obj) and not isinstance(v, FnV):
            if e.get('ext'):
                fr = self.frames[-1]
                if fr.scopes:
                    fr.scopes[-1].append(v)
            else:
                self.temps[-1].append(v)
        return loc

    def e_BindTemp(self, e):
        return self.ev(e['e'])

    def e_StdInitList(self, e):
        a = self.ev(e['e'])
        if isinstance(a, Arr):
            return InitListV(a.items, a.el)
        raise Imprecise('initializer_list')

    def e_ArrCopy(self, e):
        a = self.ev(e['e'])
        return self.copy_value(a)

    def e_StmtExpr(self, e):
        raise Imprecise('statement expression')

    def e_Throw(self, e):
        self.abort('exception thrown')

    def e_Typeid(self, e):
        raise Imprecise('typeid')

    # -- calls
    def e_OpCall(self, e):
        f = e.get('f')
        args = [self.ev(a) for a in e['a']]
        if f is None:
            raise Imprecise('unresolved operator')
        if f.get('m'):
            this = args[0]
            if isinstance(this, (FieldLV, ElemLV, Cell, DictLV)):
                this = self.load(this)
            if isinstance(this, Rec):
                if e['op'] == '()' and self.p.records.get(this.cls, {}).get('lambda'):
                    return self.call_closure(this, args[1:], f['id'])
                return self.call_method(this, f, args[1:], e)
            return lib.call_method(self, this, f, args[1:], e)
        fn = self.p.functions.get(f['id'])
        if fn is not None and fn.get('body'):
            return self.call_fn(fn, None, args)
        return lib.operator(self, e['op'], f, args, e)

    def e_MCall(self, e):
        if 'f' not in e:
            ce = e['ce']
            if ce['k'] == 'Bin' and ce['op'] in ('.*', '->*'):
                o = self.ev(ce['L'])
                if isinstance(o, (FieldLV, ElemLV, Cell)):
                    o = self.load(o)
                m = self.ev(ce['R'])
                if not isinstance(m, FnV):
                    m = self.load(m)
                args = [self.ev(a) for a in e['a']]
                return self.invoke(m, [o if isinstance(o, Ptr) else Ptr(o)] + args)
            raise Imprecise('member call through pointer')
        o = self.obj_of(e['o'], e['arrow'])
        if isinstance(o, (FieldLV, ElemLV, DictLV)) or isinstance(o, Cell):
            o2 = self.load(o)
            if isinstance(o2, Obj):
                o = o2
        args = [self.ev(a) for a in e['a']]
        f = e['f']
        if isinstance(o, T) and f['mn'] == '(dtor)':
            return None
        return self.call(f, o, args, e, e.get('qual'))

    def e_Call(self, e):
        f = e.get('f')
        if f is None:
            fv = self.ev(e['ce'])
            if not isinstance(fv, (FnV, Rec)):
                fv = self.load(fv)
            args = [self.ev(a) for a in e['a']]
            return self.invoke(fv, args, e)
        args = [self.ev(a) for a in e['a']]
        return self.call(f, None, args, e)

    def e_Ctor(self, e):
        cls = e['cls']
        rec = self.p.records.get(cls)
        ty = e['t']
        if rec and rec.get('repo'):
            args = [self.ev(a) for a in e['a']]
            if ty.k == 'array':
                return Arr([self.construct(cls, e['f']['id'], args) for _ in range(ty.n)], ty.el, self.sizeof(ty.el))
            if rec.get('lambda'):
                return self.copy_value(args[0], e['move'])
            if (e['copy'] or e['move']) and len(args) == 1:
                src = args[0]
                if isinstance(src, Rec):
                    if not src.alive:
                        self.ub('copy of a destroyed object')
                    r = Rec(cls)
                    r.opaque, r.host, r.tag = src.opaque, src.host, src.tag
                    self.run_ctor(r, cls, e['f']['id'], args)
                    r.built = True
                    return r
            r = Rec(cls)
            if e.get('zi'):
                self.zero_fields(r, cls)
            return self.construct(cls, e['f']['id'], args, r)
        args = [self.ev(a) for a in e['a']]
        if ty.k == 'array':
            return Arr([lib.ctor(self, ty.el, e, args) for _ in range(ty.n or 0)], ty.el, self.sizeof(ty.el))
        return lib.ctor(self, ty, e, args)

    def e_InitList(self, e):
        ty = e['t']
        if ty.k == 'array':
            items = [self.init_value(ty.el, x) for x in e['a']]
            while len(items) < (ty.n or 0):
                items.append(self.init_value(ty.el, e['fill']) if e.get('fill') else self.zero(ty.el))
            return Arr(items, ty.el, self.sizeof(ty.el))
        if ty.k == 'rec':
            rec = self.p.records.get(ty.name)
            if rec and rec.get('repo'):
                r = Rec(ty.name)
                self.agg_init(r, ty.name, e)
                r.built = True
                return r
            return lib.agg(self, ty, [self.ev(a) for a in e['a']], e)
        if not e['a']:
            return self.zero(ty)
        return self.ev(e['a'][0])

    def agg_init(self, r, cls, e):
        rec = self.p.records[cls]
        a = list(e['a'])
        for b in rec['bases']:
            if a:
                x = self.unwrap(a.pop(0))
                if x['k'] == 'InitList':
                    self.agg_init(r, b['name'], x)
                elif x['k'] == 'Ctor':
                    self.run_ctor(r, b['name'], x['f']['id'], [self.ev(y) for y in x['a']])
                else:
                    raise Imprecise('aggregate base')
        if rec['union']:
            if a:
                fld = rec['fields'][0]
                r.f[(cls, fld['name'])] = self.init_value(fld['t'], a[0])
            return
        for fld in rec['fields']:
            k = (cls, fld['name'])
            if a:
                r.f[k] = self.with_this_keep(r, lambda: self.init_value(fld['t'], a.pop(0)))
            elif fld.get('init'):
                self.with_this(r, lambda: self.init_field(r, cls, fld))
            else:
                r.f[k] = self.zero(fld['t'])

    def with_this_keep(self, r, fn):
        return fn()

    def e_New(self, e):
        ty = e['at']
        if e['np']:
            raise Imprecise('placement new')
        if e['arr']:
            n = self.cint(self.ev(e['n']), what='allocation', limit=66)
            init = e.get('e')
            if n * max(1, self.sizeof(ty)) >= 1 << 47:
                self.abort('an allocation of %d elements cannot succeed' % n)
            if n > (1 << 26 if self.bits_of(ty) else 100000):
                raise Imprecise('large allocation')
            if n > 512 and self.bits_of(ty) and (init is None or init['k'] not in ('InitList', 'Ctor')):
                items = Sparse(n, (lambda: self.undef_value(ty)) if init is None else (lambda: self.zero(ty)))
            elif init is None:
                if ty.k == 'rec':
                    items = [self.default_obj(ty) for _ in range(n)]
                else:
                    items = [self.undef_value(ty) for _ in range(n)]
            elif init['k'] == 'InitList':
                items = [self.init_value(ty, x) for x in init['a']]
                while len(items) < n:
                    items.append(self.zero(ty))
            elif init['k'] == 'Ctor':
                one = dict(init)
                one['t'] = ty
                items = [self.ev(one) for _ in range(n)]
            else:
                items = [self.zero(ty) for _ in range(n)]
            a = Arr(items, ty, self.sizeof(ty), 'heap')
            self.alloc(a, 'new[]')
            return Ptr(base=a, off=0)
        init = e.get('e')
        if init is None:
            v = self.undef_value(ty) if ty.k != 'rec' else self.default_obj(ty)
        else:
            v = self.init_value(ty, init)
        if not isinstance(v, Obj) or isinstance(v, FnV):
            v = Cell(v, 'heap')
        if isinstance(v, Rec):
            v.cls = v.cls
        self.alloc(v, 'new')
        return Ptr(v)

    def e_Delete(self, e):
        p = self.ev(e['e'])
        if isinstance(p, Ptr) and p.t is not None and isinstance(p.t, Rec) and p.t.alive and not e['arr']:
            st = e['e']['t']
            if st.k == 'ptr' and st.to.k == 'rec' and st.to.name != p.t.cls:
                r = self.p.records.get(st.to.name)
                if r and r.get('repo') and not r.get('dtorvirt'):
                    self.ub('delete of a %s through a base class without a virtual destructor' % p.t.cls)
        self.delete(p, e['arr'])
        return None

    # -- operators
    def scalar(self, v):
        if isinstance(v, (Cell, FieldLV, ElemLV, PunLV, DictLV)):
            return self.load(v)
        return v

    def e_Un(self, e):
        op = e['op']
        if op == '&':
            x = e['e']
            if x['k'] == 'Fn':
                return FnV('fn', x['f'])
            return self.addr(self.ev(x))
        if op == '*':
            p = self.scalar(self.ev(e['e']))
            if isinstance(p, FnV):
                return p
            if isinstance(p, Arr):
                p = Ptr(base=p, off=0)
            if isinstance(p, It):
                return lib.it_deref(self, p)
            if isinstance(p, StrV):
                cs = p.chars()
                if cs is None:
                    raise Imprecise('string deref')
                return Cell(cs[0] if cs else const(0, 8))
            return self.deref(p, e['t'], 'dereference')
        if op in ('++', '--'):
            loc = self.ev(e['e'])
            if isinstance(loc, It):
                return lib.m_it(self, loc, 'operator' + op, [0] if e['post'] else [], None, e)
            old = self.load(loc)
            if isinstance(old, Ptr):
                new = self.ptr_add(old, 1 if op == '++' else -1, e['e']['t'].to)
            elif isinstance(old, It):
                new = lib.copy(self, old, False)
                lib.m_it(self, new, 'operator' + op, [], None, e)
            elif isinstance(old, StrV):
                new = lib.cstr_op(self, op[0], old, const(1, 64), None, None)
                if isinstance(loc, StrV):
                    raise Imprecise('increment of a string')
            elif e['e']['t'].k == 'float':
                w = old.w
                new = uf('f%s%d' % (op[0], w), [old, const(bits_of_float(1.0, w), w)], w)
            elif old.w == 1:
                new = TRUE
            else:
                new = add(old, const(1 if op == '++' else -1, old.w))
            self.store(loc, new)
            return old if e['post'] else loc
        v = self.ev(e['e'])
        if op == '!':
            return lnot(self.tobool(v))
        if op == '-':
            if e['t'].k == 'float':
                return bxor(v, const(1 << (v.w - 1), v.w))
            return neg(v)
        if op == '~':
            return bnot(v)
        if op == '+':
            return v
        if op in ('__extension__', '__real', '__imag'):
            return v
        raise Imprecise('unary %s' % op)

    def e_Assign(self, e):
        R = self.ev(e['R'])
        loc = self.ev(e['L'])
        if isinstance(loc, Rec):
            self.assign_into(loc, R, loc.cls, False)
            return loc
        self.store(loc, R)
        return loc

    def e_CAssign(self, e):
        R = self.ev(e['R'])
        loc = self.ev(e['L'])
        if isinstance(loc, It):
            return lib.m_it(self, loc, 'operator' + e['op'] + '=', [R], None, e)
        old = self.load(loc)
        lt = e['L']['t']
        if isinstance(old, Ptr):
            n = self.widen(R, e['R']['t'])
            if e['op'] == '-':
                n = neg(n)
            self.store(loc, self.ptr_add(old, n, lt.to))
            return loc
        if isinstance(old, It) and lt.k == 'ptr':
            new = lib.copy(self, old, False)
            lib.m_it(self, new, 'operator' + e['op'] + '=', [R], None, e)
            self.store(loc, new)
            return loc
        if isinstance(old, StrV) and lt.k == 'ptr' and not isinstance(loc, StrV):
            self.store(loc, lib.cstr_op(self, e['op'], old, R, None, None))
            return loc
        ct = e['ct']
        llt = e['lt']
        x = self.conv(old, lt, llt)
        v = self.arith(e['op'], x, R, llt, e['R']['t'])
        v = self.conv(v, ct, lt)
        self.store(loc, v)
        return loc

    def widen(self, v, ty):
        if v.w == 64:
            return v
        return sext(v, 64) if ty.sg else zext(v, 64)

    def e_Bin(self, e):
        op = e['op']
        if op == '&&':
            a = self.tobool(self.ev(e['L']))
            if not self.decide(a):
                return FALSE
            return self.tobool(self.ev(e['R']))
        if op == '||':
            a = self.tobool(self.ev(e['L']))
            if self.decide(a):
                return TRUE
            return self.tobool(self.ev(e['R']))
        if op == ',':
            self.discard(self.ev(e['L']), e['L'])
            return self.ev(e['R'])
        L = self.ev(e['L'])
        R = self.ev(e['R'])
        return self.binop(op, L, R, e['L']['t'], e['R']['t'], e['t'])

    def binop(self, op, L, R, lt, rt, ty):
        if isinstance(L, It) or isinstance(R, It):
            return lib.operator(self, op, None, [L, R], None)
        if isinstance(L, (Ptr, FnV)) or isinstance(R, (Ptr, FnV)):
            return self.ptr_op(op, L, R, lt, rt)
        if isinstance(L, StrV) or isinstance(R, StrV):
            return lib.cstr_op(self, op, L, R, lt, rt)
        if not isinstance(L, T) or not isinstance(R, T):
            raise Imprecise('binary %s on %r, %r' % (op, L, R))
        return self.arith(op, L, R, lt, rt)

    def ptr_op(self, op, L, R, lt, rt):
        if op == '==':
            return self.ptr_eq(L, R)
        if op == '!=':
            return lnot(self.ptr_eq(L, R))
        if op in ('+', '-'):
            if isinstance(R, T):
                n = self.widen(R, rt)
                return self.ptr_add(L, n if op == '+' else neg(n), lt.to)
            if isinstance(L, T):
                return self.ptr_add(R, self.widen(L, lt), rt.to)
            if op == '-':
                a, o1 = self.norm_arr(L)
                b, o2 = self.norm_arr(R)
                if a is not b or a is None:
                    if self.same_target(L, R) is TRUE:
                        return const(0, 64)
                    raise Imprecise('difference of unrelated pointers')
                d = sub(self._t64(o1), self._t64(o2))
                sz = self.sizeof(lt.to)
                return sdiv(d, const(sz, 64)) if sz != 1 else d
        if op in ('<', '>', '<=', '>='):
            a, o1 = self.norm_arr(L)
            b, o2 = self.norm_arr(R)
            if a is b and a is not None:
                x, y = self._t64(o1), self._t64(o2)
                return {'<': lambda: slt(x, y), '>': lambda: slt(y, x), '<=': lambda: lnot(slt(y, x)),
                        '>=': lambda: lnot(slt(x, y))}[op]()
        raise Imprecise('pointer operation %s' % op)

    def norm_arr(self, p):
        if p.base is not None:
            return p.base, p.off
        if isinstance(p.t, Arr):
            return p.t, 0
        if type(p.t) is Rec and p.t.home is not None:
            return self.rec_home(p.t, p.t.home.es)
        return None, None

    def rec_home(self, r, sz):
        """the array a record is an element of, and its offset: itself if none"""
        a = r.home
        while a is not None and a.fwd is not None:
            a = a.fwd
        if a is not None:
            for i, x in enumerate(a.items):
                if x is r:
                    return a, i * a.es
        a = Arr([r], None, sz, 'array')
        r.home = a
        return a, 0

    def arith(self, op, x, y, lt, rt):
        if lt.k == 'float':
            w = lt.w
            if op in '+-*/':
                return self.fuf('f%s%d' % (op, w), x, y, w)
            if op == '==':
                return self.fuf('feq%d' % w, x, y, 1)
            if op == '!=':
                return lnot(self.fuf('feq%d' % w, x, y, 1))
            if op == '<':
                return self.fuf('flt%d' % w, x, y, 1)
            if op == '>':
                return self.fuf('flt%d' % w, y, x, 1)
            if op == '<=':
                return lor(self.fuf('flt%d' % w, x, y, 1), self.fuf('feq%d' % w, x, y, 1))
            if op == '>=':
                return lor(self.fuf('flt%d' % w, y, x, 1), self.fuf('feq%d' % w, x, y, 1))
        sg = lt.sg
        if op in ('<<', '>>'):
            if y.w != x.w:
                y = zext(y, x.w) if y.w < x.w else (const(min(cval(y), mask(x.w)), x.w) if isc(y) else trunc(y, x.w))
            oob = lnot(ult(y, const(x.w, y.w)))
            d = self.path.decide(oob)
            if d is True:
                self.ub('shift by %r of a %d bit value' % (y, x.w))
            if self.path.known:
                from paths import rebuild
                y = rebuild(y, self.path.known, self.path.memo)
            if op == '<<':
                return shl(x, y)
            return ashr(x, y) if sg else lshr(x, y)
        if x.w != y.w:
            raise Imprecise('width mismatch in %s' % op)
        if op == '+':
            return add(x, y) if x.w > 1 else lxor(x, y)
        if op == '-':
            return sub(x, y)
        if op == '*':
            return mul(x, y)
        if op in ('/', '%'):
            if self.decide(eq(y, const(0, y.w))):
                self.ub('division by zero')
            if sg:
                if isc(y) and sval(y) == -1 and isc(x) and cval(x) == 1 << (x.w - 1):
                    self.ub('signed division overflow')
                return sdiv(x, y) if op == '/' else srem(x, y)
            return udiv(x, y) if op == '/' else urem(x, y)
        if op == '&':
            return band(x, y)
        if op == '|':
            return bor(x, y)
        if op == '^':
            return bxor(x, y)
        if op == '==':
            return eq(x, y)
        if op == '!=':
            return lnot(eq(x, y))
        lt_ = slt if sg else ult
        if op == '<':
            return lt_(x, y)
        if op == '>':
            return lt_(y, x)
        if op == '<=':
            return lnot(lt_(y, x))
        if op == '>=':
            return lnot(lt_(x, y))
        raise Imprecise('operator %s' % op)

    def fuf(self, name, x, y, w):
        if isc(x) and isc(y) and name in UF_EVAL:
            return const(UF_EVAL[name](cval(x), cval(y)), w)
        return uf(name, [x, y], w)

    def e_Cond(self, e):
        c = self.tobool(self.ev(e['c']))
        self.cover.branch(self.frames[-1].fn, e.get('l'))
        if not isc(c) and self.pure_const(e['x']) and self.pure_const(e['y']):
            # join of two constants: y + c * (x - y)
            x, y = self.ev(e['x']), self.ev(e['y'])
            if isinstance(x, T) and isinstance(y, T) and isc(x) and isc(y) and x.w == y.w:
                if x.w == 1:
                    return x if x is y else (c if x is TRUE else lnot(c))
                return add(y, mul(zext(c, x.w), sub(x, y)))
        if self.decide(c):
            return self.ev(e['x'])
        return self.ev(e['y'])

    def pure_const(self, e):
        k = e['k']
        if k in ('Int', 'Bool', 'Char'):
            return True
        if k in ('Cast', 'Paren', 'ICast', 'Un') and isinstance(e.get('e'), dict):
            return self.pure_const(e['e'])
        return False

    def e_Idx(self, e):
        b = self.ev(e['b'])
        i = self.ev(e['i'])
        bt, it = e['b']['t'], e['i']['t']
        if it.k == 'ptr':
            b, i, bt, it = i, b, it, bt
        b = self.scalar(b)
        i = self.scalar(i)
        if isinstance(b, StrV):
            return lib.str_at(self, b, i)
        if isinstance(b, Arr):
            b = Ptr(base=b, off=0)
        p = self.ptr_add(b, self.widen(i, it), bt.to)
        return self.deref(p, bt.to, 'subscript')

    def e_Lambda(self, e):
        r = Rec(e['cls'])
        fr = self.frames[-1]
        for c in e['caps']:
            k = c['k']
            if k == 'this':
                r.f['this'] = Ptr(fr.this)
            elif k == 'starthis':
                r.f['this'] = self.copy_value(fr.this)
            elif k == 'ref':
                loc = fr.vars.get(c['d'])
                if loc is None and c.get('init'):
                    loc = self.ev(c['init'])
                r.f[('ref', c['d'])] = loc
            else:
                if c.get('init'):
                    v = self.ev(c['init'])
                    if c['init'].get('lv'):
                        v = self.copy_value(self.load(v))
                else:
                    v = self.copy_value(self.load(fr.vars[c['d']]))
                if isinstance(v, Obj) and not isinstance(v, FnV):
                    r.f[('cap', c['d'])] = v
                else:
                    r.f[('cap', c['d'])] = Cell(v, c['n'])
        r.built = True
        return r

    # -- casts
    def conv(self, v, ft, tt):
        """arithmetic conversion of v from ft to tt"""
        if not isinstance(v, T):
            return v
        if tt.k == 'bool':
            if ft.k == 'float':
                return lnot(self.fuf('feq%d' % ft.w, v, const(0, ft.w), 1))
            return self.tobool(v)
        if ft.k == 'bool':
            if tt.k == 'float':
                return self.int2f(v, ft, tt)
            return zext(v, tt.w)
        if ft.k == 'float' and tt.k == 'float':
            if ft.w == tt.w:
                return v
            n = 'f%dto%d' % (ft.w, tt.w)
            if isc(v) and n in UF_EVAL:
                return const(UF_EVAL[n](cval(v)), tt.w)
            return uf(n, [v], tt.w)
        if ft.k == 'float':
            n = 'f%dto%s%d' % (ft.w, 's' if tt.sg else 'u', tt.w)
            if isc(v):
                f = float_of_bits(cval(v), ft.w)
                if f == f and abs(f) < 2 ** 70:
                    return const(int(f), tt.w)
            return uf(n, [v], tt.w)
        if tt.k == 'float':
            return self.int2f(v, ft, tt)
        if tt.w is None:
            return v
        if tt.w <= v.w:
            return trunc(v, tt.w)
        return sext(v, tt.w) if ft.sg else zext(v, tt.w)

    def int2f(self, v, ft, tt):
        if isc(v):
            return const(bits_of_float(float(sval(v) if ft.sg and v.w > 1 else cval(v)), tt.w), tt.w)
        if v.w == 1:
            v = zext(v, 32)
        return uf('%s%dtof%d' % ('s' if ft.sg else 'u', v.w, tt.w), [v], tt.w)

    def e_Cast(self, e):
        ck = e['ck']
        x = e['e']
        if ck == 'LValueToRValue':
            loc = self.ev(x)
            v = self.load(loc) if not (isinstance(loc, Obj) and not isinstance(loc, Cell)) else loc
            if isinstance(v, Rec) and e['t'].k == 'rec':
                return self.copy_value(v)
            if isinstance(v, T) and e['t'].k == 'bool' and v.w == 8:
                return lnot(eq(v, const(0, 8)))
            if isinstance(v, T) and v.w == 1 and e['t'].k == 'int':
                return zext(v, e['t'].w)
            if isinstance(v, FnV) and v.k == 'undef':
                return v
            return v
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay',
                  'BuiltinFnToFnPtr', 'DerivedToBaseMemberPointer', 'ReinterpretMemberPointer', 'AtomicToNonAtomic',
                  'NonAtomicToAtomic'):
            return self.ev(x)
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase'):
            v = self.ev(x)
            if isinstance(v, Ptr) and v.base is not None:
                el = self.elem(v.base, v.off, None)
                return Ptr(el)
            if isinstance(v, Rec) and not e.get('lv') and e['t'].k == 'rec':
                return v
            return v
        if ck == 'BaseToDerived':
            v = self.ev(x)
            t = e['t']
            tgt = v.t if isinstance(v, Ptr) else v
            ct = t.to if t.k == 'ptr' else t
            if isinstance(v, Ptr) and v.null is TRUE:
                return v
            if isinstance(tgt, Rec) and ct.k == 'rec' and not self.p.derives(tgt.cls, ct.name) and not tgt.opaque:
                self.ub('static_cast of a %s to %s' % (tgt.cls, ct.name))
            return v
        if ck == 'Dynamic':
            v = self.ev(x)
            t = e['t']
            if t.k == 'ptr':
                if v.undef:
                    self.ub('dynamic_cast of an uninitialised pointer')
                if v.null is TRUE or (v.null is not FALSE and self.decide(v.null)):
                    return null()
                tgt = v.t
                if not isinstance(tgt, Rec):
                    raise Imprecise('dynamic_cast')
                if not tgt.alive:
                    self.ub('dynamic_cast of a destroyed object')
                if tgt.opaque and not self.p.derives(tgt.cls, t.to.name):
                    h = (tgt.host or {}).get('(dynamic_cast)')
                    return h(self, tgt, t.to.name) if h else null()
                return v if self.p.derives(tgt.cur or tgt.cls, t.to.name) else null()
            raise Imprecise('dynamic_cast to reference')
        if ck in ('IntegralCast', 'IntegralToBoolean', 'FloatingCast', 'IntegralToFloating', 'FloatingToIntegral',
                  'FloatingToBoolean', 'BooleanToSignedIntegral'):
            v = self.ev(x)
            return self.conv(v, x['t'], e['t'])
        if ck == 'PointerToBoolean':
            return self.tobool(self.ev(x))
        if ck == 'NullToPointer':
            self.ev(x)
            return FnV('null') if e['t'].k == 'ptr' and e['t'].to.k == 'func' else null()
        if ck == 'NullToMemberPointer':
            return FnV('null')
        if ck == 'MemberPointerToBoolean':
            return self.tobool(self.ev(x))
        if ck == 'ArrayToPointerDecay':
            v = self.ev(x)
            if isinstance(v, StrV):
                return v
            if isinstance(v, Arr):
                return Ptr(base=v, off=0)
            raise Imprecise('decay of %r' % (v,))
        if ck == 'BitCast':
            v = self.ev(x)
            return v
        if ck == 'LValueBitCast':
            loc = self.ev(x)
            t = e['t']
            w = self.bits_of(t)
            if isinstance(loc, (Cell, FieldLV, ElemLV)) and w:
                cur = self.load(loc)
                if isinstance(cur, T):
                    if cur.w == w:
                        return loc
                    return PunLV(ScalarView(loc, max(1, cur.w // 8)), 0, w, t)
            return loc
        if ck == 'LValueToRValueBitCast':
            loc = self.ev(x)
            v = self.load(loc) if not isinstance(loc, T) else loc
            w = self.bits_of(e['t'])
            if isinstance(v, T) and w == v.w:
                return v
            raise Imprecise('bit_cast')
        if ck == 'ToVoid':
            v = self.ev(x)
            self.discard(v, x)
            return None
        if ck == 'PointerToIntegral':
            v = self.ev(x)
            if isinstance(v, Ptr) and v.null is TRUE:
                return const(0, 64)
            if isinstance(v, Ptr):
                a, o = self.norm_ptr(v)
                if a is None:
                    raise Imprecise('address of opaque')
                if not isinstance(a, Obj):
                    raise Imprecise('address of a member')
                base = self.flags.setdefault('addrs', {})
                if id(a) not in base:
                    base[id(a)] = (a, self.fresh('addr', 64))
                return add(base[id(a)][1], self._t64(o or 0))
            raise Imprecise('pointer to integer')
        if ck == 'IntegralToPointer':
            v = self.ev(x)
            if isc(v) and cval(v) == 0:
                return null()
            raise Imprecise('integer to pointer')
        raise Imprecise('cast %s' % ck)
