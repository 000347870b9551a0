"""Models of the standard library and absl entities the repository uses."""
from terms import *
from values import *

VEC = {'std::vector', 'std::deque', 'std::list', 'absl::InlinedVector', 'absl::FixedArray', 'std::queue', 'std::stack'}
OMAP = {'std::map', 'absl::btree_map', 'std::multimap', 'absl::btree_multimap'}
HMAP = {'std::unordered_map', 'absl::flat_hash_map', 'absl::node_hash_map', 'absl::linked_hash_map'}
OSET = {'std::set', 'absl::btree_set', 'std::multiset', 'absl::btree_multiset'}
HSET = {'std::unordered_set', 'absl::flat_hash_set', 'absl::node_hash_set'}
STR = {'std::basic_string', 'std::basic_string_view', 'absl::string_view', 'absl::AlphaNum', 'std::basic_string::__sv_wrapper',
       'absl::strings_internal::ConvertibleToStringView'}
FUN = {'std::function', 'absl::AnyInvocable', 'absl::FunctionRef'}
OSTREAM = {'std::basic_ostream', 'std::basic_ostringstream', 'std::basic_stringstream', 'std::basic_ofstream',
           'std::basic_istringstream', 'std::basic_istream', 'std::basic_ifstream', 'std::basic_fstream', 'std::basic_iostream', 'std::basic_ios'}
LOCKS = {'std::mutex', 'std::recursive_mutex', 'absl::Mutex', 'absl::MutexLock', 'std::lock_guard', 'std::unique_lock',
         'std::scoped_lock', 'absl::ReaderMutexLock', 'absl::WriterMutexLock', 'std::allocator', 'absl::Notification',
         'absl::ReleasableMutexLock', 'std::hash', 'std::less', 'std::equal_to', 'std::greater', 'std::plus',
         'absl::hash_internal::Hash', 'std::char_traits', 'std::multiplies', 'std::bit_or', 'std::bit_and', 'std::minus',
         'std::bit_xor', 'std::logical_and', 'std::logical_or', 'std::in_place_t', 'std::in_place_type_t', 'std::tuple_size',
         'std::integral_constant', 'std::ios_base::Init', 'std::not_equal_to', 'std::logical_not', 'std::negate',
         'std::piecewise_construct_t', 'std::default_delete', 'std::nothrow_t'}

CODES = {'Ok': 0, 'Cancelled': 1, 'Unknown': 2, 'InvalidArgument': 3, 'DeadlineExceeded': 4, 'NotFound': 5,
         'AlreadyExists': 6, 'PermissionDenied': 7, 'ResourceExhausted': 8, 'FailedPrecondition': 9, 'Aborted': 10,
         'OutOfRange': 11, 'Unimplemented': 12, 'Internal': 13, 'Unavailable': 14, 'DataLoss': 15,
         'Unauthenticated': 16}

c64 = lambda v: const(v, 64)


class CharLV(object):
    __slots__ = ('s', 'i')
    kind = 'char'
    alive = True

    def __init__(self, s, i):
        self.s, self.i = s, i

    def get(self):
        cs = self.s.chars()
        if self.i == len(cs):
            return const(0, 8)
        return cs[self.i]

    def set(self, v):
        cs = self.s.chars()
        cs[self.i] = v
        self.s.p = norm_pieces([('b', c) for c in cs])


def isloc(x):
    return isinstance(x, (Cell, FieldLV, ElemLV, PunLV, DictLV, CharLV))


def val(I, x):
    """rvalue of an argument that may be a location"""
    if isloc(x):
        return I.load(x)
    return x


def relocate(I, v):
    """an element moved to other storage: the old object is gone"""
    if isinstance(v, Rec):
        m = I.special(v.cls, True, False) if v.cls in I.p.records else None
        nv = I.copy_value(v, not (m is not None and m.get('move') and not m.get('nx') and not m['defaulted'] and not m['implicit']))
        I.destroy(v)
        return nv
    if isinstance(v, Arr) and v.sort != 'array' and v.sort != 'std::array':
        a = Arr(v.items, v.el, v.es, v.sort)
        a.cap, a.gen = v.cap, v.gen
        v.alive = False
        v.fwd = a
        return a
    return v


def reserve(I, o, need, exact=False):
    """capacity growth of a vector: the elements move"""
    if o.sort != 'std::vector':
        return
    n = len(o.items)
    if o.cap < n:
        o.cap = n
    if need <= o.cap:
        return
    o.cap = need if exact else max(need, 2 * n)
    if n:
        o.gen += 1
        for i in range(n):
            v = o.items[i]
            if isinstance(v, Obj):
                o.items[i] = relocate(I, v)


def map_changed(I, m, ins):
    m.mod += 1
    if m.move in ('btree', 'flat') and (ins and not (m.move == 'flat' and len(m.ents) <= m.rsv) or not ins and m.move == 'btree'):
        m.gen += 1
        for e in m.ents:
            if isinstance(e[1], (Rec, Arr)):
                e[1] = relocate(I, e[1])
    elif ins and m.move == 'hash' and len(m.ents) > m.rsv:
        m.gen += 1      # iterators only


def it_sync(I, it):
    """brings an iterator up to date with its container"""
    c = it.c
    while isinstance(c, Arr):
        if c.fwd is not None:
            c = it.c = c.fwd
        elif it.gen != c.gen and c.moved is not None and c.moved[0] == it.gen:
            it.c, it.gen = c.moved[1:]
            c = it.c
        else:
            break
    if c is None or not c.alive:
        return
    if isinstance(c, Arr):
        if it.gen != c.gen:
            I.ub('use of an iterator into a vector that has been reallocated')
    elif isinstance(c, MapV) and it.mod != c.mod:
        if it.gen != c.gen:
            I.ub('use of an iterator invalidated by a change of its container')
        if it.ent is None:
            it.pos = 0 if it.rev else len(c.ents)
        else:
            for i, e in enumerate(c.ents):
                if e is it.ent:
                    it.pos = i + 1 if it.rev else i
                    break
            else:
                I.ub('use of an iterator to an erased element')
        it.mod = c.mod


def own(I, x, move=False):
    """copy for storing into a container"""
    if isloc(x):
        return I.copy_value(I.load(x))
    if isinstance(x, Obj):
        return I.copy_value(x, move)
    return x


def loc_in(lst, i):
    v = lst[i]
    if isinstance(v, Obj) and not isinstance(v, FnV):
        return v
    return DictLV(lst, i)


# ---------------------------------------------------------------- creation
def default(I, ty):
    pl = ty.plain
    if pl in VEC:
        el = ty.ta[0]
        if el is not None and pl in ('std::queue', 'std::stack'):
            pass
        return Arr([], el, I.sizeof(el), pl)
    if pl == 'std::array':
        el, n = ty.ta[0], ty.ta[1]
        return Arr([I.undef_value(el) if el.k != 'rec' else I.default_obj(el) for _ in range(n)], el, I.sizeof(el), 'std::array')
    m = None
    if pl in OMAP:
        m = MapV('omap', ty.ta[0], ty.ta[1], cmpof(I, ty, 2), 'multi' in pl)
    elif pl in HMAP:
        m = MapV('hmap', ty.ta[0], ty.ta[1])
    elif pl in OSET:
        m = MapV('oset', ty.ta[0], None, cmpof(I, ty, 1), 'multi' in pl)
    elif pl in HSET:
        m = MapV('hset', ty.ta[0], None)
    if m is not None:
        m.move = 'btree' if 'btree' in pl else 'flat' if 'flat' in pl else 'hash' if pl.startswith('std::unordered') else None
        return m
    if pl in STR:
        return StrV()
    if pl == 'std::unique_ptr':
        return UniqueV(null(), ty.ta[0] is not None and ty.ta[0].k == 'array')
    if pl == 'std::shared_ptr' or pl == 'std::weak_ptr':
        return SharedV(null(), None)
    if pl in FUN:
        return FnV('null')
    if pl == 'std::optional':
        return OptV(FALSE, None, ty.ta[0])
    if pl == 'std::variant':
        return VarV(0, I.zero(ty.ta[0]), ty.ta)
    if pl == 'std::monostate' or pl == 'std::nullopt_t' or pl == 'std::nullptr_t':
        return Opq(ty)
    if pl == 'std::any':
        return AnyV()
    if pl == 'std::pair' or pl == 'std::tuple':
        return PairV([I.zero(t) for t in ty.ta])
    if pl == 'std::atomic':
        return AtomicV(I.zero(ty.ta[0]))
    if pl == 'absl::Status':
        return StatusV(0, StrV())
    if pl == 'absl::StatusOr':
        return StatusOrV(StatusV(2, StrV()), None, ty.ta[0])
    if pl == 'absl::Span':
        return SpanV(null(), c64(0))
    if pl in OSTREAM:
        return StreamV(pl)
    if pl == 'std::initializer_list':
        return InitListV([], ty.ta[0])
    if pl == 'absl::NoDestructor':
        return I.default_obj(ty.ta[0])
    if pl.endswith('iterator') or pl in ('__gnu_cxx::__normal_iterator',):
        return It(None, 0)
    return Opq(ty)


def cmpof(I, ty, i):
    if len(ty.ta) > i and ty.ta[i] is not None and ty.ta[i].k == 'rec':
        t = ty.ta[i]
        if I.p.records.get(t.name, {}).get('repo'):
            return I.default_obj(t)
        if t.plain == 'std::greater':
            return 'greater'
        if t.plain in ('std::less', 'absl::container_internal::StringBtreeDefaultLess'):
            return None
    return None


def ctor(I, ty, e, args):
    pl = ty.plain
    copy = (e.get('copy') or e.get('move')) and len(args) == 1
    if copy and isloc(args[0]):
        args = [val(I, args[0])]
    if copy and isinstance(args[0], Obj) and pl not in OSTREAM:
        return I.copy_value(args[0], bool(e.get('move')))
    args = [a for a in args if not (isinstance(a, Opq) and a.ty is not None and a.ty.plain == 'std::allocator')]
    n = len(args)
    if n == 0:
        if pl in ('std::pair', 'std::tuple', 'std::array'):
            if pl == 'std::array':
                return Arr([I.zero(ty.ta[0]) for _ in range(ty.ta[1])], ty.ta[0], I.sizeof(ty.ta[0]), 'std::array') if e.get('zi') else default(I, ty)
        return default(I, ty)
    a0 = args[0]
    if pl in VEC:
        el = ty.ta[0]
        v = default(I, ty)
        if isinstance(a0, InitListV):
            v.items = [own(I, x, True) for x in a0.items]
            return v
        x = val(I, a0)
        if isinstance(x, T):
            cnt = I.cint(x, limit=66)
            if n >= 2 and not isinstance(args[1], Opq):
                v.items = [own(I, args[1]) for _ in range(cnt)]
            else:
                v.items = [I.zero(el) for _ in range(cnt)]
            return v
        if n >= 2:
            v.items = [own(I, l) for l in rng(I, a0, args[1])]
            return v
        if isinstance(a0, Arr):
            v.items = [own(I, loc) for loc in iterate(I, a0)]
            return v
        raise Imprecise('vector constructor')
    if pl in OMAP or pl in HMAP or pl in OSET or pl in HSET:
        m = default(I, ty)
        if isinstance(a0, InitListV):
            for x in a0.items:
                if m.sort in ('omap', 'hmap'):
                    map_insert(I, m, own(I, pair_elem(x, 0)), lambda x=x: own(I, pair_elem(x, 1)))
                else:
                    map_insert(I, m, own(I, x), lambda: None)
            return m
        if n >= 2 and isinstance(a0, (It, Ptr)):
            for l in rng(I, a0, args[1]):
                x = val(I, l)
                if m.sort in ('omap', 'hmap'):
                    map_insert(I, m, own(I, pair_elem(x, 0)), lambda x=x: own(I, pair_elem(x, 1)))
                else:
                    map_insert(I, m, own(I, x), lambda: None)
            return m
        return m
    if pl in STR:
        x = val(I, a0)
        if pl == 'absl::AlphaNum':
            return to_str(I, x, e['f']['pt'][0] if e['f']['pt'] else None)
        if isinstance(x, StrV):
            if n >= 2 and isinstance(val(I, args[1]), T):
                if n == 2:
                    return substr(I, x, 0, val(I, args[1]))
                return substr(I, x, I.cint(val(I, args[1])), val(I, args[2]))
            s = StrV(x.p)
            return s
        if isinstance(x, Ptr):
            if n >= 2 and isinstance(val(I, args[1]), T):
                cnt = I.cint(val(I, args[1]), limit=66)
                return StrV([('b', I.load(I.deref(I.ptr_add(x, i, e['f']['pt'][0].to), e['f']['pt'][0].to))) for i in range(cnt)])
            return cstr(I, x)
        if isinstance(x, T) and n >= 2:
            return StrV([('b', val(I, args[1]))] * I.cint(x))
        if isinstance(x, InitListV):
            return StrV([('b', val(I, y)) for y in x.items])
        if isinstance(x, It) and n >= 2:
            return StrV([('b', val(I, l)) for l in rng(I, a0, args[1])])
        raise Imprecise('string constructor')
    if pl == 'std::unique_ptr':
        x = val(I, a0)
        if isinstance(x, UniqueV):
            u = UniqueV(x.p, x.arr)
            x.p = null()
            return u
        if isinstance(x, Ptr):
            return UniqueV(x, ty.ta[0].k == 'array')
        return UniqueV(null(), ty.ta[0].k == 'array')
    if pl == 'std::shared_ptr':
        x = val(I, a0)
        if isinstance(x, SharedV):
            if x.cb:
                x.cb[0] += 1
            return SharedV(x.p, x.cb)
        if isinstance(x, UniqueV):
            s = SharedV(x.p, [1])
            x.p = null()
            return s
        if isinstance(x, Ptr):
            return SharedV(x, [1] if x.null is not TRUE else None)
    if pl in FUN:
        x = val(I, a0)
        if isinstance(x, Ptr) and x.null is TRUE:
            return FnV('null')
        if isinstance(x, Ptr) and isinstance(x.t, (Rec, FnV)):
            x = x.t
        if isinstance(x, FnV):
            return FnV(x.k, x.a, x.b)
        if isinstance(x, Rec):
            return FnV('obj', I.copy_value(x, True))
        raise Imprecise('function constructor')
    if pl == 'std::optional':
        x = val(I, a0)
        if isinstance(x, Opq):
            return OptV(FALSE, None, ty.ta[0])
        if isinstance(x, OptV):
            return OptV(x.has, I.copy_value(x.v), ty.ta[0])
        return OptV(TRUE, convert_to(I, x, ty.ta[0], argty(e, 0)), ty.ta[0])
    if pl == 'std::variant':
        return variant_from(I, ty, e, a0)
    if pl == 'std::any':
        t = argty(e, 0)
        return AnyV(decay(t), own(I, a0))
    if pl in ('std::pair', 'std::tuple'):
        if n == len(ty.ta):
            return PairV([convert_to(I, own(I, a, is_rv(e, i)), ty.ta[i], argty(e, i)) for i, a in enumerate(args)])
        if isinstance(a0, PairV):
            return PairV([own(I, x) for x in a0.v])
        raise Imprecise('pair constructor')
    if pl == 'std::atomic':
        return AtomicV(val(I, a0))
    if pl == 'absl::Status':
        return StatusV(I.cint(val(I, a0)), StrV(args[1].p) if n > 1 and isinstance(args[1], StrV) else StrV())
    if pl == 'absl::StatusOr':
        x = val(I, a0)
        if isinstance(x, StatusV):
            if x.code == 0:
                I.abort('an OK status is used as the error of a StatusOr')
            return StatusOrV(StatusV(x.code, x.msg), None, ty.ta[0])
        if isinstance(x, StatusOrV):
            return StatusOrV(x.st, I.copy_value(x.v, is_rv(e, 0)), ty.ta[0])
        return StatusOrV(StatusV(0, StrV()), convert_to(I, own(I, x, is_rv(e, 0)), ty.ta[0], argty(e, 0)), ty.ta[0])
    if pl == 'absl::Span':
        x = val(I, a0)
        if isinstance(x, Ptr):
            return SpanV(x, I.widen(val(I, args[1]), e['f']['pt'][1]) if n > 1 else c64(0), span_el(I, ty))
        if isinstance(x, Arr):
            return SpanV(Ptr(base=x, off=0), c64(len(x.items)))
        if isinstance(x, InitListV):
            return SpanV(Ptr(base=Arr(x.items, x.el, I.sizeof(x.el)), off=0), c64(len(x.items)))
        if isinstance(x, SpanV):
            return SpanV(x.p, x.n, x.el)
        if isinstance(x, StrV):
            raise Imprecise('span of string')
    if pl in OSTREAM:
        s = StreamV(pl)
        if pl == 'std::basic_ifstream':
            libcalls.open_file(I, s, a0)
            return s
        if isinstance(a0, StrV):
            s.s = StrV(a0.p)
        b = val(I, a0)
        if isinstance(b, Ptr) and b.null is not TRUE and isinstance(b.t, Rec):
            s.buf = b.t
        return s
    if pl in ('std::reverse_iterator',):
        it = a0
        return It(it.c, it.pos, not it.rev)
    if isinstance(a0, It):
        return It(a0.c, a0.pos, a0.rev)
    if isinstance(a0, FnV) or isinstance(a0, Rec):
        if pl.startswith('std::_Bind') or pl.startswith('absl::functional'):
            return a0
    if pl.startswith('absl::str_format_internal') or pl == 'absl::FormatSpec' or 'FormatSpec' in pl or 'FormatArg' in pl:
        return a0 if isinstance(a0, Obj) else Cell(a0)
    if pl == 'RE2':
        o = Opq(ty)
        o.tag = ('re', cstr(I, val(I, a0)).const())
        return o
    if pl in LOCKS:
        return Opq(ty)
    if pl in ('absl::Hex', 'absl::Dec'):
        w = 0
        if n > 1 and isc(val(I, args[1])):
            w = cval(val(I, args[1]))
        x = val(I, a0)
        if isc(x) and w <= 20:
            v = cval(x)
            if pl == 'absl::Hex':
                return StrV(('%x' % v).rjust(w, '0'))
        return StrV([('f', ('hex' if pl == 'absl::Hex' else 'dec') + str(w), zext(x, 64))])
    if pl == 'std::reference_wrapper':
        return Ptr(a0)
    if pl == 'absl::NoDestructor':
        return a0
    raise Imprecise('constructor of %s' % ty.s)


def argty(e, i):
    a = e.get('a')
    if a and i < len(a):
        return a[i].get('t')
    return None


def is_rv(e, i):
    a = e.get('a')
    return bool(a and i < len(a) and a[i].get('lv') == 2)


def decay(t):
    while t is not None and t.k == 'ref':
        t = t.to
    return t


def convert_to(I, v, ty, ft):
    """implicit conversion inside a library wrapper"""
    if isinstance(v, T) and ty is not None and ty.k != 'rec':
        w = I.bits_of(ty)
        if w and v.w != w:
            ft = decay(ft)
            if ft is not None and ft.k in ('int', 'bool', 'enum', 'float'):
                return I.conv(v, ft, ty)
            raise Imprecise('conversion to %s' % ty.s)
        return v
    if ty is not None and ty.k == 'rec' and ty.plain in STR and isinstance(v, Ptr):
        return cstr(I, v)
    if ty is not None and ty.k == 'rec' and ty.plain == 'std::unique_ptr' and isinstance(v, Ptr):
        return UniqueV(v, ty.ta[0].k == 'array')
    if ty is not None and ty.k == 'rec' and ty.plain in FUN and isinstance(v, Rec):
        return FnV('obj', v)
    if ty is not None and ty.k == 'rec' and ty.plain == 'std::variant' and not isinstance(v, VarV):
        return variant_from(I, ty, {'a': [{'t': ft}]}, v)
    if ty is not None and ty.k == 'rec' and ty.plain == 'std::optional' and not isinstance(v, OptV):
        return OptV(TRUE, convert_to(I, v, ty.ta[0], ft), ty.ta[0])
    return v


def variant_from(I, ty, e, a0):
    t = decay(argty(e, 0))
    x = own(I, a0, True)
    if isinstance(x, VarV):
        return VarV(x.i, x.v, ty.ta)
    for i, alt in enumerate(ty.ta):
        if t is not None and alt.unq == t.unq:
            return VarV(i, x, ty.ta)
    if isinstance(x, StrV) or (t is not None and t.k == 'ptr' and t.to.s == 'const char'):
        for i, alt in enumerate(ty.ta):
            if alt.k == 'rec' and alt.plain in STR:
                return VarV(i, x if isinstance(x, StrV) else cstr(I, x), ty.ta)
    if isinstance(x, T):
        for i, alt in enumerate(ty.ta):
            if I.bits_of(alt) == x.w:
                return VarV(i, x, ty.ta)
    if isinstance(x, Ptr):
        for i, alt in enumerate(ty.ta):
            if alt.k == 'ptr':
                return VarV(i, x, ty.ta)
    if t is not None and t.k == 'rec' and t.plain == 'std::in_place_type_t':
        pass
    raise Imprecise('variant alternative')


def agg(I, ty, args, e):
    pl = ty.plain
    if pl == 'std::array':
        el, n = ty.ta[0], ty.ta[1]
        items = []
        if args:
            if isinstance(args[0], Arr) and len(args) == 1:
                items = list(args[0].items)
            else:
                items = [own(I, a) for a in args]
        while len(items) < n:
            items.append(I.zero(el))
        return Arr(items, el, I.sizeof(el), 'std::array')
    if not args:
        return default(I, ty)
    if len(args) == 1:
        return args[0]
    raise Imprecise('aggregate %s' % ty.s)


def base_ctor(I, this, b):
    return None


def copy(I, v, move):
    if isinstance(v, StrV):
        s = StrV(v.p)
        if move and not v.view:
            v.p = ()
        return s
    if isinstance(v, Arr):
        if move and v.sort not in ('array', 'std::array'):
            a = Arr(v.items, v.el, v.es, v.sort)
            a.cap = max(v.cap, len(v.items))
            v.items, v.cap = [], 0
            v.moved = (v.gen, a, a.gen)
            v.gen += 1
            return a
        return Arr([I.copy_value(x, move) for x in v.items], v.el, v.es, v.sort)
    if isinstance(v, MapV):
        m = MapV(v.sort, v.kt, v.vt, v.cmp, v.multi)
        m.move = v.move
        v.mod += 1
        if move:
            m.ents, v.ents = v.ents, []
        else:
            m.ents = [[I.copy_value(k), I.copy_value(x)] for k, x in v.ents]
        return m
    if isinstance(v, PairV):
        return PairV([I.copy_value(x, move) for x in v.v])
    if isinstance(v, UniqueV):
        if not move:
            raise Imprecise('copy of unique_ptr')
        u = UniqueV(v.p, v.arr)
        u.deleter = v.deleter
        v.p = null()
        return u
    if isinstance(v, SharedV):
        s = SharedV(v.p, v.cb)
        if move:
            v.p, v.cb = null(), None
        elif v.cb:
            v.cb[0] += 1
        return s
    if isinstance(v, FnV):
        n = FnV(v.k, v.a, v.b)
        if move and v.k == 'obj':
            v.k = 'null'
        return n
    if isinstance(v, StatusV):
        return StatusV(v.code, v.msg)
    if isinstance(v, StatusOrV):
        return StatusOrV(StatusV(v.st.code, v.st.msg), I.copy_value(v.v, move), v.vt)
    if isinstance(v, OptV):
        return OptV(v.has, I.copy_value(v.v, move) if v.v is not None else None, v.vt)
    if isinstance(v, VarV):
        return VarV(v.i, I.copy_value(v.v, move), v.alts)
    if isinstance(v, AnyV):
        return AnyV(v.ty, I.copy_value(v.v, move) if v.v is not None else None)
    if isinstance(v, It):
        n = It(v.c, v.pos, v.rev)
        n.gen, n.mod, n.ent = v.gen, v.mod, v.ent
        return n
    if isinstance(v, SpanV):
        return SpanV(v.p, v.n, v.el)
    if isinstance(v, InitListV):
        return InitListV(v.items, v.el)
    if isinstance(v, AtomicV):
        return AtomicV(v.cell.v)
    if isinstance(v, Opq):
        o = Opq(v.ty)
        o.tag = v.tag
        return o
    if isinstance(v, StreamV):
        return v
    raise Imprecise('copy of %s' % v.kind)


def destroy(I, v):
    if isinstance(v, FnV):
        return
    if isinstance(v, StrV):
        return
    v.alive = False
    if isinstance(v, Arr):
        for x in v.items:
            if isinstance(x, Obj):
                I.destroy(x)
    elif isinstance(v, MapV):
        for k, x in v.ents:
            if isinstance(k, Obj):
                I.destroy(k)
            if isinstance(x, Obj):
                I.destroy(x)
    elif isinstance(v, PairV):
        for x in v.v:
            if isinstance(x, Obj):
                I.destroy(x)
    elif isinstance(v, UniqueV):
        p, v.p = v.p, null()
        unique_delete(I, v, p)
    elif isinstance(v, SharedV):
        shared_release(I, v)
    elif isinstance(v, (StatusOrV, OptV, VarV, AnyV)):
        if isinstance(v.v, Obj):
            I.destroy(v.v)


def unique_delete(I, u, p):
    if p.null is TRUE:
        return
    I.delete(p, u.arr)


def shared_release(I, s):
    cb = s.cb
    s.cb = None
    if cb:
        cb[0] -= 1
        if cb[0] == 0:
            I.delete(s.p, False)
    s.p = null()


def assign(I, dst, src, move):
    if isinstance(src, Cell) or isloc(src):
        src = I.load(src)
    if dst is src:
        return
    if isinstance(dst, StrV):
        if isinstance(src, Ptr):
            src = cstr(I, src)
        if isinstance(src, T):
            dst.p = norm_pieces([('b', src)])
            return
        dst.p = src.p
        if move and not src.view:
            src.p = ()
        return
    if isinstance(dst, Arr):
        if isinstance(src, InitListV):
            new = [own(I, x) for x in src.items]
        elif move and dst.sort not in ('array', 'std::array'):
            if dst is src:
                return
            new, src.items = src.items, []
            dst.gen += 1
            src.moved = (src.gen, dst, dst.gen)
            dst.cap, src.cap = max(src.cap, len(new)), 0
            src.gen += 1
        else:
            new = [I.copy_value(x, move) for x in src.items]
        if dst.sort in ('array', 'std::array'):
            for i, x in enumerate(new):
                if isinstance(dst.items[i], Rec):
                    I.assign_into(dst.items[i], src.items[i], dst.items[i].cls, move)
                else:
                    dst.items[i] = x
            return
        old = dst.items
        dst.items = new
        for x in old:
            if isinstance(x, Obj):
                I.destroy(x)
        return
    if isinstance(dst, MapV):
        old = dst.ents
        if move:
            dst.ents, src.ents = src.ents, []
        elif isinstance(src, InitListV):
            m = ctor_map_like(I, dst, src)
            dst.ents = m.ents
        else:
            dst.ents = [[I.copy_value(k), I.copy_value(x)] for k, x in src.ents]
        for k, x in old:
            for y in (k, x):
                if isinstance(y, Obj):
                    I.destroy(y)
        return
    if isinstance(dst, PairV):
        for i, x in enumerate(src.v):
            if isinstance(dst.v[i], Obj) and not isinstance(dst.v[i], FnV):
                I.assign_value(None, dst.v[i], x, move)
            else:
                dst.v[i] = I.copy_value(val(I, x), move)
        return
    if isinstance(dst, UniqueV):
        if isinstance(src, UniqueV):
            p, src.p = src.p, null()
        else:
            p = null()
        old, dst.p = dst.p, p
        unique_delete(I, dst, old)
        return
    if isinstance(dst, SharedV):
        if isinstance(src, SharedV):
            p, cb = src.p, src.cb
            if move:
                src.p, src.cb = null(), None
            elif cb:
                cb[0] += 1
        else:
            p, cb = null(), None
        shared_release(I, dst)
        dst.p, dst.cb = p, cb
        return
    if isinstance(dst, FnV):
        if isinstance(src, FnV):
            dst.k, dst.a, dst.b = src.k, src.a, src.b
        elif isinstance(src, Rec):
            dst.k, dst.a, dst.b = 'obj', I.copy_value(src, True), None
        elif isinstance(src, Ptr) and src.null is TRUE:
            dst.k = 'null'
        else:
            raise Imprecise('function assignment')
        return
    if isinstance(dst, StatusV):
        dst.code, dst.msg = src.code, src.msg
        return
    if isinstance(dst, StatusOrV):
        old = dst.v
        if isinstance(src, StatusOrV):
            dst.st, dst.v = StatusV(src.st.code, src.st.msg), I.copy_value(src.v, move)
        elif isinstance(src, StatusV):
            dst.st, dst.v = StatusV(src.code, src.msg), None
        else:
            dst.st, dst.v = StatusV(0, StrV()), own(I, src, move)
        if isinstance(old, Obj):
            I.destroy(old)
        return
    if isinstance(dst, OptV):
        old = dst.v
        if isinstance(src, OptV):
            dst.has, dst.v = src.has, I.copy_value(src.v, move) if src.v is not None else None
        elif isinstance(src, Opq):
            dst.has, dst.v = FALSE, None
        else:
            dst.has, dst.v = TRUE, own(I, src, move)
        if isinstance(old, Obj):
            I.destroy(old)
        return
    if isinstance(dst, VarV):
        if isinstance(src, VarV):
            dst.i, dst.v = src.i, I.copy_value(src.v, move)
            return
    if isinstance(dst, AnyV):
        if isinstance(src, AnyV):
            dst.ty, dst.v = src.ty, I.copy_value(src.v, move) if src.v is not None else None
            return
    if isinstance(dst, It):
        dst.c, dst.pos, dst.rev = src.c, src.pos, src.rev
        dst.gen, dst.mod, dst.ent = src.gen, src.mod, src.ent
        return
    if isinstance(dst, SpanV):
        if isinstance(src, Arr):
            dst.p, dst.n, dst.el = Ptr(base=src, off=0), c64(len(src.items)), None
        else:
            dst.p, dst.n, dst.el = src.p, src.n, src.el
        return
    if isinstance(dst, AtomicV):
        dst.cell.v = src.cell.v if isinstance(src, AtomicV) else src
        return
    if isinstance(dst, Opq):
        return
    raise Imprecise('assignment of %s' % dst.kind)


def ctor_map_like(I, like, il):
    m = MapV(like.sort, like.kt, like.vt, like.cmp, like.multi)
    for x in il.items:
        if m.sort in ('omap', 'hmap'):
            map_insert(I, m, own(I, pair_elem(x, 0)), lambda x=x: own(I, pair_elem(x, 1)))
        else:
            map_insert(I, m, own(I, x), lambda: None)
    return m


# ---------------------------------------------------------------- iteration
def iterate(I, c):
    """yield locations of the elements (live view)"""
    if isinstance(c, Arr):
        if not c.alive:
            I.ub('iteration over a destroyed container')
        i = 0
        n0 = len(c.items)
        gen = c.gen
        while i < n0:
            if not c.alive:
                I.ub('iteration over a destroyed container')
            x = c.items[i]
            yield x if isinstance(x, Obj) and not isinstance(x, FnV) else (x if isinstance(x, FnV) and False else ElemLV(c, i))
            while True:
                if c.fwd is not None:
                    c = c.fwd
                elif c.gen != gen and c.moved is not None and c.moved[0] == gen:
                    c, gen = c.moved[1:]
                else:
                    break
            if len(c.items) != n0 and c.sort != 'std::list':
                I.ub('container modified while it is iterated')
            if c.sort == 'std::list' and len(c.items) != n0:
                raise Imprecise('list modified while iterated')
            i += 1
        return
    if isinstance(c, MapV):
        if not c.alive:
            I.ub('iteration over a destroyed container')
        i = 0
        n0 = len(c.ents)
        while i < len(c.ents):
            e = c.ents[i]
            if c.sort in ('omap', 'hmap'):
                yield PairV(e)
            else:
                yield loc_in(e, 0)
            if len(c.ents) != n0:
                I.ub('container modified while it is iterated')
            i += 1
        return
    if isinstance(c, InitListV):
        for i, x in enumerate(c.items):
            yield x if isinstance(x, Obj) and not isinstance(x, FnV) else DictLV(c.items, i)
        return
    if isinstance(c, SpanV):
        n = I.cint(c.n, limit=66)
        for i in range(n):
            yield span_at(I, c, i)
        return
    if isinstance(c, StrV):
        cs = c.chars()
        if cs is None:
            raise Imprecise('iteration over an opaque string')
        for i in range(len(cs)):
            yield CharLV(c, i)
        return
    if isinstance(c, Rec):
        b = method_call(I, c, 'begin', [])
        en = method_call(I, c, 'end', [])
        for l in rng(I, b, en):
            yield l
        return
    raise Imprecise('iteration over %r' % (c,))


def method_call(I, o, name, args):
    ms = I.p.find_methods(o.cls, name)
    if not ms:
        raise Imprecise('no %s' % name)
    m = ms[0]
    return I.call_method(o, {'id': m['id'], 'n': name, 'mn': name, 'virt': m['virt'], 'm': True, 'ret': m['ret']}, args)


def span_at(I, c, i):
    p = c.p
    if p.base is None:
        if i == 0:
            I.nonnull(p, 'span access')
            return p.t
        raise Imprecise('span')
    off = p.off + i * span_es(I, c) if isinstance(p.off, int) else None
    if off is None:
        raise Imprecise('span offset')
    return I.elem(p.base, off, c.el)


def span_el(I, ty):
    t = ty.ta[0] if ty.ta else None
    return t if t is not None and not isinstance(t, int) and I.bits_of(t) else None


def span_es(I, c):
    return I.sizeof(c.el) if c.el is not None else c.p.base.es


def ptee(f, i):
    """pointee type of the i-th parameter of a library algorithm, if it is a pointer"""
    pt = f.get('pt') or []
    t = decay(pt[i]) if i < len(pt) else None
    return t.to if t is not None and t.k == 'ptr' and t.to is not None and t.to.k != 'void' else None


def step(I, p, i, ty):
    """the i-th element after the iterator or pointer p"""
    if isinstance(p, It):
        return it_deref(I, It(p.c, p.pos + i))
    a, o = I.norm_arr(p)
    if a is None or not isinstance(o, int):
        raise Imprecise('pointer range')
    return I.elem(a, o + i * (I.sizeof(ty) if ty is not None else a.es), ty)


def rng(I, b, e, ty=None):
    b, e = val(I, b), val(I, e)
    if isinstance(b, It):
        it_sync(I, b)
        if isinstance(e, It):
            it_sync(I, e)
        c = b.c
        if isinstance(c, (Arr, MapV, StrV)) and isinstance(e, It):
            if e.c is not c:
                I.ub('range of iterators from different containers')
            if b.rev:
                i = b.pos
                while i > e.pos:
                    yield it_deref(I, It(c, i, True))
                    i -= 1
                return
            i = b.pos
            while i < e.pos:
                yield it_deref(I, It(c, i))
                i += 1
            return
    if isinstance(b, Ptr) and isinstance(e, Ptr):
        a, o1 = I.norm_arr(b)
        a2, o2 = I.norm_arr(e)
        if a is None or a is not a2 or not isinstance(o1, int) or not isinstance(o2, int):
            if I.same_target(b, e) is TRUE:
                return
            try:
                d = I.path.decide(I.ptr_eq(b, e))
            except Imprecise:
                d = None
            if d is True:
                return
            raise Imprecise('pointer range')
        if ty is not None and ty.k in ('rec',):
            ty = None
        while o1 < o2:
            yield I.elem(a, o1, ty)
            o1 += I.sizeof(ty) if ty is not None else a.es
        return
    if isinstance(b, StrV):
        raise Imprecise('char pointer range')
    raise Imprecise('iterator range')


def clen(c):
    if isinstance(c, Arr):
        return len(c.items)
    if isinstance(c, MapV):
        return len(c.ents)
    if isinstance(c, StrV):
        cs = c.chars()
        if cs is None:
            raise Imprecise('opaque string')
        return len(cs)
    raise Imprecise('container')


def it_deref(I, it):
    it_sync(I, it)
    c = it.c
    if c is None:
        I.ub('dereference of a singular iterator')
    if not c.alive:
        I.ub('dereference of an iterator into a destroyed container')
    pos = it.pos - 1 if it.rev else it.pos
    if isinstance(pos, list):       # stable iterator: entry
        raise Imprecise('it')
    if pos < 0 or pos >= clen(c):
        I.ub('dereference of an end iterator')
    if isinstance(c, Arr):
        x = c.items[pos]
        if type(x) is Rec:
            x.home = c
        return x if isinstance(x, Obj) and not isinstance(x, FnV) else ElemLV(c, pos)
    if isinstance(c, StrV):
        return CharLV(c, pos)
    e = c.ents[pos]
    if c.sort in ('omap', 'hmap'):
        return PairV(e)
    return loc_in(e, 0)


# ---------------------------------------------------------------- keys
def keq(I, a, b):
    a, b = val(I, a), val(I, b)
    if isinstance(a, T) and isinstance(b, T):
        if a.w != b.w:
            raise Imprecise('key width')
        return eq(a, b)
    if isinstance(a, (Ptr, FnV)) and isinstance(b, (Ptr, FnV)):
        return I.ptr_eq(a, b)
    if isinstance(a, StrV) or isinstance(b, StrV):
        return streq(I, a, b)
    if isinstance(a, PairV):
        return land(*[keq(I, x, y) for x, y in zip(a.v, b.v)])
    if isinstance(a, Arr):
        if len(a.items) != len(b.items):
            return FALSE
        return land(TRUE, *[keq(I, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, UniqueV):
        return I.ptr_eq(a.p, b.p if isinstance(b, (UniqueV, SharedV)) else b)
    if isinstance(a, SharedV):
        return I.ptr_eq(a.p, b.p if isinstance(b, (UniqueV, SharedV)) else b)
    if isinstance(a, Rec):
        return rec_eq(I, a, b)
    if isinstance(a, OptV) and isinstance(b, OptV):
        if a.has is FALSE or b.has is FALSE:
            return boolc(a.has is b.has)
        return keq(I, a.v, b.v)
    if isinstance(a, VarV) and isinstance(b, VarV):
        if a.i != b.i:
            return FALSE
        return keq(I, a.v, b.v)
    raise Imprecise('equality of %r' % (a,))


def rec_eq(I, a, b):
    ms = [m for m in I.p.find_methods(a.cls, 'operator==')]
    if ms:
        return I.call_fn(I.p.functions[ms[0]['id']], a, [b])
    for f in I.p.by_name.get(a.cls.rsplit('::', 1)[0] + '::operator==', []):
        if len(f['params']) == 2 and f['params'][0]['t'].k == 'ref' and f['params'][0]['t'].to.name == a.cls:
            return I.call_fn(f, None, [a, b])
    raise Imprecise('no operator== for %s' % a.cls)


def kless(I, m, a, b):
    a, b = val(I, a), val(I, b)
    if isinstance(m.cmp, Rec):
        return I.tobool(I.invoke(m.cmp, [a if isinstance(a, Obj) else Cell(a), b if isinstance(b, Obj) else Cell(b)]))
    if m.cmp == 'greater':
        a, b = b, a
    return vless(I, a, b, m.kt)


def vless(I, a, b, ty):
    a, b = val(I, a), val(I, b)
    if isinstance(a, T):
        if ty is not None and ty.k == 'float':
            return I.fuf('flt%d' % a.w, a, b, 1)
        return slt(a, b) if (ty is not None and ty.sg) else ult(a, b)
    if isinstance(a, StrV):
        return strless(I, a, b)
    if isinstance(a, PairV):
        for i, (x, y) in enumerate(zip(a.v, b.v)):
            t = ty.ta[i] if ty is not None and ty.ta else None
            if I.decide(vless(I, x, y, t)):
                return TRUE
            if I.decide(vless(I, y, x, t)):
                return FALSE
        return FALSE
    if isinstance(a, Ptr):
        if I.ptr_eq(a, b) is TRUE:
            return FALSE
        x, y = I.norm_ptr(a)[0], I.norm_ptr(b)[0]
        return boolc(I_order(I, x) < I_order(I, y))
    if isinstance(a, Rec):
        ms = [m for m in I.p.find_methods(a.cls, 'operator<')]
        if ms:
            return I.call_fn(I.p.functions[ms[0]['id']], a, [b])
        for f in I.p.by_name.get(a.cls.rsplit('::', 1)[0] + '::operator<', []):
            if len(f['params']) == 2:
                return I.call_fn(f, None, [a, b])
    raise Imprecise('ordering of %r' % (a,))


def I_order(I, o):
    tab = I.flags.setdefault('order', [])
    for i, x in enumerate(tab):
        if x is o:
            return i
    tab.append(o)
    return len(tab) - 1


def map_find(I, m, key):
    for i, e in enumerate(m.ents):
        if isinstance(m.cmp, Rec):
            if not I.decide(kless(I, m, e[0], key)) and not I.decide(kless(I, m, key, e[0])):
                return i
        elif I.decide(keq(I, e[0], key)):
            return i
    return -1


def map_insert(I, m, key, mkval):
    """(index, inserted)"""
    if not m.alive:
        I.ub('insert into a destroyed container')
    if not m.multi:
        i = map_find(I, m, key)
        if i >= 0:
            return i, False
    ent = [key, mkval()]
    if m.sort in ('omap', 'oset'):
        pos = len(m.ents)
        for i, e in enumerate(m.ents):
            if I.decide(kless(I, m, key, e[0])):
                pos = i
                break
        m.ents.insert(pos, ent)
        map_changed(I, m, True)
        return pos, True
    m.ents.append(ent)
    map_changed(I, m, True)
    return len(m.ents) - 1, True


def pair_elem(x, i):
    if isinstance(x, PairV):
        return x.v[i]
    raise Imprecise('pair expected')


# ---------------------------------------------------------------- strings
def cstr(I, p):
    if isinstance(p, StrV):
        return p
    if isinstance(p, Ptr):
        if p.null is TRUE:
            I.ub('string from a null pointer')
        if isinstance(p.t, StrV):
            return p.t
        if p.base is not None and isinstance(p.base, Arr):
            out = []
            o = p.off
            while True:
                v = I.load(I.elem(p.base, o, None))
                if isc(v):
                    if cval(v) == 0:
                        return StrV(out)
                elif I.decide(eq(v, const(0, 8))):
                    return StrV(out)
                out.append(('b', v))
                o += 1
    raise Imprecise('C string %r' % (p,))


def fmt_int(I, t, signed, spec='d'):
    if isc(t):
        v = sval(t) if signed and t.w > 1 else cval(t)
        if spec == 'd':
            return StrV(str(v))
        if spec == 'x':
            return StrV('%x' % cval(t))
    if spec == 'd':
        return StrV([('f', 'd', sext(t, 72) if signed and t.w > 1 else zext(t, 72))])
    return StrV([('f', spec, zext(t, 64))])


def to_str(I, x, ty):
    ty = decay(ty)
    x = val(I, x)
    if isinstance(x, StrV):
        return StrV(x.p)
    if isinstance(x, Ptr):
        return cstr(I, x)
    if isinstance(x, T):
        if ty is not None and ty.k == 'float':
            return StrV([('f', 'g%d' % x.w, x)])
        return fmt_int(I, x, bool(ty.sg) if ty is not None else False)
    raise Imprecise('to_str %r' % (x,))


def streq(I, a, b):
    if isinstance(a, Ptr):
        a = cstr(I, a)
    if isinstance(b, Ptr):
        b = cstr(I, b)
    if not isinstance(a, StrV) or not isinstance(b, StrV):
        raise Imprecise('string equality')
    if a.p == b.p:
        return TRUE
    x, y = a.chars(), b.chars()
    if x is not None and y is not None:
        if len(x) != len(y):
            return FALSE
        return land(TRUE, *[eq(p, q) for p, q in zip(x, y)])
    # common const prefix / suffix refutation
    pa, pb = (a.p[0] if a.p else ('c', '')), (b.p[0] if b.p else ('c', ''))
    if pa[0] == 'c' and pb[0] == 'c':
        n = min(len(pa[1]), len(pb[1]))
        if pa[1][:n] != pb[1][:n]:
            return FALSE
    sa, sb = (a.p[-1] if a.p else ('c', '')), (b.p[-1] if b.p else ('c', ''))
    if sa[0] == 'c' and sb[0] == 'c':
        n = min(len(sa[1]), len(sb[1]))
        if n and sa[1][-n:] != sb[1][-n:]:
            return FALSE
    if len(a.p) == len(b.p) and all(p == q or (p[0] == 'f' and q[0] == 'f' and p[1] == q[1] and p[2].w == q[2].w) for p, q in zip(a.p, b.p)):
        return land(TRUE, *[eq(p[2], q[2]) for p, q in zip(a.p, b.p) if p != q])
    ka, kb = sorted([repr(a.p), repr(b.p)])
    return sym('streq(%s,%s)' % (ka, kb), 1)


def strless(I, a, b):
    x, y = a.chars(), b.chars()
    if x is None or y is None:
        if a.p == b.p:
            return FALSE
        return sym('strlt(%r,%r)' % (a.p, b.p), 1)
    for p, q in zip(x, y):
        if I.decide(ult(p, q)):
            return TRUE
        if I.decide(ult(q, p)):
            return FALSE
    return boolc(len(x) < len(y))


def str_len(I, s):
    n = 0
    t = c64(0)
    for q in s.p:
        if q[0] == 'c':
            n += len(q[1])
        elif q[0] == 'b':
            n += 1
        else:
            t = add(t, sym('len(%r)' % (q,), 64))
    return add(t, c64(n))


def str_at(I, s, i):
    cs = s.chars()
    if cs is None:
        raise Imprecise('opaque string index')
    i = I.cint(i, what='string index')
    if i > len(cs):
        I.ub('string index out of range')
    return CharLV(s, i)


def substr(I, s, pos, n=None):
    cs = s.chars()
    if cs is None:
        if pos == 0 and n is None:
            return StrV(s.p)
        raise Imprecise('substr of opaque string')
    if pos > len(cs):
        I.abort('substr out of range')
    if n is None:
        return StrV([('b', c) for c in cs[pos:]])
    if isinstance(n, T):
        if isc(n):
            n = cval(n)
        else:
            n = I.cint(n)
    return StrV([('b', c) for c in cs[pos:pos + n]])


def cstr_op(I, op, L, R, lt, rt):
    if op in ('==', '!='):
        if isinstance(L, Ptr) or isinstance(R, Ptr):
            p = L if isinstance(L, Ptr) else R
            r = FALSE if p.null is TRUE else None
            if r is not None:
                return r if op == '==' else TRUE
    if isinstance(L, StrV) and isinstance(R, StrV) and op in ('-', '==', '!='):
        # pointers into one string, as strtoull and the like return them
        (a, i), (b, j) = L.tail or (L, 0), R.tail or (R, 0)
        if a is b or (a.p == b.p and (L.tail or R.tail)):
            return const(i - j, 64) if op == '-' else boolc((i == j) == (op == '=='))
    if op in ('<', '>', '<=', '>=') and isinstance(L, StrV) and isinstance(R, StrV):
        (a, i), (b, j) = L.tail or (L, 0), R.tail or (R, 0)
        if a is b or (a.p == b.p and (L.tail or R.tail)):
            return boolc({'<': i < j, '>': i > j, '<=': i <= j, '>=': i >= j}[op])
    if op in ('+', '-') and (isinstance(L, T) or isinstance(R, T)) and (op == '+' or isinstance(L, StrV)):
        s, k = (L, R) if isinstance(L, StrV) else (R, L)
        k = I.cint(k, signed=True)
        a, i = s.tail or (s, 0)
        cs = a.chars()
        if cs is not None:
            i += k if op == '+' else -k
            if not 0 <= i <= len(cs):
                I.ub('pointer moved out of a string')
            t = StrV([('b', x) for x in cs[i:]])
            t.view = True
            t.tail = (a, i)
            return t
    raise Imprecise('char pointer operation')


# ---------------------------------------------------------------- members
def member(I, o, name):
    if isinstance(o, PairV):
        if name == 'first':
            return loc_in(o.v, 0)
        if name == 'second':
            return loc_in(o.v, 1)
    if isinstance(o, Arr) and name in ('_M_elems',):
        return o
    if isinstance(o, Opq):
        if o.ty is not None and o.ty.plain in ('sockaddr_in', 'in_addr'):
            # a structure that is filled in for the operating system
            if not isinstance(o.tag, dict):
                o.tag = {}
            if name not in o.tag:
                if name == 'sin_addr':
                    o.tag[name] = Opq(type('A', (), {'plain': 'in_addr'})())
                elif name == 'sin_zero':
                    o.tag[name] = Arr([const(0, 8) for _ in range(8)], None, 1)
                else:
                    o.tag[name] = Cell(const(0, 32))
            return o.tag[name]
        raise Imprecise('member %s of %s' % (name, o.ty))
    raise Imprecise('member %s of %r' % (name, o))


def invoke(I, fv, args):
    k = fv.k
    if k == 'null':
        I.ub('call of an empty function object')
    if k == 'undef':
        I.ub('call of an uninitialised function pointer')
    if k == 'host':
        return fv.a(I, args)
    if k == 'obj':
        return I.invoke(fv.a, args)
    if k == 'fn':
        c = fv.a
        if c.get('m') and not c.get('static'):
            this = args[0]
            if isinstance(this, (Cell, FieldLV, ElemLV)):
                this = I.load(this)
            if isinstance(this, Ptr):
                I.nonnull(this, 'member call')
                this = this.t
            return I.call(c, this, by_value(I, c, args[1:]))
        return I.call(c, None, by_value(I, c, args))
    if k == 'bound':
        inner, pre = fv.a, fv.b
        out = []
        rest = list(args)
        used = False
        for b in pre:
            if isinstance(b, tuple) and b[0] == 'ph':
                used = True
                out.append(args[b[1] - 1])
            else:
                out.append(b)
        if not used:
            out += rest
        return I.invoke(inner, out)
    raise Imprecise('call of %s' % k)


def by_value(I, c, args):
    """arguments handed through a generic callable: load for by-value parameters"""
    out = []
    for i, a in enumerate(args):
        pt = c['pt'][i] if i < len(c['pt']) else None
        if pt is not None and pt.k != 'ref' and isloc(a):
            a = I.copy_value(I.load(a))
        out.append(a)
    return out


def call_cb(I, fv, args):
    """call a user callback from a library algorithm: args are locations"""
    f = fv
    if isinstance(f, Rec):
        ms = [m for m in I.p.find_methods(f.cls, 'operator()') if len(m['pt']) == len(args)]
        if ms:
            pt = ms[0]['pt']
            a2 = []
            for a, t in zip(args, pt):
                if t.k != 'ref':
                    a2.append(I.copy_value(val(I, a)))
                else:
                    a2.append(a if isloc(a) or isinstance(a, Obj) else Cell(a))
            return I.invoke(f, a2)
    return I.invoke(f, args)


def rec_base_method(I, this, callee, args):
    if 'streambuf' in callee['n'] and callee['mn'] in ('setg', 'gptr', 'egptr', 'eback', 'setp', 'pptr', 'pbase', 'epptr'):
        import libcalls
        return libcalls.m_streambuf(I, this, callee['mn'], args)
    return NotImplemented


def global_var(I, g, ty):
    if g in ('std::cout', 'std::cerr', 'std::clog'):
        return StreamV(g)
    if g == 'std::nullopt':
        return Opq(ty)
    if g.startswith('std::placeholders::_'):
        o = Opq(ty)
        o.tag = ('ph', int(g[len('std::placeholders::_'):]))
        return o
    if g in ('std::string::npos',) or g.endswith('::npos'):
        return const(-1, 64)
    if g in ('errno',):
        return I.fresh('errno', 32)
    if ty is not None and ty.k == 'rec':
        return Opq(ty)
    raise Imprecise('global %s' % g)


from libcalls import call, call_method, operator, m_it, functor as libcalls_functor  # noqa
