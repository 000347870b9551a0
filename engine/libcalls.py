"""Library member functions, free functions and operators."""
from terms import *
from values import *
import lib as L

c64 = lambda v: const(v, 64)


def _loc(I, x):
    return x


# ---------------------------------------------------------------- methods
def call_method(I, o, f, args, node=None):
    n = f['mn']
    if L.isloc(o):
        o = I.load(o)
    if isinstance(o, Ptr) and n == 'get':
        return o.t
    if n == 'operator=':
        if isinstance(o, Rec):
            raise Imprecise('operator=')
        src = args[0]
        mv = bool(f['pt'] and f['pt'][0].k == 'ref' and f['pt'][0].rv)
        if isinstance(o, Opq):
            raise Imprecise('assignment to %s' % (o.ty,))
        L.assign(I, o, src, mv)
        return o
    if n == '(dtor)':
        return I.destroy(o)
    h = METHODS.get(o.kind)
    if h is None:
        raise Imprecise('method %s of %r' % (n, o))
    if not o.alive:
        I.ub('%s() on a destroyed %s' % (n, o.kind))
    return h(I, o, n, args, f, node)


def m_streambuf(I, o, n, args):
    """the get and put areas of a stream buffer"""
    a = [L.val(I, x) for x in args]
    null = Ptr(null=TRUE)
    if n == 'setg':
        o.f['#get'] = tuple(a)
        return None
    if n == 'setp':
        o.f['#put'] = (a[0], a[0], a[1])
        return None
    k = '#get' if n in ('gptr', 'egptr', 'eback', 'gbump') else '#put'
    g = o.f.get(k) or (null, null, null)
    if n in ('gbump', 'pbump'):
        raise Imprecise(n)
    return g[{'eback': 0, 'gptr': 1, 'egptr': 2, 'pbase': 0, 'pptr': 1, 'epptr': 2}[n]]


def wrap(v):
    return v if isinstance(v, Obj) and not isinstance(v, FnV) else Cell(v)


def m_arr(I, o, n, args, f, node):
    it = o.items
    a = args
    if n == '(conv)' or n.startswith('operator ') and n[9:10].isalpha():
        # conversion of the result of StrSplit
        return Arr([StrV(x.p) for x in it], o.el, o.es, o.sort)
    if n in ('size', 'length'):
        return c64(len(it))
    if n == 'empty':
        return boolc(not it)
    if n in ('operator[]', 'at'):
        i = L.val(I, a[0])
        if n == 'at' and o.sort not in ('x',):
            if I.decide(lnot(ult(i, c64(len(it))))):
                I.abort('at() out of range')
        off = mul(i, c64(o.es)) if not isc(i) else cval(i) * o.es
        return I.elem(o, off, None)
    if n in ('begin', 'cbegin'):
        return L_it(I, o, 0, f)
    if n in ('end', 'cend'):
        return L_it(I, o, len(it), f)
    if n in ('rbegin', 'crbegin'):
        return It(o, len(it), True)
    if n in ('rend', 'crend'):
        return It(o, 0, True)
    if n in ('push_back', 'emplace_back', 'push', 'push_front', 'emplace_front', 'emplace'):
        if n == 'emplace' and a and isinstance(a[0], It):
            v = emplace_val(I, o.el, a[1:], f)
            L.reserve(I, o, len(it) + 1)
            it.insert(a[0].pos, v)
            return It(o, a[0].pos)
        if n in ('push_back', 'push', 'push_front'):
            v = L.own(I, a[0], f['pt'][0].k == 'ref' and f['pt'][0].rv)
        else:
            v = emplace_val(I, o.el, a, f)
        if n in ('push_front', 'emplace_front'):
            it.insert(0, v)
            return locof(o, 0)
        L.reserve(I, o, len(it) + 1)
        it.append(v)
        return locof(o, len(it) - 1)
    if n in ('back', 'front', 'top'):
        if not it:
            I.ub('%s() on an empty container' % n)
        i = 0 if n == 'front' else len(it) - 1
        return locof(o, i)
    if n in ('pop_back', 'pop_front', 'pop'):
        if not it:
            I.ub('%s() on an empty container' % n)
        if n == 'pop' and o.sort == 'std::stack':
            v = it.pop()
        else:
            v = it.pop() if n == 'pop_back' else it.pop(0)
        if isinstance(v, Obj):
            I.destroy(v)
        return None
    if n == 'clear':
        old, o.items = it, []
        for v in old:
            if isinstance(v, Obj):
                I.destroy(v)
        return None
    if n in ('reserve', 'shrink_to_fit'):
        if n == 'reserve':
            k = L.val(I, a[0])
            if isc(k):
                L.reserve(I, o, cval(k), True)
        return None
    if n == 'capacity':
        return c64(max(o.cap, len(it)))
    if n == 'data':
        return Ptr(base=o, off=0)
    if n == 'resize':
        k = I.cint(L.val(I, a[0]), limit=66)
        L.reserve(I, o, k)
        it = o.items
        while len(o.items) > k:
            v = o.items.pop()
            if isinstance(v, Obj):
                I.destroy(v)
        while len(o.items) < k:
            o.items.append(L.own(I, a[1]) if len(a) > 1 else I.zero(o.el))
        return None
    if n == 'assign':
        if len(a) == 2:
            x = L.val(I, a[0])
            if isinstance(x, T):
                new = [L.own(I, a[1]) for _ in range(I.cint(x))]
            else:
                new = [L.own(I, l) for l in L.rng(I, a[0], a[1])]
        else:
            new = [L.own(I, x) for x in a[0].items]
        old, o.items = it, new
        for v in old:
            if isinstance(v, Obj):
                I.destroy(v)
        return None
    if n == 'fill':
        for i in range(len(it)):
            it[i] = L.own(I, a[0])
        return None
    if n == 'erase':
        p = a[0].pos
        q = a[1].pos if len(a) > 1 else p + 1
        if a[0].c is not o or p >= len(it) and len(a) == 1:
            I.ub('erase of an invalid iterator')
        gone = it[p:q]
        del it[p:q]
        for v in gone:
            if isinstance(v, Obj):
                I.destroy(v)
        return It(o, p)
    if n == 'insert':
        p = a[0].pos
        if len(a) == 2:
            if isinstance(a[1], InitListV):
                new = [L.own(I, x) for x in a[1].items]
            else:
                new = [L.own(I, a[1], f['pt'][1].k == 'ref' and f['pt'][1].rv)]
        elif isinstance(L.val(I, a[1]), T):
            new = [L.own(I, a[2]) for _ in range(I.cint(L.val(I, a[1])))]
        else:
            new = [L.own(I, l) for l in list(L.rng(I, a[1], a[2]))]
        L.reserve(I, o, len(it) + len(new))
        it[p:p] = new
        return It(o, p)
    if n == 'swap':
        o.items, a[0].items = a[0].items, o.items
        o.cap, a[0].cap = a[0].cap, o.cap
        g, h = o.gen, a[0].gen
        o.gen = a[0].gen = max(g, h) + 1
        o.moved, a[0].moved = (g, a[0], a[0].gen), (h, o, o.gen)
        return None
    if n == 'remove':
        keep = []
        for v in it:
            if not I.decide(L.keq(I, v, a[0])):
                keep.append(v)
        o.items = keep
        return None
    if n == 'max_size':
        return c64(1 << 60)
    raise Imprecise('container method %s' % n)


def L_it(I, o, i, f):
    rt = f['ret']
    if rt is not None and rt.k == 'ptr':
        return Ptr(base=o, off=i * o.es)
    return It(o, i)


def locof(o, i):
    v = o.items[i]
    return v if isinstance(v, Obj) and not isinstance(v, FnV) else ElemLV(o, i)


def emplace_val(I, el, args, f=None):
    """construct an element in place from arguments"""
    if el is None:
        raise Imprecise('emplace')
    if el.k != 'rec':
        if not args:
            return I.zero(el)
        v = L.val(I, args[0])
        ft = L.decay(f['pt'][0]) if f and f.get('pt') else None
        return L.convert_to(I, v, el, ft)
    rec = I.p.records.get(el.name)
    if rec and rec.get('repo'):
        if len(args) == 1 and isinstance(args[0], Rec) and I.p.derives(args[0].cls, el.name):
            pt = f['pt'][-1] if f and f.get('pt') else None
            return I.copy_value(args[0], bool(pt is not None and pt.k == 'ref' and pt.rv))
        return make_rec(I, el.name, args, f['pt'][-len(args):] if f and args else [])
    fake = {'a': [{'t': L.decay(t), 'lv': 2 if t.rv else 1} for t in (f['pt'] if f else [])], 'f': f or {'pt': []}}
    if len(fake['a']) != len(args):
        fake['a'] = [{'t': None} for _ in args]
    if len(args) == 1 and isinstance(args[0], Obj) and lib_same(el, args[0]):
        pt = f['pt'][0] if f and f.get('pt') else None
        return I.copy_value(args[0], bool(pt is not None and pt.k == 'ref' and pt.rv))
    return L.ctor(I, el, fake, args)


def lib_same(el, v):
    return (el.plain in L.STR and isinstance(v, StrV)) or (el.plain == 'std::pair' and isinstance(v, PairV)) \
        or (el.plain == 'std::unique_ptr' and isinstance(v, UniqueV)) or (el.plain in L.VEC and isinstance(v, Arr))


def make_rec(I, cls, args, pts):
    """construct a repository class from perfect-forwarded arguments"""
    rec = I.p.records[cls]
    cands = [m for m in rec['methods'] if m['name'] == '(ctor)' and not m['deleted'] and not m.get('copy') and not m.get('move')]
    seen = {m['id'] for m in cands}
    for fid, fn in I.p.functions.items():
        if fn.get('cls') == cls and fn['m']['name'] == '(ctor)' and fid not in seen and not fn['m'].get('copy') and not fn['m'].get('move'):
            cands.append(fn['m'])
    cands = [m for m in cands if m['np'] == len(args)]
    if len(cands) > 1:
        cands = [m for m in cands if all(fits(I, p, a, pts[i] if i < len(pts) else None) for i, (p, a) in enumerate(zip(m['pt'], args)))]
        if len(cands) > 1:
            ex = [m for m in cands if all(exact(I, p, pts[i] if i < len(pts) else None) for i, p in enumerate(m['pt']))]
            cands = ex or cands
    if not cands:
        if not args:
            return I.construct(cls, None, [])
        raise Imprecise('constructor selection for %s' % cls)
    m = cands[0]
    vals = []
    for i, (p, a) in enumerate(zip(m['pt'], args)):
        vals.append(pass_arg(I, p, a, pts[i] if i < len(pts) else None))
    return I.construct(cls, m['id'], vals)


def exact(I, p, q):
    return q is not None and L.decay(p).unq == L.decay(q).unq


def fits(I, p, a, q):
    d = L.decay(p)
    v = a
    if L.isloc(a):
        v = I.load(a)
    if isinstance(v, T):
        return d.k in ('int', 'bool', 'enum', 'float')
    if isinstance(v, Ptr):
        return d.k == 'ptr' or (d.k == 'rec' and d.plain in L.STR) or (d.k == 'rec' and d.plain == 'std::unique_ptr')
    if isinstance(v, StrV):
        return (d.k == 'rec' and d.plain in L.STR) or d.k == 'ptr'
    if isinstance(v, FnV):
        return d.k == 'rec' and d.plain in L.FUN or d.k in ('ptr', 'memptr')
    if isinstance(v, Rec):
        if d.k == 'rec' and d.plain in L.FUN:
            return True
        return d.k == 'rec' and I.p.derives(v.cls, d.name)
    return d.k == 'rec'


def pass_arg(I, p, a, q):
    """bind argument a (location or value) to parameter type p"""
    d = L.decay(p)
    if p.k == 'ref':
        if d.k == 'rec' and d.plain in L.STR and not isinstance(a, StrV):
            return L.cstr(I, L.val(I, a))
        if d.k == 'rec' and d.plain in L.FUN and not isinstance(a, FnV):
            return L.convert_to(I, I.copy_value(a), d, None)
        if not L.isloc(a) and not isinstance(a, Obj):
            return Cell(a)
        return a
    mv = q is not None and q.k == 'ref' and q.rv
    v = I.copy_value(L.val(I, a), mv) if isinstance(a, Obj) and not isinstance(a, Cell) else L.val(I, a)
    if isinstance(v, T):
        return L.convert_to(I, v, d, q)
    if d.k == 'rec' and d.plain in L.STR and isinstance(v, (Ptr, StrV)):
        return L.StrV(L.cstr(I, v).p)
    return L.convert_to(I, v, d, q)


def m_map(I, o, n, args, f, node):
    a = args
    ismap = o.sort in ('omap', 'hmap')
    if n == 'size':
        return c64(len(o.ents))
    if n == 'empty':
        return boolc(not o.ents)
    if n in ('begin', 'cbegin'):
        return It(o, 0)
    if n in ('end', 'cend'):
        return It(o, len(o.ents))
    if n in ('rbegin', 'crbegin'):
        return It(o, len(o.ents), True)
    if n in ('rend', 'crend'):
        return It(o, 0, True)
    if n == 'clear':
        old, o.ents = o.ents, []
        o.gen += 1
        o.mod += 1
        for k, v in old:
            for x in (k, v):
                if isinstance(x, Obj):
                    I.destroy(x)
        return None
    if n in ('reserve', 'rehash'):
        k = L.val(I, a[0])
        if isc(k):
            o.rsv = max(o.rsv, cval(k))
        return None
    if n == 'find':
        i = L.map_find(I, o, mkkey(I, o, a[0]))
        return It(o, i if i >= 0 else len(o.ents))
    if n == 'count':
        k = mkkey(I, o, a[0])
        if o.multi:
            return c64(sum(1 for e in o.ents if I.decide(L.keq(I, e[0], k))))
        return c64(1 if L.map_find(I, o, k) >= 0 else 0)
    if n == 'contains':
        return boolc(L.map_find(I, o, mkkey(I, o, a[0])) >= 0)
    if n == 'operator[]':
        key = L.own(I, mkkey(I, o, a[0]))
        i, ins = L.map_insert(I, o, key, lambda: I.zero(o.vt))
        return L.loc_in(o.ents[i], 1)
    if n == 'at':
        i = L.map_find(I, o, mkkey(I, o, a[0]))
        if i < 0:
            I.abort('at() of a missing key')
        return L.loc_in(o.ents[i], 1)
    if n in ('insert', 'emplace', 'try_emplace', 'insert_or_assign', 'emplace_hint'):
        if n == 'emplace_hint':
            a = a[1:]
        if n == 'insert' and a and isinstance(a[0], InitListV):
            for x in a[0].items:
                if ismap:
                    L.map_insert(I, o, L.own(I, L.pair_elem(x, 0)), lambda x=x: L.own(I, L.pair_elem(x, 1)))
                else:
                    L.map_insert(I, o, L.own(I, x), lambda: None)
            return None
        if n == 'insert' and len(a) == 2 and isinstance(a[0], It):
            if a[0].c is o:
                a = a[1:]
            else:
                for l in list(L.rng(I, a[0], a[1])):
                    if ismap:
                        L.map_insert(I, o, L.own(I, L.pair_elem(l, 0)), lambda l=l: L.own(I, L.pair_elem(l, 1)))
                    else:
                        L.map_insert(I, o, L.own(I, l), lambda: None)
                return None
        if ismap:
            if len(a) == 1 and isinstance(a[0], PairV):
                mv = f['pt'][0].k == 'ref' and f['pt'][0].rv
                key = mkkey(I, o, L.own(I, a[0].v[0], mv))
                mk = lambda: conv_map(I, o, L.own(I, a[0].v[1], mv))
            elif len(a) >= 1:
                key = L.own(I, mkkey(I, o, a[0]))
                if n in ('insert_or_assign',):
                    mk = lambda: L.convert_to(I, L.own(I, a[1], True), o.vt, f['pt'][1])
                else:
                    mk = lambda: emplace_val(I, o.vt, a[1:], {'pt': f['pt'][1:]} if len(f['pt']) == len(args) and n != 'emplace_hint' else None)
            else:
                raise Imprecise('emplace()')
        else:
            key = L.own(I, mkkey(I, o, a[0]), f['pt'][0].k == 'ref' and f['pt'][0].rv) if len(a) == 1 and fits_key(o, a[0]) else emplace_val(I, o.kt, a, f)
            mk = lambda: None
        i, ins = L.map_insert(I, o, key, mk)
        if not ins and n == 'insert_or_assign':
            o.ents[i][1] = mk()
        if o.multi:
            return It(o, i)
        return PairV([It(o, i), boolc(ins)])
    if n in ('lower_bound', 'upper_bound'):
        k = mkkey(I, o, a[0])
        for i, e in enumerate(o.ents):
            if n == 'lower_bound':
                if not I.decide(L.kless(I, o, e[0], k)):
                    return It(o, i)
            elif I.decide(L.kless(I, o, k, e[0])):
                return It(o, i)
        return It(o, len(o.ents))
    if n == 'equal_range' and o.sort in ('omap', 'oset'):
        return PairV([m_map(I, o, 'lower_bound', args, f, node), m_map(I, o, 'upper_bound', args, f, node)])
    if n == 'equal_range':
        k = mkkey(I, o, a[0])
        lo = None
        hi = len(o.ents)
        for i, e in enumerate(o.ents):
            same = I.decide(L.keq(I, e[0], k))
            if same and lo is None:
                lo = i
            if not same and lo is not None:
                hi = i
                break
        if lo is None:
            lo = m_map(I, o, 'lower_bound', args, f, node).pos if o.sort in ('omap', 'oset') else len(o.ents)
            hi = lo
        return PairV([It(o, lo), It(o, hi)])
    if n == 'erase':
        x = a[0]
        if isinstance(x, It):
            L.it_sync(I, x)
            if len(a) > 1:
                L.it_sync(I, a[1])
            q = a[1].pos if len(a) > 1 else x.pos + 1
            if x.c is not o or (len(a) == 1 and x.pos >= len(o.ents)):
                I.ub('erase of an invalid iterator')
            gone = o.ents[x.pos:q]
            del o.ents[x.pos:q]
            if gone:
                L.map_changed(I, o, False)
            for e in gone:
                for y in e:
                    if isinstance(y, Obj):
                        I.destroy(y)
            return It(o, x.pos)
        k = mkkey(I, o, x)
        cnt = 0
        while True:
            i = L.map_find(I, o, k)
            if i < 0:
                break
            e = o.ents.pop(i)
            L.map_changed(I, o, False)
            cnt += 1
            for y in e:
                if isinstance(y, Obj):
                    I.destroy(y)
            if not o.multi:
                break
        return c64(cnt)
    if n == 'swap':
        o.ents, a[0].ents = a[0].ents, o.ents
        for m in (o, a[0]):
            m.gen += 1
            m.mod += 1
        return None
    raise Imprecise('map method %s' % n)


def conv_map(I, o, v):
    return L.convert_to(I, v, o.vt, None) if not isinstance(v, T) or I.bits_of(o.vt) == v.w else v


def fits_key(o, a):
    return True


def mkkey(I, o, a):
    a = L.val(I, a)
    if isinstance(a, Ptr) and o.kt is not None and o.kt.k == 'rec' and o.kt.plain in L.STR:
        return L.cstr(I, a)
    if isinstance(a, T) and o.kt is not None:
        w = I.bits_of(o.kt)
        if w and w != a.w:
            if isc(a):
                return const(sval(a) if a.w > 1 else cval(a), w)
            return zext(a, w) if w > a.w else trunc(a, w)
    return a


def m_str(I, o, n, args, f, node):
    a = args
    if n in ('size', 'length'):
        return L.str_len(I, o)
    if n == 'empty':
        if not o.p:
            return TRUE
        if any(q[0] in ('c', 'b') or q[0] == 'f' for q in o.p):
            return FALSE
        return eq(L.str_len(I, o), c64(0))
    if n in ('c_str', 'data'):
        return o
    if n in ('operator basic_string_view', '(conv)'):
        return StrV(o.p)
    if n in ('operator+=', 'append', 'push_back'):
        if n == 'append' and len(a) >= 2:
            x = L.val(I, a[0])
            if isinstance(x, T):
                add_ = [('b', L.val(I, a[1]))] * I.cint(x)
            elif isinstance(x, StrV):
                add_ = L.substr(I, x, 0, L.val(I, a[1])).p if len(a) == 2 else L.substr(I, x, I.cint(L.val(I, a[1])), L.val(I, a[2])).p
            else:
                add_ = [('b', L.val(I, l)) for l in L.rng(I, a[0], a[1])]
        else:
            x = L.val(I, a[0])
            if isinstance(x, T):
                add_ = [('b', x)]
            elif isinstance(x, InitListV):
                add_ = [('b', L.val(I, y)) for y in x.items]
            else:
                add_ = L.cstr(I, x).p
        o.p = norm_pieces(tuple(o.p) + tuple(add_))
        return o
    if n == 'clear':
        o.p = ()
        return None
    if n in ('reserve', 'shrink_to_fit'):
        return None
    if n in ('operator[]', 'at'):
        if n == 'at' and o.chars() is not None:
            i = I.cint(L.val(I, a[0]))
            if i >= len(o.chars()):
                I.abort('at() out of range')
        return L.str_at(I, o, L.val(I, a[0]))
    if n in ('back', 'front'):
        cs = o.chars()
        if cs is None:
            raise Imprecise('opaque string')
        if not cs:
            I.ub('%s() on an empty string' % n)
        return L.CharLV(o, 0 if n == 'front' else len(cs) - 1)
    if n == 'pop_back':
        cs = o.chars()
        if not cs:
            I.ub('pop_back on an empty string')
        o.p = norm_pieces([('b', c) for c in cs[:-1]])
        return None
    if n == 'substr':
        pos = I.cint(L.val(I, a[0])) if a else 0
        cnt = L.val(I, a[1]) if len(a) > 1 else None
        if cnt is not None and isc(cnt) and cval(cnt) == mask(64):
            cnt = None
        return L.substr(I, o, pos, cnt)
    if n in ('begin', 'cbegin'):
        return It(o, 0)
    if n in ('end', 'cend'):
        return It(o, L.clen(o))
    if n in ('rbegin',):
        return It(o, L.clen(o), True)
    if n in ('rend',):
        return It(o, 0, True)
    if n in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of'):
        return str_find(I, o, n, a)
    if n == 'compare':
        x = L.val(I, a[0])
        if len(a) >= 3:
            # compare(pos, count, str[, n | , pos2, n2])
            p, k = I.cint(x), I.cint(L.val(I, a[1]))
            cs = o.chars()
            if cs is None:
                raise Imprecise('compare')
            if p > len(cs):
                I.abort('compare() out of range')
            o = StrV([('b', c) for c in cs[p:p + k]])
            x = L.cstr(I, L.val(I, a[2]))
            if len(a) > 3:
                xs = x.chars()
                if xs is None:
                    raise Imprecise('compare')
                lo, cnt = (0, I.cint(L.val(I, a[3]))) if len(a) == 4 else (I.cint(L.val(I, a[3])), I.cint(L.val(I, a[4])))
                x = StrV([('b', c) for c in xs[lo:lo + cnt]])
        elif len(a) > 1:
            raise Imprecise('compare')
        else:
            x = L.cstr(I, x)
        if I.decide(L.streq(I, o, x)):
            return const(0, 32)
        return const(-1, 32) if I.decide(L.strless(I, o, x)) else const(1, 32)
    if n in ('starts_with', 'ends_with'):
        return starts(I, o, L.cstr(I, L.val(I, a[0])) if not isinstance(L.val(I, a[0]), T) else StrV([('b', L.val(I, a[0]))]), n)
    if n == 'resize':
        cs = o.chars()
        k = I.cint(L.val(I, a[0]))
        if cs is None:
            raise Imprecise('resize')
        cs = cs[:k] + [L.val(I, a[1]) if len(a) > 1 else const(0, 8)] * (k - len(cs))
        o.p = norm_pieces([('b', c) for c in cs])
        return None
    if n == 'erase':
        cs = o.chars()
        if cs is None:
            raise Imprecise('erase')
        if a and isinstance(a[0], It):
            p = a[0].pos
            q = a[1].pos if len(a) > 1 else p + 1
        else:
            p = I.cint(L.val(I, a[0])) if a else 0
            q = len(cs)
            if len(a) > 1 and not (isc(L.val(I, a[1])) and cval(L.val(I, a[1])) == mask(64)):
                q = p + I.cint(L.val(I, a[1]))
        o.p = norm_pieces([('b', c) for c in cs[:p] + cs[q:]])
        return o
    if n == 'insert':
        cs = o.chars()
        if cs is None:
            x = L.val(I, a[0])
            if isinstance(x, T) and isc(x) and cval(x) == 0 and len(a) == 2:
                o.p = norm_pieces(tuple(L.cstr(I, L.val(I, a[1])).p) + o.p)
                return o
            raise Imprecise('insert')
        if isinstance(a[0], It):
            cs[a[0].pos:a[0].pos] = [L.val(I, a[1])]
            o.p = norm_pieces([('b', c) for c in cs])
            return It(o, a[0].pos)
        p = I.cint(L.val(I, a[0]))
        x = L.val(I, a[1])
        if isinstance(x, T):
            new = [L.val(I, a[2])] * I.cint(x)
        else:
            new = L.cstr(I, x).chars()
        cs[p:p] = new
        o.p = norm_pieces([('b', c) for c in cs])
        return o
    if n == 'assign':
        x = L.val(I, a[0])
        o.p = L.cstr(I, x).p
        return o
    if n == 'swap':
        o.p, a[0].p = a[0].p, o.p
        return None
    if n == 'remove_prefix':
        o.p = L.substr(I, o, I.cint(L.val(I, a[0]))).p
        return None
    if n == 'remove_suffix':
        o.p = L.substr(I, o, 0, sub(L.str_len(I, o), L.val(I, a[0]))).p
        return None
    if n == 'copy':
        raise Imprecise('string copy')
    if n == 'Piece':
        return o
    if n in ('operator*', 'operator->') and 'LazyRE2' in f['n']:
        # a lazily built expression is its pattern
        r = Opq(None)
        r.tag = ('re', o.const())
        return r if n == 'operator*' else Ptr(r)
    raise Imprecise('string method %s' % n)


def starts(I, o, x, n):
    cs, xs = o.chars(), x.chars()
    if xs is not None and not xs:
        return TRUE
    if cs is None or xs is None:
        raise Imprecise('opaque prefix')
    if len(xs) > len(cs):
        return FALSE
    part = cs[:len(xs)] if n == 'starts_with' else cs[len(cs) - len(xs):]
    return land(TRUE, *[eq(p, q) for p, q in zip(part, xs)])


def str_find(I, o, n, a):
    cs = o.chars()
    x = L.val(I, a[0])
    ps = [x] if isinstance(x, T) else L.cstr(I, x).chars()
    if cs is None or ps is None:
        raise Imprecise('find in opaque string')
    npos = const(-1, 64)
    start = I.cint(L.val(I, a[1])) if len(a) > 1 and not (isc(L.val(I, a[1])) and cval(L.val(I, a[1])) == mask(64)) else None
    if n == 'find':
        for i in range(start or 0, len(cs) - len(ps) + 1):
            if I.decide(land(TRUE, *[eq(cs[i + j], q) for j, q in enumerate(ps)])):
                return c64(i)
        return npos
    if n == 'rfind':
        hi = len(cs) - len(ps)
        if start is not None:
            hi = min(hi, start)
        for i in range(hi, -1, -1):
            if I.decide(land(TRUE, *[eq(cs[i + j], q) for j, q in enumerate(ps)])):
                return c64(i)
        return npos
    inv = 'not' in n
    idx = range(start or 0, len(cs)) if 'first' in n else range(len(cs) - 1 if start is None else min(start, len(cs) - 1), -1, -1)
    for i in idx:
        hit = I.decide(lor(*[eq(cs[i], q) for q in ps]) if ps else FALSE)
        if hit != inv:
            return c64(i)
    return npos


def m_fn(I, o, n, args, f, node):
    if n == 'operator()':
        return L.invoke(I, o, args)
    if n in ('operator bool', '(conv)'):
        return I.tobool(o)
    if n == 'swap':
        p = args[0]
        o.k, o.a, o.b, p.k, p.a, p.b = p.k, p.a, p.b, o.k, o.a, o.b
        return None
    raise Imprecise('function method %s' % n)


def m_status(I, o, n, args, f, node):
    if n == 'ok':
        return boolc(o.code == 0) if isinstance(o.code, int) else eq(o.code, const(0, 32))
    if n == 'message':
        return StrV(o.msg.p if o.msg else ())
    if n in ('code', 'raw_code'):
        return const(o.code, 32) if isinstance(o.code, int) else o.code
    if n == 'Update':
        if I.decide(m_status(I, o, 'ok', [], f, node)):
            x = args[0]
            o.code, o.msg = x.code, x.msg
        return None
    if n == 'IgnoreError':
        return None
    if n == 'ToString':
        return StrV((('s', 'status.ToString'),))
    raise Imprecise('status method %s' % n)


def m_statusor(I, o, n, args, f, node):
    if n == 'ok':
        return m_status(I, o.st, 'ok', [], f, node)
    if n == 'status':
        return o.st
    if n in ('value', 'operator*', 'operator->', 'ValueOrDie'):
        if o.v is None:
            I.abort('value of a failed StatusOr')
        c = o.v if isinstance(o.v, Obj) and not isinstance(o.v, FnV) else BoxLV(o)
        if n == 'operator->':
            return Ptr(c)
        return c
    if n in ('emplace',):
        o.v = emplace_val(I, o.vt, args, f)
        o.st = StatusV(0, StrV())
        return BoxLV(o)
    if n == 'value_or':
        return o.v if o.v is not None else L.own(I, args[0])
    if n == 'IgnoreError':
        return None
    raise Imprecise('StatusOr method %s' % n)


class BoxLV(object):
    """scalar stored in optional / StatusOr / variant / any"""
    __slots__ = ('o',)
    kind = 'box'

    def __init__(self, o):
        self.o = o

    def get(self):
        return self.o.v

    def set(self, v):
        self.o.v = v

    @property
    def alive(self):
        return self.o.alive


_isloc0 = L.isloc


def _isloc(x):
    return isinstance(x, (Cell, FieldLV, ElemLV, PunLV, DictLV, L.CharLV, BoxLV))


L.isloc = _isloc


def boxed(o):
    return o.v if isinstance(o.v, Obj) and not isinstance(o.v, FnV) else BoxLV(o)


def m_opt(I, o, n, args, f, node):
    if n in ('has_value', 'operator bool', '(conv)'):
        return o.has
    if n in ('value', 'operator*', 'operator->'):
        if not I.decide(o.has):
            if n == 'value':
                I.abort('value() of an empty optional')
            I.ub('dereference of an empty optional')
        b = boxed(o)
        return Ptr(b) if n == 'operator->' else b
    if n == 'value_or':
        if I.decide(o.has):
            return I.copy_value(o.v)
        return L.convert_to(I, L.own(I, args[0]), o.vt, f['pt'][0])
    if n == 'reset':
        old, o.v, o.has = o.v, None, FALSE
        if isinstance(old, Obj):
            I.destroy(old)
        return None
    if n == 'emplace':
        old = o.v
        o.v = emplace_val(I, o.vt, args, f)
        o.has = TRUE
        if isinstance(old, Obj):
            I.destroy(old)
        return boxed(o)
    raise Imprecise('optional method %s' % n)


def m_variant(I, o, n, args, f, node):
    if n == 'index':
        return c64(o.i)
    if n == 'valueless_by_exception':
        return FALSE
    if n == 'emplace':
        t = f['ta'][0]
        i = t if isinstance(t, int) else [a.unq for a in o.alts].index(t.unq)
        o.v = emplace_val(I, o.alts[i], args, f)
        o.i = i
        return boxed(o)
    raise Imprecise('variant method %s' % n)


def m_any(I, o, n, args, f, node):
    if n == 'has_value':
        return boolc(o.ty is not None)
    if n == 'reset':
        o.ty, o.v = None, None
        return None
    raise Imprecise('any method %s' % n)


def m_unique(I, o, n, args, f, node):
    if n == 'get':
        return o.p
    if n == 'release':
        p, o.p = o.p, null()
        return p
    if n == 'reset':
        p = L.val(I, args[0]) if args else null()
        old, o.p = o.p, p
        L.unique_delete(I, o, old)
        return None
    if n in ('operator bool', '(conv)'):
        return lnot(o.p.null)
    if n == 'operator->':
        return o.p
    if n == 'operator*':
        return I.deref(o.p, None)
    if n == 'operator[]':
        el = f['ret'].to if f['ret'].k == 'ref' else None
        i = L.val(I, args[0])
        return I.deref(I.ptr_add(o.p, i if i.w == 64 else zext(i, 64), el), el, 'subscript')
    if n == 'swap':
        o.p, args[0].p = args[0].p, o.p
        return None
    if n == 'get_deleter':
        raise Imprecise('deleter')
    raise Imprecise('unique_ptr method %s' % n)


def m_shared(I, o, n, args, f, node):
    if n == 'get' or n == 'operator->':
        return o.p
    if n in ('operator bool', '(conv)'):
        return lnot(o.p.null)
    if n == 'operator*':
        return I.deref(o.p, None)
    if n == 'reset':
        p = L.val(I, args[0]) if args else null()
        L.shared_release(I, o)
        o.p = p
        o.cb = [1] if p.null is not TRUE else None
        return None
    if n == 'use_count':
        return c64(o.cb[0] if o.cb else 0)
    raise Imprecise('shared_ptr method %s' % n)


def m_atomic(I, o, n, args, f, node):
    c = o.cell
    if n in ('load', '(conv)') or n.startswith('operator ') and n[9:10].isalpha():
        return c.v
    if n == 'store':
        c.v = L.val(I, args[0])
        return None
    if n == 'exchange':
        r, c.v = c.v, L.val(I, args[0])
        return r
    if n in ('fetch_add', 'fetch_sub', 'fetch_or', 'fetch_and', 'fetch_xor'):
        r = c.v
        x = L.val(I, args[0])
        c.v = {'fetch_add': add, 'fetch_sub': sub, 'fetch_or': bor, 'fetch_and': band, 'fetch_xor': bxor}[n](r, x)
        return r
    if n in ('operator++', 'operator--'):
        r = c.v
        c.v = add(r, const(1 if n == 'operator++' else -1, r.w))
        return r if args else c.v
    if n in ('operator+=', 'operator-='):
        c.v = (add if n == 'operator+=' else sub)(c.v, L.val(I, args[0]))
        return c.v
    if n in ('compare_exchange_strong', 'compare_exchange_weak'):
        if I.decide(eq(c.v, L.val(I, args[0]))):
            c.v = L.val(I, args[1])
            return TRUE
        args[0].set(c.v)
        return FALSE
    raise Imprecise('atomic method %s' % n)


def m_it(I, o, n, args, f, node):
    L.it_sync(I, o)
    if n in ('operator*',):
        return L.it_deref(I, o)
    if n == 'operator->':
        x = L.it_deref(I, o)
        return I.addr(x) if not isinstance(x, Obj) else Ptr(x)
    if n in ('operator++', 'operator--'):
        d = 1 if n == 'operator++' else -1
        if o.rev:
            d = -d
        old = It(o.c, o.pos, o.rev)
        if o.c is not None and not o.c.alive:
            I.ub('iterator into a destroyed container')
        np = o.pos + d
        if np < 0 or (o.c is not None and np > L.clen(o.c)):
            I.ub('iterator moved out of range')
        o.pos = np
        o.bind()
        return old if args else o
    if n in ('operator+', 'operator-', 'operator+=', 'operator-='):
        x = L.val(I, args[0])
        if isinstance(x, It):
            return const(o.pos - x.pos, 64)
        k = I.cint(x, signed=True)
        if o.rev != ('-' in n):
            k = -k
        if o.rev and '-' in n:
            k = I.cint(x, signed=True)
        np = o.pos + k
        if np < 0 or np > L.clen(o.c):
            I.ub('iterator moved out of range')
        if '=' in n:
            o.pos = np
            o.bind()
            return o
        return It(o.c, np, o.rev)
    if n == 'operator[]':
        return L.it_deref(I, It(o.c, o.pos + I.cint(L.val(I, args[0]), signed=True)))
    if n in ('operator==', 'operator!='):
        return it_cmp(I, n[8:], o, args[0])
    if n == 'base':
        return It(o.c, o.pos, not o.rev)
    if n == '(conv)':
        return o
    raise Imprecise('iterator method %s' % n)


def it_cmp(I, op, a, b):
    a, b = L.val(I, a), L.val(I, b)
    for x in (a, b):
        if isinstance(x, It):
            L.it_sync(I, x)
    if not isinstance(a, It) or not isinstance(b, It) or isinstance(a.c, StrV) and a.c is not b.c:
        raise Imprecise('iterator comparison')
    if op in ('==', '!='):
        if a.c is not b.c:
            if a.c is not None and b.c is not None:
                I.ub('comparison of iterators of different containers')
        r = a.c is b.c and a.pos == b.pos
        return boolc(r == (op == '=='))
    x, y = (a.pos, b.pos) if not a.rev else (b.pos, a.pos)
    return boolc({'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op])


def m_span(I, o, n, args, f, node):
    if n in ('size', 'length'):
        return o.n
    if n == 'empty':
        return eq(o.n, c64(0))
    if n == 'data':
        return o.p
    if n in ('operator[]', 'at'):
        i = L.val(I, args[0])
        if I.decide(lnot(ult(i, o.n))):
            I.ub('span index out of bounds')
        return span_elem(I, o, i)
    if n in ('begin', 'cbegin'):
        return o.p
    if n in ('end', 'cend'):
        k = I.cint(o.n, limit=66)
        if o.p.base is None and o.p.null is TRUE:
            return o.p
        if o.p.base is None:
            raise Imprecise('span end')
        return Ptr(base=o.p.base, off=o.p.off + k * L.span_es(I, o))
    if n == 'front':
        return L.span_at(I, o, 0)
    if n == 'back':
        return L.span_at(I, o, I.cint(o.n) - 1)
    if n in ('subspan', 'first', 'last'):
        k = I.cint(o.n, limit=66)
        if n == 'subspan':
            p = I.cint(L.val(I, args[0]))
            c = k - p
            if len(args) > 1 and not (isc(L.val(I, args[1])) and cval(L.val(I, args[1])) == mask(64)):
                c = min(c, I.cint(L.val(I, args[1])))
        elif n == 'first':
            p, c = 0, I.cint(L.val(I, args[0]))
        else:
            c = I.cint(L.val(I, args[0]))
            p = k - c
        if p < 0 or p > k:
            I.abort('subspan out of range')
        return SpanV(Ptr(base=o.p.base, off=o.p.off + p * L.span_es(I, o)), c64(c), o.el)
    if n in ('remove_prefix', 'remove_suffix'):
        k, d = I.cint(o.n, limit=66), I.cint(L.val(I, args[0]))
        if d < 0 or d > k:
            I.ub('%s(%d) of a span of %d' % (n, d, k))
        if d and n == 'remove_prefix':
            o.p = Ptr(base=o.p.base, off=o.p.off + d * L.span_es(I, o))
        o.n = c64(k - d)
        return None
    raise Imprecise('span method %s' % n)


def span_elem(I, o, i):
    if isc(i):
        return L.span_at(I, o, cval(i))
    p = o.p
    if p.base is None:
        I.nonnull(p, 'span access')
        raise Imprecise('span')
    off = add(c64(p.off), mul(i, c64(L.span_es(I, o))))
    return I.elem(p.base, off, o.el)


def open_file(I, o, name):
    """an input file: its content comes from the rule"""
    h = (I.ext or {}).get('(file)')
    if h is None:
        raise Imprecise('file')
    o.inp = h(L.cstr(I, L.val(I, name)))
    o.good = o.inp is not None
    o.eof = False


def get_char(I, o):
    if not o.good or not o.inp:
        o.gc = 0
        o.good = False
        o.eof = True
        return None
    o.gc = 1
    return o.inp.pop(0)


def m_istream(I, o, n, args, f):
    """unformatted input"""
    if n == 'open':
        open_file(I, o, args[0])
        return None
    if n in ('good', 'operator bool', '(conv)', 'is_open'):
        return boolc(o.good)
    if n in ('fail', 'operator!'):
        return boolc(not o.good)
    if n == 'eof':
        return boolc(o.eof)
    if n == 'bad':
        return FALSE
    if n == 'gcount':
        return const(o.gc, 64)
    if n == 'close':
        return None
    if n == 'get' and not args:
        b = get_char(I, o)
        return const(-1, 32) if b is None else zext(b, 32)
    if n == 'peek':
        if not o.good or not o.inp:
            o.good, o.eof = False, True
            return const(-1, 32)
        return zext(o.inp[0], 32)
    if n == 'read':
        k = I.cint(L.val(I, args[1]), limit=66)
        p = L.val(I, args[0])
        got = o.inp[:k] if o.good else []
        o.inp = o.inp[len(got):]
        o.gc = len(got)
        if len(got) < k:
            o.good, o.eof = False, True
        if got:
            da, do = arrview(I, p, 'read')
            for i, b in enumerate(got):
                I.elem(da, do + i, da.el).set(b)
        return o
    raise Imprecise('stream input method %s' % n)


def buf_call(I, o, name, args):
    ms = I.p.find_methods(o.buf.cls, name)
    if not ms:
        return None
    m = ms[0]
    return L.val(I, I.call_method(o.buf, {'id': m['id'], 'n': o.buf.cls + '::' + name, 'mn': name, 'virt': m['virt'], 'm': True, 'static': False, 'ret': m['ret'], 'pt': m['pt']}, args))


def buf_get(I, o):
    """one character from the stream buffer, or None at its end"""
    def off(p):
        return p.off if isinstance(p.off, int) else I.cint(p.off) if p.off is not None else 0
    o.gc = 0
    if not o.good:
        return None
    g = o.buf.f.get('#get')
    if g is None or g[1].base is not g[2].base and g[1].t is not g[2].t or off(g[1]) >= off(g[2]):
        r = buf_call(I, o, 'underflow', [])
        if r is None:
            raise Imprecise('a stream buffer without underflow')
        if I.decide(eq(r, const(-1, r.w))):
            o.good, o.eof = False, True
            return None
        g = o.buf.f.get('#get')
        if g is None:
            raise Imprecise('a stream buffer without get area')
    lo, cur, hi = g
    v = I.load(I.deref(cur, None))
    o.buf.f['#get'] = (lo, Ptr(base=cur.base, off=off(cur) + 1) if cur.base is not None else hi, hi)
    o.gc = 1
    return v


def m_bufstream(I, o, n, args, f):
    if n in ('good', 'operator bool', '(conv)'):
        return boolc(o.good)
    if n in ('fail', 'operator!', 'bad'):
        return boolc(not o.good)
    if n == 'eof':
        return boolc(o.eof)
    if n == 'gcount':
        return const(o.gc, 64)
    if n == 'get' and not args:
        b = buf_get(I, o)
        return const(-1, 32) if b is None else zext(b, 32)
    if n == 'flush':
        if o.good:
            buf_call(I, o, 'sync', [])
        return o
    if n in ('put', 'write'):
        x = L.val(I, args[0])
        if n == 'put':
            cs = [x]
        else:
            k = I.cint(L.val(I, args[1]), limit=70000)
            cs = L.substr(I, L.cstr(I, x), 0, k).chars() if isinstance(x, StrV) else [I.load(I.elem(x.base, x.off + i, None)) for i in range(k)]
            if cs is None:
                raise Imprecise('formatted text is written to a stream buffer')
        for b in cs:
            if not o.good:
                break
            r = buf_call(I, o, 'overflow', [zext(b, 32)])
            if r is None:
                raise Imprecise('a stream buffer without overflow')
            if I.decide(eq(r, const(-1, r.w))):
                o.good = False
        return o
    raise Imprecise('stream method %s' % n)


def m_stream(I, o, n, args, f, node):
    if o.buf is not None:
        return m_bufstream(I, o, n, args, f)
    if o.inp is not None or n == 'open':
        return m_istream(I, o, n, args, f)
    if n in ('good', 'operator bool', '(conv)') and not o.good:
        return FALSE
    if n == 'str':
        if args:
            o.s = StrV(args[0].p)
            return None
        return StrV(o.s.p)
    if n == 'operator<<':
        if o.tag == 'log':
            return o
        return stream_out(I, o, args[0], L.decay(f['pt'][0]))
    if n in ('flush', 'setf', 'unsetf', 'precision', 'width', 'fill', 'close', 'clear'):
        if n == 'flush' or f['ret'].k == 'ref':
            return o
        if f['ret'].k == 'void':
            return None
        return I.fresh('stream', I.bits_of(f['ret']) or 32)
    if n == 'write':
        x = L.val(I, args[0])
        k = I.cint(L.val(I, args[1]))
        s = L.substr(I, L.cstr(I, x), 0, k) if isinstance(x, StrV) else StrV([('b', I.load(I.elem(x.base, x.off + i, None))) for i in range(k)])
        o.s.p = norm_pieces(o.s.p + s.p)
        return o
    if n == 'put':
        o.s.p = norm_pieces(o.s.p + (('b', L.val(I, args[0])),))
        return o
    if n in ('good', 'operator bool', 'is_open', '(conv)'):
        return TRUE
    if n in ('fail', 'bad', 'operator!', 'eof'):
        return FALSE
    raise Imprecise('stream method %s' % n)


def stream_out(I, o, x, ty):
    x = L.val(I, x)
    if isinstance(x, FnV):
        nm = x.a['n'] if x.k == 'fn' else ''
        if nm.endswith('endl'):
            o.s.p = norm_pieces(o.s.p + (('c', '\n'),))
        elif nm.endswith('hex'):
            o.flags['base'] = 'x'
        elif nm.endswith('dec'):
            o.flags['base'] = 'd'
        return o
    if isinstance(x, T):
        if ty is not None and ty.k == 'int' and ty.w == 8 and ty.s.endswith('char'):
            p = StrV([('b', x)])
        elif ty is not None and ty.k == 'float':
            p = StrV([('f', 'g%d' % x.w, x)])
        else:
            p = L.fmt_int(I, x, bool(ty.sg) if ty is not None else False, o.flags.get('base', 'd'))
    elif isinstance(x, (StrV,)):
        p = x
    elif isinstance(x, Ptr):
        if x.null is TRUE:
            p = StrV('(null)')
        elif isinstance(x.t, StrV) or x.base is not None and x.base.es == 1:
            p = L.cstr(I, x)
        else:
            p = StrV((('s', 'ptr'),))
    elif isinstance(x, StatusV):
        p = StrV((('s', 'status'),))
    elif isinstance(x, Opq):
        p = StrV()
    else:
        raise Imprecise('stream output of %r' % (x,))
    o.s.p = norm_pieces(o.s.p + p.p)
    return o


def m_pair(I, o, n, args, f, node):
    if n == 'swap':
        o.v, args[0].v = args[0].v, o.v
        return None
    raise Imprecise('pair method %s' % n)


def m_il(I, o, n, args, f, node):
    if n == 'size':
        return c64(len(o.items))
    if n in ('begin', 'end'):
        a = I.flags.setdefault('ilarr', {}).get(id(o))
        if a is None:
            a = Arr(o.items, o.el, I.sizeof(o.el))
            I.flags['ilarr'][id(o)] = a
            I.flags.setdefault('keep', []).append(o)
        return Ptr(base=a, off=0 if n == 'begin' else len(o.items) * a.es)
    raise Imprecise('initializer_list method %s' % n)


def m_opq(I, o, n, args, f, node):
    pl = o.ty.plain if o.ty is not None else ''
    if pl in L.LOCKS or pl in ('absl::Notification',):
        if n in ('lock', 'unlock', 'Lock', 'Unlock', 'ReaderLock', 'ReaderUnlock', 'Notify', 'WaitForNotification',
                 'try_lock', 'AssertHeld', 'WriterLock', 'WriterUnlock'):
            return None if f['ret'].k == 'void' else TRUE
        if n == 'operator()':
            return functor(I, pl, args, f)
    if n == 'operator&&':
        return None
    if n == 'HasBeenNotified':
        return I.fresh('notified', 1)
    raise Imprecise('method %s of %s' % (n, o.ty))


def functor(I, pl, args, f):
    x, y = L.val(I, args[0]), L.val(I, args[1]) if len(args) > 1 else None
    ty = L.decay(f['pt'][0]) if f.get('pt') else None
    if ty is not None and ty.k not in ('int', 'float', 'enum', 'bool', 'ptr', 'rec'):
        ty = None
    k = pl.split('::')[-1]
    if k == 'less':
        return L.vless(I, x, y, ty)
    if k == 'greater':
        return L.vless(I, y, x, ty)
    if k == 'equal_to':
        return L.keq(I, x, y)
    if isinstance(x, T) and (ty is None or ty.k != 'float'):
        d = {'plus': add, 'minus': sub, 'multiplies': mul, 'bit_or': bor, 'bit_and': band, 'bit_xor': bxor}
        if k in d:
            return d[k](x, y)
        if k == 'logical_and':
            return land(I.tobool(x), I.tobool(y))
        if k == 'logical_or':
            return lor(I.tobool(x), I.tobool(y))
        if k == 'not_equal_to':
            return lnot(L.keq(I, x, y))
        if k == 'logical_not':
            return lnot(I.tobool(x))
        if k == 'negate':
            return neg(x)
    raise Imprecise('functor %s' % pl)


METHODS = {'arr': m_arr, 'map': m_map, 'str': m_str, 'fn': m_fn, 'status': m_status, 'statusor': m_statusor,
           'opt': m_opt, 'variant': m_variant, 'any': m_any, 'unique': m_unique, 'shared': m_shared,
           'atomic': m_atomic, 'it': m_it, 'span': m_span, 'stream': m_stream, 'pair': m_pair, 'il': m_il,
           'opq': m_opq}


# ---------------------------------------------------------------- operators
def operator(I, op, f, args, node):
    a = [L.val(I, x) for x in args]
    if op in ('==', '!=', '<', '>', '<=', '>='):
        x, y = a
        if isinstance(x, It) or isinstance(y, It):
            return it_cmp(I, op, x, y)
        if isinstance(x, (Opq,)) or isinstance(y, (Opq,)):
            o = y if isinstance(x, Opq) else x
            if isinstance(o, OptV):
                return lnot(o.has) if op == '==' else o.has
        if isinstance(x, FnV) or isinstance(y, FnV) or isinstance(x, (UniqueV, SharedV)) or isinstance(y, (UniqueV, SharedV)):
            px = x.p if isinstance(x, (UniqueV, SharedV)) else x
            py = y.p if isinstance(y, (UniqueV, SharedV)) else y
            r = I.ptr_eq(px, py)
            if op == '==':
                return r
            if op == '!=':
                return lnot(r)
        if isinstance(x, OptV) and not isinstance(y, OptV):
            y = OptV(TRUE, y, x.vt)
        if isinstance(x, StatusV) and isinstance(y, StatusV):
            r = eq(m_status(I, x, 'code', [], f, node), m_status(I, y, 'code', [], f, node))
            if x.code == y.code and x.code != 0:
                r = land(r, L.streq(I, x.msg, y.msg))
            return r if op == '==' else lnot(r)
        if op == '==':
            return L.keq(I, x, y)
        if op == '!=':
            return lnot(L.keq(I, x, y))
        ty = L.decay(f['pt'][0])
        if op == '<':
            return L.vless(I, x, y, ty)
        if op == '>':
            return L.vless(I, y, x, ty)
        if op == '<=':
            return lnot(L.vless(I, y, x, ty))
        return lnot(L.vless(I, x, y, ty))
    if op == '+':
        x, y = a
        if isinstance(x, It) or isinstance(y, It):
            it, k = (x, y) if isinstance(x, It) else (y, x)
            return m_it(I, it, 'operator+', [k], f, node)
        return StrV(tuple(piece(I, x).p) + tuple(piece(I, y).p))
    if op == '-' and isinstance(a[0], It):
        return m_it(I, a[0], 'operator-', [a[1]], f, node)
    if op == '<<':
        if isinstance(a[0], StreamV):
            return stream_out(I, a[0], args[1], L.decay(f['pt'][1]))
        if isinstance(a[0], Rec) and a[0].cls.startswith('verif_log'):
            return a[0]
    if op == '>>' and isinstance(a[0], StreamV):
        raise Imprecise('stream input')
    if op in ('|', '&', '^') and isinstance(a[0], T):
        return {'|': bor, '&': band, '^': bxor}[op](a[0], a[1])
    raise Imprecise('operator %s on %r' % (op, a))


def piece(I, x):
    if isinstance(x, T):
        return StrV([('b', x)])
    return L.cstr(I, x)


# ---------------------------------------------------------------- functions
def call(I, f, args, node=None):
    n = f['n']
    h = I.ext.get(n) if I.ext else None
    if h is not None:
        return h(I, args, f, node)
    h = FUNCS.get(n)
    if h is None:
        h = FUNCS.get(n.split('::')[-1]) if not n.startswith('mpact') else None
        if h is not None and h not in _BARE:
            h = None
    if h is None:
        if n.startswith('absl::') and n.endswith('Error') and n[6:-5] in L.CODES:
            m = L.cstr(I, L.val(I, args[0])) if args else StrV()
            return StatusV(L.CODES[n[6:-5]], StrV(m.p))
        if n.startswith('absl::Is') and n[8:] in L.CODES:
            st = args[0]
            return boolc(st.code == L.CODES[n[8:]])
        if n.startswith('verif_log::'):
            if 'fatal' in n and 'dfatal' not in n:
                I.abort('fatal log / check failure')
            raise Imprecise(n)
        raise Imprecise('call of %s' % n)
    return h(I, args, f, node)


FUNCS = {}
_BARE = set()


def reg(*names, **kw):
    def d(fn):
        for n in names:
            FUNCS[n] = fn
        if kw.get('bare'):
            _BARE.add(fn)
        return fn
    return d


@reg('std::move', 'std::forward', 'std::as_const', 'absl::implicit_cast', 'absl::MakeConstSpan', 'absl::MakeSpan', 'std::ref', 'std::cref')
def f_move(I, a, f, node):
    n = f['n']
    if n.endswith('MakeSpan') or n.endswith('MakeConstSpan'):
        if len(a) == 1:
            return L.ctor(I, f['ret'], {'a': [], 'f': f}, [a[0]])
        return L.ctor(I, f['ret'], {'a': [], 'f': f}, a)
    if n == 'std::move' and len(a) == 3:
        return f_copy(I, a, f, node)
    if n in ('std::ref', 'std::cref'):
        return Ptr(a[0])
    return a[0]


@reg('std::swap', bare=True)
def f_swap(I, a, f, node):
    x, y = a
    if L.isloc(x):
        u, v = I.load(x), I.load(y)
        x.set(v)
        y.set(u)
        return None
    if isinstance(x, Rec):
        t = I.copy_value(x, True)
        I.assign_into(x, y, x.cls, True)
        I.assign_into(y, t, y.cls, True)
        I.destroy(t)
        return None
    t = I.copy_value(x, True)
    L.assign(I, x, y, True)
    L.assign(I, y, t, True)
    return None


@reg('std::exchange')
def f_exchange(I, a, f, node):
    old = I.copy_value(L.val(I, a[0]), True)
    new = L.val(I, a[1])
    if L.isloc(a[0]):
        ty = L.decay(f['pt'][0])
        if isinstance(new, T):
            new = I.conv(new, L.decay(f['pt'][1]), ty)
        a[0].set(new)
    elif isinstance(a[0], Rec):
        I.assign_into(a[0], new, a[0].cls, True)
    else:
        L.assign(I, a[0], new, True)
    return old


def _numty(f):
    return L.decay(f['pt'][0])


@reg('std::min', 'std::max')
def f_minmax(I, a, f, node):
    if isinstance(a[0], InitListV):
        items = a[0].items
        ty = a[0].el
        best = items[0]
        for x in items[1:]:
            lt = L.vless(I, x, best, ty) if f['n'] == 'std::min' else L.vless(I, best, x, ty)
            if I.decide(lt):
                best = x
        return best
    x, y = L.val(I, a[0]), L.val(I, a[1])
    ty = _numty(f)
    if f['n'] == 'std::min':
        return a[1] if I.decide(L.vless(I, y, x, ty)) else a[0]
    return a[1] if I.decide(L.vless(I, x, y, ty)) else a[0]


@reg('std::clamp')
def f_clamp(I, a, f, node):
    x, lo, hi = [L.val(I, v) for v in a[:3]]
    ty = _numty(f)
    if I.decide(L.vless(I, x, lo, ty)):
        return a[1]
    if I.decide(L.vless(I, hi, x, ty)):
        return a[2]
    return a[0]


@reg('std::abs', 'abs', 'labs', 'llabs')
def f_abs(I, a, f, node):
    x = L.val(I, a[0])
    if f['pt'][0].k == 'float':
        return band(x, const(mask(x.w) >> 1, x.w))
    return neg(x) if I.decide(slt(x, const(0, x.w))) else x


@reg('memcpy', 'std::memcpy', 'memmove', 'std::memmove', '__builtin_memcpy', '__builtin_memmove')
def f_memcpy(I, a, f, node):
    d, s = L.val(I, a[0]), L.val(I, a[1])
    n = I.cint(L.val(I, a[2]), what='copy size', limit=66)
    copybytes(I, d, s, n)
    return d


def arrview(I, p, what):
    I.nonnull(p, what)
    if p.base is not None:
        return p.base, (p.off if isinstance(p.off, int) else I.cint(p.off, signed=True))
    if isinstance(p.t, Arr):
        return p.t, 0
    if isinstance(p.t, Obj) and not isinstance(p.t, Cell):
        raise Imprecise('raw access to %r' % (p.t,))
    v = I.load(p.t)
    if isinstance(v, T):
        return I.view(p.t, 1 if v.w == 1 else v.w // 8), 0
    raise Imprecise('raw access')


def copybytes(I, d, s, n):
    if n == 0:
        return
    if isinstance(s, StrV):
        cs = s.chars()
        if cs is None:
            raise Imprecise('copy of opaque string')
        cs = cs + [const(0, 8)]
        if n > len(cs):
            I.ub('read past the end of a string')
        da, do = arrview(I, d, 'memcpy')
        for i in range(n):
            I.elem(da, do + i, _U8(I)).set(cs[i])
        return
    if isinstance(d, StrV):
        raise Imprecise('copy into string')
    da, do = arrview(I, d, 'memcpy')
    sa, so = arrview(I, s, 'memcpy')
    if not da.alive or not sa.alive:
        I.ub('memory copy from or to freed memory')
    if so < 0 or so + n > len(sa.items) * sa.es:
        I.ub('memory copy reads past the end of the source (%d bytes from offset %d of %d)' % (n, so, len(sa.items) * sa.es))
    if do < 0 or do + n > len(da.items) * da.es:
        I.ub('memory copy writes past the end of the destination (%d bytes at offset %d of %d)' % (n, do, len(da.items) * da.es))
    if da.es == sa.es and do % da.es == 0 and so % da.es == 0 and n % da.es == 0 and isinstance(da, Arr) and isinstance(sa, Arr):
        k = n // da.es
        tmp = [sa.items[so // da.es + i] for i in range(k)]
        if any(isinstance(x, Rec) for x in tmp):
            raise Imprecise('memcpy of records')
        for i in range(k):
            da.items[do // da.es + i] = tmp[i]
        return
    bs = [PunLV(sa, so + i, 8).get() for i in range(n)]
    i = 0
    while i < n:
        # write whole elements at once when possible
        if (do + i) % da.es == 0 and i + da.es <= n and da.es > 1:
            bits = []
            for b in bs[i:i + da.es]:
                bits += [bit(b, j) for j in range(8)]
            PunLV(da, do + i, 8 * da.es).set(frombits(bits))
            i += da.es
        else:
            PunLV(da, do + i, 8).set(bs[i])
            i += 1


class _Ty(object):
    k = 'int'
    w = 8
    s = 'unsigned char'
    size = 1


def _U8(I):
    return _Ty


@reg('memset', 'std::memset', '__builtin_memset')
def f_memset(I, a, f, node):
    d = L.val(I, a[0])
    c = trunc(L.val(I, a[1]), 8)
    n = I.cint(L.val(I, a[2]), what='fill size', limit=66)
    if n == 0:
        return d
    da, do = arrview(I, d, 'memset')
    if not da.alive:
        I.ub('memory fill of freed memory')
    if do < 0 or do + n > len(da.items) * da.es:
        I.ub('memory fill past the end (%d bytes at offset %d of %d)' % (n, do, len(da.items) * da.es))
    if do == 0 and n == len(da.items) * da.es and isinstance(da, Arr) and isinstance(da.items, Sparse):
        da.items.fill(frombits([bit(c, j % 8) for j in range(8 * da.es)]))
        return d
    i = 0
    while i < n:
        if (do + i) % da.es == 0 and i + da.es <= n:
            if isc(c) and cval(c) == 0 and isinstance(da, Arr) and da.el is not None and da.el.k in ('ptr',):
                da.items[(do + i) // da.es] = null()
            else:
                PunLV(da, do + i, 8 * da.es).set(frombits([bit(c, j % 8) for j in range(8 * da.es)]))
            i += da.es
        else:
            PunLV(da, do + i, 8).set(c)
            i += 1
    return d


@reg('memcmp', 'std::memcmp', '__builtin_memcmp')
def f_memcmp(I, a, f, node):
    x, y = L.val(I, a[0]), L.val(I, a[1])
    n = I.cint(L.val(I, a[2]), limit=66)
    xa, xo = arrview(I, x, 'memcmp')
    ya, yo = arrview(I, y, 'memcmp')
    for i in range(n):
        p, q = PunLV(xa, xo + i, 8).get(), PunLV(ya, yo + i, 8).get()
        if not I.decide(eq(p, q)):
            return const(-1, 32) if I.decide(ult(p, q)) else const(1, 32)
    return const(0, 32)


@reg('malloc', 'std::malloc', 'calloc')
def f_malloc(I, a, f, node):
    n = I.cint(L.val(I, a[0]))
    if f['n'] == 'calloc':
        n *= I.cint(L.val(I, a[1]))
    arr = Arr([const(0, 8) if f['n'] == 'calloc' else I.undef(8) for _ in range(n)], None, 1, 'heap')
    I.alloc(arr, 'malloc')
    return Ptr(base=arr, off=0)


@reg('free', 'std::free')
def f_free(I, a, f, node):
    p = L.val(I, a[0])
    if p.null is TRUE:
        return None
    t = p.base if p.base is not None else p.t
    if not t.alive:
        I.ub('double free')
    if t.heap != 'malloc':
        I.ub('free of memory from %s' % t.heap)
    t.alive = False
    return None


@reg('__assert_fail', '__assert', 'abort', 'std::abort', 'exit', 'std::exit', 'std::terminate', '__builtin_unreachable', '__builtin_trap',
     'std::__throw_bad_function_call', 'absl::internal::ThrowStdOutOfRange', 'std::__throw_out_of_range_fmt')
def f_abort(I, a, f, node):
    if f['n'] == '__assert_fail' and a:
        s = L.val(I, a[0])
        I.abort('assertion failed: %s' % (s.const() if isinstance(s, StrV) else '?'))
    I.abort(f['n'])


@reg('absl::OkStatus')
def f_ok(I, a, f, node):
    return StatusV(0, StrV())


@reg('absl::StrCat')
def f_strcat(I, a, f, node):
    p = ()
    for i, x in enumerate(a):
        v = L.val(I, x)
        if isinstance(v, InitListV):
            for y in v.items:
                p += tuple(L.to_str(I, y, v.el).p)
            continue
        t = f['pt'][i] if i < len(f['pt']) else None
        p += tuple(L.to_str(I, v, L.decay(t)).p)
    return StrV(p)


@reg('absl::StrAppend')
def f_strappend(I, a, f, node):
    d = L.val(I, a[0])
    d = d.t if isinstance(d, Ptr) else d
    p = tuple(d.p)
    for i, x in enumerate(a[1:]):
        v = L.val(I, x)
        if isinstance(v, InitListV):
            for y in v.items:
                p += tuple(L.to_str(I, y, v.el).p)
            continue
        t = f['pt'][i + 1] if i + 1 < len(f['pt']) else None
        p += tuple(L.to_str(I, v, L.decay(t)).p)
    d.p = norm_pieces(p)
    return None


@reg('absl::StrJoin')
def f_strjoin(I, a, f, node):
    if len(a) == 4 or (len(a) == 3 and isinstance(L.val(I, a[0]), (It, Ptr))):
        items = list(L.rng(I, a[0], a[1]))
        sep = L.cstr(I, L.val(I, a[2]))
        fm = a[3] if len(a) == 4 else None
    else:
        items = list(L.iterate(I, a[0]))
        sep = L.cstr(I, L.val(I, a[1]))
        fm = a[2] if len(a) > 2 else None
    p = ()
    for i, x in enumerate(items):
        if i:
            p += tuple(sep.p)
        if fm is not None:
            s = StrV()
            L.call_cb(I, L.val(I, fm) if not isinstance(fm, Rec) else fm, [Cell(Ptr(s)), x])
            p += tuple(s.p)
        else:
            el = a[0].el if isinstance(a[0], (Arr, InitListV)) else None
            p += tuple(L.to_str(I, x, el).p)
    return StrV(p)


@reg('std::to_string')
def f_tostr(I, a, f, node):
    return L.to_str(I, a[0], f['pt'][0])


@reg('absl::StrFormat', 'absl::FormatStreamed')
def f_strformat(I, a, f, node):
    fm = L.val(I, a[0])
    fs = L.cstr(I, fm).const()
    if fs is None:
        raise Imprecise('dynamic format')
    out = ()
    i = 0
    k = 1
    import re
    for m in re.finditer(r'%%|%([-+ #0]*)(\d*)(?:\.(\d+))?(?:hh|h|ll|l|z|j|t|L)?([a-zA-Z])|[^%]+', fs):
        tok = m.group(0)
        if tok == '%%':
            out += (('c', '%'),)
            continue
        if tok[0] != '%':
            out += (('c', tok),)
            continue
        if k >= len(a):
            I.ub('missing format argument')
        x = L.val(I, a[k])
        ty = L.decay(f['pt'][k]) if k < len(f['pt']) else None
        k += 1
        cv = m.group(4)
        if cv == 's':
            out += tuple(L.to_str(I, x, ty).p)
        elif cv in 'di' and not m.group(1) and not m.group(2):
            out += tuple(L.fmt_int(I, x, bool(ty.sg) if ty is not None else True).p)
        elif cv == 'u' and not m.group(1) and not m.group(2):
            out += tuple(L.fmt_int(I, x, False).p)
        elif cv == 'c':
            out += (('b', trunc(x, 8)),)
        elif isinstance(x, T):
            spec = m.group(1) + m.group(2) + ('.' + m.group(3) if m.group(3) else '') + cv
            if cv in 'xXdu' and isc(x) and not m.group(3):
                v = sval(x) if cv == 'd' and x.w > 1 else cval(x)
                out += (('c', ('%' + spec.replace('u', 'd')) % v),)
            else:
                if spec == 'x':
                    out += tuple(L.fmt_int(I, x, False, 'x').p)
                else:
                    out += (('f', spec + str(x.w), x),)
        else:
            out += (('s', 'fmt'),)
    return StrV(out)


@reg('absl::StrContains')
def f_contains(I, a, f, node):
    r = str_find(I, L.cstr(I, L.val(I, a[0])), 'find', [a[1]])
    return lnot(eq(r, const(-1, 64)))


@reg('absl::StartsWith', 'absl::EndsWith')
def f_starts(I, a, f, node):
    return starts(I, L.cstr(I, L.val(I, a[0])), L.cstr(I, L.val(I, a[1])), 'starts_with' if 'Starts' in f['n'] else 'ends_with')


@reg('absl::ascii_isupper', 'absl::ascii_islower', 'absl::ascii_isalpha', 'absl::ascii_isdigit', 'absl::ascii_isalnum', 'absl::ascii_isspace',
     'isupper', 'islower', 'isalpha', 'isdigit', 'isalnum', 'isspace', 'std::isupper', 'std::islower', 'std::isalpha', 'std::isdigit',
     'std::isalnum', 'std::isspace', 'absl::ascii_isxdigit', 'isxdigit', 'std::isxdigit')
def f_ctype(I, a, f, node):
    c = L.val(I, a[0])
    w = c.w
    k = f['n'].split('::')[-1].replace('ascii_', '')
    R = {'isupper': [(65, 90)], 'islower': [(97, 122)], 'isalpha': [(65, 90), (97, 122)], 'isdigit': [(48, 57)],
         'isalnum': [(48, 57), (65, 90), (97, 122)], 'isspace': [(9, 13), (32, 32)], 'isxdigit': [(48, 57), (65, 70), (97, 102)]}[k]
    r = lor(*[land(lnot(ult(c, const(lo, w))), ult(c, const(hi + 1, w))) for lo, hi in R])
    rw = I.bits_of(f['ret'])
    if rw == 1:
        return r
    return zext(r, rw)


@reg('absl::ascii_toupper', 'absl::ascii_tolower', 'toupper', 'tolower', 'std::toupper', 'std::tolower')
def f_case(I, a, f, node):
    c = L.val(I, a[0])
    w = c.w
    up = 'upper' in f['n']
    lo, hi = (97, 122) if up else (65, 90)
    if I.decide(land(lnot(ult(c, const(lo, w))), ult(c, const(hi + 1, w)))):
        return sub(c, const(32, w)) if up else add(c, const(32, w))
    return c


def _strmap(I, s, fn):
    out = []
    for q in s.p:
        if q[0] == 'c':
            out.append(('c', fn(q[1])))
        else:
            raise Imprecise('case of opaque string')
    return StrV(out)


@reg('absl::AsciiStrToLower', 'absl::AsciiStrToUpper')
def f_strcase(I, a, f, node):
    up = 'Upper' in f['n']
    s = L.cstr(I, L.val(I, a[0])) if not isinstance(a[0], Ptr) else a[0].t
    cs = s.chars()
    if cs is None:
        raise Imprecise('case of opaque string')
    out = []
    for c in cs:
        lo, hi = (97, 122) if up else (65, 90)
        if I.decide(land(lnot(ult(c, const(lo, 8))), ult(c, const(hi + 1, 8)))):
            c = sub(c, const(32, 8)) if up else add(c, const(32, 8))
        out.append(('b', c))
    if isinstance(a[0], Ptr):
        s.p = norm_pieces(out)
        return None
    return StrV(out)


@reg('std::get')
def f_get(I, a, f, node):
    o = L.val(I, a[0])
    t = f['ta'][0]
    if isinstance(o, VarV):
        i = t if isinstance(t, int) else alt_index(o, t)
        if o.i != i:
            I.abort('bad variant access')
        return boxed(o)
    if isinstance(o, PairV):
        if not isinstance(t, int):
            raise Imprecise('get by type')
        return L.loc_in(o.v, t)
    if isinstance(o, Arr):
        return locof(o, t)
    raise Imprecise('std::get')


def alt_index(o, t):
    for i, x in enumerate(o.alts):
        if x.unq == t.unq:
            return i
    raise Imprecise('variant alternative')


@reg('std::get_if')
def f_get_if(I, a, f, node):
    p = L.val(I, a[0])
    o = p.t
    t = f['ta'][0]
    i = t if isinstance(t, int) else alt_index(o, t)
    return Ptr(boxed(o)) if o.i == i else null()


@reg('std::holds_alternative')
def f_holds(I, a, f, node):
    o = L.val(I, a[0])
    return boolc(o.i == alt_index(o, f['ta'][0]))


@reg('std::visit', 'absl::visit')
def f_visit(I, a, f, node):
    vs = [boxed(L.val(I, x)) for x in a[1:]]
    fn = L.val(I, a[0])
    if isinstance(fn, Rec):
        ms = [m for m in I.p.find_methods(fn.cls, 'operator()') if len(m['pt']) == len(vs)]
        tys = [L.val(I, x).alts[L.val(I, x).i] for x in a[1:]]
        ex = [m for m in ms if all(L.decay(p).unq == t.unq for p, t in zip(m['pt'], tys))]
        if not ex:
            ex = [m for m in ms if all(fits(I, p, v, None) for p, v in zip(m['pt'], vs))] if len(ms) > 1 else ms
        if not ex:
            raise Imprecise('visitor overload')
        m = ex[0]
        args = [v if p.k == 'ref' else I.copy_value(L.val(I, v)) for p, v in zip(m['pt'], vs)]
        if I.p.records.get(fn.cls, {}).get('lambda'):
            return I.call_closure(fn, args, m['id'])
        return I.call_method(fn, {'id': m['id'], 'n': 'operator()', 'mn': 'operator()', 'virt': False, 'm': True, 'ret': m['ret']}, args)
    return I.invoke(fn, vs)


@reg('std::any_cast')
def f_any_cast(I, a, f, node):
    x = a[0]
    v = L.val(I, x)
    t = f['ta'][0]
    if isinstance(v, Ptr):
        o = v.t
        return Ptr(boxed(o)) if o.ty is not None and o.ty.unq == t.unq else null()
    if v.ty is None or v.ty.unq != t.unq:
        I.abort('bad any_cast')
    return I.copy_value(v.v)


@reg('std::make_any')
def f_make_any(I, a, f, node):
    return AnyV(f['ta'][0], L.own(I, a[0]))


@reg('std::make_unique', 'absl::make_unique', 'std::make_shared', 'absl::WrapUnique')
def f_make_unique(I, a, f, node):
    if f['n'] == 'absl::WrapUnique':
        return UniqueV(L.val(I, a[0]))
    t = f['ta'][0]
    if t.k == 'array':
        n = I.cint(L.val(I, a[0]), limit=66)
        items = Sparse(n, lambda: I.zero(t.el)) if n > 512 and t.el.k in ('int', 'bool', 'float', 'enum', 'ptr') else [I.zero(t.el) for _ in range(n)]
        arr = Arr(items, t.el, I.sizeof(t.el), 'heap')
        I.alloc(arr, 'new[]')
        return UniqueV(Ptr(base=arr, off=0), True)
    v = emplace_val(I, t, a, f)
    if not isinstance(v, Obj) or isinstance(v, FnV):
        v = Cell(v, 'heap')
    I.alloc(v, 'new')
    if f['n'] == 'std::make_shared':
        return SharedV(Ptr(v), [1])
    return UniqueV(Ptr(v))


@reg('std::make_pair', 'std::make_tuple', 'std::tie', 'std::forward_as_tuple')
def f_make_pair(I, a, f, node):
    if f['n'] in ('std::tie', 'std::forward_as_tuple'):
        raise Imprecise('tie')
    return PairV([L.own(I, x, i < len(f['pt']) and f['pt'][i].k == 'ref' and bool(f['pt'][i].rv)) for i, x in enumerate(a)])


@reg('std::make_optional')
def f_make_opt(I, a, f, node):
    return OptV(TRUE, L.own(I, a[0]), f['ret'].ta[0])


@reg('std::bind', 'absl::bind_front', 'std::bind_front')
def f_bind(I, a, f, node):
    fn = L.val(I, a[0])
    pre = []
    for x in a[1:]:
        v = L.val(I, x)
        if isinstance(v, Opq) and isinstance(v.tag, tuple):
            pre.append(v.tag)
        else:
            pre.append(v)
    if f['n'] == 'std::bind' and not any(isinstance(x, tuple) for x in pre):
        pre = pre
    return FnV('bound', fn if isinstance(fn, FnV) else FnV('obj', fn), pre)


@reg('std::begin', 'std::cbegin')
def f_begin(I, a, f, node):
    o = L.val(I, a[0])
    if isinstance(o, Arr) and o.sort == 'array':
        return Ptr(base=o, off=0)
    return METHODS[o.kind](I, o, 'begin', [], f, node)


@reg('std::end', 'std::cend')
def f_end(I, a, f, node):
    o = L.val(I, a[0])
    if isinstance(o, Arr) and o.sort == 'array':
        return Ptr(base=o, off=len(o.items) * o.es)
    return METHODS[o.kind](I, o, 'end', [], f, node)


@reg('std::size', 'std::ssize', 'std::empty', 'std::data')
def f_size(I, a, f, node):
    o = L.val(I, a[0])
    if isinstance(o, Arr) and f['n'] != 'std::empty':
        return c64(len(o.items)) if f['n'] != 'std::data' else Ptr(base=o, off=0)
    return METHODS[o.kind](I, o, f['n'][5:].replace('ssize', 'size'), [], f, node)


@reg('std::next', 'std::prev', 'std::advance', 'std::distance')
def f_next(I, a, f, node):
    it = L.val(I, a[0])
    n = f['n'][5:]
    if n == 'distance':
        e = L.val(I, a[1])
        if isinstance(it, It):
            return const(e.pos - it.pos, 64)
        return I.ptr_op('-', e, it, f['pt'][0], f['pt'][0])
    k = I.cint(L.val(I, a[1]), signed=True) if len(a) > 1 else 1
    if n == 'prev':
        k = -k
    if isinstance(it, Ptr):
        r = I.ptr_add(it, k, L.decay(f['pt'][0]).to)
        if n == 'advance':
            a[0].set(r)
            return None
        return r
    if it.rev:
        k = -k
    np = it.pos + k
    if np < 0 or np > L.clen(it.c):
        I.ub('iterator moved out of range')
    if n == 'advance':
        it.pos = np
        return None
    return It(it.c, np, it.rev)


def first_it(I, b, i):
    b = L.val(I, b)
    if isinstance(b, It):
        return It(b.c, b.pos - i if b.rev else b.pos + i, b.rev)
    if isinstance(b, StrV):
        raise Imprecise('position in a string')
    a, o = I.norm_arr(b)
    if a is None or not isinstance(o, int):
        raise Imprecise('pointer range')
    return Ptr(base=a, off=o + i * a.es)


@reg('std::find', 'std::find_if', 'std::find_if_not')
def f_find(I, a, f, node):
    n = f['n'][5:]
    i = 0
    for l in L.rng(I, a[0], a[1], L.ptee(f, 0)):
        if n == 'find':
            hit = I.decide(L.keq(I, l, a[2]))
        else:
            hit = I.truth(L.call_cb(I, a[2], [l])) != (n == 'find_if_not')
        if hit:
            return first_it(I, a[0], i)
        i += 1
    b = L.val(I, a[1])
    return It(b.c, b.pos, b.rev) if isinstance(b, It) else b


@reg('std::any_of', 'std::all_of', 'std::none_of', 'absl::c_any_of', 'absl::c_all_of', 'absl::c_none_of')
def f_anyof(I, a, f, node):
    n = f['n'].split('::')[-1].replace('c_', '')
    it = L.iterate(I, a[0]) if 'c_' in f['n'] else L.rng(I, a[0], a[1], L.ptee(f, 0))
    for l in it:
        r = I.truth(L.call_cb(I, a[-1], [l]))
        if n == 'any_of' and r:
            return TRUE
        if n == 'all_of' and not r:
            return FALSE
        if n == 'none_of' and r:
            return FALSE
    return boolc(n != 'any_of')


@reg('std::for_each', 'absl::c_for_each')
def f_foreach(I, a, f, node):
    it = L.iterate(I, a[0]) if 'c_' in f['n'] else L.rng(I, a[0], a[1], L.ptee(f, 0))
    for l in it:
        r = L.call_cb(I, a[-1], [l])
    return a[-1] if isinstance(a[-1], Obj) else None


@reg('std::count_if', 'std::count')
def f_count(I, a, f, node):
    k = 0
    for l in L.rng(I, a[0], a[1], L.ptee(f, 0)):
        if f['n'] == 'std::count':
            k += I.decide(L.keq(I, l, a[2]))
        else:
            k += I.truth(L.call_cb(I, a[2], [l]))
    return c64(k)


@reg('std::accumulate')
def f_acc(I, a, f, node):
    acc = L.own(I, a[2])
    ty = f['pt'][2]
    for l in L.rng(I, a[0], a[1], L.ptee(f, 0)):
        x = L.val(I, l)
        if len(a) > 3:
            acc = L.call_cb(I, a[3], [acc if isinstance(acc, Obj) else Cell(acc), l])
        elif isinstance(acc, StrV):
            acc = StrV(acc.p + L.cstr(I, x).p)
        else:
            ft = a[0].c.el if isinstance(a[0], It) else None
            if x.w != acc.w:
                x = I.conv(x, ft, ty) if ft is not None and x.w < acc.w else trunc(x, acc.w)
            acc = add(acc, x)
    return acc


@reg('std::fill', 'std::fill_n')
def f_fill(I, a, f, node):
    if f['n'] == 'std::fill':
        for l in list(L.rng(I, a[0], a[1], L.ptee(f, 0))):
            put(I, l, a[2], f['pt'][2])
        return None
    n = I.cint(L.val(I, a[1]), limit=66)
    p = L.val(I, a[0])
    for i in range(n):
        l = L.step(I, p, i, L.ptee(f, 0))
        put(I, l, a[2], f['pt'][2])
    return first_it(I, p, n)


def put(I, l, v, ty):
    v = L.own(I, v)
    if L.isloc(l):
        cur = l.get()
        if isinstance(v, T) and isinstance(cur, T) and cur.w != v.w:
            t = L.decay(ty)
            v = trunc(v, cur.w) if v.w > cur.w else (sext(v, cur.w) if t.sg else zext(v, cur.w))
        l.set(v)
    elif isinstance(l, Rec):
        I.assign_into(l, v, l.cls, False)
    else:
        L.assign(I, l, v, False)


@reg('std::copy', 'std::copy_n', 'std::copy_backward', 'std::move_backward', 'std::copy_if', 'std::transform')
def f_copy(I, a, f, node):
    n = f['n'][5:]
    if f['n'].startswith('absl'):
        raise Imprecise(f['n'])
    if n == 'move_backward':
        n = 'copy_backward'
    if n == 'copy_n':
        k = I.cint(L.val(I, a[1]), limit=66)
        p = L.val(I, a[0])
        src = [L.step(I, p, i, L.ptee(f, 0)) for i in range(k)]
        d = L.val(I, a[2])
    else:
        src = list(L.rng(I, a[0], a[1], L.ptee(f, 0)))
        d = L.val(I, a[3] if n == 'transform' and len(a) == 5 else a[2])
    vals = []
    for i, s in enumerate(src):
        if n == 'transform' and len(a) == 5:
            vals.append(L.call_cb(I, a[4], [s, L.step(I, L.val(I, a[2]), i, L.ptee(f, 2))]))
        elif n == 'transform':
            vals.append(L.call_cb(I, a[3], [s]))
        elif n == 'copy_if':
            if I.truth(L.call_cb(I, a[3], [s])):
                vals.append(L.own(I, s))
        else:
            vals.append(L.own(I, s))
    if isinstance(d, Opq) and isinstance(d.tag, tuple) and d.tag[0] == 'ins':
        for v in vals:
            d.tag[1](v)
        return d
    if n == 'copy_backward' and isinstance(d, It) and d.c is not None:
        for i, v in enumerate(vals):
            put(I, L.it_deref(I, It(d.c, d.pos - len(vals) + i)), v, None)
        return It(d.c, d.pos - len(vals))
    if isinstance(d, It) and d.c is not None:
        for i, v in enumerate(vals):
            put(I, L.it_deref(I, It(d.c, d.pos + i)), v, None)
        return It(d.c, d.pos + len(vals))
    if isinstance(d, Ptr):
        if not vals:
            return d
        a_, o_ = arrview(I, d, 'copy')
        dt = L.ptee(f, 3 if len(a) == 5 else 2)
        es = I.sizeof(dt) if dt is not None else a_.es
        if n == 'copy_backward':
            o_ -= len(vals) * es
        st = L.ptee(f, 0) or dt
        for i, v in enumerate(vals):
            put(I, I.elem(a_, o_ + i * es, dt if dt is None or dt.k != 'rec' else None), v, st)
        return Ptr(base=a_, off=o_ + len(vals) * es)
    if isinstance(d, PairV) or isinstance(d, Opq):
        raise Imprecise('output iterator')
    raise Imprecise('copy destination')


@reg('std::reverse')
def f_reverse(I, a, f, node):
    b, e = L.val(I, a[0]), L.val(I, a[1])
    if isinstance(b, It) and isinstance(b.c, Arr):
        b.c.items[b.pos:e.pos] = b.c.items[b.pos:e.pos][::-1]
        return None
    if isinstance(b, (It, Ptr)):
        ls = list(L.rng(I, b, e, L.ptee(f, 0)))
        vs = [L.val(I, l) for l in ls]
        if all(L.isloc(l) and isinstance(v, T) for l, v in zip(ls, vs)):
            for l, v in zip(ls, vs[::-1]):
                l.set(v)
            return None
    raise Imprecise('reverse')


@reg('std::equal')
def f_equal(I, a, f, node):
    x = list(L.rng(I, a[0], a[1], L.ptee(f, 0)))
    pred = a[-1] if isinstance(L.val(I, a[-1]), (FnV, Rec)) or isinstance(a[-1], Opq) else None
    na = len(a) - (pred is not None)
    if na == 4:
        y = list(L.rng(I, a[2], a[3], L.ptee(f, 2)))
        if len(x) != len(y):
            return FALSE
    else:
        p = L.val(I, a[2])
        y = [L.step(I, p, i, L.ptee(f, 2)) for i in range(len(x))]
    if pred is not None:
        for p, q in zip(x, y):
            if not I.truth(L.call_cb(I, pred, [p, q])):
                return FALSE
        return TRUE
    return land(TRUE, *[L.keq(I, p, q) for p, q in zip(x, y)])


@reg('std::sort', 'std::stable_sort')
def f_sort(I, a, f, node):
    b, e = L.val(I, a[0]), L.val(I, a[1])
    if not (isinstance(b, It) and isinstance(b.c, Arr)):
        raise Imprecise('sort')
    items = b.c.items[b.pos:e.pos]
    out = []
    for x in items:
        i = len(out)
        while i > 0:
            if len(a) > 2:
                lt = I.truth(L.call_cb(I, a[2], [wrap(x), wrap(out[i - 1])]))
            else:
                lt = I.decide(L.vless(I, x, out[i - 1], b.c.el))
            if not lt:
                break
            i -= 1
        out.insert(i, x)
    b.c.items[b.pos:e.pos] = out
    return None


@reg('std::remove', 'std::remove_if')
def f_remove(I, a, f, node):
    b, e = L.val(I, a[0]), L.val(I, a[1])
    if not (isinstance(b, It) and isinstance(b.c, Arr)):
        raise Imprecise('remove')
    keep, gone = [], []
    for l in list(L.rng(I, b, e)):
        hit = I.decide(L.keq(I, l, a[2])) if f['n'] == 'std::remove' else I.truth(L.call_cb(I, a[2], [l]))
        (gone if hit else keep).append(L.val(I, l))
    b.c.items[b.pos:e.pos] = keep + gone
    return It(b.c, b.pos + len(keep))


@reg('std::max_element', 'std::min_element')
def f_maxel(I, a, f, node):
    b = L.val(I, a[0])
    best, bi = None, 0
    for i, l in enumerate(L.rng(I, a[0], a[1], L.ptee(f, 0))):
        if best is None:
            best, bi = l, i
            continue
        el = b.c.el if isinstance(b, It) else b.base.el
        x, y = (best, l) if 'max' in f['n'] else (l, best)
        lt = I.truth(L.call_cb(I, a[2], [x, y])) if len(a) > 2 else I.decide(L.vless(I, x, y, el))
        if lt:
            best, bi = l, i
    return first_it(I, b, bi)


@reg('std::iota')
def f_iota(I, a, f, node):
    v = L.val(I, a[2])
    for l in list(L.rng(I, a[0], a[1], L.ptee(f, 0))):
        put(I, l, v, f['pt'][2])
        v = add(v, const(1, v.w))


# ---- output iterators and further algorithms
def _inserter(I, c, ty, at=None):
    o = Opq(ty)
    if at == 'front':
        o.tag = ('ins', lambda v: METHODS[c.kind](I, c, 'push_front', [v if isinstance(v, Obj) else Cell(v)], {'n': 'push_front', 'pt': []}, None))
    elif isinstance(c, MapV):
        o.tag = ('ins', lambda v: METHODS[c.kind](I, c, 'insert', [v if isinstance(v, Obj) else Cell(v)], {'n': 'insert', 'pt': []}, None))
    else:
        o.tag = ('ins', lambda v: METHODS[c.kind](I, c, 'push_back', [v if isinstance(v, Obj) else Cell(v)], {'n': 'push_back', 'pt': []}, None))
    return o


@reg('std::back_inserter', 'std::inserter', 'std::front_inserter')
def f_inserter(I, a, f, node):
    c = L.val(I, a[0])
    if not isinstance(c, (Arr, MapV, StrV)):
        raise Imprecise('inserter')
    if f['n'] == 'std::inserter' and isinstance(c, (Arr, StrV)):
        it = L.val(I, a[1])
        if it.pos != L.clen(c):
            raise Imprecise('inserter')
    return _inserter(I, c, f['ret'], 'front' if 'front' in f['n'] else None)


def _lt(I, x, y, a, n, el):
    if len(a) > n:
        return I.truth(L.call_cb(I, a[n], [x if isinstance(x, Obj) or L.isloc(x) else Cell(x), y if isinstance(y, Obj) or L.isloc(y) else Cell(y)]))
    return I.decide(L.vless(I, x, y, el))


def _el(I, b):
    b = L.val(I, b)
    if isinstance(b, It):
        return b.c.el if isinstance(b.c, Arr) else b.c.kt if isinstance(b.c, MapV) else None
    return b.base.el if isinstance(b, Ptr) and b.base is not None else None


@reg('std::lower_bound', 'std::upper_bound', 'std::binary_search', 'std::partition_point')
def f_bound(I, a, f, node):
    n = f['n'][5:]
    i = 0
    for l in L.rng(I, a[0], a[1], L.ptee(f, 0)):
        if n == 'partition_point':
            go = I.truth(L.call_cb(I, a[2], [l]))
        elif n == 'upper_bound':
            go = not _lt(I, a[2], l, a, 3, _el(I, a[0]))
        else:
            go = _lt(I, l, a[2], a, 3, _el(I, a[0]))
        if not go:
            if n == 'binary_search':
                return boolc(not _lt(I, a[2], l, a, 3, _el(I, a[0])))
            return first_it(I, a[0], i)
        i += 1
    if n == 'binary_search':
        return FALSE
    b = L.val(I, a[1])
    return It(b.c, b.pos, b.rev) if isinstance(b, It) else b


@reg('std::includes')
def f_includes(I, a, f, node):
    xs = list(L.rng(I, a[0], a[1], L.ptee(f, 0)))
    for y in L.rng(I, a[2], a[3], L.ptee(f, 2)):
        while xs and _lt(I, xs[0], y, a, 4, _el(I, a[0])):
            xs.pop(0)
        if not xs or _lt(I, y, xs[0], a, 4, _el(I, a[0])):
            return FALSE
        xs.pop(0)
    return TRUE


@reg('std::set_intersection', 'std::set_difference', 'std::set_union')
def f_setop(I, a, f, node):
    n = f['n'][5:]
    xs = list(L.rng(I, a[0], a[1], L.ptee(f, 0)))
    ys = list(L.rng(I, a[2], a[3], L.ptee(f, 2)))
    el = _el(I, a[0])
    out = []
    while xs or ys:
        lt = bool(xs) and (not ys or _lt(I, xs[0], ys[0], a, 5, el))
        gt = not lt and bool(ys) and (not xs or _lt(I, ys[0], xs[0], a, 5, el))
        if lt:
            x = xs.pop(0)
            if n != 'set_intersection':
                out.append(x)
        elif gt:
            y = ys.pop(0)
            if n == 'set_union':
                out.append(y)
        else:
            x = xs.pop(0)
            ys.pop(0)
            if n != 'set_difference':
                out.append(x)
    d = L.val(I, a[4])
    for i, x in enumerate(out):
        v = L.own(I, x)
        if isinstance(d, Opq) and isinstance(d.tag, tuple) and d.tag[0] == 'ins':
            d.tag[1](v)
        else:
            put(I, L.step(I, d, i, L.ptee(f, 4)), v, None)
    return d if isinstance(d, Opq) else first_it(I, d, len(out))


@reg('std::inner_product')
def f_inner(I, a, f, node):
    acc = L.own(I, a[2 + 1])
    for i, l in enumerate(L.rng(I, a[0], a[1], L.ptee(f, 0))):
        r = L.step(I, L.val(I, a[2]), i, L.ptee(f, 2))
        if len(a) > 4:
            x = L.call_cb(I, a[5], [l, r])
            acc = L.call_cb(I, a[4], [acc if isinstance(acc, Obj) else Cell(acc), x if isinstance(x, Obj) else Cell(x)])
        else:
            x, y = L.val(I, l), L.val(I, r)
            if not (isinstance(x, T) and isinstance(y, T) and x.w == y.w == acc.w):
                raise Imprecise('inner_product widths')
            acc = add(acc, mul(x, y))
    return acc


@reg('std::replace', 'std::replace_if', 'std::generate')
def f_replace(I, a, f, node):
    for l in list(L.rng(I, a[0], a[1], L.ptee(f, 0))):
        if f['n'] == 'std::generate':
            put(I, l, L.call_cb(I, a[2], []), None)
            continue
        hit = I.decide(L.keq(I, l, a[2])) if f['n'] == 'std::replace' else I.truth(L.call_cb(I, a[2], [l]))
        if hit:
            put(I, l, a[3], f['pt'][3])
    return None


@reg('std::rotate')
def f_rotate(I, a, f, node):
    b, m, e = (L.val(I, x) for x in a[:3])
    if isinstance(b, It) and isinstance(b.c, Arr):
        its = b.c.items
        its[b.pos:e.pos] = its[m.pos:e.pos] + its[b.pos:m.pos]
        return It(b.c, b.pos + (e.pos - m.pos))
    raise Imprecise('rotate')


@reg('std::unique')
def f_unique(I, a, f, node):
    b, e = L.val(I, a[0]), L.val(I, a[1])
    if not (isinstance(b, It) and isinstance(b.c, Arr)):
        raise Imprecise('unique')
    keep, gone = [], []
    for l in list(L.rng(I, b, e)):
        v = L.val(I, l)
        dup = bool(keep) and (I.truth(L.call_cb(I, a[2], [wrap(keep[-1]), wrap(v)])) if len(a) > 2 else I.decide(L.keq(I, keep[-1], v)))
        (gone if dup else keep).append(v)
    b.c.items[b.pos:e.pos] = keep + gone
    return It(b.c, b.pos + len(keep))


@reg('std::partition', 'std::stable_partition')
def f_partition(I, a, f, node):
    b, e = L.val(I, a[0]), L.val(I, a[1])
    if not (isinstance(b, It) and isinstance(b.c, Arr)):
        raise Imprecise('partition')
    yes, no = [], []
    for l in list(L.rng(I, b, e)):
        (yes if I.truth(L.call_cb(I, a[2], [l])) else no).append(L.val(I, l))
    b.c.items[b.pos:e.pos] = yes + no
    return It(b.c, b.pos + len(yes))


@reg('std::is_sorted')
def f_issorted(I, a, f, node):
    prev = None
    for l in L.rng(I, a[0], a[1], L.ptee(f, 0)):
        if prev is not None and _lt(I, l, prev, a, 2, _el(I, a[0])):
            return FALSE
        prev = l
    return TRUE


@reg('std::mismatch')
def f_mismatch(I, a, f, node):
    raise Imprecise('mismatch')


@reg('std::erase_if', 'absl::erase_if')
def f_eraseif(I, a, f, node):
    c = L.val(I, a[0])
    n = 0
    i = 0
    while i < L.clen(c):
        l = L.it_deref(I, It(c, i))
        if I.truth(L.call_cb(I, a[1], [l])):
            METHODS[c.kind](I, c, 'erase', [It(c, i)], {'n': 'erase', 'pt': []}, node)
            n += 1
        else:
            i += 1
    return c64(n)


def _crange(c):
    if isinstance(c, InitListV):
        a = Arr(c.items, c.el, 1)
        return [It(a, 0), It(a, len(a.items))]
    if isinstance(c, (Arr, MapV, StrV)):
        return [It(c, 0), It(c, L.clen(c))]
    if isinstance(c, SpanV):
        return None
    return None


_C1 = ('find', 'find_if', 'find_if_not', 'count', 'count_if', 'accumulate', 'fill', 'copy', 'copy_if', 'transform',
       'reverse', 'sort', 'stable_sort', 'max_element', 'min_element', 'iota', 'lower_bound', 'upper_bound',
       'binary_search', 'replace', 'replace_if', 'is_sorted', 'rotate', 'partition', 'generate', 'move')
_C2 = ('equal', 'includes', 'set_intersection', 'set_difference', 'set_union', 'inner_product')


def _creg(name, nc):
    def h(I, a, f, node):
        a2 = []
        for i, x in enumerate(a):
            if i < nc:
                r = _crange(L.val(I, x))
                if r is None:
                    raise Imprecise('absl::c_%s of %s' % (name, type(L.val(I, x)).__name__))
                a2 += r if not (name == 'inner_product' and i == 1) else r[:1]
            else:
                a2.append(x)
        f2 = dict(f)
        f2['n'] = 'std::' + name
        f2['pt'] = [t for i, t in enumerate(f.get('pt') or []) for _ in range(2 if i < nc else 1)]
        return FUNCS['std::' + name](I, a2, f2, node)
    FUNCS['absl::c_' + name] = h


for _n in _C1:
    _creg(_n, 1)
for _n in _C2:
    _creg(_n, 2)


@reg('absl::c_linear_search')
def f_clin(I, a, f, node):
    for l in L.iterate(I, a[0]):
        if I.decide(L.keq(I, l, a[1])):
            return TRUE
    return FALSE


# ---- bits
def _popcount(x):
    return bin(x).count('1')


def bitfn(name, pyf, wout=32):
    UF_EVAL[name] = pyf


for _w in (8, 16, 32, 64, 128):
    UF_EVAL['popcount%d' % _w] = lambda x: bin(x).count('1')
    UF_EVAL['clz%d' % _w] = (lambda w: lambda x: w - x.bit_length())(_w)
    UF_EVAL['ctz%d' % _w] = (lambda w: lambda x: w if x == 0 else (x & -x).bit_length() - 1)(_w)
    UF_EVAL['cto%d' % _w] = (lambda w: lambda x: w if x == (1 << w) - 1 else (~x & (x + 1)).bit_length() - 1)(_w)
    UF_EVAL['clo%d' % _w] = (lambda w: lambda x: w - (x ^ ((1 << w) - 1)).bit_length())(_w)
    UF_EVAL['bitwidth%d' % _w] = lambda x: x.bit_length()
    UF_EVAL['bitceil%d' % _w] = lambda x: 1 if x <= 1 else 1 << (x - 1).bit_length()
    UF_EVAL['bitfloor%d' % _w] = lambda x: 0 if x == 0 else 1 << (x.bit_length() - 1)
    UF_EVAL['bswap%d' % _w] = (lambda w: lambda x: int.from_bytes(x.to_bytes(w // 8, 'little'), 'big'))(_w)


def ufe(I, name, x, w):
    if not isc(x) and I.path.known:
        from paths import rebuild
        x = rebuild(x, I.path.known, I.path.memo)
    if isc(x):
        return const(UF_EVAL['%s%d' % (name, x.w)](cval(x)), w)
    return uf('%s%d' % (name, x.w), [x], w)


def _bf(name):
    def g(I, a, f, node):
        x = L.val(I, a[0])
        return ufe(I, name, x, I.bits_of(f['ret']))
    return g


for _n, _k in (('popcount', 'popcount'), ('countl_zero', 'clz'), ('countr_zero', 'ctz'), ('bit_width', 'bitwidth'),
               ('countr_one', 'cto'), ('countl_one', 'clo'),
               ('bit_ceil', 'bitceil'), ('bit_floor', 'bitfloor')):
    FUNCS['absl::' + _n] = FUNCS['std::' + _n] = _bf(_k)
for _n, _k in (('__builtin_popcount', 'popcount'), ('__builtin_popcountll', 'popcount'), ('__builtin_popcountl', 'popcount'),
               ('__builtin_clz', 'clz'), ('__builtin_clzll', 'clz'), ('__builtin_clzl', 'clz'), ('__builtin_ctz', 'ctz'),
               ('__builtin_ctzll', 'ctz'), ('__builtin_ctzl', 'ctz'),
               ('__builtin_bswap16', 'bswap'), ('__builtin_bswap32', 'bswap'), ('__builtin_bswap64', 'bswap')):
    FUNCS[_n] = _bf(_k)


for _n in ('__builtin_clz', '__builtin_clzll', '__builtin_clzl', '__builtin_ctz', '__builtin_ctzll', '__builtin_ctzl'):
    def _g(I, a, f, node, g=FUNCS[_n]):
        x = L.val(I, a[0])
        if I.decide(eq(x, const(0, x.w))):
            I.ub('counting zeros of zero')
        return g(I, a, f, node)
    FUNCS[_n] = _g


@reg('absl::rotl', 'std::rotl', 'absl::rotr', 'std::rotr')
def f_rot(I, a, f, node):
    x = L.val(I, a[0])
    k = I.cint(L.val(I, a[1]), signed=True, limit=130) % x.w
    if f['n'].endswith('r'):
        k = (x.w - k) % x.w
    bs = [bit(x, i) for i in range(x.w)]
    return frombits([bs[(i - k) % x.w] for i in range(x.w)])


@reg('absl::has_single_bit', 'std::has_single_bit')
def f_hsb(I, a, f, node):
    x = L.val(I, a[0])
    return eq(ufe(I, 'popcount', x, 32), const(1, 32))


@reg('std::bit_cast', 'absl::bit_cast', '__builtin_bit_cast')
def f_bitcast(I, a, f, node):
    x = L.val(I, a[0])
    if isinstance(x, T) and I.bits_of(f['ret']) == x.w:
        return x
    raise Imprecise('bit_cast')


@reg('std::isnan', 'std::isinf', 'std::isfinite', 'std::signbit', '__builtin_isnan', '__builtin_signbit')
def f_fclass(I, a, f, node):
    x = L.val(I, a[0])
    ew, mw = (8, 23) if x.w == 32 else (11, 52)
    e = trunc(lshr(x, const(mw, x.w)), ew)
    m = trunc(x, mw)
    n = f['n'].split('::')[-1].replace('__builtin_', '')
    emax = eq(e, const(mask(ew), ew))
    r = {'isnan': lambda: land(emax, lnot(eq(m, const(0, mw)))), 'isinf': lambda: land(emax, eq(m, const(0, mw))),
         'isfinite': lambda: lnot(emax), 'signbit': lambda: bit(x, x.w - 1)}[n]()
    rw = I.bits_of(f['ret'])
    return r if rw == 1 else zext(r, rw)


@reg('strlen', 'std::strlen', '__builtin_strlen')
def f_strlen(I, a, f, node):
    return L.str_len(I, L.cstr(I, L.val(I, a[0])))


@reg('strcmp', 'std::strcmp')
def f_strcmp(I, a, f, node):
    x, y = L.cstr(I, L.val(I, a[0])), L.cstr(I, L.val(I, a[1]))
    if I.decide(L.streq(I, x, y)):
        return const(0, 32)
    return const(-1, 32) if I.decide(L.strless(I, x, y)) else const(1, 32)


@reg('std::addressof', '__builtin_addressof')
def f_addressof(I, a, f, node):
    return I.addr(a[0])


@reg('__builtin_expect')
def f_expect(I, a, f, node):
    return L.val(I, a[0])


def numprefix(s, base, neg=True):
    """value and length of the longest number at the start of the Python string s, C library rules"""
    import re
    m = re.match(r'[ \t\n\v\f\r]*([-+]?)(0[xX](?=[0-9a-fA-F]))?', s)
    i, sign, hx = m.end(), m.group(1), m.group(2)
    if base == 0:
        base = 16 if hx else 8 if s[i:i + 1] == '0' else 10
    elif hx and base != 16:
        i -= 2
    j = i
    while j < len(s) and s[j].isalnum() and ord(s[j]) < 128 and int(s[j], 36) < base:
        j += 1
    if j == i:
        return None, 0
    v = int(s[i:j], base)
    return (-v if sign == '-' else v), j


@reg('strtoull', 'strtoul', 'strtoll', 'strtol', 'std::strtoull', 'std::strtoul', 'std::strtoll', 'std::strtol')
def f_strto(I, a, f, node):
    s = L.cstr(I, L.val(I, a[0]))
    cs = s.const()
    if cs is None:
        raise Imprecise('number in a symbolic string')
    v, n = numprefix(cs, I.cint(L.val(I, a[2])))
    e = L.val(I, a[1])
    if isinstance(e, Ptr) and e.null is not TRUE:
        t = StrV(cs[n:])
        t.tail = (s, n)
        I.store(I.deref(e, f['pt'][1].to), t)
    v = v or 0
    un = 'u' in f['n'].split('::')[-1][4:]
    lo, hi = (-(1 << 64) + 1, (1 << 64) - 1) if un else (-(1 << 63), (1 << 63) - 1)
    if not lo <= v <= hi:
        I.flags.setdefault('errno', Cell(const(0, 32))).set(const(34, 32))
        v = hi if un or v > hi else lo
    return const(v, 64)


@reg('__errno_location')
def f_errno(I, a, f, node):
    return Ptr(I.flags.setdefault('errno', Cell(const(0, 32))))


@reg('std::stoull', 'std::stoul', 'std::stoi', 'std::stol', 'std::stoll')
def f_sto(I, a, f, node):
    s = L.cstr(I, L.val(I, a[0]))
    cs = s.const()
    if cs is None:
        raise Imprecise('number in a symbolic string')
    base = I.cint(L.val(I, a[2])) if len(a) > 2 else 10
    v, n = numprefix(cs, base)
    k = f['n'].split('::')[-1]
    w = 32 if k == 'stoi' else 64
    if v is None:
        I.abort('uncaught std::invalid_argument of %s' % k)
    lo, hi = (-(1 << w) + 1, (1 << w) - 1) if 'u' in k else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    if not lo <= v <= hi:
        I.abort('uncaught std::out_of_range of %s' % k)
    if len(a) > 1:
        e = L.val(I, a[1])
        if isinstance(e, Ptr) and e.null is not TRUE:
            I.store(I.deref(e, f['pt'][1].to), c64(n))
    return const(v, w)


@reg('absl::SimpleAtoi', 'absl::SimpleHexAtoi')
def f_atoi(I, a, f, node):
    cs = L.cstr(I, L.val(I, a[0])).const()
    if cs is None:
        raise Imprecise('number in a symbolic string')
    t = L.val(I, a[1])
    ty = f['pt'][1].to
    w, sg = I.bits_of(ty), bool(ty.sg)
    d = I.deref(t, ty)
    t_ = cs.strip()
    v, n = numprefix(t_, 16 if 'Hex' in f['n'] else 10)
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
    if v is None or n != len(t_) or t_.startswith('-') and not sg:
        I.store(d, const(0, w))
        return FALSE
    if not lo <= v <= hi:
        I.store(d, const(hi if v > hi else lo, w))
        return FALSE
    I.store(d, const(v, w))
    return TRUE


@reg('absl::StrSplit')
def f_split(I, a, f, node):
    s = L.cstr(I, L.val(I, a[0]))
    d = L.val(I, a[1])
    cs = s.const()
    if isinstance(d, StrV):
        d = d.const()
    elif isinstance(d, T) and isc(d):
        d = chr(cval(d) & 255)
    else:
        d = None
    if cs is None or d is None or len(d) != 1 or len(a) > 2:
        raise Imprecise('StrSplit of a symbolic string')
    return Arr([StrV(x) for x in cs.split(d)], None, 32, 'vector')


@reg('std::getline', 'absl::from_chars')
def f_unk(I, a, f, node):
    raise Imprecise(f['n'])


def re_of(I, x):
    x = L.val(I, x)
    if isinstance(x, Ptr):
        x = x.t
    p = x.tag[1] if isinstance(x, Opq) and isinstance(x.tag, tuple) and x.tag[0] == 're' else None
    if p is None:
        raise Imprecise('regular expression')
    import re
    try:
        return re.compile(p)
    except re.error:
        raise Imprecise('regular expression %r' % p)


@reg('RE2::FullMatch', 'RE2::PartialMatch')
def f_re2(I, a, f, node):
    """the subset on which RE2 and Python agree"""
    s = L.cstr(I, L.val(I, a[0])).const()
    if s is None:
        raise Imprecise('regular expression on a symbolic string')
    r = re_of(I, a[1])
    m = r.fullmatch(s) if f['n'].endswith('FullMatch') else r.search(s)
    if m is None:
        return FALSE
    for i, d in enumerate(a[2:]):
        p = L.val(I, d)
        t = I.deref(p, None)
        g = m.group(i + 1) or ''
        if not isinstance(t, StrV):
            raise Imprecise('RE2 argument that is not a string')
        t.p = StrV(g).p
    return TRUE


@reg('absl::GetFlag')
def f_flag(I, a, f, node):
    raise Imprecise('flag')


@reg('std::operator""s', 'std::literals::string_literals::operator""s', 'std::literals::string_view_literals::operator""sv')
def f_lit(I, a, f, node):
    return StrV(L.cstr(I, L.val(I, a[0])).p)


@reg('verif_log::fatal', 'verif_log::dfatal')
def f_fatal(I, a, f, node):
    I.abort('fatal log / failed check')


@reg('verif_log::info', 'verif_log::warning', 'verif_log::error')
def f_log(I, a, f, node):
    I.events.append(('log', f['n'][11:]))
    return StreamV('log')


@reg('std::endl')
def f_endl(I, a, f, node):
    return stream_out(I, a[0], FnV('fn', {'n': 'std::endl'}), None)


@reg('std::char_traits::to_int_type')
def f_to_int(I, a, f, node):
    return zext(L.val(I, a[0]), 32)


@reg('std::char_traits::to_char_type')
def f_to_char(I, a, f, node):
    return trunc(L.val(I, a[0]), 8)


@reg('std::char_traits::eof')
def f_eof(I, a, f, node):
    return const(-1, 32)


@reg('std::char_traits::eq_int_type', 'std::char_traits::eq')
def f_eqint(I, a, f, node):
    return eq(L.val(I, a[0]), L.val(I, a[1]))


@reg('std::char_traits::not_eof')
def f_noteof(I, a, f, node):
    x = L.val(I, a[0])
    return const(0, 32) if I.decide(eq(x, const(-1, 32))) else x
