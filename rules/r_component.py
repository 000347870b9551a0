"""Components, configuration entries, counters; action points and breakpoints."""
from rules.util import *
import lib

N = 'mpact/sim/generic/'
G = 'mpact::sim::generic::'
U = 'verif_unit::'
PB = 'mpact::sim::proto::'
SRC = ['units/component.cc'] + [N + x + '.cc' for x in ('component', 'action_point_manager_base', 'breakpoint_manager')]

# type in C++, name of the proto field
KINDS = [('bool', 'bool', 1), ('long', 'sint64', 64), ('unsigned long', 'uint64', 64), ('double', 'double', 64), ('std::string', 'string', 0)]


def tname(c, cls, t):
    """the spelling of the instantiation in this program"""
    if t == 'std::string':
        t = 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>'
    n = '%s<%s>' % (cls if cls.startswith('verif_unit') else G + cls, t)
    if n not in c.p.records:
        raise AnchorMissing(n)
    return n


def sval(c, t, w, tag):
    return c.string(tag) if t == 'std::string' else c.sym(tag, w)


def eqv(c, a, b, oid, msg):
    a, b = c.val(a), c.val(b)
    if isinstance(a, Ptr):
        a = c.val(a.t)
    if isinstance(b, StrV) or isinstance(a, StrV):
        return c.check(lib.keq(c.I, a, b), oid, '%s: %r, required %r' % (msg, a, b))
    return c.eq(a, b, oid, msg)


def zero(c, t, w):
    return StrV('') if t == 'std::string' else const(0, w)


def code(r):
    return r.st.code if isinstance(r, StatusOrV) else r.code


def run_component(s):
    def entry(c, e, name, fld, val, oid, what):
        """the value entry e carries name and val in fld"""
        c.check(c.call(e, 'has_name'), oid + '-has-name', what + ': the entry has a name')
        eqv(c, c.call(e, 'name'), StrV(name), oid + '-name', what + ': name of the entry')
        for _, f, _ in KINDS + [(0, 'physical', 0)]:
            has = c.call(e, 'has_%s_value' % f)
            c.eq(has, f == fld, oid + '-field', what + ': %s field is set' % f)
        if fld in [f for _, f, _ in KINDS]:
            eqv(c, c.call(e, fld + '_value'), val, oid + '-value', what + ': value of the entry')

    def config(t, fld, w):
        def f(c):
            k = tname(c, 'Config', t)
            v = tname(c, 'verif_unit::Values', t)
            init = c.choose(False, True)
            x0, x1, x2 = [sval(c, t, w, 'v%d' % i) for i in range(3)]
            cfg = c.new(k, 'cfg', x0) if init else c.new(k, 'cfg')
            cur = x0 if init else zero(c, t, w)
            eqv(c, c.call(cfg, 'name'), StrV('cfg'), 'name', 'name of the configuration entry')
            c.check(lnot(c.val(c.call(cfg, 'HasConfigValue'))), 'not-set', 'a new configuration entry has not been set')
            eqv(c, c.call(cfg, 'GetValue'), cur, 'initial', 'initial value (%s)' % t)
            seen = []

            def cb(tag):
                def g(I, args):
                    seen.append((tag, c.val(c.call(cfg, 'GetValue'))))
                    return None
                return c.fn(g)
            ncb = c.choose(0, 2)
            for i in range(ncb):
                c.static(v, 'Watch', cfg, cb(i))
            was = False
            h = ''
            for i, x in enumerate((x1, x2)):
                del seen[:]
                op = c.choose('SetValue', 'SetConfigValue', 'Import', 'wrong', 'importname', 'importtype', 'importnull', 'exportnull')
                h += ' ' + op
                done = op in ('SetValue', 'SetConfigValue', 'Import')
                if op == 'SetValue':
                    c.call(cfg, 'SetValue', x)
                elif op == 'SetConfigValue':
                    c.check(ok(c, c.static(v, 'Set', cfg, x)), 'set-ok', 'a value of the right type can be set')
                elif op == 'wrong':
                    o = c.choose(*[q for q in KINDS if q[0] != t])
                    r = c.static(tname(c, 'verif_unit::Values', o[0]), 'Set', cfg, sval(c, o[0], o[2], 'other'))
                    c.check(lnot(ok(c, r)), 'type-error', 'setting a %s to a %s is an error' % (t, o[0]))
                elif op.startswith('import') or op == 'Import':
                    e = c.new(PB + 'ComponentValueEntry')
                    nm = 'cfg' if op in ('Import', 'importtype') else c.choose(None, 'cfh', '')
                    if nm is not None:
                        c.call(e, 'set_name', nm)
                    if op == 'importtype':
                        o = c.choose(None, *[q for q in KINDS if q[0] != t])
                        if o:
                            c.call(e, 'set_%s_value' % o[1], sval(c, o[0], o[2], 'other'))
                    else:
                        c.call(e, 'set_%s_value' % fld, x)
                    r = ok(c, c.call(cfg, 'Import', Ptr(e) if op != 'importnull' else None))
                    c.check(r if done else lnot(r), 'import-status', '%s of a %s %s' % (op, t, 'succeeds' if done else 'is an error'))
                    c.delete(e)
                else:
                    c.check(lnot(ok(c, c.call(cfg, 'Export', None))), 'export-null', 'export to nullptr is an error')
                if done:
                    cur, was = x, True
                c.eq(c.call(cfg, 'HasConfigValue'), was, 'has-value', 'after%s: the entry has been set' % h)
                eqv(c, c.call(cfg, 'GetValue'), cur, 'value', 'after%s: value (%s)' % (h, t))
                c.check([q[0] for q in seen] == (list(range(ncb)) if done else []), 'callbacks', 'after%s: callbacks made: %s' % (h, [q[0] for q in seen]))
                for q in seen:
                    eqv(c, q[1], cur, 'callback-value', 'after%s: the callback sees the value written' % h)
            for o in KINDS:
                c.eq(c.static(tname(c, 'verif_unit::Values', o[0]), 'Is', cfg), o[0] == t, 'variant-type', 'the variant of a %s holds a %s' % (t, o[0]))
            eqv(c, c.static(v, 'Get', cfg), cur, 'variant', 'after%s: variant value' % h)
            e = c.new(PB + 'ComponentValueEntry')
            c.check(ok(c, c.call(cfg, 'Export', Ptr(e))), 'export-ok', 'export succeeds')
            entry(c, e, 'cfg', fld, cur, 'exported', 'after%s' % h)
            other = c.new(k, 'cfg')
            c.check(ok(c, c.call(other, 'Import', Ptr(e))), 'reimport-ok', 'an exported entry can be imported')
            eqv(c, c.call(other, 'GetValue'), cur, 'round-trip', 'after%s: export and import keep the value' % h)
            for o in (e, cfg, other):
                c.delete(o)
            c.check(not c.leaks(), 'leak', 'nothing is left')
        return f

    def counter(t, fld, w):
        def f(c):
            k = tname(c, 'SimpleCounter', t)
            v = tname(c, 'verif_unit::Counts', t)
            x0, x1, x2 = [c.sym('n%d' % i, w) for i in range(3)]
            how = c.choose('name', 'value', 'about', 'initialize')
            about = ''
            if how == 'name':
                n, cur = c.new(k, 'cnt'), const(0, w)
            elif how == 'value':
                n, cur = c.new(k, 'cnt', x0), x0
            elif how == 'about':
                n, cur, about = c.new(k, 'cnt', 'what it counts', x0), x0, 'what it counts'
            else:
                n, cur = c.new(k), x0
                c.check(lnot(c.val(c.call(n, 'IsInitialized'))), 'uninitialized', 'a default constructed counter is not initialized')
                c.call(n, 'Initialize', 'cnt', x0)
            c.check(c.val(c.call(n, 'IsInitialized')), 'initialized', 'the counter is initialized')
            c.check(c.val(c.call(n, 'IsEnabled')), 'enabled', 'the counter is enabled')
            eqv(c, c.call(n, 'GetName'), StrV('cnt'), 'name', 'counter name')
            seen = []

            def setv(tag):
                def g(I, this, args):
                    seen.append((tag, c.val(args[0])))
                    return None
                return c.host(tname(c, 'CounterValueSetInterface', t), 'listener%d' % tag, {'SetValue': g})
            nl = c.choose(0, 2)
            for i in range(nl):
                c.call(n, 'AddListener', setv(i))
            h, on = '', True
            plus = lambda a, b: fop(c, '+', t, a, b)
            minus = lambda a, b: fop(c, '-', t, a, b)
            for x in (x1, x2):
                del seen[:]
                if c.choose(False, True):
                    on = not on
                    c.call(n, 'SetIsEnabled', on)
                    h += ' enable' if on else ' disable'
                    c.eq(c.call(n, 'IsEnabled'), on, 'is-enabled', 'after%s: enabled' % h)
                    eqv(c, c.call(n, 'GetValue'), cur, 'switch-value', 'after%s: value' % h)
                    c.check(not seen, 'switch-quiet', 'after%s: nobody is notified' % h)
                ops = ['SetValue', 'SetAbout']
                if t != 'double' and (t != 'long' or x is x1):
                    ops += ['Increment', 'Decrement']
                op = c.choose(*ops)
                h += ' ' + op
                if op == 'SetAbout':
                    about = c.choose('', 'other text')
                    c.call(n, 'SetAbout', about)
                    done = False
                else:
                    done = on
                    if op == 'SetValue':
                        new = x
                    else:
                        if t == 'long':  # results in range only
                            x = c.sym('small', 64)
                            c.assume(ult(x, const(1000, 64)))
                            if on and (isinstance(cur, T) and not isc(cur)):
                                c.assume(ult(cur, const(1000, 64)))
                        new = plus(cur, x) if op == 'Increment' else minus(cur, x)
                    c.call(n, op, x)
                    if done:
                        cur = new
                eqv(c, c.call(n, 'GetValue'), cur, 'value', 'after%s: value of a %s counter' % (h, t))
                c.check([q[0] for q in seen] == (list(range(nl)) if done else []), 'notified', 'after%s: listeners notified: %s' % (h, [q[0] for q in seen]))
                for q in seen:
                    eqv(c, q[1], cur, 'notified-value', 'after%s: the listener is given the new value' % h)
            for o in KINDS[1:4]:
                c.eq(c.static(tname(c, 'verif_unit::Counts', o[0]), 'Is', n), o[0] == t, 'variant-type', 'the variant of a %s counter holds a %s' % (t, o[0]))
            eqv(c, c.static(v, 'Get', n), cur, 'variant', 'after%s: variant value' % h)
            e = c.new(PB + 'ComponentValueEntry')
            c.check(ok(c, c.call(n, 'Export', Ptr(e))), 'export-ok', 'export succeeds')
            entry(c, e, 'cnt', fld, cur, 'exported', 'after%s' % h)
            c.eq(c.call(e, 'has_about'), about != '', 'exported-has-about', 'after%s: the about string is exported' % h)
            eqv(c, c.call(e, 'about'), StrV(about), 'exported-about', 'after%s: about string' % h)
            eqv(c, c.call(n, 'GetAbout'), StrV(about), 'about', 'after%s: about string' % h)
            c.check(lnot(ok(c, c.call(n, 'Export', None))), 'export-null', 'export to nullptr is an error')
            c.delete(e)
            c.delete(n)
            c.check(not c.leaks(), 'leak', 'nothing is left')
        return f

    def function(t, fld, w):
        def f(c):
            v = tname(c, 'verif_unit::Counts', t)
            calls = []
            x0 = c.sym('n0', w)

            def proc(tag):
                def g(I, args):
                    i = len(calls)
                    calls.append((tag, c.val(args[0])))
                    p = c.val(args[1])
                    keep = c.choose(True, False)
                    calls[-1] += (keep,)
                    put(c, p, c.sym('out%d' % i, w))
                    return boolc(keep)
                return c.fn(g)
            n = obj(c, c.static(v, 'Make', 'cnt', x0, proc(0)))
            seen = []
            lst = c.host(tname(c, 'CounterValueSetInterface', t), 'listener', {'SetValue': lambda I, this, args: seen.append(c.val(args[0]))})
            c.call(n, 'AddListener', lst)
            cur, tag, on, h = x0, 0, True, ''
            for i in range(3):
                op = c.choose('set', 'toggle', 'fn') if i == 1 else 'set'
                if op == 'toggle':
                    on = not on
                    c.call(n, 'SetIsEnabled', on)
                    h += ' disable'
                    continue
                if op == 'fn':
                    tag = 1
                    c.static(v, 'SetFn', n, proc(1))
                    h += ' new function'
                    continue
                x = c.sym('in%d' % i, 64)
                m = len(calls)
                del seen[:]
                c.call(n, 'SetValue', x)
                h += ' set'
                c.check(len(calls) == m + (1 if on else 0), 'calls', 'after%s: the function is called %d times' % (h, len(calls) - m))
                upd = False
                if len(calls) > m:
                    c.check(calls[m][0] == tag, 'function', 'after%s: the current function is called' % h)
                    eqv(c, calls[m][1], x, 'input', 'after%s: input of the function' % h)
                    upd = calls[m][2]
                    h += ' (%s)' % ('accepted' if upd else 'ignored')
                    if upd:
                        cur = c.sym('out%d' % m, w)
                eqv(c, c.call(n, 'GetValue'), cur, 'value', 'after%s: value' % h)
                c.check(len(seen) == (1 if upd else 0), 'notified', 'after%s: listener notified %d times' % (h, len(seen)))
                for q in seen:
                    eqv(c, q, cur, 'notified-value', 'after%s: the listener is given the new value' % h)
            c.delete(n)
            c.check(not c.leaks(), 'leak', 'nothing is left')
        return f

    def chain(c):
        """counters that listen to each other"""
        a = c.new(tname(c, 'SimpleCounter', 'unsigned long'), 'a')
        b = c.new(tname(c, 'SimpleCounter', 'unsigned long'), 'b')
        d = c.new(tname(c, 'SimpleCounter', 'unsigned long'), 'd')
        c.call(a, 'AddListener', b)
        c.call(b, 'AddListener', d)
        off = c.choose(None, b, d)
        if off is not None:
            c.call(off, 'SetIsEnabled', False)
        x, y = c.sym('x', 64), c.sym('y', 64)
        c.call(a, 'SetValue', x)
        c.call(a, 'Increment', y)
        z = add(x, y)
        c.eq(c.call(a, 'GetValue'), z, 'first', 'counter')
        c.eq(c.call(b, 'GetValue'), const(0, 64) if off is b else z, 'second', 'listening counter')
        c.eq(c.call(d, 'GetValue'), z if off is None else const(0, 64), 'third', 'counter listening to a listener')

    COMP = G + 'Component'
    UCFG = ('unsigned long', 'bool')

    def registry(c):
        p = c.new(COMP, 'top', types=None)
        eqv(c, c.call(p, 'component_name'), StrV('top'), 'name', 'component name')
        c.same(c.call(p, 'parent'), None, 'no-parent', 'a top level component has no parent')
        model = {'child': {}, 'counter': {}, 'config': {}}
        get = {'child': 'GetChildComponent', 'counter': 'GetCounter', 'config': 'GetConfig'}
        h = ''
        keep = []
        for i in range(3):
            kind = c.choose('child', 'counter', 'config', 'ctor', 'remove')
            nm = c.choose('b', 'a')
            h += ' %s %s' % (kind, nm)
            if kind == 'remove':
                r = c.call(p, 'RemoveChildComponent', nm)
                want = nm in model['child']
                model['child'].pop(nm, None)
            elif kind == 'ctor':
                o = c.new(COMP, nm, p)
                want = None
                if nm not in model['child']:
                    model['child'][nm] = o
                    c.same(c.call(o, 'parent'), p, 'parent', 'after%s: parent of the child' % h)
                else:
                    c.same(c.call(o, 'parent'), None, 'not-parent', 'after%s: a refused child has no parent' % h)
            elif kind == 'child':
                o = c.new(COMP, nm)
                r = c.call(p, 'AddChildComponent', o)
                want = nm not in model['child']
                if want:
                    model['child'][nm] = o
                c.same(c.call(o, 'parent'), p if want else None, 'parent', 'after%s: parent of the child' % h)
            elif kind == 'counter':
                un = c.choose(False, True)
                o = c.new(tname(c, 'SimpleCounter', 'unsigned long'), nm) if not un else c.new(tname(c, 'SimpleCounter', 'unsigned long'))
                h += ' (not initialized)' if un else ''
                r = c.call(p, 'AddCounter', o)
                want = not un and nm not in model['counter']
                if want:
                    model['counter'][nm] = o
            else:
                o = c.new(tname(c, 'Config', c.choose('unsigned long', 'bool')), nm)
                r = c.call(p, 'AddConfig', o)
                want = nm not in model['config']
                if want:
                    model['config'][nm] = o
            if want is not None:
                c.check(ok(c, r) if want else lnot(ok(c, r)), 'status', 'after%s: the last step %s' % (h, 'succeeds' if want else 'is an error'))
            for kd, g in get.items():
                for q in ('a', 'b', 'ab', ''):
                    c.same(c.call(p, g, q), model[kd].get(q), 'lookup', 'after%s: %s %r' % (h, kd, q))

    def nulls(c):
        p = c.new(COMP, 'top')
        c.check(lnot(ok(c, c.call(p, 'AddCounter', None))), 'counter', 'a null counter is refused')
        c.check(lnot(ok(c, c.call(p, 'AddConfig', None))), 'config', 'a null configuration entry is refused')
        c.check(lnot(ok(c, c.call(p, 'Export', None))), 'export', 'export to nullptr is an error')
        c.same(c.call(c.new(COMP, 'x', None, types=None), 'parent'), None, 'parent', 'a component with a null parent has none')

    def tree(c):
        """a component tree with configuration entries and counters"""
        t = {}
        t['top'] = c.new(COMP, 'top')
        for nm, par in c.choose((('z', 'top'), ('m', 'top'), ('y', 'z')), (('m', 'top'), ('z', 'top'), ('y', 'z'))):
            t[nm] = c.new(COMP, nm, t[par])
        cfg, cnt = {}, {}
        for nm, k in (('q', 'unsigned long'), ('f', 'bool'), ('r', 'long')):
            cfg[nm] = (c.new(tname(c, 'Config', k), nm), k)
        for comp, nm in (('top', 'q'), ('top', 'f'), ('y', 'r')):
            c.call(t[comp], 'AddConfig', cfg[nm][0])
        for nm, comp in (('n', 'z'), ('k', 'z'), ('l', 'top')):
            cnt[nm] = c.new(tname(c, 'SimpleCounter', 'unsigned long'), nm, c.sym('count_' + nm, 64))
            c.call(t[comp], 'AddCounter', cnt[nm])
        return t, cfg, cnt

    W = {'bool': 1}
    FLD = dict((k, f) for k, f, _ in KINDS)

    def export(c):
        t, cfg, cnt = tree(c)
        for nm, (o, k) in cfg.items():
            c.call(o, 'SetValue', c.sym('cfg_' + nm, W.get(k, 64)))
        d = c.new(PB + 'ComponentData')
        c.check(ok(c, c.call(t['top'], 'Export', Ptr(d))), 'ok', 'export succeeds')
        shape = {'top': (('f', 'q'), ('l',), ('m', 'z')), 'm': ((), (), ()), 'z': ((), ('k', 'n'), ('y',)), 'y': (('r',), (), ())}

        def rec(d, nm):
            eqv(c, c.call(d, 'name'), StrV(nm), 'component-name', 'name of the data of component %s' % nm)
            c.check(c.val(c.call(d, 'has_name')), 'component-has-name', 'data of component %s has a name' % nm)
            C, S, K = shape[nm]
            for what, lst in (('configuration', C), ('statistics', S), ('component_data', K)):
                if not c.eq(c.call(d, what + '_size'), len(lst), what + '-count', '%s entries of %s' % (what, nm)):
                    return
                for i, x in enumerate(lst):
                    e = c.val(c.call(d, what, i))
                    e = e.t if isinstance(e, Ptr) else e
                    if what == 'component_data':
                        rec(e, x)
                    elif what == 'configuration':
                        entry(c, e, x, FLD[cfg[x][1]], c.sym('cfg_' + x, W.get(cfg[x][1], 64)), 'configuration', 'entry %d of %s' % (i, nm))
                    else:
                        entry(c, e, x, 'uint64', c.sym('count_' + x, 64), 'statistics', 'entry %d of %s' % (i, nm))
        rec(d, 'top')
        # and back
        t2, cfg2, cnt2 = tree(c)
        c.check(ok(c, c.call(t2['top'], 'Import', d)), 'import-ok', 'exported data can be imported')
        for nm, (o, k) in cfg2.items():
            eqv(c, c.call(o, 'GetValue'), c.sym('cfg_' + nm, W.get(k, 64)), 'round-trip', 'export and import keep %s' % nm)
            c.check(c.val(c.call(o, 'HasConfigValue')), 'round-trip-set', '%s is set by the import' % nm)
        for nm, o in cnt2.items():
            eqv(c, c.call(o, 'GetValue'), c.sym('count_' + nm, 64), 'counters-kept', 'an import leaves counter %s alone' % nm)

    def imports(c):
        t, cfg, cnt = tree(c)
        order = []
        for nm, (o, k) in cfg.items():
            c.static(tname(c, 'verif_unit::Values', k), 'Watch', o, c.fn(lambda I, a, nm=nm: order.append(nm)))
        d = c.new(PB + 'ComponentData')
        topname = c.choose('top', 'to', None)
        if topname is not None:
            c.call(d, 'set_name', topname)
        want, err, h = {}, topname != 'top', 'data of %s:' % topname
        started = not err
        for i in range(2):
            e = c.choose('q', 'f', 'unknown', 'noname', 'badtype', None)
            if e is None:
                continue
            h += ' ' + e
            x = obj(c, c.call(d, 'add_configuration'))
            nm = {'q': 'q', 'f': 'f', 'unknown': 'fq', 'badtype': 'f', 'noname': None}[e]
            if nm:
                c.call(x, 'set_name', nm)
            v = c.sym('imp%d' % i, 1 if e == 'f' else 64)
            c.call(x, 'set_bool_value' if e == 'f' else 'set_uint64_value', v)
            if e in ('noname', 'badtype'):
                err = True
            if not err and e in cfg:
                want[e] = v
        selferr = err
        z = obj(c, c.call(d, 'add_component_data'))
        zn = c.choose('z', 'm', 'w', None)
        h += ' / component %s' % zn
        if zn is not None:
            c.call(z, 'set_name', zn)
        else:
            err = True
        y = obj(c, c.call(z, 'add_component_data'))
        c.call(y, 'set_name', 'y')
        x = obj(c, c.call(y, 'add_configuration'))
        c.call(x, 'set_name', 'r')
        v = c.sym('impr', 64)
        bad = c.choose(False, True)
        c.call(x, 'set_uint64_value' if bad else 'set_sint64_value', v)
        h += ' / y: r' + (' of wrong type' if bad else '')
        if zn == 'z' and bad:
            err = True
        if zn == 'z' and not bad and not selferr:
            want['r'] = v
        r = ok(c, c.call(t['top'], 'Import', d))
        c.check(lnot(r) if err else r, 'status', '%s: import %s' % (h, 'is an error' if err else 'succeeds'))
        for nm, (o, k) in cfg.items():
            w = W.get(k, 64)
            eqv(c, c.call(o, 'GetValue'), want.get(nm, const(0, w)), 'value', '%s: %s' % (h, nm))
            c.eq(c.call(o, 'HasConfigValue'), nm in want, 'set', '%s: %s is set' % (h, nm))
        if 'r' in order:
            c.check(order[-1] == 'r', 'order', '%s: the configuration of a component is imported before its children' % h)
        for nm, o in cnt.items():
            eqv(c, c.call(o, 'GetValue'), c.sym('count_' + nm, 64), 'counters-kept', '%s: an import leaves counter %s alone' % (h, nm))

    def done(c):
        t, cfg, cnt = tree(c)
        log = []
        for nm in ('top', 'z', 'y', 'm', 'z'):
            c.static(U + 'Hooks', 'Done', t[nm], c.fn(lambda I, a, nm=nm: log.append(nm)))
        c.call(t['top'], 'ImportDone')
        c.check(sorted(log) == ['m', 'top', 'y', 'z', 'z'], 'once', 'every import done callback is called once: %s' % log)
        pos = [max(i for i, x in enumerate(log) if x == nm) if nm in log else -1 for nm in ('y', 'z', 'm', 'top')]
        first = [log.index(nm) if nm in log else 99 for nm in ('y', 'z', 'm', 'top')]
        c.check(pos[0] < first[1] and pos[1] < first[3] and pos[2] < first[3], 'children-first', 'children are told before their parents: %s' % log)

    def physical(c):
        k = G + 'Config<%sPhysicalValue>' % G
        pv = c.construct(G + 'PhysicalValue', c.sym('v', 64), c.sym('pre', 32), c.sym('unit', 32), types=None)
        a = c.new(k, 'cfg', pv)
        e = c.new(PB + 'ComponentValueEntry')
        c.check(ok(c, c.call(a, 'Export', Ptr(e))), 'export-ok', 'export succeeds')
        entry(c, e, 'cfg', 'physical', None, 'exported', 'physical value')
        b = c.new(k, 'cfg', c.construct(G + 'PhysicalValue', c.sym('o', 64), 0, 0, types=None))
        wrong = c.choose(False, True)
        if wrong:
            c.call(e, 'set_double_value', c.sym('d', 64))
        r = ok(c, c.call(b, 'Import', Ptr(e)))
        c.check(lnot(r) if wrong else r, 'import-status', 'import of a physical value')
        c.eq(c.call(b, 'HasConfigValue'), not wrong, 'set', 'the value is set')
        v = c.val(c.call(b, 'GetValue'))
        fs = [c.val(x) for x in v.fields_list()] if hasattr(v, 'fields_list') else None
        e2 = c.new(PB + 'ComponentValueEntry')
        c.call(b, 'Export', Ptr(e2))
        p = obj(c, c.call(e2, 'physical_value'))
        w = ['o', 0, 0] if wrong else ['v', 'pre', 'unit']
        for g, x, n in zip(('value', 'si_prefix', 'si_unit'), w, (64, 32, 32)):
            c.eq(c.call(p, g), c.sym(x, n) if x else const(0, n), 'round-trip', 'export and import keep the %s of a physical value' % g)

    for t, fld, w in KINDS:
        s.explore('config-' + fld, config(t, fld, w), limit=20000)
    for t, fld, w in KINDS[1:4]:
        s.explore('counter-' + fld, counter(t, fld, w), limit=20000)
        s.explore('function-counter-' + fld, function(t, fld, w))
    s.explore('chain', chain)
    s.explore('registry', registry, limit=20000)
    s.explore('nulls', nulls)
    s.explore('export', export)
    s.explore('import', imports, limit=20000)
    s.explore('import-done', done)
    s.explore('physical', physical)


def fop(c, o, t, a, b):
    return add(a, b) if o == '+' else sub(a, b)


def put(c, p, v):
    p.t.set(v)


def run_action(s):
    AP = G + 'ActionPointManagerBase'

    class Mem(object):
        """program memory: which addresses hold a breakpoint instruction"""
        def __init__(self, c):
            self.c, self.bp, self.fail = c, {}, False
            self.h = c.host(G + 'ActionPointMemoryInterface', 'memory', {
                'WriteOriginalInstruction': lambda I, this, a: self.write(a, False),
                'WriteBreakpointInstruction': lambda I, this, a: self.write(a, True)})

        def write(self, a, on):
            a = self.c.val(a[0])
            if not isc(a):
                self.c.s.undec.append(('memory', 'unknown address'))
                raise Infeasible()
            if self.fail:
                return StatusV(13, StrV('memory'))
            self.bp[cval(a)] = on
            return StatusV(0, StrV())

    A, B, Z = 0x1000, 0xfffffffffffffffc, 0x1004

    def cst(c, v):
        v = c.val(v)
        return v if isinstance(v, int) else cval(v)

    def actions(n, small):
        def f(c):
            m = Mem(c)
            mgr = c.new(AP, m.h)
            acts = {}      # (address, id) -> [tag, enabled]
            used = {}
            log = []
            h = ''
            tags = [0]

            def agree():
                for a in (A, B, Z):
                    en = [k for k, e in acts.items() if k[0] == a and e[1]]
                    c.eq(c.call(mgr, 'IsActionPointActive', a), bool(en), 'active', 'after%s: action point 0x%x is active' % (h, a))
                    c.check(bool(m.bp.get(a)) == bool(en), 'instruction', 'after%s: memory at 0x%x holds %s' % (h, a, 'a breakpoint' if m.bp.get(a) else 'the original instruction'))
                    if [k for k in acts if k[0] == a]:
                        c.check(c.val(c.call(mgr, 'HasActionPoint', a)), 'has', 'after%s: 0x%x is an action point' % (h, a))
                    elif a not in used:
                        c.check(lnot(c.val(c.call(mgr, 'HasActionPoint', a))), 'has-not', 'after%s: 0x%x is not an action point' % (h, a))
                    for i in used.get(a, []) + [77]:
                        c.eq(c.call(mgr, 'IsActionEnabled', a, i), bool(acts.get((a, i), (0, False))[1]), 'enabled', 'after%s: action %d at 0x%x is enabled' % (h, i, a))
                    del log[:]
                    c.call(mgr, 'PerformActions', a)
                    want = [(acts[k][0], a, k[1]) for k in sorted(en, key=lambda k: used[a].index(k[1]))]
                    c.check(log == want, 'performed', 'after%s: actions performed at 0x%x are %s, required %s' % (h, a, log, want))

            for step in range(n):
                op = c.choose('set', 'set', 'clear', 'enable', 'disable', 'all') if small else c.choose('set', 'clear', 'disable', 'enable', 'all')
                a = c.choose(A, B) if (step < 2 and not small) else A
                m.fail = c.choose(False, True) if not small or step == n - 1 else False
                if op == 'set':
                    tag = tags[0]
                    tags[0] += 1
                    h += ' set 0x%x' % a
                    if m.fail:
                        h += ' (memory fails)'
                    was = any(k[0] == a and e[1] for k, e in acts.items())

                    def act(I, args, tag=tag):
                        log.append((tag, cst(c, args[0]), cst(c, args[1])))
                        return None
                    before = dict(m.bp)
                    r = c.val(c.static(U + 'Halt', 'Set', mgr, a, c.fn(act)))
                    good = c.decide(ok(c, r))
                    if not m.fail:
                        c.check(good, 'set-ok', 'after%s: setting succeeds' % h)
                    elif not was:
                        c.check(not good, 'set-fails', 'after%s: setting reports the failed memory write' % h)
                    if good:
                        i = cst(c, r.v)
                        c.check(i not in used.get(a, []), 'id', 'after%s: id %d was used at 0x%x before' % (h, i, a))
                        used.setdefault(a, []).append(i)
                        acts[(a, i)] = [tag, True]
                    m.fail = False
                elif op == 'all':
                    m.fail = False
                    h += ' clear all'
                    c.call(mgr, 'ClearAllActionPoints')
                    acts.clear()
                    used.clear()
                else:
                    ids = used.get(a, [])
                    i = c.choose(*(ids + [55]))
                    h += ' %s %d at 0x%x%s' % (op, i, a, ' (memory fails)' if m.fail else '')
                    failing = m.fail
                    r = c.decide(ok(c, c.call(mgr, {'clear': 'ClearAction', 'enable': 'EnableAction', 'disable': 'DisableAction'}[op], a, i)))
                    known = (a, i) in acts
                    if not known:
                        c.check(not r, 'unknown', 'after%s: an unknown action is an error' % h)
                    elif not failing:
                        c.check(r, 'ok', 'after%s: the last step succeeds' % h)
                    else:
                        on = [k for k, e in acts.items() if k[0] == a and e[1]]
                        needs = (op == 'enable' and not on) or (op != 'enable' and on == [(a, i)])
                        if needs:
                            c.check(not r, 'fails', 'after%s: the failed memory write is reported' % h)
                    m.fail = False
                    if r and known:
                        if op == 'clear':
                            del acts[(a, i)]
                        else:
                            acts[(a, i)][1] = op == 'enable'
                agree()
            c.delete(mgr)
            c.check(not c.leaks(), 'leak', 'after%s: everything is released with the manager' % h)
        return f

    def breakpoints(c):
        m = Mem(c)
        mgr = c.new(AP, m.h)
        halts = []
        bm = obj(c, c.static(U + 'Halt', 'Make', mgr, c.fn(lambda I, a: halts.append(1))))
        c.same(c.call(bm, 'action_point_manager'), mgr, 'manager', 'action point manager of the breakpoint manager')
        bps = {}
        h = ''
        other = c.choose(False, True)
        log = []
        if other:
            c.static(U + 'Halt', 'Set', mgr, A, c.fn(lambda I, a: log.append(1)))
            h += ' action at 0x%x' % A
        last = [None]

        def agree():
            for a in (A, B, Z):
                c.eq(c.call(bm, 'HasBreakpoint', a), a in bps, 'has', 'after%s: breakpoint at 0x%x' % (h, a))
                c.eq(c.call(bm, 'IsBreakpoint', a), bool(bps.get(a)), 'is', 'after%s: active breakpoint at 0x%x' % (h, a))
                want = bool(bps.get(a)) or (other and a == A)
                c.check(bool(m.bp.get(a)) == want, 'instruction', 'after%s: memory at 0x%x holds %s' % (h, a, 'a breakpoint' if m.bp.get(a) else 'the original instruction'))
                del halts[:], log[:]
                c.call(mgr, 'PerformActions', a)
                if bps.get(a):
                    last[0] = a
                c.check(len(halts) == (1 if bps.get(a) else 0), 'halt', 'after%s: reaching 0x%x requests %d halts' % (h, a, len(halts)))
                c.check(len(log) == (1 if other and a == A else 0), 'others', 'after%s: other actions at 0x%x' % (h, a))
                if last[0] is not None:
                    c.eq(c.call(bm, 'last_breakpoint_address'), last[0], 'last', 'after%s: last breakpoint after reaching 0x%x' % (h, a))
        for step in range(4):
            op = c.choose('Set', 'Clear', 'Enable', 'Disable') if step < 3 else c.choose('Set', 'Clear', 'all')
            a = c.choose(A, B) if step != 1 else A
            if op == 'all':
                h += ' clear all'
                c.call(bm, 'ClearAllBreakpoints')
                bps.clear()
            else:
                h += ' %s 0x%x' % (op.lower(), a)
                r = ok(c, c.call(bm, op + 'Breakpoint', a))
                good = (a in bps) != (op == 'Set')
                c.check(r if good else lnot(r), 'status', 'after%s: the last step %s' % (h, 'succeeds' if good else 'is an error'))
                if good:
                    if op == 'Clear':
                        del bps[a]
                    else:
                        bps[a] = op != 'Disable'
            agree()
        c.delete(mgr)
        c.delete(bm)
        c.check(not c.leaks(), 'leak', 'after%s: everything is released' % h)

    def failing(c):
        """the memory refuses writes: the breakpoint is not there, or stays as it was"""
        m = Mem(c)
        mgr = c.new(AP, m.h)
        halts = []
        bm = obj(c, c.static(U + 'Halt', 'Make', mgr, c.fn(lambda I, a: halts.append(1))))
        pre = c.choose('none', 'set', 'disabled')
        if pre != 'none':
            c.call(bm, 'SetBreakpoint', A)
        if pre == 'disabled':
            c.call(bm, 'DisableBreakpoint', A)
        op = c.choose({'none': ['Set'], 'set': ['Clear', 'Disable'], 'disabled': ['Enable']}[pre][0], {'none': ['Set'], 'set': ['Clear', 'Disable'], 'disabled': ['Enable']}[pre][-1])
        m.fail = True
        r = ok(c, c.call(bm, op + 'Breakpoint', A))
        m.fail = False
        what = '%s with failing memory (before: %s)' % (op, pre)
        c.check(lnot(r), 'status', what + ' is an error')
        c.eq(c.call(bm, 'HasBreakpoint', A), pre != 'none', 'has', what + ': breakpoint')
        c.eq(c.call(bm, 'IsBreakpoint', A), pre == 'set', 'is', what + ': active breakpoint')
        c.call(mgr, 'PerformActions', A)
        c.check(len(halts) == (1 if pre == 'set' else 0), 'halt', what + ': halts requested')
        c.check(ok(c, c.call(bm, op + 'Breakpoint', A)), 'retry', what + ': works when repeated')
        c.check(bool(m.bp.get(A)) == (op in ('Set', 'Enable')), 'retried', what + ' and repeated: memory contents')
        c.delete(mgr)
        c.delete(bm)
        c.check(not c.leaks(), 'leak', what + ': everything is released')

    s.explore('actions', actions(3, False), limit=30000)
    s.explore('one-address', actions(4, True), limit=30000)
    s.explore('breakpoints', breakpoints, limit=30000)
    s.explore('failing-memory', failing)


PROPS = {
    'P35': dict(sources=SRC, run=run_component, rule='values, statuses, callbacks and exported entries of every operation over enumerated histories with symbolic values'),
    'P36': dict(sources=SRC, run=run_action, rule='memory contents, actions performed, statuses and heap ownership after every operation history of bounded length, with failing memory writes, against a set model'),
}
