"""Analysis roots ("client protocols"), obligations, verdicts and evidence."""
import json
import multiprocessing as mp
import os
import pickle
import queue
import sys
import time
import traceback
from terms import *
from values import *
from paths import find_model
from interp import Interp, Frame
import lib
import libcalls


class AnchorMissing(Exception):
    pass


class Coverage(object):
    def __init__(self):
        self.fns = {}
        self.lines = set()
        self.branches = set()

    def fn(self, f):
        self.fns[f['id']] = f

    def line(self, f, l):
        if f is not None:
            self.lines.add((f['file'], l))

    def branch(self, f, l):
        if f is not None:
            self.branches.add((f['file'], l))


class Client(object):
    """what an analysis root may do: only the public interface of the code"""

    def __init__(self, sess, I, root):
        self.s, self.I, self.root = sess, I, root
        self.p = I.p

    # ---- values
    def sym(self, name, w):
        return sym(name, w)

    def string(self, name):
        return StrV((('s', name),))

    def chars(self, *cs):
        return StrV([('b', c) for c in cs])

    def host(self, cls, tag, methods=None, fields=None):
        cls = self.cls(cls)
        r = Rec(cls)
        r.opaque, r.tag, r.host = True, tag, methods or {}
        r.built = True
        return r

    def fn(self, pyf):
        return FnV('host', pyf)

    def event(self, *e):
        self.I.events.append(e)

    def choose(self, *alts):
        return alts[self.I.choose(len(alts))]

    def decide(self, c):
        return self.I.decide(c)

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        if not self.I.path.assume(c):
            raise Infeasible()

    # ---- program entities
    def cls(self, name):
        if name in self.p.records:
            return name
        c = [n for n in self.p.records if n.endswith('::' + name)]
        if len(c) == 1:
            return c[0]
        raise AnchorMissing('class %s' % name)

    def _select(self, ms, args, types, targs, what, fnname):
        cands = [m for m in ms if len(m['pt']) == len(args)]
        if not cands:
            # defaulted trailing arguments
            cands = [m for m in ms if len(args) < len(m['pt']) <= len(args) + len(m.get('da') or ())]
        if not cands:
            raise AnchorMissing('%s %s with %d arguments' % (what, fnname, len(args)))
        if types:
            c2 = [m for m in cands if all(t is None or (lib.decay(p).unq == t or p.s == t) for p, t in zip(m['pt'], types))]
            if not c2:
                c2 = [m for m in cands if all(self._fits(p, a) for p, a in zip(m['pt'], args))]
                c2 = c2 if len(c2) == 1 else []
            cands = c2
        if targs is not None:
            c2 = []
            for m in cands:
                f = self.p.functions.get(m['id'])
                if f and f.get('ta') and [t.s if not isinstance(t, int) and t is not None else t for t in f['ta']][:len(targs)] == list(targs):
                    c2.append(m)
            cands = c2
        else:
            c2 = [m for m in cands if not (self.p.functions.get(m['id']) or {}).get('ta')]
            cands = c2 or cands
        if len(cands) > 1:
            c2 = [m for m in cands if all(self._fits(p, a) for p, a in zip(m['pt'], args))]
            cands = c2
        if not cands:
            raise AnchorMissing('%s %s: no matching overload' % (what, fnname))
        return cands[0]

    def _fits(self, p, a):
        d = lib.decay(p)
        if isinstance(a, list):
            return d.k == 'rec' and d.plain not in lib.STR
        if isinstance(a, bool):
            return d.k == 'bool'
        if isinstance(a, int):
            return d.k in ('int', 'enum')
        if isinstance(a, T):
            return (d.k == 'bool' and a.w == 1) or (d.k in ('int', 'enum', 'float') and d.w == a.w)
        if a is None:
            return d.k == 'ptr'
        if isinstance(a, str):
            return d.k == 'rec' and d.plain in lib.STR
        if isinstance(a, Rec) and d.k == 'ptr':
            return d.to.k == 'rec' and self.p.derives(a.cls, d.to.name)
        if isinstance(a, Ptr) and d.k == 'ptr':
            if isinstance(a.t, Rec):
                return d.to.k == 'rec' and self.p.derives(a.t.cls, d.to.name)
            return True
        return libcalls.fits(self.I, p, a, None)

    def _arg(self, p, a):
        d = lib.decay(p)
        I = self.I
        if isinstance(a, (bool, int)) and not isinstance(a, T):
            w = I.bits_of(d)
            a = const(int(a), w if w else 64)
        elif a is None and d.k == 'ptr':
            a = FnV('null') if d.to.k == 'func' else null()
        elif a is None and d.k == 'rec':
            a = lib.default(I, d)
        elif isinstance(a, str):
            a = StrV(a)
        elif isinstance(a, list) and d.k == 'rec':
            if d.plain == 'std::initializer_list':
                a = InitListV([self._arg(d.ta[0], x) for x in a], d.ta[0])
            elif d.plain == 'absl::Span':
                arr = Arr([self._arg(d.ta[0], x) for x in a], d.ta[0], I.sizeof(d.ta[0]))
                a = SpanV(Ptr(base=arr, off=0), const(len(a), 64))
            else:
                v = lib.default(I, d)
                v.items = [self._arg(d.ta[0], x) for x in a]
                a = v
        if isinstance(a, Rec) and d.k == 'ptr':
            a = Ptr(a)
        if isinstance(a, Ptr) and d.k == 'rec' and d.plain == 'std::unique_ptr':
            a = UniqueV(a, d.ta[0].k == 'array')
        if p.k == 'ref' and not isinstance(a, Obj) and not lib.isloc(a):
            a = Cell(a)
        if p.k != 'ref' and d.k == 'rec' and isinstance(a, Rec) and d.plain in lib.FUN:
            a = FnV('obj', a)
        if p.k != 'ref' and isinstance(a, StrV) and d.k == 'rec' and d.plain in lib.STR:
            a = StrV(a.p)
        return a

    def _args(self, m, args):
        vals = [self._arg(p, a) for p, a in zip(m['pt'], args)]
        k = len(m['pt']) - len(args)
        for p, e in zip(m['pt'][len(args):], (m.get('da') or [])[-k:] if k else ()):
            vals.append(self.I.with_this(None, lambda: self.I.init_value(p, e)))
        return vals

    def construct(self, cls, *args, **kw):
        cls = self.cls(cls)
        rec = self.p.records[cls]
        ms = [m for m in rec['methods'] if m['name'] == '(ctor)']
        ids = {m['id'] for m in ms}
        ms += [f['m'] for i, f in self.p.functions.items() if f.get('cls') == cls and f['m']['name'] == '(ctor)' and i not in ids]
        ms = [m for m in ms if not m['deleted'] and bool(m.get('copy')) == bool(kw.get('copy')) and not m.get('move')]
        if not ms and not args:
            return self.I.construct(cls, None, [])
        m = self._select(ms, args, kw.get('types'), None, 'constructor', cls)
        return self.I.construct(cls, m['id'], self._args(m, args))

    def stack(self, cls, *args, **kw):
        return self.construct(cls, *args, **kw)

    def new(self, cls, *args, **kw):
        r = self.construct(cls, *args, **kw)
        self.I.alloc(r, 'new')
        r.site = '(client)'
        return r

    def methods(self, cls, name):
        return self.p.find_methods(self.cls(cls), name)

    def call(self, obj, name, *args, **kw):
        I = self.I
        if isinstance(obj, Ptr):
            I.nonnull(obj, 'client call')
            obj = obj.t
        if isinstance(obj, (UniqueV, SharedV)):
            obj = obj.p.t
        start = kw.get('cls') or obj.cls
        ms = self.p.find_methods(start, name)
        if not ms:
            # look further up the hierarchy
            raise AnchorMissing('method %s::%s' % (start, name))
        if kw.get('const') is not None:
            ms = [m for m in ms if m['const'] == kw['const']]
        m = self._select(ms, args, kw.get('types'), kw.get('targs'), 'method', '%s::%s' % (start, name))
        vals = self._args(m, args)
        callee = {'id': m['id'], 'n': start + '::' + name, 'mn': name, 'virt': m['virt'] and not kw.get('nonvirtual'), 'm': True, 'static': m['static'],
                  'ret': m['ret'], 'pt': m['pt']}
        if m['static']:
            r = I.call(callee, None, vals)
        else:
            r = I.call_method(obj, callee, vals)
        return self._ret(r, m['ret'])

    def _ret(self, r, ty):
        return r

    def static(self, cls, name, *args, **kw):
        ms = self.p.find_methods(self.cls(cls), name)
        if not ms:
            raise AnchorMissing('%s::%s' % (cls, name))
        m = self._select(ms, args, kw.get('types'), kw.get('targs'), 'method', name)
        f = self.p.functions.get(m['id'])
        if f is None:
            raise AnchorMissing('body of %s' % m['id'])
        return self.I.call_fn(f, None, self._args(m, args))

    def func(self, name, *args, **kw):
        """free function by qualified name"""
        fs = [f for n, l in self.p.by_name.items() for f in l if n == name or n.endswith('::' + name)]
        fs = [f for f in fs if not f.get('cls')]
        ms = [{'id': f['id'], 'pt': [p['t'] for p in f['params']], 'f': f, 'da': f.get('da')} for f in fs]
        if not ms:
            raise AnchorMissing('function %s' % name)
        m = self._select(ms, args, kw.get('types'), kw.get('targs'), 'function', name)
        return self.I.call_fn(m['f'], None, self._args(m, args))

    def val(self, x):
        return lib.val(self.I, x)

    def delete(self, p):
        self.I.delete(p if isinstance(p, Ptr) else Ptr(p), False)

    def destroy(self, o):
        self.I.destroy(o)

    def leaks(self):
        return [o for o in self.I.leaks()]

    # ---- obligations
    def check(self, cond, oid, msg):
        if isinstance(cond, bool):
            cond = boolc(cond)
        s = self.s
        I = self.I
        oid = '%s/%s' % (self.root, oid)
        st = s.obl.setdefault(oid, [0, 0, 0])
        st[0] += 1
        d = I.path.decide(cond)
        if d is True:
            st[1] += 1
            return True
        if cond.top:
            st[2] += 1
            s.undec.append((oid, 'unknown value'))
            return False
        lits = list(I.path.order)
        if d is None:
            lits.append((cond.a[0], True) if cond.op == 'not' else (cond, False))
        env = find_model(lits, s.seed)
        if env is None:
            st[2] += 1
            s.undec.append((oid, 'no member of the partition found'))
            return False
        s.violate(oid, msg, I, env, cond)
        return False

    def eq(self, a, b, oid, msg):
        """a and b (terms) are equal"""
        a, b = self.val(a), self.val(b)
        if isinstance(b, bool):
            b = boolc(b)
        if isinstance(b, int):
            b = const(b, a.w)
        if isinstance(a, T) and isinstance(b, T):
            if a.w != b.w:
                if a.w == 1 or b.w == 1 or True:
                    w = max(a.w, b.w)
                    a, b = zext(a, w), zext(b, w)
            return self.check(eq(a, b), oid, '%s: computed %s, required %s' % (msg, _sh(a), _sh(b)))
        return self.check(lib.keq(self.I, a, b), oid, '%s: computed %r, required %r' % (msg, a, b))

    def same(self, p, obj, oid, msg):
        """pointer p denotes obj"""
        p = self.val(p)
        if isinstance(p, (UniqueV, SharedV)):
            p = p.p
        q = obj if isinstance(obj, Ptr) else (null() if obj is None else Ptr(obj))
        if not isinstance(p, Ptr):
            p = Ptr(p)
        return self.check(self.I.ptr_eq(p, q), oid, msg)


def _sh(t):
    r = repr(t)
    return r if len(r) < 160 else r[:160] + '...'


class Session(object):
    def __init__(self, prog, pid, tier='quick', seed=1, verbose=False):
        self.prog, self.pid, self.tier, self.seed = prog, pid, tier, seed
        self.cover = Coverage()
        self.obl = {}
        self.undec = []
        self.viol = {}
        self.imprecise = []
        self.partitions = 0
        self.infeasible = 0
        self.calls = 0
        self.roots = {}
        self.times = {}
        self.verbose = verbose
        self.samples = []
        self.tasks = []
        self.missing = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def violate(self, oid, msg, I, env, cond=None, kind='obligation', where=None):
        if oid in self.viol:
            return
        wit = {}
        for k, v in (env or {}).items():
            if k.op == 's':
                wit[k.a[0]] = hex(v)
        trail = [{'function': t[0], 'file': t[1], 'line': t[2], 'guard': t[3], 'taken': t[4]} for t in I.trail[-40:]]
        last = getattr(I, 'last_stack', [])
        self.viol[oid] = {'obligation': oid, 'message': msg, 'kind': kind, 'at': where or I.where(), 'witness': wit,
                          'path': trail, 'stack': I.stack(), 'functions': sorted({t[0] for t in I.trail if t[1]})}

    def explore(self, name, fn, limit=3000, allow=None, budget=240.0, maxsteps=None):
        """queue the root for analysis over all its partitions (see flush).
        allow(kind, msg, I) -> True when an abort is the specified outcome"""
        self.tasks.append(dict(name=name, fn=fn, limit=limit, allow=allow, budget=budget, maxsteps=maxsteps, i=len(self.tasks)))

    def one(self, task, pre):
        """one partition of a root; returns the prefixes of its siblings"""
        name, allow = task['name'], task['allow']
        I = Interp(self.prog, self.cover, pre)
        if task['maxsteps']:
            I.MAXSTEPS = task['maxsteps']
        c = Client(self, I, name)
        try:
            task['fn'](c)
            self.partitions += 1
            if len(self.samples) < 6:
                self.samples.append({'root': name, 'guards': ['%s %s:%s %s=%s' % (t[0], os.path.basename(t[1]), t[2], t[3], t[4]) for t in I.trail[:12]]})
        except Imprecise as e:
            self.partitions += 1
            self.imprecise.append((name, str(e), I.where(), I.stack()))
        except Infeasible:
            self.infeasible += 1
        except AnchorMissing as e:
            self.missing.append(str(e))
        except PathEnd as e:
            self.partitions += 1
            if allow is not None and allow(e.kind, e.msg, c):
                pass
            else:
                oid = '%s/%s' % (name, 'defined-behaviour')
                st = self.obl.setdefault(oid, [0, 0, 0])
                st[0] += 1
                env = find_model(list(I.path.order), self.seed)
                if env is None:
                    st[2] += 1
                    self.undec.append((oid, 'no member of the partition found: %s at %s%s' % (e.msg, e.where, ' %r' % (I.path.order,) if os.environ.get('VERIF_DBG') else '')))
                else:
                    self.violate(oid, '%s: %s' % ('undefined behaviour' if e.kind == 'ub' else 'abort', e.msg), I, env, kind=e.kind, where=e.where)
        except Exception as e:
            # a construct the analyser does not handle: this partition is undecided
            self.partitions += 1
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            self.imprecise.append((name, 'analyser: %s: %s (%s:%d)' % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno), I.where(), I.stack()))
        self.calls += I.ncalls
        return I.alts

    def run_tasks(self, q, left, counts):
        """worker: take (root, prefixes) items until none is left"""
        while True:
            try:
                ti, work = q.get(timeout=0.05)
            except queue.Empty:
                if left.value == 0 or time.time() - self.start > 800:
                    return
                continue
            task = self.tasks[ti]
            t0 = t1 = time.time()
            work = list(work)
            n = 0
            while work:
                pre = work.pop()
                n += 1
                counts[ti] += 1
                now = time.time()
                if counts[ti] > task['limit'] or now - self.start > task['budget'] * 3:
                    self.undec.append((task['name'], 'partition budget'))
                    break
                work.extend(self.one(task, pre))
                if len(work) > 1 and now - t1 > 0.7:
                    # share: hand out the oldest (largest) half
                    k = len(work) // 2
                    give, work = work[:k], work[k:]
                    with left.get_lock():
                        left.value += min(2, k)
                    if k > 1:
                        q.put((ti, give[:k // 2]))
                        q.put((ti, give[k // 2:]))
                    else:
                        q.put((ti, give))
                    t1 = now
            self.roots[task['name']] = self.roots.get(task['name'], 0) + n
            self.times[task['name']] = self.times.get(task['name'], 0) + time.time() - t0
            with left.get_lock():
                left.value -= 1

    def worker(self, q, left, counts, w):
        self.run_tasks(q, left, counts)
        d = {x: getattr(self, x) for x in self.STATE}
        d['fns'], d['lines'], d['branches'] = list(self.cover.fns), self.cover.lines, self.cover.branches
        w.send_bytes(pickle.dumps(d))
        w.close()

    STATE = ('obl', 'undec', 'viol', 'imprecise', 'partitions', 'infeasible', 'calls', 'roots', 'times', 'samples', 'missing')

    def flush(self):
        """analyse every queued root (8 worker processes)"""
        tasks = self.tasks
        if not tasks:
            return
        n = min(int(os.environ.get('VERIF_JOBS', '8')), os.cpu_count() or 1)
        self.start = time.time()
        q = mp.get_context('fork').Queue()
        left = mp.get_context('fork').Value('i', len(tasks))
        counts = mp.get_context('fork').Array('i', len(tasks), lock=False)
        for i in range(len(tasks)):
            q.put((i, [[]]))
        procs = []
        ctx = mp.get_context('fork')
        for k in range(n):
            r, w = ctx.Pipe(False)
            pr = ctx.Process(target=self.worker, args=(q, left, counts, w))
            pr.start()
            w.close()
            procs.append((pr, r))
        for pr, r in procs:
            try:
                self.merge(pickle.loads(r.recv_bytes()))
            except EOFError:
                self.imprecise.append(('worker', 'an analysis worker died', '', []))
            pr.join()
        self.tasks = []

    def merge(self, d):
        for k, v in d['obl'].items():
            st = self.obl.setdefault(k, [0, 0, 0])
            for i in range(3):
                st[i] += v[i]
        for k, v in d['viol'].items():
            o = self.viol.get(k)
            if o is None or (len(v['message']), v['message']) < (len(o['message']), o['message']):
                self.viol[k] = v
        for x in ('undec', 'imprecise', 'missing'):
            getattr(self, x).extend(d[x])
        for x in ('partitions', 'infeasible', 'calls'):
            setattr(self, x, getattr(self, x) + d[x])
        for x in ('roots', 'times'):
            for k, v in d[x].items():
                getattr(self, x)[k] = getattr(self, x).get(k, 0) + v
        self.samples = sorted(self.samples + d['samples'], key=lambda s: (s['root'], str(s)))[:6]
        for i in d['fns']:
            self.cover.fns[i] = self.prog.functions[i]
        self.cover.lines |= d['lines']
        self.cover.branches |= d['branches']
