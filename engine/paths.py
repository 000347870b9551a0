"""Partition guards: a set of boolean literals with light entailment, and the
search for a witness valuation that makes an alarm concrete."""
import random
from terms import *
import terms as TM


def rebuild(t, known, memo):
    """t with atoms of known constant value replaced."""
    r = memo.get(t)
    if r is not None:
        return r
    k = known.get(t)
    if k is not None:
        memo[t] = k
        return k
    op, a = t.op, t.a
    if op in ('c', 's'):
        r = t
    elif op == 'lin':
        r = const(a[0], t.w)
        for x, c in a[1]:
            r = add(r, mul(const(c, t.w), rebuild(x, known, memo)))
    elif op == 'mul':
        r = const(1, t.w)
        for x in a:
            r = mul(r, rebuild(x, known, memo))
    elif op == 'bit':
        r = bit(rebuild(a[0], known, memo), a[1])
    elif op == 'bits':
        r = frombits([rebuild(b, known, memo) for b in a])
    elif op == 'zext':
        r = zext(rebuild(a[0], known, memo), t.w)
    elif op == 'sext':
        r = sext(rebuild(a[0], known, memo), t.w)
    elif op == 'trunc':
        r = trunc(rebuild(a[0], known, memo), t.w)
    elif op in ('and', 'or', 'xor'):
        f = {'and': band, 'or': bor, 'xor': bxor}[op]
        r = rebuild(a[0], known, memo)
        for x in a[1:]:
            r = f(r, rebuild(x, known, memo))
    elif op in ('shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem', 'eq', 'ult', 'slt'):
        r = getattr(TM, op)(rebuild(a[0], known, memo), rebuild(a[1], known, memo))
    elif op == 'not':
        r = lnot(rebuild(a[0], known, memo))
    elif op == 'andb':
        r = land(*[rebuild(x, known, memo) for x in a])
    elif op == 'xorb':
        r = lxor(rebuild(a[0], known, memo), rebuild(a[1], known, memo))
    elif op == 'uf':
        na = tuple(rebuild(x, known, memo) if isinstance(x, T) else x for x in a[1:])
        f = UF_EVAL.get(a[0])
        if f and all(not isinstance(x, T) or isc(x) for x in na):
            r = const(f(*[cval(x) if isinstance(x, T) else x for x in na]), t.w)
        else:
            r = uf(a[0], na, t.w)
    else:
        r = t
    memo[t] = r
    return r


class Path(object):
    def __init__(self):
        self.lits = {}      # atom -> bool
        self.order = []
        self.known = {}     # atom -> const
        self.ub = {}        # atom -> [lo,hi] unsigned
        self.sb = {}        # atom -> [lo,hi] signed
        self.memo = {}
        self.clauses = []   # conjunctions known to be false

    def assume(self, t):
        """False if the literal contradicts the path."""
        d = self.decide(t)
        if d is not None:
            return d
        if t.op == 'not':
            ok = self._set(t.a[0], False)
        else:
            ok = self._set(t, True)
        return ok and self._units()

    def _units(self):
        if not self.clauses:
            return True
        keep, unit = [], []
        for c in self.clauses:
            rest = []
            for x in c:
                d = self.decide(x)
                if d is False:
                    break
                if d is None:
                    rest.append(x)
            else:
                if not rest:
                    return False
                if len(rest) == 1:
                    unit.append(rest[0])
                else:
                    keep.append(c)
        self.clauses = keep
        for x in unit:
            if not self.assume(lnot(x)):
                return False
        return True

    def _set(self, t, v):
        t = rebuild(t, self.known, {}) if self.known else t
        if t.op == 'not':
            t, v = t.a[0], not v
        if isc(t):
            return bool(cval(t)) == v
        if t.op == 'andb' and v:
            for x in t.a:
                if not self.assume(x):
                    return False
            return True
        if t.op == 'andb' and not v:
            self.clauses.append(t.a)
        self.lits[t] = v
        self.order.append((t, v))
        self.memo = {}
        self.known[t] = boolc(v)
        if t.op == 'eq' and v and isc(t.a[1]):
            x = t.a[0]
            self.known[x] = t.a[1]
            if x.op == 'lin':
                pass
        if t.op == 'bit' and t.a[1] == t.a[0].w - 1 and t.a[0].w > 1:
            h = 1 << t.a[1]
            return self._bound(t.a[0], True, -h if v else 0, -1 if v else h - 1)
        if t.op in ('ult', 'slt') and isc(t.a[1]):
            x, c = t.a
            w = x.w
            s = t.op == 'slt'
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, mask(w))
            cv = sval(c) if s else cval(c)
            return self._bound(x, s, lo, cv - 1) if v else self._bound(x, s, cv, hi)
        return True

    def _bound(self, x, signed, lo, hi):
        tab = self.sb if signed else self.ub
        b = tab.get(x)
        if b:
            lo, hi = max(b[0], lo), min(b[1], hi)
        if lo > hi:
            return False
        tab[x] = [lo, hi]
        if x in self.ub and x in self.sb:
            for s in (False, True):
                l, h = self._rng(x, s)
                if l > h:
                    return False
                if l == h:
                    lo = hi = l
        if lo == hi:
            self.known[x] = const(lo, x.w)
            if self.lits.get(eq(x, self.known[x])) is False:
                return False
        return True

    def decide(self, t):
        if isc(t):
            return bool(cval(t))
        if t.op == 'not':
            d = self.decide(t.a[0])
            return None if d is None else not d
        v = self.lits.get(t)
        if v is not None:
            return v
        if self.known:
            t2 = rebuild(t, self.known, self.memo)
            if t2 is not t:
                if isc(t2):
                    return bool(cval(t2))
                return self._decide(t2) if t2.op != 'not' else _neg(self._decide(t2.a[0]))
        return self._decide(t)

    def _decide(self, t):
        if isc(t):
            return bool(cval(t))
        v = self.lits.get(t)
        if v is not None:
            return v
        op = t.op
        if op == 'andb':
            allt = True
            for x in t.a:
                d = self.decide(x)
                if d is False:
                    return False
                if d is None:
                    allt = False
            if allt:
                return True
            st = set(t.a)
            for l, v in self.lits.items():
                if not v and l.op == 'andb' and set(l.a) <= st:
                    return False
            return None
        if op in ('ult', 'slt', 'eq'):
            return self._cmp(t)
        return None

    def _rng(self, x, signed):
        w = x.w
        if isc(x):
            v = sval(x) if signed else cval(x)
            return v, v
        tab = self.sb if signed else self.ub
        r = tab.get(x)
        full = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, mask(w))
        lo, hi = r if r else full
        o = (self.ub if signed else self.sb).get(x)
        if o:
            half = 1 << (w - 1)
            if o[0] >= 0 and o[1] < half:
                lo, hi = max(lo, o[0]), min(hi, o[1])
            elif signed:        # o: unsigned bounds
                if lo >= 0:
                    lo, hi = max(lo, o[0]), min(hi, o[1])
                elif hi < 0:
                    lo, hi = max(lo, o[0] - 2 * half), min(hi, o[1] - 2 * half)
                elif o[0] >= half:
                    lo, hi = max(lo, o[0] - 2 * half), min(hi, o[1] - 2 * half)
            else:               # o: signed bounds
                if hi < half:
                    lo, hi = max(lo, o[0]), min(hi, o[1])
                elif lo >= half or o[1] < 0:
                    lo, hi = max(lo, o[0] + 2 * half), min(hi, o[1] + 2 * half)
        if x.op == 'zext':
            l2, h2 = self._rng(x.a[0], False)
            lo, hi = max(lo, l2), min(hi, h2)
        elif x.op == 'sext' and signed:
            l2, h2 = self._rng(x.a[0], True)
            lo, hi = max(lo, l2), min(hi, h2)
        elif x.op == 'lin':
            # sound only if the interval does not wrap
            c0 = x.a[0]
            l2 = h2 = c0 - (1 << w) if (c0 >> (w - 1)) else c0
            for y, c in x.a[1]:
                sc = c - (1 << w) if c >> (w - 1) else c
                yl, yh = self._rng(y, signed)
                if sc > 0:
                    l2 += sc * yl
                    h2 += sc * yh
                else:
                    l2 += sc * yh
                    h2 += sc * yl
            if l2 >= full[0] and h2 <= full[1]:
                lo, hi = max(lo, l2), min(hi, h2)
        elif x.op == 'urem' and not signed and isc(x.a[1]):
            hi = min(hi, cval(x.a[1]) - 1)
        return lo, hi

    def _cmp(self, t):
        op = t.op
        x, y = t.a
        if op == 'eq':
            for s in (False, True):
                xl, xh = self._rng(x, s)
                yl, yh = self._rng(y, s)
                if xh < yl or yh < xl:
                    return False
            return None
        s = op == 'slt'
        xl, xh = self._rng(x, s)
        yl, yh = self._rng(y, s)
        if xh < yl:
            return True
        if xl >= yh:
            return False
        # reachability in the order graph
        if self._reach(op, x, y, True):
            return True
        if self._reach(op, y, x, False):
            return False
        return None

    def _reach(self, op, x, y, strict):
        """x < y (strict) or x <= y derivable from the order literals."""
        edges = {}
        for l, v in self.lits.items():
            if l.op == op:
                p, q = l.a
                if v:
                    edges.setdefault(p, []).append((q, True))
                else:
                    edges.setdefault(q, []).append((p, False))
            elif l.op == 'eq' and v:
                p, q = l.a
                edges.setdefault(p, []).append((q, False))
                edges.setdefault(q, []).append((p, False))
        if not edges:
            return False
        seen = set()
        work = [(x, False)]
        while work:
            n, st = work.pop()
            if n is y and (st or not strict):
                return True
            if (n, st) in seen:
                continue
            seen.add((n, st))
            for q, e in edges.get(n, ()):
                work.append((q, st or e))
        return False

    def literals(self):
        return list(self.order)


def _neg(d):
    return None if d is None else not d


def find_model(lits, seed=1, tries=400, prefer_small=True):
    """A valuation of the leaves that satisfies all literals, or None."""
    rnd = random.Random(seed)
    leafset, seen = set(), set()
    cs, seen2 = set(), set()
    for t, _ in lits:
        leaves(t, leafset, seen)
        consts_in(t, cs, seen2)
    syms = sorted((l for l in leafset if l.op == 's'), key=lambda t: t.n)
    ufs = sorted((l for l in leafset if l.op == 'uf' and l.a[0] not in UF_EVAL), key=lambda t: t.n)
    vars_ = syms + ufs
    cands = {}
    for s in vars_:
        w = s.w
        c = {0, 1}
        if w > 1:
            c |= {2, 3, mask(w), 1 << (w - 1), (1 << (w - 1)) - 1}
            for v, cw in cs:
                for d in (-1, 0, 1):
                    c.add((v + d) & mask(w))
        cands[s] = sorted(c)
    forced = {}
    for t, v in lits:
        if t.op == 'bit' and t.a[0] in cands:
            forced.setdefault(t.a[0], {})[t.a[1]] = int(v)
        if t in cands and t.w == 1:
            forced.setdefault(t, {})[0] = int(v)

    def applyf(s, v):
        for i, b in forced.get(s, {}).items():
            v = v & ~(1 << i) | (b << i)
        return v

    for k in range(tries):
        asg = {}
        for s in vars_:
            if s.w > 1 and rnd.random() < (0.3 if k > 20 else 0.05):
                v = rnd.getrandbits(s.w)
            elif s.w > 1 and rnd.random() < 0.6:
                v = rnd.randrange(0, min(64, 1 << s.w))
            else:
                v = rnd.choice(cands[s])
            asg[s] = applyf(s, v)
        for _ in range(40):
            env = dict(asg)
            env['rng'] = lambda t: asg.setdefault(t, rnd.getrandbits(t.w) if t.w > 1 else rnd.getrandbits(1))
            bad = []
            try:
                for t, v in lits:
                    if bool(ev(t, env)) != v:
                        bad.append((t, v))
            except NoEval:
                break
            if not bad:
                if _uf_consistent(ufs, env):
                    return {s: asg[s] for s in vars_ if s in asg}
                break
            t, v = rnd.choice(bad)
            if not _repair(t, v, asg, env, cands, rnd, applyf):
                s = rnd.choice(vars_) if vars_ else None
                if s is None:
                    return None
                asg[s] = applyf(s, rnd.choice(cands[s]))
    return None


def _uf_consistent(ufs, env):
    tab = {}
    for u in ufs:
        try:
            args = tuple(ev(x, env) if isinstance(x, T) else x for x in u.a[1:])
            val = ev(u, env)
        except NoEval:
            return False
        key = (u.a[0], args, u.w)
        if tab.setdefault(key, val) != val:
            return False
    return True


def _repair(t, v, asg, env, cands, rnd, applyf):
    op = t.op
    if op == 'not':
        return _repair(t.a[0], not v, asg, env, cands, rnd, applyf)
    if t in cands:
        asg[t] = int(v) if t.w == 1 else asg[t]
        return True
    if op == 'andb':
        if v:
            for x in t.a:
                if not ev(x, env):
                    return _repair(x, True, asg, env, cands, rnd, applyf)
            return True
        return _repair(rnd.choice(t.a), False, asg, env, cands, rnd, applyf)
    if op == 'bit':
        x = t.a[0]
        if x in cands:
            asg[x] = asg[x] & ~(1 << t.a[1]) | (int(v) << t.a[1])
            return True
        return False
    if op in ('eq', 'ult', 'slt'):
        x, y = t.a
        w = x.w
        xv, yv = ev(x, env), ev(y, env)
        if op == 'eq':
            tgt = yv if v else (xv + 1)
        elif v:
            tgt = yv - rnd.choice((1, 1, 2, 5))
        else:
            tgt = yv + rnd.choice((0, 0, 1, 4))
        if _setto(x, tgt & mask(w), asg, env, cands, rnd, applyf):
            return True
        if op == 'eq':
            tgt = xv if v else xv + 1
        elif v:
            tgt = xv + 1
        else:
            tgt = xv
        return _setto(y, tgt & mask(w), asg, env, cands, rnd, applyf)
    return False


def _setto(x, tgt, asg, env, cands, rnd, applyf):
    if x in cands:
        asg[x] = applyf(x, tgt)
        return True
    if x.op == 'lin':
        items = list(x.a[1])
        rnd.shuffle(items)
        for s, c in items:
            if c & 1:
                rest = (ev(x, env) - c * ev(s, env)) & mask(x.w)
                return _setto(s, ((tgt - rest) * pow(c, -1, 1 << x.w)) & mask(x.w), asg, env, cands, rnd, applyf)
        return False
    if x.op in ('zext', 'sext'):
        return _setto(x.a[0], tgt & mask(x.a[0].w), asg, env, cands, rnd, applyf)
    if x.op == 'trunc':
        u = x.a[0]
        cur = ev(u, env)
        return _setto(u, (cur & ~mask(x.w)) | tgt, asg, env, cands, rnd, applyf)
    if x.op == 'bits':
        for i, b in enumerate(x.a):
            if b.op == 'bit' and b.a[0] in cands:
                s = b.a[0]
                asg[s] = asg[s] & ~(1 << b.a[1]) | (((tgt >> i) & 1) << b.a[1])
        return True
    return False
