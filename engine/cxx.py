"""The subset of C++ that the decoder generators write: parsed and evaluated
over terms (an instruction word stays symbolic; a branch on it splits the
partition)."""
import re
from terms import *
from values import Imprecise


class Bad(Exception):
    """the text is not valid C++ of the subset"""


class Undefined(Exception):
    """the text is valid, and its execution has no defined result"""


TOK = re.compile(r'''\s*(?:(//[^\n]*|\#[^\n]*)|("(?:[^"\\\n]|\\.)*")|(0[xX][0-9a-fA-F]+[uUlL]*|\d+[uUlL]*)|([A-Za-z_]\w*)|(::|->|<<=|>>=|<<|>>|\|\||&&|\|=|&=|\^=|\+=|-=|==|!=|<=|>=|\+\+|--|[-+*/%~!<>=&|^()\[\]{};,.:?]))''')


def tokens(text):
    out, p = [], 0
    text = text.rstrip()
    while p < len(text):
        m = TOK.match(text, p)
        if not m:
            raise Bad('cannot read %r' % text[p:p + 30])
        if m.group(1):
            if m.group(1).startswith('#error'):
                raise Bad(m.group(1))
        else:
            out.append(m.group(0).strip())
        p = m.end()
    return out


class Ty(object):
    """k: int (w, sg), bool, big (w, sg), enum (name), pair, ptr (to), rec (name), fn, void, auto"""

    def __init__(self, k, w=0, sg=False, name=None, to=None):
        self.k, self.w, self.sg, self.name, self.to = k, w, sg, name, to

    def key(self):
        return (self.k, self.w, self.sg, self.name, self.to.key() if self.to else None)

    def __eq__(self, o):
        return self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        if self.k == 'int':
            return '%sint%d' % ('' if self.sg else 'u', self.w)
        if self.k == 'ptr':
            return '%r*' % self.to
        return self.name or self.k


def IT(w, sg):
    return Ty('int', w, sg)


NAMES = {'bool': Ty('bool', 1), 'void': Ty('void'), 'auto': Ty('auto'), 'int': IT(32, True), 'unsigned': IT(32, False), 'size_t': IT(64, False)}
for _w in (8, 16, 32, 64):
    NAMES['uint%d_t' % _w] = IT(_w, False)
    NAMES['int%d_t' % _w] = IT(_w, True)
BIG = {'absl::uint128': Ty('big', 128, False), 'absl::int128': Ty('big', 128, True)}


class V(object):
    def __init__(self, ty, v):
        self.ty, self.v = ty, v

    def __repr__(self):
        return '%r:%r' % (self.ty, self.v)


class Parser(object):
    def __init__(self, toks, unit):
        self.t, self.i, self.u = toks, 0, unit

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def take(self, x=None):
        v = self.peek()
        if v is None:
            raise Bad('text ends early')
        if x is not None and v != x:
            raise Bad('expected %r before %s' % (x, ' '.join(self.t[self.i:self.i + 8])))
        self.i += 1
        return v

    def opt(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def close(self):
        """one > of a template list"""
        if self.peek() == '>>':
            self.t[self.i:self.i + 1] = ['>', '>']
        self.take('>')

    def qual(self):
        n = self.take()
        if not re.match(r'[A-Za-z_]', n):
            raise Bad('a name is expected at %r' % n)
        while self.peek() == '::':
            self.take()
            n += '::' + self.take()
        return n

    def type(self):
        """a type, or None with the position restored"""
        i = self.i
        try:
            while self.peek() in ('const', 'static', 'inline', 'constexpr', 'extern', 'struct'):
                self.take()
            if self.peek() is None or not re.match(r'[A-Za-z_]', self.peek()):
                self.i = i
                return None
            n = self.qual()
            if n == 'std::pair' and self.peek() == '<':
                self.take()
                a = self.type()
                self.take(',')
                b = self.type()
                if a is None or b is None:
                    raise Bad('type of a pair')
                self.close()
                t = Ty('pair', name='pair<%r,%r>' % (a, b))
            elif n == 'absl::AnyInvocable':
                self.take('<')
                r = self.type()
                self.take('(')
                ps = []
                while self.peek() != ')':
                    ps.append(self.type())
                    if not self.opt(','):
                        break
                self.take(')')
                self.close()
                t = Ty('fn', name='fn<%r%r>' % (r, ps))
            elif n in NAMES:
                t = NAMES[n]
            elif n in BIG:
                t = BIG[n]
            elif n in self.u.enums:
                t = Ty('enum', name=n)
            elif self.u.rec(n):
                t = Ty('rec', name=self.u.rec(n))
            else:
                self.i = i
                return None
            if self.peek() == 'const':
                self.take()
            while self.peek() == '*':
                self.take()
                t = Ty('ptr', 64, to=t)
            return t
        except Bad:
            self.i = i
            raise

    # ---- declarations
    def unit(self, scope=()):
        while self.peek() not in (None, '}'):
            if self.opt(';'):
                continue
            if self.peek() == 'namespace':
                self.take()
                n = self.qual()
                self.take('{')
                self.unit(scope + (n,))
                self.take('}')
                continue
            if self.peek() in ('struct', 'class', 'union'):
                kind = self.take()
                n = self.qual()
                self.take('{')
                full = '::'.join(scope + (n,))
                self.u.recs.setdefault(full, {'kind': kind, 'fields': []})
                self.body(scope + (n,), full, n)
                self.take('}')
                if self.peek() == 'ABSL_ATTRIBUTE_PACKED':
                    self.take()
                self.take(';')
                continue
            self.decl(scope)

    def body(self, scope, full, short):
        while self.peek() != '}':
            if self.peek() in ('public', 'private') and self.peek(1) == ':':
                self.i += 2
                continue
            if self.opt(';'):
                continue
            if self.peek() == short and self.peek(1) == '(':
                self.i += 2
                self.take(')')
                self.take('=')
                self.take('default')
                self.take(';')
                continue
            if self.peek() in ('struct', 'class', 'union') and self.peek(2) == '{':
                i = self.i
                kind = self.take()
                n = self.take()
                self.take('{')
                f2 = '::'.join(scope + (n,))
                self.u.recs.setdefault(f2, {'kind': kind, 'fields': []})
                self.body(scope + (n,), f2, n)
                self.take('}')
                self.take(';')
                continue
            self.decl(scope, full)

    def decl(self, scope, rec=None):
        self.u.scope = scope
        i = self.i
        t = self.type()
        spec = self.t[i:self.i]
        if t is None:
            raise Bad('a declaration is expected at %s' % ' '.join(self.t[self.i:self.i + 8]))
        n = self.take()
        if self.peek() == '(':
            self.take()
            ps = []
            while self.peek() != ')':
                pt = self.type()
                if pt is None:
                    raise Bad('parameter type at %s' % ' '.join(self.t[self.i:self.i + 5]))
                pn = None
                if self.peek() not in (',', ')'):
                    pn = self.take()
                ps.append((pt, pn))
                if not self.opt(','):
                    break
            self.take(')')
            full = '::'.join(scope + (n,))
            if self.opt(';'):
                self.u.declared.append((full, t, ps))
                return
            b = self.block()
            for q in self.u.fns.get(full, []):
                if [x[0] for x in q['ps']] == [x[0] for x in ps]:
                    raise Bad('%s is defined twice' % full)
            self.u.fns.setdefault(full, []).append({'ret': t, 'ps': ps, 'body': b, 'scope': scope, 'n': full, 'member': rec is not None and 'static' not in spec,
                                                    'inline': rec is not None or 'inline' in spec or 'static' in spec})
            return
        if rec is not None and self.peek() == ':':
            self.take()
            w = int(self.take(), 0)
            self.take(';')
            self.u.recs[rec]['fields'].append((n, t, w))
            return
        dim = None
        if self.peek() == '[':
            self.take()
            dim = self.expr()
            self.take(']')
        init = None
        if self.opt('='):
            init = self.init()
        self.take(';')
        if rec is not None and init is None:
            self.u.recs[rec]['fields'].append((n, t, None if dim is None else ('dim', dim)))
            return
        full = '::'.join(scope + (n,))
        if full in self.u.globals:
            raise Bad('%s is defined twice' % full)
        self.u.globals[full] = (t, dim, init, scope)

    def init(self):
        if self.peek() == '{':
            self.take()
            out = []
            while self.peek() != '}':
                out.append(self.init())
                if not self.opt(','):
                    break
            self.take('}')
            return ('list', out)
        return self.expr()

    # ---- statements
    def block(self):
        self.take('{')
        out = []
        while self.peek() != '}':
            out.append(self.stmt())
        self.take('}')
        return ('block', out)

    def stmt(self):
        p = self.peek()
        if p == '{':
            return self.block()
        if p == ';':
            self.take()
            return ('block', [])
        if p == 'if':
            self.take()
            self.take('(')
            c = self.expr()
            self.take(')')
            a = self.stmt()
            b = None
            if self.peek() == 'else':
                self.take()
                b = self.stmt()
            return ('if', c, a, b)
        if p == 'switch':
            self.take()
            self.take('(')
            c = self.expr()
            self.take(')')
            self.take('{')
            out = []
            while self.peek() != '}':
                if self.opt('case'):
                    v = self.expr(stop=':')
                    self.take(':')
                    out.append(('case', v))
                elif self.opt('default'):
                    self.take(':')
                    out.append(('default',))
                else:
                    out.append(self.stmt())
            self.take('}')
            return ('switch', c, out)
        if p == 'break':
            self.take()
            self.take(';')
            return ('break',)
        if p == 'return':
            self.take()
            e = None if self.peek() == ';' else self.expr()
            self.take(';')
            return ('return', e)
        if p == 'LOG':
            while self.take() != ';':
                pass
            return ('fatal',)
        i = self.i
        t = self.type()
        if t is not None and self.peek() is not None and re.match(r'[A-Za-z_]', self.peek()):
            n = self.take()
            dim = init = None
            if self.opt('['):
                dim = self.expr()
                self.take(']')
            if self.opt('='):
                init = self.init()
            self.take(';')
            return ('decl', t, n, dim, init)
        self.i = i
        e = self.expr()
        self.take(';')
        return ('expr', e)

    # ---- expressions
    LEV = [['||'], ['&&'], ['|'], ['^'], ['&'], ['==', '!='], ['<', '<=', '>', '>='], ['<<', '>>'], ['+', '-'], ['*', '/', '%']]

    def expr(self, stop=None):
        a = self.bin(0)
        if self.peek() in ('=', '|=', '&=', '^=', '+=', '-=', '<<=', '>>='):
            o = self.take()
            return ('assign', o, a, self.expr())
        return a

    def bin(self, l):
        if l == len(self.LEV):
            return self.unary()
        a = self.bin(l + 1)
        while self.peek() in self.LEV[l]:
            o = self.take()
            a = ('bin', o, a, self.bin(l + 1))
        return a

    def unary(self):
        p = self.peek()
        if p in ('~', '!', '-', '&', '*'):
            self.take()
            return ('un', p, self.unary())
        return self.post()

    def post(self):
        p = self.peek()
        if p == '(':
            self.take()
            e = self.expr()
            self.take(')')
        elif p is not None and p[0].isdigit():
            self.take()
            e = ('num', p)
        elif p in ('static_cast', 'reinterpret_cast'):
            self.take()
            self.take('<')
            t = self.type()
            if t is None:
                raise Bad('type of a cast')
            self.close()
            self.take('(')
            e = ('cast', p, t, self.expr())
            self.take(')')
        elif p is not None and re.match(r'[A-Za-z_]', p):
            n = self.qual()
            e = ('name', n)
            if self.peek() == '<' and n.split('::')[-1] in ('ExtractBits', 'InsertBits'):
                self.take()
                t = self.type()
                if t is None:
                    raise Bad('template argument')
                self.close()
                e = ('tname', n, t)
        else:
            raise Bad('an expression is expected at %s' % ' '.join(self.t[self.i:self.i + 6]))
        while True:
            p = self.peek()
            if p == '(':
                self.take()
                args = []
                while self.peek() != ')':
                    args.append(self.init())
                    if not self.opt(','):
                        break
                self.take(')')
                e = ('call', e, args)
            elif p == '[':
                self.take()
                i = self.expr()
                self.take(']')
                e = ('index', e, i)
            elif p in ('.', '->'):
                self.take()
                e = ('mem', e, self.take(), p)
            else:
                return e


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Fatal(Exception):
    pass


class Bytes(object):
    """memory a byte pointer denotes"""

    def __init__(self, bs):
        self.b = list(bs)


class Unit(object):
    def __init__(self, text, enums=(), c=None):
        self.enums, self.c = dict(enums), c
        self.fns, self.globals, self.recs, self.declared = {}, {}, {}, []
        self.scope = ()
        self.cache = {}
        self.text = text
        self.p = Parser(tokens(text), self)
        self.p.unit()
        if self.p.peek() is not None:
            raise Bad('unmatched %r' % self.p.peek())

    def look(self, tab, n, scope):
        for k in range(len(scope), -1, -1):
            q = '::'.join(tuple(scope[:k]) + (n,))
            if q in tab:
                return q
        return None

    def rec(self, n):
        return self.look(self.recs, n, self.scope)

    # ---- evaluation
    def call(self, name, args, scope=()):
        q = self.look(self.fns, name, scope)
        if q is None:
            raise Bad('no function %s' % name)
        best = None
        for f in self.fns[q]:
            if len(f['ps']) != len(args):
                continue
            cost = 0
            for (pt, _), a in zip(f['ps'], args):
                k = self.conv_cost(a, pt)
                if k is None:
                    cost = None
                    break
                cost += k
            if cost is not None and (best is None or cost < best[0]):
                best = (cost, f)
        if best is None:
            raise Bad('no overload of %s takes %r' % (name, [a.ty for a in args]))
        f = best[1]
        env = [{}]
        for (pt, pn), a in zip(f['ps'], args):
            if pn is not None:
                env[0][pn] = self.convert(a, pt)
        fr = Frame(self, f, env)
        try:
            fr.run(f['body'])
        except Return as r:
            if f['ret'].k == 'void':
                return None
            return self.convert(r.v, f['ret'])
        if f['ret'].k != 'void':
            raise Undefined('%s ends without a value' % f['n'])

    def conv_cost(self, a, t):
        if a.ty == t:
            return 0
        if a.ty.k in ('int', 'bool') and t.k in ('int', 'bool', 'big'):
            return 1
        if a.ty.k == 'fn' and t.k == 'fn':
            return 0
        if a.ty.k == 'pair' and t.k == 'pair':
            return 0
        return None

    def convert(self, a, t, explicit=False):
        if t.k == 'auto':
            return a
        if isinstance(a.v, list) and t.k == 'pair':
            return V(t, tuple(a.v))
        if a.v is None:
            raise Undefined('a variable without a value is read')
        if a.ty == t:
            return a
        if t.k == 'int' and a.ty.k in ('int', 'bool'):
            return V(t, fit(a.v, t.w, a.ty.sg))
        if t.k == 'big' and a.ty.k in ('int', 'bool'):
            return V(t, fit(a.v, 128, a.ty.sg))
        if t.k == 'big' and a.ty.k == 'big' and (explicit or a.ty.sg == t.sg or not t.sg and False):
            return V(t, a.v)
        if t.k == 'big' and a.ty.k == 'big' and a.ty.sg and not t.sg:
            raise Bad('no implicit conversion from %r to %r' % (a.ty, t))
        if t.k == 'int' and a.ty.k == 'big' and explicit:
            return V(t, fit(a.v, t.w, False))
        if t.k == 'bool' and a.ty.k == 'int':
            return V(t, lnot(eq(a.v, const(0, a.v.w))))
        if t.k in ('pair', 'fn') and a.ty.k == t.k:
            return a
        raise Bad('no implicit conversion from %r to %r' % (a.ty, t))


def fit(t, w, sg):
    if t.w > w:
        return trunc(t, w)
    return (sext if sg else zext)(t, w)


def promote(a):
    if a.v is None:
        raise Undefined('a variable without a value is read')
    if a.ty.k == 'bool':
        return V(IT(32, True), zext(a.v, 32))
    if a.ty.k == 'int' and a.ty.w < 32:
        return V(IT(32, True), fit(a.v, 32, a.ty.sg))
    if a.ty.k not in ('int', 'big'):
        raise Bad('%r in arithmetic' % a.ty)
    return a


def usual(a, b):
    a, b = promote(a), promote(b)
    if a.ty == b.ty:
        return a, b
    if 'big' in (a.ty.k, b.ty.k):
        if a.ty.k == b.ty.k:
            raise Bad('mixed 128 bit types')
        t = a.ty if a.ty.k == 'big' else b.ty
    else:
        w = max(a.ty.w, b.ty.w)
        sg = not ((a.ty.w == w and not a.ty.sg) or (b.ty.w == w and not b.ty.sg))
        t = IT(w, sg)
    return V(t, fit(a.v, t.w, a.ty.sg)), V(t, fit(b.v, t.w, b.ty.sg))


class Frame(object):
    def __init__(self, u, f, env):
        self.u, self.f, self.env = u, f, env

    def decide(self, t):
        if isc(t):
            return bool(cval(t))
        if self.u.c is None:
            raise Imprecise('branch on a symbolic value')
        return self.u.c.I.decide(t)

    def run(self, s):
        k = s[0]
        if k == 'block':
            self.env.append({})
            try:
                for x in s[1]:
                    self.run(x)
            finally:
                self.env.pop()
        elif k == 'if':
            v = self.cond(self.ev(s[1]))
            if v:
                self.run(s[2])
            elif s[3] is not None:
                self.run(s[3])
        elif k == 'switch':
            v = promote(self.ev(s[1]))
            seen = set()
            at = None
            for i, x in enumerate(s[2]):
                if x[0] == 'case':
                    cv = promote(self.ev(x[1]))
                    if not isc(cv.v):
                        raise Bad('a case that is no constant')
                    n = cval(fit(cv.v, v.ty.w, cv.ty.sg))
                    if n in seen:
                        raise Bad('duplicate case %d' % n)
                    seen.add(n)
            for i, x in enumerate(s[2]):
                if x[0] == 'case' and at is None:
                    n = cval(fit(promote(self.ev(x[1])).v, v.ty.w, False))
                    if self.decide(eq(v.v, const(n, v.ty.w))):
                        at = i
            if at is None:
                for i, x in enumerate(s[2]):
                    if x[0] == 'default':
                        at = i
            if at is None:
                return
            self.env.append({})
            try:
                for x in s[2][at:]:
                    if x[0] not in ('case', 'default'):
                        self.run(x)
            except Break:
                pass
            finally:
                self.env.pop()
        elif k == 'break':
            raise Break()
        elif k == 'return':
            raise Return(self.ev(s[1]) if s[1] is not None else None)
        elif k == 'fatal':
            raise Fatal()
        elif k == 'decl':
            _, t, n, dim, init = s
            if n in self.env[-1] or (len(self.env) == 2 and n in self.env[0]):
                raise Bad('%s is declared twice in one scope' % n)
            if dim is not None:
                self.env[-1][n] = self.array(t, dim, init)
            elif init is None:
                self.env[-1][n] = V(t, None)
            else:
                self.env[-1][n] = self.u.convert(self.ev(init), t)
        elif k == 'expr':
            self.ev(s[1])
        else:
            raise Bad(k)

    def array(self, t, dim, init):
        d = self.ev(dim)
        if not isc(d.v):
            raise Bad('array size')
        n = cval(d.v)
        items = [self.u.convert(self.ev(x), t) for x in (init[1] if init else [])]
        if len(items) > n:
            raise Bad('%d initializers for %d elements' % (len(items), n))
        return V(Ty('arr', to=t), items + [None] * (n - len(items)))

    def cond(self, v):
        if v.v is None:
            raise Undefined('a variable without a value is read')
        if v.ty.k == 'bool':
            return self.decide(v.v)
        if v.ty.k in ('int', 'big'):
            return self.decide(lnot(eq(v.v, const(0, v.v.w))))
        raise Bad('%r as a condition' % v.ty)

    def find(self, n):
        for e in reversed(self.env):
            if n in e:
                return e
        return None

    def ev(self, e):
        k = e[0]
        u = self.u
        if k == 'num':
            return number(e[1])
        if k == 'list':
            return V(Ty('list'), [self.ev(x) for x in e[1]])
        if k == 'name':
            n = e[1]
            d = self.find(n)
            if d is not None:
                return d[n]
            q = u.look(u.globals, n, self.f['scope'])
            if q is not None:
                t, dim, init, scope = u.globals[q]
                if q not in u.cache:
                    u.cache[q] = self.array(t, dim, init) if dim is not None else u.convert(self.ev(init), t)
                return u.cache[q]
            if '::' in n:
                a, b = n.rsplit('::', 1)
                if a in u.enums:
                    if u.enums[a] is not None and b not in u.enums[a]:
                        raise Bad('%s has no member %s' % (a, b))
                    return V(Ty('enum', name=a), b)
            q = u.look(u.fns, n, self.f['scope'])
            if q is not None:
                return V(Ty('fn', name=q), q)
            raise Bad('unknown name %s' % n)
        if k == 'un':
            if e[1] == '&':
                if e[2][0] == 'name':
                    q = u.look(u.fns, e[2][1], self.f['scope'])
                    if q is not None:
                        return V(Ty('fn', name=q), q)
                    d = self.find(e[2][1])
                    if d is not None:
                        return V(Ty('ptr', 64, to=d[e[2][1]].ty), ('var', d, e[2][1]))
                raise Bad('address of %r' % (e[2],))
            a = self.ev(e[2])
            if e[1] == '!':
                return V(NAMES['bool'], boolc(not self.cond(a)))
            a = promote(a)
            if e[1] == '~':
                return V(a.ty, bnot(a.v))
            if e[1] == '-':
                return V(a.ty, neg(a.v))
            raise Bad(e[1])
        if k == 'bin':
            return self.binop(e)
        if k == 'assign':
            return self.assign(e)
        if k == 'cast':
            a = self.ev(e[3])
            t = e[2]
            if e[1] == 'static_cast':
                return u.convert(a, t, explicit=True)
            if t.k == 'ptr' and a.ty.k == 'ptr':
                return V(t, a.v)
            raise Bad('reinterpret_cast from %r to %r' % (a.ty, t))
        if k == 'index' and e[1][0] == 'mem' and e[1][3] == '->':
            p, i = self.ev(e[1][1]), promote(self.ev(e[2]))
            if p.ty.k != 'ptr' or p.ty.to.k != 'rec':
                raise Bad('-> on %r' % p.ty)
            m = [f for f in u.recs[p.ty.to.name]['fields'] if f[0] == e[1][2]]
            if not m or not isinstance(m[0][2], tuple):
                raise Bad('%s has no array %s' % (p.ty.to.name, e[1][2]))
            d = self.ev(m[0][2][1])
            if not isc(i.v) or not isc(d.v):
                raise Imprecise('symbolic index of a union')
            if sval(i.v) < 0 or sval(i.v) >= cval(d.v):
                raise Undefined('index %d of %d bytes' % (sval(i.v), cval(d.v)))
            w = m[0][1].w
            return V(m[0][1], self.cells(p.v)[0](sval(i.v) * w, w))
        if k == 'index':
            a, i = self.ev(e[1]), promote(self.ev(e[2]))
            if a.ty.k == 'arr':
                bs = [bit(i.v, k) for k in range(i.v.w)]
                if sum(b is not TRUE and b is not FALSE for b in bs) <= 10:
                    # bit by bit: every path is then one index
                    j = frombits([boolc(self.decide(b)) for b in bs])
                    i = V(i.ty, j)
                for n, x in enumerate(a.v):
                    if self.decide(eq(i.v, const(n, i.v.w))):
                        if x is None:
                            raise Undefined('element %d has no value' % n)
                        return x
                raise Undefined('index past the end of an array of %d' % len(a.v))
            raise Bad('index of %r' % a.ty)
        if k == 'mem':
            return self.member(e)
        if k == 'call':
            return self.callx(e)
        raise Bad(k)

    def binop(self, e):
        o = e[1]
        if o in ('&&', '||'):
            a = self.cond(self.ev(e[2]))
            if a == (o == '||'):
                return V(NAMES['bool'], boolc(a))
            return V(NAMES['bool'], boolc(self.cond(self.ev(e[3]))))
        a, b = self.ev(e[2]), self.ev(e[3])
        if o in ('<<', '>>'):
            a, b = promote(a), promote(b)
            if b.ty.k == 'big':
                raise Bad('128 bit shift count')
            n = b.v
            if self.decide(lnot(ult(n, const(a.ty.w, n.w)))):
                raise Undefined('a %d bit value is shifted by %s' % (a.ty.w, cval(n) if isc(n) else 'its width or more'))
            n = fit(n, a.ty.w, False)
            if o == '<<':
                if a.ty.k == 'int' and a.ty.sg and isc(a.v) and isc(n) and (sval(a.v) << cval(n)) >= 1 << a.ty.w:
                    raise Undefined('%d << %d does not fit the %d bit signed type' % (sval(a.v), cval(n), a.ty.w))
                return V(a.ty, shl(a.v, n))
            return V(a.ty, (ashr if a.ty.sg else lshr)(a.v, n))
        if o in ('==', '!='):
            if a.ty.k == 'enum' or b.ty.k == 'enum':
                if a.ty != b.ty:
                    raise Bad('%r compared with %r' % (a.ty, b.ty))
                return V(NAMES['bool'], boolc((a.v == b.v) == (o == '==')))
            a, b = usual(a, b)
            t = eq(a.v, b.v)
            return V(NAMES['bool'], t if o == '==' else lnot(t))
        a, b = usual(a, b)
        if o in ('<', '<=', '>', '>='):
            lt = slt if a.ty.sg else ult
            t = {'<': lambda: lt(a.v, b.v), '>': lambda: lt(b.v, a.v), '<=': lambda: lnot(lt(b.v, a.v)), '>=': lambda: lnot(lt(a.v, b.v))}[o]()
            return V(NAMES['bool'], t)
        f = {'|': bor, '&': band, '^': bxor, '+': add, '-': sub, '*': mul}.get(o)
        if f is None:
            raise Bad(o)
        return V(a.ty, f(a.v, b.v))

    def assign(self, e):
        _, o, l, r = e
        rv = self.ev(r)
        if l[0] == 'name':
            d = self.find(l[1])
            if d is None:
                raise Bad('unknown name %s' % l[1])
            cur = d[l[1]]
            if o != '=':
                if cur.v is None:
                    raise Undefined('a variable without a value is read')
                tmp = '(value)'
                self.env.append({tmp: rv, '(cur)': cur})
                try:
                    rv = self.binop(('bin', o[:-1], ('name', '(cur)'), ('name', tmp)))
                finally:
                    self.env.pop()
            d[l[1]] = V(cur.ty, None)
            nv = self.u.convert(rv, cur.ty)
            d[l[1]] = nv
            return nv
        if l[0] == 'mem' and o == '=':
            fs = self.field(l)
            store, off, w, t = fs
            v = self.u.convert(rv, t)
            store(off, w, v.v)
            return v
        raise Bad('assignment to %s' % l[0])

    # ---- packed structures
    def field(self, e):
        """(store, offset, width, type) of pointer->member.field in a packed union"""
        _, b, fname, op = e
        if b[0] != 'mem' or b[3] != '->' or op != '.':
            raise Bad('member access')
        p = self.ev(b[1])
        if p.ty.k != 'ptr' or p.ty.to.k != 'rec':
            raise Bad('-> on %r' % p.ty)
        uni = self.u.recs[p.ty.to.name]
        m = [f for f in uni['fields'] if f[0] == b[2]]
        if not m or m[0][1].k != 'rec':
            raise Bad('%s has no member %s' % (p.ty.to.name, b[2]))
        off = 0
        for n, t, w in self.u.recs[m[0][1].name]['fields']:
            if w > t.w:
                raise Bad('bit field %s is wider than its type' % n)
            if n == fname:
                return self.cells(p.v)[1], off, w, t
            off += w
        raise Bad('no field %s' % fname)

    def cells(self, p):
        """(load, store) of bits in the memory p denotes, little endian"""
        if isinstance(p, Bytes):
            def load(off, w):
                if off + w > 8 * len(p.b):
                    raise Undefined('bit %d of %d bytes' % (off + w - 1, len(p.b)))
                return frombits([bit(p.b[i // 8], i % 8) for i in range(off, off + w)])

            def store(off, w, v):
                if off + w > 8 * len(p.b):
                    raise Undefined('bit %d of %d bytes' % (off + w - 1, len(p.b)))
                bs = [[bit(x, i) for i in range(8)] for x in p.b]
                for i in range(w):
                    bs[(off + i) // 8][(off + i) % 8] = bit(v, i)
                p.b[:] = [frombits(x) for x in bs]
            return load, store
        if isinstance(p, tuple) and p[0] == 'var':
            d, n = p[1], p[2]
            if not isinstance(d[n].v, T):
                raise Undefined('the bits of a pointer are taken for the instruction')

            def load(off, w):
                if off + w > d[n].v.w:
                    raise Undefined('bit %d of a %d bit value' % (off + w - 1, d[n].v.w))
                return frombits([bit(d[n].v, i) for i in range(off, off + w)])

            def store(off, w, v):
                x = d[n].v
                if off + w > x.w:
                    raise Undefined('bit %d of a %d bit value' % (off + w - 1, x.w))
                d[n] = V(d[n].ty, frombits([bit(v, i - off) if off <= i < off + w else bit(x, i) for i in range(x.w)]))
            return load, store
        raise Imprecise('memory %r' % (p,))

    def member(self, e):
        if e[2] in ('first', 'second') and e[3] == '.':
            a = self.ev(e[1])
            if a.ty.k != 'pair':
                raise Bad('.%s of %r' % (e[2], a.ty))
            return a.v[0 if e[2] == 'first' else 1]
        b = e[1]
        if b[0] == 'mem':
            _, off, w, t = self.field(e)
            p = self.ev(b[1])
            v = self.cells(p.v)[0](off, w)
            return V(t, fit(v, t.w, t.sg))
        raise Bad('member %s' % e[2])

    def callx(self, e):
        _, f, args = e
        u = self.u
        if f[0] == 'tname':
            return self.bitfn(f[1], f[2], [self.ev(a) for a in args])
        av = [self.ev(a) for a in args]
        if f[0] == 'name':
            n = f[1]
            if n == 'std::make_pair' and len(av) == 2:
                return V(Ty('pair', name='pair<%r,%r>' % (av[0].ty, av[1].ty)), tuple(av))
            if n == 'absl::Uint128Low64' and len(av) == 1:
                return V(IT(64, False), trunc(u.convert(av[0], BIG['absl::uint128']).v, 64))
            if n.split('::')[-1] == 'InsertBits':
                return self.bitfn(n, av[-1].ty if av else None, av)
            if n == 'absl::Uint128Max' and not av:
                return V(BIG['absl::uint128'], const((1 << 128) - 1, 128))
            if n in BIG and len(av) == 1:
                return u.convert(av[0], BIG[n], explicit=True)
            d = self.find(n)
            if d is None and u.look(u.fns, n, self.f['scope']) is not None:
                return u.call(n, av, self.f['scope'])
            if d is None:
                raise Bad('no function %s' % n)
        x = self.ev(f)
        if x.ty.k != 'fn':
            raise Bad('call of %r' % x.ty)
        return u.call(x.v, av)

    def bitfn(self, n, t, av):
        """the helpers that the generated files carry (see the rule about them)"""
        if n == 'internal::ExtractBits':
            if len(av) != 4:
                raise Bad('ExtractBits takes (data, size, msb, width), not %d arguments' % len(av))
        elif n == 'internal::InsertBits':
            if len(av) != 5:
                raise Bad('InsertBits takes (data, size, msb, width, value), not %d arguments' % len(av))
        else:
            raise Bad('no function %s' % n)
        p = av[0]
        if p.ty.k != 'ptr' or p.ty.to != IT(8, False):
            raise Bad('%s of %r' % (n, p.ty))
        nums = []
        for a in av[1:4]:
            a = promote(a)
            if not isc(a.v):
                raise Imprecise('symbolic bit position')
            nums.append(sval(a.v))
        size, msb, w = nums
        bs = p.v.b
        if size != len(bs):
            raise Undefined('%s is told %d bytes, there are %d' % (n, size, len(bs)))
        lo = msb - w + 1
        if lo < 0 or msb >= 8 * size or w < 1:
            raise Undefined('%s of bits %d..%d of %d bytes' % (n, msb, lo, size))

        if n.endswith('ExtractBits'):
            if t.k == 'int' and w > t.w or t.k not in ('int', 'big'):
                raise Undefined('%d bits into %r' % (w, t))
            v = frombits([bit(bs[size - 1 - i // 8], i % 8) for i in range(lo, msb + 1)])
            return V(t, zext(v, t.w))
        v = promote(av[4]).v
        if v.w < w:
            v = zext(v, w)
        out = []
        for k in range(size):
            q = [bit(bs[k], i) for i in range(8)]
            for i in range(8):
                pos = (size - 1 - k) * 8 + i
                if lo <= pos <= msb:
                    q[i] = bit(v, pos - lo)
            out.append(frombits(q))
        p.v.b[:] = out
        return V(Ty('void'), None)


def number(s):
    m = re.match(r'(0[xX][0-9a-fA-F]+|\d+)([uUlL]*)$', s)
    if not m:
        raise Bad(s)
    hexa = m.group(1)[:2] in ('0x', '0X')
    if not hexa and len(m.group(1)) > 1 and m.group(1)[0] == '0':
        v = int(m.group(1), 8)
    else:
        v = int(m.group(1), 0)
    suf = m.group(2).lower()
    un, lg = 'u' in suf, 'l' in suf
    for w, sg in ((32, True), (32, False), (64, True), (64, False)):
        if w == 32 and lg:
            continue
        if sg and un:
            continue
        if not sg and not un and not hexa:
            continue
        if v < 1 << (w - (1 if sg else 0)):
            return V(IT(w, sg), const(v, w))
    raise Bad('literal %s' % s)
