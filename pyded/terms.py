"""Exact symbolic terms used by the verifier.

Terms are hash-consed.  Sorts: 'R' real, 'I' integer, 'B' boolean.  Machine
floats are read as exact reals (a float literal is the simplest rational that
rounds to it); see assumptions in check output.
"""
from fractions import Fraction as Fr
import math
import re

_table = {}
_ids = [0]
BYID = {}       # terms that were turned into strings


class Unsupported(Exception):
    """The verifier cannot model what the code does (never a verdict)."""


class T:
    __slots__ = ('op', 'args', 'data', 'sort', 'id', 'fv', '__weakref__')
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    # arithmetic ---------------------------------------------------------
    def __add__(self, o):
        o = lift_or_none(o)
        return NotImplemented if o is None else add(self, o)
    __radd__ = __add__

    def __sub__(self, o):
        o = lift_or_none(o)
        return NotImplemented if o is None else add(self, neg(o))

    def __rsub__(self, o):
        o = lift_or_none(o)
        return NotImplemented if o is None else add(o, neg(self))

    def __mul__(self, o):
        o = lift_or_none(o)
        return NotImplemented if o is None else mul(self, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift_or_none(o)
        return NotImplemented if o is None else div(self, o)

    def __rtruediv__(self, o):
        o = lift_or_none(o)
        return NotImplemented if o is None else div(o, self)

    def __floordiv__(self, o):
        return floordiv(self, lift(o))

    def __rfloordiv__(self, o):
        return floordiv(lift(o), self)

    def __mod__(self, o):
        return mod(self, lift(o))

    def __rmod__(self, o):
        return mod(lift(o), self)

    def __pow__(self, o):
        return power(self, lift(o))

    def __rpow__(self, o):
        return power(lift(o), self)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return hooks.abs(self)

    # comparison ---------------------------------------------------------
    def __lt__(self, o):
        o = lift_or_none(o)
        return NotImplemented if o is None else unb(lt(self, o))

    def __le__(self, o):
        o = lift_or_none(o)
        return NotImplemented if o is None else unb(le(self, o))

    def __gt__(self, o):
        o = lift_or_none(o)
        return NotImplemented if o is None else unb(lt(o, self))

    def __ge__(self, o):
        o = lift_or_none(o)
        return NotImplemented if o is None else unb(le(o, self))

    def __eq__(self, o):
        if self is o:
            return True
        o2 = lift_or_none(o)
        if o2 is None:
            return NotImplemented
        return unb(eq(self, o2))

    def __ne__(self, o):
        if self is o:
            return False
        o2 = lift_or_none(o)
        if o2 is None:
            return NotImplemented
        return unb(bnot(eq(self, o2)))

    # booleans -------------------------------------------------------------
    def __and__(self, o):
        return unb(band(as_bool(self), as_bool(lift(o))))
    __rand__ = __and__

    def __or__(self, o):
        return unb(bor(as_bool(self), as_bool(lift(o))))
    __ror__ = __or__

    def __invert__(self):
        if self.sort == 'B':
            return unb(bnot(self))
        raise Unsupported('bitwise not of number')

    def __bool__(self):
        c = as_bool(self)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        return hooks.decide(c)

    def __index__(self):
        if self.op == 'const' and self.data.denominator == 1:
            return int(self.data)
        return hooks.index(self)

    def __int__(self):
        if self.op == 'const':
            return int(self.data)
        raise Unsupported('int() of a symbolic value outside instrumented code')

    def __float__(self):
        # float-typed storage is modelled as exact reals
        if self.op == 'const':
            return float(self.data)
        raise Unsupported('float() of a symbolic value outside instrumented code')

    def __round__(self, n=None):
        return rounded(self, n)

    def __format__(self, spec):
        if not spec:
            return str(self)
        if self.op == 'const':
            return format(int(self.data) if self.sort == 'I' else float(self.data), spec)
        if self.sort not in ('R', 'I'):
            raise Unsupported('formatted ' + self.sort)
        if spec == 'd' and self.sort == 'I':
            return str(self)
        m = re.fullmatch(r'\.(\d+)f', spec)
        q = rounded(self, int(m.group(1)), True) if m else fn('text ' + spec, self)
        BYID[q.id] = q
        return '\ue000F%d:%s\ue001' % (q.id, spec)

    def __str__(self):
        """a marker that h5model.same_name understands"""
        if self.op == 'const' and self.data.denominator == 1:
            return str(int(self.data))
        if self.sort not in ('R', 'I'):
            return show(self)
        BYID[self.id] = self
        return '\ue000%s%d\ue001' % (self.sort, self.id)

    # numpy-scalar-like attributes
    @property
    def size(self):
        return 1

    @property
    def shape(self):
        return ()

    def copy(self):
        return self

    def item(self):
        return self


class Hooks:
    @staticmethod
    def decide(c):
        raise Unsupported('branch on symbolic condition outside a run: %s' % show(c))

    @staticmethod
    def index(t):
        raise Unsupported('symbolic value used as a concrete index: %s' % show(t))

    @staticmethod
    def abs(t):
        return ite(le(ZERO, t), t, neg(t))

    @staticmethod
    def divided(d):
        pass


hooks = Hooks()


def mk(op, args=(), data=None, sort='R'):
    key = (op, tuple(a.id for a in args), data, sort)
    t = _table.get(key)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.args = tuple(args)
        t.data = data
        t.sort = sort
        _ids[0] += 1
        t.id = _ids[0]
        if op == 'var':
            t.fv = frozenset((t,))
        else:
            fv = frozenset()
            for a in args:
                if a.fv:
                    fv = fv | a.fv
            if op == 'sum':
                fv = fv - {args[0]}
            t.fv = fv
        _table[key] = t
    return t


def const(fr):
    fr = Fr(fr)
    return mk('const', (), fr, 'I' if fr.denominator == 1 else 'R')


_floatcache = {}


def float_to_fraction(x):
    """Simplest rational that rounds to the float x."""
    r = _floatcache.get(x)
    if r is not None:
        return r
    if x != x or x in (math.inf, -math.inf):
        raise Unsupported('nan/inf constant')
    if x == int(x) and abs(x) < 2**70:
        r = Fr(int(x))
    else:
        s = Fr(repr(x))
        best = s
        # Stern-Brocot / continued fraction search for simplest rational
        ex = Fr(x)
        d = 1
        r = None
        for k in range(1, 40):
            d *= 4
            c = ex.limit_denominator(d)
            if float(c) == x:
                r = c
                break
        if r is None or s.denominator <= r.denominator:
            r = s
        # decimal literals win when short
        if len(repr(x)) <= 8 and r.denominator > 100:
            r = best
    _floatcache[x] = r
    return r


def lift_or_none(x):
    if isinstance(x, T):
        return x
    if x is True:
        return TRUE
    if x is False:
        return FALSE
    if isinstance(x, int):
        return const(x)
    if isinstance(x, Fr):
        return const(x)
    if isinstance(x, float):
        return mk('const', (), float_to_fraction(x), 'I' if float_to_fraction(x).denominator == 1 else 'R')
    m = type(x).__module__
    if m == 'numpy' and hasattr(x, 'item') and getattr(x, 'shape', None) == ():
        return lift_or_none(x.item())
    return None


def lift(x):
    r = lift_or_none(x)
    if r is None:
        raise Unsupported('cannot model value of type %s' % type(x).__name__)
    return r


def unb(t):
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    return t


def is_const(t):
    return t.op == 'const'


def var(name, sort='R'):
    return mk('var', (), name, sort)


_fresh = [0]


def fresh(prefix='v', sort='R'):
    _fresh[0] += 1
    return var('%s#%d' % (prefix, _fresh[0]), sort)


def num(t):
    """boolean term used as number"""
    if t.sort == 'B':
        if t is TRUE:
            return ONE
        if t is FALSE:
            return ZERO
        return mk('ite', (t, ONE, ZERO), None, 'I')
    return t


def _usort(args):
    for a in args:
        if a.sort == 'R':
            return 'R'
    return 'I'


def add(*xs):
    c = Fr(0)
    acc = {}
    order = []
    for x in xs:
        x = num(x)
        parts = x.args if x.op == 'add' else (x,)
        for p in parts:
            if p.op == 'const':
                c += p.data
                continue
            co, base = Fr(1), p
            if p.op == 'mul' and p.args[0].op == 'const':
                co = p.args[0].data
                base = mk('mul', p.args[1:], None, p.sort) if len(p.args) > 2 else p.args[1]
            if base in acc.keys():
                acc[base] += co
            else:
                acc[base] = co
                order.append(base)
    out = []
    for b in sorted(order, key=lambda z: z.id):
        co = acc[b]
        if co != 0:
            out.append(_scale(co, b))
    if c != 0 or not out:
        out.append(const(c))
    if len(out) == 1:
        return out[0]
    return mk('add', out, None, _usort(out))


def _scale(co, b):
    if co == 1:
        return b
    k = const(co)
    if b.op == 'mul':
        a = (k,) + b.args
    else:
        a = (k, b)
    return mk('mul', a, None, _usort(a))


def mul(*xs):
    c = Fr(1)
    fac = []
    for x in xs:
        x = num(x)
        parts = x.args if x.op == 'mul' else (x,)
        for p in parts:
            if p.op == 'const':
                c *= p.data
            else:
                fac.append(p)
    if c == 0:
        return ZERO
    if not fac:
        return const(c)
    # collect integer powers of identical bases
    acc = {}
    order = []
    for p in fac:
        b, e = (p.args[0], p.data) if p.op == 'pow' else (p, Fr(1))
        if b in acc.keys():
            acc[b] += e
        else:
            acc[b] = e
            order.append(b)
    out = []
    for b in sorted(order, key=lambda z: z.id):
        e = acc[b]
        if e == 0:
            continue
        q = power_c(b, e)
        if q.op == 'const':
            c *= q.data
        elif q.op == 'mul':
            out.extend(q.args)
        else:
            out.append(q)
    if not out:
        return const(c)
    if len(out) == 1:
        if c != 1 and out[0].op == 'add':
            return add(*[_scale(c, a) if a.op != 'const' else const(c * a.data) for a in _unscale(out[0])])
        return _scale(c, out[0]) if c != 1 else out[0]
    if c != 1:
        out = [const(c)] + out
    return mk('mul', out, None, _usort(out))


def _unscale(t):
    """args of an add, as terms that _scale may be applied to"""
    res = []
    for a in t.args:
        if a.op == 'mul' and a.args[0].op == 'const':
            # rebuild through mul to fold constants
            res.append(a)
        else:
            res.append(a)
    return res


def _scale_fold(co, b):
    return mul(const(co), b)


# _scale must fold constants when b already carries one
def _scale(co, b):  # noqa: F811
    if co == 1:
        return b
    if b.op == 'const':
        return const(co * b.data)
    if b.op == 'mul' and b.args[0].op == 'const':
        c2 = co * b.args[0].data
        rest = b.args[1:]
        if c2 == 1:
            return rest[0] if len(rest) == 1 else mk('mul', rest, None, _usort(rest))
        a = (const(c2),) + rest
    elif b.op == 'mul':
        a = (const(co),) + b.args
    else:
        a = (const(co), b)
    return mk('mul', a, None, _usort(a))


def neg(x):
    x = num(x)
    if x.op == 'add':
        return add(*[_scale(Fr(-1), a) for a in x.args])
    return _scale(Fr(-1), x)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    a = num(a)
    b = num(b)
    if b.op == 'const':
        if b.data == 0:
            raise ZeroDivisionError('division by zero')
        return mul(a, const(1 / b.data))
    hooks.divided(b)
    return mul(a, power_c(b, Fr(-1)))


def _iroot(n, k):
    if n < 0:
        return None
    r = round(n ** (1.0 / k)) if n < 2**52 else math.isqrt(n) if k == 2 else None
    if r is None:
        return None
    for q in (r - 1, r, r + 1):
        if q >= 0 and q ** k == n:
            return q
    return None


def power_c(b, e):
    """b ** e, e a rational constant"""
    if e == 1:
        return b
    if e == 0:
        return ONE
    if b.op == 'const':
        v = b.data
        if e.denominator == 1:
            if v == 0 and e < 0:
                raise ZeroDivisionError
            return const(v ** int(e))
        if v == 0:
            return ZERO
        n = _iroot(v.numerator, e.denominator)
        d = _iroot(v.denominator, e.denominator)
        if n is not None and d is not None:
            return const(Fr(n, d) ** e.numerator)
        if v < 0:
            raise ValueError('math domain error')
        return mk('pow', (b,), e, 'R')
    if b.op == 'pow':
        inner = b.data
        # (x^p)^q = x^(pq) is safe for integer q, and for p with even denominator (x>=0 needed anyway)
        if e.denominator == 1 or inner.denominator % 2 == 0:
            return power_c(b.args[0], inner * e)
        return mk('pow', (b,), e, 'R')
    if b.op == 'mul' and e.denominator == 1:
        return mul(*[power_c(a, e) for a in b.args])
    s = 'I' if (b.sort == 'I' and e.denominator == 1 and e > 0) else 'R'
    return mk('pow', (b,), e, s)


def power(b, e):
    b = num(b)
    e = num(e)
    if e.op == 'const':
        return power_c(b, e.data)
    if b.op == 'ite' and False:
        return b
    return fn('powf', b, e)


def sqrt(x):
    return power_c(num(lift(x)), Fr(1, 2))


def fn(name, *args, sort='R'):
    return mk('fn', tuple(lift(a) for a in args), name, sort)


def exp(x):
    x = num(lift(x))
    if x is ZERO:
        return ONE
    return fn('exp', x)


def floor(x):
    x = num(lift(x))
    if x.sort == 'I':
        return x
    if x.op == 'const':
        return const(x.data.__floor__())
    if x.op == 'add':
        ip = [a for a in x.args if a.sort == 'I']
        if ip:
            rest = add(*[a for a in x.args if a.sort != 'I'])
            return add(floor(rest), *ip)
    return fn('floor', x, sort='I')


def rounded(x, n=None, scaled=False):
    """round(x, n), half to even"""
    x = num(lift(x))
    k = const(Fr(10) ** (n or 0))
    y = mul(x, k)
    q = floor(add(y, const(Fr(1, 2))))
    tie = band(eq(q, add(y, const(Fr(1, 2)))), eq(mod(q, const(2)), ONE))
    q = ite(tie, sub(q, ONE), q)
    return q if n is None or scaled else div(q, k)


def trunc(x):
    x = num(lift(x))
    if x.sort == 'I':
        return x
    if x.op == 'const':
        return const(int(x.data))
    return mk('ite', (le(ZERO, x), floor(x), neg(floor(neg(x)))), None, 'I')


def floordiv(a, b):
    a = num(a)
    b = num(b)
    if a.op == 'const' and b.op == 'const':
        return const(a.data // b.data)
    if b.op == 'const' and b.data.denominator == 1 and a.sort == 'I' and b.data > 0:
        return floor(mul(a, const(1 / b.data)))
    if a.sort == 'I' and b.sort == 'I':
        return fn('idiv', a, b, sort='I')
    return floor(div(a, b))


def mod(a, b):
    a = num(a)
    b = num(b)
    if a.op == 'const' and b.op == 'const':
        return const(a.data % b.data)
    if a.sort == 'I' and b.sort == 'I':
        if b.op == 'const' and b.data > 0:
            # drop multiples of b
            m = b.data
            parts = a.args if a.op == 'add' else (a,)
            keep = []
            c = Fr(0)
            for p in parts:
                if p.op == 'const':
                    c += p.data
                elif p.op == 'mul' and p.args[0].op == 'const':
                    co = p.args[0].data % m
                    if co:
                        keep.append(_scale(co, mk('mul', p.args[1:], None, 'I') if len(p.args) > 2 else p.args[1]))
                else:
                    keep.append(p)
            c = c % m
            if not keep:
                return const(c)
            return fn('mod', add(*keep, const(c)), b, sort='I')
        return fn('mod', a, b, sort='I')
    return sub(a, mul(b, floor(div(a, b))))


# booleans ---------------------------------------------------------------
def as_bool(t):
    if isinstance(t, bool):
        return TRUE if t else FALSE
    if t.sort == 'B':
        return t
    if t.op == 'const':
        return FALSE if t.data == 0 else TRUE
    if t.op == 'ite' and t.args[1] is ONE and t.args[2] is ZERO:
        return t.args[0]
    return bnot(eq(t, ZERO))


def _cmpnorm(a, b):
    d = sub(num(a), num(b))
    return d


def lt(a, b):
    d = _cmpnorm(a, b)
    if d.op == 'const':
        return TRUE if d.data < 0 else FALSE
    d = _primitive(d)
    return mk('lt0', (d,), None, 'B')


def le(a, b):
    d = _cmpnorm(a, b)
    if d.op == 'const':
        return TRUE if d.data <= 0 else FALSE
    # a<=b  <=>  not (b<a)
    return bnot(lt(b, a))


def _primitive(d):
    parts = d.args if d.op == 'add' else (d,)
    g = None
    for p in parts:
        c = p.data if p.op == 'const' else (p.args[0].data if p.op == 'mul' and p.args[0].op == 'const' else Fr(1))
        c = abs(c)
        g = c if g is None else Fr(math.gcd(g.numerator * c.denominator, c.numerator * g.denominator), g.denominator * c.denominator)
    if g and g != 1:
        return add(*[_scale(1 / g, p) for p in parts])
    return d


def eq(a, b):
    if a.sort == 'B' and b.sort == 'B':
        if a is b:
            return TRUE
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return bnot(b)
        if b is FALSE:
            return bnot(a)
        return bor(band(a, b), band(bnot(a), bnot(b)))
    d = _cmpnorm(a, b)
    if d.op == 'const':
        return TRUE if d.data == 0 else FALSE
    d = _primitive(d)
    lead = d.args[0] if d.op == 'add' else d
    c = lead.args[0].data if lead.op == 'mul' and lead.args[0].op == 'const' else 1
    if c < 0:
        d = neg(d)
    return mk('eq0', (d,), None, 'B')


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,), None, 'B')


def band(*xs):
    out = []
    for x in xs:
        x = as_bool(x)
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        for y in (x.args if x.op == 'and' else (x,)):
            if y not in set(out):
                out.append(y)
    s = set(out)
    for y in out:
        if bnot(y) in s:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', sorted(out, key=lambda z: z.id), None, 'B')


def bor(*xs):
    return bnot(band(*[bnot(as_bool(x)) for x in xs]))


def implies(a, b):
    return bor(bnot(as_bool(a)), as_bool(b))


def ite(c, a, b):
    c = as_bool(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'B' and b.sort == 'B':
        return bor(band(c, a), band(bnot(c), b))
    a, b = num(a), num(b)
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk('ite', (c, a, b), None, 'R' if 'R' in (a.sort, b.sort) else 'I')


def sum_(v, n, body):
    """sum of body for integer v in [0, n)"""
    n = num(lift(n))
    if n.op == 'const':
        return add(*[subst(body, {v: const(i)}) for i in range(int(n.data))]) if n.data > 0 else ZERO
    body = num(body)
    if body is ZERO:
        return ZERO
    if body.op == 'ite' and v not in body.args[0].fv:
        c, a, b = body.args
        return ite(c, sum_(v, n, a), sum_(v, n, b))
    return mk('sum', (v, n, body), None, body.sort)


TRUE = mk('bconst', (), True, 'B')
FALSE = mk('bconst', (), False, 'B')
ZERO = const(0)
ONE = const(1)
PI = mk('var', (), 'pi', 'R')


def rebuild(t, args):
    op = t.op
    if op == 'add':
        return add(*args)
    if op == 'mul':
        return mul(*args)
    if op == 'pow':
        return power_c(args[0], t.data)
    if op == 'fn':
        n = t.data
        if n == 'exp':
            return exp(args[0])
        if n == 'floor':
            return floor(args[0])
        if n == 'idiv':
            return floordiv(*args)
        if n == 'mod':
            return mod(*args)
        if n == 'powf':
            return power(*args)
        if n in evaluators:
            return evaluators[n](t, args)
        return mk('fn', args, n, t.sort)
    if op == 'ite':
        return ite(*args)
    if op == 'lt0':
        return lt(args[0], ZERO)
    if op == 'eq0':
        return eq(args[0], ZERO)
    if op == 'not':
        return bnot(args[0])
    if op == 'and':
        return band(*args)
    if op == 'sum':
        return sum_(*args)
    raise AssertionError(op)


evaluators = {}   # fn name -> callable(t, args) -> Term  (re-simplification)


def subst(t, m):
    """capture-free substitution of variables by terms (bound vars are unique)"""
    keys = frozenset(m)
    memo = {}

    def go(t):
        if not (t.fv & keys):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == 'var':
            r = m[t]
        elif t.op == 'sum':
            r = sum_(t.args[0], go(t.args[1]), go(t.args[2]))
        else:
            r = rebuild(t, tuple(go(a) for a in t.args))
        memo[t] = r
        return r
    import sys
    if sys.getrecursionlimit() < 20000:
        sys.setrecursionlimit(20000)
    return go(t)


def replace_term(t, old, new):
    """replace every occurrence of subterm old (not under binders of its free variables)"""
    memo = {}

    def go(t):
        if t is old:
            return new
        if not t.args:
            return t
        r = memo.get(t)
        if r is None:
            if t.op == 'sum':
                r = sum_(t.args[0], go(t.args[1]), go(t.args[2]))
            else:
                na = tuple(go(a) for a in t.args)
                r = t if all(x is y for x, y in zip(na, t.args)) else rebuild(t, na)
            memo[t] = r
        return r
    return go(t)


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(x.args)


def show(t, depth=12):
    if depth <= 0:
        return '…'
    op = t.op
    d = depth - 1
    if op == 'const':
        return str(t.data)
    if op == 'var':
        return t.data
    if op == 'bconst':
        return str(t.data)
    if op == 'add':
        return '(' + ' + '.join(show(a, d) for a in t.args) + ')'
    if op == 'mul':
        return '*'.join(show(a, d) for a in t.args)
    if op == 'pow':
        return '%s^(%s)' % (show(t.args[0], d), t.data)
    if op == 'fn':
        return '%s(%s)' % (t.data, ', '.join(show(a, d) for a in t.args))
    if op == 'ite':
        return 'ite(%s, %s, %s)' % tuple(show(a, d) for a in t.args)
    if op == 'lt0':
        return '(%s < 0)' % show(t.args[0], d)
    if op == 'eq0':
        return '(%s == 0)' % show(t.args[0], d)
    if op == 'not':
        return '!' + show(t.args[0], d)
    if op == 'and':
        return '(' + ' & '.join(show(a, d) for a in t.args) + ')'
    if op == 'sum':
        return 'Sum[%s<%s](%s)' % tuple(show(a, d) for a in t.args)
    return op


def names_bang(t):
    """does the term mention a defined symbol (found!, first!, searchsorted!)?"""
    return any(x.op == 'fn' and '!' in str(x.data) for x in subterms(t))


def opaque(t):
    """does the term mention something the arithmetic solver treats as unknown (a sum, a transcendental function, an integer division)?"""
    return any(x.op == 'sum' or (x.op == 'fn' and str(x.data).split('(')[0] in ('exp', 'erf', 'expi', 'sin', 'cos', 'log', 'arcsin', 'arctan', 'tan', 'powf', 'idiv', 'mod', 'floor', 'trunc', 'legendre', 'searchsorted'))
               for x in subterms(t))
