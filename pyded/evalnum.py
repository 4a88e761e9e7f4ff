"""High-precision numeric evaluation of terms under a concrete environment."""
from fractions import Fraction as Fr
import mpmath
from mpmath import mp, mpf
from . import terms as tm

mp.dps = 34


class Bad(Exception):
    pass


def _legendre(n, x):
    n = int(n)
    p0, p1 = mpf(1), x
    if n == 0:
        return p0
    for k in range(1, n):
        p0, p1 = p1, ((2 * k + 1) * x * p1 - k * p0) / (k + 1)
    return p1


FN = {
    'exp': lambda a: mpmath.exp(a),
    'erf': lambda a: mpmath.erf(a),
    'expi': lambda a: mpmath.ei(a),
    'sin': mpmath.sin, 'cos': mpmath.cos, 'log': mpmath.log, 'tan': mpmath.tan,
    'arcsin': mpmath.asin, 'arctan': mpmath.atan,
    'legendre': _legendre,
    'floor': lambda a: mpf(int(mpmath.floor(a))),
    'idiv': lambda a, b: mpmath.floor(a / b),
    'mod': lambda a, b: a - b * mpmath.floor(a / b),
    'powf': lambda a, b: mpmath.power(a, b),
}


def to_mp(v):
    if isinstance(v, Fr):
        return mpf(v.numerator) / mpf(v.denominator)
    return mpf(v)


class Env:
    def __init__(self, scalars, arrays, ufs=None):
        self.scalars = scalars       # name -> number
        self.arrays = arrays         # name -> callable(idx ints) -> number
        self.ufs = ufs or {}         # name -> callable(mp args)
        self.memo = {}
        self.steps = 0

    def ev(self, t, bound=None):
        b = bound or {}
        usemem = not b or not any(v in t.fv for v in b)
        if usemem:
            r = self.memo.get(t)
            if r is not None:
                return r
        r = self._ev(t, b)
        if usemem:
            self.memo[t] = r
        return r

    def _ev(self, t, b):
        self.steps += 1
        if self.steps > 2000000:
            raise Bad('too large')
        op = t.op
        if op == 'const':
            return to_mp(t.data)
        if op == 'var':
            if b and t in b.keys():
                return b[t]
            if t is tm.PI:
                return mp.pi + 0
            if t.data not in self.scalars:
                raise Bad('no value for ' + t.data)
            return to_mp(self.scalars[t.data])
        if op == 'bconst':
            return t.data
        if op == 'add':
            return mpmath.fsum([self.ev(a, b) for a in t.args])
        if op == 'mul':
            r = mpf(1)
            for a in t.args:
                r *= self.ev(a, b)
            return r
        if op == 'pow':
            x = self.ev(t.args[0], b)
            e = t.data
            if e.denominator == 1:
                if e < 0 and x == 0:
                    raise Bad('division by zero')
                return x ** int(e)
            if x < 0:
                raise Bad('root of negative')
            if x == 0 and e < 0:
                raise Bad('division by zero')
            return mpmath.power(x, to_mp(e))
        if op == 'fn':
            args = [self.ev(a, b) for a in t.args]
            n = t.data
            if n in FN:
                try:
                    r = FN[n](*args)
                except (ValueError, ZeroDivisionError):
                    raise Bad(n)
                if isinstance(r, mpmath.mpc):
                    raise Bad('complex')
                if not mpmath.isfinite(r):
                    raise Bad('inf')
                return r
            if n in self.arrays:
                return to_mp(self.arrays[n](*[int(a) for a in args]))
            if n in self.ufs:
                return to_mp(self.ufs[n](*args))
            raise Bad('no function ' + n)
        if op == 'ite':
            return self.ev(t.args[1] if self.ev(t.args[0], b) else t.args[2], b)
        if op == 'lt0':
            return self.ev(t.args[0], b) < 0
        if op == 'eq0':
            x = self.ev(t.args[0], b)
            return abs(x) < mpf(10) ** -28
        if op == 'not':
            return not self.ev(t.args[0], b)
        if op == 'and':
            return all(self.ev(a, b) for a in t.args)
        if op == 'sum':
            v, n, body = t.args
            n = int(self.ev(n, b))
            b2 = dict((k, x) for k, x in b.items())
            r = mpf(0)
            for i in range(n):
                b2[v] = mpf(i)
                r += self.ev(body, b2)
            return r
        raise Bad(op)
