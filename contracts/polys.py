"""exact rational polynomials used by specifications (Legendre, Chebyshev)"""
from fractions import Fraction as Fr
from functools import lru_cache


def padd(p, q):
    n = max(len(p), len(q))
    return [(p[i] if i < len(p) else 0) + (q[i] if i < len(q) else 0) for i in range(n)]


def pmul(p, q):
    r = [Fr(0)] * (len(p) + len(q) - 1)
    for x, u in enumerate(p):
        if u:
            for y, v in enumerate(q):
                r[x + y] += u * v
    return r


def pder(p):
    return [k * v for k, v in enumerate(p)][1:] or [Fr(0)]


def integral(p):
    """integral over [-1, 1]"""
    return sum((v * Fr(2, k + 1) for k, v in enumerate(p) if k % 2 == 0), Fr(0))


@lru_cache(None)
def leg(n):
    if n == 0:
        return [Fr(1)]
    if n == 1:
        return [Fr(0), Fr(1)]
    a, b = leg(n - 1), leg(n - 2)
    return padd([Fr(0)] + [Fr(2 * n - 1, n) * v for v in a], [-Fr(n - 1, n) * v for v in b])


@lru_cache(None)
def cheb(n):
    if n == 0:
        return [Fr(1)]
    if n == 1:
        return [Fr(0), Fr(1)]
    return padd([Fr(0)] + [2 * v for v in cheb(n - 1)], [-v for v in cheb(n - 2)])


def moment(p, k):
    """integral of z^k p(z) over [-1,1]"""
    return integral([Fr(0)] * k + list(p))
