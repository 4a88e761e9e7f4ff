"""C03: basis functions (solver_classes/functions.py) and their edge values (numerical_flux.B_LR_func)."""
from fractions import Fraction as Fr
from pyded.ctx import Task
from .polys import leg, cheb, pder, pmul, integral

FN = 'solver_classes/functions.py:'


def f(c, x):
    return c.q(Fr(x).numerator, Fr(x).denominator)


def poly(c, p, z):
    r = 0
    for k, v in enumerate(p):
        if v:
            r = r + f(c, v) * z ** k
    return r


def cell(c):
    a, h = c.real('a'), c.real('h', pos=True)
    return a, h, a + h


def values(c, which, n):
    """point-by-point values for every number of points and every cell"""
    m = c.module('solver_classes.functions')
    a, h, b = cell(c)
    if n is None:
        n = c.int('n', 0, conc=[0, 1, 2, 7, 15])
    k = c.int('points', 1)
    x = c.array('x', k)
    z = lambda i: (2 * x[i] - a - b) / h
    if which == 'normPn':
        c.check_eq(which, c.call(which, m.normPn, n, x, a, b), lambda i: c.sqrt((2 * n + 1) / h) * c.legendre(n, z(i)))
    elif which == 'Pn':
        c.check_eq(which, c.call(which, m.Pn, n, x, a, b), lambda i: c.legendre(n, x[i]))
    elif which == 'normTn':
        N = 1 / c.sqrt(2) if n == 0 else 1
        c.check_eq(which, c.call(which, m.normTn, n, x, a, b), lambda i: N * c.sqrt(2 / (c.pi * h)) * poly(c, cheb(n), z(i)))
    elif which == 'eval_Tn':
        y = c.real('y')
        c.check_eq('scalar', c.call(which, m.eval_Tn, n, y), poly(c, cheb(n), y))
        c.check_eq('array', c.call(which, m.eval_Tn, n, x), lambda i: poly(c, cheb(n), x[i]))
    elif which == 'dx_normPn':
        c.check_eq(which, c.call(which, m.dx_normPn, n, x, a, b), lambda i: c.sqrt((2 * n + 1) / h) * poly(c, pder(leg(n)), z(i)) * 2 / h)
    elif which == 'scalar':
        y = c.real('y')
        zz = (2 * y - a - b) / h
        c.check_eq('normPn_scalar', c.call(which, m.normPn_scalar, n, y, a, b), c.sqrt((2 * n + 1) / h) * c.legendre(n, zz))
        c.check_eq('Pn_scalar', c.call(which, m.Pn_scalar, n, y, a, b), c.legendre(n, y))
    if which not in ('scalar',):
        c.check_eq('points unchanged', x, lambda i: c.array('x', k)[i] if c.symbolic else c.record['x'][i])


def weight(c):
    """the weight is w dx = 2/sqrt(1-z^2) dx, under which the spherical basis is orthonormal"""
    m = c.module('solver_classes.functions')
    a, h, b = cell(c)
    k = c.int('points', 1)
    z = c.array('z', k, gen=lambda r, s: r.uniform(-0.95, 0.95, s), each=lambda v, i: c.and_(v > -1, v < 1))
    x = c.vec(k, lambda i: (a + b) / 2 + h / 2 * z[i])
    w = c.call('weight_func_Tn', m.weight_func_Tn, x, a, b)
    c.check_eq('weight', w, lambda i: 2 / c.sqrt(1 - z[i] * z[i]))


def orthonormal(c, n):
    """exact integrals of the products of the polynomials the value contracts give"""
    m = c.module('solver_classes.functions')
    z = c.real('z')
    # the cell [-1, 1]: normPn = sqrt((2n+1)/2) P_n, normTn = nu_n sqrt(1/pi) T_n
    for i in range(n + 1):
        for j in range(n + 1):
            L = Fr(2 * i + 1, 1) * integral(pmul(leg(i), leg(j))) / 2
            c.same('Legendre', L, Fr(int(i == j)))
            # weight 2/sqrt(1-z^2) with nu_i nu_j/pi:  integral of z^k/sqrt(1-z^2) = pi (k-1)!!/k!!
            T = Fr(0)
            for k, v in enumerate(pmul(cheb(i), cheb(j))):
                if k % 2 == 0:
                    d = Fr(1)
                    for q in range(2, k + 1, 2):
                        d *= Fr(q - 1, q)
                    T += v * d
            T = T * 2 * (Fr(1, 2) if i == 0 and j == 0 else 1)
            c.same('Chebyshev', T, Fr(int(i == j)))


def edges(c, geo, n):
    """numerical_flux's edge values are the basis functions evaluated at the edges"""
    m = c.module('solver_classes.functions')
    fl = c.module('solver_classes.numerical_flux')
    a, h, b = cell(c)
    lu = c.raw(fl.LU_surf)
    lu.geometry = c.dict({'slab': int(geo == 'slab'), 'sphere': int(geo == 'sphere')})
    B = c.call('B_LR_func', lu.B_LR_func, n, c.sqrt(h))
    fn = m.normPn if geo == 'slab' else m.normTn
    v = c.call('basis', fn, n, c.arr([a, b]), a, b)
    c.check_eq('left edge', B[0], v[0])
    c.check_eq('right edge', B[1], v[1])


def tasks(tier):
    ts = []
    for w in ('normPn', 'Pn', 'scalar'):
        ts.append(Task('%s-any-degree' % w, values, dict(which=w, n=None), functions=[FN + x for x in ([w] if w != 'scalar' else ['normPn_scalar', 'Pn_scalar'])]))
        for n in ([0, 3] if tier == 'quick' else range(13)):
            ts.append(Task('%s-%d' % (w, n), values, dict(which=w, n=n), functions=[FN + x for x in ([w] if w != 'scalar' else ['normPn_scalar', 'Pn_scalar'])]))
    for n in range(13):
        ts.append(Task('normTn-%d' % n, values, dict(which='normTn', n=n), functions=[FN + 'normTn', FN + 'kronecker', FN + 'eval_Tn'], conc=12))
        ts.append(Task('eval_Tn-%d' % n, values, dict(which='eval_Tn', n=n), functions=[FN + 'eval_Tn'], conc=12))
        if n <= 11:
            ts.append(Task('dx_normPn-%d' % n, values, dict(which='dx_normPn', n=n), functions=[FN + 'dx_normPn'], conc=12))
    ts.append(Task('weight', weight, functions=[FN + 'weight_func_Tn']))
    ts.append(Task('orthonormal', orthonormal, dict(n=12), conc=1))
    for geo in ('slab', 'sphere'):
        for n in range(13):
            ts.append(Task('edges-%s-%d' % (geo, n), edges, dict(geo=geo, n=n), functions=['solver_classes/numerical_flux.py:LU_surf.B_LR_func'], conc=12))
    return ts
