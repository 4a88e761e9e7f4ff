"""C02: spherical cell matrices (solver_classes/matrices.py, GMAT_sphere.py, functions.sqrt_two_mass_func)."""
from fractions import Fraction as Fr
from pyded.ctx import Task
from .polys import cheb, pmul, pder, moment

MAT = 'solver_classes/matrices.py:G_L.'
FUNCS = [MAT + f for f in ('__init__', 'make_L', 'make_G', 'make_all_matrices', 'make_mass_sphere', 'make_J_sphere', 'make_G_sphere', 'make_L_sphere', 'make_MPRIME')] + \
    ['solver_classes/GMAT_sphere.py:GMatrix', 'solver_classes/GMAT_sphere.py:MPRIME', 'solver_classes/functions.py:sqrt_two_mass_func']
ASSUMES = ['the coefficient tables passed to G_L encode the exact integrals in the table layout (the table files are not part of the repository)']


def f(c, x):
    x = Fr(x)
    return c.q(x.numerator, x.denominator)


def quad_form(i, j):
    """integral of T_i T_j (s + h z/2)^2 dz = k0 s^2 + k1 s h + k2 h^2, as coefficients of (L^2, L R, R^2), s=(L+R)/2, h=R-L"""
    p = pmul(cheb(i), cheb(j))
    return to_LR(moment(p, 0), moment(p, 1), moment(p, 2) / 4)


def to_LR(k0, k1, k2):
    # s^2 = (L^2+2LR+R^2)/4 ; s h = (R^2-L^2)/2 ; h^2 = L^2-2LR+R^2
    return (k0 / 4 - k1 / 2 + k2, k0 / 2 - 2 * k2, k0 / 4 + k1 / 2 + k2)


def root2(i, j):
    """exponent of 1/sqrt(2) in the normalisation of B_i B_j"""
    return (i == 0) + (j == 0)


def sphere(c, M, entry, history):
    m = c.module('solver_classes.matrices')
    b = c.build(M=M, Msigma=0, geometry=c.dict({'slab': 0, 'sphere': 1}))
    n = M + 1
    D = {}
    for nm in ('Mass', 'J', 'L'):
        D[nm] = c.array('denom_' + nm, (n, n), gen=lambda r, s: r.randint(1, 9, s), each=lambda v, i, j: v > 0)

    def rtf(i, j):
        # layout of the mass tables: entry * rtf / pi / denom; rtf = sqrt2 or 1/sqrt2 in row or column 0
        if root2(i, j) != 1:
            return 0
        return 1 if (i + j) % 2 == 0 else -1

    def even(i, j, k):
        i, j, k = int(i), int(j), int(k)
        if (i + j) % 2:
            return 0
        return f(c, Fr(quad_form(i, j)[k]) / 2 ** ((root2(i, j) + rtf(i, j)) // 2)) * D['Mass'][i, j]

    def odd(i, j, k):
        i, j, k = int(i), int(j), int(k)
        if (i + j) % 2 == 0 or k > 1:
            return 0
        return f(c, Fr(quad_form(i, j)[2 * k]) / 2 ** ((root2(i, j) + rtf(i, j)) // 2)) * D['Mass'][i, j]

    def J(i, j, k):
        i, j, k = int(i), int(j), int(k)
        p = pmul(cheb(i), cheb(j))
        m0, m1 = moment(p, 0), moment(p, 1)
        v = (m0 / 2 - m1 / 2, m0 / 2 + m1 / 2)[k]
        return f(c, v / (2 if i == 0 and j == 0 else 1)) * D['J'][i, j]

    def lform(i, j):
        p = pmul(pder(cheb(i)), cheb(j))
        return to_LR(2 * moment(p, 0), 2 * moment(p, 1), moment(p, 2) / 2)     # (2/h) * integral = form / h

    def L_odd(i, j, k):
        i, j, k = int(i), int(j), int(k)
        if i == 0 or (i + j) % 2 == 0:
            return 0
        x = -Fr(lform(i, j)[k])           # divided by (L - R) in the table layout
        return f(c, x / (2 if j == 0 else 1)) * D['L'][i, j]

    def L_even(i, j, k):
        i, j, k = int(i), int(j), int(k)
        if i == 0 or (i + j) % 2 or k > 1:
            return 0
        q = lform(i, j)                   # q0 L^2 + q1 L R + q2 R^2, divisible by (R - L)
        assert q[0] + q[1] + q[2] == 0
        x = (-q[0], q[2])[k]
        return f(c, Fr(x) / (2 if j == 0 else 1)) * D['L'][i, j]
    ones2 = c.vec((n, n), lambda i, j: 1)
    ones3 = c.vec((1, n, n), lambda i, j, k: 1)
    ones4 = c.vec((1, n, n, 2), lambda i, j, k, l: 1)
    g = c.call('__init__', m.G_L, b, D['Mass'], D['J'], ones2, D['L'], ones3,
               c.vec((n, n, 3), even), c.vec((n, n, 2), odd), c.vec((n, n, 2), J), c.vec((n, n, 3), lambda i, j, k: 1),
               c.vec((n, n, 2), L_even), c.vec((n, n, 3), L_odd), ones4, ones4)
    a = c.real('left', nonneg=True)
    h = c.real('width', pos=True)
    r = a + h
    da, dr = c.real('dleft'), c.real('dright')
    if history == 'call':       # a real call for another cell, possibly of the same width or with the same left edge
        a1, h1 = c.real('earlier_left', nonneg=True), c.real('earlier_width', pos=True)
        same = c.int('same', 0, 2)
        a1, h1 = c.ite(c.eq(same, 1), a, a1), c.ite(c.eq(same, 2), h, h1)
        c.call('make_all_matrices', g.make_all_matrices, a1, a1 + h1, c.real('earlier_dleft'), c.real('earlier_dright'))
    elif history:
        # some other cell was built before; rows the code never writes are zero (established by __init__)
        for nm in ('G', 'MPRIME', 'Mass', 'J'):
            setattr(g, nm, c.array('old_' + nm, (n, n)))
        oL = c.array('old_L', (n, n))
        g.L = c.vec((n, n), lambda i, j: c.ite(i >= 1, oL[i, j], 0))
    if entry == 'all':
        c.call('make_all_matrices', g.make_all_matrices, a, r, da, dr)
    else:
        c.call('make_MPRIME', g.make_MPRIME, a, r, da, dr)
        c.call('make_L', g.make_L, a, r)
        c.call('make_mass_sphere', g.make_mass_sphere, a, r)
        c.call('make_J_sphere', g.make_J_sphere, a, r)
        c.call('make_G', g.make_G, a, r, da, dr)

    def norm(i, j):
        e = root2(int(i), int(j))
        return (1 if e == 0 else 1 / c.sqrt(2) if e == 1 else c.q(1, 2)) / c.pi
    s, dh, ds = (a + r) / 2, dr - da, (da + dr) / 2

    def form(p):
        return f(c, moment(p, 0)) * s * s + f(c, moment(p, 1)) * s * h + f(c, moment(p, 2) / 4) * h * h

    def Mass(i, j):
        i, j = int(i), int(j)
        return norm(i, j) * form(pmul(cheb(i), cheb(j)))

    def Jm(i, j):
        p = pmul(cheb(int(i)), cheb(int(j)))
        return norm(i, j) * (f(c, moment(p, 0)) * s + f(c, moment(p, 1)) * h / 2)

    def Lm(i, j):
        i, j = int(i), int(j)
        return norm(i, j) * 2 / h * form(pmul(pder(cheb(i)), cheb(j)))

    def Gm(i, j):
        # dB_i/dt = n_i sqrt(2/pi) [ -h'/(2 h^{3/2}) T_i + h^{-1/2} T_i' zdot ],  zdot = -2 s'/h - z h'/h
        i, j = int(i), int(j)
        T = pmul(cheb(i), cheb(j))
        U = pmul(pder(cheb(i)), cheb(j))
        zU = [Fr(0)] + list(U)
        return norm(i, j) * (-dh / h / 2 * form(T) - 2 * ds / h * form(U) - dh / h * form(zU))

    def Mp(i, j):
        p = pmul(cheb(int(i)), cheb(int(j)))
        return norm(i, j) * (2 * f(c, moment(p, 0)) * s * ds + f(c, moment(p, 1)) * (ds * h + s * dh) + f(c, moment(p, 2) / 2) * h * dh)
    c.check_eq('Mass', g.Mass, Mass)
    c.check_eq('J', g.J, Jm)
    c.check_eq('L', g.L, Lm)
    c.check_eq('G', g.G, Gm)
    c.check_eq('MPRIME', g.MPRIME, Mp)


def tasks(tier):
    ts = []
    for M in ([0, 1, 2, 4, 10] if tier == 'quick' else list(range(0, 11))):
        for history in (False, True):
            if tier == 'quick' and M in (0, 2) and history is False:
                continue
            ts.append(Task('sphere-M%d-%s' % (M, 'rebuild' if history else 'first'), sphere, dict(M=M, entry='all', history=history), functions=FUNCS, budget=600))
    for M in (1, 3):
        ts.append(Task('sphere-M%d-again' % M, sphere, dict(M=M, entry='all', history='call'), functions=FUNCS, budget=200))
    ts.append(Task('sphere-M3-single', sphere, dict(M=3, entry='single', history=True), functions=FUNCS, budget=200))
    return ts
