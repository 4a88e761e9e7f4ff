"""C08: opacity expansion and absorption term (solver_classes/opacity.py)."""
from pyded.ctx import Task

FILE = 'solver_classes/opacity.py'
F = lambda *n: [FILE + ':sigma_integrator.' + x for x in n]
KINDS = ['constant', 'gaussian', 'siewert1', 'siewert2', 'fake_sedov']


def make(c, kind, M, Ms, N, Q, kinds=KINDS):
    m = c.module('solver_classes.opacity')
    b = c.build(sigma_t=c.real('st'), sigma_s=c.real('ss'), sigma_func=c.dict({k: int(k == kind) for k in kinds}),
              M=M, Msigma=Ms, xs_quad=c.array('xq', Q), ws_quad=c.array('wq', Q), N_space=N, fake_sedov_v0=c.real('v0'))
    return b, c.call('__init__', m.sigma_integrator, b)


def sigma(c, b, kind, x, t):
    if kind == 'constant':
        return 1
    if kind == 'gaussian':
        return c.exp(-x * x / 8)
    if kind == 'siewert1':
        return c.exp(-x - c.q(5, 2))
    if kind == 'siewert2':
        return c.exp(-x * c.q(1, 10**11))
    xi = -x - 1 - b.fake_sedov_v0 * t
    return c.exp(-xi * xi / 4) * c.ite(-xi - 1 < 0, 0, 1) + c.q(1, 5) * c.ite(xi + 1 < 0, 0, 1)


def coeff(c, b, kind, e, t, k, j):
    """quadrature projection of the profile on the j-th normalised Legendre function of cell k"""
    lo, hi = e[k], e[k + 1]
    return (hi - lo) / 2 * c.sum(len_q(b), lambda q: b.ws_quad[q] * sigma(c, b, kind, (hi - lo) / 2 * b.xs_quad[q] + (lo + hi) / 2, t)
                                 * c.sqrt((2 * j + 1) / (hi - lo)) * c.legendre(j, b.xs_quad[q]))


def len_q(b):
    return b.xs_quad.shape[0]


def first(c, kind, M, Ms):
    N, Q = c.int('N', 1), c.int('Q', 1)
    # a deck may list the later options or not
    b, s = make(c, kind, M, Ms, N, Q, c.choice('listed', [KINDS, KINDS[:KINDS.index(kind) + 1], KINDS + ['linear']]))
    e = c.array('edges', N + 1, axioms='increasing')
    t = c.real('t', nonneg=True)
    c.call('sigma_moments', s.sigma_moments, e, t)
    c.check_eq('cs', s.cs, lambda k, j: coeff(c, b, kind, e, t, k, j))


def again(c, kind, M, Ms):
    """invariant: the stored coefficients are those of the stored edges (at some earlier time); the next update re-establishes it"""
    N, Q = c.int('N', 1), c.int('Q', 1)
    b, s = make(c, kind, M, Ms, N, Q)
    e0 = c.array('edges_before', N + 1, axioms='increasing')
    t0 = c.real('t_before', nonneg=True)
    e = c.array('edges', N + 1, axioms='increasing')
    t = c.real('t', nonneg=True)
    same = c.choice('same_edges', ['unrelated', 'identical', 'shared'])
    if same == 'identical':
        e = e0
    elif same == 'shared':
        k0 = c.int('k0', 0)
        c.assume(k0 < N)
        c.assume(e[k0] == e0[k0])
        c.assume(e[k0 + 1] == e0[k0 + 1])
    s.edges = e0
    s.cs = c.vec((N, Ms + 1), lambda k, j: coeff(c, b, kind, e0, t0, k, j))
    c.call('sigma_moments', s.sigma_moments, e, t)
    c.check_eq('cs', s.cs, lambda k, j: coeff(c, b, kind, e, t, k, j))


def twice(c, kind, M, Ms):
    """two real updates of one object, the second possibly on the same edges or at the same time"""
    N, Q = c.int('N', 1), c.int('Q', 1)
    b, s = make(c, kind, M, Ms, N, Q)
    e0, t0 = c.array('edges_before', N + 1, axioms='increasing'), c.real('t_before', nonneg=True)
    e, t = c.array('edges', N + 1, axioms='increasing'), c.real('t', nonneg=True)
    same = c.choice('same', ['nothing', 'edges', 'time'])
    if same == 'edges':
        e = e0.copy()
    elif same == 'time':
        t = t0
    kept = e.copy()
    c.call('sigma_moments', s.sigma_moments, e0, t0)
    c.call('sigma_moments', s.sigma_moments, e, t)
    c.check_eq('cs', s.cs, lambda k, j: coeff(c, b, kind, e, t, k, j))
    c.check_eq('edges are not modified', e, kept)


def triple(c, M, Ms):
    """the table equals the exact integrals whenever the quadrature rule integrates monomials up to the product degree exactly"""
    Q = c.int('Q', 2 * M + Ms + 1, conc=[2 * M + Ms + 1])
    if not c.symbolic:
        from numpy.polynomial.legendre import leggauss
        xs, ws = leggauss(Q)
        c.env.update(xq=xs.tolist(), wq=ws.tolist())
    b, s = make(c, 'constant', M, Ms, 1, Q)
    if c.symbolic:
        for n in range(2 * M + Ms + 1):
            c.assume(c.eq(c.sum(Q, lambda q: b.ws_quad[q] * b.xs_quad[q] ** n), c.q(2, n + 1) if n % 2 == 0 else 0))

    def want(i, j, k):
        i, j, k = int(i), int(j), int(k)
        return c.sqrt((2 * i + 1) * (2 * j + 1) * (2 * k + 1)) / 2 * frac(c, triple_int(i, j, k))
    c.check_eq('AAA', s.AAA, want)
    c.check_eq('sigma_a', s.sigma_a, b.sigma_t - b.sigma_s)


def frac(c, f):
    return c.q(f.numerator, f.denominator)


def triple_int(i, j, k):
    from fractions import Fraction as Fr

    def leg(n):
        a, b = [Fr(1)], [Fr(0), Fr(1)]
        if n == 0:
            return a
        for m in range(1, n):
            nxt = [Fr(0)] * (m + 2)
            for p, v in enumerate(b):
                nxt[p + 1] += Fr(2 * m + 1, m + 1) * v
            for p, v in enumerate(a):
                nxt[p] -= Fr(m, m + 1) * v
            a, b = b, nxt
        return b

    def mul(p, q):
        r = [Fr(0)] * (len(p) + len(q) - 1)
        for x, u in enumerate(p):
            for y, v in enumerate(q):
                r[x + y] += u * v
        return r
    p = mul(mul(leg(i), leg(j)), leg(k))
    return sum((v * Fr(2, n + 1) for n, v in enumerate(p) if n % 2 == 0), Fr(0))


def absorb(c, kind, M, Ms):
    N, Q = c.int('N', 1), 1
    b, s = make(c, kind, M, Ms, N, Q)
    s.VV = c.array('VV_before', M + 1)
    s.cs = c.array('cs', (N, Ms + 1))
    s.AAA = c.array('AAA', (M + 1, M + 1, Ms + 1))
    e = c.array('edges', N + 1, axioms='increasing')
    u = c.array('u', M + 1)
    k = c.int('space', 0)
    c.assume(k < N)
    cs, A = s.cs, s.AAA
    c.call('make_vectors', s.make_vectors, e, u, k)
    if kind == 'constant':
        c.check_eq('VV', s.VV, lambda i: b.sigma_t * u[i])
    else:
        c.check_eq('VV', s.VV, lambda i: b.sigma_t * sum((cs[k, l] * u[j] * A[i, j, l] for j in range(M + 1) for l in range(Ms + 1)), 0) / c.sqrt(e[k + 1] - e[k]))
    c.check_eq('u unchanged', u, c.array('u', M + 1) if c.symbolic else c.record['u'])
    # a later call gives the value for its own cell, edges, state and opacity coefficients
    u2, k2 = c.array('u2', M + 1), c.int('space2', 0)
    c.assume(k2 < N)
    e2 = c.array('edges2', N + 1, axioms='increasing')
    s.cs = cs2 = c.array('cs2', (N, Ms + 1))
    c.call('make_vectors', s.make_vectors, e2, u2, k2)
    if kind == 'constant':
        c.check_eq('VV again', s.VV, lambda i: b.sigma_t * u2[i])
    else:
        c.check_eq('VV again', s.VV, lambda i: b.sigma_t * sum((cs2[k2, l] * u2[j] * A[i, j, l] for j in range(M + 1) for l in range(Ms + 1)), 0) / c.sqrt(e2[k2 + 1] - e2[k2]))


def tasks(tier):
    ts = []
    big = tier != 'quick'
    upd = F('__init__', 'sigma_moments', 'integrate_moments', 'sigma_function', 'xi2', 'heaviside_vector')
    for kind in KINDS:
        for Ms in ([0, 2] if not big else [0, 1, 2, 4]):
            ts.append(Task('first-%s-Ms%d' % (kind, Ms), first, dict(kind=kind, M=1, Ms=Ms), functions=upd, budget=100))
            ts.append(Task('twice-%s-Ms%d' % (kind, Ms), twice, dict(kind=kind, M=1, Ms=Ms), functions=upd, budget=100))
            ts.append(Task('again-%s-Ms%d' % (kind, Ms), again, dict(kind=kind, M=1, Ms=Ms), functions=upd, budget=100))
        for M, Ms in ([(0, 0), (2, 1)] if not big else [(0, 0), (1, 2), (2, 1), (3, 3)]):
            ts.append(Task('absorb-%s-M%d-Ms%d' % (kind, M, Ms), absorb, dict(kind=kind, M=M, Ms=Ms), functions=F('make_vectors'), budget=100))
    for M, Ms in ([(0, 0), (1, 2), (3, 2)] if not big else [(0, 0), (1, 2), (2, 4), (3, 3), (5, 3)]):
        ts.append(Task('triple-M%d-Ms%d' % (M, Ms), triple, dict(M=M, Ms=Ms), functions=F('__init__', 'create_integral_matrices', 'both_even_or_odd', 'integrate_quad'), budget=200))
    return ts
