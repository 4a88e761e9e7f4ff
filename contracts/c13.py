"""C13: quadrature rules and evaluation nodes (solver_classes/functions.py)."""
from pyded.ctx import Task
from contracts.c03 import poly
from contracts.c11 import geom
from contracts.polys import leg, pder

F = 'solver_classes/functions.py:'
ASSUMES = ['three-term recurrence of the Legendre polynomials at symbolic order',
           'numpy.polynomial.legendre.leggauss(n) returns n increasing nodes in (-1, 1) and their weights (external)',
           'scipy.special.eval_legendre is the Legendre polynomial (external)',
           'the Newton iteration for a Gauss-Lobatto node converges to the root next to its starting point']


RULES = ('gauss_legendre', 'chebyshev', 'gauss_lobatto')


def used_before(c, m, n, name):
    """rules asked for earlier -- every kind with the same number of points, and the same kind with another
    number -- whose arrays their callers have changed since"""
    k = c.int('earlier_n', 2, conc=[2, 3, 4, 7])
    real = m.newtons
    if c.symbolic:
        m.newtons = lambda x0, f, fp, *a, **k: c.func('root', nargs=1)(x0)
    for other, size in [(r, n) for r in RULES] + [(name, k)]:
        if other == 'gauss_lobatto' and not c.branch(size >= 2):
            continue
        xs, ws = c.call('quadrature', m.quadrature, size, other)
        xs[0], ws[0] = c.real('changed'), c.real('changed too')
    m.newtons = real


def gauss(c, again=False):
    """the Gauss-Legendre rule is passed through"""
    m = c.module('solver_classes.functions')
    n = c.int('n', 1)
    if again:
        used_before(c, m, n, 'gauss_legendre')
    xs, ws = c.call('quadrature', m.quadrature, n, 'gauss_legendre')
    X, W = leggauss(c, n)
    c.check_eq('nodes', xs, X)
    c.check_eq('weights', ws, W)


def leggauss(c, n):
    if c.symbolic:
        from pyded.shims import sym_leggauss
        return sym_leggauss(n)
    from numpy.polynomial.legendre import leggauss
    return leggauss(n)


def chebyshev(c, again=False):
    m = c.module('solver_classes.functions')
    n = c.int('n', 1, conc=[1, 2, 3, 5, 8, 13])
    if again:
        used_before(c, m, n, 'chebyshev')
    xs, ws = c.call('quadrature', m.quadrature, n, 'chebyshev')
    c.check('lengths', c.and_(c.eq(xs.shape[0], n), c.eq(ws.shape[0], n)))
    c.check_eq('nodes cos((2i-1) pi / 2n)', xs, lambda i: c.cos((2 * i + 1) * c.pi / (2 * n)))
    c.check_eq('equal weights pi/n', ws, lambda i: c.pi / n)


def lobatto(c, again=False):
    """n >= 2: end points, weights, and interior nodes at roots of P'_{n-1}"""
    m = c.module('solver_classes.functions')
    n = c.int('n', 2, conc=[2, 3, 4, 5, 8, 12, 17])
    X, _ = leggauss(c, n - 1)
    nodes = []

    def root(x0, f, fp, *a, **k):
        """contract of newtons: the root of f next to x0.  Its arguments must be P'_{n-1} and its
        derivative, and x0 must lie between two neighbouring roots of P_{n-1}"""
        y = c.real('y', gen=lambda r: r.uniform(-0.9, 0.9))
        c.assume(c.and_(y > -1, y < 1))
        recurrence(c, n - 1, y)
        c.check_eq('the function whose root is sought is the derivative of P_{n-1}', f(y), deriv(c, n - 1, y))
        c.check_eq('with its derivative', fp(y), second(c, n - 1, y))
        return c.env_root(x0)

    if again:
        used_before(c, m, n, 'gauss_lobatto')
    real = m.newtons
    if c.symbolic:
        R = c.func('root', nargs=1)
        c.env_root = R
        m.newtons = root
    try:
        xs, ws = c.call('quadrature', m.quadrature, n, 'gauss_lobatto')
    finally:
        m.newtons = real
    c.check('lengths', c.and_(c.eq(xs.shape[0], n), c.eq(ws.shape[0], n)))
    if c.symbolic:
        want = lambda i: c.ite(c.eq(i, 0), -1, c.ite(c.eq(i, n - 1), 1, R((c.at(X, i - 1) + c.at(X, i)) / 2)))
    else:
        import numpy as np
        from numpy.polynomial import legendre as L
        e = np.zeros(n)
        e[n - 1] = 1
        full = np.concatenate([[-1.0], np.sort(L.legroots(L.legder(e)).real) if n > 2 else [], [1.0]])
        want = lambda i: full[i]
    c.check_eq('end points and roots of the derivative of P_{n-1}', xs, want)
    c.check_eq('weights', ws, lambda i: c.ite(c.or_(c.eq(i, 0), c.eq(i, n - 1)), c.q(2, 1) / (n * (n - 1)),
                                              c.q(2, 1) / (n * (n - 1)) / c.legendre(n - 1, xs[i]) ** 2))


def recurrence(c, k, x):
    """k P_k = (2k-1) x P_{k-1} - (k-1) P_{k-2}, a fact about Legendre polynomials"""
    c.assume(c.eq(k * c.legendre(k, x), (2 * k - 1) * x * c.legendre(k - 1, x) - (k - 1) * c.legendre(k - 2, x)))


def deriv(c, k, x):
    return k * (x * c.legendre(k, x) - c.legendre(k - 1, x)) / (x ** 2 - 1)


def second(c, k, x):
    """from the Legendre equation (1-x^2) P'' = 2 x P' - k (k+1) P"""
    return (2 * x * deriv(c, k, x) - k * (k + 1) * c.legendre(k, x)) / (1 - x ** 2)


def derivatives(c, k):
    m = c.module('solver_classes.functions')
    x = c.real('x', gen=lambda r: r.choice([-1, 1]) * r.uniform(0.05, 0.95))
    c.assume(c.and_(c.not_(c.eq(x, 1)), c.not_(c.eq(x, -1))))
    c.check_eq('first derivative', c.call('eval_legendre_deriv', m.eval_legendre_deriv, k, x), poly(c, pder(leg(k)), x))
    if k >= 2:
        c.check_eq('second derivative', c.call('eval_second_legendre_deriv', m.eval_second_legendre_deriv, k, x), poly(c, pder(pder(leg(k))), x))


def newton(c):
    """for every function, derivative and starting point: what is returned is one Newton step away
    from a point within the tolerance (if the iteration ends)"""
    m = c.module('solver_classes.functions')
    if c.symbolic:
        f, fp, seen = c.func('f', nargs=1), c.func('fp', nargs=1), []

        def F(x):
            seen.append(x)
            return f(x)

        def D(x):
            c.assume(c.not_(c.eq(fp(x), 0)))
            return fp(x)
        tol = c.real('tol', pos=True)
        x = c.call('newtons', m.newtons, c.real('x0'), F, D, tol)
        p = seen[-1]
        c.check_eq('one Newton step from the last point', x, p - f(p) / fp(p))
        c.check('the last step is within the tolerance', c.abs(f(p) / fp(p)) <= tol)
    else:
        r0, a = c.real('r', gen=lambda r: r.uniform(-1, 1)), c.real('a', gen=lambda r: r.uniform(0.5, 2))
        x = c.call('newtons', m.newtons, r0 + c.rng.uniform(-0.3, 0.3), lambda y: a * (y - r0) + (y - r0) ** 3, lambda y: a + 3 * (y - r0) ** 2, 1e-12)
        c.check_eq('root', x, r0)


def nodes(c, geo, M):
    m = c.module('solver_classes.functions')
    M = c.int('M', 1) if M is None else M
    N = c.int('N_space', 1, conc=[1, 2, 4])
    E = c.array('edges', N + 1, axioms='increasing', gen=lambda r, s: __import__('numpy').cumsum(r.uniform(0.1, 1, s)))
    xs = c.call('find_nodes', m.find_nodes, E, M, geom(c, geo))
    Q = max(M, 1) if isinstance(M, int) else M
    c.check('the same number of nodes in every cell', c.eq(xs.shape[0], N * Q))
    X = leggauss(c, Q)[0]
    for k in c.each_index('cell', N):
        for i in c.each_index('node', Q):
            x = xs[k * Q + i]
            def rule(j):
                if geo == 'slab':
                    return c.at(X, j)
                th = (2 * (Q - 1 - j) + 1) * c.pi / (2 * Q)
                lemma(c, 'angle between 0 and pi', c.and_(0 < th, th < c.pi))
                return c.cos(th)
            h = E[k + 1] - E[k]
            z = rule(i)
            c.check_eq('node of the rule in its cell', x, E[k] + (z + 1) * h / 2)
            lemma(c, 'node of the rule inside (-1, 1)', c.and_(-1 < z, z < 1))
            lemma(c, 'cell width positive', h > 0)
            y = E[k] + (z + 1) * h / 2
            c.check('inside the cell', c.and_(E[k] < y, y < E[k + 1]))
            if c.branch(i + 1 < Q):
                z2 = rule(i + 1)
                lemma(c, 'nodes of the rule increase', z < z2)
                c.check_eq('next node', xs[k * Q + i + 1], E[k] + (z2 + 1) * h / 2)
                c.check('increasing', y < E[k] + (z2 + 1) * h / 2)


def lemma(c, label, fact):
    c.check(label, fact)
    c.assume(fact)


def tasks(tier):
    big = tier != 'quick'
    ts = [Task('gauss-legendre', gauss, functions=[F + 'quadrature']),
          Task('chebyshev', chebyshev, functions=[F + 'quadrature']),
          Task('newtons', newton, functions=[F + 'newtons'], opts=dict(while_rule=True)),
          Task('lobatto', lobatto, functions=[F + 'quadrature'], assumes=['newtons'])]
    for name, fn in (('gauss-legendre', gauss), ('chebyshev', chebyshev), ('lobatto', lobatto)):
        ts.append(Task(name + '-again', fn, dict(again=True), functions=[F + 'quadrature'], assumes=['newtons']))
    for k in range(1, 9 if not big else 21):
        ts.append(Task('legendre-derivatives-%d' % k, derivatives, dict(k=k), functions=[F + x for x in ('eval_legendre_deriv', 'eval_second_legendre_deriv')]))
    for geo in ('slab', 'sphere'):
        for M in [None] + list(range(0, 6 if not big else 13)):
            ts.append(Task('nodes-%s-M%s' % (geo, M), nodes, dict(geo=geo, M=M), functions=[F + 'find_nodes']))
    return ts
