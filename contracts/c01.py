"""C01: slab cell matrices (solver_classes/matrices.py)."""
from pyded.ctx import Task
from .polys import leg, pmul, pder, moment

FILE = 'solver_classes/matrices.py'
FUNCS = [FILE + ':G_L.' + f for f in ('__init__', 'make_L', 'make_G', 'make_all_matrices', 'make_L_slab', 'make_G_slab')]
ASSUMES = ['orders above the enumerated ones: textbook Legendre facts P0=1, P1=x, orthogonality, P_{n+1}\'=P_{n-1}\'+(2n+1)P_n and x P_n\'=P_{n-1}\'+n P_n (the closed forms are derived from them in contract lemma-*)']


def make(c, M):
    m = c.module('solver_classes.matrices')
    b = c.build(M=M, Msigma=0, geometry=c.dict({'slab': 1, 'sphere': 0}))
    z2 = c.vec((1, 1), lambda i, j: 1)
    z3 = c.vec((1, 1, 1), lambda i, j, k: 1)
    z4 = c.vec((1, 1, 1, 1), lambda i, j, k, l: 1)
    return c.call('__init__', m.G_L, b, z2, z2, z2, z2, z3, z3, z3, z3, z3, z3, z3, z4, z4)


def legendre_A(c, i, j):
    """integral of P_i' P_j (lemma-A)"""
    return c.ite(c.and_(i > j, c.mod(i + j, 2) != 0), 2, 0)


def matrices_any_order(c, entry):
    M = c.int('M', 0, conc=[0, 1, 2, 3, 5, 9])
    g = make(c, M)
    # an arbitrary cell was built before: everything but the never-written part of G is arbitrary
    oldG = c.array('old_G', (M + 1, M + 1))
    g.G = c.vec((M + 1, M + 1), lambda i, j: c.ite(i >= j, oldG[i, j], 0))
    g.L = c.array('old_L', (M + 1, M + 1))
    a, h = c.real('xL'), c.real('h', pos=True)
    b = a + h
    da, db = c.real('dxL'), c.real('dxR')
    if entry == 'all':
        c.call('make_all_matrices', g.make_all_matrices, a, b, da, db)
    else:
        c.call('make_L', g.make_L, a, b)
        c.call('make_G', g.make_G, a, b, da, db)
    c.check_eq('L', g.L, lambda i, j: c.sqrt(2 * i + 1) * c.sqrt(2 * j + 1) / h * legendre_A(c, i, j))

    def G(i, j):
        dh = db - da
        diag = c.ite(c.eq(i, j), 1, 0)
        A = legendre_A(c, i, j)
        # integral of x P_i' P_j = integral of P_{i-1}' P_j + i P_i P_j
        B = legendre_A(c, i - 1, j) + 2 * i / (2 * i + 1) * diag
        return -diag * dh / h / 2 - c.sqrt(2 * i + 1) * c.sqrt(2 * j + 1) / 2 * ((da + db) / h * A + dh / h * B)
    c.check_eq('G', g.G, G)


def matrices_polynomials(c, M):
    """the same with the integrals computed from the polynomials themselves"""
    g = make(c, M)
    a, h = c.real('xL'), c.real('h', pos=True)
    b = a + h
    da, db = c.real('dxL'), c.real('dxR')
    p = c.real('pL')
    c.call('first cell', g.make_all_matrices, p, p + c.real('ph', pos=True), c.real('pdL'), c.real('pdR'))
    c.call('make_all_matrices', g.make_all_matrices, a, b, da, db)

    def nrm(i, j):
        return c.sqrt((2 * i + 1) * (2 * j + 1))

    def f(x):
        return c.q(x.numerator, x.denominator)

    def L(i, j):
        i, j = int(i), int(j)
        return nrm(i, j) / h * f(moment(pmul(pder(leg(i)), leg(j)), 0))

    def G(i, j):
        i, j = int(i), int(j)
        dh = db - da
        I = moment(pmul(leg(i), leg(j)), 0)
        A = moment(pmul(pder(leg(i)), leg(j)), 0)
        B = moment(pmul(pder(leg(i)), leg(j)), 1)
        return nrm(i, j) / 2 * (-dh / h / 2 * f(I) - (da + db) / h * f(A) - dh / h * f(B))
    c.check_eq('L', g.L, L)
    c.check_eq('G', g.G, G)


def lemma_A(c):
    """induction step of  int P_i' P_j = 2 [i > j and i + j odd]"""
    i, j = c.int('i', 1), c.int('j', 0)
    # int P'_{i+1} P_j = int P'_{i-1} P_j + (2i+1) int P_i P_j
    prev = legendre_A(c, i - 1, j)
    orth = c.ite(c.eq(i, j), 2 / (2 * i + 1), 0)
    c.check_eq('step', prev + (2 * i + 1) * orth, legendre_A(c, i + 1, j))
    c.check_eq('base0', 0, legendre_A(c, 0, j))
    c.check_eq('base1', c.ite(c.eq(j, 0), 2, 0), legendre_A(c, 1, j))


def tasks(tier):
    ts = [Task('any-order-make_all', matrices_any_order, dict(entry='all'), functions=FUNCS, budget=120),
          Task('any-order-make_L-make_G', matrices_any_order, dict(entry='one by one'), functions=FUNCS, budget=120),
          Task('lemma-A', lemma_A, functions=[], budget=60)]
    for M in ([0, 1, 4, 8] if tier == 'quick' else list(range(0, 15))):
        ts.append(Task('polynomials-M%d' % M, matrices_polynomials, dict(M=M), functions=FUNCS, budget=120))
    return ts
