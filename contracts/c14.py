"""C14: natural cubic splines and the linear solver (solver_classes/cubic_spline.py)."""
from pyded.ctx import Task

S = 'solver_classes/cubic_spline.py:'


def knots(c, n=None):
    n = c.int('pieces', 1, conc=[1, 2, 3, 4, 6]) if n is None else n
    x = c.array('datax', n + 1, axioms='increasing', gen=lambda r, s: __import__('numpy').cumsum(r.uniform(0.2, 1, s)))
    y = c.array('datay', n + 1)
    return n, x, y


def row(c, q, first, entries):
    """entry q of a matrix row that is zero but for the given entries starting at column first"""
    v = 0
    for k, e in reversed(list(enumerate(entries))):
        v = c.ite(c.eq(q, first + k), e, v)
    return v


def system(c, again=False):
    """the system says: every piece meets the data at both its knots, first and second derivatives
    agree at interior knots, the second derivative vanishes at both ends; its solution is kept"""
    m = c.module('solver_classes.cubic_spline')
    n, x, y = knots(c)
    got = {}

    def solve(A, b, *a):
        """contract of GaussElim: the solution of the system"""
        got['A'], got['b'], got['sol'] = A, b, c.array('solution', 4 * n)
        return got['sol']
    real = m.GaussElim
    m.GaussElim = solve
    try:
        if again:       # a spline built before, with as many pieces, on other knots
            c.call('__init__', m.cubic_spline, knots(c, n)[1], c.array('earlier_y', n + 1))
        s = c.call('__init__', m.cubic_spline, x, y)
    finally:
        m.GaussElim = real
    A, b = got['A'], got['b']
    c.check('square system', c.and_(c.eq(A.shape[0], 4 * n), c.eq(A.shape[1], 4 * n), c.eq(b.shape[0], 4 * n)))
    for q in c.each_index('column', 4 * n):
        for p in c.each_index('piece', n):
            for end in (0, 1):
                X = x[p + end]
                c.check_eq('piece %d of 2 conditions: value at a knot' % (end + 1), A[2 * p + end, q], row(c, q, 4 * p, [1, X, X ** 2, X ** 3]))
                c.check_eq('data value', b[2 * p + end], y[p + end])
        for k in c.each_index('interior knot', n - 1):
            X = x[k + 1]
            c.check_eq('first derivatives agree', A[2 * n + k, q], row(c, q, 4 * k, [0, 1, 2 * X, 3 * X ** 2, 0, -1, -2 * X, -3 * X ** 2]))
            c.check_eq('second derivatives agree', A[3 * n - 1 + k, q], row(c, q, 4 * k, [0, 0, 2, 6 * X, 0, 0, -2, -6 * X]))
            c.check_eq('no data in derivative conditions', b[2 * n + k], 0)
            c.check_eq('no data in derivative conditions', b[3 * n - 1 + k], 0)
        c.check_eq('natural at the left end', A[4 * n - 2, q], row(c, q, 0, [0, 0, 2, 6 * x[0]]))
        c.check_eq('natural at the right end', A[4 * n - 1, q], row(c, q, 4 * n - 4, [0, 0, 2, 6 * x[n]]))
    c.check_eq('natural ends: right hand side', b[4 * n - 2], 0)
    c.check_eq('natural ends: right hand side', b[4 * n - 1], 0)
    c.check_eq('the solution is kept', s.coef, got['sol'])
    c.check_eq('knots unchanged', s.datax, x)
    c.check_eq('values unchanged', s.datay, y)


def evaluate(c, where, again=False):
    """evaluation uses the piece whose interval contains the point"""
    m = c.module('solver_classes.cubic_spline')
    n, x, y = knots(c)
    coef, k = c.array('coef', 4 * n), c.int('points', 1, conc=[1, 2, 5])
    s = c.raw(m.cubic_spline)
    s.n, s.datax, s.datay, s.coef = n, x, y, coef
    gen = lambda r, sh: [x[r.randint(len(x))] if r.uniform() < .4 else r.uniform(x[0] - .3, x[-1] + .3) for _ in range(sh[0])]
    if again:           # evaluated before, at other points (possibly as many)
        k1 = c.ite(c.eq(c.int('same_number', 0, 1), 1), k, c.int('earlier_points', 1, conc=[1, 3]))
        old = c.call('eval_spline', s.eval_spline, c.array('earlier_x', k1, gen=gen))
        old[0] = c.real('changed')
        kept = old.copy()
    t = c.array('x', k, gen=gen)
    v = c.call('eval_spline', s.eval_spline, t)
    c.check('one value per point', c.eq(v.shape[0], k))
    if again:
        c.check_eq('values handed out before are kept', old, kept)
    for i in c.each_index('point', k):
        T = t[i]
        if c.symbolic:
            p = c.int('piece', 0)
            c.assume(p < n)
            if where == 'inside':
                c.assume(c.and_(x[p] < T, T < x[p + 1]))
                ps = [p]
            elif where == 'knot':
                c.assume(c.and_(p >= 1, c.eq(T, x[p])))
                ps = [p - 1, p]
            elif where == 'first':
                c.assume(c.eq(T, x[0]))
                ps = [0]
            elif where == 'last':
                c.assume(c.eq(T, x[n]))
                ps = [n - 1]
            else:
                c.assume(c.or_(T < x[0], x[n] < T))
                ps = []
        else:
            ps = [p for p in range(n) if x[p] <= T <= x[p + 1]]
        val = lambda p: coef[4 * p] + coef[4 * p + 1] * T + coef[4 * p + 2] * T ** 2 + coef[4 * p + 3] * T ** 3
        c.check_one_of('value of a piece that contains the point, zero outside', v[i], [val(p) for p in ps] or [0])


class Upper:
    """state of the augmented matrix before column j is eliminated: row r still says
    sum_q M[r,q] x[q] = M[r,N] for the solution x; columns q < j are zero below the diagonal;
    the diagonal entries of the first j rows are not zero"""

    def __init__(self, c, N, X):
        self.c, self.N, self.X = c, N, X

    def coefficient(self, j, h, r, q):
        return self.c.ite(self.c.and_(q < j, q < r), 0, h(r, q))

    def state(self, j, h, J):
        c, (r, q) = self.c, J
        return c.ite(c.eq(q, self.N), c.sum(self.N, lambda k: self.coefficient(j, h, r, k) * c.at(self.X, k)), self.coefficient(j, h, r, q))

    def facts(self, j, h, x):
        c, (r, q) = self.c, x
        return [c.implies(c.and_(0 <= r, r < j), c.not_(c.eq(h(r, r), 0)))]

    def assume(self, j, h):
        """the system is not singular: some entry of the rest of the next column is not zero"""
        c = self.c
        if j is self.N:
            return []
        p = c.int('pivot', 0)
        c.hint(lambda vs: [p - j, p])
        return [c.and_(j <= p, p < self.N), c.not_(c.eq(h(p, j), 0))]

    def check(self, j, read, what):
        c, N = self.c, self.N
        r, q = c.generic('row', N), c.generic('column', N)
        c.check_eq('every row is satisfied by the solution: ' + what, c.sum(N, lambda k: read(r, k) * c.at(self.X, k)), read(r, N))
        c.check('columns are cleared below the diagonal: ' + what, c.implies(c.and_(q < j, q < r), c.eq(read(r, q), 0)))
        c.check('finished rows have a pivot: ' + what, c.implies(r < j, c.not_(c.eq(read(r, r), 0))))


class Positive:
    """scale factors"""

    def __init__(self, c, N):
        self.c, self.N = c, N

    def state(self, j, h, J):
        return h(*J)

    def facts(self, j, h, x):
        return [h(*x) > 0]

    def assume(self, j, h):
        return []

    def check(self, j, read, what):
        c = self.c
        c.check('scale factors positive: ' + what, read(c.generic('row', self.N)) > 0)


class Solved:
    """back substitution: the last j entries are those of the solution"""

    def __init__(self, c, N, X):
        self.c, self.N, self.X = c, N, X

    def state(self, j, h, J):
        c = self.c
        return c.ite(J[0] >= self.N - j, c.at(self.X, J[0]), h(*J))

    def facts(self, j, h, x):
        return []

    def assume(self, j, h):
        return []

    def check(self, j, read, what):
        c, N = self.c, self.N
        r = c.generic('entry', N)
        if c.branch(r >= N - j):
            c.check_eq('solved entries: ' + what, read(r), c.at(self.X, r))


def gauss(c):
    """a non-singular system A x = b: the returned vector is x, and A and b are left alone"""
    m = c.module('solver_classes.cubic_spline')
    N = c.int('N', 1, conc=[1, 2, 3, 5, 8])
    A, X = c.array('A', (N, N)), c.array('x', N)
    b = c.vec(N, lambda r: c.sum(N, lambda q: c.at(A, r, q) * c.at(X, q)))
    if c.symbolic:
        # a row of zeros would make the system singular
        nz = c.array('nonzero', N, sort='I', each=lambda v, i: c.and_(0 <= v, v < N, c.not_(c.eq(c.at(A, i, v), 0))))
        c.hint(lambda vs: [c.at(nz, v) for v in vs])
        A0, b0 = A, b

        def inv(arrays, depth, n):
            if depth != 1:
                return None
            two = [k for k, a in arrays.items() if len(a.shape) == 2]
            if two:
                return {k: Upper(c, N, X) if k in two else Positive(c, N) for k in arrays}
            return {k: Solved(c, N, X) for k in arrays}
        c.annotate(inv)
    else:
        A0, b0 = A.copy(), b.copy()
    x = c.call('GaussElim', m.GaussElim, A, b)
    c.check_eq('solution', x, X)
    c.check_eq('matrix unchanged', A, A0)
    c.check_eq('right hand side unchanged', b, b0)


def tasks(tier):
    big = tier != 'quick'
    ts = [Task('system', system, functions=[S + 'cubic_spline.' + f for f in ('__init__', 'solve_coefficients', 'points', 'first_deriv', 'second_deriv', 'solve_spline')])]
    ts.append(Task('system-again', system, dict(again=True), functions=[S + 'cubic_spline.__init__']))
    for w in ('inside', 'knot', 'first', 'last', 'outside'):
        ts.append(Task('evaluate-%s' % w, evaluate, dict(where=w), functions=[S + 'cubic_spline.eval_spline']))
    ts.append(Task('evaluate-again', evaluate, dict(where='inside', again=True), functions=[S + 'cubic_spline.eval_spline']))
    ts.append(Task('gauss', gauss, assumes=['a non-singular system has a non-zero entry in the remaining part of the next column at every elimination step, and no zero row'], functions=[S + f for f in ('GaussElim', 'BackSub', 'swap_rows')], budget=300))
    return ts
