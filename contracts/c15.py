"""C15: closure of the material emission over the material energy (solver_classes/radiative_transfer.py)."""
from pyded.ctx import Task

FILE = 'solver_classes/radiative_transfer.py:'
F = lambda *n: [FILE + 'T_function.' + x for x in ('__init__',) + n] + ['solver_classes/functions.py:normPn']
KINDS = ('linear', 'constant')
A_RAD = (137225, 10 ** 7)       # GJ / cm^3 / keV^4


def make(c, kind, M, coupled=True):
    m = c.module('solver_classes.radiative_transfer')
    Q = c.int('Q', 1)
    cv0 = c.real('cv0', pos=True) if kind == 'constant' else c.real('cv0', nonneg=True)
    b = c.build(temp_function=[int(kind == 'linear'), int(kind == 'constant')], M=M, xs_quad=c.array('xq', Q, gen=lambda r, s: r.uniform(-1, 1, s)),
              ws_quad=c.array('wq', Q), cv0=cv0, save_wave_loc=c.int('save_wave_loc', 0, 1), thermal_couple=c.dict({'none': int(not coupled), 'su_olson': int(coupled)}))
    T = c.call('__init__', m.T_function, b)
    return b, T


def havoc(c, T, M):
    """whatever earlier calls left behind"""
    T.H = c.array('H_before', M + 1)
    n = c.int('n_before', 1)
    T.e_vec = c.array('e_before', M + 1)
    T.fudge_factor = c.array('sign_before', n)
    T.xs_points = c.array('points_before', n)
    T.e_points = c.array('values_before', n)


def cell(c):
    a, w = c.real('xL'), c.real('width', pos=True)
    return a, a + w


def basis(c, j, x, a, b):
    return c.legendre(j, (2 * x - a - b) / (b - a)) * c.sqrt((2 * j + 1) / (b - a))


def energy(c, M, u, x, a, b):
    return c.sum(M + 1, lambda j: u[j] * basis(c, j, x, a, b))


def emission(c, kind, B, e):
    """radiated power per unit volume at a point with material energy density e"""
    return e if kind == 'linear' else (e / (B.cv0 / c.q(*A_RAD))) ** 4


def make_e(c):
    M = c.int('M', 0, conc=[0, 1, 2, 4])
    B, T = make(c, 'linear', M)
    havoc(c, T, M)
    a, b = cell(c)
    n = c.int('n', 1)
    xs = c.array('xs', n)
    u = c.array('u', M + 1)
    T.e_vec = u
    e = c.call('make_e', T.make_e, xs, a, b)
    c.check_eq('energy', e, c.vec(n, lambda i: energy(c, M, u, xs[i], a, b)))
    c.check_eq('coefficients unchanged', T.e_vec, u)


def closure(c, kind):
    """the emission at a point is a function of the energy density there and of nothing else"""
    M = c.int('M', 0, conc=[0, 1, 2, 3])
    B, T = make(c, kind, M)
    havoc(c, T, M)
    a, b = cell(c)
    n = c.int('n', 1)
    xs = c.array('xs', n)
    vals = c.array('energies', n)

    def stub(x, p, q):
        """contract of make_e: the energy expansion at the points"""
        c.check_eq('points', x, xs)
        c.check_eq('left', p, a)
        c.check_eq('right', q, b)
        return vals
    T.make_e = stub
    out = c.call('T_func', T.T_func, xs, a, b)
    c.check('one value per point', c.eq(out.shape[0], n))
    for i in c.each_index('point', n):
        neg = c.branch(vals[i] < 0)
        c.check_eq('emission', out[i], emission(c, kind, B, vals[i]))
    c.check_eq('points kept', T.xs_points, xs)
    c.check_eq('energies kept', T.e_points, vals)


def project(c, kind, coupled):
    """make_H: quadrature projection of the emission on every basis function"""
    M = c.int('M', 0, conc=[0, 1, 2, 3])
    B, T = make(c, kind, M, coupled)
    havoc(c, T, M)
    a, b = cell(c)
    u = c.array('u', M + 1)

    def stub(x, p, q):
        """contract of T_func: emission at the points, for the current energy coefficients"""
        c.check_eq('left', p, a)
        c.check_eq('right', q, b)
        c.check_eq('coefficients in use', T.e_vec, u)
        return c.vec(x.shape[0], lambda i: W(x[i]))
    W = c.func('emission')
    T.T_func = stub
    c.call('make_H', T.make_H, a, b, u)
    pt = lambda q: (a + b) / 2 + (b - a) / 2 * B.xs_quad[q]
    if coupled:
        c.check_eq('H', T.H, c.vec(M + 1, lambda j: (b - a) / 2 * c.sum(B.xs_quad.shape[0], lambda q: B.ws_quad[q] * W(pt(q)) * basis(c, j, pt(q), a, b))))
    else:
        c.check_eq('H', T.H, c.vec(M + 1, lambda j: 0))
    c.check_eq('energy coefficients unchanged', u, c.array('u', M + 1) if c.symbolic else c.record['u'])


def whole(c, kind, M, again):
    """no stubs: make_H on the real callees, after another make_H call on the same object"""
    B, T = make(c, kind, M)
    a, b = cell(c)
    if again:
        a0, w0 = c.real('xL_before'), c.real('width_before', pos=True)
        c.call('make_H', T.make_H, a0, a0 + w0, c.array('u_before', M + 1))
    else:
        havoc(c, T, M)
    u = c.array('u', M + 1)
    c.call('make_H', T.make_H, a, b, u)
    pt = lambda q: (a + b) / 2 + (b - a) / 2 * B.xs_quad[q]
    em = lambda x: emission(c, kind, B, sum((u[j] * basis(c, j, x, a, b) for j in range(M + 1)), 0))
    c.check_eq('H', T.H, c.vec(M + 1, lambda j: (b - a) / 2 * c.sum(B.xs_quad.shape[0], lambda q: B.ws_quad[q] * em(pt(q)) * basis(c, j, pt(q), a, b))))


def unknown(c):
    """coupling without a closure is rejected"""
    M = c.int('M', 0, conc=[0, 2])
    B, T = make(c, 'neither', M)
    havoc(c, T, M)
    a, b = cell(c)
    c.expect_raises('make_H', AssertionError, T.make_H, a, b, c.array('u', M + 1))


def tasks(tier):
    ts = [Task('make_e', make_e, functions=F('make_e'))]
    for k in KINDS:
        ts.append(Task('closure-%s' % k, closure, dict(kind=k), functions=F('T_func', 'su_olson_source')))
        ts.append(Task('project-%s' % k, project, dict(kind=k, coupled=True), functions=F('make_H', 'integrate_quad')))
        for M in ((0, 1) if tier == 'quick' else (0, 1, 2, 3)):
            for again in (False, True):
                ts.append(Task('whole-%s-M%d%s' % (k, M, '-again' if again else ''), whole, dict(kind=k, M=M, again=again),
                               functions=F('make_H', 'integrate_quad', 'T_func', 'make_e', 'su_olson_source')))
    ts.append(Task('uncoupled', project, dict(kind='linear', coupled=False), functions=F('make_H', 'integrate_quad')))
    ts.append(Task('no-closure', unknown, functions=F('make_H', 'integrate_quad', 'T_func')))
    return ts
