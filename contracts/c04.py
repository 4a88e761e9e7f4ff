"""C04: upwind numerical flux (solver_classes/numerical_flux.py)."""
from pyded.ctx import Task

FILE = 'solver_classes/numerical_flux.py'
FUNCS = [FILE + ':LU_surf.' + f for f in ('make_LU', 'make_sol', 'make_h', 'extend_mesh', 'B_LR_func', 'is_boundary_source_on', 'integrate_quad', 'BC_func', '__init__')]


def edge_value(c, geo, side, i, h):
    """value of the i-th normalised basis function at the left/right edge of a cell with sqrt(width) h"""
    if geo == 'slab':
        v = c.sqrt(2 * i + 1) / h
    else:
        v = (1 if i == 0 else c.sqrt(2)) / h / c.sqrt(c.pi)
    return v if side == 'R' or i % 2 == 0 else -v


def make_build(c, geo, M, N, Q, bc):
    """the attributes of `build` that LU_surf reads"""
    st = [0] * 10
    if bc == 'mms':
        st[4] = 1
    return c.build(test_dimensional_rhs=False, M=M, source_type=c.ints(st), ws_quad=c.array('wq', Q), xs_quad=c.array('xq', Q), N_space=N,
                 t0=c.real('t0', pos=True),
                 thermal_couple=c.dict({'none': 0 if bc == 'thermal' else 1}), moving=0, e_init=c.real('e_init'),
                 boundary_source=bc.startswith('half'), boundary_on=c.ints([int('L' in bc), int('R' in bc)]),
                 boundary_source_strength=c.real('strength'), uncollided=bc.endswith('unc'),
                 geometry=c.dict({'slab': geo == 'slab', 'sphere': geo == 'sphere'}))


def flux(c, geo, M, bc, again=False):
    m = c.module('solver_classes.numerical_flux')
    N = c.int('N', 2 if bc.startswith('half') else 1)
    Q = c.int('Q', 1)
    b = make_build(c, geo, M, N, Q, bc)
    lu = c.call('LU_surf.__init__', m.LU_surf, b)
    # the object may have served any number of earlier calls: its scratch state is arbitrary
    for f in ('v0', 'v1', 'v2', 'v3', 'h', 'hp', 'hm', 'xL_minus', 'xR_plus'):
        setattr(lu, f, c.real('old_' + f))
    lu.LU = c.array('old_LU', M + 1)
    e = c.array('edges', N + 1, axioms='increasing')
    De = c.array('De', N + 1)
    u = c.array('u', (N, M + 1))
    ur = c.array('urefl', M + 1)
    s = c.int('space', 0)
    c.assume(s < N)
    mu = c.real('mu', (-1, 1))
    t = c.real('t', nonneg=True)
    mesh = c.obj(edges=e, Dedges=De)
    if again:
        # a real earlier call for another cell, direction, state, mesh and time (any of which may be the same)
        s1 = c.int('earlier_space', 0)
        c.assume(s1 < N)
        t1 = c.ite(c.eq(c.int('same_time', 0, 1), 1), t, c.real('earlier_t', nonneg=True))
        mu1 = c.ite(c.eq(c.int('same_mu', 0, 1), 1), mu, c.real('earlier_mu', (-1, 1)))
        mesh1 = c.obj(edges=c.array('earlier_edges', N + 1, axioms='increasing'), Dedges=c.array('earlier_De', N + 1))
        c.call('make_LU', lu.make_LU, t1, mesh1, c.array('earlier_u', (N, M + 1)), s1, mu1, c.array('earlier_urefl', M + 1))
    c.call('make_LU', lu.make_LU, t, mesh, u, s, mu, ur)
    c.check_eq('LU', lu.LU, spec(c, geo, M, bc, b, N, Q, e, De, u, ur, s, mu, t))


def spec(c, geo, M, bc, b, N, Q, e, De, u, ur, s, mu, t):
    xl, xr = e[s], e[s + 1]
    h = c.sqrt(xr - xl)

    def trace(side, sp):
        hh = c.sqrt(e[sp + 1] - e[sp])
        return sum((edge_value(c, geo, side, i, hh) * u[sp, i] for i in range(M + 1)), 0)

    def boundary(a, bb, side):
        """projection of the incoming boundary value on the ghost cell, evaluated at the edge"""
        def f(x):
            if bc == 'mms':
                return c.exp(-x * x / 2) / (t + 1) / 2
            return b.boundary_source_strength
        tot = 0
        for j in range(M + 1):
            pj = (bb - a) / 2 * c.sum(Q, lambda q: b.ws_quad[q] * f((bb - a) / 2 * b.xs_quad[q] + (a + bb) / 2)
                                      * c.sqrt((2 * j + 1) / (bb - a)) * c.legendre(j, b.xs_quad[q]))
            tot = tot + pj * edge_value(c, geo, side, j, h)
        return tot

    def on(side):
        if bc == 'mms':
            return True
        if bc.startswith('half') and not bc.endswith('unc') and ('L' if side == 0 else 'R') in bc:
            return t <= b.t0
        return False
    leftspeed, rightspeed = mu - De[s], mu - De[s + 1]
    if s == 0:
        if on(0):
            v0 = boundary(e[0] - (xr - xl), e[0], 'R')
        elif geo == 'sphere':
            v0 = sum((edge_value(c, geo, 'L', i, h) * ur[i] for i in range(M + 1)), 0)
        else:
            v0 = 0
    else:
        v0 = trace('R', s - 1)
    if s == N - 1:
        v3 = boundary(e[N], e[N] + (xr - xl), 'L') if on(1) else 0
    else:
        v3 = trace('L', s + 1)
    minus = v0 if leftspeed >= 0 else trace('L', s)
    plus = trace('R', s) if rightspeed >= 0 else v3
    wl, wr = (1, 1) if geo == 'slab' else (xl ** 2, xr ** 2)
    return lambda i: wr * edge_value(c, geo, 'R', i, h) * rightspeed * plus - wl * edge_value(c, geo, 'L', i, h) * leftspeed * minus


def tasks(tier):
    ts = []
    Ms = [0, 1, 2, 3] if tier == 'quick' else list(range(0, 8))
    for geo in ('slab', 'sphere'):
        for M in Ms:
            ts.append(Task('flux-%s-M%d-vacuum' % (geo, M), flux, dict(geo=geo, M=M, bc='vacuum'), functions=FUNCS, budget=100))
        for bc in ('mms', 'thermal', 'halfL', 'halfR', 'halfLR', 'halfL-unc'):
            for M in ([1] if tier == 'quick' else [0, 1, 3]):
                ts.append(Task('flux-%s-M%d-%s' % (geo, M, bc), flux, dict(geo=geo, M=M, bc=bc), functions=FUNCS, budget=100))
    for geo, bc, M in (('slab', 'vacuum', 0), ('slab', 'halfLR', 0), ('sphere', 'vacuum', 0)):
        ts.append(Task('flux-again-%s-%s' % (geo, bc), flux, dict(geo=geo, M=M, bc=bc, again=True), functions=FUNCS, budget=100))
    return ts
