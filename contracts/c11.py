"""C11: projection of sources and initial conditions (solver_classes/sources.py, build_problem.py, mutables.py)."""
from pyded.ctx import Task
from contracts.c03 import poly
from contracts.polys import cheb

SRC = 'solver_classes/sources.py:source_class.'
BLD = 'solver_classes/build_problem.py:build.'
ICF = 'solver_classes/mutables.py:IC_func.'
UNC = 'solver_classes/uncollided_solutions.py:uncollided_solution.'
NT = 12       # length of source_type, as in the input scripts (last entry: forward-peaked Gaussian)


def stype(c, kind, **k):
    """kind: index of the problem type that is on (None: no type set)"""
    v = [int(i == kind) for i in range(NT)]
    for i, x in k.items():
        v[int(i[1:])] = x
    return v


def nodes(c, Q):
    return c.array('xq', Q, each=lambda v, i: c.and_(-1 < v, v < 1), gen=lambda r, s: r.uniform(-1, 1, s)), c.array('wq', Q)


def geom(c, geo):
    return c.dict({'slab': int(geo == 'slab'), 'sphere': int(geo == 'sphere')})


def basis(c, geo, j, z, h):
    if geo == 'slab':
        return c.sqrt((2 * j + 1) / h) * c.legendre(j, z)
    return (1 / c.sqrt(2) if j == 0 else 1) * c.sqrt(2 / (c.pi * h)) * poly(c, cheb(int(j)), z)


def orders(c, geo, M):
    return c.int('M', 0, conc=[0, 1, 2, 4]) if M is None else M


def cell(c):
    xL, w = c.real('xL', gen=lambda r: r.uniform(-2, 2)), c.real('width', pos=True)
    return xL, xL + w


def make_source(c, geo, kind, M, strength, **k):
    m = c.module('solver_classes.sources')
    Q = c.int('Q', 1)
    xq, wq = nodes(c, Q)
    b = dict(M=M, source_type=stype(c, kind), uncollided=0, x0=c.real('x0', pos=True), xs_quad=xq, ws_quad=wq, moving=1, tfinal=c.real('tfinal', pos=True),
             t0=c.real('t0', pos=True), sigma=c.real('sigma', pos=True), sigma_s=c.real('sigma_s'), source_strength=strength, geometry=geom(c, geo))
    b.update(k)
    b = c.build(**b)
    b.Q = Q
    return b, c.call('__init__', m.source_class, b)


def call_twice(c, s, t, xL, xR, unc):
    """an earlier call for another cell and time, then the call under contract: the result belongs to the second call only"""
    a, b = c.real('earlier_xL', gen=lambda r: r.uniform(-2, 2)), c.real('earlier_width', pos=True)
    if c.choice('history', ['first call', 'later call']) == 'later call':
        c.call('make_source', s.make_source, c.real('earlier_t', nonneg=True), a, a + b, unc)
    c.call('make_source', s.make_source, t, xL, xR, unc)


def external(c, kind, M):
    """uncollided treatment off: square (2) and Gaussian (5) sources, present until the switch-off time; other types have no source"""
    M = orders(c, 'slab', M)
    b, s = make_source(c, 'slab', kind, M, c.real('strength'))
    xL, xR = cell(c)
    t = c.real('t', nonneg=True)
    call_twice(c, s, t, xL, xR, c.obj())
    h = xR - xL

    def f(z):
        x = h / 2 * z + (xL + xR) / 2
        if kind == 2:
            return c.ite(c.and_(c.abs(x) <= b.x0, t < b.t0), 1, 0)
        if kind == 5:
            return c.ite(t <= b.t0, c.exp(-x * x / b.sigma ** 2), 0)
        return 0
    c.check_eq('source coefficients', s.S, c.vec(M + 1, lambda j: b.source_strength * h / 2 * c.sum(b.Q, lambda q: b.ws_quad[q] * f(b.xs_quad[q]) * basis(c, 'slab', j, b.xs_quad[q], h))))


def uncollided(c, geo, kind, M, moving):
    """uncollided treatment on: the scattered uncollided flux.  The uncollided solution appears by its contract (C09, C10): an arbitrary
    function of position and time that already contains the source strength"""
    M = orders(c, geo, M)
    b, s = make_source(c, geo, kind, M, c.real('strength'), uncollided=1, moving=moving)
    xL, xR = cell(c)
    t = c.real('t', nonneg=True)
    U, P = c.func('U', nargs=2), c.func('P', nargs=3)
    unc = c.obj(uncollided_solution=lambda xs, tt: c.vec(xs.shape[0], lambda i: U(xs[i], tt)), plane_IC_uncollided_solution_integrated=lambda tt, l, r: P(tt, l, r))
    call_twice(c, s, t, xL, xR, unc)
    h = xR - xL

    def proj(j):
        x = lambda q: h / 2 * b.xs_quad[q] + (xL + xR) / 2
        if geo == 'slab':
            return b.sigma_s * h / 2 * c.sum(b.Q, lambda q: b.ws_quad[q] * U(x(q), t) * basis(c, geo, j, b.xs_quad[q], h))
        return h / 2 * c.sum(b.Q, lambda q: x(q) ** 2 * c.sqrt(1 - b.xs_quad[q] ** 2) * b.ws_quad[q] * U(x(q), t) * basis(c, geo, j, b.xs_quad[q], h))
    if geo == 'slab' and kind == 0 and moving:
        want = lambda j: c.ite(c.eq(j, 0), b.sigma_s * b.source_strength * P(t, xL, xR), 0)
    elif geo == 'sphere' and kind != 1:
        want = lambda j: 0
    else:
        want = proj
    c.check_eq('scattered uncollided flux', s.S, c.vec(M + 1, want))


def strength(c, geo, kind, unc):
    """with the real uncollided solution: everything is proportional to the source strength, applied once"""
    M = 1
    s = c.real('strength')
    b, s1 = make_source(c, geo, kind, M, 1, uncollided=unc, moving=0)
    mu = c.module('solver_classes.uncollided_solutions')
    ms = c.module('solver_classes.sources')
    for k, v in dict(t_quad=c.array('tq', b.Q), t_ws=c.array('tw', b.Q), N_ang=4, fake_sedov_v0=0, ws=c.array('ws', b.Q), mus=c.array('mus', b.Q)).items():
        setattr(b, k, v)
    if geo == 'sphere':
        xL, w = c.real('xL', pos=True), c.real('width', pos=True)
        xR = xL + w
    else:
        xL, xR = cell(c)
    t = c.real('t', pos=True)
    u1 = c.call('__init__', mu.uncollided_solution, b)
    c.call('make_source', s1.make_source, t, xL, xR, u1)
    b.source_strength = s
    us, ss = c.call('__init__', mu.uncollided_solution, b), c.call('__init__', ms.source_class, b)
    c.call('make_source', ss.make_source, t, xL, xR, us)
    c.check_eq('proportional to the source strength', ss.S, lambda j: s * s1.S[j])


def mms(c, M):
    M = orders(c, 'slab', M)
    b, s = make_source(c, 'slab', 4, M, 1)
    xL, xR = cell(c)
    t, mu = c.real('t', nonneg=True), c.real('mu')
    h = xR - xL
    if c.choice('history', ['first call', 'later call']) == 'later call':
        c.call('make_source_not_isotropic', s.make_source_not_isotropic, c.real('earlier_t', nonneg=True), c.real('earlier_mu'), xL + 1, xR + 2)
    c.call('make_source_not_isotropic', s.make_source_not_isotropic, t, mu, xL, xR)

    def f(z):
        x = h / 2 * z + (xL + xR) / 2
        # the source for which exp(-x^2/2) / (2 (1 + t)) solves the transport equation with unit scattering in a purely scattering medium
        return c.ite(c.and_(-t - b.x0 <= x, x <= t + b.x0), -(1 + (1 + t) * x * mu) * c.exp(-x * x / 2) / (1 + t) ** 2, 0)
    c.check_eq('manufactured source', s.S, c.vec(M + 1, lambda j: h / 2 * c.sum(b.Q, lambda q: b.ws_quad[q] * f(b.xs_quad[q]) * basis(c, 'slab', j, b.xs_quad[q], h))))


# ---------------------------------------------------------------------------------------------------- initial conditions
def profile(c, geo, st, unc, x0, strength, sigma, x1, x, mu):
    pulse = lambda a, b: c.ite(c.and_(a < x, x <= b), 1, 0)
    if unc:
        return 0
    if geo == 'sphere':
        if st[0] == 1:
            return strength * pulse(0, x0) / x0 ** 3
        return strength * 3 / (4 * c.pi * x0 ** 3) / 2 * pulse(0, x0)
    if st[0] == 1:
        return strength * pulse(-x0, x0) / 2 / (2 * x0)
    if st[1] == 1:
        return strength * pulse(-x0, x0) / 2
    if st[2] == 1:
        return 0
    if st[3] == 1:
        g = strength * c.exp(-x * x / sigma ** 2)
        return c.ite(mu > 0, g, 0) if st[-1] == 1 else g / 2
    if st[4] == 1:
        return c.exp(-x * x / 2) / 2
    if st[0] == 2:
        x1 = c.abs(x1)
        return strength * (pulse(0, x1) - pulse(-x1, 0)) / 2 / x1
    if st[0] == 3:
        A = c.q(29998, 1000) / 2400
        At = A * c.q(1, 100)
        return 1 / c.sqrt(c.pi / 2) / c.sqrt(At) * c.exp(-x * x / 4 / At) / 2
    return 0


PROFILES = {'plane': dict(kind=0), 'square': dict(kind=1), 'square-source': dict(kind=2), 'gaussian': dict(kind=3), 'gaussian-forward': dict(kind=3, _11=1),
            'mms': dict(kind=4), 'gaussian-source': dict(kind=5), 'dipole': dict(kind=None, _0=2), 'self-similar': dict(kind=None, _0=3), 'none': dict(kind=None)}


def function(c, geo, name, unc):
    m = c.module('solver_classes.mutables')
    st = stype(c, **PROFILES[name])
    x0, s, sg, x1 = c.real('x0', pos=True), c.real('strength'), c.real('sigma', pos=True), c.real('x1', pos=True)
    ic = c.call('__init__', m.IC_func, c.ints(st), unc, x0, s, sg, -x1 if c.choice('sign', [0, 1]) else x1, geom(c, geo))
    n, mu = c.int('n', 1), c.real('mu', gen=lambda r: r.uniform(-1, 1))
    for again in (0, 1):
        x = c.array('x%d' % again, n, gen=lambda r, s: r.uniform(-2, 2, s))
        c.check_eq('initial profile', c.call('function', ic.function, x, mu), c.vec(n, lambda i: profile(c, geo, st, unc, x0, s, sg, x1, x[i], mu)))


def make_build(c, geo, st, M, N, NA, energy, moving, unc):
    m = c.module('solver_classes.build_problem')
    Q = c.int('Q', 1)
    xq, wq = nodes(c, Q)
    mus = c.array('mus', NA, gen=lambda r, s: r.uniform(-1, 1, s))
    raw = c.array('ws', NA, each=lambda v, i: v > 0, gen=lambda r, s: r.uniform(0.1, 2, s))
    c.assume(c.sum(NA, lambda k: raw[k]) > 0)
    a = dict(N_ang=NA, N_space=N, M=M, tfinal=c.real('tfinal', pos=True), x0=c.real('x0', pos=True), t0=c.real('t0'), mus=mus, ws=raw, xs_quad=xq, ws_quad=wq,
             sigma_t=c.real('sigma_t', pos=True), sigma_s=c.real('sigma_s'), source_type=st, uncollided=unc, moving=moving, move_type=[1, 0, 0, 0], t_quad=c.array('tq', Q),
             t_ws=c.array('tw', Q), thermal_couple=c.dict({'none': 1 - energy, 'su_olson': energy}), temp_function=[0] * 5, e_initial=c.real('e_init'), sigma=c.real('sigma', pos=True),
             particle_v=c.real('pv'), edge_v=c.real('edge_v'), cv0=c.real('cv0'), thick=0, wave_loc_array=c.array('wl', (1, 4, 2)), source_strength=c.real('strength'),
             move_factor=c.real('mf'), l=c.real('l'), save_wave_loc=0, pad=c.real('pad'), leader_pad=c.real('lpad'), quad_thick_source=c.array('qts', Q), quad_thick_edge=c.array('qte', Q),
             boundary_on=[0, 0], boundary_source_strength=c.real('bss'), boundary_source=0, sigma_func=c.dict({'constant': 1}), Msigma=0, finite_domain=0, domain_width=c.real('dw'),
             fake_sedov_v0=c.real('v0'), test_dimensional_rhs=0, epsilon=c.real('eps'), geometry=geom(c, geo))
    b = c.call('build.__init__', m.build, *a.values())
    A = c.obj(**a)
    A.Q = Q
    return A, b


def initial(c, geo, name, unc, M, energy, moving, cells=None):
    """make_IC: every coefficient of every direction, cell and mode (and of the material energy) is the projection of the profile"""
    m = c.module('solver_classes.build_problem')
    M = orders(c, geo, M)
    NA = c.int('N_ang', 1)
    N = cells if cells is not None else c.int('N_space', 1)
    st = stype(c, **PROFILES[name])
    A, b = make_build(c, geo, st, M, N, NA, energy, moving, unc)
    E = c.array('edges', N + 1, axioms='increasing', gen=lambda r, s: __import__('numpy').cumsum(r.uniform(0.1, 2, s)) - (3 if geo == 'slab' else 0))
    if name == 'dipole':
        c.assume(c.and_(E[0] <= -A.x0, -A.x0 <= E[N]))      # the poles lie inside the mesh
    keep = m.mesh_class

    def mesh(N_space, x0, tfinal, moving, move_type, source_type, edge_v, thick, move_factor, wave_loc_array, pad, leader_pad, thick_quad, thick_quad_edge,
             finite_domain, domain_width, fake_sedov_v, boundary_on, t0, geometry):
        got = (N_space, x0, tfinal, edge_v, move_factor, pad, leader_pad, domain_width, fake_sedov_v, t0)
        want = (N, A.x0, A.tfinal, A.edge_v, A.move_factor, A.pad, A.leader_pad, A.domain_width, A.fake_sedov_v0, A.t0)
        for g, w in zip(got, want):
            c.check_eq('the mesh is built from the problem description', g, w)
        c.check_eq('the mesh is built from the problem description', source_type, c.ints(st))
        c.check_eq('the mesh is built from the problem description', thick_quad, A.quad_thick_source)
        c.check_eq('the mesh is built from the problem description', thick_quad_edge, A.quad_thick_edge)
        return c.obj(edges=E, N_space=N)
    m.mesh_class = mesh
    try:
        c.call('make_IC', b.make_IC)
    finally:
        m.mesh_class = keep
    x0, x1 = A.x0, c.q(1)
    if not moving and not unc and name == 'plane':
        even = c.branch(c.eq(c.mod(N, 2), 0))
        if even and geo == 'slab':
            half = c.floordiv(N, 2)
            x0 = E[half + 1] - E[half - 1]        # a pulse at the centre, resolved by the cells next to it
        elif even:
            x0 = E[1] - E[0]
    if name == 'dipole':
        half = N // 2
        x1 = E[half + 1] - E[half]

    def want(a, k, j):
        h = E[k + 1] - E[k]
        x = lambda q: h / 2 * A.xs_quad[q] + (E[k] + E[k + 1]) / 2
        rad = lambda: h / 2 * (1 if geo == 'slab' else 2) * c.sum(A.Q, lambda q: A.ws_quad[q] * profile(c, geo, st, unc, x0, A.source_strength, A.sigma, x1, x(q), A.mus[a]) * basis(c, geo, j, A.xs_quad[q], h))
        return rad()
    if not energy:
        c.check_eq('initial coefficients', b.IC, c.vec((NA, N, M + 1), want))
    else:
        c.check_eq('initial coefficients', b.IC[:-1], c.vec((NA, N, M + 1), want))
        c.check_eq('initial material energy', b.IC[NA], c.vec((N, M + 1), lambda k, j: (E[k + 1] - E[k]) / 2 * c.sum(A.Q, lambda q: A.ws_quad[q] * A.e_initial * basis(c, 'slab', j, A.xs_quad[q], E[k + 1] - E[k]))))


def tasks(tier):
    big = tier != 'quick'
    ts = []
    sl = [None] if not big else [None, 0, 3]
    sp = [0, 2] if not big else [0, 1, 2, 4, 6]
    for kind in (2, 5, 0, 1, 3):
        for M in sl:
            ts.append(Task('external-%d-M%s' % (kind, M), external, dict(kind=kind, M=M), functions=[SRC + x for x in ('__init__', 'make_source', 'integrate_quad') + {2: ('square_source',), 5: ('gaussian_source',)}.get(kind, ())]))
    for kind in (0, 1, 2, 3, 5):
        for M in sl:
            ts.append(Task('uncollided-slab-%d-M%s' % (kind, M), uncollided, dict(geo='slab', kind=kind, M=M, moving=1), functions=[SRC + x for x in ('make_source', 'integrate_quad')]))
    ts.append(Task('uncollided-slab-0-static', uncollided, dict(geo='slab', kind=0, M=None, moving=0), functions=[SRC + 'make_source']))
    for kind in (0, 1):
        for M in sp:
            ts.append(Task('uncollided-sphere-%d-M%d' % (kind, M), uncollided, dict(geo='sphere', kind=kind, M=M, moving=1), functions=[SRC + x for x in ('make_source', 'integrate_quad_sphere')]))
    for geo, kind, unc in (('slab', 0, 1), ('slab', 1, 1), ('slab', 3, 1), ('slab', 2, 0), ('slab', 5, 0), ('sphere', 1, 1)):
        ts.append(Task('strength-%s-%d-%d' % (geo, kind, unc), strength, dict(geo=geo, kind=kind, unc=unc), functions=[SRC + 'make_source', UNC + 'uncollided_solution']))
    ts.append(Task('manufactured', mms, dict(M=None), functions=[SRC + x for x in ('make_source_not_isotropic', 'integrate_quad_not_isotropic', 'MMS_source')]))
    for name in PROFILES:
        ts.append(Task('profile-slab-' + name, function, dict(geo='slab', name=name, unc=0), functions=[ICF + 'function']))
        ts.append(Task('profile-slab-%s-uncollided' % name, function, dict(geo='slab', name=name, unc=1), functions=[ICF + 'function']))
    for name in ('plane', 'square'):
        ts.append(Task('profile-sphere-' + name, function, dict(geo='sphere', name=name, unc=0), functions=[ICF + 'function']))
    ts.append(Task('profile-sphere-uncollided', function, dict(geo='sphere', name='square', unc=1), functions=[ICF + 'function']))
    fb = [BLD + x for x in ('make_IC', 'integrate_quad', 'integrate_e', 'IC_e_func')] + [ICF + 'function']
    for name in PROFILES:
        if name == 'dipole':
            ts.append(Task('initial-slab-dipole', initial, dict(geo='slab', name=name, unc=0, M=1, energy=0, moving=0, cells=4), functions=fb))
            continue
        ts.append(Task('initial-slab-' + name, initial, dict(geo='slab', name=name, unc=0, M=None, energy=0, moving=1), functions=fb))
    ts.append(Task('initial-slab-plane-static', initial, dict(geo='slab', name='plane', unc=0, M=None, energy=0, moving=0), functions=fb))
    ts.append(Task('initial-slab-energy', initial, dict(geo='slab', name='square', unc=0, M=None, energy=1, moving=1), functions=fb))
    ts.append(Task('initial-slab-uncollided', initial, dict(geo='slab', name='square', unc=1, M=None, energy=0, moving=1), functions=fb))
    fb = [BLD + x for x in ('make_IC', 'integrate_quad_sphere', 'integrate_e', 'IC_e_func')] + [ICF + 'function']
    for M in sp:
        for name in ('plane', 'square'):
            ts.append(Task('initial-sphere-%s-M%d' % (name, M), initial, dict(geo='sphere', name=name, unc=0, M=M, energy=0, moving=1), functions=fb))
    ts.append(Task('initial-sphere-plane-static', initial, dict(geo='sphere', name='plane', unc=0, M=1, energy=0, moving=0), functions=fb))
    ts.append(Task('initial-sphere-energy', initial, dict(geo='sphere', name='square', unc=0, M=1, energy=1, moving=1), functions=fb))
    ts.append(Task('initial-sphere-uncollided', initial, dict(geo='sphere', name='square', unc=1, M=1, energy=0, moving=1), functions=fb))
    return ts
