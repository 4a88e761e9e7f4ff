"""C06: assembly of the spherical semi-discrete system (solver_classes/rhs_class_1.py).

The callees (mesh, opacity, matrices, flux, source) appear by their contracts: each stub checks that
it is called with the arguments of the right direction, cell and time and returns values that are an
arbitrary function of them; what those values are is decided by C01-C05, C07, C08 and C11."""
from pyded.ctx import Task

R = 'solver_classes/rhs_class_1.py:rhs_class.'
NX = 15


def mus_gen(r, s):
    import numpy as np
    n = s[0]
    x = np.sort(r.uniform(0.05, 1, n // 2))
    return np.concatenate((-x[::-1], [0.0] * (n % 2), x))


def directions(c, N):
    """a symmetric set of directions: mu[N-1-k] = -mu[k], positive in the upper half"""
    def ax(idx):
        out = []
        for (i,) in idx:
            m = c_fn(c, 'mus', i)
            out.append(c.implies(c.and_(2 * i >= N, i < N), m > 0))
            out.append(c.implies(c.and_(0 <= i, i < N), c.eq(c_fn(c, 'mus', N - 1 - i), -m)))
        return out
    return c.array('mus', N, gen=mus_gen, axioms=ax if c.symbolic else None)


def c_fn(c, name, *i):
    from pyded import terms as tm
    return tm.fn(name, *[tm.lift(x) for x in i])


def make_build(c, NA, NS, M, geo, mms):
    b = c.build(N_ang=NA, N_space=NS, M=M, mus=directions(c, NA), ws=c.array('ws', NA), source_type=c.ints([int(mms and i == 4) for i in range(NX)]),
              thermal_couple=c.dict({'none': 1}), uncollided=0, test_dimensional_rhs=0, sigma_s=c.real('sigma_s'), sigma_a=c.real('sigma_a'),
              sigma_t=c.real('sigma_t', pos=True), particle_v=c.real('particle_v', pos=True),
              geometry=c.dict({'slab': int(geo == 'slab'), 'sphere': int(geo == 'sphere')}), l=c.real('l', pos=True), save_wave_loc=0,
              sigma_func=c.dict({'constant': 1}))
    return b


def assembly(c, M, geo='sphere', mms=False, again=False):
    m = c.module('solver_classes.rhs_class_1')
    if M is None:
        M = c.int('M', 0, conc=[0, 1, 2, 3])
    NA = c.int('N_ang', 2, conc=[2, 4, 6, 3, 8])
    NS = c.int('N_space', 1)
    b = make_build(c, NA, NS, M, geo, mms)
    sphere = geo == 'sphere'
    rhs = c.call('__init__', m.rhs_class, b)
    t = c.real('t', nonneg=True)
    V = c.array('V', (NA, NS, M + 1))
    flat = V.reshape(NA * NS * (M + 1))
    # probe positions: an arbitrary place of the state, standing for the whole array
    pn, pj = c.int('probe_cell', 0), c.int('probe_j', 0)
    c.assume(pn < NS)
    c.assume(pj <= M)
    E, D = c.array('E', NS + 1, axioms='increasing'), c.array('D', NS + 1)
    E0, D0 = c.array('oldE', NS + 1), c.array('oldD', NS + 1)
    f = {k: c.func(k, nargs=n) for k, n in (('Lm', 4), ('Gm', 6), ('Jm', 4), ('Wm', 4), ('MPm', 6), ('LUv', 6), ('PVv', 6), ('Sv', 4), ('VVv', 4))}
    mesh = c.obj(edges=E0, Dedges=D0, N_space=NS)
    seen = c.obj(moved=0, sigma=0, coeffs=0)
    now = c.obj(t=t, E=E, D=D)

    def move(tt):
        c.check_eq('the mesh is moved to the requested time', tt, now.t)
        mesh.edges, mesh.Dedges = now.E, now.D
        seen.moved = 1
    mesh.move = move
    sigma = c.obj(VV=c.array('oldVV', M + 1), cs=c.array('cs', (NS, M + 1)))

    def sigma_moments(edges, tt):
        c.check_eq('opacity is updated on the moved mesh', edges, now.E)
        c.check_eq('opacity is updated at the requested time', tt, now.t)
        seen.sigma = 1

    def make_vectors(edges, u, space):
        c.check_eq('absorption on the moved mesh', edges, now.E)
        sigma.VV = c.vec(M + 1, lambda j: f['VVv'](j, space, u[pj], 4))
    sigma.sigma_moments, sigma.make_vectors = sigma_moments, make_vectors
    mats = c.obj(M=M)
    for k in ('L', 'G', 'MPRIME', 'Mass', 'J', 'VV'):
        setattr(mats, k, c.array('old' + k, (M + 1, M + 1)))

    def make_all(xL, xR, dxL, dxR):
        mats.L = c.vec((M + 1, M + 1), lambda i, j: f['Lm'](i, j, xL, xR))
        mats.G = c.vec((M + 1, M + 1), lambda i, j: f['Gm'](i, j, xL, xR, dxL, dxR))
        mats.MPRIME = c.vec((M + 1, M + 1), lambda i, j: f['MPm'](i, j, xL, xR, dxL, dxR))
        mats.Mass = c.vec((M + 1, M + 1), lambda i, j: f['Wm'](i, j, xL, xR) + c.ite(c.eq(i, j), 9, 0))
        mats.J = c.vec((M + 1, M + 1), lambda i, j: f['Jm'](i, j, xL, xR))
        mats.VV = c.vec((M + 1, M + 1), lambda i, j: 0)
    mats.make_all_matrices = make_all
    num = c.obj(LU=c.array('oldLU', M + 1))

    def make_LU(tt, msh, u, space, mu, ur):
        c.check_eq('flux at the requested time', tt, now.t)
        c.check_eq('flux on the moved mesh', msh.edges, now.E)
        num.LU = c.vec(M + 1, lambda j: f['LUv'](j, space, mu, u[pn, pj], c.ite(c.eq(space, 0), ur[pj], 0) if sphere else 0, 1))
    num.make_LU = make_LU
    # in a slab the scattering term contains the scattering cross section; before the first call it is zero (C08)
    scat = (lambda v: v) if sphere else (lambda v: c.ite(c.eq(b.sigma_s, 0), 0, v))
    oldP = c.array('oldP', M + 1)
    flux = c.obj(scalar_flux_term=c.vec(M + 1, lambda j: scat(oldP[j])))

    def get_coeffs(sg):
        c.check('flux uses the updated opacity', c.eq(seen.sigma, 1))
        seen.coeffs = 1
    pa = c.int('probe_angle', 0)
    c.assume(pa < NA)

    def make_P(u, space, xL, xR):
        c.check('opacity coefficients are loaded', c.eq(seen.coeffs, 1))
        flux.scalar_flux_term = c.vec(M + 1, lambda j: scat(f['PVv'](j, space, u[pa, pj], xL, xR, 2)))
    flux.get_coeffs, flux.make_P = get_coeffs, make_P
    src = c.obj(S=c.array('oldS', M + 1))
    unc = c.obj()

    def make_source(tt, xL, xR, sol):
        c.check_eq('source at the requested time', tt, now.t)
        src.S = c.vec(M + 1, lambda j: f['Sv'](j, xL, xR, 3))
    src.make_source = make_source

    def angular_source(tt, mu, xL, xR):
        c.check_eq('source at the requested time', tt, now.t)
        c.check('the manufactured source only in manufactured problems', mms)
        src.S = c.vec(M + 1, lambda j: f['Sv'](j, xL, xR, mu))
    src.make_source_not_isotropic = angular_source
    if again:
        # an earlier evaluation of the same right-hand side, possibly at the same time, of another state on another mesh
        t1 = c.real('t1', nonneg=True)
        now.t = c.ite(c.eq(c.int('same_time', 0, 1), 1), t, t1)
        now.E, now.D = c.array('E1', NS + 1, axioms='increasing'), c.array('D1', NS + 1)
        c.call('call', rhs.call, now.t, c.array('V1', (NA, NS, M + 1)).reshape(NA * NS * (M + 1)), mesh, mats, num, src, unc, flux, c.obj(), sigma)
        now.t, now.E, now.D = t, E, D
        seen.moved, seen.sigma, seen.coeffs = 0, 0, 0
    before = flat.copy()
    out = c.call('call', rhs.call, t, flat, mesh, mats, num, src, unc, flux, c.obj(), sigma)
    c.check_eq('state vector is not modified', flat, before)
    c.check_eq('length', out.shape[0], NA * NS * (M + 1))
    c.check('the mesh was moved', c.eq(seen.moved, 1))
    o3 = out.reshape((NA, NS, M + 1))
    mus, cs = b.mus, b.sigma_s

    def ddmu(a, s, j):
        """conservative difference of (1 - mu^2) psi between the midpoints around direction a"""
        mid = lambda k: (c.at(mus, k) + c.at(mus, k + 1)) / 2
        avg = lambda k: (c.at(V, k, s, j) + c.at(V, k + 1, s, j)) / 2
        first, last = c.eq(a, 0), c.eq(a, NA - 1)
        lo, hi = c.ite(first, -1, mid(a - 1)), c.ite(last, 1, mid(a))
        fl = c.ite(first, 0, (1 - mid(a - 1) ** 2) * avg(a - 1))
        fh = c.ite(last, 0, (1 - mid(a) ** 2) * avg(a))
        return (fh - fl) / (hi - lo)

    def expected(a, s):
        xL, xR, dxL, dxR = E[s], E[s + 1], D[s], D[s + 1]
        mu = mus[a]
        ra = c.ite(c.eq(s, 0), c.ite(2 * a >= NA, NA - 1 - a, 0), 0)
        inv = c.inv(c.vec((M + 1, M + 1), lambda i, j: f['Wm'](i, j, xL, xR) + c.ite(c.eq(i, j), 9, 0)))

        def rhs_i(i):
            r = -f['LUv'](i, s, mu, V[a, pn, pj], c.ite(c.eq(s, 0), c.at(V, ra, 0, pj), 0), 1)
            r = r + mu * c.sum(M + 1, lambda j: f['Lm'](i, j, xL, xR) * V[a, s, j])
            r = r - c.sum(M + 1, lambda j: f['Jm'](i, j, xL, xR) * ddmu(a, s, j))
            r = r + c.sum(M + 1, lambda j: f['Gm'](i, j, xL, xR, dxL, dxR) * V[a, s, j])
            r = r + f['Sv'](i, xL, xR, 3) * cs / 2
            return r - c.sum(M + 1, lambda j: f['MPm'](i, j, xL, xR, dxL, dxR) * V[a, s, j])

        def slab(i):
            r = -f['LUv'](i, s, mu, V[a, pn, pj], 0, 1)
            r = r + mu * c.sum(M + 1, lambda j: f['Lm'](i, j, xL, xR) * V[a, s, j])
            r = r + c.sum(M + 1, lambda j: f['Gm'](i, j, xL, xR, dxL, dxR) * V[a, s, j])
            r = r - f['VVv'](i, s, V[a, s, pj], 4)
            # the scalar flux and the uncollided source contain the scattering cross section in a slab (C08, C11)
            return r + scat(f['PVv'](i, s, V[pa, s, pj], xL, xR, 2)) + f['Sv'](i, xL, xR, mu if mms else 3) / 2

        def value(i):
            pv = f['PVv'](i, s, V[pa, s, pj], xL, xR, 2)
            return c.sum(M + 1, lambda j: inv[i, j] * rhs_i(j)) + cs * pv - V[a, s, i]
        return value if sphere else slab
    c.check_eq('derivative of the state', o3, lambda a, s, i: expected(a, s)(i))


def tasks(tier):
    fr = [R + 'call', R + 'time_step_counter', R + '__init__']
    ts = []
    for M in [None, 0, 1] if tier == 'quick' else [None, 0, 1, 2, 3]:
        n = 'M' if M is None else 'M%d' % M
        ts.append(Task('assembly-' + n, assembly, dict(M=M), functions=fr + ['solver_classes/functions.py:finite_diff_uneven'], budget=300, conc=8))
        ts.append(Task('assembly-slab-' + n, assembly, dict(M=M, geo='slab'), functions=fr, budget=300, conc=8))
    ts.append(Task('assembly-manufactured', assembly, dict(M=None, geo='slab', mms=True), functions=fr, budget=300, conc=8))
    for geo in ('sphere', 'slab'):
        ts.append(Task('assembly-again-' + geo, assembly, dict(M=None, geo=geo, again=True), functions=fr, budget=300, conc=8))
    return ts
