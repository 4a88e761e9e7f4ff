"""C07: scalar flux, angular derivative, direction weights (phi_class.py, functions.finite_diff_uneven, build_problem.py)."""
from pyded.ctx import Task

F = 'solver_classes/phi_class.py:scalar_flux.'
NX = 15


def directions(c, N):
    import numpy as np
    return c.array('mus', N, axioms='increasing', gen=lambda r, s: np.sort(r.uniform(-1, 1, s)), each=(lambda v, i: c.and_(-1 <= v, v <= 1)) if c.symbolic else None)


def flux(c, geo, const, M, Ms, again=False):
    m = c.module('solver_classes.phi_class')
    N = c.int('N_ang', 1)
    NS = c.int('N_space', 1)
    M = c.int('M', 0, conc=[0, 1, 2, 3]) if M is None else M
    Ms = c.int('Msigma', 0, conc=[0, 1, 2]) if Ms is None else Ms
    ws = c.array('ws', N)
    b = c.build(M=M, ws=ws, thermal_couple=c.dict({'none': 1}), sigma_func=c.dict({'constant': int(const)}), sigma_s=c.real('sigma_s'), N_ang=N, Msigma=Ms,
              geometry=c.dict({'slab': int(geo == 'slab'), 'sphere': int(geo == 'sphere')}))
    s = c.call('__init__', m.scalar_flux, b)
    # the object has served arbitrary earlier calls
    s.P = c.array('old_P', M + 1)
    s.PV = c.array('old_PV', M + 1)
    s.scalar_flux_term = c.array('old_term', M + 1)
    s.cs = c.array('old_cs', (NS, Ms + 1))
    cs, AAA = c.array('cs', (NS, Ms + 1)), c.array('AAA', (M + 1, M + 1, Ms + 1))
    c.call('load_AAA', s.load_AAA, AAA)
    c.call('get_coeffs', s.get_coeffs, c.obj(cs=cs))
    u = c.array('u', (N, M + 1))
    ws0, u0 = ws.copy(), u.copy()
    sp = c.int('space', 0)
    c.assume(sp < NS)
    xL, dx = c.real('xL'), c.real('dx', pos=True)
    if again:
        # a real earlier call for another (possibly the same) cell and another state, with other opacity coefficients
        s1, x1 = c.int('earlier_space', 0), c.ite(c.eq(c.int('same_cell', 0, 1), 1), xL, c.real('earlier_xL'))
        c.assume(s1 < NS)
        c.call('get_coeffs', s.get_coeffs, c.obj(cs=c.array('earlier_cs', (NS, Ms + 1))))
        c.call('make_P', s.make_P, c.array('earlier_u', (N, M + 1)), s1, x1, x1 + c.real('earlier_dx', pos=True))
        c.call('get_coeffs', s.get_coeffs, c.obj(cs=cs))
    c.call('make_P', s.make_P, u, sp, xL, xL + dx)
    if const:
        k = b.sigma_s if geo == 'slab' else 1
        c.check_eq('scalar flux', s.scalar_flux_term, lambda i: k * c.sum(N, lambda l: ws[l] * u[l, i]))
    else:
        def pv(i):
            return c.sum(N, lambda l: c.sum(M + 1, lambda j: c.sum(Ms + 1, lambda k: b.sigma_s * cs[sp, k] * AAA[i, j, k] * u[l, j] * ws[l])))
        c.check_eq('scalar flux with variable opacity', s.scalar_flux_term, lambda i: pv(i) / c.sqrt(dx))
        c.check_eq('call_P_noncon', c.call('call_P_noncon', s.call_P_noncon, xL, xL + dx), lambda i: pv(i) / c.sqrt(dx))
    # the weights and the state are inputs only
    c.check_eq('weights unchanged', s.ws, ws0)
    c.check_eq('state unchanged', u, u0)


def isotropic(c, geo):
    """a state equal in every direction gives that state back when the weights sum to one"""
    m = c.module('solver_classes.phi_class')
    N, M = c.int('N_ang', 1), c.int('M', 0, conc=[0, 1, 2])
    ws = c.array('ws', N, gen=lambda r, s: (lambda x: x / x.sum())(r.uniform(0.1, 1, s)))
    c.assume(c.eq(c.sum(N, lambda k: ws[k]), 1) if c.symbolic else True)
    b = c.build(M=M, ws=ws, thermal_couple=c.dict({'none': 1}), sigma_func=c.dict({'constant': 1}), sigma_s=c.real('sigma_s'), N_ang=N, Msigma=0,
              geometry=c.dict({'slab': int(geo == 'slab'), 'sphere': int(geo == 'sphere')}))
    s = c.call('__init__', m.scalar_flux, b)
    c.call('load_AAA', s.load_AAA, c.array('AAA', (M + 1, M + 1, 1)))
    c.call('get_coeffs', s.get_coeffs, c.obj(cs=c.array('cs', (1, 1))))
    v = c.array('v', M + 1)
    u = c.vec((N, M + 1), lambda l, j: v[j])
    c.call('make_P', s.make_P, u, 0, c.real('xL'), c.real('xL') + c.real('dx', pos=True))
    k = b.sigma_s if geo == 'slab' else 1
    c.check_eq('isotropic state', s.scalar_flux_term, lambda i: k * v[i])


def derivative(c, where):
    m = c.module('solver_classes.functions')
    N = c.int('N_ang', 3 if where == 'inside' else 2)
    mu = directions(c, N)
    psi = c.array('psi', N)
    a = {'first': 0, 'last': N - 1}.get(where)
    if a is None:
        a = c.int('angle', 1)
        c.assume(a < N - 1)
    d = c.call('finite_diff_uneven', m.finite_diff_uneven, mu, a, psi, left=(where == 'first'), right=(where == 'last'))

    def crossing(k):
        """flux (1 - mu^2) psi through the midpoint between directions k and k+1"""
        x = (mu[k] + mu[k + 1]) / 2
        return (1 - x * x) * (psi[k] + psi[k + 1]) / 2
    lo = -1 if where == 'first' else (mu[a - 1] + mu[a]) / 2
    hi = 1 if where == 'last' else (mu[a] + mu[a + 1]) / 2
    c.check('cell of positive width', lo < hi)
    # telescoping: with S_k the sum of width * derivative over directions 0..k, S_k = crossing(k) for k < N-1 and S_(N-1) = 0
    before = 0 if where == 'first' else crossing(a - 1)
    after = 0 if where == 'last' else crossing(a)
    c.check_eq('running sum of width times derivative', before + d * (hi - lo), after)
    c.check_eq('conservative difference', d, (after - before) / (hi - lo))


def whole(c):
    """the width-weighted sum over all directions vanishes (small numbers of directions, directly)"""
    m = c.module('solver_classes.functions')
    N = c.choice('N', [2, 3, 4, 6])
    mu, psi = directions(c, N), c.array('psi', N)
    tot = 0
    for a in range(N):
        d = c.call('finite_diff_uneven', m.finite_diff_uneven, mu, a, psi, left=(a == 0), right=(a == N - 1))
        lo = -1 if a == 0 else (mu[a - 1] + mu[a]) / 2
        hi = 1 if a == N - 1 else (mu[a] + mu[a + 1]) / 2
        tot = tot + d * (hi - lo)
    c.check_eq('nothing is created', tot, 0)


def weights(c):
    m = c.module('solver_classes.build_problem')
    N = c.int('N_ang', 1)
    raw = c.array('ws_in', N, each=lambda v, i: v > 0, gen=lambda r, s: r.uniform(0.1, 2, s))
    NS, M = c.int('N_space', 1), c.int('M', 0, conc=[0, 1, 2])
    Q = c.int('Q', 1)
    st, ss = c.real('sigma_t', pos=True), c.real('sigma_s')
    g = c.dict({'slab': 0, 'sphere': 1})
    z = lambda n: c.array(n, Q)
    mus = c.array('mus', N)
    b = c.call('build.__init__', m.build, N, NS, M, c.real('tfinal', pos=True), c.real('x0', pos=True), c.real('t0'), mus, raw, z('xq'), z('wq'), st, ss,
               [0] * NX, 1, 1, [1, 0, 0, 0], z('tq'), z('tw'), c.dict({'none': 1}), [0] * 5, c.real('e_init'), c.real('sigma'), c.real('pv'),
               c.real('ev'), c.real('cv0'), 0, c.array('wl', (1, 4, 2)), c.real('strength'), c.real('mf'), c.real('l'), 0, c.real('pad'), c.real('lpad'), z('qts'),
               z('qte'), [0, 0], c.real('bss'), 0, c.dict({'constant': 1}), 0, 0, c.real('width'), c.real('v0'), 0, c.real('eps'), g)
    c.assume(c.sum(N, lambda k: raw[k]) > 0)
    c.check_eq('weights sum to one', c.sum(N, lambda k: b.ws[k]), 1)
    c.check_eq('weights keep their proportions', b.ws, lambda k: raw[k] / c.sum(N, lambda l: raw[l]))
    c.check_eq('directions', b.mus, mus)
    c.check_eq('absorption', b.sigma_a, st - ss)
    c.check_eq('initial condition has one entry per direction, cell and mode', b.IC, c.vec((N, NS, M + 1), lambda a, s, j: 0))


def tasks(tier):
    ts = []
    for geo in ('slab', 'sphere'):
        ts.append(Task('flux-constant-%s' % geo, flux, dict(geo=geo, const=1, M=None, Ms=None), functions=[F + x for x in ('__init__', 'make_P', 'get_coeffs', 'load_AAA')]))
        ts.append(Task('flux-isotropic-%s' % geo, isotropic, dict(geo=geo), functions=[F + 'make_P']))
        ts.append(Task('flux-variable-%s' % geo, flux, dict(geo=geo, const=0, M=None, Ms=None), functions=[F + x for x in ('__init__', 'make_P', 'call_P_noncon', 'get_coeffs', 'load_AAA')]))
        for const in (0, 1):
            ts.append(Task('flux-again-%s-%d' % (geo, const), flux, dict(geo=geo, const=const, M=None, Ms=None, again=True), functions=[F + x for x in ('make_P', 'call_P_noncon', 'get_coeffs')]))
    for w in ('first', 'inside', 'last'):
        ts.append(Task('angular-derivative-%s' % w, derivative, dict(where=w), functions=['solver_classes/functions.py:finite_diff_uneven']))
    ts.append(Task('angular-derivative-sum', whole, functions=['solver_classes/functions.py:finite_diff_uneven']))
    ts.append(Task('direction-weights', weights, functions=['solver_classes/build_problem.py:build.__init__']))
    return ts
