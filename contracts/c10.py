"""C10: uncollided flux of extended sources (solver_classes/functions.py, solver_classes/uncollided_solutions.py).

The flux at (x, t) is the integral over the emission time tau in [0, min(t, t0)] of the flux at x of the pulse emitted at tau; with s = t - tau
the age of the pulse, s runs over [a, t], a = t - min(t, t0)."""
from pyded.ctx import Task
from contracts.c09 import history, make, pos

FUN = 'solver_classes/functions.py:'
UNC = 'solver_classes/uncollided_solutions.py:uncollided_solution.'


def clip(c, v, lo, hi):
    return c.min(c.max(v, lo), hi)


def square_flux(c, x, t, x0, t0):
    """integral over s in [a, t] of exp(-s) * |[x-s, x+s] n [-x0, x0]| / (2 s).  The overlap is 2s, s + x0 - |x| or 2 x0 in the three ranges
    [0, x0-|x|], [| |x|-x0 |, x0+|x|], [x0+|x|, oo) of s (and zero for s < |x|-x0), with primitives -exp(-s), (-exp(-s) + (x0-|x|) Ei(-s))/2, x0 Ei(-s)"""
    y = c.abs(x)
    a = t - c.min(t, t0)
    p, q = c.abs(x0 - y), x0 + y
    s1, s2 = a, t
    inner = c.ite(y < x0, c.exp(-c.min(s1, p)) - c.exp(-c.min(s2, p)), 0)
    m1, m2 = clip(c, s1, p, q), clip(c, s2, p, q)
    ei = lambda s: c.ite(s > 0, (x0 - y) * c.expi(-c.ite(s > 0, s, 1)), 0)      # s = 0 only where |x| = x0: the factor vanishes
    mid = (c.exp(-m1) - c.exp(-m2) + ei(m2) - ei(m1)) / 2
    o1, o2 = c.max(s1, q), c.max(s2, q)
    return inner + mid + x0 * (c.expi(-o2) - c.expi(-o1))


def two_direction_square(c, x, t, x0, t0):
    """1/2 sum over the directions +-1/sqrt(3) of the integral over s in [a, t] of exp(-s) [ |x -+ s/sqrt(3)| <= x0 ]"""
    r3 = c.sqrt(3)
    a = t - c.min(t, t0)
    tot = 0
    for z in (x, -x):
        lo, hi = clip(c, r3 * (z - x0), a, t), clip(c, r3 * (z + x0), a, t)
        tot = tot + (c.exp(-lo) - c.exp(-hi)) / 2
    return tot


def two_direction_gaussian(c, x, t, g, t0):
    """1/2 sum over the directions of the integral over s in [a, t] of exp(-s - (x -+ s/sqrt(3))^2/g^2); completing the square,
    exp(-s - (z - s/sqrt 3)^2/g^2) = exp(3 g^2/4 - sqrt(3) z) exp(-((z - s/sqrt 3)/g - sqrt(3) g/2)^2)"""
    r3 = c.sqrt(3)
    a = t - c.min(t, t0)
    tot = 0
    for z in (x, -x):
        P = lambda s: c.erf((z - s / r3) / g - r3 * g / 2)
        tot = tot + r3 * g * c.sqrt(c.pi) / 4 * c.exp(3 * g * g / 4 - r3 * z) * (P(a) - P(t))
    return tot


def gx(r):
    return r.uniform(-4, 4)


def gt(r):
    return r.uniform(0.05, 5)


def cases(c, *pairs):
    """case split (of the proof only) on the order of the given pairs"""
    for a, b in pairs:
        c.branch(a < b)


def square(c, case):
    m = c.module('solver_classes.functions')
    x, t, t0, x0 = c.real('x', gen=gx), c.real('t', nonneg=True, gen=gt), c.real('t0', pos=True, gen=gt), c.real('x0', pos=True)
    if case == 'on':
        c.assume(t <= t0)
    else:
        c.assume(t > t0)
    y = c.abs(x)
    p, q = c.abs(x0 - y), x0 + y
    cases(c, (x, 0), (y, x0), (t, p), (t, q), (t - t0, p if case == 'off' else q), (t - t0, q))
    v = c.call('uncollided_square_s2', m.uncollided_square_s2, x, t, x0, t0)
    c.check_eq('integral over emission times', v, square_flux(c, x, t, x0, t0))


def s2square(c, case):
    m = c.module('solver_classes.functions')
    x, t, t0, x0 = c.real('x', gen=gx), c.real('t', nonneg=True, gen=gt), c.real('t0', pos=True, gen=gt), c.real('x0', pos=True)
    if case == 'on':
        c.assume(t <= t0)
    else:
        c.assume(t > t0)
    r3 = c.sqrt(3)
    cases(c, (x, 0), (t, r3 * (x0 - x)), (t, r3 * (x0 + x)), (t, r3 * (x - x0)), (t, r3 * (-x - x0)))
    if case == 'off':
        cases(c, (t - t0, r3 * (x0 - x)), (t - t0, r3 * (x0 + x)), (t - t0, r3 * (x - x0)), (t - t0, r3 * (-x - x0)))
    v = c.call('uncollided_su_olson_s2', m.uncollided_su_olson_s2, x, t, x0, t0)
    c.check_eq('integral over emission times', v, two_direction_square(c, x, t, x0, t0))


def s2gauss(c):
    m = c.module('solver_classes.functions')
    x, t, t0, g = c.real('x', gen=gx), c.real('t', nonneg=True, gen=gt), c.real('t0', pos=True, gen=gt), c.real('sigma', pos=True, gen=lambda r: r.uniform(0.2, 3))
    v = c.call('uncollided_s2_gaussian', m.uncollided_s2_gaussian, x, t, g, t0)
    c.check_eq('integral over emission times', v, two_direction_gaussian(c, x, t, g, t0))


def select_square(c, angles):
    n, t, s = c.int('n', 1), c.real('t', nonneg=True), c.real('strength')
    f = c.module('solver_classes.functions')
    k = dict(N_ang=2) if angles == 2 else {}
    b, u = make(c, 'slab', 2, s, **k)
    if angles != 2:
        c.assume(b.N_ang > 2)
    xs = pos(c, n)
    got = c.call('uncollided_solution', u.uncollided_solution, xs, t)
    g = f.uncollided_su_olson_s2 if angles == 2 else f.uncollided_square_s2
    c.check('one value per position', c.eq(got.shape[0], n))
    for i in c.each_index('i', n):
        c.check_eq('strength times the flux of a unit source', got[i], s * g(xs[i], t, b.x0, b.t0))


def nodes(c, Q):
    return c.array('t_nodes', Q, each=lambda v, i: c.and_(-1 < v, v < 1), gen=lambda r, s: r.uniform(-1, 1, s))


def gauss_quad(c):
    """general angles, Gaussian source: quadrature over the emission time of the Gaussian pulse of age s"""
    n, t, s = c.int('n', 1), c.real('t', pos=True), c.real('strength')
    Q = c.int('Q', 1)
    b, u = make(c, 'slab', 5, s, t_quad=nodes(c, Q), t_ws=c.array('t_weights', Q))
    c.assume(b.N_ang > 2)
    xs = pos(c, n)
    got = c.call('uncollided_solution', u.uncollided_solution, xs, t)
    half = c.min(t, b.t0) / 2

    def pulse(x, age):
        y = c.abs(x)
        return b.sigma * c.sqrt(c.pi) * c.exp(-age) * (c.erf((age - y) / b.sigma) + c.erf((age + y) / b.sigma)) / (4 * age)
    c.check_eq('quadrature over emission times', got, c.vec(n, lambda i: s * half * c.sum(Q, lambda q: b.t_ws[q] * pulse(xs[i], t - half * (1 + b.t_quad[q])))))


def gauss_s2(c, wide):
    n, t, s = c.int('n', 1), c.real('t', pos=True), c.real('strength')
    Q = c.int('Q', 1)
    g = c.real('sigma', pos=True, gen=(lambda r: r.uniform(5.1, 8)) if wide else (lambda r: r.uniform(0.2, 3)))
    c.assume(g > 5 if wide else g <= 5)
    b, u = make(c, 'slab', 5, s, N_ang=2, sigma=g, t_quad=nodes(c, Q), t_ws=c.array('t_weights', Q))
    xs = pos(c, n)
    got = c.call('uncollided_solution', u.uncollided_solution, xs, t)
    half = c.min(t, b.t0) / 2
    r3 = c.sqrt(3)

    def pulse(x, age):
        return c.exp(-age) * (c.exp(-((x - age / r3) / g) ** 2) + c.exp(-((x + age / r3) / g) ** 2)) / 2
    if wide:
        want = lambda x: half * c.sum(Q, lambda q: b.t_ws[q] * pulse(x, t - half * (1 + b.t_quad[q])))
    else:
        want = lambda x: two_direction_gaussian(c, x, t, g, b.t0)
    c.check_eq('integral over emission times', got, c.vec(n, lambda i: s * want(xs[i])))


def moving_shock(c, arrives):
    """boundary-driven problem with the moving opacity: a particle of direction mu > 0 at (x, t) left the boundary -x0 at te = t - (x + x0)/mu and
    was at s at the time e(s) = te + (s + x0)/mu.  The opacity is 1/5 before the shock, s < -v0 e(s), and exp(-((s + 1 + v0 e(s))/2)^2) behind it; a
    primitive of the latter in s is sqrt(pi) mu/(mu + v0) erf((s + 1 + v0 e(s))/2).  The particle exists if 0 <= te <= switch-off time."""
    x, t, mu, v0 = c.real('x', gen=lambda r: r.uniform(-2, 4)), c.real('t', pos=True, gen=gt), c.real('mu', gen=lambda r: r.uniform(0.05, 1)), c.real('v0', nonneg=True, gen=lambda r: r.uniform(0, 0.2))
    b, u = make(c, 'slab', None, 1, fake_sedov_v0=v0, t0=c.real('switch_off', pos=True, gen=gt))
    left = -b.x0
    c.assume(x > left)
    far = x - left
    if arrives < 0:
        c.assume(mu != 0)
        c.assume(mu + v0 != 0)
        c.assume(c.or_(mu < 0, far > mu * (t + c.q(1, 10 ** 10)), far < mu * (t - b.t0)))
        c.check_eq('nothing from the boundary', c.call('fake_sedov_integrand', u.fake_sedov_integrand, mu, t, x), 0)
        return
    c.assume(mu > 0)
    c.assume(far <= mu * t)
    c.assume(far >= mu * (t - b.t0))
    te = t - far / mu
    c.assume(left < -v0 * te)           # the shock has not reached the boundary
    at = lambda s: te + (s - left) / mu
    shock = (-v0 * te * mu + v0 * left) / (mu + v0)             # where s = -v0 e(s)
    c.check_eq('meeting point', shock, -v0 * at(shock))
    P = lambda s: c.sqrt(c.pi) * mu / (mu + v0) * c.erf((s + 1 + v0 * at(s)) / 2)
    depth = (c.min(x, shock) - left) / 5 + P(c.max(x, shock)) - P(shock)
    c.check_eq('attenuated by the optical depth along the path', c.call('fake_sedov_integrand', u.fake_sedov_integrand, mu, t, x), c.exp(-depth / mu))


def shock_flux(c):
    n, t, s, Q = c.int('n', 1), c.real('t', pos=True, gen=gt), c.real('strength'), c.int('Q', 1)
    v0 = c.real('v0', pos=True, gen=lambda r: r.uniform(0, 0.2))
    b, u = make(c, 'slab', None, s, fake_sedov_v0=v0, ws=c.array('ws', Q), mus=c.array('mus', Q, each=lambda v, i: v > 0, gen=lambda r, z: r.uniform(0.05, 1, z)))
    xs = pos(c, n)
    got = c.call('uncollided_solution', u.uncollided_solution, xs, t)
    left = -b.x0

    def psi(mu, x):
        te = t - (x - left) / mu
        shock = (-v0 * te * mu + v0 * left) / (mu + v0)
        P = lambda s: c.sqrt(c.pi) * mu / (mu + v0) * c.erf((s + 1 + v0 * (te + (s - left) / mu)) / 2)
        depth = (c.min(x, shock) - left) / 5 + P(c.max(x, shock)) - P(shock)
        d = c.abs(x - left)
        return c.ite(c.and_(d <= mu * (t + c.q(1, 10 ** 10)), d >= mu * (t - b.t0)), c.exp(-depth / mu), 0)
    c.check('one value per position', c.eq(got.shape[0], n))
    for i in c.each_index('i', n):
        c.check_eq('integral over the directions (their weights sum to one)', got[i], s * 2 * c.sum(Q, lambda q: b.ws[q] * psi(b.mus[q], xs[i])))


def tasks(tier):
    ts = []
    for case in ('on', 'off'):
        ts.append(Task('square-' + case, square, dict(case=case), functions=[FUN + x for x in ('uncollided_square_s2', 'f1', 'f2', 'f3')]))
        ts.append(Task('s2-square-' + case, s2square, dict(case=case), functions=[FUN + x for x in ('uncollided_su_olson_s2', 's2_F')]))
    ts.append(Task('s2-gaussian', s2gauss, functions=[FUN + 'uncollided_s2_gaussian']))
    for a in (2, 4):
        ts.append(Task('select-square-%s' % ('s2' if a == 2 else 'isotropic'), select_square, dict(angles=a),
                       functions=[UNC + x for x in ('uncollided_solution', 'su_olson_s2_uncollided_solution' if a == 2 else 'square_source_uncollided_solution')]))
    ts.append(Task('gaussian-source', gauss_quad, functions=[UNC + x for x in ('uncollided_solution', 'gaussian_source_uncollided_solution', 'gaussian_source_integrand', 'integrate_quad_gaussian_source')]))
    for w in (0, 1):
        ts.append(Task('gaussian-source-s2-%s' % ('wide' if w else 'narrow'), gauss_s2, dict(wide=w),
                       functions=[UNC + x for x in ('uncollided_solution', 'gaussian_s2', 'gaussian_s2_thick_integrand', 'integrate_quad_gaussian_source')] + [FUN + 'uncollided_s2_gaussian']))
    for a in (1, -1):
        ts.append(Task('moving-shock' + ('' if a > 0 else '-absent'), moving_shock, dict(arrives=a), functions=[UNC + 'fake_sedov_integrand', FUN + 'heaviside_scalar']))
    ts.append(Task('moving-shock-flux', shock_flux, functions=[UNC + x for x in ('uncollided_solution', 'fake_sedov', 'integrate_quad_sedov_source')]))
    for name, kind, a in (('square', 2, 4), ('square-s2', 2, 2), ('gaussian', 5, 4), ('gaussian-s2', 5, 2), ('moving-shock', None, 4)):
        ts.append(Task('history-' + name, history, dict(geo='slab', kind=kind, angles=a), functions=[UNC + 'uncollided_solution']))
    return ts
