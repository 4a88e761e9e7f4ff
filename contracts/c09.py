"""C09: uncollided flux of initial pulses (solver_classes/uncollided_solutions.py)."""
from pyded.ctx import Task

FILE = 'solver_classes/uncollided_solutions.py'
F = lambda *n: [FILE + ':uncollided_solution.' + x for x in ('__init__',) + n]
EPS = 10 ** -12


def make(c, geo, kind, strength, **k):
    """an uncollided_solution object for one problem description; kind = index of the source type that is on, None = no source type"""
    m = c.module('solver_classes.uncollided_solutions')
    Q = c.int('Q', 1)
    b = dict(source_type=[int(i == kind) for i in range(7)], uncollided=1, x0=c.real('x0', pos=True), M=1, xs_quad=c.array('xq', Q), ws_quad=c.array('wq', Q),
             moving=1, tfinal=c.real('tfinal', pos=True), t0=c.real('t0', pos=True), t_quad=c.array('tq', Q, gen=lambda r, s: r.uniform(-1, 1, s)),
             t_ws=c.array('tw', Q), N_ang=c.int('N_ang', 2), sigma=c.real('sigma', pos=True), source_strength=strength, fake_sedov_v0=c.real('v0'),
             ws=c.array('ws', Q), mus=c.array('mus', Q), geometry=c.dict({'slab': int(geo == 'slab'), 'sphere': int(geo == 'sphere')}))
    b.update(k)
    return finish(c, m, b)


def finish(c, m, b):
    args = dict(b)
    b = c.build(**b)
    b.args = args
    u = c.call('__init__', m.uncollided_solution, b)
    u.uncollided_solution_return = c.array('left_by_an_earlier_call', c.int('n_earlier', 1))
    return b, u


def slack(c):
    """floating point slack of the replay on the real code; the proof has none"""
    return 0 if c.symbolic else c.q(1, 10 ** 9)


def sandwich(c, label, phi, exact_t, t, a=1):
    """exact_t / t * t/(t + a*eps) <= phi <= exact_t / t : the exact value up to the regularisation of the division by time"""
    s = slack(c)
    c.check(label + ': not above the exact value', phi * t <= exact_t * (1 + s) + s * s)
    c.check(label + ': not below the exact value regularised at small times', phi * (t + a * c.q(1, 10 ** 12)) >= exact_t * (1 - s) - s * s)


def pos(c, n, name='xs'):
    return c.array(name, n, gen=lambda r, s: r.uniform(-3, 3, s))


def plane(c):
    n, t, s = c.int('n', 1), c.real('t', pos=True), c.real('strength', pos=True)
    b, u = make(c, 'slab', 0, s)
    xs = pos(c, n)
    phi = c.call('uncollided_solution', u.uncollided_solution, xs, t)
    E = s * c.exp(-t)
    c.check('one value per position', c.eq(phi.shape[0], n))
    for i in c.each_index('i', n):
        sandwich(c, 'plane pulse', phi[i], c.ite(c.and_(-t <= xs[i], xs[i] <= t), E, 0) / 2, t)


def plane_cell(c):
    t = c.real('t', pos=True)
    b, u = make(c, 'slab', 0, c.real('strength', pos=True))
    xL, w = c.real('xL'), c.real('width', pos=True)
    v = c.call('plane_IC_uncollided_solution_integrated', u.plane_IC_uncollided_solution_integrated, t, xL, xL + w)
    # integral over a cell of the constant flux, regularised by the half-width of the initial mesh, times the constant basis function 1/sqrt(width)
    c.check_eq('cell integral of the plane pulse', v, c.exp(-t) / (2 * t + b.x0) * w / c.sqrt(w))


def square(c):
    n, t, s = c.int('n', 1), c.real('t', pos=True), c.real('strength', pos=True)
    b, u = make(c, 'slab', 1, s)
    xs = pos(c, n)
    phi = c.call('uncollided_solution', u.uncollided_solution, xs, t)
    c.check('one value per position', c.eq(phi.shape[0], n))
    for i in c.each_index('i', n):
        x = xs[i]
        L = c.max(0, c.min(x + t, b.x0) - c.max(x - t, -b.x0))     # length of the part of the pulse a unit-speed signal reaches from
        sandwich(c, 'square pulse', phi[i], s * c.exp(-t) * L / 2, t)


def square_sides(c):
    """derived: symmetric, not negative, zero outside the light cone"""
    t = c.real('t', pos=True)
    b, u = make(c, 'slab', 1, 1)
    x = c.real('x', gen=lambda r: r.uniform(-3, 3))
    p = c.call('uncollided_solution', u.uncollided_solution, c.arr([x]), t)[0]
    q = c.call('uncollided_solution', u.uncollided_solution, c.arr([-x]), t)[0]
    c.check_eq('symmetric', p, q)
    c.check('not negative', p >= 0)
    c.check('zero ahead of the fastest signal', c.implies(c.abs(x) > t + b.x0, c.eq(p, 0)))


def gaussian(c):
    n, t, s = c.int('n', 1), c.real('t', pos=True), c.real('strength', pos=True)
    b, u = make(c, 'slab', 3, s)
    xs = pos(c, n)
    phi = c.call('uncollided_solution', u.uncollided_solution, xs, t)
    c.check('one value per position', c.eq(phi.shape[0], n))
    for i in c.each_index('i', n):
        x, g = xs[i], b.sigma
        e = s * g * c.exp(-t) * c.sqrt(c.pi) * (c.erf((t - x) / g) + c.erf((t + x) / g)) / 4
        sandwich(c, 'Gaussian pulse', phi[i], e, t)
        c.check('not negative', phi[i] >= 0)


def gaussian_sides(c):
    t = c.real('t', pos=True)
    b, u = make(c, 'slab', 3, 1)
    x = c.real('x', gen=lambda r: r.uniform(-3, 3))
    p = c.call('uncollided_solution', u.uncollided_solution, c.arr([x]), t)[0]
    q = c.call('uncollided_solution', u.uncollided_solution, c.arr([-x]), t)[0]
    c.check_eq('symmetric', p, q)


def shell(c):
    n, t, s = c.int('n', 1), c.real('t', pos=True), c.real('strength', pos=True)
    b, u = make(c, 'sphere', 1, s)
    xs = c.array('rs', n, each=lambda v, i: v > 0, gen=lambda r, s: r.uniform(0.05, 4, s))
    phi = c.call('uncollided_solution', u.uncollided_solution, xs, t)
    R = b.x0
    tt = t + c.q(1, 10 ** 12)
    c.check('one value per position', c.eq(phi.shape[0], n))
    for i in c.each_index('i', n):
        r = xs[i]
        mc = c.min(1, c.max(-1, (r * r + tt * tt - R * R) / (2 * r * tt)))   # particles with direction cosine above mc come from inside the sphere
        c.check_eq('uniform sphere', phi[i], s * 3 / (4 * c.pi * R ** 3) * (1 - mc) / 2 * c.exp(-t))
        c.check('not negative', phi[i] >= 0)
        c.check('zero outside the light cone', c.implies(r >= R + tt, c.eq(phi[i], 0)))
        c.check('zero after the last particle has passed', c.implies(tt >= R + r, c.eq(phi[i], 0)))


def scaling(c, geo, kind):
    n, t = c.int('n', 1), c.real('t', pos=True)
    s = c.real('strength')
    k = {} if kind not in (2, 5) else dict(N_ang=c.choice('angles', [2, 4]))
    xs = c.array('xs', n, each=lambda v, i: v > 0, gen=lambda r, s: r.uniform(0.05, 4, s)) if geo == 'sphere' else pos(c, n)
    b1, u1 = make(c, geo, kind, 1, **k)
    one = c.call('uncollided_solution', u1.uncollided_solution, xs, t)
    bs, us = finish(c, c.module('solver_classes.uncollided_solutions'), dict(b1.args, source_strength=s))
    many = c.call('uncollided_solution', us.uncollided_solution, xs, t)
    c.check_eq('linear in the source strength', many, lambda i: s * one[i])


def history(c, geo, kind, angles=None):
    """an object that has answered before -- possibly at the same time, possibly for as many positions, and the answer
    has been changed by its receiver since -- gives what a new object gives, and leaves what it gave before alone"""
    k = {} if angles is None else dict(N_ang=angles)
    if kind in (2, 5) or kind is None:
        k['t_quad'] = c.array('tq', 1, gen=lambda r, s: r.uniform(-1, 1, s), each=lambda v, i: c.and_(-1 < v, v < 1))
        k['t_ws'] = c.array('tw', 1)
        k['mus'], k['ws'] = c.array('mus', 1, each=lambda v, i: v > 0, gen=lambda r, z: r.uniform(0.05, 1, z)), c.array('ws', 1)
    b, u = make(c, geo, kind, c.real('strength'), **k)
    _, new = finish(c, c.module('solver_classes.uncollided_solutions'), b.args)
    n, n1 = c.int('n', 1), c.int('n1', 1)
    place = lambda name, z: c.array(name, z, each=lambda v, i: v > 0, gen=lambda r, s: r.uniform(0.05, 4, s)) if geo == 'sphere' else pos(c, z, name)
    xs, t, t1 = place('xs', n), c.real('t', pos=True), c.real('t1', pos=True)
    same = c.int('same', 0, 2)
    t1 = c.ite(c.eq(same, 0), t1, t)
    n1 = c.ite(c.eq(same, 2), n, n1)
    first = c.call('uncollided_solution', u.uncollided_solution, place('xs1', n1), t1)
    first[0] = c.real('changed')
    kept = first.copy()
    xs0 = xs.copy()
    got = c.call('uncollided_solution', u.uncollided_solution, xs, t)
    c.check_eq('the same as from a new object', got, c.call('uncollided_solution', new.uncollided_solution, xs, t))
    c.check_eq('what was handed out before keeps its values', first, kept)
    c.check_eq('positions are not modified', xs, xs0)


def off(c, geo):
    n, t, s = c.int('n', 1), c.real('t', nonneg=True), c.real('strength')
    kind = c.choice('kind', [None, 0, 1, 2, 3, 4, 5])
    b, u = make(c, geo, kind, s, uncollided=0)
    xs = pos(c, n)
    c.check_eq('zero when the uncollided treatment is off', c.call('uncollided_solution', u.uncollided_solution, xs, t), c.vec(n, lambda i: 0))


def select_sedov(c):
    """no source type set: the streaming solution of the moving-opacity problem"""
    t, s = c.real('t', pos=True), c.real('strength')
    Q = 1
    b, u = make(c, 'slab', None, s, mus=c.arr([c.real('mu', pos=True)]), ws=c.array('w', Q), v0=c.real('v0', nonneg=True))
    xs = c.arr([c.real('x')])
    want = c.call('fake_sedov', u.fake_sedov, xs, t)
    got = c.call('uncollided_solution', u.uncollided_solution, xs, t)
    c.check_eq('streaming through the moving opacity', got, lambda i: s * want[i])


def select_point(c):
    n, t, s = c.int('n', 1), c.real('t', pos=True), c.real('strength')
    b, u = make(c, 'sphere', 0, s)
    xs = c.array('rs', n, each=lambda v, i: v > 0, gen=lambda r, s: r.uniform(0.05, 4, s))
    got = c.call('uncollided_solution', u.uncollided_solution, xs, t)
    for i in c.each_index('i', n):
        c.check('no uncollided flux away from the front of a point pulse', c.implies(c.abs(xs[i] - t) > c.q(1, 10 ** 9), c.eq(got[i], 0)))


def tasks(tier):
    u = 'uncollided_solution'
    ts = [Task('plane', plane, functions=F(u, 'plane_IC_uncollided_solution')),
          Task('plane-cell', plane_cell, functions=F('plane_IC_uncollided_solution_integrated')),
          Task('square', square, functions=F(u, 'square_IC_uncollided_solution')),
          Task('square-derived', square_sides, functions=F(u, 'square_IC_uncollided_solution')),
          Task('gaussian', gaussian, functions=F(u, 'gaussian_IC_uncollided_solution')),
          Task('gaussian-derived', gaussian_sides, functions=F(u, 'gaussian_IC_uncollided_solution')),
          Task('sphere', shell, functions=F(u, 'shell_IC_uncollided_solution')),
          Task('sedov', select_sedov, functions=F(u)),
          Task('point', select_point, functions=F(u, 'point_source'))]
    for geo in ('slab', 'sphere'):
        ts.append(Task('off-' + geo, off, dict(geo=geo), functions=F(u)))
    for geo, kinds in (('slab', (0, 1, 3)), ('sphere', (0, 1))):
        for k in kinds:
            ts.append(Task('history-%s-%d' % (geo, k), history, dict(geo=geo, kind=k), functions=F(u)))
            ts.append(Task('linear-%s-%d' % (geo, k), scaling, dict(geo=geo, kind=k), functions=F(u)))
    return ts
