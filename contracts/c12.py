"""C12: reported fluxes (solver_classes/make_phi.py)."""
from pyded.ctx import Task
from contracts.c11 import basis, geom, orders
from contracts.c03 import poly
from contracts.polys import leg, pder

OUT = 'solver_classes/make_phi.py:make_output.'


def setup(c, geo, M, unc, blocks=0):
    m = c.module('solver_classes.make_phi')
    M = c.int('M', 12, conc=[12, 13]) if M == '12up' else orders(c, geo, M)
    NA, N, n = c.int('N_ang', 1), c.int('N_space', 1, conc=[2, 1, 3, 5]), c.int('points', 1)
    E = c.array('edges', N + 1, axioms='increasing', gen=lambda r, s: __import__('numpy').cumsum(r.uniform(0.1, 1, s)))
    xs = c.array('xs', n, gen=lambda r, s: pick(r, E, s[0]))
    u = c.array('u', (NA + blocks, N, M + 1))
    ws = c.array('ws', NA)
    t = c.real('t', nonneg=True)
    o = c.call('__init__', m.make_output, t, NA, ws, xs, u, M, E, unc, geom(c, geo))
    U = c.func('U', nargs=2)
    us = c.obj(uncollided_solution=lambda x, tt: c.vec(x.shape[0], lambda i: U(x[i], tt)))
    return c.obj(M=M, NA=NA, N=N, n=n, E=E, xs=xs, u=u, ws=ws, t=t, U=U, us=us), o


def pick(r, E, n):
    """evaluation points on edges, inside and outside"""
    out = []
    for _ in range(n):
        if r.uniform() < 0.4:
            out.append(E[r.randint(len(E))])
        else:
            out.append(r.uniform(E[0] - 0.5, E[-1] + 0.5))
    return out


def expand(c, geo, s, a, k, x):
    """expansion of block a in cell k at x"""
    h = s.E[k + 1] - s.E[k]
    z = (2 * x - s.E[k] - s.E[k + 1]) / h
    return c.sum(s.M + 1, lambda j: s.u[a, k, j] * basis(c, geo, j, z, h)) if geo == 'slab' else \
        sum((s.u[a, k, j] * basis(c, geo, j, z, h) for j in range(s.M + 1)), 0)


WHERE = ['inside', 'edge', 'first', 'last', 'outside']


def place(c, s, i, where):
    """the evaluation point i lies at the named place of cell k"""
    E, x = s.E, s.xs[i]
    if not c.symbolic:
        return [k for k in range(s.N) if E[k] <= x <= E[k + 1]]
    k = c.int('cell', 0)
    c.assume(k < s.N)
    if where == 'inside':
        c.assume(c.and_(E[k] < x, x < E[k + 1]))
        return [k]
    if where == 'edge':         # a point on an interior edge belongs to both cells
        c.assume(c.and_(k >= 1, c.eq(x, E[k])))
        return [k - 1, k]
    if where == 'first':
        c.assume(c.eq(x, E[0]))
        return [0]
    if where == 'last':
        c.assume(c.eq(x, E[s.N]))
        return [s.N - 1]
    c.assume(c.or_(x < E[0], x > E[s.N]))
    return []




def flux(c, geo, where, unc, M):
    s, o = setup(c, geo, M, unc)
    phi = c.call('make_phi', o.make_phi, s.us)
    psi = o.psi_out
    c.check('one angular flux per direction and point', c.and_(c.eq(psi.shape[0], s.NA), c.eq(psi.shape[1], s.n)))
    for i in c.each_index('point', s.n):
        ks = place(c, s, i, where)
        for a in c.each_index('direction', s.NA):
            c.check_one_of('angular flux is the expansion in the cell of the point', psi[a, i], [expand(c, geo, s, a, k, s.xs[i]) for k in ks])
    c.check_eq('scalar flux is the weighted sum over directions plus the uncollided flux', phi,
               c.vec(s.n, lambda i: c.sum(s.NA, lambda a: s.ws[a] * psi[a, i]) + (s.U(s.xs[i], s.t) if unc else 0)))
    c.check_eq('stored and returned flux agree', o.phi_out, phi)
    c.check_eq('coefficients unchanged', o.u, s.u)


def energy(c, geo, where, M):
    s, o = setup(c, geo, M, 0, blocks=1)
    e = c.call('make_e', o.make_e)
    c.check('one value per point', c.eq(e.shape[0], s.n))
    for i in c.each_index('point', s.n):
        ks = place(c, s, i, where)
        c.check_one_of('material energy is the expansion of the material block', e[i], [expand(c, geo, s, s.NA, k, s.xs[i]) for k in ks])
    c.check_eq('stored and returned energy agree', o.e_out, e)


def slope(c, where, M):
    """the reported derivative of the material energy (slab, orders 0..11)"""
    s, o = setup(c, 'slab', M, 0, blocks=1)
    c.call('make_e', o.make_e)
    for i in c.each_index('point', s.n):
        ks = place(c, s, i, where)

        def der(k):
            h = s.E[k + 1] - s.E[k]
            z = (2 * s.xs[i] - s.E[k] - s.E[k + 1]) / h
            return sum((s.u[s.NA, k, j] * c.sqrt((2 * j + 1) / h) * 2 / h * poly(c, pder(leg(j)), z) for j in range(s.M + 1)), 0)
        c.check_one_of('derivative of the material energy', o.dx_e[i], [der(k) for k in ks])


def exits(c, geo, unc, M):
    s, o = setup(c, geo, M, unc)
    dist, phi = c.call('get_exit_dist', o.get_exit_dist, s.us)
    ends = [(s.E[0], 0), (s.E[s.N], s.N - 1)]
    for k, (x, cell) in enumerate(ends):
        c.check_eq('exit distribution', dist[:, k], c.vec(s.NA, lambda a: expand(c, geo, s, a, cell, x)))
        c.check_eq('exit flux', phi[k], c.sum(s.NA, lambda a: s.ws[a] * expand(c, geo, s, a, cell, x)) + (s.U(x, s.t) if unc else 0))
    c.check('two ends', c.and_(c.eq(dist.shape[1], 2), c.eq(phi.shape[0], 2)))
    c.check_eq('stored and returned distribution agree', o.exit_dist, dist)


def order(c, geo, M):
    """every report of one output object is what a new object would report, whatever was asked for before, and
    arrays handed out keep their values"""
    s, o = setup(c, geo, M, 1, blocks=1)
    m = c.module('solver_classes.make_phi')
    new = lambda: c.call('__init__', m.make_output, s.t, s.NA, s.ws, s.xs, s.u, s.M, s.E, 1, geom(c, geo))
    w0, u0, x0, e0 = s.ws.copy(), s.u.copy(), s.xs.copy(), s.E.copy()
    if c.choice('asked for first', ['flux', 'exit']) == 'flux':
        c.call('make_phi', o.make_phi, s.us)
    else:
        c.call('get_exit_dist', o.get_exit_dist, s.us)
    phi = c.call('make_phi', o.make_phi, s.us)
    psi = o.psi_out
    e = c.call('make_e', o.make_e)
    dist, ends = c.call('get_exit_dist', o.get_exit_dist, s.us)
    a = new()
    c.check_eq('scalar flux', phi, c.call('make_phi', a.make_phi, s.us))
    c.check_eq('angular flux', psi, a.psi_out)
    c.check_eq('material energy', e, c.call('make_e', new().make_e))
    d1, e1 = c.call('get_exit_dist', new().get_exit_dist, s.us)
    c.check_eq('exit distribution', dist, d1)
    c.check_eq('exit flux', ends, e1)
    for what, now, then in (('weights', s.ws, w0), ('coefficients', s.u, u0), ('positions', s.xs, x0), ('edges', s.E, e0)):
        c.check_eq(what + ' unchanged', now, then)


def tasks(tier):
    big = tier != 'quick'
    ts = []
    for geo, Ms in (('slab', [None]), ('sphere', [0, 2] if not big else [0, 1, 2, 4, 8])):
        for M in Ms:
            for w in WHERE:
                ts.append(Task('flux-%s-M%s-%s' % (geo, M, w), flux, dict(geo=geo, where=w, unc=0, M=M), functions=[OUT + x for x in ('__init__', 'make_phi', 'basis')]))
            ts.append(Task('flux-%s-M%s-uncollided' % (geo, M), flux, dict(geo=geo, where='inside', unc=1, M=M), functions=[OUT + 'make_phi']))
            for unc in (0, 1):
                ts.append(Task('exit-%s-M%s-%d' % (geo, M, unc), exits, dict(geo=geo, unc=unc, M=M), functions=[OUT + 'get_exit_dist']))
    for geo, Ms in (('slab', ([0, 3] if not big else list(range(12))) + ['12up']), ('sphere', [0, 2] if not big else [0, 1, 2, 4, 8])):
        for M in Ms:
            for w in WHERE:
                ts.append(Task('energy-%s-M%s-%s' % (geo, M, w), energy, dict(geo=geo, where=w, M=M), functions=[OUT + x for x in ('make_e', 'basis')]))
    for geo, M in (('slab', 1), ('sphere', 0)):
        ts.append(Task('order-' + geo, order, dict(geo=geo, M=M), functions=[OUT + x for x in ('make_phi', 'make_e', 'get_exit_dist')]))
    for M in ([0, 2] if not big else list(range(12))):
        for w in WHERE:
            ts.append(Task('slope-M%d-%s' % (M, w), slope, dict(where=w, M=M), functions=[OUT + 'make_e']))
    return ts
