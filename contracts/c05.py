"""C05: mesh motion (solver_classes/mesh.py)."""
from pyded.ctx import Task
from .pipeline import stub

MESH = 'solver_classes/mesh.py:mesh_class.'
INIT = {'plane': ['simple_moving_init_func'], 'dipole': ['simple_moving_init_func'], 'shell': ['shell_source'], 'square': ['thin_square_init_func_legendre'],
        'boundary': ['boundary_source_init_func'], 'accelerate': ['thin_square_init_func_legendre', 'move_middle_edges'],
        'accelerate-uniform': ['simple_moving_init_func', 'move_middle_edges'], 'square-thick': ['simple_moving_init_func'],
        'square-thin-uniform': ['thin_square_init_func'], 'sqrt': ['thin_square_init_func_legendre', 'square_source_static_func_sqrt_t'],
        'thick-track': ['thick_square_moving_init_func'], 'thick-wave': ['thick_square_moving_init_func', 'thick_square_moving_func_2', 'thick_wave_loc_and_deriv_finder'], 'gaussian-thick-static': ['thick_gaussian_static_init_func'],
        'square-thick-static': ['simple_thick_square_init_func'], 'gaussian-ic': ['simple_moving_init_func'], 'gaussian-source': ['simple_moving_init_func'],
        'square-source': ['thin_square_init_func_legendre'], 'shell-source': ['shell_source'], 'freeze': ['thin_square_init_func_legendre'],
        'mms': ['simple_moving_init_func'], 'self-similar': ['simple_moving_init_func']}
NX = 15


class Cfg:
    pass


def config(c, kind, geo):
    """constructor arguments of one supported configuration"""
    g = Cfg()
    st = [0] * NX
    mt = [1, 0, 0, 0]
    g.thick, g.finite = 0, 0
    q = {'plane': 1, 'dipole': 1, 'gaussian-ic': 1, 'gaussian-source': 1, 'mms': 1, 'self-similar': 1,
         'shell': 0, 'shell-source': 0, 'boundary': 2}.get(kind, 4)
    if q == 0:
        g.N = c.int('N', 3, conc=[3, 4, 5, 6, 10])
    elif q == 1:
        g.N = c.int('N', 1)
    elif q == 2:
        g.N = 2 * c.int('n', 1)
    else:
        g.m = c.int('m', 5 if kind in ('thick-track', 'thick-wave') else 1)
        g.N = 4 * g.m
    g.x0, g.tf = c.real('x0', pos=True), c.real('tfinal', pos=True)
    g.v = c.real('edge_v', nonneg=True)
    g.t0 = c.real('t0', pos=True)
    g.sedov = 0
    g.width = c.real('domain_width', gen=lambda r: r.uniform(60, 90), pos=True)
    g.pad = c.real('pad', pos=True)
    g.leader = c.real('leader_pad', nonneg=True)
    if kind in ('plane', 'dipole'):
        st[0] = 2 if kind == 'dipole' else 1
    elif kind in ('shell', 'square', 'square-thick', 'square-thin-uniform', 'thick-track', 'square-thick-static'):
        st[1] = 1
    elif kind == 'freeze':
        st[1] = 1
        g.finite = 1
    elif kind in ('gaussian-ic', 'gaussian-source', 'mms'):
        st[{'gaussian-ic': 3, 'gaussian-source': 5, 'mms': 4}[kind]] = 1
    elif kind == 'self-similar':
        st[0] = 3
    elif kind in ('square-source', 'shell-source'):
        st[2] = 1
    elif kind in ('accelerate', 'accelerate-uniform', 'sqrt', 'thick-wave'):
        st[2] = 1
        g.finite = 1
    elif kind == 'gaussian-thick-static':
        st[3] = 1
    if kind in ('accelerate-uniform', 'square-thick', 'square-thin-uniform', 'thick-track', 'thick-wave', 'gaussian-thick-static', 'square-thick-static'):
        g.thick = 1
    if kind in ('sqrt', 'square-thin-uniform'):
        mt = [0, 0, 1, 0]
    if kind in ('thick-track', 'thick-wave', 'square-thick-static'):
        mt = [0, 1, 0, 0]
    if kind == 'boundary':
        g.sedov = c.real('v0', gen=(-1, 1))
        c.assume(g.sedov * g.tf < g.x0)
        c.assume(-g.sedov * g.tf < g.x0)
    if kind.startswith('accelerate'):
        c.assume(g.t0 < g.tf)
    if g.finite and kind != 'freeze':
        # the mesh never reaches the end of the finite domain (see the finite-domain finding)
        c.assume(c.and_(g.pad < g.width / 2 - 1, g.x0 + 1 + g.v * g.tf < g.width / 2))
    g.st, g.mt = st, mt
    # Lobatto nodes (contract of C13): increasing, both ends included
    if q == 4:
        g.quad = lobatto(c, 'thick_quad', 2 * g.m)
        g.edge = lobatto(c, 'thick_quad_edge', g.m)
    else:
        g.quad = g.edge = c.arr([-1.0, 1.0])
    if kind in ('thick-track', 'thick-wave'):
        c.assume(c.eq(g.x0, c.q(1, 2)))
    g.geo = c.dict({'slab': int(geo == 'slab'), 'sphere': int(geo == 'sphere')})
    g.mf = c.real('move_factor', pos=True)
    g.wave = c.array('wave_loc', (1, 4, 3), gen=lambda r, s: r.uniform(1, 2, s) + 5)
    if kind == 'square-thick-static':
        c.assume(g.wave[0, 2, 2] + g.pad > g.x0)
    return g


def lobatto(c, name, n):
    """n+1 increasing nodes from -1 to 1"""
    a = c.array(name, n + 1, axioms='increasing', gen=lambda r, s: nodes(r, s))
    if c.symbolic:
        c.assume(c.eq(a[0], -1))
        c.assume(c.eq(a[n], 1))
    return a


def nodes(r, s):
    import numpy as np
    x = np.cumsum(r.uniform(0.2, 1, s))
    return -1 + 2 * (x - x[0]) / (x[-1] - x[0])


def build(c, g, moving):
    m = c.module('solver_classes.mesh')
    return c.call('__init__', m.mesh_class, g.N, g.x0, g.tf, moving, g.mt, g.st, g.v, g.thick, g.mf, g.wave, g.pad, g.leader,
                  g.quad, g.edge, g.finite, g.width, g.sedov, [0, 0], g.t0, g.geo)


def ordered(c, mesh, N, label):
    e = mesh.edges
    c.check_eq('edge count', e.shape[0], N + 1)
    c.check_eq('velocity count', mesh.Dedges.shape[0], N + 1)
    for i in c.each_index('cell', N):
        c.check('edges increasing ' + label, e[i] < e[i + 1])


def at(c, mesh, t):
    c.call('move', mesh.move, t)
    return mesh.edges, mesh.Dedges


def times(c, g, n):
    out = []
    for k in range(n):
        t = c.real('t%d' % k, gen=(0, 3), nonneg=True)
        c.assume(t <= g.tf)
        out.append(t)
    return out


def order(c, kind, geo):
    g = config(c, kind, geo)
    mesh = build(c, g, 1)
    t, = times(c, g, 1)
    at(c, mesh, t)
    ordered(c, mesh, g.N, 'at every time')


def linear(c, kind, geo):
    """velocities are the derivatives of linearly moving edges (difference quotient between any two times)"""
    g = config(c, kind, geo)
    mesh = build(c, g, 1)
    t1, t2 = times(c, g, 2)
    c.assume(t1 < t2)
    if kind.startswith('accelerate'):
        c.assume(t2 < g.t0)
    e1, d1 = at(c, mesh, t1)
    e2, d2 = at(c, mesh, t2)
    c.check_eq('velocity is the difference quotient', d2, lambda i: (e2[i] - e1[i]) / (t2 - t1))
    c.check_eq('velocity at the earlier time', d1, lambda i: (e2[i] - e1[i]) / (t2 - t1))


def quadratic(c, kind, geo):
    """after the switch time the motion is quadratic in time: central differences are exact derivatives"""
    g = config(c, kind, geo)
    mesh = build(c, g, 1)
    t, = times(c, g, 1)
    s = c.real('s', gen=(0, 1), pos=True)
    c.assume(c.and_(g.t0 <= t - s, t + s <= g.tf))
    ea, _ = at(c, mesh, t - s)
    eb, _ = at(c, mesh, t + s)
    e, d = at(c, mesh, t)
    c.check_eq('velocity is the central difference', d, lambda i: (eb[i] - ea[i]) / (2 * s))
    # the same with half the step: the motion is quadratic
    eh, _ = at(c, mesh, t + s / 2)
    c.check_eq('quadratic motion', eh, lambda i: e[i] + d[i] * s / 2 + (ea[i] + eb[i] - 2 * e[i]) / 8)
    # continuous at the switch time, and the final mesh is evenly spread over the padded domain
    e0, d0 = at(c, mesh, g.t0)
    en, dn = at(c, mesh, g.tf)
    c.check_eq('final mesh', en, lambda i: -g.pad + 2 * g.pad * i / g.N)


def quadratic_order(c, kind, geo):
    g = config(c, kind, geo)
    mesh = build(c, g, 1)
    t, = times(c, g, 1)
    a, b = c.real('tb', gen=(0, 3), nonneg=True), None
    c.assume(c.and_(a < g.t0, g.t0 <= t))
    ea, da = at(c, mesh, a)
    e0, d0 = at(c, mesh, g.t0)
    en, _ = at(c, mesh, g.tf)
    e, d = at(c, mesh, t)
    T = g.tf - g.t0
    r = (t - g.t0) / T
    c.check_eq('motion after the switch', e, lambda i: e0[i] * (1 - r * r) + d0[i] * T * (r - r * r) + en[i] * r * r)
    c.check_eq('continuous at the switch', e0, lambda i: ea[i] + da[i] * (g.t0 - a))
    c.check_eq('velocity continuous at the switch', d0, da)
    # lemma: gaps e0 > 0, d0 >= 0, en > 0 and 0 <= r <= 1 imply a positive gap
    for i in c.each_index('cell', g.N):
        c.check('gap at the switch', e0[i] < e0[i + 1])
        c.check('velocities do not decrease', d0[i] <= d0[i + 1])
        c.check('gap at the end', en[i] < en[i + 1])


def gap_lemma(c):
    """0 <= r <= 1, g0 > 0, d >= 0, g1 > 0, T > 0 imply g0 (1-r^2) + d T (r - r^2) + g1 r^2 > 0"""
    r = c.real('r', (0, 1), nonneg=True)
    c.assume(r <= 1)
    g0, g1, T = c.real('g0', pos=True), c.real('g1', pos=True), c.real('T', pos=True)
    d = c.real('d', nonneg=True)
    c.check('1-r^2 >= 0', 1 - r * r >= 0)
    c.check('r-r^2 >= 0', r - r * r >= 0)
    A = c.real('A', nonneg=True)
    B = c.real('B', nonneg=True)
    C = c.real('C', nonneg=True)
    c.assume(A + C > 0)      # 1 - r^2 and r^2 sum to one
    c.check('positive combination', c.implies(c.and_(A > 0), g0 * A + d * T * B + g1 * C > 0))
    c.check('positive combination 2', c.implies(c.and_(C > 0), g0 * A + d * T * B + g1 * C > 0))
    c.check('weights', c.or_(1 - r * r > 0, r * r > 0))


def below_width(c, g):
    # times below 1e-10 are moved as if they were 1e-10
    for t in (g.tf, c.q(1, 10**10)):
        c.assume(g.mf * g.v * c.sqrt(t) + g.x0 + 1 < g.width / 2)


def sqrt_motion(c, kind, geo):
    g = config(c, kind, geo)
    mesh = build(c, g, 1)
    t1, t2 = times(c, g, 2)
    c.assume(c.and_(t1 > c.q(1, 10**10), t1 < t2))
    below_width(c, g)
    e1, d1 = at(c, mesh, t1)
    e2, d2 = at(c, mesh, t2)
    c.check_eq('velocity', d2, lambda i: (e2[i] - e1[i]) / (c.sqrt(t2) - c.sqrt(t1)) / (2 * c.sqrt(t2)))


def history(c, kind, geo):
    """edges and velocities depend only on the time asked for"""
    g = config(c, kind, geo)
    a = build(c, g, 1)
    b = build(c, g, 1)
    t1, t2, t = times(c, g, 3)
    if kind == 'sqrt':
        below_width(c, g)
    at(c, a, t1)
    e2, _ = at(c, a, t2)
    old = e2.copy()
    ea, da = at(c, a, t)
    eb, db = at(c, b, t)
    c.check_eq('edges do not depend on earlier calls', ea, eb)
    c.check_eq('velocities do not depend on earlier calls', da, db)
    c.check_eq('edge count', ea.shape[0], g.N + 1)
    # the opacity keeps the edges it was given to see whether the mesh has moved since
    c.check_eq('edges handed out earlier keep their values', e2, old)


# wave-tracking mesh of thick square sources ------------------------------------
STEP = 1e-7     # the time step of the code's difference quotient


class Wave:
    """the mesh with the position of the wave front given by an arbitrary function of time (contract of _interp1d)"""

    def __init__(self, c):
        self.c = c
        self.g = config(c, 'thick-wave', 'slab')
        c.assume(self.g.pad < self.g.leader)
        self.F = c.func('front', pyf=lambda t: self.slope * t + self.base)
        self.slope, self.base = (0, 0) if c.symbolic else (c.real('front_speed', gen=(0, 2)), c.real('front_start', gen=(-1, 2)))
        m = c.module('solver_classes.mesh')
        stub(m, '_interp1d', self.interp)

    def interp(self, xnew, xvals, yvals, ynew):
        g, c = self.g, self.c
        c.check('the front is looked up in the times of the table', c.and_(*[c.eq(a, b) for a, b in ((xvals[0], g.wave[0, 0, 0]), (xvals[2], g.wave[0, 0, 2]))]))
        c.check('the front is looked up in the wave locations of the table', c.and_(*[c.eq(a, b) for a, b in ((yvals[0], g.wave[0, 3, 0]), (yvals[2], g.wave[0, 3, 2]))]))
        return c.vec(ynew.shape[0], lambda i: self.F(xnew[0]))

    def inside(self, *ts):
        """the mesh stays inside the finite domain"""
        for t in ts:
            self.c.assume(self.F(t) + self.g.leader < self.g.width / 2 - self.c.q(1, 50))


def wave_finder(c):
    """edges by front position: in order, mirror symmetric, the source region untouched, whatever the side edges were before"""
    w = Wave(c)
    g = w.g
    mesh, used = build(c, g, 1), build(c, g, 1)
    start = c.vec(g.N + 1, lambda i: mesh.edges[i])
    t, = times(c, g, 1)
    w.inside(t)
    last = c.array('edges_before', g.N + 1)
    used.edges = c.vec(g.N + 1, lambda i: c.ite(c.and_(g.m <= i, i <= 3 * g.m), start[i], last[i]))
    e = c.call('thick_wave_loc_and_deriv_finder', mesh.thick_wave_loc_and_deriv_finder, t)
    before = used.edges
    old = before.copy()
    f = c.call('thick_wave_loc_and_deriv_finder', used.thick_wave_loc_and_deriv_finder, t)
    c.check_eq('edges handed out earlier keep their values', before, old)
    c.check_eq('edge count', e.shape[0], g.N + 1)
    for i in c.each_index('cell', g.N):
        c.check('edges increasing at every time', e[i] < e[i + 1])
    c.check_eq('mirror symmetric outside the source', c.vec(g.m, lambda i: e[i]), c.vec(g.m, lambda i: -e[g.N - i]))
    c.check_eq('edges inside the source stay', c.vec(2 * g.m + 1, lambda i: e[g.m + i]), c.vec(2 * g.m + 1, lambda i: start[g.m + i]))
    c.check_eq('edges do not depend on earlier edges', e, f)


def wave_move(c):
    """edges and velocities of a move, with the edges by front position given by the contract of wave_finder"""
    g = config(c, 'thick-wave', 'slab')
    mesh, used = build(c, g, 1), build(c, g, 1)
    E = c.func('edges_at', nargs=2, pyf=lambda i, t: float(i) + 0.1 * t * i)

    def finder(t):
        return c.vec(g.N + 1, lambda i: E(i, t))
    for x in (mesh, used):
        x.thick_wave_loc_and_deriv_finder = finder
    used.edges, used.Dedges = c.array('edges_before', g.N + 1), c.array('velocities_before', g.N + 1)
    c.assume(used.edges[g.N] < g.width / 2 - c.q(1, 50))
    t, = times(c, g, 1)
    c.assume(E(g.N, t) < g.width / 2 - c.q(1, 50))
    c.assume(E(g.N, t + STEP) < g.width / 2 - c.q(1, 50))
    for x, what in ((mesh, ''), (used, ' after earlier calls')):
        e, d = at(c, x, t)
        c.check_eq('edges' + what, e, lambda i: E(i, t))
        c.check_eq('velocities' + what, d, lambda i: (E(i, t + STEP) - E(i, t)) / STEP)


def wave_velocity(c, phase):
    """while the front moves along one piece of the table and nothing else changes, the velocities are the derivatives of the edges"""
    w = Wave(c)
    g = w.g
    mesh = build(c, g, 1)
    start = c.vec(g.N + 1, lambda i: mesh.edges[i])
    t, s = times(c, g, 2)
    c.assume(c.and_(0 < t, 0 < s))
    w.inside(t, t + STEP, s, s + STEP)
    for x in (t, t + STEP, s, s + STEP):
        f = w.F(x)
        if phase == 'waiting':
            c.assume(f < g.x0)
        else:
            c.assume(c.and_(f >= start[g.N], f - g.pad >= start[g.N - 3]))
    if phase == 'moving':
        v = c.real('speed', gen=(0, 2)) if c.symbolic else w.slope
        for x in (t + STEP, s):
            c.assume(c.eq(w.F(x), w.F(t) + v * (x - t))) if c.symbolic else None
    e1, d1 = at(c, mesh, t)
    e2, _ = at(c, mesh, s)
    c.check_eq('edges move with the velocities reported', e2, lambda i: e1[i] + d1[i] * (s - t))


def interpolate(c, where):
    """_interp1d: the piecewise linear front, from the origin to the first table point, held or continued after the last"""
    m = c.module('solver_classes.mesh_functions')
    n = c.int('n', 2 if where in ('inside', 'after') else 1)
    x = c.array('times', n, axioms='increasing', gen=lambda r, s: __import__('numpy').cumsum(r.uniform(0.2, 1, s)))
    y = c.array('fronts', n)
    c.assume(x[0] > 0)
    t = c.real('t', gen=(0, 4), nonneg=True)
    if where == 'before':
        c.assume(t < x[0])
        want = t / x[0] * y[0]
    elif where == 'single':
        n = 1
        c.assume(c.eq(x.shape[0], 1))
        c.assume(t >= x[0])
        want = y[0]
    else:
        if where == 'inside':
            k = c.int('k', 0)
            c.assume(k + 1 < n)
            c.assume(c.and_(x[k] <= t, t < x[k + 1]))
        else:
            k = n - 2
            c.assume(t >= x[n - 1])
        want = y[k] + (t - x[k]) / (x[k + 1] - x[k]) * (y[k + 1] - y[k])
    got = c.call('_interp1d', m._interp1d, c.vec(n, lambda i: t), x, y, c.vec(n, lambda i: c.q(0)))
    c.check_eq('position of the front', got[0], want)


def frozen(c, kind, geo):
    """asking for a time at which the mesh fills the finite domain and then for an earlier time"""
    g = config(c, kind, geo)
    c.assume(g.x0 + 1 < g.width / 2)
    c.assume(g.v * g.tf > g.width)
    a = build(c, g, 1)
    t, = times(c, g, 1)
    c.assume(g.v * t < c.q(1, 2))
    at(c, a, g.tf * c.q(3, 4))
    ea, da = at(c, a, t)
    eb, db = at(c, build(c, g, 1), t)
    c.check_eq('edges do not depend on earlier calls', ea, eb)


def static(c, kind, geo):
    g = config(c, kind, geo)
    s = build(c, g, 0)
    e0, d0 = s.edges, s.Dedges
    c.check_eq('edge count', e0.shape[0], g.N + 1)
    c.check_eq('static velocities are zero', d0, lambda i: 0)
    t, = times(c, g, 1)
    c.call('move', s.move, t)
    c.check_eq('static edges never move', s.edges, e0)
    c.check_eq('static velocities stay zero', s.Dedges, lambda i: 0)
    if kind == 'boundary':
        c.check_eq('static boundary-driven mesh is uniform', s.edges, lambda i: -g.x0 + 2 * g.x0 * i / g.N)
    elif not kind.endswith('-static'):
        m = build(c, g, 1)
        em, _ = at(c, m, g.tf)
        c.check_eq('static mesh is the final mesh', s.edges, em)
    ordered(c, s, g.N, '(static)')


def start(c, kind, geo):
    """where the mesh starts"""
    g = config(c, kind, geo)
    mesh = build(c, g, 1)
    e, d = at(c, mesh, 0)
    N = g.N
    if kind in ('plane', 'dipole', 'gaussian-ic', 'gaussian-source', 'square-thick', 'mms', 'self-similar'):
        s = c.q(1, 100) if kind == 'dipole' else 0
        if geo == 'slab':
            c.check_eq('start', e, lambda i: -g.x0 + 2 * g.x0 * i / N + s)
            c.check_eq('outer edge speed', d[N], g.v)
            c.check_eq('symmetric speeds', d, lambda i: -d[N - i])
        else:
            c.check_eq('start', e, lambda i: g.x0 * i / N + s)
            c.check_eq('speeds', d, lambda i: g.v * i / N)
    elif kind == 'boundary':
        c.check_eq('start', e, lambda i: -g.x0 + 2 * g.x0 * i / N)
        en, _ = at(c, mesh, g.tf)
        c.check_eq('shock is followed', en[c.floordiv(N, 2)], -g.sedov * g.tf)
        c.check_eq('left end fixed', en[0], -g.x0)
        c.check_eq('right end fixed', en[N], g.x0)
    elif kind in ('square', 'square-source', 'square-thin-uniform'):
        c.check_eq('outer edge speed', d[N], g.v)
        c.check_eq('source edge', e[3 * g.m], g.x0)
        c.check_eq('source edge does not move', d[3 * g.m], 0)
        c.check_eq('source edge', e[g.m], -g.x0)
        c.check_eq('source edge does not move', d[g.m], 0)
    elif kind in ('shell', 'shell-source'):
        c.check_eq('centre', e[0], 0)
        c.check_eq('outer edge speed', d[N], g.v)


def tasks(tier):
    ts = []

    def add(name, h, kind, geo, **k):
        fs = [MESH + f for f in ['__init__', 'initialize_mesh', 'move'] + INIT[kind]]
        ts.append(Task('%s-%s-%s' % (name, kind, geo), h, dict(kind=kind, geo=geo), functions=fs, budget=150, **k))
    for kind, geo in (('plane', 'slab'), ('plane', 'sphere'), ('dipole', 'slab'), ('dipole', 'sphere'), ('shell', 'sphere'), ('square', 'slab'), ('boundary', 'slab'),
                      ('gaussian-ic', 'slab'), ('gaussian-ic', 'sphere'), ('gaussian-source', 'slab'), ('gaussian-source', 'sphere'), ('square-source', 'slab'),
                      ('mms', 'slab'), ('self-similar', 'slab'), ('self-similar', 'sphere'),
                      ('shell-source', 'sphere'), ('square-thick', 'slab'), ('square-thin-uniform', 'slab'), ('thick-track', 'slab')):
        add('order', order, kind, geo)
        add('velocity', linear, kind, geo)
        add('history', history, kind, geo)
        if kind != 'thick-track':
            add('start', start, kind, geo)
            add('static', static, kind, geo)
    for kind in ('accelerate', 'accelerate-uniform'):
        add('velocity-before-switch', linear, kind, 'slab')
        add('velocity-after-switch', quadratic, kind, 'slab')
        add('order-after-switch', quadratic_order, kind, 'slab')
        add('history', history, kind, 'slab')
        add('static', static, kind, 'slab')
    fw = [MESH + f for f in ['__init__', 'initialize_mesh', 'move'] + INIT['thick-wave']]
    ts.append(Task('edges-thick-wave', wave_finder, functions=fw))
    ts.append(Task('move-thick-wave', wave_move, functions=fw))
    for ph in ('waiting', 'moving'):
        ts.append(Task('velocity-thick-wave-' + ph, wave_velocity, dict(phase=ph), functions=fw))
    for where in ('before', 'inside', 'after', 'single'):
        ts.append(Task('front-' + where, interpolate, dict(where=where), opts=dict(while_rule=True), functions=['solver_classes/mesh_functions.py:_interp1d']))
    ts.append(Task('gap-lemma', gap_lemma, conc=5))
    add('velocity', sqrt_motion, 'sqrt', 'slab')
    add('history', history, 'sqrt', 'slab')
    for kind in ('gaussian-thick-static', 'square-thick-static'):
        add('static', static, kind, 'slab')
        # known findings
    add('history', frozen, 'freeze', 'slab')
    add('order', order, 'freeze', 'slab')
    return ts
