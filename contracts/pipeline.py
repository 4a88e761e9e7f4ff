"""Shared by C17 and C18: an input deck, and the chain main_class.main -> solve with every component
constructor, the integrator and the output classes replaced by recorders."""
import scipy.integrate

NODE = 'solver_functions/main_functions.py:'

SOURCES = {'plane_IC': (0, 1), 'square_IC': (1, 1), 'square_source': (2, 1), 'gaussian_IC': (3, 1), 'MMS': (4, 1), 'gaussian_source': (5, 1), 'boundary_source': (0, 0),
           'dipole': (0, 2), 'self_sim_plane': (0, 3)}


def deck(c, source='square_source', runs=2, major='cells', geo='slab', thick=0, finite=1, weights='gauss_legendre', edge_v='one', particle_v='one', eval_times=0, choose_xs=0,
         epsilon_scaling=0, estimate=0, save_wave=0, saving=0, problem='transport', coupled=0, lengths=None, tracking=0):
    k, v = SOURCES[source]
    st = [v if i == k else 0 for i in range(15)]
    nx, ntimes = c.int('n_specified', 1), c.int('n_times', 1)
    la, ln, lm = lengths or (runs, runs, runs)
    name = lambda v: v if isinstance(v, str) else c.real(v)
    allp = dict(tfinal=c.real('tfinal', pos=True), N_spaces=c.arr([c.int('N_space%d' % i, 2) for i in range(ln)], 'i'), Ms=c.arr([c.int('M%d' % i, 0) for i in range(lm)], 'i'),
                N_runs=1, tnodes=c.int('tnodes', 1), c_scaling=0, rt=c.real('rt', pos=True), at=c.real('at', pos=True), t0=c.real('t0', pos=True), major=major,
                radiative_transfer=c.dict({'none': 1 - coupled, 'su_olson': coupled}), temperature_dependence=[c.int('temp%d' % i, 0, 1) for i in range(2)], e_initial=c.real('e_initial'),
                weights=weights, particle_v=particle_v if isinstance(particle_v, str) else c.real('particle_v'), edge_v=edge_v, cv_const=c.real('cv', pos=True),
                problem_name=problem, sigma_t=c.real('sigma_t', pos=True), sigma_s=c.real('sigma_s', nonneg=True), integrator='BDF', epsilon=c.real('epsilon', pos=True),
                geometry=c.dict({'slab': int(geo == 'slab'), 'sphere': int(geo == 'sphere')}), thick=thick, mxstp=c.real('mxstp', pos=True), save_solution=saving,
                epsilon_scaling=epsilon_scaling)
    src = dict(N_angles=c.arr([c.int('N_ang%d' % i, 2) for i in range(la)], 'i'), source_type=st, source_strength=c.real('strength', pos=True),
               x0=[c.real('x0_%d' % i, pos=True) for i in range(runs)], move_type=[c.int('move%d' % i, 0, 0) if i != tracking else 1 for i in range(3)], benchmarking=0,
               l=c.real('l', pos=True), sigma=c.real('sigma', pos=True), bench_type='full')
    mesh = dict(find_edges_tol=c.real('edges_tol', pos=True), sqrt_t_move_factor=c.real('move_factor'), save_wave_loc=save_wave, find_wave_loc=0, estimate_wavespeed=estimate,
                choose_xs=choose_xs, xs_list=c.array('xs_list', nx), pad=c.real('pad'), leader_pad=c.real('leader_pad'), xs_quad=c.int('xs_quad', 1), eval_times=eval_times,
                eval_array=c.array('times', ntimes, axioms='increasing', gen=lambda r, s: __import__('numpy').cumsum(r.uniform(0.1, 1, s))), boundary_on=[c.int('bon%d' % i, 0, 1) for i in range(2)],
                boundary_source=c.int('boundary_source', 0, 1), boundary_source_strength=c.real('boundary_strength'), sigma_func=c.dict({'constant': 1, 'gaussian': 0}),
                Msigma=c.int('Msigma', 0), finite=finite, domain_width=c.real('domain_width', pos=True), fake_sedov_v0=c.real('v0', pos=True))
    return {'all': allp, source: src}, mesh, source, src, allp


class Named:
    """the harness API with every name prefixed, for a second deck of the same kind"""

    def __init__(self, c, prefix):
        self.c, self.prefix = c, prefix

    def __getattr__(self, k):
        f = getattr(self.c, k)
        if k in ('int', 'real', 'array', 'choice', 'func'):
            return lambda name, *a, **kw: f(self.prefix + name, *a, **kw)
        return f


def stub(m, name, f):
    """replace a global of a loaded module; the original stays reachable as name + '__real'"""
    real = m.__dict__.setdefault(name + '__real', m.__dict__.get(name))
    m.__dict__[name] = f
    return real


def ordered(f, a, k, skip=0):
    """the arguments of a call in the order of the callee's own signature (keyword arguments included)"""
    if not k:
        return a
    import inspect
    f = getattr(f, '__init__', f) if isinstance(f, type) else f
    b = inspect.signature(f).bind(*((None,) * skip + tuple(a)), **k)
    b.apply_defaults()
    return tuple(b.args)[skip:]


class Chain:
    """the real main() and solve() between recorders"""

    def __init__(self, c, n_nodes=None):
        self.c = c
        self.solver = c.module('solver')
        self.mf = c.module('solver_functions.main_functions')
        self.log = {}
        self.saved = []
        self.runs = []
        self.n_nodes = c.int('n_nodes', 1) if n_nodes is None else n_nodes
        self.E = c.func('edge_at', nargs=2)          # edge i at time t
        self.U = c.func('state', nargs=2)            # entry s of the state at time t
        self.X = c.func('node', nargs=3)             # node i of the mesh at time t, order M
        self.Dx = c.func('rhs', nargs=2)
        self.install()

    def install(self):
        c, mf, log = self.c, self.mf, self
        run = lambda: log.runs[-1]

        class Recorder:
            def __init__(self, *a, **k):
                run().setdefault('parts', {})[self.kind] = self
                self.args = ordered(mf.__dict__.get(self.kind + '__real'), a, k, 1)

        def part(kind, **more):
            return type('Stub_' + kind, (Recorder,), dict(kind=kind, **more))

        def quadrature(n, name, *a, **k):
            c.check('a quadrature rule with enough points', n >= (2 if name == 'gauss_lobatto' else 1))
            run()['quad'].append((n, name))
            s = len(run()['quad'])
            q = c.int('points%d' % s, 1) if s > 1 else n
            x, w = c.array('q_x%d_%d' % (s, len(log.runs)), q), c.array('q_w%d_%d' % (s, len(log.runs)), q, each=lambda v, i: v > 0, gen=lambda r, z: r.uniform(0.1, 1, z))
            run()['rule%d' % s] = x, w
            return x, w
        stub(mf, 'quadrature', quadrature)
        stub(mf, 'timer', lambda: 0)
        give = tuple(c.obj(table=i) for i in range(13))
        stub(mf, 'file_reader', lambda: (lambda: give))
        log.give = give
        build = mf.__dict__.get('build__real') or mf.build

        class Build(build):
            def __init__(self, *a, **k):
                super().__init__(*a, **k)
                run()['build'] = self

            def make_IC(self):
                A = self.IC.shape
                run()['IC'] = c.array('IC%d' % len(log.runs), tuple(A))
                self.IC = run()['IC']
        stub(mf, 'build', Build)
        mesh = mf.__dict__.get('mesh_class__real') or mf.mesh_class

        class Mesh(mesh):
            def __init__(self, *a, **k):
                super().__init__(*a, **k)
                run()['mesh'] = self

            def initialize_mesh(self):
                self.edges = c.vec(self.N_space + 1, lambda i: log.E(i, 0))

            def move(self, t):
                self.edges[:] = c.vec(self.N_space + 1, lambda i: log.E(i, t))
        stub(mf, 'mesh_class', Mesh)
        for name in ('G_L', 'LU_surf', 'source_class', 'uncollided_solution', 'T_function'):
            stub(mf, name, part(name))
        stub(mf, 'sigma_integrator', part('sigma_integrator', AAA=c.obj(aaa=1)))
        stub(mf, 'scalar_flux', part('scalar_flux', load_AAA=lambda self, x: run().__setitem__('AAA', x)))

        def call(self, t, V, *objs):
            self.seen = t, objs
            return c.vec(V.shape[0], lambda i: log.Dx(t, V[i]))
        stub(mf, 'rhs_class', part('rhs_class', call=call, times_list=c.obj(what='times'), wave_loc_list=c.obj(what='locs')))

        def solve_ivp(fun, t_span, y0, method='RK45', t_eval=None, rtol=None, atol=None, max_step=None, **k):
            r = run()
            r.update(f=fun, span=t_span, y0=y0, method=method, t_eval=t_eval, rtol=rtol, atol=atol, max_step=max_step, extra=k)
            n = len(t_eval) if isinstance(t_eval, list) else t_eval.shape[0]
            D = y0.shape[0]
            y = c.vec((D, n), lambda s, i: log.U(s, t_eval[i] if not isinstance(t_eval, list) else t_eval[0]))
            return c.obj(t=c.vec(n, lambda i: t_eval[i] if not isinstance(t_eval, list) else t_eval[0]), y=y)
        for name in [x for x in mf.__dict__ if not x.endswith('__real')]:   # however the integrator was imported
            v = mf.__dict__.get(name + '__real') or mf.__dict__[name]
            if name == 'solve_ivp' or v is scipy.integrate.solve_ivp or type(v).__name__ == 'Dummy' and v.__dict__.get('_n') == 'scipy.integrate.solve_ivp':
                stub(mf, name, solve_ivp)
        stub(mf, 'integrate', c.obj(solve_ivp=solve_ivp))

        def find_nodes(edges, M, geometry):
            r = run()
            c.check_eq('evaluation nodes of the polynomial order of the run', M, r['build'].M)
            c.check('evaluation nodes of the geometry of the run', geometry is r['build'].geometry)
            return c.vec(log.n_nodes, lambda i: log.X(i, edges[0], edges[r['build'].N_space]))
        stub(mf, 'find_nodes', find_nodes)
        output = mf.__dict__.get('make_output__real') or mf.make_output

        class Output(output):
            def __init__(self, *a, **k):
                super().__init__(*a, **k)
                log.check_output(run(), self)

            def make_phi(self, unc):
                c.check('uncollided part of this run', unc is run()['parts']['uncollided_solution'])
                self.psi_out = c.vec((self.N_ang, self.xs.shape[0]), lambda a, i: PSI(a, self.xs[i], self.t))
                return c.vec(self.xs.shape[0], lambda i: PHI(self.xs[i], self.t))

            def make_e(self):
                return c.vec(self.xs.shape[0], lambda i: EN(self.xs[i], self.t))

            def get_exit_dist(self, unc):
                c.check('uncollided part of this run', unc is run()['parts']['uncollided_solution'])
                return c.vec((self.N_ang, 2), lambda a, i: EX(a, i, self.t)), c.vec(2, lambda i: EP(i, self.t))
        log.PSI = PSI = c.func('psi', nargs=3)
        log.PHI = PHI = c.func('phi', nargs=2)
        log.EN = EN = c.func('energy', nargs=2)
        log.EX = EX = c.func('exit', nargs=3)
        log.EP = EP = c.func('exit_phi', nargs=2)
        stub(mf, 'make_output', Output)
        sv = self.solver
        real = stub(sv, 'solve', None)

        def solve(*a, **k):
            log.runs.append(dict(quad=[]))
            r = real(*a, **k)
            run()['result'] = r
            return r
        stub(sv, 'solve', solve)

        class Save:
            def __init__(self, *a, **k):
                self.args = ordered(sv.__dict__.get('save_output__real'), a, k, 1)

            def save_solution(self, *a, **k):
                real = sv.__dict__.get('save_output__real')
                log.on_save(self.args, ordered(getattr(real, 'save_solution', None), a, k, 1))
        stub(sv, 'save_output', Save)
        stub(sv, 'plot_edges', lambda *a: None)

    def check_output(self, r, o):
        """overridden by the contracts"""

    def on_save(self, ctor, args):
        self.saved.append((ctor, args, len(self.runs) - 1))

    def load(self, deck, mesh, source):
        return self.c.call('load', self.solver.main_class, source, deck, mesh)
