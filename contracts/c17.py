"""C17: input decks reach the solver (loading_and_saving/load_parameters.py, solver.py, solver_functions/main_functions.py, run_functions.py)."""
from pyded.ctx import Task
from contracts.pipeline import deck, Chain, Named, stub, SOURCES

LP, SV, MF, RF = 'loading_and_saving/load_parameters.py:', 'solver.py:', 'solver_functions/main_functions.py:', 'solver_functions/run_functions.py:'


# option groups --------------------------------------------------------------
class Group:
    """an option group with n options; options are numbered"""

    def __init__(self, c, vals):
        self.c, self.vals = c, vals

    def keys(self):
        n = self.vals.shape[0]
        return self.c.vec(n, lambda i: i) if self.c.symbolic else range(n)

    def __iter__(self):
        return iter(self.keys())

    def __loop__(self):
        return self.keys()

    def values(self):
        return self.vals

    def items(self):
        from pyded.rt import SymIter
        n = self.vals.shape[0]
        return SymIter(n, lambda i: (i, self.vals[i])) if self.c.symbolic else list(enumerate(self.vals))

    def __getitem__(self, k):
        return self.vals[k]

    def get(self, k, default=None):
        return self.vals[k]

    def __len__(self):
        return int(self.vals.shape[0])


def group(c):
    """every option is copied; two or more switched-on options are rejected"""
    m = c.module('loading_and_saving.load_parameters')
    n = c.int('options', 0, conc=[0, 1, 2, 3, 5])
    vals = c.array('value', n, gen=lambda r, s: r.choice([0, 0, 1, 2], s))
    out = c.array('copy', n)
    on = c.sum(n, lambda i: c.ite(c.eq(vals[i], 1), 1, 0))
    if c.branch(n >= 1) and c.branch(on >= 2):
        c.expect_raises('contradictory options', AssertionError, m.dictionary_loader, Group(c, vals), out)
    else:
        c.call('dictionary_loader', m.dictionary_loader, Group(c, vals), out)
        c.check_eq('every option is copied', out, vals)


def small_group(c, n):
    """the same on real dictionaries of n named options"""
    m = c.module('loading_and_saving.load_parameters')
    names = ['opt%d' % i for i in range(n)]
    vals = {k: c.int(k, -1, 3) for k in names}
    if c.choice('bool', [0, 1]) and n:
        vals['opt0'] = c.choice('first', [True, False])
    given, out = c.dict(dict(vals)), c.dict({})
    on = sum((c.ite(c.eq(v, 1), 1, 0) if not isinstance(v, bool) else int(v) for v in vals.values()), 0)
    if c.branch(on >= 2):
        c.expect_raises('contradictory options', AssertionError, m.dictionary_loader, given, out)
    else:
        c.call('dictionary_loader', m.dictionary_loader, given, out)
        c.check('same options', sorted(out.keys()) == names)
        for k in names:
            c.check_eq('every option is copied', out[k], vals[k])
            c.check_eq('deck unchanged', given[k], vals[k])


# selection -------------------------------------------------------------------
def selection(c):
    m = c.module('solver_functions.main_functions')
    n = c.int('runs', 2, conc=[2, 3, 5])
    N, M = c.array('N_spaces', n), c.array('Ms', n)
    k = c.int('count', 0)
    c.assume(k < n)
    a, b = c.call('cells', m.parameter_function, 'cells', N, M, k)
    c.check_eq('cell count of the run', a, N[k])
    c.check_eq('order of the run', b, M[k])
    a, b = c.call('Ms', m.parameter_function, 'Ms', N, M, k)
    c.check_eq('the fixed cell count', a, N[1])
    c.check_eq('order of the run', b, M[k])


def sizes(c):
    m = c.module('solver_functions.main_functions')
    n = c.int('runs', 1, conc=[1, 2, 4])
    x0 = c.array('x0', n)
    k = c.int('count', 0)
    c.assume(k < n)
    st = c.choice('source', [[int(i == j) for i in range(7)] for j in range(7)] + [[0] * 7, [2] + [0] * 6, [3] + [0] * 6])
    c.check_eq('size of the run', c.call('x0', m.x0_function, x0, st, k), x0[k] if st[3] == 1 or st[4] == 1 else x0[0])


def steps(c):
    m = c.module('solver_functions.main_functions')
    n = c.int('n', 1)
    t = c.array('t', n)
    d = c.call('steps', m.time_step_function, t)
    c.check('one step less than times', c.eq(d.shape[0], n - 1))
    c.check_eq('steps', d, c.vec(n - 1, lambda i: t[i + 1] - t[i]))


# decks -----------------------------------------------------------------------
def loaded(c, source, **k):
    """every entry of the deck is found in the loaded object"""
    m = c.module('loading_and_saving.load_parameters')
    d, mesh, name, src, al = deck(c, source, **k)
    s = c.call('load', m.parameter_load_class, name, d, mesh)
    for a, v in dict(tfinal='tfinal', N_spaces='N_spaces', Ms='Ms', N_runs='N_runs', t_nodes='tnodes', c_scaling='c_scaling', rt='rt', at='at', t0='t0', e_initial='e_initial', cv0='cv_const',
                     sigma_t='sigma_t', sigma_s='sigma_s', epsilon='epsilon', mxstp='mxstp', thick='thick', saving='save_solution').items():
        c.check_eq(v, getattr(s, a), al[v])
    for a, v in dict(major='major', weights='weights', problem_type='problem_name', integrator='integrator').items():
        c.check(v, getattr(s, a) == al[v])
    for a, v in dict(N_angles='N_angles', source_strength='source_strength', benchmarking='benchmarking').items():
        c.check_eq(v, getattr(s, a), src[v])
    c.check_eq('source_type', s.source_type, c.ints(src['source_type']))
    c.check_eq('x0', s.x0, c.arr(src['x0']))
    c.check_eq('move_type', s.move_type, c.arr(src['move_type'], 'i'))
    c.check_eq('temperature_dependence', s.temp_function, c.arr(al['temperature_dependence'], 'i'))
    for a, v in dict(find_edges_tol='find_edges_tol', move_factor='sqrt_t_move_factor', save_wave_loc='save_wave_loc', find_wave_loc='find_wave_loc', estimate_wavespeed='estimate_wavespeed',
                     choose_xs='choose_xs', specified_xs='xs_list', pad='pad', leader_pad='leader_pad', xs_quad='xs_quad', eval_times='eval_times', eval_array='eval_array',
                     boundary_source='boundary_source', boundary_source_strength='boundary_source_strength', Msigma='Msigma', finite_domain='finite', fake_sedov_v0='fake_sedov_v0').items():
        c.check_eq(v, getattr(s, a), mesh[v])
    c.check_eq('boundary_on', s.boundary_on, c.arr(mesh['boundary_on'], 'i'))
    c.check_eq('scattering ratio', s.scattering_ratio * al['sigma_t'], al['sigma_s'])
    c.check_eq('l', s.l, src['l'] if k.get('thick') else 1)
    c.check_eq('domain width', s.domain_width, mesh['domain_width'] if k.get('finite', 1) else -1)
    c.check_eq('sigma', s.sigma, src['sigma'] if source in ('gaussian_IC', 'gaussian_source') else 0)
    c.check('scaling', bool(s.test_dimensional_rhs) == bool(k.get('epsilon_scaling', 0)))
    speed(c, 'edge velocity', s.edge_v, al['edge_v'])
    speed(c, 'particle velocity', s.particle_v, al['particle_v'])
    for grp, want in ((s.thermal_couple, al['radiative_transfer']), (s.geometry, al['geometry']), (s.sigma_func, mesh['sigma_func'])):
        c.check('options of a group', sorted(grp.keys()) == sorted(want.keys()))
        for q in want.keys():
            c.check_eq('option ' + q, grp[q], want[q])


def speed(c, label, got, word):
    if word == 'one':
        c.check_eq(label, got, 1)
    else:
        c.check_eq(label, got * got, c.q(1, 3))
        c.check(label, got > 0)


def unequal(c):
    """lists of unequal lengths are rejected"""
    m = c.module('loading_and_saving.load_parameters')
    ls = c.choice('lengths', [(1, 2, 2), (2, 1, 2), (2, 2, 1), (1, 2, 1), (3, 2, 1), (1, 1, 2), (2, 1, 1)])
    d, mesh, name, src, al = deck(c, 'plane_IC', lengths=ls)
    c.expect_raises('unequal lengths', AssertionError, m.parameter_load_class, name, d, mesh)


def contradiction(c):
    """a deck with two options of a group switched on is rejected, whichever group"""
    m = c.module('loading_and_saving.load_parameters')
    d, mesh, name, src, al = deck(c, 'plane_IC')
    bad = c.dict({'p': 1, 'q': 0, 'r': 1})
    w = c.choice('group', ['radiative_transfer', 'geometry', 'sigma_func'])
    if w == 'sigma_func':
        mesh[w] = c.dict({'constant': 1, 'gaussian': 1})
    else:
        al[w] = bad
    c.expect_raises('contradictory options', AssertionError, m.parameter_load_class, name, d, mesh)


# from the deck to the parts of the solver --------------------------------------
def reaches(c, source, **k):
    """run every entry of a deck through main and solve: the problem description, the mesh, the quadratures
    and the integrator get the deck's values, for every run of the list"""
    runs = k.setdefault('runs', 2)
    before = k.pop('before', None)
    d, mesh, name, src, al = deck(c, source, **k)
    ch = Chain(c)
    if before:          # another solver, for another problem, lives and runs in the same process
        d0, mesh0, name0, _, _ = deck(Named(c, 'other_'), **before)
        s0 = ch.load(d0, mesh0, name0)
    s = ch.load(d, mesh, name)
    if before:
        c.call('main', s0.main, True, False)
        c.call('main', s.main, c.choice('uncollided before', [True, False]), True)
    first = len(ch.runs)
    waves = tables(c, ch) if k.get('tracking') else None
    unc, mov = c.choice('uncollided', [True, False]), c.choice('moving', [True, False])
    c.call('main', s.main, unc, mov)
    if waves:
        c.check('wave fronts are those of the problem and its source', waves.args[:2] == (al['problem_name'], {2: 'square_s', 5: 'gaussian_s'}[SOURCES[source][0]]))
        c.check_eq('wave fronts are those of the final time', waves.tfinal, al['tfinal'])
        for kk in ('ratio', 'cv'):
            c.check_eq('wave fronts are those of the run', getattr(waves, kk), {'ratio': s.scattering_ratio, 'cv': al['cv_const']}[kk])
    c.check('one solve per entry of the lists', len(ch.runs) == first + runs)
    st = src['source_type']
    for i, r in enumerate(ch.runs[first:]):
        b, me, q = r['build'], r['mesh'], r['quad']
        N = al['N_spaces'][i] if al['major'] == 'cells' else al['N_spaces'][1]
        M = al['Ms'][i]
        x0 = src['x0'][i] if st[3] == 1 or st[4] == 1 else src['x0'][0]
        sphere = al['geometry']['sphere'] == 1
        c.check('five quadrature rules', len(q) == 5)
        for (n, nm), (wn, wnm) in zip(q, [(src['N_angles'][i], al['weights']), (6 * M + 1 if sphere else 2 * M + 1, 'chebyshev' if sphere else 'gauss_legendre'), (al['tnodes'], 'gauss_legendre'),
                                          (c.floordiv(N, 2) + 1, 'gauss_lobatto'), (c.max(c.floordiv(N, 4) + 1, 2), 'gauss_lobatto')]):
            c.check_eq('points of a quadrature rule', n, wn)
            c.check('kind of a quadrature rule', nm == wnm)
        tag = '_%d' % (first + i + 1)
        Q = lambda kind, j: c.array('q_%s%d%s' % (kind, j, tag), q[0][0] if j == 1 else c.int('points%d' % j, 1)) if c.symbolic else c.record['q_%s%d%s' % (kind, j, tag)]
        want = dict(N_ang=src['N_angles'][i], N_space=N, M=M, tfinal=al['tfinal'], x0=x0, t0=al['t0'], sigma_t=al['sigma_t'], sigma_s=al['sigma_s'], uncollided=int(unc), moving=int(mov),
                    e_init=al['e_initial'], sigma=src['sigma'] if source.startswith('gaussian') else 0, cv0=al['cv_const'], thick=al['thick'],
                    source_strength=src['source_strength'], move_factor=mesh['sqrt_t_move_factor'], l=src['l'] if al['thick'] else 1, save_wave_loc=mesh['save_wave_loc'], pad=mesh['pad'],
                    leader_pad=mesh['leader_pad'], boundary_source_strength=mesh['boundary_source_strength'], boundary_source=mesh['boundary_source'], Msigma=mesh['Msigma'],
                    finite_domain=mesh['finite'], domain_width=mesh['domain_width'] if mesh['finite'] else -1, fake_sedov_v0=mesh['fake_sedov_v0'],
                    test_dimensional_rhs=int(al['epsilon_scaling']), epsilon=al['epsilon'], source_type=c.ints(st), temp_function=c.arr(al['temperature_dependence'], 'i'),
                    boundary_on=c.arr(mesh['boundary_on'], 'i'), move_type=c.arr(src['move_type'], 'i'), edge_v=s.edge_v, particle_v=s.particle_v,
                    mus=Q('x', 1), xs_quad=Q('x', 2), ws_quad=Q('w', 2), t_quad=Q('x', 3), t_ws=Q('w', 3), quad_thick_source=Q('x', 4), quad_thick_edge=Q('x', 5))
        for a, v in want.items():
            c.check_eq('problem description: ' + a, num(getattr(b, a)), v)
        for g, w in ((b.geometry, al['geometry']), (b.thermal_couple, al['radiative_transfer']), (b.sigma_func, mesh['sigma_func'])):
            for o in w.keys():
                c.check_eq('problem description: option ' + o, g[o], w[o])
        wm = dict(N_space='N_space', x0='x0', tfinal='tfinal', moving='moving', move_type='move_type', source_type='source_type', thick='thick', move_factor='move_factor', pad='pad',
                  leader_pad='leader_pad', thick_quad='quad_thick_source', thick_quad_edge='quad_thick_edge', finite_domain='finite_domain', domain_width='domain_width', vnaught='fake_sedov_v0',
                  boundary_on='boundary_on', t0='t0')
        for a, v in wm.items():
            c.check_eq('mesh: ' + a, num(getattr(me, a)), want[v])
        for what, w in (('problem description', b.wave_loc_array), ('mesh', me.wave_loc_array)):
            if waves:
                for row, name in enumerate(('tpnts', 'left', 'right', 'T_wave')):
                    c.check_eq('%s: wave-front table %s' % (what, name), w[0, row, :], waves.table[name])
        c.check_eq('mesh: speed', me.speed, s.edge_v if sum(st) else mesh['fake_sedov_v0'])
        for o in ('slab', 'sphere'):
            c.check_eq('mesh: geometry', me.geometry[o], al['geometry'][o])
        for p in ('LU_surf', 'source_class', 'uncollided_solution', 'T_function', 'sigma_integrator', 'scalar_flux', 'rhs_class', 'G_L'):
            c.check('part %s is made from the problem description' % p, r['parts'][p].args[0] is b)
        c.check('matrices get the tables in order', len(r['parts']['G_L'].args) == 14 and all(x is y for x, y in zip(r['parts']['G_L'].args[1:], ch.give)))
        c.check('the flux gets the triple products', r.get('AAA') is r['parts']['sigma_integrator'].AAA)
        c.check_eq('start time', r['span'][0], 0)
        c.check_eq('end time', r['span'][1], al['tfinal'])
        c.check('integrator', r['method'] == al['integrator'])
        c.check('no further integrator options', not r['extra'])
        for a, v in (('rtol', 'rt'), ('atol', 'at'), ('max_step', 'mxstp')):
            c.check_eq('integrator: ' + a, r[a], al[v])


def tables(c, ch):
    """the loader of wave fronts, recorded"""
    n = c.int('n_waves', 1)
    seen = c.obj(table={k: c.array(k, n) for k in ('tpnts', 'left', 'right', 'T_wave')}, args=(), tfinal=0, ratio=0, cv=0)

    class Loader:
        def __init__(self, problem_name='transport', source_name='square_s', rad_or_transfer='rad', c=1.0, s2=False, cv0=0.0, file_name=None):
            seen.args = problem_name, source_name
            seen.ratio, seen.cv = c, cv0

        def call_wavepoints(self, tfinal):
            seen.tfinal = tfinal
            for k, v in seen.table.items():
                setattr(self, k, v)
    stub(ch.solver, 'load_sol', Loader)
    return seen


def num(v):
    return int(v) if isinstance(v, bool) else v


def methods(c):
    """each method of the run class runs the problem it is named after with the treatments asked for"""
    m = c.module('solver_functions.run_functions')
    calls = []
    opts = ('constant', 'gaussian', 'siewert1', 'siewert2')
    on = c.choice('opacity', opts)
    flags = c.dict({o: int(o == on) for o in opts})

    class Solver:
        def __init__(self, source, parameters, mesh_parameters):
            calls.append(('deck', source, parameters, mesh_parameters))

        def main(self, uncollided=True, moving=True):
            calls.append(('main', uncollided, moving))

        def __getattr__(self, k):
            if k.startswith('__'):
                raise AttributeError(k)
            calls.append(('get', k))
            return flags if k == 'sigma_func' else c.obj(field=k)
    stub(m, 'main_class', Solver)
    name = c.choice('method', ['plane_IC', 'square_IC', 'gaussian_IC', 'gaussian_source', 'MMS', 'dipole', 'self_sim_plane', 'square_source', 'boundary_source'])
    r = c.raw(m.run)
    r.parameters, r.mesh_parameters = c.obj(deck=1), c.obj(deck=2)
    r.xs = c.array('xs', c.int('points', 1))
    r.get_results = lambda s: calls.append(('results',))
    r.x0 = c.real('x0_of_an_earlier_run')
    c.assume(r.x0 != c.q(5, 2))
    for bench in ('olson_henderson_bench', 'siewert_bench', 'steady_state_gaussian_benchmark', 'fake_sedov_benchmark', 'moving_gaussian_shock_benchmark'):
        setattr(r, bench, lambda *a: None)
    unc, mov, every = c.choice('uncollided', [True, False]), c.choice('moving', [True, False]), c.choice('all', [False, True])
    c.call(name, getattr(r, name), unc, mov, every)
    decks = [x for x in calls if x[0] == 'deck']
    c.check('the deck section of the problem', len(decks) == 1 and decks[0][1] == name and decks[0][2] is r.parameters and decks[0][3] is r.mesh_parameters)
    mains = [x[1:] for x in calls if x[0] == 'main']
    if every:
        c.check('all four treatments', sorted(mains) == sorted((a, b) for a in (True, False) for b in (True, False)))
    else:
        c.check('the treatment asked for', mains == [(unc, mov)])
        c.check('results are collected', ('results',) in calls)


def deck_files(c):
    """load reads the deck of the problem asked for and the mesh deck, whatever was loaded before"""
    m = c.module('solver_functions.run_functions')
    edition = [0]

    class File:
        def __init__(self, path):
            self.path = path
            self.open = True

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.open = False

        def close(self):
            self.open = False

        def read(self):
            return self

    def opened(path, mode='r', *a, **k):
        c.check('decks are only read', mode in ('r', 'rt'))
        return File(str(path).replace('\\\\', '/'))

    def safe_load(f):
        c.check('the file is open', f.open)
        return c.obj(deck=f.path, edition=edition[0])

    def read(d, path):
        return d is not None and d.deck == path and d.edition == edition[0]
    stub(m, 'open', opened)
    stub(m, 'yaml', c.obj(safe_load=safe_load, load=lambda f, *a, **k: safe_load(f), SafeLoader=None, FullLoader=None))
    r = c.call('__init__', m.run)
    at = 'moving_mesh_transport/input_scripts/'
    for name in ('transport', c.choice('second', ['su_olson', 'rad_transfer_const_cv_thick_s2', 'transport'])):
        edition[0] += 1          # the decks are edited between loads
        c.call('load', r.load, name)
        c.check('the deck of the problem as it is now', read(r.parameters, at + name + '.yaml'))
        c.check('the mesh deck as it is now', read(r.mesh_parameters, at + 'mesh_parameters.yaml'))
    c.call('load', r.load)
    c.check('transport is the default deck', read(r.parameters, at + 'transport.yaml'))


def results(c):
    """get_results hands out the solver's own results under their names"""
    m = c.module('solver_functions.run_functions')
    r = c.raw(m.run)
    names = ('xs', 'phi', 'e', 'psi', 'ws', 'angles', 'x0', 'exit_dist', 'tfinal', 'fake_sedov_v0', 't0', 'eval_array', 'exit_phi')
    s = c.obj(**{k: c.obj(field=k) for k in names})
    c.call('get_results', r.get_results, s)
    for a, b in dict(xs='xs', phi='phi', e='e', psi='psi', ws='ws', mus='angles', x0='x0', exit_dist='exit_dist', tfinal='tfinal', v0='fake_sedov_v0', t0_source='t0', eval_array='eval_array', exit_phi='exit_phi').items():
        c.check(a, getattr(r, a) is getattr(s, b))


def shipped(c):
    """every opacity profile can be switched on in the mesh deck that comes with the code"""
    import os
    import yaml
    from pyded.loader import REPO
    m = c.module('solver_classes.opacity')
    options = yaml.safe_load(open(os.path.join(REPO, 'moving_mesh_transport', 'input_scripts', 'mesh_parameters.yaml')))['sigma_func']
    for kind in ('constant', 'gaussian', 'siewert1', 'siewert2', 'fake_sedov'):
        c.check('the shipped mesh deck names the option ' + kind, kind in options)
    c.check('the shipped mesh deck switches on one option', sum(bool(v) for v in options.values()) == 1)
    b = c.build(sigma_t=c.real('st'), sigma_s=c.real('ss'), sigma_func=c.dict({k: int(v) for k, v in options.items()}), M=1, Msigma=0, xs_quad=c.array('xq', 3), ws_quad=c.array('wq', 3),
              N_space=c.int('N', 1), fake_sedov_v0=c.real('v0'))
    s = c.call('sigma_integrator', m.sigma_integrator, b)
    c.call('sigma_function', s.sigma_function, c.array('x', 3), c.real('t'))


def shipped_transport(c):
    """every problem of the transport deck that comes with the code loads once the run lists have equal lengths"""
    import os
    import yaml
    from pyded.loader import REPO
    at = os.path.join(REPO, 'moving_mesh_transport', 'input_scripts')
    m = c.module('solver')
    read = lambda n: yaml.safe_load(open(os.path.join(at, n)))
    for name in SECTIONS:
        d, mesh = read('transport.yaml'), read('mesh_parameters.yaml')
        c.check('the shipped deck has the problem ' + name, name in d)
        n = len(d[name]['N_angles'])
        d['all'].update(N_spaces=[8] * n, Ms=[1] * n, radiative_transfer=c.dict(d['all']['radiative_transfer']), geometry=c.dict(d['all']['geometry']))
        d[name]['x0'] = [float(v) for v in d[name]['x0']]        # yaml reads 1e-11 as text
        mesh['sigma_func'] = c.dict(mesh['sigma_func'])
        s = c.call('load ' + name, m.main_class, name, d, mesh)
        k, v = SOURCES[name]
        c.check_eq('source type of ' + name, s.source_type[k], v)
        c.check_eq('source strength of ' + name, s.source_strength, d[name].get('source_strength', 'missing'))


SECTIONS = ('plane_IC', 'square_IC', 'square_source', 'gaussian_IC', 'gaussian_source', 'MMS', 'boundary_source', 'dipole', 'self_sim_plane')


def tasks(tier):
    ts = [Task('group', group, functions=[LP + 'dictionary_loader']), Task('selection', selection, functions=[MF + 'parameter_function']),
          Task('sizes', sizes, functions=[MF + 'x0_function']), Task('steps', steps, functions=[MF + 'time_step_function'])]
    for n in range(0, 4 if tier == 'quick' else 6):
        ts.append(Task('group-of-%d' % n, small_group, dict(n=n), functions=[LP + 'dictionary_loader']))
    fl = [LP + 'parameter_load_class.__init__', LP + 'dictionary_loader']
    for s in SOURCES:
        ts.append(Task('load-%s' % s, loaded, dict(source=s), functions=fl))
    for n, k in dict(thick=dict(thick=1), infinite=dict(finite=0), sphere=dict(geo='sphere'), scaling=dict(epsilon_scaling=1), slow=dict(edge_v='sqrt_3', particle_v='sqrt_3'), slow_edges=dict(edge_v='sqrt_3')).items():
        ts.append(Task('load-%s' % n, loaded, dict(source='gaussian_source', **k), functions=fl))
    ts.append(Task('unequal-lists', unequal, functions=fl))
    ts.append(Task('shipped-mesh-deck', shipped, functions=['solver_classes/opacity.py:sigma_integrator.__init__', 'solver_classes/opacity.py:sigma_integrator.sigma_function']))
    ts.append(Task('shipped-transport-deck', shipped_transport, functions=fl))
    ts.append(Task('contradiction', contradiction, functions=fl))
    fr = fl + [SV + 'main_class.main'] + [MF + x for x in ('solve', 'parameter_function', 'x0_function')] + ['solver_classes/build_problem.py:build.__init__', 'solver_classes/mesh.py:mesh_class.__init__']
    for s in SOURCES:
        ts.append(Task('reaches-%s' % s, reaches, dict(source=s), functions=fr))
    for n, k in dict(sphere=dict(geo='sphere'), infinite=dict(finite=0), thick=dict(thick=1), orders=dict(major='Ms'), three=dict(runs=3), one=dict(runs=1), slow=dict(edge_v='sqrt_3', particle_v='sqrt_3'),
                     lobatto=dict(weights='gauss_lobatto'), scaling=dict(epsilon_scaling=1), wave=dict(save_wave=1), positions=dict(choose_xs=1)).items():
        ts.append(Task('reaches-%s' % n, reaches, dict(source='square_source' if n == 'sphere' else 'gaussian_IC', **k), functions=fr))
    for n, k in dict(same=dict(source='gaussian_IC', before=dict(source='gaussian_IC')), other=dict(source='square_IC', before=dict(source='gaussian_source', thick=1, finite=0, epsilon_scaling=1)),
                     sphere=dict(source='plane_IC', before=dict(source='plane_IC', geo='sphere', weights='gauss_lobatto')), scaled=dict(source='square_source', thick=1, epsilon_scaling=1, before=dict(source='MMS', edge_v='sqrt_3'))).items():
        ts.append(Task('reaches-after-%s' % n, reaches, dict(runs=1, **k), functions=fr))
    for source in ('square_source', 'gaussian_source'):
        ts.append(Task('reaches-waves-%s' % source, reaches, dict(source=source, thick=1, tracking=1), functions=fr))
    ts.append(Task('run-load', deck_files, functions=[RF + 'run.' + x for x in ('__init__', 'load')]))
    ts.append(Task('run-methods', methods, functions=[RF + 'run.' + x for x in ('plane_IC', 'square_IC', 'square_source', 'gaussian_IC', 'gaussian_source', 'MMS', 'boundary_source', 'dipole', 'self_sim_plane')]))
    ts.append(Task('run-results', results, functions=[RF + 'run.get_results']))
    return ts
