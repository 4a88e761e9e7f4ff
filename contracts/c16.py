"""C16: saved solutions are found again (loading_and_saving/save_output.py, load_solution.py)."""
from pyded.ctx import Task
from pyded import h5model

S, L = 'loading_and_saving/save_output.py:save_output.', 'loading_and_saving/load_solution.py:load_sol.'
FUNCS = [S + '__init__', S + 'save_solution', L + '__init__', L + 'call_sol']
PROBLEMS = ('transport', 'su_olson', 'su_olson_s2', 'su_olson_thick', 'su_olson_thick_s2', 'rad_transfer_constant_cv', 'rad_transfer_constant_cv_s2',
            'rad_transfer_constant_cv_thick', 'rad_transfer_constant_cv_thick_s2')
SOURCES = {'plane_IC': 0, 'square_IC': 1, 'square_s': 2, 'gaussian_IC': 3, 'MMS': 4, 'gaussian_s': 5, 'boundary_source': None, 'dipole': (2,), 'self_sim_plane': (3,)}
FILE = 'moving_mesh_transport/local_run_data/run_data.hdf5'
WAVES = 'moving_mesh_transport/local_run_data/wavepoints.h5'
WFUNCS = [S + '__init__', S + 'save_wave_loc', L + '__init__', L + 'call_wavepoints']
WKEYS = ('tpnts', 'left', 'right', 'T_wave')
UNSAVED = ('su_olson_thick_s2', 'rad_transfer_constant_cv_thick', 'rad_transfer_constant_cv_thick_s2')  # wave fronts at the origin until some are saved
TRUSTED = ['h5py: files are trees of groups and datasets, names with a leading slash start at the root, datasets made from data keep their values, datasets made from a shape hold single precision unless told otherwise (pyded/h5model.py, compared with the real h5py by tools/selftest_h5.py)',
           'str() of numbers is injective; integers and floats never have the same text']


def vector(name):
    v = SOURCES[name]
    if isinstance(v, int):
        return [int(i == v) for i in range(15)]
    return list(v or (0,)) + [0] * 14


def run(c, tag, **fix):
    """the parameters of a run"""
    p = dict(problem='transport', source='square_s', uncollided=1, moving=1, M=c.int('M_' + tag, 0))
    for k in ('tfinal', 'ratio', 'cv', 'size'):
        p[k] = c.real('%s_%s' % (k, tag), pos=True)
    p['cells'] = c.int('cells_' + tag, 1)
    p['epsilon'] = c.real('epsilon_' + tag, pos=True)
    p.update(fix)
    return p


def data(c, tag):
    n, A, N, M = c.int('n_' + tag, 1), c.int('A_' + tag, 2), c.int('N_' + tag, 1), c.int('order_' + tag, 0)
    return dict(xs=c.array('xs_' + tag, n), phi=c.array('phi_' + tag, n), e=c.array('e_' + tag, n), coeff_mat=c.array('sol_' + tag, (A, N, M + 1)), edges=c.array('edges_' + tag, N + 1),
                ws=c.array('ws_' + tag, A), psi=c.array('psi_' + tag, (A, n)), mus=c.array('mus_' + tag, A))


class Disk:
    def __init__(self, c):
        self.c = c
        self.fs = h5model.FS(c, [FILE, WAVES])
        self.so = c.module('loading_and_saving.save_output')
        self.lo = c.module('loading_and_saving.load_solution')
        self.so.h5py = self.lo.h5py = self.fs.module

    def save(self, p, d, tag):
        c = self.c
        self.fs.touched = []
        s = self.saver(p)
        c.call('save_solution %s' % tag, s.save_solution, d['xs'], d['phi'], d['e'], d['coeff_mat'], d['edges'], p['size'], d['ws'], p['cells'], False, d['psi'], p['epsilon'], d['mus'])
        return list(self.fs.touched)

    def saver(self, p):
        c = self.c
        return c.call('save_output', self.so.save_output, p['tfinal'], c.ints([4]), [p['M']], vector(p['source']), p['moving'], p['uncollided'], 'cells', c.dict({'none': 1}),
                      c.ints([1, 0]), p['ratio'], 0, c.arr([p['size']]), p['cv'], p['problem'], c.ints([2]), p['epsilon'])

    def save_waves(self, p, w, tag):
        self.fs.touched = []
        self.c.call('save_wave_loc %s' % tag, self.saver(p).save_wave_loc, *[w[k] for k in WKEYS])
        return list(self.fs.touched)

    def load_waves(self, p, tag, problem=None):
        c = self.c
        self.fs.read = []
        s = c.call('load_sol %s' % tag, self.lo.load_sol, problem or p['problem'], p['source'], 'transfer', p['ratio'], False, p['cv'])
        c.call('call_wavepoints %s' % tag, s.call_wavepoints, p['tfinal'])
        return s

    def load(self, p, tag, rad_or_transfer='rad', mat_or_rad='rad', problem=None, default=False):
        c = self.c
        self.fs.read = []
        s = c.call('load_sol %s' % tag, self.lo.load_sol, problem or p['problem'], p['source'], rad_or_transfer, p['ratio'], False, p['cv'], 'run_data.hdf5')
        args = [p['tfinal'], p['M'], p['size'], p['cells'], mat_or_rad, p['uncollided'], p['moving']]
        if not default:
            args.append(p['epsilon'])
        c.call('call_sol %s' % tag, s.call_sol, *args)
        return s


def compare(c, p, d, s, what='all'):
    for k in ('xs', 'phi', 'e', 'psi', 'mus', 'ws', 'edges'):
        if k != 'e' or p['problem'] != 'transport':
            c.check_eq(k, getattr(s, k), d[k])
    C = d['coeff_mat']
    A = C.shape[0]
    if what == 'all':
        c.check_eq('coefficients', s.coeff_mat, C)
    elif what == 'rad':
        c.check_eq('coefficients', s.coeff_mat, C[:-1, :, :])
    else:
        c.check_eq('coefficients', s.coeff_mat, C[-1, :, :])


def flags(c, *names):
    return {k: c.choice(k, [0, 1]) for k in names}


def round_trip(c, problem):
    """save then load with the same parameters, whatever was saved before"""
    D = Disk(c)
    p = run(c, 'a', problem=problem, source=c.choice('source', list(SOURCES)), **flags(c, 'uncollided', 'moving'))
    before = c.choice('before', ['nothing', 'same run', 'other run'])
    if before == 'same run':
        D.save(p, data(c, 'old'), 'before')
    elif before == 'other run':
        D.save(run(c, 'other', problem=problem, source=p['source'], uncollided=p['uncollided'], moving=p['moving']), data(c, 'old'), 'before')
    d = data(c, 'a')
    D.save(p, d, 'now')
    compare(c, p, d, D.load(p, 'now'))


def default_epsilon(c, problem):
    """a run with epsilon = 1 is found without naming epsilon"""
    D = Disk(c)
    p = run(c, 'a', problem=problem, epsilon=c.choice('epsilon', [1.0, 1]))
    d = data(c, 'a')
    D.save(p, d, 'now')
    compare(c, p, d, D.load(p, 'now', default=True))


def material(c, problem):
    """radiation and material parts of the coefficients; the name of the problem's folder is accepted too"""
    D = Disk(c)
    p = run(c, 'a', problem=problem)
    d = data(c, 'a')
    D.save(p, d, 'now')
    part = c.choice('part', ['rad', 'mat'])
    name = problem
    if c.choice('name', ['deck', 'folder']) == 'folder':
        name = problem.replace('rad_transfer_constant_cv', 'transfer_const_cv=%s' % p['cv'])
    elif problem in ('rad_transfer_constant_cv', 'rad_transfer_constant_cv_thick'):
        name = c.choice('spelling', [problem, problem.replace('constant', 'const')])
    compare(c, p, d, D.load(p, 'now', 'transfer', part, problem=name), part)


def apart(c, D, touched, read):
    """nothing written or deleted by the save lies on the way to anything the load reads"""
    for f, kind, t in touched:
        tc = [x for x in t.split('/') if x]
        for g, r in read:
            rc = [x for x in r.split('/') if x]
            hit = f == g and len(tc) <= len(rc) and all(D.fs.same(x, y) for x, y in zip(tc, rc))
            c.check('a save touches its own run only', not hit)


def other(c, differ, problem='transport', problem2=None, source=None):
    """saving run B leaves what is loaded for run A as it was, for runs that differ in one parameter at least"""
    D = Disk(c)
    fa = dict(problem=problem, source=source or 'square_s')
    fb = dict(problem=problem2 or problem, source=source or 'square_s')
    if differ in ('uncollided', 'moving'):
        for fx in (fa, fb):
            for k in ('uncollided', 'moving'):
                fx[k] = c.choice('%s_%d' % (k, fx is fb), [0, 1])
        c.assume(fa[differ] != fb[differ])
    else:
        fl = flags(c, 'uncollided', 'moving')
        fa.update(fl)
        fb.update(fl)
    if differ == 'source':
        fb['source'] = c.choice('source_b', [x for x in SOURCES if x != source])
    if differ == 'problem':
        fb['problem'] = c.choice('problem_b', [x for x in PROBLEMS if x != problem])
    a, b = run(c, 'a', **fa), run(c, 'b', **fb)
    if differ not in fa:
        c.assume(a[differ] != b[differ])
    for k in ('tfinal', 'ratio', 'size', 'cells', 'epsilon', 'cv'):
        if k != differ and c.choice('shared_' + k, [True, False] if differ == 'M' else ['arbitrary']) is True:
            b[k] = a[k]
    da, db = data(c, 'a'), data(c, 'b')
    first = c.choice('first save of b', ['after', 'before and after'])
    if first != 'after':
        D.save(b, data(c, 'old'), 'b before')
    D.save(a, da, 'a')
    touched = D.save(b, db, 'b')
    s = D.load(a, 'a')
    compare(c, a, da, s)
    apart(c, D, touched, D.fs.read)


def used(c, problem):
    """one saver and one loader, as a run over several meshes uses them: the runs of several cell counts saved by one object are all found by
    one object, and a run saved again after it was loaded is loaded anew"""
    D = Disk(c)
    p = run(c, 'a', problem=problem, **flags(c, 'uncollided', 'moving'))
    q = dict(p, cells=c.int('cells_b', 1))
    c.assume(p['cells'] != q['cells'])
    if c.choice('sizes', ['one size', 'two sizes']) == 'two sizes':
        q['size'] = c.real('size_b', pos=True)
    s = D.saver(p)
    put = lambda r, d: c.call('save_solution', s.save_solution, d['xs'], d['phi'], d['e'], d['coeff_mat'], d['edges'], r['size'], d['ws'], r['cells'], False, d['psi'], r['epsilon'], d['mus'])
    da, db, dc = data(c, 'a'), data(c, 'b'), data(c, 'c')
    put(p, da)
    put(q, db)
    l = c.call('load_sol', D.lo.load_sol, problem, p['source'], 'rad', p['ratio'], False, p['cv'], 'run_data.hdf5')
    get = lambda r: c.call('call_sol', l.call_sol, p['tfinal'], p['M'], r['size'], r['cells'], 'rad', p['uncollided'], p['moving'], p['epsilon'])
    get(p)
    compare(c, p, da, l)
    get(q)
    compare(c, q, db, l)
    put(p, dc)
    get(p)
    compare(c, p, dc, l)
    compare(c, p, dc, D.load(p, 'anew'))


def order(c):
    """runs that differ in the polynomial order only"""
    D = Disk(c)
    a = run(c, 'a')
    b = dict(a)
    b['M'] = a['M'] + 1
    da, db = data(c, 'a'), data(c, 'b')
    D.save(a, da, 'a')
    D.save(b, db, 'b')
    compare(c, a, da, D.load(a, 'a'))


def waves(c, tag):
    n = c.int('points_' + tag, 1)
    return {k: c.array('%s_%s' % (k, tag), n) for k in WKEYS}


def wave_check(c, s, w):
    for k in WKEYS:
        c.check_eq(k, getattr(s, k), w[k])


def spelling(c, problem):
    if problem in ('rad_transfer_constant_cv', 'rad_transfer_constant_cv_thick'):
        return c.choice('spelling', [problem, problem.replace('constant', 'const')])
    return problem


def wave_round_trip(c, problem):
    """wave fronts saved are the ones loaded for the same problem, source and final time, whatever was saved before"""
    D = Disk(c)
    p = run(c, 'a', problem=problem, source=c.choice('source', list(SOURCES)))
    before = c.choice('before', ['nothing', 'same run', 'other run'])
    if before != 'nothing':
        q = p if before == 'same run' else run(c, 'other', problem=problem, source=p['source'])
        D.save_waves(q, waves(c, 'old'), 'before')
    w = waves(c, 'a')
    D.save_waves(p, w, 'now')
    wave_check(c, D.load_waves(p, 'now', spelling(c, problem)), w)


def wave_none(c, problem):
    """no wave fronts saved for this run: one point at the final time, at the origin"""
    D = Disk(c)
    p = run(c, 'a', problem=problem, source=c.choice('source', ['square_s', 'gaussian_s']))
    if c.choice('before', ['nothing', 'other run']) == 'other run':
        q = run(c, 'b', problem=problem, source=c.choice('other source', ['square_s', 'gaussian_s']))
        if q['source'] == p['source']:
            c.assume(q['tfinal'] != p['tfinal'])
        D.save_waves(q, waves(c, 'old'), 'before')
    s = D.load_waves(p, 'now')
    c.check_eq('times', s.tpnts, c.arr([p['tfinal']]))
    for k in WKEYS[1:]:
        c.check_eq(k, getattr(s, k), c.ints([0]))


def wave_other(c, differ, problem):
    """saving the wave fronts of run B, or its solution, leaves those of run A as they were; saving wave fronts leaves solutions as they were"""
    D = Disk(c)
    fa, fb = dict(problem=problem, source='square_s'), dict(problem=problem, source='square_s')
    if differ == 'source':
        fa['source'] = c.choice('source_a', list(SOURCES))
        fb['source'] = c.choice('source_b', [x for x in SOURCES if x != fa['source']])
    if differ == 'problem':
        fb['problem'] = c.choice('problem_b', [x for x in PROBLEMS if x != problem])
    a, b = run(c, 'a', **fa), run(c, 'b', **fb)
    if differ not in fa:
        c.assume(a[differ] != b[differ])
    if differ != 'tfinal':
        if c.choice('shared time', [True, False]):
            b['tfinal'] = a['tfinal']
    wa, wb = waves(c, 'a'), waves(c, 'b')
    if c.choice('first save of b', ['after', 'before and after']) != 'after':
        D.save_waves(b, waves(c, 'old'), 'b before')
    D.save_waves(a, wa, 'a')
    touched = D.save_waves(b, wb, 'b')
    s = D.load_waves(a, 'a')
    wave_check(c, s, wa)
    apart(c, D, touched, D.fs.read)


def wave_solution(c, problem):
    """wave fronts and solution of one run are kept apart"""
    D = Disk(c)
    p = run(c, 'a', problem=problem)
    d, w = data(c, 'a'), waves(c, 'a')
    if c.choice('first', ['waves', 'solution']) == 'waves':
        D.save_waves(p, w, 'now')
        D.save(p, d, 'now')
    else:
        D.save(p, d, 'now')
        D.save_waves(p, w, 'now')
    compare(c, p, d, D.load(p, 'now'))
    wave_check(c, D.load_waves(p, 'now'), w)


def tasks(tier):
    ts = []
    for p in PROBLEMS:
        ts.append(Task('round-trip-%s' % p, round_trip, dict(problem=p), functions=FUNCS, opts=dict(max_paths=1200)))
        ts.append(Task('default-epsilon-%s' % p, default_epsilon, dict(problem=p), functions=FUNCS))
        ts.append(Task('material-%s' % p, material, dict(problem=p), functions=FUNCS))
    for k in ('tfinal', 'ratio', 'size', 'cells', 'epsilon', 'uncollided', 'moving'):
        for p in ('transport', 'rad_transfer_constant_cv') if tier == 'quick' else PROBLEMS:
            ts.append(Task('others-%s-%s' % (k, p), other, dict(differ=k, problem=p), functions=FUNCS, opts=dict(max_paths=1200)))
    for p in PROBLEMS:
        ts.append(Task('others-problem-%s' % p, other, dict(differ='problem', problem=p), functions=FUNCS, opts=dict(max_paths=1200)))
        if 'constant_cv' in p:
            ts.append(Task('others-cv-%s' % p, other, dict(differ='cv', problem=p), functions=FUNCS, opts=dict(max_paths=1200)))
    for s in SOURCES:
        ts.append(Task('others-source-%s' % s, other, dict(differ='source', source=s), functions=FUNCS, opts=dict(max_paths=1200)))
    for p in PROBLEMS:
        ts.append(Task('waves-%s' % p, wave_round_trip, dict(problem=p), functions=WFUNCS))
        ts.append(Task('waves-solution-%s' % p, wave_solution, dict(problem=p), functions=WFUNCS + FUNCS))
        for k in ('tfinal', 'source', 'problem', 'cv'):
            if k != 'cv' or 'constant_cv' in p:
                ts.append(Task('waves-others-%s-%s' % (k, p), wave_other, dict(differ=k, problem=p), functions=WFUNCS, opts=dict(max_paths=1200)))
    for p in UNSAVED:
        ts.append(Task('waves-none-%s' % p, wave_none, dict(problem=p), functions=WFUNCS))
    for p in PROBLEMS[:6:5] if tier == 'quick' else PROBLEMS:
        ts.append(Task('used-%s' % p, used, dict(problem=p), functions=FUNCS, opts=dict(max_paths=1200)))
    ts.append(Task('others-order', order, functions=FUNCS))
    return ts
