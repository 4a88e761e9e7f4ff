"""C18: reported results are the integrator's state at the reported time on the mesh of that time
(solver_functions/main_functions.py:solve, solver.py:main_class.main)."""
from pyded.ctx import Task
from contracts.pipeline import deck, Chain, SOURCES

SV, MF = 'solver.py:', 'solver_functions/main_functions.py:'


class Results(Chain):
    def check_output(self, r, o):
        """what each output object is made from"""
        c, b, al, mesh = self.c, r['build'], self.al, self.me
        t = o.t
        N, M, A = b.N_space, b.M, b.N_ang
        if not mesh['eval_times']:
            c.check_eq('output time', t, al['tfinal'])
        c.check_eq('output: angles', o.N_ang, A)
        c.check_eq('output: order', o.M, M)
        c.check_eq('output: weights', o.ws, r['rule1'][1])
        c.check_eq('output: uncollided treatment', int(o.uncollided), int(b.uncollided))
        c.check('output: geometry', o.geometry is b.geometry)
        c.check_eq('output: the mesh at the output time', o.edges, lambda i: self.E(i, t))
        c.check_eq('output: the state at the output time', o.u, lambda a, k, j: self.U((a * N + k) * (M + 1) + j, t))
        c.check_eq('output: positions', o.xs, self.positions(t, N))

    def positions(self, t, N):
        if self.me['choose_xs']:
            return lambda i: self.me['xs_list'][i]
        return lambda i: self.X(i, self.E(0, t), self.E(N, t))


def setting(c, source, **k):
    d, me, name, src, al = deck(c, source, **k)
    ch = Results(c)
    ch.al, ch.me, ch.src = al, me, src
    ch.only = None
    return ch, d, me, name, src, al


def x0_of(src, st, i):
    return src['x0'][i] if st[3] == 1 or st[4] == 1 else src['x0'][0]


def coupled(al):
    return int(not al['radiative_transfer']['none'])


def reported(c, ch, got, r, me, al):
    """the reported fluxes, energy density, positions and exit distributions, against the state at the reported time"""
    xs, phi, psi, ex, ep, e = got
    EN = ch.EN if coupled(al) else (lambda x, t: 0 * x)
    N, T, times = r['build'].N_space, al['tfinal'], me['eval_array']
    if me['eval_times']:
        pos = lambda it, i: ch.positions(times[it], N)(i)
        c.check_eq('positions at every output time', xs, pos)
        c.check_eq('flux at every output time', phi, lambda it, i: ch.PHI(pos(it, i), times[it]))
        c.check_eq('energy density at every output time', e, lambda it, i: EN(pos(it, i), times[it]))
        c.check_eq('angular flux at every output time', psi, lambda it, a, i: ch.PSI(a, pos(it, i), times[it]))
        c.check_eq('exit distribution at every output time', ex, lambda it, a, s: ch.EX(a, s, times[it]))
        c.check_eq('exit flux at every output time', ep, lambda it, s: ch.EP(s, times[it]))
    else:
        pos = ch.positions(T, N)
        c.check_eq('positions at the final time', xs, pos)
        c.check_eq('flux at the final time', phi, lambda i: ch.PHI(pos(i), T))
        c.check_eq('energy density at the final time', e, lambda i: EN(pos(i), T))
        c.check_eq('angular flux at the final time', psi, lambda a, i: ch.PSI(a, pos(i), T))
        c.check_eq('exit distribution at the final time', ex, lambda a, s: ch.EX(a, s, T))
        c.check_eq('exit flux at the final time', ep, lambda s: ch.EP(s, T))


def results(c, source, again=False, **k):
    ch, d, me, name, src, al = setting(c, source, **k)
    s = ch.load(d, me, name)
    if me['eval_times']:
        n = me['eval_array'].shape[0]
        c.assume(me['eval_array'][0] >= 0)
    unc, mov = c.choice('uncollided', [True, False]), c.choice('moving', [True, False])
    if again:           # the same solver object has solved its problem before
        c.call('main', s.main, c.choice('uncollided before', [True, False]), c.choice('moving before', [True, False]))
        ch.saved.clear()
    first = len(ch.runs)
    c.call('main', s.main, unc, mov)
    c.check('one run per entry of the run lists', len(ch.runs) - first == len(src['x0']))
    times = me['eval_array']
    for r in ch.runs[first:]:
        b = r['build']
        N, M, A = b.N_space, b.M, b.N_ang
        # the initial value problem
        c.check_eq('starts from the initial condition', r['y0'], lambda i: 0 * i + at(c, r['IC'], i, N, M))
        te = r['t_eval']
        if me['eval_times']:
            c.check_eq('output times', te, times)
        else:
            c.check_eq('the last output time is the final time', te[0] if isinstance(te, list) else te[te.shape[0] - 1], al['tfinal'])
        t, V = c.real('t_any', nonneg=True), c.array('V_any', (A + coupled(al)) * N * (M + 1))
        p = r['parts']
        p['rhs_class'].seen = None
        got = c.call('right-hand side', r['f'], t, V)
        c.check('the right-hand side of this run', p['rhs_class'].seen is not None)
        seen_t, seen = p['rhs_class'].seen
        c.check_eq('the right-hand side is that of the assembled system', got, lambda i: ch.Dx(t, V[i]))
        c.check_eq('the right-hand side is asked for the time of the integrator', seen_t, t)
        want = (r['mesh'], p['G_L'], p['LU_surf'], p['source_class'], p['uncollided_solution'], p['scalar_flux'], p['T_function'], p['sigma_integrator'])
        c.check('the right-hand side works on the parts of this run', len(seen) == len(want) and all(x is y for x, y in zip(seen, want)))
        # the answer of solve
        res = r['result']
        reported(c, ch, res[:6], r, me, al)
        if me['eval_times']:
            c.check_eq('coefficients at every output time', res[7], lambda it, a, k, j: ch.U((a * N + k) * (M + 1) + j, times[it]))
            c.check_eq('mesh at every output time', res[10], lambda it, i: ch.E(i, times[it]))
        else:
            c.check_eq('coefficients: the last state', res[7], lambda a, k, j: ch.U((a * N + k) * (M + 1) + j, al['tfinal']))
            c.check_eq('edges: the mesh of the last state', res[10], lambda i: ch.E(i, al['tfinal']))
        c.check_eq('angles', res[8], r['rule1'][0])
        c.check_eq('weights', res[9], r['rule1'][1])
        c.check_eq('angles', res[18], r['rule1'][0])
        if me['save_wave_loc']:
            c.check('wave locations', res[15] is p['rhs_class'].times_list and res[16] is p['rhs_class'].wave_loc_list)
    # what the user sees: the last entry of the run lists
    r = ch.runs[-1]
    reported(c, ch, (s.xs, s.phi, s.psi, s.exit_dist, s.exit_phi, s.e), r, me, al)
    c.check_eq('weights of the last run', s.ws, r['rule1'][1])
    c.check_eq('angles of the last run', s.angles, r['rule1'][0])
    if al['save_solution'] and not me['eval_times']:
        c.check('one saved solution per run', len(ch.saved) == len(ch.runs) - first)
        for (ctor, args, i) in ch.saved:
            saved(c, ch, s, ctor, args, ch.runs[i], i - first, al['tfinal'], me, al, src, unc, mov)
    elif not al['save_solution']:
        c.check('nothing saved', not ch.saved)


def at(c, IC, i, N, M):
    q = c.floordiv(i, M + 1)
    return IC[c.floordiv(q, N), c.mod(q, N), c.mod(i, M + 1)]


def saved_times(c, source, **k):
    """with output times: every time is saved under its own time with its own results"""
    ch, d, me, name, src, al = setting(c, source, eval_times=1, saving=1, **k)
    s = ch.load(d, me, name)
    c.assume(me['eval_array'][0] >= 0)
    unc, mov = c.choice('uncollided', [True, False]), c.choice('moving', [True, False])
    count = c.arr([0], 'i')

    def on_save(ctor, args):
        count[0] = count[0] + 1
        t = ctor[0]
        saved(c, ch, s, ctor, args, ch.runs[-1], len(ch.runs) - 1, t, me, al, src, unc, mov)
    ch.on_save = on_save
    c.call('main', s.main, unc, mov)
    n = me['eval_array'].shape[0]
    c.check_eq('one saved solution per run and output time', count[0], n * len(ch.runs))
    c.check('one run per entry of the run lists', len(ch.runs) == len(src['x0']))


def saved(c, ch, s, ctor, args, r, i, t, me, al, src, unc, mov):
    b = r['build']
    N, M = b.N_space, b.M
    tf, Ns, Ms, st, cm, cu, major, tc, tfun, ratio, sigma, x0, cv, prob, angs, eps = ctor
    c.check_eq('saved: time', tf, t)
    c.check_eq('saved: source', st, c.ints(src['source_type']))
    c.check_eq('saved: moving', int(cm), int(mov))
    c.check_eq('saved: uncollided', int(cu), int(unc))
    c.check_eq('saved: scattering ratio', ratio * al['sigma_t'], al['sigma_s'])
    c.check_eq('saved: width', sigma, s.sigma)
    c.check_eq('saved: heat capacity', cv, al['cv_const'])
    c.check_eq('saved: scaling', eps, al['epsilon'])
    c.check('saved: problem', prob == al['problem_name'] and major == al['major'])
    c.check('saved: coupling', tc is s.thermal_couple)
    c.check_eq('saved: temperature function', tfun, s.temp_function)
    for g, w in ((Ns, al['N_spaces']), (Ms, al['Ms']), (angs, src['N_angles'])):
        c.check_eq('saved: run lists', g, w)
    c.check_eq('saved: sizes', x0, c.arr(src['x0']))
    xs, phi, e, sol, edges, x0s, ws, n, s2, psi, ep, mus = args
    pos = ch.positions(t, N)
    c.check_eq('saved: positions', xs, pos)
    c.check_eq('saved: flux', phi, lambda i: ch.PHI(pos(i), t))
    c.check_eq('saved: energy density', e, (lambda i: ch.EN(pos(i), t)) if coupled(al) else (lambda i: 0 * pos(i)))
    c.check_eq('saved: angular flux', psi, lambda a, i: ch.PSI(a, pos(i), t))
    c.check_eq('saved: coefficients', sol, lambda a, k, j: ch.U((a * N + k) * (M + 1) + j, t))
    c.check_eq('saved: edges', edges, lambda i: ch.E(i, t))
    c.check_eq('saved: size of the run', x0s, s.sigma if 'sigma' in s.__dict__ and src['source_type'][3] + src['source_type'][5] else x0_of(src, src['source_type'], i))
    c.check_eq('saved: weights', ws, r['rule1'][1])
    c.check_eq('saved: angles', mus, r['rule1'][0])
    c.check_eq('saved: cells', n, N)
    c.check_eq('saved: scaling', ep, al['epsilon'])
    c.check('saved: two angles', bool(s2) == c.branch(c.eq(b.N_ang, 2)))


def tasks(tier):
    fr = [SV + 'main_class.main', MF + 'solve', 'solver_classes/build_problem.py:build.__init__']
    ts = []
    for s in SOURCES:
        ts.append(Task('final-%s' % s, results, dict(source=s, runs=1 + (s in ('MMS', 'square_source'))), functions=fr))
    for n, k in dict(sphere=dict(geo='sphere'), saving=dict(saving=1), saving_two=dict(saving=1, runs=2, source='MMS'), saving_plane=dict(saving=1, source='plane_IC', runs=2), positions=dict(choose_xs=1), wave=dict(save_wave=1), estimate=dict(estimate=1),
                     times=dict(eval_times=1), times_two=dict(eval_times=1, runs=2), times_positions=dict(eval_times=1, choose_xs=1), times_sphere=dict(eval_times=1, geo='sphere'),
                     coupled=dict(coupled=1, saving=1), coupled_times=dict(coupled=1, eval_times=1), coupled_sphere=dict(coupled=1, geo='sphere', source='plane_IC')).items():
        k = dict(k)
        ts.append(Task(n.replace('_', '-'), results, dict(source=k.pop('source', 'gaussian_IC'), runs=k.pop('runs', 1), **k), functions=fr))
    for n, k in dict(final=dict(saving=1), times=dict(eval_times=1), sphere=dict(geo='sphere', source='plane_IC'), coupled=dict(coupled=1)).items():
        k = dict(k)
        ts.append(Task('again-%s' % n, results, dict(source=k.pop('source', 'square_IC'), runs=1, again=True, **k), functions=fr))
    for n, k in dict(one=dict(source='gaussian_IC', runs=1), two=dict(source='square_source', runs=2), coupled=dict(source='gaussian_IC', runs=1, coupled=1)).items():
        ts.append(Task('saved-times-%s' % n, saved_times, k, functions=fr))
    return ts
