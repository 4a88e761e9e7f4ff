#!/opt/veriftools/pyvenv/bin/python
"""check.py <property> [--tier quick|thorough] [--task NAME] [--replay FILE] [-v]

Verifies the contracts of one property against /repo's current source."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(v, '1')
sys.dont_write_bytecode = True

TITLES = {}


def load_known():
    out = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                out.append(json.loads(line))
    return out


def summary(task):
    return {'name': task.name, 'obligations': sum(a + b for a, b in task.obls.values()), 'discharged': sum(a for a, b in task.obls.values()),
            'labels': {k: v for k, v in task.obls.items()}, 'paths': task.paths, 'feasible': getattr(task, 'feasible', 0), 'by': dict(task.by),
            'wall': round(getattr(task, 'wall', 0), 2), 'unsupported': list(task.unsupported),
            'failures': [{k: f[k] for k in ('label', 'why', 'kind', 'facts', 'choices')} for f in task.failures],
            'definedness': task.defs, 'definedness_unproved': list(task.unproved_defs)}


def run_task(pid, name, tier, seed, deadline):
    """executed in a worker process"""
    from pyded import ctx as C, smt
    mod = importlib.import_module('contracts.' + pid.lower())
    task = {t.name: t for t in mod.tasks(tier)}[name]
    t0 = time.time()
    res = {'task': name, 'functions': task.functions, 'bounded': task.bounded, 'assumes': task.assumes, 'status': None}
    smt.STATS.update({k: 0 for k in smt.STATS})
    try:
        if task.opts.get('concrete_only'):
            res['proof'] = None
            proved = False
        else:
            task.prove(deadline=deadline)
            res['proof'] = summary(task)
            proved = task.proved
        res['stats'] = dict(smt.STATS)
        if proved:
            res['status'] = 'bounded-proof' if task.bounded else 'proved'
            v, cnt = task.search(seed, task.conc, min(deadline, time.time() + 20))
            res['concrete'] = cnt
            if v:
                res['status'] = 'violation'
                res['violation'] = {'label': v[0]['label'], 'detail': v[0]['detail'], 'inputs': v[1]}
        elif task.opts.get('concrete_only'):
            v, cnt = task.search(seed, task.search_n, min(deadline, time.time() + task.budget))
            res['concrete'] = cnt
            res['status'] = 'bounded-concrete'
            if v:
                res['status'] = 'violation'
                res['violation'] = {'label': v[0]['label'], 'detail': v[0]['detail'], 'inputs': v[1]}
        else:
            envs = []
            for f in task.failures:
                e = C.model_env(f['model'], f['choices'])
                if e:
                    envs.append(e)
                if f['choices'] and f['choices'] != e:
                    envs.append(dict(f['choices']))
            v, cnt = task.search(seed, task.search_n, min(deadline, time.time() + 90), envs)
            res['concrete'] = cnt
            if v:
                res['status'] = 'violation'
                res['violation'] = {'label': v[0]['label'], 'detail': v[0]['detail'], 'inputs': v[1]}
            else:
                res.update(small_sizes(task, mod, tier, name, seed, deadline, cnt))
    except Exception as e:
        res['status'] = 'error'
        res['error'] = traceback.format_exc()[-3000:]
    res['wall'] = round(time.time() - t0, 2)
    return res


def spread(opts, n):
    """at most n elements of the product of the lists, evenly spaced, without building it"""
    total = 1
    for o in opts:
        total *= len(o)
    out = []
    for j in range(min(n, total)):
        i = j if total <= n else j * total // n
        cb = []
        for o in reversed(opts):
            i, r = divmod(i, len(o))
            cb.append(o[r])
        out.append(tuple(reversed(cb)))
    return out


def small_sizes(task, mod, tier, name, seed, deadline, cnt):
    """not proved in general and no failing input: prove again with every symbolic size fixed to small values"""
    from pyded import ctx as C
    names = dict(task.int_names)
    out = {}
    first_failures = list(task.failures)
    if names:
        opts = []
        for n, (lo, hi, conc) in names.items():
            vals = conc if conc else [x for x in range(lo, lo + 4) if hi is None or x <= hi]
            opts.append([(n, v) for v in vals[:4]])
        combos = spread(opts, 12)
        done = []
        allok = True
        fails = []
        tot = 0
        for cb in combos:
            if time.time() > deadline - 15:
                allok = False
                break
            t = {t.name: t for t in mod.tasks(tier)}[name]
            t.sizes = dict(cb)
            t.budget = min(t.budget, 60)
            t.prove(deadline=deadline)
            tot += sum(a for a, b in t.obls.values())
            if t.unsupported and 'vacuous' in t.unsupported[0] and not t.failures:
                continue
            done.append(dict(cb))
            if not t.proved:
                allok = False
                fails += t.failures
                envs = [C.model_env(f['model'], f['choices']) for f in t.failures]
                envs = [dict(e, **dict(cb)) for e in envs if e]
                v, c2 = t.search(seed, 60, min(deadline, time.time() + 20), envs)
                if v:
                    return {'status': 'violation', 'violation': {'label': v[0]['label'], 'detail': v[0]['detail'], 'inputs': v[1]}}
                break
        out['small'] = {'sizes': done, 'obligations': tot}
        if allok and done:
            return dict(out, status='bounded-proof', note='general proof not completed: %s; proved for sizes %s' % (
                (task.unsupported or [f['why'] for f in first_failures])[:1], done))
        first_failures = fails or first_failures
    definite = [f for f in first_failures if f['kind'] in ('refuted', 'exception') and f['algebraic']]
    if definite:
        f = definite[0]
        return dict(out, status='violation-noinput', violation={'label': f['label'], 'detail': f['why'], 'facts': f['facts']})
    return dict(out, status='undecided', note='%s' % ((task.unsupported or [f['why'] for f in first_failures])[:2]))


def worker(args):
    return run_task(*args)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--task')
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid = a.property
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module('contracts.' + pid.lower())
    if a.replay:
        return replay(pid, mod, a.replay)
    t0 = time.time()
    total = 780 if a.tier == 'quick' else 3300
    deadline = t0 + total
    tasks = [t for t in mod.tasks(a.tier) if not a.task or a.task in t.name]
    weights = {t.name: t.budget for t in tasks}
    order = sorted(tasks, key=lambda t: -weights[t.name])
    jobs = [(pid, t.name, a.tier, seed, deadline) for t in order]
    results = []
    ctx = mp.get_context('fork')
    if a.jobs == 1:
        for j in jobs:
            results.append(worker(j))
    else:
        with ctx.Pool(a.jobs, maxtasksperchild=1) as pool:
            hs = [(j, pool.apply_async(worker, (j,))) for j in jobs]
            for j, h in hs:
                try:
                    results.append(h.get(timeout=max(5, deadline + 60 - time.time())))
                except mp.TimeoutError:
                    results.append({'task': j[1], 'status': 'undecided', 'note': 'time limit', 'functions': [], 'bounded': None, 'assumes': [], 'wall': total})
                except Exception as e:
                    results.append({'task': j[1], 'status': 'error', 'error': repr(e), 'functions': [], 'bounded': None, 'assumes': [], 'wall': 0})
            pool.terminate()
    return report(pid, mod, a, seed, results, time.time() - t0)


def report(pid, mod, a, seed, results, wall):
    known = [k for k in load_known() if k['property'] == pid and k.get('status') == 'known']
    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    lines = []
    viol = 0
    findings = []
    errors = 0
    for r in sorted(results, key=lambda r: r['task']):
        st = r['status']
        if a.v:
            p = r.get('proof') or {}
            print('%-40s %-16s obl %s/%s paths %s %.1fs %s' % (r['task'], st, p.get('discharged'), p.get('obligations'), p.get('paths'), r['wall'], r.get('note', '')))
            if p and (p['unsupported'] or p['failures']):
                for u in p['unsupported']:
                    print('      unsupported:', u)
                for f in p['failures'][:4]:
                    print('      failed:', f['label'], f['kind'], f["why"][:160], "|", "; ".join(f["facts"])[:1600])
            if r.get('violation'):
                print('      violation:', json.dumps(r['violation'], default=str)[:400])
            if st == 'error':
                print(r['error'])
        if st in ('violation', 'violation-noinput'):
            v = r['violation']
            hit = [k for k in known if k['task'] == r['task'] and k['label'] == v['label'] and (k.get('detail') in (None, '') or k['detail'] in v['detail'])]
            if hit:
                lines.append('KNOWN-FINDING: property=%s %s' % (pid, hit[0]['what']))
                findings.append({'task': r['task'], 'label': v['label'], 'what': hit[0]['what']})
                r['known'] = True
                continue
            path = os.path.join(rdir, '%s-%s.json' % (pid, r['task'].replace('/', '_').replace(' ', '_')))
            with open(path, 'w') as fh:
                json.dump({'property': pid, 'task': r['task'], 'obligation': v['label'], 'detail': v['detail'], 'inputs': v.get('inputs'),
                           'facts': v.get('facts'), 'verifier_output': r.get('proof'), 'seed': seed,
                           'replay_cmd': 'python3-vt check.py %s --replay %s' % (pid, path)}, fh, indent=1, default=str)
            lines.append('VIOLATION property=%s replay=%s%s' % (pid, path, '' if st == 'violation' else ' no-failing-input-found'))
            print('  failed obligation %s/%s: %s' % (r['task'], v['label'], v['detail'][:300]))
            viol += 1
        elif st == 'error':
            errors += 1
            print('  checker error in %s: %s' % (r['task'], r.get('error', '')[-600:]))
    evidence(pid, mod, a, seed, results, wall, viol, findings)
    n = len(results)
    pr = sum(1 for r in results if r['status'] == 'proved')
    bp = sum(1 for r in results if r['status'] == 'bounded-proof')
    print('%s: %d contracts, %d proved, %d proved within a bound, %d bounded concrete, %d undecided, %d violated (%d known), %.1fs' % (
        pid, n, pr, bp, sum(1 for r in results if r['status'] == 'bounded-concrete'), sum(1 for r in results if r['status'] == 'undecided'),
        viol + len(findings), len(findings), wall))
    for l in lines:
        print(l)
    if viol:
        return 1
    if errors == n:
        return 2
    return 0


TRUSTED = [
    'pyded (the deductive verifier in /verif/pyded: symbolic execution of /repo source, loop rule, normal forms)',
    'z3 4.x (python bindings in python3-vt), cvc5',
    'CPython semantics of the instrumented source equals numba semantics of the original (njit/jitclass run as plain Python; int64/float64 fields untyped)',
    'floating point read as exact real arithmetic',
]


def evidence(pid, mod, a, seed, results, wall, viol, findings):
    ed = os.path.join(HERE, 'evidence')
    os.makedirs(ed, exist_ok=True)
    obl = dis = 0
    bobl = 0
    paths = 0
    by = {}
    stats = {}
    fns = set()
    bfns = set()
    defs = 0
    udefs = []
    assumes = set(getattr(mod, 'ASSUMES', []))
    und = []
    conc = 0
    for r in results:
        p = r.get('proof')
        if p:
            paths += p['paths']
            for k, v in p['by'].items():
                by[k] = by.get(k, 0) + v
            defs += p['definedness']
            udefs += [(r['task'], x) for x in p['definedness_unproved']]
        for k, v in (r.get('stats') or {}).items():
            stats[k] = stats.get(k, 0) + v
        if r['status'] == 'proved':
            obl += p['obligations']
            dis += p['discharged']
            fns.update(r['functions'])
        elif r['status'] == 'bounded-proof':
            bobl += (p or {}).get('discharged', 0) + (r.get('small') or {}).get('obligations', 0)
            bfns.update(r['functions'])
        elif r.get('known'):
            pass
        else:
            if p:
                obl += p['obligations']
                dis += p['discharged']
            und.append({'contract': r['task'], 'status': r['status'], 'note': r.get('note', '')})
            bfns.update(r['functions'])
        c = r.get('concrete') or {}
        conc += c.get('ok', 0)
        assumes.update(r.get('assumes') or [])
    ev = {
        'property': pid, 'tier': a.tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'proof'),
        'coverage': {
            'obligations': obl, 'discharged': dis,
            'checker_cmd': 'python3-vt check.py %s --tier %s' % (pid, a.tier),
            'trusted_base': TRUSTED + list(getattr(mod, 'TRUSTED', [])),
            'contracts': [{'contract': r['task'], 'status': r['status'], 'obligations': (r.get('proof') or {}).get('labels', {}),
                           'paths': (r.get('proof') or {}).get('paths'), 'bound': r.get('bounded') or r.get('note'), 'concrete_runs': (r.get('concrete') or {}).get('ok'), 'wall_s': r['wall']} for r in results],
            'functions_under_contract': sorted(fns), 'functions_bounded_only': sorted(bfns - fns),
            'paths': paths, 'discharged_by': by, 'solver': {k: (round(v, 2) if isinstance(v, float) else v) for k, v in stats.items()},
            'bounded_obligations_not_counted_as_proved': bobl,
            'definedness_conditions': defs, 'definedness_assumed': [list(x) for x in udefs[:40]],
            'undecided': und, 'concrete_cross_check_runs': conc,
            'known_findings_reproduced': findings,
            'machinery': 'contract-based deductive verification: symbolic execution of the extracted source with callee models, exact loop summaries, algebraic normal forms + SMT',
        },
        'assumptions': sorted(assumes) + ['machine floats treated as exact reals; integers as mathematical integers'],
        'wall_s': round(wall, 2), 'violations': viol,
    }
    if a.task:
        return
    with open(os.path.join(ed, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)


def replay(pid, mod, path):
    d = json.load(open(path))
    name = d['task']
    for tier in ('quick', 'thorough'):
        ts = {t.name: t for t in mod.tasks(tier)}
        if name in ts:
            break
    t = ts[name]
    if not d.get('inputs'):
        t.prove()
        print(json.dumps(summary(t), indent=1, default=str))
        return 0 if t.proved else 1
    r, v, rec = t.run_concrete(d['seed'], d['inputs'])
    print(r, v)
    return 1 if r == 'violation' else 0


if __name__ == '__main__':
    sys.exit(main())
