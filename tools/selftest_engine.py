"""Self-test of the verifier's loop rules: random loop programs are executed symbolically (symbolic sizes, exact summaries) and the
resulting terms are evaluated at random small sizes and values; the same programs are run natively.  Any difference is a soundness bug.

    python3-vt tools/selftest_engine.py [N programs] [seed]

Programs the rules cannot summarise (Unsupported / poison) are counted, not failed."""
import os, random, sys, tempfile, time, collections
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
N = int(sys.argv[1]) if len(sys.argv) > 1 else 300
SEED = int(sys.argv[2]) if len(sys.argv) > 2 else 1
TMP = tempfile.mkdtemp(prefix='pyded_selftest')
os.environ['VERIF_REPO'] = TMP
os.makedirs(TMP + '/moving_mesh_transport')
open(TMP + '/moving_mesh_transport/__init__.py', 'w').close()
from pyded import ctx as cx, rt as rtm, shims, loader, terms as tm, evalnum
from pyded.terms import Unsupported
import numpy as np, mpmath
loader.REPO = TMP


class Gen:
    def __init__(self, rng):
        self.r = rng

    def idx(self, iv):
        r = self.r
        opts = ['0', '1']
        for v, hi in iv:
            opts += [v, v, v, '%s+1' % v]
            if hi == 'n':
                opts += ['n-1-%s' % v]
            opts += ['0*%s+1' % v]
        return r.choice(opts)

    def expr(self, iv, d=0):
        r = self.r
        k = r.random()
        if d > 2 or k < 0.5:
            c = ['s', 'x', 'y', str(r.randint(-2, 3)), 'k']
            for v, hi in iv:
                c += [v]
                c += ['A[%s]' % v if hi == 'n' else 'B[%s]' % v] * 3
            c += ['C[%s]' % self.idx(iv)]
            if len(iv) == 2:
                c += ['D[%s,%s]' % (iv[0][0], iv[1][0])] * 2
            return r.choice(c)
        op = r.choice('+-*')
        return '(%s %s %s)' % (self.expr(iv, d + 1), op, self.expr(iv, d + 1))

    def cond(self, iv):
        r = self.r
        c = ['s > 0', 'x > 0', 'k < 2', 'k == 1']
        for v, hi in iv:
            c += ['%s == 0' % v, '%s > 0' % v, '%s < %s-1' % (v, hi), '%s %% 2 == 0' % v, '%s == 2' % v, '%s[%s] > 0' % ('A' if hi == 'n' else 'B', v)]
            if hi == 'n':
                c += ['%s < (n - 1) // 2' % v, '%s < n // 2' % v]
        if len(iv) == 2:
            c += ['%s == %s' % (iv[0][0], iv[1][0]), '%s < %s' % (iv[1][0], iv[0][0])]
        e = r.choice(c)
        return e if r.random() < 0.8 else 'not (%s)' % e

    def stmt(self, iv, d, ind):
        r = self.r
        p = '    ' * ind
        k = r.random()
        if k < 0.13:
            return ['%sx = %s' % (p, self.expr(iv))]
        if k < 0.25:
            return ['%s%s += %s' % (p, r.choice('xy'), self.expr(iv))]
        if k < 0.32:
            return ['%sk += 1' % p]
        if k < 0.36 and iv:
            return ['%sk = k + 1' % p, '%sif k == 3:' % p, '%s    k = 0' % p]
        if k < 0.55:
            return ['%sC[%s] %s %s' % (p, self.idx(iv), r.choice(['=', '+=']), self.expr(iv))]
        if k < 0.65 and len(iv) == 2:
            return ['%sD[%s,%s] %s %s' % (p, iv[0][0], iv[1][0], r.choice(['=', '+=']), self.expr(iv))]
        if k < 0.7 and len(iv) >= 1 and iv[0][1] == 'n':
            return ['%sD[%s,:] %s %s' % (p, iv[0][0], r.choice(['=', '+=']), r.choice(['B', 'B*' + self.expr(iv), self.expr(iv)]))]
        if k < 0.73:
            return ['%s%s += %s' % (p, r.choice('xy'), r.choice(['np.sum(A)', 'np.dot(B, B)', 'np.sum(C)', 'len(A)']))]
        if k < 0.76:
            return ['%sC[:] %s %s' % (p, r.choice(['=', '+=']), self.expr(iv))]
        if k < 0.88:
            out = ['%sif %s:' % (p, self.cond(iv))] + self.stmt(iv, d, ind + 1)
            if r.random() < 0.4:
                out += ['%selse:' % p] + self.stmt(iv, d, ind + 1)
            return out
        if d < 2:
            return self.loop(iv, d, ind)
        return ['%sy = %s' % (p, self.expr(iv))]

    def loop(self, iv, d, ind):
        r = self.r
        p = '    ' * ind
        v = ['i', 'j'][len(iv)]
        used = [h for _, h in iv]
        hi = 'n' if not iv else 'm'
        kind = r.choice(['%s' % hi] * 4 + ['1, %s' % hi, '%s - 1' % hi])
        out = ['%sfor %s in range(%s):' % (p, v, kind)]
        for _ in range(r.randint(1, 3)):
            out += self.stmt(iv + [(v, hi)], d + 1, ind + 1)
        if r.random() < 0.02:
            out += ['%s    if %s[%s] > 1:' % (p, 'A' if hi == 'n' else 'B', v), '%s        break' % p]
        return out

    def search(self, ind, iv):
        r = self.r
        p = '    ' * ind
        v, hi = ('i', 'n') if not iv else ('j', 'm')
        arr = 'A' if hi == 'n' else 'B'
        c = r.choice(['%s[%s] > 1' % (arr, v), '%s[%s] == %d' % (arr, v, r.randint(-1, 2)), '%s == 2' % v, 's < %s[%s]' % (arr, v)] + (['A[i] < B[j]', 'i == j'] if iv else []))
        body = r.choice(['x = %s[%s]' % (arr, v), 'k = %s' % v, 'y += %s' % v, 'x = %s' % self.expr(iv + [(v, hi)])])
        return ['%sfor %s in range(%s):' % (p, v, hi), '%s    if %s:' % (p, c), '%s        %s' % (p, body), '%s        break' % p]

    def program(self):
        r = self.r
        if r.random() < 0.25:
            out = ['import numpy as np', 'def f(n, m, A, B, C, D, s):', '    x = 0.0', '    y = s', '    k = 0']
            if r.random() < 0.5:
                return '\n'.join(out + self.search(1, []) + self.stmt([], 9, 1) + ['    return x, y, k']) + '\n'
            return '\n'.join(out + ['    for i in range(n):'] + self.search(2, [('i', 'n')]) + self.stmt([('i', 'n')], 9, 2) + ['    return x, y, k']) + '\n'
        out = ['import numpy as np', 'def f(n, m, A, B, C, D, s):', '    x = 0.0', '    y = s', '    k = 0']
        for _ in range(r.randint(1, 2)):
            if r.random() < 0.3:
                out += self.stmt([], 9, 1)
            out += self.loop([], 0, 1)
        out += ['    return x, y, k']
        return '\n'.join(out) + '\n'


def one(src, rng, stats):
    with open(TMP + '/moving_mesh_transport/fz.py', 'w') as fh:
        fh.write(src)
    paths = []

    def harness(c):
        n, m = c.int('n', 0), c.int('m', 0)
        A, B, s = c.array('A', n), c.array('B', m), c.real('s')
        C0, D0 = c.array('C0', n + m + 2), c.array('D0', (n, m))
        C, D = C0.copy(), D0.copy()
        f = c.module('fz').f
        out = list(f(n, m, A, B, C, D, s))
        R = c.R
        g, h1, h2 = tm.var('g', 'I'), tm.var('h1', 'I'), tm.var('h2', 'I')
        facts = list(R.facts)
        mk = R.mark()
        R.push(tm.le(tm.ZERO, g), tm.lt(g, tm.lift(n + m + 2)))
        cv = tm.lift(C[g])
        R.pop(mk)
        mk = R.mark()
        R.push(tm.le(tm.ZERO, h1), tm.lt(h1, tm.lift(n)), tm.le(tm.ZERO, h2), tm.lt(h2, tm.lift(m)))
        dv = tm.lift(D[h1, h2])
        R.pop(mk)
        sc = [o if isinstance(o, rtm.Poison) else tm.lift(o) for o in out]
        paths.append((facts, sc, cv, dv))
        # the same after the engine's own canonicalisation
        paths.append((facts, [o if isinstance(o, rtm.Poison) else R.canon(o) for o in sc], cv, dv))

    t = cx.Task('selftest', harness, {}, budget=20, opts=dict(max_paths=60))
    import warnings
    warnings.simplefilter('ignore')
    rtm.Run.searches = {}
    t.prove()
    if t.failures:
        return 'exception', t.failures[0]['why']
    if t.unsupported:
        stats['unsupported'] += 1
        stats['why'][t.unsupported[0][:60]] += 1
        return None
    if any(isinstance(o, rtm.Poison) for p in paths for o in p[1]):
        stats['poison'] += 1
    ns = {}
    exec(src, ns)
    for _ in range(14):
        n, m = rng.randint(0, 5), rng.randint(0, 4)
        A, B, s = [rng.randint(-3, 3) for _ in range(n)], [rng.randint(-3, 3) for _ in range(m)], rng.randint(-2, 2)
        C0, D0 = [rng.randint(-3, 3) for _ in range(n + m + 2)], [[rng.randint(-3, 3) for _ in range(m)] for _ in range(n)]
        C, D = np.array(C0, object), np.array(D0, object).reshape(n, m)
        try:
            want = ns['f'](n, m, np.array(A, object), np.array(B, object), C, D, s)
        except IndexError:
            continue
        except AttributeError:
            continue
        big = max([abs(v) for v in list(want) + list(C) + list(D.flat)] + [0])
        if big > 10 ** 25:
            continue
        hit = 0
        found = {}
        for nm, (outer, key, cnt) in t.run.searches.items():
            def look(*x, outer=outer, key=key, cnt=cnt):
                e0 = evalnum.Env(dict(n=n, m=m, s=s), base)
                b = {o: mpmath.mpf(int(v)) for o, v in zip(outer, x)}
                for q in range(int(e0.ev(cnt, dict(b)))):
                    if e0.ev(key, {**b, rtm.PROBE: mpmath.mpf(q)}):
                        return 1, q
                return 0, 0
            found['found' + nm] = lambda *x, look=look: look(*x)[0]
            found['first' + nm] = lambda *x, look=look: look(*x)[1]
        base = dict(A=lambda i: A[i], B=lambda i: B[i], C0=lambda i: C0[i], D0=lambda i, j: D0[i][j], **found)
        for facts, sc, cv, dv in paths:
            env = evalnum.Env(dict(n=n, m=m, s=s), base)
            try:
                if not all(env.ev(f) for f in facts):
                    continue
                hit += 1
                got = [w if isinstance(o, rtm.Poison) else env.ev(o) for o, w in zip(sc, want)]
                for g in range(n + m + 2):
                    e = evalnum.Env({**env.scalars, 'g': g}, env.arrays)
                    got.append(e.ev(cv))
                for a in range(n):
                    for b in range(m):
                        e = evalnum.Env({**env.scalars, 'h1': a, 'h2': b}, env.arrays)
                        got.append(e.ev(dv))
            except (evalnum.Bad, IndexError, KeyError) as e:
                stats['bad'] += 1
                stats['badwhy'][str(e)[:40]] += 1
                if 'no value for' in str(e) or 'no function h_' in str(e):
                    return 'a havoc symbol is left in a result', str(e)
                hit += 1
                continue
            exp = list(want) + list(C) + [D[a][b] for a in range(n) for b in range(m)]
            stats['compared'] += 1
            if any(abs(float(p) - float(q)) > 1e-9 * (1 + abs(float(q))) for p, q in zip(got, exp)):
                return 'differs', dict(n=n, m=m, A=A, B=B, s=s, C0=C0, D0=D0, got=[float(x) for x in got], want=[float(x) for x in exp])
        if not hit:
            return 'no path covers', dict(n=n, m=m, A=A, B=B, s=s, C0=C0)
    return None


def main():
    stats = collections.defaultdict(int)
    stats['why'] = collections.Counter()
    stats['badwhy'] = collections.Counter()
    bad = 0
    for i in range(N):
        rng = random.Random(SEED * 100000 + i)
        src = Gen(rng).program()
        t0 = time.time()
        r = one(src, rng, stats)
        if r:
            bad += 1
            print('---- program %d: %s\n%s%s' % (i, r[0], src, str(r[1])[:600]), flush=True)
        if time.time() - t0 > 30:
            print('slow', i, time.time() - t0, flush=True)
    print('programs', N, 'differences', bad, {k: v for k, v in stats.items() if isinstance(v, int)})
    print(stats['why'].most_common(12))
    print(stats['badwhy'].most_common(6))
    return 1 if bad else 0


if __name__ == '__main__':
    try:
        rc = main()
    finally:
        import shutil
        shutil.rmtree(TMP)
    sys.exit(rc)
