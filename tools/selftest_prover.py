"""Self-test of the deciding back ends (normal forms, z3/cvc5 translation): random terms and random claims.
(Sums are made only with upper bounds that are not negative, as the loop rule and np.sum do.)
* canon(t) must have the value of t at sample points that satisfy the facts;
* a claim that entails() calls proved must not be false at a sample point that satisfies the facts.

    python3-vt tools/selftest_prover.py [N] [seed]"""
import os, random, sys, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyded import rt as rtm, terms as tm, evalnum, prove, shims
from pyded.terms import *
from pyded.terms import T, Unsupported, lift, num, const, fn, ite, eq, lt, le, band, bnot, bor, add, sub, mul, div, power_c, sum_, subst, var
from fractions import Fraction as Fr

N = int(sys.argv[1]) if len(sys.argv) > 1 else 400
SEED = int(sys.argv[2]) if len(sys.argv) > 2 else 1
n, m, i, j = [var(x, 'I') for x in 'nmij']
x, y, z = [var(x, 'R') for x in 'xyz']


class G:
    def __init__(s, r):
        s.r, s.k = r, 0

    def int_(s, d, bv):
        r = s.r
        if d <= 0 or r.random() < .4:
            return r.choice([n, m, i, j, const(r.randint(-2, 3))] + bv * 2)
        k = r.randrange(6)
        a, b = s.int_(d - 1, bv), s.int_(d - 1, bv)
        if k == 0:
            return tm.floordiv(a, const(r.choice([2, 3])))
        if k == 1:
            return tm.mod(a, const(r.choice([2, 3])))
        if k == 2:
            return mul(a, const(r.randint(-2, 2)))
        if k == 3:
            return ite(s.cond(d - 1, bv), a, b)
        return (add if k == 4 else sub)(a, b)

    def real(s, d, bv):
        r = s.r
        if d <= 0 or r.random() < .25:
            c = [x, y, z, const(Fr(r.randint(-4, 4), r.choice([1, 2, 3]))), fn('A', s.int_(1, bv)), num(r.choice([n, m, i] + bv))]
            return r.choice(c)
        k = r.randrange(12)
        a, b = s.real(d - 1, bv), s.real(d - 1, bv)
        if k < 3:
            return add(a, b)
        if k < 4:
            return sub(a, b)
        if k < 6:
            return mul(a, b)
        if k == 6:
            return power_c(a, Fr(r.choice([2, 3])))
        if k == 7:
            return div(a, add(mul(b, b), const(1)))
        if k == 8:
            return ite(s.cond(d - 1, bv), a, b)
        if k == 9:
            s.k += 1
            v = tm.fresh('s', 'I')
            return sum_(v, r.choice([n, m, add(n, const(1)), const(r.randint(0, 3)), mul(n, m)]), s.real(d - 1, bv + [v]))
        if k == 10:
            return r.choice([lambda t: fn('exp', mul(const(Fr(1, 3)), t)) if t.op != 'mul' or 1 else t, lambda t: tm.sqrt(add(mul(t, t), const(1))), lambda t: fn('abs', t) if False else ite(lt(t, ZERO0), tm.neg(t), t)])(r.choice([x, y, add(x, z)]))
        return mul(a, const(Fr(r.randint(-3, 3), 2)))

    def cond(s, d, bv):
        r = s.r
        k = r.randrange(7)
        if k < 2:
            return r.choice([lt, le, eq])(s.int_(max(d - 1, 0), bv), s.int_(max(d - 1, 0), bv))
        if k < 4:
            return r.choice([lt, le, eq])(s.real(max(d - 1, 0), bv), s.real(max(d - 1, 0), bv))
        if k == 4:
            return bnot(s.cond(d - 1, bv)) if d > 0 else lt(i, n)
        if k == 5 and d > 0:
            return r.choice([band, bor])(s.cond(d - 1, bv), s.cond(d - 1, bv))
        return r.choice([lt(i, n), le(const(0), i), lt(x, y), eq(i, const(0))])


ZERO0 = const(0)


def points(r, facts, want=25):
    out = []
    for _ in range(want * 8):
        e = dict(n=r.randint(0, 4), m=r.randint(0, 4), i=r.randint(-1, 4), j=r.randint(-1, 4), x=Fr(r.randint(-6, 6), r.choice([1, 2, 4])), y=Fr(r.randint(-6, 6), 2), z=Fr(r.randint(-3, 3)))
        tab = {k: Fr(r.randint(-5, 5), 2) for k in range(-60, 60)}
        env = evalnum.Env(e, dict(A=lambda k, tab=tab: tab.get(k, 0)))
        try:
            if all(env.ev(f) for f in facts):
                out.append((e, tab, env))
        except evalnum.Bad:
            pass
        if len(out) >= want:
            break
    return out


def main():
    st = collections.Counter()
    bad = 0
    for q in range(N):
        r = random.Random(SEED * 100003 + q)
        g = G(r)
        run = rtm.Run(opts={})
        rtm.install(run)
        import time
        run.deadline = time.time() + 20
        facts = [le(const(0), n), le(const(0), m)] + [g.cond(2, []) for _ in range(r.randint(0, 2))]
        facts = [f for f in facts if f.op != 'bconst']
        run.push(*facts)
        pts = points(r, facts)
        st['points'] += len(pts)
        t = g.real(4, [])
        try:
            c = run.canon(t)
            c2 = run.norm(t) if False else c
        except Unsupported:
            st['unsupported'] += 1
            c = None
        if c is not None:
            for e, tab, env in pts:
                try:
                    a, b = env.ev(t), env.ev(c)
                except evalnum.Bad as ex:
                    st['bad'] += 1
                    continue
                st['values'] += 1
                if abs(a - b) > 1e-15 * (1 + abs(a)):
                    bad += 1
                    print('CANON', q, e, a, b, '\n facts', [tm.show(f) for f in facts], '\n ', tm.show(t), '\n ', tm.show(c), flush=True)
                    break
        claims = [g.cond(3, []), eq(t, add(t, mul(g.real(2, []), const(0)))), bor(g.cond(2, []), g.cond(2, [])), eq(g.real(3, []), g.real(3, []))]
        # equalities that hold often: t rebuilt after a random rewriting
        v = tm.fresh('s', 'I')
        b = g.real(2, [v])
        k = r.randint(0, 1)
        claims.append(eq(sum_(v, add(n, const(1)), b), add(sum_(v, n, b), subst(b, {v: r.choice([n, sub(n, const(1)), const(0)])}))))
        claims.append(eq(sum_(v, n, b), sum_(v, n, subst(b, {v: sub(sub(n, const(r.choice([0, 1, 1, 1]))), v)}))))
        for cl in claims:
            if cl.op == 'bconst':
                got = 'proved' if cl is TRUE else 'no'
            else:
                try:
                    got = run.entails(cl)
                except Unsupported:
                    got = 'unsup'
            st['entails ' + str(got)] += 1
            got = 'proved' if got == 'proved' else 'no'
            if got != 'proved' and cl.op != 'bconst':
                try:
                    s = run.simplify_cond(cl)
                except Unsupported:
                    s = None
                if s is TRUE:
                    got = 'proved'
                    st['simplified'] += 1
                elif s is FALSE:
                    got = 'refuted'
                    st['simplified false'] += 1
            if got not in ('proved', 'refuted'):
                continue
            for e, tab, env in pts:
                try:
                    if bool(env.ev(cl)) != (got == 'proved'):
                        bad += 1
                        print('CLAIM', q, got, e, '\n facts', [tm.show(f) for f in facts], '\n ', tm.show(cl), flush=True)
                        break
                except evalnum.Bad:
                    st['bad'] += 1
    print('cases', N, 'wrong', bad, dict(st))
    return 1 if bad else 0


sys.exit(main())
