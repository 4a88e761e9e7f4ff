"""SMT back end: translation of terms to z3 (and, for second opinions, cvc5)."""
import time
import z3
from fractions import Fraction as Fr
from . import terms as tm
from .terms import T, mk, const, ite, TRUE, FALSE, ZERO, ONE

STATS = {'queries': 0, 'time': 0.0, 'unknown': 0, 'cvc5': 0, 'cvc5_time': 0.0}

RealS, IntS = z3.RealSort(), z3.IntSort()


class Axioms:
    """instantiated facts about uninterpreted array symbols: name -> fn(list of index tuples) -> [B terms]"""

    def __init__(self):
        self.by_name = {}

    def add(self, name, f):
        self.by_name.setdefault(name, []).append(f)

    def copy(self):
        a = Axioms()
        a.by_name = {k: list(v) for k, v in self.by_name.items()}
        return a


class Trans:
    def __init__(self, axioms=None):
        self.memo = {}
        self.side = []
        self.apps = {}
        self.axioms = axioms
        self.funcs = {}

    def to_real(self, e):
        return z3.ToReal(e) if e.sort() == IntS else e

    def tr(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        r = self._tr(t)
        self.memo[t] = r
        return r

    def _tr(self, t):
        op = t.op
        if op == 'const':
            if t.data.denominator == 1:
                return z3.IntVal(t.data.numerator)
            return z3.RealVal(str(t.data))
        if op == 'var':
            if t is tm.PI:
                v = z3.Real('pi')
                self.side.append(z3.And(v > z3.RealVal('3.14159265'), v < z3.RealVal('3.14159266')))
                return v
            return z3.Int(t.data) if t.sort == 'I' else z3.Real(t.data)
        if op == 'bconst':
            return z3.BoolVal(t.data)
        if op == 'add':
            return self._nary(t, lambda a: z3.Sum(a))
        if op == 'mul':
            return self._nary(t, lambda a: z3.Product(a))
        if op == 'pow':
            e = t.data
            b = self.tr(t.args[0])
            if e.denominator == 1:
                n = abs(int(e))
                if n <= 6:
                    p = b
                    for _ in range(n - 1):
                        p = p * b
                    if e < 0:
                        p = self.to_real(p)
                        q = z3.FreshReal('inv')
                        self.side.append(z3.Implies(p != 0, q * p == 1))
                        return q
                    return p
            if e.denominator == 2:
                s = z3.FreshReal('sqrt')
                rb = self.to_real(b)
                self.side.append(z3.And(s >= 0, z3.Implies(rb >= 0, s * s == rb)))
                n = abs(e.numerator)
                p = s
                for _ in range(n - 1):
                    p = p * s
                if e < 0:
                    q = z3.FreshReal('inv')
                    self.side.append(z3.Implies(p != 0, q * p == 1))
                    self.side.append(z3.Implies(rb > 0, q > 0))
                    return q
                self.side.append(z3.Implies(rb > 0, p > 0))
                return p
            return z3.FreshReal('pw')
        if op == 'fn':
            n = t.data
            if n == 'floor':
                return z3.ToInt(self.to_real(self.tr(t.args[0])))
            if n == 'idiv':
                return self.tr(t.args[0]) / self.tr(t.args[1])
            if n == 'mod':
                return self.tr(t.args[0]) % self.tr(t.args[1])
            args = [self.tr(a) for a in t.args]
            sorts = tuple('I' if a.sort() == IntS and b.sort == 'I' else 'R' for a, b in zip(args, t.args))
            if n in MATHFN:
                sorts = ('R',) * len(args)
            else:
                # array symbols: integer indices
                pass
            key = (n, sorts, t.sort)
            f = self.funcs.get(key)
            if f is None:
                f = z3.Function(n + '_' + ''.join(sorts), *([IntS if s == 'I' else RealS for s in sorts] + [IntS if t.sort == 'I' else RealS]))
                self.funcs[key] = f
            args = [a if s == 'I' else self.to_real(a) for a, s in zip(args, sorts)]
            e = f(*args)
            self.apps.setdefault(n, []).append((t, e, args))
            self.math_side(n, e, args)
            return e
        if op == 'ite':
            a, b = self.tr(t.args[1]), self.tr(t.args[2])
            if a.sort() != b.sort():
                a, b = self.to_real(a), self.to_real(b)
            return z3.If(self.tr(t.args[0]), a, b)
        if op == 'lt0':
            return self.tr(t.args[0]) < 0
        if op == 'eq0':
            return self.tr(t.args[0]) == 0
        if op == 'not':
            return z3.Not(self.tr(t.args[0]))
        if op == 'and':
            return z3.And(*[self.tr(a) for a in t.args])
        if op == 'sum':
            return z3.Real('sum!%d' % t.id) if t.sort != 'I' else z3.Int('sum!%d' % t.id)
        raise tm.Unsupported('smt ' + op)

    def _nary(self, t, f):
        a = [self.tr(x) for x in t.args]
        if any(x.sort() == RealS for x in a):
            a = [self.to_real(x) for x in a]
        return f(a)

    def math_side(self, n, e, args):
        if n == 'exp':
            x = args[0]
            self.side.append(z3.And(e > 0, z3.Implies(x >= 0, e >= 1 + x), z3.Implies(x <= 0, e <= 1), z3.Implies(x < 0, e < 1),
                                    e >= 1 + x, z3.Implies(x > 0, e > 1)))
            for t2, e2, a2 in self.apps.get('exp', [])[:-1][-6:]:
                self.side.append(z3.Implies(x <= a2[0], e <= e2))
                self.side.append(z3.Implies(x >= a2[0], e >= e2))
        elif n == 'erf':
            x = args[0]
            self.side.append(z3.And(e > -1, e < 1, z3.Implies(x >= 0, e >= 0), z3.Implies(x <= 0, e <= 0)))
            for t2, e2, a2 in self.apps.get('erf', [])[:-1][-6:]:
                y = a2[0]
                self.side.append(z3.Implies(x <= y, e <= e2))
                self.side.append(z3.Implies(x >= y, e >= e2))
                self.side.append(z3.Implies(x + y >= 0, e + e2 >= 0))
                self.side.append(z3.Implies(x + y <= 0, e + e2 <= 0))
        elif n == 'gl_x':
            # Gauss-Legendre nodes lie inside (-1, 1) and increase (contract of leggauss)
            self.side.append(z3.And(e > -1, e < 1))
            for t2, e2, a2 in self.apps.get('gl_x', [])[:-1][-6:]:
                self.side.append(z3.Implies(z3.And(a2[0] == args[0], a2[1] < args[1]), e2 < e))
                self.side.append(z3.Implies(z3.And(a2[0] == args[0], a2[1] > args[1]), e2 > e))
        elif n in ('cos', 'sin'):
            self.side.append(z3.And(e >= -1, e <= 1))
            if n == 'cos':
                x, pi = args[0], self.tr(tm.PI)
                self.side.append(z3.Implies(z3.And(x > 0, x < pi), z3.And(e > -1, e < 1)))
                for t2, e2, a2 in self.apps.get('cos', [])[:-1][-6:]:
                    y = a2[0]
                    self.side.append(z3.Implies(z3.And(0 <= x, x < y, y <= pi), e > e2))
                    self.side.append(z3.Implies(z3.And(0 <= y, y < x, x <= pi), e < e2))

    def axiom_facts(self):
        """instances of array axioms for the applications seen (one round + nested)"""
        out = []
        if not self.axioms:
            return out
        done = {}
        for _ in range(2):
            work = False
            for n, gens in self.axioms.by_name.items():
                apps = self.apps.get(n, [])
                idx = []
                for t, e, a in apps:
                    if t.args not in idx_set(idx):
                        idx.append(t.args)
                if done.get(n) == len(idx):
                    continue
                done[n] = len(idx)
                work = True
                if len(idx) > 20:
                    idx = idx[:20]
                for g in gens:
                    for fct in g(idx):
                        out.append(self.tr(fct))
            if not work:
                break
        return out


def idx_set(l):
    return set(tuple(x) for x in l)


MATHFN = {'exp', 'erf', 'expi', 'sin', 'cos', 'log', 'arcsin', 'arctan', 'tan', 'powf'}


def check(assumptions, goal, axioms=None, timeout=3000, want_model=False):
    """is (assumptions => goal) valid?  returns 'proved' | 'refuted' | 'unknown' (, model)"""
    t0 = time.time()
    STATS['queries'] += 1
    tr = Trans(axioms)
    fs = [tr.tr(a) for a in assumptions if a is not TRUE]
    g = tr.tr(goal)
    fs += tr.axiom_facts()
    s = z3.Solver()
    s.set('timeout', timeout)
    for f in fs:
        s.add(f)
    s.add(z3.Not(g))
    for f in tr.side:
        s.add(f)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS['time'] += time.time() - t0
    if r == z3.unsat:
        res = 'proved'
    elif r == z3.sat:
        res = 'refuted'
    else:
        STATS['unknown'] += 1
        res = 'unknown'
    if want_model:
        m = None
        if res == 'refuted':
            m = (s.model(), tr)
        return res, m
    return res


def cvc5_check(assumptions, goal, axioms=None, timeout=10):
    """second opinion through SMT-LIB"""
    import subprocess, tempfile, os
    tr = Trans(axioms)
    fs = [tr.tr(a) for a in assumptions if a is not TRUE]
    g = tr.tr(goal)
    fs += tr.axiom_facts()
    s = z3.Solver()
    for f in fs + tr.side:
        s.add(f)
    s.add(z3.Not(g))
    txt = '(set-logic ALL)\n' + s.to_smt2()
    STATS['cvc5'] += 1
    t0 = time.time()
    fd, p = tempfile.mkstemp(suffix='.smt2')
    try:
        os.write(fd, txt.encode())
        os.close(fd)
        try:
            out = subprocess.run(['cvc5', '--tlimit=%d' % (timeout * 1000), '--nl-cov', p], capture_output=True, text=True, timeout=timeout + 5).stdout
        except Exception:
            out = ''
    finally:
        os.unlink(p)
    STATS['cvc5_time'] += time.time() - t0
    return 'proved' if out.strip().startswith('unsat') else 'unknown'


def model_values(mt, names):
    """rational values for named scalar variables, and array points, from a z3 model"""
    model, tr = mt
    vals = {}
    for t, e in list(tr.memo.items()):
        if t.op == 'var' and t is not tm.PI:
            v = model.eval(e, model_completion=True)
            vals[t.data] = z3frac(v)
    pts = {}
    for n, apps in tr.apps.items():
        if n in MATHFN:
            continue
        for t, e, args in apps:
            iv = tuple(z3frac(model.eval(a, model_completion=True)) for a in args)
            vv = z3frac(model.eval(e, model_completion=True))
            if None not in iv and vv is not None:
                pts.setdefault(n, {})[iv] = vv
    return {k: v for k, v in vals.items() if v is not None}, pts


def z3frac(v):
    try:
        if z3.is_int_value(v):
            return Fr(v.as_long())
        if z3.is_rational_value(v):
            return Fr(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_algebraic_value(v):
            a = v.approx(20)
            return Fr(a.numerator_as_long(), a.denominator_as_long())
    except Exception:
        pass
    return None
