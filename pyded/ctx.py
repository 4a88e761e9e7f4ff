"""Contract harness context: the same harness text is proved symbolically and executed on numbers."""
import json
import math
import os
import random
import re
import time
import traceback
from fractions import Fraction as Fr
from . import terms as tm
from . import rt as rtm
from . import arrays as ar
from . import shims, loader, prove, smt, nf
from .terms import T, lift, num, const, fn, ite, eq, lt, le, band, bnot, bor, implies, ZERO, ONE, TRUE, FALSE, Unsupported, as_bool
from .arrays import SymArray, make_array


class Reject(Exception):
    """concrete input violates a precondition"""


class Violation(Exception):
    def __init__(self, label, detail, facts=()):
        Exception.__init__(self, '%s: %s' % (label, detail))
        self.label = label
        self.detail = detail


class Stop(Exception):
    pass


# ---------------------------------------------------------------------------
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def missing(e):
    """what is wrong with the code when an object its constructor made lacks an attribute its class uses; else None"""
    if isinstance(e, shims.UsedBeforeSet):
        return str(e) if e.real else None
    if not isinstance(e, AttributeError):
        return None
    o, name = getattr(e, 'obj', None), getattr(e, 'name', None)
    if o is None or not name or isinstance(o, type) or '_pyded_raw' in getattr(o, '__dict__', {}):
        return None
    for f in vars(type(o)).values():
        src = getattr(getattr(f, '__code__', None), 'co_filename', '')
        if loader.PKG in src and os.path.exists(src) and not src.startswith(HERE):
            with open(src) as fh:
                if re.search(r'\bself\.%s\b' % re.escape(name), fh.read()):
                    return '%s object has no %s' % (type(o).__name__, name)
            return None
    return None


def not_the_code(e):
    """errors of the verifier's models and of the stand-ins a contract puts in place of other components are no
    statement about the code: the contract then decides nothing"""
    tb = traceback.extract_tb(e.__traceback__)
    inner = tb[-1].filename if tb else ''
    if isinstance(e, (AttributeError, TypeError, NameError, NotImplementedError)) and inner.startswith(HERE):
        raise Unsupported('%s: %s in the stand-in or model %s:%d' % (type(e).__name__, e, os.path.basename(inner), tb[-1].lineno))
    if isinstance(e, TypeError) and '<l' in str(e) and re.search(r'unexpected keyword argument|positional argument|required keyword|multiple values for', str(e)):
        raise Unsupported('called with other arguments: %s' % e)


def built(c, k):
    """stand-in for the problem object: the given fields, and arbitrary values for its other fields"""
    o = shims.NS(**k)

    def fill(name):
        ty = getattr(c.module('solver_classes.build_problem').build, '_jit_spec', {}).get(name)
        if ty == 'float64':
            v = c.real('any_' + name)
        elif ty == 'int64':
            v = c.int('any_' + name, 0)
        elif ty == 'float64[:]':
            v = c.array('any_' + name, c.int('len_' + name, 1))
        else:
            raise Unsupported('the contract does not say what the problem\'s %s is' % name)
        setattr(o, name, v)
        return v
    object.__setattr__(o, '_fill', fill)
    return o


class SymCtx:
    symbolic = True

    def __init__(self, task, run, ld):
        self.task = task
        self.R = run
        self.ld = ld
        self.prover = prove.Prover(run)
        self.inputs = []
        self.choices = {}
        self.mth = shims.SymMath
        self.np = ld.world.mods['numpy']

    # inputs -----------------------------------------------------------------
    def choice(self, name, values):
        """enumerated parameter: one value per path"""
        values = list(values)
        i = self.R.fork(len(values)) if len(values) > 1 else 0
        self.choices[name] = i
        return values[i]

    def int(self, name, lo=None, hi=None, conc=None):
        if self.task.sizes is not None and name in self.task.sizes:
            return self.task.sizes[name]
        self.task.int_names.setdefault(name, (lo if isinstance(lo, int) else 0, hi if isinstance(hi, int) else None, list(conc) if conc else None))
        v = tm.var(name, 'I')
        if lo is not None:
            self.R.push(le(lift(lo), v))
        if hi is not None:
            self.R.push(le(v, lift(hi)))
        return v

    def real(self, name, gen=None, lo=None, hi=None, pos=False, nonneg=False):
        v = tm.var(name, 'R')
        if pos:
            self.R.push(lt(ZERO, v))
        if nonneg:
            self.R.push(le(ZERO, v))
        if lo is not None:
            self.R.push(le(lift(lo), v))
        if hi is not None:
            self.R.push(le(v, lift(hi)))
        return v

    def array(self, name, shape, gen=None, axioms=None, sort='R', each=None):
        """symbolic array; axioms: fn(list of index tuples) -> facts;  each: fn(value, idx) -> fact"""
        if not isinstance(shape, (tuple, list)):
            shape = (shape,)
        a = make_array(shape, lambda V: fn(name, *V, sort=sort), 'i' if sort == 'I' else 'f')
        if each:
            self.R.axioms.add(name, lambda idx: [as_bool(lift(each(fn(name, *i, sort=sort), *i))) for i in idx])
        if axioms == 'increasing':
            def ax(idx):
                out = []
                for i in idx:
                    for j in idx:
                        if i is not j:
                            out.append(implies(lt(i[-1], j[-1]), lt(fn(name, *i), fn(name, *j))))
                return out
            self.R.axioms.add(name, ax)
        elif axioms:
            self.R.axioms.add(name, axioms)
        return a

    def func(self, name, pyf=None, nargs=1):
        """uninterpreted real function usable on scalars and arrays"""
        def f(*xs):
            if any(isinstance(x, SymArray) for x in xs):
                return ar.elementwise(lambda *ts: fn(name, *[num(t) for t in ts]), *xs)
            return fn(name, *[num(lift(x)) for x in xs])
        return f

    def assume(self, c):
        if c is True:
            return
        c = as_bool(lift(c))
        self.R.push(c)
        if c is FALSE:
            raise Reject()

    def assume_consistent(self):
        if self.R.entails(FALSE) == 'proved':
            raise Reject()

    def generic(self, name, n):
        """a generic index 0 <= i < n"""
        if isinstance(n, int):
            return None
        v = tm.fresh(name, 'I')
        self.R.push(le(ZERO, v), lt(v, lift(n)))
        return v

    def each_index(self, name, n):
        """all indices of range(n): every one when n is concrete, one generic index otherwise"""
        if isinstance(n, T) and n.op == 'const':
            n = int(n.data)
        if isinstance(n, int):
            return list(range(n))
        return [self.generic(name, n)]

    # loading ------------------------------------------------------------------
    def module(self, name):
        return self.ld.load('moving_mesh_transport.' + name)

    # checks -------------------------------------------------------------------
    def call(self, label, f, *a, **k):
        """run code under contract: an exception on a feasible path is a failed obligation"""
        try:
            return f(*a, **k)
        except (Unsupported, Reject, Violation, prove.Failed, rtm.Infeasible):
            raise
        except RecursionError as e:
            raise Unsupported('recursion limit')
        except Exception as e:
            import os
            if os.environ.get('PYDED_TB'):
                traceback.print_exc()
            not_the_code(e)
            tb = traceback.extract_tb(e.__traceback__)
            where = next((('%s:%d' % (x.filename, x.lineno)) for x in reversed(tb) if loader.PKG in x.filename), '?')
            self.task.fail(self, label, 'raises %s: %s at %s' % (type(e).__name__, e, where), list(self.R.facts), 'exception')
            raise Stop()

    def expect_raises(self, label, exc, f, *a, **k):
        try:
            f(*a, **k)
        except exc:
            self.task.ok(self, label)
            return
        self.task.fail(self, label, 'did not raise %s' % exc.__name__, list(self.R.facts), 'refuted')

    def check_eq(self, label, got, want, tol=None):
        t = self.task
        self.R.check_deadline()
        pairs = self.pairs(label, got, want)
        if pairs is None:
            return
        for m, idx, a, b in pairs():
            t.obligation(self, label, lambda: self.prover.prove_eq(a, b))

    def pairs(self, label, got, want):
        if isinstance(got, rtm.Poison):
            got._bad()
        if isinstance(got, SymArray) or isinstance(want, SymArray):
            if not isinstance(got, SymArray) or (not isinstance(want, SymArray) and not callable(want)):
                self.task.fail(self, label, 'array/scalar mismatch', list(self.R.facts), 'refuted')
                return None
            if isinstance(want, SymArray):
                if len(got.shape) != len(want.shape):
                    self.task.fail(self, label, 'rank differs', list(self.R.facts), 'refuted')
                    return None
                ok = True
                for x, y in zip(got.shape, want.shape):
                    if lift(x) is not lift(y):
                        if self.R.simplify_cond(eq(lift(x), lift(y))) is not TRUE:
                            self.task.fail(self, label, 'shape %s differs from %s' % (got.shape, want.shape), list(self.R.facts), 'refuted')
                            return None
            from itertools import product

            def it():
                axes = []
                m = self.R.mark()
                for s in got.shape:
                    axes.append([const(i) for i in range(s)] if isinstance(s, int) else [self.generic('J', s)])
                for V in product(*axes):
                    w = want.at(V) if isinstance(want, SymArray) else want(*[rtm.asint(v) for v in V])
                    yield m, V, got.at(V), num(lift(w))
                self.R.pop(m)
            return it
        if isinstance(got, (list, tuple)) and isinstance(want, (list, tuple)):
            if len(got) != len(want):
                self.task.fail(self, label, 'length differs', list(self.R.facts), 'refuted')
                return None

            def it2():
                for x, y in zip(got, want):
                    p = self.pairs(label, x, y)
                    if p:
                        yield from p()
            return it2
        if got is None or want is None or isinstance(got, str) or isinstance(want, str):
            if got is want or (isinstance(got, str) and got == want):
                self.task.ok(self, label)
            else:
                self.task.fail(self, label, '%r instead of %r' % (got, want), list(self.R.facts), 'refuted')
            return None

        def it3():
            yield None, (), num(lift(got)), num(lift(want))
        return it3

    def check(self, label, c):
        if isinstance(c, SymArray):
            raise Unsupported('check of array')
        self.task.obligation(self, label, lambda: self.prover.prove(c))

    def check_one_of(self, label, got, values):
        """scalar got equals one of the values (zero when there are none)"""
        got = num(lift(got))

        def f():
            for k, v in enumerate(values or [0]):
                try:
                    return self.prover.prove_eq(got, num(lift(v)))
                except prove.Failed:
                    if k == len(values or [0]) - 1:
                        raise
        self.task.obligation(self, label, f)

    def same(self, label, got, want):
        """concrete (non-numeric) comparison"""
        if got == want and type(got == want) is bool:
            self.task.ok(self, label)
        else:
            self.task.fail(self, label, '%r instead of %r' % (got, want), list(self.R.facts), 'refuted')

    # spec-side mathematics -----------------------------------------------------
    pi = tm.PI
    sqrt = staticmethod(lambda x: tm.sqrt(lift(x)))
    exp = staticmethod(lambda x: tm.exp(x))
    erf = staticmethod(lambda x: shims.t_erf(num(lift(x))))
    expi = staticmethod(lambda x: fn('expi', num(lift(x))))
    cos = staticmethod(lambda x: fn('cos', num(lift(x))))
    log = staticmethod(lambda x: shims.nlog(num(lift(x))))
    legendre = staticmethod(shims.legendre)

    def q(self, a, b=1):
        return const(Fr(a, b))

    def ite(self, c, a, b):
        return tm.unb(ite(as_bool(lift(c)), num(lift(a)), num(lift(b))))

    def and_(self, *cs):
        return band(*[as_bool(lift(c)) for c in cs])

    def or_(self, *cs):
        return bor(*[as_bool(lift(c)) for c in cs])

    def not_(self, c):
        return bnot(as_bool(lift(c)))

    def implies(self, a, b):
        return implies(as_bool(lift(a)), as_bool(lift(b)))

    def eq(self, a, b):
        return eq(num(lift(a)), num(lift(b)))

    def abs(self, x):
        return ar.absv(num(lift(x)))

    def min(self, a, b):
        a, b = num(lift(a)), num(lift(b))
        return ite(lt(b, a), b, a)

    def max(self, a, b):
        a, b = num(lift(a)), num(lift(b))
        return ite(lt(a, b), b, a)

    def sum(self, n, f):
        return ar.reduce_sum(lambda k: num(lift(f(k))), ar.dim(n))

    def annotate(self, f):
        """loop invariants: f(arrays modified, loop depth, length) -> {array id: form}"""
        self.R.annotate = f

    def hint(self, f):
        """more indices at which facts about all indices are instantiated"""
        self.R.hints = [f]

    def at(self, a, *i):
        """entry of an input array without a bounds check (arbitrary outside)"""
        try:
            return a.at(tuple(lift(x) for x in i))
        except IndexError:
            return ZERO

    def vec(self, n, f):
        """array from a function of the index (spec side)"""
        if isinstance(n, (tuple, list)):
            return make_array(tuple(n), lambda V: num(lift(f(*[rtm.asint(v) for v in V]))))
        return make_array((n,), lambda V: num(lift(f(rtm.asint(V[0])))))

    def dot(self, A, b):
        return ar.np_dot(A, b)

    def inv(self, A):
        return shims.sym_inv(A)

    def arr(self, xs, kind=None):
        return ar.as_array(list(xs), kind)

    def ints(self, xs):
        return ar.as_array([int(x) for x in xs], 'i')

    def dict(self, d):
        return shims.TDict(d)

    def floordiv(self, a, b):
        return shims.py_floordiv(a, b)

    def mod(self, a, b):
        return shims.py_mod(a, b)

    def toint(self, x):
        return shims.b_int(x)

    def branch(self, c):
        """case split of the harness itself"""
        return bool(c)

    def obj(self, **k):
        return shims.NS(**k)

    def build(self, **k):
        return built(self, k)

    def raw(self, cls):
        """instance of a class without running __init__"""
        o = cls.__new__(cls)
        object.__setattr__(o, '_rt_created', self.R.clock())
        o.__dict__['_pyded_raw'] = True
        return o


# ---------------------------------------------------------------------------
class ConcCtx:
    symbolic = False
    R = None

    def __init__(self, task, ld, rng, env=None):
        import numpy
        self.task = task
        self.ld = ld
        self.rng = rng
        self.env = env or {}
        self.record = {}
        self.np_ = numpy
        self.np = ld.world.mods['numpy']
        self.tol = 1e-7
        self.checked = 0

    def _num(self, x):
        return x

    def choice(self, name, values):
        values = list(values)
        if name in self.env:
            i = self.env[name]
        else:
            i = self.rng.randrange(len(values))
        self.record[name] = i
        return values[i]

    def int(self, name, lo=None, hi=None, conc=None):
        lo2 = 0 if lo is None else lo
        if name in self.env:
            v = int(self.env[name])
        elif conc is not None:
            v = self.rng.choice(list(conc))
        else:
            h = min(hi, lo2 + 5) if hi is not None else lo2 + 5
            v = self.rng.randint(lo2, h) if isinstance(lo2, int) else int(lo2)
        self.record[name] = v
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject()
        return v

    def real(self, name, gen=None, lo=None, hi=None, pos=False, nonneg=False):
        r = self.rng
        if name in self.env:
            v = float(self.env[name])
        elif gen is not None:
            v = gen(r) if callable(gen) else r.uniform(*gen)
        else:
            a = lo if lo is not None else (0 if pos or nonneg else -3)
            b = hi if hi is not None else (a + 4 if (pos or nonneg or lo is not None) else 3)
            u = r.random()
            v = float(a) + (float(b) - float(a)) * (u if u > 0.02 else 0.02)
            if r.random() < 0.15:
                v2 = round(v * 2) / 2
                if float(a) < v2 < float(b):
                    v = v2
        v = float(v)
        self.record[name] = v
        if (pos and not v > 0) or (nonneg and v < 0) or (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject()
        return v

    def array(self, name, shape, gen=None, axioms=None, sort='R', each=None):
        np = self.np_
        if not isinstance(shape, (tuple, list)):
            shape = (shape,)
        shape = tuple(int(s) for s in shape)
        if name in self.env:
            a = np.array(self.env[name], dtype=float if sort == 'R' else int).reshape(shape)
        else:
            r = np.random.RandomState(self.rng.randrange(2**31))
            if gen is not None:
                a = np.array(gen(r, shape), dtype=float).reshape(shape)
            elif axioms == 'increasing':
                a = np.cumsum(r.uniform(0.2, 1.5, shape), axis=-1) + r.uniform(-2, 0)
            else:
                a = r.uniform(-2, 2, shape)
            pts = self.env.get('@' + name)
            if pts:
                for k, v in pts.items():
                    try:
                        a[tuple(int(x) for x in k)] = float(v)
                    except (IndexError, ValueError):
                        pass
        self.record[name] = a.tolist()
        if each is not None:
            for k in np.ndindex(*shape):
                if not each(a[k], *k):
                    raise Reject()
        if axioms == 'increasing' and shape[-1] > 1 and not (np.diff(a, axis=-1) > 0).all():
            raise Reject()
        return a

    def func(self, name, pyf=None, nargs=1):
        import numpy as np
        if pyf is not None:
            return pyf
        c = [self.rng.uniform(0.3, 1.5) for _ in range(nargs)]
        return lambda *xs: np.cos(sum(a * x for a, x in zip(c, xs))) + 1.5

    def assume(self, c):
        if not c:
            raise Reject()

    def assume_consistent(self):
        pass

    def each_index(self, name, n):
        return list(range(int(n)))

    def module(self, name):
        return self.ld.load('moving_mesh_transport.' + name)

    def call(self, label, f, *a, **k):
        import warnings
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return f(*a, **k)
        except (Reject, Violation, Unsupported):
            raise
        except Exception as e:
            if not missing(e):
                not_the_code(e)
            tb = traceback.extract_tb(e.__traceback__)
            where = next((('%s:%d' % (x.filename, x.lineno)) for x in reversed(tb) if loader.PKG in x.filename), '?')
            raise Violation(label, 'raises %s: %s at %s' % (type(e).__name__, e, where))

    def expect_raises(self, label, exc, f, *a, **k):
        try:
            f(*a, **k)
        except exc:
            return
        raise Violation(label, 'did not raise %s' % exc.__name__)

    def check_eq(self, label, got, want, tol=None):
        np = self.np_
        tol = tol or self.tol
        self.checked += 1
        if got is None or want is None or isinstance(got, str) or isinstance(want, str):
            if not (got is want or (isinstance(got, str) and got == want)):
                raise Violation(label, 'got %r, contract says %r' % (got, want))
            return
        if callable(want) and not hasattr(want, 'shape'):
            g = np.asarray(got, dtype=float)
            w = np.array([want(*k) for k in np.ndindex(*g.shape)], dtype=float).reshape(g.shape)
        else:
            try:
                g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
            except (ValueError, TypeError):
                if isinstance(got, (list, tuple)) and len(got) == len(want):
                    for x, y in zip(got, want):
                        self.check_eq(label, x, y, tol)
                    return
                raise Violation(label, 'got %r, contract says %r' % (got, want))
        if g.shape != w.shape:
            raise Violation(label, 'shape %s, contract says %s' % (g.shape, w.shape))
        if g.size == 0:
            return
        scale = np.maximum(1.0, np.maximum(np.abs(w), np.nanmax(np.abs(w)) * 1e-3))
        with np.errstate(all='ignore'):
            bad = ~(np.abs(g - w) <= tol * scale)
        # agreeing infinities/nans mean the input is outside the domain
        if bad.any() and not np.isfinite(w[bad]).all():
            raise Reject()
        if bad.any():
            k = tuple(np.argwhere(bad)[0]) if bad.shape else ()
            raise Violation(label, 'got %r, contract says %r%s' % (float(g[k]), float(w[k]), ' at index %s' % (tuple(int(i) for i in k),) if k else ''))

    def check(self, label, c):
        self.checked += 1
        if not c:
            raise Violation(label, 'condition is false')

    def check_one_of(self, label, got, values):
        got = float(got)
        if not any(abs(got - float(v)) <= 1e-7 * (1 + abs(float(v))) for v in (values or [0])):
            self.check_eq(label, got, (values or [0])[0])

    def same(self, label, got, want):
        self.checked += 1
        if not got == want:
            raise Violation(label, 'got %r, contract says %r' % (got, want))

    pi = math.pi

    def sqrt(self, x):
        return self.np_.sqrt(x)

    def exp(self, x):
        return self.np_.exp(x)

    def erf(self, x):
        return math.erf(x)

    def expi(self, x):
        import scipy.special
        return scipy.special.expi(x)

    def cos(self, x):
        return self.np_.cos(x)

    def log(self, x):
        return self.np_.log(x)

    def legendre(self, n, x):
        import scipy.special
        return scipy.special.eval_legendre(int(n), x)

    def q(self, a, b=1):
        return a / b

    def ite(self, c, a, b):
        return a if c else b

    def and_(self, *cs):
        return all(cs)

    def or_(self, *cs):
        return any(cs)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def eq(self, a, b):
        return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))

    def abs(self, x):
        return abs(x)

    def min(self, a, b):
        return min(a, b)

    def max(self, a, b):
        return max(a, b)

    def sum(self, n, f):
        return sum((f(k) for k in range(int(n))), 0.0)

    def annotate(self, f):
        pass

    hint = annotate

    def at(self, a, *i):
        return a[tuple(int(x) for x in i)] if all(0 <= x < m for x, m in zip(i, a.shape)) else 0.0

    def vec(self, n, f):
        np = self.np_
        sh = tuple(n) if isinstance(n, (tuple, list)) else (n,)
        return np.array([f(*k) for k in np.ndindex(*sh)], dtype=float).reshape(sh)

    def dot(self, A, b):
        return self.np_.dot(A, b)

    def inv(self, A):
        return self.np_.linalg.inv(A)

    def arr(self, xs, kind=None):
        return self.np_.array(list(xs), dtype=float if kind != 'i' else int)

    def ints(self, xs):
        return self.np_.array([int(x) for x in xs])

    def dict(self, d):
        return dict(d)

    def floordiv(self, a, b):
        return a // b

    def mod(self, a, b):
        return a % b

    def toint(self, x):
        return int(x)

    def branch(self, c):
        return bool(c)

    def obj(self, **k):
        return shims.NS(**k)

    def build(self, **k):
        return built(self, k)

    def raw(self, cls):
        o = cls.__new__(cls)
        o.__dict__['_pyded_raw'] = True
        return o


# ---------------------------------------------------------------------------
class Task:
    """one contract: symbolic proof + concrete execution"""

    def __init__(self, name, harness, params=None, sizes=None, budget=120, opts=None, functions=(), bounded=None, conc=40, search=400,
                 tol=None, tier='quick', assumes=(), cases=None):
        self.params = params or {}
        self.bounded = bounded
        self.conc = conc
        self.search_n = search
        self.tol = tol
        self.tier = tier
        self.assumes = list(assumes)
        self.cases = cases
        self.int_names = {}
        self.name = name
        self.harness = harness
        self.sizes = sizes
        self.budget = budget
        self.opts = opts or {}
        self.functions = list(functions)
        self.obls = {}      # label -> [proved, failed]
        self.failures = []
        self.unsupported = []
        self.unproved_defs = []
        self.defs = 0
        self.paths = 0
        self.by = {}
        self.only_label = None

    def ok(self, ctx, label):
        self.obls.setdefault(label, [0, 0])[0] += 1

    def obligation(self, ctx, label, f):
        o = self.obls.setdefault(label, [0, 0])
        try:
            f()
            o[0] += 1
        except prove.Failed as e:
            o[1] += 1
            self.record(ctx, label, str(e), e.facts, e.kind, e.model)

    def fail(self, ctx, label, why, facts, kind):
        self.obls.setdefault(label, [0, 0])[1] += 1
        model = None
        res, model = smt.check(facts, FALSE, ctx.R.axioms, timeout=2000, want_model=True)
        if res == 'proved':
            self.obls[label][1] -= 1
            return
        self.record(ctx, label, why, facts, kind, model)

    def record(self, ctx, label, why, facts, kind, model):
        if len(self.failures) > 12:
            return
        self.algebraic = kind == 'exception' or not any(x in why for x in ('exp(', 'erf(', 'expi(', 'Sum[', 'sqrt', 'cos(', 'legendre', '^(1/2)', '!', 'idiv', 'floor'))
        if any(tm.names_bang(f) or tm.opaque(f) for f in facts) or ctx.R.annotate:
            self.algebraic = False
        mv = None
        if model is not None:
            try:
                mv = smt.model_values(model, None)
            except Exception:
                mv = None
        self.failures.append({'label': label, 'why': why, 'kind': kind, 'facts': [tm.show(f, 6) for f in facts][:40], 'model': mv, 'choices': dict(ctx.choices),
                              'algebraic': self.algebraic})

    def prove(self, deadline=None):
        t0 = time.time()
        run = rtm.Run(deadline=min(deadline or 1e18, t0 + self.budget), opts=self.opts)
        self.run = run
        rtm.install(run)
        world = shims.SymWorld()
        ld = loader.Loader(True, world)
        self.ld = ld
        if self.opts.get('world'):
            self.opts['world'](world)
        feasible = [0]

        def once():
            ctx = SymCtx(self, run, ld)
            try:
                self.harness(ctx, **self.params)
                feasible[0] += 1
            except (Stop, Reject, rtm.Infeasible):
                pass
            except rtm.PathLimit:
                raise
            except Unsupported as e:
                self.note_unsupported(e)
            except (MemoryError, KeyboardInterrupt):
                raise
            except Exception as e:
                if os.environ.get('PYDED_TB'):
                    traceback.print_exc()
                self.note_unsupported(Unsupported('the contract does not fit the code: %s: %s' % (type(e).__name__, e)))
            for k, v in ctx.prover.by.items():
                self.by[k] = self.by.get(k, 0) + v
            for d, (facts,) in run.denoms.items():
                self.defs += 1
                if self.defs < 400:
                    self.definedness(run, d, facts)
        try:
            run.explore(once)
        except Unsupported as e:
            self.note_unsupported(e)
        except RecursionError:
            self.note_unsupported(Unsupported('recursion limit'))
        self.paths = run.paths
        self.feasible = feasible[0]
        self.loops = ld.loops
        self.wall = time.time() - t0
        if self.feasible == 0 and not self.failures and not self.unsupported:
            self.note_unsupported(Unsupported('vacuous: no path satisfies the preconditions'))
        return self

    def definedness(self, run, d, facts):
        key = ('def', frozenset(f.id for f in facts), d)
        if key in run.memo:
            return
        m = run.mark()
        old = list(run.facts)
        run.facts[:] = facts
        run.keyset = None
        try:
            s = run.simplify_cond(eq(d, ZERO))
        except Unsupported:
            s = None
        finally:
            run.facts[:] = old
            run.keyset = None
        run.memo[key] = True
        if s is not FALSE:
            w = tm.show(d, 5)
            if w not in self.unproved_defs and len(self.unproved_defs) < 20:
                self.unproved_defs.append(w)

    def note_unsupported(self, e):
        tb = traceback.extract_tb(e.__traceback__) if e.__traceback__ else []
        where = next((('%s:%d' % (x.filename, x.lineno)) for x in reversed(tb) if loader.PKG in x.filename), '')
        s = '%s %s' % (e, where)
        if s not in self.unsupported and len(self.unsupported) < 10:
            self.unsupported.append(s)

    @property
    def proved(self):
        return not self.failures and not self.unsupported and sum(a for a, b in self.obls.values()) > 0

    # concrete -----------------------------------------------------------------
    def conc_loader(self):
        if not hasattr(self, '_cl'):
            w = shims.ConcWorld()
            if self.opts.get('world'):
                self.opts['world'](w)
            self._cl = loader.Loader(False, w)
        return self._cl

    def run_concrete(self, seed, env=None):
        """returns ('ok'|'reject'|'violation', detail, record)"""
        rtm.RUN = None
        rng = random.Random(seed)
        ctx = ConcCtx(self, self.conc_loader(), rng, env)
        if self.tol:
            ctx.tol = self.tol
        try:
            self.harness(ctx, **self.params)
            return 'ok', None, ctx.record
        except (Reject, Unsupported):
            return 'reject', None, ctx.record
        except Violation as v:
            return 'violation', {'label': v.label, 'detail': v.detail}, ctx.record
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            inner = tb[-1].filename if tb else ''
            if missing(e):
                return 'violation', {'label': 'results handed out', 'detail': missing(e)}, ctx.record
            if isinstance(e, IndexError) and inner.startswith(os.path.join(HERE, 'contracts')):
                return 'violation', {'label': 'shapes', 'detail': 'an array is smaller than the contract says: %s' % e}, ctx.record
            raise

    def search(self, seed, n, deadline, envs=()):
        cnt = {'ok': 0, 'reject': 0}
        for env in envs:
            for k in range(6):
                if time.time() > deadline:
                    return None, cnt
                r, d, rec = self.run_concrete(seed * 1000 + k, env)
                if r == 'violation':
                    return (d, rec), cnt
                cnt[r] += 1
        k = 0
        while cnt['ok'] < n and k < 40 * n and time.time() < deadline:
            r, d, rec = self.run_concrete(seed * 100003 + k)
            k += 1
            if r == 'violation':
                return (d, rec), cnt
            cnt[r] += 1
        return None, cnt


def model_env(mv, choices=None):
    """z3 model -> environment overrides for a concrete run"""
    env = dict(choices or {})
    if not mv:
        return env
    scal, pts = mv
    for k, v in scal.items():
        env[k] = float(v) if v.denominator != 1 else int(v)
    for n, d in pts.items():
        env['@' + n] = {k: float(v) for k, v in d.items()}
    return env
