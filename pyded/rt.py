"""Run time of the verifier: path exploration, loop rule, assumptions.

The functions of /repo are executed as they are (after the mechanical
instrumentation of loader.py) on symbolic values.  Every branch whose condition
is not entailed by the assumptions is explored both ways; loops over ranges of
symbolic length are summarised for all iterations at once by `Loop`.
"""
import builtins
import time
from fractions import Fraction as Fr
from . import terms as tm
from . import nf, smt, arrays
from .terms import (T, mk, const, lift, lift_or_none, num, add, sub, mul, div, eq, lt, le, band, bnot, bor, implies, ite, fn, subst,
                    ZERO, ONE, TRUE, FALSE, Unsupported, as_bool)
from .arrays import SymArray, Root, FnLayer, DictLayer, dim


class PathLimit(Unsupported):
    pass


class Infeasible(Exception):
    """the assumptions of this path are contradictory"""


class Ret:
    __slots__ = ('val',)

    def __init__(self, v):
        self.val = v


BRK = object()


class Poison:
    """value that the loop rule could not summarise: an error only when used"""

    def __init__(self, why):
        object.__setattr__(self, 'why', why)

    def _bad(self, *a, **k):
        raise Unsupported(object.__getattribute__(self, 'why'))
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __pow__ = __neg__ = _bad
    __getitem__ = __setitem__ = __bool__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __len__ = __iter__ = __call__ = _bad
    __abs__ = __index__ = __float__ = __int__ = _bad
    __hash__ = None

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        self._bad()


class DecCtx:
    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.taken = []
        self.alts = []


class Run:
    """one verification task (a contract); re-executed once per path"""

    def __init__(self, deadline=None, opts=None):
        self.opts = opts or {}
        self.deadline = deadline
        self.memo = {}          # (facts key, cond) -> bool/None
        self.norms = {}
        self.max_paths = self.opts.get('max_paths', 400)
        self.while_rule = self.opts.get('while_rule', False)
        self.z3_timeout = self.opts.get('z3_timeout', 1500)
        self.paths = 0
        self.reset()

    searches = {}

    def reset(self):
        self.facts = []
        self.keyset = None
        self.axioms = smt.Axioms()
        self.searchsorted = {}
        self.jr = []
        self.writes = []
        self.clk = 0
        self.dctx = None
        self.denoms = {}
        self.aliases = []
        self.loopdepth = 0
        self.bound, self.rstack = [], []
        self.loopvars = []
        self.hints = []
        self.annotate = self.opts.get('invariants')
        self.axfacts = set()
        self.inv_keys = {}
        tm._fresh[0] = 0

    # -- clock and journal ---------------------------------------------------
    def clock(self):
        self.clk += 1
        return self.clk

    def journal(self, e):
        self.jr.append(e)

    def note_write(self, root):
        self.writes.append(root)
        for a, b in self.aliases:
            if a is root and not b.stale:
                b.stale = 'write to an array after reshape/transpose copy'
                self.jr.append(('stale', b))
            elif b is root and not a.stale:
                a.stale = 'write to a reshaped view'
                self.jr.append(('stale', a))

    def alias(self, a, b):
        self.aliases.append((a, b))

    def rollback(self, mark):
        jr = self.jr
        while len(jr) > mark:
            e = jr.pop()
            k = e[0]
            if k == 'root':
                e[1].base, e[1].layers = e[2], e[3]
            elif k == 'dict':
                if e[3] is None:
                    e[1].pop(e[2], None)
                else:
                    e[1][e[2]] = e[3]
            elif k == 'attr':
                if e[3] is MISSING:
                    try:
                        object.__delattr__(e[1], e[2])
                    except AttributeError:
                        pass
                else:
                    object.__setattr__(e[1], e[2], e[3])
            elif k == 'stale':
                e[1].stale = None
            elif k == 'list':
                list.__setitem__(e[1], slice(None), e[2])
            elif k == 'pydict':
                dict.clear(e[1])
                dict.update(e[1], e[2])

    # -- facts -----------------------------------------------------------------
    def fkey(self):
        if self.keyset is None:
            self.keyset = frozenset(f.id for f in self.facts)
        return self.keyset

    def push(self, *fs):
        self.facts.extend(f for f in fs if f is not TRUE)
        self.keyset = None

    def mark(self):
        return len(self.facts)

    def pop(self, m):
        del self.facts[m:]
        self.keyset = None

    def push_range(self, v, n):
        self.rstack = getattr(self, 'rstack', [])
        self.rstack.append(self.mark())
        self.bound = getattr(self, 'bound', []) + [v]
        self.push(le(ZERO, v), lt(v, lift(n)))

    def pop_range(self, v):
        self.bound = self.bound[:-1]
        self.pop(self.rstack.pop())

    def norm(self):
        k = self.fkey()
        n = self.norms.get(k)
        if n is None:
            facts = list(self.facts)
            n = nf.Norm(lambda t, binders=(): self.sign_oracle(facts, t, binders))
            self.norms[k] = n
        return n

    def sign_oracle(self, facts, t, binders=()):
        ids = frozenset(f.id for f in facts)
        key = ('nn', ids, t, tuple((v.id, n.id) for v, n in binders))
        r = self.memo.get(key)
        if r is None:
            r = False
            g = le(ZERO, t)
            if g is TRUE:
                r = True
            elif g is not FALSE:
                if ground(t):
                    r = gval(t) >= 0
                else:
                    fs = facts + [x for v, n in binders for x in (le(ZERO, v), lt(v, lift(n)))]
                    if any(f is g for f in fs):
                        r = True
                    else:
                        r = smt.check(fs, g, self.axioms, timeout=min(600, self.z3_timeout)) == 'proved'
            self.memo[key] = r
        return r

    def norm_nonneg(self, t):
        return self.norm().is_nonneg(t)

    def canon(self, t):
        if t.op in ('const', 'var'):
            return t
        try:
            return self.norm().canon(t)
        except nf.Limit as e:
            raise Unsupported('normal form too large: %s' % e)

    def entails(self, c, timeout=None):
        """'proved' / 'refuted' (some model) / 'unknown' """
        if c is TRUE:
            return 'proved'
        if c is FALSE and not self.facts:
            return 'refuted'
        key = (self.fkey(), c)
        r = self.memo.get(key)
        if r is None:
            if any(f is c for f in self.facts):
                r = 'proved'
            else:
                nc = bnot(c)
                if any(f is nc for f in self.facts):
                    r = 'refuted'
                else:
                    r = smt.check(self.facts, c, self.axioms, timeout=timeout or self.z3_timeout)
            self.memo[key] = r
        return r

    def cbool(self, c):
        if c.op == 'bconst':
            return c
        try:
            return self.norm().canon_bool(c)
        except nf.Limit:
            return c

    def simplify_cond(self, c):
        c = as_bool(c)
        if c.op == 'bconst':
            return c
        key = ('sc', self.fkey(), c)
        r = self.memo.get(key)
        if r is not None:
            return r
        c0 = c
        c = self.cbool(c)
        if c.op == 'bconst':
            r = c
        elif ground(c):
            r = TRUE if gval(c) else FALSE
        elif c.op == 'and':
            parts = [self.simplify_cond(x) for x in c.args]
            r = band(*parts)
            if r.op == 'and' and self.entails(bnot(r)) == 'proved':
                r = FALSE
        elif self.entails(c) == 'proved':
            r = TRUE
        elif self.entails(bnot(c)) == 'proved':
            r = FALSE
        else:
            r = c
        self.memo[key] = r
        return r

    def check_deadline(self):
        if self.deadline and time.time() > self.deadline:
            raise PathLimit('time limit')

    # -- decisions ---------------------------------------------------------
    def decide(self, c):
        c = self.simplify_cond(c)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        self.check_deadline()
        d = self.dctx
        if d is None:
            raise Unsupported('branch on symbolic condition outside a run')
        if any(v in c.fv for v in getattr(self, 'bound', ())):
            raise Unsupported('branch on the index of a sum: %s' % tm.show(c, 5))
        i = len(d.taken)
        if i > 400:
            raise PathLimit('too many decisions on a path')
        if i < len(d.prefix):
            v = d.prefix[i]
        else:
            v = True
            d.alts.append(d.taken + [False])
        d.taken.append(v)
        self.push(c if v else bnot(c))
        return v

    def fork(self, n):
        """n-way case split that is not a condition on program values"""
        d = self.dctx
        i = len(d.taken)
        if i < len(d.prefix):
            v = d.prefix[i]
        else:
            v = 0
            for k in range(1, n):
                d.alts.append(d.taken + [('c', k)])
            v = ('c', 0)
        d.taken.append(v)
        return v[1]

    def decide_bool(self, c):
        if isinstance(c, bool):
            return c
        return self.decide(c)

    def check_index(self, t, n):
        N = lift(n)
        s = self.simplify_cond(le(ZERO, t))
        if s is not TRUE:
            if not self.decide(le(ZERO, t)):
                t = add(t, N)
                if not self.decide(le(ZERO, t)):
                    raise IndexError('index out of bounds (negative): %s' % tm.show(t, 6))
        if not self.decide(lt(t, N)):
            raise IndexError('index %s out of bounds for axis of length %s' % (tm.show(t, 6), tm.show(N, 6)))
        return self.canon(t)

    def nonneg_mod(self, a, b):
        return tm.mod(self.canon(a), b)

    def nonneg_div(self, a, b):
        return tm.floordiv(self.canon(a), b)

    def match_reshape(self, old, new):
        """index map new->old for reshapes that split/merge axes with equal symbolic sizes"""
        o, n = list(old), list(new)
        if all(isinstance(x, int) for x in o + n):
            return None

        def prod(xs):
            r = ONE
            for x in xs:
                r = mul(r, lift(x))
            return self.canon(r)
        # match blocks greedily
        blocks = []
        i = j = 0
        while i < len(o) or j < len(n):
            a, b = i, j
            if i < len(o):
                i += 1
            if j < len(n):
                j += 1
            ok = False
            for i2 in range(max(i, a), len(o) + 1):
                for j2 in range(max(j, b), len(n) + 1):
                    if prod(o[a:i2]) is prod(n[b:j2]) and prod(o[i2:]) is prod(n[j2:]):
                        i, j, ok = i2, j2, True
                        break
                if ok:
                    break
            if not ok:
                return None
            blocks.append((a, i, b, j))
        for a, i, b, j in blocks:
            if i - a != 1 and j - b != 1:
                if i - a != j - b or any(lift(x) is not lift(y) for x, y in zip(o[a:i], n[b:j])):
                    return None

        def f(J):
            V = []
            for a, i, b, j in blocks:
                if i - a == 1 and j - b == 1:
                    V.append(J[b])
                elif i - a == 1:
                    flat = ZERO
                    for x, s in zip(J[b:j], n[b:j]):
                        flat = add(mul(flat, lift(s)), x)
                    V.append(flat)
                else:
                    # new is flat, old is split: recover quotient/remainder
                    V.extend(self.unflatten(J[b], o[a:i]))
            return tuple(V)
        return f

    def unflatten(self, flat, shape):
        out = []
        rest = flat
        for k in range(len(shape) - 1, 0, -1):
            s = lift(shape[k])
            q, r = self.divmod_sym(rest, s)
            out.append(r)
            rest = q
        out.append(rest)
        return list(reversed(out))

    def divmod_sym(self, x, s):
        """quotient and remainder of x by s>0, recognising x = q*s + r with 0<=r<s"""
        if s.op == 'const' and x.op == 'const':
            return const(x.data // s.data), const(x.data % s.data)
        p = self.norm()(x)
        sp = self.norm()(s)
        if s.op != 'const' and len(sp) <= 4:
            # polynomial division by the leading monomial of s
            sm = max(sp, key=lambda m: (sum(e for _, e in m), m))
            sc = sp[sm]
            qp, rp, left = {}, {}, dict(p)
            for _ in range(200):
                hit = None
                for m in left:
                    d = dict(m)
                    if sm and all(d.get(a, 0) >= e for a, e in sm):
                        hit = m
                        break
                if hit is None:
                    break
                c = left[hit]
                d = dict(hit)
                for a, e in sm:
                    d[a] -= e
                    if d[a] == 0:
                        del d[a]
                t = {tuple(sorted(d.items())): c / sc}
                qp = nf.padd(qp, t)
                left = nf.padd(left, nf.pscale(nf.pmul(t, sp), -1))
            q, r = nf.to_term(qp), nf.to_term(left)
            if q.sort == 'I' and self.entails(band(le(ZERO, r), lt(r, s))) == 'proved':
                return q, r
        q = tm.floordiv(x, s)
        return q, sub(x, mul(q, s))

    def divided(self, d):
        if d not in self.denoms.keys():
            self.denoms[d] = (list(self.facts),)

    # -- explorer ---------------------------------------------------------
    def explore(self, f):
        """run f() once per feasible path; f gets no argument.  Yields (result or exception)"""
        stack = [[]]
        while stack:
            self.check_deadline()
            pre = stack.pop()
            self.paths += 1
            if self.paths > self.max_paths:
                raise PathLimit('more than %d paths' % self.max_paths)
            self.reset()
            self.dctx = DecCtx(pre)
            install(self)
            f()
            stack.extend(reversed(self.dctx.alts))

    # -- loops -------------------------------------------------------------
    def loop(self, it, body, get, set_):
        it = it.__loop__() if hasattr(type(it), '__loop__') else it
        if isinstance(it, SymRange):
            n = it.length()
            if n.op != 'const':
                return Loop(self, it.a, n, it.step, body, get, set_).run()
            it = [it.item(i) for i in range(int(n.data))]
        elif isinstance(it, SymIter):
            n = it.n
            if not isinstance(n, int):
                return Loop(self, ZERO, lift(n), 1, lambda k: body(it.f(k)), get, set_).run()
            it = [it.f(const(i)) if False else it.f(i) for i in range(n)]
        elif isinstance(it, SymArray):
            n = it.shape[0]
            if not isinstance(n, int):
                arr = it
                return Loop(self, ZERO, lift(n), 1, lambda k: body(arr[k]), get, set_).run()
        for x in it:
            r = body(x)
            if r is not None:
                if r is BRK:
                    return None
                return r
        return None


    def push_axiom(self, f):
        """a fact that holds by definition: known on this path, no part of its condition"""
        if f is not TRUE:
            self.push(f)
            self.axfacts.add(f)

    def guard(self, fm):
        return band(*[f for f in self.facts[fm:] if f not in self.axfacts])

    def int_vars(self):
        out = set()
        for f in self.facts:
            out |= {v for v in f.fv if v.sort == 'I' and v is not PROBE}
        return sorted(out, key=lambda v: v.id)[-12:]

    def candidates(self, n):
        """indices at which a fact about every index is instantiated"""
        vs = self.int_vars()
        out = [ZERO, sub(n, ONE)] + [u for v in vs for u in (v, sub(v, ONE))]
        for h in self.hints:
            out += h(vs)
        return out

    def wloop(self, cond, body, get, set_):
        if self.while_rule:
            return WLoop(self, cond, body, get, set_).run()
        while True:
            if not cond():
                return None
            r = body(None)
            if r is not None:
                return None if r is BRK else r


MISSING = object()
RUN = None


def install(run):
    global RUN
    RUN = run
    arrays.RT = run
    tm.hooks.decide = run.decide
    tm.hooks.divided = run.divided

    def hindex(t):
        t2 = run.canon(t)
        if t2.op == 'const' and t2.data.denominator == 1:
            return int(t2.data)
        raise Unsupported('symbolic value used where a concrete integer is needed: %s' % tm.show(t, 5))
    tm.hooks.index = hindex
    tm.hooks.abs = lambda t: tm.unb(arrays.absv(t))


# ground terms ---------------------------------------------------------------
_ground = {}


def ground(t):
    r = _ground.get(t)
    if r is None:
        r = all(v is tm.PI for v in t.fv) and all(x.op != 'sum' and (x.op != 'fn' or x.data in GFN) for x in tm.subterms(t))
        _ground[t] = r
    return r


GFN = {'exp', 'erf', 'expi', 'sin', 'cos', 'log', 'arcsin', 'arctan', 'tan', 'floor', 'idiv', 'mod', 'powf', 'legendre'}


def gval(t):
    from . import evalnum
    try:
        return evalnum.Env({}, {}).ev(t)
    except evalnum.Bad as e:
        raise Unsupported('ground value: %s' % e)


PROBE = tm.mk('var', (), '@probe', 'I')
NOSEARCH = object()


class SymRange:
    def __init__(self, a, b, step=1):
        self.a, self.b, self.step = num(lift(a)), num(lift(b)), step
        for x in (self.a, self.b):
            if x.sort != 'I':
                raise TypeError("'float' object cannot be interpreted as an integer")

    def length(self):
        d = sub(self.b, self.a) if self.step > 0 else sub(self.a, self.b)
        d = RUN.canon(d)
        s = abs(self.step)
        if d.op == 'const':
            return const(max(0, -(-int(d.data) // s)))
        if s != 1:
            raise Unsupported('symbolic range with step')
        return d

    def item(self, i):
        return tm.add(self.a, const(i * self.step))

    def __iter__(self):
        n = self.length()
        if n.op != 'const':
            raise Unsupported('native iteration over a symbolic range')
        return iter([asint(self.item(i)) for i in range(int(n.data))])

    def __len__(self):
        return int(self.length().data)


def asint(t):
    if isinstance(t, T) and t.op == 'const' and t.data.denominator == 1:
        return int(t.data)
    return t


class SymIter:
    """indexable iteration of symbolic length (enumerate, zip)"""

    def __init__(self, n, f):
        self.n = n
        self.f = f

    def __iter__(self):
        if not isinstance(self.n, int):
            raise Unsupported('native iteration of symbolic length')
        return iter([self.f(i) for i in range(self.n)])


def is_scalar(v):
    return isinstance(v, (T, int, float)) or (lift_or_none(v) is not None)


class Loop:
    """for k in range(a, a+n): body   with n symbolic

    The state at the start of iteration j (0<=j<n) is havocked; the body is run
    once per path on a generic j; from the resulting transition relation each
    modified location is classified (unchanged, overwritten at an injective
    index, accumulated, temporary) and its value after all n iterations is
    written down exactly.  Anything else becomes Poison: an error when read."""

    exits = False       # may the body break or return?

    def __init__(self, run, a, n, step, body, get, set_):
        self.R = run
        self.a, self.n, self.step = a, n, step
        self.body, self.get, self.set = body, get, set_

    def run(self):
        R = self.R
        R.check_deadline()
        if not R.decide(lt(ZERO, self.n)):
            if R.loopdepth and self.n.op != 'const' and R.entails(eq(self.n, ZERO)) == 'proved':
                R.push_axiom(eq(self.n, ZERO))
            return None
        R.loopdepth += 1
        nv = len(R.loopvars)
        try:
            return self._run()
        finally:
            R.loopdepth -= 1
            del R.loopvars[nv:]

    def _run(self):
        R = self.R
        self.j = tm.fresh('j', 'I')
        R.loopvars.append(self.j)
        self.kval = add(self.a, self.j) if self.step == 1 else sub(self.a, self.j)
        self.entry_clock = R.clock()
        self.l0 = self.get()
        self.locals_mod = {}       # name -> havoc var
        self.attrs_mod = {}        # (id,name) -> (obj, name, var, entry)
        self.roots_mod = {}        # id -> (root, hname, entry snapshot)
        self.known = {}            # hvar/hname -> replacement value for havoc
        found = self.search()
        if found is not NOSEARCH:
            return found
        for rnd in range(8):
            paths = self.explore_body()
            grew = self.extend_modset(paths)
            if grew:
                continue
            if self.find_known(paths):
                continue
            break
        else:
            raise Unsupported('loop: modified set does not stabilise')
        if self.roots_mod and R.annotate and any(isinstance(self.finish_root(root, hname, snap, paths), Poison)
                                                 for root, hname, snap in self.roots_mod.values()):
            self.forms = R.annotate({rid: r for rid, (r, _, _) in self.roots_mod.items()}, R.loopdepth, self.n) or {}
            for rid, form in self.forms.items():
                root, hname, snap = self.roots_mod[rid]
                self.check_form(form, root, snap.read, ZERO, 'holds at the start')
            if self.forms:
                self.final = True
                try:
                    paths = self.explore_body()
                finally:
                    self.final = False
        if self.raised is not None:
            if self.hsyms() or self.roots_mod:
                raise Unsupported('an iteration may raise %s' % str(self.raised)[:150])
            raise self.raised
        self.finish(paths)
        return None

    probing = False
    final = False
    forms = {}

    # annotated invariants: a form gives the state of an array at the start of iteration j through free
    # symbols (state, assume) and says what has to hold of any state (check)
    def assume_form(self, root, hname, j):
        form = self.forms[root.id]
        R = self.R
        h = lambda *J: fn(hname, *J, sort='R')
        root.set_state(lambda J: lift(form.state(j, h, J)), [])
        R.axioms.add(hname, lambda idx: [lift(f) for x in idx for f in form.facts(j, h, x)])
        for f in form.assume(j, h):
            R.push_axiom(f)

    def check_form(self, form, root, read, j, what):
        form.check(j, lambda *J: read(tuple(lift(x) for x in J)), what)


    def search(self):
        """a loop whose body either leaves the loop (break, return) or changes nothing: the first
        iteration that leaves it is named by a symbol with the facts that define it"""
        R = self.R
        self.probing = True
        try:
            paths = self.explore_body()
        finally:
            self.probing = False
        outs = [p for p in paths if isinstance(p, tuple)]
        if not outs:
            return NOSEARCH
        stay = [p for p in paths if isinstance(p, dict)]
        if self.extend_modset(stay):
            raise Unsupported('a loop of symbolic length is left early after changing state')
        G = R.canon(bor(*[g for g, _ in outs]))
        outer = [v for v in R.loopvars if v in G.fv and v is not self.j]
        key = subst(G, {self.j: PROBE})
        name = '!%d!%d' % (key.id, lift(self.n).id)
        n, j = self.n, self.j

        def at(idx, t):
            return subst(key, {**dict(zip(outer, idx)), PROBE: t})

        def ax(idx, n=n):
            out = []
            for x in idx:
                f, k = fn('found' + name, *x, sort='I'), fn('first' + name, *x, sort='I')
                nn = subst(n, dict(zip(outer, x)))
                out.append(bor(eq(f, ZERO), eq(f, ONE)))
                hit = eq(f, ONE)
                out.append(tm.implies(hit, band(le(ZERO, k), lt(k, nn), at(x, k))))
                for t in R.candidates(nn):
                    out.append(tm.implies(band(le(ZERO, t), lt(t, nn), bor(bnot(hit), lt(t, k))), bnot(at(x, t))))
            return out
        if 'found' + name not in R.axioms.by_name:
            R.axioms.add('found' + name, ax)
            R.axioms.add('first' + name, ax)
            R.searches[name] = (outer, key, n)
        f, k = fn('found' + name, *outer, sort='I'), fn('first' + name, *outer, sort='I')
        if not R.decide(eq(f, ONE)):
            l = dict(self.l0)
            for p in stay:
                for nme in p['locals']:
                    if nme not in l:
                        l[nme] = Poison('%r after a search loop' % nme)
            self.set(l)
            for a in ax([tuple(outer)]):
                R.push_axiom(a)
            return None
        for a in (le(ZERO, k), lt(k, n), at(outer, k)):
            R.push_axiom(a)
        r = self.body(add(self.a, k) if self.step == 1 else sub(self.a, k))
        if r is None:
            raise Unsupported('search loop: the found iteration does not leave the loop')
        return None if r is BRK else r

    # one exploration of the body
    def explore_body(self):
        R = self.R
        stack = [[]]
        out = []
        saved_ctx = R.dctx
        f0 = R.mark()
        m0 = len(R.jr)
        w0 = len(R.writes)
        fresh0 = tm._fresh[0]
        npaths = 0
        self.raised = None
        try:
            while stack:
                pre = stack.pop()
                npaths += 1
                if npaths > 200:
                    raise PathLimit('loop body has too many paths')
                R.check_deadline()
                R.dctx = DecCtx(pre)
                R.pop(f0)
                R.push(le(ZERO, self.j), lt(self.j, self.n))
                self.havoc()
                mk0 = len(R.jr)
                del R.writes[w0:]
                fm = R.mark()
                try:
                    r = self.body(self.kval)
                except Infeasible:
                    stack.extend(reversed(R.dctx.alts))
                    R.rollback(m0)
                    self.set(dict(self.l0))
                    continue
                except (ValueError, IndexError, ZeroDivisionError, AssertionError, KeyError, TypeError) as e:
                    # from an unknown start state: only a fact about the loop once the state is known
                    if self.probing or not (self.locals_mod or self.attrs_mod or self.roots_mod):
                        raise
                    self.raised = e
                    stack.extend(reversed(R.dctx.alts))
                    R.rollback(m0)
                    self.set(dict(self.l0))
                    continue
                if self.probing and r is not None:
                    out.append((R.guard(fm), r))
                    stack.extend(reversed(R.dctx.alts))
                    R.rollback(m0)
                    self.set(dict(self.l0))
                    continue
                if r is BRK and not self.exits:
                    raise Unsupported('break out of a loop of symbolic length')
                if r is not None and not self.exits:
                    raise Unsupported('return out of a loop of symbolic length')
                guard = R.guard(fm)
                pathinfo = self.capture(mk0, w0, guard)
                out.append(pathinfo)
                if self.final:
                    for rid, form in self.forms.items():
                        root = self.roots_mod[rid][0]
                        self.check_form(form, root, root.read, add(self.j, ONE), 'is kept by an iteration')
                stack.extend(reversed(R.dctx.alts))
                R.rollback(m0)
                self.set(dict(self.l0))
        finally:
            R.dctx = saved_ctx
            R.rollback(m0)
            R.pop(f0)
            self.set(dict(self.l0))
            del R.writes[w0:]
        return out

    def havoc(self):
        R = self.R
        l = dict(self.l0)
        for nme, hv in self.locals_mod.items():
            l[nme] = self.hval(hv, l.get(nme))
        self.set(l)
        for (oid, nme), (obj, _, hv, entry) in self.attrs_mod.items():
            setattr(obj, nme, self.hval(hv, entry))
        for rid, (root, hname, snap) in self.roots_mod.items():
            sorts = 'R' if root.kind != 'i' else 'I'
            if rid in self.forms:
                self.assume_form(root, hname, self.j)
                continue
            root.set_state(lambda J, hname=hname, sorts=sorts: fn(hname, *J, sort=sorts), [])

    def hval(self, hv, entry):
        if isinstance(hv, Poison):
            return hv
        k = self.known.get(hv)
        if k is not None:
            return k
        return hv

    def capture(self, mk0, w0, guard):
        R = self.R
        info = {'guard': guard, 'facts': list(R.facts)}
        info['locals'] = self.get()
        attrs = {}
        for e in R.jr[mk0:]:
            if e[0] == 'attr':
                obj, nme = e[1], e[2]
                if getattr(obj, '_rt_created', 0) < self.entry_clock:
                    attrs[(id(obj), nme)] = (obj, nme, obj.__dict__.get(nme, MISSING))
            elif e[0] in ('list', 'pydict'):
                if getattr(e[1], '_rt_created', 0) < self.entry_clock:
                    raise Unsupported('list or dict modified in a loop of symbolic length')
        info['attrs'] = attrs
        roots = {}
        for r in R.writes[w0:]:
            if r.created < self.entry_clock:
                roots[r.id] = r
        info['roots'] = roots
        # end contents of modified roots
        ends = {}
        for rid, root in list(roots.items()) + [(k, v[0]) for k, v in self.roots_mod.items()]:
            if rid in ends:
                continue
            ends[rid] = (root, self.read_end(root))
        info['ends'] = ends
        return info

    def axes(self, root):
        if not hasattr(self, '_axes'):
            self._axes = {}
        r = self._axes.get(root.id)
        if r is None:
            r = tuple(None if isinstance(s, int) else tm.fresh('J', 'I') for s in root.shape)
            self._axes[root.id] = r
        return r

    def read_end(self, root):
        """values at the end of the body: {concrete part of index: term in generic J}"""
        R = self.R
        if root.stale:
            return Poison(root.stale)
        ax = self.axes(root)
        m = R.mark()
        for v, s in zip(ax, root.shape):
            if v is not None:
                R.push(le(ZERO, v), lt(v, lift(s)))
        try:
            out = {}
            ints = [range(s) if v is None else (None,) for v, s in zip(ax, root.shape)]
            n = 1
            for x in ints:
                n *= len(x)
            if n > 3000:
                return Poison('array too large for the loop rule')
            from itertools import product
            for c in product(*ints):
                J = tuple(v if k is None else const(k) for v, k in zip(ax, c))
                out[c] = root.read(J)
            return out
        finally:
            R.pop(m)

    def extend_modset(self, paths):
        grew = False
        for p in paths:
            for nme, v in p['locals'].items():
                if nme in self.locals_mod or nme not in self.l0:
                    continue
                v0 = self.l0[nme]
                if v is v0 or (is_scalar(v) and is_scalar(v0) and lift(v) is lift(v0)):
                    continue
                if is_scalar(v0) and is_scalar(v):
                    s = 'I' if lift(v0).sort == 'I' and num(lift(v)).sort == 'I' else 'R'
                    self.locals_mod[nme] = tm.fresh('h_' + nme, s)
                else:
                    self.locals_mod[nme] = Poison('value of %r carried between iterations' % nme)
                grew = True
            for key, (obj, nme, v) in p['attrs'].items():
                if key in self.attrs_mod:
                    continue
                v0 = obj.__dict__.get(nme, getattr(type(obj), nme, MISSING))
                if is_scalar(v) and is_scalar(v0):
                    s = 'I' if lift(v0).sort == 'I' and num(lift(v)).sort == 'I' else 'R'
                    hv = tm.fresh('h_' + nme, s)
                else:
                    hv = Poison('attribute %r carried between iterations' % nme)
                    hv.obj = v if v is v0 else None
                    if v is v0:
                        continue
                self.attrs_mod[key] = (obj, nme, hv, v0)
                grew = True
            for rid, root in p['roots'].items():
                if rid not in self.roots_mod:
                    self.roots_mod[rid] = (root, 'h_arr%d_%s' % (len(self.roots_mod), tm.fresh('a').data), root.snapshot())
                    grew = True
        return grew

    # merged end value over all body paths
    def merged(self, vals):
        """vals: list of (guard, term)"""
        t = vals[-1][1]
        for g, v in reversed(vals[:-1]):
            t = ite(g, v, t)
        return t

    def hsyms(self):
        s = set()
        for hv in self.locals_mod.values():
            if isinstance(hv, T) and hv not in self.known:
                s.add(hv)
        for (_, _, hv, _) in self.attrs_mod.values():
            if isinstance(hv, T) and hv not in self.known:
                s.add(hv)
        return s

    def mentions(self, t):
        hs = self.hsyms()
        names = {h for _, h, _ in self.roots_mod.values()}
        for x in tm.subterms(t):
            if x.op == 'var' and x in hs:
                return True
            if x.op == 'fn' and x.data in names:
                return True
        return False

    def scalar_locs(self, paths):
        for nme, hv in self.locals_mod.items():
            if isinstance(hv, T):
                yield ('l', nme), hv, self.l0.get(nme), [(p['guard'], p['locals'].get(nme)) for p in paths]
        for key, (obj, nme, hv, v0) in self.attrs_mod.items():
            if isinstance(hv, T):
                yield ('a', key), hv, v0, [(p['guard'], p['attrs'][key][2] if key in p['attrs'] else self.hval(hv, None)) for p in paths]

    def merge_scalar(self, vals):
        if any(not is_scalar(v) for _, v in vals):
            return None
        return num(self.merged([(g, num(lift(v))) for g, v in vals]))

    def find_known(self, paths):
        """induction variables and carried temporaries get their exact start-of-iteration value"""
        R = self.R
        found = {}         # taken over at the end: the end values at hand still mention these symbols
        for loc, hv, v0, vals in list(self.scalar_locs(paths)):
            if hv in self.known:
                continue
            e = self.merge_scalar(vals)
            if e is None:
                continue
            m = R.mark()
            R.push(le(ZERO, self.j), lt(self.j, self.n))
            d = R.canon(sub(e, hv))
            if self.mentions(d) and e.op == 'ite':
                d = R.canon(self.through_ite(e, lambda x: sub(x, hv)))
            R.pop(m)
            if not self.mentions(d):
                # h_j = v0 + sum_{i<j} d(i)
                i = tm.fresh('i', 'I')
                if self.j in d.fv:
                    val = add(num(lift(v0)), tm.sum_(i, self.j, subst(d, {self.j: i})))
                else:
                    val = add(num(lift(v0)), mul(self.j, d))
                found[hv] = val
                self.known_acc = getattr(self, 'known_acc', {})
                self.known_acc[hv] = d
            elif not self.mentions(e):
                used = any(hv in x.fv for p in paths for x in self.all_terms(p) if x is not hv)
                if used:
                    prev = subst(e, {self.j: sub(self.j, ONE)})
                    found[hv] = ite(eq(self.j, ZERO), num(lift(v0)), prev)
        self.known.update(found)
        return bool(found) or self.find_periodic(paths)

    def through_ite(self, e, f):
        if e.op == 'ite':
            return ite(e.args[0], self.through_ite(e.args[1], f), self.through_ite(e.args[2], f))
        return f(e)

    def find_periodic(self, paths):
        """integer counters whose step depends on other counters: run the transition relation from the
        start for a few iterations, guess a + d*((j + s) // p) or a + d*((j + s) mod p), and keep the
        guesses that are inductive together"""
        R = self.R
        cand = {}
        for loc, hv, v0, vals in self.scalar_locs(paths):
            if hv in self.known or hv.sort != 'I':
                continue
            v0 = num(lift(v0))
            if v0.op != 'const' or any(not is_scalar(v) for _, v in vals):
                continue
            cand[hv] = (v0, [num(lift(v)) for _, v in vals])
        while cand:
            allowed = set(cand) | {self.j}
            bad = [h for h, (_, vs) in cand.items() if not all(v.fv <= allowed for v in vs)]
            if not bad:
                break
            for h in bad:
                del cand[h]
        if not cand:
            return False
        state = {h: v0 for h, (v0, _) in cand.items()}
        hist = {h: [int(v0.data)] for h, (v0, _) in cand.items()}
        guards = [p['guard'] for p in paths]
        for step in range(20):
            sb = dict(state)
            sb[self.j] = const(step)
            new = None
            m = R.mark()
            R.push(lt(const(step), self.n))
            try:
                for i, g in enumerate(guards):
                    if R.entails(bnot(subst(g, sb))) == 'proved':
                        continue
                    nx = {h: R.canon(subst(vs[i], sb)) for h, (_, vs) in cand.items()}
                    if new is not None and nx != new or any(v.op != 'const' for v in nx.values()):
                        return False
                    new = nx
            finally:
                R.pop(m)
            if new is None:
                break           # there are no further iterations
            for h, v in new.items():
                hist[h].append(int(v.data))
            state = new
        guess = {}
        for h in cand:
            g = self.guess_periodic(hist[h])
            if g is not None and R.canon(sub(subst(g, {self.j: ZERO}), cand[h][0])) is ZERO:
                guess[h] = g
        while guess:
            bad = []
            for h, g in guess.items():
                nxt = subst(g, {self.j: add(self.j, ONE)})
                for pg, v in zip(guards, cand[h][1]):
                    m = R.mark()
                    R.push(le(ZERO, self.j), lt(self.j, self.n), subst(pg, guess))
                    ok = R.entails(eq(subst(v, guess), nxt)) == 'proved'
                    R.pop(m)
                    if not ok:
                        bad.append(h)
                        break
            if not bad:
                break
            for h in bad:
                del guess[h]
        for h, g in guess.items():
            self.known[h] = g
        return bool(guess)

    def guess_periodic(self, xs):
        a = xs[0]
        if all(x == a for x in xs):
            return const(a)
        for p in range(2, 9):
            for s in range(p):
                d = next((x - y for x, y in zip(xs[1:], xs) if x != y), 0)
                if all(x == a + d * ((i + s) // p) for i, x in enumerate(xs)):
                    return add(const(a), mul(const(d), tm.floordiv(add(self.j, const(s)), const(p))))
                d = next((x - y for x, y in zip(xs[1:], xs) if abs(x - y) == 1), 1)
                b = a - d * (s % p)
                if all(x == b + d * ((i + s) % p) for i, x in enumerate(xs)):
                    return add(const(b), mul(const(d), tm.mod(add(self.j, const(s)), const(p))))
        return None

    def all_terms(self, p):
        yield p['guard']
        for v in p['locals'].values():
            if isinstance(v, T):
                yield v
        for _, _, v in p['attrs'].values():
            if isinstance(v, T):
                yield v
        for root, e in p['ends'].values():
            if isinstance(e, dict):
                for v in e.values():
                    if isinstance(v, T):
                        yield v

    def finish(self, paths):
        R = self.R
        last = sub(self.n, ONE)
        new_locals = dict(self.l0)
        # names first bound in the body
        for nme in set().union(*[set(p['locals']) for p in paths]):
            if nme in self.l0:
                continue
            vals = [(p['guard'], p['locals'].get(nme, None)) for p in paths]
            if any(v is None for _, v in vals):
                new_locals[nme] = Poison('%r may be unbound after the loop' % nme)
            elif all(is_scalar(v) for _, v in vals):
                e = self.merge_scalar(vals)
                new_locals[nme] = self.after_temp(e, last, nme)
            elif all(v is vals[0][1] for _, v in vals) and self.outlives(vals[0][1]):
                new_locals[nme] = vals[0][1]
            else:
                new_locals[nme] = Poison('%r refers to an object made inside a symbolic loop' % nme)
        acc = getattr(self, 'known_acc', {})
        set_attrs = []
        for loc, hv, v0, vals in self.scalar_locs(paths):
            if hv in acc:
                d = acc[hv]
                i = tm.fresh('i', 'I')
                if self.j in d.fv:
                    v = add(num(lift(v0)), tm.sum_(i, self.n, subst(d, {self.j: i})))
                else:
                    v = add(num(lift(v0)), mul(self.n, d))
            else:
                e = self.merge_scalar(vals)
                if e is None:
                    v = Poison('loop-carried value %s' % (loc,))
                else:
                    # conditional overwrite that does not depend on the iteration
                    hv_only = None
                    v = self.after_temp(e, last, loc)
                    if isinstance(v, Poison):
                        v = self.cond_overwrite(e, hv, v0, last, loc)
            if loc[0] == 'l':
                new_locals[loc[1]] = v
            else:
                set_attrs.append((loc[1], v))
        for nme, hv in self.locals_mod.items():
            if isinstance(hv, Poison):
                vs = [p['locals'].get(nme) for p in paths]
                new_locals[nme] = vs[0] if all(x is vs[0] for x in vs) and self.outlives(vs[0]) else Poison('%r refers to an object made inside a symbolic loop' % nme)
        results = []
        for rid, (root, hname, snap) in self.roots_mod.items():
            if rid in self.forms:
                continue
            results.append((root, self.finish_root(root, hname, snap, paths)))
        self.set(new_locals)
        for key, v in set_attrs:
            obj, nme = self.attrs_mod[key][0], self.attrs_mod[key][1]
            setattr(obj, nme, v)
        for key, (obj, nme, hv, v0) in self.attrs_mod.items():
            if isinstance(hv, Poison):
                setattr(obj, nme, Poison('attribute %r refers to an object made inside a symbolic loop' % nme))
        for rid in self.forms:
            root = self.roots_mod[rid][0]
            R.note_write(root)
            self.assume_form(root, 'end_' + tm.fresh('a').data, self.n)
        for root, res in results:
            if isinstance(res, Poison):
                R.note_write(root)
                if not root.stale:
                    root.stale = res.why
                    R.journal(('stale', root))
            elif res is not None:
                R.note_write(root)
                root.set_state(res, [])

    def outlives(self, v):
        if isinstance(v, Poison):
            return False
        if isinstance(v, SymArray):
            return v.root.created < self.entry_clock
        return getattr(v, '_rt_created', None) is not None and v._rt_created < self.entry_clock

    def after_temp(self, e, last, what):
        if self.mentions(e):
            return Poison('loop-carried value %s' % (what,))
        if any(h in e.fv for h in ()):
            return Poison('loop-carried')
        return subst(e, {self.j: last})

    def cond_overwrite(self, e, hv, v0, last, what):
        if e.op == 'ite':
            c, x, y = e.args
            if self.j not in c.fv and not self.mentions(c):
                if y is hv and not self.mentions(x):
                    return ite(c, subst(x, {self.j: last}), num(lift(v0)))
                if x is hv and not self.mentions(y):
                    return ite(c, num(lift(v0)), subst(y, {self.j: last}))
        return Poison('loop-carried value %s' % (what,))

    # arrays -----------------------------------------------------------------
    def finish_root(self, root, hname, snap, paths):
        R = self.R
        ax = self.axes(root)
        ends = []
        for p in paths:
            e = p['ends'].get(root.id)
            if e is None or isinstance(e[1], Poison):
                return Poison(e[1].why if e else 'array not captured')
            ends.append((p['guard'], e[1]))
        keys = list(ends[0][1])
        forms = {}
        m = R.mark()
        for v, s in zip(ax, root.shape):
            if v is not None:
                R.push(le(ZERO, v), lt(v, lift(s)))
        try:
            for c in keys:
                J = tuple(v if k is None else const(k) for v, k in zip(ax, c))
                e = self.merged([(g, x[c]) for g, x in ends])
                h = fn(hname, *J, sort='I' if root.kind == 'i' else 'R')
                f = self.closed_form(e, h, J, ax, hname, snap)
                if isinstance(f, Poison):
                    return f
                forms[c] = f
        finally:
            R.pop(m)

        def base(Jx):
            sel = []
            for x, v, s in zip(Jx, ax, root.shape):
                if v is None:
                    if x.op == 'const':
                        sel.append([int(x.data)])
                    else:
                        sel.append(list(range(s)))
                else:
                    sel.append([None])
            from itertools import product
            opts = list(product(*sel))
            res = None
            for c in reversed(opts):
                val = forms[c](Jx)
                if res is None:
                    res = val
                else:
                    cond = band(*[eq(x, const(k)) for x, k in zip(Jx, c) if k is not None and x.op != 'const'])
                    cond = R.simplify_cond(cond)
                    res = ite(cond, val, res)
            return res
        return base

    def closed_form(self, e, h, J, ax, hname, snap):
        """value at J after all iterations, as a function of the actual index"""
        R = self.R
        j, n = self.j, self.n
        if e is h:
            return lambda Jx: snap.read(Jx)
        fm = R.mark()
        R.push(le(ZERO, j), lt(j, n))
        try:
            leaves = []
            import os
            if os.environ.get('PYDED_LOOP'):
                print('closed_form', tm.show(e), tm.show(h), [tm.show(f) for f in R.facts])
            self.leaves(e, [], leaves, J, hname)
            if os.environ.get('PYDED_LOOP'):
                print('   leaves', [([tm.show(c) for c in cs], tm.show(v)) for cs, v in leaves])
            inj, accs, alls = [], [], []
            for conds, v in leaves:
                sol = None
                # replace reads of h that no earlier iteration can have changed
                for i, c in enumerate(conds):
                    s = self.solve(c)
                    if s is not None:
                        sol = (s, conds[:i] + conds[i + 1:], c)
                        break
                if sol is None:
                    s = self.solve_interval(conds)
                    if s is not None:
                        sol = ((s, list(conds)), [], None)
                mm = R.mark()
                R.push(*conds)
                v = R.canon(v)
                # where the written index equals J
                v = self.rewrite_h(v, hname, J, h)
                if v is h:
                    R.pop(mm)
                    continue
                d = R.canon(sub(v, h))
                R.pop(mm)
                if sol is not None:
                    inj.append((sol[0], sol[1], sol[2], v, d))
                elif not self.mentions(d):
                    accs.append((conds, d))
                else:
                    alls.append((conds, v))
        finally:
            R.pop(fm)
        why = 'array %s: update pattern not summarised by the loop rule' % hname
        if alls:
            if inj or accs:
                return Poison(why)
            # overwritten by every iteration under conditions independent of it
            fs = []
            for conds, v in alls:
                v = self.resolve_h(v, hname, snap, None)
                if v is None or any(j in c.fv or self.mentions(c) for c in conds):
                    return Poison(why)
                fs.append((band(*conds), subst(v, {j: sub(n, ONE)})))

            def f(Jx):
                sb = {a: x for a, x in zip(ax, Jx) if a is not None}
                r = snap.read(Jx)
                for c, v in reversed(fs):
                    r = ite(R.simplify_cond(subst(c, sb)), subst(v, sb), r)
                return r
            return f
        if inj and accs:
            return Poison(why)
        if accs:
            tot = add(*[ite(band(*conds), d, ZERO) if conds else d for conds, d in accs])
            if self.mentions(tot):
                return Poison(why)
            i = tm.fresh('i', 'I')
            body = subst(tot, {j: i})
            s = tm.sum_(i, n, body) if i in body.fv else mul(n, body)

            def f(Jx):
                sb = {a: x for a, x in zip(ax, Jx) if a is not None}
                return add(snap.read(Jx), subst(s, sb) if sb else s)
            return f
        if not inj:
            return lambda Jx: snap.read(Jx)
        writes = [list(conds) + ([ceq] if ceq is not None else list(extra)) for (k, extra), conds, ceq, v, d in inj]
        # injective writes: group by the iteration that performs them
        groups = []
        for (k, extra), conds, ceq, v, d in inj:
            for g in groups:
                if R.canon(sub(g['k'], k)) is ZERO:
                    g['items'].append((conds + extra, v, d))
                    break
            else:
                groups.append({'k': k, 'items': [(conds + extra, v, d)]})
        # later iterations win: order by k descending (constant differences required)
        g0 = groups[0]['k']

        def keyf(g):
            dd = R.canon(sub(g['k'], g0))
            return dd.data if dd.op == 'const' else None
        if any(keyf(g) is None for g in groups):
            if not self.disjoint(groups):
                return Poison(why)
        else:
            groups.sort(key=keyf, reverse=True)
        pieces = []
        for gi, g in enumerate(groups):
            k = g['k']
            for conds, v, d in g['items']:
                cond = subst(band(le(ZERO, j), lt(j, n), *conds), {j: k})
                val = subst(v, {j: k})
                hk = subst(h, {j: k})
                if any(x is hk for x in tm.subterms(val)):
                    # reads its own previous value: only earlier writers matter
                    if len(groups) > 1 and not self.disjoint(groups):
                        return Poison(why)
                    val = tm.replace_term(val, hk, fn('@entry' + hname, *J, sort=h.sort))
                val = self.resolve_h(val, hname, snap, k, cond, writes, ax)
                if val is None or self.mentions(cond):
                    return Poison(why)
                pieces.append((cond, val))

        def f(Jx):
            sb = {a: x for a, x in zip(ax, Jx) if a is not None}
            res = None
            conds = []
            for c, v in pieces:
                c, v = self.reduce_idiv(subst(c, sb)), self.reduce_idiv(subst(v, sb))
                c2 = R.simplify_cond(c)
                if c2 is FALSE:
                    continue
                v2 = v
                v2 = self.entry_reads(v2, hname, snap)
                if c2 is TRUE:
                    res = v2
                    break
                conds.append((c2, v2))
            if res is None:
                res = snap.read(Jx)
            for c, v in reversed(conds):
                res = ite(c, v, res)
            return res
        return f

    def disjoint(self, groups):
        R = self.R
        for a in range(len(groups)):
            for b in range(a):
                for ca, _, _ in groups[a]['items']:
                    for cb, _, _ in groups[b]['items']:
                        fa = subst(band(le(ZERO, self.j), lt(self.j, self.n), *ca), {self.j: groups[a]['k']})
                        fb = subst(band(le(ZERO, self.j), lt(self.j, self.n), *cb), {self.j: groups[b]['k']})
                        if R.entails(bnot(band(fa, fb))) != 'proved':
                            return False
        return True

    def entry_reads(self, v, hname, snap):
        for x in list(tm.subterms(v)):
            if x.op == 'fn' and x.data == '@entry' + hname:
                v = tm.replace_term(v, x, snap.read(x.args))
        return v

    def rewrite_h(self, v, hname, J, h):
        """under the current facts, reads of h at an index equal to J become h(J)"""
        R = self.R
        for x in list(tm.subterms(v)):
            if x.op == 'fn' and x.data == hname and x is not h:
                if all(R.entails(eq(a, b)) == 'proved' for a, b in zip(x.args, J)):
                    v = tm.replace_term(v, x, h)
        return v

    def resolve_h(self, v, hname, snap, k, cond=TRUE, writes=None, ax=None):
        """replace reads of this array's start-of-iteration value by its entry value where no
        earlier iteration writes; give up (None) otherwise"""
        if not self.mentions(v):
            return v
        if writes is None or any(a is None for a in ax):
            return None
        R = self.R
        for x in list(tm.subterms(v)):
            if x.op != 'fn' or x.data != hname:
                continue
            i = tm.fresh('i', 'I')
            sb = {a: t for a, t in zip(ax, x.args) if a is not None}
            m = R.mark()
            R.push(le(ZERO, i), lt(i, k), lt(k, self.n), cond)
            try:
                for conds in writes:
                    w = subst(subst(band(*conds), sb), {self.j: i})
                    if self.mentions(w) or R.entails(bnot(w)) != 'proved':
                        return None
            finally:
                R.pop(m)
            v = tm.replace_term(v, x, fn('@entry' + hname, *x.args, sort=x.sort))
        return None if self.mentions(v) else v

    def leaves(self, e, conds, out, J, hname):
        R = self.R
        e = self.lift_ite(e)
        if e.op == 'ite':
            c, x, y = e.args
            for cc, br in ((c, x), (bnot(c), y)):
                parts = list(cc.args) if cc.op == 'and' else [cc]
                # a negated conjunction or disjunction stays one literal
                m = R.mark()
                R.push(*conds)
                s = R.simplify_cond(cc)
                R.pop(m)
                if s is FALSE:
                    continue
                self.leaves(br, conds + ([] if s is TRUE else parts), out, J, hname)
            return
        out.append((conds, e))

    def lift_ite(self, e):
        if e.op in ('ite', 'const', 'var', 'sum'):
            return e
        # find an ite (not below a sum or inside an array index that mentions bound variables)
        st = [e]
        seen = set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'ite':
                c = x.args[0]
                return mk('ite', (c, tm.replace_term(e, x, x.args[1]), tm.replace_term(e, x, x.args[2])), None, e.sort)
            if x.op != 'sum':
                st.extend(x.args)
        return e

    def solve_interval(self, conds):
        """two conditions  0 <= e - c*j  and  e - c*j < c  fix j = e // c"""
        R, j = self.R, self.j
        los, ups = [], []
        for c in conds:
            if c.op == 'lt0':
                e = sub(ZERO, add(c.args[0], ONE))
            elif c.op == 'not' and c.args[0].op == 'lt0':
                e = c.args[0].args[0]
            else:
                continue
            if e.sort != 'I' or j not in e.fv:
                continue
            co = R.canon(sub(subst(e, {j: add(j, ONE)}), e))
            if j in co.fv or self.mentions(co) or self.mentions(e):
                continue
            neg = R.canon(sub(ZERO, co))
            if R.entails(le(ONE, neg)) == 'proved':
                los.append((neg, e))
            elif R.entails(le(ONE, co)) == 'proved':
                ups.append((co, e))
        for c, lo in los:
            for c2, up in ups:
                if R.canon(sub(c, c2)) is not ZERO:
                    continue
                w = R.canon(add(lo, up))
                if j in w.fv or R.entails(lt(w, c)) != 'proved':
                    continue
                return tm.floordiv(R.canon(add(lo, mul(c, j))), c)
        return None

    def reduce_idiv(self, v):
        """(q*b + r) // b = q where 0 <= r < b"""
        R = self.R
        for x in list(tm.subterms(v)):
            if x.op == 'fn' and x.data == 'idiv' and x.args[1].op != 'const':
                a, b = x.args
                p = R.norm()(R.canon(a))
                bp = R.norm()(R.canon(b))
                if len(bp) != 1 or list(bp.values()) != [1]:
                    continue
                bm = dict(next(iter(bp)))
                q, r = {}, {}
                for m, c in p.items():
                    d = dict(m)
                    if bm and all(d.get(k, 0) >= e for k, e in bm.items()):
                        for k, e in bm.items():
                            d[k] -= e
                        q[tuple(sorted((k, e) for k, e in d.items() if e))] = c
                    else:
                        r[m] = c
                qt, rt_ = nf.to_term(q), nf.to_term(r)
                if q and qt.sort == 'I' and R.entails(le(ZERO, rt_)) == 'proved' and R.entails(lt(rt_, b)) == 'proved':
                    v = tm.replace_term(v, x, qt)
        return v

    def solve(self, c):
        """c: equality that determines j -> (j as a term, extra conditions)"""
        if c.op != 'eq0' or self.j not in c.fv:
            return None
        R = self.R
        p = R.norm()(c.args[0])
        aj = nf.atom('t', self.j)
        co = Fr(0)
        rest = {}
        for m, cf in p.items():
            d = dict(m)
            if d.get(aj):
                if d != {aj: 1}:
                    return None
                co = cf
            else:
                if any(self.j in nf.atom_term(a).fv for a, _ in m):
                    return None
                rest[m] = cf
        if co == 0:
            return None
        if self.mentions(nf.to_term(rest)):
            return None
        sol = nf.to_term(nf.pscale(rest, Fr(-1) / co))
        if abs(co) == 1 or sol.sort == 'I':
            return sol, []
        # j = (stuff)/m : integer division with zero remainder
        num_ = nf.to_term(nf.pscale(rest, -1 if co > 0 else 1))
        mm = abs(co)
        if num_.sort == 'I' and mm.denominator == 1:
            return tm.floordiv(num_, const(mm)), [eq(tm.mod(num_, const(mm)), ZERO)]
        return None


class WLoop(Loop):
    """while cond: body   by its last iteration

    Either the condition is false at entry, or the loop is left after some last
    iteration, which starts from a state about which nothing is known but that
    the condition holds: every location the body can change is havocked, the
    condition is assumed, and the body is run on every path.  A path after which
    the condition still holds is not the last iteration and ends there.  Says
    nothing about termination."""

    exits = True

    def __init__(self, run, cond, body, get, set_):
        self.real = body
        self.cond = cond
        j = tm.fresh('w', 'I')
        Loop.__init__(self, run, ZERO, add(j, ONE), 1, self.guarded, get, set_)

    def counters(self, paths):
        """integers every path of the body changes by one fixed amount: start + j * amount in iteration j"""
        for nme, hv in self.locals_mod.items():
            if not isinstance(hv, T) or hv.sort != 'I':
                continue
            steps = set()
            for p in paths:
                v = p['locals'].get(nme) if isinstance(p, dict) else None
                d = self.R.canon(sub(lift(v), hv)) if is_scalar(v) else None
                steps.add(d if d is not None and tm.is_const(d) else None)
            if len(steps) == 1 and None not in steps:
                self.known[hv] = add(lift(self.l0[nme]), mul(self.j, steps.pop()))
        return bool(self.known)

    def guarded(self, k):
        if not self.cond():
            raise Infeasible()
        return self.real(k)

    def run(self):
        R = self.R
        R.check_deadline()
        if not self.cond():
            return None
        self.j = tm.fresh('j', 'I')
        self.kval = self.j
        self.entry_clock = R.clock()
        self.l0 = self.get()
        self.locals_mod, self.attrs_mod, self.roots_mod, self.known = {}, {}, {}, {}
        for rnd in range(8):
            paths = self.explore_body()
            if not self.extend_modset(paths):
                break
        else:
            raise Unsupported('while loop: modified set does not stabilise')
        if self.counters(paths) and self.extend_modset(self.explore_body()):
            raise Unsupported('while loop: modified set does not stabilise')
        if self.roots_mod or self.attrs_mod:
            raise Unsupported('while loop modifies an object')
        if self.raised is not None:
            raise Unsupported('an iteration may raise %s' % str(self.raised)[:150])
        self.havoc()
        R.push_axiom(le(ZERO, self.j))
        r = self.guarded(None)
        if r is not None:
            return None if r is BRK else r
        if self.cond():
            raise Infeasible()
        return None
