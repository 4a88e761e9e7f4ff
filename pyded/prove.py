"""Discharging equalities and conditions under the path's assumptions."""
import time
from fractions import Fraction as Fr
from . import terms as tm
from . import nf, smt
from .terms import (T, mk, const, lift, num, add, sub, mul, div, eq, lt, le, band, bnot, ite, fn, subst, ZERO, ONE, TRUE, FALSE,
                    Unsupported, as_bool)


class Failed(Exception):
    """could not be proved; .kind is 'refuted' or 'unknown'"""

    def __init__(self, kind, why, facts=(), model=None):
        Exception.__init__(self, why)
        self.kind = kind
        self.facts = list(facts)
        self.model = model


class Prover:
    def __init__(self, run, max_split=14):
        self.elim = []      # (variable, term) eliminated with equations the facts force
        self.R = run
        self.max_split = max_split
        self.nosplit = 0
        self.by = {}

    def tick(self, k):
        self.by[k] = self.by.get(k, 0) + 1

    # ------------------------------------------------------------------
    def prove_eq(self, a, b):
        a, b = num(lift(a)), num(lift(b))
        if a is b:
            self.tick('syntactic')
            return
        self.eq0(sub(a, b), 0)

    def prove(self, c):
        c = as_bool(lift(c))
        self.boolp(c, 0)

    def boolp(self, c, depth):
        R = self.R
        if c is TRUE:
            return
        if c.op == 'and':
            for x in c.args:
                self.boolp(x, depth)
            return
        if c.op == 'eq0':
            return self.eq0(c.args[0], depth)
        s = R.simplify_cond(c)
        if s is TRUE:
            self.tick('smt')
            return
        # split on ites
        it = self.find_ite(c)
        if it is not None and depth < self.max_split:
            for cc in (it.args[0], bnot(it.args[0])):
                m = R.mark()
                if R.simplify_cond(cc) is FALSE:
                    continue
                R.push(cc)
                try:
                    self.boolp(self.resolve(c), depth + 1)
                finally:
                    R.pop(m)
            return
        if c.op == 'not' and c.args[0].op == 'and' and depth < self.max_split:
            # disjunction: assume the first disjunct false
            xs = c.args[0].args
            m = R.mark()
            R.push(*xs[:-1])
            try:
                return self.boolp(bnot(xs[-1]), depth + 1)
            finally:
                R.pop(m)
        res, model = smt.check(R.facts, c, R.axioms, timeout=R.z3_timeout * 3, want_model=True)
        if res == 'proved':
            self.tick('smt')
            return
        if res == 'unknown' and smt.cvc5_check(R.facts, c, R.axioms, timeout=5) == 'proved':
            self.tick('cvc5')
            return
        raise Failed(res, 'not entailed: %s' % tm.show(c, 7), R.facts, model)

    def find_ite(self, t):
        st = [t]
        seen = set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'ite':
                # innermost condition first
                return x
            if x.op != 'sum':
                st.extend(x.args)
        return None

    def resolve(self, t):
        """simplify ite conditions under the current facts"""
        R = self.R
        memo = {}

        def go(t):
            r = memo.get(t)
            if r is not None:
                return r
            if not t.args or t.op == 'sum':
                r = t
            elif t.op == 'ite':
                c = R.simplify_cond(go(t.args[0]))
                if c is TRUE:
                    r = go(t.args[1])
                elif c is FALSE:
                    r = go(t.args[2])
                else:
                    r = ite(c, go(t.args[1]), go(t.args[2]))
            else:
                na = tuple(go(a) for a in t.args)
                r = t if all(x is y for x, y in zip(na, t.args)) else tm.rebuild(t, na)
            memo[t] = r
            return r
        return go(t)

    def eq_facts(self, t):
        """use equality facts of the form var = expr"""
        R = self.R
        for f in R.facts:
            if f.op == 'eq0':
                p = R.norm()(f.args[0])
                best = None
                for m, c in p.items():
                    if len(m) == 1 and m[0][1] == 1 and nf.atom_kind(m[0][0]) == 't':
                        a = nf.atom_term(m[0][0])
                        if a.op == 'var' and a in t.fv and a is not tm.PI:
                            others = [nf.atom_term(x) for m2 in p if m2 != m for x, _ in m2]
                            if not any(a in o.fv for o in others) and abs(c) == 1 or \
                                    (not any(a in o.fv for o in others) and a.sort == 'R'):
                                best = (a, m, c)
                                break
                if best:
                    a, m, c = best
                    rest = {k: v for k, v in p.items() if k != m}
                    t = subst(t, {a: nf.to_term(nf.pscale(rest, Fr(-1) / c))})
        return t

    def zero(self, t):
        R = self.R
        try:
            p = R.norm()(t)
            if p:
                p = nf.clear_denominators(p)
            return p
        except nf.Limit as e:
            raise Unsupported('normal form too large: %s' % e)

    def eq0(self, t, depth):
        R = self.R
        R.check_deadline()
        p = self.zero(t)
        if not p:
            self.tick('algebra')
            return
        if depth == 0:
            t2 = self.eq_facts(t)
            if t2 is not t:
                t = t2
                p = self.zero(t)
                if not p:
                    self.tick('algebra')
                    return
        t2 = nf.to_term(p)
        it = self.find_ite(t2)
        if it is not None:
            t3 = self.resolve(t2)
            if t3 is not t2:
                p = self.zero(t3)
                if not p:
                    self.tick('algebra')
                    return
                t2 = nf.to_term(p)
                it = self.find_ite(t2)
        if it is not None:
            if depth >= self.max_split:
                raise Failed('unknown', 'too many case splits: %s' % tm.show(t2, 5), R.facts)
            c = it.args[0]
            inner = self.find_ite(c)
            if inner is not None:
                c = inner.args[0]
            for cc in (c, bnot(c)):
                m = R.mark()
                if R.entails(bnot(cc)) == 'proved':
                    continue
                R.push(cc)
                try:
                    self.eq0(self.resolve(self.eq_facts1(t2, cc)), depth + 1)
                finally:
                    R.pop(m)
            return
        # unify function applications with provably equal arguments
        u = self.unify(t2)
        if u is not t2:
            p = self.zero(u)
            if not p:
                self.tick('algebra+smt')
                return
            t2 = nf.to_term(p)
        if depth == 0:
            p2 = self.sum_facts(p)
            if p2 is not p:
                p = p2
                if not p:
                    self.tick('algebra')
                    return
                t2 = nf.to_term(p)
        if self.nosplit == 0 and any(x.op == 'sum' for x in tm.subterms(t2)):
            m0 = R.mark()
            try:
                if self.sums(p, depth):
                    return
            except Failed as e:
                R.pop(m0)
                t3 = self.split_sums(p)
                if t3 is None:
                    raise
                self.nosplit += 1
                try:
                    self.eq0(t3, depth + 1)
                finally:
                    self.nosplit -= 1
                return
        elif self.sums(p, depth):
            return
        # rational function identity that needs facts: ask the solvers
        goal = eq(t2, ZERO)
        if goal is TRUE:
            return
        if goal is FALSE:
            if R.facts and R.entails(FALSE) == 'proved':
                self.tick('smt')
                return
            raise Failed('refuted', 'difference is the nonzero constant %s' % tm.show(t2, 4), R.facts, None)
        res, model = smt.check(R.facts, goal, R.axioms, timeout=R.z3_timeout * 2, want_model=True)
        if res == 'proved':
            self.tick('smt')
            return
        if self.multiple(p):
            self.tick('algebra+smt')
            return
        t3 = self.implied_eq(t2)
        if t3 is not None:
            try:
                self.eq0(t3, depth + 1)
            finally:
                self.elim.pop()
            return
        import os
        if os.environ.get('DBGZ'):
            print('DBG', tm.show(t2, 60))
            [print('   F', tm.show(f, 60)) for f in R.facts[-6:]]
        raise Failed(res, 'cannot show zero: %s' % tm.show(t2, 7), R.facts, model)

    def equations(self):
        """terms that the facts might force to vanish"""
        for f in list(self.R.facts):
            if f.op == 'not' and f.args[0].op == 'lt0':
                yield f.args[0].args[0], False
            elif f.op == 'eq0':
                yield f.args[0], True
            elif f.op in ('and', 'or', 'not'):
                for x in tm.subterms(f):
                    if x.op == 'eq0' and x is not f and not (f.op == 'not' and x is f.args[0]):
                        yield x.args[0], False

    def multiple(self, p):
        """whether p is a multiple of an expression that the facts force to vanish"""
        R = self.R
        done = set()
        for q, known in self.equations():
            if q in done or any(x.op in ('sum', 'ite') for x in tm.subterms(q)):
                continue
            done.add(q)
            n = R.norm()(q)
            if n and any(nf.mono_atoms(n)) and nf.divides(n, p) and (known or R.entails(eq(q, ZERO)) == 'proved'):
                return True
        return False

    def implied_eq(self, t):
        """an inequality p >= 0 that the facts force to be an equation: eliminate a variable of t with it"""
        R = self.R
        done = set()
        for q, known in self.equations():
            q = self.resolve(q)
            for a, r in self.elim:
                q = tm.replace_term(q, a, r)
            if q in done or not (q.fv & t.fv or not q.fv) or any(x.op in ('sum', 'ite') for x in tm.subterms(q)):
                continue
            done.add(q)
            n = R.norm()(q)
            occurs = None
            for m, c in n.items():
                if len(m) != 1 or m[0][1] != 1 or nf.atom_kind(m[0][0]) != 't':
                    continue
                a = nf.atom_term(m[0][0])
                if a.op not in ('var', 'fn') or a.sort != 'R' or a is tm.PI:
                    continue
                if occurs is None:
                    occurs = set(tm.subterms(t))
                if a not in occurs:
                    continue
                if any(a in set(tm.subterms(nf.atom_term(x))) for m2 in n if m2 != m for x, _ in m2 if nf.atom_kind(x) == 't') or \
                        any(nf.atom_kind(x) not in 'tp' for m2 in n for x, _ in m2):
                    continue
                if not known and R.entails(eq(q, ZERO)) != 'proved':
                    break
                rest = {k: v for k, v in n.items() if k != m}
                r = nf.to_term(nf.pscale(rest, Fr(-1) / c))
                self.elim.append((a, r))
                return tm.replace_term(t, a, r)
        return None

    # sums over parts of a range -------------------------------------------------
    def split_sums(self, p):
        """rewrite every sum as differences of prefix sums, splitting the range where a condition of the
        summand changes: sum_{v<n} ite(v<k,a,b) = sum_{v<k} a + sum_{k<=v<n} b.  None if nothing changes"""
        R = self.R
        out = []
        changed = False
        for m, c in p.items():
            sa = [(a, e) for a, e in m if nf.atom_kind(a) == 't' and nf.atom_term(a).op == 'sum']
            if len(sa) != 1 or sa[0][1] != 1:
                if sa:
                    return None
                out.append((nf.to_term({m: c}), None))
                continue
            s = nf.atom_term(sa[0][0])
            co = nf.to_term({tuple(x for x in m if x != sa[0]): c})
            parts = self.split_range(s)
            if parts is None:
                return None
            v = s.args[0]
            for lo, hi, body in parts:
                # shift so that the bound variable appears by itself
                sh = self.shift(v, body)
                if sh is not None and sh is not ZERO:
                    lo, hi, body = R.canon(add(lo, sh)), R.canon(add(hi, sh)), subst(body, {v: sub(v, sh)})
                if lo is not ZERO and (R.entails(le(ZERO, lo)) != 'proved' or R.entails(le(lo, hi)) != 'proved'):
                    return None
                out.append((mul(co, ONE), (v, hi, body)))
                if lo is not ZERO:
                    out.append((mul(co, tm.const(-1)), (v, lo, body)))
                    changed = True
            changed = changed or len(parts) > 1
        # bounds that differ by a constant: peel single terms off
        bounds = []
        for co, s in out:
            if s is not None and s[1] not in bounds:
                bounds.append(s[1])
        tot = []
        for co, s in out:
            if s is None:
                tot.append(co)
                continue
            v, hi, body = s
            low, dist = hi, 0
            for b in bounds:
                d = R.canon(sub(hi, b))
                if d.op == 'const' and dist < d.data <= 16 and (b.op == 'const' or R.entails(le(ZERO, b)) == 'proved'):
                    low, dist = b, int(d.data)
            if dist:
                changed = True
            body = subst(body, {})
            tot.append(mul(co, tm.sum_(v, low, body)))
            for i in range(dist):
                tot.append(mul(co, subst(body, {v: add(low, tm.const(i))})))
        return add(*tot) if changed else None

    def shift(self, v, body):
        R = self.R
        best = None
        for x in tm.subterms(body):
            if x.op == 'fn':
                for a in x.args:
                    if a.sort == 'I' and v in a.fv:
                        d = R.canon(sub(a, v))
                        if v not in d.fv:
                            if d is ZERO:
                                return ZERO
                            if best is None or d.id < best.id:
                                best = d
        return best

    def split_range(self, s):
        """[(lo, hi, body)] with the conditions on the bound variable resolved"""
        R = self.R
        v, n, body = s.args
        work = [(ZERO, n, body)]
        done = []
        while work:
            if len(work) + len(done) > 12:
                return None
            lo, hi, body = work.pop()
            m = R.mark()
            R.push(le(lo, v), lt(v, hi))
            body = self.resolve(body)
            R.pop(m)
            ks = self.switches(v, body)
            if not ks:
                if any(x.op == 'ite' for x in tm.subterms(body)):
                    return None
                done.append((lo, hi, body))
                continue
            for k in ks:
                if k is not lo and k is not hi and R.entails(band(le(lo, k), le(k, hi))) == 'proved':
                    work.append((lo, k, body))
                    work.append((k, hi, body))
                    break
            else:
                return None
        return done

    def switches(self, v, body):
        """indices at which the truth of a condition of the body changes"""
        R = self.R
        out = []
        for x in tm.subterms(body):
            if x.op != 'ite':
                continue
            st = [x.args[0]]
            while st:
                c = st.pop()
                if c.op in ('and', 'or', 'not'):
                    st.extend(c.args)
                elif c.op in ('lt0', 'eq0') and v in c.fv:
                    e = c.args[0]
                    if e.sort != 'I':
                        continue
                    for sg in (1, -1):
                        d = R.canon(sub(e, v) if sg == 1 else add(e, v))
                        if v in d.fv:
                            continue
                        k = sub(ZERO, d) if sg == 1 else d
                        if c.op == 'eq0':
                            out += [R.canon(k), R.canon(add(k, ONE))]
                        else:
                            out.append(R.canon(k if sg == 1 else add(k, ONE)))
        return out

    def sum_facts(self, p):
        """use equality facts that determine a sum (e.g. exactness of a quadrature rule on monomials)"""
        R = self.R
        for f in R.facts:
            if f.op != 'eq0' or not any(x.op == 'sum' for x in tm.subterms(f)):
                continue
            q = R.norm()(f.args[0])
            for m, c in q.items():
                if len(m) == 1 and m[0][1] == 1 and nf.atom_kind(m[0][0]) == 't' and nf.atom_term(m[0][0]).op == 'sum':
                    a = m[0][0]
                    if any(x == a for m2 in q if m2 != m for x, _ in m2):
                        continue
                    val = nf.pscale({k: v for k, v in q.items() if k != m}, Fr(-1) / c)
                    if any(x == a and e == 1 for m2 in p for x, e in m2):
                        r = {}
                        for m2, c2 in p.items():
                            if (a, 1) in [(x, e) for x, e in m2]:
                                rest = tuple((x, e) for x, e in m2 if x != a)
                                r = nf.padd(r, nf.pmul({rest: c2}, val))
                            else:
                                r = nf.padd(r, {m2: c2})
                        p = r
                    break
        return p

    def eq_facts1(self, t, c):
        return self.eq_facts(t) if c.op == 'eq0' else t

    def unify(self, t):
        R = self.R
        apps = {}
        for x in tm.subterms(t):
            if x.op == 'fn' and x.args and x.data not in ('floor', 'mod', 'idiv'):
                apps.setdefault((x.data, len(x.args)), []).append(x)
        for key, xs in apps.items():
            if len(xs) < 2 or len(xs) > 40:
                continue
            xs = sorted(xs, key=lambda z: z.id)
            bound = set()
            for x in tm.subterms(t):
                if x.op == 'sum':
                    bound.add(x.args[0])
            reps = []
            for x in xs:
                if any(v in bound for v in x.fv):
                    continue
                for r in reps:
                    same = True
                    for a, b in zip(x.args, r.args):
                        if a is b:
                            continue
                        d = R.canon(sub(a, b))
                        if d is ZERO:
                            continue
                        if d.op == 'const' or R.entails(eq(a, b)) != 'proved':
                            same = False
                            break
                    if same:
                        t = tm.replace_term(t, x, r)
                        break
                else:
                    reps.append(x)
        return t

    def sums(self, p, depth):
        """p = sum of c_i * Sum_i (+ rest): combine sums over the same range, prove the summand zero"""
        R = self.R
        groups = {}
        rest = {}
        for m, c in p.items():
            sa = [(a, e) for a, e in m if nf.atom_kind(a) == 't' and nf.atom_term(a).op == 'sum']
            if len(sa) == 1 and sa[0][1] == 1:
                s = nf.atom_term(sa[0][0])
                co = nf.to_term({tuple(x for x in m if x != sa[0]): c})
                groups.setdefault(s.args[1], []).append((co, s))
            elif sa:
                return False
            else:
                rest[m] = c
        if not groups or depth > 40:
            return False
        bounds = list(groups)
        if len(bounds) > 1:
            # ranges may be provably equal
            merged = []
            for n in bounds:
                for g in merged:
                    if R.entails(eq(n, g[0])) == 'proved':
                        g[1].extend(groups[n])
                        break
                else:
                    merged.append((n, list(groups[n])))
        else:
            merged = [(n, list(groups[n])) for n in bounds]
        # try to absorb the rest into nothing: it must vanish by itself
        m0 = R.mark()
        try:
            for n, items in merged:
                v = tm.fresh('s', 'I')
                body = add(*[mul(co, subst(s.args[2], {s.args[0]: v})) for co, s in items])
                R.push(le(ZERO, v), lt(v, n))
                self.eq0(body, depth + 1)
                R.pop(m0)
            if rest:
                self.eq0(nf.to_term(rest), depth + 1)
        finally:
            R.pop(m0)
        self.tick('sum-induction')
        return True
