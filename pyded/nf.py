"""Canonical forms: terms as sums of Laurent monomials over atoms with exact
rational coefficients.  Used to decide equalities of terms."""
from fractions import Fraction as Fr
from itertools import permutations
import math
from . import terms as tm
from .terms import T, mk, const, add, mul, power_c, fn, ite, var, ZERO, ONE, Unsupported

# atoms are interned integers
_atoms = {}
_atom_list = []


def atom(kind, data):
    key = (kind, data)
    i = _atoms.get(key)
    if i is None:
        i = len(_atom_list)
        _atoms[key] = i
        _atom_list.append((kind, data))
    return i


_atom_terms = {}


def atom_term(i):
    t = _atom_terms.get(i)
    if t is None:
        kind, data = _atom_list[i]
        if kind == 't':
            t = data
        elif kind == 'p':
            t = const(data)
        elif kind == 'q':
            t = to_term(dict(data))
        elif kind == 'e':
            t = tm.exp(to_term({data: Fr(1)}))
        _atom_terms[i] = t
    return t


class Limit(Exception):
    pass


MAXTERMS = 60000


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c * k
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def pscale(p, k):
    return {m: c * k for m, c in p.items()} if k else {}


def _norm_mono(d, c):
    """d: {atom: exp} -> Poly (expands positive integer powers of 'q' atoms, integer radicals)"""
    extra = []
    items = []
    for a, e in d.items():
        if e == 0:
            continue
        kind, data = _atom_list[a]
        if kind == 'p':
            f = math.floor(e)
            if f:
                c = c * Fr(data) ** f
                e = e - f
                if e == 0:
                    continue
        elif kind == 'q' and e >= 1:
            f = math.floor(e)
            extra.append((a, f))
            e = e - f
            if e == 0:
                continue
        items.append((a, e))
    items.sort()
    p = {tuple(items): c}
    for a, f in extra:
        q = dict(_atom_list[a][1])
        for _ in range(f):
            p = pmul(p, q)
    return p


def pmul(p, q):
    if len(p) > len(q):
        p, q = q, p
    r = {}
    if len(p) * len(q) > 400000:
        raise Limit('product too large')
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            if not m1:
                m, c = m2, c1 * c2
                pr = None
            elif not m2:
                m, c = m1, c1 * c2
                pr = None
            else:
                d = dict(m1)
                special = False
                for a, e in m2:
                    if a in d:
                        d[a] += e
                        k = _atom_list[a][0]
                        if d[a] == 0 or k == 'p' or k == 'q':
                            special = True
                    else:
                        d[a] = e
                if special:
                    pr = _norm_mono(d, c1 * c2)
                else:
                    m = tuple(sorted(d.items()))
                    c = c1 * c2
                    pr = None
            if pr is None:
                v = r.get(m, 0) + c
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
            else:
                for m, c in pr.items():
                    v = r.get(m, 0) + c
                    if v == 0:
                        r.pop(m, None)
                    else:
                        r[m] = v
    if len(r) > MAXTERMS:
        raise Limit('polynomial too large')
    return r


def ppow(p, n):
    r = {(): Fr(1)}
    b = p
    while n:
        if n & 1:
            r = pmul(r, b)
        n >>= 1
        if n:
            b = pmul(b, b)
    return r


def content(p):
    """p = c * mono * q ; q primitive (coprime integer coefficients, positive leading)"""
    g = None
    for c in p.values():
        a = abs(c)
        g = a if g is None else Fr(math.gcd(g.numerator * a.denominator, a.numerator * g.denominator), g.denominator * a.denominator)
    mins = None
    for m in p:
        d = dict(m)
        if mins is None:
            mins = dict(d)
        else:
            for a in list(mins):
                e = d.get(a, Fr(0))
                if e < mins[a]:
                    mins[a] = e
            for a, e in d.items():
                if a not in mins and e < 0:
                    mins[a] = e
    mins = {a: e for a, e in mins.items() if e != 0}
    inv = tuple(sorted((a, -e) for a, e in mins.items()))
    q = pmul(p, {inv: Fr(1)}) if inv else p
    lead = q[max(q)]
    if lead < 0:
        g = -g
    q = {m: c / g for m, c in q.items()}
    return g, tuple(sorted(mins.items())), q


def pinv(p):
    if not p:
        raise ZeroDivisionError('symbolic division by zero')
    if len(p) == 1:
        (m, c), = p.items()
        return _norm_mono({a: -e for a, e in m}, 1 / c)
    c, m, q = content(p)
    if len(q) == 1:
        (m2, c2), = q.items()
        return pmul(pinv({m: c}), pinv(q)) if m else {tuple((a, -e) for a, e in m2): 1 / (c * c2)}
    a = atom('q', tuple(sorted(q.items())))
    d = {x: -e for x, e in m}
    d[a] = d.get(a, Fr(0)) - 1
    return _norm_mono(d, 1 / c)


def to_term(p):
    ts = []
    for m, c in sorted(p.items()):
        fs = []
        for a, e in m:
            fs.append(power_c(atom_term(a), e))
        ts.append(mul(const(c), *fs) if fs else const(c))
    return add(*ts) if ts else ZERO


def _factor(n):
    f = {}
    d = 2
    if n > 10**14:
        return None
    while d * d <= n:
        while n % d == 0:
            f[d] = f.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        f[n] = f.get(n, 0) + 1
    return f


ODD = {'erf', 'sin', 'arcsin', 'arctan'}
EVEN = {'cos'}


class Norm:
    """Normaliser relative to a set of assumptions (sign oracle)."""

    def __init__(self, nonneg=None):
        self.nonneg = nonneg or (lambda t, binders=(): False)
        self.memo = {}
        self.sgn = {}

    def is_nonneg(self, t):
        r = self.sgn.get(t)
        if r is None:
            r = self._nn(t)
            self.sgn[t] = r
        return r

    def _nn(self, t):
        op = t.op
        if op == 'const':
            return t.data >= 0
        if op == 'fn' and t.data == 'exp':
            return True
        if t is tm.PI:
            return True
        if op == 'pow':
            if t.data.denominator % 2 == 0:
                return True
            if t.data.denominator == 1 and t.data.numerator % 2 == 0:
                return True
            if self.is_nonneg(t.args[0]):
                return True
        if op in ('add', 'mul') and all(self.is_nonneg(a) for a in t.args if a.op == 'const') and len(t.args) < 6 \
                and all(self._cheap(a) for a in t.args):
            return True
        return bool(self.nonneg(t))

    def _cheap(self, t):
        op = t.op
        if op == 'const':
            return t.data >= 0
        if t is tm.PI or (op == 'fn' and t.data == 'exp'):
            return True
        if op == 'pow':
            if t.data.denominator == 1 and t.data.numerator % 2 == 0:
                return True
            return t.data.denominator % 2 == 0 or self._cheap(t.args[0])
        if op in ('add', 'mul'):
            return all(self._cheap(a) for a in t.args)
        if op == 'var':
            return self.is_nonneg(t)
        return False

    # ------------------------------------------------------------------
    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.go(t)
            self.memo[t] = r
        return r

    def canon(self, t):
        if t.op in ('const', 'var'):
            return t
        if t.sort == 'B':
            return self.canon_bool(t)
        return to_term(self(t))

    def canon_bool(self, t):
        if t.op == 'lt0':
            return tm.lt(self.canon(t.args[0]), ZERO)
        if t.op == 'eq0':
            return tm.eq(self.canon(t.args[0]), ZERO)
        if t.op == 'not':
            return tm.bnot(self.canon_bool(t.args[0]))
        if t.op == 'and':
            return tm.band(*[self.canon_bool(a) for a in t.args])
        return t

    def single(self, t):
        return {((atom('t', t), Fr(1)),): Fr(1)}

    def go(self, t):
        op = t.op
        if op == 'const':
            return {(): t.data} if t.data else {}
        if op == 'var':
            return self.single(t)
        if op == 'add':
            r = {}
            for a in t.args:
                for m, c in self(a).items():
                    v = r.get(m, 0) + c
                    if v == 0:
                        r.pop(m, None)
                    else:
                        r[m] = v
            return r
        if op == 'mul':
            r = {(): Fr(1)}
            for a in sorted(t.args, key=lambda z: len(self(z))):
                r = pmul(r, self(a))
                if not r:
                    return r
            return r
        if op == 'pow':
            return self.pow(t.args[0], t.data)
        if op == 'fn':
            n = t.data
            if n == 'exp':
                p = self(t.args[0])
                d = {}
                for m, c in p.items():
                    d[atom('e', m)] = c
                return {tuple(sorted(d.items())): Fr(1)}
            args = tuple(self.canon(a) for a in t.args)
            if n in ODD and len(args) == 1:
                a = args[0]
                if a is ZERO:
                    return {}
                if self._neglead(a):
                    return pscale(self.single(fn(n, tm.neg(a))), -1)
            if n in EVEN and self._neglead(args[0]):
                args = (tm.neg(args[0]),)
            t2 = tm.rebuild(t, args)
            if t2.op == 'fn':
                if t2.data == 'floor':
                    p = self(t2.args[0])
                    ip = {m: c for m, c in p.items() if c.denominator == 1 and all(
                        e.denominator == 1 and e > 0 and _atom_list[a][0] == 't' and _atom_list[a][1].sort == 'I' for a, e in m)}
                    if ip:
                        rest = {m: c for m, c in p.items() if m not in ip}
                        return padd(self(tm.floor(to_term(rest))), ip)
                return self.single(t2)
            return self(t2)
        if op == 'ite':
            c = self.canon_bool(t.args[0])
            t2 = tm.ite(c, self.canon(t.args[1]), self.canon(t.args[2]))
            if t2.op == 'ite':
                return self.single(t2)
            return self(t2)
        if op == 'sum':
            return self.sum(t)
        if t.sort == 'B':
            return self.single(tm.num(t))
        raise Unsupported('norm: ' + op)

    def _neglead(self, a):
        p = self(a)
        if not p:
            return False
        return p[max(p, key=lambda m: [(atom_term(x).id, e) for x, e in m])] < 0

    # powers -----------------------------------------------------------
    def pow(self, b, e):
        if e.denominator == 1:
            p = self(b)
            n = int(e)
            if n < 0:
                return ppow(pinv(p), -n)
            return ppow(p, n)
        if b.op == 'mul' and all(self.is_nonneg(x) for x in b.args):
            r = {(): Fr(1)}
            for x in b.args:
                r = pmul(r, self.fpow(self(x), e, x))
            return r
        if b.op == 'pow' and b.data.denominator == 1 and self.is_nonneg(b.args[0]):
            return self.pow(b.args[0], b.data * e)
        return self.fpow(self(b), e, b)

    def fpow(self, p, e, orig):
        if not p:
            return {}
        if len(p) == 1:
            (m, c), = p.items()
            q = None
        else:
            c, m, q = content(p)
            if len(q) == 1:
                (m2, c2), = q.items()
                pr = pmul({m: c}, q)
                (m, c), = pr.items()
                q = None
        if q is not None:
            qt = to_term(q)
            if self.is_nonneg(qt):
                pass
            elif self.is_nonneg(tm.neg(qt)):
                q = pscale(q, -1)
                c = -c
            else:
                return self.opaque_pow(p, e)
        if c < 0:
            # a negative factor compensates the sign: (-1) q^-1 = (-q)^-1
            d = list(m)
            for i, (a, x) in enumerate(d):
                if _atom_list[a][0] == 'q' and x.denominator == 1 and x.numerator % 2 and self.is_nonneg(tm.neg(atom_term(a))):
                    d[i] = (atom('q', tuple(sorted(pscale(dict(_atom_list[a][1]), -1).items()))), x)
                    c = -c
                    break
            if c < 0:
                return self.opaque_pow(p, e)
            m = tuple(d)
        out = {}
        for s, n in ((1, c.numerator), (-1, c.denominator)):
            f = _factor(n)
            if f is None:
                return self.opaque_pow(p, e)
            for pr, k in f.items():
                a = atom('p', pr)
                out[a] = out.get(a, Fr(0)) + s * k * e
        for a, x in m:
            kind = _atom_list[a][0]
            at = atom_term(a)
            if kind in ('e', 'p') or self.is_nonneg(at):
                out[a] = out.get(a, Fr(0)) + x * e
            elif (x * e).denominator == 1 and x.denominator == 1 and x.numerator % 2 == 0:
                # (v^2k)^(1/2) = |v|^k
                if self.is_nonneg(tm.neg(at)):
                    k = x * e
                    base = out.get(a, Fr(0)) + k
                    out[a] = base
                    if int(k) % 2:
                        return pscale(_norm_mono_q(out, Fr(1), q, e), -1) if len(m) == 1 else self.opaque_pow(p, e)
                else:
                    k = int(x * e)
                    if k % 2 == 0:
                        out[a] = out.get(a, Fr(0)) + k
                    else:
                        return self.opaque_pow(p, e)
            else:
                return self.opaque_pow(p, e)
        return _norm_mono_q(out, Fr(1), q, e)

    def opaque_pow(self, p, e):
        f = math.floor(e)
        fr = e - f
        a = self.single(power_c(to_term(p), fr))
        if f > 0:
            return pmul(a, ppow(p, f))
        if f < 0:
            return pmul(a, ppow(pinv(p), -f))
        return a

    # sums -------------------------------------------------------------
    def sum(self, t):
        v, n, body = t.args
        n = self.canon(n)
        if n.op == 'const':
            return self(tm.sum_(v, n, body))
        if v.data[0] == '@':
            # canonical bound name: never free while the body is rewritten
            w = tm.mk('var', (), '%' + v.data[1:], 'I')
            v, body = w, tm.subst(body, {v: w})
        inner = self.under(v, n)
        p = inner(body)
        res = {}
        for m, c in p.items():
            dep = []
            ind = []
            for a, e in m:
                (dep if v in atom_term(a).fv else ind).append((a, e))
            outer = {tuple(ind): c}
            if not dep:
                r = pmul(outer, self(n))
            else:
                r = pmul(outer, self.multisum(v, n, dep))
            res = padd(res, r)
        return res

    def under(self, v, n):
        key = ('under', v, n)
        r = self.memo.get(key)
        if r is None:
            base = self.nonneg

            def nn(t, binders=()):
                return base(t, ((v, n),) + binders)
            r = Norm(nn)
            self.memo[key] = r
        return r

    def multisum(self, v, n, dep):
        # kronecker: single ite(eq(v,e),a,b) atoms are left to the prover
        binders = [(v, n)]
        kernel = []
        for a, e in dep:
            kind, data = _atom_list[a]
            if kind == 't' and data.op == 'sum' and e == 1:
                w, n2, b2 = data.args
                cur = [(w, n2, b2)]
                body = data
                sub = {}
                while body.op == 'sum':
                    w, n2, b2 = body.args
                    w2 = tm.fresh('b', 'I')
                    b2 = tm.subst(b2, {w: w2})
                    binders.append((w2, n2))
                    body = b2
                pb = self.under_all(binders)(body)
                if len(pb) == 1:
                    (m2, c2), = pb.items()
                    if c2 == 1:
                        kernel.extend(m2)
                        continue
                kernel.append((atom('t', body), Fr(1)))
            else:
                kernel.append((a, e))
        # merge exponents
        d = {}
        for a, e in kernel:
            d[a] = d.get(a, Fr(0)) + e
        kernel = [(a, e) for a, e in sorted(d.items()) if e]
        return self.canon_multi(binders, kernel)

    def under_all(self, binders):
        r = self
        for v, n in binders:
            r = r.under(v, n)
        return r

    def canon_multi(self, binders, kernel):
        # connected components
        vs = [b[0] for b in binders]
        parent = {b: b for b in vs}

        def find(x):
            while parent[x] is not x:
                x = parent[x]
            return x
        deps = []
        for a, e in kernel:
            fv = [b for b in vs if b in atom_term(a).fv]
            deps.append(fv)
            for b in fv[1:]:
                parent[find(b)] = find(fv[0])
        bounds = dict((b.id, n) for b, n in binders)
        for b, n in binders:
            for b2 in vs:
                if b2 in n.fv:
                    parent[find(b)] = find(b2)
        comps = {}
        for b in vs:
            comps.setdefault(find(b).id, []).append(b)
        res = {(): Fr(1)}
        used = set()
        for root, bs in comps.items():
            ker = [(a, e) for (a, e), fv in zip(kernel, deps) if fv and fv[0] in set(bs)]
            if not ker:
                for b in bs:
                    res = pmul(res, self(bounds[b.id]))
                continue
            best = None
            k = len(bs)
            # names above every canonical name bound inside: renaming cannot capture
            off = 1 + max([bound_level(atom_term(a)) for a, e in ker] + [bound_level(bounds[b.id]) for b in bs])
            names = [tm.mk('var', (), '@%d' % (off + i), 'I') for i in range(k)]
            perms = permutations(bs) if k <= 4 else [tuple(bs)]
            for perm in perms:
                # a binder whose bound mentions another must come after it
                ok = True
                for i, b in enumerate(perm):
                    if any(x in bounds[b.id].fv for x in perm[i:]):
                        ok = False
                if not ok:
                    continue
                sb = dict(zip(perm, names))
                body = mul(*[power_c(tm.subst(atom_term(a), sb), e) for a, e in ker])
                body = to_term(Norm(self.nonneg)(body)) if False else body
                bn = [tm.subst(bounds[b.id], sb) for b in perm]
                key = (tm.show(body, 60), [tm.show(x, 60) for x in bn])
                if best is None or key < best[0]:
                    best = (key, body, bn)
            if best is None:
                raise Unsupported('sum bounds')
            _, body, bn = best
            t = body
            for nm, n in reversed(list(zip(names, bn))):
                t = mk('sum', (nm, n, t), None, t.sort)
            res = pmul(res, self.single(t))
        return res


_BL = {}


def bound_level(t):
    """largest i of the canonical names @i bound in t, -1 if none"""
    r = _BL.get(t)
    if r is None:
        r = -1
        for x in tm.subterms(t):
            if x.op == 'sum' and x.args[0].data[0] == '@':
                r = max(r, int(x.args[0].data[1:]))
        _BL[t] = r
    return r


def _norm_mono_q(out, c, q, e):
    if q is not None:
        a = atom('q', tuple(sorted(q.items())))
        out = dict(out)
        out[a] = out.get(a, Fr(0)) + e
    return _norm_mono(out, c)


def clear_denominators(p):
    """multiply by polynomial denominators; zero iff original is zero"""
    for _ in range(200):
        lo = {}
        for m in p:
            for a, e in m:
                if _atom_list[a][0] == 'q' and e < 0:
                    f = math.floor(e)
                    if f < lo.get(a, 0):
                        lo[a] = f
        if not lo:
            return p
        # innermost atoms last: take the one with largest id first (outermost)
        a = max(lo)
        k = -lo[a]
        q = dict(_atom_list[a][1])
        qp = [{(): Fr(1)}]
        for _i in range(k):
            qp.append(pmul(qp[-1], q))
        r = {}
        for m, c in p.items():
            d = dict(m)
            e = d.pop(a, Fr(0)) + k
            f = math.floor(e)
            if e - f:
                d[a] = e - f
            pr = pmul({tuple(sorted(d.items())): c}, qp[f] if f < len(qp) else ppow(q, f))
            r = padd(r, pr)
        p = r
    raise Limit('denominators')


def mono_atoms(p):
    s = set()
    for m in p:
        for a, e in m:
            s.add(a)
    return s


def atom_kind(a):
    return _atom_list[a][0]


def divides(q, p, limit=4000):
    """whether the polynomial q divides the polynomial p once both are cleared of denominators (then q = 0 forces p = 0)"""
    def poly(p):
        p = clear_denominators(p)
        lo = {}
        for m in p:
            for a, e in m:
                lo[a] = min(lo.get(a, e), e)
        for m in p:
            d = dict(m)
            for a in lo:
                if a not in d:
                    lo[a] = min(lo[a], 0)
        return [({a: e - lo[a] for a, e in list(m) + [(a, 0) for a in lo if a not in dict(m)] if e != lo[a]}, c) for m, c in p.items()]
    P, Q = poly(p), poly(q)
    atoms = sorted({a for m, _ in P + Q for a in m})
    if not {a for m, _ in Q for a in m} <= {a for m, _ in P for a in m}:
        return False
    vec = lambda m: tuple(m.get(a, 0) for a in atoms)
    P = {vec(m): c for m, c in P}
    Q = {vec(m): c for m, c in Q}
    lq = max(Q)
    for _ in range(limit):
        if not P:
            return True
        lp = max(P)
        d = tuple(x - y for x, y in zip(lp, lq))
        if min(d, default=0) < 0:
            return False
        k = P[lp] / Q[lq]
        for m, c in Q.items():
            mm = tuple(x + y for x, y in zip(m, d))
            v = P.get(mm, 0) - k * c
            if v:
                P[mm] = v
            else:
                P.pop(mm, None)
    return False
