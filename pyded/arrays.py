"""Symbolic numpy arrays.

A Root owns content: a base function idx->term and a list of layers written on
top of it.  A SymArray is a (possibly strided) view of a Root, so aliasing
follows numpy: slicing gives views, arithmetic gives new roots.
"""
from fractions import Fraction as Fr
from itertools import product as iproduct
from . import terms as tm
from .terms import (T, mk, const, lift, lift_or_none, num, add, sub, mul, div, eq, lt, le, band, bnot, ite, fn, ZERO, ONE, TRUE, FALSE,
                    Unsupported, as_bool)

RT = None   # set by rt


def is_int(x):
    return isinstance(x, int) and not isinstance(x, bool)


def dim(x):
    """canonical dimension: python int when constant"""
    if isinstance(x, T):
        if x.op == 'const':
            return int(x.data)
        return x
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, float):
        raise TypeError("'float' object cannot be interpreted as an integer")
    x2 = lift_or_none(x)
    if x2 is None:
        raise TypeError('bad dimension %r' % (x,))
    return dim(x2)


class DictLayer:
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d

    def freeze(self):
        return DictLayer(dict(self.d))

    def read(self, J, rest):
        if all(j.op == 'const' for j in J):
            k = tuple(int(j.data) for j in J)
            v = self.d.get(k)
            return v if v is not None else rest(J)
        if len(self.d) > 600:
            raise Unsupported('symbolic read of a large dense array')
        acc = None
        items = list(self.d.items())
        r = None
        conds = []
        for k, v in items:
            c = band(*[eq(j, const(x)) for j, x in zip(J, k)])
            c = RT.simplify_cond(c)
            if c is FALSE:
                continue
            if c is TRUE:
                r = v
                conds = conds[:]
                break
            conds.append((c, v))
        if r is None:
            try:
                r = rest(J)
            except DenseEnd:
                if not conds:
                    raise IndexError('array index')
                r = conds.pop()[1]
        for c, v in reversed(conds):
            r = ite(c, v, r)
        return r


class DenseEnd(Exception):
    pass


class PtLayer:
    __slots__ = ('idx', 'val')

    def __init__(self, idx, val):
        self.idx = idx
        self.val = val

    def freeze(self):
        return self

    def read(self, J, rest):
        c = band(*[eq(j, i) for j, i in zip(J, self.idx)])
        c = RT.simplify_cond(c)
        if c is TRUE:
            return self.val
        if c is FALSE:
            return rest(J)
        return ite(c, self.val, rest(J))


class FnLayer:
    """f(J) -> (cond, thunk)"""
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def freeze(self):
        return self

    def read(self, J, rest):
        c, val = self.f(J)
        c = RT.simplify_cond(c)
        if c is TRUE:
            return val()
        if c is FALSE:
            return rest(J)
        return ite(c, val(), rest(J))


class Content:
    """immutable snapshot"""
    __slots__ = ('base', 'layers')

    def __init__(self, base, layers):
        self.base = base
        self.layers = layers

    def read(self, J):
        def at(i):
            def rest(J):
                if i < 0:
                    if self.base is None:
                        raise DenseEnd()
                    return self.base(J)
                return self.layers[i].read(J, at(i - 1))
            return rest
        try:
            return at(len(self.layers) - 1)(J)
        except DenseEnd:
            raise IndexError('index out of bounds')


_root_ids = [0]


class Root:
    __slots__ = ('base', 'layers', 'shape', 'id', 'stale', 'hv', '__weakref__', 'kind', 'created')

    def __init__(self, shape, base=None, layers=None, kind='f'):
        _root_ids[0] += 1
        self.id = _root_ids[0]
        self.shape = tuple(dim(s) for s in shape)
        self.base = base
        self.layers = layers if layers is not None else []
        self.stale = None
        self.hv = None
        self.kind = kind
        self.created = RT.clock() if RT else 0

    def snapshot(self):
        if self.stale:
            raise Unsupported(self.stale)
        return Content(self.base, [l.freeze() for l in self.layers])

    def read(self, J):
        if self.stale:
            raise Unsupported(self.stale)
        return Content(self.base, self.layers).read(J)

    def set_state(self, base, layers):
        RT.journal(('root', self, self.base, self.layers))
        self.base = base
        self.layers = layers

    def write(self, J, val):
        if self.stale:
            raise Unsupported(self.stale)
        RT.note_write(self)
        if all(j.op == 'const' for j in J):
            k = tuple(int(j.data) for j in J)
            if self.layers and isinstance(self.layers[-1], DictLayer):
                d = self.layers[-1].d
                RT.journal(('dict', d, k, d.get(k)))
                d[k] = val
                return
            self.set_state(self.base, self.layers + [DictLayer({k: val})])
            return
        self.set_state(self.base, self.layers + [PtLayer(J, val)])

    def write_layer(self, layer):
        if self.stale:
            raise Unsupported(self.stale)
        RT.note_write(self)
        self.set_state(self.base, self.layers + [layer])


def dense_indices(shape):
    return iproduct(*[range(s) for s in shape])


def all_int(shape):
    return all(isinstance(s, int) for s in shape)


DENSE_MAX = 20000


def make_array(shape, f, kind='f'):
    """new array with elements f(idx) (idx a tuple of terms)"""
    shape = tuple(dim(s) for s in shape)
    if any(isinstance(s, int) and s < 0 for s in shape):
        raise ValueError('negative dimensions are not allowed')
    if all_int(shape):
        n = 1
        for s in shape:
            n *= s
        if n > DENSE_MAX:
            raise Unsupported('array too large')
        d = {}
        for k in dense_indices(shape):
            d[k] = f(tuple(const(i) for i in k))
        return SymArray(Root(shape, None, [DictLayer(d)], kind))
    return SymArray(Root(shape, f, [], kind))


class SymArray:
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, root, dims=None, shape=None):
        self.root = root
        if dims is None:
            dims = tuple(('d', i, ZERO, ONE) for i in range(len(root.shape)))
            shape = root.shape
        self.dims = dims      # per root axis: ('i', idx) | ('d', viewaxis, off, step)
        self._shape = shape

    # shape --------------------------------------------------------------
    @property
    def shape(self):
        return self._shape

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = 1
        for s in self._shape:
            r = r * s
        return r

    @property
    def T(self):
        return self.transpose()

    @property
    def dtype(self):
        return DType(self.root.kind)

    def __len__(self):
        if not self._shape:
            raise TypeError('len() of unsized object')
        if isinstance(self._shape[0], int):
            return self._shape[0]
        raise Unsupported('len() outside instrumented code')

    def is_full(self):
        return all(d[0] == 'd' and d[1] == i and d[2] is ZERO and d[3] is ONE for i, d in enumerate(self.dims)) and self._shape == self.root.shape

    # access ---------------------------------------------------------------
    def ridx(self, V):
        out = []
        for d in self.dims:
            if d[0] == 'i':
                out.append(d[1])
            elif d[0] == 'd':
                v = V[d[1]]
                out.append(add(d[2], mul(d[3], v)) if d[3] is not ONE else add(d[2], v))
        return tuple(out)

    def at(self, V):
        return self.root.read(self.ridx(V))

    def snap(self):
        """pure reader of the current content"""
        c = self.root.snapshot()
        ridx = self.ridx
        return lambda V: c.read(ridx(V))

    def put(self, V, val):
        self.root.write(self.ridx(V), val)

    def fix_index(self, i, n):
        """python index -> nonnegative term, with bounds check"""
        if isinstance(i, bool):
            i = int(i)
        if isinstance(i, int):
            if isinstance(n, int):
                if not -n <= i < n:
                    raise IndexError('index %d is out of bounds for axis with size %d' % (i, n))
                return const(i + n if i < 0 else i)
            t = const(i) if i >= 0 else add(lift(n), const(i))
            RT.check_index(t, n)
            return t
        t = lift_or_none(i)
        if t is None:
            raise Unsupported('index of type %s' % type(i).__name__)
        if t.op == 'const':
            if t.data.denominator != 1:
                raise IndexError('only integers are valid indices')
            return self.fix_index(int(t.data), n)
        if t.sort != 'I':
            raise Unsupported('non-integer index')
        return RT.check_index(t, n)

    def _resolve(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            pos = [i for i, k in enumerate(key) if k is Ellipsis][0]
            nn = len([k for k in key if k is not None and k is not Ellipsis])
            key = key[:pos] + (slice(None),) * (self.ndim - nn) + key[pos + 1:]
        if len(key) > self.ndim:
            raise IndexError('too many indices for array')
        key = key + (slice(None),) * (self.ndim - len(key))
        sel = []
        nshape = []
        for k, n in zip(key, self._shape):
            if isinstance(k, slice):
                off, step, ln = self._slice(k, n)
                sel.append(('d', len(nshape), off, step))
                nshape.append(ln)
            elif isinstance(k, SymArray) or isinstance(k, (list,)):
                raise Unsupported('fancy indexing')
            elif k is None:
                raise Unsupported('newaxis')
            else:
                sel.append(('i', self.fix_index(k, n)))
        dims = []
        for d in self.dims:
            if d[0] == 'i':
                dims.append(d)
            else:
                s = sel[d[1]]
                if s[0] == 'i':
                    dims.append(('i', add(d[2], mul(d[3], s[1]))))
                else:
                    dims.append(('d', s[1], add(d[2], mul(d[3], s[2])), mul(d[3], s[3])))
        return tuple(dims), tuple(nshape)

    def _slice(self, k, n):
        step = 1 if k.step is None else dim(k.step)
        if not isinstance(step, int) or step == 0:
            raise Unsupported('slice step')
        N = lift(n)
        if step < 0:
            if k.start is None and k.stop is None and step == -1:
                return sub(N, ONE), const(-1), n
            if isinstance(n, int) and all(x is None or isinstance(dim(x), int) for x in (k.start, k.stop)):
                st = range(*slice(*[None if x is None else dim(x) for x in (k.start, k.stop, k.step)]).indices(n))
                return const(st.start), const(step), len(st)
            raise Unsupported('negative slice step')

        def bound(x, dflt):
            if x is None:
                return dflt
            x = dim(x)
            if isinstance(x, int):
                if isinstance(n, int):
                    if x < 0:
                        x = max(0, n + x)
                    return const(min(x, n))
                t = const(x) if x >= 0 else add(N, const(x))
            else:
                t = x
                if RT.decide_bool(lt(t, ZERO)):
                    t = add(N, t)
            if RT.decide_bool(lt(t, ZERO)):
                t = ZERO
            if RT.decide_bool(lt(N, t)):
                t = N
            return t
        lo = bound(k.start, ZERO)
        hi = bound(k.stop, N)
        ln = sub(hi, lo)
        if ln.op != 'const':
            ln = RT.canon(ln)
        if ln.op == 'const':
            m = max(0, int(ln.data))
            if step != 1:
                m = (m + step - 1) // step
            return lo, const(step), m
        if step != 1:
            raise Unsupported('strided slice of symbolic length')
        if RT.decide_bool(lt(ln, ZERO)):
            return lo, ONE, 0
        return lo, ONE, dim(ln)

    def __getitem__(self, key):
        if isinstance(key, SymArray) and key.root.kind == 'b':
            raise Unsupported('boolean mask')
        dims, shape = self._resolve(key)
        v = SymArray(self.root, dims, shape)
        if not shape:
            return v.at(())
        return v

    def __setitem__(self, key, val):
        if isinstance(key, SymArray):
            raise Unsupported('mask assignment')
        dims, shape = self._resolve(key)
        v = SymArray(self.root, dims, shape)
        v.assign(val)

    def assign(self, val):
        shape = self._shape
        if isinstance(val, (list, tuple)):
            val = as_array(val)
        if not shape:
            if isinstance(val, SymArray):
                if val.size != 1:
                    raise ValueError('setting an array element with a sequence.')
                val = val.at((ZERO,) * val.ndim)
            val = coerce(val, self.root.kind)
            self.put((), val)
            return
        if isinstance(val, SymArray):
            bshape = broadcast([shape, val.shape])
            if not same_shape(bshape, shape):
                raise ValueError('could not broadcast input array')
            rd = bcast_reader(val, shape)
        else:
            c = coerce(val, self.root.kind)
            rd = lambda V: c
        if all_int(shape):
            vals = [(k, rd(tuple(const(i) for i in k))) for k in dense_indices(shape)]
            for k, x in vals:
                self.put(tuple(const(i) for i in k), x)
            return
        dims = self.dims
        inv = []
        for ax, d in enumerate(dims):
            if d[0] == 'd' and not (d[3].op == 'const' and abs(d[3].data) == 1):
                raise Unsupported('strided symbolic assignment')

        def f(J, dims=dims, shape=shape, rd=rd):
            conds = []
            V = [None] * len(shape)
            for j, d in zip(J, dims):
                if d[0] == 'i':
                    conds.append(eq(j, d[1]))
                else:
                    v = mul(d[3], sub(j, d[2]))   # step is +-1
                    V[d[1]] = v
                    conds.append(le(ZERO, v))
                    conds.append(lt(v, lift(shape[d[1]])))
            return band(*conds), (lambda: rd(tuple(V)))
        self.root.write_layer(FnLayer(f))

    def __iter__(self):
        n = self._shape[0] if self._shape else None
        if not isinstance(n, int):
            raise Unsupported('iteration over array of symbolic length')
        return iter([self[i] for i in range(n)])

    def __bool__(self):
        if self.size == 1:
            return bool(self.at((ZERO,) * self.ndim))
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def __float__(self):
        return float(self.at((ZERO,) * self.ndim))

    # methods -------------------------------------------------------------
    def copy(self):
        return elementwise(lambda a: a, self, kind=self.root.kind)

    def transpose(self, *axes):
        n = self.ndim
        if n <= 1:
            return self
        if axes and len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        perm = axes or tuple(reversed(range(n)))
        inv = {p: i for i, p in enumerate(perm)}
        dims = tuple(d if d[0] == 'i' else ('d', inv[d[1]], d[2], d[3]) for d in self.dims)
        return SymArray(self.root, dims, tuple(self._shape[p] for p in perm))

    def reshape(self, *shape, order='C'):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = tuple(dim(s) for s in shape)
        if len(shape) == 1 and isinstance(shape[0], SymArray):
            shape = tuple(shape[0])
        old = self._shape
        if any(isinstance(s, int) and s == -1 for s in shape):
            rest = 1
            for s in shape:
                if not (isinstance(s, int) and s == -1):
                    rest = rest * s
            tot = self.size
            m = tot // rest
            shape = tuple(dim(m) if isinstance(s, int) and s == -1 else s for s in shape)
        tot_o = lift(self.size)
        tot_n = ONE
        for s in shape:
            tot_n = mul(tot_n, lift(s))
        if not RT.decide_bool(eq(tot_o, tot_n)):
            raise ValueError('cannot reshape array')
        rd = self.snap()
        if len(shape) == len(old) and same_shape(shape, old):
            f = rd
        else:
            def f(J, old=old, shape=shape):
                groups = RT.match_reshape(old, shape)
                if groups is not None:
                    return rd(groups(J))
                flat = ZERO
                for j, s in zip(J, shape):
                    flat = add(mul(flat, lift(s)), j)
                V = []
                for s in reversed(old[1:]):
                    V.append(RT.nonneg_mod(flat, lift(s)))
                    flat = RT.nonneg_div(flat, lift(s))
                V.append(flat)
                return rd(tuple(reversed(V)))
        r = make_array(shape, f, self.root.kind)
        # aliasing guard: numpy returns a view here
        RT.alias(self.root, r.root)
        return r

    def flatten(self):
        return self.reshape(self.size) if self.ndim != 1 else self.copy()

    ravel = flatten

    def sum(self, axis=None):
        return np_sum(self, axis)

    def dot(self, o):
        return np_dot(self, o)

    def max(self):
        return np_reduce_minmax(self, True)

    def min(self):
        return np_reduce_minmax(self, False)

    def tolist(self):
        return [x.tolist() if isinstance(x, SymArray) else x for x in self]

    def fill(self, v):
        self.assign(v)

    def astype(self, ty, copy=True):
        return self.copy()

    def mean(self):
        return np_sum(self) / self.size

    # operators -------------------------------------------------------------
    def __add__(self, o):
        return elementwise(add, self, o)

    def __radd__(self, o):
        return elementwise(add, o, self)

    def __sub__(self, o):
        return elementwise(sub, self, o)

    def __rsub__(self, o):
        return elementwise(sub, o, self)

    def __mul__(self, o):
        return elementwise(mul, self, o)

    def __rmul__(self, o):
        return elementwise(mul, o, self)

    def __truediv__(self, o):
        return elementwise(div, self, o)

    def __rtruediv__(self, o):
        return elementwise(div, o, self)

    def __pow__(self, o):
        return elementwise(tm.power, self, o)

    def __rpow__(self, o):
        return elementwise(tm.power, o, self)

    def __mod__(self, o):
        return elementwise(tm.mod, self, o)

    def __floordiv__(self, o):
        return elementwise(tm.floordiv, self, o)

    def __neg__(self):
        return elementwise(tm.neg, self)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return elementwise(absv, self)

    def __matmul__(self, o):
        return np_dot(self, o)

    def _inplace(self, f, o):
        r = elementwise(f, self, o)
        self.assign(r)
        return self

    def __iadd__(self, o):
        return self._inplace(add, o)

    def __isub__(self, o):
        return self._inplace(sub, o)

    def __imul__(self, o):
        return self._inplace(mul, o)

    def __itruediv__(self, o):
        return self._inplace(div, o)

    def __ipow__(self, o):
        return self._inplace(tm.power, o)

    def __lt__(self, o):
        return elementwise(lt, self, o, kind='b')

    def __le__(self, o):
        return elementwise(le, self, o, kind='b')

    def __gt__(self, o):
        return elementwise(lambda a, b: lt(b, a), self, o, kind='b')

    def __ge__(self, o):
        return elementwise(lambda a, b: le(b, a), self, o, kind='b')

    def __eq__(self, o):
        return elementwise(eqv, self, o, kind='b')

    def __ne__(self, o):
        return elementwise(lambda a, b: bnot(eqv(a, b)), self, o, kind='b')

    def __and__(self, o):
        return elementwise(lambda a, b: band(as_bool(a), as_bool(b)), self, o, kind='b')

    def __or__(self, o):
        return elementwise(lambda a, b: tm.bor(as_bool(a), as_bool(b)), self, o, kind='b')

    def __invert__(self):
        return elementwise(lambda a: bnot(as_bool(a)), self, kind='b')

    def __contains__(self, x):
        for y in self:
            if y == x:
                return True
        return False

    __hash__ = None

    def __repr__(self):
        return '<SymArray %s>' % (self._shape,)


class DType:
    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return True

    def __hash__(self):
        return 1


def eqv(a, b):
    return eq(num(a), num(b))


def absv(a):
    a = num(a)
    if a.op == 'const':
        return const(abs(a.data))
    if RT.norm_nonneg(a):
        return a
    if RT.norm_nonneg(tm.neg(a)):
        return tm.neg(a)
    return ite(le(ZERO, a), a, tm.neg(a))


def coerce(v, kind):
    if isinstance(v, SymArray):
        if v.size == 1:
            return v.at((ZERO,) * v.ndim)
        raise ValueError('setting an array element with a sequence.')
    t = num(lift(v))
    if kind == 'i' and t.sort != 'I':
        t = tm.trunc(t)
    return t


def same_shape(a, b):
    return len(a) == len(b) and all(same_dim(x, y) for x, y in zip(a, b))


def same_dim(x, y):
    if isinstance(x, int) and isinstance(y, int):
        return x == y
    c = eq(lift(x), lift(y))
    return RT.decide_bool(c)


def broadcast(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for i in range(n):
        cur = 1
        for s in shapes:
            k = i - (n - len(s))
            if k < 0:
                continue
            d = s[k]
            if isinstance(d, int) and d == 1:
                continue
            if isinstance(cur, int) and cur == 1:
                cur = d
                continue
            if not same_dim(cur, d):
                # python-level numpy would try size-1 broadcasting
                if RT.decide_bool(eq(lift(d), ONE)):
                    continue
                if RT.decide_bool(eq(lift(cur), ONE)):
                    cur = d
                    continue
                raise ValueError('operands could not be broadcast together with shapes %s' % (shapes,))
        out.append(cur)
    return tuple(out)


def bcast_reader(a, shape):
    rd = a.snap()
    k = len(shape) - a.ndim
    one = [isinstance(s, int) and s == 1 and not (isinstance(o, int) and o == 1) for s, o in zip(a.shape, shape[k:])]
    if k == 0 and not any(one):
        return rd

    def f(V):
        W = V[k:]
        return rd(tuple(ZERO if o else v for v, o in zip(W, one)))
    return f


def elementwise(op, *xs, kind=None):
    ys = []
    shapes = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = as_array(x)
        if isinstance(x, SymArray):
            shapes.append(x.shape)
            ys.append(x)
        else:
            t = lift_or_none(x)
            if t is None:
                if hasattr(x, '__array__'):
                    x = as_array(x)
                    shapes.append(x.shape)
                    ys.append(x)
                    continue
                return NotImplemented
            ys.append(t)
    if not shapes:
        return tm.unb(op(*[y if kind == 'b' else num(y) for y in ys]))
    shape = broadcast(shapes) if len(shapes) > 1 else shapes[0]
    rds = [bcast_reader(y, shape) if isinstance(y, SymArray) else (lambda V, y=y: y) for y in ys]
    k = kind or ('i' if all((y.root.kind == 'i' if isinstance(y, SymArray) else y.sort == 'I') for y in ys) else 'f')
    if op is div:
        k = 'f'
    return make_array(shape, lambda V: op(*[r(V) for r in rds]), k)


def as_array(x, kind=None):
    if isinstance(x, SymArray):
        return x
    if isinstance(x, (list, tuple)):
        items = list(x)
        if not items:
            return make_array((0,), None)
        subs = [as_array(i) if isinstance(i, (list, tuple)) else i for i in items]
        if isinstance(subs[0], SymArray):
            sh = subs[0].shape
            rds = [s.snap() for s in subs]
            if not all_int(sh):
                return make_array((len(subs),) + sh, lambda V: rds[int(V[0].data)](V[1:]) if V[0].op == 'const' else _pick(rds, V))
            for s in subs:
                if s.shape != sh:
                    raise ValueError('inhomogeneous shape')
            k = kind or ('i' if all(s.root.kind == 'i' for s in subs) else 'f')
            return make_array((len(subs),) + sh, lambda V: rds[int(V[0].data)](V[1:]), k)
        vals = [lift(s) for s in subs]
        k = kind or ('i' if all(v.sort == 'I' and not isinstance(s, float) for v, s in zip(vals, subs)) else 'f')
        if all(v.sort == 'B' for v in vals):
            k = 'b'
        return make_array((len(vals),), lambda V: vals[int(V[0].data)], k)
    if hasattr(x, 'tolist') and hasattr(x, 'shape'):
        return as_array(x.tolist()) if x.shape else lift(x.item())
    t = lift_or_none(x)
    if t is not None:
        return SymArray(Root((), lambda J: t, [])) if False else t
    raise Unsupported('array of %s' % type(x).__name__)


def _pick(rds, V):
    r = rds[-1](V[1:])
    for i in range(len(rds) - 2, -1, -1):
        r = ite(eq(V[0], const(i)), rds[i](V[1:]), r)
    return r


def reduce_sum(rd, n):
    if isinstance(n, int):
        return add(*[rd(const(i)) for i in range(n)]) if n else ZERO
    v = tm.fresh('s', 'I')
    RT.push_range(v, n)
    try:
        body = num(rd(v))
    finally:
        RT.pop_range(v)
    return tm.sum_(v, n, body)


def np_sum(a, axis=None):
    a = as_array(a)
    if not isinstance(a, SymArray):
        return a
    rd = a.snap()
    if axis is None:
        def go(k, pre):
            if k == a.ndim:
                return num(rd(tuple(pre)))
            return reduce_sum(lambda i: go(k + 1, pre + [i]), a.shape[k])
        return go(0, [])
    axis = axis % a.ndim
    shape = tuple(s for i, s in enumerate(a.shape) if i != axis)
    f = lambda V: reduce_sum(lambda i: rd(tuple(V[:axis]) + (i,) + tuple(V[axis:])), a.shape[axis])
    if not shape:
        return f(())
    return make_array(shape, f)


def np_dot(a, b):
    a, b = as_array(a), as_array(b)
    if not isinstance(a, SymArray) or not isinstance(b, SymArray):
        return a * b
    if not same_dim(a.shape[-1], b.shape[0] if b.ndim == 1 else b.shape[-2]):
        raise ValueError('shapes not aligned')
    ra, rb = a.snap(), b.snap()
    n = a.shape[-1]
    if a.ndim == 1 and b.ndim == 1:
        return reduce_sum(lambda k: mul(num(ra((k,))), num(rb((k,)))), n)
    if a.ndim == 2 and b.ndim == 1:
        return make_array((a.shape[0],), lambda V: reduce_sum(lambda k: mul(num(ra((V[0], k))), num(rb((k,)))), n))
    if a.ndim == 1 and b.ndim == 2:
        return make_array((b.shape[1],), lambda V: reduce_sum(lambda k: mul(num(ra((k,))), num(rb((k, V[0])))), n))
    if a.ndim == 2 and b.ndim == 2:
        return make_array((a.shape[0], b.shape[1]), lambda V: reduce_sum(lambda k: mul(num(ra((V[0], k))), num(rb((k, V[1])))), n))
    raise Unsupported('dot')


def np_reduce_minmax(a, mx):
    a = as_array(a)
    vals = [a.at(tuple(const(i) for i in k)) for k in dense_indices(a.shape)] if all_int(a.shape) else None
    if vals is None:
        if a.ndim != 1:
            raise Unsupported('max of symbolic-length array')
        return a.at((sym_argminmax(a, mx),))
    if not vals:
        raise ValueError('zero-size array')
    r = vals[0]
    for v in vals[1:]:
        if RT.decide_bool(lt(r, v) if mx else lt(v, r)):
            r = v
    return r


def sym_argminmax(a, mx):
    """position of the largest (smallest) entry of an array of symbolic length: a symbol with the facts
    that define it"""
    n = lift(a.shape[0])
    if RT.decide_bool(le(n, ZERO)):
        raise ValueError('attempt to get argmax of an empty sequence')
    probe = tm.mk('var', (), '@probe', 'I')
    RT.push_range(probe, n)
    try:
        key = RT.canon(a.at((probe,)))
    finally:
        RT.pop_range(probe)
    outer = [v for v in RT.loopvars if v in key.fv or v in n.fv]
    name = '%s!%d!%d' % ('argmax' if mx else 'argmin', key.id, n.id)

    def ax(idx):
        out = []
        for x in idx:
            sb = dict(zip(outer, x))
            k, nn = fn(name, *x, sort='I'), tm.subst(n, sb)
            out.append(band(le(ZERO, k), lt(k, nn)))
            top = tm.subst(key, {**sb, probe: k})
            for t in RT.candidates(nn):
                v = tm.subst(key, {**sb, probe: t})
                out.append(tm.implies(band(le(ZERO, t), lt(t, nn)), le(v, top) if mx else le(top, v)))
        return out
    if name not in RT.axioms.by_name:
        RT.axioms.add(name, ax)
    return fn(name, *outer, sort='I')


def np_argminmax(a, mx):
    a = as_array(a)
    if a.ndim != 1:
        raise Unsupported('argmax of symbolic-length array')
    if not isinstance(a.shape[0], int):
        return sym_argminmax(a, mx)
    best = a[0]
    bi = 0
    for i in range(1, a.shape[0]):
        v = a[i]
        if RT.decide_bool(lt(best, v) if mx else lt(v, best)):
            best, bi = v, i
    return bi


def np_concatenate(arrs, axis=0):
    arrs = [as_array(a) for a in arrs]
    if axis != 0 or any(a.ndim != 1 for a in arrs):
        raise Unsupported('concatenate')
    rds = [a.snap() for a in arrs]
    lens = [a.shape[0] for a in arrs]
    if all(isinstance(n, int) for n in lens):
        flat = []
        for r, n in zip(rds, lens):
            flat += [r((const(i),)) for i in range(n)]
        return make_array((len(flat),), lambda V: flat[int(V[0].data)])
    offs = [ZERO]
    for n in lens:
        offs.append(add(offs[-1], lift(n)))

    def f(V):
        j = V[0]
        conds = []
        res = None
        for i in range(len(rds)):
            c = RT.simplify_cond(lt(j, offs[i + 1])) if i < len(rds) - 1 else TRUE
            if c is FALSE:
                continue
            val = rds[i]((sub(j, offs[i]),))
            if c is TRUE:
                res = val
                break
            conds.append((c, val))
        for c, v in reversed(conds):
            res = ite(c, v, res)
        return res
    return make_array((RT.canon(offs[-1]),), f)


def np_linspace(a, b, n=50):
    a, b = num(lift(a)), num(lift(b))
    n = dim(n)
    if isinstance(n, int):
        if n < 0:
            raise ValueError('Number of samples, %d, must be non-negative.' % n)
        if n == 0:
            return make_array((0,), None)
        if n == 1:
            return make_array((1,), lambda V: a)
        step = div(sub(b, a), const(n - 1))
        return make_array((n,), lambda V: add(a, mul(V[0], step)))
    if RT.decide_bool(lt(lift(n), ONE)):
        if RT.decide_bool(eq(lift(n), ZERO)):
            return make_array((0,), None)
        raise ValueError('Number of samples must be non-negative.')
    if RT.decide_bool(eq(lift(n), ONE)):
        return make_array((1,), lambda V: a)
    step = div(sub(b, a), sub(n, ONE))
    return make_array((n,), lambda V: add(a, mul(V[0], step)))


def np_searchsorted(a, x, side='left'):
    a = as_array(a)
    if side not in ('left', 'right'):
        raise ValueError("side must be 'left' or 'right'")
    if isinstance(x, SymArray):
        rd = x.snap()
        return make_array(x.shape, lambda V: searchsorted1(a, rd(V), side), 'i')
    return searchsorted1(a, num(lift(x)), side)


def searchsorted1(a, x, side='left'):
    n = a.shape[0]
    N = lift(n)
    rd = a.snap()
    probe = tm.mk('var', (), '@probe', 'I')
    RT.push_range(probe, n)
    try:
        key = rd((probe,))
    finally:
        RT.pop_range(probe)
    name = 'searchsorted!%s%d!%d' % ('' if side == 'left' else 'r', RT.canon(key).id, lift(n).id)
    below, above = (lt, le) if side == 'left' else (le, lt)
    RT.searchsorted[name] = (key, probe, N)

    def ax(idx, name=name, key=key, probe=probe, N=N):
        out = []
        for (y,) in idx:
            s = fn(name, y, sort='I')
            out.append(band(le(ZERO, s), le(s, N)))
            out.append(tm.implies(lt(ZERO, s), below(tm.subst(key, {probe: sub(s, ONE)}), y)))
            out.append(tm.implies(lt(s, N), above(y, tm.subst(key, {probe: s}))))
        return out
    if name not in RT.axioms.by_name:
        RT.axioms.add(name, ax)
    return fn(name, x, sort='I')
