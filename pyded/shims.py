"""Models of the libraries the code under verification calls.

Symbolic models (class SymWorld) and the concrete stand-ins (class ConcWorld)
used when a harness is executed on numbers.  Every model is a trusted contract
listed in the evidence (trusted_base)."""
import builtins
import math
import re
import types
from fractions import Fraction as Fr
from . import terms as tm
from . import rt as rtm
from . import arrays as ar
from .terms import T, lift, lift_or_none, num, const, fn, ite, eq, lt, le, band, bnot, add, sub, mul, div, ZERO, ONE, TRUE, FALSE, Unsupported, as_bool
from .arrays import SymArray, as_array, elementwise, make_array, dim
from .rt import SymRange, SymIter, asint, MISSING


def R():
    return rtm.RUN


class NS:
    def __init__(self, **k):
        self.__dict__.update(k)

    def __getattr__(self, n):
        if n[:1] == '_' or n in NOT_FIELDS:
            raise AttributeError(n)
        f = self.__dict__.get('_fill')
        if f:
            return f(n)
        raise Unsupported('no contract for .%s of a stand-in object' % n)


NOT_FIELDS = ('shape', 'dtype', 'size', 'ndim', 'T', 'data', 'op', 'sort', 'id', 'args', 'items', 'keys', 'copy', 'item', 'stale', 'root')


class Dummy:
    """plotting etc.: accepts everything, returns itself; a value of it reaching arithmetic is an error"""

    def __init__(self, name='dummy'):
        self.__dict__['_n'] = name

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        return Dummy(self._n + '.' + n)

    def __call__(self, *a, **k):
        return Dummy(self._n + '()')

    def __setattr__(self, n, v):
        pass


# tracked containers --------------------------------------------------------
class TList(list):
    def __init__(self, *a):
        list.__init__(self, *a)
        self._rt_created = R().clock() if R() else 0

    def _j(self):
        if R():
            R().journal(('list', self, list(self)))

    def append(self, x):
        self._j()
        list.append(self, x)

    def extend(self, x):
        self._j()
        list.extend(self, x)

    def insert(self, i, x):
        self._j()
        list.insert(self, i, x)

    def pop(self, *a):
        self._j()
        return list.pop(self, *a)

    def remove(self, x):
        self._j()
        list.remove(self, x)

    def sort(self, **k):
        self._j()
        list.sort(self, **k)

    def reverse(self):
        self._j()
        list.reverse(self)

    def __setitem__(self, i, x):
        self._j()
        list.__setitem__(self, asint(i), x)

    def __delitem__(self, i):
        self._j()
        list.__delitem__(self, i)

    def __iadd__(self, x):
        self.extend(x)
        return self

    def __getitem__(self, i):
        if isinstance(i, T):
            i = i.__index__()
        r = list.__getitem__(self, i)
        return TList(r) if isinstance(i, slice) else r

    def __add__(self, o):
        return TList(list.__add__(self, o))

    def __mul__(self, o):
        return TList(list.__mul__(self, asint(o)))


class TDict(dict):
    def __init__(self, *a, **k):
        dict.__init__(self, *a, **k)
        self._rt_created = R().clock() if R() else 0

    def _j(self):
        if R():
            R().journal(('pydict', self, dict(self)))

    def __setitem__(self, k, v):
        self._j()
        dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        self._j()
        dict.__delitem__(self, k)

    def update(self, *a, **k):
        self._j()
        dict.update(self, *a, **k)

    def pop(self, *a):
        self._j()
        return dict.pop(self, *a)

    def setdefault(self, *a):
        self._j()
        return dict.setdefault(self, *a)

    def clear(self):
        self._j()
        dict.clear(self)

    def copy(self):
        return TDict(self)


def py_div(a, b):
    if isinstance(a, SymArray) or isinstance(b, SymArray):
        return elementwise(div, a, b)
    ta, tb = lift_or_none(a), lift_or_none(b)
    if ta is None or tb is None:
        return a / b
    return div(num(ta), num(tb))


def py_floordiv(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a // b
    if isinstance(a, SymArray) or isinstance(b, SymArray):
        return elementwise(tm.floordiv, a, b)
    ta, tb = lift_or_none(a), lift_or_none(b)
    if ta is None or tb is None:
        return a // b
    return asint(floordiv_sym(num(ta), num(tb)))


def floordiv_sym(a, b):
    r = R()
    if a.sort == 'I' and b.sort == 'I' and r:
        a, b = r.canon(a), r.canon(b)
    q = tm.floordiv(a, b)
    if q.op == 'fn' and q.data == 'floor' and r:
        q = r.canon(q)
        # floor(p + fraction): drop fractions known to be in [0,1)
        if q.op == 'fn' and q.data == 'floor':
            x = q.args[0]
            if x.op == 'const':
                return tm.floor(x)
            if r.facts and r.entails(band(le(ZERO, x), lt(x, ONE))) == 'proved':
                return ZERO
        elif q.op == 'add':
            fl = [z for z in q.args if z.op == 'fn' and z.data == 'floor']
            if len(fl) == 1 and r.facts:
                x = fl[0].args[0]
                if r.entails(band(le(ZERO, x), lt(x, ONE))) == 'proved':
                    return tm.sub(q, fl[0])
    return q


def percent(s, b):
    """string % values with symbolic values"""
    vals = b if isinstance(b, tuple) else (b,)
    if not any(isinstance(v, T) for v in vals):
        return s % b
    out, i, k = [], 0, 0
    for m in re.finditer(r'%(%|[-+ #0]*[0-9.]*[a-zA-Z])', s):
        out.append(s[i:m.start()])
        i = m.end()
        if m.group(1) == '%':
            out.append('%')
            continue
        v, spec = vals[k], m.group(1)
        k += 1
        if not isinstance(v, T):
            out.append(('%' + spec) % (v,))
        elif spec[-1] in 'sr':
            out.append(str(v))
        elif spec[-1] in 'di':
            out.append(format(tm.trunc(v), spec[:-1] + 'd'))
        else:
            out.append(format(v, '.6f' if spec == 'f' else spec))
    return ''.join(out) + s[i:]


def py_mod(a, b):
    if isinstance(a, str):
        return percent(a, b)
    if isinstance(a, int) and isinstance(b, int):
        return a % b
    if isinstance(a, SymArray) or isinstance(b, SymArray):
        return elementwise(tm.mod, a, b)
    ta, tb = lift_or_none(a), lift_or_none(b)
    if ta is None or tb is None:
        return a % b
    ta, tb = num(ta), num(tb)
    m = tm.mod(R().canon(ta) if ta.op != 'const' else ta, tb)
    r = R()
    if m.op == 'fn' and m.data == 'mod' and r and r.facts:
        x = m.args[0]
        if r.entails(band(le(ZERO, x), lt(x, tb))) == 'proved':
            return asint(x)
    return asint(m)


def py_pow(a, b):
    if isinstance(a, int) and isinstance(b, int) and b >= 0:
        return a ** b
    if isinstance(a, SymArray) or isinstance(b, SymArray):
        return elementwise(tm.power, a, b)
    ta, tb = lift_or_none(a), lift_or_none(b)
    if ta is None or tb is None:
        return a ** b
    return tm.power(num(ta), num(tb))


def inplace(f, iname):
    def g(a, b):
        if isinstance(a, SymArray):
            a.assign(f(a, b))
            return a
        return f(a, b)
    return g


class RTNS:
    """names available to instrumented code as __rt"""
    F = staticmethod(lambda x: lift(x))
    div = staticmethod(py_div)
    floordiv = staticmethod(py_floordiv)
    mod = staticmethod(py_mod)
    pow = staticmethod(py_pow)
    idiv = staticmethod(inplace(py_div, 'div'))
    ifloordiv = staticmethod(inplace(py_floordiv, 'floordiv'))
    imod = staticmethod(inplace(py_mod, 'mod'))
    ipow = staticmethod(inplace(py_pow, 'pow'))
    lst = TList
    dct = TDict
    Ret = rtm.Ret
    BRK = rtm.BRK

    @staticmethod
    def loop(it, body, get, set_):
        return R().loop(it, body, get, set_)

    @staticmethod
    def wloop(cond, body, get, set_):
        return R().wloop(cond, body, get, set_)

    @staticmethod
    def tick():
        r = R()
        r.check_deadline()
        r.ticks = getattr(r, 'ticks', 0) + 1
        if r.ticks > 100000:
            raise rtm.PathLimit('while loop does not end')

    @staticmethod
    def cls(c):
        return instrument_class(c)


class ClassType:
    def __init__(self, c):
        self.instance_type = c


def instrument_class(c):
    if getattr(c, '_rt_instr', None) is c or issubclass(c, BaseException):
        return c
    init = c.__dict__.get('__init__')

    def __init__(self, *a, **k):
        if '_rt_created' not in self.__dict__:
            object.__setattr__(self, '_rt_created', R().clock() if R() else 0)
        if init is not None:
            init(self, *a, **k)
        else:
            super(c, self).__init__(*a, **k)
    c.__init__ = __init__

    def __setattr__(self, n, v):
        if R():
            R().journal(('attr', self, n, self.__dict__.get(n, MISSING)))
        object.__setattr__(self, n, v)
    if '__setattr__' not in c.__dict__:
        c.__setattr__ = __setattr__
    c._rt_instr = c
    return c


# numba -----------------------------------------------------------------------
class Ty:
    def __init__(self, name):
        self.name = name

    def __getitem__(self, k):
        return Ty(self.name + '[]')

    def __call__(self, *a, **k):
        if len(a) == 1 and not isinstance(a[0], Ty):
            return a[0]
        return Ty('sig')


def njit_like(*a, **k):
    if len(a) == 1 and isinstance(a[0], (types.FunctionType, types.BuiltinFunctionType)) and not k:
        return a[0]
    return lambda f: f


class UsedBeforeSet(AttributeError):
    real = False


class Unset:
    """a field of a jit class that has not been set: it may be read, using its value is an error"""

    def __init__(self, name, real=False):
        object.__setattr__(self, 'name', name)
        object.__setattr__(self, 'real', real)

    def __get__(self, o, cls=None):
        """real: the object was made by its constructor, not by a contract"""
        return self if o is None else Unset(object.__getattribute__(self, 'name'), '_pyded_raw' not in o.__dict__)

    def _bad(self, *a, **k):
        e = UsedBeforeSet('field %r is used before it is set' % object.__getattribute__(self, 'name'))
        e.real = object.__getattribute__(self, 'real')
        raise e
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __pow__ = __neg__ = _bad
    __getitem__ = __setitem__ = __bool__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __len__ = __iter__ = __call__ = _bad
    __abs__ = __index__ = __float__ = __int__ = __array__ = _bad
    __hash__ = None

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        self._bad()


def jitclass(*a, **k):
    spec = a[0] if a else k.get('spec')

    def deco(c):
        d = {}
        items = spec.items() if isinstance(spec, dict) else (spec or [])
        for it in items:
            if len(it) == 2 and isinstance(it[1], Ty):
                d[it[0]] = it[1].name
        for n, ty in d.items():
            if n not in c.__dict__:
                if ty.startswith('int') and '[]' not in ty:
                    setattr(c, n, 0)
                elif ty.startswith('float') and '[]' not in ty:
                    setattr(c, n, 0.0 if not R() else ZERO)
                else:
                    setattr(c, n, Unset(n))
        c.class_type = ClassType(c)
        c._jit_spec = d
        return c
    if isinstance(spec, type):
        c, spec = spec, []
        return deco(c)
    return deco


class Deferred:
    def define(self, x):
        pass


class _DictNS:
    def __init__(self, mk):
        self.mk = mk

    def empty(self, *a, **k):
        return self.mk()

    def __call__(self, *a):
        return self.mk(*a)


def numba_modules(mkdict, world):
    ty = {n: Ty(n) for n in ('int64', 'int32', 'float64', 'float32', 'boolean', 'unicode_type', 'void', 'uint64')}
    tydict = NS(Dict=_DictNS(mkdict), List=NS(empty_list=lambda *a: TList()))
    tyns = NS(**ty, DictType=lambda *a: Ty('dict'), ListType=lambda *a: Ty('list'), FunctionType=Ty('fn'))
    nb = NS(njit=njit_like, jit=njit_like, prange=world.builtins.get('range', range), typed=tydict, types=tyns, typeof=lambda x: Ty('typeof'),
            deferred_type=Deferred, vectorize=njit_like, guvectorize=njit_like, stencil=njit_like, **ty)
    nb.experimental = NS(jitclass=jitclass)
    nb.extending = NS(get_cython_function_address=lambda m, n: ('addr', m, n))
    return nb


# symbolic numpy -------------------------------------------------------------
def map1(f):
    def g(x, *a, **k):
        if isinstance(x, (SymArray, list, tuple)):
            return elementwise(lambda t: num(lift(f(num(t)))), as_array(x))
        return tm.unb(f(num(lift(x))))
    return g


def shape_of(s):
    if isinstance(s, (tuple, list)):
        return tuple(dim(x) for x in s)
    if isinstance(s, SymArray):
        return tuple(dim(x) for x in s)
    return (dim(s),)


def kind_of(dtype):
    if dtype is None:
        return None
    n = getattr(dtype, '__name__', None) or getattr(dtype, 'name', None) or str(dtype)
    if 'int' in n:
        return 'i'
    if 'bool' in n:
        return 'b'
    return 'f'


def heav(x, h0):
    return ite(lt(x, ZERO), ZERO, ite(eq(x, ZERO), h0, ONE))


def sign(x):
    return ite(lt(x, ZERO), const(-1), ite(eq(x, ZERO), ZERO, ONE))


def sym_min(a, b):
    a, b = num(lift(a)), num(lift(b))
    return asint(b if R().decide(lt(b, a)) else a)


def sym_max(a, b):
    a, b = num(lift(a)), num(lift(b))
    return asint(b if R().decide(lt(a, b)) else a)


def nlog(x):
    if x is ONE:
        return ZERO
    return fn('log', x)


def trig(name):
    def f(x):
        if x is ZERO:
            return ZERO if name in ('sin', 'tan', 'arcsin', 'arctan') else ONE
        return fn(name, x)
    return f


def t_erf(x):
    return ZERO if x is ZERO else fn('erf', x)


class NP:
    pi = tm.PI
    newaxis = None
    nan = Dummy('nan')

    class _E:
        pass
    ndarray = SymArray
    int64 = staticmethod(lambda x: asint(tm.trunc(num(lift(x)))))
    int32 = int_ = int64
    float64 = staticmethod(lambda x=0.0: lift(x) if not isinstance(x, SymArray) else x)
    float32 = float64
    bool_ = bool

    def __getattr__(self, n):
        raise Unsupported('numpy.%s has no model' % n)

    inf = Dummy('inf')

    sqrt = staticmethod(map1(lambda x: tm.sqrt(x)))
    exp = staticmethod(map1(tm.exp))
    log = staticmethod(map1(nlog))
    sin = staticmethod(map1(trig('sin')))
    cos = staticmethod(map1(trig('cos')))
    tan = staticmethod(map1(trig('tan')))
    arcsin = staticmethod(map1(trig('arcsin')))
    arctan = staticmethod(map1(trig('arctan')))
    abs = staticmethod(map1(lambda x: ar.absv(x)))
    absolute = fabs = abs
    floor = staticmethod(map1(tm.floor))
    ceil = staticmethod(map1(lambda x: tm.neg(tm.floor(tm.neg(x)))))
    sign = staticmethod(map1(sign))
    square = staticmethod(map1(lambda x: mul(x, x)))

    @staticmethod
    def zeros(s, dtype=None, order=None):
        return make_array(shape_of(s), lambda V: ZERO, kind_of(dtype) or 'f')
    empty = zeros

    @staticmethod
    def ones(s, dtype=None):
        return make_array(shape_of(s), lambda V: ONE, kind_of(dtype) or 'f')

    @staticmethod
    def full(s, v, dtype=None):
        v = num(lift(v))
        return make_array(shape_of(s), lambda V: v, kind_of(dtype) or 'f')

    @staticmethod
    def zeros_like(a, dtype=None):
        a = as_array(a)
        return make_array(a.shape, lambda V: ZERO, a.root.kind)
    empty_like = zeros_like

    @staticmethod
    def ones_like(a, dtype=None):
        a = as_array(a)
        return make_array(a.shape, lambda V: ONE, a.root.kind)

    @staticmethod
    def identity(n):
        n = dim(n)
        return make_array((n, n), lambda V: ite(eq(V[0], V[1]), ONE, ZERO))
    eye = identity

    @staticmethod
    def array(x, dtype=None):
        if isinstance(x, SymArray):
            r = x.copy()
        elif isinstance(x, (list, tuple)):
            r = as_array(x, kind_of(dtype))
        elif isinstance(x, SymRange):
            return NP.arange(x.a, x.b)
        else:
            return lift(x)
        if dtype is not None:
            r.root.kind = kind_of(dtype)
        return r

    @staticmethod
    def asarray(x, dtype=None):
        return x if isinstance(x, SymArray) else NP.array(x, dtype)

    @staticmethod
    def arange(a, b=None, step=1):
        if b is None:
            a, b = 0, a
        a, b = lift(a), lift(b)
        if a.sort != 'I' or b.sort != 'I' or not isinstance(step, int):
            raise Unsupported('arange of reals')
        n = SymRange(a, b, step).length()
        return make_array((dim(n),), lambda V: add(a, mul(V[0], const(step))), 'i')

    linspace = staticmethod(lambda a, b, n=50: ar.np_linspace(a, b, n))
    sum = staticmethod(lambda a, axis=None: ar.np_sum(a, axis))
    dot = staticmethod(lambda a, b: ar.np_dot(a, b))
    matmul = dot

    @staticmethod
    def multiply(a, b):
        return elementwise(mul, a, b)

    @staticmethod
    def add(a, b):
        return elementwise(add, a, b)

    @staticmethod
    def subtract(a, b):
        return elementwise(sub, a, b)

    @staticmethod
    def divide(a, b):
        return elementwise(div, a, b)

    @staticmethod
    def power(a, b):
        return py_pow(a, b)

    @staticmethod
    def copy(a):
        return as_array(a).copy()

    @staticmethod
    def append(a, b):
        a, b = as_array(a), as_array(b)
        if not isinstance(a, SymArray):
            a = as_array([a])
        if not isinstance(b, SymArray):
            b = as_array([b])
        return ar.np_concatenate([a, b])

    concatenate = staticmethod(lambda arrs, axis=0: ar.np_concatenate(arrs, axis))
    hstack = staticmethod(lambda arrs: ar.np_concatenate(arrs))

    @staticmethod
    def flip(a, axis=None):
        a = as_array(a)
        if a.ndim == 1:
            return a[::-1]
        if axis is None:
            raise Unsupported('flip')
        return a[tuple(slice(None, None, -1) if i == axis else slice(None) for i in range(a.ndim))]

    @staticmethod
    def heaviside(x, h0):
        return elementwise(lambda a, b: heav(num(a), num(b)), x, h0)

    @staticmethod
    def greater(a, b):
        return elementwise(lambda x, y: ite(lt(y, x), ONE, ZERO), a, b) if isinstance(a, SymArray) or isinstance(b, SymArray) else tm.unb(lt(num(lift(b)), num(lift(a))))

    @staticmethod
    def less(a, b):
        return NP.greater(b, a)

    @staticmethod
    def greater_equal(a, b):
        return elementwise(lambda x, y: ite(lt(x, y), ZERO, ONE), a, b) if isinstance(a, SymArray) or isinstance(b, SymArray) else tm.unb(le(num(lift(b)), num(lift(a))))

    @staticmethod
    def less_equal(a, b):
        return NP.greater_equal(b, a)

    @staticmethod
    def where(c, a=None, b=None):
        if a is None:
            raise Unsupported('where(cond)')
        return elementwise(lambda x, y, z: ite(as_bool(x), num(y), num(z)), c, a, b)

    @staticmethod
    def maximum(a, b):
        return elementwise(lambda x, y: ite(lt(x, y), y, x), a, b)

    @staticmethod
    def minimum(a, b):
        return elementwise(lambda x, y: ite(lt(y, x), y, x), a, b)

    @staticmethod
    def searchsorted(a, x, side='left'):
        return ar.np_searchsorted(a, x, side)

    @staticmethod
    def mean(a, axis=None):
        a = as_array(a)
        return div(ar.np_sum(a), num(lift(a.size)))

    argmin = staticmethod(lambda a: ar.np_argminmax(a, False))
    argmax = staticmethod(lambda a: ar.np_argminmax(a, True))
    max = staticmethod(lambda a: ar.np_reduce_minmax(a, True))
    min = staticmethod(lambda a: ar.np_reduce_minmax(a, False))
    amax, amin = max, min

    @staticmethod
    def all(a):
        if not isinstance(a, SymArray):
            return a
        if ar.all_int(a.shape):
            return tm.unb(band(*[as_bool(a.at(tuple(const(i) for i in k))) for k in ar.dense_indices(a.shape)]))
        raise Unsupported('np.all of symbolic length')

    @staticmethod
    def any(a):
        if not isinstance(a, SymArray):
            return a
        if ar.all_int(a.shape):
            return tm.unb(tm.bor(*[as_bool(a.at(tuple(const(i) for i in k))) for k in ar.dense_indices(a.shape)]))
        raise Unsupported('np.any of symbolic length')

    @staticmethod
    def sort(a):
        a = as_array(a)
        if a.ndim == 1 and not isinstance(a.shape[0], int):
            # symbolic length: only arrays already in increasing or decreasing order
            n = lift(a.shape[0])
            i = tm.fresh('i', 'I')
            m = R().mark()
            R().push(le(ZERO, i), lt(add(i, ONE), n))
            try:
                x, y = lift(a.at((i,))), lift(a.at((add(i, ONE),)))
                up = R().entails(le(x, y)) == 'proved'
                down = not up and R().entails(le(y, x)) == 'proved'
            finally:
                R().pop(m)
            if up:
                return a.copy()
            if down:
                b = a.copy()
                return make_array((n,), lambda V: lift(b.at((sub(sub(n, ONE), V[0]),))))
            raise Unsupported('sort of an array of symbolic length in no known order')
        items = list(a)
        out = []
        for x in items:
            i = len(out)
            while i > 0 and R().decide(lt(lift(x), lift(out[i - 1]))):
                i -= 1
            out.insert(i, x)
        return as_array(out) if out else a.copy()

    @staticmethod
    def shape(a):
        return as_array(a).shape

    @staticmethod
    def size(a):
        return as_array(a).size

    @staticmethod
    def transpose(a, axes=None):
        return as_array(a).transpose(*(axes or ()))

    @staticmethod
    def reshape(a, s):
        return as_array(a).reshape(s)

    @staticmethod
    def isnan(x):
        return False

    @staticmethod
    def interp(x, xp, fp):
        raise Unsupported('np.interp')

    @staticmethod
    def float128(x):
        return lift(x)

    class _Linalg:
        @staticmethod
        def inv(a):
            return sym_inv(a)

        def __getattr__(self, n):
            raise Unsupported('numpy.linalg.' + n)
    linalg = _Linalg()

    class _Testing:
        @staticmethod
        def assert_allclose(*a, **k):
            return None
    testing = _Testing()

    @staticmethod
    def isclose(a, b, **k):
        raise Unsupported('isclose')


def sym_inv(a):
    """external contract: inv(A) is a function of A's entries alone"""
    r = R()
    n = a.shape[0]
    if not ar.same_dim(n, a.shape[1]):
        raise ValueError('Last 2 dimensions of the array must be square')
    rd = a.snap()
    if isinstance(n, int):
        es = [num(r.canon(rd((const(i), const(j))))) for i in range(n) for j in range(n)]
        return make_array((n, n), lambda V: fn('inv%d' % n, *es, *V))
    # a matrix of symbolic size is represented by its entry at an arbitrary position (@invp, @invq):
    # equal entries there, for free positions, mean equal matrices
    p, q = tm.mk('var', (), '@invp', 'I'), tm.mk('var', (), '@invq', 'I')
    e = num(rd((p, q)))
    return make_array((n, n), lambda V: fn('inv', lift(n), e, *V))


# symbolic builtins ------------------------------------------------------------
def b_range(*a):
    a = [x.__index__() if isinstance(x, T) and x.op == 'const' and x.data.denominator == 1 else x for x in a]
    for x in a:
        if isinstance(x, T) and x.op == 'const':
            raise TypeError("'float' object cannot be interpreted as an integer")
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if len(a) == 1:
        return SymRange(0, a[0])
    step = a[2] if len(a) == 3 else 1
    if isinstance(step, T):
        step = step.__index__()
    return SymRange(a[0], a[1], step)


def b_len(x):
    if isinstance(x, SymArray):
        return asint(lift(x.shape[0]))
    return len(x)


def b_int(x=0, *a):
    if isinstance(x, str) or a:
        return int(x, *a)
    if isinstance(x, SymArray):
        x = x.at((ZERO,) * x.ndim)
    t = num(lift(x))
    r = R()
    if t.sort != 'I' and r and t.op != 'const':
        t = r.canon(t)
        if t.sort != 'I':
            # int() truncates toward zero; usually the sign is known
            if r.norm_nonneg(t):
                q = tm.floor(t)
                return asint(drop_frac(q))
            if r.norm_nonneg(tm.neg(t)):
                return asint(tm.neg(drop_frac(tm.floor(tm.neg(t)))))
            return asint(tm.trunc(t))
    return asint(tm.trunc(t))


def drop_frac(q):
    r = R()
    fl = [z for z in (q.args if q.op == 'add' else (q,)) if z.op == 'fn' and z.data == 'floor']
    if len(fl) == 1:
        x = fl[0].args[0]
        for k in range(0, 3):
            if r.entails(band(le(const(k), x), lt(x, const(k + 1)))) == 'proved':
                return tm.add(tm.sub(q, fl[0]), const(k))
    return q


def b_float(x=0):
    if isinstance(x, str):
        return lift(float(x))
    if isinstance(x, SymArray):
        return x.at((ZERO,) * x.ndim)
    return num(lift(x))


def b_min(*a, **k):
    if len(a) == 1:
        a = list(a[0])
    r = a[0]
    for x in a[1:]:
        r = sym_min(r, x) if not (isinstance(r, (int,)) and isinstance(x, int)) else min(r, x)
    return r


def b_max(*a, **k):
    if len(a) == 1:
        a = list(a[0])
    r = a[0]
    for x in a[1:]:
        r = sym_max(r, x) if not (isinstance(r, (int,)) and isinstance(x, int)) else max(r, x)
    return r


def b_abs(x):
    if isinstance(x, SymArray):
        return NP.abs(x)
    if isinstance(x, T):
        return tm.unb(ar.absv(x))
    return abs(x)


def b_sum(x, start=0):
    if isinstance(x, SymArray) and x.ndim == 1:
        return ar.np_sum(x)
    r = start
    for y in x:
        r = r + y
    return r


def b_enumerate(x, start=0):
    if isinstance(x, SymArray) and not isinstance(x.shape[0], int):
        return SymIter(x.shape[0], lambda i: (tm.add(lift(i), const(start)), x[i]))
    if isinstance(x, SymArray):
        return SymIter(x.shape[0], lambda i: (i + start, x[i]))
    return enumerate(x, start)


def b_zip(*xs):
    if any(isinstance(x, SymArray) and not isinstance(x.shape[0], int) for x in xs):
        if not all(isinstance(x, SymArray) for x in xs):
            raise Unsupported('zip')
        for x in xs[1:]:
            if not ar.same_dim(x.shape[0], xs[0].shape[0]):
                raise Unsupported('zip of different lengths')
        return SymIter(xs[0].shape[0], lambda i: tuple(x[i] for x in xs))
    return zip(*xs)


def b_list(x=()):
    if isinstance(x, SymRange):
        return TList(iter(x))
    return TList(x)


def b_isinstance(x, c):
    cs = c if isinstance(c, tuple) else (c,)
    if isinstance(x, T):
        for k in cs:
            if k is float or k is NP.float64 or k is b_float:
                if x.sort == 'R':
                    return True
            if k is int or k is b_int or k is NP.int64:
                if x.sort == 'I':
                    return True
        return False
    cs2 = tuple({b_float: float, b_int: int, b_list: list}.get(k, k) if isinstance(k, types.FunctionType) else k for k in cs)
    cs2 = tuple(k for k in cs2 if isinstance(k, type))
    return isinstance(x, cs2)


def b_bool(x=False):
    return bool(x)


def b_round(x, n=None):
    if isinstance(x, T) and x.op != 'const':
        return tm.rounded(x, n)
    if isinstance(x, T):
        x = x.data
        return lift(round(x, n)) if n is not None else round(x)
    return round(x, n) if n is not None else round(x)


class SymMath:
    pi = tm.PI
    sqrt = staticmethod(lambda x: tm.sqrt(lift(x)))
    exp = staticmethod(lambda x: tm.exp(x))
    erf = staticmethod(lambda x: t_erf(num(lift(x))))
    log = staticmethod(lambda x: nlog(num(lift(x))))
    sin = staticmethod(lambda x: trig('sin')(num(lift(x))))
    cos = staticmethod(lambda x: trig('cos')(num(lift(x))))
    tan = staticmethod(lambda x: trig('tan')(num(lift(x))))
    acos = staticmethod(lambda x: fn('arccos', num(lift(x))))
    floor = staticmethod(lambda x: asint(tm.floor(num(lift(x)))))
    ceil = staticmethod(lambda x: asint(tm.neg(tm.floor(tm.neg(num(lift(x)))))))
    fabs = staticmethod(lambda x: ar.absv(num(lift(x))))
    pow = staticmethod(py_pow)
    isnan = staticmethod(lambda x: False)
    isclose = staticmethod(lambda *a, **k: (_ for _ in ()).throw(Unsupported('isclose')))

    def __getattr__(self, n):
        raise Unsupported('math.%s has no model' % n)


# legendre polynomials ---------------------------------------------------------
_leg = {}


def legendre(n, x):
    """P_n(x): polynomial for concrete n, uninterpreted legendre(n, x) otherwise"""
    n, x = num(lift(n)), num(lift(x))
    if n.op == 'const':
        return leg_poly(int(n.data), x)
    return fn('legendre', n, x)


def leg_coeffs(n):
    """coefficients of P_n, low to high"""
    p0, p1 = [Fr(1)], [Fr(0), Fr(1)]
    if n == 0:
        return p0
    for k in range(1, n):
        a = [Fr(0)] + [c * Fr(2 * k + 1, k + 1) for c in p1]
        for i, c in enumerate(p0):
            a[i] -= c * Fr(k, k + 1)
        p0, p1 = p1, a
    return p1


def leg_poly(n, x):
    cs = leg_coeffs(n)
    return add(*[mul(const(c), tm.power_c(x, Fr(i))) for i, c in enumerate(cs) if c])


def _ev_leg(t, args):
    if args[0].op == 'const':
        return leg_poly(int(args[0].data), args[1])
    return tm.mk('fn', args, 'legendre', 'R')


tm.evaluators['legendre'] = _ev_leg


def sym_cython(addr):
    _, mod, name = addr
    if 'eval_legendre' in name:
        return legendre
    if 'expi' in name:
        return lambda x: fn('expi', num(lift(x)))
    raise Unsupported('cython function %s' % name)


class Ctypes:
    c_double = 'double'

    def __init__(self, f):
        self.f = f

    def CFUNCTYPE(self, *a):
        return self.f


class LoadParamStub:
    pass


DUMMY_MODULES = ('plots', 'loading_and_saving.load_bench')


class World:
    def __init__(self):
        self.overrides = {}

    def dummy_module(self, full):
        if full in self.overrides:
            return self.overrides[full]
        if full.startswith('moving_mesh_transport.plots'):
            return Dummy(full)
        return None

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        parts = name.split('.')
        m = self.mods.get(parts[0])
        if m is not None:
            for p in parts[1:]:
                m = getattr(m, p)
            return m
        if parts[0] in ('matplotlib', 'pylab', 'mpl_toolkits', 'h5py', 'yaml', 'imageio', 'tqdm', 'seaborn', 'pandas'):
            return Dummy(name)
        return None


class SymWorld(World):
    symbolic = True

    def __init__(self):
        super().__init__()
        self.rt = RTNS
        self.builtins = dict(range=b_range, len=b_len, int=b_int, float=b_float, min=b_min, max=b_max, abs=b_abs, sum=b_sum,
                             enumerate=b_enumerate, zip=b_zip, isinstance=b_isinstance, print=lambda *a, **k: None, list=b_list,
                             dict=TDict, round=b_round, pow=py_pow)
        np = NP()
        nbm = numba_modules(TDict, self)
        sc_special = NS(expi=lambda x: map1(lambda t: fn('expi', t))(x), erf=lambda x: map1(t_erf)(x),
                        eval_legendre=lambda n, x: elementwise(lambda a: legendre(n, num(a)), x) if isinstance(x, SymArray) else legendre(n, x),
                        roots_legendre=sym_leggauss, cython_special=Dummy('cython_special'))
        scipy = NS(special=sc_special, integrate=Dummy('scipy.integrate'), interpolate=Dummy('scipy.interpolate'), optimize=Dummy('scipy.optimize'))
        np.__dict__['polynomial'] = NS(legendre=NS(Legendre=LegClass, leggauss=sym_leggauss), Legendre=LegClass)
        np.__dict__['linalg'] = NP.linalg
        self.mods = {'numpy': np, 'math': SymMath(), 'numba': nbm, 'scipy': scipy, 'ctypes': Ctypes(sym_cython)}


def sym_leggauss(n):
    """external contract of scipy.special.roots_legendre / leggauss: nodes and weights are opaque
    symbols gl_x(n,k), gl_w(n,k) (see contracts for the facts assumed about them)"""
    n = num(lift(n))
    return (make_array((dim(n),), lambda V: fn('gl_x', n, V[0])), make_array((dim(n),), lambda V: fn('gl_w', n, V[0])))


class LegClass:
    """numpy.polynomial.legendre.Legendre basis polynomials: the operations the code uses"""

    def __init__(self, coef=None, **k):
        self.coef = coef

    @staticmethod
    def basis(n):
        return LegObj(num(lift(n)))


class LegObj:
    def __init__(self, n, d=0):
        self.n = n
        self.d = d

    def deriv(self, m=1):
        return LegObj(self.n, self.d + m)

    def roots(self):
        n = self.n
        d = self.d
        return make_array((dim(sub(n, const(d))),), lambda V: fn('leg_root', n, const(d), V[0]))

    def __call__(self, x):
        def f(t):
            if self.n.op == 'const':
                cs = leg_coeffs(int(self.n.data))
                for _ in range(self.d):
                    cs = [c * i for i, c in enumerate(cs)][1:]
                return add(*[mul(const(c), tm.power_c(t, Fr(i))) for i, c in enumerate(cs) if c])
            if self.d == 0:
                return fn('legendre', self.n, t)
            return fn('dlegendre', self.n, const(self.d), t)
        return elementwise(lambda t: f(num(t)), x) if isinstance(x, SymArray) else f(num(lift(x)))


# concrete world ---------------------------------------------------------------
class ConcNP:
    """real numpy, except that comparison ufuncs return ints (numba lets boolean arrays be subtracted)"""

    def __init__(self):
        import numpy
        self._np = numpy

    def greater(self, a, b):
        r = self._np.greater(a, b)
        return r.astype('int64') if hasattr(r, 'astype') and getattr(r, 'shape', ()) != () else r

    def __getattr__(self, n):
        return getattr(self._np, n)


class ConcWorld(World):
    symbolic = False

    def __init__(self):
        super().__init__()
        import numpy
        import scipy.special
        import scipy.interpolate
        import scipy.integrate
        import scipy
        self.rt = None
        self.builtins = dict(print=lambda *a, **k: None)
        nbm = numba_modules(dict, self)

        def cy(addr):
            if 'eval_legendre' in addr[2]:
                return lambda n, x: float(scipy.special.eval_legendre(int(n), x))
            if 'expi' in addr[2]:
                return lambda x: float(scipy.special.expi(x))
            raise Unsupported(addr[2])
        self.mods = {'numpy': ConcNP(), 'numba': nbm, 'ctypes': Ctypes(cy)}

    def module(self, name):
        if name in ('math', 'scipy') or name.startswith('scipy.') and 'cython' not in name:
            return None
        if name.startswith('numpy.'):
            return None
        return super().module(name)
