"""Model of the part of h5py the code uses: a tree of groups and datasets per file.  Works on numbers and on
symbolic arrays.  Names may contain symbolic numbers: str() of a symbolic number is a marker inside the
string (terms.T.__str__), and two names are compared piece by piece, assuming only that str() of numbers is
injective, writes '.' or an exponent for floats and never for integers, and uses no characters but
[0-9+-.a-z].  Compared with the real h5py by tools/selftest_h5.py."""
import re
from . import terms as tm
from . import rt as rtm
from .arrays import SymArray, as_array
from .terms import T, ZERO, ONE, lift, eq, band, TRUE, FALSE, Unsupported

MARK = re.compile('\ue000([RIF])(\\d+)(?::([^\ue001]*))?\ue001')


class Formatted:
    """format(x, spec): equal for equal terms (x rounded to the digits written, for the specification '.nf')"""

    def __init__(self, spec, term):
        self.spec, self.term, self.sort = spec, term, 'F' + spec

NUMCHAR = '0123456789.+-einfa'


def pieces(s):
    """[str | (sort, term)]"""
    out, i = [], 0
    for m in MARK.finditer(s):
        if m.start() > i:
            out.append(s[i:m.start()])
        t = tm.BYID[int(m.group(2))]
        out.append(Formatted(m.group(3), t) if m.group(1) == 'F' else t)
        i = m.end()
    if i < len(s):
        out.append(s[i:])
    return out


def same_name(a, b):
    """condition under which two names are equal"""
    if a == b:
        return TRUE
    pa, pb = pieces(a), pieces(b)
    if all(isinstance(x, str) for x in pa + pb):
        return FALSE
    cond = []
    while pa and pb:
        x, y = pa[0], pb[0]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return FALSE
            for p, z in ((pa, x), (pb, y)):
                if len(z) > n:
                    p[0] = z[n:]
                else:
                    p.pop(0)
            continue
        if isinstance(x, Formatted) or isinstance(y, Formatted):
            if not (isinstance(x, Formatted) and isinstance(y, Formatted) and x.spec == y.spec):
                raise Unsupported('formatted number against another text')
            cond.append(eq(x.term, y.term))
            pa.pop(0)
            pb.pop(0)
            continue
        if isinstance(x, str) != isinstance(y, str):
            lit, term, pl, pt = (x, y, pa, pb) if isinstance(x, str) else (y, x, pb, pa)
            k = 0
            while k < len(lit) and lit[k] in NUMCHAR:
                k += 1
            nxt = pt[1] if len(pt) > 1 else ''
            if not isinstance(nxt, str) or nxt[:1] and nxt[0] in NUMCHAR or (k == len(lit) and len(pl) > 1):
                raise Unsupported('ambiguous composed name')
            try:
                v = float(lit[:k])
            except ValueError:
                return FALSE
            canon = repr(v) if term.sort == 'R' else str(int(v))
            if canon != lit[:k]:
                return FALSE
            cond.append(eq(term, lift(v)))
            pt.pop(0)
            if k < len(lit):
                pl[0] = lit[k:]
            else:
                pl.pop(0)
            continue
        for p in (pa, pb):
            if len(p) > 1 and not (isinstance(p[1], str) and p[1][0] not in NUMCHAR):
                raise Unsupported('ambiguous composed name')
        if x.sort != y.sort:
            return FALSE
        cond.append(eq(x, y))
        pa.pop(0)
        pb.pop(0)
    if pa or pb:
        return FALSE
    return band(*cond)


class FS:
    """the files of one run; .module is the h5py stand-in"""

    def __init__(self, c, files=()):
        self.c = c
        self.symbolic = c.symbolic
        self.files = {}
        self.touched = []       # paths written, created or deleted: (file, kind, path)
        self.read = []          # paths of datasets read
        for f in files:
            self.files[f] = Group(self, f, '', None)
        fs = self

        class File:
            def __new__(cls, path, mode='r', *a, **k):
                p = str(path)
                if p not in fs.files:
                    if mode in ('r', 'r+'):
                        raise FileNotFoundError(p)
                    fs.files[p] = Group(fs, p, '', None)
                elif mode == 'w':
                    fs.files[p] = Group(fs, p, '', None)
                elif mode in ('x', 'w-'):
                    raise FileExistsError(p)
                return Handle(fs.files[p], mode)
        self.module = type('h5py', (), {'File': File})()

    def same(self, a, b):
        if not self.symbolic:
            return a == b
        q = same_name(a, b)
        return q is TRUE or (q is not FALSE and rtm.RUN.decide(q))

    def array(self, x):
        if self.symbolic:
            return as_array(x).copy() if not isinstance(x, (T, int, float)) else x
        import numpy as np
        return np.array(x)

    def single(self, x):
        """storage in single precision"""
        if self.symbolic:
            from .arrays import elementwise
            return elementwise(lambda t: tm.fn('float32', t), x)
        import numpy as np
        return np.asarray(x, dtype='f4').astype(float)


class Node:
    pass


class Group(Node):
    def __init__(self, fs, file, path, parent):
        self.fs, self.file, self.path, self.parent, self.kids = fs, file, path, parent, {}

    def root(self):
        g = self
        while g.parent is not None:
            g = g.parent
        return g

    def walk(self, name):
        g = self.root() if name.startswith('/') else self
        return g, [x for x in name.split('/') if x and x != '.']

    def kid(self, name):
        for k in list(self.kids):
            if self.fs.same(k, name):
                return k
        return None

    def find(self, name):
        g, comps = self.walk(name)
        for x in comps:
            if not isinstance(g, Group):
                return None
            k = g.kid(x)
            if k is None:
                return None
            g = g.kids[k]
        return g


class Handle:
    """an open file or a group in it"""

    def __init__(self, g, mode):
        self.g, self.mode, self.open = g, mode, True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.open = False

    def flush(self):
        pass

    def _ok(self, write=False):
        if write and self.g.fs.symbolic and rtm.RUN.loopdepth:
            raise Unsupported('file is written in a loop of symbolic length')
        if not self.open:
            raise ValueError('file is closed')
        if write and self.mode == 'r':
            raise ValueError('file is read-only')

    def __contains__(self, name):
        self._ok()
        return self.g.find(name) is not None

    def keys(self):
        return list(self.g.kids)

    def __getitem__(self, name):
        self._ok()
        n = self.g.find(name)
        if n is None:
            raise KeyError(name)
        return n if isinstance(n, Dataset) else Sub(self, n)

    def get(self, name, default=None):
        return self[name] if name in self else default

    def __delitem__(self, name):
        self._ok(True)
        n = self.g.find(name)
        if n is None or n.parent is None:
            raise KeyError(name)
        for k, v in list(n.parent.kids.items()):
            if v is n:
                del n.parent.kids[k]
        self.g.fs.touched.append((self.g.file, 'del', n.path))

    def _place(self, name):
        g, comps = self.g.walk(name)
        if not comps:
            raise ValueError('empty name')
        for x in comps[:-1]:
            k = g.kid(x)
            if k is None:
                g.kids[x] = Group(g.fs, g.file, g.path + '/' + x, g)
                k = x
            g = g.kids[k]
            if not isinstance(g, Group):
                raise ValueError('not a group')
        if g.kid(comps[-1]) is not None:
            raise ValueError('name already exists')
        return g, comps[-1]

    def create_group(self, name):
        self._ok(True)
        g, last = self._place(name)
        g.kids[last] = Group(g.fs, g.file, g.path + '/' + last, g)
        return Sub(self, g.kids[last])

    def require_group(self, name):
        if name in self:
            n = self[name]
            if isinstance(n, Dataset):
                raise TypeError('not a group')
            return n
        return self.create_group(name)

    def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
        self._ok(True)
        g, last = self._place(name)
        fs = g.fs
        exact = data is not None
        if dtype is not None:
            d = dtype if isinstance(dtype, str) else getattr(dtype, '__name__', str(dtype))
            if d in ('float64', 'f8', 'd', 'float', 'double', '<f8', 'b_float'):
                exact = True
            elif d in ('float32', 'f4', 'f', '<f4'):
                exact = False
            else:
                raise Unsupported('h5 dtype %s' % d)
        if data is not None:
            if shape is not None:
                raise Unsupported('create_dataset with shape and data')
            val = fs.array(data)
            if not exact:
                val = fs.single(val)
        else:
            if not isinstance(shape, (tuple, list)):
                shape = (shape,)
            val = fs.c.vec(tuple(shape), lambda *i: tm.fn('h5_unset', *[lift(x) for x in i]) if fs.symbolic else 0)
        g.kids[last] = Dataset(fs, g.file, g.path + '/' + last, g, val, exact)
        fs.touched.append((g.file, 'new', g.path + '/' + last))
        return g.kids[last]

    def __setitem__(self, name, v):
        self.create_dataset(name, data=v)


class Sub(Handle):
    def __init__(self, parent, g):
        self.p, self.g = parent, g

    open = property(lambda self: self.p.open)
    mode = property(lambda self: self.p.mode)


class Dataset(Node):
    def __init__(self, fs, file, path, parent, val, exact):
        self.fs, self.file, self.path, self.parent, self.val, self.exact = fs, file, path, parent, val, exact

    @property
    def shape(self):
        return self.val.shape

    def __len__(self):
        return self.val.shape[0]

    def __getitem__(self, k):
        self.fs.read.append((self.file, self.path))
        v = self.val if k == () else self.val[k]
        return self.fs.array(v)

    def __setitem__(self, k, v):
        self.fs.touched.append((self.file, 'set', self.path))
        if not self.exact:
            v = self.fs.single(v)
        self.val[k] = v
