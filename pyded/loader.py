"""Mechanical extraction: parse /repo's source, instrument the syntax tree, execute it.

Instrumentation (symbolic mode) - meaning-preserving except where stated:
  * float literals become exact rationals (machine arithmetic is read as real arithmetic)
  * / // % ** go through the run time so that int/int is exact
  * every for loop becomes rt__.loop(iterable, body-closure, ...) so that ranges of
    symbolic length can be summarised; concrete iterables run as written
  * list and dict displays become tracked list/dict subclasses
  * builtins len, range, int, float, min, max, abs, sum, enumerate, zip, print, ... and the
    modules numpy, math, numba, scipy, h5py, ... are replaced by models (shims.py)
Dropped: print calls, module-level bare call statements, decorators' compilation effect
(@njit/@jitclass run as Python), docstrings.
Concrete mode: the source is executed unmodified (module-level call statements dropped), with
real numpy/math/scipy and a numba stand-in whose decorators are the identity.
"""
import ast
import builtins
import os
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'moving_mesh_transport'


class LoadError(Exception):
    pass


def assigned_names(stmts):
    names = []

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            names.append(n.name)

        def visit_ClassDef(self, n):
            names.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                names.append(n.id)

        def visit_Import(self, n):
            for a in n.names:
                names.append((a.asname or a.name).split('.')[0])
        visit_ImportFrom = visit_Import

        def visit_ExceptHandler(self, n):
            if n.name:
                names.append(n.name)
            self.generic_visit(n)
    v = V()
    for s in stmts:
        v.visit(s)
    out = []
    for n in names:
        if n not in out:
            out.append(n)
    return out


def scope_decls(stmts, kind):
    out = set()

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            pass
        visit_Lambda = visit_ClassDef = visit_FunctionDef

        def visit_Global(self, n):
            if kind == 'global':
                out.update(n.names)

        def visit_Nonlocal(self, n):
            if kind == 'nonlocal':
                out.update(n.names)
    for s in stmts:
        V().visit(s)
    return out


def is_gen(fn):
    class V(ast.NodeVisitor):
        r = False

        def visit_Yield(self, n):
            self.r = True
        visit_YieldFrom = visit_Yield

        def visit_FunctionDef(self, n):
            pass
        visit_Lambda = visit_FunctionDef
    v = V()
    for s in fn.body:
        v.visit(s)
    return v.r


def _strip(nodes):
    for r in nodes:
        for n in ast.walk(r):
            for at in ('lineno', 'col_offset', 'end_lineno', 'end_col_offset'):
                if hasattr(n, at):
                    delattr(n, at)
    return nodes


def P(src):
    return _strip(ast.parse(src).body)


def E(src):
    return _strip([ast.parse(src, mode='eval').body])[0]


class Instr:
    def __init__(self):
        self.k = 0
        self.loops = 0

    # expressions ----------------------------------------------------------
    def expr(self, node):
        me = self

        class X(ast.NodeTransformer):
            def visit_Constant(self, n):
                if isinstance(n.value, float):
                    return ast.copy_location(ast.Call(E('rt__.F'), [n], []), n)
                return n

            def visit_BinOp(self, n):
                self.generic_visit(n)
                f = {ast.Div: 'div', ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.Pow: 'pow'}.get(type(n.op))
                if f:
                    return ast.copy_location(ast.Call(E('rt__.' + f), [n.left, n.right], []), n)
                return n

            def visit_List(self, n):
                self.generic_visit(n)
                if isinstance(n.ctx, ast.Load):
                    return ast.copy_location(ast.Call(E('rt__.lst'), [n], []), n)
                return n

            def visit_ListComp(self, n):
                self.generic_visit(n)
                return ast.copy_location(ast.Call(E('rt__.lst'), [n], []), n)

            def visit_Dict(self, n):
                self.generic_visit(n)
                return ast.copy_location(ast.Call(E('rt__.dct'), [n], []), n)

            def visit_JoinedStr(self, n):
                for v in n.values:
                    if isinstance(v, ast.FormattedValue):
                        v.value = self.visit(v.value)
                return n

            def visit_Lambda(self, n):
                self.generic_visit(n)
                return n
        return X().visit(node)

    # statements -------------------------------------------------------------
    def block(self, stmts, ctx):
        """ctx: dict(loop=in loop closure?, native=depth of native while loops)"""
        out = []
        for s in stmts:
            out.extend(self.stmt(s, ctx))
        return out or [ast.Pass()]

    def stmt(self, s, ctx):
        if isinstance(s, (ast.FunctionDef,)):
            return [self.func(s)]
        if isinstance(s, ast.ClassDef):
            return [self.klass(s)]
        if isinstance(s, ast.For) and ctx['fn']:
            return self.for_(s, ctx)
        if isinstance(s, ast.Return) and ctx['loop']:
            v = self.expr(s.value) if s.value else ast.Constant(None)
            return [ast.Return(ast.Call(E('rt__.Ret'), [v], []))]
        if isinstance(s, ast.Break) and ctx['loop'] and not ctx['native']:
            return P('return rt__.BRK') if False else [ast.Return(E('rt__.BRK'))]
        if isinstance(s, ast.Continue) and ctx['loop'] and not ctx['native']:
            return [ast.Return(None)]
        if isinstance(s, ast.AugAssign):
            f = {ast.Div: 'idiv', ast.FloorDiv: 'ifloordiv', ast.Mod: 'imod', ast.Pow: 'ipow'}.get(type(s.op))
            if f and isinstance(s.target, (ast.Name, ast.Attribute)):
                load = ast.parse(ast.unparse(s.target), mode='eval').body
                return [ast.Assign([s.target], ast.Call(E('rt__.' + f), [self.expr(load), self.expr(s.value)], []), lineno=s.lineno)]
            s.target = self.expr(s.target)
            s.value = self.expr(s.value)
            return [s]
        if isinstance(s, ast.While) and ctx['fn'] and not s.orelse:
            return self.for_(s, ctx)
        if isinstance(s, ast.While):
            s.test = self.expr(s.test)
            c2 = dict(ctx, native=ctx['native'] + 1)
            s.body = P('rt__.tick()') + self.block(s.body, c2)
            s.orelse = self.block(s.orelse, ctx) if s.orelse else []
            return [s]
        if isinstance(s, ast.For):   # module level
            s.iter = self.expr(s.iter)
            s.body = self.block(s.body, dict(ctx, native=ctx['native'] + 1))
            return [s]
        # generic: expressions and nested blocks
        for f, v in ast.iter_fields(s):
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(s, f, self.block(v, ctx))
            elif isinstance(v, list):
                nv = []
                for x in v:
                    if isinstance(x, ast.expr):
                        nv.append(self.expr(x))
                    elif isinstance(x, ast.ExceptHandler):
                        if x.type:
                            x.type = self.expr(x.type)
                        x.body = self.block(x.body, ctx)
                        nv.append(x)
                    elif isinstance(x, ast.withitem):
                        x.context_expr = self.expr(x.context_expr)
                        nv.append(x)
                    else:
                        nv.append(x)
                setattr(s, f, nv)
            elif isinstance(v, ast.expr):
                setattr(s, f, self.expr(v))
        return [s]

    def for_(self, s, ctx):
        if s.orelse:
            s.iter = self.expr(s.iter)
            s.body = self.block(s.body, dict(ctx, native=ctx['native'] + 1))
            s.orelse = self.block(s.orelse, ctx)
            return [s]
        self.k += 1
        k = self.k
        names = [n for n in assigned_names([s]) if n not in ctx['globals']]
        ctx['pre'].extend(n for n in names if n not in ctx['pre'])
        nl = ('nonlocal ' + ', '.join(names)) if names else 'pass'
        whl = isinstance(s, ast.While)
        body = P('rt__.tick()') if whl else [ast.Assign([s.target], ast.Name('it__', ast.Load()), lineno=s.lineno)]
        c2 = dict(ctx, loop=True, native=0)
        body += self.block(s.body, c2)
        fd = P('def b__%d(it__):\n    %s\n' % (k, nl))[0]
        fd.body += body
        gsrc = 'def g__%d():\n    d__ = {}\n' % k
        for n in names:
            gsrc += '    try:\n        d__[%r] = %s\n    except NameError:\n        pass\n' % (n, n)
        gsrc += '    return d__\n'
        ssrc = 'def s__%d(d__):\n    %s\n' % (k, nl)
        for n in names:
            ssrc += '    if %r in d__:\n        %s = d__[%r]\n    else:\n        %s = None\n        del %s\n' % (n, n, n, n, n)
        ssrc += '    return None\n'
        call = P('r__%d = rt__.%s(None, b__%d, g__%d, s__%d)' % (k, 'wloop' if whl else 'loop', k, k, k))[0]
        call.value.args[0] = ast.Lambda(E('lambda: 0').args, self.expr(s.test)) if whl else self.expr(s.iter)
        if ctx['loop']:
            ret = P('if r__%d is not None:\n    return r__%d' % (k, k)) if False else [
                ast.If(E('r__%d is not None' % k), [ast.Return(E('r__%d' % k))], [])]
        else:
            ret = [ast.If(E('r__%d is not None' % k), [ast.Return(E('r__%d.val' % k))], [])]
        out = [fd] + P(gsrc) + P(ssrc) + [call] + ret
        for x in out:
            for y in ast.walk(x):
                if 'lineno' in y._attributes and getattr(y, 'lineno', None) is None:
                    ast.copy_location(y, s)
        return out

    def func(self, f):
        for d in f.args.defaults:
            pass
        f.args.defaults = [self.expr(d) for d in f.args.defaults]
        f.args.kw_defaults = [self.expr(d) if d is not None else None for d in f.args.kw_defaults]
        f.decorator_list = [self.expr(d) for d in f.decorator_list]
        gl = scope_decls(f.body, 'global') | scope_decls(f.body, 'nonlocal')
        if is_gen(f):
            return f
        ctx = {'fn': True, 'loop': False, 'native': 0, 'globals': gl, 'pre': []}
        body = self.block(f.body, ctx)
        args = [a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs]
        if f.args.vararg:
            args.append(f.args.vararg.arg)
        if f.args.kwarg:
            args.append(f.args.kwarg.arg)
        pre = [n for n in ctx['pre'] if n not in args]
        if pre:
            body = P('if False:\n    ' + ' = '.join(pre) + ' = None') + body
        f.body = body
        return f

    def klass(self, c):
        out = []
        ctx = {'fn': False, 'loop': False, 'native': 0, 'globals': set(), 'pre': []}
        c.body = self.block(c.body, ctx)
        c.decorator_list = [self.expr(d) for d in c.decorator_list] + [E('rt__.cls')]
        return c

    def module(self, tree):
        ctx = {'fn': False, 'loop': False, 'native': 0, 'globals': set(), 'pre': []}
        tree.body = self.block(tree.body, ctx)
        ast.fix_missing_locations(tree)
        return tree


def strip_module(tree):
    """drop module-level bare calls and `if __name__ == ...` blocks"""
    body = []
    for s in tree.body:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            continue
        if isinstance(s, ast.If) and '__name__' in ast.unparse(s.test):
            continue
        body.append(s)
    tree.body = body
    return tree


class Loader:
    """loads moving_mesh_transport modules into a private world"""

    def __init__(self, symbolic, world):
        self.symbolic = symbolic
        self.world = world        # shims: .modules dict, .builtins dict, .rt
        self.mods = {}
        self.sources = {}
        self.loops = 0

    def path_of(self, name):
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base):
            return os.path.join(base, '__init__.py'), True
        if os.path.exists(base + '.py'):
            return base + '.py', False
        return None, False

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        path, ispkg = self.path_of(name)
        if path is None:
            raise ImportError('No module named %r' % name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rpartition('.')[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        self.mods[name] = m
        if ispkg:
            # package __init__ side effects are not part of any property
            self.sources[name] = ''
            return m
        with open(path) as fh:
            src = fh.read()
        self.sources[name] = src
        try:
            tree = strip_module(ast.parse(src, path))
            if self.symbolic:
                ins = Instr()
                tree = ins.module(tree)
                self.loops += ins.k
                m.__dict__['rt__'] = self.world.rt
            b = dict(vars(builtins))
            b.update(self.world.builtins)
            b['__import__'] = self.importer(m)
            m.__dict__['__builtins__'] = b
            code = compile(tree, path, 'exec')
            exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        return m

    def importer(self, mod):
        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if level > 0:
                pkg = mod.__package__.split('.')
                if level > 1:
                    pkg = pkg[:-(level - 1)]
                full = '.'.join(pkg + ([name] if name else []))
                return self.get(full, fromlist, mod)
            if name.split('.')[0] == PKG:
                return self.get(name, fromlist, mod)
            r = self.world.module(name)
            if r is not None:
                if fromlist:
                    return r
                return self.world.module(name.split('.')[0])
            return builtins.__import__(name, globals, locals, fromlist, level)
        return imp

    def get(self, full, fromlist, mod):
        path, ispkg = self.path_of(full)
        if path is None:
            raise ImportError('No module named %r' % full)
        if self.world.dummy_module(full):
            return self.world.dummy_module(full)
        m = self.load(full)
        if not fromlist:
            return self.load(full.split('.')[0])
        if ispkg:
            for n in fromlist:
                if not hasattr(m, n):
                    setattr(m, n, self.load(full + '.' + n))
        return m
