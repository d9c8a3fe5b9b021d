"""Mechanical extraction: load /repo's modules from their current source for symbolic execution.

On every run the source text of the module is parsed and rewritten by `Rewrite`:
  * a float literal `1e-3`         -> the exact rational it denotes (`__vc_lit__('1e-3')`)
  * `a / b`, `a ** b`              -> helper calls, so int/int stays an exact rational
  * `a[i]`                       -> the same, with a symbolic index into a concrete container split by cases
  * `for x in it: body`            -> the same loop, except that an `it` of *symbolic* length is
                                      handled by the loop rule of `loops.py`
  * `[e for x in it]`, `(e for ..)`-> likewise, when there is one generator
Nothing else is changed or dropped: every statement of the module is executed.  Builtins
(`len, sum, max, min, range, float, int, list, any, all, zip, enumerate, sorted, abs`) and the
imports `numpy`, `math`, `scipy.integrate` resolve to the shims of `shims.py`.
"""
import ast
import builtins
import os
import sys
import types

from . import terms as tm
from . import shims
from . import loops

REPO = os.environ.get('VC_REPO', '/repo')


class Rewrite(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def visit_Constant(self, node):
        if isinstance(node.value, float):
            return ast.copy_location(ast.Call(
                ast.Name('__vc_lit__', ast.Load()), [ast.Constant(repr(node.value))], []), node)
        return node

    def visit_JoinedStr(self, node):
        return node

    def visit_MatchValue(self, node):
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        f = {ast.Div: '__vc_div__', ast.Pow: '__vc_pow__', ast.Mult: '__vc_mul__'}.get(type(node.op))
        if f:
            return ast.copy_location(ast.Call(ast.Name(f, ast.Load()), [node.left, node.right], []), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = ast.copy_location(ast.Call(ast.Name('__vc_in__', ast.Load()), [node.left, node.comparators[0]], []), node)
            if isinstance(node.ops[0], ast.NotIn):
                return ast.copy_location(ast.UnaryOp(ast.Not(), c), node)
            return c
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node

        def conv(x):
            if isinstance(x, ast.Slice):
                return ast.Call(ast.Name('slice', ast.Load()), [k if k is not None else ast.Constant(None)
                                                               for k in (x.lower, x.upper, x.step)], [])
            if isinstance(x, ast.Tuple):
                if any(isinstance(e, ast.Starred) for e in x.elts):
                    raise _Keep()
                return ast.Tuple([conv(e) for e in x.elts], ast.Load())
            return x
        try:
            return ast.copy_location(ast.Call(ast.Name('__vc_getitem__', ast.Load()), [node.value, conv(node.slice)], []), node)
        except _Keep:
            return node

    # ---- comprehension over one symbolic iterable
    def _comp(self, node, kind):
        self.generic_visit(node)
        if len(node.generators) != 1 or node.generators[0].is_async:
            return node
        g = node.generators[0]
        lam_args = ast.arguments([], [ast.arg('__vc_item')], None, [], [], None, [])
        # element function: (lambda: [e for target in (item,) if conds]) keeps Python's own scoping
        inner = ast.ListComp(ast.Tuple([node.elt], ast.Load()) if True else node.elt,
                             [ast.comprehension(g.target, ast.Tuple([ast.Name('__vc_item', ast.Load())], ast.Load()), g.ifs, 0)])
        lam = ast.Lambda(lam_args, inner)
        call = ast.Call(ast.Name('__vc_comp__', ast.Load()), [ast.Constant(kind), g.iter, lam], [])
        return ast.copy_location(call, node)

    def visit_ListComp(self, node):
        return self._comp(node, 'list')

    def visit_GeneratorExp(self, node):
        return self._comp(node, 'gen')

    # ---- for loops
    def visit_For(self, node):
        self.generic_visit(node)
        if node.orelse or self.scope != 'function':
            return node
        if any(isinstance(x, (ast.Break, ast.Return, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal))
               for x in ast.walk(ast.Module(node.body, [])) if not isinstance(x, (ast.FunctionDef, ast.Lambda))):
            sym_ok = False
        else:
            sym_ok = True
        self.n += 1
        it, L = '__vc_it%d' % self.n, '__vc_L%d' % self.n
        ln = dict(lineno=node.lineno, col_offset=node.col_offset)
        assign = ast.Assign([ast.Name(it, ast.Store())], node.iter)
        plain = ast.For(node.target, ast.Name(it, ast.Load()), node.body, [])
        if not sym_ok:
            stmts = [assign, plain]
        else:
            names = sorted(_stored(node.body) | _stored([node.target]))
            keep = [n for n in names if not n.startswith('__vc_')]
            import copy
            body = copy.deepcopy(node.body)
            body = [_Continue().visit(b) for b in body]
            fn = '__vc_body%d' % self.n
            item = '__vc_item%d' % self.n
            inner = ([ast.Nonlocal(keep)] if keep else []) + \
                    [ast.Assign([copy.deepcopy(node.target)], ast.Name(item, ast.Load()))] + body
            fdef = ast.FunctionDef(fn, ast.arguments([], [ast.arg(item)], None, [], [], None, []), inner, [], None)
            getter = '__vc_get%d' % self.n
            setter = '__vc_set%d' % self.n
            # get(): dict of the currently bound loop-assigned names
            gbody = [ast.Assign([ast.Name('__d', ast.Store())], ast.Dict([], []))]
            for nm in keep:
                gbody.append(ast.Try(
                    [ast.Assign([ast.Subscript(ast.Name('__d', ast.Load()), ast.Constant(nm), ast.Store())], ast.Name(nm, ast.Load()))],
                    [ast.ExceptHandler(ast.Name('NameError', ast.Load()), None, [ast.Pass()])], [], []))
            gbody.append(ast.Return(ast.Name('__d', ast.Load())))
            gdef = ast.FunctionDef(getter, ast.arguments([], [], None, [], [], None, []), gbody, [], None)
            sbody = ([ast.Nonlocal(keep)] if keep else []) + [
                ast.If(ast.Compare(ast.Constant(nm), [ast.In()], [ast.Name('__d', ast.Load())]),
                       [ast.Assign([ast.Name(nm, ast.Store())], ast.Subscript(ast.Name('__d', ast.Load()), ast.Constant(nm), ast.Load()))], [])
                for nm in keep] + [ast.Pass()]
            sdef = ast.FunctionDef(setter, ast.arguments([], [ast.arg('__d')], None, [], [], None, []), sbody, [], None)
            run = ast.Expr(ast.Call(ast.Name('__vc_loop__', ast.Load()),
                                    [ast.Name(it, ast.Load()), ast.Name(fn, ast.Load()), ast.Name(getter, ast.Load()),
                                     ast.Name(setter, ast.Load()), ast.Constant(node.lineno)], []))
            # names must be locals of the enclosing function: `if False: n = None`
            decl = [ast.If(ast.Constant(False), [ast.Assign([ast.Name(nm, ast.Store())], ast.Constant(None)) for nm in keep], [])] if keep else []
            stmts = [assign, ast.If(ast.Call(ast.Name('__vc_issym__', ast.Load()), [ast.Name(it, ast.Load())], []),
                                    decl + [fdef, gdef, sdef, run], [plain])]
        for s in stmts:
            ast.copy_location(s, node)
            ast.fix_missing_locations(s)
        return stmts

    # ---- while loops: a contract may register an invariant (loops.While)
    def visit_While(self, node):
        key = None
        if self.scope == 'function' and not node.orelse:
            c = self.whiles.setdefault(self.fname, 0)
            self.whiles[self.fname] = c + 1
            key = '%s#%d' % (self.fname, c)
            stored = sorted(n for n in _stored(node.body) if not n.startswith('__vc_'))
            touched = _touched(node.body + [ast.Expr(node.test)])
            places = sorted(set(t.partition(':')[2].partition('.')[0] for t in touched) & self.flocals - set(stored))
        self.generic_visit(node)
        if key is None:
            return node
        import copy
        self.n += 1
        w = '__vc_w%d' % self.n

        def call(m, *a):
            return ast.Call(ast.Attribute(ast.Name(w, ast.Load()), m, ast.Load()), list(a), [])
        loc = ast.Call(ast.Name('__vc_locals__', ast.Load()), [], [])
        stmts = [ast.Assign([ast.Name(w, ast.Store())], ast.Call(ast.Name('__vc_while__', ast.Load()), [
            ast.Constant(key), ast.Constant(tuple(stored)), ast.Constant(tuple(sorted(touched)))], []))]
        rule = [ast.Expr(call('enter', loc))]
        for nm in places:
            rule.append(ast.Try([ast.Assign([ast.Name(nm, ast.Store())], call('havoc_place', ast.Constant(nm), ast.Name(nm, ast.Load())))],
                                [ast.ExceptHandler(ast.Name('NameError', ast.Load()), None, [ast.Pass()])], [], []))
        for nm in stored:
            rule.append(ast.Try([ast.Assign([ast.Name(nm, ast.Store())], call('havoc', ast.Constant(nm), ast.Name(nm, ast.Load())))],
                                [ast.ExceptHandler(ast.Name('NameError', ast.Load()), None, [ast.Pass()])], [], []))
        rule.append(ast.Expr(call('assume', loc)))
        rule.append(ast.For(ast.Name('__vc_once%d' % self.n, ast.Store()), ast.Tuple([ast.Constant(0)], ast.Load()),
                            [ast.If(ast.UnaryOp(ast.Not(), copy.deepcopy(node.test)), [ast.Break()], [])] + copy.deepcopy(node.body),
                            [ast.Expr(call('preserved', loc))]))
        stmts.append(ast.If(ast.Compare(ast.Name(w, ast.Load()), [ast.Is()], [ast.Constant(None)]), [node], rule))
        for s in stmts:
            ast.copy_location(s, node)
            ast.fix_missing_locations(s)
        return stmts

    scope = 'module'
    fname = ''
    flocals = frozenset()

    def visit_FunctionDef(self, node):
        old, oldn, oldl, self.scope, self.fname = self.scope, self.fname, self.flocals, 'function', node.name
        a = node.args
        self.flocals = set(_stored(node.body)) | set(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs)
        if not hasattr(self, 'whiles'):
            self.whiles = {}
        try:
            self.generic_visit(node)
        finally:
            self.scope, self.fname, self.flocals = old, oldn, oldl
        return node

    def visit_ClassDef(self, node):
        old, self.scope = self.scope, 'class'
        try:
            self.generic_visit(node)
        finally:
            self.scope = old
        return node


class _Keep(Exception):
    pass


class _Continue(ast.NodeTransformer):
    """`continue` of this loop -> `return` of the body function (inner loops keep theirs)."""

    def visit_For(self, node):
        return node

    visit_While = visit_FunctionDef = visit_Lambda = visit_For

    def visit_Continue(self, node):
        return ast.copy_location(ast.Return(None), node)


def _stored(nodes):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp
    for n in nodes:
        V().visit(n)
    return out


def _touched(nodes):
    """objects a loop may change in place: bases of subscript / attribute stores and of method calls, and the functions it calls"""
    out = set()

    def base(n):
        while isinstance(n, (ast.Subscript, ast.Attribute)):
            n = n.value
        return n.id if isinstance(n, ast.Name) else '?'
    for s in nodes:
        for n in ast.walk(s):
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add('store:' + base(n))
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute):
                    out.add('call:%s.%s' % (base(n.func), n.func.attr))
                elif isinstance(n.func, ast.Name):
                    out.add('call:' + n.func.id)
                else:
                    out.add('call:?')
            elif isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                out.add('yield')
    return out


class Loader(object):
    """A universe of freshly loaded repo modules."""

    def __init__(self, overrides=None, root=None):
        self.root = root or REPO
        self.mods = {}
        self.overrides = dict(overrides or {})     # module name -> module object / factory
        self.numpy = shims.NumpyShim()
        self.math = shims.MathShim()
        self.scipy = shims.ScipyShim(self)
        self.env = {'GAUSS_LEGENDRE_ORDER': tm.var('N.legendre', 'I'), 'GAUSS_LAGUERRE_ORDER': tm.var('N.laguerre', 'I')}                                # environment variables as seen by the code
        self.whiles = {}                            # function#ordinal -> loops.While
        self.builtins = self._builtins()

    def _while(self, key, stored, touched):
        r = self.whiles.get(key)
        return None if r is None else loops.WhileRun(r, key, stored, touched)

    def set_env(self, env):
        self.env = env

    def _builtins(self):
        d = dict(vars(builtins))
        d.update(shims.BUILTINS)
        d.update(__vc_lit__=shims.lit, __vc_div__=shims.sdiv, __vc_pow__=shims.spow, __vc_mul__=shims.smul, __vc_in__=shims.sin_, __vc_getitem__=shims.getitem,
                 __vc_comp__=loops.comp, __vc_loop__=loops.loop, __vc_issym__=loops.is_symbolic,
                 __vc_while__=self._while, __vc_locals__=builtins.locals)
        d['__import__'] = self._import
        d['print'] = lambda *a, **k: None
        return d

    # -- imports --------------------------------------------------------------------------
    def path(self, name):
        base = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(base):
            f = os.path.join(base, '__init__.py')
            return (f, True) if os.path.exists(f) else (None, True)
        if os.path.exists(base + '.py'):
            return base + '.py', False
        return None, False

    def is_repo(self, name):
        top = name.split('.')[0]
        f, pkg = self.path(top)
        return (f is not None or pkg and top in ('interactions', 'particles', 'common', 'library')) and top not in ('tests',)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or globals['__name__']
            for _ in range(level - 1):
                pkg = pkg.rsplit('.', 1)[0]
            name = pkg + ('.' + name if name else '')
        m = self._special(name)
        if m is not None:
            top = self._special(name.split('.')[0])
            return m if fromlist else top
        if self.is_repo(name) or name in self.overrides:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        if name + '.' + f in self.overrides or self.path(name + '.' + f)[0]:
                            self.load(name + '.' + f)
                        else:
                            raise ImportError('cannot import name %r from %r' % (f, name))
                return m
            return self.load(name.split('.')[0])
        return __import__(name, globals, locals, fromlist, 0)

    def _special(self, name):
        if name == 'numpy':
            return self.numpy
        if name == 'math':
            return self.math
        if name == 'scipy':
            return self.scipy
        if name == 'scipy.integrate':
            return self.scipy.integrate
        if name == 'os':
            return shims.OsShim(self.env)
        return None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if '.' in name:
            parent = self.load(name.rsplit('.', 1)[0])
        else:
            parent = None
        if name in self.mods:
            return self.mods[name]
        if name in self.overrides:
            m = self.overrides[name]
            if callable(m) and not isinstance(m, types.ModuleType):
                m = m(self)
            self.mods[name] = m
        else:
            f, pkg = self.path(name)
            m = types.ModuleType(name)
            m.__package__ = name if pkg else name.rpartition('.')[0]
            m.__dict__['__builtins__'] = self.builtins
            if pkg:
                m.__path__ = [os.path.join(self.root, *name.split('.'))]
            self.mods[name] = m
            if parent is not None:
                setattr(parent, name.rsplit('.', 1)[1], m)    # as `from parent import name` during a circular import
            if f is None:
                if not pkg:
                    del self.mods[name]
                    raise ImportError('no module named %r in %s' % (name, self.root))
            else:
                m.__file__ = f
                try:
                    exec(compiled(f), m.__dict__)
                except BaseException:
                    self.mods.pop(name, None)
                    raise
        if parent is not None:
            setattr(parent, name.rsplit('.', 1)[1], m)
        return m


_CODE = {}


def compiled(f):
    c = _CODE.get(f)
    if c is None:
        src = open(f, encoding='utf8').read()
        tree = ast.parse(src, f)
        tree = Rewrite().visit(tree)
        ast.fix_missing_locations(tree)
        c = _CODE[f] = compile(tree, f, 'exec', dont_inherit=True)
    return c

Loader.mod = Loader.load
