"""Stand-ins for numpy / math / scipy / builtins inside the symbolically executed modules.

Everything not redefined here falls through to the real library.  These definitions are the
*assumed contracts on dependencies* (listed in the evidence as trusted base)."""
import builtins as _b
import math as _math
import types
import numpy as np
from . import terms as tm
from . import arrays as ar
from . import explore
from .terms import T, Unsupported
from .arrays import SArr


class SList(object):
    """A Python list of symbolic length."""

    def __init__(self, n, bv, body):
        self.n, self.bv, self.body = tm.num(n), bv, body

    def __vc_len__(self):
        return self.n

    def at(self, i):
        return tm.substitute(self.body, {self.bv: tm.num(i)})

    def arr(self):
        return SArr((self.n,), (self.bv,), self.body)

    def __getitem__(self, ix):
        r = self.arr()[ix]
        if isinstance(r, SArr):
            n = tm.num(r._shape[0])
            if not n.is_const:
                n = known_length(n)
            if n.is_const and n.value <= 64:
                return [r.at(k) for k in range(int(n))]
            return SList(n, r.bvs[0], r.body)
        return r

    def append(self, x):
        r = concat_list(SList(self.n, self.bv, self.body), [x])
        self.__class__ = type(r)
        self.__dict__.update(r.__dict__)

    def __add__(self, o):
        return concat_list(self, o)

    def __radd__(self, o):
        return concat_list(o, self)

    def __iter__(self):
        raise Unsupported('iteration over a list of symbolic length')

    def __bool__(self):
        return bool(tm.gt(self.n, tm.const(0)))

    def __repr__(self):
        return 'SList(%s)[%s]' % (self.n, tm.show(self.body, 4))


def known_length(n):
    """the constant the normal form gives for n, if any"""
    p = explore.current()
    if p is None:
        return n
    try:
        q = p.x.smt.nz.norm(n)
    except Exception:
        return n
    if not q:
        return tm.const(0)
    if len(q) == 1 and () in q and q[()].denominator == 1:
        return tm.const(int(q[()]))
    return n


def _as_slist(x):
    if isinstance(x, SList):
        return x
    if isinstance(x, SArr):
        return SList(x._shape[0], x.bvs[0], x.body)
    x = list(x)
    bv = tm.bound('I', 'l')
    body = tm.const(0)
    for k in range(len(x) - 1, -1, -1):
        body = tm.num(x[k]) if k == len(x) - 1 else tm.ite(tm.eq(bv, tm.const(k)), tm.num(x[k]), body)
    return SList(tm.const(len(x)), bv, body)


def concat_list(a, b):
    a, b = _as_slist(a), _as_slist(b)
    if a.n.is_const and a.n.value == 0:
        return b
    if b.n.is_const and b.n.value == 0:
        return a
    bv = tm.bound('I', 'l')
    n = tm.add(a.n, b.n)
    p = explore.current()
    if p is not None:
        z = tm.const(0)
        if p.x.smt.nz.equal(a.n, z):
            return b
        if p.x.smt.nz.equal(b.n, z):
            return a
    return Cat(n, bv, tm.ite(tm.lt(bv, a.n), a.at(bv), b.at(tm.sub(bv, a.n))), a, b)


def _integer(c):
    if c.op in ('and', 'or', 'not'):
        return all(_integer(a) for a in c.args)
    return c.op in ('lt', 'le', 'eq') and all(a.sort == 'I' for a in c.args)


class Cat(SList):
    """a + b, with elements at a known distance from the joint read from the right part"""

    def __init__(self, n, bv, body, a, b):
        SList.__init__(self, n, bv, body)
        self.a, self.b = a, b

    def at(self, i):
        p = explore.current()
        if p is not None and self.a is not None:
            d = known_length(tm.sub(tm.num(i), self.a.n))
            if d.is_const:
                return self.a.at(i) if d.value < 0 else self.b.at(d)
            left = tm.lt(tm.num(i), self.a.n)
            ints = [c for c in p.pc if _integer(c)]
            if not p.x.smt.feasible(ints, tm.lnot(left)):
                return self.a.at(i)
            if not p.x.smt.feasible(ints, left):
                return self.b.at(tm.sub(tm.num(i), self.a.n))
        return SList.at(self, i)

    def append(self, x):
        r = concat_list(SList(self.n, self.bv, self.body) if self.a is None else Cat(self.n, self.bv, self.body, self.a, self.b), [x])
        self.n, self.bv, self.body, self.a, self.b = r.n, r.bv, r.body, getattr(r, 'a', None), getattr(r, 'b', None)


def symbolic(x):
    return isinstance(x, (T, SArr, SList))


def deep_symbolic(x):
    if symbolic(x):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(deep_symbolic(k) for k in x)
    return False


def unary(f):
    def g(x, *a, **k):
        if isinstance(x, SList):
            x = x.arr()
        if isinstance(x, SArr):
            return ar.unary(f, x)
        if isinstance(x, (list, tuple)):
            x = np.array([_lift(v) for v in x], dtype=object)
        if isinstance(x, np.ndarray):
            if x.shape == ():
                return f(tm.num(x.item()))
            return np.frompyfunc(lambda v: f(tm.num(v)), 1, 1)(x)
        return f(tm.num(x))
    return g


def binary(f):
    def g(x, y, *a, **k):
        if isinstance(x, SArr) or isinstance(y, SArr):
            return ar.elementwise(f, x, y)
        if isinstance(x, (np.ndarray, list)) or isinstance(y, (np.ndarray, list)):
            return ar.nd_elementwise(f, np.asarray(x, dtype=object) if isinstance(x, list) else x,
                                     np.asarray(y, dtype=object) if isinstance(y, list) else y)
        return ar._scalar2(f, x, y)
    return g


def _lift(v):
    if isinstance(v, bool) or isinstance(v, np.bool_):
        return v
    if tm.is_num(v):
        return tm.num(v)
    return v


def _max(a, b):
    return tm.ite(tm.ge(a, b), a, b)


def _min(a, b):
    return tm.ite(tm.le(a, b), a, b)


def _fill(v):
    def make(shape, dtype=None, **kw):
        if isinstance(dtype, list):
            if isinstance(shape, T) and not shape.is_const:
                return ar.SRec(shape, dict((d[0], SArr.make((shape,), lambda i: tm.const(tm.F0))) for d in dtype))
            return _structured(shape, dtype)
        if dtype is not None and not _plain(dtype):
            return getattr(np, 'zeros')(shape, dtype=dtype)
        if isinstance(shape, tuple) and any(isinstance(s, T) and not s.is_const for s in shape):
            return SArr.make(tuple(tm.num(s) for s in shape), lambda *i: tm.const(tm.Fraction(v)))
        if isinstance(shape, T):
            if shape.is_const:
                shape = int(shape)
            else:
                return SArr.make((shape,), lambda i: tm.const(tm.Fraction(v)))
        if isinstance(shape, tuple):
            shape = tuple(int(s) for s in shape)
        r = np.empty(shape, dtype=object)
        r[...] = tm.const(tm.Fraction(v))
        return r
    return make


def _plain(dtype):
    return dtype in (float, np.float_, object, int, np.float64, 'f8', 'float') or dtype is FloatShim


def _array(x, dtype=None, copy=True, **kw):
    if isinstance(x, SArr):
        return x.copy()
    if isinstance(x, SList):
        return x.arr().copy()
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, T):
        return ar._box(x)
    if isinstance(x, types.GeneratorType):
        x = list(x)
    if isinstance(x, (list, tuple)):
        if any(isinstance(v, (SArr, SList)) for v in x):
            if all(isinstance(v, SArr) and v.ndim == 1 for v in x):
                return ar.Rows(x)
            raise Unsupported('array of symbolic arrays')
        if len(x) and all(isinstance(v, (list, tuple, np.ndarray)) for v in x):
            rows = [_array(v) for v in x]
            if len(set(r.shape for r in rows)) == 1:
                r = np.empty((len(rows),) + rows[0].shape, dtype=object)
                for i, v in enumerate(rows):
                    r[i] = v
                return r
        if all(isinstance(v, (int, np.integer)) and not isinstance(v, bool) for v in x) and len(x):
            return np.array(x)
        if any(isinstance(v, str) for v in x):
            return np.array(x)
        r = np.empty(len(x), dtype=object)
        for i, v in enumerate(x):
            r[i] = _lift(v)
        return r
    return np.array(x, dtype=object)


def _where(c, *ab):
    if not ab:
        if isinstance(c, SArr):
            raise Unsupported('numpy.where(condition)')
        c = np.array([bool(v) for v in np.asarray(c, dtype=object)])
        return np.where(c)
    a, b = ab
    if isinstance(c, SArr):
        av = (lambda *i: a.at(*i)) if isinstance(a, SArr) else (lambda *i: tm.num(a))
        bv = (lambda *i: b.at(*i)) if isinstance(b, SArr) else (lambda *i: tm.num(b))
        return SArr.make(c._shape, lambda *i: tm.ite(c.at(*i), av(*i), bv(*i)))
    if isinstance(c, np.ndarray):
        return np.frompyfunc(lambda x, y, z: tm.ite(tm.boolean(x), tm.num(y), tm.num(z)), 3, 1)(
            c, a if isinstance(a, np.ndarray) else ar._box(a), b if isinstance(b, np.ndarray) else ar._box(b))
    return tm.ite(tm.boolean(c), a, b)


def _append(a, b, axis=None):
    if any(isinstance(v, (SArr, SList)) for v in (a, b)):
        a = [a] if isinstance(a, T) or tm.is_num(a) else a
        b = [b] if isinstance(b, T) or tm.is_num(b) else b
        return concat_list(a, b).arr()
    fl = lambda v: list(v) if isinstance(v, (list, tuple, np.ndarray)) and getattr(v, 'shape', (1,)) != () else [v]
    return _array([_lift(k) for k in fl(a) + fl(b)])


def _concatenate(seq, axis=0):
    seq = list(seq)
    r = seq[0]
    for s in seq[1:]:
        r = _append(r, s)
    return r


def _repeat(v, n, axis=None):
    if isinstance(n, T) and not n.is_const:
        if not (isinstance(v, T) or tm.is_num(v)):
            raise Unsupported('repeat of an array')
        return SArr.make((n,), lambda i: tm.num(v))
    return _array([v] * int(n))


def _arange(*a, **kw):
    a = list(a)
    if len(a) == 1:
        a = [0, a[0]]
    step = a[2] if len(a) > 2 else kw.get('step', 1)
    if any(isinstance(v, T) and not v.is_const for v in a):
        if int(step) != 1:
            raise Unsupported('arange step')
        n = tm.sub(tm.num(a[1]), tm.num(a[0]))
        if n.sort != 'I':
            raise Unsupported('arange with a real length')
        return SArr.make((n,), lambda i: tm.add(tm.num(a[0]), i))
    vals = []
    k = tm.num(a[0])
    while tm.lt(k, tm.num(a[1])).op == 'true':
        vals.append(k)
        k = tm.add(k, tm.num(step))
    r = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        r[i] = v
    return r


def _linspace(a, b, num=50, endpoint=True, **kw):
    a, b = tm.num(a), tm.num(b)
    den = (lambda n: tm.sub(tm.num(n), tm.const(1))) if endpoint else (lambda n: tm.num(n))
    if isinstance(num, T) and not num.is_const:
        if num.sort != 'I':
            raise TypeError("'float' object cannot be interpreted as an integer")
        return SArr.make((num,), lambda i: tm.add(a, tm.mul(i, tm.div(tm.sub(b, a), den(num)))))
    if isinstance(num, T):
        if num.sort != 'I':
            raise TypeError("'float' object cannot be interpreted as an integer")
        num = int(num)
    if not isinstance(num, (int, np.integer)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    r = np.empty(num, dtype=object)
    for i in range(num):
        r[i] = a if num == 1 else tm.add(a, tm.mul(tm.const(tm.Fraction(i, num - 1 if endpoint else num)), tm.sub(b, a)))
    return r


def _meshgrid(x, y, **kw):
    if isinstance(x, SArr) and isinstance(y, SArr):
        n, m = x._shape[0], y._shape[0]
        return [SArr.make((m, n), lambda i, j: x.at(j)), SArr.make((m, n), lambda i, j: y.at(i))]
    return np.meshgrid(x, y, **kw)


class Vectorize(object):
    """numpy.vectorize: pointwise application."""

    def __init__(self, f=None, otypes=None, **kw):
        self.pyfunc = f
        self.__name__ = getattr(f, '__name__', 'vectorized')
        self.__doc__ = getattr(f, '__doc__', None)

    def __call__(self, *args):
        f = self.pyfunc
        args = [a.arr() if isinstance(a, SList) else a for a in args]
        sa = [a for a in args if isinstance(a, SArr)]
        if sa:
            s0 = sa[0]
            for s in sa[1:]:
                if s.ndim != s0.ndim or not all(ar.same(n, m) for n, m in zip(s._shape, s0._shape)):
                    raise Unsupported('vectorize over different shapes')
            return SArr.make(s0._shape, lambda *i: f(*[a.at(*i) if isinstance(a, SArr) else a for a in args]))
        if any(isinstance(a, (np.ndarray, list, tuple)) for a in args):
            arrs = [np.asarray(a, dtype=object) if isinstance(a, (list, tuple, np.ndarray)) else ar._box(a) for a in args]
            return np.frompyfunc(lambda *v: f(*v), len(arrs), 1)(*arrs)
        return f(*args)


def _sum(x, axis=None, **kw):
    if isinstance(x, SList):
        x = x.arr()
    if isinstance(x, SArr):
        return ar.vsum(x)
    if isinstance(x, (list, tuple)) and any(isinstance(v, SArr) for v in x):
        x = _array(x)
    if isinstance(x, ar.Rows):
        return x.total(axis)
    if axis is not None and isinstance(x, np.ndarray) and x.ndim > 1:
        return np.sum(x, axis=axis)
    tot = tm.const(0)
    for v in np.asarray(list(x), dtype=object).ravel():
        tot = tm.add(tot, tm.num(v))
    return tot


def _dot(a, b):
    if isinstance(a, SArr) or isinstance(b, SArr):
        return ar.vdot(a, b)
    return np.dot(a, b)


def _all(x, **kw):
    if isinstance(x, SArr):
        return bool(ar.vall(x))
    if isinstance(x, T):
        return bool(x)
    return all(bool(v) for v in np.ravel(np.asarray(x, dtype=object)))


def _any(x, **kw):
    if isinstance(x, SArr):
        return bool(ar.vany(x))
    if isinstance(x, T):
        return bool(x)
    return any(bool(v) for v in np.ravel(np.asarray(x, dtype=object)))


# Elements of arrays declared with `v.rates` may be undefined (nan) or infinite: predicates over the index. Everything else is a
# finite real.
def _undefined(what):
    def elem(t):
        declared = getattr(explore.current(), 'undefined', None)
        if not declared or not isinstance(t, T):
            return tm.FALSE
        if t.op == 'fn' and t.args[0] in declared:
            nan = tm.gt(tm.fn('nan.' + t.args[0], *t.args[1:]), tm.const(0))
            inf = tm.land(tm.lnot(nan), tm.gt(tm.fn('inf.' + t.args[0], *t.args[1:]), tm.const(0))) if 'inf' in declared[t.args[0]] else tm.FALSE
            return {'nan': nan, 'inf': inf, 'either': tm.lor(nan, inf)}[what]
        if t.op == 'ite':
            return tm.ite(t.args[0], elem(t.args[1]), elem(t.args[2]))
        if any(a for a in declared if mentions(t, a)):
            raise Unsupported('isnan/isfinite of an expression of possibly undefined values')
        return tm.FALSE
    return elem


def mentions(t, name):
    if not isinstance(t, T):
        return False
    if t.op == 'fn' and t.args[0] == name:
        return True
    return any(mentions(a, name) for a in t.args)


def _truth(v, what='nan'):
    elem = _undefined(what)

    def g(x, *a, **k):
        if getattr(explore.current(), 'undefined', None):
            neg = tm.lnot if v else (lambda c: c)
            if isinstance(x, SArr) and isinstance(x.body, T):
                return SArr(x._shape, x.bvs, neg(elem(x.body)), x.mask)
            if isinstance(x, T):
                return neg(elem(x))
        if isinstance(x, SArr):
            return SArr(x._shape, x.bvs, tm.TRUE if v else tm.FALSE, x.mask)
        if isinstance(x, np.ndarray):
            return np.full(x.shape, v)
        if isinstance(x, float) and not isinstance(x, T):
            return {'isfinite': True}.get('isfinite') if v else (x != x)
        return v
    return g


def _amax(x, *a, **k):
    if isinstance(x, (SArr, SList)):
        raise Unsupported('max of a symbolic array')
    return smax(*[v for v in np.ravel(x)])


def _amin(x, *a, **k):
    if isinstance(x, (SArr, SList)):
        raise Unsupported('min of a symbolic array')
    return smin(*[v for v in np.ravel(x)])


def _transpose(a, axes=None):
    if isinstance(a, SArr):
        return a.T
    return np.transpose(a)


def _cumsum(a, *k):
    if isinstance(a, SArr):
        raise Unsupported('cumsum')
    out, t = [], tm.const(0)
    for v in a:
        t = tm.add(t, tm.num(v))
        out.append(t)
    return _array(out)


def _power(a, b):
    return binary(tm.power)(a, b)


def gauss_rule(kind):
    """points and weights of a Gauss rule: real numbers depending on the order (nothing else is assumed)"""
    def rule(n):
        n = tm.num(n)
        nm = kind + 'gauss'
        return (SArr.make((n,), lambda i: tm.fn(nm + '.x', n, i)), SArr.make((n,), lambda i: tm.fn(nm + '.w', n, i)))
    return rule


_poly = types.SimpleNamespace(legendre=types.SimpleNamespace(leggauss=gauss_rule('leg')),
                              laguerre=types.SimpleNamespace(laggauss=gauss_rule('lag')))


def _structured(shape, dtype):
    r = np.zeros(int(shape) if isinstance(shape, T) else shape, dtype=[(d[0], object) for d in dtype])
    for d in dtype:
        r[d[0]] = tm.const(tm.F0)
    return r


def _savetxt(f, x, **k):
    """what is to be written, for `v.saved`; how a table becomes text is numpy's business"""
    explore.current().__dict__.setdefault('saved', []).append((f, x.copy() if hasattr(x, 'copy') else x, k))


class NumpyShim(types.ModuleType):
    def __init__(self, name='numpy'):
        types.ModuleType.__init__(self, name)
        d = self.__dict__
        d.update(
            sqrt=unary(tm.sqrt), exp=unary(tm.exp), log=unary(tm.log),
            sin=unary(lambda a: tm.fn('sin', tm.to_real(a))), cos=unary(lambda a: tm.fn('cos', tm.to_real(a))),
            absolute=unary(tm.absolute), abs=unary(tm.absolute), fabs=unary(tm.absolute),
            square=unary(lambda a: tm.mul(a, a)), floor=unary(tm.floor),
            log10=unary(lambda a: tm.div(tm.log(a), tm.log(tm.const(10)))),
            expm1=unary(lambda a: tm.sub(tm.exp(a), tm.const(1))),
            log1p=unary(lambda a: tm.log(tm.add(tm.const(1), a))),
            reciprocal=unary(lambda a: tm.div(tm.const(1), a)),
            negative=unary(lambda a: tm.mul(tm.const(-1), a)),
            cosh=unary(lambda a: tm.div(tm.add(tm.exp(a), tm.exp(tm.mul(tm.const(-1), a))), tm.const(2))),
            pi=tm.PI, inf=float('inf'), nan=float('nan'),
            maximum=binary(_max), minimum=binary(_min), power=_power, multiply=binary(tm.mul),
            add=binary(tm.add), subtract=binary(tm.sub), divide=binary(tm.div), true_divide=binary(tm.div),
            hypot=binary(lambda a, b: tm.sqrt(tm.add(tm.mul(a, a), tm.mul(b, b)))),
            logical_and=binary(tm.land), logical_or=binary(tm.lor), logical_not=unary(tm.lnot),
            greater=binary(tm.gt), less=binary(tm.lt),
            zeros=_fill(0), ones=_fill(1), empty=_fill(0),
            zeros_like=lambda a, **k: a * 0 if not isinstance(a, SArr) else SArr(a._shape, a.bvs, tm.const(tm.F0)),
            ones_like=lambda a, **k: a * 0 + 1,
            full=lambda n, v, **k: _fill(1)(n) * v,
            array=_array, asarray=lambda x, **k: x if isinstance(x, (np.ndarray, SArr)) else _array(x),
            where=_where, append=_append, concatenate=_concatenate, hstack=_concatenate, repeat=_repeat,
            arange=_arange, linspace=_linspace, meshgrid=_meshgrid, vectorize=Vectorize,
            sum=_sum, dot=_dot, all=_all, any=_any, amax=_amax, amin=_amin, max=_amax, min=_amin,
            isfinite=_truth(True, 'either'), isnan=_truth(False, 'nan'), isinf=_truth(False, 'inf'),
            searchsorted=ar.searchsorted, transpose=_transpose, cumsum=_cumsum,
            copy=lambda a: a.copy(), resize=ar.resize, delete=ar.delete, float_=FloatShim, float64=FloatShim,
            seterr=lambda **k: {}, polynomial=_poly, savetxt=_savetxt,
            arctan=unary(lambda a: tm.fn('arctan', tm.to_real(a))), nan_to_num=lambda a, **k: a,
        )

    def __getattr__(self, name):
        return getattr(np, name)


# ------------------------------------------------------------------------------ builtins

class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or (isinstance(x, T) and x.sort == 'R')

    def __call__(cls, x=0.0):
        if isinstance(x, T):
            return tm.to_real(tm.num(x))
        if isinstance(x, np.ndarray) and x.shape in ((), (1,)):
            return cls(x.item())
        if isinstance(x, SArr):
            raise Unsupported('float(array)')
        if isinstance(x, tm.TStr):
            return tm.to_real(x.term)
        if isinstance(x, str):
            v = float(x)
            return tm.const(v) if _math.isfinite(v) else v
        if isinstance(x, float) and not _math.isfinite(x):
            return x
        return tm.to_real(tm.num(x))


class FloatShim(metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or (isinstance(x, T) and x.sort == 'I')

    def __call__(cls, x=0, *base):
        if base:
            return int(x, *base)
        if isinstance(x, T):
            r = tm.trunc(x)
            return int(r) if r.is_const else r
        if isinstance(x, np.ndarray) and x.shape in ((), (1,)):
            return cls(x.item())
        if isinstance(x, tm.TStr):
            # int() of text is the integer itself and refuses anything else
            if x.term.sort == 'I':
                return int(x.term) if x.term.is_const else x.term
            if not x.term.is_const or x.term.value.denominator != 1:
                raise ValueError('invalid literal for int(): %s' % x)
            return int(x.term)
        return int(x)


class IntShim(metaclass=_IntMeta):
    pass


def slen(x):
    if hasattr(type(x), '__vc_len__'):
        n = x.__vc_len__()
        if isinstance(n, T) and n.is_const:
            return int(n)
        return n
    f = getattr(type(x), '__len__', None)
    if isinstance(f, types.FunctionType):        # a __len__ written in Python may return a term
        n = f(x)
        return int(n) if isinstance(n, T) and n.is_const else n
    return _b.len(x)


def smul(a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, (list, tuple)) and any(isinstance(v, SArr) for v in x) and isinstance(y, (np.ndarray, ar.Rows)):
            return _array(x) * y if x is a else y * _array(x)
    if isinstance(a, np.ndarray) and isinstance(b, ar.Rows):
        return b * a
    return a * b


def ssum(x, start=0):
    if isinstance(x, (SArr, SList)):
        return start + _sum(x)
    if hasattr(x, '__vc_sum__'):
        return x.__vc_sum__(start)
    return _b.sum(x, start)


def smax(*a, **k):
    if k:
        return _b.max(*a, **k)
    if len(a) == 1:
        if isinstance(a[0], (SArr, SList)):
            raise Unsupported('max of a symbolic array')
        a = list(a[0])
    if not any(symbolic(v) for v in a):
        return _b.max(a)
    r = a[0]
    for v in a[1:]:
        if isinstance(r, T) or isinstance(v, T):
            if bool(tm._cmp(tm.gt, v, r)):
                r = v
        else:
            r = _b.max(r, v)
    return r


def smin(*a, **k):
    if k:
        return _b.min(*a, **k)
    if len(a) == 1:
        if isinstance(a[0], (SArr, SList)):
            raise Unsupported('min of a symbolic array')
        a = list(a[0])
    if not any(symbolic(v) for v in a):
        return _b.min(a)
    r = a[0]
    for v in a[1:]:
        if isinstance(r, T) or isinstance(v, T):
            if bool(tm._cmp(tm.lt, v, r)):
                r = v
        else:
            r = _b.min(r, v)
    return r


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (list, SList))

    def __call__(cls, x=()):
        if isinstance(x, SArr):
            if x.mask is not None:
                raise Unsupported('list of a masked array')
            if tm.num(x._shape[0]).is_const:
                return [x[i] for i in range(int(tm.num(x._shape[0])))]
            if x.ndim != 1:
                raise Unsupported('list of the rows of a symbolic table')
            return SList(x._shape[0], x.bvs[0], x.body)
        if isinstance(x, SList):
            return SList(x.n, x.bv, x.body)
        if hasattr(x, '__vc_list__'):
            return x.__vc_list__()
        return list(x)


class ListShim(metaclass=_ListMeta):
    pass


def srange(*a):
    a = [int(v) if isinstance(v, T) and v.is_const else v for v in a]
    if any(isinstance(v, T) for v in a):
        return SymRange(*a)
    return range(*a)


class SymRange(object):
    def __init__(self, *a):
        self.lo, self.hi = (0, a[0]) if len(a) == 1 else a[:2]
        if len(a) > 2 and a[2] != 1:
            raise Unsupported('symbolic range with a step')

    def __iter__(self):
        raise Unsupported('iteration over a range of symbolic length')

    def __vc_iter__(self):
        n = tm.sub(tm.num(self.hi), tm.num(self.lo))
        lo = tm.num(self.lo)
        return n, lambda i: tm.add(lo, i)


def sany(x):
    if isinstance(x, SArr):
        return bool(ar.vany(x))
    return _b.any(x)


def sall(x):
    if isinstance(x, SArr):
        return bool(ar.vall(x))
    return _b.all(x)


def sdiv(a, b):
    if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool):
        if b == 0:
            raise ZeroDivisionError('division by zero')
        return tm.const(tm.Fraction(a, b), 'R')
    return a / b


def spow(a, b):
    if isinstance(a, int) and isinstance(b, int) and b < 0:
        return tm.const(tm.Fraction(a) ** b, 'R')
    if isinstance(a, int) and isinstance(b, T) or isinstance(a, T):
        if isinstance(b, float) and not isinstance(b, T):
            b = tm.const(b)
        return tm._arith(tm.power, a, b)
    return a ** b


def lit(s):
    v = float(s)
    if not _math.isfinite(v):
        return v
    return tm.const(tm.Fraction(s), 'R')


class MathShim(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'math')
        self.__dict__.update(
            sqrt=lambda x: tm.sqrt(x), exp=lambda x: tm.exp(x), log=lambda x, *b: tm.log(x),
            sin=lambda x: tm.fn('sin', tm.to_real(tm.num(x))), cos=lambda x: tm.fn('cos', tm.to_real(tm.num(x))),
            pi=tm.PI, fabs=lambda x: tm.absolute(x), pow=lambda a, b: spow(a, b),
            inf=float('inf'), nan=float('nan'), isnan=lambda x: False, isfinite=lambda x: True, isinf=lambda x: False,
            floor=lambda x: tm.floor(x), hypot=lambda a, b: tm.sqrt(a * a + b * b),
            expm1=lambda x: tm.exp(x) - 1)

    def __getattr__(self, n):
        return getattr(_math, n)


# ------------------------------------------------------------------------------ more builtins

class _FiltSeq(object):
    pass


def szip(*its):
    from . import loops
    if any(loops.is_symbolic(i) for i in its):
        sym = [i for i in its if loops.is_symbolic(i)]
        ns = [loops.seq(i)[0] for i in sym]
        if all(n.is_const for n in ns):
            m = _b.min([int(n) for n in ns])
            cols = []
            for i in its:
                if loops.is_symbolic(i):
                    f = loops.seq(i)[1]
                    cols.append([f(tm.const(k)) for k in range(int(loops.seq(i)[0]))])
                else:
                    cols.append(i)
            return zip(*cols)
        return loops.Zip(*its)
    return zip(*its)


def senumerate(it, start=0):
    from . import loops
    if loops.is_symbolic(it):
        return loops.Enum(it, start)
    return enumerate(it, start)


def sabs(x):
    return abs(x)


def ssorted(it, **k):
    from . import loops
    if loops.is_symbolic(it):
        raise Unsupported('sorted() of a symbolic sequence')
    return _b.sorted(it, **k)


def sin_(x, c):
    """`x in c`"""
    if isinstance(c, SArr):
        return bool(ar.vany(SArr(c._shape, c.bvs, tm.eq(tm.num(c.body), tm.num(x)))))
    if isinstance(c, SList):
        return sin_(x, c.arr())
    if isinstance(c, np.ndarray) and c.dtype == object:
        return any(bool(tm._cmp(tm.eq, v, x)) for v in c.ravel())
    if isinstance(c, (list, tuple)) and (isinstance(x, T) or any(isinstance(v, T) for v in c)):
        return any(bool(v == x) for v in c)
    return x in c


def concretise(i, lo, hi, exc=IndexError):
    """case split: the value of the integer term i in [lo, hi]"""
    if not isinstance(i, T):
        return i
    if i.is_const:
        return int(i)
    i = known_length(i)
    if i.is_const:
        return int(i)
    if hi - lo > 600:
        raise Unsupported('case split over %d indices' % (hi - lo))
    for k in range(lo, hi + 1):
        if bool(tm.eq(i, tm.const(k))):
            return k
    raise exc('index out of range')


def getitem(o, key):
    """o[key] with symbolic keys resolved by case split where the container is concrete"""
    if isinstance(key, slice) and any(isinstance(k, T) for k in (key.start, key.stop, key.step)):
        if isinstance(o, (list, tuple, np.ndarray, str)):
            n = len(o)

            def cl(k):
                if not isinstance(k, T):
                    return k
                k = known_length(k)
                if k.is_const:
                    return int(k)
                if bool(tm.gt(k, tm.const(n))):
                    return n
                if bool(tm.lt(k, tm.const(-n))):
                    return -n
                return concretise(k, -n, n)
            key = slice(cl(key.start), cl(key.stop), cl(key.step))
        return o[key]
    if isinstance(key, T):
        if isinstance(o, dict):
            for k in o:
                if isinstance(k, (int, float)) and not isinstance(k, bool) or isinstance(k, T):
                    if k is key or bool(tm._cmp(tm.eq, key, k)):
                        return o[k]
            raise KeyError(key)
        if isinstance(o, (list, tuple, range)) or isinstance(o, np.ndarray):
            n = len(o)
            return o[concretise(key, -n, n - 1)]
    return o[key]


def sisinstance(x, cls):
    return isinstance(x, cls)


def stuple(x=()):
    return tuple(x)


def sround(x, n=None):
    return _b.round(x) if n is None else _b.round(x, n)


class _TypeMeta(type):
    """type(x) agrees with the shimmed int / float / list"""

    def __instancecheck__(cls, x):
        return isinstance(x, type)

    def __call__(cls, *a, **k):
        if len(a) == 1:
            x = a[0]
            if isinstance(x, bool):
                return bool
            if isinstance(x, T):
                return {'I': IntShim, 'R': FloatShim}.get(x.sort, bool)
            return {int: IntShim, float: FloatShim, list: ListShim}.get(type(x), type(x))
        return type(*a, **k)


class TypeShim(metaclass=_TypeMeta):
    pass


BUILTINS = dict(type=TypeShim, len=slen, sum=ssum, max=smax, min=smin, range=srange, float=FloatShim, int=IntShim, list=ListShim,
                any=None, all=None, zip=szip, enumerate=senumerate, sorted=ssorted, abs=sabs)


def _sany(x):
    from . import loops
    if isinstance(x, loops.MapSeq):
        return bool(x.quantify('any'))
    return sany(x)


def _sall(x):
    from . import loops
    if isinstance(x, loops.MapSeq):
        return bool(x.quantify('all'))
    return sall(x)


BUILTINS['any'] = _sany
BUILTINS['all'] = _sall

def _arr_iter(self):
    a = self if isinstance(self, SArr) else self.arr()
    if a.ndim != 1 or a.mask is not None:
        raise Unsupported('iteration over a masked / 2-D symbolic array')
    return a._shape[0], lambda k: a.at(k)


SArr.__vc_iter__ = _arr_iter
SList.__vc_iter__ = _arr_iter


class ScipyShim(types.ModuleType):
    def __init__(self, loader):
        types.ModuleType.__init__(self, 'scipy')
        self.integrate = types.ModuleType('scipy.integrate')
        self.integrate.simps = self.integrate.simpson = ar.simps
        self.integrate.quad = _quad
        self.integrate.trapz = _trapz

    def __getattr__(self, n):
        import scipy
        return getattr(scipy, n)


def _trapz(y, x=None, **kw):
    raise Unsupported('trapz')


def _quad(f, a, b, **kw):
    """opaque linear functional of the integrand"""
    x = tm.bound('R', 'q')
    body = explore.merged(lambda: tm.num(f(x)))
    return tm.red('quad', x, tm.to_real(body), tm.to_real(tm.num(a)), tm.to_real(tm.num(b))), tm.fn('quaderr')


class OsShim(types.ModuleType):
    def __init__(self, env):
        types.ModuleType.__init__(self, 'os')
        self.environ = env
        self.getenv = lambda k, d=None: env.get(k, d)

    def __getattr__(self, n):
        import os
        if n in ('remove', 'unlink', 'rmdir', 'rename', 'system', 'kill', 'makedirs', 'mkdir'):
            raise Unsupported('os.%s in symbolic execution' % n)
        return getattr(os, n)
