"""Arrays of symbolic length: (shape, bound index variables, element term).

A concrete-length numpy array of terms stays a real numpy object array; SArr is only for arrays
whose length is a term, so a fact proved about an element at the bound index holds for every index
and every length.
"""
import numpy as np
from . import terms as tm
from . import explore
from .terms import T, Unsupported


def nd_elementwise(f, a, b):
    g = np.frompyfunc(lambda x, y: _scalar2(f, x, y), 2, 1)
    r = g(a if isinstance(a, np.ndarray) else _box(a), b if isinstance(b, np.ndarray) else _box(b))
    return r


def _box(x):
    r = np.empty((), dtype=object)
    r[()] = x
    return r


def _scalar2(f, x, y):
    if f in (tm.land, tm.lor, tm.lxor):
        return f(tm.boolean(x), tm.boolean(y))
    return f(tm.num(x), tm.num(y))


def same(n, m):
    if n is m:
        return True
    n, m = tm.num(n), tm.num(m)
    if n is m:
        return True
    e = tm.eq(n, m)
    if e.op == 'true':
        return True
    if e.op == 'false':
        return False
    p = explore.current()
    if p is not None and p.x.smt.nz.equal(n, m):
        return True
    return bool(e)


class SArr(object):
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, shape, bvs, body, mask=None, name=None):
        self._shape = tuple(shape)
        self.bvs = tuple(bvs)
        self.body = body
        self.mask = mask
        self.name = name
        self.parent = None      # views write through: (array, function(new view) -> None)

    # ------------------------------------------------------------------ construction
    @staticmethod
    def make(shape, f, mask=None):
        if not isinstance(shape, tuple):
            shape = (shape,)
        bvs = tuple(tm.bound('I', 'i') for _ in shape)
        body = explore.merged(lambda: f(*bvs))
        return SArr(shape, bvs, lift(body), mask)

    def at(self, *idx):
        return tm.substitute(self.body, dict(zip(self.bvs, [tm.num(i) for i in idx])))

    def maskat(self, *idx):
        if self.mask is None:
            return tm.TRUE
        return self.mask.at(*idx)

    @property
    def shape(self):
        return self._shape

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        if len(self._shape) != 1:
            raise Unsupported('size of a 2-D symbolic array')
        return self._shape[0]

    @property
    def T(self):
        if self.ndim == 1:
            return self
        return SArr(tuple(reversed(self._shape)), tuple(reversed(self.bvs)), self.body)

    @property
    def dtype(self):
        return np.dtype(object)

    def __vc_len__(self):
        return self._shape[0]

    def __len__(self):
        n = self._shape[0]
        if isinstance(n, int):
            return n
        if n.is_const:
            return int(n)
        raise Unsupported('len() of a symbolic array through the C protocol')

    def copy(self):
        return SArr(self._shape, self.bvs, self.body, self.mask)

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, *a, **k):
        return self.copy()

    def tolist(self):
        return self

    def flatten(self):
        if self.ndim == 1:
            return self.copy()
        raise Unsupported('flatten')

    def sum(self, axis=None):
        return vsum(self)

    def any(self):
        return vany(self)

    def all(self):
        return vall(self)

    def dot(self, o):
        return vdot(self, o)

    def __iter__(self):
        n = tm.num(self._shape[0])
        if n.is_const and self.mask is None:
            return iter([self[i] for i in range(int(n))])
        raise Unsupported('iteration over an array of symbolic length')

    def __bool__(self):
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def __contains__(self, x):
        raise Unsupported('membership in a symbolic array')

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return 'SArr%s[%s]' % (self._shape, tm.show(self.body, 5))

    __format__ = lambda self, spec: repr(self)

    # ------------------------------------------------------------------ indexing
    def __getitem__(self, ix):
        if isinstance(ix, tuple):
            if self.ndim == 1 and len(ix) == 2 and ix.count(None) == 1:
                bv = tm.bound('I', 'z')
                if ix[0] is None:
                    base = self[ix[1]]
                    return SArr((1,) + base._shape, (bv,) + base.bvs, base.body)
                base = self[ix[0]]
                return SArr(base._shape + (1,), base.bvs + (bv,), base.body)
            if len(ix) == self.ndim and all(not isinstance(i, slice) for i in ix):
                return self.at(*[self._ix(i, k) for k, i in enumerate(ix)])
            if len(ix) == self.ndim == 2 and isinstance(ix[0], slice):
                r = self[ix[0]]
                if ix[1] == slice(None):
                    return r
                if isinstance(ix[1], slice):
                    return r.T[ix[1]].T
                j = self._ix(ix[1], 1)
                return SArr.make(r._shape[:1], lambda i: r.at(i, j))
            if len(ix) == self.ndim == 2 and isinstance(ix[1], slice):
                return self[ix[0]][ix[1]]
            if len(ix) == 1:
                return self[ix[0]]
            raise Unsupported('array index %r' % (ix,))
        if isinstance(ix, slice):
            lo, n, step = self._slice(ix)
            k = lambda i: tm.add(lo, tm.mul(tm.const(step), i))
            r = SArr.make((n,) + self._shape[1:], lambda i, *js: self.at(k(i), *js))

            def back(view):
                if step != 1:
                    raise Unsupported('writing to a reversed view')
                b = self.bvs
                inside = tm.land(tm.le(lo, b[0]), tm.lt(b[0], tm.add(lo, n)))
                self.body = tm.ite(inside, view.at(tm.sub(b[0], lo), *b[1:]), self.body)
                self._written()
            r.parent = back
            return r
        if isinstance(ix, SArr):
            if ix.body.sort == 'B':
                return SArr(self._shape, self.bvs, self.body, mask=ix)
            return SArr.make(ix._shape, lambda *i: self.at(ix.at(*i)))
        if isinstance(ix, np.ndarray):
            return np.frompyfunc(lambda k: self[k], 1, 1)(ix)
        if self.ndim == 1:
            return self.at(self._ix(ix, 0))
        i = self._ix(ix, 0)
        r = SArr.make(self._shape[1:], lambda *js: self.at(i, *js))

        def back(view):
            b = self.bvs
            self.body = tm.ite(tm.eq(b[0], i), view.at(*b[1:]), self.body)
            self._written()
        r.parent = back
        return r

    def _written(self):
        if self.parent is not None:
            self.parent(self)

    def _ix(self, i, dim):
        n = tm.num(self._shape[dim])
        i = tm.num(i)
        if tm.lt(i, tm.const(0)):
            i = tm.add(n, i)
        if not tm.land(tm.le(tm.const(0), i), tm.lt(i, n)):
            raise IndexError('index out of bounds')
        return i

    def _slice(self, s):
        n = tm.num(self._shape[0])
        step = 1 if s.step is None else int(s.step)
        if step not in (1, -1):
            raise Unsupported('slice step %r' % step)
        lo_lim = tm.const(0) if step > 0 else tm.const(-1)
        hi_lim = n if step > 0 else tm.sub(n, tm.const(1))

        def clamp(v, default):
            if v is None:
                return default
            v = tm.num(v)
            if tm.lt(v, tm.const(0)):
                v = tm.add(v, n)
                if tm.lt(v, lo_lim):
                    return lo_lim
                return v
            if tm.gt(v, hi_lim):
                return hi_lim
            return v
        if step > 0:
            a, b = clamp(s.start, tm.const(0)), clamp(s.stop, n)
            if tm.le(b, a):
                return a, tm.const(0), 1
            return a, tm.sub(b, a), 1
        a, b = clamp(s.start, tm.sub(n, tm.const(1))), clamp(s.stop, tm.const(-1))
        if tm.le(a, b):
            return a, tm.const(0), -1
        return a, tm.sub(a, b), -1

    def __setitem__(self, ix, val):
        self._set(ix, val)
        self._written()

    def _set(self, ix, val):
        if isinstance(ix, SArr) and ix.body.sort == 'B' and self.ndim == 1:
            bv = self.bvs[0]
            new = val.at(bv) if isinstance(val, SArr) else tm.num(val)
            self.body = tm.ite(ix.at(bv), new, self.body)
            return
        if isinstance(ix, slice) and ix == slice(None) and self.ndim == 1:
            new = elementwise(tm.add, SArr(self._shape, self.bvs, tm.const(0)), val)
            self.bvs, self.body = new.bvs, new.body
            return
        if isinstance(ix, slice) and self.ndim == 1:
            lo, n, step = self._slice(ix)
            if step != 1:
                raise Unsupported('reversed slice assignment')
            bv = self.bvs[0]
            k = tm.sub(bv, lo)
            new = val.at(k) if isinstance(val, SArr) else tm.num(val)
            inside = tm.land(tm.le(lo, bv), tm.lt(bv, tm.add(lo, n)))
            self.body = tm.ite(inside, new, self.body)
            return
        if not isinstance(ix, (slice, tuple)) and self.ndim == 1:
            i = self._ix(ix, 0)
            self.body = tm.ite(tm.eq(self.bvs[0], i), tm.num(val), self.body)
            return
        if not isinstance(ix, (slice, tuple)) and self.ndim == 2 and not isinstance(ix, SArr):
            row = self[ix]
            row[:] = val
            return
        if isinstance(ix, tuple) and len(ix) == self.ndim == 2 and not any(isinstance(k, (slice, SArr)) for k in ix):
            i, j = self._ix(ix[0], 0), self._ix(ix[1], 1)
            self.body = tm.ite(tm.land(tm.eq(self.bvs[0], i), tm.eq(self.bvs[1], j)), tm.num(val), self.body)
            return
        if isinstance(ix, tuple) and len(ix) == self.ndim == 2 and ix[1] == slice(None) and not isinstance(ix[0], (slice, SArr)):
            row = self[ix[0]]
            row[:] = val
            return
        raise Unsupported('array assignment')

    # ------------------------------------------------------------------ operators
    def __add__(s, o): return elementwise(tm.add, s, o)
    def __radd__(s, o): return elementwise(tm.add, o, s)
    def __sub__(s, o): return elementwise(tm.sub, s, o)
    def __rsub__(s, o): return elementwise(tm.sub, o, s)
    def __mul__(s, o): return elementwise(tm.mul, s, o)
    def __rmul__(s, o): return elementwise(tm.mul, o, s)
    def __truediv__(s, o): return elementwise(tm.div, s, o)
    def __rtruediv__(s, o): return elementwise(tm.div, o, s)
    def __pow__(s, o): return elementwise(tm.power, s, o)
    def __rpow__(s, o): return elementwise(tm.power, o, s)
    def __neg__(s): return elementwise(tm.mul, tm.const(-1), s)
    def __pos__(s): return s.copy()
    def __abs__(s): return unary(tm.absolute, s)
    def __lt__(s, o): return elementwise(tm.lt, s, o)
    def __gt__(s, o): return elementwise(tm.gt, s, o)
    def __le__(s, o): return elementwise(tm.le, s, o)
    def __ge__(s, o): return elementwise(tm.ge, s, o)
    def __eq__(s, o):
        if o is None or isinstance(o, str):
            return False
        return elementwise(tm.eq, s, o)
    def __ne__(s, o):
        if o is None or isinstance(o, str):
            return True
        return elementwise(tm.ne, s, o)
    def __invert__(s): return unary(tm.lnot, s)
    def __and__(s, o): return elementwise(tm.land, s, o)
    def __or__(s, o): return elementwise(tm.lor, s, o)
    def __rand__(s, o): return elementwise(tm.land, o, s)
    def __ror__(s, o): return elementwise(tm.lor, o, s)

    def _inplace(self, f, o):
        r = elementwise(f, self, o)
        if len(r._shape) != len(self._shape):
            raise ValueError('non-broadcastable output operand')
        self.bvs, self.body = r.bvs, r.body
        self._written()
        return self

    def __iadd__(s, o): return s._inplace(tm.add, o)
    def __isub__(s, o): return s._inplace(tm.sub, o)
    def __imul__(s, o): return s._inplace(tm.mul, o)
    def __itruediv__(s, o): return s._inplace(tm.div, o)


class SRec(object):
    """record array of symbolic length: one column (SArr) per field"""
    __array_ufunc__ = None

    def __init__(self, n, cols):
        self.n, self.cols = tm.num(n), cols

    @property
    def shape(self):
        return (self.n,)

    size = property(lambda self: self.n)
    ndim = 1

    def __vc_len__(self):
        return self.n

    @property
    def dtype(self):
        return np.dtype([(c, float) for c in self.cols])

    def view(self, dtype):
        # every field is a float: the records as rows of a table
        try:
            kind, m = dtype
        except TypeError:
            raise Unsupported('view of a record array')
        if getattr(kind, '__name__', '') not in ('float', 'float64', 'FloatShim') and kind is not float:
            raise Unsupported('view of a record array as %r' % (kind,))
        if int(m) != len(self.cols):
            raise ValueError('When changing to a larger dtype, its size must be a divisor of the total size in bytes')
        i, j = tm.bound('I', 'i'), tm.bound('I', 'j')
        return SArr((self.n, tm.const(int(m))), (i, j), chain(j, [c.at(i) for c in self.cols.values()]))

    def copy(self):
        return SRec(self.n, dict((k, c.copy()) for k, c in self.cols.items()))

    def __iter__(self):
        raise Unsupported('iteration over a record array of symbolic length')

    def __getitem__(self, ix):
        if isinstance(ix, str):
            if ix not in self.cols:
                raise ValueError('no field of name ' + ix)
            return self.cols[ix]
        if isinstance(ix, list) and all(isinstance(k, str) for k in ix):
            return SRec(self.n, dict((k, self.cols[k]) for k in ix))
        new = dict((k, c[ix]) for k, c in self.cols.items())
        first = next(iter(new.values()))
        if isinstance(ix, (slice, SArr)):
            return SRec(first._shape[0], new)
        return SRow(new, self, ix)

    def __setitem__(self, ix, val):
        if isinstance(ix, str):
            self.cols[ix][:] = val
            return
        if isinstance(ix, slice):
            raise Unsupported('slice assignment to a record array')
        if isinstance(val, SRow):
            val = tuple(val.d.values())
        if isinstance(val, np.void):
            val = tuple(val)
        if not isinstance(val, tuple):
            raise Unsupported('record assignment from %r' % (type(val),))
        if len(val) != len(self.cols):
            raise ValueError('could not assign tuple of length %d to structure with %d fields.' % (len(val), len(self.cols)))
        for (k, c), x in zip(self.cols.items(), val):
            c[ix] = x


class SRow(object):
    def __init__(self, d, rec, ix):
        self.d, self.rec, self.ix = d, rec, ix

    def __getitem__(self, k):
        return self.d[k] if isinstance(k, str) else list(self.d.values())[k]

    def __setitem__(self, k, x):
        self.rec.cols[k][self.ix] = x
        self.d[k] = x

    def __iter__(self):
        return iter(self.d.values())

    def __len__(self):
        return len(self.d)


def resize(a, shape):
    """numpy.resize: the first entries are kept, what follows repeats earlier ones (unspecified here)"""
    if isinstance(a, SRec):
        return SRec(shape, dict((k, resize(c, shape)) for k, c in a.cols.items()))
    if isinstance(a, SArr):
        sh = shape if isinstance(shape, tuple) else (shape,)
        if len(sh) != a.ndim or a.ndim == 2 and not same(sh[1], a._shape[1]):
            raise Unsupported('numpy.resize changing the row length')
        n = tm.num(a._shape[0])
        wrap = lambda i: tm.fn('resize.wrap', i, n, sort='I')
        return SArr.make(tuple(tm.num(k) for k in sh), lambda i, *js: tm.ite(tm.lt(i, n), a.at(i, *js), a.at(wrap(i), *js)))
    if isinstance(shape, tuple):
        shape = tuple(int(k) for k in shape)
    else:
        shape = int(shape)
    return np.resize(a, shape)


def delete(a, k, axis=None):
    if isinstance(a, SRec):
        n = []
        cols = {}
        for c in a.cols:
            cols[c] = delete(a.cols[c], k, axis)
        return SRec(tm.sub(a.n, tm.const(1)), cols)
    if isinstance(a, SArr):
        if a.ndim == 2 and axis != 0 or isinstance(k, (slice, list, SArr)):
            raise Unsupported('numpy.delete')
        i = a._ix(k, 0)
        return SArr.make((tm.sub(tm.num(a._shape[0]), tm.const(1)),) + a._shape[1:],
                         lambda r, *js: tm.ite(tm.lt(r, i), a.at(r, *js), a.at(tm.add(r, tm.const(1)), *js)))
    return np.delete(a, int(k) if isinstance(k, T) else k, axis)


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return tm.TRUE if x else tm.FALSE
    return tm.num(x)


def unary(f, a):
    return SArr(a._shape, a.bvs, lift(explore.merged(lambda: f(a.body))), a.mask)


def as_sarr(x):
    if isinstance(x, SArr):
        return x
    if isinstance(x, np.ndarray) or isinstance(x, (list, tuple)):
        raise Unsupported('mixing concrete and symbolic arrays')
    return None


class Rows:
    """a table of concretely many rows, each a symbolic 1-D array (or a scalar, when broadcast)"""
    __array_ufunc__ = None
    ndim = 2

    def __init__(self, rows):
        self.rows = list(rows)

    def __len__(self): return len(self.rows)
    def __iter__(self): return iter(self.rows)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return Rows(self.rows[k])
        if isinstance(k, tuple):
            r = self[k[0]]
            if isinstance(r, Rows):
                if not isinstance(k[0], slice):
                    raise Unsupported('row index')
                return Rows([x[k[1]] for x in r.rows])
            return r[k[1]]
        return self.rows[int(k)]

    @property
    def shape(self):
        return (len(self.rows),) + as_sarr(self.rows[0]).shape

    @property
    def T(self):
        raise Unsupported('transposed table of rows')

    def map(self, o, f):
        if isinstance(o, (list, tuple)) and any(isinstance(v, SArr) for v in o):
            o = Rows(o)
        if isinstance(o, Rows):
            if len(o) != len(self):
                raise ValueError('operands could not be broadcast together')
            return Rows([f(x, y) for x, y in zip(self.rows, o.rows)])
        if isinstance(o, np.ndarray) and o.ndim == 2:
            if o.shape[1] != 1:
                raise Unsupported('mixing concrete and symbolic arrays')
            if o.shape[0] not in (1, len(self)):
                raise ValueError('operands could not be broadcast together')
            return Rows([f(x, o[i if o.shape[0] > 1 else 0, 0]) for i, x in enumerate(self.rows)])
        if isinstance(o, np.ndarray) and o.ndim or isinstance(o, (list, tuple)):
            raise Unsupported('mixing concrete and symbolic arrays')
        return Rows([f(x, o) for x in self.rows])

    def __add__(s, o): return s.map(o, lambda x, y: x + y)
    def __radd__(s, o): return s.map(o, lambda x, y: y + x)
    def __sub__(s, o): return s.map(o, lambda x, y: x - y)
    def __rsub__(s, o): return s.map(o, lambda x, y: y - x)
    def __mul__(s, o): return s.map(o, lambda x, y: x * y)
    def __rmul__(s, o): return s.map(o, lambda x, y: y * x)
    def __truediv__(s, o): return s.map(o, lambda x, y: x / y)
    def __rtruediv__(s, o): return s.map(o, lambda x, y: y / x)
    def __neg__(s): return Rows([-x for x in s.rows])

    def total(self, axis=0):
        if axis is None:
            return sum(vsum(x) for x in self.rows)
        if axis == 0:
            r = self.rows[0]
            for x in self.rows[1:]:
                r = r + x
            return r
        raise Unsupported('sum of every row')

    def sum(self, axis=None):
        return self.total(axis)


def _row(o, other):
    """a short concrete row against a table with that many columns"""
    if not (isinstance(other, SArr) and other.ndim == 2 and o.ndim in (1, 2) and o.size <= 16 and o.shape[-1] == o.size):
        return None
    n = tm.num(other._shape[1])
    if not (n.is_const and n.value == o.size):
        return None
    i, j = tm.bound('I', 'i'), tm.bound('I', 'j')
    return SArr((tm.const(1), tm.const(o.size)), (i, j), chain(j, list(o.ravel())))


def chain(j, items):
    out = tm.num(items[-1])
    for k in range(len(items) - 2, -1, -1):
        out = tm.ite(tm.eq(j, tm.const(k)), tm.num(items[k]), out)
    return out


def elementwise(f, a, b):
    sa, sb = isinstance(a, SArr), isinstance(b, SArr)
    for o in (a, b):
        if isinstance(o, np.ndarray):
            if o.shape == () :
                o = o.item()
            elif _row(o, b if o is a else a) is not None:
                return elementwise(f, _row(a, b), b) if o is a else elementwise(f, a, _row(b, a))
            else:
                # a concrete array against a symbolic one: only when the symbolic length is forced
                raise Unsupported('mixing concrete and symbolic arrays')
    if isinstance(a, np.ndarray):
        a = a.item()
    if isinstance(b, np.ndarray):
        b = b.item()

    def ap(x, y):
        return _scalar2(f, x, y)
    if sa and sb:
        if a.ndim == b.ndim == 1 or a.ndim == b.ndim:
            shape, m = [], {}
            pa, pb = {}, {}
            bvs = []
            for n, m_, u, v in zip(a._shape, b._shape, a.bvs, b.bvs):
                n, m_ = tm.num(n), tm.num(m_)
                bv = tm.bound('I', 'i')
                bvs.append(bv)
                if n.is_const and n.value == 1 and not (m_.is_const and m_.value == 1):
                    pa[u] = tm.const(0); pb[v] = bv; shape.append(m_)
                elif m_.is_const and m_.value == 1 and not (n.is_const and n.value == 1):
                    pb[v] = tm.const(0); pa[u] = bv; shape.append(n)
                else:
                    if not same(n, m_):
                        raise ValueError('operands could not be broadcast together')
                    pa[u] = bv; pb[v] = bv; shape.append(n)
            x, y = tm.substitute(a.body, pa), tm.substitute(b.body, pb)
            mask = a.mask if a.mask is not None else b.mask
            return SArr(tuple(shape), tuple(bvs), lift(explore.merged(lambda: ap(x, y))), mask)
        if a.ndim == 2 and b.ndim == 1:
            return elementwise(f, a, b[None, :])
        if a.ndim == 1 and b.ndim == 2:
            return elementwise(f, a[None, :], b)
        raise Unsupported('broadcast')
    if sa:
        if not isinstance(b, T) and not tm.is_num(b):
            return NotImplemented if not hasattr(b, '__vc_special__') else b.__vc_special__(f, a, b)
        return SArr(a._shape, a.bvs, lift(explore.merged(lambda: ap(a.body, b))), a.mask)
    if not isinstance(a, T) and not tm.is_num(a):
        return NotImplemented if not hasattr(a, '__vc_special__') else a.__vc_special__(f, a, b)
    return SArr(b._shape, b.bvs, lift(explore.merged(lambda: ap(a, b.body))), b.mask)


def vsum(a):
    body = a.body if a.mask is None else tm.ite(a.mask.at(*a.bvs), a.body, tm.const(0))
    body = tm.to_real(tm.num(body))
    for bv, n in reversed(list(zip(a.bvs, a._shape))):
        body = tm.red('sum', bv, body, tm.num(n))
    return body


def vdot(a, b):
    if isinstance(a, SArr) and isinstance(b, SArr):
        if a.ndim == b.ndim == 1:
            return vsum(elementwise(tm.mul, a, b))
        if a.ndim == 2 and b.ndim == 1:
            if not same(a._shape[1], b._shape[0]):
                raise ValueError('shapes not aligned')
            j = a.bvs[1]
            return SArr((a._shape[0],), (a.bvs[0],),
                        tm.red('sum', j, tm.mul(tm.num(a.body), b.at(j)), tm.num(a._shape[1])))
        if a.ndim == 1 and b.ndim == 2:
            if not same(a._shape[0], b._shape[0]):
                raise ValueError('shapes not aligned')
            i = b.bvs[0]
            return SArr((b._shape[1],), (b.bvs[1],),
                        tm.red('sum', i, tm.mul(a.at(i), tm.num(b.body)), tm.num(b._shape[0])))
    raise Unsupported('dot')


def vall(a):
    return quant('all', a)


def vany(a):
    return tm.lnot(quant('all', SArr(a._shape, a.bvs, tm.lnot(tm.boolean(a.body)), a.mask)))


def quant(kind, a):
    body = tm.boolean(a.body)
    if a.mask is not None:
        body = tm.implies(a.mask.at(*a.bvs), body)
    if body.op == 'true':
        return tm.TRUE
    if a.ndim != 1:
        raise Unsupported('quantifier over a 2-D array')
    n = tm.num(a._shape[0])
    p = explore.current()
    # decided here: either it holds for every index, or there is a witness index
    key = p.x.smt.nz.boolkey(tm.substitute(body, {a.bvs[0]: tm.var('$q', 'I')}))
    b = tm.var('all!%x' % (hash((key, n.uid)) & 0xffffffffffff), 'B')
    if bool(b):
        p.__dict__.setdefault('foralls', []).append((a.bvs[0], n, body))
        for k in (tm.const(0), tm.sub(n, tm.const(1))):
            p.assume(tm.implies(tm.lt(tm.const(0), n), tm.substitute(body, {a.bvs[0]: k})))
        return tm.TRUE
    w = tm.var('wit!%x' % (hash((key, n.uid)) & 0xffffffffffff), 'I')
    p.assume(tm.land(tm.le(tm.const(0), w), tm.lt(w, n), tm.lnot(tm.substitute(body, {a.bvs[0]: w}))))
    return tm.FALSE


def simps(y, x=None, dx=None, axis=-1):
    """scipy.integrate.simps: a linear functional of the samples, parameterised by the abscissae."""
    if isinstance(y, SArr):
        if y.ndim == 1:
            i = y.bvs[0]
            if isinstance(x, SArr) and not same(x._shape[0], y._shape[0]):
                raise ValueError('If given, shape of `x` must be 1-D or the same as `y`.')
            xb = x.at(i) if isinstance(x, SArr) else tm.const(0)
            return tm.red('simps', i, tm.to_real(tm.num(y.body)), tm.num(y._shape[0]), xb)
        if y.ndim == 2:
            i, j = y.bvs
            xb = x.at(j)
            return SArr((y._shape[0],), (i,), tm.red('simps', j, tm.to_real(tm.num(y.body)), tm.num(y._shape[1]), xb))
    if isinstance(y, (list, tuple, np.ndarray)):
        y = np.asarray(y, dtype=object)
        xs = None if x is None else np.asarray(x, dtype=object)
        if y.ndim != 1:
            raise Unsupported('simps over a concrete 2-D array')
        return _simps_concrete(list(y), list(xs) if xs is not None else [tm.const(k) for k in range(len(y))])
    raise Unsupported('simps argument')


def _simps_concrete(y, x):
    """opaque linear functional over concretely many samples: sum_i W_i(x) y_i."""
    n = len(y)
    if n == 1:
        return tm.const(0)
    xs = tuple(tm.to_real(tm.num(v)) for v in x)
    tot = tm.const(0)
    for i, v in enumerate(y):
        tot = tm.add(tot, tm.mul(tm.fn('simpsw_%d_%d' % (n, i), *xs), tm.num(v)))
    return tot


def searchsorted(grid, x, side='left'):
    """Contract of numpy.searchsorted on a sorted array: the index i with
    left: grid[i-1] < x <= grid[i];  right: grid[i-1] <= x < grid[i]."""
    if isinstance(grid, SArr):
        n = tm.num(grid._shape[0])
        p = explore.current()
        x = tm.num(x)
        key = hash((grid.body.uid if not (tm.free_vars(grid.body) & {grid.bvs[0].args[0]}) else
                    p.x.smt.nz.boolkey(tm.eq(tm.substitute(grid.body, {grid.bvs[0]: tm.var('$s', 'I')}), tm.const(0))),
                    side, n.uid)) & 0xffffffffffff
        nm = 'ss!%x' % key
        i = tm.fn(nm, tm.to_real(x), sort='I')
        lo, hi = (tm.lt, tm.le) if side == 'left' else (tm.le, tm.lt)

        def facts(i, earlier):
            x = i.args[1]
            return [tm.land(tm.le(tm.const(0), i), tm.le(i, n),
                            tm.implies(tm.gt(i, tm.const(0)), lo(grid.at(tm.sub(i, tm.const(1))), x)),
                            tm.implies(tm.lt(i, n), hi(x, grid.at(i))))]
        p.x.smt.facts[nm] = facts
        return i
    # concrete length: count the elements below x (defines the index for sorted arrays)
    g = list(grid)
    x_ = x
    if isinstance(x, (np.ndarray, list)):
        return np.array([searchsorted(grid, k, side) for k in x])
    i = 0
    for v in g:
        c = tm.lt(tm.num(v), tm.num(x_)) if side == 'left' else tm.le(tm.num(v), tm.num(x_))
        if bool(c):
            i += 1
        else:
            break
    return i
