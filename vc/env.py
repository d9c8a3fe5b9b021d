"""The verification environment `v` a contract is written against.

A contract is one Python function `c(v, **case)`.  It is executed
  * symbolically (SymV): `v.real('x')` is a term, the code under contract comes from the mechanically
    extracted modules, every `v.eq / v.check` is an obligation for the solver;
  * concretely (ConV): `v.real('x')` is a float drawn from the declared domain (or taken from a counter-model),
    the code under contract is the natively imported module of /repo, `v.eq / v.check` compare values.
"""
import contextlib
import math
import os
import random
import numpy as np

from . import terms as tm
from . import explore
from . import shims
from . import arrays as ar
from .arrays import SArr
from .shims import SList
from .terms import T, Unsupported


class Reject(BaseException):
    """the sampled input is outside the precondition"""


class Fail(Exception):
    def __init__(self, name, detail):
        Exception.__init__(self, name + ': ' + detail)
        self.name, self.detail = name, detail


class Bag(object):
    """a plain object with attributes"""

    def __init__(self, **kw):
        self.__dict__.update(kw)


class Skip(BaseException):
    """the contract does not apply to this tree (e.g. an internal helper is gone): undecided"""


# ------------------------------------------------------------------------------------------ symbolic

class SymV(object):
    sym = True

    def __init__(self, job, path):
        self.job, self.path = job, path
        self.smt = job.smt
        self.loader = job.loader
        self.loader.whiles.clear()
        self.pi = tm.PI
        self._names = set()
        self.counter = [0]

    def mod(self, name):
        return self.loader.load(name)

    def fresh(self):
        """modules loaded anew (for contracts that change module state)"""
        l = self.job.new_loader()
        l.set_env(self.loader.env)
        l.whiles = self.loader.whiles
        return l

    @contextlib.contextmanager
    def env(self, **kw):
        old = dict(self.loader.env)
        for k, w in kw.items():
            if w is None:
                self.loader.env.pop(k, None)
            else:
                # the environment holds text; numbers keep their exact value (read back by float / int)
                self.loader.env[k] = w if isinstance(w, str) else str(w) if isinstance(w, T) or not isinstance(w, (tm.Fraction, float)) else str(tm.const(w))
        try:
            yield
        finally:
            self.loader.env.clear()
            self.loader.env.update(old)

    def loop(self, key, inv, variant=None, pure=(), havoc=None):
        """invariant of a while loop (function#ordinal) of the code under contract"""
        from . import loops
        self.loader.whiles[key] = loops.While(inv, variant, pure, havoc)

    # -- inputs -----------------------------------------------------------------------------
    def real(self, name, pos=False, nonneg=False, lo=None, hi=None, samples=None):
        x = tm.var(name)
        if pos:
            self.smt.nz.positive.add(name)
            self.assume(x > 0)
        if nonneg:
            self.assume(x >= 0)
        if lo is not None:
            self.assume(x >= tm.num(lo))
        if hi is not None:
            self.assume(x <= tm.num(hi))
        return x

    def int(self, name, lo=None, hi=None, span=None):
        x = tm.var(name, 'I')
        if lo is not None:
            if isinstance(lo, int) and lo > 0:
                self.smt.nz.positive.add(name)
            self.assume(x >= tm.num(lo))
        if hi is not None:
            self.assume(x <= tm.num(hi))
        return x

    def bool(self, name):
        return tm.var(name, 'B')

    def choice(self, name, options):
        """a value from a finite list, all of which are explored"""
        for i, o in enumerate(options[:-1]):
            if bool(tm.var('%s=%d' % (name, i), 'B')):
                return o
        return options[-1]

    def func(self, name, nargs=1, pos=False):
        if pos:
            self.smt.nz.positive.add(name)

        def f(*args):
            return _pointwise(lambda *a: tm.fn(name, *[tm.num(k) for k in a]), args)
        f.__name__ = name
        return f

    def array(self, name, n, pos=False, increasing=False, first=None, nonneg=False, lo=None, hi=None, gen=None):
        """float array of length n; element facts are declared to the solver as instantiated axioms"""
        if pos:
            self.smt.nz.positive.add(name)
        if isinstance(n, int):
            r = np.empty(n, dtype=object)
            for i in range(n):
                r[i] = tm.fn(name, tm.const(i))
                if pos:
                    self.assume(r[i] > 0)
                if nonneg:
                    self.assume(r[i] >= 0)
                if lo is not None:
                    self.assume(r[i] >= lo)
                if hi is not None:
                    self.assume(r[i] <= hi)
                if increasing and i:
                    self.assume(r[i - 1] < r[i])
                if i == 0 and first is not None:
                    self.assume(tm._cmp(tm.eq, r[0], first))
            return r
        n = tm.num(n)

        def facts(app, earlier):
            i = app.args[1]
            out = []
            inr = tm.land(tm.le(tm.const(0), i), tm.lt(i, n))
            if nonneg:
                out.append(tm.implies(inr, tm.ge(app, tm.const(0))))
            if lo is not None:
                out.append(tm.implies(inr, tm.ge(app, tm.num(lo))))
            if hi is not None:
                out.append(tm.implies(inr, tm.le(app, tm.num(hi))))
            if first is not None:
                out.append(tm.implies(tm.eq(i, tm.const(0)), tm.eq(app, tm.to_real(tm.num(first)))))
                if increasing:
                    out.append(tm.implies(tm.land(tm.gt(i, tm.const(0)), tm.lt(i, n)), tm.gt(app, tm.to_real(tm.num(first)))))
            if increasing:
                for o in earlier:
                    j = o.args[1]
                    jr = tm.land(tm.le(tm.const(0), j), tm.lt(j, n))
                    out.append(tm.implies(tm.land(inr, jr, tm.lt(i, j)), tm.lt(app, o)))
                    out.append(tm.implies(tm.land(inr, jr, tm.lt(j, i)), tm.lt(o, app)))
            return out
        self.smt.facts[name] = facts
        return SArr.make((n,), lambda i: tm.fn(name, i))

    def rates(self, name, n, inf=None):
        """an array any elements of which may be nan, and element number `inf` is infinite (none if None)"""
        a = self.array(name, n)
        self.path.__dict__.setdefault('undefined', {})[name] = 'nan' if inf is None else 'nan inf'
        if inf is not None:
            self.assume(shims._undefined('inf')(a.at(tm.num(inf))))
        return a

    def formatted(self, call):
        """the text a call returns, numbers written as <k>, and the numbers with their formats"""
        tm.FORMATTED = []
        try:
            text = call()
            return text.replace('\u27e6', '<').replace('\u27e7', '>'), list(tm.FORMATTED)
        finally:
            tm.FORMATTED = None

    def is_nan(self, a, i):
        return shims._undefined('nan')(a.at(tm.num(i)))

    def instance(self, i):
        """what was found to hold for all elements of an array holds for number i"""
        i = tm.num(i)
        for bv, n, body in list(self.path.__dict__.get('foralls', [])):
            self.assume(tm.implies(tm.land(tm.le(tm.const(0), i), tm.lt(i, n)), tm.substitute(body, {bv: i})))

    def list(self, name, n, **kw):
        a = self.array(name, n, **kw)
        return list(a) if isinstance(a, np.ndarray) else SList(a._shape[0], a.bvs[0], a.body)

    def some_list(self, name):
        """an arbitrary list (the state of a loop)"""
        n = tm.var('all!%s.length' % name, 'I')
        self.assume(n >= 0)
        bv = tm.bound('I', 'l')
        return SList(n, bv, tm.fn('all!' + name, bv))

    def seq(self, x):
        from .shims import _as_slist
        return _as_slist(x)

    def objects(self, name, n, **attrs):
        """a list of n (symbolic) objects; attrs: 'real' | 'pos' | 'nonneg' | 'bool' | list of possible values | callable(i)"""
        return ObjSeq(self, name, tm.num(n), attrs)

    def matrix(self, name, n, m):
        return SArr.make((tm.num(n), tm.num(m)), lambda i, j: tm.fn(name, i, j))

    # -- logic ------------------------------------------------------------------------------
    def assume(self, c):
        self.path.assume(tm.boolean(c))

    def num(self, s):
        return tm.const(tm.Fraction(s), 'R') if isinstance(s, (str, int, tm.Fraction)) else tm.num(s)

    def ite(self, c, a, b):
        return tm.ite(c, a, b)

    def land(self, *a): return tm.land(*a)
    def lor(self, *a): return tm.lor(*a)
    def lnot(self, a): return tm.lnot(a)
    def sqrt(self, x): return shims.unary(tm.sqrt)(x)
    def exp(self, x): return shims.unary(tm.exp)(x)
    def log(self, x): return shims.unary(tm.log)(x)
    def sin(self, x): return tm.fn('sin', tm.to_real(tm.num(x)))
    def cos(self, x): return tm.fn('cos', tm.to_real(tm.num(x)))
    def atan(self, x): return tm.fn('arctan', tm.to_real(tm.num(x)))
    def abs(self, x): return tm.absolute(x) if isinstance(x, T) else abs(x)
    def max(self, a, b): return tm.ite(tm._cmp(tm.ge, a, b), a, b)
    def min(self, a, b): return tm.ite(tm._cmp(tm.le, a, b), a, b)
    def isqrt(self, x): return tm.sqrt(x)

    def sum(self, n, f):
        n = tm.num(n)
        if n.is_const:
            return sum((f(i) for i in range(int(n))), tm.const(0))
        k = tm.bound('I', 'k')
        return tm.red('sum', k, tm.to_real(tm.num(explore.merged(lambda: f(k)))), n)

    def simps(self, y, x):
        return ar.simps(y, x)

    def simps_of(self, f, x):
        """simps of f(i) over abscissae x"""
        return ar.simps(SArr.make(x.shape, f), x)

    def gauss(self, f, a, b):
        """N-point Gauss-Legendre rule for the integral of f over [a, b]"""
        N = tm.var('N.legendre', 'I')
        a, b = tm.to_real(tm.num(a)), tm.to_real(tm.num(b))
        h, c = (b - a) / 2, (a + b) / 2
        return h * self.sum(N, lambda i: tm.fn('leggauss.w', N, i) * f(h * tm.fn('leggauss.x', N, i) + c))

    def legendre_moment(self, j):
        N = tm.var('N.legendre', 'I')
        return self.sum(N, lambda i: tm.fn('leggauss.w', N, i) * tm.fn('leggauss.x', N, i)**j)

    def laguerre(self, f):
        N = tm.var('N.laguerre', 'I')
        return self.sum(N, lambda i: tm.fn('laggauss.w', N, i) * f(tm.fn('laggauss.x', N, i)))

    def len(self, x):
        return shims.slen(x)

    def at(self, arr, i):
        if isinstance(arr, (SArr, SList, ObjSeq)):
            return arr.at(tm.num(i))
        return arr[i]

    # -- obligations ------------------------------------------------------------------------
    def oblige(self, name, goal, detail=None):
        self.path.obligations.append((name, tm.boolean(goal), len(self.path.pc), detail))

    def is_eq(self, a, b):
        return tm.eq(tm.num(a), tm.num(b))

    def lemma(self, name, hyps, concl, *args):
        """the universally quantified  hyps(x..) ==> concl(x..)  is an obligation of its own; its instance at args is used:
        the hypotheses are obligations here, the conclusion is assumed"""
        if self.smt.keys is None:
            self.smt.keys = {}
        xs = [tm.var('lem!%s.%d' % (name, i)) for i in range(len(args))]
        goal = tm.implies(tm.land(*[tm.boolean(h) for h in hyps(*xs)]), tm.land(*[tm.boolean(c) for c in concl(*xs)]))
        self.path.obligations.append(('lemma ' + name, goal, 0, None))
        args = [tm.num(a) for a in args]
        for h in hyps(*args):
            self.oblige('premise of ' + name, h)
        for c in concl(*args):
            self.assume(c)

    def check(self, name, cond):
        if isinstance(cond, (bool, np.bool_)) or isinstance(cond, T):
            self.oblige(name, tm.boolean(cond))
        else:
            raise Unsupported('check of %r' % (type(cond),))

    def eq(self, name, got, want, tol=None, scale=None):
        if isinstance(want, (tuple, list)) and not isinstance(got, (SArr, SList)):
            if not hasattr(got, '__len__') or len(got) != len(want):
                self.oblige(name, tm.FALSE, 'length')
                return
            for i, (g, w) in enumerate(zip(got, want)):
                self.eq('%s[%d]' % (name, i), g, w, tol, scale)
            return
        if isinstance(got, SList):
            got = got.arr()
        if isinstance(want, SList):
            want = want.arr()
        if isinstance(got, SArr) or isinstance(want, SArr):
            if isinstance(want, SArr) and not isinstance(got, SArr):
                self.oblige(name, tm.FALSE, 'expected an array, got %r' % (got,))
                return
            if isinstance(got, SArr) and not isinstance(want, SArr):
                want = SArr(got._shape, got.bvs, tm.num(want))
            if got.ndim != want.ndim:
                self.oblige(name, tm.FALSE, 'dimension')
                return
            idx = []
            hyp = []
            for g, w in zip(got._shape, want._shape):
                g, w = tm.num(g), tm.num(w)
                self.oblige(name + '.shape', tm.eq(g, w))
                self.counter[0] += 1
                i = tm.var('%s.i%d' % (name, self.counter[0]), 'I')
                idx.append(i)
                hyp += [tm.le(tm.const(0), i), tm.lt(i, w)]
            self.oblige(name, tm.implies(tm.land(*hyp), tm.eq(tm.to_real(tm.num(got.at(*idx))), tm.to_real(tm.num(want.at(*idx))))))
            return
        if isinstance(got, np.ndarray) or isinstance(want, np.ndarray):
            g, w = np.broadcast_arrays(np.asarray(got, dtype=object), np.asarray(want, dtype=object))
            if isinstance(got, np.ndarray) and isinstance(want, np.ndarray) and got.shape != want.shape:
                self.oblige(name, tm.FALSE, 'shape %s != %s' % (got.shape, want.shape))
                return
            for i, (a, b) in enumerate(zip(g.ravel(), w.ravel())):
                self.eq('%s[%d]' % (name, i), a, b)
            return
        if isinstance(got, T) or isinstance(want, T):
            if isinstance(got, T) and got.sort == 'B' or isinstance(want, T) and want.sort == 'B':
                self.oblige(name, tm.iff(tm.boolean(got), tm.boolean(want)))
                return
            if not (isinstance(got, T) or tm.is_num(got)) or isinstance(got, float) and not math.isfinite(got):
                self.oblige(name, tm.FALSE, 'got %r' % (got,))
                return
            self.oblige(name, tm.eq(tm.to_real(tm.num(got)), tm.to_real(tm.num(want))))
            return
        if tm.is_num(got) and tm.is_num(want) and not isinstance(got, bool):
            ok = abs(float(got) - float(want)) <= 1e-9 * max(abs(float(got)), abs(float(want)), float(scale or 0))
            self.oblige(name, tm.TRUE if ok or got == want else tm.FALSE, '%r vs %r' % (got, want))
            return
        same = got is want or got == want
        self.oblige(name, tm.boolean(same) if isinstance(same, (bool, T, np.bool_)) else tm.FALSE, '%r vs %r' % (got, want))

    def le(self, name, a, b, tol=None):
        self.oblige(name, tm._cmp(tm.le, a, b) if isinstance(a, T) or isinstance(b, T) else tm.boolean(bool(a <= b)))

    def lt(self, name, a, b, tol=None):
        self.oblige(name, tm._cmp(tm.lt, a, b) if isinstance(a, T) or isinstance(b, T) else tm.boolean(bool(a < b)))

    def calls(self, f, *a, **k):
        """('ok', value) or ('exc', exception)"""
        try:
            return 'ok', f(*a, **k)
        except Unsupported:
            raise
        except Exception as e:
            return 'exc', e

    def attr(self, obj, name):
        if not hasattr(obj, name):
            raise Skip('%r has no attribute %s' % (obj, name))
        return getattr(obj, name)


class ObjSeq(object):
    def __init__(self, v, name, n, attrs):
        self.v, self.name, self.n, self.attrs = v, name, n, attrs
        for a, kind in attrs.items():
            if kind == 'pos':
                v.smt.nz.positive.add(name + '.' + a)
            if kind == 'nonneg':
                v.smt.facts[name + '.' + a] = lambda app, earlier: [tm.ge(app, tm.const(0))]

    def __vc_len__(self):
        return self.n

    def __vc_iter__(self):
        return self.n, self.at

    def __iter__(self):
        raise Unsupported('iteration over a list of symbolic length')

    def at(self, i):
        return Obj(self, tm.num(i))

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported('slice of a symbolic list of objects')
        return self.at(tm.num(i))


class Obj(object):
    def __init__(self, seq, i):
        self.__dict__['_seq'], self.__dict__['_i'] = seq, i

    def __getattr__(self, a):
        seq, i = self.__dict__['_seq'], self.__dict__['_i']
        kind = seq.attrs.get(a)
        if kind is None:
            if a.startswith('__'):
                raise AttributeError(a)
            raise Unsupported('attribute %s of a symbolic %s' % (a, seq.name))
        if callable(kind):
            return kind(i)
        if kind in ('real', 'pos', 'nonneg'):
            return tm.fn(seq.name + '.' + a, i)
        if kind == 'bool':
            return tm.gt(tm.fn(seq.name + '.' + a, i), tm.const(0))
        for k, o in enumerate(kind[:-1]):
            if bool(tm.gt(tm.fn('%s.%s=%d' % (seq.name, a, k), i), tm.const(0))):
                return o
        return kind[-1]

    def __setattr__(self, a, x):
        raise Unsupported('a symbolic loop changes attribute %s of its items' % a)


def _pointwise(f, args):
    if any(isinstance(a, (SArr, SList)) for a in args):
        args = [a.arr() if isinstance(a, SList) else a for a in args]
        if len(args) == 1:
            a = args[0]
            return SArr(a._shape, a.bvs, f(tm.num(a.body)), a.mask)
        # align through elementwise broadcasting of two arguments
        if len(args) == 2:
            return ar.elementwise(lambda x, y: f(x, y), args[0], args[1])
        raise Unsupported('pointwise function of three arrays')
    if any(isinstance(a, np.ndarray) for a in args):
        return np.frompyfunc(lambda *a: f(*[tm.num(k) for k in a]), len(args), 1)(
            *[a if isinstance(a, np.ndarray) else ar._box(a) for a in args])
    return f(*[tm.num(a) for a in args])


# ------------------------------------------------------------------------------------------ concrete

RTOL = 1e-7
_RULES = {}


def _rule(kind, n):
    if (kind, n) not in _RULES:
        _RULES[kind, n] = (np.polynomial.legendre.leggauss if kind == 'leg' else np.polynomial.laguerre.laggauss)(n)
    return _RULES[kind, n]


class ConV(object):
    sym = False

    def __init__(self, native, seed, preset=None):
        self.native = native
        self.rng = random.Random(seed)
        self.preset = preset or {}
        self.pi = math.pi
        self.inputs = {}
        self.pool = []
        self.nchecks = 0
        self.funcs = {}

    def mod(self, name):
        return self.native.mod(name)

    def fresh(self):
        return self.native.fresh()

    def loop(self, *a, **k):
        pass

    @contextlib.contextmanager
    def env(self, **kw):
        old = {k: os.environ.get(k) for k in kw}
        for k, w in kw.items():
            if w is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = str(w)
        try:
            yield
        finally:
            for k, w in old.items():
                if w is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = w

    def _rec(self, name, x):
        self.inputs[name] = x
        return x

    def real(self, name, pos=False, nonneg=False, lo=None, hi=None, samples=None):
        lo_ = None if lo is None else float(lo)
        hi_ = None if hi is None else float(hi)
        if name in self.preset:
            x = float(self.preset[name])
            if '#jitter' in self.preset:
                x *= 1 + float(self.preset['#jitter']) * self.rng.uniform(-1, 1)
        else:
            x = self._draw(pos, nonneg, lo_, hi_, samples)
        if pos and not x > 0 or nonneg and x < 0 or lo_ is not None and x < lo_ or hi_ is not None and x > hi_:
            raise Reject()
        self.pool.append(x)
        return self._rec(name, x)

    def _draw(self, pos, nonneg, lo, hi, samples):
        r = self.rng
        if samples is not None:
            if callable(samples):
                return float(samples(r))
            if r.random() < 0.8:
                a, b = samples
                if a > 0 and b / a > 50:
                    return math.exp(r.uniform(math.log(a), math.log(b)))
                return r.uniform(a, b)
        u = r.random()
        if u < 0.1 and self.pool:
            x = r.choice(self.pool)
            if self._in(x, pos, nonneg, lo, hi):
                return x
        if u < 0.2:
            c = [0.0, 1.0, 2.0, -1.0] + [k for k in (lo, hi) if k is not None]
            x = r.choice(c)
            if self._in(x, pos, nonneg, lo, hi):
                return x
        if lo is not None and hi is not None:
            if lo > 0 and hi / lo > 50:
                return min(hi, max(lo, math.exp(r.uniform(math.log(lo), math.log(hi)))))
            return r.uniform(lo, hi)
        m = math.exp(r.uniform(math.log(1e-2), math.log(1e2)))
        if lo is not None:
            return lo + m
        if hi is not None:
            return hi - m
        if pos or nonneg:
            return m
        return m if r.random() < 0.6 else -m

    def _in(self, x, pos, nonneg, lo, hi):
        return not (pos and not x > 0 or nonneg and x < 0 or lo is not None and x < lo or hi is not None and x > hi)

    def int(self, name, lo=None, hi=None, span=None):
        if name in self.preset:
            x = int(self.preset[name])
        else:
            a = 0 if lo is None else int(lo)
            b = int(hi) if hi is not None else a + (span or 12)
            if hi is not None and span and b > a + span:
                b = a + span
            x = self.rng.randint(a, b)
        if lo is not None and x < lo or hi is not None and x > hi:
            raise Reject()
        return self._rec(name, x)

    def bool(self, name):
        x = bool(self.preset[name]) if name in self.preset else self.rng.random() < 0.5
        return self._rec(name, x)

    def choice(self, name, options):
        i = None
        for k in range(len(options)):
            if self.preset.get('%s=%d' % (name, k)) is True:
                i = k
                break
        if i is None:
            i = self.rng.randrange(len(options))
        self._rec(name, i)
        return options[i]

    def func(self, name, nargs=1, pos=False):
        r = self.rng
        c = [r.uniform(0.2, 2.) for _ in range(3 + nargs)]

        def f(*args):
            s = c[1]
            for k, a in enumerate(args):
                s = s + c[3 + k] * np.asarray(a, dtype=float) if isinstance(a, np.ndarray) else s + c[3 + k] * float(a)
            base = c[0] * np.sin(s) if not pos else c[0] * (1.2 + np.sin(s))
            return base + (c[2] if not pos else 0.1)
        f.__name__ = name
        self._rec(name, c)
        return f

    def array(self, name, n, pos=False, increasing=False, first=None, nonneg=False, lo=None, hi=None, gen=None):
        n = int(n)
        if n < 0 or n > 20000:
            raise Reject()
        apps = self.preset.get('#apps', {}).get(name, {})
        known = {}
        for k, val in apps.items():
            try:
                i = int(k[0])
                if 0 <= i < n:
                    known[i] = float(val)
            except ValueError:
                pass
        if gen is not None and not known:
            x = np.array([float(k) for k in gen(self.rng, n)])
        else:
            x = [self._draw(pos, nonneg, lo, hi, None) for _ in range(n)]
            if increasing:
                base = 0.0 if first is None else float(first)
                if first is None:
                    base = self._draw(pos, nonneg, lo, hi, None)
                steps = [math.exp(self.rng.uniform(-2, 1)) for _ in range(n)]
                x = [base + sum(steps[:i]) for i in range(n)]
                if known:
                    ks = sorted(known)
                    for i in range(n):
                        if i in known:
                            x[i] = known[i]
                            continue
                        left = [k for k in ks if k < i]
                        right = [k for k in ks if k > i]
                        if left and right:
                            a, b = left[-1], right[0]
                            x[i] = known[a] + (known[b] - known[a]) * (i - a) / (b - a)
                        elif left:
                            x[i] = known[left[-1]] + (i - left[-1])
                        else:
                            x[i] = known[right[0]] - (right[0] - i) if first is None else \
                                base + (known[right[0]] - base) * i / right[0]
            else:
                if first is not None and n:
                    x[0] = float(first)
                for i, val in known.items():
                    x[i] = val
            x = np.array(x, dtype=float)
        if n and (pos and not (x > 0).all() or nonneg and (x < 0).any() or lo is not None and (x < float(lo)).any()
                  or hi is not None and (x > float(hi)).any()
                  or increasing and not (np.diff(x) > 0).all() or first is not None and x[0] != float(first)):
            raise Reject()
        self.pool.extend(float(k) for k in x[:6])
        self._rec(name, [float(k) for k in x[:200]])
        return x

    def list(self, name, n, **kw):
        return [float(k) for k in self.array(name, n, **kw)]

    def objects(self, name, n, **attrs):
        out = []
        for i in range(int(n)):
            o = Bag()
            d = {}
            for a, kind in attrs.items():
                if callable(kind):
                    d[a] = kind(i)
                elif kind == 'bool':
                    d[a] = self.rng.random() < 0.5
                elif kind in ('real', 'pos', 'nonneg'):
                    d[a] = self._draw(kind == 'pos', kind == 'nonneg', None, None, None)
                else:
                    d[a] = self.rng.choice(kind)
            o.__dict__.update(d)
            self._rec('%s[%d]' % (name, i), {k: repr(x)[:60] for k, x in d.items()})
            out.append(o)
        return out

    def matrix(self, name, n, m):
        x = np.array([[self._draw(False, False, None, None, None) for _ in range(int(m))] for _ in range(int(n))]).reshape(int(n), int(m))
        self._rec(name, x.tolist())
        return x

    # -- logic
    def assume(self, c):
        if not bool(np.all(c)):
            raise Reject()

    def num(self, s):
        return float(tm.Fraction(s)) if isinstance(s, str) else float(s)

    def ite(self, c, a, b): return a if c else b
    def land(self, *a): return all(bool(k) for k in a)
    def lor(self, *a): return any(bool(k) for k in a)
    def lnot(self, a): return not a

    def _f(self, f, x):
        with np.errstate(all='ignore'):
            return f(x)

    def sqrt(self, x): return self._f(np.sqrt, x)
    def exp(self, x): return self._f(np.exp, x)
    def log(self, x): return self._f(np.log, x)
    def sin(self, x): return math.sin(x)
    def cos(self, x): return math.cos(x)
    def atan(self, x): return math.atan(x)
    def abs(self, x): return abs(x)
    def max(self, a, b): return max(a, b)
    def min(self, a, b): return min(a, b)

    def sum(self, n, f):
        return math.fsum(float(f(i)) for i in range(int(n)))

    def simps(self, y, x):
        from scipy.integrate import simps
        return simps(y, x)

    def simps_of(self, f, x):
        from scipy.integrate import simps
        return simps(np.array([float(f(i)) for i in range(len(x))]), x)

    def rates(self, name, n, inf=None):
        a = self.array(name, n)
        for k in self.rng.sample(range(n), self.rng.randint(0, n)):
            a[k] = math.nan
        if inf is not None:
            a[int(inf)] = self.rng.choice([math.inf, -math.inf])
        return a

    def is_nan(self, a, i):
        return math.isnan(a[int(i)])

    def instance(self, i):
        pass

    def gauss(self, f, a, b, n=100):
        x, w = _rule('leg', n)
        h, c = (b - a) / 2., (a + b) / 2.
        return float(h * sum(k * f(h * q + c) for q, k in zip(x, w)))

    def laguerre(self, f, n=100):
        x, w = _rule('lag', n)
        return float(sum(k * f(q) for q, k in zip(x, w)))

    def len(self, x): return len(x)
    def at(self, arr, i): return arr[int(i)]

    def lemma(self, name, hyps, concl, *args):
        pass

    def is_eq(self, a, b):
        return a == b

    # -- checks
    def check(self, name, cond):
        self.nchecks += 1
        if not bool(cond):
            raise Fail(name, 'false')

    def eq(self, name, got, want, tol=None, scale=None):
        self.nchecks += 1
        tol = RTOL if tol is None else tol
        if isinstance(want, (tuple, list)) and not isinstance(got, np.ndarray):
            if not hasattr(got, '__len__') or len(got) != len(want):
                raise Fail(name, 'got %r, expected %r' % (got, want))
            for i, (g, w) in enumerate(zip(got, want)):
                self.eq('%s[%d]' % (name, i), g, w, tol, scale)
            return
        if isinstance(want, (np.ndarray, list, tuple)) or isinstance(got, np.ndarray) and got.shape != ():
            w = np.asarray(want)
            g = np.asarray(got)
            if w.shape != () and g.shape != w.shape:
                raise Fail(name, 'shape %s, expected %s' % (g.shape, w.shape))
            if w.shape == ():
                w = np.broadcast_to(w, g.shape)
            for i, (a, b) in enumerate(zip(g.ravel(), w.ravel())):
                self._close('%s[%d]' % (name, i), a, b, tol, scale)
            return
        self._close(name, got, want, tol, scale)

    def _close(self, name, g, w, tol, scale):
        if isinstance(w, (bool, np.bool_)) or w is None or isinstance(w, str) or not tm.is_num(w):
            if not tm.is_num(w) and not isinstance(w, (bool, np.bool_)):
                if g is w or g == w:
                    return
                raise Fail(name, 'got %r, expected %r' % (g, w))
            if bool(g) != bool(w):
                raise Fail(name, 'got %r, expected %r' % (g, w))
            return
        try:
            if isinstance(g, (str, bytes)):
                raise TypeError('text')
            g = float(g)
        except Exception:
            raise Fail(name, 'got %r, expected %r' % (g, w))
        w = float(w)
        if not math.isfinite(w):
            raise Reject()
        if not math.isfinite(g):
            raise Fail(name, 'got %r, expected %r' % (g, w))
        s = max(abs(g), abs(w), 0.0 if scale is None else abs(float(scale)))
        if abs(g - w) > tol * s + 1e-290:
            raise Fail(name, 'got %r, expected %r' % (g, w))

    def le(self, name, a, b, tol=None):
        self.nchecks += 1
        t = (RTOL if tol is None else tol) * max(abs(float(a)), abs(float(b)))
        if not float(a) <= float(b) + t:
            raise Fail(name, '%r <= %r is false' % (a, b))

    def lt(self, name, a, b, tol=None):
        self.nchecks += 1
        if not float(a) < float(b) + (0 if not tol else tol * max(abs(float(a)), abs(float(b)))):
            raise Fail(name, '%r < %r is false' % (a, b))

    def calls(self, f, *a, **k):
        try:
            return 'ok', f(*a, **k)
        except Exception as e:
            return 'exc', e

    def attr(self, obj, name):
        if not hasattr(obj, name):
            raise Skip('%r has no attribute %s' % (obj, name))
        return getattr(obj, name)
