"""Hash-consed symbolic terms.

A term stands for a mathematical real ('R'), integer ('I') or truth value ('B').  Python code of
the repository computes with terms exactly as it would with floats: every operator is overloaded.
A truth value used as a Python condition asks the current path explorer (`explore.current()`) for
a decision, so one execution of the code under a sequence of decisions is one symbolic path.
"""
from fractions import Fraction
import math

_INTERN = {}
_COUNT = [0]
F0, F1 = Fraction(0), Fraction(1)


class Unsupported(Exception):
    """The code did something the verifier has no semantics for (=> undecided, never a verdict)."""


FORMATTED = None        # list while a contract records


class TStr(str):
    """text of a number (read back exactly: the shortest text of a float determines it)"""
    term = None


class T(object):
    __slots__ = ('op', 'args', 'sort', 'uid', '_fv', '_norm', '_z3', '__weakref__')
    __array_ufunc__ = None
    __array_priority__ = 1000

    # -- plumbing ---------------------------------------------------------------------------
    def __hash__(self):
        return self.uid

    def __repr__(self):
        return show(self)

    def __str__(self):
        r = TStr(show(self))
        r.term = self
        return r

    def __format__(self, spec):
        # remembered, so that a contract can tell which value a piece of text stands for
        if not spec or not hasattr(FORMATTED, 'append'):
            return show(self)
        FORMATTED.append((self, spec))
        return '\u27e6%d\u27e7' % (len(FORMATTED) - 1)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported('pickling a symbolic term')

    @property
    def is_const(self):
        return self.op == 'const'

    @property
    def value(self):
        return self.args[0]

    # -- numpy-object-array protocol --------------------------------------------------------
    def sqrt(self): return sqrt(self)
    def exp(self): return exp(self)
    def log(self): return log(self)
    def sin(self): return fn('sin', self)
    def cos(self): return fn('cos', self)
    def conjugate(self): return self
    @property
    def real(self): return self
    def copy(self): return self
    def item(self): return self
    def all(self): return self
    def any(self): return self
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0

    # -- arithmetic -------------------------------------------------------------------------
    def __add__(self, o): return _arith(add, self, o)
    def __radd__(self, o): return _arith(add, o, self)
    def __sub__(self, o): return _arith(sub, self, o)
    def __rsub__(self, o): return _arith(sub, o, self)
    def __mul__(self, o): return _arith(mul, self, o)
    def __rmul__(self, o):
        if isinstance(o, (list, tuple)) and self.sort == 'I':
            return _listmul(o, self)
        return _arith(mul, o, self)
    def __truediv__(self, o): return _arith(div, self, o)
    def __rtruediv__(self, o): return _arith(div, o, self)
    def __pow__(self, o): return _arith(power, self, o)
    def __rpow__(self, o): return _arith(power, o, self)
    def __floordiv__(self, o): return _arith(floordiv, self, o)
    def __rfloordiv__(self, o): return _arith(floordiv, o, self)
    def __mod__(self, o): return _arith(modulo, self, o)
    def __rmod__(self, o): return _arith(modulo, o, self)
    def __neg__(self): return mul(const(-1), num(self))
    def __pos__(self): return self
    def __abs__(self): return absolute(self)

    # -- comparison -------------------------------------------------------------------------
    def __lt__(self, o): return _cmp(lt, self, o)
    def __gt__(self, o): return _cmp(gt, self, o)
    def __le__(self, o): return _cmp(le, self, o)
    def __ge__(self, o): return _cmp(ge, self, o)
    def __eq__(self, o): return _cmp(eq, self, o)
    def __ne__(self, o): return _cmp(ne, self, o)

    # -- logic (bit operators as numpy uses them) --------------------------------------------
    def __invert__(self): return lnot(self)
    def __and__(self, o): return _logic(land, self, o)
    def __rand__(self, o): return _logic(land, o, self)
    def __or__(self, o): return _logic(lor, self, o)
    def __ror__(self, o): return _logic(lor, o, self)
    def __xor__(self, o): return _logic(lxor, self, o)
    def __rxor__(self, o): return _logic(lxor, o, self)

    def __bool__(self):
        b = self if self.sort == 'B' else ne(self, const(0))
        if b.op == 'true':
            return True
        if b.op == 'false':
            return False
        from . import explore
        return explore.decide(b)

    def __float__(self):
        if self.is_const:
            return float(self.value)
        raise Unsupported('float() of a symbolic term')

    def __int__(self):
        if self.is_const:
            return int(self.value)
        raise Unsupported('int() of a symbolic term')

    def __index__(self):
        if self.is_const and self.value.denominator == 1:
            return int(self.value)
        raise Unsupported('symbolic term used as a Python index')

    def __round__(self, n=None):
        if self.is_const and n is None:
            return round(self.value)
        raise Unsupported('round() of a symbolic term')

    def __iter__(self):
        raise TypeError('scalar term is not iterable')


def _mk(op, args, sort):
    key = (op, tuple(a.uid if isinstance(a, T) else ('#', a) for a in args), sort)
    t = _INTERN.get(key)
    if t is None:
        t = T.__new__(T)
        t.op, t.args, t.sort = op, tuple(args), sort
        _COUNT[0] += 1
        t.uid = _COUNT[0]
        t._fv = None
        t._norm = None
        t._z3 = None
        _INTERN[key] = t
    return t


TRUE = _mk('true', (), 'B')
FALSE = _mk('false', (), 'B')


def const(v, sort=None):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            raise Unsupported('non-finite constant %r' % v)
        fr = Fraction(repr(v))
        return _mk('const', (fr,), 'R')
    fr = Fraction(v)
    if sort is None:
        sort = 'I' if isinstance(v, int) else 'R'
    return _mk('const', (fr,), sort)


def var(name, sort='R'):
    return _mk('var', (name,), sort)


_NUMERIC = (int, float, Fraction)


def is_num(x):
    import numpy
    return isinstance(x, (int, float, Fraction, numpy.integer, numpy.floating, numpy.bool_))


def num(x):
    """Lift to a numeric term."""
    import numpy
    if isinstance(x, T):
        if x.sort == 'B':
            return ite(x, const(1), const(0))
        return x
    if isinstance(x, bool) or isinstance(x, numpy.bool_):
        return const(1 if x else 0)
    if isinstance(x, numpy.integer):
        return const(int(x))
    if isinstance(x, numpy.floating):
        return const(float(x))
    if isinstance(x, _NUMERIC):
        return const(x)
    raise Unsupported('cannot lift %r to a term' % (type(x),))


def boolean(x):
    import numpy
    if isinstance(x, T):
        return x if x.sort == 'B' else ne(x, const(0))
    if isinstance(x, (bool, numpy.bool_)):
        return TRUE if x else FALSE
    if is_num(x):
        return TRUE if x != 0 else FALSE
    raise Unsupported('cannot lift %r to a truth value' % (type(x),))


def _arraylike(o):
    import numpy
    from . import arrays
    return isinstance(o, (numpy.ndarray, arrays.SArr))


def _listmul(o, n):
    if n.is_const:
        return o * int(n)
    if len(o) != 1:
        raise Unsupported('repetition of a list of %d elements' % len(o))
    from .shims import SList
    return SList(n, bound('I', 'l'), num(o[0]))


def _arith(f, a, b):
    from . import arrays
    import numpy
    for o in (a, b):
        if isinstance(o, arrays.SArr):
            return arrays.elementwise(f, a, b)
        if isinstance(o, numpy.ndarray):
            return arrays.nd_elementwise(f, a, b)
    for o in (a, b):
        if not isinstance(o, T) and not is_num(o):
            if hasattr(o, '__vc_special__'):
                return o.__vc_special__(f, a, b)
            return NotImplemented
    return f(num(a), num(b))


def _cmp(f, a, b):
    from . import arrays
    import numpy
    for o in (a, b):
        if isinstance(o, arrays.SArr):
            return arrays.elementwise(f, a, b)
        if isinstance(o, numpy.ndarray):
            return arrays.nd_elementwise(f, a, b)
    for o in (a, b):
        if hasattr(o, '__vc_special__'):
            return o.__vc_special__(f, a, b)
        if not isinstance(o, T) and not is_num(o):
            if f is eq:
                return False
            if f is ne:
                return True
            return NotImplemented
        if isinstance(o, float) and (math.isinf(o) or math.isnan(o)):
            fa = 0.0 if isinstance(a, T) else float(a)
            fb = 0.0 if isinstance(b, T) else float(b)
            return {'lt': fa < fb, 'gt': fa > fb, 'le': fa <= fb, 'ge': fa >= fb,
                    'eq': fa == fb, 'ne': fa != fb}[f.__name__]
    if isinstance(a, T) and a.sort == 'B' and (isinstance(b, (bool,)) or isinstance(b, T) and b.sort == 'B'):
        if f in (eq, ne):
            r = iff(boolean(a), boolean(b))
            return r if f is eq else lnot(r)
    if isinstance(b, T) and b.sort == 'B' and isinstance(a, bool):
        if f in (eq, ne):
            r = iff(boolean(a), boolean(b))
            return r if f is eq else lnot(r)
    return f(num(a), num(b))


def _logic(f, a, b):
    from . import arrays
    import numpy
    for o in (a, b):
        if isinstance(o, arrays.SArr):
            return arrays.elementwise(f, a, b)
        if isinstance(o, numpy.ndarray):
            return arrays.nd_elementwise(f, a, b)
    return f(boolean(a), boolean(b))


def _sort2(a, b):
    return 'I' if a.sort == 'I' and b.sort == 'I' else 'R'


def add(a, b):
    if a.op == 'const':
        if a.value == 0:
            return b if _sort2(a, b) == b.sort else to_real(b)
        if b.op == 'const':
            return const(a.value + b.value, _sort2(a, b))
    elif b.op == 'const' and b.value == 0:
        return a if _sort2(a, b) == a.sort else to_real(a)
    return _mk('add', (a, b), _sort2(a, b))


def to_real(a):
    if a.sort == 'R':
        return a
    if a.op == 'const':
        return const(a.value, 'R')
    return _mk('toreal', (a,), 'R')


def sub(a, b):
    if a is b:
        return const(F0, _sort2(a, b))
    return add(a, mul(const(-1), b))


def mul(a, b):
    if a.op != 'const' and b.op == 'const':
        a, b = b, a
    if a.op == 'const':
        if b.op == 'const':
            return const(a.value * b.value, _sort2(a, b))
        if a.value == 0:
            return const(F0, _sort2(a, b))
        if a.value == 1:
            return b if _sort2(a, b) == b.sort else to_real(b)
        if b.op == 'mul' and b.args[0].op == 'const':
            return mul(const(a.value * b.args[0].value, _sort2(a, b.args[0])), b.args[1])
    return _mk('mul', (a, b), _sort2(a, b))


def div(a, b):
    a, b = to_real(a), to_real(b)
    if b.op == 'const':
        if b.value == 0:
            from . import explore
            explore.division_by_zero(a)
            raise ZeroDivisionError('division by a zero term')
        return mul(const(1 / b.value, 'R'), a)
    if a.op == 'const' and a.value == 0:
        pass
    from . import explore
    explore.domain(ne(b, const(0)), 'division by zero')
    return _mk('div', (a, b), 'R')


def power(a, b):
    if b.op == 'const':
        e = b.value
        if e.denominator == 1:
            n = int(e)
            s = 'I' if (a.sort == 'I' and b.sort == 'I' and n >= 0) else 'R'
            if a.op == 'const':
                if n < 0 and a.value == 0:
                    raise ZeroDivisionError('0 ** %d' % n)
                return const(a.value ** n, s)
            if n == 0:
                return const(F1, s)
            if n == 1:
                return a if s == a.sort else to_real(a)
            if n < 0:
                return div(const(F1), power(to_real(a), const(-n)))
            return _mk('pow', (a if s == 'I' else to_real(a), const(n)), s)
        a = to_real(a)
        if e == Fraction(1, 2):
            return sqrt(a)
        if (e * 2).denominator == 1:
            # x**(k/2) = sqrt(x)**k
            return power(sqrt(a), const(int(e * 2)))
        from . import explore
        explore.domain(ge(a, const(0)), 'fractional power of a negative number')
        if a.op == 'const' and a.value in (0, 1):
            return const(a.value, 'R')
        return _mk('rpow', (a, const(e, 'R')), 'R')
    if a.op == 'const' and a.value == 1:
        return const(F1, 'R')
    return _mk('gpow', (to_real(a), b), 'R')


def floordiv(a, b):
    if a.op == 'const' and b.op == 'const':
        return const(Fraction(a.value // b.value), _sort2(a, b))
    return _mk('floordiv', (a, b), _sort2(a, b))


def modulo(a, b):
    if a.op == 'const' and b.op == 'const':
        return const(Fraction(a.value % b.value), _sort2(a, b))
    return _mk('mod', (a, b), _sort2(a, b))


def _isqrt_exact(fr):
    if fr < 0:
        return None
    n, d = math.isqrt(fr.numerator), math.isqrt(fr.denominator)
    if n * n == fr.numerator and d * d == fr.denominator:
        return Fraction(n, d)
    return None


def sqrt(a):
    a = to_real(num(a))
    if a.op == 'const':
        r = _isqrt_exact(a.value)
        if r is not None:
            return const(r, 'R')
        if a.value < 0:
            from . import explore
            explore.domain(FALSE, 'square root of a negative number')
    else:
        from . import explore
        explore.domain(ge(a, const(0)), 'square root of a negative number')
    return _mk('sqrt', (a,), 'R')


def exp(a):
    a = to_real(num(a))
    if a.op == 'const' and a.value == 0:
        return const(F1, 'R')
    return _mk('fn', ('exp', a), 'R')


def log(a):
    a = to_real(num(a))
    if a.op == 'const' and a.value == 1:
        return const(F0, 'R')
    from . import explore
    explore.domain(gt(a, const(0)), 'logarithm of a non-positive number')
    return _mk('fn', ('log', a), 'R')


def fn(name, *args, **kw):
    sort = kw.get('sort', 'R')
    return _mk('fn', (name,) + tuple(args), sort)


def absolute(a):
    a = num(a)
    if a.op == 'const':
        return const(abs(a.value), a.sort)
    return _mk('abs', (a,), a.sort)


def floor(a):
    a = num(a)
    if a.sort == 'I':
        return a
    if a.op == 'const':
        return const(a.value.numerator // a.value.denominator)
    return _mk('floor', (a,), 'I')


def trunc(a):
    """C / Python int() truncation toward zero."""
    a = num(a)
    if a.sort == 'I':
        return a
    if a.op == 'const':
        return const(int(a.value))
    return ite(ge(a, const(0)), floor(a), mul(const(-1), floor(mul(const(-1), a))))


# ------------------------------------------------------------------------------------ booleans

def _constcmp(a, b):
    return a.op == 'const' and b.op == 'const'


def lt(a, b):
    if _constcmp(a, b):
        return TRUE if a.value < b.value else FALSE
    if a is b:
        return FALSE
    return _mk('lt', (a, b), 'B')


def gt(a, b): return lt(b, a)


def le(a, b):
    if _constcmp(a, b):
        return TRUE if a.value <= b.value else FALSE
    if a is b:
        return TRUE
    return _mk('le', (a, b), 'B')


def ge(a, b): return le(b, a)


def eq(a, b):
    if a is b:
        return TRUE
    if _constcmp(a, b):
        return TRUE if a.value == b.value else FALSE
    if a.uid > b.uid:
        a, b = b, a
    return _mk('eq', (a, b), 'B')


def ne(a, b): return lnot(eq(a, b))


def lnot(b):
    b = boolean(b)
    if b.op == 'true':
        return FALSE
    if b.op == 'false':
        return TRUE
    if b.op == 'not':
        return b.args[0]
    if b.op == 'lt':
        return le(b.args[1], b.args[0])
    if b.op == 'le':
        return lt(b.args[1], b.args[0])
    return _mk('not', (b,), 'B')


def land(*bs):
    out = []
    for b in bs:
        b = boolean(b)
        if b.op == 'false':
            return FALSE
        if b.op == 'true':
            continue
        if b.op == 'and':
            out.extend(x for x in b.args if not any(x is y for y in out))
        elif not any(b is x for x in out):
            out.append(b)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk('and', out, 'B')


def lor(*bs):
    return lnot(land(*[lnot(b) for b in bs]))


def lxor(a, b):
    return lnot(iff(a, b))


def iff(a, b):
    a, b = boolean(a), boolean(b)
    if a is b:
        return TRUE
    if a.op == 'true':
        return b
    if b.op == 'true':
        return a
    if a.op == 'false':
        return lnot(b)
    if b.op == 'false':
        return lnot(a)
    return _mk('iff', (a, b), 'B')


def implies(a, b):
    return lor(lnot(boolean(a)), boolean(b))


def ite(c, a, b):
    c = boolean(c)
    if c.op == 'true':
        return a
    if c.op == 'false':
        return b
    if isinstance(a, T) and isinstance(b, T) and a.sort == 'B' and b.sort == 'B':
        if a is b:
            return a
        return land(implies(c, a), implies(lnot(c), b))
    a, b = num(a), num(b)
    if a is b:
        return a
    s = _sort2(a, b)
    if s == 'R':
        a, b = to_real(a), to_real(b)
    return _mk('ite', (c, a, b), s)


# ------------------------------------------------------------------------------- binders / misc

_BV = [0]


def bound(sort='I', hint='i'):
    """A fresh variable, later closed by `red` (canonical renaming happens in the normal form)."""
    _BV[0] += 1
    return var('%s!%d' % (hint, _BV[0]), sort)


def red(kind, bv, body, *params):
    """A reduction of `body` over the bound variable `bv` (a linear functional of the body):
    kind 'sum' with param n (the index runs over 0..n-1); other kinds carry whatever distinguishes the
    functional.  A sum of known length is written out."""
    if kind == 'sum' and params[0].op == 'const' and params[0].value <= 128:
        tot = const(F0, 'R')
        for i in range(max(0, int(params[0].value))):
            tot = add(tot, substitute(body, {bv: const(i)}))
        return tot
    return _mk('red', (kind, bv, body) + tuple(params), 'R')


def free_vars(t):
    """Names of the free variables (frozenset); iterative."""
    if t._fv is not None:
        return t._fv
    stack = [t]
    while stack:
        x = stack[-1]
        if x._fv is not None:
            stack.pop()
            continue
        kids = [a for a in x.args if isinstance(a, T)]
        todo = [k for k in kids if k._fv is None]
        if todo:
            stack.extend(todo)
            continue
        if x.op == 'var':
            x._fv = frozenset([x.args[0]])
        elif x.op == 'red':
            bv = x.args[1].args[0]
            s = frozenset()
            for k in x.args[2:]:
                if isinstance(k, T):
                    s |= k._fv
            x._fv = s - {bv}
        else:
            s = frozenset()
            for k in kids:
                s |= k._fv
            x._fv = s
        stack.pop()
    return t._fv


def substitute(t, mapping, memo=None):
    """mapping: {var term: term}."""
    names = frozenset(k.args[0] for k in mapping)
    memo = {} if memo is None else memo

    def go(x):
        if not (free_vars(x) & names):
            return x
        r = memo.get(x.uid)
        if r is not None:
            return r
        if x.op == 'var':
            r = mapping.get(x, x)
        else:
            args = [go(a) if isinstance(a, T) else a for a in x.args]
            r = rebuild(x, args)
        memo[x.uid] = r
        return r
    return go(t)


def rebuild(x, args):
    op = x.op
    f = {'add': add, 'mul': mul, 'lt': lt, 'le': le, 'eq': eq, 'iff': iff,
         'floordiv': floordiv, 'mod': modulo}.get(op)
    if f:
        return f(*args)
    if op == 'not':
        return lnot(args[0])
    if op == 'and':
        return land(*args)
    if op == 'ite':
        return ite(*args)
    if op == 'abs':
        return absolute(args[0])
    if op == 'toreal':
        return to_real(args[0])
    if op == 'floor':
        return floor(args[0])
    if op == 'div' and args[1].op == 'const' and args[1].value != 0:
        return mul(const(1 / args[1].value, 'R'), args[0])
    if op == 'pow' and args[0].op == 'const':
        return const(args[0].value ** int(args[1].value), x.sort)
    if op == 'red' and args[0] == 'sum' and args[3].op == 'const' and args[3].value <= 128:
        return red(*args)
    if op == 'sqrt' and args[0].op == 'const':
        r = _isqrt_exact(args[0].value)
        if r is not None:
            return const(r, 'R')
    if op == 'fn' and args[0] == 'exp' and args[1].op == 'const' and args[1].value == 0:
        return const(F1, 'R')
    return _mk(op, args, x.sort)


def subterms(t, acc=None, seen=None):
    seen = set() if seen is None else seen
    acc = [] if acc is None else acc
    stack = [t]
    while stack:
        x = stack.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        acc.append(x)
        stack.extend(a for a in x.args if isinstance(a, T))
    return acc


def show(t, depth=12):
    if not isinstance(t, T):
        return str(t)
    if depth <= 0:
        return '…'
    d = depth - 1
    o, a = t.op, t.args
    if o == 'const':
        v = t.value
        if v.denominator == 1 and abs(v) < 10 ** 9:
            return str(v)
        return '%.6g' % float(v) if abs(v) < Fraction(10) ** 300 else str(v)
    if o == 'var':
        return a[0]
    if o in ('true', 'false'):
        return o
    inf = {'add': '+', 'mul': '*', 'div': '/', 'pow': '**', 'rpow': '**', 'gpow': '**', 'lt': '<',
           'le': '<=', 'eq': '==', 'floordiv': '//', 'mod': '%', 'iff': '<->'}
    if o in inf:
        return '(%s %s %s)' % (show(a[0], d), inf[o], show(a[1], d))
    if o == 'fn':
        return '%s(%s)' % (a[0], ', '.join(show(x, d) for x in a[1:]))
    return '%s(%s)' % (o, ', '.join(show(x, d) for x in a))


PI = var('PI')
