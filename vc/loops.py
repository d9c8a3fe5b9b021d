"""The loop rule for iterables of symbolic length.

The body is executed once for a generic index k (0 <= k < n) from a havoced state.  A loop-carried
name must come out either unchanged, or as `itself + g(k)` with g free of the loop-carried state
(then its final value is `initial + sum_{k<n} g(k)`, by induction on n), or, for a list, with elements
appended (one per iteration).  Anything else is Unsupported (=> undecided)."""
import builtins as _b
from . import terms as tm
from . import explore
from .terms import T, Unsupported


def is_symbolic(it):
    sh = getattr(it, '_shape', None)
    if sh and tm.num(sh[0]).is_const:
        return False
    return hasattr(type(it), '__vc_iter__')


def seq(it):
    """(length, element function) of a symbolic iterable."""
    n, f = it.__vc_iter__()
    return tm.num(n), f


class Zip(object):
    def __init__(self, *its):
        self.its = its

    def __iter__(self):
        raise Unsupported('iteration over a zip of symbolic length')

    def __vc_iter__(self):
        from .arrays import same
        parts = []
        n = None
        for i in self.its:
            if not is_symbolic(i):
                if isinstance(i, (list, tuple)):
                    from .shims import _as_slist
                    i = _as_slist(i)
                else:
                    raise Unsupported('zip of symbolic and concrete iterables')
            m, f = seq(i)
            if n is None:
                n = m
            elif not same(n, m):
                # zip stops at the shorter one
                n = m if bool(tm.lt(m, n)) else n
            parts.append(f)
        return n, lambda k: tuple(f(k) for f in parts)


class Enum(object):
    def __init__(self, it, start=0):
        self.it, self.start = it, start

    def __iter__(self):
        raise Unsupported('iteration over an enumerate of symbolic length')

    def __vc_iter__(self):
        n, f = seq(self.it)
        return n, lambda k: (tm.add(k, tm.num(self.start)), f(k))


class MapSeq(object):
    """Result of a comprehension over a symbolic iterable."""

    def __init__(self, n, f, mask=None):
        self.n, self.f, self.mask = n, f, mask

    def __iter__(self):
        raise Unsupported('iteration over a comprehension of symbolic length')

    def __vc_iter__(self):
        if self.mask is not None:
            raise Unsupported('iteration over a filtered symbolic comprehension')
        return self.n, self.f

    def __vc_len__(self):
        if self.mask is not None:
            raise Unsupported('length of a filtered symbolic comprehension')
        return self.n

    def __vc_sum__(self, start=0):
        k = tm.bound('I', 'k')

        def one():
            with _index(k, self.n):
                v = tm.to_real(tm.num(self.f(k)))
                if self.mask is not None:
                    v = tm.ite(tm.boolean(self.mask(k)), v, tm.const(0))
                return v
        body = explore.merged(one)
        return start + tm.red('sum', k, tm.num(body), self.n)

    def __vc_list__(self):
        from .shims import SList
        if self.mask is not None:
            raise Unsupported('list of a filtered symbolic comprehension')
        k = tm.bound('I', 'k')

        def one():
            with _index(k, self.n):
                return self.f(k)
        return SList(self.n, k, tm.num(explore.merged(one)))

    def quantify(self, kind):
        from . import arrays as ar
        k = tm.bound('I', 'k')

        def one():
            with _index(k, self.n):
                b = tm.boolean(self.f(k))
                if self.mask is not None:
                    m = tm.boolean(self.mask(k))
                    b = tm.implies(m, b) if kind == 'all' else tm.land(m, b)
                return tm.ite(b, tm.const(1), tm.const(0))
        b = tm.eq(tm.num(explore.merged(one)), tm.const(1))
        a = ar.SArr((self.n,), (k,), b)
        return ar.vall(a) if kind == 'all' else ar.vany(a)


class _index(object):
    """0 <= k < n is known while the body for the generic index k runs."""

    def __init__(self, k, n):
        self.c = [tm.le(tm.const(0), k), tm.lt(k, n)]

    def __enter__(self):
        p = explore.current()
        self.p = p
        if p is not None:
            if p.locals:
                loc = p.locals[-1]
                loc.conds.extend(self.c)
                for c in self.c:
                    loc.known[c.uid] = True
                    loc.known[tm.lnot(c).uid] = False
        return self

    def __exit__(self, *a):
        p = self.p
        if p is not None and p.locals:
            loc = p.locals[-1]
            for c in self.c:
                for i, d in enumerate(loc.conds):
                    if d is c:
                        del loc.conds[i]
                        break
        return False


def comp(kind, it, fn):
    if is_symbolic(it):
        n, f = seq(it)
        # does the comprehension filter?  probe the generic element
        state = {}

        def elem(k):
            r = fn(f(k))
            if len(r) == 1:
                return r[0][0]
            raise _Filtered()

        def maskof(k):
            return tm.const(1) if len(fn(f(k))) == 1 else tm.const(0)
        k = tm.bound('I', 'k')

        def probe():
            with _index(k, n):
                return maskof(k)
        m = tm.num(explore.merged(probe))
        if m.op == 'const' and m.value == 1:
            r = MapSeq(n, elem)
        else:
            def elem2(j):
                r = fn(f(j))
                return r[0][0] if len(r) == 1 else tm.const(0)
            r = MapSeq(n, elem2, lambda j: tm.eq(tm.substitute(m, {k: tm.num(j)}), tm.const(1)))
        if kind == 'list' and r.mask is None:
            try:
                return r.__vc_list__()
            except Unsupported:
                return r
        return r
    if kind == 'gen':
        return (e[0] for x in it for e in fn(x))
    return [e[0] for x in it for e in fn(x)]


class _Filtered(Exception):
    pass


class _Rec(list):
    """A list standing for an unknown prefix, recording what one iteration appends."""

    def __init__(self):
        list.__init__(self)

    def __getitem__(self, i):
        raise Unsupported('reading a list that the symbolic loop appends to')

    __len__ = None


def loop(it, body, get, set_, lineno):
    n, f = seq(it)
    p = explore.current()
    roots = getattr(p, 'roots', [])
    init = get()
    k = tm.bound('I', 'k')
    hv, recs = {}, {}
    for nm, v in init.items():
        if isinstance(v, T) and v.sort != 'B' or tm.is_num(v) and not isinstance(v, bool):
            hv[nm] = tm.bound('R', 'h_' + nm)
    heap0 = {}
    for r in roots:
        for a, v in vars(r).items():
            if isinstance(v, T) and v.sort != 'B' or tm.is_num(v) and not isinstance(v, bool):
                heap0[(id(r), a)] = (r, a, v, tm.bound('R', 'h_' + a))
    before = {(id(r), a): v for r in roots for a, v in vars(r).items()}
    extra = {}

    def one():
        set_(dict(hv))
        for r, a, v, h in heap0.values():
            setattr(r, a, h)
        with _index(k, n):
            body(f(k))
        out = get()
        res = []
        for nm in sorted(hv):
            res.append(_as_num(out[nm], nm))
        for key in sorted(heap0, key=lambda q: (q[1], q[0])):
            r, a, v, h = heap0[key]
            res.append(_as_num(getattr(r, a), a))
        for nm, v in init.items():
            if nm not in hv and out.get(nm) is not v and not (nm in extra):
                extra[nm] = True
        for r in roots:
            for a, v in vars(r).items():
                if (id(r), a) not in heap0 and before.get((id(r), a)) is not v:
                    raise Unsupported('symbolic loop changes attribute %s' % a)
        return tuple(res)
    try:
        res = explore.merged(one)
    finally:
        for r, a, v, h in heap0.values():
            setattr(r, a, v)
    names = sorted(hv)
    carried = set(x.args[0] for x in hv.values()) | set(x[3].args[0] for x in heap0.values())
    nz = p.x.smt.nz
    final = {}

    def summarise(v0, h, new, what):
        if new is h:
            return v0
        d = tm.sub(new, h)
        d = _strip(d, h, new)
        if tm.free_vars(d) & carried:
            # try the normal form: is it independent of the state?
            z = tm.substitute(d, {h: tm.const(tm.F0)})
            if nz.equal(d, z) and not (tm.free_vars(z) & carried):
                d = z
            else:
                raise Unsupported('loop at line %s: %s is not an accumulator' % (lineno, what))
        return tm.add(tm.to_real(tm.num(v0)), tm.red('sum', k, tm.to_real(d), n))
    for nm, new in zip(names, res):
        final[nm] = summarise(init[nm], hv[nm], new, nm)
    for key, new in zip(sorted(heap0, key=lambda q: (q[1], q[0])), res[len(names):]):
        r, a, v, h = heap0[key]
        setattr(r, a, summarise(v, h, new, a))
    for nm in extra:
        final[nm] = Poison(nm)
    for nm in init:
        if nm not in final:
            final[nm] = init[nm]
    set_(final)


def _strip(d, h, new):
    """new = h + g  ->  g, pushing through ite"""
    def go(x):
        if x is h:
            return tm.const(tm.F0)
        if x.op == 'add':
            a, b = x.args
            if h.args[0] in tm.free_vars(a) and h.args[0] not in tm.free_vars(b):
                return tm.add(go(a), b)
            if h.args[0] in tm.free_vars(b) and h.args[0] not in tm.free_vars(a):
                return tm.add(a, go(b))
        if x.op == 'ite':
            return tm.ite(x.args[0], go(x.args[1]), go(x.args[2]))
        if x.op == 'toreal':
            return go(x.args[0])
        raise KeyError
    try:
        return go(new)
    except KeyError:
        return d


def _as_num(v, nm):
    if isinstance(v, T) or tm.is_num(v):
        return tm.to_real(tm.num(v))
    raise Unsupported('loop-carried %s becomes %r' % (nm, type(v)))


class Poison(object):
    """value of a loop-assigned name after a symbolic loop (must not be used)"""

    def __init__(self, nm):
        self.__dict__['nm'] = nm

    def __getattr__(self, a):
        raise Unsupported('use of %s after a symbolic loop' % self.__dict__['nm'])


class While(object):
    """Rule for one while loop.  inv(L) -> [(name, condition)] over the dict of local variables; variant(L) -> a term that is
    >= 0 while the loop runs and decreases; pure: functions the body may call; state: objects changed in place, name -> havoc(old)"""

    def __init__(self, inv, variant=None, pure=(), havoc=None):
        self.inv, self.variant, self.pure, self.hv = inv, variant, set(pure), havoc or {}


PURE = {'cpp_ix', 'cpp_idiv', 'cpp_b2i', 'cpp_mod', 'len', 'abs', 'min', 'max', 'float', 'int', 'range', '__vc_div__', '__vc_mul__', '__vc_pow__', '__vc_lit__',
        '__vc_getitem__', '__vc_in__'}


class Locals(dict):
    def __missing__(self, k):
        raise Unsupported('the loop has no variable %s' % k)


class WhileRun(object):
    def __init__(self, rule, key, stored, touched):
        self.rule, self.key, self.stored = rule, key, stored
        for t in touched:
            kind, _, nm = t.partition(':')
            if kind == 'call' and (nm in PURE or nm in rule.pure or nm.partition('.')[0] in rule.hv):
                continue
            if kind == 'store' and nm in rule.hv:
                continue
            raise Unsupported('loop %s: %s is not covered by its rule' % (key, t))
        self.p = explore.current()

    def _oblige(self, what, c):
        self.p.obligations.append(('%s: %s' % (self.key, what), tm.boolean(c), len(self.p.pc), None))

    def enter(self, L):
        for nm in self.rule.hv:
            if isinstance(L.get(nm), list) and any(x is L[nm] for k, x in L.items() if k != nm):
                raise Unsupported('loop %s: %s has another name' % (self.key, nm))
        for nm, c in self.rule.inv(Locals(L)):
            self._oblige('invariant holds initially: ' + nm, c)

    def havoc(self, name, x):
        if name in self.rule.hv:
            return self.rule.hv[name](x)
        if not (isinstance(x, T) or tm.is_num(x)):
            if type(x).__name__ == 'Undef':
                return x
            raise Unsupported('loop %s changes %s' % (self.key, name))
        self.p.nhavoc = getattr(self.p, 'nhavoc', 0) + 1
        sort = x.sort if isinstance(x, T) else ('I' if isinstance(x, int) and not isinstance(x, bool) else 'R')
        return tm.var('all!%s_%d' % (name, self.p.nhavoc), sort)

    def havoc_place(self, name, x):
        return self.rule.hv[name](x) if name in self.rule.hv else x

    def assume(self, L):
        for nm, c in self.rule.inv(Locals(L)):
            self.p.assume(tm.boolean(c))
        self.v0 = self.rule.variant(Locals(L)) if self.rule.variant else None

    def preserved(self, L):
        L = Locals(L)
        for nm, c in self.rule.inv(L):
            self._oblige('invariant is preserved: ' + nm, c)
        if self.v0 is not None:
            v1 = self.rule.variant(L)
            self._oblige('terminates: the variant stays non-negative', tm.le(tm.const(0), tm.num(self.v0)))
            v1, v0 = tm.num(v1), tm.num(self.v0)
            if v0.sort == 'R' or v1.sort == 'R':
                v1 = tm.add(tm.to_real(v1), tm.const(1))      # by at least one
                v0 = tm.to_real(v0)
                self._oblige('terminates: the variant decreases', tm.le(v1, v0))
            else:
                self._oblige('terminates: the variant decreases', tm.lt(v1, v0))
        raise explore.PathEnd()
