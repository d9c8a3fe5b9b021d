"""Canonical forms of terms: generalised Laurent polynomials over Q.

A polynomial is {monomial: Fraction}; a monomial a sorted tuple of (atom id, rational exponent).
Atoms: variables, uninterpreted applications, exponentials exp(m) (so exp(a+b) = exp(a)exp(b)
holds by construction), 'poly' atoms (multi-term bases of negative or fractional powers),
reductions (linear functionals, expanded by linearity over index-free factors), absolute values,
conditionals.  `is_zero(p)` clears denominators; a True answer is a proof of the identity over the
reals wherever both sides are defined; a False answer proves nothing.
"""
from fractions import Fraction
from math import gcd
from . import terms as tm
from .terms import T, F0, F1

MAXTERMS = 60000


class Rebase(Exception):
    """a smaller base angle was found: start over"""


class TooBig(Exception):
    pass


class Atom(object):
    __slots__ = ('id', 'key', 'kind', 'fv', 'pos', 'poly', 'term', 'extra')


class Normalizer(object):
    def __init__(self, positive=()):
        self.depth, self.angles, self.depths = 0, {}, {}
        self.positive = set(positive) | {'PI'}
        self.atoms = []
        self.byid = {}
        self.bykey = {}
        self.cache = {}

    # ---------------------------------------------------------------- atoms
    def atom(self, key, kind, fv, pos=False, poly=None, extra=None):
        a = self.bykey.get(key)
        if a is None:
            a = Atom()
            a.id = len(self.atoms)
            a.key, a.kind, a.fv, a.pos, a.poly, a.extra = key, kind, fv, pos, poly, extra
            self.atoms.append(a)
            self.bykey[key] = a
        return a

    def fv_poly(self, p):
        s = set()
        for m in p:
            for aid, _ in m:
                s |= self.atoms[aid].fv
        return frozenset(s)

    def pos_mono(self, m):
        return all(self.atoms[a].pos for a, _ in m)

    def pos_poly(self, p):
        return bool(p) and all(c > 0 for c in p.values()) and all(
            all(self.atoms[a].pos or (e.denominator == 1 and e % 2 == 0) for a, e in m) for m in p) and any(self.pos_mono(m) for m in p)

    # ---------------------------------------------------------------- ring operations
    def padd(self, p, q):
        if len(p) < len(q):
            p, q = q, p
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, F0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        if len(r) > MAXTERMS:
            raise TooBig()
        return r

    def pscale(self, p, c):
        if not c:
            return {}
        return {m: v * c for m, v in p.items()}

    def mono_mul(self, m, n):
        """product of monomials -> (monomial, [polys to multiply in])"""
        if not m:
            return n, None
        if not n:
            return m, None
        d = dict(m)
        for a, e in n:
            d[a] = d.get(a, F0) + e
        return self.mreduce(d)

    def from_mono(self, m):
        k, extra = self.mreduce(dict(m))
        t = {k: F1}
        for base, n_ in extra or ():
            t = self.pmul(t, self.ppow(base, n_))
        return t

    def mreduce(self, d):
        extra = None
        out = []
        for a, e in d.items():
            if not e:
                continue
            at = self.atoms[a]
            if at.kind == 'poly' and e >= 1:
                k = int(e)
                extra = extra or []
                extra.append((at.poly, k))
                e = e - k
                if not e:
                    continue
            elif at.kind == 'abs' and e >= 2 or at.kind == 'abs' and e <= -2:
                k = int(abs(e)) // 2
                sgn = 1 if e > 0 else -1
                extra = extra or []
                extra.append((at.poly, 2 * k * sgn))
                e = e - 2 * k * sgn
                if not e:
                    continue
            elif at.kind == 'sin' and e >= 2 and e.denominator == 1:
                k = int(e) // 2
                cosm = ((at.extra, Fraction(2)),)
                extra = extra or []
                extra.append(({(): F1, cosm: -F1}, k))
                e = e - 2 * k
                if not e:
                    continue
            elif at.kind == 'csqrt' and (e >= 2 or e < 0):
                # sqrt of a rational constant: keep the exponent in {0, 1}
                k = (e.numerator // e.denominator) // 2
                extra = extra or []
                extra.append(({(): at.extra ** k}, 1))
                e = e - 2 * k
                if not e:
                    continue
            elif at.kind == 'bool':
                e = F1
            out.append((a, e))
        out.sort()
        return tuple(out), extra

    def pmul(self, p, q):
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                k, extra = self.mono_mul(m, n)
                if extra is None:
                    v = r.get(k, F0) + c * d
                    if v:
                        r[k] = v
                    else:
                        r.pop(k, None)
                else:
                    t = {k: c * d}
                    for base, n_ in extra:
                        t = self.pmul(t, self.ppow(base, n_))
                    r = self.padd(r, t)
            if len(r) > MAXTERMS:
                raise TooBig()
        return r

    def ppow(self, p, n):
        n = int(n)
        if n < 0:
            return self.pinv_pow(p, Fraction(n))
        if len(p) == 1 and n > 1:
            (m, c), = p.items()
            if all(self.atoms[a].kind in ('var', 'fn', 'exp', 'red') for a, _ in m):
                return {tuple((a, e * n) for a, e in m): c ** n}
        r = {(): F1}
        b = p
        while n:
            if n & 1:
                r = self.pmul(r, b)
            n >>= 1
            if n:
                b = self.pmul(b, b)
        return r

    def content(self, p):
        """p = c * mono * prim with c rational (sign of the leading coefficient), prim primitive."""
        ms = sorted(p)
        num, den = 0, 1
        for m in ms:
            c = p[m]
            num = gcd(num, abs(c.numerator))
            den = den * c.denominator // gcd(den, c.denominator)
        c = Fraction(num, den)
        if p[ms[0]] < 0:
            c = -c
        common = None
        for m in ms:
            d = dict(m)
            if common is None:
                common = d
            else:
                new = {}
                for a in set(common) | set(d):
                    e = min(common.get(a, F0), d.get(a, F0))
                    if e:
                        new[a] = e
                common = new
        mono = tuple(sorted((a, e) for a, e in common.items() if self.atoms[a].kind != 'bool'))
        inv = tuple((a, -e) for a, e in mono)
        prim = {}
        for m in ms:
            d = dict(m)
            for a, e in inv:
                v = d.get(a, F0) + e
                if v:
                    d[a] = v
                else:
                    d.pop(a, None)
            prim[tuple(sorted(d.items()))] = p[m] / c
        return c, mono, prim

    def polyatom(self, prim):
        key = ('poly', frozenset(prim.items()))
        return self.atom(key, 'poly', self.fv_poly(prim), pos=self.pos_poly(prim), poly=prim)

    def csqrt(self, c):
        """sqrt of a positive rational as r * sqrt(s)."""
        n = c.numerator * c.denominator
        r = Fraction(1, c.denominator)
        for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
            while n % (q * q) == 0:
                n //= q * q
                r *= q
        import math
        s = math.isqrt(n)
        if s * s == n:
            return {(): r * s}
        at = self.atom(('csqrt', n), 'csqrt', frozenset(), pos=True, extra=Fraction(n))
        return {((at.id, F1),): r}

    def cpow(self, c, e):
        if e.denominator == 1:
            return {(): c ** int(e)}
        if e.denominator == 2 and c > 0:
            k = e.numerator // e.denominator
            return self.pscale(self.csqrt(c), c ** k)
        if c == 1:
            return {(): F1}
        at = self.atom(('cpow', c), 'cpow', frozenset(), pos=True, extra=c)
        return {((at.id, e),): F1}

    def pinv_pow(self, p, e):
        """p ** e for a negative integer or fractional e."""
        if not p:
            raise TooBig()
        if len(p) > 1:
            # over a common denominator first
            worst = {}
            for m in p:
                for a, x in m:
                    if x < 0 and self.atoms[a].kind == 'poly' and x.denominator == 1 and (self.atoms[a].pos or e.denominator == 1):
                        worst[a] = max(worst.get(a, 0), -int(x))
            if worst:
                a = max(worst)
                q = self._mulatom(p, a, worst[a])
                if not q:
                    raise TooBig()
                r = self.ppow(q, int(e)) if e.denominator == 1 else self.frac(q, e)
                return self.pmul(r, {((a, -worst[a] * e),): F1})
        c, mono, prim = self.content(p)
        out = None
        if e.denominator == 1:
            out = {(): c ** int(e)}
            out = self.pmul(out, self.from_mono(tuple((a, x * e) for a, x in mono)))
            if len(prim) == 1 and () in prim:
                return out
            at = self.polyatom(prim)
            return self.pmul(out, {((at.id, e),): F1})
        # fractional: the whole base is >= 0 by the domain condition
        if c < 0:
            c, prim = -c, self.pscale(prim, -F1)
        split, rest = [], []
        single = (len(prim) == 1 and () in prim)
        for a, x in mono:
            if self.atoms[a].pos:
                split.append((a, x))
            else:
                rest.append((a, x))
        base = prim
        if rest:
            if single and len(rest) == 1 and rest[0][1].denominator == 1 and rest[0][1] % 2 == 1 and prim.get(()) == 1:
                # an odd power of one atom is non-negative, so is the atom
                split.append(rest[0])
            else:
                base = self.pmul(prim, {tuple(sorted(rest)): F1})
        out = self.cpow(c, e)
        if split:
            out = self.pmul(out, self.from_mono(tuple(sorted((a, x * e) for a, x in split))))
        if len(base) == 1 and () in base and base[()] == 1:
            return out
        if len(base) == 1 and () in base and base[()] < 0:
            # sqrt of a negative quantity: undefined, keep opaque
            at = self.atom(('undef', frozenset(p.items()), e), 'undef', self.fv_poly(p))
            return {((at.id, F1),): F1}
        # reduce sqrt(Q^2 stuff) not attempted
        at = self.polyatom(base)
        return self.pmul(out, {((at.id, e),): F1})

    # ---------------------------------------------------------------- terms -> polynomials
    def norm(self, t):
        r = self.cache.get(t.uid)
        if r is not None:
            return r
        if self.depth:
            return self._normalize(t)
        for _ in range(12):
            self.depth = 1
            try:
                return self._normalize(t)
            except Rebase:
                self.cache.clear()
            finally:
                self.depth = 0
        raise TooBig('angles')

    def _normalize(self, t):
        stack = [t]
        while stack:
            x = stack[-1]
            if x.uid in self.cache:
                stack.pop()
                continue
            if x.op in ('red', 'ite'):
                kids = []
            else:
                kids = [a for a in x.args if isinstance(a, T) and a.sort != 'B' and a.uid not in self.cache]
            if kids:
                stack.extend(kids)
                continue
            self.cache[x.uid] = self._norm(x)
            stack.pop()
        return self.cache[t.uid]

    def _sym(self, key, kind, fv, **kw):
        a = self.atom(key, kind, fv, **kw)
        return {((a.id, F1),): F1}

    def _norm(self, x):
        o, a = x.op, x.args
        N = self.cache
        if o == 'const':
            return {(): x.value} if x.value else {}
        if o == 'var':
            return self._sym(('var', a[0]), 'var', frozenset([a[0]]), pos=a[0] in self.positive)
        if o == 'toreal':
            return N[a[0].uid]
        if o == 'add':
            return self.padd(N[a[0].uid], N[a[1].uid])
        if o == 'mul':
            return self.pmul(N[a[0].uid], N[a[1].uid])
        if o == 'div':
            if not N[a[1].uid]:
                return self._sym(('div0', x.uid), 'undef', tm.free_vars(x))
            return self.pmul(N[a[0].uid], self.pinv_pow(N[a[1].uid], -F1))
        if o == 'pow':
            return self.ppow(N[a[0].uid], int(a[1].value))
        if o == 'sqrt':
            return self.frac(N[a[0].uid], Fraction(1, 2))
        if o == 'rpow':
            return self.frac(N[a[0].uid], a[1].value)
        if o == 'gpow':
            return self.gpow(N[a[0].uid], N[a[1].uid])
        if o == 'abs':
            return self.pabs(N[a[0].uid])
        if o == 'fn':
            return self.fnorm(x)
        if o in ('floordiv', 'mod', 'floor'):
            ps = [N[k.uid] for k in a]
            fv = frozenset().union(*[self.fv_poly(p) for p in ps])
            return self._sym((o,) + tuple(frozenset(p.items()) for p in ps), 'fn', fv)
        if o == 'ite':
            ck = self.boolkey(a[0])
            p, q = self.norm(a[1]), self.norm(a[2])
            if p == q:
                return p
            if ck[0] == 'not':
                ck, p, q = ck[1], q, p
            # ite(c, p, q) = q + [c] (p - q), with [c] an idempotent 0/1 atom
            c = self.atom(('bool', ck), 'bool', tm.free_vars(a[0]), pos=False)
            return self.padd(q, self.pmul({((c.id, F1),): F1}, self.padd(p, self.pscale(q, -F1))))
        if o == 'red':
            return self.rednorm(x)
        raise TooBig()

    def frac(self, p, e):
        if not p:
            return {}
        return self.pinv_pow(p, e)

    def gpow(self, base, ex):
        if len(ex) == 0:
            return {(): F1}
        out = {(): F1}
        bk = frozenset(base.items())
        bfv = self.fv_poly(base)
        for m, c in ex.items():
            if m == ():
                if c.denominator == 1:
                    out = self.pmul(out, self.ppow(base, int(c)))
                else:
                    out = self.pmul(out, self.frac(base, c))
                continue
            fv = bfv | self.fv_poly({m: F1})
            at = self.atom(('gpow', bk, m), 'gpow', fv, pos=self.pos_poly(base), extra=(base, m))
            out = self.pmul(out, {((at.id, c),): F1})
        return out

    def pabs(self, p):
        if not p:
            return {}
        if self.pos_poly(p):
            return p
        if self.pos_poly(self.pscale(p, -F1)):
            return self.pscale(p, -F1)
        c, mono, prim = self.content(p)
        pos = tuple((a, e) for a, e in mono if self.atoms[a].pos)
        rest = tuple((a, e) for a, e in mono if not self.atoms[a].pos)
        out = {pos: abs(c)}
        body = self.pmul(prim, {rest: F1}) if rest else prim
        if len(body) == 1 and body.get((), 0):
            return self.pscale(out, abs(body[()]))
        if body[min(body)] < 0:
            body = self.pscale(body, -F1)
        key = ('abs', frozenset(body.items()))
        at = self.atom(key, 'abs', self.fv_poly(body), poly=body)
        return self.pmul(out, {((at.id, F1),): F1})

    def fnorm(self, x):
        name = x.args[0]
        ps = [self.cache[k.uid] for k in x.args[1:]]
        if name == 'exp':
            out = {(): F1}
            for m, c in ps[0].items():
                # exp(c * log(y)) = y ** c
                if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == 'log':
                    y = self.atoms[m[0][0]].poly
                    if c.denominator == 1 and c > 0:
                        out = self.pmul(out, self.ppow(y, int(c)))
                    else:
                        out = self.pmul(out, self.pinv_pow(y, c))
                    continue
                at = self.atom(('exp', m), 'exp', self.fv_poly({m: F1}), pos=True, extra=m)
                out = self.pmul(out, {((at.id, c),): F1})
            return out
        fv = frozenset().union(*[self.fv_poly(p) for p in ps]) if ps else frozenset()
        if name == 'log':
            return self.plog(ps[0], fv)
        key = ('fn', name) + tuple(frozenset(p.items()) for p in ps)
        if name in ('sin', 'cos'):
            p = ps[0]
            if not p:
                return {} if name == 'sin' else {(): F1}
            sgn = F1
            if p[min(p)] < 0:
                p = self.pscale(p, -F1)
                sgn = -F1 if name == 'sin' else F1
            n = 1
            if len(p) == 1:
                # multiples of one base angle are expanded: sin and cos of n x are polynomials in sin x, cos x
                (m, co), = p.items()
                bases = self.angles.setdefault(m, [])
                for k, b in enumerate(bases):
                    if (co / b).denominator == 1 and co / b <= 8:
                        n = int(co / b)
                        p = {m: b}
                        break
                    if (b / co).denominator == 1 and b / co <= 8:
                        bases[k] = co
                        raise Rebase()
                else:
                    bases.append(co)
            if n > 1:
                pk = frozenset(p.items())
                C = {((self.atom(('fn', 'cos', pk), 'fn', fv).id, F1),): F1}
                S = {((self.atom(('fn', 'sin', pk), 'sin', fv, extra=next(iter(C))[0][0]).id, F1),): F1}
                cn, sn = C, S
                for _ in range(n - 1):
                    cn, sn = (self.padd(self.pmul(cn, C), self.pscale(self.pmul(sn, S), -F1)),
                              self.padd(self.pmul(sn, C), self.pmul(cn, S)))
                return cn if name == 'cos' else self.pscale(sn, sgn)
            pk = frozenset(p.items())
            c = self.atom(('fn', 'cos', pk), 'fn', fv)
            if name == 'cos':
                return {((c.id, F1),): F1}
            s = self.atom(('fn', 'sin', pk), 'sin', fv, extra=c.id)
            return {((s.id, F1),): sgn}
        return self._sym(key, 'fn', fv, pos=name in self.positive)

    def plog(self, p, fv):
        if len(p) == 1:
            (m, c), = p.items()
            if c > 0 and m and all(self.atoms[a].pos for a, _ in m):
                out = {}
                for a, e in m:
                    at = self.atoms[a]
                    if at.kind == 'exp':
                        out = self.padd(out, {at.extra: e})
                    else:
                        one = {((a, F1),): F1}
                        l = self.atom(('log', frozenset(one.items())), 'log', at.fv, poly=one)
                        out = self.padd(out, {((l.id, F1),): e})
                if c != 1:
                    cc = {(): c}
                    l = self.atom(('log', frozenset(cc.items())), 'log', frozenset(), poly=cc)
                    out = self.padd(out, {((l.id, F1),): F1})
                return out
            if len(m) == 1 and c == 1 and m[0][1] == -1:
                one = {((m[0][0], F1),): F1}
                l = self.atom(('log', frozenset(one.items())), 'log', fv, poly=one)
                return {((l.id, F1),): -F1}
        l = self.atom(('log', frozenset(p.items())), 'log', fv, poly=p)
        return {((l.id, F1),): F1}

    # ---------------------------------------------------------------- reductions
    def red_depth(self, x, memo=None):
        """height of the binder x: one more than the highest binder inside it whose term mentions the bound variable"""
        memo = self.depths
        d = memo.get(x.uid)
        if d is None:
            d = 0
            name = x.args[1].args[0]
            seen, todo = set(), [a for a in x.args[2:] if isinstance(a, T)]
            while todo:
                t = todo.pop()
                if t.uid in seen or name not in tm.free_vars(t):
                    continue
                seen.add(t.uid)
                if t.op == 'red':
                    d = max(d, self.red_depth(t))
                todo.extend(a for a in t.args if isinstance(a, T))
            d = memo[x.uid] = d + 1
        return d

    def rednorm(self, x):
        kind, bv, body = x.args[:3]
        params = x.args[3:]
        depth = self.red_depth(x)
        cv = tm.var('$b%d' % depth, bv.sort)
        m = {bv: cv}
        nb = self.norm(tm.substitute(body, m))
        pk = []
        pfv = set()
        for p in params:
            if isinstance(p, T):
                q = tm.substitute(p, m)
                if p.sort == 'B':
                    pk.append(('b', self.boolkey(q)))
                    pfv |= tm.free_vars(q)
                else:
                    q = self.norm(q)
                    pk.append(frozenset(q.items()))
                    pfv |= self.fv_poly(q)
            else:
                pk.append(p)
        name = cv.args[0]
        pfv.discard(name)
        out = {}
        for mono, c in nb.items():
            dep = tuple((a, e) for a, e in mono if name in self.atoms[a].fv)
            free = tuple((a, e) for a, e in mono if name not in self.atoms[a].fv)
            if kind == 'sum' and not dep:
                n = self.norm(tm.substitute(params[0], m))
                out = self.padd(out, self.pmul({free: c}, n))
                continue
            fv = (self.fv_poly({dep: F1}) - {name}) | pfv
            at = self.atom(('red', kind, dep, tuple(pk)), 'red', frozenset(fv))
            out = self.padd(out, self.pmul({free: c}, {((at.id, F1),): F1}))
        return out

    # ---------------------------------------------------------------- booleans
    def boolkey(self, b):
        o, a = b.op, b.args
        if o in ('true', 'false'):
            return (o,)
        if o in ('lt', 'le', 'eq'):
            p = self.padd(self.norm(a[0]), self.pscale(self.norm(a[1]), -F1))
            if not p:
                return ('true',) if o != 'lt' else ('false',)
            if len(p) == 1 and () in p:
                v = p[()]
                return ('true',) if (o == 'lt' and v < 0 or o == 'le' and v <= 0) else ('false',)
            c, mono, prim = self.content(p)
            base = self.pmul(prim, {mono: F1})
            if o == 'eq':
                return ('eq', frozenset(base.items()))
            if o == 'le':      # p <= 0  <=> not (0 < p) <=> not (-p < 0)
                p2 = self.pscale(base, -F1 if c > 0 else F1)
                return ('not', ('lt', frozenset(p2.items())))
            return ('lt', frozenset(self.pscale(base, F1 if c > 0 else -F1).items()))
        if o == 'not':
            k = self.boolkey(a[0])
            if k[0] == 'not':
                return k[1]
            return {'true': ('false',), 'false': ('true',)}.get(k[0], ('not', k))
        if o == 'and':
            return ('and', frozenset(self.boolkey(k) for k in a))
        if o == 'iff':
            return ('iff', frozenset(self.boolkey(k) for k in a))
        if o == 'var':
            return ('bvar', a[0])
        if o == 'fn':
            return ('bfn', a[0]) + tuple(frozenset(self.norm(k).items()) for k in a[1:])
        return ('raw', b.uid)

    # ---------------------------------------------------------------- zero test
    def clear(self, p, rounds=40):
        """Multiply by (non-zero) denominators until none is left."""
        for _ in range(rounds):
            worst = {}
            for m in p:
                for a, e in m:
                    if e < 0 and self.atoms[a].kind in ('poly',):
                        k = -((e.numerator) // e.denominator)     # ceil(-e)
                        worst[a] = max(worst.get(a, 0), k)
            if not worst:
                return p
            a = max(worst)      # outermost first
            p = self._mulatom(p, a, worst[a])
        raise TooBig()

    def _mulatom(self, p, a, k):
        out = {}
        at = self.atoms[a]
        for m, c in p.items():
            d = dict(m)
            e = d.get(a, F0) + k
            d.pop(a, None)
            n = 0
            if e >= 1:
                n = int(e)
                e = e - n
            if e:
                d[a] = e
            t = {tuple(sorted(d.items())): c}
            if n:
                t = self.pmul(t, self.ppow(at.poly, n))
            out = self.padd(out, t)
        return out

    def is_zero(self, t):
        try:
            p = self.norm(t)
            if not p:
                return True
            p = self.clear(p)
            return not p
        except (TooBig, RecursionError, OverflowError, ZeroDivisionError):
            return False

    def equal(self, a, b):
        return self.is_zero(tm.sub(tm.num(a), tm.num(b)))
