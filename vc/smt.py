"""Discharging obligations: normal form, then z3 (nlsat / default), then cvc5."""
import subprocess
import time
from fractions import Fraction
import z3
from . import terms as tm
from .terms import T, TRUE, FALSE
from .norm import Normalizer, TooBig

z3.set_param('memory_max_size', 6000)

NONARITH = ('exp', 'log', 'sin', 'cos')


class Translator(object):
    """terms -> z3; function applications become constants with congruence / axiom instances."""

    def __init__(self, nz, facts=None):
        self.nz = nz
        self.memo = {}
        self.side = []
        self.apps = {}         # name -> list of (args z3, const)
        self.inexact = set()
        self.vars = {}
        self.has_int = False
        self.n = 0
        self.keys = {}
        self.mono = []         # monotone functions: (name, arg, const)
        self.facts = facts or {}
        self.seen = {}
        self.pending = []

    def fresh(self, hint, sort):
        self.n += 1
        nm = '%s!%d' % (hint, self.n)
        if sort == 'I':
            self.has_int = True
            return z3.Int(nm)
        return z3.Bool(nm) if sort == 'B' else z3.Real(nm)

    def real(self, t):
        e = self.tr(t)
        return z3.ToReal(e) if e.sort() == z3.IntSort() else e

    def tr(self, t):
        r = self.memo.get(t.uid)
        if r is not None:
            return r
        # iterative post-order to keep the Python stack shallow
        stack = [t]
        while stack:
            x = stack[-1]
            if x.uid in self.memo:
                stack.pop()
                continue
            kids = [a for a in x.args if isinstance(a, T)] if x.op not in ('red',) else []
            todo = [k for k in kids if k.uid not in self.memo]
            if todo:
                stack.extend(todo)
                continue
            self.memo[x.uid] = self._tr(x)
            stack.pop()
        return self.memo[t.uid]

    def later(self, e):
        """translate a fact about applications already translated (or being translated)"""
        self.pending.append(e)
        return z3.BoolVal(True)

    def flush(self):
        while self.pending:
            self.side.append(self.tr(self.pending.pop()))

    def q(self, v):
        return z3.RealVal('%d/%d' % (v.numerator, v.denominator))

    def _pair(self, a, b):
        x, y = self.memo[a.uid], self.memo[b.uid]
        if x.sort() != y.sort():
            x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
            y = z3.ToReal(y) if y.sort() == z3.IntSort() else y
        return x, y

    def _tr(self, x):
        o, a = x.op, x.args
        M = self.memo
        if o == 'const':
            if x.sort == 'I':
                return z3.IntVal(int(x.value))
            return self.q(x.value)
        if o == 'var':
            nm = a[0]
            if x.sort == 'I':
                self.has_int = True
                v = z3.Int(nm)
            elif x.sort == 'B':
                v = z3.Bool(nm)
            else:
                v = z3.Real(nm)
                if nm == 'PI':
                    self.side.append(v > z3.Q(314159265, 10**8))
                    self.side.append(v < z3.Q(314159266, 10**8))
            self.vars[nm] = (x, v)
            return v
        if o == 'true':
            return z3.BoolVal(True)
        if o == 'false':
            return z3.BoolVal(False)
        if o == 'toreal':
            e = M[a[0].uid]
            return z3.ToReal(e) if e.sort() == z3.IntSort() else e
        if o in ('add', 'mul'):
            p, q = self._pair(*a)
            return p + q if o == 'add' else p * q
        if o == 'div':
            p, q = self._pair(*a)
            d = self.fresh('div', 'R')
            self.side.append(z3.Implies(q != 0, d * q == p))
            return d
        if o == 'pow':
            b = M[a[0].uid]
            r = b
            for _ in range(int(a[1].value) - 1):
                r = r * b
            return r
        if o == 'sqrt':
            b = M[a[0].uid]
            s = self.fresh('sqrt', 'R')
            self.side.append(z3.Implies(b >= 0, z3.And(s >= 0, s * s == b)))
            self._cong('sqrt', [b], s)
            return s
        if o in ('rpow', 'gpow'):
            b, e = self.real(a[0]), self.real(a[1])
            s = self.fresh(o, 'R')
            self.side.append(z3.Implies(b > 0, s > 0))
            if o == 'rpow':
                ev = a[1].value
                if ev.numerator > 0 and ev.denominator <= 4 and ev.numerator <= 6:
                    lhs = s
                    for _ in range(ev.denominator - 1):
                        lhs = lhs * s
                    rhs = b
                    for _ in range(ev.numerator - 1):
                        rhs = rhs * b
                    self.side.append(z3.Implies(b >= 0, z3.And(s >= 0, lhs == rhs)))
                else:
                    self.inexact.add(o)
            else:
                self.inexact.add(o)
                self.side.append(z3.Implies(e == 0, s == 1))
                for (b2, e2, s2) in [k for k in self.apps.get('gpow#', [])]:
                    self.side.append(z3.Implies(z3.And(b == b2, b > 1, e < e2), s < s2))
                    self.side.append(z3.Implies(z3.And(b == b2, b > 1, e2 < e), s2 < s))
                    self.side.append(z3.Implies(z3.And(b == b2, e2 == e), s2 == s))
                self.side.append(z3.Implies(z3.And(b > 1, e > 0), s > 1))
                self.side.append(z3.Implies(z3.And(b > 1, e < 0), s < 1))
                self.apps.setdefault('gpow#', []).append((b, e, s))
            self._cong(o, [b, e], s)
            return s
        if o == 'floor':
            b = M[a[0].uid]
            k = self.fresh('floor', 'I')
            self.side.append(z3.ToReal(k) <= b)
            self.side.append(b < z3.ToReal(k) + 1)
            return k
        if o in ('floordiv', 'mod'):
            if x.sort != 'I':
                raise tm.Unsupported('real floor division')
            p, q = self._pair(*a)
            # Python semantics for positive divisors coincide with z3's Euclidean div / mod
            self.side.append(q > 0)
            self.inexact.add('floordiv')
            return p / q if o == 'floordiv' else p % q
        if o == 'abs':
            b = M[a[0].uid]
            return z3.If(b >= 0, b, -b)
        if o == 'lt':
            p, q = self._pair(*a)
            return p < q
        if o == 'le':
            p, q = self._pair(*a)
            return p <= q
        if o == 'eq':
            p, q = self._pair(*a)
            return p == q
        if o == 'not':
            return z3.Not(M[a[0].uid])
        if o == 'and':
            return z3.And(*[M[k.uid] for k in a])
        if o == 'iff':
            return M[a[0].uid] == M[a[1].uid]
        if o == 'ite':
            p, q = self._pair(a[1], a[2])
            return z3.If(M[a[0].uid], p, q)
        if o == 'fn':
            return self._fn(x)
        if o == 'red':
            self.inexact.add('red')
            try:
                key = ('red', frozenset(self.nz.norm(x).items()))
            except (TooBig, RecursionError):
                key = ('red', x.uid)
            c = self.keys.get(key)
            if c is None:
                c = self.keys[key] = self.fresh('red', 'R')
            return c
        raise tm.Unsupported('no SMT translation for ' + o)

    def _cong(self, name, args, c):
        L = self.apps.setdefault(name, [])
        for (args2, c2) in L[-24:]:
            if len(args2) == len(args):
                conds = []
                for p, q in zip(args, args2):
                    if p.sort() != q.sort():
                        p = z3.ToReal(p) if p.sort() == z3.IntSort() else p
                        q = z3.ToReal(q) if q.sort() == z3.IntSort() else q
                    conds.append(p == q)
                self.side.append(z3.Implies(z3.And(*conds), c == c2) if conds else c == c2)
        L.append((args, c))

    def _fn(self, x):
        name = x.args[0]
        args = [self.memo[k.uid] for k in x.args[1:]]
        # identical canonical arguments share a constant
        try:
            key = (name,) + tuple(frozenset(self.nz.norm(k).items()) if k.sort != 'B' else k.uid
                                  for k in x.args[1:])
        except (TooBig, RecursionError):
            key = (name, x.uid)
        c = self.keys.get(key)
        if c is not None:
            return c
        c = self.keys[key] = self.fresh(name, x.sort)
        self._cong(name, args, c)
        S = self.side
        if name == 'exp':
            u = args[0]
            self.inexact.add('exp')
            S.append(c > 0)
            S.append(c >= 1 + u)
            S.append(z3.Implies(u < 0, c < 1))
            S.append(z3.Implies(u <= 0, c <= 1))
            S.append(z3.Implies(u > 0, c > 1))
            S.append(z3.Implies(u < 1, c * (1 - u) <= 1))
            for (nm, u2, c2, y) in self.mono:
                if nm == 'exp':
                    S.append(z3.Implies(u < u2, c < c2))
                    S.append(z3.Implies(u2 < u, c2 < c))
                    if self._neg(x.args[1], y):
                        S.append(c * c2 == 1)
                elif nm == 'log':
                    S.append(z3.Implies(u == c2, c == u2))
                    S.append(z3.Implies(z3.And(u2 > 0, u < c2), c < u2))
                    S.append(z3.Implies(z3.And(u2 > 0, u > c2), c > u2))
            for (nm, u2, c2, y) in self.mono:
                if nm != 'exp':
                    continue
                for (nm3, u3, c3, w) in self.mono:
                    if nm3 == 'exp' and w.uid >= y.uid and len(self.mono) < 9:
                        S.append(z3.Implies(u == u2 + u3, c == c2 * c3))
            self.mono.append(('exp', u, c, x.args[1]))
        elif name == 'log':
            u = args[0]
            self.inexact.add('log')
            S.append(z3.Implies(u > 0, c <= u - 1))
            S.append(z3.Implies(u > 1, c > 0))
            S.append(z3.Implies(u == 1, c == 0))
            S.append(z3.Implies(z3.And(u > 0, u < 1), c < 0))
            for (nm, u2, c2, y) in self.mono:
                if nm == 'log':
                    S.append(z3.Implies(z3.And(u > 0, u < u2), c < c2))
                    S.append(z3.Implies(z3.And(u2 > 0, u2 < u), c2 < c))
                elif nm == 'exp':
                    S.append(z3.Implies(u2 == c, c2 == u))
                    S.append(z3.Implies(z3.And(u > 0, u2 < c), c2 < u))
                    S.append(z3.Implies(z3.And(u > 0, u2 > c), c2 > u))
            self.mono.append(('log', u, c, x.args[1]))
        elif name in ('sin', 'cos'):
            self.inexact.add(name)
            S.append(c >= -1)
            S.append(c <= 1)
        else:
            if name in self.nz.positive:
                S.append(c > 0)
            f = self.facts.get(name)
            if f:
                for e in f(x, [k for k in self.seen.get(name, [])]):
                    S.append(self.later(e))
                self.seen.setdefault(name, []).append(x)
        return c

    def _neg(self, s, t):
        try:
            return self.nz.is_zero(tm.add(s, t))
        except Exception:
            return False


class Result(object):
    def __init__(self, status, backend='', model=None, exact=True, time=0., reason=''):
        self.status, self.backend, self.model = status, backend, model
        self.exact, self.time, self.reason = exact, time, reason


def _ibase(a):
    """integer variables and integer-valued applications an index is built from"""
    return frozenset(x.uid for x in tm.subterms(a) if x.sort == 'I' and x.op in ('var', 'fn'))


def _replace(t, old, new, memo=None):
    memo = {} if memo is None else memo
    if t is old:
        return new
    if t.uid in memo:
        return memo[t.uid]
    if any(isinstance(k, T) for k in t.args):
        r = tm.rebuild(t, [_replace(k, old, new, memo) if isinstance(k, T) else k for k in t.args])
    else:
        r = t
    memo[t.uid] = r
    return r


class SMT(object):
    """One per contract (so positivity declarations and caches are per contract)."""

    def __init__(self, positive=(), rlimit=30000000, timeout_ms=20000):
        self.nz = Normalizer(positive)
        self.rlimit, self.timeout = rlimit, timeout_ms
        self.fcache = {}
        self.stats = {'norm': 0, 'z3': 0, 'cvc5': 0, 'solver_s': 0.0, 'feas': 0}
        self.facts = {}           # fn name -> (app, earlier apps) -> list of bool terms (instantiated axioms)
        self.axioms = []          # extra facts (bool terms) of this contract
        self.keys = None          # uid -> normal form of a comparison (only for contracts that use lemmas)

    # -------------------------------------------------------------------------------------
    def _relevant(self, pc, goal):
        """hypotheses connected to the goal through shared variables"""
        names = set(tm.free_vars(goal))
        fnames = set(x.args[0] for x in tm.subterms(goal) if x.op == 'fn')
        rest, out = list(pc), []
        changed = True
        while changed:
            changed = False
            for h in list(rest):
                hv = tm.free_vars(h)
                hf = set(x.args[0] for x in tm.subterms(h) if x.op == 'fn') - set(NONARITH)
                if (hv & names) or (hf & fnames) or not hv:
                    rest = [r for r in rest if r is not h]
                    out.append(h)
                    names |= hv
                    fnames |= hf
                    changed = True
        return [h for h in pc if any(h is o for o in out)]

    def _solver(self, tr, exprs, rl, to):
        if tr.has_int:
            s = z3.Solver()
        else:
            s = z3.SolverFor('QF_NRA')
        s.set('timeout', to)
        try:
            s.set('rlimit', rl)
        except z3.Z3Exception:
            pass
        for e in exprs:
            s.add(e)
        for e in tr.side:
            s.add(e)
        return s

    def _key(self, h):
        """comparison up to a positive factor"""
        if h.uid not in self.keys:
            k = None
            if h.op in ('le', 'lt', 'eq'):
                try:
                    p = self.nz.norm(tm.sub(tm.to_real(h.args[1]), tm.to_real(h.args[0])))
                    if p:
                        c = abs(p[min(p)])
                        if h.op == 'eq' and p[min(p)] < 0:
                            c = -c
                        k = (h.op, frozenset((m, x / c) for m, x in p.items()))
                except Exception:
                    k = None
            elif h.op in ('var', 'not', 'fn'):
                k = h.uid
            self.keys[h.uid] = k
        return self.keys[h.uid]

    def _known(self, pc, b):
        """b is one of the hypotheses, up to normal form"""
        k = self._key(b)
        if k is None:
            return False
        for h in pc:
            for g in (h.args if h.op == 'and' else (h,)):
                q = self._key(g)
                if q == k or isinstance(k, tuple) and isinstance(q, tuple) and k[1] == q[1] and (k[0], q[0]) in (('le', 'lt'), ('le', 'eq')):
                    return True
        return False

    def feasible(self, pc, b):
        key = (tuple(x.uid for x in pc), b.uid)
        r = self.fcache.get(key)
        if r is not None:
            return r
        if self.keys is not None and (self._known(pc, tm.lnot(b))):
            self.fcache[key] = False
            return False
        t0 = time.time()
        self.stats['feas'] += 1
        tr = Translator(self.nz, self.facts)
        try:
            es = [tr.tr(x) for x in list(pc) + self.axioms + [b]]
            tr.flush()
            s = self._solver(tr, es, 3000000, 1500)
            res = s.check()
            r = res != z3.unsat
        except tm.Unsupported:
            r = True
        self.stats['solver_s'] += time.time() - t0
        self.fcache[key] = r
        return r

    def prove(self, pc, goal, use_cvc5=True):
        t0 = time.time()
        goal = tm.boolean(goal)
        if goal.op == 'true':
            return Result('proved', 'const')
        if any(c is goal for c in pc):
            return Result('proved', 'const')
        if goal.op == 'and':
            last = None
            for g in goal.args:
                last = self.prove(pc, g, use_cvc5)
                if last.status != 'proved':
                    return last
            return last
        if goal.op == 'eq':
            try:
                if self.nz.equal(goal.args[0], goal.args[1]):
                    self.stats['norm'] += 1
                    return Result('proved', 'normal-form', time=time.time() - t0)
            except RecursionError:
                pass
            if self._fubini(goal):
                self.stats['norm'] += 1
                return Result('proved', 'normal-form', time=time.time() - t0)
            g2 = self._unify_indices(pc, goal)
            if g2 is not None and self.nz.equal(g2.args[0], g2.args[1]):
                self.stats['norm'] += 1
                return Result('proved', 'z3+normal-form', time=time.time() - t0)
            if g2 is not None:
                goal = g2
            g3 = self._linear_equalities(pc, goal)
            if g3 is not None and (g3.op == 'true' or g3.op == 'eq' and self.nz.equal(g3.args[0], g3.args[1])):
                self.stats['norm'] += 1
                return Result('proved', 'z3+normal-form', time=time.time() - t0)
        if self.keys is not None:
            if self._known(pc, goal):
                return Result('proved', 'normal-form', time=time.time() - t0)
            if goal.op in ('le', 'lt') and goal.args[0].op == 'const' and goal.args[0].value == 0 and goal.args[1].op == 'sqrt':
                x = goal.args[1].args[0]
                if self._known(pc, (tm.le if goal.op == 'le' else tm.lt)(tm.const(0, 'R'), x)):
                    return Result('proved', 'normal-form', time=time.time() - t0)
            if pc and self._quick([], goal):
                return Result('proved', 'z3', time=time.time() - t0)
        rel = self._relevant(list(pc) + self.axioms, goal)
        res = self._smt(rel, goal, use_cvc5)
        if res.status == 'refuted' and len(rel) < len(pc) + len(self.axioms):
            res = self._smt(list(pc) + self.axioms, goal, use_cvc5)     # a model of everything, for replay
        if res.status != 'proved' and goal.op == 'eq':
            # equal reductions whose bodies agree only under the path condition
            r2 = self._red_congruence(pc, goal)
            if r2 is not None:
                res = r2
        res.time = time.time() - t0
        self.stats['solver_s'] += res.time
        return res

    def _linear_equalities(self, pc, goal):
        """use the equations between variables that the linear hypotheses imply"""
        flat = []

        def walk(h):
            if h.op == 'and':
                for k in h.args:
                    walk(k)
            else:
                flat.append(h)
        for h in pc:
            walk(h)
        vs = {}

        def linear(t):
            try:
                p = self.nz.norm(t)
            except Exception:
                return None
            out = {}
            for m, c in p.items():
                if not m:
                    out[None] = c
                elif len(m) == 1 and m[0][1] == 1 and self.nz.atoms[m[0][0]].kind == 'var':
                    out[m[0][0]] = c
                else:
                    return None
            return out
        cons = []
        for h in flat:
            neg = h.op == 'not'
            g = h.args[0] if neg else h
            if g.op not in ('le', 'lt', 'eq') or neg and g.op == 'eq' or not isinstance(g.args[0], T) or g.args[0].sort == 'I' and g.args[1].sort == 'I':
                continue
            a, b = tm.num(g.args[0]), tm.num(g.args[1])
            lin = linear(tm.sub(a, b))
            if lin is None or len(lin) < 2 and None in lin:
                continue
            op = g.op
            if neg:
                lin = {k: -c for k, c in lin.items()}
                op = 'lt' if g.op == 'le' else 'le'
            cons.append((op, lin))
        if not any(op in ('le', 'eq') for op, _ in cons):
            return None
        key = ('lineq', tuple(sorted((op, tuple(sorted((str(k), c) for k, c in l.items()))) for op, l in cons)))
        eqs = self.fcache.get(key)
        if eqs is None:
            zv = {}

            def zt(l):
                e = z3.RealVal(0)
                for k, c in l.items():
                    q = z3.RealVal('%d/%d' % (c.numerator, c.denominator))
                    e = e + (q if k is None else q * zv.setdefault(k, z3.Real('x%s' % k)))
                return e
            s = z3.SolverFor('QF_LRA')
            zs = []
            for op, l in cons:
                e = zt(l)
                zs.append(e)
                s.add(e <= 0 if op == 'le' else e < 0 if op == 'lt' else e == 0)
            eqs = []
            for (op, l), e in zip(cons, zs):
                if op == 'eq':
                    eqs.append(l)
                elif op == 'le':
                    s.push()
                    s.add(e < 0)
                    if s.check() == z3.unsat:
                        eqs.append(l)
                    s.pop()
            self.fcache[key] = eqs
        if not eqs:
            return None
        # Gaussian elimination, then substitution
        name = {}
        for x in tm.subterms(goal):
            if x.op == 'var' and x.sort == 'R':
                p = self.nz.norm(x)
                if len(p) == 1:
                    (m, c), = p.items()
                    if len(m) == 1:
                        name[m[0][0]] = x
        rows = [dict(l) for l in eqs]
        changed = False
        while rows:
            l = rows.pop()
            piv = [k for k in l if k is not None and k in name]
            if not piv or any(k is not None and k not in name for k in l):
                continue
            x = piv[0]
            c = l[x]
            sol = {k: -v / c for k, v in l.items() if k != x}
            t = tm.const(sol.get(None, 0), 'R')
            for k, v in sol.items():
                if k is not None:
                    t = tm.add(t, tm.mul(tm.const(v, 'R'), name[k]))
            goal = tm.substitute(goal, {name[x]: t})
            changed = True
            new = []
            for r in rows:
                if x in r:
                    f = r.pop(x)
                    for k, v in sol.items():
                        r[k] = r.get(k, 0) + f * v
                    r = {k: v for k, v in r.items() if v}
                if any(k is not None for k in r):
                    new.append(r)
            rows = new
        return goal if changed else None

    def _fubini(self, goal):
        """exchange the order of a nested pair of finite sums"""
        outer = []
        for x in tm.subterms(goal):
            if x.op == 'red' and x.args[0] == 'sum':
                inner = [y for y in tm.subterms(x.args[2]) if y.op == 'red' and y.args[0] == 'sum']
                if len(inner) == 1 and x.args[1].args[0] not in tm.free_vars(inner[0].args[3]):
                    outer.append((x, inner[0]))
        if not outer or len(outer) > 3:
            return False
        for x, y in outer:
            i, body, n = x.args[1:4]
            j, B, m = y.args[1:4]
            z = tm.var('$z', 'R')
            bz = _replace(body, y, z)
            A = tm.substitute(bz, {z: tm.const(tm.F1)})
            if not self.nz.equal(bz, tm.mul(z, A)):
                continue
            sw = tm.red('sum', j, tm.red('sum', i, tm.mul(A, B), n), m)
            g2 = _replace(goal, x, sw)
            if g2.op == 'true' or g2.op == 'eq' and self.nz.equal(g2.args[0], g2.args[1]):
                return True
        return False

    def _unify_indices(self, pc, goal):
        """array indices that are equal under the hypotheses become syntactically equal"""
        if not pc:
            return None
        changed = False
        for _ in range(4):
            groups = {}
            for x in tm.subterms(goal):
                if x.op == 'fn':
                    for pos, a in enumerate(x.args[1:]):
                        if isinstance(a, T) and a.sort == 'I' and not any('!' in n for n in tm.free_vars(a)):
                            g = groups.setdefault((x.args[0], pos), [])
                            if not any(a is b for b in g):
                                g.append(a)
            sub = None
            tried = 0
            for g in groups.values():
                if len(g) > 12:
                    continue
                for i in range(len(g)):
                    for j in range(i):
                        a, b = g[i], g[j]
                        if _ibase(a) == _ibase(b) or tried > 30:
                            continue
                        key = ('unify', tuple(h.uid for h in pc), a.uid, b.uid)
                        ok = self.fcache.get(key)
                        if ok is None:
                            tried += 1
                            e = tm.eq(a, b)
                            ok = e.op == 'true' or self._quick(pc, e)
                            self.fcache[key] = ok
                        if ok:
                            sub = (a, b)
                            break
                    if sub:
                        break
                if sub:
                    break
            if not sub:
                break
            a, b = sub
            new = None
            for x, y in ((a, b), (b, a)):
                sub_y = set(t.uid for t in tm.subterms(y))
                vs = [t for t in tm.subterms(x) if t.op == 'fn' and t.sort == 'I'] + \
                     [t for t in tm.subterms(x) if t.op == 'var' and t.sort == 'I']
                for w in vs:
                    if w.uid in sub_y:
                        continue
                    d0 = _replace(x, w, tm.const(0))
                    if self.nz.equal(tm.to_real(tm.sub(x, w)), tm.to_real(d0)):
                        new = (w, tm.sub(y, d0))
                        break
                if new:
                    break
            if not new:
                break
            g2 = _replace(goal, new[0], new[1])
            if g2 is goal or g2.op != 'eq':
                break
            goal, changed = g2, True
        return goal if changed else None

    def _quick(self, pc, goal):
        tr = Translator(self.nz, self.facts)
        try:
            hyps = [tr.tr(x) for x in list(pc) + self.axioms]
            g = tr.tr(goal)
            tr.flush()
            s = self._solver(tr, hyps + [z3.Not(g)], 3000000, 1500)
            return s.check() == z3.unsat
        except (tm.Unsupported, z3.Z3Exception):
            return False

    def _smt(self, pc, goal, use_cvc5):
        tr = Translator(self.nz, self.facts)
        try:
            hyps = [tr.tr(x) for x in pc]
            g = tr.tr(goal)
            tr.flush()
        except tm.Unsupported as e:
            return Result('unknown', reason=str(e))
        s = self._solver(tr, hyps + [z3.Not(g)], self.rlimit, self.timeout)
        try:
            r = s.check()
        except z3.Z3Exception as e:
            return Result('unknown', reason=str(e))
        if r == z3.unsat:
            self.stats['z3'] += 1
            return Result('proved', 'z3')
        model = None
        if r == z3.sat:
            model = self._model(tr, s.model())
            return Result('refuted', 'z3', model=model, exact=not tr.inexact)
        # nlsat gave up: default z3 engine, then cvc5
        if not tr.has_int:
            s2 = z3.Solver()
            s2.set('timeout', self.timeout // 2)
            for e in hyps + [z3.Not(g)] + tr.side:
                s2.add(e)
            try:
                r = s2.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.unsat:
                self.stats['z3'] += 1
                return Result('proved', 'z3')
            if r == z3.sat:
                return Result('refuted', 'z3', model=self._model(tr, s2.model()), exact=not tr.inexact)
        if use_cvc5:
            st = self._cvc5(s)
            if st == 'unsat':
                self.stats['cvc5'] += 1
                return Result('proved', 'cvc5')
        return Result('unknown', reason='z3: %s' % s.reason_unknown())

    def _cvc5(self, s):
        try:
            text = '(set-logic ALL)\n' + s.to_smt2()
            p = subprocess.run(['cvc5', '--tlimit=%d' % self.timeout, '--lang=smt2', '-'],
                               input=text, capture_output=True, text=True, timeout=self.timeout / 1000. + 10)
            return p.stdout.split()[0] if p.stdout.split() else 'unknown'
        except Exception:
            return 'unknown'

    def _model(self, tr, m):
        out = {}
        for nm, (t, v) in tr.vars.items():
            val = m.eval(v, model_completion=True)
            try:
                if t.sort == 'B':
                    out[nm] = z3.is_true(val)
                elif t.sort == 'I':
                    out[nm] = val.as_long()
                else:
                    if z3.is_algebraic_value(val):
                        val = val.approx(20)
                    out[nm] = Fraction(val.numerator_as_long(), val.denominator_as_long())
            except Exception:
                pass
        # values of uninterpreted applications (array elements)
        apps = {}
        for name, L in tr.apps.items():
            if name in NONARITH or name in ('sqrt', 'rpow', 'gpow', 'gpow#'):
                continue
            for args, c in L:
                try:
                    key = tuple(str(m.eval(a, model_completion=True)) for a in args)
                    val = m.eval(c, model_completion=True)
                    if z3.is_algebraic_value(val):
                        val = val.approx(20)
                    apps.setdefault(name, {})[key] = float(Fraction(val.numerator_as_long(), val.denominator_as_long())) \
                        if c.sort() == z3.RealSort() else val.as_long()
                except Exception:
                    pass
        if apps:
            out['#apps'] = apps
        return out

    # -------------------------------------------------------------------------------------
    def _red_congruence(self, pc, goal):
        """sum_i f(i) = sum_i g(i) when f = g pointwise under the hypotheses."""
        reds = [x for x in tm.subterms(goal) if x.op == 'red']
        ids = [set(z.uid for z in tm.subterms(y)) for y in reds]
        reds = [x for x in reds if not any(x is not y and x.uid in s for y, s in zip(reds, ids))]
        if len(reds) < 2 or len(reds) > 6:
            return None
        used = {}
        for i in range(len(reds)):
            for j in range(i):
                a, b = reds[j], reds[i]
                if reds[i] in used or a.args[0] != b.args[0] or len(a.args) != len(b.args):
                    continue
                bv = a.args[1]
                m = {b.args[1]: bv}
                ok = True
                for p, q in zip(a.args[3:], b.args[3:]):
                    if isinstance(p, T) and isinstance(q, T):
                        q = tm.substitute(q, m)
                        if not (p is q or self.nz.equal(p, q)):
                            ok = False
                    elif p != q:
                        ok = False
                if not ok:
                    continue
                hyp = list(pc)
                if a.args[0] == 'sum' or a.args[0] == 'simps':
                    hyp += [tm.le(tm.const(0), bv), tm.lt(bv, a.args[3])]
                elif a.args[0] == 'int':
                    hyp += [tm.le(a.args[3], bv), tm.le(bv, a.args[4])]
                r = self.prove(hyp, tm.eq(a.args[2], tm.substitute(b.args[2], m)), use_cvc5=False)
                if r.status == 'proved':
                    used[reds[i]] = used.get(reds[j], reds[j])
        if not used:
            return None
        memo = {}

        def go(x):
            if x in used:
                return used[x]
            if x.uid in memo:
                return memo[x.uid]
            if not any(isinstance(k, T) for k in x.args) or x.op == 'red':
                r = x
            else:
                r = tm.rebuild(x, [go(k) if isinstance(k, T) else k for k in x.args])
            memo[x.uid] = r
            return r
        g2 = go(goal)
        if g2 is goal:
            return None
        r = self.prove(pc, g2, use_cvc5=False)
        return r if r.status == 'proved' else None
