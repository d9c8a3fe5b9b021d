"""Path exploration by re-execution.

`run(fn)` executes `fn` once per feasible sequence of branch decisions.  Each execution has a `Path`
with its path condition (assumptions + decisions), the obligations raised on it and the domain
conditions (division, sqrt, log) met on it.
"""
import time
from . import terms as tm
from .terms import T, TRUE, FALSE, Unsupported

_CUR = [None]


class Infeasible(BaseException):
    pass


class PathEnd(BaseException):
    """the path ends here (its obligations stand)"""


class PathLimit(Exception):
    pass


class Path(object):
    def __init__(self, explorer, prefix):
        self.x = explorer
        self.prefix = prefix
        self.pos = 0
        self.taken = []
        self.pc = []            # list of bool terms (assumptions and decisions, in order)
        self.obligations = []   # (name, goal, pc snapshot length)
        self.domains = []       # (what, cond, len(pc), guard)
        self.known = {}         # uid -> bool already decided
        self.solver = None
        self.branched = []
        self.ite_depth = 0
        self.locals = None      # local exploration stack (for ite merging)

    def assume(self, b):
        b = tm.boolean(b)
        if b.op == 'true':
            return
        if b.op == 'false':
            raise Infeasible()
        self.pc.append(b)
        self._learn(b, True)

    def _learn(self, b, v):
        if v and b.op == 'and':
            for k in b.args:
                self._learn(k, True)
        self.known[b.uid] = v
        n = tm.lnot(b)
        self.known[n.uid] = not v

    def decide(self, b):
        k = self.known.get(b.uid)
        if k is not None:
            return k
        if self.locals:
            loc = self.locals[-1]
            return loc.decide(b)
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
        else:
            v = self._fresh(b)
            if v is None:
                raise Infeasible()
        self.taken.append(v)
        c = b if v else tm.lnot(b)
        self.pc.append(c)
        self._learn(b, v)
        return v

    def _fresh(self, b):
        f = self.x.feasible
        can_t = f(self, b)
        can_f = f(self, tm.lnot(b))
        if can_t and can_f:
            alt = self.taken + [False]
            self.x.todo.append(alt)
            self.pos += 1
            self.prefix = self.taken + [True]
            return True
        # forced decisions are still recorded so replays stay aligned
        self.pos += 1
        if can_t:
            self.prefix = self.taken + [True]
            return True
        if can_f:
            self.prefix = self.taken + [False]
            return False
        return None


class Local(object):
    """Decisions inside a lambda over a bound variable: merged into an `ite` term."""

    def __init__(self, path, prefix):
        self.path, self.prefix, self.pos, self.taken, self.conds = path, prefix, 0, [], []
        self.known = {}
        self.alts = []

    def decide(self, b):
        k = self.known.get(b.uid)
        if k is not None:
            return k
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            ex = self.path.x
            ct = ex.feasible(self.path, b, extra=self.conds)
            cf = ex.feasible(self.path, tm.lnot(b), extra=self.conds)
            if ct and cf:
                self.alts.append(self.taken + [False])
                v = True
            elif ct:
                v = True
            elif cf:
                v = False
            else:
                raise Infeasible()
        self.pos += 1
        self.taken = self.taken + [v]
        self.conds.append(b if v else tm.lnot(b))
        self.known[b.uid] = v
        self.known[tm.lnot(b).uid] = not v
        return v


def merged(fn):
    """Run fn() under all local decisions; return the value as one (ite) term."""
    p = current()
    if p is None:
        return fn()
    todo = [[]]
    results = []
    if p.locals is None:
        p.locals = []
    while todo:
        if len(results) > 64:
            raise Unsupported('too many cases in a pointwise function')
        loc = Local(p, todo.pop())
        p.locals.append(loc)
        try:
            v = fn()
        except Infeasible:
            v = None
        finally:
            p.locals.pop()
        todo.extend(loc.alts)
        if v is not None:
            results.append((tm.land(*loc.conds), v))
    if not results:
        raise Infeasible()
    out = results[-1][1]
    if len(results) == 1:
        return out

    def join(c, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return tuple(join(c, x, y) for x, y in zip(a, b))
        return tm.ite(c, tm.num(a), tm.num(b))
    for c, v in reversed(results[:-1]):
        out = join(c, v, out)
    return out


def current():
    return _CUR[0]


def decide(b):
    p = _CUR[0]
    if p is None:
        raise Unsupported('branch on a symbolic condition outside a path: %s' % tm.show(b, 4))
    return p.decide(b)


def domain(cond, what):
    p = _CUR[0]
    if p is None or cond.op == 'true':
        return
    if p.known.get(cond.uid):
        return
    guard = tm.land(*[c for loc in (p.locals or []) for c in loc.conds])
    p.domains.append((what, cond, len(p.pc), guard))


def division_by_zero(a):
    p = _CUR[0]
    if p is not None:
        p.domains.append(('division by zero', FALSE, len(p.pc), TRUE))


class Explorer(object):
    def __init__(self, smt, max_paths=400, deadline=None):
        self.smt = smt
        self.todo = []
        self.max_paths = max_paths
        self.deadline = deadline
        self.npaths = 0

    def feasible(self, path, b, extra=()):
        if b.op == 'true':
            return True
        if b.op == 'false':
            return False
        return self.smt.feasible(path.pc + list(extra), b)

    def run(self, fn):
        """yield (path, outcome) with outcome ('ok', value) | ('exc', exception)"""
        self.todo = [[]]
        while self.todo:
            if self.deadline and time.time() > self.deadline:
                raise PathLimit('time')
            prefix = self.todo.pop()
            p = Path(self, prefix)
            old = _CUR[0]
            _CUR[0] = p
            try:
                try:
                    out = ('ok', fn())
                except PathEnd:
                    out = ('ok', None)
                except Infeasible:
                    out = ('ok', None) if p.obligations else None
                except Unsupported:
                    raise
                except RecursionError:
                    raise Unsupported('recursion limit')
                except Exception as e:
                    out = ('exc', e)
                if out is not None:
                    self.npaths += 1
                    if self.npaths > self.max_paths:
                        raise PathLimit('more than %d paths' % self.max_paths)
                    yield p, out
            finally:
                _CUR[0] = old
