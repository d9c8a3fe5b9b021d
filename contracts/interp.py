"""C05 -- interpolation between grid momenta (Python side)."""
from vc.registry import contract
from vc.env import Bag

C = 'common'


def _setup(v, lo=2):
    n = v.int('n', lo=lo, span=12)
    grid = v.array('grid', n, increasing=True)
    f = v.array('f', n)
    return n, grid, f


def _inside(v, grid, k, w):
    """a point of cell k at fraction w"""
    a, b = v.at(grid, k), v.at(grid, k + 1)
    return a + w * (b - a)


@contract('C05', C + '.linear_interpolation', kind=['linear', 'cubic'])
def on_grid(v, kind):
    n, grid, f = _setup(v)
    k = v.int('k', lo=0, hi=None if v.sym else n - 1)
    v.assume(k < n)
    g = getattr(v.mod(C), kind + '_interpolation')(f, grid)
    v.eq('value at a grid point', g(v.at(grid, k)), v.at(f, k))


@contract('C05', C + '.linear_interpolation', kind=['linear', 'cubic'])
def beyond(v, kind):
    n, grid, f = _setup(v)
    x = v.real('x')
    v.assume(x > v.at(grid, n - 1))
    g = getattr(v.mod(C), kind + '_interpolation')(f, grid)
    v.eq('last value beyond the grid', g(x), v.at(f, n - 1))


@contract('C05', C + '.linear_interpolation')
def linear_inside(v):
    n, grid, f = _setup(v)
    x = v.real('x')
    k = v.int('k', lo=0, hi=None if v.sym else n - 2)
    v.assume(k < n - 1)
    if not v.sym:
        x = _inside(v, grid, k, v.real('w', lo=0, hi=1))
    v.assume(v.at(grid, k) <= x)
    v.assume(x < v.at(grid, k + 1))
    g = v.mod(C).linear_interpolation(f, grid)
    got = g(x)
    a, b, fa, fb = v.at(grid, k), v.at(grid, k + 1), v.at(f, k), v.at(f, k + 1)
    v.eq('straight line through the neighbouring points', got * (b - a), fa * (b - x) + fb * (x - a),
         scale=None if v.sym else (b - a) * (abs(fa) + abs(fb)))
    v.le('not above both neighbours', got, v.max(fa, fb))
    v.le('not below both neighbours', v.min(fa, fb), got)


@contract('C05', C + '.cubic_interpolation')
def cubic_inside(v):
    """in the interior: the Catmull-Rom cubic of the four neighbours; in the first and last cell: a straight line"""
    n, grid, f = _setup(v)
    x = v.real('x')
    k = v.int('k', lo=0, hi=None if v.sym else n - 2)
    v.assume(k < n - 1)
    if not v.sym:
        x = _inside(v, grid, k, v.real('w', lo=0, hi=1))
    v.assume(v.at(grid, k) <= x)
    v.assume(x < v.at(grid, k + 1))
    g = v.mod(C).cubic_interpolation(f, grid)
    got = g(x)
    a, b, f1, f2 = v.at(grid, k), v.at(grid, k + 1), v.at(f, k), v.at(f, k + 1)
    if v.lor(k == 0, k == n - 2):
        v.eq('straight line in the outer cells', got * (b - a), f1 * (b - x) + f2 * (x - a),
             scale=None if v.sym else (b - a) * (abs(f1) + abs(f2)))
    else:
        f0, f3 = v.at(f, k - 1), v.at(f, k + 2)
        u = (x - a) / (b - a)
        # cubic Hermite form with centred differences
        m1, m2 = (f2 - f0) / 2, (f3 - f1) / 2
        want = (2 * u**3 - 3 * u**2 + 1) * f1 + (u**3 - 2 * u**2 + u) * m1 + (-2 * u**3 + 3 * u**2) * f2 + (u**3 - u**2) * m2
        v.eq('cubic', got, want, scale=None if v.sym else max(abs(f0), abs(f1), abs(f2), abs(f3)))


def _gridobj(v, n, **kw):
    t = v.array('grid', n, increasing=True, **kw)
    return Bag(TEMPLATE=t, MOMENTUM_SAMPLES=n, MIN_MOMENTUM=v.at(t, 0), MAX_MOMENTUM=v.at(t, n - 1))


@contract('C05', C + '.binary_find')
def bracket(v):
    n = v.int('n', lo=2, span=12)
    g = _gridobj(v, n)
    t = g.TEMPLATE
    x = v.real('x')
    if not v.sym:
        w = v.choice('where', [0, 1, 2, 3])
        k = v.int('k', lo=0, hi=n - 2)
        x = {0: x, 1: t[k], 2: 0.5 * (t[k] + t[k + 1]), 3: t[n - 1]}[w]
    lo, hi = v.mod(C).binary_find(g, x)
    if x < v.at(t, 0):
        v.eq('below', (lo, hi), (-1, 0))
    elif x > v.at(t, n - 1):
        v.eq('above', (lo, hi), (n - 1, -1))
    else:
        v.check('range', v.land(0 <= lo, lo <= hi, hi < n))
        if lo == hi:
            v.eq('exact', v.at(t, lo), x)
        else:
            v.eq('adjacent', hi, lo + 1)
            v.lt('bracket from below', v.at(t, lo), x)
            v.lt('bracket from above', x, v.at(t, hi))


def _species(v, n, eta, eq):
    g = _gridobj(v, n, first=0, **({} if v.sym else {'gen': lambda r, m: [0.] + sorted(r.uniform(0.1, 5) for _ in range(m - 1))}))
    m = v.real('mass', nonneg=True)
    # distribution function strictly between 0 and 1 (fermions) / positive (bosons)
    f = v.array('f', n, pos=True) if v.sym else v.array('f', n, lo=0.01, hi=0.95)
    aT = v.real('aT', pos=True, samples=(0.5, 3))

    def E(p, conformal_mass=None):
        return v.sqrt(p * p + (m * m if conformal_mass is None else conformal_mass * conformal_mass))
    return Bag(grid=g, _distribution=f, aT=aT, eta=eta, in_equilibrium=eq, conformal_energy=E), m


@contract('C05', C + '.interp', eta=[1, -1])
def thermal(v, eta):
    s, m = _species(v, v.int('n', lo=2, span=8), eta, True)
    p = v.real('p', nonneg=True)
    if eta == -1:
        v.assume(m + p > 0)
    got = v.mod(C).interp(s, p, m)
    v.eq('thermal distribution', got, 1 / (v.exp(v.sqrt(p * p + m * m) / s.aT) + eta))


@contract('C05', C + '.interp', eta=[1, -1], timeout=120)
def distribution_on_grid(v, eta):
    n = v.int('n', lo=2, span=8)
    s, m = _species(v, n, eta, False)
    k = v.int('k', lo=0, hi=None if v.sym else n - 1)
    v.assume(k < n)
    got = v.mod(C).interp(s, v.at(s.grid.TEMPLATE, k), m)
    v.eq('value at a grid momentum', got, v.at(s._distribution, k))


@contract('C05', C + '.interp', eta=[1, -1], timeout=120)
def distribution_between(v, eta):
    """log(1/f - eta) -- the exponent of a thermal distribution -- is linear in energy"""
    n = v.int('n', lo=2, span=8)
    s, m = _species(v, n, eta, False)
    t, f = s.grid.TEMPLATE, s._distribution
    k = v.int('k', lo=0, hi=None if v.sym else n - 2)
    v.assume(k < n - 1)
    p = v.real('p', nonneg=True)
    if not v.sym:
        p = t[k] + v.real('w', lo=0.001, hi=0.999) * (t[k + 1] - t[k])
    v.assume(v.at(t, k) < p)
    v.assume(p < v.at(t, k + 1))
    fa, fb = v.at(f, k), v.at(f, k + 1)
    if eta == 1:
        v.assume(fa < 1)
        v.assume(fb < 1)
    got = v.mod(C).interp(s, p, m)
    Ea, Ep, Eb = [v.sqrt(q * q + m * m) for q in (v.at(t, k), p, v.at(t, k + 1))]
    ga, gb = v.log(1 / fa - eta), v.log(1 / fb - eta)
    g = ((Ep - Ea) * gb + (Eb - Ep) * ga) / (Eb - Ea)
    v.eq('linear exponent', got * (v.exp(g) + eta), v.num(1), tol=1e-6)


@contract('C05', C + '.interp', eta=[1, -1], timeout=120)
def distribution_tail(v, eta):
    n = v.int('n', lo=2, span=8)
    s, m = _species(v, n, eta, False)
    top = v.at(s.grid.TEMPLATE, n - 1)
    p = v.real('p', pos=True)
    if not v.sym:
        p = top * (1 + p)
    v.assume(p > top)
    got = v.mod(C).interp(s, p, m)
    want = v.at(s._distribution, n - 1) * v.exp((v.sqrt(top * top + m * m) - v.sqrt(p * p + m * m)) / s.aT)
    v.eq('exponential tail', got, want)
    v.le('bounded by the last sample', got, v.at(s._distribution, n - 1))


@contract('C05', C + '.interp', eta=[1, -1])
def distribution_below(v, eta):
    n = v.int('n', lo=2, span=8)
    s, m = _species(v, n, eta, False)
    p = v.real('p')
    v.assume(p < 0)
    kind, e = v.calls(v.mod(C).interp, s, p, m)
    v.check('reported', kind == 'exc')
