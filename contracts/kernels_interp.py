"""C05 -- interpolation of distribution functions in the compiled kernels (real C++ source, both copies)."""
from vc.registry import contract

KER = {'four': 'cppfour', 'three': 'cppthree'}


def _search(v, grid, x):
    """the loop of the binary search keeps  grid[head] <= x <= grid[tail]  and comes to an end"""
    n = v.len(grid)
    v.loop('binary_find#0',
           inv=lambda L: [('head in range', v.land(0 <= L['head'], L['head'] <= n - 1)),
                          ('tail in range', v.land(0 <= L['tail'], L['tail'] <= n - 1)),
                          ('ordered', L['head'] <= L['tail']),
                          ('below', v.at(grid, L['head']) <= x), ('above', x <= v.at(grid, L['tail'])),
                          ('distinct', v.lor(n == 1, L['head'] < L['tail']))],
           variant=lambda L: L['tail'] - L['head'])


def _where(v, grid, n):
    if v.sym:
        return v.real('x')
    x = v.real('x')
    k = v.int('k', lo=0, hi=max(0, n - 2))
    k1 = min(k + 1, n - 1)
    w = v.choice('where', [0, 1, 2, 3, 4])
    return {0: x, 1: grid[k], 2: 0.5 * (grid[k] + grid[k1]), 3: grid[n - 1], 4: grid[0]}[w]


@contract('C05', 'interactions/{four,three}_particle/cpp/integral.cpp binary_find', kernel=['four', 'three'])
def kernel_bracket(v, kernel):
    n = v.int('n', lo=1, span=40)
    grid = v.list('grid', n, increasing=True)
    x = _where(v, grid, n)
    _search(v, grid, x)
    lo, hi = v.mod(KER[kernel]).binary_find(grid, x)
    if x < v.at(grid, 0):
        v.eq('below the grid', (lo, hi), (-1, 0))
    elif x > v.at(grid, n - 1):
        v.eq('above the grid', (lo, hi), (n - 1, -1))
    else:
        v.check('range', v.land(0 <= lo, lo <= hi, hi < n))
        if lo == hi:
            v.eq('exact', v.at(grid, lo), x)
        else:
            v.eq('adjacent', hi, lo + 1)
            v.lt('bracket from below', v.at(grid, lo), x)
            v.lt('bracket from above', x, v.at(grid, hi))


def _distribution(v, n, eta):
    if v.sym:
        return v.list('f', n, pos=True)
    return v.list('f', n, lo=0.01, hi=0.95)


def _found(v, m, grid):
    """in a proof, the search is replaced by its contract (kernel_bracket)"""
    if not v.sym:
        return

    def find(g, x):
        k = v.len(g)
        if x < v.at(g, 0):
            return -1, 0
        if x > v.at(g, k - 1):
            return k - 1, -1
        lo, hi = v.int('found.lo'), v.int('found.hi')
        v.assume(v.land(0 <= lo, lo <= hi, hi < k))
        if lo == hi:
            v.assume(v.at(g, lo) == x)
        else:
            v.assume(v.land(hi == lo + 1, v.at(g, lo) < x, x < v.at(g, hi)))
        return lo, hi
    m.binary_find = find


@contract('C05', 'interactions/{four,three}_particle/cpp/integral.cpp distribution_interpolation', kernel=['four', 'three'], eta=[1, -1])
def kernel_thermal(v, kernel, eta):
    n = v.int('n', lo=2, span=8)
    grid = v.list('grid', n, increasing=True, first=0)
    f = _distribution(v, n, eta)
    m, T, p = v.real('m', nonneg=True), v.real('T', pos=True, samples=(0.5, 3)), v.real('p', nonneg=True)
    if eta == -1:
        v.assume(m + p > 0)
    got = v.mod(KER[kernel]).distribution_interpolation(grid, f, p, m, eta, T, True)
    v.eq('thermal distribution', got, 1 / (v.exp(v.sqrt(p * p + m * m) / T) + eta))


@contract('C05', 'interactions/{four,three}_particle/cpp/integral.cpp distribution_interpolation', kernel=['four', 'three'], eta=[1, -1])
def kernel_on_grid(v, kernel, eta):
    n = v.int('n', lo=1, span=8)
    grid = v.list('grid', n, increasing=True, first=0)
    f = _distribution(v, n, eta)
    m, T = v.real('m', nonneg=True), v.real('T', pos=True)
    k = v.int('k', lo=0, hi=None if v.sym else n - 1)
    v.assume(k < n)
    M = v.mod(KER[kernel])
    _found(v, M, grid)
    v.eq('value at a grid momentum', M.distribution_interpolation(grid, f, v.at(grid, k), m, eta, T, False), v.at(f, k))


@contract('C05', 'interactions/{four,three}_particle/cpp/integral.cpp distribution_interpolation', kernel=['four', 'three'], eta=[1, -1], timeout=120)
def kernel_between(v, kernel, eta):
    """log(1/f - eta) is linear in energy between two grid momenta"""
    n = v.int('n', lo=2, span=8)
    grid = v.list('grid', n, increasing=True, first=0)
    f = _distribution(v, n, eta)
    m, T = v.real('m', nonneg=True), v.real('T', pos=True)
    k = v.int('k', lo=0, hi=None if v.sym else n - 2)
    v.assume(k < n - 1)
    p = v.real('p', nonneg=True) if v.sym else grid[k] + v.real('w', lo=0.001, hi=0.999) * (grid[k + 1] - grid[k])
    v.assume(v.at(grid, k) < p)
    v.assume(p < v.at(grid, k + 1))
    fa, fb = v.at(f, k), v.at(f, k + 1)
    if eta == 1:
        v.assume(fa < 1)
        v.assume(fb < 1)
    M = v.mod(KER[kernel])
    _found(v, M, grid)
    got = M.distribution_interpolation(grid, f, p, m, eta, T, False)
    Ea, Ep, Eb = [v.sqrt(q * q + m * m) for q in (v.at(grid, k), p, v.at(grid, k + 1))]
    ga, gb = v.log(1 / fa - eta), v.log(1 / fb - eta)
    g = ((Ep - Ea) * gb + (Eb - Ep) * ga) / (Eb - Ea)
    v.eq('linear exponent', got * (v.exp(g) + eta), v.num(1), tol=1e-6)


@contract('C05', 'interactions/{four,three}_particle/cpp/integral.cpp distribution_interpolation', kernel=['four', 'three'], eta=[1, -1], timeout=120)
def kernel_tail(v, kernel, eta):
    n = v.int('n', lo=1, span=8)
    grid = v.list('grid', n, increasing=True, first=0)
    f = _distribution(v, n, eta)
    m, T = v.real('m', nonneg=True), v.real('T', pos=True)
    top = v.at(grid, n - 1)
    p = v.real('p', pos=True) if v.sym else top + v.real('dp', pos=True)
    v.assume(p > top)
    M = v.mod(KER[kernel])
    _found(v, M, grid)
    got = M.distribution_interpolation(grid, f, p, m, eta, T, False)
    v.eq('exponential tail', got, v.at(f, n - 1) * v.exp((v.sqrt(top * top + m * m) - v.sqrt(p * p + m * m)) / T))
    v.le('bounded by the last sample', got, v.at(f, n - 1))


@contract('C05', 'interactions/{four,three}_particle/cpp/integral.cpp distribution_interpolation', kernel=['four', 'three'], eta=[1, -1])
def kernel_below(v, kernel, eta):
    n = v.int('n', lo=2, span=8)
    grid = v.list('grid', n, increasing=True)
    f = _distribution(v, n, eta)
    p = v.real('p', samples=(-5, 2))
    v.assume(p < v.at(grid, 0))
    M = v.mod(KER[kernel])
    _found(v, M, grid)
    kind, e = v.calls(M.distribution_interpolation, grid, f, p, v.real('m', nonneg=True), eta, v.real('T', pos=True), False)
    v.check('reported', kind == 'exc')


@contract('C05', 'interactions/{four,three}_particle/cpp/integral.cpp distribution_interpolation(specie, p)', kernel=['four', 'three'], eta=[1, -1])
def kernel_of_a_species(v, kernel, eta):
    """the kernel evaluates a species with its own mass, statistics, temperature and samples"""
    from vc.env import Bag
    n = v.int('n', lo=2, span=8)
    grid = v.list('grid', n, increasing=True, first=0)
    f = _distribution(v, n, eta)
    m, T, p = v.real('m', pos=True), v.real('T', pos=True), v.real('p', nonneg=True)
    eq = 1 if v.bool('in_equilibrium') else 0
    M = v.mod(KER[kernel])
    _found(v, M, grid)
    one = v.attr(M, 'distribution_interpolation__2')(Bag(grid=Bag(grid=grid, distribution=f), m=m, T=T, eta=eta, in_equilibrium=eq), p)
    v.eq('same value', one, M.distribution_interpolation(grid, f, p, m, eta, T, eq != 0))
