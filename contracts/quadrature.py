"""C07 -- Gaussian quadrature over arbitrary intervals (common.integrators, paired, gauss_laguerre)."""
from vc.registry import contract

I = 'common.integrators'
P = I + '.paired'
L = I + '.gauss_laguerre'


def _interval(v):
    a, b = v.real('a', samples=(-5, 5)), v.real('b', samples=(-5, 5))
    return a, b


@contract('C07', [I + '.gaussian', I + '.integrate_1D'], how=['gaussian', 'integrate_1D', 'lambda_integrate'])
def one_dimension(v, how):
    a, b = _interval(v)
    f = v.func('f', 1)
    M = v.mod(I)
    if how == 'gaussian':
        got = M.gaussian(f, a, b)
    elif how == 'integrate_1D':
        got = M.integrate_1D(f, (a, b))[0]
    else:
        got = M.lambda_integrate((a, b))(lambda k: (lambda x: f(x) * k))(v.real('k'))
    want = v.gauss(f, a, b)
    if how == 'lambda_integrate':
        want = v.real('k') * want if v.sym else v.inputs['k'] * want
    v.eq('integral', got, want, scale=None if v.sym else abs(b - a), tol=1e-8)


@contract('C07', I + '.integrate_1D')
def adaptive(v):
    """with the fixed-order rule switched off: the library's adaptive integral over the same interval"""
    a, b = _interval(v)
    f = v.func('f', 1)
    with v.env(FIXED_ORDER_1D_QUADRATURE='false'):
        got = v.mod(I).integrate_1D(f, (a, b))[0]
    if v.sym:
        from vc import shims
        v.eq('integral', got, shims._quad(f, a, b)[0])
    else:
        from scipy.integrate import quad
        v.eq('integral', got, quad(lambda x: float(f(x)), a, b)[0], scale=abs(b - a), tol=1e-6)


@contract('C07', [I + '.gaussian', I + '.integrate_1D'], how=['gaussian', 'integrate_1D'], trials=20)
def polynomials_are_exact(v, how):
    """any polynomial of degree up to 12 is integrated exactly whatever the interval, if the rule has the moments it should
    have on [-1, 1] (sampled by `rules`)"""
    a, b = _interval(v)
    c = [v.real('c%d' % k) for k in range(13)]
    M = v.mod(I)
    f = lambda x: sum(c[k] * x**k for k in range(13))
    got = M.gaussian(f, a, b) if how == 'gaussian' else M.integrate_1D(f, (a, b))[0]
    F = lambda x: sum(c[k] * x**(k + 1) / (k + 1) for k in range(13))
    if v.sym:
        import math
        h, m = (b - a) / 2, (a + b) / 2
        in_moments = lambda S: h * sum(c[k] * math.comb(k, j) * h**j * m**(k - j) * S(j) for k in range(13) for j in range(k + 1))
        v.eq('combination of moments', got, in_moments(v.legendre_moment))
        v.eq('integral', in_moments(lambda j: v.num(1 - (-1)**(j + 1)) / (j + 1)), F(b) - F(a))
    else:
        v.eq('integral', got, F(b) - F(a), scale=sum(abs(c[k]) * max(abs(a), abs(b))**(k + 1) for k in range(13)), tol=1e-9)


def _square(v, f, a, b, g, h):
    return v.gauss(lambda x: v.gauss(lambda y: f(x, y), g(x), h(x)), a, b)


@contract('C07', [I + '.integrate_2D', I + '.double_gaussian', I + '.remap_interval'], trials=10)
def two_dimensions(v):
    """the region a <= x <= b, g(x) <= y <= h(x)"""
    a, b = _interval(v)
    f, g, h = v.func('f', 2), v.func('g', 1), v.func('h', 1)
    got = v.mod(I).integrate_2D(f, ((a, b), (g, h)))[0]
    v.eq('integral', got, _square(v, f, a, b, g, h), tol=1e-7, scale=None if v.sym else abs(b - a))


@contract('C07', [P + '.integrate_2D', P + '.double_gaussian', P + '.remap_interval'], trials=10)
def two_dimensions_paired(v):
    a, b = _interval(v)
    f1, f2, g, h = v.func('f1', 2), v.func('f2', 2), v.func('g', 1), v.func('h', 1)
    got = v.mod(P).integrate_2D(lambda x, y: (f1(x, y), f2(x, y)), ((a, b), (g, h)))
    s = None if v.sym else abs(b - a)
    v.eq('first integral', got[0], _square(v, f1, a, b, g, h), tol=1e-7, scale=s)
    v.eq('second integral', got[1], _square(v, f2, a, b, g, h), tol=1e-7, scale=s)


@contract('C07', [P + '.integrate_1D_simpsons', P + '.integrate_2D_simpsons'])
def simpson_pairs(v):
    n = v.int('n', lo=2, span=12)
    x = v.array('x', n, increasing=True)
    f, g = v.array('f', n), v.array('g', n)
    a, b = v.mod(P).integrate_1D_simpsons((f, g), x)
    v.eq('first', a, v.simps(f, x), scale=10)
    v.eq('second', b, v.simps(g, x), scale=10)


@contract('C07', [L + '.integrate_1D', L + '.gaussian'])
def half_line(v):
    """the integral of exp(-x) f(x) over [0, inf)"""
    f = v.func('f', 1)
    got = v.mod(L).integrate_1D(f)[0]
    v.eq('integral', got, v.laguerre(f), tol=1e-8, scale=1)


@contract('C07', [L + '.init_quadrature', I + '.gauss_legendre.init_quadrature'], mode='bounded', trials=12)
def rules(v):
    """points and weights for whatever order is configured: moments of the weight function"""
    import math
    N = v.int('N', lo=2, hi=60)
    with v.env(GAUSS_LEGENDRE_ORDER=N, GAUSS_LAGUERRE_ORDER=N):
        F = v.fresh()
        leg, lag = F.mod(I + '.gauss_legendre'), F.mod(L)
    F = v.fresh()
    v.eq('number of points', len(leg.points), N)
    v.eq('number of Laguerre points', len(lag.points), N)
    for k in range(min(2 * N - 1, 12) + 1):
        v.eq('moment %d' % k, float(sum(leg.weights * leg.points**k)), (1 - (-1)**(k + 1)) / (k + 1.), scale=1, tol=1e-10)
        v.eq('half-line moment %d' % k, float(sum(lag.weights * lag.points**k)), math.factorial(k), tol=1e-8)
    x, y = leg.grid
    v.eq('product grid', [float(x[0, 1]), float(y[1, 0])], [leg.points[1], leg.points[1]])
