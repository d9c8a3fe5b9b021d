"""C04 -- momentum grids (common.LinearSpacedGrid, LogSpacedGrid, HeuristicGrid)."""
from vc.registry import contract

C = 'common'


def _grid(v, cls, how):
    """how: which of (number of samples, largest momentum) are passed; the others come from the configuration"""
    n = v.int('n', lo=2, span=60)
    kw, env = {}, {}
    if 'n' in how:
        kw['MOMENTUM_SAMPLES'] = n
    else:
        env['MOMENTUM_SAMPLES'] = n
    if 'p' in how:
        top = v.real('pmax', pos=True, samples=(1e-4, 10.))
        kw['MAX_MOMENTUM'] = top
    else:
        top = v.int('pmax_mev', lo=1, span=500)
        env['MAX_MOMENTUM_MEV'] = top
    with v.env(**env):
        M = v.mod(C)
        g = getattr(M, cls)(**kw)
    if 'p' not in how:
        top = top * M.UNITS.MeV
    return g, n, top


HOW = ['np', 'n', 'p', '']


def _bookkeeping(v, g, n, top):
    t = g.TEMPLATE
    v.eq('number of samples', v.len(t), n)
    v.eq('MOMENTUM_SAMPLES', g.MOMENTUM_SAMPLES, n)
    v.eq('starts at zero', v.at(t, 0), v.num(0))
    v.eq('ends at the requested momentum', v.at(t, n - 1), top)
    v.eq('MIN_MOMENTUM', g.MIN_MOMENTUM, v.num(0))
    v.eq('MAX_MOMENTUM', g.MAX_MOMENTUM, top)
    v.eq('BOUNDS', tuple(g.BOUNDS), (v.num(0), top))


@contract('C04', C + '.LinearSpacedGrid.__init__', how=HOW)
def linear(v, how):
    g, n, top = _grid(v, 'LinearSpacedGrid', how)
    _bookkeeping(v, g, n, top)
    k = v.int('k', lo=0, hi=None if v.sym else n - 2)
    v.assume(k < n - 1)
    a, b = v.at(g.TEMPLATE, k), v.at(g.TEMPLATE, k + 1)
    v.lt('increasing', a, b)
    v.eq('uniform spacing', (b - a) * (n - 1), top)


@contract('C04', [C + '.LogSpacedGrid.__init__', C + '.LogSpacedGrid.generate_template'], how=HOW)
def log_spaced(v, how):
    g, n, top = _grid(v, 'LogSpacedGrid', how)
    _bookkeeping(v, g, n, top)
    t = g.TEMPLATE
    k = v.int('k', lo=0, hi=None if v.sym else n - 2)
    v.assume(k < n - 1)
    v.lt('increasing', v.at(t, k), v.at(t, k + 1))
    j = v.int('j', lo=0, hi=None if v.sym else max(n - 3, 0))
    v.assume(j < n - 2)
    v.eq('spacing grows by 1.2', v.at(t, j + 2) - v.at(t, j + 1), v.num('1.2') * (v.at(t, j + 1) - v.at(t, j)),
         scale=None if v.sym else v.at(t, j + 2))


@contract('C04', C + '.HeuristicGrid.__init__', trials=150, timeout=240, cases=[dict(aT=k, b=k, c=k) for k in (True, False)])
def heuristic(v, aT, b, c):
    """decay-product grid: tracks the momentum of particles injected by a decaying species of mass M, lifetime tau"""
    M_ = v.mod(C)
    U = M_.UNITS
    M = v.real('M', pos=True, samples=(1e-3, 0.5))
    tau = v.real('tau', pos=True, samples=(0.01, 10.)) * U.s
    kw = {}
    if aT:
        kw['aT'] = v.real('aT', pos=True, samples=(0.5, 3.)) * U.MeV
    if b:
        kw['b'] = v.real('b', pos=True, samples=(0.2, 3))
    if c:
        kw['c'] = v.real('c', pos=True, samples=(20, 400))
    aT, b, c = kw.get('aT', 1 * U.MeV), kw.get('b', v.num('0.8')), kw.get('c', v.num(200))
    # the grid is built downwards; j is an arbitrary step of it
    j = v.int('j', lo=0, span=300)

    def width(p, lemmas=False):
        """thermal width, now, of the particles injected with energy M that have conformal momentum p now"""
        S = v.sqrt(aT * (aT + 2 * p * c * c))
        T = aT * M * (aT + p * c * c - S) / (2 * p * p * c * c)
        s, r = v.sqrt(M * T / c), v.sqrt(c)
        if lemmas:
            v.lemma('temperature of the injected particles',
                    lambda aT, M, c, p, S, T: [aT > 0, M > 0, c > 0, p > 0, S >= 0, v.is_eq(S * S, aT * (aT + 2 * p * c * c)),
                                               v.is_eq(T * 2 * p * p * c * c, aT * M * (aT + p * c * c - S))],
                    lambda aT, M, c, p, S, T: [T > 0, v.is_eq(2 * T * (aT + p * c * c + S), aT * M * c * c), S > aT, 4 * T <= M * c * c], aT, M, c, p, S, T)
            w = s * aT / T
            v.lemma('smallest width', lambda M, c, T, s, r, aT, w: [M > 0, c > 0, T > 0, s >= 0, r >= 0, v.is_eq(s * s * c, M * T), v.is_eq(r * r, c), 4 * T <= M * c * c,
                                                                    aT > 0, v.is_eq(w * T, s * aT)],
                    lambda M, c, T, s, r, aT, w: [s > 0, s * c * r >= 2 * T, s * c * r / (2 * T) >= 1, w > 0, w * c * r >= 2 * aT], M, c, T, s, r, aT, w)
        return s * aT / T

    stage = []

    def facts(grid):
        """the invariant, for one arbitrary step j"""
        stage.append(1)
        grid = v.seq(grid)
        n = v.len(grid)
        if len(stage) == 3:
            width(v.at(grid, n - 2), True)          # one step later
        yield 'one point', 1 <= n
        yield 'starts at the top', v.is_eq(v.at(grid, 0), top)
        yield 'not negative', 0 <= v.at(grid, n - 1)
        if n <= j + 1:
            return
        k = n - 2 if len(stage) == 3 and n == j + 2 else j
        hi, lo = v.at(grid, k), v.at(grid, k + 1)
        yield 'positive before', 0 < hi
        yield 'spacing', v.is_eq(lo, v.ite(width(hi) < hi, hi - width(hi), v.num(0)))

    def left(grid):
        grid = v.seq(grid)
        g = v.at(grid, v.len(grid) - 1)
        return g * c * v.sqrt(c) / (2 * aT) + 1 if g > 0 else v.num(0)
    amax = v.sqrt(2 * (v.num('0.5') / U.s) * b * tau)
    top = amax * (M + v.sqrt(M * aT / amax))
    v.loop('__init__#0', inv=lambda L: facts(L['grid']), havoc={'grid': lambda old: v.some_list('grid')}, pure=['numpy.sqrt'],
           variant=lambda L: left(L['grid']))
    g = M_.HeuristicGrid(M, tau, **kw)
    t = g.TEMPLATE
    n = v.len(t)
    _bookkeeping(v, g, n, top)
    v.check('at least two points', n >= 2)
    v.assume(j < n - 1)
    lo, hi = v.at(t, n - 2 - j), v.at(t, n - 1 - j)
    v.lt('positive', 0, hi)
    width(hi, True)
    v.lt('increasing', lo, hi)
    v.eq('spacing resolves the thermal width', lo, v.ite(width(hi) < hi, hi - width(hi), v.num(0)), scale=None if v.sym else hi)


@contract('C04', C + '.GRID')
def default_grid(v):
    with v.env(MOMENTUM_SAMPLES=None, MAX_MOMENTUM_MEV=None):
        M = v.fresh().mod(C)
    _bookkeeping(v, M.GRID, 401, 100 * M.UNITS.MeV)


@contract('C04', C + '.theta')
def heaviside(v):
    x = v.real('x')
    got = v.mod(C).theta(x)
    v.eq('step', got, v.ite(x > 0, v.num(1), v.ite(x < 0, v.num(0), v.num('1/2'))))
