"""C08 -- equilibrium thermodynamics; C09 -- thermodynamics of out-of-equilibrium species."""
from vc.registry import contract
from vc.env import Bag

R, D, IM, N = ['particles.%sParticle' % k for k in ('Radiation', 'Dust', 'Intermediate', 'NonEq')]
S = 'common.statistics'


def _particle(v, F, fermion, mass='any', grid=None):
    """a real Particle object in an arbitrary state"""
    C, P = F.mod('common'), F.mod('particles')
    m = {'zero': 0, 'pos': None, 'any': None}[mass]
    if m is None:
        m = v.real('mass', pos=mass == 'pos', nonneg=mass != 'pos', samples=(0.1, 5))
    dof = v.real('dof', pos=True, samples=(1, 4))
    st = C.statistics if hasattr(C, 'statistics') else F.mod(S)
    kw = {} if grid is None else {'grid': grid}
    p = P.Particle(name='X', mass=m, dof=dof, statistics=st.FERMION if fermion else st.BOSON, **kw)
    pr = C.Params(T=v.num(1), dy=v.num('0.05'))
    pr.T = v.real('Tg', pos=True, samples=(0.3, 3))
    pr.a = v.real('a', pos=True, samples=(0.3, 3))
    pr.m = v.real('mscale', pos=True, samples=(0.3, 3))
    pr.x = pr.a * pr.m
    pr.aT = pr.a * pr.T
    p.params = pr
    p.T = v.real('T', pos=True, samples=(0.3, 3))
    p.aT = v.real('aT', pos=True, samples=(0.3, 3))
    return p, (m if mass != 'zero' else v.num(0)), dof, pr


def _f(v, e, fermion):
    return 1 / (v.exp(e) + (1 if fermion else -1))


STAT = [True, False]


@contract('C08', [S + '.Fermi', S + '.Bose'], fermion=STAT)
def occupation(v, fermion):
    e, mu = v.real('e', samples=(0.1, 20)), v.real('mu')
    M = v.mod(S)
    f = M.FERMION if fermion else M.BOSON
    if not fermion:
        v.assume(e > 0)
        v.assume(e > mu)
    s = 1 if fermion else -1
    v.eq('no chemical potential', f(e) * (v.exp(e) + s), v.num(1))
    v.eq('chemical potential', f(e, mu) * (v.exp(e - mu) + s), v.num(1))
    v.eq('chemical potential by name', f(e, mu=mu) * (v.exp(e - mu) + s), v.num(1))


@contract('C08', [R + k for k in ('.density', '.energy_density', '.pressure', '.entropy', '.numerator', '.denominator')], fermion=STAT)
def radiation(v, fermion):
    p, m, g, pr = _particle(v, v, fermion)
    M = v.mod(R)
    pi2 = v.pi * v.pi
    T = p.T
    z = v.num('7/8') if fermion else v.num(1)
    rho = M.energy_density(p)
    n = M.density(p)
    # zeta(3) = 1.2020569...
    exact = g * T**3 / pi2 * v.num('1.2020569') * (v.num('3/4') if fermion else v.num(1))
    v.le('number density (not below)', exact * v.num('0.995'), n)
    v.le('number density (not above)', n, exact * v.num('1.005'))
    v.eq('energy density', rho, z * pi2 / 30 * g * T**4)
    v.eq('pressure', 3 * M.pressure(p), rho)
    v.eq('entropy', M.entropy(p) * pr.T, rho + M.pressure(p))
    v.eq('numerator', M.numerator(p) + v.num(0), v.num(0))
    # d(rho a^4)/d(aT) of radiation at temperature aT, over aT
    v.eq('denominator', M.denominator(p), 4 * z * pi2 / 30 * g * p.aT**3)


@contract('C08', [D + k for k in ('.density', '.energy_density', '.pressure', '.entropy')], fermion=STAT)
def dust(v, fermion):
    p, m, g, pr = _particle(v, v, fermion, 'pos')
    M = v.mod(D)
    T = p.T
    if not v.sym:
        v.assume(m < 200 * T)
    n = M.density(p)
    v.eq('number density', n * n * v.exp(2 * m / T), g * g * (m * T / (2 * v.pi))**3)
    v.lt('positive', v.num(0), n)
    v.eq('energy density', M.energy_density(p), n * (m + T * 3 / 2))
    v.eq('pressure', M.pressure(p), n * T)
    p.params.T = T
    v.eq('entropy', M.entropy(p) * T, M.energy_density(p) + M.pressure(p))


@contract('C08', [IM + k for k in ('.density', '.energy_density', '.pressure', '.entropy')], fermion=STAT, mass=['zero', 'pos'])
def intermediate(v, fermion, mass):
    p, m, g, pr = _particle(v, v, fermion, mass)
    M = v.mod(IM)
    T = p.T
    E = lambda q: v.sqrt(q * q + m * m) if mass == 'pos' else v.abs(q)
    top = 20 * T
    pi2 = v.pi * v.pi
    n = v.gauss(lambda q: g / (2 * pi2) * q**2 * _f(v, E(q) / T, fermion), 0, top)
    rho = v.gauss(lambda q: g / (2 * pi2) * q**2 * E(q) * _f(v, E(q) / T, fermion), 0, top)
    P = v.gauss(lambda q: g / (6 * pi2) * q**4 / E(q) * _f(v, E(q) / T, fermion), 0, top)
    v.eq('number density', M.density(p), n, tol=1e-6)
    v.eq('energy density', M.energy_density(p), rho, tol=1e-6)
    v.eq('pressure', M.pressure(p), P, tol=1e-6)
    v.eq('entropy', M.entropy(p) * pr.T, rho + P, tol=1e-6)


def _moment(v, g, eta, M, aT, power, how, pmax=None, massive=True):
    """g/2pi^2 int y^power e^(E/aT) / (e^(E/aT) + eta)^2 dy,  E^2 = y^2 + M^2"""
    c = g / (2 * v.pi * v.pi)
    if how == 'legendre':
        def w(y):
            e = v.exp((v.sqrt(y * y + M * M) if massive else v.abs(y)) / aT)
            return y**power * e / (e + eta)**2
        return c * v.gauss(w, 0, pmax)
    # substitution y^2 = (aT)^2 eps (eps + 2 mu), mu = M / aT:  exp(-eps) is the weight
    mu = M / aT

    def w(eps):
        r = eps * (eps + 2 * mu)
        root = v.sqrt(r)
        pw = root if power == 2 else root * root * root
        u = v.exp(-eps - mu)
        return (eps + mu) * pw * v.exp(-mu) / (1 + eta * u)**2
    k = aT**3 if power == 2 else aT**5
    return c * k * v.laguerre(w)


@contract('C08', [IM + k for k in ('.numerator', '.denominator', '.Int')], fermion=STAT, mass=['zero', 'pos'], how=['laguerre', 'legendre'])
def intermediate_temperature_terms(v, fermion, mass, how):
    with v.env(LAGUERRE_GAUSS_FOR_MASSIVE_EQUILIBRIUM_PARTICLES=None if how == 'laguerre' else 'false'):
        F = v.fresh() if not v.sym else v
        p, m, g, pr = _particle(v, F, fermion, mass)
        M = F.mod(IM)
        num, den = M.numerator(p), M.denominator(p)
        dust = F.mod(D)
        num2, den2 = dust.numerator(p), dust.denominator(p)
    eta = 1 if fermion else -1
    mc = m * pr.a
    if v.sym:
        # quadrature points lie in the open half line
        v.smt.nz.positive.add('laggauss.x')
    I2, I4 = [_moment(v, g, eta, mc, pr.aT, k, how, p.grid.MAX_MOMENTUM, mass == 'pos') for k in (2, 4)]
    v.eq('numerator', num, m * m * pr.x / (pr.m * pr.m) / pr.aT * I2, tol=1e-6)
    v.eq('denominator', den, (I4 + mc * mc * I2) / (pr.aT * pr.aT), tol=1e-6)
    v.eq('non-relativistic numerator', num2, num)
    v.eq('non-relativistic denominator', den2, den)


@contract('C08', IM + '.Int', mode='bounded', fermion=STAT)
def temperature_terms_converged(v, fermion):
    """the half-line rule reproduces the momentum integral itself"""
    from scipy.integrate import quad
    import numpy
    p, m, g, pr = _particle(v, v, fermion, 'pos')
    mc, aT = m * pr.a, pr.aT
    v.assume(mc > 0.3 * aT)
    eta = 1 if fermion else -1

    def w(y, k):
        e = (y * y + mc * mc) ** 0.5 / aT
        return g / 2. / numpy.pi**2 * y**k * numpy.exp(-e) / (1 + eta * numpy.exp(-e))**2
    I2, I4 = [quad(w, 0, 60 * (aT + mc), args=(k,), epsabs=0, epsrel=1e-10, limit=500, points=[aT, 5 * aT, 20 * aT])[0] for k in (2, 4)]
    M = v.mod(IM)
    v.eq('numerator', M.numerator(p), m * m * pr.x / pr.m**2 / aT * I2, tol=1e-3)
    v.eq('denominator', M.denominator(p), (I4 + mc * mc * I2) / aT**2, tol=1e-3)


# ---------------------------------------------------------------------------------------- C09

def _noneq(v, fermion, mass, simpson):
    """a real Particle whose distribution function is arbitrary"""
    with v.env(SIMPSONS_NONEQ_PARTICLES=None if simpson else 'false'):
        F = v.fresh()
        M = F.mod(N)
    C = F.mod('common')
    n = v.int('n', lo=3, span=14)
    if v.sym:
        y = v.array('y', n, increasing=True, first=0)
    else:
        y = v.array('y', n, increasing=True, first=0, gen=lambda r, k: [0.] + sorted(r.uniform(0.1, 5) for _ in range(k - 1)))
    grid = Bag(TEMPLATE=y, MOMENTUM_SAMPLES=n, MIN_MOMENTUM=0, MAX_MOMENTUM=v.at(y, n - 1), BOUNDS=(0, v.at(y, n - 1)))
    p, m, g, pr = _particle(v, F, fermion, mass, grid)
    f = v.func('f', 1, pos=True)
    if not v.sym:
        f0 = f
        f = lambda x: f0(x) * 0.3           # below one
    p.distribution = f
    return F, M, p, m, g, pr, y, n, f


def _integral(v, w, y, n, simpson):
    """Simpson's rule on the grid or the Gauss rule over its range, for an integrand given as a function"""
    if simpson:
        return v.simps_of(lambda i: w(v.at(y, i), i), y)
    return v.gauss(lambda q: w(q, None), 0, v.at(y, n - 1))


@contract('C09', [N + k for k in ('.density', '.energy_density', '.pressure')], fermion=STAT, mass=['zero', 'pos'], simpson=[True, False], trials=25)
def noneq_thermodynamics(v, fermion, mass, simpson):
    F, M, p, m, g, pr, y, n, f = _noneq(v, fermion, mass, simpson)
    pi2 = v.pi * v.pi
    mc = m * pr.a
    E = lambda q: v.sqrt(q * q + mc * mc) if mass == 'pos' else v.abs(q)
    I = lambda w: _integral(v, lambda q, i: w(q), y, n, simpson)
    a = pr.a
    v.eq('number density', M.density(p), I(lambda q: f(q) * q * q * g / (2 * pi2) / a**3), tol=1e-6)
    v.eq('energy density', M.energy_density(p), I(lambda q: f(q) * q * q * E(q) * g / (2 * pi2) / a**4), tol=1e-6)
    v.eq('pressure', M.pressure(p),
         I(lambda q: f(q) * (q**4 / E(q) if mass == 'pos' or not simpson else q**3) * g / (6 * pi2) / a**4), tol=1e-6)


@contract('C09', N + '.entropy', fermion=STAT, simpson=[True, False], trials=25)
def noneq_entropy(v, fermion, simpson):
    F, M, p, m, g, pr, y, n, f = _noneq(v, fermion, 'zero', simpson)
    eta = 1 if fermion else -1
    zero_at = None
    if v.choice('zeros', [False, True]):
        # unoccupied momenta contribute nothing
        f1 = f
        cut = v.real('cut', pos=True, samples=(0.1, 4))
        if v.sym:
            f = lambda x: v_pointwise(v, lambda q: v.ite(q > cut, v.num(0), f1(q)), x)
        else:
            import numpy
            f = lambda x: numpy.where(numpy.asarray(x) > cut, 0., f1(x)) if isinstance(x, numpy.ndarray) else (0. if x > cut else f1(x))
        p.distribution = f

    def w(q):
        F_ = f(q)
        if v.sym:
            return v.ite(F_ > 0 if simpson else F_ != 0, -g / (2 * v.pi * v.pi) / pr.a**3 * q * q
                         * (F_ * v.log(F_) + eta * (1 - eta * F_) * v.log(1 - eta * F_)), v.num(0))
        if F_ <= 0:
            return 0.
        return -g / (2 * v.pi * v.pi) / pr.a**3 * q * q * (F_ * v.log(F_) + eta * (1 - eta * F_) * v.log(1 - eta * F_))
    v.eq('entropy density', M.entropy(p), _integral(v, lambda q, i: w(q), y, n, simpson), tol=1e-6)


def v_over(v, a, x):
    return a / x


def v_pointwise(v, f, x):
    from vc.env import _pointwise
    return _pointwise(f, (x,))


@contract('C09', [N + '.numerator', N + '.denominator'], fermion=STAT, mass=['zero', 'pos'], simpson=[True, False], trials=25)
def noneq_temperature_terms(v, fermion, mass, simpson):
    """heat exchanged with the plasma: minus the energy gained through collisions"""
    F, M, p, m, g, pr, y, n, f = _noneq(v, fermion, mass, simpson)
    I_ = v.array('I', n)
    p.collision_integral = I_
    pi2 = v.pi * v.pi
    mc = m * pr.a
    E = lambda q: v.sqrt(q * q + mc * mc) if mass == 'pos' else v.abs(q)
    v.eq('denominator', M.denominator(p) + v.num(0), v.num(0))
    if simpson:
        want = v.simps_of(lambda i: -g / (2 * pi2) * v.at(y, i)**2 * E(v.at(y, i)) * v.at(I_, i) / pr.x, y)
    else:
        if v.sym:
            lin = F.mod('common').linear_interpolation(v_over(v, I_, pr.x), y)
        else:
            lin = lambda q: __import__('numpy').interp(q, y, I_) / pr.x
        want = v.gauss(lambda q: -g / (2 * pi2) * q * q * E(q) * lin(q), 0, v.at(y, n - 1))
    v.eq('numerator', M.numerator(p), want, tol=1e-6, scale=None if v.sym else 1)
