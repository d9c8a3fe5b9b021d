"""C10 -- the life of a particle species: regimes, decoupling, distribution updates, collision step."""
from vc.registry import contract
from vc.env import Bag
from contracts.parts import params, grid, particle, occupied, KER4

P = 'particles'
A, D = P + '.AbstractParticle', P + '.DistributionParticle'
STAT = [True, False]


def _mods(F):
    return dict((k, F.mod('particles.%sParticle' % k)) for k in ('Radiation', 'Dust', 'Intermediate', 'NonEq'))


@contract('C10', [A + '.regime', A + '.in_equilibrium'])
def regime(v):
    """out of equilibrium at and below the decoupling temperature or when declared non-thermal; in equilibrium:
    relativistic for T > m gamma, non-relativistic for T < m / gamma, in between otherwise"""
    gamma = v.real('gamma', lo=1, samples=(1, 1e3))
    with v.env(REGIME_SWITCHING_FACTOR=gamma if v.sym else repr(gamma)):
        F = v.fresh()
        pr = params(v, F)
        Td = v.real('Td', nonneg=True, samples=(0.1, 5))
        thermal = v.choice('thermal', [True, False])
        p = particle(v, F, pr, mass='any', decoupling_temperature=Td, thermal_dyn=thermal)
        if v.choice('boundary', [False, True]):
            p.T = v.choice('at', [Td, p.mass * gamma, p.mass / gamma])
        eq = p.in_equilibrium
        got = p.regime
    R = _mods(F)
    eq_want = v.land(p.T > Td, thermal)
    v.eq('equilibrium', bool(eq), bool(eq_want))
    if not eq_want:
        v.check('non-equilibrium', got is R['NonEq'])
    elif p.T > p.mass * gamma:
        v.check('relativistic', got is R['Radiation'])
    elif p.T * gamma < p.mass:
        v.check('non-relativistic', got is R['Dust'])
    else:
        v.check('intermediate', got is R['Intermediate'])


@contract('C10', A + '.__init__', fermion=STAT)
def construction(v, fermion):
    F = v.fresh()
    pr = params(v, F)
    g = grid(v)
    p = particle(v, F, pr, fermion=fermion, g=g)
    v.eq('statistics sign', p.eta + v.num(0), v.num(1 if fermion else -1))
    e = v.real('e', pos=True)
    v.eq('occupation', p.equilibrium_distribution_function(e), 1 / (v.exp(e) + (1 if fermion else -1)))
    v.eq('empty collision integral', p.collision_integral, p.grid.TEMPLATE * 0)
    v.check('no reactions yet', len(p.collision_integrals) == 0)
    v.check('not decayed', p.decayed is False)
    # defaults of a bare particle
    b = F.mod(P).Particle()
    v.eq('massless by default', b.mass + v.num(0), v.num(0))
    v.eq('dof', b.dof + v.num(0), v.num(2))
    v.eq('never decouples by default', b.decoupling_temperature + v.num(0), v.num(0))
    v.check('fermion by default', b.statistics is F.mod('common.statistics').FERMION)
    q = F.mod(P).Particle()
    v.check('no shared history', q.data is not b.data and q.data['params'] is not b.data['params'])


@contract('C10', [A + '.energy', A + '.conformal_energy', A + '.conformal_mass'], mass=['zero', 'pos'])
def energies(v, mass):
    F = v.fresh()
    pr = params(v, F)
    p = particle(v, F, pr, mass=mass)
    q = v.real('q')
    M = v.real('M', nonneg=True)
    if mass == 'zero':
        v.eq('energy', p.energy(q), v.abs(q))
        v.eq('conformal energy', p.conformal_energy(q), v.abs(q))
        v.eq('conformal mass', p.conformal_mass + v.num(0), v.num(0))
        return
    v.eq('energy', p.energy(q) * p.energy(q), q * q + p.mass * p.mass)
    v.lt('positive', v.num(0), p.energy(q))
    v.eq('conformal mass', p.conformal_mass, p.mass * pr.a)
    v.eq('conformal energy', p.conformal_energy(q)**2, q * q + p.mass * p.mass * pr.a * pr.a)
    v.eq('given conformal mass', p.conformal_energy(q, M)**2, q * q + M * M)


def _equilibrium(v, q, m, a, aT, fermion):
    e = v.abs(q) if m is None else v.sqrt(q * q + m * m * a * a)
    return 1 / (v.exp(e / aT) + (1 if fermion else -1))


@contract('C10', [D + '.distribution', D + '.equilibrium_distribution', D + '.init_distribution'], fermion=STAT, mass=['zero', 'pos'])
def distribution(v, fermion, mass):
    F = v.fresh()
    pr = params(v, F)
    Td = v.real('Td', pos=True, samples=(0.3, 3))
    p = particle(v, F, pr, mass=mass, fermion=fermion, decoupling_temperature=Td)
    f = occupied(v, p)
    seen = {}

    def kernel(g, d, q, m=0, eta=1, T=1, eq=False):
        seen.update(grid=g, d=d, q=q, m=m, eta=eta, T=T, eq=eq)
        return v.num('0.125')
    F.mod(KER4).handlers['distribution_interpolation'] = kernel
    q = v.real('q', pos=True, samples=(0.1, 4))
    m = None if mass == 'zero' else p.mass
    got = p.distribution(q)
    if p.T > Td:
        v.eq('equilibrium', got, _equilibrium(v, q, m, pr.a, p.aT, fermion))
        v.check('no interpolation in equilibrium', not seen)
    else:
        v.eq('interpolated', got, v.num('0.125'))
        v.eq('grid', seen['grid'], p.grid.TEMPLATE)
        v.eq('recorded values', seen['d'], f)
        v.eq('momentum', seen['q'], q)
        v.eq('temperature', seen['T'], p.aT)
        v.eq('sign', seen['eta'] + v.num(0), v.num(1 if fermion else -1))
        v.check('not as equilibrium', not seen['eq'])
        if mass == 'pos':
            # the shape frozen at decoupling: mass in units of the temperature at T = Td
            v.eq('mass', seen['m'] * Td, p.mass * p.aT)
    i = v.int('i', lo=0, hi=p.grid.MOMENTUM_SAMPLES - 1)
    y = v.at(p.grid.TEMPLATE, i)
    if mass == 'zero' and not fermion:
        v.assume(y > 0)
    v.eq('equilibrium shape', v.at(p.equilibrium_distribution(), i), _equilibrium(v, y, m, pr.a, p.aT, fermion))
    v.eq('equilibrium shape at a momentum', p.equilibrium_distribution(q), _equilibrium(v, q, m, pr.a, p.aT, fermion))
    aT = v.real('aT2', pos=True, samples=(0.3, 3))
    v.eq('equilibrium shape at a temperature', p.equilibrium_distribution(q, aT=aT), _equilibrium(v, q, m, pr.a, aT, fermion))
    M = v.real('M2', pos=True, samples=(0.3, 3))
    if mass == 'pos':
        v.eq('equilibrium shape for a mass', p.equilibrium_distribution(q, conf_mass=M), _equilibrium(v, q, M, v.num(1), p.aT, fermion))
    p.init_distribution()
    v.eq('initial distribution', v.at(p._distribution, i), _equilibrium(v, y, m, pr.a, p.aT, fermion))
    p.thermal_dyn = False
    p.init_distribution()
    v.eq('non-thermal species start empty', p._distribution, p.grid.TEMPLATE * 0)


def _interp(v):
    f = v.func('interp', 1, pos=True)

    def kernel(g, d, q, m=0, eta=1, T=1, eq=False):
        return f(q) * v.num('0.2')
    return kernel


@contract('C10', [D + '.update', A + '.populate_methods'], state=['equilibrium', 'decoupling', 'decoupled'], mass=['zero', 'pos'], fast=[False, True], trials=30)
def update(v, state, mass, fast):
    """temperature follows the plasma until decoupling and redshifts as 1/a afterwards; the distribution is frozen
    into the equilibrium one at the moment of decoupling and never reset again"""
    F = v.fresh()
    pr = params(v, F)
    Td = v.real('Td', pos=True, samples=(0.3, 3))
    p = particle(v, F, pr, mass=mass, fermion=True, decoupling_temperature=Td, **(dict(fast_decay=True) if fast else {}))
    f0 = occupied(v, p)
    p.collision_integral = v.array('I', p.grid.MOMENTUM_SAMPLES)
    F.mod(KER4).handlers['distribution_interpolation'] = _interp(v)
    new_T = (p.aT if state == 'decoupled' else pr.aT) / pr.a
    v.assume(p.T > Td if state != 'decoupled' else p.T <= Td)
    v.assume(new_T > Td if state == 'equilibrium' else new_T <= Td)
    if not v.sym and mass == 'pos':
        v.assume(p.mass < 20 * new_T)
    aT0 = p.aT
    p.t_decoupling = t_dec = v.real('t_dec', pos=True)
    rows = len(p.data['params'])
    p.update()
    v.eq('temperature', p.T * pr.a, p.aT)
    v.eq('comoving temperature', p.aT, aT0 if state == 'decoupled' else pr.aT)
    v.eq('collision integral cleared', p.collision_integral, p.grid.TEMPLATE * 0)
    v.eq('decoupling time', p.t_decoupling, pr.t if state == 'decoupling' else t_dec)
    R = p.regime
    for k in ('density', 'energy_density', 'pressure', 'entropy'):
        v.eq(k, getattr(p, k), getattr(R, k)(p))
    v.eq('numerator', p.numerator(), R.numerator(p))
    v.eq('denominator', p.denominator() + v.num(0), R.denominator(p) + v.num(0))
    v.eq('one row recorded', len(p.data['params']), rows + 1)
    last = p.data['params']
    for k, want in (('a', pr.a), ('t', pr.t), ('T', pr.T), ('density', p.density), ('energy_density', p.energy_density)):
        v.eq('recorded ' + k, last[k][rows], want)
    if state == 'decoupled':
        v.eq('distribution kept', p._distribution, f0)
    else:
        i = v.int('i', lo=0, hi=p.grid.MOMENTUM_SAMPLES - 1)
        v.eq('distribution frozen at decoupling' if state == 'decoupling' else 'thermal spectrum', v.at(p._distribution, i),
             _equilibrium(v, v.at(p.grid.TEMPLATE, i), None if mass == 'zero' else p.mass, pr.a, pr.aT, True))


@contract('C10', D + '.update', charged=[1, -1, 0], trials=30)
def update_nonthermal(v, charged):
    """species that never thermalise: neutral ones keep the spectrum and cool as 1/a, charged ones stay at the temperature
    of the plasma, unoccupied"""
    F = v.fresh()
    pr = params(v, F)
    p = particle(v, F, pr, mass='pos', decoupling_temperature=v.real('Td', pos=True, samples=(0.1, 5)), thermal_dyn=False, Q=charged)
    f0 = occupied(v, p)
    F.mod(KER4).handlers['distribution_interpolation'] = _interp(v)
    aT0 = p.aT
    p.t_decoupling = t_dec = v.real('t_dec', pos=True)
    p.update()
    v.eq('temperature', p.T * pr.a, p.aT)
    v.eq('comoving temperature', p.aT, pr.aT if charged else aT0)
    v.eq('spectrum', p._distribution, f0 * 0 if charged else f0)
    v.check('out of equilibrium', not p.in_equilibrium)
    v.eq('decoupling time', p.t_decoupling, t_dec)
    v.eq('collision integral cleared', p.collision_integral, p.grid.TEMPLATE * 0)


@contract('C10', D + '.set_params', thermal=[True, False], given=[True, False])
def set_params(v, thermal, given):
    """joining a universe: temperature of the plasma, equilibrium (or empty) distribution, first records"""
    F = v.fresh()
    pr = params(v, F)
    F.mod(KER4).handlers['distribution_interpolation'] = _interp(v)
    Td = v.real('Td', pos=True, samples=(0.1, 3)) if given else v.num(0)
    p = particle(v, F, pr, mass='zero', decoupling_temperature=Td, thermal_dyn=thermal)
    p.params = None
    if given and thermal:
        v.assume(pr.T > Td)
    p.set_params(pr)
    v.check('linked', p.params is pr)
    v.eq('temperature', p.T * pr.a, p.aT)
    v.eq('comoving temperature', p.aT, pr.aT)
    i = v.int('i', lo=0, hi=p.grid.MOMENTUM_SAMPLES - 1)
    if thermal:
        v.eq('starts in equilibrium', v.at(p._distribution, i), _equilibrium(v, v.at(p.grid.TEMPLATE, i), None, pr.a, pr.aT, True))
        v.eq('decoupling temperature kept', p.decoupling_temperature, Td)
    else:
        v.eq('starts empty', v.at(p._distribution, i) + v.num(0), v.num(0))
        v.eq('decoupled from the start', p.decoupling_temperature, Td if given else pr.T)
    v.eq('distribution recorded', len(p.data['distribution']), 1)
    v.eq('recorded distribution', p.data['distribution'][0], p._distribution)
    v.eq('parameters recorded', len(p.data['params']), 1)


@contract('C10', D + '.update_distribution', state=['equilibrium', 'decoupled'], mass=['zero', 'pos'])
def update_distribution(v, state, mass):
    """f <- max(f + I h, 0), for every momentum; species in equilibrium are untouched"""
    F = v.fresh()
    pr = params(v, F)
    Td = v.real('Td', pos=True, samples=(0.3, 3))
    p = particle(v, F, pr, mass=mass, decoupling_temperature=Td)
    v.assume(p.T > Td if state == 'equilibrium' else p.T <= Td)
    f = occupied(v, p)
    n = p.grid.MOMENTUM_SAMPLES
    I = v.array('I', n)
    p.collision_integral = I.copy()
    p.collision_integrals = ['reaction']
    nd, nc = len(p.data['distribution']), len(p.data['collision_integral'])
    p.update_distribution()
    i = v.int('i', lo=0, hi=n - 1)
    if state == 'equilibrium':
        v.eq('unchanged', p._distribution, f)
        v.eq('no record', len(p.data['distribution']), nd)
        return
    v.eq('new distribution', v.at(p._distribution, i), v.max(v.at(f, i) + v.at(I, i) * pr.h, v.num(0)), scale=1)
    v.le('never negative', v.num(0), v.at(p._distribution, i))
    v.eq('recorded', p.data['distribution'][nd], p._distribution)
    v.eq('rate recorded', p.data['collision_integral'][nc], I)
    v.check('reactions are collected anew each step', len(p.collision_integrals) == 0)


@contract('C10', D + '.update_distribution', infinite=[False, True])
def undefined_rates(v, infinite):
    """a momentum whose rate could not be evaluated keeps its occupation; infinite rates are refused"""
    F = v.fresh()
    pr = params(v, F)
    p = particle(v, F, pr, mass='zero', decoupling_temperature=v.num(10**9))
    v.assume(p.T < 10**9)
    f = occupied(v, p)
    n = p.grid.MOMENTUM_SAMPLES
    k = v.int('k', lo=0, hi=n - 1)
    I = v.rates('I', n, inf=k if infinite else None)
    p.collision_integral = I.copy()
    kind, e = v.calls(p.update_distribution)
    v.instance(k)
    if infinite:
        v.check('refused', kind == 'exc')
        return
    v.check('accepted', kind == 'ok')
    i = v.int('i', lo=0, hi=n - 1)
    v.instance(i)
    v.eq('new distribution', v.at(p._distribution, i), v.max(v.at(f, i) + v.ite(v.is_nan(I, i), v.num(0), v.at(I, i)) * pr.h, v.num(0)), scale=1)


@contract('C10', D + '.update_distribution', thermal=[True, False])
def fast_decaying(v, thermal):
    """instantly decaying species: the decoupled spectrum, diluted by exp(-(t - t_dec) / lifetime), or nothing"""
    F = v.fresh()
    pr = params(v, F)
    Td = v.real('Td', pos=True, samples=(0.3, 3))
    tau = v.real('lifetime', pos=True, samples=(1, 30))
    p = particle(v, F, pr, mass='pos', decoupling_temperature=Td, thermal_dyn=thermal, fast_decay=True, lifetime=tau)
    v.assume(p.T <= Td)
    occupied(v, p)
    p.t_decoupling = td = v.real('t_dec', pos=True, samples=(1, 50))
    n = p.grid.MOMENTUM_SAMPLES
    p.collision_integral = v.array('I', n)
    p.update_distribution()
    i = v.int('i', lo=0, hi=n - 1)
    y = v.at(p.grid.TEMPLATE, i)
    if thermal:
        want = _equilibrium(v, y, p.mass, p.aT / Td, p.aT, True) * v.exp(-(pr.t - td) / tau)
        v.eq('spectrum', v.at(p._distribution, i), want)
    else:
        v.eq('nothing left', v.at(p._distribution, i) + v.num(0), v.num(0))


STEP_KINDS = ['Full', 'Full,Full', 'Full,F_1', 'Full_vacuum_decay,F_creation', 'F_f_vacuum_decay', 'F_decay,F_creation', 'Full,F_f', 'F_1']


@contract('C10', [D + '.calculate_collision_integral', D + '.integrate_collisions'],
          cases=[dict(kinds=k, past=n) for k in STEP_KINDS for n in (0, 1, 2, 6)] + [dict(kinds='F_decay,F_creation', past=n, empty=True) for n in (0, 2)])
def collision_step(v, kinds, past, empty=False):
    """the rate of change over the step is the implicit Adams-Moulton one for f' = A + B f,
    A + B f being the sum of the rates of all the reactions at the current distribution"""
    with v.env(ADAMS_MOULTON_DISTRIBUTION_CORRECTION=None):
        F = v.fresh()
        pr = params(v, F)
        K = F.mod(KER4).CollisionIntegralKind
        p = particle(v, F, pr, mass='zero', decoupling_temperature=v.num(10**9))
        v.assume(p.T < 10**9)
        occupied(v, p)
        cur = v.func('f', 1, pos=True) if not empty else lambda q: 0 * q
        F.mod(KER4).handlers['distribution_interpolation'] = lambda g, d, q, *a, **k: cur(q)
        n = p.grid.MOMENTUM_SAMPLES
        hist = [v.array('past%d' % k, n) for k in range(past)]
        for x in hist:
            p.data['collision_integral'].append(x)
        parts = []
        steps = []
        for k, kind in enumerate(kinds.split(',')):
            linear = kind in ('F_f', 'F_f_vacuum_decay', 'F_decay')
            AB = v.array('AB%d' % k, n) if not (linear and empty) else p.grid.TEMPLATE * 0
            B = v.array('B%d' % k, n) if kind.startswith('Full') else None
            if linear:
                # the term proportional to the occupation alone
                B = AB / p.distribution(p.grid.TEMPLATE) if not empty else p.grid.TEMPLATE * 0
            parts.append((AB, B))

            def integrate(ps, stepsize=None, r=((AB, B) if kind.startswith('Full') else AB)):
                steps.append(stepsize)
                return r
            p.collision_integrals.append(Bag(kind=getattr(K, kind), integrate=integrate))
        got = p.integrate_collisions()
    i = v.int('i', lo=0, hi=n - 1)
    tot = sum(v.at(x, i) for x, _ in parts)
    B = sum(v.at(b, i) for _, b in parts if b is not None)
    y = cur(v.at(p.grid.TEMPLATE, i))
    h = pr.h
    if not v.sym:
        v.assume(abs(1 - B * h) > 1e-2)
    coeff = [['1'], ['1/2', '1/2'], ['-1/12', '2/3', '5/12'], ['1/24', '-5/24', '19/24', '9/24'],
             ['-19/720', '106/720', '-264/720', '646/720', '251/720']]
    w = [v.num(k) for k in coeff[min(past, 4)]]
    old = [v.at(x, i) for x in hist[-(len(w) - 1):]] if len(w) > 1 else []
    explicit = sum((a * x for a, x in zip(w, old)), v.num(0))
    # y + h (explicit + w (A + B y')) = y'
    new = (y + h * (explicit + w[-1] * (tot - B * y))) / (1 - w[-1] * h * B)
    for s in steps:
        v.eq('step size handed to the reactions', s, h)
    v.eq('reactions evaluated once', len(steps), len(parts))
    v.assume(v.lnot((1 - w[-1] * h * B) == 0)) if v.sym else v.assume(abs(1 - float(w[-1]) * h * B) > 1e-2)
    v.eq('rate', v.at(got, i), (new - y) / h, scale=None if v.sym else max(abs(y / h), abs(new / h)))


@contract('C10', D + '.calculate_collision_integral', why=['no reactions', 'decayed'])
def no_collisions(v, why):
    F = v.fresh()
    pr = params(v, F)
    p = particle(v, F, pr, mass='zero', decoupling_temperature=v.num(10**9))
    occupied(v, p)
    p.decayed = why == 'decayed'
    if why == 'decayed':
        p.collision_integrals = [Bag(kind=0, integrate=None)]
    v.eq('no rate', p.integrate_collisions(), p.grid.TEMPLATE * 0)
