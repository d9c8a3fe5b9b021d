"""C17 -- neutron <-> proton weak rates handed to the nucleosynthesis code; C20 -- semi-analytic BBN estimates."""
from vc.registry import contract
from vc.env import Bag
from contracts.parts import params

K = 'kawano'
R = [K + '.baryonic_rates'] + [K + '._rate%d' % i for i in range(1, 7)] + [K + '.init_kawano']


def kinematics_of(v, F):
    SM = F.mod('library.SM').particles
    q = SM.hadrons.neutron['mass'] - SM.hadrons.proton['mass']
    return q, SM.leptons.electron['mass']


def setup(v, F, equilibrium):
    M = F.mod(K)
    UN = F.mod('common').UNITS
    a = v.real('a', pos=True, samples=(0.3, 5))
    MeV = UN.MeV
    lo = v.num(0)
    top = v.real('top', pos=True, samples=(0.5, 30)) * MeV
    pr = Bag(a=a, T=v.real('T', pos=True), aT=None)
    if equilibrium:
        aT = v.real('aT', pos=True, samples=(0.3, 3)) * MeV
        q, me = kinematics_of(v, F)
        fe = lambda y: 1 / (v.exp(_sq(v, y * y + me * me * a * a) / aT) + 1)
        fn = lambda y: 1 / (v.exp(y / aT) + 1)
    else:
        ge, gn = v.func('f_e', 1), v.func('f_nu', 1)
        fe, fn = lambda y: ge(y / MeV), lambda y: gn(y / MeV)
        aT = None
    e = Bag(distribution=fe, params=pr)
    nu = Bag(distribution=fn, params=pr, grid=Bag(MIN_MOMENTUM=lo, MAX_MOMENTUM=top, BOUNDS=(lo, top)))
    M.init_kawano(electron=e, neutrino=nu)
    return M, a, lo, top, fe, fn, aT


def _sq(v, x):
    if v.sym:
        return v.sqrt(x)
    import numpy
    return numpy.sqrt(x)


def spec(v, F, a, lo, top, fe, fn):
    q, me = kinematics_of(v, F)
    q, m = q * a, me * a
    norm = F.mod('common').CONST.rate_normalization / a ** 5
    one = v.num(1)
    block = lambda f: lambda y: one - f(y)
    chan = [(lambda y: q + y, block(fe), fn, (lo, top)), (lambda y: q + y, fe, block(fn), (lo, top)),
            (lambda y: q - y, block(fe), block(fn), (lo, q - m)), (lambda y: q - y, fe, fn, (lo, q - m)),
            (lambda y: y - q, fe, block(fn), (q + m, top)), (lambda y: y - q, block(fe), fn, (q + m, top))]
    out = []
    for E, g, h, (b0, b1) in chan:
        def integrand(y, E=E, g=g, h=h):
            En = E(y)
            open_ = En >= m
            ye = v.sqrt(v.max(En * En - m * m, v.num(0))) if not v.sym else v.sqrt(En * En - m * m)
            return v.ite(open_, y * y * ye * En * g(ye) * h(y), v.num(0))
        out.append((b0, b1, norm, integrand))
    return out


@contract('C17', R, again=[False, True], trials=25, timeout=120)
def rates(v, again):
    """each rate is the phase-space integral over the neutrino momentum with the statistical factors of its initial and final
    leptons; closed channels vanish.  `again`: whatever was computed before, here at the same scale factor with other spectra"""
    F = v.fresh()
    M, a, lo, top, fe, fn, _ = setup(v, F, False)
    if again:
        M.baryonic_rates(a)
        MeV = F.mod('common').UNITS.MeV
        ge, gn = v.func('f_e2', 1), v.func('f_nu2', 1)
        fe, fn = lambda y: ge(y / MeV), lambda y: gn(y / MeV)
        M.particles.electron.distribution, M.particles.neutrino.distribution = fe, fn
    got = M.baryonic_rates(a)
    v.eq('six rates', len(got), 6)
    for k, (b0, b1, norm, f) in enumerate(spec(v, F, a, lo, top, fe, fn)):
        if bool(b0 < b1):
            want = norm * v.gauss(f, b0, b1)
            v.eq('rate %d' % (k + 1), got[k] + v.num(0), want, tol=1e-6, scale=None if v.sym else abs(norm * (b1 - b0)) * (abs(b1) + abs(b0)) ** 4)
        else:
            v.eq('closed channel %d' % (k + 1), got[k] + v.num(0), v.num(0))


@contract('C17', R, trials=25)
def detailed_balance(v):
    """in thermal equilibrium with the neutrinos every reaction and its inverse differ by exp(Q / T).
    Symbolically a lemma over the contract of the rates (pointwise in the neutrino momentum, for the integrands of the contract);
    concretely the rates themselves."""
    F = v.fresh()
    if not v.sym:
        M, a, lo, top, fe, fn, aT = setup(v, F, True)
        got = M.baryonic_rates(a)
        q, me = kinematics_of(v, F)
        for k in range(0, 6, 2):
            v.eq('balance %d' % (k // 2), got[k] + v.num(0), v.exp(q * a / aT) * (got[k + 1] + v.num(0)), tol=1e-5)
        return
    a, aT, y, E = v.real('a', pos=True), v.real('aT', pos=True), v.real('y', nonneg=True), v.real('E', pos=True)
    q, me = kinematics_of(v, F)
    m = me * a
    v.assume(E >= m)
    v.eq('energy of the electron', v.sqrt(v.sqrt(E * E - m * m) ** 2 + m * m), E)
    fe = lambda ye: 1 / (v.exp(E / aT) + 1)
    fn = lambda p: 1 / (v.exp(p / aT) + 1)
    for k, En in ((0, y + q * a), (2, q * a - y), (4, y - q * a)):
        sp = spec(v, F, a, v.num(0), v.real('top', pos=True), fe, fn)
        f, g = sp[k][3], sp[k + 1][3]
        sub = lambda t: t
        if k == 0:
            yy = E - q * a
        elif k == 2:
            yy = q * a - E
        else:
            yy = E + q * a
        v.eq('pointwise balance %d' % (k // 2), f(yy), v.exp(q * a / aT) * g(yy))


@contract('C17', R, mode='bounded', trials=5)
def free_decay(v):
    """free neutron decay is the unit of the rates"""
    F = v.fresh()
    M = F.mod(K)
    a = v.real('a', pos=True, samples=(0.3, 5))
    top = 100 * F.mod('common').UNITS.MeV
    pr = Bag(a=a)
    empty = lambda y: 0. * y
    M.init_kawano(electron=Bag(distribution=empty, params=pr), neutrino=Bag(distribution=empty, params=pr, grid=Bag(MIN_MOMENTUM=0., MAX_MOMENTUM=top, BOUNDS=(0., top))))
    r = M.baryonic_rates(a)
    v.eq('free decay', r[2], 1., tol=2e-3)
    for k in (0, 1, 3, 4, 5):
        v.eq('no other reaction', r[k], 0., scale=1)


S = 'semianalytic.step_monitor'


@contract('C20', S, ratio=['low', 'mid', 'high'], known=[True, False], before=[0, 1])
def neutron_decoupling(v, ratio, known, before):
    """neutrons decouple when the conversion rates n -> p and p -> n first differ by more than a factor of ten"""
    F = v.fresh()
    pr = params(v, F)
    UN = F.mod('common').UNITS
    pr.N_eff = v.real('neff')
    v.assume(pr.T > F.mod('semianalytic').T_BBN)
    rates = [v.real('r%d' % k, pos=True, samples=(0.01, 40)) for k in range(6)]
    fwd, bwd = rates[0] + rates[2] + rates[4], rates[1] + rates[3] + rates[5]
    v.assume(fwd < bwd / 10 if ratio == 'low' else fwd > 10 * bwd if ratio == 'high' else v.land(fwd >= bwd / 10, fwd <= 10 * bwd))
    rec = [v.real('c%d' % k) for k in range(6)] + rates
    if v.sym:
        data = [[v.num(0)] * 12] * before + [rec]
    else:
        data = [tuple([0.] * 12)] * before + [tuple(rec)]
    H = F.mod('kawano').heading
    tab = F.mod('common.utils').DynamicRecArray(H)
    for row in data:
        tab.append(dict(zip(tab.columns, row)))
    u = Bag(kawano_data=tab, params=pr, kawano=F.mod('kawano'))
    old = Bag(T=v.real('oldT', pos=True), t=v.real('oldt'), N_eff=v.real('oldn'))
    if known:
        u.neutron_decoupling_parameters = old
    F.mod('semianalytic').step_monitor(u)
    have = hasattr(u, 'neutron_decoupling_parameters')
    v.check('recorded when out of balance', have == (known or ratio != 'mid'))
    if have:
        n = u.neutron_decoupling_parameters
        v.eq('temperature', n.T, old.T if known else pr.T)
        v.eq('time', n.t, old.t if known else pr.t)
        T0 = n.T
        if not known:
            pr.T = pr.T / 2
            v.eq('a snapshot, not the running state', n.T, T0)
    v.check('no estimate yet', not hasattr(u, 'BBN_estimates') and not hasattr(u, 'deuterium_generation_parameters'))


@contract('C20', S, ratio=['low', 'mid', 'high'])
def same_step(v, ratio):
    """both epochs may fall into one step, which then gives the estimate"""
    F = v.fresh()
    pr = params(v, F)
    pr.N_eff = v.real('neff')
    M, UN = F.mod('semianalytic'), F.mod('common').UNITS
    pr.T = T = v.real('Tm', pos=True, samples=(0.01, 0.065)) * UN.MeV
    v.assume(T <= M.T_BBN)
    rates = [v.real('r%d' % k, pos=True, samples=(0.01, 40)) for k in range(6)]
    fwd, bwd = rates[0] + rates[2] + rates[4], rates[1] + rates[3] + rates[5]
    v.assume(fwd < bwd / 10 if ratio == 'low' else fwd > 10 * bwd if ratio == 'high' else v.land(fwd >= bwd / 10, fwd <= 10 * bwd))
    tab = F.mod('common.utils').DynamicRecArray(F.mod(K).heading)
    tab.append(dict(zip(tab.columns, [v.real('c%d' % k) for k in range(6)] + rates)))
    u = Bag(kawano_data=tab, params=pr, kawano=F.mod(K))
    M.step_monitor(u)
    v.check('deuterium', hasattr(u, 'deuterium_generation_parameters'))
    v.eq('temperature of deuterium formation', u.deuterium_generation_parameters.T, T)
    v.check('neutrons', hasattr(u, 'neutron_decoupling_parameters') == (ratio != 'mid'))
    v.check('estimate', hasattr(u, 'BBN_estimates') == (ratio != 'mid'))
    if ratio == 'mid':
        return
    v.eq('temperature of neutron decoupling', u.neutron_decoupling_parameters.T, T)
    q, _ = kinematics_of(v, F)
    dt, np_, Y = u.BBN_estimates
    v.eq('no time to decay', dt, v.num(0))
    v.eq('neutron to proton ratio', np_, v.exp(-q / T))
    v.eq('helium fraction', Y * (1 + np_), 2 * np_)


@contract('C20', S, early=[True, False])
def deuterium(v, early):
    """deuterium forms at the first step at or below T_BBN; the estimate needs both epochs and is made once"""
    F = v.fresh()
    M = F.mod('semianalytic')
    UN = F.mod('common').UNITS
    v.eq('T_BBN', M.T_BBN, v.num('0.065') * UN.MeV)
    pr = params(v, F)
    pr.N_eff = v.real('neff')
    T = v.real('Tm', pos=True, samples=(0.01, 0.12)) * UN.MeV
    pr.T = T
    v.assume(T > M.T_BBN if early else T <= M.T_BBN)
    u = Bag(kawano_data=F.mod('common.utils').DynamicRecArray(F.mod(K).heading), params=pr, kawano=F.mod(K))
    if not v.bool('with_neutrons'):
        M.step_monitor(u)
        v.check('deuterium', hasattr(u, 'deuterium_generation_parameters') == (not early))
        v.check('no estimate without neutron decoupling', not hasattr(u, 'BBN_estimates') and not hasattr(u, 'neutron_decoupling_parameters'))
        return
    nT, nt = v.real('nT', pos=True, samples=(0.5, 3)), v.real('nt', pos=True, samples=(0.5, 3))
    nT = nT * UN.MeV
    nt = nt * UN.s
    pr.t = pr.t * UN.s
    u.neutron_decoupling_parameters = Bag(T=nT, t=nt, N_eff=v.real('nn'))
    M.step_monitor(u)
    v.check('deuterium', hasattr(u, 'deuterium_generation_parameters') == (not early))
    v.check('estimate', hasattr(u, 'BBN_estimates') == (not early))
    if early:
        return
    q, _ = kinematics_of(v, F)
    dt, np_, Y = u.BBN_estimates
    want = v.exp(-q / nT) * v.exp(-(pr.t - nt) / (v.num('885.7') * UN.s))
    v.eq('decay time', dt, pr.t - nt)
    v.eq('neutron to proton ratio', np_, want)
    v.eq('helium fraction', Y * (1 + want), 2 * want)
    # later steps do not change anything
    d0 = u.deuterium_generation_parameters
    pr.T = pr.T / 3
    pr.t = pr.t * 2
    M.step_monitor(u)
    v.eq('estimate made once', u.BBN_estimates[0], dt)
    v.check('deuterium epoch kept', u.deuterium_generation_parameters is d0)


@contract('C20', S)
def from_snapshots(v):
    """the ratio starts from the temperature and time of neutron decoupling, whatever happened since"""
    F = v.fresh()
    M = F.mod('semianalytic')
    UN = F.mod('common').UNITS
    pr = params(v, F)
    pr.N_eff = v.real('neff')
    u = Bag(kawano_data=F.mod('common.utils').DynamicRecArray(F.mod(K).heading), params=pr, kawano=F.mod(K))
    pr.T = v.real('T1', pos=True, samples=(0.07, 3)) * UN.MeV
    v.assume(pr.T > M.T_BBN)
    pr.t = v.real('t1', pos=True) * UN.s
    T1, t1 = pr.T, pr.t
    rows = [[v.num(1)] * 11 + [v.num(100)]]
    u.kawano_data.append(dict(zip(u.kawano_data.columns, rows[0])))
    M.step_monitor(u)
    pr.T = v.num('0.05') * UN.MeV
    pr.t = v.real('t2', pos=True) * UN.s
    M.step_monitor(u)
    q, _ = kinematics_of(v, F)
    want = v.exp(-q / T1) * v.exp(-(pr.t - t1) / (v.num('885.7') * UN.s))
    v.eq('ratio', u.BBN_estimates[1], want)
