"""C16 -- collision rates: kinematic limits, the momenta that are evaluated, units and prefactors handed to the kernels."""
from vc.registry import contract
from vc.env import Bag
from vc.shims import FloatShim
from contracts.parts import params, particle, occupied, grid, KER4, KER3

KIN = 'common.kinematics'
F4 = 'interactions.four_particle.FourParticleIntegral'
F3 = 'interactions.three_particle.ThreeParticleIntegral'


@contract('C16', KIN + '.cm_momentum')
def two_body(v):
    """momentum of the products of a two-body decay at rest: energy is conserved"""
    F = v.fresh()
    m2, m3 = v.real('m2', nonneg=True, samples=(0, 3)), v.real('m3', nonneg=True, samples=(0, 3))
    m1 = v.real('m1', pos=True, samples=(0.5, 9))
    v.assume(m1 > m2 + m3)
    p = F.mod(KIN).cm_momentum(m1, m2, m3)
    v.le('real momentum', v.num(0), p)
    v.eq('Kallen function', 4 * m1 * m1 * p * p, (m1 * m1 - m2 * m2 - m3 * m3) ** 2 - 4 * m2 * m2 * m3 * m3, tol=1e-6, scale=None if v.sym else m1 ** 4)
    if not v.sym:
        v.eq('energy', v.sqrt(p * p + m2 * m2) + v.sqrt(p * p + m3 * m3), m1, tol=1e-6)
    else:
        E2 = (m1 * m1 + m2 * m2 - m3 * m3) / (2 * m1)
        E3 = (m1 * m1 + m3 * m3 - m2 * m2) / (2 * m1)
        v.eq('energy 2', p * p + m2 * m2, E2 * E2)
        v.eq('energy 3', p * p + m3 * m3, E3 * E3)
        v.le('positive energies', v.num(0), E2)
        v.eq('energy conservation', E2 + E3, m1)


SIDES = {'decay4': (-1, 1, 1, 1), 'scattering': (-1, -1, 1, 1), 'creation4': (-1, -1, -1, 1), 'decay3': (-1, 1, 1), 'creation3': (-1, -1, 1)}


def reaction(v, F, pr, kind, masses=None, fermion=True, eq=False, dens=True, diluted=False, **kw):
    """a real reaction between distinct species in arbitrary states; the first one is out of equilibrium"""
    Item = F.mod('interactions').IntegralItem
    items = []
    for k, s in enumerate(SIDES[kind]):
        n = 'ABCD'[k]
        opt = dict(kw.get(n, {}))
        p = particle(v, F, pr, name=n, mass=(masses or {}).get(n, 'pos'), fermion=opt.pop('fermion', fermion),
                     decoupling_temperature=v.real(n + '.Td', pos=True, samples=(0.3, 3)), **opt)
        occupied(v, p, n)
        if k == 0 and not eq:
            v.assume(p.T <= p.decoupling_temperature)
        if dens:
            d0 = v.real(n + '.d0', pos=True, samples=(0.5, 2))
            p.density = v.real(n + '.d', pos=True, samples=(lambda r: r.choice((1, 1e-25)) * r.uniform(0.5, 2)) if diluted else (0.5, 2))
            p.data['params'].append({'a': v.num(1), 't': v.num(1), 'T': v.num(1), 'density': d0, 'energy_density': v.num(1)})
            if diluted:
                p.data['params'].append({'a': v.num(1), 't': v.num(1), 'T': v.num(1), 'energy_density': v.num(1),
                                         'density': v.real(n + '.d1', pos=True, samples=lambda r: r.choice((1e-15, 1e5)))})
        items.append(Item(side=s, specie=p, antiparticle=False, index=k, crossed=False))
    return tuple(items)


@contract('C16', KIN + '.three_particle_bounds_creation', mass=['zero', 'pos'])
def creation_range_3(v, mass):
    """A + B <- C: between the smallest and the largest momentum A can have when C moves with the largest momentum of its grid"""
    F = v.fresh()
    pr = params(v, F)
    r = reaction(v, F, pr, 'creation3', masses={'A': mass if mass == 'zero' else v.real('A.mass', pos=True, samples=(0.01, 1.5)), 'B': v.real('B.mass', nonneg=True, samples=(0, 1.5)),
                                                'C': v.real('C.mass', pos=True, samples=(1, 5))})
    A, B, C = [i.specie for i in r]
    v.assume(C.mass > A.mass + B.mass)
    lo, hi = F.mod(KIN).three_particle_bounds_creation(r)
    mA, mB, mC = A.mass * pr.a, B.mass * pr.a, C.mass * pr.a
    P = C.grid.MAX_MOMENTUM
    EC = v.sqrt(P * P + mC * mC)
    k = v.sqrt((mC * mC - mA * mA - mB * mB) ** 2 - 4 * mA * mA * mB * mB) / (2 * mC)
    E = v.sqrt(k * k + mA * mA)
    Emax = (EC * E + P * k) / mC
    sc = None if v.sym else float(Emax) ** 2
    v.eq('upper bound', hi * hi + mA * mA, Emax * Emax, tol=1e-6, scale=sc)
    if mass == 'zero':
        Emin = (EC * E - P * k) / mC
        v.eq('lower bound', lo * lo, Emin * Emin, tol=1e-5, scale=sc)
    else:
        v.eq('at rest possible', lo * lo, v.num(0), tol=1e-5, scale=sc)


@contract('C16', KIN + '.four_particle_bounds_creation')
def creation_range_4(v):
    """A + B + C <- D: all the energy of the fastest D with B and C at rest, at least the default range"""
    F = v.fresh()
    pr = params(v, F)
    r = reaction(v, F, pr, 'creation4', masses=dict([(n, v.real(n + '.mass', nonneg=True, samples=(0, 1.3))) for n in 'ABC'] + [('D', v.real('D.mass', pos=True, samples=(2, 5)))]))
    A, B, C, D = [i.specie for i in r]
    v.assume(D.mass > A.mass + B.mass + C.mass)
    P = D.grid.MAX_MOMENTUM
    E = v.sqrt(P * P + (D.mass * pr.a) ** 2) - (B.mass + C.mass) * pr.a
    want = v.max(v.sqrt(v.max(E * E - (A.mass * pr.a) ** 2, v.num(0)) if not v.sym else E * E - (A.mass * pr.a) ** 2), 100 * F.mod('common').UNITS.MeV)
    v.eq('upper bound', F.mod(KIN).four_particle_bounds_creation(r), want)


@contract('C16', KIN + '.three_particle_grid_bounds_creation', trials=40)
def creation_slices_3(v):
    """the grid is split into three consecutive parts; the middle one covers the allowed range"""
    F = v.fresh()
    pr = params(v, F)
    g = grid(v, lo=3)
    lo, hi = v.real('lo', nonneg=True, samples=(0, 4)), v.real('hi', pos=True, samples=(0, 7))
    v.assume(lo < hi)
    K = F.mod(KIN)
    K.three_particle_bounds_creation = lambda reaction=None: (lo, hi)
    s1, s2, s3 = K.three_particle_grid_bounds_creation([Bag(specie=Bag(grid=g))])
    n = g.MOMENTUM_SAMPLES
    n1, n2, n3 = v.len(s1), v.len(s2), v.len(s3)
    y = g.TEMPLATE
    if bool(v.at(y, n - 1) <= lo):
        v.check('nothing to evaluate beyond the grid', n2 == 0)
        return
    v.eq('covers the grid', n1 + n2 + n3, n)
    i = v.int('i', lo=0, hi=n - 1)
    v.assume(n2 > 0)
    inside = v.land(i >= n1, i < n1 + n2)
    for nm, part, off in (('below', s1, 0), ('above', s3, n1 + n2)):
        k = v.int('k.' + nm, lo=0, hi=100)
        if bool(k < v.len(part)):
            v.eq(nm, v.at(part, k) + v.num(0), v.num(0))
    v.check('allowed momenta are evaluated', v.lor(inside, v.at(y, i) < lo, v.at(y, i) > hi))
    j = v.int('j', lo=0, hi=n - 1)
    if bool(v.land(j >= n1, j < n1 + n2)):
        v.eq('momenta', v.at(s2, j - n1), v.at(y, j))


def kernel(v, log, listlike):
    fs = {}

    def integration(ps, *a):
        log.append((ps,) + a)
        kd = int(a[-1])
        f = fs.setdefault(kd, v.func('kernel%d' % kd, 1))
        if v.sym:
            from vc import shims
            r = f(ps)
            return shims._as_slist(r) if listlike else r
        return [float(f(p)) for p in ps]
    integration.f = fs
    return integration


def check_reaction(v, F, pr, r, creaction):
    v.eq('participants', len(creaction), len(r))
    for it, c in zip(r, creaction):
        s = c.specie
        p = it.specie
        v.eq('mass over temperature', s.m * pr.aT, p.mass * pr.a)
        v.eq('temperature', s.T * pr.aT, p.aT)
        v.eq('statistics', s.eta, p.eta)
        v.check('equilibrium', bool(s.in_equilibrium) == bool(p.in_equilibrium))
        v.eq('grid', s.grid.grid * pr.aT, p.grid.TEMPLATE)
        v.eq('spectrum', s.grid.distribution, p._distribution)
        v.check('side', c.side == it.side)


def not_neglected(v, pr, r):
    thr = v.num('1e-10') * (pr.a_ini / 10) ** 3
    for it in r:
        v.assume(it.specie.density > thr * it.specie.data['params']['density'][0])


def four(v, F, kind, term, log_step=True, majorana=False, mass='pos', const=False, sterile=False):
    pr = params(v, F)
    small = lambda n, hi=1.2: v.real(n + '.mass', pos=True, samples=(0.1, hi))
    masses = {'A': mass} if kind != 'creation4' else {'A': small('A'), 'B': small('B'), 'C': small('C'), 'D': v.real('D.mass', pos=True, samples=(3.7, 6))}
    r = reaction(v, F, pr, kind, masses=masses, A=dict(majorana=majorana, **(dict(full_name=STERILE) if sterile else {})))
    if kind == 'creation4':
        v.assume(r[3].specie.mass > r[0].specie.mass + r[1].specie.mass + r[2].specie.mass)
    A = r[0].specie
    UN, CO = F.mod('common').UNITS, F.mod('common').CONST
    not_neglected(v, pr, r)
    res = v.num('0.24999') * UN.MeV
    n = A.grid.MOMENTUM_SAMPLES
    v.assume(A.grid.MAX_MOMENTUM >= res * (n - 1))
    Kd = F.mod(KER4).CollisionIntegralKind
    K1, K2, K = v.real('K1') * CO.G_F ** 2, v.real('K2') * CO.G_F ** 2, v.real('K') * CO.G_F ** 2
    M = F.mod('interactions.four_particle').FourParticleM
    if const:
        M1 = M(K=K)
    else:
        M1 = M(K1=K1, K2=K2, order=(0, 2, 1, 3))
    I = F.mod('interactions.four_particle').FourParticleIntegral(particle=A, reaction=r, Ms=[M1], kind=getattr(Kd, term), washout_temperature=0)
    calls = []
    kern = kernel(v, calls, False)
    F.mod(KER4).handlers['integration'] = kern
    fd = v.func('interp', 1, pos=True)
    F.mod(KER4).handlers['distribution_interpolation'] = lambda g, d, q, *a: fd(q)
    I.initialize()
    return pr, r, A, n, M1, I, calls, kern, fd, Kd, (K1, K2, K)


CASES4 = [dict(kind=k, term=t) for k in ('scattering', 'creation4', 'decay4') for t in ('Full', 'F_1', 'F_f', 'F_creation', 'F_decay')]
CASES4 += [dict(kind='scattering', term='F_1', log_step=False), dict(kind='scattering', term='F_1', majorana=True), dict(kind='decay4', term='Full', majorana=True, log_step=False),
           dict(kind='scattering', term='F_1', mass='zero'), dict(kind='scattering', term='F_1', const=True), dict(kind='creation4', term='Full_vacuum_decay')]
CASES4 += [dict(kind='scattering', term='Full', given=False), dict(kind='decay4', term='F_1', log_step=False, given=False)]
CASES4 += [dict(kind=k, term='F_1', sterile=True) for k in ('scattering', 'decay4')]
CASES4 += [dict(kind=k, term='F_1', hnl='0.02') for k in ('scattering', 'decay4')] + [dict(kind=k, term='F_1', hnl='0.3', mass='zero') for k in ('scattering', 'decay4')]
STERILE = 'Sterile neutrino (Dirac)'


@contract('C16', [F4 + '.integrate', F4 + '.initialize', KIN + '.grid_cutoff_4p', KIN + '.interpolation_4p', KIN + '.four_particle_grid_cutoff_creation',
                  KIN + '.four_particle_grid_cutoff_scattering', KIN + '.four_particle_grid_cutoff_decay'], cases=CASES4, trials=25, timeout=120)
def rate_4(v, kind, term, log_step=True, majorana=False, mass='pos', const=False, sterile=False, hnl=None, given=True):
    """collision rate of a four-particle reaction = prefactor x kernel on the momenta in range, zero above; the kernel works in units of
    the plasma temperature"""
    with v.env(LOGARITHMIC_TIMESTEP=None if log_step else 'false', HNL_ENERGY=hnl):
        F = v.fresh()
        pr, r, A, n, M1, I, calls, kern, fd, Kd, (K1, K2, K) = four(v, F, kind, term, log_step, majorana, v.real('A.mass', pos=True, samples=(1e-4, 0.02)) if hnl and mass == 'pos' else mass, const, sterile)
        if sterile:
            stored = []
            F.mod(KIN).store_energy = stored.append
            # otherwise neglected
            v.assume(pr.T >= F.mod('common').UNITS.MeV if kind == 'scattering' else pr.T <= A.mass)
        if hnl:
            E = v.num(hnl) * F.mod('common').UNITS.GeV
            v.assume(E > A.conformal_mass)
        top = None
        if kind == 'creation4' and v.sym:
            # the callee by its contract (creation_range_4): an arbitrary bound
            top = v.real('top', pos=True)
            F.mod(KIN).four_particle_bounds_creation = lambda reaction=None: top
        out = I.integrate(A.grid.TEMPLATE, **(dict(stepsize=pr.h) if given else {}))
    UN, CO = F.mod('common').UNITS, F.mod('common').CONST
    y = A.grid.TEMPLATE
    T5 = (pr.aT / pr.a) ** 5
    pref = 32 * CO.G_F ** 2 * T5 / (64 * v.pi ** 3 * pr.H) / (A.dof if majorana else A.dof / 2)
    if not log_step:
        pref = pref / pr.x
    if sterile:
        top = A.grid.MAX_MOMENTUM
    elif hnl:
        # the products of a heavy neutral lepton of energy E
        top = v.max(v.sqrt(E * E - A.conformal_mass * A.conformal_mass), 100 * UN.MeV)
    elif kind == 'scattering':
        top = 100 * UN.MeV
    elif kind == 'decay4':
        top = A.grid.MAX_MOMENTUM
    elif not v.sym:
        top = F.mod(KIN).four_particle_bounds_creation(r)
    full = term in ('Full', 'Full_vacuum_decay')
    i = v.int('i', lo=0, hi=n - 1)
    used = v.lor(i == 0, v.at(y, v.max(i - 1, 0) if not v.sym else i - 1) < top)
    if kind == 'decay4' and not hnl or sterile:
        used = v.num(0) < v.num(1)      # the whole grid
    yi = v.at(y, i)
    val = lambda nm: v.ite(used, kern.f[int(getattr(Kd, nm))](yi / pr.aT) * pref, v.num(0))
    sc = None if v.sym else abs(pref)
    if full:
        C, B = out
        v.eq('length', v.len(C), n)
        v.eq('linear part', v.at(B, i), val('F_f'), scale=sc)
        v.eq('rate', v.at(C, i), val('F_1') + fd(yi) * val('F_f'), scale=sc)
        v.check('terms', [int(c[-1]) for c in calls] == [int(Kd.F_1), int(Kd.F_f)])
    else:
        v.eq('length', v.len(out), n)
        want = val(term)
        if term in ('F_f', 'F_decay'):
            want = want * v.at(A._distribution, i)
        v.eq('rate', v.at(out, i), want, scale=sc)
    for c in calls:
        ps, b = c[0], c[1:6]
        g1, g2 = r[1].specie.grid, r[2].specie.grid
        for nm, got, want in zip(('min 1', 'max 1', 'min 2', 'max 2', 'max 3'), b,
                                 (g1.MIN_MOMENTUM, g1.MAX_MOMENTUM, g2.MIN_MOMENTUM, g2.MAX_MOMENTUM, r[3].specie.grid.MAX_MOMENTUM)):
            v.eq('bound ' + nm, got * pr.aT, want)
        check_reaction(v, F, pr, r, c[6])
        m, = c[7]
        unit = 32 * CO.G_F ** 2
        o, k1, k2, k = m.args
        v.check('order', tuple(o) == tuple(M1.order))
        v.eq('K1', k1 * unit, v.num(0) if const else K1)
        v.eq('K2', k2 * unit, v.num(0) if const else K2)
        v.eq('K', k * unit, K if const else v.num(0))
        st = pr.h * pref if log_step else pr.h / pr.aT * pref
        v.eq('step', c[8], st)


def three(v, F, kind, term, log_step, majorana, mass):
    pr = params(v, F)
    heavy, light = ('A', 'C') if kind == 'decay3' else ('C', 'A')
    masses = {heavy: v.real(heavy + '.mass', pos=True, samples=(3, 6)), 'B': v.real('B.mass', pos=True, samples=(0.1, 1.4)), light: v.real(light + '.mass', pos=True, samples=(0.1, 1.4))}
    if mass == 'zero':
        masses['A'] = 'zero'
    r = reaction(v, F, pr, kind, masses=masses, A=dict(majorana=majorana))
    A = r[0].specie
    if not v.sym or kind == 'creation3':
        v.assume(A.mass > r[1].specie.mass + r[2].specie.mass if kind == 'decay3' else r[2].specie.mass > A.mass + r[1].specie.mass)
    Kd = F.mod(KER4).CollisionIntegralKind
    K, K_ = v.real('K', pos=True), v.real("K'", pos=True)
    T = F.mod('interactions.three_particle')
    I = T.ThreeParticleIntegral(particle=A, reaction=r, Ms=[T.ThreeParticleM(K=K), T.ThreeParticleM(K=K_)], kind=getattr(Kd, term), washout_temperature=0)
    calls = []
    kern = kernel(v, calls, True)
    F.mod(KER3).handlers['integration_3'] = kern
    I.initialize()
    return pr, r, A, A.grid.MOMENTUM_SAMPLES, I, calls, kern, Kd, K + K_


CASES3 = [dict(kind=k, term=t) for k in ('decay3', 'creation3') for t in ('Full', 'F_1', 'F_f', 'F_creation', 'F_decay')]
CASES3 += [dict(kind='decay3', term='F_1', log_step=False), dict(kind='decay3', term='Full', given=False), dict(kind='creation3', term='F_1', log_step=False, given=False), dict(kind='decay3', term='Full', majorana=True), dict(kind='creation3', term='F_creation', mass='zero')]


@contract('C16', [F3 + '.integrate', F3 + '.initialize', KIN + '.grid_cutoff_3p', KIN + '.three_particle_grid_bounds_creation'], cases=CASES3, trials=25, timeout=120)
def rate_3(v, kind, term, log_step=True, majorana=False, mass='pos', given=True):
    """collision rate of a decay or inverse decay = prefactor x kernel on the momenta the products can have, zero elsewhere"""
    with v.env(LOGARITHMIC_TIMESTEP=None if log_step else 'false'):
        F = v.fresh()
        pr, r, A, n, I, calls, kern, Kd, K = three(v, F, kind, term, log_step, majorana, mass)
        y = A.grid.TEMPLATE
        KM = F.mod(KIN)
        if kind == 'creation3':
            lo, hi = v.real('lo', nonneg=True, samples=(0, 3)), v.real('hi', pos=True, samples=(2, 7))
            v.assume(lo < hi)
            v.assume(lo < v.at(y, n - 1))
            KM.three_particle_bounds_creation = lambda reaction=None: (lo, hi)
        out = I.integrate(y, **(dict(stepsize=pr.h) if given else {}))
    dof = A.dof if majorana else A.dof / 2
    rest = v.num(0) if mass == 'zero' else K * pr.aT / pr.a / (8 * v.pi * pr.H) / A.mass ** 2 / dof
    move = K * pr.a / pr.aT / (32 * v.pi * pr.H) / dof
    if not log_step:
        rest, move = rest / pr.x, move / pr.x
    i = v.int('i', lo=0, hi=n - 1)
    yi = v.at(y, i)
    if kind == 'creation3':
        v.assume(v.land(yi >= lo, yi <= hi))
    pref = v.ite(i == 0, rest, move)
    val = lambda nm: kern.f[int(getattr(Kd, nm))](yi / pr.aT) * pref
    sc = None if v.sym else abs(pref)
    if not calls:
        v.check('evaluated', False)
        return
    if term == 'Full':
        C, B = out
        v.eq('length', v.len(C), n)
        v.eq('linear part', v.at(B, i), val('F_f'), scale=sc)
        v.eq('rate', v.at(C, i), val('Full'), scale=sc)
    else:
        v.eq('length', v.len(out), n)
        want = val(term)
        if term in ('F_f', 'F_decay'):
            want = want * v.at(A._distribution, i)
        v.eq('rate', v.at(out, i), want, scale=sc)
    for c in calls:
        g1 = r[1].specie.grid
        for nm, got, want in zip(('min', 'max', 'max 2'), c[1:4], (g1.BOUNDS[0], g1.BOUNDS[1], r[2].specie.grid.MAX_MOMENTUM)):
            v.eq('bound ' + nm, got * pr.aT, want)
        check_reaction(v, F, pr, r, c[4])
        v.eq('step', c[5], (pr.h if log_step else pr.h / pr.aT) * K * pr.a / pr.aT / (32 * v.pi * pr.H))


@contract('C16', KIN + '.store_energy', sterile=[True, False])
def announced_energy(v, sterile):
    """the energy of the heavy neutral lepton is announced for the cut of the spectra of its products"""
    with v.env(HNL_ENERGY=None):
        F = v.fresh()
        pr = params(v, F)
        p = particle(v, F, pr, full_name=STERILE if sterile else 'Something else')
        F.mod(KIN).store_energy(Bag(particle=p))
        got = F.mod('environment').get('HNL_ENERGY')
    v.check('announced', bool(got) == sterile)
    if sterile:
        E, P = FloatShim(got) if v.sym else float(got), p.grid.MAX_MOMENTUM / 10
        v.eq('energy', E * E, P * P + p.conformal_mass * p.conformal_mass)


@contract('C16', KIN + '.interpolation_4p', mode='bounded', trials=40)
def coarse_grid(v):
    """four-particle rates on grids finer than the configured resolution: evaluated on a subset including both ends, linear in between"""
    F = v.fresh()
    pr = params(v, F)
    UN = F.mod('common').UNITS
    n = v.int('n', lo=20, hi=60)
    step = v.real('step', pos=True, samples=(0.05, 0.2))
    v.assume(v.land(step > 0.02, step < 0.2))
    top = step * n * UN.MeV
    import numpy as np
    g = F.mod('common').LinearSpacedGrid(MOMENTUM_SAMPLES=n, MAX_MOMENTUM=top)
    ps = g.TEMPLATE / pr.aT
    r = reaction(v, F, pr, 'scattering', masses={'A': 'zero'}, A=dict(g=g))
    not_neglected(v, pr, r)
    A = r[0].specie
    q, interp = F.mod(KIN).interpolation_4p(Bag(particle=A, reaction=r), ps, g.TEMPLATE)
    v.check('coarser', bool(interp) and len(q) < n)
    v.check('subset', all(x in ps for x in q))
    v.eq('first', q[0], ps[0])
    v.eq('last', q[-1], ps[-1])
    M = F.mod('interactions.four_particle')
    for term in ('F_1', 'Full'):
        I = M.FourParticleIntegral(particle=A, reaction=r, Ms=[M.FourParticleM(K1=1e-10)], kind=getattr(F.mod(KER4).CollisionIntegralKind, term), washout_temperature=0)
        F.mod(KER4).handlers['integration'] = lambda p, *a: [3. + 2. * x for x in p]
        F.mod(KER4).handlers['distribution_interpolation'] = lambda g_, d, p, *a: np.asarray(p) * 0 + 0.25
        I.initialize()
        out = I.integrate(g.TEMPLATE, stepsize=pr.h)
        if term == 'Full':
            v.eq('B', out[1] / out[1][0], (3 + 2 * ps) / 3, tol=1e-6)
            v.eq('C', out[0], 1.25 * out[1], tol=1e-6)
        else:
            v.eq('linear rates are reproduced', out / out[0], (3 + 2 * ps) / 3, tol=1e-6)
