"""C18 -- unstable species: decay bookkeeping, number conservation, neglected reactions, identical particles."""
from vc.registry import contract
from vc.env import Bag
from contracts.parts import params, particle, occupied, grid, KER4, KER3
from contracts.collisions import reaction, kernel, not_neglected, SIDES, KIN, F3, F4

D = 'particles.DistributionParticle'

STERILE = 'Sterile neutrino (Dirac)'


@contract('C18', KIN + '.has_decayed', fast=[False, True], mass=['zero', 'pos'], records=[1, 2, 5])
def depleted(v, fast, mass, records):
    """a massive species is dropped once its number density has fallen below a fixed fraction of the initial one"""
    F = v.fresh()
    pr = params(v, F)
    p = particle(v, F, pr, mass=mass, **(dict(fast_decay=True) if fast else {}))
    f = occupied(v, p)
    d0 = v.real('d0', nonneg=True)
    p.data['params'].append({'a': v.num(1), 't': v.num(1), 'T': v.num(1), 'density': d0, 'energy_density': v.num(1)})
    for k in range(records):
        p.data['distribution'].append(f)
        if k:      # later records do not matter, whatever they are
            p.data['params'].append({'a': v.num(1), 't': v.num(1), 'T': v.num(1), 'density': v.real('d0.%d' % k, nonneg=True) * v.num(1000), 'energy_density': v.num(1)})
    d = p.density = v.real('d', nonneg=True) * v.num('1e-12')
    got = F.mod(KIN).has_decayed(p, p.grid.TEMPLATE)
    gone = not fast and mass == 'pos' and records > 1 and bool(d0 != 0) and bool(d < v.num('1e-10') * (pr.a_ini / 10) ** 3 * d0)
    v.check('dropped exactly when depleted', bool(got) == gone)
    v.check('marked', bool(p.decayed) == gone)
    v.eq('spectrum', p._distribution, f * 0 if gone else f)


@contract('C18', KIN + '.has_decayed', dirac=[True, False], trials=5)
def depleted_sterile(v, dirac):
    """the disappearance of the heavy neutral lepton is announced to the rest of the run"""
    import os
    with v.env(STERILE_DECAYED=None):
        F = v.fresh()
        pr = params(v, F)
        p = particle(v, F, pr, full_name=STERILE if dirac else 'Something else')
        f = occupied(v, p)
        p.data['params'].append({'a': v.num(1), 't': v.num(1), 'T': v.num(1), 'density': v.num(1), 'energy_density': v.num(1)})
        p.data['distribution'].append(f)
        p.data['distribution'].append(f)
        p.density = v.num(0)
        F.mod(KIN).has_decayed(p, p.grid.TEMPLATE)
        v.check('announced', bool(F.mod('environment').get('STERILE_DECAYED')) == dirac)


def flags(v, items, fast, decayed):
    for n, it in zip('ABCD', items):
        if n in fast:
            it.specie.fast_decay = True
            it.specie.num_creation = v.real(n + '.created', nonneg=True)
        if n in decayed:
            it.specie.decayed = True


CASES = [dict(kind=k, term=t, fast=f, decayed=d) for k in ('decay3', 'creation3') for t in ('Full', 'F_1', 'F_creation') for f in ('', 'A', 'C', 'AC') for d in ('', 'C', 'A')]


@contract('C18', KIN + '.Neglect3pInteraction', cases=CASES, mass=[0], trials=12)
def neglected_3(v, kind, term, fast, decayed, mass=None):
    """products are not created once the parent is gone, nothing decays before it has been created, and massless particles do not decay"""
    F = v.fresh()
    pr = params(v, F)
    massless = v.bool('massless')
    r = reaction(v, F, pr, kind, masses={'A': v.num(0) if massless else 'pos'}, dens=False)
    flags(v, r, fast, decayed)
    Kd = F.mod(KER4).CollisionIntegralKind
    I = Bag(reaction=r, particle=r[0].specie, kind=getattr(Kd, term))
    got = bool(F.mod(KIN).Neglect3pInteraction(I, r[0].specie.grid.TEMPLATE))
    pair = term == 'Full' or 'A' in fast
    none = lambda n: n in fast and bool(r['ABC'.index(n)].specie.num_creation == 0)
    want = (massless and kind == 'decay3') or (pair and kind == 'creation3' and ('C' in decayed or none('C'))) or (pair and kind == 'decay3' and none('A'))
    v.check('neglected', got == want)


CASES = [dict(kind=k, fast=f, decayed=d, sterile=s) for k in ('decay4', 'creation4', 'scattering') for f in ('', 'A', 'D') for d in ('', 'D', 'A') for s in ('', 'A', 'C')
         if not (f and d and s)]


@contract('C18', KIN + '.Neglect4pInteraction', cases=CASES, trials=12)
def neglected_4(v, kind, fast, decayed, sterile):
    """additionally: scatterings between species diluted below a fixed fraction, of heavy neutral leptons below 1 MeV, and decays of
    heavy neutral leptons hotter than their mass"""
    with v.env(Relativistic_decoupling=None):
        F = v.fresh()
        pr = params(v, F, T=v.real('TM', pos=True, samples=(0.2, 5)) * F.mod('common').UNITS.MeV)
        r = reaction(v, F, pr, kind, diluted=True, **({sterile: dict(full_name=STERILE)} if sterile else {}))
        flags(v, r, fast, decayed)
        I = Bag(reaction=r, particle=r[0].specie, kind=F.mod(KER4).CollisionIntegralKind.Full)
        got = bool(F.mod(KIN).Neglect4pInteraction(I, r[0].specie.grid.TEMPLATE))
    thr = v.num('1e-10') * (pr.a_ini / 10) ** 3
    low = lambda k: bool(r[k].specie.density < thr * r[k].specie.data['params']['density'][0])
    none = lambda n: n in fast and bool(r['ABCD'.index(n)].specie.num_creation == 0)
    A = r[0].specie
    want = False
    if kind == 'creation4':
        want = 'D' in decayed or none('D')
    elif kind == 'decay4':
        want = none('A') or (sterile == 'A' and bool(pr.T > A.mass))
    else:
        want = ((low(0) or low(1)) and (low(2) or low(3))) or (sterile != '' and bool(pr.T < F.mod('common').UNITS.MeV))
    v.check('neglected', got == want)


@contract('C18', KIN + '.Neglect4pInteraction', trials=20)
def neglected_relativistic(v):
    """a heavy neutral lepton that decoupled while relativistic stops scattering a factor of fifteen below its decoupling"""
    with v.env(Relativistic_decoupling='True'):
        F = v.fresh()
        UN = F.mod('common').UNITS
        pr = params(v, F, T=v.real('TM', pos=True, samples=(0.2, 5)) * UN.MeV, m=v.num(1) * UN.MeV)
        r = reaction(v, F, pr, 'scattering', B=dict(full_name=STERILE))
        not_neglected(v, pr, r)
        got = bool(F.mod(KIN).Neglect4pInteraction(Bag(reaction=r, particle=r[0].specie, kind=F.mod(KER4).CollisionIntegralKind.Full), None))
    v.check('neglected', got == bool(v.lor(pr.T * 15 * pr.a_ini < pr.m, pr.T < UN.MeV)))


def identical(v, F, spec, names):
    st, P = F.mod('common.statistics'), F.mod('particles')
    Item = F.mod('interactions').IntegralItem
    sp = {}
    for n in names:
        full = STERILE if n == 'N' else n
        sp.setdefault(n, P.Particle(name=full, symbol=n, mass=1, dof=2, statistics=st.FERMION, majorana=n in 'MN', Q=1 if n == 'Q' else 0))
    l, r = spec
    its = [Item(side=-1, specie=sp[x], antiparticle=False, index=0, crossed=False) for x in l] + [Item(side=1, specie=sp[x], antiparticle=False, index=0, crossed=False) for x in r]
    return Bag(reaction=tuple(its), particle=its[0].specie)


FOUR = [(('AAB', 'D'), 2), (('AAA', 'D'), 3), (('ABC', 'D'), 1), (('ABB', 'D'), 1), (('AA', 'BB'), 1), (('AA', 'AA'), 1), (('AA', 'NB'), 2), (('AA', 'AN'), 2),
        (('AB', 'AN'), 1), (('NA', 'AA'), 1), (('N', 'AAB'), 1), (('AAB', 'N'), 2), (('NN', 'AA'), 2), (('NN', 'NA'), 2), (('QQB', 'M'), 1), (('QQB', 'D'), 2),
        (('AAB', 'M'), 2), (('QQB', 'N'), 2), (('D', 'AAB'), 1)]


@contract('C18', KIN + '.CollisionMultiplier4p', trials=1)
def multiplicity_4(v):
    """a creation process that yields k copies of the species changes its occupation k times"""
    F = v.fresh()
    for s, k in FOUR:
        v.eq('%s -> %s' % s, F.mod(KIN).CollisionMultiplier4p(identical(v, F, s, s[0] + s[1])), v.num(k))


@contract('C18', KIN + '.CollisionMultiplier3p', trials=1)
def multiplicity_3(v):
    F = v.fresh()
    for s, k in [(('AA', 'D'), 2), (('AB', 'D'), 1), (('BA', 'D'), 1), (('D', 'AA'), 1), (('QQ', 'M'), 1), (('QQ', 'D'), 2), (('AA', 'M'), 2), (('QQ', 'N'), 2), (('N', 'AA'), 1), (('N', 'AB'), 1)]:
        v.eq('%s -> %s' % s, F.mod(KIN).CollisionMultiplier3p(identical(v, F, s, s[0] + s[1])), v.num(k))


BR = {'AB': '0.7', 'AA': '0.3'}


@contract('C18', KIN + '.scaling', kind=['creation3', 'creation4', 'decay3', 'scattering'], majorana=[True, False], fast=[True, False], copies=[1, 2], trials=25)
def injected_number(v, kind, majorana, fast, copies):
    """products of a fast-decaying parent: their number matches the number of parents created in the step times the branching ratio
    and the number of copies of the product"""
    F = v.fresh()
    pr = params(v, F)
    r = reaction(v, F, pr, kind, dens=False, A=dict(majorana=majorana))
    A, X = r[0].specie, r[-1].specie
    if copies == 2:
        r = (r[0], r[1]._replace(specie=A)) + tuple(r[2:])
    key = ''.join(i.specie.symbol for i in r[:-1])
    br = v.real('br', pos=True, samples=(0, 1))
    if fast:
        X.fast_decay = True
        X.BR = {key + key[0]: v.num(2), key[1:] + 'Z': v.num(3), key[::-1]: br, 'ZZ': v.num(1), key[:-1]: v.num(4), key[-1] + key: v.num(5)}   # decoys before and after
        X.num_creation = v.real('created', nonneg=True)
    n = A.grid.MOMENTUM_SAMPLES
    f = v.array('rate', n) if v.sym else v.array('rate', n, gen=lambda rr, k: [rr.uniform(0, 1) for _ in range(k)])
    c = v.real('constant', pos=True)
    f0 = f.copy()
    out = F.mod(KIN).scaling(Bag(reaction=r, particle=A), f.copy(), c)
    y = A.grid.TEMPLATE
    dof = A.dof if majorana else A.dof / 2
    N0 = v.simps(f0 * c * dof * y ** 2, y)
    if not (fast and kind.startswith('creation')):
        v.eq('unchanged', out, f0)
    elif bool(N0 == 0):
        v.check('nothing created', out is False)
    else:
        i = v.int('i', lo=0, hi=n - 1)
        v.eq('same spectrum, rescaled', v.at(out, i) * N0, v.at(f0, i) * br * X.num_creation * copies)
        v.eq('number', v.simps(out * c * dof * y ** 2, y), br * X.num_creation * copies)


@contract('C18', KIN + '.Icoll_fast_decay', thermal=[True, False], majorana=[True, False], trials=25)
def fast_decay(v, thermal, majorana):
    """as many decay as are created: the net change of the number of a fast-decaying species over the step vanishes when its branching
    ratios add up to one"""
    F = v.fresh()
    pr = params(v, F)
    p = particle(v, F, pr, name='X', fast_decay=True, majorana=majorana, thermal_dyn=thermal, lifetime=v.real('tau', pos=True), decoupling_temperature=v.real('Td', pos=True, samples=(0.5, 2)))
    b1 = v.real('br', pos=True, samples=(0.1, 0.9))
    v.assume(b1 < 1)
    p.BR = {'aab': v.num(2), 'ab': b1, 'aa': 1 - b1, 'bb': v.num(3), 'aaa': v.num(4), 'abb': v.num(5)}   # decoys around the two channels
    n = p.grid.MOMENTUM_SAMPLES
    y = p.grid.TEMPLATE
    p.t_decoupling = v.real('t_dec', nonneg=True)
    if not v.sym:
        v.assume(p.mass < 20 * p.decoupling_temperature)
    arr = lambda nm, pos=True: v.array(nm, n, nonneg=pos) if v.sym else v.array(nm, n, gen=lambda rr, k: [rr.uniform(0.1, 1) * (1 if pos else -1) for _ in range(k)])
    a, b = Bag(symbol='a', mass=v.num(0)), Bag(symbol='b', mass=v.num(0))
    X = lambda s: Bag(side=s, specie=p)
    mk = lambda l, r: [Bag(side=-1, specie=x) for x in l] + [Bag(side=1, specie=x) for x in r]
    Z = v.array('zero', n, nonneg=True) * 0 if v.sym else v.array('zero', n, gen=lambda rr, k: [0.] * k)
    C1 = arr('create')
    D1, D2 = arr('d1', False), arr('d2', False)
    Kd = F.mod(KER4).CollisionIntegralKind
    mki = lambda re, f1, ff, kd: Bag(reaction=re, particle=p, kind=kd, integrate=lambda ps, stepsize=None: (f1, ff))
    p.collision_integrals = [mki(mk([p, b], [a]), C1, Z, Kd.F_creation), mki(mk([p], [b, a]), Z, D1, Kd.F_decay), mki(mk([p], [a, a]), Z, D2, Kd.F_decay)]
    bg = p.equilibrium_distribution(conf_mass=p.mass * p.aT / p.decoupling_temperature) * v.exp(-(pr.t - p.t_decoupling) / p.lifetime) if thermal else Z
    before = bg + C1 * pr.h
    dof = p.dof if majorana else p.dof / 2
    N = lambda f: v.simps(f * dof * y ** 2, y)
    n1, n2 = N(-1 * before * D1), N(-1 * before * D2)
    v.assume(v.land(n1 != 0, n2 != 0))
    got = F.mod(KIN).Icoll_fast_decay(p, y)
    v.eq('created', p.num_creation, N(C1))
    i = v.int('i', lo=0, hi=n - 1)
    want = v.at(C1, i) + v.at(before, i) * (b1 * N(C1) / n1 * v.at(D1, i) + (1 - b1) * N(C1) / n2 * v.at(D2, i))
    v.eq('rate', v.at(got, i), want, scale=None if v.sym else 1 + abs(want))
    v.eq('spectrum before the decay', v.at(p._distribution, i), v.at(before, i))
    if v.sym:
        v.eq('number is conserved', N(C1) + b1 * N(C1) / n1 * N(before * D1) + (1 - b1) * N(C1) / n2 * N(before * D2), v.num(0))
    else:
        v.eq('number is conserved', N(got), 0., scale=abs(N(C1)))


@contract('C18', KIN + '.Icoll_fast_decay', trials=25)
def thermalised_decay(v):
    """species that thermalise before they decay: same number, Boltzmann-shaped"""
    F = v.fresh()
    pr = params(v, F)
    p = particle(v, F, pr, name='X', fast_decay=True, thermalization=True, thermal_dyn=False, lifetime=v.real('tau', pos=True), decoupling_temperature=v.real('Td', pos=True, samples=(0.5, 2)))
    p.BR = {'ab': v.num(1)}
    n, y = p.grid.MOMENTUM_SAMPLES, p.grid.TEMPLATE
    arr = lambda nm, pos=True: v.array(nm, n, nonneg=pos) if v.sym else v.array(nm, n, gen=lambda rr, k: [rr.uniform(0.1, 1) * (1 if pos else -1) for _ in range(k)])
    C1, D1 = arr('create'), arr('d1', False)
    Z = C1 * 0
    a, b = Bag(symbol='a', mass=v.num(0)), Bag(symbol='b', mass=v.num(0))
    mk = lambda l, r: [Bag(side=-1, specie=x) for x in l] + [Bag(side=1, specie=x) for x in r]
    Kd = F.mod(KER4).CollisionIntegralKind
    p.collision_integrals = [Bag(reaction=mk([p, b], [a]), particle=p, kind=Kd.F_creation, integrate=lambda ps, stepsize=None: (C1, Z)),
                             Bag(reaction=mk([p], [b, a]), particle=p, kind=Kd.F_decay, integrate=lambda ps, stepsize=None: (Z, D1))]
    S = lambda f: v.simps(f * y ** 2, y)
    N = lambda f: v.simps(f * (p.dof / 2) * y ** 2, y)
    w = p.mass * pr.a * p.aT
    i = v.int('i', lo=0, hi=n - 1)
    got = F.mod(KIN).Icoll_fast_decay(p, y)
    yi = v.at(y, i)
    shape = v.exp(-yi * yi / (2 * w)) / (v.sqrt(2 * v.pi * w) * (2 * v.pi * w))
    bef = p._distribution
    v.eq('thermal shape', v.at(bef, i), S(C1) * pr.h * shape)
    v.eq('created', p.num_creation, S(C1) * p.dof / 2)
    n1 = N(-1 * bef * D1)
    if bool(n1 == 0):
        return
    v.eq('rate', v.at(got, i) * pr.h, v.at(bef, i) + pr.h * v.at(bef, i) * v.at(D1, i) * N(C1) / n1, tol=1e-6, scale=None if v.sym else 1 + abs(v.at(C1, i)) + abs(v.at(bef, i) * N(C1) / n1))


@contract('C18', F4 + '.integrate', term=['F_decay', 'F_f_vacuum_decay', 'F_creation', 'F_1_vacuum_decay'], trials=20)
def split_terms_4(v, term):
    """for a fast-decaying species the creation and the decay terms are reported separately"""
    from contracts.collisions import four
    F = v.fresh()
    pr, r, A, n, M1, I, calls, kern, fd, Kd, _ = four(v, F, 'scattering', term)
    A.fast_decay = True
    A.num_creation = v.real('created', pos=True)
    CO, UN = F.mod('common').CONST, F.mod('common').UNITS
    out = I.integrate(A.grid.TEMPLATE, stepsize=pr.h)
    pref = 32 * CO.G_F ** 2 * (pr.aT / pr.a) ** 5 / (64 * v.pi ** 3 * pr.H) / (A.dof / 2)
    i = v.int('i', lo=0, hi=n - 1)
    y = A.grid.TEMPLATE
    used = v.lor(i == 0, v.at(y, v.max(i - 1, 0) if not v.sym else i - 1) < 100 * UN.MeV)
    want = v.ite(used, kern.f[int(getattr(Kd, term))](v.at(y, i) / pr.aT) * pref, v.num(0))
    create, decay = out
    dec = term in ('F_decay', 'F_f_vacuum_decay')
    v.eq('decay', v.at(decay, i), want if dec else v.num(0), scale=None if v.sym else abs(pref))
    v.eq('creation', v.at(create, i), v.num(0) if dec else want, scale=None if v.sym else abs(pref))


@contract('C18', F3 + '.integrate', term=['F_decay', 'F_f_vacuum_decay', 'F_creation', 'F_1_vacuum_decay'], trials=20)
def split_terms_3(v, term):
    from contracts.collisions import three
    F = v.fresh()
    pr, r, A, n, I, calls, kern, Kd, K = three(v, F, 'decay3', term, True, False, 'pos')
    A.fast_decay = True
    A.num_creation = v.real('created', pos=True)
    out = I.integrate(A.grid.TEMPLATE, stepsize=pr.h)
    i = v.int('i', lo=0, hi=n - 1)
    pref = v.ite(i == 0, K * pr.aT / pr.a / (8 * v.pi * pr.H) / A.mass ** 2, K * pr.a / pr.aT / (32 * v.pi * pr.H)) / (A.dof / 2)
    want = kern.f[int(getattr(Kd, term))](v.at(A.grid.TEMPLATE, i) / pr.aT) * pref
    create, decay = out
    dec = term in ('F_decay', 'F_f_vacuum_decay')
    v.eq('decay', v.at(decay, i), want if dec else v.num(0), scale=None if v.sym else abs(pref))
    v.eq('creation', v.at(create, i), v.num(0) if dec else want, scale=None if v.sym else abs(pref))


@contract('C18', KIN + '.return_function', term=['Full', 'Full_vacuum_decay', 'F_1', 'F_decay'], fast=[True, False], trials=5)
def nothing(v, term, fast):
    """a neglected reaction contributes zero, in the same form as an evaluated one"""
    F = v.fresh()
    n = v.int('n', lo=1)
    ps = v.array('ps', n)
    p = Bag(**(dict(fast_decay=True) if fast else {}))
    out = F.mod(KIN).return_function(Bag(kind=getattr(F.mod(KER4).CollisionIntegralKind, term), particle=p), ps)
    if fast or term.startswith('Full'):
        v.check('pair', isinstance(out, tuple) and len(out) == 2)
        for o in out:
            v.eq('zero', o, ps * 0)
    else:
        v.eq('zero', out, ps * 0)


def is_nothing(v, out, ps, pair):
    if pair:
        v.check('pair', isinstance(out, tuple) and len(out) == 2)
    for o in (out if pair else (out,)):
        v.eq('zero', o, ps * 0)


SKIPPED = [dict(body=b, term=t, fast=f, why=w) for b in (3, 4) for t in ('Full', 'Full_vacuum_decay', 'F_1', 'F_decay') for f in (False, True) for w in ('neglected', 'no momenta', 'none created')
           if not (w == 'no momenta' and b == 4 or w == 'none created' and t.startswith('Full') and not f)]


@contract('C18', [F3 + '.integrate', F4 + '.integrate', KIN + '.return_function'], cases=SKIPPED, trials=25)
def skipped(v, body, term, fast, why):
    """a neglected reaction is not evaluated and contributes exactly zero at every momentum; so do inverse decays none of whose products
    fit the grid, and decay products of species of which none were created"""
    from contracts.collisions import three, four
    F = v.fresh()
    if body == 3:
        pr, r, A, n, I, calls, kern, Kd, K = three(v, F, 'creation3', term, True, False, 'pos')
    else:
        pr, r, A, n, M1, I, calls, kern, fd, Kd, _ = four(v, F, 'scattering', term)
    if fast:
        A.fast_decay = True
        A.num_creation = v.real('created', pos=True)
    KM = F.mod(KIN)
    if body == 3:
        n3 = A.grid.MOMENTUM_SAMPLES
        KM.Neglect3pInteraction = lambda i, ps: why == 'neglected'
        KM.three_particle_bounds_creation = lambda reaction=None: (v.at(A.grid.TEMPLATE, n3 - 1) + (0 if why == 'no momenta' else -1), v.at(A.grid.TEMPLATE, n3 - 1) + 1)
        if why == 'none created':
            v.assume(v.at(A.grid.TEMPLATE, n3 - 1) > 1)
    else:
        KM.Neglect4pInteraction = lambda i, ps: why == 'neglected'
    if why == 'none created':
        KM.scaling = lambda i, f, c: False
    out = I.integrate(A.grid.TEMPLATE, stepsize=pr.h)
    is_nothing(v, out, A.grid.TEMPLATE, fast or term.startswith('Full'))
    if why != 'none created':
        v.check('not evaluated (%s)' % why, not calls)


@contract('C18', KIN + '.Icoll_fast_decay', thermal=[True, False], trials=8)
def nothing_to_decay(v, thermal):
    """a short-lived species of which nothing decays in the step"""
    F = v.fresh()
    pr = params(v, F)
    p = particle(v, F, pr, name='X', fast_decay=True, thermal_dyn=thermal, lifetime=v.real('tau', pos=True), decoupling_temperature=v.real('Td', pos=True, samples=(0.5, 2)))
    p.BR = {'ab': v.num(1)}
    n, y = p.grid.MOMENTUM_SAMPLES, p.grid.TEMPLATE
    p.t_decoupling = v.real('t_dec', nonneg=True)
    v.assume(p.t_decoupling <= pr.t)
    if not v.sym:
        v.assume(p.mass < 20 * p.decoupling_temperature)
    Z = y * 0
    a, b = Bag(symbol='a', mass=v.num(0)), Bag(symbol='b', mass=v.num(0))
    mk = lambda l, r: [Bag(side=-1, specie=x) for x in l] + [Bag(side=1, specie=x) for x in r]
    Kd = F.mod(KER4).CollisionIntegralKind
    p.collision_integrals = [Bag(reaction=mk([p, b], [a]), particle=p, kind=Kd.F_creation, integrate=lambda ps, stepsize=None: (Z, Z)),
                             Bag(reaction=mk([p], [b, a]), particle=p, kind=Kd.F_decay, integrate=lambda ps, stepsize=None: (Z, Z))]
    got = p.integrate_collisions()
    v.eq('no change', got, Z)
    v.eq('none created', p.num_creation + v.num(0), v.num(0))


@contract('C18', D + '.calculate_collision_integral', fast=[True, False], trials=4)
def dispatch(v, fast):
    """a short-lived species is handled as such, a depleted one has no reactions any more, and either starts without any created particle"""
    F = v.fresh()
    pr = params(v, F)
    KM = F.mod(KIN)
    g = grid(v)
    p = particle(v, F, pr, mass='zero', g=g, decoupling_temperature=v.num(10 ** 9), **(dict(fast_decay=True) if fast else {}))
    F.mod(KER4).handlers['distribution_interpolation'] = lambda g, d, q, *a, **k: q * 0 + 1
    v.assume(pr.T < 10 ** 9)
    p.set_params(pr)
    v.check('none created yet', hasattr(p, 'num_creation') == fast and (not fast or p.num_creation == 0))
    v.check('decoupling time not known yet', p.t_decoupling == 0)
    I = v.array('I', p.grid.MOMENTUM_SAMPLES)
    seen = []

    def short(q, ps):
        seen.append((q, ps))
        return I
    if fast:
        KM.Icoll_fast_decay = short
    dead = []
    KM.has_decayed = lambda q, ps: bool(dead)
    p.collision_integrals = [Bag(kind=F.mod(KER4).CollisionIntegralKind.F_1, integrate=lambda ps, stepsize=None: I)]
    got = p.integrate_collisions()
    if fast:
        v.eq('rate', got, I)
        v.check('of that species on its grid', len(seen) == 1 and seen[0][0] is p)
        v.eq('momenta', seen[0][1], p.grid.TEMPLATE)
    dead.append(1)
    v.eq('no reactions', p.integrate_collisions(), p.grid.TEMPLATE * 0)
    v.check('not evaluated', len(seen) == (1 if fast else 0))


@contract('C18', D + '.update_distribution', records=[2, 5], trials=8)
def decoupled_early(v, records):
    """short-lived species which were never in equilibrium during the run: the clock of the decay starts with the run"""
    F = v.fresh()
    pr = params(v, F)
    Td = v.real('Td', pos=True, samples=(0.3, 3))
    tau = v.real('lifetime', pos=True, samples=(1, 30))
    p = particle(v, F, pr, mass='pos', decoupling_temperature=Td, fast_decay=True, lifetime=tau)
    if not v.sym:
        v.assume(p.mass < 20 * Td)
    v.assume(p.T <= Td)
    occupied(v, p)
    ts = []
    for k in range(records):
        ts.append(v.real('t%d' % k, pos=True, samples=(1, 30)))
        p.data['params'].append({'a': v.num(1), 't': ts[-1], 'T': v.num(1), 'density': v.num(1), 'energy_density': v.num(1)})
    p.collision_integral = v.array('I', p.grid.MOMENTUM_SAMPLES)
    p.update_distribution()
    v.eq('clock', p.t_decoupling, ts[1])
    i = v.int('i', lo=0, hi=p.grid.MOMENTUM_SAMPLES - 1)
    e = v.sqrt(v.at(p.grid.TEMPLATE, i) ** 2 + (p.mass * p.aT / Td) ** 2) / p.aT
    v.eq('spectrum', v.at(p._distribution, i), v.exp(-(pr.t - ts[1]) / tau) / (v.exp(e) + 1))
