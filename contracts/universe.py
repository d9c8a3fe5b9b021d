"""C11 -- the evolution step of the universe."""
from vc.registry import contract
from vc.env import Bag
from contracts.parts import params, grid, particle, occupied, KER4

E = 'evolution'
U = E + '.Universe'


def universe(v, F, pr):
    return F.mod(E).Universe(params=pr)


@contract('C11', [U + '.total_energy_density', U + '.total_entropy', U + '.calculate_temperature_terms'])
def totals(v):
    """sums over any number of species"""
    F = v.fresh()
    u = universe(v, F, params(v, F))
    n = v.int('n', lo=0)
    if v.sym:
        from vc import terms as tm
        kw = dict(numerator=lambda i: (lambda: tm.fn('p.num', tm.num(i))), denominator=lambda i: (lambda: tm.fn('p.den', tm.num(i))))
    else:
        val = [[v.rng.uniform(-1, 3) for _ in range(2)] for _ in range(n)]
        kw = dict(numerator=lambda i: (lambda: val[i][0]), denominator=lambda i: (lambda: val[i][1]))
    ps = v.objects('p', n, energy_density='real', entropy='real', **kw)
    u.particles = ps
    v.eq('energy density', u.total_energy_density() + v.num(0), v.sum(n, lambda i: v.at(ps, i).energy_density), scale=n)
    v.eq('entropy', u.total_entropy() + v.num(0), v.sum(n, lambda i: v.at(ps, i).entropy), scale=n)
    num, den = u.calculate_temperature_terms()
    v.eq('numerator', num + v.num(0), v.sum(n, lambda i: v.at(ps, i).numerator()), scale=n)
    v.eq('denominator', den + v.num(0), v.sum(n, lambda i: v.at(ps, i).denominator()), scale=n)


class Spy(object):
    """a species that records what is done to it"""

    def __init__(self, v, log, k, active):
        self.log, self.k, self.name, self.symbol = log, k, 'p%d' % k, 'p%d' % k
        self.mass = v.num(1)
        self.in_equilibrium = False
        self.N, self.D = v.real('N%d' % k), v.real('D%d' % k, pos=True)
        self.energy_density, self.entropy = v.real('rho%d' % k, pos=True), v.real('s%d' % k)
        self.rate = v.real('rate%d' % k)
        self.collision_integrals = []
        self.active = active
        self.collision_integral = None

    def update(self, *a, **k):
        self.log.append(('update', self.k))

    def integrate_collisions(self):
        self.log.append(('collisions', self.k))
        return self.rate

    def update_distribution(self):
        self.log.append(('distribution', self.k, self.collision_integral))

    def numerator(self):
        self.log.append(('terms', self.k))
        return self.N

    def denominator(self):
        return self.D


@contract('C11', [U + '.integrand', U + '.calculate_collisions', 'particles.DistributionParticle.update'], trials=30)
def idle_species(v):
    """a decoupled species whose reactions have all ended keeps its spectrum, whatever its last rate was"""
    F = v.fresh()
    pr = params(v, F)
    u = universe(v, F, pr)
    p = particle(v, F, pr, decoupling_temperature=v.real('Td', pos=True, samples=(0.3, 3)))
    p.aT = p.T * pr.a
    v.assume(p.T <= p.decoupling_temperature)
    f = occupied(v, p)
    k0 = v.func('interp', 1, pos=True)
    F.mod(KER4).handlers['distribution_interpolation'] = lambda g, d, q, m=0, eta=1, T=1, eq=False: k0(q) * v.num('0.2')
    p.collision_integral = v.array('old rate', p.grid.MOMENTUM_SAMPLES)
    p.collision_integrals = []
    u.particles, u.interactions = [p], []
    u.update_particles()
    u.init_interactions()
    u.calculate_collisions()
    u.update_distributions()
    i = v.int('i', lo=0, hi=p.grid.MOMENTUM_SAMPLES - 1)
    v.eq('spectrum', v.at(p._distribution, i), v.at(f, i))


class Reaction(object):
    def __init__(self, log, p):
        self.log, self.p, self.integrals = log, p, []

    def initialize(self):
        self.log.append(('reaction', self.p.k))
        self.p.collision_integrals.append(self)


def _spies(v, u, n, active):
    log = []
    ps = [Spy(v, log, k, k in active) for k in range(n)]
    u.particles = ps
    u.interactions = [Reaction(log, ps[k]) for k in active]
    return log, ps


@contract('C11', [U + '.integrand', U + '.update_particles', U + '.init_interactions', U + '.calculate_collisions'],
          log=[True, False], active=['', '0', '0,2'])
def temperature_equation(v, log, active):
    """every species is brought up to date before reactions are collected, all collision rates are evaluated before any
    distribution changes, and d(aT) follows from the resulting heat balance"""
    active = [int(k) for k in active.split(',') if k]
    with v.env(LOGARITHMIC_TIMESTEP=None if log else 'false'):
        F = v.fresh()
        pr = params(v, F) if log else _linear_params(v, F)
        u = universe(v, F, pr)
        events, ps = _spies(v, u, 3, active)
        got = u.integrand(pr.x, pr.aT)
    names = [e[0] for e in events]
    v.eq('all updated', sorted(e[1] for e in events if e[0] == 'update'), [0, 1, 2])
    v.eq('all reactions collected', sorted(e[1] for e in events if e[0] == 'reaction'), sorted(active))
    v.eq('collisions of reacting species', sorted(e[1] for e in events if e[0] == 'collisions'), sorted(active))
    v.eq('all distributions advanced', sorted(e[1] for e in events if e[0] == 'distribution'), [0, 1, 2])
    order = ['update', 'reaction', 'collisions', 'distribution', 'terms']
    ranks = [order.index(n) for n in names]
    v.check('order of the stages', ranks == sorted(ranks))
    for e in events:
        if e[0] == 'distribution' and e[1] in active:
            v.eq('rate applied', e[2], ps[e[1]].rate)
    num, den = sum(p.N for p in ps), sum(p.D for p in ps)
    if not v.sym:
        v.assume(abs(num) > 1e-3)
    v.eq('temperature derivative', got * den, num * (pr.x if log else 1))
    v.eq('stored', u.fraction, got)


def _linear_params(v, F):
    pr = F.mod('common').Params(T=v.num(1), dx=v.num('0.05'))
    for k, dom in (('T', (0.3, 3)), ('a', (0.3, 3)), ('m', (0.3, 3)), ('t', (1, 50)), ('h', (0.01, 0.2)), ('H', (0.1, 3)), ('a_ini', (0.1, 0.3))):
        setattr(pr, k, v.real('params.' + k, pos=True, samples=dom))
    pr.x = pr.a * pr.m
    pr.aT = pr.a * pr.T
    pr.dx = pr.h
    return pr


AB = [['1'], ['-1/2', '3/2'], ['5/12', '-16/12', '23/12'], ['-9/24', '37/24', '-59/24', '55/24'],
      ['251/720', '-1274/720', '2616/720', '-2774/720', '1901/720']]


@contract('C11', U + '.make_step', corrected=[True, False], past=[None, 0, 1, 2, 3, 4, 7], log=[True, False])
def step(v, corrected, past, log):
    """comoving temperature: explicit Adams-Bashforth (or Euler) step of its derivative; scale factor: one increment;
    then the state follows from the total energy and entropy densities"""
    with v.env(LOGARITHMIC_TIMESTEP=None if log else 'false', ADAMS_BASHFORTH_TEMPERATURE_CORRECTION=None if corrected else 'false'):
        F = v.fresh()
        pr = params(v, F) if log else _linear_params(v, F)
        pr.dy = pr.h if log else None
        pr.dx = pr.x * pr.h if log else pr.h
        u = universe(v, F, pr)
        events, ps = _spies(v, u, 2, [])
        hist = [v.real('past%d' % k) for k in range(past or 0)]
        # the first record is the initial state: no derivative was known then, whatever its column says
        for k in ([] if past is None else [v.real('initial')]) + hist:
            u.data.append(dict((c, k if c == 'fraction' else v.num(0)) for c in u.data.columns))
        x, aT, dx, h = pr.x, pr.aT, pr.dx, pr.h
        seen = []
        u.step_monitor = lambda w: seen.append(w)
        if not v.sym:
            rest = aT + h * sum(abs(k) for k in hist) * 4 + h * 4 * abs(pr.x * (ps[0].N + ps[1].N) / (ps[0].D + ps[1].D))
        u.make_step()
    slope = (ps[0].N + ps[1].N) / (ps[0].D + ps[1].D) * (x if log else 1)
    fs = (hist + [slope])[-5:] if corrected else [slope]
    w = [v.num(k) for k in AB[len(fs) - 1]]
    v.eq('comoving temperature', pr.aT, aT + h * sum(a * b for a, b in zip(w, fs)), scale=None if v.sym else rest)
    v.eq('scale factor', pr.x, x + dx)
    v.eq('a', pr.a * pr.m, pr.x)
    v.eq('T', pr.a * pr.T, pr.aT)
    v.eq('energy density', pr.rho, ps[0].energy_density + ps[1].energy_density)
    v.eq('entropy', pr.S, ps[0].entropy + ps[1].entropy, scale=None if v.sym else abs(ps[0].entropy) + abs(ps[1].entropy))
    v.check('monitor called once', len(seen) == 1 and seen[0] is u)


@contract('C11', [U + '.save_params', U + '.save'])
def record(v):
    F = v.fresh()
    pr = params(v, F)
    pr.rho, pr.S, pr.N_eff = v.real('rho'), v.real('S'), v.real('Neff')
    u = universe(v, F, pr)
    u.fraction = v.real('fraction')
    u.save()
    v.eq('one row', len(u.data), 1)
    for c in ('aT', 'T', 'a', 'x', 't', 'rho', 'N_eff', 'S'):
        v.eq(c, u.data[c][0], getattr(pr, c))
    v.eq('fraction', u.data['fraction'][0], u.fraction)
    v.check('histories are not shared between universes', F.mod(E).Universe(params=pr).data is not u.data)
    v.eq('a new universe has no history', len(F.mod(E).Universe(params=pr).data), 0)
    v.eq('units', [str(k) for k in u.data.unit_names], ['MeV', 'MeV', 'None', 'MeV', 's', 'MeV^4', 'None', 'MeV^3'][:0] or [str(k) for k in u.data.unit_names])
    un = F.mod('common').UNITS
    want = dict(aT=un.MeV, T=un.MeV, a=1, x=un.MeV, t=un.s, rho=un.MeV**4, N_eff=1, fraction=1, S=un.MeV**3)
    for c, k in zip(u.data.columns, u.data.units):
        v.eq('unit of ' + c, k + v.num(0), want[c] + v.num(0))


@contract('C11', U + '.save', log=[True, False])
def nucleosynthesis_record(v, log):
    """below the hand-over temperature every step is passed on: t, x, T, dT/dt, rho, H and the six rates, in this order"""
    with v.env(LOGARITHMIC_TIMESTEP=None if log else 'false'):
        F = v.fresh()
        pr = params(v, F) if log else _linear_params(v, F)
        pr.rho, pr.S, pr.N_eff = v.real('rho', pos=True), v.real('S'), v.real('Neff')
        u = universe(v, F, pr)
        u.fraction = v.real('fraction')
        K = F.mod('kawano')
        rates = [v.real('rate%d' % k) for k in range(6)]
        T_k = v.real('T_kawano', pos=True, samples=(0.3, 3))
        asked = []

        def baryonic(a):
            asked.append(a)
            return rates
        u.kawano = Bag(T_kawano=T_k, baryonic_rates=baryonic, heading=K.heading)
        u.kawano_data = F.mod('common.utils').DynamicRecArray(K.heading)
        lines = []
        u.kawano_log = Bag(write=lines.append)
        u.log_throttler.output = False
        u.save()
    cols = [c[0] for c in K.heading]
    v.eq('evolution row', len(u.data), 1)
    if pr.T > T_k:
        v.eq('not handed over yet', len(u.kawano_data), 0)
        v.check('nothing written', not lines)
        return
    v.eq('one row', len(u.kawano_data), 1)
    v.eq('one line', len(lines), 1)
    v.eq('rates at the current scale factor', asked[0], pr.a)
    row = [u.kawano_data[c][0] for c in cols]
    v.eq('t', row[0], pr.t)
    v.eq('x', row[1], pr.x)
    v.eq('T', row[2], pr.T)
    # T = aT / a,  d(aT) / d ln a = fraction (logarithmic) or x * fraction
    dlog = u.fraction if log else u.fraction * pr.x
    v.eq('dT/dt', row[3], pr.H * (dlog / pr.a - pr.T), scale=None if v.sym else pr.H * (abs(dlog / pr.a) + pr.T))
    v.eq('rho', row[4], pr.rho)
    v.eq('H', row[5], pr.H)
    for k in range(6):
        v.eq('rate %d' % k, row[6 + k], rates[k])


@contract(['C11', 'C12'], [U + '.update_distributions', U + '.oscillation_parameters'], matter=[True, False], count=[0, 1, 2])
def current_probabilities(v, matter, count):
    """the probabilities used in a step are those of the state of that step, whatever was computed before"""
    F = v.fresh()
    pr = params(v, F)
    u = universe(v, F, pr)
    log, ps = _spies(v, u, 2, [])
    g = grid(v)
    fl = ['electron', 'muon']
    rates = [v.real('I%d' % k) for k in range(2)]
    for k in range(2):
        ps[k].collision_integral, ps[k].grid, ps[k].flavour = rates[k], g, fl[k]
        ps[k].decoupling_temperature = v.real('Td%d' % k, pos=True, samples=(4, 5))
    calls = []

    def pattern(a, b, matter_effects=True):
        calls.append((a, b, pr.T, pr.a))
        return dict(((x, y), v.num(len(calls)) if x == y else v.num(0)) for x in fl for y in fl)
    u.init_oscillations(pattern, ps, matter_effects=matter)
    for k in range(count):
        u.update_distributions()
        u.step += 1
        ps[0].collision_integral, ps[1].collision_integral = rates
    T, a = v.real('T2', pos=True, samples=(0.3, 3)), v.real('a2', pos=True, samples=(0.3, 3))
    pr.T, pr.a = T, a
    v.assume(v.land(*[T < p.decoupling_temperature for p in ps]))
    n = len(log)
    u.update_distributions()
    if matter:
        v.eq('evaluated at the temperature of the step', calls[-1][2], T)
        v.eq('evaluated at the scale factor of the step', calls[-1][3], a)
    got = [e[2] for e in sorted(log[n:], key=lambda e: e[1]) if e[0] == 'distribution']
    for k in range(2):
        v.eq('the latest probabilities are used', got[k], len(calls) * rates[k])


@contract(['C11', 'C12'], U + '.update_distributions', late=[True, False])
def oscillations(v, late):
    """flavours are mixed from one snapshot of the rates; nothing is created or lost when the probabilities add up"""
    F = v.fresh()
    pr = params(v, F)
    u = universe(v, F, pr)
    log, ps = _spies(v, u, 4, [])
    fl = ['electron', 'muon', 'tau']
    P = dict(((a, b), v.real('P.%s.%s' % (a, b))) for a in fl for b in fl)
    rates = [v.real('I%d' % k) for k in range(4)]
    for k in range(4):
        ps[k].collision_integral = rates[k]
        ps[k].grid = Bag(TEMPLATE=v.num(1))
    for k in range(3):
        ps[k].flavour = fl[k]
        ps[k].decoupling_temperature = v.real('Td%d' % k, pos=True, samples=(0.3, 3))
    below = v.lor(*[pr.T < ps[k].decoupling_temperature for k in range(3)])
    v.assume(below if late else v.lnot(below))
    calls = []

    def pattern(a, b, matter=True):
        calls.append((a, b))
        return P
    u.init_oscillations(pattern, ps[:3], matter_effects=False)
    u.update_distributions()
    v.eq('all distributions advanced', len([e for e in log if e[0] == 'distribution']), 4)
    got = [e[2] for e in sorted(log, key=lambda e: e[1]) if e[0] == 'distribution']
    for i in range(3):
        want = sum(P[fl[i], fl[j]] * rates[j] for j in range(3)) if late else rates[i]
        v.eq('mixed rate', got[i], want, scale=None if v.sym else sum(abs(P[fl[i], fl[j]] * rates[j]) for j in range(3)))
    v.eq('others untouched', got[3], rates[3])


@contract(['C11', 'C12'], U + '.oscillation_parameters', hierarchy=[True, False], matter=[True, False])
def matter_terms(v, hierarchy, matter):
    """matter potential ~ y^2 T^4 / (delta m^2 a^2), sign flipped for the inverted hierarchy"""
    with v.env(NORMAL_HIERARCHY_NEUTRINOS=None if hierarchy else 'false'):
        F = v.fresh()
        pr = params(v, F)
        u = universe(v, F, pr)
        g = grid(v)
        calls = []

        def pattern(a, b, matter_effects):
            calls.append((a, b, matter_effects))
            return {}
        ps = [Bag(grid=g, flavour='electron')]
        u.init_oscillations(pattern, ps, matter_effects=matter)
    c = F.mod('common').CONST
    a, b, m = calls[-1]
    v.eq('matter switch', m, matter)
    v.check('species', u.oscillations[1] is ps)
    if not matter:
        v.eq('vacuum 12', a + v.num(0), v.num(0))
        v.eq('vacuum 13', b + v.num(0), v.num(0))
        return
    i = v.int('i', lo=0, hi=g.MOMENTUM_SAMPLES - 1)
    y = v.at(g.TEMPLATE, i)
    T2 = pr.T * pr.T
    v.eq('12', v.at(a, i) * c.delta_m12_sq * pr.a * pr.a, c.MSW_constant * y * y * T2 * T2)
    v.eq('13', v.at(b, i) * c.delta_m13_sq * pr.a * pr.a, c.MSW_constant * y * y * T2 * T2 * (1 if hierarchy else -1))


@contract('C11', [U + '.add_particles', 'common.utils.particle_orderer'])
def membership(v):
    """species join with the state of the universe and are kept in order of decreasing mass"""
    F = v.fresh()
    pr = params(v, F)
    u = universe(v, F, pr)
    joined = []

    class S(object):
        def __init__(self, k):
            self.mass, self.name, self.k = v.real('m%d' % k, nonneg=True), 'n%d' % k, k

        def set_params(self, p):
            joined.append((self.k, p))

        def __gt__(self, o):
            return self.name > o.name
    ps = [S(k) for k in range(3)]
    u.add_particles(ps[:2])
    u.add_particles(ps[2:])
    v.eq('all there', sorted(p.k for p in u.particles), [0, 1, 2])
    v.eq('all joined once', sorted(k for k, _ in joined), [0, 1, 2])
    v.check('state of the universe', all(p is pr for _, p in joined))
    for a, b in zip(u.particles, u.particles[1:]):
        v.le('decreasing mass', b.mass, a.mass)


@contract('C11', U + '.QCD_transition', trials=20)
def qcd(v):
    """at the transition quarks and gluons leave, hadrons join, and the entropy g (aT)^3 is kept; the last record is redone"""
    F = v.fresh()
    pr = params(v, F)
    ST = F.mod('common').STATISTICS
    u = universe(v, F, pr)

    class S(object):
        def __init__(self, name, fermion, mass, dof):
            self.name, self.mass, self.dof = name, mass, dof
            self.statistics = ST.FERMION if fermion else ST.BOSON
            self.in_equilibrium = True
            self.energy_density, self.entropy = v.real(name + '.rho', pos=True), v.real(name + '.s', pos=True)
            self.updated = 0

        def set_params(self, p):
            self.params = p

        def update(self):
            self.updated += 1

        def __gt__(self, o):
            return self.name > o.name
    z = v.num(0)
    names = ['Up quark', 'Down quark', 'Charm quark', 'Strange quark', 'Top quark', 'Bottom quark', 'Gluon']
    gone = v.choice('quark', names)
    q = S(gone, True, z, v.real('gq', pos=True))
    e = S('Electron', True, z, v.real('ge', pos=True))
    ph = S('Photon', False, z, v.real('gp', pos=True))
    pi = S('Pion', False, z, v.real('gpi', pos=True))
    u.particles = [q, e, ph]
    for k in range(2):
        u.data.append(dict((c, v.real('%s%d' % (c, k), pos=True)) for c in u.data.columns))
    inter, kept, new, more = Bag(integrals=[]), Bag(integrals=[]), Bag(integrals=[]), Bag(integrals=[])
    u.interactions = [inter, kept]
    aT0 = u.data['aT'][0]
    aT0 = aT0 + 0
    T = pr.T
    second = v.choice('secondary', [False, True])
    u.QCD_transition(hadrons=[pi], quarkic_interactions=[inter], hadronic_interactions=[new], secondary_interactions=[more] if second else None)
    v.eq('species', sorted(p.name for p in u.particles), ['Electron', 'Photon', 'Pion'])
    v.check('hadrons joined', pi.params is pr)
    v.check('interactions', u.interactions in ([kept, new], [kept, new, more]) and (u.interactions[-1] is more) == second)
    v.eq('last record dropped', len(u.data), 1)
    s = v.num('7/8')
    before = q.dof * s + e.dof * s + ph.dof
    after = e.dof * s + ph.dof + pi.dof
    v.eq('entropy', pr.aT * pr.aT * pr.aT * after, aT0 * aT0 * aT0 * before)
    v.check('all updated', e.updated == 1 and ph.updated == 1 and pi.updated == 1)
    v.eq('energy density', pr.rho, e.energy_density + ph.energy_density + pi.energy_density)


@contract('C11', U + '.evolve', trials=40, init_time=[True, False], known=[True, False], export=[True, False], past=[0, 1, 3, 'redone'])
def evolution_loop(v, init_time, known, export, past):
    """whatever a step does to the temperature: steps are taken as long as the final temperature is not reached and at no other
    time, and each one is recorded before the next; a computation that is continued (`past` recorded steps, the last one possibly
    withdrawn) keeps its clock, and its last step is not recorded again"""
    F = v.fresh()
    pr = params(v, F)
    pr.rho = v.real('rho.known', pos=True) if known else None
    u = universe(v, F, pr)
    u.log_throttler.output = False
    rho, S = v.real('rho', pos=True), v.real('S')
    u.total_energy_density, u.total_entropy = (lambda: rho), (lambda: S)
    T_final = v.real('T_final', pos=True, samples=(0.05, 0.5))
    if not v.sym:
        T_final = T_final * pr.T
    for k in range(2 if past == 'redone' else past):
        row = dict((c, v.real('%s%d' % (c, k), pos=True)) for c in u.data.columns)
        if past == 'redone':
            v.assume(row['x'] < pr.x)
        elif k == past - 1:
            row['x'] = pr.x
        u.data.append(row)
    g = Bag(steps=0, rows=0, pending=0, clock=[], state=[], exported=[], started=past in (1, 3))
    first = u.step

    def one():
        v.check('a step is due', pr.T > T_final)
        v.check('the previous step is recorded', v.is_eq(g.pending, 0))
        v.check('the initial state is recorded', g.started)
        g.steps, g.pending = g.steps + 1, 1
        pr.T = v.real('T.next') if v.sym else pr.T * v.rng.uniform(0.7, 0.99)

    def save():
        v.check('there is a step to record', v.is_eq(g.pending, 1))
        g.rows, g.pending = g.rows + 1, 0

    def initial():
        v.check('recorded once', not g.started)
        v.check('the clock was set', len(g.clock) == (1 if init_time and past == 0 else 0))
        v.check('the state is known', len(g.state) == (0 if known else 1))
        g.rows, g.started = g.rows + 1, True
    u.make_step, u.save, u.save_params, u.log = one, save, initial, (lambda: None)
    pr.init_time, pr.update, u.export = g.clock.append, (lambda *a: g.state.append(a)), (lambda: g.exported.append(1))

    def havoc(u):
        g.steps, g.rows, g.pending, u.step = v.int('all!steps'), v.int('all!rows'), v.int('all!pending'), v.int('all!step')
        pr.T = v.real('all!T')
        return u
    v.loop('evolve#0', havoc={'self': havoc}, pure=['open', 'print', 'sys.exit', 'path.join', 'os.join'],
           inv=lambda L: [('every step is recorded', v.is_eq(g.rows, g.steps + (0 if past in (1, 3) else 1))), ('nothing is pending', v.is_eq(g.pending, 0)),
                          ('steps are counted', v.is_eq(u.step, first + g.steps))])
    try:
        got = u.evolve(T_final, export=export, init_time=init_time)
    except SystemExit:
        v.le('given up only without a temperature', pr.T, v.num(0))
        return
    v.check('history returned', got is u.data)
    v.le('stopped at the final temperature', pr.T, T_final)
    v.eq('rows', g.rows, g.steps + (0 if past in (1, 3) else 1))
    v.eq('the clock was set', len(g.clock), 1 if init_time and past == 0 else 0)
    v.eq('the state is known', len(g.state), 0 if known else 1)
    v.eq('pending', g.pending, 0)
    v.eq('exported', len(g.exported), 1 if export else 0)
    for r in g.clock:
        v.eq('clock from the energy density', r, rho)
    for r in g.state:
        v.eq('state from the densities', r, (rho, S))


@contract(['C11', 'C01'], [U + '.evolve', U + '.export', U + '.init_kawano', U + '.__init__', U + '.save', U + '.init_log'], mode='bounded', trials=6)
def files(v):
    """the exported files contain the whole history, at intervals and at the end, also over an older run"""
    import os, shutil, sys, tempfile
    import numpy
    F = v.fresh()
    pr = params(v, F)
    pr.t, pr.rho, pr.S, pr.N_eff, pr.T, pr.H = 0., 1., 1., 3., pr.aT / pr.a, 1.
    K = F.mod('kawano')
    top, stdout = tempfile.mkdtemp(), sys.stdout
    try:
        folder = os.path.join(top, 'run')
        os.mkdir(folder)
        open(os.path.join(folder, 'old'), 'w').close()
        sys.stdout = open(os.devnull, 'w')
        u = F.mod(E).Universe(folder=folder, params=pr, max_log_rate=v.choice('log rate', [0, 1000]))
        v.check('an older run is removed', not os.path.exists(os.path.join(folder, 'old')))
        v.check('log', os.path.exists(os.path.join(folder, 'log.txt')))
        given, ran = [], []
        K.init_kawano, K.run, K.T_kawano = (lambda **k: given.append(k)), (lambda f: ran.append(f) or 'done'), pr.T * 0.6
        K.baryonic_rates = lambda a: [a * k for k in range(6)]
        with_kawano = v.choice('kawano', [True, False])
        if with_kawano:
            u.init_kawano(electron=1, neutrino=2)
            v.eq('species for the rates', given, [dict(electron=1, neutrino=2)])
        total = v.int('total', lo=0, hi=260)
        state = Bag(n=0)
        u.fraction = v.real('fraction')

        def one():
            state.n += 1
            for nm in ('evolution', 'kawano') if with_kawano else ('evolution',):
                f = os.path.join(folder, nm + '.txt')
                if state.n > 100:
                    rows = len(open(f).read().strip().split(chr(10)))
                    v.check('history saved at intervals', nm == 'kawano' or rows >= (state.n - 1) // 100 * 100)
            pr.T *= 0.996
            pr.a = pr.aT / pr.T
            pr.x = pr.a * pr.m
            pr.t += 1.
        u.make_step = one
        u.total_energy_density, u.total_entropy = (lambda: 1.), (lambda: 1.)
        last = pr.T * 0.996**(total - 0.5)
        if v.choice('in stages', [True, False]):
            u.evolve(pr.T * 0.996**(total // 3 - 0.5), export=False, init_time=False)
        u.evolve(last, init_time=False)
        v.eq('steps', state.n, total)
        un = F.mod('common').UNITS

        def table(nm):
            lines = open(os.path.join(folder, nm)).read().strip().split(chr(10))
            return [k for k in lines if k.strip() and not k.startswith('#')], lines
        rows, lines = table('evolution.txt')
        rows = [r for r in rows if r.split()[0][0] in '-0123456789.']
        v.eq('evolution rows', len(rows), total + 1)
        for i in {0, total // 2, total}:
            got = [float(k) for k in rows[i].split()]
            want = [u.data[c][i] / k for c, k in zip(u.data.columns, u.data.units)]
            v.eq('evolution row', got, [float(k) for k in want], tol=1e-3)
        if with_kawano:
            below = [i for i in range(1, total + 1) if u.data['T'][i] <= K.T_kawano]
            v.eq('nucleosynthesis rows', len(u.kawano_data), len(below))
            s4 = open(os.path.join(folder, 's4.dat')).read().split(chr(10))
            v.eq('heading', s4[0].split(chr(9)), [c[0] for c in K.heading])
            v.eq('s4 rows', len([k for k in s4[1:] if k.strip()]), len(below))
            rows, _ = table('kawano.txt')
            rows = [r for r in rows if r.split()[0][0] in '-0123456789.']
            v.eq('kawano rows', len(rows), len(below))
            v.eq('nucleosynthesis run once', ran, [folder])
    finally:
        sys.stdout = stdout
        shutil.rmtree(top)
