"""C03 -- cosmological state (common.Params)."""
from vc.registry import contract
from vc.env import Bag

C = 'common'
P = C + '.Params'


def _params(v, M, log, **kw):
    T = v.real('T', pos=True, samples=(1e-5, 1.))
    step = v.real('step', pos=True, samples=(1e-6, 0.3))
    m = v.real('m', pos=True, samples=(1e-5, 1.)) if v.choice('with m', [False, True]) else None
    if m is not None:
        kw['m'] = m
    p = M.Params(T=T, **dict(kw, **({'dy': step} if log else {'dx': step})))
    return p, T, step, (m if m is not None else M.UNITS.MeV)


@contract('C03', [P + '.__init__', P + '.infer'], log=[True, False])
def initial_state(v, log):
    with v.env(LOGARITHMIC_TIMESTEP=None if log else 'false'):
        M = v.fresh().mod(C)
        p, T, step, m = _params(v, M, log)
    v.eq('T', p.T, T)
    v.eq('m', p.m, m)
    v.eq('a', p.a * T, m)
    v.eq('initial a', p.a_ini, p.a)
    v.eq('x', p.x, p.a * m)
    v.eq('aT', p.aT, p.a * p.T)
    v.eq('clock starts at zero', p.t, v.num(0))
    v.eq('H', p.H, v.num(0))
    if log:
        v.eq('y', p.y, v.log(p.a), scale=1)
        v.eq('h', p.h, step)
        v.eq('dy', p.dy, step)
        v.eq('dx', p.dx, p.x * step)
    else:
        v.eq('h', p.h, step)
        v.eq('dx', p.dx, step)
        v.check('dy is not used', p.dy is None)


@contract('C03', P + '.__init__', log=[True, False])
def step_is_required(v, log):
    with v.env(LOGARITHMIC_TIMESTEP=None if log else 'false'):
        M = v.fresh().mod(C)
        T = v.real('T', pos=True)
        other = v.choice('other', [False, True])
        kw = {}
        if other:
            kw = {'dx' if log else 'dy': v.real('step', pos=True)}
        if v.choice('empty', [False, True]):
            kw['dy' if log else 'dx'] = v.choice('value', [None, 0.])
        kind, e = v.calls(M.Params, T=T, **kw)
    v.check('missing step size is reported', kind == 'exc')


@contract('C03', P + '.update', log=[True, False])
def friedmann(v, log):
    """one update of an arbitrary state"""
    with v.env(LOGARITHMIC_TIMESTEP=None if log else 'false'):
        M = v.fresh().mod(C)
        p, T, step, m = _params(v, M, log)
        p.t = t0 = v.real('t0', nonneg=True, samples=(1e10, 1e30))
        p.x = x = v.real('x', pos=True, samples=(1e-6, 1.))
        p.aT = aT = v.real('aT', pos=True, samples=(1e-5, 1e-2))
        p.T = Told = v.real('Told', pos=True, samples=(1e-5, 1.))
        p.a = aold = v.real('aold', pos=True, samples=(1e-3, 1e2))
        rho = v.real('rho', pos=True, samples=(1e-20, 1.))
        S = v.real('S')
        p.update(rho, S)
    G = M.CONST.G
    v.eq('rho', p.rho, rho)
    v.eq('S', p.S, S)
    v.eq('Friedmann equation', p.H * p.H, 8 * v.pi * G * rho / 3)
    v.lt('expansion', v.num(0), p.H)
    v.eq('a', p.a * m, x)
    v.eq('T', p.a * p.T, aT)
    v.eq('aT', p.aT, aT)
    v.eq('x', p.x, x)
    v.eq('time step', (p.t - t0) * p.H, 1 - aold / p.a,
         scale=None if v.sym else max(1, abs(aold / p.a), 1e-8 * abs(t0 * p.H)))
    # N_eff: energy density besides photons, in units of one relativistic neutrino species at T / 1.401
    photons = v.pi * v.pi / 15 * Told * Told * Told * Told
    c = v.num('1.401')
    one = v.num('7/8') * photons / (c * c * c * c)
    v.eq('N_eff', p.N_eff * one, rho - photons, scale=None if v.sym else abs(photons) + rho)
    if log:
        v.eq('dx follows the scale factor', p.dx, x * step)
    else:
        v.eq('dx fixed', p.dx, step)


@contract('C03', P + '.init_time')
def clock(v):
    """at the start of the evolution: H t = 1/2 with the radiation-dominated Friedmann equation"""
    M = v.fresh().mod(C)
    rho = v.real('rho', pos=True, samples=(1e-20, 1.))
    p = M.Params(T=v.num(1), dy=v.num('0.05'))
    t = p.init_time(rho)
    v.eq('stored', p.t, t)
    v.lt('positive', v.num(0), t)
    v.eq('4 H^2 t^2 = 1', 4 * (8 * v.pi * M.CONST.G * rho / 3) * t * t, v.num(1))


@contract('C03', P + '.entropic_dof_eq')
def entropic_dof(v):
    """any number of species"""
    M = v.mod(C)
    ST = M.STATISTICS
    n = v.int('n', lo=0)
    T = v.real('T', pos=True)
    parts = v.objects('p', n, mass='nonneg', dof='nonneg', in_equilibrium='bool', statistics=[ST.FERMION, ST.BOSON])
    u = Bag(params=Bag(T=T), particles=parts)

    def one(i):
        p = v.at(parts, i)
        d = p.dof * v.num('7/8') if p.statistics == ST.FERMION else p.dof
        return v.ite(v.land(T > p.mass, p.in_equilibrium), d, v.num(0))
    v.eq('dof', M.Params.entropic_dof_eq(u) + v.num(0), v.sum(n, one))
