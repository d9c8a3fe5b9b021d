"""C21 -- grids and decoupling temperature of heavy neutral leptons (HNL) and their decay products."""
from vc.registry import contract

K = 'common.kinematics'
SRC = 'common/kinematics.py '


def masses(r):
    return r.choice([r.uniform(0.5, 100), r.uniform(100, 150), r.uniform(130, 1200), r.uniform(1000, 9000)])


def setup(v):
    M = v.mod(K)
    MeV = v.mod('common').UNITS.MeV
    res = v.real('resolution', pos=True, samples=(0.05, 2))
    scale = v.int('max_scale', lo=1, hi=None if v.sym else 30)
    top = v.int('max_momentum', lo=1, hi=None if v.sym else 300)
    m = v.real('mass', pos=True, samples=masses) * MeV
    theta = v.real('theta', pos=True, samples=lambda r: 10 ** r.uniform(-7, -2))
    return M, MeV, m, theta, res * MeV, scale, v.env(FOUR_PARTICLE_GRID_RESOLUTION=res, MAX_SCALE_FACTOR=scale, MAX_MOMENTUM_MEV=top)


@contract('C21', SRC + 'decoupling_temperature, decoupling_temperature_relativistic')
def decoupling(v):
    """rate G_F^2 theta^2 T^5 = 1.66 sqrt(g) T^2 / M_p of expansion; a heavier particle decouples no later than it becomes
    non-relativistic, and only then"""
    M, MeV, m, theta, res, scale, settings = setup(v)
    with settings:
        C = v.mod('common').CONST
        T = M.decoupling_temperature_relativistic(m, theta)
        muon = v.num(105.658) * MeV if not v.sym else v.num(105658) / 1000 * MeV
        v.assume(m != C.lambda_QCD)
        v.assume(m != muon)
        g = v.num(61.75) if m > C.lambda_QCD else v.num(14.25) if m > muon else v.num(10.75)
        v.eq('rate equals expansion', T * T * T * C.M_p * C.G_F * C.G_F * theta * theta, v.sqrt(g) * 166 / 100)
        v.check('positive', T > 0)
        D = M.decoupling_temperature(m, theta)
        v.le('not below the mass', m, D)
        if T > m:
            v.eq('relativistic', D, T * 3 / 2)
        else:
            v.le('non-relativistic', D, m * 3 / 2)


@contract('C21', SRC + 'grid_resolution_HNL, grid_resolution_neutrino, grid_resolution_meson, grid_resolution_lepton', of=['HNL', 'neutrino', 'meson', 'lepton', 'standard lepton'], trials=200, timeout=150)
def resolution(v, of):
    """momenta are resolved: at least as finely as configured, and never with a vanishing or negative spacing"""
    M, MeV, m, theta, res, scale, settings = setup(v)
    with settings:
        if of == 'HNL':
            got = M.grid_resolution_HNL(m, theta)
            # the width of a Maxwell-Boltzmann spectrum of temperature 1 MeV
            v.eq('width of the spectrum', got * got, (3 - 8 / v.pi) * MeV * MeV)
        else:
            got = M.grid_resolution_lepton(m, theta, std=True) if of == 'standard lepton' else getattr(M, 'grid_resolution_' + of)(m, theta)
            v.le('as fine as configured', got, res)
        v.check('positive', got > 0)


@contract('C21', SRC + 'grid_params_HNL, grid_params_neutrino, grid_params_meson, grid_params_lepton', of=['HNL', 'neutrino', 'meson', 'lepton', 'standard lepton'], trials=200)
def grid(v, of):
    """the grid reaches the momenta produced, and has a point for every interval of the resolution"""
    M, MeV, m, theta, res, scale, settings = setup(v)
    with settings:
        kw = {'std': True} if of == 'standard lepton' else {}
        kind = of.split()[-1]
        if v.sym:       # contract `resolution`
            R = v.real('step', pos=True)
            setattr(M, 'grid_resolution_' + kind, lambda *a, **k: R)
        if of == 'HNL' and v.sym:
            D = v.real('T_dec', pos=True)       # contract `decoupling`
            v.assume(D >= m)
            M.decoupling_temperature = lambda *a: D
            v.assume(v.log(v.num(10)**100) > 1)
        n, top_momentum = getattr(M, 'grid_params_' + kind)(m, theta, **kw)
        step = getattr(M, 'grid_resolution_' + kind)(m, theta, **kw)
        v.check('positive', top_momentum > 0)
        v.le('points', n * step, top_momentum)
        v.check('all points', top_momentum < (n + 1) * step)
        if of == 'HNL':
            # occupation at the last momentum, temperature 1 MeV at decoupling
            E = v.sqrt(top_momentum * top_momentum + (m * MeV / M.decoupling_temperature(m, theta))**2)
            v.eq('thermal occupation below 1e-100', E, MeV * v.log(v.num(10)**100))
            return
        # half the mass is the largest momentum a decay product can get; comoving up to the last scale factor
        light = {'neutrino': 0., 'meson': 134.98, 'lepton': 105.658, 'standard lepton': 0.}[of]
        light = v.num(light) * MeV if not v.sym else v.num(int(round(light * 1000))) / 1000 * MeV
        if m > light:
            v.le('momenta of decay products', (m * m - light * light) / (2 * m) * scale, top_momentum)
