"""C02 -- units and physical constants (common.UNITS, common.CONST)."""
from vc.registry import contract

C = 'common'


def near(v, name, got, want, rel):
    """|got - want| <= rel |want|   (want > 0)"""
    r = v.num(rel)
    v.le(name + ' (not below)', want * (1 - r), got)
    v.le(name + ' (not above)', got, want * (1 + r))


# CODATA values
HBAR = '6.582119569e-22'      # MeV s
GEV_KG = '1.78266192e-27'     # kg per GeV
HBARC = '0.1973269804e-15'    # GeV m
KB9 = '0.08617333262'         # MeV per 10^9 K


@contract('C02', C + '.UNITS.reset_units')
def derived_units(v):
    M = v.fresh().mod(C)
    U = M.UNITS
    eV = v.real('eV', pos=True, samples=(1e-12, 1e12))
    U.eV = eV
    U.reset_units()
    for k, (name, prev) in enumerate([('keV', 'eV'), ('MeV', 'keV'), ('GeV', 'MeV'), ('TeV', 'GeV')]):
        v.eq('1 %s = 1000 %s' % (name, prev), getattr(U, name), 1000 * getattr(U, prev))
    v.eq('electronvolt kept', U.eV, eV)
    n = v.num
    near(v, 'second', U.s * U.MeV * n(HBAR), n(1), '1e-6')
    near(v, 'kilogram', U.kg * n(GEV_KG), U.GeV, '1e-6')
    near(v, 'metre', U.m * U.GeV * n(HBARC), n(1), '1e-6')
    near(v, '10^9 kelvin', U.K9, U.MeV * n(KB9), '1e-5')
    near(v, 'speed of light', U.m * n('299792458'), U.s, '1e-6')
    near(v, 'newton', U.N * U.s * U.s, U.kg * U.m, '0.02')
    cm = U.m / 100
    near(v, 'gram per cubic centimetre', U.g_cm3 * cm * cm * cm, U.kg / 1000, '1e-5')


@contract('C02', C + '.UNITS')
def default_scale(v):
    """one GeV is the unit of energy by default, and the constants are expressed in it"""
    M = v.fresh().mod(C)
    U, K = M.UNITS, M.CONST
    n = v.num
    near(v, 'GeV', U.GeV, n(1), '1e-9')
    v.eq('G', K.G * K.M_p * K.M_p, n(1))
    near(v, 'gravitational constant', K.G * U.kg * U.s * U.s, n('6.6743e-11') * U.m * U.m * U.m, '1e-3')
    near(v, 'Fermi constant', K.G_F * U.GeV * U.GeV, n('1.16638e-5'), '1e-3')
    near(v, 'W mass', K.M_W, n('80.379') * U.GeV, '1e-3')
    near(v, 'fine structure', K.alpha * n('137.036'), n(1), '1e-5')
    near(v, 'weak mixing', K.sin_theta_w_2, n('0.2312'), '2e-3')
    v.eq('g_R', K.g_R, K.sin_theta_w_2)
    v.eq('g_L', K.g_L, K.sin_theta_w_2 + n('1/2'))
    near(v, 'baryon to photon', K.eta, n('6.1e-10'), '2e-2')
    near(v, 'QCD scale', K.lambda_QCD, n('150') * U.MeV, '1e-6')
    near(v, 'Hubble time', K.H * U.s * n('4.55e17'), n(1), '1e-6')
    near(v, 'kaon decay constant', K.f_K, n('155.6') * U.MeV, '1e-3')
    near(v, 'eta_c decay constant', K.f_eta_c, n('335') * U.MeV, '1e-3')
    near(v, 'D decay constant', K.f_D, n('212') * U.MeV, '1e-3')
    near(v, 'Ds decay constant', K.f_Ds, n('249') * U.MeV, '1e-3')
    near(v, 'Ds* decay constant', K.f_Ds_star, n('315') * U.MeV, '1e-3')
    near(v, 'solar mass splitting', K.delta_m12_sq, n('7.37e-5') * U.eV * U.eV, '1e-3')
    near(v, 'atmospheric mass splitting', K.delta_m13_sq, n('2.56e-3') * U.eV * U.eV, '1e-3')
    near(v, 'rate normalisation', K.rate_normalization * U.MeV**5, n('17.54'), '1e-3')
    near(v, 'refractive term', K.MSW_constant * v.pi * K.M_W * K.M_W, n(16) * n('1.2020569') * v.sqrt(n(2)) * K.G_F, '1e-3')
