"""Tables of the library compared with measured values written down here: C08 (statistics, degrees of freedom, masses), C12 (oscillation
constants), C22 (charges, quark mixing, decay constants, couplings), C23 (lifetimes, branching ratios, strengths of decay amplitudes)."""
import math
from collections import Counter

from vc.registry import contract
from contracts.library import SM, NU, ALL, Recorder, annihilated, charge, decaying, leg, legs, listed, recorded, world, without_tau
from contracts.parts import KER4
from contracts.units import near

# name: (group, fermion, degrees of freedom, mass in MeV, allowed relative deviation of the mass, charge in thirds, its own antiparticle)
SPECIES = {
    'photon': ('', 0, 2, '0', 0, 0, 1), 'gluon': ('', 0, 16, '0', 0, 0, 1),
    'neutron': ('hadrons', 1, 4, '939.5654', '1e-3', 0, 0), 'proton': ('hadrons', 1, 4, '938.2721', '1e-3', 3, 0),
    'neutral_pion': ('hadrons', 0, 1, '134.977', '1e-3', 0, 1), 'charged_pion': ('hadrons', 0, 2, '139.570', '1e-3', -3, 0),
    'charged_kaon': ('hadrons', 0, 2, '493.677', '1e-3', -3, 0), 'kaon_long': ('hadrons', 0, 1, '497.611', '1e-3', 0, 1),
    'kaon_short': ('hadrons', 0, 1, '497.611', '1e-3', 0, 1), 'eta': ('hadrons', 0, 1, '547.862', '1e-3', 0, 1),
    'charged_rho': ('hadrons', 0, 6, '775.11', '2e-3', -3, 0), 'neutral_rho': ('hadrons', 0, 3, '775.26', '2e-3', 0, 1),
    'omega': ('hadrons', 0, 3, '782.66', '1e-3', 0, 1), 'eta_prime': ('hadrons', 0, 1, '957.78', '1e-3', 0, 1),
    'phi': ('hadrons', 0, 3, '1019.461', '1e-3', 0, 1),
    'neutrino_e': ('leptons', 1, 2, '0', 0, 0, 0), 'neutrino_mu': ('leptons', 1, 2, '0', 0, 0, 0), 'neutrino_tau': ('leptons', 1, 2, '0', 0, 0, 0),
    'electron': ('leptons', 1, 4, '0.510999', '1e-3', -3, 0), 'muon': ('leptons', 1, 4, '105.6584', '1e-3', -3, 0), 'tau': ('leptons', 1, 4, '1776.9', '1e-3', -3, 0),
    'up': ('quarks', 1, 12, '2.2', '0.2', 2, 0), 'down': ('quarks', 1, 12, '4.7', '0.1', -1, 0), 'charm': ('quarks', 1, 12, '1275', '0.02', 2, 0),
    'strange': ('quarks', 1, 12, '95', '0.1', -1, 0), 'top': ('quarks', 1, 12, '173000', '0.01', 2, 0), 'bottom': ('quarks', 1, 12, '4180', '0.02', -1, 0),
}
FLAVOUR = {'neutrino_e': 'electron', 'neutrino_mu': 'muon', 'neutrino_tau': 'tau', 'electron': 'electron', 'muon': 'muon', 'tau': 'tau'}
FAMILY = {'up': 1, 'down': 1, 'charm': 2, 'strange': 2, 'top': 3, 'bottom': 3}
# decay constants (MeV), allowed relative deviation; the neutral pseudoscalars mix with a sign
CONSTANTS = {'neutral_pion': ('130.2', '0.01'), 'charged_pion': ('130.2', '0.01'), 'charged_kaon': ('155.6', '0.01'), 'eta': ('81.7', '0.02'), 'eta_prime': ('-94.7', '0.02'),
             'charged_rho': ('209', '0.02'), 'neutral_rho': ('208.9', '0.02'), 'omega': ('195.5', '0.02'), 'phi': ('229.5', '0.02')}
VECTORS = ('charged_rho', 'neutral_rho', 'omega', 'phi')
CKM = {(1, 1): '0.974', (1, 2): '0.225', (1, 3): '0.0038', (2, 1): '0.225', (2, 2): '0.9735', (2, 3): '0.041', (3, 1): '0.0087', (3, 2): '0.0402', (3, 3): '0.999'}
DCKM = {(1, 1): '0.001', (1, 2): '0.002', (1, 3): '0.0004', (2, 1): '0.002', (2, 2): '0.0015', (2, 3): '0.002', (3, 1): '0.0005', (3, 2): '0.002', (3, 3): '0.001'}
# lifetime in seconds, branching ratios (of both charges of the decay products together), allowed relative deviation
DECAYS = {
    'neutral_pion': ('8.5e-17', {'γγ': 0.98823}), 'charged_pion': ('2.6033e-8', {'μν_μ': 0.999877}), 'muon': ('2.19698e-6', {'eν_eν_μ': 1.}),
    'charged_kaon': ('1.238e-8', {'π0eν_e': 0.0507, 'πππ': 0.05583, 'μν_μ': 0.6356, 'ππ0': 0.2067}),
    'kaon_long': ('5.116e-8', {'πeν_e': 0.4055, 'πμν_μ': 0.2704, 'π0π0π0': 0.1952, 'πππ0': 0.1254}),
    'kaon_short': ('8.954e-11', {'ππ': 0.6920, 'π0π0': 0.3069}),
    'eta': ('5.02e-19', {'γγ': 0.3941, 'π0π0π0': 0.3268, 'πππ0': 0.2292, 'ππγ': 0.0422}),
    'charged_rho': ('4.415e-24', {'ππ0': 1.}), 'neutral_rho': ('4.45e-24', {'ππ': 1.}), 'omega': ('7.753e-23', {'πππ0': 0.892, 'π0γ': 0.0840}),
    'eta_prime': ('3.36e-21', {'ππη': 0.426, 'ρ0γ': 0.289, 'π0π0η': 0.228}), 'phi': ('1.549e-22', {'KK': 0.489, 'K0LK0S': 0.342, 'ρ0π0': 0.1532}),
    'tau': ('2.903e-13', {}),
}
HBAR = '6.582119569e-22'      # MeV s


def close(v, name, got, want, tol):
    v.le(name + ' (not below)', want - tol, got)
    v.le(name + ' (not above)', got, want + tol)


def template(F, name):
    S = F.mod(SM).particles
    g = SPECIES[name][0]
    return getattr(getattr(S, g) if g else S, name)


def made(v, F, name):
    return F.mod('particles').Particle(**template(F, name))


@contract('C08', [SM + '.particles', 'particles.Particle.__init__'], species=sorted(SPECIES), trials=1)
def species_table(v, species):
    """statistics, degrees of freedom and mass of every species of the library are the physical ones"""
    F = v.fresh()
    ST = F.mod('common').STATISTICS
    MeV = F.mod('common').UNITS.MeV
    g, fermion, dof, mass, rel, q, own = SPECIES[species]
    p = made(v, F, species)
    v.check('statistics', p.statistics == (ST.FERMION if fermion else ST.BOSON))
    v.eq('occupation: %s' % ('1/(e+1)' if fermion else '1/(e-1)'), p.eta, 1 if fermion else -1)
    v.eq('degrees of freedom', p.dof, dof)
    if rel:
        near(v, 'mass', p.mass, v.num(mass) * MeV, rel)
    else:
        v.eq('massless', p.mass, 0)


@contract('C08', NU + '.particles', majorana=[True, False], trials=10)
def heavy_species(v, majorana):
    """two degrees of freedom for a Majorana heavy neutral lepton, four for a Dirac one, with the mass asked for"""
    F = v.fresh()
    M = v.real('M', pos=True, samples=(0.01, 2))
    th = v.real('theta', pos=True, samples=(1e-5, 1e-2))
    f = F.mod(NU).particles
    p = F.mod('particles').Particle(**(f.sterile_neutrino if majorana else f.dirac_sterile_neutrino)(M, th))
    v.check('statistics', p.statistics == F.mod('common').STATISTICS.FERMION)
    v.eq('degrees of freedom', p.dof, 2 if majorana else 4)
    v.eq('mass', p.mass, M)
    v.eq('mixing angle', p.mixing_angle, th)
    v.check('its own antiparticle', bool(p.majorana) == majorana)
    v.eq('neutral', p.Q, 0)


@contract('C22', SM + '.particles', species=sorted(SPECIES), trials=1)
def quantum_numbers(v, species):
    """charge, flavour, family and decay constant"""
    F = v.fresh()
    MeV = F.mod('common').UNITS.MeV
    g, fermion, dof, mass, rel, q, own = SPECIES[species]
    p = made(v, F, species)
    close(v, 'charge', 3 * p.Q + v.num(0), v.num(q), v.num('1e-9'))
    v.check('its own antiparticle', bool(p.majorana) == bool(own))
    if rel:
        near(v, 'mass', p.mass, v.num(mass) * MeV, rel)
    if species in FLAVOUR:
        v.check('flavour', p.flavour == FLAVOUR[species])
    if species in FAMILY:
        v.eq('family', p.family, FAMILY[species])
    if species in CONSTANTS:
        c, r = CONSTANTS[species]
        c = v.num(c)
        sg = -1 if c < 0 else 1
        near(v, 'decay constant', sg * p.decay_constant, sg * c * MeV, r)
        v.check('scalar or vector', p.type == ('vector' if species in VECTORS else 'scalar'))


@contract('C22', [SM + '.particles', 'common.CONST'], trials=1)
def weak_parameters(v):
    """quark mixing, Fermi constant, weak mixing angle and fine structure constant have their measured values"""
    F = v.fresh()
    K, U = F.mod('common').CONST, F.mod('common').UNITS
    V = F.mod(SM).particles.quarks.CKM
    n = v.num
    for k in CKM:
        close(v, 'V%s' % (k,), V[k] + n(0), n(CKM[k]), n(DCKM[k]))
    for r in (1, 2, 3):
        close(v, 'row %d is a unit vector' % r, sum([V[r, c] * V[r, c] for c in (1, 2, 3)], n(0)), n(1), n('0.01'))
        close(v, 'column %d is a unit vector' % r, sum([V[c, r] * V[c, r] for c in (1, 2, 3)], n(0)), n(1), n('0.01'))
    near(v, 'Fermi constant', K.G_F * U.GeV * U.GeV, n('1.16638e-5'), '1e-3')
    near(v, 'weak mixing', K.sin_theta_w_2, n('0.2312'), '5e-3')
    near(v, 'g_R', K.g_R, n('0.2312'), '5e-3')
    near(v, 'fine structure', K.alpha * n('137.036'), n(1), '1e-4')


@contract('C22', SM + '.interactions.baryons_interaction', trials=1)
def neutron_decay(v):
    """n -> p + e + antineutrino conserves charge"""
    F = v.fresh()
    recorded(F, SM)
    n, p, e, nu = [made(v, F, k) for k in ('neutron', 'proton', 'electron', 'neutrino_e')]
    it = F.mod(SM).interactions.baryons_interaction(neutron=n, proton=p, neutrino=nu, electron=e)
    ls = legs(it)
    v.check('neutron decays', [l[0] for l in ls if l[2] == -1] == [n])
    v.check('into proton, electron and antineutrino', Counter((l[0].name, l[1]) for l in ls if l[2] == 1) == Counter([(p.name, False), (e.name, False), (nu.name, True)]))
    v.eq('charge', charge(ls), 0)


@contract('C12', 'common.CONST', trials=1)
def oscillation_constants(v):
    """16 zeta(3) sqrt(2) G_F / (pi M_W^2) and the mass splittings"""
    K, U = v.fresh().mod('common').CONST, v.fresh().mod('common').UNITS
    n = v.num
    near(v, 'potential', K.MSW_constant * U.GeV**4, n(16) * n('1.2020569') * v.sqrt(n(2)) * n('1.16638e-5') / (v.pi * n('80.379') * n('80.379')), '6e-4')
    near(v, 'solar mass splitting', K.delta_m12_sq, n('7.37e-5') * U.eV * U.eV, '0.03')
    near(v, 'atmospheric mass splitting', K.delta_m13_sq, n('2.53e-3') * U.eV * U.eV, '0.03')


@contract('C23', SM + '.particles', species=sorted(DECAYS), trials=1)
def decay_table(v, species):
    """lifetimes and branching ratios of the unstable species are the measured ones; where the products have a charge conjugate of their own,
    the ratio given is that of one of them"""
    F = v.fresh()
    U = F.mod('common').UNITS
    tau, br = DECAYS[species]
    p = made(v, F, species)
    near(v, 'lifetime', p.lifetime, v.num(tau) * U.s, '0.02')
    if not br:
        return
    v.check('channels', Counter(frozenset(Counter(k).items()) for k in p.BR) == Counter(frozenset(Counter(k).items()) for k in br))
    for k, b in p.BR.items():
        for k2, want in br.items():
            if Counter(k) == Counter(k2):
                near(v, 'branching ratio of %s' % k2, b, v.num(want) / (2 if species == 'kaon_long' and 'ν' in k else 1), '0.02')


def lam(a, b, c):
    return a * a + b * b + c * c - 2 * (a * b + b * c + a * c)


def width(M, ms):
    """two-body phase space, or the area of the Dalitz plot: the width of a decay is this times the squared amplitude"""
    if len(ms) == 2:
        return math.sqrt(lam(M * M, ms[0]**2, ms[1]**2)) / (16 * math.pi * M**3)
    a, b, c = ms
    lo, hi = (a + b)**2, (M - c)**2
    n, tot = 4000, 0.
    for i in range(n):                  # s = lo + (hi - lo) (1 - cos x) / 2 smooths the square roots at the ends
        x = math.pi * (i + 0.5) / n
        s = lo + (hi - lo) * (1 - math.cos(x)) / 2
        if s > 0:
            tot += math.sqrt(max(0, lam(s, a * a, b * b)) * max(0, lam(M * M, s, c * c))) / s * math.sin(x) * math.pi / n * (hi - lo) / 2
    return tot / (32 * (2 * math.pi)**3 * M**3)


@contract('C23', SM + '.interactions.meson_interactions', trials=1)
def decay_amplitudes(v):
    """squared amplitude (summed over spins) times phase space is branching ratio over lifetime, for every decay of a meson"""
    F = v.fresh()
    w = world(v, F, ALL)
    MeV = F.mod('common').UNITS.MeV
    recorded(F, SM)
    I = F.mod(SM).interactions
    seen = {}

    def three(parts, antiparts, ME, kind):
        seen[tuple(p.name for p in parts)] = (parts, ME / MeV / MeV)
        return []

    def four(parts, antiparts, ME, kind):
        seen[tuple(p.name for p in parts)] = (parts, ME)
        return []
    I.three_particle_meson_decay, I.four_particle_meson_decay = three, four
    for m in w.mesons:
        I.meson_interactions(primary_mesons=[m], mesons=w.mesons, leptons=w.leptons, neutrinos=w.nus, photon=[w.photon], muon_tau=[1, 1], kind=None)
    v.check('decays found', len(seen) >= 20)
    names = {made(v, F, k).name: k for k in SPECIES}
    for parts, K in seen.values():
        k = [names[p.name] for p in parts]
        sym = Counter(''.join(p.symbol for p in parts[1:]))
        tau, br = DECAYS[k[0]]
        ratio = [b for x, b in br.items() if Counter(x) == sym]
        v.check('branching ratio known: %s' % ' '.join(k), len(ratio) == 1)
        want = ratio[0] * float(HBAR) / float(tau) / width(float(SPECIES[k[0]][3]), [float(SPECIES[x][3]) for x in k[1:]]) * (SPECIES[k[0]][2] if SPECIES[k[0]][6] else SPECIES[k[0]][2] // 2)
        lo = 0.5 if k[0] == 'kaon_long' and 'neutrino' in ' '.join(k) else 1      # for one of the charges of the pion, or for both
        v.le('%s decays fast enough' % ' '.join(k), v.num(repr(want * lo * 0.94)), K + v.num(0))
        v.le('%s decays slowly enough' % ' '.join(k), K + v.num(0), v.num(repr(want * 1.06)))
