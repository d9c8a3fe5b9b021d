"""C22 -- couplings of the library's interactions; C23 -- decay chains.

Squared amplitudes are compared with Fermi theory written down here from the fields of the process: every leg of a process is either
annihilated by a field (incoming particle, outgoing antiparticle) or by its conjugate; two left-handed currents contract the legs of the
fields with each other and those of the conjugates with each other, left- and right-handed ones contract them crosswise."""
import itertools
from collections import Counter

from vc.registry import contract
from vc.env import Bag
from contracts.parts import KER4

SM = 'library.SM'
NU = 'library.NuMSM'
FL = ('electron', 'muon', 'tau')


class Recorder(object):
    """stands for the interaction a builder declares; how it is crossed is the subject of C13"""
    def __init__(self, **kw):
        self.__dict__.update(kw)
        self.integrals = []


def recorded(F, *mods):
    for m in mods:
        F.mod(m).CrossGeneratingInteraction = Recorder


def legs(inter):
    """[(species, antiparticle, side)]"""
    out = []
    for sd, ps, an in zip((-1, 1), inter.particles, inter.antiparticles):
        assert len(ps) == len(an)
        out += [(p, bool(a), sd) for p, a in zip(ps, an)]
    return out


def annihilated(leg):
    return (leg[2] == -1) != leg[1]


def charge(ls):
    return sum([p.Q * (-sd if a else sd) for p, a, sd in ls])


def products(v, N):
    s = [[None] * N for _ in range(N)]
    for i in range(N):
        for j in range(i):
            s[i][j] = s[j][i] = v.real('s%d%d' % (j, i))
    return s


def squared(v, Ms, masses, s):
    tot = v.num(0)
    for M in Ms:
        a, b, c, d = M.order
        tot = tot + M.K1 * s[a][b] * s[c][d] + M.K2 * masses[a] * masses[b] * s[c][d] + M.K
    return tot


def fermi(v, ls, sp, masses, s, first, gL, gR=0, sign=None):
    """(ordinary pairing) gL^2 (field . field)(conj . conj) + gR^2 (crosswise) + gL gR m m (..): `first` is the line of the neutral
    leptons (two species), the other two legs are the other line"""
    f = [i for i, l in enumerate(ls) if annihilated(l)]
    c = [i for i, l in enumerate(ls) if not annihilated(l)]
    assert len(f) == len(c) == 2, ls
    i, j = first
    k, l = [x for x in range(4) if x not in first]
    assert annihilated(ls[i]) != annihilated(ls[j]) and annihilated(ls[k]) != annihilated(ls[l])
    if annihilated(ls[k]) != annihilated(ls[i]):
        k, l = l, k
    tot = gL * gL * s[i][k] * s[j][l]
    if not isinstance(gR, int):
        sg = 1 if ls[k][2] == ls[l][2] else -1
        tot = tot + gR * gR * s[i][l] * s[j][k] + sg * gL * gR * masses[k] * masses[l] * s[i][j]
    return tot * 4


def basics(v, *mods):
    F = v.fresh()
    recorded(F, *mods)
    C = F.mod('common').CONST
    theta = v.real('theta', pos=True, samples=(1e-4, 1e-2))
    return F, C, theta


def lepton(v, name, Q, flavour='electron', mass=True):
    return Bag(name=name, Q=Q, flavour=flavour, mass=v.real('m_' + name, pos=True, samples=(0.1, 5)) if mass else v.num(0), majorana=False)


def listed(x):
    return list(x) if isinstance(x, (list, tuple)) else [x]


def conjugates(v, ls1, ls2):
    a, b = [sorted((id(p), an, sd) for p, an, sd in ls) for ls in (ls1, [(p, not an, sd) for p, an, sd in ls2])]
    v.check('charge conjugate', a == b)


@contract('C22', [NU + '.interactions.sterile_active_to_leptons_NC', NU + '.interactions.sterile_quark_neutral', SM + '.interactions.neutrinos_to_leptons', NU + '.SterileM.__init__', SM + '.WeakM.__init__'],
          which=['sterile', 'active', 'up', 'down'], trials=40)
def neutral_current(v, which):
    """32 G_F^2 theta^2 . 4 [g_L^2 (field.field)(conj.conj) + g_R^2 (crosswise) + g_L g_R m m' (p.p')]; up and down quarks have the couplings
    of their charge and weak isospin"""
    F, C, theta = basics(v, SM, NU)
    I, S = F.mod(NU).interactions, F.mod(SM).interactions
    nu, N, l = lepton(v, 'nu', 0, mass=False), lepton(v, 'N', 0), lepton(v, 'l', -1)
    s2 = C.sin_theta_w_2
    kind = F.mod(KER4).CollisionIntegralKind.F_1
    gL = v.real('gL', samples=(-1, 1))
    gR = s2
    if which == 'sterile':
        got = I.sterile_active_to_leptons_NC(theta=theta, g_L=gL, sterile=N, active=nu, lepton=l, kind=kind)
    elif which == 'active':
        got = S.neutrinos_to_leptons(neutrino=nu, lepton=l, g_L=gL, kind=kind)
        theta = v.num(1)
    else:
        q = getattr(F.mod(SM).particles.quarks, which)
        l.Q = q['Q']
        T3 = v.num(1) / 2 if which == 'up' else v.num(-1) / 2
        e = v.num(2) / 3 if which == 'up' else v.num(-1) / 3
        gL, gR = T3 - e * s2, -e * s2
        got = I.sterile_quark_neutral(theta=theta, sterile=N, active=nu, quark=l, kind=kind)
    s = products(v, 4)
    for it in listed(got):
        ls = legs(it)
        v.check('charge', charge(ls) == 0)
        v.check('particles', Counter(id(p) for p, a, sd in ls) == Counter([id(nu if which == 'active' else N), id(nu), id(l), id(l)]))
        neutral = [i for i in range(4) if ls[i][0] is not l]
        m = [p.mass for p, a, sd in ls]
        v.eq('squared amplitude', squared(v, it.Ms, m, s), 32 * C.G_F * C.G_F * theta * theta * fermi(v, ls, None, m, s, neutral, gL, gR), scale=C.G_F ** 2 if not v.sym else None)
        v.check('kind', it.kind == kind)
        v.check('integral', it.integral_type is F.mod('interactions.four_particle').FourParticleIntegral)
    if which == 'sterile':
        v.check('both conjugates', len(got) == 2)
        conjugates(v, legs(got[0]), legs(got[1]))


@contract('C22', [NU + '.interactions.sterile_active_to_leptons_CC', NU + '.interactions.sterile_quark_charged', SM + '.interactions.leptons_CC', NU + '.SterileM.__init__', SM + '.WeakM.__init__'],
          which=['sterile', 'active', 'quarks'], trials=40)
def charged_current(v, which):
    """32 G_F^2 theta^2 . 4 |V|^2 (field.field)(conj.conj), with the mixing of the two quark generations"""
    F, C, theta = basics(v, SM, NU)
    I, S = F.mod(NU).interactions, F.mod(SM).interactions
    nu, N, l1, l2 = lepton(v, 'nu', 0, mass=False), lepton(v, 'N', 0), lepton(v, 'l1', -1), lepton(v, 'l2', -1, 'muon')
    kind = F.mod(KER4).CollisionIntegralKind.F_f
    V = v.num(1)
    s = products(v, 4)
    if which == 'quarks':
        for up, down in itertools.product(('up', 'charm', 'top'), ('down', 'strange', 'bottom')):
            U, D = [Bag(mass=v.real('m' + n, pos=True), **{k: x for k, x in getattr(F.mod(SM).particles.quarks, n).items() if k != 'mass'}) for n in (up, down)]
            it = I.sterile_quark_charged(theta=theta, sterile=N, lepton=l1, up=U, down=D, kind=kind)
            ls = legs(it)
            V = F.mod(SM).particles.quarks.CKM[U.family, D.family]
            v.check('particles', {id(p) for p, a, sd in ls} == {id(N), id(l1), id(U), id(D)})
            v.check('charge', abs(charge(ls)) < 1e-9)
            pair = [i for i in range(4) if ls[i][0] in (N, l1)]
            m = [p.mass for p, a, sd in ls]
            v.eq('squared amplitude', squared(v, it.Ms, m, s), 32 * C.G_F * C.G_F * theta * theta * V * V * fermi(v, ls, None, m, s, pair, 1), scale=C.G_F ** 2 if not v.sym else None)
        return
    if which == 'sterile':
        got = I.sterile_active_to_leptons_CC(theta=theta, sterile=N, active=nu, lepton1=l1, lepton2=l2, kind=kind)
        lines = (N, l1), (nu, l2)
    else:
        got = listed(S.leptons_CC(active1=nu, active2=N, lepton1=l1, lepton2=l2, kind=kind))
        lines = (nu, l1), (N, l2)
        theta = v.num(1)
    for it in got:
        ls = legs(it)
        v.check('charge', charge(ls) == 0)
        v.check('particles', {id(p) for p, a, sd in ls} == {id(N), id(nu), id(l1), id(l2)})
        for line in lines:
            v.check('lepton flavour', sum(-sd if a else sd for p, a, sd in ls if p in line) == 0)
        pair = [i for i in range(4) if ls[i][0] in lines[0]]
        m = [p.mass for p, a, sd in ls]
        v.eq('squared amplitude', squared(v, it.Ms, m, s), 32 * C.G_F * C.G_F * theta * theta * fermi(v, ls, None, m, s, pair, 1), scale=C.G_F ** 2 if not v.sym else None)
        v.check('kind', it.kind == kind)
        v.check('integral', it.integral_type is F.mod('interactions.four_particle').FourParticleIntegral)
    if which == 'sterile':
        v.check('both conjugates', len(got) == 2)
        conjugates(v, legs(got[0]), legs(got[1]))


@contract('C22', [NU + '.interactions.sterile_active_scattering', SM + '.interactions.neutrino_scattering', NU + '.SterileM.__init__', SM + '.WeakM.__init__'], sterile=[True, False], same=[True, False], trials=40)
def scattering(v, sterile, same):
    """32 G_F^2 theta^2 (1 or 2 for identical flavours) (p_in.p_in')(p_out.p_out') of left-handed neutrinos"""
    F, C, theta = basics(v, SM, NU)
    a, b, N = lepton(v, 'a', 0, mass=False), lepton(v, 'b', 0, 'muon', mass=False), lepton(v, 'N', 0)
    if same:
        b = a
    kind = F.mod(KER4).CollisionIntegralKind.Full
    if sterile:
        got = F.mod(NU).interactions.sterile_active_scattering(theta=theta, sterile=N, active_a=a, active_b=b, kind=kind)
        v.check('production and scattering', len(got) == 2)
        out = N
        v.check('once each', {tuple(sorted((id(p), sd) for p, an, sd in legs(it))) for it in got} == {tuple(sorted([(id(N), k), (id(b), k), (id(a), -k), (id(b), -k)])) for k in (-1, 1)})
    else:
        got = [F.mod(SM).interactions.neutrino_scattering(a, b, kind)]
        theta, out = v.num(1), a
    s = products(v, 4)
    for it in got:
        ls = legs(it)
        v.check('particles', Counter(id(p) for p, an, sd in ls) == Counter([id(out), id(a), id(b), id(b)]))
        v.check('flavour', not any(an for p, an, sd in ls) and all(sum(sd for p, an, sd in ls if p is x) == 0 for x in (a, b) if not sterile or (x is b and not same)))
        m = [v.num(0)] * 4
        v.eq('squared amplitude', squared(v, it.Ms, m, s), 32 * C.G_F * C.G_F * theta * theta * (2 if sterile and same else 1) * s[0][1] * s[2][3], scale=C.G_F ** 2 if not v.sym else None)
        v.check('kind', it.kind == kind)


MESONS = dict(neutral_scalar=['neutral_pion', 'eta', 'eta_prime'], charged_scalar=['charged_pion', 'charged_kaon'], neutral_vector=['neutral_rho', 'omega', 'phi'], charged_vector=['charged_rho'])


@contract('C22', [NU + '.interactions.neutral_scalar_meson', NU + '.interactions.charged_scalar_meson', NU + '.interactions.neutral_vector_meson', NU + '.interactions.charged_vector_meson'],
          cases=[dict(kind=k, meson=m) for k in MESONS for m in MESONS[k]], trials=60)
def into_meson(v, kind, meson):
    """heavy neutral lepton <-> lepton and meson: squared amplitude from the decay constant, the mixing angle and the masses; never negative
    where the process is possible"""
    F, C, theta = basics(v, SM, NU)
    N, l = lepton(v, 'N', 0), lepton(v, 'l', -1 if 'charged' in kind else 0, mass='charged' in kind)
    P = Bag(mass=v.real('m', pos=True, samples=(0.1, 5)), **{k: x for k, x in getattr(F.mod(SM).particles.hadrons, meson).items() if k not in ('mass', 'decay_constant')})
    P.decay_constant = f = v.real('f', pos=True, samples=(0.1, 2))
    kw = dict(theta=theta, sterile=N, meson=P, kind=None)
    kw['lepton' if 'charged' in kind else 'active'] = l
    got = getattr(F.mod(NU).interactions, kind + '_meson')(**kw)
    M, m, ml = N.mass * N.mass, P.mass * P.mass, l.mass * l.mass
    s2, z = C.sin_theta_w_2, v.num(0)
    G = C.G_F * theta * f
    if kind == 'neutral_scalar':
        want = G * G * M * abs(M - m)
    elif kind == 'charged_scalar':
        Vq = F.mod(SM).particles.quarks.CKM[1, 1]
        want = 2 * G * G * Vq * Vq * abs((M - ml) * (M - ml) - m * (M + ml))
    elif kind == 'neutral_vector':
        kappa = dict(neutral_rho=1 - 2 * s2, omega=4 * s2 / 3, phi=4 * s2 / 3 - 1)[meson]
        want = G * G * kappa * kappa * (M + 2 * m) * abs(M - m)
    else:
        Vq = F.mod(SM).particles.quarks.CKM[1, 1]
        want = 2 * G * G * Vq * Vq * abs((M - ml) * (M - ml) + m * (M + ml) - 2 * m * m)
    v.check('both conjugates', len(got) == 2)
    for it in got:
        ls = legs(it)
        v.check('particles', [p for p, a, sd in ls] == [N, l, P] and [sd for p, a, sd in ls] == [-1, 1, 1])
        v.check('charge', charge(ls) == 0)
        v.check('lepton number', ls[0][1] == ls[1][1])
        v.check('one matrix element', len(it.Ms) == 1)
        v.eq('squared amplitude', it.Ms[0].K, want, scale=C.G_F ** 2 if not v.sym else None)
        v.le('non-negative', z, it.Ms[0].K)
        v.check('integral', it.integral_type is F.mod('interactions.three_particle').ThreeParticleIntegral)
    conjugates(v, [(p, a and not p.majorana, sd) for p, a, sd in legs(got[0])], [(p, a if not p.majorana else True, sd) for p, a, sd in legs(got[1])])


@contract('C22', [SM + '.interactions.decay_charged_pion', SM + '.interactions.decay_neutral_pion'], trials=60)
def pions(v):
    F, C, theta = basics(v, SM, NU)
    mu, nu, ph = lepton(v, 'mu', -1, 'muon'), lepton(v, 'nu', 0, 'muon', mass=False), lepton(v, 'photon', 0, None, mass=False)
    m, f = v.real('m', pos=True, samples=(0.1, 5)), v.real('f', pos=True)
    pi, pi0 = Bag(mass=m, decay_constant=f, Q=-1, majorana=False), Bag(mass=m, decay_constant=f, Q=0, majorana=True)
    v.assume(m > mu.mass)
    V = F.mod(SM).particles.quarks.CKM[1, 1]
    got = F.mod(SM).interactions.decay_charged_pion(meson=pi, lepton=mu, neutrino=nu, kind=None)
    v.check('both conjugates', len(got) == 2)
    conjugates(v, legs(got[0]), legs(got[1]))
    for it in got:
        ls = legs(it)
        v.check('particles', [(p, sd) for p, a, sd in ls] == [(pi, -1), (mu, 1), (nu, 1)])
        v.check('charge', charge(ls) == 0)
        v.check('lepton number', ls[1][1] != ls[2][1])
        v.eq('squared amplitude', it.Ms[0].K, 2 * (C.G_F * f * V * mu.mass) ** 2 * (m * m - mu.mass * mu.mass), scale=C.G_F ** 2 if not v.sym else None)
    got = F.mod(SM).interactions.decay_neutral_pion(meson=pi0, photon=ph, kind=None)
    v.check('once', len(got) == 1)
    v.check('particles', [(p, sd) for p, a, sd in legs(got[0])] == [(pi0, -1), (ph, 1), (ph, 1)])
    v.eq('squared amplitude', got[0].Ms[0].K * 2 * v.pi * v.pi * f * f, C.alpha * C.alpha * m ** 4)


# ---------------------------------------------------------------------------------------------- sets of interactions
NUS = ('neutrino_e', 'neutrino_mu', 'neutrino_tau')
LEPTONS = ('electron', 'muon', 'tau')


def world(v, F, mesons=(), majorana=None, mass=None):
    P, S = F.mod('particles'), F.mod(SM).particles
    w = Bag(nus=[P.Particle(**getattr(S.leptons, n)) for n in NUS], leptons=[P.Particle(**getattr(S.leptons, n)) for n in LEPTONS],
            mesons=[P.Particle(**getattr(S.hadrons, n)) for n in mesons], photon=P.Particle(**S.photon), N=None)
    if mass is not None:
        tmpl = F.mod(NU).particles.sterile_neutrino if majorana else F.mod(NU).particles.dirac_sterile_neutrino
        w.N = P.Particle(**tmpl(mass, v.num(1)))
    return w


def mass_between(v, F, w, sums, k):
    """an arbitrary mass between the k-th and the next threshold; k = -1: below all"""
    t = sorted(set(sums))
    lo = t[k] if k >= 0 else None
    hi = t[k + 1] if k + 1 < len(t) else None
    MeV = F.mod('common').UNITS.MeV
    if v.sym:
        M = v.real('M', pos=True)
        if lo is not None:
            v.assume(M > lo)
        if hi is not None:
            v.assume(M < hi)
        return M
    a, b = lo or 1 * MeV, hi or 2 * lo
    return v.real('M', pos=True, samples=(float(a) * 1.0001, float(b) * 0.9999))


def leg(t):
    return (t.specie, bool(t.antiparticle), t.side)


def oriented(ls, N):
    """a Majorana particle carries no flag: whether the field or its conjugate acts follows from the other legs"""
    if N is None or not N.majorana:
        return ls
    rest = [l for l in ls if l[0] is not N]
    n = sum(annihilated(l) for l in rest)
    i = [l[0] for l in ls].index(N)
    side = ls[i][2]
    return ls[:i] + [(N, (side == -1) != (n < len(ls) / 2), side)] + ls[i + 1:]


def audit(v, w, inters):
    """every process conserves charge and is included once"""
    seen = Counter()
    out = []
    for it in inters:
        for g in it.integrals:
            ls = [leg(t) for t in g.reaction]
            seen[tuple(sorted((p.name, a, sd) for p, a, sd in ls)), g.reaction[0].specie.name] += 1
            v.check('charge is conserved', charge(ls) == 0)
            v.check('first', g.reaction[0].specie is g.particle and not ls[0][1])
            out.append((g, ls))
    v.check('no process twice', all(k == 1 for k in seen.values()))
    return out


def process(v, w, C, ls, s, thetas):
    """(mixing angle, squared amplitude) of a process of leptons according to Fermi theory; None if the legs do not form currents"""
    m = [p.mass for p, a, sd in ls]
    lep = [i for i in range(4) if ls[i][0] in w.leptons]
    neu = [i for i in range(4) if ls[i][0] in w.nus]
    st = [i for i in range(4) if ls[i][0] is w.N]
    s2 = C.sin_theta_w_2
    field = [annihilated(l) for l in ls]
    opposite = lambda pair: field[pair[0]] != field[pair[1]]
    if sum(field) != 2 or charge(ls) != 0:
        return None
    if len(lep) == 0:
        odd = [i for i in neu if sum(ls[i][0] is ls[j][0] for j in neu) != 2]
        if len(odd) == 1:
            return (thetas[ls[odd[0]][0].flavour], fermi(v, ls, None, m, s, st + odd, v.num(1) / 2)) if opposite(st + odd) else None
        a = [i for i in neu if field[i] != field[st[0]]]
        b, = [i for i in neu if i not in a]
        return thetas[ls[b][0].flavour], (2 if ls[a[0]][2] == ls[a[1]][2] else 4) * s[st[0]][b] * s[a[0]][a[1]]
    if ls[lep[0]][0] is ls[lep[1]][0]:
        if not opposite(lep):
            return None
        fl = ls[neu[0]][0].flavour
        gL = s2 + v.num(1) / 2 if ls[lep[0]][0].flavour == fl else s2 - v.num(1) / 2
        return (thetas[fl] if st else v.num(1)), fermi(v, ls, None, m, s, neu + st, gL, s2)
    la, lb = lep
    if st:
        nu = neu[0]
        if ls[la][0].flavour == ls[nu][0].flavour:
            la, lb = lb, la
        v.check('flavours', ls[lb][0].flavour == ls[nu][0].flavour)
        line, th = [st[0], la], thetas[ls[la][0].flavour]
    else:
        na = [i for i in neu if ls[i][0].flavour == ls[la][0].flavour]
        v.check('flavours', len(na) == 1)
        line, th = [na[0], la], v.num(1)
    return (th, fermi(v, ls, None, m, s, line, v.num(1))) if opposite(line) else None


def swaps(ls):
    """relabellings of indistinguishable legs other than the first"""
    return [q for q in itertools.permutations(range(4)) if q[0] == 0 and all(ls[i][0] is ls[q[i]][0] and ls[i][2] == ls[q[i]][2] for i in range(4))]


def symmetric(v, ls, amp, s):
    g = swaps(ls)
    return sum([amp([[s[q[i]][q[j]] for j in range(4)] for i in range(4)]) for q in g], v.num(0)) / len(g)


def amplitudes(v, F, w, found, thetas):
    """particles and antiparticles have the same spectra: all processes of the same species are merged and their amplitudes added"""
    C = F.mod('common').CONST
    s = products(v, 4)
    for g, ls in found:
        N0 = [annihilated(l) for l in oriented(ls, w.N) if l[0] is w.N]
        want, seen = v.num(0), set()
        for flags in itertools.product((False, True), repeat=3):
            q = [ls[0]] + [(p, a, sd) for (p, _, sd), a in zip(ls[1:], flags)]
            if w.N is not None and ls[0][0] is w.N:
                q[0] = (w.N, False, -1)
            key = tuple(sorted((p.name, a, sd) for p, a, sd in q[1:]))
            if key in seen or [annihilated(l) for l in q if l[0] is w.N] != N0:
                continue
            one = process(v, w, C, q, s, thetas)
            if one is None:
                continue
            seen.add(key)
            v.check('mixes', bool(one[0] != 0))
            want = want + one[0] * one[0] * symmetric(v, ls, lambda t: process(v, w, C, q, t, thetas)[1], s)
        v.check('an allowed process', len(seen) > 0)
        m = [p.mass for p, a, sd in ls]
        v.eq('squared amplitude', symmetric(v, ls, lambda t: squared(v, g.Ms, m, t), s), 32 * C.G_F * C.G_F * want, scale=C.G_F ** 2 if not v.sym else None)


MIX = [(1, 1, 1), (1, 0, 0), (0, 1, 1)]


def angles(v, mix):
    return {f: v.real('theta_' + f, pos=True, samples=(0.1, 1)) if on else v.num(0) for f, on in zip(FL, mix)}


def sums(w):
    m = [p.mass for p in w.leptons]
    return [x for i in range(3) for j in range(i + 1) for x in ([m[i] + m[j]] + ([m[i] - m[j]] if i > j else []))]


@contract('C22', [NU + '.interactions.sterile_leptons_interactions', SM + '.interactions.neutrino_interactions', SM + '.interactions.lepton_interactions'],
          cases=[dict(k=k, majorana=m, mix=x) for k in range(-1, 9) for m in (False, True) for x in range(len(MIX)) if x == 0 or (k in (2, 8) and not m)], trials=2)
def sterile_leptons(v, k, majorana, mix):
    """which processes of a heavy neutral lepton of any mass exist, each once, with which flavour's angle and couplings"""
    F = v.fresh()
    w0 = world(v, F)
    M = mass_between(v, F, w0, sums(w0), k)
    w = world(v, F, majorana=majorana, mass=M)
    th = angles(v, MIX[mix])
    kind = F.mod(KER4).CollisionIntegralKind.Full
    Fc = F.mod(KER4).CollisionIntegralKind.F_creation
    found = audit(v, w, F.mod(NU).interactions.sterile_leptons_interactions(thetas=th, sterile=w.N, neutrinos=w.nus, leptons=w.leptons, kind=kind))
    amplitudes(v, F, w, found, th)
    for g, ls in found:
        v.check('kind', g.kind == (Fc if g.particle.name in ('Muon', 'Tau') else kind))
        v.check('one heavy neutral lepton', sum(p is w.N for p, a, sd in ls) == 1)
    got = [tuple(sorted(p.name for p, a, sd in ls if sd == 1)) for g, ls in found if g.particle is w.N and [sd for p, a, sd in ls] == [-1, 1, 1, 1]]
    want = []
    for i, nu in enumerate(w.nus):
        for b in w.nus:
            if MIX[mix][i]:
                want.append(tuple(sorted([nu.name, b.name, b.name])))
        for l in w.leptons:
            if MIX[mix][i] and bool(M > 2 * l.mass):
                want.append(tuple(sorted([nu.name, l.name, l.name])))
    for i, a in enumerate(w.leptons):
        for b, nu in zip(w.leptons, w.nus):
            if a is not b and MIX[mix][i] and bool(M > a.mass + b.mass):
                want.append(tuple(sorted([a.name, b.name, nu.name])))
    v.check('all decays', sorted(got) == sorted(want))


@contract('C22', [SM + '.interactions.neutrino_interactions', SM + '.interactions.lepton_interactions'], leptons=[1, 2, 3], trials=2)
def active_leptons(v, leptons):
    F = v.fresh()
    w = world(v, F)
    w.leptons = w.leptons[:leptons]
    I = F.mod(SM).interactions
    inters = I.neutrino_interactions(leptons=w.leptons, neutrinos=w.nus, kind=None)
    v.check('once each', len(inters) == 6 + 3 * leptons)
    found = audit(v, w, inters)
    amplitudes(v, F, w, [(g, ls) for g, ls in found if any(p in w.leptons for p, a, sd in ls)], {})
    for nu in w.nus:
        got = sorted(tuple(p.name for p, a, sd in ls) for g, ls in found if g.particle is nu and any(p in w.leptons for p, a, sd in ls))
        # annihilation into pairs, and scattering on particles and antiparticles
        v.check('processes of a neutrino', got == sorted([(nu.name, nu.name, l.name, l.name) for l in w.leptons] + [(nu.name, l.name) + tuple(sorted((l.name, nu.name))) for l in w.leptons]))
        got = sorted(tuple(p.name for p, a, sd in ls) for g, ls in found if g.particle is nu and not any(p in w.leptons for p, a, sd in ls))
        want = [(nu.name, nu.name, nu.name, nu.name)]
        for b in w.nus:
            if b is not nu:
                want += [(nu.name, b.name) + tuple(sorted((nu.name, b.name))), (nu.name, nu.name, b.name, b.name)]
        v.check('scattering of neutrinos', got == sorted(want))
    found = audit(v, w, I.lepton_interactions(leptons=w.leptons, neutrinos=w.nus, kind=None))
    amplitudes(v, F, w, found, {})
    got = sorted((g.particle.name, tuple(sorted(p.name for p, a, sd in ls[1:]))) for g, ls in found if [sd for p, a, sd in ls] == [-1, 1, 1, 1])
    v.check('decays of leptons', got == sorted((a.name, tuple(sorted([b.name, na.name, nb.name]))) for i, (a, na) in enumerate(zip(w.leptons, w.nus)) for b, nb in list(zip(w.leptons, w.nus))[:i]))


ALL = ['neutral_pion', 'charged_pion', 'charged_kaon', 'kaon_long', 'kaon_short', 'eta', 'charged_rho', 'neutral_rho', 'omega', 'eta_prime', 'phi']


@contract('C22', NU + '.interactions.sterile_hadrons_interactions', mix=[0, 1, 2], mesons=[['neutral_pion', 'charged_pion'], ['charged_rho', 'eta', 'omega'], ['phi', 'charged_pion', 'neutral_rho', 'eta_prime']], trials=12)
def sterile_mesons(v, mix, mesons):
    """a heavy neutral lepton of any mass decays into every lepton it mixes with and every meson it is heavy enough for, once"""
    F = v.fresh()
    MeV = F.mod('common').UNITS.MeV
    M = v.real('M', pos=True, samples=(float(10 * MeV) if not v.sym else 1, float(3000 * MeV) if not v.sym else 2))
    w = world(v, F, mesons, False, M)
    th = angles(v, MIX[mix])
    K = F.mod(KER4).CollisionIntegralKind
    I = F.mod(NU).interactions
    for p in w.leptons + w.mesons:
        for q in w.mesons + w.leptons:
            v.assume(M != p.mass + q.mass)
            v.assume(M != p.mass - q.mass)
    for p in w.mesons:
        v.assume(M != p.mass)
    found = audit(v, w, I.sterile_hadrons_interactions(thetas=th, sterile=w.N, neutrinos=w.nus, leptons=w.leptons, mesons=w.mesons, kind=K.Full))
    got = []
    for g, ls in found:
        v.check('particles', len(ls) == 3 and sum(p is w.N for p, a, sd in ls) == 1 and sum(p in w.mesons for p, a, sd in ls) == 1)
        meson, = [p for p, a, sd in ls if p in w.mesons]
        l, = [p for p, a, sd in ls if p is not meson and p is not w.N]
        t = th[l.flavour]
        v.check('mixes', bool(t != 0))
        builder = getattr(I, ('neutral_' if meson.Q == 0 else 'charged_') + meson.type + '_meson')
        ref = builder(theta=t, sterile=w.N, meson=meson, kind=K.Full, **{'active' if meson.Q == 0 else 'lepton': l})       # contract `into_meson`
        v.check('one matrix element', len(g.Ms) == 1)
        v.eq('squared amplitude', g.Ms[0].K, ref[0].Ms[0].K)
        creation = [sd for p, a, sd in ls] == [-1, -1, 1]
        v.check('kind', g.kind == (K.Full if not hasattr(g.particle, 'fast_decay') else K.F_creation if creation else K.F_decay))
        if g.particle is w.N and not creation:
            got.append((l.name, meson.name))
    want = [(l.name, m.name) for m in w.mesons for l, on in zip(w.nus if m.Q == 0 else w.leptons, MIX[mix]) if on and bool(M > l.mass + m.mass)]
    v.check('all decays', sorted(got) == sorted(want))


@contract('C22', NU + '.interactions.sterile_quark_interactions', mix=[0, 1, 2], trials=2)
def sterile_quarks(v, mix):
    """every quark flavour once per mixing flavour in neutral currents, every pair of up- and down-type quarks once in charged ones"""
    F = v.fresh()
    recorded(F, SM, NU)
    S = F.mod(SM).particles
    th = angles(v, MIX[mix])
    q = [Bag(**getattr(S.quarks, n)) for n in ('up', 'down', 'charm', 'strange', 'top', 'bottom')]
    nus = [Bag(**getattr(S.leptons, n)) for n in NUS]
    ls = [Bag(**getattr(S.leptons, n)) for n in LEPTONS]
    N = Bag(name='N', Q=0, mass=v.real('M', pos=True))
    I = F.mod(NU).interactions
    got = I.sterile_quark_interactions(thetas=th, sterile=N, neutrinos=nus, leptons=ls, quarks=q, kind=None)
    seen = []
    for it in got:
        names = [p.name for p, a, sd in legs(it)]
        l = legs(it)[1][0]
        t = th[l.flavour]
        v.check('mixes', bool(t != 0))
        if l in nus:
            ref = I.sterile_quark_neutral(theta=t, sterile=N, active=l, quark=legs(it)[2][0])
        else:
            ref = I.sterile_quark_charged(theta=t, sterile=N, lepton=l, up=legs(it)[2][0], down=legs(it)[3][0])
        v.check('process', [(id(p), a, sd) for p, a, sd in legs(it)] == [(id(p), a, sd) for p, a, sd in legs(ref)])
        for A, B in zip(it.Ms, ref.Ms):
            v.eq('amplitude', A.K1 + A.K2 + A.K, B.K1 + B.K2 + B.K)
        seen.append(tuple(names))
    n = sum(MIX[mix])
    v.check('all, once', len(seen) == len(set(seen)) == n * 6 + n * 9)


# ---------------------------------------------------------------------------------------------- C23
def contents(key, symbols):
    out = []
    while key:
        x = next(t for t in symbols if key.startswith(t))
        out.append(x)
        key = key[len(x):]
    return out


def chain(v, F, w, inters, symbolic=True):
    """number of every product injected per decay of every unstable species, from the branching ratios of its channels"""
    U, Kin = F.mod('common.utils'), F.mod('common.kinematics')
    found = audit(v, w, inters)
    sp = {p.symbol: p for p in w.nus + w.leptons + w.mesons + [w.photon]}
    symbols = sorted(sp, key=len, reverse=True)
    injected, expected, total, decays = {}, {}, {}, Counter()
    for g, ls in found:
        t = U.reaction_type(g)
        if not (t.CREATION or t.DECAY):
            continue
        X = g.reaction[0 if t.DECAY else -1].specie
        names = Counter(''.join(x.specie.symbol for x in g.reaction if x.specie is not X))
        keys = [k for k in X.BR if Counter(k) == names]
        v.check('one branching ratio', len(keys) == 1)
        b = X.BR[keys[0]]
        if t.CREATION:
            k = (X.symbol, g.particle.symbol)
            mult = Kin.CollisionMultiplier3p(g) if len(ls) == 3 else Kin.CollisionMultiplier4p(g)
            injected[k] = injected.get(k, 0) + b * mult
        else:
            v.check('decay', g.particle is X)
            total[X.symbol] = total.get(X.symbol, 0) + b
            decays[X.symbol, keys[0]] += 1
            for y in contents(keys[0], symbols):
                # a charged parent stands for both charges, a product which is not its own antiparticle is counted per charge
                n = 1 if X.majorana == sp[y].majorana == True else v.num(1) / 2 if X.majorana else 2 if sp[y].majorana else 1
                expected[X.symbol, y] = expected.get((X.symbol, y), 0) + b * n
    v.check('every product is injected', set(injected) == set(expected))
    for k in expected:
        v.eq('number of products', injected.get(k, v.num(0)), expected[k])
    for k, x in total.items():
        v.check('channels', sorted(set(kk for p, kk in decays if p == k)) == sorted(sp[k].BR))
    return found, total


def decaying(w):
    return [p for p in w.mesons + w.leptons if hasattr(p, 'BR')]


PRIM = [[m] for m in ALL] + [['charged_kaon', 'charged_pion'], ['charged_pion', 'charged_kaon'], ['phi', 'charged_kaon', 'kaon_long', 'neutral_rho', 'eta_prime'], ['eta', 'omega', 'charged_rho', 'neutral_pion'],
        ['neutral_pion', 'charged_pion', 'eta', 'eta_prime', 'phi'], list(reversed(ALL))]


@contract('C23', [SM + '.interactions.meson_interactions', SM + '.interactions.four_particle_meson_decay', SM + '.interactions.three_particle_meson_decay', SM + '.interactions.decay_charged_pion',
                  SM + '.interactions.decay_neutral_pion', SM + '.interactions.lepton_interactions', 'common.kinematics.CollisionMultiplier3p', 'common.kinematics.CollisionMultiplier4p'],
          cases=[dict(primary=p, heavy=h) for p in PRIM for h in ((0, 0), (1, 0), (0, 1)) if h == (0, 0) or len(p) == 2], trials=3)
def meson_chain(v, primary, heavy):
    """whatever the branching ratios: every species appearing in the chain decays, once per channel, and its products are injected in the
    numbers of its channels"""
    F = v.fresh()
    w = world(v, F, ALL)
    for p in decaying(w):
        p.BR = {k: v.real('BR_%s_%s' % (p.symbol, k), pos=True, samples=(0, 1)) for k in p.BR}
    inters = F.mod(SM).interactions.meson_interactions(
        primary_mesons=[w.mesons[ALL.index(p)] for p in primary], mesons=w.mesons, leptons=w.leptons, neutrinos=w.nus, photon=[w.photon], muon_tau=list(heavy), kind=F.mod(KER4).CollisionIntegralKind.F_decay)
    if any(heavy):          # their decays are included by the caller
        inters = inters + F.mod(SM).interactions.lepton_interactions(leptons=w.leptons, neutrinos=w.nus, kind=None)
    inters = without_tau(inters)
    found, total = chain(v, F, w, inters)
    present = {p.symbol for g, ls in found for p, a, sd in ls}
    v.check('primary mesons are included', all(w.mesons[ALL.index(p)].symbol in present for p in primary))
    for p in decaying(w):
        v.check('everything decays', (p.symbol in present) == (p.symbol in total))


def without_tau(inters):
    """no branching ratios are given for the tau lepton"""
    for it in inters:
        it.integrals = [g for g in it.integrals if not any(t.specie.name == 'Tau' for t in g.reaction)]
    return inters


@contract('C23', SM + '.particles', trials=1)
def branching_ratios(v):
    """the channels included account for nine tenths of the decays at least, and for all of them at most"""
    F = v.fresh()
    w = world(v, F, ALL)
    inters = without_tau(F.mod(SM).interactions.meson_interactions(primary_mesons=w.mesons, mesons=w.mesons, leptons=w.leptons, neutrinos=w.nus, photon=[w.photon], muon_tau=[0, 0], kind=None))
    found, total = chain(v, F, w, inters)
    for p in decaying(w):
        v.check('decays of %s' % p.name, p.symbol in total)
        v.le('nine tenths at least', v.num(9) / 10, total[p.symbol])
        v.le('all at most', total[p.symbol], v.num('1.0001'))
        for b in p.BR.values():
            v.check('positive', bool(b > 0))
        v.check('short lifetime', bool(p.lifetime > 0) and bool(p.lifetime < F.mod('common').UNITS.s))


@contract('C23', NU + '.interactions.interactions_decay_products',
          cases=[dict(mesons=m, dec=d, kind=k, mix=x) for m in ([], ['charged_pion', 'neutral_pion'], ['phi', 'eta', 'charged_rho']) for d in (False, True) for x in (0, 1) for k in ('F_decay', 'F_1_vacuum_decay', 'F_f_vacuum_decay', 'Full')
                 if (k == 'F_decay' or (x == 0 and not d))], trials=3)
def secondary(v, mesons, dec, kind, mix):
    """decay products of the particles made by heavy neutral leptons: unstable ones decay (muons unless decayed by the caller), nothing
    else happens to them, and the terms are those for creation and for decay"""
    F = v.fresh()
    MeV = F.mod('common').UNITS.MeV
    M = v.real('M', pos=True, samples=(float(1030 * MeV) if not v.sym else 1, float(1100 * MeV) if not v.sym else 2))
    v.assume(M > 1030 * MeV)
    v.assume(M < 1100 * MeV)
    w = world(v, F, ALL, False, M)
    w.leptons = w.leptons[:2]
    used = [w.mesons[ALL.index(m)] for m in mesons]
    th = angles(v, MIX[mix])
    K = F.mod(KER4).CollisionIntegralKind
    I = F.mod(NU).interactions
    first = [I.sterile_leptons_interactions(thetas=th, sterile=w.N, neutrinos=w.nus, leptons=w.leptons if mix == 0 else w.leptons[:1], kind=K.Full)]
    if mesons:
        first.append(I.sterile_hadrons_interactions(thetas=th, sterile=w.N, neutrinos=w.nus, leptons=w.leptons if mix == 0 else w.leptons[:1], mesons=used, kind=K.Full))
    made = {t.specie.name for m in first for it in m for g in it.integrals for t in g.reaction if t.side == 1}
    before = [[id(g) for g in it.integrals] for m in first for it in m]
    got = I.interactions_decay_products(interactions_primary=first, interactions_SM=[], muon_dec=dec, neutrinos=w.nus, leptons=w.leptons, mesons=w.mesons, photon=[w.photon], kind=getattr(K, kind))
    v.check('primary interactions untouched', before == [[id(g) for g in it.integrals] for m in first for it in m])
    vac = kind in ('F_1_vacuum_decay', 'F_f_vacuum_decay')
    U = F.mod('common.utils')
    for it in got:
        for g in it.integrals:
            t = U.reaction_type(g)
            v.check('creation or decay', t.CREATION or t.DECAY)
            v.check('kind', g.kind == ((K.F_1_vacuum_decay if vac else K.F_creation) if t.CREATION else (K.F_f_vacuum_decay if vac else K.F_decay)))
    found, total = chain(v, F, w, got)
    want = {m.symbol for m in used}
    names = {p.name: p.symbol for p in w.mesons}
    grow = True
    muon = ('Muon' in made) and not dec
    while grow:
        grow = False
        for g, ls in found:
            if ls[0][0].symbol in want and [sd for p, a, sd in ls].count(1) == len(ls) - 1:
                for p, a, sd in ls[1:]:
                    if hasattr(p, 'BR') and p.symbol not in want and not (dec and p.name == 'Muon'):
                        want.add(p.symbol)
                        grow = True
    if muon:
        want.add(w.leptons[1].symbol)
    v.check('what decays', set(total) == want)
