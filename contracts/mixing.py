"""C12 -- neutrino oscillations: averaged transition probabilities."""
from vc.registry import contract

L = 'library.SM.particles.leptons'
FL = ('electron', 'muon', 'tau')
ANGLES = dict(t12='0.57636', t13='0.14715')        # global-fit values quoted by the model; theta_23 is rotated away


def probabilities(v, th12, th13):
    """sum_i |U_ai|^2 |U_bi|^2 for the mixing matrix with theta_23 = 0"""
    c12, s12, c13, s13 = v.cos(th12), v.sin(th12), v.cos(th13), v.sin(th13)
    U = {'electron': [c12 * c13, s12 * c13, s13], 'muon': [-s12, c12, v.num(0)], 'tau': [-c12 * s13, -s12 * s13, c13]}
    return {(a, b): sum([x * x * y * y for x, y in zip(U[a], U[b])], v.num(0)) for a in FL for b in FL}


def matter_angle(v, th, M):
    return v.atan(v.sin(2 * th) / (v.cos(2 * th) + M)) / 2


@contract('C12', L + '.oscillations_map', matter=[True, False], array=[True, False])
def probabilities_map(v, matter, array):
    F = v.fresh()
    f = F.mod('library.SM').particles.leptons.oscillations_map
    t12, t13 = v.num(ANGLES['t12']), v.num(ANGLES['t13'])
    n = i = None
    if array and matter:
        n = v.int('n', lo=1)
        A, B = v.array('M12', n, nonneg=True), v.array('M13', n)
        i = v.int('i', lo=0, hi=n - 1)
        M12, M13 = v.at(A, i), v.at(B, i)
    else:
        A, B = v.real('M12', nonneg=True, samples=(0, 5)), v.real('M13', samples=(-3, 3))
        M12, M13 = A, B
    for t, M in ((t12, M12), (t13, M13)):
        v.assume(v.cos(2 * t) + M != 0)
        if not v.sym:
            v.assume(abs(v.cos(2 * t) + M) > 1e-6)
    P = f(A, B, matter)
    if array and matter:
        P = {k: v.at(x, i) for k, x in P.items()}
    want = probabilities(v, matter_angle(v, t12, M12), matter_angle(v, t13, M13)) if matter else probabilities(v, t12, t13)
    v.check('every pair of flavours', set(P) == set(want))
    for a in FL:
        tot = v.num(0)
        for b in FL:
            v.eq('P(%s, %s)' % (a, b), P[a, b], want[a, b], scale=1)
            v.eq('symmetric', P[a, b], P[b, a])
            v.le('non-negative', v.num(0), want[a, b])
            tot = tot + P[a, b]
        v.eq('probabilities of %s add up to one' % a, tot, v.num(1), scale=1)


@contract('C12', L + '.oscillations_map', trials=3)
def vacuum(v):
    """without matter effects the potentials are not needed"""
    F = v.fresh()
    P = F.mod('library.SM').particles.leptons.oscillations_map(matter_effects=False)
    want = probabilities(v, v.num(ANGLES['t12']), v.num(ANGLES['t13']))
    for k in want:
        v.eq('P%s' % (k,), P[k], want[k], scale=1)
