"""C13 -- crossing of the declared interactions, matrix element bookkeeping, merging of identical processes.

A declared interaction is expanded by the real classes; the expected set of processes and the expected squared amplitude are
computed here independently, with masses, couplings and scalar products symbolic."""
import itertools
from collections import Counter

from vc.registry import contract
from vc.env import Bag
from contracts.parts import params, particle, KER4, KER3

I = 'interactions'
X = I + '.CrossGeneratingInteraction'
M4 = I + '.four_particle.FourParticleM'
U = 'common.utils'


def species(v, F, names, massless='', majorana=''):
    st = F.mod('common.statistics')
    P = F.mod('particles')
    out = {}
    for n in sorted(set(names)):
        m = v.num(0) if n in massless else v.real('m' + n, pos=True, samples=(0.1, 9))
        out[n] = P.Particle(name=n, symbol=n, mass=m, dof=2, statistics=st.FERMION, majorana=n in majorana, Q=0)
    return out


def expected(v, sp, decl, anti, Ms):
    """all (process -> squared amplitude); positions: first particle, other incoming, outgoing (each ordered by name)"""
    names = [n for side in decl for n in side]
    n0 = len(decl[0])
    antis = [x for side in anti for x in side]
    N = len(names)
    out = {}
    for r in range(1, N):
        for S in itertools.combinations(range(N), r):
            inc = list(S)
            fin = [i for i in range(N) if i not in S]
            mass = lambda l: sum([sp[names[i]].mass for i in l], v.num(0))
            if len(inc) == 1 and bool(mass(inc) <= mass(fin)):
                continue
            if len(fin) == 1 and bool(mass(fin) <= mass(inc)):
                continue
            crossed = [(i in S) != (i < n0) for i in range(N)]
            flag = [a != (c and not sp[n].majorana) if not sp[n].majorana else bool(a) and not c for a, c, n in zip(antis, crossed, names)]
            for first in inc:
                if flag[first]:
                    continue
                key = lambda i: (names[i], flag[i], i)
                order = [first] + sorted([i for i in inc if i != first], key=key) + sorted(fin, key=key)
                pos = {i: k for k, i in enumerate(order)}
                proc = (names[first], tuple(sorted(names[i] for i in inc)), tuple(sorted(names[i] for i in fin)))
                out.setdefault(proc, []).append((pos, crossed))
    return out


def amplitude(v, sp, N, Ms, pos, crossed, S):
    """squared amplitude as function of the scalar products S[i, j] and mass products of the particles at positions i, j"""
    tot = v.num(0)
    for K1, K2, K, o in Ms:
        q = [pos[i] for i in o] if pos is not None else list(o)
        sg = -1 if crossed is not None and crossed[o[0]] != crossed[o[1]] else 1
        tot = tot + K1 * S[0][q[0]][q[1]] * S[0][q[2]][q[3]] + sg * K2 * S[1][q[0]][q[1]] * S[0][q[2]][q[3]] + K
    return tot


def products(v, N):
    s, m = [[None] * N for _ in range(N)], [[None] * N for _ in range(N)]
    for i in range(N):
        for j in range(i):
            s[i][j] = s[j][i] = v.real('s%d%d' % (j, i))
            m[i][j] = m[j][i] = v.real('mm%d%d' % (j, i))
    return s, m


FOUR = [
    (('AB', 'CD'), ((0, 1), (0, 1)), '', ''),
    (('AB', 'AB'), ((0, 0), (0, 0)), 'A', ''),
    (('AA', 'BB'), ((0, 1), (0, 1)), 'A', ''),
    (('AA', 'AA'), ((0, 0), (0, 0)), 'A', ''),
    (('AA', 'AA'), ((0, 1), (0, 1)), 'A', ''),
    (('NA', 'BC'), ((0, 0), (0, 0)), 'AC', ''),
    (('N', 'ABC'), ((0,), (0, 0, 1)), '', ''),
    (('N', 'AAA'), ((0,), (0, 0, 1)), 'A', ''),
    (('NA', 'BB'), ((0, 1), (0, 1)), 'A', 'N'),
    (('N', 'BBA'), ((0,), (1, 0, 0)), 'AB', 'N'),
]
ELEMENTS = ['K1', 'K1K2', 'const', 'two', 'same', 'mixed']


def elements(v, F, kind, n=4):
    M = F.mod('interactions.four_particle').FourParticleM
    K1, K2, K = v.real('K1', pos=True), v.real('K2', pos=True), v.real('K', pos=True)
    L1, L2 = v.real('L1', pos=True), v.real('L2', pos=True)
    z = v.num(0)
    if kind == 'K1':
        el = [(K1, z, z, (0, 1, 2, 3))]
    elif kind == 'K1K2':
        el = [(K1, K2, z, (0, 3, 1, 2))]
    elif kind == 'const':
        el = [(z, z, K, (0, 1, 2, 3))]
    elif kind == 'same':
        el = [(K1, z, z, (0, 1, 2, 3)), (L1, z, z, (2, 3, 0, 1))]
    elif kind == 'mixed':
        el = [(z, z, K, (0, 1, 2, 3)), (K1, z, z, (0, 2, 1, 3))]
    else:
        el = [(K1, z, z, (0, 1, 2, 3)), (L1, L2, z, (0, 2, 1, 3))]
    return el, tuple(M(**dict([('order', o)] + [(k, x) for k, x in (('K1', a), ('K2', b), ('K', c)) if not x is z])) for a, b, c, o in el)


@contract('C13', [X + '.__init__', X + '.reactions_map', X + '.permutations', X + '.cross_particle', X + '.init_integrals',
                  I + '.IntegralDeduplicator.append', I + '.IntegralDeduplicator.__init__', I + '.IntegralDeduplicator.species',
                  M4 + '.__init__', M4 + '.apply_order', M4 + '.stackable', M4 + '.__iadd__', M4 + '.__setattr__',
                  I + '.boltzmann.BoltzmannIntegral.__init__'],
          cases=[dict(which=k, el=e) for k in range(len(FOUR)) for e in ELEMENTS], trials=12, timeout=120)
def four_particle(v, which, el):
    """every process obtained by crossing that is kinematically possible, once, with the squared amplitudes of all its copies added"""
    decl, anti, massless, majorana = FOUR[which]
    F = v.fresh()
    sp = species(v, F, ''.join(decl), massless, majorana)
    raw, Ms = elements(v, F, el)
    kept = [(M.K1, M.K2, M.K, M.order) for M in Ms]
    kind = F.mod(KER4).CollisionIntegralKind.F_1
    inter = F.mod(I).CrossGeneratingInteraction(
        name='decl', particles=tuple(tuple(sp[n] for n in side) for side in decl),
        antiparticles=tuple(tuple(bool(a) for a in side) for side in anti), Ms=Ms,
        integral_type=F.mod(I + '.four_particle').FourParticleIntegral, washout_temperature=v.real('Tw', nonneg=True), kind=kind)
    want = expected(v, sp, decl, anti, raw)
    names = {id(p): n for n, p in sp.items()}
    seen = []
    N = 4
    S = products(v, N)
    for g in inter.integrals:
        r = g.reaction
        lhs = [names[id(t.specie)] for t in r if t.side == -1]
        rhs = [names[id(t.specie)] for t in r if t.side == 1]
        proc = (names[id(g.particle)], tuple(sorted(lhs)), tuple(sorted(rhs)))
        v.check('possible process', proc in want)
        v.check('once', proc not in seen)
        seen.append(proc)
        v.check('first is the particle', r[0].specie is g.particle and r[0].side == -1 and not r[0].antiparticle)
        v.check('incoming before outgoing', [t.side for t in r] == [-1] * len(lhs) + [1] * len(rhs) and len(r) == N)
        v.check('ordered by species', lhs[1:] == sorted(lhs[1:]) and rhs == sorted(rhs))
        for n in sorted(sp):
            if not sp[n].majorana:
                net = sum((-1 if t.antiparticle else 1) * -t.side for t in r if t.specie is sp[n])
                net0 = sum((-1 if a else 1) * sd for k, sd in ((0, 1), (1, -1)) for x, a in zip(decl[k], anti[k]) if x == n)
                v.check('particle number conserved', net == net0)
            else:
                v.check('majorana', not any(t.antiparticle for t in r if t.specie is sp[n]))
        got = amplitude(v, sp, N, [(M.K1, M.K2, M.K, M.order) for M in g.Ms], None, None, S)
        exp = v.num(0)
        for pos, crossed in want[proc]:
            exp = exp + amplitude(v, sp, N, raw, pos, crossed, S)
        v.eq('squared amplitude', got, exp, scale=10)
        v.check('kind', g.kind == kind)
        v.eq('washout temperature', g.washout_temperature, inter.washout_temperature)
        v.check('sides', tuple(g.sides) == tuple(t.side for t in r))
    v.check('all processes', sorted(seen) == sorted(want))
    for M, (a, b, c, o) in zip(Ms, kept):
        v.check('declared elements untouched', M.order == o)
        v.eq('declared couplings untouched', M.K1 + M.K2 + M.K, a + b + c)


THREE = [
    (('N', 'AB'), ((0,), (0, 0)), 'A', 'N'),
    (('N', 'AA'), ((0,), (0, 1)), '', 'N'),
    (('N', 'AB'), ((0,), (0, 1)), '', ''),
    (('A', 'BB'), ((0,), (0, 0)), 'B', 'AB'),
]


@contract('C13', [X + '.__init__', X + '.reactions_map', I + '.three_particle.ThreeParticleM.__iadd__', I + '.IntegralDeduplicator.append'],
          which=list(range(len(THREE))), trials=20)
def three_particle(v, which):
    decl, anti, massless, majorana = THREE[which]
    F = v.fresh()
    sp = species(v, F, ''.join(decl), massless, majorana)
    K = v.real('K', pos=True)
    T3 = F.mod(I + '.three_particle')
    inter = F.mod(I).CrossGeneratingInteraction(
        name='decl', particles=tuple(tuple(sp[n] for n in side) for side in decl),
        antiparticles=tuple(tuple(bool(a) for a in side) for side in anti), Ms=(T3.ThreeParticleM(K=K),),
        integral_type=T3.ThreeParticleIntegral)
    want = expected(v, sp, decl, anti, None)
    names = {id(p): n for n, p in sp.items()}
    seen = []
    for g in inter.integrals:
        r = g.reaction
        lhs = [names[id(t.specie)] for t in r if t.side == -1]
        rhs = [names[id(t.specie)] for t in r if t.side == 1]
        proc = (names[id(g.particle)], tuple(sorted(lhs)), tuple(sorted(rhs)))
        v.check('possible process', proc in want)
        v.check('once', proc not in seen)
        seen.append(proc)
        v.check('first', r[0].specie is g.particle and [t.side for t in r] == [-1] * len(lhs) + [1] * len(rhs))
        v.eq('squared amplitude', sum([M.K for M in g.Ms], v.num(0)), K * len(want[proc]))
        v.check('kind', g.kind == F.mod(KER4).CollisionIntegralKind.Full)
    v.check('all processes', sorted(seen) == sorted(want))


@contract('C13', X + '.__init__', trials=2)
def kinds(v):
    """only the known kinds of collision terms are accepted; none given means the full one"""
    F = v.fresh()
    sp = species(v, F, 'NAB', 'A')
    T3 = F.mod(I + '.three_particle')
    mk = lambda **kw: F.mod(I).CrossGeneratingInteraction(
        name='x', particles=((sp['N'],), (sp['A'], sp['B'])), antiparticles=((False,), (False, False)),
        Ms=(T3.ThreeParticleM(K=v.num(1)),), integral_type=T3.ThreeParticleIntegral, **kw)
    Kd = F.mod(KER4).CollisionIntegralKind
    for nm in ('Full', 'F_1', 'F_f', 'Full_vacuum_decay', 'F_1_vacuum_decay', 'F_f_vacuum_decay', 'F_creation', 'F_decay'):
        i = mk(kind=getattr(Kd, nm))
        v.check('kind ' + nm, all(g.kind == getattr(Kd, nm) for g in i.integrals))
    v.check('default', mk(kind=None).kind == Kd.Full)
    for bad in ('Full', 17, -1):
        try:
            mk(kind=bad)
            v.check('refused', False)
        except ValueError:
            v.check('refused', True)


@contract('C13', [M4 + '.__init__', M4 + '.__iadd__', M4 + '.__imul__', M4 + '.stackable', M4 + '.apply_order', M4 + '.__setattr__'],
          perm=list(range(24)), trials=6)
def element(v, perm):
    """(i j)(k l) is symmetric within the pairs; scaling and adding act on every coupling; stacking preserves the sum"""
    F = v.fresh()
    M = F.mod(I + '.four_particle').FourParticleM
    o = list(itertools.permutations(range(4)))[perm]
    K1, K2, K, L1, L2, L, c = [v.real(n) for n in ('K1', 'K2', 'K', 'L1', 'L2', 'L', 'c')]
    S = products(v, 4)
    a = M(K1=K1, K2=K2, K=K, order=o)
    A = amplitude(v, None, 4, [(a.K1, a.K2, a.K, a.order)], None, None, S)
    v.eq('element', A, amplitude(v, None, 4, [(K1, K2, K, o)], None, None, S))
    for z in (False, True):
        b = M(K1=L1, K2=v.num(0) if z else L2, K=L, order=(0, 1, 2, 3))
        a = M(K1=K1, K2=v.num(0) if z else K2, K=K, order=o)
        A = amplitude(v, None, 4, [(a.K1, a.K2, a.K, a.order)], None, None, S)
        B = amplitude(v, None, 4, [(b.K1, b.K2, b.K, b.order)], None, None, S)
        if b.stackable(a):
            b += a
            v.eq('stacked', amplitude(v, None, 4, [(b.K1, b.K2, b.K, b.order)], None, None, S), A + B)
        else:
            v.check('equal structures are stacked', {frozenset(o[:2]), frozenset(o[2:])} != {frozenset((0, 1)), frozenset((2, 3))} or (not z and set(o[:2]) != {0, 1}))
    a *= c
    v.eq('scaled', amplitude(v, None, 4, [(a.K1, a.K2, a.K, a.order)], None, None, S), c * A)
    for cr in itertools.product((False, True), repeat=4):
        a = M(K1=K1, K2=K2, K=K, order=(0, 1, 2, 3))
        a.apply_order(o, [Bag(crossed=x) for x in cr])
        v.eq('crossing sign', amplitude(v, None, 4, [(a.K1, a.K2, a.K, a.order)], None, None, S),
             amplitude(v, None, 4, [(K1, (-1 if cr[o[0]] != cr[o[1]] else 1) * K2, K, o)], None, None, S))


@contract('C13', M4 + '.__init__', trials=1)
def meaningless_order(v):
    F = v.fresh()
    M = F.mod(I + '.four_particle').FourParticleM
    for o in ((0, 0, 1, 2), (0, 1, 2, 2), (1, 2, 1, 3)):
        try:
            M(order=o)
            v.check('refused', False)
        except Exception:
            v.check('refused', True)


@contract('C13', U + '.reaction_type', n=[3, 4], trials=2)
def classification(v, n):
    """decay: one particle in; creation: one particle out; scattering: as many in as out"""
    F = v.fresh()
    for k in range(1, n):
        r = F.mod(U).reaction_type(Bag(reaction=[Bag(side=-1)] * k + [Bag(side=1)] * (n - k)))
        v.check('decay', r.DECAY == (k == 1))
        v.check('creation', r.CREATION == (k == n - 1))
        v.check('scattering', r.SCATTERING == (2 * k == n))


@contract('C13', [U + '.interaction_filter', U + '.particle_filter'], first=[True, False], types=[None, (0,), (-2, 2)], trials=2)
def filters(v, first, types):
    F = v.fresh()
    ps = {n: Bag(name=n, symbol=n) for n in 'ABC'}
    pat = [('AB', 'AC'), ('A', 'BBC'), ('BC', 'CB'), ('BCC', 'A'), ('C', 'BB'), ('B', 'CCC')]
    for names in ([], ['A'], ['B', 'A'], ['C']):
        integrals = [Bag(reaction=[Bag(side=-1, specie=ps[x], antiparticle=False) for x in l] + [Bag(side=1, specie=ps[x], antiparticle=False) for x in r]) for l, r in pat]
        inter = Bag(integrals=list(integrals))
        kw = {} if types is None else dict(reaction_type=list(types))
        out = F.mod(U).interaction_filter(names, [inter], first_only=first, **kw)
        want = [g for g, (l, r) in zip(integrals, pat)
                if not (l[0] in names if first else any(x in names for x in l + r)) and (types is None or len(r) - len(l) not in types)]
        v.check('kept', [id(g) for g in inter.integrals] == [id(g) for g in want])
        v.check('returned', [x is inter for x in out] == [True])
        v.check('species', [p.name for p in F.mod(U).particle_filter(names, [ps[n] for n in 'CAB'])] == [n for n in 'CAB' if n not in names])
