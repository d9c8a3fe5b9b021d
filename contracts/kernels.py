"""C14 -- the compiled collision kernels: Boltzmann integrand, region of integration, assembly of the rate.

The C++ functions are translated mechanically from /repo's current source on every run (vc/cpp.py); concrete runs use the
same source compiled by g++.  The adaptive quadrature (GSL) is an assumed contract: it returns the integral of the function
it is given between the bounds it is given."""
from vc.registry import contract
from vc.env import Bag

MOD = {4: 'cppfour', 3: 'cppthree'}
DIR = {4: 'interactions/four_particle/cpp/integral.cpp ', 3: 'interactions/three_particle/cpp/integral.cpp '}
ENUM = {4: 'CollisionIntegralKind__', 3: 'CollisionIntegralKind_3__'}
KINDS = ['Full', 'F_1', 'F_f', 'Full_vacuum_decay', 'F_1_vacuum_decay', 'F_f_vacuum_decay', 'F_creation', 'F_decay']
SIDES = {4: {'decay': [-1, 1, 1, 1], 'scattering': [-1, -1, 1, 1], 'creation': [-1, -1, -1, 1]},
         3: {'decay': [-1, 1, 1], 'creation': [-1, -1, 1]}}
GRID = [0., 0.3, 0.7, 1.5, 3., 6., 12., 25., 60.]


def mass(r):
    return r.choice([0., 0., 0.5, 1., 3., 8.]) * r.choice([1., 1., r.uniform(0.8, 1.2)])


def reaction(v, k, sides, masses=None, eq=False, eta=None):
    """participants; in a proof a distribution is an arbitrary non-negative function of momentum"""
    out = []
    for i, s in enumerate(sides):
        m = masses[i] if masses and masses[i] is not None else v.real('m%d' % i, nonneg=True, samples=mass)
        e = eta[i] if eta else v.real('eta%d' % i) if v.sym else v.choice('eta%d' % i, [1, -1])
        if v.sym and not eta:
            v.assume(v.lor(e == 1, e == -1))
        sp = Bag(m=m, eta=e, in_equilibrium=1 if eq else 0, T=v.real('T', pos=True, samples=(0.5, 3)) if not v.sym or eq else v.real('T%d' % i, pos=True))
        if not v.sym:
            a, b = v.real('a%d' % i, lo=0.1, hi=0.9), v.real('b%d' % i, lo=0.2, hi=2.)
            sp.grid = Bag(grid=GRID, distribution=[a / (1 + b * q * q) for q in GRID])
        out.append(Bag(specie=sp, side=s))
    return out


def opaque(v, K, k, R):
    """kernels and interpolation by their own contracts (C15, C05): arbitrary functions here"""
    if not v.sym:
        f2 = K.distribution_interpolation__2
        return [lambda p, s=r.specie: f2(s, p) for r in R]
    fs = []
    for i, r in enumerate(R):
        g = v.func('f%d' % i, 1)
        fs.append(g)
        r.specie.tag = i
        r.specie.grid = Bag(grid=['grid', i], distribution=['f', i])

    def two(sp, p):
        x = fs[sp.tag](p)
        v.assume(x >= 0)
        return x

    def seven(grid, dist, p, m, eta, T, eq):
        for r in R:
            if r.specie.grid.grid is grid and r.specie.grid.distribution is dist and r.specie.m is m:
                return two(r.specie, p)
        raise TypeError('distribution of an unknown species')
    K.distribution_interpolation__2, K.distribution_interpolation = two, seven
    if k == 4:
        for name in ('D', 'Db'):
            def angular(p, E, m, K1, K2, order, sides, name=name):
                tag = name + ''.join(map(str, order)) + ''.join('+' if int(s) > 0 else '-' for s in sides)
                return v.func(tag, 14)(*(list(p) + list(E) + list(m) + [K1, K2]))
            setattr(K, name, angular)
    return [lambda p, s=r.specie: two(s, p) for r in R]


def functional(kind, sides, eta, f):
    """gain minus loss, or the part of it a kind selects"""
    def prod(s, skip=None):
        t = 1
        for i in range(len(f)):
            if i != skip:
                t = t * (f[i] if sides[i] == s else 1 - eta[i] * f[i])
        return t
    gain, loss = prod(1), prod(-1)
    return {'Full': lambda: gain - loss, 'F_1': lambda: prod(1, 0), 'F_f': lambda: -1 * prod(-1, 0) - eta[0] * prod(1, 0),
            'F_creation': lambda: gain, 'F_decay': lambda: -1 * prod(-1, 0), 'F_1_vacuum_decay': lambda: f[-1],
            'F_f_vacuum_decay': lambda: -1, 'Full_vacuum_decay': lambda: f[-1] - f[0]}[kind]()


def energies(v, p, m, sides):
    """energies and the momentum of the last participant, fixed by energy conservation"""
    n = len(sides)
    E = [v.sqrt(p[i] * p[i] + m[i] * m[i]) for i in range(n - 1)]
    last = v.num(0)
    for e, s in zip(E, sides):
        last = last - sides[-1] * s * e
    return E, last


def inside(v, p):
    """momenta can add up to zero (strictly), or cannot (strictly)"""
    yes, no = [], []
    eps = v.num(0) if v.sym else 1e-9 * sum(p)      # rounding decides at the edge
    for i in range(len(p)):
        rest = sum(q for j, q in enumerate(p) if j != i)
        yes.append(p[i] < rest - eps)
        no.append(p[i] > rest + eps)
    return v.land(*yes), v.lor(*no)


def point(v, k):
    names = ['p0', 'p1', 'p2'][:k - 1]
    return [v.real(n, nonneg=True, pos=i > 0, samples=(0.05, 5)) for i, n in enumerate(names)]


def allowed(v, p, E, last, m):
    """None outside, else all momenta and energies; edges of the region (measure zero) are not specified"""
    v.assume(last != m[-1] if v.sym else abs(last - m[-1]) > 1e-9 * sum(map(abs, E)))
    if not last >= m[-1]:
        return None
    q = p + [v.sqrt(last * last - m[-1] * m[-1])]
    a, b = inside(v, q)
    v.assume(v.lor(a, b))
    if b:
        return None
    return q, E + [last]


@contract('C14', DIR[4] + 'integrand_full', kind=KINDS, process=list(SIDES[4]) + ['mixed'], trials=60, max_paths=2000)
def integrand_four(v, kind, process):
    """Jacobian x angular kernel x (gain - loss) on the shell of energy conservation, zero outside"""
    sides = SIDES[4].get(process, [-1, 1, -1, 1])
    K = v.mod(MOD[4])
    R = reaction(v, 4, sides)
    f = opaque(v, K, 4, R)
    p = point(v, 4)
    m = [r.specie.m for r in R]
    const = v.choice('constant', [False, True])
    if const:
        Ms = [Bag(order=[0, 1, 2, 3], K1=v.num(0), K2=v.num(0), K=v.real('K'))]
        v.assume(Ms[0].K != 0)
    else:
        Ms = [Bag(order=o, K1=v.real('K1%d' % i), K2=v.real('K2%d' % i), K=v.num(0)) for i, o in enumerate(([0, 3, 1, 2], [0, 1, 2, 3]))]
    E, last = energies(v, p, m, sides)
    at = allowed(v, p, E, last, m)
    got = K.integrand_full(*(p + [R, Ms, v.attr(K, ENUM[4] + kind)]))
    if at is None:
        v.eq('zero where forbidden', got, v.num(0))
        return
    q, e = at
    jac = v.num(1)
    for i in (1, 2):
        if m[i] != 0:
            jac = jac * q[i] / e[i]
    if const:
        ds = Ms[0].K
    else:
        ds = v.num(0)
        for M in Ms:
            ds = ds + (K.D if p[0] != 0 else K.Db)(q, e, m, M.K1, M.K2, M.order, sides)
        if p[0] != 0:
            ds = ds / (p[0] * e[0])
    F = functional(kind, sides, [r.specie.eta for r in R], [g(x) for g, x in zip(f, q)])
    v.eq('Boltzmann integrand', got, jac * ds * F, tol=1e-6, scale=None if v.sym else 1e-3 * abs(jac * ds))


@contract('C14', DIR[3] + 'integrand_full', kind=KINDS, process=list(SIDES[3]) + ['mixed'], trials=60, max_paths=2000)
def integrand_three(v, kind, process):
    """2 p1/E1 / (p0 E0) x (gain - loss) on the shell of energy conservation, zero outside; p1 x functional at rest"""
    sides = SIDES[3].get(process, [-1, 1, -1])
    K = v.mod(MOD[3])
    R = reaction(v, 3, sides)
    f = opaque(v, K, 3, R)
    p = point(v, 3)
    m = [r.specie.m for r in R]
    E, last = energies(v, p, m, sides)
    if p[0] == 0:
        # at rest the momentum of the second particle is fixed by the caller
        v.assume(last != m[-1] if v.sym else abs(last - m[-1]) > 1e-9 * sum(map(abs, E)))
        at = None if not last >= m[-1] else (p + [v.sqrt(last * last - m[-1] * m[-1])], E + [last])
    else:
        at = allowed(v, p, E, last, m)
    got = K.integrand_full(p[0], p[1], v.attr(K, ENUM[3] + kind), R)
    if at is None:
        v.eq('zero where forbidden', got, v.num(0))
        return
    q, e = at
    if p[0] == 0:
        jac = q[1]
    else:
        jac = v.num(2) / (p[0] * e[0])
        if m[1] != 0:
            jac = jac * q[1] / e[1]
    F = functional(kind, sides, [r.specie.eta for r in R], [g(x) for g, x in zip(f, q)])
    v.eq('Boltzmann integrand', got, jac * F, tol=1e-6, scale=None if v.sym else 1e-3 * abs(jac))


@contract('C14', [DIR[k] + 'integrand_full' for k in (4, 3)], k=[4, 3], process=list(SIDES[4]), trials=60, max_paths=2000)
def detailed_balance(v, k, process):
    """thermal distributions of one temperature are left alone by every reaction.  In a proof f = 1/(x + eta), x = exp(E/T), by
    the contract of the interpolation (C05); energy conservation (integrand_four, integrand_three) makes the products of the x
    of the initial and final state equal"""
    if process not in SIDES[k]:
        v.check('no such process', True)
        return
    sides = SIDES[k][process]
    K = v.mod(MOD[k])
    T = v.real('T', pos=True, samples=(0.5, 3))
    R = []
    for i, s in enumerate(sides):
        m = v.real('m%d' % i, nonneg=True, pos=v.sym, samples=mass)
        R.append(Bag(specie=Bag(m=m, eta=v.real('eta%d' % i) if v.sym else v.choice('eta%d' % i, [1, -1]), in_equilibrium=1, T=T, grid=Bag(grid=[v.num(0)], distribution=[v.num(0)])), side=s))
    p, m = point(v, k), [r.specie.m for r in R]
    E, last = energies(v, p, m, sides)
    if v.sym:
        x = [v.real('x%d' % i, pos=True) for i in range(k - 1)]
        t = v.num(1)
        for i in range(k - 1):
            t = t * x[i] if sides[i] == -1 else t / x[i]
        x.append(t)         # the last participant is a product in all three patterns
        for i, r in enumerate(R):
            v.assume(x[i] + r.specie.eta > 0)
            r.specie.tag = i
        v.assume(last > m[-1])
        v.assume(inside(v, p + [v.sqrt(last * last - m[-1] * m[-1])])[0])       # elsewhere zero, by integrand_*
        f = [1 / (x[i] + r.specie.eta) for i, r in enumerate(R)]
        for y in f:
            v.assume(y > 0)
        K.distribution_interpolation__2 = lambda sp, q: f[sp.tag]
        g = v.func('angular', 1)
        if k == 4:
            K.D = K.Db = lambda *a: g(v.num(0))
    else:
        for e in E + [last]:
            v.assume(e > 0.05)

    def value(kind):
        kind = v.attr(K, ENUM[k] + kind)
        if k == 3:
            return K.integrand_full(p[0], p[1], kind, R)
        return K.integrand_full(*(p + [R, [Bag(order=[0, 1, 2, 3], K1=v.num(1), K2=v.num(0), K=v.num(0))], kind]))
    v.eq('no net rate', value('Full'), v.num(0), scale=None if v.sym else 1e3 * abs(value('F_creation')) + 1e-12)


@contract('C14', [DIR[k] + 'F_A, F_B' for k in (4, 3)], k=[4, 3], where=[0, 1, 2, 3], trials=60)
def negative_occupation(v, k, where):
    """a negative occupation number is reported instead of entering a rate"""
    if where >= k:
        v.check('no such particle', True)
        return
    sides = SIDES[k]['decay']
    K = v.mod(MOD[k])
    R = reaction(v, k, sides)
    f = [v.real('f%d' % i, nonneg=i != where, samples=(0.1, 0.9) if i != where else (-1, -0.01)) for i in range(k)]
    v.assume(f[where] < 0)
    for name in ('F_creation',) + (('F_1', 'F_f', 'F_decay') if where else ()):
        kind, e = v.calls(v.attr(K, name), R, f)
        v.check(name + ' reported', kind == 'exc')


# ---- region of integration, three particles ---------------------------------------------------------------------------

def batch(v, n, pos=False):
    """a list of momenta and one of them"""
    ps = v.list('p', n, nonneg=not pos, pos=pos) if v.sym else v.list('p', n, nonneg=True, gen=lambda r, n: [r.choice([0., r.uniform(0.05, 8)]) for _ in range(n)])
    i = v.int('i', lo=0, hi=None if v.sym else n - 1)
    v.assume(i < n)
    return ps, i, v.at(ps, i)


def setup(v, k, process, kind='F_f', pos=False, masses=None):
    sides = SIDES[k][process]
    K = v.mod(MOD[k])
    if not v.sym and process in ('decay', 'creation'):
        # sample possible reactions
        masses = list(masses or [None] * k)
        j = 0 if process == 'decay' else k - 1
        for a in range(k):
            if a != j and masses[a] is None:
                masses[a] = v.real('m%d' % a, nonneg=True, samples=mass)
        masses[j] = sum(masses[:j] + masses[j + 1:]) + v.real('gap', pos=True, samples=(0.1, 5))
    R = reaction(v, k, sides, masses)
    n = v.int('n', lo=1, span=3)
    ps, i, p0 = batch(v, n, pos)
    f = opaque(v, K, k, R)
    if v.sym:
        K.cpp_state.index = i
    return K, R, [r.specie.m for r in R], ps, i, p0, v.attr(K, ENUM[k] + kind)


def on_shell(v, process, m, third):
    """the reaction is possible: the heaviest participant can turn into the others"""
    if process == 'decay':
        v.assume(m[0] > sum(m[1:]))
    elif process == 'creation':
        v.assume(m[-1] > sum(m[:-1]))


def run3(v, K, R, ps, i, kind, lo, hi, top, step, handler, p1=None):
    """call the kernel; -> (value for momentum i, the quadrature made for it or None)"""
    made = []

    def qag(f, a, b, epsabs, epsrel):
        made.append((f(p1) if p1 is not None else None, a, b, epsabs, epsrel))
        return handler(len(made), f, a, b)
    K.qag = qag
    res = K.integration_3(ps, lo, hi, top, R, step, kind)
    v.eq('one value per momentum', v.len(res), v.len(ps))
    return v.at(res, i), made


@contract('C14', DIR[3] + 'integration_3', process=list(SIDES[3]), trials=120, timeout=150)
def rate_three(v, process):
    """the rate at each momentum is the integral of the integrand at that momentum; at rest its value at the two-body momentum"""
    kind = v.choice('kind', KINDS) if not v.sym else 'Full'
    K, R, m, ps, i, p0, kind = setup(v, 3, process, kind)
    if v.sym:
        kind = v.int('kind')
    on_shell(v, process, m, 3)
    top = v.real('max_2', pos=True, samples=(1, 60))
    p1 = v.real('p1', pos=True, samples=(0.05, 5))
    if v.sym:
        G = v.func('integrand', 2)

        def integrand(a, b, kd, reaction):
            v.check('same reaction and kind', reaction is R and kd == kind)
            return G(a, b)
        K.integrand_full = integrand
        got, made = run3(v, K, R, ps, i, kind, v.real('min_1'), v.real('max_1'), top, v.real('stepsize', pos=True), lambda n, f, a, b: v.real('I'), p1)
        want = v.real('I')
    else:
        got, made = run3(v, K, R, ps, i, kind, 0., 1., top, 1., lambda n, f, a, b: float(n), p1)
        made = made[int(got) - 1:int(got)] if p0 != 0 and got != 0 else []
        want = got
    if p0 == 0:
        v.check('no integration at rest', not made)
        if m[0] == 0:
            P = v.num(0)
        else:
            q = m[0] * m[0] - m[1] * m[1] - m[2] * m[2]
            P = v.sqrt(q * q - 4 * m[1] * m[1] * m[2] * m[2]) / (2 * m[0])
        v.eq('value at the two-body momentum', got, K.integrand_full(p0, P, kind, R), tol=1e-5)
    elif not made:
        v.eq('nothing to integrate', got, v.num(0))
    else:
        f, a, b, epsabs, epsrel = made[0]
        v.check('one quadrature', len(made) == 1)
        v.eq('value of the quadrature', got, want)
        v.eq('its integrand', f, K.integrand_full(p0, p1, kind, R))
        v.check('accuracy asked for', v.land(epsrel > 0, epsrel * 100 <= 1))


def two_body(v, B, p, E, m, q, e, n):
    """|B - 2 E e| < 2 p q  (momenta p, q and the third one make a triangle, E^2 = p^2 + m^2) bounds q by (+-p B + root) / 2 m^2,
    root^2 = T = E^2 (B^2 - 4 m^2 n^2).  -> (+-lower bound, upper bound)"""
    def prem(B, p, E, m, q, e, n):
        return [p >= 0, q > 0, E > 0, e >= 0, m > 0, v.is_eq(E * E, p * p + m * m), v.is_eq(e * e, q * q + n * n), B - 2 * E * e < 2 * p * q, 2 * E * e - B < 2 * p * q]

    def bounds(B, p, E, m, q, e, n):
        T = (p * p + m * m) * (B * B - 4 * m * m * n * n)
        X, Y = 2 * m * m * q - p * B, 2 * m * m * q + p * B
        return [T > X * X, Y * Y > T, Y >= 0, T >= 0]
    v.lemma('products', lambda B, p, E, m, q, e, n: prem(B, p, E, m, q, e, n)[:7], lambda B, p, E, m, q, e, n: [E * e >= p * q], B, p, E, m, q, e, n)
    v.lemma('two-body', lambda *a: prem(*a) + [a[2] * a[5] >= a[1] * a[4]], bounds, B, p, E, m, q, e, n)
    T = (p * p + m * m) * (B * B - 4 * m * m * n * n)
    Z = v.sqrt(T)

    def roots(Z, T, B, p, m, q):
        X, Y = 2 * m * m * q - p * B, 2 * m * m * q + p * B
        return [m > 0, T > X * X, Y * Y > T, Y >= 0, Z >= 0, v.is_eq(Z * Z, T)]
    v.lemma('roots', roots, lambda Z, T, B, p, m, q: [(Z - p * B) / (2 * m * m) < q, (p * B - Z) / (2 * m * m) < q, q < (p * B + Z) / (2 * m * m)], Z, T, B, p, m, q)
    return (Z - p * B) / (2 * m * m), (p * B - Z) / (2 * m * m), (p * B + Z) / (2 * m * m)


def triangle(v, p, q, r, w):
    v.lemma('triangle', lambda p, q, r, w: [p >= 0, q >= 0, r >= 0, v.is_eq(r * r, p * p + q * q + w), r < p + q, p < q + r, q < p + r],
            lambda p, q, r, w: [w < 2 * p * q, -1 * w < 2 * p * q], p, q, r, w)


def energy_bound(v, q, e, n, d):
    """e < d bounds the momentum;  -> sqrt(d^2 - n^2)"""
    v.lemma('energy bound', lambda q, e, d, n: [q > 0, e >= 0, v.is_eq(e * e, q * q + n * n), e < d], lambda q, e, d, n: [d > 0, d * d - n * n > 0, d * d - n * n > q * q], q, e, d, n)
    x = d * d - n * n
    v.lemma('root', lambda q, d, z: [q > 0, d > q * q, z >= 0, v.is_eq(z * z, d)], lambda q, d, z: [q < z], q, x, v.sqrt(x))
    return v.sqrt(x)


def threshold(v, q, e, n, d):
    """e > d >= n bounds the momentum from below"""
    x = d * d - n * n
    if not d > 0 or not x > 0:
        return
    v.lemma('threshold', lambda q, e, d, n: [q > 0, e >= 0, v.is_eq(e * e, q * q + n * n), e > d, d > 0], lambda q, e, d, n: [d * d - n * n < q * q], q, e, d, n)
    v.lemma('root', lambda q, d, z: [q > 0, d > 0, d < q * q, z >= 0, v.is_eq(z * z, d)], lambda q, d, z: [z < q], q, x, v.sqrt(x))


def massless_parent(v, D, p, q, e, n):
    """the same for a massless first particle: D = m_2^2 - m_1^2 > 0, |D - 2 p e| < 2 p q  -> +-lower bound"""
    v.lemma('massless', lambda D, p, q, e, n: [p > 0, q > 0, e >= 0, v.is_eq(e * e, q * q + n * n), D > 0, D < 2 * p * (e + q), 2 * p * (e - q) < D],
            lambda D, p, q, e, n: [(4 * n * n * p * p - D * D) / (4 * p * D) < q, (D * D - 4 * n * n * p * p) / (4 * p * D) < q], D, p, q, e, n)
    lo = (4 * n * n * p * p - D * D) / (4 * p * D)
    return lo, -1 * lo


def ordered(v, lows, q, ups):
    for a in lows:
        for b in ups:
            v.lemma('order', lambda a, q, b: [a < q, q < b], lambda a, q, b: [a < b], a, q, b)


@contract('C14', DIR[3] + 'integration_3', process=list(SIDES[3]) + ['creation of a massless particle'], trials=300, timeout=120)
def region_three(v, process):
    """every momentum of the second particle that the reaction allows is inside the bounds of the quadrature"""
    massless = process.endswith('massless particle')
    process = process.split()[0]
    K, R, m, ps, i, p0, kind = setup(v, 3, process, pos=v.sym, masses=[v.num(0), None, None] if massless else None)
    v.assume(p0 > 0)
    on_shell(v, process, m, 3)
    if not massless:
        v.assume(m[0] > 0)
    top = v.real('max_2', pos=True, samples=(1, 60))
    sides = SIDES[3][process]
    if v.sym:
        p1 = v.real('p1', pos=True)
    else:
        p1 = v.real('w', lo=0.001, hi=0.999)
        c = (1 if process == 'decay' else -1) * (m[0]**2 + m[1]**2 - m[2]**2)
        e0 = (p0**2 + m[0]**2)**0.5
        if massless:
            p1 = abs(c * c - 4 * m[1]**2 * p0**2) / (4 * p0 * abs(c)) + 5 * p1
        else:
            z = e0 * max(c * c - 4 * m[0]**2 * m[1]**2, 0)**0.5
            p1 = (abs(z - p0 * c) * (1 - p1) + (z + p0 * c) * p1) / (2 * m[0]**2)
    E, last = energies(v, [p0, p1], m, sides)
    v.assume(last > m[2])
    p2 = v.sqrt(last * last - m[2] * m[2])
    v.assume(inside(v, [p0, p1, p2])[0])
    if process == 'creation':
        v.assume(p2 < top)
    s = 1 if process == 'decay' else -1
    B = s * (m[0] * m[0] + m[1] * m[1] - m[2] * m[2])
    if v.sym:
        triangle(v, p0, p1, p2, s * (B - 2 * E[0] * E[1]))      # p2^2 = p0^2 + p1^2 + s (B - 2 E0 E1)
        if massless:
            ups, lows = [], massless_parent(v, m[2] * m[2] - m[1] * m[1], p0, p1, E[1], m[1])
        else:
            lo, neg, up = two_body(v, B, p0, E[0], m[0], p1, E[1], m[1])
            ups, lows = [up], [lo, neg]
        if process == 'creation':
            W = v.sqrt(top * top + m[2] * m[2])
            v.lemma('fastest parent', lambda q, t, e, w, m: [q >= 0, q < t, e >= 0, w >= 0, v.is_eq(e * e, q * q + m * m), v.is_eq(w * w, t * t + m * m)],
                    lambda q, t, e, w, m: [e < w], p2, top, last, W, m[2])
            ups.append(energy_bound(v, p1, E[1], m[1], W - E[0]))
            v.assume(-1 < ups[-1])
        ordered(v, lows, p1, ups)
        K.integrand_full = lambda *a: v.real('integrand')       # its value: integrand_three, rate_three
        got, made = run3(v, K, R, ps, i, kind, v.real('min_1'), v.real('max_1'), top, v.real('stepsize', pos=True), lambda n, f, a, b: v.real('I'))
    else:
        got, made = run3(v, K, R, ps, i, kind, 0., 1., top, 1., lambda n, f, a, b: float(n))
        made = made[int(got) - 1:int(got)] if got != 0 else []
    v.check('integrated', len(made) == 1)
    f, a, b, _, _ = made[0]
    v.le('above the lower bound', a, p1)
    v.le('below the upper bound', p1, b)


# ---- region of integration, four particles ----------------------------------------------------------------------------

def run4(v, K, R, Ms, ps, i, kind, lims, step, p1, p2, outer, inner):
    """call the kernel and look into both quadratures; -> (value for momentum i, [(value of f(p1), bounds, accuracy, inner [...])])"""
    made, depth = [], []

    def qag(f, a, b, epsabs, epsrel):
        if depth:
            depth[-1].append((f(p2), a, b, epsabs, epsrel))
            return inner
        depth.append([])
        got = f(p1)
        made.append((got, a, b, epsabs, epsrel, depth.pop()))
        return outer(len(made))
    K.qag = qag
    res = K.integration(*([ps] + lims + [R, Ms, step, kind]))
    v.eq('one value per momentum', v.len(res), v.len(ps))
    return v.at(res, i), made


def element(v):
    return [Bag(order=[0, 1, 2, 3], K1=v.num(1), K2=v.num(0), K=v.num(0))]


@contract('C14', DIR[4] + 'integration, integrand_2nd_integration, integrand_1st_integration', process=list(SIDES[4]), trials=100, timeout=200, max_paths=2000)
def rate_four(v, process):
    """the rate at each momentum is the double integral of the integrand at that momentum"""
    kind = v.choice('kind', KINDS) if not v.sym else 'Full'
    K, R, m, ps, i, p0, kind = setup(v, 4, process, kind)
    lims = [v.num(0), v.real('max_1', pos=True, samples=(1, 20)), v.real('min_2', nonneg=True), v.real('max_2', nonneg=True), v.real('max_3', pos=True, samples=(1, 60))]
    p1, p2 = v.real('p1', pos=True, samples=(0.05, 5)), v.real('p2', pos=True, samples=(0.05, 5))
    Ms = element(v)
    step = v.real('stepsize', pos=True, samples=(0.5, 2))
    if v.sym:
        kind = v.int('kind')
        G = v.func('integrand', 3)

        def integrand(a, b, c, reaction, elements, kd):
            v.check('same reaction and kind', len(reaction) == 4 and all(x is y for x, y in zip(reaction, R)) and elements is Ms and kd == kind)
            return G(a, b, c)
        K.integrand_full = integrand
        for name in ('p2_min_scat', 'p2_max_scat', 'p2_max_dec'):      # bounds: region_four
            setattr(K, name, lambda reaction, a, b, g=v.func(name, 2): g(a, b))
        got, made = run4(v, K, R, Ms, ps, i, kind, lims, step, p1, p2, lambda n: v.real('I'), v.real('J'))
        want = v.real('I')
        v.check('at most one quadrature', len(made) <= 1)
    else:
        got, made = run4(v, K, R, Ms, ps, i, kind, lims, step, p1, p2, lambda n: float(n), 0.25)
        made = made[int(got) - 1:int(got)] if got != 0 else []
        want = got
    if not made:
        v.eq('nothing to integrate', got, v.num(0))
        return
    f, a, b, epsabs, epsrel, ins = made[0]
    v.eq('value of the quadrature', got, want)
    v.check('accuracy asked for', v.land(epsrel > 0, epsrel * 100 <= 1))
    if not ins:
        v.eq('nothing to integrate inside', f, v.num(0))
        return
    v.check('one inner quadrature', len(ins) == 1)
    v.eq('value of the inner quadrature', f, v.real('J') if v.sym else 0.25)
    v.eq('its integrand', ins[0][0], K.integrand_full(p0, p1, p2, R, Ms, kind))
    v.check('accuracy asked for inside', v.land(ins[0][4] > 0, ins[0][4] * 100 <= 1))


def rest_energy(v, q, e, m):
    v.lemma('rest energy', lambda q, e, m: [q > 0, e >= 0, m >= 0, v.is_eq(e * e, q * q + m * m)], lambda q, e, m: [e > m], q, e, m)


REST = ['massive, massless products', 'massive, heavier', 'massive, lighter', 'massless target', 'all massless']


@contract('C14', DIR[4] + 'integration, integrand_2nd_integration, p2_max_dec, p2_min_scat, p2_max_scat', process=list(SIDES[4]), at=['moving'] + REST, trials=1200, timeout=150, max_paths=2000)
def region_four(v, process, at):
    """every pair of momenta of the second and third particle that the reaction allows is inside the bounds of the two quadratures"""
    rest = at in REST
    if rest and process != 'scattering':
        v.check('covered by the moving case', True)
        return
    masses = {'massive, massless products': [None, v.num(0), v.num(0), v.num(0)], 'massless target': [v.num(0), None, None, None], 'all massless': [v.num(0)] * 4}.get(at, [None] * 4)
    if at.startswith('massive'):
        masses[0] = v.real('m0', pos=True, samples=(0.3, 9))
    if at == 'massless target':
        masses[1] = v.real('m1', pos=True, samples=(0.3, 9))
    sides = SIDES[4][process]
    K, R, m, ps, i, p0, kind = setup(v, 4, process, pos=v.sym and process == 'scattering', masses=masses)
    on_shell(v, process, m, 4)
    if rest:
        p0, i = v.num(0), v.num(0) if v.sym else 0
        ps = [p0]
        if v.sym:
            K.cpp_state.index = 0
    elif process == 'scattering':
        v.assume(p0 > 0)
    if at == 'massive, heavier':
        v.assume(m[1] + m[2] + m[3] > 0)
        v.assume(m[0] + m[1] > m[2] + m[3])
    if at == 'massive, lighter':
        v.assume(m[0] + m[1] <= m[2] + m[3])
        v.assume(m[2] + m[3] > 0)
    lims = [v.num(0), v.real('max_1', pos=True, samples=(1, 20)), v.num(0), v.num(0), v.real('max_3', pos=True, samples=(5, 60))]
    p1, p2 = v.real('p1', pos=True, samples=(0.05, 8)), v.real('p2', pos=True, samples=(0.05, 8))
    if not v.sym and process == 'decay':
        q = (p0**2 + m[0]**2)**0.5
        p1 = p1 / 8 * max((q - m[2] - m[3])**2 - m[1]**2, 0)**0.5
        p2 = p2 / 8 * max((q - (p1**2 + m[1]**2)**0.5 - m[3])**2 - m[2]**2, 0)**0.5
    E, last = energies(v, [p0, p1, p2], m, sides)
    if at == 'all massless':
        v.assume(p2 < p1)       # collinear: the only products there are
    else:
        v.assume(last > m[3])
        p3 = v.sqrt(last * last - m[3] * m[3])
        v.assume(inside(v, [p0, p1, p2, p3])[0])
    v.assume(p1 < lims[1]) if process == 'scattering' else None
    if process == 'creation':
        v.assume(p3 < lims[4])
    if v.sym:
        if at != 'all massless':
            v.lemma('positive', lambda a, b: [a > b, b >= 0], lambda a, b: [a * a - b * b > 0], last, m[3])
        for a in (1, 2):
            rest_energy(v, [p0, p1, p2][a], E[a], m[a])
        ups, lows = [], []
        if process == 'decay':
            energy_bound(v, p1, E[1], m[1], E[0] - m[2] - m[3])
            energy_bound(v, p2, E[2], m[2], E[0] - E[1] - m[3])
        elif process == 'creation':
            W = v.sqrt(lims[4] * lims[4] + m[3] * m[3])
            v.lemma('fastest parent', lambda q, t, e, w, m: [q >= 0, q < t, e >= 0, w >= 0, v.is_eq(e * e, q * q + m * m), v.is_eq(w * w, t * t + m * m)],
                    lambda q, t, e, w, m: [e < w], p3, lims[4], last, W, m[3])
            energy_bound(v, p1, E[1], m[1], W - m[2] - E[0])
            energy_bound(v, p2, E[2], m[2], W - E[0] - E[1])
            threshold(v, p2, E[2], m[2], m[3] - E[0] - E[1])
        else:
            threshold(v, p1, E[1], m[1], m[2] + m[3] - E[0])
            if not rest or at == 'massive, lighter':
                energy_bound(v, p2, E[2], m[2], E[0] + E[1] - m[3])
            elif at == 'massive, heavier':
                W = m[0] + E[1]
                M = W * W - p1 * p1
                B = M + m[2] * m[2] - m[3] * m[3]
                v.lemma('pair mass', lambda m, e, p, n: [m > 0, e >= 0, v.is_eq(e * e, p * p + n * n)], lambda m, e, p, n: [(m + e) * (m + e) - p * p > 0], m[0], E[1], p1, m[1])
                triangle(v, p1, p2, p3, B - 2 * W * E[2])       # p3^2 = (W - E2)^2 - m3^2
                ordered(v, [v.num(0)], p2, two_body(v, B, p1, W, v.sqrt(M), p2, E[2], m[2])[2:])
            elif at == 'massless target':
                B = m[1] * m[1] + m[2] * m[2] - m[3] * m[3]
                triangle(v, p1, p2, p3, B - 2 * E[1] * E[2])
                two_body(v, B, p1, E[1], m[1], p2, E[2], m[2])
        K.integrand_full = lambda *a: v.real('integrand')       # its value: integrand_four, rate_four
        got, made = run4(v, K, R, element(v), ps, i, kind, lims, v.real('stepsize', pos=True), p1, p2, lambda n: v.real('I'), v.real('J'))
    else:
        got, made = run4(v, K, R, element(v), ps, i, kind, lims, 1., p1, p2, lambda n: float(n), 0.25)
        made = made[int(got) - 1:int(got)] if got != 0 else []
    v.check('integrated over the second momentum', len(made) == 1)
    f, a, b, _, _, ins = made[0]
    v.le('second momentum above the lower bound', a, p1)
    v.le('second momentum below the upper bound', p1, b)
    v.check('integrated over the third momentum', len(ins) == 1)
    v.le('third momentum above the lower bound', ins[0][1], p2)
    v.le('third momentum below the upper bound', p2, ins[0][2])


# ---- what Python sees -------------------------------------------------------------------------------------------------

@contract('C14', ['interactions/four_particle/cpp/integral.cpp PYBIND11_MODULE', 'interactions/three_particle/cpp/integral.cpp PYBIND11_MODULE'], k=[4, 3], trials=1)
def bindings(v, k):
    """the module Python imports is the verified functions: arguments reach the parameter (field) of their name, every kind of
    integral has one value, the same in both kernels.  The declarations are executed (stand-in pybind11) and read back"""
    from vc import cppnative, cppmod
    m = cppnative.module(k)
    tr = m.translation
    seen = {}
    for line in m.bindings.split('\n'):
        w = line.split()
        if not w:
            continue
        seen.setdefault(w[0], {})[w[1] if w[0] != 'enum' else w[2]] = [a.split('=')[0] for a in w[2:]] if w[0] != 'enum' else int(w[3])
    for name, fields in tr['structs'].items():
        v.check('fields of ' + name, seen['class'].get(name) == [f[0] for f in fields])
    for name in ('distribution_interpolation', 'binary_find', 'integration' if k == 4 else 'integration_3') + (('D', 'Db') if k == 4 else ()):
        bound, params = seen['def'].get(name), [q[0] for q in tr['signatures'][name][2]]
        v.check(name + ' is exported', bound is not None)
        v.check(name + ' takes all arguments', len(bound) == len(params))
        v.check(name + ' binds them in order', all(bound[j] == q for j, q in enumerate(params) if q in bound))
    for name in KINDS:
        x = seen['enum'].get(name)
        v.check('value of ' + name, x == tr['enums'][ENUM[k] + name] == int(getattr(cppmod.CollisionIntegralKind, name)))
    v.check('no other kinds', sorted(seen['enum']) == sorted(KINDS))


@contract('C14', DIR[3] + 'p1_bounds_1', trials=60)
def rest_momentum(v):
    """the momentum of the products of a particle at rest conserves energy"""
    m = [v.real('m%d' % i, nonneg=i > 0, pos=i == 0, samples=(0.05, 3)) for i in range(3)]
    if not v.sym:
        m[0] = m[0] + m[1] + m[2]
    v.assume(m[0] > m[1] + m[2])
    K = v.mod(MOD[3])
    R = [Bag(specie=Bag(m=x, eta=1, in_equilibrium=0, T=v.num(1), grid=Bag(grid=[v.num(0)], distribution=[v.num(0)])), side=s) for x, s in zip(m, SIDES[3]['decay'])]
    p = K.p1_bounds_1(R)
    if v.sym:
        # p^2 = lambda(m0, m1, m2) / 4 m0^2, and then E_i = (m0^2 + m_i^2 - m_j^2) / 2 m0 add up to m0
        a, b, c = m[0] * m[0], m[1] * m[1], m[2] * m[2]
        v.eq('momentum', p * p * 4 * a, a * a + b * b + c * c - 2 * a * b - 2 * a * c - 2 * b * c)
        for i, (x, y) in enumerate(((b, c), (c, b))):
            e = (a + x - y) / (2 * m[0])
            v.eq('energy %d' % i, e * e, p * p + x)
    else:
        v.eq('energy', (p * p + m[1]**2)**0.5 + (p * p + m[2]**2)**0.5, m[0])
