"""C15 -- the angular-integration kernels D1, D2, D3 (and their zero-momentum forms) against their defining integrals.

With  prod sin(q_i x) = 1/8 sum_s s2 s3 s4 cos(k_s x),  k_s = q1 + s2 q2 + s3 q3 + s4 q4,  and the finite part of
int_0^inf cos(k x) / x^2n dx = (-1)^n pi |k|^(2n-1) / (2 (2n-1)!),  the definitions
    D1 = 4/pi int dx/x^2 prod sin,     D2, D3 = the same with  q (cos(q x) - sin(q x)/(q x))  for two / four of the sines
read  D1 = -1/4 S|k|,   D2 = L3 L4 (1/24 S|k|^3),   D3 = L1 L2 L3 L4 (-1/480 S|k|^5),   S f = sum_s s2 s3 s4 f(k_s),
L_i = q_i d/dq_i - 1   (the pieces divergent at x = 0 are polynomials that S or the L_i annihilate)."""
import itertools
from vc.registry import contract

M = 'cppfour'
SRC = 'interactions/four_particle/cpp/Ds.cpp '


def ab(x):
    return x if x >= 0 else -x


def sg(x):
    return 1 if x > 0 else -1


def signs(q):
    for s in itertools.product((1, -1), repeat=3):
        yield (1,) + s, s[0] * s[1] * s[2], q[0] + s[0] * q[1] + s[1] * q[2] + s[2] * q[3]


def power(k, n, d):
    """d-th derivative of |k|^n (n odd, d < n)"""
    c = 1
    for j in range(d):
        c *= n - j
    r = c * ab(k)
    for _ in range(n - d - 1):
        r = r * k
    return r if (n - d) % 2 else (c * k * ab(k) * (k**(n - d - 2) if n - d > 2 else 1))


def L(v, q, n, ops):
    """prod_{i in ops} L_i applied to S |k|^n"""
    total = v.num(0)
    for s, sign, k in signs(q):
        t = v.num(0)
        for r in range(len(ops) + 1):
            for S in itertools.combinations(ops, r):
                c = v.num((-1)**(len(ops) - r))
                for i in S:
                    c = c * (s[i] * q[i])
                t = t + c * power(k, n, r)
        total = total + sign * t
    return total


def momenta(v, names, pos=False):
    q = []
    for n in names:
        q.append(v.real(n, nonneg=True, pos=pos) if v.sym else v.real(n, nonneg=True, pos=pos, samples=(0.05, 3)))
    return q


def regions(v, q):
    """split by the signs of all k_s first (cheap, linear)"""
    for _, _, k in signs(q):
        if k >= 0:
            pass


@contract('C15', SRC + 'D1')
def first(v):
    q = momenta(v, ['q1', 'q2', 'q3', 'q4'])
    regions(v, q)
    v.eq('defining integral', v.mod(M).D1(*q) * 4, -1 * L(v, q, 1, []), tol=1e-6, scale=None if v.sym else sum(q))


@contract('C15', SRC + 'D2', timeout=120, max_paths=2000)
def second(v):
    q = momenta(v, ['q1', 'q2', 'q3', 'q4'])
    regions(v, q)
    v.eq('defining integral', v.mod(M).D2(*q) * 24, L(v, q, 3, [2, 3]), tol=1e-6, scale=None if v.sym else sum(q)**3)


@contract('C15', SRC + 'D3', timeout=120, max_paths=2000)
def third(v):
    q = momenta(v, ['q1', 'q2', 'q3', 'q4'])
    regions(v, q)
    v.eq('defining integral', v.mod(M).D3(*q) * 480, -1 * L(v, q, 5, [0, 1, 2, 3]), tol=1e-6, scale=None if v.sym else sum(q)**5)


# ---- momentum of the first particle going to zero -------------------------------------------------------------------

def near_zero(v, q):
    """0 < p < every |q2 +- q3 +- q4|: no kinematic threshold between 0 and 4 p"""
    p = v.real('p', pos=True, samples=(1e-3, 0.02))
    for k in (q[0] + q[1] - q[2], q[0] - q[1] + q[2], q[1] + q[2] - q[0]):
        if k >= 0:
            v.assume(4 * p < k)
        else:
            v.assume(4 * p < -k)
    for x in q:
        v.assume(4 * p < x)
    return p


@contract('C15', SRC + 'Db1')
def first_at_rest(v):
    q = momenta(v, ['q2', 'q3', 'q4'], pos=True)
    p = near_zero(v, q)
    K = v.mod(M)
    v.eq('slope of D1', K.D1(p, *q), p * K.Db1(*q), tol=1e-6, scale=None if v.sym else p)


@contract('C15', SRC + 'Db2', timeout=120, max_paths=2000)
def second_at_rest(v):
    """D2(p, q2; q3, q4) = a p + b p^3 below the first threshold, and Db2 = a"""
    q = momenta(v, ['q2', 'q3', 'q4'], pos=True)
    p = near_zero(v, q)
    K = v.mod(M)
    v.eq('slope of D2', 8 * K.D2(p, *q) - K.D2(2 * p, *q), 6 * p * K.Db2(*q), tol=1e-5, scale=None if v.sym else p * sum(q)**2)


@contract('C15', [SRC + 'D2', SRC + 'D3'], which=['D2', 'D3'], timeout=120, max_paths=2000)
def no_other_contribution_at_rest(v, which):
    """the remaining terms of the angular integral vanish at least like p^3, so only the slopes survive"""
    q = momenta(v, ['q2', 'q3', 'q4'], pos=True)
    p = near_zero(v, q)
    K = v.mod(M)
    if which == 'D2':
        v.eq('cubic', K.D2(q[0], q[1], 2 * p, q[2]), 8 * K.D2(q[0], q[1], p, q[2]), tol=1e-3, scale=None if v.sym else 1e-8 * sum(q)**3)
    else:
        d1, d2, d4 = K.D3(p, *q), K.D3(2 * p, *q), K.D3(4 * p, *q)
        v.eq('no linear term', d4 - 32 * d2 + 8 * (32 * d1 - d2), v.num(0), scale=None if v.sym else 1e-4 * sum(q)**5)


# ---- matrix elements ------------------------------------------------------------------------------------------------

ORDERS = list(itertools.permutations(range(4)))


def opaque(v, K):
    """in a proof D and Db are checked against the contracts of D1, D2, D3, Db1, Db2: symmetric functions of their arguments"""
    if not v.sym:
        return K.D1, K.D2, K.D3, K.Db1, K.Db2

    def srt(*a):
        return sorted(a, key=lambda t: t.uid)
    D1, D2, D3, B1, B2 = [v.func('opaque.' + n, 4) for n in ('D1', 'D2', 'D3', 'Db1', 'Db2')]
    K.D1 = lambda a, b, c, d: D1(*srt(a, b, c, d))
    K.D2 = lambda a, b, c, d: D2(*(srt(a, b) + srt(c, d)))
    K.D3 = lambda a, b, c, d: D3(*srt(a, b, c, d))
    K.Db1 = lambda a, b, c: B1(*srt(a, b, c))
    K.Db2 = lambda a, b, c: B2(a, *srt(b, c))
    return K.D1, K.D2, K.D3, K.Db1, K.Db2


def kinematics(v, K, rest=False):
    m = [v.real('m%d' % i, nonneg=True, samples=(0, 2)) for i in range(4)]
    p = [v.real('p%d' % i, nonneg=True, samples=(0.1, 3)) for i in range(4)]
    if rest:
        p[0] = v.num(0)
    E = [v.sqrt(a * a + b * b) for a, b in zip(p, m)]
    sides = [v.choice('side%d' % i, [-1, 1]) for i in range(4)]
    return p, E, m, sides


@contract('C15', SRC + 'D', order=[list(o) for o in ORDERS], max_paths=1000, trials=12)
def matrix_element(v, order):
    """K1 (p_i p_j)(p_k p_l) + K2 m_i m_j (p_k p_l) integrated over directions; s_i p_i in the momentum balance"""
    K = v.mod(M)
    D1, D2, D3, B1, B2 = opaque(v, K)
    p, E, m, s = kinematics(v, K)
    K1, K2 = v.choice('K1', [v.num(0), v.real('k1')]), v.choice('K2', [v.num(0), v.real('k2')])
    i, j, k, l = order
    want = K1 * (E[i] * E[j] * E[k] * E[l] * D1(*p) + s[i] * s[j] * s[k] * s[l] * D3(*p)
                 + E[i] * E[j] * s[k] * s[l] * D2(p[i], p[j], p[k], p[l]) + E[k] * E[l] * s[i] * s[j] * D2(p[k], p[l], p[i], p[j])) \
        + K2 * m[i] * m[j] * (E[k] * E[l] * D1(*p) + s[k] * s[l] * D2(p[i], p[j], p[k], p[l]))
    v.eq('angular integral', K.D(p, E, m, K1, K2, order, s), want, scale=None if v.sym else 1e-4 * max(abs(K1), abs(K2)) * sum(E)**5)


@contract('C15', SRC + 'Db', order=[list(o) for o in ORDERS], max_paths=1000, trials=12)
def matrix_element_at_rest(v, order):
    """the same divided by p_0 E_0, in the limit of a particle at rest"""
    K = v.mod(M)
    D1, D2, D3, B1, B2 = opaque(v, K)
    p, E, m, s = kinematics(v, K, rest=True)
    if not v.sym:
        m[0] = v.choice('massless', [0., m[0]])
        E[0] = m[0]
    K1, K2 = v.choice('K1', [v.num(0), v.real('k1')]), v.choice('K2', [v.num(0), v.real('k2')])
    i, j, k, l = order
    b1 = B1(*p[1:])
    if 0 in (i, j):
        o = i + j
        a = s[k] * s[l] * E[o] * B2(p[o], p[k], p[l])
        # m_i m_j / E_0 = m_o unless the particle is massless
        b = v.num(0) if m[0] == 0 else m[o] * (E[k] * E[l] * b1 + s[k] * s[l] * B2(p[o], p[k], p[l]))
    else:
        o = k + l
        a = s[i] * s[j] * E[o] * B2(p[o], p[i], p[j])
        b = m[i] * m[j] * E[o] * b1
    want = K1 * (E[1] * E[2] * E[3] * b1 + a) + K2 * b
    v.eq('angular integral', K.Db(p, E, m, K1, K2, order, s), want, scale=None if v.sym else 1e-4 * max(abs(K1), abs(K2)) * sum(E)**4)
