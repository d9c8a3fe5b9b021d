"""C06 -- ODE steppers (common.integrators)."""
from fractions import Fraction as Q
from vc.registry import contract

I = 'common.integrators'

# textbook coefficients, oldest derivative first: integrals of Lagrange polynomials over one step
def _lagrange_weights(nodes):
    """weights w_j with  int_0^1 p(s) ds = sum_j w_j p(nodes_j) for every polynomial of degree < len(nodes)"""
    n = len(nodes)
    out = []
    for j in range(n):
        # product (s - x_k) / (x_j - x_k)
        poly = [Q(1)]
        for k in range(n):
            if k != j:
                new = [Q(0)] * (len(poly) + 1)
                for i, c in enumerate(poly):
                    new[i + 1] += c
                    new[i] -= c * nodes[k]
                poly = [c / (nodes[j] - nodes[k]) for c in new]
        out.append(sum(c / (i + 1) for i, c in enumerate(poly)))
    return out


def AB(order):
    return _lagrange_weights([Q(-k) for k in range(order - 1, -1, -1)])


def AM(order):
    return _lagrange_weights([Q(k) for k in range(-(order - 2), 2)]) if order > 1 else [Q(1)]


@contract('C06', I + '.adams_bashforth_correction', order=[1, 2, 3, 4, 5])
def adams_bashforth_order(v, order):
    n = v.int('n', lo=order)
    fs = v.list('fs', n)
    h = v.real('h')
    w = [v.num(x) if v.sym else float(x) for x in AB(order)]
    got = v.mod(I).adams_bashforth_correction(fs, h, order=order)
    want = h * sum(w[k] * v.at(fs, n - order + k) for k in range(order))
    v.eq('increment', got, want, scale=_scale(v, fs, h))


def _scale(v, fs, h):
    return None if v.sym else abs(h) * max([abs(x) for x in fs] + [0])


@contract('C06', I + '.adams_bashforth_correction')
def adams_bashforth_auto(v):
    """default order: as many of the most recent derivatives as exist, at most five"""
    n = v.int('n', lo=1)
    fs = v.list('fs', n)
    h = v.real('h')
    got = v.mod(I).adams_bashforth_correction(fs, h)
    order = 5
    for k in range(1, 5):
        if n == k:
            order = k
            break
    w = [v.num(x) if v.sym else float(x) for x in AB(order)]
    want = h * sum(w[k] * v.at(fs, n - order + k) for k in range(order))
    v.eq('increment', got, want, scale=_scale(v, fs, h))


@contract('C06', I + '.adams_moulton_solver', order=[1, 2, 3, 4, 5, None])
def adams_moulton(v, order):
    """y' = y + h (sum_j w_j f_j + w_last (A + B y'))"""
    if order is None:
        n = v.int('n', lo=0)
    else:
        n = v.int('n', lo=order - 1)
    fs = v.list('fs', n)
    y, A, B, h = v.real('y'), v.real('A'), v.real('B'), v.real('h')
    k_ = order
    if order is None:
        k_ = 5
        for k in range(0, 4):
            if n == k:
                k_ = k + 1
                break
    w = [v.num(x) if v.sym else float(x) for x in AM(k_)]
    den = 1 - h * B * w[-1]
    v.assume(v.abs(den) > (0 if v.sym else 1e-2))
    M = v.mod(I)
    got = M.adams_moulton_solver(y, fs, A, B, h) if order is None else M.adams_moulton_solver(y, fs, A, B, h, order=order)
    hist = sum(w[k] * v.at(fs, n - (k_ - 1) + k) for k in range(k_ - 1))
    # the defining implicit equation
    v.eq('implicit equation', got, y + h * (hist + w[-1] * (A + B * got)),
         scale=None if v.sym else (abs(y) + abs(h) * max([abs(x) for x in fs] + [abs(A), abs(B * got)])))


@contract('C06', I + '.implicit_euler')
def implicit_euler(v):
    y, A, B, h, t = v.real('y'), v.real('A'), v.real('B'), v.real('h'), v.real('t')
    v.assume(v.abs(1 - B * h) > (0 if v.sym else 1e-2))
    got = v.mod(I).implicit_euler(y, t, A, B, h)
    v.eq('implicit equation', got, y + h * (A + B * got), scale=None if v.sym else abs(y) + abs(h * A) + abs(h * B * got))


@contract('C06', [I + '.euler_correction', I + '.heun_correction'])
def explicit_one_step(v):
    y, t, h = v.real('y'), v.real('t'), v.real('h')
    f = v.func('f', 2)
    M = v.mod(I)
    v.eq('euler', M.euler_correction(y=y, t=t, f=f, h=h), h * f(t, y))
    k1 = f(t, y)
    k2 = f(t + h, y + h * k1)
    v.eq('heun', M.heun_correction(y=y, t=t, f=f, h=h), h * (k1 + k2) / 2, scale=None if v.sym else abs(h) * (abs(k1) + abs(k2)))


@contract('C06', [I + '.adams_bashforth_correction', I + '.adams_moulton_solver'])
def order_limits(v):
    M = v.mod(I)
    v.eq('largest explicit order', M.MAX_ADAMS_BASHFORTH_ORDER, 5)
    v.eq('largest implicit order', M.MAX_ADAMS_MOULTON_ORDER, 5)


@contract('C06', [I + '.adams_bashforth_correction', I + '.adams_moulton_solver'], method=['explicit', 'implicit'], order=[-1, 0, 6, 7, 12, '3'])
def unsupported_order(v, method, order):
    """an order there is no formula for is refused, whatever the history"""
    n = v.int('n', lo=0, span=14)
    fs = v.list('fs', n)
    M = v.mod(I)
    y, A, B, h = v.real('y'), v.real('A'), v.real('B'), v.real('h', pos=True)
    if method == 'explicit':
        kind, e = v.calls(M.adams_bashforth_correction, fs, h, order=order)
    else:
        kind, e = v.calls(M.adams_moulton_solver, y, fs, A, B, h, order=order)
    v.check('refused', kind == 'exc')


@contract('C06', [I + '.adams_bashforth_correction', I + '.adams_moulton_solver'], method=['explicit', 'implicit'], order=[2, 3, 4, 5])
def too_short(v, method, order):
    """an order asked for by name needs its history"""
    n = v.choice('n', list(range(order if method == 'explicit' else order - 1)))
    fs = [v.real('f%d' % i) for i in range(n)]
    M = v.mod(I)
    y, A, B, h = v.real('y'), v.real('A'), v.real('B'), v.real('h', pos=True)
    if method == 'explicit':
        kind, e = v.calls(M.adams_bashforth_correction, fs, h, order=order)
    else:
        kind, e = v.calls(M.adams_moulton_solver, y, fs, A, B, h, order=order)
    v.check('refused', kind == 'exc')
