"""Helpers: real Particle / Params objects in arbitrary states."""
from vc.env import Bag

KER4 = 'interactions.four_particle.cpp.integral'
KER3 = 'interactions.three_particle.cpp.integral'


def params(v, F, **kw):
    C = F.mod('common')
    pr = C.Params(T=v.num(1), dy=v.num('0.05'), dx=v.num('0.05'))
    for k, dom in (('T', (0.3, 3)), ('a', (0.3, 3)), ('m', (0.3, 3)), ('t', (1, 50)), ('h', (0.01, 0.2)), ('H', (0.1, 3)), ('a_ini', (0.1, 0.3))):
        setattr(pr, k, kw[k] if k in kw else v.real('params.' + k, pos=True, samples=dom))
    pr.x = pr.a * pr.m
    pr.aT = pr.a * pr.T
    return pr


def grid(v, name='y', lo=3, span=14, n=None):
    n = v.int(name + '.n', lo=lo, span=span) if n is None else n
    if v.sym:
        y = v.array(name, n, increasing=True, first=0)
    else:
        y = v.array(name, n, increasing=True, first=0, gen=lambda r, k: [0.] + sorted(r.uniform(0.1, 5) for _ in range(k - 1)))
    top = v.at(y, n - 1)
    return Bag(TEMPLATE=y, MOMENTUM_SAMPLES=n, MIN_MOMENTUM=0, MAX_MOMENTUM=top, BOUNDS=(0, top))


def particle(v, F, pr, name='X', mass='pos', fermion=True, g=None, **kw):
    """a real Particle; T, aT arbitrary (not necessarily those of the plasma)"""
    C, P = F.mod('common'), F.mod('particles')
    st = F.mod('common.statistics')
    if mass == 'zero':
        m = v.num(0)
    elif mass in ('pos', 'any'):
        m = v.real(name + '.mass', pos=mass == 'pos', nonneg=mass == 'any', samples=(0.1, 5))
    else:
        m = mass
    kw.setdefault('dof', v.real(name + '.dof', pos=True, samples=(1, 4)))
    kw.setdefault('majorana', False)
    kw.setdefault('Q', 0)
    if g is None:
        g = grid(v, name + '.y')
    p = P.Particle(name=kw.pop('full_name', name), symbol=kw.pop('symbol', name), mass=m, grid=g,
                   statistics=st.FERMION if fermion else st.BOSON, **kw)
    p.params = pr
    p.T = v.real(name + '.T', pos=True, samples=(0.3, 3))
    p.aT = v.real(name + '.aT', pos=True, samples=(0.3, 3))
    p.t_decoupling = 0
    return p


def occupied(v, p, name='X'):
    """an arbitrary recorded distribution"""
    n = p.grid.MOMENTUM_SAMPLES
    f = v.array(name + '.f', n, nonneg=True) if v.sym else v.array(name + '.f', n, nonneg=True, gen=lambda r, k: [r.uniform(0, 1) for _ in range(k)])
    p._distribution = f.copy()
    return f
