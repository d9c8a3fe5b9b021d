"""Stand-ins for the compiled extension modules."""
import enum
import types


class CollisionIntegralKind(enum.IntFlag):
    Full = 0
    F_1 = 1
    F_f = 2
    Full_vacuum_decay = 3
    F_1_vacuum_decay = 4
    F_f_vacuum_decay = 5
    F_creation = 6
    F_decay = 7


def _kernel(m, nm):
    def f(*a, **kw):
        h = m.handlers.get(nm)
        if h is None:
            raise NotImplementedError('compiled kernel not available')
        return h(*a, **kw)
    f.__name__ = nm
    return f


def native_module(k):
    m = types.ModuleType('interactions.%s_particle.cpp.integral' % ('four' if k == 4 else 'three'))

    class Rec(object):
        def __init__(self, *a, **kw):
            self.args = a
            self.__dict__.update(kw)
    m.CollisionIntegralKind = m.CollisionIntegralKind_3 = CollisionIntegralKind
    sfx = '' if k == 4 else '3'
    for nm in ('M_t', 'grid_t', 'particle_t', 'reaction_t'):
        setattr(m, nm + sfx if nm != 'M_t' else nm, type(nm, (Rec,), {}))
    for nm in ('integration', 'integration_3', 'distribution_interpolation', 'D1', 'D2', 'D3', 'Db1', 'Db2', 'D', 'Db'):
        setattr(m, nm, _kernel(m, nm))
    m.handlers = {}         # contracts install their assumed kernels here
    return m
