"""C19 -- configuration switches (environment.get, common.utils.getenv / getboolenv)."""
import random
from vc.registry import contract

E, U = 'environment', 'common.utils'
BOOLS = ['SPLIT_COLLISION_INTEGRAL', 'FIXED_ORDER_1D_QUADRATURE', 'LOGARITHMIC_TIMESTEP', 'ADAMS_BASHFORTH_TEMPERATURE_CORRECTION',
         'ADAMS_MOULTON_DISTRIBUTION_CORRECTION', 'NORMAL_HIERARCHY_NEUTRINOS', 'SIMPSONS_INTEGRATION', 'SIMPSONS_NONEQ_PARTICLES',
         'LAGUERRE_GAUSS_FOR_MASSIVE_EQUILIBRIUM_PARTICLES']
DEFAULTS = dict(SPLIT_COLLISION_INTEGRAL=True, FIXED_ORDER_1D_QUADRATURE=True, GAUSS_LEGENDRE_ORDER=100, GAUSS_LAGUERRE_ORDER=100,
                LOGARITHMIC_TIMESTEP=True, ADAMS_BASHFORTH_TEMPERATURE_CORRECTION=True, ADAMS_MOULTON_DISTRIBUTION_CORRECTION=False,
                MOMENTUM_SAMPLES=401, MAX_MOMENTUM_MEV=100, MAX_SCALE_FACTOR=10, FOUR_PARTICLE_GRID_RESOLUTION=0.24999,
                NORMAL_HIERARCHY_NEUTRINOS=True, REGIME_SWITCHING_FACTOR=1e3, SIMPSONS_INTEGRATION=False,
                SIMPSONS_NONEQ_PARTICLES=True, LAGUERRE_GAUSS_FOR_MASSIVE_EQUILIBRIUM_PARTICLES=True)
FALSE = ['false', 'False', 'FALSE', 'f', 'F', '0', '-1', '']
TRUE = ['true', 'True', 'yes', 'on', '1', 't', 'anything', '2']


@contract('C19', E + '.get', name=BOOLS)
def switch(v, name):
    """a switch given as text is on or off, not merely non-empty"""
    text = v.choice('text', FALSE + TRUE)
    with v.env(**{name: text}):
        M = v.fresh().mod(E)
        got = M.get(name)
    v.check('a truth value', isinstance(got, bool))
    v.eq('meaning', got, text in TRUE)


@contract('C19', E + '.get', name=sorted(DEFAULTS))
def default(v, name):
    with v.env(**{name: None}):
        M = v.fresh().mod(E)
        got = M.get(name)
    v.eq('documented default', got, DEFAULTS[name])
    v.check('type', isinstance(got, bool) == isinstance(DEFAULTS[name], bool))


@contract('C19', E + '.get', name=[k for k in sorted(DEFAULTS) if not isinstance(DEFAULTS[k], bool)])
def number(v, name):
    """an override is returned as a number of the kind of the default"""
    integral = isinstance(DEFAULTS[name], int)
    x = v.int('x', lo=0, span=1000) if integral else v.real('x', nonneg=True)
    with v.env(**{name: x if v.sym else repr(x)}):
        M = v.fresh().mod(E)
        got = M.get(name)
        # the override is seen by every reader, not only the first
        again = M.get(name)
    v.eq('value', got, x, tol=0)
    v.eq('stable', again, x, tol=0)
    if not v.sym:
        v.check('kind', isinstance(got, int) == integral)


@contract('C19', E + '.get')
def unknown(v):
    with v.env(NO_SUCH_SWITCH=None):
        M = v.fresh().mod(E)
        v.check('unset unknown names have no value', M.get('NO_SUCH_SWITCH') is None)
    with v.env(NO_SUCH_SWITCH='text'):
        v.eq('unknown names are passed through', M.get('NO_SUCH_SWITCH'), 'text')


@contract('C19', [U + '.getenv', U + '.getboolenv'])
def utils_env(v):
    M = v.mod(U)
    var = 'VC_SOME_SWITCH'
    text = v.choice('text', [None, 'false', 'f', '0', '-1', 'true', '1', 'yes'])
    dflt = v.choice('default', [None, True, False, 'd'])
    with v.env(**{var: text}):
        v.eq('value', M.getenv(var, dflt), text if text is not None else dflt)
        on = M.getboolenv(var, dflt)
    if text is None:
        v.eq('default decides', bool(on), dflt not in (None, False))
    else:
        v.eq('text decides', bool(on), text in ('true', '1', 'yes'))
