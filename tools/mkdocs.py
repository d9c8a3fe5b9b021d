"""Regenerates properties.jsonl and MANIFEST.json from the table below (run by hand, not by the checks)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, note=''):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), note))


prop('C01', 'Recorded histories are complete, ordered and exported faithfully',
     'Every record appended to the evolution history or to a per-momentum table is kept, in order, with exactly the values given, however many records were '
     'added before and whatever their width. Reading back a row, a range of rows or a column returns what was recorded and never rows that were not; removing '
     'the last record removes only that one. Exported tables contain one line per record with every column expressed in its stated unit.',
     ['histories', 'inputs'], 'all sequences of appends/truncations of any length (storage growth included), any record values and widths',
     'The tests never construct a history container; storage growth and views only show after particular numbers of appends.',
     ['common/utils.py'],
     [('DynamicRecArray', 'common/utils.py:DynamicRecArray'), ('Dynamic2DArray', 'common/utils.py:Dynamic2DArray')])
prop('C02', 'Units and physical constants are mutually consistent at every scale',
     'Natural units hold whatever base scale is chosen: metre, second, kilogram and kelvin are related to the electron-volt by the measured values of the '
     'reduced Planck constant, the speed of light and the Boltzmann constant (all equal to one), and prefixed units are the exact powers of ten of their base. '
     'The particle-physics and gravitational constants have their measured values in those units, with the Planck mass and Newton constant reciprocal.',
     ['configurations'], 'every positive value of the base energy unit', 'Tests look at one ratio at the default scale.',
     ['common/__init__.py', 'numericalunits.py'], [('unit table', 'common/__init__.py:UNITS.reset_units'), ('constants', 'common/__init__.py:CONST')])
prop('C03', 'The cosmological state obeys the Friedmann equation and x = a m at every step',
     'After every update the Hubble rate satisfies H^2 = 8 pi rho / (3 M_pl^2) for the total energy density supplied, elapsed time grows by '
     '(1 - a_old/a_new)/H, and temperature, comoving temperature and scale factor satisfy aT = a T and x = a m. The initial state is fixed by any admissible choice of '
     'initial temperature, scale factor or comoving temperature, a missing step size is refused, and the clock starts from the radiation-domination relation 2 H t = 1.',
     ['inputs', 'configurations'], 'all states, energy densities, step sizes and numbers of species', 'No test constructs a cosmological state.',
     ['common/__init__.py'], [('Params', 'common/__init__.py:Params')])
prop('C04', 'Momentum grids are increasing, span their declared bounds and match their size',
     'Every momentum grid starts at zero or its declared minimum, ends at its declared maximum, is strictly increasing, and has exactly the declared number of points, for '
     'every requested size and range and regardless of previously built grids. The logarithmic grid concentrates points at low momenta with spacing growing geometrically; the grid built '
     'for decay products reaches the energy injected by the decaying species.',
     ['inputs', 'configurations'], 'all sizes, ranges and construction orders', 'Tests check one logarithmic grid of one size.',
     ['common/__init__.py'], [('LinearSpacedGrid', 'common/__init__.py:LinearSpacedGrid'), ('LogSpacedGrid', 'common/__init__.py:LogSpacedGrid'),
                              ('HeuristicGrid', 'common/__init__.py:HeuristicGrid')])
prop('C05', 'Interpolated occupations agree with the grid, neighbours and thermal form',
     'The occupation of a species at an arbitrary momentum equals the recorded one when the momentum is on the grid, lies between the neighbouring recorded values otherwise, and '
     'is the thermal one for species in equilibrium; between grid points a thermal spectrum is reproduced exactly. Above the last grid momentum the thermal-like tail is continued and '
     'never negative. The cell used is always the one that contains the momentum.',
     ['inputs'], 'all grids, distributions, momenta, masses and statistics', 'Tests never interpolate (the interpolation test module does not run in the suite).',
     ['common/__init__.py', 'interactions/four_particle/cpp/integral.cpp'],
     [('interpolations', 'common/__init__.py:linear_interpolation'), ('bracket', 'common/__init__.py:binary_find'),
      ('kernel interpolation', 'interactions/four_particle/cpp/integral.cpp:distribution_interpolation')])
prop('C06', 'ODE steps have the accuracy order they claim and solve the implicit equation',
     'An explicit multi-step correction of order k integrates every polynomial derivative of degree below k exactly, uses only the most recent k derivatives, and falls back to '
     'the order the available history allows. The implicit step returns the solution of its own implicit linear equation with the matching weights, for every order and history length; orders '
     'that are not supported are refused rather than silently replaced.',
     ['inputs', 'histories'], 'all orders, step sizes, histories and linear right-hand sides', 'No test calls a stepper.',
     ['common/integrators/__init__.py'], [('Adams-Bashforth', 'common/integrators/__init__.py:adams_bashforth_correction'), ('Adams-Moulton', 'common/integrators/__init__.py:adams_moulton_solver')])
prop('C07', 'Quadrature integrates over the region requested, whatever its bounds',
     'One- and two-dimensional quadrature equals the Gaussian rule mapped onto the requested region, including reversed, empty and variable inner bounds, and is therefore exact for polynomials up to '
     'the degree of the rule. The paired variants integrate both components as two separate integrations would, and the half-line rule carries the exponential weight.',
     ['inputs'], 'all integrands, intervals and variable inner bounds', 'No test integrates anything.',
     ['common/integrators/__init__.py', 'common/integrators/gauss_laguerre.py', 'common/integrators/paired.py'], [('mapping', 'common/integrators/__init__.py:gaussian'), ('2D', 'common/integrators/__init__.py:double_gaussian')])
prop('C08', 'Equilibrium thermodynamics follows from Fermi-Dirac and Bose-Einstein statistics',
     'For a species in equilibrium number density, energy density, pressure, entropy and the temperature-equation terms equal the corresponding moments of its Fermi-Dirac or Bose-Einstein '
     'distribution in the regime it is in: ultra-relativistic closed forms, the Boltzmann form at low temperature, and the full momentum integral in between. Thermodynamic identities between them (entropy from energy and '
     'pressure, pressure a third of the energy density when massless) hold at every temperature. Statistics, degrees of freedom and masses of the species of the library are the physical ones.',
     ['inputs', 'configurations'], 'all masses, temperatures, scale factors, degrees of freedom and both statistics', 'No test computes a thermodynamic quantity.',
     ['particles/RadiationParticle.py', 'particles/DustParticle.py', 'particles/IntermediateParticle.py', 'common/statistics.py'],
     [('regime modules', 'particles/')])
prop('C09', 'Out-of-equilibrium species are accounted for by moments of their actual spectrum',
     'For a decoupled species the number density, energy density, pressure and entropy are the moments of its recorded spectrum redshifted with the current scale factor. '
     'Its contribution to the temperature equation is minus the energy it gains through collisions, so energy taken from the plasma is given to the species and nothing is counted when the plasma '
     'does not exchange energy with it.',
     ['inputs', 'histories'], 'all spectra, grids, masses, collision rates and scale factors', 'No test builds a species.',
     ['particles/NonEqParticle.py'], [('moments', 'particles/NonEqParticle.py')])
prop('C10', 'A species follows the right regime and its spectrum stays physical',
     'A species is in equilibrium exactly above its decoupling temperature; it shares the plasma temperature and has the equilibrium spectrum there, down to decoupling, and cools as 1/a afterwards. '
     'Out of equilibrium its spectrum changes only by its collision rate times the step, never becomes negative, and a rate that could not be evaluated leaves that momentum unchanged. '
     'The rate applied over a step is the implicit multi-step solution built from the sum over all its reactions and its own history.',
     ['inputs', 'histories', 'configurations'], 'all species, temperatures, spectra, sets of reactions and histories', 'No test builds a species or steps it.',
     ['particles/__init__.py'], [('regime', 'particles/__init__.py:AbstractParticle'), ('update', 'particles/__init__.py:DistributionParticle')])
prop('C11', 'Each evolution step advances one consistent state and records it once',
     'In every step all species are brought to the current state first, all collision rates are evaluated before any spectrum changes, the comoving temperature advances by the energy-conservation '
     'equation summed over every species, and the scale factor by one increment. Every step is recorded exactly once, in order, and below the hand-over temperature passed to the nucleosynthesis table. '
     'Flavour oscillations redistribute one snapshot of rates without creating particles, and the QCD transition swaps quarks for hadrons keeping the entropy.',
     ['histories', 'configurations', 'inputs'], 'all sets of species, states, step sizes and switch settings', 'No test creates a universe.',
     ['evolution.py', 'common/utils.py'], [('step', 'evolution.py:Universe.make_step'), ('record', 'evolution.py:Universe.save')])
prop('C19', 'Configuration switches mean what the environment says',
     'A setting not overridden keeps its default; an override given as text is interpreted in the type of the default, so that a numeric one is a number and a switch turned off in any usual spelling is off. '
     'A name with no default is passed on as the environment gives it, and has no value when the environment does not set it.',
     ['configurations'], 'every switch and every override text', 'Tests run with one environment, all defaults.',
     ['environment.py', 'common/utils.py'], [('lookup', 'environment.py:get')])

exec(open(os.path.join(HERE, 'tools', 'more_props.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'more_props.py')) else None

LEVEL_NOTE = ('Every obligation generated from the current source by the contract verifier is discharged for all inputs (reals in place of floating point; '
              'numpy/scipy by assumed contracts); obligations it cannot decide and functions marked bounded in the evidence are only sampled with random inputs.')
P.sort(key=lambda x: x[0]['id'])
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p, _ in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
m = dict(version=1, setup_cmd='./check --self-test',
         checks=[dict(property=p['id'], quick_cmd='./check ' + p['id'], thorough_cmd='./check %s --tier thorough' % p['id'],
                      technique='contract-based deductive verification: weakest-precondition style symbolic execution of the real functions against contracts, obligations discharged by normal forms, z3 and cvc5',
                      level='proof', level_note=(note + ' ' if note else '') + LEVEL_NOTE) for p, note in P],
         not_applicable=NA)
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
