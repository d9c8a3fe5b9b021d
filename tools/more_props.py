# entries exec'd by mkdocs.py
prop('C12', 'Neutrino oscillation probabilities come from a unitary mixing matrix',
     'Time-averaged flavour transition probabilities are the sums of products of squared moduli of the mixing matrix built from the configured angles: they are non-negative, symmetric in the two flavours, and each '
     'flavour\'s add up to one, in vacuum and in matter. In a plasma the mixing angles are those of the stated effective-mixing formula, with potentials growing as momentum squared times the fourth power of the temperature.',
     ['inputs', 'configurations'], 'all momenta, matter potentials, temperatures and both mass hierarchies', 'No test evaluates a mixing probability.',
     ['library/SM.py', 'evolution.py'], [('probabilities', 'library/SM.py:leptons.oscillations_map'), ('potentials', 'evolution.py:Universe')])
prop('C13', 'Crossing a declared process yields every reaction it implies, each exactly once',
     'From a declared interaction every kinematically possible assignment of its particles to the initial and final state is derived for every participating species exactly once, and no impossible one. Each carries the squared '
     'amplitude of the declared matrix elements with momenta relabelled and signs changed as crossing demands, amplitudes of identical reactions being added.',
     ['inputs', 'configurations'], 'all declared processes of three and four particles, masses and matrix elements', 'No test derives a reaction.',
     ['interactions/__init__.py', 'interactions/four_particle/__init__.py', 'interactions/three_particle/__init__.py'], [('crossing', 'interactions/__init__.py')])
prop('C16', 'Collision rates are evaluated for the right momenta, particles and units',
     'The rate of change of a species by a reaction is the phase-space kernel for exactly the participating species, statistics, temperatures and matrix elements, evaluated at the momenta of its grid that the '
     'reaction allows, times the conversion factor to comoving units; momenta outside get zero. Integration limits cover every momentum that energy conservation allows.',
     ['inputs', 'configurations'], 'all reactions, momenta, masses, temperatures and selections of collision terms', 'No test evaluates a collision rate.',
     ['interactions/four_particle/__init__.py', 'interactions/three_particle/__init__.py', 'common/kinematics.py'],
     [('four-particle rate', 'interactions/four_particle/__init__.py'), ('three-particle rate', 'interactions/three_particle/__init__.py'), ('limits', 'common/kinematics.py')])
prop('C17', 'Neutron-proton conversion rates follow from the weak interaction',
     'The six rates turning neutrons into protons and back are the phase-space integrals of the weak processes with the occupation and blocking factors of electrons, positrons and neutrinos; kinematically closed '
     'channels vanish. In thermal equilibrium each process and its inverse differ by the Boltzmann factor of the neutron-proton mass difference, and free neutron decay is the unit of the rates.',
     ['inputs'], 'all temperatures, lepton spectra and scale factors', 'No test computes a rate.',
     ['kawano.py'], [('rates', 'kawano.py:baryonic_rates')])
prop('C18', 'Unstable species decay consistently with what was created',
     'A massive species is dropped only once its density fell below a fixed fraction of the initial one, and reactions that can no longer occur contribute exactly zero. A short-lived species decays, over a step, into as many '
     'products as the number created in that step times the branching ratio, and a process producing several copies of a species counts each of them.',
     ['inputs', 'histories', 'configurations'], 'all spectra, branching ratios, densities and reaction types', 'No test lets a species decay.',
     ['common/kinematics.py', 'interactions/four_particle/__init__.py', 'interactions/three_particle/__init__.py'],
     [('fast decay', 'common/kinematics.py:Icoll_fast_decay'), ('neglect', 'common/kinematics.py:Neglect4pInteraction'), ('depletion', 'common/kinematics.py:has_decayed')])
prop('C20', 'Semi-analytic helium estimates use the right epochs and are made once',
     'Neutron decoupling is recorded at the first step at which the neutron-to-proton and proton-to-neutron conversion rates differ by more than a factor of ten, and deuterium formation at the first step at or below '
     'its fixed temperature. Once both are known the neutron fraction is the equilibrium one at decoupling reduced by free decay until deuterium formation, the helium fraction follows from it, and later steps do not change the estimate.',
     ['histories', 'inputs'], 'all histories of rates, temperatures and times', 'No test computes an estimate.',
     ['semianalytic.py'], [('estimate', 'semianalytic.py:step_monitor')])
prop('C14', 'Compiled collision kernels integrate the Boltzmann term over all allowed states',
     'At each momentum the compiled kernels integrate kinematic factor times amplitude times gain minus loss (or the part selected by the kind of the reaction), with energy conserved and nothing added where momenta cannot balance; '
     'thermal spectra of one temperature give zero. The ranges of integration contain every state of the other particles that energy and momentum conservation allow within the grid limits, and the '
     'result at one momentum is unaffected by the others or by parallel evaluation.',
     ['inputs', 'configurations', 'schedules'], 'all momenta, masses, statistics, spectra, kinds of reaction and batches of momenta', 'No test evaluates a kernel: the suite does not build them.',
     ['interactions/four_particle/cpp/integral.cpp', 'interactions/four_particle/cpp/integral.h', 'interactions/three_particle/cpp/integral.cpp', 'interactions/three_particle/cpp/integral.h'],
     [('integrands', 'interactions/four_particle/cpp/integral.cpp:integrand_full'), ('ranges', 'interactions/four_particle/cpp/integral.cpp:integration'), ('three-particle rate', 'interactions/three_particle/cpp/integral.cpp:integration_3')])
prop('C15', 'Angular kernels of four-particle collisions equal their defining integrals',
     'For all momenta the closed-form angular kernels equal the integrals of products of spherical waves that define them, hence are symmetric under the permutations those integrals allow and vanish when the momenta cannot balance. '
     'The amplitude built from them has the sign and mass factors of each crossing, and its zero-momentum form is the limit of the general one.',
     ['inputs', 'configurations'], 'all non-negative momenta, masses, sides and orderings of the four particles', 'No test evaluates a kernel.',
     ['interactions/four_particle/cpp/Ds.cpp'], [('D1, D2, D3', 'interactions/four_particle/cpp/Ds.cpp:D1'), ('amplitude', 'interactions/four_particle/cpp/Ds.cpp:D'), ('at rest', 'interactions/four_particle/cpp/Ds.cpp:Db')])
prop('C21', 'Momentum grids of heavy neutral leptons and their products resolve spectra',
     'A heavy neutral lepton decouples where its interaction rate equals the expansion rate, never below its mass. The grids chosen for it and for its decay products reach every momentum that is thermally populated or '
     'produced by the decays up to the largest scale factor, and have a point for every interval of a resolution that is positive and no coarser than configured.',
     ['inputs', 'configurations'], 'all masses, mixing angles, resolutions and grid settings', 'No test chooses such a grid.',
     ['common/kinematics.py'], [('decoupling', 'common/kinematics.py:decoupling_temperature'), ('resolution', 'common/kinematics.py:grid_resolution_neutrino'), ('grids', 'common/kinematics.py:grid_params_neutrino')])
prop('C22', 'Library processes follow the weak couplings and conserve charge',
     'The library includes, for any heavy neutral lepton mass, exactly once each, the weak processes of active neutrinos, charged leptons, mesons, quarks and the heavy neutral leptons with every flavour they mix with; all of them conserve electric charge, and every decay open '
     'at that mass is present. Squared amplitudes are those of Fermi theory with neutral-current couplings set by flavour, charge and weak isospin, quark mixing, decay constants and the mixing angle of the flavour involved, '
     'equal for charge conjugates and not negative for decays; charges, quark mixing and decay constants have their measured values.',
     ['inputs', 'configurations'], 'all masses, mixing angles, sets of flavours and momenta', 'No test evaluates an amplitude or lists the processes.',
     ['library/SM.py', 'library/NuMSM.py', 'interactions/__init__.py'], [('heavy neutral leptons', 'library/NuMSM.py:interactions'), ('standard model', 'library/SM.py:interactions')])
prop('C23', 'Decay chains include each decay once and inject all of its products',
     'For any set of primary mesons every unstable particle of the decay chain decays, each channel once, conserving electric charge, and both charge states are accounted for. Per decay, each product is injected in the number given by the branching ratios, '
     'which have their measured values, as have lifetimes, and add up to between nine tenths and one, each squared amplitude being the one that gives its decay that rate; the terms of secondary particles are creations and decays only, of the selected kind.',
     ['inputs', 'configurations'], 'sets of primary mesons and all branching ratios', 'No test builds a decay chain.',
     ['library/SM.py', 'library/NuMSM.py', 'common/kinematics.py'], [('chains', 'library/SM.py:interactions.meson_interactions'), ('secondary particles', 'library/NuMSM.py:interactions.interactions_decay_products'), ('multiplicity', 'common/kinematics.py:CollisionMultiplier4p')])
