REALS = 'Doubles are treated as reals, machine integers as mathematical integers, distinct pointer arguments as non-overlapping; clang 18 (front end, mem2reg/simplifycfg), the VC generator and the SMT solvers are trusted. A bounded replay of the executable contracts on the compiled code accompanies the proof and is not counted as proof. '
FF, KIN = 'libcgmf/src/FissionFragments.cpp', 'libcgmf/src/kinematics.cpp'
TESTS = 'The tests compare a few fixed-seed runs with stored output (only the yields runs and the Python readers work here); '
P = [
dict(id='C01', title='Fragment pairs conserve nucleons and charge and have valid quantum numbers',
 statement='For every sampled fission event the mass and charge numbers of the two primary fragments add up to those of the fissioning nucleus, which is the compound nucleus less the pre-fission neutrons emitted. The light fragment is never heavier than the heavy one, every fragment spin is a non-negative integer for even mass and half-odd for odd mass, and every parity is +1 or -1. The fragment kinetic energies add up to the total kinetic energy in inverse proportion to the fragment masses, and post-emission momenta start equal to the initial ones.',
 over=['inputs', 'histories'], qtext='every supported fissioning system and incident energy, every random-number sequence, both samplers (tabulated and parametrised yields)',
 why=TESTS + 'a wrong pair produced for a rare draw (symmetric split, odd/even mass, table corner) does not show there.',
 files=[FF], mech=[('pair sampling', FF + ': sampleFissionFragments'), ('initial conditions', FF + ': computeFragmentInitialConditions'), ('spin sampling', FF + ': getInitialSpin')], obs=['fragment records returned for an event', 'yields output'],
 note=REALS + 'Trusted callees: mass tables (a function of Z and A giving positive masses), TKE sampling (any number), spin cut-off parameter (any number).'),
dict(id='C02', title='Excitation energy balance of a fission event',
 statement='For every accepted fragment pair the two excitation energies are non-negative and add up exactly to the fission Q-value of that split plus the excitation energy of the fissioning nucleus minus the total kinetic energy, and the recorded energy release is that Q-value. When pre-fission neutrons are emitted, the excitation energy of the fissioning nucleus is what their separation and emission energies leave over. A pair that is energetically forbidden never carries excitation energy and is not accepted by the event sampler.',
 over=['inputs', 'histories'], qtext='every system, incident energy, TKE draw and random-number sequence; all energy-sorting options that split by temperature ratio',
 why=TESTS + 'none of them states an energy balance, and violations confined to an energy window (such as the second-chance threshold) or a rare split pass unnoticed.',
 files=[FF], mech=[('energy sharing', FF + ': computeFragmentExcitationEnergy'), ('initial conditions', FF + ': computeFragmentInitialConditions'), ('fissioning system after pre-fission neutrons', FF + ': constructYields, getPrefissionNeutronEnergy')], obs=['fragment excitation energies, TKE and energy release of an event'],
 note=REALS + 'The option "maxEntropy" is excluded. Trusted: level-density parameters are positive; both mass sources agree. The pre-fission energy bookkeeping across the grid is checked by the bounded replay only.'),
dict(id='C03', title='Pre-fission stage conserves momentum and kinetic energy',
 statement='For every event the momenta of the two fragments and of all pre-fission neutrons add up to the momentum of the incident particle, and each pre-fission neutron reported in the laboratory frame has the velocity and energy obtained from its centre-of-mass emission and the motion of the nucleus that emitted it. In the frame of the fissioning nucleus the two fragments are back to back and share the total kinetic energy.',
 over=['inputs', 'histories'], qtext='all masses and charges, incident energies, TKE values, pre-fission multiplicities 0..3, emission energies and directions',
 why=TESTS + 'no test examines momenta, and the order of several emissions matters only for multi-chance events.',
 files=[KIN], mech=[('recoil and boost', KIN + ': boost_pfn, neutron_emission_boost')], obs=['fragment momenta, pre-fission neutron energies and directions'],
 note=REALS + 'Known finding: after a pre-equilibrium neutron the emitter mass is not reduced (listed, not proved). Trusted: mass table.'),
dict(id='C04', title='Neutron and photon emission kinematics from a fragment',
 statement='Along the neutron cascade of a fragment the momentum carried by the neutrons plus the final fragment momentum equals the initial fragment momentum, for any number of neutrons. Every laboratory neutron energy is the kinetic energy of its laboratory velocity, which is its centre-of-mass velocity plus that of the nucleus emitting it, and its centre-of-mass velocity carries the evaporated energy. Every photon keeps its direction between frames with momentum equal to its energy, Doppler shifted by the recoiling fragment.',
 over=['inputs', 'histories'], qtext='all fragments, initial momenta, 0..10 neutrons, 0..50 photons, all emission energies and directions',
 why=TESTS + 'they do not relate momenta and energies of one event, and long cascades are rare.',
 files=[KIN], mech=[('emission cascade boost', KIN + ': boost, neutron_emission_boost')], obs=['laboratory energies and directions of neutrons and photons, post-emission fragment momentum'],
 note=REALS + 'Trusted: mass table. Photon count treated without bound; neutron loop bound 10 is the array size.'),
dict(id='C05', title='An event record is complete and consistent with the decay of its fragments',
 statement='Every event lists exactly the neutrons and photons emitted by its two fragments, light fragment first, each in order of emission with its own energy, unit direction and age; the event multiplicities are the sums of the fragment multiplicities. Each fragment record keeps the sampled mass, charge, excitation energy, spin, parity, kinetic energy and momentum, its direction cosines are those of its momentum, and the recorded neutrons together with the final fragment momentum carry the initial momentum. Pre-fission neutrons are as many as the compound nucleus lost and their energies and directions are those of their laboratory velocities. Conversion electrons are not listed, and neutrons are emitted at the time of fission.',
 over=['inputs', 'histories'], qtext='every supported reaction and energy, every decay history up to the multiplicity limits (10 neutrons and 50 photons per fragment), every random-number sequence',
 why=TESTS + 'a swapped, dropped or mis-ordered particle of a rare multiplicity leaves averages and stored sums unchanged.',
 files=['libcgmf/src/cgmfEvents.cpp', 'libcgmf/src/specmc.cpp'], mech=[('assembly of the event', 'libcgmf/src/cgmfEvents.cpp: cgmfEvent::cgmfEvent'), ('recording a history', 'libcgmf/src/specmc.cpp: recordEmittedParticlesFission')], obs=['all accessors of an event', 'history file'],
 note=REALS + 'Known finding: the kinetic energy after emission uses the mass before emission (listed). Trusted: frame of specMCMainFission at the constructor, mass tables.'),
dict(id='C06', title='Accessors return exactly what the event recorded',
 statement='For every event, every C++ accessor and every function of the C interface returns the recorded value of the quantity it is named after, for its own fragment, frame and particle index. Any index outside 0..multiplicity-1, negative ones included, returns -1 and reads nothing. Reading never changes the event.',
 over=['inputs'], qtext='all events (any multiplicities and contents) and all integer indices',
 why=TESTS + 'no test calls the accessors; a crossed accessor (for instance heavy for light, v for w, c.m. for laboratory) is invisible in the history file.',
 files=['libcgmf/include/cgmfEvents.h', 'libcgmf/src/cgmfEvents_capi.cpp'], mech=[('C++ accessors', 'libcgmf/include/cgmfEvents.h: cgmEvent::get*, cgmfEvent::get*'), ('C interface', 'libcgmf/src/cgmfEvents_capi.cpp: cgmf_get*')], obs=['return values'],
 note=REALS + 'Accessors that are declared but not defined (cgmf_getpost??dircos?) and float rounding of spins are outside.'),
dict(id='C07', title='Only supported reactions are accepted, and all supported reactions are',
 statement='An event or a yields run is produced only for spontaneous fission (incident energy zero) of Pu-238, Pu-240, Pu-242, Pu-244, Cf-252 or Cf-254, or for neutron-induced fission of U-233, U-234, U-235, U-238, Np-237, Pu-239 or Pu-241 with an incident energy above 0 and at most 20 MeV. Every other combination is rejected with an error exit before anything is sampled, and every supported combination is accepted. The event reports the reaction it was made for.',
 over=['inputs'], qtext='all integers as target identifier and all incident energies',
 why=TESTS + 'they use a few supported reactions only; acceptance of an unsupported one is never tried.',
 files=['libcgmf/src/cgmfEvents.cpp'], mech=[('admission', 'libcgmf/src/cgmfEvents.cpp: cgmfEvent::checkInput, cgmfEvent::cgmfEvent, cgmfYields::cgmfYields')], obs=['exit status', 'event record'],
 note=REALS + 'Negative identifiers for spontaneous fission may be accepted or rejected. Trusted: the sampler below the constructor.'),
dict(id='C08', title='Every cascade step conserves energy and follows the decay chain',
 statement='The decay of a fragment starts from its own charge, mass, excitation energy, spin and parity. Every emission of the cascade is either a photon or conversion electron, which leaves the nucleus unchanged and carries exactly the difference of the excitation energies before and after, or a neutron, which leads to the isotope with one neutron less and carries that difference less the neutron binding energy given by the mass excesses. No emission has a negative energy, discrete states have the energies of their levels, and without a time window every cascade ends in the ground state, so that the emitted energies and binding energies add up to the initial excitation energy.',
 over=['inputs', 'histories'], qtext='all fragments, excitation energies, spins and parities, level schemes, decay histories of up to 99 steps, and random-number sequences',
 why=TESTS + 'they cannot run events here, and averages hide a cascade that loses or gains energy in a rare branch.',
 files=['libcgmf/src/specmc.cpp', 'libcgmf/src/popinit.cpp', 'libcgmf/src/setup.cpp'], mech=[('cascade', 'libcgmf/src/specmc.cpp: specMCMainFission, mcHistoryLoop, mcFindNext, mcGammaCascade, mcStoreHistory'), ('start of the cascade', 'libcgmf/src/popinit.cpp: statSetupInitialPopulationSpec, statStoreLevelExcite'), ('decay chain', 'libcgmf/src/setup.cpp: statSetupInitSystem, statSetupEnergyBin')], obs=['energies and kinds of the emitted particles', 'decay history'],
 note=REALS + 'Known finding: a fragment excited below its continuum starts from the level above the nearest one (listed). Trusted: spectraBinary and level density set-up (frames, and that no neutron populates a level it cannot reach), a well-formed level file, mass table.'),
dict(id='C09', title='Emission times and the time coincidence window',
 statement='Neutrons and continuum photons are emitted at the time of fission. A photon of a discrete level is emitted after the decays that precede it: times along a cascade are not negative and never decrease, and a level without half-life decays at once. With a positive time window no photon is emitted later than the window, and the cascade stops in the level that outlives it; without one every cascade is followed to the ground state. Every event uses the time window it was requested with, and the ages it reports are its time of fission plus the emission times, in the order of the photons.',
 over=['inputs', 'histories'], qtext='all events, times, windows, level schemes with any half-lives, and cascades',
 why=TESTS + 'isomeric cascades are rare, and ages are not compared.',
 files=['libcgmf/src/specmc.cpp', 'libcgmf/src/cgmfEvents.cpp'], mech=[('clock of the cascade', 'libcgmf/src/specmc.cpp: mcGammaCascade, set_time_coincidence_window'), ('ages', 'libcgmf/src/specmc.cpp: recordEmittedParticlesFission; libcgmf/src/cgmfEvents.cpp: cgmfEvent::cgmfEvent')], obs=['photon and neutron ages', 'number of photons'],
 note=REALS + 'Trusted: log(x) <= 0 below 1, callees of the cascade as for C08. The mean life of a level is checked by bounded replay (under C10).'),
dict(id='C10', title='Discrete levels decay only along the branches of the level scheme',
 statement='Once a cascade reaches a discrete level it stays within the discrete levels of that nucleus: every further step goes from a level to a lower one along one of its branches, carries the difference of the two level energies, and is a photon or a conversion electron. Branches are taken with their branching ratios, converted with their conversion probabilities, and levels live for their half-lives on average. A state of the continuum leads to existing bins and levels only: of the same nucleus by photon emission, of the next isotope by neutron emission through an open channel.',
 over=['inputs', 'histories'], qtext='all level schemes with branches to lower levels, all start levels and random numbers',
 why=TESTS + 'a transition that skips a branch or carries the wrong difference changes single lines only.',
 files=['libcgmf/src/specmc.cpp'], mech=[('discrete cascade', 'libcgmf/src/specmc.cpp: mcGammaCascade, mcStoreHistory'), ('continuum step', 'libcgmf/src/specmc.cpp: mcFindNext')], obs=['discrete photon energies, decay history'],
 note=REALS + 'The probabilities of branches, conversion and life times are checked by bounded replay only (12 levels, 20000 samples). Trusted: level schemes.'),
dict(id='C11', title='Continuum states decay by their transmission coefficients, conserving flux',
 statement='When a state of the continuum decays, its whole population is distributed over states of the same nucleus at lower energy (photons) and, if the neutron channel is open, over states of the next isotope that the energy allows (neutrons): the shares add up to exactly what the state held, none is negative, and the population of the state itself is not changed. Each final state receives a share proportional to its transmission coefficient (times level density and bin width in the continuum): E1 photons change parity, M1 and E2 do not, neutrons of orbital angular momentum l change it by (-1)^l, and the spins of initial state, emitted radiation and final state satisfy the triangle rule. A state without any such decay feeds discrete levels of its own nucleus. No level or bin that energy forbids is ever fed, and no access leaves the tables.',
 over=['inputs'], qtext='all nuclei, level schemes, level densities, energy grids, spins and parities, and transmission coefficients',
 why=TESTS + 'they run no decay at all here, and a lost or doubled share of a rare final state only shifts spectra slightly.',
 files=['libcgmf/src/specmain.cpp', 'libcgmf/src/gampop.cpp', 'libcgmf/src/parpop.cpp', 'libcgmf/src/stattrans.cpp'], mech=[('decay of a bin', 'libcgmf/src/specmain.cpp: spectraBinary, specCompoundDecay, specTransmissionSum, specPopulationBypass'), ('photons', 'libcgmf/src/gampop.cpp: specTransitionGamma, specTc2c, specTc2d'), ('neutrons', 'libcgmf/src/parpop.cpp: specTransitionParticle, specTransitionParticleCont, specTransitionParticleDisc'), ('transmission coefficients', 'libcgmf/src/stattrans.cpp; libcgmf/src/omcalc.cpp: omCalc')], obs=['populations of the nuclei after a decay', 'neutron and photon spectra'],
 note=REALS + 'Trusted: gamma-ray transmission not negative, level densities and bin widths not negative, number of partial waves of the optical model at most 48. The multipole-by-multipole shares are proved per function; that the shares of one state add up over functions is proved by a ghost total.'),
dict(id='C12', title='The decay chain and the energy grid of an excited nucleus',
 statement='For any nucleus and excitation energy the number of neutrons that may be emitted is the largest one (at most 9) that the energy allows after paying each neutron separation energy of the mass table. The nuclei of the chain differ by one neutron each, carry the energy left, and their neutron channel is open exactly if that energy exceeds the separation energy. The continuum of a nucleus is represented by equidistant bins from its excitation energy down to its last discrete level, never below it, within the arrays, with all populations zero at the start.',
 over=['inputs'], qtext='all nuclei, excitation energies, mass tables, level schemes and array dimensions',
 why=TESTS + 'a chain or grid that is off by one only shifts spectra slightly.',
 files=['libcgmf/src/setup.cpp'], mech=[('number of neutrons and chain', 'libcgmf/src/setup.cpp: statTotalNeutrons, statSetupInitSystem'), ('energy bins', 'libcgmf/src/setup.cpp: statSetupEnergyBin')], obs=['reachable nuclei, continuum energies'],
 note=REALS + 'Trusted: mass table and non-negative level energies.'),
dict(id='C13', title='Every nucleus decays with its own, normalised level scheme',
 statement='For every nucleus of a decay chain the discrete levels used are exactly those of its own entry in the level file: as many as listed, each with its energy, spin, parity, half-life and branches in the order of the file. The branching ratios of a level keep the proportions of the file and add up to one; the photon fraction of a branch is 1/(1+ICC). Every branch leads to a lower level. A level without listed transitions decays in equal parts to all lower levels it can reach by E1 (the first excited level to the ground state; if there is none, to the lowest level of the closest spin), and a nucleus without an entry has its ground state only, with spin and parity 0+, 1+ or 1/2+ for even-even, odd-odd and odd nuclei.',
 over=['inputs'], qtext='all level files of the documented format, all nuclei and chain lengths',
 why=TESTS + 'the level file is not even part of the repository, so no test reads one.',
 files=['libcgmf/src/ripl2levels.cpp'], mech=[('look-up', 'libcgmf/src/ripl2levels.cpp: getDiscreteLevels, riplGSonly'), ('branches', 'libcgmf/src/ripl2levels.cpp: riplNormalizeBranch, riplFixTransition'), ('reader', 'libcgmf/src/ripl2levels.cpp: readDiscreteLevelData')], obs=['level schemes of the nuclei', 'discrete photon energies'],
 note=REALS + 'The parsing of the file (readDiscreteLevelData) is checked by bounded replay on generated files only.'),
dict(id='C14', title='Fragment masses, charges, energies and spins follow the model of the reaction',
 statement='The distributions the initial fragments of an event are drawn from are those of the nucleus that fissions, at its own (effective) energy. The mass yield is the sum of five normal distributions (a symmetric one at half the mass and two pairs at a mean mass and its complement) with the weights, means and widths of yamodel.dat for that nucleus (those of the first chance, shifted in mass, if it has none); the weights add up to two, a mass and its complement have the same yield, yields below 1e-5 are cut off, and the result is normalised to one. The total kinetic energy for a mass is normally distributed with the polynomial mean and width of tkemodel.dat (140 and 7 MeV beyond the fitted masses), the same for a mass and its complement, and rescaled so that its mean over all masses is the mean of the reaction, linear in energy on both sides of an inflection point (Viola systematics for a nucleus without parameters). The charge of a mass follows the Wahl systematics (LA-13928) with odd-even factors and is normalised to the yield of the mass. The spin follows (2J+1) exp(-J(J+1)/2B^2), integer or half-integer as the mass is even or odd. Sampled masses, charges, kinetic energies and spins have these distributions.',
 over=['inputs'], qtext='all nuclei, chances, energies, masses, charges and contents of the parameter files',
 why=TESTS + 'the reference yields of three reactions are compared after the fact; a parameter taken from the wrong nucleus, mode or energy interval elsewhere is not seen.',
 files=['libcgmf/src/Yields.cpp', FF, 'data/yamodel.dat', 'data/tkemodel.dat'], mech=[('masses', 'libcgmf/src/Yields.cpp: gaussian, setFissioningSystem, yieldA, setYieldParameters, LoadYAParams'), ('kinetic energy', 'libcgmf/src/Yields.cpp: setParametersAverageTKE, setRescaleTKE, averageTKE, ViolaSyst, yieldTKE, yieldATKE, get_avTKE, sampleTKE, sampleGaussian'), ('charge, spin and sampling', FF + ': constructYields, ZDistribution, buildYZA, getInitialSpin, sampleFissionFragments')], obs=['Y(A), Y(Z,A), TKE and initial spins of the fragments'],
 note=REALS + 'exp, sqrt and pow are uninterpreted. Proved: Yields.cpp from the parameters to the sampled kinetic energy, except the file readers and sampleGaussian. Also proved: the weights and the acceptance of the spin sampling. The charge distribution and the rejection sampling of mass and charge are decided by a bounded replay against an independent implementation and by statistical tests at 8 standard deviations. Known finding: the width of the symmetric mode.'),
dict(id='C15', title='Level densities and gamma strengths follow the models of the nucleus',
 statement='The level density of every continuum bin of a nucleus is that of the Gilbert-Cameron model with the parameters of that nucleus (pairing energy and shell correction from the table, spin cut-off of its own discrete levels): constant temperature below the matching energy, Fermi gas with an energy-dependent level density parameter above, agreeing at the matching energy; if the two cannot be matched to the number of known levels, temperature and energy shift come from the systematics. The temperature is positive and finite. The density is shared equally between the parities and by the spin distribution at the spins of the nucleus (half-integer for odd mass), and is never negative. The gamma transmission coefficient of multipolarity L is 2 pi E^(2L+1) times the sum of the strengths of the resonances of that multipolarity of that nucleus (E1 generalised Lorentzian of Kopecky and Uhl, split for deformed nuclei; M1 and E2 standard Lorentzian; M1 normalised to E1 at 7 MeV by 17.01 A^-0.878), and is never negative.',
 over=['inputs'], qtext='all nuclei, level schemes, excitation energies, photon energies, deformations and parameter tables',
 why=TESTS + 'no test evaluates a level density or a gamma strength, and a factor wrong in one branch only bends the spectra.',
 files=['libcgmf/src/levden.cpp', 'libcgmf/src/setup.cpp', 'libcgmf/src/gtrans.cpp', 'libcgmf/src/kcksyst.cpp'], mech=[('level density', 'libcgmf/src/levden.cpp: ldLevelDensity, ldTGconnect, ldTextrapolate, ldSpinDistribution, ldFermiGas; libcgmf/src/setup.cpp: statSetupLevelDensityParameter, statSetupLevelDensity'), ('parameters', 'libcgmf/src/kcksyst.cpp: getkcksystdat'), ('gamma strength', 'libcgmf/src/gtrans.cpp: gdrGammaTransmission; libcgmf/src/setup.cpp: statSetupGdrParameter')], obs=['neutron and photon spectra', 'level densities of the nuclei'],
 note=REALS + 'exp, log and pow are uninterpreted functions with sign and monotonicity rules. Trusted: the level density parameter is positive for the tabulated shell corrections (the replay checks the table).'),
dict(id='C16', title='The driver generates, writes and summarises every event faithfully',
 statement='A run of the command-line driver generates exactly the requested number of events for the requested reaction and time window; event number k is generated from seed k alone, so it is the same in every run whatever the run length or starting event, and repeating a run reproduces its files. Every event is written once, in order, with every field of the documented record: both fragment lines, momenta, c.m. and laboratory neutrons, photons (with their ages for an infinite window) and pre-fission neutrons, each for its own fragment. The summary averages are the sums over all events divided by the number of events or of particles. Every option sets its own parameter, and a time window that is neither -1 nor non-negative is refused. With a negative number of events the sampled fragment pairs are written instead, from the given seed.',
 over=['inputs', 'histories'], qtext='all option values, run lengths and starting events; all events with any multiplicities (records and sums)',
 why=TESTS + 'none runs events or compares two runs, and a field swapped for heavy fragments or for events with pre-fission neutrons goes unnoticed.',
 files=['utils/cgmf/cgmf.cpp'], mech=[('event loop', 'utils/cgmf/cgmf.cpp: main'), ('history file', 'utils/cgmf/cgmf.cpp: printEventToFile'), ('summary', 'utils/cgmf/cgmf.cpp: recordEvent, printSummaryEvents'), ('options', 'utils/cgmf/cgmf.cpp: readUserInput')], obs=['history file', 'yields file', 'printed summary', 'exit status'],
 note=REALS + 'Without MPI. Printed output is modelled token by token from the literal formats; rounding of the printed decimals, getopt, atoi and atof are trusted. That an event depends on nothing but its seed inside the library (end-to-end repetition and splitting) and the content of the yields file are checked by bounded replay only.'),
dict(id='C17', title='Every nucleus and reaction gets its own entry of the nuclear data tables',
 statement='A reaction is accepted only for the supported targets and modes (233,234,235,238U, 237Np, 239,241Pu with a neutron beam; 238,240,242,244Pu, 252,254Cf spontaneous), and is then set up for the nucleus and the beam energy that were asked for: the fissioning nucleus is the target plus the neutron of the beam, with its own mass and neutron separation energy. Each nucleus gets its own entry of the tables: the mass excess of the data file and the same one, to rounding, of the built-in table (a nucleus without an entry stops the run), the deformation (0.2 if missing), the temperature and the level density parameter interpolated linearly in excitation energy between the tabulated points of that nucleus (5 if missing), and the spin cut-off parameter of its own deformation, temperature and spin scaling factor. Each reaction gets its own spin scaling coefficients (user value first, tabulated next, default last), and its own anisotropy, that of the target at the tabulated beam energy nearest to the actual one (isotropic outside the table), from which the cumulative angular distribution is built: 50 equidistant points in cos(theta), density 1+(W-1)cos^2, from 0 to 1.',
 over=['inputs'], qtext='all nuclei, excitation energies, reactions, beam energies and contents of the data tables',
 why=TESTS + 'no test reads back a table entry; a lookup wrong for one nucleus or energy interval is not seen by runs of a few events.',
 files=[FF, 'libcgmf/src/masstable.cpp', 'data/masses.dat'], mech=[('lookups', FF + ': getMassExcess, getDeformation, getTemperature, getLDP, findEnergyIndex, getSpinScalingCoefficients, setSpinStrength, spinParameter2; libcgmf/src/masstable.cpp: mass_excess'), ('reaction', FF + ': FissionFragments(int,double,double), setOptions, computeFragmentAngularDistribution'), ('readers', FF + ': readMasses, readDeformations, readTemperatures, readLDP, readSpinScaling, readAnisotropy')], obs=['masses, spins, excitation energies and angles of the fragments'],
 note=REALS + 'pow is uninterpreted. The readers of the data files (C++ streams) are outside the proof: the bounded replay compares every entry of every table with the file, for all nuclei.'),
dict(id='C19', title='The C interface holds exactly the event of the last request',
 statement='After every request for an event through the C interface, whatever was requested before, the interface holds exactly one event, generated for the target, energy, start time and time window of that request, and all accessors speak of it; it is the same event as the one the library generates for that request and random number stream on its own. The event held before is deleted, once, before the new one is generated. Cleaning up deletes the event held, if any, and leaves none, so that it can be repeated and be followed by new requests. Every array of an event has room for all its particles, and is released once when the event is deleted, and only if it was made.',
 over=['histories', 'inputs'], qtext='all sequences of requests and clean-ups; all multiplicities',
 why=TESTS + 'none uses the C interface, and memory errors appear only for particular sequences of calls or multiplicities.',
 files=['libcgmf/src/cgmfEvents_capi.cpp', 'libcgmf/src/cgmfEvents.cpp'], mech=[('event held', 'libcgmf/src/cgmfEvents_capi.cpp: cgmf_genfissevent, cgmf_clean'), ('storage', 'libcgmf/src/cgmfEvents.cpp: cgmfEvent::allocateMemory, cgmfEvent::~cgmfEvent, cgmEvent::allocateMemory, cgmEvent::~cgmEvent')], obs=['values of the accessors', 'absence of memory errors'],
 note='Each entry point is verified from both states of the interface (an event held or none), so the result holds for every sequence by induction. That an event does not depend on earlier ones inside the library (its work space and tables are global) is checked by bounded replay of random histories under AddressSanitizer only.'),
]
