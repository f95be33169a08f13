from hf import *
CONTRACTS = ['FindBin', 'Tc2cSum', 'Tc2cPop', 'Tc2dSum', 'Tc2dPop', 'GammaSum', 'GammaPop', 'ContSum0', 'ContSum1', 'ContPop0', 'ContPop1', 'DiscSum', 'DiscPop', 'ParticleSum', 'ParticlePop', 'TranSumSum', 'TranSumPop', 'Bypass', 'Decay', 'OmCalc', 'StoreDisc', 'StoreCont', 'StoreGamma', 'Binary']
HARNESS = ['decay']
CASES = 1500
TRUSTED = ['gamma-ray transmission (gdrGammaTransmission) is a function of its arguments and the resonance parameters and not negative for photons of positive energy', 'level density parameter (ldDensityParameter) is a function of energy, mass and the nucleus', 'level densities and bin widths are not negative', 'wave functions, potential and scattering matrix of the optical model (omSetEnergy, omSetOmp, omPotentialForm, omExternalFunction, omInternalFunction, omSmatrix): only the number of partial waves (at most 48) is assumed', 'the recursions of QW = q T densitySum and QNC = q neutronToBin follow from their definitions (distributivity), stated as rules', 'the arrays of a nucleus are disjoint from those of every other nucleus']
