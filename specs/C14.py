from yields import *
CONTRACTS = ['Gauss', 'YieldA', 'YieldTKE', 'YieldATKE', 'Mean', 'SampledTKE', 'AverageTKE', 'Viola', 'System', 'MassTKE', 'Rescale', 'InitialSpin']
HARNESS = ['yields']
CASES = 13
TRUSTED = ['the charge distribution (Wahl systematics, buildYZA), the yields an event is drawn from (constructYields), sampleGaussian and the sampling of mass and charge: decided by the bounded replay, not by proof', 'spinParameter2: verified under C17', 'the readers of yamodel.dat and tkemodel.dat (iostream) and the tables of Wahl coefficients: every parameter is compared with the file and the publication by the replay', 'exp, log, sqrt, erf, pow: uninterpreted functions', 'rng_cgm: any number in [0,1); that rejection sampling gives the density it compares with is probability theory, checked statistically by the replay']
