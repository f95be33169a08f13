from cascade import *
from grid import *
CONTRACTS = ['MainFission', 'HistoryLoop', 'FindNext', 'GammaCascade', 'FixedStart', 'InitialPop', 'StoreLevel', 'EnergyBin', 'InitSystem']
HARNESS = ['event']
CASES = 250
TRUSTED = ['spectraBinary and specEvaporationBin (as seen by the cascade): write only populations, maximum spins and spectra, spins fit the arrays, no population in levels that the neutron cannot reach',
           'statSetupGdrParameter writes nothing the cascade reads (proved under C15)',
           'specFindEnergyBin: particle energies below the end of the grid (124.95 MeV)', 'mass tables']
