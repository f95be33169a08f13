from frag import *
CONTRACTS = ['GetInitialSpin', 'InitialConditions', 'SampleTable', 'SampleYields']
HARNESS = ['frag']
CASES = 40
TRUSTED = ['getMassExcess / mass_excess: a function of (Z,A), above -900 MeV; file and built-in table agree', 'spinParameter2 and Yields::sampleTKE: any value', 'computeFragmentExcitationEnergy, boost_pfn: verified under C02 / C03']
