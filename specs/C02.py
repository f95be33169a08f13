from frag import *
CONTRACTS = ['FragmentExcitationEnergy', 'InitialConditions', 'SampleTable', 'SampleYields']
HARNESS = ['frag']
CASES = 40
TRUSTED = ['getMassExcess / mass_excess: a function of (Z,A), above -900 MeV; file and built-in table agree', 'getLDP: positive', 'Yields::sampleTKE: any value', 'getInitialSpin, boost_pfn: verified under C01 / C03']
