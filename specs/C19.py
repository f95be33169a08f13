from life import *
CONTRACTS = ['GenFirst', 'GenNext', 'CleanNone', 'Clean', 'Allocate', 'AllocateCgm', 'Release', 'ReleaseCgm']
HARNESS = ['life']
CASES = 25
TRUSTED = ['the constructor and destructor of the event, as called by the interface: recorded with their arguments; the record built by the constructor is C05 and C16, the destructor is verified here', 'cgmDeleteAllocated, cgmAllocateMemory and specMCalloc (work space of the calculation, one for the whole library): that histories of requests use it safely and leave nothing behind is checked by the bounded replay under AddressSanitizer', 'operator new succeeds']
