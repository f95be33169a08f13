import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'ev.py')).read().split('\nSEEDS = [')[0])
PL = PRE + '#include "cgmfEvents_capi.h"\n#include <malloc.h>\n'
SEEDS = [
dict(id='b30', property='C19', edits=[(CAPI, "  cgmf_fevent = new cgmfEvent(za,erg,tme,tmw);", "  if (tme < 0.0) tme = 0.0; // fission cannot happen before the start of the history\n  cgmf_fevent = new cgmfEvent(za,erg,tme,tmw);")],
 needs='an event requested with a negative start time (times counted from another origin)', what='the particles of the event have the ages of an event at time zero', files=LEV,
 demo=PL + r'''
int main() { setup(); int bad = 0; const double t0[3] = {0., 2e-7, -3e-7};
  for (int k = 0; k < 3; k++) for (int s = 1; s <= 3; s++) { double a = 0, b = 0; eng.seed(s); { cgmfEvent e(98252, 0., t0[k], 1e-8); for (int i = 0; i < e.getPhotonNu(); i++) a += e.getPhotonAge(i); for (int i = 0; i < e.getNeutronNu(); i++) a += e.getNeutronAge(i); }
    eng.seed(s); cgmf_genfissevent(98252, 0., t0[k], 1e-8); for (int i = 0; i < cgmf_getgnu(); i++) b += cgmf_getgtme(i); for (int i = 0; i < cgmf_getnnu(); i++) b += cgmf_getntme(i); cgmf_clean();
    if (a != b) { printf("start time %g: ages add up to %g, from the C interface %g\n", t0[k], a, b); bad = 1; } }
  return bad; }
'''),
dict(id='b31', property='C19', edits=[(EV, "    photonDircosw  = new double [photonNu];\n    photonAges     = new double [photonNu];\n  }\n\n  if (preFissionNeutronNu>0) {", "    photonDircosw  = new double [photonNu];\n    photonAges     = new double [eventLF.nug>0 ? photonNu : eventLF.nug+1];\n  }\n\n  if (preFissionNeutronNu>0) {")],
 needs='a light fragment that emits no photon and a heavy one that does', what='the array of photon ages is too small: the ages are written beyond its end',
 demo=PL + r'''
int main() { int bad = 0; for (int nl = 0; nl < 4; nl++) for (int nh = 1; nh < 40; nh += 13) { static char b[sizeof(cgmfEvent)]; memset(b, 0, sizeof b); cgmfEvent *e = (cgmfEvent *)b; e->eventLF.nug = nl; e->eventHF.nug = nh; e->photonNu = nl + nh; e->neutronNu = 2; e->allocateMemory();
    double *p[5] = {e->photonEnergies, e->photonDircosu, e->photonDircosv, e->photonDircosw, e->photonAges};
    for (int i = 0; i < 5; i++) if (malloc_usable_size(p[i]) < (size_t)(nl + nh) * 8) { printf("array %d has room for %d of %d photons\n", i, (int)malloc_usable_size(p[i]) / 8, nl + nh); bad = 1; } }
  return bad; }
'''),
]
