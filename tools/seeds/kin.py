FF, KIN = 'libcgmf/src/FissionFragments.cpp', 'libcgmf/src/kinematics.cpp'
PRE = r'''#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <string>
#include <random>
#include <iostream>
#include <sstream>
#include <fstream>
#include <iomanip>
#include <algorithm>
#include <map>
#include <vector>
#include <functional>
#define private public
#define protected public
#include "cgm.h"
#include "masstable.h"
#include "physics.h"
#include "kinematics.h"
#include "config.h"
#include "config-ff.h"
#include "FissionFragments.h"
#include "cgmfEvents.h"
#include "ripl2levels.h"
#include "terminate.h"
#include "rngcgm.h"
#undef private
#undef protected
static std::mt19937_64 eng(12345);
static double U() { return std::uniform_real_distribution<double>(0., 1.)(eng); }
extern std::string datadir;
static void setup() { rng_cgm = U; datadir = getenv("CGMFDATA"); alignas(cgmfEvent) static char b[sizeof(cgmfEvent)]; new (b) cgmfEvent(); }
static double mass(int Z, int A) { return A * amuMeV + getMassExcess(1000 * Z + A); }
static const double Mn = NEUTRONMASS * amuMeV;
static double cE[10], lE[10], vc[10][3], vl[10][3], gE[50], glE[50], gv[50][3], glv[50][3];
'''
SEEDS = [
dict(id='b01', property='C04', edits=[(KIN, "      a_c--; // neutron emission\n    }\t\n", "      if (n<neutronMultiplicity-1) a_c--; // neutron emission\n    }\t\n")],
 needs='a fragment that emits at least one neutron before its photons; visible only in the Doppler shift (about 1 part in 100 of the shift)', what='the photons are boosted with the velocity of the fragment before the last neutron emission',
 demo=PRE + r'''
int main() { setup();
  double p[3] = {0, 0, 4000}; int Z = 40, A = 100, nn = 2, ng = 5;
  for (int i = 0; i < nn; i++) cE[i] = 1.0; for (int i = 0; i < ng; i++) gE[i] = 1.0 + i;
  boost(p, Z, A, nn, cE, lE, vc, vl, ng, gE, glE, gv, glv);
  double b = sqrt(p[0]*p[0]+p[1]*p[1]+p[2]*p[2]) / mass(Z, A - nn); int bad = 0;
  for (int i = 0; i < ng; i++) { double c = gv[i][0] / gE[i], e = gE[i] * sqrt(1 - b*b) / (1 - b*c); if (fabs(e - glE[i]) > 1e-8 * e) { printf("photon %d: %.10g expected %.10g\n", i, glE[i], e); bad = 1; } }
  return bad; }
'''),
dict(id='b02', property='C04', edits=[(KIN, "  double vn_cm = sqrt(2.*cmNeutronEnergy/Mn);\n", "  if (cmNeutronEnergy<=0.) { // nothing to boost\n    for(int i=0;i<3;i++) cmNeutronVelocities[i]=neutronVelocities[i]=0.;\n    return 0.;\n  }\n  double vn_cm = sqrt(2.*cmNeutronEnergy/Mn);\n")],
 needs='a neutron emitted with zero centre-of-mass energy', what='such a neutron is reported at rest in the laboratory and carries no momentum instead of moving with the fragment',
 demo=PRE + r'''
int main() { setup();
  double p[3] = {300, -200, 4000}, q[3] = {300, -200, 4000}; int Z = 40, A = 100;
  cE[0] = 1.0; cE[1] = 0.0; cE[2] = 0.5;
  boost(p, Z, A, 3, cE, lE, vc, vl, 0, gE, glE, gv, glv);
  int bad = 0; double r[3]; for (int i = 0; i < 3; i++) r[i] = q[i];
  for (int n = 0; n < 3; n++) for (int i = 0; i < 3; i++) { double e = vc[n][i] + r[i] / mass(Z, A - n); if (fabs(e - vl[n][i]) > 1e-10) { printf("neutron %d comp %d: %g expected %g\n", n, i, vl[n][i], e); bad = 1; } r[i] -= Mn * vl[n][i]; }
  return bad; }
'''),
dict(id='b03', property='C03', edits=[(KIN, "  for (int n=n0;n<neutronMultiplicity_pre;n++){ \n", "  // the pre-fission spectra cover at most second- and third-chance fission\n  for (int n=n0;n<min(neutronMultiplicity_pre,2);n++){ \n")],
 needs='an event with three pre-fission neutrons', what='the third pre-fission neutron is never boosted: its velocity is stale and momentum is not conserved',
 demo=PRE + r'''
int main() { setup();
  static double cm[3] = {1., .5, .2}, le[3], v1[3][3], v2[3][3], P1[THETA_STEPS][2], P2[THETA_STEPS][2]; int ty[3] = {0}; int bad = 0;
  for (int nu = 0; nu < 4; nu++) for (double En = 0.; En < 20; En += 5) { double pl[3], ph[3]; for (int n = 0; n < 3; n++) { le[n] = -1; for (int i = 0; i < 3; i++) v2[n][i] = 0; }
    boost_pfn(92, 236, En, 170., 96, 38, 140 - nu, 54, nu, 1.0, false, cm, le, ty, v1, v2, P1, P2, pl, ph);
    for (int i = 0; i < 3; i++) { double t = pl[i] + ph[i]; for (int n = 0; n < nu; n++) t += Mn * v2[n][i]; double w = i == 2 ? sqrt(2 * Mn * En) : 0; if (fabs(t - w) > 1e-6) { printf("nu=%d En=%g comp %d: total %g expected %g\n", nu, En, i, t, w); bad = 1; } }
    for (int n = 0; n < nu; n++) { double e = 0; for (int i = 0; i < 3; i++) e += 0.5 * Mn * v2[n][i] * v2[n][i]; if (fabs(e - le[n]) > 1e-9) { printf("nu=%d neutron %d: energy %g but velocity energy %g\n", nu, n, le[n], e); bad = 1; } } }
  return bad; }
'''),
dict(id='b04', property='C01', edits=[(FF, "    if (iA<=Ac/2) {", "    if (iA<Ac/2) {", 2)],
 needs='an odd-mass fissioning nucleus and a draw of the mass number just below the symmetric split', what='the fragment reported as light is heavier than the heavy one',
 demo=PRE + r'''
int main() { setup(); int bad = 0;
  FissionFragments *ff = new FissionFragments(92238, 2.0, 0.0);   // Ac = 239
  fissionFragmentType l, h; memset(&l, 0, sizeof l); memset(&h, 0, sizeof h);
  ff->generateInitialFissionFragmentHistories(&l, &h, 1);
  Yields ffy(ff->ZAIDc, ff->sf_flag); ff->constructYields(&ffy);
  ff->Amin = ff->Ac / 2 - 3; ff->Amax = ff->Ac - ff->Amin; for (int a = ff->Amin; a <= ff->Amax; a++) ff->YA[a] = ff->maxYieldA;
  for (int k = 0; k < 500 && !bad; k++) { ff->sampleFissionFragments(&l, &h, &ffy); if (l.A > h.A) { printf("Ac=%d light A=%d heavy A=%d\n", ff->Ac, l.A, h.A); bad = 1; } }
  return bad; }
'''),
dict(id='b05', property='C02', edits=[(FF, "\t*Uh = Eh;\n\t*Ul = El;\n      \n", "\t// the level density parameters are meaningful up to 60 MeV only\n\t*Uh = min(Eh,60.0);\n\t*Ul = min(El,60.0);\n      \n")],
 needs='a fragment that would receive more than 60 MeV (low total kinetic energy, high incident energy)', what='excitation energy disappears: the two fragments no longer share the available energy',
 demo=PRE + r'''
int main() { setup(); int bad = 0;
  FissionFragments *ff = new FissionFragments(94239, 18.0, 0.0);
  for (double T = 10; T < 150; T += 5) { double ul = 0, uh = 0; ff->computeFragmentExcitationEnergy(T, 42, 104, 52, 136, &ul, &uh, ff->energySortingOption); if (fabs(ul + uh - T) > 1e-9) { printf("TXE=%g: %g + %g\n", T, ul, uh); bad = 1; } }
  return bad; }
'''),
]
