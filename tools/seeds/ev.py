import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'kin.py')).read().split('SEEDS = [')[0])
SPC, EV, EVH, CAPI, SET = 'libcgmf/src/specmc.cpp', 'libcgmf/src/cgmfEvents.cpp', 'libcgmf/include/cgmfEvents.h', 'libcgmf/src/cgmfEvents_capi.cpp', 'libcgmf/src/setup.cpp'
LEV = {'levels.py': open('/verif/replay/levels.py').read()}
PSPC = PRE + '#include "src/specmc.cpp"\n'
SEEDS = [
dict(id='b06', property='C05', edits=[(SPC, "    if (index==1) { // neutrons\n      if (neutronMultiplicity>=", "    if (index==unknown && !mc_next.ifDiscrete()) index = gammaray;\n    if (index==unknown && i==np-2 && hs[i].getEnergy()>1.0) index = gammaray; // hard conversion to the ground state is followed by X rays\n    if (index==1) { // neutrons\n      if (neutronMultiplicity>=")],
 needs='a cascade whose last transition is converted and carries more than 1 MeV', what='a conversion electron is listed as a photon', files=LEV, exclude='/specmc.cpp',
 demo=PSPC + r'''
int main() { setup(); specMCalloc(); int bad = 0;
  fissionEventType f; f.A = 110; f.Z = 44; f.U = 2; f.spin = 1; f.parity = 1; f.KE = 90; for (int i = 0; i < 3; i++) f.preFragmentMomentum[i] = 1000.;
  ncl[0].za.setZA(44, 110);
  MCPoint a(0, 1, 1, 2, 2.0), b(0, 1, 1, 1, 1.5), c(0, 1, 0, 0, 0.); a.setDiscrete(); b.setDiscrete(); c.setDiscrete();
  np = 0; hs[np++].set(gammaray, 0.5, a); hs[np++].set(unknown, 1.5, b); hs[np++].set(gammaray, 0., c);
  recordEmittedParticlesFission(&f);
  if (f.nug != 1 || f.nu != 0) { printf("%d photons, %d neutrons, expected 1 and 0\n", f.nug, f.nu); bad = 1; }
  return bad; }
'''),
dict(id='b07', property='C05', edits=[(SPC, "#include <iomanip>\n", "#include <iomanip>\n#include <algorithm>\n", 1), (SPC, "  for (int i=0; i<3; i++) fe->KEpost += ( fe->postFragmentMomentum[i]*fe->postFragmentMomentum[i] );", "  for (int i=0; i<3; i++) fe->KEpost += ( fe->postFragmentMomentum[i]*fe->postFragmentMomentum[i] );\n  if (neutronMultiplicity>3) std::sort (cmNeutronEnergies, cmNeutronEnergies+neutronMultiplicity, std::greater<double>()); // hardest first")],
 needs='a fragment that emits at least four neutrons whose energies are not already in decreasing order', what='the c.m. energies are reported in another order than the laboratory energies and directions', files=LEV, exclude='/specmc.cpp',
 demo=PSPC + r"""
int main() { setup(); specMCalloc(); int bad = 0;
  fissionEventType f; f.A = 140; f.Z = 54; f.U = 30; f.spin = 1; f.parity = 1; f.KE = 60; for (int i = 0; i < 3; i++) f.preFragmentMomentum[i] = 1000.;
  for (int i = 0; i < 6; i++) ncl[i].za.setZA(54, 140 - i);
  double e[4] = {1., 0.4, 1.7, 0.2}; np = 0;
  for (int i = 0; i < 4; i++) { MCPoint a(i, 1, 1, 0, 30. - 6 * i); hs[np++].set(neutron, e[i], a); }
  MCPoint c(4, 1, 0, 0, 0.); c.setDiscrete(); hs[np++].set(gammaray, 0., c);
  recordEmittedParticlesFission(&f);
  for (int i = 0; i < 4; i++) if (f.cmNeutronEnergies[i] != e[i]) { printf("neutron %d: %g expected %g\n", i, f.cmNeutronEnergies[i], e[i]); bad = 1; }
  return bad; }
"""),
dict(id='b08', property='C08', edits=[(SPC, "ecms = m0.getE() - m1.getE() - ncl[m0.getN()].cdt[neutron].binding_energy;", "ecms = m0.getE() - m1.getE() - ncl[(m1.ifDiscrete()) ? m1.getN() : m0.getN()].cdt[neutron].binding_energy;")],
 needs='a neutron that leads directly to a discrete level of the residual nucleus', what='the separation energy of the daughter instead of the emitter is subtracted', files=LEV, exclude='/specmc.cpp',
 demo=PSPC + r'''
int main() { setup(); specMCalloc(); int bad = 0;
  ncl[0].za.setZA(44, 112); ncl[0].max_energy = 20.; ncl[0].de = ENERGY_BIN; int n = statTotalNeutrons(20., &ncl[0].za); statSetupInitSystem(n, pdt);
  MCPoint a(0, 1, 1, 0, 20.0), b(1, 1, 1, 1, 0.5); b.setDiscrete(); np = 0; mcStoreHistory(false, a, b, spc);
  double s = mass_excess(44, 111) + ENEUTRON - mass_excess(44, 112);
  if (fabs(hs[0].getEnergy() - (19.5 - s)) > 1e-9) { printf("%g expected %g\n", hs[0].getEnergy(), 19.5 - s); bad = 1; }
  return bad; }
'''),
dict(id='b09', property='C08', edits=[(SPC, "      if(emin < ncl[c].lev[ncl[c].ndisc-1].energy) emin = ncl[c].lev[ncl[c].ndisc-1].energy;", "      if(emin < ncl[c].lev[ncl[c].ndisc-1].energy) emin = ncl[c].lev[ncl[c].ndisc-1].energy;\n      if(c == c0) emax += ncl[c].de;")],
 needs='a photon to the bin right below the current state, and a draw in the upper part of the interval', what='a photon may lead to a state above its initial state, i.e. carry negative energy', files=LEV, exclude='/specmc.cpp',
 demo=PSPC + r"""
int main() { setup(); int bad = 0;
  for (int t = 0; t < 1500 && !bad; t++) {
    fissionEventType f; f.A = 100 + t % 40; f.Z = (int)(f.A / 2.5); f.U = 6.; f.spin = 3 + 0.5 * (f.A % 2); f.parity = 1; f.KE = 60; for (int i = 0; i < 3; i++) f.preFragmentMomentum[i] = 1000.;
    specMCMainFission(&f);
    for (int i = 0; i < np - 1; i++) if (hs[i].getEnergy() < -1e-9) { printf("trial %d, emission %d carries %g MeV\n", t, i, hs[i].getEnergy()); bad = 1; }
  }
  return bad; }
"""),
dict(id='b10', property='C09', edits=[(SPC, "  int m = 0;\n  double tstamp=0.;\n", "  int m = 0;\n  double tstamp = (np>1 && hs[np-1].getIndex()==gammaray) ? gammaTimeStamp[np-2] : 0.; // continue the clock\n")],
 needs='a cascade that enters the discrete levels by a photon after at least two steps, following an event with delayed photons', what='the clock of the cascade starts from a stale time of an earlier fragment', files=LEV, exclude='/specmc.cpp',
 demo=PSPC + r'''
int main() { setup(); specMCalloc(); int bad = 0; set_time_coincidence_window(-1);
  ncl[0].za.setZA(44, 110); ncl[0].de = ENERGY_BIN; ncl[0].ndisc = 3; ncl[0].lev[0].energy = 0; ncl[0].lev[0].ngamma = 0;
  for (int i = 1; i < 3; i++) { Level &l = ncl[0].lev[i]; l.energy = 0.5 * i; l.spin = i; l.parity = 1; l.halflife = 0; l.ngamma = 1; l.fstate.assign(1, i - 1); l.branch.assign(1, 1.); l.gratio.assign(1, 1.); }
  for (int i = 0; i < MAX_CASCADE; i++) gammaTimeStamp[i] = 5e-6;   // left over from an earlier fragment
  MCPoint a(0, 1, 1, 0, 6.0), b(0, 1, 1, 3, 4.), c(0, 1, 2, 2, 1.); c.setDiscrete(); np = 0;
  mcStoreHistory(false, a, b, spc); mcStoreHistory(false, b, c, spc); mcGammaCascade(0, 2, spc);
  for (int i = 2; i < np; i++) if (gammaTimeStamp[i] != 0.) { printf("photon %d of prompt levels at %g s\n", i, gammaTimeStamp[i]); bad = 1; }
  return bad; }
'''),
dict(id='b11', property='C10', edits=[(SPC, "      s += ncl[c0].lev[i0].branch[j];\n      if(s >= r){", "      s += ncl[c0].lev[i0].branch[j];\n      if(s >= r || (j == ncl[c0].lev[i0].ngamma-1 && s > 0.0)){\n        if(s < r) i1 = 0; // incomplete branching ratios: the missing part goes to the ground state")],
 needs='branching ratios that add up to less than one by rounding or truncation', what='a level decays to the ground state although it has no such branch', exclude='/specmc.cpp',
 demo=PSPC + r'''
static int cnt = 0; static double seq() { static const double v[] = {0.9999, 0.5, 0.1, 0.5, 0.1, 0.5}; return v[cnt++ % 6]; }
int main() { setup(); specMCalloc(); int bad = 0; set_time_coincidence_window(-1);
  ncl[0].za.setZA(44, 110); ncl[0].de = ENERGY_BIN; ncl[0].ndisc = 3; ncl[0].lev[0].energy = 0; ncl[0].lev[0].ngamma = 0;
  for (int i = 1; i < 3; i++) { Level &l = ncl[0].lev[i]; l.energy = 0.5 * i; l.spin = i; l.parity = 1; l.halflife = 0; l.ngamma = 1; l.fstate.assign(1, i - 1); l.branch.assign(1, 0.999); l.gratio.assign(1, 1.); }
  rng_cgm = seq; np = 0; mcGammaCascade(0, 2, spc);
  if (np != 2 || hs[0].getEnergy() != 0.5) { printf("%d transitions, the first carries %g\n", np, hs[0].getEnergy()); bad = 1; }
  return bad; }
'''),
dict(id='b12', property='C12', edits=[(SET, "        ncl[i  ].max_energy          = ncl[i-1].max_energy - sepa;", "        ncl[i  ].max_energy          = ncl[i-1].max_energy - ((i<5) ? sepa : ncl[i-2].cdt[neutron].binding_energy);")],
 needs='a fragment hot enough for five neutrons', what='the energy left after the fifth neutron is computed with the separation energy of the fourth', exclude='@none@',
 demo=PRE + r'''
extern Nucleus *ncl;
int main() { setup(); int bad = 0; Pdata pdt[MAX_CHANNEL];
  ncl[0].za.setZA(52, 136); ncl[0].max_energy = 60.; ZAnumber za = ncl[0].za; int n = statTotalNeutrons(60., &za); statSetupInitSystem(n, pdt);
  double e = 60.; printf("n=%d\n", n);
  for (int i = 1; i <= n; i++) { e -= mass_excess(52, 136 - i) + ENEUTRON - mass_excess(52, 137 - i); if (fabs(ncl[i].max_energy - e) > 1e-9) { printf("after %d neutrons %g expected %g\n", i, ncl[i].max_energy, e); bad = 1; } }
  return bad || n < 5; }
'''),
dict(id='b13', property='C07', edits=[(EV, "  if (einc==0.0) isotope=-abs(isotope);", "  if (fabs(einc)<1e-9) isotope=-abs(isotope);")],
 needs='a neutron-induced reaction with an incident energy below 1 meV (ultracold neutrons)', what='a supported incident energy is rejected', exclude='@none@',
 demo=PRE + r"""
#include <sys/wait.h>
#include <unistd.h>
static int acc(int z, double e) { fflush(stdout); pid_t p = fork(); if (!p) { new cgmfYields(z, e, 1, "y.out"); _exit(0); } int s; waitpid(p, &s, 0); return WIFEXITED(s) && WEXITSTATUS(s) == 0; }
int main() { setup(); int bad = 0; int z[] = {92233, 92235, 92238, 94239};
  for (int i = 0; i < 4; i++) { if (!acc(z[i], 1e-10) || !acc(z[i], 1.)) { printf("%d rejected\n", z[i]); bad = 1; } if (acc(z[i], 0.)) bad = 1; }
  return bad; }
"""),
dict(id='b14', property='C06', edits=[(EVH, "		if (index >= 0 && index < photonNu) return photonAges[index];", "		if (index >= 0 && index <= photonNu-(photonNu>1)) return photonAges[index];")],
 needs='an event with exactly one photon, and index 1 (one past the end)', what='one element past the end of the photon ages is read instead of returning -1',
 demo=PRE + r"""
int main() { setup(); alignas(cgmfEvent) static char b[sizeof(cgmfEvent)]; cgmfEvent *e = new (b) cgmfEvent(); int bad = 0;
  for (int n = 1; n < 5; n++) { double *a = new double[n + 2]; for (int i = 0; i < n + 2; i++) a[i] = 7. + i; e->photonNu = n; e->photonAges = a;
    for (int i = -2; i < n + 2; i++) { double w = i < 0 || i >= n ? -1. : 7. + i; if (e->getPhotonAge(i) != w) { printf("n=%d i=%d: %g expected %g\n", n, i, e->getPhotonAge(i), w); bad = 1; } } }
  return bad; }
"""),
]
