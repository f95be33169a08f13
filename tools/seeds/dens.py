import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'ev.py')).read().split('\nSEEDS = [')[0])
LD, GT = 'libcgmf/src/levden.cpp', 'libcgmf/src/gtrans.cpp'
SEEDS = [
dict(id='b22', property='C15', edits=[(GT, "  ngdr = nmp;\n", "  if(nmp > ngdr) ngdr = nmp;\n")],
 needs='a deformed nucleus (four resonances) before a spherical one (three resonances)', what='the spherical nucleus keeps the last resonance of the deformed one in its gamma strength',
 demo=PRE + r'''
int main() { setup(); Nucleus &n = ncl[0]; GDR g[MAX_GDR]; n.za.setZA(42, 104); double r[2];
  for (int t = 0; t < 2; t++) { statSetupGdrParameter(&n, 13., g, 0.); r[t] = gdrGammaTransmission(SL, 2, 2.5, E2, 0., 0.) + gdrGammaTransmission(GL, 1, 2.5, E1, 13., 2.); if (!t) { n.za.setZA(60, 152); statSetupGdrParameter(&n, 18., g, 0.35); n.za.setZA(42, 104); } }
  printf("gamma transmission of Mo-104 %.12g, after Nd-152 %.12g\n", r[0], r[1]); return !(fabs(r[0] - r[1]) <= 1e-12 * r[0]); }
'''),
dict(id='b23', property='C15', edits=[(LD, "  double dens = 0.0;\n  \n  /*** if Em = 0", "  static double lastE = -1.0, lastA = 0.0, lastDens = 0.0, lastCut = 0.0;\n  if(excitation_energy == lastE && mass == lastA){\n    ldp->spin_cutoff = lastCut;\n    return(lastDens);\n  }\n\n  double dens = 0.0;\n  \n  /*** if Em = 0"), (LD, "           ldFermiGas(u,a,ldp->spin_cutoff);\n  }\n\n  return(dens);", "           ldFermiGas(u,a,ldp->spin_cutoff);\n  }\n\n  lastE = excitation_energy; lastA = mass; lastDens = dens; lastCut = ldp->spin_cutoff;\n  return(dens);")],
 needs='two nuclei of the same mass number evaluated one after the other at the same excitation energy', what='the second nucleus gets the level density and spin cut-off of the first',
 demo=PRE + r'''
int main() { setup(); LevelDensity p, q; p.match_energy = 5; p.shell_correct = 1; p.temperature = 0.7; p.E0 = -1; p.a = 14; p.pairing_energy = 1; p.sigma0 = 3; p.spin_cutoff = 3; q = p; q.a = 15; q.pairing_energy = 0.2;
  double r1 = ldLevelDensity(8., 120, &q), r0 = ldLevelDensity(7., 120, &p), r2; ldLevelDensity(8., 120, &p); r2 = ldLevelDensity(8., 120, &q); (void)r0;
  printf("level density %.12g, after its isobar %.12g\n", r1, r2); return !(fabs(r1 - r2) <= 1e-12 * r1); }
'''),
]
