import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'ev.py')).read().split('\nSEEDS = [')[0])
FF = 'libcgmf/src/FissionFragments.cpp'
PFF = PRE + '#include "src/FissionFragments.cpp"\n'
SEEDS = [
dict(id='b24', property='C17', edits=[(FF, "for (int i=0; i<NUM_GRID; i++) ldp2[zaid][i]=5.0; // Default if missing", "std::fill(ldp2[zaid], ldp2[zaid]+NUM_GRID-1, 5.0); // Default if missing")], exclude='/FissionFragments.cpp',
 needs='a nucleus missing from the table of level density parameters at more than 95 MeV', what='the last point of the default row stays zero',
 demo=PFF + r'''
int main() { setup(); int bad = 0; for (double e = 1; e < 120; e += 4) { double a = getLDP(10024, e); if (fabs(a - 5.) > 1e-12) { printf("level density parameter of a missing nucleus at %g MeV: %g\n", e, a); bad = 1; } } return bad; }
'''),
dict(id='b25', property='C17', edits=[(FF, "if (anisotropy[i+1][0]==ZAIDc-1){", "if (anisotropy[i+1][0]==1000*Zc+Ac-1){")], exclude='/FissionFragments.cpp',
 needs='an event with a pre-fission neutron (the fissioning nucleus is lighter than the compound nucleus) and a lighter target in the table', what='the fragments get the anisotropy of another target',
 demo=PFF + r'''
int main() { setup(); FissionFragments *f = new FissionFragments(92235, 8.0, 0.0); f->Ac = f->Ac0; f->computeFragmentAngularDistribution(); double a = f->anisotropyCoefficient; f->Ac = f->Ac0 - 1; f->computeFragmentAngularDistribution(); double b = f->anisotropyCoefficient;
  printf("anisotropy of 235U(n,f) at 8 MeV: %g, after a pre-fission neutron %g\n", a, b); return a != b || a == 1.; }
'''),
dict(id='b26', property='C17', edits=[(FF, "    if (alphaI0>0.) {\n\t\talphaI = alphaI0; // Always use the user-defined alphaI if it was provided\n\t\treturn;\n    }\n\n    // Assign the spin-scaling coefficients\n    getSpinScalingCoefficients(ZAID_0,sf_flag,&alpha_0,&alpha_slope);", "    // Assign the spin-scaling coefficients\n    getSpinScalingCoefficients(ZAID_0,sf_flag,&alpha_0,&alpha_slope);\n    if (alphaI0>0.) alpha_0 = alphaI0; // user-defined alphaI")], exclude='/FissionFragments.cpp',
 needs='a spin scaling factor given by the user, for neutron-induced fission at a non-zero energy', what='the slope of the table is added to the value of the user',
 demo=PFF + r'''
int main() { setup(); FissionFragments *f = new FissionFragments(92235, 8.0, 1.7); f->setSpinStrength(92236, 8.0); printf("spin scaling factor %g, the user asked for 1.7\n", f->alphaI); return fabs(f->alphaI - 1.7) > 1e-12; }
'''),
]
