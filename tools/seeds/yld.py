import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'ev.py')).read().split('\nSEEDS = [')[0])
FF, YL = 'libcgmf/src/FissionFragments.cpp', 'libcgmf/src/Yields.cpp'
PY = PRE + '#include "Yields.h"\n'
SEEDS = [
dict(id='b27', property='C14', edits=[(YL, "a<=(int)sTKEA_fit_param[1]; a++) {", "a<=(int)TKEA_fit_param[1]; a++) {")], exclude='/nothing',
 needs='a very heavy fragment, beyond the last mass of the fit of the width but not of the fit of the mean', what='the width of the kinetic energy is extrapolated with the polynomial instead of held at 7 MeV',
 demo=PY + r'''
int main() { setup(); int bad = 0; const int za[3] = {92235, 94239, 94241}; const int last[3] = {163, 159, 161}, end[3] = {166, 170, 170};
  for (int k = 0; k < 3; k++) { Yields y(za[k] + 1, false); y.setFissioningSystem(za[k] + 1, 1.0); std::vector<double> Y(300, 0.); double s = 0; for (int a = 60; a < 180; a++) { Y[a] = y.yieldA(a); s += Y[a]; } for (int a = 60; a < 180; a++) Y[a] /= s; y.setRescaleTKE(&Y[0], 60, 179);
    for (int a = last[k] + 1; a <= end[k]; a++) { double p = y.yieldTKE(a, y.get_avTKE(a)), w = 1 / (sqrt(2 * M_PI) * 7.); if (fabs(p - w) > 1e-9) { printf("target %d mass %d: probability of the mean kinetic energy %g, for a width of 7 MeV %g\n", za[k], a, p, w); bad = 1; } } }
  return bad; }
'''),
dict(id='b28', property='C14', edits=[(FF, "\tif (F1>1.0) {\n\t\tF1 = 1.0;\n\t}\n", "\tif (F1>2.0) {\n\t\tF1 = 2.0;\n\t}\n")], exclude='/nothing',
 needs='a compound nucleus lighter than mass 236 (233U or 234U targets) and a near-symmetric split', what='the mass at which the charge displacement is largest is extrapolated beyond the systematics',
 demo=PY + r'''
int main() { setup(); double Z0[300], s[300], f[300], g[300]; int zl, zh; ZDistribution d(Z0, s, f, g); d.ComputeZDistribution(92, 234, 6.8, 70, 164, 3, Z0, s, f, g, &zl, &zh);
  double m = -9; int at = 0; for (int a = 118; a < 160; a++) { double x = Z0[a] - 92. / 234. * a; if (x > m) { m = x; at = a; } }
  // the largest displacement lies where 50 protons minus it are found: 50 A/Z - dmax/slope
  double want = 50. * 234 / 92 - 0.699 / (0.191 - 0.0076 * (234. - 236.)); printf("largest charge displacement at mass %d, expected at %.2f\n", at, want); return fabs(at - want) > 0.75; }
'''),
dict(id='b29', property='C14', edits=[(FF, "spinProba[j] = (2*xj + 1)*exp(-(xj*(xj + 1))/(2*B2));", "spinProba[j] = (2*j + 1)*exp(-(xj*(xj + 1))/(2*B2));")], exclude='/nothing',
 needs='a fragment of odd mass', what='the statistical weight of a half-integer spin is that of the integer below',
 demo=PY + r'''
int main() { setup(); FissionFragments *F = new FissionFragments(98252, 0., 0.); F->setSpinStrength(98252, 0.); const long K = 60000; double U = 8, mean = 0, want = 0, s = 0; double B = F->spinParameter2(U, 141, 55); for (int j = 0; j < 50; j++) { double J = j + 0.5, w = (2 * J + 1) * exp(-J * (J + 1) / (2 * B)); s += w; want += w * J; } want /= s;
  for (long i = 0; i < K; i++) { double x; F->getInitialSpin(55, 141, &U, &x); mean += x / K; } printf("mean spin %g, expected %g\n", mean, want); return fabs(mean - want) > 0.12; }
'''),
]
