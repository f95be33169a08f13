import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'ev.py')).read().split('\nSEEDS = [')[0])
GP, PP, SM, RL = 'libcgmf/src/gampop.cpp', 'libcgmf/src/parpop.cpp', 'libcgmf/src/specmain.cpp', 'libcgmf/src/ripl2levels.cpp'
PHF = PRE + r'''
void set_time_coincidence_window(double);
void spectraBinary_impl(int, Pdata *, double **);
#define spectraBinary spectraBinary_impl
#include "src/specmain.cpp"
#undef spectraBinary
static Pdata kept[MAX_CHANNEL]; static int have = 0, bad = 0;
static void chk(int c0, Pdata *pdt, double **spc);
static double sumup(Nucleus &n) { double s = 0; for (int i = 0; i < MAX_LEVELS; i++) s += n.lpop[i]; for (int k = 0; k < MAX_ENERGY_BIN; k++) for (int j = 0; j < MAX_J; j++) s += n.pop[k][j].even + n.pop[k][j].odd; return s; }
void spectraBinary(int c0, Pdata *pdt, double **spc) { for (int i = 0; i < MAX_CHANNEL; i++) kept[i] = pdt[i]; have = 1; chk(c0, pdt, spc); }
static void frag(int Z, int A, double E, double J) { fissionEventType f; f.A = A; f.Z = Z; f.U = E; f.spin = J; f.parity = 1; f.KE = 80; for (int i = 0; i < 3; i++) f.preFragmentMomentum[i] = 1000.; specMCMainFission(&f); }
'''
CONS = PHF + r'''
static void chk(int c0, Pdata *pdt, double **spc) {
  Nucleus &n = ncl[c0]; bool ch = n.cdt[neutron].status; Nucleus &m = ncl[ch ? n.cdt[neutron].next : c0]; double had = 0, a = sumup(n) + (ch ? sumup(m) : 0);
  for (int j = 0; j < MAX_J; j++) had += n.pop[0][j].even + n.pop[0][j].odd;
  spectraBinary_impl(c0, pdt, spc); double b = sumup(n) + (ch ? sumup(m) : 0);
  if (fabs(b - a - had) > 1e-9 * had) { if (!bad) printf("Z=%d A=%d E=%g held %.12g, distributed %.12g\n", n.za.getZ(), n.za.getA(), n.excitation[0], had, b - a); bad = 1; }
}
'''
SEEDS = [
dict(id='b17', property='C11', edits=[(GP, "if(mode==hauser) n->pop[k][idx].even += (x1=x0*q);", "if(mode==hauser && (x1=x0*q)>1.0e-6) n->pop[k][idx].even += x1; // skip negligible feeding"), (GP, "if(mode==hauser) n->pop[k][idx].odd  += (x1=x0*q);", "if(mode==hauser && (x1=x0*q)>1.0e-6) n->pop[k][idx].odd  += x1;")],
 needs='a decay with weakly fed final states in the continuum (any highly excited state)', what='the population of weakly fed states is lost: what is distributed is less than what the state held', files=LEV, exclude='/specmain.cpp',
 demo=CONS + r'''
int main() { setup(); set_time_coincidence_window(-1); for (int t = 0; t < 12; t++) frag(40 + t, (int)(2.5 * (40 + t)), 6. + t, 3 + 0.5 * ((int)(2.5 * (40 + t)) % 2)); return bad; }
'''),
dict(id='b18', property='C11', edits=[(GP, "  double s1min = abs(j0/2.0-l);\n  double s1max =     j0/2.0+l ;", "  double s1min = abs(j0/2-l);\n  double s1max =     j0/2+l ;")],
 needs='a nucleus of odd mass, and a level whose spin exceeds that of the state by exactly the multipolarity', what='an allowed photon transition of half-integer spins to such a level never happens', files=LEV, exclude='/specmain.cpp',
 demo=PHF + r'''
static void chk(int c0, Pdata *pdt, double **spc) {
  Nucleus &n = ncl[c0]; int nj = 0, J = 0, P = 0; for (int j = 0; j < MAX_J; j++) { if (n.pop[0][j].even) nj++, J = j, P = 1; if (n.pop[0][j].odd) nj++, J = j, P = -1; }
  std::vector<double> l0(n.lpop, n.lpop + n.ndisc); double s0 = 0, s1 = 0; spectraBinary_impl(c0, pdt, spc); if (nj != 1) return;
  for (int i = 0; i < n.ndisc; i++) s1 += n.lpop[i] - l0[i]; if (!(s1 > 1e-9)) return; (void)s0; int fed = 0; for (int i = 0; i < n.ndisc; i++) fed += n.lpop[i] > l0[i]; if (fed < 2) return;
  double j = J + (n.za.getA() % 2 ? 0.5 : 0.);
  for (int i = 0; i < n.ndisc; i++) { double k = n.lev[i].spin; bool ok = (fabs(j - k) <= 1 && j + k >= 1) || (n.lev[i].parity == P && fabs(j - k) <= 2 && j + k >= 2);
    if (ok && !(n.lpop[i] > l0[i])) { if (!bad) printf("Z=%d A=%d: no transition from %.1f%+d to level %d, %.1f%+d\n", n.za.getZ(), n.za.getA(), j, P, i, k, n.lev[i].parity); bad = 1; } }
}
int main() { setup(); set_time_coincidence_window(-1); for (int t = 0; t < 30; t++) { int A = 95 + 2 * t; frag((int)(A / 2.45), A, 4., 0.5 + t % 6); } return bad; }
'''),
dict(id='b19', property='C11', edits=[(SM, "  n->lpop[kk0] += dp;\n", "  if(kg >= 0 && kg < n->ncont) n->lpop[kk0] += dp;\n")],
 needs='a continuum state with no allowed transition (very high spin) that is sent to a level further below than the continuum extends', what='the population of the trapped state disappears', files=LEV, exclude='/specmain.cpp',
 demo=CONS + r'''
int main() { setup(); set_time_coincidence_window(-1); static double *sp[4]; for (auto &p : sp) p = new double[MAX_ENERGY_BIN]();
  for (int t = 0; t < 12 && !bad; t++) { int Z = 40 + t, A = (int)(2.5 * Z); frag(Z, A, 2.5, 1 + 0.5 * (A % 2)); if (!have || ncl[0].ncont < 1) continue;
    statClearPopulation(&ncl[0]); if (ncl[0].cdt[neutron].status) statClearPopulation(&ncl[1]); ncl[0].pop[0][MAX_J - 4].even = 1.; spectraBinary(0, kept, sp); }
  return bad; }
'''),
dict(id='b20', property='C13', edits=[(RL, "  if(s == 0.0){\n    if(ng > 1){", "  if(s < 1.0e-2){\n    if(ng > 1){")],
 needs='a level all of whose intensities in the file are small', what='such a level decays in equal parts instead of in the proportions of the file, and its conversion is forgotten',
 files={'levels.dat': '# levels\n       44110    3\n  0.000000  0.0  1    0.000e+00  0\n  0.500000  2.0  1    0.000e+00  1\n  01.000e+00 0.000e+00\n  1.100000  1.0  1    0.000e+00  2\n  01.000e-03 0.000e+00\n  13.000e-03 5.000e-01\n'},
 demo=PRE + r'''
int main() { setup(); ncl[0].za.setZA(44, 110); getDiscreteLevels(ncl, 0); int bad = 0; Level &l = ncl[0].lev[2];
  if (ncl[0].ndisc != 3 || l.ngamma != 2) { printf("%d levels, %d branches\n", ncl[0].ndisc, l.ngamma); return 1; }
  double w[2] = {0.25, 0.75}, g[2] = {1., 1 / 1.5}; for (int i = 0; i < 2; i++) if (fabs(l.branch[i] - w[i]) > 1e-9 || fabs(l.gratio[i] - g[i]) > 1e-9) { printf("branch %d: %g %g expected %g %g\n", i, l.branch[i], l.gratio[i], w[i], g[i]); bad = 1; }
  return bad; }
'''),
dict(id='b21', property='C13', edits=[(RL, "\t\tfound=false;\n\t\tid=-1;\n", "\t\tfound=false;\n\t\tid = (k==0 || id<2) ? -1 : id-2; // isotopes are stored in sequence\n")],
 needs='a decay chain that passes a nucleus missing from the level file before one that is there', what='the nuclei after the missing one get a ground state only, although the file lists their levels',
 files={'levels.dat': '# levels\n       44108    2\n  0.000000  0.0  1    0.000e+00  0\n  0.400000  2.0  1    0.000e+00  1\n  01.000e+00 0.000e+00\n       44110    2\n  0.000000  0.0  1    0.000e+00  0\n  0.500000  2.0  1    0.000e+00  1\n  01.000e+00 0.000e+00\n'},
 demo=PRE + r'''
int main() { setup(); for (int i = 0; i < 3; i++) ncl[i].za.setZA(44, 110 - i); getDiscreteLevels(ncl, 2);
  printf("%d %d %d levels, expected 2 1 2\n", ncl[0].ndisc, ncl[1].ndisc, ncl[2].ndisc); return !(ncl[0].ndisc == 2 && ncl[1].ndisc == 1 && ncl[2].ndisc == 2 && ncl[2].lev[1].energy == 0.4); }
'''),
]
