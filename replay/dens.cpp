// level densities and gamma-ray strength functions of the real library (SYNTHLEVELS); executable contracts of C15
#include "setup.h"
#include "gdr.h"
#include "kcksyst.h"
static char cx[500];
static const double SQ2 = sqrt(2.0);
struct Kck { double pair, shell, match, a, T, E0; };
static std::map<int, Kck> kck;
static void read_kck() {
  std::ifstream f((std::string(getenv("CGMFDATA")) + "/kcksyst.dat").c_str()); std::string s;
  while (getline(f, s)) {
    if (s.empty() || s[0] == '#') continue;
    auto num = [&](int p, int n) { return atof(s.substr(p, n).c_str()); };
    Kck k; int Z = (int)num(0, 5), A = (int)num(5, 6); k.pair = num(11, 13); k.shell = num(24, 13); k.match = num(37, 10); k.a = num(47, 10);
    bool m = k.match > 0; k.T = num(m ? 57 : 77, 10); k.E0 = num(m ? 67 : 87, 10); kck[1000 * Z + A] = k;
  }
}
static double shell_(double u, double as, double dw, double A) { return u > 0 ? as * (1 + (1 - exp(-0.31 * pow(A, -1. / 3) * u)) * dw / u) : as; }
static double a_(double E, double A, const LevelDensity &q) { if (q.match_energy == 0) return q.a; return shell_(std::max(E, q.match_energy) - q.pairing_energy, q.a, q.shell_correct, A); }
static double sig_(double u, double a, double A, double s0) { return std::max(sqrt(0.006945 * sqrt(std::max(u, 0.5) / a) * pow(A, 5. / 3)), s0); }
static double fg_(double u, double a, double s) { return u < 0 ? 0 : exp(2 * sqrt(a * u)) / (12 * SQ2 * pow(a, 0.25) * pow(u, 1.25) * s); }
static double ct_(double E, double E0, double T) { return exp((E - E0) / T) / T; }
static double rho_(double E, double A, const LevelDensity &q) {
  if (q.match_energy == 0 || E < q.match_energy) return ct_(E, q.E0, q.temperature);
  double a = a_(E, A, q), u = E - q.pairing_energy; return fg_(u, a, sig_(u, a, A, q.sigma0));
}
static double spin_(double j, double sc, double s0) { double s = std::max(sc, s0), x = j + 0.5, r = x * exp(-x * x / (2 * s * s)) / (s * s); return r < 1e-10 ? 0 : r; }
static void direct(long k) {     // the functions on arbitrary parameters
  LevelDensity q; double A = N(60, 180), E = U(0, 40);
  q.match_energy = N(0, 3) ? U(0.5, 15) : 0; q.shell_correct = U(-12, 8); q.temperature = U(0.3, 2); q.E0 = U(-8, 4); q.a = U(6, 30); q.pairing_energy = U(-1, 3); q.sigma0 = U(1.5, 5); q.spin_cutoff = U(0.5, 8);
  if (!N(0, 7)) E = q.match_energy; if (!N(0, 9)) E = q.pairing_energy * U(0, 1);
  snprintf(cx, sizeof cx, "E=%.17g A=%g match=%.17g shell=%.17g T=%.17g E0=%.17g a=%.17g pairing=%.17g sigma0=%.17g", E, A, q.match_energy, q.shell_correct, q.temperature, q.E0, q.a, q.pairing_energy, q.sigma0);
  LevelDensity p = q; double r = ldLevelDensity(E, A, &p), w = rho_(E, A, q);
  if (!close_(r, w, 1e-9, 1e-300)) fail("level density %.12g instead of %.12g: %s", r, w, cx);
  { LevelDensity o = q; o.a *= 1.1; o.temperature *= 1.2; o.pairing_energy += 0.3; if (o.match_energy) o.match_energy += U(-0.4, 0.4); LevelDensity o2 = o; double r2 = ldLevelDensity(E, A, &o2), w2 = rho_(E, A, o); if (!close_(r2, w2, 1e-9, 1e-300)) fail("level density %.12g instead of %.12g after another nucleus of the same mass at the same energy: %s", r2, w2, cx); }
  if (q.match_energy != 0) { double u = E - q.pairing_energy, s = sig_(u, a_(E, A, q), A, q.sigma0); if (!close_(p.spin_cutoff, s)) fail("spin cut-off %.12g instead of %.12g: %s", p.spin_cutoff, s, cx); }
  else if (p.spin_cutoff != q.spin_cutoff) fail("the spin cut-off is changed: %s", cx);
  if (p.match_energy != q.match_energy || p.a != q.a || p.temperature != q.temperature || p.E0 != q.E0 || p.pairing_energy != q.pairing_energy || p.shell_correct != q.shell_correct || p.sigma0 != q.sigma0) fail("the level density changes its parameters: %s", cx);
  p = q; r = ldDensityParameter(E, A, &p); w = a_(E, A, q); if (!close_(r, w)) fail("level density parameter %.12g instead of %.12g: %s", r, w, cx);
  double j = N(0, 60) / 2., s = U(0.5, 8), s0 = U(0.5, 8); r = ldSpinDistribution(j, s, s0); w = spin_(j, s, s0);
  if (!close_(r, w, 1e-9, 1.0001e-10 * (fabs(w - 1e-10) < 1e-16))) fail("spin distribution %.12g instead of %.12g at J=%g, cut-offs %g %g", r, w, j, s, s0);
  if (ldParityDistribution(1) != 0.5 || ldParityDistribution(-1) != 0.5) fail("the parities are not equally likely");
  // connection of the two forms
  p = q; p.a = U(6, 30); LevelDensity b = p; double n = N(0, 6) ? N(1, 60) : 2, le = U(0.05, 4); ldTGconnect(A, le, n, &p);
  snprintf(cx, sizeof cx, "A=%g last level %.17g, %g levels, shell=%.17g a=%.17g pairing=%.17g sigma0=%.17g", A, le, n, b.shell_correct, b.a, b.pairing_energy, b.sigma0);
  if (n <= 2) { if (p.temperature != b.temperature || p.E0 != b.E0 || p.match_energy != b.match_energy) fail("too few levels, but the parameters change: %s", cx); }
  else if (p.match_energy == 0) { if (p.temperature != 0 || p.E0 != 0) fail("failed connection is not marked: %s", cx); }
  else {
    double T = p.temperature, Ex = p.match_energy, u = Ex - b.pairing_energy, a = shell_(std::max(le - b.pairing_energy, u), b.a, b.shell_correct, A);
    if (!(T > 0)) fail("temperature %g: %s", T, cx);
    if (!close_(T, 1 / (sqrt(a / u) - 1.5 / u), 1e-7)) fail("temperature %.10g instead of %.10g at the matching energy %.6g: %s", T, 1 / (sqrt(a / u) - 1.5 / u), Ex, cx);
    if (!close_(p.E0, T * log((exp(le / T) - 1) / n), 1e-7, 1e-7)) fail("E0 %.10g does not count the levels: %s", p.E0, cx);
    double e2 = Ex - T * log(T * fg_(u, a, sig_(u, a, A, b.sigma0))); if (fabs(p.E0 - e2) > 1.1e-6) fail("the densities do not agree at %.8g MeV (E0 %.9g, %.9g): %s", Ex, p.E0, e2, cx);
  }
  if (p.a != b.a || p.pairing_energy != b.pairing_energy || p.shell_correct != b.shell_correct || p.sigma0 != b.sigma0) fail("the connection changes other parameters: %s", cx);
  p = q; b = p; ldTextrapolate(A, le, &p);
  if (p.a != b.a) {
    double u = p.match_energy - b.pairing_energy, t = 1 / b.temperature + 1.5 / u, a = t * t * u;
    if (!close_(p.a, a / shell_(u, 1, b.shell_correct, A), 1e-7)) fail("extrapolated level density parameter %.10g: T=%.9g E0=%.9g %s", p.a, b.temperature, b.E0, cx);
    double r1 = ct_(p.match_energy, b.E0, b.temperature), r2 = fg_(u, a, sig_(u, a, A, b.sigma0)); if (fabs(r1 - r2) > 1.1e-6 + 1e-9 * r1) fail("extrapolated densities %.10g and %.10g do not agree at %.9g: T=%.9g E0=%.9g %s", r1, r2, p.match_energy, b.temperature, b.E0, cx);
  } else if (p.match_energy != 0 && p.match_energy != b.match_energy) fail("matching energy without level density parameter: %s", cx);
  Level lv[40]; int nl = N(0, 40); double sum = 0; int h = N(0, 1); for (int i = 0; i < nl; i++) { lv[i].spin = N(0, 12) + h / 2.; sum += lv[i].spin * (lv[i].spin + 1); }
  r = ldLevelSpinCutoff(nl, lv); w = nl <= 1 ? 0 : sqrt(sum / (2. * nl)); if (!close_(r, w)) fail("spin cut-off of %d levels %.12g instead of %.12g", nl, r, w);
  vg_cases++;
}
struct Rs { int t; double e, w, s; };
static double lor(double eg, double er, double w) { double d = er * er - eg * eg; return (er == eg && eg * w == 0) ? 0 : eg * w / (d * d + eg * eg * w * w); }
static double tdg(double eg, const Rs &r, double t) { return r.w * (eg * eg + 4 * M_PI * M_PI * t * t) / (r.e * r.e); }
static double f_(const Rs &r, int l, double eg, bool gl, double a, double ex) {
  double c = 26e-8 / (2 * l + 1) * r.s * r.w * pow(eg, 2 - 2 * l); if (!gl || l != 1) return c * lor(eg, r.e, r.w);
  double t = ex < 0 ? 0 : sqrt(ex / a); return c * (lor(eg, r.e, tdg(eg, r, t)) + 0.7 * tdg(0, r, t) / (r.e * r.e * r.e));
}
static void nucleus(long k) {
  int Z = N(28, 66), A = (int)(Z * U(2.2, 2.75)); if (!kck.count(1000 * Z + A)) return;
  ncl[0].za.setZA(Z, A); ncl[0].max_energy = U(0.1, 45); Pdata pdt[MAX_CHANNEL]; statSetupInitSystem(0, pdt);
  getDiscreteLevels(ncl, 0); Nucleus &n = ncl[0]; statSetupEnergyBin(&n);
  for (int b = 0; b < MAX_ENERGY_BIN; b++) for (int j = 0; j < MAX_J; j++) n.density[b][j].even = n.density[b][j].odd = -1;
  n.ldp.spin_cutoff = U(0.5, 8);
  statSetupLevelDensityParameter(&n, &n.ldp); LevelDensity &q = n.ldp; const Kck &t = kck[1000 * Z + A];
  snprintf(cx, sizeof cx, "Z=%d A=%d %d levels up to %.6g MeV, E=%.9g", Z, A, n.ndisc, n.lev[n.ndisc - 1].energy, n.max_energy);
  if (q.pairing_energy != t.pair || q.shell_correct != t.shell) fail("pairing energy %.9g, shell correction %.9g instead of the tabulated %.9g, %.9g: %s", q.pairing_energy, q.shell_correct, t.pair, t.shell, cx);
  double s2 = 0; for (int i = 0; i < n.ndisc; i++) s2 += n.lev[i].spin * (n.lev[i].spin + 1); double s0 = n.ndisc > 1 ? sqrt(s2 / (2. * n.ndisc)) : 0; if (s0 == 0) s0 = sqrt(sqrt(0.0465 * A + 4.296));
  if (!close_(q.sigma0, s0)) fail("spin cut-off of the levels %.10g instead of %.10g: %s", q.sigma0, s0, cx);
  double as = 0.126181 * A + 7.52191e-05 * A * A, le = n.lev[n.ndisc - 1].energy; if (!(q.temperature > 0 && q.temperature < 1e9)) fail("temperature %g: %s", q.temperature, cx);
  double ts = 47.0582 * pow(A, -0.893714) * sqrt(1 - 0.1 * t.shell), es = t.pair - 0.16 * t.shell + ts * (-0.0138 * A - 1.379);
  bool syst = close_(q.temperature, ts) && close_(q.E0, es);
  if (!syst) {
    if (!close_(q.a, as)) fail("level density parameter %.10g instead of %.10g: %s", q.a, as, cx);
    double T = q.temperature;
    if (n.ndisc > 2) { if (!close_(q.E0, T * log((exp(le / T) - 1) / n.ndisc), 1e-7, 1e-7)) fail("E0=%.9g does not count the levels (T=%.9g) and is not the systematics: %s", q.E0, T, cx);
      double u = q.match_energy - t.pair, a = shell_(std::max(le - t.pair, u), as, t.shell, A); if (fabs(q.E0 - (q.match_energy - T * log(T * fg_(u, a, sig_(u, a, A, s0))))) > 1.1e-6) fail("the densities do not agree at the matching energy %.9g: %s", q.match_energy, cx); }
    else if (T != t.T || q.E0 != t.E0 || q.match_energy != t.match || t.match == 0) fail("T=%.9g E0=%.9g match=%.9g are neither tabulated nor from systematics: %s", T, q.E0, q.match_energy, cx);
  }
  else if (q.match_energy == 0) { if (!close_(q.a, as)) fail("level density parameter %.10g instead of %.10g: %s", q.a, as, cx); }
  else { double u = q.match_energy - t.pair, v = 1 / ts + 1.5 / u, a = v * v * u; if (!close_(q.a, a / shell_(u, 1, t.shell, A), 1e-7)) fail("extrapolated level density parameter %.10g at %.9g: %s", q.a, q.match_energy, cx);
    double r1 = ct_(q.match_energy, es, ts), r2 = fg_(u, a, sig_(u, a, A, s0)); if (fabs(r1 - r2) > 1.1e-6 + 1e-9 * r1) fail("extrapolated densities %.10g and %.10g do not agree at %.9g: %s", r1, r2, q.match_energy, cx); }
  // densities of the bins
  double sc = 0; bool hs = ((int)(2 * n.lev[0].spin + 0.001)) % 2 == 1;
  for (int b = 0; b <= n.ncont; b++) {
    double E = n.excitation[b], r = rho_(E, A, q), u = E - q.pairing_energy; sc = q.match_energy == 0 ? q.spin_cutoff : sig_(u, a_(E, A, q), A, q.sigma0);
    for (int j = 0; j < MAX_J; j++) { double w = r * spin_(j + (hs ? 0.5 : 0), sc, q.sigma0) / 2; if (w < 1e-9 * r && w > 0) continue;
      if (!close_(n.density[b][j].even, w, 1e-9, 1e-9 * r) || !close_(n.density[b][j].odd, w, 1e-9, 1e-9 * r)) { fail("level density of bin %d at %.6g MeV, J=%g: %.10g, %.10g instead of %.10g: %s", b, E, j + (hs ? .5 : 0.), n.density[b][j].even, n.density[b][j].odd, w, cx); b = n.ncont; break; } }
  }
  // giant resonances
  double beta = N(0, 2) ? 0. : U(-0.4, 0.5); GDR g[MAX_GDR]; double al = N(0, 1) ? q.a : U(5, 25); statSetupGdrParameter(&n, al, g, beta);
  std::vector<Rs> R; auto add = [&](int t, double e, double w, double s) { R.push_back(Rs{t, e, w, s}); };
  if (beta == 0) { double e = 49.336 * pow(A, -0.2409), w = 0.3 * e; add(E1, e, w, 10.6 * A / w); }
  else { double e = 50 * pow(A, -0.232), f = e * exp(-0.946 * beta), w = (0.282 - 0.263 * beta) * f, v = (0.35 - 0.14 * beta) * e; add(E1, f, w, 3.48 * A / w); add(E1, e, v, 8.26 * A / v); }
  double a3 = pow(A, -1. / 3), fe = 0; for (auto &r : R) fe += f_(r, 1, 7, true, al, 0);
  Rs m = {M1, 41 * a3, 4, 1}; m.s = 17.01 * pow(A, -0.878) * fe / f_(m, 1, 7, false, 0, 0); R.push_back(m);
  double e2 = 63 * a3, w2 = 6.11 - 0.012 * A; add(E2, e2, w2, 1.5e-4 * Z * Z * e2 * e2 * a3 / w2);
  for (int i = 0; i < 12; i++) {
    double eg = i ? U(0.01, 25) : R[N(0, (int)R.size() - 1)].e, ex = N(0, 3) ? U(0, 30) : -U(0, 2), a = U(5, 25);
    for (int x = 0; x < 3; x++) {
      GammaMultipol gm = x == 0 ? E1 : x == 1 ? M1 : E2; int l = x == 2 ? 2 : 1; double w = 0; for (auto &r : R) if (r.t == (int)gm) w += f_(r, l, eg, x == 0, a, ex);
      w *= 2 * M_PI * pow(eg, 2 * l + 1) * 3.14035; double r = gdrGammaTransmission(x == 0 ? GL : SL, l, eg, gm, a, ex);
      if (!close_(r, w, 1e-8, 0)) fail("%s transmission %.10g instead of %.10g at %.6g MeV (final energy %.6g, a=%.6g, beta=%.5g): %s", x == 0 ? "E1" : x == 1 ? "M1" : "E2", r, w, eg, ex, a, beta, cx);
      if (r < 0) fail("negative transmission: %s", cx);
    }
  }
  vg_cases++;
}
int main(int argc, char **argv) {
  vg_eng.seed(atoi(argv[2])); long count = atol(argv[3]);
  lib_init(); read_kck();
  if (kck.size() < 1000) { printf("CASE table not read\n"); return done(); }
  for (auto &x : kck) {      // every entry of the table
    int A = x.first % 1000; ZAnumber za(x.first / 1000, A); LevelDensity p; if (x.second.shell == 0) continue;
    getkcksystdat(&za, &p); const Kck &t = x.second;
    if (p.pairing_energy != t.pair || p.shell_correct != t.shell || p.match_energy != t.match || p.a != t.a || p.temperature != t.T || p.E0 != t.E0) fail("parameters of ZA %d are not those of the table: %.9g %.9g %.9g %.9g %.9g %.9g", x.first, p.pairing_energy, p.shell_correct, p.match_energy, p.a, p.temperature, p.E0);
    double as = 0.126181 * A + 7.52191e-05 * A * A; for (double e : {0.05, 0.5, 2., 4.}) if (!(shell_(e - t.pair, as, t.shell, A) > 0)) fail("ZA %d: level density parameter not positive", x.first);
    vg_cases++;
  }
  for (long k = 0; k < count; k++) direct(k);
  for (long k = 0; k < count / 4 + 1; k++) nucleus(k);
  return done();
}
