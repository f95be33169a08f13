// every entry of the data files against what the code hands out for it
#include "setup.h"
#include "REPO/libcgmf/src/masstable.cpp"
#include "REPO/libcgmf/src/FissionFragments.cpp"
typedef std::vector<std::string> Lines;
static Lines file(const char *n) {
  std::ifstream f((datadir + n).c_str()); std::string s; Lines o;
  while (getline(f, s)) { if (s.size() && s[s.size() - 1] == '\r') s.resize(s.size() - 1); if (s.find_first_not_of(" \t") != std::string::npos && s[0] != '#') o.push_back(s); }
  if (o.empty()) { fail("data file %s%s cannot be read", datadir.c_str(), n); exit(1); } return o;
}
static std::vector<double> nums(const std::string &s) { std::istringstream i(s); std::vector<double> o; double x; while (i >> x) o.push_back(x); return o; }
double getTemperature(int, double); double getLDP(int, double); double getDeformation(int); double mass_excess(int, int);
int main(int c, char **v) {
  vg_eng.seed(atoi(v[2])); long n = atol(v[3]); lib_init();
  // masses: five pairs (7 + 11 columns) on a line
  std::map<int, double> M;
  for (auto &l : file("masses.dat")) for (size_t i = 0; i + 8 <= l.size(); i += 18) { int za = atoi(l.substr(i, 7).c_str()); if (M.count(za)) fail("masses.dat has two entries for %d", za); M[za] = atof(l.substr(i + 7, 11).c_str()); }
  for (auto &p : M) { vg_cases++;
    if (p.second != 0) { double m = getMassExcess(p.first); if (m != p.second) fail("mass excess of %d is %.9g, the data file says %.9g", p.first, m, p.second); }
    double b = mass_excess(p.first / 1000, p.first % 1000); if (!close_(b, p.second, 1e-6, 2e-2)) fail("built-in mass excess of %d is %.9g, the data file says %.9g", p.first, b, p.second); }
  { std::map<unsigned, int> seen; for (int i = 0; i < nMassTable; i++) { if (seen[MassTable[i].za]++) fail("the built-in mass table has two entries for %u", MassTable[i].za); if (mass_excess(MassTable[i].za / 1000, MassTable[i].za % 1000) != MassTable[i].mass) fail("built-in mass excess of %u is not its entry", MassTable[i].za); vg_cases++; } if (nMassTable != 9073 || seen.size() != 9073) fail("the built-in mass table has %d entries", (int)seen.size()); }
  // deformations: Z, A and beta2 in fixed columns
  std::map<int, double> D;
  for (auto &l : file("deformations.dat")) { int Z = atoi(l.substr(0, 4).c_str()), A = atoi(l.substr(4, 4).c_str()); if (Z > 99 || A > 199) continue; std::string b = l.substr(44, 8); if (b.find_first_not_of(" ") == std::string::npos) continue; D[1000 * Z + A] = atof(b.c_str()); }
  for (int Z = 1; Z <= 99; Z++) for (int A = 2 * Z; A <= 199 && A <= 3 * Z + 10; A++) { double w = D.count(1000 * Z + A) ? D[1000 * Z + A] : 0.2, b = getDeformation(1000 * Z + A); vg_cases++; if (b != w) fail("deformation of Z=%d A=%d is %.9g, expected %.9g", Z, A, b, w); }
  // temperatures and level density parameters
  Lines tl = file("temperatures.dat"); std::vector<double> grid = nums(tl[0]); std::map<int, std::vector<double> > T, L;
  if (grid.size() != 32) fail("temperature grid of %d points", (int)grid.size());
  for (size_t i = 0; i + 1 < grid.size(); i++) if (!(grid[i] < grid[i + 1])) fail("the temperature grid does not ascend at %d", (int)i);
  for (size_t i = 1; i < tl.size(); i++) { auto r = nums(tl[i]); int za = (int)r[0]; r.erase(r.begin()); T[za] = r; }
  for (auto &l : file("ldp.dat")) { auto r = nums(l); int za = (int)r[0]; r.erase(r.begin()); L[za] = r; }
  for (int w = 0; w < 2; w++) for (auto &p : w ? L : T) {
    const std::vector<double> &r = p.second; if (r.size() != 32) { fail("row of %d values for %d", (int)r.size(), p.first); continue; }
    for (int i = 0; i < 32; i++) for (int k = 0; k < 2; k++) {
      if (k && i == 31) continue;
      double f = k ? U(0.01, 0.99) : 0, e = k ? grid[i] + f * (grid[i + 1] - grid[i]) : grid[i], want = k ? r[i] + f * (r[i + 1] - r[i]) : r[i], got = w ? getLDP(p.first, e) : getTemperature(p.first, e);
      vg_cases++; if (!close_(got, want, 1e-9, 1e-9)) { fail("%s of %d at %.6g MeV is %.9g, interpolation of the data file gives %.9g", w ? "level density parameter" : "temperature", p.first, e, got, want); break; }
    }
    double e = U(100, 200), s = (r[31] - r[30]) / (grid[31] - grid[30]), want = r[31] + s * (e - grid[31]), got = w ? getLDP(p.first, e) : getTemperature(p.first, e);
    if (!close_(got, want, 1e-9, 1e-9)) fail("%s of %d at %.6g MeV is %.9g, extrapolation of the data file gives %.9g", w ? "level density parameter" : "temperature", p.first, e, got, want);
  }
  for (int i = 0; i < 50; i++) { int za = 1000 * N(1, 14) + N(1, 49); if (T.count(za) || L.count(za)) continue; double e = U(0, 100); if (getTemperature(za, e) != 5.0 || getLDP(za, e) != 5.0) fail("missing nucleus %d does not get the default temperature or level density parameter", za); }
  // anisotropy and spin scaling
  std::map<int, std::vector<double> > W; Lines al = file("anisotropy.dat"); auto h = nums(al[0]); if (h.size() != 3 || h[0] != 0 || h[1] != 20 || h[2] != 0.1) fail("header of anisotropy.dat");
  for (size_t i = 1; i < al.size(); i++) { auto r = nums(al[i]); int za = (int)r[0]; r.erase(r.begin()); if (r.size() != 201) fail("anisotropy.dat: %d values for %d", (int)r.size(), za); if (W.count(za)) fail("anisotropy.dat has two rows for %d", za); W[za] = r; }
  std::map<int, std::vector<double> > S; for (auto &l : file("spinscalingmodel.dat")) { auto r = nums(l); if (r.size() < 3) continue; if (S.count((int)r[0])) fail("spinscalingmodel.dat has two rows for %d", (int)r[0]); S[(int)r[0]] = r; }
  for (int k = 0; k < NREACT; k++) {
    int za = REACT[k][0]; bool nf = REACT[k][1]; printf("CASE ZAID=%d\n", za);
    FissionFragments *ff = new FissionFragments(za, nf ? 2.0 : 0.0, 0.0);
    if (ff->sf_flag == nf) fail("ZAID=%d: spontaneous fission flag is %d", za, ff->sf_flag);
    if (ff->ZAIDc != za + nf) fail("ZAID=%d: fissioning nucleus %d", za, ff->ZAIDc);
    if (nf != ff->anisotropy_flag) fail("ZAID=%d: anisotropy flag is %d", za, ff->anisotropy_flag);
    for (int j = 0; j <= (nf ? 220 : 0); j++) for (int q = 0; q < 3; q++) {
      double e = 0.1 * j; if (q) e = 0.1 * j + U(-0.049, 0.049); if (e < 0) e = -e; if (j == 0 && q == 1 && nf) e = 2.53e-8;
      ff->incidentEnergy0 = e; ff->Ac = ff->Ac0 - (nf ? N(0, 3) : 0); ff->incidentEnergy = U(0, 20); ff->computeFragmentAngularDistribution(); vg_cases++;
      double want = nf && j <= 200 && W.count(za) ? W[za][j] : 1.0, got = ff->anisotropyCoefficient;
      if (!close_(got, want, 1e-12, 1e-12)) { fail("anisotropy of %d at %.6g MeV is %.9g, the data file says %.9g", za, e, got, want); continue; }
      if (want == 1.0) continue;
      double sum = 0, cdf[THETA_STEPS]; cdf[0] = 0;
      for (int i = 1; i < THETA_STEPS; i++) { double x = 2. * i / (THETA_STEPS - 1) - 1; sum += 1 + (want - 1) * x * x; cdf[i] = sum; }
      for (int i = 0; i < THETA_STEPS; i++) {
        double x = 2. * i / (THETA_STEPS - 1) - 1;
        if (!close_(Pcostheta[i][0], x, 1e-12, 1e-12) || !close_(Pcostheta[i][1], cdf[i] / sum, 1e-9, 1e-12)) { fail("angular distribution of %d at %.6g MeV: point %d is cos=%.9g P=%.9g, expected %.9g %.9g", za, e, i, Pcostheta[i][0], Pcostheta[i][1], x, cdf[i] / sum); break; } }
    }
    for (int j = 0; j < 300; j++) {
      int z0 = N(0, 3) ? ff->ZAIDc - N(0, 4) : 1000 * N(90, 99) + N(230, 255); double e = N(0, 9) ? U(0, 20) : -1; bool usr = !N(0, 5); ff->alphaI0 = usr ? U(0.5, 2) : 0;
      ff->setSpinStrength(z0, e); int key = nf ? z0 : -z0; double a0 = nf ? 1.5 : 1.3, a1 = nf ? 0.071 : 0; if (S.count(key)) { a0 = S[key][1]; a1 = S[key][2]; }
      double want = usr ? ff->alphaI0 : e < 0 ? a0 : a0 + a1 * e; vg_cases++;
      if (!close_(ff->alphaI, want)) fail("spin scaling factor of %d (%s) at %.6g MeV is %.9g, expected %.9g", z0, nf ? "n,f" : "sf", e, ff->alphaI, want);
      int Z = N(28, 65), A = N((int)(2.3 * Z), (int)(2.7 * Z)); double Ux = U(0, 60), b = getDeformation(1000 * Z + A), hb = 6.58211889e-16 * 299792458.0 * 1e9;
      double I0 = 0.4 * std::pow((double)A, 5. / 3.) * 1.44 * 0.5 * (1.00866491578 + 1.00727646688) * 931.494013 * (1 + 0.31 * b + 0.44 * b * b), sp = I0 * ff->alphaI * getTemperature(1000 * Z + A, Ux) / hb / hb, got = ff->spinParameter2(Ux, A, Z);
      if (!close_(got, sp, 1e-9)) fail("spin parameter of Z=%d A=%d at %.6g MeV is %.9g, expected %.9g", Z, A, Ux, got, sp);
    }
    delete ff;
  }
  (void)n; return done();
}
