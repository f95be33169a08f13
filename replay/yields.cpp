// distributions of the fragments before emission against the parameters of the data files and the published formulas
#include "setup.h"
#include "Yields.h"
#include "physics.h"
static std::vector<double> nums(const std::string &s) { std::istringstream i(s); std::vector<double> o; double x; while (i >> x) o.push_back(x); return o; }
typedef std::map<int, std::vector<double> > Tab;
static Tab table(const char *n, size_t need) {
  std::ifstream f((datadir + n).c_str()); std::string s; Tab o;
  while (getline(f, s)) { if (s.empty() || s[0] == '#') continue; auto r = nums(s); if (r.size() < need) continue; int id = (int)r[0]; if (o.count(id)) fail("%s has two rows for %d", n, id); r.erase(r.begin()); o[id] = r; }
  if (o.empty()) { fail("data file %s%s cannot be read", datadir.c_str(), n); exit(1); } return o;
}
static double nd(double x, double w, double m, double s) { return w / sqrt(2 * M_PI) / s * exp(-0.5 * (x - m) * (x - m) / s / s); }
static int cmpl(int A, int Ac) { return 2 * A >= Ac ? A : Ac - A; }
// the model of a nucleus: parameters of its own, or those of the first chance shifted
struct Model { double w[3], s[3], m[3], s0wrong, t0, t1; std::vector<double> ta, ts; int Ac; };
static Tab YM, TM;
static Model model(int id0, bool sf, int n, double e) {
  Model o; int id = id0 - n, key = sf ? -id : id, k0 = sf ? -id0 : id0; bool own = YM.count(key) > 0; o.Ac = id % 1000;
  if (!own && !YM.count(k0)) { fail("no mass yields for %d", id0); exit(1); }
  auto &p = YM[own ? key : k0]; double sh = own ? 0 : o.Ac - id0 % 1000;
  for (int i = 1; i < 3; i++) { const double *q = &p[6 * (i - 1)]; o.w[i] = 1 / (1 + exp((e - q[0]) / q[1])); o.m[i] = sh + q[2] + q[3] * e; o.s[i] = q[4] + q[5] * e; }
  o.w[0] = 2 - 2 * o.w[1] - 2 * o.w[2]; o.m[0] = o.Ac / 2.; o.s[0] = p[12] + p[13] * e; o.s0wrong = p[12] + p[5] * e;
  bool ownt = TM.count(key) > 0; if (!TM.count(k0)) { fail("no kinetic energies for %d", id0); exit(1); }
  auto &t = TM[ownt ? key : k0];
  if (ownt) { bool low = e <= t[1]; o.t1 = low ? t[2] : t[3]; o.t0 = low ? t[0] : t[0] + (t[2] - t[3]) * t[1]; }
  else { static const std::map<int, std::pair<double, double> > K = {{92, {-2.43783800e-03, 4.32954561}}, {93, {-2.47262338e-03, 4.46218351}}, {94, {-1.78668219e-03, 3.55865245}}, {98, {-3.44312133e-03, 6.20846742}}};
    int Z = id / 1000; double x = Z * Z / pow(o.Ac, 1. / 3.); auto k = K.find(Z); o.t0 = (0.1189 * x + 7.3) * (k == K.end() ? 1 : k->second.first * x + k->second.second); o.t1 = -0.25; }
  o.ta.assign(t.begin() + 4, t.begin() + 15); o.ts.assign(t.begin() + 15, t.begin() + 26); return o;
}
static double poly(const std::vector<double> &p, int A, int Ac, double beyond) { int h = cmpl(A, Ac); if (h > (int)p[1]) return beyond; double s = 0, x = 1; for (int j = 0; j < 9; j++) { s += p[j + 2] * x; x *= h - p[0]; } return s; }
// Wahl, LA-13928: equations 10-14, 17 and 19, tables 2 and 3
static const double LO[15][5] = {{0.566, 0, 0.0064, 0.0109, 0}, {-0.487, 0, 0.0180, 0, -0.00203}, {1.207, 0, -0.0420, 0, 0.0022}, {1.076, 0, 0, 0, 0}, {-0.0038, 0, 0, 0, 0}, {-0.0080, 0, 0, 0, 0}, {0.0030, 0, 0, 0, 0}, {-0.0006, 0, 0, 0, 0}, {0.191, 0, -0.0076, 0, 0}, {0.356, 0.060, 0, 0, 0}, {0.699, 0, 0, 0, 0}, {-0.045, 0.0094, 0, 0, 0}, {0, -0.0045, 0, 0, 0}, {0.159, -0.028, 0, 0, 0}, {0.039, 0, 0, 0, 0}};
static const double HI[15][5] = {{0.542, 1.310, 0.033, 0, -0.005}, {-0.428, 0, 0, 0.164, -0.0116}, {1, 0, 0, 0, 0}, {1, 0, 0, 0, 0}, {0}, {0}, {0}, {0}, {0.191, 0, -0.0076, 0, 0}, {0.542, 1.310, 0.033, 0, -0.005}, {0}, {0}, {0}, {0}, {0}};
struct Wahl { double p[15], B2, B4, B5, B6, Am; int Z, A;
  Wahl(int Zf, int Af, double E) : Z(Zf), A(Af) {
    for (int i = 0; i < 15; i++) {
      const double *a = LO[i], *b = HI[i]; double el = fmin(E, 8), eh = fmax(E, 20), l = a[0] + a[1] * (Zf - 92.) + a[2] * (Af - 236.) + a[3] * (el - 6.551) + a[4] * (Af - 236.) * (Af - 236.), p1 = b[0] + b[2] * (Zf - 92.), p2 = b[1] + b[3] * (Zf - 92.), h = p1 + (p2 - p1) * (1 - exp(-b[4] * eh));
      double f = E <= 8 ? 0 : E >= 20 ? 1 : (E - 8) / 12; p[i] = (1 - f) * l + f * h; }
    double F1 = fmin(1, fmax(0, (250. - Af) / 14)); Am = F1 * (50. * Af / Zf - p[10] / p[8]) + (1 - F1) * (50 - p[10]) * Af / Zf;
    B2 = 77 + 0.036 * (Af - 236.); B5 = Af - B2; B6 = Af - 70.; B4 = (p[10] - p[1] + Am * p[8] + 140 * p[5]) / (p[8] + p[5]); if (p[9] <= 0) p[9] = p[0]; }
  bool edge(double x) const { double h = fmax(x, A - x), e = 1e-7; return fabs(h - Am) < e || fabs(h - B4) < e || fabs(h - B5) < e || fabs(h - B6) < e; }
  // displacement, width and the two odd-even factors
  void at(double x, double *o) const {
    double h = x, c = A - x; bool light = x < c; if (light) { h = c; c = x; } double s5 = p[0] + p[4] * (B5 - 140), d5 = p[1] + p[5] * (B5 - 140); double d;
    if (h >= B6) { d = d5; o[1] = s5; o[2] = p[2]; o[3] = p[3]; }
    else if (h >= B5) { d = d5 - p[12] * (h - B5); o[1] = s5 + p[11] * (h - B5); o[2] = p[2] + p[13] * (h - B5); o[3] = p[3] + p[14] * (h - B5); }
    else if (h >= B4) { d = p[1] + p[5] * (h - 140); o[1] = p[0] + p[4] * (h - 140); o[2] = p[2] + p[6] * (h - 140); o[3] = p[3] + p[7] * (h - 140); }
    else if (h >= Am) { d = p[10] - p[8] * (h - Am); o[1] = p[9]; o[2] = o[3] = 1; }
    else { d = p[10] - (Am - h) * 2 * p[10] / (2 * Am - A); o[1] = p[0] - p[4] * (140 - Am); o[2] = o[3] = 1; }
    o[0] = light ? -d : d; } };
static void chisq(const char *what, const std::vector<double> &obs, const std::vector<double> &pr, long n, const char *ctx) {
  double x = 0, ro = 0, rp = 0; int df = -1;
  for (size_t i = 0; i < pr.size(); i++) { if (pr[i] * n >= 8) { x += (obs[i] - pr[i] * n) * (obs[i] - pr[i] * n) / (pr[i] * n); df++; } else { ro += obs[i]; rp += pr[i] * n; } }
  if (rp > 8) { x += (ro - rp) * (ro - rp) / rp; df++; } else if (ro > rp + 8 + 8 * sqrt(rp)) { fail("%s: %g samples where %g are expected: %s", what, ro, rp, ctx); return; }
  if (df < 1) return; vg_cases++; if (x > df + 8 * sqrt(2. * df) + 30) fail("%s: chi-square %.1f with %d degrees of freedom after %ld samples: %s", what, x, df, n, ctx);
}
int main(int c, char **v) {
  vg_eng.seed(atoi(v[2])); long n = atol(v[3]); lib_init(); YM = table("yamodel.dat", 15); TM = table("tkemodel.dat", 27); bool shown = false;
  static const double es[] = {2.53e-8, 0.5, 1, 2, 5, 6.5, 10, 14, 17, 20};
  for (int r = 0; r < NREACT; r++) { int za = REACT[r][0]; bool nf = REACT[r][1]; int id0 = za + nf;
    Yields y(id0, !nf); printf("CASE ZAID=%d\n", za);
    for (int q = 0; q < (nf ? 10 + (int)n / 4 : 1); q++) for (int k = 0; k < (nf ? 4 : 1); k++) {
      double e = nf ? (q < 10 ? es[q] : U(0, 20)) : 0; Model m = model(id0, !nf, k, e); char ctx[200]; snprintf(ctx, sizeof ctx, "ZAID=%d, chance %d, %.6g MeV", za, k + 1, e); vg_cases++;
      if (e == 20 && k == 0) { } y.setFissioningSystem(id0 - k, e);
      for (int i = 0; i < 3; i++) { if (!close_(y.w_e[i], m.w[i], 1e-9, 1e-9)) fail("weight of mode %d is %.9g, expected %.9g: %s", i, y.w_e[i], m.w[i], ctx); if (!close_(y.Abar[i], m.m[i])) fail("mean mass of mode %d is %.9g, expected %.9g: %s", i, y.Abar[i], m.m[i], ctx);
        if (!close_(y.sig_e[i], m.s[i])) { if (i == 0 && close_(y.sig_e[0], m.s0wrong)) { if (!shown) fail("symmetric-width: the width of the symmetric mode is %.9g, the data file gives %.9g: %s", y.sig_e[0], m.s[0], ctx); shown = true; m.s[0] = m.s0wrong; } else fail("width of mode %d is %.9g, expected %.9g: %s", i, y.sig_e[i], m.s[i], ctx); } }
      std::vector<double> Y(NUMA, 0); double tot = 0; int lo = 300, hi = -1;
      for (int a = 0; a < NUMA; a++) { double s = nd(a, m.w[0], m.m[0], m.s[0]); for (int i = 1; i < 3; i++) s += nd(a, m.w[i], m.m[i], m.s[i]) + nd(a, m.w[i], m.Ac - m.m[i], m.s[i]); bool near = fabs(s - 1e-5) < 1e-9; double w = s > 1e-5 ? s : 0, g = y.yieldA(a);
        if (!near && !close_(g, w, 1e-9, 1e-12)) { fail("yield of mass %d is %.9g, the modes give %.9g: %s", a, g, w, ctx); break; } Y[a] = near ? g : w; tot += Y[a]; if (Y[a] > 0) { if (a < lo) lo = a; hi = a; }
        if (a <= m.Ac && g != y.yieldA(m.Ac - a) && !close_(g, y.yieldA(m.Ac - a), 1e-9, 1e-12)) { fail("masses %d and %d have different yields %.9g and %.9g: %s", a, m.Ac - a, g, y.yieldA(m.Ac - a), ctx); break; } }
      for (int a = 0; a < NUMA; a++) Y[a] /= tot;
      std::vector<double> Yc(Y); y.setRescaleTKE(&Yc[0], lo, hi); double sum = 0, want = m.t0 + m.t1 * e, raw = 0; for (int a = lo; a <= hi; a++) { sum += Y[a] * y.get_avTKE(a); raw += Y[a] * poly(m.ta, a, m.Ac, 140); }
      if (!close_(sum, want, 1e-8, 1e-8)) fail("mean kinetic energy over all masses is %.9g, the data file gives %.9g: %s", sum, want, ctx);
      for (int a = lo; a <= hi; a++) { double av = poly(m.ta, a, m.Ac, 140) * want / raw, sg = poly(m.ts, a, m.Ac, 7); if (!close_(y.get_avTKE(a), av, 1e-8)) { fail("mean kinetic energy of mass %d is %.9g, expected %.9g: %s", a, y.get_avTKE(a), av, ctx); break; }
        double t = av + U(-3, 3) * fabs(sg), d = nd(t, 1, av, sg); if (!close_(y.yieldTKE(a, t), d > 1e-7 ? d : 0, 1e-6, 1e-10)) { fail("probability of the kinetic energy %.6g of mass %d is %.9g, expected %.9g: %s", t, a, y.yieldTKE(a, t), d, ctx); break; } 
        if (q % 5 == 0) { const int K = 40; double s1 = 0, s2 = 0; for (int i = 0; i < K; i++) { double x = (y.sampleTKE(a) - av) / fabs(sg); s1 += x; s2 += x * x; } if (fabs(s1) > 8 * sqrt(K) || fabs(s2 - K) > 12 * sqrt(2. * K)) { fail("%d sampled kinetic energies of mass %d: sum of the normalised deviations %.4g, of their squares %.4g: %s", K, a, s1, s2, ctx); break; } } }
    } }
  // the normal deviate
  { Yields y(92236, false); const long K = 20000; std::vector<double> ob(40, 0), pr(40, 0); for (long i = 0; i < K; i++) { double x = y.sampleGaussian(); int b = (int)floor((x + 4) * 5); if (b < 0) b = 0; if (b > 39) b = 39; ob[b]++; }
    for (int b = 0; b < 40; b++) { double l = b ? -4 + b / 5. : -99, h = b < 39 ? -4 + (b + 1) / 5. : 99; pr[b] = 0.5 * (erf(h / sqrt(2.)) - erf(l / sqrt(2.))); } chisq("normal deviate", ob, pr, K, "sampleGaussian"); }
  double dev[2] = {0, 0}, cnt[2] = {0, 0};
  // the distributions of an event
  for (long k = 0; k < n; k++) { int r = k < NREACT ? (int)k : N(0, NREACT - 1), za = REACT[r][0]; bool nf = REACT[r][1]; double En = nf ? (k < NREACT ? es[k % 10] : N(0, 1) ? es[N(0, 9)] : U(0.1, 20)) : 0; if (za == 92238 && En < 1) En = 2;
    FissionFragments *ff = new FissionFragments(za, En, 0.0); fissionFragmentType L, H; memset(&L, 0, sizeof L); memset(&H, 0, sizeof H); Yields y(ff->ZAIDc, ff->sf_flag);
    printf("CASE event distributions ZAID=%d En=%.6g\n", za, En);
    for (int q = 0; q < 4; q++) {
      ff->generateInitialFissionFragmentHistories(&L, &H, 1); ff->constructYields(&y); char ctx[200]; snprintf(ctx, sizeof ctx, "ZAID=%d En=%.6g, %d pre-fission neutrons, %.6g MeV", za, En, ff->n_pfn, ff->incidentEnergy); vg_cases++;
      int np = ff->n_pfn > 0 ? ff->n_pfn : 0; if (y.a_cn != ff->Ac0 - np || ff->Ac != y.a_cn) fail("the yields are those of mass %d, the nucleus that fissions has mass %d: %s", y.a_cn, ff->Ac0 - np, ctx);
      if (!close_(y.einc_now, ff->incidentEnergy)) fail("the yields are those at %.6g MeV: %s", y.einc_now, ctx);
      { Yields z(ff->ZAIDc, ff->sf_flag); z.setFissioningSystem(ff->ZAIDc - np, ff->incidentEnergy); double t = 0, mx = 0, s = 0; int lo = 300, hi = -1; for (int a = 0; a < NUMA; a++) { double x = z.yieldA(a); t += x; if (x > 0) { if (a < lo) lo = a; hi = a; } }
        if (lo != ff->Amin || hi != ff->Amax) fail("range of masses %d..%d, expected %d..%d: %s", ff->Amin, ff->Amax, lo, hi, ctx);
        for (int a = lo; a <= hi; a++) { double x = z.yieldA(a) / t; if (x > mx) mx = x; s += ff->YA[a]; if (!close_(ff->YA[a], x, 1e-9, 1e-13)) { fail("yield of mass %d is %.9g, expected %.9g: %s", a, ff->YA[a], x, ctx); break; } }
        if (!close_(s, 1, 1e-9)) fail("the mass yields add up to %.9g: %s", s, ctx); if (!close_(ff->maxYieldA, mx, 1e-9)) fail("the largest mass yield is %.9g, recorded %.9g: %s", mx, ff->maxYieldA, ctx);
        double tk = 0; for (int a = lo; a <= hi; a++) tk += ff->YA[a] * y.get_avTKE(a); if (!close_(tk, y.averageTKE(ff->incidentEnergy), 1e-8)) fail("mean kinetic energy of the event distribution %.9g, expected %.9g: %s", tk, y.averageTKE(ff->incidentEnergy), ctx); }
      Wahl w(ff->Zc0, ff->Ac0, ff->incidentEnergy0 + ff->SnCompound0);
      for (int a = ff->Amin; a <= ff->Amax; a++) { double o[4]; w.at(a, o); double z0 = double(ff->Zc0) / ff->Ac0 * a + o[0];
        if (!w.edge(a) && 2 * a != ff->Ac0 && (!close_(ff->Z0[a], z0, 1e-8) || !close_(ff->sZ0[a], o[1], 1e-8) || !close_(ff->FZZ0[a], o[2], 1e-8) || !close_(ff->FNZ0[a], o[3], 1e-8))) { fail("charge distribution of mass %d: mean %.9g width %.9g factors %.9g %.9g, the systematics give %.9g %.9g %.9g %.9g: %s", a, ff->Z0[a], ff->sZ0[a], ff->FZZ0[a], ff->FNZ0[a], z0, o[1], o[2], o[3], ctx); break; }
        int zp = (int)floor(ff->Z0[a] + 0.5), d = ff->dZ; double s = 0, p[2 * 10 + 1], t = 0, mx = 0;
        for (int j = 0; j <= 2 * d; j++) { int Z = zp + j - d, N_ = a - Z; double f = (Z % 2 ? 1 / ff->FZZ0[a] : ff->FZZ0[a]) * (N_ % 2 ? 1 / ff->FNZ0[a] : ff->FNZ0[a]), q2 = sqrt(2.) * ff->sZ0[a]; p[j] = ff->sZ0[a] > 0 ? f * 0.5 * (erf((Z - ff->Z0[a] + 0.5) / q2) - erf((Z - ff->Z0[a] - 0.5) / q2)) : j == d; s += p[j]; }
        bool bad = false; for (int j = 0; j <= 2 * d; j++) { double x = ff->YZA[j][a]; t += x; mx = fmax(mx, x); if (!close_(x, ff->YA[a] * p[j] / s, 1e-8, 1e-14)) { fail("yield of Z=%d A=%d is %.9g, expected %.9g: %s", zp + j - d, a, x, ff->YA[a] * p[j] / s, ctx); bad = true; break; } }
        if (bad) break; if (!close_(t, ff->YA[a], 1e-9, 1e-14)) { fail("the charges of mass %d add up to %.9g, its yield is %.9g: %s", a, t, ff->YA[a], ctx); break; }
        if (!close_(mx, ff->maxYieldZ[a], 1e-6, 1e-14)) { fail("largest charge yield of mass %d is %.9g, recorded %.9g: %s", a, mx, ff->maxYieldZ[a], ctx); break; } }
    }
    // sampled masses and charges
    { char ctx[100]; snprintf(ctx, sizeof ctx, "ZAID=%d En=%.6g", za, En); const long K = 4000; std::vector<double> oa(NUMA, 0), pa(NUMA, 0), oz(2 * NUMZ, 0), pz(2 * NUMZ, 0), ot(60, 0), pt(60, 0); double s1 = 0, s2 = 0;
      for (int a = ff->Amin; a <= ff->Amax; a++) { int h = 2 * a <= ff->Ac ? ff->Ac - a : a; pa[h] += ff->YA[a]; int zp = (int)floor(ff->Z0[a] + 0.5); for (int j = 0; j <= 2 * ff->dZ; j++) { int Z = zp + j - ff->dZ, Zl = 2 * a <= ff->Ac ? Z : ff->Zc - Z; pz[Zl] += ff->YZA[j][a]; } }
      bool cut = false; for (long i = 0; i < K; i++) { memset(&L, 0, sizeof L); memset(&H, 0, sizeof H); ff->sampleFissionFragments(&L, &H, &y); oa[H.A]++; oz[L.Z]++; double sg = fabs(y.sTKE[H.A]), x = sg > 0 ? (L.TKE - y.get_avTKE(H.A)) / sg : 0; s1 += x; s2 += x * x; }
      chisq("sampled masses", oa, pa, K, ctx); chisq("sampled charges", oz, pz, K, ctx); (void)cut;
      if (fabs(s1) > 0.15 * K || fabs(s2 - K) > 0.25 * K) fail("sampled kinetic energies: mean normalised deviation %.4g, mean square %.4g: %s", s1 / K, s2 / K, ctx); }
    // sampled spins
    for (int q = 0; q < 3; q++) { int a = N(ff->Amin > 70 ? ff->Amin : 70, ff->Amax < 165 ? ff->Amax : 165); int Z = (int)(ff->Z0[a] + 0.5); double Ux = U(3, 30), B = ff->spinParameter2(Ux, a, Z); char ctx[100]; snprintf(ctx, sizeof ctx, "Z=%d A=%d U=%.4g B2=%.4g", Z, a, Ux, B); const long K = 5000; std::vector<double> o(50, 0), p(50, 0); double s = 0, mu = 0, m2 = 0; for (int j = 0; j < 50; j++) { double J = j + (a % 2 ? 0.5 : 0); p[j] = (2 * J + 1) * exp(-J * (J + 1) / (2 * B)); s += p[j]; } for (int j = 0; j < 50; j++) { double J = j + (a % 2 ? 0.5 : 0); p[j] /= s; mu += p[j] * J; m2 += p[j] * J * J; } double sd = sqrt(m2 - mu * mu);
      bool bad = false; for (long i = 0; i < K; i++) { double sp = -1; ff->getInitialSpin(Z, a, &Ux, &sp); int j = (int)floor(sp); if (j < 0 || j > 49 || sp - j != (a % 2 ? 0.5 : 0)) { if (!bad) fail("sampled spin %g: %s", sp, ctx); bad = true; continue; } o[j]++; dev[a % 2] += (sp - mu) / sd; cnt[a % 2]++; } chisq("sampled spins", o, p, K, ctx); }
  }
  for (int o = 0; o < 2; o++) if (cnt[o] && fabs(dev[o]) > 7 * sqrt(cnt[o])) fail("sampled spins of %s masses: the mean is %.2f standard errors from that of the distribution after %.0f samples", o ? "odd" : "even", dev[o] / sqrt(cnt[o]), cnt[o]);
  return done();
}
