// executable contracts of kinematics.cpp on the real code
#include "common.h"
#include "cgm.h"
#include "masstable.h"
#include "physics.h"
#include "kinematics.h"
#include "FissionFragments.h"
#include "rngcgm.h"
extern std::string datadir;
void readMasses(void);
static const double Mn = NEUTRONMASS * amuMeV;
static double M(int Z, int A) { return A * amuMeV + getMassExcess(Z * 1000 + A); }
static double sq(const double *v) { return v[0] * v[0] + v[1] * v[1] + v[2] * v[2]; }
static double rngv() { return U(); }
static bool close3(const double *a, const double *b, double s) { for (int i = 0; i < 3; i++) if (!(std::fabs(a[i] - b[i]) <= 1e-9 * s)) return false; return true; }
static void table(double T[THETA_STEPS][2]) {   // a well-formed tabulated CDF in cos(theta)
  double acc = 0; T[0][0] = -1; T[0][1] = 0;
  for (int i = 1; i < THETA_STEPS; i++) { T[i][0] = -1 + 2. * i / (THETA_STEPS - 1); acc += U(0.01, 1); T[i][1] = acc; }
  for (int i = 0; i < THETA_STEPS; i++) T[i][1] /= acc;
}
static double Pc[THETA_STEPS][2], Pp[THETA_STEPS][2];

static void prefission(long k) {
  int Zc = N(90, 98), Ac = N(2 * Zc + 44, 2 * Zc + 56);
  double En = N(0, 3) ? U(0, 20) : (N(0, 1) ? 0. : 2.53e-8), TKE = N(0, 9) ? U(140, 210) : U(1, 140);
  int nu = N(0, 3); bool pe = nu > 0 && N(0, 1);
  int Zl = N(34, Zc / 2), Zh = Zc - Zl; int Al = (int)(Zl * (double)(Ac - nu) / Zc + 0.5), Ah = Ac - nu - Al;
  double anis = N(0, 1) ? 1.0 : U(0.8, 1.4);
  double cm[3], lab[3], w[3][3], v[3][3], pl[3], ph[3]; int nt[3] = {0, 0, 0};
  for (int i = 0; i < 3; i++) { cm[i] = N(0, 9) ? U(0, 8) : 0.; lab[i] = -77; for (int j = 0; j < 3; j++) w[i][j] = v[i][j] = -77; }
  double cm0[3]; memcpy(cm0, cm, sizeof cm);
  boost_pfn(Zc, Ac, En, TKE, Al, Zl, Ah, Zh, nu, anis, pe, cm, lab, nt, w, v, Pc, Pp, pl, ph);
  char ctx[400]; snprintf(ctx, sizeof ctx, "boost_pfn Zc=%d Ac=%d En=%.6g TKE=%.6g Al=%d Zl=%d Ah=%d Zh=%d nu=%d anis=%.4g preeq=%d cmE=%.6g,%.6g,%.6g case=%ld", Zc, Ac, En, TKE, Al, Zl, Ah, Zh, nu, anis, pe, cm0[0], cm0[1], cm0[2], k);
  double p[3] = {0, 0, sqrt(2 * Mn * En)}; double S = 1 + sqrt(2 * M(Zl, Al) * TKE);
  bool kf = false;
  for (int n = 0; n < nu; n++) {
    double want[3], alt[3];
    for (int i = 0; i < 3; i++) { want[i] = w[n][i] + p[i] / M(Zc, Ac - n); alt[i] = w[n][i] + p[i] / M(Zc, Ac - n + 1); }
    if (!close_(0.5 * Mn * sq(w[n]), cm0[n])) fail("c.m. speed of neutron %d does not match its c.m. energy: %s", n, ctx);
    if (!close_(0.5 * Mn * sq(v[n]), lab[n])) fail("lab energy of neutron %d is not its kinetic energy: %s", n, ctx);
    if (!close3(v[n], want, 0.1)) {
      if (pe && n > 0 && close3(v[n], alt, 0.1)) kf = true; else fail("lab velocity of neutron %d is not c.m. velocity plus emitter velocity: %s", n, ctx);
    }
    for (int i = 0; i < 3; i++) p[i] -= Mn * v[n][i];
  }
  double tot[3]; for (int i = 0; i < 3; i++) tot[i] = pl[i] + ph[i];
  if (!close3(tot, p, S)) fail("fragments and neutrons do not carry the incident momentum: %s", ctx);
  double Ml = M(Zl, Al), Mh = M(Zh, Ah);
  for (int alt = 0; alt < 2; alt++) {
    double Mc = M(Zc, Ac - nu + alt), q[3]; for (int i = 0; i < 3; i++) q[i] = pl[i] - Ml * p[i] / Mc;
    double tk = TKE - 0.5 * (Ml + Mh) * sq(p) / Mc / Mc;
    if (tk < 1e-3) break;
    if (close_(sq(q) * (1 / Ml + 1 / Mh), 2 * tk, 1e-9)) { if (alt) kf = true; break; }
    if (alt || !pe) { fail("fragments do not share the total kinetic energy: %s", ctx); break; }
  }
  if (kf) { static bool once = false; if (!once) printf("FAIL preeq-mass: after a pre-equilibrium neutron the emitter mass is not reduced: %s\n", ctx); once = true; }
  vg_cases++;
}
static void single(long k) {
  int Z = N(34, 62), A = (int)(Z * U(2.35, 2.6)); double p0[3], p[3], v[3], w[3], E = N(0, 9) ? U(0, 12) : 0; bool pe = N(0, 1);
  for (int i = 0; i < 3; i++) p[i] = p0[i] = N(0, 9) ? U(-4000, 4000) : 0;
  double r = neutron_emission_boost(Z, A, p, E, v, w, pe, Pc, Pp);
  char ctx[300]; snprintf(ctx, sizeof ctx, "neutron_emission_boost Z=%d A=%d E=%.6g p=(%.6g,%.6g,%.6g) preeq=%d case=%ld", Z, A, E, p0[0], p0[1], p0[2], pe, k);
  double wl[3], pt[3]; for (int i = 0; i < 3; i++) { wl[i] = w[i] + p0[i] / M(Z, A); pt[i] = p[i] + Mn * v[i]; }
  if (!close_(0.5 * Mn * sq(w), E)) fail("c.m. speed: %s", ctx);
  if (!close3(v, wl, 0.1)) fail("lab velocity: %s", ctx);
  if (!close3(pt, p0, 4000)) fail("momentum not conserved: %s", ctx);
  if (!close_(r, 0.5 * Mn * sq(v))) fail("lab energy: %s", ctx);
  vg_cases++;
}
static void fragment(long k) {
  int Z = N(34, 62), A = (int)(Z * U(2.35, 2.55)); int nn = N(0, 3) ? N(0, 4) : N(0, MAX_NUMBER_NEUTRONS), ng = N(0, MAX_NUMBER_GAMMAS);
  static double cm[MAX_NUMBER_NEUTRONS], lab[MAX_NUMBER_NEUTRONS], w[MAX_NUMBER_NEUTRONS][3], v[MAX_NUMBER_NEUTRONS][3];
  static double cg[MAX_NUMBER_GAMMAS], lg[MAX_NUMBER_GAMMAS], gw[MAX_NUMBER_GAMMAS][3], gv[MAX_NUMBER_GAMMAS][3];
  double p0[3], p[3]; double lim = N(0, 5) ? 5000 : 20;
  for (int i = 0; i < 3; i++) p[i] = p0[i] = N(0, 9) ? U(-lim, lim) : 0;
  double cm0[MAX_NUMBER_NEUTRONS], cg0[MAX_NUMBER_GAMMAS];
  for (int i = 0; i < MAX_NUMBER_NEUTRONS; i++) cm0[i] = cm[i] = N(0, 9) ? U(0, 10) : 0;
  for (int i = 0; i < MAX_NUMBER_GAMMAS; i++) cg0[i] = cg[i] = U(0.01, 9);
  boost(p, Z, A, nn, cm, lab, w, v, ng, cg, lg, gw, gv);
  char ctx[300]; snprintf(ctx, sizeof ctx, "boost Z=%d A=%d nn=%d ng=%d p=(%.6g,%.6g,%.6g) case=%ld", Z, A, nn, ng, p0[0], p0[1], p0[2], k);
  double q[3]; memcpy(q, p0, sizeof q);
  for (int n = 0; n < nn; n++) {
    double want[3]; for (int i = 0; i < 3; i++) want[i] = w[n][i] + q[i] / M(Z, A - n);
    if (!close_(0.5 * Mn * sq(w[n]), cm0[n])) fail("c.m. speed of neutron %d: %s", n, ctx);
    if (!close_(0.5 * Mn * sq(v[n]), lab[n])) fail("lab energy of neutron %d: %s", n, ctx);
    if (!close3(v[n], want, 0.1)) fail("lab velocity of neutron %d: %s", n, ctx);
    for (int i = 0; i < 3; i++) q[i] -= Mn * v[n][i];
  }
  if (!close3(p, q, 6000)) fail("momentum not conserved over the cascade: %s", ctx);
  double b = sqrt(sq(p)) / M(Z, A - nn);
  for (int g = 0; g < ng; g++) {
    if (!close_(sqrt(sq(gw[g])), cg0[g])) fail("c.m. photon %d momentum: %s", g, ctx);
    if (!close_(sqrt(sq(gv[g])), lg[g])) fail("lab photon %d momentum: %s", g, ctx);
    double c = gw[g][0] / cg0[g];
    if (!close_(lg[g], cg0[g] * sqrt(1 - b * b) / (1 - b * c), 1e-6)) fail("lab energy of photon %d is not Doppler shifted by the fragment velocity: %s", g, ctx);
    for (int i = 0; i < 3; i++) if (!close_(gv[g][i] * cg0[g], gw[g][i] * lg[g], 1e-8, 1e-7)) { fail("photon %d changed direction: %s", g, ctx); break; }
    if (cg[g] != cg0[g]) fail("c.m. photon energy overwritten: %s", ctx);
  }
  vg_cases++;
}
int main(int c, char **v) {
  std::string prop = v[1]; vg_eng.seed(atoi(v[2])); long n = atol(v[3]);
  rng_cgm = rngv; datadir = getenv("CGMFDATA"); readMasses();
  for (long k = 0; k < n; k++) {
    if (k % 50 == 0) { table(Pc); table(Pp); }
    if (prop == "C03") { prefission(k); single(k); } else fragment(k);
  }
  return done();
}
