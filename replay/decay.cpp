// decay of continuum states by the real Hauser-Feshbach code on a synthetic level scheme (SYNTHLEVELS); executable contract of C11
#include "setup.h"
void spectraBinary_impl(int, Pdata *, double **);
#define spectraBinary spectraBinary_impl
#include "REPO/libcgmf/src/specmain.cpp"
#undef spectraBinary
void set_time_coincidence_window(double);
static char cx[700], dx_[200];
static Pdata kept[MAX_CHANNEL]; static bool have = false; static int direct = 0;
struct Snap { std::vector<double> e, o, l; };
static Snap snap(Nucleus &n) {
  Snap s; s.e.resize((size_t)MAX_ENERGY_BIN * MAX_J); s.o.resize(s.e.size()); s.l.assign(n.lpop, n.lpop + MAX_LEVELS);
  for (int k = 0; k < MAX_ENERGY_BIN; k++) for (int j = 0; j < MAX_J; j++) { s.e[(size_t)k * MAX_J + j] = n.pop[k][j].even; s.o[(size_t)k * MAX_J + j] = n.pop[k][j].odd; }
  return s;
}
static int spin0(Nucleus &n) { return (int)floor(2 * n.lev[0].spin + 0.001) % 2; }     // twice the smallest spin
static bool tri(int a, int l, int b) { return b >= abs(a - l) && b <= a + l && (a + b + l) % 2 == 0; }   // doubled spins
// the weights of all final states of (J,P) at the top of nucleus c0, from the transmission coefficients of the library
struct Want { std::vector<double> e, o, l, e1, o1, l1; double sum; };
static Transmission *tc, *td; static double *tg[MAX_MULTIPOL];
static void weights(int c0, int j0, int p0, bool open, Want &w) {
  Nucleus &n = ncl[c0]; int h = spin0(n); size_t M = (size_t)MAX_ENERGY_BIN * MAX_J;
  for (auto v : {&w.e, &w.o, &w.e1, &w.o1}) v->assign(M, 0.); w.l.assign(MAX_LEVELS, 0.); w.l1.assign(MAX_LEVELS, 0.); w.sum = 0;
  struct { int pg, l, t; } mp[3] = {{-1, 1, E1}, {1, 1, M1}, {1, 2, E2}};
  for (auto &m : mp) {
    for (int k = 1; k < n.ncont; k++) for (int j = 0; j < MAX_J; j++) if (tri(j0, 2 * m.l, 2 * j + h)) {
      double d = (p0 * m.pg == 1 ? n.density[k][j].even : n.density[k][j].odd) * n.binwidth[k] * tg[m.t][k];
      (p0 * m.pg == 1 ? w.e : w.o)[(size_t)k * MAX_J + j] += d; w.sum += d;
    }
    for (int i = 0; i < n.ndisc; i++) if (n.lev[i].spin >= fabs(j0 / 2. - m.l) && n.lev[i].spin <= j0 / 2. + m.l && n.lev[i].parity * p0 == m.pg) {
      double eg = n.excitation[0] - n.lev[i].energy, a = ldDensityParameter(n.lev[i].energy, (double)n.za.getA(), &n.ldp);
      double d = m.t == E1 ? gdrGammaTransmission(GL, E1_MULTIPOL, eg, E1, a, n.lev[i].energy) : m.t == M1 ? gdrGammaTransmission(SL, M1_MULTIPOL, eg, M1, 0., 0.) : gdrGammaTransmission(SL, E2_MULTIPOL, eg, E2, 0., 0.);
      w.l[i] += d; w.sum += d;
    }
  }
  if (!open) return;
  Nucleus &r = ncl[n.cdt[neutron].next]; int h1 = spin0(r); double sn = n.cdt[neutron].binding_energy;
  for (int k = 0; k < r.ncont; k++) {
    if (tc[k].lmax <= 0) continue;
    for (int l = 0; l <= tc[k].lmax; l++) for (int s = -1; s <= 1; s += 2) { int jp = 2 * l + s; if (jp < 0) continue;
      double t = tc[k].tran[s > 0 ? 3 * l : 3 * l + 1];
      for (int j = 0; j < MAX_J; j++) if (tri(j0, jp, 2 * j + h1)) {
        bool ev = (l % 2 ? -1 : 1) * p0 == 1; double d = t * (ev ? r.density[k][j].even : r.density[k][j].odd) * r.binwidth[k];
        (ev ? w.e1 : w.o1)[(size_t)k * MAX_J + j] += d; w.sum += d;
      } }
  }
  for (int i = 0; i < r.ndisc; i++) {
    if (td[i].lmax <= 0 || n.excitation[0] - sn - r.lev[i].energy <= 0) continue;
    for (int l = 0; l <= td[i].lmax; l++) if ((l % 2 ? -1 : 1) == p0 * r.lev[i].parity) for (int s = -1; s <= 1; s += 2) { int jp = 2 * l + s; if (jp < 0) continue;
      int j1 = (int)(2 * r.lev[i].spin); if (j1 < abs(j0 - jp) || j1 > j0 + jp) continue;
      double d = td[i].tran[s > 0 ? 3 * l : 3 * l + 1]; w.l1[i] += d; w.sum += d; }
  }
}
void spectraBinary(int c0, Pdata *pdt, double **spc) {
  Nucleus &n = ncl[c0]; bool ch = n.cdt[neutron].status; int c1 = ch ? n.cdt[neutron].next : -1;
  for (int i = 0; i < MAX_CHANNEL; i++) kept[i] = pdt[i]; have = true;
  bool open = ch && n.excitation[0] >= n.cdt[neutron].binding_energy; double sn = n.cdt[neutron].binding_energy;
  snprintf(dx_, sizeof dx_, "decay of ncl[%d] Z=%d A=%d at %.6g MeV, Sn=%.5g%s", c0, n.za.getZ(), n.za.getA(), n.excitation[0], sn, direct ? ", states set directly" : "");
  Snap a = snap(n), b; if (ch) b = snap(ncl[c1]);
  spectraBinary_impl(c0, pdt, spc);
  vg_cases++;
  Snap x = snap(n), y; if (ch) y = snap(ncl[c1]);
  if (!tc) { tc = new Transmission[MAX_ENERGY_BIN]; td = new Transmission[MAX_LEVELS]; for (int k = 0; k < MAX_ENERGY_BIN; k++) tc[k].tran = new double[3 * MAX_J](); for (int k = 0; k < MAX_LEVELS; k++) td[k].tran = new double[3 * MAX_J](); for (auto &p : tg) p = new double[MAX_ENERGY_BIN](); }
  double had = 0, got = 0, worst = 0; size_t M = a.e.size();
  for (int j = 0; j < MAX_J; j++) had += a.e[j] + a.o[j];
  for (size_t i = 0; i < M; i++) { for (double d : {x.e[i] - a.e[i], x.o[i] - a.o[i]}) { got += d; worst = std::min(worst, d); } if (ch) for (double d : {y.e[i] - b.e[i], y.o[i] - b.o[i]}) { got += d; worst = std::min(worst, d); } }
  for (int i = 0; i < MAX_LEVELS; i++) { double d = x.l[i] - a.l[i]; got += d; worst = std::min(worst, d); if (ch) { d = y.l[i] - b.l[i]; got += d; worst = std::min(worst, d); } }
  if (!close_(got, had, 1e-9, 1e-12)) { fail("the states held %.12g but %.12g was distributed: %s; %s", had, got, dx_, cx); return; }
  if (worst < -1e-12) fail("a population decreases by %.6g: %s; %s", -worst, dx_, cx);
  for (int j = 0; j < MAX_J; j++) if (x.e[j] != a.e[j] || x.o[j] != a.o[j]) { fail("the population of the bin that decays changes: %s; %s", dx_, cx); break; }
  if (ch) {
    Nucleus &r = ncl[c1];
    for (int k = 0; k < MAX_ENERGY_BIN; k++) if (!open || k >= r.ncont || r.excitation[k] > n.excitation[0] - sn + 1e-9) for (int j = 0; j < MAX_J; j++) if (y.e[(size_t)k * MAX_J + j] != b.e[(size_t)k * MAX_J + j] || y.o[(size_t)k * MAX_J + j] != b.o[(size_t)k * MAX_J + j]) { fail("a neutron populates bin %d of the daughter, which it cannot reach: %s; %s", k, dx_, cx); k = MAX_ENERGY_BIN; break; }
    for (int i = 0; i < MAX_LEVELS; i++) if ((!open || i >= r.ndisc || r.lev[i].energy >= n.excitation[0] - sn) && y.l[i] != b.l[i]) { fail("a neutron populates level %d of the daughter, which it cannot reach: %s; %s", i, dx_, cx); break; }
  }
  for (int i = n.ndisc; i < MAX_LEVELS; i++) if (x.l[i] != a.l[i]) { fail("a level that does not exist is fed: %s; %s", dx_, cx); break; }
  // every state of the top bin against the branching by its transmission coefficients
  for (auto &p : tg) for (int k = 0; k < MAX_ENERGY_BIN; k++) p[k] = 0;
  if (ch) { statStoreContinuumTransmission(c0, 0, &pdt[neutron], tc); statStoreDiscreteTransmission(c0, 0, &pdt[neutron], td); }
  statStoreGammaTransmission(0, tg, &n);
  Want w; std::vector<double> E(M), O(M), L(MAX_LEVELS), E1v(M), O1v(M), L1(MAX_LEVELS); double stuck = 0;
  for (int j = 0; j < MAX_J; j++) for (int p = -1; p <= 1; p += 2) {
    double q = p == 1 ? a.e[j] : a.o[j]; if (q == 0) continue; if (j > MAX_J - 12) return;
    weights(c0, 2 * j + spin0(n), p, open, w); if (w.sum == 0) { stuck += q; continue; } q /= w.sum;
    for (size_t i = 0; i < M; i++) { E[i] += q * w.e[i]; O[i] += q * w.o[i]; E1v[i] += q * w.e1[i]; O1v[i] += q * w.o1[i]; }
    for (int i = 0; i < MAX_LEVELS; i++) { L[i] += q * w.l[i]; L1[i] += q * w.l1[i]; }
  }
  auto same = [&](double g, double want) { return std::fabs(g - want) <= 1e-7 * had + 1e-6 * want; };
  for (size_t i = MAX_J; i < M; i++) if (!same(x.e[i] - a.e[i], E[i]) || !same(x.o[i] - a.o[i], O[i])) { fail("bin %d spin index %d gains %.6g/%.6g by photons instead of %.6g/%.6g: %s; %s", (int)(i / MAX_J), (int)(i % MAX_J), x.e[i] - a.e[i], x.o[i] - a.o[i], E[i], O[i], dx_, cx); break; }
  double left = stuck;
  for (int i = 0; i < MAX_LEVELS; i++) { double d = x.l[i] - a.l[i] - L[i]; if (stuck > 0 && d > 0) left -= d; else if (!same(d + L[i], L[i])) { fail("level %d gains %.6g by photons instead of %.6g: %s; %s", i, d + L[i], L[i], dx_, cx); break; } }
  if (stuck > 0 && std::fabs(left) > 1e-7 * had + 1e-12) fail("population %.6g that cannot decay is not moved to the levels: %s; %s", stuck, dx_, cx);
  if (ch) {
    for (size_t i = 0; i < M; i++) if (!same(y.e[i] - b.e[i], E1v[i]) || !same(y.o[i] - b.o[i], O1v[i])) { fail("bin %d spin index %d of the daughter gains %.6g/%.6g by neutrons instead of %.6g/%.6g: %s; %s", (int)(i / MAX_J), (int)(i % MAX_J), y.e[i] - b.e[i], y.o[i] - b.o[i], E1v[i], O1v[i], dx_, cx); break; }
    for (int i = 0; i < MAX_LEVELS; i++) if (!same(y.l[i] - b.l[i], L1[i])) { fail("level %d of the daughter gains %.6g by neutrons instead of %.6g: %s; %s", i, y.l[i] - b.l[i], L1[i], dx_, cx); break; }
  }
}
static double *sp4[4];
int main(int argc, char **argv) {
  vg_eng.seed(atoi(argv[2])); long count = atol(argv[3]); lib_init();
  for (auto &p : sp4) p = new double[MAX_ENERGY_BIN]();
  for (long k = 0; vg_cases < count; k++) {
    int Z = N(32, 64); int A = (int)(Z * U(2.25, 2.65)); double Uex = N(0, 5) ? U(0.3, 32) : U(0, 2.);
    double spin = N(0, 14) + 0.5 * (A % 2); int par = N(0, 1) ? 1 : -1; set_time_coincidence_window(-1);
    snprintf(cx, sizeof cx, "fragment Z=%d A=%d U=%.6g J=%.1f P=%d case=%ld", Z, A, Uex, spin, par, k); printf("CASE %s\n", cx); fflush(stdout);
    fissionEventType f; f.A = A; f.Z = Z; f.U = Uex; f.spin = spin; f.parity = par; f.KE = U(50, 120); for (int i = 0; i < 3; i++) f.preFragmentMomentum[i] = U(-3000, 3000);
    direct = 0; specMCMainFission(&f); if (!have) continue;
    for (int r = 0; r < 3 && vg_cases < count; r++) {
      std::vector<int> cs; for (int c = 0; c < MAX_COMPOUND; c++) { if (ncl[c].ncont > 0) cs.push_back(c); if (!ncl[c].cdt[neutron].status) break; }
      if (cs.empty()) break;
      direct = 1; int c = cs[N(0, (int)cs.size() - 1)]; statClearPopulation(&ncl[c]); if (ncl[c].cdt[neutron].status) statClearPopulation(&ncl[ncl[c].cdt[neutron].next]);
      int m = N(1, 5); for (int i = 0; i < m; i++) { int j = N(0, 9) ? N(0, 20) : N(0, MAX_J - 1); (N(0, 1) ? ncl[c].pop[0][j].even : ncl[c].pop[0][j].odd) = N(0, 3) ? U(0.01, 1.) : pow(10., U(-12, 0)); }
      spectraBinary(c, kept, sp4);
    }
  }
  return done();
}
