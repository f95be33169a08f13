// end-to-end events of the real library on a synthetic level scheme (SYNTHLEVELS); executable contracts of C05, C08, C09
#include "setup.h"
#include "REPO/libcgmf/src/specmc.cpp"
static double sq3(double a, double b, double c) { return a * a + b * b + c * c; }
static bool dir_ok(double u, double v, double w) { return std::fabs(sq3(u, v, w) - 1) < 1e-9; }
static char cx[600];
static void fragment(const char *prop, fissionEventType &f, int A, int Z, double U, double spin, int par, double KE, const double *p0) {
  // the record of one fragment against its decay history hs[0..np) -- valid right after specMCMainFission
  int nn = 0, ng = 0; double sum = 0;
  if (np < 1 || np > MAX_CASCADE) { fail("history length %d: %s", np, cx); return; }
  bool c5 = !strcmp(prop, "C05"), c8 = !strcmp(prop, "C08"), c9 = !strcmp(prop, "C09"), c10 = !strcmp(prop, "C10"), c4 = !strcmp(prop, "C04"); (void)c4;
  if (c8 && (hs[0].getMCPoint().getN() != 0)) fail("the history does not start at the fragment: %s", cx);
  double tprev = 0; bool disc = false;
  for (int i = 0; i < np - 1; i++) {
    MCPoint a = hs[i].getMCPoint(), b = hs[i + 1].getMCPoint();
    int kind = hs[i].getIndex(); double e = hs[i].getEnergy();
    double want = a.getE() - b.getE(), sn = 0;
    if (a.getN() != b.getN()) { sn = ncl[a.getN()].cdt[neutron].binding_energy; want -= sn; }
    if (c8) {
      if (!close_(e, want, 1e-9, 1e-9)) fail("emission %d carries %.9g but the states differ by %.9g: %s", i, e, want, cx);
      if (e < -1e-9) fail("emission %d has negative energy %.6g (kind %d, %.6g -> %.6g disc %d/%d): %s", i, e, kind, a.getE(), b.getE(), a.ifDiscrete(), b.ifDiscrete(), cx);
      if ((a.getN() != b.getN()) != (kind == neutron)) fail("emission %d: kind %d does not match the nuclei %d -> %d: %s", i, kind, a.getN(), b.getN(), cx);
      if (a.getN() != b.getN() && (ncl[b.getN()].za.getA() != ncl[a.getN()].za.getA() - 1 || ncl[b.getN()].za.getZ() != Z)) fail("neutron emission %d does not lead to the A-1 isotope: %s", i, cx);
      if (a.ifDiscrete()) {
        if (a.getE() != ncl[a.getN()].lev[a.getK()].energy) fail("discrete state %d does not have its level energy: %s", i, cx);
        if (i > 0 && i < np - 1 && kind != neutron) {
          bool ok = false; Level &l = ncl[a.getN()].lev[a.getK()];
          for (int j = 0; j < l.ngamma; j++) if (l.fstate[j] == b.getK()) ok = true;
          if (!ok) fail("transition %d: level %d has no branch to level %d: %s", i, a.getK(), b.getK(), cx);
        }
      }
      if (disc && !a.ifDiscrete()) fail("the cascade returns from a discrete level to the continuum: %s", cx);
      disc = disc || a.ifDiscrete();
    }
    if (c10 && a.ifDiscrete()) {
      Level &l = ncl[a.getN()].lev[a.getK()]; bool ok = false;
      for (int j = 0; j < l.ngamma; j++) if (l.fstate[j] == b.getK() && l.branch[j] > 0) ok = true;
      if (!ok) fail("transition %d: level %d has no branch to level %d: %s", i, a.getK(), b.getK(), cx);
      if (b.getN() != a.getN() || !b.ifDiscrete() || kind == neutron) fail("a discrete level does not decay by a transition within its nucleus: %s", cx);
      if (e != l.energy - ncl[a.getN()].lev[b.getK()].energy) fail("transition %d does not carry the difference of the level energies: %s", i, cx);
      if (kind != gammaray && kind != unknown) fail("transition %d is neither a photon nor a conversion electron: %s", i, cx);
    }
    sum += e + sn;
    if (kind == neutron) {
      if (c5 && nn < f.nu && f.cmNeutronEnergies[nn] != e) fail("c.m. energy of neutron %d is not that of the history: %s", nn, cx);
      nn++;
    } else if (kind == gammaray) {
      if ((c5 || c9) && ng < f.nug) {
        if (f.cmPhotonEnergies[ng] != e) fail("c.m. energy of photon %d is not that of the history: %s", ng, cx);
        double t = a.ifDiscrete() ? gammaTimeStamp[i] : 0.;
        if (f.photonAges[ng] != t) fail("age of photon %d is %.6g, emitted at %.6g: %s", ng, f.photonAges[ng], t, cx);
        if (a.ifDiscrete()) {
          if (t < tprev) fail("photon %d of the discrete cascade is emitted before its predecessor: %s", ng, cx);
          if (c9 && ncl[a.getN()].lev[a.getK()].halflife == 0 && tprev == 0 && t > 0 && i > 0 && !hs[i-1].getMCPoint().ifDiscrete()) fail("photon %d of a prompt level is delayed: %s", ng, cx);
          tprev = t;
          if (time_coincidence_window > 0 && t > time_coincidence_window) fail("photon %d is emitted outside the time window: %s", ng, cx);
        }
      }
      ng++;
    }
  }
  MCPoint last = hs[np - 1].getMCPoint(), first = hs[0].getMCPoint();
  if (c8) {
    if (!close_(sum + last.getE(), first.getE(), 1e-8, 1e-7)) fail("energy is not conserved along the cascade: %.9g emitted + %.9g left, %.9g at the start: %s", sum, last.getE(), first.getE(), cx);
    if (ncl[0].ncont > 0 && !first.ifDiscrete() && !close_(first.getE(), U, 1e-9, 1e-9)) fail("the cascade starts at %.9g, not at the excitation energy %.9g: %s", first.getE(), U, cx);
    if (!first.ifDiscrete() && (first.getP() != par || first.getJ() != (int)spin)) fail("the cascade starts from spin index %d parity %d, not %.1f %d: %s", first.getJ(), first.getP(), spin, par, cx);
    if (first.ifDiscrete() && ncl[0].ncont == 0) {
      double best = 1e9; for (int j = 0; j < ncl[0].ndisc; j++) best = fmin(best, fabs(ncl[0].lev[j].energy - U));
      if (fabs(first.getE() - U) > best + 1e-12) { static bool once = false; if (!once) printf("FAIL nearest-level: the cascade starts from the level at %.6g MeV, the nearest one is %.6g MeV away from U: %s\n", first.getE(), best, cx); once = true; }
    }
    if (time_coincidence_window <= 0 && last.getE() != 0.) fail("the cascade does not reach the ground state: %s", cx);
    if (time_coincidence_window > 0 && last.getE() != 0. && !(ncl[last.getN()].lev[last.getK()].halflife > 0 || true)) fail("x");
    if (last.getN() != nn) fail("the last nucleus is %d neutrons away but %d were emitted: %s", last.getN(), nn, cx);
  }
  if (c5) {
    if (f.nu != nn || f.nug != ng) fail("recorded %d neutrons and %d photons, the history has %d and %d: %s", f.nu, f.nug, nn, ng, cx);
    if (f.A != A || f.Z != Z || f.U != U || f.spin != spin || f.parity != par || f.KE != KE) fail("the decay changed the initial conditions of the fragment: %s", cx);
    double Mf = MassV(Z, A - nn), pf = 0, want = 0; (void)Mf; (void)pf; (void)want;
    double p[3]; for (int i = 0; i < 3; i++) { if (f.preFragmentMomentum[i] != p0[i]) fail("initial momentum changed: %s", cx); p[i] = p0[i]; }
    for (int n = 0; n < f.nu; n++) {
      if (f.neutronEnergies[n] > 0 && !dir_ok(f.neutronDircosu[n], f.neutronDircosv[n], f.neutronDircosw[n])) fail("neutron %d direction is not a unit vector: %s", n, cx);
      if (f.cmNeutronEnergies[n] > 0 && !dir_ok(f.cmNeutronDircosu[n], f.cmNeutronDircosv[n], f.cmNeutronDircosw[n])) fail("c.m. neutron %d direction is not a unit vector: %s", n, cx);
      double m = sqrt(2 * MnV * f.neutronEnergies[n]); p[0] -= m * f.neutronDircosu[n]; p[1] -= m * f.neutronDircosv[n]; p[2] -= m * f.neutronDircosw[n];
    }
    for (int i = 0; i < 3; i++) if (std::fabs(p[i] - f.postFragmentMomentum[i]) > 1e-6 * (1 + std::fabs(p0[0]) + std::fabs(p0[1]) + std::fabs(p0[2]))) { fail("the recorded neutrons and the final momentum do not add up to the initial momentum: %s", cx); break; }
    for (int n = 0; n < f.nug; n++) {
      if (!(f.photonEnergies[n] >= 0)) fail("photon %d has energy %g: %s", n, f.photonEnergies[n], cx);
      if (f.photonEnergies[n] > 0 && !dir_ok(f.photonDircosu[n], f.photonDircosv[n], f.photonDircosw[n])) fail("photon %d direction is not a unit vector: %s", n, cx);
    }
    double k = sq3(f.postFragmentMomentum[0], f.postFragmentMomentum[1], f.postFragmentMomentum[2]);
    if (!close_(f.KEpost, k / 2 / MassV(Z, A - nn), 1e-9)) {
      if (close_(f.KEpost, k / 2 / MassV(Z, A), 1e-9)) { static bool once = false; if (!once) printf("FAIL kepost-mass: the final kinetic energy is computed with the mass before neutron emission: %s\n", cx); once = true; }
      else fail("final kinetic energy %.9g is not that of the final momentum: %s", f.KEpost, cx);
    }
  }
}
static void cascades(const char *prop, long k) {
  int Z = N(32, 64); int A = (int)(Z * U(2.25, 2.65)); double Uex = N(0, 5) ? U(0.3, 32) : U(0, 2.);
  double spin = N(0, 14) + 0.5 * (A % 2); int par = N(0, 1) ? 1 : -1;
  double tw = (k % 3 == 0) ? -1. : pow(10., U(-10, -4)); set_time_coincidence_window(tw);
  snprintf(cx, sizeof cx, "fragment Z=%d A=%d U=%.6g J=%.1f P=%d window=%.3g case=%ld", Z, A, Uex, spin, par, tw, k);
  printf("CASE %s\n", cx); fflush(stdout);
  fissionEventType f; f.A = A; f.Z = Z; f.U = Uex; f.spin = spin; f.parity = par; f.KE = U(50, 120);
  double p0[3]; for (int i = 0; i < 3; i++) p0[i] = f.preFragmentMomentum[i] = U(-3000, 3000);
  double KE = f.KE;
  specMCMainFission(&f);
  fragment(prop, f, A, Z, Uex, spin, par, KE, p0);
  vg_cases++;
}
#define SAME(a, b, what) if (!((a) == (b))) fail("%s: %g recorded, %g expected: %s", what, (double)(a), (double)(b), cx)
static void event(const char *prop, long k) {
  int r = k % NREACT; double E = REACT[r][1] ? (N(0, 4) ? U(0.01, 20) : 2.53e-8) : 0.; double t0 = N(0, 2) ? 0. : U(0, 100);
  snprintf(cx, sizeof cx, "ZAID=%d E=%.8g time=%.5g event %ld", REACT[r][0], E, t0, k);
  printf("CASE %s\n", cx); fflush(stdout);
  double tw = (k % 4 == 0) ? -1. : pow(10., U(-10, -5));
  cgmfEvent *e = new cgmfEvent(REACT[r][0], E, t0, tw);
  if (!strcmp(prop, "C09")) for (int s = 0; s < 2; s++) { fissionEventType &f = s ? e->eventHF : e->eventLF; for (int i = 0; i < f.nug; i++) if (tw > 0 && f.photonAges[i] > tw) fail("photon age %g exceeds the time window %g of the event: %s", f.photonAges[i], tw, cx); }
  if (!strcmp(prop, "C09") && (tw > 0 ? time_coincidence_window != tw : time_coincidence_window > 0)) fail("the event was decayed with the time window %g instead of %g: %s", time_coincidence_window, tw, cx);
  fissionEventType &l = e->eventLF, &h = e->eventHF;
  SAME(e->neutronNu, l.nu + h.nu, "neutron multiplicity"); SAME(e->photonNu, l.nug + h.nug, "photon multiplicity");
  int Zc = REACT[r][0] / 1000, Ac = REACT[r][0] % 1000 + REACT[r][1];
  SAME(l.Z + h.Z, Zc, "total charge"); SAME(l.A + h.A + e->preFissionNeutronNu, Ac, "total mass number");
  double tot[3]; for (int i = 0; i < 3; i++) tot[i] = l.preFragmentMomentum[i] + h.preFragmentMomentum[i];
  for (int i = 0; i < e->preFissionNeutronNu; i++) {
    double m = sqrt(2 * MnV * e->preFissionNeutronEnergies[i]);
    tot[0] += m * e->preFissionNeutronDircosu[i]; tot[1] += m * e->preFissionNeutronDircosv[i]; tot[2] += m * e->preFissionNeutronDircosw[i];
    if (!dir_ok(e->preFissionNeutronDircosu[i], e->preFissionNeutronDircosv[i], e->preFissionNeutronDircosw[i])) fail("pre-fission neutron direction: %s", cx);
  }
  tot[2] -= sqrt(2 * MnV * E);
  for (int i = 0; i < 3; i++) if (std::fabs(tot[i]) > 1e-3) { fail("momentum component %d of the event is off by %.6g: %s", i, tot[i], cx); break; }
  for (int s = 0; s < 2; s++) {
    fissionEventType &f = s ? h : l; int o = s ? l.nu : 0, og = s ? l.nug : 0;
    double n = sqrt(sq3(f.preFragmentMomentum[0], f.preFragmentMomentum[1], f.preFragmentMomentum[2]));
    if (!close_(f.fragmentDircosu * n, f.preFragmentMomentum[0], 1e-9, 1e-6) || !close_(f.fragmentDircosv * n, f.preFragmentMomentum[1], 1e-9, 1e-6) || !close_(f.fragmentDircosw * n, f.preFragmentMomentum[2], 1e-9, 1e-6)) fail("fragment direction is not that of its momentum: %s", cx);
    for (int i = 0; i < f.nu; i++) {
      SAME(e->neutronEnergies[o + i], f.neutronEnergies[i], "neutron energy"); SAME(e->neutronDircosu[o + i], f.neutronDircosu[i], "neutron u"); SAME(e->neutronDircosv[o + i], f.neutronDircosv[i], "neutron v");
      SAME(e->neutronDircosw[o + i], f.neutronDircosw[i], "neutron w"); SAME(e->cmNeutronEnergies[o + i], f.cmNeutronEnergies[i], "c.m. neutron energy"); SAME(e->neutronAges[o + i], t0, "neutron age");
      SAME(e->cmNeutronDircosu[o + i], f.cmNeutronDircosu[i], "c.m. neutron u"); SAME(e->cmNeutronDircosv[o + i], f.cmNeutronDircosv[i], "c.m. neutron v"); SAME(e->cmNeutronDircosw[o + i], f.cmNeutronDircosw[i], "c.m. neutron w");
    }
    for (int i = 0; i < f.nug; i++) {
      SAME(e->photonEnergies[og + i], f.photonEnergies[i], "photon energy"); SAME(e->photonDircosu[og + i], f.photonDircosu[i], "photon u"); SAME(e->photonDircosv[og + i], f.photonDircosv[i], "photon v");
      SAME(e->photonDircosw[og + i], f.photonDircosw[i], "photon w"); SAME(e->photonAges[og + i], t0 + f.photonAges[i], "photon age");
      if (!(f.photonAges[i] >= 0)) fail("photon age %g: %s", f.photonAges[i], cx);
    }
    double q = sq3(f.preFragmentMomentum[0], f.preFragmentMomentum[1], f.preFragmentMomentum[2]); (void)q;
    int A = f.A, Z = f.Z; double U0 = f.U, sp = f.spin, KE = f.KE; int pa = f.parity;
    if (s) { double p0[3]; memcpy(p0, f.preFragmentMomentum, sizeof p0); fragment(prop, f, A, Z, U0, sp, pa, KE, p0); }   // hs still holds the history of the heavy fragment
  }
  SAME(e->ZAIDt, REACT[r][0], "target"); SAME(e->incidentEnergy, E, "incident energy");
  delete e;
  vg_cases++;
}
// sampling of branches, conversion and life times of single levels against the level scheme (bounded, fixed random numbers)
static void branching() {
  int tested = 0;
  for (int tr = 0; tr < 400 && tested < 12; tr++) {
    int Z = N(32, 60), A = (int)(Z * U(2.25, 2.65)); ncl[0].za.setZA(Z, A); getDiscreteLevels(ncl, 0);
    int i0 = -1; for (int i = ncl[0].ndisc - 1; i > 0; i--) if (ncl[0].lev[i].ngamma > 1) { i0 = i; break; }
    if (i0 < 0) continue;
    tested++; Level &l = ncl[0].lev[i0]; set_time_coincidence_window(-1);
    const int M = 20000; std::vector<int> hit(l.ngamma, 0), ic(l.ngamma, 0); double t = 0;
    for (int m = 0; m < M; m++) {
      np = 0; mcGammaCascade(0, i0, spc);
      int f = np > 1 ? hs[1].getMCPoint().getK() : 0; t += gammaTimeStamp[0];
      for (int j = 0; j < l.ngamma; j++) if (l.fstate[j] == f) { hit[j]++; if (hs[0].getIndex() != gammaray) ic[j]++; }
    }
    snprintf(cx, sizeof cx, "Z=%d A=%d level %d", Z, A, i0);
    for (int j = 0; j < l.ngamma; j++) {
      double p = l.branch[j], s = sqrt(M * p * (1 - p)) + 1;
      if (fabs(hit[j] - M * p) > 6 * s) fail("branch %d with probability %.4g is taken %d times out of %d: %s", j, p, hit[j], M, cx);
      double q = INCLUDE_INTERNAL_CONVERSION ? 1 - l.gratio[j] : 0., sq = sqrt(hit[j] * q * (1 - q)) + 1;
      if (fabs(ic[j] - hit[j] * q) > 6 * sq) fail("branch %d with conversion probability %.4g is converted %d times out of %d: %s", j, q, ic[j], hit[j], cx);
    }
    double tau = l.halflife / log(2.);
    if (fabs(t / M - tau) > 6 * tau / sqrt((double)M)) fail("the mean life is %.6g instead of %.6g: %s", t / M, tau, cx);
    vg_cases++;
  }
}
// hand-made level schemes: branching ratios that do not add up to one, closed branches, long-lived levels, extreme random numbers
static double xrng() { int k = N(0, 29); return k == 0 ? 1e-13 : k == 1 ? 1 - 1e-13 : U(); }
static void schemes(const char *prop, long k) {
  bool c8 = !strcmp(prop, "C08"), c9 = !strcmp(prop, "C09"), c10 = !strcmp(prop, "C10");
  int c = N(0, 3), nl = N(2, 12); Nucleus &n = ncl[c];
  n.za.setZA(44, 110); ncl[0].de = ENERGY_BIN; n.ndisc = nl;
  double e = 0;
  for (int i = 0; i < nl; i++) {
    Level &l = n.lev[i]; l.energy = e; e += U(0.01, 0.5); l.spin = N(0, 8); l.parity = N(0, 1) ? 1 : -1; l.halflife = N(0, 1) ? 0 : pow(10., U(-13, -3)); l.ngamma = i ? N(1, std::min(i, 5)) : 0;
    l.fstate.assign(std::max(1, l.ngamma), 0); l.branch.assign(std::max(1, l.ngamma), 0.); l.gratio.assign(std::max(1, l.ngamma), 1.);
    std::vector<int> t; for (int j = 0; j < i; j++) t.push_back(j); std::shuffle(t.begin(), t.end(), vg_eng);
    double s = 0; for (int j = 0; j < l.ngamma; j++) { l.fstate[j] = t[j]; s += l.branch[j] = (j && N(0, 5) == 0) ? 0. : U(0.01, 1.); l.gratio[j] = N(0, 1) ? 1. : U(0., 1.); }
    double norm = N(0, 2) ? 1. : U(0.7, 1.); for (int j = 0; j < l.ngamma; j++) l.branch[j] *= norm / s;
  }
  double tw = N(0, 1) ? -1. : pow(10., U(-12, -3)); set_time_coincidence_window(tw);
  int i0 = N(0, nl - 1), np0 = N(0, 5); np = np0; for (int i = 0; i < MAX_CASCADE; i++) gammaTimeStamp[i] = 1e30;
  snprintf(cx, sizeof cx, "hand-made scheme of %d levels, start level %d, window %.3g, seed position %ld", nl, i0, tw, k);
  rng_cgm = xrng; int fin = mcGammaCascade(c, i0, spc); rng_cgm = vrng;
  int cur = i0; double tp = 0;
  for (int i = np0; i < np; i++) {
    MCPoint a = hs[i].getMCPoint(); Level &l = n.lev[a.getK()]; int nxt = i + 1 < np ? hs[i + 1].getMCPoint().getK() : fin; bool ok = false;
    if (a.getN() != c || !a.ifDiscrete() || a.getK() != cur) fail("step %d starts from another state than the previous one reached: %s", i - np0, cx);
    for (int j = 0; j < l.ngamma; j++) if (l.fstate[j] == nxt && l.branch[j] > 0) ok = true;
    if (c10 && !ok) fail("level %d has no branch to level %d: %s", a.getK(), nxt, cx);
    if ((c10 || c8) && (hs[i].getEnergy() != l.energy - n.lev[nxt].energy || a.getE() != l.energy || hs[i].getEnergy() < 0)) fail("the transition from level %d to %d carries %.9g: %s", a.getK(), nxt, hs[i].getEnergy(), cx);
    if ((c10 || c8) && (a.getJ() != (int)l.spin || a.getP() != l.parity)) fail("state %d has not the spin and parity of its level: %s", i - np0, cx);
    if ((c10 || c8) && hs[i].getIndex() != gammaray && hs[i].getIndex() != unknown) fail("transition %d is neither a photon nor a conversion electron: %s", i - np0, cx);
    if (c9) {
      if (gammaTimeStamp[i] < tp || (l.halflife == 0 && gammaTimeStamp[i] != tp)) fail("transition %d at %.6g s after one at %.6g s (half-life %.3g): %s", i - np0, gammaTimeStamp[i], tp, l.halflife, cx);
      if (l.halflife > 0 && !(gammaTimeStamp[i] > tp) && tp < 1e3 * l.halflife) fail("transition %d of a level with half-life %.3g is prompt: %s", i - np0, l.halflife, cx);
      if (tw > 0 && gammaTimeStamp[i] > tw) fail("transition %d is outside the time window: %s", i - np0, cx);
      tp = gammaTimeStamp[i];
    }
    cur = nxt;
  }
  if (cur != fin) fail("the cascade ends in level %d, its last step in %d: %s", fin, cur, cx);
  if (tw <= 0 && fin != 0) fail("the cascade does not reach the ground state: %s", cx);
  if (tw > 0 && fin != 0 && n.lev[fin].halflife == 0) fail("the cascade stops in a level without half-life: %s", cx);
  vg_cases++;
}
// hand-made decay histories: any order of neutrons, photons and conversion electrons up to the limits
static void histories(long k) {
  set_time_coincidence_window(-1);
  int Z = N(32, 64), A = (int)(Z * U(2.25, 2.65)); for (int i = 0; i < MAX_COMPOUND; i++) ncl[i].za.setZA(Z, A - i);
  int nn = N(0, 3) ? N(0, 4) : N(0, MAX_COMPOUND - 1), ng = N(0, 3) ? N(0, 8) : N(30, 50), nc = N(0, 4); if (k % 5 == 0) { nn = N(0, 1) * (MAX_COMPOUND - 1); ng = N(0, 1) * 50; }
  std::vector<int> kinds(nn, (int)neutron); std::vector<int> rest(ng, (int)gammaray); rest.insert(rest.end(), nc, (int)unknown);
  std::shuffle(rest.begin(), rest.end(), vg_eng); int cont = rest.empty() ? 0 : N(0, (int)rest.size());
  if (N(0, 1)) { for (int i = 0; i < cont && N(0, 2) == 0; i++) if (rest[i] == gammaray && kinds.size()) { kinds.insert(kinds.begin() + N(0, (int)kinds.size()), (int)gammaray); rest.erase(rest.begin() + i); cont--; } }
  kinds.insert(kinds.end(), rest.begin(), rest.end());
  np = 0; int n = 0; double e = 40., t = 0; int disc0 = (int)kinds.size() - (int)rest.size() + cont; for (int i = 0; i < MAX_CASCADE; i++) gammaTimeStamp[i] = 77.;
  for (size_t i = 0; i < kinds.size(); i++) {
    bool d = (int)i >= disc0 || kinds[i] == (int)unknown; MCPoint m(n, N(0, 1) ? 1 : -1, N(0, 10), d ? N(0, 9) : N(0, 500), e); if (d) { m.setDiscrete(); if (N(0, 1)) t += pow(10., U(-12, -6)); gammaTimeStamp[i] = t; }
    double w = N(0, 3) ? U(0.01, 3.) : U(0.0001, 9.); hs[np++].set(kinds[i], w, m); e -= w; if (kinds[i] == neutron) n++;
  }
  MCPoint last(n, 1, 0, 0, 0.); last.setDiscrete(); hs[np++].set(gammaray, 0., last);
  fissionEventType f; f.A = A; f.Z = Z; f.U = 40.; f.spin = 1; f.parity = 1; f.KE = U(50, 120); double p0[3]; for (int i = 0; i < 3; i++) p0[i] = f.preFragmentMomentum[i] = U(-3000, 3000);
  snprintf(cx, sizeof cx, "hand-made history Z=%d A=%d of %d neutrons, %d photons and %d conversion electrons, case %ld", Z, A, nn, ng, nc, k); printf("CASE %s\n", cx); fflush(stdout);
  double KE = f.KE; int keep = np; recordEmittedParticlesFission(&f); if (np != keep) fail("recording changes the history: %s", cx);
  fragment("C05", f, A, Z, 40., 1, 1, KE, p0); vg_cases++;
}
int main(int argc, char **argv) {
  std::string prop = argv[1]; vg_eng.seed(atoi(argv[2])); long count = atol(argv[3]);
  lib_init();
  long ne = prop == "C05" ? count / 4 : count / 10;
  for (long k = 0; k < count; k++) cascades(prop.c_str(), k);
  if (prop == "C10") branching();
  if (prop == "C05") for (long k = 0; k < 10 * count; k++) histories(k);
  if (prop != "C05") for (long k = 0; k < 20 * count; k++) schemes(prop.c_str(), k);
  for (long k = 0; k < ne; k++) event(prop.c_str(), k);
  return done();
}
