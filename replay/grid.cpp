// the decay chain and the energy grid of the real library (SYNTHLEVELS); executable contracts of C12
#include "setup.h"
#include "REPO/libcgmf/src/setup.cpp"
static char cx[400];
static double lefts(int Z, int A, double E, int n) { return E - (mass_excess(Z, A - n) + n * ENEUTRON - mass_excess(Z, A)); }
static void chain(long k) {
  int Z = N(30, 66), A = (int)(Z * U(2.2, 2.75)); double E = N(0, 5) ? U(0, 45) : U(45, 90);
  snprintf(cx, sizeof cx, "Z=%d A=%d U=%.6g case %ld", Z, A, E, k);
  ncl[0].za.setZA(Z, A); ncl[0].max_energy = E;
  int n = statTotalNeutrons(E, &ncl[0].za);
  if (n < 0 || n > 9) { fail("%d neutrons: %s", n, cx); return; }
  for (int i = 1; i <= n; i++) if (lefts(Z, A, E, i) <= -1e-9) fail("%d neutrons are counted, but the energy suffices for less than %d: %s", n, i, cx);
  if (n < 9 && lefts(Z, A, E, n + 1) > 1e-9) fail("only %d neutrons are counted, but %.6g MeV are left after one more: %s", n, lefts(Z, A, E, n + 1), cx);
  Pdata pdt[MAX_CHANNEL]; statSetupInitSystem(n, pdt);
  double e = E;
  for (int i = 0; i <= n; i++) {
    if (ncl[i].za.getZ() != Z || ncl[i].za.getA() != A - i) fail("nucleus %d of the chain is %d,%d: %s", i, ncl[i].za.getZ(), ncl[i].za.getA(), cx);
    if (!close_(ncl[i].max_energy, e, 1e-9, 1e-9)) fail("nucleus %d of the chain has %.9g MeV instead of %.9g: %s", i, ncl[i].max_energy, e, cx);
    double b = mass_excess(Z, A - i - 1) + ENEUTRON - mass_excess(Z, A - i); Channel &c = ncl[i].cdt[neutron];
    if (i < n) {
      if (!close_(c.binding_energy, b, 1e-9, 1e-9)) fail("binding energy %d is %.9g instead of %.9g: %s", i, c.binding_energy, b, cx);
      if (INCLUDE_NEUTRON_EMISSION && (c.status != (b < e) || (c.status && c.next != i + 1))) fail("neutron channel %d: open %d next %d with %.6g MeV and binding energy %.6g: %s", i, c.status, c.next, e, b, cx);
    } else if (c.status) fail("the neutron channel of the last nucleus is open: %s", cx);
    e -= b;
  }
  getDiscreteLevels(ncl, n);
  for (int i = 0; i <= n; i++) {
    Nucleus &u = ncl[i]; u.max_energy = N(0, 3) ? u.max_energy : U(0, 3);
    int r = statSetupEnergyBin(&u); double el = u.lev[u.ndisc - 1].energy, em = u.max_energy;
    snprintf(cx, sizeof cx, "Z=%d A=%d E=%.9g last level %.6g", Z, A - i, em, el);
    if (r != u.ncont || u.ncont < 0 || u.ntotal > MAX_ENERGY_BIN || u.ncont >= u.ntotal) fail("%d of %d bins: %s", u.ncont, u.ntotal, cx);
    for (int j = 0; j < u.ncont; j++) {
      if (!close_(u.excitation[j], em - j * ENERGY_BIN, 1e-9, 1e-9)) fail("bin %d at %.9g: %s", j, u.excitation[j], cx);
      if (u.excitation[j] < el - 1e-9) fail("continuum bin %d at %.9g lies below the last level: %s", j, u.excitation[j], cx);
    }
    if (em > el + ENERGY_BIN && em > 1.5 * ENERGY_BIN && u.ncont == 0) fail("no continuum: %s", cx);
    if (u.ncont > 0 && u.excitation[u.ncont - 1] - ENERGY_BIN > el + ENERGY_BIN && u.excitation[u.ncont - 1] > 2 * ENERGY_BIN) fail("the continuum ends %.6g MeV above the last level: %s", u.excitation[u.ncont - 1] - el, cx);
    for (int j = 0; j < MAX_ENERGY_BIN; j += 7) for (int s = 0; s < MAX_J; s++) if (u.pop[j][s].even != 0 || u.pop[j][s].odd != 0) fail("bin %d is not empty: %s", j, cx);
    for (int j = 0; j < MAX_LEVELS; j++) if (u.lpop[j] != 0) fail("level %d is not empty: %s", j, cx);
    for (int j = 0; j < MAX_ENERGY_BIN; j++) if (u.binwidth[j] != ENERGY_BIN) { fail("width of bin %d: %s", j, cx); break; }
    vg_cases++;
  }
}
int main(int argc, char **argv) {
  vg_eng.seed(atoi(argv[2])); long count = atol(argv[3]);
  lib_init();
  for (long k = 0; k < count; k++) chain(k);
  return done();
}
