// executable contracts of the fragment-pair sampling on the real code
#include "setup.h"
static bool half(double j, int A) { double x = (A % 2) ? j - 0.5 : j; return j >= 0 && x == floor(x) && j < 50; }
static void chk(FissionFragments *ff, fissionFragmentType &l, fissionFragmentType &h, const char *ctx, bool accepted, bool c1, bool c2) {
  char d[500]; snprintf(d, sizeof d, "%s -> light Z=%d A=%d U=%.6g J=%g P=%d KE=%.6g heavy Z=%d A=%d U=%.6g J=%g P=%d KE=%.6g TKE=%.6g Q=%.6g", ctx, l.Z, l.A, l.U, l.spin, l.parity, l.KE, h.Z, h.A, h.U, h.spin, h.parity, h.KE, l.TKE, l.energyRelease);
  double Q = ff->massExcessCompound - getMassExcess(1000 * l.Z + l.A) - getMassExcess(1000 * h.Z + h.A);
  double TXE = Q + ff->incidentEnergy + ff->SnCompound - l.TKE;
  if (c1) {
    if (l.A + h.A != ff->Ac) fail("mass numbers do not add up to %d: %s", ff->Ac, d);
    if (l.Z + h.Z != ff->Zc) fail("charges do not add up to %d: %s", ff->Zc, d);
    if (ff->Ac != ff->Ac0 - (ff->n_pfn > 0 ? ff->n_pfn : 0)) fail("fissioning mass %d is not %d less the %d pre-fission neutrons: %s", ff->Ac, ff->Ac0, ff->n_pfn, d);
    if (l.A > h.A) fail("the light fragment is heavier: %s", d);
    if (l.N != l.A - l.Z || h.N != h.A - h.Z) fail("N != A - Z: %s", d);
    if (TXE >= 0) {
      if (!half(l.spin, l.A) || !half(h.spin, h.A)) fail("spin does not match the mass parity: %s", d);
      if (abs(l.parity) != 1 || abs(h.parity) != 1) fail("parity is not +1 or -1: %s", d);
    }
    if (!close_(l.KE + h.KE, l.TKE) || l.TKE != h.TKE) fail("kinetic energies do not add up to TKE: %s", d);
    if (!close_(l.KE * MassV(l.Z, l.A), h.KE * MassV(h.Z, h.A), 1e-6)) fail("kinetic energies are not shared in inverse ratio of the masses: %s", d);
    if (!close_(l.mass, MassV(l.Z, l.A), 1e-6) || !close_(h.mass, MassV(h.Z, h.A), 1e-6)) fail("recorded masses: %s", d);
    for (int i = 0; i < 3; i++) if (l.postMomentum[i] != l.preMomentum[i] || h.postMomentum[i] != h.preMomentum[i]) { fail("post-emission momentum does not start as the initial one: %s", d); break; }
  }
  if (c2) {
    if (!close_(l.energyRelease, Q) || !close_(h.energyRelease, Q)) fail("energy release is not the mass difference %.9g: %s", Q, d);
    if (TXE < 0) { if (l.U != 0 || h.U != 0) fail("forbidden pair (TXE=%.6g) has excitation energy: %s", TXE, d); if (accepted) fail("a forbidden pair was accepted (TXE=%.6g): %s", TXE, d); }
    else if (!close_(l.U + h.U, TXE, 1e-9, 1e-7)) fail("excitation energies do not add up to Q+Einc+Sn-TKE=%.9g: %s", TXE, d);
    if (l.U < 0 || h.U < 0) fail("negative excitation energy: %s", d);
  }
}
int main(int c, char **v) {
  std::string prop = v[1]; vg_eng.seed(atoi(v[2])); long n = atol(v[3]);
  bool c1 = prop == "C01", c2 = prop == "C02";
  lib_init();
  for (long k = 0; k < n; k++) {
    int r = k < NREACT ? (int)k : N(0, NREACT - 1); int za = REACT[r][0]; double En = 0;
    if (REACT[r][1]) { static const double es[] = {2.53e-8, 0.5, 2, 5, 6.5, 8, 10, 12, 14, 15, 17, 19, 20}; En = N(0, 2) ? es[N(0, 12)] : U(1e-3, 20); if (za == 92238 && En < 1) En = 2; }
    printf("CASE ZAID=%d En=%.6g case=%ld\n", za, En, k);
    FissionFragments *ff = new FissionFragments(za, En, 0.0);
    char ctx[200]; snprintf(ctx, sizeof ctx, "ZAID=%d En=%.6g case=%ld", za, En, k);
    fissionFragmentType l[20], h[20];
    memset(l, 0, sizeof l); memset(h, 0, sizeof h);
    if (c1) ff->generateInitialFissionFragmentHistories(l, h, 20);
    // one event at a time: the effective incident energy is re-sampled for every event
    for (int i = 0; i < 20; i++) { if (!c1) ff->generateInitialFissionFragmentHistories(l + i, h + i, 1); chk(ff, l[i], h[i], ctx, true, c1, c2); vg_cases++; }
    double mx = ff->massExcessCompound;
    if (c2) {
      if (!close_(mx, getMassExcess(1000 * ff->Zc + ff->Ac), 1e-6, 2e-2)) fail("mass excess of the fissioning nucleus: %s", ctx);
      double Sn = REACT[r][1] ? getMassExcess(1000 * ff->Zc + ff->Ac - 1) + getMassExcess(1) - getMassExcess(1000 * ff->Zc + ff->Ac) : 0;
      if (!close_(ff->SnCompound, Sn, 1e-6, 2e-2)) fail("neutron separation energy of the fissioning nucleus %.6g, expected %.6g: %s", ff->SnCompound, Sn, ctx);
      double E = REACT[r][1] ? En + getMassExcess(1000 * ff->Zc0 + ff->Ac0 - 1) + getMassExcess(1) - getMassExcess(1000 * ff->Zc0 + ff->Ac0) : 0;
      if (ff->n_pfn <= 0 && !close_(ff->incidentEnergy + ff->SnCompound, E, 1e-6, 2e-2)) fail("excitation energy of the fissioning nucleus %.6g, expected %.6g: %s", ff->incidentEnergy + ff->SnCompound, E, ctx);
      if (ff->n_pfn > 0) {
        double e = E; for (int i = 0; i < ff->n_pfn; i++) e -= ff->cmEnergy_pfn[i] + getMassExcess(1000 * ff->Zc0 + ff->Ac0 - i - 1) + getMassExcess(1) - getMassExcess(1000 * ff->Zc0 + ff->Ac0 - i);
        if (!(fabs(ff->incidentEnergy + ff->SnCompound - e) < 0.5)) fail("excitation energy left after %d pre-fission neutrons (cm energies %.4g %.4g %.4g) is %.6g, expected %.6g: %s", ff->n_pfn, ff->cmEnergy_pfn[0], ff->cmEnergy_pfn[1], ff->cmEnergy_pfn[2], ff->incidentEnergy + ff->SnCompound, e, ctx);
      }
    }
    // arbitrary pairs and kinetic energies, straight through the energy/spin assignment and the table sampler
    for (int q = 0; q < 50; q++) {
      int Al = N(ff->Amin, ff->Ac / 2), Ah = ff->Ac - Al, Zl = (int)(ff->Z0[Al] + U(-1, 2)), Zh = ff->Zc - Zl;
      double TKE = U(60, 260); fissionFragmentType L, H; memset(&L, 0, sizeof L); memset(&H, 0, sizeof H);
      L.A = Al; L.Z = Zl; H.A = Ah; H.Z = Zh; L.N = Al - Zl; H.N = Ah - Zh; L.TKE = H.TKE = TKE;
      L.mass = MassV(Zl, Al); H.mass = MassV(Zh, Ah); L.KE = TKE * H.mass / (L.mass + H.mass); H.KE = TKE * L.mass / (L.mass + H.mass);
      ff->computeFragmentInitialConditions(TKE, Zl, Al, Zh, Ah, &L.U, &H.U, &L.spin, &H.spin, &L.parity, &H.parity, &L.energyRelease, L.preMomentum, H.preMomentum);
      H.energyRelease = L.energyRelease; for (int i = 0; i < 3; i++) { L.postMomentum[i] = L.preMomentum[i]; H.postMomentum[i] = H.preMomentum[i]; }
      char cx[300]; snprintf(cx, sizeof cx, "initial conditions %s Zl=%d Al=%d TKE=%.6g", ctx, Zl, Al, TKE);
      chk(ff, L, H, cx, false, c1, c2); vg_cases++;
    }
    // the event sampler restricted to a window of masses around the symmetric split (rare in a real distribution)
    {
      Yields ffy(ff->ZAIDc, ff->sf_flag); ff->constructYields(&ffy);
      int lo = ff->Amin, hi = ff->Amax, w = N(1, 6); double sv[NUMA]; memcpy(sv, ff->YA, sizeof sv); double mxs = ff->maxYieldA;
      ff->Amin = ff->Ac / 2 - w; ff->Amax = ff->Ac - ff->Amin; for (int a = ff->Amin; a <= ff->Amax; a++) ff->YA[a] = mxs;
      for (int q = 0; q < 20; q++) {
        fissionFragmentType L, H; memset(&L, 0, sizeof L); memset(&H, 0, sizeof H);
        ff->sampleFissionFragments(&L, &H, &ffy);
        char cx[300]; snprintf(cx, sizeof cx, "event sampler, masses %d..%d, %s", ff->Amin, ff->Amax, ctx);
        chk(ff, L, H, cx, true, c1, c2); vg_cases++;
      }
      ff->Amin = lo; ff->Amax = hi; memcpy(ff->YA, sv, sizeof sv); ff->maxYieldA = mxs;
    }
    // the sampler for tabulated Y(A,TKE)
    if (REACT[r][1] == 0 || k % 3 == 0) {
      ff->TKEmin = 150; ff->TKEmax = 200; ff->maxYieldATKE = 0;
      for (int a = ff->Amin; a <= ff->Amax; a++) for (int t = 150; t <= 200; t++) { ff->YATKE[a][t] = ff->YA[a] * U(0.1, 1); if (ff->YATKE[a][t] > ff->maxYieldATKE) ff->maxYieldATKE = ff->YATKE[a][t]; }
      for (int q = 0; q < 20; q++) {
        fissionFragmentType L, H; memset(&L, 0, sizeof L); memset(&H, 0, sizeof H);
        ff->sampleFissionFragments(&L, &H);
        char cx[300]; snprintf(cx, sizeof cx, "tabulated sampler %s", ctx);
        chk(ff, L, H, cx, false, c1, c2); vg_cases++;
      }
    }
  }
  return done();
}
