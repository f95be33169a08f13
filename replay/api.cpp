// accessors (C06) and admission of reactions (C07): executable contracts on the compiled library (SYNTHLEVELS)
#include "setup.h"
#include <unistd.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <climits>
#include "cgmfEvents_capi.h"
extern cgmfEvent *cgmf_fevent;
static double nxt = 1000; static double val() { return nxt += 0.25; }
static double *arr(int n) { double *p = new double[n + 1]; for (int i = 0; i < n; i++) p[i] = val(); return p; }
static char cx[300];
static const int *IDX; static int NIDX;
static void one(const char *nm, double got, double want) { if (!(got == want)) fail("%s gives %.10g, the event has %.10g: %s", nm, got, want, cx); }
#define A2(cpp, c, nu, m) for (int k = 0; k < NIDX; k++) { int i = IDX[k]; double w = i >= 0 && i < e->nu ? e->m[i] : -1; snprintf(cx, sizeof cx, "%s=%d index %d", #nu, e->nu, i); one(#cpp, e->cpp(i), w); one(#c, c(i), w); }
#define F2(cpp, c, m) snprintf(cx, sizeof cx, "field %s", #m); one(#cpp, e->cpp(), e->m); one(#c, c(), e->m);
#define F1(cpp, m) snprintf(cx, sizeof cx, "field %s", #m); one(#cpp, e->cpp(), e->m);
static void fillfrag(fissionEventType &f, int nn, int ng) {
  f.A = N(70, 170); f.Z = N(30, 70); f.nu = nn; f.nug = ng; f.parity = N(0, 1) ? 1 : -1; f.spin = N(0, 40) / 2.; f.KE = val(); f.KEpost = val(); f.U = val();
  for (int i = 0; i < 3; i++) { f.preFragmentMomentum[i] = val(); f.postFragmentMomentum[i] = val(); }
  f.fragmentDircosu = val(); f.fragmentDircosv = val(); f.fragmentDircosw = val();
}
static void c06() {
  void *mem = calloc(1, sizeof(cgmfEvent) + 64); cgmfEvent *e = (cgmfEvent *)mem;
  nxt = floor(U(10, 1e6));
  int n1 = N(0, 10), n2 = N(0, 10), g1 = N(0, 50), g2 = N(0, 50); if (!N(0, 5)) n1 = n2 = 0; if (!N(0, 5)) g1 = g2 = 0;
  fillfrag(e->eventLF, n1, g1); fillfrag(e->eventHF, n2, g2);
  e->ZAIDt = N(90000, 99000); e->incidentEnergy = val(); e->neutronNu = n1 + n2; e->photonNu = g1 + g2; e->preFissionNeutronNu = N(0, 3);
  double **np[] = {&e->neutronEnergies, &e->neutronDircosu, &e->neutronDircosv, &e->neutronDircosw, &e->neutronAges, &e->cmNeutronEnergies, &e->cmNeutronDircosu, &e->cmNeutronDircosv, &e->cmNeutronDircosw};
  double **gp[] = {&e->photonEnergies, &e->photonDircosu, &e->photonDircosv, &e->photonDircosw, &e->photonAges};
  double **pp[] = {&e->preFissionNeutronEnergies, &e->preFissionNeutronDircosu, &e->preFissionNeutronDircosv, &e->preFissionNeutronDircosw};
  for (auto p : np) *p = e->neutronNu ? arr(e->neutronNu) : 0;
  for (auto p : gp) *p = e->photonNu ? arr(e->photonNu) : 0;
  for (auto p : pp) *p = e->preFissionNeutronNu ? arr(e->preFissionNeutronNu) : 0;
  cgmf_fevent = e;
  static int idx[140]; int k = 0; for (int i = -3; i < 104; i++) idx[k++] = i;
  idx[k++] = INT_MAX; idx[k++] = INT_MIN; idx[k++] = 1 << 20; idx[k++] = -1000000;
  IDX = idx; NIDX = k;
  A2(getNeutronEnergy, cgmf_getnerg, neutronNu, neutronEnergies) A2(getNeutronDircosu, cgmf_getndircosu, neutronNu, neutronDircosu) A2(getNeutronDircosv, cgmf_getndircosv, neutronNu, neutronDircosv)
  A2(getNeutronDircosw, cgmf_getndircosw, neutronNu, neutronDircosw) A2(getNeutronAge, cgmf_getntme, neutronNu, neutronAges)
  A2(getCmNeutronEnergy, cgmf_getcmnerg, neutronNu, cmNeutronEnergies) A2(getCmNeutronDircosu, cgmf_getcmndircosu, neutronNu, cmNeutronDircosu) A2(getCmNeutronDircosv, cgmf_getcmndircosv, neutronNu, cmNeutronDircosv)
  A2(getCmNeutronDircosw, cgmf_getcmndircosw, neutronNu, cmNeutronDircosw)
  A2(getPhotonEnergy, cgmf_getgerg, photonNu, photonEnergies) A2(getPhotonDircosu, cgmf_getgdircosu, photonNu, photonDircosu) A2(getPhotonDircosv, cgmf_getgdircosv, photonNu, photonDircosv)
  A2(getPhotonDircosw, cgmf_getgdircosw, photonNu, photonDircosw) A2(getPhotonAge, cgmf_getgtme, photonNu, photonAges)
  A2(getPreFissionNeutronEnergy, cgmf_getprenerg, preFissionNeutronNu, preFissionNeutronEnergies) A2(getPreFissionNeutronDircosu, cgmf_getprendircosu, preFissionNeutronNu, preFissionNeutronDircosu)
  A2(getPreFissionNeutronDircosv, cgmf_getprendircosv, preFissionNeutronNu, preFissionNeutronDircosv) A2(getPreFissionNeutronDircosw, cgmf_getprendircosw, preFissionNeutronNu, preFissionNeutronDircosw)
  F2(getNeutronNu, cgmf_getnnu, neutronNu) F2(getPhotonNu, cgmf_getgnu, photonNu) F2(getPreFissionNeutronNu, cgmf_getprennu, preFissionNeutronNu)
  F1(getTargetNucleus, ZAIDt) F1(getIncidentEnergy, incidentEnergy)
#define FR(L, l, ev) F2(get##L##FragmentMass, cgmf_get##l##mass, ev.A) F2(get##L##FragmentCharge, cgmf_get##l##charge, ev.Z) F2(get##L##FragmentKineticEnergy, cgmf_get##l##ke, ev.KE) F2(get##L##FragmentKineticEnergyPost, cgmf_get##l##kepost, ev.KEpost) \
  F2(get##L##FragmentExcitationEnergy, cgmf_get##l##u, ev.U) F2(get##L##FragmentSpin, cgmf_get##l##spin, ev.spin) F2(get##L##FragmentParity, cgmf_get##l##parity, ev.parity) F2(get##L##FragmentNeutronNu, cgmf_get##l##nnu, ev.nu) F2(get##L##FragmentPhotonNu, cgmf_get##l##gnu, ev.nug) \
  F2(get##L##FragmentPreMomentumX, cgmf_get##l##premomentum_x, ev.preFragmentMomentum[0]) F2(get##L##FragmentPreMomentumY, cgmf_get##l##premomentum_y, ev.preFragmentMomentum[1]) F2(get##L##FragmentPreMomentumZ, cgmf_get##l##premomentum_z, ev.preFragmentMomentum[2]) \
  F2(get##L##FragmentPostMomentumX, cgmf_get##l##postmomentum_x, ev.postFragmentMomentum[0]) F2(get##L##FragmentPostMomentumY, cgmf_get##l##postmomentum_y, ev.postFragmentMomentum[1]) F2(get##L##FragmentPostMomentumZ, cgmf_get##l##postmomentum_z, ev.postFragmentMomentum[2]) \
  F2(get##L##FragmentDircosu, cgmf_get##l##dircosu, ev.fragmentDircosu) F2(get##L##FragmentDircosv, cgmf_get##l##dircosv, ev.fragmentDircosv) F2(get##L##FragmentDircosw, cgmf_get##l##dircosw, ev.fragmentDircosw)
  FR(Light, lf, eventLF) FR(Heavy, hf, eventHF)
  cgmf_fevent = 0;
  for (auto p : np) delete[] *p; for (auto p : gp) delete[] *p; for (auto p : pp) delete[] *p;
  free(mem); vg_cases++;
}
// ------------------------------------------------------------------ C07
static bool supported(int za, double e) {
  for (auto &r : REACT) if (r[0] == za) return r[1] ? e > 0 && e <= 20 : e == 0;
  return false;
}
static double vabort() { _exit(44); }
static int child(int za, double e, int mode) {       // 0 rejected, 1 accepted, 2 crashed, 3 hangs, 5 sampled although not supported
  fflush(stdout);
  pid_t p = fork();
  if (!p) {
    int d = open("/dev/null", O_WRONLY); dup2(d, 1); dup2(d, 2); alarm(60);
    if (!supported(za, e)) rng_cgm = vabort;
    char f[40]; snprintf(f, sizeof f, "y%d", (int)getpid());
    if (mode == 0) { cgmfYields *y = new cgmfYields(za, e, 1, f); unlink(f); _exit(y ? 42 : 0); }
    else { cgmfEvent *v = new cgmfEvent(za, e, 0., -1.); _exit(v->getTargetNucleus() == za ? 42 : 43); }
  }
  int st; waitpid(p, &st, 0);
  if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGALRM ? 3 : 2;
  if (WEXITSTATUS(st) == 42) return 1;
  if (WEXITSTATUS(st) == 44) return 5;
  return WEXITSTATUS(st) ? 0 : 4;
}
static void c07(long k) {
  static const int OTHER[] = {92232, 92236, 92237, 92239, 93236, 93238, 94237, 94243, 94245, 95241, 96244, 98250, 98253, 90232, 50120, 0, 92000, 235, 100252, -92235};
  static const double EE[] = {0., 20., 20.000001, -1., 1e-11, 2.53e-8, 1e-300, 14., 25., -1e-9, 19.999999, 1., 20.5, 22., 29., 40., 100., -20., -14., -1e-300};
  int za; double e;
  long nr = NREACT * 20;
  if (k < nr) { za = REACT[k % NREACT][0]; e = EE[k / NREACT]; }
  else { za = N(0, 2) ? OTHER[N(0, 19)] : REACT[N(0, NREACT - 1)][0]; e = N(0, 1) ? EE[N(0, 19)] : U(-5, 30); }
  bool ok = supported(za, e);
  int mode = k % 3 != 0;
  snprintf(cx, sizeof cx, "ZAID=%d E=%.9g (%s)", za, e, mode ? "event" : "yields"); printf("CASE %s\n", cx);
  int r = child(za, e, mode);
  if (ok && r != 1) fail("a supported reaction is %s: %s", r == 0 ? "rejected" : r == 2 ? "ended by a crash" : "not completed", cx);
  if (!ok && r != 0) fail("an unsupported reaction is %s: %s", r == 1 ? "accepted" : r == 2 ? "ended by a crash" : r == 4 ? "reported as a success" : r == 5 ? "accepted and sampled" : "not rejected", cx);
  vg_cases++;
}
int main(int argc, char **argv) {
  std::string prop = argv[1]; vg_eng.seed(atoi(argv[2])); long count = atol(argv[3]);
  if (prop == "C06") for (long k = 0; k < count; k++) c06();
  if (prop == "C07") {
    rng_cgm = vrng; datadir = getenv("CGMFDATA");
    // independent cases, eight at a time
    std::vector<pid_t> ps; int W = 8; long n = count; int pfd[2]; pipe(pfd);
    for (int w = 0; w < W; w++) { pid_t p = fork(); if (!p) {
        close(pfd[0]); dup2(pfd[1], 1); setvbuf(stdout, 0, _IOLBF, 4096);
        for (long k = 0; k < n; k++) { if (k % W == w) { vg_eng.seed(atoi(argv[2]) * 1000003 + k); c07(k); } }
        fflush(stdout); _exit(0); } ps.push_back(p); }
    close(pfd[1]);
    FILE *f = fdopen(pfd[0], "r"); static char line[4000];
    while (fgets(line, sizeof line, f)) { if (!strncmp(line, "FAIL", 4)) { vg_fail++; fputs(line, stdout); } }
    for (pid_t p : ps) { int st; waitpid(p, &st, 0); }
    vg_cases = n;
  }
  return done();
}
