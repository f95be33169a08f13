// histories of requests through the C interface of the real library (SYNTHLEVELS SANITIZE); executable contracts of C19
#include "setup.h"
#include <signal.h>
#include "REPO/libcgmf/src/cgmfEvents.cpp"
#include "REPO/libcgmf/src/cgmfEvents_capi.cpp"
static char cx[400];
typedef std::vector<double> V;
static V record() {          // everything the C interface says about the event
  V v; int n = cgmf_getnnu(), g = cgmf_getgnu(), p = cgmf_getprennu(); v.push_back(n); v.push_back(g); v.push_back(p);
  for (int i = 0; i < n; i++) { double x[] = {cgmf_getnerg(i), cgmf_getndircosu(i), cgmf_getndircosv(i), cgmf_getndircosw(i), cgmf_getntme(i), cgmf_getcmnerg(i), cgmf_getcmndircosu(i), cgmf_getcmndircosv(i), cgmf_getcmndircosw(i)}; v.insert(v.end(), x, x + 9); }
  for (int i = 0; i < g; i++) { double x[] = {cgmf_getgerg(i), cgmf_getgdircosu(i), cgmf_getgdircosv(i), cgmf_getgdircosw(i), cgmf_getgtme(i)}; v.insert(v.end(), x, x + 5); }
  for (int i = 0; i < p; i++) { double x[] = {cgmf_getprenerg(i), cgmf_getprendircosu(i), cgmf_getprendircosv(i), cgmf_getprendircosw(i)}; v.insert(v.end(), x, x + 4); }
  double y[] = {(double)cgmf_getlfmass(), (double)cgmf_gethfmass(), (double)cgmf_getlfcharge(), (double)cgmf_gethfcharge(), cgmf_getlfke(), cgmf_gethfke(), cgmf_getlfu(), cgmf_gethfu(), cgmf_getlfspin(), cgmf_gethfspin()};
  v.insert(v.end(), y, y + 10); return v;
}
static V direct(cgmfEvent &e) { cgmfEvent *h = cgmf_fevent; cgmf_fevent = &e; V v = record(); cgmf_fevent = h; return v; }
static void onsig(int s) { printf("FAIL the process dies with signal %d after %s\n", s, cx); fflush(stdout); _exit(0); }
extern "C" void __asan_set_death_callback(void (*)(void));
static void onasan() { printf("FAIL a memory error after %s\n", cx); fflush(stdout); }
static std::mt19937_64 keep;
int main(int ac, char **av) {
  vg_eng.seed(atoi(av[2])); long vg_count = atol(av[3]); rng_cgm = vrng; datadir = getenv("CGMFDATA"); signal(SIGSEGV, onsig); signal(SIGABRT, onsig); __asan_set_death_callback(onasan);
  const char *DP = getenv("CGMFDATA"); setdatapath(DP); setrngdptr(vrng);
  struct Op { int za; double e, tm, tw; int seed; V want; };
  for (long c = 0; c < vg_count && vg_fail < 5; c++) {
    // a history of requests, and what each of them gives on its own
    std::vector<Op> ops; std::string h;
    for (int k = N(2, 5); k > 0; k--) {
      Op o = {0, 0, 0, 0, 0, V()};
      if (N(0, 9) >= 3) { const int *r = REACT[N(0, NREACT - 1)]; o.za = r[0]; o.e = r[1] ? (N(0, 1) ? U(0.1, 5) : U(5, 20)) : 0; o.tw = N(0, 2) ? U(1e-9, 1e-6) : -1; o.tm = N(0, 1) ? 0 : U(-1e-6, 1e-6); o.seed = N(1, 1 << 30); }
      ops.push_back(o);
    }
    keep = vg_eng; snprintf(cx, sizeof cx, " (single events)");
    for (size_t k = ops.size(); k-- > 0;) if (ops[k].za) { vg_eng.seed(ops[k].seed); cgmfEvent ev(ops[k].za, ops[k].e, ops[k].tm, ops[k].tw); ops[k].want = direct(ev); }
    for (auto &o : ops) {
      if (!o.za) { h += " clean"; snprintf(cx, sizeof cx, "%s", h.c_str()); cgmf_clean(); if (cgmf_fevent != 0) fail("an event is still held after%s", cx); continue; }
      char b[90]; snprintf(b, sizeof b, " gen(%d,%.6g,%.4g,%.4g)", o.za, o.e, o.tm, o.tw); h += b; snprintf(cx, sizeof cx, "%s", h.c_str());
      vg_eng.seed(o.seed); cgmf_genfissevent(o.za, o.e, o.tm, o.tw);
      if (!cgmf_fevent) { fail("no event is held after%s", cx); break; }
      if (cgmf_fevent->getTargetNucleus() != o.za || cgmf_fevent->getIncidentEnergy() != o.e) fail("the event is for %d at %g MeV:%s", (int)cgmf_fevent->getTargetNucleus(), cgmf_fevent->getIncidentEnergy(), cx);
      V one = record();
      if (one.size() != o.want.size()) fail("the event differs from the one requested (%d neutrons and %d photons, not %d and %d):%s", (int)one[0], (int)one[1], (int)o.want[0], (int)o.want[1], cx);
      else for (size_t i = 0; i < one.size(); i++) if (!(one[i] == o.want[i])) { fail("value %d of the event is %.12g, not %.12g as requested:%s", (int)i, one[i], o.want[i], cx); break; }
      vg_cases++;
    }
    h += " clean"; snprintf(cx, sizeof cx, "%s", h.c_str()); cgmf_clean(); vg_eng = keep;
  }
  return done();
}
