// the command line driver of /repo: records, summary, options, reproducibility (SYNTHLEVELS) -- executable contracts of C16
#include "setup.h"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <sstream>
#define main cgmf_main
#include "REPO/utils/cgmf/cgmf.cpp"
#undef main
using namespace std;
static string slurp(const string &f) { ifstream i(f); stringstream s; s << i.rdbuf(); return s.str(); }
static double rv(double lo, double hi) { double x = U(lo, hi); return N(0, 9) == 0 ? 0. : floor(x * 1000 + .5) / 1000; }
static double *arr(int n, double lo, double hi) { double *p = new double[n + 1]; for (int i = 0; i <= n; i++) p[i] = rv(lo, hi); return p; }
static void fabricate(cgmfEvent *e, int nl, int nh, int gl, int gh, int np_) {
  memset((void *)e, 0, sizeof *e);
  e->ZAIDt = 1000 * N(90, 99) + N(230, 255); e->incidentEnergy = N(0, 1) ? rv(0.001, 20) : 0.;
  fissionEventType *f[2] = {&e->eventLF, &e->eventHF};
  for (int s = 0; s < 2; s++) {
    f[s]->A = N(70, 170); f[s]->Z = N(30, 70); f[s]->U = rv(0, 40); f[s]->spin = N(0, 60) / 2.; f[s]->parity = N(0, 1) ? 1 : -1; f[s]->KE = rv(30, 120); f[s]->KEpost = rv(30, 120);
    for (int i = 0; i < 3; i++) { f[s]->preFragmentMomentum[i] = rv(-5000, 5000); f[s]->postFragmentMomentum[i] = rv(-5000, 5000); }
  }
  f[0]->nu = nl; f[1]->nu = nh; f[0]->nug = gl; f[1]->nug = gh; e->neutronNu = nl + nh; e->photonNu = gl + gh; e->preFissionNeutronNu = np_;
  int n = nl + nh, g = gl + gh;
  e->neutronEnergies = arr(n, 0, 10); e->neutronDircosu = arr(n, -1, 1); e->neutronDircosv = arr(n, -1, 1); e->neutronDircosw = arr(n, -1, 1); e->neutronAges = arr(n, 0, 1);
  e->cmNeutronEnergies = arr(n, 0, 10); e->cmNeutronDircosu = arr(n, -1, 1); e->cmNeutronDircosv = arr(n, -1, 1); e->cmNeutronDircosw = arr(n, -1, 1);
  e->photonEnergies = arr(g, 0, 8); e->photonDircosu = arr(g, -1, 1); e->photonDircosv = arr(g, -1, 1); e->photonDircosw = arr(g, -1, 1); e->photonAges = arr(g, 0, 1);
  for (int i = 0; i < g; i++) e->photonAges[i] = N(0, 2) ? U() * pow(10, -N(3, 12)) : 0;
  e->preFissionNeutronEnergies = arr(np_, 0, 10); e->preFissionNeutronDircosu = arr(np_, -1, 1); e->preFissionNeutronDircosv = arr(np_, -1, 1); e->preFissionNeutronDircosw = arr(np_, -1, 1);
}
static string fm(const char *f, double x) { char b[80]; snprintf(b, 80, f, x); return b; }
static string in_(int x) { return to_string(x); }
static string particles(int a, int n, const double *u, const double *v, const double *w, const double *e, const double *t) {
  string o; for (int i = a; i < a + n; i++) { o += fm("%.3f ", u[i]) + fm("%.3f ", v[i]) + fm("%.3f ", w[i]) + fm("%.3f ", e[i]); if (t) o += fm("%g ", t[i]); }
  return n > 0 ? o + "\n" : o;
}
static string record(cgmfEvent *e, bool delayed) {
  string o; int off = 0, goff = 0;
  for (int s = 0; s < 2; s++) {
    fissionEventType &f = s ? e->eventHF : e->eventLF;
    o += in_(f.A) + " " + in_(f.Z) + fm(" %.3f", f.U) + fm(" %.1f ", f.spin) + in_(f.parity) + fm(" %.3f", f.KE) + fm(" %.3f ", f.KEpost) + in_(f.nu) + " " + in_(f.nug) + " " + in_(s ? e->preFissionNeutronNu : 0) + "\n";
    for (int i = 0; i < 3; i++) o += fm("%.3f ", f.preFragmentMomentum[i]);
    for (int i = 0; i < 3; i++) o += fm("%.3f ", f.postFragmentMomentum[i]);
    o += "\n" + particles(off, f.nu, e->cmNeutronDircosu, e->cmNeutronDircosv, e->cmNeutronDircosw, e->cmNeutronEnergies, 0) + particles(off, f.nu, e->neutronDircosu, e->neutronDircosv, e->neutronDircosw, e->neutronEnergies, 0);
    o += particles(goff, f.nug, e->photonDircosu, e->photonDircosv, e->photonDircosw, e->photonEnergies, delayed ? e->photonAges : 0);
    off += f.nu; goff += f.nug;
  }
  return o + particles(0, e->preFissionNeutronNu, e->preFissionNeutronDircosu, e->preFissionNeutronDircosv, e->preFissionNeutronDircosw, e->preFissionNeutronEnergies, 0);
}
static string norm(const string &s) {      // blanks at line ends and repeated blanks do not matter
  stringstream i(s); string l, o; while (getline(i, l)) { stringstream t(l); string w, r; while (t >> w) r += (r.empty() ? "" : " ") + w; o += r + "\n"; } return o;
}
static void numbers(const string &s, vector<double> &v) {
  const char *p = s.c_str();
  while (*p) {
    if ((isdigit(*p) || ((*p == '-' || *p == '+' || *p == '.') && isdigit(p[1]))) && (p == s.c_str() || !isalpha(p[-1]))) { char *q; v.push_back(strtod(p, &q)); p = q; } else p++;
  }
}
struct Acc { long n = 0; double A[2] = {}, Z[2] = {}, KE[2] = {}, U[2] = {}, J[2] = {}, nu[3] = {}, ecm[3] = {}, elab[3] = {}, ng[2] = {}, eg[2] = {}; };
static void records(int count) {
  alignas(cgmfEvent) static char buf[sizeof(cgmfEvent)]; cgmfEvent *e = (cgmfEvent *)buf;
  Acc a; const char *fn = "rec.tmp";
  for (int it = 0; it < count * 20; it++) {
    vg_cases++;
    int nl = N(0, 4), nh = N(0, 4), gl = N(0, 6), gh = N(0, 6), np_ = N(0, 3);
    if (it % 7 == 0) { nl = N(0, 10); nh = N(0, 10); gl = N(0, 50); gh = N(0, 50); }
    fabricate(e, nl, nh, gl, gh, np_);
    double w = it % 3 == 0 ? -1. : it % 3 == 1 ? 0. : 1e-8;
    FILE *fp = fopen(fn, "w"); printEventToFile(fp, e, w); fclose(fp);
    string got = norm(slurp(fn)), want = norm(record(e, w < 0));
    if (got != want) {
      size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
      size_t b = i > 40 ? i - 40 : 0;
      fail("history record (nu %d %d nug %d %d pre %d window %g): printed '...%s', expected '...%s'", nl, nh, gl, gh, np_, w, got.substr(b, 80).c_str(), want.substr(b, 80).c_str());
    }
    string before((char *)e, sizeof *e); recordEvent(e);
    if (memcmp(before.data(), e, sizeof *e)) fail("recording changes the event");
    a.n++;
    for (int s = 0; s < 2; s++) {
      fissionEventType &f = s ? e->eventHF : e->eventLF;
      a.A[s] += f.A; a.Z[s] += f.Z; a.KE[s] += f.KE; a.U[s] += f.U; a.J[s] += f.spin; a.nu[s] += f.nu; a.ng[s] += f.nug;
      for (int i = 0; i < f.nu; i++) { a.ecm[s] += e->cmNeutronEnergies[i + (s ? nl : 0)]; a.elab[s] += e->neutronEnergies[i + (s ? nl : 0)]; }
      for (int i = 0; i < f.nug; i++) a.eg[s] += e->photonEnergies[i + (s ? gl : 0)];
    }
    a.nu[2] += np_; for (int i = 0; i < np_; i++) { a.ecm[2] += e->preFissionNeutronEnergies[i]; a.elab[2] += e->preFissionNeutronEnergies[i]; }
    if (it % 50 == 0 || it < 3) {
      nevents = (int)a.n; incidentEnergy = e->incidentEnergy;
      fflush(stdout); int sv = dup(1); int fd = open("sum.tmp", O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 1); close(fd);
      printSummaryEvents(e); fflush(stdout); dup2(sv, 1); close(sv);
      vector<double> v, x; numbers(slurp("sum.tmp"), v);
      double n = a.n; x.push_back(e->ZAIDt / 1000); x.push_back(e->ZAIDt % 1000); if (incidentEnergy != 0) x.push_back(e->incidentEnergy);
      auto P = [&](double y, double d) { x.push_back(y / fmax(d, 1)); };
      P(a.Z[0], n); P(a.A[0], n); P(a.Z[1], n); P(a.A[1], n);
      P(a.KE[0], n); P(a.KE[1], n); P(a.KE[0] + a.KE[1], n); P(a.U[0], n); P(a.U[1], n); P(a.U[0] + a.U[1], n); P(a.J[0], n); P(a.J[1], n); P((a.J[0] + a.J[1]) / 2, n);
      for (int s = 0; s < 3; s++) P(a.nu[s], n); double nt = a.nu[0] + a.nu[1] + a.nu[2]; P(nt, n);
      for (int s = 0; s < 3; s++) P(a.ecm[s], a.nu[s]); P(a.ecm[0] + a.ecm[1] + a.ecm[2], nt);
      for (int s = 0; s < 3; s++) P(a.elab[s], a.nu[s]); P(a.elab[0] + a.elab[1] + a.elab[2], nt);
      P(a.ng[0], n); P(a.ng[1], n); P(a.ng[0] + a.ng[1], n); P(a.eg[0], a.ng[0]); P(a.eg[1], a.ng[1]); P(a.eg[0] + a.eg[1], a.ng[0] + a.ng[1]);
      if (v.size() != x.size()) fail("the summary has %zu numbers, expected %zu", v.size(), x.size());
      else for (size_t i = 0; i < v.size(); i++) { double tol = i == 2 && incidentEnergy != 0 ? 0.006 * fabs(x[i]) : 0.0051 + 1e-9 * fabs(x[i]); if (fabs(v[i] - x[i]) > tol) fail("number %zu of the summary after %ld events is %.6g, expected %.6g", i, a.n, v[i], x[i]); }
    }
  }
}
// a run of the real driver in a child process with its own working directory
static int run_driver(vector<string> args, const string &dir, string *out, int limit = 120) {
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    mkdir(dir.c_str(), 0700); string lv = "../discreteLevels.dat"; if (chdir(dir.c_str())) _exit(90);
    (void)!symlink(lv.c_str(), "discreteLevels.dat");
    alarm(limit);
    int fd = open("out.txt", O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 1); dup2(fd, 2); close(fd);
    vector<char *> av; args.insert(args.begin(), "cgmf.x"); for (auto &s : args) av.push_back(&s[0]); av.push_back(0);
    optind = 1;
    int r = cgmf_main((int)args.size(), av.data()); fflush(stdout); fflush(stderr); _exit(r);
  }
  int st; waitpid(p, &st, 0);
  if (out) *out = slurp(dir + "/out.txt");
  return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
static void options(int count) {
  for (int it = 0; it < count; it++) {
    vg_cases++;
    double e = rv(0.01, 20), t = it % 4 == 0 ? -1 : it % 4 == 1 ? U(-3, -0.0001) : it % 4 == 2 ? 0. : U() * 1e-6; int n = N(-50, 50), z = N(90000, 99000), s = N(-5, 1000); bool f = N(0, 1);
    if (t == -1) {} vector<string> o = {"-e", fm("%.10g", e), "-n", in_(n), "-i", in_(z), "-s", in_(s), "-t", fm("%.17g", t)}; if (f) { o.push_back("-f"); o.push_back("res"); }
    vector<pair<string, string>> pr; for (size_t i = 0; i < o.size(); i += 2) pr.push_back({o[i], o[i + 1]});
    for (size_t i = pr.size(); i > 1; i--) swap(pr[i - 1], pr[N(0, (int)i - 1)]);
    int ip = N(0, 3); bool drop = N(0, 3) == 0; string dropped; if (drop) { dropped = pr.back().first; pr.pop_back(); }
    vector<string> a = {"cgmf.x"}; for (auto &x : pr) { a.push_back(x.first); a.push_back(x.second); }
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      int fd = open("/dev/null", O_WRONLY); dup2(fd, 2);
      vector<char *> av; for (auto &x : a) av.push_back(&x[0]); av.push_back(0); optind = 1;
      incidentEnergy = -1; ZAIDt = 0; nevents = 0; startingEvent = 1; outfilename = ""; timeCoincidenceWindow = 1e-8;
      readUserInput((int)a.size(), av.data(), ip);
      auto W = [&](const char *k, double given, double def) { return dropped == k ? def : given; };
      int bad = 0;
      if (!close_(incidentEnergy, W("-e", e, -1), 1e-9)) bad = 41;
      if (nevents != W("-n", n, 0)) bad = 42;
      if (ZAIDt != W("-i", z, 0)) bad = 43;
      if (startingEvent != W("-s", s, 1)) bad = 44;
      if (timeCoincidenceWindow != W("-t", t, 1e-8)) bad = 45;
      string want = (f && dropped != "-f" ? string("res") : string(nevents > 0 ? "histories.cgmf" : "yields.cgmf")) + "." + in_(ip);
      if (outfilename != want) bad = 46;
      _exit(bad);
    }
    int st; waitpid(p, &st, 0); int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 999;
    double tt = dropped == "-t" ? 1e-8 : t; bool valid = tt == -1 || tt >= 0; string cmd; for (auto &x : a) cmd += x + " ";
    if (rc >= 41 && rc <= 46) fail("option %d is not set as given: %s", rc - 40, cmd.c_str());
    else if (valid && rc != 0) fail("valid options are refused (%d): %s", rc, cmd.c_str());
    else if (!valid && rc == 0) fail("an invalid time window is accepted: %s", cmd.c_str());
  }
}
static vector<string> split_events(const string &f, string &head) {
  stringstream i(f); string l; vector<string> out; getline(i, head); 
  auto nums = [](const string &l) { stringstream s(l); vector<double> v; double x; while (s >> x) v.push_back(x); return v; };
  while (getline(i, l)) {
    string ev; int npre = 0;
    for (int s = 0; s < 2; s++) {
      if (s) { if (!getline(i, l)) return out; }
      auto v = nums(l); if (v.size() != 10) { out.push_back("?" + l); return out; }
      int nu = (int)v[7], ng = (int)v[8]; npre = (int)v[9]; ev += l + "\n";
      int more = 1 + (nu > 0 ? 2 : 0) + (ng > 0 ? 1 : 0);
      while (more-- && getline(i, l)) ev += l + "\n";
    }
    if (npre > 0 && getline(i, l)) ev += l + "\n";
    out.push_back(ev);
  }
  return out;
}
static void runs(int seed) {
  const char *zs[] = {"98252", "92235", "94240", "92238"}; const char *es[] = {"0", "2.53e-8", "0", "14.0"};
  int R = (int)((unsigned)seed % 4);
  for (int t = 0; t < 2; t++) {
    int r = (R + t) % 4; string z = zs[r], e = es[r], tw = t ? "-1" : "1e-8"; string d = "run" + in_(t);
    auto go = [&](int n, int s, const char *sub, string &file) { string o; int rc = run_driver({"-i", z, "-e", e, "-n", in_(n), "-s", in_(s), "-t", tw, "-f", "h"}, d + sub, &o); file = slurp(d + sub + "/h.0"); if (rc) fail("the driver ended with %d: -i %s -e %s -n %d -s %d", rc, z.c_str(), e.c_str(), n, s); return o; };
    string a, b, c, g; vg_cases++;
    string so = go(7, 1, "a", a); go(3, 4, "b", b); string so2 = go(7, 1, "c", c); go(1, 6, "e", g);
    if (a != c || so != so2) fail("two identical runs differ: -i %s -e %s -n 7 -t %s", z.c_str(), e.c_str(), tw.c_str());
    string h, h2, h3; auto va = split_events(a, h), vb = split_events(b, h2), vg = split_events(g, h3);
    stringstream hs(h); string hash; double hz, he, ht; hs >> hash >> hz >> he >> ht;
    if (hash != "#" || hz != atof(z.c_str()) || !close_(he, atof(e.c_str()), 1e-5, 1e-30) || !close_(ht, atof(tw.c_str()), 1e-5, 1e-30)) fail("header of the history file is '%s' for -i %s -e %s -t %s", h.c_str(), z.c_str(), e.c_str(), tw.c_str());
    if (va.size() != 7 || vb.size() != 3 || vg.size() != 1) { fail("%zu, %zu and %zu events written for -n 7, 3 and 1: -i %s -e %s", va.size(), vb.size(), vg.size(), z.c_str(), e.c_str()); continue; }
    for (int k = 0; k < 3; k++) if (va[3 + k] != vb[k]) fail("event %d of a run differs when generated in a run starting at 4: -i %s -e %s -t %s", 4 + k, z.c_str(), e.c_str(), tw.c_str());
    if (va[5] != vg[0]) fail("event 6 of a run differs when generated alone: -i %s -e %s -t %s", z.c_str(), e.c_str(), tw.c_str());
    for (int k = 1; k < 7; k++) if (va[k] == va[0]) fail("events %d and 1 are identical: -i %s -e %s", k + 1, z.c_str(), e.c_str());
    if (!t) { static const int far_[] = {257, 1025, 10001, 32769, 65537, 100001, 1000001, 1048577, 16777217}; string q0, o; vector<string> all; string hh;   // no repetition of the random numbers
      for (int f = 0; f < 9; f++) { go(1, far_[f], ("f" + in_(f)).c_str(), q0); auto v = split_events(q0, hh); if (v.size() == 1) for (int k = 0; k < 7; k++) if (v[0] == va[k]) fail("event %d repeats event %d: -i %s -e %s", far_[f], k + 1, z.c_str(), e.c_str()); } }
    // yields mode
    string y1, y2, y3, o; auto yy = [&](int n, int s, const char *sub, string &file) { int rc = run_driver({"-i", z, "-e", e, "-n", in_(-n), "-s", in_(s), "-f", "y"}, d + sub, &o); file = slurp(d + sub + "/y.0"); if (rc) fail("the driver ended with %d: -i %s -e %s -n -%d -s %d", rc, z.c_str(), e.c_str(), n, s); };
    yy(20, 5, "p", y1); yy(20, 5, "q", y2); yy(20, 6, "r", y3); vg_cases++;
    if (y1 != y2) fail("two identical yields runs differ: -i %s -e %s", z.c_str(), e.c_str());
    if (y1 == y3) fail("yields runs with different -s are identical: -i %s -e %s", z.c_str(), e.c_str());
    // the file lists the sampled fragment pairs, in order
    fflush(stdout); pid_t pc = fork();
    if (pc == 0) {
      (void)!chdir((d + "p").c_str()); int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2);
      setdatapath(string(getenv("CGMFDATA"))); alignas(cgmfEvent) static char eb[sizeof(cgmfEvent)]; new (eb) cgmfEvent();
      UniformRNG g(1); g.set_seed(5); set_rng(g);
      fissionFragmentType *lf = new fissionFragmentType[20], *hf = new fissionFragmentType[20]; FissionFragments *ff = new FissionFragments(atoi(z.c_str()), atof(e.c_str()), 0.);
      ff->generateInitialFissionFragmentHistories(lf, hf, 20);
      ofstream w("want.txt"); for (int i = 0; i < 20; i++) for (int s = 0; s < 2; s++) { fissionFragmentType &f = s ? hf[i] : lf[i]; w << f.Z << " " << f.A << " " << f.KE << " " << f.U << " " << f.spin << " " << f.parity << " " << f.preMomentum[0] << " " << f.preMomentum[1] << " " << f.preMomentum[2] << "\n"; }
      w.close(); _exit(0);
    }
    int pst; waitpid(pc, &pst, 0); string wy = slurp(d + "p/want.txt");
    if (!WIFEXITED(pst) || WEXITSTATUS(pst)) fail("sampling the fragment pairs fails: -i %s -e %s", z.c_str(), e.c_str());
    else if (norm(wy) != norm(y1)) fail("the yields file does not list the sampled fragment pairs: -i %s -e %s -n -20 -s 5", z.c_str(), e.c_str());
    long lines = count(y1.begin(), y1.end(), '\n'); if (lines != 40) fail("%ld lines of yields for 20 events: -i %s -e %s", lines, z.c_str(), e.c_str());
  }
}
int main(int argc, char **argv) {
  int seed = atoi(argv[2]), n = atoi(argv[3]); vg_eng.seed(seed);
  setenv("CGMFDATA", getenv("CGMFDATA"), 1);
  records(n); options(n); runs(seed);
  return done();
}
