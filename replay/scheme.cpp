// level files of many shapes through the real reader and look-up (SANITIZE); executable contracts of C13
#include "setup.h"
#include <unistd.h>
static char cx[400];
struct G { int f; double p, c; };
struct L0 { double e, s, t; int par; std::vector<G> g; };
struct Nu { int Z, A; std::vector<L0> l; };
static double rt(const char *fmt, double x) { char b[64]; snprintf(b, sizeof b, fmt, x); return atof(b); }
static std::vector<Nu> make(long k) {
  std::vector<Nu> out; int nn = k % 7 == 0 ? 1 : N(2, 40); int Z = N(26, 60), A = Z * 2 + N(0, 10);
  for (int i = 0; i < nn; i++) {
    Nu u; u.Z = Z; u.A = A; int nl = N(0, 3) ? N(1, 12) : N(1, k % 11 == 0 ? 190 : 30); double e = 0;
    bool zero = N(0, 5) == 0;                                   // only spin zero: no transition is allowed
    int style = N(0, 3);
    for (int j = 0; j < nl; j++) {
      L0 l; if (j) e += N(0, 9) ? U(0.001, 0.4) : 0.; l.e = rt("%10.6f", e); l.s = zero ? 0. : N(0, style == 1 ? 1 : 9) + 0.5 * (A % 2); l.par = N(0, style == 2 ? 8 : 1) ? 1 : -1;
      l.t = N(0, 1) ? 0. : rt("%13.3e", pow(10., U(-12, 6)));
      int ng = (j == 0 || N(0, 3) == 0) ? 0 : N(1, std::min(j, N(0, 5) ? 5 : 60)); std::vector<int> t; for (int q = 0; q < j; q++) t.push_back(q); std::shuffle(t.begin(), t.end(), vg_eng);
      bool nul = N(0, 5) == 0; double sc = N(0, 2) ? 1. : U(0.01, 100.);
      for (int q = 0; q < ng; q++) { G g; g.f = t[q]; g.p = nul ? 0. : (N(0, 5) ? rt("%9.3e", sc * U(0.01, 1.)) : 0.); g.c = N(0, 1) ? 0. : rt("%10.3e", pow(10., U(-4, 3))); l.g.push_back(g); }
      u.l.push_back(l);
    }
    out.push_back(u); A += N(1, 2); if (N(0, 4) == 0) { Z++; A = std::max(A - 8, 2 * Z); }
  }
  if (N(0, 1)) std::shuffle(out.begin(), out.end(), vg_eng);
  for (size_t i = 0; i < out.size(); i++) for (size_t j = 0; j < i; j++) if (out[i].Z == out[j].Z && out[i].A == out[j].A) { out.resize(i); break; }
  return out;
}
static void put(const std::vector<Nu> &v) {
  FILE *f = fopen("discreteLevels.dat", "w"); fprintf(f, "# level file\n");
  for (auto &u : v) {
    fprintf(f, "%6s%6d%5d\n", "", 1000 * u.Z + u.A, (int)u.l.size());
    for (auto &l : u.l) { fprintf(f, "%10.6f%5.1f%3d%13.3e%3d\n", l.e, l.s, l.par, l.t, (int)l.g.size()); for (auto &g : l.g) fprintf(f, "%3d%9.3e%10.3e\n", g.f, g.p, g.c); }
  }
  fclose(f);
}
static std::vector<G> want(const Nu &u, int j) {             // the branches the level has to end up with
  const L0 &l = u.l[j]; std::vector<G> g = l.g;
  if (g.empty()) {
    if (j > 1) {
      for (int i = 0; i < j && g.size() < 60; i++) if (!(l.s == 0 && u.l[i].s == 0) && u.l[i].par != l.par && fabs(u.l[i].s - l.s) < 2) g.push_back({i, 1., 0.});
      if (g.empty()) { int b = -1; double d = 1e9; for (int i = 0; i < j; i++) { if (l.s == 0 && u.l[i].s == 0) continue; double x = floor(fabs(u.l[i].s - l.s)); if (x < d) { d = x; b = i; } } if (b >= 0) g.push_back({b, 1., 0.}); }
    }
    if (g.empty()) g.push_back({0, 1., 0.});
  }
  double s = 0; for (auto &x : g) s += x.p;
  for (auto &x : g) if (s == 0) { x.p = 1. / g.size(); x.c = 0; } else x.p /= s;
  return g;
}
static void file(long k) {
  auto v = make(k); put(v); readDiscreteLevelData();
  std::map<int, const Nu *> at; for (auto &u : v) at[1000 * u.Z + u.A] = &u;
  for (int q = 0; q < 60; q++) {
    const Nu &r = v[N(0, v.size() - 1)]; int Z = r.Z + (N(0, 5) ? 0 : N(-1, 1)), A = r.A + N(-1, 3), ne = N(0, MAX_COMPOUND - 1);
    std::vector<int> was(MAX_COMPOUND); for (int i = 0; i < MAX_COMPOUND; i++) { ncl[i].za.setZA(i <= ne ? Z : 50, i <= ne ? A - i : 120); was[i] = ncl[i].ndisc; }
    getDiscreteLevels(ncl, ne);
    for (int i = 0; i <= ne; i++) {
      auto p = at.find(1000 * Z + A - i); Nucleus &n = ncl[i]; snprintf(cx, sizeof cx, "Z=%d A=%d in file %ld", Z, A - i, k);
      if (p == at.end()) {
        bool oz = Z % 2, on = (A - i - Z) % 2; double s = oz && on ? 1. : (oz || on) ? 0.5 : 0.;
        if (n.ndisc != 1 || n.lev[0].spin != s || n.lev[0].parity != 1 || n.lev[0].energy != 0) fail("a nucleus without data has %d levels, ground state %.1f%+d at %g: %s", n.ndisc, n.lev[0].spin, n.lev[0].parity, n.lev[0].energy, cx);
        vg_cases++; continue;
      }
      const Nu &u = *p->second;
      if (n.ndisc != (int)u.l.size()) { fail("%d levels instead of %d: %s", n.ndisc, (int)u.l.size(), cx); continue; }
      for (int j = 0; j < n.ndisc; j++) {
        Level &a = n.lev[j]; const L0 &b = u.l[j]; auto g = want(u, j);
        if (a.energy != b.e || a.spin != b.s || a.parity != b.par || a.halflife != b.t) fail("level %d is %.6f %.1f %d %g instead of %.6f %.1f %d %g: %s", j, a.energy, a.spin, a.parity, a.halflife, b.e, b.s, b.par, b.t, cx);
        if (a.ngamma != (int)g.size() || (int)a.fstate.size() < a.ngamma || (int)a.branch.size() < a.ngamma || (int)a.gratio.size() < a.ngamma) { fail("level %d has %d branches (%d %d %d entries) instead of %d: %s", j, a.ngamma, (int)a.fstate.size(), (int)a.branch.size(), (int)a.gratio.size(), (int)g.size(), cx); continue; }
        double s = 0;
        for (int m = 0; m < a.ngamma; m++) {
          s += a.branch[m];
          if (a.fstate[m] != g[m].f || !close_(a.branch[m], g[m].p) || !close_(a.gratio[m], 1 / (1 + g[m].c))) fail("branch %d of level %d leads to %d with %.6g (photon %.6g) instead of %d with %.6g (%.6g): %s", m, j, a.fstate[m], a.branch[m], a.gratio[m], g[m].f, g[m].p, 1 / (1 + g[m].c), cx);
          if (j > 0 && (a.fstate[m] < 0 || a.fstate[m] >= j)) fail("branch %d of level %d leads to level %d: %s", m, j, a.fstate[m], cx);
        }
        if (!close_(s, 1., 1e-9)) fail("the branches of level %d add up to %.9g: %s", j, s, cx);
      }
      vg_cases++;
    }
    for (int i = ne + 1; i < MAX_COMPOUND; i++) if (ncl[i].ndisc != was[i]) fail("nucleus %d beyond the chain was changed: %s", i, cx);
  }
  riplDiscreteLevelsCleanup();
}
int main(int argc, char **argv) {
  vg_eng.seed(atoi(argv[2])); long count = atol(argv[3]);
  lib_init();
  riplDiscreteLevelsCleanup();
  for (long k = 0; k < count; k++) file(k);
  return done();
}
