LEV = {'levels.py': open('/verif/replay/levels.py').read()}
DRV = 'utils/cgmf/cgmf.cpp'
PRE = r'''
#include <cstdio>
#include <cstring>
#include <string>
#include <fstream>
#include <sstream>
#include <iostream>
#include <vector>
#include <cmath>
#include <sys/wait.h>
#define private public
#define protected public
#include "cgmfEvents.h"
#undef private
#undef protected
#define main cgmf_main
#include "../utils/cgmf/cgmf.cpp"
#undef main
static std::string slurp(const char *f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static int drive(std::vector<std::string> a) {
  fflush(stdout); pid_t p = fork();
  if (!p) { freopen("/dev/null", "w", stdout); a.insert(a.begin(), "cgmf.x"); std::vector<char *> v; for (auto &s : a) v.push_back(&s[0]); v.push_back(0); optind = 1; int r = cgmf_main((int)a.size(), v.data()); _exit(r); }
  int s; waitpid(p, &s, 0); return WIFEXITED(s) ? WEXITSTATUS(s) : 99;
}
'''
SEEDS = [
dict(id='b15', property='C16', edits=[(DRV, "      rng.set_seed(i+ip*nevents+startingEvent);", "      rng.set_seed(1+(i+ip*nevents+startingEvent-1)%65536);")],
 needs='event numbers beyond 65536', what='the random number stream repeats: event 65537 is a copy of event 1', files=LEV,
 demo=PRE + r'''
int main() { int bad = 0;
  if (drive({"-i", "98252", "-e", "0", "-n", "2", "-s", "1", "-f", "a"}) || drive({"-i", "98252", "-e", "0", "-n", "2", "-s", "65537", "-f", "b"})) return 3;
  std::string a = slurp("a.0"), b = slurp("b.0"); if (a.size() < 50) return 3;
  if (a == b) { printf("events 65537 and 65538 repeat events 1 and 2\n"); bad = 1; }
  return bad; }
'''),
dict(id='b16', property='C16', edits=[(DRV, "    dirw = event->getPhotonDircosw(n1);\n    if (timeCoincidenceWindow<0) {\n      age  = event->getPhotonAge(n1);", "    dirw = event->getPhotonDircosw(n1);\n    if (timeCoincidenceWindow<0) {\n      age  = event->getPhotonAge(n1-nugl);", 2)],
 needs='an infinite time coincidence window and delayed photons of the heavy fragment', what='photons of the heavy fragment are written with the ages of the photons of the light fragment',
 demo=PRE + r'''
int main() { alignas(cgmfEvent) static char b[sizeof(cgmfEvent)]; cgmfEvent *e = (cgmfEvent *)b; int bad = 0;
  e->eventLF.nug = 2; e->eventHF.nug = 3; e->photonNu = 5; double z[5] = {0, 0, 0, 0, 0}, en[5] = {1, 2, 3, 4, 5}, t[5] = {0, 1e-9, 2e-9, 3e-9, 4e-9};
  e->photonEnergies = en; e->photonDircosu = e->photonDircosv = e->photonDircosw = z; e->photonAges = t;
  for (int w = 0; w < 2; w++) {
    FILE *f = fopen("o", "w"); printEventToFile(f, e, w ? -1. : 1e-8); fclose(f);
    std::ifstream i("o"); std::string l; std::vector<std::string> v; while (std::getline(i, l)) v.push_back(l);
    if (v.size() != 6) return 3;
    std::stringstream s(v[5]); double x; std::vector<double> n; while (s >> x) n.push_back(x);
    if (n.size() != (w ? 15u : 12u)) return 3;
    if (w) for (int k = 0; k < 3; k++) if (std::fabs(n[5 * k + 4] - t[2 + k]) > 1e-15) { printf("photon %d of the heavy fragment: age %g expected %g\n", k, n[5 * k + 4], t[2 + k]); bad = 1; }
  }
  return bad; }
'''),
]
