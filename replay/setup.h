// initialise the real library from /repo/data (and the level file in the working directory)
#ifndef VERIF_SETUP_H
#define VERIF_SETUP_H
#include "common.h"
#include <iostream>
#include <sstream>
#include <fstream>
#include <iomanip>
#include <algorithm>
#include <map>
#define private public
#define protected public
#include "cgm.h"
#include "masstable.h"
#include "physics.h"
#include "kinematics.h"
#include "config.h"
#include "config-ff.h"
#include "FissionFragments.h"
#include "cgmfEvents.h"
#include "ripl2levels.h"
#include "terminate.h"
#include "rngcgm.h"
#undef private
#undef protected
extern std::string datadir;
static double vrng() { return U(); }
static const double MnV = NEUTRONMASS * amuMeV;
static double MassV(int Z, int A) { return A * amuMeV + getMassExcess(Z * 1000 + A); }
static void lib_init(bool mem = true) {
  rng_cgm = vrng; datadir = getenv("CGMFDATA");
  alignas(cgmfEvent) static char buf[sizeof(cgmfEvent)];
  cgmfEvent *e = new (buf) cgmfEvent();      // default constructor: initialization() and cgmAllocateMemory()
  (void)e; (void)mem;
}
static const int REACT[][2] = {{92233,1},{92234,1},{92235,1},{92238,1},{93237,1},{94239,1},{94241,1},{94238,0},{94240,0},{94242,0},{94244,0},{98252,0},{98254,0}};
static const int NREACT = 13;
#endif
