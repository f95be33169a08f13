From 377a70dcbbf9df5f5d70601dad8ed1ef2676fb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:48 +0000
Subject: [PATCH 01/13] fix: no pre-fission neutron when the daughter lies
 below its barrier

getPrefissionNeutronEnergy returned early without a neutron energy but left the
sampled number of pre-fission neutrons, so the fissioning nucleus lost a neutron
while keeping the full excitation energy of the compound nucleus.
---
 libcgmf/src/FissionFragments.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index c4a249f..f9adafb 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -5364,8 +5364,11 @@ void FissionFragments::getPrefissionNeutronEnergy(double *excitEnergy){
     // Determine the maximum pre-fission neutron energy (in c.o.m. frame)
     double eps_max = ncl[n].excitation[0] - barrier[n];
     // Can't sample negative energies -- i.e. we're below the barrier of the 2nd-chance daughter
-    if (eps_max < 0.) preeq_flag = false;
-    if (eps_max < 0.) return;
+    if (eps_max < 0.) {
+	preeq_flag = false;
+	n_pfn = 0; // no neutron is emitted: the compound nucleus keeps its excitation energy
+	return;
+    }
 
     int kfmax = (int) ceil(eps_max/ENERGY_BIN);
 
-- 
2.43.0


From aaee2a64d6bc5803d2b412b114a89ec11fd8d59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:55 +0000
Subject: [PATCH 02/13] fix: energies above the level-density grid read outside
 the tables

findEnergyIndex returned -1 for energies at or above the last grid point and
getLDP/getTemperature then read the element before the row.
---
 libcgmf/src/FissionFragments.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index f9adafb..a52aafc 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -5061,7 +5061,7 @@ double FissionFragments::spinParameter2(double U, int A, int Z) {
  ******************************************************************************/
 template <int N> int findEnergyIndex(double x0, double (&xarray)[N]) {
 
-    int k0 = -1;
+    int k0 = N-2; // beyond the last point: use the last interval
     int numberElements = N;
     for (int k=1; k<numberElements; k++) {
 	if (xarray[k]>x0) {
-- 
2.43.0


From 9290fedb3a5c9e3ab5f22bb9a696c0c2b90293bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:38 +0000
Subject: [PATCH 03/13] fix: set the fragment direction cosines of an event

get{Light,Heavy}FragmentDircos{u,v,w} and cgmf_get{lf,hf}dircos{u,v,w} always
returned 0 because the members were never assigned; they now hold the direction
of the initial fragment momentum.
---
 libcgmf/src/cgmfEvents.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index 8dfff50..02dd2d1 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -416,6 +416,13 @@ cgmfEvent::cgmfEvent  (int isotope, double eng, double time, double timew) : cgm
   eventLF.KE = lf[0].KE;
   for (int i=0; i<3; i++) eventLF.preFragmentMomentum[i] = lf[0].preMomentum[i];
 
+  norm = sqrt(lf[0].preMomentum[0]*lf[0].preMomentum[0] + lf[0].preMomentum[1]*lf[0].preMomentum[1] + lf[0].preMomentum[2]*lf[0].preMomentum[2]);
+  if (norm > 0.0) {
+    eventLF.fragmentDircosu = lf[0].preMomentum[0]/norm;
+    eventLF.fragmentDircosv = lf[0].preMomentum[1]/norm;
+    eventLF.fragmentDircosw = lf[0].preMomentum[2]/norm;
+  }
+
   specMCMainFission (&eventLF);
 
   //-- heavy fragment calc. --------------------------------------------------
@@ -428,6 +435,13 @@ cgmfEvent::cgmfEvent  (int isotope, double eng, double time, double timew) : cgm
   eventHF.KE = hf[0].KE;
   for (int i=0; i<3; i++) eventHF.preFragmentMomentum[i] = hf[0].preMomentum[i];
 
+  norm = sqrt(hf[0].preMomentum[0]*hf[0].preMomentum[0] + hf[0].preMomentum[1]*hf[0].preMomentum[1] + hf[0].preMomentum[2]*hf[0].preMomentum[2]);
+  if (norm > 0.0) {
+    eventHF.fragmentDircosu = hf[0].preMomentum[0]/norm;
+    eventHF.fragmentDircosv = hf[0].preMomentum[1]/norm;
+    eventHF.fragmentDircosw = hf[0].preMomentum[2]/norm;
+  }
+
   specMCMainFission (&eventHF);
 
   neutronNu = eventLF.nu + eventHF.nu;
-- 
2.43.0


From 4b6395c2175fc0aee4854f97169990d61056d910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:38 +0000
Subject: [PATCH 04/13] fix: cgmf_clean forgets the event it deletes

A later cgmf_genfissevent or cgmf_clean deleted the same event again.
---
 libcgmf/src/cgmfEvents_capi.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libcgmf/src/cgmfEvents_capi.cpp b/libcgmf/src/cgmfEvents_capi.cpp
index e9de84f..09ded3c 100644
--- a/libcgmf/src/cgmfEvents_capi.cpp
+++ b/libcgmf/src/cgmfEvents_capi.cpp
@@ -164,6 +164,7 @@ double cgmf_getgtme(int i) {
 */
 void cgmf_clean() {
   if (cgmf_fevent != 0) delete cgmf_fevent;
+  cgmf_fevent = 0;
 //  riplDiscreteLevelsCleanup();
 }
 
-- 
2.43.0


From d07c5eee1ee3d7ee9f382193bf04a02d74118225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:38 +0000
Subject: [PATCH 05/13] fix: long cascades no longer overrun the particle
 buffers

gammaTimeStamp was indexed by the cascade step (up to MAX_CASCADE) but sized for
MAX_NUMBER_GAMMAS, and the neutron/photon buffers were filled before their
multiplicity limits were checked.
---
 libcgmf/src/specmc.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/libcgmf/src/specmc.cpp b/libcgmf/src/specmc.cpp
index d62b498..1c86ba6 100644
--- a/libcgmf/src/specmc.cpp
+++ b/libcgmf/src/specmc.cpp
@@ -67,7 +67,7 @@ void set_time_coincidence_window(double timew){
   time_coincidence_window=timew;
 }
 
-double gammaTimeStamp [ MAX_NUMBER_GAMMAS ];
+double gammaTimeStamp [ MAX_CASCADE ];
 
 /*!
  *
@@ -909,7 +909,7 @@ void recordEmittedParticlesFission (fissionEventType *fe) {
 	double cmGammaEnergies    [MAX_NUMBER_GAMMAS];
 	double gammaEnergies      [MAX_NUMBER_GAMMAS];
 	double timeStamp          [MAX_NUMBER_GAMMAS];
-	double icEnergies		      [MAX_NUMBER_PARTICLES];
+	double icEnergies		      [MAX_CASCADE];
 	
 	int neutronMultiplicity=0;
 	int gammaMultiplicity=0;
@@ -933,8 +933,10 @@ void recordEmittedParticlesFission (fissionEventType *fe) {
     mc_curr = hs[i].getMCPoint();
     mc_next = hs[i+1].getMCPoint();
     if (index==1) { // neutrons
+      if (neutronMultiplicity>=MAX_NUMBER_NEUTRONS) cgmTerminateCode ("[specmc] Too large neutron multiplicity!");
       cmNeutronEnergies[neutronMultiplicity++] = hs[i].getEnergy();
     } else if (index==0) { // gammas (no IC)
+      if (gammaMultiplicity>=MAX_NUMBER_GAMMAS) cgmTerminateCode ("[specmc] Too large gamma multiplicity");
       if (mc_curr.ifDiscrete()) {
 	timeStamp[gammaMultiplicity] = gammaTimeStamp[i]; // discrete-to-discrete
       }
@@ -947,9 +949,6 @@ void recordEmittedParticlesFission (fissionEventType *fe) {
 	fe->nu  = neutronMultiplicity;
 	fe->nug = gammaMultiplicity;
 	
-	if (neutronMultiplicity>MAX_NUMBER_NEUTRONS) cgmTerminateCode ("[specmc] Too large neutron multiplicity!");
-	if (gammaMultiplicity>MAX_NUMBER_GAMMAS) cgmTerminateCode ("[specmc] Too large gamma multiplicity");
-	
 	double Vn[MAX_NUMBER_NEUTRONS][3];
 	double Vg[MAX_NUMBER_GAMMAS][3];
 	double cmVn[MAX_NUMBER_NEUTRONS][3];
-- 
2.43.0


From 886e9b3c07b875551278863e023cdd324f2e5dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:59 +0000
Subject: [PATCH 06/13] fix: check the reaction in cgmfYields as in cgmfEvent

cgmf.x -i 92235 -e 0 -n -3 crashed instead of rejecting the unsupported reaction.
---
 libcgmf/include/cgmfEvents.h | 2 +-
 libcgmf/src/cgmfEvents.cpp   | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/libcgmf/include/cgmfEvents.h b/libcgmf/include/cgmfEvents.h
index 2138d13..1cf73f9 100644
--- a/libcgmf/include/cgmfEvents.h
+++ b/libcgmf/include/cgmfEvents.h
@@ -234,11 +234,11 @@ protected:
 	double* preFissionNeutronAges;
 
 	void allocateMemory();
+	void checkInput (int, double);
 
 private:
 	
 	void initialization ();
-	void checkInput (int, double);
 
 };
 
diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index 02dd2d1..913bd99 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -545,7 +545,9 @@ cgmfEvent::~cgmfEvent () {
  Initial conditions in (Z,A,KE,U,J,pi).
  *****************************************************************/
 cgmfYields::cgmfYields (int isotope, double eng, int nevents, string outfilename) : cgmfEvent() {
-	
+
+  checkInput (isotope, eng);
+
 	fissionFragmentType *lf, *hf;
 	FissionFragments *ff;
 	
-- 
2.43.0


From 5761f710713fe1e7cae4264463ab20f566b3fe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:59 +0000
Subject: [PATCH 07/13] fix: no summary when no event was requested

Without -n (or with -n 0) the driver dereferenced a null event.
---
 utils/cgmf/cgmf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/cgmf/cgmf.cpp b/utils/cgmf/cgmf.cpp
index ff9b764..95816f2 100644
--- a/utils/cgmf/cgmf.cpp
+++ b/utils/cgmf/cgmf.cpp
@@ -97,7 +97,7 @@ int main(int argc, char *argv[]) {
       printEventToFile (fp, event, timeCoincidenceWindow);
     }
     fclose(fp);
-    printSummaryEvents (event);
+    if (event != 0) printSummaryEvents (event);
   }
 
   cgmf_cleanup();
-- 
2.43.0


From 462ac15823df8908b638c06e10f05f2bf69a42a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:59 +0000
Subject: [PATCH 08/13] fix: events without particles have zero multiplicities

The default constructors left the multiplicities undefined: the accessors of a cgmfYields or
default cgmfEvent object read, and the destructor freed, undefined pointers.
---
 libcgmf/src/cgmfEvents.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index 913bd99..2bb1874 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -118,6 +118,8 @@ ostringstream oserr;
                 cgmEvent: base class constructor, destructor & methods 
  ************************************************************************************/
 cgmEvent::cgmEvent () {
+  neutronNu = 0;
+  photonNu  = 0;
   return;
 }
 
@@ -358,6 +360,7 @@ int cgmEvent::cgmCheckRange(int z, int a, double e)
 
 
 cgmfEvent::cgmfEvent () {
+  preFissionNeutronNu = 0;
   initialization();
   cgmAllocateMemory();
   return;
-- 
2.43.0


From 282b4e6de4f444d36f83a9ac86c140714ce3a5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:02 +0000
Subject: [PATCH 09/13] fix: apply the time coincidence window passed to every
 event, not only to the first one

---
 libcgmf/src/cgmfEvents.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index 2bb1874..e9e8a63 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -391,8 +391,8 @@ cgmfEvent::cgmfEvent  (int isotope, double eng, double time, double timew) : cgm
   if(firstcalc) {
     initialization();
     firstcalc = false;
-    if(timew>0.0)set_time_coincidence_window(timew);
   }
+  set_time_coincidence_window(timew);
  	cgmAllocateMemory();
 //	allocateMemory();
 
-- 
2.43.0


From e43faaeb9de74ee2e76f272451fb87ffac63d6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:43 +0000
Subject: [PATCH 10/13] fix: stop the search for a nucleus at the last entry of
 the level table

getDiscreteLevels read zaidIndex[MAX_NUCLEI], one element past the end of the
table, for every nucleus that is not in the level file.
---
 libcgmf/src/ripl2levels.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcgmf/src/ripl2levels.cpp b/libcgmf/src/ripl2levels.cpp
index d8c8b95..8e2510f 100644
--- a/libcgmf/src/ripl2levels.cpp
+++ b/libcgmf/src/ripl2levels.cpp
@@ -224,7 +224,7 @@ void getDiscreteLevels (Nucleus *ncl, int nemit) {
 		zaid = 1000*ncl[k].za.getZ()+ncl[k].za.getA();
 		found=false;
 		id=-1;
-		while (!found && id<MAX_NUCLEI) {
+		while (!found && id<MAX_NUCLEI-1) {
 			id++;
 			if (zaidIndex[id]==zaid) found=true;
 		}
-- 
2.43.0


From 744b5a2d526f65c292b94bf23afedf8f93759109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:02 +0000
Subject: [PATCH 11/13] fix: a failed match of constant temperature and Fermi
 gas no longer gives an infinite temperature

ldTGconnect bisects the matching energy down to its lower limit 9/(4a) when
the two densities cannot be matched and the pairing energy is zero (odd-odd
nuclei).  There sqrt(a/U)-3/(2U) vanishes, 1/0 is +inf, the test t<0 misses it,
and the nucleus ends with T=inf and E0=-inf as if it had been matched.  Test
the difference before it is inverted, so that these nuclei use the systematics
like all others that cannot be matched.
---
 libcgmf/src/levden.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libcgmf/src/levden.cpp b/libcgmf/src/levden.cpp
index 0a5380c..a26f5ba 100644
--- a/libcgmf/src/levden.cpp
+++ b/libcgmf/src/levden.cpp
@@ -141,15 +141,16 @@ void ldTGconnect(double mass, double lve, double lvn, LevelDensity *ldp)
 
     /*** if Ux is lower than max discrete level energy, a-val is constant */
     a   = ldShellCorrection(max(lvu,ux),ldp->a,ldp->shell_correct,mass);
-    t   = 1.0/(sqrt(a/ux)-3.0/(2.0*ux)); 
+    t   = sqrt(a/ux)-3.0/(2.0*ux);
 
     /*** cannot connect const. temp and Fermi gas */
-    if( (t<0.0) || ((i++)>100) ){
+    if( (t<=0.0) || ((i++)>100) ){
       t   = 0.0;
       e01 = 0.0;
       ex  = 0.0;
       break;
     }
+    t   = 1.0/t;
     e01 = t*log( (exp(lve/t)-1.0) / lvn);
     e02 = ex-t*log(t*ldFermiGas(ux,a,ldSpinCutoff(ux,a,mass,ldp->sigma0)));
 
-- 
2.43.0


From 9eee3ff587680e5bd4cdb087e4dc8d10ac37654a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:04 +0000
Subject: [PATCH 12/13] fix: find the anisotropy at every tabulated beam energy

The beam energy rounded in single precision was compared with the energy grid
in double precision, so that only multiples of 0.5 MeV were ever found: at all
other energies the fragments were emitted isotropically.
---
 libcgmf/src/FissionFragments.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index a52aafc..66f6209 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -4788,7 +4788,7 @@ void FissionFragments::computeFragmentAngularDistribution (void) {
       for (int i=0;i<MAX_ZAIDc;i++){
          if (anisotropy[i+1][0]==ZAIDc-1){
             for (int j=1;j<=NUM_EGRID;j++){
-               if (roundf(incidentEnergy0*10)/10 == anisotropy[0][j]) {
+               if (roundf(incidentEnergy0*10) == roundf(anisotropy[0][j]*10)) {
                   anisotropyCoefficient = anisotropy[i+1][j];
                   break;
                }
-- 
2.43.0


From 2e31adbc6c2ae64d642176bfd8aef7f6e8f77ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:04 +0000
Subject: [PATCH 13/13] fix: read the first row of the level density parameters

The line that ends the comments at the top of ldp.dat was dropped, so that its
nucleus (Z=15 A=50) got the default for missing nuclei.
---
 libcgmf/src/FissionFragments.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index 66f6209..384e82e 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -4564,10 +4564,9 @@ void readLDP (void) {
 
     while(getline(fp,str)){
 		if(str[0] == '#') continue;
-	    while (!fp.eof()) {
-			fp >> zaid;
-			for (int i=0; i<NUM_GRID; i++) fp >> ldp2[zaid][i];
-    	}
+		istringstream row(str);
+		if (!(row >> zaid)) continue;
+		for (int i=0; i<NUM_GRID; i++) row >> ldp2[zaid][i];
 	}
 
     return;
-- 
2.43.0

