From 7de5bbf3d24ce18694daf86ba7d0f72a844e4559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:16 +0000
Subject: [PATCH 01/34] fix: use the requested energy in catima_range

The C function catima_range() ignored its energy argument and always
returned the range extrapolated to zero energy.
---
 src/cwrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwrapper.cpp b/src/cwrapper.cpp
index 8ed94a3..4fd3bae 100644
--- a/src/cwrapper.cpp
+++ b/src/cwrapper.cpp
@@ -58,7 +58,7 @@ extern "C" {
         catima::default_config.scattering = 255;
         catima::Projectile p(pa,pz);
         catima::Material mat = make_material(ta,tz, 0, -1);
-        return range(p, mat);
+        return range(p(T), mat);
     }
 
     double catima_range_straggling(double pa, int pz, double T, double ta, double tz){
-- 
2.43.0


From 2005e13d5037006fe600ab6c64d8184c6157cf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:40 +0000
Subject: [PATCH 02/34] fix: calculate the time of flight with the passed
 config

calculate() ignored its Config argument for the time of flight and used
the default configuration instead.
---
 src/catima.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index c42c1cc..72630ca 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -336,7 +336,7 @@ Result calculate(Projectile p, const Material &t, const Config &c){
         }
         //Interpolator tof_spline(energy_table.values, tofdata.data(), energy_table.num,interpolation_t::linear);
         //res.tof = tof_spline(res.Ein) - tof_spline(res.Eout);
-        res.tof = calculate_tof_from_E(p,res.Eout,t);
+        res.tof = calculate_tof_from_E(p,res.Eout,t,c);
             
     } //end of else for non stopped case
     
-- 
2.43.0


From d18295adb885902e8f593fe71a06b5a5e4694ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:44 +0000
Subject: [PATCH 03/34] fix: apply catima_defaults in all C functions

The straggling and non-reaction rate functions of the C interface used
the effective charge formula left over from an earlier call instead of
the one set in catima_defaults.
---
 src/cwrapper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cwrapper.cpp b/src/cwrapper.cpp
index 4fd3bae..cc93941 100644
--- a/src/cwrapper.cpp
+++ b/src/cwrapper.cpp
@@ -70,6 +70,7 @@ extern "C" {
     }
 
     double catima_angular_straggling_from_E(double pa, int pz, double Tin, double Tout,double ta, double tz){
+        catima::default_config.z_effective = catima_defaults.z_effective;
         catima::default_config.scattering = 255;
         catima::Projectile p(pa,pz);        
         catima::Material mat = make_material(ta,tz, 0, -1);
@@ -78,6 +79,7 @@ extern "C" {
     }
 
     double catima_energy_straggling_from_E(double pa, int pz, double Tin, double Tout,double ta, double tz){
+        catima::default_config.z_effective = catima_defaults.z_effective;
         catima::default_config.scattering = 255;
         catima::Projectile p(pa,pz);
         catima::Material mat = make_material(ta,tz, 0, -1);
@@ -87,6 +89,7 @@ extern "C" {
     double atomic_weight(int i){return catima::element_atomic_weight(i);}
 
     double catima_nonreaction_rate(double pa, int pz, double T, double ta, double tz, double thickness){
+        catima::default_config.z_effective = catima_defaults.z_effective;
         catima::Projectile p(pa,pz);
         p.T = T;
         catima::Material mat = make_material(ta,tz, thickness, -1);
-- 
2.43.0


From c52cfa630ea4bdaede49ac5eedffc9b0d3fe3ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:23 +0000
Subject: [PATCH 04/34] fix: keep the energy_out iteration between zero and the
 initial energy

The newton step can leave the interval in which the solution lies. The
projectile was then reported as stopped although its range is larger than
the thickness, or a negative energy was returned.
---
 src/catima.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index 72630ca..c2235ec 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -210,13 +210,19 @@ double energy_out(double T, double thickness, const Interpolator &range_spline){
     dedx = 1.0/range_spline.derivative(T);
     if(range<= thickness) return 0.0;
     
+    // solution is always between elow and ehigh, used if the newton step leaves this interval
+    double elow = Ezero;
+    double ehigh = T;
     e = T - (thickness*dedx);
+    if(e<elow)e = 0.5*(elow+ehigh);
     while(1){
         r = range - range_spline(e) - thickness;
         if(fabs(r)<Eout_th_epsilon)return e;
+        if(r>0)elow = e;
+        else ehigh = e;
         double step = -r*dedx;
         e = e-step;
-        if(e<Ezero)return 0.0;
+        if(e<=elow || e>=ehigh)e = 0.5*(elow+ehigh);
         dedx = 1.0/range_spline.derivative(e);
         counter++;
         assert(counter<=100);
-- 
2.43.0


From efcd18e3f832876c0bd23a6a7e2f24be11066d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:27 +0000
Subject: [PATCH 05/34] fix: do not treat different scattering factors as the
 same config

Configs with slightly different scattering_factor shared one cache entry,
so the angular straggling depended on which of them was used first.
---
 src/catima.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index c2235ec..5b22736 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -23,7 +23,7 @@ bool operator==(const Config &a, const Config&b){
     if(a.corrections != b.corrections)return false;
     if(a.calculation != b.calculation)return false;
     if(a.low_energy != b.low_energy)return false;
-    if(fabs(a.scattering_factor-b.scattering_factor)>1e-3) return false;
+    if(a.scattering_factor != b.scattering_factor)return false;
     return true;
     }
 
-- 
2.43.0


From 901681b92d205cb582a5e8f3f3bfa20cadb19b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:32 +0000
Subject: [PATCH 06/34] fix: set the output energy for empty layers

calculate() returned Eout=0 with Eloss=0 when there was no layer.
---
 src/catima.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/catima.cpp b/src/catima.cpp
index 5b22736..e64c0ef 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -365,6 +365,7 @@ MultiResult calculate(const Projectile &p, const Phasespace &ps, const Layers &l
     MultiResult res;
     double e = p.T;
     res.total_result.Ein = e;
+    res.total_result.Eout = e;
     res.total_result.sigma_a = ps.sigma_a*ps.sigma_a;
     res.total_result.sigma_x = ps.sigma_x*ps.sigma_x;
     res.total_result.cov = ps.cov_x;
-- 
2.43.0


From 9a1b6af27a6d6c095b1a20fd5df5453ead5db8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:51 +0000
Subject: [PATCH 07/34] fix: correct the composition of three predefined
 compounds

Na2CO3 had only one sodium atom, Polyolefin had oxygen instead of carbon
and RW3 had a second carbon entry instead of oxygen.
---
 src/material_database.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/material_database.cpp b/src/material_database.cpp
index 114cc81..622c739 100644
--- a/src/material_database.cpp
+++ b/src/material_database.cpp
@@ -28,7 +28,7 @@ namespace catima{
 		 case material::Mylar:	 return Material({{0,6,10},{0,1,8},{0,8,4}},1.38);
 		 case material::NaF:	 return Material({{0,11,1},{0,9,1}},2.56);
 		 case material::P10:	 return Material({{0,18,9},{0,6,1},{0,1,4}},0.00166);
-		 case material::Polyolefin:	 return Material({{0,8,8},{0,1,16}},0.9);
+		 case material::Polyolefin:	 return Material({{0,6,8},{0,1,16}},0.9);
 		 case material::CmO2:	 return Material({{0,96,1},{0,8,2}},12);
 		 case material::Suprasil:	 return Material({{0,14,0.37722},{0,8,0.539562},{0,5,0.040064},{0,11,0.028191},{0,13,0.011644},{0,19,0.003321}},2.2);
 		 case material::HAVAR:	 return Material({{0,27,0.403228},{0,24,0.169412},{0,28,0.124301},{0,74,0.089847},{0,42,0.031259},{0,26,0.181952}},8.3);
@@ -118,7 +118,7 @@ namespace catima{
 		 case material::Muscle_strained:	 return Material({{0,1,0.101997},{0,6,0.123},{0,7,0.035},{0,8,0.729003},{0,11,0.0008},{0,12,0.0002},{0,15,0.002},{0,16,0.005},{0,19,0.003}},1.04);
 		 case material::Muscle_sucrose:	 return Material({{0,1,0.0982341},{0,6,0.156214},{0,7,0.035451},{0,8,0.710101}},1.11);
 		 case material::Muscle_no_sucrose:	 return Material({{0,1,0.101969},{0,6,0.120058},{0,7,0.035451},{0,8,0.742522}},1.07);
-		 case material::Na2CO3:	 return Material({{0,6,1},{0,8,3},{0,11,1}},2.532);
+		 case material::Na2CO3:	 return Material({{0,6,1},{0,8,3},{0,11,2}},2.532);
 		 case material::NaI:	 return Material({{0,11,1},{0,53,1}},3.667);
 		 case material::NaCl:	 return Material({{0,11,1},{0,17,1}},2.165);
 		 case material::Na2O:	 return Material({{0,8,1},{0,11,2}},2.27);
@@ -160,7 +160,7 @@ namespace catima{
 		 case material::LLZO_electrolyte:	 return Material({{0,3,7},{0,57,3},{0,40,2},{0,8,12}},5.1);
 		 case material::Nylon:	 return Material({{0,6,6},{0,1,11},{0,7,1},{0,8,1}},1.14);
 		 case material::Brass:   return Material({{0,29,0.63},{0,30,0.35},{0,82,0.02}},8.73);
-	         case material::RW3:  return Material({{0,1,0.0759},{0,6,0.9041},{0,6,0.008},{0,22,0.012}},1.045);
+	         case material::RW3:  return Material({{0,1,0.0759},{0,6,0.9041},{0,8,0.008},{0,22,0.012}},1.045);
             default:break;
              }
         return Material();
-- 
2.43.0


From 7fe80aad8853bdb073bc75013e8d31a6e70fe9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:53 +0000
Subject: [PATCH 08/34] fix: find the last predefined compounds in the mocadi
 export

Brass and RW3 were not recognised and were exported with the id 0.
---
 include/catima/convert.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/catima/convert.h b/include/catima/convert.h
index 9370865..12506f1 100644
--- a/include/catima/convert.h
+++ b/include/catima/convert.h
@@ -38,7 +38,7 @@ bool mocadi_material_match(const Material &a, const Material&b){
 }
 
 int materialdb_id(const Material &m){
-    for(int i=201;i<=347;i++){
+    for(int i=201;i<=349;i++){
         if(mocadi_material_match(get_material(i),m)){
             return i;
         }
-- 
2.43.0


From f1b076d02af9ef788b08add41cc9754cf3d7cd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:56 +0000
Subject: [PATCH 09/34] fix: limit the Lindhard coefficients lookup to the
 tabulated elements

The tables have coefficients for Z=1 to 108 but the maximum Z was set to
110, projectiles above Z=108 were reading behind the tables.
---
 include/catima/generated_LS_coeff.h | 2 +-
 utils/generator.cpp                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/catima/generated_LS_coeff.h b/include/catima/generated_LS_coeff.h
index e55117e..840e4d2 100644
--- a/include/catima/generated_LS_coeff.h
+++ b/include/catima/generated_LS_coeff.h
@@ -2,7 +2,7 @@
  #include "catima/storage.h"
 
 #define LS_NUM_ENERGY_POINTS 200
-#define LS_MAX_Z 110
+#define LS_MAX_Z 108
 namespace catima{
 
 namespace ls_coefficients{
diff --git a/utils/generator.cpp b/utils/generator.cpp
index bfaffea..f5ef309 100644
--- a/utils/generator.cpp
+++ b/utils/generator.cpp
@@ -38,7 +38,7 @@ int main(){
     file<<"#include \"catima/storage.h\"";
     file<<"\n\n";
     file<<"#define LS_NUM_ENERGY_POINTS "<<num_LS_datapoints<<"\n";
-    file<<"#define LS_MAX_Z "<<ATOMIC_WEIGHT_MAXZ<<"\n";
+    file<<"#define LS_MAX_Z "<<ATOMIC_WEIGHT_MAXZ-2<<"\n";
     file<<"namespace catima{\n\n";
     file<<"namespace ls_coefficients{\n\n";
     file<<"// relative difference of mass number for 2nd mass point ls_coefficients_ahi \n\n";
-- 
2.43.0


From 2e324aa129c7454ecf0bc677ba9bfcf2217d9d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:36 +0000
Subject: [PATCH 10/34] fix: do not read behind the energy table at its upper
 end

For energies just below the last table point, eg 1e7 MeV/u, the
calculated index was one past the table. The stopping power and straggling
were then interpolated from unrelated memory.
---
 include/catima/storage.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/catima/storage.h b/include/catima/storage.h
index 93ce59e..e4f78f5 100644
--- a/include/catima/storage.h
+++ b/include/catima/storage.h
@@ -19,6 +19,7 @@
 
 #include <vector>
 #include <array>
+#include <algorithm>
 #include <iterator>
 #include <cmath>
 //#include <unordered_set>
@@ -56,7 +57,7 @@ namespace catima{
         
         #ifdef ET_CALCULATED_INDEX
         double lxval = (std::log(v/values[0])/LN10);
-        int i = static_cast<int> (std::floor(lxval/step));
+        int i = std::min(static_cast<int> (std::floor(lxval/step)), N-2);
         if(v >= values[i+1]-numeric_epsilon)i++; // this is correction for floating point precision
         return i;
         #else
@@ -72,7 +73,7 @@ namespace catima{
 	    double r;
 	    if(xval<table.values[0] || xval>table.values[table.size()-1])return 0.0;
 	    if(xval==table.values[table.size()-1])return y[table.size()-1];
-        int i = table.index(xval);
+        int i = std::min(table.index(xval), table.size()-2);
 	    double linstep = table.values[i+1] - table.values[i];
         if(linstep == 0.0)return table.values[i];
 	    double x = 1.0 - ((xval - table.values[i])/linstep);
-- 
2.43.0


From 5cb735043c9e90adfbbaadae82512575f9d70301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:42 +0000
Subject: [PATCH 11/34] fix: pass velocity to the Pierce-Blann formula in
 z_eff_global

The formula expects beta but the energy was passed, the effective charge
was always equal to the proton number.
---
 src/calculations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index bbbea36..f5e40bf 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -750,7 +750,7 @@ double z_eff_global(double pz, double E, double tz){
     if(E>2000)
         return pz;
     else if(E<30.0 || pz<29){        
-        return z_eff_Pierce_Blann(pz, E);
+        return z_eff_Pierce_Blann(pz, beta_from_T(E));
     }
     else{
         #ifdef GLOBAL
-- 
2.43.0


From d3ff3ab57cb1c058c7c09f115463bab5b408a0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:44 +0000
Subject: [PATCH 12/34] fix: return no isotope for a negative isotope index

The index was only checked against the upper limit and isotopes of another
element, or memory before the table, were returned.
---
 src/abundance_database.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/abundance_database.cpp b/src/abundance_database.cpp
index 2cda3b5..890ffab 100644
--- a/src/abundance_database.cpp
+++ b/src/abundance_database.cpp
@@ -25,20 +25,20 @@ namespace abundance{
     
     int get_isotope_a(int z, int i){
         int num = get_isotopes_num(z);
-        if(num==0|| (i+1) > num)return 0;
+        if(i<0 || num==0|| (i+1) > num)return 0;
         return isotopes_a[abundance_z_index[z-1]+i];
     }
     
     float get_abundance(int z, int i){
         int num = get_isotopes_num(z);
-        if(num==0|| (i+1) > num)return 0;
+        if(i<0 || num==0|| (i+1) > num)return 0;
         return isotopes_abundance[abundance_z_index[z-1]+i];
     }
     
     std::pair<int,float> get_isotope(int z, int i){
         std::pair<int,float> res{0,0.0};
         int num = get_isotopes_num(z);
-        if(num==0|| (i+1) > num)return res;
+        if(i<0 || num==0|| (i+1) > num)return res;
         
         res.first = isotopes_a[abundance_z_index[z-1]+i];
         res.second = isotopes_abundance[abundance_z_index[z-1]+i];
-- 
2.43.0


From fe87fd0cb7b10b7ac8e54e4fd96b9916c8d765bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:11 +0000
Subject: [PATCH 13/34] fix: allow to append layers to themselves

Layers::add() iterated over the vector it was extending when called with
the same object.
---
 src/structures.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/structures.cpp b/src/structures.cpp
index 6257663..d9884bc 100644
--- a/src/structures.cpp
+++ b/src/structures.cpp
@@ -68,7 +68,8 @@ void Layers::add(Material m){
 }
 
 void Layers::add(const Layers& l){
-    for(auto m: l.get_materials()){
+    const std::vector<Material> added = l.get_materials(); // copy because l can be this object
+    for(auto &m: added){
       add(m);
     }
 }
-- 
2.43.0


From 8cffff26a2576aef2c97e08c55616a86ffc9bd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:21 +0000
Subject: [PATCH 14/34] fix: return all points of the odd order integrators

get_points() left the last point uninitialized and returned the central
point twice for odd orders.
---
 include/catima/gkq_integrator.h | 5 +++--
 include/catima/glq_integrator.h | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/catima/gkq_integrator.h b/include/catima/gkq_integrator.h
index 51db896..dd8ebb4 100644
--- a/include/catima/gkq_integrator.h
+++ b/include/catima/gkq_integrator.h
@@ -158,9 +158,10 @@ std::array<double,order> GaussKronrodIntegration<order>::get_points(double a,  d
     double q = 0.5*(b+a);
 
     int num = (order/2);
+    if(order%2){points[num] = p*x(0) + q;} // in case odd-order
     for(int i=0;i< num;i++){
-        points[num-i-1] = -p*x(i) + q;
-        points[num+i] = p*x(i) + q;
+        points[num-i-1] = -p*x(i+order%2) + q;
+        points[num+i+order%2] = p*x(i+order%2) + q;
     }
     return points;
 }
diff --git a/include/catima/glq_integrator.h b/include/catima/glq_integrator.h
index d3aaf3e..2798c70 100644
--- a/include/catima/glq_integrator.h
+++ b/include/catima/glq_integrator.h
@@ -56,9 +56,10 @@ std::array<double,order> GaussLegendreIntegration<order>::get_points(double a,
     double q = 0.5*(b+a);
 
     int num = (order/2);
+    if(order%2){points[num] = p*x(0) + q;} // in case odd-order
     for(int i=0;i< num;i++){
-        points[num-i-1] = -p*x(i) + q;
-        points[num+i] = p*x(i) + q;
+        points[num-i-1] = -p*x(i+order%2) + q;
+        points[num+i+order%2] = p*x(i+order%2) + q;
     }
     return points;
 }
-- 
2.43.0


From c423a2d9d2932ffc2773a75073cffa504948aff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:05 +0000
Subject: [PATCH 15/34] fix: include the central points in odd order 2D
 integration

For odd orders the outermost points were skipped and the central ones were
counted with a wrong weight.
---
 include/catima/glq_integrator.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/catima/glq_integrator.h b/include/catima/glq_integrator.h
index 2798c70..1f05bb4 100644
--- a/include/catima/glq_integrator.h
+++ b/include/catima/glq_integrator.h
@@ -86,13 +86,15 @@ double GaussLegendreIntegration2D<order>::integrate(F& f, double a, double b, do
     double s = (d+c)/2.0;
 
     double xx, yy, sum;
-    for(int i=0;i<order/2;i++){
+    for(int i=0;i<order/2 + order%2;i++){
         xx = (p*integrator.x(i));
-        for(int j=0;j<order/2;j++){
+        double wi = (order%2 && i==0)?0.5*integrator.w(i):integrator.w(i); // central point is evaluated twice
+        for(int j=0;j<order/2 + order%2;j++){
             yy = (r*integrator.x(j));
+            double wj = (order%2 && j==0)?0.5*integrator.w(j):integrator.w(j);
             sum = (f(xx + q, yy + s) + f(xx + q, -yy+s));
             sum += (f(-xx + q, yy + s) + f(-xx + q, -yy+s));
-            res += integrator.w(i) * integrator.w(j) * sum;
+            res += wi * wj * sum;
         }
     }
     return p*r*res;
@@ -120,13 +122,15 @@ double GaussLegendreIntegration2DA<order, order2>::integrate(F& f, double a, dou
     double s = (d+c)/2.0;
 
     double xx, yy, sum;
-    for(int i=0;i<order/2;i++){
+    for(int i=0;i<order/2 + order%2;i++){
         xx = (p*integrator.x(i));
-        for(int j=0;j<order2/2;j++){
+        double wi = (order%2 && i==0)?0.5*integrator.w(i):integrator.w(i); // central point is evaluated twice
+        for(int j=0;j<order2/2 + order2%2;j++){
             yy = (r*integrator2.x(j));
+            double wj = (order2%2 && j==0)?0.5*integrator2.w(j):integrator2.w(j);
             sum = (f(xx + q, yy + s) + f(xx + q, -yy+s));
             sum += (f(-xx + q, yy + s) + f(-xx + q, -yy+s));
-            res += integrator.w(i) * integrator2.w(j) * sum;
+            res += wi * wj * sum;
         }
     }
     return p*r*res;
-- 
2.43.0


From d1b806aef572592fb7325672ce501d56dc77e577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:08 +0000
Subject: [PATCH 16/34] fix: use density and Ipot of compounds in the
 calculator

They were read from the config file but only applied to elements.
---
 bin/catima_calculator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bin/catima_calculator.cpp b/bin/catima_calculator.cpp
index 2b4d482..de2224d 100644
--- a/bin/catima_calculator.cpp
+++ b/bin/catima_calculator.cpp
@@ -243,7 +243,7 @@ Material json_material(json &j){
             throw std::invalid_argument("Could not parse json file (material section)");
             }
         
-        if(density<=0){
+        if(density<=0 && z<200){
             density = element_density(z);
             if(density<=0)cout<<"Warning: material density = "<<density<<"\n";
             }
@@ -258,7 +258,9 @@ Material json_material(json &j){
             }
         else{
             Material m = get_material(z);
+            if(density>0)m.density(density);
             m.thickness(th);
+            if(ipot>0)m.I(ipot);
             return m;
             }
         
-- 
2.43.0


From 2776ce66f5a87d29f4ae9efefd43de547231933d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:11 +0000
Subject: [PATCH 17/34] fix: accept fractional steps and two energies in the
 calculator

A step below one was truncated to zero, and an energy range with only two
points was rejected as no energy specified.
---
 bin/catima_calculator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/catima_calculator.cpp b/bin/catima_calculator.cpp
index de2224d..f2a8d79 100644
--- a/bin/catima_calculator.cpp
+++ b/bin/catima_calculator.cpp
@@ -82,12 +82,12 @@ int main( int argc, char * argv[] )
                         double emax = e["max"].get<double>();
                         int num=0;
                         if(e.count("step")){
-                            num = 1+(emax-emin)/e["step"].get<int>();
+                            num = 1+(emax-emin)/e["step"].get<double>();
                         }
                         if(e.count("num")){
                             num = e["num"].get<int>();
                         }
-                        if(num>2)
+                        if(num>=2)
                             energies  =  linspace_vector(emin,emax,num);
                     }
                 }
-- 
2.43.0


From d60cbdbf845f47c2b1495c6ffecec067ddd31b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:14 +0000
Subject: [PATCH 18/34] fix: use the selected config in the calculator

The config was announced but the default one was used. Atima v1.4 needs a
build with GLOBAL, without it a warning is printed and the default is kept.
---
 bin/catima_calculator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bin/catima_calculator.cpp b/bin/catima_calculator.cpp
index f2a8d79..c8d6c8d 100644
--- a/bin/catima_calculator.cpp
+++ b/bin/catima_calculator.cpp
@@ -122,8 +122,12 @@ int main( int argc, char * argv[] )
                         cout<<"using config: Atima v1.3\n";
                     }
                     if(cstr=="atimav1.4"){
+                        #ifdef GLOBAL
                         conf.z_effective = z_eff_type::atima14;
                         cout<<"using config: Atima v1.4\n";
+                        #else
+                        cout<<"Warning: Atima v1.4 config is not available in this build\n";
+                        #endif
                     }
                 }
             }
@@ -158,7 +162,7 @@ int main( int argc, char * argv[] )
     for(double e:energies){ 
         cout<<"-------- T = "<<e<<" MeV/u -------\n";
         projectile.T = e;
-        auto res = calculate(projectile,layers);
+        auto res = calculate(projectile,layers,conf);
         for(unsigned int i=0;i<res.results.size();i++){
             auto entry = res.results[i];
             cout<<"material #"<<i<<":\n";
-- 
2.43.0


From 31e9519d28b496f3c6012f73c321351f2cd48899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:57 +0000
Subject: [PATCH 19/34] fix: allow to build with REACTIONS disabled

reactions.cpp needs the reaction energy limit also when the reaction rates
are not part of the result.
---
 include/catima/constants.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/catima/constants.h b/include/catima/constants.h
index 4620abd..96d4ad4 100644
--- a/include/catima/constants.h
+++ b/include/catima/constants.h
@@ -15,8 +15,8 @@ constexpr double Eout_th_epsilon = 1e-5;  //
 
 constexpr double thin_target_limit = 1 - 1e-3;
 
-#ifdef REACTIONS
 constexpr double emin_reaction = 30.0;
+#ifdef REACTIONS
 constexpr bool reactions = true;
 #else
 constexpr bool reactions = false;
-- 
2.43.0


From 3f954913ad640ba4ee733f5bba560fa1b417dfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:09 +0000
Subject: [PATCH 20/34] fix: sign of the Coulomb correction in radiation length

The correction was added instead of subtracted, so the radiation length of
elements without a tabulated value was too short, 5.7 g/cm2 instead of 6.8 g/cm2
for tantalum.
---
 src/calculations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index f5e40bf..d146745 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -547,7 +547,7 @@ double radiation_length(int z, double m){
     double a2 = fine_structure*fine_structure*z2;
     double a4 = a2*a2;
     double a6 = a4*a2;
-    lr= 716.405*m/(z2* (log(184.15*z_13) + log(1194.0*z_23)/z - -1.202*a2 + 1.0369*a4 - 1.008*a6/(1+a2) ) );
+    lr= 716.405*m/(z2* (log(184.15*z_13) + log(1194.0*z_23)/z - 1.202*a2 + 1.0369*a4 - 1.008*a6/(1+a2) ) );
     return lr;
 }
 
-- 
2.43.0


From d9e9b3bfeede2870a00f379b6f0f41e9af76ae91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:23 +0000
Subject: [PATCH 21/34] fix: survival probability of compounds given by
 stoichiometric numbers

The cross section was averaged per atom but multiplied with the number of
molecules, so CH2 given as {1,2} and as {2,4} had different survival
probabilities and both differed from the same material given by weight
fractions.
---
 src/reactions.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/reactions.cpp b/src/reactions.cpp
index 6ce7958..5817d0a 100644
--- a/src/reactions.cpp
+++ b/src/reactions.cpp
@@ -28,15 +28,14 @@ double nonreaction_rate(Projectile &projectile, const Material &target, const Co
     if(energy_out(projectile.T, target.thickness(), range_spline) < emin_reaction)return -1.0;
     
     auto sigma_r = [&](double th){
-        double stn_sum=0.0, sum=0.0;
+        double sum=0.0;
         double e = energy_out(projectile.T, th, range_spline);
         for(unsigned int i = 0;i<target.ncomponents();i++){
             int zt = target.get_element(i).Z;
             int at = abundance::get_isotope_a(zt,0); // most abundand natural isotope mass
-            stn_sum += target.molar_fraction(i);
             sum += target.molar_fraction(i)*SigmaR_Kox(ap,zp,e,at,zt); 
         }
-        return sum/stn_sum;
+        return sum; // per molecule, to match number density of molecules
     };
 
     //nurex::Nucleus nurex_projectile = nurex::get_default_nucleus(ap,zp);
-- 
2.43.0


From 3ab2ae2cb1e02c0306696e2a37aeb6993cbeff3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:08 +0000
Subject: [PATCH 22/34] fix: off-diagonal elements swapped in the spline
 equations

The solver takes the lower diagonal from a and the upper one from c, but the
access operator stored them the other way around. The derivative of the spline
was not continuous at the points of a not equidistant table.
---
 include/catima/spline.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/catima/spline.h b/include/catima/spline.h
index 153b1e6..721a6f4 100644
--- a/include/catima/spline.h
+++ b/include/catima/spline.h
@@ -60,18 +60,18 @@ template<int N>
 double & tridiagonal_matrix<N>::operator () (unsigned int i, unsigned int j)
 {
     int k=j-i;
-    if(k == -1)return c[i];
+    if(k == -1)return a[i];
     else if(k==0) return d[i];
-    else return a[i];
+    else return c[i];
 }
 
 template<int N>
 double tridiagonal_matrix<N>::operator () (unsigned int i, unsigned int j) const
 {
     int k=j-i;
-    if(k==-1)return c[i];
+    if(k==-1)return a[i];
     else if(k==0) return d[i];
-    else if(k==1)return a[i];
+    else if(k==1)return c[i];
     else return 0.0;
 }
 
-- 
2.43.0


From f6ca1c105a66d5bb026608ba2fde5940555098a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:27 +0000
Subject: [PATCH 23/34] fix: calculator accepted projectile which is not an
 array

The results were calculated for a projectile with zero mass and charge.
---
 bin/catima_calculator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bin/catima_calculator.cpp b/bin/catima_calculator.cpp
index c8d6c8d..83f2ae4 100644
--- a/bin/catima_calculator.cpp
+++ b/bin/catima_calculator.cpp
@@ -55,6 +55,9 @@ int main( int argc, char * argv[] )
                     projectile.A = j["projectile"].at(0).get<double>();
                     projectile.Z = j["projectile"].at(1).get<double>();
                 }
+                else{
+                    throw std::invalid_argument("projectile field is not an array");
+                }
             }
             else{
                 throw std::invalid_argument("projectile field is missing");
-- 
2.43.0


From f2a286e4bed5ebadbf41a065ccb069124e345ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:34:08 +0000
Subject: [PATCH 24/34] fix: iodine missing in photographic emulsion

Weight fractions added up to 0.99688.
---
 src/material_database.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/material_database.cpp b/src/material_database.cpp
index 622c739..18551dd 100644
--- a/src/material_database.cpp
+++ b/src/material_database.cpp
@@ -129,7 +129,7 @@ namespace catima{
 		 case material::Octane:	 return Material({{0,1,18},{0,6,8}},0.703);
 		 case material::Paraffin:	 return Material({{0,1,0.148605},{0,6,0.851395}},0.93);
 		 case material::nPentane:	 return Material({{0,1,12},{0,6,5}},0.626);
-		 case material::PhotoEmulsion:	 return Material({{0,1,0.0141},{0,6,0.072261},{0,7,0.01932},{0,8,0.066101},{0,16,0.00189},{0,35,0.349103},{0,47,0.474105}},3.815);
+		 case material::PhotoEmulsion:	 return Material({{0,1,0.0141},{0,6,0.072261},{0,7,0.01932},{0,8,0.066101},{0,16,0.00189},{0,35,0.349103},{0,47,0.474105},{0,53,0.00312}},3.815);
 		 case material::PuO2:	 return Material({{0,8,2},{0,94,1}},11.46);
 		 case material::Polyacrylonitrile:	 return Material({{0,1,3},{0,6,3},{0,7,1}},1.184);
 		 case material::Polycarbonate:	 return Material({{0,1,0.055491},{0,6,0.755751},{0,8,0.188758}},1.2);
-- 
2.43.0


From 520db9ccf3775c8f580dceaa906951d8f742ec89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:52:54 +0000
Subject: [PATCH 25/34] fix: apply the scattering factor to the scattering
 moments of a layer

The factor was used for the tabulated angular variance only. Position
spread and covariance ignored it, as did the angular straggling of the
scattering models which do not use the table.
---
 src/catima.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index e64c0ef..99b79b5 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -175,9 +175,9 @@ double angular_variance(Projectile p, const Material &t, const Config &c, int or
     
     // corrections      
     if(c.scattering == scattering_types::gottschalk){
-        return integrator.integrate(fx0p_2,0, rrange)*t.density();
+        return c.scattering_factor*integrator.integrate(fx0p_2,0, rrange)*t.density();
     }
-    return integrator.integrate(fx0p,0, rrange)*t.density()*ipow(p.Z,2)*Es2/X0;
+    return c.scattering_factor*integrator.integrate(fx0p,0, rrange)*t.density()*ipow(p.Z,2)*Es2/X0;
 }
 
 double angular_straggling(Projectile p, const Material &t, const Config &c){
-- 
2.43.0


From 7614125559d23f1d2b2b78e35c6001b389756615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:26:20 +0000
Subject: [PATCH 26/34] fix: energy grid index of NaN reads outside of the grid

---
 include/catima/storage.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/catima/storage.h b/include/catima/storage.h
index e4f78f5..f867da0 100644
--- a/include/catima/storage.h
+++ b/include/catima/storage.h
@@ -52,7 +52,7 @@ namespace catima{
 	const double* begin()const{return values;}
     const double* end()const{return &values[num];}
     int index(double v)const noexcept{        
-        if(v<values[0] || step==0.0)return -1;
+        if(!(v>=values[0]) || step==0.0)return -1;
         if(v>=values[N-1]-numeric_epsilon)return N-1;
         
         #ifdef ET_CALCULATED_INDEX
@@ -95,7 +95,7 @@ namespace catima{
         double operator()(int i)const noexcept{return value(i);}
         double step_size()const noexcept{return step;}
         int index(double v)const noexcept{
-            if(v<value(0) || step==0.0)return -1;
+            if(!(v>=value(0)) || step==0.0)return -1;
             if(v>= (value(N-1)-numeric_epsilon))return N-1;
             double lxval = (log(v/value(0))/LN10);
             int i = static_cast<int> (std::floor(lxval/step));
@@ -120,7 +120,7 @@ namespace catima{
         constexpr static int size() noexcept{return N;}
         double operator[](int i)const noexcept{return i*step + min;}
         int index(double v)const noexcept{
-            if(v<min || step==0.0)return -1;
+            if(!(v>=min) || step==0.0)return -1;
             if(v>=max)return N-1;
             assert(step>0.0);
             return static_cast<int> (std::floor((v-min)/step));
-- 
2.43.0


From 4afaebbf6d52424e71d39d5b1776fbb6ce16defc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:26:25 +0000
Subject: [PATCH 27/34] fix: log gamma of purely imaginary arguments misses the
 reflection

---
 src/calculations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index d146745..6330fbd 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -887,7 +887,7 @@ std::complex<double> lngamma( const std::complex<double> &z )
         double aterm3=atan2(num,denom);
         double lterm3 = 0.5*log(num*num + denom*denom);
         std::complex<double> result(lterm1+lterm2+lterm3,aterm1+aterm2+aterm3);
-        if(z.real() < 0){
+        if(z.real() <= 0){
             std::complex<double> lpi(log(PI), 0.0);
             result = lpi - (result + std::log(std::sin(PI*z)));
         }
-- 
2.43.0


From 8e37fb608230628efc8e06728a689a9499f78d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:57:53 +0000
Subject: [PATCH 28/34] fix: calculator exits with 1 on success and with 0 when
 the config is refused

---
 bin/catima_calculator.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bin/catima_calculator.cpp b/bin/catima_calculator.cpp
index 83f2ae4..eb4196b 100644
--- a/bin/catima_calculator.cpp
+++ b/bin/catima_calculator.cpp
@@ -138,18 +138,18 @@ int main( int argc, char * argv[] )
         } // end of try 
         catch(...){
             cout<<"Could not load the config file"<<"\n";
-            return 0;
+            return 1;
         }
 
 
     if(layers.num()==0){
         cout<<"no material specified\n";
-        return 0;
+        return 1;
         }
 
     if(energies.size()==0){
         cout<<"no energy specified\n";
-        return 0;
+        return 1;
     }
     
     cout<<"******** CAtima calculator ********\n";
@@ -190,7 +190,7 @@ int main( int argc, char * argv[] )
         cout<<"\tTOF = "<<res.total_result.tof<<" ns\n";
     }
 
-    return 1;
+    return 0;
 }
 
 
-- 
2.43.0


From 65e104254bbfb73d4d27be7a552fb616632b832d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:23:57 +0000
Subject: [PATCH 29/34] fix: tridiagonal solver returns unset values when the
 first diagonal entry is zero

---
 include/catima/spline.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/catima/spline.h b/include/catima/spline.h
index 721a6f4..cbc8d12 100644
--- a/include/catima/spline.h
+++ b/include/catima/spline.h
@@ -79,7 +79,10 @@ template<int N>
 std::array<double, N> tridiagonal_matrix<N>::trig_solve(const std::array<double, N>& b) const
 {
     std::array<double, N> x;
-    if(d[0] == 0.0){return x;}
+    if(d[0] == 0.0){
+        x.fill(0.0);
+        return x;
+    }
     std::array<double, N> g;
     x[0] = b[0]/d[0];
     double bet = d[0];
-- 
2.43.0


From a0e0a7e0c8de97046d1c04f5155e7ba28e4802da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:33:22 +0000
Subject: [PATCH 30/34] fix: density effect of astatine and francium jumps to
 large negative values

The exponents of both elements were placeholders (1.1111).  The stopping
power rose by up to ten per cent at one energy.  The exponent now follows
from the other tabulated parameters, so that the correction starts at zero.
---
 include/catima/data_atima.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/catima/data_atima.h b/include/catima/data_atima.h
index f302e25..cf8ecec 100644
--- a/include/catima/data_atima.h
+++ b/include/catima/data_atima.h
@@ -64,7 +64,7 @@ const double m[97]= {
 2.9319, 3.0354,  2.7276, 2.7414, 2.8866, 2.8906, 2.8828, 2.8592, 2.7331, 2.7050,
 2.6674, 2.6403,  2.6245, 2.5977, 2.6056, 2.5849, 2.5726, 2.5573, 2.5469, 2.5141,
 2.5643, 2.6155,  2.7623, 2.8447, 2.8627, 2.9608, 2.9658, 3.0417, 3.1101, 3.0519,
-3.1450, 3.1608,  3.1671, 3.1830, 1.1111, 2.7409, 1.1111, 3.2454, 3.2683, 3.2610,
+3.1450, 3.1608,  3.1671, 3.1830, 3.0600, 2.7409, 3.2437, 3.2454, 3.2683, 3.2610,
 2.9845, 2.8171,  2.8082, 2.7679, 2.7615, 2.7579, 2.7560 };
 
 const double del_0[97]= {
-- 
2.43.0


From 496e1c3efbfbf325d7d25a5a0f676b49c4b2a898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:58:26 +0000
Subject: [PATCH 31/34] fix: unused places of the cache do not match a query
 without projectile and material

---
 src/storage.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/storage.cpp b/src/storage.cpp
index acd6ece..e7163a1 100644
--- a/src/storage.cpp
+++ b/src/storage.cpp
@@ -112,7 +112,7 @@ double InterpolatorGSL::derivative(double x)const{
 void Data::Add(const Projectile &p, const Material &t, const Config &c){
 	DataPoint dp(p,t,c);
 	for(auto &e:storage){
-	    if(e==dp)return; 
+	    if(!e.range.empty() && e==dp)return; 
 	}
     if(index==storage.end())index=storage.begin();
     *index = calculate_DataPoint(p,t,c);
@@ -129,7 +129,7 @@ void Data::Add(const Projectile &p, const Material &t, const Config &c){
     
  DataPoint& Data::Get(const Projectile &p, const Material &t, const Config &c){
 	for(auto &e:storage){
-	    if( (e.p==p) && (e.m==t) && (e.config==c)){
+	    if( !e.range.empty() && (e.p==p) && (e.m==t) && (e.config==c)){
         return e;
 	    }
 	}
-- 
2.43.0


From 96381ab408fe5df6e7e3fc464b23f2d65bc1ce97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:58:31 +0000
Subject: [PATCH 32/34] fix: do not read in front of the tables for projectiles
 or targets without charge

---
 src/calculations.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index 6330fbd..bbd0623 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -152,6 +152,7 @@ double bethek_density_effect(double beta, int zt){
     int i;
     double del = 0;
 
+    if(zt<1)return 0.0; // no electrons
     if(zt>97){  // check if data are available, if not take highest z data
         zt=97;
         }
@@ -581,6 +582,7 @@ double precalculated_lindhard(const Projectile &p){
     double T = p.T;
     int z = (int)p.Z ;
     if(z>LS_MAX_Z)z=LS_MAX_Z;
+    if(z<1)z=1;
     if(p.T<ls_coefficients::ls_energy_table(0))T=ls_coefficients::ls_energy_table(0);
 
     double da = (p.A - element_atomic_weight(z))/element_atomic_weight(z);
@@ -599,6 +601,7 @@ double precalculated_lindhard_X(const Projectile &p){
     double T = p.T;
     int z = (int)p.Z ;
     if(z>LS_MAX_Z)z=LS_MAX_Z;
+    if(z<1)z=1;
     //if(p.T<ls_coefficients::ls_energy_table(0))T=ls_coefficients::ls_energy_table(0);
     if(p.T<ls_coefficients::ls_energy_table(0))return 1.0;
     double da = (p.A - element_atomic_weight(z))/element_atomic_weight(z);
-- 
2.43.0


From 950e3ee82de5d7654b38002092017e0b8a7775a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:58:34 +0000
Subject: [PATCH 33/34] fix: no low energy stopping for projectiles or targets
 without charge

---
 src/srim.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/srim.cpp b/src/srim.cpp
index d7f6c13..23b42d6 100644
--- a/src/srim.cpp
+++ b/src/srim.cpp
@@ -9,6 +9,7 @@ namespace catima{
   */
 
 double p_se(int Z, double energy){
+    if(Z<1)return 0.0;
     double sp = -1;
     double e = 1000*energy; //e in keV/u
     int i = Z - 1;
@@ -32,6 +33,7 @@ double p_se(int Z, double energy){
   * @param energy - energy per nuclein in MeV/u
   */
 double p_se85(int Z, double energy){
+    if(Z<1)return 0.0;
     double sp = -1;
     double e = 1000*energy; //e in keV/u
     int i = Z - 1;
@@ -57,6 +59,7 @@ double p_se85(int Z, double energy){
   * @param energy - projectile energy in MeV/u unit
   */
 double srim_dedx_e(int pZ, int tZ, double energy, bool use_new){
+    if(pZ<1 || tZ<1)return 0.0;
     double e=energy*1000; // e in keV/u
     double se = 0;
     double (*const fp_se)(int, double) = (use_new)?p_se:p_se85;
-- 
2.43.0


From cae207573b131972fcca9f4bebe7fcbb0075097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:05:45 +0000
Subject: [PATCH 34/34] fix: compare the isotope index without overflow

---
 src/abundance_database.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/abundance_database.cpp b/src/abundance_database.cpp
index 890ffab..6eeb1fe 100644
--- a/src/abundance_database.cpp
+++ b/src/abundance_database.cpp
@@ -25,20 +25,20 @@ namespace abundance{
     
     int get_isotope_a(int z, int i){
         int num = get_isotopes_num(z);
-        if(i<0 || num==0|| (i+1) > num)return 0;
+        if(i<0 || i>=num)return 0;
         return isotopes_a[abundance_z_index[z-1]+i];
     }
     
     float get_abundance(int z, int i){
         int num = get_isotopes_num(z);
-        if(i<0 || num==0|| (i+1) > num)return 0;
+        if(i<0 || i>=num)return 0;
         return isotopes_abundance[abundance_z_index[z-1]+i];
     }
     
     std::pair<int,float> get_isotope(int z, int i){
         std::pair<int,float> res{0,0.0};
         int num = get_isotopes_num(z);
-        if(i<0 || num==0|| (i+1) > num)return res;
+        if(i<0 || i>=num)return res;
         
         res.first = isotopes_a[abundance_z_index[z-1]+i];
         res.second = isotopes_abundance[abundance_z_index[z-1]+i];
-- 
2.43.0

