From e4811364a144d5fcb0fb5f82407ad25fdd9d60c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:26 +0000
Subject: [PATCH 01/67] fix: corner halo exchange of non-square grids addresses
 the right cells

---
 include/algo/grid.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/algo/grid.hpp b/include/algo/grid.hpp
index 1343cd4..ff18a30 100644
--- a/include/algo/grid.hpp
+++ b/include/algo/grid.hpp
@@ -138,11 +138,11 @@ public:
       for (unsigned int d = 0; d < o_s; ++d)
         for (unsigned int e = 0; e < o_s; ++e)
         {
-          rhsgrid.grid[2*o_s-d-1][2*o_s-e-1] += grid[x_real_size-1-d][x_real_size-1-e];
-          grid[x_real_size-2*o_s+d][x_real_size-2*o_s+e] += rhsgrid.grid[d][e];
+          rhsgrid.grid[2*o_s-d-1][2*o_s-e-1] += grid[x_real_size-1-d][y_real_size-1-e];
+          grid[x_real_size-2*o_s+d][y_real_size-2*o_s+e] += rhsgrid.grid[d][e];
 
-          rhsgrid.grid[d][e] = grid[y_real_size-2*o_s+d][y_real_size-2*o_s+e];
-          grid[x_real_size-1-d][x_real_size-1-e] = rhsgrid.grid[2*o_s-1-d][2*o_s-1-e];
+          rhsgrid.grid[d][e] = grid[x_real_size-2*o_s+d][y_real_size-2*o_s+e];
+          grid[x_real_size-1-d][y_real_size-1-e] = rhsgrid.grid[2*o_s-1-d][2*o_s-1-e];
         }
     else
     {
-- 
2.43.0


From d425f3fe00e10bb15afc892d6da9c2dcf62c92d3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:13:16 +0000
Subject: [PATCH 02/67] fix: E_phi interpolation adds its fourth node to E_phi
 instead of E_z

---
 include/maxwellSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maxwellSolver.hpp b/include/maxwellSolver.hpp
index 9a5bf8d..eb05e6d 100644
--- a/include/maxwellSolver.hpp
+++ b/include/maxwellSolver.hpp
@@ -310,7 +310,7 @@ public:
     cmp[1] += field_e(1, i_r_shift, k_z_shift+1) * CYL_RNG_VOL(dz2, r1, r2) / vol_1;
 
     // weighting Efi[i+1][k+1]
-    cmp[2] += field_e(1, i_r_shift+1, k_z_shift+1) * CYL_RNG_VOL(dz2, r2, r3) / vol_2;
+    cmp[1] += field_e(1, i_r_shift+1, k_z_shift+1) * CYL_RNG_VOL(dz2, r2, r3) / vol_2;
 
     return cmp;
   };
-- 
2.43.0


From 9efd31d6dc083f16d8133ee71ebc886b5833148f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:13:16 +0000
Subject: [PATCH 03/67] fix: adaptive Boris pusher decides
 classical/relativistic from an initialised flag

---
 src/pusher/pusherBoris.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pusher/pusherBoris.cpp b/src/pusher/pusherBoris.cpp
index 046e90d..10637b0 100644
--- a/src/pusher/pusherBoris.cpp
+++ b/src/pusher/pusherBoris.cpp
@@ -35,7 +35,7 @@ void PusherBoris::operator()()
       // define vars directly in loop, because of multithreading
       double charge_over_2mass_dt, const2, sq_velocity;
 #ifdef SWITCH_PUSHER_BORIS_ADAPTIVE
-      bool use_rel; // use relativistic calculations
+      bool use_rel = false; // use relativistic calculations
 #endif // SWITCH_PUSHER
 #if defined(SWITCH_PUSHER_BORIS_ADAPTIVE) || defined(SWITCH_PUSHER_BORIS_RELATIVISTIC) // do not use gamma in non-relativistic boris pusher
       double gamma = 1;
-- 
2.43.0


From 82d3b4d268fe053f0b5aefadf0f533fe6d4bf870 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:13:16 +0000
Subject: [PATCH 04/67] fix: Higuera-Cary pusher normalises momentum by c and
 rotates about the whole field vector

---
 src/pusher/pusherHC.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pusher/pusherHC.cpp b/src/pusher/pusherHC.cpp
index 7b39a80..cfe7b48 100644
--- a/src/pusher/pusherHC.cpp
+++ b/src/pusher/pusherHC.cpp
@@ -72,7 +72,7 @@ void PusherHC::operator()()
       um += psm;
       // Intermediate gamma factor: only this part differs from the Boris scheme
       // Square Gamma factor from um
-      double gfm2 = (1. + um.length2());
+      double gfm2 = (1. + um.length2() / LIGHT_VEL_POW_2);
 
       b *= charge_over_2mass_dt * MAGN_CONST;
       B2 = b.length2();
@@ -82,7 +82,7 @@ void PusherHC::operator()()
                                 sqrt ( pow( gfm2 - B2, 2 )
                                        + 4.0 * ( B2 + pow( b[0]*um[0]
                                                            + b[1]*um[1]
-                                                           + b[2]*um[2], 2 ) ) ) ) );
+                                                           + b[2]*um[2], 2 ) / LIGHT_VEL_POW_2 ) ) ) );
 
       b *= gamma;
       b2 = b;
@@ -91,10 +91,10 @@ void PusherHC::operator()()
       b_cross[0] = b[0]*b[1];
       b_cross[1] = b[1]*b[2];
       b_cross[2] = b[2]*b[0];
-      double inv_det_B = 1.0/( 1.0+b2[0]+b2[1]+b2[0] );
+      double inv_det_B = 1.0/( 1.0+b2[0]+b2[1]+b2[2] );
 
       up[0] = ( ( 1.0+b2[0]-b2[1]-b2[2] ) * um[0] + 2. * ( b_cross[0]+b[2] )
-                * um[1] + 2. * ( b_cross[2] - b[2] ) * um[2] ) * inv_det_B;
+                * um[1] + 2. * ( b_cross[2] - b[1] ) * um[2] ) * inv_det_B;
       up[1] = ( 2. * ( b_cross[0]-b[2] ) * um[0] + ( 1. - b2[0]+b2[1]-b2[2] )
                 * um[1] + 2. * ( b_cross[1] + b[0] ) * um[2] ) * inv_det_B;
       up[2] = ( 2. * ( b_cross[2] + b[1] ) * um[0] + 2. * ( b_cross[1] - b[0] )
-- 
2.43.0


From d795d3f5d8445c42f3d79413352aa97c6ec0f003 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:13:16 +0000
Subject: [PATCH 05/67] fix: Vay pusher normalises momentum by c in its Lorentz
 factor

---
 src/pusher/pusherVay.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pusher/pusherVay.cpp b/src/pusher/pusherVay.cpp
index 025c5b8..299a080 100644
--- a/src/pusher/pusherVay.cpp
+++ b/src/pusher/pusherVay.cpp
@@ -78,7 +78,7 @@ void PusherVay::operator()()
       uplocity[2] += gamma * ( velocity[0] * b[1] - velocity[1] * b[0] );
 
       // alpha is gamma^2
-      alpha = 1. + uplocity.length2();
+      alpha = 1. + uplocity.length2() / LIGHT_VEL_POW_2;
       B2 = b.length2();
 
       //
@@ -88,7 +88,7 @@ void PusherVay::operator()()
       // s is sigma
       s = alpha - B2;
       // TODO: implement * operator for vector3d
-      us2 = pow(uplocity.dot(b), 2);
+      us2 = pow(uplocity.dot(b), 2) / LIGHT_VEL_POW_2;
 
       // alpha becomes 1/gamma^{i+1}
       alpha = 1. / sqrt( 0.5 * ( s + sqrt( s * s + 4. * ( B2 + us2 ) ) ) );
-- 
2.43.0


From e553556ba8b62a9e477a04962eaf4f0c6a82eaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:27 +0000
Subject: [PATCH 06/67] fix: external electric and magnetic profiles are
 selected by name and do not erase each other

---
 src/maxwellSolver/externalFields.cpp | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/maxwellSolver/externalFields.cpp b/src/maxwellSolver/externalFields.cpp
index 438e2d6..80e3b9b 100644
--- a/src/maxwellSolver/externalFields.cpp
+++ b/src/maxwellSolver/externalFields.cpp
@@ -48,17 +48,17 @@ ExternalFields::ExternalFields ( Geometry *_geometry, TimeSim *_time,
     z_end = geometry->cell_amount[1];
 
   // set electric and magnetic profiles
-  if ( _el_field_profile.compare("none") )
+  if ( _el_field_profile.compare("none") == 0 )
     e_profile_enum = 0;
-  else if ( _el_field_profile.compare("const_r") )
+  else if ( _el_field_profile.compare("const_r") == 0 )
     e_profile_enum = 1;
-  else if ( _el_field_profile.compare("const_phi") )
+  else if ( _el_field_profile.compare("const_phi") == 0 )
     e_profile_enum = 2;
-  else if ( _el_field_profile.compare("const_z") )
+  else if ( _el_field_profile.compare("const_z") == 0 )
     e_profile_enum = 3;
-  else if ( _el_field_profile.compare("linerad_r") )
+  else if ( _el_field_profile.compare("linerad_r") == 0 )
     e_profile_enum = 4;
-  else if ( _el_field_profile.compare("linerad_z") )
+  else if ( _el_field_profile.compare("linerad_z") == 0 )
     e_profile_enum = 5;
   else
     LOG_S(FATAL) << "There is no magnetic field profile, named ``" << _el_field_profile;
@@ -229,10 +229,6 @@ void ExternalFields::set_pml()
 
 void ExternalFields::set_el_field_homogenous_z ()
 {
-  // set magnetic field to 0
-  field_h = 0;
-  field_h.overlay_set(0);
-
   // set electric field's overlay to 0
   field_e = 0; // reset electric field
   field_e.overlay_set(0);
@@ -278,12 +274,8 @@ void ExternalFields::set_el_field_homogenous_z ()
 
 void ExternalFields::set_magn_field_homogenous_z ()
 {
-  // set magnetic field to 0
-  field_e = 0;
-  field_e.overlay_set(0);
-
-  // set electric field's overlay to 0
-  field_h = 0; // reset electric field
+  // set magnetic field's overlay to 0
+  field_h = 0; // reset magnetic field
   field_h.overlay_set(0);
 
   double dr = geometry->cell_size[0];
-- 
2.43.0


From 27ca78a215a1820d5e32bb09ef0b05d14746c952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:16 +0000
Subject: [PATCH 07/67] fix: velocity returns to the r-z plane by the
 particle's own turn, keeping angular momentum

---
 src/specieP.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index 1999711..6e15ec4 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -632,8 +632,8 @@ void SpecieP::back_velocity_to_rz()
     double v_r = P_VEL_R((**p));
     double v_phi = P_VEL_PHI((**p));
 
-    double u_2 = cos * v_r - sin * v_phi;
-    double v_2 = sin * v_r + cos * v_phi;
+    double u_2 = cos * v_r + sin * v_phi;
+    double v_2 = cos * v_phi - sin * v_r;
     P_VEL_R((**p)) = u_2;
     P_VEL_PHI((**p)) = v_2;
   }
-- 
2.43.0


From a30a3f97ea110fe56ea5f284c2f2d5af34057eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:16 +0000
Subject: [PATCH 08/67] fix: particles exactly on the local origin are
 reflected at walls too

---
 src/specieP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index 6e15ec4..f70138a 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -519,7 +519,7 @@ void SpecieP::reflect ()
     double pos_delta_z = pos_z - pos_old_z;
 
     while ( // catch multiple reflections
-      isnormal(pos_r) && isnormal(pos_z) && // ensure, that position components are not NANs
+      isfinite(pos_r) && isfinite(pos_z) && // ensure, that position components are not NANs
       (
         (pos_r > radius_wall && geometry->walls[2])
         || (pos_z > longitude_wall && geometry->walls[3])
-- 
2.43.0


From 8e7a6c3ea76f6932500440046ffaca821576f399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:02 +0000
Subject: [PATCH 09/67] fix: density weighting divides a node by the same
 volume from both sides

---
 include/algo/weighter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/algo/weighter.hpp b/include/algo/weighter.hpp
index 5891039..ea5273c 100644
--- a/include/algo/weighter.hpp
+++ b/include/algo/weighter.hpp
@@ -44,7 +44,7 @@ void weight_cylindrical(Geometry *geometry, Grid<T> *grid, double pos_r, double
 
   // volumes
   T v_1 = CELL_VOLUME(r_i, dr, dz);
-  T v_2 = CELL_VOLUME(r_i + 1, dr, dz);
+  T v_2 = CELL_VOLUME((r_i + 1), dr, dz);
 
   if (pos_r > dr)
   {
@@ -109,7 +109,7 @@ void weight_cylindrical(Geometry *geometry, Grid<T> *grid, double pos_r, double
     dz2 = (pos_z + 0.5 * dz) - (z_k + 0.5) * dz;
     v_0 = 2. * constant::PI * dz * dr * pos_r;
     v_1 = CYL_VOL(dz, dr);
-    v_2 = CELL_VOLUME(r_i + 1, dr, dz);
+    v_2 = CELL_VOLUME((r_i + 1), dr, dz);
 
     rho_w_value = weight_value / v_0;
 
-- 
2.43.0


From ea704eacb0d93138ce21d4019da37c494b13588a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:02 +0000
Subject: [PATCH 10/67] fix: a particle exactly one cell from the axis is
 weighted with the volume of its own cell

---
 include/algo/weighter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/algo/weighter.hpp b/include/algo/weighter.hpp
index ea5273c..582f018 100644
--- a/include/algo/weighter.hpp
+++ b/include/algo/weighter.hpp
@@ -46,7 +46,7 @@ void weight_cylindrical(Geometry *geometry, Grid<T> *grid, double pos_r, double
   T v_1 = CELL_VOLUME(r_i, dr, dz);
   T v_2 = CELL_VOLUME((r_i + 1), dr, dz);
 
-  if (pos_r > dr)
+  if (pos_r >= dr)
   {
     r1 =  pos_r - 0.5 * dr;
     r2 = (r_i + 0.5) * dr;
-- 
2.43.0


From d52ec8a77ccc270a227d61358e34a00a36a4eb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:16 +0000
Subject: [PATCH 11/67] fix: momentum maps use the Lorentz factor for fast
 particles, not for slow ones

---
 src/specieP.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index f70138a..577fe75 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -729,7 +729,7 @@ void SpecieP::calc_momentum_abs_w()
 
     double p_abs = mass * P_WEIGHT((**i)) * v_abs;
 
-    if (v_abs < REL_LIMIT)
+    if (v_abs > REL_LIMIT)
     {
       double gamma = phys::rel::lorenz_factor(pow(v_abs, 2));
       p_abs *= gamma;
@@ -761,7 +761,7 @@ void SpecieP::calc_momentum_w()
 
     // check for relativistic case
     double v_abs_2 = pow(v_r, 2) + pow(v_phi, 2) + pow(v_z, 2);
-    if (v_abs_2 < REL_LIMIT_POW_2)
+    if (v_abs_2 > REL_LIMIT_POW_2)
     {
       double gamma = phys::rel::lorenz_factor(v_abs_2);
       p_r *= gamma;
-- 
2.43.0


From ca056ec870462dc9ed2313d7d38a4d80a35fb769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:16 +0000
Subject: [PATCH 12/67] fix: temperature map computes the mean absolute
 momentum it is based on

---
 src/specieP.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index 577fe75..7b98b8f 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -683,7 +683,8 @@ void SpecieP::calc_temperature()
 
   // calculate density initially
   calc_density();
-  calc_momentum_w(); // calculates absolute momentum values also
+  calc_momentum_abs_w();
+  calc_momentum_w();
 
   for (int r = 0; r < geometry->cell_amount[0]; r++)
     for (int z = 0; z < geometry->cell_amount[1]; z++)
-- 
2.43.0


From 749ed56878fb9380d8097ef618b13142e9d70a7a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:37:22 +0000
Subject: [PATCH 13/67] fix: longitudinal motion does not erase the radial
 current of other particles

---
 src/current/currentVB.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 3c248b9..28a267f 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -543,11 +543,6 @@ void CurrentVB::strict_motion_distribution(double radius_new,
       / (delta_t * 2 * PI * (i_n + 1) * dr * dr)
       * PI * (r3 * r3 - r2 * r2) / value_part;
 
-    // this_j->inc_j_r(i_n, k_n, 0.);
-    // this_j->inc_j_r(i_n, k_n + 1,0.);
-    current[0].set(i_n_shift, k_n_shift, 0.);
-    current[0].set(i_n_shift, k_n_shift + 1, 0.);
-
     int res_k = k_n - k_o;
 
     switch(res_k)
-- 
2.43.0


From 93fdd028bc27c89445a12dc332d2ccbdf42af6e2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:37:22 +0000
Subject: [PATCH 14/67] fix: radial motion across a cell border divides by the
 border radius

---
 src/current/currentVB.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 28a267f..bb36926 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -665,7 +665,7 @@ void CurrentVB::strict_motion_distribution(double radius_new,
 
       wj = some_shit_density
         * (delta_r - r0 * r0 / (i_n * dr + delta_r)
-           + r0 * r0 / i_n * dr
+           + r0 * r0 / (i_n * dr)
            + dr * dr / (4. * (i_n * dr + delta_r))
            - dr * dr / (4. * i_n * dr));
 
@@ -706,7 +706,7 @@ void CurrentVB::strict_motion_distribution(double radius_new,
 
       wj = some_shit_density
         * (delta_r - r0 * r0 / ((i_n + 1) * dr + delta_r)
-           + r0 * r0 / (i_n + 1) * dr
+           + r0 * r0 / ((i_n + 1) * dr)
            + dr * dr / (4. * ((i_n + 1) * dr + delta_r))
            - dr * dr / (4. * (i_n + 1) * dr));
 
-- 
2.43.0


From 8153c9099d36723130eec23fab1638de71433330 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:37:22 +0000
Subject: [PATCH 15/67] fix: moves over more than one cell along z are reported
 like those along r

---
 src/current/currentVB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index bb36926..075fb37 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -196,7 +196,7 @@ void CurrentVB::rz_current_distribution()
 
       int res_cell = abs(i_n - i_o) + abs(k_n - k_o);
 
-      if (abs (i_n - i_o) > 1 || abs (i_n - i_o) > 1)
+      if (abs (i_n - i_o) > 1 || abs (k_n - k_o) > 1)
       {
         LOG_S(ERROR) << "rz_current_distribution: can not weight particle's currents. It moved to more than one grid cell. Particle's position (r_old:r_new, z_old:z_new): "
                      << i_o << ":" << i_n << ", "
-- 
2.43.0


From 134aac5ee2d64d0bef4da94458dc38d939d7c74d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:37:22 +0000
Subject: [PATCH 16/67] fix: a move exactly through a grid corner deposits its
 current

---
 src/current/currentVB.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 075fb37..4ba1287 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -301,7 +301,7 @@ void CurrentVB::rz_current_distribution()
                 simple_current_distribution(r2, z2, r1, z1, i_n, k_n-1, p_charge);
                 simple_current_distribution(P_POS_R((**i)), P_POS_Z((**i)), r2, z2, i_n, k_n, p_charge);
               }
-              else if (z1>k_n * dz)
+              else
               {
                 simple_current_distribution(r2, z2 ,P_POS_OLD_R((**i)), P_POS_OLD_Z((**i)), i_n-1, k_n-1, p_charge);
                 simple_current_distribution(r1, z1, r2, z2,i_n-1, k_n, p_charge);
@@ -325,7 +325,7 @@ void CurrentVB::rz_current_distribution()
                 simple_current_distribution(r2, z2, r1, z1, i_n, k_n + 1, p_charge);
                 simple_current_distribution(P_POS_R((**i)), P_POS_Z((**i)), r2, z2, i_n, k_n, p_charge);
               }
-              else if (z1<(k_n + 1) * dz)
+              else
               {
                 simple_current_distribution(r2, z2 ,P_POS_OLD_R((**i)), P_POS_OLD_Z((**i)), i_n-1, k_n + 1, p_charge);
                 simple_current_distribution(r1, z1, r2, z2,i_n-1, k_n, p_charge);
@@ -354,7 +354,7 @@ void CurrentVB::rz_current_distribution()
                 simple_current_distribution(r2, z2, r1, z1, i_n, k_n-1, p_charge);
                 simple_current_distribution(P_POS_R((**i)), P_POS_Z((**i)), r2, z2, i_n, k_n, p_charge);
               }
-              else if (z1>(k_n) * dz)
+              else
               {
                 simple_current_distribution(r2, z2 ,P_POS_OLD_R((**i)), P_POS_OLD_Z((**i)), i_n + 1, k_n-1, p_charge);
                 simple_current_distribution(r1, z1, r2, z2,i_n + 1, k_n, p_charge);
@@ -380,7 +380,7 @@ void CurrentVB::rz_current_distribution()
                 simple_current_distribution(r2, z2, r1, z1, i_n, k_n + 1, p_charge);
                 simple_current_distribution(P_POS_R((**i)), P_POS_Z((**i)), r2, z2, i_n, k_n, p_charge);
               }
-              else if (z1<(k_n + 1) * dz)
+              else
               {
                 simple_current_distribution(r2, z2, P_POS_OLD_R((**i)), P_POS_OLD_Z((**i)), i_n + 1, k_n + 1, p_charge);
                 simple_current_distribution(r1, z1, r2, z2,i_n + 1, k_n, p_charge);
-- 
2.43.0


From 01e5f627cd4dbaa0c848fd953e099688f77ca0d6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:37:22 +0000
Subject: [PATCH 17/67] fix: an inward move from exactly on a cell border is
 split at that border

---
 src/current/currentVB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 4ba1287..26b1eec 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -224,7 +224,7 @@ void CurrentVB::rz_current_distribution()
           if ((i_n != i_o) && (k_n == k_o))
           {
             // moving to center from outer to innter cell
-            if (P_POS_OLD_R((**i)) > (i_n + 1) * dr)
+            if (i_o > i_n)
             {
               double a = (P_POS_OLD_R((**i)) - P_POS_R((**i))) / (P_POS_OLD_Z((**i)) - P_POS_Z((**i)));
               double r_boundary = (i_n + 1) * dr;
-- 
2.43.0


From 1d32aa217bf8c5e7c497f1587fd9a3edc5f3bfba Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:37:22 +0000
Subject: [PATCH 18/67] fix: radial and longitudinal currents do not erase the
 azimuthal current in the overlay

---
 src/current/currentVB.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 26b1eec..2c4d781 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -174,8 +174,6 @@ void CurrentVB::simple_current_distribution(double radius_new,
 
 void CurrentVB::rz_current_distribution()
 {
-  current.overlay_set(0);
-
   double dr = geometry->cell_size[0];
   double dz = geometry->cell_size[1];
 
-- 
2.43.0


From 8f5457b120af352815ccfe5655d1741b712e0505 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:37:22 +0000
Subject: [PATCH 19/67] fix: azimuthal current divides a node by the same
 volume from both sides

---
 src/current/currentVB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 2c4d781..2b035c1 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -415,7 +415,7 @@ void CurrentVB::azimuthal_current_distribution()
       int z_k = P_CELL_Z((**i));
 
       double v_1 = CELL_VOLUME(r_i, dr, dz);  // volume of [i][k] cell
-      double v_2 = CELL_VOLUME(r_i + 1, dr, dz);  // volume of [i + 1][k] cell
+      double v_2 = CELL_VOLUME((r_i + 1), dr, dz);  // volume of [i + 1][k] cell
 
       double p_charge = (**ps).charge * P_WEIGHT((**i));
 
-- 
2.43.0


From 464390392dbbd4a0a9e253caac0dc0ac2a752c2a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:37:22 +0000
Subject: [PATCH 20/67] fix: azimuthal current is weighted around the cell of
 the position it is taken at

---
 src/current/currentVB.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 2b035c1..6ea1abf 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -411,8 +411,10 @@ void CurrentVB::azimuthal_current_distribution()
       double wj; // j_phi in cell
 
       // finding number of i and k cell
-      int r_i = P_CELL_R((**i));
-      int z_k = P_CELL_Z((**i));
+      double pos_r = (P_POS_R((**i)) + P_POS_OLD_R((**i))) / 2;
+      double pos_z = (P_POS_Z((**i)) + P_POS_OLD_Z((**i))) / 2;
+      int r_i = CELL_NUMBER(pos_r, dr);
+      int z_k = CELL_NUMBER(pos_z, dz);
 
       double v_1 = CELL_VOLUME(r_i, dr, dz);  // volume of [i][k] cell
       double v_2 = CELL_VOLUME((r_i + 1), dr, dz);  // volume of [i + 1][k] cell
@@ -423,8 +425,6 @@ void CurrentVB::azimuthal_current_distribution()
       int r_i_shift = r_i - geometry->cell_dims[0];
       int z_k_shift = z_k - geometry->cell_dims[1];
 
-      double pos_r = (P_POS_R((**i)) + P_POS_OLD_R((**i))) / 2;
-      double pos_z = (P_POS_Z((**i)) + P_POS_OLD_Z((**i))) / 2;;
       // in first cell other alg. of ro_v calc
       if(pos_r > dr)
       {
-- 
2.43.0


From 83820dcc9f68bf28e0d892e0ebd7ba09c676bdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:19 +0000
Subject: [PATCH 21/67] fix: ZigZag current splits a move between nodes by
 fractions of a cell, not by metres

---
 src/current/currentZigZag.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/current/currentZigZag.cpp b/src/current/currentZigZag.cpp
index 0bfd07c..746d4d3 100644
--- a/src/current/currentZigZag.cpp
+++ b/src/current/currentZigZag.cpp
@@ -78,10 +78,10 @@ void CurrentZigZag::current_distribution()
       double F_z1 = charge_over_dt * (z_relay_pos - z_pos_old);
       double F_z2 = charge_over_dt * (z_pos_new - z_relay_pos);
 
-      double W_r1 = (r_pos_old + r_relay_pos) / 2 - i_o * dr;
-      double W_r2 = (r_pos_new + r_relay_pos) / 2 - i_n * dr;
-      double W_z1 = (z_pos_old + z_relay_pos) / 2 - k_o * dz;
-      double W_z2 = (z_pos_new + z_relay_pos) / 2 - k_n * dz;
+      double W_r1 = ((r_pos_old + r_relay_pos) / 2 - i_o * dr) / dr;
+      double W_r2 = ((r_pos_new + r_relay_pos) / 2 - i_n * dr) / dr;
+      double W_z1 = ((z_pos_old + z_relay_pos) / 2 - k_o * dz) / dz;
+      double W_z2 = ((z_pos_new + z_relay_pos) / 2 - k_n * dz) / dz;
 
       double one_minus_Wr1 = 1 - W_r1;
       double one_minus_Wr2 = 1 - W_r2;
-- 
2.43.0


From b099019d97d5b74008b673fd8f322d6ff2216276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:19 +0000
Subject: [PATCH 22/67] fix: ZigZag azimuthal current takes both longitudinal
 weights from the same segment

---
 src/current/currentZigZag.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/current/currentZigZag.cpp b/src/current/currentZigZag.cpp
index 746d4d3..7b897cd 100644
--- a/src/current/currentZigZag.cpp
+++ b/src/current/currentZigZag.cpp
@@ -101,7 +101,7 @@ void CurrentZigZag::current_distribution()
       // Let \f$ \phi_{relay} = \phi_{1} = 0
       // because geometry is axisymmetric
       double Jphi_i_jh_k = one_over_volume * F_phi * one_minus_Wr2 * one_minus_Wz2;
-      double Jphi_i_jh_k_1 = one_over_volume * F_phi * one_minus_Wr2 * W_z1;
+      double Jphi_i_jh_k_1 = one_over_volume * F_phi * one_minus_Wr2 * W_z2;
       double Jphi_i_1_jh_k = one_over_volume * F_phi * W_r2 * one_minus_Wz2;
       double Jphi_i_1_jh_k_1 = one_over_volume * F_phi * W_r2 * W_z2;
 
-- 
2.43.0


From 29bde01782093d174922bb91a71165d72efe14b6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:48:13 +0000
Subject: [PATCH 23/67] fix: injected beam particles get the longitudinal cell
 of their own longitude

---
 src/beamP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/beamP.cpp b/src/beamP.cpp
index caeda24..aedef1e 100644
--- a/src/beamP.cpp
+++ b/src/beamP.cpp
@@ -134,7 +134,7 @@ void BeamP::inject()
 
         // set cell numbers
         int r_cell = CELL_NUMBER(P_POS_R((*v)), geometry->cell_size[0]);
-        int z_cell = CELL_NUMBER(P_POS_R((*v)), geometry->cell_size[1]);
+        int z_cell = CELL_NUMBER(P_POS_Z((*v)), geometry->cell_size[1]);
 
         P_CELL_R((*v)) = r_cell;
         P_CELL_Z((*v)) = z_cell;
-- 
2.43.0


From 8efdc9d25b1248ad9c14a1a9e419867d9f499025 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:48:13 +0000
Subject: [PATCH 24/67] fix: every domain of a beam goes on to its next bunch,
 not only the one at the axis

---
 src/beamP.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/beamP.cpp b/src/beamP.cpp
index aedef1e..6d42225 100644
--- a/src/beamP.cpp
+++ b/src/beamP.cpp
@@ -146,11 +146,11 @@ void BeamP::inject()
     }
 
     // increase current bunch number after whole bunch injection
-    if (time->current > bunch_finish_time
-        && geometry->cell_dims[1] == 0 // print message only for domain 0,0
-        && geometry->cell_dims[0] == 0)
+    if (time->current > bunch_finish_time)
     {
-      LOG_S(MAX) << "Bunch #" << current_bunch_number << " of beam ``" << name << "'' has been injected";
+      if (geometry->cell_dims[1] == 0 // print message only for domain 0,0
+          && geometry->cell_dims[0] == 0)
+        LOG_S(MAX) << "Bunch #" << current_bunch_number << " of beam ``" << name << "'' has been injected";
       ++current_bunch_number;
     }
   }
-- 
2.43.0


From 211e2ae4fb0537f693494fb0aca0724430879861 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:49:16 +0000
Subject: [PATCH 25/67] fix: a bunch gets its own number of macroparticles, not
 one more in every step

---
 include/beamP.hpp | 1 +
 src/beamP.cpp     | 8 +++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/beamP.hpp b/include/beamP.hpp
index 9d967a7..aeb2ad1 100644
--- a/include/beamP.hpp
+++ b/include/beamP.hpp
@@ -38,6 +38,7 @@ public:
   double bunch_length;
   double bunch_macro_amount;
   double macro_per_step_to_inject;
+  double macro_pending; // fraction of macroparticle, left from previous steps
   double domain_radius;
 
 public:
diff --git a/src/beamP.cpp b/src/beamP.cpp
index 6d42225..89e1c9c 100644
--- a/src/beamP.cpp
+++ b/src/beamP.cpp
@@ -66,6 +66,7 @@ BeamP::BeamP (unsigned int id, // ID for every particles specie
   bunch_macro_amount = macro_amount / bunches_amount * macro_normalizer;
 
   macro_per_step_to_inject = bunch_macro_amount * velocity * time->step / bunch_length;
+  macro_pending = 0;
 }
 
 void BeamP::inject()
@@ -97,7 +98,12 @@ void BeamP::inject()
       double N_total = PI * radius * radius * bunch_length * bunches_amount * density;
       double n_per_macro_avg = N_total / macro_amount;
 
-      for (unsigned int i = 0; i < macro_per_step_to_inject; ++i)
+      // inject whole macroparticles only, keep the fraction for the next step
+      macro_pending += macro_per_step_to_inject;
+      unsigned int macro_amount_now = floor(macro_pending);
+      macro_pending -= macro_amount_now;
+
+      for (unsigned int i = 0; i < macro_amount_now; ++i)
       {
         Particle *v = new Particle();
         P_SPECIE_ID((*v)) = id;
-- 
2.43.0


From cb5e5c0d8bfe440502b0b1a452b5bd7849baefc4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:12:42 +0000
Subject: [PATCH 26/67] fix: domains that touch at the other corner overlay
 their currents and fields too

---
 include/algo/grid.hpp   | 19 +++++++++++++++++++
 include/algo/grid3d.hpp |  7 +++++++
 src/SMB.cpp             | 19 +++++++++++++++++++
 3 files changed, 45 insertions(+)

diff --git a/include/algo/grid.hpp b/include/algo/grid.hpp
index ff18a30..07c4cc4 100644
--- a/include/algo/grid.hpp
+++ b/include/algo/grid.hpp
@@ -150,6 +150,25 @@ public:
     }
   };
 
+  void overlay_yx(Grid<T> rhsgrid)
+  // overlay with the grid, placed next by x and previous by y
+  {
+    if (x_real_size == rhsgrid.x_real_size && y_real_size == rhsgrid.y_real_size)
+      for (unsigned int d = 0; d < o_s; ++d)
+        for (unsigned int e = 0; e < o_s; ++e)
+        {
+          rhsgrid.grid[2*o_s-d-1][y_real_size-2*o_s+e] += grid[x_real_size-1-d][e];
+          grid[x_real_size-2*o_s+d][2*o_s-e-1] += rhsgrid.grid[d][y_real_size-1-e];
+
+          rhsgrid.grid[d][y_real_size-1-e] = grid[x_real_size-2*o_s+d][2*o_s-e-1];
+          grid[x_real_size-1-d][e] = rhsgrid.grid[2*o_s-1-d][y_real_size-2*o_s+e];
+        }
+    else
+    {
+      LOG_S(FATAL) << "overlay_yx: X or Y sizes of bottom-right and top-left grid are not equal. Can not overlay";
+    }
+  };
+
   void copy(Grid<T> rhs)
   // fully copy rhs grid to current grid element-by-element
   {
diff --git a/include/algo/grid3d.hpp b/include/algo/grid3d.hpp
index b525241..8e0899e 100644
--- a/include/algo/grid3d.hpp
+++ b/include/algo/grid3d.hpp
@@ -61,6 +61,13 @@ public:
     z_component.overlay_xy(trgrid.z_component);
   };
 
+  void overlay_yx(Grid3D<T> tlgrid)
+  {
+    r_component.overlay_yx(tlgrid.r_component);
+    phi_component.overlay_yx(tlgrid.phi_component);
+    z_component.overlay_yx(tlgrid.z_component);
+  };
+
   void overlay_set(T value)
   {
     r_component.overlay_set(value);
diff --git a/src/SMB.cpp b/src/SMB.cpp
index b3677ba..ee460a0 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -592,6 +592,12 @@ void SMB::current_overlay ()
             Domain *dst_domain = domains(i + 1, j + 1);
             sim_domain->current->current.overlay_xy(dst_domain->current->current);
           }
+
+          if (i < geometry->domains_amount[0] - 1 && j > 0)
+          {
+            Domain *dst_domain = domains(i + 1, j - 1);
+            sim_domain->current->current.overlay_yx(dst_domain->current->current);
+          }
         }
     }
 
@@ -819,6 +825,13 @@ void SMB::field_h_overlay ()
             sim_domain->maxwell_solver->field_h.overlay_xy(dst_domain->maxwell_solver->field_h);
             sim_domain->maxwell_solver->field_h_at_et.overlay_xy(dst_domain->maxwell_solver->field_h_at_et);
           }
+
+          if (i < geometry->domains_amount[0] - 1 && j > 0)
+          {
+            Domain *dst_domain = domains(i + 1, j - 1);
+            sim_domain->maxwell_solver->field_h.overlay_yx(dst_domain->maxwell_solver->field_h);
+            sim_domain->maxwell_solver->field_h_at_et.overlay_yx(dst_domain->maxwell_solver->field_h_at_et);
+          }
         }
     }
 
@@ -1040,6 +1053,12 @@ void SMB::field_e_overlay ()
             Domain *dst_domain = domains(i + 1, j + 1);
             sim_domain->maxwell_solver->field_e.overlay_xy(dst_domain->maxwell_solver->field_e);
           }
+
+          if (i < geometry->domains_amount[0] - 1 && j > 0)
+          {
+            Domain *dst_domain = domains(i + 1, j - 1);
+            sim_domain->maxwell_solver->field_e.overlay_yx(dst_domain->maxwell_solver->field_e);
+          }
         }
     }
 
-- 
2.43.0


From d87c8ca05c35d5a43d9ecd4fd91e8c547187a66a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:35:11 +0000
Subject: [PATCH 27/67] fix: a rectangular probe that only touches a domain is
 not written by it

---
 src/outController.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/outController.cpp b/src/outController.cpp
index aeaf1de..ac34c44 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -89,10 +89,10 @@ OutController::OutController ( Geometry *_geometry, TimeSim *_time,
         // check if probe possition intersects the domain
         if (
           ( prb->shape == 0                      // condition for rec
-            && prb_size[0] <= domain_size[2]
-            && prb_size[1] <= domain_size[3]
-            && prb_size[2] >= domain_size[0]
-            && prb_size[3] >= domain_size[1] )
+            && prb_size[0] < domain_size[2]
+            && prb_size[1] < domain_size[3]
+            && prb_size[2] > domain_size[0]
+            && prb_size[3] > domain_size[1] )
           || ( prb->shape == 1                    // condition for column
                && prb_size[3] >= domain_size[1]
                && prb_size[3] <= domain_size[3]
-- 
2.43.0


From f638a132660f0a0f04b2e535fcfe62b75d585fbf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:35:11 +0000
Subject: [PATCH 28/67] fix: the step of a dump is the nearest one, rounding of
 the clock does not move it

---
 src/msg.cpp           | 2 +-
 src/outController.cpp | 2 +-
 src/outWriter.cpp     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/msg.cpp b/src/msg.cpp
index d833cfa..bf2a003 100644
--- a/src/msg.cpp
+++ b/src/msg.cpp
@@ -49,7 +49,7 @@ namespace msg
                      unsigned int probe_schedule, TimeSim *time)
   {
 #ifndef ENABLE_DEBUG
-    int current_time_step = ceil(time->current / time->step);
+    int current_time_step = round(time->current / time->step);
     std::string dump_step = std::to_string((int)current_time_step / probe_schedule);
     std::ostringstream time_conv;
     time_conv << time->current;
diff --git a/src/outController.cpp b/src/outController.cpp
index ac34c44..3ea75a9 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -338,7 +338,7 @@ void OutController::init_datasets()
     OutEngineHDF5 engine (hdf5_file, prb->path, hdf5_prb_size, offset, true, false);
 #endif // end of ENABLE_HDF5
 
-    int current_time_step = ceil(time->current / time->step);
+    int current_time_step = round(time->current / time->step);
     int is_run = current_time_step % prb->schedule;
 
     if (is_run == 0)
diff --git a/src/outWriter.cpp b/src/outWriter.cpp
index 6dc3912..78b0d9a 100644
--- a/src/outWriter.cpp
+++ b/src/outWriter.cpp
@@ -48,7 +48,7 @@ OutWriter::OutWriter ( HighFive::File* _file, string _path, unsigned short _shap
 
 void OutWriter::operator()()
 {
-  int current_time_step = ceil(time->current / time->step);
+  int current_time_step = round(time->current / time->step);
   int is_run = current_time_step % schedule;
 
   if (is_run == 0)
-- 
2.43.0


From 21dc9a83aa3370164baeb4aa7c5cd6d629bc65e1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:35:11 +0000
Subject: [PATCH 29/67] fix: probes of one group can be created in the same
 file

---
 src/outEngine/outEngineHDF5.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/outEngine/outEngineHDF5.cpp b/src/outEngine/outEngineHDF5.cpp
index 446e415..e00f577 100644
--- a/src/outEngine/outEngineHDF5.cpp
+++ b/src/outEngine/outEngineHDF5.cpp
@@ -118,14 +118,11 @@ void OutEngineHDF5::write_dot(size_t _num, double data)
 
 void OutEngineHDF5::create_dataset()
 {
-  string group_name = path.substr(0, path.find_last_of("\\/"));
+  // group can be already created by another probe
+  create_path();
 
   try
   {
-    LOG_S(MAX) << "Creating group ``" << group_name << "''";
-    Group group_instance = data_file->createGroup('/' + group_name);
-    LOG_S(MAX) << "Group ``" << group_name << "'' created";
-
     std::vector<size_t> dims_init = {1};
     std::vector<size_t> dims_final = {DataSpace::UNLIMITED};
     for (unsigned int i=0; i < size.size(); ++i)
-- 
2.43.0


From 8892a7faf77e6fb5369370afc6e02e4d6a3ad341 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:35:11 +0000
Subject: [PATCH 30/67] fix: density dumped at a corner counts particles of the
 diagonal domains

---
 src/outController.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/outController.cpp b/src/outController.cpp
index 3ea75a9..36b9ecd 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -483,11 +483,26 @@ void OutController::init_datasets()
               speciep->temperature_map.overlay_y(speciep_dst->temperature_map);
           }
 
-          // if (i < geometry_global->domains_amount[0] - 1 && j < geometry_global->domains_amount[1] - 1)
-          // {
-          //   Domain *dst_domain = smb->domains(i + 1, j + 1);
-          //   sim_domain->current->current.overlay_xy(dst_domain->current->current);
-          // }
+          // density at the corners belongs to the diagonal domains too
+          if (prb->component.compare("density") == 0
+              && i < geometry->domains_amount[0] - 1)
+          {
+            if (j < geometry->domains_amount[1] - 1)
+            {
+              Domain *dst_domain = smb->domains(i + 1, j + 1);
+              for (auto ps = dst_domain->species_p.begin(); ps != dst_domain->species_p.end(); ++ps)
+                if (prb->specie.compare((**ps).name) == 0)
+                  speciep->density_map.overlay_xy((**ps).density_map);
+            }
+
+            if (j > 0)
+            {
+              Domain *dst_domain = smb->domains(i + 1, j - 1);
+              for (auto ps = dst_domain->species_p.begin(); ps != dst_domain->species_p.end(); ++ps)
+                if (prb->specie.compare((**ps).name) == 0)
+                  speciep->density_map.overlay_yx((**ps).density_map);
+            }
+          }
         }
       if (print_progress_table)
         msg::print_values (prb->path, shape_name, prb->schedule, time);
-- 
2.43.0


From 14a60319dcd07e743e2ae9fee3981b2549819df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:30 +0000
Subject: [PATCH 31/67] fix: density keeps its overlay when other maps of the
 specie are dumped in the same step

---
 src/outController.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/outController.cpp b/src/outController.cpp
index 36b9ecd..8ab57e0 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -443,9 +443,10 @@ void OutController::init_datasets()
                            << prb->specie
                            << "'' in destination domain, while overlaying for probe dump. Exiting";
 
-            if (prb->component.compare("density") == 0)
-              speciep->density_map.overlay_x(speciep_dst->density_map);
-            else if (prb->component.compare("temperature") == 0)
+            // density is recalculated for every component of the specie
+            speciep->density_map.overlay_x(speciep_dst->density_map);
+
+            if (prb->component.compare("temperature") == 0)
               speciep->temperature_map.overlay_x(speciep_dst->temperature_map);
             else if (prb->component.compare("energy") == 0)
               speciep->energy_map.overlay_x(speciep_dst->energy_map);
@@ -477,15 +478,15 @@ void OutController::init_datasets()
                            << prb->specie
                            << "'' in destination domain, while overlaying for probe dump. Exiting";
 
-            if (prb->component.compare("density") == 0)
-              speciep->density_map.overlay_y(speciep_dst->density_map);
-            else if (prb->component.compare("temperature") == 0)
+            // density is recalculated for every component of the specie
+            speciep->density_map.overlay_y(speciep_dst->density_map);
+
+            if (prb->component.compare("temperature") == 0)
               speciep->temperature_map.overlay_y(speciep_dst->temperature_map);
           }
 
           // density at the corners belongs to the diagonal domains too
-          if (prb->component.compare("density") == 0
-              && i < geometry->domains_amount[0] - 1)
+          if (i < geometry->domains_amount[0] - 1)
           {
             if (j < geometry->domains_amount[1] - 1)
             {
-- 
2.43.0


From f11477beff9467ed00dd527093757ef0a07f6f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:11 +0000
Subject: [PATCH 32/67] fix: col, row and dot probes do not write to an empty
 list of dimensions

---
 src/cfg.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index e2d09e1..cbf9ef9 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -257,10 +257,7 @@ void Cfg::init_probes ()
     else if ( p_shape.compare("col") == 0 )
     {
       p_p.shape = 1;
-      p_p.dims[0] = 0;
-      p_p.dims[2] = 0;
-      p_p.dims[3] = (int)o["z"].get<double>();
-      p_p.dims[1] = 0;
+      p_p.dims = {0, 0, 0, (size_t)o["z"].get<double>()};
 
       // add shape and size to probe path
       p_p.path += "col";
@@ -270,10 +267,7 @@ void Cfg::init_probes ()
     else if ( p_shape.compare("row") == 0 )
     {
       p_p.shape = 2;
-      p_p.dims[2] = (int)o["r"].get<double>();
-      p_p.dims[0] = 0;
-      p_p.dims[1] = 0;
-      p_p.dims[3] = 0;
+      p_p.dims = {0, 0, (size_t)o["r"].get<double>(), 0};
 
       // add shape and size to probe path
       p_p.path += "row";
@@ -283,10 +277,7 @@ void Cfg::init_probes ()
     else if ( p_shape.compare("dot") == 0 )
     {
       p_p.shape = 3;
-      p_p.dims[2] = (int)o["r"].get<double>();
-      p_p.dims[0] = 0;
-      p_p.dims[3] = (int)o["z"].get<double>();
-      p_p.dims[1] = 0;
+      p_p.dims = {0, 0, (size_t)o["r"].get<double>(), (size_t)o["z"].get<double>()};
 
       // add shape and size to probe path
       p_p.path += "dot";
-- 
2.43.0


From 9ff8cd0f0559eb38195131c34daa2cedf5fd9627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:11 +0000
Subject: [PATCH 33/67] fix: probes right behind the last cell, or of zero
 size, are refused

---
 src/cfg.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index cbf9ef9..ff3b51d 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -291,23 +291,28 @@ void Cfg::init_probes ()
 
     p_p.schedule = (int)o["schedule"].get<double>();
 
-    if (p_p.dims[0] > p_p.dims[2] || p_p.dims[1] > p_p.dims[3])
+    // only the end of rectangle is excluded from the probe
+    size_t r_limit = geometry->cell_amount[0] + (p_p.shape == 0 ? 1 : 0);
+    size_t z_limit = geometry->cell_amount[1] + (p_p.shape == 0 ? 1 : 0);
+
+    if (p_p.dims[0] > p_p.dims[2] || p_p.dims[1] > p_p.dims[3]
+        || (p_p.shape == 0 && (p_p.dims[0] == p_p.dims[2] || p_p.dims[1] == p_p.dims[3])))
     {
       LOG_S(FATAL) << "Incorrect probe's " << p_p.component << "/" << p_shape << " shape: ["
                    << p_p.dims[0] << "," << p_p.dims[2] << ","
                    << p_p.dims[1] << "," << p_p.dims[3] << "]";
     }
-    else if (p_p.dims[2] > geometry->cell_amount[0])
+    else if (p_p.dims[2] >= r_limit)
     {
       LOG_S(FATAL) << "Probe's " << p_p.component << "/" << p_shape << " radius is out of simulation domain: "
                    << p_p.dims[2] << ". Must be less, than "
-                   << geometry->cell_amount[0];
+                   << r_limit;
     }
-    else if (p_p.dims[3] > geometry->cell_amount[1])
+    else if (p_p.dims[3] >= z_limit)
     {
       LOG_S(FATAL) << "Probe's " << p_p.component << "/" << p_shape << " longitude is out of simulation domain: "
                    << p_p.dims[3] << ". Must be less, than "
-                   << geometry->cell_amount[1];
+                   << z_limit;
     }
     else
       probes.push_back(p_p);
-- 
2.43.0


From d1f68cce3baf271c8e49b77966e49aa4c83485bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:11 +0000
Subject: [PATCH 34/67] fix: debye length for method limitations takes
 temperatures in their order

---
 src/cfg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index ff3b51d..b3a2feb 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -647,7 +647,7 @@ bool Cfg::method_limitations_check ()
 
   // cell size d{r,z} < \lambda debye
 
-  double debye_length = phys::plasma::debye_length (electron_density, ion_density, ion_temperature, electron_temperature);
+  double debye_length = phys::plasma::debye_length (electron_density, ion_density, electron_temperature, ion_temperature);
   unsigned int debye_multiplicator = 100;
 
   if ( electron_temperature != 0)
-- 
2.43.0


From 010715065c5c1b5b96581e8d34c3ec8e428df4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:11 +0000
Subject: [PATCH 35/67] fix: division into domains of different size is refused

---
 src/cfg.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index b3a2feb..21da489 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -580,6 +580,13 @@ bool Cfg::method_limitations_check ()
       LOG_S(FATAL) << "Amount of domains should be multiple of 2, or 1";
     }
 
+  // domains are exchanged and particles are distributed in assumption, that domains are equal
+  if (geometry->domains_amount[0] == 0 || geometry->cell_amount[0] % geometry->domains_amount[0] != 0
+      || geometry->domains_amount[1] == 0 || geometry->cell_amount[1] % geometry->domains_amount[1] != 0)
+    {
+      LOG_S(FATAL) << "Amount of cells should be multiple of amount of domains";
+    }
+
   // if (geometry->cell_amount[0] / geometry->domains_amount[0] < MIN_DOMAIN_GRID_AMOUNT)
   //   {
   //     LOG_S(FATAL) << "Too small domain size by r. Must be ``" << MIN_DOMAIN_GRID_AMOUNT << "'' cells or more", 1);
-- 
2.43.0


From 8a016966982097d5fbda410a030bc75b41450a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:11 +0000
Subject: [PATCH 36/67] fix: amount of cells of the whole area is rounded, not
 truncated

---
 include/geometry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geometry.hpp b/include/geometry.hpp
index 64b09ab..71af372 100644
--- a/include/geometry.hpp
+++ b/include/geometry.hpp
@@ -68,7 +68,7 @@ public:
       cell_size.push_back(size[i] / cell_amount[i]);
 
     for (size_t i = 0; i < _global_size.size(); ++i)
-      global_cell_amount.push_back(global_size[i] / cell_size[i]);
+      global_cell_amount.push_back((size_t)(global_size[i] / cell_size[i] + 0.5));
 
     walls = _walls;
     pml_size = _pml_size;
-- 
2.43.0


From 82fa26366161f9805f8786603d7b602f53df5d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:11 +0000
Subject: [PATCH 37/67] fix: probe with unknown component does not write from
 uninitialized pointer

---
 src/outController.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/outController.cpp b/src/outController.cpp
index 8ab57e0..4cbe22b 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -294,7 +294,10 @@ OutController::OutController ( Geometry *_geometry, TimeSim *_time,
           }
 //////////////////////////////////////////////////////////////////////
           else
+          {
             LOG_S(ERROR) << "Unknown probe component ``" << prb->component << "''";
+            continue;
+          }
 
           // create and push out writer
           OutWriter writer (hdf5_file, prb->path, prb->shape,
-- 
2.43.0


From 7d65bbe7bb763824f174d01bd64a6cbd8a4cde0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:47 +0000
Subject: [PATCH 38/67] fix: external fields continue over the border of
 neighbour domains

---
 include/maxwellSolver/externalFields.hpp |  8 +++----
 src/maxwellSolver/externalFields.cpp     | 29 +++++++++++++-----------
 2 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/include/maxwellSolver/externalFields.hpp b/include/maxwellSolver/externalFields.hpp
index ec66fb8..154b1bc 100644
--- a/include/maxwellSolver/externalFields.hpp
+++ b/include/maxwellSolver/externalFields.hpp
@@ -29,10 +29,10 @@ public:
 
 private:
   // internal variables to calculation for dielectric walls
-  unsigned int r_begin;
-  unsigned int z_begin;
-  unsigned int r_end;
-  unsigned int z_end;
+  int r_begin;
+  int z_begin;
+  int r_end;
+  int z_end;
 
   unsigned short e_profile_enum; // electric profile enum
   unsigned short m_profile_enum; // magnetic profile enum
diff --git a/src/maxwellSolver/externalFields.cpp b/src/maxwellSolver/externalFields.cpp
index 80e3b9b..de2a84c 100644
--- a/src/maxwellSolver/externalFields.cpp
+++ b/src/maxwellSolver/externalFields.cpp
@@ -26,26 +26,29 @@ ExternalFields::ExternalFields ( Geometry *_geometry, TimeSim *_time,
                                  std::vector<double> _magn_field_params )
   : MaxwellSolver(_geometry, _time)
 {
-  // emulate dielectric walls
+  // emulate dielectric walls. Field continues to the neighbour
+  // domain, if there is no wall, so overlay should be also filled there
+  int overlay = field_e[0].o_s;
+
   if (geometry->walls[0]) // r=0
     r_begin = 1;
   else
-    r_begin = 0;
+    r_begin = -overlay;
 
   if (geometry->walls[1]) // z=0
     z_begin = 1;
   else
-    z_begin = 0;
+    z_begin = -overlay;
 
   if (geometry->walls[2]) // r=r
     r_end = geometry->cell_amount[0] - 1;
   else
-    r_end = geometry->cell_amount[0];
+    r_end = geometry->cell_amount[0] + overlay;
 
   if (geometry->walls[3]) // z=z
     z_end = geometry->cell_amount[1] - 1;
   else
-    z_end = geometry->cell_amount[1];
+    z_end = geometry->cell_amount[1] + overlay;
 
   // set electric and magnetic profiles
   if ( _el_field_profile.compare("none") == 0 )
@@ -240,7 +243,7 @@ void ExternalFields::set_el_field_homogenous_z ()
 
   // E at the center axis (r=0) case
   if (geometry->walls[0]) // calculate only at the center axis (r=0)
-    for (unsigned int k = z_begin; k < z_end; ++k)
+    for (int k = z_begin; k < z_end; ++k)
     {
       field_e[0].set(0, k, 0);
       field_e[2].set(0, k, 0);
@@ -248,12 +251,12 @@ void ExternalFields::set_el_field_homogenous_z ()
 
   // E_z at the left wall (z=0) case
   if (geometry->walls[1]) // calculate only at the left wall (z=0)
-    for (unsigned int i = r_begin; i < r_end; ++i)
+    for (int i = r_begin; i < r_end; ++i)
       field_e[2].set(i, 0, 0);
 
   // regular case
-  for (unsigned int i = r_begin; i < r_end; i++)
-    for (unsigned int k = z_begin; k < z_end; k++)
+  for (int i = r_begin; i < r_end; i++)
+    for (int k = z_begin; k < z_end; k++)
     {
       double epsilonx2 = 2 * epsilon(i, k);
 
@@ -285,7 +288,7 @@ void ExternalFields::set_magn_field_homogenous_z ()
 
   // E at the center axis (r=0) case
   if (geometry->walls[0]) // calculate only at the center axis (r=0)
-    for (unsigned int k = z_begin; k < z_end; ++k)
+    for (int k = z_begin; k < z_end; ++k)
     {
       field_h[0].set(0, k, 0);
       field_h[2].set(0, k, 0);
@@ -293,12 +296,12 @@ void ExternalFields::set_magn_field_homogenous_z ()
 
   // E_z at the left wall (z=0) case
   if (geometry->walls[1]) // calculate only at the left wall (z=0)
-    for (unsigned int i = r_begin; i < r_end; ++i)
+    for (int i = r_begin; i < r_end; ++i)
       field_h[2].set(i, 0, 0);
 
   // regular case
-  for (unsigned int i = r_begin; i < r_end; i++)
-    for (unsigned int k = z_begin; k < z_end; k++)
+  for (int i = r_begin; i < r_end; i++)
+    for (int k = z_begin; k < z_end; k++)
     {
       double epsilonx2 = 2 * epsilon(i, k);
 
-- 
2.43.0


From 1302e9485edd3aea09a61eff530fed34509f2580 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:49:14 +0000
Subject: [PATCH 39/67] fix: Coulomb collisions build (missing parenthesis,
 call operator of the scheme)

---
 include/domain.hpp | 2 +-
 src/domain.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/domain.hpp b/include/domain.hpp
index 1e8a764..fdb99ff 100644
--- a/include/domain.hpp
+++ b/include/domain.hpp
@@ -65,7 +65,7 @@
 #include "collisions/collisionsTA77S.hpp"
 #elif defined(SWITCH_COULOMB_COLLISIONS_SK98)
 #include "collisions/collisionsSK98.hpp"
-#elif defined(SWITCH_COULOMB_COLLISIONS_P12
+#elif defined(SWITCH_COULOMB_COLLISIONS_P12)
 #include "collisions/collisionsP12.hpp"
 #endif
 #endif
diff --git a/src/domain.cpp b/src/domain.cpp
index a15bbeb..6ede8cc 100644
--- a/src/domain.cpp
+++ b/src/domain.cpp
@@ -199,6 +199,6 @@ void Domain::dump_particle_positions_to_old()
 #ifdef ENABLE_COULOMB_COLLISIONS
 void Domain::collide()
 {
-  collisions->run();
+  (*collisions)();
 }
 #endif // ENABLE_COULOMB_COLLISIONS
-- 
2.43.0


From fa7c48f29aaa0ec662bc1ab76d44938962ac67a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:55 +0000
Subject: [PATCH 40/67] fix: TA77S pair collision conserves momentum and
 relative speed (signs)

---
 src/collisions/collisionsTA77S.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index 83d1e42..c4ec1a9 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -160,7 +160,7 @@ void CollisionsTA77S::collide_single(double m_real_a, double m_real_b,
       + (ux / u_p) * u * sin_Theta * sin_Phi
       - uy * (1 - cos_Theta);
 
-    d_uz = u_p * sin_Theta * cos_Phi
+    d_uz = -u_p * sin_Theta * cos_Phi
       - uz * (1 - cos_Theta);
 
     ////
@@ -173,7 +173,7 @@ void CollisionsTA77S::collide_single(double m_real_a, double m_real_b,
       + (ux / u_p) * u * sin_Theta2 * sin_Phi2
       - uy * (1 - cos_Theta2);
 
-    d_uz2 = u_p * sin_Theta2 * cos_Phi2
+    d_uz2 = -u_p * sin_Theta2 * cos_Phi2
       - uz * (1 - cos_Theta2);
   }
 
@@ -181,9 +181,9 @@ void CollisionsTA77S::collide_single(double m_real_a, double m_real_b,
   double vphi_a_new = vphi_a + m_ab/mass_a * d_uy;
   double vz_a_new = vz_a + m_ab/mass_a * d_uz;
 
-  double vr_b_new = vr_b + m_ab/mass_b * d_ux2;
-  double vphi_b_new = vphi_b + m_ab/mass_b * d_uy2;
-  double vz_b_new = vz_b + m_ab/mass_b * d_uz2;
+  double vr_b_new = vr_b - m_ab/mass_b * d_ux2;
+  double vphi_b_new = vphi_b - m_ab/mass_b * d_uy2;
+  double vz_b_new = vz_b - m_ab/mass_b * d_uz2;
 
   // set new velocity components
   if (swap)
-- 
2.43.0


From 836646b48152ec802878e0b3f04f6ef1d8d02520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:55 +0000
Subject: [PATCH 41/67] fix: relative velocity of colliding particles is the
 length of the difference, not the difference of lengths

---
 src/collisions/collisionsP12.cpp  | 2 +-
 src/collisions/collisionsSK98.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index f7ba7e5..5ca1c23 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -135,7 +135,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   v_a_cm = p_a_cm / (mass_a * gamma_a_cm);
   v_b_cm = p_b_cm / (mass_b * gamma_b_cm);
 
-  double v_rel_abs = ( v_a_cm.length() - v_b_cm.length() )
+  double v_rel_abs = ( v_a_cm - v_b_cm ).length()
     / ( 1 - v_a_cm.dot(v_b_cm) / LIGHT_VEL_POW_2 );
 
   double gamma_rel = phys::rel::lorenz_factor(v_rel_abs * v_rel_abs);
diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index 0776866..67c6b46 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -133,7 +133,7 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
   vector3d<double> p_cm; // (0, 0, p_a_cm.length());
   p_cm = p_a_cm;
 
-  double v_rel_abs = ( v_a_cm.length() - v_b_cm.length() )
+  double v_rel_abs = ( v_a_cm - v_b_cm ).length()
     / ( 1 - v_a_cm.dot(v_b_cm) / LIGHT_VEL_POW_2 );
 
   double gamma_rel = phys::rel::lorenz_factor(v_rel_abs * v_rel_abs);
-- 
2.43.0


From bcfa3902cd4764fca99b0f6f4ffc53fd4a942694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:30 +0000
Subject: [PATCH 42/67] fix: cosine of the P12 scattering angle stays in its
 range

---
 src/collisions/collisionsP12.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index 5ca1c23..a214314 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -227,6 +227,9 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   else
     cos_xi_cm = 2 * U - 1;
 
+  // rare draws (and rounding) can lead beyond the range of cosine
+  cos_xi_cm = max(-1., min(1., cos_xi_cm));
+
   double sin_xi_cm = algo::common::sq_rt ( 1 - pow(cos_xi_cm, 2) );
 
   // find Phi angle
-- 
2.43.0


From e48802696b5eebd5be824472b77e0421d0bac45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:06 +0000
Subject: [PATCH 43/67] fix: P12 and SK98 collisions of particles moving along
 z or with opposite momenta

---
 src/collisions/collisionsP12.cpp  | 33 ++++++++++++++++++++---------
 src/collisions/collisionsSK98.cpp | 35 +++++++++++++++++++++----------
 2 files changed, 47 insertions(+), 21 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index a214314..a8b5d38 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -110,6 +110,10 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   double v_cm_2 = beta_cm.length2() * LIGHT_VEL_POW_2;
   double gamma_cm = phys::rel::lorenz_factor(v_cm_2);
 
+  // no boost direction, when center-of-mass frame is the LAB frame
+  double boost_cm = 0;
+  if (beta_cm.length2() > 0) boost_cm = ( gamma_cm - 1 ) / beta_cm.length2();
+
   // convert LAB frame's p^0 momentum (aka \gamma * m * c)
   // to center-of-mass frame's p^0
   double p0_a_cm = gamma_cm * ( p0_a - beta_cm.dot(p_a));
@@ -118,7 +122,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   // convert LAB frame's 3-momentum to center-of-mass frame's 3-momentum
   vector3d<double> p_a_cm, p_b_cm;
   p_a_cm = p_a;
-  p_a_cm += beta_cm * beta_cm.dot(p_a) * ( gamma_cm - 1 ) / beta_cm.length2();
+  p_a_cm += beta_cm * beta_cm.dot(p_a) * boost_cm;
   p_a_cm -= beta_cm * gamma_cm * p0_a;
 
   p_b_cm[0] = -p_a_cm[0];
@@ -241,13 +245,22 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   double p_a_cm_abs = p_a_cm.length();
   double p_cm_prp = algo::common::sq_rt(p_a_cm[0] * p_a_cm[0] + p_a_cm[1] * p_a_cm[1]);
 
-  p_a_prime_cm[0] = p_a_cm[0] * p_a_cm[2] / p_cm_prp * sin_xi_cm * cos_phi_cm
-    - p_a_cm[1] * p_a_cm_abs / p_cm_prp * sin_xi_cm * sin_phi_cm
-    + p_a_cm[0] * cos_xi_cm;
-  p_a_prime_cm[1] = p_a_cm[1] * p_a_cm[2] / p_cm_prp * sin_xi_cm * cos_phi_cm
-    + p_a_cm[0] * p_a_cm_abs / p_cm_prp * sin_xi_cm * sin_phi_cm
-    + p_a_cm[1] * cos_xi_cm;
-  p_a_prime_cm[2] = -p_cm_prp * sin_xi_cm * cos_phi_cm + p_a_cm[2] * cos_xi_cm;
+  if (p_cm_prp == 0) // momentum is along z axis
+  {
+    p_a_prime_cm[0] = p_a_cm_abs * sin_xi_cm * cos_phi_cm;
+    p_a_prime_cm[1] = p_a_cm_abs * sin_xi_cm * sin_phi_cm;
+    p_a_prime_cm[2] = p_a_cm[2] * cos_xi_cm;
+  }
+  else
+  {
+    p_a_prime_cm[0] = p_a_cm[0] * p_a_cm[2] / p_cm_prp * sin_xi_cm * cos_phi_cm
+      - p_a_cm[1] * p_a_cm_abs / p_cm_prp * sin_xi_cm * sin_phi_cm
+      + p_a_cm[0] * cos_xi_cm;
+    p_a_prime_cm[1] = p_a_cm[1] * p_a_cm[2] / p_cm_prp * sin_xi_cm * cos_phi_cm
+      + p_a_cm[0] * p_a_cm_abs / p_cm_prp * sin_xi_cm * sin_phi_cm
+      + p_a_cm[1] * cos_xi_cm;
+    p_a_prime_cm[2] = -p_cm_prp * sin_xi_cm * cos_phi_cm + p_a_cm[2] * cos_xi_cm;
+  }
 
   // find deflection probability
   double U_defl = math::random::uniform();
@@ -258,7 +271,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   {
     vector3d<double> p_a_prime;
     p_a_prime = p_a_prime_cm;
-    p_a_prime += beta_cm * beta_cm.dot(p_a_prime_cm) * ( gamma_cm - 1 ) / beta_cm.length2();
+    p_a_prime += beta_cm * beta_cm.dot(p_a_prime_cm) * boost_cm;
     p_a_prime += beta_cm * gamma_cm * p0_a_cm;
 
     v_a_prime = p_a_prime / mass_a;
@@ -275,7 +288,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
     p_b_prime_cm[2] = -p_a_prime_cm[2];
 
     p_b_prime = p_b_prime_cm;
-    p_b_prime += beta_cm * beta_cm.dot(p_b_prime_cm) * ( gamma_cm - 1 ) / beta_cm.length2();
+    p_b_prime += beta_cm * beta_cm.dot(p_b_prime_cm) * boost_cm;
     p_b_prime += beta_cm * gamma_cm * p0_b_cm;
 
     v_b_prime = p_b_prime / mass_b;
diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index 67c6b46..c69fcf9 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -103,6 +103,10 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
   double v_cm_2 = beta_cm.length2() * LIGHT_VEL_POW_2;
   double gamma_cm = phys::rel::lorenz_factor(v_cm_2);
 
+  // no boost direction, when center-of-mass frame is the LAB frame
+  double boost_cm = 0;
+  if (beta_cm.length2() > 0) boost_cm = ( gamma_cm - 1 ) / beta_cm.length2();
+
   // convert LAB frame's p^0 momentum (aka \gamma * m * c)
   // to center-of-mass frame's p^0
   double p0_a_cm = gamma_cm * ( p0_a - beta_cm.dot(p_a));
@@ -111,14 +115,14 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
   // convert LAB frame's 3-momentum to center-of-mass frame's 3-momentum
   vector3d<double> p_a_cm, p_b_cm;
   p_a_cm = p_a;
-  p_a_cm += beta_cm * beta_cm.dot(p_a) * ( gamma_cm - 1 ) / beta_cm.length2();
+  p_a_cm += beta_cm * beta_cm.dot(p_a) * boost_cm;
   p_a_cm -= beta_cm * gamma_cm * p0_a;
 
   p_b_cm[0] = -p_a_cm[0];
   p_b_cm[1] = -p_a_cm[1];
   p_b_cm[2] = -p_a_cm[2];
   // p_b_cm = p_b;
-  // p_b_cm += beta_cm * beta_cm.dot(p_b) * ( gamma_cm - 1 ) / beta_cm.length2();
+  // p_b_cm += beta_cm * beta_cm.dot(p_b) * boost_cm;
   // p_b_cm -= beta_cm * gamma_cm * p0_b;
 
   // get gamma --- center-of-mass frame
@@ -183,13 +187,22 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
   double p_cm_abs = p_cm.length();
   double p_cm_prp = algo::common::sq_rt(p_cm[0] * p_cm[0] + p_cm[1] * p_cm[1]);
 
-  d_p[0] = p_cm[0] * p_cm[2] / p_cm_prp * sin_theta_cm * cos_phi
-    - p_cm[1] * p_cm_abs / p_cm_prp * sin_theta_cm * sin_phi
-    - p_cm[0] * ( 1 - cos_theta_cm);
-  d_p[1] = p_cm[1] * p_cm[2] / p_cm_prp * sin_theta_cm * cos_phi
-    + p_cm[0] * p_cm_abs / p_cm_prp * sin_theta_cm * sin_phi
-    - p_cm[1] * ( 1 - cos_theta_cm);
-  d_p[2] = -p_cm_prp * sin_theta_cm * cos_phi - p_cm[2] * ( 1 - cos_theta_cm );
+  if (p_cm_prp == 0) // momentum is along z axis
+  {
+    d_p[0] = p_cm_abs * sin_theta_cm * cos_phi;
+    d_p[1] = p_cm_abs * sin_theta_cm * sin_phi;
+    d_p[2] = - p_cm[2] * ( 1 - cos_theta_cm );
+  }
+  else
+  {
+    d_p[0] = p_cm[0] * p_cm[2] / p_cm_prp * sin_theta_cm * cos_phi
+      - p_cm[1] * p_cm_abs / p_cm_prp * sin_theta_cm * sin_phi
+      - p_cm[0] * ( 1 - cos_theta_cm);
+    d_p[1] = p_cm[1] * p_cm[2] / p_cm_prp * sin_theta_cm * cos_phi
+      + p_cm[0] * p_cm_abs / p_cm_prp * sin_theta_cm * sin_phi
+      - p_cm[1] * ( 1 - cos_theta_cm);
+    d_p[2] = -p_cm_prp * sin_theta_cm * cos_phi - p_cm[2] * ( 1 - cos_theta_cm );
+  }
 
   // get p_a_prime_cm and p_b_prime_cm --- COM frame
   vector3d<double> p_a_prime_cm, p_b_prime_cm;
@@ -198,11 +211,11 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
 
   vector3d<double> p_a_prime, p_b_prime;
   p_a_prime = p_a_prime_cm;
-  p_a_prime += beta_cm * beta_cm.dot(p_a_prime_cm) * ( gamma_cm - 1 ) / beta_cm.length2();
+  p_a_prime += beta_cm * beta_cm.dot(p_a_prime_cm) * boost_cm;
   p_a_prime += beta_cm * gamma_cm * p0_a_cm;
 
   p_b_prime = p_b_prime_cm;
-  p_b_prime += beta_cm * beta_cm.dot(p_b_prime_cm) * ( gamma_cm - 1 ) / beta_cm.length2();
+  p_b_prime += beta_cm * beta_cm.dot(p_b_prime_cm) * boost_cm;
   p_b_prime += beta_cm * gamma_cm * p0_b_cm;
 
   // calculate velocities
-- 
2.43.0


From 98b0cbd278d19c5e1e027fad4ccb9f7624c4b114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:06 +0000
Subject: [PATCH 44/67] fix: P12 s-parameter takes the momentum in the
 centre-of-mass frame

---
 src/collisions/collisionsP12.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index a8b5d38..3514fca 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -175,7 +175,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
       / ( 4 * constant::PI * pow(constant::EPSILON0 * LIGHT_VEL_POW_2, 2)
           * mass_a * gamma_a * mass_b * gamma_b)
 
-      * gamma_cm * p_a.length()
+      * gamma_cm * p_a_cm.length()
       / (mass_a * gamma_a + mass_b * gamma_b)
 
       * pow(
-- 
2.43.0


From 9991c1d8e520d0949ab5bfa3e84e2fd62a2dd814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:21 +0000
Subject: [PATCH 45/67] fix: P12 deflection probabilities of macroparticles
 with different weights

---
 src/collisions/collisionsP12.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index 3514fca..980da76 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -264,10 +264,13 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
 
   // find deflection probability
   double U_defl = math::random::uniform();
-  // double w_ab = min( w_a , w_b);
+  // a-particle is deflected with probability w_b / w_max, b-particle with w_a / w_max
+  double w_max = max(w_a, w_b);
+  bool deflect_a = U_defl * w_max < w_b;
+  bool deflect_b = U_defl * w_max < w_a;
 
   vector3d<double> v_a_prime, v_b_prime;
-  if (U_defl < w_a)
+  if (deflect_a)
   {
     vector3d<double> p_a_prime;
     p_a_prime = p_a_prime_cm;
@@ -279,7 +282,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
     v_a_prime *= gamma_a_prime_inv;
   }
 
-  if (U_defl < w_b)
+  if (deflect_b)
   {
     vector3d<double> p_b_prime;
 
@@ -311,14 +314,14 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   {
     // deflect particles only with some probability
     // according to rejection scheme
-    if (U_defl < w_a)
+    if (deflect_b)
     {
       P_VEL_R(pa) = v_b_prime[0];
       P_VEL_PHI(pa) = v_b_prime[1];
       P_VEL_Z(pa) = v_b_prime[2];
     }
 
-    if (U_defl < w_b)
+    if (deflect_a)
     {
       P_VEL_R(pb) = v_a_prime[0];
       P_VEL_PHI(pb) = v_a_prime[1];
@@ -327,14 +330,14 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   }
   else
   {
-    if (U_defl < w_a)
+    if (deflect_a)
     {
       P_VEL_R(pa) = v_a_prime[0];
       P_VEL_PHI(pa) = v_a_prime[1];
       P_VEL_Z(pa) = v_a_prime[2];
     }
 
-    if (U_defl < w_b)
+    if (deflect_b)
     {
       P_VEL_R(pb) = v_b_prime[0];
       P_VEL_PHI(pb) = v_b_prime[1];
-- 
2.43.0


From 9935a062fb42037ccf195f8eb3c5f8327a7a0692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:21 +0000
Subject: [PATCH 46/67] fix: cells after an empty one collide too

---
 src/collisions/collisionsP12.cpp   | 8 ++++----
 src/collisions/collisionsSK98.cpp  | 8 ++++----
 src/collisions/collisionsTA77S.cpp | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index 980da76..9da580c 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -367,10 +367,10 @@ void CollisionsP12::collide ()
       double density_el = get_el_density(i, j);
       double density_ion = get_ion_density(i, j);
 
-      if (!isnormal(temperature_ion)) break;
-      if (!isnormal(temperature_el)) break;
-      if (!isnormal(density_ion)) break;
-      if (!isnormal(density_el)) break;
+      if (!isnormal(temperature_ion)) continue;
+      if (!isnormal(temperature_el)) continue;
+      if (!isnormal(density_ion)) continue;
+      if (!isnormal(density_el)) continue;
 
       double debye = phys::plasma::debye_length(density_el, density_ion,
                                                 temperature_el, temperature_ion);
diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index c69fcf9..0325802 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -271,10 +271,10 @@ void CollisionsSK98::collide ()
       double density_el = get_el_density(i, j);
       double density_ion = get_ion_density(i, j);
 
-      if (!isnormal(temperature_ion)) break;
-      if (!isnormal(temperature_el)) break;
-      if (!isnormal(density_ion)) break;
-      if (!isnormal(density_el)) break;
+      if (!isnormal(temperature_ion)) continue;
+      if (!isnormal(temperature_el)) continue;
+      if (!isnormal(density_ion)) continue;
+      if (!isnormal(density_el)) continue;
 
       double debye = phys::plasma::debye_length(density_el, density_ion,
                                                 temperature_el, temperature_ion);
diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index c4ec1a9..a28fac1 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -234,10 +234,10 @@ void CollisionsTA77S::collide ()
       double density_el = get_el_density(i, j);
       double density_ion = get_ion_density(i, j);
 
-      if (!isnormal(temperature_ion)) break;
-      if (!isnormal(temperature_el)) break;
-      if (!isnormal(density_ion)) break;
-      if (!isnormal(density_el)) break;
+      if (!isnormal(temperature_ion)) continue;
+      if (!isnormal(temperature_el)) continue;
+      if (!isnormal(density_ion)) continue;
+      if (!isnormal(density_el)) continue;
 
       double debye = phys::plasma::debye_length(density_el, density_ion,
                                                 temperature_el, temperature_ion);
-- 
2.43.0


From 11fde2b976d2da58cbcb4ae26aa46fdada4adaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:35 +0000
Subject: [PATCH 47/67] fix: every particle of the larger group collides with
 the other kind (integer group sizes)

---
 src/collisions/collisionsP12.cpp   | 34 ++++++++++++------------------
 src/collisions/collisionsSK98.cpp  | 34 ++++++++++++------------------
 src/collisions/collisionsTA77S.cpp | 34 ++++++++++++------------------
 3 files changed, 42 insertions(+), 60 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index 9da580c..580e8a6 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -479,19 +479,16 @@ void CollisionsP12::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions > vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        unsigned int c_i = floor( (float)vec_size_ions / (float)vec_size_electrons );
-        double c_r = (float)vec_size_ions / (float)vec_size_electrons - c_i;
-
-        unsigned int ions_1st_group = (c_i + 1) * c_r * vec_size_electrons;
-        unsigned int els_1st_group = c_r * vec_size_electrons;
-
-        unsigned int ions_2nd_group = c_i * (1 - c_r) * vec_size_electrons;
-        // int els_2nd_group = (1 - c_r) * vec_size_electrons;
+        // sizes of groups in whole particles
+        unsigned int c_i = vec_size_ions / vec_size_electrons;
+        unsigned int els_1st_group = vec_size_ions % vec_size_electrons;
+        unsigned int ions_1st_group = (c_i + 1) * els_1st_group;
+        unsigned int ions_2nd_group = vec_size_ions - ions_1st_group;
 
         // TA77: case 2b, 1st group, ions
         for (unsigned int fgi = 0; fgi < ions_1st_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i+1));
+          unsigned int fge = fgi / (c_i + 1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -502,7 +499,7 @@ void CollisionsP12::collide ()
         // TA77: case 2b, 2nd group, ions
         for (unsigned int fgi = 0; fgi < ions_2nd_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i));
+          unsigned int fge = fgi / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
@@ -514,19 +511,16 @@ void CollisionsP12::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions < vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        double c_i = floor( (float)vec_size_electrons / (float)vec_size_ions );
-        double c_r = (float)vec_size_electrons / (float)vec_size_ions - c_i;
-
-        unsigned int els_1st_group = (c_i + 1) * c_r * vec_size_ions;
-        unsigned int ions_1st_group = c_r * vec_size_ions;
-
-        unsigned int els_2nd_group = c_i * (1 - c_r) * vec_size_ions;
-        // int ions_2nd_group = (1 - c_r) * vec_size_ions;
+        // sizes of groups in whole particles
+        unsigned int c_i = vec_size_electrons / vec_size_ions;
+        unsigned int ions_1st_group = vec_size_electrons % vec_size_ions;
+        unsigned int els_1st_group = (c_i + 1) * ions_1st_group;
+        unsigned int els_2nd_group = vec_size_electrons - els_1st_group;
 
         // TA77: case 2b, 1st group, electrons
         for (unsigned int fge = 0; fge < els_1st_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i+1));
+          unsigned int fgi = fge / (c_i + 1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -537,7 +531,7 @@ void CollisionsP12::collide ()
         // TA77: case 2b, 2nd group, electrons
         for (unsigned int fge = 0; fge < els_2nd_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i));
+          unsigned int fgi = fge / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index 0325802..c12f3a8 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -383,19 +383,16 @@ void CollisionsSK98::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions > vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        unsigned int c_i = floor( (float)vec_size_ions / (float)vec_size_electrons );
-        double c_r = (float)vec_size_ions / (float)vec_size_electrons - c_i;
-
-        unsigned int ions_1st_group = (c_i + 1) * c_r * vec_size_electrons;
-        unsigned int els_1st_group = c_r * vec_size_electrons;
-
-        unsigned int ions_2nd_group = c_i * (1 - c_r) * vec_size_electrons;
-        // int els_2nd_group = (1 - c_r) * vec_size_electrons;
+        // sizes of groups in whole particles
+        unsigned int c_i = vec_size_ions / vec_size_electrons;
+        unsigned int els_1st_group = vec_size_ions % vec_size_electrons;
+        unsigned int ions_1st_group = (c_i + 1) * els_1st_group;
+        unsigned int ions_2nd_group = vec_size_ions - ions_1st_group;
 
         // TA77: case 2b, 1st group, ions
         for (unsigned int fgi = 0; fgi < ions_1st_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i+1));
+          unsigned int fge = fgi / (c_i + 1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -406,7 +403,7 @@ void CollisionsSK98::collide ()
         // TA77: case 2b, 2nd group, ions
         for (unsigned int fgi = 0; fgi < ions_2nd_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i));
+          unsigned int fge = fgi / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
@@ -418,19 +415,16 @@ void CollisionsSK98::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions < vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        double c_i = floor( (float)vec_size_electrons / (float)vec_size_ions );
-        double c_r = (float)vec_size_electrons / (float)vec_size_ions - c_i;
-
-        unsigned int els_1st_group = (c_i + 1) * c_r * vec_size_ions;
-        unsigned int ions_1st_group = c_r * vec_size_ions;
-
-        unsigned int els_2nd_group = c_i * (1 - c_r) * vec_size_ions;
-        // int ions_2nd_group = (1 - c_r) * vec_size_ions;
+        // sizes of groups in whole particles
+        unsigned int c_i = vec_size_electrons / vec_size_ions;
+        unsigned int ions_1st_group = vec_size_electrons % vec_size_ions;
+        unsigned int els_1st_group = (c_i + 1) * ions_1st_group;
+        unsigned int els_2nd_group = vec_size_electrons - els_1st_group;
 
         // TA77: case 2b, 1st group, electrons
         for (unsigned int fge = 0; fge < els_1st_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i+1));
+          unsigned int fgi = fge / (c_i + 1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -441,7 +435,7 @@ void CollisionsSK98::collide ()
         // TA77: case 2b, 2nd group, electrons
         for (unsigned int fge = 0; fge < els_2nd_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i));
+          unsigned int fgi = fge / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index a28fac1..249e9f3 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -346,19 +346,16 @@ void CollisionsTA77S::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions > vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        unsigned int c_i = floor( (float)vec_size_ions / (float)vec_size_electrons );
-        double c_r = (float)vec_size_ions / (float)vec_size_electrons - c_i;
-
-        unsigned int ions_1st_group = (c_i + 1) * c_r * vec_size_electrons;
-        unsigned int els_1st_group = c_r * vec_size_electrons;
-
-        unsigned int ions_2nd_group = c_i * (1 - c_r) * vec_size_electrons;
-        // int els_2nd_group = (1 - c_r) * vec_size_electrons;
+        // sizes of groups in whole particles
+        unsigned int c_i = vec_size_ions / vec_size_electrons;
+        unsigned int els_1st_group = vec_size_ions % vec_size_electrons;
+        unsigned int ions_1st_group = (c_i + 1) * els_1st_group;
+        unsigned int ions_2nd_group = vec_size_ions - ions_1st_group;
 
         // TA77: case 2b, 1st group, ions
         for (unsigned int fgi = 0; fgi < ions_1st_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i+1));
+          unsigned int fge = fgi / (c_i + 1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -369,7 +366,7 @@ void CollisionsTA77S::collide ()
         // TA77: case 2b, 2nd group, ions
         for (unsigned int fgi = 0; fgi < ions_2nd_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i));
+          unsigned int fge = fgi / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
@@ -381,19 +378,16 @@ void CollisionsTA77S::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions < vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        double c_i = floor( (float)vec_size_electrons / (float)vec_size_ions );
-        double c_r = (float)vec_size_electrons / (float)vec_size_ions - c_i;
-
-        unsigned int els_1st_group = (c_i + 1) * c_r * vec_size_ions;
-        unsigned int ions_1st_group = c_r * vec_size_ions;
-
-        unsigned int els_2nd_group = c_i * (1 - c_r) * vec_size_ions;
-        // int ions_2nd_group = (1 - c_r) * vec_size_ions;
+        // sizes of groups in whole particles
+        unsigned int c_i = vec_size_electrons / vec_size_ions;
+        unsigned int ions_1st_group = vec_size_electrons % vec_size_ions;
+        unsigned int els_1st_group = (c_i + 1) * ions_1st_group;
+        unsigned int els_2nd_group = vec_size_electrons - els_1st_group;
 
         // TA77: case 2b, 1st group, electrons
         for (unsigned int fge = 0; fge < els_1st_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i+1));
+          unsigned int fgi = fge / (c_i + 1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -404,7 +398,7 @@ void CollisionsTA77S::collide ()
         // TA77: case 2b, 2nd group, electrons
         for (unsigned int fge = 0; fge < els_2nd_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i));
+          unsigned int fgi = fge / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
-- 
2.43.0


From 55537107a2420822ac07895666c83627d13f8f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:35 +0000
Subject: [PATCH 48/67] fix: particles of other mass or charge do not collide
 with the mass and charge of electrons

---
 src/collisions.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/collisions.cpp b/src/collisions.cpp
index acf076d..b060398 100644
--- a/src/collisions.cpp
+++ b/src/collisions.cpp
@@ -97,12 +97,10 @@ void Collisions::sort_to_cells()
       int i_n_shift = i_n - geometry->cell_dims[0];
       int k_n_shift = k_n - geometry->cell_dims[1];
 
-      // TODO: push_back particle to sorter
-      string name = "ions";
-      string cname = "Ions";
-      if (name.compare((**ps).name) == 0 || cname.compare((**ps).name) == 0)
+      // particles of other kinds (e.g. of ion beams) do not collide as electrons
+      if ((**ps).mass == mass_ion && (**ps).charge == charge_ion)
         map_ion2cell(i_n_shift, k_n_shift).push_back((*i));
-      else
+      else if ((**ps).mass == mass_el && (**ps).charge == charge_el)
         map_el2cell(i_n_shift, k_n_shift).push_back((*i));
     }
 }
-- 
2.43.0


From 0878505d4d91613f809d78b77c0467a6047f92ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:35 +0000
Subject: [PATCH 49/67] fix: means in the P12 warning start from zero

---
 src/collisions/collisionsP12.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index 580e8a6..37c8a97 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -549,11 +549,11 @@ void CollisionsP12::collide ()
     L_mean /= ncol;
     debye_mean /= ncol;
 
-    double d_el;
-    double d_ion;
-    double t_el;
-    double t_ion;
-    double g_counter;
+    double d_el = 0;
+    double d_ion = 0;
+    double t_el = 0;
+    double t_ion = 0;
+    double g_counter = 0;
     for (int i = 0; i < geometry->cell_amount[0]; ++i)
       for (int j = 0; j < geometry->cell_amount[1]; ++j)
 	{
-- 
2.43.0


From b4a5307d1cd5a5920f81c196580e1704cff70b24 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:20:14 +0000
Subject: [PATCH 50/67] fix: energy of the coldest particles: P(3/2,x) ~ 4
 x^1.5 / (3 sqrt(pi)), and no read past the table at its end

---
 include/constant.hpp         | 2 +-
 src/math/maxwellJuettner.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/constant.hpp b/include/constant.hpp
index 95b01eb..c1d8dfb 100644
--- a/include/constant.hpp
+++ b/include/constant.hpp
@@ -31,7 +31,7 @@ namespace constant
   const double ONE_OVER_3 = 1. / 3.;
   const double TWO_OVER_3 = 2. / 3.;
   const double FOUR_OVER_3 = 4. / 3.;
-  const double THREE_OVER_4 = 4. / 3.;
+  const double THREE_OVER_4 = 3. / 4.;
   // PI constant
   const double PI = 3.1415926535897932;
   // Vacuum permittivity (electric constant), F*m(e-1)
diff --git a/src/math/maxwellJuettner.cpp b/src/math/maxwellJuettner.cpp
index c4c412d..fbdbfcb 100644
--- a/src/math/maxwellJuettner.cpp
+++ b/src/math/maxwellJuettner.cpp
@@ -344,8 +344,8 @@ namespace math::maxwell_juettner
         U = uniform();
         // Calculate the inverse of F
         lnlnU = log(-log(U));
-        if( lnlnU>2. )
-          invF = constant::THREE_OVER_4 * sqrt(constant::PI) * pow(U, constant::TWO_OVER_3);
+        if( lnlnU>=2. )
+          invF = pow(constant::THREE_OVER_4 * sqrt(constant::PI) * U, constant::TWO_OVER_3);
         else if ( lnlnU<-19. )
           invF = 1.;
         else {
-- 
2.43.0


From 2809dfd0ade62ab236282a756c87883e1910aa62 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:20:14 +0000
Subject: [PATCH 51/67] fix: energy of the hottest particles: the tail of the
 Maxwell distribution, not 1

---
 src/math/maxwellJuettner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/maxwellJuettner.cpp b/src/math/maxwellJuettner.cpp
index fbdbfcb..8529e62 100644
--- a/src/math/maxwellJuettner.cpp
+++ b/src/math/maxwellJuettner.cpp
@@ -347,7 +347,7 @@ namespace math::maxwell_juettner
         if( lnlnU>=2. )
           invF = pow(constant::THREE_OVER_4 * sqrt(constant::PI) * U, constant::TWO_OVER_3);
         else if ( lnlnU<-19. )
-          invF = 1.;
+          invF = -lnlnU + 0.5 * log(-lnlnU) + log(2. / sqrt(constant::PI));
         else {
           I = (lnlnU + 19.)*invdU_F;
           index = (unsigned int)I;
-- 
2.43.0


From 6c16ed75718dff7a20fad691c3fb25693d8c4551 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:20:14 +0000
Subject: [PATCH 52/67] fix: Maxwell-Juettner sampling: no power of a negative
 number in the tails, no energy below the rest energy accepted

---
 src/math/maxwellJuettner.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/math/maxwellJuettner.cpp b/src/math/maxwellJuettner.cpp
index 8529e62..18630a6 100644
--- a/src/math/maxwellJuettner.cpp
+++ b/src/math/maxwellJuettner.cpp
@@ -360,7 +360,7 @@ namespace math::maxwell_juettner
     }
     else // Relativistic case: Maxwell-Juettner
     {
-      double U, lnU, invH, I, remainder, gamma;
+      double U, y, lnU, invH, I, remainder, gamma;
       const double invdU_H = 999./(12.+30.);
       unsigned int index;
       // Calculate the constant H(1/T)
@@ -373,11 +373,12 @@ namespace math::maxwell_juettner
           // Pick a random number
           U = uniform();
           // Calculate the inverse of H at the point log(1.-U) + H0
-          lnU = log(-log(1.-U) - H0);
-          if( lnU<-26. )
-            invH = pow(-6.*U, 1./3.);
+          y = -log(1.-U) - H0;
+          lnU = log(y);
+          if( ! (lnU >= -26.) )
+            invH = pow(6.*y, 1./3.);
           else if (lnU > 12.)
-            invH = -U + 11.35 * pow(-U, 0.06);
+            invH = y + 11.35 * pow(y, 0.06);
           else
           {
             I = (lnU + 30.)*invdU_H;
@@ -390,7 +391,7 @@ namespace math::maxwell_juettner
           // We use the rejection method, so we pick another random number
           U = uniform();
           // And we are done only if U < beta, otherwise we try again
-        } while( U >= sqrt(1.-1./(gamma * gamma) ) );
+        } while( ! (gamma > 1. && U < sqrt(1.-1./(gamma * gamma))) );
         // Store that value of the energy
         energies[i] = gamma - 1.;
       }
-- 
2.43.0


From b2223976d24c12821a308406c5a0b5c7f63c5563 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:24:55 +0000
Subject: [PATCH 53/67] fix: pausing closes the data file after the current
 step is written, not in the middle of it, and a file is closed only once

---
 src/PiCoPiC.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/PiCoPiC.cpp b/src/PiCoPiC.cpp
index 23ddffe..73052ce 100644
--- a/src/PiCoPiC.cpp
+++ b/src/PiCoPiC.cpp
@@ -54,6 +54,14 @@ string hdf5_filepath;
 // using namespace HighFive;
 
 HighFive::File *file;
+
+void close_file()
+{
+  // file can be closed already
+  HighFive::File *opened = file;
+  file = nullptr;
+  delete opened;
+}
 #endif // ENABLE_HDF5
 
 void signal_handler( int signum )
@@ -61,12 +69,10 @@ void signal_handler( int signum )
 #ifdef ENABLE_HDF5
   if (signum == SIGUSR1 && !lock_)
   {
+    // the calculation loop unlocks data file, when the current step is written
     LOG_S(INFO) << "Pause calculation";
-    LOG_S(INFO) << "Unlocking data file...";
-    delete file;
+    recreate_writers_.store(false, std::memory_order_relaxed);
     lock_.store(true, std::memory_order_relaxed);
-    LOG_S(INFO) << "Unlocked";
-    cout << "Waiting for ``USR2'' OS signal to continue" << flush;
   }
   else if (signum == SIGUSR2 && lock_) // reopen
   {
@@ -89,7 +95,7 @@ void signal_handler( int signum )
        || signum == SIGSEGV )
   {
 #ifdef ENABLE_HDF5
-    delete file;
+    close_file();
 #endif // ENABLE_HDF5
 
     const char * sigstr = strsignal(signum);
@@ -351,6 +357,14 @@ int main(int argc, char **argv)
 #ifdef ENABLE_HDF5
       while (lock_)
       {
+        if (file)
+        {
+          LOG_S(INFO) << "Unlocking data file...";
+          close_file();
+          LOG_S(INFO) << "Unlocked";
+          cout << "Waiting for ``USR2'' OS signal to continue" << flush;
+        }
+
         if (recreate_writers_)
         {
           // reopen HDF file initially
@@ -383,7 +397,6 @@ int main(int argc, char **argv)
           //   data_writers.push_back(writer);
           // }
           lock_.store(false, std::memory_order_relaxed);
-          recreate_writers_.store(false, std::memory_order_relaxed);
         }
         else
         {
@@ -395,7 +408,7 @@ int main(int argc, char **argv)
     }
 
 #ifdef ENABLE_HDF5
-    delete file;
+    close_file();
 #endif
     if (print_progress_table)
       msg::print_final();
-- 
2.43.0


From 0cc86e08e42b5671d7310cb17310e457b43335ed Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:24:55 +0000
Subject: [PATCH 54/67] fix: continuing after a pause opens the existing data
 file and hands it to all writers, which kept the deleted one

---
 include/outController.hpp |  4 ++++
 include/outWriter.hpp     |  1 +
 src/PiCoPiC.cpp           |  3 ++-
 src/outController.cpp     | 16 ++++++++++++++++
 4 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/outController.hpp b/include/outController.hpp
index f00dd41..9ffe705 100644
--- a/include/outController.hpp
+++ b/include/outController.hpp
@@ -64,6 +64,10 @@ public:
 
   void operator()(); // launch writers on all domains of all SMBs
 
+#ifdef ENABLE_HDF5
+  void reopen(HighFive::File *_file); // continue with reopened data file
+#endif // ENABLE_HDF5
+
 private:
   void init_datasets();
   bool print_progress_table;
diff --git a/include/outWriter.hpp b/include/outWriter.hpp
index 401e7fa..f409591 100644
--- a/include/outWriter.hpp
+++ b/include/outWriter.hpp
@@ -61,6 +61,7 @@ public:
 
 #ifdef ENABLE_HDF5
   HighFive::File *hdf5_file;
+  void reopen(HighFive::File *_file) { hdf5_file = _file; engine.data_file = _file; };
 #endif
 };
 
diff --git a/src/PiCoPiC.cpp b/src/PiCoPiC.cpp
index 73052ce..7664ed2 100644
--- a/src/PiCoPiC.cpp
+++ b/src/PiCoPiC.cpp
@@ -371,7 +371,8 @@ int main(int argc, char **argv)
           try
           {
             LOG_S(INFO) << "Locking data file...";
-            file = new HighFive::File(hdf5_filepath.c_str(), HighFive::File::ReadWrite | HighFive::File::Excl);
+            file = new HighFive::File(hdf5_filepath.c_str(), HighFive::File::ReadWrite);
+            out_controller.reopen(file);
             LOG_S(INFO) << "Locked";
           }
           catch (const HighFive::Exception&)
diff --git a/src/outController.cpp b/src/outController.cpp
index 4cbe22b..dc98fe6 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -514,6 +514,22 @@ void OutController::init_datasets()
   }
 }
 
+#ifdef ENABLE_HDF5
+void OutController::reopen(HighFive::File *_file)
+{
+  hdf5_file = _file;
+
+  for (unsigned int r = 0; r < geometry->domains_amount[0]; ++r)
+    for (unsigned int z = 0; z < geometry->domains_amount[1]; ++z)
+    {
+      Domain *dmn = smb->domains(r, z);
+
+      for (auto w = dmn->out_writers.begin(); w != dmn->out_writers.end(); ++w)
+        w->reopen(_file);
+    }
+}
+#endif // ENABLE_HDF5
+
 void OutController::operator()()
 {
   init_datasets();
-- 
2.43.0


From 41ed38efadb497fba01ddc2d3bc74aa2532b3155 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:24:55 +0000
Subject: [PATCH 55/67] fix: option -f without a file name is an error, not a
 string made of a null pointer

---
 src/PiCoPiC.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PiCoPiC.cpp b/src/PiCoPiC.cpp
index 7664ed2..b154996 100644
--- a/src/PiCoPiC.cpp
+++ b/src/PiCoPiC.cpp
@@ -122,7 +122,9 @@ string parse_argv_get_config(int argc, char **argv)
 
   if (algo::common::cmd_option_exists(argv, argv+argc, "-f"))
   {
-    filename = algo::common::get_cmd_option(argv, argv + argc, "-f");
+    const char *option = algo::common::get_cmd_option(argv, argv + argc, "-f");
+    if (option)
+      filename = option;
   }
   else
   {
-- 
2.43.0


From 5da6b29f98273e045fb9984356fb95180fe86816 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:26:04 +0000
Subject: [PATCH 56/67] fix: a pause requested while continuing was ignored,
 one flag tells whether to be paused

---
 src/PiCoPiC.cpp | 53 ++++++++++++-------------------------------------
 1 file changed, 13 insertions(+), 40 deletions(-)

diff --git a/src/PiCoPiC.cpp b/src/PiCoPiC.cpp
index b154996..e97fb11 100644
--- a/src/PiCoPiC.cpp
+++ b/src/PiCoPiC.cpp
@@ -47,7 +47,6 @@ using namespace std;
 #define HDF5_DATA_FILE "data.h5"
 
 std::atomic<bool> lock_(false);
-std::atomic<bool> recreate_writers_(false);
 
 string hdf5_filepath;
 
@@ -71,14 +70,13 @@ void signal_handler( int signum )
   {
     // the calculation loop unlocks data file, when the current step is written
     LOG_S(INFO) << "Pause calculation";
-    recreate_writers_.store(false, std::memory_order_relaxed);
     lock_.store(true, std::memory_order_relaxed);
   }
   else if (signum == SIGUSR2 && lock_) // reopen
   {
     cout << endl;
     LOG_S(INFO) << "Continue calculation";
-    recreate_writers_.store(true, std::memory_order_relaxed);
+    lock_.store(false, std::memory_order_relaxed);
   }
 #endif // ENABLE_HDF5
 
@@ -140,7 +138,6 @@ int main(int argc, char **argv)
 {
 #ifdef ENABLE_HDF5
   lock_.store(false, std::memory_order_relaxed);
-  recreate_writers_.store(false, std::memory_order_relaxed);
 #endif
 
   // handle signals
@@ -367,46 +364,22 @@ int main(int argc, char **argv)
           cout << "Waiting for ``USR2'' OS signal to continue" << flush;
         }
 
-        if (recreate_writers_)
+        cout << "." << flush;
+        sleep(1);
+      }
+
+      if (! file)
+        try
         {
-          // reopen HDF file initially
-          try
-          {
-            LOG_S(INFO) << "Locking data file...";
-            file = new HighFive::File(hdf5_filepath.c_str(), HighFive::File::ReadWrite);
-            out_controller.reopen(file);
-            LOG_S(INFO) << "Locked";
-          }
-          catch (const HighFive::Exception&)
-          {
-            LOG_S(FATAL) << "Can not open data file ``" << hdf5_filepath << "''. Not accessible, or corrupted";
-          }
-
-          // recreate all of the writers
-          // data_writers.clear();
-
-          // for (auto i = cfg.probes.begin(); i != cfg.probes.end(); ++i)
-          // {
-          //   int probe_size[4] = {i->dims[0], i->dims[1], i->dims[2], i->dims[3]};
-
-          //   DataWriter writer (cfg.output_data->data_root, i->component,
-          //                      i->specie, i->shape, probe_size, i->schedule,
-          //                      cfg.output_data->compress, cfg.output_data->compress_level,
-          //                      geometry_global, sim_time_clock, domains, cfg.cfg2str());
-
-          //   writer.hdf5_file = file; // pass pointer to opened HDF5 file to outEngineHDF5's object
-          //   writer.hdf5_init(cfg.cfg2str());
-
-          //   data_writers.push_back(writer);
-          // }
-          lock_.store(false, std::memory_order_relaxed);
+          LOG_S(INFO) << "Locking data file...";
+          file = new HighFive::File(hdf5_filepath.c_str(), HighFive::File::ReadWrite);
+          out_controller.reopen(file);
+          LOG_S(INFO) << "Locked";
         }
-        else
+        catch (const HighFive::Exception&)
         {
-          cout << "." << flush;
+          LOG_S(FATAL) << "Can not open data file ``" << hdf5_filepath << "''. Not accessible, or corrupted";
         }
-        sleep(1);
-      }
 #endif
     }
 
-- 
2.43.0


From 80772651fa8d78cf4d89876f99d360111b21610c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:02:31 +0000
Subject: [PATCH 57/67] fix: species and beams whose names have the same 16 bit
 hash got the same ID

---
 include/cfg.hpp |  1 +
 src/cfg.cpp     | 25 ++++++++++++++++++++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/include/cfg.hpp b/include/cfg.hpp
index 3e8ba14..661b725 100644
--- a/include/cfg.hpp
+++ b/include/cfg.hpp
@@ -229,6 +229,7 @@ private:
 #ifdef ENABLE_EXTERNAL_FIELDS
   void init_external_fields();
 #endif
+  bool id_exists(unsigned int id);
   void weight_macro_amount();
   bool method_limitations_check();
 };
diff --git a/src/cfg.cpp b/src/cfg.cpp
index 21da489..d4f33c4 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -159,6 +159,21 @@ Cfg::~Cfg()
 {
 }
 
+bool Cfg::id_exists(unsigned int id)
+{
+  //! is the ID already used for a specie or a beam
+
+  for (auto sp = particle_species.begin(); sp != particle_species.end(); ++sp)
+    if (sp->id == id)
+      return true;
+
+  for (auto bm = particle_beams.begin(); bm != particle_beams.end(); ++bm)
+    if (bm->id == id)
+      return true;
+
+  return false;
+}
+
 void Cfg::init_particles()
 {
   //! initialize particles charge, mass, number,
@@ -182,6 +197,10 @@ void Cfg::init_particles()
 
     unsigned short current_specie_id = algo::common::hash_from_string(specie_name, SPECIE_HASH_SALT);
 
+    // hashes of different names can be equal, IDs can not
+    while (id_exists(current_specie_id))
+      ++current_specie_id;
+
     LOG_S(MAX) << "Specie ID is ``" << current_specie_id << "'' for ``" << specie_name << "''";
 
     p_s.id = current_specie_id;
@@ -343,7 +362,11 @@ void Cfg::init_beam()
                        << "'' already exists. Beam names should be unique";
 
       // ! calculate current beam ID from its name:
-      unsigned int current_beam_id = algo::common::hash_from_string(beam_name, BEAM_HASH_SALT);
+      unsigned short current_beam_id = algo::common::hash_from_string(beam_name, BEAM_HASH_SALT);
+
+      // hashes of different names can be equal, IDs can not
+      while (id_exists(current_beam_id))
+        ++current_beam_id;
 
       LOG_S(MAX) << "Beam ID is ``" << current_beam_id << "'' for ``" << beam_name << "''";
 
-- 
2.43.0


From 94fc24f2144a4c989b7501d26a01e8b2763da3aa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:02:31 +0000
Subject: [PATCH 58/67] fix: searching for macroparticles that divide by the
 cells never ended when the cell amount, calculated in doubles, was not whole

---
 src/specieP.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index 7b98b8f..dcb5a92 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -45,12 +45,8 @@ SpecieP::SpecieP (unsigned int p_id,
 /// spatial distributions
 #if defined(SWITCH_PLASMA_SPATIAL_REGULAR) || defined(SWITCH_PLASMA_SPATIAL_CENTERED)
   LOG_S(MAX) << "Correcting domain plasma particles macro amount to satisfy spatial distribution";
-  double r_size = geometry->size[0];
-  double z_size = geometry->size[1];
-  double dr = geometry->cell_size[0];
-  double dz = geometry->cell_size[1];
-
-  macro_amount = algo::common::nearest_divide(p_macro_amount, r_size / dr * z_size / dz);
+  macro_amount = algo::common::nearest_divide(p_macro_amount,
+                                              geometry->cell_amount[0] * geometry->cell_amount[1]);
 #else
   macro_amount = p_macro_amount;
 #endif // WITH_PLASMA_SPATIAL
-- 
2.43.0


From 9fb7657b78e2184cd091ee363061335a3537704f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:01:59 +0000
Subject: [PATCH 59/67] fix: a build with MPI did not compile (SMB.hpp asked
 for ENABLE_MPI before including the definitions)

---
 include/SMB.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/SMB.hpp b/include/SMB.hpp
index 64bce63..8142b60 100644
--- a/include/SMB.hpp
+++ b/include/SMB.hpp
@@ -18,6 +18,8 @@
 #ifndef _SMB_HPP_
 #define _SMB_HPP_
 
+#include "defines.hpp"
+
 #ifdef _OPENMP
 #include <omp.h>
 // #else
@@ -29,7 +31,6 @@
 // using namespace MPI;
 #endif // ENABLE_MPI
 
-#include "defines.hpp"
 #include "constant.hpp"
 #include "msg.hpp"
 #include "algo/grid.hpp"
-- 
2.43.0


From bb0cfa0c9720949a57b4540e82cff9424a362322 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:01:59 +0000
Subject: [PATCH 60/67] fix: MPI ranks sent to each other before any of them
 received, and waited for ever when messages are not buffered

---
 src/SMB.cpp | 58 ++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 44 insertions(+), 14 deletions(-)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index ee460a0..ebfe2fd 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -372,15 +372,20 @@ void SMB::particles_runaway_collector ()
   MPI_Type_create_struct(3, blocklengths, offsets, types, &mpi_prtl_type);
   MPI_Type_commit(&mpi_prtl_type);
 
+  // the neighbour could be sending, too: do not wait for it before receiving
+  vector<MPI_Request> requests;
+
   if (world_rank < world_size - 1)
   {
-    MPI_Send (
+    requests.push_back(MPI_REQUEST_NULL);
+    MPI_Isend (
       /* data         = */ &prtls_plus,
       /* count        = */ 1,
       /* datatype     = */ MPI_UNSIGNED,
       /* destination  = */ world_rank + 1,
       /* tag          = */ 0,
-      /* communicator = */ MPI_COMM_WORLD);
+      /* communicator = */ MPI_COMM_WORLD,
+      /* request      = */ &requests.back());
 
     LOG_S(MAX) << "Number of particles to be sent from MPI node ``"
                << world_rank
@@ -390,25 +395,29 @@ void SMB::particles_runaway_collector ()
     if (prtls_plus > 0)
       for (unsigned prtl = 0; prtl < prtls_plus; ++prtl)
       {
-        MPI_Send (
+        requests.push_back(MPI_REQUEST_NULL);
+        MPI_Isend (
           /* data         = */ &(*queue_particles_plus[prtl]),
           /* count        = */ 1,
           /* datatype     = */ mpi_prtl_type,
           /* destination  = */ world_rank + 1,
           /* tag          = */ 0,
-          /* communicator = */ MPI_COMM_WORLD);
+          /* communicator = */ MPI_COMM_WORLD,
+          /* request      = */ &requests.back());
       }
   }
 
   if (world_rank > 0)
   {
-    MPI_Send (
+    requests.push_back(MPI_REQUEST_NULL);
+    MPI_Isend (
       /* data         = */ &prtls_minus,
       /* count        = */ 1,
       /* datatype     = */ MPI_UNSIGNED,
       /* destination  = */ world_rank - 1,
       /* tag          = */ 0,
-      /* communicator = */ MPI_COMM_WORLD);
+      /* communicator = */ MPI_COMM_WORLD,
+      /* request      = */ &requests.back());
 
     LOG_S(MAX) << "Number of particles to be sent from MPI node ``"
                << world_rank
@@ -418,13 +427,15 @@ void SMB::particles_runaway_collector ()
     if (prtls_minus > 0)
       for (unsigned prtl = 0; prtl < prtls_minus; ++prtl)
       {
-        MPI_Send (
+        requests.push_back(MPI_REQUEST_NULL);
+        MPI_Isend (
           /* data         = */ &(*queue_particles_minus[prtl]),
           /* count        = */ 1,
           /* datatype     = */ mpi_prtl_type,
           /* destination  = */ world_rank - 1,
           /* tag          = */ 0,
-          /* communicator = */ MPI_COMM_WORLD);
+          /* communicator = */ MPI_COMM_WORLD,
+          /* request      = */ &requests.back());
       }
   }
 
@@ -546,6 +557,7 @@ void SMB::particles_runaway_collector ()
   }
 
   // send/receive and update domain species, then continue
+  MPI_Waitall(requests.size(), requests.data(), MPI_STATUSES_IGNORE);
   MPI_Barrier(MPI_COMM_WORLD);
 
   // clear temporary particle vectors after barrier
@@ -611,6 +623,9 @@ void SMB::current_overlay ()
   vector<MPICommOverlay> domains_plus_recv;
   vector<MPICommOverlay> domains_minus_recv;
 
+  // the neighbour could be sending, too: do not wait for it before receiving
+  vector<MPI_Request> requests;
+
   for (unsigned int i = 0; i < r_domains; ++i)
   {
     // send to +1 rank
@@ -690,7 +705,8 @@ void SMB::current_overlay ()
     for (auto i = domains_plus.begin(); i != domains_plus.end(); ++i)
     {
       // LOG_S(WARNING) << "1 Sending from " << world_rank << " to " << world_rank + 1;
-      MPI_Send(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank + 1, 0, MPI_COMM_WORLD);
+      requests.push_back(MPI_REQUEST_NULL);
+      MPI_Isend(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank + 1, 0, MPI_COMM_WORLD, &requests.back());
     }
 
     for (auto i = domains_plus_recv.begin(); i != domains_plus_recv.end(); ++i)
@@ -705,7 +721,8 @@ void SMB::current_overlay ()
     for (auto i = domains_minus.begin(); i != domains_minus.end(); ++i)
     {
       // LOG_S(WARNING) << "3 Sending from " << world_rank << " to " << world_rank - 1;
-      MPI_Send(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD);
+      requests.push_back(MPI_REQUEST_NULL);
+      MPI_Isend(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD, &requests.back());
     }
 
     for (auto i = domains_minus_recv.begin(); i != domains_minus_recv.end(); ++i)
@@ -715,6 +732,7 @@ void SMB::current_overlay ()
     }
   }
 
+  MPI_Waitall(requests.size(), requests.data(), MPI_STATUSES_IGNORE);
   MPI_Barrier(MPI_COMM_WORLD);
 
   ////////////////////////////////////////////////////////////
@@ -845,6 +863,9 @@ void SMB::field_h_overlay ()
   vector<MPICommOverlay> domains_plus_recv;
   vector<MPICommOverlay> domains_minus_recv;
 
+  // the neighbour could be sending, too: do not wait for it before receiving
+  vector<MPI_Request> requests;
+
   for (unsigned int i = 0; i < r_domains; ++i)
   {
     // send to +1 rank
@@ -924,7 +945,8 @@ void SMB::field_h_overlay ()
     for (auto i = domains_plus.begin(); i != domains_plus.end(); ++i)
     {
       // LOG_S(WARNING) << "1 Sending from " << world_rank << " to " << world_rank + 1;
-      MPI_Send(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank + 1, 0, MPI_COMM_WORLD);
+      requests.push_back(MPI_REQUEST_NULL);
+      MPI_Isend(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank + 1, 0, MPI_COMM_WORLD, &requests.back());
     }
 
     for (auto i = domains_plus_recv.begin(); i != domains_plus_recv.end(); ++i)
@@ -939,7 +961,8 @@ void SMB::field_h_overlay ()
     for (auto i = domains_minus.begin(); i != domains_minus.end(); ++i)
     {
       // LOG_S(WARNING) << "3 Sending from " << world_rank << " to " << world_rank - 1;
-      MPI_Send(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD);
+      requests.push_back(MPI_REQUEST_NULL);
+      MPI_Isend(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD, &requests.back());
     }
 
     for (auto i = domains_minus_recv.begin(); i != domains_minus_recv.end(); ++i)
@@ -949,6 +972,7 @@ void SMB::field_h_overlay ()
     }
   }
 
+  MPI_Waitall(requests.size(), requests.data(), MPI_STATUSES_IGNORE);
   MPI_Barrier(MPI_COMM_WORLD);
 
   ////////////////////////////////////////////////////////////
@@ -1072,6 +1096,9 @@ void SMB::field_e_overlay ()
   vector<MPICommOverlay> domains_plus_recv;
   vector<MPICommOverlay> domains_minus_recv;
 
+  // the neighbour could be sending, too: do not wait for it before receiving
+  vector<MPI_Request> requests;
+
   for (unsigned int i = 0; i < r_domains; ++i)
   {
     // send to +1 rank
@@ -1151,7 +1178,8 @@ void SMB::field_e_overlay ()
     for (auto i = domains_plus.begin(); i != domains_plus.end(); ++i)
     {
       // LOG_S(WARNING) << "1 Sending from " << world_rank << " to " << world_rank + 1;
-      MPI_Send(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank + 1, 0, MPI_COMM_WORLD);
+      requests.push_back(MPI_REQUEST_NULL);
+      MPI_Isend(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank + 1, 0, MPI_COMM_WORLD, &requests.back());
     }
 
     for (auto i = domains_plus_recv.begin(); i != domains_plus_recv.end(); ++i)
@@ -1166,7 +1194,8 @@ void SMB::field_e_overlay ()
     for (auto i = domains_minus.begin(); i != domains_minus.end(); ++i)
     {
       // LOG_S(WARNING) << "3 Sending from " << world_rank << " to " << world_rank - 1;
-      MPI_Send(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD);
+      requests.push_back(MPI_REQUEST_NULL);
+      MPI_Isend(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD, &requests.back());
     }
 
     for (auto i = domains_minus_recv.begin(); i != domains_minus_recv.end(); ++i)
@@ -1176,6 +1205,7 @@ void SMB::field_e_overlay ()
     }
   }
 
+  MPI_Waitall(requests.size(), requests.data(), MPI_STATUSES_IGNORE);
   MPI_Barrier(MPI_COMM_WORLD);
 
   ////////////////////////////////////////////////////////////
-- 
2.43.0


From 242f8e01eef4d94f17cf90a2d87a778d4d6c733c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:01:59 +0000
Subject: [PATCH 61/67] fix: MPI data type of particles was created every step
 and never released

---
 src/SMB.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index ebfe2fd..071a9c1 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -558,6 +558,7 @@ void SMB::particles_runaway_collector ()
 
   // send/receive and update domain species, then continue
   MPI_Waitall(requests.size(), requests.data(), MPI_STATUSES_IGNORE);
+  MPI_Type_free(&mpi_prtl_type);
   MPI_Barrier(MPI_COMM_WORLD);
 
   // clear temporary particle vectors after barrier
-- 
2.43.0


From 19351cf8ac7f09a0838edc1f7e53403899c3ca1a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:01:59 +0000
Subject: [PATCH 62/67] fix: magnetic field, acting on particles, was not
 exchanged between MPI ranks

---
 src/SMB.cpp | 285 +++++++++++++++++++++++++++-------------------------
 1 file changed, 146 insertions(+), 139 deletions(-)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index 071a9c1..855a07d 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -855,193 +855,200 @@ void SMB::field_h_overlay ()
     }
 
 #ifdef ENABLE_MPI
-  ////
-  //// send particles to other domain
-  ////
-  vector<MPICommOverlay> domains_plus;
-  vector<MPICommOverlay> domains_minus;
+  // both magnetic fields: at the same time with electric field and half step before
+  auto field = [](Domain *domain, int at_et) -> Grid3D<double> &
+    { return at_et ? domain->maxwell_solver->field_h_at_et : domain->maxwell_solver->field_h; };
 
-  vector<MPICommOverlay> domains_plus_recv;
-  vector<MPICommOverlay> domains_minus_recv;
-
-  // the neighbour could be sending, too: do not wait for it before receiving
-  vector<MPI_Request> requests;
-
-  for (unsigned int i = 0; i < r_domains; ++i)
+  for (int at_et = 0; at_et < 2; ++at_et)
   {
-    // send to +1 rank
-    Domain *sim_domain_plus = domains(i, z_domains - 1);
+    ////
+    //// send particles to other domain
+    ////
+    vector<MPICommOverlay> domains_plus;
+    vector<MPICommOverlay> domains_minus;
 
-    int domain_r_size = sim_domain_plus->maxwell_solver->field_h_at_et[0].x_size;
-    int domain_r_real_size = sim_domain_plus->maxwell_solver->field_h_at_et[0].x_real_size;
-    int domain_o_s = sim_domain_plus->maxwell_solver->field_h_at_et[0].o_s;
-    int domain_z_size = sim_domain_plus->maxwell_solver->field_h_at_et[0].y_size;
-    int domain_z_real_size = sim_domain_plus->maxwell_solver->field_h_at_et[0].y_real_size;
+    vector<MPICommOverlay> domains_plus_recv;
+    vector<MPICommOverlay> domains_minus_recv;
 
-    MPICommOverlay item_plus (domain_r_real_size, i, 0);
-    MPICommOverlay item_plus_recv (domain_r_real_size, i, 0);
+    // the neighbour could be sending, too: do not wait for it before receiving
+    vector<MPI_Request> requests;
 
-    // for (int j = -domain_o_s; j < domain_r_size + domain_o_s; ++j)
-    for (int j = 0; j < domain_r_real_size; ++j)
+    for (unsigned int i = 0; i < r_domains; ++i)
     {
-      int j_s = j - domain_o_s;
-      int d_r_s = domain_z_size + domain_o_s;
+      // send to +1 rank
+      Domain *sim_domain_plus = domains(i, z_domains - 1);
 
-      item_plus.col_0_0[j] = sim_domain_plus->maxwell_solver->field_h_at_et[0](j_s, d_r_s - 4);
-      item_plus.col_0_1[j] = sim_domain_plus->maxwell_solver->field_h_at_et[1](j_s, d_r_s - 4);
-      item_plus.col_0_2[j] = sim_domain_plus->maxwell_solver->field_h_at_et[2](j_s, d_r_s - 4);
+      int domain_r_size = field(sim_domain_plus, at_et)[0].x_size;
+      int domain_r_real_size = field(sim_domain_plus, at_et)[0].x_real_size;
+      int domain_o_s = field(sim_domain_plus, at_et)[0].o_s;
+      int domain_z_size = field(sim_domain_plus, at_et)[0].y_size;
+      int domain_z_real_size = field(sim_domain_plus, at_et)[0].y_real_size;
 
-      item_plus.col_1_0[j] = sim_domain_plus->maxwell_solver->field_h_at_et[0](j_s, d_r_s - 3);
-      item_plus.col_1_1[j] = sim_domain_plus->maxwell_solver->field_h_at_et[1](j_s, d_r_s - 3);
-      item_plus.col_1_2[j] = sim_domain_plus->maxwell_solver->field_h_at_et[2](j_s, d_r_s - 3);
+      MPICommOverlay item_plus (domain_r_real_size, i, 0);
+      MPICommOverlay item_plus_recv (domain_r_real_size, i, 0);
 
-      item_plus.col_2_0[j] = sim_domain_plus->maxwell_solver->field_h_at_et[0](j_s, d_r_s - 2);
-      item_plus.col_2_1[j] = sim_domain_plus->maxwell_solver->field_h_at_et[1](j_s, d_r_s - 2);
-      item_plus.col_2_2[j] = sim_domain_plus->maxwell_solver->field_h_at_et[2](j_s, d_r_s - 2);
+      // for (int j = -domain_o_s; j < domain_r_size + domain_o_s; ++j)
+      for (int j = 0; j < domain_r_real_size; ++j)
+      {
+        int j_s = j - domain_o_s;
+        int d_r_s = domain_z_size + domain_o_s;
 
-      item_plus.col_3_0[j] = sim_domain_plus->maxwell_solver->field_h_at_et[0](j_s, d_r_s - 1);
-      item_plus.col_3_1[j] = sim_domain_plus->maxwell_solver->field_h_at_et[1](j_s, d_r_s - 1);
-      item_plus.col_3_2[j] = sim_domain_plus->maxwell_solver->field_h_at_et[2](j_s, d_r_s - 1);
-    }
+        item_plus.col_0_0[j] = field(sim_domain_plus, at_et)[0](j_s, d_r_s - 4);
+        item_plus.col_0_1[j] = field(sim_domain_plus, at_et)[1](j_s, d_r_s - 4);
+        item_plus.col_0_2[j] = field(sim_domain_plus, at_et)[2](j_s, d_r_s - 4);
 
-    domains_plus.push_back( item_plus );
-    domains_plus_recv.push_back( item_plus_recv );
+        item_plus.col_1_0[j] = field(sim_domain_plus, at_et)[0](j_s, d_r_s - 3);
+        item_plus.col_1_1[j] = field(sim_domain_plus, at_et)[1](j_s, d_r_s - 3);
+        item_plus.col_1_2[j] = field(sim_domain_plus, at_et)[2](j_s, d_r_s - 3);
 
-    // send to -1 rank
-    Domain *sim_domain_minus = domains(i, 0);
+        item_plus.col_2_0[j] = field(sim_domain_plus, at_et)[0](j_s, d_r_s - 2);
+        item_plus.col_2_1[j] = field(sim_domain_plus, at_et)[1](j_s, d_r_s - 2);
+        item_plus.col_2_2[j] = field(sim_domain_plus, at_et)[2](j_s, d_r_s - 2);
 
-    domain_r_size = sim_domain_minus->maxwell_solver->field_h_at_et[0].x_size;
-    domain_o_s = sim_domain_minus->maxwell_solver->field_h_at_et[0].o_s;
+        item_plus.col_3_0[j] = field(sim_domain_plus, at_et)[0](j_s, d_r_s - 1);
+        item_plus.col_3_1[j] = field(sim_domain_plus, at_et)[1](j_s, d_r_s - 1);
+        item_plus.col_3_2[j] = field(sim_domain_plus, at_et)[2](j_s, d_r_s - 1);
+      }
 
-    MPICommOverlay item_minus (domain_r_size + 2 * domain_o_s, i, 0);
-    MPICommOverlay item_minus_recv (domain_r_size + 2 * domain_o_s, i, 0);
+      domains_plus.push_back( item_plus );
+      domains_plus_recv.push_back( item_plus_recv );
 
-    for (int j = -domain_o_s; j < domain_r_size + domain_o_s; ++j)
-    {
-      int j_s = j + domain_o_s;
+      // send to -1 rank
+      Domain *sim_domain_minus = domains(i, 0);
 
-      item_minus.col_0_0[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[0](j, 0 - domain_o_s);
-      item_minus.col_0_1[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[1](j, 0 - domain_o_s);
-      item_minus.col_0_2[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[2](j, 0 - domain_o_s);
+      domain_r_size = field(sim_domain_minus, at_et)[0].x_size;
+      domain_o_s = field(sim_domain_minus, at_et)[0].o_s;
 
-      item_minus.col_1_0[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[0](j, 1 - domain_o_s);
-      item_minus.col_1_1[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[1](j, 1 - domain_o_s);
-      item_minus.col_1_2[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[2](j, 1 - domain_o_s);
+      MPICommOverlay item_minus (domain_r_size + 2 * domain_o_s, i, 0);
+      MPICommOverlay item_minus_recv (domain_r_size + 2 * domain_o_s, i, 0);
 
-      item_minus.col_2_0[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[0](j, 2 - domain_o_s);
-      item_minus.col_2_1[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[1](j, 2 - domain_o_s);
-      item_minus.col_2_2[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[2](j, 2 - domain_o_s);
+      for (int j = -domain_o_s; j < domain_r_size + domain_o_s; ++j)
+      {
+        int j_s = j + domain_o_s;
 
-      item_minus.col_3_0[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[0](j, 3 - domain_o_s);
-      item_minus.col_3_1[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[1](j, 3 - domain_o_s);
-      item_minus.col_3_2[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[2](j, 3 - domain_o_s);
-    }
+        item_minus.col_0_0[j_s] = field(sim_domain_minus, at_et)[0](j, 0 - domain_o_s);
+        item_minus.col_0_1[j_s] = field(sim_domain_minus, at_et)[1](j, 0 - domain_o_s);
+        item_minus.col_0_2[j_s] = field(sim_domain_minus, at_et)[2](j, 0 - domain_o_s);
 
-    domains_minus.push_back( item_minus );
-    domains_minus_recv.push_back( item_minus_recv );
-  }
+        item_minus.col_1_0[j_s] = field(sim_domain_minus, at_et)[0](j, 1 - domain_o_s);
+        item_minus.col_1_1[j_s] = field(sim_domain_minus, at_et)[1](j, 1 - domain_o_s);
+        item_minus.col_1_2[j_s] = field(sim_domain_minus, at_et)[2](j, 1 - domain_o_s);
 
-  if (world_rank < world_size - 1)
-  {
-    for (auto i = domains_plus.begin(); i != domains_plus.end(); ++i)
-    {
-      // LOG_S(WARNING) << "1 Sending from " << world_rank << " to " << world_rank + 1;
-      requests.push_back(MPI_REQUEST_NULL);
-      MPI_Isend(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank + 1, 0, MPI_COMM_WORLD, &requests.back());
-    }
+        item_minus.col_2_0[j_s] = field(sim_domain_minus, at_et)[0](j, 2 - domain_o_s);
+        item_minus.col_2_1[j_s] = field(sim_domain_minus, at_et)[1](j, 2 - domain_o_s);
+        item_minus.col_2_2[j_s] = field(sim_domain_minus, at_et)[2](j, 2 - domain_o_s);
 
-    for (auto i = domains_plus_recv.begin(); i != domains_plus_recv.end(); ++i)
-    {
-      // LOG_S(WARNING) << "4 Receiving from " << world_rank + 1 << " at " << world_rank;
-      MPI_Recv(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank + 1, 0, MPI_COMM_WORLD, NULL);
+        item_minus.col_3_0[j_s] = field(sim_domain_minus, at_et)[0](j, 3 - domain_o_s);
+        item_minus.col_3_1[j_s] = field(sim_domain_minus, at_et)[1](j, 3 - domain_o_s);
+        item_minus.col_3_2[j_s] = field(sim_domain_minus, at_et)[2](j, 3 - domain_o_s);
+      }
+
+      domains_minus.push_back( item_minus );
+      domains_minus_recv.push_back( item_minus_recv );
     }
-  }
 
-  if (world_rank > 0)
-  {
-    for (auto i = domains_minus.begin(); i != domains_minus.end(); ++i)
+    if (world_rank < world_size - 1)
     {
-      // LOG_S(WARNING) << "3 Sending from " << world_rank << " to " << world_rank - 1;
-      requests.push_back(MPI_REQUEST_NULL);
-      MPI_Isend(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD, &requests.back());
+      for (auto i = domains_plus.begin(); i != domains_plus.end(); ++i)
+      {
+        // LOG_S(WARNING) << "1 Sending from " << world_rank << " to " << world_rank + 1;
+        requests.push_back(MPI_REQUEST_NULL);
+        MPI_Isend(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank + 1, 0, MPI_COMM_WORLD, &requests.back());
+      }
+
+      for (auto i = domains_plus_recv.begin(); i != domains_plus_recv.end(); ++i)
+      {
+        // LOG_S(WARNING) << "4 Receiving from " << world_rank + 1 << " at " << world_rank;
+        MPI_Recv(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank + 1, 0, MPI_COMM_WORLD, NULL);
+      }
     }
 
-    for (auto i = domains_minus_recv.begin(); i != domains_minus_recv.end(); ++i)
+    if (world_rank > 0)
     {
-      // LOG_S(WARNING) << "2 Receiving from " << world_rank - 1 << " at " << world_rank;
-      MPI_Recv(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD, NULL);
+      for (auto i = domains_minus.begin(); i != domains_minus.end(); ++i)
+      {
+        // LOG_S(WARNING) << "3 Sending from " << world_rank << " to " << world_rank - 1;
+        requests.push_back(MPI_REQUEST_NULL);
+        MPI_Isend(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD, &requests.back());
+      }
+
+      for (auto i = domains_minus_recv.begin(); i != domains_minus_recv.end(); ++i)
+      {
+        // LOG_S(WARNING) << "2 Receiving from " << world_rank - 1 << " at " << world_rank;
+        MPI_Recv(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD, NULL);
+      }
     }
-  }
 
-  MPI_Waitall(requests.size(), requests.data(), MPI_STATUSES_IGNORE);
-  MPI_Barrier(MPI_COMM_WORLD);
+    MPI_Waitall(requests.size(), requests.data(), MPI_STATUSES_IGNORE);
+    MPI_Barrier(MPI_COMM_WORLD);
 
-  ////////////////////////////////////////////////////////////
+    ////////////////////////////////////////////////////////////
 
-  if (world_rank > 0)
-    for (auto i = domains_minus_recv.begin(); i != domains_minus_recv.end(); ++i)
-    {
-      Domain *dst_domain_minus = domains(i->dst_domain[0], 0);
+    if (world_rank > 0)
+      for (auto i = domains_minus_recv.begin(); i != domains_minus_recv.end(); ++i)
+      {
+        Domain *dst_domain_minus = domains(i->dst_domain[0], 0);
 
-      int domain_r_size = dst_domain_minus->maxwell_solver->field_h_at_et[0].x_size;
-      int domain_o_s = dst_domain_minus->maxwell_solver->field_h_at_et[0].o_s;
-      int domain_z_size = dst_domain_minus->maxwell_solver->field_h_at_et[0].y_size;
+        int domain_r_size = field(dst_domain_minus, at_et)[0].x_size;
+        int domain_o_s = field(dst_domain_minus, at_et)[0].o_s;
+        int domain_z_size = field(dst_domain_minus, at_et)[0].y_size;
 
-      for (int j = -domain_o_s; j < domain_r_size + domain_o_s; ++j)
-      {
-        int j_s = j + domain_o_s;
+        for (int j = -domain_o_s; j < domain_r_size + domain_o_s; ++j)
+        {
+          int j_s = j + domain_o_s;
 
-        dst_domain_minus->maxwell_solver->field_h_at_et[0].inc(j, 0 - domain_o_s, i->col_0_0[j_s]);
-        dst_domain_minus->maxwell_solver->field_h_at_et[1].inc(j, 0 - domain_o_s, i->col_0_1[j_s]);
-        dst_domain_minus->maxwell_solver->field_h_at_et[2].inc(j, 0 - domain_o_s, i->col_0_2[j_s]);
+          field(dst_domain_minus, at_et)[0].inc(j, 0 - domain_o_s, i->col_0_0[j_s]);
+          field(dst_domain_minus, at_et)[1].inc(j, 0 - domain_o_s, i->col_0_1[j_s]);
+          field(dst_domain_minus, at_et)[2].inc(j, 0 - domain_o_s, i->col_0_2[j_s]);
 
-        dst_domain_minus->maxwell_solver->field_h_at_et[0].inc(j, 1 - domain_o_s, i->col_1_0[j_s]);
-        dst_domain_minus->maxwell_solver->field_h_at_et[1].inc(j, 1 - domain_o_s, i->col_1_1[j_s]);
-        dst_domain_minus->maxwell_solver->field_h_at_et[2].inc(j, 1 - domain_o_s, i->col_1_2[j_s]);
+          field(dst_domain_minus, at_et)[0].inc(j, 1 - domain_o_s, i->col_1_0[j_s]);
+          field(dst_domain_minus, at_et)[1].inc(j, 1 - domain_o_s, i->col_1_1[j_s]);
+          field(dst_domain_minus, at_et)[2].inc(j, 1 - domain_o_s, i->col_1_2[j_s]);
 
-        dst_domain_minus->maxwell_solver->field_h_at_et[0].inc(j, 2 - domain_o_s, i->col_2_0[j_s]);
-        dst_domain_minus->maxwell_solver->field_h_at_et[1].inc(j, 2 - domain_o_s, i->col_2_1[j_s]);
-        dst_domain_minus->maxwell_solver->field_h_at_et[2].inc(j, 2 - domain_o_s, i->col_2_2[j_s]);
+          field(dst_domain_minus, at_et)[0].inc(j, 2 - domain_o_s, i->col_2_0[j_s]);
+          field(dst_domain_minus, at_et)[1].inc(j, 2 - domain_o_s, i->col_2_1[j_s]);
+          field(dst_domain_minus, at_et)[2].inc(j, 2 - domain_o_s, i->col_2_2[j_s]);
 
-        dst_domain_minus->maxwell_solver->field_h_at_et[0].inc(j, 3 - domain_o_s, i->col_3_0[j_s]);
-        dst_domain_minus->maxwell_solver->field_h_at_et[1].inc(j, 3 - domain_o_s, i->col_3_1[j_s]);
-        dst_domain_minus->maxwell_solver->field_h_at_et[2].inc(j, 3 - domain_o_s, i->col_3_2[j_s]);
+          field(dst_domain_minus, at_et)[0].inc(j, 3 - domain_o_s, i->col_3_0[j_s]);
+          field(dst_domain_minus, at_et)[1].inc(j, 3 - domain_o_s, i->col_3_1[j_s]);
+          field(dst_domain_minus, at_et)[2].inc(j, 3 - domain_o_s, i->col_3_2[j_s]);
+        }
       }
-    }
 
-  if (world_rank < world_size - 1)
-    for (auto i = domains_plus_recv.begin(); i != domains_plus_recv.end(); ++i)
-    {
+    if (world_rank < world_size - 1)
+      for (auto i = domains_plus_recv.begin(); i != domains_plus_recv.end(); ++i)
+      {
 
-      Domain *dst_domain_plus = domains(i->dst_domain[0], z_domains - 1);
+        Domain *dst_domain_plus = domains(i->dst_domain[0], z_domains - 1);
 
-      int domain_r_size = dst_domain_plus->maxwell_solver->field_h_at_et[0].x_size;
-      int domain_o_s = dst_domain_plus->maxwell_solver->field_h_at_et[0].o_s;
-      int domain_z_size = dst_domain_plus->maxwell_solver->field_h_at_et[0].y_size;
-      int domain_z_real_size = dst_domain_plus->maxwell_solver->field_h_at_et[0].y_real_size;
+        int domain_r_size = field(dst_domain_plus, at_et)[0].x_size;
+        int domain_o_s = field(dst_domain_plus, at_et)[0].o_s;
+        int domain_z_size = field(dst_domain_plus, at_et)[0].y_size;
+        int domain_z_real_size = field(dst_domain_plus, at_et)[0].y_real_size;
 
-      for (int j = -domain_o_s; j < domain_r_size + domain_o_s; ++j)
-      {
-        int j_s = j + domain_o_s;
-        int d_r_s = domain_z_size + domain_o_s;
+        for (int j = -domain_o_s; j < domain_r_size + domain_o_s; ++j)
+        {
+          int j_s = j + domain_o_s;
+          int d_r_s = domain_z_size + domain_o_s;
 
-        dst_domain_plus->maxwell_solver->field_h_at_et[0].inc(j, d_r_s - 1, i->col_3_0[j_s]);
-        dst_domain_plus->maxwell_solver->field_h_at_et[1].inc(j, d_r_s - 1, i->col_3_1[j_s]);
-        dst_domain_plus->maxwell_solver->field_h_at_et[2].inc(j, d_r_s - 1, i->col_3_2[j_s]);
+          field(dst_domain_plus, at_et)[0].inc(j, d_r_s - 1, i->col_3_0[j_s]);
+          field(dst_domain_plus, at_et)[1].inc(j, d_r_s - 1, i->col_3_1[j_s]);
+          field(dst_domain_plus, at_et)[2].inc(j, d_r_s - 1, i->col_3_2[j_s]);
 
-        dst_domain_plus->maxwell_solver->field_h_at_et[0].inc(j, d_r_s - 2, i->col_2_0[j_s]);
-        dst_domain_plus->maxwell_solver->field_h_at_et[1].inc(j, d_r_s - 2, i->col_2_1[j_s]);
-        dst_domain_plus->maxwell_solver->field_h_at_et[2].inc(j, d_r_s - 2, i->col_2_2[j_s]);
+          field(dst_domain_plus, at_et)[0].inc(j, d_r_s - 2, i->col_2_0[j_s]);
+          field(dst_domain_plus, at_et)[1].inc(j, d_r_s - 2, i->col_2_1[j_s]);
+          field(dst_domain_plus, at_et)[2].inc(j, d_r_s - 2, i->col_2_2[j_s]);
 
-        dst_domain_plus->maxwell_solver->field_h_at_et[0].inc(j, d_r_s - 3, i->col_1_0[j_s]);
-        dst_domain_plus->maxwell_solver->field_h_at_et[1].inc(j, d_r_s - 3, i->col_1_1[j_s]);
-        dst_domain_plus->maxwell_solver->field_h_at_et[2].inc(j, d_r_s - 3, i->col_1_2[j_s]);
+          field(dst_domain_plus, at_et)[0].inc(j, d_r_s - 3, i->col_1_0[j_s]);
+          field(dst_domain_plus, at_et)[1].inc(j, d_r_s - 3, i->col_1_1[j_s]);
+          field(dst_domain_plus, at_et)[2].inc(j, d_r_s - 3, i->col_1_2[j_s]);
 
-        dst_domain_plus->maxwell_solver->field_h_at_et[0].inc(j, d_r_s - 4, i->col_0_0[j_s]);
-        dst_domain_plus->maxwell_solver->field_h_at_et[1].inc(j, d_r_s - 4, i->col_0_1[j_s]);
-        dst_domain_plus->maxwell_solver->field_h_at_et[2].inc(j, d_r_s - 4, i->col_0_2[j_s]);
+          field(dst_domain_plus, at_et)[0].inc(j, d_r_s - 4, i->col_0_0[j_s]);
+          field(dst_domain_plus, at_et)[1].inc(j, d_r_s - 4, i->col_0_1[j_s]);
+          field(dst_domain_plus, at_et)[2].inc(j, d_r_s - 4, i->col_0_2[j_s]);
+        }
       }
-    }
+  }
 #endif // ENABLE_MPI
 }
 
-- 
2.43.0


From 91a42d9dfe5197ba17b801c4cf44688b33f3da93 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:01:59 +0000
Subject: [PATCH 63/67] fix: density gradient of the plasma was steeper as many
 times as there are MPI ranks

---
 src/SMB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index 855a07d..2c37bab 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -131,7 +131,7 @@ SMB::SMB ( Cfg* _cfg, Geometry *_geometry, TimeSim *_time,
       {
         unsigned int grid_cell_macro_amount = (int)(k->macro_amount / r_domains / z_domains);
 
-        double drho_by_dz = (k->right_density - k->left_density) / geometry->size[1];
+        double drho_by_dz = (k->right_density - k->left_density) / geometry->global_size[1];
         double ld_local = k->left_density + drho_by_dz * left_z * geom_domain->cell_size[1];
         double rd_local = k->left_density + drho_by_dz * right_z * geom_domain->cell_size[1];
 
-- 
2.43.0


From bbcc64b23608e028fca27bd08ed5b798b8d09e78 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:01:59 +0000
Subject: [PATCH 64/67] fix: a particle out of the outer wall, sent to other
 MPI rank, was written out of its domains

---
 src/SMB.cpp | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index 2c37bab..36aabfe 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -257,23 +257,6 @@ void SMB::particles_runaway_collector ()
                     ++r_c;
                     res = true;
                   }
-                  ////
-                  //// check for conditions to send particle to previous/next SMB
-                  ////
-                  // send particle to previous SMB
-#ifdef ENABLE_MPI
-                  else if (z_cell < __geometry->cell_dims[1])
-                  {
-                    queue_particles_minus.push_back(o);
-                    res = true;
-                  }
-                  // send particle to next SMB
-                  else if (z_cell >= __geometry->cell_dims[3])
-                  {
-                    queue_particles_plus.push_back(o);
-                    res = true;
-                  }
-#endif // ENABLE_MPI
                   else if (r_cell >= __geometry->cell_dims[2])
                   {
                     // ``beam_'' at the begining of the name
@@ -295,6 +278,24 @@ void SMB::particles_runaway_collector ()
                     res = true;
                   }
 
+                  ////
+                  //// check for conditions to send particle to previous/next SMB
+                  ////
+                  // send particle to previous SMB
+#ifdef ENABLE_MPI
+                  else if (z_cell < __geometry->cell_dims[1])
+                  {
+                    queue_particles_minus.push_back(o);
+                    res = true;
+                  }
+                  // send particle to next SMB
+                  else if (z_cell >= __geometry->cell_dims[3])
+                  {
+                    queue_particles_plus.push_back(o);
+                    res = true;
+                  }
+#endif // ENABLE_MPI
+
                   // remove out-of-simulation particles
                   else if (z_cell >= __geometry->cell_dims[3])
                   {
-- 
2.43.0


From 11ef721e24e0283383201db4ad37844a5c12f377 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:01:59 +0000
Subject: [PATCH 65/67] fix: current near the corner of four domains was lost
 between MPI ranks

---
 src/SMB.cpp | 74 +++++++++++++++++++++++++++--------------------------
 1 file changed, 38 insertions(+), 36 deletions(-)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index 36aabfe..9cc357e 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -579,43 +579,9 @@ void SMB::particles_runaway_collector ()
 
 void SMB::current_overlay ()
 {
-  for (unsigned int idx = 0; idx < 2; ++idx)
-    for (unsigned int idy = 0; idy < 2; ++idy)
-    {
-#pragma omp parallel for
-      for (unsigned int i = idx; i < r_domains; i+=2)
-        for (unsigned int j = idy; j < z_domains; j+=2)
-        {
-          Domain *sim_domain = domains(i, j);
-
-          // update grid
-          if (i < geometry->domains_amount[0] - 1)
-          {
-            Domain *dst_domain = domains(i+1, j);
-            sim_domain->current->current.overlay_x(dst_domain->current->current);
-          }
-
-          if (j < geometry->domains_amount[1] - 1)
-          {
-            Domain *dst_domain = domains(i, j + 1);
-            sim_domain->current->current.overlay_y(dst_domain->current->current);
-          }
-
-          if (i < geometry->domains_amount[0] - 1 && j < geometry->domains_amount[1] - 1)
-          {
-            Domain *dst_domain = domains(i + 1, j + 1);
-            sim_domain->current->current.overlay_xy(dst_domain->current->current);
-          }
-
-          if (i < geometry->domains_amount[0] - 1 && j > 0)
-          {
-            Domain *dst_domain = domains(i + 1, j - 1);
-            sim_domain->current->current.overlay_yx(dst_domain->current->current);
-          }
-        }
-    }
-
 #ifdef ENABLE_MPI
+  // exchange with other SMBs before the domains of this one: the current, weighted by a domain
+  // of other SMB near the corner of four domains, should reach all of them
   ////
   //// send particles to other domain
   ////
@@ -805,6 +771,42 @@ void SMB::current_overlay ()
     }
 
 #endif // ENABLE_MPI
+
+  for (unsigned int idx = 0; idx < 2; ++idx)
+    for (unsigned int idy = 0; idy < 2; ++idy)
+    {
+#pragma omp parallel for
+      for (unsigned int i = idx; i < r_domains; i+=2)
+        for (unsigned int j = idy; j < z_domains; j+=2)
+        {
+          Domain *sim_domain = domains(i, j);
+
+          // update grid
+          if (i < geometry->domains_amount[0] - 1)
+          {
+            Domain *dst_domain = domains(i+1, j);
+            sim_domain->current->current.overlay_x(dst_domain->current->current);
+          }
+
+          if (j < geometry->domains_amount[1] - 1)
+          {
+            Domain *dst_domain = domains(i, j + 1);
+            sim_domain->current->current.overlay_y(dst_domain->current->current);
+          }
+
+          if (i < geometry->domains_amount[0] - 1 && j < geometry->domains_amount[1] - 1)
+          {
+            Domain *dst_domain = domains(i + 1, j + 1);
+            sim_domain->current->current.overlay_xy(dst_domain->current->current);
+          }
+
+          if (i < geometry->domains_amount[0] - 1 && j > 0)
+          {
+            Domain *dst_domain = domains(i + 1, j - 1);
+            sim_domain->current->current.overlay_yx(dst_domain->current->current);
+          }
+        }
+    }
 }
 
 void SMB::field_h_overlay ()
-- 
2.43.0


From e3214db4149c1b064e1a129d97e261e464d2a7b9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:17:43 +0000
Subject: [PATCH 66/67] fix: threads that hand particles over to other domains
 shared counters and lists without synchronisation

---
 src/SMB.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index 9cc357e..382f577 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -254,6 +254,7 @@ void SMB::particles_runaway_collector ()
                     LOG_S(ERROR) << "Particle's position is less, than 0. Position is: ["
                                  << P_POS_R((*o)) << ", "
                                  << P_POS_Z((*o)) << "]. Removing";
+#pragma omp atomic
                     ++r_c;
                     res = true;
                   }
@@ -274,6 +275,7 @@ void SMB::particles_runaway_collector ()
                                    << P_POS_R((*o)) << ", "
                                    << P_POS_Z((*o)) << "]. Removing";
                     }
+#pragma omp atomic
                     ++r_c;
                     res = true;
                   }
@@ -285,12 +287,14 @@ void SMB::particles_runaway_collector ()
 #ifdef ENABLE_MPI
                   else if (z_cell < __geometry->cell_dims[1])
                   {
+#pragma omp critical (runaway)
                     queue_particles_minus.push_back(o);
                     res = true;
                   }
                   // send particle to next SMB
                   else if (z_cell >= __geometry->cell_dims[3])
                   {
+#pragma omp critical (runaway)
                     queue_particles_plus.push_back(o);
                     res = true;
                   }
@@ -313,6 +317,7 @@ void SMB::particles_runaway_collector ()
                                    << P_POS_R((*o)) << ", "
                                    << P_POS_Z((*o)) << "]. Removing";
                     }
+#pragma omp atomic
                     ++r_c;
                     res = true;
                   }
@@ -320,6 +325,7 @@ void SMB::particles_runaway_collector ()
                   // move particles between cells
                   else if (i_dst != i || j_dst != j) // check that destination domain is different, than source
                   {
+#pragma omp atomic
                     ++j_c;
 
                     Domain *dst_domain = __domains(i_dst, j_dst);
@@ -332,6 +338,7 @@ void SMB::particles_runaway_collector ()
                                    << i << "," << j
                                    << "'' to domain ``"
                                    << i_dst << "," << j_dst << "''";
+#pragma omp critical (runaway)
                         (**pd).particles.push_back(o);
                       }
 
-- 
2.43.0


From fd446e30c6323a085f1b815107bd364c60fd74ee Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:17:43 +0000
Subject: [PATCH 67/67] fix: all threads used one random number generator
 without synchronisation

---
 src/math/rand.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/rand.cpp b/src/math/rand.cpp
index b80387c..2a5260a 100644
--- a/src/math/rand.cpp
+++ b/src/math/rand.cpp
@@ -21,8 +21,8 @@ using namespace std;
 
 namespace math::random
 {
-  std::random_device device;
-  std::mt19937 gen(device());
+  // every thread needs a generator of its own
+  thread_local std::mt19937 gen(std::random_device{}());
 
   std::uniform_real_distribution<double> uniform_distribution(0., 1.);
   double uniform()
-- 
2.43.0

