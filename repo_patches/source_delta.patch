From d74f609922ab14a2525056a31150e209bc782420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 01/47] fix: dispatch the HLL Riemann solver for 3D hydro
 states

riemann_hydro(HydroState3d) had no RIEMANN_HLL branch, so riemann=hll in 3D
left the flux uninitialised.
---
 src/shared/RiemannSolvers.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/shared/RiemannSolvers.h b/src/shared/RiemannSolvers.h
index 05c3396..c6be4f9 100644
--- a/src/shared/RiemannSolvers.h
+++ b/src/shared/RiemannSolvers.h
@@ -619,6 +619,11 @@ riemann_hydro(const HydroState3d & qleft,
 
     riemann_approx<HydroState3d>(qleft, qright, qgdnv, flux, params);
   }
+  else if (params.riemannSolverType == RIEMANN_HLL)
+  {
+
+    riemann_hll<HydroState3d>(qleft, qright, qgdnv, flux, params);
+  }
   else if (params.riemannSolverType == RIEMANN_HLLC)
   {
 
-- 
2.43.0


From 08d6c1dd6bc5432f0dce07e4ac172f4bb641e85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 02/47] fix: MHD 3D implementation 2 reconstructs By at x-z and
 y-z edges once

---
 src/muscl/MHDRunFunctors3D.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/muscl/MHDRunFunctors3D.h b/src/muscl/MHDRunFunctors3D.h
index feef699..6f76a18 100644
--- a/src/muscl/MHDRunFunctors3D.h
+++ b/src/muscl/MHDRunFunctors3D.h
@@ -1500,12 +1500,7 @@ public:
     {
       qEdge[IB] = B0 + 0.5 * (sign_b0 * dB0d1);
     }
-    else
-    {
-      qEdge[IB] += 0.5 * (sign_dq0 * dq0[IB] + sign_dq1 * dq1[IB]);
-    }
-
-    if (dir1 == IY)
+    else if (dir1 == IY)
     {
       qEdge[IB] = B1 + 0.5 * (sign_b1 * dB1d0);
     }
-- 
2.43.0


From 4daa4712754595716f726d81e95bc0c6abedd88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 03/47] fix: use the lower z neighbour in the limited slope of
 the face magnetic field (MHD 3D)

---
 src/muscl/MHDBaseFunctor3D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/muscl/MHDBaseFunctor3D.h b/src/muscl/MHDBaseFunctor3D.h
index cd068c7..a062d1c 100644
--- a/src/muscl/MHDBaseFunctor3D.h
+++ b/src/muscl/MHDBaseFunctor3D.h
@@ -139,7 +139,7 @@ public:
     // clang-format off
     const auto b       = udata(i          , j          , k          , component);
     const auto b_plus  = udata(i + delta_i, j + delta_j, k + delta_k, component);
-    const auto b_minus = udata(i - delta_i, j - delta_j, k + delta_k, component);
+    const auto b_minus = udata(i - delta_i, j - delta_j, k - delta_k, component);
     // clang-format on
 
     const real_t dlft = params.settings.slope_type * (b - b_minus);
-- 
2.43.0


From 16cefa3310fa7fbdfcdc13e81afc7657930ddb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 04/47] fix: zero the MHD slopes when slope_type is 0

---
 src/muscl/MHDBaseFunctor2D.h | 19 +++++++++++++++++++
 src/muscl/MHDBaseFunctor3D.h |  9 +++++++++
 2 files changed, 28 insertions(+)

diff --git a/src/muscl/MHDBaseFunctor2D.h b/src/muscl/MHDBaseFunctor2D.h
index 1cebea3..130d20d 100644
--- a/src/muscl/MHDBaseFunctor2D.h
+++ b/src/muscl/MHDBaseFunctor2D.h
@@ -386,6 +386,16 @@ public:
       slope_unsplit_hydro_2d_scalar(
         q[IC], qPlusX[IC], qMinusX[IC], qPlusY[IC], qMinusY[IC], &(dqX[IC]), &(dqY[IC]));
     }
+    else
+    {
+      // slope_type = 0
+
+      for (int ivar = 0; ivar < MHD_NBVAR; ++ivar)
+      {
+        dqX[ivar] = ZERO_F;
+        dqY[ivar] = ZERO_F;
+      }
+    }
 
   } // slope_unsplit_hydro_2d
 
@@ -429,6 +439,15 @@ public:
       dq[IB] = slope_unsplit_hydro_2d_scalar(q[IB], qp[IB], qm[IB]);
       dq[IC] = slope_unsplit_hydro_2d_scalar(q[IC], qp[IC], qm[IC]);
     }
+    else
+    {
+      // slope_type = 0
+
+      for (int ivar = 0; ivar < MHD_NBVAR; ++ivar)
+      {
+        dq[ivar] = ZERO_F;
+      }
+    }
 
   } // slope_unsplit_hydro_2d
 
diff --git a/src/muscl/MHDBaseFunctor3D.h b/src/muscl/MHDBaseFunctor3D.h
index a062d1c..20983bc 100644
--- a/src/muscl/MHDBaseFunctor3D.h
+++ b/src/muscl/MHDBaseFunctor3D.h
@@ -534,6 +534,15 @@ public:
       dq[IB] = slope_unsplit_hydro_3d_scalar(q[IB], qp[IB], qm[IB]);
       dq[IC] = slope_unsplit_hydro_3d_scalar(q[IC], qp[IC], qm[IC]);
     }
+    else
+    {
+      // slope_type = 0
+
+      for (int ivar = 0; ivar < MHD_NBVAR; ++ivar)
+      {
+        dq[ivar] = ZERO_F;
+      }
+    }
 
   } // slope_unsplit_hydro_3d
 
-- 
2.43.0


From e50d3b45e40414429124850bb349fd3ae51ab14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 05/47] fix: apply the gravity predictor to the right state at
 z faces (3D hydro, split fluxes)

---
 src/muscl/HydroRunFunctors3D.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/muscl/HydroRunFunctors3D.h b/src/muscl/HydroRunFunctors3D.h
index 5d59a9e..c28c195 100644
--- a/src/muscl/HydroRunFunctors3D.h
+++ b/src/muscl/HydroRunFunctors3D.h
@@ -1346,6 +1346,16 @@ public:
         // left interface : right state
         trace_unsplit_3d_along_dir(qLoc, dqX, dqY, dqZ, dtdx, dtdy, dtdz, FACE_ZMIN, qright);
 
+        if (gravity_enabled)
+        {
+          // we need to modify input to flux computation with
+          // gravity predictor (half time step)
+
+          qright[IU] += 0.5 * dt * gravity(i, j, k, IX);
+          qright[IV] += 0.5 * dt * gravity(i, j, k, IY);
+          qright[IW] += 0.5 * dt * gravity(i, j, k, IZ);
+        }
+
         qLocNeighbor[ID] = Qdata(i, j, k - 1, ID);
         dqX_neighbor[ID] = Slopes_x(i, j, k - 1, ID);
         dqY_neighbor[ID] = Slopes_y(i, j, k - 1, ID);
-- 
2.43.0


From c2af49e680e227f78738328527011a9afc2e8999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 06/47] fix: detect the degenerate star state in the HLLD
 solver (0/0 for field aligned with the face normal)

---
 src/shared/RiemannSolvers_MHD.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/RiemannSolvers_MHD.h b/src/shared/RiemannSolvers_MHD.h
index 86ed921..398dd1c 100644
--- a/src/shared/RiemannSolvers_MHD.h
+++ b/src/shared/RiemannSolvers_MHD.h
@@ -210,7 +210,7 @@ riemann_hlld(MHDState & qleft, MHDState & qright, MHDState & flux, const HydroPa
   real_t vstarl, wstarl;
   real_t bstarl, cstarl;
   // not very good (should use a small energy cut-off !!!)
-  if (a * a > 0 and fabs(estar / (a * a) - ONE_F) <= 1e-8)
+  if (a * a > 0 and fabs(estar / (a * a)) <= 1e-8)
   {
     vstarl = vl;
     bstarl = bl;
@@ -240,7 +240,7 @@ riemann_hlld(MHDState & qleft, MHDState & qright, MHDState & flux, const HydroPa
   real_t vstarr, wstarr;
   real_t bstarr, cstarr;
   // not very good (should use a small energy cut-off !!!)
-  if (a * a > 0 and fabs(estar / (a * a) - ONE_F) <= 1e-8)
+  if (a * a > 0 and fabs(estar / (a * a)) <= 1e-8)
   {
     vstarr = vr;
     bstarr = br;
-- 
2.43.0


From 548d931449123d4363ab402e6da82af90fc95dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 07/47] fix: keep the fast magnetosonic speed finite when it
 equals the Alfven speed

---
 src/shared/mhd_utils.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/shared/mhd_utils.h b/src/shared/mhd_utils.h
index 78bc630..6e91ad1 100644
--- a/src/shared/mhd_utils.h
+++ b/src/shared/mhd_utils.h
@@ -104,13 +104,13 @@ find_speed_fast(const MHDState & qvar, const HydroParams & params)
   c2 = gamma0 * p / d;
   d2 = 0.5 * (b2 / d + c2);
   if (dir == IX)
-    cf = sqrt(d2 + sqrt(d2 * d2 - c2 * a * a / d));
+    cf = sqrt(d2 + sqrt(fmax(d2 * d2 - c2 * a * a / d, ZERO_F)));
 
   if (dir == IY)
-    cf = sqrt(d2 + sqrt(d2 * d2 - c2 * b * b / d));
+    cf = sqrt(d2 + sqrt(fmax(d2 * d2 - c2 * b * b / d, ZERO_F)));
 
   if (dir == IZ)
-    cf = sqrt(d2 + sqrt(d2 * d2 - c2 * c * c / d));
+    cf = sqrt(d2 + sqrt(fmax(d2 * d2 - c2 * c * c / d, ZERO_F)));
 
   return cf;
 
@@ -345,12 +345,12 @@ find_speed_info(const MHDState qState, real_t (&fastInfoSpeed)[3], const HydroPa
 
   d2 = 0.5 * (b2 / d + c2);
 
-  cf = sqrt(d2 + sqrt(d2 * d2 - c2 * a * a / d));
+  cf = sqrt(d2 + sqrt(fmax(d2 * d2 - c2 * a * a / d, ZERO_F)));
 
   fastInfoSpeed[IX] = cf + fabs(u);
 
   // compute fastest info speed along Y
-  cf = sqrt(d2 + sqrt(d2 * d2 - c2 * b * b / d));
+  cf = sqrt(d2 + sqrt(fmax(d2 * d2 - c2 * b * b / d, ZERO_F)));
 
   fastInfoSpeed[IY] = cf + fabs(v);
 
@@ -358,7 +358,7 @@ find_speed_info(const MHDState qState, real_t (&fastInfoSpeed)[3], const HydroPa
   // compute fastest info speed along Z
   if (NDIM == THREE_D)
   {
-    cf = sqrt(d2 + sqrt(d2 * d2 - c2 * c * c / d));
+    cf = sqrt(d2 + sqrt(fmax(d2 * d2 - c2 * c * c / d, ZERO_F)));
 
     fastInfoSpeed[IZ] = cf + fabs(w);
   } // end THREE_D
@@ -395,7 +395,7 @@ find_speed_info(const MHDState & qState, const HydroParams & params)
   b2 = a * a + b * b + c * c;
   c2 = gamma0 * p / d;
   d2 = 0.5 * (b2 / d + c2);
-  cf = sqrt(d2 + sqrt(d2 * d2 - c2 * a * a / d));
+  cf = sqrt(d2 + sqrt(fmax(d2 * d2 - c2 * a * a / d, ZERO_F)));
 
   // return value
   return cf + fabs(u);
-- 
2.43.0


From 43b61b95ae4e7a243a308c956f5ee0d47b50e2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 08/47] fix: initial momentum of the implode problem is density
 times velocity

---
 src/muscl/HydroInitFunctors2D.h   |  8 ++++----
 src/muscl/HydroInitFunctors3D.h   | 12 ++++++------
 src/muscl/MHDInitFunctors2D.h     |  8 ++++----
 src/muscl/MHDInitFunctors3D.h     | 12 ++++++------
 src/sdm/init/InitImplodeFunctor.h | 20 ++++++++++----------
 5 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/muscl/HydroInitFunctors2D.h b/src/muscl/HydroInitFunctors2D.h
index 198b8a7..f2f1a91 100644
--- a/src/muscl/HydroInitFunctors2D.h
+++ b/src/muscl/HydroInitFunctors2D.h
@@ -105,15 +105,15 @@ public:
     {
       Udata(i, j, ID) = rho_out;
       Udata(i, j, IP) = p_out / (gamma0 - 1.0) + 0.5 * rho_out * (u_out * u_out + v_out * v_out);
-      Udata(i, j, IU) = u_out;
-      Udata(i, j, IV) = v_out;
+      Udata(i, j, IU) = rho_out * u_out;
+      Udata(i, j, IV) = rho_out * v_out;
     }
     else
     {
       Udata(i, j, ID) = rho_in;
       Udata(i, j, IP) = p_in / (gamma0 - 1.0) + 0.5 * rho_in * (u_in * u_in + v_in * v_in);
-      Udata(i, j, IU) = u_in;
-      Udata(i, j, IV) = v_in;
+      Udata(i, j, IU) = rho_in * u_in;
+      Udata(i, j, IV) = rho_in * v_in;
     }
 
   } // end operator ()
diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index 977bc1f..9e5f2d4 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -147,18 +147,18 @@ public:
       Udata(i, j, k, ID) = rho_out;
       Udata(i, j, k, IP) =
         p_out / (gamma0 - 1.0) + 0.5 * rho_out * (u_out * u_out + v_out * v_out + w_out * w_out);
-      Udata(i, j, k, IU) = u_out;
-      Udata(i, j, k, IV) = v_out;
-      Udata(i, j, k, IW) = w_out;
+      Udata(i, j, k, IU) = rho_out * u_out;
+      Udata(i, j, k, IV) = rho_out * v_out;
+      Udata(i, j, k, IW) = rho_out * w_out;
     }
     else
     {
       Udata(i, j, k, ID) = rho_in;
       Udata(i, j, k, IP) =
         p_in / (gamma0 - 1.0) + 0.5 * rho_in * (u_in * u_in + v_in * v_in + w_in * w_in);
-      Udata(i, j, k, IU) = u_in;
-      Udata(i, j, k, IV) = v_in;
-      Udata(i, j, k, IW) = w_in;
+      Udata(i, j, k, IU) = rho_in * u_in;
+      Udata(i, j, k, IV) = rho_in * v_in;
+      Udata(i, j, k, IW) = rho_in * w_in;
     }
 
   } // end operator ()
diff --git a/src/muscl/MHDInitFunctors2D.h b/src/muscl/MHDInitFunctors2D.h
index 09f38ce..b45462c 100644
--- a/src/muscl/MHDInitFunctors2D.h
+++ b/src/muscl/MHDInitFunctors2D.h
@@ -111,8 +111,8 @@ public:
       Udata(i, j, ID) = rho_out;
       Udata(i, j, IP) = p_out / (gamma0 - 1.0) + 0.5 * rho_out * (u_out * u_out + v_out * v_out) +
                         0.5 * (Bx_out * Bx_out + By_out * By_out);
-      Udata(i, j, IU) = u_out;
-      Udata(i, j, IV) = v_out;
+      Udata(i, j, IU) = rho_out * u_out;
+      Udata(i, j, IV) = rho_out * v_out;
       Udata(i, j, IW) = 0.0;
       Udata(i, j, IBX) = Bx_out;
       Udata(i, j, IBY) = By_out;
@@ -123,8 +123,8 @@ public:
       Udata(i, j, ID) = rho_in;
       Udata(i, j, IP) = p_in / (gamma0 - 1.0) + 0.5 * rho_in * (u_in * u_in + v_in * v_in) +
                         0.5 * (Bx_in * Bx_in + By_in * By_in);
-      Udata(i, j, IU) = u_in;
-      Udata(i, j, IV) = v_in;
+      Udata(i, j, IU) = rho_in * u_in;
+      Udata(i, j, IV) = rho_in * v_in;
       Udata(i, j, IW) = 0.0;
       Udata(i, j, IBX) = Bx_in;
       Udata(i, j, IBY) = By_in;
diff --git a/src/muscl/MHDInitFunctors3D.h b/src/muscl/MHDInitFunctors3D.h
index 5e996a4..01fdcf0 100644
--- a/src/muscl/MHDInitFunctors3D.h
+++ b/src/muscl/MHDInitFunctors3D.h
@@ -121,9 +121,9 @@ public:
       Udata(i, j, k, IP) = p_out / (gamma0 - 1.0) +
                            0.5 * rho_out * (u_out * u_out + v_out * v_out + w_out * w_out) +
                            0.5 * (Bx_out * Bx_out + By_out * By_out + Bz_out * Bz_out);
-      Udata(i, j, k, IU) = u_out;
-      Udata(i, j, k, IV) = v_out;
-      Udata(i, j, k, IW) = w_out;
+      Udata(i, j, k, IU) = rho_out * u_out;
+      Udata(i, j, k, IV) = rho_out * v_out;
+      Udata(i, j, k, IW) = rho_out * w_out;
       Udata(i, j, k, IBX) = Bx_out;
       Udata(i, j, k, IBY) = By_out;
       Udata(i, j, k, IBZ) = Bz_out;
@@ -134,9 +134,9 @@ public:
       Udata(i, j, k, IP) = p_in / (gamma0 - 1.0) +
                            0.5 * rho_in * (u_in * u_in + v_in * v_in + w_in * w_in) +
                            0.5 * (Bx_in * Bx_in + By_in * By_in + Bz_in * Bz_in);
-      Udata(i, j, k, IU) = u_in;
-      Udata(i, j, k, IV) = v_in;
-      Udata(i, j, k, IW) = w_in;
+      Udata(i, j, k, IU) = rho_in * u_in;
+      Udata(i, j, k, IV) = rho_in * v_in;
+      Udata(i, j, k, IW) = rho_in * w_in;
       Udata(i, j, k, IBX) = Bx_in;
       Udata(i, j, k, IBY) = By_in;
       Udata(i, j, k, IBZ) = Bz_in;
diff --git a/src/sdm/init/InitImplodeFunctor.h b/src/sdm/init/InitImplodeFunctor.h
index 371d01f..245c07b 100644
--- a/src/sdm/init/InitImplodeFunctor.h
+++ b/src/sdm/init/InitImplodeFunctor.h
@@ -125,16 +125,16 @@ public:
           Udata(i, j, dofMap(idx, idy, 0, ID)) = rho_out;
           Udata(i, j, dofMap(idx, idy, 0, IE)) =
             p_out / (gamma0 - 1.0) + 0.5 * rho_out * (u_out * u_out + v_out * v_out);
-          Udata(i, j, dofMap(idx, idy, 0, IU)) = u_out;
-          Udata(i, j, dofMap(idx, idy, 0, IV)) = v_out;
+          Udata(i, j, dofMap(idx, idy, 0, IU)) = rho_out * u_out;
+          Udata(i, j, dofMap(idx, idy, 0, IV)) = rho_out * v_out;
         }
         else
         {
           Udata(i, j, dofMap(idx, idy, 0, ID)) = rho_in;
           Udata(i, j, dofMap(idx, idy, 0, IE)) =
             p_in / (gamma0 - 1.0) + 0.5 * rho_in * (u_in * u_in + v_in * v_in);
-          Udata(i, j, dofMap(idx, idy, 0, IU)) = u_in;
-          Udata(i, j, dofMap(idx, idy, 0, IV)) = v_in;
+          Udata(i, j, dofMap(idx, idy, 0, IU)) = rho_in * u_in;
+          Udata(i, j, dofMap(idx, idy, 0, IV)) = rho_in * v_in;
         }
 
       } // end for idx
@@ -231,18 +231,18 @@ public:
             Udata(i, j, k, dofMap(idx, idy, idz, IE)) =
               p_out / (gamma0 - 1.0) +
               0.5 * rho_out * (u_out * u_out + v_out * v_out + w_out * w_out);
-            Udata(i, j, k, dofMap(idx, idy, idz, IU)) = u_out;
-            Udata(i, j, k, dofMap(idx, idy, idz, IV)) = v_out;
-            Udata(i, j, k, dofMap(idx, idy, idz, IW)) = w_out;
+            Udata(i, j, k, dofMap(idx, idy, idz, IU)) = rho_out * u_out;
+            Udata(i, j, k, dofMap(idx, idy, idz, IV)) = rho_out * v_out;
+            Udata(i, j, k, dofMap(idx, idy, idz, IW)) = rho_out * w_out;
           }
           else
           {
             Udata(i, j, k, dofMap(idx, idy, idz, ID)) = rho_in;
             Udata(i, j, k, dofMap(idx, idy, idz, IE)) =
               p_in / (gamma0 - 1.0) + 0.5 * rho_in * (u_in * u_in + v_in * v_in + w_in * w_in);
-            Udata(i, j, k, dofMap(idx, idy, idz, IU)) = u_in;
-            Udata(i, j, k, dofMap(idx, idy, idz, IV)) = v_in;
-            Udata(i, j, k, dofMap(idx, idy, idz, IW)) = w_in;
+            Udata(i, j, k, dofMap(idx, idy, idz, IU)) = rho_in * u_in;
+            Udata(i, j, k, dofMap(idx, idy, idz, IV)) = rho_in * v_in;
+            Udata(i, j, k, dofMap(idx, idy, idz, IW)) = rho_in * w_in;
           }
 
         } // end for idx
-- 
2.43.0


From 3db0b43d826b63edf7577616c744108589e5ee05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 09/47] fix: disk problem, finite state at the disk centre and
 energy matching the velocity

---
 src/muscl/HydroInitFunctors2D.h | 7 ++++---
 src/muscl/HydroInitFunctors3D.h | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/muscl/HydroInitFunctors2D.h b/src/muscl/HydroInitFunctors2D.h
index f2f1a91..866b59a 100644
--- a/src/muscl/HydroInitFunctors2D.h
+++ b/src/muscl/HydroInitFunctors2D.h
@@ -994,8 +994,8 @@ public:
       real_t r_sph = sqrt(r2 + eps * eps + z * z);
 
       // Use softened coordinates
-      real_t x_soft = x * (r_soft / r);
-      real_t y_soft = y * (r_soft / r);
+      real_t x_soft = r > 0 ? x * (r_soft / r) : ZERO_F;
+      real_t y_soft = r > 0 ? y * (r_soft / r) : ZERO_F;
 
       // local speed of sound
       const real_t csound = dparams.radial_speed_of_sound(r);
@@ -1045,7 +1045,8 @@ public:
 
       const double pressure = csound * csound * rho;
 
-      Udata(i, j, IE) = pressure / (gamma0 - 1.0) + 0.5 * rho * omega2 * (r2 + eps * eps);
+      Udata(i, j, IE) = pressure / (gamma0 - 1.0) +
+                            0.5 * rho * omega * omega * (x_soft * x_soft + y_soft * y_soft);
     }
 
   } // end operator ()
diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index 9e5f2d4..fd5b426 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -901,8 +901,8 @@ public:
       real_t r_sph = sqrt(r2 + eps * eps + z * z);
 
       // Use softened coordinates
-      real_t x_soft = x * (r_soft / r);
-      real_t y_soft = y * (r_soft / r);
+      real_t x_soft = r > 0 ? x * (r_soft / r) : ZERO_F;
+      real_t y_soft = r > 0 ? y * (r_soft / r) : ZERO_F;
 
       // local speed of sound
       const real_t csound = dparams.radial_speed_of_sound(r);
@@ -953,7 +953,8 @@ public:
 
       const double pressure = csound * csound * rho;
 
-      Udata(i, j, k, IE) = pressure / (gamma0 - 1.0) + 0.5 * rho * omega2 * (r2 + eps * eps);
+      Udata(i, j, k, IE) = pressure / (gamma0 - 1.0) +
+                            0.5 * rho * omega * omega * (x_soft * x_soft + y_soft * y_soft);
     }
 
   } // end operator ()
-- 
2.43.0


From 992485e9c4a3cf4ed8274ccf58e16c241c8c08a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 10/47] fix: no vertical velocity in the 3D Gresho vortex

---
 src/muscl/HydroInitFunctors3D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index fd5b426..925ff0a 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -521,7 +521,7 @@ public:
     Udata(i, j, k, ID) = rho0;
     Udata(i, j, k, IU) = rho0 * (-sinT * uphi);
     Udata(i, j, k, IV) = rho0 * (cosT * uphi);
-    Udata(i, j, k, IW) = rho0 * (cosT * uphi);
+    Udata(i, j, k, IW) = 0.0;
     Udata(i, j, k, IP) = p / (gamma0 - 1.0) + 0.5 *
                                                 (Udata(i, j, k, IU) * Udata(i, j, k, IU) +
                                                  Udata(i, j, k, IV) * Udata(i, j, k, IV) +
-- 
2.43.0


From 7d6f26e9241866273935d0d5f18d0ff63e4c48a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:02 +0000
Subject: [PATCH 11/47] fix: field loop initial energy uses face fields that
 are set, includes the out of plane velocity, and does not depend on the MPI
 decomposition

---
 src/muscl/MHDInitFunctors2D.h | 13 ++++++++++---
 src/muscl/MHDInitFunctors3D.h |  7 ++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/muscl/MHDInitFunctors2D.h b/src/muscl/MHDInitFunctors2D.h
index b45462c..e85d9af 100644
--- a/src/muscl/MHDInitFunctors2D.h
+++ b/src/muscl/MHDInitFunctors2D.h
@@ -842,9 +842,13 @@ public:
 #ifdef USE_MPI
     const int i_mpi = params.myMpiPos[IX];
     const int j_mpi = params.myMpiPos[IY];
+    const int nxg = nx * params.mx;
+    const int nyg = ny * params.my;
 #else
     const int i_mpi = 0;
     const int j_mpi = 0;
+    const int nxg = nx;
+    const int nyg = ny;
 #endif
 
     const real_t xmin = params.xmin;
@@ -864,13 +868,14 @@ public:
     const real_t cos_theta = 2.0 / sqrt(5.0);
     const real_t sin_theta = sqrt(1 - cos_theta * cos_theta);
 
-    if (i >= ghostWidth and i < isize - ghostWidth and j >= ghostWidth and j < jsize - ghostWidth)
+    // one more layer on the right: do_init_energy needs the face field at i+1, j+1
+    if (i >= ghostWidth and i <= isize - ghostWidth and j >= ghostWidth and j <= jsize - ghostWidth)
     {
 
       real_t x = xmin + dx / 2 + (i + nx * i_mpi - ghostWidth) * dx;
       real_t y = ymin + dy / 2 + (j + ny * j_mpi - ghostWidth) * dy;
 
-      real_t diag = sqrt(1.0 * (nx * nx + ny * ny + nz * nz));
+      real_t diag = sqrt(1.0 * nxg * nxg + 1.0 * nyg * nyg + 1.0 * nz * nz);
       real_t r = sqrt(x * x + y * y);
 
       // density
@@ -927,7 +932,9 @@ public:
           1.0f / (gamma0 - 1.0) +
           0.5 * (0.25 * SQR(Udata(i, j, IA) + Udata(i + 1, j, IA)) +
                  0.25 * SQR(Udata(i, j, IB) + Udata(i, j + 1, IB))) +
-          0.5 * (Udata(i, j, IU) * Udata(i, j, IU) + Udata(i, j, IV) * Udata(i, j, IV)) /
+          0.5 *
+            (Udata(i, j, IU) * Udata(i, j, IU) + Udata(i, j, IV) * Udata(i, j, IV) +
+             Udata(i, j, IW) * Udata(i, j, IW)) /
             Udata(i, j, ID);
       }
     }
diff --git a/src/muscl/MHDInitFunctors3D.h b/src/muscl/MHDInitFunctors3D.h
index 01fdcf0..2f8897f 100644
--- a/src/muscl/MHDInitFunctors3D.h
+++ b/src/muscl/MHDInitFunctors3D.h
@@ -924,9 +924,10 @@ public:
     const real_t sin_theta = sqrt(1 - cos_theta * cos_theta);
 
     // clang-format off
-    if (i >= ghostWidth and i < isize - ghostWidth and
-        j >= ghostWidth and j < jsize - ghostWidth and
-        k >= ghostWidth and k < ksize - ghostWidth)
+    // one more layer on the right: do_init_energy needs the face field at i+1, j+1, k+1
+    if (i >= ghostWidth and i <= isize - ghostWidth and
+        j >= ghostWidth and j <= jsize - ghostWidth and
+        k >= ghostWidth and k <= ksize - ghostWidth)
     {
 
       real_t x = xmin + dx / 2 + (i + nx * i_mpi - ghostWidth) * dx;
-- 
2.43.0


From f2c5a2528bb15ec71f6132b089dfb54328a97639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:22 +0000
Subject: [PATCH 12/47] fix: do not halve the out of plane magnetic field in
 the 2D MHD primitive variables

---
 src/muscl/MHDRunFunctors2D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/muscl/MHDRunFunctors2D.h b/src/muscl/MHDRunFunctors2D.h
index 51c6592..9baf454 100644
--- a/src/muscl/MHDRunFunctors2D.h
+++ b/src/muscl/MHDRunFunctors2D.h
@@ -136,7 +136,7 @@ public:
       // get mag field in neighbor cells
       magFieldNeighbors[IX] = Udata(i + 1, j, IA);
       magFieldNeighbors[IY] = Udata(i, j + 1, IB);
-      magFieldNeighbors[IZ] = 0.0;
+      magFieldNeighbors[IZ] = Udata(i, j, IC);
 
       // get primitive variables in current cell
       constoprim_mhd(uLoc, magFieldNeighbors, c, qLoc);
-- 
2.43.0


From 9edef2c819c262041b82d2ca0cc258be76c91245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:54 +0000
Subject: [PATCH 13/47] fix: mirror the gravity field behind reflecting walls,
 so that no mass crosses them

---
 src/muscl/HydroRunFunctors2D.h | 57 ++++++++++++++++++++++++++++++
 src/muscl/HydroRunFunctors3D.h | 64 ++++++++++++++++++++++++++++++++++
 src/muscl/SolverHydroMuscl.h   |  8 +++++
 3 files changed, 129 insertions(+)

diff --git a/src/muscl/HydroRunFunctors2D.h b/src/muscl/HydroRunFunctors2D.h
index 5a0986c..b93c18b 100644
--- a/src/muscl/HydroRunFunctors2D.h
+++ b/src/muscl/HydroRunFunctors2D.h
@@ -1337,6 +1337,63 @@ public:
 
 }; // GravitySourceTermFunctor2D
 
+/*************************************************/
+/*************************************************/
+/*************************************************/
+/**
+ * Gravity in the ghost cells behind reflecting walls: the mirror image of the interior gravity
+ * (normal component changing sign), as for the momentum. Otherwise the half time step
+ * prediction breaks the symmetry at the wall, and matter crosses it.
+ */
+class MirrorGravityFunctor2D : public HydroBaseFunctor2D
+{
+
+public:
+  MirrorGravityFunctor2D(HydroParams params, VectorField2d gravity)
+    : HydroBaseFunctor2D(params)
+    , gravity(gravity){};
+
+  // static method which does it all: create and execute functor
+  static void
+  apply(HydroParams params, VectorField2d gravity)
+  {
+    MirrorGravityFunctor2D functor(params, gravity);
+    Kokkos::parallel_for(
+      "MirrorGravityFunctor2D",
+      Kokkos::MDRangePolicy<Kokkos::Rank<2>>({ 0, 0 }, { params.isize, params.jsize }),
+      functor);
+  }
+
+  KOKKOS_INLINE_FUNCTION
+  void
+  operator()(const int & i, const int & j) const
+  {
+    const int ghostWidth = params.ghostWidth;
+
+    // source cell
+    int i0 = i, j0 = j;
+
+    if (i < ghostWidth and params.boundary_type_xmin == BC_DIRICHLET)
+      i0 = 2 * ghostWidth - 1 - i;
+    else if (i >= params.nx + ghostWidth and params.boundary_type_xmax == BC_DIRICHLET)
+      i0 = 2 * (params.nx + ghostWidth) - 1 - i;
+
+    if (j < ghostWidth and params.boundary_type_ymin == BC_DIRICHLET)
+      j0 = 2 * ghostWidth - 1 - j;
+    else if (j >= params.ny + ghostWidth and params.boundary_type_ymax == BC_DIRICHLET)
+      j0 = 2 * (params.ny + ghostWidth) - 1 - j;
+
+    if (i0 != i or j0 != j)
+    {
+      gravity(i, j, IX) = i0 != i ? -gravity(i0, j0, IX) : gravity(i0, j0, IX);
+      gravity(i, j, IY) = j0 != j ? -gravity(i0, j0, IY) : gravity(i0, j0, IY);
+    }
+  }
+
+  VectorField2d gravity;
+
+}; // MirrorGravityFunctor2D
+
 } // namespace muscl
 
 } // namespace ppkMHD
diff --git a/src/muscl/HydroRunFunctors3D.h b/src/muscl/HydroRunFunctors3D.h
index c28c195..f1bbaee 100644
--- a/src/muscl/HydroRunFunctors3D.h
+++ b/src/muscl/HydroRunFunctors3D.h
@@ -1517,6 +1517,70 @@ public:
 
 }; // GravitySourceTermFunctor3D
 
+/*************************************************/
+/*************************************************/
+/*************************************************/
+/**
+ * Gravity in the ghost cells behind reflecting walls: the mirror image of the interior gravity
+ * (normal component changing sign), as for the momentum. Otherwise the half time step
+ * prediction breaks the symmetry at the wall, and matter crosses it.
+ */
+class MirrorGravityFunctor3D : public HydroBaseFunctor3D
+{
+
+public:
+  MirrorGravityFunctor3D(HydroParams params, VectorField3d gravity)
+    : HydroBaseFunctor3D(params)
+    , gravity(gravity){};
+
+  // static method which does it all: create and execute functor
+  static void
+  apply(HydroParams params, VectorField3d gravity)
+  {
+    MirrorGravityFunctor3D functor(params, gravity);
+    Kokkos::parallel_for(
+      "MirrorGravityFunctor3D",
+      Kokkos::MDRangePolicy<Kokkos::Rank<3>>({ 0, 0, 0 },
+                                             { params.isize, params.jsize, params.ksize }),
+      functor);
+  }
+
+  KOKKOS_INLINE_FUNCTION
+  void
+  operator()(const int & i, const int & j, const int & k) const
+  {
+    const int ghostWidth = params.ghostWidth;
+
+    // source cell
+    int i0 = i, j0 = j, k0 = k;
+
+    if (i < ghostWidth and params.boundary_type_xmin == BC_DIRICHLET)
+      i0 = 2 * ghostWidth - 1 - i;
+    else if (i >= params.nx + ghostWidth and params.boundary_type_xmax == BC_DIRICHLET)
+      i0 = 2 * (params.nx + ghostWidth) - 1 - i;
+
+    if (j < ghostWidth and params.boundary_type_ymin == BC_DIRICHLET)
+      j0 = 2 * ghostWidth - 1 - j;
+    else if (j >= params.ny + ghostWidth and params.boundary_type_ymax == BC_DIRICHLET)
+      j0 = 2 * (params.ny + ghostWidth) - 1 - j;
+
+    if (k < ghostWidth and params.boundary_type_zmin == BC_DIRICHLET)
+      k0 = 2 * ghostWidth - 1 - k;
+    else if (k >= params.nz + ghostWidth and params.boundary_type_zmax == BC_DIRICHLET)
+      k0 = 2 * (params.nz + ghostWidth) - 1 - k;
+
+    if (i0 != i or j0 != j or k0 != k)
+    {
+      gravity(i, j, k, IX) = i0 != i ? -gravity(i0, j0, k0, IX) : gravity(i0, j0, k0, IX);
+      gravity(i, j, k, IY) = j0 != j ? -gravity(i0, j0, k0, IY) : gravity(i0, j0, k0, IY);
+      gravity(i, j, k, IZ) = k0 != k ? -gravity(i0, j0, k0, IZ) : gravity(i0, j0, k0, IZ);
+    }
+  }
+
+  VectorField3d gravity;
+
+}; // MirrorGravityFunctor3D
+
 } // namespace muscl
 
 } // namespace ppkMHD
diff --git a/src/muscl/SolverHydroMuscl.h b/src/muscl/SolverHydroMuscl.h
index 90ae1a3..4860460 100644
--- a/src/muscl/SolverHydroMuscl.h
+++ b/src/muscl/SolverHydroMuscl.h
@@ -290,6 +290,14 @@ SolverHydroMuscl<dim>::SolverHydroMuscl(HydroParams & params, ConfigMap & config
   // perform init condition
   init(U);
 
+  // gravity in ghost cells behind reflecting walls
+  if (m_gravity_enabled)
+  {
+    using MirrorGravityFunctor =
+      typename std::conditional<dim == 2, MirrorGravityFunctor2D, MirrorGravityFunctor3D>::type;
+    MirrorGravityFunctor::apply(params, gravity);
+  }
+
   // initialize boundaries
   make_boundaries(U);
 
-- 
2.43.0


From bce30f08409e647fa5cf6ef8b80057cc847421fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:54 +0000
Subject: [PATCH 14/47] fix: restore the gravity field when restarting

---
 src/muscl/SolverHydroMuscl.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/muscl/SolverHydroMuscl.cpp b/src/muscl/SolverHydroMuscl.cpp
index 39d5b92..eae2337 100644
--- a/src/muscl/SolverHydroMuscl.cpp
+++ b/src/muscl/SolverHydroMuscl.cpp
@@ -114,6 +114,17 @@ SolverHydroMuscl<2>::init(DataArray Udata)
   if (restartEnabled)
   { // load data from input data file
 
+    // the gravity field is not part of the saved data
+    if (m_gravity_enabled)
+    {
+      if (!m_problem_name.compare("rayleigh_taylor"))
+        init_rayleigh_taylor(Udata, gravity);
+      else if (!m_problem_name.compare("rising_bubble"))
+        init_rising_bubble(Udata, gravity);
+      else if (!m_problem_name.compare("disk"))
+        init_disk(Udata, gravity);
+    }
+
     init_restart(Udata);
   }
   else
@@ -193,6 +204,17 @@ SolverHydroMuscl<3>::init(DataArray Udata)
   if (restartEnabled)
   { // load data from input data file
 
+    // the gravity field is not part of the saved data
+    if (m_gravity_enabled)
+    {
+      if (!m_problem_name.compare("rayleigh_taylor"))
+        init_rayleigh_taylor(Udata, gravity);
+      else if (!m_problem_name.compare("rising_bubble"))
+        init_rising_bubble(Udata, gravity);
+      else if (!m_problem_name.compare("disk"))
+        init_disk(Udata, gravity);
+    }
+
     init_restart(Udata);
   }
   else
-- 
2.43.0


From 2b16d0fa945e4be76dd5f3422cfc7c5afe611765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:36 +0000
Subject: [PATCH 15/47] fix: parameter lines, section names and keys may have
 any length

---
 src/utils/config/inih/ini.cpp | 71 +++++++++++++++--------------------
 1 file changed, 30 insertions(+), 41 deletions(-)

diff --git a/src/utils/config/inih/ini.cpp b/src/utils/config/inih/ini.cpp
index 9f44c48..aa2f087 100644
--- a/src/utils/config/inih/ini.cpp
+++ b/src/utils/config/inih/ini.cpp
@@ -11,6 +11,7 @@ http://code.google.com/p/inih/
 #include <ctype.h>
 #include <string.h>
 
+#include <fstream>
 #include <sstream>
 #include <iostream>
 #include <string>
@@ -18,10 +19,6 @@ http://code.google.com/p/inih/
 
 #include "ini.h"
 
-#define MAX_LINE 200
-#define MAX_SECTION 50
-#define MAX_NAME 50
-
 /* Strip whitespace chars off end of given string, in place. Return s. */
 static char *
 rstrip(char * s)
@@ -56,18 +53,6 @@ find_char_or_comment(const char * s, char c)
   return (char *)s;
 }
 
-/* Version of strncpy that ensures dest (size bytes) is null-terminated. */
-static char *
-strncpy0(char * dest, const char * src, size_t size)
-{
-  /* Could use strncpy internally, but it causes gcc warnings */
-  size_t i;
-  for (i = 0; i < size - 1 && src[i]; i++)
-    dest[i] = src[i];
-  dest[i] = '\0';
-  return dest;
-}
-
 // ================================================================
 // ================================================================
 // ================================================================
@@ -77,12 +62,11 @@ ini_parse(const char * filename,
           int (*handler)(void *, const char *, const char *, const char *),
           void * user)
 {
-  /* Uses a fair bit of stack (use heap instead if you need to) */
-  char line[MAX_LINE];
-  char section[MAX_SECTION] = "";
-  char prev_name[MAX_NAME] = "";
+  /* lines, section names and keys may have any length */
+  std::string section;
+  std::string prev_name;
 
-  FILE * file;
+  char * line = NULL;
   char * start;
   char * end;
   char * name;
@@ -90,22 +74,27 @@ ini_parse(const char * filename,
   int    lineno = 0;
   int    error = 0;
 
-  file = fopen(filename, "r");
+  std::ifstream file(filename);
   if (!file)
     return -1;
 
   /* Scan through file line by line */
-  while (fgets(line, sizeof(line), file) != NULL)
+  for (std::string linestr = ""; std::getline(file, linestr);)
   {
     lineno++;
+
+    // copy std::string into a regular C char array
+    line = new char[linestr.length() + 1];
+    strcpy(line, linestr.c_str());
+
     start = lskip(rstrip(line));
 
 #if INI_ALLOW_MULTILINE
-    if (*prev_name && *start && start > line)
+    if (!prev_name.empty() && *start && start > line)
     {
       /* Non-black line with leading whitespace, treat as continuation
          of previous name's value (as per Python ConfigParser). */
-      if (!handler(user, section, prev_name, start) && !error)
+      if (!handler(user, section.c_str(), prev_name.c_str(), start) && !error)
         error = lineno;
     }
     else
@@ -121,8 +110,8 @@ ini_parse(const char * filename,
       if (*end == ']')
       {
         *end = '\0';
-        strncpy0(section, start + 1, sizeof(section));
-        *prev_name = '\0';
+        section = start + 1;
+        prev_name.clear();
       }
       else if (!error)
       {
@@ -145,8 +134,8 @@ ini_parse(const char * filename,
         rstrip(value);
 
         /* Valid name=value pair found, call handler */
-        strncpy0(prev_name, name, sizeof(prev_name));
-        if (!handler(user, section, name, value) && !error)
+        prev_name = name;
+        if (!handler(user, section.c_str(), name, value) && !error)
           error = lineno;
       }
       else if (!error)
@@ -155,9 +144,9 @@ ini_parse(const char * filename,
         error = lineno;
       }
     }
-  }
 
-  fclose(file);
+    delete[] line;
+  }
 
   return error;
 
@@ -172,10 +161,10 @@ ini_parse_buffer(char *& buffer,
                  int (*handler)(void *, const char *, const char *, const char *),
                  void * user)
 {
-  /* Uses a fair bit of stack (use heap instead if you need to) */
-  char * line = NULL;
-  char   section[MAX_SECTION] = "";
-  char   prev_name[MAX_NAME] = "";
+  /* lines, section names and keys may have any length */
+  char *      line = NULL;
+  std::string section;
+  std::string prev_name;
 
   // convert the input buffer into an input string stream
   std::istringstream strs;
@@ -202,11 +191,11 @@ ini_parse_buffer(char *& buffer,
     start = lskip(rstrip(line));
 
 #if INI_ALLOW_MULTILINE
-    if (*prev_name && *start && start > line)
+    if (!prev_name.empty() && *start && start > line)
     {
       /* Non-black line with leading whitespace, treat as continuation
    of previous name's value (as per Python ConfigParser). */
-      if (!handler(user, section, prev_name, start) && !error)
+      if (!handler(user, section.c_str(), prev_name.c_str(), start) && !error)
         error = lineno;
     }
     else
@@ -222,8 +211,8 @@ ini_parse_buffer(char *& buffer,
       if (*end == ']')
       {
         *end = '\0';
-        strncpy0(section, start + 1, sizeof(section));
-        *prev_name = '\0';
+        section = start + 1;
+        prev_name.clear();
       }
       else if (!error)
       {
@@ -246,8 +235,8 @@ ini_parse_buffer(char *& buffer,
         rstrip(value);
 
         /* Valid name=value pair found, call handler */
-        strncpy0(prev_name, name, sizeof(prev_name));
-        if (!handler(user, section, name, value) && !error)
+        prev_name = name;
+        if (!handler(user, section.c_str(), name, value) && !error)
           error = lineno;
       }
       else if (!error)
-- 
2.43.0


From 2bacf61ce5c3fbd1fb33c8c29529c1fd05161d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:36 +0000
Subject: [PATCH 16/47] fix: an indented comment is a comment, not the value of
 the preceding parameter

---
 src/utils/config/inih/ini.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/config/inih/ini.cpp b/src/utils/config/inih/ini.cpp
index aa2f087..fab8d18 100644
--- a/src/utils/config/inih/ini.cpp
+++ b/src/utils/config/inih/ini.cpp
@@ -90,7 +90,7 @@ ini_parse(const char * filename,
     start = lskip(rstrip(line));
 
 #if INI_ALLOW_MULTILINE
-    if (!prev_name.empty() && *start && start > line)
+    if (!prev_name.empty() && *start && *start != ';' && *start != '#' && start > line)
     {
       /* Non-black line with leading whitespace, treat as continuation
          of previous name's value (as per Python ConfigParser). */
@@ -191,7 +191,7 @@ ini_parse_buffer(char *& buffer,
     start = lskip(rstrip(line));
 
 #if INI_ALLOW_MULTILINE
-    if (!prev_name.empty() && *start && start > line)
+    if (!prev_name.empty() && *start && *start != ';' && *start != '#' && start > line)
     {
       /* Non-black line with leading whitespace, treat as continuation
    of previous name's value (as per Python ConfigParser). */
-- 
2.43.0


From acba1a02dc6da182f8024c63eb37e38334039bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:58 +0000
Subject: [PATCH 17/47] fix: a comment right after the equal sign of a
 parameter is not its value

---
 src/utils/config/inih/ini.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/config/inih/ini.cpp b/src/utils/config/inih/ini.cpp
index fab8d18..f7f3f7f 100644
--- a/src/utils/config/inih/ini.cpp
+++ b/src/utils/config/inih/ini.cpp
@@ -127,11 +127,11 @@ ini_parse(const char * filename,
       {
         *end = '\0';
         name = rstrip(start);
-        value = lskip(end + 1);
+        value = end + 1;
         end = find_char_or_comment(value, '\0');
         if (*end == ';')
           *end = '\0';
-        rstrip(value);
+        value = lskip(rstrip(value));
 
         /* Valid name=value pair found, call handler */
         prev_name = name;
@@ -228,11 +228,11 @@ ini_parse_buffer(char *& buffer,
       {
         *end = '\0';
         name = rstrip(start);
-        value = lskip(end + 1);
+        value = end + 1;
         end = find_char_or_comment(value, '\0');
         if (*end == ';')
           *end = '\0';
-        rstrip(value);
+        value = lskip(rstrip(value));
 
         /* Valid name=value pair found, call handler */
         prev_name = name;
-- 
2.43.0


From 8b0041c739b00147e6a983a0bbd86b7bf4f5c6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:55 +0000
Subject: [PATCH 18/47] fix: nlog=0 means no log instead of a division by zero

---
 src/muscl/SolverHydroMuscl.h | 2 +-
 src/muscl/SolverMHDMuscl.h   | 2 +-
 src/sdm/SolverHydroSDM.h     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/muscl/SolverHydroMuscl.h b/src/muscl/SolverHydroMuscl.h
index 4860460..68d9ee4 100644
--- a/src/muscl/SolverHydroMuscl.h
+++ b/src/muscl/SolverHydroMuscl.h
@@ -711,7 +711,7 @@ SolverHydroMuscl<dim>::next_iteration_impl()
   myRank = params.myRank;
 #endif // USE_MPI
 
-  if (m_iteration % m_nlog == 0)
+  if (m_nlog > 0 and m_iteration % m_nlog == 0)
   {
     if (myRank == 0)
     {
diff --git a/src/muscl/SolverMHDMuscl.h b/src/muscl/SolverMHDMuscl.h
index ecaaf08..b3e632f 100644
--- a/src/muscl/SolverMHDMuscl.h
+++ b/src/muscl/SolverMHDMuscl.h
@@ -753,7 +753,7 @@ SolverMHDMuscl<dim>::next_iteration_impl()
   myRank = params.myRank;
 #endif // USE_MPI
 
-  if (m_iteration % m_nlog == 0)
+  if (m_nlog > 0 and m_iteration % m_nlog == 0)
   {
     if (myRank == 0)
     {
diff --git a/src/sdm/SolverHydroSDM.h b/src/sdm/SolverHydroSDM.h
index 74a1334..9bf9432 100644
--- a/src/sdm/SolverHydroSDM.h
+++ b/src/sdm/SolverHydroSDM.h
@@ -901,7 +901,7 @@ SolverHydroSDM<dim, N>::next_iteration_impl()
 #endif // USE_MPI
   if (myRank == 0)
   {
-    if (m_iteration % params.nlog == 0)
+    if (params.nlog > 0 and m_iteration % params.nlog == 0)
     {
       // printf("time step=%7d (dt=% 10.8f t=% 10.8f)\n",m_iteration,m_dt, m_t);
       printf("time   step=%7d (dt=% 10.8g t=% 10.8f)\n", m_iteration, m_dt, m_t);
-- 
2.43.0


From e71d18ca5e13e3a59590fea990a0020e68eb499e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:57 +0000
Subject: [PATCH 19/47] fix: write the XDMF index next to the HDF5 files it
 refers to

---
 src/utils/io/IO_HDF5.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/io/IO_HDF5.cpp b/src/utils/io/IO_HDF5.cpp
index 8e1424c..ceb881d 100644
--- a/src/utils/io/IO_HDF5.cpp
+++ b/src/utils/io/IO_HDF5.cpp
@@ -134,6 +134,8 @@ writeXdmfForHdf5Wrapper(HydroParams &                      params,
     xdmfFilename = outputPrefix + "_" + outNum.str() + ".xmf";
   }
   std::fstream xdmfFile;
+  // next to the HDF5 files, which it refers to by their names only
+  xdmfFilename = outputDir + "/" + xdmfFilename;
   xdmfFile.open(xdmfFilename.c_str(), std::ios_base::out);
 
   xdmfFile << "<?xml version=\"1.0\" ?>" << std::endl;
-- 
2.43.0


From 91b8e6836681fd8b888fd1eea463886e7bcf9a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:29 +0000
Subject: [PATCH 20/47] fix: do not run without any Riemann solver when the one
 chosen (or approx, the default) does not exist for the equations

---
 src/shared/HydroParams.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/shared/HydroParams.cpp b/src/shared/HydroParams.cpp
index 2a744e6..1610cb8 100644
--- a/src/shared/HydroParams.cpp
+++ b/src/shared/HydroParams.cpp
@@ -200,6 +200,21 @@ HydroParams::setup(ConfigMap & configMap)
     riemannSolverType = RIEMANN_APPROX;
   }
 
+  // approx and hllc only exist for hydrodynamics, hlld only for MHD
+  if (mhdEnabled and
+      (riemannSolverType == RIEMANN_APPROX or riemannSolverType == RIEMANN_HLLC))
+  {
+    std::cout << "Riemann Solver " << riemannSolverStr << " is not available for MHD\n";
+    std::cout << "Use the default one : hlld\n";
+    riemannSolverType = RIEMANN_HLLD;
+  }
+  else if (!mhdEnabled and riemannSolverType == RIEMANN_HLLD)
+  {
+    std::cout << "Riemann Solver hlld is only available for MHD\n";
+    std::cout << "Use the default one : approximate\n";
+    riemannSolverType = RIEMANN_APPROX;
+  }
+
   implementationVersion = configMap.getFloat("OTHER", "implementationVersion", 0);
   if (implementationVersion != 0 and implementationVersion != 1 and implementationVersion != 2)
   {
-- 
2.43.0


From c789095aaa3dcf17b1d7190c70a3c5a61495bb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:59 +0000
Subject: [PATCH 21/47] fix: allocate the gravity field when the init condition
 sets it, even if gravity is disabled

---
 src/muscl/SolverHydroMuscl.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/muscl/SolverHydroMuscl.h b/src/muscl/SolverHydroMuscl.h
index 68d9ee4..e5311f2 100644
--- a/src/muscl/SolverHydroMuscl.h
+++ b/src/muscl/SolverHydroMuscl.h
@@ -200,6 +200,10 @@ SolverHydroMuscl<dim>::SolverHydroMuscl(HydroParams & params, ConfigMap & config
 
   long long int total_mem_size = 0;
 
+  // the init condition of these problems sets the gravity field, be gravity enabled or not
+  const bool gravity_needed = m_gravity_enabled or m_problem_name == "rayleigh_taylor" or
+                              m_problem_name == "rising_bubble" or m_problem_name == "disk";
+
   /*
    * memory allocation (use sizes with ghosts included).
    *
@@ -239,7 +243,7 @@ SolverHydroMuscl<dim>::SolverHydroMuscl(HydroParams & params, ConfigMap & config
         isize * jsize * nbvar * sizeof(real_t) * 3; // 1+1+1 for Slopes_x+Slopes_y+Fluxes_x
     }
 
-    if (m_gravity_enabled)
+    if (gravity_needed)
     {
       gravity = VectorField("gravity field", isize, jsize);
       total_mem_size += isize * jsize * 2;
@@ -279,7 +283,7 @@ SolverHydroMuscl<dim>::SolverHydroMuscl(HydroParams & params, ConfigMap & config
       total_mem_size += isize * jsize * ksize * nbvar * sizeof(real_t) * 4; // 1+1+1+1=4 Slopes
     }
 
-    if (m_gravity_enabled)
+    if (gravity_needed)
     {
       gravity = VectorField("gravity field", isize, jsize, ksize);
       total_mem_size += isize * jsize * ksize * 3;
-- 
2.43.0


From 1c923be7ba8bebd6e59036a0865f2f129de61e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:59 +0000
Subject: [PATCH 22/47] fix: the sine perturbation of the Kelvin-Helmholtz
 problem left the hydro state unset (zero density)

---
 src/muscl/HydroInitFunctors2D.h           | 17 +++++++++++
 src/muscl/HydroInitFunctors3D.h           | 19 ++++++++++++
 src/sdm/init/InitKelvinHelmholtzFunctor.h | 36 +++++++++++++++++++++++
 3 files changed, 72 insertions(+)

diff --git a/src/muscl/HydroInitFunctors2D.h b/src/muscl/HydroInitFunctors2D.h
index 866b59a..a09fffe 100644
--- a/src/muscl/HydroInitFunctors2D.h
+++ b/src/muscl/HydroInitFunctors2D.h
@@ -334,6 +334,23 @@ public:
       Udata(i, j, IV) = d * v;
       Udata(i, j, IP) = pressure / (gamma0 - 1.0) + 0.5 * d * (u * u + v * v);
     }
+    else if (khParams.p_sine)
+    {
+
+      const int    n = khParams.mode;
+      const real_t w0 = khParams.w0;
+      const double y1 = 0.25;
+      const double y2 = 0.75;
+
+      const real_t d = (y >= y1 and y <= y2) ? d_in : d_out;
+      const real_t u = (y >= y1 and y <= y2) ? vflow_in : vflow_out;
+      const real_t v = w0 * sin(n * M_PI * x);
+
+      Udata(i, j, ID) = d;
+      Udata(i, j, IU) = d * u;
+      Udata(i, j, IV) = d * v;
+      Udata(i, j, IP) = pressure / (gamma0 - 1.0) + 0.5 * d * (u * u + v * v);
+    }
 
   } // end operator ()
 
diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index 925ff0a..2b4683e 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -411,6 +411,25 @@ public:
       Udata(i, j, k, IW) = d * w;
       Udata(i, j, k, IP) = pressure / (gamma0 - 1.0) + 0.5 * d * (u * u + v * v + w * w);
     }
+    else if (khParams.p_sine)
+    {
+
+      const int    n = khParams.mode;
+      const real_t w0 = khParams.w0;
+      const double z1 = 0.25;
+      const double z2 = 0.75;
+
+      const real_t d = (z >= z1 and z <= z2) ? d_in : d_out;
+      const real_t u = (z >= z1 and z <= z2) ? vflow_in : vflow_out;
+      const real_t v = 0.0;
+      const real_t w = w0 * sin(n * M_PI * x);
+
+      Udata(i, j, k, ID) = d;
+      Udata(i, j, k, IU) = d * u;
+      Udata(i, j, k, IV) = d * v;
+      Udata(i, j, k, IW) = d * w;
+      Udata(i, j, k, IP) = pressure / (gamma0 - 1.0) + 0.5 * d * (u * u + v * v + w * w);
+    }
 
   } // end operator ()
 
diff --git a/src/sdm/init/InitKelvinHelmholtzFunctor.h b/src/sdm/init/InitKelvinHelmholtzFunctor.h
index fdbfd54..3037af8 100644
--- a/src/sdm/init/InitKelvinHelmholtzFunctor.h
+++ b/src/sdm/init/InitKelvinHelmholtzFunctor.h
@@ -175,6 +175,23 @@ public:
           Udata(i, j, dofMap(idx, idy, 0, IE)) =
             pressure / (gamma0 - 1.0) + 0.5 * d * (u * u + v * v);
         }
+        else if (khParams.p_sine)
+        {
+
+          const int    n = khParams.mode;
+          const real_t w0 = khParams.w0;
+          const double y1 = 0.25;
+          const double y2 = 0.75;
+
+          const real_t d = (y >= y1 and y <= y2) ? d_in : d_out;
+          const real_t u = (y >= y1 and y <= y2) ? vflow_in : vflow_out;
+          const real_t v = w0 * sin(n * M_PI * x);
+
+          Udata(i, j, dofMap(idx, idy, 0, ID)) = d;
+          Udata(i, j, dofMap(idx, idy, 0, IU)) = d * u;
+          Udata(i, j, dofMap(idx, idy, 0, IV)) = d * v;
+          Udata(i, j, dofMap(idx, idy, 0, IP)) = pressure / (gamma0 - 1.0) + 0.5 * d * (u * u + v * v);
+        }
 
       } // end for idx
     } // end for idy
@@ -330,6 +347,25 @@ public:
             Udata(i, j, k, dofMap(idx, idy, idz, IE)) =
               pressure / (gamma0 - 1.0) + 0.5 * d * (u * u + v * v + w * w);
           }
+          else if (khParams.p_sine)
+          {
+
+            const int    n = khParams.mode;
+            const real_t w0 = khParams.w0;
+            const double z1 = 0.25;
+            const double z2 = 0.75;
+
+            const real_t d = (z >= z1 and z <= z2) ? d_in : d_out;
+            const real_t u = (z >= z1 and z <= z2) ? vflow_in : vflow_out;
+            const real_t v = 0.0;
+            const real_t w = w0 * sin(n * M_PI * x);
+
+            Udata(i, j, k, dofMap(idx, idy, idz, ID)) = d;
+            Udata(i, j, k, dofMap(idx, idy, idz, IU)) = d * u;
+            Udata(i, j, k, dofMap(idx, idy, idz, IV)) = d * v;
+            Udata(i, j, k, dofMap(idx, idy, idz, IW)) = d * w;
+            Udata(i, j, k, dofMap(idx, idy, idz, IP)) = pressure / (gamma0 - 1.0) + 0.5 * d * (u * u + v * v + w * w);
+          }
 
         } // end for idx
       } // end for idy
-- 
2.43.0


From e241ebc1ce68c086706615c653f0c412eb0f2676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:09 +0000
Subject: [PATCH 23/47] fix: missing break, the 2D Riemann problem number 19
 was replaced by number 1

---
 src/shared/problems/initRiemannConfig2d.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shared/problems/initRiemannConfig2d.h b/src/shared/problems/initRiemannConfig2d.h
index f780abc..5a15f35 100644
--- a/src/shared/problems/initRiemannConfig2d.h
+++ b/src/shared/problems/initRiemannConfig2d.h
@@ -484,6 +484,7 @@ getRiemannConfig2d(int            numConfig,
       U3[IU] = 0.0;
       U3[IV] = -0.4259;
       U3[IP] = 0.4;
+      break;
 
     default:
       // Config 1
-- 
2.43.0


From 0fb80fd01ce74beb808d53d03a45678e77308d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:09 +0000
Subject: [PATCH 24/47] fix: states of the 2D Riemann problems number 6
 (uniform pressure) and 10 as published by Lax and Liu

---
 src/shared/problems/initRiemannConfig2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/problems/initRiemannConfig2d.h b/src/shared/problems/initRiemannConfig2d.h
index 5a15f35..717349c 100644
--- a/src/shared/problems/initRiemannConfig2d.h
+++ b/src/shared/problems/initRiemannConfig2d.h
@@ -174,7 +174,7 @@ getRiemannConfig2d(int            numConfig,
       U1[ID] = 2.0;
       U1[IU] = 0.75;
       U1[IV] = 0.5;
-      U1[IP] = 0.5;
+      U1[IP] = 1.0;
 
       U2[ID] = 1.0;
       U2[IU] = -0.75;
@@ -275,7 +275,7 @@ getRiemannConfig2d(int            numConfig,
 
       U3[ID] = 0.4562;
       U3[IU] = 0.0;
-      U3[IV] = -0.4259;
+      U3[IV] = -0.4297;
       U3[IP] = 0.3333;
 
       break;
-- 
2.43.0


From 51c2f86db4467b83a0e525e7430048e8c50148cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:05 +0000
Subject: [PATCH 25/47] fix: EulerEquations::compute_speed_of_sound returned
 the square of the speed of sound

---
 src/shared/EulerEquations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/EulerEquations.h b/src/shared/EulerEquations.h
index fa63c53..de1b014 100644
--- a/src/shared/EulerEquations.h
+++ b/src/shared/EulerEquations.h
@@ -118,7 +118,7 @@ struct EulerEquations<2>
   compute_speed_of_sound(const HydroState & w, real_t gamma0)
   {
 
-    return w[IP] * gamma0 / w[ID];
+    return sqrt(w[IP] * gamma0 / w[ID]);
 
   } // compute_speed_of_sound
 
@@ -515,7 +515,7 @@ struct EulerEquations<3>
   compute_speed_of_sound(const HydroState & w, real_t gamma0)
   {
 
-    return w[IP] * gamma0 / w[ID];
+    return sqrt(w[IP] * gamma0 / w[ID]);
 
   } // compute_speed_of_sound
 
-- 
2.43.0


From 7f1ef2974fcf70b2467a6f88683df1a6845d2c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:19 +0000
Subject: [PATCH 26/47] fix: SDM characteristics limiter computed the sound
 speed from conservative variables

---
 src/sdm/SDM_Limiter_Functors.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sdm/SDM_Limiter_Functors.h b/src/sdm/SDM_Limiter_Functors.h
index 50fcb30..0a40432 100644
--- a/src/sdm/SDM_Limiter_Functors.h
+++ b/src/sdm/SDM_Limiter_Functors.h
@@ -932,7 +932,9 @@ public:
     }
 
     // speed of sound from cell-averaged values
-    const real_t c = euler.compute_speed_of_sound(Uave, gamma0);
+    HydroState Wave;
+    euler.convert_to_primitive(Uave, Wave, gamma0);
+    const real_t c = euler.compute_speed_of_sound(Wave, gamma0);
 
     // read cell-averaged gradient, and compute difference with close neighbors
     for (int ivar = 0; ivar < nbvar; ++ivar)
@@ -1069,7 +1071,9 @@ public:
     }
 
     // speed of sound from cell-averaged values
-    const real_t c = euler.compute_speed_of_sound(Uave, gamma0);
+    HydroState Wave;
+    euler.convert_to_primitive(Uave, Wave, gamma0);
+    const real_t c = euler.compute_speed_of_sound(Wave, gamma0);
 
     // read cell-averaged gradient, and compute difference with close neighbors
     for (int ivar = 0; ivar < nbvar; ++ivar)
-- 
2.43.0


From 0330419438942ae4974ec627bbcf2e9b64b882a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:58 +0000
Subject: [PATCH 27/47] fix: SDM viscous flux functor never stored the velocity
 gradient array

---
 src/sdm/SDM_Viscous_Flux_Functors.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sdm/SDM_Viscous_Flux_Functors.h b/src/sdm/SDM_Viscous_Flux_Functors.h
index 0b73d61..a59fd10 100644
--- a/src/sdm/SDM_Viscous_Flux_Functors.h
+++ b/src/sdm/SDM_Viscous_Flux_Functors.h
@@ -84,6 +84,7 @@ public:
                                          DataArray                   UdataFlux)
     : SDMBaseFunctor<dim, N>(params, sdm_geom)
     , euler(euler)
+    , FUgrad(FUgrad)
     , UdataFlux(UdataFlux){};
 
   // ================================================
-- 
2.43.0


From 3678b8c4e50a0d12cc0240b244c592b0e3730762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:58 +0000
Subject: [PATCH 28/47] fix: SDM viscous divergence was taken of the velocity
 gradients instead of the viscous fluxes

---
 src/sdm/SolverHydroSDM.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sdm/SolverHydroSDM.h b/src/sdm/SolverHydroSDM.h
index 9bf9432..0728e1b 100644
--- a/src/sdm/SolverHydroSDM.h
+++ b/src/sdm/SolverHydroSDM.h
@@ -1176,7 +1176,7 @@ SolverHydroSDM<dim, N>::compute_viscous_fluxes_divergence_per_dir(DataArray Udat
   // 5.2 Finally compute derivative and accumulate (with negative sign) in Udata_fdiv
   {
     Interpolate_At_SolutionPoints_Functor<dim, N, dir, INTERPOLATE_DERIVATIVE_NEGATIVE> functor(
-      params, sdm_geom, FUgrad, Udata_fdiv);
+      params, sdm_geom, Fluxes, Udata_fdiv);
     Kokkos::parallel_for(nbCells, functor);
   }
 
-- 
2.43.0


From 77622e31ed31342e35dff670e36ea6fc121d08f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:58 +0000
Subject: [PATCH 29/47] fix: SDM average at cell borders ignored the list of
 components to average

---
 src/sdm/SDM_Interpolate_viscous_Functors.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sdm/SDM_Interpolate_viscous_Functors.h b/src/sdm/SDM_Interpolate_viscous_Functors.h
index e35f2a0..03a1726 100644
--- a/src/sdm/SDM_Interpolate_viscous_Functors.h
+++ b/src/sdm/SDM_Interpolate_viscous_Functors.h
@@ -384,7 +384,7 @@ public:
     : SDMBaseFunctor<dim, N>(params, sdm_geom)
     , UdataFlux(UdataFlux)
     , nbvar(nbvar)
-    , var_index(){};
+    , var_index(var_index){};
 
   // static method which does it all: create and execute functor
   static void
-- 
2.43.0


From 79065e5ecaf22b4b668abadd124a89c8548a7bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:58 +0000
Subject: [PATCH 30/47] fix: SDM velocity gradients were accumulated over the
 time steps

---
 src/sdm/SDM_Interpolate_viscous_Functors.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sdm/SDM_Interpolate_viscous_Functors.h b/src/sdm/SDM_Interpolate_viscous_Functors.h
index 03a1726..af2b361 100644
--- a/src/sdm/SDM_Interpolate_viscous_Functors.h
+++ b/src/sdm/SDM_Interpolate_viscous_Functors.h
@@ -775,7 +775,7 @@ public:
 
           // copy back interpolated value
           for (int idy = 0; idy < N; ++idy)
-            UdataSol(i, j, dofMapS(idx, idy, 0, index_var)) += sol[idy];
+            UdataSol(i, j, dofMapS(idx, idy, 0, index_var)) = sol[idy];
 
         } // end for ivar
 
@@ -843,7 +843,7 @@ public:
 
             // copy back interpolated value
             for (int idx = 0; idx < N; ++idx)
-              UdataSol(i, j, k, dofMapS(idx, idy, idz, index_var)) += sol[idx];
+              UdataSol(i, j, k, dofMapS(idx, idy, idz, index_var)) = sol[idx];
 
           } // end for ivar
 
@@ -879,7 +879,7 @@ public:
 
             // copy back interpolated value
             for (int idy = 0; idy < N; ++idy)
-              UdataSol(i, j, k, dofMapS(idx, idy, idz, index_var)) += sol[idy];
+              UdataSol(i, j, k, dofMapS(idx, idy, idz, index_var)) = sol[idy];
 
           } // end for ivar
 
@@ -915,7 +915,7 @@ public:
 
             // copy back interpolated value
             for (int idz = 0; idz < N; ++idz)
-              UdataSol(i, j, k, dofMapS(idx, idy, idz, index_var)) += sol[idz];
+              UdataSol(i, j, k, dofMapS(idx, idy, idz, index_var)) = sol[idz];
 
           } // end for ivar
 
-- 
2.43.0


From b245c11d0615deb02d6a18f8687b373f02c613eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:58 +0000
Subject: [PATCH 31/47] fix: SDM velocity gradients were divided by their first
 component

---
 src/sdm/SDM_Interpolate_viscous_Functors.h | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/sdm/SDM_Interpolate_viscous_Functors.h b/src/sdm/SDM_Interpolate_viscous_Functors.h
index af2b361..7c13d44 100644
--- a/src/sdm/SDM_Interpolate_viscous_Functors.h
+++ b/src/sdm/SDM_Interpolate_viscous_Functors.h
@@ -1055,9 +1055,7 @@ public:
           for (int idx = 0; idx < N; ++idx)
           {
 
-            // divide momentum by density to obtain velocity
-            sol[idx] = UdataSol(i, j, dofMapS(idx, idy, 0, ivar_in)) /
-                       UdataSol(i, j, dofMapS(idx, idy, 0, ID));
+            sol[idx] = UdataSol(i, j, dofMapS(idx, idy, 0, ivar_in));
           }
 
           // interpolate at flux points for this given variable
@@ -1102,8 +1100,7 @@ public:
           for (int idy = 0; idy < N; ++idy)
           {
 
-            sol[idy] = UdataSol(i, j, dofMapS(idx, idy, 0, ivar_in)) /
-                       UdataSol(i, j, dofMapS(idx, idy, 0, ID));
+            sol[idy] = UdataSol(i, j, dofMapS(idx, idy, 0, ivar_in));
           }
 
           // interpolate at flux points for this given variable
@@ -1175,8 +1172,7 @@ public:
             for (int idx = 0; idx < N; ++idx)
             {
 
-              sol[idx] = UdataSol(i, j, k, dofMapS(idx, idy, idz, ivar_in)) /
-                         UdataSol(i, j, k, dofMapS(idx, idy, idz, ID));
+              sol[idx] = UdataSol(i, j, k, dofMapS(idx, idy, idz, ivar_in));
             }
 
             // interpolate at flux points for this given variable
@@ -1225,8 +1221,7 @@ public:
             for (int idy = 0; idy < N; ++idy)
             {
 
-              sol[idy] = UdataSol(i, j, k, dofMapS(idx, idy, idz, ivar_in)) /
-                         UdataSol(i, j, k, dofMapS(idx, idy, idz, ID));
+              sol[idy] = UdataSol(i, j, k, dofMapS(idx, idy, idz, ivar_in));
             }
 
             // interpolate at flux points for this given variable
@@ -1275,8 +1270,7 @@ public:
             for (int idz = 0; idz < N; ++idz)
             {
 
-              sol[idz] = UdataSol(i, j, k, dofMapS(idx, idy, idz, ivar_in)) /
-                         UdataSol(i, j, k, dofMapS(idx, idy, idz, ID));
+              sol[idz] = UdataSol(i, j, k, dofMapS(idx, idy, idz, ivar_in));
             }
 
             // interpolate at flux points for this given variable
-- 
2.43.0


From 3dd4e889884118dc15fac85d3a4aa98f87b1f694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:13 +0000
Subject: [PATCH 32/47] fix: SDM viscous terms need two layers of ghost cells,
 gradients at the border of the domain were one-sided

---
 src/shared/HydroParams.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/shared/HydroParams.cpp b/src/shared/HydroParams.cpp
index 1610cb8..b3a5e4c 100644
--- a/src/shared/HydroParams.cpp
+++ b/src/shared/HydroParams.cpp
@@ -77,7 +77,8 @@ HydroParams::setup(ConfigMap & configMap)
 
     dimType = TWO_D;
     nbvar = 4;
-    ghostWidth = 1;
+    // viscous terms require the velocity gradients in the first layer of ghost cells
+    ghostWidth = configMap.getFloat("hydro", "mu", 0.0) > 0 ? 2 : 1;
 
 #endif // USE_SDM
   }
@@ -89,7 +90,8 @@ HydroParams::setup(ConfigMap & configMap)
 
     dimType = THREE_D;
     nbvar = 5;
-    ghostWidth = 1;
+    // viscous terms require the velocity gradients in the first layer of ghost cells
+    ghostWidth = configMap.getFloat("hydro", "mu", 0.0) > 0 ? 2 : 1;
 
 #endif // USE_SDM
   }
-- 
2.43.0


From ccba131c9a3965d84d4083e7b63ee05b04bfea47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:22 +0000
Subject: [PATCH 33/47] fix: SDM positivity preserving divided by a round-off
 error in cells of uniform density

---
 src/sdm/SDM_Positivity_preserving.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/sdm/SDM_Positivity_preserving.h b/src/sdm/SDM_Positivity_preserving.h
index f705105..509d140 100644
--- a/src/sdm/SDM_Positivity_preserving.h
+++ b/src/sdm/SDM_Positivity_preserving.h
@@ -161,7 +161,9 @@ public:
     } // end for idy
 
     const real_t eps1 = this->params.settings.smallr; // a small density
-    const real_t ratio = (rho_ave - eps1) / (rho_ave - rho_min) + 1e-13;
+    // only reduce the slopes when needed: rho_ave - rho_min can be a (negative) round-off error
+    const real_t ratio =
+      rho_min < eps1 ? (rho_ave - eps1) / (rho_ave - rho_min) + 1e-13 : ONE_F;
     const real_t theta1 = ratio < 1.0 ? ratio : 1.0;
 
     // check if we need to modify density at solution points and flux points
@@ -527,7 +529,9 @@ public:
     } // end for idz
 
     const real_t eps1 = this->params.settings.smallr; // a small density
-    const real_t ratio = (rho_ave - eps1) / (rho_ave - rho_min) + 1e-13;
+    // only reduce the slopes when needed: rho_ave - rho_min can be a (negative) round-off error
+    const real_t ratio =
+      rho_min < eps1 ? (rho_ave - eps1) / (rho_ave - rho_min) + 1e-13 : ONE_F;
     const real_t theta1 = ratio < 1.0 ? ratio : 1.0;
 
     // check if we need to modify density at solution points and flux points
@@ -1048,7 +1052,9 @@ public:
 
     // we can now compute theta1
     const real_t eps1 = this->params.settings.smallr; // a small density
-    const real_t ratio = (rho_ave - eps1) / (rho_ave - rho_min) + 1e-13;
+    // only reduce the slopes when needed: rho_ave - rho_min can be a (negative) round-off error
+    const real_t ratio =
+      rho_min < eps1 ? (rho_ave - eps1) / (rho_ave - rho_min) + 1e-13 : ONE_F;
     const real_t theta1 = ratio < 1.0 ? ratio : 1.0;
 
     // check if we need to modify density at solution points
@@ -1413,7 +1419,9 @@ public:
 
     // we can now compute theta1
     const real_t eps1 = this->params.settings.smallr; // a small density
-    const real_t ratio = (rho_ave - eps1) / (rho_ave - rho_min) + 1e-13;
+    // only reduce the slopes when needed: rho_ave - rho_min can be a (negative) round-off error
+    const real_t ratio =
+      rho_min < eps1 ? (rho_ave - eps1) / (rho_ave - rho_min) + 1e-13 : ONE_F;
     const real_t theta1 = ratio < 1.0 ? ratio : 1.0;
 
     // check if we need to modify density at solution points and flux points
-- 
2.43.0


From e6e69168fa5c5a1afbce6bb9a13f777046988c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:22 +0000
Subject: [PATCH 34/47] fix: SDM cell averages used quadrature weights which do
 not integrate the solution (not even a constant), so the limiter changed the
 mass of a cell

---
 src/sdm/SDM_Geometry.h         | 21 +++++++++
 src/sdm/SDM_Limiter_Functors.h | 85 ++++++++++------------------------
 2 files changed, 45 insertions(+), 61 deletions(-)

diff --git a/src/sdm/SDM_Geometry.h b/src/sdm/SDM_Geometry.h
index e994a75..63b98f4 100644
--- a/src/sdm/SDM_Geometry.h
+++ b/src/sdm/SDM_Geometry.h
@@ -108,6 +108,10 @@ public:
   //! location of solution points in reference cell [0,1]^dim, host array
   PointsArray1DHost solution_pts_1d_host;
 
+  //! weights of the interpolatory quadrature rule on [0,1] associated to the solution points
+  //! (exact for polynomials of degree up to N-1), used to compute cell averages
+  PointsArray1D solution_weights_1d;
+
   //! dim-dimensional array of solution points location (obtained by tensorial product)
   PointsArray solution_pts;
 
@@ -422,6 +426,23 @@ private:
     // copy to device
     Kokkos::deep_copy(solution_pts_1d, solution_pts_1d_host);
 
+    // quadrature weights: Fejer's first rule, i.e. the integral over [0,1] of each Lagrange
+    // polynomial of the Gauss-Chebyshev points
+    solution_weights_1d = PointsArray1D("solution_weights_1d", N);
+    PointsArray1DHost solution_weights_1d_host = Kokkos::create_mirror(solution_weights_1d);
+
+    for (int i = 0; i < N; i++)
+    {
+      const real_t theta = M_PI * (2 * i + 1) / 2 / N;
+
+      real_t w = 1.0;
+      for (int j = 1; j <= N / 2; j++)
+        w -= 2.0 * cos(2 * j * theta) / (4.0 * j * j - 1.0);
+
+      solution_weights_1d_host(i) = w / N;
+    }
+    Kokkos::deep_copy(solution_weights_1d, solution_weights_1d_host);
+
     // =================
     // Flux points
     // =================
diff --git a/src/sdm/SDM_Limiter_Functors.h b/src/sdm/SDM_Limiter_Functors.h
index 0a40432..c965ab5 100644
--- a/src/sdm/SDM_Limiter_Functors.h
+++ b/src/sdm/SDM_Limiter_Functors.h
@@ -26,7 +26,8 @@ namespace sdm
  * This functor computes the average HydroState in each cell
  * and store the result in Uaverage.
  *
- * The space average is performed using a Gauss-Chebyshev quadrature.
+ * The space average is performed using the interpolatory quadrature rule at solution points,
+ * which is exact for the polynomial representation of the solution.
  */
 template <int dim, int N>
 class Average_Conservative_Variables_Functor : public SDMBaseFunctor<dim, N>
@@ -82,27 +83,22 @@ public:
 
       real_t tmp = 0.0;
 
-      // perform the Gauss-Chebyshev quadrature
+      // perform the quadrature
 
       // for each DoFs
       for (int idy = 0; idy < N; ++idy)
       {
-        real_t y = this->sdm_geom.solution_pts_1d(idy);
-        real_t wy = sqrt(y - y * y);
+        real_t wy = this->sdm_geom.solution_weights_1d(idy);
 
         for (int idx = 0; idx < N; ++idx)
         {
-          real_t x = this->sdm_geom.solution_pts_1d(idx);
-          real_t wx = sqrt(x - x * x);
+          real_t wx = this->sdm_geom.solution_weights_1d(idx);
 
           tmp += Udata(i, j, dofMap(idx, idy, 0, ivar)) * wx * wy;
 
         } // for idx
       } // for idy
 
-      // final scaling
-      tmp *= (M_PI / N) * (M_PI / N);
-
       const real_t smallr = this->params.settings.smallr;
       if (ivar == ID)
         Uaverage(i, j, ID) = tmp > smallr ? tmp : smallr;
@@ -140,23 +136,20 @@ public:
 
       real_t tmp = 0.0;
 
-      // perform the Gauss-Chebyshev quadrature
+      // perform the quadrature
 
       // for each DoFs
       for (int idz = 0; idz < N; ++idz)
       {
-        real_t z = this->sdm_geom.solution_pts_1d(idz);
-        real_t wz = sqrt(z - z * z);
+        real_t wz = this->sdm_geom.solution_weights_1d(idz);
 
         for (int idy = 0; idy < N; ++idy)
         {
-          real_t y = this->sdm_geom.solution_pts_1d(idy);
-          real_t wy = sqrt(y - y * y);
+          real_t wy = this->sdm_geom.solution_weights_1d(idy);
 
           for (int idx = 0; idx < N; ++idx)
           {
-            real_t x = this->sdm_geom.solution_pts_1d(idx);
-            real_t wx = sqrt(x - x * x);
+            real_t wx = this->sdm_geom.solution_weights_1d(idx);
 
             tmp += Udata(i, j, k, dofMap(idx, idy, idz, ivar)) * wx * wy * wz;
 
@@ -164,9 +157,6 @@ public:
         } // for idy
       } // for idz
 
-      // final scaling
-      tmp *= (M_PI / N) * (M_PI / N) * (M_PI / N);
-
       const real_t smallr = this->params.settings.smallr;
       if (ivar == ID)
         Uaverage(i, j, k, ID) = tmp > smallr ? tmp : smallr;
@@ -393,7 +383,8 @@ public:
  * This functor computes one component of the average HydroState gradient
  * in each cell and store the result in Uaverage.
  *
- * The space average is performed using a Gauss-Chebyshev quadrature.
+ * The space average is performed using the interpolatory quadrature rule at solution points,
+ * which is exact for the polynomial representation of the solution.
  *
  * \tparam dir integer to specify direction / component of the gradient
  * dir can IX,IY in 2D or IX,IY,IZ in 3D.
@@ -466,8 +457,7 @@ public:
         {
 
           // compute quadrature  weight for the current line of dofs
-          real_t y = this->sdm_geom.solution_pts_1d(idy);
-          real_t wy = sqrt(y - y * y);
+          real_t wy = this->sdm_geom.solution_weights_1d(idy);
 
           // read a line
           for (int idx = 0; idx < N; ++idx)
@@ -490,8 +480,7 @@ public:
             }
 
             // we can now accumulate this grad_val into the average gradient
-            real_t x = this->sdm_geom.solution_pts_1d(idx);
-            real_t wx = sqrt(x - x * x);
+            real_t wx = this->sdm_geom.solution_weights_1d(idx);
 
             tmp_average += grad_val * wx * wy;
 
@@ -499,9 +488,6 @@ public:
 
         } // end for idy
 
-        // we swept all the dof, all we need is the final scaling
-        tmp_average *= (M_PI / N) * (M_PI / N);
-
         // store the result
         Uaverage(i, j, ivar) = tmp_average;
 
@@ -527,8 +513,7 @@ public:
         {
 
           // compute quadrature  weight for the current line of dofs
-          real_t x = this->sdm_geom.solution_pts_1d(idx);
-          real_t wx = sqrt(x - x * x);
+          real_t wx = this->sdm_geom.solution_weights_1d(idx);
 
           // read a line
           for (int idy = 0; idy < N; ++idy)
@@ -551,8 +536,7 @@ public:
             }
 
             // we can now accumulate this grad_val into the average gradient
-            real_t y = this->sdm_geom.solution_pts_1d(idy);
-            real_t wy = sqrt(y - y * y);
+            real_t wy = this->sdm_geom.solution_weights_1d(idy);
 
             tmp_average += grad_val * wx * wy;
 
@@ -560,9 +544,6 @@ public:
 
         } // end for idy
 
-        // we swept all the dof, all we need is the final scaling
-        tmp_average *= (M_PI / N) * (M_PI / N);
-
         // store the result
         Uaverage(i, j, ivar) = tmp_average;
 
@@ -611,15 +592,13 @@ public:
         {
 
           // compute quadrature weight for the current line of dofs
-          real_t z = this->sdm_geom.solution_pts_1d(idz);
-          real_t wz = sqrt(z - z * z);
+          real_t wz = this->sdm_geom.solution_weights_1d(idz);
 
           for (int idy = 0; idy < N; ++idy)
           {
 
             // compute quadrature weight for the current line of dofs
-            real_t y = this->sdm_geom.solution_pts_1d(idy);
-            real_t wy = sqrt(y - y * y);
+            real_t wy = this->sdm_geom.solution_weights_1d(idy);
 
             // read a line-vector
             for (int idx = 0; idx < N; ++idx)
@@ -639,8 +618,7 @@ public:
               }
 
               // we can now accumulate this grad_val into the average gradient
-              real_t x = this->sdm_geom.solution_pts_1d(idx);
-              real_t wx = sqrt(x - x * x);
+              real_t wx = this->sdm_geom.solution_weights_1d(idx);
 
               tmp_average += grad_val * wx * wy * wz;
 
@@ -649,9 +627,6 @@ public:
           } // end for idy
         } // end for idz
 
-        // we swept all the dof, all we need is the final scaling
-        tmp_average *= (M_PI / N) * (M_PI / N) * (M_PI / N);
-
         // store the result
         Uaverage(i, j, k, ivar) = tmp_average;
 
@@ -677,15 +652,13 @@ public:
         {
 
           // compute quadrature weight for the current line of dofs
-          real_t z = this->sdm_geom.solution_pts_1d(idz);
-          real_t wz = sqrt(z - z * z);
+          real_t wz = this->sdm_geom.solution_weights_1d(idz);
 
           for (int idx = 0; idx < N; ++idx)
           {
 
             // compute quadrature weight for the current line of dofs
-            real_t x = this->sdm_geom.solution_pts_1d(idx);
-            real_t wx = sqrt(x - x * x);
+            real_t wx = this->sdm_geom.solution_weights_1d(idx);
 
             // read a line-vector
             for (int idy = 0; idy < N; ++idy)
@@ -705,8 +678,7 @@ public:
               }
 
               // we can now accumulate this grad_val into the average gradient
-              real_t y = this->sdm_geom.solution_pts_1d(idy);
-              real_t wy = sqrt(y - y * y);
+              real_t wy = this->sdm_geom.solution_weights_1d(idy);
 
               tmp_average += grad_val * wx * wy * wz;
 
@@ -716,9 +688,6 @@ public:
 
         } // end for idz
 
-        // we swept all the dof, all we need is the final scaling
-        tmp_average *= (M_PI / N) * (M_PI / N) * (M_PI / N);
-
         // store the result
         Uaverage(i, j, k, ivar) = tmp_average;
 
@@ -744,15 +713,13 @@ public:
         {
 
           // compute quadrature weight for the current line of dofs
-          real_t x = this->sdm_geom.solution_pts_1d(idx);
-          real_t wx = sqrt(x - x * x);
+          real_t wx = this->sdm_geom.solution_weights_1d(idx);
 
           for (int idy = 0; idy < N; ++idy)
           {
 
             // compute quadrature weight for the current line of dofs
-            real_t y = this->sdm_geom.solution_pts_1d(idy);
-            real_t wy = sqrt(y - y * y);
+            real_t wy = this->sdm_geom.solution_weights_1d(idy);
 
             // read a line-vector
             for (int idz = 0; idz < N; ++idz)
@@ -772,8 +739,7 @@ public:
               }
 
               // we can now accumulate this grad_val into the average gradient
-              real_t z = this->sdm_geom.solution_pts_1d(idz);
-              real_t wz = sqrt(z - z * z);
+              real_t wz = this->sdm_geom.solution_weights_1d(idz);
 
               tmp_average += grad_val * wx * wy * wz;
 
@@ -783,9 +749,6 @@ public:
 
         } // end for idz
 
-        // we swept all the dof, all we need is the final scaling
-        tmp_average *= (M_PI / N) * (M_PI / N) * (M_PI / N);
-
         // store the result
         Uaverage(i, j, k, ivar) = tmp_average;
 
-- 
2.43.0


From 1a5c47fcf2b646ad61e61e3665a7c11542b8d930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:22 +0000
Subject: [PATCH 35/47] fix: SDM ghost cells were not updated after the
 limiter, fluxes at the border of the domain (or of MPI sub-domains) used
 non-limited values

---
 src/sdm/SolverHydroSDM.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sdm/SolverHydroSDM.h b/src/sdm/SolverHydroSDM.h
index 0728e1b..c6c298b 100644
--- a/src/sdm/SolverHydroSDM.h
+++ b/src/sdm/SolverHydroSDM.h
@@ -1063,6 +1063,9 @@ SolverHydroSDM<dim, N>::apply_limiting(DataArray Udata)
     Apply_limiter_Functor<dim, N>::apply(
       params, sdm_geom, euler, Udata, Uaverage, Ugradx, Ugrady, Ugradz, Mdx2);
 
+    // only inner cells are limited, border (ghost) cells must reflect the limited values
+    make_boundaries(Udata);
+
   } // end limiter_enabled
 
 } // SolverHydroSDM<dim,N>::apply_limiting
-- 
2.43.0


From 0a9674fe56c80813f2a1bf92cd38589f325d81c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:40 +0000
Subject: [PATCH 36/47] fix: SDM positivity preserving lost all precision
 (negative pressure left) in cells where density and momentum hardly vary

---
 src/sdm/SDM_Positivity_preserving.h | 118 +++++++++-------------------
 1 file changed, 38 insertions(+), 80 deletions(-)

diff --git a/src/sdm/SDM_Positivity_preserving.h b/src/sdm/SDM_Positivity_preserving.h
index 509d140..fbbd714 100644
--- a/src/sdm/SDM_Positivity_preserving.h
+++ b/src/sdm/SDM_Positivity_preserving.h
@@ -966,6 +966,39 @@ public:
     Kokkos::parallel_for("Apply_positivity_Functor_v2", nbCells, functor);
   }
 
+  // =========================================================
+  /**
+   * Smallest root in [0,1] of a t^2 + b t + c = 0 (0 if there is none).
+   *
+   * Vanishing leading coefficient is the common case where only one variable differs
+   * from its average, so the roots are computed without dividing by a, nor subtracting
+   * nearly equal numbers.
+   */
+  // =========================================================
+  KOKKOS_INLINE_FUNCTION
+  static real_t
+  solve_for_weight(const real_t a, const real_t b, const real_t c)
+  {
+    // discriminant
+    const real_t D = sqrt(fabs(b * b - 4.0 * a * c));
+    const real_t q = -0.5 * (b + (b > 0 ? D : -D));
+
+    // possible solutions
+    const real_t r1 = a != 0 ? q / a : -1.0;
+    const real_t r2 = q != 0 ? c / q : -1.0;
+
+    const real_t t1 = r1 < r2 ? r1 : r2;
+    const real_t t2 = r1 < r2 ? r2 : r1;
+
+    if (t1 > -1.0e-12 and t1 < 1.0 + 1.0e-12)
+      return t1;
+    if (t2 > -1.0e-12 and t2 < 1.0 + 1.0e-12)
+      return t2;
+
+    return 0.0; // Houston, we have a problem
+
+  } // solve_for_weight
+
   // =========================================================
   /*
    * 2D version.
@@ -1151,22 +1184,7 @@ public:
                         2.0 * (rhou_ave * drhou + rhov_ave * drhov);
             real_t c1 = 2.0 * rho_ave * e_ave - (rhou_ave * rhou_ave + rhov_ave * rhov_ave) -
                         2.0 * eps2 * rho_ave / (gamma0 - 1.0);
-            // Divide by a1 to avoid round-off error
-            b1 /= a1;
-            c1 /= a1;
-            // discrimant
-            real_t D = sqrt(fabs(b1 * b1 - 4.0 * c1));
-
-            // possible solutions
-            real_t t1 = 0.5 * (-b1 - D);
-            real_t t2 = 0.5 * (-b1 + D);
-            real_t t = 0.0;
-            if (t1 > -1.0e-12 and t1 < 1.0 + 1.0e-12)
-              t = t1;
-            else if (t2 > -1.0e-12 and t2 < 1.0 + 1.0e-12)
-              t = t2;
-            else
-              ; // Houston, we have a problem
+            real_t t = solve_for_weight(a1, b1, c1);
 
             // t should strictly lie in [0,1]
             t = t < 1.0 ? t : 1.0;
@@ -1231,22 +1249,7 @@ public:
                         2.0 * (rhou_ave * drhou + rhov_ave * drhov);
             real_t c1 = 2.0 * rho_ave * e_ave - (rhou_ave * rhou_ave + rhov_ave * rhov_ave) -
                         2.0 * eps2 * rho_ave / (gamma0 - 1.0);
-            // Divide by a1 to avoid round-off error
-            b1 /= a1;
-            c1 /= a1;
-            // discrimant
-            real_t D = sqrt(fabs(b1 * b1 - 4.0 * c1));
-
-            // possible solutions
-            real_t t1 = 0.5 * (-b1 - D);
-            real_t t2 = 0.5 * (-b1 + D);
-            real_t t = 0.0;
-            if (t1 > -1.0e-12 and t1 < 1.0 + 1.0e-12)
-              t = t1;
-            else if (t2 > -1.0e-12 and t2 < 1.0 + 1.0e-12)
-              t = t2;
-            else
-              ; // Houston, we have a problem
+            real_t t = solve_for_weight(a1, b1, c1);
 
             // t should strictly lie in [0,1]
             t = t < 1.0 ? t : 1.0;
@@ -1530,22 +1533,7 @@ public:
             real_t c1 = 2.0 * rho_ave * e_ave -
                         (rhou_ave * rhou_ave + rhov_ave * rhov_ave + rhow_ave * rhow_ave) -
                         2.0 * eps2 * rho_ave / (gamma0 - 1.0);
-            // Divide by a1 to avoid round-off error
-            b1 /= a1;
-            c1 /= a1;
-            // discrimant
-            real_t D = sqrt(fabs(b1 * b1 - 4.0 * c1));
-
-            // possible solutions
-            real_t t1 = 0.5 * (-b1 - D);
-            real_t t2 = 0.5 * (-b1 + D);
-            real_t t = 0.0;
-            if (t1 > -1.0e-12 and t1 < 1.0 + 1.0e-12)
-              t = t1;
-            else if (t2 > -1.0e-12 and t2 < 1.0 + 1.0e-12)
-              t = t2;
-            else
-              ; // Houston, we have a problem
+            real_t t = solve_for_weight(a1, b1, c1);
 
             // t should strictly lie in [0,1]
             t = t < 1.0 ? t : 1.0;
@@ -1619,22 +1607,7 @@ public:
             real_t c1 = 2.0 * rho_ave * e_ave -
                         (rhou_ave * rhou_ave + rhov_ave * rhov_ave + rhow_ave * rhow_ave) -
                         2.0 * eps2 * rho_ave / (gamma0 - 1.0);
-            // Divide by a1 to avoid round-off error
-            b1 /= a1;
-            c1 /= a1;
-            // discrimant
-            real_t D = sqrt(fabs(b1 * b1 - 4.0 * c1));
-
-            // possible solutions
-            real_t t1 = 0.5 * (-b1 - D);
-            real_t t2 = 0.5 * (-b1 + D);
-            real_t t = 0.0;
-            if (t1 > -1.0e-12 and t1 < 1.0 + 1.0e-12)
-              t = t1;
-            else if (t2 > -1.0e-12 and t2 < 1.0 + 1.0e-12)
-              t = t2;
-            else
-              ; // Houston, we have a problem
+            real_t t = solve_for_weight(a1, b1, c1);
 
             // t should strictly lie in [0,1]
             t = t < 1.0 ? t : 1.0;
@@ -1708,22 +1681,7 @@ public:
             real_t c1 = 2.0 * rho_ave * e_ave -
                         (rhou_ave * rhou_ave + rhov_ave * rhov_ave + rhow_ave * rhow_ave) -
                         2.0 * eps2 * rho_ave / (gamma0 - 1.0);
-            // Divide by a1 to avoid round-off error
-            b1 /= a1;
-            c1 /= a1;
-            // discrimant
-            real_t D = sqrt(fabs(b1 * b1 - 4.0 * c1));
-
-            // possible solutions
-            real_t t1 = 0.5 * (-b1 - D);
-            real_t t2 = 0.5 * (-b1 + D);
-            real_t t = 0.0;
-            if (t1 > -1.0e-12 and t1 < 1.0 + 1.0e-12)
-              t = t1;
-            else if (t2 > -1.0e-12 and t2 < 1.0 + 1.0e-12)
-              t = t2;
-            else
-              ; // Houston, we have a problem
+            real_t t = solve_for_weight(a1, b1, c1);
 
             // t should strictly lie in [0,1]
             t = t < 1.0 ? t : 1.0;
-- 
2.43.0


From f9bc7c0f83314245e03def43829488b8a19e2329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:42 +0000
Subject: [PATCH 37/47] fix: gravity was mirrored at the borders between MPI
 sub-domains as if they were walls

---
 src/muscl/SolverHydroMuscl.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/muscl/SolverHydroMuscl.h b/src/muscl/SolverHydroMuscl.h
index e5311f2..b8b991e 100644
--- a/src/muscl/SolverHydroMuscl.h
+++ b/src/muscl/SolverHydroMuscl.h
@@ -297,9 +297,20 @@ SolverHydroMuscl<dim>::SolverHydroMuscl(HydroParams & params, ConfigMap & config
   // gravity in ghost cells behind reflecting walls
   if (m_gravity_enabled)
   {
+    HydroParams wall_params = params;
+#ifdef USE_MPI
+    // only borders of the whole domain are walls
+    wall_params.boundary_type_xmin = params.neighborsBC[hydroSimu::X_MIN];
+    wall_params.boundary_type_xmax = params.neighborsBC[hydroSimu::X_MAX];
+    wall_params.boundary_type_ymin = params.neighborsBC[hydroSimu::Y_MIN];
+    wall_params.boundary_type_ymax = params.neighborsBC[hydroSimu::Y_MAX];
+    wall_params.boundary_type_zmin = params.neighborsBC[hydroSimu::Z_MIN];
+    wall_params.boundary_type_zmax = params.neighborsBC[hydroSimu::Z_MAX];
+#endif // USE_MPI
+
     using MirrorGravityFunctor =
       typename std::conditional<dim == 2, MirrorGravityFunctor2D, MirrorGravityFunctor3D>::type;
-    MirrorGravityFunctor::apply(params, gravity);
+    MirrorGravityFunctor::apply(wall_params, gravity);
   }
 
   // initialize boundaries
-- 
2.43.0


From df5ce9bfd7f1c5db4f49a3c806d06fb655c74690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:01 +0000
Subject: [PATCH 38/47] fix: SDM wedge and jet border conditions were ignored
 in MPI runs

---
 src/sdm/SolverHydroSDM.h | 110 +++++++++++++++++++++++++++++++++++----
 1 file changed, 100 insertions(+), 10 deletions(-)

diff --git a/src/sdm/SolverHydroSDM.h b/src/sdm/SolverHydroSDM.h
index c6c298b..1dcacec 100644
--- a/src/sdm/SolverHydroSDM.h
+++ b/src/sdm/SolverHydroSDM.h
@@ -333,6 +333,16 @@ public:
   //! here we call boundaries condition for mpi execution
   void
   make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enabled);
+
+  //! does the current problem (wedge, jet) prescribe the border condition of this side of the
+  //! current sub-domain ?
+  bool
+  is_special_boundary(int dir, bool upper);
+
+  //! problem specific (wedge, jet) border condition
+  template <FaceIdType faceId>
+  void
+  make_boundary_sdm_special(DataArray Udata);
 #endif // USE_MPI
 
   // host routines (initialization)
@@ -1700,6 +1710,46 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_serial(DataArray Udata, bool mhd_ena
 } // SolverHydroSDM<dim,N>::make_boundaries_sdm_serial
 
 #ifdef USE_MPI
+// =======================================================
+// =======================================================
+template <int dim, int N>
+bool
+SolverHydroSDM<dim, N>::is_special_boundary(int dir, bool upper)
+{
+
+  const bool wedge = dim == 2 and !m_problem_name.compare("wedge");
+  const bool jet = !m_problem_name.compare("jet");
+
+  // only the border of the whole domain is concerned
+  const int nbProcs[3] = { params.mx, params.my, params.mz };
+
+  return (wedge or jet) and params.myMpiPos[dir] == (upper ? nbProcs[dir] - 1 : 0);
+
+} // SolverHydroSDM<dim,N>::is_special_boundary
+
+// =======================================================
+// =======================================================
+template <int dim, int N>
+template <FaceIdType faceId>
+void
+SolverHydroSDM<dim, N>::make_boundary_sdm_special(DataArray Udata)
+{
+
+  if (!m_problem_name.compare("jet"))
+  {
+    JetParams jparams(configMap);
+
+    make_boundary_sdm_jet<faceId>(Udata, jparams);
+  }
+  else
+  {
+    WedgeParams wparams(configMap, m_t);
+
+    make_boundary_sdm_wedge<faceId>(Udata, wparams);
+  }
+
+} // SolverHydroSDM<dim,N>::make_boundary_sdm_special
+
 // =======================================================
 // =======================================================
 template <int dim, int N>
@@ -1723,7 +1773,11 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
     copy_boundaries(Udata, XDIR);
     transfert_boundaries_2d(XDIR);
 
-    if (params.neighborsBC[X_MIN] == BC_COPY || params.neighborsBC[X_MIN] == BC_PERIODIC)
+    if (is_special_boundary(IX, false))
+    {
+      make_boundary_sdm_special<FACE_XMIN>(Udata);
+    }
+    else if (params.neighborsBC[X_MIN] == BC_COPY || params.neighborsBC[X_MIN] == BC_PERIODIC)
     {
       copy_boundaries_back(Udata, XMIN);
     }
@@ -1732,7 +1786,11 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
       make_boundary_sdm<FACE_XMIN>(Udata, mhd_enabled);
     }
 
-    if (params.neighborsBC[X_MAX] == BC_COPY || params.neighborsBC[X_MAX] == BC_PERIODIC)
+    if (is_special_boundary(IX, true))
+    {
+      make_boundary_sdm_special<FACE_XMAX>(Udata);
+    }
+    else if (params.neighborsBC[X_MAX] == BC_COPY || params.neighborsBC[X_MAX] == BC_PERIODIC)
     {
       copy_boundaries_back(Udata, XMAX);
     }
@@ -1749,7 +1807,11 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
     copy_boundaries(Udata, YDIR);
     transfert_boundaries_2d(YDIR);
 
-    if (params.neighborsBC[Y_MIN] == BC_COPY || params.neighborsBC[Y_MIN] == BC_PERIODIC)
+    if (is_special_boundary(IY, false))
+    {
+      make_boundary_sdm_special<FACE_YMIN>(Udata);
+    }
+    else if (params.neighborsBC[Y_MIN] == BC_COPY || params.neighborsBC[Y_MIN] == BC_PERIODIC)
     {
       copy_boundaries_back(Udata, YMIN);
     }
@@ -1758,7 +1820,11 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
       make_boundary_sdm<FACE_YMIN>(Udata, mhd_enabled);
     }
 
-    if (params.neighborsBC[Y_MAX] == BC_COPY || params.neighborsBC[Y_MAX] == BC_PERIODIC)
+    if (is_special_boundary(IY, true))
+    {
+      make_boundary_sdm_special<FACE_YMAX>(Udata);
+    }
+    else if (params.neighborsBC[Y_MAX] == BC_COPY || params.neighborsBC[Y_MAX] == BC_PERIODIC)
     {
       copy_boundaries_back(Udata, YMAX);
     }
@@ -1778,7 +1844,11 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
     copy_boundaries(Udata, XDIR);
     transfert_boundaries_3d(XDIR);
 
-    if (params.neighborsBC[X_MIN] == BC_COPY || params.neighborsBC[X_MIN] == BC_PERIODIC)
+    if (is_special_boundary(IX, false))
+    {
+      make_boundary_sdm_special<FACE_XMIN>(Udata);
+    }
+    else if (params.neighborsBC[X_MIN] == BC_COPY || params.neighborsBC[X_MIN] == BC_PERIODIC)
     {
       copy_boundaries_back(Udata, XMIN);
     }
@@ -1787,7 +1857,11 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
       make_boundary_sdm<FACE_XMIN>(Udata, mhd_enabled);
     }
 
-    if (params.neighborsBC[X_MAX] == BC_COPY || params.neighborsBC[X_MAX] == BC_PERIODIC)
+    if (is_special_boundary(IX, true))
+    {
+      make_boundary_sdm_special<FACE_XMAX>(Udata);
+    }
+    else if (params.neighborsBC[X_MAX] == BC_COPY || params.neighborsBC[X_MAX] == BC_PERIODIC)
     {
       copy_boundaries_back(Udata, XMAX);
     }
@@ -1804,7 +1878,11 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
     copy_boundaries(Udata, YDIR);
     transfert_boundaries_3d(YDIR);
 
-    if (params.neighborsBC[Y_MIN] == BC_COPY || params.neighborsBC[Y_MIN] == BC_PERIODIC)
+    if (is_special_boundary(IY, false))
+    {
+      make_boundary_sdm_special<FACE_YMIN>(Udata);
+    }
+    else if (params.neighborsBC[Y_MIN] == BC_COPY || params.neighborsBC[Y_MIN] == BC_PERIODIC)
     {
       copy_boundaries_back(Udata, YMIN);
     }
@@ -1813,7 +1891,11 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
       make_boundary_sdm<FACE_YMIN>(Udata, mhd_enabled);
     }
 
-    if (params.neighborsBC[Y_MAX] == BC_COPY || params.neighborsBC[Y_MAX] == BC_PERIODIC)
+    if (is_special_boundary(IY, true))
+    {
+      make_boundary_sdm_special<FACE_YMAX>(Udata);
+    }
+    else if (params.neighborsBC[Y_MAX] == BC_COPY || params.neighborsBC[Y_MAX] == BC_PERIODIC)
     {
       copy_boundaries_back(Udata, YMAX);
     }
@@ -1830,7 +1912,11 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
     copy_boundaries(Udata, ZDIR);
     transfert_boundaries_3d(ZDIR);
 
-    if (params.neighborsBC[Z_MIN] == BC_COPY || params.neighborsBC[Z_MIN] == BC_PERIODIC)
+    if (is_special_boundary(IZ, false))
+    {
+      make_boundary_sdm_special<FACE_ZMIN>(Udata);
+    }
+    else if (params.neighborsBC[Z_MIN] == BC_COPY || params.neighborsBC[Z_MIN] == BC_PERIODIC)
     {
       copy_boundaries_back(Udata, ZMIN);
     }
@@ -1839,7 +1925,11 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
       make_boundary_sdm<FACE_ZMIN>(Udata, mhd_enabled);
     }
 
-    if (params.neighborsBC[Z_MAX] == BC_COPY || params.neighborsBC[Z_MAX] == BC_PERIODIC)
+    if (is_special_boundary(IZ, true))
+    {
+      make_boundary_sdm_special<FACE_ZMAX>(Udata);
+    }
+    else if (params.neighborsBC[Z_MAX] == BC_COPY || params.neighborsBC[Z_MAX] == BC_PERIODIC)
     {
       copy_boundaries_back(Udata, ZMAX);
     }
-- 
2.43.0


From d4552805cb4e5b40fa7ab06b068b60344fd3da7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:36 +0000
Subject: [PATCH 39/47] fix: extent of the pieces of a 2D parallel VTK file was
 not the one found in the pieces

---
 src/utils/io/IO_VTK.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/io/IO_VTK.cpp b/src/utils/io/IO_VTK.cpp
index c8b0a73..545f34b 100644
--- a/src/utils/io/IO_VTK.cpp
+++ b/src/utils/io/IO_VTK.cpp
@@ -959,7 +959,7 @@ write_pvti_header(std::string                        headerFilename,
         outHeader << 0 << " " << ny << " ";
       else
         outHeader << coords[1] * ny << " " << coords[1] * ny + ny << " ";
-      outHeader << 0 << " " << 1 << "\" Source=\"";
+      outHeader << 0 << " " << 0 << "\" Source=\"";
       outHeader << pieceFilename << "\"/>" << std::endl;
     }
   }
-- 
2.43.0


From 6a87c9ce0659fb1ade474e1f8d164dc93de999e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:37 +0000
Subject: [PATCH 40/47] fix: origin of a 2D parallel VTK file was not the one
 found in its pieces

---
 src/utils/io/IO_VTK.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/io/IO_VTK.cpp b/src/utils/io/IO_VTK.cpp
index 545f34b..964cf82 100644
--- a/src/utils/io/IO_VTK.cpp
+++ b/src/utils/io/IO_VTK.cpp
@@ -903,6 +903,8 @@ write_pvti_header(std::string                        headerFilename,
   const real_t dy = params.dy;
   const real_t dz = (dimType == THREE_D) ? params.dz : 0.0;
 
+  const real_t zmin = (dimType == THREE_D) ? params.zmin : 0.0;
+
   // open pvti header file
   outHeader.open(headerFilename.c_str(), std::ios_base::out);
 
@@ -919,8 +921,8 @@ write_pvti_header(std::string                        headerFilename,
   outHeader << 0 << " " << mx * nx << " ";
   outHeader << 0 << " " << my * ny << " ";
   outHeader << 0 << " " << mz * nz << "\" GhostLevel=\"0\" " << "Origin=\"" << params.xmin << " "
-            << params.ymin << " " << params.zmin << "\" " << "Spacing=\"" << dx << " " << dy << " "
-            << dz << "\">" << std::endl;
+            << params.ymin << " " << zmin << "\" " << "Spacing=\"" << dx << " " << dy << " " << dz
+            << "\">" << std::endl;
   outHeader << "    <PCellData Scalars=\"Scalars_\">" << std::endl;
   for (int iVar = 0; iVar < nbvar; iVar++)
   {
-- 
2.43.0


From ff0ed5ad4d9f1d26266ee1a0d45d225a43abb1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:51 +0000
Subject: [PATCH 41/47] fix: parallel VTK index file of an output with a debug
 name referred to other pieces

---
 src/utils/io/IO_VTK.cpp   | 10 ++++++----
 src/utils/io/IO_VTK_SDM.h | 26 ++++++++++++++------------
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/utils/io/IO_VTK.cpp b/src/utils/io/IO_VTK.cpp
index 964cf82..a86bfe7 100644
--- a/src/utils/io/IO_VTK.cpp
+++ b/src/utils/io/IO_VTK.cpp
@@ -487,8 +487,9 @@ save_VTK_2D_mpi(DataArray2d                        Udata,
                "_mpi" + rankFormat.str() + ".vti";
 
   // header file : parallel vti format
+  std::string headerPrefix = debug_name.empty() ? outputPrefix : outputPrefix + "_" + debug_name;
   std::string headerFilename =
-    outputDir + "/" + outputPrefix + "_time" + timeFormat.str() + ".pvti";
+    outputDir + "/" + headerPrefix + "_time" + timeFormat.str() + ".pvti";
 
 
   // open file
@@ -498,7 +499,7 @@ save_VTK_2D_mpi(DataArray2d                        Udata,
   // write header
   if (params.myRank == 0)
   {
-    write_pvti_header(headerFilename, outputPrefix, params, nbvar, variables_names, iStep);
+    write_pvti_header(headerFilename, headerPrefix, params, nbvar, variables_names, iStep);
   }
 
   // if writing raw binary data (file does not respect XML standard)
@@ -711,8 +712,9 @@ save_VTK_3D_mpi(DataArray3d                        Udata,
                "_mpi" + rankFormat.str() + ".vti";
 
   // header file : parallel vti format
+  std::string headerPrefix = debug_name.empty() ? outputPrefix : outputPrefix + "_" + debug_name;
   std::string headerFilename =
-    outputDir + "/" + outputPrefix + "_time" + timeFormat.str() + ".pvti";
+    outputDir + "/" + headerPrefix + "_time" + timeFormat.str() + ".pvti";
 
 
   // open file
@@ -722,7 +724,7 @@ save_VTK_3D_mpi(DataArray3d                        Udata,
   // write header
   if (params.myRank == 0)
   {
-    write_pvti_header(headerFilename, outputPrefix, params, nbvar, variables_names, iStep);
+    write_pvti_header(headerFilename, headerPrefix, params, nbvar, variables_names, iStep);
   }
 
   // if writing raw binary data (file does not respect XML standard)
diff --git a/src/utils/io/IO_VTK_SDM.h b/src/utils/io/IO_VTK_SDM.h
index 3deece5..5592d06 100644
--- a/src/utils/io/IO_VTK_SDM.h
+++ b/src/utils/io/IO_VTK_SDM.h
@@ -1402,14 +1402,11 @@ save_VTK_SDM(DataArray2d                        Udata,
   {
 
     // header file : parallel vtu format
-    std::string headerFilename = outputDir + "/" + outputPrefix + "_time" + stepNum.str() + ".pvtu";
-
-    if (!debug_name.empty())
-      headerFilename =
-        outputDir + "/" + outputPrefix + "_" + debug_name + "_time" + stepNum.str() + ".pvtu";
+    std::string headerPrefix = debug_name.empty() ? outputPrefix : outputPrefix + "_" + debug_name;
+    std::string headerFilename = outputDir + "/" + headerPrefix + "_time" + stepNum.str() + ".pvtu";
 
     write_pvtu_header(
-      headerFilename, outputPrefix, params, configMap, nbvar, variables_names, iStep);
+      headerFilename, headerPrefix, params, configMap, nbvar, variables_names, iStep);
   }
 #endif // USE_MPI
 
@@ -1431,6 +1428,10 @@ save_VTK_SDM(DataArray2d                        Udata,
     // modify filename for mpi
     filename =
       outputDir + "/" + outputPrefix + "_time" + stepNum.str() + "_mpi" + rankFormat.str() + ".vtu";
+
+    if (!debug_name.empty())
+      filename = outputDir + "/" + outputPrefix + "_" + debug_name + "_time" + stepNum.str() +
+                 "_mpi" + rankFormat.str() + ".vtu";
   }
 #endif // USE_MPI
 
@@ -1529,14 +1530,11 @@ save_VTK_SDM(DataArray3d                        Udata,
   {
 
     // header file : parallel vtu format
-    std::string headerFilename = outputDir + "/" + outputPrefix + "_time" + stepNum.str() + ".pvtu";
-
-    if (!debug_name.empty())
-      headerFilename =
-        outputDir + "/" + outputPrefix + "_" + debug_name + "_time" + stepNum.str() + ".pvtu";
+    std::string headerPrefix = debug_name.empty() ? outputPrefix : outputPrefix + "_" + debug_name;
+    std::string headerFilename = outputDir + "/" + headerPrefix + "_time" + stepNum.str() + ".pvtu";
 
     write_pvtu_header(
-      headerFilename, outputPrefix, params, configMap, nbvar, variables_names, iStep);
+      headerFilename, headerPrefix, params, configMap, nbvar, variables_names, iStep);
   }
 #endif // USE_MPI
 
@@ -1558,6 +1556,10 @@ save_VTK_SDM(DataArray3d                        Udata,
     // modify filename for mpi
     filename =
       outputDir + "/" + outputPrefix + "_time" + stepNum.str() + "_mpi" + rankFormat.str() + ".vtu";
+
+    if (!debug_name.empty())
+      filename = outputDir + "/" + outputPrefix + "_" + debug_name + "_time" + stepNum.str() +
+                 "_mpi" + rankFormat.str() + ".vtu";
   }
 #endif // USE_MPI
 
-- 
2.43.0


From 25461652ca1c7125e23c073d373657149b2d925b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:51 +0000
Subject: [PATCH 42/47] fix: distributed HDF5 output with outer ghost cells
 does not write inner ghost cells over the neighbor's cells

---
 src/utils/io/IO_HDF5.h | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/utils/io/IO_HDF5.h b/src/utils/io/IO_HDF5.h
index bdaf688..5a92fe3 100644
--- a/src/utils/io/IO_HDF5.h
+++ b/src/utils/io/IO_HDF5.h
@@ -1102,17 +1102,28 @@ public:
         // global offsets
         int gOffsetStartX, gOffsetStartY, gOffsetStartZ;
 
+        // ghost cells facing another sub-domain must not be written: they overlap the inner
+        // cells of the neighbor (and may hold outdated values)
+        const hsize_t lowX = coords[0] > 0 ? ghostWidth : 0;
+        const hsize_t highX = coords[0] < mx - 1 ? ghostWidth : 0;
+        const hsize_t lowY = coords[1] > 0 ? ghostWidth : 0;
+        const hsize_t highY = coords[1] < my - 1 ? ghostWidth : 0;
+
         if (dimType == TWO_D)
         {
           gOffsetStartY = coords[1] * ny;
           gOffsetStartX = coords[0] * nx;
 
-          hsize_t start[2] = { (hsize_t)gOffsetStartY, (hsize_t)gOffsetStartX };
+          hsize_t start[2] = { (hsize_t)gOffsetStartY + lowY, (hsize_t)gOffsetStartX + lowX };
+          hsize_t start_mem[2] = { lowY, lowX };
           hsize_t stride[2] = { 1, 1 };
           hsize_t count[2] = { 1, 1 };
-          hsize_t block[2] = { dims_chunk[0],
-                               dims_chunk[1] }; // row-major instead of column-major here
+          hsize_t block[2] = { dims_chunk[0] - lowY - highY,
+                               dims_chunk[1] - lowX -
+                                 highX }; // row-major instead of column-major here
           status = H5Sselect_hyperslab(dataspace_file, H5S_SELECT_SET, start, stride, count, block);
+          status =
+            H5Sselect_hyperslab(dataspace_memory, H5S_SELECT_SET, start_mem, stride, count, block);
         }
         else
         { // THREE_D
@@ -1121,15 +1132,22 @@ public:
           gOffsetStartY = coords[1] * ny;
           gOffsetStartX = coords[0] * nx;
 
-          hsize_t start[3] = { (hsize_t)gOffsetStartZ,
-                               (hsize_t)gOffsetStartY,
-                               (hsize_t)gOffsetStartX };
+          const hsize_t lowZ = coords[2] > 0 ? ghostWidth : 0;
+          const hsize_t highZ = coords[2] < mz - 1 ? ghostWidth : 0;
+
+          hsize_t start[3] = { (hsize_t)gOffsetStartZ + lowZ,
+                               (hsize_t)gOffsetStartY + lowY,
+                               (hsize_t)gOffsetStartX + lowX };
+          hsize_t start_mem[3] = { lowZ, lowY, lowX };
           hsize_t stride[3] = { 1, 1, 1 };
           hsize_t count[3] = { 1, 1, 1 };
-          hsize_t block[3] = { dims_chunk[0],
-                               dims_chunk[1],
-                               dims_chunk[2] }; // row-major instead of column-major here
+          hsize_t block[3] = { dims_chunk[0] - lowZ - highZ,
+                               dims_chunk[1] - lowY - highY,
+                               dims_chunk[2] - lowX -
+                                 highX }; // row-major instead of column-major here
           status = H5Sselect_hyperslab(dataspace_file, H5S_SELECT_SET, start, stride, count, block);
+          status =
+            H5Sselect_hyperslab(dataspace_memory, H5S_SELECT_SET, start_mem, stride, count, block);
         }
       }
       else
-- 
2.43.0


From 8f79d50133be49b565190e1206d7ba0415d2780b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:09 +0000
Subject: [PATCH 43/47] fix: parallel-netCDF writer gets the number of
 variables of the solver

---
 src/utils/io/IO_ReadWrite.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/io/IO_ReadWrite.cpp b/src/utils/io/IO_ReadWrite.cpp
index bf59d2d..ba3154d 100644
--- a/src/utils/io/IO_ReadWrite.cpp
+++ b/src/utils/io/IO_ReadWrite.cpp
@@ -113,7 +113,7 @@ IO_ReadWrite::save_data_impl(DataArray2d             Udata,
   if (pnetcdf_enabled)
   {
     ppkMHD::io::Save_PNETCDF<TWO_D> writer(
-      Udata, Uhost, params, configMap, HYDRO_2D_NBVAR, variables_names, iStep, time, debug_name);
+      Udata, Uhost, params, configMap, params.nbvar, variables_names, iStep, time, debug_name);
     writer.save();
   }
 #endif // USE_PNETCDF
@@ -161,7 +161,7 @@ IO_ReadWrite::save_data_impl(DataArray3d             Udata,
   if (pnetcdf_enabled)
   {
     ppkMHD::io::Save_PNETCDF<THREE_D> writer(
-      Udata, Uhost, params, configMap, HYDRO_2D_NBVAR, variables_names, iStep, time, debug_name);
+      Udata, Uhost, params, configMap, params.nbvar, variables_names, iStep, time, debug_name);
     writer.save();
   }
 #endif // USE_PNETCDF
-- 
2.43.0


From 9b793050f91b412d8be1f0e5eee6d3ff025229f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:28 +0000
Subject: [PATCH 44/47] fix: parallel-netCDF output does not write outdated
 ghost cells in place of the neighbor's cells

---
 src/utils/io/IO_PNETCDF.h | 97 +++++++++++++++------------------------
 1 file changed, 38 insertions(+), 59 deletions(-)

diff --git a/src/utils/io/IO_PNETCDF.h b/src/utils/io/IO_PNETCDF.h
index 39e539a..ab678c0 100644
--- a/src/utils/io/IO_PNETCDF.h
+++ b/src/utils/io/IO_PNETCDF.h
@@ -70,6 +70,9 @@ public:
   template <DimensionType d_ = d>
   void
   copy_buffer(typename std::enable_if<d_ == TWO_D, real_t>::type *& data,
+              int                                                   iStart,
+              int                                                   jStart,
+              int                                                   kStart,
               int                                                   iStop,
               int                                                   jStop,
               int                                                   kStop,
@@ -79,9 +82,9 @@ public:
     if (layout == KOKKOS_LAYOUT_RIGHT)
     { // transpose array to make data contiguous in memory
       int dI = 0;
-      for (int j = 0; j < jStop; j++)
+      for (int j = jStart; j < jStop; j++)
       {
-        for (int i = 0; i < iStop; i++)
+        for (int i = iStart; i < iStop; i++)
         {
           data[dI] = Uhost(i, j, iVar);
           dI++;
@@ -92,9 +95,9 @@ public:
     {
       // data = Uhost.data() + isize*jsize*nvar;
       int dI = 0;
-      for (int i = 0; i < iStop; i++)
+      for (int i = iStart; i < iStop; i++)
       {
-        for (int j = 0; j < jStop; j++)
+        for (int j = jStart; j < jStop; j++)
         {
           data[dI] = Uhost(i, j, iVar);
           dI++;
@@ -107,6 +110,9 @@ public:
   template <DimensionType d_ = d>
   void
   copy_buffer(typename std::enable_if<d_ == THREE_D, real_t>::type *& data,
+              int                                                     iStart,
+              int                                                     jStart,
+              int                                                     kStart,
               int                                                     iStop,
               int                                                     jStop,
               int                                                     kStop,
@@ -117,9 +123,9 @@ public:
     { // transpose array to make data contiguous in memory
 
       int dI = 0;
-      for (int k = 0; k < kStop; k++)
-        for (int j = 0; j < jStop; j++)
-          for (int i = 0; i < iStop; i++)
+      for (int k = kStart; k < kStop; k++)
+        for (int j = jStart; j < jStop; j++)
+          for (int i = iStart; i < iStop; i++)
           {
             data[dI] = Uhost(i, j, k, iVar);
             dI++;
@@ -129,9 +135,9 @@ public:
     {
       // data = Uhost.data() + isize*jsize*ksize*nvar;
       int dI = 0;
-      for (int i = 0; i < iStop; i++)
-        for (int j = 0; j < jStop; j++)
-          for (int k = 0; k < kStop; k++)
+      for (int i = iStart; i < iStop; i++)
+        for (int j = jStart; j < jStop; j++)
+          for (int k = kStart; k < kStop; k++)
           {
             data[dI] = Uhost(i, j, k, iVar);
             dI++;
@@ -449,54 +455,36 @@ public:
     /*
      * Write heavy data (take care of row-major / column major format !)
      */
-    // use non-overlapped domain
+    // use non-overlapped domain: each sub-domain writes its inner cells, and the ghost cells
+    // which are on the border of the whole domain
+    const int iStart = coords[IX] == 0 ? 0 : ghostWidth;
+    const int jStart = coords[IY] == 0 ? 0 : ghostWidth;
+    const int kStart = (dimType == TWO_D or coords[IZ] == 0) ? 0 : ghostWidth;
+
+    const int iStop = coords[IX] == mx - 1 ? nx + 2 * ghostWidth : nx + ghostWidth;
+    const int jStop = coords[IY] == my - 1 ? ny + 2 * ghostWidth : ny + ghostWidth;
+    const int kStop =
+      (dimType == TWO_D or coords[IZ] == mz - 1) ? nz + 2 * ghostWidth : nz + ghostWidth;
+
     if (dimType == TWO_D)
     {
 
-      counts[IY] = nx;
-      counts[IX] = ny;
-
-      starts[IY] = coords[IX] * nx;
-      starts[IX] = coords[IY] * ny;
+      counts[IY] = iStop - iStart;
+      counts[IX] = jStop - jStart;
 
-      // take care of borders along X
-      if (coords[IX] == mx - 1)
-      {
-        counts[IY] += 2 * ghostWidth;
-      }
-
-      // take care of borders along Y
-      if (coords[IY] == my - 1)
-      {
-        counts[IX] += 2 * ghostWidth;
-      }
+      starts[IY] = coords[IX] * nx + iStart;
+      starts[IX] = coords[IY] * ny + jStart;
     }
     else
     { // THREE_D
 
-      counts[IZ] = nx;
-      counts[IY] = ny;
-      counts[IX] = nz;
+      counts[IZ] = iStop - iStart;
+      counts[IY] = jStop - jStart;
+      counts[IX] = kStop - kStart;
 
-      starts[IZ] = coords[IX] * nx;
-      starts[IY] = coords[IY] * ny;
-      starts[IX] = coords[IZ] * nz;
-
-      // take care of borders along X
-      if (coords[IX] == mx - 1)
-      {
-        counts[IZ] += 2 * ghostWidth;
-      }
-      // take care of borders along Y
-      if (coords[IY] == my - 1)
-      {
-        counts[IY] += 2 * ghostWidth;
-      }
-      // take care of borders along Z
-      if (coords[IZ] == mz - 1)
-      {
-        counts[IX] += 2 * ghostWidth;
-      }
+      starts[IZ] = coords[IX] * nx + iStart;
+      starts[IY] = coords[IY] * ny + jStart;
+      starts[IX] = coords[IZ] * nz + kStart;
 
     } // end THREE_D
 
@@ -511,20 +499,11 @@ public:
 
       data = (real_t *)malloc(nItems * sizeof(real_t));
 
-      int iStop = nx, jStop = ny, kStop = nz;
-
-      if (coords[IX] == mx - 1)
-        iStop = nx + 2 * ghostWidth;
-      if (coords[IY] == my - 1)
-        jStop = ny + 2 * ghostWidth;
-      if (coords[IZ] == mz - 1)
-        kStop = nz + 2 * ghostWidth;
-
       for (int iVar = 0; iVar < nbvar; iVar++)
       {
 
         // copy needed data into data !
-        copy_buffer(data, iStop, jStop, kStop, iVar, layout);
+        copy_buffer(data, iStart, jStart, kStart, iStop, jStop, kStop, iVar, layout);
 
         // write on disk
         err = ncmpi_put_vara_all(ncFileId, varIds[iVar], starts, counts, data, nItems, mpiDataType);
-- 
2.43.0


From 4b008794845d65a2ae2ad8491bec60986930c9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:27 +0000
Subject: [PATCH 45/47] fix: SDM four quadrant initial condition is not shifted
 by half a cell

---
 src/sdm/init/InitFourQuadrantFunctor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sdm/init/InitFourQuadrantFunctor.h b/src/sdm/init/InitFourQuadrantFunctor.h
index 0c60cf9..24339c9 100644
--- a/src/sdm/init/InitFourQuadrantFunctor.h
+++ b/src/sdm/init/InitFourQuadrantFunctor.h
@@ -107,8 +107,8 @@ public:
       {
 
         // lower left corner
-        real_t x = xmin + dx / 2 + (i + nx * i_mpi - ghostWidth) * dx;
-        real_t y = ymin + dy / 2 + (j + ny * j_mpi - ghostWidth) * dy;
+        real_t x = xmin + (i + nx * i_mpi - ghostWidth) * dx;
+        real_t y = ymin + (j + ny * j_mpi - ghostWidth) * dy;
 
         // Dof location in real space
         x += this->sdm_geom.solution_pts_1d(idx) * dx;
-- 
2.43.0


From 1615ae97828a226ba8f800ad3d7502a50a6c8d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:27 +0000
Subject: [PATCH 46/47] fix: jet problem uses the solver's default gamma0

---
 src/shared/problems/JetParams.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/problems/JetParams.h b/src/shared/problems/JetParams.h
index bc0d809..fc8ad97 100644
--- a/src/shared/problems/JetParams.h
+++ b/src/shared/problems/JetParams.h
@@ -51,7 +51,7 @@ struct JetParams
 
   JetParams(ConfigMap & configMap)
   {
-    real_t gamma0 = configMap.getFloat("hydro", "gamma0", 5.0 / 3.0);
+    real_t gamma0 = configMap.getFloat("hydro", "gamma0", 1.4);
 
     // read jet parameters
     rho_jet = configMap.getFloat("jet", "rho_jet", 5.0);
-- 
2.43.0


From 3e15a288767eecb2096b777feb87e2a2e4336a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:27 +0000
Subject: [PATCH 47/47] fix: isentropic vortex at tEnd is wrapped into the
 domain wherever the domain starts

---
 src/sdm/init/InitIsentropicVortexFunctor.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sdm/init/InitIsentropicVortexFunctor.h b/src/sdm/init/InitIsentropicVortexFunctor.h
index efde905..2cc2ebd 100644
--- a/src/sdm/init/InitIsentropicVortexFunctor.h
+++ b/src/sdm/init/InitIsentropicVortexFunctor.h
@@ -106,8 +106,9 @@ public:
       vortex_y += this->iparams.tEnd * v_a;
 
       // make sure vortex center is inside the box (periodic boundaries for this test)
-      vortex_x = fmod(vortex_x, xmax - xmin);
-      vortex_y = fmod(vortex_y, ymax - ymin);
+      // the domain is periodic
+      vortex_x -= floor((vortex_x - xmin) / (xmax - xmin)) * (xmax - xmin);
+      vortex_y -= floor((vortex_y - ymin) / (ymax - ymin)) * (ymax - ymin);
     }
 
     int i, j;
@@ -212,8 +213,9 @@ public:
       vortex_y += this->iparams.tEnd * v_a;
 
       // make sure vortex center is inside the box (periodic boundaries for this test)
-      vortex_x = fmod(vortex_x, xmax - xmin);
-      vortex_y = fmod(vortex_y, ymax - ymin);
+      // the domain is periodic
+      vortex_x -= floor((vortex_x - xmin) / (xmax - xmin)) * (xmax - xmin);
+      vortex_y -= floor((vortex_y - ymin) / (ymax - ymin)) * (ymax - ymin);
     }
 
     // local cell index
-- 
2.43.0

