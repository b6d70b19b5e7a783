From 98ab21191297750834ec80fbee1c170027c094ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:06 +0000
Subject: [PATCH 01/16] fix: recompute the line-of-sight attenuation at every
 area-mode distance

---
 src/itmlogic/lrprop.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/itmlogic/lrprop.py b/src/itmlogic/lrprop.py
index 531cff9..24fea2c 100644
--- a/src/itmlogic/lrprop.py
+++ b/src/itmlogic/lrprop.py
@@ -157,11 +157,11 @@ def lrprop(d, prop):
             prop['ael'] = a2 - prop['ak1'] * d2 - prop['ak2'] * np.log(d2)
             prop['wlos'] = 1
 
-            if prop['dist'] > 0:
-                prop['aref'] = (
-                    prop['ael'] + prop['ak1'] *
-                    prop['dist'] + prop['ak2'] * np.log(prop['dist'])
-                    )
+        if prop['dist'] > 0:
+            prop['aref'] = (
+                prop['ael'] + prop['ak1'] *
+                prop['dist'] + prop['ak2'] * np.log(prop['dist'])
+                )
 
     if prop['dist'] <= 0 or prop['dist'] >= prop['dlsa']:
 
-- 
2.43.0


From 8347dbe2e12a9df484ea7374bd163f4e41ba209a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:07 +0000
Subject: [PATCH 02/16] fix: check the first terminal's own horizon distance in
 the range warning

---
 src/itmlogic/lrprop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/itmlogic/lrprop.py b/src/itmlogic/lrprop.py
index 24fea2c..916e1a6 100644
--- a/src/itmlogic/lrprop.py
+++ b/src/itmlogic/lrprop.py
@@ -62,7 +62,7 @@ def lrprop(d, prop):
 
         if (abs(prop['the'][0]) > 0.2 or
             prop['dl'][0] < 0.1 * prop['dls'][0] or
-            prop['dl'][1] > 3 * prop['dls'][0]):
+            prop['dl'][0] > 3 * prop['dls'][0]):
             prop['kwx'] = max(prop['kwx'], 3)
 
         if (abs(prop['the'][1]) > 0.2 or
-- 
2.43.0


From 30a2bec529253f4004f4d5eaf4c99691e5af158d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:08 +0000
Subject: [PATCH 03/16] fix: flag a ground impedance whose real part equals its
 imaginary part

---
 src/itmlogic/lrprop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/itmlogic/lrprop.py b/src/itmlogic/lrprop.py
index 916e1a6..73d2155 100644
--- a/src/itmlogic/lrprop.py
+++ b/src/itmlogic/lrprop.py
@@ -71,7 +71,7 @@ def lrprop(d, prop):
             prop['kwx'] = max(prop['kwx'], 3)
 
         if (prop['ens'] < 250 or prop['ens'] > 400 or prop['gme'] < 75e-9 or
-            prop['gme'] > 250e-9 or prop['zgnd'].real < abs(prop['zgnd'].imag) or
+            prop['gme'] > 250e-9 or prop['zgnd'].real <= abs(prop['zgnd'].imag) or
             prop['wn'] < 0.419 or prop['wn'] > 420):
             prop['kwx'] = 4
 
-- 
2.43.0


From 6ad6cd310a2ef139b2bb4e8366b5d5d448cebae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:09 +0000
Subject: [PATCH 04/16] fix: report inadmissible troposcatter instead of
 overwriting the flag

---
 src/itmlogic/scatter_attenuation/ascat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/itmlogic/scatter_attenuation/ascat.py b/src/itmlogic/scatter_attenuation/ascat.py
index ebe6fbf..7e2ded3 100644
--- a/src/itmlogic/scatter_attenuation/ascat.py
+++ b/src/itmlogic/scatter_attenuation/ascat.py
@@ -35,6 +35,8 @@ def ascat(d, prop):
         if r1 < 0.2 and r2 < 0.2:
             prop['ascat1'] = 1001
 
+            return prop
+
         ss = (d - prop['ad']) / (d + prop['ad'])
 
         q = prop['rr'] / ss
@@ -61,9 +63,7 @@ def ascat(d, prop):
         if h0 > 15 and prop['h0s'] >= 0:
             h0 = prop['h0s']
 
-        if prop['ascat1'] != 1001:
-
-            prop['h0s'] = h0
+        prop['h0s'] = h0
 
     th = prop['tha'] + d * prop['gme']
 
-- 
2.43.0


From d34f71ce13f14ef703650c5cc192b54a01d0c0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:10 +0000
Subject: [PATCH 05/16] fix: use the receiver's own ground elevation on
 line-of-sight profiles

---
 src/itmlogic/preparatory_subroutines/qlrpfl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/itmlogic/preparatory_subroutines/qlrpfl.py b/src/itmlogic/preparatory_subroutines/qlrpfl.py
index 7ffe6dd..a24287c 100644
--- a/src/itmlogic/preparatory_subroutines/qlrpfl.py
+++ b/src/itmlogic/preparatory_subroutines/qlrpfl.py
@@ -40,7 +40,7 @@ def qlrpfl(prop):
         prop['he'] = []
         za, zb = zlsq1(prop['pfl'], xl[0], xl[1])
         prop['he'].append(prop['hg'][0] + max(prop['pfl'][2] - za, 0))
-        prop['he'].append(prop['hg'][1] + max(prop['pfl'][np+1] - zb, 0))
+        prop['he'].append(prop['hg'][1] + max(prop['pfl'][np+2] - zb, 0))
 
         for j in range(0, 2):
             prop['dl'][j] = (
-- 
2.43.0


From 86741c389e4c233ff2036e3d624e8e70428d53fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:10 +0000
Subject: [PATCH 06/16] fix: widen a degenerate least-squares interval instead
 of dividing by zero

---
 src/itmlogic/preparatory_subroutines/zlsq1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/itmlogic/preparatory_subroutines/zlsq1.py b/src/itmlogic/preparatory_subroutines/zlsq1.py
index 5321c07..c9c146a 100644
--- a/src/itmlogic/preparatory_subroutines/zlsq1.py
+++ b/src/itmlogic/preparatory_subroutines/zlsq1.py
@@ -35,7 +35,7 @@ def zlsq1(z, x1, x2):
 
     if xb <= xa:
         xa = max(xa - 1, 0)
-        xb = xn - max(xn - xb + 1, 0)
+        xb = xn - max(xn - (xb + 1), 0)
 
     ja = xa
     jb = xb
-- 
2.43.0


From 1bee39bd8fbc676824097b30d213709bc606823f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:11 +0000
Subject: [PATCH 07/16] fix: keep the ground conductivity in the area runners'
 surface impedance

---
 scripts/area.py        | 2 +-
 scripts/area_2tiles.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/area.py b/scripts/area.py
index 6dd5b03..7d5b399 100644
--- a/scripts/area.py
+++ b/scripts/area.py
@@ -161,7 +161,7 @@ def itmlogic_area(main_user_defined_parameters):
     zq = complex(prop['eps'], 376.62 * prop['sgm'] / prop['wn'])
 
     #Compute ground effective impedance z parameter (horizontal pol)
-    prop['zgnd'] = math.sqrt(zq.real - 1)
+    prop['zgnd'] = np.sqrt(zq - 1)
 
     #Compute ground effective impedance z parameter (vertical pol)
     if (prop['ipol'] != 0):
diff --git a/scripts/area_2tiles.py b/scripts/area_2tiles.py
index b9fee7d..d22d8a7 100644
--- a/scripts/area_2tiles.py
+++ b/scripts/area_2tiles.py
@@ -162,7 +162,7 @@ def itmlogic_area(main_user_defined_parameters):
     zq = complex(prop['eps'], 376.62 * prop['sgm'] / prop['wn'])
 
     #Compute ground effective impedance z parameter (horizontal pol)
-    prop['zgnd'] = math.sqrt(zq.real - 1)
+    prop['zgnd'] = np.sqrt(zq - 1)
 
     #Compute ground effective impedance z parameter (vertical pol)
     if (prop['ipol'] != 0):
-- 
2.43.0


From 85e86ea945ff8a3273e84af854ad692db532125c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:12 +0000
Subject: [PATCH 08/16] fix: convert the PIMTER percentages to fractions before
 inverting them

---
 scripts/pimter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/pimter.py b/scripts/pimter.py
index 6bd4d0d..b252821 100644
--- a/scripts/pimter.py
+++ b/scripts/pimter.py
@@ -86,8 +86,8 @@ def run_itmlogic(surface_profile_m, distance_km):
     DB = 8.685890
     NC = len(qc)
     NR = len(qr)
-    ZR = qerfi(qr) #ZR = qerfi(qr / 100)
-    ZC = qerfi(qc) #ZC = qerfi(qc / 100)
+    ZR = qerfi([x / 100 for x in qr])
+    ZC = qerfi([x / 100 for x in qc])
 
     # Inverse Earth radius
     prop['gma']  = 157E-9
-- 
2.43.0


From 931498f8c4725587b3ae60d41cdba86dec5e9cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:13 +0000
Subject: [PATCH 09/16] fix: use the surface profile handed to the PIMTER
 runner

---
 scripts/pimter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/pimter.py b/scripts/pimter.py
index b252821..97c5a29 100644
--- a/scripts/pimter.py
+++ b/scripts/pimter.py
@@ -103,7 +103,7 @@ def run_itmlogic(surface_profile_m, distance_km):
 
     PFL.append(len(distance_km)-1)
     PFL.append(distance_km[1] - distance_km[0])
-    PFL = PFL + terrain_height_no_tree
+    PFL = PFL + surface_profile_m
 
     #Length of profile (km)
     prop['d'] = distance_km[-1]/1000
-- 
2.43.0


From 7382450c00a07977725a06e57e5e037bf50531f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:14 +0000
Subject: [PATCH 10/16] fix: sample the terrain profile right up to the
 receiver

---
 scripts/terrain_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/terrain_module.py b/scripts/terrain_module.py
index fa6efe2..542ed69 100644
--- a/scripts/terrain_module.py
+++ b/scripts/terrain_module.py
@@ -161,7 +161,7 @@ def terrain_p2p(dem, line):
 
     # Interpolate along line to get sampling points
     num_samples = determine_num_samples(distance_m)
-    steps = np.interp(range(num_samples), [0,num_samples], [0, line_geom.length])
+    steps = np.interp(range(num_samples), [0, num_samples - 1], [0, line_geom.length])
     point_geoms = [line_geom.interpolate(currentdistance) for currentdistance in steps]
 
     # Sample elevation profile
-- 
2.43.0


From 79e58d16b38e41fcd871e1f380b10c89c2959d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:15 +0000
Subject: [PATCH 11/16] fix: leave masked cells out of the interdecile range

---
 scripts/terrain_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/terrain_module.py b/scripts/terrain_module.py
index 542ed69..579d06e 100644
--- a/scripts/terrain_module.py
+++ b/scripts/terrain_module.py
@@ -112,7 +112,7 @@ def interdecile_range(x):
         The terrain irregularity parameter.
 
     """
-    q90, q10 = np.percentile(x, [90, 10])
+    q90, q10 = np.percentile(np.ma.compressed(x), [90, 10])
 
     interdecile_range = int(round(q90 - q10, 0))
 
-- 
2.43.0


From 66a22b0e9b9a8f435c588c93afb5c0f9be287295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:16 +0000
Subject: [PATCH 12/16] fix: classify the path by its own horizon distances

---
 scripts/p2p.py        | 11 ++++++-----
 scripts/p2p_2tiles.py | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/scripts/p2p.py b/scripts/p2p.py
index 6752366..a42460b 100644
--- a/scripts/p2p.py
+++ b/scripts/p2p.py
@@ -184,7 +184,7 @@ def itmlogic_p2p(main_user_defined_parameters, surface_profile_m):
 
     #Used to classify path based on comparison of current distance to computed
     #line-of-site distance
-    q = prop['dist'] - prop['dlsa']
+    q = prop['dist'] - prop['dla']
 
     #Scaling used for this classification
     q = max(q - 0.5 * pfl[1], 0) - max(-q - 0.5 * pfl[1], 0)
@@ -197,10 +197,11 @@ def itmlogic_p2p(main_user_defined_parameters, surface_profile_m):
         print('Single horizon path')
     else:
         print('Double-horizon path')
-    if prop['dist'] <= prop['dlsa']:
-        print('Diffraction is the dominant mode')
-    elif prop['dist'] > prop['dx']:
-        print('Tropospheric scatter is the dominant mode')
+    if q >= 0:
+        if prop['dist'] <= prop['dlsa'] or prop['dist'] <= prop['dx']:
+            print('Diffraction is the dominant mode')
+        else:
+            print('Tropospheric scatter is the dominant mode')
 
     print('Estimated quantiles of basic transmission loss (db)')
     print('Free space value {} db'.format(str(fs)))
diff --git a/scripts/p2p_2tiles.py b/scripts/p2p_2tiles.py
index 90d4e9b..3bacef3 100644
--- a/scripts/p2p_2tiles.py
+++ b/scripts/p2p_2tiles.py
@@ -182,7 +182,7 @@ def itmlogic_p2p(main_user_defined_parameters, surface_profile_m):
 
     #Used to classify path based on comparison of current distance to computed
     #line-of-site distance
-    q = prop['dist'] - prop['dlsa']
+    q = prop['dist'] - prop['dla']
 
     #Scaling used for this classification
     q = max(q - 0.5 * pfl[1], 0) - max(-q - 0.5 * pfl[1], 0)
@@ -195,10 +195,11 @@ def itmlogic_p2p(main_user_defined_parameters, surface_profile_m):
         print('Single horizon path')
     else:
         print('Double-horizon path')
-    if prop['dist'] <= prop['dlsa']:
-        print('Diffraction is the dominant mode')
-    elif prop['dist'] > prop['dx']:
-        print('Tropospheric scatter is the dominant mode')
+    if q >= 0:
+        if prop['dist'] <= prop['dlsa'] or prop['dist'] <= prop['dx']:
+            print('Diffraction is the dominant mode')
+        else:
+            print('Tropospheric scatter is the dominant mode')
 
     print('Estimated quantiles of basic transmission loss (db)')
     print('Free space value {} db'.format(str(fs)))
-- 
2.43.0


From 6efb87f2e98a13144239147f7c48d970c92c7e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:17 +0000
Subject: [PATCH 13/16] fix: name the axis when sorting plotted columns

---
 vis/vis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vis/vis.py b/vis/vis.py
index 1e79341..1a32f27 100644
--- a/vis/vis.py
+++ b/vis/vis.py
@@ -30,7 +30,7 @@ def plot_area_results(path):
     """
     data = pd.read_csv(path)
 
-    data = data.set_index(['distance_km','confidence_level_%']).unstack().swaplevel(0,1,1).sort_index(1)
+    data = data.set_index(['distance_km','confidence_level_%']).unstack().swaplevel(0,1,1).sort_index(axis=1)
     ax =  data.plot.line()
     ax.set_xlabel("Distance (km)")
     ax.set_ylabel("Propagation Loss (dB)")
@@ -58,7 +58,7 @@ def plot_p2p_results(path):
 
     data = data.set_index(
         ['reliability_level_%', 'confidence_level_%']
-        ).unstack().swaplevel(0,1,1).sort_index(1)
+        ).unstack().swaplevel(0,1,1).sort_index(axis=1)
 
     ax =  data.plot.bar(rot=0)
     ax.set_xlabel("Reliability (%)")
-- 
2.43.0


From 82a0e5e4b1e723cf69a8210a07c441699b78d6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:18 +0000
Subject: [PATCH 14/16] fix: create the shapes folder before writing the
 two-tile profile

---
 scripts/p2p_2tiles.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/p2p_2tiles.py b/scripts/p2p_2tiles.py
index 3bacef3..feadb52 100644
--- a/scripts/p2p_2tiles.py
+++ b/scripts/p2p_2tiles.py
@@ -425,6 +425,9 @@ if __name__ == '__main__':
         'properties': {'elevation': 'float'}
     }
 
+    if not os.path.exists(directory_shapes):
+        os.makedirs(directory_shapes)
+
     crs = from_epsg(4326)
     with fiona.open('data/processed/shapes/p2p_2tiles.shp',
                     'w',
-- 
2.43.0


From 74b74b3781ddd60ee091698f793bd7335bf2aaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:40 +0000
Subject: [PATCH 15/16] fix: use Hastings' constants so the normal probability
 keeps its stated accuracy

---
 src/itmlogic/misc/qerf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/itmlogic/misc/qerf.py b/src/itmlogic/misc/qerf.py
index 7220556..7eb4156 100644
--- a/src/itmlogic/misc/qerf.py
+++ b/src/itmlogic/misc/qerf.py
@@ -20,9 +20,9 @@ def qerf(z):
     b1 = 0.319381530
     b2 = -0.356563782
     b3 = 1.781477937
-    b4 = -1.821255987
+    b4 = -1.821255978
     b5 = 1.330274429
-    rp = 4.317008
+    rp = 4.317008279
 
     rrt2pi = 0.398942280
 
-- 
2.43.0


From 6c4c5d49f4a9cf1492c250d7c1364c8db5234c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:40 +0000
Subject: [PATCH 16/16] fix: leave cells beyond or without elevation data out
 of the terrain irregularity

---
 scripts/terrain_module.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/scripts/terrain_module.py b/scripts/terrain_module.py
index 579d06e..63272ff 100644
--- a/scripts/terrain_module.py
+++ b/scripts/terrain_module.py
@@ -20,7 +20,7 @@ import numpy as np
 from fiona.crs import from_epsg
 from rasterstats import gen_zonal_stats, point_query
 from shapely.ops import transform
-from shapely.geometry import Point, LineString, mapping
+from shapely.geometry import Point, LineString, box, mapping
 
 
 def terrain_area(dem, lon, lat, cell_range):
@@ -49,6 +49,11 @@ def terrain_area(dem, lon, lat, cell_range):
     # Buffer around cell point
     cell_area = geodesic_point_buffer(lon, lat, cell_range)
 
+    # Keep to the extent of the DEM, and to the cells it holds data for
+    with rasterio.open(dem) as source:
+        cell_area = cell_area.intersection(box(*source.bounds))
+        nodata = -9999 if source.nodata is None else source.nodata
+
     # Calculate raster stats
     stats = next(gen_zonal_stats(
         [cell_area],
@@ -56,7 +61,7 @@ def terrain_area(dem, lon, lat, cell_range):
         add_stats={
             'interdecile_range': interdecile_range
         },
-        nodata=-9999
+        nodata=nodata
     ))
 
     id_range = stats['interdecile_range']
-- 
2.43.0

