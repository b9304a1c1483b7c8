From 94a6a6b66e02f53ce77058123d9a2b284cf49b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 01/31] fix: evaluate psa, soltrack and iqbal in double
 precision

Coordinates were truncated to float32 and the numpy engine of psa rounded
the cosine of the zenith to 6 decimals, so that the zenith was off by up to
0.06 degrees (and numpy and numexpr differed) with the sun close to the zenith
or the nadir and, in soltrack, close to the poles.
---
 src/sunwhere/libspa/ne_iqbal.py    |  4 ++--
 src/sunwhere/libspa/ne_psa.py      |  4 ++--
 src/sunwhere/libspa/ne_soltrack.py |  4 ++--
 src/sunwhere/libspa/py_iqbal.py    |  4 ++--
 src/sunwhere/libspa/py_psa.py      | 10 +++++-----
 src/sunwhere/libspa/py_soltrack.py |  4 ++--
 6 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/sunwhere/libspa/ne_iqbal.py b/src/sunwhere/libspa/ne_iqbal.py
index bbacc02..04dc1bb 100644
--- a/src/sunwhere/libspa/ne_iqbal.py
+++ b/src/sunwhere/libspa/ne_iqbal.py
@@ -25,8 +25,8 @@ def sunpos(unixtime, longitude, latitude, ndim=1, with_refraction=False):
 
     # inputs must be 1d arrays
     unixtime = np.array(unixtime, ndmin=1, dtype=np.float64).ravel()
-    longitude = np.array(longitude, ndmin=1, dtype=np.float32).ravel()
-    latitude = np.array(latitude, ndmin=1, dtype=np.float32).ravel()
+    longitude = np.array(longitude, ndmin=1, dtype=np.float64).ravel()
+    latitude = np.array(latitude, ndmin=1, dtype=np.float64).ravel()
 
     if ndim == 0:
 
diff --git a/src/sunwhere/libspa/ne_psa.py b/src/sunwhere/libspa/ne_psa.py
index e5ba0f3..7da3e5b 100644
--- a/src/sunwhere/libspa/ne_psa.py
+++ b/src/sunwhere/libspa/ne_psa.py
@@ -29,8 +29,8 @@ def sunpos(unixtime, longitude, latitude, ndim=1, with_refraction=True):
 
     # inputs must be 1d arrays
     unixtime = np.array(unixtime, ndmin=1, dtype=np.float64).ravel()
-    longitude = np.array(longitude, ndmin=1, dtype=np.float32).ravel()
-    latitude = np.array(latitude, ndmin=1, dtype=np.float32).ravel()
+    longitude = np.array(longitude, ndmin=1, dtype=np.float64).ravel()
+    latitude = np.array(latitude, ndmin=1, dtype=np.float64).ravel()
 
     if ndim == 0:
 
diff --git a/src/sunwhere/libspa/ne_soltrack.py b/src/sunwhere/libspa/ne_soltrack.py
index 27bd91b..b8c7091 100644
--- a/src/sunwhere/libspa/ne_soltrack.py
+++ b/src/sunwhere/libspa/ne_soltrack.py
@@ -32,8 +32,8 @@ def sunpos(unixtime, longitude, latitude, ndim=1, with_refraction=True):
 
     # inputs must be 1d arrays
     unixtime = np.array(unixtime, ndmin=1, dtype=np.float64).ravel()
-    longitude = np.array(longitude, ndmin=1, dtype=np.float32).ravel()
-    latitude = np.array(latitude, ndmin=1, dtype=np.float32).ravel()
+    longitude = np.array(longitude, ndmin=1, dtype=np.float64).ravel()
+    latitude = np.array(latitude, ndmin=1, dtype=np.float64).ravel()
 
     if ndim == 0:
 
diff --git a/src/sunwhere/libspa/py_iqbal.py b/src/sunwhere/libspa/py_iqbal.py
index c60aaa8..abd7f87 100644
--- a/src/sunwhere/libspa/py_iqbal.py
+++ b/src/sunwhere/libspa/py_iqbal.py
@@ -24,8 +24,8 @@ def sunpos(unixtime, longitude, latitude, ndim=1, with_refraction=False):
 
     # inputs must be 1d arrays
     unixtime = np.array(unixtime, ndmin=1, dtype=np.float64).ravel()
-    longitude = np.array(longitude, ndmin=1, dtype=np.float32).ravel()
-    latitude = np.array(latitude, ndmin=1, dtype=np.float32).ravel()
+    longitude = np.array(longitude, ndmin=1, dtype=np.float64).ravel()
+    latitude = np.array(latitude, ndmin=1, dtype=np.float64).ravel()
 
     if ndim == 0:
 
diff --git a/src/sunwhere/libspa/py_psa.py b/src/sunwhere/libspa/py_psa.py
index 87fc09c..a557ba0 100644
--- a/src/sunwhere/libspa/py_psa.py
+++ b/src/sunwhere/libspa/py_psa.py
@@ -25,8 +25,8 @@ def sunpos(unixtime, longitude, latitude, ndim=1, with_refraction=True):
 
     # inputs must be 1d arrays
     unixtime = np.array(unixtime, ndmin=1, dtype=np.float64).ravel()
-    longitude = np.array(longitude, ndmin=1, dtype=np.float32).ravel()
-    latitude = np.array(latitude, ndmin=1, dtype=np.float32).ravel()
+    longitude = np.array(longitude, ndmin=1, dtype=np.float64).ravel()
+    latitude = np.array(latitude, ndmin=1, dtype=np.float64).ravel()
 
     if ndim == 0:
 
@@ -129,7 +129,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     tandec = np.tan(delta)
 
     acos_zenith = coslat*coshour*cosdec + sindec*sinlat
-    zenith = np.arccos(np.round(acos_zenith, 6))  # radians
+    zenith = np.arccos(np.clip(acos_zenith, -1., 1.))  # radians
     zenith = zenith + EMRAU * np.sin(zenith)  # parallax correction
 
     if with_refraction is True:
@@ -173,7 +173,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     tandec = np.tan(delta[:, None])
 
     acos_zenith = coslat*coshour*cosdec + sindec*sinlat
-    zenith = np.arccos(np.round(acos_zenith, 6))  # radians
+    zenith = np.arccos(np.clip(acos_zenith, -1., 1.))  # radians
     zenith = zenith + EMRAU * np.sin(zenith)  # parallax correction
 
     if with_refraction is True:
@@ -218,7 +218,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     tandec = np.tan(delta[:, None, None])
 
     acos_zenith = coslat*coshour*cosdec + sindec*sinlat
-    zenith = np.arccos(np.round(acos_zenith, 6))  # radians
+    zenith = np.arccos(np.clip(acos_zenith, -1., 1.))  # radians
     zenith = zenith + EMRAU * np.sin(zenith)  # parallax correction
 
     if with_refraction is True:
diff --git a/src/sunwhere/libspa/py_soltrack.py b/src/sunwhere/libspa/py_soltrack.py
index afae171..85aaf2a 100644
--- a/src/sunwhere/libspa/py_soltrack.py
+++ b/src/sunwhere/libspa/py_soltrack.py
@@ -28,8 +28,8 @@ def sunpos(unixtime, longitude, latitude, ndim=1, with_refraction=True):
 
     # inputs must be 1d arrays
     unixtime = np.array(unixtime, ndmin=1, dtype=np.float64).ravel()
-    longitude = np.array(longitude, ndmin=1, dtype=np.float32).ravel()
-    latitude = np.array(latitude, ndmin=1, dtype=np.float32).ravel()
+    longitude = np.array(longitude, ndmin=1, dtype=np.float64).ravel()
+    latitude = np.array(latitude, ndmin=1, dtype=np.float64).ravel()
 
     if ndim == 0:
 
-- 
2.43.0


From f169d4474a1a59b93ff556116902f6de897e224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 02/31] fix: undefined zenith with the sun exactly at the
 zenith or the nadir

Rounding can push the cosine of the zenith (or the sine of the elevation)
slightly beyond +-1, where arccos and arcsin return NaN.
---
 src/sunwhere/libspa/ne_iqbal.py    | 9 ++++++---
 src/sunwhere/libspa/ne_nrel.py     | 9 ++++++---
 src/sunwhere/libspa/ne_psa.py      | 9 ++++++---
 src/sunwhere/libspa/ne_soltrack.py | 6 +++---
 src/sunwhere/libspa/py_iqbal.py    | 6 +++---
 src/sunwhere/libspa/py_soltrack.py | 6 +++---
 6 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/sunwhere/libspa/ne_iqbal.py b/src/sunwhere/libspa/ne_iqbal.py
index 04dc1bb..96f88c4 100644
--- a/src/sunwhere/libspa/ne_iqbal.py
+++ b/src/sunwhere/libspa/ne_iqbal.py
@@ -142,7 +142,8 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = nex('(LAT - 12.)*15.*RAD')
     cosHour = nex('cos(hour_angle)')
 
-    sza_rad = nex('arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)')
+    cosz = nex('sinDecl*sinLat + cosDecl*cosLat*cosHour')
+    sza_rad = nex('arccos(where(cosz > 1., 1., where(cosz < -1., -1., cosz)))')
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
@@ -203,7 +204,8 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = (LAT - 12.)*15.*RAD
     cosHour = nex('cos(hour_angle)')
 
-    sza_rad = nex('arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)')
+    cosz = nex('sinDecl*sinLat + cosDecl*cosLat*cosHour')
+    sza_rad = nex('arccos(where(cosz > 1., 1., where(cosz < -1., -1., cosz)))')
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
@@ -265,7 +267,8 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = nex('(LAT - 12.)*15.*RAD')
     cosHour = nex('cos(hour_angle)')
 
-    sza_rad = nex('arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)')
+    cosz = nex('sinDecl*sinLat + cosDecl*cosLat*cosHour')
+    sza_rad = nex('arccos(where(cosz > 1., 1., where(cosz < -1., -1., cosz)))')
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
diff --git a/src/sunwhere/libspa/ne_nrel.py b/src/sunwhere/libspa/ne_nrel.py
index 4d0c475..a6c2d16 100644
--- a/src/sunwhere/libspa/ne_nrel.py
+++ b/src/sunwhere/libspa/ne_nrel.py
@@ -227,7 +227,8 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     Hp = nex('H - deltaa')
 
     # topocentric elevation angle without atmosphere, radians
-    e = nex('arcsin(sin(latrad)*sin(deltap) + cos(latrad)*cos(deltap)*cos(Hp))')
+    sin_e = nex('sin(latrad)*sin(deltap) + cos(latrad)*cos(deltap)*cos(Hp)')
+    e = nex('arcsin(where(sin_e > 1., 1., where(sin_e < -1., -1., sin_e)))')
 
     # topocentric elevation angle with refraction correction, radians
     if with_refraction is True:
@@ -280,7 +281,8 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     Hp = nex('H - deltaa')
 
     # topocentric elevation angle without atmosphere, radians
-    e = nex('arcsin(sin(latrad_)*sin(deltap) + cos(latrad_)*cos(deltap)*cos(Hp))')
+    sin_e = nex('sin(latrad_)*sin(deltap) + cos(latrad_)*cos(deltap)*cos(Hp)')
+    e = nex('arcsin(where(sin_e > 1., 1., where(sin_e < -1., -1., sin_e)))')
 
     # topocentric elevation angle with refraction correction, radians
     if with_refraction is True:
@@ -333,7 +335,8 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     Hp = nex('H - deltaa')
 
     # topocentric elevation angle without atmosphere, radians
-    e = nex('arcsin(sin(latrad_)*sin(deltap) + cos(latrad_)*cos(deltap)*cos(Hp))')
+    sin_e = nex('sin(latrad_)*sin(deltap) + cos(latrad_)*cos(deltap)*cos(Hp)')
+    e = nex('arcsin(where(sin_e > 1., 1., where(sin_e < -1., -1., sin_e)))')
 
     # topocentric elevation angle with refraction correction, radians
     if with_refraction is True:
diff --git a/src/sunwhere/libspa/ne_psa.py b/src/sunwhere/libspa/ne_psa.py
index 7da3e5b..e0d5195 100644
--- a/src/sunwhere/libspa/ne_psa.py
+++ b/src/sunwhere/libspa/ne_psa.py
@@ -127,7 +127,8 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     cosdec = nex('cos(delta)')
     tandec = nex('tan(delta)')
 
-    zenith = nex('arccos(coslat*coshour*cosdec + sindec*sinlat)')
+    cosz = nex('coslat*coshour*cosdec + sindec*sinlat')
+    zenith = nex('arccos(where(cosz > 1., 1., where(cosz < -1., -1., cosz)))')  # radians
     zenith = nex('zenith + EMRAU*sin(zenith)')  # ..parallax correction
 
     if with_refraction is True:
@@ -169,7 +170,8 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     cosdec = nex('cos(decli)')
     tandec = nex('tan(decli)')
 
-    zenith = nex('arccos(coslat*coshour*cosdec + sindec*sinlat)')  # radians
+    cosz = nex('coslat*coshour*cosdec + sindec*sinlat')
+    zenith = nex('arccos(where(cosz > 1., 1., where(cosz < -1., -1., cosz)))')  # radians
     zenith = nex('zenith + EMRAU*sin(zenith)')  # ..parallax correction
 
     if with_refraction is True:
@@ -211,7 +213,8 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     cosdec = nex('cos(decli)')
     tandec = nex('tan(decli)')
 
-    zenith = nex('arccos(coslat*coshour*cosdec + sindec*sinlat)')
+    cosz = nex('coslat*coshour*cosdec + sindec*sinlat')
+    zenith = nex('arccos(where(cosz > 1., 1., where(cosz < -1., -1., cosz)))')  # radians
     zenith = nex('zenith + EMRAU*sin(zenith)')  # ..parallax Correction
 
     if with_refraction is True:
diff --git a/src/sunwhere/libspa/ne_soltrack.py b/src/sunwhere/libspa/ne_soltrack.py
index b8c7091..c351e0c 100644
--- a/src/sunwhere/libspa/ne_soltrack.py
+++ b/src/sunwhere/libspa/ne_soltrack.py
@@ -147,7 +147,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     azimuth = nex('arctan2(sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)')  # 0 <= solar azimth < 2pi, Eq 25
 
     # correct for parallax
-    alt_uncorr = nex('arcsin(sin_alt)')
+    alt_uncorr = nex('arcsin(where(sin_alt > 1., 1., where(sin_alt < -1., -1., sin_alt)))')
     alt = nex('alt_uncorr - 4.2635e-5*cos(alt_uncorr)')      # horizontal parallax = 8.794" = 4.2635e-5 rad
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
@@ -182,7 +182,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     azimuth = nex('arctan2(sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)')  # 0 <= solar azimth < 2pi, Eq 25
 
     # correct for parallax
-    alt_uncorr = nex('arcsin(sin_alt)')
+    alt_uncorr = nex('arcsin(where(sin_alt > 1., 1., where(sin_alt < -1., -1., sin_alt)))')
     alt = nex('alt_uncorr - 4.2635e-5*cos(alt_uncorr)')  # horizontal parallax = 8.794" = 4.2635e-5 rad
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
@@ -218,7 +218,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     azimuth = nex('arctan2(sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)')  # 0 <= solar azimth < 2pi, Eq 25
 
     # correct for parallax
-    alt_uncorr = nex('arcsin(sin_alt)')
+    alt_uncorr = nex('arcsin(where(sin_alt > 1., 1., where(sin_alt < -1., -1., sin_alt)))')
     alt = nex('alt_uncorr - 4.2635e-5*cos(alt_uncorr)')  # horizontal parallax = 8.794" = 4.2635e-5 rad
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
diff --git a/src/sunwhere/libspa/py_iqbal.py b/src/sunwhere/libspa/py_iqbal.py
index abd7f87..b29fd05 100644
--- a/src/sunwhere/libspa/py_iqbal.py
+++ b/src/sunwhere/libspa/py_iqbal.py
@@ -139,7 +139,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = (LAT - 12.)*15.*RAD
     cosHour = np.cos(hour_angle)
 
-    sza_rad = np.arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)
+    sza_rad = np.arccos(np.clip(sinDecl*sinLat + cosDecl*cosLat*cosHour, -1., 1.))
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
@@ -198,7 +198,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = (LAT - 12.)*15.*RAD
     cosHour = np.cos(hour_angle)
 
-    sza_rad = np.arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)
+    sza_rad = np.arccos(np.clip(sinDecl*sinLat + cosDecl*cosLat*cosHour, -1., 1.))
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
@@ -259,7 +259,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = (LAT - 12.)*15.*RAD
     cosHour = np.cos(hour_angle)
 
-    sza_rad = np.arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)
+    sza_rad = np.arccos(np.clip(sinDecl*sinLat + cosDecl*cosLat*cosHour, -1., 1.))
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
diff --git a/src/sunwhere/libspa/py_soltrack.py b/src/sunwhere/libspa/py_soltrack.py
index 85aaf2a..89c11dc 100644
--- a/src/sunwhere/libspa/py_soltrack.py
+++ b/src/sunwhere/libspa/py_soltrack.py
@@ -140,7 +140,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
         sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)
 
     # correct for parallax
-    alt_uncorr = np.arcsin(sin_alt)
+    alt_uncorr = np.arcsin(np.clip(sin_alt, -1., 1.))
     cos_alt = np.cos(alt_uncorr)
     alt = alt_uncorr - 4.2635e-5*cos_alt                 # horizontal parallax = 8.794" = 4.2635e-5 rad
 
@@ -188,7 +188,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
         sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)
 
     # correct for parallax
-    alt_uncorr = np.arcsin(sin_alt)
+    alt_uncorr = np.arcsin(np.clip(sin_alt, -1., 1.))
     cos_alt = np.cos(alt_uncorr)
     alt = alt_uncorr - 4.2635e-5*cos_alt                 # horizontal parallax = 8.794" = 4.2635e-5 rad
 
@@ -236,7 +236,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
         sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)
 
     # correct for parallax
-    alt_uncorr = np.arcsin(sin_alt)
+    alt_uncorr = np.arcsin(np.clip(sin_alt, -1., 1.))
     cos_alt = np.cos(alt_uncorr)
     alt = alt_uncorr - 4.2635e-5*cos_alt                 # horizontal parallax = 8.794" = 4.2635e-5 rad
 
-- 
2.43.0


From ad639c4d4a07212d52b649ad44325a18d457c164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 03/31] fix: soltrack refraction below the horizon

The refraction formula has a singularity 5 degrees below the horizon. It was
applied at any elevation, yielding zenith errors of tens of degrees in twilight
and zenith angles out of [0, 180]. Apply it only down to the cut-off elevation
that nrel and psa use.
---
 src/sunwhere/libspa/ne_soltrack.py | 9 ++++++---
 src/sunwhere/libspa/py_soltrack.py | 6 +++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/sunwhere/libspa/ne_soltrack.py b/src/sunwhere/libspa/ne_soltrack.py
index c351e0c..dfacf38 100644
--- a/src/sunwhere/libspa/ne_soltrack.py
+++ b/src/sunwhere/libspa/ne_soltrack.py
@@ -152,7 +152,8 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
-        alt = nex('alt + (2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2)))')
+        dalt = nex('2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2))')
+        alt = nex('where(alt >= -1.4545e-2, alt + dalt, alt)')  # same cut-off as in NREL's SPA
 
     zenith = HALFPI - alt
 
@@ -187,7 +188,8 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
-        alt = nex('alt + (2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2)))')
+        dalt = nex('2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2))')
+        alt = nex('where(alt >= -1.4545e-2, alt + dalt, alt)')  # same cut-off as in NREL's SPA
 
     zenith = HALFPI - alt
 
@@ -223,7 +225,8 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
-        alt = nex('alt + (2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2)))')
+        dalt = nex('2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2))')
+        alt = nex('where(alt >= -1.4545e-2, alt + dalt, alt)')  # same cut-off as in NREL's SPA
 
     zenith = HALFPI - alt
 
diff --git a/src/sunwhere/libspa/py_soltrack.py b/src/sunwhere/libspa/py_soltrack.py
index 89c11dc..880ae91 100644
--- a/src/sunwhere/libspa/py_soltrack.py
+++ b/src/sunwhere/libspa/py_soltrack.py
@@ -147,7 +147,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
         dalt = (2.967e-4 / np.tan(alt + 3.1376e-3/(alt + 8.92e-2)))
-        alt = alt + dalt
+        alt = np.where(alt >= -1.4545e-2, alt + dalt, alt)  # same cut-off as in NREL's SPA
 
     # # convert the corrected horizontal coordinates back to equatorial coordinates
     # cos_az = np.cos(azimuth)
@@ -195,7 +195,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
         dalt = (2.967e-4 / np.tan(alt + 3.1376e-3/(alt + 8.92e-2)))
-        alt = alt + dalt
+        alt = np.where(alt >= -1.4545e-2, alt + dalt, alt)  # same cut-off as in NREL's SPA
 
     # # convert the corrected horizontal coordinates back to equatorial coordinates
     # cos_az = np.cos(azimuth)
@@ -243,7 +243,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
         dalt = (2.967e-4 / np.tan(alt + 3.1376e-3/(alt + 8.92e-2)))
-        alt = alt + dalt
+        alt = np.where(alt >= -1.4545e-2, alt + dalt, alt)  # same cut-off as in NREL's SPA
 
     # # convert the corrected horizontal coordinates back to equatorial coordinates
     # cos_az = np.cos(azimuth)
-- 
2.43.0


From be2fed92beeb03fd368fb89a5a0ac11566725947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 04/31] fix: iqbal refraction below the horizon and at the
 zenith

Rigollier's formula was applied at any elevation: it moved the sun by up to 1.9
degrees at night and yielded zenith angles below 0 or above 180 degrees. Apply it
only down to the cut-off elevation that nrel and psa use, and do not let it push
the sun beyond the zenith.
---
 src/sunwhere/libspa/ne_iqbal.py | 9 ++++++---
 src/sunwhere/libspa/py_iqbal.py | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/sunwhere/libspa/ne_iqbal.py b/src/sunwhere/libspa/ne_iqbal.py
index 96f88c4..354f98e 100644
--- a/src/sunwhere/libspa/ne_iqbal.py
+++ b/src/sunwhere/libspa/ne_iqbal.py
@@ -154,7 +154,8 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
             '0.061359*(0.1594+(1.1230*alpha)'
             '+ (0.065656*alpha2))/(1.+(28.9344*alpha)'
             '+ (277.3971*alpha2))')
-        sza_rad = HALFPI - (alpha + refcor)
+        # same cut-off elevation as in NREL's SPA, and never beyond the zenith
+        sza_rad = np.maximum(0., HALFPI - np.where(alpha >= -1.4545e-2, alpha + refcor, alpha))
 
     sinHour = nex('sin(hour_angle)')
     tanDecl = nex('tan(declination)')
@@ -216,7 +217,8 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
             '0.061359*(0.1594+(1.1230*alpha)'
             '+ (0.065656*alpha2))/(1.+(28.9344*alpha)'
             '+ (277.3971*alpha2))')
-        sza_rad = HALFPI - (alpha + refcor)
+        # same cut-off elevation as in NREL's SPA, and never beyond the zenith
+        sza_rad = np.maximum(0., HALFPI - np.where(alpha >= -1.4545e-2, alpha + refcor, alpha))
 
     sinHour = nex('sin(hour_angle)')
     tanDecl = nex('tan(declination)')[:, None]
@@ -279,7 +281,8 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
             '0.061359*(0.1594+(1.1230*alpha)'
             '+ (0.065656*alpha2))/(1.+(28.9344*alpha)'
             '+ (277.3971*alpha2))')
-        sza_rad = HALFPI - (alpha + refcor)
+        # same cut-off elevation as in NREL's SPA, and never beyond the zenith
+        sza_rad = np.maximum(0., HALFPI - np.where(alpha >= -1.4545e-2, alpha + refcor, alpha))
 
     sinHour = nex('sin(hour_angle)')
     tanDecl = nex('tan(declination)')[:, None, None]
diff --git a/src/sunwhere/libspa/py_iqbal.py b/src/sunwhere/libspa/py_iqbal.py
index b29fd05..da76fdd 100644
--- a/src/sunwhere/libspa/py_iqbal.py
+++ b/src/sunwhere/libspa/py_iqbal.py
@@ -149,7 +149,8 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
         refcor = (0.061359*(0.1594+(1.1230*alpha)
                   + (0.065656*alpha2))/(1.+(28.9344*alpha)
                   + (277.3971*alpha2)))
-        sza_rad = HALFPI - (alpha + refcor)
+        # same cut-off elevation as in NREL's SPA, and never beyond the zenith
+        sza_rad = np.maximum(0., HALFPI - np.where(alpha >= -1.4545e-2, alpha + refcor, alpha))
 
     dy = -np.sin(hour_angle)
     dx = tanDecl*cosLat - sinLat*cosHour
@@ -208,7 +209,8 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
         refcor = (0.061359*(0.1594+(1.1230*alpha)
                   + (0.065656*alpha2))/(1.+(28.9344*alpha)
                   + (277.3971*alpha2)))
-        sza_rad = HALFPI - (alpha + refcor)
+        # same cut-off elevation as in NREL's SPA, and never beyond the zenith
+        sza_rad = np.maximum(0., HALFPI - np.where(alpha >= -1.4545e-2, alpha + refcor, alpha))
 
     dy = -np.sin(hour_angle)
     dx = tanDecl*cosLat - sinLat*cosHour
@@ -269,7 +271,8 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
         refcor = (0.061359*(0.1594+(1.1230*alpha)
                   + (0.065656*alpha2))/(1.+(28.9344*alpha)
                   + (277.3971*alpha2)))
-        sza_rad = HALFPI - (alpha + refcor)
+        # same cut-off elevation as in NREL's SPA, and never beyond the zenith
+        sza_rad = np.maximum(0., HALFPI - np.where(alpha >= -1.4545e-2, alpha + refcor, alpha))
 
     dy = -np.sin(hour_angle)
     dx = tanDecl*cosLat - sinLat*cosHour
-- 
2.43.0


From cc066e211c48d02e9867523963bcb47347f48624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 05/31] fix: nrel nutation must use julian ephemeris centuries

Eqs. 20 and 21 of Reda and Andreas multiply the coefficients b and d by the julian
ephemeris century, not by the millennium (error of 0.00007 degrees at the ends of
the period of validity).
---
 src/sunwhere/libspa/ne_nrel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/libspa/ne_nrel.py b/src/sunwhere/libspa/ne_nrel.py
index a6c2d16..7774a0b 100644
--- a/src/sunwhere/libspa/ne_nrel.py
+++ b/src/sunwhere/libspa/ne_nrel.py
@@ -86,6 +86,7 @@ def time_dependent_calculations(unixtime):
 
     # julian ephemeris century
     jce = nex('(jde - 2451545) / 36525')
+    jce_ = jce[None, :]
 
     # julian ephemeris millenium
     jme = nex('jce / 10')
@@ -132,7 +133,7 @@ def time_dependent_calculations(unixtime):
     # longitude nutation
     delta_psi = np.sum(
         nex(
-            '(C_NUT_A + C_NUT_B*jme_)*'
+            '(C_NUT_A + C_NUT_B*jce_)*'
             'sin('
             '  (C_NUT_Y_0*x0_ + C_NUT_Y_1*x1_ + '
             '   C_NUT_Y_2*x2_ + C_NUT_Y_3*x3_ + '
@@ -144,7 +145,7 @@ def time_dependent_calculations(unixtime):
     # obliquity nutation
     delta_eps = np.sum(
         nex(
-            '(C_NUT_C + C_NUT_D*jme_)*'
+            '(C_NUT_C + C_NUT_D*jce_)*'
             'cos('
             '  (C_NUT_Y_0*x0_ + C_NUT_Y_1*x1_ + '
             '   C_NUT_Y_2*x2_ + C_NUT_Y_3*x3_ + '
-- 
2.43.0


From 97de94134ebf30f5ac386d00bfaaa37c120f99f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 06/31] fix: honour any truthy value of refraction

The algorithms test `with_refraction is True`, so that refraction=1 or
refraction=np.True_ were silently ignored while has_refraction reported them.
---
 src/sunwhere/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunwhere/_core.py b/src/sunwhere/_core.py
index 155328c..e53f8e3 100644
--- a/src/sunwhere/_core.py
+++ b/src/sunwhere/_core.py
@@ -151,7 +151,7 @@ def evaluate(times, latitude, longitude, algorithm='psa', ndim=1,
 
     # load function to compute solar position...
     spa_func = __ALGORITHMS__.get(algorithm).get(engine).sunpos
-    spa_args = [ndim, refraction]
+    spa_args = [ndim, bool(refraction)]
 
     # ... and call it
     namespace = spa_func.__module__ + '.' + spa_func.__name__
-- 
2.43.0


From afbfe444438a8615e76679ef97047c3074e61cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 07/31] fix: nrel with no times, or with all of them missing

The sums over the periodic terms failed to unpack if there was no valid time,
whereas the other algorithms return empty, or all-NaN, results.
---
 src/sunwhere/_core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sunwhere/_core.py b/src/sunwhere/_core.py
index e53f8e3..c82f591 100644
--- a/src/sunwhere/_core.py
+++ b/src/sunwhere/_core.py
@@ -156,7 +156,11 @@ def evaluate(times, latitude, longitude, algorithm='psa', ndim=1,
     # ... and call it
     namespace = spa_func.__module__ + '.' + spa_func.__name__
     logger.debug(f'running simulation with funtion {namespace}')
-    result = spa_func(times_nonat, lons_nonat, lats_nonat, *spa_args)
+    if n_times > 0:
+        result = spa_func(times_nonat, lons_nonat, lats_nonat, *spa_args)
+    else:  # no times at all, or all of them are NaT
+        result = {name: np.empty((0,)) for name in ('ecf', 'eot', 'declination')}
+        result.update({name: np.empty(out_shape) for name in ('zenith', 'azimuth')})
 
     # fill with NaN where times is NaT...
     nonat = ~np.isnat(times_utc)
-- 
2.43.0


From 5dcf3df593887451e98f131a9573338e5824c779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 08/31] fix: universal_time_coordinated always raised
 AttributeError

evaluate returns a dict.
---
 src/sunwhere/utils/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/utils/datetime.py b/src/sunwhere/utils/datetime.py
index fd97acc..61c6974 100644
--- a/src/sunwhere/utils/datetime.py
+++ b/src/sunwhere/utils/datetime.py
@@ -8,7 +8,7 @@ def true_solar_time(times_utc, longitude):
     dt64 = 'datetime64[ns]'
     times_utc = np.array(times_utc, ndmin=1)
     longitude = np.array(longitude, ndmin=1)
-    eot = evaluate(times_utc, 0., 0.).eot  # eot, minutes
+    eot = evaluate(times_utc, 0., 0.)['eot']  # eot, minutes
     # for compat with numpy < 1.18.0, I use reshape instead of expand_dims
     new_shape = tuple(list(eot.shape) + [1]*longitude.ndim)
     expanded_eot = np.reshape(eot, new_shape)
@@ -26,7 +26,7 @@ def universal_time_coordinated(times_tst, longitude):
     dt64 = 'datetime64[ns]'
     times_tst = np.array(times_tst, ndmin=1)
     longitude = np.array(longitude, ndmin=1)
-    eot = evaluate(times_tst, 0., 0.).eot  # eot, minutes
+    eot = evaluate(times_tst, 0., 0.)['eot']  # eot, minutes
     # for compat with numpy < 1.18.0, I use reshape instead of expand_dims
     new_shape = tuple(list(eot.shape) + [1]*longitude.ndim)
     expanded_eot = np.reshape(eot, new_shape)
-- 
2.43.0


From f2348de56b53d54596c8ba8420e770cba86a754d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 09/31] fix: sunset in degrees or radians raised
 UnboundLocalError

It is the opposite of the sunrise angle.
---
 src/sunwhere/_base.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index a0e3b18..eea70bc 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -517,11 +517,8 @@ class Sunpos:
             dl_hr = self.daylight_length()
             wss = wsr + dl_hr.copy(data=(dl_hr*3600*1e9).astype('timedelta64[ns]'))
 
-        if units == 'deg':
-            wss = (12. - wss)*15
-
-        if units == 'rad':
-            wss = np.radians((12. - wss)*15)
+        if units in ('deg', 'rad'):
+            wss = -self.sunrise(units)
 
         return wss.rename('wss').assign_attrs(
             units={'deg': 'degrees', 'rad': 'radians', 'tst': 'TST',
-- 
2.43.0


From 94ee4dcae4f279b8e190911247dd8a56ddaf9d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 10/31] fix: times with zoneinfo, dateutil or fixed-offset time
 zones, and in DST folds

Only pytz zones were recognised: any other zone was reported as UTC and its
wall-clock times were taken as UTC in times_utc, the true solar time, sunrise,
sunset and incidence; fixed pytz offsets and times in a DST fold raised.
---
 src/sunwhere/_base.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index eea70bc..bfb5977 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -53,23 +53,23 @@ class Sunpos:
         # when dealing with timezone-aware times. Hence, first I use
         # pd.to_datetime to retain the timezone of the input times (if
         # timezone-aware) or assume UTC if the input times are naive. Then, I
-        # convert to a numpy array of datetime64[ns] with ndmin=1, but de-localizing
-        # the times to prevent numpy complains. Afterwards, I convert back to
-        # pandas using again pd.to_datetime and localize
-        _times = pd.to_datetime(times)
-
-        if _times.tz is None:
-            self._timezone = 'UTC'
-        elif hasattr(_times.tz, 'zone'):
-            self._timezone = _times.tz.zone
-        else:
-            self._timezone = 'UTC'
+        # convert to a numpy array of naive UTC times with ndmin=1. Afterwards,
+        # I convert back to pandas and to the timezone of the input times. Going
+        # through UTC (rather than through local times) is valid for any kind of
+        # timezone and is not ambiguous when the clocks go back
+        tz = pd.to_datetime(times).tz
+
+        if tz is None or str(tz) == 'tzutc()':
+            tz = 'UTC'
+
+        self._timezone = getattr(tz, 'zone', None) or str(tz)
 
-        self._times = pd.to_datetime(
-            np.array(_times.tz_localize(None), ndmin=1, dtype='datetime64[ns]')
-        ).tz_localize(self._timezone, ambiguous='infer')
+        self._times_utc = pd.to_datetime(
+            np.array(pd.to_datetime(times, utc=True).tz_localize(None),
+                     ndmin=1, dtype='datetime64[ns]')
+        ).tz_localize('UTC')
 
-        self._times_utc = pd.to_datetime(self._times).tz_convert('UTC')
+        self._times = self._times_utc.tz_convert(tz)
 
         self._latitude = np.array(latitude, ndmin=1)
         self._longitude = np.array(longitude, ndmin=1)
-- 
2.43.0


From 6d5044e71d80056a51d2d17143bb00a76c77e1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 11/31] fix: local sunrise and sunset on days with a clock
 change

The UTC offset of the requested time was used, rather than that of the event, so
that both were one hour off if the clocks change in between.
---
 src/sunwhere/_base.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index bfb5977..4fcbfca 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -420,6 +420,15 @@ class Sunpos:
             description='relative optical air mass'
         )
 
+    def _utc_to_local(self, utc):
+        # the utc offset is that of the event itself: it may differ from
+        # that of self._times in the days in which the clocks change
+        local = (pd.DatetimeIndex(utc.to_numpy().ravel())
+                 .tz_localize('UTC')
+                 .tz_convert(self._times.tz)
+                 .tz_localize(None))
+        return utc.copy(data=local.to_numpy().reshape(utc.shape))
+
     def sunrise(self, units='deg'):
         """Sunrise.
 
@@ -478,10 +487,7 @@ class Sunpos:
                 wsr = wsr - delta_ns
 
                 if units == 'local':
-                    utcoffset = xr.DataArray(
-                        self._times.tz_localize(None) - self._times_utc.tz_localize(None),
-                        coords={'time': wsr.coords['time']}, dims=('time',))
-                    wsr = wsr + utcoffset
+                    wsr = self._utc_to_local(wsr)
 
         return wsr.rename('wsr').assign_attrs(
             units={'deg': 'degrees', 'rad': 'radians', 'tst': 'TST',
@@ -513,9 +519,11 @@ class Sunpos:
         assert units in ('rad', 'deg', 'tst', 'utc', 'local')
 
         if units in ('tst', 'utc', 'local'):
-            wsr = self.sunrise(units)
+            wsr = self.sunrise('utc' if units == 'local' else units)
             dl_hr = self.daylight_length()
             wss = wsr + dl_hr.copy(data=(dl_hr*3600*1e9).astype('timedelta64[ns]'))
+            if units == 'local':
+                wss = self._utc_to_local(wss)
 
         if units in ('deg', 'rad'):
             wss = -self.sunrise(units)
-- 
2.43.0


From 603a26591902a8de0d4044af180b734e5fddb517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 12/31] fix: cli's now, times with a utc offset and times in a
 DST fold

`now` was the wall-clock time of the computer, whatever the requested time zone.
Times with their own utc offset and times that occur twice were rejected.
---
 src/sunwhere/_cli/position.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sunwhere/_cli/position.py b/src/sunwhere/_cli/position.py
index ef51f4f..2368b18 100644
--- a/src/sunwhere/_cli/position.py
+++ b/src/sunwhere/_cli/position.py
@@ -1,10 +1,8 @@
 
 import locale
-from datetime import datetime
 
 from tabulate import tabulate
 
-import numpy as np
 import pandas as pd
 
 import sunwhere
@@ -19,11 +17,15 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
     # https://www.kso.ac.at/beobachtungen/ephem_api.php?date=20230715&time=12%3A00%3A00&lat=40.0000&lon=0.0000
 
     if time == 'now':
-        time = datetime.now()
+        ts = pd.Timestamp.now(tz=timezone)
+    else:
+        ts = pd.to_datetime(time)
+        # the wall-clock time is assumed in `timezone` unless it has its own
+        # utc offset. It is the first one if it occurs twice (DST fold)
+        ts = (ts.tz_localize(timezone, ambiguous=True) if ts.tz is None
+              else ts.tz_convert(timezone))
 
-    times = np.array(
-        pd.to_datetime(time).tz_localize(None), ndmin=1, dtype='datetime64[ns]')
-    times = pd.to_datetime(times).tz_localize(timezone)
+    times = pd.DatetimeIndex([ts])
 
     sw = sunwhere.sites(times, lat, lon, algorithm=algorithm, refraction=refraction)
 
@@ -35,8 +37,6 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
     eot_min = int(eot)
     eot_sec = 60*(abs(eot) % 1)
 
-    ts = pd.to_datetime(time).tz_localize(timezone)
-
     s = pd.Series(
         {
             'Day of week': ts.strftime("%A").capitalize(),
-- 
2.43.0


From 268793b8567a12a141d0cb601bf8ffc4f03014aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 13/31] fix: cli's equation of time between -1 and 0 minutes
 lost its sign

and its seconds could be rounded to 60.0.
---
 src/sunwhere/_cli/position.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sunwhere/_cli/position.py b/src/sunwhere/_cli/position.py
index 2368b18..1820fb1 100644
--- a/src/sunwhere/_cli/position.py
+++ b/src/sunwhere/_cli/position.py
@@ -34,8 +34,8 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
     sr_local = pd.Timestamp(sw.sunrise(units="local").isel(time=0, location=0).item())
     ss_local = pd.Timestamp(sw.sunset(units="local").isel(time=0, location=0).item())
     eot = sw.eot.isel(time=0).item()
-    eot_min = int(eot)
-    eot_sec = 60*(abs(eot) % 1)
+    eot_sign = '-' if eot < 0 else ''
+    eot_min, eot_sec = divmod(round(600*abs(eot))/10, 60)
 
     s = pd.Series(
         {
@@ -53,7 +53,7 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
             'Sunset(UTC)': f'{ss_utc.tz_localize(sw.timezone):%H:%M:%S}',
             f'Sunrise({timezone})': f'{sr_local.tz_localize(sw.timezone):%H:%M:%S}',
             f'Sunset({timezone})': f'{ss_local.tz_localize(sw.timezone):%H:%M:%S}',
-            'Equation of time': f'{eot_min}:{eot_sec:.1f} min'
+            'Equation of time': f'{eot_sign}{eot_min:.0f}:{eot_sec:.1f} min'
         }
     ).to_frame('ephemeris')
 
-- 
2.43.0


From 9c2fc3f262aa31e904df498ef4e9a396f926a8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 14/31] fix: cli in polar days and nights

It ended with an error because there is no sunrise nor sunset.
---
 src/sunwhere/_cli/position.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sunwhere/_cli/position.py b/src/sunwhere/_cli/position.py
index 1820fb1..2200c8a 100644
--- a/src/sunwhere/_cli/position.py
+++ b/src/sunwhere/_cli/position.py
@@ -37,6 +37,9 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
     eot_sign = '-' if eot < 0 else ''
     eot_min, eot_sec = divmod(round(600*abs(eot))/10, 60)
 
+    def hms(time):  # NaT in polar days and nights
+        return '--:--:--' if pd.isna(time) else f'{time:%H:%M:%S}'
+
     s = pd.Series(
         {
             'Day of week': ts.strftime("%A").capitalize(),
@@ -49,10 +52,10 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
             'Zenith': f'{sw.sza.isel(time=0, location=0):.4f}\u00b0',
             'Elevation': f'{sw.elevation.isel(time=0, location=0):.4f}\u00b0',
             'Azimuth (0\u00b0 south)': f'{sw.saa.isel(time=0, location=0):.4f}\u00b0',
-            'Sunrise(UTC)': f'{sr_utc.tz_localize(sw.timezone):%H:%M:%S}',
-            'Sunset(UTC)': f'{ss_utc.tz_localize(sw.timezone):%H:%M:%S}',
-            f'Sunrise({timezone})': f'{sr_local.tz_localize(sw.timezone):%H:%M:%S}',
-            f'Sunset({timezone})': f'{ss_local.tz_localize(sw.timezone):%H:%M:%S}',
+            'Sunrise(UTC)': hms(sr_utc),
+            'Sunset(UTC)': hms(ss_utc),
+            f'Sunrise({timezone})': hms(sr_local),
+            f'Sunset({timezone})': hms(ss_local),
             'Equation of time': f'{eot_sign}{eot_min:.0f}:{eot_sec:.1f} min'
         }
     ).to_frame('ephemeris')
-- 
2.43.0


From b9c9dda7df8e8f0b7b7370ad7c409b5ed7f6118a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 15/31] fix: load_jpl_ephemeris always raised

read_jpl_ephemeris_file already drops the julian day and localizes the times.
---
 src/sunwhere/utils/jpl_horizons.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/utils/jpl_horizons.py b/src/sunwhere/utils/jpl_horizons.py
index 195f0ec..ae7a5f9 100644
--- a/src/sunwhere/utils/jpl_horizons.py
+++ b/src/sunwhere/utils/jpl_horizons.py
@@ -119,7 +119,7 @@ def load_jpl_ephemeris(year=2024, site_lon=-3.822, site_lat=36.949):
                 filenames.append(out_filename)
                 logger.success('data downloaded')
             logger.info(f'loading high-res ephemeris from file {out_filename}')
-            data.append(read_jpl_ephemeris_file(out_filename).drop(columns='julian_day'))
+            data.append(read_jpl_ephemeris_file(out_filename))
         df = pd.concat(data, axis=0)
         df.insert(0, 'site_lat', site_lat)
         df.insert(0, 'site_lon', site_lon)
@@ -129,4 +129,4 @@ def load_jpl_ephemeris(year=2024, site_lon=-3.822, site_lat=36.949):
         for filename in filenames:
             filename.unlink()
 
-    return pd.read_parquet(whole_data_filename).tz_localize('UTC')
+    return pd.read_parquet(whole_data_filename)
-- 
2.43.0


From 06785d229bc45b25de8e40cb9d0568a1adadbeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 16/31] fix: failed or interrupted downloads were cached as
 ephemeris files

An error response, or a file cut by an interruption, was stored and made every
later load of that year fail.
---
 src/sunwhere/utils/jpl_horizons.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/utils/jpl_horizons.py b/src/sunwhere/utils/jpl_horizons.py
index ae7a5f9..26a51b4 100644
--- a/src/sunwhere/utils/jpl_horizons.py
+++ b/src/sunwhere/utils/jpl_horizons.py
@@ -63,10 +63,17 @@ def get_jpl_ephemeris(out_filename, start_time, stop_time, site_lon,
     data = response.data.decode('utf-8')
     http.clear()
 
+    if response.status != 200 or '\n$$EOE' not in data:
+        raise RuntimeError(f'failed request to {server} (status {response.status}): {data[:500]}')
+
     path = Path(out_filename)
     if not path.parent.exists():
         path.parent.mkdir(parents=True, exist_ok=True)
-    path.open(mode='w').write(data)
+
+    # an interrupted download must not be taken later as a complete file
+    tmp_path = path.with_name(path.name + '.tmp')
+    tmp_path.write_text(data)
+    tmp_path.replace(path)
 
     return path
 
@@ -124,7 +131,9 @@ def load_jpl_ephemeris(year=2024, site_lon=-3.822, site_lat=36.949):
         df.insert(0, 'site_lat', site_lat)
         df.insert(0, 'site_lon', site_lon)
 
-        df.to_parquet(whole_data_filename)
+        tmp_filename = whole_data_filename.with_name(whole_data_filename.name + '.tmp')
+        df.to_parquet(tmp_filename)
+        tmp_filename.replace(whole_data_filename)
 
         for filename in filenames:
             filename.unlink()
-- 
2.43.0


From 381c490c2788c8ef784802ed82c79c622e487be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 17/31] fix: cached ephemerides were returned for any site

The names of the cached files did not tell the site apart.
---
 src/sunwhere/utils/jpl_horizons.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/utils/jpl_horizons.py b/src/sunwhere/utils/jpl_horizons.py
index 26a51b4..f047c8a 100644
--- a/src/sunwhere/utils/jpl_horizons.py
+++ b/src/sunwhere/utils/jpl_horizons.py
@@ -112,12 +112,13 @@ def load_jpl_ephemeris(year=2024, site_lon=-3.822, site_lat=36.949):
     if not out_dir.exists():
         out_dir.mkdir(parents=True, exist_ok=True)
 
-    whole_data_filename = out_dir / f'jpl_ephemeris_highres_{year}.parquet'
+    basename = f'jpl_ephemeris_highres_{site_lon:.6f}_{site_lat:.6f}_{year}'
+    whole_data_filename = out_dir / f'{basename}.parquet'
     if not whole_data_filename.exists():
         data = []
         filenames = []
         for month in range(1, 13):
-            out_filename = out_dir / f'jpl_ephemeris_highres_{year}-{month:02d}.txt'
+            out_filename = out_dir / f'{basename}-{month:02d}.txt'
             if not out_filename.exists():
                 logger.info(f'downloading high-res ephemeris to file {out_filename}')
                 start_time = pd.to_datetime(f'{year}-{month:02d}-01 00:00')
-- 
2.43.0


From 9d535d20b57c93f13f1f19ebcdc40303839704b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:14 +0000
Subject: [PATCH 18/31] fix: daylight_length gets its units also if xarray
 drops attributes in arithmetic

---
 src/sunwhere/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index 4fcbfca..339d7ba 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -542,7 +542,7 @@ class Sunpos:
             [1] Eq. (1.5.5) in Iqbal, M., An Introduction to Solar Radiation,
             Academic Press, 1983.
         """
-        return (2./15.)*self.sunrise(units='deg').rename('daylight_length').assign_attrs(
+        return ((2./15.)*self.sunrise(units='deg')).rename('daylight_length').assign_attrs(
             units='hour',
             description='daylight length'
         )
-- 
2.43.0


From c6c598db9e8873dd59a03a20b263420fa13f770c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:45 +0000
Subject: [PATCH 19/31] fix: eth declared the range of cosz, [-1, 1]

---
 src/sunwhere/_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index 339d7ba..56667c2 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -355,7 +355,10 @@ class Sunpos:
         else:
             raise ValueError(f'unknown am_correction {am_correction}')
 
-        return (eth*corr).rename('eth').assign_attrs(
+        eth = (eth*corr).rename('eth')
+        eth.attrs.pop('range', None)  # cosz's, that xarray may carry over
+
+        return eth.assign_attrs(
             units='W m-2',
             description='extraterrestrial horizontal solar irradiance')
 
-- 
2.43.0


From f2541089833065f2671f79704abcd47b2fff4f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:14 +0000
Subject: [PATCH 20/31] fix: unknown sunrise and sunset units raise ValueError,
 as documented, also under python -O

---
 src/sunwhere/_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index 56667c2..7f87b06 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -453,7 +453,8 @@ class Sunpos:
             [1] Eq. (1.5.4) in Iqbal, M., An Introduction to Solar Radiation,
             Academic Press, 1983.
         """
-        assert units in ('rad', 'deg', 'tst', 'utc', 'local')
+        if units not in ('rad', 'deg', 'tst', 'utc', 'local'):
+            raise ValueError(f'unknown units {units}')
 
         tanlat = np.tan(np.radians(self.latitude))
         tandec = np.tan(np.radians(self.declination))
@@ -519,7 +520,8 @@ class Sunpos:
             [1] Eq. (1.5.4) in Iqbal, M., An Introduction to Solar Radiation,
             Academic Press, 1983.
         """
-        assert units in ('rad', 'deg', 'tst', 'utc', 'local')
+        if units not in ('rad', 'deg', 'tst', 'utc', 'local'):
+            raise ValueError(f'unknown units {units}')
 
         if units in ('tst', 'utc', 'local'):
             wsr = self.sunrise('utc' if units == 'local' else units)
-- 
2.43.0


From ff26ed219f8db9d9e6a0d32da6598b2a590986c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:31 +0000
Subject: [PATCH 21/31] fix: a site out of bounds or without hemisphere is a
 usage error, also under python -O

---
 src/sunwhere/_cli/main.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/sunwhere/_cli/main.py b/src/sunwhere/_cli/main.py
index 417d1b3..a9390dd 100644
--- a/src/sunwhere/_cli/main.py
+++ b/src/sunwhere/_cli/main.py
@@ -20,18 +20,22 @@ app = typer.Typer(
 
 
 def parse_latitude(lat_str):
-    hemisphere = lat_str[-1].casefold()
-    assert hemisphere in ('n', 's')
+    hemisphere = lat_str[-1:].casefold()
+    if hemisphere not in ('n', 's'):
+        raise ValueError(f'expected latitude ending in N or S, got {lat_str}')
     latitude = (-1, 1)[hemisphere == 'n'] * float(lat_str[:-1])
-    assert -90 <= latitude <= 90
+    if not -90 <= latitude <= 90:
+        raise ValueError(f'latitude out of bounds: {lat_str}')
     return latitude
 
 
 def parse_longitude(lon_str):
-    hemisphere = lon_str[-1].casefold()
-    assert hemisphere in ('e', 'w')
+    hemisphere = lon_str[-1:].casefold()
+    if hemisphere not in ('e', 'w'):
+        raise ValueError(f'expected longitude ending in E or W, got {lon_str}')
     longitude = (-1, 1)[hemisphere == 'e'] * float(lon_str[:-1])
-    assert -180 <= longitude < 180
+    if not -180 <= longitude < 180:
+        raise ValueError(f'longitude out of bounds: {lon_str}')
     return longitude
 
 
-- 
2.43.0


From f83241a74a8345c0e4c249ecea3d5167d676b859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:22 +0000
Subject: [PATCH 22/31] fix: analemmas of the solar chart at the hours of its
 time zone, not of UTC

---
 src/sunwhere/_cli/solar_chart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunwhere/_cli/solar_chart.py b/src/sunwhere/_cli/solar_chart.py
index 18e83b4..a551bba 100644
--- a/src/sunwhere/_cli/solar_chart.py
+++ b/src/sunwhere/_cli/solar_chart.py
@@ -140,7 +140,7 @@ class SolarChart(object):
             # draw analemmas
             date_s = pd.Timestamp(f'1 Jan {ts.year} {ho:02d}:{mn:02d}')
             times = self._date_range(date_s, 366 if ts.is_leap_year else 365, '1D')
-            sunpath = self.sunpath(pd.to_datetime(times).tz_localize(None))
+            sunpath = self.sunpath(times)
             self.plot_sunpath(sunpath, ls='-', marker='', lw=0.7, color=color)
 
             # draw time labels
-- 
2.43.0


From 007d9d965532e5ade6cdf3e67f4da2ea034ba6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:22 +0000
Subject: [PATCH 23/31] fix: day and month interchanged in the solar chart for
 the first days of the month

---
 src/sunwhere/_cli/solar_chart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunwhere/_cli/solar_chart.py b/src/sunwhere/_cli/solar_chart.py
index a551bba..e71fbc5 100644
--- a/src/sunwhere/_cli/solar_chart.py
+++ b/src/sunwhere/_cli/solar_chart.py
@@ -169,7 +169,7 @@ class SolarChart(object):
         for day, month in days:
             # draw sun path
             sunpath = self.sunpath(
-                self._date_range(f'{day}/{month}/{ts.year}', 288, '5min'))
+                self._date_range(f'{ts.year}-{month:02d}-{day:02d}', 288, '5min'))
             self.plot_sunpath(
                 sunpath, ls='-', lw=0.5, marker='',
                 color=SolarChart.color_solar_grid)
-- 
2.43.0


From ba3937a43df0f1b77470299b0eb4367ea839bb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:22 +0000
Subject: [PATCH 24/31] fix: solar chart without a user time, the default of
 make_solar_chart

---
 src/sunwhere/_cli/solar_chart.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sunwhere/_cli/solar_chart.py b/src/sunwhere/_cli/solar_chart.py
index e71fbc5..88e5816 100644
--- a/src/sunwhere/_cli/solar_chart.py
+++ b/src/sunwhere/_cli/solar_chart.py
@@ -338,6 +338,7 @@ def make_solar_chart(site_lat, site_lon, user_datetime=None, timezone='UTC',
 
     solar_chart = SolarChart(site_lat, site_lon, user_datetime, timezone, polar)
     solar_chart.draw_solar_grid()
-    solar_chart.draw_solar_path(user_datetime)
+    if user_datetime is not None:
+        solar_chart.draw_solar_path(user_datetime)
     if filename is not None:
         solar_chart.savefig(filename, transparent=transparent)
-- 
2.43.0


From 8c932d253699cd3ceeb67ab9f341e1124a0ed4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:22 +0000
Subject: [PATCH 25/31] fix: solar charts cannot be rendered or saved, the hour
 labels stand at arrays

---
 src/sunwhere/_cli/solar_chart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunwhere/_cli/solar_chart.py b/src/sunwhere/_cli/solar_chart.py
index 88e5816..0ac2ef2 100644
--- a/src/sunwhere/_cli/solar_chart.py
+++ b/src/sunwhere/_cli/solar_chart.py
@@ -146,7 +146,7 @@ class SolarChart(object):
             # draw time labels
             solpos = self.sunpath(
                 [pd.Timestamp(f'21 Jun {ts.year} {ho:d}:{mn:d}', tz=self.timezone)])
-            az, al = solpos['azimuth'], solpos['altitude']
+            az, al = solpos['azimuth'].item(), solpos['altitude'].item()
             if al >= 0:
                 daz, dal = 0., 1.
                 ha = 'center' if abs(az) < 60 else ('left' if az < 0 else 'right')
-- 
2.43.0


From 0025e412bb3e0d35cdacb5bced7d821d991f2532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:44 +0000
Subject: [PATCH 26/31] fix: east and west interchanged in the solar charts

---
 src/sunwhere/_cli/solar_chart.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/_cli/solar_chart.py b/src/sunwhere/_cli/solar_chart.py
index 0ac2ef2..0cd984e 100644
--- a/src/sunwhere/_cli/solar_chart.py
+++ b/src/sunwhere/_cli/solar_chart.py
@@ -57,6 +57,8 @@ class SolarChart(object):
             self.ax.set_rlabel_position(180)
             # rotate South down
             self.ax.set_theta_offset(-np.pi / 2.)
+            # and, azimuths being negative eastward, East to the right
+            self.ax.set_theta_direction(-1)
             self.ax.set_ylim([90., 0.1])
         else:
             self.ax.set_xlim([-180., 180.])
@@ -225,8 +227,8 @@ class SolarChart(object):
             add_text(0., 1.06, 'North', fontsize=16)
             add_text(1., 1.06, 'NortH', ha='right', fontsize=14)
             add_text(0.5, 1.06, 'South', ha='center', fontsize=14)
-            add_text(0.25, 1.06, 'West', ha='center', fontsize=14)
-            add_text(0.75, 1.06, 'East', ha='center', fontsize=14)
+            add_text(0.25, 1.06, 'East', ha='center', fontsize=14)
+            add_text(0.75, 1.06, 'West', ha='center', fontsize=14)
 
         self.draw_background_grid()
 
-- 
2.43.0


From 3515216fe94d55d072aa315e3bbcb9673c7df93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:49 +0000
Subject: [PATCH 27/31] fix: benchmark azimuth residues across the turn have
 the right sign and are wrapped beyond half a turn

---
 src/sunwhere/_cli/benchmark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/_cli/benchmark.py b/src/sunwhere/_cli/benchmark.py
index 29e0e8f..1035679 100644
--- a/src/sunwhere/_cli/benchmark.py
+++ b/src/sunwhere/_cli/benchmark.py
@@ -127,8 +127,8 @@ def calc_residues(data, reference, relative=False):
     def calc_error(m, o):
         diff = m - o
         if 'azimuth' in diff.columns:
-            diff['azimuth'] = diff['azimuth'].where(diff['azimuth'] > -330, -360 - diff['azimuth'])
-            diff['azimuth'] = diff['azimuth'].where(diff['azimuth'] < 330, 360 - diff['azimuth'])
+            diff['azimuth'] = diff['azimuth'].where(diff['azimuth'] > -180, diff['azimuth'] + 360)
+            diff['azimuth'] = diff['azimuth'].where(diff['azimuth'] < 180, diff['azimuth'] - 360)
         return diff / o if relative is True else diff
 
     residue = data.copy()
-- 
2.43.0


From 942e75c7970b15266102fa586cc034aafa984e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:49 +0000
Subject: [PATCH 28/31] fix: run_benchmark works on the equator and on the
 Greenwich meridian

---
 src/sunwhere/_cli/benchmark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunwhere/_cli/benchmark.py b/src/sunwhere/_cli/benchmark.py
index 1035679..7a90099 100644
--- a/src/sunwhere/_cli/benchmark.py
+++ b/src/sunwhere/_cli/benchmark.py
@@ -539,7 +539,7 @@ def run_benchmark(year, site_lat, site_lon, show_accuracy=False, show_exec_time=
 
     logger.info(f'Performing benchmark tests for {year} at lat={site_lat} lon={site_lon}')
 
-    sign = lambda x: int(0.5*(1 + x / abs(x)))  # noqa: E731
+    sign = lambda x: int(x >= 0)  # noqa: E731
     lat_str = f'{abs(site_lat):07.4f}{("S", "N")[sign(site_lat)]}'.replace('.', 'p')
     lon_str = f'{abs(site_lon):08.4f}{("W", "E")[sign(site_lon)]}'.replace('.', 'p')
     out_filename = (Path(tempfile.gettempdir()) /
-- 
2.43.0


From 1343e9dca5e9ac84c9774ed6d14ebb0f024f6220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:10 +0000
Subject: [PATCH 29/31] fix: load_speed_tests keeps the measured times (chained
 assignment never writes with pandas 3)

---
 src/sunwhere/_cli/benchmark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunwhere/_cli/benchmark.py b/src/sunwhere/_cli/benchmark.py
index 7a90099..862cd26 100644
--- a/src/sunwhere/_cli/benchmark.py
+++ b/src/sunwhere/_cli/benchmark.py
@@ -455,7 +455,7 @@ def load_speed_tests(out_dir=None):
                             continue
                         mean_time, std_time = speed_meter(
                             library, algorithm, n_times, n_locs)
-                        df.loc[n_times][n_locs] = mean_time
+                        df.loc[n_times, n_locs] = mean_time
                     df.to_parquet(this_filename)
                 keys.append(f'{library}.{algorithm}')
                 exec_time.append(pd.read_parquet(this_filename))
-- 
2.43.0


From 494913a8d514de0ea16839655f79d7951a0df899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:21 +0000
Subject: [PATCH 30/31] fix: longitudes of small integer types overflow in the
 conversions between solar and universal time

---
 src/sunwhere/utils/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/utils/datetime.py b/src/sunwhere/utils/datetime.py
index 61c6974..a55c920 100644
--- a/src/sunwhere/utils/datetime.py
+++ b/src/sunwhere/utils/datetime.py
@@ -7,7 +7,7 @@ from .._core import evaluate
 def true_solar_time(times_utc, longitude):
     dt64 = 'datetime64[ns]'
     times_utc = np.array(times_utc, ndmin=1)
-    longitude = np.array(longitude, ndmin=1)
+    longitude = np.array(longitude, ndmin=1, dtype=np.float64)
     eot = evaluate(times_utc, 0., 0.)['eot']  # eot, minutes
     # for compat with numpy < 1.18.0, I use reshape instead of expand_dims
     new_shape = tuple(list(eot.shape) + [1]*longitude.ndim)
@@ -25,7 +25,7 @@ def true_solar_time(times_utc, longitude):
 def universal_time_coordinated(times_tst, longitude):
     dt64 = 'datetime64[ns]'
     times_tst = np.array(times_tst, ndmin=1)
-    longitude = np.array(longitude, ndmin=1)
+    longitude = np.array(longitude, ndmin=1, dtype=np.float64)
     eot = evaluate(times_tst, 0., 0.)['eot']  # eot, minutes
     # for compat with numpy < 1.18.0, I use reshape instead of expand_dims
     new_shape = tuple(list(eot.shape) + [1]*longitude.ndim)
-- 
2.43.0


From e7f7044a58970a1211efb95764dfa7aabca39e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:21 +0000
Subject: [PATCH 31/31] fix: surfaces given with small integer types are tilted
 and oriented in half precision

---
 src/sunwhere/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index 7f87b06..f9f335b 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -573,7 +573,7 @@ class Sunpos:
         ).astype('float64') * 1e-9 / 3600
         ha = hour.copy(data=15*(12-hour))
 
-        fcirc = lambda a: (np.cos(np.radians(a)), np.sin(np.radians(a)))  # noqa: E731
+        fcirc = lambda a: (np.cos(np.radians(a, dtype=np.float64)), np.sin(np.radians(a, dtype=np.float64)))  # noqa: E731
 
         cosbeta, sinbeta = fcirc(sfc_slope)
         cosgamma, singamma = fcirc(sfc_azimuth)
-- 
2.43.0

