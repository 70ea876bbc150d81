From 3db6fd0640feb3433d8540040d18680ec182631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:51 +0000
Subject: [PATCH 01/60] fix: keep the cluster-centre offset relative to the
 orbit when leaving radec units

---
 clustertools/cluster/operations.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index db30073..d059ad5 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -579,12 +579,12 @@ def from_radec(cluster, sortstars=True):
                     [cluster.ra_c,cluster.dec_c,cluster.dist_c,cluster.pmra_c,cluster.pmdec_c,cluster.vlos_c], radec=True,ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
                 )
 
-                cluster.xc=oc.x()
-                cluster.yc=oc.y()
-                cluster.zc=oc.z()
-                cluster.vxc=oc.vx()
-                cluster.vyc=oc.vy()
-                cluster.vzc=oc.vz()
+                cluster.xc=oc.x()-cluster.orbit.x()
+                cluster.yc=oc.y()-cluster.orbit.y()
+                cluster.zc=oc.z()-cluster.orbit.z()
+                cluster.vxc=oc.vx()-cluster.orbit.vx()
+                cluster.vyc=oc.vy()-cluster.orbit.vy()
+                cluster.vzc=oc.vz()-cluster.orbit.vz()
 
             cluster.x = cluster.orbits.x()
             cluster.y = cluster.orbits.y()
-- 
2.43.0


From 810ef40e87fc69e1ac0c8bf782bd1fc5b704fd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 02/60] fix: convert velocities to and from pcmyr, kpcgyr and
 WDunits

---
 clustertools/util/units.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/clustertools/util/units.py b/clustertools/util/units.py
index b4a7d48..b08d211 100644
--- a/clustertools/util/units.py
+++ b/clustertools/util/units.py
@@ -145,7 +145,7 @@ def _convert_velocity(x,units,cluster):
                     x*=1.022712165045695
             elif cluster.units=='kpckms' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
                 x*=cluster.vbar
-                if cluster.units=='kpcgyr':
+                if cluster.units=='kpcgyr' or cluster.units=='WDunits':
                     x*=1.022712165045695
             elif cluster.units=='galpy':
                 x*=cluster.vbar/cluster._vo
@@ -167,9 +167,11 @@ def _convert_velocity(x,units,cluster):
                 print('NO DIRECT CONVERSION AVAILABLE')
             elif cluster.units=='amuse':
                 x=x | u.kms
+            elif cluster.units=='pcmyr' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
+                x*=1.022712165045695
 
         elif units=='kpckms' or units=='kpcgyr' or units=='WDunits':
-            if units=='kpcgyr': 
+            if units=='kpcgyr' or units=='WDunits':
                 x/=1.022712165045695
             if cluster.units=='nbody':
                 x/=cluster.vbar
@@ -179,6 +181,8 @@ def _convert_velocity(x,units,cluster):
                 x/=cluster._vo
             elif cluster.units=='radec':
                 print('NO DIRECT CONVERSION AVAILABLE')
+            elif cluster.units=='pcmyr' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
+                x*=1.022712165045695
 
         elif units=='galpy':
             if cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
@@ -189,6 +193,8 @@ def _convert_velocity(x,units,cluster):
                     x*=1.022712165045695
             elif cluster.units=='kpckms' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
                 x*=cluster._vo
+                if cluster.units=='kpcgyr' or cluster.units=='WDunits':
+                    x*=1.022712165045695
             elif cluster.units=='nbody':
                 x*=(cluster._vo/cluster.vbar)
             elif cluster.units=='radec':
-- 
2.43.0


From 48c95b6f8e980cc751b4f8a11b003041f573013d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 03/60] fix: convert squared velocities to and from pcmyr,
 kpcgyr and WDunits

---
 clustertools/util/units.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/clustertools/util/units.py b/clustertools/util/units.py
index b08d211..be5251b 100644
--- a/clustertools/util/units.py
+++ b/clustertools/util/units.py
@@ -240,7 +240,7 @@ def _convert_square_velocity(x,units,cluster):
                     x*=(1.022712165045695**2.0)
             elif cluster.units=='kpckms' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
                 x*=(cluster.vbar**2.)
-                if cluster.units=='kpcgyr':
+                if cluster.units=='kpcgyr' or cluster.units=='WDunits':
                     x*=(1.022712165045695**2.0)
             elif cluster.units=='galpy':
                 x*=((cluster.vbar/cluster._vo)**2.)
@@ -264,10 +264,12 @@ def _convert_square_velocity(x,units,cluster):
                 print('NO DIRECT CONVERSION AVAILABLE')
             elif cluster.units=='amuse':
                 x=x | (u.kms*u.kms)
+            elif cluster.units=='pcmyr' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
+                x*=(1.022712165045695**2.0)
 
         elif units=='kpckms' or units=='kpcgyr' or units=='WDunits':
 
-            if units=='kpcgyr':
+            if units=='kpcgyr' or units=='WDunits':
                 x/=(1.022712165045695**2.0)
 
             if cluster.units=='nbody':
@@ -278,18 +280,20 @@ def _convert_square_velocity(x,units,cluster):
                 x/=(cluster._vo**2.)
             elif cluster.units=='radec':
                 print('NO DIRECT CONVERSION AVAILABLE')
+            elif cluster.units=='pcmyr' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
+                x*=(1.022712165045695**2.0)
 
         elif units=='galpy':
             if cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
                 x*=(cluster._vo**2.)
                 if cluster.units=='amuse':
                     x= x | (u.kms*u.kms)
-                elif units=='pcmyr':
-                    x/=(1.022712165045695**2.0)
+                elif cluster.units=='pcmyr':
+                    x*=(1.022712165045695**2.0)
             elif cluster.units=='kpckms' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
                 x*=(cluster._vo**2.)
-                if units=='kpcgyr':
-                    x/=(1.022712165045695**2.0)
+                if cluster.units=='kpcgyr' or cluster.units=='WDunits':
+                    x*=(1.022712165045695**2.0)
             elif cluster.units=='nbody':
                 x*=((cluster._vo/cluster.vbar)**2.)
             elif cluster.units=='radec':
-- 
2.43.0


From ee0cc2bc94349fea475520e7320cf9371e4df4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 04/60] fix: take mass_in_msol from galpy's conversion module

---
 clustertools/util/units.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clustertools/util/units.py b/clustertools/util/units.py
index be5251b..9fc67a1 100644
--- a/clustertools/util/units.py
+++ b/clustertools/util/units.py
@@ -423,12 +423,12 @@ def _convert_mass(x,units,cluster):
             if cluster.units=='amuse':
                 x= x | u.MSun
             elif cluster.units=='galpy':
-                x /= coords.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
+                x /= conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
             elif cluster.units=='WDunits':
                 x/=222288.4543021174
 
         elif units=='galpy':
-            x *= coords.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
+            x *= conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
 
             if cluster.units=='amuse':
                 x= x | u.MSun
@@ -445,7 +445,7 @@ def _convert_mass(x,units,cluster):
             elif cluster.units=='amuse':
                 x= x | u.MSun
             elif cluster.units=='galpy':
-                x /= coords.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
+                x /= conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
 
         else:
             if units=='amuse':
@@ -454,7 +454,7 @@ def _convert_mass(x,units,cluster):
             if cluster.units=='nbody':
                 x/=cluster.zmbar
             elif cluster.units=='galpy':
-                x /= coords.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
+                x /= conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
             elif cluster.units=='WDunits':
                 x/=222288.4543021174
             elif cluster.units=='amuse':
-- 
2.43.0


From f9c3fb5ca01bb21b7b551a5e537fe3491582f682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 05/60] fix: convert projected densities with the power of
 length they have

---
 clustertools/util/units.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/clustertools/util/units.py b/clustertools/util/units.py
index 9fc67a1..b5abf9b 100644
--- a/clustertools/util/units.py
+++ b/clustertools/util/units.py
@@ -532,7 +532,7 @@ def _convert_density(x,units,cluster,projected=False):
             elif cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
                 x/=(1000.0**power)
                 if cluster.units=='amuse':
-                    x/= 1 | (u.parsec*u.parsec*u.parsec)
+                    x/= (1 | u.parsec)**power
             elif cluster.units=='galpy':
                 x*=(cluster._ro**power)
             elif cluster.units=='radec':
@@ -541,15 +541,15 @@ def _convert_density(x,units,cluster,projected=False):
 
         elif units=='galpy':
             if cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
-                x/=((1000.0*cluster._ro)**3.0)
+                x/=((1000.0*cluster._ro)**power)
                 if cluster.units=='amuse':
-                    x/= 1 | (u.parsec*u.parsec*u.parsec)
+                    x/= (1 | u.parsec)**power
             elif cluster.units=='kpckms' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
                 x/=(cluster._ro**power)
             elif cluster.units=='nbody':
                 x/=((cluster._ro*1000.0/cluster.rbar)**power)
             elif cluster.units=='radec':
-                x/=(cluster._ro**3.0)
+                x/=(cluster._ro**power)
                 kpc_deg=np.degrees(np.arctan2(1.0,cluster.zgc))
                 x/=(kpc_deg**power)
 
@@ -564,7 +564,7 @@ def _convert_density(x,units,cluster,projected=False):
                 elif cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
                     x/=(1000.0**power)
                     if cluster.units=='amuse':
-                        x/= 1 | (u.parsec*u.parsec*u.parsec)
+                        x/= (1 | u.parsec)**power
                 elif cluster.units=='galpy':
                     x*=(cluster._ro**power)
 
-- 
2.43.0


From 7a1ee6e79afe23d31ffa18a679833666d5c11cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 06/60] fix: strip AMUSE units from densities before converting
 them

---
 clustertools/util/units.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/clustertools/util/units.py b/clustertools/util/units.py
index b5abf9b..e863bbb 100644
--- a/clustertools/util/units.py
+++ b/clustertools/util/units.py
@@ -489,13 +489,18 @@ def _convert_density(x,units,cluster,projected=False):
     if units!=cluster.units:
 
 
-        x=_convert_mass(x,units,cluster)
 
         if projected:
             power=2.0
         else:
             power=3.0
 
+        if units=='amuse':
+            x=x.value_in(u.MSun/u.parsec**power)
+            units='pckms'
+
+        x=_convert_mass(x,units,cluster)
+
 
         if units=='nbody':
             if cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
-- 
2.43.0


From e154c2def2bf4d1f3bf35f425d87453efad54969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 07/60] fix: do not modify arrays passed to the unit conversion
 helpers

---
 clustertools/util/units.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/clustertools/util/units.py b/clustertools/util/units.py
index e863bbb..4756b1e 100644
--- a/clustertools/util/units.py
+++ b/clustertools/util/units.py
@@ -5,6 +5,7 @@ __author__ = "Jeremy J Webb"
 
 
 import numpy as np
+from copy import copy
 from ..util.constants import *
 
 try:
@@ -43,6 +44,8 @@ def _convert_length(x,units,cluster):
 
     if units!=cluster.units:
 
+        x=copy(x)
+
         if units=='nbody':
             if cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
                 x*=cluster.rbar
@@ -136,6 +139,8 @@ def _convert_velocity(x,units,cluster):
     """
     if units!=cluster.units:
 
+        x=copy(x)
+
         if units=='nbody':
             if cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
                 x*=cluster.vbar
@@ -230,6 +235,8 @@ def _convert_square_velocity(x,units,cluster):
 
     if units!=cluster.units:
 
+        x=copy(x)
+
 
         if units=='nbody':
             if cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
@@ -329,6 +336,8 @@ def _convert_time(x,units,cluster):
 
     if units!=cluster.units:
 
+        x=copy(x)
+
 
         to=conversion.time_in_Gyr(ro=cluster._ro,vo=cluster._vo)
 
@@ -417,6 +426,8 @@ def _convert_mass(x,units,cluster):
 
     if units!=cluster.units:
 
+        x=copy(x)
+
 
         if units=='nbody':
             x*=cluster.zmbar
@@ -488,6 +499,8 @@ def _convert_density(x,units,cluster,projected=False):
 
     if units!=cluster.units:
 
+        x=copy(x)
+
 
 
         if projected:
-- 
2.43.0


From b2bd7ffcfb7900ed25dbae637e3ab95e2316a67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 08/60] fix: subtract the centre's own proper motion in the
 orthographic centre

---
 clustertools/cluster/operations.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index d059ad5..fb3e0df 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -1131,13 +1131,16 @@ def _get_orthographic_centre(cluster,from_centre=False):
             + np.sin(dec) * np.sin(dec_gc) * np.cos(ra - ra_gc)
         )
 
-        cluster.vx-=cluster.vxgc
-        cluster.vy-=cluster.vygc
-
         if from_centre:
+            cluster.vx-=cluster.vxc
+            cluster.vy-=cluster.vyc
+
             cluster.z -= cluster.zc
             cluster.vz -= cluster.vzc
         else:
+            cluster.vx-=cluster.vxgc
+            cluster.vy-=cluster.vygc
+
             cluster.z -= cluster.zgc
             cluster.vz -= cluster.vzgc
 
-- 
2.43.0


From fd134da4178c764bcc93bf07c5c3a1dfb87f4782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 09/60] fix: restore the cluster before find_centre returns for
 an empty subset

---
 clustertools/analysis/functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index a40b6fd..5ce872a 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -125,6 +125,7 @@ def find_centre(
         indx = np.ones(cluster.ntot, bool)
     elif np.sum(indx) == 0.0:
         print("NO SUBSET OF STARS GIVEN")
+        cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
         return 0.0, 0.0, 0.0, 0.0, 0.0, 0.0
 
     rhos=np.zeros(cluster.ntot)
-- 
2.43.0


From 87e0417c571b0db4c2d0d6bb894f8d04b9bd795e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 10/60] fix: starplot: hand an amuse cluster back in amuse
 units for two-dimensional plots

---
 clustertools/util/plots.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clustertools/util/plots.py b/clustertools/util/plots.py
index ffe9f55..45709b3 100644
--- a/clustertools/util/plots.py
+++ b/clustertools/util/plots.py
@@ -652,6 +652,8 @@ def starplot(
         out = plt.plot(x, y, ".", alpha=alpha, **kwargs)
 
         if overplot:
+            if units0=='amuse':
+                cluster.to_amuse()
             return out
         else:
             if do_centre:
@@ -697,6 +699,9 @@ def starplot(
             if filename != None:
                 plt.savefig(filename)
 
+            if units0=='amuse':
+                cluster.to_amuse()
+
             return out
 
     else:
-- 
2.43.0


From e29360002985dae317f828580aff34c297211a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 11/60] fix: sort projected radii again after an origin change

---
 clustertools/cluster/cluster.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index e08576f..4e2449d 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -1504,12 +1504,14 @@ class StarCluster(object):
         2018 - Written - Webb (UofT)
 
         """
-        if self. rorder is None or self.rorder_origin!=self.origin or len(self.r)!=len(self.rorder):
+        new_origin=self.rorder_origin!=self.origin
+
+        if self. rorder is None or new_origin or len(self.r)!=len(self.rorder):
 
             self.rorder = np.argsort(self.r)
             self.rorder_origin=self.origin
 
-        if (self. rproorder is None or self.rorder_origin!=self.origin or len(self.rpro)!=len(self.rproorder)) and (projected or self.projected):
+        if (self. rproorder is None or new_origin or len(self.rpro)!=len(self.rproorder)) and (projected or self.projected):
             self.rproorder = np.argsort(self.rpro)
 
     def _analysis_check(self,sortstars=True,projected=False):
-- 
2.43.0


From e478e7e56dd50b510c5a8ca85b6853176a6cc393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:50 +0000
Subject: [PATCH 12/60] fix: re-sort projected radii when return_cluster moved
 the cluster

---
 clustertools/cluster/operations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index fb3e0df..1cc8292 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -1365,6 +1365,8 @@ def return_cluster(cluster, units0, origin0, rorder0, rorder_origin0 ,sortstars=
     -------
     2018 - Written - Webb (UofT)
     """
+    moved = cluster.units != units0 or cluster.origin != origin0
+
     if cluster.units != units0:
         cluster.to_units(units0)
     if cluster.origin != origin0:
@@ -1372,6 +1374,7 @@ def return_cluster(cluster, units0, origin0, rorder0, rorder_origin0 ,sortstars=
 
     cluster.rorder=rorder0
     cluster.rorder_origin=rorder_origin0
+    if moved: cluster.rproorder=None
     cluster.analyze()
 
 def reset_nbody_scale(cluster, mass=True, radii=True, rvirial=True, projected=False,**kwargs):
-- 
2.43.0


From 882384f6bf8eb3a2557d35198880b1a99d759304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:50 +0000
Subject: [PATCH 13/60] fix: to_units('radec') re-sorts the stars after the
 origin change

---
 clustertools/cluster/operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index 1cc8292..52ead93 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -840,7 +840,7 @@ def to_units(cluster, units):
         elif units == "kpckms":
             cluster.to_kpckms()
         elif units == "radec":
-            cluster.to_radec(sortstars=False,)
+            cluster.to_radec()
         elif units == "WDunits":
             cluster.to_WDunits()
         elif units == "pcmyr":
-- 
2.43.0


From 080675d51caab20c50c38bdea202f59cfedcb398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:50 +0000
Subject: [PATCH 14/60] fix: add_stars re-sorts a cluster that was already
 sorted

---
 clustertools/cluster/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 4e2449d..91dd5d5 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -682,7 +682,7 @@ class StarCluster(object):
         if isamuse and (self.units_init is None or self.units_init == 'amuse'):
             self.to_amuse()
 
-        if analyze: self.analyze(sortstars=sortstars)
+        if analyze: self.analyze(sortstars=(sortstars or self.rorder is not None))
 
 
         self.ntot = len(self.x)
-- 
2.43.0


From a92609e2b2e8c36ed5326938cf040c9ec2e899b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:50 +0000
Subject: [PATCH 15/60] fix: analyze the cluster after add_binary_stars adds
 centres of mass

---
 clustertools/cluster/cluster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 91dd5d5..e4da2f9 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -822,6 +822,8 @@ class StarCluster(object):
             self.ntot = len(self.x)
             self.ns=self.ntot-self.nb
 
+            self.analyze(sortstars=self.rorder is not None)
+
         elif return_com:
             mcom=self.mb1+self.mb2
             xcom=(xb1*self.mb1+xb2*self.mb2)/mcom
-- 
2.43.0


From d195d5010c41aaf414f3d35dae3467729ce3ae32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:07 +0000
Subject: [PATCH 16/60] fix: add_rotation returns the stars in the origin the
 cluster is returned to

---
 clustertools/cluster/cluster.py    |  3 +++
 clustertools/cluster/operations.py | 10 ++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index e4da2f9..e83ea82 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2074,6 +2074,9 @@ class StarCluster(object):
         self.x,self.y,self.z,self.vx,self.vy,self.vz=add_rotation(self, qrot)
         self.qrot=qrot
 
+        # positions are unchanged, so only the speeds have to be found again
+        self.analyze(sortstars=False)
+
     def virialize(self, qvir=0.5,specific=True, full=True, projected=None, softening=0.0):
         """ Adjust stellar velocities so cluster is in virial equilibrium
 
diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index 52ead93..e4f8f29 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -40,7 +40,7 @@ except:
     import galpy.util.bovy_coords as coords
     import galpy.util.bovy_conversion as conversion
     
-from copy import copy
+from copy import copy, deepcopy
 try:
     import numba
     full_default=True
@@ -1533,6 +1533,12 @@ def add_rotation(cluster, qrot):
         vr, vtheta, vz, theta
     )
 
+    # The rotated stars have to be moved back to the original origin as well
+    rotated = deepcopy(cluster)
+    rotated.x,rotated.y,rotated.z=x,y,z
+    rotated.vx,rotated.vy,rotated.vz=vx,vy,vz
+
+    return_cluster(rotated, units0, origin0, rorder0, rorder_origin0)
     return_cluster(cluster, units0, origin0, rorder0, rorder_origin0)
 
-    return x,y,z,vx,vy,vz
+    return rotated.x,rotated.y,rotated.z,rotated.vx,rotated.vy,rotated.vz
-- 
2.43.0


From 2386397d72f9b9c5aa8cddae685d902efcf43251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:22 +0000
Subject: [PATCH 17/60] fix: pass the relaxation time method on

---
 clustertools/cluster/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index e83ea82..bb65564 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2407,7 +2407,7 @@ class StarCluster(object):
         if projected==None:
             projected=self.projected
 
-        self.trelax=relaxation_time(self, rad=rad, coulomb=coulomb, projected=projected,method='spitzer')
+        self.trelax=relaxation_time(self, rad=rad, coulomb=coulomb, projected=projected,method=method)
 
         return self.trelax
 
-- 
2.43.0


From 42acf44893808f7b6704ce9e67f637d3064eb5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:22 +0000
Subject: [PATCH 18/60] fix: pass specific and full on to virialize

---
 clustertools/cluster/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index bb65564..23b9a68 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2107,7 +2107,7 @@ class StarCluster(object):
         if projected==None:
             projected=self.projected
 
-        self.qv=virialize(self, qvir=qvir, specific=True, full=True, projected=projected,softening=softening)
+        self.qv=virialize(self, qvir=qvir, specific=specific, full=full, projected=projected,softening=softening)
 
         self.save_cluster()
         units0,origin0, rorder0, rorder_origin0 = self.units0,self.origin0, self.rorder0, self.rorder_origin0
-- 
2.43.0


From 35e56bb4216d527df130258d71662ebc22b8c9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:22 +0000
Subject: [PATCH 19/60] fix: pass method and nneighbour on to
 find_centre_of_density

---
 clustertools/cluster/cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 23b9a68..96751cd 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2261,7 +2261,8 @@ class StarCluster(object):
 
         xc,yc,zc,vxc,vyc,vzc=find_centre_of_density(self,xstart=xstart,
             ystart=ystart,zstart=zstart,vxstart=vxstart,vystart=vystart,vzstart=vzstart,indx=indx,
-            nsphere=nsphere,rmin=rmin,rmax=rmax,nmax=nmax)
+            nsphere=nsphere,rmin=rmin,rmax=rmax,nmax=nmax,
+            method=method,nneighbour=nneighbour)
 
         self._set_centre(xc,yc,zc,vxc,vyc,vzc,reset_centre=reset_centre)
 
-- 
2.43.0


From 3c761819b2079e23b69a065d0ddff76ff8ae2985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:22 +0000
Subject: [PATCH 20/60] fix: tapered_mass_function method uses the cluster it
 is called on

---
 clustertools/cluster/cluster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 96751cd..09bb1c6 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2783,7 +2783,7 @@ class StarCluster(object):
         return self.alpha
 
     def tapered_mass_function(
-        cluster,
+        self,
         mmin=None,
         mmax=None,
         nmass=10,
@@ -2856,7 +2856,7 @@ class StarCluster(object):
             projected=self.projected
 
         m_mean, m_hist, dm, A, eA, alpha, ealpha, mc, emc, beta, ebeta= tapered_mass_function(
-            cluster,
+            self,
             mmin=mmin,
             mmax=mmax,
             nmass=nmass,
-- 
2.43.0


From 014a6f3f0b8dcb5c69e4ee479dd4aacbaeb6f209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:22 +0000
Subject: [PATCH 21/60] fix: call interpolate_orbit(s) from
 orbit(s)_interpolate without a second cluster

---
 clustertools/cluster/cluster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 09bb1c6..ee9de85 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -3468,7 +3468,7 @@ class StarCluster(object):
         -------
         2021 - Written - Webb (UofT)
         """
-        self.interpolate_orbit(self,pot=pot,tfinal=tfinal,nt=nt,from_centre=from_centre,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+        return self.interpolate_orbit(pot=pot,tfinal=tfinal,nt=nt,from_centre=from_centre,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
 
 
     def interpolate_orbits(self,pot=None,tfinal=None,nt=1000,ro=None,vo=None,zo=None,solarmotion=None):
@@ -3577,7 +3577,7 @@ class StarCluster(object):
         -------
         2021 - Written - Webb (UofT)
         """
-        self.interpolate_orbits(self,pot=pot,tfinal=tfinal,nt=nt,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+        return self.interpolate_orbits(pot=pot,tfinal=tfinal,nt=nt,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
 
     def orbital_path(self,tfinal=0.1,nt=1000,pot=None,from_centre=False,
         skypath=False,initialize=False,ro=None,vo=None,zo=None,solarmotion=None, plot=False,**kwargs):
-- 
2.43.0


From 689737e1536e3dccafc2fde6da6553208e90a59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:43 +0000
Subject: [PATCH 22/60] fix: call interpolate_orbit(s) from
 orbit(s)_interpolate with the options it has

---
 clustertools/analysis/orbits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index b7bbecc..13fa9c8 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -546,7 +546,7 @@ def orbit_interpolate(
     -------
     2021 - Written - Webb (UofT)
     """
-    return interpolate_orbit(cluster, pot=pot, tfinal=tfinal, nt=nt, ro=ro, vo=vo,zo=zo,solarmotion=solarmotion,plot=False)
+    return interpolate_orbit(cluster, pot=pot, tfinal=tfinal, nt=nt, ro=ro, vo=vo,zo=zo,solarmotion=solarmotion)
 
 def orbits_interpolate(
     cluster,
@@ -594,7 +594,7 @@ def orbits_interpolate(
     -------
     2021 - Written - Webb (UofT)
     """
-    return interpolate_orbits(cluster, cluster_pot=cluster_pot, pot=pot, tfinal=tfinal, nt=nt, ro=ro, vo=vo,zo=zo,solarmotion=solarmotion,plot=False)
+    return interpolate_orbits(cluster, pot=pot, tfinal=tfinal, nt=nt, ro=ro, vo=vo,zo=zo,solarmotion=solarmotion)
 
 
 def orbital_path(
-- 
2.43.0


From 41a4593fd91351feba25d8fdb1d31c1aa511a687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:43 +0000
Subject: [PATCH 23/60] fix: tapered_mass_function returns eleven values for
 few stars as well

---
 clustertools/analysis/functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 5ce872a..9152fcb 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -1667,6 +1667,10 @@ def tapered_mass_function(
             -1000.0,
             -1000.0,
             -1000.0,
+            -1000.0,
+            -1000.0,
+            -1000.0,
+            -1000.0,
         )
 
 
-- 
2.43.0


From bdee8c76e7d05549bb51560b2f64a6bee81bbcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:53 +0000
Subject: [PATCH 24/60] fix: take apart the mass function result when mcorr is
 given

---
 clustertools/cluster/cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index ee9de85..d30343c 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2758,6 +2758,7 @@ class StarCluster(object):
         if projected==None:
             projected=self.projected
 
+        # with a completeness correction the bin errors are returned as well
         m_mean, m_hist, dm, alpha, ealpha, yalpha, eyalpha = mass_function(
             self,
             mmin=mmin,
@@ -2777,7 +2778,7 @@ class StarCluster(object):
             plot=plot,
             title="GLOBAL",
             **kwargs
-        )
+        )[:7]
         self.alpha = alpha
 
         return self.alpha
-- 
2.43.0


From d682687f68405b0923617fe21db30add978becf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:53 +0000
Subject: [PATCH 25/60] fix: closest_star returns its result on the sky

---
 clustertools/analysis/functions.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 9152fcb..4f41842 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -956,10 +956,6 @@ def closest_star(cluster, projected=False, argument=False):
     if cluster.units=='radec' and cluster.origin=='sky':
 
         x=np.column_stack([cluster.x,cluster.y])
-        tree=cKDTree(x)
-        dist, arg = tree.query(x, k=5)
-
-        
 
     else:
 
@@ -968,13 +964,13 @@ def closest_star(cluster, projected=False, argument=False):
         else:
             x=np.column_stack([cluster.x,cluster.y,cluster.z])
 
-        tree=cKDTree(x)
-        dist, arg = tree.query(x, k=2)
+    tree=cKDTree(x)
+    dist, arg = tree.query(x, k=2)
 
-        if argument:
-            return dist[:,1],arg[:,1]
-        else:
-            return dist[:,1]
+    if argument:
+        return dist[:,1],arg[:,1]
+    else:
+        return dist[:,1]
 
 def rlagrange(cluster, nlagrange=10, mfrac=None, projected=False):
     """Calculate lagrange radii of the cluster by mass
-- 
2.43.0


From 058f3d79b7d19acd365b97c205883b64f3e17835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:53 +0000
Subject: [PATCH 26/60] fix: interpolate_orbit(s): leave the default tfinal
 alone in amuse units

---
 clustertools/analysis/orbits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 13fa9c8..60efc7b 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -382,7 +382,7 @@ def interpolate_orbit(
 
     if cluster.units=='amuse':
         cluster.to_pckms()
-        tfinal=tfinal.value_in(u.Myr)
+        if tfinal is not None: tfinal=tfinal.value_in(u.Myr)
 
     ts,o=_integrate_orbit(cluster, pot=pot, tfinal=tfinal, nt=nt, from_centre=from_centre, ro=ro, vo=vo,zo=zo,solarmotion=solarmotion, plot=False)
 
@@ -464,7 +464,7 @@ def interpolate_orbits(
 
     if cluster.units=='amuse':
         cluster.to_pckms()
-        tfinal=tfinal.value_in(u.Myr)
+        if tfinal is not None: tfinal=tfinal.value_in(u.Myr)
 
     if cluster.origin=='centre':
         ts,o=_integrate_orbits(cluster, pot=pot, tfinal=tfinal, nt=nt, ro=ro, vo=vo, zo=zo,solarmotion=[0,0,0], plot=False)
-- 
2.43.0


From f2c8c92a357474aca3845337923d59d15fe70f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:02 +0000
Subject: [PATCH 27/60] fix: honour analyze in to_nbody, to_galpy and
 to_WDunits

---
 clustertools/cluster/operations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index e4f8f29..6da56fd 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -431,7 +431,7 @@ def to_nbody(cluster,analyze=True):
             cluster.m2/=cluster.zmbar
             cluster.bunits='nbody'
 
-        cluster.analyze()
+        if analyze: cluster.analyze()
 
 def to_radec(cluster, sortstars=True,centre_method=None,analyze=True):
     """Convert to on-sky position, proper motion, and radial velocity of cluster
@@ -657,7 +657,7 @@ def to_galpy(cluster,analyze=True):
 
             cluster.units = "galpy"
 
-        cluster.analyze()
+        if analyze: cluster.analyze()
 
 def to_WDunits(cluster,analyze=True):
     """ Convert stellar positions/velocities, centre of mass, and orbital position and velocity to Walter Dehnen Units
@@ -705,7 +705,7 @@ def to_WDunits(cluster,analyze=True):
 
             cluster.units = "WDunits"
 
-            cluster.analyze()
+            if analyze: cluster.analyze()
 
 def to_amuse(cluster,analyze=True):
     """ Convert stellar positions/velocities, centre of mass, and orbital position and velocity to AMUSE Vector and Scalar Quantities
-- 
2.43.0


From cb170620228bbf927b954c8da32ec3175e214713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:02 +0000
Subject: [PATCH 28/60] fix: gyrout: convert velocities with the given ro and
 vo

---
 clustertools/util/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/util/output.py b/clustertools/util/output.py
index 6437b57..21fa427 100644
--- a/clustertools/util/output.py
+++ b/clustertools/util/output.py
@@ -317,7 +317,7 @@ def gyrout(cluster, filename="init.nemo.dat",eps=None,epsunits=None,ro=solar_ro,
     2019 - Written - Webb (UofT)
 
     """
-    vcon = 220.0 / conversion.velocity_in_kpcGyr(vo=solar_vo, ro=solar_ro)
+    vcon = vo / conversion.velocity_in_kpcGyr(vo=vo, ro=ro)
     mcon = 222288.4543021174
 
     cluster.save_cluster()
-- 
2.43.0


From 1cf2fdc24ed896b35e16bed923d661278b448cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:02 +0000
Subject: [PATCH 29/60] fix: skyplot: plot the legend when asked to

---
 clustertools/util/plots.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clustertools/util/plots.py b/clustertools/util/plots.py
index 45709b3..6f6238f 100644
--- a/clustertools/util/plots.py
+++ b/clustertools/util/plots.py
@@ -864,6 +864,9 @@ def skyplot(
         if ylim != None:
             plt.ylim(ylim)
 
+        if legend:
+            plt.legend()
+
         plt.tight_layout()
 
         if filename != None:
-- 
2.43.0


From d05d5783897c3fc868bf757ec1761a74867c8464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:02 +0000
Subject: [PATCH 30/60] fix: sky_coords: use the given ro, vo, zo and
 solarmotion

---
 clustertools/util/coordinates.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/clustertools/util/coordinates.py b/clustertools/util/coordinates.py
index ea2d779..de720bb 100644
--- a/clustertools/util/coordinates.py
+++ b/clustertools/util/coordinates.py
@@ -244,15 +244,17 @@ def sky_coords(cluster,ro=solar_ro,vo=solar_vo,solarmotion=solar_motion,zo=solar
     cluster.save_cluster()
     units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
 
-    cluster.to_radec(ro=ro,vo=vo,solarmotion=solar_motion)
+    cluster.to_galaxy(sortstars=False)
+    cluster.to_kpckms()
 
-    ra,dec,d0,pmra,pmdec,vr0=cluster.x,cluster.y,cluster.z,cluster.vx,cluster.vy,cluster.vz
+    ra,dec,d0,pmra,pmdec,vr0=cart_to_sky(cluster.x,cluster.y,cluster.z,cluster.vx,cluster.vy,cluster.vz,
+        ro=ro,vo=vo,solarmotion=solarmotion,zo=zo)
 
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
 
     return ra, dec, d0, pmra, pmdec, vr0
 
-def cart_to_sky(x,y,z,vx,vy,vz,ro=solar_ro,vo=solar_vo,solarmotion=solar_motion):
+def cart_to_sky(x,y,z,vx,vy,vz,ro=solar_ro,vo=solar_vo,solarmotion=solar_motion,zo=solar_zo):
     """Convert cartesian coordinates to sky coordinates
 
     Parameters
@@ -275,14 +277,14 @@ def cart_to_sky(x,y,z,vx,vy,vz,ro=solar_ro,vo=solar_vo,solarmotion=solar_motion)
 
     if isinstance(R,float):
         o = Orbit(
-            [R/ro, vR/vo, vT/vo, z/ro, vz/vo, phi], ro=ro, vo=vo, solarmotion=solarmotion
+            [R/ro, vR/vo, vT/vo, z/ro, vz/vo, phi], ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
         )
     else:
 
         vxvv=np.column_stack([R/ro, vR/vo, vT/vo, z/ro, vz/vo, phi])
 
         o = Orbit(
-            vxvv, ro=ro, vo=vo, solarmotion=solarmotion
+            vxvv, ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
         )
 
     return o.ra(),o.dec(),o.dist(),o.pmra(),o.pmdec(),o.vlos()
-- 
2.43.0


From 66b87e731c0cf2ed01e9356be573742c6dae4d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:46 +0000
Subject: [PATCH 31/60] fix: relaxation_time: velocities are needed when a
 radius is given too

---
 clustertools/analysis/functions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 4f41842..f5c2761 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -495,12 +495,15 @@ def relaxation_time(cluster, rad=None, coulomb=0.4, projected=False,method='spit
     grav=_get_grav(cluster)
 
 
+    if projected:
+        vel=cluster.vpro
+    else:
+        vel=cluster.v
+
     if rad is None and projected:
         rad=cluster.rmpro
-        vel=cluster.vpro
     elif rad is None:
         rad=cluster.rm
-        vel=cluster.v
 
     if projected:
         rindx=cluster.rpro <= rad
-- 
2.43.0


From 6155105b976c48b5549c2e65ed8ff9fbb1a0cde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:46 +0000
Subject: [PATCH 32/60] fix: initialize_orbits: refuse radec units with a
 cluster or centre origin

---
 clustertools/analysis/orbits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 60efc7b..f260061 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -163,7 +163,7 @@ def initialize_orbits(cluster, ro=None, vo=None, zo = None, solarmotion=None):
         )
 
     elif cluster.units == "radec" and (cluster.origin=='cluster' or cluster.origin=='centre'):
-        print('NO METHOD FOR INITALIZING STELLAR ORBITS WITH RESPET TO CENTRE OR CLUSTER WHEN UNITS==RADEC')
+        raise ValueError('NO METHOD FOR INITALIZING STELLAR ORBITS WITH RESPET TO CENTRE OR CLUSTER WHEN UNITS==RADEC')
     else:
 
         cluster.save_cluster()
-- 
2.43.0


From 8fa44b9d3985d0bae4eefc40f5057e807062220e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:46 +0000
Subject: [PATCH 33/60] fix: velocity profiles: z velocity when not projected

---
 clustertools/analysis/profiles.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 8dc491c..d96dfa2 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -774,7 +774,7 @@ def sigv_prof(
             v=cluster.vy
             ylabel=r"$\sigma_{v_y}$"
         elif coord=='z' or coord=='vz':
-            v=vz
+            v=cluster.vz
             ylabel=r"$\sigma_{v_z}$"
         elif coord=='v':
             if projected:
@@ -1204,7 +1204,7 @@ def v_prof(
             v=cluster.vy
             ylabel=r"$\sigma_{v_y}$"
         elif coord=='z' or coord=='vz':
-            v=vz
+            v=cluster.vz
             ylabel=r"$\sigma_{v_z}$"
         elif coord=='v':
             if projected:
@@ -1426,7 +1426,7 @@ def v2_prof(
             v=vt
             ylabel=r"$<v_t^2>$"
         elif coord=='z':
-            v=vz
+            v=cluster.vz
             ylabel=r"$<v_z^2>$"
     else:
         if projected:
-- 
2.43.0


From e173ce442690d382260008df263a7ba032a27131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:46 +0000
Subject: [PATCH 34/60] fix: rcore: plotting a galpy-unit cluster

---
 clustertools/analysis/functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index f5c2761..0a96c66 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -2256,14 +2256,14 @@ def rcore(
                 yunits = " Msun/kpc^3"
 
         elif cluster.units=='galpy':
-            rprof /=(1000.0*ro)
+            rprof /=(1000.0*cluster._ro)
 
             if projected:
                 pprof /= dens_in_msolpc2
                 rho_c /= dens_in_msolpc2
             else:
-                pprof /= conversion.dens_in_msolpc3(ro=ro, vo=vo) 
-                rho_c /= conversion.dens_in_msolpc3(ro=ro, vo=vo)               
+                pprof /= conversion.dens_in_msolpc3(ro=cluster._ro, vo=cluster._vo) 
+                rho_c /= conversion.dens_in_msolpc3(ro=cluster._ro, vo=cluster._vo)
 
             xunits = "(GALPY)"
             yunits = "(GALPY)"
-- 
2.43.0


From 9721395977730a2f9df07182769bb0fe5edb5249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:46 +0000
Subject: [PATCH 35/60] fix: sphere_coords, cyl_coords: clusters with sky
 origin

---
 clustertools/util/coordinates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/util/coordinates.py b/clustertools/util/coordinates.py
index de720bb..14b4567 100644
--- a/clustertools/util/coordinates.py
+++ b/clustertools/util/coordinates.py
@@ -51,7 +51,7 @@ def sphere_coords(cluster):
     units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
 
     if origin0=='sky':
-        cluster.to_galaxy(ro=ro,vo=vo,solarmotion=solar_motion)
+        cluster.to_galaxy(sortstars=False)
 
     if cluster.units=='amuse':
         cluster.to_pckms()
@@ -166,7 +166,7 @@ def cyl_coords(cluster):
     units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
 
     if origin0=='sky':
-        cluster.to_galaxy(ro=ro,vo=vo,solarmotion=solar_motion)
+        cluster.to_galaxy(sortstars=False)
 
     if cluster.units=='amuse':
         cluster.to_pckms()
-- 
2.43.0


From a570d87c8375291cdc6a8c464cff67298e117416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:50 +0000
Subject: [PATCH 36/60] fix: subset: leave the mask given by the caller
 unchanged

---
 clustertools/cluster/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index d30343c..949d5c2 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -3941,7 +3941,7 @@ def _get_subset(
 
     try:
 
-        indx *= (
+        indx = indx * (
             (r >= rmin)
             * (r <= rmax)
             * (cluster.m >= mmin)
-- 
2.43.0


From b9445ad9c32d061cdf14204400c79277c15708ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:50 +0000
Subject: [PATCH 37/60] fix: interpolate_orbits: return copies of the star
 arrays

---
 clustertools/cluster/cluster.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 949d5c2..9c3e7b2 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -3516,8 +3516,8 @@ class StarCluster(object):
             self.to_sky()
             self.ra,self.dec,self.dist=x,y,z
             self.pmra,self.pmdec,self.vlos=vx,vy,vz
-            self.x,self.y,self.z=x,y,z
-            self.vx,self.vy,self.vz=vx,vy,vz
+            self.x,self.y,self.z=x.copy(),y.copy(),z.copy()
+            self.vx,self.vy,self.vz=vx.copy(),vy.copy(),vz.copy()
         elif self.units=='radec' and (self.origin=='centre' or self.origin=='cluster'):
             print('CANT INTEGRATE ORBITS WITH FROM_CENTRE OR FROM_CLUSTER AND RETURN IN SKY COORDINATES')
         else:
@@ -3538,7 +3538,7 @@ class StarCluster(object):
                 self.ra_gc,self.dec_gc,self.dist_gc=xgc,ygc,zgc
                 self.pmra_gc,self.pmdec_gc,self.vlos_gc=vxgc,vygc,vzgc
 
-        return self.x,self.y,self.z,self.vx,self.vy,self.vz
+        return self.x.copy(),self.y.copy(),self.z.copy(),self.vx.copy(),self.vy.copy(),self.vz.copy()
 
 
     def orbits_interpolate(self,pot=None,tfinal=None,nt=1000,ro=None,vo=None,zo=None,solarmotion=None):
-- 
2.43.0


From 492176dbabbce7f4b2483e499f121d71696aaaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:50 +0000
Subject: [PATCH 38/60] fix: rho_prof, m_prof: normalise once, by the half-mass
 radius of the centred cluster

---
 clustertools/analysis/profiles.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index d96dfa2..d00478e 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -133,7 +133,10 @@ def rho_prof(
 
     bin_idx = bin_index(r,r_lower,r_upper)
 
-    rprof = r_mean
+    if normalize:
+        rprof = r_mean / cluster.rm
+    else:
+        rprof = r_mean
     pprof = np.zeros(len(r_mean))
     nprof = np.zeros(len(r_mean))
 
@@ -185,9 +188,6 @@ def rho_prof(
 
         x, y, n = rprof, pprof, nprof
 
-        if normalize:
-            x/=cluster.rm
-
         _lplot(
             x,
             y,
@@ -207,12 +207,9 @@ def rho_prof(
     units=cluster.units
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
 
-    rprof=_convert_length(rprof,units,cluster)
+    if not normalize: rprof=_convert_length(rprof,units,cluster)
     pprof=_convert_density(pprof,units,cluster,projected=projected)
 
-    if normalize:
-        rprof/=cluster.rm
-
     return rprof, pprof, nprof
 
 
@@ -323,7 +320,10 @@ def m_prof(
 
     bin_idx = bin_index(r,r_lower,r_upper)
 
-    rprof = r_mean
+    if normalize:
+        rprof = r_mean / cluster.rm
+    else:
+        rprof = r_mean
     mprof = np.zeros(len(r_mean))
     nprof = np.zeros(len(r_mean))
 
@@ -358,9 +358,6 @@ def m_prof(
 
         x, y, n = rprof, mprof, nprof
 
-        if normalize:
-            x/=cluster.rm
-
         _lplot(
             x,
             y,
@@ -379,12 +376,9 @@ def m_prof(
     units=cluster.units
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
 
-    rprof=_convert_length(rprof,units,cluster)
+    if not normalize: rprof=_convert_length(rprof,units,cluster)
     mprof=_convert_mass(mprof,units,cluster)
 
-    if normalize:
-        rprof/=cluster.rm
-
     return rprof, mprof, nprof
 
 def alpha_prof(
-- 
2.43.0


From f28de2d51666340feee91b220936c2ff20790dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 39/60] fix: profiles: find the half-mass radius of a cluster
 that was never sorted

---
 clustertools/analysis/profiles.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index d00478e..f958d6c 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -111,7 +111,7 @@ def rho_prof(
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
-        cluster.sortstars()
+        cluster.analyze()
 
 
     if projected:
@@ -295,7 +295,7 @@ def m_prof(
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
-        cluster.sortstars()
+        cluster.analyze()
         
     rprof = np.array([])
     mprof = np.array([])
@@ -487,7 +487,7 @@ def alpha_prof(
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
-        cluster.sortstars()
+        cluster.analyze()
 
 
     if mcorr is None:        
@@ -695,7 +695,7 @@ def sigv_prof(
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
-        cluster.sortstars()
+        cluster.analyze()
 
     if projected:
         r = cluster.rpro
@@ -920,7 +920,7 @@ def beta_prof(
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
-        cluster.sortstars()
+        cluster.analyze()
 
     """
     if rmin == None:
@@ -1125,7 +1125,7 @@ def v_prof(
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
-        cluster.sortstars()
+        cluster.analyze()
 
     if projected:
         r = cluster.rpro
@@ -1351,7 +1351,7 @@ def v2_prof(
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
-        cluster.sortstars()
+        cluster.analyze()
 
     vprof = np.array([])
 
@@ -1575,7 +1575,7 @@ def eta_prof(
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
-        cluster.sortstars()
+        cluster.analyze()
 
     if projected:
         r = cluster.rpro
@@ -1918,7 +1918,7 @@ def vcirc_prof(
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     else:
-        cluster.sortstars()
+        cluster.analyze()
 
     grav=_get_grav(cluster)
 
-- 
2.43.0


From cb15232c73e9b3ac8f25b0adfe6a54fc009e809f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 40/60] fix: alpha_prof, eta_prof: fit against the half-mass
 radius of the centred cluster

---
 clustertools/analysis/profiles.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index f958d6c..c02e796 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -485,8 +485,8 @@ def alpha_prof(
         cluster.to_pckms()
 
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
-        cluster.to_centre(sortstars=normalize)
-    elif normalize:
+        cluster.to_centre()
+    else:
         cluster.analyze()
 
 
@@ -1573,8 +1573,8 @@ def eta_prof(
         cluster.to_pckms()
 
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
-        cluster.to_centre(sortstars=normalize)
-    elif normalize:
+        cluster.to_centre()
+    else:
         cluster.analyze()
 
     if projected:
-- 
2.43.0


From b521926022cabc9ce0ca9d50f0beee4ff3fe2336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 41/60] fix: vcirc_prof: select and bin the radially ordered
 stars with masks in the same order

---
 clustertools/analysis/profiles.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index c02e796..e43a79e 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -1916,7 +1916,7 @@ def vcirc_prof(
         cluster.to_pckms()
 
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
-        cluster.to_centre(sortstars=normalize)
+        cluster.to_centre()
     else:
         cluster.analyze()
 
@@ -1970,6 +1970,12 @@ def vcirc_prof(
 
     indx=cluster.subset(rmin=rmin,rmax=rmax,vmin=vmin,vmax=vmax,mmin=mmin,mmax=mmax,emin=emin,emax=emax,kwmin=kwmin,kwmax=kwmax,npop=npop,indx=indx,projected=projected)
 
+    # r, v and m are in radial order, the mask is not
+    if projected:
+        indx = indx[cluster.rproorder]
+    else:
+        indx = indx[cluster.rorder]
+
     r = r[indx]
     v = v[indx]
     m = m[indx]
@@ -1985,12 +1991,12 @@ def vcirc_prof(
         for i in range(0,len(args)):
             args[i]=np.argmin(np.fabs(r-r_mean[i]))
     elif kwargs.get('bintype','num')=='fix' and nrad is not None:
-        r_lower, r_mean, r_upper, r_hist = binmaker(cluster.r[indx], nrad)
+        r_lower, r_mean, r_upper, r_hist = binmaker(r, nrad)
         args=np.zeros(len(r_mean))
         for i in range(0,len(args)):
             args[i]=np.argmin(np.fabs(r-r_mean[i]))
     elif kwargs.get('bintype','num')=='num' and nrad is not None:
-        r_lower, r_mean, r_upper, r_hist = nbinmaker(cluster.r[indx], nrad)
+        r_lower, r_mean, r_upper, r_hist = nbinmaker(r, nrad)
         args=np.zeros(len(r_mean))
         for i in range(0,len(args)):
             args[i]=np.argmin(np.fabs(r-r_mean[i]))
-- 
2.43.0


From 4317a21a56004a235c22c2aa8a182dcdf2891787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 42/60] fix: eta_prof: bin projected radii when asked to

---
 clustertools/analysis/profiles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index e43a79e..d4c5cce 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -1626,9 +1626,9 @@ def eta_prof(
         r_lower, r_mean, r_upper=bins[0],bins[1],bins[2]
         r_hist=np.zeros(len(r_mean))
     elif kwargs.pop('bintype','num')=='fix':
-        r_lower, r_mean, r_upper, r_hist = binmaker(cluster.r[indx], nrad)
+        r_lower, r_mean, r_upper, r_hist = binmaker(r[indx], nrad)
     else:
-        r_lower, r_mean, r_upper, r_hist = nbinmaker(cluster.r[indx], nrad)
+        r_lower, r_mean, r_upper, r_hist = nbinmaker(r[indx], nrad)
 
     if normalize:
         if projected:
-- 
2.43.0


From 7edd1ffb50626c760ebad13048421cb0c4611e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 43/60] fix: alpha_prof, sigv_prof: normalised radii have no
 units

---
 clustertools/analysis/profiles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index d4c5cce..782ac90 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -605,7 +605,7 @@ def alpha_prof(
 
     units=cluster.units
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
-    rprofn=_convert_length(rprofn,units,cluster)
+    if not normalize: rprofn=_convert_length(rprofn,units,cluster)
 
 
     if aerror:
@@ -838,7 +838,7 @@ def sigv_prof(
         if filename != None:
             plt.savefig(filename)
 
-    rprofn=_convert_length(rprofn,units,cluster)
+    if not normalize: rprofn=_convert_length(rprofn,units,cluster)
     sigvprof=_convert_velocity(sigvprof,units,cluster)
 
     return rprofn, sigvprof
-- 
2.43.0


From 7f2d3e44497bfcb28b46918a65f16766240bb64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:56 +0000
Subject: [PATCH 44/60] fix: add_orbit: convert from and to every unit system

---
 clustertools/cluster/cluster.py | 35 +++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 9c3e7b2..ca19abd 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -897,7 +897,7 @@ class StarCluster(object):
                     vxgc *= self.vbar
                     vygc *= self.vbar
                     vzgc *= self.vbar
-                    tphys *= self.tbar
+                    tphys *= self.tbar / 1000.0
                 elif ounits == "galpy":
                     xgc *= ro
                     ygc *= ro
@@ -924,6 +924,11 @@ class StarCluster(object):
                     vygc/=1.022712165045695
                     vzgc/=1.022712165045695
 
+                elif ounits == 'WDunits':
+                    vcon = vo / conversion.velocity_in_kpcGyr(vo=vo,ro=ro)
+                    vxgc*=vcon
+                    vygc*=vcon
+                    vzgc*=vcon
 
                 elif ounits == 'radec':
                     o=Orbit([xgc,ygc,zgc,vxgc,vygc,vzgc],radec=True,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
@@ -957,7 +962,33 @@ class StarCluster(object):
                 vygc /= vo
                 vzgc /= vo
                 tphys /= conversion.time_in_Gyr(ro=ro,vo=vo)
-
+            elif self.units == "pcmyr":
+                xgc *= 1000.0
+                ygc *= 1000.0
+                zgc *= 1000.0
+                vxgc*=1.022712165045695
+                vygc*=1.022712165045695
+                vzgc*=1.022712165045695
+                tphys *= 1000.0
+            elif self.units == "kpcgyr":
+                vxgc*=1.022712165045695
+                vygc*=1.022712165045695
+                vzgc*=1.022712165045695
+            elif self.units == "WDunits":
+                vcon = vo / conversion.velocity_in_kpcGyr(vo=vo,ro=ro)
+                vxgc/=vcon
+                vygc/=vcon
+                vzgc/=vcon
+            elif self.units == "radec":
+                R, phi, z = coords.rect_to_cyl(xgc, ygc, zgc)
+                vR, vT, vz = coords.rect_to_cyl_vec(vxgc, vygc, vzgc, xgc, ygc, zgc)
+                o=Orbit([R/ro, vR/vo, vT/vo, z/ro, vz/vo, phi], ro=ro, vo=vo, zo=zo, solarmotion=solarmotion)
+                xgc=o.ra()
+                ygc=o.dec()
+                zgc=o.dist()
+                vxgc=o.pmra()
+                vygc=o.pmdec()
+                vzgc=o.vlos()
 
         self.xgc = xgc
         self.ygc = ygc
-- 
2.43.0


From 46db553fa7951834bbf0a42594a6f6989fba5f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:59 +0000
Subject: [PATCH 45/60] fix: relaxation_time: a given radius is in the
 cluster's own units

---
 clustertools/analysis/functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 0a96c66..e3a7b7e 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -504,6 +504,8 @@ def relaxation_time(cluster, rad=None, coulomb=0.4, projected=False,method='spit
         rad=cluster.rmpro
     elif rad is None:
         rad=cluster.rm
+    else:
+        rad=_convert_length(rad,units0,cluster)
 
     if projected:
         rindx=cluster.rpro <= rad
-- 
2.43.0


From e31dbd1d747995db99b7f61bd7edd0493913be5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:48 +0000
Subject: [PATCH 46/60] fix: pass the energy, type, population and mask
 selections on to the binned fits

---
 clustertools/analysis/profiles.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 782ac90..040ff2c 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -542,10 +542,10 @@ def alpha_prof(
         rindx = indx * (bin_idx==i)
 
         if return_error:
-            m_mean, m_hist, dm, alpha, ealpha, yalpha, eyalpha, mbinerror = mass_function(cluster,nmass=nmass,indx=rindx,projected=projected,mcorr=mcorr,plot=False,**kwargs)
+            m_mean, m_hist, dm, alpha, ealpha, yalpha, eyalpha, mbinerror = mass_function(cluster,nmass=nmass,kwmin=kwmin,kwmax=kwmax,indx=rindx,projected=projected,mcorr=mcorr,plot=False,**kwargs)
             rbinerror[i]=np.amin(mbinerror)
         else:
-            m_mean, m_hist, dm, alpha, ealpha, yalpha, eyalpha = mass_function(cluster,nmass=nmass,indx=rindx,projected=projected,mcorr=None,plot=False,**kwargs)
+            m_mean, m_hist, dm, alpha, ealpha, yalpha, eyalpha = mass_function(cluster,nmass=nmass,kwmin=kwmin,kwmax=kwmax,indx=rindx,projected=projected,mcorr=None,plot=False,**kwargs)
             rbinerror[i]=1.
 
         if alpha > -100:
@@ -1651,8 +1651,12 @@ def eta_prof(
             rmax=r_upper[i],
             vmin=vmin,
             vmax=vmax,
+            emin=emin,
+            emax=emax,
             kwmin=kwmin,
             kwmax=kwmax,
+            npop=npop,
+            indx=indx,
             projected=projected,
             meq=meq,
             **kwargs,
-- 
2.43.0


From 74685555d5eac64cd7fbc5eeb3e3cf6815b6089d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:48 +0000
Subject: [PATCH 47/60] fix: let each parallel iteration of the potential
 energy kernel write only its own star

---
 clustertools/analysis/functions.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index e3a7b7e..6975335 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -846,15 +846,15 @@ def _potential_energy_parallel(cluster,softening=0.0):
        2019 - Written - Webb (UofT)
     """
     pot = [0.0] * len(cluster)
-    for i in numba.prange(len(cluster) - 1):
-        for j in range(i + 1, len(cluster)):
-            r = distance(cluster[i], cluster[j])
+    for i in numba.prange(len(cluster)):
+        for j in range(len(cluster)):
+            if i != j:
+                r = distance(cluster[i], cluster[j])
 
-            if r==0: r=np.nan
+                if r==0: r=np.nan
 
-            m2 = cluster[i, 3] * cluster[j, 3]
-            pot[i] += -m2 / np.sqrt(r**2.+softening**2.)
-            pot[j] += -m2 / np.sqrt(r**2.+softening**2.)
+                m2 = cluster[i, 3] * cluster[j, 3]
+                pot[i] += -m2 / np.sqrt(r**2.+softening**2.)
 
     return pot
 
-- 
2.43.0


From d559f3d4e18a8591e854cc8cc1139e580ea4892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:48 +0000
Subject: [PATCH 48/60] fix: honour projected when energies are requested for
 given ids

---
 clustertools/analysis/functions.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 6975335..79dee5a 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -729,11 +729,16 @@ def energies(cluster, specific=True, ids=None, projected=False, softening=0.0, f
         # Get gravitational constant
         grav = _get_grav(cluster)
 
-        kin = 0.5 * cluster.m[ids] * cluster.v[ids]**2
+        if projected:
+            kin = 0.5 * cluster.m[ids] * cluster.vpro[ids]**2
+            z = np.zeros(len(cluster.x))
+        else:
+            kin = 0.5 * cluster.m[ids] * cluster.v[ids]**2
+            z = cluster.z
 
-        cluster_full = np.array([cluster.x, cluster.y, cluster.z, cluster.m]).T
+        cluster_full = np.array([cluster.x, cluster.y, z, cluster.m]).T
         cluster_sub  = np.array([cluster.x[ids], cluster.y[ids], 
-                                 cluster.z[ids], cluster.m[ids]]).T
+                                 z[ids], cluster.m[ids]]).T
 
         if parallel:
             pot = grav * np.array(_potential_energy_subset_parallel(cluster_sub, cluster_full,softening))
-- 
2.43.0


From f521d57fb9aa681f6527ce4be81f49cb52ab5352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:48 +0000
Subject: [PATCH 49/60] fix: leave a star's own softened potential out of its
 energy

---
 clustertools/analysis/functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 79dee5a..f04dcf8 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -774,12 +774,12 @@ def energies(cluster, specific=True, ids=None, projected=False, softening=0.0, f
                 m = cluster.m[i] * cluster.m
 
             if projected:
-                dr = np.sqrt(dx ** 2.0 + dy ** 2.0 + softening**2.) 
+                dr = np.sqrt(dx ** 2.0 + dy ** 2.0)
             else:
-                dr = np.sqrt(dx ** 2.0 + dy ** 2.0 + dz ** 2.0 + softening**2.)
+                dr = np.sqrt(dx ** 2.0 + dy ** 2.0 + dz ** 2.0)
 
             indx = dr != 0.0
-            gmr = -grav * m[indx] / dr[indx]
+            gmr = -grav * m[indx] / np.sqrt(dr[indx] ** 2.0 + softening**2.)
 
             pot.append(np.sum(gmr))
 
-- 
2.43.0


From 9be91026cc31f58e7339147b7df2f2d5c1547ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:48 +0000
Subject: [PATCH 50/60] fix: name the radii option of reset_nbody_scale
 correctly in sub_cluster

---
 clustertools/cluster/cluster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index ca19abd..1212983 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -4249,11 +4249,11 @@ def sub_cluster(
         if reset_nbody:
             subcluster.to_pckms()
             subcluster.analyze()
-            subcluster.reset_nbody_scale(mass=True,radius=True,rvirial=reset_rvirial,projected=reset_projected,**kwargs)
+            subcluster.reset_nbody_scale(mass=True,radii=True,rvirial=reset_rvirial,projected=reset_projected,**kwargs)
         elif reset_nbody_mass or reset_nbody_radii:
             subcluster.to_pckms()
             subcluster.analyze()
-            subcluster.reset_nbody_scale(mass=reset_nbody_mass,radius=reset_nbody_radii,rvirial=reset_rvirial,projected=reset_projected,**kwargs)
+            subcluster.reset_nbody_scale(mass=reset_nbody_mass,radii=reset_nbody_radii,rvirial=reset_rvirial,projected=reset_projected,**kwargs)
 
     else:
         subcluster = StarCluster(cluster.tphys)
-- 
2.43.0


From 3722619fa98e91f7a104cdcf63141ebb710094b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:48 +0000
Subject: [PATCH 51/60] fix: do not pass virial radius options twice in
 reset_nbody_scale

---
 clustertools/cluster/operations.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index 6da56fd..011c15b 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -1427,13 +1427,13 @@ def reset_nbody_scale(cluster, mass=True, radii=True, rvirial=True, projected=Fa
     if radii:
         if rvirial:
 
-            method=kwargs.get("method", 'inverse_distance')
-            full=kwargs.get("full", True)
-            H = kwargs.get("H", 70.0)
-            Om = kwargs.get("Om", 0.3)
-            overdens = kwargs.get("overdens", 200.0)
-            nrad = kwargs.get("nrad", 20.0)
-            plot = kwargs.get("plot", False)
+            method=kwargs.pop("method", 'inverse_distance')
+            full=kwargs.pop("full", True)
+            H = kwargs.pop("H", 70.0)
+            Om = kwargs.pop("Om", 0.3)
+            overdens = kwargs.pop("overdens", 200.0)
+            nrad = kwargs.pop("nrad", 20.0)
+            plot = kwargs.pop("plot", False)
 
             cluster.virial_radius(method=method,full=full,
                 H=H,Om=Om,overdens=overdens,nrad=nrad,projected=projected,
-- 
2.43.0


From b05b835db1ed61e79309c3e34712756451b8e8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:48 +0000
Subject: [PATCH 52/60] fix: store epoch and spin once in add_sse when
 positions are given

---
 clustertools/cluster/cluster.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 1212983..d974f6c 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -1194,26 +1194,26 @@ class StarCluster(object):
             self.kw[nstart+arg.astype(int)] = np.asarray(kw)
             self.logl[nstart+arg.astype(int)] = np.asarray(logl)
             self.logr[nstart+arg.astype(int)] = np.asarray(logr)
-            self.ep[nstart+arg.astype(int)]= np.array(ep)
-            self.ospin[nstart+arg.astype(int)] = np.array(ospin)
+            if ep is not None: self.ep[nstart+arg.astype(int)]= np.array(ep)
+            if ospin is not None: self.ospin[nstart+arg.astype(int)] = np.array(ospin)
 
         else:
             self.kw = np.append(self.kw,kw)
             self.logl = np.append(self.logl,logl)
             self.logr = np.append(self.logr,logr)
 
-        self.lum = 10.0 ** self.logl
-        self.ltot = np.sum(self.lum)
+            if ep is not None: 
+                self.ep= np.append(self.ep,np.array(ep))
+            else:
+                self.ep= np.append(self.ep,np.zeros(len(kw)))
 
-        if ep is not None: 
-            self.ep= np.append(self.ep,np.array(ep))
-        else:
-            self.ep= np.append(self.ep,np.zeros(len(kw)))
+            if ospin is not None: 
+                self.ospin = np.append(self.ospin,np.array(ospin))
+            else:
+                self.ospin = np.append(self.ospin,np.zeros(len(kw)))
 
-        if ospin is not None: 
-            self.ospin = np.append(self.ospin,np.array(ospin))
-        else:
-            self.ospin = np.append(self.ospin,np.zeros(len(kw)))
+        self.lum = 10.0 ** self.logl
+        self.ltot = np.sum(self.lum)
 
     def add_bse(
         self,
-- 
2.43.0


From 465f0e6c653a7def3a0c7cf3a443b549c0d03bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:48 +0000
Subject: [PATCH 53/60] fix: keep binary and sky arrays aligned when binaries
 are added

---
 clustertools/cluster/cluster.py | 86 ++++++++++++++++++---------------
 1 file changed, 48 insertions(+), 38 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index d974f6c..30db929 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -671,12 +671,20 @@ class StarCluster(object):
             print(len(self.id),len(self.m),len(self.x),len(self.y),len(self.z),len(self.x),len(self.y),len(self.z),len(self.m0),len(self.npop))
 
         if self.units == "radec" and self.origin == "sky":
-            self.ra = np.append(self.ra, x)
-            self.dec = np.append(self.dec, y)
-            self.dist = np.append(self.dist, z)
-            self.pmra = np.append(self.pmra, vx)
-            self.pmdec = np.append(self.pmdec, vy)
-            self.vlos = np.append(self.vlos, vz)
+            if nb>0:
+                self.ra = np.append(xcom,self.ra)
+                self.dec = np.append(ycom,self.dec)
+                self.dist = np.append(zcom,self.dist)
+                self.pmra = np.append(vxcom,self.pmra)
+                self.pmdec = np.append(vycom,self.pmdec)
+                self.vlos = np.append(vzcom,self.vlos)
+
+            self.ra = np.append(self.ra, x[args:])
+            self.dec = np.append(self.dec, y[args:])
+            self.dist = np.append(self.dist, z[args:])
+            self.pmra = np.append(self.pmra, vx[args:])
+            self.pmdec = np.append(self.pmdec, vy[args:])
+            self.vlos = np.append(self.vlos, vz[args:])
 
 
         if isamuse and (self.units_init is None or self.units_init == 'amuse'):
@@ -747,23 +755,22 @@ class StarCluster(object):
         self.vyb2=np.append(self.vyb2,vyb2)
         self.vzb2=np.append(self.vzb2,vzb2)
 
-        if mb1 is not None:
-            self.mb1=np.append(self.mb1,mb1)
-        else:
-            self.mb1=np.append(self.mb1,np.ones(len(xb1)))
-        if mb2 is not None:
-            self.mb2=np.append(self.mb2,mb2)
-        else:
-            self.mb2=np.append(self.mb2,np.ones(len(xb2)))
+        if mb1 is None:
+            mb1=np.ones(np.shape(xb1))
+        if mb2 is None:
+            mb2=np.ones(np.shape(xb2))
+
+        self.mb1=np.append(self.mb1,mb1)
+        self.mb2=np.append(self.mb2,mb2)
 
         if set_com and not return_com:
-            mcom=self.mb1+self.mb2
-            xcom=(xb1*self.mb1+xb2*self.mb2)/mcom
-            ycom=(yb1*self.mb1+yb2*self.mb2)/mcom
-            zcom=(zb1*self.mb1+zb2*self.mb2)/mcom
-            vxcom=(vxb1*self.mb1+vxb2*self.mb2)/mcom
-            vycom=(vyb1*self.mb1+vyb2*self.mb2)/mcom
-            vzcom=(vzb1*self.mb1+vzb2*self.mb2)/mcom
+            mcom=np.atleast_1d(mb1+mb2)
+            xcom=(xb1*mb1+xb2*mb2)/mcom
+            ycom=(yb1*mb1+yb2*mb2)/mcom
+            zcom=(zb1*mb1+zb2*mb2)/mcom
+            vxcom=(vxb1*mb1+vxb2*mb2)/mcom
+            vycom=(vyb1*mb1+vyb2*mb2)/mcom
+            vzcom=(vzb1*mb1+vzb2*mb2)/mcom
 
             self.x = np.append(xcom,self.x)
             self.y = np.append(ycom,self.y)
@@ -782,8 +789,8 @@ class StarCluster(object):
                 ids=idstart+np.linspace(0,len(xcom)-1,len(xcom))*2
             else:
                 ids=id1
-                self.id1=np.append(self.id1,id1)
 
+            self.id1=np.append(self.id1,ids)
             self.id=np.append(ids,self.id)
 
             if id2 is not None:
@@ -797,27 +804,30 @@ class StarCluster(object):
                 self.m0=np.append(np.zeros(len(xcom)),self.m0)
 
             if m01 is not None:
-                self.m01=np.append(m01,self.m01)
+                self.m01=np.append(self.m01,m01)
             if m02 is not None:
-                self.m02=np.append(m02,self.m02)
+                self.m02=np.append(self.m02,m02)
 
             if npop1 is not None and npop2 is not None:
                 npopb=np.maximum(npop1,npop2)
-                self.npop=np.append(npopb,self.npop).astype(int)
+            else:
+                npopb=np.ones(len(xcom))
+
+            self.npop=np.append(npopb,self.npop).astype(int)
 
             if npop1 is None:
-                self.npop1=np.append(np.ones(len(xcom)),self.npop1)
+                self.npop1=np.append(self.npop1,np.ones(len(xcom)))
             elif isinstance(npop1,float):
-                self.npop1=np.append(np.ones(len(xcom))*npop1,self.npop1)
+                self.npop1=np.append(self.npop1,np.ones(len(xcom))*npop1)
             else:
-                self.npop1=np.append(npop1,self.npop1)
+                self.npop1=np.append(self.npop1,npop1)
 
             if npop2 is None:
-                self.npop2=np.append(np.ones(len(xcom)),self.npop2)
+                self.npop2=np.append(self.npop2,np.ones(len(xcom)))
             elif isinstance(npop2,float):
-                self.npop2=np.append(np.ones(len(xcom))*npop2,self.npop2)
+                self.npop2=np.append(self.npop2,np.ones(len(xcom))*npop2)
             else:
-                self.npop2=np.append(npop2,self.npop2)
+                self.npop2=np.append(self.npop2,npop2)
 
             self.ntot = len(self.x)
             self.ns=self.ntot-self.nb
@@ -825,13 +835,13 @@ class StarCluster(object):
             self.analyze(sortstars=self.rorder is not None)
 
         elif return_com:
-            mcom=self.mb1+self.mb2
-            xcom=(xb1*self.mb1+xb2*self.mb2)/mcom
-            ycom=(yb1*self.mb1+yb2*self.mb2)/mcom
-            zcom=(zb1*self.mb1+zb2*self.mb2)/mcom
-            vxcom=(vxb1*self.mb1+vxb2*self.mb2)/mcom
-            vycom=(vyb1*self.mb1+vyb2*self.mb2)/mcom
-            vzcom=(vzb1*self.mb1+vzb2*self.mb2)/mcom
+            mcom=np.atleast_1d(mb1+mb2)
+            xcom=(xb1*mb1+xb2*mb2)/mcom
+            ycom=(yb1*mb1+yb2*mb2)/mcom
+            zcom=(zb1*mb1+zb2*mb2)/mcom
+            vxcom=(vxb1*mb1+vxb2*mb2)/mcom
+            vycom=(vyb1*mb1+vyb2*mb2)/mcom
+            vzcom=(vzb1*mb1+vzb2*mb2)/mcom
 
             return xcom,ycom,zcom,vxcom,vycom,vzcom,mcom
 
-- 
2.43.0


From 68f6676848b5d16757fe87d830b8c0de1ba6b607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:08 +0000
Subject: [PATCH 54/60] fix: profiles: define the tangential velocity and axis
 label for every coord, rcore: density scale for galpy units when plotting

---
 clustertools/analysis/functions.py | 6 +++---
 clustertools/analysis/profiles.py  | 7 +++++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index f04dcf8..01539b9 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -2167,9 +2167,6 @@ def rcore(
 
     else:
 
-        mo=conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
-        dens_in_msolpc2=(mo/cluster._ro**2.)/(1000.0**2.)
-
         cluster.to_pckms()
 
         if projected:
@@ -2265,6 +2262,9 @@ def rcore(
         elif cluster.units=='galpy':
             rprof /=(1000.0*cluster._ro)
 
+            mo=conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
+            dens_in_msolpc2=(mo/cluster._ro**2.)/(1000.0**2.)
+
             if projected:
                 pprof /= dens_in_msolpc2
                 rho_c /= dens_in_msolpc2
diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 040ff2c..6f3b302 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -748,6 +748,7 @@ def sigv_prof(
             vr, vp, vz = coords.rect_to_cyl_vec(
                 cluster.vx, cluster.vy, cluster.vz, cluster.x, cluster.y, cluster.z
             )
+            vt=vp
         else:
             r, phi, theta, vr, vp, vt = sphere_coords(cluster)
             vz=cluster.vz
@@ -773,8 +774,10 @@ def sigv_prof(
         elif coord=='v':
             if projected:
                 v=cluster.vpro
+                ylabel=r"$\sigma_{v_{pro}}$"
             else:
                 v=cluster.v
+                ylabel=r"$\sigma_v$"
     else:
         if projected:
             ylabel=r"$\sigma_{v_{pro}}$"
@@ -1179,6 +1182,7 @@ def v_prof(
             vr, vp, vz = coords.rect_to_cyl_vec(
                 cluster.vx, cluster.vy, cluster.vz, cluster.x, cluster.y, cluster.z
             )
+            vt=vp
         else:
             r, phi, theta, vr, vp, vt = sphere_coords(cluster)
 
@@ -1203,8 +1207,10 @@ def v_prof(
         elif coord=='v':
             if projected:
                 v=cluster.vpro
+                ylabel=r"$<v_{pro}>$"
             else:
                 v=cluster.v
+                ylabel=r"$<v>$"
     else:
         if projected:
             ylabel=r"$<v_{pro}>$"
@@ -1407,6 +1413,7 @@ def v2_prof(
             vr, vp, vz = coords.rect_to_cyl_vec(
                 cluster.vx, cluster.vy, cluster.vz, cluster.x, cluster.y, cluster.z
             )
+            vt=vp
         else:
             r, phi, theta, vr, vp, vt = sphere_coords(cluster)
 
-- 
2.43.0


From 8d30f645b3c8c2cf1de575f070de1726bd166613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:53 +0000
Subject: [PATCH 55/60] fix: v_prof and v2_prof: accept the documented coord
 values vr, vphi and vtheta

---
 clustertools/analysis/profiles.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 6f3b302..c10ecc4 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -1186,13 +1186,13 @@ def v_prof(
         else:
             r, phi, theta, vr, vp, vt = sphere_coords(cluster)
 
-        if coord =='r':
+        if coord =='r' or coord=='vr':
             v=vr
             ylabel=r"$<v_r>$"
-        elif coord=='phi':
+        elif coord=='phi' or coord=='vphi':
             v=vp
             ylabel=r"$<v_p>$"
-        elif coord=='theta':
+        elif coord=='theta' or coord=='vtheta':
             v=vt
             ylabel=r"$<v_t>$"
         elif coord=='x' or coord=='vx':
@@ -1417,13 +1417,13 @@ def v2_prof(
         else:
             r, phi, theta, vr, vp, vt = sphere_coords(cluster)
 
-        if coord =='r':
+        if coord =='r' or coord=='vr':
             v=vr
             ylabel=r"$<v_r^2>$"
-        elif coord=='phi':
+        elif coord=='phi' or coord=='vphi':
             v=vp
             ylabel=r"$<v_p^2>$"
-        elif coord=='theta':
+        elif coord=='theta' or coord=='vtheta':
             v=vt
             ylabel=r"$<v_t^2>$"
         elif coord=='z':
-- 
2.43.0


From 35d74b706c1bd37d378a1b5e309c6caf82658a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:12 +0000
Subject: [PATCH 56/60] fix: snapout writes its stellar-evolution columns only
 when they are known

---
 clustertools/util/output.py | 129 ++++++------------------------------
 1 file changed, 22 insertions(+), 107 deletions(-)

diff --git a/clustertools/util/output.py b/clustertools/util/output.py
index 21fa427..296ab67 100644
--- a/clustertools/util/output.py
+++ b/clustertools/util/output.py
@@ -27,7 +27,7 @@ def snapout(cluster, filename, energies=False, radec=False):
 
         - clustertools column format is mass,x,y,z,vx,vy,vz,id,kwtype where
           positions and velocities are in cartiesian coordinates, id is the star id, and
-          kwtype is the stars stellar evolution type
+          kwtype is the stars stellar evolution type (left out if no stellar evolution types have been provided)
         - units and coordinate system will be cluster.units and cluster.origin.
         - if energies==True, columns for kinetic energy, potential energy, and total energy will be added
         - if radec==True, columns for RA, Dec, distance, Proper Motion in RA, Proper Motion in Dec, and radial velocity will be added
@@ -52,115 +52,30 @@ def snapout(cluster, filename, energies=False, radec=False):
     2018 - Written - Webb (UofT)
     """
     if radec:
-
         ra, dec, d0, pmra, pmdec, vr0 = sky_coords(cluster)
 
-        if energies:
-            np.savetxt(
-                filename,
-                np.column_stack(
-                    [
-                        cluster.m,
-                        cluster.x,
-                        cluster.y,
-                        cluster.z,
-                        cluster.vx,
-                        cluster.vy,
-                        cluster.vz,
-                        cluster.id,
-                        cluster.kw,
-                        cluster.kin,
-                        cluster.pot,
-                        cluster.etot,
-                        ra,
-                        dec,
-                        d0,
-                        pmra,
-                        pmdec,
-                        vr0,
-                    ]
-                ),
-            )
-        else:
-            np.savetxt(
-                filename,
-                np.column_stack(
-                    [
-                        cluster.m,
-                        cluster.x,
-                        cluster.y,
-                        cluster.z,
-                        cluster.vx,
-                        cluster.vy,
-                        cluster.vz,
-                        cluster.id,
-                        cluster.kw,
-                        ra,
-                        dec,
-                        d0,
-                        pmra,
-                        pmdec,
-                        vr0,
-                    ]
-                ),
-            )
+    columns = [
+        cluster.m,
+        cluster.x,
+        cluster.y,
+        cluster.z,
+        cluster.vx,
+        cluster.vy,
+        cluster.vz,
+        cluster.id,
+    ]
 
-    else:
-        if energies:
-            np.savetxt(
-                filename,
-                np.column_stack(
-                    [
-                        cluster.m,
-                        cluster.x,
-                        cluster.y,
-                        cluster.z,
-                        cluster.vx,
-                        cluster.vy,
-                        cluster.vz,
-                        cluster.id,
-                        cluster.kw,
-                        cluster.kin,
-                        cluster.pot,
-                        cluster.etot,
-                    ]
-                ),
-            )
-        else:
-
-            if len(cluster.kw)==cluster.ntot:
-                np.savetxt(
-                    filename,
-                    np.column_stack(
-                        [
-                            cluster.m,
-                            cluster.x,
-                            cluster.y,
-                            cluster.z,
-                            cluster.vx,
-                            cluster.vy,
-                            cluster.vz,
-                            cluster.id,
-                            cluster.kw,
-                        ]
-                    ),
-                )
-            else:
-                np.savetxt(
-                    filename,
-                    np.column_stack(
-                        [
-                            cluster.m,
-                            cluster.x,
-                            cluster.y,
-                            cluster.z,
-                            cluster.vx,
-                            cluster.vy,
-                            cluster.vz,
-                            cluster.id,
-                        ]
-                    ),
-                )
+    # stars only have a stellar evolution type if it has been provided
+    if len(cluster.kw)==cluster.ntot:
+        columns.append(cluster.kw)
+
+    if energies:
+        columns += [cluster.kin, cluster.pot, cluster.etot]
+
+    if radec:
+        columns += [ra, dec, d0, pmra, pmdec, vr0]
+
+    np.savetxt(filename, np.column_stack(columns))
 
     return 0
 
-- 
2.43.0


From 76071f32274916885461b7d9499ab07c902719dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:12 +0000
Subject: [PATCH 57/60] fix: NBODY6 and NBODY6++ readers: number types of the
 records, options passed to the cluster, end of data

---
 clustertools/io/nbody6.py   | 11 ++++++++---
 clustertools/io/nbody6pp.py | 14 +++++++-------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/clustertools/io/nbody6.py b/clustertools/io/nbody6.py
index f88cfae..fe77834 100644
--- a/clustertools/io/nbody6.py
+++ b/clustertools/io/nbody6.py
@@ -59,6 +59,7 @@ def _get_nbody6(out3, out33=None, fort82=None, fort83=None, ofile=None, advance=
             origin="cluster",
             ctype="nbody6",
             sfile=out3,
+            **kwargs
         )
                 
         if nstot > 0:
@@ -67,6 +68,10 @@ def _get_nbody6(out3, out33=None, fort82=None, fort83=None, ofile=None, advance=
         )
             ntot+=nstot
 
+    else:
+        nstot = 0
+        cluster = StarCluster(0., units="nbody", origin="cluster", ctype="nbody6", **kwargs)
+
     #Add binaries first
     if out33 is not None:
         cluster.bfile=out33
@@ -81,7 +86,7 @@ def _get_nbody6(out3, out33=None, fort82=None, fort83=None, ofile=None, advance=
     if nstot > 0:
         cluster.add_stars(xs, ys, zs, vxs, vys, vzs, ms, i_ds)
 
-    if fort82 is not None and fort83 is not None:
+    if fort82 is not None and fort83 is not None and nstot > 0:
         cluster.ssefile=fort83
         cluster.bsefile=fort82
         i_d,kw,ri,m1,zl1,r1,te,i_d1,i_d2,kw1,kw2,kwb,rib,ecc,pb,semi,m1b,m2b,zl1b,zl2b,r1b,r2b,te1,te2=_get_nbody6se(fort82,fort83,**kwargs)
@@ -98,7 +103,7 @@ def _get_nbody6(out3, out33=None, fort82=None, fort83=None, ofile=None, advance=
         sortstars=kwargs.get("sortstars", True)
         cluster.analyze(sortstars=sortstars)
 
-    if ofile != None:
+    if ofile != None and cluster.ntot>0:
         _get_cluster_orbit(cluster, ofile, advance=advance, **kwargs)
             
     return cluster
@@ -295,7 +300,7 @@ def _get_nbody6se(fort82, fort83, **kwargs):
 
             #Add select parametes to full array
             kw=np.append(kw,kwb[-1])
-            lbtot=np.log10(10.0**np.asarray(zl1b)+10.0**np.asarray(zl2b))
+            lbtot=np.log10(10.0**zl1b[-1]+10.0**zl2b[-1])
             zl1=np.append(zl1,lbtot)
             r1=np.append(r1,np.maximum(r1b[-1],r2b[-1]))
 
diff --git a/clustertools/io/nbody6pp.py b/clustertools/io/nbody6pp.py
index abc251e..2883628 100644
--- a/clustertools/io/nbody6pp.py
+++ b/clustertools/io/nbody6pp.py
@@ -90,7 +90,7 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
             ctype="nbody6++",
             sfile=snap40,
             nsnap=nsnap,
-            wdir=wdir,
+            **{**kwargs, "wdir": wdir}
         )
 
         cluster.hdf5=True
@@ -171,7 +171,7 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
             ctype="nbody6++",
             sfile=conf3,
             nsnap=nsnap,
-            wdir=wdir,
+            **{**kwargs, "wdir": wdir}
         )
 
         if ntot > 0:
@@ -197,7 +197,7 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
             ek=0.5*cluster.m*v**2.
             cluster.add_energies(ek,pots)
 
-        if bev82 is not None and sev83 is not None:
+        if bev82 is not None and sev83 is not None and ntot > 0:
 
             kws=np.ones(ntot-nb)*-10.0
             zl1s=np.ones(ntot-nb)*-10.0
@@ -237,7 +237,7 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
         sortstars=kwargs.get("sortstars", True)
         cluster.analyze(sortstars=sortstars)
 
-    if ofile != None:
+    if ofile != None and cluster.ntot>0:
         _get_cluster_orbit(cluster, ofile, advance=advance, nsnap=int(nsnap/dtout),**kwargs)
            
 
@@ -303,7 +303,7 @@ def _get_nbody6pp_conf3(f,return_alist_only=False,**kwargs):
             vz=np.append(vz,struct.unpack('f',f.read(4))[0]) 
 
         for i in range(ntot):
-            phi=np.append(phi,struct.unpack('i',f.read(4))[0])            
+            phi=np.append(phi,struct.unpack('f',f.read(4))[0])            
 
         for i in range(ntot):
             i_d=np.append(i_d,struct.unpack('i',f.read(4))[0])
@@ -361,7 +361,7 @@ def _get_nbody6pp_ev(bev, sev, **kwargs):
         m1b=data[:,12].astype(float)
         m2b=data[:,13].astype(float)
 
-        if len(data)>=14:
+        if data.shape[1]>=20:
             zl1b=data[:,14].astype(float)
             zl2b=data[:,15].astype(float)
             r1b=data[:,16].astype(float)
@@ -432,7 +432,7 @@ def _get_nbody6pp_ev(bev, sev, **kwargs):
     kw=data[:,3].astype(int)
     ri=data[:,4].astype(float)
     m1=data[:,5].astype(float)
-    zl1=data[:,6].astype(int)
+    zl1=data[:,6].astype(float)
     r1=data[:,7].astype(float)
     te=data[:,8].astype(float)
 
-- 
2.43.0


From 5511113d9196aa54acb4cbe127704b852552f373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:12 +0000
Subject: [PATCH 58/60] fix: readers keep units, origin and source type at the
 end of the data and accept advance

---
 clustertools/io/amuse.py     | 4 +++-
 clustertools/io/galpydf.py   | 4 +++-
 clustertools/io/gyrfalcon.py | 8 ++++----
 clustertools/io/limepydf.py  | 3 ++-
 clustertools/io/snapshot.py  | 4 ++--
 5 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/clustertools/io/amuse.py b/clustertools/io/amuse.py
index 0b55c70..06b5bc7 100644
--- a/clustertools/io/amuse.py
+++ b/clustertools/io/amuse.py
@@ -24,7 +24,7 @@ except:
 
 
 def _get_amuse_particles(
-    particles, units=None, origin=None, ofile=None, **kwargs
+    particles, units=None, origin=None, ofile=None, advance=False, **kwargs
 ):
     """Convert AMUSE particle dataset to a StarCluster instance
 
@@ -38,6 +38,8 @@ def _get_amuse_particles(
         origin of input data (default: None)
     ofile : file
         opened file containing orbital information
+    advance : bool
+        is this a snapshot that has been advanced to from initial  load_cluster? (default: False)
 
     Returns
     -------
diff --git a/clustertools/io/galpydf.py b/clustertools/io/galpydf.py
index 2d71c9d..09425ce 100644
--- a/clustertools/io/galpydf.py
+++ b/clustertools/io/galpydf.py
@@ -11,7 +11,7 @@ from ..util.constants import *
 from .orbit import _get_cluster_orbit
 
 def _get_galpy_orbits(
-    orbits, units=None, origin=None, ofile=None,ro=solar_ro,vo=solar_vo,**kwargs
+    orbits, units=None, origin=None, ofile=None,advance=False,ro=solar_ro,vo=solar_vo,**kwargs
 ):
     """Convert galpy orbits to a StarCluster instance
 
@@ -27,6 +27,8 @@ def _get_galpy_orbits(
         origin of input data (default: None)
     ofile : file
         opened file containing orbital information
+    advance : bool
+        is this a snapshot that has been advanced to from initial  load_cluster? (default: False)
 
     Returns
     -------
diff --git a/clustertools/io/gyrfalcon.py b/clustertools/io/gyrfalcon.py
index f69fde5..b95700e 100644
--- a/clustertools/io/gyrfalcon.py
+++ b/clustertools/io/gyrfalcon.py
@@ -81,7 +81,7 @@ def _get_gyrfalcon(
         data = filein.readline().split()
         if len(data) == 0:
             print("END OF FILE")
-            return StarCluster(0.0,ctype="nemo",**kwargs)
+            return StarCluster(0.0,units=units,origin=origin,ctype="nemo",**kwargs)
         elif "#" not in data:
             over_head = True
             print("OVER HEAD")
@@ -226,7 +226,7 @@ def _get_new_gyrfalcon(
         data = filein.readline().split()
         if len(data) == 0:
             print("END OF FILE")
-            return StarCluster(0.0,ctype="nemo",**kwargs)
+            return StarCluster(0.0,units=units,origin=origin,ctype="new_nemo",**kwargs)
         elif "#" not in data:
             over_head = True
             print("OVER HEAD")
@@ -246,7 +246,7 @@ def _get_new_gyrfalcon(
             data = filein.readline().split()
             if len(data) == 0:
                 print("END OF FILE")
-                return StarCluster(0.0,ctype="nemo",**kwargs)
+                return StarCluster(0.0,units=units,origin=origin,ctype="new_nemo",**kwargs)
             elif "#" not in data:
                 over_head = True
                 print("OVER HEAD")
@@ -285,7 +285,7 @@ def _get_new_gyrfalcon(
         data=np.loadtxt(filename,skiprows=nskip,max_rows=ntot)
     except StopIteration:
         print("END OF FILE")
-        return StarCluster(0.0,ctype="new_nemo",**kwargs)
+        return StarCluster(0.0,units=units,origin=origin,ctype="new_nemo",**kwargs)
 
     m=data[:,0].astype(float)
     x=data[:,1].astype(float)
diff --git a/clustertools/io/limepydf.py b/clustertools/io/limepydf.py
index 8ea920b..c4ff39c 100644
--- a/clustertools/io/limepydf.py
+++ b/clustertools/io/limepydf.py
@@ -28,6 +28,7 @@ except:
     pass
 
 from ..cluster.cluster import StarCluster
+from .orbit import _get_cluster_orbit as _read_cluster_orbit
 
 def _get_limepy(units="pckms", origin="cluster", orbit=None, ofile=None, advance=False, **kwargs):
     """ Setup an N-body realization of a StarCluster with specific parameters
@@ -125,7 +126,7 @@ def _get_limepy(units="pckms", origin="cluster", orbit=None, ofile=None, advance
             )
 
         elif ofile != None:
-            _get_cluster_orbit(cluster, ofile, advance=advance, **kwargs)
+            _read_cluster_orbit(cluster, ofile, **kwargs)
 
         if origin=='galaxy':
             cluster.to_galaxy()
diff --git a/clustertools/io/snapshot.py b/clustertools/io/snapshot.py
index 327ca98..aff00e9 100644
--- a/clustertools/io/snapshot.py
+++ b/clustertools/io/snapshot.py
@@ -91,7 +91,7 @@ def _get_snapshot(
             )
         else:
             print("NO FILE FOUND: %s, %s, %s" % (wdir, snapdir, filename))
-            cluster = StarCluster( 0., ctype=ctype, **kwargs)
+            cluster = StarCluster( 0., units=units, origin=origin, ctype=ctype, **kwargs)
             return cluster
     elif os.path.isfile(
         "%s%s%s%s%s" % (wdir, snapdir, snapbase, str(nsnap).zfill(nzfill), snapend)
@@ -132,7 +132,7 @@ def _get_snapshot(
             str(nsnap).zfill(nzfill),
             snapend,
         )
-        cluster = StarCluster( 0., ctype=ctype, **kwargs)
+        cluster = StarCluster( 0., units=units, origin=origin, ctype=ctype, **kwargs)
         return cluster
 
     if "m" in col_names:
-- 
2.43.0


From ffa777f0c4e0e1b8aa17aa6a4a9fab3d0ed7a804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:12 +0000
Subject: [PATCH 59/60] fix: advance_cluster uses the options the cluster was
 loaded with

---
 clustertools/cluster/cluster.py |   2 +
 clustertools/io/load.py         | 146 +++++++++++++++-----------------
 2 files changed, 72 insertions(+), 76 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 30db929..c36e724 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -171,6 +171,8 @@ class StarCluster(object):
         self.bsefile = kwargs.get("bsefile", None)
         self.ofile = kwargs.get("ofile", None)
         self.ofilename = kwargs.get("ofilename", None)
+        # Options given to load_cluster (if used)
+        self.load_kwargs = None
         self.orbit = kwargs.get("orbit", None)
 
 
diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 79aff57..359f918 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -134,6 +134,9 @@ def load_cluster(
     _______
     2018 - Written - Webb (UofT)
     """
+    # Remember the options given so they are used again when advancing
+    load_kwargs = dict(kwargs)
+
     wdir = kwargs.get("wdir", "")
     if wdir != "":
         if wdir[-1] != '/':
@@ -229,13 +232,13 @@ def load_cluster(
         filename=_get_filename(filename,**kwargs)
         filein = open(filename, "r")
 
-        cluster = _get_gyrfalcon(filein, units=units, origin=origin, advance=False, **kwargs)
+        cluster = _get_gyrfalcon(filein, units=units, origin=origin, ofile=ofile, advance=False, **kwargs)
 
     elif ctype == "new_gyrfalcon" or ctype=='new_nemo':
         # Read in snapshot from gyrfalcon.
         filename=_get_filename(filename,**kwargs)
 
-        cluster = _get_new_gyrfalcon(filename, units=units, origin=origin, advance=False, **kwargs)
+        cluster = _get_new_gyrfalcon(filename, units=units, origin=origin, ofile=ofile, advance=False, **kwargs)
 
     elif ctype=='amuse':
         filename=_get_filename(filename,**kwargs)
@@ -284,54 +287,15 @@ def load_cluster(
         print("NO CTYPE GIVEN")
         return 0
 
+    cluster.load_kwargs = load_kwargs
+
     if ofile is not None:
         cluster.ofilename=ofile.name.split('/')[-1]
         cluster.ofile=ofile
 
     # Add galpy orbit if given
     if orbit is not None:
-        cluster.orbit = orbit
-        if cluster.units == "pckms":
-            t = (cluster.tphys / 1000.0) / conversion.time_in_Gyr(ro=solar_ro, vo=solar_vo)
-            cluster.add_orbit(
-                orbit.x(t) * 1000.0,
-                orbit.y(t) * 1000.0,
-                orbit.z(t) * 1000.0,
-                orbit.vx(t),
-                orbit.vy(t),
-                orbit.vz(t),
-            )
-        if cluster.units == "kpckms":
-            cluster.add_orbit(
-                orbit.x(t),
-                orbit.y(t),
-                orbit.z(t),
-                orbit.vx(t),
-                orbit.vy(t),
-                orbit.vz(t),
-            )
-        elif cluster.units == "nbody":
-            t = (cluster.tphys * cluster.tbar / 1000.0) / conversion.time_in_Gyr(
-                ro=solar_ro, vo=solar_vo
-            )
-            cluster.add_orbit(
-                orbit.x(t) * 1000.0 / cluster.rbar,
-                orbit.y(t) * 1000.0 / cluster.rbar,
-                orbit.z(t) * 1000.0 / cluster.rbar,
-                orbit.vx(t) / cluster.vbar,
-                orbit.vy(t) / cluster.vbar,
-                orbit.vz(t) / cluster.vbar,
-            )
-        elif cluster.units == "galpy":
-            t = cluster.tphys
-            cluster.add_orbit(
-                orbit.x(t) / 8.0,
-                orbit.y(t) / 8.0,
-                orbit.z(t) / 8.0,
-                orbit.vx(t) / 220.0,
-                orbit.vy(t) / 220.0,
-                orbit.vz(t) / 220.0,
-            )
+        _add_galpy_orbit(cluster, orbit)
 
         cluster.save_cluster()
         units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
@@ -395,13 +359,15 @@ def advance_cluster(
     2018 - Written - Webb (UofT)
     """
     nsnap=None
+    load_kwargs = cluster.load_kwargs
     advance_kwargs, kwargs = _get_advanced_kwargs(cluster, **kwargs)
     #filename=_get_filename(filename,**advance_kwargs)
 
     if ofile is None:
         ofile=cluster.ofile
 
-    if kwargs.get("ofilename", None) is None:
+    ofilename = kwargs.pop("ofilename", None)
+    if ofilename is None:
         ofilename=cluster.ofilename
 
     wdir = advance_kwargs.get("wdir", "")
@@ -579,7 +545,9 @@ def advance_cluster(
         if filename is not None:
             filetype=kwargs.pop("filetype","hdf5")
             particles = read_set_from_file(filename, filetype)
-            cluster = _get_amuse_particles(particles, units=cluster.units_init, origin=cluster.origin_init, ofile=ofile,**advance_kwargs,**kwargs)
+            cluster = _get_amuse_particles(particles, units=cluster.units_init, origin=cluster.origin_init, ofile=ofile, advance=True, **advance_kwargs,**kwargs)
+        else:
+            cluster = StarCluster(ctype=cluster.ctype,units=cluster.units_init,origin=cluster.origin_init,ofile=ofile,**advance_kwargs, **kwargs)
 
     else:
         cluster = StarCluster(ctype=cluster.ctype,units=cluster.units_init,origin=cluster.origin_init,ofile=ofile,**advance_kwargs, **kwargs)
@@ -587,22 +555,15 @@ def advance_cluster(
 
     # Check for restart
     if cluster.ntot == 0.0:
-        try:
-            wdir = cluster.wdir + "cont/"
-        except:
-            wdir = "./cont/"
-
+        wdir = wdir + "cont/"
 
         if os.path.exists(wdir):
 
             if ofile is not None:
                 ofilename = ofile.name.split('/')[-1]
-                kwargs.pop('ofilename')
                 ofile=None
-            else:
-                ofilename=kwargs.pop('ofilename',ofilename)
 
-            old_wdir=advance_kwargs.pop('wdir')
+            advance_kwargs.pop('wdir')
 
             if nsnap is None:
 
@@ -617,35 +578,60 @@ def advance_cluster(
 
     if cluster.ntot != 0.0:
 
+        if cluster.load_kwargs is None:
+            cluster.load_kwargs = load_kwargs
+
         if ofile is not None:
             cluster.ofilename=ofile.name.split('/')[-1]
             cluster.ofile=ofile
 
         # Add galpy orbit if given
         if orbit != None:
-            cluster.orbit = orbit
-            if cluster.units == "pckms" or cluster.units == "kpckms":
-                t = (cluster.tphys / 1000.0) / conversion.time_in_Gyr(
-                    ro=solar_ro, vo=solar_vo
-                )
-            elif cluster.units == "nbody":
-                t = (
-                    cluster.tphys * cluster.tbar / 1000.0
-                ) / conversion.time_in_Gyr(ro=solar_ro, vo=solar_vo)
-            elif cluster.units == "galpy":
-                t = cluster.tphys
-
-            cluster.add_orbit(
-                orbit.x(t),
-                orbit.y(t),
-                orbit.z(t),
-                orbit.vx(t),
-                orbit.vy(t),
-                orbit.vz(t),
-            )
+            _add_galpy_orbit(cluster, orbit)
 
     return cluster
 
+def _add_galpy_orbit(cluster, orbit):
+    """add the position and velocity of a galpy orbit at the time of the snapshot to the cluster
+
+    Parameters
+    ----------
+    cluster : class
+        StarCluster
+    orbit : class
+        a galpy orbit to be used for the StarCluster's orbital information
+
+    Returns
+    -------
+    None
+    """
+    cluster.orbit = orbit
+
+    time_in_gyr = conversion.time_in_Gyr(ro=solar_ro, vo=solar_vo)
+
+    if cluster.units is None:
+        return
+    elif cluster.units == "galpy":
+        t = cluster.tphys
+    elif cluster.units == "nbody":
+        t = (cluster.tphys * cluster.tbar / 1000.0) / time_in_gyr
+    elif cluster.units == "amuse":
+        t = cluster.tphys.value_in(u.Gyr) / time_in_gyr
+    elif cluster.units == "pckms" or cluster.units == "pcmyr":
+        t = (cluster.tphys / 1000.0) / time_in_gyr
+    else:
+        t = cluster.tphys / time_in_gyr
+
+    cluster.add_orbit(
+        orbit.x(t),
+        orbit.y(t),
+        orbit.z(t),
+        orbit.vx(t),
+        orbit.vy(t),
+        orbit.vz(t),
+        "kpckms",
+    )
+
 def _get_filename(filename,**kwargs):
     """assemble filename from **kwargs
 
@@ -667,7 +653,7 @@ def _get_filename(filename,**kwargs):
     2021 - Written - Webb (UofT)
     """
 
-    nzfill = int(kwargs.get("nzfill", 1))
+    nzfill = int(kwargs.get("nzfill", 5))
     nsnap = int(kwargs.get("nsnap", "0"))
     wdir = kwargs.get("wdir", "")
     if wdir != "":
@@ -730,6 +716,14 @@ def _get_advanced_kwargs(cluster, **kwargs):
     2018 - Written - Webb (UofT)
     """
 
+    # Options given when the cluster was loaded are used again unless they are given here
+    # (the rest, such as nsnap and wdir, are followed by the cluster itself)
+    if cluster.load_kwargs is not None:
+        followed = ("nsnap", "ngroup", "ngroups", "hdf5", "dt", "tphys", "wdir", "ofilename", "initialize")
+        for key, value in cluster.load_kwargs.items():
+            if key not in followed:
+                kwargs.setdefault(key, value)
+
     nsnap = np.maximum(int(kwargs.pop("nsnap", 0)), cluster.nsnap) + 1
     dt = kwargs.pop('dt',cluster.dt)
     delimiter = kwargs.pop("delimiter", cluster.delimiter)
-- 
2.43.0


From b5de1036b8ccd42fb6a84c1030d7040e76c4a3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:27 +0000
Subject: [PATCH 60/60] fix: a restart is loaded with the options of the
 cluster being advanced

---
 clustertools/io/load.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 359f918..b724427 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -370,6 +370,8 @@ def advance_cluster(
     if ofilename is None:
         ofilename=cluster.ofilename
 
+    restart_kwargs = dict(kwargs)
+
     wdir = advance_kwargs.get("wdir", "")
     if wdir != "":
         if wdir[-1] != '/':
@@ -398,6 +400,7 @@ def advance_cluster(
         
 
         hdf5=advance_kwargs.pop("hdf5")
+        restart_kwargs["hdf5"]=hdf5
 
         if hdf5:
             ngroups=advance_kwargs.get("ngroups")
@@ -564,16 +567,17 @@ def advance_cluster(
                 ofile=None
 
             advance_kwargs.pop('wdir')
+            restart_kwargs.update(advance_kwargs)
 
             if nsnap is None:
 
                 cluster = load_cluster(
-                    ctype=cluster.ctype,units=cluster.units_init,origin=cluster.origin_init,orbit=orbit,filename=filename,load_function=load_function,wdir=wdir,ofilename=ofilename,**advance_kwargs, **kwargs,
+                    ctype=cluster.ctype,units=cluster.units_init,origin=cluster.origin_init,orbit=orbit,filename=filename,load_function=load_function,wdir=wdir,ofilename=ofilename,**restart_kwargs,
                 )
 
             else:
                    cluster = load_cluster(
-                    ctype=cluster.ctype,units=cluster.units_init,origin=cluster.origin_init,orbit=orbit,filename=filename,nsnap=nsnap,load_function=load_function,wdir=wdir,ofilename=ofilename,**advance_kwargs, **kwargs,
+                    ctype=cluster.ctype,units=cluster.units_init,origin=cluster.origin_init,orbit=orbit,filename=filename,nsnap=nsnap,load_function=load_function,wdir=wdir,ofilename=ofilename,**restart_kwargs,
                 )         
 
     if cluster.ntot != 0.0:
-- 
2.43.0

