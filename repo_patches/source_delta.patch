From a5a406087f2adc2e68c7ccc985e775d53005ae70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 001/133] fix: returning from radec restores the centre as an
 offset from the cluster's position

---
 clustertools/cluster/operations.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index db30073..aed720f 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -565,26 +565,23 @@ def from_radec(cluster, sortstars=True):
             if cluster.orbits is None: cluster.initialize_orbits(ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
 
 
-            if cluster.xcn is not None:
-                cluster.xc,cluster.yc,cluster.zc=cluster.xcn,cluster.ycn,cluster.zcn
-                cluster.xc*=cluster.rbar/1000.
-                cluster.yc*=cluster.rbar/1000.
-                cluster.zc*=cluster.rbar/1000.
-                cluster.vxc=0.
-                cluster.vyc=0.
-                cluster.vzc=0.
+            if (cluster.ra_c,cluster.dec_c,cluster.dist_c,cluster.pmra_c,cluster.pmdec_c,cluster.vlos_c)==(0.,0.,0.,0.,0.,0.):
+                # No centre has been set on the sky
+                cluster.xc,cluster.yc,cluster.zc=0.,0.,0.
+                cluster.vxc,cluster.vyc,cluster.vzc=0.,0.,0.
 
             else:
                 oc = Orbit(
                     [cluster.ra_c,cluster.dec_c,cluster.dist_c,cluster.pmra_c,cluster.pmdec_c,cluster.vlos_c], radec=True,ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
                 )
 
-                cluster.xc=oc.x()
-                cluster.yc=oc.y()
-                cluster.zc=oc.z()
-                cluster.vxc=oc.vx()
-                cluster.vyc=oc.vy()
-                cluster.vzc=oc.vz()
+                # The centre is stored as an offset from the cluster's orbital position
+                cluster.xc=oc.x()-cluster.orbit.x()
+                cluster.yc=oc.y()-cluster.orbit.y()
+                cluster.zc=oc.z()-cluster.orbit.z()
+                cluster.vxc=oc.vx()-cluster.orbit.vx()
+                cluster.vyc=oc.vy()-cluster.orbit.vy()
+                cluster.vzc=oc.vz()-cluster.orbit.vz()
 
             cluster.x = cluster.orbits.x()
             cluster.y = cluster.orbits.y()
-- 
2.43.0


From 4c383b8eb8252b3c7022e7a1d004c257d235bac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 002/133] fix: orthographic offsets from the centre use the
 centre's proper motion

---
 clustertools/cluster/operations.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index aed720f..4382d30 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -1128,14 +1128,15 @@ def _get_orthographic_centre(cluster,from_centre=False):
             + np.sin(dec) * np.sin(dec_gc) * np.cos(ra - ra_gc)
         )
 
-        cluster.vx-=cluster.vxgc
-        cluster.vy-=cluster.vygc
-
         if from_centre:
             cluster.z -= cluster.zc
+            cluster.vx -= cluster.vxc
+            cluster.vy -= cluster.vyc
             cluster.vz -= cluster.vzc
         else:
             cluster.z -= cluster.zgc
+            cluster.vx -= cluster.vxgc
+            cluster.vy -= cluster.vygc
             cluster.vz -= cluster.vzgc
 
 def _get_vandeven_centre(cluster,from_centre=False):
-- 
2.43.0


From dc4f3c47384b3bb924fc0f61fa66ec2fa67e4cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 003/133] fix: sky coordinates follow the cluster's current
 positions, not an outdated orbit

---
 clustertools/cluster/operations.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index 4382d30..0b7046b 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -469,8 +469,10 @@ def to_radec(cluster, sortstars=True,centre_method=None,analyze=True):
             cluster.to_kpckms(analyze=False)
             cluster.to_galaxy()
 
-            if cluster.orbit is None: cluster.initialize_orbit(ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
-            if cluster.orbits is None: cluster.initialize_orbits(ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+            # Use orbits of the current state, as existing ones may be outdated
+            orbit0=cluster.orbit
+            cluster.initialize_orbit(ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+            cluster.initialize_orbits(ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
 
             R, phi, z = coords.rect_to_cyl(cluster.xgc+cluster.xc, cluster.ygc+cluster.yc, cluster.zgc+cluster.zc)
             vR, vT, vz = coords.rect_to_cyl_vec(cluster.vxgc+cluster.vxc, cluster.vygc+cluster.vyc, cluster.vzgc+cluster.vzc,cluster.xgc+cluster.xc, cluster.ygc+cluster.yc, cluster.zgc+cluster.zc)
@@ -493,6 +495,8 @@ def to_radec(cluster, sortstars=True,centre_method=None,analyze=True):
             cluster.pmdec_gc=cluster.orbit.pmdec()
             cluster.vlos_gc=cluster.orbit.vlos()
 
+            if orbit0 is not None: cluster.orbit=orbit0
+
             cluster.ra_c=oc.ra()
             cluster.dec_c=oc.dec()
             cluster.dist_c=oc.dist()
@@ -561,8 +565,10 @@ def from_radec(cluster, sortstars=True):
 
         if cluster.units == "radec" and cluster.origin == "sky":
 
-            if cluster.orbit is None: cluster.initialize_orbit(ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
-            if cluster.orbits is None: cluster.initialize_orbits(ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+            # Use orbits of the current state, as existing ones may be outdated
+            orbit0=cluster.orbit
+            cluster.initialize_orbit(ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+            cluster.initialize_orbits(ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
 
 
             if (cluster.ra_c,cluster.dec_c,cluster.dist_c,cluster.pmra_c,cluster.pmdec_c,cluster.vlos_c)==(0.,0.,0.,0.,0.,0.):
@@ -597,6 +603,8 @@ def from_radec(cluster, sortstars=True):
             cluster.vygc = cluster.orbit.vy()
             cluster.vzgc = cluster.orbit.vz()
 
+            if orbit0 is not None: cluster.orbit=orbit0
+
             cluster.origin = "galaxy"
             cluster.units = "kpckms"
 
-- 
2.43.0


From aef50764565fa37755dc81821ce9fc38a19c6249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 004/133] fix: right ascension offsets from the centre wrap at
 ra = 0

---
 clustertools/cluster/operations.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index 0b7046b..5540a9f 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -964,7 +964,10 @@ def to_centre(cluster, sortstars=True, centre_method=None):
                     if cluster.centre_method == "VandeVen":
                         _get_vandeven_centre(cluster,from_centre=True)
                     else:
-                        cluster.x = (cluster.x - cluster.xc) * np.cos(np.radians(cluster.yc))
+                        # Shortest difference in right ascension, as the cluster can straddle ra = 0
+                        dra = cluster.x - cluster.xc
+                        dra -= 360.0 * np.round(dra / 360.0)
+                        cluster.x = dra * np.cos(np.radians(cluster.yc))
                         cluster.y = cluster.y - cluster.yc
 
                         cluster.z -= cluster.zc
@@ -1064,7 +1067,10 @@ def to_cluster(cluster, sortstars=True, centre_method=None):
                     if cluster.centre_method == "VandeVen":
                         _get_vandeven_centre(cluster)
                     else:
-                        cluster.x = (cluster.x - cluster.xgc) * np.cos(np.radians(cluster.ygc))
+                        # Shortest difference in right ascension, as the cluster can straddle ra = 0
+                        dra = cluster.x - cluster.xgc
+                        dra -= 360.0 * np.round(dra / 360.0)
+                        cluster.x = dra * np.cos(np.radians(cluster.ygc))
                         cluster.y = cluster.y - cluster.ygc
 
                         cluster.z -= cluster.zgc
-- 
2.43.0


From bc369f4ea99e092d206abc6fc6390b51c0894e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 005/133] fix: sort stars by their current radii whenever a
 sort is requested

---
 clustertools/cluster/cluster.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index e08576f..cdce2fc 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -1504,12 +1504,11 @@ class StarCluster(object):
         2018 - Written - Webb (UofT)
 
         """
-        if self. rorder is None or self.rorder_origin!=self.origin or len(self.r)!=len(self.rorder):
+        self.rorder = np.argsort(self.r)
+        self.rorder_origin=self.origin
 
-            self.rorder = np.argsort(self.r)
-            self.rorder_origin=self.origin
-
-        if (self. rproorder is None or self.rorder_origin!=self.origin or len(self.rpro)!=len(self.rproorder)) and (projected or self.projected):
+        # An existing projected order is kept up to date
+        if projected or self.projected or self.rproorder is not None:
             self.rproorder = np.argsort(self.rpro)
 
     def _analysis_check(self,sortstars=True,projected=False):
-- 
2.43.0


From 4f3533c3b32916a6a7995fbc51b6022a9966cc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 006/133] fix: stars can be added to a sorted cluster without
 sorting again

---
 clustertools/cluster/cluster.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index cdce2fc..aa85ecd 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -1403,6 +1403,9 @@ class StarCluster(object):
         self.rmeanpro = np.mean(self.rpro)
         self.rmaxpro = np.max(self.rpro)
 
+        # An existing order no longer applies once stars have been added
+        if self.rorder is not None and len(self.rorder)!=len(self.r): sortstars=True
+
         if sortstars: self.sortstars(projected=projected)
 
         # Find half-mass radius
-- 
2.43.0


From c64b05e803a11964b8b74d9c82db73b463ddd438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 007/133] fix: stars can be added to a cluster whose earlier
 stars have luminosities

---
 clustertools/cluster/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index aa85ecd..a649d9d 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -1425,7 +1425,7 @@ class StarCluster(object):
             self.r10pro = self.rpro[self.rproorder[indx][0]]
 
 
-        if len(self.lum) > 0 and self.rorder is not None:
+        if len(self.lum) > 0 and len(self.lum) == len(self.r) and self.rorder is not None:
             lsum = np.cumsum(self.lum[self.rorder])
             indx = lsum >= 0.5 * self.ltot
             self.rh = self.r[self.rorder[indx][0]]
-- 
2.43.0


From c6b2444565e37d6081a682ccd7899b9700a96818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 008/133] fix: add_sse with an index array stores ep and ospin
 once

---
 clustertools/cluster/cluster.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index a649d9d..f4ecc24 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -1161,26 +1161,26 @@ class StarCluster(object):
             self.kw[nstart+arg.astype(int)] = np.asarray(kw)
             self.logl[nstart+arg.astype(int)] = np.asarray(logl)
             self.logr[nstart+arg.astype(int)] = np.asarray(logr)
-            self.ep[nstart+arg.astype(int)]= np.array(ep)
-            self.ospin[nstart+arg.astype(int)] = np.array(ospin)
+            if ep is not None: self.ep[nstart+arg.astype(int)]= np.array(ep)
+            if ospin is not None: self.ospin[nstart+arg.astype(int)] = np.array(ospin)
 
         else:
             self.kw = np.append(self.kw,kw)
             self.logl = np.append(self.logl,logl)
             self.logr = np.append(self.logr,logr)
 
-        self.lum = 10.0 ** self.logl
-        self.ltot = np.sum(self.lum)
+            if ep is not None: 
+                self.ep= np.append(self.ep,np.array(ep))
+            else:
+                self.ep= np.append(self.ep,np.zeros(len(kw)))
 
-        if ep is not None: 
-            self.ep= np.append(self.ep,np.array(ep))
-        else:
-            self.ep= np.append(self.ep,np.zeros(len(kw)))
+            if ospin is not None: 
+                self.ospin = np.append(self.ospin,np.array(ospin))
+            else:
+                self.ospin = np.append(self.ospin,np.zeros(len(kw)))
 
-        if ospin is not None: 
-            self.ospin = np.append(self.ospin,np.array(ospin))
-        else:
-            self.ospin = np.append(self.ospin,np.zeros(len(kw)))
+        self.lum = 10.0 ** self.logl
+        self.ltot = np.sum(self.lum)
 
     def add_bse(
         self,
-- 
2.43.0


From afe8c279dad3ebfc34bec8b05280c70eb7e1b326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 009/133] fix: centres of mass of binaries added one at a time
 or in several steps

---
 clustertools/cluster/cluster.py | 56 +++++++++++++++------------------
 1 file changed, 25 insertions(+), 31 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index f4ecc24..4588859 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -491,11 +491,8 @@ class StarCluster(object):
 
         #Check for binaries
         if nb>0:
-            if nb==1:
-                arg1,arg2=0,1
-            else:
-                arg1=np.arange(0,2*nb-1,2)
-                arg2=arg1+1
+            arg1=np.arange(0,2*nb-1,2)
+            arg2=arg1+1
 
             if m is None:
                 xcom,ycom,zcom,vxcom,vycom,vzcom,mcom=self.add_binary_stars(x[arg1],y[arg1],z[arg1],vx[arg1],vy[arg1],vz[arg1],x[arg2],y[arg2],z[arg2],vx[arg2],vy[arg2],vz[arg2],return_com=True)
@@ -728,10 +725,13 @@ class StarCluster(object):
 
         """
 
-        if isinstance(xb1,float):
-            self.nb+=1
-        else:
-            self.nb+=len(xb1)
+        xb1,yb1,zb1,vxb1,vyb1,vzb1=np.atleast_1d(xb1,yb1,zb1,vxb1,vyb1,vzb1)
+        xb2,yb2,zb2,vxb2,vyb2,vzb2=np.atleast_1d(xb2,yb2,zb2,vxb2,vyb2,vzb2)
+
+        if mb1 is None: mb1=np.ones(len(xb1))
+        if mb2 is None: mb2=np.ones(len(xb2))
+
+        self.nb+=len(xb1)
 
         self.xb1=np.append(self.xb1,xb1)
         self.yb1=np.append(self.yb1,yb1)
@@ -747,23 +747,17 @@ class StarCluster(object):
         self.vyb2=np.append(self.vyb2,vyb2)
         self.vzb2=np.append(self.vzb2,vzb2)
 
-        if mb1 is not None:
-            self.mb1=np.append(self.mb1,mb1)
-        else:
-            self.mb1=np.append(self.mb1,np.ones(len(xb1)))
-        if mb2 is not None:
-            self.mb2=np.append(self.mb2,mb2)
-        else:
-            self.mb2=np.append(self.mb2,np.ones(len(xb2)))
+        self.mb1=np.append(self.mb1,mb1)
+        self.mb2=np.append(self.mb2,mb2)
 
         if set_com and not return_com:
-            mcom=self.mb1+self.mb2
-            xcom=(xb1*self.mb1+xb2*self.mb2)/mcom
-            ycom=(yb1*self.mb1+yb2*self.mb2)/mcom
-            zcom=(zb1*self.mb1+zb2*self.mb2)/mcom
-            vxcom=(vxb1*self.mb1+vxb2*self.mb2)/mcom
-            vycom=(vyb1*self.mb1+vyb2*self.mb2)/mcom
-            vzcom=(vzb1*self.mb1+vzb2*self.mb2)/mcom
+            mcom=mb1+mb2
+            xcom=(xb1*mb1+xb2*mb2)/mcom
+            ycom=(yb1*mb1+yb2*mb2)/mcom
+            zcom=(zb1*mb1+zb2*mb2)/mcom
+            vxcom=(vxb1*mb1+vxb2*mb2)/mcom
+            vycom=(vyb1*mb1+vyb2*mb2)/mcom
+            vzcom=(vzb1*mb1+vzb2*mb2)/mcom
 
             self.x = np.append(xcom,self.x)
             self.y = np.append(ycom,self.y)
@@ -823,13 +817,13 @@ class StarCluster(object):
             self.ns=self.ntot-self.nb
 
         elif return_com:
-            mcom=self.mb1+self.mb2
-            xcom=(xb1*self.mb1+xb2*self.mb2)/mcom
-            ycom=(yb1*self.mb1+yb2*self.mb2)/mcom
-            zcom=(zb1*self.mb1+zb2*self.mb2)/mcom
-            vxcom=(vxb1*self.mb1+vxb2*self.mb2)/mcom
-            vycom=(vyb1*self.mb1+vyb2*self.mb2)/mcom
-            vzcom=(vzb1*self.mb1+vzb2*self.mb2)/mcom
+            mcom=mb1+mb2
+            xcom=(xb1*mb1+xb2*mb2)/mcom
+            ycom=(yb1*mb1+yb2*mb2)/mcom
+            zcom=(zb1*mb1+zb2*mb2)/mcom
+            vxcom=(vxb1*mb1+vxb2*mb2)/mcom
+            vycom=(vyb1*mb1+vyb2*mb2)/mcom
+            vzcom=(vzb1*mb1+vzb2*mb2)/mcom
 
             return xcom,ycom,zcom,vxcom,vycom,vzcom,mcom
 
-- 
2.43.0


From e4c23934686f12d8a2ab33edca34b69b113cb686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 010/133] fix: components of binaries are stored in the order
 of their centres of mass

---
 clustertools/cluster/cluster.py | 39 +++++++++++++++++----------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 4588859..77f3bbb 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -733,22 +733,23 @@ class StarCluster(object):
 
         self.nb+=len(xb1)
 
-        self.xb1=np.append(self.xb1,xb1)
-        self.yb1=np.append(self.yb1,yb1)
-        self.zb1=np.append(self.zb1,zb1)
-        self.vxb1=np.append(self.vxb1,vxb1)
-        self.vyb1=np.append(self.vyb1,vyb1)
-        self.vzb1=np.append(self.vzb1,vzb1)
-
-        self.xb2=np.append(self.xb2,xb2)
-        self.yb2=np.append(self.yb2,yb2)
-        self.zb2=np.append(self.zb2,zb2)
-        self.vxb2=np.append(self.vxb2,vxb2)
-        self.vyb2=np.append(self.vyb2,vyb2)
-        self.vzb2=np.append(self.vzb2,vzb2)
-
-        self.mb1=np.append(self.mb1,mb1)
-        self.mb2=np.append(self.mb2,mb2)
+        # Placed in front of existing binaries, as are their centres of mass in the main arrays
+        self.xb1=np.append(xb1,self.xb1)
+        self.yb1=np.append(yb1,self.yb1)
+        self.zb1=np.append(zb1,self.zb1)
+        self.vxb1=np.append(vxb1,self.vxb1)
+        self.vyb1=np.append(vyb1,self.vyb1)
+        self.vzb1=np.append(vzb1,self.vzb1)
+
+        self.xb2=np.append(xb2,self.xb2)
+        self.yb2=np.append(yb2,self.yb2)
+        self.zb2=np.append(zb2,self.zb2)
+        self.vxb2=np.append(vxb2,self.vxb2)
+        self.vyb2=np.append(vyb2,self.vyb2)
+        self.vzb2=np.append(vzb2,self.vzb2)
+
+        self.mb1=np.append(mb1,self.mb1)
+        self.mb2=np.append(mb2,self.mb2)
 
         if set_com and not return_com:
             mcom=mb1+mb2
@@ -776,14 +777,14 @@ class StarCluster(object):
                 ids=idstart+np.linspace(0,len(xcom)-1,len(xcom))*2
             else:
                 ids=id1
-                self.id1=np.append(self.id1,id1)
+                self.id1=np.append(id1,self.id1)
 
             self.id=np.append(ids,self.id)
 
             if id2 is not None:
-                self.id2=np.append(self.id2,id2)
+                self.id2=np.append(id2,self.id2)
             else:
-                self.id2=np.append(self.id2,ids+1)
+                self.id2=np.append(ids+1,self.id2)
 
             if m01 is not None and m02 is not None:
                 self.m0=np.append(m01+m02,self.m0)
-- 
2.43.0


From b768eb624e76bd587828f79f8e3bb741c220f27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 011/133] fix: add_binary_stars keeps integer ids and a
 population number for every binary

---
 clustertools/cluster/cluster.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 77f3bbb..ea0f0af 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -774,12 +774,12 @@ class StarCluster(object):
                 else:
                     idstart=0
 
-                ids=idstart+np.linspace(0,len(xcom)-1,len(xcom))*2
+                ids=idstart+np.arange(0,len(xcom))*2
             else:
                 ids=id1
                 self.id1=np.append(id1,self.id1)
 
-            self.id=np.append(ids,self.id)
+            self.id=np.append(ids,self.id).astype(int)
 
             if id2 is not None:
                 self.id2=np.append(id2,self.id2)
@@ -797,8 +797,11 @@ class StarCluster(object):
                 self.m02=np.append(m02,self.m02)
 
             if npop1 is not None and npop2 is not None:
-                npopb=np.maximum(npop1,npop2)
-                self.npop=np.append(npopb,self.npop).astype(int)
+                npopb=np.ones(len(xcom))*np.maximum(npop1,npop2)
+            else:
+                npopb=np.ones(len(xcom))
+
+            self.npop=np.append(npopb,self.npop).astype(int)
 
             if npop1 is None:
                 self.npop1=np.append(np.ones(len(xcom)),self.npop1)
-- 
2.43.0


From 40fa35e8196a40e9412a9512ab63a99f6132f8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 012/133] fix: selecting a subset leaves the caller's mask
 alone

---
 clustertools/cluster/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index ea0f0af..aa0725c 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -3932,7 +3932,7 @@ def _get_subset(
 
     try:
 
-        indx *= (
+        indx = indx * (
             (r >= rmin)
             * (r <= rmax)
             * (cluster.m >= mmin)
-- 
2.43.0


From 9c0b7bb78d999d764a13ef93e3388fcf1bc15008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 013/133] fix: sub_cluster resets only the N-body scales it was
 asked to reset

---
 clustertools/cluster/cluster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index aa0725c..e94af2c 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -4209,11 +4209,11 @@ def sub_cluster(
         if reset_nbody:
             subcluster.to_pckms()
             subcluster.analyze()
-            subcluster.reset_nbody_scale(mass=True,radius=True,rvirial=reset_rvirial,projected=reset_projected,**kwargs)
+            subcluster.reset_nbody_scale(mass=True,radii=True,rvirial=reset_rvirial,projected=reset_projected,**kwargs)
         elif reset_nbody_mass or reset_nbody_radii:
             subcluster.to_pckms()
             subcluster.analyze()
-            subcluster.reset_nbody_scale(mass=reset_nbody_mass,radius=reset_nbody_radii,rvirial=reset_rvirial,projected=reset_projected,**kwargs)
+            subcluster.reset_nbody_scale(mass=reset_nbody_mass,radii=reset_nbody_radii,rvirial=reset_rvirial,projected=reset_projected,**kwargs)
 
     else:
         subcluster = StarCluster(cluster.tphys)
-- 
2.43.0


From 0714fc3edd1f1ae8d1f1acf57fec5bb2793a90c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 014/133] fix: sub_cluster keeps the centre on the sky

---
 clustertools/cluster/cluster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index e94af2c..38c1e02 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -4199,6 +4199,8 @@ def sub_cluster(
                 cluster.vzc,
             )
 
+            subcluster.ra_c, subcluster.dec_c, subcluster.dist_c = cluster.ra_c, cluster.dec_c, cluster.dist_c
+            subcluster.pmra_c, subcluster.pmdec_c, subcluster.vlos_c = cluster.pmra_c, cluster.pmdec_c, cluster.vlos_c
             subcluster.ra_gc, subcluster.dec_gc, subcluster.dist_gc = cluster.ra_gc, cluster.dec_gc, cluster.dist_gc
             subcluster.pmra_gc, subcluster.pmdec_gc, subcluster.vlos_gc = (
                 cluster.pmra_gc,
-- 
2.43.0


From fb20bb380df9a18780c870a56fbd4462ef3bd01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 015/133] fix: sub_cluster keeps the units of the binary data

---
 clustertools/cluster/cluster.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 38c1e02..f72df66 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -4081,6 +4081,7 @@ def sub_cluster(
 
         subcluster.projected = cluster.projected
         subcluster.centre_method = cluster.centre_method
+        subcluster.bunits = cluster.bunits
 
         if len(cluster.logl) > 0:
             if len(cluster.ep) !=0 and len(cluster.ospin) != 0:
-- 
2.43.0


From 6b26b889f968c30ac1b014473aacada9058bcc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 016/133] fix: sub_cluster keeps the total energies it selects
 by

---
 clustertools/cluster/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index f72df66..361d2ea 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -4150,7 +4150,7 @@ def sub_cluster(
 
         if len(cluster.etot) > 0:
             subcluster.add_energies(
-                cluster.kin[indx], cluster.pot[indx],
+                cluster.kin[indx], cluster.pot[indx], cluster.etot[indx],
             )
 
         if cluster.give == 'mxvpqael':
-- 
2.43.0


From 7d783dd4194f5ce09c31587ed424986596458c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 017/133] fix: reset_nbody_scale passes virial radius options
 on once

---
 clustertools/cluster/operations.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index 5540a9f..977a3bf 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -1433,13 +1433,13 @@ def reset_nbody_scale(cluster, mass=True, radii=True, rvirial=True, projected=Fa
     if radii:
         if rvirial:
 
-            method=kwargs.get("method", 'inverse_distance')
-            full=kwargs.get("full", True)
-            H = kwargs.get("H", 70.0)
-            Om = kwargs.get("Om", 0.3)
-            overdens = kwargs.get("overdens", 200.0)
-            nrad = kwargs.get("nrad", 20.0)
-            plot = kwargs.get("plot", False)
+            method=kwargs.pop("method", 'inverse_distance')
+            full=kwargs.pop("full", True)
+            H = kwargs.pop("H", 70.0)
+            Om = kwargs.pop("Om", 0.3)
+            overdens = kwargs.pop("overdens", 200.0)
+            nrad = kwargs.pop("nrad", 20.0)
+            plot = kwargs.pop("plot", False)
 
             cluster.virial_radius(method=method,full=full,
                 H=H,Om=Om,overdens=overdens,nrad=nrad,projected=projected,
-- 
2.43.0


From fab8fd3b4487bd742d8c8eb1209fbda83ded99f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 018/133] fix: virialize evaluates the current energies with
 the options it is given

---
 clustertools/cluster/cluster.py    | 2 +-
 clustertools/cluster/operations.py | 8 ++------
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 361d2ea..58fbf17 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2100,7 +2100,7 @@ class StarCluster(object):
         if projected==None:
             projected=self.projected
 
-        self.qv=virialize(self, qvir=qvir, specific=True, full=True, projected=projected,softening=softening)
+        self.qv=virialize(self, qvir=qvir, specific=specific, full=full, projected=projected,softening=softening)
 
         self.save_cluster()
         units0,origin0, rorder0, rorder_origin0 = self.units0,self.origin0, self.rorder0, self.rorder_origin0
diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index 977a3bf..674e032 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -1490,12 +1490,8 @@ def virialize(cluster, qvir=0.5, specific=True, full=full_default, projected=Fal
     if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre()
 
-    try:
-        qv = np.sqrt(np.abs(qvir / cluster.qvir))
-    except:
-        print("NEED TO CALCULATE ENERGIES FIRST")
-        cluster.energies(specific=specific, full=full, projected=projected,softening=softening)
-        qv = np.sqrt(np.abs(qvir / cluster.qvir))
+    cluster.energies(specific=specific, full=full, projected=projected,softening=softening)
+    qv = np.sqrt(np.abs(qvir / cluster.qvir))
 
     return_cluster(cluster, units0, origin0, rorder0, rorder_origin0)
 
-- 
2.43.0


From a7e17d178b0ecdbedcbd890ed41c314bb6478b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 019/133] fix: add_rotation keeps a cluster in galactocentric
 coordinates where it is

---
 clustertools/cluster/cluster.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 58fbf17..0ce30a2 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2067,9 +2067,17 @@ class StarCluster(object):
         -------
         2019 - Written - Webb (UofT)
         """
+        self.save_cluster()
+        units0,origin0, rorder0, rorder_origin0 = self.units0,self.origin0, self.rorder0, self.rorder_origin0
+
+        if self.origin0 != 'cluster' and self.origin0 != 'centre':
+            self.to_centre(sortstars=False)
+
         self.x,self.y,self.z,self.vx,self.vy,self.vz=add_rotation(self, qrot)
         self.qrot=qrot
 
+        self.return_cluster(units0,origin0, rorder0, rorder_origin0)
+
     def virialize(self, qvir=0.5,specific=True, full=True, projected=None, softening=0.0):
         """ Adjust stellar velocities so cluster is in virial equilibrium
 
-- 
2.43.0


From ba3feab1fa368c49feab9439477c351fb2b5f8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 020/133] fix: projected energies of a subset of stars

---
 clustertools/analysis/functions.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index a40b6fd..a8b59a5 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -723,11 +723,16 @@ def energies(cluster, specific=True, ids=None, projected=False, softening=0.0, f
         # Get gravitational constant
         grav = _get_grav(cluster)
 
-        kin = 0.5 * cluster.m[ids] * cluster.v[ids]**2
+        if projected:
+            kin = 0.5 * cluster.m[ids] * cluster.vpro[ids]**2
+            z = np.zeros(len(cluster.x))
+        else:
+            kin = 0.5 * cluster.m[ids] * cluster.v[ids]**2
+            z = cluster.z
 
-        cluster_full = np.array([cluster.x, cluster.y, cluster.z, cluster.m]).T
+        cluster_full = np.array([cluster.x, cluster.y, z, cluster.m]).T
         cluster_sub  = np.array([cluster.x[ids], cluster.y[ids], 
-                                 cluster.z[ids], cluster.m[ids]]).T
+                                 z[ids], cluster.m[ids]]).T
 
         if parallel:
             pot = grav * np.array(_potential_energy_subset_parallel(cluster_sub, cluster_full,softening))
-- 
2.43.0


From 7ce0c2cbab9823c8eef5ba25dd2b373f1475a60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 021/133] fix: softened energies with full=False leave out a
 star's own potential

---
 clustertools/analysis/functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index a8b59a5..be3a9e4 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -768,11 +768,12 @@ def energies(cluster, specific=True, ids=None, projected=False, softening=0.0, f
                 m = cluster.m[i] * cluster.m
 
             if projected:
-                dr = np.sqrt(dx ** 2.0 + dy ** 2.0 + softening**2.) 
+                dr = np.sqrt(dx ** 2.0 + dy ** 2.0) 
             else:
-                dr = np.sqrt(dx ** 2.0 + dy ** 2.0 + dz ** 2.0 + softening**2.)
+                dr = np.sqrt(dx ** 2.0 + dy ** 2.0 + dz ** 2.0)
 
             indx = dr != 0.0
+            dr = np.sqrt(dr ** 2.0 + softening**2.)
             gmr = -grav * m[indx] / dr[indx]
 
             pot.append(np.sum(gmr))
-- 
2.43.0


From 5621923d0cccad22338917865a055f134425d81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 022/133] fix: energies in parallel do not add to a star's
 potential from several threads

---
 clustertools/analysis/functions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index be3a9e4..1a9253f 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -846,15 +846,16 @@ def _potential_energy_parallel(cluster,softening=0.0):
        2019 - Written - Webb (UofT)
     """
     pot = [0.0] * len(cluster)
-    for i in numba.prange(len(cluster) - 1):
-        for j in range(i + 1, len(cluster)):
+    for i in numba.prange(len(cluster)):
+        for j in range(len(cluster)):
+            if i==j: continue
+
             r = distance(cluster[i], cluster[j])
 
             if r==0: r=np.nan
 
             m2 = cluster[i, 3] * cluster[j, 3]
             pot[i] += -m2 / np.sqrt(r**2.+softening**2.)
-            pot[j] += -m2 / np.sqrt(r**2.+softening**2.)
 
     return pot
 
-- 
2.43.0


From f789fbac7b1054507a28a3e4f9b36e2d845ae525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 023/133] fix: reset_nbody_scale uses the projected half-mass
 radius when asked to

---
 clustertools/cluster/operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index 674e032..1b5b7aa 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -1447,7 +1447,7 @@ def reset_nbody_scale(cluster, mass=True, radii=True, rvirial=True, projected=Fa
 
             rbar=cluster.rv
         else:
-            rbar = 4.0 * cluster.rm / 3.0
+            rbar = 4.0 * (cluster.rmpro if projected else cluster.rm) / 3.0
     else:
         rbar = cluster.rbar
 
-- 
2.43.0


From b6b736a5f0baf78e95cb1ef29abbd1316be0c800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 024/133] fix: StarCluster.find_centre_of_density uses the
 method it is asked for

---
 clustertools/cluster/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 0ce30a2..68315aa 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2262,7 +2262,7 @@ class StarCluster(object):
 
         xc,yc,zc,vxc,vyc,vzc=find_centre_of_density(self,xstart=xstart,
             ystart=ystart,zstart=zstart,vxstart=vxstart,vystart=vystart,vzstart=vzstart,indx=indx,
-            nsphere=nsphere,rmin=rmin,rmax=rmax,nmax=nmax)
+            nsphere=nsphere,rmin=rmin,rmax=rmax,nmax=nmax,method=method,nneighbour=nneighbour)
 
         self._set_centre(xc,yc,zc,vxc,vyc,vzc,reset_centre=reset_centre)
 
-- 
2.43.0


From f8e165711bf2c2bd99ac209c28354376abc8ec92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 025/133] fix: the casertano centre of density uses the subset
 of stars it is given

---
 clustertools/analysis/functions.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 1a9253f..2d604fe 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -254,7 +254,7 @@ def find_centre_of_density(
             ystart=ystart,zstart=zstart,vxstart=vxstart,vystart=vystart,vzstart=vzstart,indx=indx,
             nsphere=nsphere,rmin=rmin,rmax=rmax,nmax=nmax)
     elif method=='casertano':
-        xdc, ydc, zdc,vxdc, vydc, vzdc=find_centre_of_density_casertano(cluster,nneighbour=nneighbour)
+        xdc, ydc, zdc,vxdc, vydc, vzdc=find_centre_of_density_casertano(cluster,nneighbour=nneighbour,indx=indx)
 
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
 
@@ -266,6 +266,7 @@ def find_centre_of_density(
 def find_centre_of_density_casertano(
     cluster,
     nneighbour=6,
+    indx=None,
 ):
 
     """Find cluster's centre of density
@@ -290,17 +291,22 @@ def find_centre_of_density_casertano(
     2022 - Written - Webb (UofT)
     """
 
-    pos=np.column_stack([cluster.x,cluster.y,cluster.z])
+    if indx is None:
+        indx = np.ones(cluster.ntot, bool)
+
+    pos=np.column_stack([cluster.x,cluster.y,cluster.z])[indx]
     vel=np.column_stack([cluster.vx,cluster.vy,cluster.vz])
 
     tree=cKDTree(pos)
     dist, arg = tree.query(pos, k=nneighbour)
 
     #Sum the masses but ignore last neighbour
-    mass=np.sum(cluster.m[arg],axis=1)-cluster.m[arg[:,-1]]
+    m=cluster.m[indx]
+    mass=np.sum(m[arg],axis=1)-m[arg[:,-1]]
     #Set volume equal using cube of distance to outermost neighbour
     vol=(dist[:,-1]**3.)
-    rhos=mass/vol
+    rhos=np.zeros(cluster.ntot)
+    rhos[indx]=mass/vol
     rhototal=np.sum(rhos)
 
     xdc=np.sum(rhos*cluster.x/rhototal)
-- 
2.43.0


From 2a966b3b5cac2d704bef4ec538fd9ae6c4bfea14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 026/133] fix: find_centre returns an AMUSE cluster to its
 units when the subset is empty

---
 clustertools/analysis/functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 2d604fe..9e3dad8 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -125,6 +125,7 @@ def find_centre(
         indx = np.ones(cluster.ntot, bool)
     elif np.sum(indx) == 0.0:
         print("NO SUBSET OF STARS GIVEN")
+        cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
         return 0.0, 0.0, 0.0, 0.0, 0.0, 0.0
 
     rhos=np.zeros(cluster.ntot)
-- 
2.43.0


From 24c6f31e8754acad1a68acb3b7513e0a56630aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 027/133] fix: find_centre stops clipping once no star is
 removed any more

---
 clustertools/analysis/functions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 9e3dad8..05bf7af 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -155,10 +155,15 @@ def find_centre(
         r = np.sqrt(x ** 2.0 + y ** 2.0 + z ** 2.0)
         i_d = cluster.id[indx]
 
+        removed = True
+
         while len(r) > nsphere:
             sigma = nsigma * np.std(r)
             indx = r < sigma
 
+            if np.all(indx) and not removed: break
+            removed = not np.all(indx)
+
             if len(r[indx]) > nsphere:
                 i_d = i_d[indx]
                 x = x[indx] - np.mean(x[indx])
-- 
2.43.0


From 56c4d53d45483c5fb9a9e3b84cfda5bfdd846167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 028/133] fix: find_centre of an AMUSE cluster that is centred
 already

---
 clustertools/cluster/cluster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 68315aa..6ec4acf 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2315,9 +2315,9 @@ class StarCluster(object):
         if self.origin=='centre':
 
             warning=False
-            if xc!=0.0 or yc!=0.0 or zc!=0.0:
+            if xc!=0.0*xc or yc!=0.0*yc or zc!=0.0*zc:
                 warning=True
-            if vxc!=0.0 or vyc!=0.0 or vzc!=0.0:
+            if vxc!=0.0*vxc or vyc!=0.0*vyc or vzc!=0.0*vzc:
                 warning=True
 
             if warning:
-- 
2.43.0


From 133556ad3d74bb528a8296021a6d1ec966d997b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 029/133] fix: find_centre of an AMUSE cluster with an empty
 subset returns quantities

---
 clustertools/analysis/functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 05bf7af..6b6dbd7 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -126,6 +126,8 @@ def find_centre(
     elif np.sum(indx) == 0.0:
         print("NO SUBSET OF STARS GIVEN")
         cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
+        if cluster.units =='amuse':
+            return 0.0 | u.pc, 0.0 | u.pc, 0.0 | u.pc, 0.0 | u.kms, 0.0 | u.kms, 0.0 | u.kms
         return 0.0, 0.0, 0.0, 0.0, 0.0, 0.0
 
     rhos=np.zeros(cluster.ntot)
-- 
2.43.0


From e71f792eafffa141e2e94fc2ef6c5a8d7ad6677e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 030/133] fix: rlagrange with mfrac=1 does not depend on the
 rounding of the total mass

---
 clustertools/analysis/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 6b6dbd7..6e453f2 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -1054,7 +1054,7 @@ def rlagrange(cluster, nlagrange=10, mfrac=None, projected=False):
             rn.append(np.max(r))
 
     else:
-        indx=(msum/cluster.mtot)>=mfrac
+        indx=(msum/msum[-1])>=mfrac
         rn=r[rorder][indx][0]
 
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
-- 
2.43.0


From 853105e35a71458c6105120c1d3bf925b34645d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 031/133] fix: closest_star returns the closest star of a
 cluster in sky coordinates

---
 clustertools/analysis/functions.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 6e453f2..cecfe0e 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -976,10 +976,6 @@ def closest_star(cluster, projected=False, argument=False):
     if cluster.units=='radec' and cluster.origin=='sky':
 
         x=np.column_stack([cluster.x,cluster.y])
-        tree=cKDTree(x)
-        dist, arg = tree.query(x, k=5)
-
-        
 
     else:
 
@@ -988,13 +984,13 @@ def closest_star(cluster, projected=False, argument=False):
         else:
             x=np.column_stack([cluster.x,cluster.y,cluster.z])
 
-        tree=cKDTree(x)
-        dist, arg = tree.query(x, k=2)
+    tree=cKDTree(x)
+    dist, arg = tree.query(x, k=2)
 
-        if argument:
-            return dist[:,1],arg[:,1]
-        else:
-            return dist[:,1]
+    if argument:
+        return dist[:,1],arg[:,1]
+    else:
+        return dist[:,1]
 
 def rlagrange(cluster, nlagrange=10, mfrac=None, projected=False):
     """Calculate lagrange radii of the cluster by mass
-- 
2.43.0


From eef538eaeb768fd63f2095586f39a5b7447ce62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 032/133] fix: closest_star of a cluster in AMUSE units

---
 clustertools/analysis/functions.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index cecfe0e..94cfc97 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -973,6 +973,13 @@ def closest_star(cluster, projected=False, argument=False):
        2019 - Written - Webb (UofT)
     """
 
+    isamuse=cluster.units=='amuse'
+
+    if isamuse:
+        cluster.save_cluster()
+        units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+        cluster.to_pckms()
+
     if cluster.units=='radec' and cluster.origin=='sky':
 
         x=np.column_stack([cluster.x,cluster.y])
@@ -986,11 +993,16 @@ def closest_star(cluster, projected=False, argument=False):
 
     tree=cKDTree(x)
     dist, arg = tree.query(x, k=2)
+    dmin=dist[:,1]
+
+    if isamuse:
+        cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
+        dmin=_convert_length(dmin,'pckms',cluster)
 
     if argument:
-        return dist[:,1],arg[:,1]
+        return dmin,arg[:,1]
     else:
-        return dist[:,1]
+        return dmin
 
 def rlagrange(cluster, nlagrange=10, mfrac=None, projected=False):
     """Calculate lagrange radii of the cluster by mass
-- 
2.43.0


From 9541f8eb28c7c0c6a51b803937c6190b878ddff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 033/133] fix: relaxation_time within a given radius

---
 clustertools/analysis/functions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 94cfc97..f637b51 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -508,17 +508,19 @@ def relaxation_time(cluster, rad=None, coulomb=0.4, projected=False,method='spit
     grav=_get_grav(cluster)
 
 
-    if rad is None and projected:
+    if rad is not None:
+        rad=_convert_length(rad,units0,cluster)
+    elif projected:
         rad=cluster.rmpro
-        vel=cluster.vpro
-    elif rad is None:
+    else:
         rad=cluster.rm
-        vel=cluster.v
 
     if projected:
         rindx=cluster.rpro <= rad
+        vel=cluster.vpro
     else:
         rindx=cluster.r <= rad
+        vel=cluster.v
         
     ntot=np.sum(rindx)
     mbar=np.mean(cluster.m[rindx])
-- 
2.43.0


From 9c7c35690ab528cfa802fa3b27a022769f8fed7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 034/133] fix: mass_function with fixed bins fits the bins that
 contain stars

---
 clustertools/analysis/functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index f637b51..abf0401 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -1488,7 +1488,8 @@ def mass_function(
         dm = m_corr_hist / (m_upper - m_lower)
         ldm = np.log10(dm)
 
-        (alpha, yalpha), V = np.polyfit(lm_mean, ldm, 1, cov=True)
+        mbin = dm > 0.
+        (alpha, yalpha), V = np.polyfit(lm_mean[mbin], ldm[mbin], 1, cov=True)
         ealpha = np.sqrt(V[0][0])
         eyalpha = np.sqrt(V[1][1])
 
-- 
2.43.0


From 6e0b09dee64e9722fd99021ba0b4d769f336b97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 035/133] fix: StarCluster.mass_function accepts a completeness
 correction

---
 clustertools/cluster/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 6ec4acf..bfb389a 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2777,7 +2777,7 @@ class StarCluster(object):
             plot=plot,
             title="GLOBAL",
             **kwargs
-        )
+        )[:7]
         self.alpha = alpha
 
         return self.alpha
-- 
2.43.0


From 3aa6c6f4436d56ad4e4f3c6d021d846cf651197c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 036/133] fix: tapered_mass_function of too few stars returns
 as many values as usual

---
 clustertools/analysis/functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index abf0401..f7d06f8 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -1698,6 +1698,10 @@ def tapered_mass_function(
             -1000.0,
             -1000.0,
             -1000.0,
+            -1000.0,
+            -1000.0,
+            -1000.0,
+            -1000.0,
         )
 
 
-- 
2.43.0


From e327d99befd62ddfea64573ac7de1efd2e0415a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 037/133] fix: eta_function of stars whose masses fill fewer
 bins than asked for

---
 clustertools/analysis/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index f7d06f8..3580962 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -1809,7 +1809,7 @@ def eta_function(
 
         sigvm = []
         lsigvm = []
-        for i in range(0, nmass):
+        for i in range(0, len(m_mean)):
 
             mindx = indx * (bin_idx==i)
             sigvm.append(np.std(v[mindx]))
-- 
2.43.0


From d8b938685a6bc1d53ac4ba59227320d28a14e913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 038/133] fix: meq_function uses all populations unless one is
 asked for

---
 clustertools/analysis/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 3580962..4810ccf 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -1886,7 +1886,7 @@ def meq_function(
     emax=None,
     kwmin=0,
     kwmax=1,
-    npop=1,
+    npop=None,
     indx=None,
     projected=False,
     plot=False,
-- 
2.43.0


From 502722a48f56dc1bee22c439dbb79ecafe43722c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 039/133] fix: ckin of a cluster in galactocentric coordinates
 uses radii from its centre

---
 clustertools/analysis/functions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 4810ccf..0862694 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -2046,6 +2046,9 @@ def ckin(
     if cluster.units=='amuse':
         cluster.to_pckms()
 
+    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+        cluster.to_centre()
+
     rn=rlagrange(cluster, nlagrange=10, projected=projected)
 
     m_mean50, sigvm50, meq50, emq50, sigma050, esigma050 = eta_function(cluster,
-- 
2.43.0


From 9e5e1ce8bfef272e46f6cc9225f670a31372afff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:01 +0000
Subject: [PATCH 040/133] fix: StarCluster.tapered_mass_function can be called

---
 clustertools/cluster/cluster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index bfb389a..73de9eb 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2783,7 +2783,7 @@ class StarCluster(object):
         return self.alpha
 
     def tapered_mass_function(
-        cluster,
+        self,
         mmin=None,
         mmax=None,
         nmass=10,
@@ -2856,7 +2856,7 @@ class StarCluster(object):
             projected=self.projected
 
         m_mean, m_hist, dm, A, eA, alpha, ealpha, mc, emc, beta, ebeta= tapered_mass_function(
-            cluster,
+            self,
             mmin=mmin,
             mmax=mmax,
             nmass=nmass,
-- 
2.43.0


From 1319c4bba10d0a6e30ac2ca64ec4f311e3ca3e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 041/133] fix: profiles: half-mass radius missing or stale when
 normalizing an unsorted cluster

---
 clustertools/analysis/profiles.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 8dc491c..124f3fd 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -111,7 +111,7 @@ def rho_prof(
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
-        cluster.sortstars()
+        cluster.analyze(sortstars=True)
 
 
     if projected:
@@ -298,7 +298,7 @@ def m_prof(
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
-        cluster.sortstars()
+        cluster.analyze(sortstars=True)
         
     rprof = np.array([])
     mprof = np.array([])
@@ -493,7 +493,7 @@ def alpha_prof(
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
-        cluster.sortstars()
+        cluster.analyze(sortstars=True)
 
 
     if mcorr is None:        
@@ -701,7 +701,7 @@ def sigv_prof(
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
-        cluster.sortstars()
+        cluster.analyze(sortstars=True)
 
     if projected:
         r = cluster.rpro
@@ -926,7 +926,7 @@ def beta_prof(
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
-        cluster.sortstars()
+        cluster.analyze(sortstars=True)
 
     """
     if rmin == None:
@@ -1131,7 +1131,7 @@ def v_prof(
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
-        cluster.sortstars()
+        cluster.analyze(sortstars=True)
 
     if projected:
         r = cluster.rpro
@@ -1357,7 +1357,7 @@ def v2_prof(
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
-        cluster.sortstars()
+        cluster.analyze(sortstars=True)
 
     vprof = np.array([])
 
@@ -1581,7 +1581,7 @@ def eta_prof(
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
-        cluster.sortstars()
+        cluster.analyze(sortstars=True)
 
     if projected:
         r = cluster.rpro
-- 
2.43.0


From fe3ba12e4afc6b98caefe1c199cadb10c13f60a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 042/133] fix: alpha_prof, eta_prof: gradient against a stale
 or missing half-mass radius

---
 clustertools/analysis/profiles.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 124f3fd..8f587bc 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -491,8 +491,8 @@ def alpha_prof(
         cluster.to_pckms()
 
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
-        cluster.to_centre(sortstars=normalize)
-    elif normalize:
+        cluster.to_centre(sortstars=True)
+    else:
         cluster.analyze(sortstars=True)
 
 
@@ -1579,8 +1579,8 @@ def eta_prof(
         cluster.to_pckms()
 
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
-        cluster.to_centre(sortstars=normalize)
-    elif normalize:
+        cluster.to_centre(sortstars=True)
+    else:
         cluster.analyze(sortstars=True)
 
     if projected:
-- 
2.43.0


From 2026a16da7f92823b3b9b5638e5ff74de88d79f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 043/133] fix: rho_prof, m_prof: normalize by the half-mass
 radius about the centre, once, leaving the given bins alone

---
 clustertools/analysis/profiles.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 8f587bc..b76f554 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -133,7 +133,7 @@ def rho_prof(
 
     bin_idx = bin_index(r,r_lower,r_upper)
 
-    rprof = r_mean
+    rprof = np.array(r_mean,dtype=float)
     pprof = np.zeros(len(r_mean))
     nprof = np.zeros(len(r_mean))
 
@@ -148,6 +148,9 @@ def rho_prof(
         pprof[i] = np.sum(cluster.m[rindx] / vol)
         nprof[i] = np.sum(rindx)
 
+    if normalize:
+        rprof/=cluster.rm
+
     if plot:
         filename = kwargs.pop("filename", None)
         overplot = kwargs.pop("overplot", False)
@@ -185,9 +188,6 @@ def rho_prof(
 
         x, y, n = rprof, pprof, nprof
 
-        if normalize:
-            x/=cluster.rm
-
         _lplot(
             x,
             y,
@@ -207,12 +207,9 @@ def rho_prof(
     units=cluster.units
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
 
-    rprof=_convert_length(rprof,units,cluster)
+    if not normalize: rprof=_convert_length(rprof,units,cluster)
     pprof=_convert_density(pprof,units,cluster,projected=projected)
 
-    if normalize:
-        rprof/=cluster.rm
-
     return rprof, pprof, nprof
 
 
@@ -323,7 +320,7 @@ def m_prof(
 
     bin_idx = bin_index(r,r_lower,r_upper)
 
-    rprof = r_mean
+    rprof = np.array(r_mean,dtype=float)
     mprof = np.zeros(len(r_mean))
     nprof = np.zeros(len(r_mean))
 
@@ -336,6 +333,9 @@ def m_prof(
         mprof[i]=np.sum(cluster.m[rindx])
         nprof[i]=np.sum(rindx)
 
+    if normalize:
+        rprof/=cluster.rm
+
     if plot:
         filename = kwargs.pop("filename", None)
         overplot = kwargs.pop("overplot", False)
@@ -358,9 +358,6 @@ def m_prof(
 
         x, y, n = rprof, mprof, nprof
 
-        if normalize:
-            x/=cluster.rm
-
         _lplot(
             x,
             y,
@@ -379,12 +376,9 @@ def m_prof(
     units=cluster.units
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
 
-    rprof=_convert_length(rprof,units,cluster)
+    if not normalize: rprof=_convert_length(rprof,units,cluster)
     mprof=_convert_mass(mprof,units,cluster)
 
-    if normalize:
-        rprof/=cluster.rm
-
     return rprof, mprof, nprof
 
 def alpha_prof(
-- 
2.43.0


From d4f9cb0d190cc31644c64167699690e1934954e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 044/133] fix: alpha_prof, sigv_prof: normalized radii are not
 lengths

---
 clustertools/analysis/profiles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index b76f554..4c1b0e9 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -605,7 +605,7 @@ def alpha_prof(
 
     units=cluster.units
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
-    rprofn=_convert_length(rprofn,units,cluster)
+    if not normalize: rprofn=_convert_length(rprofn,units,cluster)
 
 
     if aerror:
@@ -838,7 +838,7 @@ def sigv_prof(
         if filename != None:
             plt.savefig(filename)
 
-    rprofn=_convert_length(rprofn,units,cluster)
+    if not normalize: rprofn=_convert_length(rprofn,units,cluster)
     sigvprof=_convert_velocity(sigvprof,units,cluster)
 
     return rprofn, sigvprof
-- 
2.43.0


From 2a6e3c609a83694ca77b73416848ee9d70741752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 045/133] fix: profiles: stars outside of user defined bins
 were counted in the first and last bin

---
 clustertools/analysis/profiles.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 4c1b0e9..e25437c 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -31,6 +31,11 @@ from ..util.units import _convert_length,_convert_time,_convert_velocity,_conver
 
 import matplotlib.pyplot as plt
 
+def _in_bins(r,r_lower,r_upper):
+    """Which radii are inside user defined bins (bin_index places those outside of them in the nearest one)
+    """
+    return (r>=np.asarray(r_lower)[bin_index(r,r_lower,r_upper)])*(r<=r_upper[-1])
+
 def rho_prof(
     cluster,
     mmin=None,
@@ -125,6 +130,7 @@ def rho_prof(
 
     if bins is not None:
         r_lower, r_mean, r_upper=bins[0],bins[1],bins[2]
+        indx=indx*_in_bins(r,r_lower,r_upper)
         r_hist=np.zeros(len(r_mean))
     elif kwargs.pop('bintype','num')=='fix':
         r_lower, r_mean, r_upper, r_hist = binmaker(r[indx], nrad)
@@ -312,6 +318,7 @@ def m_prof(
 
     if bins is not None:
         r_lower, r_mean, r_upper=bins[0],bins[1],bins[2]
+        indx=indx*(r<=r_upper[-1]) if cumulative else indx*_in_bins(r,r_lower,r_upper)
         r_hist=np.zeros(len(r_mean))
     elif kwargs.pop('bintype','num')=='fix':
         r_lower, r_mean, r_upper, r_hist = binmaker(r[indx], nrad)
@@ -508,6 +515,7 @@ def alpha_prof(
 
     if bins is not None:
         r_lower, r_mean, r_upper=bins[0],bins[1],bins[2]
+        indx=indx*_in_bins(r,r_lower,r_upper)
         r_hist=np.zeros(len(r_mean))
         r_mean=np.zeros(len(r_mean))
 
@@ -783,6 +791,7 @@ def sigv_prof(
 
     if bins is not None:
         r_lower, r_mean, r_upper=bins[0],bins[1],bins[2]
+        indx=indx*_in_bins(r,r_lower,r_upper)
         r_hist=np.zeros(len(r_mean))
 
     elif kwargs.pop('bintype','num')=='fix':
@@ -972,6 +981,7 @@ def beta_prof(
 
     if bins is not None:
         r_lower, r_mean, r_upper=bins[0],bins[1],bins[2]
+        indx=indx*_in_bins(r,r_lower,r_upper)
         r_hist=np.zeros(len(r_mean))
     elif kwargs.pop('bintype','num')=='fix':
         r_lower, r_mean, r_upper, r_hist = binmaker(r[indx], nrad)
@@ -1213,6 +1223,7 @@ def v_prof(
 
     if bins is not None:
         r_lower, r_mean, r_upper=bins[0],bins[1],bins[2]
+        indx=indx*_in_bins(r,r_lower,r_upper)
         r_hist=np.zeros(len(r_mean))
     elif kwargs.pop('bintype','num')=='fix':
         r_lower, r_mean, r_upper, r_hist = binmaker(r[indx], nrad)
@@ -1430,6 +1441,7 @@ def v2_prof(
 
     if bins is not None:
         r_lower, r_mean, r_upper=bins[0],bins[1],bins[2]
+        indx=indx*_in_bins(r,r_lower,r_upper)
         r_hist=np.zeros(len(r_mean))
     elif kwargs.pop('bintype','num')=='fix':
         r_lower, r_mean, r_upper, r_hist = binmaker(r[indx], nrad)
@@ -1624,6 +1636,7 @@ def eta_prof(
 
     if bins is not None:
         r_lower, r_mean, r_upper=bins[0],bins[1],bins[2]
+        indx=indx*_in_bins(r,r_lower,r_upper)
         r_hist=np.zeros(len(r_mean))
     elif kwargs.pop('bintype','num')=='fix':
         r_lower, r_mean, r_upper, r_hist = binmaker(cluster.r[indx], nrad)
-- 
2.43.0


From 88746774d8f29972fee19623f638f51544d773a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 046/133] fix: v_prof, v2_prof, sigv_prof: documented coord
 names fell back to the speed or failed

---
 clustertools/analysis/profiles.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index e25437c..9f1d00d 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -779,6 +779,7 @@ def sigv_prof(
             v=vz
             ylabel=r"$\sigma_{v_z}$"
         elif coord=='v':
+            ylabel=r"$\sigma_v$"
             if projected:
                 v=cluster.vpro
             else:
@@ -1191,14 +1192,15 @@ def v_prof(
             )
         else:
             r, phi, theta, vr, vp, vt = sphere_coords(cluster)
+            vz=cluster.vz
 
-        if coord =='r':
+        if coord =='r' or coord=='vr':
             v=vr
             ylabel=r"$<v_r>$"
-        elif coord=='phi':
+        elif coord=='phi' or coord=='vp' or coord=='vphi':
             v=vp
             ylabel=r"$<v_p>$"
-        elif coord=='theta':
+        elif coord=='theta' or coord=='vt' or coord=='vtheta' :
             v=vt
             ylabel=r"$<v_t>$"
         elif coord=='x' or coord=='vx':
@@ -1211,6 +1213,7 @@ def v_prof(
             v=vz
             ylabel=r"$\sigma_{v_z}$"
         elif coord=='v':
+            ylabel=r"$<v>$"
             if projected:
                 v=cluster.vpro
             else:
@@ -1420,19 +1423,32 @@ def v2_prof(
             )
         else:
             r, phi, theta, vr, vp, vt = sphere_coords(cluster)
+            vz=cluster.vz
 
-        if coord =='r':
+        if coord =='r' or coord=='vr':
             v=vr
             ylabel=r"$<v_r^2>$"
-        elif coord=='phi':
+        elif coord=='phi' or coord=='vp' or coord=='vphi':
             v=vp
             ylabel=r"$<v_p^2>$"
-        elif coord=='theta':
+        elif coord=='theta' or coord=='vt' or coord=='vtheta' :
             v=vt
             ylabel=r"$<v_t^2>$"
-        elif coord=='z':
+        elif coord=='x' or coord=='vx':
+            v=cluster.vx
+            ylabel=r"$<v_x^2>$"
+        elif coord=='y' or coord=='vy':
+            v=cluster.vy
+            ylabel=r"$<v_y^2>$"
+        elif coord=='z' or coord=='vz':
             v=vz
             ylabel=r"$<v_z^2>$"
+        elif coord=='v':
+            ylabel=r"$<v^2>$"
+            if projected:
+                v=cluster.vpro
+            else:
+                v=cluster.v
     else:
         if projected:
             ylabel=r"$<v_{pro}^2>$"
-- 
2.43.0


From 492db1fb25f503f0db9d5e41de82af729898475d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 047/133] fix: eta_prof: use the selected stars, projected bins
 and disjoint bins

---
 clustertools/analysis/profiles.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 9f1d00d..7ddaaad 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -1655,9 +1655,11 @@ def eta_prof(
         indx=indx*_in_bins(r,r_lower,r_upper)
         r_hist=np.zeros(len(r_mean))
     elif kwargs.pop('bintype','num')=='fix':
-        r_lower, r_mean, r_upper, r_hist = binmaker(cluster.r[indx], nrad)
+        r_lower, r_mean, r_upper, r_hist = binmaker(r[indx], nrad)
     else:
-        r_lower, r_mean, r_upper, r_hist = nbinmaker(cluster.r[indx], nrad)
+        r_lower, r_mean, r_upper, r_hist = nbinmaker(r[indx], nrad)
+
+    bin_idx = bin_index(r,r_lower,r_upper)
 
     if normalize:
         if projected:
@@ -1676,12 +1678,11 @@ def eta_prof(
             mmin=mmin,
             mmax=mmax,
             nmass=nmass,
-            rmin=r_lower[i],
-            rmax=r_upper[i],
             vmin=vmin,
             vmax=vmax,
             kwmin=kwmin,
             kwmax=kwmax,
+            indx=indx*(bin_idx==i),
             projected=projected,
             meq=meq,
             **kwargs,
-- 
2.43.0


From e2bd231249124050241c87784c29e64d09f3832f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 048/133] fix: alpha_prof: kwmin and kwmax were not used within
 the bins

---
 clustertools/analysis/profiles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 7ddaaad..93b94e0 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -550,10 +550,10 @@ def alpha_prof(
         rindx = indx * (bin_idx==i)
 
         if return_error:
-            m_mean, m_hist, dm, alpha, ealpha, yalpha, eyalpha, mbinerror = mass_function(cluster,nmass=nmass,indx=rindx,projected=projected,mcorr=mcorr,plot=False,**kwargs)
+            m_mean, m_hist, dm, alpha, ealpha, yalpha, eyalpha, mbinerror = mass_function(cluster,nmass=nmass,kwmin=kwmin,kwmax=kwmax,indx=rindx,projected=projected,mcorr=mcorr,plot=False,**kwargs)
             rbinerror[i]=np.amin(mbinerror)
         else:
-            m_mean, m_hist, dm, alpha, ealpha, yalpha, eyalpha = mass_function(cluster,nmass=nmass,indx=rindx,projected=projected,mcorr=None,plot=False,**kwargs)
+            m_mean, m_hist, dm, alpha, ealpha, yalpha, eyalpha = mass_function(cluster,nmass=nmass,kwmin=kwmin,kwmax=kwmax,indx=rindx,projected=projected,mcorr=None,plot=False,**kwargs)
             rbinerror[i]=1.
 
         if alpha > -100:
-- 
2.43.0


From 59524899e9e18157f3b5344c3008e5bb6c0043e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 049/133] fix: vcirc_prof: selections were applied in the wrong
 order

---
 clustertools/analysis/profiles.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 93b94e0..665df1b 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -1946,17 +1946,19 @@ def vcirc_prof(
         cluster.to_pckms()
 
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
-        cluster.to_centre(sortstars=normalize)
+        cluster.to_centre(sortstars=True)
     else:
-        cluster.sortstars()
+        cluster.analyze(sortstars=True)
 
     grav=_get_grav(cluster)
 
     if projected:
+        rorder = cluster.rproorder
         r = cluster.rpro[cluster.rproorder]
         v = cluster.vpro[cluster.rproorder]
         m = cluster.m[cluster.rproorder]
     else:
+        rorder = cluster.rorder
         r = cluster.r[cluster.rorder]
         v = cluster.v[cluster.rorder]
         m = cluster.m[cluster.rorder]
@@ -2000,6 +2002,7 @@ def vcirc_prof(
 
     indx=cluster.subset(rmin=rmin,rmax=rmax,vmin=vmin,vmax=vmax,mmin=mmin,mmax=mmax,emin=emin,emax=emax,kwmin=kwmin,kwmax=kwmax,npop=npop,indx=indx,projected=projected)
 
+    indx = indx[rorder]
     r = r[indx]
     v = v[indx]
     m = m[indx]
@@ -2015,12 +2018,12 @@ def vcirc_prof(
         for i in range(0,len(args)):
             args[i]=np.argmin(np.fabs(r-r_mean[i]))
     elif kwargs.get('bintype','num')=='fix' and nrad is not None:
-        r_lower, r_mean, r_upper, r_hist = binmaker(cluster.r[indx], nrad)
+        r_lower, r_mean, r_upper, r_hist = binmaker(r, nrad)
         args=np.zeros(len(r_mean))
         for i in range(0,len(args)):
             args[i]=np.argmin(np.fabs(r-r_mean[i]))
     elif kwargs.get('bintype','num')=='num' and nrad is not None:
-        r_lower, r_mean, r_upper, r_hist = nbinmaker(cluster.r[indx], nrad)
+        r_lower, r_mean, r_upper, r_hist = nbinmaker(r, nrad)
         args=np.zeros(len(r_mean))
         for i in range(0,len(args)):
             args[i]=np.argmin(np.fabs(r-r_mean[i]))
-- 
2.43.0


From aaca94bebfc2b60df90d985d5f9d17550eb822f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:47 +0000
Subject: [PATCH 050/133] fix: power_law_distribution_function: rising power
 laws had the wrong shape unless xmin=0

---
 clustertools/util/recipes.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/clustertools/util/recipes.py b/clustertools/util/recipes.py
index 7cffe5c..feac5a8 100644
--- a/clustertools/util/recipes.py
+++ b/clustertools/util/recipes.py
@@ -315,9 +315,7 @@ def power_law_distribution_function(n, alpha, xmin, xmax):
         x = xmin
     elif alpha == 0:
         x = xmin + np.random.random(n) * (xmax - xmin)
-    elif alpha > 0:
-        x = xmin + np.random.power(eta, n) * (xmax - xmin)
-    elif alpha < 0 and alpha != -1.0:
+    elif alpha != -1.0:
         x = (xmin ** eta + (xmax ** eta - xmin ** eta) * np.random.rand(n)) ** (
             1.0 / eta
         )
-- 
2.43.0


From 9f1ebaf134e8593b8c0fdc7179603c5cc95e5c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:47 +0000
Subject: [PATCH 051/133] fix: power_law_distribution_function: n points when
 xmin equals xmax

---
 clustertools/util/recipes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/util/recipes.py b/clustertools/util/recipes.py
index feac5a8..5faef71 100644
--- a/clustertools/util/recipes.py
+++ b/clustertools/util/recipes.py
@@ -312,7 +312,7 @@ def power_law_distribution_function(n, alpha, xmin, xmax):
     eta = alpha + 1.0
 
     if xmin == xmax:
-        x = xmin
+        x = np.full(n, xmin)
     elif alpha == 0:
         x = xmin + np.random.random(n) * (xmax - xmin)
     elif alpha != -1.0:
-- 
2.43.0


From 5e6c2c264a54274d226a0d0adccb87efcedb33cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 052/133] fix: binmaker, roaming_binmaker: the largest or
 smallest value was left out by rounding

---
 clustertools/util/recipes.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/clustertools/util/recipes.py b/clustertools/util/recipes.py
index 5faef71..a2c6df3 100644
--- a/clustertools/util/recipes.py
+++ b/clustertools/util/recipes.py
@@ -127,6 +127,8 @@ def binmaker(x, nbin=10, nsum=False, steptype="linear"):
         steps = np.linspace(np.amin(x), np.amax(x), nbin + 1)
     else:
         steps = np.logspace(np.log10(np.amin(x)), np.log10(np.amax(x)), nbin + 1)
+        # rounding must not leave out the smallest or largest value
+        steps[0], steps[-1] = np.amin(x), np.amax(x)
 
     x_lower = steps[:-1]
     x_upper = steps[1:]
@@ -270,6 +272,11 @@ def roaming_binmaker(x, nbin=10, ntot=20, nsum=False, steptype="linear"):
                 
         x_mid=10.0**((np.log10(x_upper)+np.log10(x_lower))/2.)
 
+    # rounding must not leave out the smallest or largest value
+    if ntot > 1:
+        x_lower[0]=np.amin(x)
+        x_upper[-1]=np.amax(x)
+
     x_hist=np.array([])
     x_sum=np.array([])
 
-- 
2.43.0


From b1874da9fe5fa29679b6482b577681b54215d0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 053/133] fix: dx_function, tapered_dx_function, x_hist,
 mean_prof: values outside of given bins were counted in the first and last
 one

---
 clustertools/analysis/profiles.py |  6 +-----
 clustertools/util/recipes.py      | 27 ++++++++++++++++++++++++---
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 665df1b..6375302 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -23,6 +23,7 @@ except:
 
 from ..util.constants import *
 from ..util.recipes import *
+from ..util.recipes import _in_bins
 from ..util.constants import _get_grav
 from ..util.plots import _lplot,_plot
 from ..util.coordinates import sphere_coords
@@ -31,11 +32,6 @@ from ..util.units import _convert_length,_convert_time,_convert_velocity,_conver
 
 import matplotlib.pyplot as plt
 
-def _in_bins(r,r_lower,r_upper):
-    """Which radii are inside user defined bins (bin_index places those outside of them in the nearest one)
-    """
-    return (r>=np.asarray(r_lower)[bin_index(r,r_lower,r_upper)])*(r<=r_upper[-1])
-
 def rho_prof(
     cluster,
     mmin=None,
diff --git a/clustertools/util/recipes.py b/clustertools/util/recipes.py
index a2c6df3..ce3978c 100644
--- a/clustertools/util/recipes.py
+++ b/clustertools/util/recipes.py
@@ -374,7 +374,7 @@ def dx_function(x, nx=10, bintype="num", x_lower=None, x_mean=None,x_upper=None,
         else:
             x_lower, x_mean, x_upper, x_hist = binmaker(x, nx)
     else:
-        bin_idx = bin_index(x,x_lower,x_upper)
+        bin_idx = bin_index(x,x_lower,x_upper)[_in_bins(x,x_lower,x_upper)]
         x_hist = np.bincount(bin_idx, minlength=len(x_lower)).astype(float)
 
     dx = x_hist / (x_upper - x_lower)
@@ -446,7 +446,7 @@ def tapered_dx_function(x, nx=10, bintype="num", x_lower=None, x_mean=None,x_upp
         else:
             x_lower, x_mean, x_upper, x_hist = binmaker(x, nx)
     else:
-        bin_idx = bin_index(x,x_lower,x_upper)
+        bin_idx = bin_index(x,x_lower,x_upper)[_in_bins(x,x_lower,x_upper)]
         x_hist = np.bincount(bin_idx, minlength=len(x_lower)).astype(float)
 
     dx = x_hist / (x_upper - x_lower)
@@ -524,7 +524,7 @@ def x_hist(x, nx=10, bintype="num", bins=False, x_lower=None, x_mean=None,x_uppe
         else:
             x_lower, x_mean, x_upper, x_hist = binmaker(x, nx)
     else:
-        bin_idx = bin_index(x,x_lower,x_upper)
+        bin_idx = bin_index(x,x_lower,x_upper)[_in_bins(x,x_lower,x_upper)]
         x_hist = np.bincount(bin_idx, minlength=len(x_lower)).astype(float)
 
     if bins:
@@ -571,6 +571,8 @@ def mean_prof(x, y, nbin=10, bintype="num", steptype="linear", median=False, x_l
             x_lower, x_mid, x_upper, x_hist = binmaker(x, nbin, steptype=steptype)
     else:
         x_mid=x_mean
+        inside=_in_bins(x,x_lower,x_upper)
+        x,y=np.asarray(x)[inside],np.asarray(y)[inside]
 
     bin_idx = bin_index(x,x_lower,x_upper)
     x_hist = np.bincount(bin_idx, minlength=len(x_lower)).astype(float)
@@ -811,3 +813,22 @@ def bin_index(x, x_lower, x_upper):
     bin_indx = np.minimum(bin_indx, len(x_upper) - 1)
 
     return bin_indx
+
+def _in_bins(x, x_lower, x_upper):
+    """determine which values of x are inside the bins (bin_index places those outside of them in the nearest one)
+
+    Parameters
+    ----------
+    x : float
+      array of values
+    x_lower : float
+      array of lower bin limits
+    x_upper : float
+      array of upper bin limits
+
+    Returns
+    -------
+    indx : bool
+      True for values that are inside one of the bins
+    """
+    return (x >= np.asarray(x_lower)[bin_index(x, x_lower, x_upper)]) * (x <= np.asarray(x_upper)[-1])
-- 
2.43.0


From 05f93336259cdcf83e3e10fbdf07d3ce29552e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 054/133] fix: sphere_coords, cyl_coords: NameError for a
 cluster on the sky

---
 clustertools/util/coordinates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/util/coordinates.py b/clustertools/util/coordinates.py
index ea2d779..7bd4f20 100644
--- a/clustertools/util/coordinates.py
+++ b/clustertools/util/coordinates.py
@@ -51,7 +51,7 @@ def sphere_coords(cluster):
     units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
 
     if origin0=='sky':
-        cluster.to_galaxy(ro=ro,vo=vo,solarmotion=solar_motion)
+        cluster.to_galaxy(sortstars=False)
 
     if cluster.units=='amuse':
         cluster.to_pckms()
@@ -166,7 +166,7 @@ def cyl_coords(cluster):
     units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
 
     if origin0=='sky':
-        cluster.to_galaxy(ro=ro,vo=vo,solarmotion=solar_motion)
+        cluster.to_galaxy(sortstars=False)
 
     if cluster.units=='amuse':
         cluster.to_pckms()
-- 
2.43.0


From a4f2f85e2580a0863f2405401e6e4ab140e5926c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 055/133] fix: sky_coords: failed for every cluster

---
 clustertools/util/coordinates.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/clustertools/util/coordinates.py b/clustertools/util/coordinates.py
index 7bd4f20..af73a82 100644
--- a/clustertools/util/coordinates.py
+++ b/clustertools/util/coordinates.py
@@ -224,13 +224,15 @@ def cyl_to_cart(r,theta,zed,vr,vtheta,vz):
 
     return x, y, copy.copy(z), vx, vy, copy.copy(vz)
 
-def sky_coords(cluster,ro=solar_ro,vo=solar_vo,solarmotion=solar_motion,zo=solar_zo):
+def sky_coords(cluster,ro=None,vo=None,solarmotion=None,zo=None):
     """Get the sky coordinates of every star in the cluster
 
     Parameters
     ----------
     cluster : class
         StarCluster
+    ro, vo, solarmotion, zo : float
+        solar parameters (default: those of the cluster)
 
     Returns
     -------
@@ -244,15 +246,21 @@ def sky_coords(cluster,ro=solar_ro,vo=solar_vo,solarmotion=solar_motion,zo=solar
     cluster.save_cluster()
     units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
 
-    cluster.to_radec(ro=ro,vo=vo,solarmotion=solar_motion)
+    if ro is None: ro=cluster._ro
+    if vo is None: vo=cluster._vo
+    if solarmotion is None: solarmotion=cluster._solarmotion
+    if zo is None: zo=cluster._zo
 
-    ra,dec,d0,pmra,pmdec,vr0=cluster.x,cluster.y,cluster.z,cluster.vx,cluster.vy,cluster.vz
+    cluster.to_galaxy(sortstars=False)
+    cluster.to_kpckms()
+
+    ra,dec,d0,pmra,pmdec,vr0=cart_to_sky(cluster.x,cluster.y,cluster.z,cluster.vx,cluster.vy,cluster.vz,ro=ro,vo=vo,solarmotion=solarmotion,zo=zo)
 
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
 
     return ra, dec, d0, pmra, pmdec, vr0
 
-def cart_to_sky(x,y,z,vx,vy,vz,ro=solar_ro,vo=solar_vo,solarmotion=solar_motion):
+def cart_to_sky(x,y,z,vx,vy,vz,ro=solar_ro,vo=solar_vo,solarmotion=solar_motion,zo=solar_zo):
     """Convert cartesian coordinates to sky coordinates
 
     Parameters
@@ -275,14 +283,14 @@ def cart_to_sky(x,y,z,vx,vy,vz,ro=solar_ro,vo=solar_vo,solarmotion=solar_motion)
 
     if isinstance(R,float):
         o = Orbit(
-            [R/ro, vR/vo, vT/vo, z/ro, vz/vo, phi], ro=ro, vo=vo, solarmotion=solarmotion
+            [R/ro, vR/vo, vT/vo, z/ro, vz/vo, phi], ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
         )
     else:
 
         vxvv=np.column_stack([R/ro, vR/vo, vT/vo, z/ro, vz/vo, phi])
 
         o = Orbit(
-            vxvv, ro=ro, vo=vo, solarmotion=solarmotion
+            vxvv, ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
         )
 
     return o.ra(),o.dec(),o.dist(),o.pmra(),o.pmdec(),o.vlos()
-- 
2.43.0


From beeae2d08bf4cae0457ed6a57d00110c0456bcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 056/133] fix: vcirc_prof: plotting with bintype failed

---
 clustertools/analysis/profiles.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 6375302..36f132a 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -2008,17 +2008,19 @@ def vcirc_prof(
     vmax = np.amax(vcirc)
     rvmax = r[np.argmax(vcirc)]
 
+    bintype=kwargs.pop('bintype','num')
+
     if bins is not None:
         r_lower, r_mean, r_upper=bins[0],bins[1],bins[2]
         args=np.zeros(len(r_mean))
         for i in range(0,len(args)):
             args[i]=np.argmin(np.fabs(r-r_mean[i]))
-    elif kwargs.get('bintype','num')=='fix' and nrad is not None:
+    elif bintype=='fix' and nrad is not None:
         r_lower, r_mean, r_upper, r_hist = binmaker(r, nrad)
         args=np.zeros(len(r_mean))
         for i in range(0,len(args)):
             args[i]=np.argmin(np.fabs(r-r_mean[i]))
-    elif kwargs.get('bintype','num')=='num' and nrad is not None:
+    elif bintype=='num' and nrad is not None:
         r_lower, r_mean, r_upper, r_hist = nbinmaker(r, nrad)
         args=np.zeros(len(r_mean))
         for i in range(0,len(args)):
-- 
2.43.0


From cf032b6ee8b6b156037ff19ce4d196a98d9f833b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 057/133] fix: mass_function, alpha_prof: plotting with bintype
 or mbintype failed

---
 clustertools/analysis/functions.py | 3 ++-
 clustertools/analysis/profiles.py  | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 0862694..bc9c8f9 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -1469,7 +1469,8 @@ def mass_function(
 
     if np.sum(indx) >= nmass:
 
-        if kwargs.get('bintype','num')=='fix' or kwargs.get('mbintype','num')=='fix':
+        bintype,mbintype=kwargs.pop('bintype','num'),kwargs.pop('mbintype','num')
+        if bintype=='fix' or mbintype=='fix':
             m_lower, m_mean, m_upper, m_hist = binmaker(cluster.m[indx], nmass)
         else:
             m_lower, m_mean, m_upper, m_hist = nbinmaker(cluster.m[indx], nmass)
diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 36f132a..b0830dd 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -581,6 +581,8 @@ def alpha_prof(
     if plot:
         filename = kwargs.pop("filename", None)
         overplot = kwargs.pop("overplot", False)
+        kwargs.pop('bintype',None)
+        kwargs.pop('mbintype',None)
 
         if normalize:
             xlabel=r"$\ln(r/r_m)$"
-- 
2.43.0


From 3bc629a059a9466411e4dcf07bdf33a3bb939468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:10 +0000
Subject: [PATCH 058/133] fix: roaming_nbinmaker: the last bin counted values
 above it when the largest value is repeated

---
 clustertools/util/recipes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/util/recipes.py b/clustertools/util/recipes.py
index ce3978c..d9e3df5 100644
--- a/clustertools/util/recipes.py
+++ b/clustertools/util/recipes.py
@@ -205,7 +205,7 @@ def roaming_nbinmaker(x, nbin=10, ntot=20, nsum=False):
         if i<np.sum(indx)-1:
             xindx = (x >= x_lower[i]) * (x < x_upper[i])
         else:
-            xindx = (x >= x_lower[i])
+            xindx = (x >= x_lower[i]) * (x <= x_upper[i])
 
         x_hist = np.append(x_hist, np.sum(xindx))
         x_sum = np.append(x_sum, np.sum(x[xindx]))
-- 
2.43.0


From ceb46cffccc28e713dd4c9b44a5cb2d2c5ab222b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 059/133] fix: _convert_velocity: wrong or missing factors for
 WDunits and radec

---
 clustertools/util/units.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/clustertools/util/units.py b/clustertools/util/units.py
index b4a7d48..5d9d055 100644
--- a/clustertools/util/units.py
+++ b/clustertools/util/units.py
@@ -145,7 +145,7 @@ def _convert_velocity(x,units,cluster):
                     x*=1.022712165045695
             elif cluster.units=='kpckms' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
                 x*=cluster.vbar
-                if cluster.units=='kpcgyr':
+                if cluster.units=='kpcgyr' or cluster.units=='WDunits':
                     x*=1.022712165045695
             elif cluster.units=='galpy':
                 x*=cluster.vbar/cluster._vo
@@ -167,9 +167,11 @@ def _convert_velocity(x,units,cluster):
                 print('NO DIRECT CONVERSION AVAILABLE')
             elif cluster.units=='amuse':
                 x=x | u.kms
+            elif cluster.units=='pcmyr' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
+                x*=1.022712165045695
 
         elif units=='kpckms' or units=='kpcgyr' or units=='WDunits':
-            if units=='kpcgyr': 
+            if units=='kpcgyr' or units=='WDunits':
                 x/=1.022712165045695
             if cluster.units=='nbody':
                 x/=cluster.vbar
@@ -177,6 +179,8 @@ def _convert_velocity(x,units,cluster):
                 x= x | u.kms
             elif cluster.units=='galpy':
                 x/=cluster._vo
+            elif cluster.units=='pcmyr' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
+                x*=1.022712165045695
             elif cluster.units=='radec':
                 print('NO DIRECT CONVERSION AVAILABLE')
 
@@ -189,6 +193,8 @@ def _convert_velocity(x,units,cluster):
                     x*=1.022712165045695
             elif cluster.units=='kpckms' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
                 x*=cluster._vo
+                if cluster.units=='kpcgyr' or cluster.units=='WDunits':
+                    x*=1.022712165045695
             elif cluster.units=='nbody':
                 x*=(cluster._vo/cluster.vbar)
             elif cluster.units=='radec':
-- 
2.43.0


From d54c1697fbb68eefb1d584bed7275ca266f706e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 060/133] fix: _convert_square_velocity: wrong or missing
 factors for WDunits, kpcgyr and pcmyr

---
 clustertools/util/units.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/clustertools/util/units.py b/clustertools/util/units.py
index 5d9d055..d84d1e6 100644
--- a/clustertools/util/units.py
+++ b/clustertools/util/units.py
@@ -240,7 +240,7 @@ def _convert_square_velocity(x,units,cluster):
                     x*=(1.022712165045695**2.0)
             elif cluster.units=='kpckms' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
                 x*=(cluster.vbar**2.)
-                if cluster.units=='kpcgyr':
+                if cluster.units=='kpcgyr' or cluster.units=='WDunits':
                     x*=(1.022712165045695**2.0)
             elif cluster.units=='galpy':
                 x*=((cluster.vbar/cluster._vo)**2.)
@@ -264,10 +264,12 @@ def _convert_square_velocity(x,units,cluster):
                 print('NO DIRECT CONVERSION AVAILABLE')
             elif cluster.units=='amuse':
                 x=x | (u.kms*u.kms)
+            elif cluster.units=='pcmyr' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
+                x*=(1.022712165045695**2.0)
 
         elif units=='kpckms' or units=='kpcgyr' or units=='WDunits':
 
-            if units=='kpcgyr':
+            if units=='kpcgyr' or units=='WDunits':
                 x/=(1.022712165045695**2.0)
 
             if cluster.units=='nbody':
@@ -276,6 +278,8 @@ def _convert_square_velocity(x,units,cluster):
                 x= x | (u.kms*u.kms)
             elif cluster.units=='galpy':
                 x/=(cluster._vo**2.)
+            elif cluster.units=='pcmyr' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
+                x*=(1.022712165045695**2.0)
             elif cluster.units=='radec':
                 print('NO DIRECT CONVERSION AVAILABLE')
 
@@ -284,12 +288,12 @@ def _convert_square_velocity(x,units,cluster):
                 x*=(cluster._vo**2.)
                 if cluster.units=='amuse':
                     x= x | (u.kms*u.kms)
-                elif units=='pcmyr':
-                    x/=(1.022712165045695**2.0)
+                elif cluster.units=='pcmyr':
+                    x*=(1.022712165045695**2.0)
             elif cluster.units=='kpckms' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
                 x*=(cluster._vo**2.)
-                if units=='kpcgyr':
-                    x/=(1.022712165045695**2.0)
+                if cluster.units=='kpcgyr' or cluster.units=='WDunits':
+                    x*=(1.022712165045695**2.0)
             elif cluster.units=='nbody':
                 x*=((cluster._vo/cluster.vbar)**2.)
             elif cluster.units=='radec':
-- 
2.43.0


From 4b626c36d0524c17efff623081df65cb02eb75aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 061/133] fix: _convert_mass, _convert_density: galpy
 conversions called the undefined coords.mass_in_msol

---
 clustertools/util/units.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clustertools/util/units.py b/clustertools/util/units.py
index d84d1e6..29f56b4 100644
--- a/clustertools/util/units.py
+++ b/clustertools/util/units.py
@@ -423,12 +423,12 @@ def _convert_mass(x,units,cluster):
             if cluster.units=='amuse':
                 x= x | u.MSun
             elif cluster.units=='galpy':
-                x /= coords.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
+                x /= conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
             elif cluster.units=='WDunits':
                 x/=222288.4543021174
 
         elif units=='galpy':
-            x *= coords.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
+            x *= conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
 
             if cluster.units=='amuse':
                 x= x | u.MSun
@@ -445,7 +445,7 @@ def _convert_mass(x,units,cluster):
             elif cluster.units=='amuse':
                 x= x | u.MSun
             elif cluster.units=='galpy':
-                x /= coords.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
+                x /= conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
 
         else:
             if units=='amuse':
@@ -454,7 +454,7 @@ def _convert_mass(x,units,cluster):
             if cluster.units=='nbody':
                 x/=cluster.zmbar
             elif cluster.units=='galpy':
-                x /= coords.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
+                x /= conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
             elif cluster.units=='WDunits':
                 x/=222288.4543021174
             elif cluster.units=='amuse':
-- 
2.43.0


From 6b7933dc5a88f8757a68469bea25e82b8b58fdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 062/133] fix: _convert_density: projected densities in galpy
 or amuse units, density given in amuse units

---
 clustertools/util/units.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/clustertools/util/units.py b/clustertools/util/units.py
index 29f56b4..fccef08 100644
--- a/clustertools/util/units.py
+++ b/clustertools/util/units.py
@@ -489,13 +489,17 @@ def _convert_density(x,units,cluster,projected=False):
     if units!=cluster.units:
 
 
-        x=_convert_mass(x,units,cluster)
-
         if projected:
             power=2.0
         else:
             power=3.0
 
+        if units=='amuse':
+            x=x.value_in(u.MSun/u.parsec**power)
+            units='pckms'
+
+        x=_convert_mass(x,units,cluster)
+
 
         if units=='nbody':
             if cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
@@ -532,7 +536,7 @@ def _convert_density(x,units,cluster,projected=False):
             elif cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
                 x/=(1000.0**power)
                 if cluster.units=='amuse':
-                    x/= 1 | (u.parsec*u.parsec*u.parsec)
+                    x/= (1 | u.parsec)**power
             elif cluster.units=='galpy':
                 x*=(cluster._ro**power)
             elif cluster.units=='radec':
@@ -541,15 +545,15 @@ def _convert_density(x,units,cluster,projected=False):
 
         elif units=='galpy':
             if cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
-                x/=((1000.0*cluster._ro)**3.0)
+                x/=((1000.0*cluster._ro)**power)
                 if cluster.units=='amuse':
-                    x/= 1 | (u.parsec*u.parsec*u.parsec)
+                    x/= (1 | u.parsec)**power
             elif cluster.units=='kpckms' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
                 x/=(cluster._ro**power)
             elif cluster.units=='nbody':
                 x/=((cluster._ro*1000.0/cluster.rbar)**power)
             elif cluster.units=='radec':
-                x/=(cluster._ro**3.0)
+                x/=(cluster._ro**power)
                 kpc_deg=np.degrees(np.arctan2(1.0,cluster.zgc))
                 x/=(kpc_deg**power)
 
@@ -564,7 +568,7 @@ def _convert_density(x,units,cluster,projected=False):
                 elif cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
                     x/=(1000.0**power)
                     if cluster.units=='amuse':
-                        x/= 1 | (u.parsec*u.parsec*u.parsec)
+                        x/= (1 | u.parsec)**power
                 elif cluster.units=='galpy':
                     x*=(cluster._ro**power)
 
-- 
2.43.0


From ccf9ec8b231b07c41ffa2d69ad8dcc4ed8016fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:51 +0000
Subject: [PATCH 063/133] fix: rtidal: iterating changed the caller's mask

---
 clustertools/analysis/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index bc9c8f9..44bdb63 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -2440,7 +2440,7 @@ def rtidal(
     for i in range(0, rtiterate):
         msum = 0.0
 
-        indx *= cluster.r < rt
+        indx = indx * (cluster.r < rt)
         msum = np.sum(cluster.m[indx])
 
         rtnew = rtide(pot, R, z, M=msum,use_physical=False)
-- 
2.43.0


From 18b45f4180c527ff96ac1141db192cef42fad696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 064/133] fix: rcore: the isothermal core radius was not where
 a non-monotonic density profile first drops

---
 clustertools/analysis/functions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 44bdb63..0c9270a 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -2227,11 +2227,13 @@ def rcore(
 
         rindx=pprof < rho_c
 
-        r1=rprof[np.invert(rindx)][-1]
-        r2=rprof[rindx][0]
+        i2=np.argwhere(rindx)[0][0]
 
-        p1=pprof[np.invert(rindx)][-1]
-        p2=pprof[rindx][0]
+        r1=rprof[i2-1]
+        r2=rprof[i2]
+
+        p1=pprof[i2-1]
+        p2=pprof[i2]
        
         m=(p2-p1)/(r2-r1)
         b=p2-m*r2
-- 
2.43.0


From 42101cb308e35024958e7aa906b5b787f09472d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 065/133] fix: core_relaxation_time: the cluster's core radius
 was replaced by one in pc

---
 clustertools/analysis/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 0c9270a..43c2fea 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -650,10 +650,10 @@ def core_relaxation_time(cluster, coulomb=0.4, projected=False):
     mtot=np.sum(cluster.m)
     mbar=np.mean(cluster.m)
     if projected:
-        rc=cluster.rcore(projected=True)
+        rc=rcore(cluster,projected=True)
         rh=cluster.rmpro
     else:
-        rc=cluster.rcore()
+        rc=rcore(cluster)
         rh=cluster.rm
 
     trc=(0.39/lnlambda)*np.sqrt(rc**3./(grav*mtot))*(mtot/mbar)*np.sqrt(rc*rh)/(rc+rh)
-- 
2.43.0


From 21ced0cbde477f58fa3fe1071007caa456c5823f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:10 +0000
Subject: [PATCH 066/133] fix: rcore: plotting converted the default method's
 profile twice and failed in galpy units

---
 clustertools/analysis/functions.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 43c2fea..f434f20 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -2160,6 +2160,11 @@ def rcore(
 
         cluster.to_centre(sortstars=True)
 
+    mo=conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
+    dens_in_msolpc2=(mo/cluster._ro**2.)/(1000.0**2.)
+
+    cluster.to_pckms()
+
     if method=='casertano':
         
         if projected:
@@ -2192,15 +2197,10 @@ def rcore(
             rho_c=mc/volc
 
         cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
-        if cluster.units=='amuse': rc=_convert_length(rc,'pckms',cluster)
+        rc=_convert_length(rc,'pckms',cluster)
 
     else:
 
-        mo=conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
-        dens_in_msolpc2=(mo/cluster._ro**2.)/(1000.0**2.)
-
-        cluster.to_pckms()
-
         if projected:
             r=cluster.rpro
             rorder=cluster.rproorder
@@ -2294,14 +2294,14 @@ def rcore(
                 yunits = " Msun/kpc^3"
 
         elif cluster.units=='galpy':
-            rprof /=(1000.0*ro)
+            rprof /=(1000.0*cluster._ro)
 
             if projected:
                 pprof /= dens_in_msolpc2
                 rho_c /= dens_in_msolpc2
             else:
-                pprof /= conversion.dens_in_msolpc3(ro=ro, vo=vo) 
-                rho_c /= conversion.dens_in_msolpc3(ro=ro, vo=vo)               
+                pprof /= conversion.dens_in_msolpc3(ro=cluster._ro, vo=cluster._vo) 
+                rho_c /= conversion.dens_in_msolpc3(ro=cluster._ro, vo=cluster._vo)               
 
             xunits = "(GALPY)"
             yunits = "(GALPY)"
-- 
2.43.0


From 9212a85eb16de24e8674809866e17f93674620e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:39 +0000
Subject: [PATCH 067/133] fix: add_stars: star ids passed through floats, so
 that ids above 2^53 collided

---
 clustertools/cluster/cluster.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 73de9eb..9341dd9 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -188,7 +188,7 @@ class StarCluster(object):
         self.nb = 0
 
         # variables for add_stars
-        self.id = np.array([])
+        self.id = np.array([],dtype=int)
         self.m = np.array([])
         self.x = np.array([])
         self.y = np.array([])
@@ -332,8 +332,8 @@ class StarCluster(object):
         self.lum = np.array([])
 
         # variables for add_bse (binary star evolution information)
-        self.id1 = np.array([])
-        self.id2 = np.array([])
+        self.id1 = np.array([],dtype=int)
+        self.id2 = np.array([],dtype=int)
         self.kw1 = np.array([])
         self.kw2 = np.array([])
         self.kcm = np.array([])
@@ -466,10 +466,12 @@ class StarCluster(object):
         if nfloat[4]: vy=np.ones(npmax)*vy
         if nfloat[5]: vz=np.ones(npmax)*vz
         if nfloat[6]: m=np.ones(npmax)*m
-        if nfloat[7]: id=np.ones(npmax)*id
+        if nfloat[7]: id=np.full(npmax,id)
         if nfloat[8]: m0=np.ones(npmax)*m0
         if nfloat[9]: npop=np.ones(npmax)*npop
 
+        if id is not None: id=np.asarray(id).astype(int)
+
         #Check for AMUSE units:
         isamuse=False
 
-- 
2.43.0


From d819aee7467f23cec14bd45f64bd4107aaccb6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:03 +0000
Subject: [PATCH 068/133] fix: add_stars: stars given in AMUSE units lost their
 ids, could not be added twice or without a mass

---
 clustertools/cluster/cluster.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 9341dd9..d8c5ba2 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -480,14 +480,16 @@ class StarCluster(object):
                 stars=Particles(len(x))
                 stars.x,stars.y,stars.z=x,y,z
                 stars.vx,stars.vy,stars.vz=vx,vy,vz
-                stars.mass=m
-                stars.key=id
+                stars.mass=m if m is not None else np.ones(len(x)) | u.MSun
+
+                if self.ntot>0 and self.units is not None:
+                    self.to_pckms()
 
                 if isinstance(self.tphys,ScalarQuantity):
                     self.tphys=self.tphys.value_in(u.Myr)
 
                 self.units='pckms'                
-                x,y,z,vx,vy,vz,m,id=_convert_amuse(stars,self)
+                x,y,z,vx,vy,vz,m=_convert_amuse(stars,self)[:-1]
                 isamuse=True
 
 
-- 
2.43.0


From b28573be8833b631a035e013cf7b989bf6df9f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 069/133] fix: snapout: energies or sky coordinates could not
 be written without stellar types

---
 clustertools/util/output.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/clustertools/util/output.py b/clustertools/util/output.py
index 6437b57..c43c027 100644
--- a/clustertools/util/output.py
+++ b/clustertools/util/output.py
@@ -51,6 +51,12 @@ def snapout(cluster, filename, energies=False, radec=False):
     -------
     2018 - Written - Webb (UofT)
     """
+    # Columns after the stellar type keep their place if it is not known
+    if len(cluster.kw)==cluster.ntot:
+        kw=cluster.kw
+    else:
+        kw=np.zeros(cluster.ntot)
+
     if radec:
 
         ra, dec, d0, pmra, pmdec, vr0 = sky_coords(cluster)
@@ -68,7 +74,7 @@ def snapout(cluster, filename, energies=False, radec=False):
                         cluster.vy,
                         cluster.vz,
                         cluster.id,
-                        cluster.kw,
+                        kw,
                         cluster.kin,
                         cluster.pot,
                         cluster.etot,
@@ -94,7 +100,7 @@ def snapout(cluster, filename, energies=False, radec=False):
                         cluster.vy,
                         cluster.vz,
                         cluster.id,
-                        cluster.kw,
+                        kw,
                         ra,
                         dec,
                         d0,
@@ -119,7 +125,7 @@ def snapout(cluster, filename, energies=False, radec=False):
                         cluster.vy,
                         cluster.vz,
                         cluster.id,
-                        cluster.kw,
+                        kw,
                         cluster.kin,
                         cluster.pot,
                         cluster.etot,
-- 
2.43.0


From 45310f5b58c4017b38f5a1272b479148fca61655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 070/133] fix: gyrout: velocities were scaled by 220/solar_vo

---
 clustertools/util/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/util/output.py b/clustertools/util/output.py
index c43c027..34695ef 100644
--- a/clustertools/util/output.py
+++ b/clustertools/util/output.py
@@ -323,7 +323,7 @@ def gyrout(cluster, filename="init.nemo.dat",eps=None,epsunits=None,ro=solar_ro,
     2019 - Written - Webb (UofT)
 
     """
-    vcon = 220.0 / conversion.velocity_in_kpcGyr(vo=solar_vo, ro=solar_ro)
+    vcon = vo / conversion.velocity_in_kpcGyr(vo=vo, ro=ro)
     mcon = 222288.4543021174
 
     cluster.save_cluster()
-- 
2.43.0


From 77bda06e54406e880d3bac0e3b28b61fbe383bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:39 +0000
Subject: [PATCH 071/133] fix: gyrout: the softening lengths passed in were
 converted in place, a whole number was refused

---
 clustertools/util/output.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/clustertools/util/output.py b/clustertools/util/output.py
index 34695ef..6753dc6 100644
--- a/clustertools/util/output.py
+++ b/clustertools/util/output.py
@@ -337,10 +337,12 @@ def gyrout(cluster, filename="init.nemo.dat",eps=None,epsunits=None,ro=solar_ro,
         if epsunits is None:
             epsunits=units0
 
+        if epsunits!='amuse':
+            eps=np.array(eps,dtype=float)
+
         eps=_convert_length(eps,epsunits,cluster)
 
-        if isinstance(eps,float):
-            eps=np.ones(cluster.ntot)*eps
+        eps=np.ones(cluster.ntot)*eps
 
         np.savetxt(
                 filename,
-- 
2.43.0


From 0a485b571d264361ca3a38535eeca1da4a21bdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:57 +0000
Subject: [PATCH 072/133] fix: snapshot loaders: a file with a single star
 raised IndexError

---
 clustertools/io/gyrfalcon.py | 2 +-
 clustertools/io/snapshot.py  | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/clustertools/io/gyrfalcon.py b/clustertools/io/gyrfalcon.py
index f69fde5..df94677 100644
--- a/clustertools/io/gyrfalcon.py
+++ b/clustertools/io/gyrfalcon.py
@@ -282,7 +282,7 @@ def _get_new_gyrfalcon(
         nskip=(skiprows+ntot)*cluster.nsnap+skiprows
 
     try:
-        data=np.loadtxt(filename,skiprows=nskip,max_rows=ntot)
+        data=np.loadtxt(filename,skiprows=nskip,max_rows=ntot,ndmin=2)
     except StopIteration:
         print("END OF FILE")
         return StarCluster(0.0,ctype="new_nemo",**kwargs)
diff --git a/clustertools/io/snapshot.py b/clustertools/io/snapshot.py
index 327ca98..9d32439 100644
--- a/clustertools/io/snapshot.py
+++ b/clustertools/io/snapshot.py
@@ -81,13 +81,14 @@ def _get_snapshot(
                 "%s%s%s" % (wdir, snapdir, filename),
                 delimiter=delimiter,
                 skiprows=skiprows,
+                ndmin=2,
             )
         elif os.path.isfile("%s%s" % (wdir, filename)):
             data = np.loadtxt(
-                "%s%s" % (wdir, filename), delimiter=delimiter, skiprows=skiprows
+                "%s%s" % (wdir, filename), delimiter=delimiter, skiprows=skiprows, ndmin=2
             )
         elif os.path.isfile(filename):
-            data = np.loadtxt(filename, delimiter=delimiter, skiprows=skiprows
+            data = np.loadtxt(filename, delimiter=delimiter, skiprows=skiprows, ndmin=2
             )
         else:
             print("NO FILE FOUND: %s, %s, %s" % (wdir, snapdir, filename))
@@ -110,6 +111,7 @@ def _get_snapshot(
             ),
             delimiter=delimiter,
             skiprows=skiprows,
+            ndmin=2,
         )
     elif os.path.isfile(
         "%s%s%s%s" % (wdir, snapbase, str(nsnap).zfill(nzfill), snapend)
@@ -119,6 +121,7 @@ def _get_snapshot(
             ("%s%s%s%s" % (wdir, snapbase, str(nsnap).zfill(nzfill), snapend)),
             delimiter=delimiter,
             skiprows=skiprows,
+            ndmin=2,
         )
     else:
         print(
-- 
2.43.0


From 50ed041aad142e3413cc54d5c389f4662a2e3606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:57 +0000
Subject: [PATCH 073/133] fix: astropy_table loader: the caller's column mapper
 was emptied

---
 clustertools/io/astropy_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/io/astropy_table.py b/clustertools/io/astropy_table.py
index e9df60f..c8631aa 100644
--- a/clustertools/io/astropy_table.py
+++ b/clustertools/io/astropy_table.py
@@ -70,7 +70,7 @@ def _get_astropy_table(
     2020 - Written - Starkman (UofT)
     """
 
-    cm = column_mapper or {}  # None -> {}
+    cm = dict(column_mapper or {})  # None -> {}
 
     if column_mapper is None:
         # lower-case colum names
-- 
2.43.0


From 908162b397f54a4eddff780d0377a07d2a49d9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:05 +0000
Subject: [PATCH 074/133] fix: amuse and galpy loaders: an orbit file raised
 NameError

---
 clustertools/io/amuse.py   | 2 +-
 clustertools/io/galpydf.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/io/amuse.py b/clustertools/io/amuse.py
index 0b55c70..9db7e54 100644
--- a/clustertools/io/amuse.py
+++ b/clustertools/io/amuse.py
@@ -24,7 +24,7 @@ except:
 
 
 def _get_amuse_particles(
-    particles, units=None, origin=None, ofile=None, **kwargs
+    particles, units=None, origin=None, ofile=None, advance=False, **kwargs
 ):
     """Convert AMUSE particle dataset to a StarCluster instance
 
diff --git a/clustertools/io/galpydf.py b/clustertools/io/galpydf.py
index 2d71c9d..421d6a5 100644
--- a/clustertools/io/galpydf.py
+++ b/clustertools/io/galpydf.py
@@ -11,7 +11,7 @@ from ..util.constants import *
 from .orbit import _get_cluster_orbit
 
 def _get_galpy_orbits(
-    orbits, units=None, origin=None, ofile=None,ro=solar_ro,vo=solar_vo,**kwargs
+    orbits, units=None, origin=None, ofile=None,advance=False,ro=solar_ro,vo=solar_vo,**kwargs
 ):
     """Convert galpy orbits to a StarCluster instance
 
-- 
2.43.0


From a177212a8237f8f3ab9a1d0386703631f40603e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:36 +0000
Subject: [PATCH 075/133] fix: add_orbit: times in N-body units were taken to
 be in Gyr rather than Myr

---
 clustertools/cluster/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index d8c5ba2..25c1337 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -897,7 +897,7 @@ class StarCluster(object):
                     vxgc *= self.vbar
                     vygc *= self.vbar
                     vzgc *= self.vbar
-                    tphys *= self.tbar
+                    tphys *= self.tbar / 1000.0
                 elif ounits == "galpy":
                     xgc *= ro
                     ygc *= ro
-- 
2.43.0


From 73f74e64d0191b381e10e7a492f3d41b98dba456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:04 +0000
Subject: [PATCH 076/133] fix: add_orbit: orbits were not converted to pcmyr,
 kpcgyr, WDunits, amuse or radec, nor from WDunits or amuse

---
 clustertools/cluster/cluster.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 25c1337..d99df92 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -24,6 +24,7 @@ from ..tidaltail.tails import *
 from copy import copy
 from galpy.orbit import Orbit
 from ..util.constants import *
+from ..util.coordinates import cart_to_sky
 
 try:
     import amuse.units.units as u
@@ -919,12 +920,21 @@ class StarCluster(object):
                     vygc/=1.022712165045695
                     vzgc/=1.022712165045695
                     tphys /= 1000.0
-                elif ounits == 'kpcgyr':
+                elif ounits == 'kpcgyr' or ounits == 'WDunits':
                     vxgc/=1.022712165045695
                     vygc/=1.022712165045695
                     vzgc/=1.022712165045695
 
 
+                elif ounits == 'amuse':
+                    xgc=xgc.value_in(u.kpc)
+                    ygc=ygc.value_in(u.kpc)
+                    zgc=zgc.value_in(u.kpc)
+                    vxgc=vxgc.value_in(u.kms)
+                    vygc=vygc.value_in(u.kms)
+                    vzgc=vzgc.value_in(u.kms)
+                    if otime: tphys=tphys.value_in(u.Gyr)
+
                 elif ounits == 'radec':
                     o=Orbit([xgc,ygc,zgc,vxgc,vygc,vzgc],radec=True,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
                     xgc=o.x()
@@ -941,6 +951,24 @@ class StarCluster(object):
                 ygc *= 1000.0
                 zgc *= 1000.0
                 tphys *= 1000.0
+            elif self.units == "pcmyr":
+                xgc *= 1000.0
+                ygc *= 1000.0
+                zgc *= 1000.0
+                vxgc *= 1.022712165045695
+                vygc *= 1.022712165045695
+                vzgc *= 1.022712165045695
+                tphys *= 1000.0
+            elif self.units == "kpcgyr" or self.units == "WDunits":
+                vxgc *= 1.022712165045695
+                vygc *= 1.022712165045695
+                vzgc *= 1.022712165045695
+            elif self.units == "amuse":
+                xgc,ygc,zgc=xgc*1000.0 | u.parsec,ygc*1000.0 | u.parsec,zgc*1000.0 | u.parsec
+                vxgc,vygc,vzgc=vxgc | u.kms,vygc | u.kms,vzgc | u.kms
+                tphys=tphys*1000.0 | u.Myr
+            elif self.units == "radec":
+                xgc,ygc,zgc,vxgc,vygc,vzgc=cart_to_sky(xgc,ygc,zgc,vxgc,vygc,vzgc,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
             elif self.units == "nbody":
                 xgc *= 1000.0 / self.rbar
                 ygc *= 1000.0 / self.rbar
-- 
2.43.0


From 4799d612b47ee75b62aff848cabd2e3ef9e6fb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:04 +0000
Subject: [PATCH 077/133] fix: load_cluster: the orbit file was ignored for
 gyrfalcon snapshots

---
 clustertools/io/load.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 79aff57..ec20d95 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -229,13 +229,13 @@ def load_cluster(
         filename=_get_filename(filename,**kwargs)
         filein = open(filename, "r")
 
-        cluster = _get_gyrfalcon(filein, units=units, origin=origin, advance=False, **kwargs)
+        cluster = _get_gyrfalcon(filein, units=units, origin=origin, ofile=ofile, advance=False, **kwargs)
 
     elif ctype == "new_gyrfalcon" or ctype=='new_nemo':
         # Read in snapshot from gyrfalcon.
         filename=_get_filename(filename,**kwargs)
 
-        cluster = _get_new_gyrfalcon(filename, units=units, origin=origin, advance=False, **kwargs)
+        cluster = _get_new_gyrfalcon(filename, units=units, origin=origin, ofile=ofile, advance=False, **kwargs)
 
     elif ctype=='amuse':
         filename=_get_filename(filename,**kwargs)
-- 
2.43.0


From 5516550250d7f3482533b71398bd41129f160984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:40 +0000
Subject: [PATCH 078/133] fix: load_cluster, advance_cluster: a galpy orbit was
 added in the wrong units, or raised NameError

---
 clustertools/io/load.py | 99 ++++++++++++++++-------------------------
 1 file changed, 39 insertions(+), 60 deletions(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index ec20d95..893a598 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -291,47 +291,7 @@ def load_cluster(
     # Add galpy orbit if given
     if orbit is not None:
         cluster.orbit = orbit
-        if cluster.units == "pckms":
-            t = (cluster.tphys / 1000.0) / conversion.time_in_Gyr(ro=solar_ro, vo=solar_vo)
-            cluster.add_orbit(
-                orbit.x(t) * 1000.0,
-                orbit.y(t) * 1000.0,
-                orbit.z(t) * 1000.0,
-                orbit.vx(t),
-                orbit.vy(t),
-                orbit.vz(t),
-            )
-        if cluster.units == "kpckms":
-            cluster.add_orbit(
-                orbit.x(t),
-                orbit.y(t),
-                orbit.z(t),
-                orbit.vx(t),
-                orbit.vy(t),
-                orbit.vz(t),
-            )
-        elif cluster.units == "nbody":
-            t = (cluster.tphys * cluster.tbar / 1000.0) / conversion.time_in_Gyr(
-                ro=solar_ro, vo=solar_vo
-            )
-            cluster.add_orbit(
-                orbit.x(t) * 1000.0 / cluster.rbar,
-                orbit.y(t) * 1000.0 / cluster.rbar,
-                orbit.z(t) * 1000.0 / cluster.rbar,
-                orbit.vx(t) / cluster.vbar,
-                orbit.vy(t) / cluster.vbar,
-                orbit.vz(t) / cluster.vbar,
-            )
-        elif cluster.units == "galpy":
-            t = cluster.tphys
-            cluster.add_orbit(
-                orbit.x(t) / 8.0,
-                orbit.y(t) / 8.0,
-                orbit.z(t) / 8.0,
-                orbit.vx(t) / 220.0,
-                orbit.vy(t) / 220.0,
-                orbit.vz(t) / 220.0,
-            )
+        _add_galpy_orbit(cluster, orbit)
 
         cluster.save_cluster()
         units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
@@ -624,28 +584,47 @@ def advance_cluster(
         # Add galpy orbit if given
         if orbit != None:
             cluster.orbit = orbit
-            if cluster.units == "pckms" or cluster.units == "kpckms":
-                t = (cluster.tphys / 1000.0) / conversion.time_in_Gyr(
-                    ro=solar_ro, vo=solar_vo
-                )
-            elif cluster.units == "nbody":
-                t = (
-                    cluster.tphys * cluster.tbar / 1000.0
-                ) / conversion.time_in_Gyr(ro=solar_ro, vo=solar_vo)
-            elif cluster.units == "galpy":
-                t = cluster.tphys
-
-            cluster.add_orbit(
-                orbit.x(t),
-                orbit.y(t),
-                orbit.z(t),
-                orbit.vx(t),
-                orbit.vy(t),
-                orbit.vz(t),
-            )
+            _add_galpy_orbit(cluster, orbit)
 
     return cluster
 
+def _add_galpy_orbit(cluster, orbit):
+    """Set the cluster's orbital position and velocity to those of a galpy orbit at the cluster's time
+
+    Parameters
+    ----------
+    cluster : class
+        StarCluster
+    orbit : class
+        galpy orbit
+
+    Returns
+    -------
+    None
+    """
+    if cluster.units == "amuse":
+        t = cluster.tphys.value_in(u.Gyr)
+    elif cluster.units == "pckms" or cluster.units == "pcmyr":
+        t = cluster.tphys / 1000.0
+    elif cluster.units == "nbody":
+        t = cluster.tphys * cluster.tbar / 1000.0
+    elif cluster.units == "galpy":
+        t = cluster.tphys * conversion.time_in_Gyr(ro=cluster._ro, vo=cluster._vo)
+    else:
+        t = cluster.tphys
+
+    t /= conversion.time_in_Gyr(ro=solar_ro, vo=solar_vo)
+
+    cluster.add_orbit(
+        orbit.x(t),
+        orbit.y(t),
+        orbit.z(t),
+        orbit.vx(t),
+        orbit.vy(t),
+        orbit.vz(t),
+        "kpckms",
+    )
+
 def _get_filename(filename,**kwargs):
     """assemble filename from **kwargs
 
-- 
2.43.0


From 3e6bf0048e2c0c02aefc28a7f69b76369c7834c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:49 +0000
Subject: [PATCH 079/133] fix: load_cluster: initialize=True used another solar
 motion than the cluster's

---
 clustertools/io/load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 893a598..ad675e1 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -305,7 +305,7 @@ def load_cluster(
     elif initialize:
         origin0=cluster.origin
         cluster.to_galaxy()
-        solarmotion=kwargs.get('solarmotion',[-11.1, 24.0, 7.25])
+        solarmotion=kwargs.get('solarmotion',cluster._solarmotion)
         initialize_orbit(cluster,solarmotion=solarmotion)
         cluster.to_origin(origin0)
         
-- 
2.43.0


From 0a70d6e09a8438c252258295ce55d0f520a8613a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:17 +0000
Subject: [PATCH 080/133] fix: amuse loader: particles could not be read into
 nbody, galpy or WDunits clusters

---
 clustertools/util/units.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/clustertools/util/units.py b/clustertools/util/units.py
index fccef08..1fe0d72 100644
--- a/clustertools/util/units.py
+++ b/clustertools/util/units.py
@@ -626,6 +626,14 @@ def _convert_amuse(particles,cluster):
         vx = particles.vx.value_in(u.parsec/u.Myr)
         vy = particles.vy.value_in(u.parsec/u.Myr)
         vz = particles.vz.value_in(u.parsec/u.Myr)
+    else:
+        m = _convert_mass(particles.mass.value_in(u.MSun),'pckms',cluster)
+        x = _convert_length(particles.x.value_in(u.parsec),'pckms',cluster)
+        y = _convert_length(particles.y.value_in(u.parsec),'pckms',cluster)
+        z = _convert_length(particles.z.value_in(u.parsec),'pckms',cluster)
+        vx = _convert_velocity(particles.vx.value_in(u.kms),'pckms',cluster)
+        vy = _convert_velocity(particles.vy.value_in(u.kms),'pckms',cluster)
+        vz = _convert_velocity(particles.vz.value_in(u.kms),'pckms',cluster)
 
     return x,y,z,vx,vy,vz,m,ids
 
-- 
2.43.0


From 86f6523065a30dea3d64bb6b648307a4d530d8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:08 +0000
Subject: [PATCH 081/133] fix: new_gyrfalcon: advancing past the last snapshot
 raised IndexError

---
 clustertools/io/gyrfalcon.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clustertools/io/gyrfalcon.py b/clustertools/io/gyrfalcon.py
index df94677..a6d37c2 100644
--- a/clustertools/io/gyrfalcon.py
+++ b/clustertools/io/gyrfalcon.py
@@ -284,6 +284,9 @@ def _get_new_gyrfalcon(
     try:
         data=np.loadtxt(filename,skiprows=nskip,max_rows=ntot,ndmin=2)
     except StopIteration:
+        data=np.array([])
+
+    if len(data)==0:
         print("END OF FILE")
         return StarCluster(0.0,ctype="new_nemo",**kwargs)
 
-- 
2.43.0


From f89df79c679f6ca8cc5a9212fea1b5b58136d8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:39 +0000
Subject: [PATCH 082/133] fix: advance_cluster: a run continued in cont/ raised
 KeyError/UnboundLocalError and lost its units, origin and columns

---
 clustertools/io/load.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index ad675e1..e1ef390 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -355,15 +355,13 @@ def advance_cluster(
     2018 - Written - Webb (UofT)
     """
     nsnap=None
+    cluster0=cluster
     advance_kwargs, kwargs = _get_advanced_kwargs(cluster, **kwargs)
     #filename=_get_filename(filename,**advance_kwargs)
 
     if ofile is None:
         ofile=cluster.ofile
 
-    if kwargs.get("ofilename", None) is None:
-        ofilename=cluster.ofilename
-
     wdir = advance_kwargs.get("wdir", "")
     if wdir != "":
         if wdir[-1] != '/':
@@ -547,32 +545,32 @@ def advance_cluster(
 
     # Check for restart
     if cluster.ntot == 0.0:
-        try:
-            wdir = cluster.wdir + "cont/"
-        except:
-            wdir = "./cont/"
+        wdir += "cont/"
 
 
         if os.path.exists(wdir):
 
             if ofile is not None:
                 ofilename = ofile.name.split('/')[-1]
-                kwargs.pop('ofilename')
+                kwargs.pop('ofilename',None)
                 ofile=None
             else:
-                ofilename=kwargs.pop('ofilename',ofilename)
+                ofilename=kwargs.pop('ofilename',cluster0.ofilename)
+
+            if cluster0.ctype == "snapshot" and load_function is None:
+                kwargs.update(col_names=col_names,col_nums=col_nums)
 
             old_wdir=advance_kwargs.pop('wdir')
 
             if nsnap is None:
 
                 cluster = load_cluster(
-                    ctype=cluster.ctype,units=cluster.units_init,origin=cluster.origin_init,orbit=orbit,filename=filename,load_function=load_function,wdir=wdir,ofilename=ofilename,**advance_kwargs, **kwargs,
+                    ctype=cluster0.ctype,units=cluster0.units_init,origin=cluster0.origin_init,orbit=orbit,filename=filename,load_function=load_function,wdir=wdir,ofilename=ofilename,**advance_kwargs, **kwargs,
                 )
 
             else:
                    cluster = load_cluster(
-                    ctype=cluster.ctype,units=cluster.units_init,origin=cluster.origin_init,orbit=orbit,filename=filename,nsnap=nsnap,load_function=load_function,wdir=wdir,ofilename=ofilename,**advance_kwargs, **kwargs,
+                    ctype=cluster0.ctype,units=cluster0.units_init,origin=cluster0.origin_init,orbit=orbit,filename=filename,nsnap=nsnap,load_function=load_function,wdir=wdir,ofilename=ofilename,**advance_kwargs, **kwargs,
                 )         
 
     if cluster.ntot != 0.0:
-- 
2.43.0


From 73840a1b31b7bc9569efd8e46060efb4462574e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:23 +0000
Subject: [PATCH 083/133] fix: initialize_orbit, initialize_orbits: positions
 and velocities wrong when ro or vo differ from the cluster's

---
 clustertools/analysis/orbits.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index b7bbecc..bf0bca9 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -92,7 +92,7 @@ def initialize_orbit(cluster, from_centre=False, ro=None, vo=None, zo = None, so
         cluster.save_cluster()
         units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
 
-        cluster.to_galpy()
+        cluster.to_kpckms()
 
         x, y, z = cluster.xgc, cluster.ygc, cluster.zgc
         vx, vy, vz = cluster.vxgc, cluster.vygc, cluster.vzgc
@@ -105,6 +105,8 @@ def initialize_orbit(cluster, from_centre=False, ro=None, vo=None, zo = None, so
             vy+=cluster.vyc
             vz+=cluster.vzc
 
+        x, y, z = x / ro, y / ro, z / ro
+        vx, vy, vz = vx / vo, vy / vo, vz / vo
 
         R, phi, z = coords.rect_to_cyl(x, y, z)
         vR, vT, vz = coords.rect_to_cyl_vec(vx, vy, vz, x, y, z)
@@ -169,10 +171,10 @@ def initialize_orbits(cluster, ro=None, vo=None, zo = None, solarmotion=None):
         cluster.save_cluster()
         units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
 
-        cluster.to_galpy()
+        cluster.to_kpckms()
      
-        x, y, z = cluster.x, cluster.y, cluster.z
-        vx, vy, vz = cluster.vx, cluster.vy, cluster.vz
+        x, y, z = cluster.x / ro, cluster.y / ro, cluster.z / ro
+        vx, vy, vz = cluster.vx / vo, cluster.vy / vo, cluster.vz / vo
 
         R, phi, z = coords.rect_to_cyl(x, y, z)
         vR, vT, vz = coords.rect_to_cyl_vec(vx, vy, vz, x, y, z)
-- 
2.43.0


From 4392e598160a6ae8e84cec4f964922eabb621122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:24 +0000
Subject: [PATCH 084/133] fix: interpolate_orbit(s): default tfinal raised
 AttributeError for AMUSE clusters

---
 clustertools/analysis/orbits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index bf0bca9..ae5c315 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -384,7 +384,7 @@ def interpolate_orbit(
 
     if cluster.units=='amuse':
         cluster.to_pckms()
-        tfinal=tfinal.value_in(u.Myr)
+        if tfinal is not None: tfinal=tfinal.value_in(u.Myr)
 
     ts,o=_integrate_orbit(cluster, pot=pot, tfinal=tfinal, nt=nt, from_centre=from_centre, ro=ro, vo=vo,zo=zo,solarmotion=solarmotion, plot=False)
 
@@ -466,7 +466,7 @@ def interpolate_orbits(
 
     if cluster.units=='amuse':
         cluster.to_pckms()
-        tfinal=tfinal.value_in(u.Myr)
+        if tfinal is not None: tfinal=tfinal.value_in(u.Myr)
 
     if cluster.origin=='centre':
         ts,o=_integrate_orbits(cluster, pot=pot, tfinal=tfinal, nt=nt, ro=ro, vo=vo, zo=zo,solarmotion=[0,0,0], plot=False)
-- 
2.43.0


From dd50953e145aac034273c33b482f5edf72f884fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:24 +0000
Subject: [PATCH 085/133] fix: orbit_interpolate, orbits_interpolate: raised
 TypeError/NameError

---
 clustertools/analysis/orbits.py | 4 ++--
 clustertools/cluster/cluster.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index ae5c315..b88dd06 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -548,7 +548,7 @@ def orbit_interpolate(
     -------
     2021 - Written - Webb (UofT)
     """
-    return interpolate_orbit(cluster, pot=pot, tfinal=tfinal, nt=nt, ro=ro, vo=vo,zo=zo,solarmotion=solarmotion,plot=False)
+    return interpolate_orbit(cluster, pot=pot, tfinal=tfinal, nt=nt, ro=ro, vo=vo,zo=zo,solarmotion=solarmotion)
 
 def orbits_interpolate(
     cluster,
@@ -596,7 +596,7 @@ def orbits_interpolate(
     -------
     2021 - Written - Webb (UofT)
     """
-    return interpolate_orbits(cluster, cluster_pot=cluster_pot, pot=pot, tfinal=tfinal, nt=nt, ro=ro, vo=vo,zo=zo,solarmotion=solarmotion,plot=False)
+    return interpolate_orbits(cluster, pot=pot, tfinal=tfinal, nt=nt, ro=ro, vo=vo,zo=zo,solarmotion=solarmotion)
 
 
 def orbital_path(
diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index d99df92..3612a0c 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -3500,7 +3500,7 @@ class StarCluster(object):
         -------
         2021 - Written - Webb (UofT)
         """
-        self.interpolate_orbit(self,pot=pot,tfinal=tfinal,nt=nt,from_centre=from_centre,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+        return self.interpolate_orbit(pot=pot,tfinal=tfinal,nt=nt,from_centre=from_centre,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
 
 
     def interpolate_orbits(self,pot=None,tfinal=None,nt=1000,ro=None,vo=None,zo=None,solarmotion=None):
@@ -3609,7 +3609,7 @@ class StarCluster(object):
         -------
         2021 - Written - Webb (UofT)
         """
-        self.interpolate_orbits(self,pot=pot,tfinal=tfinal,nt=nt,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+        return self.interpolate_orbits(pot=pot,tfinal=tfinal,nt=nt,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
 
     def orbital_path(self,tfinal=0.1,nt=1000,pot=None,from_centre=False,
         skypath=False,initialize=False,ro=None,vo=None,zo=None,solarmotion=None, plot=False,**kwargs):
-- 
2.43.0


From beb8416148ddec7190f51a67536c0e1c6ff9c626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:24 +0000
Subject: [PATCH 086/133] fix: orbital_path: times wrong when ro or vo differ
 from the cluster's

---
 clustertools/analysis/orbits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index b88dd06..c0c3292 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -752,7 +752,7 @@ def orbital_path(
         vx=_convert_velocity(vx,'kpckms',cluster)
         vy=_convert_velocity(vy,'kpckms',cluster)
         vz=_convert_velocity(vz,'kpckms',cluster)
-        t=_convert_time(ts,'galpy',cluster)
+        t=_convert_time(ts * conversion.time_in_Gyr(ro=ro, vo=vo),'kpckms',cluster)
 
         if plot:
             filename = kwargs.pop("filename", None)
-- 
2.43.0


From 248b636bc202669ef52b7233a616eb573d88d6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:05 +0000
Subject: [PATCH 087/133] fix: orbital_path_match, tail_path: tfinal was taken
 in Gyr whatever the cluster's units

---
 clustertools/analysis/orbits.py | 4 ++++
 clustertools/tidaltail/tails.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index c0c3292..081452b 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -854,6 +854,10 @@ def orbital_path_match(
         cluster.to_galaxy(sortstars=False)
         cluster.to_kpckms()
 
+    #tfinal is in the units cluster initially has (or Gyr if no units are given with amuse)
+    if tfinal is not None and (units0!='amuse' or hasattr(tfinal,'value_in')):
+        tfinal=_convert_time(tfinal,units0,cluster)
+
     if path is None:
         ts, x, y, z, vx, vy, vz = orbital_path(
             cluster,
diff --git a/clustertools/tidaltail/tails.py b/clustertools/tidaltail/tails.py
index 93604a7..8586e29 100644
--- a/clustertools/tidaltail/tails.py
+++ b/clustertools/tidaltail/tails.py
@@ -168,6 +168,10 @@ def tail_path(
     if dmax is not None:
         dmax=_convert_length(dmax,units0,cluster)
 
+    #tfinal is assumed to have same units as cluster initially has (or Gyr if no units are given with amuse)
+    if tfinal is not None and (units0!='amuse' or hasattr(tfinal,'value_in')):
+        tfinal=_convert_time(tfinal,units0,cluster)
+
     top, xop, yop, zop, vxop, vyop, vzop = orbital_path(
         cluster,
         tfinal=tfinal,
-- 
2.43.0


From 939745736febcfc53d8e6582b6e39ae10d9a0c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 088/133] fix: orbital_path_match: path given in the cluster's
 units was taken in kpc and Gyr

---
 clustertools/analysis/orbits.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 081452b..688f820 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -873,7 +873,14 @@ def orbital_path_match(
             solarmotion=solarmotion,
         )
     else:
-        ts, x, y, z, vx, vy, vz = path
+        ts, x, y, z, vx, vy, vz = [p.copy() if hasattr(p,'copy') else p for p in path]
+
+        #path has the units cluster initially has (or kpckms if no units are given with amuse)
+        if units0!='amuse' or hasattr(ts,'value_in'):
+            ts=_convert_time(ts,units0,cluster)
+            if not skypath:
+                x,y,z=[_convert_length(p,units0,cluster) for p in (x,y,z)]
+                vx,vy,vz=[_convert_velocity(p,units0,cluster) for p in (vx,vy,vz)]
 
     pindx = np.argmin(np.fabs(ts))
 
-- 
2.43.0


From 0c9b138906631ace8441c802df024f690ff38734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 089/133] fix: orbital_path_match: dprog was not the distance
 along the path for curved paths

---
 clustertools/analysis/orbits.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 688f820..ed7eefe 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -907,18 +907,12 @@ def orbital_path_match(
     dyo = y[1:] - y[0:-1]
     dzo = z[1:] - z[0:-1]
 
-    dprogx = np.cumsum(np.fabs(dxo))
-    dprogy = np.cumsum(np.fabs(dyo))
-    dprogz = np.cumsum(np.fabs(dzo))
-
-    dprogx = np.insert(dprogx, 0, 0.0)
-    dprogy = np.insert(dprogy, 0, 0.0)
-    dprogz = np.insert(dprogz, 0, 0.0)
-
     if projected:
-        dprogr = np.sqrt(dprogx ** 2.0 + dprogy ** 2.0)
+        dprogr = np.cumsum(np.sqrt(dxo ** 2.0 + dyo ** 2.0))
     else:
-        dprogr = np.sqrt(dprogx ** 2.0 + dprogy ** 2.0 + dprogz ** 2.0)
+        dprogr = np.cumsum(np.sqrt(dxo ** 2.0 + dyo ** 2.0 + dzo ** 2.0))
+
+    dprogr = np.insert(dprogr, 0, 0.0)
 
     dprog = dprogr[indx] - dprogr[pindx]
 
-- 
2.43.0


From d365c97d81a6e822ce978da8adc54e7811649370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 090/133] fix: orbital_path_match: do_full=True with
 to_path=True raised ValueError

---
 clustertools/analysis/orbits.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index ed7eefe..0311828 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -923,21 +923,22 @@ def orbital_path_match(
         dzo = np.append(dzo, dzo[-1])
 
         if do_full:
+            sindx = np.arange(0, cluster.ntot)
             # Typically it is too expensive to calculate dpath all at once, but will allow option via do_full
 
             if projected:
                 ovec = np.column_stack([dxo, dyo])
                 mag_ovec = np.sqrt(dxo ** 2.0 + dyo ** 2.0)
-                svec = np.column_stack([dx[:, indx], dy[:, indx]])
-                mag_svec = dr[:, indx]
-                theta = np.arccos(np.dot(ovec[indx], svec) / (mag_ovec[indx] * mag_svec))
+                svec = np.column_stack([dx[sindx, indx], dy[sindx, indx]])
+                mag_svec = dr[sindx, indx]
+                theta = np.arccos(np.sum(ovec[indx] * svec, axis=1) / (mag_ovec[indx] * mag_svec))
                 dpath = mag_svec * np.sin(theta)
             else:
                 ovec = np.column_stack([dxo, dyo, dzo])
                 mag_ovec = np.sqrt(dxo ** 2.0 + dyo ** 2.0 + dzo ** 2.0)
-                svec = np.column_stack([dx[:, indx], dy[:, indx], dz[:, indx]])
-                mag_svec = dr[:, indx]
-                theta = np.arccos(np.dot(ovec[indx], svec) / (mag_ovec[indx] * mag_svec))
+                svec = np.column_stack([dx[sindx, indx], dy[sindx, indx], dz[sindx, indx]])
+                mag_svec = dr[sindx, indx]
+                theta = np.arccos(np.sum(ovec[indx] * svec, axis=1) / (mag_ovec[indx] * mag_svec))
                 dpath = mag_svec * np.sin(theta)
         else:
             # Need to optimize this via numba
-- 
2.43.0


From 1c57e439a7d535f636f31b163a3517947b6ff0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 091/133] fix: orbital_path_match: distances on the sky were
 converted from kpc to the cluster's units

---
 clustertools/analysis/orbits.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 0311828..d02d45f 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -1015,7 +1015,9 @@ def orbital_path_match(
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
 
     tstar=_convert_time(tstar,'kpckms',cluster)
-    dprog=_convert_length(dprog,'kpckms',cluster)
-    dpath=_convert_length(dpath,'kpckms',cluster)
+    #sky distances are in degrees
+    if not skypath or cluster.units=='amuse':
+        dprog=_convert_length(dprog,'kpckms',cluster)
+        dpath=_convert_length(dpath,'kpckms',cluster)
 
     return np.array(tstar), np.array(dprog), np.array(dpath)
\ No newline at end of file
-- 
2.43.0


From d40f29be298f1f2b8fa166002bb56514e6aebc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 092/133] fix: tail_path: sky coordinates did not use the
 cluster's solar position and motion

---
 clustertools/tidaltail/tails.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/clustertools/tidaltail/tails.py b/clustertools/tidaltail/tails.py
index 8586e29..d04c3a8 100644
--- a/clustertools/tidaltail/tails.py
+++ b/clustertools/tidaltail/tails.py
@@ -232,7 +232,13 @@ def tail_path(
 
 
     if skypath:
-        ratail,dectail,disttail,pmratail,pmdectail,vlostail=cart_to_sky(xtail, ytail, ztail, vxtail, vytail, vztail)
+        ratail,dectail,disttail,pmratail,pmdectail,vlostail=cart_to_sky(
+            xtail, ytail, ztail, vxtail, vytail, vztail,
+            ro=cluster._ro if ro is None else ro,
+            vo=cluster._vo if vo is None else vo,
+            zo=cluster._zo if zo is None else zo,
+            solarmotion=cluster._solarmotion if solarmotion is None else solarmotion,
+        )
 
 
     if plot:
-- 
2.43.0


From b59bac701ed88fb7bd008958c33feba568b60f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 093/133] fix: orbital_path_match: distance to the path of a
 star on the path was nan

---
 clustertools/analysis/orbits.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index d02d45f..85ea9f6 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -931,15 +931,15 @@ def orbital_path_match(
                 mag_ovec = np.sqrt(dxo ** 2.0 + dyo ** 2.0)
                 svec = np.column_stack([dx[sindx, indx], dy[sindx, indx]])
                 mag_svec = dr[sindx, indx]
-                theta = np.arccos(np.sum(ovec[indx] * svec, axis=1) / (mag_ovec[indx] * mag_svec))
-                dpath = mag_svec * np.sin(theta)
+                dpar = np.sum(ovec[indx] * svec, axis=1) / mag_ovec[indx]
+                dpath = np.sqrt(np.maximum(mag_svec ** 2.0 - dpar ** 2.0, 0.0))
             else:
                 ovec = np.column_stack([dxo, dyo, dzo])
                 mag_ovec = np.sqrt(dxo ** 2.0 + dyo ** 2.0 + dzo ** 2.0)
                 svec = np.column_stack([dx[sindx, indx], dy[sindx, indx], dz[sindx, indx]])
                 mag_svec = dr[sindx, indx]
-                theta = np.arccos(np.sum(ovec[indx] * svec, axis=1) / (mag_ovec[indx] * mag_svec))
-                dpath = mag_svec * np.sin(theta)
+                dpar = np.sum(ovec[indx] * svec, axis=1) / mag_ovec[indx]
+                dpath = np.sqrt(np.maximum(mag_svec ** 2.0 - dpar ** 2.0, 0.0))
         else:
             # Need to optimize this via numba
             dpath = np.array([])
@@ -952,11 +952,8 @@ def orbital_path_match(
                         svec = [dx[i, indx[i]], dy[i, indx[i]]]
                         mag_svec = dr[i, indx[i]]
 
-                        theta = np.arccos(
-                            (ovec[0] * svec[0] + ovec[1] * svec[1])
-                            / (mag_ovec * mag_svec)
-                        )
-                        dpath = np.append(dpath, mag_svec * np.sin(theta))
+                        dpar = (ovec[0] * svec[0] + ovec[1] * svec[1]) / mag_ovec
+                        dpath = np.append(dpath, np.sqrt(np.maximum(mag_svec ** 2.0 - dpar ** 2.0, 0.0)))
 
             else:
                 for i in range(0, cluster.ntot):
@@ -968,11 +965,10 @@ def orbital_path_match(
                     svec = [dx[i, indx[i]], dy[i, indx[i]], dz[i, indx[i]]]
                     mag_svec = dr[i, indx[i]]
 
-                    theta = np.arccos(
-                        (ovec[0] * svec[0] + ovec[1] * svec[1] + ovec[2] * svec[2])
-                        / (mag_ovec * mag_svec)
-                    )
-                    dpath = np.append(dpath, mag_svec * np.sin(theta))
+                    dpar = (
+                        ovec[0] * svec[0] + ovec[1] * svec[1] + ovec[2] * svec[2]
+                    ) / mag_ovec
+                    dpath = np.append(dpath, np.sqrt(np.maximum(mag_svec ** 2.0 - dpar ** 2.0, 0.0)))
 
     # Assign negative to stars with position vectors in opposite direction as local angular momentum vector
     if not projected:
-- 
2.43.0


From 556f4be0f1206d288c68106def3818d39349224e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:10 +0000
Subject: [PATCH 094/133] fix: to_tail: failed for clusters in AMUSE units

---
 clustertools/tidaltail/tails.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/clustertools/tidaltail/tails.py b/clustertools/tidaltail/tails.py
index d04c3a8..5acb739 100644
--- a/clustertools/tidaltail/tails.py
+++ b/clustertools/tidaltail/tails.py
@@ -55,6 +55,8 @@ def to_tail(cluster):
     if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre(sortstars=False)
 
+    if units0 == 'amuse':
+        cluster.to_pckms()
 
     v_vec = np.array([cluster.vxgc, cluster.vygc, cluster.vzgc])
     new_v_vec = np.array([1.0, 0.0, 0.0])
@@ -84,7 +86,9 @@ def to_tail(cluster):
 
     return_cluster(cluster, units0, origin0, rorder0, rorder_origin0)
 
-
+    if units0 == 'amuse':
+        x_tail,y_tail,z_tail=[_convert_length(p,'pckms',cluster) for p in (x_tail,y_tail,z_tail)]
+        vx_tail,vy_tail,vz_tail=[_convert_velocity(p,'pckms',cluster) for p in (vx_tail,vy_tail,vz_tail)]
 
     return x_tail,y_tail,z_tail,vx_tail,vy_tail,vz_tail
 
-- 
2.43.0


From ac8de2cc3b281c93694540efa8e52bb82d654f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:11 +0000
Subject: [PATCH 095/133] fix: tail_path: with overlapping bins a star was only
 averaged in one of its bins

---
 clustertools/tidaltail/tails.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/clustertools/tidaltail/tails.py b/clustertools/tidaltail/tails.py
index 5acb739..c69895c 100644
--- a/clustertools/tidaltail/tails.py
+++ b/clustertools/tidaltail/tails.py
@@ -214,16 +214,24 @@ def tail_path(
     else:
         dindx = (np.fabs(dpath) <= dmax)
 
-    bin_idx = bin_index(tstar, t_lower, t_upper)
-
     nbin = len(t_mid)
-    counts = np.bincount(bin_idx[dindx], minlength=nbin).astype(float)
-    sum_x = np.bincount(bin_idx[dindx], weights=cluster.x[dindx], minlength=nbin)
-    sum_y = np.bincount(bin_idx[dindx], weights=cluster.y[dindx], minlength=nbin)
-    sum_z = np.bincount(bin_idx[dindx], weights=cluster.z[dindx], minlength=nbin)
-    sum_vx = np.bincount(bin_idx[dindx], weights=cluster.vx[dindx], minlength=nbin)
-    sum_vy = np.bincount(bin_idx[dindx], weights=cluster.vy[dindx], minlength=nbin)
-    sum_vz = np.bincount(bin_idx[dindx], weights=cluster.vz[dindx], minlength=nbin)
+
+    if ntail > nt:
+        # roaming bins overlap, so stars can be in several of them
+        inbin = (tstar >= t_lower[:, None]) & (tstar < t_upper[:, None])
+        inbin[-1] |= (tstar == t_upper[-1])
+        bin_idx, sindx = np.nonzero(inbin & dindx)
+    else:
+        bin_idx = bin_index(tstar, t_lower, t_upper)[dindx]
+        sindx = np.arange(len(tstar))[dindx]
+
+    counts = np.bincount(bin_idx, minlength=nbin).astype(float)
+    sum_x = np.bincount(bin_idx, weights=cluster.x[sindx], minlength=nbin)
+    sum_y = np.bincount(bin_idx, weights=cluster.y[sindx], minlength=nbin)
+    sum_z = np.bincount(bin_idx, weights=cluster.z[sindx], minlength=nbin)
+    sum_vx = np.bincount(bin_idx, weights=cluster.vx[sindx], minlength=nbin)
+    sum_vy = np.bincount(bin_idx, weights=cluster.vy[sindx], minlength=nbin)
+    sum_vz = np.bincount(bin_idx, weights=cluster.vz[sindx], minlength=nbin)
 
     keep = counts > 0
     ttail = t_mid[keep]
-- 
2.43.0


From 4fc5f8d24de188afe3d06c4b7ef875ea3849d772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:11 +0000
Subject: [PATCH 096/133] fix: StarCluster.tail_path, tail_path_match: tfinal
 was ignored

---
 clustertools/cluster/cluster.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 3612a0c..b9610fc 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -3747,19 +3747,19 @@ class StarCluster(object):
         self.r_tail = np.sqrt(self.x_tail ** 2.0 + self.y_tail ** 2.0 + self.z_tail ** 2.0)
         self.v_tail = np.sqrt(self.vx_tail ** 2.0 + self.vy_tail ** 2.0 + self.vz_tail ** 2.0)
 
-    def tail_path(self,dt=0.1,no=1000,nt=100,ntail=100,pot=None,dmax=None,bintype='fix',from_centre=False,skypath=False,
+    def tail_path(self,tfinal=0.1,no=1000,nt=100,ntail=100,pot=None,dmax=None,bintype='fix',from_centre=False,skypath=False,
         to_path=False,
         do_full=False,
         ro=None,vo=None,zo=None,solarmotion=None,plot=False,**kwargs):
 
-        """Calculate tail path +/- dt Gyr around the cluster
+        """Calculate tail path +/- tfinal Gyr around the cluster
 
                 Parameters
             ----------
             cluster : class
                 StarCluster
-            dt : float
-                timestep that StarCluster is to be moved to
+            tfinal : float
+                final time (in cluster.units) to integrate orbit to (default: 0.1 Gyr)
             no : int
                 number of timesteps for orbit integration (default:1000)
             nt : int
@@ -3809,11 +3809,11 @@ class StarCluster(object):
             2019 - Implemented numpy array preallocation to minimize runtime - Nathaniel Starkman (UofT)
             """
 
-        self.tpath,self.xpath,self.ypath,self.zpath,self.vxpath,self.vypath,self.vzpath=tail_path(self,dt=dt,no=no,nt=nt,ntail=ntail,pot=pot,dmax=dmax,bintype=bintype,from_centre=from_centre,skypath=skypath,to_path=to_path,do_full=do_full,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion,plot=plot,**kwargs)
+        self.tpath,self.xpath,self.ypath,self.zpath,self.vxpath,self.vypath,self.vzpath=tail_path(self,tfinal=tfinal,no=no,nt=nt,ntail=ntail,pot=pot,dmax=dmax,bintype=bintype,from_centre=from_centre,skypath=skypath,to_path=to_path,do_full=do_full,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion,plot=plot,**kwargs)
 
         return self.tpath,self.xpath,self.ypath,self.zpath,self.vxpath,self.vypath,self.vzpath
 
-    def tail_path_match(self,dt=0.1,no=1000,nt=100,ntail=100, pot=None,dmax=None,from_centre=False,
+    def tail_path_match(self,tfinal=0.1,no=1000,nt=100,ntail=100, pot=None,dmax=None,from_centre=False,
         to_path=False,do_full=False,ro=None,vo=None,zo=None,solarmotion=None,plot=False,**kwargs,):
 
         """Match stars to a position along the tail path of the cluster
@@ -3822,8 +3822,8 @@ class StarCluster(object):
         ----------
         cluster : class
             StarCluster
-        dt : float
-            timestep that StarCluster is to be moved to
+        tfinal : float
+            final time (in cluster.units) to integrate orbit to (default: 0.1 Gyr)
         no : int
             number of timesteps for orbit integration (default:1000)
         nt : int
@@ -3870,7 +3870,7 @@ class StarCluster(object):
         2018 - Written - Webb (UofT)
         """
 
-        self.tstar,self.dprog,self.dpath=tail_path_match(self,dt=dt,no=no,nt=nt,ntail=ntail,pot=pot,dmax=dmax,
+        self.tstar,self.dprog,self.dpath=tail_path_match(self,tfinal=tfinal,no=no,nt=nt,ntail=ntail,pot=pot,dmax=dmax,
         from_centre=from_centre,to_path=to_path,do_full=do_full,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion,plot=plot,**kwargs)
 
         return self.tstar,self.dprog,self.dpath
-- 
2.43.0


From 5a429f38a00b84610a40b4b8bad184b2b1499c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 097/133] fix: interpolate_orbits: radii, speeds and the order
 of the stars were left outdated

---
 clustertools/cluster/cluster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index b9610fc..a886f9d 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -3569,6 +3569,8 @@ class StarCluster(object):
                 self.ra_gc,self.dec_gc,self.dist_gc=xgc,ygc,zgc
                 self.pmra_gc,self.pmdec_gc,self.vlos_gc=vxgc,vygc,vzgc
 
+        self.analyze()
+
         return self.x,self.y,self.z,self.vx,self.vy,self.vz
 
 
-- 
2.43.0


From 7b01b8aa192fd1eb8bed96a4f30e69cae3a45674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:01 +0000
Subject: [PATCH 098/133] fix: a galpy orbit given to load_cluster was
 evaluated at the wrong time when its ro, vo are not the defaults

---
 clustertools/io/load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index e1ef390..6d40acd 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -611,7 +611,7 @@ def _add_galpy_orbit(cluster, orbit):
     else:
         t = cluster.tphys
 
-    t /= conversion.time_in_Gyr(ro=solar_ro, vo=solar_vo)
+    t /= conversion.time_in_Gyr(ro=orbit._ro, vo=orbit._vo)
 
     cluster.add_orbit(
         orbit.x(t),
-- 
2.43.0


From 71050b1a8e788630e771f136511a6e548fd0e08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:32 +0000
Subject: [PATCH 099/133] fix: orbital_path_match: distances on the sky across
 ra=0 were wrong

---
 clustertools/analysis/orbits.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 85ea9f6..2a894af 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -894,6 +894,10 @@ def orbital_path_match(
         cluster.ntot, len(ts)
     ) - np.repeat(cluster.z, len(ts)).reshape(cluster.ntot, len(ts))
 
+    # right ascension wraps around at 360 degrees
+    if skypath:
+        dx = (dx + 180.0) % 360.0 - 180.0
+
     if projected:
         dr = np.sqrt(dx ** 2.0 + dy ** 2.0)
     else:
@@ -907,6 +911,9 @@ def orbital_path_match(
     dyo = y[1:] - y[0:-1]
     dzo = z[1:] - z[0:-1]
 
+    if skypath:
+        dxo = (dxo + 180.0) % 360.0 - 180.0
+
     if projected:
         dprogr = np.cumsum(np.sqrt(dxo ** 2.0 + dyo ** 2.0))
     else:
-- 
2.43.0


From 7e0f855744d5c9c12afe134f7c02ba6a5e9e4aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:32 +0000
Subject: [PATCH 100/133] fix: orbital_path_match: projected distance was 0 for
 stars at the y of a path point

---
 clustertools/analysis/orbits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 2a894af..5c889f5 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -996,7 +996,7 @@ def orbital_path_match(
         dpath[ldot < 0] *= -1.0
     else:
         yindx = np.argmin(np.fabs(dy),axis=1)
-        dpath*=np.sign(dy[np.arange(0,len(dy)),yindx])
+        dpath[dy[np.arange(0,len(dy)),yindx] < 0] *= -1.0
 
 
     if plot:
-- 
2.43.0


From 5b9ca9127e976a338d5bc17a8218b32fca47a81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:55 +0000
Subject: [PATCH 101/133] fix: orbital_path_match: skypath compared offsets
 from the cluster's centre with the path unless the origin was galaxy

---
 clustertools/analysis/orbits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 5c889f5..554e1b0 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -848,7 +848,7 @@ def orbital_path_match(
     units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
 
     if skypath:
-        cluster.to_radec()
+        cluster.to_sky(sortstars=False)
         projected=True
     else:
         cluster.to_galaxy(sortstars=False)
-- 
2.43.0


From c1e8bd232c30ba5169ac859779c3cb804d3a0fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:03 +0000
Subject: [PATCH 102/133] fix: initialize_orbit: from_centre was ignored in sky
 coordinates

---
 clustertools/analysis/orbits.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 554e1b0..88fe77d 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -72,15 +72,29 @@ def initialize_orbit(cluster, from_centre=False, ro=None, vo=None, zo = None, so
     if solarmotion is None: solarmotion=cluster._solarmotion
 
     if cluster.units == "radec":
+        vxvv = [
+            cluster.ra_gc,
+            cluster.dec_gc,
+            cluster.dist_gc,
+            cluster.pmra_gc,
+            cluster.pmdec_gc,
+            cluster.vlos_gc,
+        ]
+
+        if from_centre:
+            centre = [
+                cluster.ra_c,
+                cluster.dec_c,
+                cluster.dist_c,
+                cluster.pmra_c,
+                cluster.pmdec_c,
+                cluster.vlos_c,
+            ]
+            # only known once the cluster has been converted to sky coordinates
+            if np.any(centre): vxvv = centre
+
         o = Orbit(
-            [
-                cluster.ra_gc,
-                cluster.dec_gc,
-                cluster.dist_gc,
-                cluster.pmra_gc,
-                cluster.pmdec_gc,
-                cluster.vlos_gc,
-            ],
+            vxvv,
             radec=True,
             ro=ro,
             vo=vo,
-- 
2.43.0


From c3e263785a9ef2374258fcaed934725e3b24e3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:27 +0000
Subject: [PATCH 103/133] fix: NBODY6 end of the orbit file reported as an
 error after the last output

---
 clustertools/io/nbody6.py   | 2 +-
 clustertools/io/nbody6pp.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/io/nbody6.py b/clustertools/io/nbody6.py
index f88cfae..9e17dd9 100644
--- a/clustertools/io/nbody6.py
+++ b/clustertools/io/nbody6.py
@@ -98,7 +98,7 @@ def _get_nbody6(out3, out33=None, fort82=None, fort83=None, ofile=None, advance=
         sortstars=kwargs.get("sortstars", True)
         cluster.analyze(sortstars=sortstars)
 
-    if ofile != None:
+    if ofile != None and cluster.ntot>0:
         _get_cluster_orbit(cluster, ofile, advance=advance, **kwargs)
             
     return cluster
diff --git a/clustertools/io/nbody6pp.py b/clustertools/io/nbody6pp.py
index abc251e..a7484fa 100644
--- a/clustertools/io/nbody6pp.py
+++ b/clustertools/io/nbody6pp.py
@@ -237,7 +237,7 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
         sortstars=kwargs.get("sortstars", True)
         cluster.analyze(sortstars=sortstars)
 
-    if ofile != None:
+    if ofile != None and cluster.ntot>0:
         _get_cluster_orbit(cluster, ofile, advance=advance, nsnap=int(nsnap/dtout),**kwargs)
            
 
-- 
2.43.0


From a97c66f9f10ab311ddcd6de69a537e00d44df828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:27 +0000
Subject: [PATCH 104/133] fix: NBODY6 luminosities of binaries duplicated for
 every further binary

---
 clustertools/io/nbody6.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/io/nbody6.py b/clustertools/io/nbody6.py
index 9e17dd9..d36e685 100644
--- a/clustertools/io/nbody6.py
+++ b/clustertools/io/nbody6.py
@@ -295,7 +295,7 @@ def _get_nbody6se(fort82, fort83, **kwargs):
 
             #Add select parametes to full array
             kw=np.append(kw,kwb[-1])
-            lbtot=np.log10(10.0**np.asarray(zl1b)+10.0**np.asarray(zl2b))
+            lbtot=np.log10(10.0**zl1b[-1]+10.0**zl2b[-1])
             zl1=np.append(zl1,lbtot)
             r1=np.append(r1,np.maximum(r1b[-1],r2b[-1]))
 
-- 
2.43.0


From e56c37bc84ddf05f75e40766b65a8aa9f45341e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:35 +0000
Subject: [PATCH 105/133] fix: NBODY6 stellar evolution files read past their
 end

---
 clustertools/io/nbody6.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/io/nbody6.py b/clustertools/io/nbody6.py
index d36e685..d27fb13 100644
--- a/clustertools/io/nbody6.py
+++ b/clustertools/io/nbody6.py
@@ -81,7 +81,7 @@ def _get_nbody6(out3, out33=None, fort82=None, fort83=None, ofile=None, advance=
     if nstot > 0:
         cluster.add_stars(xs, ys, zs, vxs, vys, vzs, ms, i_ds)
 
-    if fort82 is not None and fort83 is not None:
+    if fort82 is not None and fort83 is not None and cluster.ntot>0:
         cluster.ssefile=fort83
         cluster.bsefile=fort82
         i_d,kw,ri,m1,zl1,r1,te,i_d1,i_d2,kw1,kw2,kwb,rib,ecc,pb,semi,m1b,m2b,zl1b,zl2b,r1b,r2b,te1,te2=_get_nbody6se(fort82,fort83,**kwargs)
-- 
2.43.0


From 9b5a8e1090498bea3a12d2d1ca2833c71a0d944a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:57 +0000
Subject: [PATCH 106/133] fix: NBODY6++ binaries counted twice

---
 clustertools/io/nbody6pp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clustertools/io/nbody6pp.py b/clustertools/io/nbody6pp.py
index a7484fa..009f559 100644
--- a/clustertools/io/nbody6pp.py
+++ b/clustertools/io/nbody6pp.py
@@ -158,7 +158,8 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
 
         cluster.to_nbody(analyze=False)
 
-        if binaries: cluster.nb = len(semi)
+        cluster.nb = nb
+        cluster.ns = cluster.ntot - nb
 
 
     else:
@@ -179,6 +180,8 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
             alist[13], alist[12], alist[2], alist[4], alist[6], alist[7], alist[8], alist[3], alist[11],alist[10],alist[17], ntot, alist[1], ntot+alist[1]
         )
             nb=int(alist[1])
+            # add_stars counts the binaries itself
+            cluster.nb=0
             cluster.add_stars(x, y, z, vx, vy, vz, m, i_d,nb=nb,analyze=False)
             cluster.rhos=np.zeros(ntot-nb)
             pots=np.zeros(ntot-nb)
-- 
2.43.0


From 707cc38b43f4ba67cf1bd21d33e2fa55645bcee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:14 +0000
Subject: [PATCH 107/133] fix: NBODY6++ potentials read as integers and of the
 wrong sign

---
 clustertools/io/nbody6pp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clustertools/io/nbody6pp.py b/clustertools/io/nbody6pp.py
index 009f559..14c0ca4 100644
--- a/clustertools/io/nbody6pp.py
+++ b/clustertools/io/nbody6pp.py
@@ -185,6 +185,8 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
             cluster.add_stars(x, y, z, vx, vy, vz, m, i_d,nb=nb,analyze=False)
             cluster.rhos=np.zeros(ntot-nb)
             pots=np.zeros(ntot-nb)
+            # conf.3 holds the depth of the potential at each star
+            pot=-m*np.abs(pot)
 
             if nb>0:
                 binargs=np.arange(0,nb,1)
@@ -306,7 +308,7 @@ def _get_nbody6pp_conf3(f,return_alist_only=False,**kwargs):
             vz=np.append(vz,struct.unpack('f',f.read(4))[0]) 
 
         for i in range(ntot):
-            phi=np.append(phi,struct.unpack('i',f.read(4))[0])            
+            phi=np.append(phi,struct.unpack('f',f.read(4))[0])            
 
         for i in range(ntot):
             i_d=np.append(i_d,struct.unpack('i',f.read(4))[0])
-- 
2.43.0


From 546f03691f918eec6cb82ff4e9342e550829a0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:30 +0000
Subject: [PATCH 108/133] fix: NBODY6++ snapdir forgotten when advancing

---
 clustertools/io/nbody6pp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clustertools/io/nbody6pp.py b/clustertools/io/nbody6pp.py
index 14c0ca4..0c3689b 100644
--- a/clustertools/io/nbody6pp.py
+++ b/clustertools/io/nbody6pp.py
@@ -91,6 +91,7 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
             sfile=snap40,
             nsnap=nsnap,
             wdir=wdir,
+            snapdir=snapdir,
         )
 
         cluster.hdf5=True
@@ -173,6 +174,7 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
             sfile=conf3,
             nsnap=nsnap,
             wdir=wdir,
+            snapdir=snapdir,
         )
 
         if ntot > 0:
-- 
2.43.0


From d7a875a248a9f4554f4bcfecd46ab14c17ca77a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:39 +0000
Subject: [PATCH 109/133] fix: NBODY6++ single-star evolution files:
 luminosities truncated, one-line files rejected

---
 clustertools/io/nbody6pp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/io/nbody6pp.py b/clustertools/io/nbody6pp.py
index 0c3689b..0dc775e 100644
--- a/clustertools/io/nbody6pp.py
+++ b/clustertools/io/nbody6pp.py
@@ -432,14 +432,14 @@ def _get_nbody6pp_ev(bev, sev, **kwargs):
     header=sev.readline().split()
     ntot,tphys=int(header[0]),float(header[1])
 
-    data=np.loadtxt(sev.name,skiprows=1)
+    data=np.loadtxt(sev.name,skiprows=1,ndmin=2)
 
     arg=data[:,1].astype(int)
     i_d=data[:,2].astype(int)
     kw=data[:,3].astype(int)
     ri=data[:,4].astype(float)
     m1=data[:,5].astype(float)
-    zl1=data[:,6].astype(int)
+    zl1=data[:,6].astype(float)
     r1=data[:,7].astype(float)
     te=data[:,8].astype(float)
 
-- 
2.43.0


From 804bdd581b649bf750f01550b223040ff26fb9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:43 +0000
Subject: [PATCH 110/133] fix: NBODY6++ binary evolution files: number of lines
 taken for number of columns

---
 clustertools/io/nbody6pp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/io/nbody6pp.py b/clustertools/io/nbody6pp.py
index 0dc775e..d1e7967 100644
--- a/clustertools/io/nbody6pp.py
+++ b/clustertools/io/nbody6pp.py
@@ -368,7 +368,7 @@ def _get_nbody6pp_ev(bev, sev, **kwargs):
         m1b=data[:,12].astype(float)
         m2b=data[:,13].astype(float)
 
-        if len(data)>=14:
+        if data.shape[1]>14:
             zl1b=data[:,14].astype(float)
             zl2b=data[:,15].astype(float)
             r1b=data[:,16].astype(float)
-- 
2.43.0


From 88c2988dbb8817743989de97d5c1fde2f2d2b522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:54 +0000
Subject: [PATCH 111/133] fix: NBODY6++ logarithms of the luminosities and
 radii of binary components added

---
 clustertools/io/nbody6pp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/io/nbody6pp.py b/clustertools/io/nbody6pp.py
index d1e7967..36e5865 100644
--- a/clustertools/io/nbody6pp.py
+++ b/clustertools/io/nbody6pp.py
@@ -215,8 +215,8 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
 
             if nb>0:
                 kws[binargs]=np.maximum(kw1,kw2)
-                zl1s[binargs]=zl1b+zl2b
-                r1s[binargs]=r1b+r2b
+                zl1s[binargs]=np.log10(10.0**zl1b+10.0**zl2b)
+                r1s[binargs]=np.maximum(r1b,r2b)
                 args=arg[2*nb:]-nb-1
             else:
                 args=arg-1
-- 
2.43.0


From e94abf30988f0405885a8b1f360505828123f447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:10 +0000
Subject: [PATCH 112/133] fix: NBODY6++ fractional times between outputs
 truncated

---
 clustertools/io/nbody6pp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clustertools/io/nbody6pp.py b/clustertools/io/nbody6pp.py
index 36e5865..0cb5255 100644
--- a/clustertools/io/nbody6pp.py
+++ b/clustertools/io/nbody6pp.py
@@ -93,6 +93,7 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
             wdir=wdir,
             snapdir=snapdir,
         )
+        cluster.nsnap=nsnap
 
         cluster.hdf5=True
         cluster.ngroups=len(snap40)
@@ -176,6 +177,7 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
             wdir=wdir,
             snapdir=snapdir,
         )
+        cluster.nsnap=nsnap
 
         if ntot > 0:
             cluster.add_nbody6(
-- 
2.43.0


From b0d91d14b7680937f77f3f334c54c08957f4f299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:15 +0000
Subject: [PATCH 113/133] fix: dtout given to load_cluster forgotten when
 advancing

---
 clustertools/io/load.py     | 4 ++--
 clustertools/io/nbody6pp.py | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 6d40acd..407642d 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -420,7 +420,7 @@ def advance_cluster(
                 cluster = _get_nbody6pp(conf3, snap40=cluster.sfile, ofile=ofile, advance=True,nbody6list=nbody6list,nsnap=nsnap,**advance_kwargs, **kwargs)
                 
             else:
-                deltat=kwargs.pop('deltat',1)
+                deltat=kwargs.pop('deltat',getattr(cluster,'dtout',1))
                 dtout=kwargs.pop('dtout',deltat)
 
                 nsnap = advance_kwargs.pop("nsnap") + dtout - 1
@@ -435,7 +435,7 @@ def advance_cluster(
                 cluster = _get_nbody6pp(conf3, snap40=snap40, ofile=ofile, advance=True,nsnap=nsnap,dtout=dtout,**advance_kwargs, **kwargs)
 
         else:
-            deltat=kwargs.pop('deltat',1)
+            deltat=kwargs.pop('deltat',getattr(cluster,'dtout',1))
             dtout=kwargs.pop('dtout',deltat)
 
             nsnap = advance_kwargs.pop("nsnap") + dtout - 1
diff --git a/clustertools/io/nbody6pp.py b/clustertools/io/nbody6pp.py
index 0cb5255..6997b74 100644
--- a/clustertools/io/nbody6pp.py
+++ b/clustertools/io/nbody6pp.py
@@ -250,6 +250,8 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
         _get_cluster_orbit(cluster, ofile, advance=advance, nsnap=int(nsnap/dtout),**kwargs)
            
 
+    cluster.dtout=dtout
+
     return cluster
 
 def _get_nbody6pp_conf3(f,return_alist_only=False,**kwargs): 
-- 
2.43.0


From 5f853d1e14ffdc7964334f69414161dff655e5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:48 +0000
Subject: [PATCH 114/133] fix: NBODY6++ HDF5 scales lost, and missing next file
 an error, when advancing

---
 clustertools/io/load.py | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 407642d..887b748 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -395,34 +395,30 @@ def advance_cluster(
             ngroups=advance_kwargs.get("ngroups")
             ngroup=advance_kwargs.get("ngroup")
 
-            if ngroup < ngroups:
-
-                nsnap = advance_kwargs.pop("nsnap") - 1
+            deltat=kwargs.pop('deltat',getattr(cluster,'dtout',1))
+            dtout=kwargs.pop('dtout',deltat)
 
-                if cluster.nc!=0. and cluster.n_p!=0.:
+            # Scales (and centre) of the simulation are carried over unless the next snapshot has its own
+            units0=cluster.units
+            if units0!='nbody': cluster.to_nbody()
 
-                    units0=cluster.units
-                    if units0!='nbody': cluster.to_nbody()
+            nc,rc,rbar,rtide=cluster.nc,cluster.rc,cluster.rbar,cluster.rtide
+            xc,yc,zc=cluster.xc,cluster.yc,cluster.zc
+            zmbar,vbar,tbar,rscale=cluster.zmbar,cluster.vbar,cluster.tbar,cluster.rscale
+            ns,nb,n_p=cluster.ns,cluster.nb,cluster.n_p
 
-                    nc,rc,rbar,rtide=cluster.nc,cluster.rc,cluster.rbar,cluster.rtide
-                    xc,yc,zc=cluster.xc,cluster.yc,cluster.zc
-                    zmbar,vbar,tbar,rscale=cluster.zmbar,cluster.vbar,cluster.tbar,cluster.rscale
-                    ns,nb,n_p=cluster.ns,cluster.nb,cluster.n_p
+            nbody6list=[nc,rc,rbar,rtide,xc,yc,zc,zmbar,vbar,tbar,rscale,ns,nb,n_p]
 
-                    nbody6list=[nc,rc,rbar,rtide,xc,yc,zc,zmbar,vbar,tbar,rscale,ns,nb,n_p]
+            if units0!='nbody': cluster.to_units(units0)
 
-                    if units0!='nbody': cluster.to_units(units0)
+            if ngroup < ngroups:
 
-                else:
-                    nbody6list=None
+                nsnap = advance_kwargs.pop("nsnap") - 1
 
                 conf3=None
-                cluster = _get_nbody6pp(conf3, snap40=cluster.sfile, ofile=ofile, advance=True,nbody6list=nbody6list,nsnap=nsnap,**advance_kwargs, **kwargs)
+                cluster = _get_nbody6pp(conf3, snap40=cluster.sfile, ofile=ofile, advance=True,nbody6list=nbody6list,nsnap=nsnap,dtout=dtout,**advance_kwargs, **kwargs)
                 
             else:
-                deltat=kwargs.pop('deltat',getattr(cluster,'dtout',1))
-                dtout=kwargs.pop('dtout',deltat)
-
                 nsnap = advance_kwargs.pop("nsnap") + dtout - 1
                 ngroup= advance_kwargs.pop("ngroup")
 
@@ -431,8 +427,11 @@ def advance_cluster(
                 else:
                     conf3=None
 
-                snap40 = h5py.File("%s%ssnap.40_%s.h5part" % (wdir,snapdir,nsnap), "r")
-                cluster = _get_nbody6pp(conf3, snap40=snap40, ofile=ofile, advance=True,nsnap=nsnap,dtout=dtout,**advance_kwargs, **kwargs)
+                if os.path.isfile("%s%ssnap.40_%s.h5part" % (wdir,snapdir,nsnap)):
+                    snap40 = h5py.File("%s%ssnap.40_%s.h5part" % (wdir,snapdir,nsnap), "r")
+                    cluster = _get_nbody6pp(conf3, snap40=snap40, ofile=ofile, advance=True,nbody6list=nbody6list,nsnap=nsnap,dtout=dtout,**advance_kwargs, **kwargs)
+                else:
+                    cluster = StarCluster(0.0,units='nbody',origin='cluster',ctype='nbody6++',nsnap=nsnap,wdir=wdir,snapdir=snapdir)
 
         else:
             deltat=kwargs.pop('deltat',getattr(cluster,'dtout',1))
-- 
2.43.0


From 774aea044fc3d9489c17cdf8918975cb95f5e4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:12 +0000
Subject: [PATCH 115/133] fix: scales of binary parameters not updated with the
 N-body scales

---
 clustertools/cluster/cluster.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index a886f9d..0975088 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -1124,6 +1124,11 @@ class StarCluster(object):
         # Number of particles (from NBODY6 when tidal tail is being integrated)
         self.n_p = n_p
 
+        self._set_binary_scale()
+
+    def _set_binary_scale(self):
+        """ Set the conversions of binary parameters between NBODY units and au, solar radii, and days
+        """
         au_to_cm = 1.49597870700e13
         pc_to_cm = 1296000.0/(2.0*np.pi)*au_to_cm
 
@@ -2079,6 +2084,7 @@ class StarCluster(object):
             projected=self.projected
 
         self.zmbar,self.rbar,self.vbar,self.tbar=reset_nbody_scale(self, mass=mass, radii=radii, rvirial=rvirial,projected=projected,**kwargs)
+        self._set_binary_scale()
 
     def add_rotation(self, qrot):
         """Add a degree of rotation to an already generated StarCluster
-- 
2.43.0


From 89fef71e73e74c4911f811138e1173280d0b6418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:40 +0000
Subject: [PATCH 116/133] fix: NBODY6 restarts in cont/ of another directory
 missed, or loaded over and over

---
 clustertools/io/load.py   | 4 ++++
 clustertools/io/nbody6.py | 1 +
 2 files changed, 5 insertions(+)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 887b748..d486385 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -544,6 +544,10 @@ def advance_cluster(
 
     # Check for restart
     if cluster.ntot == 0.0:
+        if cluster0.ctype == "nbody6" and load_function is None:
+            # Restarts are sought next to the file that has ended
+            wdir = cluster0.sfile.name[:-len("%sOUT3" % snapdir)]
+
         wdir += "cont/"
 
 
diff --git a/clustertools/io/nbody6.py b/clustertools/io/nbody6.py
index d27fb13..5d5d363 100644
--- a/clustertools/io/nbody6.py
+++ b/clustertools/io/nbody6.py
@@ -59,6 +59,7 @@ def _get_nbody6(out3, out33=None, fort82=None, fort83=None, ofile=None, advance=
             origin="cluster",
             ctype="nbody6",
             sfile=out3,
+            snapdir=kwargs.get("snapdir",""),
         )
                 
         if nstot > 0:
-- 
2.43.0


From b00e5ca86cf45685b581ca1c04557af3c236c8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:01 +0000
Subject: [PATCH 117/133] fix: NBODY6++ restarts in cont/ read without the
 format and time step of the run

---
 clustertools/io/load.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index d486385..8f24119 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -563,6 +563,9 @@ def advance_cluster(
             if cluster0.ctype == "snapshot" and load_function is None:
                 kwargs.update(col_names=col_names,col_nums=col_nums)
 
+            if cluster0.ctype in ("nbody6pp","nbody6++") and load_function is None:
+                kwargs.update(dtout=dtout,hdf5=hdf5)
+
             old_wdir=advance_kwargs.pop('wdir')
 
             if nsnap is None:
-- 
2.43.0


From 37bcab2f4f5ba8257538e3479ee6465871a26792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:35 +0000
Subject: [PATCH 118/133] fix: Galactic globular clusters missing from the
 first catalogue, or named in another case, not found

---
 clustertools/io/limepydf.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/clustertools/io/limepydf.py b/clustertools/io/limepydf.py
index 8ea920b..6a7ff3f 100644
--- a/clustertools/io/limepydf.py
+++ b/clustertools/io/limepydf.py
@@ -740,12 +740,14 @@ def _get_cluster(gcname, source="default", mbar=1., params=False, **kwargs):
 
     ddata = np.loadtxt(data_dir+"deBoer2019.dat", str, skiprows=1
     )
+    ddata[:, 0] = np.char.upper(ddata[:, 0])
     dname = ddata[:, 0]
     dmass = ddata[:, 7].astype(float)
     drad = ddata[:, 5].astype(float)
 
     hdata = np.loadtxt(data_dir+"harris2010.dat", str, skiprows=2
     )
+    hdata[:, :2] = np.char.upper(hdata[:, :2])
     hname = hdata[:, 0]
     hname2 = hdata[:, 1]
     hmass = hdata[:, 2].astype(float)
@@ -758,23 +760,13 @@ def _get_cluster(gcname, source="default", mbar=1., params=False, **kwargs):
     gcname = gcname.upper()
 
 
+    # The cluster may be known by its other name in de Boer et al. 2019
+    dnames = [n for n in [gcname, *hname2[hname == gcname], *hname[hname2 == gcname]] if n in dname]
+
     if (
         source == "default" or "deboer" in source or "deBoer" in source
-    ) and gcname in dname:
-        cluster = _get_deBoer_cluster(ddata, gcname, mbar, **kwargs)
-    elif (
-        source == "default" or "deboer" in source or "deBoer" in source
-    ) and gcname not in dname:
-        if gcname in hname:
-            indx = hname == gcname
-            i_d = np.argwhere(indx == True).flatten()[0]
-            cluster = _get_deBoer_cluster(ddata, hname2[i_d], mbar, **kwargs)
-        elif gcname in hname2:
-            indx = hname2 == gcname
-            i_d = np.argwhere(indx == True).flatten()[0]
-            cluster = _get_deBoer_cluster(ddata, hname[i_d], mbar, **kwargs)
-
-
+    ) and len(dnames) > 0:
+        cluster = _get_deBoer_cluster(ddata, dnames[0], mbar, **kwargs)
     elif (source == "default" or "harris" in source or "Harris" in source) and (
         gcname in hname or gcname in hname2
     ):
-- 
2.43.0


From 7a16613566062ca7491d21a099bc62464809c77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:35 +0000
Subject: [PATCH 119/133] fix: globular cluster models of Harris (1996) fail
 with current numpy

---
 clustertools/io/limepydf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/io/limepydf.py b/clustertools/io/limepydf.py
index 6a7ff3f..733a1b4 100644
--- a/clustertools/io/limepydf.py
+++ b/clustertools/io/limepydf.py
@@ -882,7 +882,7 @@ def _get_harris_cluster(data, gcname, mbar=0.4, **kwargs):
     name = data[:, 0]
     name2 = data[:, 1]
 
-    indx = np.logical_or(np.in1d(name, gcname), np.in1d(name2, gcname))
+    indx = np.logical_or(np.isin(name, gcname), np.isin(name2, gcname))
     i_d = np.argwhere(indx == True).flatten()[0]
     mgc = data[i_d, 2].astype(float)
     rc = data[i_d, 3].astype(float)
-- 
2.43.0


From 29346e1c4dc1e7e26e4ccd8141a2b3285b389c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:35 +0000
Subject: [PATCH 120/133] fix: number of stars of a Galactic globular cluster
 model ignored

---
 clustertools/io/limepydf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/io/limepydf.py b/clustertools/io/limepydf.py
index 733a1b4..6f285cf 100644
--- a/clustertools/io/limepydf.py
+++ b/clustertools/io/limepydf.py
@@ -829,7 +829,7 @@ def _get_deBoer_cluster(data, gcname, mbar=0.4, **kwargs):
         g_lime = data[i_d, 3].astype(float)
         rt_lime = data[i_d, 5].astype(float)
         M_lime = data[i_d, 7].astype(float)
-        N = int(M_lime / mbar)
+        N = int(kwargs.get("N", M_lime / mbar))
 
         cluster = _sample_limepy(g=g_lime, phi0=W_lime, M=M_lime, rt=rt_lime, N=N)
 
-- 
2.43.0


From 58d6da41ba39164fb55e0240932325e318167f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:17 +0000
Subject: [PATCH 121/133] fix: limepy models ignore an orbit file and are left
 at the origin of the Galaxy

---
 clustertools/io/limepydf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/clustertools/io/limepydf.py b/clustertools/io/limepydf.py
index 6f285cf..adcb2d2 100644
--- a/clustertools/io/limepydf.py
+++ b/clustertools/io/limepydf.py
@@ -28,6 +28,7 @@ except:
     pass
 
 from ..cluster.cluster import StarCluster
+from .orbit import _get_cluster_orbit as _get_orbit_from_file
 
 def _get_limepy(units="pckms", origin="cluster", orbit=None, ofile=None, advance=False, **kwargs):
     """ Setup an N-body realization of a StarCluster with specific parameters
@@ -95,7 +96,8 @@ def _get_limepy(units="pckms", origin="cluster", orbit=None, ofile=None, advance
             if units=='nbody': cluster.reset_nbody_scale(rvirial=True)
             cluster.to_units(units)
 
-        if cluster.origin!=origin:
+        # Moved to the galaxy once the orbit is known
+        if cluster.origin!=origin and origin!='galaxy':
             cluster.to_origin(origin)
 
     else:
@@ -103,7 +105,8 @@ def _get_limepy(units="pckms", origin="cluster", orbit=None, ofile=None, advance
         cluster.units=units
         cluster.bunits=units
 
-        if cluster.origin!=origin:
+        # Moved to the galaxy once the orbit is known
+        if cluster.origin!=origin and origin!='galaxy':
             cluster.to_origin(origin)
 
     if cluster.ntot>0:
@@ -125,7 +128,7 @@ def _get_limepy(units="pckms", origin="cluster", orbit=None, ofile=None, advance
             )
 
         elif ofile != None:
-            _get_cluster_orbit(cluster, ofile, advance=advance, **kwargs)
+            _get_orbit_from_file(cluster, ofile, advance=advance, **kwargs)
 
         if origin=='galaxy':
             cluster.to_galaxy()
-- 
2.43.0


From 98c2c9ec21b591cf2156682f6de9eb68a8fe9e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:03 +0000
Subject: [PATCH 122/133] fix: limepy models of stars of several masses cannot
 be loaded

---
 clustertools/io/limepydf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/io/limepydf.py b/clustertools/io/limepydf.py
index adcb2d2..0ba743b 100644
--- a/clustertools/io/limepydf.py
+++ b/clustertools/io/limepydf.py
@@ -229,7 +229,7 @@ def _sample_limepy(g=1,model=None,**kwargs):
         ldata.vy,
         ldata.vz,
         ldata.m,
-        np.linspace(1, N, N, dtype=int),
+        np.arange(1, len(ldata.x) + 1, dtype=int),
 
     )
     cluster.find_centre()
-- 
2.43.0


From c613fb6dd39a4fc01d001907d3eabb6910a5bb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:03 +0000
Subject: [PATCH 123/133] fix: limepy keyword arguments ignored when setting up
 a model

---
 clustertools/io/limepydf.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/clustertools/io/limepydf.py b/clustertools/io/limepydf.py
index 0ba743b..f0fae03 100644
--- a/clustertools/io/limepydf.py
+++ b/clustertools/io/limepydf.py
@@ -189,31 +189,33 @@ def _sample_limepy(g=1,model=None,**kwargs):
 
         project = bool(kwargs.get("projected", False))
 
+        lkwargs = {key: kwargs[key] for key in ["ra", "mj", "Mj", "delta", "meq", "eta", "zeta"] if key in kwargs}
+
         if "M" in kwargs:
             M = float(kwargs.get("M"))
             if "rt" in kwargs:
                 rt = float(kwargs.get("rt"))
-                lmodel = limepy(phi0, g, M=M, rt=rt, project=project)
+                lmodel = limepy(phi0, g, M=M, rt=rt, project=project, **lkwargs)
             elif "rv" in kwargs:
                 rv = float(kwargs.get("rv"))
-                lmodel = limepy(phi0, g, M=M, rv=rv, project=project)
+                lmodel = limepy(phi0, g, M=M, rv=rv, project=project, **lkwargs)
             elif "rh" in kwargs:
                 rh = float(kwargs.get("rh"))
-                lmodel = limepy(phi0, g, M=M, rh=rh, project=project)
+                lmodel = limepy(phi0, g, M=M, rh=rh, project=project, **lkwargs)
             elif "rm" in kwargs:
                 rh = float(kwargs.get("rm"))
-                lmodel = limepy(phi0, g, M=M, rh=rh, project=project)
+                lmodel = limepy(phi0, g, M=M, rh=rh, project=project, **lkwargs)
             elif "r0" in kwargs:
                 r0 = float(kwargs.get("r0"))
-                lmodel = limepy(phi0, g, M=M, r0=r0, project=project)
+                lmodel = limepy(phi0, g, M=M, r0=r0, project=project, **lkwargs)
             elif "rc" in kwargs:
                 r0 = float(kwargs.get("rc"))
-                lmodel = limepy(phi0, g, M=M, r0=r0, project=project)
+                lmodel = limepy(phi0, g, M=M, r0=r0, project=project, **lkwargs)
             else:
-                lmodel = limepy(phi0, g, M=M, rv=1.0, project=project)
+                lmodel = limepy(phi0, g, M=M, rv=1.0, project=project, **lkwargs)
         else:
             M=1.
-            lmodel = limepy(phi0, g, G=1, M=1, rv=1, project=project)
+            lmodel = limepy(phi0, g, G=1, M=1, rv=1, project=project, **lkwargs)
 
     mbar = kwargs.get("mbar", 1.)
     N = int(kwargs.get("N", M/mbar))
-- 
2.43.0


From 97bf530ceff3171f2e5369f31a0fdb468c8d9a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:15 +0000
Subject: [PATCH 124/133] fix: starplot in one plane leaves an AMUSE cluster in
 pckms units

---
 clustertools/util/plots.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clustertools/util/plots.py b/clustertools/util/plots.py
index ffe9f55..94a0a26 100644
--- a/clustertools/util/plots.py
+++ b/clustertools/util/plots.py
@@ -652,6 +652,9 @@ def starplot(
         out = plt.plot(x, y, ".", alpha=alpha, **kwargs)
 
         if overplot:
+            if units0=='amuse':
+                cluster.to_amuse()
+
             return out
         else:
             if do_centre:
@@ -694,6 +697,9 @@ def starplot(
 
             plt.tight_layout()
 
+            if units0=='amuse':
+                cluster.to_amuse()
+
             if filename != None:
                 plt.savefig(filename)
 
-- 
2.43.0


From ca0311f7fa5b40fb3e666edfd1237659780c3b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:25 +0000
Subject: [PATCH 125/133] fix: orbital_path fails on AMUSE clusters with its
 default tfinal

---
 clustertools/analysis/orbits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 88fe77d..9dde78d 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -686,7 +686,9 @@ def orbital_path(
     elif cluster.units=='pckms' or cluster.units=='pcmyr':
         tfinal/=(1000.*conversion.time_in_Gyr(ro=ro, vo=vo))
     elif cluster.units=='amuse':
-        tfinal=tfinal.value_in(u.Myr)/(1000.*conversion.time_in_Gyr(ro=ro, vo=vo))
+        #Gyr if no units are given
+        if hasattr(tfinal,'value_in'): tfinal=tfinal.value_in(u.Gyr)
+        tfinal/=conversion.time_in_Gyr(ro=ro, vo=vo)
     elif cluster.units=='kpckms' or cluster.units=='radec' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
         tfinal/=conversion.time_in_Gyr(ro=ro, vo=vo)
     elif cluster.units=='nbody':
-- 
2.43.0


From 56fbdea6d8e999badb9e97d71a5534b3f31978a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:28 +0000
Subject: [PATCH 126/133] fix: rcore and rlimiting cannot be plotted for AMUSE
 or WDunits clusters

---
 clustertools/analysis/functions.py | 32 ++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index f434f20..68290ba 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -44,7 +44,7 @@ from scipy.spatial import cKDTree
 from ..util.recipes import *
 from ..util.constants import _get_grav
 from ..util.plots import _plot,_lplot,_scatter
-from ..util.units import _convert_length,_convert_time,_convert_velocity
+from ..util.units import _convert_density,_convert_length,_convert_time,_convert_velocity
 
 try:
     import amuse.units.units as u
@@ -2293,6 +2293,14 @@ def rcore(
             else:
                 yunits = " Msun/kpc^3"
 
+        elif cluster.units=='WDunits':
+            rprof /=1000.0
+            pprof=_convert_density(pprof,'pckms',cluster,projected=projected)
+            rho_c=_convert_density(rho_c,'pckms',cluster,projected=projected)
+
+            xunits = ""
+            yunits = ""
+
         elif cluster.units=='galpy':
             rprof /=(1000.0*cluster._ro)
 
@@ -2335,7 +2343,11 @@ def rcore(
             filename=filename,
         )
         _lplot(x, np.ones(len(x)) * rho_c, "--", overplot=True)
-        _lplot(np.ones(len(y)) * rc, y, "--", overplot=True)
+        #AMUSE quantities are plotted in pc
+        if cluster.units=='amuse':
+            _lplot(np.ones(len(y)) * rc.value_in(u.parsec), y, "--", overplot=True)
+        else:
+            _lplot(np.ones(len(y)) * rc, y, "--", overplot=True)
 
         if filename != None:
             plt.savefig(filename)
@@ -2672,7 +2684,15 @@ def rlimiting(
 
             xunits = " (NBODY)"
             yunits = " (NBODY)"
-        elif cluster.units == "pckms" or cluster.units == "pcmyr":
+        elif cluster.units=='WDunits':
+            rprof *= ro
+            pprof=_convert_density(pprof,'galpy',cluster,projected=projected)
+            rho_local=_convert_density(rho_local,'galpy',cluster,projected=projected)
+
+            xunits = ""
+            yunits = ""
+
+        elif cluster.units == "pckms" or cluster.units == "pcmyr" or cluster.units == "amuse":
             rprof *= ro * 1000.0
 
             if projected:
@@ -2721,7 +2741,11 @@ def rlimiting(
             filename=filename,
         )
         _lplot(x, np.ones(len(x)) * rho_local, "--", overplot=True)
-        _lplot(np.ones(len(y)) * rl, y, "--", overplot=True)
+        #AMUSE quantities are plotted in pc
+        if cluster.units=='amuse':
+            _lplot(np.ones(len(y)) * rl.value_in(u.parsec), y, "--", overplot=True)
+        else:
+            _lplot(np.ones(len(y)) * rl, y, "--", overplot=True)
 
         if filename != None:
             plt.savefig(filename)
-- 
2.43.0


From aee5bbf02ffb5416a4cbc1f8d92bae10453913c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:38 +0000
Subject: [PATCH 127/133] fix: rtidal cannot be plotted for AMUSE clusters or
 saved to a file

---
 clustertools/analysis/functions.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 68290ba..9ee9dca 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -2507,6 +2507,10 @@ def rtidal(
             xunits = ""
             yunits = ""
 
+        filename = kwargs.pop("filename", None)
+
+        #AMUSE quantities are plotted in pc
+        if units0=='amuse': cluster.to_pckms(analyze=False)
 
         _plot(
             cluster.x,
@@ -2519,8 +2523,9 @@ def rtidal(
             **kwargs,
         )
 
-        x=np.linspace(-rt,rt,100)
-        y=np.sqrt(rt**2.-x**2.)
+        rplot=rt.value_in(u.parsec) if units0=='amuse' else rt
+        x=np.linspace(-rplot,rplot,100)
+        y=np.sqrt(rplot**2.-x**2.)
 
         x=np.append(x,x)
         y=np.append(y,-y)
@@ -2538,6 +2543,10 @@ def rtidal(
 
         _lplot(x,y,overplot=True,linestyle='--',color='k')
 
+        if units0=='amuse': cluster.to_amuse(analyze=False)
+
+        if filename is not None:
+            plt.savefig(filename)
 
     return rt
 
-- 
2.43.0


From 30dedc071759089407c93a5c6d78c7126198630a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:56 +0000
Subject: [PATCH 128/133] fix: starplot and skyplot mark the cluster's centre
 in the wrong place

---
 clustertools/util/plots.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/clustertools/util/plots.py b/clustertools/util/plots.py
index 94a0a26..13e5b4b 100644
--- a/clustertools/util/plots.py
+++ b/clustertools/util/plots.py
@@ -649,6 +649,13 @@ def starplot(
                 xgc = cluster.xgc
                 ygc = cluster.ygc
 
+        # Without the galactic origin, the centre is relative to the cluster's origin
+        if do_centre and cluster.origin == "cluster":
+            xgc = cluster.yc if coords == "yz" else cluster.xc
+            ygc = cluster.zc if coords in ("xz", "yz") else cluster.yc
+        elif do_centre and cluster.origin == "centre":
+            xgc, ygc = 0.0, 0.0
+
         out = plt.plot(x, y, ".", alpha=alpha, **kwargs)
 
         if overplot:
@@ -849,6 +856,7 @@ def skyplot(
     else:
         if do_centre:
             xgc, ygc = cluster.ra_gc, cluster.dec_gc
+            if coords == "pm": xgc, ygc = cluster.pmra_gc, cluster.pmdec_gc
             plt.plot(xgc, ygc, ".", alpha=1.0, label="COM", **kwargs)
 
         if coords == "radec":
-- 
2.43.0


From d64b4bb20f23020776babbe4891a2264c1761ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:13 +0000
Subject: [PATCH 129/133] fix: tapered_mass_function with bounds cannot be
 plotted

---
 clustertools/analysis/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 9ee9dca..008a1f7 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -1657,8 +1657,8 @@ def tapered_mass_function(
         dm = m_corr_hist / (m_upper - m_lower)
         ldm = np.log10(dm)
 
-        lower_bounds=kwargs.get('lower_bounds',[0.,-1.*np.inf,np.amin(cluster.m),-1.*np.inf])
-        upper_bounds=kwargs.get('upper_bounds',[np.inf,np.inf,np.amax(cluster.m),np.inf])
+        lower_bounds=kwargs.pop('lower_bounds',[0.,-1.*np.inf,np.amin(cluster.m),-1.*np.inf])
+        upper_bounds=kwargs.pop('upper_bounds',[np.inf,np.inf,np.amax(cluster.m),np.inf])
 
         (A, alpha, mc, beta), V=curve_fit(tpl_func,10.0**np.array(lm_mean),10.0**np.array(ldm) ,bounds=(lower_bounds,upper_bounds))
 
-- 
2.43.0


From 985b40a2716b15ea285c5096c93c6076ce810895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:37 +0000
Subject: [PATCH 130/133] fix: orbital_path on the sky ignores overplot

---
 clustertools/analysis/orbits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 9dde78d..be36c8a 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -745,7 +745,7 @@ def orbital_path(
         if plot:
             filename = kwargs.pop("filename", None)
             overplot = kwargs.pop("overplot", False)
-            skyplot(cluster)
+            skyplot(cluster,overplot=overplot)
             plt.plot(ra,dec)
             if filename != None:
                 plt.savefig(filename)
-- 
2.43.0


From fb7d91ad814ad4899e75cb953f1298dfca1021e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:32 +0000
Subject: [PATCH 131/133] fix: titles of rcore and rlimiting plots for AMUSE
 clusters

---
 clustertools/analysis/functions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 008a1f7..c31321f 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -2331,13 +2331,15 @@ def rcore(
             xunits = ""
             yunits = ""
 
+        tphys = cluster.tphys.value_in(u.Myr) if cluster.units=='amuse' else cluster.tphys
+
         x, y, n = rprof, pprof, nprof
         _lplot(
             x,
             y,
             xlabel=r"$R %s$" % (xunits),
             ylabel=r"$\rho %s$" % (yunits),
-            title="Time = %f" % cluster.tphys,
+            title="Time = %f" % tphys,
             log=True,
             overplot=overplot,
             filename=filename,
@@ -2738,13 +2740,15 @@ def rlimiting(
             xunits = ""
             yunits = ""
 
+        tphys = cluster.tphys.value_in(u.Myr) if cluster.units=='amuse' else cluster.tphys
+
         x, y, n = rprof, pprof, nprof
         _lplot(
             x,
             y,
             xlabel=r"$R %s$" % (xunits),
             ylabel=r"$\rho %s$" % (yunits),
-            title="Time = %f" % cluster.tphys,
+            title="Time = %f" % tphys,
             log=True,
             overplot=overplot,
             filename=filename,
-- 
2.43.0


From ed61e1e44b6b54197a74aa0bc0478285d3cb9b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:29 +0000
Subject: [PATCH 132/133] fix: orbital_path cannot be plotted for AMUSE
 clusters

---
 clustertools/analysis/orbits.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index be36c8a..27dc595 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -774,7 +774,11 @@ def orbital_path(
             filename = kwargs.pop("filename", None)
             overplot = kwargs.pop("overplot", False)
             starplot(cluster,coords='xy',overplot=overplot)
-            _lplot(x,y,overplot=True)
+            #AMUSE quantities are plotted in pc
+            if cluster.units=='amuse':
+                _lplot(x.value_in(u.parsec),y.value_in(u.parsec),overplot=True)
+            else:
+                _lplot(x,y,overplot=True)
 
             if filename != None:
                 plt.savefig(filename)
-- 
2.43.0


From 0ab57e9b26308d4307ea0530e82588b63e03156c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:26 +0000
Subject: [PATCH 133/133] fix: a centre at the cluster's position on the sky
 comes back slightly offset

---
 clustertools/cluster/operations.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index 1b5b7aa..bd1dfae 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -474,11 +474,14 @@ def to_radec(cluster, sortstars=True,centre_method=None,analyze=True):
             cluster.initialize_orbit(ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
             cluster.initialize_orbits(ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
 
-            R, phi, z = coords.rect_to_cyl(cluster.xgc+cluster.xc, cluster.ygc+cluster.yc, cluster.zgc+cluster.zc)
-            vR, vT, vz = coords.rect_to_cyl_vec(cluster.vxgc+cluster.vxc, cluster.vygc+cluster.vyc, cluster.vzgc+cluster.vzc,cluster.xgc+cluster.xc, cluster.ygc+cluster.yc, cluster.zgc+cluster.zc)
+            # in the same way as initialize_orbit, such that a centre at the cluster's orbital position stays there
+            x, y, z = (cluster.xgc+cluster.xc)/ro, (cluster.ygc+cluster.yc)/ro, (cluster.zgc+cluster.zc)/ro
+            vx, vy, vz = (cluster.vxgc+cluster.vxc)/vo, (cluster.vygc+cluster.vyc)/vo, (cluster.vzgc+cluster.vzc)/vo
+            R, phi, z = coords.rect_to_cyl(x, y, z)
+            vR, vT, vz = coords.rect_to_cyl_vec(vx, vy, vz, x, y, z)
 
             oc = Orbit(
-                [R/ro, vR/vo, vT/vo, z/ro, vz/vo, phi], ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
+                [R, vR, vT, z, vz, phi], ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
             )
 
             cluster.ra=cluster.orbits.ra()
@@ -576,6 +579,11 @@ def from_radec(cluster, sortstars=True):
                 cluster.xc,cluster.yc,cluster.zc=0.,0.,0.
                 cluster.vxc,cluster.vyc,cluster.vzc=0.,0.,0.
 
+            elif (cluster.ra_c,cluster.dec_c,cluster.dist_c,cluster.pmra_c,cluster.pmdec_c,cluster.vlos_c)==(cluster.ra_gc,cluster.dec_gc,cluster.dist_gc,cluster.pmra_gc,cluster.pmdec_gc,cluster.vlos_gc):
+                # The centre is the cluster's orbital position
+                cluster.xc,cluster.yc,cluster.zc=0.,0.,0.
+                cluster.vxc,cluster.vyc,cluster.vzc=0.,0.,0.
+
             else:
                 oc = Orbit(
                     [cluster.ra_c,cluster.dec_c,cluster.dist_c,cluster.pmra_c,cluster.pmdec_c,cluster.vlos_c], radec=True,ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
-- 
2.43.0

