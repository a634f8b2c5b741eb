From f3effe12f58a959f0f498baf4094f5b5ee1d4b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 01/43] fix: keep the particle indices of each object in
 ellipsoidal density binning

calcDensProfsEllDirectBinning() overwrote the whole index range of every object
with the single entry idx_cat[p], so that the profile was that of one repeated particle.
---
 cosmic_profiles/dens_profs/dens_profs_algos.pyx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_algos.pyx b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
index 987ecf0..2b8b9ae 100644
--- a/cosmic_profiles/dens_profs/dens_profs_algos.pyx
+++ b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
@@ -167,7 +167,6 @@ def calcDensProfsEllDirectBinning(double[:,:] xyz, double[:] masses, double[:] r
     cdef double[:,:,:] inter_interpol = np.zeros((nb_objs,r_res,3), dtype = np.float64)
     cdef double[:,:,:] minor_interpol = np.zeros((nb_objs,r_res,3), dtype = np.float64)
     for p in range(nb_objs):
-        idx_cat.base[offsets[p]:offsets[p+1]] = np.array(idx_cat[p])
         r_vec = np.float64(a.base[p])
         a_inter = interp1d(r_vec, a.base[p], bounds_error=False, fill_value='extrapolate')
         b_inter = interp1d(r_vec, b.base[p], bounds_error=False, fill_value='extrapolate')
-- 
2.43.0


From 515501e61c11b324abccaad71d2d0adf9de399b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:06 +0000
Subject: [PATCH 02/43] fix: unwrap objects across the periodic boundary
 consistently

CythonHelpers.respectPBCNoRef() reflected instead of translated the particles, and tested
the y-distance for the z-coordinate; the Python version used the mean of the wrapped positions
as reference, leaving an object that straddles the boundary evenly unwrapped. Both now translate
by the box size with respect to the object's first particle, hence agree on the frame.
---
 cosmic_profiles/common/python_routines.py     |  6 ++---
 .../cython_helpers/helper_class.pxd           |  2 +-
 .../cython_helpers/helper_class.pyx           | 25 ++++++++-----------
 3 files changed, 14 insertions(+), 19 deletions(-)

diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index 2466ef3..14da9c6 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -509,11 +509,9 @@ def respectPBCNoRef(xyz, L_BOX = None):
     :type L_BOX: float
     :return: updated coordinates of particles
     :rtype: (N^3x3) floats"""
-    if L_BOX != 0.0:
+    if L_BOX != 0.0 and len(xyz) != 0:
         xyz_out = xyz.copy() # Otherwise changes would be reflected in outer scope (np.array is mutable).
-        rng = default_rng(seed=0) # Reference particle does not matter, i.e. ref = 0 is an option, but it is better to average over some random particles
-        choose = rng.choice(np.arange(len(xyz)), (min(50,len(xyz)),), replace = False)
-        ref_xyz = np.average(xyz_out[choose], axis = 0)
+        ref_xyz = xyz_out[0].copy() # Same reference particle as in CythonHelpers.respectPBCNoRef(), so that centers and particles end up in the same frame
         dist_x = xyz_out[:,0]-ref_xyz[0]
         dist_y = xyz_out[:,1]-ref_xyz[1]
         dist_z = xyz_out[:,2]-ref_xyz[2]
diff --git a/cosmic_profiles/cython_helpers/helper_class.pxd b/cosmic_profiles/cython_helpers/helper_class.pxd
index a55c64d..ac6826b 100644
--- a/cosmic_profiles/cython_helpers/helper_class.pxd
+++ b/cosmic_profiles/cython_helpers/helper_class.pxd
@@ -20,7 +20,7 @@ cdef class CythonHelpers:
     cdef void ZHEEVR(complex[::1,:] H, double * eigvals, complex[::1,:] Z, int nrows) nogil
 
     @staticmethod
-    cdef double[:,:] respectPBCNoRef(double[:,:] xyz, float L_BOX) nogil
+    cdef double[:,:] respectPBCNoRef(double[:,:] xyz, double L_BOX) nogil
     
     @staticmethod
     cdef double[:] calcDensProfBruteForceSph(double[:,:] xyz, double[:] masses, double[:] center, float r_200, double[:] ROverR200, double[:] dens_prof, int[:] shell) nogil
diff --git a/cosmic_profiles/cython_helpers/helper_class.pyx b/cosmic_profiles/cython_helpers/helper_class.pyx
index 99bf90f..cb5b2e7 100644
--- a/cosmic_profiles/cython_helpers/helper_class.pyx
+++ b/cosmic_profiles/cython_helpers/helper_class.pyx
@@ -166,12 +166,12 @@ cdef class CythonHelpers:
     @cython.boundscheck(False)
     @cython.wraparound(False) 
     @staticmethod
-    cdef double[:,:] respectPBCNoRef(double[:,:] xyz, float L_BOX) nogil:
+    cdef double[:,:] respectPBCNoRef(double[:,:] xyz, double L_BOX) nogil:
         """
         Modify xyz inplace so that it respects the box periodicity.
         
         If point distro xyz has particles separated in any Cartesian direction
-        by more than L_BOX/2, reflect those particles along L_BOX/2
+        by more than L_BOX/2, translate those particles accordingly (by L_BOX, with respect to the first particle)
         
         :param xyz: coordinates of particles of type 1 or type 4
         :type xyz: (N^3x3) floats
@@ -183,19 +183,16 @@ cdef class CythonHelpers:
         if L_BOX == 0.0:
             return xyz
         cdef int ref = 0
-        cdef float dist_x
-        cdef float dist_y
-        cdef float dist_z
+        cdef int i
+        cdef int j
+        cdef double dist
         for i in range(xyz.shape[0]):
-            dist_x = CythonHelpers.cython_abs(xyz[ref, 0]-xyz[i,0])
-            if dist_x > L_BOX/2:
-                xyz[i,0] = L_BOX-xyz[i,0] # Reflect x-distances along L_BOX/2
-            dist_y = CythonHelpers.cython_abs(xyz[ref, 1]-xyz[i,1])
-            if dist_y > L_BOX/2:
-                xyz[i,1] = L_BOX-xyz[i,1] # Reflect y-distances along L_BOX/2
-            dist_z = CythonHelpers.cython_abs(xyz[ref, 1]-xyz[i,1])
-            if dist_z > L_BOX/2:
-                xyz[i,2] = L_BOX-xyz[i,2] # Reflect z-distances along L_BOX/2
+            for j in range(3):
+                dist = xyz[i,j]-xyz[ref,j]
+                if dist > L_BOX/2:
+                    xyz[i,j] = xyz[i,j]-L_BOX
+                elif dist < -L_BOX/2:
+                    xyz[i,j] = xyz[i,j]+L_BOX
         return xyz
     
     @cython.boundscheck(False)
-- 
2.43.0


From c2b0223d165643944a8e7fd64c2fd22cc34ada35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:06 +0000
Subject: [PATCH 03/43] fix: use the particle velocities in the local velocity
 dispersion shapes

calcMorphLocalVelDisp() never filled vxyz_obj, so the tensor was that of zero velocities.
---
 cosmic_profiles/shape_profs/shape_profs_algos.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cosmic_profiles/shape_profs/shape_profs_algos.pyx b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
index 88c357e..647d707 100644
--- a/cosmic_profiles/shape_profs/shape_profs_algos.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
@@ -821,6 +821,9 @@ def calcMorphLocalVelDisp(double[:,:] xyz, double[:,:] vxyz, double[:] masses, d
             xyz_obj[openmp.omp_get_thread_num(),n,0] = xyz[idx_cat[offsets[p]+n],0]
             xyz_obj[openmp.omp_get_thread_num(),n,1] = xyz[idx_cat[offsets[p]+n],1]
             xyz_obj[openmp.omp_get_thread_num(),n,2] = xyz[idx_cat[offsets[p]+n],2]
+            vxyz_obj[openmp.omp_get_thread_num(),n,0] = vxyz[idx_cat[offsets[p]+n],0]
+            vxyz_obj[openmp.omp_get_thread_num(),n,1] = vxyz[idx_cat[offsets[p]+n],1]
+            vxyz_obj[openmp.omp_get_thread_num(),n,2] = vxyz[idx_cat[offsets[p]+n],2]
             m_obj[openmp.omp_get_thread_num(),n] = masses[idx_cat[offsets[p]+n]]
             m[p] = m[p] + masses[idx_cat[offsets[p]+n]]
         xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], L_BOX)
-- 
2.43.0


From d4cc7671b65e956cd2d807f7ca8a1bbe506d3f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:06 +0000
Subject: [PATCH 04/43] fix: getShapeCatVelGlobal() passed two arguments too
 many and always raised a TypeError

---
 cosmic_profiles/shape_profs/shape_profs_classes.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index 82aecca..e960c94 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -656,7 +656,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
             isValidSelection(obj_numbers, nb_objects)
             subset_idx_cat = getSubSetIdxCat(idx_cat, obj_size, obj_numbers)
             suffix = '_v{}_'.format(self.OBJ_TYPE)
-            d, q, s, minor, inter, major, obj_centers, obj_masses = self._getShapeCatVelGlobalBase(xyz, velxyz, masses, self.r200.base[obj_numbers], subset_idx_cat, obj_size[obj_numbers], IT_TOL, IT_WALL, IT_MIN, self.CENTER, self.SAFE, REDUCED, suffix)
+            d, q, s, minor, inter, major, obj_centers, obj_masses = self._getShapeCatVelGlobalBase(xyz, velxyz, masses, self.r200.base[obj_numbers], subset_idx_cat, obj_size[obj_numbers], IT_TOL, IT_WALL, IT_MIN, REDUCED, suffix)
             del xyz; del velxyz; del masses; del idx_cat; del obj_size
             l_internal, m_internal, vel_internal = config.getLMVInternal()
             m_curr_over_target = m_internal/config.OutUnitMass_in_g
-- 
2.43.0


From 7f47f69e6e238d9254ef4d2eb43cb46be0c02c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:06 +0000
Subject: [PATCH 05/43] fix: mass conversions looked up a non-existent unit and
 always raised a KeyError

---
 cosmic_profiles/common/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosmic_profiles/common/config.py b/cosmic_profiles/common/config.py
index 24264c4..0da9c14 100644
--- a/cosmic_profiles/common/config.py
+++ b/cosmic_profiles/common/config.py
@@ -166,7 +166,7 @@ def MassInternalToOut(mass_arr):
     :type mass_arr: floats"""
     global OutUnitMass_in_g
     length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV()
-    int_to_out = np.float32(mass_in_g_d['E+10M_sun/h']/OutUnitMass_in_g)
+    int_to_out = np.float32(mass_in_g_d['E+10Msun/h']/OutUnitMass_in_g)
     return mass_arr*int_to_out
 
 def VelInternalToOut(vel_arr):
@@ -196,7 +196,7 @@ def MassInToInternal(mass_arr):
     :type mass_arr: floats"""
     global InUnitMass_in_g
     length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV()
-    in_to_int = np.float32(InUnitMass_in_g/mass_in_g_d['E+10M_sun/h'])
+    in_to_int = np.float32(InUnitMass_in_g/mass_in_g_d['E+10Msun/h'])
     return mass_arr*in_to_int
 
 def VelInToInternal(vel_arr):
-- 
2.43.0


From ac22c92fb522fabe8b6d026f2ada29d32ecfbfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 06/43] fix: do not turn exact zeros in the principal axes into
 NaNs

A component of a (converged) principal axis can be exactly zero, e.g. for objects aligned with the
coordinate axes. Only the axes of unclassified shapes, recognizable by d, are to be set to NaN.
---
 .../shape_profs/shape_profs_algos.pyx         | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_algos.pyx b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
index 647d707..595a9ad 100644
--- a/cosmic_profiles/shape_profs/shape_profs_algos.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
@@ -619,9 +619,9 @@ def calcMorphLocal(double[:,:] xyz, double[:] masses, double[:] r200, int[:] idx
     d.base[d.base==0.0] = np.nan
     s.base[s.base==0.0] = np.nan
     q.base[q.base==0.0] = np.nan
-    minor[minor==0.0] = np.nan
-    inter[inter==0.0] = np.nan
-    major[major==0.0] = np.nan
+    minor[np.isnan(d.base)] = np.nan
+    inter[np.isnan(d.base)] = np.nan
+    major[np.isnan(d.base)] = np.nan
     del major_x; del major_y; del major_z; del inter_x; del inter_y; del inter_z; del minor_x; del minor_y; del minor_z
     # Recentre objects into box if they have fallen outside
     centers = recentreObject(centers.base, L_BOX)
@@ -727,9 +727,9 @@ def calcMorphGlobal(double[:,:] xyz, double[:] masses, double[:] r200, int[:] id
     d.base[d.base==0.0] = np.nan
     s.base[s.base==0.0] = np.nan
     q.base[q.base==0.0] = np.nan
-    minor[minor==0.0] = np.nan
-    inter[inter==0.0] = np.nan
-    major[major==0.0] = np.nan
+    minor[np.isnan(d.base)] = np.nan
+    inter[np.isnan(d.base)] = np.nan
+    major[np.isnan(d.base)] = np.nan
     del major_x; del major_y; del major_z; del inter_x; del inter_y; del inter_z; del minor_x; del minor_y; del minor_z
     # Recentre objects into box if they have fallen outside
     centers = recentreObject(centers.base, L_BOX)
@@ -850,9 +850,9 @@ def calcMorphLocalVelDisp(double[:,:] xyz, double[:,:] vxyz, double[:] masses, d
     d.base[d.base==0.0] = np.nan
     s.base[s.base==0.0] = np.nan
     q.base[q.base==0.0] = np.nan
-    minor[minor==0.0] = np.nan
-    inter[inter==0.0] = np.nan
-    major[major==0.0] = np.nan
+    minor[np.isnan(d.base)] = np.nan
+    inter[np.isnan(d.base)] = np.nan
+    major[np.isnan(d.base)] = np.nan
     del major_x; del major_y; del major_z; del inter_x; del inter_y; del inter_z; del minor_x; del minor_y; del minor_z
     # Recentre objects into box if they have fallen outside
     centers = recentreObject(centers.base, L_BOX)
@@ -966,9 +966,9 @@ def calcMorphGlobalVelDisp(double[:,:] xyz, double[:,:] vxyz, double[:] masses,
     d.base[d.base==0.0] = np.nan
     s.base[s.base==0.0] = np.nan
     q.base[q.base==0.0] = np.nan
-    minor[minor==0.0] = np.nan
-    inter[inter==0.0] = np.nan
-    major[major==0.0] = np.nan
+    minor[np.isnan(d.base)] = np.nan
+    inter[np.isnan(d.base)] = np.nan
+    major[np.isnan(d.base)] = np.nan
     del major_x; del major_y; del major_z; del inter_x; del inter_y; del inter_z; del minor_x; del minor_y; del minor_z
     # Recentre objects into box if they have fallen outside
     centers = recentreObject(centers.base, L_BOX)
-- 
2.43.0


From 3cf9646a67451c14644dee00e2519c0f2474a648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 07/43] fix: plotLocalEpsHist() raised an exception for every
 input

getLocalEpsHist() did not hand over the masses, and getCatWithinFracR200() treated an array as a
memoryview, did not hand over the box size, and used an argument that cKDTree no longer has.
---
 cosmic_profiles/common/python_routines.py        | 8 ++++----
 cosmic_profiles/shape_profs/shape_profs_tools.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index 14da9c6..84a5c98 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -591,15 +591,15 @@ def getCatWithinFracR200(cat_in, obj_size_in, xyz, masses, L_BOX, CENTER, r200,
     for idx in range(len(obj_size_in)): # Calculate centers of objects
         xyz_ = respectPBCNoRef(xyz[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]], L_BOX)
         if CENTER == 'mode':
-            centers.base[idx] = calcMode(xyz_, masses[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]], max((max(xyz_[:,0])-min(xyz_[:,0]), max(xyz_[:,1])-min(xyz_[:,1]), max(xyz_[:,2])-min(xyz_[:,2]))))
+            centers[idx] = calcMode(xyz_, masses[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]], max((max(xyz_[:,0])-min(xyz_[:,0]), max(xyz_[:,1])-min(xyz_[:,1]), max(xyz_[:,2])-min(xyz_[:,2]))))
         else:
-            centers.base[idx] = calcCoM(xyz_, masses[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]])
+            centers[idx] = calcCoM(xyz_, masses[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]])
     remnant = []
     for idx in range(len(obj_size_in)):
         obj = cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]
-        xyz_ = respectPBCNoRef(xyz[obj])
+        xyz_ = respectPBCNoRef(xyz[obj], L_BOX)
         tree = cKDTree(xyz_, leafsize=2, balanced_tree = False)
-        all_nn_idxs = tree.query_ball_point(centers[idx], r=r200[idx]*frac_r200, n_jobs=-1)
+        all_nn_idxs = tree.query_ball_point(centers[idx], r=r200[idx]*frac_r200, workers=-1)
         if all_nn_idxs != []:
             cat_out = np.hstack((cat_out, np.array(obj)[all_nn_idxs]))
             obj_size_out[idx] = len(all_nn_idxs)
diff --git a/cosmic_profiles/shape_profs/shape_profs_tools.py b/cosmic_profiles/shape_profs/shape_profs_tools.py
index bc6b308..37fc824 100644
--- a/cosmic_profiles/shape_profs/shape_profs_tools.py
+++ b/cosmic_profiles/shape_profs/shape_profs_tools.py
@@ -421,7 +421,7 @@ def getLocalEpsHist(xyz, masses, r200, idx_cat, obj_size, L_BOX, CENTER, VIZ_DES
     
     if rank == 0:
         # Update h_cat so that only particles within r200 are considered
-        idx_cat_new, obj_size_new = getCatWithinFracR200(idx_cat, obj_size, xyz, L_BOX, CENTER, r200, frac_r200)
+        idx_cat_new, obj_size_new = getCatWithinFracR200(idx_cat, obj_size, xyz, masses, L_BOX, CENTER, r200, frac_r200)
         
         # Create VIZ_DEST if not available
         subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
-- 
2.43.0


From 8efe6ee99ba3a14b94931e2fb2c21aa485451bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 08/43] fix: blocks of Gadget format II files were never found

find_block() compared the bytes read from the file with a str, which are never equal.
---
 cosmic_profiles/gadget/readsnap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/gadget/readsnap.py b/cosmic_profiles/gadget/readsnap.py
index 5575124..56b31f2 100644
--- a/cosmic_profiles/gadget/readsnap.py
+++ b/cosmic_profiles/gadget/readsnap.py
@@ -117,7 +117,7 @@ def find_block(filename, format, swap, block, block_num, only_list_blocks=False)
   while ((not found) and (f.tell()<filesize)):
     if format==2:
       f.seek(4, os.SEEK_CUR)
-      curblock = f.read(4)
+      curblock = f.read(4).decode('ascii', 'replace') # block is a str
       if (block == curblock):
         found = True
       f.seek(8, os.SEEK_CUR)  
-- 
2.43.0


From d4cae512acb20a6621a0b1ab0b5c1e03319efa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 09/43] fix: 64-bit particle IDs were truncated to 32 bits

read_block() noticed that the IDs are 64 bits wide, but stored them in an array of 32-bit integers.
---
 cosmic_profiles/gadget/readsnap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cosmic_profiles/gadget/readsnap.py b/cosmic_profiles/gadget/readsnap.py
index 56b31f2..39c1635 100644
--- a/cosmic_profiles/gadget/readsnap.py
+++ b/cosmic_profiles/gadget/readsnap.py
@@ -355,6 +355,7 @@ def read_block(filename, block, parttype=-1, physical_velocities=True,
       if block=="ID  ":
         if blocksize == np.dtype(dt).itemsize*curpartnum * 2:
           dt = np.uint64 
+          data = data.astype(dt)
         
     if np.dtype(dt).itemsize*curpartnum != blocksize:
       print("something wrong with blocksize! expected =",np.dtype(dt).itemsize*curpartnum,"actual =",blocksize)
-- 
2.43.0


From 100a5676cfb4544e09e01a75f38916583b50d1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:40 +0000
Subject: [PATCH 10/43] fix: read Gadget snapshots whose blocks are in single
 precision

Gadget writes floats unless configured otherwise; read_block() assumed doubles and ended the program.
---
 cosmic_profiles/gadget/readsnap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cosmic_profiles/gadget/readsnap.py b/cosmic_profiles/gadget/readsnap.py
index 39c1635..b9733c8 100644
--- a/cosmic_profiles/gadget/readsnap.py
+++ b/cosmic_profiles/gadget/readsnap.py
@@ -357,6 +357,10 @@ def read_block(filename, block, parttype=-1, physical_velocities=True,
           dt = np.uint64 
           data = data.astype(dt)
         
+    # Single-precision snapshot, which is what Gadget writes by default
+    if curpartnum > 0 and np.dtype(dt).base == np.float64 and np.dtype(dt).itemsize*curpartnum == int(blocksize) * 2:
+      dt = np.dtype((np.float32,np.dtype(dt).shape))
+
     if np.dtype(dt).itemsize*curpartnum != blocksize:
       print("something wrong with blocksize! expected =",np.dtype(dt).itemsize*curpartnum,"actual =",blocksize)
       sys.exit()
-- 
2.43.0


From a6aa0808cad57c7289961c39c147bdc3818c8c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:40 +0000
Subject: [PATCH 11/43] fix: read multi-file HDF5 snapshots in which a subfile
 lacks a particle type

HDF5 subfiles have no group for a particle type of which they hold no particles, which read_field()
took for an error; it also took the particle mass for the missing coordinates or velocities.
---
 cosmic_profiles/gadget/readgadget.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cosmic_profiles/gadget/readgadget.py b/cosmic_profiles/gadget/readgadget.py
index 56dceca..f596a96 100644
--- a/cosmic_profiles/gadget/readgadget.py
+++ b/cosmic_profiles/gadget/readgadget.py
@@ -107,7 +107,9 @@ def read_field(snapshot, block, ptype):
         f = h5py.File(filename, 'r')
         
         if '%s%s'%(prefix,suffix) not in f:
-            if Masses[ptype] != 0.0:
+            if Npart[ptype] == 0: # Particle type not in this subfile
+                array = np.empty((0,3) if block in ("POS ","VEL ") else (0,), np.float64)
+            elif block == "MASS" and Masses[ptype] != 0.0:
                 array = np.ones(Npart[ptype], np.float64)*Masses[ptype]/unit_fac
             else:
                 raise Exception('Problem reading the block %s'%block)
-- 
2.43.0


From f60e21c1b8d10c60f1397bdc40f9ca5d711e8511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:45 +0000
Subject: [PATCH 12/43] fix: read multi-file binary snapshots in which a
 subfile lacks a particle type

Gadget omits a block of which a subfile holds no particles, which ended the program.
---
 cosmic_profiles/gadget/readsnap.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cosmic_profiles/gadget/readsnap.py b/cosmic_profiles/gadget/readsnap.py
index b9733c8..8555292 100644
--- a/cosmic_profiles/gadget/readsnap.py
+++ b/cosmic_profiles/gadget/readsnap.py
@@ -349,9 +349,13 @@ def read_block(filename, block, parttype=-1, physical_velocities=True,
       actual_curpartnum = curpartnum
       add_offset = np.int32(0)
       
+    if parttype>=0 and actual_curpartnum==0: # Nothing to read, and Gadget omits blocks that would be empty
+      if single_file:  break
+      continue
+      
     offset,blocksize = find_block(curfilename,format,swap,block,block_num)
     
-    if i==0: # Fix data type for ID if long IDs are used
+    if dt == np.uint32: # Fix data type for ID if long IDs are used
       if block=="ID  ":
         if blocksize == np.dtype(dt).itemsize*curpartnum * 2:
           dt = np.uint64 
-- 
2.43.0


From 81d0ce20f5b1f85c5eb6341e22af65c059d6f1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 13/43] fix: overdensity radii cached for one unit system were
 returned in another

getFoFSHData() caches radii converted with the current input unit system, but the unit
system was not part of the cache key, so they went stale after updateInUnitSystem().
---
 cosmic_profiles/gadget/read_fof.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cosmic_profiles/gadget/read_fof.py b/cosmic_profiles/gadget/read_fof.py
index 5fb7510..68ab54f 100644
--- a/cosmic_profiles/gadget/read_fof.py
+++ b/cosmic_profiles/gadget/read_fof.py
@@ -42,7 +42,7 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
         fof_sizes (size of each FoF-halo), group_r200 (R200 radius of each FoF-halo
         in units of cMpc/h)
     :rtype: double and int arrays"""
-    def inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
+    def inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE, l_curr_over_target):
         fof_sizes = np.empty(0, dtype = np.int32)
         nb_shs = np.empty(0, dtype = np.int32)
         sh_len = np.empty(0, dtype = np.int32)
@@ -62,8 +62,6 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
             last = rank == nb_jobs_to_do - 1
         count_fof = 0
         count_sh = 0
-        l_internal, m_internal, vel_internal = config.getLMVInternal()
-        l_curr_over_target = config.InUnitLength_in_cm/l_internal
         for snap_run in range(rank*perrank, rank*perrank+do_sth*(perrank+last*(nb_jobs_to_do-(rank+1)*perrank))):
             g = h5py.File(r'{}'.format(hdf5GroupFilenamesList[snap_run]), 'r')
             if 'Group/GroupLenType' in g:
@@ -134,5 +132,7 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
         return nb_shs, sh_len, fof_sizes, np.float64(group_r200)
     if(not hasattr(getFoFSHData, "inner")):
         getFoFSHData.inner = np_cache_factory(0,0)(inner)
-    getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE)
-    return getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE)
\ No newline at end of file
+    l_internal, m_internal, vel_internal = config.getLMVInternal()
+    l_curr_over_target = config.InUnitLength_in_cm/l_internal # Part of the cache key, since the radii depend on it
+    getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE, l_curr_over_target)
+    return getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE, l_curr_over_target)
\ No newline at end of file
-- 
2.43.0


From 02a71c6c6e0ca2bf0fb77b4ee6502f207898a4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:24 +0000
Subject: [PATCH 14/43] fix: a rejected unit-system update no longer changes
 little h

---
 cosmic_profiles/common/config.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/cosmic_profiles/common/config.py b/cosmic_profiles/common/config.py
index 0da9c14..29762b5 100644
--- a/cosmic_profiles/common/config.py
+++ b/cosmic_profiles/common/config.py
@@ -7,10 +7,11 @@ comm = MPI.COMM_WORLD
 rank = comm.Get_rank()
 size = comm.Get_size()
 
-def getAdmissibleLMV():
-    global LittleH
-    length_in_cm_d = {'kpc': 3.085678e21, 'Mpc': 3.085678e24, 'Gpc': 3.085678e27, 'kpc/h': 3.085678e21/LittleH, 'Mpc/h': 3.085678e24/LittleH, 'Gpc/h': 3.085678e27/LittleH, 'pc': 3.085678e18, 'pc/h': 3.085678e18/LittleH}
-    mass_in_g_d = {'Msun': 1.989e33, 'E+10Msun': 1.989e43, 'Msun/h': 1.989e33/LittleH, 'E+10Msun/h': 1.989e43/LittleH}
+def getAdmissibleLMV(little_h = None):
+    if little_h is None:
+        little_h = LittleH
+    length_in_cm_d = {'kpc': 3.085678e21, 'Mpc': 3.085678e24, 'Gpc': 3.085678e27, 'kpc/h': 3.085678e21/little_h, 'Mpc/h': 3.085678e24/little_h, 'Gpc/h': 3.085678e27/little_h, 'pc': 3.085678e18, 'pc/h': 3.085678e18/little_h}
+    mass_in_g_d = {'Msun': 1.989e33, 'E+10Msun': 1.989e43, 'Msun/h': 1.989e33/little_h, 'E+10Msun/h': 1.989e43/little_h}
     velocity_in_cm_per_s_d = {'km/s': 1e5}
     return length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d
 
@@ -101,9 +102,8 @@ def updateInUnitSystem(length_in_cm, mass_in_g, velocity_in_cm_per_s, little_h):
     global InUnitMass_in_g
     global InUnitVelocity_in_cm_per_s
     global LittleH
-    LittleH = little_h
     
-    length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV()
+    length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV(little_h)
     if type(length_in_cm) == str:
         assert length_in_cm in length_in_cm_d.keys(), "Unit not allowed for length_in_cm. Choose from {} or provide length in cm".format(list(length_in_cm_d.keys()))
         length_in_cm = length_in_cm_d[length_in_cm]
@@ -113,6 +113,7 @@ def updateInUnitSystem(length_in_cm, mass_in_g, velocity_in_cm_per_s, little_h):
     if type(velocity_in_cm_per_s) == str:
         assert velocity_in_cm_per_s in velocity_in_cm_per_s_d.keys(), "Unit not allowed for velocity_in_cm_per_s. Choose from {} or provide vel in cm/s".format(list(velocity_in_cm_per_s_d.keys()))
         velocity_in_cm_per_s = velocity_in_cm_per_s_d[velocity_in_cm_per_s]
+    LittleH = little_h
     InUnitLength_in_cm = length_in_cm
     InUnitMass_in_g = mass_in_g
     InUnitVelocity_in_cm_per_s = velocity_in_cm_per_s
@@ -133,9 +134,8 @@ def updateOutUnitSystem(length_in_cm, mass_in_g, velocity_in_cm_per_s, little_h)
     global OutUnitMass_in_g
     global OutUnitVelocity_in_cm_per_s
     global LittleH
-    LittleH = little_h
     
-    length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV()
+    length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV(little_h)
     if type(length_in_cm) == str:
         assert length_in_cm in length_in_cm_d.keys(), "Unit not allowed for length_in_cm. Choose from {} or provide length in cm".format(list(length_in_cm_d.keys()))
         length_in_cm = length_in_cm_d[length_in_cm]
@@ -145,6 +145,7 @@ def updateOutUnitSystem(length_in_cm, mass_in_g, velocity_in_cm_per_s, little_h)
     if type(velocity_in_cm_per_s) == str:
         assert velocity_in_cm_per_s in velocity_in_cm_per_s_d.keys(), "Unit not allowed for velocity_in_cm_per_s. Choose from {} or provide vel in cm/s".format(list(velocity_in_cm_per_s_d.keys()))
         velocity_in_cm_per_s = velocity_in_cm_per_s_d[velocity_in_cm_per_s]
+    LittleH = little_h
     OutUnitLength_in_cm = length_in_cm
     OutUnitMass_in_g = mass_in_g
     OutUnitVelocity_in_cm_per_s = velocity_in_cm_per_s
-- 
2.43.0


From 1da69864a2f74b0dd60a11eeefd3c2a5e53c3607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 15/43] fix: DensShapeProfsGadget could not be constructed on
 more than one MPI process

---
 cosmic_profiles/shape_profs/shape_profs_classes.pyx | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index e960c94..382efaa 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -581,11 +581,12 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
             del nb_shs; del sh_len; del fof_sizes; del group_r200
         else:
             del nb_shs; del sh_len; del fof_sizes; del group_r200; del xyz; del masses  
-            obj_cat = None
-            obj_r200 = None
-            obj_size = None
-            xyz = None
-            masses = None
+            # Only the root process holds data (None would have no base attribute)
+            obj_cat = np.empty((0,), dtype = np.int32)
+            obj_r200 = np.empty((0,), dtype = np.float64)
+            obj_size = np.empty((0,), dtype = np.int32)
+            xyz = np.empty((0,3), dtype = np.float64)
+            masses = np.empty((0,), dtype = np.float64)
         # Find L_BOX
         head = readgadget.header(self.SNAP_DEST)
         L_BOX = np.float64(head.boxsize)
-- 
2.43.0


From 09b9021f90ca33ab6b69bdcf3693665e862e1e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 16/43] fix: relative output folders were created inside the
 package, not where the files are written

---
 cosmic_profiles/common/cosmic_base_class.pyx        |  8 ++++----
 cosmic_profiles/dens_profs/dens_profs_tools.py      |  2 +-
 cosmic_profiles/shape_profs/shape_profs_classes.pyx |  4 ++--
 cosmic_profiles/shape_profs/shape_profs_tools.py    | 10 +++++-----
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index dcb1a96..a555d12 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -468,7 +468,7 @@ cdef class CosmicBase:
                 major = np.array([])
             
             # Create CAT_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)], cwd=os.path.join(currentdir))
+            os.makedirs(self.CAT_DEST, exist_ok = True)
             np.savetxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
             np.savetxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
@@ -522,7 +522,7 @@ cdef class CosmicBase:
                 major = np.array([])
             
             # Create CAT_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)], cwd=os.path.join(currentdir))
+            os.makedirs(self.CAT_DEST, exist_ok = True)
             np.savetxt('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
             np.savetxt('{0}/q_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
@@ -583,7 +583,7 @@ cdef class CosmicBase:
                 major = np.array([])
             
             # Create CAT_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)], cwd=os.path.join(currentdir))
+            os.makedirs(self.CAT_DEST, exist_ok = True)
             np.savetxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
             np.savetxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
@@ -641,7 +641,7 @@ cdef class CosmicBase:
                 major = np.array([])
             
             # Create CAT_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)], cwd=os.path.join(currentdir))
+            os.makedirs(self.CAT_DEST, exist_ok = True)
             np.savetxt('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
             np.savetxt('{0}/q_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index 8889f1a..a96d72e 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -155,7 +155,7 @@ def drawDensProfs(VIZ_DEST, SNAP, r200s, dens_profs_fit, ROverR200_fit, dens_pro
         best_fit_dict = getModelParsDict(best_fit, method['profile'])
         del r200
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        os.makedirs(VIZ_DEST, exist_ok = True)
         
         # Go to outgoing unit system
         l_internal, m_internal, vel_internal = config.getLMVInternal()
diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index 382efaa..7e0ed1a 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -165,7 +165,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
             del obj_m
                                 
             # Create VIZ_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.VIZ_DEST)], cwd=os.path.join(currentdir))
+            os.makedirs(self.VIZ_DEST, exist_ok = True)
             
             # Go to outgoing unit system
             d = config.LengthInternalToOut(d)
@@ -260,7 +260,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
             del obj_m
         
             # Create VIZ_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.VIZ_DEST)], cwd=os.path.join(currentdir))
+            os.makedirs(self.VIZ_DEST, exist_ok = True)
             
             # Go to outgoing unit system
             d = config.LengthInternalToOut(d)
diff --git a/cosmic_profiles/shape_profs/shape_profs_tools.py b/cosmic_profiles/shape_profs/shape_profs_tools.py
index 37fc824..e805c46 100644
--- a/cosmic_profiles/shape_profs/shape_profs_tools.py
+++ b/cosmic_profiles/shape_profs/shape_profs_tools.py
@@ -149,7 +149,7 @@ def getShapeProfs(VIZ_DEST, SNAP, r_over_r200, r200, start_time, obj_masses, obj
         ERROR_METHOD = "median_quantile"
         
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        os.makedirs(VIZ_DEST, exist_ok = True)
         
         # Q
         plt.figure()
@@ -278,7 +278,7 @@ def getLocalTHist(VIZ_DEST, SNAP, r_over_r200, r200, start_time, obj_masses, obj
         t = np.nan_to_num(t)
         
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        os.makedirs(VIZ_DEST, exist_ok = True)
         
         # T counting
         plt.figure()
@@ -333,7 +333,7 @@ def getGlobalTHist(VIZ_DEST, SNAP, start_time, obj_masses, obj_centers, d, q, s,
         t = np.nan_to_num(t)
         
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        os.makedirs(VIZ_DEST, exist_ok = True)
         
         # T counting
         plt.figure()
@@ -379,7 +379,7 @@ def getGlobalEpsHist(xyz, masses, idx_cat, obj_size, L_BOX, CENTER, VIZ_DEST, SN
     
     if rank == 0:
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        os.makedirs(VIZ_DEST, exist_ok = True)
         
         eps = getEpsilon(idx_cat, obj_size, xyz, masses, L_BOX, CENTER)
         plt.figure()
@@ -424,7 +424,7 @@ def getLocalEpsHist(xyz, masses, r200, idx_cat, obj_size, L_BOX, CENTER, VIZ_DES
         idx_cat_new, obj_size_new = getCatWithinFracR200(idx_cat, obj_size, xyz, masses, L_BOX, CENTER, r200, frac_r200)
         
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        os.makedirs(VIZ_DEST, exist_ok = True)
         
         # Direct fitting result prep, needed for both D and A
         eps = getEpsilon(idx_cat_new, obj_size_new, xyz, masses, L_BOX, CENTER)
-- 
2.43.0


From 7d2daef406e25c3d4e6768863d0784f8cac86aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 17/43] fix: reload local shape catalogues dumped for several
 objects at a single radius

---
 cosmic_profiles/common/cosmic_base_class.pyx | 54 +++++++-------------
 1 file changed, 18 insertions(+), 36 deletions(-)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index a555d12..f49f80a 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -118,14 +118,14 @@ cdef class CosmicBase:
         if rank == 0:
             
             if os.path.exists('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP)):
-                d = np.loadtxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                q = np.loadtxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                s = np.loadtxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                minor = np.loadtxt('{0}/minor_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                inter = np.loadtxt('{0}/inter_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                major = np.loadtxt('{0}/major_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                obj_masses = np.loadtxt('{0}/m_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                obj_centers = np.loadtxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
+                d = np.loadtxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin = 2)
+                q = np.loadtxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin = 2)
+                s = np.loadtxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin = 2)
+                minor = np.loadtxt('{0}/minor_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin = 2)
+                inter = np.loadtxt('{0}/inter_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin = 2)
+                major = np.loadtxt('{0}/major_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin = 2)
+                obj_masses = np.loadtxt('{0}/m_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin = 1)
+                obj_centers = np.loadtxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin = 2)
                 
                 l_internal, m_internal, vel_internal = config.getLMVInternal()
                 l_curr_over_target = l_internal/config.OutUnitLength_in_cm
@@ -133,19 +133,10 @@ cdef class CosmicBase:
                 d = d/l_curr_over_target
                 obj_centers = obj_centers/l_curr_over_target
                 obj_masses = obj_masses/m_curr_over_target
-                if d.shape[0] != 0 and d.ndim == 2:
+                if d.shape[0] != 0:
                     minor = minor.reshape(minor.shape[0], -1, 3)
                     inter = inter.reshape(inter.shape[0], -1, 3)
                     major = major.reshape(major.shape[0], -1, 3)
-                elif d.ndim == 1:
-                    minor = minor.reshape(1, -1, 3)
-                    inter = inter.reshape(1, -1, 3)
-                    major = major.reshape(1, -1, 3)
-                    obj_masses = np.array([obj_masses])
-                    obj_centers = obj_centers.reshape(1, 3)
-                    d = d.reshape(1, -1)
-                    q = q.reshape(1, -1)
-                    s = s.reshape(1, -1)
                 else:
                     minor = np.array([])
                     inter = np.array([])
@@ -287,14 +278,14 @@ cdef class CosmicBase:
         if rank == 0:
             
             if os.path.exists('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP)):
-                d = np.loadtxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                q = np.loadtxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                s = np.loadtxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                minor = np.loadtxt('{0}/minor_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                inter = np.loadtxt('{0}/inter_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                major = np.loadtxt('{0}/major_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                obj_masses = np.loadtxt('{0}/m_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                obj_centers = np.loadtxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
+                d = np.loadtxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin = 2)
+                q = np.loadtxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin = 2)
+                s = np.loadtxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin = 2)
+                minor = np.loadtxt('{0}/minor_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin = 2)
+                inter = np.loadtxt('{0}/inter_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin = 2)
+                major = np.loadtxt('{0}/major_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin = 2)
+                obj_masses = np.loadtxt('{0}/m_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin = 1)
+                obj_centers = np.loadtxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin = 2)
                 
                 l_internal, m_internal, vel_internal = config.getLMVInternal()
                 l_curr_over_target = l_internal/config.OutUnitLength_in_cm
@@ -302,19 +293,10 @@ cdef class CosmicBase:
                 d = d/l_curr_over_target
                 obj_centers = obj_centers/l_curr_over_target
                 obj_masses = obj_masses/m_curr_over_target
-                if d.shape[0] != 0 and d.ndim == 2:
+                if d.shape[0] != 0:
                     minor = minor.reshape(minor.shape[0], -1, 3)
                     inter = inter.reshape(inter.shape[0], -1, 3)
                     major = major.reshape(major.shape[0], -1, 3)
-                elif d.ndim == 1:
-                    minor = minor.reshape(1, -1, 3)
-                    inter = inter.reshape(1, -1, 3)
-                    major = major.reshape(1, -1, 3)
-                    obj_masses = np.array([obj_masses])
-                    obj_centers = obj_centers.reshape(1, 3)
-                    d = d.reshape(1, -1)
-                    q = q.reshape(1, -1)
-                    s = s.reshape(1, -1)
                 else:
                     minor = np.array([])
                     inter = np.array([])
-- 
2.43.0


From 2d51ce7a4d0dc28ca0b14376d5ee2b67905542b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 18/43] fix: an interrupted dump left a partial shape catalogue
 that was picked up later

---
 cosmic_profiles/common/cosmic_base_class.pyx | 59 +++++++++-----------
 1 file changed, 27 insertions(+), 32 deletions(-)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index f49f80a..f16c014 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -21,6 +21,29 @@ comm = MPI.COMM_WORLD
 rank = comm.Get_rank()
 size = comm.Get_size()
 
+def saveShapeCat(CAT_DEST, kind, suffix, SNAP, d, q, s, minor, inter, major, obj_masses, obj_centers):
+    """ Write shape catalogue to disk
+    
+    The existence of the file containing ``d`` marks the catalogue as complete. Hence, that 
+    file is removed first and put in place last, so that an interrupted call does not leave 
+    a partial catalogue behind that would be picked up later.
+    
+    :param CAT_DEST: catalogue destination
+    :type CAT_DEST: string
+    :param kind: 'local' or 'global'
+    :type kind: string
+    :param suffix: suffix for file names
+    :type suffix: string
+    :param SNAP: snapshot identifier, e.g. '024'
+    :type SNAP: string"""
+    d_file = '{0}/d_{1}{2}{3}.txt'.format(CAT_DEST, kind, suffix, SNAP)
+    if os.path.exists(d_file):
+        os.remove(d_file)
+    for name, arr in [('q', q), ('s', s), ('minor', minor), ('inter', inter), ('major', major), ('m', obj_masses), ('centers', obj_centers)]:
+        np.savetxt('{0}/{1}_{2}{3}{4}.txt'.format(CAT_DEST, name, kind, suffix, SNAP), arr, fmt='%1.7e')
+    np.savetxt(d_file + '.tmp', d, fmt='%1.7e')
+    os.replace(d_file + '.tmp', d_file)
+
 @cython.embedsignature(True)
 cdef class CosmicBase:
     """ Parent class governing high-level cosmic shape calculations
@@ -451,14 +474,7 @@ cdef class CosmicBase:
             
             # Create CAT_DEST if not available
             os.makedirs(self.CAT_DEST, exist_ok = True)
-            np.savetxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
-            np.savetxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
-            np.savetxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
-            np.savetxt('{0}/minor_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), minor, fmt='%1.7e')
-            np.savetxt('{0}/inter_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), inter, fmt='%1.7e')
-            np.savetxt('{0}/major_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), major, fmt='%1.7e')
-            np.savetxt('{0}/m_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_masses, fmt='%1.7e')
-            np.savetxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_centers, fmt='%1.7e')
+            saveShapeCat(self.CAT_DEST, 'local', suffix, self.SNAP, d, q, s, minor, inter, major, obj_masses, obj_centers)
             del d; del q; del s; del minor; del inter; del major; del obj_centers; del obj_masses
         
     def _dumpShapeCatGlobalBase(self, double[:,:] xyz, double[:] masses, double[:] r200, int[:] idx_cat, int[:] obj_size, double IT_TOL, int IT_WALL, int IT_MIN, str suffix, bint reduced):
@@ -505,14 +521,7 @@ cdef class CosmicBase:
             
             # Create CAT_DEST if not available
             os.makedirs(self.CAT_DEST, exist_ok = True)
-            np.savetxt('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
-            np.savetxt('{0}/q_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
-            np.savetxt('{0}/s_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
-            np.savetxt('{0}/minor_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), minor, fmt='%1.7e')
-            np.savetxt('{0}/inter_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), inter, fmt='%1.7e')
-            np.savetxt('{0}/major_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), major, fmt='%1.7e')
-            np.savetxt('{0}/m_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_masses, fmt='%1.7e')
-            np.savetxt('{0}/centers_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_centers, fmt='%1.7e')
+            saveShapeCat(self.CAT_DEST, 'global', suffix, self.SNAP, d, q, s, minor, inter, major, obj_masses, obj_centers)
             del d; del q; del s; del minor; del inter; del major; del obj_centers; del obj_masses
     
     def _dumpShapeVelCatLocalBase(self, double[:,:] xyz, double[:,:] velxyz, double[:] masses, double[:] r200, int[:] idx_cat, int[:] obj_size, double[:] r_over_r200, double IT_TOL, int IT_WALL, int IT_MIN, str suffix, bint reduced, bint shell_based):
@@ -566,14 +575,7 @@ cdef class CosmicBase:
             
             # Create CAT_DEST if not available
             os.makedirs(self.CAT_DEST, exist_ok = True)
-            np.savetxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
-            np.savetxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
-            np.savetxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
-            np.savetxt('{0}/minor_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), minor, fmt='%1.7e')
-            np.savetxt('{0}/inter_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), inter, fmt='%1.7e')
-            np.savetxt('{0}/major_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), major, fmt='%1.7e')
-            np.savetxt('{0}/m_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_masses, fmt='%1.7e')
-            np.savetxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_centers, fmt='%1.7e')
+            saveShapeCat(self.CAT_DEST, 'local', suffix, self.SNAP, d, q, s, minor, inter, major, obj_masses, obj_centers)
             del d; del q; del s; del minor; del inter; del major; del obj_centers; del obj_masses
     
     def _dumpShapeVelCatGlobalBase(self, double[:,:] xyz, double[:,:] velxyz, double[:] masses, double[:] r200, int[:] idx_cat, int[:] obj_size, double IT_TOL, int IT_WALL, int IT_MIN, str suffix, bint reduced):
@@ -624,14 +626,7 @@ cdef class CosmicBase:
             
             # Create CAT_DEST if not available
             os.makedirs(self.CAT_DEST, exist_ok = True)
-            np.savetxt('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
-            np.savetxt('{0}/q_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
-            np.savetxt('{0}/s_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
-            np.savetxt('{0}/minor_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), minor, fmt='%1.7e')
-            np.savetxt('{0}/inter_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), inter, fmt='%1.7e')
-            np.savetxt('{0}/major_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), major, fmt='%1.7e')
-            np.savetxt('{0}/m_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_masses, fmt='%1.7e')
-            np.savetxt('{0}/centers_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_centers, fmt='%1.7e')
+            saveShapeCat(self.CAT_DEST, 'global', suffix, self.SNAP, d, q, s, minor, inter, major, obj_masses, obj_centers)
             del d; del q; del s; del minor; del inter; del major; del obj_centers; del obj_masses
     
     def _plotShapeProfsBase(self, double[:,:] xyz, double[:] masses, double[:] r200, int[:] idx_cat, int[:] obj_size, double[:] r_over_r200, double IT_TOL, int IT_WALL, int IT_MIN, bint reduced, bint shell_based, int nb_bins, str suffix = ''):
-- 
2.43.0


From 1702b0ab4f8a25bda47dba2af2b3bb9a3cb17583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 19/43] fix: density profile fits of empty bins ran on log(0)
 and were reported as converged

---
 cosmic_profiles/dens_profs/dens_profs_tools.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index a96d72e..90f7bf1 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -258,9 +258,9 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
         min_method = 'Powell'
     
     R_to_min = ROverR200*r200 # Mpc/h
-    # Discard nan values in median
-    R_to_min = R_to_min[~np.isnan(median)] # Note: np.isnan returns a boolean
-    median = median[~np.isnan(median)]
+    # Discard nan values and empty bins in median, there is no log-density in either case
+    R_to_min = R_to_min[median > 0] # Note: comparison with nan is False
+    median = median[median > 0]
     # Set initial guess and minimize scalar function
     try:
         if method['profile'] == 'einasto':
@@ -318,6 +318,8 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
             res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(1e-7, np.inf), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
             best_fit = res.x
         best_fit[0] *= np.average(median)
+        if median.shape[0] == 0: # Nothing to fit
+            best_fit = iguess*np.nan
     except ValueError: # For poor density profiles one might encounter "ValueError: `x0` violates bound constraints."
         best_fit = iguess*np.nan
     return best_fit, obj_nb
-- 
2.43.0


From 5c9fec31f9917e8f751b92e0b1215622f1c40c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 20/43] fix: a fixed rho_s was ignored in density profile
 fitting

---
 cosmic_profiles/dens_profs/dens_profs_tools.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index 90f7bf1..7aad466 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -263,6 +263,12 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
     median = median[median > 0]
     # Set initial guess and minimize scalar function
     try:
+        if 'rho_s' in method:
+            rho_s_lbound = method['rho_s']/np.average(median) # Since median is rescaled below
+            rho_s_rbound = rho_s_lbound
+        else:
+            rho_s_lbound = 1e-7
+            rho_s_rbound = np.inf
         if method['profile'] == 'einasto':
             if 'alpha' in method:
                 alpha_lbound = method['alpha']
@@ -277,7 +283,7 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
                 r_s_lbound = 1e-5
                 r_s_rbound = np.inf
             iguess = np.array([0.1, 0.18, r200/5]) # Note: alpha = 0.18 gives ~ NFW
-            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(1e-7, np.inf), (alpha_lbound, alpha_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
+            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(rho_s_lbound, rho_s_rbound), (alpha_lbound, alpha_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
             best_fit = res.x
         elif method['profile'] == 'alpha_beta_gamma':
             if 'alpha' in method:
@@ -305,7 +311,7 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
                 r_s_lbound = 1e-5
                 r_s_rbound = np.inf
             iguess = np.array([0.1, 1.0, 1.0, 1.0, r200/5])
-            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(1e-7, np.inf), (alpha_lbound, alpha_rbound), (beta_lbound, beta_rbound), (gamma_lbound, gamma_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
+            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(rho_s_lbound, rho_s_rbound), (alpha_lbound, alpha_rbound), (beta_lbound, beta_rbound), (gamma_lbound, gamma_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
             best_fit = res.x
         else:
             if 'r_s' in method:
@@ -315,7 +321,7 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
                 r_s_lbound = 1e-5
                 r_s_rbound = np.inf
             iguess = np.array([0.1, r200/5])
-            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(1e-7, np.inf), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
+            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(rho_s_lbound, rho_s_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
             best_fit = res.x
         best_fit[0] *= np.average(median)
         if median.shape[0] == 0: # Nothing to fit
-- 
2.43.0


From 033b64f941345dd5261a09e1c78ad222dd6b6f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 21/43] fix: fixed r_s and rho_s are in output units, like all
 other dimensional arguments

---
 cosmic_profiles/common/cosmic_base_class.pyx | 21 ++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index f16c014..28ec876 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -44,6 +44,24 @@ def saveShapeCat(CAT_DEST, kind, suffix, SNAP, d, q, s, minor, inter, major, obj
     np.savetxt(d_file + '.tmp', d, fmt='%1.7e')
     os.replace(d_file + '.tmp', d_file)
 
+def scaleFixedPars(method, dens_fac, length_fac):
+    """ Rescale those parameters that are kept fixed during density profile fitting
+    
+    :param method: describes density profile model assumed for fitting
+    :type method: dictionary
+    :param dens_fac: conversion factor for densities
+    :type dens_fac: float
+    :param length_fac: conversion factor for lengths
+    :type length_fac: float
+    :return: copy of ``method`` with rescaled ``rho_s`` and ``r_s``, if present
+    :rtype: dictionary"""
+    method = dict(method)
+    if 'rho_s' in method:
+        method['rho_s'] = method['rho_s']*dens_fac
+    if 'r_s' in method:
+        method['r_s'] = method['r_s']*length_fac
+    return method
+
 @cython.embedsignature(True)
 cdef class CosmicBase:
     """ Parent class governing high-level cosmic shape calculations
@@ -1003,6 +1021,7 @@ cdef class CosmicBase:
         l_curr_over_target = config.OutUnitLength_in_cm/l_internal
         m_curr_over_target = config.OutUnitMass_in_g/m_target
         dens_profs = dens_profs.base*m_curr_over_target*l_curr_over_target**(-3) # So that dens_profs is in M_sun*h^2/(Mpc)**3
+        method = scaleFixedPars(method, m_curr_over_target*l_curr_over_target**(-3), l_curr_over_target)
         if rank == 0:
             idx_cat_len = len(obj_size)
             isValidSelection(obj_numbers, idx_cat_len)
@@ -1049,6 +1068,7 @@ cdef class CosmicBase:
         l_curr_over_target = config.OutUnitLength_in_cm/l_internal
         m_curr_over_target = config.OutUnitMass_in_g/m_target
         dens_profs = dens_profs.base*m_curr_over_target*l_curr_over_target**(-3) # So that dens_profs is in M_sun*h^2/(Mpc)**3
+        method = scaleFixedPars(method, m_curr_over_target*l_curr_over_target**(-3), l_curr_over_target)
         if rank == 0:
             idx_cat_len = len(obj_size)
             isValidSelection(obj_numbers, idx_cat_len)
@@ -1094,6 +1114,7 @@ cdef class CosmicBase:
         m_curr_over_target = config.OutUnitMass_in_g/m_target
         dens_profs_ = dens_profs.base*m_curr_over_target*l_curr_over_target**(-3) # So that dens_profs is in M_sun*h^2/(Mpc)**3
         dens_profs_fit_ = dens_profs_fit.base*m_curr_over_target*l_curr_over_target**(-3) # So that dens_profs_fit is in M_sun*h^2/(Mpc)**3
+        method = scaleFixedPars(method, m_curr_over_target*l_curr_over_target**(-3), l_curr_over_target)
         obj_centers, obj_masses = self._getMassesCenters(obj_numbers) # In units of Mpc/h (internal length units) and 10^10*M_sun*h^2/(Mpc)**3
         
         if rank == 0:
-- 
2.43.0


From 12eb9f25d95cbdbddbb96d45e5dc738ebfffd550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 22/43] fix: caching lost the data type of empty arrays, e.g.
 FoF catalogues without subhalos

---
 cosmic_profiles/common/caching.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cosmic_profiles/common/caching.py b/cosmic_profiles/common/caching.py
index 4781ba1..7dc1343 100644
--- a/cosmic_profiles/common/caching.py
+++ b/cosmic_profiles/common/caching.py
@@ -275,7 +275,8 @@ def np_cache_factory(nb_arrs, nb_lists):
             for arg in args_cached:
                 args_l.append(arg)
             for arr_nb in range(nb_arrs):
-                args_l[arr_nb] = np.array(args_l[arr_nb]).reshape(dims[arr_nb])
+                shape, dtype = dims[arr_nb] # The data type could not be inferred from an empty tuple
+                args_l[arr_nb] = np.array(args_l[arr_nb], dtype = dtype).reshape(shape)
             for list_nb in np.arange(nb_arrs, nb_arrs + nb_lists):
                 args_l[list_nb] = [list(args_l[list_nb][run]) for run in range(len(args_l[list_nb]))]
             return function(*args_l)
@@ -287,7 +288,7 @@ def np_cache_factory(nb_arrs, nb_lists):
             for arg in args:
                 args_l.append(arg)
             for arr_nb in range(nb_arrs):
-                dims.append(args_l[arr_nb].shape)
+                dims.append((args_l[arr_nb].shape, args_l[arr_nb].dtype))
                 args_l[arr_nb] = tuple(args_l[arr_nb].flatten())
             for list_nb in np.arange(nb_arrs, nb_arrs + nb_lists):
                 args_l[list_nb] = tuple([tuple(args_l[list_nb][run]) for run in range(len(args_l[list_nb]))])
-- 
2.43.0


From e7f420eb8ad2682e5978986303639b3ab6178acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 23/43] fix: density profile plots left out the objects on the
 edges of each mass bin

---
 cosmic_profiles/dens_profs/dens_profs_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index 7aad466..cf0a6b0 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -131,9 +131,9 @@ def drawDensProfs(VIZ_DEST, SNAP, r200s, dens_profs_fit, ROverR200_fit, dens_pro
         
         # Mass splitting
         max_min_m, obj_m_groups, obj_center_groups, idx_groups = M_split(MASS_UNIT*obj_masses, obj_centers, start_time, NB_BINS = nb_bins)
-        del obj_centers; del obj_center_groups; del idx_groups
+        del obj_centers; del obj_center_groups
         print_status(rank, start_time, "The number of objects considered is {0}".format(r200s.shape[0]))
-        print_status(rank, start_time, "The mass bins (except maybe last) have size {0}".format(np.sum(np.int32([1 if (obj_masses[i]*MASS_UNIT > max_min_m[0] and obj_masses[i]*MASS_UNIT < max_min_m[1]) else 0 for i in range(r200s.shape[0])]))))
+        print_status(rank, start_time, "The mass bins (except maybe last) have size {0}".format(len(obj_m_groups[0])))
         print_status(rank, start_time, "The number of mass bins is {0}".format(len(obj_m_groups)))
         prof_models = {'einasto': getEinastoProf, 'alpha_beta_gamma': getAlphaBetaGammaProf, 'nfw': getNFWProf, 'hernquist': getHernquistProf}
         model_name = {'einasto': 'Einasto', 'alpha_beta_gamma': r'\alpha \beta \gamma', 'nfw': 'NFW', 'hernquist': 'Hernquist'}
@@ -186,7 +186,7 @@ def drawDensProfs(VIZ_DEST, SNAP, r200s, dens_profs_fit, ROverR200_fit, dens_pro
         plt.savefig("{}/RhoProf_{}.pdf".format(VIZ_DEST, SNAP), bbox_inches="tight")
         
         for group in range(len(obj_m_groups)):
-            obj_pass_m = np.int32([1 if (obj_masses[i]*MASS_UNIT > max_min_m[group] and obj_masses[i]*MASS_UNIT < max_min_m[group+1]) else 0 for i in range(r200s.shape[0])])
+            obj_pass_m = np.int32([1 if i in idx_groups[group] else 0 for i in range(r200s.shape[0])])
             # Find profile median
             y = [list(dens_profs[np.nonzero(obj_pass_m > 0)[0],i]) for i in range(ROverR200.shape[0])]
             prof_median = np.array([np.median(z) if z != [] else np.nan for z in y])
-- 
2.43.0


From b230afb115c3a3c89e76e629c68e807a09b4c29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:19 +0000
Subject: [PATCH 24/43] fix: mode of an object with five or more coincident
 particles recursed without end

---
 cosmic_profiles/common/python_routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index 84a5c98..449efcd 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -299,7 +299,7 @@ def calcMode(xyz, masses, rad):
     distances_all = np.linalg.norm(xyz-com,axis=1)
     xyz_constrain = xyz[distances_all < rad]
     masses_constrain = masses[distances_all < rad]
-    if xyz_constrain.shape[0] < 5: # If only < 5 particles left, return
+    if xyz_constrain.shape[0] < 5 or not np.any(distances_all[distances_all < rad]): # If only < 5 particles left, or all of them coincide with com, return
         return com
     else:
         rad *= 0.83 # Reduce radius by 17 %
-- 
2.43.0


From b22c2aa3ef112806ac165342f3179a81bc19dd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:57 +0000
Subject: [PATCH 25/43] fix: snapshot objects re-read their data in whatever
 input units are current, not those they were loaded in

---
 .../shape_profs/shape_profs_classes.pyx       | 68 +------------------
 1 file changed, 2 insertions(+), 66 deletions(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index 7e0ed1a..5d8d910 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -728,34 +728,15 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
             self._dumpShapeVelCatGlobalBase(xyz, velxyz, masses, self.r200.base[obj_numbers], subset_idx_cat, obj_size[obj_numbers], IT_TOL, IT_WALL, IT_MIN, suffix, REDUCED)
             del xyz; del masses; del idx_cat; del obj_size; del velxyz
     
-    def getXYZMasses(self): # Public Method
-        """ Retrieve positions and masses of particles
-        
-        :return xyz, masses: positions in config.OutUnitLength_in_cm and masses 
-            in config.OutUnitMass_in_g
-        :rtype: (N2,3) floats, (N2,) floats"""
-        xyz = readgadget.read_block(self.SNAP_DEST,"POS ",ptype=[getPartType(self.OBJ_TYPE)])
-        masses = readgadget.read_block(self.SNAP_DEST,"MASS",ptype=[getPartType(self.OBJ_TYPE)])
-        if rank == 0:
-            l_internal, m_internal, vel_internal = config.getLMVInternal()
-            l_curr_over_target = l_internal/config.OutUnitLength_in_cm
-            m_curr_over_target = m_internal/config.OutUnitMass_in_g
-            return xyz*l_curr_over_target, masses*m_curr_over_target
-        else:
-            del xyz; del masses
-            return None, None
-        
     def _getXYZMasses(self):
         """ Retrieve positions and masses of particles
         
         :return xyz, masses: positions in Mpc/h (internal length units) and masses in 10^10*M_sun*h^2/(Mpc)**3
         :rtype: (N2,3) floats, (N2,) floats"""
-        xyz = readgadget.read_block(self.SNAP_DEST,"POS ",ptype=[getPartType(self.OBJ_TYPE)])
-        masses = readgadget.read_block(self.SNAP_DEST,"MASS",ptype=[getPartType(self.OBJ_TYPE)])
+        # As loaded by the constructor: the input units may have changed since
         if rank == 0:
-            return xyz, masses
+            return self.xyz.base, self.masses.base
         else:
-            del xyz; del masses
             return None, None
     
     def getVelXYZ(self): # Public Method
@@ -784,51 +765,6 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
             del velxyz
             return None
     
-    def getR200(self): # Public Method
-        """ Fetch R200 values
-        
-        :return obj_r200: R200 value of parent halos in config.OutUnitLength_in_cm
-        :rtype: (N1,) floats"""
-        
-        # Import hdf5 data
-        nb_shs, sh_len, fof_sizes, group_r200 = getFoFSHData(self.GROUP_DEST, self.RVIR_OR_R200, getPartType(self.OBJ_TYPE))
-        # Raise Error message if empty
-        if len(nb_shs) == 0:
-            raise ValueError("No subhalos found in HDF5 files.")
-        if rank == 0:
-            # Construct catalogue
-            obj_cat, obj_r200, obj_size = calcObjCat(nb_shs, sh_len, fof_sizes, group_r200, self.MIN_NUMBER_PTCS)
-            del nb_shs; del sh_len; del fof_sizes; del group_r200; del obj_cat; del obj_size
-            self.r200 = obj_r200
-            l_internal, m_internal, vel_internal = config.getLMVInternal()
-            l_curr_over_target = l_internal/config.OutUnitLength_in_cm
-            return obj_r200*l_curr_over_target
-        else:
-            del nb_shs; del sh_len; del fof_sizes; del group_r200
-            return None
-        
-    def getIdxCat(self): # Public Method
-        """ Fetch catalogue
-        
-        :return idx_cat: contains indices of particles belonging to an object,
-            obj_size: number of particles in each object
-        :rtype: (N3) integers and (N1,) integers"""
-        
-        # Import hdf5 data
-        nb_shs, sh_len, fof_sizes, group_r200 = getFoFSHData(self.GROUP_DEST, self.RVIR_OR_R200, getPartType(self.OBJ_TYPE))
-        # Raise Error message if empty
-        if len(nb_shs) == 0:
-            raise ValueError("No subhalos found in HDF5 files.")
-        if rank == 0:
-            # Construct catalogue
-            obj_cat, obj_r200, obj_size = calcObjCat(nb_shs, sh_len, fof_sizes, group_r200, self.MIN_NUMBER_PTCS)
-            self.r200 = obj_r200
-            del nb_shs; del sh_len; del fof_sizes; del group_r200
-            return obj_cat, obj_size
-        else:
-            del nb_shs; del sh_len; del fof_sizes; del group_r200
-            return None, None
-        
     def getObjInfoGadget(self): # Public Method
         """ Print basic info about the objects"""
         print_status(rank,self.start_time,'Starting getObjInfoLocal() with snap {0}'.format(self.SNAP))
-- 
2.43.0


From abafd024a731a75f42ea055829422722e6bfdc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 26/43] fix: particle IDs were passed through floating point,
 which rounds 64-bit IDs

---
 cosmic_profiles/gadget/readgadget.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cosmic_profiles/gadget/readgadget.py b/cosmic_profiles/gadget/readgadget.py
index f596a96..a7707b3 100644
--- a/cosmic_profiles/gadget/readgadget.py
+++ b/cosmic_profiles/gadget/readgadget.py
@@ -100,21 +100,21 @@ def read_field(snapshot, block, ptype):
         raise Exception('block not implemented in readgadget!')
 
     if fformat=="binary":
-        array = readsnap.read_block(filename, block, parttype=ptype)/unit_fac
-        return array
+        array = readsnap.read_block(filename, block, parttype=ptype)
+        return array if block=="ID  " else array/unit_fac # IDs stay integers, floats are exact up to 2**53 only
     else:
         prefix = 'PartType%d/'%ptype
         f = h5py.File(filename, 'r')
         
         if '%s%s'%(prefix,suffix) not in f:
             if Npart[ptype] == 0: # Particle type not in this subfile
-                array = np.empty((0,3) if block in ("POS ","VEL ") else (0,), np.float64)
+                array = np.empty((0,3) if block in ("POS ","VEL ") else (0,), np.uint64 if block=="ID  " else np.float64)
             elif block == "MASS" and Masses[ptype] != 0.0:
                 array = np.ones(Npart[ptype], np.float64)*Masses[ptype]/unit_fac
             else:
                 raise Exception('Problem reading the block %s'%block)
         else:
-            array = f[prefix+suffix][:]/unit_fac
+            array = f[prefix+suffix][:] if block=="ID  " else f[prefix+suffix][:]/unit_fac
         f.close()
 
         if block=="VEL ":  array *= np.sqrt(head.time) # To make sure we move from UnitVelocity a**0.5 to UnitVelocity
@@ -152,7 +152,7 @@ def read_block(snapshot, block, ptype, verbose=False):
         dtype=np.float64
     elif block=="ID  ":  
         unit_fac = 1
-        dtype=read_field(filename, block, ptype[0]).dtype
+        dtype=np.uint64
     elif block=="VEL ":  
         unit_fac = v_target_over_curr
         dtype=np.dtype((np.float64,3))
@@ -168,7 +168,8 @@ def read_block(snapshot, block, ptype, verbose=False):
 
         # Format I or format II Gadget files
         if fformat=="binary":
-            array[offset:offset+Nall[pt]] = readsnap.read_block(snapshot, block, pt, verbose=verbose)/unit_fac
+            field = readsnap.read_block(snapshot, block, pt, verbose=verbose)
+            array[offset:offset+Nall[pt]] = field if block=="ID  " else field/unit_fac
             offset += Nall[pt]
 
         # Single files (either binary or hdf5)
-- 
2.43.0


From 4f8d9f08cfbeae9de86bfecb5db92b978a126a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 27/43] fix: interpolation of principal axes depended on the
 arbitrary signs of the eigenvectors

---
 .../dens_profs/dens_profs_algos.pyx           | 37 ++++++++++++++-----
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_algos.pyx b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
index 2b8b9ae..a05da89 100644
--- a/cosmic_profiles/dens_profs/dens_profs_algos.pyx
+++ b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
@@ -11,6 +11,22 @@ from cosmic_profiles.common.python_routines import respectPBCNoRef, calcMode, ca
 from cython.parallel import prange
 from cosmic_profiles.common.caching import np_cache_factory
 
+def alignAxes(axes):
+    """ Flip axes such that each one points along its predecessor
+    
+    The sign of an eigenvector is arbitrary, but matters when interpolating between eigenvectors.
+    
+    :param axes: axis at each radius, NaN where not converged
+    :type axes: (N,3) floats
+    :return: axis at each radius, up to signs
+    :rtype: (N,3) floats"""
+    aligned = np.array(axes)
+    conv = np.nonzero(~np.isnan(aligned[:,0]))[0]
+    for prev, curr in zip(conv[:-1], conv[1:]):
+        if np.dot(aligned[prev], aligned[curr]) < 0.0:
+            aligned[curr] *= -1.0
+    return aligned
+
 @cython.embedsignature(True)
 def calcMassesCenters(double[:,:] xyz, double[:] masses, int[:] idx_cat, int[:] obj_size, double L_BOX, str CENTER):
     """ Calculate total mass and centers of objects
@@ -171,15 +187,18 @@ def calcDensProfsEllDirectBinning(double[:,:] xyz, double[:] masses, double[:] r
         a_inter = interp1d(r_vec, a.base[p], bounds_error=False, fill_value='extrapolate')
         b_inter = interp1d(r_vec, b.base[p], bounds_error=False, fill_value='extrapolate')
         c_inter = interp1d(r_vec, c.base[p], bounds_error=False, fill_value='extrapolate')
-        majorx_inter = interp1d(r_vec, major.base[p,:,0], bounds_error=False, fill_value='extrapolate')
-        majory_inter = interp1d(r_vec, major.base[p,:,1], bounds_error=False, fill_value='extrapolate')
-        majorz_inter = interp1d(r_vec, major.base[p,:,2], bounds_error=False, fill_value='extrapolate')
-        interx_inter = interp1d(r_vec, inter.base[p,:,0], bounds_error=False, fill_value='extrapolate')
-        intery_inter = interp1d(r_vec, inter.base[p,:,1], bounds_error=False, fill_value='extrapolate')
-        interz_inter = interp1d(r_vec, inter.base[p,:,2], bounds_error=False, fill_value='extrapolate')
-        minorx_inter = interp1d(r_vec, minor.base[p,:,0], bounds_error=False, fill_value='extrapolate')
-        minory_inter = interp1d(r_vec, minor.base[p,:,1], bounds_error=False, fill_value='extrapolate')
-        minorz_inter = interp1d(r_vec, minor.base[p,:,2], bounds_error=False, fill_value='extrapolate')
+        major_p = alignAxes(major.base[p])
+        inter_p = alignAxes(inter.base[p])
+        minor_p = alignAxes(minor.base[p])
+        majorx_inter = interp1d(r_vec, major_p[:,0], bounds_error=False, fill_value='extrapolate')
+        majory_inter = interp1d(r_vec, major_p[:,1], bounds_error=False, fill_value='extrapolate')
+        majorz_inter = interp1d(r_vec, major_p[:,2], bounds_error=False, fill_value='extrapolate')
+        interx_inter = interp1d(r_vec, inter_p[:,0], bounds_error=False, fill_value='extrapolate')
+        intery_inter = interp1d(r_vec, inter_p[:,1], bounds_error=False, fill_value='extrapolate')
+        interz_inter = interp1d(r_vec, inter_p[:,2], bounds_error=False, fill_value='extrapolate')
+        minorx_inter = interp1d(r_vec, minor_p[:,0], bounds_error=False, fill_value='extrapolate')
+        minory_inter = interp1d(r_vec, minor_p[:,1], bounds_error=False, fill_value='extrapolate')
+        minorz_inter = interp1d(r_vec, minor_p[:,2], bounds_error=False, fill_value='extrapolate')
         a_interpol.base[p] = a_inter(bin_edges.base*r200s[p])
         b_interpol.base[p] = b_inter(bin_edges.base*r200s[p])
         c_interpol.base[p] = c_inter(bin_edges.base*r200s[p])
-- 
2.43.0


From 4c1e1754e9ca607c4c9464fde20e09eda35ca65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:18 +0000
Subject: [PATCH 28/43] fix: object selections given as lists were truncated to
 integers before they were checked

---
 cosmic_profiles/common/cosmic_base_class.pyx  | 10 +++----
 .../dens_profs/dens_profs_classes.pyx         |  4 +--
 .../shape_profs/shape_profs_classes.pyx       | 30 +++++++++----------
 3 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index 28ec876..79e52e4 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -927,7 +927,7 @@ cdef class CosmicBase:
         :rtype: (N2, r_res) floats"""
         print_status(rank,self.start_time,'Starting {} estDensProfs() with snap {}'.format('direct binning' if direct_binning == True else 'kernel based', self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.asarray(obj_numbers)
         if rank == 0:
             idx_cat_len = len(obj_size)
             isValidSelection(obj_numbers, idx_cat_len)
@@ -971,7 +971,7 @@ cdef class CosmicBase:
         :rtype: (N2, r_res) floats"""
         print_status(rank,self.start_time,'Starting {} estDensProfs() with snap {}'.format('direct binning' if direct_binning == True else 'kernel based', self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.asarray(obj_numbers)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
             isValidSelection(obj_numbers, nb_objects)
@@ -1015,7 +1015,7 @@ cdef class CosmicBase:
         if len(dens_profs) != len(obj_numbers):
             raise ValueError("The `obj_numbers` argument is inconsistent with the `dens_profs` handed over to the `fitDensProfs()` function. Please double-check and use the same `obj_numbers` as used for the density profile estimation!")
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.asarray(obj_numbers)
         l_internal, m_internal, vel_internal = config.getLMVInternal()
         m_target = m_internal/self.MASS_UNIT
         l_curr_over_target = config.OutUnitLength_in_cm/l_internal
@@ -1062,7 +1062,7 @@ cdef class CosmicBase:
         if len(dens_profs) != len(obj_numbers):
             raise ValueError("The `obj_numbers` argument is inconsistent with the `dens_profs` handed over to the `estConcentrations()` function. Please double-check and use the same `obj_numbers` as used for the density profile estimation!")
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.asarray(obj_numbers)
         l_internal, m_internal, vel_internal = config.getLMVInternal()
         m_target = m_internal/self.MASS_UNIT
         l_curr_over_target = config.OutUnitLength_in_cm/l_internal
@@ -1107,7 +1107,7 @@ cdef class CosmicBase:
         if len(dens_profs) != len(obj_numbers):
             raise ValueError("The `obj_numbers` argument is inconsistent with the `dens_profs` handed over to the `plotDensProfs()` function. Please double-check and use the same `obj_numbers` as used for the density profile estimation!")
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.asarray(obj_numbers)
         l_internal, m_internal, vel_internal = config.getLMVInternal()
         m_target = m_internal/self.MASS_UNIT
         l_curr_over_target = config.OutUnitLength_in_cm/l_internal
diff --git a/cosmic_profiles/dens_profs/dens_profs_classes.pyx b/cosmic_profiles/dens_profs/dens_profs_classes.pyx
index 8f78968..8825201 100644
--- a/cosmic_profiles/dens_profs/dens_profs_classes.pyx
+++ b/cosmic_profiles/dens_profs/dens_profs_classes.pyx
@@ -103,7 +103,7 @@ cdef class DensProfsBase(CosmicBase):
         :return centers, m: centers in config.OutUnitLength_in_cm and masses in config.OutUnitMass_in_g
         :rtype: structured array, containing (N,3) and (N,) floats"""
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.asarray(obj_numbers)
         if rank == 0:
             idx_cat_len = len(self.obj_size.base)
             isValidSelection(obj_numbers, idx_cat_len)
@@ -128,7 +128,7 @@ cdef class DensProfsBase(CosmicBase):
         :return centers, m: centers in Mpc/h (internal length units) and masses in 10^10*M_sun*h^2/(Mpc)**3
         :rtype: (N,3) and (N,) floats"""
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.asarray(obj_numbers)
         if rank == 0:
             idx_cat_len = len(self.obj_size.base)
             isValidSelection(obj_numbers, idx_cat_len)
diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index 5d8d910..8d4e694 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -86,7 +86,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         print_status(rank,self.start_time,'Starting getShapeCatLocal() with snap {0}'.format(self.SNAP))
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.asarray(obj_numbers)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
             isValidSelection(obj_numbers, nb_objects)
@@ -121,7 +121,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
             3 x (number_of_objs, 3) double arrays"""
         print_status(rank,self.start_time,'Starting getShapeCatGlobal() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.asarray(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -153,7 +153,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting vizLocalShapes() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.asarray(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         D_BINS = ROverR200.shape[0]-1
         if rank == 0:
@@ -249,7 +249,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting vizGlobalShapes() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.asarray(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -325,7 +325,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type obj_numbers: list of int"""
         print_status(rank,self.start_time,'Starting plotGlobalEpsHist() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.asarray(obj_numbers)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
             isValidSelection(obj_numbers, nb_objects)
@@ -343,7 +343,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type obj_numbers: list of int"""
         print_status(rank,self.start_time,'Starting plotLocalEpsHist() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.asarray(obj_numbers)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
             isValidSelection(obj_numbers, nb_objects)
@@ -363,7 +363,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting plotLocalTHist() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.asarray(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -384,7 +384,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting plotGlobalTHist() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.asarray(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -403,7 +403,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting plotShapeProfs() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.asarray(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -420,7 +420,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting dumpShapeCatLocal() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.asarray(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -437,7 +437,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting dumpShapeCatGlobal() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.asarray(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -608,7 +608,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         velxyz = self._getVelXYZ()
         idx_cat, obj_size = self.getIdxCat()
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.asarray(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(obj_size)
@@ -650,7 +650,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         velxyz = self._getVelXYZ()
         idx_cat, obj_size = self.getIdxCat()
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.asarray(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(obj_size)
@@ -685,7 +685,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting dumpShapeVelCatLocal() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.asarray(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         xyz, masses = self._getXYZMasses()
         idx_cat, obj_size = self.getIdxCat()
@@ -711,7 +711,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting dumpShapeVelCatGlobal() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.asarray(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         xyz, masses = self._getXYZMasses()
         idx_cat, obj_size = self.getIdxCat()
-- 
2.43.0


From 51a7d58feb225ec2863d9069084027a1c4cecd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:31 +0000
Subject: [PATCH 29/43] fix: kernel densities of all objects failed if one
 particle sat exactly at its object's centre

---
 cosmic_profiles/dens_profs/dens_profs_algos.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_algos.pyx b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
index a05da89..5e656fe 100644
--- a/cosmic_profiles/dens_profs/dens_profs_algos.pyx
+++ b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
@@ -293,7 +293,8 @@ def calcDensProfsKernelBased(double[:,:] xyz, double[:] masses, double[:] r200s,
         hs = 0.005*r200s[p]*(dists.base/(0.1*r200s[p]))**(0.5)
         for r_idx in prange(r_res, schedule = 'dynamic', nogil = True):
             for n in range(obj_size[p]):
-                dens_profs[p][r_idx] += m_obj[n]*CythonHelpers.calcKTilde(r_over_r200[r_idx]*r200s[p], dists[n], hs[n])/(hs[n]**3)
+                if hs[n] != 0.0: # Otherwise the particle sits at the center, and its kernel has zero width
+                    dens_profs[p][r_idx] += m_obj[n]*CythonHelpers.calcKTilde(r_over_r200[r_idx]*r200s[p], dists[n], hs[n])/(hs[n]**3)
     del obj_size; del idx_cat; del shell; del xyz_obj; del m_obj; del centers
     del dists; del hs
     return dens_profs.base
\ No newline at end of file
-- 
2.43.0


From 6d41fc7096de40ac48aa949545af10e8181129ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:05 +0000
Subject: [PATCH 30/43] fix: shapes of all objects failed if one was flat, or
 had a particle exactly at its centre

---
 cosmic_profiles/cython_helpers/helper_class.pyx   |  2 +-
 cosmic_profiles/shape_profs/shape_profs_algos.pyx | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/cosmic_profiles/cython_helpers/helper_class.pyx b/cosmic_profiles/cython_helpers/helper_class.pyx
index cb5b2e7..f65a5f4 100644
--- a/cosmic_profiles/cython_helpers/helper_class.pyx
+++ b/cosmic_profiles/cython_helpers/helper_class.pyx
@@ -50,7 +50,7 @@ cdef class CythonHelpers:
                     for run in range(nb_pts):
                         if reduced == False:
                             shape_tensor[i,j] = shape_tensor[i,j] + <complex>(masses[select[run]]*(nns[select[run],i]-center[i])*(nns[select[run],j]-center[j])/mass_tot)
-                        else:
+                        elif r_ell[select[run]] != 0.0: # A particle at the very center has no direction
                             shape_tensor[i,j] = shape_tensor[i,j] + <complex>(masses[select[run]]*(nns[select[run],i]-center[i])*(nns[select[run],j]-center[j])/(mass_tot*r_ell[select[run]]**2))
                     if i > j:
                         shape_tensor[j,i] = shape_tensor[i,j]
diff --git a/cosmic_profiles/shape_profs/shape_profs_algos.pyx b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
index 595a9ad..3936a07 100644
--- a/cosmic_profiles/shape_profs/shape_profs_algos.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
@@ -98,6 +98,9 @@ cdef double[:] runShellAlgo(double[:] morph_info, double[:,:] xyz, double[:,:] x
         eigvec[:,:] = 0.0
         eigval[:] = 0.0
         CythonHelpers.ZHEEVR(shape_tensor[:,:], &eigval[0], eigvec, 3)
+        if eigval[0] <= 0.0: # Flat or point-like particle set, axis ratios are not defined
+            morph_info[:] = 0.0
+            return morph_info
         q_old = q_new; s_old = s_new
         q_new = sqrt(eigval[1]/eigval[2])
         s_new = sqrt(eigval[0]/eigval[2]) # It is assumed that eigenvalues are approximately proportional to a^2 etc. (true for uniform ellipsoid or uniform shell), though I have never seen any proof..
@@ -223,6 +226,9 @@ cdef double[:] runEllAlgo(double[:] morph_info, double[:,:] xyz, double[:,:] xyz
         eigvec[:,:] = 0.0
         eigval[:] = 0.0
         CythonHelpers.ZHEEVR(shape_tensor[:,:], &eigval[0], eigvec, 3)
+        if eigval[0] <= 0.0: # Flat or point-like particle set, axis ratios are not defined
+            morph_info[:] = 0.0
+            return morph_info
         q_old = q_new; s_old = s_new
         q_new = sqrt(eigval[1]/eigval[2])
         s_new = sqrt(eigval[0]/eigval[2]) # It is assumed that eigenvalues are approximately proportional to a^2 etc. (true for uniform ellipsoid or uniform shell), though I have never seen any proof..
@@ -344,6 +350,9 @@ cdef double[:] runEllVDispAlgo(double[:] morph_info, double[:,:] xyz, double[:,:
         eigvec[:,:] = 0.0
         eigval[:] = 0.0
         CythonHelpers.ZHEEVR(shape_tensor[:,:], &eigval[0], eigvec, 3)
+        if eigval[0] <= 0.0: # Flat or point-like particle set, axis ratios are not defined
+            morph_info[:] = 0.0
+            return morph_info
         q_old = q_new; s_old = s_new
         q_new = sqrt(eigval[1]/eigval[2])
         s_new = sqrt(eigval[0]/eigval[2]) # It is assumed that eigenvalues are approximately proportional to a^2 etc. (true for uniform ellipsoid or uniform shell), though I have never seen any proof..
@@ -467,6 +476,9 @@ cdef double[:] runShellVDispAlgo(double[:] morph_info, double[:,:] xyz, double[:
         eigvec[:,:] = 0.0
         eigval[:] = 0.0
         CythonHelpers.ZHEEVR(shape_tensor[:,:], &eigval[0], eigvec, 3)
+        if eigval[0] <= 0.0: # Flat or point-like particle set, axis ratios are not defined
+            morph_info[:] = 0.0
+            return morph_info
         q_old = q_new; s_old = s_new
         q_new = sqrt(eigval[1]/eigval[2])
         s_new = sqrt(eigval[0]/eigval[2]) # It is assumed that eigenvalues are approximately proportional to a^2 etc. (true for uniform ellipsoid or uniform shell), though I have never seen any proof..
-- 
2.43.0


From 55786764ff629b78ae4d3b1e5ab6704e6edec983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:20 +0000
Subject: [PATCH 31/43] fix: ellipsoidal densities of a Gadget object read the
 shapes another front end dumped

---
 cosmic_profiles/common/cosmic_base_class.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index 79e52e4..084ded7 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -933,7 +933,7 @@ cdef class CosmicBase:
             isValidSelection(obj_numbers, idx_cat_len)
             subset_idx_cat = getSubSetIdxCat(idx_cat, obj_size, obj_numbers)
             if direct_binning:
-                suffix = '_'
+                suffix = self.SUFFIX
                 if spherical == False:
                     d, q, s, minor, inter, major, obj_centers, obj_masses = self._getShapeCatLocalBase(xyz.base, masses.base, r200.base[obj_numbers], subset_idx_cat, obj_size.base[obj_numbers], r_over_r200_shape.base, IT_TOL, IT_WALL, IT_MIN, reduced, shell_based, suffix)
                     dens_profs = self._getDensProfsEllDirectBinningBase(xyz.base, masses.base, r200.base[obj_numbers], subset_idx_cat, obj_size.base[obj_numbers], r_over_r200.base, d, d*q, d*s, major, inter, minor)
-- 
2.43.0


From a421be48adc22df11ce4e090a8e78271c245e632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:07 +0000
Subject: [PATCH 32/43] fix: density profile fits with fixed parameters did not
 keep them with trust-constr and failed with Powell

---
 .../dens_profs/dens_profs_tools.py            | 40 ++++++++++++++++---
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index cf0a6b0..f5358d9 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -229,6 +229,37 @@ def toMinimize(model_pars_arr, median, rbin_centers, profile):
     psi_2 = np.sum(np.array([(np.log(median[i])-np.log(prof_models[profile](rbin, getModelParsDict(model_pars_arr, profile))))**2/rbin_centers.shape[0] for i, rbin in enumerate(rbin_centers)]))
     return psi_2
 
+def minimizeFreePars(fun, iguess, method, args, bounds):
+    """ Minimize ``fun`` over those parameters that are free, i.e. whose bounds do not coincide
+    
+    Not all minimizers can cope with coinciding bounds: they stop early 
+    or return a value different from the only one allowed
+    
+    :param fun: function to be minimized
+    :type fun: callable
+    :param iguess: initial guess for all parameters
+    :type iguess: float array
+    :param method: minimization method
+    :type method: string
+    :param args: extra arguments to be passed to ``fun``
+    :type args: tuple
+    :param bounds: lower and upper bound for each parameter
+    :type bounds: list of tuples
+    :return: best-fit values for all parameters, incl. fixed ones
+    :rtype: float array"""
+    lbounds, rbounds = np.array(bounds).T
+    x = np.clip(iguess, lbounds, rbounds)
+    free = lbounds < rbounds
+    
+    def funFree(x_free, *args):
+        x_all = x.copy()
+        x_all[free] = x_free
+        return fun(x_all, *args)
+    
+    if np.any(free):
+        x[free] = optimize.minimize(funFree, x[free], method = method, args = args, bounds = [bounds[i] for i in np.nonzero(free)[0]]).x
+    return x
+
 def fitDensProf(ROverR200, method, median_r200_obj_nb):
     """
     Fit density profile according to model provided
@@ -283,8 +314,7 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
                 r_s_lbound = 1e-5
                 r_s_rbound = np.inf
             iguess = np.array([0.1, 0.18, r200/5]) # Note: alpha = 0.18 gives ~ NFW
-            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(rho_s_lbound, rho_s_rbound), (alpha_lbound, alpha_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
-            best_fit = res.x
+            best_fit = minimizeFreePars(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(rho_s_lbound, rho_s_rbound), (alpha_lbound, alpha_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
         elif method['profile'] == 'alpha_beta_gamma':
             if 'alpha' in method:
                 alpha_lbound = method['alpha']
@@ -311,8 +341,7 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
                 r_s_lbound = 1e-5
                 r_s_rbound = np.inf
             iguess = np.array([0.1, 1.0, 1.0, 1.0, r200/5])
-            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(rho_s_lbound, rho_s_rbound), (alpha_lbound, alpha_rbound), (beta_lbound, beta_rbound), (gamma_lbound, gamma_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
-            best_fit = res.x
+            best_fit = minimizeFreePars(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(rho_s_lbound, rho_s_rbound), (alpha_lbound, alpha_rbound), (beta_lbound, beta_rbound), (gamma_lbound, gamma_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
         else:
             if 'r_s' in method:
                 r_s_lbound = method['r_s']
@@ -321,8 +350,7 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
                 r_s_lbound = 1e-5
                 r_s_rbound = np.inf
             iguess = np.array([0.1, r200/5])
-            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(rho_s_lbound, rho_s_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
-            best_fit = res.x
+            best_fit = minimizeFreePars(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(rho_s_lbound, rho_s_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
         best_fit[0] *= np.average(median)
         if median.shape[0] == 0: # Nothing to fit
             best_fit = iguess*np.nan
-- 
2.43.0


From 4f564e474615cbfb0b8be1b20bb75cb142bf66ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:07 +0000
Subject: [PATCH 33/43] fix: fitDensProfs() failed on all processes but the
 leading one

---
 cosmic_profiles/dens_profs/dens_profs_classes.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cosmic_profiles/dens_profs/dens_profs_classes.pyx b/cosmic_profiles/dens_profs/dens_profs_classes.pyx
index 8825201..3d66d25 100644
--- a/cosmic_profiles/dens_profs/dens_profs_classes.pyx
+++ b/cosmic_profiles/dens_profs/dens_profs_classes.pyx
@@ -174,6 +174,8 @@ cdef class DensProfsBase(CosmicBase):
         :rtype: structured array, containing (N3, n) floats, where n is the number of free parameters in the model ``method``"""
         checkDensFitMethod(method)
         best_fits = self._fitDensProfsBase(self.r200.base, self.obj_size.base, np.float64(dens_profs), np.float64(r_over_r200), method, obj_numbers)
+        if rank != 0:
+            return None
         model_pars = {'einasto': [('alpha', "f8"), ('r_s', "f8")], 'nfw': [('r_s', "f8")], 'hernquist': [('r_s', "f8")], 'alpha_beta_gamma': [('alpha', "f8"), ('beta', "f8"), ('gamma', "f8"), ('r_s', "f8")]}
         FITS_PROF_DTYPE = [("rho_s", "f8")] + [tuple_ for tuple_ in model_pars[method['profile']]]
         FITS_PROF_DTYPE+=[("is_conv", "bool")]
-- 
2.43.0


From 7a64cdfe91921f39924205c0a672bb9c8ead1020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:07 +0000
Subject: [PATCH 34/43] fix: an unknown RVIR_OR_R200 left processes without
 group files waiting forever

---
 cosmic_profiles/gadget/read_fof.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cosmic_profiles/gadget/read_fof.py b/cosmic_profiles/gadget/read_fof.py
index 68ab54f..55751c1 100644
--- a/cosmic_profiles/gadget/read_fof.py
+++ b/cosmic_profiles/gadget/read_fof.py
@@ -48,6 +48,9 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
         sh_len = np.empty(0, dtype = np.int32)
         group_r200 = np.empty(0, dtype = np.float32)
         hdf5GroupFilenamesList = glob.glob('{}/*.hdf5'.format(HDF5_GROUP_DEST))
+        # Raise Error message on every process, also on those without files to read
+        if RVIR_OR_R200 not in ['Rvir', 'R200']:
+            raise ValueError("RVIR_OR_R200 should be either 'Rvir' or 'R200'. Please modify the provided RVIR_OR_R200 variable.")
         # Raise Error message if empty
         if len(hdf5GroupFilenamesList) == 0:
             raise ValueError("Could not find any HDF5 files. Please double-check provided paths, specifically HDF5_GROUP_DEST.")
@@ -68,10 +71,8 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
                 fof_sizes = np.hstack((fof_sizes, np.int32([np.int32(g['Group/GroupLenType'][i,PART_TYPE]) for i in range(g['Group/GroupLenType'].shape[0])])))
                 if RVIR_OR_R200 == 'Rvir':
                     group_r200 = np.hstack((group_r200, np.float32(g['Group/Group_R_TopHat200'][:]*l_curr_over_target)))
-                elif RVIR_OR_R200 == 'R200':
-                    group_r200 = np.hstack((group_r200, np.float32(g['Group/Group_R_Mean200'][:]*l_curr_over_target)))
                 else:
-                    raise ValueError("RVIR_OR_R200 should be either 'Rvir' or 'R200'. Please modify the provided RVIR_OR_R200 variable.")
+                    group_r200 = np.hstack((group_r200, np.float32(g['Group/Group_R_Mean200'][:]*l_curr_over_target)))
                 nb_shs = np.hstack((nb_shs, np.int32([np.int32(g['Group/GroupNsubs'][i]) for i in range(g['Group/GroupNsubs'].shape[0])])))
                 count_fof += g['Group/GroupLenType'].shape[0]
             if 'Subhalo/SubhaloLenType' in g:
-- 
2.43.0


From c6e94c4b81c120cbe948767f81bf0dc79978bdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:07 +0000
Subject: [PATCH 35/43] fix: getObjInfoGadget() always failed when counting the
 objects with sufficient resolution

---
 cosmic_profiles/shape_profs/shape_profs_classes.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index 8d4e694..cd4da98 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -778,7 +778,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         print_status(rank, self.start_time, "The total number of objects is {0}".format(len(nb_shs)))
         print_status(rank, self.start_time, "The total number of SHs (subhalos) is {0}".format(len(sh_len)))
         print_status(rank, self.start_time, "The number of objects that have no SH is {0}".format(nb_shs[nb_shs == 0].shape[0]))
-        print_status(rank, self.start_time, "The total number of objects (central subhalos) that have sufficient resolution is {0}".format(len([x for x in self.idx_cat.base if x != []])))
+        print_status(rank, self.start_time, "The total number of objects (central subhalos) that have sufficient resolution is {0}".format(len(self.obj_size.base)))
         del nb_shs; del sh_len; del fof_sizes; del group_r200
         
     def getHeader(self): # Header
-- 
2.43.0


From 7541137cbb5028bbb7da0a3fefa879674dfd1686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:16 +0000
Subject: [PATCH 36/43] fix: drawings of objects across the box boundary showed
 particles and center a box length apart

---
 cosmic_profiles/shape_profs/shape_profs_classes.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index cd4da98..d942e3f 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -187,6 +187,9 @@ cdef class DensShapeProfsBase(DensProfsBase):
                     obj[idx] = self.xyz.base[ptc]
                     masses_obj[idx] = self.masses.base[ptc]
                 obj = config.LengthInternalToOut(respectPBCNoRef(obj, self.L_BOX))
+                if self.L_BOX != 0.0: # Follow the center, which is always inside the box
+                    L_box_out = config.LengthInternalToOut(self.L_BOX)
+                    obj += L_box_out*np.round((np.array(center)-obj[0])/L_box_out)
                 # Plotting
                 fig = pyplot.figure()
                 ax = Axes3D(fig, auto_add_to_figure = False)
@@ -282,6 +285,9 @@ cdef class DensShapeProfsBase(DensProfsBase):
                     obj[idx] = self.xyz.base[ptc]
                     masses_obj[idx] = self.masses.base[ptc]
                 obj = config.LengthInternalToOut(respectPBCNoRef(obj, self.L_BOX))
+                if self.L_BOX != 0.0: # Follow the center, which is always inside the box
+                    L_box_out = config.LengthInternalToOut(self.L_BOX)
+                    obj += L_box_out*np.round((np.array(center)-obj[0])/L_box_out)
                 # Plotting
                 fig = pyplot.figure()
                 ax = Axes3D(fig, auto_add_to_figure = False)
-- 
2.43.0


From f37970b37460d95c3f0225f6fc5f71de9b8a2e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:16 +0000
Subject: [PATCH 37/43] fix: fibonacci_sphere and fibonacci_ellipsoid divided
 by zero for the default samples=1

---
 cosmic_profiles/common/python_routines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index 449efcd..92af683 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -272,7 +272,7 @@ def fibonacci_sphere(samples=1):
     phi = math.pi * (3. - math.sqrt(5.))  # golden angle in radians
 
     for i in range(samples):
-        y = 1 - (i / float(samples - 1)) * 2  # y goes from 1 to -1
+        y = 1 - (i / float(max(samples - 1, 1))) * 2  # y goes from 1 to -1
         radius = math.sqrt(1 - y * y)  # radius at y
 
         theta = phi * i  # golden angle increment
@@ -326,7 +326,7 @@ def fibonacci_ellipsoid(a, b, c, samples=1):
     phi = math.pi * (3. - math.sqrt(5.))  # golden angle in radians
 
     for i in range(samples):
-        y = 1 - (i / float(samples - 1)) * 2  # y goes from 1 to -1
+        y = 1 - (i / float(max(samples - 1, 1))) * 2  # y goes from 1 to -1
         radius = math.sqrt(1 - y * y)  # radius at y
 
         theta = phi * i  # golden angle increment
-- 
2.43.0


From 47c9cd6df5d7938c3f3978e4cbfa99c9f8dce016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:30 +0000
Subject: [PATCH 38/43] fix: calcMode of cosmo_tools recursed forever when five
 or more particles coincide

---
 cosmic_profiles/common/cosmo_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/common/cosmo_tools.py b/cosmic_profiles/common/cosmo_tools.py
index c7e9524..364d54e 100644
--- a/cosmic_profiles/common/cosmo_tools.py
+++ b/cosmic_profiles/common/cosmo_tools.py
@@ -27,7 +27,7 @@ def calcMode(xyz, masses, rad):
     distances_all = np.linalg.norm(xyz-com,axis=1)
     xyz_constrain = xyz[distances_all < rad]
     masses_constrain = masses[distances_all < rad]
-    if xyz_constrain.shape[0] < 5: # If only < 5 particles left, return
+    if xyz_constrain.shape[0] < 5 or not np.any(distances_all[distances_all < rad]): # If only < 5 particles left, or all of them coincide with com, return
         return com
     else:
         rad *= 0.83 # Reduce radius by 17 %
-- 
2.43.0


From 344217da17c7446009db35bcfdb30a41fef058d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:39 +0000
Subject: [PATCH 39/43] fix: getMeanOrMedianAndError with bootstrap errors
 raised on an empty bin

---
 cosmic_profiles/common/cosmo_tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cosmic_profiles/common/cosmo_tools.py b/cosmic_profiles/common/cosmo_tools.py
index 364d54e..6bbe224 100644
--- a/cosmic_profiles/common/cosmo_tools.py
+++ b/cosmic_profiles/common/cosmo_tools.py
@@ -190,6 +190,9 @@ def getMeanOrMedianAndError(y, ERROR_METHOD, N_REAL=10):
         err_high = np.empty(len(y), dtype = np.float64)
         for random_state in range(N_REAL):
             for d_bin in range(len(y)):
+                if y[d_bin] == []: # No data in this bin
+                    mean_l[d_bin].append(np.nan)
+                    continue
                 boot = resample(y[d_bin], replace=True, n_samples=len(y[d_bin]), random_state=random_state)
                 mean_l[d_bin].append(np.average(boot))
         for d_bin in range(len(y)):
-- 
2.43.0


From e0c487f50255780746e46620a63b87b0f9c7571c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:22 +0000
Subject: [PATCH 40/43] fix: local triaxiality histogram dropped objects with
 any unconverged radius (argmin picked the NaN)

---
 cosmic_profiles/shape_profs/shape_profs_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_tools.py b/cosmic_profiles/shape_profs/shape_profs_tools.py
index e805c46..56f5078 100644
--- a/cosmic_profiles/shape_profs/shape_profs_tools.py
+++ b/cosmic_profiles/shape_profs/shape_profs_tools.py
@@ -270,7 +270,7 @@ def getLocalTHist(VIZ_DEST, SNAP, r_over_r200, r200, start_time, obj_masses, obj
     if rank == 0:
         idx = np.zeros((d.shape[0],), dtype = np.int32)
         for obj in range(idx.shape[0]):
-            idx[obj] = np.argmin(abs(d[obj] - r200[obj]*frac_r200))        
+            idx[obj] = np.argmin(np.nan_to_num(abs(d[obj] - r200[obj]*frac_r200), nan = np.inf)) # Radii without convergence (NaN) are not candidates
         
         t = np.zeros((d.shape[0],))
         for obj in range(d.shape[0]):
-- 
2.43.0


From 76ae2b9a2e9f01fda066c32c9ac215cdb07abf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:59 +0000
Subject: [PATCH 41/43] fix: mean velocity of objects with many particles was
 off, its total mass was summed in single precision

---
 cosmic_profiles/cython_helpers/helper_class.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/cython_helpers/helper_class.pyx b/cosmic_profiles/cython_helpers/helper_class.pyx
index f65a5f4..73ccb31 100644
--- a/cosmic_profiles/cython_helpers/helper_class.pyx
+++ b/cosmic_profiles/cython_helpers/helper_class.pyx
@@ -95,7 +95,7 @@ cdef class CythonHelpers:
         :rtype: (3,) floats"""
         com[:] = 0.0
         cdef int run
-        cdef float mass_total = 0.0
+        cdef double mass_total = 0.0
         for run in range(nns.shape[0]):
             mass_total += masses[run]
         for run in range(nns.shape[0]):
-- 
2.43.0


From 1fb0f089ef0d3c038b795f054ffbf4657c5aee8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:08 +0000
Subject: [PATCH 42/43] fix: selections given as 8-bit integers failed for
 object 255 (127 if signed)

---
 cosmic_profiles/common/python_routines.py           | 2 +-
 cosmic_profiles/shape_profs/shape_profs_classes.pyx | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index 92af683..93f003a 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -647,7 +647,7 @@ def getSubSetIdxCat(idx_cat, obj_size, obj_numbers):
     
     offsets = np.hstack((np.array([0]), np.cumsum(obj_size)))
     subset_idx_cat = np.empty((0,), np.int32)
-    for p in obj_numbers:
+    for p in np.int64(obj_numbers): # Otherwise p+1 may overflow, e.g. for np.uint8
         subset_idx_cat = np.hstack((subset_idx_cat, idx_cat[offsets[p]:offsets[p+1]]))
     return subset_idx_cat
 
diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index d942e3f..72e9979 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -173,7 +173,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
             l_label, m_label, vel_lable = config.LMVLabel()
             
             # Viz all valid objects under 'obj_numbers'
-            for idx_obj, obj_number in enumerate(obj_numbers):
+            for idx_obj, obj_number in enumerate(np.int64(obj_numbers)):
                 major_obj = major[idx_obj]
                 inter_obj = inter[idx_obj]
                 minor_obj = minor[idx_obj]
@@ -271,7 +271,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
             l_label, m_label, vel_lable = config.LMVLabel()
             
             # Viz all valid objects under 'obj_numbers'
-            for idx_obj, obj_number in enumerate(obj_numbers):
+            for idx_obj, obj_number in enumerate(np.int64(obj_numbers)):
                 major_obj = major[idx_obj]
                 inter_obj = inter[idx_obj]
                 minor_obj = minor[idx_obj]
-- 
2.43.0


From c50a0b919d222d568f3f1984d82af6c403315719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:48:43 +0000
Subject: [PATCH 43/43] fix: a halo catalogue that replaced another one in the
 same folder was not read again

---
 cosmic_profiles/gadget/read_fof.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cosmic_profiles/gadget/read_fof.py b/cosmic_profiles/gadget/read_fof.py
index 55751c1..c098ba1 100644
--- a/cosmic_profiles/gadget/read_fof.py
+++ b/cosmic_profiles/gadget/read_fof.py
@@ -5,6 +5,7 @@ import numpy as np
 import h5py
 from cosmic_profiles.common.caching import np_cache_factory
 import glob
+import os
 from mpi4py import MPI
 from cosmic_profiles.common import config
 import re
@@ -42,7 +43,7 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
         fof_sizes (size of each FoF-halo), group_r200 (R200 radius of each FoF-halo
         in units of cMpc/h)
     :rtype: double and int arrays"""
-    def inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE, l_curr_over_target):
+    def inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE, l_curr_over_target, file_stats):
         fof_sizes = np.empty(0, dtype = np.int32)
         nb_shs = np.empty(0, dtype = np.int32)
         sh_len = np.empty(0, dtype = np.int32)
@@ -135,5 +136,8 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
         getFoFSHData.inner = np_cache_factory(0,0)(inner)
     l_internal, m_internal, vel_internal = config.getLMVInternal()
     l_curr_over_target = config.InUnitLength_in_cm/l_internal # Part of the cache key, since the radii depend on it
-    getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE, l_curr_over_target)
-    return getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE, l_curr_over_target)
\ No newline at end of file
+    # Part of the cache key as well, so that files that have been replaced since are read again (the same key on all processes)
+    file_stats = [(file, os.stat(file).st_mtime_ns, os.stat(file).st_size) for file in sorted(glob.glob('{}/*.hdf5'.format(HDF5_GROUP_DEST)))]
+    file_stats = comm.bcast(tuple(file_stats), root = 0)
+    getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE, l_curr_over_target, file_stats)
+    return getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE, l_curr_over_target, file_stats)
\ No newline at end of file
-- 
2.43.0

