From 4349cd3f140b2ede3d4fce59d0eadc5b82f6caf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:01 +0000
Subject: [PATCH 01/63] fix: use each galaxy's own slope in the mode 2
 reference magnitude error term

---
 redmapper/chisq_dist/chisq_dist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/chisq_dist/chisq_dist.c b/redmapper/chisq_dist/chisq_dist.c
index f632c97..312c4e3 100644
--- a/redmapper/chisq_dist/chisq_dist.c
+++ b/redmapper/chisq_dist/chisq_dist.c
@@ -351,7 +351,7 @@ int chisq_dist(int mode, int do_chisq, int nophotoerr, int ncalc, int ncol,
 	      gsl_matrix_set_zero(cimat);
 	      for (j=0;j<ncol;j++) {
 		  for (k=j;k<ncol;k++) {
-		      val = slope[j] * slope[k] * refmagerr[i] * refmagerr[i];
+		      val = slope[i*ncol+j] * slope[i*ncol+k] * refmagerr[i] * refmagerr[i];
 		      gsl_matrix_set(cimat, j, k, val);
 		      if (k != j) {
 			  gsl_matrix_set(cimat, k, j, val);
-- 
2.43.0


From fecc02e8a4532e1118b2301a1b070a8cdf522880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:01 +0000
Subject: [PATCH 02/63] fix: reset theta_r outside the hard radius cut

---
 redmapper/solver_nfw/nfw_weights.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/solver_nfw/nfw_weights.c b/redmapper/solver_nfw/nfw_weights.c
index 5678b51..67a82fe 100644
--- a/redmapper/solver_nfw/nfw_weights.c
+++ b/redmapper/solver_nfw/nfw_weights.c
@@ -45,6 +45,7 @@ int nfw_weights(double inlambda, double r0, double beta, long ngal,
 	 theta_r[i] = 1.0; // added by Tom
       } else {
          wt[i]=0.0;
+         theta_r[i] = 0.0;
       }
     } else { // rsig > 0.0
       /*
-- 
2.43.0


From 5d74cb8661e2873dde64859b840048b861f623b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:29 +0000
Subject: [PATCH 03/63] fix: hand compute_chisq arrays to the C code in the
 memory order it reads

---
 redmapper/chisq_dist/chisq_dist_lib.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/redmapper/chisq_dist/chisq_dist_lib.py b/redmapper/chisq_dist/chisq_dist_lib.py
index 458a276..e84bbd2 100644
--- a/redmapper/chisq_dist/chisq_dist_lib.py
+++ b/redmapper/chisq_dist/chisq_dist_lib.py
@@ -83,13 +83,14 @@ def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=N
        Float array of likelihoods.  Present if calc_lkhd=True.
     """
 
-    _covmat = covmat.astype('f8')
-    _c = c.astype('f8')
-    _slope = slope.astype('f8')
+    # The C code reads flat C-ordered buffers, whatever the strides of the input.
+    _covmat = covmat.astype('f8', order='C')
+    _c = c.astype('f8', order='C')
+    _slope = slope.astype('f8', order='C')
     _pivotmag = np.atleast_1d(pivotmag.astype('f8'))
     _refmag = np.atleast_1d(refmag.astype('f8'))
-    _magerr = magerr.astype('f8')
-    _color = color.astype('f8')
+    _magerr = magerr.astype('f8', order='C')
+    _color = color.astype('f8', order='C')
 
     if (refmagerr is None):
         _refmagerr = np.zeros(refmag.size,dtype='f8')
@@ -152,7 +153,7 @@ def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=N
         if (lupcorr is None):
             _lupcorr = np.zeros((ngal, ncol),dtype='f8')
         else :
-            _lupcorr = lupcorr.astype('f8')
+            _lupcorr = lupcorr.astype('f8', order='C')
 
         if (_lupcorr.shape[0] != ngal) or (_lupcorr.shape[1] != ncol):
             raise ValueError("lupcorr must be ncol x ngal for mode 0")
@@ -178,6 +179,8 @@ def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=N
             raise ValueError("Third dimension of covmat must be nz for mode 1")
         if (covmat.shape[0] != ncol or covmat.shape[1] != ncol):
             raise ValueError("covmat must be ncol x ncol x nz for mode 1")
+        # redshift varies slowest in the C code
+        _covmat = covmat.transpose(2, 0, 1).astype('f8', order='C')
 
         if (magerr.ndim != 1):
             raise ValueError("magerr must be 1D for mode 1")
@@ -192,7 +195,7 @@ def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=N
         if (lupcorr is None):
             _lupcorr = np.zeros((nz, ncol),dtype='f8')
         else :
-            _lupcorr = lupcorr.astype('f8')
+            _lupcorr = lupcorr.astype('f8', order='C')
 
         if (_lupcorr.shape[0] != nz) or (_lupcorr.shape[1] != ncol):
             raise ValueError("lupcorr must be ncol x nz for mode 1")
@@ -213,6 +216,8 @@ def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=N
             raise ValueError("covmat must be 3 dimensions for mode 2")
         if (covmat.shape[2] != nz):
             raise ValueError("Third dimension of covmat must be nz for mode 2")
+        # redshift varies slowest in the C code
+        _covmat = covmat.transpose(2, 0, 1).astype('f8', order='C')
 
         if (magerr.ndim != 2):
             raise ValueError("magerr must be 2D for mode 2")
@@ -226,7 +231,7 @@ def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=N
         if (lupcorr is None):
             _lupcorr = np.zeros((ngal, ncol),dtype='f8')
         else :
-            _lupcorr = lupcorr.astype('f8')
+            _lupcorr = lupcorr.astype('f8', order='C')
 
         if (_lupcorr.shape[0] != ngal) or (_lupcorr.shape[1] != ncol):
             raise ValueError("lupcorr must be ngal x ncol for mode 2")
-- 
2.43.0


From df2cc356d405ee55178033e0fc4965e6962b376b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:29 +0000
Subject: [PATCH 04/63] fix: validate refmag and covmat sizes for compute_chisq
 modes 1 and 2

---
 redmapper/chisq_dist/chisq_dist_lib.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/redmapper/chisq_dist/chisq_dist_lib.py b/redmapper/chisq_dist/chisq_dist_lib.py
index e84bbd2..742e610 100644
--- a/redmapper/chisq_dist/chisq_dist_lib.py
+++ b/redmapper/chisq_dist/chisq_dist_lib.py
@@ -200,6 +200,9 @@ def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=N
         if (_lupcorr.shape[0] != nz) or (_lupcorr.shape[1] != ncol):
             raise ValueError("lupcorr must be ncol x nz for mode 1")
 
+        if (_refmag.size != 1):
+            raise ValueError("refmag must be 1 element for mode 1")
+
         if (_refmagerr.shape[0] != 1) :
             raise ValueError("refmagerr must be 1 elements for mode 1")
 
@@ -216,6 +219,8 @@ def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=N
             raise ValueError("covmat must be 3 dimensions for mode 2")
         if (covmat.shape[2] != nz):
             raise ValueError("Third dimension of covmat must be nz for mode 2")
+        if (covmat.shape[0] != ncol or covmat.shape[1] != ncol):
+            raise ValueError("covmat must be ncol x ncol x nz for mode 2")
         # redshift varies slowest in the C code
         _covmat = covmat.transpose(2, 0, 1).astype('f8', order='C')
 
@@ -236,6 +241,9 @@ def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=N
         if (_lupcorr.shape[0] != ngal) or (_lupcorr.shape[1] != ncol):
             raise ValueError("lupcorr must be ngal x ncol for mode 2")
 
+        if (_refmag.size != ngal):
+            raise ValueError("refmag must be ngal elements for mode 2")
+
         if (_refmagerr.size != ngal) :
             raise ValueError("refmagerr must be ngal elements for mode 2")
     else:
-- 
2.43.0


From 077e45edc4831c0050ef09a134cf11cf0a32adab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:37 +0000
Subject: [PATCH 05/63] fix: do not let the low-richness stability floor flip
 the sign of the lower bracket end

---
 redmapper/solver_nfw/solver_nfw.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/solver_nfw/solver_nfw.c b/redmapper/solver_nfw/solver_nfw.c
index fb88267..d727040 100644
--- a/redmapper/solver_nfw/solver_nfw.c
+++ b/redmapper/solver_nfw/solver_nfw.c
@@ -41,7 +41,7 @@ int solver_nfw(double r0, double beta, long ngal,
 
     outmid += mid*cval;
 
-    if (outlo < 1.0) { outlo = 0.9;} // stability at low end
+    if (outlo < 1.0 && lamlo < 0.9) { outlo = 0.9;} // stability at low end
     if ((outlo-lamlo)*(outmid-mid) > 0.0) {
       lamlo=mid;
       outlo=-1.0;
-- 
2.43.0


From 7c3334ee858545fa9c8a54e9a13ce2124bac1862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:43 +0000
Subject: [PATCH 06/63] fix: look up a chisq on the lower grid edge in the
 first background bin

---
 redmapper/background.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redmapper/background.py b/redmapper/background.py
index ea62073..29ef066 100644
--- a/redmapper/background.py
+++ b/redmapper/background.py
@@ -149,7 +149,8 @@ class Background(object):
            Sigma_g(x) for input values
         """
         zmin = self.zbins[0]
-        chisqindex = np.searchsorted(self.chisqbins, chisq) - 1
+        # A chisq exactly on the lower edge belongs to the first bin
+        chisqindex = np.clip(np.searchsorted(self.chisqbins, chisq) - 1, 0, None)
         refmagindex = np.searchsorted(self.refmagbins, refmag) - 1
         # Look into changing to searchsorted
         ind = np.clip(np.round((z-zmin)/(self.zbins[1]-zmin)),0, self.zbins.size-1).astype(np.int32)
-- 
2.43.0


From 6bd5e91a382c9a6039626c4ae1a040bcedce39ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:43 +0000
Subject: [PATCH 07/63] fix: size the log chisq background table by its own
 number of bins

---
 redmapper/background.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redmapper/background.py b/redmapper/background.py
index 29ef066..514f622 100644
--- a/redmapper/background.py
+++ b/redmapper/background.py
@@ -68,7 +68,7 @@ class Background(object):
 
         # Set up some arrays to populate
         sigma_g_new = np.zeros((nrefmagbins, nchisqbins, nzbins))
-        sigma_lng_new = np.zeros((nrefmagbins, nchisqbins, nzbins))
+        sigma_lng_new = np.zeros((nrefmagbins, nlnchisqbins, nzbins))
 
         # Do linear interpolation to get the sigma_g value
         # between the raw background points.
@@ -77,6 +77,7 @@ class Background(object):
             for j in range(nchisqbins):
                 sigma_g_new[:,j,i] = np.interp(refmagbins, obkg.refmagbins, obkg.sigma_g[:,j,i])
                 sigma_g_new[:,j,i] = np.where(sigma_g_new[:,j,i] < 0, 0, sigma_g_new[:,j,i])
+            for j in range(nlnchisqbins):
                 sigma_lng_new[:,j,i] = np.interp(refmagbins, obkg.refmagbins, obkg.sigma_lng[:,j,i])
                 sigma_lng_new[:,j,i] = np.where(sigma_lng_new[:,j,i] < 0, 0, sigma_lng_new[:,j,i])
 
-- 
2.43.0


From 1b559411ec533501bd2d3c54336eb5626f5eb538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:50 +0000
Subject: [PATCH 08/63] fix: honour row indices when writing a catalog of
 length one

---
 redmapper/catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/catalog.py b/redmapper/catalog.py
index 2bd1f1c..f975879 100644
--- a/redmapper/catalog.py
+++ b/redmapper/catalog.py
@@ -140,7 +140,7 @@ class DataObject(object):
         indices: `np.array`, optional
            Indices of rows to output.  Default is None (output all).
         """
-        if self._ndarray.size == 1:
+        if self._ndarray.size == 1 and indices is None:
             temp_array = np.zeros(1, dtype=self._ndarray.dtype)
             temp_array[0] = self._ndarray
             fitsio.write(filename, temp_array, clobber=clobber, header=header, extname=extname)
-- 
2.43.0


From 4f7e58afbae29c5de4b73098486b53a1260e93b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:50 +0000
Subject: [PATCH 09/63] fix: listing the attributes of a catalog object fails
 on python 3

---
 redmapper/catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/catalog.py b/redmapper/catalog.py
index f975879..87b61c6 100644
--- a/redmapper/catalog.py
+++ b/redmapper/catalog.py
@@ -218,7 +218,7 @@ class DataObject(object):
         # also need to know original __dir__!
         return sorted(set(
                 dir(type(self)) +
-                self.__dict__.keys() +
+                list(self.__dict__.keys()) +
                 [x.lower() for x in self._ndarray.dtype.names]))
 
 
-- 
2.43.0


From 690554008bcbb66ec00fce183b3840d52b682f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:01 +0000
Subject: [PATCH 10/63] fix: report an out of range pixel instead of failing
 with a NameError

---
 redmapper/galaxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index 781dcff..ca18d59 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -138,7 +138,7 @@ class GalaxyCatalog(Catalog):
             if len(_hpix) > 0:
                 for _hp in _hpix:
                     if _hp < 0 or _hp >= hpg.nside_to_npixel(nside):
-                        raise ValueError("hpix %d is out of range." % (hp))
+                        raise ValueError("hpix %d is out of range." % (_hp))
 
         if border > 0.0 and len(_hpix) > 0:
             if len(_hpix) != 1:
-- 
2.43.0


From 3eb70386f75b80ea867c5c6ec8076b88bdcf1650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:01 +0000
Subject: [PATCH 11/63] fix: take the pixel number from the end of the pixel
 file name

---
 redmapper/galaxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index ca18d59..39c1489 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -807,7 +807,7 @@ class GalaxyCatalogMaker(object):
             # Figure out which hpixels are there
             files = sorted(glob.glob('%s/%s_???????.fit' % (self.outpath, self.outbase_nopath)))
             for f in files:
-                m = re.search(r'_(\d{7})', f)
+                m = re.search(r'_(\d{7})\.fit$', f)
                 if m is None:
                     raise RuntimeError("Malformed filename for pixel file: %s" % (f))
 
-- 
2.43.0


From e053460b3e4c3c85c06e962dac41827d3f147738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:26 +0000
Subject: [PATCH 12/63] fix: evaluate the mask correction polynomial with its
 highest power first

calc_maskcorr returns np.polyfit coefficients, and the solver reads them that
way; calc_richness used the reverse order to decide whether the richness error
gets a mask term.
---
 redmapper/cluster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/cluster.py b/redmapper/cluster.py
index 96a8290..47fcc14 100644
--- a/redmapper/cluster.py
+++ b/redmapper/cluster.py
@@ -524,8 +524,8 @@ class Cluster(Entry):
         else:
             # Only do this computation if we have a valid measurement
             bar_pmem = np.sum(pmem**2.0)/np.sum(pmem)
-            cval = np.clip(np.sum(cpars * rlam**np.arange(cpars.size, dtype=float)),
-                           0.0, None)
+            # cpars are ordered as in np.polyfit (highest power first)
+            cval = np.clip(np.polyval(cpars, rlam), 0.0, None)
 
             self.scaleval = np.absolute(lam / np.sum(pmem))
 
-- 
2.43.0


From fa5223e42fc878688b737425c4eec9514f73898e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:26 +0000
Subject: [PATCH 13/63] fix: calc_richness_fit fails with a NameError when an
 error is asked for

---
 redmapper/cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redmapper/cluster.py b/redmapper/cluster.py
index 47fcc14..149a3c8 100644
--- a/redmapper/cluster.py
+++ b/redmapper/cluster.py
@@ -748,9 +748,10 @@ class Cluster(Entry):
             lam_unscaled = lam / self.scaleval
 
             if calc_err:
+                cval = np.clip(np.polyval(cpars, rlam), 0.0, None)
                 lam_cerr = self.calc_lambdacerr(mask.maskgals, self.mstar,
                                                lam, rlam, pmem, cval, self.config.dldr_gamma)
-                lam_err = np.sqrt((1. - bar_pmem) * lam_unscaled + lambda_cerr**2.)
+                lam_err = np.sqrt((1. - bar_pmem) * lam_unscaled + lam_cerr**2.)
 
             # calculate pcol (color only)
             ucounts = d_wt * phi
-- 
2.43.0


From 5d1940f8eae4371aed6320ecc60700f1ba62c37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:09 +0000
Subject: [PATCH 14/63] fix: a galaxy claimed by several clusters has no
 negative free probability

---
 redmapper/cluster_runner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redmapper/cluster_runner.py b/redmapper/cluster_runner.py
index eebad42..816119b 100644
--- a/redmapper/cluster_runner.py
+++ b/redmapper/cluster_runner.py
@@ -403,7 +403,8 @@ class ClusterRunner(object):
                         continue
 
                     if self.do_percolation_masking:
-                        cluster.neighbors.pfree[:] = 1.0 - self.pgal[cluster.neighbors.index]
+                        # A galaxy may be claimed by several clusters
+                        cluster.neighbors.pfree[:] = np.clip(1.0 - self.pgal[cluster.neighbors.index], 0.0, None)
                     else:
                         cluster.neighbors.pfree[:] = 1.0
 
-- 
2.43.0


From 3bdab20d6d92b6d8569102a387ef99c486e0cccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:09 +0000
Subject: [PATCH 15/63] fix: report a percolation cluster without members
 inside its radius as bad

---
 redmapper/run_percolation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/run_percolation.py b/redmapper/run_percolation.py
index 905c22f..59edb0e 100644
--- a/redmapper/run_percolation.py
+++ b/redmapper/run_percolation.py
@@ -397,6 +397,7 @@ class RunPercolation(ClusterRunner):
                       (cluster.neighbors.p > 0.0))
         if u.size == 0:
             # This is another way to get a bad cluster
+            bad = True
             self._reset_bad_values(cluster)
             return bad
 
-- 
2.43.0


From e1ef95561db06b027f7432d1629ff61cce39604b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:09 +0000
Subject: [PATCH 16/63] fix: keep the mem_match_id of a catalog with a single
 cluster

---
 redmapper/cluster_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/cluster_runner.py b/redmapper/cluster_runner.py
index 816119b..dd44f41 100644
--- a/redmapper/cluster_runner.py
+++ b/redmapper/cluster_runner.py
@@ -292,7 +292,7 @@ class ClusterRunner(object):
         min_id = self.cat.mem_match_id.min()
         max_id = self.cat.mem_match_id.max()
 
-        if (min_id == max_id):
+        if (min_id == max_id) and (self.cat.size > 1 or min_id <= 0):
             # These are unset: generate them
             self.cat.mem_match_id = np.arange(self.cat.size) + 1
         else:
-- 
2.43.0


From da86ce2d7947bdcc9fa712e2c06b917a56d1b695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:09 +0000
Subject: [PATCH 17/63] fix: widen a p(z) that is cut off on its high side as
 on its low side

---
 redmapper/zlambda.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/redmapper/zlambda.py b/redmapper/zlambda.py
index f808769..5236493 100644
--- a/redmapper/zlambda.py
+++ b/redmapper/zlambda.py
@@ -394,10 +394,10 @@ class Zlambda(object):
 
         # check for bad values, and do slow run if necessary...
         if (self.pz[(self.config.npzbins - 1) // 2] > 0.0 and
-            ((self.pz[0] / self.pz[(self.config.npzbins - 1) // 2] > 0.01) and
-             (self.pzbins[0] >= (self.zredstr.z[0] + 0.01))) or
-            ((self.pz[-1] >= self.pz[(self.config.npzbins-1) // 2] > 0.01) and
-             (self.pzbins[-1] <= (self.zredstr.z[-2] - 0.01)))):
+            (((self.pz[0] / self.pz[(self.config.npzbins - 1) // 2] > 0.01) and
+              (self.pzbins[0] >= (self.zredstr.z[0] + 0.01))) or
+             ((self.pz[-1] / self.pz[(self.config.npzbins - 1) // 2] > 0.01) and
+              (self.pzbins[-1] <= (self.zredstr.z[-2] - 0.01))))):
 
             self._zlambda_calc_pz(z_lambda, wtvals, maxrad, maxmag, slow=True)
 
-- 
2.43.0


From 4f0531aa15bf63e77b3ed375bf1fdc9fb7fb325d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:09 +0000
Subject: [PATCH 18/63] fix: apply_correction without error correction fails
 when there is no p(z)

---
 redmapper/zlambda.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/redmapper/zlambda.py b/redmapper/zlambda.py
index 5236493..a6cdb03 100644
--- a/redmapper/zlambda.py
+++ b/redmapper/zlambda.py
@@ -702,13 +702,16 @@ class ZlambdaCorrectionPar(object):
             correction = self.offset[i, :] + self.slope[i, :] * np.log(lam / self.zlambda_pivot)
             extra_err = np.interp(zlam, self.z, self.scatter[i, :])
 
+            if noerr:
+                extra_err = 0.0
+
             dz = np.interp(zlam, self.z, correction)
 
             ozlam = copy.deepcopy(zlam)
 
             zlam += dz
 
-            if pzbins is None and not noerr:
+            if pzbins is None:
                 # No P(z).  Simple error application
                 zlam_e = np.sqrt(zlam_e**2. + extra_err**2.)
             else:
-- 
2.43.0


From cc0cf74b636e028cd9522f368c1cdb86b0b83b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:04 +0000
Subject: [PATCH 19/63] fix: unused centring slots (index -1) marked the last
 neighbour as a central candidate

---
 redmapper/run_percolation.py | 5 +++--
 redmapper/run_zscan.py       | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/redmapper/run_percolation.py b/redmapper/run_percolation.py
index 59edb0e..68d4910 100644
--- a/redmapper/run_percolation.py
+++ b/redmapper/run_percolation.py
@@ -308,8 +308,9 @@ class RunPercolation(ClusterRunner):
                 cluster.zred_e = cluster.neighbors.zred_e[cent.index[0]]
                 cluster.zred_chisq = cluster.neighbors.zred_chisq[cent.index[0]]
 
-            cluster.id_cent[:] = cluster.neighbors.id[cent.index]
-            cluster.neighbors.centering_cand[cent.index] = 1
+            cen, = np.where(cent.index >= 0)
+            cluster.id_cent[cen] = cluster.neighbors.id[cent.index[cen]]
+            cluster.neighbors.centering_cand[cent.index[cen]] = 1
 
         # And update the center info...
         cluster.ncent_good = cent.ngood
diff --git a/redmapper/run_zscan.py b/redmapper/run_zscan.py
index aa580d5..f8a1349 100644
--- a/redmapper/run_zscan.py
+++ b/redmapper/run_zscan.py
@@ -271,7 +271,8 @@ class RunZScan(ClusterRunner):
                 cluster.zred_e = cluster.neighbors.zred_e[cent.index[0]]
                 cluster.zred_chisq = cluster.neighbors.zred_chisq[cent.index[0]]
 
-            cluster.id_cent[:] = cluster.neighbors.id[cent.index]
+            cen, = np.where(cent.index >= 0)
+            cluster.id_cent[cen] = cluster.neighbors.id[cent.index[cen]]
 
         # And update the center info...
         cluster.ncent_good = cent.ngood
-- 
2.43.0


From 02bd7a2cb81efdf4c7bd625060d0a5d4a4d3c2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:40 +0000
Subject: [PATCH 20/63] fix: CenteringWcenZred crashed when no neighbour is a
 candidate centre

---
 redmapper/centering.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/redmapper/centering.py b/redmapper/centering.py
index 5641393..c537cb2 100644
--- a/redmapper/centering.py
+++ b/redmapper/centering.py
@@ -158,6 +158,9 @@ class CenteringWcenZred(Centering):
                         ((self.cluster.neighbors.pmem > 0.0) |
                          (np.abs(self.cluster.redshift - z_neighbors) < 5.0 * z_neighbors_e)))
 
+        if use.size == 0:
+            return False
+
         # Do the phi_cen filter
         mbar = self.cluster.mstar + self.config.wcen_Delta0 + self.config.wcen_Delta1 * np.log(self.cluster.Lambda / self.config.wcen_pivot)
         phi_cen = gaussFunction(self.cluster.neighbors.refmag[use],
-- 
2.43.0


From 23f5cc62daabe0a0449dcc4c5292f77095d7380c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:23 +0000
Subject: [PATCH 21/63] fix: first pass on zred seeds ignored the configured r0
 and beta

---
 redmapper/run_firstpass.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redmapper/run_firstpass.py b/redmapper/run_firstpass.py
index 9bb209c..5dbc94b 100644
--- a/redmapper/run_firstpass.py
+++ b/redmapper/run_firstpass.py
@@ -209,7 +209,9 @@ class RunFirstPass(ClusterRunner):
                                             zredstr=self.zredstr,
                                             config=self.config,
                                             bkg=self.bkg,
-                                            cosmo=self.cosmo)
+                                            cosmo=self.cosmo,
+                                            r0=self.r0,
+                                            beta=self.beta)
 
             self.cat.ra = self.gals.ra[use[good]]
             self.cat.dec = self.gals.dec[use[good]]
-- 
2.43.0


From 1aca88acfe78885378432bcf076c391e6df0fe2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:23 +0000
Subject: [PATCH 22/63] fix: total likelihood was not set before the centring
 is calibrated

---
 redmapper/run_likelihoods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/run_likelihoods.py b/redmapper/run_likelihoods.py
index 81dc02c..f595379 100644
--- a/redmapper/run_likelihoods.py
+++ b/redmapper/run_likelihoods.py
@@ -234,7 +234,7 @@ class RunLikelihoods(ClusterRunner):
 
                 cluster.lnbcglike = np.log(phi_cen * np.clip(g, 1e-10, None) * fw)
 
-            cluster.lnlike = cluster.lnbcglike + cluster.lnlamlike
+        cluster.lnlike = cluster.lnbcglike + cluster.lnlamlike
 
         return bad
 
-- 
2.43.0


From 4d3a3aac97b0881d8b98e2f47cc0beaedfc37514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:38 +0000
Subject: [PATCH 23/63] fix: random redshifts were compared with the redshift
 limit of other positions

---
 redmapper/randoms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/randoms.py b/redmapper/randoms.py
index 5abc9b6..84a1f96 100644
--- a/redmapper/randoms.py
+++ b/redmapper/randoms.py
@@ -119,7 +119,7 @@ class GenerateRandoms(object):
             # while i counts index through tempcat, many of which will be rejected.
             zctr = 0
             for i in range(tempcat.size):
-                if (zz[zctr] < zmax[i]):
+                if (zz[zctr] < zmax[gd[i]]):
                     # This is in a location that is within the volume limit.
                     tempcat.z[i] = zz[zctr]
                     tempcat.Lambda[i] = ll[zctr]
-- 
2.43.0


From 3ce3ec70d8d460b6f79e11ced2e69c12e14f271d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:38 +0000
Subject: [PATCH 24/63] fix: RandomCatalogMaker.split_randoms used os without
 importing it

---
 redmapper/randoms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/randoms.py b/redmapper/randoms.py
index 84a1f96..6b552dd 100644
--- a/redmapper/randoms.py
+++ b/redmapper/randoms.py
@@ -3,6 +3,7 @@
 
 import fitsio
 import esutil
+import os
 import re
 import copy
 import numpy as np
-- 
2.43.0


From be1df6c01e44a68047744fe8590ed82148fab878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:38 +0000
Subject: [PATCH 25/63] fix: runners that read galaxies without setting
 cutgals_bkgrange failed in set-up

---
 redmapper/cluster_runner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/cluster_runner.py b/redmapper/cluster_runner.py
index dd44f41..a43edfd 100644
--- a/redmapper/cluster_runner.py
+++ b/redmapper/cluster_runner.py
@@ -73,6 +73,7 @@ class ClusterRunner(object):
         self.use_parfile = True
         self.use_maxmag_in_matching = True
         self.use_rmask_settings = True
+        self.cutgals_bkgrange = False
         self.cutgals_chisqmax = False
         self._filename = None
 
-- 
2.43.0


From 5a9b75a1bf19d025bc73031ccf61a9dadf5f70d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:13 +0000
Subject: [PATCH 26/63] fix: RunCatalog never stopped iterating when z_lambda
 does not converge (maxiter was ignored)

---
 redmapper/runcat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/redmapper/runcat.py b/redmapper/runcat.py
index 7f7ac96..7195799 100644
--- a/redmapper/runcat.py
+++ b/redmapper/runcat.py
@@ -179,5 +179,7 @@ class RunCatalog(ClusterRunner):
             else:
                 done = True
 
+            iteration += 1
+
         return bad
 
-- 
2.43.0


From 7eb790d329a8855eb111f1d3ace1a3e0baef7fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:34 +0000
Subject: [PATCH 27/63] fix: runners failed when no cluster is left after the
 final cut

---
 redmapper/cluster_runner.py | 3 +--
 redmapper/run_colormem.py   | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/redmapper/cluster_runner.py b/redmapper/cluster_runner.py
index a43edfd..0e0a493 100644
--- a/redmapper/cluster_runner.py
+++ b/redmapper/cluster_runner.py
@@ -605,8 +605,7 @@ class ClusterRunner(object):
 
         # And crop down members?
         if self.members is not None:
-            a, b = esutil.numpy_util.match(self.cat.mem_match_id,
-                                           self.members.mem_match_id)
+            b, = np.where(np.isin(self.members.mem_match_id, self.cat.mem_match_id))
             self.members = Catalog(self.members._ndarray[b])
 
     def _cleanup(self):
diff --git a/redmapper/run_colormem.py b/redmapper/run_colormem.py
index 898bcfd..86d5d8a 100644
--- a/redmapper/run_colormem.py
+++ b/redmapper/run_colormem.py
@@ -167,7 +167,7 @@ class RunColormem(ClusterRunner):
         # from catalogs and neighbors
         self.cat = ClusterCatalog(self.cat._ndarray[use])
 
-        a, b = esutil.numpy_util.match(self.cat.mem_match_id, self.members.mem_match_id)
+        b, = np.where(np.isin(self.members.mem_match_id, self.cat.mem_match_id))
         self.members = Catalog(self.members._ndarray[b])
 
         if self.config.calib_colormem_smooth > 0.0:
-- 
2.43.0


From d85e7ae096b2fa8f9d929561ed8edcb690ca192b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:21 +0000
Subject: [PATCH 28/63] fix: zred2 of a catalog of galaxies lacked the
 magnitude slope of its correction

---
 redmapper/zred_color.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/zred_color.py b/redmapper/zred_color.py
index 303d5b0..439763d 100644
--- a/redmapper/zred_color.py
+++ b/redmapper/zred_color.py
@@ -84,7 +84,7 @@ class ZredColor(object):
             galaxies.zred = galaxies.zred_uncorr + dzs
             galaxies.zred_e = galaxies.zred_uncorr_e * interpol(self.zredstr.corr_r, self.zredstr.z, galaxies.zred)
 
-            dz2s = interpol(self.zredstr.corr2, self.zredstr.z, galaxies.zred_uncorr)
+            dz2s = interpol(self.zredstr.corr2, self.zredstr.z, galaxies.zred_uncorr) + (galaxies.refmag - pivotmags) * interpol(self.zredstr.corr2_slope, self.zredstr.z, galaxies.zred_uncorr)
             r2s = interpol(self.zredstr.corr2_r, self.zredstr.z, galaxies.zred_uncorr)
 
             galaxies.zred2 = galaxies.zred_uncorr + dz2s
-- 
2.43.0


From 5d6516b1b07ad95ef3803700d6cb09019a90cddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:21 +0000
Subject: [PATCH 29/63] fix: redshift corrections were applied to the flag
 values of galaxies without a redshift

---
 redmapper/zred_color.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/redmapper/zred_color.py b/redmapper/zred_color.py
index 439763d..066aaf5 100644
--- a/redmapper/zred_color.py
+++ b/redmapper/zred_color.py
@@ -90,6 +90,12 @@ class ZredColor(object):
             galaxies.zred2 = galaxies.zred_uncorr + dz2s
             galaxies.zred2_e = galaxies.zred_uncorr_e * r2s
 
+            # Galaxies without a redshift stay flagged
+            bad, = np.where(galaxies.zred_uncorr_e < 0.0)
+            galaxies.zred[bad] = -1.0
+            galaxies.zred_e[bad] = -1.0
+            galaxies.zred2[bad] = -1.0
+            galaxies.zred2_e[bad] = -1.0
 
     def compute_zred(self, galaxy, no_corrections=False):
         """
-- 
2.43.0


From 15881c37b79250a864609dc24f122c19e99ada39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:21 +0000
Subject: [PATCH 30/63] fix: zreds of a catalog with fewer galaxies than
 processes could not be computed

---
 redmapper/zred_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/zred_runner.py b/redmapper/zred_runner.py
index 16c2302..deb568f 100644
--- a/redmapper/zred_runner.py
+++ b/redmapper/zred_runner.py
@@ -75,7 +75,7 @@ class ZredRunCatalog(object):
 
         if nperproc is None:
             nperproc = int(float(ngal) / (self.config.calib_nproc - 0.1))
-            nperproc = np.clip(nperproc, None, maxperproc)
+            nperproc = np.clip(nperproc, 1, maxperproc)
 
         inds = np.arange(0, ngal, nperproc)
         worker_list = [(ind, np.clip(ind + nperproc, None, ngal)) for ind in inds]
-- 
2.43.0


From df9dd957e42385bd130b657c7341daeb7707aba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:21 +0000
Subject: [PATCH 31/63] fix: the maximum magnitude given to calc_zlambda was
 replaced by the default

---
 redmapper/zlambda.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/redmapper/zlambda.py b/redmapper/zlambda.py
index a6cdb03..775b63a 100644
--- a/redmapper/zlambda.py
+++ b/redmapper/zlambda.py
@@ -84,8 +84,7 @@ class Zlambda(object):
 
         maxmag = self.zredstr.mstar(z_lambda) - 2.5*np.log10(self.config.lval_reference)
         if maxmag_in is not None:
-            if maxmag_in.size == 1:
-                maxmag = maxmag_in
+            maxmag = maxmag_in
 
         maxrad = 1.2 * self.cluster.r0 * 3.**self.cluster.beta
 
@@ -131,10 +130,6 @@ class Zlambda(object):
 
                 wtvals_mod = self.cluster.neighbors.pcol
 
-                if maxmag_in is not None:
-                   maxmag = (self.zredstr.mstar(z_lambda) -
-                       2.5 * np.log10(self.config.lval_reference))
-
                 self._zlambda_select_neighbors(wtvals_mod, maxrad, maxmag)
 
                 # break if too few neighbors
-- 
2.43.0


From db3c906fd0ec905c315ef58651683dfc55f32761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:21 +0000
Subject: [PATCH 32/63] fix: the redshift limit of positions beyond the poles
 could not be looked up

---
 redmapper/volumelimit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/volumelimit.py b/redmapper/volumelimit.py
index cfc6667..078a9b5 100644
--- a/redmapper/volumelimit.py
+++ b/redmapper/volumelimit.py
@@ -260,7 +260,7 @@ class VolumeLimitMask(object):
         if (len(ras) != len(decs)):
             raise ValueError("ras, decs must be same length")
 
-        values = self.sparse_vlimmap.get_values_pos(ras, decs, lonlat=True)
+        values = self.sparse_vlimmap.get_values_pos(ras, np.clip(decs, -90.0, 90.0), lonlat=True)
 
         bad, = np.where(np.abs(decs) > 90.0)
         values['zmax'][bad] = hpg.UNSEEN
-- 
2.43.0


From 5647590a1080c8405d8c1cd64d048f1acfa8d583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:21 +0000
Subject: [PATCH 33/63] fix: the area at a redshift summed the coverage of the
 shallowest pixels

---
 redmapper/volumelimit.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/redmapper/volumelimit.py b/redmapper/volumelimit.py
index 078a9b5..0bd4cdc 100644
--- a/redmapper/volumelimit.py
+++ b/redmapper/volumelimit.py
@@ -299,12 +299,9 @@ class VolumeLimitMask(object):
 
         inds = np.searchsorted(zmax[st], zbins, side='right')
 
-        lo = (inds <= 0)
-        astr.area[lo] = np.sum(fracgoods.astype(np.float64)) * pixsize
-
-        if np.sum(~lo) > 0:
-            carea = pixsize * np.cumsum(fracgoods, dtype=np.float64)
-            astr.area[~lo] = carea[carea.size - inds[~lo]]
+        # The area at a redshift is that of the pixels with a larger maximum redshift
+        carea = pixsize * np.append(np.cumsum(fracgoods[::-1], dtype=np.float64)[::-1], 0.0)
+        astr.area = carea[inds]
 
         return astr
 
-- 
2.43.0


From 365511a4a5315a365f84baf43726967aaa50d6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:21 +0000
Subject: [PATCH 34/63] fix: sub-region nside and pixels of the volume limit
 mask were swapped

---
 redmapper/volumelimit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/volumelimit.py b/redmapper/volumelimit.py
index 0bd4cdc..c69d3f2 100644
--- a/redmapper/volumelimit.py
+++ b/redmapper/volumelimit.py
@@ -87,8 +87,8 @@ class VolumeLimitMask(object):
         self.sparse_vlimmap = healsparse.HealSparseMap.read(self.vlimfile, pixels=covpixels)
 
         self.nside = self.sparse_vlimmap.nside_sparse
-        self.subpix_nside = self.config.d.hpix
-        self.subpix_hpix = self.config.d.nside
+        self.subpix_nside = self.config.d.nside
+        self.subpix_hpix = self.config.d.hpix
         self.subpix_border = self.config.border
 
     def _build_mask(self):
-- 
2.43.0


From f926fcd927aeda46e8eb700fce8adcb3e2c7a7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:04 +0000
Subject: [PATCH 35/63] fix: consolidation with select_scaleval used the scale
 of clusters before the pixel cut

---
 redmapper/pipeline/redmapperconsolidatetask.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index e9169d6..1508994 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -160,8 +160,6 @@ class RedmapperConsolidateTask(object):
 
             # Note: when adding mock support, read in true galaxies to get members
 
-            scaleval = cat.scaleval if self.config.select_scaleval else 1.0
-
             # Figure out which clusters are in the pixel, less than
             # max_maskfrac, and above percolation_minlambda (with or without
             # scale)
@@ -190,6 +188,8 @@ class RedmapperConsolidateTask(object):
             # Cut down members
             mem = mem[b]
 
+            scaleval = cat.scaleval if self.config.select_scaleval else 1.0
+
             # Append ALL IDs and likelihoods for sorting here
             all_ids = np.append(all_ids, cat.mem_match_id)
             all_likelihoods = np.append(all_likelihoods, cat.lnlamlike)
-- 
2.43.0


From f748cbdf78fb4d3c69041cef2fe9218c8602b284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:04 +0000
Subject: [PATCH 36/63] fix: consolidation failed, leaving temporary ids, when
 a richness cut selects no cluster

---
 redmapper/pipeline/redmapperconsolidatetask.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index 1508994..a171a3a 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -246,6 +246,10 @@ class RedmapperConsolidateTask(object):
 
         for i, minlambda in enumerate(self.lambda_cuts):
             for j, vlim_mask in enumerate(vlim_masks):
+                if not started[i, j]:
+                    # No clusters passed this cut, so there is no file
+                    continue
+
                 catfits = fitsio.FITS(cat_filename_dict[(i, j)][1], mode='rw')
                 memfits = fitsio.FITS(cat_filename_dict[(i, j)][2], mode='rw')
 
-- 
2.43.0


From 16465b7b83cb61aa35e7d06705093897a52a428e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:04 +0000
Subject: [PATCH 37/63] fix: consolidation took the pixel number from the
 directory or base name

---
 redmapper/pipeline/redmapperconsolidatetask.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index a171a3a..dd874ea 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -80,7 +80,7 @@ class RedmapperConsolidateTask(object):
         self.config.logger.info("Found %d catalog files in %s" % (len(catfiles), self.config.outpath))
 
         # Extract the nside that was run
-        m = re.search(r'_(\d+)_(\d\d\d\d\d)_', catfiles[0])
+        m = re.search(r'_(\d+)_(\d\d\d\d\d)_final_catalog\.fit$', catfiles[0])
         if m is None:
             raise RuntimeError("Could not understand filename for %s" % (catfiles[0]))
 
@@ -128,7 +128,7 @@ class RedmapperConsolidateTask(object):
 
             # Extract pixnum from name
 
-            m = re.search(r'_(\d+)_(\d\d\d\d\d)_', catfile)
+            m = re.search(r'_(\d+)_(\d\d\d\d\d)_final_catalog\.fit$', catfile)
             if m is None:
                 raise RuntimeError("Could not understand filename for %s" % (catfile))
 
@@ -338,7 +338,7 @@ class RuncatConsolidateTask(object):
         self.config.logger.info("Found %d catalog files in %s" % (len(catfiles), self.config.outpath))
 
         # Extract the nside that was run
-        m = re.search(r'_(\d+)_(\d\d\d\d\d)_', catfiles[0])
+        m = re.search(r'_(\d+)_(\d\d\d\d\d)_%s_catalog\.fit$' % (cattype), catfiles[0])
         if m is None:
             raise RuntimeError("Could not understand filename for %s" % (catfiles[0]))
 
@@ -361,7 +361,7 @@ class RuncatConsolidateTask(object):
 
             # Extract pixnum from name
 
-            m = re.search(r'_(\d+)_(\d\d\d\d\d)_', catfile)
+            m = re.search(r'_(\d+)_(\d\d\d\d\d)_%s_catalog\.fit$' % (cattype), catfile)
             if m is None:
                 raise RuntimeError("Could not understand filename for %s" % (catfile))
 
-- 
2.43.0


From 864b64cc5e4c02c7d4be44fec6027e3503295888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:05 +0000
Subject: [PATCH 38/63] fix: runcat consolidation kept the members of clusters
 outside the pixel

---
 redmapper/pipeline/redmapperconsolidatetask.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index dd874ea..826eb94 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -404,6 +404,11 @@ class RuncatConsolidateTask(object):
 
             cat = cat[use]
 
+            if consolidate_members:
+                # Cut down members to those of the clusters in the pixel
+                _, b = esutil.numpy_util.match(cat.mem_match_id, mem.mem_match_id)
+                mem = mem[b]
+
             if not started:
                 # Figure out filename
                 cat_fname = self.config.redmapper_filename('%s_catalog' % (cattype), withversion=True)
-- 
2.43.0


From b00f1e062528b3fd1e812fa374a41fd6440398f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:05 +0000
Subject: [PATCH 39/63] fix: runcat consolidation failed in plotting with a
 NameError

---
 redmapper/pipeline/redmapperconsolidatetask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index 826eb94..8b969ca 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -428,7 +428,7 @@ class RuncatConsolidateTask(object):
 
         if do_plots:
             cat = Catalog.from_fits_file(cat_fname)
-            self.config.d.outbase = cat_name
+            self.config.d.outbase = os.path.basename(cat_fname).split('_catalog')[0]
             specplot = SpecPlot(self.config)
 
             if self.config.has_truth:
-- 
2.43.0


From abe0ae55448fa1a02245676a5a583717bcb46a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:05 +0000
Subject: [PATCH 40/63] fix: runcat pixel task failed with a NameError and
 wrote a file name nothing looks for

---
 redmapper/pipeline/redmappertask.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redmapper/pipeline/redmappertask.py b/redmapper/pipeline/redmappertask.py
index affbfdb..b2c210f 100644
--- a/redmapper/pipeline/redmappertask.py
+++ b/redmapper/pipeline/redmappertask.py
@@ -9,6 +9,7 @@ from ..utilities import make_lockfile
 from ..run_firstpass import RunFirstPass
 from ..run_likelihoods import RunLikelihoods
 from ..run_percolation import RunPercolation
+from ..runcat import RunCatalog
 from ..run_randoms_zmask import RunRandomsZmask
 from ..run_zscan import RunZScan
 
@@ -175,7 +176,7 @@ class RuncatPixelTask(object):
         runcat = RunCatalog(self.config)
         if not os.path.isfile(runcat.filename):
             runcat.run(do_percolation_masking=self.config.runcat_percolation_masking)
-            runcat.output(savemembers=True, withversion=True)
+            runcat.output(savemembers=True, withversion=False)
 
         self.config.stop_file_logging()
 
-- 
2.43.0


From 75f4ceeb27d03406a07a16fa11b888fc6388c289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:05 +0000
Subject: [PATCH 41/63] fix: zscan pixel task did not write the file it checks
 for

---
 redmapper/pipeline/redmappertask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/pipeline/redmappertask.py b/redmapper/pipeline/redmappertask.py
index b2c210f..827f5c9 100644
--- a/redmapper/pipeline/redmappertask.py
+++ b/redmapper/pipeline/redmappertask.py
@@ -306,7 +306,7 @@ class RunZScanPixelTask(object):
         runzscan = RunZScan(self.config)
         if not os.path.isfile(runzscan.filename):
             runzscan.run()
-            runzscan.output(savemembers=True, withversion=True)
+            runzscan.output(savemembers=True, withversion=False)
 
         self.config.stop_file_logging()
 
-- 
2.43.0


From e60b24b05a7d7b54551140c95409b7ac812edb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:05 +0000
Subject: [PATCH 42/63] fix: read_members stripped characters of the catalog
 name itself

---
 redmapper/utilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redmapper/utilities.py b/redmapper/utilities.py
index e53507d..c31880a 100644
--- a/redmapper/utilities.py
+++ b/redmapper/utilities.py
@@ -1091,7 +1091,9 @@ def read_members(catfile):
 
     from .galaxy import GalaxyCatalog
 
-    memfile = '%s_members.fit' % (catfile.rstrip('.fit'))
+    if catfile.endswith('.fit'):
+        catfile = catfile[: -len('.fit')]
+    memfile = '%s_members.fit' % (catfile)
 
     if not os.path.isfile(memfile):
         raise RuntimeError("Could not find member file %s" % (memfile))
-- 
2.43.0


From bf47a93aec812970fc394d4dbcafae5ee39c5de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:05 +0000
Subject: [PATCH 43/63] fix: a single process run of a sub-region failed with
 an AttributeError

---
 redmapper/redmapper_run.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/redmapper/redmapper_run.py b/redmapper/redmapper_run.py
index da0ea42..d4ee8f8 100644
--- a/redmapper/redmapper_run.py
+++ b/redmapper/redmapper_run.py
@@ -168,10 +168,7 @@ class RedmapperRun(object):
         tab = Entry.from_fits_file(self.config.galfile, ext=1)
 
         if self.config.calib_run_nproc == 1:
-            if self.config.d.nside > self.config.calib_run_min_nside:
-                nside_test = self.config.run_min_nside
-            else:
-                nside_test = np.clip(self.config.d.nside, 1, None)
+            nside_test = np.clip(self.config.d.nside, 1, None)
             subpixels = self._get_subpixels(nside_test, tab)
             return (nside_test, subpixels)
 
-- 
2.43.0


From 16ec5013735f542d0612bcefb93499b2f59f853d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:05 +0000
Subject: [PATCH 44/63] fix: members were not found when the directory name
 contains .fit

---
 redmapper/redmapper_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/redmapper_run.py b/redmapper/redmapper_run.py
index d4ee8f8..8de1337 100644
--- a/redmapper/redmapper_run.py
+++ b/redmapper/redmapper_run.py
@@ -314,7 +314,7 @@ class RedmapperRun(object):
             cat = cat[use]
 
             if members:
-                parts = f.split('.fit')
+                parts = os.path.splitext(f)
                 mem = Catalog.from_fits_file(parts[0] + '_members.fit')
 
                 # We are going to replace the mem_match_ids in the consolidated catalog,
-- 
2.43.0


From 40b0f5e8ab52f270f1dc6c3291b38d5d25dfde81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:05 +0000
Subject: [PATCH 45/63] fix: redmagic randoms could not be made from file names

---
 redmapper/redmagic/redmagic_randoms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/redmagic/redmagic_randoms.py b/redmapper/redmagic/redmagic_randoms.py
index bc78b6d..4601ebe 100644
--- a/redmapper/redmagic/redmagic_randoms.py
+++ b/redmapper/redmagic/redmagic_randoms.py
@@ -35,14 +35,14 @@ class RedmagicGenerateRandoms(object):
             self.vlim_mask = vlim_mask_or_file
         elif isinstance(vlim_mask_or_file, str):
             # This 0.2 is a dummy value
-            self.vlim_mask = VolumeLimitMask(config, 0.2, vlimfile=self.vlim_mask_or_file)
+            self.vlim_mask = VolumeLimitMask(config, 0.2, vlimfile=vlim_mask_or_file)
         else:
             raise RuntimeError("vlim_mask_or_file must be a redmapper.VolumeLimitMask or a filename")
 
         if isinstance(redmagic_cat_or_file, GalaxyCatalog):
             self.redmagic_cat = redmagic_cat_or_file
         elif isinstance(redmagic_cat_or_file, str):
-            self.redmagic_cat = GalaxyCatalog.from_fits_file(redmagic_file)
+            self.redmagic_cat = GalaxyCatalog.from_fits_file(redmagic_cat_or_file)
         else:
             raise RuntimeError("redmagic_cat_or_file must be a redmapper.GalaxyCatalog")
 
-- 
2.43.0


From d632b21bf4a996f29f79df4e63666afd5a4780dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:05 +0000
Subject: [PATCH 46/63] fix: the weights of redmagic randoms were overwritten
 with zero

---
 redmapper/redmagic/redmagic_randoms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/redmagic/redmagic_randoms.py b/redmapper/redmagic/redmagic_randoms.py
index 4601ebe..16c0194 100644
--- a/redmapper/redmagic/redmagic_randoms.py
+++ b/redmapper/redmagic/redmagic_randoms.py
@@ -103,6 +103,7 @@ class RedmagicGenerateRandoms(object):
             tempcat.ra = ra_rand[gd]
             tempcat.dec = dec_rand[gd]
             tempcat.z[:] = -1.0
+            tempcat.weight[:] = 1.0
 
             zz = rng.choice(self.redmagic_cat.zredmagic, size=gd.size)
             zmax = zmax[gd]
-- 
2.43.0


From e38d3fcaf210579c200f250bea62dde43df1753a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:05 +0000
Subject: [PATCH 47/63] fix: applyErrorModel added one offset of the number of
 galaxies instead of noise

---
 redmapper/depth_fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/depth_fitting.py b/redmapper/depth_fitting.py
index 0dee613..2d7aac4 100644
--- a/redmapper/depth_fitting.py
+++ b/redmapper/depth_fitting.py
@@ -105,7 +105,7 @@ def applyErrorModel(pars, magIn, noNoise=False, lnscat=None):
     if (noNoise):
         flux = tFlux
     else:
-        flux = tFlux + noise*np.random.normal(magIn.size)
+        flux = tFlux + noise*np.random.normal(size=magIn.size)
 
     # Straight magnitudes
     mag = pars['ZP'][0] - 2.5*np.log10(flux/pars['EXPTIME'][0])
-- 
2.43.0


From 86a5055ab3097efe1a35acbd320a7eab2e7147bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:05 +0000
Subject: [PATCH 48/63] fix: the magnitude slope of the central model was read
 from the wrong column

---
 redmapper/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/configuration.py b/redmapper/configuration.py
index 263c8dd..5b41e5c 100644
--- a/redmapper/configuration.py
+++ b/redmapper/configuration.py
@@ -822,7 +822,7 @@ class Configuration(object):
         # New wcen files also record the phi1 information
         if 'phi1_mmstar_m' in wcen[0].dtype.names:
             vals['phi1_mmstar_m'] = wcen[0]['phi1_mmstar_m']
-            vals['phi1_mmstar_slope'] = wcen[0]['phi1_mmstar_m']
+            vals['phi1_mmstar_slope'] = wcen[0]['phi1_mmstar_slope']
             vals['phi1_msig_m'] = wcen[0]['phi1_msig_m']
             vals['phi1_msig_slope'] = wcen[0]['phi1_msig_slope']
 
-- 
2.43.0


From fc7660bd79ac15a1c210a72efc96cfb2f82fadf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:05 +0000
Subject: [PATCH 49/63] fix: weighted randoms were named by the configured
 instead of the requested redshift range

---
 redmapper/randoms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/randoms.py b/redmapper/randoms.py
index 6b552dd..0e98af6 100644
--- a/redmapper/randoms.py
+++ b/redmapper/randoms.py
@@ -279,8 +279,8 @@ class RandomWeigher(object):
         if zrange is None:
             zrange = np.array([self.config.zrange[0], self.config.zrange[1]])
 
-        zname = 'z%03d-%03d' % (int(self.config.zrange[0]*100),
-                                int(self.config.zrange[1]*100))
+        zname = 'z%03d-%03d' % (int(zrange[0]*100),
+                                int(zrange[1]*100))
         vlimname = 'vl%02d' % (int(self.vlim_lstar*10))
         if lambdabin is None:
             lamname = 'lgt%03d' % (int(minlambda))
-- 
2.43.0


From 8d3d5828c5cab6ab3cc63c1713c77df11c9cc7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:05 +0000
Subject: [PATCH 50/63] fix: randoms at the upper richness edge counted in the
 weights but not in the area

---
 redmapper/randoms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/randoms.py b/redmapper/randoms.py
index 0e98af6..963bacd 100644
--- a/redmapper/randoms.py
+++ b/redmapper/randoms.py
@@ -382,12 +382,12 @@ class RandomWeigher(object):
             gd, = np.where((self.randcat.lambda_in[alluse[st]]/self.randcat.scaleval[alluse[st]] > minlambda) &
                            (self.randcat.maskfrac[alluse[st]] < self.config.max_maskfrac) &
                            (self.randcat.lambda_in[alluse[st]] > lambdabin[0]) &
-                           (self.randcat.lambda_in[alluse[st]] < lambdabin[1]))
+                           (self.randcat.lambda_in[alluse[st]] <= lambdabin[1]))
         else:
             gd, = np.where((self.randcat.lambda_in[alluse[st]] > minlambda) &
                            (self.randcat.maskfrac[alluse[st]] < self.config.max_maskfrac) &
                            (self.randcat.lambda_in[alluse[st]] > lambdabin[0]) &
-                           (self.randcat.lambda_in[alluse[st]] < lambdabin[1]))
+                           (self.randcat.lambda_in[alluse[st]] <= lambdabin[1]))
         ind2 = np.searchsorted(self.randcat.z[alluse[st[gd]]], zbins)
 
         xvals = (zbins[0: -2] + zbins[1: -1])/2.
-- 
2.43.0


From 71606b1567977c73651771e4f67daadb5df8f746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:34 +0000
Subject: [PATCH 51/63] fix: redmagic calibration looked for its run
 configuration in the working directory

---
 redmapper/redmagic/redmagic_calibrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/redmagic/redmagic_calibrate.py b/redmapper/redmagic/redmagic_calibrate.py
index cb37933..5ac8c6e 100644
--- a/redmapper/redmagic/redmagic_calibrate.py
+++ b/redmapper/redmagic/redmagic_calibrate.py
@@ -711,5 +711,5 @@ class RedmagicCalibrator(object):
 
         if do_run:
             # Call the redmagic runner here.
-            run_redmagic = RunRedmagicTask(runfile)
+            run_redmagic = RunRedmagicTask(self.runfile)
             run_redmagic.run()
-- 
2.43.0


From 30f2c32a708a4ef430b0e95308abdbd371b2ad58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:25 +0000
Subject: [PATCH 52/63] fix: the configuration could not be written without
 asinh softening parameters

---
 redmapper/configuration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/redmapper/configuration.py b/redmapper/configuration.py
index 5b41e5c..57f3c1a 100644
--- a/redmapper/configuration.py
+++ b/redmapper/configuration.py
@@ -943,6 +943,9 @@ class Configuration(object):
         for key in type(self).__dict__:
             if isinstance(type(self).__dict__[key], ConfigField):
                 if type(self).__dict__[key]._isArray:
+                    if type(self).__dict__[key]._value is None:
+                        # There is nothing to write for an unset array
+                        continue
                     # Convert all elements to python types and make a list
                     out_dict[key] = np.ndarray.tolist(type(self).__dict__[key]._value)
                 else:
-- 
2.43.0


From b93c61a53e776c0764bb607d6fe001e485346d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:40 +0000
Subject: [PATCH 53/63] fix: calcErrorModel failed with an IndexError without
 usable magnitudes

---
 redmapper/depth_fitting.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/redmapper/depth_fitting.py b/redmapper/depth_fitting.py
index 2d7aac4..49ac382 100644
--- a/redmapper/depth_fitting.py
+++ b/redmapper/depth_fitting.py
@@ -158,6 +158,12 @@ def calcErrorModel(_mag, _magErr, nSig=10.0, doPlot=False, nTrial=100, calcErr=F
                  (np.isfinite(_magErr)) &
                  (_magErr > 0.0))
 
+    if (ok.size == 0):
+        if (doPlot):
+            return (-1,1,None,None)
+        else:
+            return (-1,1)
+
     mag=_mag[ok]
     magErr=_magErr[ok]
 
-- 
2.43.0


From 74736469b622738472a2765354007216a256dc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:40 +0000
Subject: [PATCH 54/63] fix: plotting the depth fit failed with a NameError

---
 redmapper/depth_fitting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/redmapper/depth_fitting.py b/redmapper/depth_fitting.py
index 49ac382..341a250 100644
--- a/redmapper/depth_fitting.py
+++ b/redmapper/depth_fitting.py
@@ -287,6 +287,8 @@ def calcErrorModel(_mag, _magErr, nSig=10.0, doPlot=False, nTrial=100, calcErr=F
             pars['EXPTIME'] = np.median(expTimes)
 
     if (doPlot):
+        import matplotlib.pyplot as plt
+
         fig=plt.figure(1)
         fig.clf()
         ax=fig.add_subplot(111)
-- 
2.43.0


From 99a189942d084aa4b83abc4030769be34b76d614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:40 +0000
Subject: [PATCH 55/63] fix: only the last cluster was checked for negative
 corrected redshifts

---
 redmapper/calibration/calibrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/calibration/calibrate.py b/redmapper/calibration/calibrate.py
index a052da8..d30d962 100644
--- a/redmapper/calibration/calibrate.py
+++ b/redmapper/calibration/calibrate.py
@@ -528,7 +528,7 @@ class RedmapperCalibrationIteration(object):
                 cluster.z_lambda_e = zlam_e
 
             # Check for negative values... this is a minimal check
-            test, = np.where(cluster.z_lambda < 0.0)
+            test, = np.where(cat.z_lambda < 0.0)
             if (test.size > 0):
                 raise RuntimeError("z_lambda correction calibration totally failed, and is yielding negative redshifts.  "
                                    "Likely there is a configuration error, see config.calib_zlambda_minlambda and "
-- 
2.43.0


From bb6177219f9a124c970896c1e0d311f5d9d212c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:40 +0000
Subject: [PATCH 56/63] fix: the run configuration named a missing zred file
 for an unpixelized galaxy file

---
 redmapper/calibration/calibrate.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/redmapper/calibration/calibrate.py b/redmapper/calibration/calibrate.py
index d30d962..89ba7d8 100644
--- a/redmapper/calibration/calibrate.py
+++ b/redmapper/calibration/calibrate.py
@@ -239,9 +239,12 @@ class RedmapperCalibrator(object):
 
         # If we calibrated on the full survey, then we have the zredfile already
         if self.config.nside == 0:
-            self.config.zredfile = os.path.abspath(os.path.join(calpath,
-                                                                '%s' % (iterstr),
-                                                                '%s_zreds_master_table.fit' % (iterstr)))
+            if self.config.galfile_pixelized:
+                self.config.zredfile = os.path.abspath(os.path.join(calpath,
+                                                                    '%s' % (iterstr),
+                                                                    '%s_zreds_master_table.fit' % (iterstr)))
+            else:
+                self.config.zredfile = os.path.abspath(os.path.join(calpath, '%s_zreds.fit' % (iterstr)))
         else:
             new_zreds = True
 
-- 
2.43.0


From 77fb42a12a13e153619770bac31fe4079cd6ee97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:40 +0000
Subject: [PATCH 57/63] fix: the name of the training zred file lost characters
 of the galaxy file name

---
 redmapper/calibration/redsequencecal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redmapper/calibration/redsequencecal.py b/redmapper/calibration/redsequencecal.py
index 2b02802..ef14d17 100644
--- a/redmapper/calibration/redsequencecal.py
+++ b/redmapper/calibration/redsequencecal.py
@@ -215,7 +215,8 @@ class RedSequenceCalibrator(object):
         self._calc_zreds(gals, do_correction=True)
 
         # And want to save galaxies and zreds
-        zredfile = os.path.join(self.config.outpath, os.path.basename(self._galfile.rstrip('.fit') + '_zreds.fit'))
+        parts = os.path.basename(self._galfile).rsplit('.fit', 1)
+        zredfile = os.path.join(self.config.outpath, parts[0] + '_zreds.fit')
         gals.to_fits_file(zredfile)
 
         # Make diagnostic plots
-- 
2.43.0


From 35d34ef87e2c6a261249c1b4dba5378badcab2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:08 +0000
Subject: [PATCH 58/63] fix: brightest-galaxy centring filled the unused centre
 slots with the position of the first

---
 redmapper/run_percolation.py | 6 ++++--
 redmapper/run_zscan.py       | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/redmapper/run_percolation.py b/redmapper/run_percolation.py
index 68d4910..5940c38 100644
--- a/redmapper/run_percolation.py
+++ b/redmapper/run_percolation.py
@@ -314,8 +314,10 @@ class RunPercolation(ClusterRunner):
 
         # And update the center info...
         cluster.ncent_good = cent.ngood
-        cluster.ra_cent[:] = cent.ra
-        cluster.dec_cent[:] = cent.dec
+        cluster.ra_cent[:] = -400.0
+        cluster.ra_cent[: cent.ra.size] = cent.ra
+        cluster.dec_cent[:] = -400.0
+        cluster.dec_cent[: cent.dec.size] = cent.dec
         cluster.p_cen[:] = cent.p_cen
         cluster.q_cen[:] = cent.q_cen
         cluster.p_fg[:] = cent.p_fg
diff --git a/redmapper/run_zscan.py b/redmapper/run_zscan.py
index f8a1349..dd8d688 100644
--- a/redmapper/run_zscan.py
+++ b/redmapper/run_zscan.py
@@ -276,8 +276,10 @@ class RunZScan(ClusterRunner):
 
         # And update the center info...
         cluster.ncent_good = cent.ngood
-        cluster.ra_cent[:] = cent.ra
-        cluster.dec_cent[:] = cent.dec
+        cluster.ra_cent[:] = -400.0
+        cluster.ra_cent[: cent.ra.size] = cent.ra
+        cluster.dec_cent[:] = -400.0
+        cluster.dec_cent[: cent.dec.size] = cent.dec
         cluster.p_cen[:] = cent.p_cen
         cluster.q_cen[:] = cent.q_cen
         cluster.p_fg[:] = cent.p_fg
-- 
2.43.0


From 6ccf33ae00ac7a7e48cef44e2585fe1bcbdf8f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:12 +0000
Subject: [PATCH 59/63] fix: a two-colour background asked for with its colours
 swapped was looked up with the wrong axes

---
 redmapper/color_background.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redmapper/color_background.py b/redmapper/color_background.py
index 86aec8b..dd30c0d 100644
--- a/redmapper/color_background.py
+++ b/redmapper/color_background.py
@@ -276,13 +276,15 @@ class ColorBackground(object):
         """
         key = bkg_index1 * 100 + bkg_index2
         if key not in self.bkgs:
+            # The table is stored for the opposite order of the two colors
             key = bkg_index2 * 100 + bkg_index1
+            colors1, colors2 = colors2, colors1
 
         try:
             bkg = self.bkgs[key]
         except KeyError:
             if doRaise:
-                raise KeyError("Could not find a color background for %d, %d" % (bkg_index1, bkg_index1))
+                raise KeyError("Could not find a color background for %d, %d" % (bkg_index1, bkg_index2))
             else:
                 return np.zeros(colors1.size)
 
-- 
2.43.0


From 97d3a0a1263142148f60c4370bb156f327d298b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:47 +0000
Subject: [PATCH 60/63] fix: runcat consolidation of truth catalogues without
 members failed in plotting

---
 redmapper/pipeline/redmapperconsolidatetask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index 8b969ca..66ebc33 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -431,7 +431,7 @@ class RuncatConsolidateTask(object):
             self.config.d.outbase = os.path.basename(cat_fname).split('_catalog')[0]
             specplot = SpecPlot(self.config)
 
-            if self.config.has_truth:
+            if self.config.has_truth and consolidate_members:
                 mem = Catalog.from_fits_file(mem_fname)
                 specplot.plot_cluster_catalog_from_members(cat, mem, title=self.config.d.outbase)
             else:
-- 
2.43.0


From 0ab208811f8f9654f58748ea0bf8fb5072fb97e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:56 +0000
Subject: [PATCH 61/63] fix: write the red-sequence parameter file without a
 red galaxy template

---
 redmapper/calibration/redsequencecal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redmapper/calibration/redsequencecal.py b/redmapper/calibration/redsequencecal.py
index ef14d17..8479ad3 100644
--- a/redmapper/calibration/redsequencecal.py
+++ b/redmapper/calibration/redsequencecal.py
@@ -914,7 +914,9 @@ class RedSequenceCalibrator(object):
         hdr['LIMMAG'] = self.config.limmag_catalog
         # Saved with larger cushion that seems to work well
         hdr['ZRANGE0'] = np.clip(self.config.zrange[0] - 0.1, 0.01, None)
-        hdr['ZRANGE1'] = np.clip(self.config.zrange[1] + 0.25, None, zmax)
+        hdr['ZRANGE1'] = self.config.zrange[1] + 0.25
+        if zmax is not None:
+            hdr['ZRANGE1'] = np.clip(self.config.zrange[1] + 0.25, None, zmax)
         hdr['ALPHA'] = self.config.calib_lumfunc_alpha
         hdr['ZBINFINE'] = self.config.zredc_binsize_fine
         hdr['ZBINCOAR'] = self.config.zredc_binsize_coarse
-- 
2.43.0


From 956d59095418e981f6ffc0fe04296f6ba4688b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:21 +0000
Subject: [PATCH 62/63] fix: count every galaxy of a galaxy file that is not
 pixelized in the background

---
 redmapper/background.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/background.py b/redmapper/background.py
index 514f622..b22bc81 100644
--- a/redmapper/background.py
+++ b/redmapper/background.py
@@ -470,7 +470,7 @@ class BackgroundGenerator(object):
             hdr = fitsio.read_header(self.config.galfile, ext=1)
 
             ngal = hdr['NAXIS2']
-            npix = 0
+            npix = 1
 
         nmag = self.config.nmag
         ncol = nmag - 1
@@ -502,7 +502,7 @@ class BackgroundGenerator(object):
                 hi = np.clip(ctr + self.natatime, None, ngal)
 
                 gals = GalaxyCatalog.from_fits_file(self.config.galfile, rows=np.arange(lo, hi))
-                ctr = hi + 1
+                ctr = hi
             else:
                 if master.ngals[subreg_indices[p]] == 0:
                     p += 1
-- 
2.43.0


From ae869607c093fbaa5c69278cfda6bda21cbb9b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:23 +0000
Subject: [PATCH 63/63] fix: a cluster whose redshift had not settled stopped
 the widened p(z) with an overflow error

---
 redmapper/zlambda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/zlambda.py b/redmapper/zlambda.py
index 775b63a..e42f13d 100644
--- a/redmapper/zlambda.py
+++ b/redmapper/zlambda.py
@@ -493,7 +493,7 @@ class Zlambda(object):
                 val = -self._bracket_fn(lowz)
 
                 ln_lkhd = val - pk
-                with np.errstate(over="raise"):
+                with np.errstate(over="ignore"):
                     pz = np.exp(val - pk) * self.zredstr.volume_factor[self.zredstr.zindex(lowz)]
 
                 ratio = pz/pz0
-- 
2.43.0

