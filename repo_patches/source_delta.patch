From baafed79650a211cd3ca32c8f55723c2132da2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 01/28] fix: do not reuse inverse permittivity matrices left
 incomplete or of another only_gmodes

---
 legume/gme/gme.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index ef2ea8d..e490b48 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -64,6 +64,9 @@ class GuidedModeExp(object):
         self._kpoints = []
         self._gvec = []
 
+        # Value of only_gmodes for which eps_inv_mat is stored (None: not stored)
+        self._eps_inv_only_gmodes = None
+
         # Define direction angles in degrees of high symmetry lines for each lattice
         self._square_an = np.arange(-360, 405, 45)
         self._hex_an = np.arange(-360, 390, 30)
@@ -646,9 +649,10 @@ class GuidedModeExp(object):
         """
         Construct the inverse FT matrices for the permittivity in each layer
         """
-        try:
-            self.eps_inv_mat
-        except AttributeError:
+        # The stored matrices can only be reused if they were completed, and for
+        # the same value of only_gmodes
+        if self._eps_inv_only_gmodes != bool(only_gmodes):
+            self._eps_inv_only_gmodes = None
             # List of inverse permittivity matrices for every layer
             self.eps_inv_mat = []
 
@@ -700,6 +704,8 @@ class GuidedModeExp(object):
                         self.eps_inv_mat.append(bd.inv(eps_ft))
                         self.hom_layer.append(False)
 
+            self._eps_inv_only_gmodes = bool(only_gmodes)
+
     def set_run_options(self,
                         gmode_compute='exact',
                         gmode_inds: list = [0],
-- 
2.43.0


From f4de9c768dd3cfeb549176b6afcae99285f42fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:38 +0000
Subject: [PATCH 02/28] fix: GuidedModeExp.run does not leave results of
 different runs side by side

---
 legume/gme/gme.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index e490b48..252629e 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -55,6 +55,7 @@ class GuidedModeExp(object):
 
         # Initialize all the attributes defined as properties below
         self._symm = []
+        self._kz_symms = []
         self._freqs = []
         self._freqs_im = []
         self._unbalance_sp = []
@@ -872,6 +873,16 @@ class GuidedModeExp(object):
             :meth:`GuidedModeExp.set_run_options`.
         """
 
+        # Discard the results of any earlier run, so that they cannot be mixed
+        # with the ones of this run
+        self._freqs = []
+        self._freqs_im = []
+        self._unbalance_sp = []
+        self._eigvecs = []
+        self._kz_symms = []
+        self._rad_coup = {}
+        self._rad_gvec = {}
+
         # Set the default options and then overwrite with the user supplied
         self.set_run_options(**kwargs)
 
@@ -881,6 +892,7 @@ class GuidedModeExp(object):
         self._kpoints = kpoints
 
         self.modes_numg = []
+        self.ind_modes = []
         self.N_basis = []
         self.gmode_include = []
 
@@ -992,7 +1004,7 @@ class GuidedModeExp(object):
         freqs = []
         freqs_im = []
         kz_symms = []
-        self._eigvecs = []
+        eigvecs = []
         self.even_counts = []
         self.odd_counts = []
 
@@ -1154,7 +1166,7 @@ class GuidedModeExp(object):
             self.t_eig += time.time() - t_eig
 
             freqs.append(freq)
-            self._eigvecs.append(evec)
+            eigvecs.append(evec)
             if self.kz_symmetry:
                 if self.kz_symmetry.lower() == 'both':
                     kz_symms.append(symm)
@@ -1168,6 +1180,7 @@ class GuidedModeExp(object):
         # convention for the units (2pi a/c)
         self._freqs = bd.array(freqs)
         self._kz_symms = bd.array(kz_symms)
+        self._eigvecs = eigvecs
         # Guided modes are calculated inside _construct_mat()
         self.t_creat_mat = self.t_creat_mat - self.t_guided
         self.t_eps_inv = t_eps_inv
-- 
2.43.0


From 65791bb70422a9334cc76d16a6a7e27d7695749f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:38 +0000
Subject: [PATCH 03/28] fix: PlaneWaveExp, ExcitonSchroedEq and HopfieldPol
 runs do not mix results of different runs

---
 legume/exc/exc.py | 16 +++++++++++++---
 legume/pol/pol.py | 35 ++++++++++++++++++++++++++---------
 legume/pwe/pwe.py | 15 +++++++++++++--
 3 files changed, 52 insertions(+), 14 deletions(-)

diff --git a/legume/exc/exc.py b/legume/exc/exc.py
index 9530376..50b5b08 100644
--- a/legume/exc/exc.py
+++ b/legume/exc/exc.py
@@ -76,6 +76,11 @@ class ExcitonSchroedEq(object):
         self.osc_str = osc_str
         self.truncate_g = truncate_g
 
+        # Results, defined after run
+        self._eners = []
+        self._eigvecs = []
+        self._kpoints = []
+
         if osc_str is not None:
             if type(self.osc_str) == list:
                 self.osc_str = np.asarray(self.osc_str)
@@ -322,6 +327,11 @@ class ExcitonSchroedEq(object):
         numeig_ex : int, optional
             Number of eigen-frequencies to be stored (starting from lowest).
         """
+        # Discard the results of any earlier run, so that they cannot be mixed
+        # with the ones of this run
+        self._eners = []
+        self._eigvecs = []
+
         self.set_run_options(**kwargs)
 
         self.t_eig = 0  # For timing of the diagonalization
@@ -334,7 +344,7 @@ class ExcitonSchroedEq(object):
         self._compute_matrix()
 
         eners = []
-        self._eigvecs = []
+        eigvecs = []
         num_k = kpoints.shape[1]  # Number of wavevectors
         for ik, k in enumerate(kpoints.T):
             prbd.update_prog(ik, num_k, self.verbose_ex,
@@ -374,14 +384,14 @@ class ExcitonSchroedEq(object):
             ener = ener1[i_sort]
             evec = evecs[:, i_sort]
             eners.append(ener)
-            self._eigvecs.append(evec)
+            eigvecs.append(evec)
 
         self.total_time = time.time() - t_start
         prbd.ESE_report(self)
 
         # Store the energies, E0 adds free exciton energy, loss are non-radiative losses
         self._eners = bd.array(eners) + self.E0 + 1j * self.loss
-        self._eigvecs = bd.array(self._eigvecs)
+        self._eigvecs = bd.array(eigvecs)
         self.mat = mat
 
     def get_pot_xy(self, Nx=100, Ny=100):
diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index 9ef059f..d7af353 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -31,6 +31,15 @@ class HopfieldPol(object):
 
         self.exc_list = []
 
+        # Results, defined after run
+        self._eners = []
+        self._eners_im = []
+        self._eigvecs = []
+        self._fractions_ex = []
+        self._fractions_ph = []
+        self._kpoints = []
+        self._gvec = self.gme.gvec
+
         if len(phc.qws) == 0:
             raise ValueError(
                 "There are no active layers in the PhotCryst"
@@ -278,12 +287,20 @@ class HopfieldPol(object):
             Numpy array of shape (2, Nk) with the [kx, ky] coordinates of the 
             k-vectors over which the simulation is run.
         """
-        eners = []
-        eners_im = []
-        self._kpoints = kpoints
+        # Discard the results of any earlier run, so that they cannot be mixed
+        # with the ones of this run
+        self._eners = []
+        self._eners_im = []
         self._eigvecs = []
         self._fractions_ex = []
         self._fractions_ph = []
+
+        eners = []
+        eners_im = []
+        eigvecs = []
+        all_fractions_ex = []
+        all_fractions_ph = []
+        self._kpoints = kpoints
         self.verbose = verbose
         self._gvec = self.gme.gvec
 
@@ -333,16 +350,16 @@ class HopfieldPol(object):
             fraction_ph = fractions_ph[i_sort]
             eners.append(ener)
             eners_im.append(ener_im)
-            self._eigvecs.append(evec)
-            self._fractions_ex.append(fraction_ex)
-            self._fractions_ph.append(fraction_ph)
+            eigvecs.append(evec)
+            all_fractions_ex.append(fraction_ex)
+            all_fractions_ph.append(fraction_ph)
 
         # Store the energies
-        self._fractions_ex = bd.array(self._fractions_ex)
-        self._fractions_ph = bd.array(self._fractions_ph)
+        self._fractions_ex = bd.array(all_fractions_ex)
+        self._fractions_ph = bd.array(all_fractions_ph)
         self._eners = bd.array(eners)
         self._eners_im = bd.array(eners_im)
-        self._eigvecs = bd.array(self._eigvecs)
+        self._eigvecs = bd.array(eigvecs)
         self.mat = mat
 
         self.total_time = time.time() - t_start
diff --git a/legume/pwe/pwe.py b/legume/pwe/pwe.py
index ec9cf5a..2665687 100644
--- a/legume/pwe/pwe.py
+++ b/legume/pwe/pwe.py
@@ -31,6 +31,11 @@ class PlaneWaveExp(object):
 
         self.eps_eff = eps_eff
 
+        # Results, defined after run
+        self._freqs = []
+        self._eigvecs = []
+        self._kpoints = []
+
         # Initialize the reciprocal lattice vectors and compute the eps FT
         self._init_reciprocal()
         self._compute_ft()
@@ -156,6 +161,11 @@ class PlaneWaveExp(object):
             Number of eigen-frequencies to be stored (starting from lowest).
         """
 
+        # Discard the results of any earlier run, so that they cannot be mixed
+        # with the ones of this run
+        self._freqs = []
+        self._eigvecs = []
+
         self._kpoints = kpoints
         self.pol = pol.lower()
         # Change this if switching to a solver that allows for variable numeig
@@ -165,7 +175,7 @@ class PlaneWaveExp(object):
         self._compute_eps_inv()
 
         freqs = []
-        self._eigvecs = []
+        eigvecs = []
         for ik, k in enumerate(kpoints.T):
             # Construct the matrix for diagonalization
             if self.pol == 'te':
@@ -191,11 +201,12 @@ class PlaneWaveExp(object):
             freq = freq1[i_sort]
             evec = evecs[:, i_sort]
             freqs.append(freq)
-            self._eigvecs.append(evec)
+            eigvecs.append(evec)
 
         # Store the eigenfrequencies taking the standard reduced frequency
         # convention for the units (2pi a/c)
         self._freqs = bd.array(freqs)
+        self._eigvecs = eigvecs
         self.mat = mat
 
     def get_eps_xy(self, Nx=100, Ny=100, z=0):
-- 
2.43.0


From 14375ee7957ef02a3d8b81eab9fc2c1585e82203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:38 +0000
Subject: [PATCH 04/28] fix: HopfieldPol.run does not modify the option
 dictionaries of the caller

---
 legume/pol/pol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index d7af353..10f0471 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -305,8 +305,8 @@ class HopfieldPol(object):
         self._gvec = self.gme.gvec
 
         #Force the same kpoints for gme and exc solvers
-        gme_options['kpoints'] = self.kpoints
-        exc_options['kpoints'] = self.kpoints
+        gme_options = dict(gme_options, kpoints=self.kpoints)
+        exc_options = dict(exc_options, kpoints=self.kpoints)
 
         #Run gme
         self.gme.run(**gme_options)
-- 
2.43.0


From b1995a985d050faeeae98cc46797aadb09a4b8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:38 +0000
Subject: [PATCH 05/28] fix: Hopfield matrix uses the sum of the D blocks of
 all the quantum wells

---
 legume/pol/pol.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index 10f0471..eedb3ef 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -238,11 +238,13 @@ class HopfieldPol(object):
         diag_phot = diag_phot + 2 * bd.real(D_final_block)
 
         row_0 = bd.hstack(
-            (diag_phot, -1j * C_final_block, -2 * D, -1j * C_final_block))
+            (diag_phot, -1j * C_final_block, -2 * D_final_block,
+             -1j * C_final_block))
         row_1 = bd.hstack((1j * C_dagger_final_block, diag_exc,
                            -1j * C_dagger_final_block, diag_exc * 0.))
         row_2 = bd.hstack(
-            (2 * D, -1j * C_final_block, -diag_phot, -1j * C_final_block))
+            (2 * D_final_block, -1j * C_final_block, -diag_phot,
+             -1j * C_final_block))
         row_3 = bd.hstack((-1j * C_dagger_final_block, diag_exc * 0.,
                            1j * C_dagger_final_block, -diag_exc))
         M = bd.vstack((row_0, row_1, row_2, row_3))
-- 
2.43.0


From 0e106274c53d3c638c9af08b2adf9a210609707b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:07 +0000
Subject: [PATCH 06/28] fix: exciton potential of a layer with several shapes
 is normalised once

---
 legume/phc/layer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/legume/phc/layer.py b/legume/phc/layer.py
index af8843f..5cba022 100644
--- a/legume/phc/layer.py
+++ b/legume/phc/layer.py
@@ -166,6 +166,7 @@ class ShapesLayer(Layer):
             # inside the shape and zero outside
             FT = FT + Vmax * shape.compute_ft(gvec)
 
+        if len(self.shapes) > 0:
             FT = FT / self.lattice.ec_area
             # If the potential is negative we must shift all energies
 
-- 
2.43.0


From ac5d09202698ea031c87cc044d9aced367d374d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:07 +0000
Subject: [PATCH 07/28] fix: a rejected add_shape leaves the layer unchanged

---
 legume/phc/layer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/legume/phc/layer.py b/legume/phc/layer.py
index 5cba022..f9e3414 100644
--- a/legume/phc/layer.py
+++ b/legume/phc/layer.py
@@ -124,18 +124,22 @@ class ShapesLayer(Layer):
         if isinstance(shapes, Shape):
             shapes = [shapes]
 
+        # Only change the layer once all the shapes have been accepted
+        shapes = list(shapes)
+        eps_avg = self.eps_avg
         for shape in shapes:
             if isinstance(shape, Shape):
-                self.shapes.append(shape)
                 # We squeeze to have a zero-dimensional array, which is consistent
                 # with eps_avg in layers without shapes
-                self.eps_avg = (self.eps_avg + (shape.eps - self.eps_b) * \
+                eps_avg = (eps_avg + (shape.eps - self.eps_b) * \
                                 shape.area/self.lattice.ec_area).squeeze()
             else:
                 raise ValueError(
                     "Argument to add_shape must only contain "
                     "instances of legume.Shape (e.g legume.Circle or legume.Poly)"
                 )
+        self.shapes.extend(shapes)
+        self.eps_avg = eps_avg
 
     def compute_ft(self, gvec):
         """
-- 
2.43.0


From 13c6f99f79d6dcdeb455b6d9cd291d208af89d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:07 +0000
Subject: [PATCH 08/28] fix: Ellipse can be printed

---
 legume/phc/shapes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/legume/phc/shapes.py b/legume/phc/shapes.py
index aeb1b56..88a363f 100644
--- a/legume/phc/shapes.py
+++ b/legume/phc/shapes.py
@@ -141,7 +141,8 @@ class Ellipse(Shape):
         super().__init__(eps=eps)
 
     def __repr__(self):
-        return f"Ellipse(eps = {eps:.2f}, x = {x:.4f}, y = {y:.4f}, rx = {rx:.4f},ry = {ry:.4f}, phi = {phi:.4f}, )"
+        return "Ellipse(eps = %.2f, x = %.4f, y = %.4f, rx = %.4f, ry = %.4f, phi = %.4f)" % \
+               (self.eps, self.x_cent, self.y_cent, self.rx, self.ry, self.phi)
 
     def compute_ft(self, gvec):
         (gx, gy) = self._parse_ft_gvec(gvec)
-- 
2.43.0


From 9fa2ae4c1f04ecb27b219a31f5b32b209134ecc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:07 +0000
Subject: [PATCH 09/28] fix: Minimize.adam does not clip the starting point of
 the caller in place

---
 legume/minimize.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/legume/minimize.py b/legume/minimize.py
index 7e0e1e1..ade1152 100644
--- a/legume/minimize.py
+++ b/legume/minimize.py
@@ -131,8 +131,10 @@ class Minimize(object):
             if bounds:
                 lbs = np.array([b[0] for b in self.bounds])
                 ubs = np.array([b[1] for b in self.bounds])
-                self.params[self.params < lbs] = lbs[self.params < lbs]
-                self.params[self.params > ubs] = ubs[self.params > ubs]
+                # Do not clip in place: at this point these can still be the
+                # pstart of the caller
+                self.params = np.where(self.params < lbs, lbs, self.params)
+                self.params = np.where(self.params > ubs, ubs, self.params)
 
             if callback is not None:
                 callback(self)
-- 
2.43.0


From 4266c72eb1c6c86608adf07ab04843d5e18d7a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:07 +0000
Subject: [PATCH 10/28] fix: Minimize.lbfgs passes itself to the objective also
 in the initial evaluation

---
 legume/minimize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/legume/minimize.py b/legume/minimize.py
index ade1152..f18c883 100644
--- a/legume/minimize.py
+++ b/legume/minimize.py
@@ -202,7 +202,10 @@ class Minimize(object):
         self.of_list = []
 
         # Get initial of value
-        of = self.objective(self.params, *args)
+        if pass_self == True:
+            of = self.objective(self.params, *args, self)
+        else:
+            of = self.objective(self.params, *args)
         self.of_list.append(self._get_value(of))
 
         def of(params, *args, **kwargs):
-- 
2.43.0


From 04b75d767eabd18d5ff82d9533652b45d7d68890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:07 +0000
Subject: [PATCH 11/28] fix: generate_gds_raster works with its default levels
 and without cell_bound

---
 legume/gds.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/legume/gds.py b/legume/gds.py
index 550bbac..2111787 100644
--- a/legume/gds.py
+++ b/legume/gds.py
@@ -99,7 +99,9 @@ def generate_gds_raster(lattice,
         Default is [0.5].
     """
 
-    contours = skimage.measure.find_contours(raster, levels)
+    contours = []
+    for level in np.atleast_1d(levels):
+        contours.extend(skimage.measure.find_contours(raster, level))
     polygons = []
 
     T = np.hstack((lattice.a1[:, np.newaxis], lattice.a2[:, np.newaxis]))
@@ -124,7 +126,6 @@ def generate_gds_raster(lattice,
                                [-0.5, +0.5, +0.5, -0.5]])
         points = [(x, y) for (x, y) in zip(bounds[0, :], bounds[1, :])]
         boundary = gdspy.Polygon(points, layer=0, datatype=1)
-
-    cell.add(boundary)
+        cell.add(boundary)
 
     gdspy.write_gds(filename, unit=unit)
-- 
2.43.0


From be28610fd568d79eb42080d3b87e74a8e6cf3f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:07 +0000
Subject: [PATCH 12/28] fix: timing reports do not fail when the clock does not
 advance or jumps

---
 legume/print_utils.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/legume/print_utils.py b/legume/print_utils.py
index f235c52..aea5f9a 100644
--- a/legume/print_utils.py
+++ b/legume/print_utils.py
@@ -16,6 +16,12 @@ except ImportError:
     RICH_AVAILABLE = False
 
 
+def _perc(t, t_tot):
+    """Percentage of t over t_tot, 0 if the clock did not advance
+    """
+    return t / t_tot * 100 if t_tot > 0 else 0.
+
+
 def load_bar(perc, precision=20):
     box = "\u2588"
     hor = "\u2500"
@@ -25,6 +31,7 @@ def load_bar(perc, precision=20):
     up_left = "\u2518"
     pipe = "\u2502"
 
+    perc = min(max(perc, 0), 100)
     filled_blocks = int(perc / 100 *
                         precision)  # Considering 100 characters width for 100%
     bar = box * filled_blocks + '-' * (precision - filled_blocks)
@@ -57,12 +64,12 @@ def update_prog(ik, num_k, verbose, text):
 
 def print_GME_report_rich(gme):
     t_tot = gme.total_time
-    t_guided, t_guided_perc = gme.t_guided, gme.t_guided / t_tot * 100
-    t_eps_inv, t_eps_inv_perc = gme.t_eps_inv, gme.t_eps_inv / t_tot * 100
-    t_diag, t_diag_perc = gme.t_eig - gme.t_symmetry, (
-        gme.t_eig - gme.t_symmetry) / t_tot * 100
-    t_creat_mat, t_creat_mat_perc = gme.t_creat_mat, gme.t_creat_mat / t_tot * 100
-    t_symmetry, t_symmetry_perc = gme.t_symmetry, gme.t_symmetry / t_tot * 100
+    t_guided, t_guided_perc = gme.t_guided, _perc(gme.t_guided, t_tot)
+    t_eps_inv, t_eps_inv_perc = gme.t_eps_inv, _perc(gme.t_eps_inv, t_tot)
+    t_diag, t_diag_perc = gme.t_eig - gme.t_symmetry, _perc(
+        gme.t_eig - gme.t_symmetry, t_tot)
+    t_creat_mat, t_creat_mat_perc = gme.t_creat_mat, _perc(gme.t_creat_mat, t_tot)
+    t_symmetry, t_symmetry_perc = gme.t_symmetry, _perc(gme.t_symmetry, t_tot)
 
     verbose_print("", gme.verbose, flush=True)
     if gme.verbose:
@@ -115,12 +122,12 @@ def print_GME_report_rich(gme):
 
 def print_GME_report(gme):
     t_tot = gme.total_time
-    t_guided, t_guided_perc = gme.t_guided, gme.t_guided / t_tot * 100
-    t_eps_inv, t_eps_inv_perc = gme.t_eps_inv, gme.t_eps_inv / t_tot * 100
-    t_diag, t_diag_perc = gme.t_eig - gme.t_symmetry, (
-        gme.t_eig - gme.t_symmetry) / t_tot * 100
-    t_creat_mat, t_creat_mat_perc = gme.t_creat_mat, gme.t_creat_mat / t_tot * 100
-    t_symmetry, t_symmetry_perc = gme.t_symmetry, gme.t_symmetry / t_tot * 100
+    t_guided, t_guided_perc = gme.t_guided, _perc(gme.t_guided, t_tot)
+    t_eps_inv, t_eps_inv_perc = gme.t_eps_inv, _perc(gme.t_eps_inv, t_tot)
+    t_diag, t_diag_perc = gme.t_eig - gme.t_symmetry, _perc(
+        gme.t_eig - gme.t_symmetry, t_tot)
+    t_creat_mat, t_creat_mat_perc = gme.t_creat_mat, _perc(gme.t_creat_mat, t_tot)
+    t_symmetry, t_symmetry_perc = gme.t_symmetry, _perc(gme.t_symmetry, t_tot)
     verbose_print("", gme.verbose, flush=True)
     verbose_print(
         f"{t_tot:.3f}s total time for real part of frequencies in GuidedModeExp, of which",
@@ -188,7 +195,7 @@ def print_ESE_report_rich(exc):
         table.add_column("% vs total T", justify="right", style="green")
         table.add_row(f"Diagonalization of the Hamiltonian",
                       f"{exc.t_eig:.4f}",
-                      f"{exc.t_eig/exc.total_time*100:.0f}%",
+                      f"{_perc(exc.t_eig, exc.total_time):.0f}%",
                       end_section=True)
         table.add_row(
             f"Total time for excitonic energies for {exc.kpoints.shape[1]} k-points",
-- 
2.43.0


From 81b2eee372f62bda49e8fda2e2e54446782eba16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:38 +0000
Subject: [PATCH 13/28] fix: Minimize.adam accepts one-sided bounds

---
 legume/minimize.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/legume/minimize.py b/legume/minimize.py
index f18c883..84cd96d 100644
--- a/legume/minimize.py
+++ b/legume/minimize.py
@@ -129,8 +129,11 @@ class Minimize(object):
                 self.params = self.params - step_size * grad_adam
 
             if bounds:
-                lbs = np.array([b[0] for b in self.bounds])
-                ubs = np.array([b[1] for b in self.bounds])
+                # As in SciPy, None stands for no bound on that side
+                lbs = np.array(
+                    [-np.inf if b[0] is None else b[0] for b in self.bounds])
+                ubs = np.array(
+                    [np.inf if b[1] is None else b[1] for b in self.bounds])
                 # Do not clip in place: at this point these can still be the
                 # pstart of the caller
                 self.params = np.where(self.params < lbs, lbs, self.params)
-- 
2.43.0


From eb742cda6990ab0dcd588736024b159ea1281b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:58 +0000
Subject: [PATCH 14/28] fix: Minimize rejects bounds that are not numbers
 before starting

---
 legume/minimize.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/legume/minimize.py b/legume/minimize.py
index 84cd96d..a171666 100644
--- a/legume/minimize.py
+++ b/legume/minimize.py
@@ -30,6 +30,12 @@ class Minimize(object):
         else:
             return x
 
+    @staticmethod
+    def _is_limit(b):
+        """A limit is a number, or None if there is no limit
+        """
+        return b is None or (np.ndim(b) == 0 and not isinstance(b, str))
+
     def _parse_bounds(self, bounds):
         """Parse the input bounds, which can be 'None', a list with two
         elements, or a list of tuples with 2 elements each
@@ -38,12 +44,15 @@ class Minimize(object):
             if bounds == None:
                 return None
             elif not isinstance(bounds[0], tuple):
-                if len(bounds) == 2:
+                if len(bounds) == 2 and all([self._is_limit(b) for b in bounds]):
                     return [tuple(bounds) for i in range(self.params.size)]
                 else:
                     raise ValueError
             elif len(bounds) == self.params.size:
-                if all([len(b) == 2 for b in bounds]):
+                if all([
+                        len(b) == 2 and self._is_limit(b[0])
+                        and self._is_limit(b[1]) for b in bounds
+                ]):
                     return bounds
                 else:
                     raise ValueError
-- 
2.43.0


From 508bc92418a7b9822b03cfa6e506d92b5f3fb9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 15/28] fix: permittivity of layers with strongly oblique
 lattices includes all the periodic copies

---
 legume/phc/layer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/legume/phc/layer.py b/legume/phc/layer.py
index f9e3414..98c1f84 100644
--- a/legume/phc/layer.py
+++ b/legume/phc/layer.py
@@ -197,11 +197,16 @@ class ShapesLayer(Layer):
         a1 = self.lattice.a1
         a2 = self.lattice.a2
 
-        a_p = min([np.linalg.norm(a1), np.linalg.norm(a2)])
+        # Number of periods within the largest distance from the origin, along
+        # the direction in which the lattice planes are closest to each other
+        b_p = max([
+            np.linalg.norm(self.lattice.b1),
+            np.linalg.norm(self.lattice.b2)
+        ]) / (2 * np.pi)
         nmax = np.int_(
             np.sqrt(
                 np.square(np.max(abs(xmesh))) + np.square(np.max(abs(ymesh))))
-            / a_p) + 1
+            * b_p) + 1
 
         for shape in self.shapes:
             for n1 in range(-nmax, nmax + 1):
-- 
2.43.0


From 7f2d65467e3ff0427f22872efe4781a96dc452c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:47 +0000
Subject: [PATCH 16/28] fix: gradients with interpolated guided modes do not
 fail at the end of the grid

---
 legume/primitives.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/legume/primitives.py b/legume/primitives.py
index aa750cb..4f1d651 100644
--- a/legume/primitives.py
+++ b/legume/primitives.py
@@ -242,9 +242,11 @@ def vjp_maker_interp(ans, x, xp, yp):
     def vjp(g):
         dydyp = np.zeros((x.size, xp.size))
         ix = np.arange(x.size)
-        indx = np.searchsorted(xp, x[ix]) - 1
-        dydyp[ix, indx] = 1 - (x[ix] - xp[indx]) / (xp[indx + 1] - xp[indx])
-        dydyp[ix, indx + 1] = (x[ix] - xp[indx]) / (xp[indx + 1] - xp[indx])
+        # np.interp is constant outside of the range of xp
+        indx = np.clip(np.searchsorted(xp, x[ix]) - 1, 0, xp.size - 2)
+        w = np.clip((x[ix] - xp[indx]) / (xp[indx + 1] - xp[indx]), 0, 1)
+        dydyp[ix, indx] = 1 - w
+        dydyp[ix, indx + 1] = w
         return np.dot(g, dydyp)
 
     return vjp
-- 
2.43.0


From 8c1bf0f480b6518a6b47634191a0f90995246090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:14 +0000
Subject: [PATCH 17/28] fix: patterned upper cladding: no incoming wave from
 the root finder's residue

---
 legume/gme/slab_modes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/legume/gme/slab_modes.py b/legume/gme/slab_modes.py
index 0a2afc0..87dd26e 100644
--- a/legume/gme/slab_modes.py
+++ b/legume/gme/slab_modes.py
@@ -418,6 +418,11 @@ def AB_matrices(omega, g, eps_array, d_array, chi_array=None, pol='TE'):
             term = bd.dot(T_matrices[i + 1], term)
 
         ABs.append(term)
+
+    # A guided mode has no incoming wave in the upper cladding: B is zero there
+    # only up to the tolerance of the root finding, and that residue would be
+    # multiplied by a diverging integral in the matrix elements
+    ABs[-1] = ABs[-1] * bd.array([[1], [0]])
     return bd.array(ABs, dtype=bd.complex)
 
 
-- 
2.43.0


From f62e5f669292cf8751143c33f1cbb7848d6e9e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:43 +0000
Subject: [PATCH 18/28] fix: permittivity of a layer includes the periodic
 copies of shapes far from the origin

---
 legume/phc/layer.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/legume/phc/layer.py b/legume/phc/layer.py
index 98c1f84..caa47e0 100644
--- a/legume/phc/layer.py
+++ b/legume/phc/layer.py
@@ -203,12 +203,14 @@ class ShapesLayer(Layer):
             np.linalg.norm(self.lattice.b1),
             np.linalg.norm(self.lattice.b2)
         ]) / (2 * np.pi)
-        nmax = np.int_(
+        nmax_0 = np.int_(
             np.sqrt(
                 np.square(np.max(abs(xmesh))) + np.square(np.max(abs(ymesh))))
             * b_p) + 1
 
         for shape in self.shapes:
+            # More of them if the shape itself is far from the origin
+            nmax = nmax_0 + np.int_(self._reach(shape) * b_p)
             for n1 in range(-nmax, nmax + 1):
                 for n2 in range(-nmax, nmax + 1):
                     in_shape = shape.is_inside(xmesh + n1 * a1[0] + n2 * a2[0],
@@ -217,6 +219,24 @@ class ShapesLayer(Layer):
 
         return eps_r
 
+    @staticmethod
+    def _reach(shape):
+        """
+        Largest distance of the points of a shape from the origin.
+        """
+        if isinstance(shape, Poly):
+            (x, y) = (utils.get_value(e) for e in (shape.x_edges, shape.y_edges))
+            return np.max(np.sqrt(np.square(x) + np.square(y)))
+
+        if isinstance(shape, (Circle, Ellipse)):
+            (x, y) = (utils.get_value(c) for c in (shape.x_cent, shape.y_cent))
+            radii = [shape.r] if isinstance(shape, Circle) else [
+                shape.rx, shape.ry
+            ]
+            return np.sqrt(x**2 + y**2) + max(utils.get_value(r) for r in radii)
+
+        return 0.
+
 
 class FreeformLayer(Layer):
     """
-- 
2.43.0


From e6f50cc7753ba798ee1cf4c308446a1ef71d5d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 19/28] fix: GDS export does not go through gdspy's
 process-wide library

generate_gds and generate_gds_raster replaced gdspy.current_library, so a
library the caller was building there was lost, and two exports at the same
time mixed their cells or failed. Use a local GdsLibrary.
---
 legume/gds.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/legume/gds.py b/legume/gds.py
index 2111787..da775ad 100644
--- a/legume/gds.py
+++ b/legume/gds.py
@@ -37,8 +37,8 @@ def generate_gds(phc, filename, unit=1e-6, tolerance=0.01):
         Default is 0.01.
     """
 
-    gdspy.current_library = gdspy.GdsLibrary()
-    cell = gdspy.Cell('CELL')
+    library = gdspy.GdsLibrary(unit=unit)
+    cell = gdspy.Cell('CELL', exclude_from_current=True)
 
     # TODO: Can also add a `datatype`, ranging from 0-255, to each shape for use
     # by whatever program ends up reading the GDS
@@ -64,7 +64,8 @@ def generate_gds(phc, filename, unit=1e-6, tolerance=0.01):
                     "Unknown shape type, %s, found in layer %d of phc" %
                     (type(shape), i))
 
-    gdspy.write_gds(filename, unit=unit)
+    library.add(cell)
+    library.write_gds(filename)
 
 
 def generate_gds_raster(lattice,
@@ -116,8 +117,8 @@ def generate_gds_raster(lattice,
         poly = gdspy.Polygon(points, layer=0, datatype=0)
         polygons.append(poly)
 
-    gdspy.current_library = gdspy.GdsLibrary()
-    cell = gdspy.Cell('CELL')
+    library = gdspy.GdsLibrary(unit=unit)
+    cell = gdspy.Cell('CELL', exclude_from_current=True)
     cell.add(polygons)
 
     # TODO(ian): Need to do a boolean operation here
@@ -128,4 +129,5 @@ def generate_gds_raster(lattice,
         boundary = gdspy.Polygon(points, layer=0, datatype=1)
         cell.add(boundary)
 
-    gdspy.write_gds(filename, unit=unit)
+    library.add(cell)
+    library.write_gds(filename)
-- 
2.43.0


From 1a20b85505fb566b22ae8100ff71b92732a151dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:40 +0000
Subject: [PATCH 20/28] fix: draw the bands of a PlaneWaveExp, which has no
 light cone

---
 legume/viz.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/legume/viz.py b/legume/viz.py
index 8d4850c..e34f824 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -209,7 +209,8 @@ def bands(gme,
                         mec=markeredgecolor)
                 ax.set_ylim(bottom=0.0, top=conv * gme.freqs[:].max())
 
-    if cone:
+    # There are no claddings and thus no light cone in a PlaneWaveExp
+    if cone and not isinstance(gme, PlaneWaveExp):
         vec_LL = _calculate_LL(gme.kpoints, gme.phc, conv)
         ax.fill_between(X0,
                         vec_LL,
-- 
2.43.0


From 1842547ccb0b2f10604b0aa8981e690590be743a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:40 +0000
Subject: [PATCH 21/28] fix: colour the bands by Q also when every Q exceeds
 Q_clip

---
 legume/viz.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/legume/viz.py b/legume/viz.py
index e34f824..3f074c5 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -115,7 +115,7 @@ def bands(gme,
                 gme.run_im()
             Q = _calculate_Q(gme.freqs.flatten(),
                              np.array(gme.freqs_im).flatten())
-            Q_max = np.max(Q[Q < Q_clip])
+            Q_max = np.max(Q[Q < Q_clip], initial=0) or Q_clip
 
             p = ax.scatter(X.flatten(),
                            conv * gme.freqs.flatten(),
@@ -137,7 +137,7 @@ def bands(gme,
                     gme.run_im()
                 Q = _calculate_Q(gme.freqs.flatten(),
                                  np.array(gme.freqs_im).flatten())
-                Q_max = np.max(Q[Q < Q_clip])
+                Q_max = np.max(Q[Q < Q_clip], initial=0) or Q_clip
                 edgecolors = mpl.cm.get_cmap('bwr')(
                     (np.asarray(gme.kz_symms).flatten() + 1) / 2)
 
@@ -160,7 +160,7 @@ def bands(gme,
                     gme.run_im()
                 Q = _calculate_Q(gme.freqs.flatten(),
                                  np.array(gme.freqs_im).flatten())
-                Q_max = np.max(Q[Q < Q_clip])
+                Q_max = np.max(Q[Q < Q_clip], initial=0) or Q_clip
 
                 p = ax.scatter(X.flatten(),
                                conv * gme.freqs.flatten(),
-- 
2.43.0


From 547e51084446d00d32d1abb50b214a3853f3e294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:40 +0000
Subject: [PATCH 22/28] fix: add the colorbar to the figure of the axes, not to
 the current one

---
 legume/viz.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/legume/viz.py b/legume/viz.py
index 3f074c5..ffebf5a 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -125,10 +125,10 @@ def bands(gme,
                            norm=mpl.colors.LogNorm(vmax=Q_max),
                            edgecolors=markeredgecolor,
                            linewidth=markeredgewidth)
-            plt.colorbar(p,
-                         ax=ax,
-                         label="Radiative quality factor",
-                         extend="max")
+            ax.figure.colorbar(p,
+                               ax=ax,
+                               label="Radiative quality factor",
+                               extend="max")
             ax.set_ylim(bottom=0.0, top=conv * gme.freqs[:].max())
 
         elif vert_symm.lower() == "both":
@@ -149,10 +149,10 @@ def bands(gme,
                                norm=mpl.colors.LogNorm(vmax=Q_max),
                                edgecolors=edgecolors,
                                linewidth=markeredgewidth)
-                plt.colorbar(p,
-                             ax=ax,
-                             label="Radiative quality factor",
-                             extend="max")
+                ax.figure.colorbar(p,
+                                   ax=ax,
+                                   label="Radiative quality factor",
+                                   extend="max")
                 ax.set_ylim(bottom=0.0, top=conv * gme.freqs[:].max())
 
             else:
@@ -170,10 +170,10 @@ def bands(gme,
                                norm=mpl.colors.LogNorm(vmax=Q_max),
                                edgecolors=markeredgecolor,
                                linewidth=markeredgewidth)
-                plt.colorbar(p,
-                             ax=ax,
-                             label="Radiative quality factor",
-                             extend="max")
+                ax.figure.colorbar(p,
+                                   ax=ax,
+                                   label="Radiative quality factor",
+                                   extend="max")
                 ax.set_ylim(bottom=0.0, top=conv * gme.freqs[:].max())
 
     else:
@@ -313,7 +313,10 @@ def pol_bands(pol,
                        norm=mpl.colors.LogNorm(vmax=Q_max, vmin=Q_min),
                        edgecolors=markeredgecolor,
                        linewidth=markeredgewidth)
-        plt.colorbar(p, ax=ax, label="Radiative quality factor", extend="max")
+        ax.figure.colorbar(p,
+                           ax=ax,
+                           label="Radiative quality factor",
+                           extend="max")
     elif fraction:
         fractions = pol.fractions_ex
         p = ax.scatter(X.flatten(),
@@ -325,7 +328,7 @@ def pol_bands(pol,
                        vmax=1,
                        edgecolors=markeredgecolor,
                        linewidth=markeredgewidth)
-        plt.colorbar(p, ax=ax, label="Excitonic fraction")
+        ax.figure.colorbar(p, ax=ax, label="Excitonic fraction")
     else:
         ax.plot(X,
                 pol.eners,
@@ -373,9 +376,9 @@ def _plot_eps(eps_r,
         #     ax.get_position().y0, 0.02, ax.get_position().height])
         # plt.colorbar(im, cax=cax)
         if cax is not None:
-            plt.colorbar(im, ax=ax, cax=cax)
+            ax.figure.colorbar(im, ax=ax, cax=cax)
         else:
-            plt.colorbar(im, ax=ax)
+            ax.figure.colorbar(im, ax=ax)
 
     return im
 
-- 
2.43.0


From 76c82487a004bffd5512b41782d2d06cfd2e6cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:13 +0000
Subject: [PATCH 23/28] fix: eps_ft and pot_ft can draw into a given grid
 position

---
 legume/viz.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/legume/viz.py b/legume/viz.py
index ffebf5a..15dc9e8 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -952,9 +952,9 @@ def eps_ft(struct,
                                        width_ratios=[1 - cbwidth, cbwidth])
     elif gridspec is not None and fig is not None:
         if cbar == False:
-            gs = mpl.gridspec.GridSpecFromSubplotSpec(len(ars), 1, gridspec)
+            gs = mpl.gridspec.GridSpecFromSubplotSpec(N_layers, 1, gridspec)
         else:
-            gs = mpl.gridspec.GridSpecFromSubplotSpec(len(ars), 2, gridspec)
+            gs = mpl.gridspec.GridSpecFromSubplotSpec(N_layers, 2, gridspec)
     else:
         raise ValueError(
             "Parameters gridspec and fig should be both specified "
@@ -1078,9 +1078,9 @@ def pot_ft(struct,
                                        width_ratios=[1 - cbwidth, cbwidth])
     elif gridspec is not None and fig is not None:
         if cbar == False:
-            gs = mpl.gridspec.GridSpecFromSubplotSpec(len(ars), 1, gridspec)
+            gs = mpl.gridspec.GridSpecFromSubplotSpec(N_layers, 1, gridspec)
         else:
-            gs = mpl.gridspec.GridSpecFromSubplotSpec(len(ars), 2, gridspec)
+            gs = mpl.gridspec.GridSpecFromSubplotSpec(N_layers, 2, gridspec)
     else:
         raise ValueError(
             "Parameters gridspec and fig should be both specified "
-- 
2.43.0


From cdbdde7524c8bf9642b509f9fbe86f3d77f911ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:13 +0000
Subject: [PATCH 24/28] fix: bands does not use the colormap function that
 matplotlib removed

---
 legume/viz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/viz.py b/legume/viz.py
index 15dc9e8..750da53 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -138,7 +138,7 @@ def bands(gme,
                 Q = _calculate_Q(gme.freqs.flatten(),
                                  np.array(gme.freqs_im).flatten())
                 Q_max = np.max(Q[Q < Q_clip], initial=0) or Q_clip
-                edgecolors = mpl.cm.get_cmap('bwr')(
+                edgecolors = plt.get_cmap('bwr')(
                     (np.asarray(gme.kz_symms).flatten() + 1) / 2)
 
                 p = ax.scatter(X.flatten(),
-- 
2.43.0


From 6998357c5dbacb8f8c7fffa700b03841f68673c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:13 +0000
Subject: [PATCH 25/28] fix: field multiplies by the Bloch phase at every point
 of the xy plane

---
 legume/viz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/viz.py b/legume/viz.py
index 750da53..7b535af 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -1220,8 +1220,8 @@ def field(struct,
                     np.meshgrid(grid1, grid2, np.array(z))).squeeze()
         pl, o, v = 'xy', 'z', zval
         if periodic == False:
-            kenv = np.exp(1j * grid1 * struct.kpoints[0, kind] +
-                          1j * grid2 * struct.kpoints[1, kind])
+            kenv = np.exp(1j * grid1[None, :] * struct.kpoints[0, kind] +
+                          1j * grid2[:, None] * struct.kpoints[1, kind])
 
     elif x is not None and z is None and y is None:
         if str_type == 'pwe':
-- 
2.43.0


From a157be61fb77e0c82ec07132d524e78c0e27608c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:13 +0000
Subject: [PATCH 26/28] fix: get_pot_xy sums all Fourier coefficients with
 truncate_g='tbt'

---
 legume/exc/exc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/legume/exc/exc.py b/legume/exc/exc.py
index 50b5b08..87b37e5 100644
--- a/legume/exc/exc.py
+++ b/legume/exc/exc.py
@@ -422,8 +422,7 @@ class ExcitonSchroedEq(object):
             ft_coeffs = bd.hstack(
                 (self.T1, self.T2, bd.conj(self.T1), bd.conj(self.T2)))
             gvec = bd.hstack((self.G1, self.G2, -self.G1, -self.G2))
-            #ft_coeffs[0] sincewe have only one layer
-            pot_r = ftinv(ft_coeffs[0], gvec, xgrid, ygrid)
+            pot_r = ftinv(ft_coeffs, gvec, xgrid, ygrid)
         elif self.truncate_g == "abs":
             ft_coeffs = self.T1_unique
             gvec = self.G1_unique
-- 
2.43.0


From 7bc23ddfa096fdcf3eaae3f142e89eb442a12e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:13 +0000
Subject: [PATCH 27/28] fix: shapes draws an Ellipse

---
 legume/viz.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/legume/viz.py b/legume/viz.py
index 7b535af..6304625 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -4,7 +4,7 @@ import numpy as np
 from legume.utils import from_freq_to_e
 import warnings
 from .gme import GuidedModeExp
-from .phc import PhotCryst, Circle
+from .phc import PhotCryst, Circle, Ellipse
 from .pwe import PlaneWaveExp
 from .exc import ExcitonSchroedEq
 from .pol import HopfieldPol
@@ -659,6 +659,17 @@ def shapes(layer, ax=None, npts=101, color='k', lw=1, pad=True):
                                  color=color,
                                  lw=lw,
                                  npts=npts)
+        elif type(shape) == Ellipse:
+            # The center is given in the coordinates along the axes
+            cos, sin = np.cos(shape.phi), np.sin(shape.phi)
+            t = np.linspace(0, 2 * np.pi, npts)
+            x1 = shape.x_cent + shape.rx * np.cos(t)
+            y1 = shape.y_cent + shape.ry * np.sin(t)
+            xs, ys = x1 * cos - y1 * sin, x1 * sin + y1 * cos
+            ax.plot(xs, ys, c=color, lw=lw)
+            if pad == True:
+                for (x_p, y_p) in xy_p:
+                    ax.plot(xs + x_p, ys + y_p, c=color, lw=lw)
         else:
             # Everything else should be a Poly subclass
             ax.plot(shape.x_edges, shape.y_edges, c=color, lw=lw)
-- 
2.43.0


From 4748255f237f0d96e246debd3df3a5e53f547019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:56 +0000
Subject: [PATCH 28/28] fix: color bands by symmetry or fraction also for one k
 with 3 or 4 bands

---
 legume/viz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/viz.py b/legume/viz.py
index 6304625..4029fc5 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -192,7 +192,7 @@ def bands(gme,
             if show_symmetry:
                 ax.scatter(X.flatten(),
                            conv * gme.freqs.flatten(),
-                           c=gme.kz_symms,
+                           c=np.asarray(gme.kz_symms).flatten(),
                            cmap='bwr',
                            s=markersize**2,
                            edgecolors=markeredgecolor,
@@ -318,7 +318,7 @@ def pol_bands(pol,
                            label="Radiative quality factor",
                            extend="max")
     elif fraction:
-        fractions = pol.fractions_ex
+        fractions = np.asarray(pol.fractions_ex).flatten()
         p = ax.scatter(X.flatten(),
                        pol.eners.flatten(),
                        c=fractions,
-- 
2.43.0

