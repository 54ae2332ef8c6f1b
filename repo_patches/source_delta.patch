From 648464963b3a6a74eef13614fa0cf83ec46ba34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:08 +0000
Subject: [PATCH 01/20] fix: account for sub_sample_traj in the time axis of
 the ASE parser

---
 kinisi/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 3543f7a..5385204 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -288,8 +288,9 @@ class ASEParser(Parser):
 
         self.coords_check = coords[0]
 
-        super().__init__(self.get_disp(coords, latt, progress=progress), indices[0], indices[1], time_step, step_skip,
-                         min_dt, max_dt, n_steps, spacing, sampling, memory_limit, progress)
+        super().__init__(self.get_disp(coords, latt, progress=progress), indices[0], indices[1], time_step,
+                         step_skip * sub_sample_traj, min_dt, max_dt, n_steps, spacing, sampling, memory_limit,
+                         progress)
         self._volume = structure.get_volume()
 
     @staticmethod
-- 
2.43.0


From 5f45fd009a882b1d3b54bee81ac1ab521810a0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:08 +0000
Subject: [PATCH 02/20] fix: single-origin sampling returned the displacement
 of the wrong time interval

---
 kinisi/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 5385204..3a2fb63 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -200,7 +200,7 @@ class Parser:
                               "https://kinisi.readthedocs.io/en/latest/memory_limit.html).")
         for i, time_interval in enumerate(iterator):
             if self.sampling == 'single-origin':
-                disp = drift_corrected[self.indices, i:i + 1]
+                disp = drift_corrected[self.indices, time_interval - 1:time_interval]
                 if np.multiply(*disp[:, ::time_interval].shape[:2]) <= 1:
                     continue
                 disp_3d.append(disp)
-- 
2.43.0


From e1101877c039b8a9f637e3fa65952c88ee3c7487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:08 +0000
Subject: [PATCH 03/20] fix: linear time intervals were repeated when n_steps
 exceeds the max_dt range

---
 kinisi/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 3a2fb63..ab94a4d 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -161,7 +161,7 @@ class Parser:
         if min_dt == 0:
             min_dt = 1
         if spacing == 'linear':
-            return np.linspace(min_dt, max_dt, n_steps, dtype=int)
+            return np.unique(np.linspace(min_dt, max_dt, n_steps, dtype=int))
         elif spacing == 'logarithmic':
             return np.unique(np.geomspace(min_dt, max_dt, n_steps, dtype=int))
         else:
-- 
2.43.0


From da4d08803f8e0c5b0b136407d6b8cd95ed2c66e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:08 +0000
Subject: [PATCH 04/20] fix: explicit framework_indices with a flat
 specie_indices raised AttributeError

---
 kinisi/parser.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index ab94a4d..2392aa6 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -757,9 +757,8 @@ def _get_framework(structure: "ase.atoms.Atoms" or "pymatgen.core.structure.Stru
         drift_indices = np.array(framework_indices) - 1
     else:
         drift_indices = []
-
-    for i, site in enumerate(structure):
-        if i not in indices:
-            drift_indices.append(i)
+        for i, site in enumerate(structure):
+            if i not in indices:
+                drift_indices.append(i)
 
     return indices, drift_indices
-- 
2.43.0


From b3bb30b7964ceaad10ca25d1933317073e1aca9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:08 +0000
Subject: [PATCH 05/20] fix: empty framework_indices with molecules raised
 IndexError

---
 kinisi/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 2392aa6..47b9af5 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -700,7 +700,7 @@ def _get_molecules(structure: "ase.atoms.Atoms" or "pymatgen.core.structure.Stru
     n_molecules = indices.shape[0]
 
     if isinstance(framework_indices, (list, tuple)):
-        drift_indices = np.array(framework_indices) - 1
+        drift_indices = np.array(framework_indices, dtype=int) - 1
     else:
         for i, site in enumerate(structure):
             if i not in indices:
@@ -754,7 +754,7 @@ def _get_framework(structure: "ase.atoms.Atoms" or "pymatgen.core.structure.Stru
         diffusion and indices of framework atoms. 
     """
     if isinstance(framework_indices, (list, tuple)):
-        drift_indices = np.array(framework_indices) - 1
+        drift_indices = np.array(framework_indices, dtype=int) - 1
     else:
         drift_indices = []
         for i, site in enumerate(structure):
-- 
2.43.0


From 871c1e601796249484d9e08feb4730be5b528ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:08 +0000
Subject: [PATCH 06/20] fix: the MSCD ignored the requested dimension

---
 kinisi/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index e123f40..b806aef 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -748,7 +748,7 @@ class MSCDBootstrap(Bootstrap):
             disp_slice = self._displacements[i][:, :, self._slice].reshape(self._displacements[i].shape[0],
                                                                            self._displacements[i].shape[1], self.dims)
             d_squared = np.sum(disp_slice**2, axis=-1)
-            sq_chg_motion = np.sum(np.sum((ionic_charge * self._displacements[i].T).T, axis=0)**2, axis=-1)
+            sq_chg_motion = np.sum(np.sum((ionic_charge * disp_slice.T).T, axis=0)**2, axis=-1)
             if sq_chg_motion.size <= 1:
                 continue
             self._euclidian_displacements.append(Distribution(np.sqrt(d_squared.flatten())))
-- 
2.43.0


From cb68150ac322abd52fe86e1ac4ce8d86b40057fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:08 +0000
Subject: [PATCH 07/20] fix: n_o was not sub-sampled with sub_sample_dt

---
 kinisi/diffusion.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index b806aef..7bc21e1 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -68,7 +68,7 @@ class Bootstrap:
         self._n_bootstrap = np.array([])
         self._s_bootstrap = np.array([])
         self._v_bootstrap = np.array([])
-        self._n_o = n_o
+        self._n_o = n_o[::sub_sample_dt]
         self._ngp = np.array([])
         self._sub_sample_dt = sub_sample_dt
         self._dimension = dimension
@@ -576,7 +576,7 @@ class MSDBootstrap(Bootstrap):
                 continue
             self._euclidian_displacements.append(Distribution(np.sqrt(d_squared.flatten())))
             if bootstrap:
-                distro = self.sample_until_normal(d_squared, n_o[i], n_resamples, max_resamples, alpha, random_state)
+                distro = self.sample_until_normal(d_squared, self._n_o[i], n_resamples, max_resamples, alpha, random_state)
                 self._distributions.append(distro)
                 self._n_bootstrap = np.append(self._n_bootstrap, np.mean(distro.samples))
                 self._v_bootstrap = np.append(self._v_bootstrap, np.var(distro.samples, ddof=1))
@@ -595,7 +595,7 @@ class MSDBootstrap(Bootstrap):
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             else:
                 self._n = np.append(self._n, d_squared.mean())
-                self._v = np.append(self._v, np.var(d_squared, ddof=1) / n_o[i])
+                self._v = np.append(self._v, np.var(d_squared, ddof=1) / self._n_o[i])
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             self._ngp = np.append(self._ngp, self.ngp_calculation(d_squared))
             self._dt = np.append(self._dt, self._delta_t[i])
@@ -661,7 +661,7 @@ class MSTDBootstrap(Bootstrap):
                 continue
             self._euclidian_displacements.append(Distribution(np.sqrt(d_squared.flatten())))
             if bootstrap:
-                distro = self.sample_until_normal(coll_motion, n_o[i] / d_squared.shape[0], n_resamples, max_resamples,
+                distro = self.sample_until_normal(coll_motion, self._n_o[i] / d_squared.shape[0], n_resamples, max_resamples,
                                                   alpha, random_state)
                 self._distributions.append(distro)
                 self._n_bootstrap = np.append(self._n_bootstrap, np.mean(distro.samples))
@@ -681,7 +681,7 @@ class MSTDBootstrap(Bootstrap):
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             else:
                 self._n = np.append(self._n, coll_motion.mean())
-                self._v = np.append(self._v, np.var(coll_motion, ddof=1) / (n_o[i] / d_squared.shape[0]))
+                self._v = np.append(self._v, np.var(coll_motion, ddof=1) / (self._n_o[i] / d_squared.shape[0]))
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             self._ngp = np.append(self._ngp, self.ngp_calculation(d_squared.flatten()))
             self._dt = np.append(self._dt, self._delta_t[i])
@@ -753,7 +753,7 @@ class MSCDBootstrap(Bootstrap):
                 continue
             self._euclidian_displacements.append(Distribution(np.sqrt(d_squared.flatten())))
             if bootstrap:
-                distro = self.sample_until_normal(sq_chg_motion, n_o[i] / d_squared.shape[0], n_resamples,
+                distro = self.sample_until_normal(sq_chg_motion, self._n_o[i] / d_squared.shape[0], n_resamples,
                                                   max_resamples, alpha, random_state)
                 self._distributions.append(distro)
                 self._n_bootstrap = np.append(self._n_bootstrap, np.mean(distro.samples))
@@ -773,7 +773,7 @@ class MSCDBootstrap(Bootstrap):
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             else:
                 self._n = np.append(self._n, sq_chg_motion.mean())
-                self._v = np.append(self._v, np.var(sq_chg_motion, ddof=1) / (n_o[i] / d_squared.shape[0]))
+                self._v = np.append(self._v, np.var(sq_chg_motion, ddof=1) / (self._n_o[i] / d_squared.shape[0]))
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             self._ngp = np.append(self._ngp, self.ngp_calculation(d_squared.flatten()))
             self._dt = np.append(self._dt, self._delta_t[i])
-- 
2.43.0


From 5628b8f43fbe284c314b5ef76b1f1f5a17529dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:08 +0000
Subject: [PATCH 08/20] fix: from_dict sub-sampled stored data a second time
 and failed for MSCDBootstrap

---
 kinisi/diffusion.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index 7bc21e1..af22022 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -141,11 +141,13 @@ class Bootstrap:
 
         :return: New :py:class`Bootstrap` object.
         """
-        boot = cls(my_dict['delta_t'],
-                   my_dict['displacements'],
-                   my_dict['n_o'],
-                   sub_sample_dt=my_dict['sub_sample_dt'],
-                   dimension=my_dict['dimension'])
+        boot = cls.__new__(cls)
+        Bootstrap.__init__(boot,
+                           my_dict['delta_t'],
+                           my_dict['displacements'],
+                           my_dict['n_o'],
+                           dimension=my_dict['dimension'])
+        boot._sub_sample_dt = my_dict['sub_sample_dt']
         boot._max_obs = my_dict['max_obs']
         boot._euclidian_displacements = [Distribution.from_dict(d) for d in my_dict['euclidian_displacements']]
         boot._dt = my_dict['dt']
-- 
2.43.0


From 2a25dde1a0e82b9b73fe08db65317bbd95ed6594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:08 +0000
Subject: [PATCH 09/20] fix: Bootstrap.n_i raised AttributeError

---
 kinisi/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index af22022..ad5a8ad 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -226,7 +226,7 @@ class Bootstrap:
         """
         :return: The number of independent trajectories as a function of :py:attr:`dt`.
         """
-        return self._n_i
+        return self._n_o
 
     @property
     def intercept(self) -> Union[Distribution, None]:
-- 
2.43.0


From 601f57c56780ad39041aa8320fe067a9516e541c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:08 +0000
Subject: [PATCH 10/20] fix: minimum eigenvalue method used the first rather
 than the largest eigenvalue

---
 kinisi/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index ad5a8ad..1413aea 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -885,6 +885,6 @@ def minimum_eigenvalue_method(matrix: np.ndarray, cond_max=1e16) -> np.ndarray:
     eigenthings = np.linalg.eig(matrix)
     eigenvalues = eigenthings.eigenvalues
     new_eigenvalues = np.copy(eigenvalues)
-    T = eigenvalues[0] / cond_max
+    T = np.max(eigenvalues) / cond_max
     new_eigenvalues[np.where(new_eigenvalues < T)] = T
     return np.real(eigenthings.eigenvectors @ np.diag(new_eigenvalues) @ eigenthings.eigenvectors.T)
-- 
2.43.0


From 990c2e35b2ed144614c63cd93b82a14661335101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:08 +0000
Subject: [PATCH 11/20] fix: SuperArrhenius modified its default bounds,
 leaking them to later objects

---
 kinisi/arrhenius.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/arrhenius.py b/kinisi/arrhenius.py
index 67a9af9..91d1dd1 100644
--- a/kinisi/arrhenius.py
+++ b/kinisi/arrhenius.py
@@ -116,7 +116,7 @@ class SuperArrhenius(Relationship):
                                                                                                  (0, None)],
                  diffusion_error: np.ndarray = None):
         if bounds[2][1] is None:
-            bounds[2] = (0, temperature[0])
+            bounds = [bounds[0], bounds[1], (0, temperature[0])]
         super().__init__(super_arrhenius, temperature, diffusion, bounds, ordinate_error=diffusion_error)
 
     @property
-- 
2.43.0


From c11bfdd5d3f44253843a0d5954f063f39185b827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:08 +0000
Subject: [PATCH 12/20] fix: save and load truncated paths with a dot in a
 directory name

---
 kinisi/analyzer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kinisi/analyzer.py b/kinisi/analyzer.py
index aad495e..4fbe1ae 100644
--- a/kinisi/analyzer.py
+++ b/kinisi/analyzer.py
@@ -6,6 +6,7 @@ This module contains the base class for the different :py:class:`Analyzer` objec
 # Distributed under the terms of the MIT License
 # author: Andrew R. McCluskey (arm61)
 
+from os.path import splitext
 from typing import Union, List
 import numpy as np
 from kinisi.parser import MDAnalysisParser, PymatgenParser, ASEParser
@@ -36,7 +37,7 @@ class Analyzer:
 
         :param filename: Name for the file, no file extension is required and if one if given it is replaced with .hdf.
         """
-        filename = filename.rsplit('.', 1)[0] + '.hdf'
+        filename = splitext(filename)[0] + '.hdf'
         my_dict = self.to_dict()
         try:
             import h5py
@@ -57,7 +58,7 @@ class Analyzer:
 
         :return: An :py:class:`Analyzer` object from the file.
         """
-        filename = filename.rsplit('.', 1)[0] + '.hdf'
+        filename = splitext(filename)[0] + '.hdf'
         try:
             import h5py
         except ModuleNotFoundError:  # pragma: no cover
-- 
2.43.0


From e74d8c621e0b8254887df3cda3664626f2d52a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:08 +0000
Subject: [PATCH 13/20] fix: saving silently dropped unsupported and None list
 elements

---
 kinisi/analyzer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kinisi/analyzer.py b/kinisi/analyzer.py
index 4fbe1ae..fc4a3cb 100644
--- a/kinisi/analyzer.py
+++ b/kinisi/analyzer.py
@@ -377,6 +377,10 @@ def _dict_to_group(h5file: 'h5py._hl.files.File', path: str, my_dict: dict):
                     h5file[path + key + f'/list{i}'] = d
                 elif isinstance(d, dict):
                     _dict_to_group(h5file, path + key + f'/list{i}' + '/', d)
+                elif d is None:
+                    h5file[path + key + f'/list{i}'] = 'NULL'
+                else:
+                    raise ValueError(f'Cannot save {type(d)} type')
         elif isinstance(value, dict):
             _dict_to_group(h5file, path + key + '/', value)
         elif value is None:
-- 
2.43.0


From 8c7485feac1dc2f94ddba7384b46dd4e73a62688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:08 +0000
Subject: [PATCH 14/20] fix: loading nested groups inside a list raised
 KeyError

---
 kinisi/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/analyzer.py b/kinisi/analyzer.py
index fc4a3cb..a56b974 100644
--- a/kinisi/analyzer.py
+++ b/kinisi/analyzer.py
@@ -424,7 +424,7 @@ def _group_to_dict(h5file: 'h5py._hl.files.File', path: str) -> dict:
                         else:
                             my_dict[key].append(value[()])
                     elif isinstance(h5file[path + key + f'/list{i}'], h5py._hl.group.Group):
-                        my_dict[key].append(_group_to_dict(h5file, path + key + f'/list{i}'))
+                        my_dict[key].append(_group_to_dict(h5file, path + key + f'/list{i}/'))
             else:
                 my_dict[key] = _group_to_dict(h5file, path + key + '/')
         else:
-- 
2.43.0


From a5641f1f2a78fa9fdcb73bd3742a286bbdf3a1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:08 +0000
Subject: [PATCH 15/20] fix: posterior_predictive, distribution and flatchain
 failed when no intercept was fitted

---
 kinisi/analyzer.py                | 2 ++
 kinisi/conductivity_analyzer.py   | 2 ++
 kinisi/diffusion.py               | 4 +++-
 kinisi/diffusion_analyzer.py      | 2 ++
 kinisi/jump_diffusion_analyzer.py | 2 ++
 5 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/kinisi/analyzer.py b/kinisi/analyzer.py
index a56b974..300a1ed 100644
--- a/kinisi/analyzer.py
+++ b/kinisi/analyzer.py
@@ -310,6 +310,8 @@ class Analyzer:
         :return: A distribution of samples for the linear relationship that can be used for easy
         plotting of credible intervals.
         """
+        if self._diff.intercept is None:
+            return self._diff.gradient.samples * self.dt[:, np.newaxis]
         return self._diff.gradient.samples * self.dt[:, np.newaxis] + self._diff.intercept.samples
 
     @property
diff --git a/kinisi/conductivity_analyzer.py b/kinisi/conductivity_analyzer.py
index f4e405b..c8a495b 100644
--- a/kinisi/conductivity_analyzer.py
+++ b/kinisi/conductivity_analyzer.py
@@ -263,4 +263,6 @@ class ConductivityAnalyzer(Analyzer):
         """
         :return: sampling flatchain
         """
+        if self.intercept is None:
+            return np.array([self.sigma.samples]).T
         return np.array([self.sigma.samples, self.intercept.samples]).T
diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index 1413aea..066649e 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -517,7 +517,9 @@ class Bootstrap:
         else:
             iterator = samples_to_draw
         for i, n in iterator:
-            mu = self.gradient.samples[n] * self._dt[diff_regime:] + self.intercept.samples[n]
+            mu = self.gradient.samples[n] * self._dt[diff_regime:]
+            if self.intercept is not None:
+                mu = mu + self.intercept.samples[n]
             mv = multivariate_normal(mean=mu, cov=self._covariance_matrix, allow_singular=True)
             ppd[i] = mv.rvs(n_predictive_samples)
         return ppd.reshape(-1, self._dt[diff_regime:].size)
diff --git a/kinisi/diffusion_analyzer.py b/kinisi/diffusion_analyzer.py
index 56dee3c..33663cb 100644
--- a/kinisi/diffusion_analyzer.py
+++ b/kinisi/diffusion_analyzer.py
@@ -242,4 +242,6 @@ class DiffusionAnalyzer(Analyzer):
         """
         :return: sampling flatchain
         """
+        if self.intercept is None:
+            return np.array([self.D.samples]).T
         return np.array([self.D.samples, self.intercept.samples]).T
diff --git a/kinisi/jump_diffusion_analyzer.py b/kinisi/jump_diffusion_analyzer.py
index 4503496..23afd73 100644
--- a/kinisi/jump_diffusion_analyzer.py
+++ b/kinisi/jump_diffusion_analyzer.py
@@ -245,4 +245,6 @@ class JumpDiffusionAnalyzer(Analyzer):
         """
         :return: sampling flatchain
         """
+        if self.intercept is None:
+            return np.array([self.D_J.samples]).T
         return np.array([self.D_J.samples, self.intercept.samples]).T
-- 
2.43.0


From 625007fd94382a9b570968ea67144445979f053f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:08 +0000
Subject: [PATCH 16/20] fix: PymatgenParser raised for an integer time_step and
 step_skip

---
 kinisi/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 47b9af5..bb0d7c1 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -437,7 +437,7 @@ class PymatgenParser(Parser):
                          progress=progress)
         self._volume = structure.volume
         warnings.warn("UserWarning: Be aware that the expected input unit for 'time_step' is femtoseconds, not picoseconds.")
-        self.delta_t *= 1e-3
+        self.delta_t = self.delta_t * 1e-3
 
     @staticmethod
     def get_structure_coords_latt(
-- 
2.43.0


From 4bc90bb99cef46f32442a123eb21f7aef58cd25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:28 +0000
Subject: [PATCH 17/20] fix: PymatgenParser selected nothing when specie was an
 Element or Species object

---
 kinisi/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index bb0d7c1..a91e089 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -494,6 +494,7 @@ class PymatgenParser(Parser):
         drift_indices = []
         if not isinstance(specie, List):
             specie = [specie]
+        specie = [str(s) for s in specie]
         for i, site in enumerate(structure):
             if site.specie.__str__() in specie:
                 indices.append(i)
-- 
2.43.0


From 4dc432159e5d5ee9afa4a77054aaffdce7d9d9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:57 +0000
Subject: [PATCH 18/20] fix: framework_indices given as a tuple failed in the
 drift correction

---
 kinisi/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index a91e089..0948485 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -141,7 +141,7 @@ class Parser:
         """
         # drift corrected position
         if len(drift_indices) > 0:
-            framework_disp = disp[drift_indices]
+            framework_disp = disp[np.array(drift_indices)]
             drift_corrected = disp - np.average(framework_disp, axis=0)[None, :, :]
         else:
             drift_corrected = disp
-- 
2.43.0


From 619508dc8bddb15f7d86b860bd427fcdceaf14c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:14 +0000
Subject: [PATCH 19/20] fix: SuperArrhenius discarded the given lower bound of
 T0 when its upper bound is open

---
 kinisi/arrhenius.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/arrhenius.py b/kinisi/arrhenius.py
index 91d1dd1..5b612fb 100644
--- a/kinisi/arrhenius.py
+++ b/kinisi/arrhenius.py
@@ -116,7 +116,7 @@ class SuperArrhenius(Relationship):
                                                                                                  (0, None)],
                  diffusion_error: np.ndarray = None):
         if bounds[2][1] is None:
-            bounds = [bounds[0], bounds[1], (0, temperature[0])]
+            bounds = [bounds[0], bounds[1], (bounds[2][0], temperature[0])]
         super().__init__(super_arrhenius, temperature, diffusion, bounds, ordinate_error=diffusion_error)
 
     @property
-- 
2.43.0


From e7178e7886ca7819ed8ec6bb3cd9dca9f307bf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:05 +0000
Subject: [PATCH 20/20] fix: min_dt and max_dt lost a frame to floating-point
 rounding

---
 kinisi/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 0948485..104abd2 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -81,7 +81,7 @@ class Parser:
             self.max_dt = drift_corrected.shape[1] * (self.step_skip * self.time_step)
         if self.min_dt is None:
             self.min_dt = self.step_skip * self.time_step
-        min_dt_int = int(self.min_dt / (self.step_skip * self.time_step))
+        min_dt_int = int(np.round(self.min_dt / (self.step_skip * self.time_step), 9))
         if min_dt_int >= drift_corrected.shape[1]:
             raise ValueError('The passed min_dt is greater than or equal to the maximum simulation length.')
         if n_steps > (drift_corrected.shape[1] - min_dt_int) + 1:
@@ -156,8 +156,8 @@ class Parser:
 
         :return: Smoothed time intervals.
         """
-        min_dt = int(self.min_dt / (self.step_skip * self.time_step))
-        max_dt = int(self.max_dt / (self.step_skip * self.time_step))
+        min_dt = int(np.round(self.min_dt / (self.step_skip * self.time_step), 9))
+        max_dt = int(np.round(self.max_dt / (self.step_skip * self.time_step), 9))
         if min_dt == 0:
             min_dt = 1
         if spacing == 'linear':
-- 
2.43.0

