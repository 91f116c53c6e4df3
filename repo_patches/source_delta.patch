From e565c7b42896385ab50cb7459bee1cebb7dcde83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:08 +0000
Subject: [PATCH 01/79] fix: power of a particle-number constrained fermionic
 Hilbert space

---
 GPSKet/hilbert/discrete_fermion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/hilbert/discrete_fermion.py b/GPSKet/hilbert/discrete_fermion.py
index 5ad7a34..75bae58 100644
--- a/GPSKet/hilbert/discrete_fermion.py
+++ b/GPSKet/hilbert/discrete_fermion.py
@@ -57,7 +57,7 @@ class FermionicDiscreteHilbert(HomogeneousHilbert):
         if self._n_elec is None:
             n_elec = None
         else:
-            n_elec = (n_elec[0] * n, n_elec[1] * n)
+            n_elec = (self._n_elec[0] * n, self._n_elec[1] * n)
 
         return FermionicDiscreteHilbert(self.size * n, n_elec=n_elec)
 
-- 
2.43.0


From 1455940522c7a3775dca0ac97cf698a2732cfb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:08 +0000
Subject: [PATCH 02/79] fix: honour dtype when drawing unconstrained fermionic
 random states

---
 GPSKet/hilbert/random/discrete_fermion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/hilbert/random/discrete_fermion.py b/GPSKet/hilbert/random/discrete_fermion.py
index d229e68..db161d7 100644
--- a/GPSKet/hilbert/random/discrete_fermion.py
+++ b/GPSKet/hilbert/random/discrete_fermion.py
@@ -11,7 +11,7 @@ def random_state(hilb: FermionicDiscreteHilbert, key, batches: int, *, dtype=jnp
     shape = (batches, hilb.size)
 
     if hilb._n_elec is None:
-        out = jax.random.choice(key, jnp.array(hilb.local_states), shape=shape)
+        out = jax.random.choice(key, jnp.array(hilb.local_states, dtype), shape=shape)
     else:
 
         def scan_fun(key, val):
-- 
2.43.0


From d8ee3e24386fe4f93addfb7160733a676b521aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:54 +0000
Subject: [PATCH 03/79] fix: parity of a fermionic hop when no cumulative count
 is supplied

---
 GPSKet/operator/fermion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/GPSKet/operator/fermion.py b/GPSKet/operator/fermion.py
index 4ffa2dd..0e93f27 100644
--- a/GPSKet/operator/fermion.py
+++ b/GPSKet/operator/fermion.py
@@ -26,7 +26,9 @@ def apply_hopping(
 
                 if cummulative_count is None:
                     parity_count = np.sum(
-                        (x_prime[left_limit:right_limit] & spin_int).astype(np.bool)
+                        (x_prime[left_limit + 1 : right_limit + 1] & spin_int).astype(
+                            np.bool
+                        )
                     )
                 else:
                     parity_count = (
-- 
2.43.0


From 8bb863128d0bfe48b7562fb402c12f56281636ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:54 +0000
Subject: [PATCH 04/79] fix: section boundaries of the Hubbard operator without
 hopping edges

---
 GPSKet/operator/hamiltonian/hubbard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/operator/hamiltonian/hubbard.py b/GPSKet/operator/hamiltonian/hubbard.py
index 7d0d610..3391860 100644
--- a/GPSKet/operator/hamiltonian/hubbard.py
+++ b/GPSKet/operator/hamiltonian/hubbard.py
@@ -90,7 +90,7 @@ class FermiHubbard(FermionicDiscreteOperator):
                 )
                 count += 1
 
-                sections[batch_id] = count
+            sections[batch_id] = count
         return x_prime, mels
 
 
-- 
2.43.0


From 841490a0fa9bc5d4aa8b91fd082de24084fc8f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:59 +0000
Subject: [PATCH 05/79] fix: hermiticity of the ASEP generator compares each
 rate with its reverse

---
 GPSKet/operator/hamiltonian/asep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/operator/hamiltonian/asep.py b/GPSKet/operator/hamiltonian/asep.py
index 469064a..a9ed632 100644
--- a/GPSKet/operator/hamiltonian/asep.py
+++ b/GPSKet/operator/hamiltonian/asep.py
@@ -35,7 +35,7 @@ class AsymmetricSimpleExclusionProcess(DiscreteOperator):
     @property
     def is_hermitian(self) -> bool:
         flag = False
-        params_equal = np.sum([self.alpha, self.beta, self.gamma, self.delta]) == 2.0
+        params_equal = self.alpha == self.gamma and self.beta == self.delta
         if self.lambd == 0.0 and params_equal and self.p == self.q:
             flag = True
         return flag
-- 
2.43.0


From 65087f8bd0bc6a671287d1aa5ac3fcee6026af47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:40 +0000
Subject: [PATCH 06/79] fix: argument order of the backflow determinants in
 BackflowJastrow

---
 GPSKet/models/backflow_jastrow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/models/backflow_jastrow.py b/GPSKet/models/backflow_jastrow.py
index 731ac2d..a45dc38 100644
--- a/GPSKet/models/backflow_jastrow.py
+++ b/GPSKet/models/backflow_jastrow.py
@@ -44,8 +44,8 @@ class BackflowJastrow(nn.Module):
         for d in range(n_determinants):
             y = Backflow(
                 self.hilbert,
-                self.orbitals[d],
                 self.correction_fun[d],
+                self.orbitals[d],
                 apply_symmetries=self.backflow_apply_symmetries,
                 spin_symmetry_by_structure=self.spin_symmetry_by_structure,
                 fixed_magnetization=self.fixed_magnetization,
-- 
2.43.0


From 954745ade4fbeee4e8bb22146b0c0f27315d987e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:52 +0000
Subject: [PATCH 07/79] fix: fast update of PlaquetteqGPS calls jnp.where with
 positional arguments

---
 GPSKet/models/plaquetteqGPS.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/GPSKet/models/plaquetteqGPS.py b/GPSKet/models/plaquetteqGPS.py
index 73bf554..1019fcb 100644
--- a/GPSKet/models/plaquetteqGPS.py
+++ b/GPSKet/models/plaquetteqGPS.py
@@ -142,13 +142,13 @@ class PlaquetteqGPS(nn.Module):
                     valid_elements = transformed_sites != -1
                     update = jnp.where(
                         jnp.expand_dims(valid_elements, 1),
-                        x=epsi[new_occs, :, transformed_sites],
-                        y=1.0,
+                        epsi[new_occs, :, transformed_sites],
+                        1.0,
                     ).prod(axis=0)
                     update /= jnp.where(
                         jnp.expand_dims(valid_elements, 1),
-                        x=epsi[old_occs, :, transformed_sites],
-                        y=1.0,
+                        epsi[old_occs, :, transformed_sites],
+                        1.0,
                     ).prod(axis=0)
                     return sp_old * update
 
-- 
2.43.0


From 559c8aebb8d292c2078c141656dbecf67b1b2805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:52 +0000
Subject: [PATCH 08/79] fix: cached configuration of PlaquetteqGPS when an
 updated site is listed twice

---
 GPSKet/models/plaquetteqGPS.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/GPSKet/models/plaquetteqGPS.py b/GPSKet/models/plaquetteqGPS.py
index 1019fcb..39443af 100644
--- a/GPSKet/models/plaquetteqGPS.py
+++ b/GPSKet/models/plaquetteqGPS.py
@@ -179,7 +179,16 @@ class PlaquetteqGPS(nn.Module):
             if update_sites is not None:
 
                 def update_fun(saved_config, update_sites, occs):
-                    return saved_config.at[update_sites].set(occs)
+                    # Reverse order so that the first occurrence of a site is the one kept
+                    def scan_fun(carry, count):
+                        return (carry.at[update_sites[count]].set(occs[count]), None)
+
+                    return jax.lax.scan(
+                        scan_fun,
+                        saved_config,
+                        jnp.arange(update_sites.shape[0]),
+                        reverse=True,
+                    )[0]
 
                 indices_save.value = jax.vmap(
                     update_fun, in_axes=(0, 0, 0), out_axes=0
-- 
2.43.0


From d7cd11fd47248056e662d7f8cb641c03c2164524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:52 +0000
Subject: [PATCH 09/79] fix: fast update of CPDBackflow when an updated site is
 listed twice

---
 GPSKet/models/cpd_backflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/models/cpd_backflow.py b/GPSKet/models/cpd_backflow.py
index 8bf41b1..40ecfbd 100644
--- a/GPSKet/models/cpd_backflow.py
+++ b/GPSKet/models/cpd_backflow.py
@@ -149,6 +149,7 @@ class CPDBackflow(nn.Module):
             )
         # Update configurations if fast-updating is in use
         if update_sites is not None:
+            occ_new = n
             def update_fun(saved_config, update_sites, occs):
                 def scan_fun(carry, count):
                     return (carry.at[update_sites[count]].set(occs[count]), None)
@@ -179,7 +180,6 @@ class CPDBackflow(nn.Module):
         # Compute orbitals and log-determinant
         if update_sites is not None:
             site_products_old = saved_site_products.value
-            occ_new = jax.vmap(jnp.take, in_axes=(0, 0))(n, update_sites)
             occ_old = jax.vmap(jnp.take, in_axes=(0, 0))(saved_configs.value, update_sites)
             orbitals, site_products = CPD_with_cache_batched(
                 self._epsilon, site_products_old, occ_new, occ_old, update_sites) # (B, L, N), (B, L, N, M)
-- 
2.43.0


From 2300d6804e56b8f778a29f9342a343bebad4c335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:52 +0000
Subject: [PATCH 10/79] fix: ASymmqGPS coefficients multiply the determinants

---
 GPSKet/models/asymm_qGPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/models/asymm_qGPS.py b/GPSKet/models/asymm_qGPS.py
index 323ccbf..6a10ad5 100644
--- a/GPSKet/models/asymm_qGPS.py
+++ b/GPSKet/models/asymm_qGPS.py
@@ -56,7 +56,7 @@ class ASymmqGPS(nn.Module):
         if self.symmetrization == "kernel":
 
             def out_transformation(y):
-                y = jnp.asarray(self.coeffs) * jnp.exp(y)  # (B, M, S, T)
+                y = jnp.asarray(self.coeffs).reshape((-1, 1, 1)) * jnp.exp(y)  # (B, M, S, T)
                 y = jnp.sum(y, axis=1)  # (B, S, T)
                 y = jnp.sinh(jnp.sum(y, axis=(-2, -1)))  # (B,)
                 y = jnp.log(y)
@@ -65,7 +65,7 @@ class ASymmqGPS(nn.Module):
         elif self.symmetrization == "projective":
 
             def out_transformation(y):
-                y = jnp.asarray(self.coeffs) * jnp.exp(y)  # (B, M, S, T)
+                y = jnp.asarray(self.coeffs).reshape((-1, 1, 1)) * jnp.exp(y)  # (B, M, S, T)
                 y = jnp.sinh(jnp.sum(y, axis=1))  # (B, S, T)
                 y = jnp.sum(y, axis=(-2, -1))  # (B,)
                 y = jnp.log(y)
-- 
2.43.0


From 6ede39f22926cba9fa0c7409c405a99fb305ff7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:52 +0000
Subject: [PATCH 11/79] fix: fast updates of the ASymmqGPS models reach the
 underlying determinants

---
 GPSKet/models/asymm_qGPS.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/GPSKet/models/asymm_qGPS.py b/GPSKet/models/asymm_qGPS.py
index 6a10ad5..f8daf57 100644
--- a/GPSKet/models/asymm_qGPS.py
+++ b/GPSKet/models/asymm_qGPS.py
@@ -47,7 +47,9 @@ class ASymmqGPS(nn.Module):
     """Whether fast update is used in the computation of the Slater determinants"""
 
     @nn.compact
-    def __call__(self, x: Array) -> Array:
+    def __call__(
+        self, x: Array, cache_intermediates=False, update_sites=None
+    ) -> Array:
         assert self.n_determinants == self.coeffs.shape[0]
         if len(x.shape) == 1:
             x = jnp.expand_dims(x, 0)
@@ -80,7 +82,7 @@ class ASymmqGPS(nn.Module):
             out_transformation=out_transformation,
             apply_fast_update=self.apply_fast_update,
             spin_symmetry_by_structure=self.spin_symmetry_by_structure,
-        )(x)
+        )(x, cache_intermediates=cache_intermediates, update_sites=update_sites)
         return log_psi
 
 
@@ -110,7 +112,9 @@ class ASymmqGPSProd(nn.Module):
         assert self.n_determinants % 2 != 0
 
     @nn.compact
-    def __call__(self, x: Array) -> Array:
+    def __call__(
+        self, x: Array, cache_intermediates=False, update_sites=None
+    ) -> Array:
         if len(x.shape) == 1:
             x = jnp.expand_dims(x, 0)
         x = jnp.asarray(x, jnp.int32)  # (B, L)
@@ -131,5 +135,5 @@ class ASymmqGPSProd(nn.Module):
             out_transformation=out_transformation,
             apply_fast_update=self.apply_fast_update,
             spin_symmetry_by_structure=self.spin_symmetry_by_structure,
-        )(x)
+        )(x, cache_intermediates=cache_intermediates, update_sites=update_sites)
         return log_psi
-- 
2.43.0


From 657369dd45375439da7ea46a741057cd4f251c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:52 +0000
Subject: [PATCH 12/79] fix: fast updates of ARqGPSModPhaseFull

---
 GPSKet/models/autoreg_qGPS_full.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/GPSKet/models/autoreg_qGPS_full.py b/GPSKet/models/autoreg_qGPS_full.py
index b4928c5..638032b 100644
--- a/GPSKet/models/autoreg_qGPS_full.py
+++ b/GPSKet/models/autoreg_qGPS_full.py
@@ -436,7 +436,13 @@ class ARqGPSModPhaseFull(ARqGPSFull):
             self.hilbert, self.hilbert.size, dtype=jnp.float64, init_fun=self.init_fun
         )
 
-    def __call__(self, inputs: Array) -> Array:
-        log_psi_mod = super().__call__(inputs)
-        log_psi_phase = self._qgps(inputs)
+    def __call__(
+        self, inputs: Array, cache_intermediates=False, update_sites=None
+    ) -> Array:
+        log_psi_mod = super().__call__(
+            inputs, cache_intermediates=cache_intermediates, update_sites=update_sites
+        )
+        log_psi_phase = self._qgps(
+            inputs, cache_intermediates=cache_intermediates, update_sites=update_sites
+        )
         return log_psi_mod + log_psi_phase * 1j
-- 
2.43.0


From a3ac310be3291d6242d093e3e3d5a4c260a11f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:52 +0000
Subject: [PATCH 13/79] fix: fast updates of SlaterJastrow and BackflowJastrow

---
 GPSKet/models/backflow_jastrow.py |  6 +++---
 GPSKet/models/jastrow.py          | 26 ++++++++++++++++++++++++--
 GPSKet/models/slater_jastrow.py   |  6 +++---
 3 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/GPSKet/models/backflow_jastrow.py b/GPSKet/models/backflow_jastrow.py
index a45dc38..e22fd71 100644
--- a/GPSKet/models/backflow_jastrow.py
+++ b/GPSKet/models/backflow_jastrow.py
@@ -36,7 +36,7 @@ class BackflowJastrow(nn.Module):
     """Whether magnetization should be conserved or not"""
 
     @nn.compact
-    def __call__(self, x) -> Array:
+    def __call__(self, x, cache_intermediates=False, update_sites=None) -> Array:
         assert len(self.orbitals) == len(self.correction_fun)
         n_determinants = len(self.orbitals)
         batch_size = x.shape[0]
@@ -50,12 +50,12 @@ class BackflowJastrow(nn.Module):
                 spin_symmetry_by_structure=self.spin_symmetry_by_structure,
                 fixed_magnetization=self.fixed_magnetization,
                 apply_fast_update=self.apply_fast_update,
-            )(x)
+            )(x, cache_intermediates=cache_intermediates, update_sites=update_sites)
             log_det = log_det.at[:, d].set(y)
         backflow = jax.scipy.special.logsumexp(log_det, axis=-1)
         jastrow = Jastrow(
             self.hilbert,
             init_fun=self.jastrow_init_fun,
             apply_symmetries=self.jastrow_apply_symmetries,
-        )(x)
+        )(x, cache_intermediates=cache_intermediates, update_sites=update_sites)
         return jastrow + backflow
diff --git a/GPSKet/models/jastrow.py b/GPSKet/models/jastrow.py
index f6ade23..b38fbbd 100644
--- a/GPSKet/models/jastrow.py
+++ b/GPSKet/models/jastrow.py
@@ -38,8 +38,30 @@ class Jastrow(nn.Module):
     """Function to apply symmetries to configurations"""
 
     @nn.compact
-    def __call__(self, x) -> Array:
-        nsites = x.shape[-1]
+    def __call__(self, x, cache_intermediates=False, update_sites=None) -> Array:
+        nsites = self.hilbert.size
+        if cache_intermediates or (update_sites is not None):
+            saved_configs = self.variable(
+                "intermediates_cache", "samples", lambda: None
+            )
+        if update_sites is not None:
+
+            def update_fun(saved_config, update_sites, occs):
+                def scan_fun(carry, count):
+                    return (carry.at[update_sites[count]].set(occs[count]), None)
+
+                return jax.lax.scan(
+                    scan_fun,
+                    saved_config,
+                    jnp.arange(update_sites.shape[0]),
+                    reverse=True,
+                )[0]
+
+            x = jax.vmap(update_fun, in_axes=(0, 0, 0), out_axes=0)(
+                saved_configs.value, update_sites, x
+            )
+        if cache_intermediates:
+            saved_configs.value = x
         kernel = self.param("kernel", self.init_fun, (nsites, nsites), self.dtype)
         kernel = kernel + kernel.T
         x = self.apply_symmetries(x)  # (B, T)
diff --git a/GPSKet/models/slater_jastrow.py b/GPSKet/models/slater_jastrow.py
index a577ff5..288be99 100644
--- a/GPSKet/models/slater_jastrow.py
+++ b/GPSKet/models/slater_jastrow.py
@@ -41,7 +41,7 @@ class SlaterJastrow(nn.Module):
     """Whether magnetization should be conserved or not"""
 
     @nn.compact
-    def __call__(self, x) -> Array:
+    def __call__(self, x, cache_intermediates=False, update_sites=None) -> Array:
         slater = Slater(
             self.hilbert,
             n_determinants=self.n_determinants,
@@ -52,11 +52,11 @@ class SlaterJastrow(nn.Module):
             fixed_magnetization=self.fixed_magnetization,
             out_transformation=self.out_transformation,
             apply_fast_update=self.apply_fast_update,
-        )(x)
+        )(x, cache_intermediates=cache_intermediates, update_sites=update_sites)
         jastrow = Jastrow(
             self.hilbert,
             dtype=self.dtype,
             init_fun=self.jastrow_init_fun,
             apply_symmetries=self.jastrow_apply_symmetries,
-        )(x)
+        )(x, cache_intermediates=cache_intermediates, update_sites=update_sites)
         return slater + jastrow
-- 
2.43.0


From 0479fb8ddf36932aad5d3818b2542d645ce9baaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:08 +0000
Subject: [PATCH 14/79] fix: qGPS initialiser decides real or complex by the
 requested parameter type

---
 GPSKet/nn/initializers.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/GPSKet/nn/initializers.py b/GPSKet/nn/initializers.py
index 99074dc..fd708c6 100644
--- a/GPSKet/nn/initializers.py
+++ b/GPSKet/nn/initializers.py
@@ -16,19 +16,14 @@ def normal(sigma=0.1, dtype=jnp.float_):
     Returns:
         init function with signature `(key, shape, dtype) -> Array`
     """
-    if jnp.iscomplexobj(dtype):
-
-        def init_fun(key, shape, dtype=dtype):
+    def init_fun(key, shape, dtype=dtype):
+        if jnp.issubdtype(dtype, jnp.complexfloating):
             phase = jax.random.normal(key, shape, jnp.float32) * sigma
             eps = jnp.exp(1j * phase).astype(dtype)
-            return eps
-
-    else:
-
-        def init_fun(key, shape, dtype=dtype):
+        else:
             eps = jnp.ones(shape, dtype)
             eps += jax.random.normal(key, shape, dtype) * sigma
-            return eps
+        return eps
 
     return init_fun
 
-- 
2.43.0


From 08dd92fbc35974650c2099baf34ac5437c4b4a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:44 +0000
Subject: [PATCH 15/79] fix: on-the-fly ab-initio local energies of systems
 with empty or full spin bands

---
 GPSKet/operator/hamiltonian/ab_initio.py      | 46 +++++++++++--------
 .../operator/hamiltonian/ab_initio_sparse.py  | 29 +++++++-----
 2 files changed, 45 insertions(+), 30 deletions(-)

diff --git a/GPSKet/operator/hamiltonian/ab_initio.py b/GPSKet/operator/hamiltonian/ab_initio.py
index 1e6fd40..a4e9a47 100644
--- a/GPSKet/operator/hamiltonian/ab_initio.py
+++ b/GPSKet/operator/hamiltonian/ab_initio.py
@@ -248,6 +248,14 @@ Storing these can be useful to interpolate between different calculations with a
 """
 
 
+def fori_loop_nonempty(lower, upper, body_fun, init_val):
+    """As jax.lax.fori_loop, but the body is not traced if there are no iterations
+    (bands without any electrons or holes give empty index arrays)."""
+    if upper <= lower:
+        return init_val
+    return jax.lax.fori_loop(lower, upper, body_fun, init_val)
+
+
 def local_en_on_the_fly(
     n_elecs,
     logpsi,
@@ -315,9 +323,9 @@ def local_en_on_the_fly(
                         down_occ_inds[innercount],
                     ].add(1)
 
-                return jax.lax.fori_loop(0, len(down_occ_inds), inner_update, val)
+                return fori_loop_nonempty(0, len(down_occ_inds), inner_update, val)
 
-            eri_RDM = jax.lax.fori_loop(0, len(up_occ_inds), update_eri, eri_RDM)
+            eri_RDM = fori_loop_nonempty(0, len(up_occ_inds), update_eri, eri_RDM)
 
             def update_eri(count, val):
                 def inner_update(innercount, innerval):
@@ -328,9 +336,9 @@ def local_en_on_the_fly(
                         up_occ_inds[innercount],
                     ].add(0.5)
 
-                return jax.lax.fori_loop(0, len(up_occ_inds), inner_update, val)
+                return fori_loop_nonempty(0, len(up_occ_inds), inner_update, val)
 
-            eri_RDM = jax.lax.fori_loop(0, len(up_occ_inds), update_eri, eri_RDM)
+            eri_RDM = fori_loop_nonempty(0, len(up_occ_inds), update_eri, eri_RDM)
 
             def update_eri(count, val):
                 def inner_update(innercount, innerval):
@@ -341,9 +349,9 @@ def local_en_on_the_fly(
                         up_occ_inds[count],
                     ].add(0.5)
 
-                return jax.lax.fori_loop(0, len(up_unocc_inds), inner_update, val)
+                return fori_loop_nonempty(0, len(up_unocc_inds), inner_update, val)
 
-            eri_RDM = jax.lax.fori_loop(0, len(up_occ_inds), update_eri, eri_RDM)
+            eri_RDM = fori_loop_nonempty(0, len(up_occ_inds), update_eri, eri_RDM)
 
             def update_eri(count, val):
                 def inner_update(innercount, innerval):
@@ -354,9 +362,9 @@ def local_en_on_the_fly(
                         down_occ_inds[innercount],
                     ].add(0.5)
 
-                return jax.lax.fori_loop(0, len(down_occ_inds), inner_update, val)
+                return fori_loop_nonempty(0, len(down_occ_inds), inner_update, val)
 
-            eri_RDM = jax.lax.fori_loop(0, len(down_occ_inds), update_eri, eri_RDM)
+            eri_RDM = fori_loop_nonempty(0, len(down_occ_inds), update_eri, eri_RDM)
 
             def update_eri(count, val):
                 def inner_update(innercount, innerval):
@@ -367,9 +375,9 @@ def local_en_on_the_fly(
                         down_occ_inds[count],
                     ].add(0.5)
 
-                return jax.lax.fori_loop(0, len(down_unocc_inds), inner_update, val)
+                return fori_loop_nonempty(0, len(down_unocc_inds), inner_update, val)
 
-            eri_RDM = jax.lax.fori_loop(0, len(down_occ_inds), update_eri, eri_RDM)
+            eri_RDM = fori_loop_nonempty(0, len(down_occ_inds), update_eri, eri_RDM)
 
         # The following part evaluates the contributions from the connected configurations.
 
@@ -692,16 +700,16 @@ def local_en_on_the_fly(
                         * inner_loops
                     )
 
-            return jax.lax.fori_loop(
+            return fori_loop_nonempty(
                 0, len(up_unocc_inds), two_body_up_up_unocc, val_outer
             )
 
         if return_local_RDMs:
-            local_en, eri_RDM = jax.lax.fori_loop(
+            local_en, eri_RDM = fori_loop_nonempty(
                 0, len(up_occ_inds), two_body_up_up_occ, (local_en, eri_RDM)
             )
         else:
-            local_en = jax.lax.fori_loop(
+            local_en = fori_loop_nonempty(
                 0, len(up_occ_inds), two_body_up_up_occ, local_en
             )
 
@@ -810,16 +818,16 @@ def local_en_on_the_fly(
                         * inner_loops
                     )
 
-            return jax.lax.fori_loop(
+            return fori_loop_nonempty(
                 0, len(down_unocc_inds), two_body_down_down_unocc, val_outer
             )
 
         if return_local_RDMs:
-            local_en, eri_RDM = jax.lax.fori_loop(
+            local_en, eri_RDM = fori_loop_nonempty(
                 0, len(down_occ_inds), two_body_down_down_occ, (local_en, eri_RDM)
             )
         else:
-            local_en = jax.lax.fori_loop(
+            local_en = fori_loop_nonempty(
                 0, len(down_occ_inds), two_body_down_down_occ, local_en
             )
 
@@ -936,16 +944,16 @@ def local_en_on_the_fly(
                         * inner_loops
                     )
 
-            return jax.lax.fori_loop(
+            return fori_loop_nonempty(
                 0, len(up_unocc_inds), two_body_up_down_unocc, val_outer
             )
 
         if return_local_RDMs:
-            local_en, eri_RDM = jax.lax.fori_loop(
+            local_en, eri_RDM = fori_loop_nonempty(
                 0, len(up_occ_inds), two_body_up_down_occ, (local_en, eri_RDM)
             )
         else:
-            local_en = jax.lax.fori_loop(
+            local_en = fori_loop_nonempty(
                 0, len(up_occ_inds), two_body_up_down_occ, local_en
             )
 
diff --git a/GPSKet/operator/hamiltonian/ab_initio_sparse.py b/GPSKet/operator/hamiltonian/ab_initio_sparse.py
index bba7ac5..deed8c0 100644
--- a/GPSKet/operator/hamiltonian/ab_initio_sparse.py
+++ b/GPSKet/operator/hamiltonian/ab_initio_sparse.py
@@ -297,9 +297,12 @@ def local_en_on_the_fly(
                 jnp.array(0, dtype=log_amp.dtype),
             )
 
-        local_en += jnp.sum(
-            jax.vmap(two_body_up_up_occ)(jnp.triu_indices(up_occ_inds.shape[0], k=1))
-        )
+        if up_occ_inds.shape[0] > 1:
+            local_en += jnp.sum(
+                jax.vmap(two_body_up_up_occ)(
+                    jnp.triu_indices(up_occ_inds.shape[0], k=1)
+                )
+            )
 
         def two_body_down_down_occ(inds):
             i = down_occ_inds[inds[0]]
@@ -351,11 +354,12 @@ def local_en_on_the_fly(
                 jnp.array(0, dtype=log_amp.dtype),
             )
 
-        local_en += jnp.sum(
-            jax.vmap(two_body_down_down_occ)(
-                jnp.triu_indices(down_occ_inds.shape[0], k=1)
+        if down_occ_inds.shape[0] > 1:
+            local_en += jnp.sum(
+                jax.vmap(two_body_down_down_occ)(
+                    jnp.triu_indices(down_occ_inds.shape[0], k=1)
+                )
             )
-        )
 
         def two_body_up_down_occ(inds):
             i = up_occ_inds[inds[0]]
@@ -403,10 +407,13 @@ def local_en_on_the_fly(
                 jnp.array(0, dtype=log_amp.dtype),
             )
 
-        row_inds, col_inds = jnp.indices((up_occ_inds.shape[0], down_occ_inds.shape[0]))
-        local_en += jnp.sum(
-            jax.vmap(two_body_up_down_occ)((row_inds.flatten(), col_inds.flatten()))
-        )
+        if up_occ_inds.shape[0] > 0 and down_occ_inds.shape[0] > 0:
+            row_inds, col_inds = jnp.indices(
+                (up_occ_inds.shape[0], down_occ_inds.shape[0])
+            )
+            local_en += jnp.sum(
+                jax.vmap(two_body_up_down_occ)((row_inds.flatten(), col_inds.flatten()))
+            )
 
         return local_en
 
-- 
2.43.0


From 0883fdb028424b84d76c9dc307b81ab0ef1490e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:06 +0000
Subject: [PATCH 16/79] fix: on-the-fly Heisenberg operator can be constructed
 from a graph

---
 GPSKet/operator/hamiltonian/J1J2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/operator/hamiltonian/J1J2.py b/GPSKet/operator/hamiltonian/J1J2.py
index 6fe0adc..dabf0cb 100644
--- a/GPSKet/operator/hamiltonian/J1J2.py
+++ b/GPSKet/operator/hamiltonian/J1J2.py
@@ -10,7 +10,7 @@ from typing import Optional
 
 
 # dummy class used if the local energy should be evaluated on the fly (allowing for fast updating)
-class HeisenbergOnTheFly(nk.operator.LocalOperator):
+class HeisenbergOnTheFly(nk.operator.Heisenberg):
     pass
 
 
-- 
2.43.0


From 0c38b3f4943353ee6c2a6e9045ef72f97242ca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:34 +0000
Subject: [PATCH 17/79] fix: autoregressive models over unconstrained spaces
 are not masked by the spin count

---
 GPSKet/models/autoreg_plaquetteqGPS.py | 13 +++++++------
 GPSKet/models/autoreg_qGPS.py          | 13 +++++++------
 GPSKet/models/autoreg_qGPS_full.py     | 15 ++++++++-------
 3 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/GPSKet/models/autoreg_plaquetteqGPS.py b/GPSKet/models/autoreg_plaquetteqGPS.py
index 05719d3..0576fa2 100644
--- a/GPSKet/models/autoreg_plaquetteqGPS.py
+++ b/GPSKet/models/autoreg_plaquetteqGPS.py
@@ -171,12 +171,13 @@ def _compute_conditional(
     # This is done by counting number of up/down spins until index, then if
     # n_spins is >= L/2 the probability of up/down spin at index should be 0,
     # i.e. the log probability becomes -inf
-    log_psi = gpu_cond(
-        index >= 0,
-        lambda log_psi: log_psi + renormalize_log_psi(n_spins, hilbert, index),
-        lambda log_psi: log_psi,
-        log_psi,
-    )
+    if hilbert.constrained:
+        log_psi = gpu_cond(
+            index >= 0,
+            lambda log_psi: log_psi + renormalize_log_psi(n_spins, hilbert, index),
+            lambda log_psi: log_psi,
+            log_psi,
+        )
     return n_spins, log_psi
 
 
diff --git a/GPSKet/models/autoreg_qGPS.py b/GPSKet/models/autoreg_qGPS.py
index 01887f2..9e67835 100644
--- a/GPSKet/models/autoreg_qGPS.py
+++ b/GPSKet/models/autoreg_qGPS.py
@@ -270,12 +270,13 @@ def _compute_conditional(
     # This is done by counting number of up/down spins until index, then if
     # n_spins is >= L/2 the probability of up/down spin at index should be 0,
     # i.e. the log probability becomes -inf
-    log_psi = gpu_cond(
-        index >= 0,
-        lambda log_psi: log_psi + renormalize_log_psi(n_spins, hilbert, index),
-        lambda log_psi: log_psi,
-        log_psi,
-    )
+    if hilbert.constrained:
+        log_psi = gpu_cond(
+            index >= 0,
+            lambda log_psi: log_psi + renormalize_log_psi(n_spins, hilbert, index),
+            lambda log_psi: log_psi,
+            log_psi,
+        )
     return (cache, n_spins), log_psi
 
 
diff --git a/GPSKet/models/autoreg_qGPS_full.py b/GPSKet/models/autoreg_qGPS_full.py
index 638032b..555c2bc 100644
--- a/GPSKet/models/autoreg_qGPS_full.py
+++ b/GPSKet/models/autoreg_qGPS_full.py
@@ -333,13 +333,14 @@ def _compute_conditional(
     # This is done by counting number of up/down spins until index, then if
     # n_spins is >= L/2 the probability of up/down spin at index should be 0,
     # i.e. the log probability becomes -inf
-    log_psi = gpu_cond(
-        index >= 0,
-        lambda log_psi: log_psi
-        + model.renormalize_log_psi(n_spins, model.hilbert, index),
-        lambda log_psi: log_psi,
-        log_psi,
-    )
+    if model.hilbert.constrained:
+        log_psi = gpu_cond(
+            index >= 0,
+            lambda log_psi: log_psi
+            + model.renormalize_log_psi(n_spins, model.hilbert, index),
+            lambda log_psi: log_psi,
+            log_psi,
+        )
     return n_spins, log_psi, context_prod
 
 
-- 
2.43.0


From 3bcd39115d89e190ec4f9eb75242e18fddd6e574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:45 +0000
Subject: [PATCH 18/79] fix: Pfaffian of singular matrices and removed jnp.NINF

---
 GPSKet/models/pfaffian.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/GPSKet/models/pfaffian.py b/GPSKet/models/pfaffian.py
index 2b7b085..c036d4b 100644
--- a/GPSKet/models/pfaffian.py
+++ b/GPSKet/models/pfaffian.py
@@ -69,9 +69,15 @@ def log_pfaffian(mat):
         value = jnp.where(
             matrix[index + 1, index] != 0.0,
             value + jnp.log(matrix[index, index + 1]),
-            jnp.NINF + 0.0j,
+            -jnp.inf + 0.0j,
+        )
+        # if the pivot vanishes, the Pfaffian is zero and nothing is eliminated
+        pivot = matrix[index, index + 1]
+        t = jnp.where(
+            pivot != 0.0,
+            matrix[index, (index + 2) :] / jnp.where(pivot != 0.0, pivot, 1.0),
+            0.0,
         )
-        t = matrix[index, (index + 2) :] / matrix[index, index + 1]
         matrix = matrix.at[index + 2 :, index + 2 :].add(
             jnp.outer(t, matrix[index + 2 :, index + 1])
         )
-- 
2.43.0


From eeed889b3be76f4e94e580179601ba0263db1c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:45 +0000
Subject: [PATCH 19/79] fix: PfaffianState sums over symmetries, not over the
 batch

---
 GPSKet/models/pfaffian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/models/pfaffian.py b/GPSKet/models/pfaffian.py
index c036d4b..0e68e7f 100644
--- a/GPSKet/models/pfaffian.py
+++ b/GPSKet/models/pfaffian.py
@@ -131,7 +131,7 @@ class PfaffianState(nn.Module):
         self.out_transformation has the same meaning for this state as for the ZeroMagnetizationPfaffian
         below.
         """
-        return self.out_transformation(out)
+        return self.out_transformation(jnp.expand_dims(out, axis=-2))
 
 
 """
-- 
2.43.0


From 1f7ae99e4b39741fe528890b1048b6b43ebb0546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:59 +0000
Subject: [PATCH 20/79] fix: derivative of the Pfaffian of real matrices

---
 GPSKet/models/pfaffian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/GPSKet/models/pfaffian.py b/GPSKet/models/pfaffian.py
index 0e68e7f..282cc2f 100644
--- a/GPSKet/models/pfaffian.py
+++ b/GPSKet/models/pfaffian.py
@@ -90,7 +90,9 @@ def log_pfaffian(mat):
 @log_pfaffian.defjvp
 def log_pfaffian_jvp(primals, tangents):
     derivative = 0.5 * jnp.linalg.inv(primals[0]).T
-    return (log_pfaffian(primals[0]), derivative.flatten().dot(tangents[0].flatten()))
+    value = log_pfaffian(primals[0])
+    tangent = derivative.flatten().dot(tangents[0].flatten())
+    return (value, tangent.astype(value.dtype))
 
 
 """
-- 
2.43.0


From 964b31863e7a2b116cc8581a26479586182fe173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:51 +0000
Subject: [PATCH 21/79] fix: fast exchange sampler can be constructed with the
 installed NetKet

---
 GPSKet/sampler/rules/exchange_with_update.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/GPSKet/sampler/rules/exchange_with_update.py b/GPSKet/sampler/rules/exchange_with_update.py
index 8dbdf5f..32f6e6e 100644
--- a/GPSKet/sampler/rules/exchange_with_update.py
+++ b/GPSKet/sampler/rules/exchange_with_update.py
@@ -1,16 +1,18 @@
 import jax
 import jax.numpy as jnp
-from flax import struct
-from netket.sampler.rules.exchange import ExchangeRule_
+from netket.sampler.metropolis import MetropolisRule
+from netket.utils.types import Array
 
 
-@struct.dataclass
-class ExchangeRuleWithUpdate(ExchangeRule_):
+class ExchangeRuleWithUpdate(MetropolisRule):
     """
     Exchange Update rule which also returns the list of affected sites which is required for the fast metropolis sampler
     """
 
-    returns_updates: bool = True
+    clusters: Array
+
+    def __init__(self, clusters: Array) -> None:
+        self.clusters = clusters
 
     def transition(rule, sampler, machine, parameters, state, key, σ):
         n_chains = σ.shape[0]
-- 
2.43.0


From e82639cc092cfb7c96242b7bcb8969626df4fc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:51 +0000
Subject: [PATCH 22/79] fix: fast Metropolis sampler counts the accepted moves
 of each chain

---
 GPSKet/sampler/metropolis_fast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/sampler/metropolis_fast.py b/GPSKet/sampler/metropolis_fast.py
index 06f8060..3231178 100644
--- a/GPSKet/sampler/metropolis_fast.py
+++ b/GPSKet/sampler/metropolis_fast.py
@@ -69,7 +69,7 @@ class MetropolisFastSampler(MetropolisSampler):
                 update, new_intermediates_cache, s["intermediates_cache"]
             )
 
-            s["accepted"] += do_accept.sum()
+            s["accepted"] += do_accept
 
             s["log_prob"] = jax.numpy.where(
                 do_accept.reshape(-1), proposal_log_prob, s["log_prob"]
-- 
2.43.0


From 478b185461649d5921c4ef86b61d355d7d35501c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:14 +0000
Subject: [PATCH 23/79] fix: cached contexts of ARqGPSFull have the batch as
 leading axis

---
 GPSKet/models/autoreg_qGPS_full.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/GPSKet/models/autoreg_qGPS_full.py b/GPSKet/models/autoreg_qGPS_full.py
index 555c2bc..7d75931 100644
--- a/GPSKet/models/autoreg_qGPS_full.py
+++ b/GPSKet/models/autoreg_qGPS_full.py
@@ -214,7 +214,10 @@ class ARqGPSFull(AbstractARqGPS):
                     cont_prod.value for cont_prod in self._saved_context_product
                 ]
             else:
-                old_contexts = self._saved_context_product.value
+                # The batch is the leading axis of all cached intermediates
+                old_contexts = jnp.swapaxes(
+                    self._saved_context_product.value, 0, 1
+                )  # (L, B, M, T)
 
             log_psi, context_products = jax.vmap(
                 _conditionals, in_axes=(None, -1, -1, -1), out_axes=(-1, -1)
@@ -249,7 +252,9 @@ class ARqGPSFull(AbstractARqGPS):
                 for i in range(len(context_products)):
                     self._saved_context_product[i].value = context_products[i]
             else:
-                self._saved_context_product.value = context_products
+                self._saved_context_product.value = jnp.swapaxes(
+                    context_products, 0, 1
+                )  # (B, L, M, T)
             self._saved_configs.value = full_samples
 
         return log_psi_symm  # (B,)
-- 
2.43.0


From 239911004736ae6f638814bc349977b940e53122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:28 +0000
Subject: [PATCH 24/79] fix: fast Metropolis sampler returns the
 log-probabilities of its samples

---
 GPSKet/sampler/metropolis_fast.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPSKet/sampler/metropolis_fast.py b/GPSKet/sampler/metropolis_fast.py
index 3231178..c2bd778 100644
--- a/GPSKet/sampler/metropolis_fast.py
+++ b/GPSKet/sampler/metropolis_fast.py
@@ -93,6 +93,7 @@ class MetropolisFastSampler(MetropolisSampler):
         new_state = state.replace(
             rng=new_rng,
             σ=s["σ"],
+            log_prob=s["log_prob"],
             n_accepted_proc=s["accepted"],
             n_steps_proc=state.n_steps_proc
             + sampler.sweep_size * sampler.n_chains_per_rank,
-- 
2.43.0


From 942ee0ce78635a86d34f45a5b6b60bd9885cea62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:28 +0000
Subject: [PATCH 25/79] fix: gradients over unique samples are weighted by
 their counts

---
 GPSKet/vqs/mc/mc_state/state_unique_samples.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/GPSKet/vqs/mc/mc_state/state_unique_samples.py b/GPSKet/vqs/mc/mc_state/state_unique_samples.py
index da02888..16f30ed 100644
--- a/GPSKet/vqs/mc/mc_state/state_unique_samples.py
+++ b/GPSKet/vqs/mc/mc_state/state_unique_samples.py
@@ -1,7 +1,7 @@
 import netket as nk
 import netket.jax as nkjax
 import jax.numpy as jnp
-from typing import Tuple, Optional, Callable, Literal, Any
+from typing import Tuple, Optional, Callable, Any
 from collections import defaultdict
 import numpy as np
 
@@ -127,11 +127,18 @@ class MCStateUniqueSamples(nk.vqs.MCState):
 def expect_and_grad(
     vstate: MCStateUniqueSamples,
     op: nk.operator.AbstractOperator,
-    use_covariance: Literal[True],
     chunk_size: Optional[int],
     *,
-    mutable: Any
+    mutable: Any = False,
+    use_covariance: Optional[bool] = None,
 ):
+    if use_covariance is None:
+        use_covariance = op.is_hermitian
+    if not use_covariance:
+        raise NotImplementedError(
+            "Gradients over unique samples are only implemented with the covariance formula."
+        )
+
     _, args = get_local_kernel_arguments(vstate, op)
     samples_and_counts = vstate.samples_with_counts
     if chunk_size is not None:
-- 
2.43.0


From 0c64c5a237faa38f68083d3f96d6121bdcb51064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:13 +0000
Subject: [PATCH 26/79] fix: stratified sampling states can be constructed with
 the installed NetKet

---
 GPSKet/vqs/mc/mc_state/state_stratified_sampling.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py b/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py
index 0c8a089..64b2ff9 100644
--- a/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py
+++ b/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py
@@ -17,8 +17,6 @@ from netket.utils.mpi import (
 
 from typing import Tuple
 
-from dataclasses import replace
-
 """ Implements a state with stratified sampling, splitting the evaluation of expectation values
 into a determinisitic evaluation over a fixed set, and a sampled estimate over the complement.
 At the moment this is only an implementation for quick testing which is very slow.
@@ -38,9 +36,9 @@ class MCStateStratifiedSampling(MCStateUniqueSamples):
     ):
         super().__init__(*args, **kwargs)
 
-        self.n_sweeps = self.sampler.n_sweeps
+        self.n_sweeps = self.sampler.sweep_size
 
-        self.sampler = replace(self.sampler, n_sweeps=1)
+        self.sampler = self.sampler.replace(sweep_size=1)
 
         self.deterministic_samples = jnp.array_split(deterministic_samples, _n_nodes)[
             _rank
@@ -73,7 +71,7 @@ class MCStateStratifiedSampling(MCStateUniqueSamples):
             self.current_sample.append(samp)
             key = jax.random.split(key)[0]
         self.current_sample = jnp.array(np.array(self.current_sample))
-        self.sampler_state = replace(self.sampler_state, σ=self.current_sample)
+        self.sampler_state = self.sampler_state.replace(σ=self.current_sample)
 
         if not self.rand_norm:
             assert number_random_samples is None
@@ -103,7 +101,7 @@ class MCStateStratifiedSampling(MCStateUniqueSamples):
             np.expand_dims(valid, -1), self.current_sample, old_sample
         )
 
-        self.sampler_state = replace(self.sampler_state, σ=self.current_sample)
+        self.sampler_state = self.sampler_state.replace(σ=self.current_sample)
 
     @property
     def samples_with_counts(self) -> Tuple[jnp.ndarray, jnp.ndarray]:
-- 
2.43.0


From 874c40b2a6e75bc20b270def957e0db819bcfc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:21 +0000
Subject: [PATCH 27/79] fix: minSR pairs the local energies with their samples

---
 GPSKet/driver/minSR.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/driver/minSR.py b/GPSKet/driver/minSR.py
index 3606ab3..d35ca64 100644
--- a/GPSKet/driver/minSR.py
+++ b/GPSKet/driver/minSR.py
@@ -60,7 +60,7 @@ class minSRVMC(VMC):
         counts = counts.reshape((-1,))
 
         # Compute local energies and center them
-        loc_ens = self.state.local_estimators(self._ham).T.reshape(-1)
+        loc_ens = self.state.local_estimators(self._ham).reshape(-1)
         self._loss_stats = _statistics(loc_ens, counts)
         loc_ens_centered = (loc_ens - self._loss_stats.mean) * jnp.sqrt(counts)
 
-- 
2.43.0


From c062875fa2f6a321af95712514bd96233194f482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:43 +0000
Subject: [PATCH 28/79] fix: minSR weights the log-derivatives of each sample
 by its count

---
 GPSKet/driver/minSR.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/GPSKet/driver/minSR.py b/GPSKet/driver/minSR.py
index d35ca64..a55237d 100644
--- a/GPSKet/driver/minSR.py
+++ b/GPSKet/driver/minSR.py
@@ -105,9 +105,9 @@ class minSRVMC(VMC):
                 O_i = O_i[:, 0, :] + 1.0j * O_i[:, 1, :]
 
             if loss_grad is None:
-                loss_grad, token = mpi.mpi_sum_jax(jnp.dot(O_i.T, loc_ens_centered[i]))
+                loss_grad, token = mpi.mpi_sum_jax(jnp.dot(O_i.conj().T, loc_ens_centered[i] * jnp.sqrt(counts_i)))
             else:
-                _loss_grad, token = mpi.mpi_sum_jax(jnp.dot(O_i.T, loc_ens_centered[i]), token=token)
+                _loss_grad, token = mpi.mpi_sum_jax(jnp.dot(O_i.conj().T, loc_ens_centered[i] * jnp.sqrt(counts_i)), token=token)
                 loss_grad += _loss_grad
 
             if O_avg is None:
@@ -137,10 +137,11 @@ class minSRVMC(VMC):
             )
             O_i, token = mpi.mpi_gather_jax(O_i, token=token)
             O_i = O_i.reshape((-1, *O_i.shape[2:]))
+            counts_i, token = mpi.mpi_gather_jax(counts[i], token=token)
             if mpi.rank == 0:
                 if len(O_i.shape) == 3:
                     O_i = O_i[:, 0, :] + 1.0j * O_i[:, 1, :]
-                O_i = O_i - O_avg
+                O_i = (O_i - O_avg) * jnp.sqrt(counts_i.reshape((-1, 1)))
             for j in range(n_chunks):
                 idx_j = (
                     idx[j]
@@ -161,10 +162,11 @@ class minSRVMC(VMC):
                 )
                 O_j, token = mpi.mpi_gather_jax(O_j, token=token)
                 O_j = O_j.reshape((-1, *O_j.shape[2:]))
+                counts_j, token = mpi.mpi_gather_jax(counts[j], token=token)
                 if mpi.rank == 0:
                     if len(O_j.shape) == 3:
                         O_j = O_j[:, 0, :] + 1.0j * O_j[:, 1, :]
-                    O_j = O_j - O_avg
+                    O_j = (O_j - O_avg) * jnp.sqrt(counts_j.reshape((-1, 1)))
                     ii, jj = np.meshgrid(idx_i, idx_j, indexing="ij")
                     OO = OO.at[ii, jj].set(O_i.dot(O_j.conj().T))
 
@@ -203,7 +205,7 @@ class minSRVMC(VMC):
             if len(O_i.shape) == 3:
                 O_i = O_i[:, 0, :] + 1.0j * O_i[:, 1, :]
 
-            O_i = O_i - O_avg
+            O_i = (O_i - O_avg) * jnp.sqrt(counts[i][:, np.newaxis])
 
             if dense_update is None:
                 dense_update = mpi.mpi_sum_jax(O_i.conj().T.dot(OO_epsilon[i]))[0]
-- 
2.43.0


From 6c4c394a7f58c670e5697b96440987747519ef0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:43 +0000
Subject: [PATCH 29/79] fix: default differentiation mode of
 QGTJacobianDenseRMSProp

---
 GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py b/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
index 62c0124..6651b07 100644
--- a/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
+++ b/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
@@ -58,7 +58,6 @@ def QGTJacobianDenseRMSProp(
             vstate.parameters,
             vstate.model_state,
             samples,
-            mode=mode,
             holomorphic=holomorphic,
         )
 
-- 
2.43.0


From 51797c29ea8a80b8da784db45f648a3fea388286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:43 +0000
Subject: [PATCH 30/79] fix: QGTJacobianDenseRMSProp averages over the samples

---
 GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py b/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
index 6651b07..4a31756 100644
--- a/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
+++ b/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
@@ -83,6 +83,7 @@ def QGTJacobianDenseRMSProp(
         chunk_size=chunk_size,
         dense=True,
         center=True,
+        _sqrt_rescale=True,
     )
 
     pars_struct = jax.tree_util.tree_map(
-- 
2.43.0


From b9ee06e0c9884afa91adeadffc3e7140666edfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:43 +0000
Subject: [PATCH 31/79] fix: QGTJacobianDenseUniqueSamples weights the samples
 by their counts

---
 GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py b/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
index 13d4909..492e34f 100644
--- a/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
+++ b/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
@@ -71,6 +71,7 @@ def QGTJacobianDenseUniqueSamples(
         pdf=counts,
         dense=True,
         center=True,
+        _sqrt_rescale=True,
     )
 
     pars_struct = jax.tree_util.tree_map(
-- 
2.43.0


From 38c8fd0a542dbb8d81ae0d07ef74208a9cfbf166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:43 +0000
Subject: [PATCH 32/79] fix: QGTJacobianDenseUniqueSamples without or with a
 preset diagonal shift

---
 GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py b/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
index 492e34f..1d6dbd8 100644
--- a/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
+++ b/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
@@ -30,7 +30,7 @@ def QGTJacobianDenseUniqueSamples(
     *,
     mode: str = None,
     holomorphic: bool = None,
-    diag_shift=None,
+    diag_shift=0.0,
     diag_scale=None,
     **kwargs
 ) -> "QGTJacobianDenseT":
@@ -38,7 +38,11 @@ def QGTJacobianDenseUniqueSamples(
     assert diag_scale is None  # Not yet implemented -> TODO: implement support!
     if vstate is None:
         return partial(
-            QGTJacobianDenseUniqueSamples, mode=mode, holomorphic=holomorphic
+            QGTJacobianDenseUniqueSamples,
+            mode=mode,
+            holomorphic=holomorphic,
+            diag_shift=diag_shift,
+            **kwargs
         )
 
     if mode is None:
-- 
2.43.0


From b1dc8825450a3e6bfe40db676fa28787d9fc56d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:53 +0000
Subject: [PATCH 33/79] fix: SRDense can be constructed and solves with its
 default solver

---
 GPSKet/optimizer/solvers.py  | 3 ++-
 GPSKet/optimizer/sr_dense.py | 9 ++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/GPSKet/optimizer/solvers.py b/GPSKet/optimizer/solvers.py
index 57e6d24..785cb6f 100644
--- a/GPSKet/optimizer/solvers.py
+++ b/GPSKet/optimizer/solvers.py
@@ -4,7 +4,8 @@ from netket.jax import tree_ravel
 
 def pinv(A, b, rcond=1e-12, x0=None):
     del x0
-    A = A.to_dense()
+    if hasattr(A, "to_dense"):
+        A = A.to_dense()
     b, unravel = tree_ravel(b)
     A_inv = jnp.linalg.pinv(A, rcond=rcond, hermitian=True)
     x = jnp.dot(A_inv, b)
diff --git a/GPSKet/optimizer/sr_dense.py b/GPSKet/optimizer/sr_dense.py
index d8ceaa0..bb892eb 100644
--- a/GPSKet/optimizer/sr_dense.py
+++ b/GPSKet/optimizer/sr_dense.py
@@ -1,8 +1,8 @@
 import jax
 import jax.numpy as jnp
 import netket.jax as nkjax
-from dataclasses import dataclass
 from typing import Callable, Optional, Any
+from netket.utils import struct
 from netket.utils.types import PyTree, Scalar, ScalarOrSchedule
 from netket.vqs import VariationalState
 from netket.optimizer.preconditioner import AbstractLinearPreconditioner
@@ -10,8 +10,9 @@ from netket.optimizer.qgt import QGTJacobianDense
 from .solvers import pinv
 
 
-@dataclass
-class SRDense(AbstractLinearPreconditioner):
+class SRDense(AbstractLinearPreconditioner, mutable=True):
+    qgt_constructor: Callable = struct.static_field(default=None)
+
     def __init__(self, qgt: QGTJacobianDense, solver: Callable = pinv):
         self.qgt_constructor = qgt
         super().__init__(solver)
@@ -31,6 +32,8 @@ class SRDense(AbstractLinearPreconditioner):
 
         # Solve system
         x0 = self.solver(S, gradient)
+        if isinstance(x0, tuple):
+            x0, self.info = x0
         self.x0 = unravel_fun(x0)
 
         return self.x0
-- 
2.43.0


From 968b2b10deac254f5dcc591dfd91c7a68a322946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:12 +0000
Subject: [PATCH 34/79] fix: arguments of the on-the-fly Hubbard kernel can be
 closed over in traced functions

---
 GPSKet/operator/hamiltonian/hubbard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/operator/hamiltonian/hubbard.py b/GPSKet/operator/hamiltonian/hubbard.py
index 3391860..dc11136 100644
--- a/GPSKet/operator/hamiltonian/hubbard.py
+++ b/GPSKet/operator/hamiltonian/hubbard.py
@@ -204,9 +204,9 @@ def local_en_on_the_fly(
 @nk.vqs.get_local_kernel_arguments.dispatch
 def get_local_kernel_arguments(vstate: nk.vqs.MCState, op: FermiHubbardOnTheFly):
     samples = vstate.samples
-    edges = op.edges
+    edges = jnp.array(op.edges)
     U = op.U
-    t = op.t
+    t = jnp.array(op.t)
     return (samples, (edges, U, t))
 
 
-- 
2.43.0


From 46a42abf32f30c4ec3bebea23aa89d2a42dd4235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:12 +0000
Subject: [PATCH 35/79] fix: imaginary time steps can be nested

---
 GPSKet/supervised/imag_time_step.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/GPSKet/supervised/imag_time_step.py b/GPSKet/supervised/imag_time_step.py
index 810a829..9b835b1 100644
--- a/GPSKet/supervised/imag_time_step.py
+++ b/GPSKet/supervised/imag_time_step.py
@@ -59,8 +59,13 @@ def get_imag_time_step_vstate(tau, hamiltonian, vstate):
     else:
         local_estimator_fun = get_local_kernel(vstate, hamiltonian, vstate.chunk_size)
 
+    # Nested time steps store their propagation times under different names
+    tau_key = "tau"
+    while tau_key in vstate.model_state:
+        tau_key += "_"
+
     def imag_time_model_log_amp(model_pars, samples):
-        pars, tau = freeze(model_pars).pop("tau")
+        pars, tau = freeze(model_pars).pop(tau_key)
         samps = samples.reshape((-1, samples.shape[-1]))
         loc_ens = local_estimator_fun(log_model, pars, samps, args)
         log_amps = log_model(pars, samps)
@@ -69,5 +74,5 @@ def get_imag_time_step_vstate(tau, hamiltonian, vstate):
     new_vstate = copy.deepcopy(vstate)
     new_vstate._apply_fun = imag_time_model_log_amp
     new_vstate._model = wrap_afun(imag_time_model_log_amp)
-    new_vstate.model_state = {"tau": tau, **new_vstate.model_state}
+    new_vstate.model_state = {tau_key: tau, **new_vstate.model_state}
     return new_vstate
-- 
2.43.0


From a75ad57e46f8b3588f34019cfdda6716fef38b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:56 +0000
Subject: [PATCH 36/79] fix: amplitudes of imaginary time steps which change
 sign

---
 GPSKet/supervised/imag_time_step.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/GPSKet/supervised/imag_time_step.py b/GPSKet/supervised/imag_time_step.py
index 9b835b1..e7dff64 100644
--- a/GPSKet/supervised/imag_time_step.py
+++ b/GPSKet/supervised/imag_time_step.py
@@ -32,7 +32,8 @@ class ImagTimeStep:
         samples_reshaped = samples.reshape((-1, samples.shape[-1]))
         self.log_amps = self.vstate.log_value(samples_reshaped)
         self.local_energies = self.get_local_energies(samples_reshaped)
-        return self.log_amps + jnp.log(1 - tau * self.local_energies)
+        # The evolved amplitudes can change sign
+        return self.log_amps + jnp.log(1 - tau * self.local_energies + 0.0j)
 
 
 def get_imag_time_step_vstate(tau, hamiltonian, vstate):
@@ -69,7 +70,8 @@ def get_imag_time_step_vstate(tau, hamiltonian, vstate):
         samps = samples.reshape((-1, samples.shape[-1]))
         loc_ens = local_estimator_fun(log_model, pars, samps, args)
         log_amps = log_model(pars, samps)
-        return log_amps + jnp.log(1 / tau - 1 * loc_ens) + jnp.log(tau)
+        # The evolved amplitudes can change sign
+        return log_amps + jnp.log(1 - tau * loc_ens + 0.0j)
 
     new_vstate = copy.deepcopy(vstate)
     new_vstate._apply_fun = imag_time_model_log_amp
-- 
2.43.0


From 902764f6baa67453f8f4434be475bb7c75adb8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:11 +0000
Subject: [PATCH 37/79] fix: supervised learners notice configurations changed
 in place

---
 GPSKet/supervised/supervised_qgps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 85bcbe4..9f7413b 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -226,7 +226,8 @@ class QGPSLearning:
                 recompute_site_prod = True
 
             if recompute_site_prod:
-                self.confs = confs
+                # Keep a copy to notice if the given array is changed later
+                self.confs = np.array(confs)
                 self.compute_site_prod()
                 self.K_per_sym = None
 
-- 
2.43.0


From 6e0cbe7a99ba7d49e85a360533df76f125a2cf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:19 +0000
Subject: [PATCH 38/79] fix: supervised learners notice reference sites changed
 in place

---
 GPSKet/supervised/supervised_qgps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 9f7413b..a98ce5e 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -100,7 +100,8 @@ class QGPSLearning:
                 self.epsilon.shape[1], dtype=int
             )
         else:
-            self._ref_sites = ref_sites_or_site
+            # Keep a copy to notice if the given array is changed later
+            self._ref_sites = np.array(ref_sites_or_site)
         self._ref_sites_incr_dim = np.tile(
             self._ref_sites, (self.epsilon.shape[0], 1)
         ).T.flatten()
-- 
2.43.0


From 8296268d1d792728e8db2e0902c40b57a596984e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:09 +0000
Subject: [PATCH 39/79] fix: weightings of vanishing target amplitudes

---
 GPSKet/supervised/supervised_qgps.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index a98ce5e..e9c6d05 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -590,7 +590,10 @@ class QGPSLearningExp(QGPSLearning):
         )
 
         multiplicator = self.S_diag * self.fit_data
-        multiplicator[self.exp_amps == 0.0] = -1 / 2
+        zero_amps = self.exp_amps == 0.0
+        multiplicator[zero_amps] = -1 / 2
+        if weightings is not None:
+            multiplicator[zero_amps] *= weightings[zero_amps]
         self.y = _mpi_sum(self.K.conj().T.dot(multiplicator))
 
         if self.complex_expand and self.epsilon.dtype == complex:
-- 
2.43.0


From 5aec2437ce5886f398ecb3c7951a9061130f1272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:31 +0000
Subject: [PATCH 40/79] fix: marginal likelihood of weighted fits in log space

---
 GPSKet/supervised/supervised_qgps.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index e9c6d05..ed263b3 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1156,7 +1156,13 @@ class QGPSLogSpaceFit(QGPSLearningExp):
             else:
                 log_lik = -(len(self.fit_data) * np.log(2 * np.pi * self.noise_tilde))
 
-        log_lik -= np.dot(self.fit_data.conj(), self.fit_data) / self.noise_tilde
+        if self.weightings is not None:
+            log_lik -= (
+                np.dot(self.fit_data.conj(), self.weightings * self.fit_data)
+                / self.noise_tilde
+            )
+        else:
+            log_lik -= np.dot(self.fit_data.conj(), self.fit_data) / self.noise_tilde
         log_lik = _MPI_comm.allreduce(log_lik)
 
         if self.cholesky:
-- 
2.43.0


From e496f2f3478931b8b1146884f81f6a10920db64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:37 +0000
Subject: [PATCH 41/79] fix: prior precisions are restored between the
 evaluations of the noise optimisation

---
 GPSKet/supervised/supervised_qgps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index ed263b3..7e5ffc2 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -828,7 +828,7 @@ class QGPSLearningExp(QGPSLearning):
             def ML(x):
                 self.noise_tilde = np.exp(x[0])
                 if opt_alpha:
-                    np.copyto(self.alpha_mat_ref_sites, alpha_init)
+                    self.alpha_mat_ref_sites = alpha_init.copy()
                 self.setup_fit_noise_dep(weightings=weightings)
                 if opt_alpha:
                     self.opt_alpha_beta(max_iterations=max_alpha_iterations, rvm=rvm)
@@ -837,7 +837,7 @@ class QGPSLearningExp(QGPSLearning):
             def derivative(x):
                 self.noise_tilde = np.exp(x[0])
                 if opt_alpha:
-                    np.copyto(self.alpha_mat_ref_sites, alpha_init)
+                    self.alpha_mat_ref_sites = alpha_init.copy()
                 self.setup_fit_noise_dep(weightings=weightings)
                 if opt_alpha:
                     self.opt_alpha_beta(max_iterations=max_alpha_iterations, rvm=rvm)
@@ -870,7 +870,7 @@ class QGPSLearningExp(QGPSLearning):
 
             self.noise_tilde = np.exp(opt.x)[0]
             if opt_alpha:
-                np.copyto(self.alpha_mat_ref_sites, alpha_init)
+                self.alpha_mat_ref_sites = alpha_init.copy()
             self.setup_fit_noise_dep(weightings=weightings)
 
         if opt_alpha:
-- 
2.43.0


From ae2ef82e549ee0b826873e546cf451557f74d460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:05 +0000
Subject: [PATCH 42/79] fix: noise optimisation in log space with expanded
 complex weights

---
 GPSKet/supervised/supervised_qgps.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 7e5ffc2..2d03b1f 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1112,7 +1112,11 @@ class QGPSLogSpaceFit(QGPSLearningExp):
             )
 
     def prediction_after_setup(self):
-        return self.K.dot(self.weights)
+        if self.complex_expand and self.epsilon.dtype == complex:
+            K = np.hstack((self.K, 1.0j * self.K))
+        else:
+            K = self.K
+        return K.dot(self.weights)
 
     def setup_fit(
         self, confset, log_amplitudes, ref_sites, weightings=None, prior_mean=0.0
-- 
2.43.0


From 9101b5903f9ee833fb0408598c8e0e1e417a53bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:07 +0000
Subject: [PATCH 43/79] fix: fitted weights belong to the final alpha and beta
 when the iterations are limited

---
 GPSKet/supervised/supervised_qgps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 2d03b1f..1a1978e 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -447,8 +447,8 @@ class QGPSLearning:
                     if max_iterations is not None:
                         if j >= max_iterations:
                             converged = True
-                    if not converged:
-                        self.setup_fit_alpha_dep()
+                    # The weights always belong to the current alpha and beta
+                    self.setup_fit_alpha_dep()
                 else:
                     converged = True
 
-- 
2.43.0


From 4440e8d2e16440d86e89a9758bf63c1a0aba9665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:07 +0000
Subject: [PATCH 44/79] fix: rejected updates of alpha leave precomputed
 learners unchanged

---
 GPSKet/supervised/supervised_qgps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 1a1978e..b954707 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -368,7 +368,7 @@ class QGPSLearning:
                         1 - (self.alpha_mat_ref_sites[self.active_elements]) * diag_Sinv
                     )
 
-                    alpha = self.alpha_mat_ref_sites
+                    alpha = self.alpha_mat_ref_sites.copy()
 
                     if opt_alpha:
                         if rvm:
-- 
2.43.0


From 180e9f2f65fc38a2399829d788321f18530e4673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:07 +0000
Subject: [PATCH 45/79] fix: marginal likelihood of weighted data with
 vanishing amplitudes

---
 GPSKet/supervised/supervised_qgps.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index b954707..2143a64 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -622,24 +622,25 @@ class QGPSLearningExp(QGPSLearning):
 
     def log_marg_lik(self):
         if self.weightings is not None:
+            weightings = self.weightings[self.exp_amps != 0.0]
             if self.epsilon.dtype == complex:
                 log_lik = -(
                     np.sum(
-                        self.weightings
+                        weightings
                         * np.log(
                             np.pi
-                            / (self.S_diag[self.exp_amps != 0.0] / self.weightings)
+                            / (self.S_diag[self.exp_amps != 0.0] / weightings)
                         )
                     )
                 )
             else:
                 log_lik = -(
                     np.sum(
-                        self.weightings
+                        weightings
                         * np.log(
                             2
                             * np.pi
-                            / (self.S_diag[self.exp_amps != 0.0] / self.weightings)
+                            / (self.S_diag[self.exp_amps != 0.0] / weightings)
                         )
                     )
                 )
-- 
2.43.0


From d9d9a659af64bfac352dd416f6379c7989b258a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:23 +0000
Subject: [PATCH 46/79] fix: order of the prior precisions of expanded complex
 weights with bias

---
 GPSKet/supervised/supervised_qgps.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 2143a64..ba3fe93 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -115,15 +115,28 @@ class QGPSLearning:
         else:
             full_alpha = self.alpha_mat[self._ref_sites_incr_dim, self.feature_ids]
         if self.include_bias:
-            full_alpha = np.concatenate((full_alpha, self.alpha_bias))
+            if self.complex_expand and self.epsilon.dtype == complex:
+                # Same order as the weights: the bias follows the real (imaginary) parts
+                alpha_real, alpha_imag = np.split(full_alpha, 2)
+                full_alpha = np.concatenate(
+                    (
+                        alpha_real,
+                        self.alpha_bias[:1],
+                        alpha_imag,
+                        self.alpha_bias[1:],
+                    )
+                )
+            else:
+                full_alpha = np.concatenate((full_alpha, self.alpha_bias))
         return full_alpha
 
     @alpha_mat_ref_sites.setter
     def alpha_mat_ref_sites(self, alpha):
         if self.include_bias:
             if self.complex_expand and self.epsilon.dtype == complex:
-                alpha_bias = alpha[-2:]
-                alpha_epsilon = alpha[:-2]
+                alpha_real, alpha_imag = np.split(alpha, 2)
+                alpha_bias = np.array([alpha_real[-1], alpha_imag[-1]])
+                alpha_epsilon = np.concatenate((alpha_real[:-1], alpha_imag[:-1]))
             else:
                 alpha_bias = alpha[-1:]
                 alpha_epsilon = alpha[:-1]
-- 
2.43.0


From ebdff0842d58dee8291ce8cbf4c6f99029531114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:44 +0000
Subject: [PATCH 47/79] fix: sign of the determinant in the noise derivative of
 the marginal likelihood

---
 GPSKet/supervised/supervised_qgps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index ba3fe93..4ce2c86 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -790,11 +790,11 @@ class QGPSLearningExp(QGPSLearning):
         KtK_der = KtK_der[np.ix_(self.active_elements, self.active_elements)]
 
         if self.cholesky:
-            derivative_noise = np.trace(
+            derivative_noise = -np.trace(
                 KtK_der.dot(self.Sinv_L.conj().T.dot(self.Sinv_L))
             )
         else:
-            derivative_noise = np.trace(KtK_der.dot(self.Sinv))
+            derivative_noise = -np.trace(KtK_der.dot(self.Sinv))
 
         if self.complex_expand and self.epsilon.dtype == complex:
             derivative_noise *= 0.5
-- 
2.43.0


From e9281a9801dd019e455dd85ab5d77963d81e66e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:44 +0000
Subject: [PATCH 48/79] fix: precision derivative of the marginal likelihood
 for vanishing features

---
 GPSKet/supervised/supervised_qgps.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 4ce2c86..dd97ee4 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -344,7 +344,9 @@ class QGPSLearning:
         if self.complex_expand and self.epsilon.dtype == complex:
             derivative_alpha[self.active_elements] *= 0.5
 
-        derivative_alpha += 1 / (self.alpha_mat_ref_sites)
+        derivative_alpha[self.active_elements] += (
+            1 / self.alpha_mat_ref_sites[self.active_elements]
+        )
         derivative_alpha -= (self.weights.conj() * self.weights).real
 
         if self.complex_expand or self.epsilon.dtype == float:
-- 
2.43.0


From b1424fdd4be2e1c38b77d9cdd2d332cbe266270f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:12 +0000
Subject: [PATCH 49/79] fix: noise derivative of the marginal likelihood in log
 space

---
 GPSKet/supervised/supervised_qgps.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index dd97ee4..edd1159 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1241,13 +1241,14 @@ class QGPSLogSpaceFit(QGPSLearningExp):
             N = _mpi_sum(np.sum(self.weightings))
             squared_error = _mpi_sum(
                 np.sum(
-                    self.weightings * abs(self.fit_data - self.predict(self.confs)) ** 2
+                    self.weightings
+                    * abs(self.fit_data - self.prediction_after_setup()) ** 2
                 )
             )
         else:
             N = _mpi_sum(len(self.fit_data))
             squared_error = _mpi_sum(
-                np.sum(abs(self.fit_data - self.predict(self.confs)) ** 2)
+                np.sum(abs(self.fit_data - self.prediction_after_setup()) ** 2)
             )
 
         beta_derivative += N * self.noise_tilde
@@ -1256,7 +1257,7 @@ class QGPSLogSpaceFit(QGPSLearningExp):
         if self.epsilon.dtype == float:
             beta_derivative *= 0.5
 
-        return -(self.noise_tilde**2) * beta_derivative
+        return -beta_derivative / (self.noise_tilde**2)
 
     def fit_step(
         self,
-- 
2.43.0


From 4326fa472c5b9b2f2322235cbeeedfdca72186bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:12 +0000
Subject: [PATCH 50/79] fix: noise derivative of the marginal likelihood with
 vanishing amplitudes

---
 GPSKet/supervised/supervised_qgps.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index edd1159..9d27405 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -774,6 +774,11 @@ class QGPSLearningExp(QGPSLearning):
                     )
                 )
 
+        # The variance of vanishing amplitudes does not depend on the noise
+        zero_amps = self.exp_amps == 0.0
+        del_S = np.where(zero_amps, 0.0, del_S)
+        fit_data = np.where(zero_amps, 0.0, self.fit_data)
+
         Delta_S = -(self.S_diag**2 * del_S)
 
         if self.weightings is not None:
@@ -805,10 +810,10 @@ class QGPSLearningExp(QGPSLearning):
 
         weights = self.weights[self.active_elements]
 
-        derivative_noise -= self.fit_data.conj().dot(Delta_S * self.fit_data)
+        derivative_noise -= fit_data.conj().dot(Delta_S * fit_data)
         derivative_noise -= weights.conj().dot(KtK_der.dot(weights))
 
-        derivative_noise += 2 * self.fit_data.conj().dot(Delta_S * K.dot(weights))
+        derivative_noise += 2 * fit_data.conj().dot(Delta_S * K.dot(weights))
 
         derivative_noise = _MPI_comm.allreduce(derivative_noise)
 
-- 
2.43.0


From d25158e3fc5da87c4602ae27a97191d9b0916c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:06 +0000
Subject: [PATCH 51/79] fix: growing relevance vector machine with current
 versions of numpy

---
 GPSKet/supervised/supervised_qgps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 9d27405..1986978 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1015,7 +1015,7 @@ class QGPSLearningExp(QGPSLearning):
         )
 
         deltaL[delete] = abs(Qdel) ** 2 / (Sdel - Adel) - np.log(1 - Sdel / Adel)
-        deltaL = np.nan_to_num(deltaL, nan=np.NINF, posinf=np.NINF, neginf=np.NINF)
+        deltaL = np.nan_to_num(deltaL, nan=-np.inf, posinf=-np.inf, neginf=-np.inf)
 
         # find feature which caused largest change in likelihood
 
@@ -1035,7 +1035,7 @@ class QGPSLearningExp(QGPSLearning):
                 self.active_elements[feature_index] == True
                 and np.sum(self.active_elements) >= 2
             ):
-                alpha[feature_index] = np.PINF
+                alpha[feature_index] = np.inf
         self.alpha_mat_ref_sites = alpha
 
         return
-- 
2.43.0


From 96a789f858ea8430175c41ba33fdfc5fce8136d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:34 +0000
Subject: [PATCH 52/79] fix: growing relevance vector machine with a prior mean

---
 GPSKet/supervised/supervised_qgps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 1986978..71f050f 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1087,7 +1087,7 @@ class QGPSLearningExp(QGPSLearning):
             self.setup_fit_alpha_dep()
 
         if not self.precomputed_features:
-            self.update_epsilon_with_weights()
+            self.update_epsilon_with_weights(prior_mean=prior_mean)
 
         return
 
-- 
2.43.0


From 3f500b6b68654bda50562b75d81e9dc5ffdb56e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:56 +0000
Subject: [PATCH 53/79] fix: growing relevance vector machine with complex
 weights

---
 GPSKet/supervised/supervised_qgps.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 71f050f..b329ad9 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -933,11 +933,10 @@ class QGPSLearningExp(QGPSLearning):
         else:
             XXa = self.KtK[:, self.active_elements]
             XS = np.dot(XXa, self.Sinv)
-            S = bxx - self.beta**2 * np.sum(XS * XXa, 1)
+            S = bxx - self.beta**2 * np.sum(XS * XXa.conj(), 1)
             Q = bxy - self.beta**2 * np.dot(XS, self.y[self.active_elements])
 
         S = S.real
-        Q = Q.real
         # Use following:
         # (EQ 1) q = A*Q/(A - S) ; s = A*S/(A-S), so if A = np.PINF q = Q, s = S
         qi = np.copy(Q)
@@ -1062,12 +1061,12 @@ class QGPSLearningExp(QGPSLearning):
             if np.min(abs(np.diag(self.KtK))) < np.finfo(np.float32).eps:
                 alpha[0] = np.finfo(np.float32).eps
             else:
-                projections = abs(self.y) ** 2 / np.diag(self.KtK)
+                projections = abs(self.y) ** 2 / np.diag(self.KtK).real
                 ind = np.argmax(projections)
 
                 assert _n_nodes == 1
 
-                alpha_est = np.diag(self.KtK)[ind] / (projections[ind] - 1 / self.beta)
+                alpha_est = np.diag(self.KtK).real[ind] / (projections[ind] - 1 / self.beta)
 
                 if alpha_est > 0.0:
                     alpha[ind] = alpha_est
-- 
2.43.0


From f77181e9b7b6305444e7753cb9c3bc3eac7f1d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:56 +0000
Subject: [PATCH 54/79] fix: growing relevance vector machine with separate
 real and imaginary weights

---
 GPSKet/supervised/supervised_qgps.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index b329ad9..83df7b7 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -971,6 +971,11 @@ class QGPSLearningExp(QGPSLearning):
     def update_precisions(self, s, q, S, Q):
         deltaL = np.zeros(Q.shape[0])
 
+        if self.complex_expand and self.epsilon.dtype == complex:
+            # Account for the noise being split between real and imaginary parts
+            Q = np.sqrt(2) * Q
+            q = np.sqrt(2) * q
+
         theta = abs(q) ** 2 - s
         add = (theta > 0) * (self.active_elements == False)
         recompute = (theta > 0) * (self.active_elements == True)
@@ -1062,6 +1067,8 @@ class QGPSLearningExp(QGPSLearning):
                 alpha[0] = np.finfo(np.float32).eps
             else:
                 projections = abs(self.y) ** 2 / np.diag(self.KtK).real
+                if self.complex_expand and self.epsilon.dtype == complex:
+                    projections *= 2
                 ind = np.argmax(projections)
 
                 assert _n_nodes == 1
-- 
2.43.0


From 1d6a30bdbf9c4a37620007cb311da4f3e67eb065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:09 +0000
Subject: [PATCH 55/79] fix: Newton step of generalised linear models

---
 GPSKet/supervised/supervised_qgps.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 83df7b7..f2b2b3b 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1555,7 +1555,7 @@ class QGPSGenLinMod(QGPSLearningExp):
                     check_finite=False,
                     lower=True,
                 )
-                update_directions = -sp.linalg.cho_solve(
+                update_directions[self.active_elements] = -sp.linalg.cho_solve(
                     (L, True), self.grad[self.active_elements]
                 )
                 self.cholesky = True
@@ -1563,7 +1563,9 @@ class QGPSGenLinMod(QGPSLearningExp):
                 self.Sinv = sp.linalg.pinvh(
                     self.KtK_alpha[np.ix_(self.active_elements, self.active_elements)]
                 )
-                update_directions = -self.Sinv.dot(self.grad[self.active_elements])
+                update_directions[self.active_elements] = -self.Sinv.dot(
+                    self.grad[self.active_elements]
+                )
                 self.cholesky = False
 
             _MPI_comm.Bcast(self.Sinv, root=0)
@@ -1580,10 +1582,7 @@ class QGPSGenLinMod(QGPSLearningExp):
             else:
                 gamma = 1.0
             if self.cholesky:
-                np.copyto(
-                    weights[self.active_elements],
-                    weights[self.active_elements] + gamma * update_directions,
-                )
+                weights = weights + gamma * update_directions
             else:
                 if _rank == 0:
                     print("Cholesky fail")
-- 
2.43.0


From 9f21a353adabaebda6c674fb77321313af36efa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:09 +0000
Subject: [PATCH 56/79] fix: generalised linear models keep their weights when
 the precisions change

---
 GPSKet/supervised/supervised_qgps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index f2b2b3b..da05d73 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1384,7 +1384,7 @@ class QGPSGenLinMod(QGPSLearningExp):
 
         if self.precomputed_features:
             assert self.weights is not None
-            weights = self.weights
+            weights = self.weights.copy()
         else:
             if self.weights is None:
                 weights = (
@@ -1395,7 +1395,7 @@ class QGPSGenLinMod(QGPSLearningExp):
                 if self.complex_expand and self.epsilon.dtype == complex:
                     weights = np.concatenate((weights.real, weights.imag))
             else:
-                weights = self.weights
+                weights = self.weights.copy()
 
         if self.complex_expand and self.epsilon.dtype == complex:
             K = np.hstack((self.K, 1.0j * self.K))
-- 
2.43.0


From ce1de0b219a4ff85ec8536ec34e026fcd764ef59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:09 +0000
Subject: [PATCH 57/79] fix: generalised linear models leave the given
 weightings unchanged

---
 GPSKet/supervised/supervised_qgps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index da05d73..172d98e 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1360,7 +1360,7 @@ class QGPSGenLinMod(QGPSLearningExp):
             self.weightings = np.ones(len(self.exp_amps))
         else:
             self.weightings = weightings
-        self.weightings *= abs(prefactor) ** 2
+        self.weightings = self.weightings * abs(prefactor) ** 2
         self.N_data = _mpi_sum(np.sum(self.weightings))
         if self.noise_tilde != 0.0:
             self.beta = 1 / self.noise_tilde
-- 
2.43.0


From 65ac756650a92d333d270e7c8082c4a4d2766c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:09 +0000
Subject: [PATCH 58/79] fix: generalised linear models with precomputed
 features

---
 GPSKet/supervised/supervised_qgps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 172d98e..9652ccc 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1346,7 +1346,8 @@ class QGPSGenLinMod(QGPSLearningExp):
         prior_mean=0.0,
     ):
         self.ref_sites = ref_sites
-        self.weights = None
+        if not self.precomputed_features:
+            self.weights = None
         self.exp_amps = target_amplitudes.astype(self.epsilon.dtype)
         self.fit_data = self.exp_amps
         self.prior_mean = prior_mean
-- 
2.43.0


From f9ffb19965c2cce7bc76d174d9a9e0f71b2f290b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:30 +0000
Subject: [PATCH 59/79] fix: inactive weights of generalised linear models

---
 GPSKet/supervised/supervised_qgps.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 9652ccc..854e5a2 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1406,6 +1406,10 @@ class QGPSGenLinMod(QGPSLearningExp):
         self.valid_kern = _mpi_sum(np.sum(abs(K), axis=0)) > self.kern_cutoff
         self.active_elements = np.logical_and(self.active_elements, self.valid_kern)
 
+        # Inactive weights vanish and do not contribute to the predictions
+        weights = np.where(self.active_elements, weights, 0.0)
+        K = np.where(self.active_elements, K, 0.0)
+
         if log_fit_init:
             if self.noise_tilde == 0.0:
                 S_diag = np.ones(len(self.exp_amps))
-- 
2.43.0


From a0cfaa1acf9c37b98a521a8238b3948b7af9990e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:30 +0000
Subject: [PATCH 60/79] fix: number of data of generalised linear models with a
 prior mean

---
 GPSKet/supervised/supervised_qgps.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 854e5a2..d9d1b35 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -414,7 +414,7 @@ class QGPSLearning:
                     if opt_beta:
                         if self.cholesky:
                             if self.weightings is not None:
-                                N = _mpi_sum(np.sum(self.weightings))
+                                N = self.number_of_data()
                                 squared_error = _mpi_sum(
                                     np.sum(
                                         self.weightings
@@ -467,6 +467,9 @@ class QGPSLearning:
                 else:
                     converged = True
 
+    def number_of_data(self):
+        return _mpi_sum(np.sum(self.weightings))
+
     def set_up_prediction(self, confset):
         if self.ref_sites is None:
             self.ref_sites = 0
@@ -1333,6 +1336,9 @@ class QGPSGenLinMod(QGPSLearningExp):
             K = self.K
         return np.exp(K.dot(self.weights))
 
+    def number_of_data(self):
+        return self.N_data
+
     def setup_fit(
         self,
         confset,
@@ -1361,8 +1367,8 @@ class QGPSGenLinMod(QGPSLearningExp):
             self.weightings = np.ones(len(self.exp_amps))
         else:
             self.weightings = weightings
-        self.weightings = self.weightings * abs(prefactor) ** 2
         self.N_data = _mpi_sum(np.sum(self.weightings))
+        self.weightings = self.weightings * abs(prefactor) ** 2
         if self.noise_tilde != 0.0:
             self.beta = 1 / self.noise_tilde
         else:
-- 
2.43.0


From dd4c4bf7853917bd6c97ab9f3846c2a4ced03c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:56 +0000
Subject: [PATCH 61/79] fix: causal convolutions with even kernel sizes

---
 GPSKet/nn/causal_conv.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/GPSKet/nn/causal_conv.py b/GPSKet/nn/causal_conv.py
index 896392b..aac6cbb 100644
--- a/GPSKet/nn/causal_conv.py
+++ b/GPSKet/nn/causal_conv.py
@@ -34,6 +34,11 @@ class MaskedConv2D(nn.Module):
             features=self.features,
             kernel_size=self.mask.shape[:2],
             kernel_dilation=self.dilation,
+            # Keep the site itself at the element size // 2 of the kernel
+            padding=[
+                (self.dilation * (size // 2), self.dilation * ((size - 1) // 2))
+                for size in self.mask.shape[:2]
+            ],
             mask=mask_ext,
             param_dtype=self.param_dtype,
             kernel_init=self.kernel_init,
-- 
2.43.0


From f87afb5d5423ade1d6d1b592e344bb23f99977ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:02 +0000
Subject: [PATCH 62/79] fix: H2O dataset after an interrupted request

---
 GPSKet/datasets/h2o.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/GPSKet/datasets/h2o.py b/GPSKet/datasets/h2o.py
index 391c9e0..4acfdad 100644
--- a/GPSKet/datasets/h2o.py
+++ b/GPSKet/datasets/h2o.py
@@ -33,7 +33,8 @@ def _H2O_raw(basis, method, datapath):
         os.makedirs(datapath)
     dsid = f"{basis}_{method}"
 
-    if not os.path.exists(os.path.join(datapath, f"h1_{dsid}.npy")):
+    # The files that are written last tell if the data is complete
+    if not os.path.exists(os.path.join(datapath, f"h2_{dsid}.npy")):
         loc_coeff = myhf.mo_coeff
         if basis != "CANONICAL":
             loc_coeff = lo.orth_ao(mol, "meta_lowdin")
@@ -63,7 +64,7 @@ def _H2O_raw(basis, method, datapath):
 
     nuc_en = mol.energy_nuc()
 
-    if not os.path.exists(os.path.join(datapath, f"all_configs_H2O_{dsid}.npy")):
+    if not os.path.exists(os.path.join(datapath, f"all_amplitudes_H2O_{dsid}.npy")):
         if method == "FCI":
             # Run FCI
             cisolver = fci.direct_spin1.FCISolver(mol)
-- 
2.43.0


From 3f23ffc3629de75d173a1df897fb438cb3bfdd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:39 +0000
Subject: [PATCH 63/79] fix: CISD amplitudes of the H2O dataset in localised
 orbitals

---
 GPSKet/datasets/h2o.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/GPSKet/datasets/h2o.py b/GPSKet/datasets/h2o.py
index 4acfdad..37a8914 100644
--- a/GPSKet/datasets/h2o.py
+++ b/GPSKet/datasets/h2o.py
@@ -56,6 +56,7 @@ def _H2O_raw(basis, method, datapath):
         # Find the hamiltonian in the local basis
         h1 = np.linalg.multi_dot((loc_coeff.T, myhf.get_hcore(), loc_coeff))
         h2 = ao2mo.restore(1, ao2mo.kernel(mol, loc_coeff), norb)
+        np.save(os.path.join(datapath, f"coeff_{dsid}.npy"), loc_coeff)
         np.save(os.path.join(datapath, f"h1_{dsid}.npy"), h1)
         np.save(os.path.join(datapath, f"h2_{dsid}.npy"), h2)
     else:
@@ -74,6 +75,12 @@ def _H2O_raw(basis, method, datapath):
             cisolver = ci.CISD(myhf)
             e, c = cisolver.kernel()
             c = cisolver.to_fcivec(c)
+            # CISD is based on the canonical orbitals, express the state in the local basis
+            loc_coeff = np.load(os.path.join(datapath, f"coeff_{dsid}.npy"))
+            rotation = np.linalg.multi_dot(
+                (myhf.mo_coeff.T, myhf.get_ovlp(), loc_coeff)
+            )
+            c = fci.addons.transform_ci_for_orbital_rotation(c, norb, nelec, rotation)
         configs = []
         amps = []
 
-- 
2.43.0


From de6fe31492600ed57332d84e794aeb45cfdc30e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:23 +0000
Subject: [PATCH 64/79] fix: VMC_SRRMSProp on several MPI processes

Only the root process receives the gathered arrays, so the other processes
must not reshape them, and the collective operations must be ordered by
their tokens for all processes to enter them in the same order.
---
 GPSKet/driver/VMC_SRRMSProp.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/GPSKet/driver/VMC_SRRMSProp.py b/GPSKet/driver/VMC_SRRMSProp.py
index 50f8d0b..860a788 100644
--- a/GPSKet/driver/VMC_SRRMSProp.py
+++ b/GPSKet/driver/VMC_SRRMSProp.py
@@ -24,16 +24,20 @@ def SRRMSProp(
     # Center local energies
     local_energies = local_energies.flatten()
     if e_mean is None:
-        e_mean = nkstats.mean(local_energies)
+        e_mean, token = mpi.mpi_mean_jax(jnp.mean(local_energies))
+    else:
+        token = None
     local_energies_centered = -2*jnp.conj(local_energies - e_mean) * jnp.sqrt(N_mc)
-    local_energies_centered, token = mpi.mpi_gather_jax(local_energies_centered)
-    local_energies_centered = local_energies_centered.reshape(-1, *local_energies_centered.shape[2:])
+    local_energies_centered, token = mpi.mpi_gather_jax(local_energies_centered, token=token)
 
     # Center jacobians
-    O_mean = nkstats.mean(O_L, axis=0)
+    O_mean, token = mpi.mpi_mean_jax(jnp.mean(O_L, axis=0), token=token)
     O_L = (O_L - O_mean) * jnp.sqrt(N_mc)
     O_L, token = mpi.mpi_gather_jax(O_L, token=token)
-    O_L = O_L.reshape(-1, *O_L.shape[2:])
+    if mpi.rank == 0:
+        # Only the root process receives the gathered quantities
+        local_energies_centered = local_energies_centered.reshape(-1, *local_energies_centered.shape[2:])
+        O_L = O_L.reshape(-1, *O_L.shape[2:])
 
     # Convert quantities to dense format
     if mode == "complex":
@@ -64,7 +68,7 @@ def SRRMSProp(
         if isinstance(updates, tuple):
             updates, _ = updates
     else:
-        updates = jnp.zeros(local_energies_centered.shape[0], dtype=jnp.float64)
+        updates = jnp.zeros_like(ema)
     updates, token = mpi.mpi_bcast_jax(updates, token=token, root=0)
     
     # If complex mode and we have complex parameters, we need
-- 
2.43.0


From 584e37346951103264dd338064fff687cc8a7296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:43 +0000
Subject: [PATCH 65/79] fix: gradient of ARStateFitting on several MPI
 processes

The loss is the mean over the processes, but its gradient was summed, so that
the step size grew with the number of processes.
---
 GPSKet/driver/autoreg_state_fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/driver/autoreg_state_fitting.py b/GPSKet/driver/autoreg_state_fitting.py
index 162737f..ce7f1af 100644
--- a/GPSKet/driver/autoreg_state_fitting.py
+++ b/GPSKet/driver/autoreg_state_fitting.py
@@ -90,6 +90,6 @@ def _loss_and_grad(params, model_state, logpsi, mini_batch):
         params, model_state, logpsi, mini_batch
     )
     loss, _ = mpi.mpi_mean_jax(loss)
-    grad = jax.tree_util.tree_map(lambda p: mpi.mpi_sum_jax(p)[0], grad)
+    grad = jax.tree_util.tree_map(lambda p: mpi.mpi_mean_jax(p)[0], grad)
     grad = jax.tree_util.tree_map(jnp.conj, grad)
     return loss, grad
-- 
2.43.0


From f4d28f4bc69c004dfa0001321573b681f723a37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:12 +0000
Subject: [PATCH 66/79] fix: PlaquetteqGPS with symmetry operations but no
 inverse operations

Assigning apply_fast_update inside setup raises, as flax freezes the
module attributes, so the model could not be used with a single
callable. Require apply_fast_update=False instead, as qGPS does.
---
 GPSKet/models/plaquetteqGPS.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/GPSKet/models/plaquetteqGPS.py b/GPSKet/models/plaquetteqGPS.py
index 39443af..7ff7ff5 100644
--- a/GPSKet/models/plaquetteqGPS.py
+++ b/GPSKet/models/plaquetteqGPS.py
@@ -11,7 +11,6 @@ from GPSKet.nn.initializers import normal
 from GPSKet.models.qGPS import no_syms
 
 
-import warnings
 
 
 # TODO: Improve symmetrisation framework (same as for qGPS)
@@ -48,11 +47,8 @@ class PlaquetteqGPS(nn.Module):
             self.symmetries_inverse = self.syms[1]
         else:
             self.symmetries = self.syms
-            if self.apply_fast_update:
-                warnings.warn(
-                    "Attention! Fast updating is not applied in qGPS as the inverse symmetry operations are not supplied."
-                )
-            self.apply_fast_update = False
+            # Fast updating requires the inverse symmetry operations
+            assert not self.apply_fast_update
         self.L = self.hilbert.size
         self.local_dim = self.hilbert.local_size
         plaquettes = np.array(self.plaquettes)
-- 
2.43.0


From 11965e4b8fa2f33f9c743e16cc61b41e0b5eb9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:08 +0000
Subject: [PATCH 67/79] fix: derivative of the marginal likelihood of complex
 generalised linear models

The effective number of parameters enters with a factor 1/2 for complex
data, as in the update of beta.
---
 GPSKet/supervised/supervised_qgps.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index d9d1b35..e0cac56 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1741,7 +1741,10 @@ class QGPSGenLinMod(QGPSLearningExp):
 
         gamma = 1 - (self.alpha_mat_ref_sites[self.active_elements]) * diag_Sinv
 
-        log_lik_der -= np.sum(gamma) / self.beta
+        if self.complex_expand and self.epsilon.dtype == complex:
+            log_lik_der -= 0.5 * np.sum(gamma) / self.beta
+        else:
+            log_lik_der -= np.sum(gamma) / self.beta
 
         log_lik_der -= _mpi_sum(
             np.sum(self.weightings * abs(self.fit_data - pred) ** 2)
-- 
2.43.0


From fd84d1fef8b362739b28ad03712e7211ee32ab0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:39 +0000
Subject: [PATCH 68/79] fix: open boundary conditions of the ARGPS Hubbard
 chain

---
 scripts/ARGPS/argps/systems.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/ARGPS/argps/systems.py b/scripts/ARGPS/argps/systems.py
index a8812d2..2dbbc68 100644
--- a/scripts/ARGPS/argps/systems.py
+++ b/scripts/ARGPS/argps/systems.py
@@ -152,8 +152,9 @@ def get_Hubbard_system(config: ConfigDict) -> FermiHubbardOnTheFly:
     )
 
     # Setup Hamiltonian
-    edges = np.array([[i, (i + 1) % Lx] for i in range(Lx)])
-    t = t * np.ones(Lx)
+    n_bonds = Lx if config.pbc else Lx - 1
+    edges = np.array([[i, (i + 1) % Lx] for i in range(n_bonds)])
+    t = t * np.ones(n_bonds)
     if config.pbc and Lx % 4 == 0:
         t[-1] *= -1
     ha = FermiHubbardOnTheFly(hi, edges, U=U, t=t)
-- 
2.43.0


From fae43bb84f551f66a31de50cbef86b412111c533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:39 +0000
Subject: [PATCH 69/79] fix: exchange environments of the CPD backflow in the
 orbital basis

---
 scripts/cpd-backflow/cpd_backflow/models.py  | 11 +----------
 scripts/cpd-backflow/cpd_backflow/systems.py |  8 +++++---
 2 files changed, 6 insertions(+), 13 deletions(-)

diff --git a/scripts/cpd-backflow/cpd_backflow/models.py b/scripts/cpd-backflow/cpd_backflow/models.py
index cae23f2..7c714f0 100644
--- a/scripts/cpd-backflow/cpd_backflow/models.py
+++ b/scripts/cpd-backflow/cpd_backflow/models.py
@@ -298,18 +298,9 @@ def get_top_k_orbital_indices(config: ConfigDict, exchange_cutoff: int, workdir:
             workdir = os.getcwd()
         exchange_path = os.path.join(workdir, 'exchange.npy')
         if os.path.exists(exchange_path):
-            em = np.load(exchange_path) # (norb, norb)
+            em = np.load(exchange_path) # (norb, norb), in the orbital basis
         else:
             raise FileNotFoundError('No exchange matrix found in workdir')
-        
-        # Transform to a local orbital basis, if necessary
-        if 'local' in config.basis:
-            basis_path = os.path.join(workdir, 'basis.npy')
-            if os.path.exists(basis_path):
-                basis = np.load(basis_path) # (norb, norb)
-            else:
-                raise FileNotFoundError('No basis file found in workdir')
-            em = np.linalg.multi_dot((basis.T, em, basis))
 
         # Generate environment matrix of top-K closest coupled orbitals for each orbital
         top_k_orbital_indices = np.flip(np.argsort(np.abs(em), axis=1)[:, -exchange_cutoff:], axis=1)
diff --git a/scripts/cpd-backflow/cpd_backflow/systems.py b/scripts/cpd-backflow/cpd_backflow/systems.py
index 8699025..aabbafc 100644
--- a/scripts/cpd-backflow/cpd_backflow/systems.py
+++ b/scripts/cpd-backflow/cpd_backflow/systems.py
@@ -163,11 +163,13 @@ def get_molecular_system(config: ConfigDict, workdir: Optional[str]=None, store_
             if not os.path.exists(exchange_path):
                 # Get converged density matrix from the Hartree Fock
                 dm = mf.make_rdm1()
+                if dm.ndim == 3:
+                    # Sum over spins for open shells
+                    dm = dm[0] + dm[1]
                 # Get exchange matrix
                 _, em = mf.get_jk(mol, dm)
-                # Transform to a local orbital basis, if necessary
-                if 'local' in config.basis:
-                    em = np.linalg.multi_dot((basis.T, em, basis))
+                # Transform to the orbital basis
+                em = np.linalg.multi_dot((basis.T, em, basis))
                 np.save(exchange_path, em)
     else:
         h1 = None
-- 
2.43.0


From 4b5687f9228f39ba61f3972f7e31eb6a2f459cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:39 +0000
Subject: [PATCH 70/79] fix: generalised Hartree-Fock orbitals of open shells
 from file

---
 scripts/cpd-backflow/cpd_backflow/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/cpd-backflow/cpd_backflow/models.py b/scripts/cpd-backflow/cpd_backflow/models.py
index 7c714f0..366f866 100644
--- a/scripts/cpd-backflow/cpd_backflow/models.py
+++ b/scripts/cpd-backflow/cpd_backflow/models.py
@@ -237,7 +237,7 @@ def get_hf_orbitals_from_file(config: ConfigDict, n_elec: Tuple[int, int], workd
                 hf_orbitals_b = hf_orbitals[:, :n_elec[1]]
                 orbitals = np.zeros((2*norb, nelec))
                 orbitals[:norb, :n_elec[0]] = hf_orbitals_a
-                orbitals[norb:, n_elec[1]:] = hf_orbitals_b
+                orbitals[norb:, n_elec[0]:] = hf_orbitals_b
             else:
                 nelec = hf_orbitals.shape[1]*2
                 orbitals = np.zeros((2*norb, nelec))
-- 
2.43.0


From ee5f1dd5cfb2d61566c8719402fbc57b258ec250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:39 +0000
Subject: [PATCH 71/79] fix: exchange environments of generalised CPD backflow
 orbitals

---
 scripts/cpd-backflow/cpd_backflow/models.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/cpd-backflow/cpd_backflow/models.py b/scripts/cpd-backflow/cpd_backflow/models.py
index 366f866..a61ef8f 100644
--- a/scripts/cpd-backflow/cpd_backflow/models.py
+++ b/scripts/cpd-backflow/cpd_backflow/models.py
@@ -93,6 +93,9 @@ def get_model(config: ConfigDict, hilbert: HomogeneousHilbert, hamiltonian: Hami
                 config.model.exchange_cutoff,
                 workdir
             )
+            if not config.model.fixed_magnetization:
+                # The same environment for the spin-up and spin-down orbitals
+                environments = np.concatenate((environments, environments), axis=0)
             environments = HashableArray(environments)
         else:
             raise ValueError("Range cutoff is currently only supported for molecular systems.")
-- 
2.43.0


From f5d3c097d8278ea66a5b3a86a4fff613627ca259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:39 +0000
Subject: [PATCH 72/79] fix: Fermi-Hubbard experiments resumed from the saved
 configuration

---
 scripts/cpd-backflow/cpd_backflow/systems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/cpd-backflow/cpd_backflow/systems.py b/scripts/cpd-backflow/cpd_backflow/systems.py
index aabbafc..faf0eaa 100644
--- a/scripts/cpd-backflow/cpd_backflow/systems.py
+++ b/scripts/cpd-backflow/cpd_backflow/systems.py
@@ -216,7 +216,7 @@ def get_FermiHubbard_system(config: ConfigDict) -> FermiHubbardOnTheFly:
         g = nk.graph.Chain(Lx, pbc=config.pbc)
     if n_elec is None:
         n_elec = (g.n_nodes//2, g.n_nodes//2)
-    hi = qk.hilbert.FermionicDiscreteHilbert(g.n_nodes, n_elec=n_elec)
+    hi = qk.hilbert.FermionicDiscreteHilbert(g.n_nodes, n_elec=tuple(n_elec))
 
     # Setup Hamiltonian
     edges = np.array(g.edges())
-- 
2.43.0


From d2f9d33803a23cb7f7201656c9ab65c1e7382eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:39 +0000
Subject: [PATCH 73/79] fix: no optimisation step is skipped when a CPD
 backflow run is resumed

---
 scripts/cpd-backflow/cpd_backflow/vmc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/cpd-backflow/cpd_backflow/vmc.py b/scripts/cpd-backflow/cpd_backflow/vmc.py
index 1977aa1..0a4147d 100644
--- a/scripts/cpd-backflow/cpd_backflow/vmc.py
+++ b/scripts/cpd-backflow/cpd_backflow/vmc.py
@@ -149,7 +149,7 @@ def main(argv):
         logger = CSVLogger(os.path.join(workdir, "metrics.csv"), fieldnames)
 
     # Run training loop
-    if initial_step < config.total_steps:
+    if initial_step <= config.total_steps:
         if _MPI_rank == 0:
             logging.info(f"Model has {vs.n_parameters} parameters")
             logging.info('Starting training loop; initial compile can take a while...')
@@ -202,7 +202,7 @@ def main(argv):
                 logging.info(f"Stored checkpoint at step {step} to {checkpoint_path}")
 
     # Descent finishing
-    if config.get('descent_finishing', None) and initial_step < config.total_steps + config.descent_finishing.total_steps:
+    if config.get('descent_finishing', None) and initial_step <= config.total_steps + config.descent_finishing.total_steps:
         # Switch to first SGD optimizer
         op = nk.optimizer.Sgd(learning_rate=config.descent_finishing.learning_rate)
         vmc.optimizer = op
@@ -216,7 +216,7 @@ def main(argv):
             best_energy = best_params["Energy"] if best_params else np.inf
             best_variance = best_params["Variance"] if best_params else np.inf
         total_steps = config.total_steps + config.descent_finishing.total_steps
-        for step in range(step+1, total_steps + 1):
+        for step in range(max(initial_step, config.total_steps + 1), total_steps + 1):
             # Training step
             vmc.advance()
             acceptance = vmc.state.sampler_state.acceptance
-- 
2.43.0


From c0d93076ed21701beaa1b813db0a725e71eedb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:39 +0000
Subject: [PATCH 74/79] fix: checkpoints of VMC_SRRMSProp contain the
 squared-gradient average

---
 scripts/cpd-backflow/cpd_backflow/vmc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/cpd-backflow/cpd_backflow/vmc.py b/scripts/cpd-backflow/cpd_backflow/vmc.py
index 0a4147d..0afd130 100644
--- a/scripts/cpd-backflow/cpd_backflow/vmc.py
+++ b/scripts/cpd-backflow/cpd_backflow/vmc.py
@@ -65,7 +65,7 @@ def serialize_VMC_SRRMSProp(driver: VMC_SRRMSProp):
     state_dict = {
         "variables": serialization.to_state_dict(driver.state.variables),
         "optimizer": serialization.to_state_dict(driver._optimizer_state),
-        "ema": serialization.to_state_dict(driver.preconditioner._ema),
+        "ema": serialization.to_state_dict(driver._ema),
         "step": driver._step_count
     }
     return state_dict
@@ -90,8 +90,8 @@ serialization.register_serialization_state(
 
 serialization.register_serialization_state(
     VMC_SRRMSProp,
-    serialize_VMC,
-    deserialize_VMC
+    serialize_VMC_SRRMSProp,
+    deserialize_VMC_SRRMSProp
 )
 
 
-- 
2.43.0


From b52e85172f9c6e0633037d09a0e33d50125bc13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:45 +0000
Subject: [PATCH 75/79] fix: an interrupted write keeps the previous
 configuration and best parameters

---
 scripts/ARGPS/argps/utils.py               |  4 +++-
 scripts/cpd-backflow/cpd_backflow/utils.py | 10 +++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/scripts/ARGPS/argps/utils.py b/scripts/ARGPS/argps/utils.py
index b71c7af..b607ed6 100644
--- a/scripts/ARGPS/argps/utils.py
+++ b/scripts/ARGPS/argps/utils.py
@@ -8,10 +8,12 @@ from datetime import timedelta, time
 def save_config(workdir, config):
     os.makedirs(workdir, exist_ok=True)
     filepath = os.path.join(workdir, "config.yaml")
-    with open(filepath, "w") as f:
+    # An interrupted write must not damage the configuration of previous runs
+    with open(filepath + ".tmp", "w") as f:
         yaml.safe_dump(
             config.to_dict(), f, default_flow_style=False, allow_unicode=True
         )
+    os.replace(filepath + ".tmp", filepath)
 
 
 def read_config(workdir):
diff --git a/scripts/cpd-backflow/cpd_backflow/utils.py b/scripts/cpd-backflow/cpd_backflow/utils.py
index b095d07..9b1d338 100644
--- a/scripts/cpd-backflow/cpd_backflow/utils.py
+++ b/scripts/cpd-backflow/cpd_backflow/utils.py
@@ -10,10 +10,12 @@ from flax import serialization
 def save_config(workdir, config):
     os.makedirs(workdir, exist_ok=True)
     filepath = os.path.join(workdir, "config.yaml")
-    with open(filepath, "w") as f:
+    # An interrupted write must not damage the configuration of previous runs
+    with open(filepath + ".tmp", "w") as f:
         yaml.safe_dump(
             config.to_dict(), f, default_flow_style=False, allow_unicode=True
         )
+    os.replace(filepath + ".tmp", filepath)
 
 
 def read_config(workdir):
@@ -115,6 +117,8 @@ def save_best_params(workdir: str, params: PyTree, filename: str='best_params'):
     if not os.path.isdir(workdir):
         raise ValueError(f"The argument {workdir} is not a valid path to an existing directory.")
     params_file = os.path.join(workdir, f"{filename}.mpack")
-    with open(params_file, "wb") as f:
+    # An interrupted write must not damage the best parameters found so far
+    with open(params_file + ".tmp", "wb") as f:
         binary_data = serialization.to_bytes(params)
-        f.write(binary_data)
\ No newline at end of file
+        f.write(binary_data)
+    os.replace(params_file + ".tmp", params_file)
-- 
2.43.0


From 8aa44ab8bc4f8728179adb19f20105b87814510e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:05 +0000
Subject: [PATCH 76/79] fix: ab-initio scripts continue after a single recorded
 step

---
 scripts/GPS_for_ab_initio/H2O.py    | 2 +-
 scripts/GPS_for_ab_initio/H4x4x4.py | 2 +-
 scripts/GPS_for_ab_initio/H50_1D.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/GPS_for_ab_initio/H2O.py b/scripts/GPS_for_ab_initio/H2O.py
index aaf2636..f9e4d40 100644
--- a/scripts/GPS_for_ab_initio/H2O.py
+++ b/scripts/GPS_for_ab_initio/H2O.py
@@ -302,7 +302,7 @@ gs = nk.VMC(ha, op, variational_state=vs, preconditioner=sr)
 if _rank == 0:
     if exists("./out.txt"):
         vs.parameters = pickle.load(open("parameters.pickle", "rb"))
-        out_prev = np.genfromtxt("out.txt", usecols=(0, 1, 2, 3))
+        out_prev = np.genfromtxt("out.txt", usecols=(0, 1, 2, 3)).reshape((-1, 4))
         if out_prev.shape[0] > 0:
             best_var_arg = np.argmin(out_prev[:, 3])
             best_var = out_prev[best_var_arg, 3]
diff --git a/scripts/GPS_for_ab_initio/H4x4x4.py b/scripts/GPS_for_ab_initio/H4x4x4.py
index 7ea4df8..41053d1 100644
--- a/scripts/GPS_for_ab_initio/H4x4x4.py
+++ b/scripts/GPS_for_ab_initio/H4x4x4.py
@@ -235,7 +235,7 @@ min_global_count = 1000
 if _rank == 0:
     if exists("./out.txt"):
         vs.parameters = pickle.load(open("parameters.pickle", "rb"))
-        out_prev = np.genfromtxt("out.txt", usecols=(0, 1, 2, 3))
+        out_prev = np.genfromtxt("out.txt", usecols=(0, 1, 2, 3)).reshape((-1, 4))
         if out_prev.shape[0] > 0:
             best_var_arg = np.argmin(out_prev[:, 3])
             best_var = out_prev[best_var_arg, 3]
diff --git a/scripts/GPS_for_ab_initio/H50_1D.py b/scripts/GPS_for_ab_initio/H50_1D.py
index b1bcd86..97765df 100644
--- a/scripts/GPS_for_ab_initio/H50_1D.py
+++ b/scripts/GPS_for_ab_initio/H50_1D.py
@@ -119,7 +119,7 @@ gs = nk.VMC(ha, op, variational_state=vs, preconditioner=sr)
 if _rank == 0:
     if exists("./out.txt"):
         vs.parameters = pickle.load(open("parameters.pickle", "rb"))
-        out_prev = np.genfromtxt("out.txt", usecols=(0, 1, 2, 3))
+        out_prev = np.genfromtxt("out.txt", usecols=(0, 1, 2, 3)).reshape((-1, 4))
         if out_prev.shape[0] > 0:
             best_var_arg = np.argmin(out_prev[:, 3])
             best_var = out_prev[best_var_arg, 3]
-- 
2.43.0


From 425e5d7eb0bc921cff66e16e3f545427e1e770e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:05 +0000
Subject: [PATCH 77/79] fix: continued ab-initio scripts count the steps since
 the best one as an uninterrupted run

---
 scripts/GPS_for_ab_initio/H2O.py    | 2 +-
 scripts/GPS_for_ab_initio/H50_1D.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/GPS_for_ab_initio/H2O.py b/scripts/GPS_for_ab_initio/H2O.py
index f9e4d40..56bfd55 100644
--- a/scripts/GPS_for_ab_initio/H2O.py
+++ b/scripts/GPS_for_ab_initio/H2O.py
@@ -306,7 +306,7 @@ if _rank == 0:
         if out_prev.shape[0] > 0:
             best_var_arg = np.argmin(out_prev[:, 3])
             best_var = out_prev[best_var_arg, 3]
-            count = out_prev.shape[0] - best_var_arg
+            count = out_prev.shape[0] - 1 - best_var_arg
         else:
             best_var = None
             count = 0
diff --git a/scripts/GPS_for_ab_initio/H50_1D.py b/scripts/GPS_for_ab_initio/H50_1D.py
index 97765df..548a399 100644
--- a/scripts/GPS_for_ab_initio/H50_1D.py
+++ b/scripts/GPS_for_ab_initio/H50_1D.py
@@ -123,7 +123,7 @@ if _rank == 0:
         if out_prev.shape[0] > 0:
             best_var_arg = np.argmin(out_prev[:, 3])
             best_var = out_prev[best_var_arg, 3]
-            count = out_prev.shape[0] - best_var_arg
+            count = out_prev.shape[0] - 1 - best_var_arg
         else:
             best_var = None
             count = 0
-- 
2.43.0


From 908c55e27f501181d0cebb48cee42a1fd3205fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:05 +0000
Subject: [PATCH 78/79] fix: continued H4x4x4 runs track the best step of the
 tracked phase only

---
 scripts/GPS_for_ab_initio/H4x4x4.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/scripts/GPS_for_ab_initio/H4x4x4.py b/scripts/GPS_for_ab_initio/H4x4x4.py
index 41053d1..463ffe8 100644
--- a/scripts/GPS_for_ab_initio/H4x4x4.py
+++ b/scripts/GPS_for_ab_initio/H4x4x4.py
@@ -236,19 +236,16 @@ if _rank == 0:
     if exists("./out.txt"):
         vs.parameters = pickle.load(open("parameters.pickle", "rb"))
         out_prev = np.genfromtxt("out.txt", usecols=(0, 1, 2, 3)).reshape((-1, 4))
-        if out_prev.shape[0] > 0:
-            best_var_arg = np.argmin(out_prev[:, 3])
-            best_var = out_prev[best_var_arg, 3]
-            if best_var_arg < min_global_count:
-                count = out_prev.shape[0] - best_var_arg
-            else:
-                best_var = None
-                count = 0
-            global_count = out_prev.shape[0]
+        # The best step is only tracked after the first min_global_count steps
+        tracked_vars = out_prev[min_global_count:, 3]
+        if tracked_vars.shape[0] > 0:
+            best_var_arg = np.argmin(tracked_vars)
+            best_var = tracked_vars[best_var_arg]
+            count = tracked_vars.shape[0] - 1 - best_var_arg
         else:
             best_var = None
             count = 0
-            global_count = 0
+        global_count = out_prev.shape[0]
         print("continuing calculation")
     else:
         best_var = None
-- 
2.43.0


From a48a30f662b0b083b6c37271e0b46a25cd17dc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:05 +0000
Subject: [PATCH 79/79] fix: H4x4x4 stores the parameters of the first tracked
 step

---
 scripts/GPS_for_ab_initio/H4x4x4.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/GPS_for_ab_initio/H4x4x4.py b/scripts/GPS_for_ab_initio/H4x4x4.py
index 463ffe8..04aba03 100644
--- a/scripts/GPS_for_ab_initio/H4x4x4.py
+++ b/scripts/GPS_for_ab_initio/H4x4x4.py
@@ -276,6 +276,8 @@ while count < max_count:
     en = gs.energy.mean + nuc_en
     if best_var is None:
         best_var = gs.energy.variance
+        if _rank == 0 and global_count >= min_global_count:
+            pickle.dump(vs.parameters, open("best_pars.pickle", "wb"))
         count = 0
     else:
         if gs.energy.variance < best_var:
-- 
2.43.0

