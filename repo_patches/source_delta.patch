From 772b290e5b13de8a9d6846b9476c713c763286bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:07 +0000
Subject: [PATCH 01/34] fix: FermiHubbard connected elements set sections when
 there are no edges

---
 GPSKet/operator/hamiltonian/hubbard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/operator/hamiltonian/hubbard.py b/GPSKet/operator/hamiltonian/hubbard.py
index 7d0d610..3391860 100644
--- a/GPSKet/operator/hamiltonian/hubbard.py
+++ b/GPSKet/operator/hamiltonian/hubbard.py
@@ -90,7 +90,7 @@ class FermiHubbard(FermionicDiscreteOperator):
                 )
                 count += 1
 
-                sections[batch_id] = count
+            sections[batch_id] = count
         return x_prime, mels
 
 
-- 
2.43.0


From fdd108aa73ba01cce5d719728c9c6f1eb6e2d2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:07 +0000
Subject: [PATCH 02/34] fix: apply_hopping without cumulative count counts the
 electrons strictly between the two sites

---
 GPSKet/operator/fermion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/operator/fermion.py b/GPSKet/operator/fermion.py
index 4ffa2dd..7e4944d 100644
--- a/GPSKet/operator/fermion.py
+++ b/GPSKet/operator/fermion.py
@@ -26,7 +26,7 @@ def apply_hopping(
 
                 if cummulative_count is None:
                     parity_count = np.sum(
-                        (x_prime[left_limit:right_limit] & spin_int).astype(np.bool)
+                        (x_prime[left_limit + 1 : right_limit + 1] & spin_int).astype(np.bool)
                     )
                 else:
                     parity_count = (
-- 
2.43.0


From 6f6bf978ecebafe77ad2d579be9cf797e2b312da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:07 +0000
Subject: [PATCH 03/34] fix: power of a FermionicDiscreteHilbert with fixed
 electron number

---
 GPSKet/hilbert/discrete_fermion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/hilbert/discrete_fermion.py b/GPSKet/hilbert/discrete_fermion.py
index 5ad7a34..75bae58 100644
--- a/GPSKet/hilbert/discrete_fermion.py
+++ b/GPSKet/hilbert/discrete_fermion.py
@@ -57,7 +57,7 @@ class FermionicDiscreteHilbert(HomogeneousHilbert):
         if self._n_elec is None:
             n_elec = None
         else:
-            n_elec = (n_elec[0] * n, n_elec[1] * n)
+            n_elec = (self._n_elec[0] * n, self._n_elec[1] * n)
 
         return FermionicDiscreteHilbert(self.size * n, n_elec=n_elec)
 
-- 
2.43.0


From 32080c30b014d5e2a95b9e81b9301ec2ede8ae98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:22 +0000
Subject: [PATCH 04/34] fix: ASEP is_hermitian only when boundary rates are
 pairwise equal

---
 GPSKet/operator/hamiltonian/asep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/operator/hamiltonian/asep.py b/GPSKet/operator/hamiltonian/asep.py
index 469064a..a9ed632 100644
--- a/GPSKet/operator/hamiltonian/asep.py
+++ b/GPSKet/operator/hamiltonian/asep.py
@@ -35,7 +35,7 @@ class AsymmetricSimpleExclusionProcess(DiscreteOperator):
     @property
     def is_hermitian(self) -> bool:
         flag = False
-        params_equal = np.sum([self.alpha, self.beta, self.gamma, self.delta]) == 2.0
+        params_equal = self.alpha == self.gamma and self.beta == self.delta
         if self.lambd == 0.0 and params_equal and self.p == self.q:
             flag = True
         return flag
-- 
2.43.0


From 416f91e19256267b5677130eac1e92ed8841078a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:09 +0000
Subject: [PATCH 05/34] fix: get_J1_J2_Hamiltonian(on_the_fly_en=True)
 constructs a Heisenberg operator

---
 GPSKet/operator/hamiltonian/J1J2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/operator/hamiltonian/J1J2.py b/GPSKet/operator/hamiltonian/J1J2.py
index 6fe0adc..dabf0cb 100644
--- a/GPSKet/operator/hamiltonian/J1J2.py
+++ b/GPSKet/operator/hamiltonian/J1J2.py
@@ -10,7 +10,7 @@ from typing import Optional
 
 
 # dummy class used if the local energy should be evaluated on the fly (allowing for fast updating)
-class HeisenbergOnTheFly(nk.operator.LocalOperator):
+class HeisenbergOnTheFly(nk.operator.Heisenberg):
     pass
 
 
-- 
2.43.0


From 58e6b8f84e579f086fbe3bd974f578f025930d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:29 +0000
Subject: [PATCH 06/34] fix: get_J1_J2_Hamiltonian accepts a single sign_rule
 flag when J2 is non-zero

---
 GPSKet/operator/hamiltonian/J1J2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/GPSKet/operator/hamiltonian/J1J2.py b/GPSKet/operator/hamiltonian/J1J2.py
index dabf0cb..a48fa1f 100644
--- a/GPSKet/operator/hamiltonian/J1J2.py
+++ b/GPSKet/operator/hamiltonian/J1J2.py
@@ -47,6 +47,9 @@ def get_J1_J2_Hamiltonian(
         classtype = nk.operator.Heisenberg
 
     if J2 != 0:
+        # The basis rotation only flips the sign of the bonds between the sublattices
+        if isinstance(sign_rule, bool):
+            sign_rule = (sign_rule, False)
         hamiltonian = classtype(hilbert, g, J=[J1 / 4, J2 / 4], sign_rule=sign_rule)
     else:
         hamiltonian = classtype(hilbert, g, J=J1 / 4, sign_rule=sign_rule)
-- 
2.43.0


From d3ea4cc369be52e82d8a6717f5f02269b531e3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:29 +0000
Subject: [PATCH 07/34] fix: random states of an unconstrained fermionic space
 have the requested dtype

---
 GPSKet/hilbert/random/discrete_fermion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/GPSKet/hilbert/random/discrete_fermion.py b/GPSKet/hilbert/random/discrete_fermion.py
index d229e68..b425cf1 100644
--- a/GPSKet/hilbert/random/discrete_fermion.py
+++ b/GPSKet/hilbert/random/discrete_fermion.py
@@ -11,7 +11,9 @@ def random_state(hilb: FermionicDiscreteHilbert, key, batches: int, *, dtype=jnp
     shape = (batches, hilb.size)
 
     if hilb._n_elec is None:
-        out = jax.random.choice(key, jnp.array(hilb.local_states), shape=shape)
+        out = jax.random.choice(
+            key, jnp.array(hilb.local_states, dtype=dtype), shape=shape
+        )
     else:
 
         def scan_fun(key, val):
-- 
2.43.0


From ceb81295f4e5d259a0c9ea48ad7cf493017ae9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:28 +0000
Subject: [PATCH 08/34] fix: fast update of PlaquetteqGPS passes jnp.where its
 arguments positionally

---
 GPSKet/models/plaquetteqGPS.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/GPSKet/models/plaquetteqGPS.py b/GPSKet/models/plaquetteqGPS.py
index 73bf554..1019fcb 100644
--- a/GPSKet/models/plaquetteqGPS.py
+++ b/GPSKet/models/plaquetteqGPS.py
@@ -142,13 +142,13 @@ class PlaquetteqGPS(nn.Module):
                     valid_elements = transformed_sites != -1
                     update = jnp.where(
                         jnp.expand_dims(valid_elements, 1),
-                        x=epsi[new_occs, :, transformed_sites],
-                        y=1.0,
+                        epsi[new_occs, :, transformed_sites],
+                        1.0,
                     ).prod(axis=0)
                     update /= jnp.where(
                         jnp.expand_dims(valid_elements, 1),
-                        x=epsi[old_occs, :, transformed_sites],
-                        y=1.0,
+                        epsi[old_occs, :, transformed_sites],
+                        1.0,
                     ).prod(axis=0)
                     return sp_old * update
 
-- 
2.43.0


From 68a5158eeab59c45cf9b16bf02014ca700d28fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:24 +0000
Subject: [PATCH 09/34] fix: PlaquetteqGPS cached configuration is well defined
 for repeated update sites

---
 GPSKet/models/plaquetteqGPS.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/GPSKet/models/plaquetteqGPS.py b/GPSKet/models/plaquetteqGPS.py
index 1019fcb..fd11f01 100644
--- a/GPSKet/models/plaquetteqGPS.py
+++ b/GPSKet/models/plaquetteqGPS.py
@@ -179,7 +179,16 @@ class PlaquetteqGPS(nn.Module):
             if update_sites is not None:
 
                 def update_fun(saved_config, update_sites, occs):
-                    return saved_config.at[update_sites].set(occs)
+                    # Go through update_sites in reverse order so that for repeated sites the first entry counts
+                    def scan_fun(carry, count):
+                        return (carry.at[update_sites[count]].set(occs[count]), None)
+
+                    return jax.lax.scan(
+                        scan_fun,
+                        saved_config,
+                        jnp.arange(update_sites.shape[0]),
+                        reverse=True,
+                    )[0]
 
                 indices_save.value = jax.vmap(
                     update_fun, in_axes=(0, 0, 0), out_axes=0
-- 
2.43.0


From 1302747ac86daeb7cedfb2c74e21c7ff523d7a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:26 +0000
Subject: [PATCH 10/34] fix: CPDBackflow fast update is correct for repeated
 update sites

---
 GPSKet/models/cpd_backflow.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GPSKet/models/cpd_backflow.py b/GPSKet/models/cpd_backflow.py
index 8bf41b1..60c7333 100644
--- a/GPSKet/models/cpd_backflow.py
+++ b/GPSKet/models/cpd_backflow.py
@@ -149,6 +149,8 @@ class CPDBackflow(nn.Module):
             )
         # Update configurations if fast-updating is in use
         if update_sites is not None:
+            # Repeated update sites carry the previous occupancy after their first entry
+            occ_new = n
             def update_fun(saved_config, update_sites, occs):
                 def scan_fun(carry, count):
                     return (carry.at[update_sites[count]].set(occs[count]), None)
@@ -179,7 +181,6 @@ class CPDBackflow(nn.Module):
         # Compute orbitals and log-determinant
         if update_sites is not None:
             site_products_old = saved_site_products.value
-            occ_new = jax.vmap(jnp.take, in_axes=(0, 0))(n, update_sites)
             occ_old = jax.vmap(jnp.take, in_axes=(0, 0))(saved_configs.value, update_sites)
             orbitals, site_products = CPD_with_cache_batched(
                 self._epsilon, site_products_old, occ_new, occ_old, update_sites) # (B, L, N), (B, L, N, M)
-- 
2.43.0


From bbe2b601de54cc06464431bae816ee8e5dc87e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:40 +0000
Subject: [PATCH 11/34] fix: autoregressive models impose zero magnetisation
 only on constrained Hilbert spaces

---
 GPSKet/models/autoreg_plaquetteqGPS.py | 13 +++++++------
 GPSKet/models/autoreg_qGPS.py          | 13 +++++++------
 GPSKet/models/autoreg_qGPS_full.py     | 15 ++++++++-------
 3 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/GPSKet/models/autoreg_plaquetteqGPS.py b/GPSKet/models/autoreg_plaquetteqGPS.py
index 05719d3..0576fa2 100644
--- a/GPSKet/models/autoreg_plaquetteqGPS.py
+++ b/GPSKet/models/autoreg_plaquetteqGPS.py
@@ -171,12 +171,13 @@ def _compute_conditional(
     # This is done by counting number of up/down spins until index, then if
     # n_spins is >= L/2 the probability of up/down spin at index should be 0,
     # i.e. the log probability becomes -inf
-    log_psi = gpu_cond(
-        index >= 0,
-        lambda log_psi: log_psi + renormalize_log_psi(n_spins, hilbert, index),
-        lambda log_psi: log_psi,
-        log_psi,
-    )
+    if hilbert.constrained:
+        log_psi = gpu_cond(
+            index >= 0,
+            lambda log_psi: log_psi + renormalize_log_psi(n_spins, hilbert, index),
+            lambda log_psi: log_psi,
+            log_psi,
+        )
     return n_spins, log_psi
 
 
diff --git a/GPSKet/models/autoreg_qGPS.py b/GPSKet/models/autoreg_qGPS.py
index 01887f2..9e67835 100644
--- a/GPSKet/models/autoreg_qGPS.py
+++ b/GPSKet/models/autoreg_qGPS.py
@@ -270,12 +270,13 @@ def _compute_conditional(
     # This is done by counting number of up/down spins until index, then if
     # n_spins is >= L/2 the probability of up/down spin at index should be 0,
     # i.e. the log probability becomes -inf
-    log_psi = gpu_cond(
-        index >= 0,
-        lambda log_psi: log_psi + renormalize_log_psi(n_spins, hilbert, index),
-        lambda log_psi: log_psi,
-        log_psi,
-    )
+    if hilbert.constrained:
+        log_psi = gpu_cond(
+            index >= 0,
+            lambda log_psi: log_psi + renormalize_log_psi(n_spins, hilbert, index),
+            lambda log_psi: log_psi,
+            log_psi,
+        )
     return (cache, n_spins), log_psi
 
 
diff --git a/GPSKet/models/autoreg_qGPS_full.py b/GPSKet/models/autoreg_qGPS_full.py
index b4928c5..f29e9c4 100644
--- a/GPSKet/models/autoreg_qGPS_full.py
+++ b/GPSKet/models/autoreg_qGPS_full.py
@@ -333,13 +333,14 @@ def _compute_conditional(
     # This is done by counting number of up/down spins until index, then if
     # n_spins is >= L/2 the probability of up/down spin at index should be 0,
     # i.e. the log probability becomes -inf
-    log_psi = gpu_cond(
-        index >= 0,
-        lambda log_psi: log_psi
-        + model.renormalize_log_psi(n_spins, model.hilbert, index),
-        lambda log_psi: log_psi,
-        log_psi,
-    )
+    if model.hilbert.constrained:
+        log_psi = gpu_cond(
+            index >= 0,
+            lambda log_psi: log_psi
+            + model.renormalize_log_psi(n_spins, model.hilbert, index),
+            lambda log_psi: log_psi,
+            log_psi,
+        )
     return n_spins, log_psi, context_prod
 
 
-- 
2.43.0


From e9be1d6bc759a0715da502568bdb2ff9b731b131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:04 +0000
Subject: [PATCH 12/34] fix: ARqGPSModPhaseFull supports the fast-update
 arguments it advertises

---
 GPSKet/models/autoreg_qGPS_full.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/GPSKet/models/autoreg_qGPS_full.py b/GPSKet/models/autoreg_qGPS_full.py
index f29e9c4..555c2bc 100644
--- a/GPSKet/models/autoreg_qGPS_full.py
+++ b/GPSKet/models/autoreg_qGPS_full.py
@@ -437,7 +437,13 @@ class ARqGPSModPhaseFull(ARqGPSFull):
             self.hilbert, self.hilbert.size, dtype=jnp.float64, init_fun=self.init_fun
         )
 
-    def __call__(self, inputs: Array) -> Array:
-        log_psi_mod = super().__call__(inputs)
-        log_psi_phase = self._qgps(inputs)
+    def __call__(
+        self, inputs: Array, cache_intermediates=False, update_sites=None
+    ) -> Array:
+        log_psi_mod = super().__call__(
+            inputs, cache_intermediates=cache_intermediates, update_sites=update_sites
+        )
+        log_psi_phase = self._qgps(
+            inputs, cache_intermediates=cache_intermediates, update_sites=update_sites
+        )
         return log_psi_mod + log_psi_phase * 1j
-- 
2.43.0


From 674f06e8924490317989bdbdf706427c547cde8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:04 +0000
Subject: [PATCH 13/34] fix: MetropolisFastSampler counts accepted moves per
 chain

---
 GPSKet/sampler/metropolis_fast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/sampler/metropolis_fast.py b/GPSKet/sampler/metropolis_fast.py
index 06f8060..3231178 100644
--- a/GPSKet/sampler/metropolis_fast.py
+++ b/GPSKet/sampler/metropolis_fast.py
@@ -69,7 +69,7 @@ class MetropolisFastSampler(MetropolisSampler):
                 update, new_intermediates_cache, s["intermediates_cache"]
             )
 
-            s["accepted"] += do_accept.sum()
+            s["accepted"] += do_accept
 
             s["log_prob"] = jax.numpy.where(
                 do_accept.reshape(-1), proposal_log_prob, s["log_prob"]
-- 
2.43.0


From fc4ba170eaab9ef2294757adcc75b71115c1f298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:14 +0000
Subject: [PATCH 14/34] fix: MetropolisFastExchange works with the installed
 netket exchange rule

---
 GPSKet/sampler/metropolis_fast.py            | 2 +-
 GPSKet/sampler/rules/exchange_with_update.py | 9 ++++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/GPSKet/sampler/metropolis_fast.py b/GPSKet/sampler/metropolis_fast.py
index 3231178..57603c1 100644
--- a/GPSKet/sampler/metropolis_fast.py
+++ b/GPSKet/sampler/metropolis_fast.py
@@ -113,6 +113,6 @@ def MetropolisFastExchange(
     if clusters is None:
         assert graph is not None
         clusters = compute_clusters(graph, d_max)
-    exchange_rule_with_updates = ExchangeRuleWithUpdate(jnp.array(clusters))
+    exchange_rule_with_updates = ExchangeRuleWithUpdate(clusters=clusters)
 
     return MetropolisFastSampler(hilbert, exchange_rule_with_updates, *args, **kwargs)
diff --git a/GPSKet/sampler/rules/exchange_with_update.py b/GPSKet/sampler/rules/exchange_with_update.py
index 8dbdf5f..e9d345f 100644
--- a/GPSKet/sampler/rules/exchange_with_update.py
+++ b/GPSKet/sampler/rules/exchange_with_update.py
@@ -1,16 +1,15 @@
 import jax
 import jax.numpy as jnp
-from flax import struct
-from netket.sampler.rules.exchange import ExchangeRule_
+from netket.utils import struct
+from netket.sampler.rules.exchange import ExchangeRule
 
 
-@struct.dataclass
-class ExchangeRuleWithUpdate(ExchangeRule_):
+class ExchangeRuleWithUpdate(ExchangeRule):
     """
     Exchange Update rule which also returns the list of affected sites which is required for the fast metropolis sampler
     """
 
-    returns_updates: bool = True
+    returns_updates: bool = struct.field(pytree_node=False, default=True)
 
     def transition(rule, sampler, machine, parameters, state, key, σ):
         n_chains = σ.shape[0]
-- 
2.43.0


From 4ee602ac1fc5344d4716641367beb27d307b1b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:27 +0000
Subject: [PATCH 15/34] fix: ARqGPSFull caches its context products
 batch-first, as the fast Metropolis sampler requires

---
 GPSKet/models/autoreg_qGPS_full.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/GPSKet/models/autoreg_qGPS_full.py b/GPSKet/models/autoreg_qGPS_full.py
index 555c2bc..660d0c3 100644
--- a/GPSKet/models/autoreg_qGPS_full.py
+++ b/GPSKet/models/autoreg_qGPS_full.py
@@ -214,7 +214,8 @@ class ARqGPSFull(AbstractARqGPS):
                     cont_prod.value for cont_prod in self._saved_context_product
                 ]
             else:
-                old_contexts = self._saved_context_product.value
+                # The cache is batch-first, the sites are looped over below
+                old_contexts = jnp.swapaxes(self._saved_context_product.value, 0, 1)
 
             log_psi, context_products = jax.vmap(
                 _conditionals, in_axes=(None, -1, -1, -1), out_axes=(-1, -1)
@@ -249,7 +250,8 @@ class ARqGPSFull(AbstractARqGPS):
                 for i in range(len(context_products)):
                     self._saved_context_product[i].value = context_products[i]
             else:
-                self._saved_context_product.value = context_products
+                # All cached values carry the batch on the leading axis
+                self._saved_context_product.value = jnp.swapaxes(context_products, 0, 1)
             self._saved_configs.value = full_samples
 
         return log_psi_symm  # (B,)
-- 
2.43.0


From 65bf8f1309fa83c12c0158fa66ccaded4d38ae1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:04 +0000
Subject: [PATCH 16/34] fix: hopping proposals leave configurations without
 movable electrons unchanged

---
 GPSKet/sampler/rules/fermionic_hopping.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/GPSKet/sampler/rules/fermionic_hopping.py b/GPSKet/sampler/rules/fermionic_hopping.py
index 5a241f8..f43d023 100644
--- a/GPSKet/sampler/rules/fermionic_hopping.py
+++ b/GPSKet/sampler/rules/fermionic_hopping.py
@@ -39,8 +39,13 @@ def transition_function(
         else:
             target_site = jax.random.choice(keyD, samp.shape[-1], p=target_site_probs)
         # Make sure no unallowed move is applied
+        # (this includes configurations without any electron which could be moved)
         target_site = jnp.where(
-            target_site_probs[target_site] == False, start_site, target_site
+            jnp.logical_or(
+                target_site_probs[target_site] == False, (samp[start_site] & spin) == 0
+            ),
+            start_site,
+            target_site,
         )
         updated_sample = samp.at[start_site].add(-spin)
         updated_sample = updated_sample.at[target_site].add(spin)
-- 
2.43.0


From 6f3558a91307b82a1ff0a3afb1962a4938dad100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:37 +0000
Subject: [PATCH 17/34] fix: qGPS initializer accepts numpy and python dtypes

---
 GPSKet/nn/initializers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/nn/initializers.py b/GPSKet/nn/initializers.py
index 99074dc..94c87b3 100644
--- a/GPSKet/nn/initializers.py
+++ b/GPSKet/nn/initializers.py
@@ -16,7 +16,7 @@ def normal(sigma=0.1, dtype=jnp.float_):
     Returns:
         init function with signature `(key, shape, dtype) -> Array`
     """
-    if jnp.iscomplexobj(dtype):
+    if jnp.issubdtype(dtype, jnp.complexfloating):
 
         def init_fun(key, shape, dtype=dtype):
             phase = jax.random.normal(key, shape, jnp.float32) * sigma
-- 
2.43.0


From 57afd08e1ceb43e161f4a638dc23e1ab3827d420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:37 +0000
Subject: [PATCH 18/34] fix: SegGPS electron counts do not overflow the 8-bit
 configuration type

---
 GPSKet/models/segmented_qGPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/models/segmented_qGPS.py b/GPSKet/models/segmented_qGPS.py
index b5e94fc..54616e3 100644
--- a/GPSKet/models/segmented_qGPS.py
+++ b/GPSKet/models/segmented_qGPS.py
@@ -46,8 +46,8 @@ def count_fermions(configs):
     Returns:
         - counts : number of spin-up and spin-down electrons in configs (batch_size, 2, L)
     """
-    n_up = jnp.cumsum(configs[:, :-1] & 1, axis=-1)
-    n_dn = jnp.cumsum((configs[:, :-1] & 2) // 2, axis=-1)
+    n_up = jnp.cumsum(configs[:, :-1] & 1, axis=-1, dtype=jnp.int32)
+    n_dn = jnp.cumsum((configs[:, :-1] & 2) // 2, axis=-1, dtype=jnp.int32)
     counts = jnp.stack([n_up, n_dn], axis=1)
     counts = jnp.pad(counts, ((0, 0), (0, 0), (1, 0)), mode='constant')
     return counts
-- 
2.43.0


From 99e7760c1da92f169b4c9653e2c27ca4558278b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:36 +0000
Subject: [PATCH 19/34] fix: ASymmqGPS weights each determinant with its own
 coefficient

---
 GPSKet/models/asymm_qGPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/models/asymm_qGPS.py b/GPSKet/models/asymm_qGPS.py
index 323ccbf..6a10ad5 100644
--- a/GPSKet/models/asymm_qGPS.py
+++ b/GPSKet/models/asymm_qGPS.py
@@ -56,7 +56,7 @@ class ASymmqGPS(nn.Module):
         if self.symmetrization == "kernel":
 
             def out_transformation(y):
-                y = jnp.asarray(self.coeffs) * jnp.exp(y)  # (B, M, S, T)
+                y = jnp.asarray(self.coeffs).reshape((-1, 1, 1)) * jnp.exp(y)  # (B, M, S, T)
                 y = jnp.sum(y, axis=1)  # (B, S, T)
                 y = jnp.sinh(jnp.sum(y, axis=(-2, -1)))  # (B,)
                 y = jnp.log(y)
@@ -65,7 +65,7 @@ class ASymmqGPS(nn.Module):
         elif self.symmetrization == "projective":
 
             def out_transformation(y):
-                y = jnp.asarray(self.coeffs) * jnp.exp(y)  # (B, M, S, T)
+                y = jnp.asarray(self.coeffs).reshape((-1, 1, 1)) * jnp.exp(y)  # (B, M, S, T)
                 y = jnp.sinh(jnp.sum(y, axis=1))  # (B, S, T)
                 y = jnp.sum(y, axis=(-2, -1))  # (B,)
                 y = jnp.log(y)
-- 
2.43.0


From d8976ec39b77f61e45708b98eecc6d52220263fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:36 +0000
Subject: [PATCH 20/34] fix: log_pfaffian works with the installed jax and
 yields a vanishing Pfaffian for singular matrices

---
 GPSKet/models/pfaffian.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/GPSKet/models/pfaffian.py b/GPSKet/models/pfaffian.py
index 2b7b085..0fbfe95 100644
--- a/GPSKet/models/pfaffian.py
+++ b/GPSKet/models/pfaffian.py
@@ -69,9 +69,13 @@ def log_pfaffian(mat):
         value = jnp.where(
             matrix[index + 1, index] != 0.0,
             value + jnp.log(matrix[index, index + 1]),
-            jnp.NINF + 0.0j,
+            -jnp.inf + 0.0j,
+        )
+        t = jnp.where(
+            matrix[index + 1, index] != 0.0,
+            matrix[index, (index + 2) :] / matrix[index, index + 1],
+            0.0,
         )
-        t = matrix[index, (index + 2) :] / matrix[index, index + 1]
         matrix = matrix.at[index + 2 :, index + 2 :].add(
             jnp.outer(t, matrix[index + 2 :, index + 1])
         )
-- 
2.43.0


From 1a35dac91bdf0b8aa64f0bf0043027be40278807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:37 +0000
Subject: [PATCH 21/34] fix: BackflowJastrow passes the correction module and
 the orbitals in the order Backflow expects

---
 GPSKet/models/backflow_jastrow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/models/backflow_jastrow.py b/GPSKet/models/backflow_jastrow.py
index 731ac2d..a45dc38 100644
--- a/GPSKet/models/backflow_jastrow.py
+++ b/GPSKet/models/backflow_jastrow.py
@@ -44,8 +44,8 @@ class BackflowJastrow(nn.Module):
         for d in range(n_determinants):
             y = Backflow(
                 self.hilbert,
-                self.orbitals[d],
                 self.correction_fun[d],
+                self.orbitals[d],
                 apply_symmetries=self.backflow_apply_symmetries,
                 spin_symmetry_by_structure=self.spin_symmetry_by_structure,
                 fixed_magnetization=self.fixed_magnetization,
-- 
2.43.0


From 3b77cfe0c8d3a1eccb81b02d08803d98d87a0e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:18 +0000
Subject: [PATCH 22/34] fix: PfaffianState returns one amplitude per
 configuration

---
 GPSKet/models/pfaffian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/models/pfaffian.py b/GPSKet/models/pfaffian.py
index 0fbfe95..1dfb4c0 100644
--- a/GPSKet/models/pfaffian.py
+++ b/GPSKet/models/pfaffian.py
@@ -129,7 +129,7 @@ class PfaffianState(nn.Module):
         self.out_transformation has the same meaning for this state as for the ZeroMagnetizationPfaffian
         below.
         """
-        return self.out_transformation(out)
+        return self.out_transformation(jnp.expand_dims(out, axis=-2))
 
 
 """
-- 
2.43.0


From b68f37837b59af0cb29c78b2a8fb4d87870d42cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:27 +0000
Subject: [PATCH 23/34] fix: dense quantum geometric tensors are normalised by
 the sample weights

---
 GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py        | 1 +
 GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py b/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
index 62c0124..50da6bb 100644
--- a/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
+++ b/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
@@ -84,6 +84,7 @@ def QGTJacobianDenseRMSProp(
         chunk_size=chunk_size,
         dense=True,
         center=True,
+        _sqrt_rescale=True,
     )
 
     pars_struct = jax.tree_util.tree_map(
diff --git a/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py b/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
index 13d4909..492e34f 100644
--- a/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
+++ b/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
@@ -71,6 +71,7 @@ def QGTJacobianDenseUniqueSamples(
         pdf=counts,
         dense=True,
         center=True,
+        _sqrt_rescale=True,
     )
 
     pars_struct = jax.tree_util.tree_map(
-- 
2.43.0


From 92c91047eac89f72f6af12abce4e9e643a6dd568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:27 +0000
Subject: [PATCH 24/34] fix: QGTJacobianDenseUniqueSamples keeps its options
 when constructed without a state

---
 GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py b/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
index 492e34f..ddd4fd3 100644
--- a/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
+++ b/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
@@ -38,7 +38,11 @@ def QGTJacobianDenseUniqueSamples(
     assert diag_scale is None  # Not yet implemented -> TODO: implement support!
     if vstate is None:
         return partial(
-            QGTJacobianDenseUniqueSamples, mode=mode, holomorphic=holomorphic
+            QGTJacobianDenseUniqueSamples,
+            mode=mode,
+            holomorphic=holomorphic,
+            diag_shift=diag_shift,
+            **kwargs
         )
 
     if mode is None:
-- 
2.43.0


From b205eeb3a00f54a6598467011c6925d78fbcb693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:27 +0000
Subject: [PATCH 25/34] fix: SRDense works with the installed netket and its
 default solver

---
 GPSKet/optimizer/sr_dense.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/GPSKet/optimizer/sr_dense.py b/GPSKet/optimizer/sr_dense.py
index d8ceaa0..ee744f8 100644
--- a/GPSKet/optimizer/sr_dense.py
+++ b/GPSKet/optimizer/sr_dense.py
@@ -1,8 +1,8 @@
 import jax
 import jax.numpy as jnp
 import netket.jax as nkjax
-from dataclasses import dataclass
 from typing import Callable, Optional, Any
+from netket.utils import struct
 from netket.utils.types import PyTree, Scalar, ScalarOrSchedule
 from netket.vqs import VariationalState
 from netket.optimizer.preconditioner import AbstractLinearPreconditioner
@@ -10,8 +10,9 @@ from netket.optimizer.qgt import QGTJacobianDense
 from .solvers import pinv
 
 
-@dataclass
-class SRDense(AbstractLinearPreconditioner):
+class SRDense(AbstractLinearPreconditioner, mutable=True):
+    qgt_constructor: Callable = struct.static_field(default=None)
+
     def __init__(self, qgt: QGTJacobianDense, solver: Callable = pinv):
         self.qgt_constructor = qgt
         super().__init__(solver)
@@ -22,15 +23,10 @@ class SRDense(AbstractLinearPreconditioner):
     def __call__(
         self, vstate: VariationalState, gradient: PyTree, step: Optional[Scalar] = None
     ) -> PyTree:
-        # Ravel gradient
-        gradient, unravel_fun = nkjax.tree_ravel(gradient)
-
         # Compute S matrix
         self._lhs = self.lhs_constructor(vstate, step)
-        S = self._lhs.to_dense()
 
         # Solve system
-        x0 = self.solver(S, gradient)
-        self.x0 = unravel_fun(x0)
+        self.x0, self.info = self._lhs.solve(self.solver, gradient)
 
         return self.x0
-- 
2.43.0


From 245010c06316fc2b0e0b27234a1d0973f81e7ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:54 +0000
Subject: [PATCH 26/34] fix: MCStateStratifiedSampling works with the installed
 netket samplers

---
 GPSKet/vqs/mc/mc_state/state_stratified_sampling.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py b/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py
index 0c8a089..64b2ff9 100644
--- a/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py
+++ b/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py
@@ -17,8 +17,6 @@ from netket.utils.mpi import (
 
 from typing import Tuple
 
-from dataclasses import replace
-
 """ Implements a state with stratified sampling, splitting the evaluation of expectation values
 into a determinisitic evaluation over a fixed set, and a sampled estimate over the complement.
 At the moment this is only an implementation for quick testing which is very slow.
@@ -38,9 +36,9 @@ class MCStateStratifiedSampling(MCStateUniqueSamples):
     ):
         super().__init__(*args, **kwargs)
 
-        self.n_sweeps = self.sampler.n_sweeps
+        self.n_sweeps = self.sampler.sweep_size
 
-        self.sampler = replace(self.sampler, n_sweeps=1)
+        self.sampler = self.sampler.replace(sweep_size=1)
 
         self.deterministic_samples = jnp.array_split(deterministic_samples, _n_nodes)[
             _rank
@@ -73,7 +71,7 @@ class MCStateStratifiedSampling(MCStateUniqueSamples):
             self.current_sample.append(samp)
             key = jax.random.split(key)[0]
         self.current_sample = jnp.array(np.array(self.current_sample))
-        self.sampler_state = replace(self.sampler_state, σ=self.current_sample)
+        self.sampler_state = self.sampler_state.replace(σ=self.current_sample)
 
         if not self.rand_norm:
             assert number_random_samples is None
@@ -103,7 +101,7 @@ class MCStateStratifiedSampling(MCStateUniqueSamples):
             np.expand_dims(valid, -1), self.current_sample, old_sample
         )
 
-        self.sampler_state = replace(self.sampler_state, σ=self.current_sample)
+        self.sampler_state = self.sampler_state.replace(σ=self.current_sample)
 
     @property
     def samples_with_counts(self) -> Tuple[jnp.ndarray, jnp.ndarray]:
-- 
2.43.0


From d9b537d31c4f11a928947639b5d8f26d19d68399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:54 +0000
Subject: [PATCH 27/34] fix: minSRVMC pairs every sample with its own local
 energy

---
 GPSKet/driver/minSR.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/driver/minSR.py b/GPSKet/driver/minSR.py
index 3606ab3..d35ca64 100644
--- a/GPSKet/driver/minSR.py
+++ b/GPSKet/driver/minSR.py
@@ -60,7 +60,7 @@ class minSRVMC(VMC):
         counts = counts.reshape((-1,))
 
         # Compute local energies and center them
-        loc_ens = self.state.local_estimators(self._ham).T.reshape(-1)
+        loc_ens = self.state.local_estimators(self._ham).reshape(-1)
         self._loss_stats = _statistics(loc_ens, counts)
         loc_ens_centered = (loc_ens - self._loss_stats.mean) * jnp.sqrt(counts)
 
-- 
2.43.0


From 04dc5b5c558d7c7f9be494a87f3979ca435026d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:54 +0000
Subject: [PATCH 28/34] fix: minSRVMC weights the log-derivatives with the
 sample weights

---
 GPSKet/driver/minSR.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/GPSKet/driver/minSR.py b/GPSKet/driver/minSR.py
index d35ca64..2e40a18 100644
--- a/GPSKet/driver/minSR.py
+++ b/GPSKet/driver/minSR.py
@@ -137,10 +137,11 @@ class minSRVMC(VMC):
             )
             O_i, token = mpi.mpi_gather_jax(O_i, token=token)
             O_i = O_i.reshape((-1, *O_i.shape[2:]))
+            sqrt_counts_i, token = mpi.mpi_gather_jax(jnp.sqrt(counts[i]), token=token)
             if mpi.rank == 0:
                 if len(O_i.shape) == 3:
                     O_i = O_i[:, 0, :] + 1.0j * O_i[:, 1, :]
-                O_i = O_i - O_avg
+                O_i = (O_i - O_avg) * sqrt_counts_i.reshape((-1, 1))
             for j in range(n_chunks):
                 idx_j = (
                     idx[j]
@@ -161,10 +162,13 @@ class minSRVMC(VMC):
                 )
                 O_j, token = mpi.mpi_gather_jax(O_j, token=token)
                 O_j = O_j.reshape((-1, *O_j.shape[2:]))
+                sqrt_counts_j, token = mpi.mpi_gather_jax(
+                    jnp.sqrt(counts[j]), token=token
+                )
                 if mpi.rank == 0:
                     if len(O_j.shape) == 3:
                         O_j = O_j[:, 0, :] + 1.0j * O_j[:, 1, :]
-                    O_j = O_j - O_avg
+                    O_j = (O_j - O_avg) * sqrt_counts_j.reshape((-1, 1))
                     ii, jj = np.meshgrid(idx_i, idx_j, indexing="ij")
                     OO = OO.at[ii, jj].set(O_i.dot(O_j.conj().T))
 
@@ -203,7 +207,7 @@ class minSRVMC(VMC):
             if len(O_i.shape) == 3:
                 O_i = O_i[:, 0, :] + 1.0j * O_i[:, 1, :]
 
-            O_i = O_i - O_avg
+            O_i = (O_i - O_avg) * jnp.sqrt(counts[i])[:, np.newaxis]
 
             if dense_update is None:
                 dense_update = mpi.mpi_sum_jax(O_i.conj().T.dot(OO_epsilon[i]))[0]
-- 
2.43.0


From 2d61e5344ec889c9b61ec4c366d330db9f94fed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:51 +0000
Subject: [PATCH 29/34] fix: QGTJacobianDenseRMSProp determines its default
 mode with the installed netket

---
 GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py b/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
index 50da6bb..4a31756 100644
--- a/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
+++ b/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
@@ -58,7 +58,6 @@ def QGTJacobianDenseRMSProp(
             vstate.parameters,
             vstate.model_state,
             samples,
-            mode=mode,
             holomorphic=holomorphic,
         )
 
-- 
2.43.0


From 75fb347f9e3d3e092a021f1aeb504e86a88c8944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:00 +0000
Subject: [PATCH 30/34] fix: gradients of MCStateUniqueSamples use the sample
 weights with the installed netket

---
 GPSKet/vqs/mc/mc_state/state_unique_samples.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/GPSKet/vqs/mc/mc_state/state_unique_samples.py b/GPSKet/vqs/mc/mc_state/state_unique_samples.py
index da02888..801d707 100644
--- a/GPSKet/vqs/mc/mc_state/state_unique_samples.py
+++ b/GPSKet/vqs/mc/mc_state/state_unique_samples.py
@@ -1,7 +1,7 @@
 import netket as nk
 import netket.jax as nkjax
 import jax.numpy as jnp
-from typing import Tuple, Optional, Callable, Literal, Any
+from typing import Tuple, Optional, Callable, Any
 from collections import defaultdict
 import numpy as np
 
@@ -127,11 +127,14 @@ class MCStateUniqueSamples(nk.vqs.MCState):
 def expect_and_grad(
     vstate: MCStateUniqueSamples,
     op: nk.operator.AbstractOperator,
-    use_covariance: Literal[True],
     chunk_size: Optional[int],
     *,
-    mutable: Any
+    mutable: Any = False,
+    use_covariance: Optional[bool] = None
 ):
+    if use_covariance is None:
+        use_covariance = op.is_hermitian
+    assert use_covariance
     _, args = get_local_kernel_arguments(vstate, op)
     samples_and_counts = vstate.samples_with_counts
     if chunk_size is not None:
-- 
2.43.0


From 00741698cba9291dae1938bc272be15ff1375b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:45 +0000
Subject: [PATCH 31/34] fix: growing RVM fits work with the installed numpy

---
 GPSKet/supervised/supervised_qgps.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 85bcbe4..5526459 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -913,10 +913,10 @@ class QGPSLearningExp(QGPSLearning):
         S = S.real
         Q = Q.real
         # Use following:
-        # (EQ 1) q = A*Q/(A - S) ; s = A*S/(A-S), so if A = np.PINF q = Q, s = S
+        # (EQ 1) q = A*Q/(A - S) ; s = A*S/(A-S), so if A = np.inf q = Q, s = S
         qi = np.copy(Q)
         si = np.copy(S)
-        #  If A is not np.PINF, then it should be 'active' feature => use (EQ 1)
+        #  If A is not np.inf, then it should be 'active' feature => use (EQ 1)
         Qa, Sa = Q[self.active_elements], S[self.active_elements]
 
         if self.complex_expand and self.epsilon.dtype == complex:
@@ -989,7 +989,7 @@ class QGPSLearningExp(QGPSLearning):
         )
 
         deltaL[delete] = abs(Qdel) ** 2 / (Sdel - Adel) - np.log(1 - Sdel / Adel)
-        deltaL = np.nan_to_num(deltaL, nan=np.NINF, posinf=np.NINF, neginf=np.NINF)
+        deltaL = np.nan_to_num(deltaL, nan=-np.inf, posinf=-np.inf, neginf=-np.inf)
 
         # find feature which caused largest change in likelihood
 
@@ -1009,7 +1009,7 @@ class QGPSLearningExp(QGPSLearning):
                 self.active_elements[feature_index] == True
                 and np.sum(self.active_elements) >= 2
             ):
-                alpha[feature_index] = np.PINF
+                alpha[feature_index] = np.inf
         self.alpha_mat_ref_sites = alpha
 
         return
-- 
2.43.0


From a8ea2397da575644a608ddb2f56911a9e59f3a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:52 +0000
Subject: [PATCH 32/34] fix: QGPSGenLinMod applies the computed Newton step

---
 GPSKet/supervised/supervised_qgps.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 5526459..df607e2 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1537,10 +1537,7 @@ class QGPSGenLinMod(QGPSLearningExp):
             else:
                 gamma = 1.0
             if self.cholesky:
-                np.copyto(
-                    weights[self.active_elements],
-                    weights[self.active_elements] + gamma * update_directions,
-                )
+                weights[self.active_elements] += gamma * update_directions
             else:
                 if _rank == 0:
                     print("Cholesky fail")
-- 
2.43.0


From 5308dc7cee03d85a47f3cc2e7d8f08d327e298bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:18 +0000
Subject: [PATCH 33/34] fix: imaginary time step states work with
 FermiHubbardOnTheFly

---
 GPSKet/operator/hamiltonian/hubbard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/operator/hamiltonian/hubbard.py b/GPSKet/operator/hamiltonian/hubbard.py
index 3391860..dc11136 100644
--- a/GPSKet/operator/hamiltonian/hubbard.py
+++ b/GPSKet/operator/hamiltonian/hubbard.py
@@ -204,9 +204,9 @@ def local_en_on_the_fly(
 @nk.vqs.get_local_kernel_arguments.dispatch
 def get_local_kernel_arguments(vstate: nk.vqs.MCState, op: FermiHubbardOnTheFly):
     samples = vstate.samples
-    edges = op.edges
+    edges = jnp.array(op.edges)
     U = op.U
-    t = op.t
+    t = jnp.array(op.t)
     return (samples, (edges, U, t))
 
 
-- 
2.43.0


From 2c4f883d5782825ffd66d22dad8488a13b89f1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:50 +0000
Subject: [PATCH 34/34] fix: on-the-fly Hubbard energy includes edges joining a
 site with itself

---
 GPSKet/operator/hamiltonian/hubbard.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/GPSKet/operator/hamiltonian/hubbard.py b/GPSKet/operator/hamiltonian/hubbard.py
index dc11136..5ef9293 100644
--- a/GPSKet/operator/hamiltonian/hubbard.py
+++ b/GPSKet/operator/hamiltonian/hubbard.py
@@ -181,7 +181,12 @@ def local_en_on_the_fly(
                     hop,
                     (annihilate_site, create_site),
                 )
-                return multiplicator
+                # an edge joining a site with itself contributes its occupation
+                return jnp.where(
+                    annihilate_site == create_site,
+                    (start_occ & spin_int) // spin_int,
+                    multiplicator,
+                )
 
             def hopping_loop(index):
                 edge = edges[index, :]
-- 
2.43.0

