From 475dd1fb556c46be536c1dae5f9476db78f9f371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:42 +0000
Subject: [PATCH 01/26] fix: BranchFreeOperator fails on multi-dimensional
 configurations (fermionic mask sized by last axis)

---
 jVMC/operator/branch_free.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/operator/branch_free.py b/jVMC/operator/branch_free.py
index 6db54f9..0514c78 100644
--- a/jVMC/operator/branch_free.py
+++ b/jVMC/operator/branch_free.py
@@ -449,7 +449,7 @@ class BranchFreeOperator(Operator):
         sp = jnp.array([s] * numOps)
 
         ######## fermions ########
-        mask = jnp.tril(jnp.ones((s.shape[-1],s.shape[-1]),dtype=int),-1).T
+        mask = jnp.tril(jnp.ones((s.size,s.size),dtype=int),-1).T
         ##########################
 
         def apply_fun(c, x):
-- 
2.43.0


From fc7ce7f7bde70062ffb7ac2a2673e1446f663a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:20 +0000
Subject: [PATCH 02/26] fix: local estimators with plain-amplitude networks
 missed the logarithm (remainder batch, default logPsiS)

---
 jVMC/operator/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jVMC/operator/base.py b/jVMC/operator/base.py
index 8d62072..b9c3a6b 100644
--- a/jVMC/operator/base.py
+++ b/jVMC/operator/base.py
@@ -181,6 +181,8 @@ class Operator(metaclass=abc.ABCMeta):
 
         if logPsiS is None:
             logPsiS = psi(samples)
+            if not psi.logarithmic:
+                logPsiS = jnp.log(logPsiS)
 
         if self.ElocBatchSize > 0:
             return self.get_O_loc_batched(samples, psi, logPsiS, self.ElocBatchSize, *args)
@@ -269,7 +271,11 @@ class Operator(metaclass=abc.ABCMeta):
 
             sp, _ = self.get_s_primes(batch, *args)
 
-            OlocBatch = self.get_O_loc_unbatched(logPsiSbatch, psi(sp))
+            logPsiSP = psi(sp)
+            if not psi.logarithmic:
+                logPsiSP = jnp.log(logPsiSP)
+
+            OlocBatch = self.get_O_loc_unbatched(logPsiSbatch, logPsiSP)
         
             OlocBatch = self._get_Oloc_slice_pmapd(OlocBatch, 0, remainder)
 
-- 
2.43.0


From 498d67f13b7cf0cc1266c2245165919d468a5c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:20 +0000
Subject: [PATCH 03/26] fix: estimator function undefined for operators without
 argument preprocessor, wrong for plain-amplitude networks

---
 jVMC/operator/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jVMC/operator/base.py b/jVMC/operator/base.py
index b9c3a6b..c61ca1e 100644
--- a/jVMC/operator/base.py
+++ b/jVMC/operator/base.py
@@ -305,6 +305,7 @@ class Operator(metaclass=abc.ABCMeta):
         """
 
         op_fun = self.compile()
+        op_fun_args = args
         if type(op_fun) is tuple:
             op_fun_args = op_fun[1](*args)
             op_fun = op_fun[0]
@@ -316,6 +317,9 @@ class Operator(metaclass=abc.ABCMeta):
 
             log_psi_s = net_fun(params, config)
             log_psi_sp = jax.vmap(lambda s: net_fun(params,s))(sp)
+            if not psi.logarithmic:
+                log_psi_s = jnp.log(log_psi_s)
+                log_psi_sp = jnp.log(log_psi_sp)
 
             #return jnp.dot(matEls, jnp.exp(log_psi_sp - log_psi_s))
             return jnp.sum(matEls * jnp.exp(log_psi_sp - log_psi_s))
-- 
2.43.0


From 2b0e679fec61f5cf8a1dc82bdd9ee178cd7e3931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:41 +0000
Subject: [PATCH 04/26] fix: products of operator-string prefactors fail as
 soon as the prefactors take arguments

---
 jVMC/operator/branch_free.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/operator/branch_free.py b/jVMC/operator/branch_free.py
index 0514c78..265f573 100644
--- a/jVMC/operator/branch_free.py
+++ b/jVMC/operator/branch_free.py
@@ -196,7 +196,7 @@ import copy
 def _id_prefactor(*args, val=1.0, **kwargs):
     return val
 
-def _prod_fun(f1, f2, *args, **kwargs):
+def _prod_fun(*args, f1, f2, **kwargs):
     return f1(*args) * f2(*args)
 
 
-- 
2.43.0


From a67a2562edae6e62359ad35d9fdb9df531e28439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:41 +0000
Subject: [PATCH 05/26] fix: numpy scalar times operator string yields an array
 instead of a rescaled operator string

---
 jVMC/operator/branch_free.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jVMC/operator/branch_free.py b/jVMC/operator/branch_free.py
index 265f573..92d2340 100644
--- a/jVMC/operator/branch_free.py
+++ b/jVMC/operator/branch_free.py
@@ -204,6 +204,9 @@ class OpStr(tuple):
     """This class provides the interface for operator strings
     """
 
+    # let numpy scalars defer to __rmul__ instead of broadcasting over the string
+    __array_ufunc__ = None
+
     def __init__(self, *args):
 
         super(OpStr, self).__init__()
-- 
2.43.0


From d3fe21589c01362b025dcd18256d9aa426e33cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:41 +0000
Subject: [PATCH 06/26] fix: distributing 50 or more prefactors over MPI
 processes used wrong index ranges

---
 jVMC/operator/branch_free.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jVMC/operator/branch_free.py b/jVMC/operator/branch_free.py
index 92d2340..cb7af3d 100644
--- a/jVMC/operator/branch_free.py
+++ b/jVMC/operator/branch_free.py
@@ -428,8 +428,8 @@ class BranchFreeOperator(Operator):
                 myStart = nEls * rank
                 myEnd = min(myStart+nEls, N)
 
-                firstIdx = [0] + [prefactor[nEls * r][0]-1 for r in range(1,commSize)]
-                lastIdx = [prefactor[min(nEls * (r+1), N-1)][0]-1 for r in range(commSize-1)] + [len(init)]
+                firstIdx = [0] + [prefactor[nEls * r][0] if nEls * r < N else len(init) for r in range(1,commSize)]
+                lastIdx = firstIdx[1:] + [len(init)]
 
                 res = init[firstIdx[rank]:lastIdx[rank]]
 
-- 
2.43.0


From 847745908a2aa4fc98de7c5e39464a5b380ab9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:50 +0000
Subject: [PATCH 07/26] fix: global_variance ignored all but the first device;
 global_mean and global_variance failed for general data shapes

---
 jVMC/mpi_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jVMC/mpi_wrapper.py b/jVMC/mpi_wrapper.py
index 73afa5e..75cff16 100644
--- a/jVMC/mpi_wrapper.py
+++ b/jVMC/mpi_wrapper.py
@@ -43,8 +43,8 @@ def jit_my_stuff():
     if global_defs.pmap_devices_updated(mpiPmapDevices):
         _sum_up_pmapd = global_defs.pmap_for_my_devices(lambda x: jax.lax.psum(jnp.sum(x, axis=0), 'i'), axis_name='i')
         # _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jax.lax.psum(jnp.conj(data - mean).dot(p[..., None] * (data - mean)), 'i'), axis_name='i', in_axes=(0, None, 0))
-        _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jnp.einsum('ij, ij, i -> j', jnp.conj(data - mean[None, ...]), (data - mean[None, ...]), p), in_axes=(0, None, 0))
-        mean_helper = global_defs.pmap_for_my_devices(lambda data, p: jnp.expand_dims(jnp.dot(p, data), axis=0), in_axes=(0, 0))
+        _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jax.lax.psum(jnp.einsum('i..., i..., i -> ...', jnp.conj(data - mean[None, ...]), (data - mean[None, ...]), p), 'i'), axis_name='i', in_axes=(0, None, 0))
+        mean_helper = global_defs.pmap_for_my_devices(lambda data, p: jnp.expand_dims(jnp.tensordot(p, data, axes=(0, 0)), axis=0), in_axes=(0, 0))
         cov_helper = global_defs.pmap_for_my_devices(_cov_helper, in_axes=(0, 0))
 
         mpiPmapDevices = global_defs.myPmapDevices
-- 
2.43.0


From f34c4cd6b193e5d0ca4295c6cf6d2f63a28026a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:50 +0000
Subject: [PATCH 08/26] fix: global_covariance did not subtract the mean

---
 jVMC/mpi_wrapper.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jVMC/mpi_wrapper.py b/jVMC/mpi_wrapper.py
index 75cff16..a82bebe 100644
--- a/jVMC/mpi_wrapper.py
+++ b/jVMC/mpi_wrapper.py
@@ -19,7 +19,7 @@ communicationTime = 0.
 
 def _cov_helper(data, p):
     return jnp.expand_dims(
-        jnp.matmul(jnp.conj(jnp.transpose(data)), jnp.multiply(p[:, None], data)),
+        jnp.matmul(jnp.transpose(data), jnp.multiply(p[:, None], jnp.conj(data))),
         axis=0
     )
 
@@ -240,7 +240,9 @@ def global_covariance(data, p):
 
     jit_my_stuff()
 
-    return global_sum(cov_helper(data, p))
+    mean = global_mean(data, p)
+
+    return global_sum(cov_helper(data, p)) - jnp.outer(mean, jnp.conj(mean))
 
 
 def bcast_unknown_size(data, root=0):
-- 
2.43.0


From b5d2a12d046b4fc9d6df3b822a16cec45a6a49fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:50 +0000
Subject: [PATCH 09/26] fix: SampledObs.mean_and_grad failed on more than one
 device

---
 jVMC/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/stats.py b/jVMC/stats.py
index 5c246ca..128d604 100644
--- a/jVMC/stats.py
+++ b/jVMC/stats.py
@@ -224,7 +224,7 @@ class SampledObs():
         self._compute_data_and_mean(obs)
 
         obsGrad = self._estimator_grad(params, self._configs)
-        obsGradMean = mpi.global_sum( _mean_helper(obsGrad,self._weights)[None,...] )
+        obsGradMean = mpi.global_sum( _mean_helper(obsGrad,self._weights)[:, None,...] )
 
         psiGrad = SampledObs( 2.0*jnp.real( psi.gradients(self._configs) ), self._weights )
 
-- 
2.43.0


From ed694d439b0efa1c56cb3a0ae3c202d1233d74cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:24 +0000
Subject: [PATCH 10/26] fix: ExactSampler counted padding states as samples
 when trailing devices hold no states

---
 jVMC/sampler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index 6376bd4..249bf7c 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -417,11 +417,11 @@ class ExactSampler:
 
         deviceCount = global_defs.device_count()
 
-        self.numStatesPerDevice = [(myNumStates + deviceCount - 1) // deviceCount] * deviceCount
-        self.numStatesPerDevice[-1] += myNumStates - deviceCount * self.numStatesPerDevice[0]
+        maxStatesPerDevice = (myNumStates + deviceCount - 1) // deviceCount
+        self.numStatesPerDevice = [min(max(myNumStates - d * maxStatesPerDevice, 0), maxStatesPerDevice) for d in range(deviceCount)]
         self.numStatesPerDevice = jnp.array(self.numStatesPerDevice)
 
-        totalNumStates = deviceCount * self.numStatesPerDevice[0]
+        totalNumStates = deviceCount * maxStatesPerDevice
 
         intReps = jnp.arange(myFirstState, myFirstState + totalNumStates)
         intReps = intReps.reshape((global_defs.device_count(), -1))
-- 
2.43.0


From b61b2890201936cf9c8e03e54d0853801a1e60a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:31 +0000
Subject: [PATCH 11/26] fix: set_random_key gave identical random numbers to
 all MPI processes

---
 jVMC/sampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index 249bf7c..aeda5f2 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -166,6 +166,7 @@ class MCSampler:
             * ``key``: Key (jax.random.PRNGKey)
         """
 
+        key = jax.random.split(key, mpi.commSize)[mpi.rank]
         self.key = jax.random.split(key, global_defs.device_count())
 
     def get_last_number_of_samples(self):
-- 
2.43.0


From e62bdffd8af7854391f81c4d02c784829e1eefd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:31 +0000
Subject: [PATCH 12/26] fix: propose_POVM_outcome failed, and proposed invalid
 outcomes

---
 jVMC/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index aeda5f2..6d77818 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -23,7 +23,7 @@ def propose_POVM_outcome(key, s, info):
     key, subkey = random.split(key)
     idx = random.randint(subkey, (1,), 0, s.size)[0]
     idx = jnp.unravel_index(idx, s.shape)
-    update = (s[idx] + random.randint(key, (1,), 0, 3) % 4)
+    update = (s[idx] + random.randint(key, (1,), 1, 4)[0]) % 4
     return s.at[idx].set(update)
 
 
-- 
2.43.0


From 8cc1e43950c8cfd6b084e5ab13af5189d48cf5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:31 +0000
Subject: [PATCH 13/26] fix: propose_spin_flip_zeroMag failed for
 configurations that are not two-dimensional

---
 jVMC/sampler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index 6d77818..cbf6db8 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -46,8 +46,8 @@ def propose_spin_flip_zeroMag(key, s, info):
 
     # can't use jnp.where because then it is not jit-compilable
     # find indices based on cumsum
-    bound_up = jax.random.randint(idxKeyUp, (1,), 1, s.shape[0] * s.shape[1] / 2 + 1)
-    bound_down = jax.random.randint(idxKeyDown, (1,), 1, s.shape[0] * s.shape[1] / 2 + 1)
+    bound_up = jax.random.randint(idxKeyUp, (1,), 1, s.size // 2 + 1)
+    bound_down = jax.random.randint(idxKeyDown, (1,), 1, s.size // 2 + 1)
 
     id_up = jnp.searchsorted(jnp.cumsum(s), bound_up)
     id_down = jnp.searchsorted(jnp.cumsum(1 - s), bound_down)
@@ -55,8 +55,8 @@ def propose_spin_flip_zeroMag(key, s, info):
     idx_up = jnp.unravel_index(id_up, s.shape)
     idx_down = jnp.unravel_index(id_down, s.shape)
 
-    s = s.at[idx_up[0], idx_up[1]].set(0)
-    s = s.at[idx_down[0], idx_down[1]].set(1)
+    s = s.at[idx_up].set(0)
+    s = s.at[idx_down].set(1)
 
     # On average, do a global spin flip every 30 updates to
     # reflect Z_2 symmetry
-- 
2.43.0


From 17413c62f04296acab0b5018fe2630857aa92784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:53 +0000
Subject: [PATCH 14/26] fix: sample() with multipleOf returned too few samples
 and a wrong total

---
 jVMC/sampler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index cbf6db8..99fcb58 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -233,6 +233,7 @@ class MCSampler:
     def _get_samples_gen(self, params, numSamples, multipleOf=1):
 
         numSamples, self.globNumSamples = mpi.distribute_sampling(numSamples, localDevices=global_defs.device_count(), numChainsPerDevice=multipleOf)
+        numSamples *= multipleOf
 
         tmpKeys = random.split(self.key[0], 3 * global_defs.device_count())
         self.key = tmpKeys[:global_defs.device_count()]
@@ -265,7 +266,9 @@ class MCSampler:
         # Initialize sampling stuff
         self._mc_init(params)
 
-        numSamples, self.globNumSamples = mpi.distribute_sampling(numSamples, localDevices=global_defs.device_count(), numChainsPerDevice=np.lcm(self.numChains, multipleOf))
+        numSamplesUnit = int(np.lcm(self.numChains, multipleOf))
+        numSamples, self.globNumSamples = mpi.distribute_sampling(numSamples, localDevices=global_defs.device_count(), numChainsPerDevice=numSamplesUnit)
+        numSamples *= numSamplesUnit // self.numChains
         numSamplesStr = str(numSamples)
 
         # check whether _get_samples is already compiled for given number of samples
-- 
2.43.0


From cf6f53c942ff4104e5cace5b2a0bcab4a0d5b9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:35 +0000
Subject: [PATCH 15/26] fix: RNN2DGeneral with GRU cells could not be
 constructed

---
 jVMC/nets/rnn2d_general.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jVMC/nets/rnn2d_general.py b/jVMC/nets/rnn2d_general.py
index fc4a73f..feacedc 100644
--- a/jVMC/nets/rnn2d_general.py
+++ b/jVMC/nets/rnn2d_general.py
@@ -129,7 +129,7 @@ class RNN2DGeneral(nn.Module):
                 self.cells = [LSTMCell(features=self.hiddenSize) for _ in range(self.depth)]
                 self.zero_carry = jnp.zeros((self.L, self.depth, 2, self.hiddenSize), dtype=self.dtype)
             elif self.cell == "GRU":
-                self.cells = [GRUCell() for _ in range(self.depth)]
+                self.cells = [GRUCell(features=self.hiddenSize) for _ in range(self.depth)]
             else:
                 ValueError("Cell name not recognized.")
         else:
@@ -246,10 +246,10 @@ class GRUCell(nn.Module):
     def __call__(self, carryH, carryV, state):
         cellCarryH = nn.Dense(features=carryH.shape[-1],
                               use_bias=True,
-                              dtype=global_defs.tReal)
+                              param_dtype=global_defs.tReal)
         cellCarryV = nn.Dense(features=carryV.shape[-1],
                               use_bias=False,
-                              dtype=global_defs.tReal)
+                              param_dtype=global_defs.tReal)
         current_carry, newR = nn.GRUCell(features=self.features, param_dtype=global_defs.tReal)(cellCarryH(carryH) + cellCarryV(carryV), state)
 
         return current_carry, newR[0]
-- 
2.43.0


From a87e323d91be588c7498c579c79f997588dbf936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:43 +0000
Subject: [PATCH 16/26] fix: real networks with vanishing gradient at the first
 configuration are not holomorphic

---
 jVMC/vqs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/vqs.py b/jVMC/vqs.py
index 150c3f3..d9fea14 100644
--- a/jVMC/vqs.py
+++ b/jVMC/vqs.py
@@ -201,7 +201,7 @@ class NQS:
                 return jnp.concatenate([p.ravel() for p in tree_flatten(t)[0]])
             grads_r = make_flat( jax.grad(lambda a,b: jnp.real(self.net.apply(a,b)))(self.parameters, s[0,0,...])["params"] )
             grads_i = make_flat( jax.grad(lambda a,b: jnp.imag(self.net.apply(a,b)))(self.parameters, s[0,0,...])["params"] )
-            if isclose(jnp.linalg.norm(grads_r - 1.j * grads_i)/grads_r.shape[0], 0.0, abs_tol=1e-14):
+            if not self.realParams and isclose(jnp.linalg.norm(grads_r - 1.j * grads_i)/grads_r.shape[0], 0.0, abs_tol=1e-14):
                 self.holomorphic = True
                 self.flat_gradient_function = flat_gradient_holo
             else:
-- 
2.43.0


From 14adbaf851f7a461f11ce9a9ee2109c48ebe1a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:20 +0000
Subject: [PATCH 17/26] fix: get_sr_equation passed an argument
 get_tdvp_equation does not take

---
 jVMC/util/tdvp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jVMC/util/tdvp.py b/jVMC/util/tdvp.py
index 92824ef..f8c9a02 100644
--- a/jVMC/util/tdvp.py
+++ b/jVMC/util/tdvp.py
@@ -131,12 +131,15 @@ class TDVP:
 
         return self.S
 
-    def get_tdvp_equation(self, Eloc, gradients):
+    def get_tdvp_equation(self, Eloc, gradients, rhsPrefactor=None):
+
+        if rhsPrefactor is None:
+            rhsPrefactor = self.rhsPrefactor
 
         self.ElocMean = Eloc.mean()[0]
         self.ElocVar = Eloc.var()[0]
 
-        self.F0 = (-self.rhsPrefactor) * gradients.covar(Eloc).ravel()
+        self.F0 = (-rhsPrefactor) * gradients.covar(Eloc).ravel()
         F = self.makeReal(self.F0)
 
         self.S0 = gradients.covar()
-- 
2.43.0


From 394ccc4963bb02ab74992af29554c2ea94e6bc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:31 +0000
Subject: [PATCH 18/26] fix: AdaptiveHeun exceeded maxStep in the first step

---
 jVMC/util/stepper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/util/stepper.py b/jVMC/util/stepper.py
index 1edce22..ef828f0 100644
--- a/jVMC/util/stepper.py
+++ b/jVMC/util/stepper.py
@@ -136,7 +136,7 @@ class AdaptiveHeun:
 
         fe = 0.5
 
-        dt = self.dt
+        dt = min(self.dt, self.maxStep)
 
         yInitial = y.copy()
 
-- 
2.43.0


From 72effc21c0012c1f032c971820481e9d5fb90629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:12 +0000
Subject: [PATCH 19/26] fix: CpxCNN with periodic boundary conditions padded
 with zeros in addition

---
 jVMC/nets/cnn.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jVMC/nets/cnn.py b/jVMC/nets/cnn.py
index 6593831..7babe50 100644
--- a/jVMC/nets/cnn.py
+++ b/jVMC/nets/cnn.py
@@ -139,10 +139,9 @@ class CpxCNN(nn.Module):
             # else:
             #    x = jnp.pad(x, pads, 'constant', constant_values=0)
             x = f(nn.Conv(features=c, kernel_size=tuple(self.F),
-                          strides=self.strides,
+                          strides=self.strides, padding='VALID' if self.periodicBoundary else 'SAME',
                           use_bias=b, **init_args)(x))
 
-        # strides=self.strides, padding=[(0, 0)] * len(self.strides),
         nrm = jnp.sqrt(jnp.prod(jnp.array(x.shape[reduceDims[-1]:])))
 
         return jnp.sum(x, axis=reduceDims) / nrm
-- 
2.43.0


From c09145ce2254745be0a1e1578e082e9c97b81793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:12 +0000
Subject: [PATCH 20/26] fix: CpxCNNSym applied spin flips to configurations
 encoded as 0/1

---
 jVMC/nets/cnn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jVMC/nets/cnn.py b/jVMC/nets/cnn.py
index 7babe50..030f533 100644
--- a/jVMC/nets/cnn.py
+++ b/jVMC/nets/cnn.py
@@ -181,7 +181,9 @@ class CpxCNNSym(nn.Module):
     def __call__(self, x):
 
         inShape = x.shape
+        x = 2 * x - 1
         x = jax.vmap(lambda o, s: jnp.dot(o, s.ravel()).reshape(inShape), in_axes=(0, None))(self.orbit.orbit, x)
+        x = (x + 1) // 2
 
         def evaluate(x):
             return self.cnn(x)
-- 
2.43.0


From 71867a4a136031b744fcc94720d59588a1594d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:12 +0000
Subject: [PATCH 21/26] fix: init_net could not construct two-network states

---
 jVMC/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/util/util.py b/jVMC/util/util.py
index 16c9eed..49b847c 100644
--- a/jVMC/util/util.py
+++ b/jVMC/util/util.py
@@ -76,7 +76,7 @@ def init_net(descr, dims, seed=0):
 
         model1 = get_net(descr["net1"], dims)
         model2 = get_net(descr["net2"], dims)
-        model = jVMC.nets.two_nets_wrapper.TwoNets(net1=model1, net2=model2)
+        model = jVMC.nets.two_nets_wrapper.TwoNets(nets=(model1, model2))
         isGenerator = "sample" in dir(model1)
 
     avgFun = jVMC.nets.sym_wrapper.avgFun_Coefficients_Sep if isGenerator else jVMC.nets.sym_wrapper.avgFun_Coefficients_Exp
-- 
2.43.0


From f40670484b511547b92c9d343a06e2b78e3e54f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:12 +0000
Subject: [PATCH 22/26] fix: init_net changed the given description, so that it
 could not be used twice

---
 jVMC/util/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jVMC/util/util.py b/jVMC/util/util.py
index 49b847c..d27ea50 100644
--- a/jVMC/util/util.py
+++ b/jVMC/util/util.py
@@ -25,6 +25,9 @@ def get_iterable(x):
 
 def init_net(descr, dims, seed=0):
 
+    # Work on a copy, because activation functions are inserted below
+    descr = {key: {**val, "parameters": dict(val["parameters"])} if key in ("net1", "net2") else val for key, val in descr.items()}
+
     def get_activation_functions(actFuns):
 
         if type(actFuns) is list:
-- 
2.43.0


From 1aeb8ea03068c629f53292d92f827b09fb3ec7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:16 +0000
Subject: [PATCH 23/26] fix: measure_povm reported variances of the wrong
 observable as Monte Carlo errors

---
 jVMC/operator/povm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jVMC/operator/povm.py b/jVMC/operator/povm.py
index 53c5502..e03dfc9 100644
--- a/jVMC/operator/povm.py
+++ b/jVMC/operator/povm.py
@@ -37,14 +37,14 @@ def measure_povm(povm, sampler, sampleConfigs=None, probs=None, observables=None
         result[name] = {}
         result[name]["mean"] = jnp.array(mpi.global_mean(results[0][..., None], probs)[0])
         result[name]["variance"] = jnp.array(mpi.global_variance(results[0][..., None], probs)[0])
-        result[name]["MC_error"] = jnp.array(result[name]["variance"] / jnp.sqrt(sampler.get_last_number_of_samples()))
+        result[name]["MC_error"] = jnp.array(jnp.sqrt(result[name]["variance"]) / jnp.sqrt(sampler.get_last_number_of_samples()))
 
         for key, value in results[1].items():
             result_name = name + "_corr_L" + str(key)
             result[result_name] = {}
             result[result_name]["mean"] = jnp.array(mpi.global_mean(value[..., None], probs)[0] - result[name]["mean"]**2)
             result[result_name]["variance"] = jnp.array(mpi.global_variance(value[..., None], probs)[0])
-            result[result_name]["MC_error"] = jnp.array(result[name]["variance"] / jnp.sqrt(sampler.get_last_number_of_samples()))
+            result[result_name]["MC_error"] = jnp.array(jnp.sqrt(result[result_name]["variance"]) / jnp.sqrt(sampler.get_last_number_of_samples()))
 
     return result
 
-- 
2.43.0


From c192aafcb4c8677ed4cc4a2ee0c6ed572975682e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:16 +0000
Subject: [PATCH 24/26] fix: POVM observables on two-dimensional lattices
 failed on more than one device

---
 jVMC/operator/povm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jVMC/operator/povm.py b/jVMC/operator/povm.py
index e03dfc9..8a858f0 100644
--- a/jVMC/operator/povm.py
+++ b/jVMC/operator/povm.py
@@ -323,12 +323,12 @@ class POVM():
                 correlators[corrLen] = self._spin_average_pmapd(corrPerSamplePerSpin)
             return self._spin_average_pmapd(resPerSamplePerSpin), correlators
         else:
-            resPerSamplePerSpin = self._evaluate_magnetization_pmapd(operator, states.reshape(1, -1, self.system_data["L"]**2)).reshape(1, -1, self.system_data["L"], self.system_data["L"])
+            resPerSamplePerSpin = self._evaluate_magnetization_pmapd(operator, states.reshape(states.shape[0], -1, self.system_data["L"]**2)).reshape(states.shape[0], -1, self.system_data["L"], self.system_data["L"])
             correlators = {}
             for corrLen in np.arange(self.system_data["L"]):
                 corrPerSamplePerSpin = self._evaluate_correlators_pmapd(resPerSamplePerSpin, corrLen)
-                correlators[corrLen] = self._spin_average_pmapd(corrPerSamplePerSpin.reshape(1, -1, self.system_data["L"]**2))
-            return self._spin_average_pmapd(resPerSamplePerSpin.reshape(1, -1, self.system_data["L"]**2)), correlators
+                correlators[corrLen] = self._spin_average_pmapd(corrPerSamplePerSpin.reshape(states.shape[0], -1, self.system_data["L"]**2))
+            return self._spin_average_pmapd(resPerSamplePerSpin.reshape(states.shape[0], -1, self.system_data["L"]**2)), correlators
 
 
 class POVMOperator(Operator):
-- 
2.43.0


From a9bdd6718fedd77b9922168af487b8865c9bc883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:16 +0000
Subject: [PATCH 25/26] fix: POVM operators lost terms when sharing term
 descriptions

---
 jVMC/operator/povm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jVMC/operator/povm.py b/jVMC/operator/povm.py
index 8a858f0..7be0328 100644
--- a/jVMC/operator/povm.py
+++ b/jVMC/operator/povm.py
@@ -355,8 +355,7 @@ class POVMOperator(Operator):
             * ``opDescr``: Operator dictionary to be added to the operator.
         """
         id = len(self.ops) + 1
-        opDescr["id"] = id
-        self.ops.append(opDescr)
+        self.ops.append({**opDescr, "id": id})
         self.compiled = False
 
     def _get_s_primes(self, s, *args):
-- 
2.43.0


From d1487e3636cfabcfd31a7f524e55418a03e91716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:30 +0000
Subject: [PATCH 26/26] fix: OutputManager.set_group("/") did not return to the
 root group

---
 jVMC/util/output_manager.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jVMC/util/output_manager.py b/jVMC/util/output_manager.py
index b3b7c67..993fdcf 100644
--- a/jVMC/util/output_manager.py
+++ b/jVMC/util/output_manager.py
@@ -23,8 +23,7 @@ class OutputManager:
 
     def set_group(self, group):
 
-        if group != "/":
-            self.currentGroup = "/" + group
+        self.currentGroup = "/" + group if group != "/" else "/"
 
         if mpi.rank == 0:
             with h5py.File(self.fn, self.append) as f:
-- 
2.43.0

