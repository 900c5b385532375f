From c2a6b5de6da13e1fee5101e26acc4c40c1a4adc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:22 +0000
Subject: [PATCH 01/30] fix: global_variance sums over all devices, not only
 the first

---
 jVMC/mpi_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/mpi_wrapper.py b/jVMC/mpi_wrapper.py
index 73afa5e..0a24ac3 100644
--- a/jVMC/mpi_wrapper.py
+++ b/jVMC/mpi_wrapper.py
@@ -43,7 +43,7 @@ def jit_my_stuff():
     if global_defs.pmap_devices_updated(mpiPmapDevices):
         _sum_up_pmapd = global_defs.pmap_for_my_devices(lambda x: jax.lax.psum(jnp.sum(x, axis=0), 'i'), axis_name='i')
         # _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jax.lax.psum(jnp.conj(data - mean).dot(p[..., None] * (data - mean)), 'i'), axis_name='i', in_axes=(0, None, 0))
-        _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jnp.einsum('ij, ij, i -> j', jnp.conj(data - mean[None, ...]), (data - mean[None, ...]), p), in_axes=(0, None, 0))
+        _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jax.lax.psum(jnp.einsum('i..., i..., i -> ...', jnp.conj(data - mean[None, ...]), (data - mean[None, ...]), p), 'i'), axis_name='i', in_axes=(0, None, 0))
         mean_helper = global_defs.pmap_for_my_devices(lambda data, p: jnp.expand_dims(jnp.dot(p, data), axis=0), in_axes=(0, 0))
         cov_helper = global_defs.pmap_for_my_devices(_cov_helper, in_axes=(0, 0))
 
-- 
2.43.0


From efe9e6c6d3c0614c68ba5ce13f070525c3146617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:22 +0000
Subject: [PATCH 02/30] fix: global_mean contracts the sample axis also for
 matrix-valued data

---
 jVMC/mpi_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/mpi_wrapper.py b/jVMC/mpi_wrapper.py
index 0a24ac3..75cff16 100644
--- a/jVMC/mpi_wrapper.py
+++ b/jVMC/mpi_wrapper.py
@@ -44,7 +44,7 @@ def jit_my_stuff():
         _sum_up_pmapd = global_defs.pmap_for_my_devices(lambda x: jax.lax.psum(jnp.sum(x, axis=0), 'i'), axis_name='i')
         # _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jax.lax.psum(jnp.conj(data - mean).dot(p[..., None] * (data - mean)), 'i'), axis_name='i', in_axes=(0, None, 0))
         _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jax.lax.psum(jnp.einsum('i..., i..., i -> ...', jnp.conj(data - mean[None, ...]), (data - mean[None, ...]), p), 'i'), axis_name='i', in_axes=(0, None, 0))
-        mean_helper = global_defs.pmap_for_my_devices(lambda data, p: jnp.expand_dims(jnp.dot(p, data), axis=0), in_axes=(0, 0))
+        mean_helper = global_defs.pmap_for_my_devices(lambda data, p: jnp.expand_dims(jnp.tensordot(p, data, axes=(0, 0)), axis=0), in_axes=(0, 0))
         cov_helper = global_defs.pmap_for_my_devices(_cov_helper, in_axes=(0, 0))
 
         mpiPmapDevices = global_defs.myPmapDevices
-- 
2.43.0


From e537e3eb0bd781efda68af00c58036965979b170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:22 +0000
Subject: [PATCH 03/30] fix: global_covariance subtracts the product of means
 as documented

---
 jVMC/mpi_wrapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jVMC/mpi_wrapper.py b/jVMC/mpi_wrapper.py
index 75cff16..46595a6 100644
--- a/jVMC/mpi_wrapper.py
+++ b/jVMC/mpi_wrapper.py
@@ -240,7 +240,9 @@ def global_covariance(data, p):
 
     jit_my_stuff()
 
-    return global_sum(cov_helper(data, p))
+    mean = global_mean(data, p)
+
+    return global_sum(cov_helper(data, p)) - jnp.outer(jnp.conj(mean), mean)
 
 
 def bcast_unknown_size(data, root=0):
-- 
2.43.0


From 4044d76410a7800f33430bbbb61325b17c63e075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:03 +0000
Subject: [PATCH 04/30] fix: SampledObs.mean_and_grad keeps the device axis
 when averaging the estimator gradient

---
 jVMC/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/stats.py b/jVMC/stats.py
index 5c246ca..128d604 100644
--- a/jVMC/stats.py
+++ b/jVMC/stats.py
@@ -224,7 +224,7 @@ class SampledObs():
         self._compute_data_and_mean(obs)
 
         obsGrad = self._estimator_grad(params, self._configs)
-        obsGradMean = mpi.global_sum( _mean_helper(obsGrad,self._weights)[None,...] )
+        obsGradMean = mpi.global_sum( _mean_helper(obsGrad,self._weights)[:, None,...] )
 
         psiGrad = SampledObs( 2.0*jnp.real( psi.gradients(self._configs) ), self._weights )
 
-- 
2.43.0


From 9b1ebda90e55bb14b6e89a7c142e93e3b456b1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:23 +0000
Subject: [PATCH 05/30] fix: products of operator prefactor functions can be
 evaluated (argument clash in _prod_fun)

---
 jVMC/operator/branch_free.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/operator/branch_free.py b/jVMC/operator/branch_free.py
index 6db54f9..924a0ca 100644
--- a/jVMC/operator/branch_free.py
+++ b/jVMC/operator/branch_free.py
@@ -196,7 +196,7 @@ import copy
 def _id_prefactor(*args, val=1.0, **kwargs):
     return val
 
-def _prod_fun(f1, f2, *args, **kwargs):
+def _prod_fun(*args, f1, f2, **kwargs):
     return f1(*args) * f2(*args)
 
 
-- 
2.43.0


From 0ddf002804aacae265b432d5949e086a4eb76f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:23 +0000
Subject: [PATCH 06/30] fix: branch free operators act on configurations with
 more than one lattice dimension

---
 jVMC/operator/branch_free.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/operator/branch_free.py b/jVMC/operator/branch_free.py
index 924a0ca..265f573 100644
--- a/jVMC/operator/branch_free.py
+++ b/jVMC/operator/branch_free.py
@@ -449,7 +449,7 @@ class BranchFreeOperator(Operator):
         sp = jnp.array([s] * numOps)
 
         ######## fermions ########
-        mask = jnp.tril(jnp.ones((s.shape[-1],s.shape[-1]),dtype=int),-1).T
+        mask = jnp.tril(jnp.ones((s.size,s.size),dtype=int),-1).T
         ##########################
 
         def apply_fun(c, x):
-- 
2.43.0


From 98a4344683f78d212d81b263a289bb834106e0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:23 +0000
Subject: [PATCH 07/30] fix: distribute many operator prefactors consistently
 over MPI processes

---
 jVMC/operator/branch_free.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/jVMC/operator/branch_free.py b/jVMC/operator/branch_free.py
index 265f573..f26569e 100644
--- a/jVMC/operator/branch_free.py
+++ b/jVMC/operator/branch_free.py
@@ -425,16 +425,11 @@ class BranchFreeOperator(Operator):
                 myStart = nEls * rank
                 myEnd = min(myStart+nEls, N)
 
-                firstIdx = [0] + [prefactor[nEls * r][0]-1 for r in range(1,commSize)]
-                lastIdx = [prefactor[min(nEls * (r+1), N-1)][0]-1 for r in range(commSize-1)] + [len(init)]
+                myRes = np.array([f(*args) for _,f in prefactor[myStart:myEnd]], dtype=init.dtype)
 
-                res = init[firstIdx[rank]:lastIdx[rank]]
-
-                for i,f in prefactor[myStart:myEnd]:
-                    res[i-firstIdx[rank]] = f(*args)
+                res = init
+                res[[i for i,_ in prefactor]] = np.concatenate(comm.allgather(myRes), axis=0)
 
-                res = np.concatenate(comm.allgather(res), axis=0)
-                
             return (jnp.array(res), )
 
         return functools.partial(self._get_s_primes, idxC=self.idxC, mapC=self.mapC, matElsC=self.matElsC, diag=self.diag, fermiC=self.fermionicC, prefactor=self.prefactor),\
-- 
2.43.0


From 08b3df020a9472917a8a9fa6f108990a9a865a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:30 +0000
Subject: [PATCH 08/30] fix: local operator estimates take the logarithm of
 plain amplitudes in every branch

---
 jVMC/operator/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jVMC/operator/base.py b/jVMC/operator/base.py
index 8d62072..cd24544 100644
--- a/jVMC/operator/base.py
+++ b/jVMC/operator/base.py
@@ -181,6 +181,8 @@ class Operator(metaclass=abc.ABCMeta):
 
         if logPsiS is None:
             logPsiS = psi(samples)
+            if not psi.logarithmic:
+                logPsiS = jnp.log(logPsiS)
 
         if self.ElocBatchSize > 0:
             return self.get_O_loc_batched(samples, psi, logPsiS, self.ElocBatchSize, *args)
@@ -268,8 +270,11 @@ class Operator(metaclass=abc.ABCMeta):
             logPsiSbatch = global_defs.pmap_for_my_devices(expand_batch, static_broadcasted_argnums=(1,))(logPsiSbatch, batchSize)
 
             sp, _ = self.get_s_primes(batch, *args)
+            logPsiSP = psi(sp)
+            if not psi.logarithmic:
+                logPsiSP = jnp.log(logPsiSP)
 
-            OlocBatch = self.get_O_loc_unbatched(logPsiSbatch, psi(sp))
+            OlocBatch = self.get_O_loc_unbatched(logPsiSbatch, logPsiSP)
         
             OlocBatch = self._get_Oloc_slice_pmapd(OlocBatch, 0, remainder)
 
-- 
2.43.0


From 007e399c5f4576d12f070ca713292dd6d21f0296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:30 +0000
Subject: [PATCH 09/30] fix: get_estimator_function supports operators whose
 compile() returns a single function

---
 jVMC/operator/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jVMC/operator/base.py b/jVMC/operator/base.py
index cd24544..c2f4e44 100644
--- a/jVMC/operator/base.py
+++ b/jVMC/operator/base.py
@@ -304,6 +304,7 @@ class Operator(metaclass=abc.ABCMeta):
         """
 
         op_fun = self.compile()
+        op_fun_args = args
         if type(op_fun) is tuple:
             op_fun_args = op_fun[1](*args)
             op_fun = op_fun[0]
-- 
2.43.0


From d1092606ec51804aad1fe0860a6a8ad51bb9794a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:30 +0000
Subject: [PATCH 10/30] fix: get_estimator_function takes the logarithm of
 plain amplitudes

---
 jVMC/operator/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jVMC/operator/base.py b/jVMC/operator/base.py
index c2f4e44..e4524db 100644
--- a/jVMC/operator/base.py
+++ b/jVMC/operator/base.py
@@ -309,6 +309,8 @@ class Operator(metaclass=abc.ABCMeta):
             op_fun_args = op_fun[1](*args)
             op_fun = op_fun[0]
         net_fun = psi.net.apply
+        if not psi.logarithmic:
+            net_fun = lambda p, s: jnp.log(psi.net.apply(p, s))
 
         def op_estimator(params, config):
 
-- 
2.43.0


From a99cb50c074d00b29a0ed049636a749dbe46701c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:28 +0000
Subject: [PATCH 11/30] fix: ExactSampler counts every basis state once also
 when the states do not fill all devices

---
 jVMC/sampler.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index 6376bd4..1b63b2e 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -417,11 +417,10 @@ class ExactSampler:
 
         deviceCount = global_defs.device_count()
 
-        self.numStatesPerDevice = [(myNumStates + deviceCount - 1) // deviceCount] * deviceCount
-        self.numStatesPerDevice[-1] += myNumStates - deviceCount * self.numStatesPerDevice[0]
-        self.numStatesPerDevice = jnp.array(self.numStatesPerDevice)
+        maxStatesPerDevice = (myNumStates + deviceCount - 1) // deviceCount
+        self.numStatesPerDevice = jnp.clip(myNumStates - maxStatesPerDevice * jnp.arange(deviceCount), 0, maxStatesPerDevice)
 
-        totalNumStates = deviceCount * self.numStatesPerDevice[0]
+        totalNumStates = deviceCount * maxStatesPerDevice
 
         intReps = jnp.arange(myFirstState, myFirstState + totalNumStates)
         intReps = intReps.reshape((global_defs.device_count(), -1))
-- 
2.43.0


From 1b66a4f609223d6c637e3548f9b65a4cb62f8352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:39 +0000
Subject: [PATCH 12/30] fix: propose_POVM_outcome proposes valid outcomes
 symmetrically instead of raising

---
 jVMC/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index 1b63b2e..0c5824e 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -23,7 +23,7 @@ def propose_POVM_outcome(key, s, info):
     key, subkey = random.split(key)
     idx = random.randint(subkey, (1,), 0, s.size)[0]
     idx = jnp.unravel_index(idx, s.shape)
-    update = (s[idx] + random.randint(key, (1,), 0, 3) % 4)
+    update = (s[idx] + random.randint(key, (1,), 1, 4)[0]) % 4
     return s.at[idx].set(update)
 
 
-- 
2.43.0


From 85094f354b7694e70d77e1dae16e865b298b9cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:39 +0000
Subject: [PATCH 13/30] fix: MCSampler.set_random_key gives every MPI process
 its own random stream

---
 jVMC/sampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index 0c5824e..c5591a4 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -166,7 +166,8 @@ class MCSampler:
             * ``key``: Key (jax.random.PRNGKey)
         """
 
-        self.key = jax.random.split(key, global_defs.device_count())
+        self.key = jax.random.split(key, mpi.commSize)[mpi.rank]
+        self.key = jax.random.split(self.key, global_defs.device_count())
 
     def get_last_number_of_samples(self):
         """Return last number of samples.
-- 
2.43.0


From 7e061cf813a7372e26f481a7c5c76aae71789dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:39 +0000
Subject: [PATCH 14/30] fix: direct sampling returns the reported number of
 samples for multipleOf > 1

---
 jVMC/sampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index c5591a4..1b5272a 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -233,6 +233,7 @@ class MCSampler:
     def _get_samples_gen(self, params, numSamples, multipleOf=1):
 
         numSamples, self.globNumSamples = mpi.distribute_sampling(numSamples, localDevices=global_defs.device_count(), numChainsPerDevice=multipleOf)
+        numSamples *= multipleOf
 
         tmpKeys = random.split(self.key[0], 3 * global_defs.device_count())
         self.key = tmpKeys[:global_defs.device_count()]
-- 
2.43.0


From 0da9fd98680e9abc5ce920e937ed8db67c848d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:39 +0000
Subject: [PATCH 15/30] fix: MCMC sampling returns the reported number of
 samples for multipleOf > 1

---
 jVMC/sampler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index 1b5272a..bf49651 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -266,7 +266,9 @@ class MCSampler:
         # Initialize sampling stuff
         self._mc_init(params)
 
-        numSamples, self.globNumSamples = mpi.distribute_sampling(numSamples, localDevices=global_defs.device_count(), numChainsPerDevice=np.lcm(self.numChains, multipleOf))
+        samplesPerDeviceMultiple = int(np.lcm(self.numChains, multipleOf))
+        numSamples, self.globNumSamples = mpi.distribute_sampling(numSamples, localDevices=global_defs.device_count(), numChainsPerDevice=samplesPerDeviceMultiple)
+        numSamples *= samplesPerDeviceMultiple // self.numChains
         numSamplesStr = str(numSamples)
 
         # check whether _get_samples is already compiled for given number of samples
-- 
2.43.0


From 7f155e2bc025782dd7acac10b9ce7c256c6b31d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:35 +0000
Subject: [PATCH 16/30] fix: networks with real parameters are never treated as
 holomorphic

---
 jVMC/vqs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/vqs.py b/jVMC/vqs.py
index 150c3f3..d9fea14 100644
--- a/jVMC/vqs.py
+++ b/jVMC/vqs.py
@@ -201,7 +201,7 @@ class NQS:
                 return jnp.concatenate([p.ravel() for p in tree_flatten(t)[0]])
             grads_r = make_flat( jax.grad(lambda a,b: jnp.real(self.net.apply(a,b)))(self.parameters, s[0,0,...])["params"] )
             grads_i = make_flat( jax.grad(lambda a,b: jnp.imag(self.net.apply(a,b)))(self.parameters, s[0,0,...])["params"] )
-            if isclose(jnp.linalg.norm(grads_r - 1.j * grads_i)/grads_r.shape[0], 0.0, abs_tol=1e-14):
+            if not self.realParams and isclose(jnp.linalg.norm(grads_r - 1.j * grads_i)/grads_r.shape[0], 0.0, abs_tol=1e-14):
                 self.holomorphic = True
                 self.flat_gradient_function = flat_gradient_holo
             else:
-- 
2.43.0


From 009f21d957974fbeb11539faabe7712b34ab627d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:40 +0000
Subject: [PATCH 17/30] fix: RNN2DGeneral works with GRU cells

---
 jVMC/nets/rnn2d_general.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jVMC/nets/rnn2d_general.py b/jVMC/nets/rnn2d_general.py
index fc4a73f..feacedc 100644
--- a/jVMC/nets/rnn2d_general.py
+++ b/jVMC/nets/rnn2d_general.py
@@ -129,7 +129,7 @@ class RNN2DGeneral(nn.Module):
                 self.cells = [LSTMCell(features=self.hiddenSize) for _ in range(self.depth)]
                 self.zero_carry = jnp.zeros((self.L, self.depth, 2, self.hiddenSize), dtype=self.dtype)
             elif self.cell == "GRU":
-                self.cells = [GRUCell() for _ in range(self.depth)]
+                self.cells = [GRUCell(features=self.hiddenSize) for _ in range(self.depth)]
             else:
                 ValueError("Cell name not recognized.")
         else:
@@ -246,10 +246,10 @@ class GRUCell(nn.Module):
     def __call__(self, carryH, carryV, state):
         cellCarryH = nn.Dense(features=carryH.shape[-1],
                               use_bias=True,
-                              dtype=global_defs.tReal)
+                              param_dtype=global_defs.tReal)
         cellCarryV = nn.Dense(features=carryV.shape[-1],
                               use_bias=False,
-                              dtype=global_defs.tReal)
+                              param_dtype=global_defs.tReal)
         current_carry, newR = nn.GRUCell(features=self.features, param_dtype=global_defs.tReal)(cellCarryH(carryH) + cellCarryV(carryV), state)
 
         return current_carry, newR[0]
-- 
2.43.0


From a7ecc27ee6baf1752a17046e939d2b8e82c68fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:20 +0000
Subject: [PATCH 18/30] fix: POVMOperator.add does not modify the given
 operator description

---
 jVMC/operator/povm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jVMC/operator/povm.py b/jVMC/operator/povm.py
index 53c5502..e89de5b 100644
--- a/jVMC/operator/povm.py
+++ b/jVMC/operator/povm.py
@@ -355,8 +355,8 @@ class POVMOperator(Operator):
             * ``opDescr``: Operator dictionary to be added to the operator.
         """
         id = len(self.ops) + 1
-        opDescr["id"] = id
-        self.ops.append(opDescr)
+        # Do not modify the given dictionary, it might be added to other operators as well
+        self.ops.append({**opDescr, "id": id})
         self.compiled = False
 
     def _get_s_primes(self, s, *args):
-- 
2.43.0


From c71c74bd5b11c4d4a9873ee9cf30d99f3c69e246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:37 +0000
Subject: [PATCH 19/30] fix: MC_error of measure_povm is the standard error of
 the measured quantity

---
 jVMC/operator/povm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jVMC/operator/povm.py b/jVMC/operator/povm.py
index e89de5b..dbcd3aa 100644
--- a/jVMC/operator/povm.py
+++ b/jVMC/operator/povm.py
@@ -37,14 +37,14 @@ def measure_povm(povm, sampler, sampleConfigs=None, probs=None, observables=None
         result[name] = {}
         result[name]["mean"] = jnp.array(mpi.global_mean(results[0][..., None], probs)[0])
         result[name]["variance"] = jnp.array(mpi.global_variance(results[0][..., None], probs)[0])
-        result[name]["MC_error"] = jnp.array(result[name]["variance"] / jnp.sqrt(sampler.get_last_number_of_samples()))
+        result[name]["MC_error"] = jnp.array(jnp.sqrt(result[name]["variance"]) / jnp.sqrt(sampler.get_last_number_of_samples()))
 
         for key, value in results[1].items():
             result_name = name + "_corr_L" + str(key)
             result[result_name] = {}
             result[result_name]["mean"] = jnp.array(mpi.global_mean(value[..., None], probs)[0] - result[name]["mean"]**2)
             result[result_name]["variance"] = jnp.array(mpi.global_variance(value[..., None], probs)[0])
-            result[result_name]["MC_error"] = jnp.array(result[name]["variance"] / jnp.sqrt(sampler.get_last_number_of_samples()))
+            result[result_name]["MC_error"] = jnp.array(jnp.sqrt(result[name]["variance"]) / jnp.sqrt(sampler.get_last_number_of_samples()))
 
     return result
 
-- 
2.43.0


From 7135690992733464a80165f5b5bc5b699837a59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:37 +0000
Subject: [PATCH 20/30] fix: POVM observables on two-dimensional lattices work
 with several devices

---
 jVMC/operator/povm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jVMC/operator/povm.py b/jVMC/operator/povm.py
index dbcd3aa..2d9e4be 100644
--- a/jVMC/operator/povm.py
+++ b/jVMC/operator/povm.py
@@ -323,12 +323,12 @@ class POVM():
                 correlators[corrLen] = self._spin_average_pmapd(corrPerSamplePerSpin)
             return self._spin_average_pmapd(resPerSamplePerSpin), correlators
         else:
-            resPerSamplePerSpin = self._evaluate_magnetization_pmapd(operator, states.reshape(1, -1, self.system_data["L"]**2)).reshape(1, -1, self.system_data["L"], self.system_data["L"])
+            resPerSamplePerSpin = self._evaluate_magnetization_pmapd(operator, states.reshape(states.shape[0], -1, self.system_data["L"]**2)).reshape(states.shape[0], -1, self.system_data["L"], self.system_data["L"])
             correlators = {}
             for corrLen in np.arange(self.system_data["L"]):
                 corrPerSamplePerSpin = self._evaluate_correlators_pmapd(resPerSamplePerSpin, corrLen)
-                correlators[corrLen] = self._spin_average_pmapd(corrPerSamplePerSpin.reshape(1, -1, self.system_data["L"]**2))
-            return self._spin_average_pmapd(resPerSamplePerSpin.reshape(1, -1, self.system_data["L"]**2)), correlators
+                correlators[corrLen] = self._spin_average_pmapd(corrPerSamplePerSpin.reshape(states.shape[0], -1, self.system_data["L"]**2))
+            return self._spin_average_pmapd(resPerSamplePerSpin.reshape(states.shape[0], -1, self.system_data["L"]**2)), correlators
 
 
 class POVMOperator(Operator):
-- 
2.43.0


From db3f6147adda9cdc81745d83fe431d8af6c5b2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:15 +0000
Subject: [PATCH 21/30] fix: MC_error of POVM correlators uses the variance of
 the correlator

---
 jVMC/operator/povm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/operator/povm.py b/jVMC/operator/povm.py
index 2d9e4be..2cd122d 100644
--- a/jVMC/operator/povm.py
+++ b/jVMC/operator/povm.py
@@ -44,7 +44,7 @@ def measure_povm(povm, sampler, sampleConfigs=None, probs=None, observables=None
             result[result_name] = {}
             result[result_name]["mean"] = jnp.array(mpi.global_mean(value[..., None], probs)[0] - result[name]["mean"]**2)
             result[result_name]["variance"] = jnp.array(mpi.global_variance(value[..., None], probs)[0])
-            result[result_name]["MC_error"] = jnp.array(jnp.sqrt(result[name]["variance"]) / jnp.sqrt(sampler.get_last_number_of_samples()))
+            result[result_name]["MC_error"] = jnp.array(jnp.sqrt(result[result_name]["variance"]) / jnp.sqrt(sampler.get_last_number_of_samples()))
 
     return result
 
-- 
2.43.0


From c6af90ad8f602aab338cbbdba5de9d82285e4cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:47 +0000
Subject: [PATCH 22/30] fix: TDVP.get_sr_equation raised TypeError
 (rhsPrefactor not accepted by get_tdvp_equation)

---
 jVMC/util/tdvp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jVMC/util/tdvp.py b/jVMC/util/tdvp.py
index 92824ef..f8c9a02 100644
--- a/jVMC/util/tdvp.py
+++ b/jVMC/util/tdvp.py
@@ -131,12 +131,15 @@ class TDVP:
 
         return self.S
 
-    def get_tdvp_equation(self, Eloc, gradients):
+    def get_tdvp_equation(self, Eloc, gradients, rhsPrefactor=None):
+
+        if rhsPrefactor is None:
+            rhsPrefactor = self.rhsPrefactor
 
         self.ElocMean = Eloc.mean()[0]
         self.ElocVar = Eloc.var()[0]
 
-        self.F0 = (-self.rhsPrefactor) * gradients.covar(Eloc).ravel()
+        self.F0 = (-rhsPrefactor) * gradients.covar(Eloc).ravel()
         F = self.makeReal(self.F0)
 
         self.S0 = gradients.covar()
-- 
2.43.0


From 3fdec68bb162caee669f39a1eaf686826065f1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:42 +0000
Subject: [PATCH 23/30] fix: OutputManager.set_group("/") did not switch back
 to the root group

---
 jVMC/util/output_manager.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jVMC/util/output_manager.py b/jVMC/util/output_manager.py
index b3b7c67..fc85b2b 100644
--- a/jVMC/util/output_manager.py
+++ b/jVMC/util/output_manager.py
@@ -23,8 +23,7 @@ class OutputManager:
 
     def set_group(self, group):
 
-        if group != "/":
-            self.currentGroup = "/" + group
+        self.currentGroup = "/" if group == "/" else "/" + group
 
         if mpi.rank == 0:
             with h5py.File(self.fn, self.append) as f:
-- 
2.43.0


From 05df8e9217e3a3670c9ec57e46ddb57ed86f6bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:42 +0000
Subject: [PATCH 24/30] fix: CpxCNN with periodic boundary conditions padded
 the input twice

---
 jVMC/nets/cnn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jVMC/nets/cnn.py b/jVMC/nets/cnn.py
index 6593831..13ad524 100644
--- a/jVMC/nets/cnn.py
+++ b/jVMC/nets/cnn.py
@@ -140,6 +140,7 @@ class CpxCNN(nn.Module):
             #    x = jnp.pad(x, pads, 'constant', constant_values=0)
             x = f(nn.Conv(features=c, kernel_size=tuple(self.F),
                           strides=self.strides,
+                          padding='VALID' if self.periodicBoundary else 'SAME',
                           use_bias=b, **init_args)(x))
 
         # strides=self.strides, padding=[(0, 0)] * len(self.strides),
-- 
2.43.0


From b80398b83387c3097fcc82389a7ee60b4f8031bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:42 +0000
Subject: [PATCH 25/30] fix: CpxCNNSym applied the spin-flip symmetry to 0/1
 instead of spin variables

---
 jVMC/nets/cnn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jVMC/nets/cnn.py b/jVMC/nets/cnn.py
index 13ad524..2293031 100644
--- a/jVMC/nets/cnn.py
+++ b/jVMC/nets/cnn.py
@@ -183,7 +183,9 @@ class CpxCNNSym(nn.Module):
     def __call__(self, x):
 
         inShape = x.shape
+        x = 2 * x - 1
         x = jax.vmap(lambda o, s: jnp.dot(o, s.ravel()).reshape(inShape), in_axes=(0, None))(self.orbit.orbit, x)
+        x = (x + 1) // 2
 
         def evaluate(x):
             return self.cnn(x)
-- 
2.43.0


From c439673aa5ac8d6686e149fcc9268a0b1f110d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:42 +0000
Subject: [PATCH 26/30] fix: init_net raised TypeError for descriptions with a
 second network

---
 jVMC/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/util/util.py b/jVMC/util/util.py
index 16c9eed..49b847c 100644
--- a/jVMC/util/util.py
+++ b/jVMC/util/util.py
@@ -76,7 +76,7 @@ def init_net(descr, dims, seed=0):
 
         model1 = get_net(descr["net1"], dims)
         model2 = get_net(descr["net2"], dims)
-        model = jVMC.nets.two_nets_wrapper.TwoNets(net1=model1, net2=model2)
+        model = jVMC.nets.two_nets_wrapper.TwoNets(nets=(model1, model2))
         isGenerator = "sample" in dir(model1)
 
     avgFun = jVMC.nets.sym_wrapper.avgFun_Coefficients_Sep if isGenerator else jVMC.nets.sym_wrapper.avgFun_Coefficients_Exp
-- 
2.43.0


From 22941d75f95d2fcfb72a1d450e9f34ae47b0d24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:42 +0000
Subject: [PATCH 27/30] fix: init_net modified the description passed by the
 caller

---
 jVMC/util/util.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/jVMC/util/util.py b/jVMC/util/util.py
index 49b847c..a746063 100644
--- a/jVMC/util/util.py
+++ b/jVMC/util/util.py
@@ -44,10 +44,11 @@ def init_net(descr, dims, seed=0):
 
     def get_net(descr, dims):
 
-        return netTypes[descr["type"]](**descr["parameters"])
+        parameters = dict(descr["parameters"])
+        if "actFun" in parameters:
+            parameters["actFun"] = get_activation_functions(parameters["actFun"])
 
-    if "actFun" in descr["net1"]["parameters"]:
-        descr["net1"]["parameters"]["actFun"] = get_activation_functions(descr["net1"]["parameters"]["actFun"])
+        return netTypes[descr["type"]](**parameters)
 
     symms = tuple()
     for key in ["translation", "rotation", "reflection", "spinflip"]:
@@ -70,10 +71,6 @@ def init_net(descr, dims, seed=0):
 
     else:
 
-        if "actFun" in descr["net2"]["parameters"]:
-
-            descr["net2"]["parameters"]["actFun"] = get_activation_functions(descr["net2"]["parameters"]["actFun"])
-
         model1 = get_net(descr["net1"], dims)
         model2 = get_net(descr["net2"], dims)
         model = jVMC.nets.two_nets_wrapper.TwoNets(nets=(model1, model2))
-- 
2.43.0


From 97318b545257e7e2e47aa3114f1f98bdc8cc9f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:27 +0000
Subject: [PATCH 28/30] fix: RBM overflowed to inf for large pre-activations
 (log of cosh)

---
 jVMC/nets/rbm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/nets/rbm.py b/jVMC/nets/rbm.py
index 229c291..ab04b98 100644
--- a/jVMC/nets/rbm.py
+++ b/jVMC/nets/rbm.py
@@ -85,6 +85,6 @@ class RBM(nn.Module):
                                         dtype=global_defs.tReal)
                         )
 
-        return jnp.sum(jnp.log(jnp.cosh(layer(2 * s - 1))))
+        return jnp.sum(act_funs.log_cosh(layer(2 * s - 1)))
 
 # ** end class RBM
-- 
2.43.0


From 7536f586072043142d2e01e59164f30eec12ea77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:27 +0000
Subject: [PATCH 29/30] fix: RBM applied the weights to the last lattice axis
 only for configurations with more than one axis

---
 jVMC/nets/rbm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/nets/rbm.py b/jVMC/nets/rbm.py
index ab04b98..14c59b7 100644
--- a/jVMC/nets/rbm.py
+++ b/jVMC/nets/rbm.py
@@ -85,6 +85,6 @@ class RBM(nn.Module):
                                         dtype=global_defs.tReal)
                         )
 
-        return jnp.sum(act_funs.log_cosh(layer(2 * s - 1)))
+        return jnp.sum(act_funs.log_cosh(layer(2 * s.ravel() - 1)))
 
 # ** end class RBM
-- 
2.43.0


From 9db6f785cdef8ca56b8bcdd45f4ff0d746363a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:48 +0000
Subject: [PATCH 30/30] fix: statistics dividing by the weights were nan when a
 sample has weight zero (padding of the exact sampler)

---
 jVMC/stats.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/jVMC/stats.py b/jVMC/stats.py
index 128d604..e273e9e 100644
--- a/jVMC/stats.py
+++ b/jVMC/stats.py
@@ -107,6 +107,11 @@ def jit_my_stuff():
 #     return op_estimator
 
 
+def _divisor(weights):
+    # Samples of weight zero (e.g. padding of the exact sampler) do not contribute
+    return jnp.where(weights > 0, weights, 1.)
+
+
 def flat_grad(fun):
 
     def grad_fun(*args):
@@ -262,7 +267,7 @@ class SampledObs():
         if other is None:
             other = self
 
-        return SampledObs( _covar_data_helper(self._data, other._data, self._weights), self._weights )
+        return SampledObs( _covar_data_helper(self._data, other._data, _divisor(self._weights)), self._weights )
     
 
     def covar_var(self, other=None):
@@ -275,7 +280,7 @@ class SampledObs():
         if other is None:
             other = self
         
-        return mpi.global_sum( _covar_var_helper(self._data, other._data, self._weights)[:, None,...]  ) \
+        return mpi.global_sum( _covar_var_helper(self._data, other._data, _divisor(self._weights))[:, None,...]  ) \
                     - jnp.abs(self.covar(other))**2
 
 
@@ -287,9 +292,9 @@ class SampledObs():
         """
 
         if linearFun is None:
-            return SampledObs( _trafo_helper_1(self._data, self._weights, self._mean, nonLinearFun), self._weights )
+            return SampledObs( _trafo_helper_1(self._data, _divisor(self._weights), self._mean, nonLinearFun), self._weights )
         
-        return SampledObs( _trafo_helper_2(self._data, self._weights, self._mean, linearFun, nonLinearFun), self._weights )
+        return SampledObs( _trafo_helper_2(self._data, _divisor(self._weights), self._mean, linearFun, nonLinearFun), self._weights )
 
 
     def select(self, ixs):
-- 
2.43.0

