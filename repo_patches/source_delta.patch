From ebe35716884365c4c4a49e04861ac86a5af98f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:58 +0000
Subject: [PATCH 01/44] fix: pass positional arguments to products of operator
 prefactors

Products of prefactors are functools.partial objects that bind f1 and f2 by
keyword, so any positional argument (e.g. the time) clashed with f1.
---
 jVMC/operator/branch_free.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/operator/branch_free.py b/jVMC/operator/branch_free.py
index 6db54f9..924a0ca 100644
--- a/jVMC/operator/branch_free.py
+++ b/jVMC/operator/branch_free.py
@@ -196,7 +196,7 @@ import copy
 def _id_prefactor(*args, val=1.0, **kwargs):
     return val
 
-def _prod_fun(f1, f2, *args, **kwargs):
+def _prod_fun(*args, f1, f2, **kwargs):
     return f1(*args) * f2(*args)
 
 
-- 
2.43.0


From fea4f632ce4bd53ca8901762f8cfa6ea33c18cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:58 +0000
Subject: [PATCH 02/44] fix: build the Jordan-Wigner mask for all sites of
 multi-dimensional lattices

The mask had the size of the last lattice dimension only, while configurations
are flattened before the operators act, so every 2D lattice failed.
---
 jVMC/operator/branch_free.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/operator/branch_free.py b/jVMC/operator/branch_free.py
index 924a0ca..265f573 100644
--- a/jVMC/operator/branch_free.py
+++ b/jVMC/operator/branch_free.py
@@ -449,7 +449,7 @@ class BranchFreeOperator(Operator):
         sp = jnp.array([s] * numOps)
 
         ######## fermions ########
-        mask = jnp.tril(jnp.ones((s.shape[-1],s.shape[-1]),dtype=int),-1).T
+        mask = jnp.tril(jnp.ones((s.size,s.size),dtype=int),-1).T
         ##########################
 
         def apply_fun(c, x):
-- 
2.43.0


From 74154279b30d4ef98944a52e5d15a2e96362a281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:04 +0000
Subject: [PATCH 03/44] fix: distribute the evaluation of many operator
 prefactors correctly over MPI processes

With 50 or more prefactors and several processes the slice boundaries were off
by one, which raised an IndexError or left prefactors at one. Gather
(index, value) pairs instead.
---
 jVMC/operator/branch_free.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/jVMC/operator/branch_free.py b/jVMC/operator/branch_free.py
index 265f573..9b271f7 100644
--- a/jVMC/operator/branch_free.py
+++ b/jVMC/operator/branch_free.py
@@ -425,15 +425,12 @@ class BranchFreeOperator(Operator):
                 myStart = nEls * rank
                 myEnd = min(myStart+nEls, N)
 
-                firstIdx = [0] + [prefactor[nEls * r][0]-1 for r in range(1,commSize)]
-                lastIdx = [prefactor[min(nEls * (r+1), N-1)][0]-1 for r in range(commSize-1)] + [len(init)]
+                myVals = [(i, complex(f(*args))) for i,f in prefactor[myStart:myEnd]]
 
-                res = init[firstIdx[rank]:lastIdx[rank]]
-
-                for i,f in prefactor[myStart:myEnd]:
-                    res[i-firstIdx[rank]] = f(*args)
-
-                res = np.concatenate(comm.allgather(res), axis=0)
+                res = init
+                for vals in comm.allgather(myVals):
+                    for i,v in vals:
+                        res[i] = v
                 
             return (jnp.array(res), )
 
-- 
2.43.0


From 401f19f1b50f5eee15f5c6506252f54e8765a148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:17 +0000
Subject: [PATCH 04/44] fix: take the logarithm of plain amplitudes everywhere
 in get_O_loc

For a network that returns plain amplitudes the logarithm was missing when
logPsiS is not given and in the last, incomplete batch.
---
 jVMC/operator/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jVMC/operator/base.py b/jVMC/operator/base.py
index 8d62072..b9c3a6b 100644
--- a/jVMC/operator/base.py
+++ b/jVMC/operator/base.py
@@ -181,6 +181,8 @@ class Operator(metaclass=abc.ABCMeta):
 
         if logPsiS is None:
             logPsiS = psi(samples)
+            if not psi.logarithmic:
+                logPsiS = jnp.log(logPsiS)
 
         if self.ElocBatchSize > 0:
             return self.get_O_loc_batched(samples, psi, logPsiS, self.ElocBatchSize, *args)
@@ -269,7 +271,11 @@ class Operator(metaclass=abc.ABCMeta):
 
             sp, _ = self.get_s_primes(batch, *args)
 
-            OlocBatch = self.get_O_loc_unbatched(logPsiSbatch, psi(sp))
+            logPsiSP = psi(sp)
+            if not psi.logarithmic:
+                logPsiSP = jnp.log(logPsiSP)
+
+            OlocBatch = self.get_O_loc_unbatched(logPsiSbatch, logPsiSP)
         
             OlocBatch = self._get_Oloc_slice_pmapd(OlocBatch, 0, remainder)
 
-- 
2.43.0


From 56a97bb7418772f19aed4a909d7fb5f73a03bde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:17 +0000
Subject: [PATCH 05/44] fix: estimator functions of operators whose compile()
 returns a single function

op_fun_args was only defined if compile() returned a tuple, so
get_estimator_function() failed for e.g. POVMOperator.
---
 jVMC/operator/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jVMC/operator/base.py b/jVMC/operator/base.py
index b9c3a6b..95f7466 100644
--- a/jVMC/operator/base.py
+++ b/jVMC/operator/base.py
@@ -305,6 +305,7 @@ class Operator(metaclass=abc.ABCMeta):
         """
 
         op_fun = self.compile()
+        op_fun_args = args
         if type(op_fun) is tuple:
             op_fun_args = op_fun[1](*args)
             op_fun = op_fun[0]
-- 
2.43.0


From dd2cca849e6ca165bfbf22943a626b2de4f5bb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:42 +0000
Subject: [PATCH 06/44] fix: include the data of all devices in global_variance

The squared deviations were reduced on each device separately and only the
result of the first device entered the sum over MPI processes.
---
 jVMC/mpi_wrapper.py | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/jVMC/mpi_wrapper.py b/jVMC/mpi_wrapper.py
index 73afa5e..ddbb676 100644
--- a/jVMC/mpi_wrapper.py
+++ b/jVMC/mpi_wrapper.py
@@ -42,8 +42,7 @@ def jit_my_stuff():
 
     if global_defs.pmap_devices_updated(mpiPmapDevices):
         _sum_up_pmapd = global_defs.pmap_for_my_devices(lambda x: jax.lax.psum(jnp.sum(x, axis=0), 'i'), axis_name='i')
-        # _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jax.lax.psum(jnp.conj(data - mean).dot(p[..., None] * (data - mean)), 'i'), axis_name='i', in_axes=(0, None, 0))
-        _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jnp.einsum('ij, ij, i -> j', jnp.conj(data - mean[None, ...]), (data - mean[None, ...]), p), in_axes=(0, None, 0))
+        _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jnp.expand_dims(jnp.tensordot(p, jnp.conj(data - mean[None, ...]) * (data - mean[None, ...]), axes=(0, 0)), axis=0), in_axes=(0, None, 0))
         mean_helper = global_defs.pmap_for_my_devices(lambda data, p: jnp.expand_dims(jnp.dot(p, data), axis=0), in_axes=(0, 0))
         cov_helper = global_defs.pmap_for_my_devices(_cov_helper, in_axes=(0, 0))
 
@@ -199,22 +198,8 @@ def global_variance(data, p):
     data.block_until_ready()
 
     mean = global_mean(data, p)
-    # Compute sum locally
-    localSum = np.array(_sum_sq_pmapd(data, mean, p)[0])
-
-    # Allocate memory for result
-    res = np.empty_like(localSum, dtype=localSum.dtype)
-
-    t0 = time.perf_counter()
-
-    # Global sum
-    global globNumSamples
-    comm.Allreduce(localSum, res, op=MPI.SUM)
 
-    global communicationTime
-    communicationTime += time.perf_counter() - t0
-
-    return jax.device_put(res, global_defs.myDevice)
+    return global_sum(_sum_sq_pmapd(data, mean, p))
 
 
 def global_covariance(data, p):
-- 
2.43.0


From d16e3ba6bd39f9a410ff8fc4502d3e930738d358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:42 +0000
Subject: [PATCH 07/44] fix: contract the sample dimension in global_mean for
 data of any rank

jnp.dot contracts the second to last dimension, so data with two or more
dimensions per sample failed or gave wrong results.
---
 jVMC/mpi_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/mpi_wrapper.py b/jVMC/mpi_wrapper.py
index ddbb676..451353a 100644
--- a/jVMC/mpi_wrapper.py
+++ b/jVMC/mpi_wrapper.py
@@ -43,7 +43,7 @@ def jit_my_stuff():
     if global_defs.pmap_devices_updated(mpiPmapDevices):
         _sum_up_pmapd = global_defs.pmap_for_my_devices(lambda x: jax.lax.psum(jnp.sum(x, axis=0), 'i'), axis_name='i')
         _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jnp.expand_dims(jnp.tensordot(p, jnp.conj(data - mean[None, ...]) * (data - mean[None, ...]), axes=(0, 0)), axis=0), in_axes=(0, None, 0))
-        mean_helper = global_defs.pmap_for_my_devices(lambda data, p: jnp.expand_dims(jnp.dot(p, data), axis=0), in_axes=(0, 0))
+        mean_helper = global_defs.pmap_for_my_devices(lambda data, p: jnp.expand_dims(jnp.tensordot(p, data, axes=(0, 0)), axis=0), in_axes=(0, 0))
         cov_helper = global_defs.pmap_for_my_devices(_cov_helper, in_axes=(0, 0))
 
         mpiPmapDevices = global_defs.myPmapDevices
-- 
2.43.0


From ac4bd39ba6000b40871f7d0f78e20c0e78770f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:42 +0000
Subject: [PATCH 08/44] fix: compute the documented covariance in
 global_covariance

The product of the means was not subtracted and the complex conjugate was
taken of the wrong factor.
---
 jVMC/mpi_wrapper.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jVMC/mpi_wrapper.py b/jVMC/mpi_wrapper.py
index 451353a..efbf364 100644
--- a/jVMC/mpi_wrapper.py
+++ b/jVMC/mpi_wrapper.py
@@ -19,7 +19,7 @@ communicationTime = 0.
 
 def _cov_helper(data, p):
     return jnp.expand_dims(
-        jnp.matmul(jnp.conj(jnp.transpose(data)), jnp.multiply(p[:, None], data)),
+        jnp.matmul(jnp.transpose(data), jnp.multiply(p[:, None], jnp.conj(data))),
         axis=0
     )
 
@@ -225,7 +225,9 @@ def global_covariance(data, p):
 
     jit_my_stuff()
 
-    return global_sum(cov_helper(data, p))
+    mean = global_mean(data, p)
+
+    return global_sum(cov_helper(data, p)) - jnp.outer(mean, jnp.conj(mean))
 
 
 def bcast_unknown_size(data, root=0):
-- 
2.43.0


From c8b691966b3f283c814b0a67759e09b645368df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:12 +0000
Subject: [PATCH 09/44] fix: do not write operator ids into the dictionaries
 passed to POVMOperator.add

A dictionary that was added to a second operator got a new id, so terms of the
first operator could share an id and were dropped when it was compiled.
---
 jVMC/operator/povm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jVMC/operator/povm.py b/jVMC/operator/povm.py
index 53c5502..2584e55 100644
--- a/jVMC/operator/povm.py
+++ b/jVMC/operator/povm.py
@@ -355,8 +355,7 @@ class POVMOperator(Operator):
             * ``opDescr``: Operator dictionary to be added to the operator.
         """
         id = len(self.ops) + 1
-        opDescr["id"] = id
-        self.ops.append(opDescr)
+        self.ops.append({**opDescr, "id": id})
         self.compiled = False
 
     def _get_s_primes(self, s, *args):
-- 
2.43.0


From 0f1f2eb4222d26623abb6d14d186cd89b945eeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:12 +0000
Subject: [PATCH 10/44] fix: Monte Carlo errors in measure_povm

The error of the mean is the square root of variance over number of samples,
and the error of a correlator follows from the variance of that correlator.
---
 jVMC/operator/povm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jVMC/operator/povm.py b/jVMC/operator/povm.py
index 2584e55..c48faf9 100644
--- a/jVMC/operator/povm.py
+++ b/jVMC/operator/povm.py
@@ -37,14 +37,14 @@ def measure_povm(povm, sampler, sampleConfigs=None, probs=None, observables=None
         result[name] = {}
         result[name]["mean"] = jnp.array(mpi.global_mean(results[0][..., None], probs)[0])
         result[name]["variance"] = jnp.array(mpi.global_variance(results[0][..., None], probs)[0])
-        result[name]["MC_error"] = jnp.array(result[name]["variance"] / jnp.sqrt(sampler.get_last_number_of_samples()))
+        result[name]["MC_error"] = jnp.array(jnp.sqrt(result[name]["variance"]) / jnp.sqrt(sampler.get_last_number_of_samples()))
 
         for key, value in results[1].items():
             result_name = name + "_corr_L" + str(key)
             result[result_name] = {}
             result[result_name]["mean"] = jnp.array(mpi.global_mean(value[..., None], probs)[0] - result[name]["mean"]**2)
             result[result_name]["variance"] = jnp.array(mpi.global_variance(value[..., None], probs)[0])
-            result[result_name]["MC_error"] = jnp.array(result[name]["variance"] / jnp.sqrt(sampler.get_last_number_of_samples()))
+            result[result_name]["MC_error"] = jnp.array(jnp.sqrt(result[result_name]["variance"]) / jnp.sqrt(sampler.get_last_number_of_samples()))
 
     return result
 
-- 
2.43.0


From 74e51c4bcb4c2b021a5c1d932cfc79269c607598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:36 +0000
Subject: [PATCH 11/44] fix: evaluate POVM observables on 2D lattices with
 several devices

The device dimension was hard coded to one.
---
 jVMC/operator/povm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jVMC/operator/povm.py b/jVMC/operator/povm.py
index c48faf9..7be0328 100644
--- a/jVMC/operator/povm.py
+++ b/jVMC/operator/povm.py
@@ -323,12 +323,12 @@ class POVM():
                 correlators[corrLen] = self._spin_average_pmapd(corrPerSamplePerSpin)
             return self._spin_average_pmapd(resPerSamplePerSpin), correlators
         else:
-            resPerSamplePerSpin = self._evaluate_magnetization_pmapd(operator, states.reshape(1, -1, self.system_data["L"]**2)).reshape(1, -1, self.system_data["L"], self.system_data["L"])
+            resPerSamplePerSpin = self._evaluate_magnetization_pmapd(operator, states.reshape(states.shape[0], -1, self.system_data["L"]**2)).reshape(states.shape[0], -1, self.system_data["L"], self.system_data["L"])
             correlators = {}
             for corrLen in np.arange(self.system_data["L"]):
                 corrPerSamplePerSpin = self._evaluate_correlators_pmapd(resPerSamplePerSpin, corrLen)
-                correlators[corrLen] = self._spin_average_pmapd(corrPerSamplePerSpin.reshape(1, -1, self.system_data["L"]**2))
-            return self._spin_average_pmapd(resPerSamplePerSpin.reshape(1, -1, self.system_data["L"]**2)), correlators
+                correlators[corrLen] = self._spin_average_pmapd(corrPerSamplePerSpin.reshape(states.shape[0], -1, self.system_data["L"]**2))
+            return self._spin_average_pmapd(resPerSamplePerSpin.reshape(states.shape[0], -1, self.system_data["L"]**2)), correlators
 
 
 class POVMOperator(Operator):
-- 
2.43.0


From b3fff34a3a995d6bef2d1d358505ac597758dc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:26 +0000
Subject: [PATCH 12/44] fix: never treat networks with real parameters as
 holomorphic

---
 jVMC/vqs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/vqs.py b/jVMC/vqs.py
index 150c3f3..d9fea14 100644
--- a/jVMC/vqs.py
+++ b/jVMC/vqs.py
@@ -201,7 +201,7 @@ class NQS:
                 return jnp.concatenate([p.ravel() for p in tree_flatten(t)[0]])
             grads_r = make_flat( jax.grad(lambda a,b: jnp.real(self.net.apply(a,b)))(self.parameters, s[0,0,...])["params"] )
             grads_i = make_flat( jax.grad(lambda a,b: jnp.imag(self.net.apply(a,b)))(self.parameters, s[0,0,...])["params"] )
-            if isclose(jnp.linalg.norm(grads_r - 1.j * grads_i)/grads_r.shape[0], 0.0, abs_tol=1e-14):
+            if not self.realParams and isclose(jnp.linalg.norm(grads_r - 1.j * grads_i)/grads_r.shape[0], 0.0, abs_tol=1e-14):
                 self.holomorphic = True
                 self.flat_gradient_function = flat_gradient_holo
             else:
-- 
2.43.0


From 92a7ebedf96dbc12e6287618586633aca1ccca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:49 +0000
Subject: [PATCH 13/44] fix: periodic boundary conditions of CpxCNN

---
 jVMC/nets/cnn.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jVMC/nets/cnn.py b/jVMC/nets/cnn.py
index 6593831..078ecdc 100644
--- a/jVMC/nets/cnn.py
+++ b/jVMC/nets/cnn.py
@@ -133,16 +133,18 @@ class CpxCNN(nn.Module):
 
         # Add feature dimension
         x = jnp.expand_dims(jnp.expand_dims(2 * x - 1, axis=0), axis=-1)
+        # With periodic boundary conditions the input is padded explicitly
+        padding = [(0, 0)] * len(self.strides) if self.periodicBoundary else 'SAME'
+
         for c, f, b in zip(self.channels, activationFunctions, bias):
             if self.periodicBoundary:
                 x = jnp.pad(x, pads, 'wrap')
             # else:
             #    x = jnp.pad(x, pads, 'constant', constant_values=0)
             x = f(nn.Conv(features=c, kernel_size=tuple(self.F),
-                          strides=self.strides,
+                          strides=self.strides, padding=padding,
                           use_bias=b, **init_args)(x))
 
-        # strides=self.strides, padding=[(0, 0)] * len(self.strides),
         nrm = jnp.sqrt(jnp.prod(jnp.array(x.shape[reduceDims[-1]:])))
 
         return jnp.sum(x, axis=reduceDims) / nrm
-- 
2.43.0


From af9da2d587db38cebf4260fdfc40d33930a6e094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:07 +0000
Subject: [PATCH 14/44] fix: construct GRU cells of RNN2DGeneral with hidden
 size and parameter type

---
 jVMC/nets/rnn2d_general.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jVMC/nets/rnn2d_general.py b/jVMC/nets/rnn2d_general.py
index fc4a73f..feacedc 100644
--- a/jVMC/nets/rnn2d_general.py
+++ b/jVMC/nets/rnn2d_general.py
@@ -129,7 +129,7 @@ class RNN2DGeneral(nn.Module):
                 self.cells = [LSTMCell(features=self.hiddenSize) for _ in range(self.depth)]
                 self.zero_carry = jnp.zeros((self.L, self.depth, 2, self.hiddenSize), dtype=self.dtype)
             elif self.cell == "GRU":
-                self.cells = [GRUCell() for _ in range(self.depth)]
+                self.cells = [GRUCell(features=self.hiddenSize) for _ in range(self.depth)]
             else:
                 ValueError("Cell name not recognized.")
         else:
@@ -246,10 +246,10 @@ class GRUCell(nn.Module):
     def __call__(self, carryH, carryV, state):
         cellCarryH = nn.Dense(features=carryH.shape[-1],
                               use_bias=True,
-                              dtype=global_defs.tReal)
+                              param_dtype=global_defs.tReal)
         cellCarryV = nn.Dense(features=carryV.shape[-1],
                               use_bias=False,
-                              dtype=global_defs.tReal)
+                              param_dtype=global_defs.tReal)
         current_carry, newR = nn.GRUCell(features=self.features, param_dtype=global_defs.tReal)(cellCarryH(carryH) + cellCarryV(carryV), state)
 
         return current_carry, newR[0]
-- 
2.43.0


From d6df43a94a315b1f67ceb5c27a75a3e78729a4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:28 +0000
Subject: [PATCH 15/44] fix: propose valid and symmetric updates of POVM
 outcomes

---
 jVMC/sampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index 6376bd4..21acd43 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -23,7 +23,8 @@ def propose_POVM_outcome(key, s, info):
     key, subkey = random.split(key)
     idx = random.randint(subkey, (1,), 0, s.size)[0]
     idx = jnp.unravel_index(idx, s.shape)
-    update = (s[idx] + random.randint(key, (1,), 0, 3) % 4)
+    # a uniformly random outcome different from the present one
+    update = (s[idx] + random.randint(key, (1,), 1, 4)[0]) % 4
     return s.at[idx].set(update)
 
 
-- 
2.43.0


From c62dfc66089e1e9f00cf3f1b3f98f3caecd63cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:32 +0000
Subject: [PATCH 16/44] fix: zero-magnetization updates for lattices of any
 dimension

---
 jVMC/sampler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index 21acd43..78f1d6f 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -47,8 +47,8 @@ def propose_spin_flip_zeroMag(key, s, info):
 
     # can't use jnp.where because then it is not jit-compilable
     # find indices based on cumsum
-    bound_up = jax.random.randint(idxKeyUp, (1,), 1, s.shape[0] * s.shape[1] / 2 + 1)
-    bound_down = jax.random.randint(idxKeyDown, (1,), 1, s.shape[0] * s.shape[1] / 2 + 1)
+    bound_up = jax.random.randint(idxKeyUp, (1,), 1, s.size // 2 + 1)
+    bound_down = jax.random.randint(idxKeyDown, (1,), 1, s.size // 2 + 1)
 
     id_up = jnp.searchsorted(jnp.cumsum(s), bound_up)
     id_down = jnp.searchsorted(jnp.cumsum(1 - s), bound_down)
@@ -56,8 +56,8 @@ def propose_spin_flip_zeroMag(key, s, info):
     idx_up = jnp.unravel_index(id_up, s.shape)
     idx_down = jnp.unravel_index(id_down, s.shape)
 
-    s = s.at[idx_up[0], idx_up[1]].set(0)
-    s = s.at[idx_down[0], idx_down[1]].set(1)
+    s = s.at[idx_up].set(0)
+    s = s.at[idx_down].set(1)
 
     # On average, do a global spin flip every 30 updates to
     # reflect Z_2 symmetry
-- 
2.43.0


From 6cdd42436df61c09cdd3503af95263b61607952a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:49 +0000
Subject: [PATCH 17/44] fix: return as many samples as reported when sampling
 with multipleOf

---
 jVMC/sampler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index 78f1d6f..f896631 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -233,6 +233,8 @@ class MCSampler:
     def _get_samples_gen(self, params, numSamples, multipleOf=1):
 
         numSamples, self.globNumSamples = mpi.distribute_sampling(numSamples, localDevices=global_defs.device_count(), numChainsPerDevice=multipleOf)
+        # Number of samples per device
+        numSamples *= multipleOf
 
         tmpKeys = random.split(self.key[0], 3 * global_defs.device_count())
         self.key = tmpKeys[:global_defs.device_count()]
@@ -265,7 +267,10 @@ class MCSampler:
         # Initialize sampling stuff
         self._mc_init(params)
 
-        numSamples, self.globNumSamples = mpi.distribute_sampling(numSamples, localDevices=global_defs.device_count(), numChainsPerDevice=np.lcm(self.numChains, multipleOf))
+        samplesPerUnit = int(np.lcm(self.numChains, multipleOf))
+        numSamples, self.globNumSamples = mpi.distribute_sampling(numSamples, localDevices=global_defs.device_count(), numChainsPerDevice=samplesPerUnit)
+        # Number of samples per chain
+        numSamples *= samplesPerUnit // self.numChains
         numSamplesStr = str(numSamples)
 
         # check whether _get_samples is already compiled for given number of samples
-- 
2.43.0


From 1a8822f6723a471f8eaf64b92183496085ad2e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:49 +0000
Subject: [PATCH 18/44] fix: number of basis states per device in ExactSampler

---
 jVMC/sampler.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index f896631..031eadd 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -423,11 +423,10 @@ class ExactSampler:
 
         deviceCount = global_defs.device_count()
 
-        self.numStatesPerDevice = [(myNumStates + deviceCount - 1) // deviceCount] * deviceCount
-        self.numStatesPerDevice[-1] += myNumStates - deviceCount * self.numStatesPerDevice[0]
-        self.numStatesPerDevice = jnp.array(self.numStatesPerDevice)
+        maxStatesPerDevice = (myNumStates + deviceCount - 1) // deviceCount
+        self.numStatesPerDevice = jnp.clip(myNumStates - maxStatesPerDevice * jnp.arange(deviceCount), 0, maxStatesPerDevice)
 
-        totalNumStates = deviceCount * self.numStatesPerDevice[0]
+        totalNumStates = deviceCount * maxStatesPerDevice
 
         intReps = jnp.arange(myFirstState, myFirstState + totalNumStates)
         intReps = intReps.reshape((global_defs.device_count(), -1))
-- 
2.43.0


From 7a4203e2d2dfbaa401eaf645cdb413e307dc0c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:49 +0000
Subject: [PATCH 19/44] fix: independent random numbers on all MPI processes
 after set_random_key

---
 jVMC/sampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index 031eadd..763685d 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -167,6 +167,7 @@ class MCSampler:
             * ``key``: Key (jax.random.PRNGKey)
         """
 
+        key = jax.random.split(key, mpi.commSize)[mpi.rank]
         self.key = jax.random.split(key, global_defs.device_count())
 
     def get_last_number_of_samples(self):
-- 
2.43.0


From 8d3a763bf2bf817393047272318108f6ca3e464c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:04 +0000
Subject: [PATCH 20/44] fix: probabilities of ExactSampler for coefficients of
 any magnitude

---
 jVMC/sampler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index 763685d..e4aee63 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -514,13 +514,14 @@ class ExactSampler:
         if parameters is not None:
             self.psi.set_parameters(tmpP)
 
+        # Choose the largest coefficient as reference to avoid over- or underflow
+        self.lastNorm = mpi.comm.allreduce(jnp.max(jnp.real(logPsi)).item(), op=mpi.MPI.MAX)
+
         p = self._compute_probabilities_pmapd(logPsi, self.lastNorm, self.numStatesPerDevice)
 
         nrm = mpi.global_sum(p)
         p = self._normalize_pmapd(p, nrm)
 
-        self.lastNorm += self.logProbFactor * jnp.log(nrm)
-
         return self.basis, logPsi, p
 
     def set_number_of_samples(self, N):
-- 
2.43.0


From 8080d86bae72f4d691353367eb25848271e6d93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:38 +0000
Subject: [PATCH 21/44] fix: gradient of estimator means with several devices

---
 jVMC/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/stats.py b/jVMC/stats.py
index 5c246ca..128d604 100644
--- a/jVMC/stats.py
+++ b/jVMC/stats.py
@@ -224,7 +224,7 @@ class SampledObs():
         self._compute_data_and_mean(obs)
 
         obsGrad = self._estimator_grad(params, self._configs)
-        obsGradMean = mpi.global_sum( _mean_helper(obsGrad,self._weights)[None,...] )
+        obsGradMean = mpi.global_sum( _mean_helper(obsGrad,self._weights)[:, None,...] )
 
         psiGrad = SampledObs( 2.0*jnp.real( psi.gradients(self._configs) ), self._weights )
 
-- 
2.43.0


From 65a5a64158263b45a6614c1c50a61c930fc37810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:38 +0000
Subject: [PATCH 22/44] fix: ignore samples of vanishing weight in SampledObs

---
 jVMC/stats.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/jVMC/stats.py b/jVMC/stats.py
index 128d604..e2ca205 100644
--- a/jVMC/stats.py
+++ b/jVMC/stats.py
@@ -25,6 +25,11 @@ _subset_data_prep = None
 
 statsPmapDevices = None
 
+def _inverse_weight(w):
+    # Samples with vanishing weight do not contribute to any expectation value.
+    return jnp.where(w > 0, 1. / jnp.where(w > 0, w, 1.), 0.)
+
+
 def jit_my_stuff():
     # This is a helper function to make sure that pmap'd functions work with the actual choice of devices
     # at all times.
@@ -61,14 +66,14 @@ def jit_my_stuff():
                                         jnp.sum(
                                             jnp.abs( 
                                                 jax.vmap(lambda a,b: jnp.outer(a,b))(jnp.conj(data1), data2),
-                                            )**2 / w[...,None,None],
+                                            )**2 * _inverse_weight(w)[...,None,None],
                                             axis=0),
                                     in_axes=(0, 0, 0)
                                     )
-        _covar_data_helper = jVMC.global_defs.pmap_for_my_devices(lambda data1, data2, w: jax.vmap(lambda a,b,w: jnp.outer(a,b) / w)(jnp.conj(data1), data2, w), in_axes=(0, 0, 0))
+        _covar_data_helper = jVMC.global_defs.pmap_for_my_devices(lambda data1, data2, w: jax.vmap(lambda a,b,w: jnp.outer(a,b) * _inverse_weight(w))(jnp.conj(data1), data2, w), in_axes=(0, 0, 0))
         _trafo_helper_1 = jVMC.global_defs.pmap_for_my_devices(
                                 lambda data, w, mean, f: f(
-                                    jax.vmap(lambda x,y: x/jnp.sqrt(y), in_axes=(0,0))(data, w) 
+                                    jax.vmap(lambda x,y: x*jnp.sqrt(_inverse_weight(y)), in_axes=(0,0))(data, w) 
                                     + mean
                                     ), 
                                 in_axes=(0, 0, None), static_broadcasted_argnums=(3,))
@@ -76,7 +81,7 @@ def jit_my_stuff():
                                 lambda data, w, mean, v, f: 
                                     jnp.matmul(v, 
                                                 f(
-                                                jax.vmap(lambda x,y: x/jnp.sqrt(y), in_axes=(0,0))(data, w) 
+                                                jax.vmap(lambda x,y: x*jnp.sqrt(_inverse_weight(y)), in_axes=(0,0))(data, w) 
                                                 + mean
                                                 )
                                     ), 
-- 
2.43.0


From 98cf3f00920fde462d1701c0a55d2d6257bd3ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:38 +0000
Subject: [PATCH 23/44] fix: apply linear transformations to each sample of
 vector-valued observations

---
 jVMC/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/stats.py b/jVMC/stats.py
index e2ca205..b37b562 100644
--- a/jVMC/stats.py
+++ b/jVMC/stats.py
@@ -79,7 +79,7 @@ def jit_my_stuff():
                                 in_axes=(0, 0, None), static_broadcasted_argnums=(3,))
         _trafo_helper_2 = jVMC.global_defs.pmap_for_my_devices(
                                 lambda data, w, mean, v, f: 
-                                    jnp.matmul(v, 
+                                    jax.vmap(lambda x: jnp.matmul(v, x))(
                                                 f(
                                                 jax.vmap(lambda x,y: x*jnp.sqrt(_inverse_weight(y)), in_axes=(0,0))(data, w) 
                                                 + mean
-- 
2.43.0


From 6a2115f20f0a58f17d0b623ab1c3711705f53d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:01 +0000
Subject: [PATCH 24/44] fix: set up the SR equation with get_sr_equation

---
 jVMC/util/tdvp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jVMC/util/tdvp.py b/jVMC/util/tdvp.py
index 92824ef..f8c9a02 100644
--- a/jVMC/util/tdvp.py
+++ b/jVMC/util/tdvp.py
@@ -131,12 +131,15 @@ class TDVP:
 
         return self.S
 
-    def get_tdvp_equation(self, Eloc, gradients):
+    def get_tdvp_equation(self, Eloc, gradients, rhsPrefactor=None):
+
+        if rhsPrefactor is None:
+            rhsPrefactor = self.rhsPrefactor
 
         self.ElocMean = Eloc.mean()[0]
         self.ElocVar = Eloc.var()[0]
 
-        self.F0 = (-self.rhsPrefactor) * gradients.covar(Eloc).ravel()
+        self.F0 = (-rhsPrefactor) * gradients.covar(Eloc).ravel()
         F = self.makeReal(self.F0)
 
         self.S0 = gradients.covar()
-- 
2.43.0


From a921eabc12d34dd9833651599a7b11bf4debc254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:56 +0000
Subject: [PATCH 25/44] fix: TDVP updates without fluctuations of the state or
 the energy

---
 jVMC/util/tdvp.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/jVMC/util/tdvp.py b/jVMC/util/tdvp.py
index f8c9a02..010d165 100644
--- a/jVMC/util/tdvp.py
+++ b/jVMC/util/tdvp.py
@@ -181,7 +181,9 @@ class TDVP:
                     )
         self.rhoVar = EO.var().ravel()
 
-        self.snr = jnp.sqrt(jnp.abs(mpi.globNumSamples * (jnp.conj(self.VtF) * self.VtF) / self.rhoVar)).ravel()
+        snr = jnp.sqrt(jnp.abs(mpi.globNumSamples * (jnp.conj(self.VtF) * self.VtF) / self.rhoVar)).ravel()
+        # Components without fluctuations are free of noise
+        self.snr = jnp.where(self.rhoVar > 0, snr, jnp.inf)
 
     def solve(self, Eloc, gradients):
         # Get TDVP equation from MC data
@@ -192,8 +194,11 @@ class TDVP:
         self._transform_to_eigenbasis(self.S, F) #, Fdata)
         self._get_snr(Eloc, gradients)
 
+        # Magnitude of the eigenvalues relative to the largest one
+        relEv = jnp.where(self.ev[-1] == 0, 0., jnp.abs(self.ev / self.ev[-1]))
+
         # Discard eigenvalues below numerical precision
-        self.invEv = jnp.where(jnp.abs(self.ev / self.ev[-1]) > 1e-14, 1. / self.ev, 0.)
+        self.invEv = jnp.where(relEv > 1e-14, 1. / self.ev, 0.)
 
         residual = 1.0
         cutoff = 1e-2
@@ -201,7 +206,7 @@ class TDVP:
         while residual > self.pinvTol and cutoff > self.pinvCutoff:
             cutoff *= 0.8
             # Set regularizer for singular value cutoff
-            regularizer = 1. / (1. + (max(cutoff, self.pinvCutoff) / jnp.abs(self.ev / self.ev[-1]))**6)
+            regularizer = 1. / (1. + (max(cutoff, self.pinvCutoff) / relEv)**6)
 
             if not isinstance(self.sampler, jVMC.sampler.ExactSampler):
                 # Construct a soft cutoff based on the SNR
-- 
2.43.0


From 6103b382fca990705119758679862426edbdaa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:20 +0000
Subject: [PATCH 26/44] fix: MinSR updates of non-holomorphic ansatzes keep the
 parameters real

---
 jVMC/util/minsr.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/jVMC/util/minsr.py b/jVMC/util/minsr.py
index 6a83d08..1cbf46c 100644
--- a/jVMC/util/minsr.py
+++ b/jVMC/util/minsr.py
@@ -57,17 +57,24 @@ class MinSR:
 
         return jnp.real(self.ElocMean0)
 
-    def solve(self, eloc, gradients):
+    def solve(self, eloc, gradients, holomorphic=True):
         """
         Uses the techique proposed in arXiv:2302.01941 to compute the updates.
         Efficient only if number of samples :math:`\\ll` number of parameters.
         """
 
-        T = gradients.tangent_kernel()
-        T_inv = jnp.linalg.pinv(T, rtol=self.pinvTol, hermitian=True)
-
         eloc_all = mpi.gather(eloc._data).reshape((-1,))
         gradients_all = mpi.gather(gradients._data)
+
+        if holomorphic:
+            T = gradients.tangent_kernel()
+        else:
+            # Real parameters: Treat real and imaginary part of the equation separately
+            eloc_all = jnp.concatenate([jnp.real(eloc_all), jnp.imag(eloc_all)])
+            gradients_all = jnp.concatenate([jnp.real(gradients_all), jnp.imag(gradients_all)])
+            T = gradients_all @ gradients_all.T
+
+        T_inv = jnp.linalg.pinv(T, rtol=self.pinvTol, hermitian=True)
         update = - gradients_all.conj().T @ T_inv @ eloc_all
 
         return update
@@ -139,7 +146,7 @@ class MinSR:
         sampleGradients = SampledObs( sampleGradients, p)
 
         start_timing(outp, "solve MinSR eqn.")
-        update = self.solve(Eloc, sampleGradients)
+        update = self.solve(Eloc, sampleGradients, holomorphic=psi.holomorphic)
         stop_timing(outp, "solve MinSR eqn.")
 
         if outp is not None:
-- 
2.43.0


From e543bc6162d987412e229e672f0fc50c987c9b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:04 +0000
Subject: [PATCH 27/44] fix: return to the root group with
 OutputManager.set_group

---
 jVMC/util/output_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jVMC/util/output_manager.py b/jVMC/util/output_manager.py
index b3b7c67..9c37d21 100644
--- a/jVMC/util/output_manager.py
+++ b/jVMC/util/output_manager.py
@@ -23,6 +23,7 @@ class OutputManager:
 
     def set_group(self, group):
 
+        self.currentGroup = "/"
         if group != "/":
             self.currentGroup = "/" + group
 
-- 
2.43.0


From 4117b49521da4c28fbb56150bdc4a03b8acbf78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:04 +0000
Subject: [PATCH 28/44] fix: write plain numbers such as the cutoff in the TDVP
 metadata with write_metadata

---
 jVMC/util/output_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jVMC/util/output_manager.py b/jVMC/util/output_manager.py
index 9c37d21..931ae29 100644
--- a/jVMC/util/output_manager.py
+++ b/jVMC/util/output_manager.py
@@ -88,6 +88,8 @@ class OutputManager:
 
                 for key, value in kwargs.items():
 
+                    value = np.asarray(value)
+
                     if not key in f[self.currentGroup + "/" + groupname]:
 
                         f.create_dataset(self.currentGroup + "/" + groupname + "/" + key, (0,) + value.shape, maxshape=(None,) + value.shape, dtype='f8', chunks=True)
-- 
2.43.0


From 92191ef1214fda472f7e809bd54be7c4980369cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:53 +0000
Subject: [PATCH 29/44] fix: construct two-network ansatzes in init_net

---
 jVMC/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/util/util.py b/jVMC/util/util.py
index 16c9eed..e62f67e 100644
--- a/jVMC/util/util.py
+++ b/jVMC/util/util.py
@@ -76,7 +76,7 @@ def init_net(descr, dims, seed=0):
 
         model1 = get_net(descr["net1"], dims)
         model2 = get_net(descr["net2"], dims)
-        model = jVMC.nets.two_nets_wrapper.TwoNets(net1=model1, net2=model2)
+        model = jVMC.nets.two_nets_wrapper.TwoNets((model1, model2))
         isGenerator = "sample" in dir(model1)
 
     avgFun = jVMC.nets.sym_wrapper.avgFun_Coefficients_Sep if isGenerator else jVMC.nets.sym_wrapper.avgFun_Coefficients_Exp
-- 
2.43.0


From fd5532a4cbe354108e46fa6250dcc971ffe46469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:53 +0000
Subject: [PATCH 30/44] fix: leave the network description passed to init_net
 unchanged

---
 jVMC/util/util.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/jVMC/util/util.py b/jVMC/util/util.py
index e62f67e..f86f4f1 100644
--- a/jVMC/util/util.py
+++ b/jVMC/util/util.py
@@ -44,10 +44,11 @@ def init_net(descr, dims, seed=0):
 
     def get_net(descr, dims):
 
-        return netTypes[descr["type"]](**descr["parameters"])
+        parameters = dict(descr["parameters"])
+        if "actFun" in parameters:
+            parameters["actFun"] = get_activation_functions(parameters["actFun"])
 
-    if "actFun" in descr["net1"]["parameters"]:
-        descr["net1"]["parameters"]["actFun"] = get_activation_functions(descr["net1"]["parameters"]["actFun"])
+        return netTypes[descr["type"]](**parameters)
 
     symms = tuple()
     for key in ["translation", "rotation", "reflection", "spinflip"]:
@@ -70,10 +71,6 @@ def init_net(descr, dims, seed=0):
 
     else:
 
-        if "actFun" in descr["net2"]["parameters"]:
-
-            descr["net2"]["parameters"]["actFun"] = get_activation_functions(descr["net2"]["parameters"]["actFun"])
-
         model1 = get_net(descr["net1"], dims)
         model2 = get_net(descr["net2"], dims)
         model = jVMC.nets.two_nets_wrapper.TwoNets((model1, model2))
-- 
2.43.0


From ed0172606d599f12befd0d2b48def616ed5edee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:53 +0000
Subject: [PATCH 31/44] fix: multiply operator strings with numpy scalars from
 the left

---
 jVMC/operator/branch_free.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jVMC/operator/branch_free.py b/jVMC/operator/branch_free.py
index 9b271f7..613d3fd 100644
--- a/jVMC/operator/branch_free.py
+++ b/jVMC/operator/branch_free.py
@@ -204,6 +204,9 @@ class OpStr(tuple):
     """This class provides the interface for operator strings
     """
 
+    # multiplication with numpy scalars from the left is handled by __rmul__
+    __array_ufunc__ = None
+
     def __init__(self, *args):
 
         super(OpStr, self).__init__()
-- 
2.43.0


From fd5a4e755fbb8a22aafc46fe2e6c0bc4962154ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:53 +0000
Subject: [PATCH 32/44] fix: take the logarithm of plain amplitudes in
 estimator functions

---
 jVMC/operator/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jVMC/operator/base.py b/jVMC/operator/base.py
index 95f7466..7d406a2 100644
--- a/jVMC/operator/base.py
+++ b/jVMC/operator/base.py
@@ -317,6 +317,9 @@ class Operator(metaclass=abc.ABCMeta):
 
             log_psi_s = net_fun(params, config)
             log_psi_sp = jax.vmap(lambda s: net_fun(params,s))(sp)
+            if not psi.logarithmic:
+                log_psi_s = jnp.log(log_psi_s.astype(global_defs.tCpx))
+                log_psi_sp = jnp.log(log_psi_sp.astype(global_defs.tCpx))
 
             #return jnp.dot(matEls, jnp.exp(log_psi_sp - log_psi_s))
             return jnp.sum(matEls * jnp.exp(log_psi_sp - log_psi_s))
-- 
2.43.0


From f18d13ea44f6de545fe0c34b5fe8963bfb94fd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:53 +0000
Subject: [PATCH 33/44] fix: local estimators of states with negative real
 amplitudes

---
 jVMC/operator/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jVMC/operator/base.py b/jVMC/operator/base.py
index 7d406a2..cf55b4c 100644
--- a/jVMC/operator/base.py
+++ b/jVMC/operator/base.py
@@ -182,7 +182,7 @@ class Operator(metaclass=abc.ABCMeta):
         if logPsiS is None:
             logPsiS = psi(samples)
             if not psi.logarithmic:
-                logPsiS = jnp.log(logPsiS)
+                logPsiS = jnp.log(logPsiS.astype(global_defs.tCpx))
 
         if self.ElocBatchSize > 0:
             return self.get_O_loc_batched(samples, psi, logPsiS, self.ElocBatchSize, *args)
@@ -190,7 +190,7 @@ class Operator(metaclass=abc.ABCMeta):
             sampleOffdConfigs, _ = self.get_s_primes(samples, *args)
             logPsiSP = psi(sampleOffdConfigs)
             if not psi.logarithmic:
-                logPsiSP = jnp.log(logPsiSP)
+                logPsiSP = jnp.log(logPsiSP.astype(global_defs.tCpx))
             return self.get_O_loc_unbatched(logPsiS, logPsiSP)
 
     def get_O_loc_unbatched(self, logPsiS, logPsiSP):
@@ -250,7 +250,7 @@ class Operator(metaclass=abc.ABCMeta):
             sp, _ = self.get_s_primes(batch, *args)
             logPsiSP = psi(sp)
             if not psi.logarithmic:
-                logPsiSP = jnp.log(logPsiSP)
+                logPsiSP = jnp.log(logPsiSP.astype(global_defs.tCpx))
 
             OlocBatch = self.get_O_loc_unbatched(logPsiSbatch, logPsiSP)
 
@@ -273,7 +273,7 @@ class Operator(metaclass=abc.ABCMeta):
 
             logPsiSP = psi(sp)
             if not psi.logarithmic:
-                logPsiSP = jnp.log(logPsiSP)
+                logPsiSP = jnp.log(logPsiSP.astype(global_defs.tCpx))
 
             OlocBatch = self.get_O_loc_unbatched(logPsiSbatch, logPsiSP)
         
-- 
2.43.0


From 79f3955927808c8a3dd380370b387fca57c52618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:07 +0000
Subject: [PATCH 34/44] fix: sample states that are given by plain amplitudes

---
 jVMC/sampler.py | 4 ++++
 jVMC/vqs.py     | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index e4aee63..1e7a06c 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -288,6 +288,8 @@ class MCSampler:
         tmpP = self.net.params
         self.net.params = params["params"]
         coeffs = self.net(configs)
+        if not self.net.logarithmic:
+            coeffs = jnp.log(coeffs.astype(global_defs.tCpx))
         self.net.params = tmpP
 
         # return configs, None
@@ -511,6 +513,8 @@ class ExactSampler:
             tmpP = self.psi.get_parameters()
             self.psi.set_parameters(parameters)
         logPsi = self.psi(self.basis)
+        if not self.psi.logarithmic:
+            logPsi = jnp.log(logPsi.astype(global_defs.tCpx))
         if parameters is not None:
             self.psi.set_parameters(tmpP)
 
diff --git a/jVMC/vqs.py b/jVMC/vqs.py
index d9fea14..2c849df 100644
--- a/jVMC/vqs.py
+++ b/jVMC/vqs.py
@@ -349,6 +349,9 @@ class NQS:
             if callable(self.net.eval_real):
                 evalReal = lambda p,x: jnp.real( self.net.apply(p,x,method=self.net.eval_real) )
 
+        if not self.logarithmic:
+            evalReal = lambda p,x: jnp.log( jnp.abs( self.net.apply(p,x) ) )
+
         return evalReal, self.parameters
 
     # **  end def get_sampler_net
-- 
2.43.0


From bdae249900e17ccfd1a7a94a833e8ec637f0d0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:07 +0000
Subject: [PATCH 35/44] fix: gradients of the logarithm for states that are
 given by plain amplitudes

---
 jVMC/vqs.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/jVMC/vqs.py b/jVMC/vqs.py
index 2c849df..b93d421 100644
--- a/jVMC/vqs.py
+++ b/jVMC/vqs.py
@@ -284,7 +284,12 @@ class NQS:
         
         self.init_net(s)
 
-        return self._get_gradients_pmapd(self.net, self.parameters, s, self.batchSize, self.flat_gradient_function)
+        gradOut = self._get_gradients_pmapd(self.net, self.parameters, s, self.batchSize, self.flat_gradient_function)
+
+        if not self.logarithmic:
+            return gradOut / self(s)[..., None]
+
+        return gradOut
 
     # **  end def gradients
 
@@ -308,6 +313,10 @@ class NQS:
         # Here we need to add the treatment for the complex non-holomorphic case
         gradOut = self._get_gradients_dict_pmapd(self.net, self.parameters, s, self.batchSize, self.dict_gradient_function)
 
+        if not self.logarithmic:
+            psiS = self(s)
+            gradOut = tree_map(lambda x: x / psiS[..., None], gradOut)
+
         if self.holomorphic:
             return self._append_gradients_dict(gradOut, gradOut)
 
-- 
2.43.0


From adf2d11d74b4e6640a4b123e70d860662dd28f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:47 +0000
Subject: [PATCH 36/44] fix: accept parameter trees given as plain dictionaries
 in set_parameters

---
 jVMC/vqs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/vqs.py b/jVMC/vqs.py
index b93d421..eef9d87 100644
--- a/jVMC/vqs.py
+++ b/jVMC/vqs.py
@@ -431,7 +431,7 @@ class NQS:
             raise RuntimeError("Error in NQS.set_parameters(): Network not initialized. Evaluate net on example input for initialization.")
 
         # Update model parameters
-        if isinstance(P, flax.core.frozen_dict.FrozenDict):
+        if isinstance(P, (dict, flax.core.frozen_dict.FrozenDict)):
             self.params = P
         else:
             self.params = self._param_unflatten(P)
-- 
2.43.0


From 714b08ec8ee82deceeb1df3f2ccb76a8b5de80fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:45 +0000
Subject: [PATCH 37/44] fix: decide whether a network is holomorphic at more
 than one point

---
 jVMC/vqs.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/jVMC/vqs.py b/jVMC/vqs.py
index eef9d87..fdb99ee 100644
--- a/jVMC/vqs.py
+++ b/jVMC/vqs.py
@@ -199,9 +199,20 @@ class NQS:
             # check Cauchy-Riemann condition to test for holomorphicity
             def make_flat(t):
                 return jnp.concatenate([p.ravel() for p in tree_flatten(t)[0]])
-            grads_r = make_flat( jax.grad(lambda a,b: jnp.real(self.net.apply(a,b)))(self.parameters, s[0,0,...])["params"] )
-            grads_i = make_flat( jax.grad(lambda a,b: jnp.imag(self.net.apply(a,b)))(self.parameters, s[0,0,...])["params"] )
-            if not self.realParams and isclose(jnp.linalg.norm(grads_r - 1.j * grads_i)/grads_r.shape[0], 0.0, abs_tol=1e-14):
+            def fulfils_cauchy_riemann(params, conf):
+                grads_r = make_flat( jax.grad(lambda a,b: jnp.real(self.net.apply(a,b)))(params, conf)["params"] )
+                grads_i = make_flat( jax.grad(lambda a,b: jnp.imag(self.net.apply(a,b)))(params, conf)["params"] )
+                scale = grads_r.shape[0] * max(1., jnp.linalg.norm(grads_r))
+                return isclose(jnp.linalg.norm(grads_r - 1.j * grads_i)/scale, 0.0, abs_tol=1e-14)
+            # The condition can be fulfilled by coincidence at individual points (e.g. where the gradients vanish).
+            # Therefore, further parameters and configurations are included in the test.
+            conf = s[0,0,...]
+            flatParams, unravel = ravel_pytree(self.parameters)
+            shift = random.normal(jax.random.PRNGKey(self.seed), (2,) + flatParams.shape)
+            shiftedParams = unravel(flatParams + 0.1 * (shift[0] + (0. if self.realParams else 1.j) * shift[1]))
+            testPoints = [(self.parameters, conf), (shiftedParams, conf), (shiftedParams, jnp.ones_like(conf)),
+                          (shiftedParams, (jnp.arange(conf.size) % 2).reshape(conf.shape).astype(conf.dtype))]
+            if not self.realParams and all(fulfils_cauchy_riemann(*x) for x in testPoints):
                 self.holomorphic = True
                 self.flat_gradient_function = flat_gradient_holo
             else:
-- 
2.43.0


From 34b501bf8593018e9363b26e8186f3e08dd348df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:16 +0000
Subject: [PATCH 38/44] fix: weights of importance sampling for coefficients of
 any magnitude

---
 jVMC/sampler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index 1e7a06c..2cd3192 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -221,7 +221,9 @@ class MCSampler:
             return configs, coeffs, ps
 
         configs, logPsi = self._get_samples_mcmc(parameters, numSamples, multipleOf)
-        p = jnp.exp((1.0 / self.logProbFactor - self.mu) * jnp.real(logPsi))
+        # Refer to the largest weight to avoid over- or underflow
+        logP = (1.0 / self.logProbFactor - self.mu) * jnp.real(logPsi)
+        p = jnp.exp(logP - mpi.comm.allreduce(jnp.max(logP).item(), op=mpi.MPI.MAX))
         return configs, logPsi, p / mpi.global_sum(p)
 
     def _randomize_samples(self, samples, key, orbit):
-- 
2.43.0


From 638af9adcfc3ad47ea29d4660cedf3f15aeae18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:16 +0000
Subject: [PATCH 39/44] fix: averaged probabilities of any magnitude in
 avgFun_Coefficients_Sep

---
 jVMC/nets/sym_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/nets/sym_wrapper.py b/jVMC/nets/sym_wrapper.py
index a7ac2b6..8c47e2f 100644
--- a/jVMC/nets/sym_wrapper.py
+++ b/jVMC/nets/sym_wrapper.py
@@ -16,7 +16,7 @@ def avgFun_Coefficients_Log(coeffs, sym_factor):
 def avgFun_Coefficients_Sep(coeffs, sym_factor):
     re = jnp.real(coeffs)
     im = jnp.imag(coeffs)
-    return 0.5 * jnp.log(jnp.mean(jnp.exp(2 * re))) + 1j * jnp.angle(jnp.mean(jnp.exp(1j * im)))
+    return 0.5 * jax.scipy.special.logsumexp(2 * re, b=1. / re.size) + 1j * jnp.angle(jnp.mean(jnp.exp(1j * im)))
 
 
 class SymNet(nn.Module):
-- 
2.43.0


From ef0f0252da97f7e967dad83342c69a40ccc7d043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:16 +0000
Subject: [PATCH 40/44] fix: large arguments in RBM with real parameters

---
 jVMC/nets/rbm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/nets/rbm.py b/jVMC/nets/rbm.py
index 229c291..ab04b98 100644
--- a/jVMC/nets/rbm.py
+++ b/jVMC/nets/rbm.py
@@ -85,6 +85,6 @@ class RBM(nn.Module):
                                         dtype=global_defs.tReal)
                         )
 
-        return jnp.sum(jnp.log(jnp.cosh(layer(2 * s - 1))))
+        return jnp.sum(act_funs.log_cosh(layer(2 * s - 1)))
 
 # ** end class RBM
-- 
2.43.0


From dbbc916db5be536bd4073a6b450edd6fcec5965c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:16 +0000
Subject: [PATCH 41/44] fix: couple the hidden units of RBM to all sites of
 multi-dimensional lattices

---
 jVMC/nets/rbm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/nets/rbm.py b/jVMC/nets/rbm.py
index ab04b98..14c59b7 100644
--- a/jVMC/nets/rbm.py
+++ b/jVMC/nets/rbm.py
@@ -85,6 +85,6 @@ class RBM(nn.Module):
                                         dtype=global_defs.tReal)
                         )
 
-        return jnp.sum(act_funs.log_cosh(layer(2 * s - 1)))
+        return jnp.sum(act_funs.log_cosh(layer(2 * s.ravel() - 1)))
 
 # ** end class RBM
-- 
2.43.0


From 3b2d881b45e2edad98d05c7ad6eec566d893fd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:18 +0000
Subject: [PATCH 42/44] fix: weights on processes that hold no samples

---
 jVMC/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index 2cd3192..7543273 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -223,7 +223,7 @@ class MCSampler:
         configs, logPsi = self._get_samples_mcmc(parameters, numSamples, multipleOf)
         # Refer to the largest weight to avoid over- or underflow
         logP = (1.0 / self.logProbFactor - self.mu) * jnp.real(logPsi)
-        p = jnp.exp(logP - mpi.comm.allreduce(jnp.max(logP).item(), op=mpi.MPI.MAX))
+        p = jnp.exp(logP - mpi.comm.allreduce(jnp.max(logP, initial=-jnp.inf).item(), op=mpi.MPI.MAX))
         return configs, logPsi, p / mpi.global_sum(p)
 
     def _randomize_samples(self, samples, key, orbit):
-- 
2.43.0


From 3e1244818ded560d161797273a1a860387502ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:31 +0000
Subject: [PATCH 43/44] fix: ExactSampler on more processes than basis states

---
 jVMC/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index 7543273..fc50173 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -428,7 +428,7 @@ class ExactSampler:
 
         deviceCount = global_defs.device_count()
 
-        maxStatesPerDevice = (myNumStates + deviceCount - 1) // deviceCount
+        maxStatesPerDevice = max(1, (myNumStates + deviceCount - 1) // deviceCount)
         self.numStatesPerDevice = jnp.clip(myNumStates - maxStatesPerDevice * jnp.arange(deviceCount), 0, maxStatesPerDevice)
 
         totalNumStates = deviceCount * maxStatesPerDevice
-- 
2.43.0


From b4019175492b8995e72ae1ab61b9d82f44f351db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:59 +0000
Subject: [PATCH 44/44] fix: accept custom cells of recurrent networks

---
 jVMC/nets/rnn1d_general.py | 9 ++++++++-
 jVMC/nets/rnn2d_general.py | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/jVMC/nets/rnn1d_general.py b/jVMC/nets/rnn1d_general.py
index 47639c8..bdb829a 100644
--- a/jVMC/nets/rnn1d_general.py
+++ b/jVMC/nets/rnn1d_general.py
@@ -102,6 +102,13 @@ class RNN1DGeneral(nn.Module):
     realValuedParams: bool = True
     cell: Union[str, list] = "RNN"
 
+    def __post_init__(self):
+        if not isinstance(self.cell, str):
+            # modules have to be hashable
+            to_tuple = lambda x: tuple(map(to_tuple, x)) if isinstance(x, (list, tuple)) else x
+            self.cell = (tuple(self.cell[0]), to_tuple(np.asarray(self.cell[1]).tolist()))
+        super().__post_init__()
+
     def setup(self):
         if isinstance(self.cell, str) and self.cell != "RNN":
             ValueError("Complex parameters for LSTM/GRU not yet implemented.")
@@ -126,7 +133,7 @@ class RNN1DGeneral(nn.Module):
                 ValueError("Cell name not recognized.")
         else:
             self.cells = self.cell[0]
-            self.zero_carry = self.cell[1]
+            self.zero_carry = jnp.array(self.cell[1], dtype=self.dtype)
 
         self.rnnCell = RNNCellStack(self.cells, actFun=self.actFun, dtype=self.dtype)
         init_args = init_fn_args(dtype=self.dtype, bias_init=jax.nn.initializers.zeros, kernel_init=self.initFunction)
diff --git a/jVMC/nets/rnn2d_general.py b/jVMC/nets/rnn2d_general.py
index feacedc..6aaf861 100644
--- a/jVMC/nets/rnn2d_general.py
+++ b/jVMC/nets/rnn2d_general.py
@@ -110,6 +110,13 @@ class RNN2DGeneral(nn.Module):
     realValuedParams: bool = True
     cell: Union[str, list] = "RNN"
 
+    def __post_init__(self):
+        if not isinstance(self.cell, str):
+            # modules have to be hashable
+            to_tuple = lambda x: tuple(map(to_tuple, x)) if isinstance(x, (list, tuple)) else x
+            self.cell = (tuple(self.cell[0]), to_tuple(np.asarray(self.cell[1]).tolist()))
+        super().__post_init__()
+
     def setup(self):
         if self.realValuedParams:
             self.dtype = global_defs.tReal
@@ -134,7 +141,7 @@ class RNN2DGeneral(nn.Module):
                 ValueError("Cell name not recognized.")
         else:
             self.cells = self.cell[0]
-            self.zero_carry = self.cell[1]
+            self.zero_carry = jnp.array(self.cell[1], dtype=self.dtype)
 
         self.rnnCell = RNNCellStack(self.cells, dtype=self.dtype, initFun=self.initFunction, actFun=self.actFun)
         self.outputDense = nn.Dense(features=(self.inputDim-1) * (2 - self.realValuedOutput),
-- 
2.43.0

