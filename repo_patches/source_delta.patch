From 9cfefd20ba0379491e6aa969e0f9fe2ea3eead52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:15 +0000
Subject: [PATCH 01/39] fix: scale and divide live points in double precision

---
 cpnest/parameter.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpnest/parameter.pyx b/cpnest/parameter.pyx
index 1bfa767..cd42197 100644
--- a/cpnest/parameter.pyx
+++ b/cpnest/parameter.pyx
@@ -93,27 +93,27 @@ cdef class LivePoint:
             self.values[i]-=other.values[i]
         return self
 
-    def __mul__(LivePoint self, float other):
+    def __mul__(LivePoint self, double other):
         cdef LivePoint result=LivePoint(self.names)
         cdef Py_ssize_t i
         for i in range(self.dimension):
             result.values[i]=other*self.values[i]
         return result
 
-    def __imul__(LivePoint self, float other):
+    def __imul__(LivePoint self, double other):
         cdef Py_ssize_t i
         for i in range(self.dimension):
             self.values[i]*=other
         return self
 
-    def __truediv__(LivePoint self, float other):
+    def __truediv__(LivePoint self, double other):
         cdef LivePoint result = LivePoint(self.names)
         cdef Py_ssize_t i
         for i in range(self.dimension):
             result.values[i]=self.values[i]/other
         return result
 
-    def __itruediv__(LivePoint self, float other):
+    def __itruediv__(LivePoint self, double other):
         cdef Py_ssize_t i
         for i in range(self.dimension):
             self.values[i]/=other
-- 
2.43.0


From 98fa7ad92c49369838606dcd3dc4bbeb8ef7bace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:15 +0000
Subject: [PATCH 02/39] fix: to_normalised used an undefined name

---
 cpnest/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpnest/model.py b/cpnest/model.py
index e2ac12e..bf91f1c 100644
--- a/cpnest/model.py
+++ b/cpnest/model.py
@@ -156,4 +156,4 @@ class Model(object):
                 The values of the parameter mapped into the Ndim-cube
         """
         return array('d', [(v-b[0])/(b[1]-b[0]) for v, b
-                           in zip(value.values, self.bounds)])
+                           in zip(point.values, self.bounds)])
-- 
2.43.0


From 27f7f8f7ea08870fbce664f67d7afe6619e5ec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:15 +0000
Subject: [PATCH 03/39] fix: separate logL from the last parameter in the chain
 file and write it in full precision

---
 cpnest/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpnest/model.py b/cpnest/model.py
index bf91f1c..68e7b7f 100644
--- a/cpnest/model.py
+++ b/cpnest/model.py
@@ -117,7 +117,7 @@ class Model(object):
             line: :string:
         """
         line='\t'.join('{0:.20e}'.format(sample[n]) for n in sample.names)
-        line+='{0:20e}'.format(sample.logL)
+        line+='\t{0:.20e}'.format(sample.logL)
         return line
 
     def header(self):
-- 
2.43.0


From 6063c1b9b5823b5d926744e664223b5777b7dfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:15 +0000
Subject: [PATCH 04/39] fix: burn-in of resample_mcmc_chain used a float as an
 index

---
 cpnest/nest2pos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpnest/nest2pos.py b/cpnest/nest2pos.py
index 30f3a54..092456f 100644
--- a/cpnest/nest2pos.py
+++ b/cpnest/nest2pos.py
@@ -147,7 +147,7 @@ def resample_mcmc_chain(chain, verbose=False, burnin=False):
     each one of them against the Metropolis-Hastings rule
     """
     LOGGER.critical('Number of input samples: {0!s}'.format(chain.shape[0]))
-    if burnin: chain = chain[chain.shape[0]/2-1:]
+    if burnin: chain = chain[chain.shape[0]//2:]
     # thin according to the autocorrelation length
     ACL = []
     for n in chain.dtype.names:
-- 
2.43.0


From 05ef511376be30f787a7073f58bb4b9367df3b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:38 +0000
Subject: [PATCH 05/39] fix: normalise the weights in draw_N_posterior

---
 cpnest/nest2pos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpnest/nest2pos.py b/cpnest/nest2pos.py
index 092456f..ed875d6 100644
--- a/cpnest/nest2pos.py
+++ b/cpnest/nest2pos.py
@@ -121,6 +121,8 @@ def draw_N_posterior(data,log_wts, N, verbose=False):
     for i,log_wt in enumerate(log_wts):
         log_cumsums[i+1]=logaddexp(log_cumsums[i], log_wt)
 
+    # the weights need not sum to one
+    log_cumsums-=log_cumsums[-1]
     us=np.log(uniform(size=N))
     idxs=np.digitize(us, log_cumsums)
 
-- 
2.43.0


From 4e94c499071e902892d37ead7eee7d4c01438ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:38 +0000
Subject: [PATCH 06/39] fix: draw_N_posterior_many failed when runs had
 different shares

---
 cpnest/nest2pos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpnest/nest2pos.py b/cpnest/nest2pos.py
index ed875d6..76027b0 100644
--- a/cpnest/nest2pos.py
+++ b/cpnest/nest2pos.py
@@ -141,7 +141,7 @@ def draw_N_posterior_many(datas, Nlives, Npost, verbose=False):
     log_total_evidence=reduce(logaddexp, log_evs)
     Ns=[int(round(Npost*np.exp(log_ev-log_total_evidence))) for log_ev in log_evs]
     posts=[draw_N_posterior(data,logwt,N) for (data,logwt,N) in zip(datas,log_wts,Ns)]
-    return vstack(posts).flatten()
+    return np.concatenate([post for post in posts if len(post)] or [datas[0][:0]]).flatten()
 
 def resample_mcmc_chain(chain, verbose=False, burnin=False):
     """
-- 
2.43.0


From 92de8aa0e77b21a822b12a5a151711be0ba7dc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 07/39] fix: histograms of few samples were given zero bins

---
 cpnest/plot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpnest/plot.py b/cpnest/plot.py
index 2b5ac7c..d10b6ac 100644
--- a/cpnest/plot.py
+++ b/cpnest/plot.py
@@ -54,13 +54,13 @@ def plot_hist(x, name=None, prior_samples=None, mcmc_samples=None, filename=None
     fig = plt.figure()
     ax  = fig.add_subplot(111)
     ax.hist(x, density = True, color='black', linewidth = 1.25,
-                histtype='step', bins=len(x)//50, label = 'posterior')
+                histtype='step', bins=max(1, len(x)//50), label = 'posterior')
     if prior_samples is not None:
         ax.hist(prior_samples, density = True, color='green', linewidth = 1.0,
-                histtype='step', bins=len(x)//50, label = 'prior')
+                histtype='step', bins=max(1, len(x)//50), label = 'prior')
     if mcmc_samples is not None:
         ax.hist(mcmc_samples, density = True, color='red', linewidth = 1.0,
-                histtype='step', bins=len(x)//50, label = 'mcmc')
+                histtype='step', bins=max(1, len(x)//50), label = 'mcmc')
     ax.legend(loc='upper left')
     ax.set_ylabel('probability density')
     if name is not None:
@@ -90,7 +90,7 @@ def plot_indices(indices, filename=None, max_bins=30):
     ax  = fig.add_subplot(111)
 
     ax.hist(indices, density=True, color='tab:blue', linewidth=1.25,
-                histtype='step', bins=min(len(indices) // 100, max_bins))
+                histtype='step', bins=max(1, min(len(indices) // 100, max_bins)))
     # Theoretical distribution
     ax.axhline(1, color='black', linewidth=1.25, linestyle=':', label='pdf')
 
-- 
2.43.0


From 7a665fd734fdd6a68bb4ddc787ccb38854f2b167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 08/39] fix: write checkpoints atomically

---
 cpnest/NestedSampling.py | 7 ++++++-
 cpnest/sampler.py        | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index e068c98..a231fdd 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -494,8 +494,13 @@ class NestedSampler(object):
         Checkpoint its internal state
         """
         self.logger.critical('Checkpointing nested sampling')
-        with open(self.resume_file,"wb") as f:
+        # never leave a partial file in place of the last good checkpoint
+        tmp_file = self.resume_file + '.tmp'
+        with open(tmp_file, "wb") as f:
             pickle.dump(self, f)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(tmp_file, self.resume_file)
 
     @classmethod
     def resume(cls, filename, manager, usermodel):
diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 382ab02..54a4568 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -273,8 +273,13 @@ class Sampler(object):
         Checkpoint its internal state
         """
         self.logger.info('Checkpointing Sampler')
-        with open(self.resume_file, "wb") as f:
+        # never leave a partial file in place of the last good checkpoint
+        tmp_file = self.resume_file + '.tmp'
+        with open(tmp_file, "wb") as f:
             pickle.dump(self, f)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(tmp_file, self.resume_file)
 
     @classmethod
     def resume(cls, resume_file, manager, model):
-- 
2.43.0


From 871c1646731e31e81756cd085af9dd0ba6e1ff6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 09/39] fix: Hamiltonian proposals could not be checkpointed

---
 cpnest/proposal.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cpnest/proposal.py b/cpnest/proposal.py
index fdcc3fe..cfe023a 100644
--- a/cpnest/proposal.py
+++ b/cpnest/proposal.py
@@ -402,6 +402,16 @@ class HamiltonianProposal(EnsembleEigenVector):
         self.c              = self.counter()
         self.DEBUG          = 0
 
+    def __getstate__(self):
+        # generators cannot be pickled
+        state = self.__dict__.copy()
+        state.pop('c', None)
+        return state
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        self.c = self.counter()
+
     def set_ensemble(self, ensemble):
         """
         override the set ensemble method
-- 
2.43.0


From e2e1e4cce5c9c13f27dbb536c81fa51fc3128605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 10/39] fix: samplers of different types shared their
 checkpoint files

---
 cpnest/cpnest.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 29fa9d5..5fcc20e 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -219,7 +219,7 @@ class CPNest(object):
 
             for i in range(nhamiltonian):
                 resume_file = os.path.join(output,
-                                           "sampler_{0:d}.pkl".format(i))
+                                           "sampler_{0:d}.pkl".format(nmhs+i))
                 if not os.path.exists(resume_file) or resume == False:
                     sampler = HamiltonianMonteCarloSampler(
                         self.user,
@@ -241,7 +241,8 @@ class CPNest(object):
                 self.process_pool.append(p)
 
             for i in range(nslice):
-                resume_file = os.path.join(output, "sampler_{0:d}.pkl".format(i))
+                resume_file = os.path.join(output,
+                                           "sampler_{0:d}.pkl".format(nmhs+nhamiltonian+i))
                 if not os.path.exists(resume_file) or resume == False:
                     sampler = SliceSampler(self.user,
                                     maxmcmc,
-- 
2.43.0


From 90d457d7d94562ba0c39c17d70a9e79583b262ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:54 +0000
Subject: [PATCH 11/39] fix: resumed samplers all drew from the same random
 stream

---
 cpnest/sampler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 54a4568..81d6653 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -212,6 +212,9 @@ class Sampler(object):
         """
         if not self.initialised:
             self.reset()
+        else:
+            # resumed processes all inherit the random state of their parent
+            np.random.seed()
 
         self.counter=1
         __checkpoint_flag=False
-- 
2.43.0


From 47ee362dd42ef8eeeff89ab54274ea6f07f4e2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:54 +0000
Subject: [PATCH 12/39] fix: resuming with fewer samplers used a pipe that does
 not exist

---
 cpnest/NestedSampling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index a231fdd..8b278dc 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -519,6 +519,8 @@ class NestedSampler(object):
         obj.logger = logging.getLogger("cpnest.NestedSampling.NestedSampler")
         del obj.__dict__['llmin']
         del obj.__dict__['llmax']
+        # the number of samplers may have changed
+        obj.queue_counter %= obj.manager.nthreads
         obj.logger.critical('Resuming NestedSampler from ' + filename)
         obj.last_checkpoint_time = time.time()
         return obj
-- 
2.43.0


From bae7a9cbf08aaab8a60e5620e80d2f190a436bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:54 +0000
Subject: [PATCH 13/39] fix: a run interrupted before the main loop left its
 samplers waiting forever

---
 cpnest/cpnest.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 5fcc20e..e05aee9 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -278,9 +278,9 @@ class CPNest(object):
                 signal.signal(signal.SIGUSR2, sighandler)
 
             #self.p_ns.start()
-            for each in self.process_pool:
-                each.start()
             try:
+                for each in self.process_pool:
+                    each.start()
                 self.NS.nested_sampling_loop()
                 for each in self.process_pool:
                     each.join()
@@ -548,7 +548,7 @@ class CPNest(object):
             each.start()
 
     def checkpoint(self):
-        self.manager.checkpoint_flag=1
+        self.manager.checkpoint_flag.value=1
 
 
 class RunManager(SyncManager):
-- 
2.43.0


From 33dff8686859245dbe05050419f6e94781e9ec65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:54 +0000
Subject: [PATCH 14/39] fix: an invalid point during population led to a
 deadlock, or entered the live set if NaN

---
 cpnest/NestedSampling.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index 8b278dc..4d2f49b 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -416,14 +416,17 @@ class NestedSampler(object):
                 for j in range(nthreads):
                     while i < self.Nlive:
                         acceptance,sub_acceptance,self.jumps,params[i] = self.manager.consumer_pipes[self.queue_counter].recv()
-                        self.queue_counter = (self.queue_counter + 1) % len(self.manager.consumer_pipes)
                         if np.isnan(params[i].logL):
                             self.logger.warn("Likelihood function returned NaN for params "+str(params))
                             self.logger.warn("You may want to check your likelihood function")
-                        if params[i].logP!=-np.inf and params[i].logL!=-np.inf:
+                        # not true for NaN
+                        if params[i].logP > -np.inf and params[i].logL > -np.inf:
                             i+=1
+                            self.queue_counter = (self.queue_counter + 1) % len(self.manager.consumer_pipes)
                             pbar.update()
                             break
+                        # ask the same sampler for another point
+                        self.manager.consumer_pipes[self.queue_counter].send(self.model.new_point())
         self.params = OrderedLivePoints(params)
         if self.verbose:
             sys.stderr.write("\n")
-- 
2.43.0


From aadb4df2fff0d845cd28e8ffc258bcf7653fb8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:54 +0000
Subject: [PATCH 15/39] fix: updates of the shared largest likelihood could be
 lost

---
 cpnest/sampler.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 81d6653..9d913e2 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -107,6 +107,14 @@ class Sampler(object):
         self.producer_pipe, self.thread_id = self.manager.connect_producer()
         self.last_checkpoint_time = time.time()
 
+    def update_logLmax(self, logL):
+        """
+        Raise the largest likelihood shared by all processes to logL
+        """
+        with self.logLmax.get_lock():
+            if logL > self.logLmax.value:
+                self.logLmax.value = logL
+
     def reset(self):
         """
         Initialise the sampler by generating :int:`poolsize` `cpnest.parameter.LivePoint`
@@ -123,6 +131,7 @@ class Sampler(object):
             if p.logL is None or not np.isfinite(p.logL):
                 self.logger.warning("Received non-finite logL value {0} with parameters {1}".format(str(p.logL), str(p)))
                 self.logger.warning("You may want to check your likelihood function to improve sampling")
+            self.update_logLmax(p.logL)
             self.evolution_points.append(p)
 
         self.proposal.set_ensemble(self.evolution_points)
@@ -298,6 +307,8 @@ class Sampler(object):
         obj.logLmax = obj.manager.logLmax
         obj.logger = logging.getLogger("cpnest.sample.Sampler")
         obj.producer_pipe , obj.thread_id = obj.manager.connect_producer()
+        for p in obj.evolution_points:
+            obj.update_logLmax(p.logL)
         obj.logger.info('Resuming Sampler from ' + resume_file)
         obj.last_checkpoint_time = time.time()
         return obj
@@ -341,7 +352,7 @@ class MetropolisHastingsSampler(Sampler):
                 if newparam.logP-logp_old + self.proposal.log_J > log(random()):
                     newparam.logL = self.model.log_likelihood(newparam)
                     if newparam.logL > logLmin:
-                        self.logLmax.value = max(self.logLmax.value, newparam.logL)
+                        self.update_logLmax(newparam.logL)
                         oldparam = newparam.copy()
                         logp_old = newparam.logP
                         sub_accepted+=1
@@ -396,7 +407,7 @@ class HamiltonianMonteCarloSampler(Sampler):
             self.mcmc_accepted += sub_accepted
             self.mcmc_counter  += sub_counter
             self.acceptance     = float(self.mcmc_accepted)/float(self.mcmc_counter)
-            self.logLmax.value = global_lmax
+            self.update_logLmax(global_lmax)
 
             for p in self.proposal.proposals:
                 p.update_time_step(self.acceptance)
@@ -540,7 +551,7 @@ class SliceSampler(Sampler):
                         # compute the new value of logL
                         newparam.logL = self.model.log_likelihood(newparam)
                         if newparam.logL > Y:
-                            self.logLmax.value = max(self.logLmax.value, newparam.logL)
+                            self.update_logLmax(newparam.logL)
                             oldparam     = newparam.copy()
                             sub_accepted += 1
                             break
-- 
2.43.0


From afd35deef408d277f0a4afd37d9ecc65f1e8622e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:54 +0000
Subject: [PATCH 16/39] fix: the Hamiltonian sampler never returned when it
 could not accept a point

---
 cpnest/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 9d913e2..51b0398 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -387,7 +387,7 @@ class HamiltonianMonteCarloSampler(Sampler):
             sub_counter     = 0
             oldparam        = self.evolution_points.pop()
 
-            while sub_accepted == 0:
+            while sub_accepted == 0 and sub_counter < self.maxmcmc:
 
                 sub_counter += 1
                 newparam     = self.proposal.get_sample(oldparam.copy(), logLmin = logLmin)
-- 
2.43.0


From f13ad29bf3ecde9f642132678ab44c1c5e01fcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:54 +0000
Subject: [PATCH 17/39] fix: a random number of exactly zero ended the
 Metropolis-Hastings sampler

---
 cpnest/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 51b0398..3a48e26 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -349,7 +349,7 @@ class MetropolisHastingsSampler(Sampler):
                 newparam = self.proposal.get_sample(oldparam.copy())
                 newparam.logP = self.model.log_prior(newparam)
 
-                if newparam.logP-logp_old + self.proposal.log_J > log(random()):
+                if newparam.logP-logp_old + self.proposal.log_J > np.log(random()):
                     newparam.logL = self.model.log_likelihood(newparam)
                     if newparam.logL > logLmin:
                         self.update_logLmax(newparam.logL)
-- 
2.43.0


From 0bb23cb4f170e4617d22b58d802fb92da02f13f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:54 +0000
Subject: [PATCH 18/39] fix: a step interrupted half way was repeated after
 resuming

---
 cpnest/NestedSampling.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index 4d2f49b..6f5104e 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -365,6 +365,26 @@ class NestedSampler(object):
         # samplers if rejected
         self.params.remove_n_worst_points(nreplace)
 
+    def start_of_step(self):
+        """
+        Returns what is needed to undo a step that gets interrupted
+        """
+        histories = [self.nested_samples, self.insertion_indices, self.rolling_p,
+                     self.state.logLs, self.state.log_vols]
+        return (self.__dict__.copy(), self.state.__dict__.copy(), list(self.params),
+                [(history, len(history)) for history in histories])
+
+    def undo_step(self, step):
+        """
+        Go back to the start of an interrupted step
+        """
+        attributes, state, params, histories = step
+        self.__dict__.update(attributes)
+        self.state.__dict__.update(state)
+        self.params = OrderedLivePoints(params)
+        for history, length in histories:
+            del history[length:]
+
     def get_worst_n_live_points(self, n):
         """
         selects the lowest likelihood N live points
@@ -450,8 +470,10 @@ class NestedSampler(object):
             self.logger.warning("Nested Sampling process {0!s}, exiting".format(os.getpid()))
             return 0
 
+        step = None
         try:
             while self.condition > self.tolerance:
+                step = self.start_of_step()
                 self.consume_sample()
                 if time.time() - self.last_checkpoint_time > self.manager.periodic_checkpoint_interval:
                     self.checkpoint()
@@ -461,6 +483,8 @@ class NestedSampler(object):
                     self.check_insertion_indices()
 
         except CheckPoint:
+            if step is not None:
+                self.undo_step(step)
             self.checkpoint()
             # Run each pipe to get it to checkpoint
             for c in self.manager.consumer_pipes:
-- 
2.43.0


From 16415936753a3111a440481d62d9936f9b98c733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:54 +0000
Subject: [PATCH 19/39] fix: the first sample was left out of the information

---
 cpnest/NestedSampling.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index 6f5104e..d9285b8 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -122,8 +122,9 @@ class _NSintegralState(object):
         Wt = self.logw + logL + logsubexp(0,logt)
         self.logZ = logaddexp(self.logZ,Wt)
         # Update information estimate
-        if np.isfinite(oldZ) and np.isfinite(self.logZ) and np.isfinite(logL):
-            self.info = np.exp(Wt - self.logZ)*logL + np.exp(oldZ - self.logZ)*(self.info + oldZ) - self.logZ
+        if np.isfinite(self.logZ) and np.isfinite(logL):
+            previous = np.exp(oldZ - self.logZ)*(self.info + oldZ) if np.isfinite(oldZ) else 0
+            self.info = np.exp(Wt - self.logZ)*logL + previous - self.logZ
             if isnan(self.info):
                 self.info = 0
 
-- 
2.43.0


From 2f6e770cc573e55d55f4b604cfcc7eaf286e1c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:11 +0000
Subject: [PATCH 20/39] fix: post-processing passed paths to a shell and
 removed files of others

---
 cpnest/cpnest.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index e05aee9..8abe6a9 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -5,6 +5,7 @@ import multiprocessing as mp
 from ctypes import c_double, c_int
 import numpy as np
 import os
+import re
 import sys
 import signal
 import logging
@@ -30,6 +31,13 @@ def sighandler(signal, frame):
     raise CheckPoint()
 
 
+def is_sampler_file(name, prefix):
+    """
+    Whether a file is one which the samplers leave for post-processing
+    """
+    return re.match(r'^{0}_[0-9]+\.dat$'.format(prefix), name) is not None
+
+
 class CPNest(object):
     """
     Class to control CPNest sampler
@@ -371,12 +379,12 @@ class CPNest(object):
             prior_samples = []
             mcmc_samples  = []
             for file in os.listdir(self.NS.output_folder):
-                if 'prior_samples' in file:
+                if is_sampler_file(file, 'prior_samples'):
                     prior_samples.append(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True))
-                    os.system('rm {0}'.format(os.path.join(self.NS.output_folder,file)))
-                elif 'mcmc_chain' in file:
+                    os.remove(os.path.join(self.NS.output_folder,file))
+                elif is_sampler_file(file, 'mcmc_chain'):
                     mcmc_samples.append(resample_mcmc_chain(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True)))
-                    os.system('rm {0}'.format(os.path.join(self.NS.output_folder,file)))
+                    os.remove(os.path.join(self.NS.output_folder,file))
 
             # first deal with the prior samples
             if len(prior_samples)>0:
@@ -427,9 +435,9 @@ class CPNest(object):
         # read in the samples from the prior coming from each sampler
         prior_samples = []
         for file in os.listdir(self.NS.output_folder):
-            if 'prior_samples' in file:
+            if is_sampler_file(file, 'prior_samples'):
                 prior_samples.append(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True))
-                os.system('rm {0}'.format(os.path.join(self.NS.output_folder,file)))
+                os.remove(os.path.join(self.NS.output_folder,file))
 
         # if we sampled the prior, the nested samples are samples from the prior
         if self.NS.prior_sampling:
@@ -469,9 +477,9 @@ class CPNest(object):
 
         mcmc_samples  = []
         for file in os.listdir(self.NS.output_folder):
-            if 'mcmc_chain' in file:
+            if is_sampler_file(file, 'mcmc_chain'):
                 mcmc_samples.append(resample_mcmc_chain(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True)))
-                os.system('rm {0}'.format(os.path.join(self.NS.output_folder,file)))
+                os.remove(os.path.join(self.NS.output_folder,file))
 
         if not mcmc_samples:
             self.logger.critical('ERROR, no MCMC samples found!')
-- 
2.43.0


From 90be20bc17ded2d2452e6da04bd15427a3bba728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:33 +0000
Subject: [PATCH 21/39] fix: prior and MCMC samples were lost after they had
 been read once

---
 cpnest/cpnest.py | 56 ++++++++++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 8abe6a9..6406ff2 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -171,6 +171,7 @@ class CPNest(object):
             self.nlive    = nlive
             self.poolsize = poolsize
             self.posterior_samples = None
+            self.sampler_files = {}
             self.prior_sampling = prior_sampling
             self.manager = RunManager(
                 nthreads=self.nthreads,
@@ -376,15 +377,8 @@ class CPNest(object):
             from .nest2pos import resample_mcmc_chain
             from numpy.lib.recfunctions import stack_arrays
 
-            prior_samples = []
-            mcmc_samples  = []
-            for file in os.listdir(self.NS.output_folder):
-                if is_sampler_file(file, 'prior_samples'):
-                    prior_samples.append(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True))
-                    os.remove(os.path.join(self.NS.output_folder,file))
-                elif is_sampler_file(file, 'mcmc_chain'):
-                    mcmc_samples.append(resample_mcmc_chain(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True)))
-                    os.remove(os.path.join(self.NS.output_folder,file))
+            prior_samples = self.read_sampler_files('prior_samples')
+            mcmc_samples  = self.read_sampler_files('mcmc_chain', resample_mcmc_chain)
 
             # first deal with the prior samples
             if len(prior_samples)>0:
@@ -414,6 +408,30 @@ class CPNest(object):
                 newline='\n',delimiter=' ')
         return posterior_samples
 
+    def read_sampler_files(self, prefix, process=lambda samples: samples):
+        """
+        Reads and removes the files the samplers left, and returns
+        the samples of each, also those read before
+
+        Parameters
+        ----------
+        prefix : string
+                 start of the file names
+        process : function
+                  applied to the samples of each file once
+
+        Returns
+        -------
+        samples : list of :obj:`numpy.ndarray`
+        """
+        samples = self.sampler_files.setdefault(prefix, [])
+        for file in os.listdir(self.NS.output_folder):
+            if is_sampler_file(file, prefix):
+                path = os.path.join(self.NS.output_folder, file)
+                samples.append(process(np.genfromtxt(path, names=True)))
+                os.remove(path)
+        return list(samples)
+
     def get_prior_samples(self, filename='prior.dat'):
         """
         Returns prior samples
@@ -433,11 +451,7 @@ class CPNest(object):
         from numpy.lib.recfunctions import stack_arrays
 
         # read in the samples from the prior coming from each sampler
-        prior_samples = []
-        for file in os.listdir(self.NS.output_folder):
-            if is_sampler_file(file, 'prior_samples'):
-                prior_samples.append(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True))
-                os.remove(os.path.join(self.NS.output_folder,file))
+        prior_samples = self.read_sampler_files('prior_samples')
 
         # if we sampled the prior, the nested samples are samples from the prior
         if self.NS.prior_sampling:
@@ -451,8 +465,8 @@ class CPNest(object):
         if filename:
             np.savetxt(os.path.join(
                        self.NS.output_folder, filename),
-                       self.prior_samples.ravel(),
-                       header=' '.join(self.prior_samples.dtype.names),
+                       prior_samples.ravel(),
+                       header=' '.join(prior_samples.dtype.names),
                        newline='\n',delimiter=' ')
 
         return prior_samples
@@ -475,11 +489,7 @@ class CPNest(object):
         from .nest2pos import resample_mcmc_chain
         from numpy.lib.recfunctions import stack_arrays
 
-        mcmc_samples  = []
-        for file in os.listdir(self.NS.output_folder):
-            if is_sampler_file(file, 'mcmc_chain'):
-                mcmc_samples.append(resample_mcmc_chain(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True)))
-                os.remove(os.path.join(self.NS.output_folder,file))
+        mcmc_samples  = self.read_sampler_files('mcmc_chain', resample_mcmc_chain)
 
         if not mcmc_samples:
             self.logger.critical('ERROR, no MCMC samples found!')
@@ -490,8 +500,8 @@ class CPNest(object):
         if filename:
             np.savetxt(os.path.join(
                        self.NS.output_folder, filename),
-                       self.mcmc_samples.ravel(),
-                       header=' '.join(self.mcmc_samples.dtype.names),
+                       mcmc_samples.ravel(),
+                       header=' '.join(mcmc_samples.dtype.names),
                        newline='\n',delimiter=' ')
         return mcmc_samples
 
-- 
2.43.0


From 5b8bdb710f385183f951e6dc6d8e995d73e76967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:27 +0000
Subject: [PATCH 22/39] fix: Hamiltonian samplers failed for maxmcmc below ten

---
 cpnest/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 3a48e26..cc4cf39 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -77,7 +77,7 @@ class Sampler(object):
 
         self.seed = seed
         self.model = model
-        self.initial_mcmc = maxmcmc//10
+        self.initial_mcmc = max(1, maxmcmc//10)
         self.maxmcmc = maxmcmc
         self.resume_file = resume_file
         self.manager = manager
-- 
2.43.0


From fe8706c927da3f4f6f51602274c05c9e6ed5eeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:18 +0000
Subject: [PATCH 23/39] fix: resuming with another mix of samplers restored
 samplers of another type

---
 cpnest/cpnest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 6406ff2..874ccd9 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -228,7 +228,7 @@ class CPNest(object):
 
             for i in range(nhamiltonian):
                 resume_file = os.path.join(output,
-                                           "sampler_{0:d}.pkl".format(nmhs+i))
+                                           "sampler_hmc_{0:d}.pkl".format(i))
                 if not os.path.exists(resume_file) or resume == False:
                     sampler = HamiltonianMonteCarloSampler(
                         self.user,
@@ -251,7 +251,7 @@ class CPNest(object):
 
             for i in range(nslice):
                 resume_file = os.path.join(output,
-                                           "sampler_{0:d}.pkl".format(nmhs+nhamiltonian+i))
+                                           "sampler_sli_{0:d}.pkl".format(i))
                 if not os.path.exists(resume_file) or resume == False:
                     sampler = SliceSampler(self.user,
                                     maxmcmc,
-- 
2.43.0


From b3273af691e981693c680200337955790f02eef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:08 +0000
Subject: [PATCH 24/39] fix: a file name ending in a line break was taken for a
 sampler file

---
 cpnest/cpnest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 874ccd9..44ff0a7 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -35,7 +35,7 @@ def is_sampler_file(name, prefix):
     """
     Whether a file is one which the samplers leave for post-processing
     """
-    return re.match(r'^{0}_[0-9]+\.dat$'.format(prefix), name) is not None
+    return re.fullmatch(r'{0}_[0-9]+\.dat'.format(prefix), name) is not None
 
 
 class CPNest(object):
-- 
2.43.0


From 454aefdc0bfb3267973ec01ea75b93221a728c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:12 +0000
Subject: [PATCH 25/39] fix: parameter names were changed when sampler files
 were read back

---
 cpnest/cpnest.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 44ff0a7..9d1d1d8 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -38,6 +38,21 @@ def is_sampler_file(name, prefix):
     return re.fullmatch(r'{0}_[0-9]+\.dat'.format(prefix), name) is not None
 
 
+def read_sampler_file(path):
+    """
+    Read the samples in a file written by a sampler, keeping the
+    parameter names as they are
+
+    Returns
+    -------
+    samples : :obj:`numpy.ndarray`
+    """
+    with open(path, encoding='latin1') as f:
+        names = f.readline().lstrip('#').split()
+    return np.loadtxt(path, dtype={'names': names, 'formats': ['f8' for _ in names]},
+                      ndmin=1, encoding='latin1')
+
+
 class CPNest(object):
     """
     Class to control CPNest sampler
@@ -428,7 +443,7 @@ class CPNest(object):
         for file in os.listdir(self.NS.output_folder):
             if is_sampler_file(file, prefix):
                 path = os.path.join(self.NS.output_folder, file)
-                samples.append(process(np.genfromtxt(path, names=True)))
+                samples.append(process(read_sampler_file(path)))
                 os.remove(path)
         return list(samples)
 
-- 
2.43.0


From e2d03667e19dd9ff0a58f20e917cfaf6e16aab44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:30 +0000
Subject: [PATCH 26/39] fix: the Hamiltonian sampler died where the estimated
 likelihood gradient vanishes

---
 cpnest/proposal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpnest/proposal.py b/cpnest/proposal.py
index cfe023a..62987dd 100644
--- a/cpnest/proposal.py
+++ b/cpnest/proposal.py
@@ -492,6 +492,8 @@ class HamiltonianProposal(EnsembleEigenVector):
         """
         v               = np.array([self.normal[i](q[n]) for i,n in enumerate(q.names)])
         v[np.isnan(v)]  = -1.0
+        # where all derivatives vanish there is no direction either
+        if not np.any(v): v[:] = -1.0
         n               = v/np.linalg.norm(v)
         return n
 
-- 
2.43.0


From 1314a0a5012b2c0523369e8403c7ca00e6604206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:40 +0000
Subject: [PATCH 27/39] fix: resampling a chain shuffled the chain of the
 caller

The thinned chain is a view of the chain passed in, so that shuffling it
rearranged the caller's samples.
---
 cpnest/nest2pos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpnest/nest2pos.py b/cpnest/nest2pos.py
index 76027b0..c2ad6f1 100644
--- a/cpnest/nest2pos.py
+++ b/cpnest/nest2pos.py
@@ -159,7 +159,7 @@ def resample_mcmc_chain(chain, verbose=False, burnin=False):
 
     LOGGER.critical('Measured autocorrelation length {0!s}'.format(str(ACL)))
     # thin and shuffle the chain
-    chain = chain[::ACL]
+    chain = chain[::ACL].copy()
     np.random.shuffle(chain)
     # compute the normalised log posterior density
     logpost = chain['logL']+chain['logPrior']
-- 
2.43.0


From 5a697ccecdfb9472f490b08843be23ae4c8680b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 28/39] fix: the ensemble walk failed in a sampler interrupted
 with a pool of four

---
 cpnest/proposal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpnest/proposal.py b/cpnest/proposal.py
index 62987dd..61daf12 100644
--- a/cpnest/proposal.py
+++ b/cpnest/proposal.py
@@ -227,8 +227,9 @@ class EnsembleWalk(EnsembleProposal):
         ----------
         out: :obj:`cpnest.parameter.LivePoint`
         """
-        subset = sample(list(self.ensemble),self.Npoints)
-        center_of_mass = reduce(type(old).__add__,subset)/float(self.Npoints)
+        # a sampler interrupted half way through a step lacks one point
+        subset = sample(list(self.ensemble),min(self.Npoints,len(self.ensemble)))
+        center_of_mass = reduce(type(old).__add__,subset)/float(len(subset))
         out = old
         for x in subset:
             out += (x - center_of_mass)*gauss(0,1)
-- 
2.43.0


From e05e6b2ac1a1c16bf87cab4149c93897902ba6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 29/39] fix: a Hamiltonian sampler died where the likelihood
 was flat or invalid

The normal to the contour was estimated with a filter and a spline that need
ten points of distinct and finite likelihood.  Where fewer were left the
sampler died and the run waited for it for ever.
---
 cpnest/proposal.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cpnest/proposal.py b/cpnest/proposal.py
index 61daf12..9abe282 100644
--- a/cpnest/proposal.py
+++ b/cpnest/proposal.py
@@ -454,10 +454,15 @@ class HamiltonianProposal(EnsembleEigenVector):
             Vs  = Vs[idx]
             xs  = xs[idx]
             # filter to within the 90% range of the Pvals
-            Vl,Vh = np.percentile(Vs,[5,95])
+            Vl,Vh = np.percentile(Vs,[5,95]) if len(Vs) > 0 else (0.0,0.0)
             (idx,) = np.where(np.logical_and(Vs > Vl,Vs < Vh))
             Vs = Vs[idx]
             xs = xs[idx]
+            # the filter and the spline need ten points (fewer are left where the
+            # likelihood is flat or invalid): without them no direction is preferred
+            if len(idx) < 10:
+                self.normal.append(np.poly1d([0.0]))
+                continue
             # Pick knots for this parameters: Choose 5 knots between
             # the 1st and 99th percentiles (heuristic tuning WDP)
             knots = np.percentile(xs,np.linspace(1,99,5))
-- 
2.43.0


From fb8bf8e60317ed490fe4d69c5d681587504b934b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 30/39] fix: a Hamiltonian sampler died when the ensemble was
 narrow in some direction

scipy refuses to make a distribution of a covariance matrix whose eigenvalues
differ by more than nine orders of magnitude unless told otherwise.
---
 cpnest/proposal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpnest/proposal.py b/cpnest/proposal.py
index 9abe282..ad8dadb 100644
--- a/cpnest/proposal.py
+++ b/cpnest/proposal.py
@@ -523,7 +523,9 @@ class HamiltonianProposal(EnsembleEigenVector):
         update the momenta distribution using the
         mass matrix (precision matrix of the ensemble).
         """
-        self.momenta_distribution = multivariate_normal(cov=self.mass_matrix)#
+        # scipy takes the mass matrix of a narrow or badly scaled ensemble for
+        # singular, which matters to densities but not to the draws made here
+        self.momenta_distribution = multivariate_normal(cov=self.mass_matrix, allow_singular=True)
 
     def update_mass(self):
         """
-- 
2.43.0


From e42f39f3385142059df4fbaf900b673444554d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 31/39] fix: a Hamiltonian sampler died when the points of its
 ensemble coincided

Where the likelihood has plateaus the points can coincide or lie in a plane:
the covariance has no inverse then, and the last mass matrix is kept.
---
 cpnest/proposal.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cpnest/proposal.py b/cpnest/proposal.py
index ad8dadb..514382f 100644
--- a/cpnest/proposal.py
+++ b/cpnest/proposal.py
@@ -11,6 +11,19 @@ from scipy.stats import multivariate_normal
 from scipy.special import logsumexp
 from itertools import permutations
 
+def precision_matrix(covariance):
+    """
+    The inverse of a covariance matrix, None if
+    it cannot be computed
+    """
+    try:
+        np.linalg.cholesky(covariance)
+        precision = np.linalg.inv(covariance)
+        np.linalg.cholesky(precision)
+    except np.linalg.LinAlgError:
+        return None
+    return precision
+
 class Proposal(object):
     """
     Base abstract class for jump proposals
@@ -534,6 +547,9 @@ class HamiltonianProposal(EnsembleEigenVector):
         from the ensemble, allowing for correlated momenta
         """
         self.d                      = self.covariance.shape[0]
+        if self.mass_matrix is not None and precision_matrix(np.atleast_2d(self.covariance)) is None:
+            # the points coincide or lie in a plane: keep the last mass matrix
+            return
         self.inverse_mass_matrix    = np.atleast_2d(self.covariance)
         self.mass_matrix            = np.linalg.inv(self.inverse_mass_matrix)
         self.inverse_mass           = np.atleast_1d(np.squeeze(np.diag(self.inverse_mass_matrix)))
-- 
2.43.0


From 57042e26f059c482f77883228c50f22561c9a98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 32/39] fix: a Hamiltonian sampler died at large energies and
 where the prior vanished

The probabilities of the states of a trajectory did not sum to one within
the tolerance of numpy once their energies exceeded about 1e8, and were not
defined if none of the states was allowed by the prior.
---
 cpnest/proposal.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cpnest/proposal.py b/cpnest/proposal.py
index 514382f..4eaef39 100644
--- a/cpnest/proposal.py
+++ b/cpnest/proposal.py
@@ -8,7 +8,6 @@ from random import sample,gauss,randrange,uniform
 from scipy.interpolate import LSQUnivariateSpline
 from scipy.signal import savgol_filter
 from scipy.stats import multivariate_normal
-from scipy.special import logsumexp
 from itertools import permutations
 
 def precision_matrix(covariance):
@@ -875,8 +874,14 @@ class ConstrainedLeapFrog(LeapFrog):
 
         """
         logw = np.array([-self.hamiltonian(p,q) for q,p in trajectory[1:-1]])
-        norm = logsumexp(logw)
-        idx  = np.random.choice(range(1,len(trajectory)-1), p = np.exp(logw  - norm))
+        # a state of undefined energy cannot be chosen
+        logw[np.isnan(logw)] = -np.inf
+        if np.all(np.isneginf(logw)):
+            # and where there is no other the trajectory stays where it began
+            return trajectory[0]
+        # large energies leave rounding errors: normalise the weights as they are
+        w    = np.exp(logw - np.max(logw))
+        idx  = np.random.choice(range(1,len(trajectory)-1), p = w/np.sum(w))
         return trajectory[idx]
 
     def save_trajectory(self, trajectory, logLmin, filename = None):
-- 
2.43.0


From 2a8b2f948f608afd236665c140a6312ada624f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 33/39] fix: a run took over the samples which an interrupted
 one had left

The files the samplers of an interrupted run leave in the output folder were
read as samples of the next run there, even when that did not resume it, and
the chains of resumed samplers were read twice.
---
 cpnest/cpnest.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 9d1d1d8..910df04 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -202,6 +202,13 @@ class CPNest(object):
 
             self.process_pool = []
 
+            # the files which the samplers of an interrupted run left are not part
+            # of this one; resumed samplers write their chains again at the end
+            for file in os.listdir(output):
+                if is_sampler_file(file, 'mcmc_chain') or \
+                   (resume == False and is_sampler_file(file, 'prior_samples')):
+                    os.remove(os.path.join(output, file))
+
             # instantiate the nested sampler class
             resume_file = os.path.join(output, "nested_sampler_resume.pkl")
             if not os.path.exists(resume_file) or resume == False:
-- 
2.43.0


From b77bc654058c80c7ba33ef233da7651095e1d30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:25 +0000
Subject: [PATCH 34/39] fix: a Hamiltonian sampler died when points of its
 ensemble were next to each other

No spline can be fitted when two values of a parameter differ by a rounding
error at the wrong place, and the sampler died.  No direction is preferred then.
---
 cpnest/proposal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpnest/proposal.py b/cpnest/proposal.py
index 4eaef39..eba4781 100644
--- a/cpnest/proposal.py
+++ b/cpnest/proposal.py
@@ -491,7 +491,11 @@ class HamiltonianProposal(EnsembleEigenVector):
                               mode='mirror' # Reflective boundary conds.
                               )
             # construct a LSQ spline interpolant
-            self.normal.append(LSQUnivariateSpline(xs, f, knots, ext = 3, k = 3))
+            try:
+                self.normal.append(LSQUnivariateSpline(xs, f, knots, ext = 3, k = 3))
+            except ValueError:
+                # the points are too close to each other for a spline with these knots
+                self.normal.append(np.poly1d([0.0]))
             if self.DEBUG: np.savetxt('dlogL_spline_%d.txt'%i,np.column_stack((xs,Vs,self.normal[-1](xs),f)))
 
     def unit_normal(self, q):
-- 
2.43.0


From 2355ba329933f03fcdf59e386d40990db2c9dd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 35/39] fix: a run resumed in a moved or copied folder wrote
 into the original one

The checkpoints hold the path of the output folder. If the folder had been moved,
the resumed run failed when it wrote its first file; if it had been copied, the
files of the original run were overwritten.
---
 cpnest/NestedSampling.py | 4 ++++
 cpnest/sampler.py        | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index d9285b8..dfaf27b 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -544,6 +544,10 @@ class NestedSampler(object):
         obj.logLmax = obj.manager.logLmax
         obj.logLmax.value = obj.llmax
         obj.model = usermodel
+        # the folder may have been moved or copied
+        obj.output_folder = os.path.join(os.path.dirname(filename), '')
+        obj.output_file, obj.evidence_file, _ = obj.setup_output(obj.output_folder)
+        obj.resume_file = filename
         obj.logger = logging.getLogger("cpnest.NestedSampling.NestedSampler")
         del obj.__dict__['llmin']
         del obj.__dict__['llmax']
diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index cc4cf39..c2d4e10 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -303,6 +303,9 @@ class Sampler(object):
             obj = pickle.load(f)
         obj.model   = model
         obj.manager = manager
+        # the folder may have been moved or copied
+        obj.output      = os.path.join(os.path.dirname(resume_file), '')
+        obj.resume_file = resume_file
         obj.logLmin = obj.manager.logLmin
         obj.logLmax = obj.manager.logLmax
         obj.logger = logging.getLogger("cpnest.sample.Sampler")
-- 
2.43.0


From 4be32a1715827cdbc08bdbe894944eea620d99da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 36/39] fix: posterior weights of a resumed run used the wrong
 number of live points

A resumed run keeps the number of live points it was started with, but the posterior
was drawn with the number given to the resuming process.
---
 cpnest/cpnest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 910df04..3495aac 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -389,7 +389,7 @@ class CPNest(object):
         import os
         from .nest2pos import draw_posterior_many
         nested_samples     = self.get_nested_samples()
-        posterior_samples  = draw_posterior_many([nested_samples],[self.nlive],verbose=self.verbose)
+        posterior_samples  = draw_posterior_many([nested_samples],[self.NS.Nlive],verbose=self.verbose)
         posterior_samples  = np.array(posterior_samples)
         self.prior_samples = {n:None for n in self.user.names}
         self.mcmc_samples  = {n:None for n in self.user.names}
-- 
2.43.0


From ac8489c42623159d3e171e25544179f2e587745b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 37/39] fix: signal handlers stayed installed after the run

With resume=True, signals that reached the process after the run, such as an
interrupt from the keyboard, raised CheckPoint in the code of the user.
---
 cpnest/cpnest.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 3495aac..864af23 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -10,6 +10,7 @@ import sys
 import signal
 import logging
 
+from contextlib import contextmanager
 from multiprocessing.sharedctypes import Value, Array
 from multiprocessing import Lock
 from multiprocessing.managers import SyncManager
@@ -31,6 +32,20 @@ def sighandler(signal, frame):
     raise CheckPoint()
 
 
+@contextmanager
+def preserved_signal_handlers():
+    """
+    Context manager which puts the signal handlers back
+    """
+    handlers = {s: signal.getsignal(s) for s in signal.valid_signals()}
+    try:
+        yield
+    finally:
+        for s, handler in handlers.items():
+            if handler is not None and signal.getsignal(s) is not handler:
+                signal.signal(s, handler)
+
+
 def is_sampler_file(name, prefix):
     """
     Whether a file is one which the samplers leave for post-processing
@@ -297,7 +312,7 @@ class CPNest(object):
         Run the sampler
         """
 
-        with self.log_file:
+        with self.log_file, preserved_signal_handlers():
             # Everything in this context is logged to `log_file`
 
             if self.resume:
-- 
2.43.0


From 1802236705ceee79c1ba6cba4cbaac8f187ce0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:49 +0000
Subject: [PATCH 38/39] fix: plotting failed for parameter names with a slash

---
 cpnest/cpnest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 864af23..01cfeff 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -562,9 +562,9 @@ class CPNest(object):
                 plot.plot_hist(pos[n].ravel(), name = n,
                                prior_samples = self.prior_samples[n].ravel() if pri is not None else None,
                                mcmc_samples = self.mcmc_samples[n].ravel() if mc is not None else None,
-                               filename = os.path.join(self.output,'posterior_{0}.pdf'.format(n)))
+                               filename = os.path.join(self.output,'posterior_{0}.pdf'.format(n.replace(os.sep,'_'))))
         for n in self.nested_samples.dtype.names:
-            plot.plot_chain(self.nested_samples[n],name=n,filename=os.path.join(self.output,'nschain_{0}.pdf'.format(n)))
+            plot.plot_chain(self.nested_samples[n],name=n,filename=os.path.join(self.output,'nschain_{0}.pdf'.format(n.replace(os.sep,'_'))))
         if self.NS.prior_sampling is False:
             import numpy as np
             plotting_posteriors = np.squeeze(pos.view((pos.dtype[0], len(pos.dtype.names))))
-- 
2.43.0


From c1e0196168abe7fce4422e8c43fe4108e3d95ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:45 +0000
Subject: [PATCH 39/39] fix: likelihoods of points a chain had left were
 forgotten when resuming

---
 cpnest/sampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index c2d4e10..1f780dc 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -310,7 +310,8 @@ class Sampler(object):
         obj.logLmax = obj.manager.logLmax
         obj.logger = logging.getLogger("cpnest.sample.Sampler")
         obj.producer_pipe , obj.thread_id = obj.manager.connect_producer()
-        for p in obj.evolution_points:
+        # also for points which the chain has left again
+        for p in list(obj.evolution_points)+list(obj.samples):
             obj.update_logLmax(p.logL)
         obj.logger.info('Resuming Sampler from ' + resume_file)
         obj.last_checkpoint_time = time.time()
-- 
2.43.0

