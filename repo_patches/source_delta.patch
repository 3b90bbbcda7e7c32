From 4cd2f8ae76f6c84d4e19d526c1a44160503eb8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:52 +0000
Subject: [PATCH 01/30] fix: never treat a parameter-set name as a parameter
 vector in set_par

---
 pydsge/mpile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index cc2be92..371ee5e 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -315,9 +315,9 @@ def set_par(
             par = get_par(
                 self, dummy=dummy, asdict=False, full=True, verbose=verbose, **args
             )
-        elif len(dummy) == len(self.par_fix):
+        elif not isinstance(dummy, str) and len(dummy) == len(self.par_fix):
             par = dummy
-        elif len(dummy) == len(self.prior_arg):
+        elif not isinstance(dummy, str) and len(dummy) == len(self.prior_arg):
             par[self.prior_arg] = dummy
         else:
             par = get_par(
-- 
2.43.0


From 52b8bfe43adffc8c543c9b83cf6a2c66f0c59c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:06 +0000
Subject: [PATCH 02/30] fix: keep the sign of lagged terms in the constraint
 when shocks are appended

---
 pydsge/gensys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index 456947a..3f589c8 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -291,7 +291,7 @@ def gen_sys(
     CC0 = np.block([[CC0, DD0], [np.zeros((dimeps, AA0.shape[1]))]])
     fb0 = np.pad(fb0, (0, dimeps))
     if fd0 is not None:
-        fc0 = -np.hstack((fc0, fd0))
+        fc0 = np.hstack((fc0, -fd0))
     else:
         fc0 = np.pad(fc0, (0, dimeps))
 
-- 
2.43.0


From 845e0e4714e10ce2b2df1501d49713964f61b059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:06 +0000
Subject: [PATCH 03/30] fix: add auxiliary states for forward-looking variables
 lagged only in the constraint

---
 pydsge/gensys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index 3f589c8..88148a0 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -259,7 +259,7 @@ def gen_sys(
         print("[gen_sys:]".ljust(15, " ") + f" Backward-looking variables: {bwd_vars}", flush=True)
 
 
-    inall = ~fast0(AA0, 0) & ~fast0(CC0, 0)
+    inall = ~fast0(AA0, 0) & (~fast0(CC0, 0) | ~fast0(fc0))
 
     if verbose > 1:
         hyb_vars = [self.variables[i].name for i, e in enumerate(inall) if e]
@@ -281,6 +281,8 @@ def gen_sys(
         BB0[-sum(inall):, : -sum(inall)][:, inall] = -np.eye(sum(inall))
         CC0[:, -sum(inall):] = CC0[:, : -sum(inall)][:, inall]
         CC0[:, : -sum(inall)][:, inall] = 0
+        fc0[-sum(inall):] = fc0[: -sum(inall)][inall]
+        fc0[: -sum(inall)][inall] = 0
 
     if verbose > 1:
         print("[gen_sys:]".ljust(15, " ") + f" {sum(inall)} auxiliary variables have been added", flush=True)
-- 
2.43.0


From 67fbeee897054970b99dda17bd2c53c08b904ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:18 +0000
Subject: [PATCH 04/30] fix: load_rdict finds the files written by save_rdict

---
 pydsge/clsmethods.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pydsge/clsmethods.py b/pydsge/clsmethods.py
index 34a8df6..98352ee 100644
--- a/pydsge/clsmethods.py
+++ b/pydsge/clsmethods.py
@@ -179,17 +179,21 @@ def load_rdict(self, path=None, suffix=""):
     The idea is to keep meta data (the model, setup, ...) and the results obtained (chains, smoothed residuals, ...) separate. `save_rdict` suggests some standard conventions.
     """
 
-    if path is None:
+    if not isinstance(path, str):
         path = self.name + "_res"
 
-    path += suffix
-
-    if path[-4] != ".npz":
-        path += ".npz"
+    # mirror the file naming of `save_rdict`
+    if path[-4:] == ".npz":
+        path = path[:-4]
 
     if not os.path.isabs(path):
         path = os.path.join(self.path, path)
 
+    path += suffix
+
+    if path[-4:] != ".npz":
+        path += ".npz"
+
     return dict(np.load(path, allow_pickle=True))
 
 
-- 
2.43.0


From 786d84fb3505e3f0af9c44880e6e029786518433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:45 +0000
Subject: [PATCH 05/30] fix: get_sample draws from the most recent states of
 the given chain

---
 pydsge/clsmethods.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydsge/clsmethods.py b/pydsge/clsmethods.py
index 98352ee..7fd5695 100644
--- a/pydsge/clsmethods.py
+++ b/pydsge/clsmethods.py
@@ -337,14 +337,14 @@ def load_data(self, df, start=None, end=None):
 def get_sample(self, size, chain=None):
     """Get a (preferably recent) sample from the chain"""
 
-    chain = None or self.get_chain()
+    chain = self.get_chain() if chain is None else chain
     clen, nwalks, npar = chain.shape
-    recent = int(np.ceil(60 / nwalks))
+    recent = int(np.ceil(size / nwalks))
 
     if recent > clen:
         raise Exception("Requested sample size is larger than chain")
 
-    sample = chain[:, -recent, :].reshape(-1, npar)
+    sample = chain[-recent:].reshape(-1, npar)
     res = np.random.choice(np.arange(recent * nwalks), size, False)
 
     return sample[res]
-- 
2.43.0


From c15a0661bd4cde798f94aabc9e62b67e6602c86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:45 +0000
Subject: [PATCH 06/30] fix: fall back to serial mapping when estimation was
 prepared without a pool

---
 pydsge/estimation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydsge/estimation.py b/pydsge/estimation.py
index 87225ad..6ad5573 100644
--- a/pydsge/estimation.py
+++ b/pydsge/estimation.py
@@ -250,7 +250,7 @@ def create_pool(self, ncores=None, threadpool_limit=None):
 
     import pathos
 
-    if hasattr(self, "pool"):
+    if getattr(self, "pool", None) is not None:
         ncores = ncores or self.pool.ncpus
         self.pool.close()
     else:
@@ -281,7 +281,7 @@ def create_pool(self, ncores=None, threadpool_limit=None):
 @property
 def mapper(self):
 
-    if hasattr(self, "pool") and not self.debug:
+    if getattr(self, "pool", None) is not None and not self.debug:
         return self.pool.imap
     else:
         return map
-- 
2.43.0


From de53c19a84ec7114e7bc8de08d4011c5611bc21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:45 +0000
Subject: [PATCH 07/30] fix: seed the random generator with the resolved seed
 in prep_estim

---
 pydsge/estimation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydsge/estimation.py b/pydsge/estimation.py
index 6ad5573..2162238 100644
--- a/pydsge/estimation.py
+++ b/pydsge/estimation.py
@@ -55,9 +55,6 @@ def prep_estim(
 
     import warnings
 
-    # all that should be reproducible
-    np.random.seed(seed)
-
     if N is None:
         if "filter_n" in self.fdict.keys():
             N = int(self.fdict["filter_n"])
@@ -78,6 +75,9 @@ def prep_estim(
         else:
             seed = 0
 
+    # all that should be reproducible
+    np.random.seed(seed)
+
     if not "reduced_form" in filterargs:
         filterargs["reduced_form"] = True
 
-- 
2.43.0


From 1cfbd4c9afe74204c1f35da493798ac3e06432df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:59 +0000
Subject: [PATCH 08/30] fix: box_check compares the estimated parameters with
 their bounds by default

---
 pydsge/mpile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index 371ee5e..2f31222 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -369,7 +369,7 @@ def box_check(self, par=None):
     """
 
     if par is None:
-        par = self.par
+        par = np.array(self.par)[self.prior_arg]
 
     for i, name in enumerate(self.fdict["prior_names"]):
 
-- 
2.43.0


From de29344027c895f02a29798414d6ca5de998f9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:20 +0000
Subject: [PATCH 09/30] fix: asking for a named parameter set does not replace
 the current parameters

---
 pydsge/mpile.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index 2f31222..164d316 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -192,11 +192,16 @@ def get_par(
         else:
             old_par = self.par
             pars = self.par_fix
-            self.par = self.par_fix
             if dummy == "prior":
-                par_cand = prior_sampler(
-                    self, nsamples=nsamples, verbose=verbose, debug=debug, **args
-                )
+                # draws are tried around the calibration
+                self.par = self.par_fix
+                try:
+                    par_cand = prior_sampler(
+                        self, nsamples=nsamples, verbose=verbose, debug=debug, **args
+                    )
+                finally:
+                    if self.par is self.par_fix:
+                        self.par = old_par
             elif dummy in ("post", "posterior"):
                 par_cand = posterior_sampler(
                     self, nsamples=nsamples, verbose=verbose, **args
@@ -239,7 +244,6 @@ def get_par(
                         par_cand[i] = self.par_fix[self.prior_arg][i]
 
             else:
-                self.par = old_par
                 raise KeyError(
                     "Parameter or parametrization '%s' does not fit/exist." % dummy
                 )
-- 
2.43.0


From 14c72af71c9388a8beef44edb99746681a4e75bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:16 +0000
Subject: [PATCH 10/30] fix: mcmc draws one initial state per walker when none
 are given

---
 pydsge/mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index 734adc7..522c25e 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -110,12 +110,12 @@ def mcmc(
                 "prior_mean",
                 asdict=False,
                 full=False,
-                nsample=nwalks,
+                nsamples=nwalks or 1,
                 verbose=verbose > 1,
             )
         else:
             p0 = get_par(
-                self, "best", asdict=False, full=False, nsample=nwalks, verbose=verbose > 1
+                self, "best", asdict=False, full=False, nsamples=nwalks or 1, verbose=verbose > 1
             )
     elif not resume:
         nwalks = p0.shape[0]
-- 
2.43.0


From 850b6aefbbabf05b0833d96e4b1b37b8845a4863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:16 +0000
Subject: [PATCH 11/30] fix: use the resolved tuning length for the mode after
 mcmc

---
 pydsge/mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index 522c25e..9821efd 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -162,8 +162,8 @@ def mcmc(
 
     if temp == 1:
 
-        log_probs = sampler.get_log_prob()[-tune:]
-        chain = sampler.get_chain()[-tune:]
+        log_probs = sampler.get_log_prob()[-self.tune:]
+        chain = sampler.get_chain()[-self.tune:]
         chain = chain.reshape(-1, chain.shape[-1])
 
         arg_max = log_probs.argmax()
-- 
2.43.0


From b23ee6b1c5b5b37b6429d712ddaad85b254d33ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:16 +0000
Subject: [PATCH 12/30] fix: store the mode found by mcmc in parameter space

---
 pydsge/mcmc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index 9821efd..6187cdf 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -169,6 +169,9 @@ def mcmc(
         arg_max = log_probs.argmax()
         mode_f = log_probs.flat[arg_max]
         mode_x = chain[arg_max].flatten()
+        if self.bptrans:
+            # the chain lives in the unbounded space, the mode in parameter space
+            mode_x = self.bptrans(mode_x)
 
         self.fdict["mode_x"] = mode_x
         self.fdict["mode_f"] = mode_f
-- 
2.43.0


From 012e9f36c7421820d42b552f8b4e81bce7899976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:39 +0000
Subject: [PATCH 13/30] fix: retry a failed extraction with a different seed

---
 pydsge/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/filtering.py b/pydsge/filtering.py
index 519c53c..1d5cc8a 100644
--- a/pydsge/filtering.py
+++ b/pydsge/filtering.py
@@ -446,7 +446,7 @@ def extract(
                     X=sample,
                     init_states=inits,
                     verbose=max(len(sample) == 1, verbose - 1),
-                    seed=seed_loc,
+                    seed=seed_loc + natt,
                     nsamples=1,
                     **npasargs
                 )
-- 
2.43.0


From c1aa73c03d26a60a7dec8033ed745ec1b82c99c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:39 +0000
Subject: [PATCH 14/30] fix: do not create a worker pool where the model was
 set up without one

---
 pydsge/filtering.py | 2 +-
 pydsge/mcmc.py      | 2 +-
 pydsge/mpile.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydsge/filtering.py b/pydsge/filtering.py
index 1d5cc8a..956008f 100644
--- a/pydsge/filtering.py
+++ b/pydsge/filtering.py
@@ -357,7 +357,7 @@ def extract(
     fname = self.filter.name
     verbose = max(verbose, debug)
 
-    if hasattr(self, "pool"):
+    if getattr(self, "pool", None) is not None:
         from .estimation import create_pool
 
         create_pool(self)
diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index 6187cdf..9ab7468 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -79,7 +79,7 @@ def mcmc(
 
         self.pool = None
 
-    elif hasattr(self, "pool"):
+    elif getattr(self, "pool", None) is not None:
 
         from .estimation import create_pool
 
diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index 164d316..f9cc712 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -73,7 +73,7 @@ def prior_sampler(
 
     self.debug |= debug
 
-    if not debug and hasattr(self, "pool"):
+    if not debug and getattr(self, "pool", None) is not None:
 
         from .estimation import create_pool
         create_pool(self)
-- 
2.43.0


From 92ffd6b4f8e6483c426e44e1c8bd91a46f9c368c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:45 +0000
Subject: [PATCH 15/30] fix: irfs and simulate do not create a worker pool
 where there is none

---
 pydsge/tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 2e8278e..f6e459a 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -208,7 +208,7 @@ def irfs(
     if not hasattr(self, "par"):
         gen_sys(self, verbose=verbose, **args)
 
-    if hasattr(self, "pool"):
+    if getattr(self, "pool", None) is not None:
         from .estimation import create_pool
 
         create_pool(self)
@@ -416,7 +416,7 @@ def simulate(
 
     self.debug |= debug
 
-    if hasattr(self, "pool"):
+    if getattr(self, "pool", None) is not None:
         from .estimation import create_pool
 
         create_pool(self)
-- 
2.43.0


From c2de007e239f92a4c6d987acef8ca8ae2d7dfd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:45 +0000
Subject: [PATCH 16/30] fix: irfs does not extend shock specifications passed
 as lists in place

---
 pydsge/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index f6e459a..1c5b5ee 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -225,7 +225,7 @@ def irfs(
         if isinstance(vec, str):
             vec = (vec, 1, 0)
         elif len(vec) == 2:
-            vec += (0,)
+            vec = (*vec, 0)
         new_shocklist.append(vec)
 
     pickled_self = dill.dumps(self, recurse=True)
-- 
2.43.0


From 23cb79e8b3518d6a5c29b9667e9323bf0517078b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:45 +0000
Subject: [PATCH 17/30] fix: simulate works without a source dictionary

---
 pydsge/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 1c5b5ee..8cfb5cd 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -465,7 +465,7 @@ def simulate(
     res = wrap(
         self.mapper(runner, zip(*sample)),
         unit=" sample(s)",
-        total=len(source["pars"]),
+        total=len(pars),
         dynamic_ncols=True,
     )
 
-- 
2.43.0


From 454386b51ab1106b06957337f30cc41c6236cb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:45 +0000
Subject: [PATCH 18/30] fix: simulate detects a changed ordering of variables

---
 pydsge/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 8cfb5cd..eaf1c96 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -434,8 +434,9 @@ def simulate(
             eps = np.where(np.isnan(mask), eps, operation(np.array(mask), eps))
 
         if pelf.set_par is not None:
+            old_vv = pelf.vv
             _, vv = pelf.set_par(par, return_vv=True, **args)
-            if not np.all(vv == pelf.vv):
+            if not np.array_equal(vv, old_vv):
                 raise Exception(
                     "The ordering of variables has changed given different parameters."
                 )
-- 
2.43.0


From 2bfc07635e2a8e0c48735df6235166751833cce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:45 +0000
Subject: [PATCH 19/30] fix: observables of a single state can be calculated

---
 pydsge/tools.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index eaf1c96..31769db 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -141,8 +141,7 @@ def o_func(self, state, covs=None, pars=None):
         )
 
     if np.ndim(state) <= 1:
-        data = self.data.index if hasattr(self, "data") else None
-        obs = pd.DataFrame(obs, index=data, columns=self.observables)
+        obs = pd.Series(obs, index=self.observables)
 
     if covs is None:
         return obs
-- 
2.43.0


From 25cba92370f877e1883fb2cf40ce1e375fadfbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:45 +0000
Subject: [PATCH 20/30] fix: traj reads the trajectory of the requested
 durations

---
 pydsge/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 31769db..eb2383c 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -513,7 +513,7 @@ def traj(self, state, l=None, k=None, verbose=True):
 
     tmat, tterm = self.precalc_tmat
 
-    return tmat[:, l, k - 1] @ state + tterm[:, l, k - 1]
+    return tmat[:, l, k] @ state + tterm[:, l, k]
 
 
 def k_map(self, state, l=None, k=None, verbose=True):
-- 
2.43.0


From aae1b5bb27f56f8be6505f79f503fce27263f936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:45 +0000
Subject: [PATCH 21/30] fix: calculating observables for given parameters
 leaves the parameters of the model alone

---
 pydsge/tools.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index eb2383c..f614402 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -116,13 +116,16 @@ def o_func(self, state, covs=None, pars=None):
 
     if pars is not None:
 
+        # work on a copy, the model must keep its own parameters
+        pelf = dill.loads(dill.dumps(self, recurse=True))
+
         obs = []
         for sti, par in zip(state, pars):
-            self.set_par(par, get_hx_only=True)
+            pelf.set_par(par, get_hx_only=True)
             ob = (
-                sti[:, : self.dimp] @ self.hx[0].T
-                + sti[:, self.dimp:] @ self.hx[1].T
-                + self.hx[2]
+                sti[:, : pelf.dimp] @ pelf.hx[0].T
+                + sti[:, pelf.dimp:] @ pelf.hx[1].T
+                + pelf.hx[2]
             )
             obs.append(ob)
 
-- 
2.43.0


From 6483c5d1306003287278edb86c4eb956c2b5bf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:00 +0000
Subject: [PATCH 22/30] fix: discard trajectory tables when the solution
 changes

---
 pydsge/engine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydsge/engine.py b/pydsge/engine.py
index 990141c..d3b1d5a 100644
--- a/pydsge/engine.py
+++ b/pydsge/engine.py
@@ -192,6 +192,8 @@ def preprocess(self, PU, MU, PR, MR, gg, fq1, fp1, fq0, parallel=False, verbose=
     self.precalc_mat = preprocess_jit_loc(
         PU, MU, PR, MR, gg, fq1, fp1, fq0, omg, lam, x_bar, l_max, k_max
     )
+    # trajectory tables of a previous solution are void
+    self.__dict__.pop("precalc_tmat", None)
 
     if verbose:
         print(
-- 
2.43.0


From a670354bb28aab9a7984820c41958f698da404dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:12 +0000
Subject: [PATCH 23/30] fix: a cached model with a functions file is not reused
 for a model without one

---
 pydsge/parser.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index 9797a5c..d9a90f8 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -31,8 +31,7 @@ def crawl_cached_models(mtxt, ftxt):
 
             use_cached = cached_models[i].fdict["yaml_raw"] == mtxt
 
-            if ftxt is not None:
-                use_cached &= cached_models[i].fdict.get("ffile_raw") == ftxt
+            use_cached &= cached_models[i].fdict.get("ffile_raw") == ftxt
 
             if use_cached:
                 processed_raw_model = cached_models[i]
-- 
2.43.0


From d2855d95c5f2ae425ff9c842de80c0ec14a61ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:12 +0000
Subject: [PATCH 24/30] fix: a model taken from the cache carries the path of
 the file that was read

---
 pydsge/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index d9a90f8..078895c 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -516,6 +516,7 @@ class DSGE(Model):
             if verbose:
                 print("[DSGE:]".ljust(15, " ") + " Model is already parsed, reusing parsed model")
             pmodel = deepcopy(processed_raw_model)
+            pmodel.path = os.path.dirname(mfile)
 
         else:
 
-- 
2.43.0


From 5b6db1cc2b71f657af76724032ed54ff0bd8cbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:34 +0000
Subject: [PATCH 25/30] fix: leads of more than two periods are chained through
 their auxiliary variables

---
 pydsge/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index 078895c..8ef2cae 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -864,6 +864,8 @@ class DSGE(Model):
                 var_l = Variable(v.name + "_LEAD" + str(i - 1))
 
                 var_l_1 = v(+1)
+                if i > 2:
+                    var_l_1 = Variable(v.name + "_LEAD" + str(i - 2), date=+1)
 
                 subs_dict[Variable(v.name, date=+i)] = var_l(+1)
                 var_ordering.append(var_l)
-- 
2.43.0


From ddc33984d22a661355ccaaa00e66c7e13b0f3416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:57 +0000
Subject: [PATCH 26/30] fix: reject lagged variables in observable equations
 instead of dropping them

---
 pydsge/parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index 8ef2cae..624027b 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -339,6 +339,13 @@ class DSGE(Model):
             eq = self["obs_equations"][str(obs)]
             ZZ1[eq_i, 0] = eq.subs(subs_dict)
 
+            lagged_var = [x for x in eq.atoms(Variable) if x.date < 0]
+            if lagged_var:
+                raise NotImplementedError(
+                    "Lagged variables in observable equations are not implemented: ",
+                    *lagged_var
+                )
+
             curr_var = filter(lambda x: x.date >= 0, eq.atoms(Variable))
 
             for v in curr_var:
-- 
2.43.0


From 557f96be20d3dfadfd5f09d1c1a3e70235e1b5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:41 +0000
Subject: [PATCH 27/30] fix: models given as a dictionary need no observables

---
 pydsge/gensys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index 88148a0..c3dd16b 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -240,7 +240,7 @@ def gen_sys(
 
     # start
     vv0 = self.vv
-    ZZ0 = None if not len(ZZ0) else ZZ0
+    ZZ0 = None if ZZ0 is None or not len(ZZ0) else ZZ0
 
     # z-space is the space of the original variables
     dimx = len(vv0)
-- 
2.43.0


From 8a02f4137afb0f5c9ea956124ce9d8174ff56591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:21 +0000
Subject: [PATCH 28/30] fix: write_yaml writes the stored model text

---
 pydsge/clsmethods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/clsmethods.py b/pydsge/clsmethods.py
index 7fd5695..dcd0996 100644
--- a/pydsge/clsmethods.py
+++ b/pydsge/clsmethods.py
@@ -112,7 +112,7 @@ def write_yaml(self, filename):
 
     f = open(filename, "w+")
 
-    f.write(self.raw_yaml)
+    f.write(self.fdict["yaml_raw"])
     f.close()
 
     print("Model written to '%s.'" % filename)
-- 
2.43.0


From 83dbcfbf8cc4a7c97310540c4e427d3806422bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:51 +0000
Subject: [PATCH 29/30] fix: post_mean accepts a chain array

---
 pydsge/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/stats.py b/pydsge/stats.py
index 7f0ae45..79939ee 100644
--- a/pydsge/stats.py
+++ b/pydsge/stats.py
@@ -265,7 +265,7 @@ def post_mean(self, chain=None, tune=None):
     """Calculate the mean of the posterior distribution"""
 
     tune = tune or self.get_tune
-    chain = chain or self.get_chain()[-tune:]
+    chain = self.get_chain()[-tune:] if chain is None else chain
 
     return chain.reshape(-1, chain.shape[-1]).mean(axis=0)
 
-- 
2.43.0


From cbf52bea82c35cf41cf950486c8b0d5b4a393331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:26 +0000
Subject: [PATCH 30/30] fix: shocks in the constraint are normalised together
 with its other terms

---
 pydsge/gensys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index c3dd16b..bb396ad 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -249,6 +249,7 @@ def gen_sys(
     # y-space is the space of the original variables augmented by the shocks
     c_arg = list(vv0).index(str(self.const_var))
     fc0 = -fc0 / fb0[c_arg]
+    fd0 = None if fd0 is None else -fd0 / fb0[c_arg]
     fb0 = -fb0 / fb0[c_arg]
 
     # create auxiliary vars for those both in A & C
@@ -293,7 +294,7 @@ def gen_sys(
     CC0 = np.block([[CC0, DD0], [np.zeros((dimeps, AA0.shape[1]))]])
     fb0 = np.pad(fb0, (0, dimeps))
     if fd0 is not None:
-        fc0 = np.hstack((fc0, -fd0))
+        fc0 = np.hstack((fc0, fd0))
     else:
         fc0 = np.pad(fc0, (0, dimeps))
 
-- 
2.43.0

