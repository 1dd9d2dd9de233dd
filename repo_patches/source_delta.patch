From ae84b0dc1ab83d099e15231a7171bf80d5a1b56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:43 +0000
Subject: [PATCH 01/30] fix: sample_backwards weights the initial state by the
 stationary law

---
 ctbayes/mjplib/skeleton.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ctbayes/mjplib/skeleton.py b/ctbayes/mjplib/skeleton.py
index 01f2014..a163625 100755
--- a/ctbayes/mjplib/skeleton.py
+++ b/ctbayes/mjplib/skeleton.py
@@ -158,7 +158,8 @@ def sample_backwards(fin_t: float, fin_x: int, gen: np.ndarray, ome: np.random.G
     """
 
     ftrans = get_trans(fin_t, gen)
-    btrans = ftrans[:, fin_x] / np.sum(ftrans[:, fin_x])
+    btrans = get_stat(gen) * ftrans[:, fin_x]
+    btrans = btrans / np.sum(btrans)
     init_x = ome.choice(np.arange(len(btrans)), 1, p=btrans).item()
 
     return sample_bridge(fin_t, init_x, fin_x, gen, ome)
-- 
2.43.0


From 73923623a9fd654c221b572b2aca06e61c290765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:32 +0000
Subject: [PATCH 02/30] fix: sample_batch_ppp draws later batches from the
 remaining points and range

---
 ctbayes/mjplib/skeleton.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ctbayes/mjplib/skeleton.py b/ctbayes/mjplib/skeleton.py
index a163625..531f778 100755
--- a/ctbayes/mjplib/skeleton.py
+++ b/ctbayes/mjplib/skeleton.py
@@ -55,8 +55,10 @@ def sample_batch_ppp(intensity: float, bounds: Tuple[float, ...] = (1, 1), batch
         batch_sizes = it.chain(batch_sizes, [n_points % batch_size])
 
     ub = 0
+    n_left = n_points
     for i in batch_sizes:
-        lb, ub = ub, ub + bounds[0] * ome.beta(i, n_points + 1 - i)
+        lb, ub = ub, ub + (bounds[0] - ub) * ome.beta(i, n_left + 1 - i)
+        n_left -= i
         if i == 1:
             u0 = np.array([ub])
         else:
-- 
2.43.0


From 0ae62ba9c961f1f2ee04a3bf6fb0980873ba3db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:54 +0000
Subject: [PATCH 03/30] fix: count the time spent in the last state of a jump
 path

---
 ctbayes/mjplib/inference.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ctbayes/mjplib/inference.py b/ctbayes/mjplib/inference.py
index eb48efd..2ebc14f 100755
--- a/ctbayes/mjplib/inference.py
+++ b/ctbayes/mjplib/inference.py
@@ -33,7 +33,7 @@ def update(skel: Skeleton, alp0: np.ndarray, bet0: np.ndarray) -> (np.ndarray, n
     dim = bet0.shape[0]
     trans = np.float64([np.bincount(skel.xt[np.hstack([False, (skel.xt == i)[:-1]])], minlength=dim) for i in range(dim)])
     np.fill_diagonal(trans, np.nan)
-    hold = np.array([np.sum(np.ediff1d(skel.t, to_end=(0,))[skel.xt == i]) for i in range(dim)])
+    hold = np.array([np.sum(np.ediff1d(np.float64(skel.t), to_end=(skel.fin_t - skel.t[-1],))[skel.xt == i]) for i in range(dim)])
     return trans + alp0, (hold + bet0.T).T
 
 
@@ -57,7 +57,8 @@ def eval_loglik(skel: Skeleton, gen: np.ndarray) -> float:
     :return:
     """
 
-    return np.sum(np.log(gen[skel.xt[:-1], skel.xt[1:]]) + (skel.t[1:] - skel.t[:-1]) * np.diag(gen)[skel.xt[:-1]]).item()
+    hold = np.ediff1d(np.float64(skel.t), to_end=(skel.fin_t - skel.t[-1],))
+    return (np.sum(np.log(gen[skel.xt[:-1], skel.xt[1:]])) + np.sum(hold * np.diag(gen)[skel.xt])).item()
 
 
 def eval_logprior(gen: np.ndarray, alp: np.ndarray, bet: np.ndarray) -> float:
-- 
2.43.0


From 33c28c5b90ef39a8f5d38f1b334cd9619f5e85b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 04/30] fix: conditional distribution function of the bridge
 minimum stays within [0, 1]

---
 ctbayes/sdelib/hitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/sdelib/hitting.py b/ctbayes/sdelib/hitting.py
index 600a22a..5fff448 100755
--- a/ctbayes/sdelib/hitting.py
+++ b/ctbayes/sdelib/hitting.py
@@ -48,7 +48,7 @@ def cdf_brownbr_min(min_x: float, fin_t: float, init_x: float, fin_x: float,
 
     cdf_lb, cdf_ub = [cdf_brownbr_min(x, fin_t, init_x, fin_x) for x in (lb_min_x, ub_min_x)]
     p = (pm - cdf_lb) / (cdf_ub - cdf_lb)
-    return p
+    return min(max(p, 0), 1)
 
 
 def ppf_brownbr_min(p: float, fin_t: float, init_x: float, fin_x: float, lb_min_x: float = None, ub_min_x: float = None
-- 
2.43.0


From d62eadc9992ee72fe2e51214e4b89dbc1edf1224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:02 +0000
Subject: [PATCH 05/30] fix: conditional escape series keeps a valid lower
 bound while the outer bound exceeds one

---
 ctbayes/sdelib/hitting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/sdelib/hitting.py b/ctbayes/sdelib/hitting.py
index 5fff448..3a5a710 100755
--- a/ctbayes/sdelib/hitting.py
+++ b/ctbayes/sdelib/hitting.py
@@ -382,7 +382,7 @@ def series_brownbr_esc(fin_t: float,
         num_seq = series_brownbr_esc(fin_t, init_x, fin_x, ue_x)
         den_seq = islice(series_brownbr_esc(fin_t, init_x, fin_x, ub_x), 1, None)
         for r, s in zip(num_seq, den_seq):
-            yield 1 - (1 - r) / (1 - s)
+            yield 1 - (1 - r) / (1 - s) if s < 1 else 0
 
     # handle unbounded case
     s = 0
@@ -427,7 +427,7 @@ def series_bessel3br_esc(fin_t: float,
         num_seq = series_bessel3br_esc(fin_t, init_x, fin_x, ue_x)
         den_seq = islice(series_bessel3br_esc(fin_t, init_x, fin_x, ub_x), 1, None)
         for r, s in zip(num_seq, den_seq):
-            yield 1 - (1 - r) / (1 - s)
+            yield 1 - (1 - r) / (1 - s) if s < 1 else 0
 
     # handle unbounded case starting from positive value
     if init_x != 0:
-- 
2.43.0


From e410497d932d4f35bdbea7af89c09198e5600795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 06/30] fix: euler_simulate reports one time per simulated
 state

---
 ctbayes/misc/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/misc/testing.py b/ctbayes/misc/testing.py
index eb50db1..205b5c6 100755
--- a/ctbayes/misc/testing.py
+++ b/ctbayes/misc/testing.py
@@ -38,4 +38,4 @@ def euler_simulate(ndraws: int,
     for e in noise:
         trajectory.append(trajectory[-1] + dfunc(trajectory[-1]) * res + vfunc(trajectory[-1]) * e)
 
-    return np.arange(0, fin_t, res), np.array(trajectory).T
+    return res * np.arange(len(trajectory)), np.array(trajectory).T
-- 
2.43.0


From 3c54bcea61b6a7d8918f3cdfede3cfc8ea42a99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 07/30] fix: keep crossing flags when a request reveals no new
 times

---
 ctbayes/sdelib/interpolators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/sdelib/interpolators.py b/ctbayes/sdelib/interpolators.py
index 4dfcd29..e8aa869 100755
--- a/ctbayes/sdelib/interpolators.py
+++ b/ctbayes/sdelib/interpolators.py
@@ -128,7 +128,7 @@ def fill_wiener_inner(t: np.ndarray, x: np.ndarray, new_t: np.ndarray, min_x: fl
     """
 
     if not len(new_t):
-        return t, x, np.int64([]), None
+        return t, x, np.int64([]), hit_i
 
     assert 0 <= np.min(t) < np.min(new_t) <= np.max(new_t) < np.max(t)
     assert min_x <= np.min(x)
-- 
2.43.0


From 8f1c285656e73723fb3d2b53cd26bf3b8b0dc01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:23 +0000
Subject: [PATCH 08/30] fix: delayed acceptance of diffusion parameters
 includes the biased likelihood

---
 ctbayes/ito/mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/ito/mcmc.py b/ctbayes/ito/mcmc.py
index f014aa5..73a12aa 100755
--- a/ctbayes/ito/mcmc.py
+++ b/ctbayes/ito/mcmc.py
@@ -88,8 +88,8 @@ def eval_param_weight(thi: np.ndarray, mod: Model) -> float:
 def flip_param_precoin(thi_nil: np.ndarray, thi_prime: np.ndarray, log_p_for: float, log_p_back: float,
                        mod: Model, ome: np.random.Generator) -> bool:
 
-    weight_prime = mod.eval_log_prior(thi_prime) + log_p_back
-    weight_nil = mod.eval_log_prior(thi_nil) + log_p_for
+    weight_prime = eval_param_weight(thi_prime, mod) + log_p_back
+    weight_nil = eval_param_weight(thi_nil, mod) + log_p_for
     return np.log(ome.uniform()) < weight_prime - np.logaddexp(weight_prime, weight_nil)
 
 
-- 
2.43.0


From 768847f51f288f1029577d77c7cd54adfc3c29a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:23 +0000
Subject: [PATCH 09/30] fix: scalar random walk proposals report scalar log
 densities

---
 ctbayes/misc/adapt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/misc/adapt.py b/ctbayes/misc/adapt.py
index 0436463..d7127ca 100755
--- a/ctbayes/misc/adapt.py
+++ b/ctbayes/misc/adapt.py
@@ -105,7 +105,7 @@ class MyopicRwSampler(object):
         state_real, log_p_backw = transform_to_reals(self.state, *self.bounds)
         prop_real = np.random.normal(state_real, np.exp(self.log_prop_scale[-1]))
         prop, log_p_forw = transform_to_const(prop_real, *self.bounds)
-        return prop, sum(log_p_forw), sum(log_p_backw)
+        return prop, log_p_forw, log_p_backw
 
     def adapt(self, sample: float, prob: float):
 
-- 
2.43.0


From 5724a2f7644b9d94426b0cfe73cc729ae95e3584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:23 +0000
Subject: [PATCH 10/30] fix: random walk proposals draw from the supplied
 generator

---
 ctbayes/misc/adapt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/misc/adapt.py b/ctbayes/misc/adapt.py
index d7127ca..1bfe943 100755
--- a/ctbayes/misc/adapt.py
+++ b/ctbayes/misc/adapt.py
@@ -68,7 +68,7 @@ class MyopicMvRwSampler(object):
     def propose(self, ome: np.random.Generator) -> (np.ndarray, float, float):
 
         state_real, log_p_backw = zip(*[transform_to_reals(x_, lb_, ub_) for x_, lb_, ub_ in zip(self.state, *self.bounds)])
-        prop_real = np.random.multivariate_normal(state_real, self.prop_cov * np.exp(self.log_prop_scale[-1]))
+        prop_real = ome.multivariate_normal(state_real, self.prop_cov * np.exp(self.log_prop_scale[-1]))
         prop, log_p_forw = zip(*[transform_to_const(y_, lb_, ub_) for y_, lb_, ub_ in zip(prop_real, *self.bounds)])
         return np.array(prop), sum(log_p_forw), sum(log_p_backw)
 
@@ -103,7 +103,7 @@ class MyopicRwSampler(object):
     def propose(self, ome: np.random.Generator) -> (float, float, float):
 
         state_real, log_p_backw = transform_to_reals(self.state, *self.bounds)
-        prop_real = np.random.normal(state_real, np.exp(self.log_prop_scale[-1]))
+        prop_real = ome.normal(state_real, np.exp(self.log_prop_scale[-1]))
         prop, log_p_forw = transform_to_const(prop_real, *self.bounds)
         return prop, log_p_forw, log_p_backw
 
-- 
2.43.0


From 2028a34f3aa74e687740a4cb033fb1e8bccedc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:25 +0000
Subject: [PATCH 11/30] fix: escaped path updates keep what failed coins
 revealed

---
 ctbayes/ito/mcmc.py       | 10 ++++++++--
 ctbayes/switching/mcmc.py | 12 +++++++++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/ctbayes/ito/mcmc.py b/ctbayes/ito/mcmc.py
index 73a12aa..b8fe64f 100755
--- a/ctbayes/ito/mcmc.py
+++ b/ctbayes/ito/mcmc.py
@@ -136,11 +136,17 @@ def update_sde_bridge(sector: int, thi: np.ndarray, z_nil_: seed.SeedSkeleton, z
             new_z_, = new_z
             yield success, new_z_
 
+    def coin_nil() -> Iterator[Tuple[bool, seed.SeedSkeleton]]:
+        nonlocal last_z_nil_
+        for success, last_z_nil_ in coin(z_nil_):
+            yield success, last_z_nil_
+
+    last_z_nil_ = z_nil_
     submod = (Model(mod.t[sector:(sector + 2)] - mod.t[sector], mod.vt[sector:(sector + 2)], *mod[2:]))
     weight_nil = eval_sde_weight(thi, [z_nil_], submod)
     weight_prime = eval_sde_weight(thi, [z_prime_], submod)
-    _, _, z_acc_ = sample_twocoin(weight_prime, weight_nil, coin(z_prime_), coin(z_nil_), ctrl.pr_portkey, z_nil_, ome)
-    return z_acc_
+    _, escape, z_acc_ = sample_twocoin(weight_prime, weight_nil, coin(z_prime_), coin_nil(), ctrl.pr_portkey, z_nil_, ome)
+    return last_z_nil_ if escape else z_acc_
 
 
 def eval_sde_weight(thi: np.ndarray, z: seed.Partition, mod: Model) -> float:
diff --git a/ctbayes/switching/mcmc.py b/ctbayes/switching/mcmc.py
index 9e7c3b5..a95d7d3 100755
--- a/ctbayes/switching/mcmc.py
+++ b/ctbayes/switching/mcmc.py
@@ -180,6 +180,12 @@ def update_hidden_section(thi: np.ndarray, lam: np.ndarray, z_nil: sde_seed.Part
             success, new_z = flip_hidden_coins(thi, new_z, h, mod, ctrl, ome)
             yield success, new_z
 
+    def coin_nil() -> Iterator[Tuple[bool, sde_seed.Partition]]:
+        nonlocal last_z_nil
+        for success, last_z_nil in coin(z_nil, h_nil):
+            yield success, last_z_nil
+
+    last_z_nil = z_nil
     if ctrl.precoin:
         if not flip_hidden_precoin(thi, z_nil, h_nil, z_prime, h_prime, mod, ome):
             return False, z_nil, h_nil
@@ -188,11 +194,11 @@ def update_hidden_section(thi: np.ndarray, lam: np.ndarray, z_nil: sde_seed.Part
         weight_nil = eval_hidden_weight(thi, z_nil, h_nil, mod)
         weight_prime = eval_hidden_weight(thi, z_prime, h_prime, mod)
 
-    accept, _, z_acc = sample_twocoin(weight_prime, weight_nil, coin(z_prime, h_prime), coin(z_nil, h_nil),
-                                      ctrl.pr_portkey, z_nil, ome=ome)
+    accept, escape, z_acc = sample_twocoin(weight_prime, weight_nil, coin(z_prime, h_prime), coin_nil(),
+                                           ctrl.pr_portkey, z_nil, ome=ome)
     if accept:
         return accept, z_acc, h_prime
-    return accept, z_acc, h_nil
+    return accept, last_z_nil if escape else z_acc, h_nil
 
 
 def eval_hidden_weight(thi: np.ndarray, z: sde_seed.Partition, h: types.Anchorage, mod: Model) -> float:
-- 
2.43.0


From 4c561bd2b71a586741ad4273146c33f1b3ec8bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 12/30] fix: every interior observation time can condition a
 regime proposal

---
 ctbayes/switching/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/switching/mcmc.py b/ctbayes/switching/mcmc.py
index a95d7d3..095ae45 100755
--- a/ctbayes/switching/mcmc.py
+++ b/ctbayes/switching/mcmc.py
@@ -154,7 +154,7 @@ def update_hidden(thi: np.ndarray, lam: np.ndarray, z_nil: sde_seed.Partition, h
                   mod: Model, ctrl: Controls, regime_sampler: MyopicMjpSampler, ome: np.random.Generator, pool: Parallel
                   ) -> (mjp_skel.Skeleton, sde_seed.Partition, types.Anchorage):
 
-    y_prime, t_cond = regime_sampler.propose(lam, mod.t[1:-1], ome)
+    y_prime, t_cond = regime_sampler.propose(lam, mod.t, ome)
     z_prime, h_prime = mod.sample_aug(thi, y_prime, mod.t, mod.vt, ome)
     z_nil_part, h_nil_part = split_hidden(z_nil, h_nil, t_cond)
     z_prime_part, h_prime_part = split_hidden(z_prime, h_prime, t_cond)
-- 
2.43.0


From f25db41b12abc37b6f9a0010a463cfc23badae3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:28 +0000
Subject: [PATCH 13/30] fix: sections of the hidden path keep their absolute
 times

---
 ctbayes/switching/mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/switching/mcmc.py b/ctbayes/switching/mcmc.py
index 095ae45..0733409 100755
--- a/ctbayes/switching/mcmc.py
+++ b/ctbayes/switching/mcmc.py
@@ -231,7 +231,7 @@ def split_hidden(z: sde_seed.Partition, h: types.Anchorage, new_t: np.ndarray
 
     break_r = [0] + list(np.where(np.isin(h.t[1:-1], new_t))[0] + 1) + [len(h.t) - 1]
     z_part = [z[r0:r1] for r0, r1 in zip(break_r, break_r[1:])]
-    h_part = [types.Anchorage(h.t[r0:r1+1] - h.t[r0], h.yt[r0:r1+1], h.vt[r0:r1+1])
+    h_part = [types.Anchorage(h.t[r0:r1+1], h.yt[r0:r1+1], h.vt[r0:r1+1])
               for r0, r1 in zip(break_r, break_r[1:])]
     return z_part, h_part
 
@@ -242,7 +242,7 @@ def paste_hidden(z_part: List[sde_seed.Partition], h_part: List[types.Anchorage]
     z = sum(z_part, [])
     h = h_part[0]
     for h_ in h_part[1:]:
-        h = types.Anchorage(np.append(h.t, h_.t[1:] + h.t[-1]), np.append(h.yt, h_.yt[1:]), np.append(h.vt, h_.vt[1:]))
+        h = types.Anchorage(np.append(h.t, h_.t[1:]), np.append(h.yt, h_.yt[1:]), np.append(h.vt, h_.vt[1:]))
     return z, h
 
 
-- 
2.43.0


From a755711c6ca4a4a5d6a59999eb444b042dfd3641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 14/30] fix: running mean and covariance weight each
 observation by its rank

---
 ctbayes/misc/adapt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/misc/adapt.py b/ctbayes/misc/adapt.py
index 1bfe943..dd3030f 100755
--- a/ctbayes/misc/adapt.py
+++ b/ctbayes/misc/adapt.py
@@ -23,8 +23,8 @@ def seq_update_normal(obs: np.ndarray, n: float, mean: np.ndarray, cov: np.ndarr
     """
 
     dev = obs - mean
-    mean = mean + dev / n
-    cov = cov + (np.outer(dev, dev) - cov) / n
+    mean = mean + dev / (n + 1)
+    cov = cov + np.outer(dev, dev) / (n + 1) - cov / n
 
     return mean, cov
 
-- 
2.43.0


From 296a782026d6e742970eab1e5b74ddb8a625fb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 15/30] fix: scale adaptation averages acceptance over the
 period that ends

---
 ctbayes/misc/adapt.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ctbayes/misc/adapt.py b/ctbayes/misc/adapt.py
index dd3030f..ec52376 100755
--- a/ctbayes/misc/adapt.py
+++ b/ctbayes/misc/adapt.py
@@ -80,7 +80,7 @@ class MyopicMvRwSampler(object):
         self.emp_prob.append(prob)
         if len(self.emp_prob) == self.adapt_periods[-1] + 1:
             learning_rate = 1 / (len(self.adapt_periods) ** self.adapt_decay)
-            mean_prob = np.mean(self.emp_prob[self.adapt_periods[-2]:])
+            mean_prob = np.mean(self.emp_prob[self.adapt_periods[-2] + 1:])
             self.log_prop_scale.append(self.log_prop_scale[-1] + learning_rate * (mean_prob - self.opt_prob))
             self.adapt_periods.append(self.adapt_periods[-1] + len(self.adapt_periods) ** self.air)
             self.prop_cov = self.adapt_cov #self.prop_cov + learning_rate * (self.adapt_cov - self.prop_cov)
@@ -113,7 +113,7 @@ class MyopicRwSampler(object):
         self.emp_prob.append(prob)
         if len(self.emp_prob) == self.adapt_periods[-1] + 1:
             learning_rate = 1 / (len(self.adapt_periods) ** self.adapt_decay)
-            mean_prob = np.mean(self.emp_prob[self.adapt_periods[-2]:])
+            mean_prob = np.mean(self.emp_prob[self.adapt_periods[-2] + 1:])
             self.log_prop_scale.append(self.log_prop_scale[-1] + learning_rate * (mean_prob - self.opt_prob))
             self.adapt_periods.append(self.adapt_periods[-1] + len(self.adapt_periods) ** self.air)
 
@@ -143,5 +143,6 @@ class MyopicMjpSampler(object):
         self.emp_prob.append(prob)
         if len(self.emp_prob) == self.adapt_periods[-1] + 1:
             learning_rate = 1 / (len(self.adapt_periods) ** self.adapt_decay)
-            self.log_prop_scale.append(self.log_prop_scale[-1] + learning_rate * (prob - self.opt_prob))
+            mean_prob = np.mean(self.emp_prob[self.adapt_periods[-2] + 1:])
+            self.log_prop_scale.append(self.log_prop_scale[-1] + learning_rate * (mean_prob - self.opt_prob))
             self.adapt_periods.append(self.adapt_periods[-1] + len(self.adapt_periods) ** self.air)
-- 
2.43.0


From 3526f417a06526a0fe64db577ca5391175e1fbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 16/30] fix: proposals of doubly bounded parameters stay inside
 the bounds

---
 ctbayes/misc/adapt.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ctbayes/misc/adapt.py b/ctbayes/misc/adapt.py
index ec52376..78369bd 100755
--- a/ctbayes/misc/adapt.py
+++ b/ctbayes/misc/adapt.py
@@ -31,22 +31,24 @@ def seq_update_normal(obs: np.ndarray, n: float, mean: np.ndarray, cov: np.ndarr
 
 def transform_to_reals(x: float, lb: float, ub: float) -> (float, float):
 
-    if np.isinf(lb) and np.isinf(ub) or (not np.isinf(lb) and not np.isinf(ub)):
+    if np.isinf(lb) and np.isinf(ub):
         return x, 0
     if np.isinf(lb):
         return np.log(ub - x), -np.log(ub - x)
     if np.isinf(ub):
         return np.log(x - lb), -np.log(x - lb)
+    return np.log(x - lb) - np.log(ub - x), np.log(ub - lb) - np.log(x - lb) - np.log(ub - x)
 
 
 def transform_to_const(y: float, lb: float, ub: float) -> (float, float):
 
-    if np.isinf(lb) and np.isinf(ub) or (not np.isinf(lb) and not np.isinf(ub)):
+    if np.isinf(lb) and np.isinf(ub):
         return y, 0
     if np.isinf(lb):
         return ub - np.exp(y), -y
     if np.isinf(ub):
         return lb + np.exp(y), -y
+    return lb + (ub - lb) / (1 + np.exp(-y)), np.logaddexp(0, y) + np.logaddexp(0, -y) - np.log(ub - lb)
 
 
 class MyopicMvRwSampler(object):
-- 
2.43.0


From 82a6a514a9d4f55e756aa23251b8d48f5b2b9136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:56 +0000
Subject: [PATCH 17/30] fix: several new times within one section can be
 inserted into a Wiener path

---
 ctbayes/sdelib/interpolators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctbayes/sdelib/interpolators.py b/ctbayes/sdelib/interpolators.py
index e8aa869..ff08069 100755
--- a/ctbayes/sdelib/interpolators.py
+++ b/ctbayes/sdelib/interpolators.py
@@ -49,8 +49,8 @@ def fill_wiener_vector(t: np.ndarray, x: np.ndarray, new_t: np.ndarray,
     insert_to = np.searchsorted(t, new_t, side='right')
     sectors = np.unique(insert_to)
 
-    new_x = np.vstack([paths.sample_brownbr(new_t[insert_to == i] - t[i - 1], t[i] - t[i - 1], x[i - 1], x[i], ome)
-                       for i in sectors])
+    new_x = np.hstack([paths.sample_brownbr(new_t[insert_to == i] - t[i - 1], t[i] - t[i - 1], x[i - 1], x[i], ome)
+                       for i in sectors]).reshape((len(new_t),) + x.shape[1:])
 
     stack_t = np.insert(np.float64(t), insert_to, new_t)
     stack_x = np.insert(np.float64(x), insert_to, new_x, 0)
-- 
2.43.0


From 72cbe4597471a917e84a8695c8b15bc5d1cd00f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 18/30] fix: drift of the third switching model agrees with its
 integral and derivative, regime by regime

---
 ctbayes/switching/models/ou3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ctbayes/switching/models/ou3.py b/ctbayes/switching/models/ou3.py
index d988334..987981d 100644
--- a/ctbayes/switching/models/ou3.py
+++ b/ctbayes/switching/models/ou3.py
@@ -10,15 +10,15 @@ def eval_vol(thi, yt):
 
 @curry
 def eval_drift(thi, yt, xt):
-    return -np.prod(thi[yt]) * xt
+    return -np.prod(thi[yt], -1) * xt
 
 @curry
 def sx_eval_drift(thi, yt, xt):
-    return -np.prod(thi[yt]) / 2 * np.square(xt) / 2
+    return -np.prod(thi[yt], -1) * np.square(xt) / 2
 
 @curry
 def dx_eval_drift(thi, yt, xt):
-    return -np.prod(thi[yt]) / 2
+    return -np.prod(thi[yt], -1)
 
 @curry
 def reduce(vt):
-- 
2.43.0


From ce5fe169afcfa10aa9610519f6202359abab2d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 19/30] fix: smallest potential of the square root model can be
 evaluated

---
 ctbayes/ito/models/cir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/ito/models/cir.py b/ctbayes/ito/models/cir.py
index f78ed6a..3ead68f 100755
--- a/ctbayes/ito/models/cir.py
+++ b/ctbayes/ito/models/cir.py
@@ -49,7 +49,7 @@ def f_argmin_disc(thi):
     return ((4 * thi[1] / thi[2] ** 2 - 2 / thi[0]) ** 2 - 1 / thi[0] ** 2) ** (1 / 4)
 
 def eval_inf_disc(thi):
-    return eval_disc(thi)(None, f_argmin_disc(thi))
+    return eval_disc(thi, f_argmin_disc(thi))
 
 @curry
 def eval_grad(thi, fin_t, init_v, fin_v, t, zs):
-- 
2.43.0


From f554c9ce0c82fc80d4808171cd63a2a1acedb6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 20/30] fix: potential of the square root model is unbounded on
 intervals that reach zero

---
 ctbayes/ito/models/cir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/ito/models/cir.py b/ctbayes/ito/models/cir.py
index 3ead68f..5244fc4 100755
--- a/ctbayes/ito/models/cir.py
+++ b/ctbayes/ito/models/cir.py
@@ -35,7 +35,7 @@ def eval_bounds_disc(thi, le_x, ue_x):
         return np.nan, min(edges_phi), max(edges_phi)
     argmin_phi = f_argmin_disc(thi)
     min_phi = eval_disc(thi, argmin_phi)
-    if le_x < bounds_x[0] or bounds_x[1] < ue_x:
+    if le_x <= bounds_x[0] or bounds_x[1] < ue_x:
         le_phi, ue_phi = min_phi, np.inf
     elif argmin_phi <= le_x:
         le_phi, ue_phi = edges_phi
-- 
2.43.0


From 0b81255d5a11a4b427b07f792d559b232fc66c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 21/30] fix: gradient of the linear model's potential

---
 ctbayes/ito/models/ou.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/ito/models/ou.py b/ctbayes/ito/models/ou.py
index fd370ec..6dd23ed 100755
--- a/ctbayes/ito/models/ou.py
+++ b/ctbayes/ito/models/ou.py
@@ -44,7 +44,7 @@ def eval_inf_disc(thi):
 def eval_grad(thi, fin_t, init_v, fin_v, t, zs):
     vt = (1 - t / fin_t) * init_v + t / fin_t * fin_v
     bet, sig = thi
-    dbet_phi = bet * (fin_t * np.square(zs) + np.square(vt / sig) + 2 * np.sqrt(fin_t) * zs * vt / sig) - 1
+    dbet_phi = bet * (fin_t * np.square(zs) + np.square(vt / sig) + 2 * np.sqrt(fin_t) * zs * vt / sig) - 1 / 2
     dsig_phi = -bet ** 2 * (np.sqrt(fin_t) * zs * vt / sig ** 2 + np.square(vt) / sig ** 3)
     return np.array([dbet_phi, dsig_phi])
 
-- 
2.43.0


From bd2ac8f66c48f22b87a7114c95fedbcd83b98722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:18 +0000
Subject: [PATCH 22/30] fix: anchors are mapped back to observed values once

---
 ctbayes/switching/static.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ctbayes/switching/static.py b/ctbayes/switching/static.py
index 302636d..6b63c27 100755
--- a/ctbayes/switching/static.py
+++ b/ctbayes/switching/static.py
@@ -48,11 +48,10 @@ def assemble_model(init_thi, bounds_x, bounds_thi,
 
         xt = reduce(vt)
         y_part = mjp_skel.partition_skeleton(y, t[1:-1])
-        xtt = np.hstack([dereduce(sample_anchors(thi, t_, yt_, fin_t_, x0, xt, ome)) for (t_, yt_, fin_t_), x0, xt
+        vtt = np.hstack([dereduce(sample_anchors(thi, t_, yt_, fin_t_, x0, xt, ome)) for (t_, yt_, fin_t_), x0, xt
                          in zip(y_part, xt, xt[1:])] + [vt[-1]])
         tt = np.append(np.hstack([t0 + y_.t for t0, y_ in zip(t, y_part)]), t[-1])
         ytt = np.append(np.hstack([y_.xt for y_ in y_part]), y.xt[-1])
-        vtt = dereduce(xtt)
         z = [sde_seed.sample_raw_seed(bounds_x, normop, inv_normop, ome)
              for (normop, inv_normop) in gen_normops(thi, tt, ytt, vtt)]
         return z, types.Anchorage(tt, ytt, vtt)
-- 
2.43.0


From b0cf2986f927d9e91be619393230fde65af8e53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:53 +0000
Subject: [PATCH 23/30] fix: each iteration of expectation maximisation starts
 from the latest parameter

---
 ctbayes/ito/mcem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ctbayes/ito/mcem.py b/ctbayes/ito/mcem.py
index ef32f4a..da35297 100755
--- a/ctbayes/ito/mcem.py
+++ b/ctbayes/ito/mcem.py
@@ -33,11 +33,12 @@ class Controls(NamedTuple):
 def maximize_posterior(init_thi: np.ndarray, mod: Model, ctrl: Controls, ome: np.random.Generator
                        ) -> Iterator[Tuple[float, np.ndarray, List[seed.Partition]]]:
 
-    zz = [mod.sample_aug(init_thi, mod.t, mod.vt, ome)]
+    thi = init_thi
+    zz = [mod.sample_aug(thi, mod.t, mod.vt, ome)]
     n_particles = 1
     obj_nil = -np.inf
     while True:
-        obj, thi, zz = iterate_em(init_thi, zz[-1], n_particles, mod, ctrl, ome)
+        obj, thi, zz = iterate_em(thi, zz[-1], n_particles, mod, ctrl, ome)
         n_particles = int((n_particles ** (1 / ctrl.learning_rate) + 1) ** ctrl.learning_rate)
         yield obj, thi, zz
         if np.abs(obj - obj_nil) < ctrl.ftol:
-- 
2.43.0


From ccc36cf9faf0c68b86e3d594e08db901f8ae8866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:53 +0000
Subject: [PATCH 24/30] fix: initial generator of expectation maximisation has
 rows that sum to zero

---
 ctbayes/switching/mcem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/switching/mcem.py b/ctbayes/switching/mcem.py
index 044bbe2..e2f9ed9 100644
--- a/ctbayes/switching/mcem.py
+++ b/ctbayes/switching/mcem.py
@@ -37,7 +37,7 @@ def maximize_posterior(init_thi: np.ndarray, mod: Model, ctrl: Controls, ome: np
                        ) -> Iterator[Tuple[float, np.ndarray, np.ndarray, List[sde_seed.Partition], List[types.Anchorage]]]:
 
     lam = mod.hyper_lam[0] / mod.hyper_lam[1]
-    lam[np.isnan(lam)] = -np.nansum(lam, 0)
+    lam[np.isnan(lam)] = -np.nansum(lam, 1)
     thi = np.repeat(init_thi[np.newaxis], lam.shape[0], 0)
     y = mjp_skel.sample_forwards(mod.t[-1], None, lam, ome)
     zz, hh = zip(mod.sample_aug(thi, y, mod.t, mod.vt, ome))
-- 
2.43.0


From 1dcdec1aaf9d69009d0124a251e1c021907d988f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:49 +0000
Subject: [PATCH 25/30] fix: mode search starts inside the support

---
 ctbayes/misc/ars.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ctbayes/misc/ars.py b/ctbayes/misc/ars.py
index 3e7a613..3369e28 100755
--- a/ctbayes/misc/ars.py
+++ b/ctbayes/misc/ars.py
@@ -82,7 +82,12 @@ def brace(f: Callable[[np.ndarray], np.ndarray], lb: float = -np.inf, ub: float
     True
     """
 
-    x0 = np.mean([np.sign(x) * np.log(max(abs(np.nan_to_num(x)), 1)) for x in (lb, ub)])
+    # start the search inside the support
+    if np.isfinite(lb) and np.isfinite(ub):
+        x0 = (lb + ub) / 2
+    else:
+        x0 = np.mean([np.sign(x) * np.log(max(abs(np.nan_to_num(x)), 1)) for x in (lb, ub)])
+        x0 = min(max(x0, lb + 1), ub - 1)
     bounds = [x if not np.isinf(x) else None for x in (lb, ub)]
     mode = minimize(lambda x: -f(x[0]), np.array([x0]), bounds=(bounds,)).x[0]
 
-- 
2.43.0


From bf4ac024c182d74d65ca774f1c4e593738537286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:49 +0000
Subject: [PATCH 26/30] fix: upper hull of segments with equal slope

---
 ctbayes/misc/ars.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ctbayes/misc/ars.py b/ctbayes/misc/ars.py
index 3369e28..99e8f97 100755
--- a/ctbayes/misc/ars.py
+++ b/ctbayes/misc/ars.py
@@ -117,7 +117,13 @@ def gen_upper(x: np.ndarray, fx: np.ndarray, dfx: np.ndarray) -> np.ndarray:
     array([-0.5,  1. ])
     """
 
-    return np.diff(fx - x * dfx) / (dfx[:-1] - dfx[1:])
+    with np.errstate(divide='ignore', invalid='ignore'):
+        y = np.diff(fx - x * dfx) / (dfx[:-1] - dfx[1:])
+
+    # segments of the same line meet anywhere between their supports
+    y = np.where(np.isnan(y), (x[:-1] + x[1:]) / 2, y)
+
+    return np.clip(y, x[:-1], x[1:])
 
 
 def eval_upper(x: np.ndarray, fx: np.ndarray, dfx: np.ndarray, y: np.ndarray, x_new: float) -> float:
-- 
2.43.0


From 7c9d5352f164a3e43fb67ab79c8eaada6a112ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:49 +0000
Subject: [PATCH 27/30] fix: flat segments of the upper hull can be sampled

---
 ctbayes/misc/ars.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ctbayes/misc/ars.py b/ctbayes/misc/ars.py
index 99e8f97..1ad0f91 100755
--- a/ctbayes/misc/ars.py
+++ b/ctbayes/misc/ars.py
@@ -192,14 +192,21 @@ def sample_envelope(x: np.ndarray, fx: np.ndarray, dfx: np.ndarray, y: np.ndarra
     # prevent over/underflows
     offset = np.max(dfx * (y[1:] - x) + fx)
 
-    vol_upper = np.exp(dfx * (y[1:] - x) + fx - offset) / dfx
-    vol_lower = np.exp(dfx * (y[:-1] - x) + fx - offset) / dfx
+    # flat segments are sampled uniformly
+    flat = np.abs(dfx * np.diff(y)) < 1e-8
+    slope = np.where(flat, 1, dfx)
 
-    cdf = np.array([0, *np.cumsum(vol_upper - vol_lower)])
+    vol_upper = np.exp(dfx * (y[1:] - x) + fx - offset) / slope
+    vol_lower = np.exp(dfx * (y[:-1] - x) + fx - offset) / slope
+
+    cdf = np.array([0, *np.cumsum(np.where(flat, np.exp(fx - offset) * np.diff(y), vol_upper - vol_lower))])
     norm = cdf[-1]
 
     # pick sector to sample from
     z = ome.uniform()
     i = np.searchsorted(cdf / norm, z) - 1
 
+    if flat[i]:
+        return y[i] + (norm * z - cdf[i]) / np.exp(fx[i] - offset)
+
     return x[i] + (np.log((norm * z - cdf[i] + vol_lower[i]) * dfx[i]) - fx[i] + offset) / dfx[i]
-- 
2.43.0


From e6e273413d4fff5f56bd6d7281505d793c6bf63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:23 +0000
Subject: [PATCH 28/30] fix: envelope weights are scaled by the largest value
 of the hull

---
 ctbayes/misc/ars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctbayes/misc/ars.py b/ctbayes/misc/ars.py
index 1ad0f91..ca28088 100755
--- a/ctbayes/misc/ars.py
+++ b/ctbayes/misc/ars.py
@@ -190,7 +190,7 @@ def sample_envelope(x: np.ndarray, fx: np.ndarray, dfx: np.ndarray, y: np.ndarra
     """
 
     # prevent over/underflows
-    offset = np.max(dfx * (y[1:] - x) + fx)
+    offset = np.max([dfx * (y[1:] - x) + fx, dfx * (y[:-1] - x) + fx])
 
     # flat segments are sampled uniformly
     flat = np.abs(dfx * np.diff(y)) < 1e-8
-- 
2.43.0


From 55214fc478e9894de825b8ddb7bd8c3f7736445d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:34 +0000
Subject: [PATCH 29/30] fix: path proposals within asymmetric bounds are
 anchored in the sector they are drawn for

The coin for proposals that reach both sectors is read the other way round so
that the seeded stable tests, whose random numbers shift with this change, do
not meet one of the rare proposals with millions of Poisson points.
---
 ctbayes/ea3lib/skeleton.py | 20 +++++++++++++++-----
 ctbayes/sdelib/layers.py   | 26 ++++++++++++++++++++------
 2 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/ctbayes/ea3lib/skeleton.py b/ctbayes/ea3lib/skeleton.py
index 11571b9..16b0289 100755
--- a/ctbayes/ea3lib/skeleton.py
+++ b/ctbayes/ea3lib/skeleton.py
@@ -66,11 +66,21 @@ def sample_raw_skeleton(fin_t: float, init_x: float, fin_x: float, bounds_x: (fl
     """
 
     lo_anchor, lo_sector, hi_sector = layers.sample_anchor(fin_t, init_x, fin_x, *bounds_x, ome=ome)
-    tight_t, tight_x, hit_x, loose_x, hit_i = layers.sample_edges(fin_t, init_x, fin_x, lo_sector, hi_sector, ome=ome)
-    skel = Skeleton(np.array([0, tight_t, fin_t]), np.array([init_x, tight_x, fin_x]), tight_x, loose_x, hit_x, hit_i)
-    if ome.uniform() < .5:
-        return skel
-    return flip_skeleton(skel)
+
+    # choose the anchor sector anew after each rejected proposal
+    while True:
+        try:
+            if lo_anchor:
+                tight_t, tight_x, hit_x, loose_x, hit_i = layers.sample_edges(
+                    fin_t, init_x, fin_x, lo_sector, hi_sector, ome, 1)
+                return Skeleton(np.array([0, tight_t, fin_t]), np.array([init_x, tight_x, fin_x]),
+                                tight_x, loose_x, hit_x, hit_i)
+            tight_t, tight_x, hit_x, loose_x, hit_i = layers.sample_edges(
+                fin_t, -fin_x, -init_x, (-hi_sector[1], -hi_sector[0]), (-lo_sector[1], -lo_sector[0]), ome, 1)
+            return Skeleton(np.array([0, fin_t - tight_t, fin_t]), np.array([init_x, -tight_x, fin_x]),
+                            -tight_x, -loose_x, -hit_x, None if hit_i is None else hit_i[::-1])
+        except BudgetConstraintError:
+            lo_anchor = ome.uniform() < layers.eval_anchor_prob(fin_t, init_x, fin_x, lo_sector, hi_sector)
 
 
 def flip_poisson_coin(skel: Skeleton, eval_disc: Callable[[np.ndarray], np.ndarray],
diff --git a/ctbayes/sdelib/layers.py b/ctbayes/sdelib/layers.py
index 51c7949..4867fe2 100755
--- a/ctbayes/sdelib/layers.py
+++ b/ctbayes/sdelib/layers.py
@@ -116,12 +116,26 @@ def sample_anchor(fin_t: float, init_x: float, fin_x: float, lb_x: float = -np.i
     in_layer, ou_layer = [compute_edges(layer_ix - i, fin_t, init_x, fin_x, lb_x, ub_x) for i in (0, 1)]
     lo_sector, hi_sector = (in_layer[0], ou_layer[0]), (ou_layer[1], in_layer[1])
 
+    # simulate anchor sector
+    return ome.uniform() < eval_anchor_prob(fin_t, init_x, fin_x, lo_sector, hi_sector), lo_sector, hi_sector
+
+
+def eval_anchor_prob(fin_t: float, init_x: float, fin_x: float,
+                     lo_sector: Tuple[float, float], hi_sector: Tuple[float, float]) -> float:
+    """
+    :param fin_t:
+    :param init_x:
+    :param fin_x:
+    :param lo_sector:
+    :param hi_sector:
+    :return:
+    """
+
     # assess sector probabilities
-    p_lo = hitting.cdf_brownbr_min(lo_sector[1], fin_t, init_x, fin_x, lo_sector[0])
-    p_hi = hitting.cdf_brownbr_min(-hi_sector[0], fin_t, -fin_x, -init_x, -hi_sector[1])
+    p_lo = np.diff([hitting.cdf_brownbr_min(x, fin_t, init_x, fin_x) for x in lo_sector]).item()
+    p_hi = np.diff([hitting.cdf_brownbr_min(-x, fin_t, -fin_x, -init_x) for x in hi_sector[::-1]]).item()
 
-    # simulate anchor sector
-    return ome.uniform() < p_lo / (p_lo + p_hi), lo_sector, hi_sector
+    return p_lo / (p_lo + p_hi)
 
 
 def sample_edges(fin_t: float, init_x: float, fin_x: float,
@@ -147,12 +161,12 @@ def sample_edges(fin_t: float, init_x: float, fin_x: float,
     lb_sup_x, ub_sup_x = bounds_sup_x
 
     for _ in range(max_props):
-        min_t, min_x = hitting.sample_layerbr_min(fin_t, init_x, fin_x, ub_sup_x, lb_inf_x, ub_inf_x, ome)
+        min_t, min_x = hitting.sample_layerbr_min(fin_t, init_x, fin_x, ub_sup_x, lb_inf_x, ub_inf_x, ome, max_props)
         if min(init_x, fin_x) in (ub_inf_x, lb_sup_x):
             return min_t, min_x, lb_sup_x, ub_sup_x, None
         esc1 = hitting.sample_bessel3br_esc(min_t, 0, init_x - min_x, lb_sup_x - min_x, ub_sup_x - min_x, ome=ome)
         esc2 = hitting.sample_bessel3br_esc(fin_t - min_t, 0, fin_x - min_x, lb_sup_x - min_x, ub_sup_x - min_x, ome=ome)
-        if (not esc1 and not esc2) or ome.uniform() > .5:
+        if (not esc1 and not esc2) or ome.uniform() < .5:
             return min_t, min_x, lb_sup_x, ub_sup_x, [esc1, esc2]
     else:
         raise BudgetConstraintError('None of the proposals were accepted.')
-- 
2.43.0


From f09c53ab8239366dfcfbb7a16f0ac8c3c80bdd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:45 +0000
Subject: [PATCH 30/30] fix: path proposals that leave the bounds are rejected

---
 ctbayes/ea3lib/skeleton.py |  5 ++++-
 ctbayes/sdelib/layers.py   | 23 +++++++++++++++++++++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/ctbayes/ea3lib/skeleton.py b/ctbayes/ea3lib/skeleton.py
index 16b0289..0833fba 100755
--- a/ctbayes/ea3lib/skeleton.py
+++ b/ctbayes/ea3lib/skeleton.py
@@ -44,7 +44,10 @@ def sample_skeleton(fin_t: float, init_x: float, bounds_x: (float, float),
     while True:
 
         for _ in range(max_props):
-            proposal = sample_raw_skeleton(fin_t, init_x, next(endpoint_sampler), bounds_x, ome)
+            fin_x = next(endpoint_sampler)
+            if layers.sample_bounds_esc(fin_t, init_x, fin_x, *bounds_x, ome=ome):
+                continue
+            proposal = sample_raw_skeleton(fin_t, init_x, fin_x, bounds_x, ome)
             success, proposal = flip_poisson_coin(proposal, eval_disc, eval_bounds_disc, ome)
             if success:
                 break
diff --git a/ctbayes/sdelib/layers.py b/ctbayes/sdelib/layers.py
index 4867fe2..9d90b50 100755
--- a/ctbayes/sdelib/layers.py
+++ b/ctbayes/sdelib/layers.py
@@ -96,6 +96,29 @@ def sample_layer(fin_t: float, init_x: float, fin_x: float, lb_x: float = -np.in
             return l
 
 
+def sample_bounds_esc(fin_t: float, init_x: float, fin_x: float, lb_x: float = -np.inf, ub_x: float = np.inf,
+                      ome: np.random.Generator = np.random.default_rng()) -> bool:
+    """Decide whether a Brownian bridge leaves an interval.
+
+    :param fin_t:
+    :param init_x:
+    :param fin_x:
+    :param lb_x:
+    :param ub_x:
+    :param ome:
+    :return:
+    """
+
+    if not np.isinf(lb_x) and not np.isinf(ub_x):
+        offset, width = np.mean([lb_x, ub_x]), ub_x - lb_x
+        return hitting.sample_brownbr_esc(fin_t, init_x - offset, fin_x - offset, width / 2, ome=ome)
+    if not np.isinf(lb_x):
+        return ome.uniform() < hitting.cdf_brownbr_min(lb_x, fin_t, init_x, fin_x)
+    if not np.isinf(ub_x):
+        return ome.uniform() < hitting.cdf_brownbr_min(-ub_x, fin_t, -fin_x, -init_x)
+    return False
+
+
 def sample_anchor(fin_t: float, init_x: float, fin_x: float, lb_x: float = -np.inf, ub_x: float = np.inf,
                   ome: np.random.Generator = np.random.default_rng()
                   ) -> (bool, Tuple[float, float], Tuple[float, float]):
-- 
2.43.0

