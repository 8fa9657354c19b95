From 81050681df333f390559434c18d558119833cec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:35 +0000
Subject: [PATCH 01/77] fix: use torch.linalg.cholesky, torch.cholesky was
 removed from PyTorch

---
 beer/dists/normal.py        | 6 +++---
 beer/dists/normalwishart.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/beer/dists/normal.py b/beer/dists/normal.py
index e1279ef..351ce59 100644
--- a/beer/dists/normal.py
+++ b/beer/dists/normal.py
@@ -83,7 +83,7 @@ class NormalFullCovariance(ExponentialFamily):
         prec = nparams[:, dim: dim * (dim + 1)].reshape(-1, dim, dim)
 
         # Log determinant of all the covariance matrix.
-        L = torch.cholesky(cov, upper=False)
+        L = torch.linalg.cholesky(cov)
         logdet = 2 * torch.log(L[:, range(dim), range(dim)]).sum(dim=-1)
 
         # Quadratic term of the log-normalizer: -.5 * mu^T S mu
@@ -153,7 +153,7 @@ class NormalFullCovariance(ExponentialFamily):
             mean = mean.view(1, -1)
             cov = cov.view(1, dim, dim)
 
-        L = torch.cholesky(cov, upper=False)
+        L = torch.linalg.cholesky(cov)
         logdet = 2 * torch.log(L[:, range(dim), range(dim)]).sum(dim=-1)
         prec = cov.inverse()
         Sm = torch.matmul(prec, mean[:, :, None]).view(-1, dim)
@@ -168,7 +168,7 @@ class NormalFullCovariance(ExponentialFamily):
         if len(size) <= 1:
             mean = mean.view(1, -1)
             cov = cov.view(1, dim, dim)
-        L = torch.cholesky(cov, upper=False)
+        L = torch.linalg.cholesky(cov)
         noise = torch.randn(mean.shape[0], nsamples, mean.shape[1],
                             dtype=mean.dtype, device=mean.device)
         retval = mean[:, None, :] + torch.matmul(noise, L.permute(0, 2, 1))
diff --git a/beer/dists/normalwishart.py b/beer/dists/normalwishart.py
index e2edbb6..e233f73 100644
--- a/beer/dists/normalwishart.py
+++ b/beer/dists/normalwishart.py
@@ -192,7 +192,7 @@ class NormalWishart(ExponentialFamily):
             scale_matrix, dof = scale_matrix.view(1, dim, dim), dof.view(1, 1)
 
         idxs = torch.arange(1, dim + 1, dtype=mean.dtype, device=mean.device)
-        L = torch.cholesky(scale_matrix, upper=False)
+        L = torch.linalg.cholesky(scale_matrix)
         logdet = 2 * torch.log(L[:, range(dim), range(dim)]).sum(dim=-1,
                                                                  keepdim=True)
         mean_quad = mean[:, :, None] * mean[:, None, :]
@@ -226,7 +226,7 @@ class NormalWishart(ExponentialFamily):
             scale_matrix, dof = scale_matrix.view(1, dim, dim), dof.view(1, 1)
 
         idxs = torch.arange(1, dim + 1, dtype=mean.dtype, device=mean.device)
-        L = torch.cholesky(scale_matrix, upper=False)
+        L = torch.linalg.cholesky(scale_matrix)
         logdet = 2 * torch.log(L[:, range(dim), range(dim)]).sum(dim=-1,
                                                                  keepdim=True)
         return (.5 * dof * logdet + .5 * dof * dim * math.log(2) \
-- 
2.43.0


From bea38e2003fff210ab20a5e4e7a04facc4a726d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:35 +0000
Subject: [PATCH 02/77] fix: use torch.linalg.eigh, torch.symeig was removed
 from PyTorch

---
 beer/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/utils.py b/beer/utils.py
index b84e66c..d498d93 100644
--- a/beer/utils.py
+++ b/beer/utils.py
@@ -149,7 +149,7 @@ def make_symposdef(mat, eval_threshold=1e-1):
 
     '''
     sym_mat = symmetrize_matrix(mat)
-    evals, evecs = torch.symeig(sym_mat, eigenvectors=True)
+    evals, evecs = torch.linalg.eigh(sym_mat)
 
     threshold = torch.tensor(eval_threshold, dtype=sym_mat.dtype,
                              device=sym_mat.device)
-- 
2.43.0


From e18c07d24d46f07484f816a9c3f790fa60be2834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:35 +0000
Subject: [PATCH 03/77] fix: build the filter bank with numpy versions having
 no np.float alias

---
 beer/features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/features.py b/beer/features.py
index 232b3a0..27524fc 100644
--- a/beer/features.py
+++ b/beer/features.py
@@ -31,7 +31,7 @@ def bark2hz(bark):
 def __triangle(center, start, end, freqs):
     'Create triangular filter.'
     slopes = 1. / (center - start), 1./ (end - center)
-    retval = np.zeros_like(freqs).astype(np.float)
+    retval = np.zeros_like(freqs).astype(float)
     idxs = np.logical_and(freqs >= start, freqs <= center)
     retval[idxs] = np.linspace(slopes[0] * (freqs[idxs][0] - start),
                                slopes[0] * (freqs[idxs][-1] - start),
-- 
2.43.0


From 89a9aebd6ff2265a2e01ff1f9f738b54e762b68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:35 +0000
Subject: [PATCH 04/77] fix: build the filter bank with the sampling rate of
 the signal

---
 beer/cli/subcommands/features/extract.py | 1 +
 beer/features.py                         | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/features/extract.py b/beer/cli/subcommands/features/extract.py
index 02c591b..78ee836 100644
--- a/beer/cli/subcommands/features/extract.py
+++ b/beer/cli/subcommands/features/extract.py
@@ -118,6 +118,7 @@ def main(args, logger):
         if feaconf['apply_fbank']:
             logger.debug(f'applying filter bank (F={feaconf["nfilters"]})')
             fbank = beer.features.create_fbank(feaconf['nfilters'], fft_len,
+                                               srate=feaconf['srate'],
                                                lowfreq=feaconf['cutoff_lfreq'],
                                                highfreq=feaconf['cutoff_hfreq'])
             melspec = melspec @ fbank.T
diff --git a/beer/features.py b/beer/features.py
index 27524fc..299ad96 100644
--- a/beer/features.py
+++ b/beer/features.py
@@ -198,7 +198,8 @@ def fbank(signal, flen=0.025, frate=0.01, hifreq=8000, lowfreq=20, nfilters=26,
     magspec = np.abs(np.fft.rfft(frames, n=fft_len, axis=-1)[:, :-1])
 
     # Filtering.
-    filters = create_fbank(nfilters, fft_len, lowfreq=lowfreq, highfreq=hifreq)
+    filters = create_fbank(nfilters, fft_len, srate=srate, lowfreq=lowfreq,
+                           highfreq=hifreq)
     melspec = magspec @ filters.T
 
     return np.log(melspec + 1)
-- 
2.43.0


From 0c4c9dee08c57224faea07be5f441c9057bd41b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:35 +0000
Subject: [PATCH 05/77] fix: include the last state of each unit in the unit
 posteriors

---
 beer/cli/subcommands/hmm/posteriors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/hmm/posteriors.py b/beer/cli/subcommands/hmm/posteriors.py
index db3edb3..35798b5 100644
--- a/beer/cli/subcommands/hmm/posteriors.py
+++ b/beer/cli/subcommands/hmm/posteriors.py
@@ -31,7 +31,7 @@ def state2phone(posts, start_pdf, end_pdf):
     retval = np.zeros((len(posts), len(start_pdf)))
     for i, unit in enumerate(start_pdf):
         start, end = start_pdf[unit], end_pdf[unit]
-        retval[:, i] = posts[:, start:end].sum(axis=-1)
+        retval[:, i] = posts[:, start:end + 1].sum(axis=-1)
     return retval
 
 
-- 
2.43.0


From 8c85f80c7ce9cef361deac99dba9a53de006f0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:35 +0000
Subject: [PATCH 06/77] fix: scale the log-likelihoods, not the statistics, in
 HMM.posteriors

---
 beer/models/hmm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/models/hmm.py b/beer/models/hmm.py
index 6c5dd2c..a187743 100644
--- a/beer/models/hmm.py
+++ b/beer/models/hmm.py
@@ -116,7 +116,7 @@ class HMM(DiscreteLatentModel):
     def posteriors(self, data, inference_graph=None, scale=1.0):
         if inference_graph is None:
             inference_graph = self.graph
-        stats = self.modelset.sufficient_statistics(data) * scale
-        pc_llhs = self._pc_llhs(stats, inference_graph)
+        stats = self.modelset.sufficient_statistics(data)
+        pc_llhs = scale * self._pc_llhs(stats, inference_graph)
         return self._inference(pc_llhs, inference_graph)[0]
 
-- 
2.43.0


From a17a4fccf0f0cd091e58ebbace9b55145a9b7766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:35 +0000
Subject: [PATCH 07/77] fix: compute the mixture posteriors from the current
 weights' model

---
 beer/models/mixture.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beer/models/mixture.py b/beer/models/mixture.py
index dbebdab..90f90b8 100644
--- a/beer/models/mixture.py
+++ b/beer/models/mixture.py
@@ -108,7 +108,8 @@ class Mixture(DiscreteLatentModel):
 
     def posteriors(self, data):
         stats = self.modelset.sufficient_statistics(data)
-        log_weights = self.weights.expected_natural_parameters().view(1, -1)
+        tensorconf = {'dtype': stats.dtype, 'device': stats.device}
+        log_weights = self._log_weights(tensorconf).view(1, -1)
         per_component_exp_llh = self.modelset.expected_log_likelihood(stats)
         per_component_exp_llh += log_weights
         lognorm = torch.logsumexp(per_component_exp_llh, dim=1).view(-1)
-- 
2.43.0


From 198be70b85ff83aafd52cbff11d7c452b113484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:35 +0000
Subject: [PATCH 08/77] fix: isotropic normal likelihood: map the last real
 value to the precision

---
 beer/dists/isonormalgamma.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/beer/dists/isonormalgamma.py b/beer/dists/isonormalgamma.py
index 82e5388..22c2753 100644
--- a/beer/dists/isonormalgamma.py
+++ b/beer/dists/isonormalgamma.py
@@ -33,7 +33,7 @@ class IsotropicNormalLikelihood(ConjugateLikelihood):
     def pdfvectors_from_rvectors(rvecs):
         dim = rvecs.shape[-1] - 1
         mean = rvecs[:, :dim]
-        log_precision = rvecs[:, -2:-1]
+        log_precision = rvecs[:, -1:]
         precision = torch.exp(log_precision)
         return torch.cat([
             precision * mean,
@@ -47,11 +47,12 @@ class IsotropicNormalLikelihood(ConjugateLikelihood):
         size = pdfvec.shape
         if len(size) == 1:
             pdfvec = pdfvec.view(1, -1)
-        precision = pdfvec[:, -3]
+        dim = pdfvec.shape[-1] - 3
+        precision = pdfvec[:, -3:-2]
         mean = pdfvec[:, :-3] / precision
         if len(size) == 1:
             return mean.view(-1), precision.view(-1)
-        return mean.view(-1, dim), precision.view(-1, dim)
+        return mean.view(-1, dim), precision.view(-1, 1)
 
     def __call__(self, pdfvecs, stats):
         if len(pdfvecs.shape) == 1:
-- 
2.43.0


From 9aac27652b0bce70262fb0bb25f1141a5756ea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:30 +0000
Subject: [PATCH 09/77] fix: no NaN in the filter bank when filters are
 narrower than a FFT bin

---
 beer/features.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/beer/features.py b/beer/features.py
index 299ad96..53c2251 100644
--- a/beer/features.py
+++ b/beer/features.py
@@ -30,16 +30,21 @@ def bark2hz(bark):
 
 def __triangle(center, start, end, freqs):
     'Create triangular filter.'
-    slopes = 1. / (center - start), 1./ (end - center)
     retval = np.zeros_like(freqs).astype(float)
+    # A side of the triangle may be empty if the filters are narrower
+    # than the spacing between two frequencies.
     idxs = np.logical_and(freqs >= start, freqs <= center)
-    retval[idxs] = np.linspace(slopes[0] * (freqs[idxs][0] - start),
-                               slopes[0] * (freqs[idxs][-1] - start),
-                               len(freqs[idxs]))
+    if center > start and idxs.any():
+        slope = 1. / (center - start)
+        retval[idxs] = np.linspace(slope * (freqs[idxs][0] - start),
+                                   slope * (freqs[idxs][-1] - start),
+                                   len(freqs[idxs]))
     idxs = np.logical_and(freqs >= center, freqs <= end)
-    retval[idxs] = np.linspace(slopes[1] * (end - freqs[idxs][0]),
-                               slopes[1] * (end - freqs[idxs][-1]),
-                               len(freqs[idxs]))
+    if end > center and idxs.any():
+        slope = 1. / (end - center)
+        retval[idxs] = np.linspace(slope * (end - freqs[idxs][0]),
+                                   slope * (end - freqs[idxs][-1]),
+                                   len(freqs[idxs]))
     return retval
 
 
-- 
2.43.0


From e159b8ce4c03091a7525ab8c5ed4a0770e290345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:30 +0000
Subject: [PATCH 10/77] fix: Gamma model: consistent sufficient statistics and
 log-likelihood

---
 beer/dists/gamma.py  | 4 ++--
 beer/models/gamma.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/beer/dists/gamma.py b/beer/dists/gamma.py
index 1227181..fdafbee 100644
--- a/beer/dists/gamma.py
+++ b/beer/dists/gamma.py
@@ -22,7 +22,7 @@ class GammaLikelihood(ConjugateLikelihood):
     def sufficient_statistics(data):
         dim, dtype, device = data.shape[1], data.dtype, data.device
         return torch.cat([
-            -data,
+            data,
             data.log(),
             torch.ones(len(data), 1, dtype=data.dtype, device=data.device)
         ], dim=-1)
@@ -86,7 +86,7 @@ class Gamma(ExponentialFamily):
     _std_params_cls = GammaStdParams
 
     def __len__(self):
-        paramshape = self.params.mean.shape
+        paramshape = self.params.shape.shape
         return 1 if len(paramshape) <= 1 else paramshape[0]
 
     @property
diff --git a/beer/models/gamma.py b/beer/models/gamma.py
index c9bb059..011f0aa 100644
--- a/beer/models/gamma.py
+++ b/beer/models/gamma.py
@@ -77,7 +77,7 @@ class Gamma(Model):
             (self.shape - 1), 
             -lnorm,
         ], dim=-1)
-        return self.rate.likelihood_fn(nparams, stats)
+        return self.rate.likelihood_fn(final_nparams, stats)
 
     def accumulate(self, stats):
         dim = stats.shape[-1] // 2
-- 
2.43.0


From 0ced0841034a3b1ab4816106b18906b1129e57e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:30 +0000
Subject: [PATCH 11/77] fix: diagonal covariance Normal: inverse of the natural
 parameters and sets of pdfs

---
 beer/dists/normaldiag.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/beer/dists/normaldiag.py b/beer/dists/normaldiag.py
index 8c55cde..ecba2db 100644
--- a/beer/dists/normaldiag.py
+++ b/beer/dists/normaldiag.py
@@ -57,10 +57,13 @@ class NormalDiagonalCovarianceStdParams(torch.nn.Module):
 
     @classmethod
     def from_natural_parameters(cls, natural_params):
-        dim = (len(natural_params)) // 2
-        np1 = natural_params[:dim]
-        np2 = natural_params[dim:2 * dim]
-        diag_cov = 1. / (-2 * np2)
+        # See "NormalDiagonalCovariance.natural_parameters", the
+        # natural parameters are the precision times the mean and the
+        # precision.
+        dim = natural_params.shape[-1] // 2
+        np1 = natural_params[..., :dim]
+        np2 = natural_params[..., dim:2 * dim]
+        diag_cov = 1. / np2
         mean = diag_cov * np1
         return cls(mean, diag_cov)
 
@@ -101,7 +104,7 @@ class NormalDiagonalCovariance(ExponentialFamily):
         if pdfwise:
             return torch.sum(nparams * stats, dim=-1) - lnorm \
                    + log_basemeasure
-        retval = nparams @ stats.t() - lnorm + log_basemeasure
+        retval = nparams @ stats.t() - lnorm[:, None] + log_basemeasure
         if len(size) <= 1:
             return retval.reshape(-1)
         return retval
@@ -134,7 +137,7 @@ class NormalDiagonalCovariance(ExponentialFamily):
         return torch.cat([
             self.params.mean,
             -.5 * (self.params.diag_cov + self.params.mean ** 2)
-        ])
+        ], dim=-1)
 
     def expected_value(self):
         return self.params.mean
-- 
2.43.0


From 1649d3dbd6f7932d3b87220e59a543e4618abf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:30 +0000
Subject: [PATCH 12/77] fix: full covariance Normal: inverse of the natural
 parameters and single pdf

---
 beer/dists/normal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beer/dists/normal.py b/beer/dists/normal.py
index 351ce59..c7cc0e4 100644
--- a/beer/dists/normal.py
+++ b/beer/dists/normal.py
@@ -41,8 +41,8 @@ class NormalFullCovarianceStdParams(torch.nn.Module):
 
         np1 = natural_params[:, :dim]
         np2 = natural_params[:, dim: dim * (dim + 1)]
-        cov = np2.inverse()
-        mean = cov * np1
+        cov = np2.reshape(-1, dim, dim).inverse()
+        mean = torch.matmul(cov, np1[:, :, None]).reshape(-1, dim)
 
         if len(npsize) == 1:
             return cls(mean.view(-1), cov.view(dim, dim))
@@ -76,6 +76,7 @@ class NormalFullCovariance(ExponentialFamily):
         dim = self.dim
         if len(size) <= 1:
             mean = mean.view(1, -1)
+            cov = cov.view(1, dim, dim)
             nparams = nparams.view(1, -1)
 
         # Get the precision matrix from the natural parameters not
-- 
2.43.0


From 50b5804eec8ec24545f8b17ac12edbd8956c22c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:30 +0000
Subject: [PATCH 13/77] fix: entropy of the exponential family members

---
 beer/dists/basedist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/dists/basedist.py b/beer/dists/basedist.py
index 147e003..a8bf933 100644
--- a/beer/dists/basedist.py
+++ b/beer/dists/basedist.py
@@ -268,5 +268,5 @@ def entropy(pdf):
     nparams = pdf.natural_parameters()
     exp_stats = pdf.expected_sufficient_statistics()
     lnorm = pdf.log_norm()
-    return torch.sum(exp_stats * nparams1, dim=-1) - lnorm
+    return lnorm - torch.sum(exp_stats * nparams, dim=-1)
 
-- 
2.43.0


From 1e07ae9e2a1d8de9e0619890848c7ea58dc70163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:30 +0000
Subject: [PATCH 14/77] fix: views of parameters can be loaded by another
 process

---
 beer/dists/basedist.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/beer/dists/basedist.py b/beer/dists/basedist.py
index a8bf933..caf1c53 100644
--- a/beer/dists/basedist.py
+++ b/beer/dists/basedist.py
@@ -48,12 +48,13 @@ class ParametersView(torch.nn.Module):
         super().__init__()
         self.ref = ref
         self.idx = idx
-        for name in names:
-            def getter(self, name=name):
-                return getattr(self.ref, name)[self.idx]
-            setattr(self.__class__, name, property(fget=getter))
         self.names = names
 
+    def __getattr__(self, name):
+        if name in self.__dict__.get('names', ()):
+            return getattr(self.ref, name)[self.idx]
+        return super().__getattr__(name)
+
     def __repr__(self):
         paramstr = ', '.join([f'{name}={getattr(self, name)}'
                               for name in self.names])
-- 
2.43.0


From 4aff87e6d4019208786aa1ce38fb771e15ad8652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:30 +0000
Subject: [PATCH 15/77] fix: return the natural form of views of subspace
 parameters

---
 beer/models/gsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/gsm.py b/beer/models/gsm.py
index b5a3f32..8bac50b 100644
--- a/beer/models/gsm.py
+++ b/beer/models/gsm.py
@@ -397,7 +397,7 @@ class SubspaceBayesianParameterView(ConjugateBayesianParameter):
         return self.likelihood_fn.parameters_from_pdfvector(self.pdfvec)
 
     def natural_form(self):
-        self.pdfvec
+        return self.pdfvec
 
     def kl_div_posterior_prior(self):
         return self.param.kl_div_posterior_prior()
-- 
2.43.0


From eccbfb49d89055f4444cb72d8f74ef7097810f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:30 +0000
Subject: [PATCH 16/77] fix: create the weights of a mixture set with the type
 of its components

---
 beer/models/mixtureset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beer/models/mixtureset.py b/beer/models/mixtureset.py
index 1a7fb39..57ec81e 100644
--- a/beer/models/mixtureset.py
+++ b/beer/models/mixtureset.py
@@ -46,7 +46,8 @@ class MixtureSet(ModelSet):
         dtype, device = tensor.dtype, tensor.device
 
         ncomp_per_mixture = len(modelset) // size
-        weights = torch.ones(size, ncomp_per_mixture) / ncomp_per_mixture
+        weights = torch.ones(size, ncomp_per_mixture, dtype=dtype,
+                             device=device) / ncomp_per_mixture
         categoricalset = CategoricalSet.create(weights, prior_strength)
         return cls(categoricalset, modelset)
 
-- 
2.43.0


From 410db25c80892933781fd97ce371dc2ffd199b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:30 +0000
Subject: [PATCH 17/77] fix: slice of a mixture set with open or negative
 bounds

---
 beer/models/mixtureset.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beer/models/mixtureset.py b/beer/models/mixtureset.py
index 57ec81e..d390105 100644
--- a/beer/models/mixtureset.py
+++ b/beer/models/mixtureset.py
@@ -124,10 +124,10 @@ class MixtureSet(ModelSet):
             s = slice(key * ncpm, (key + 1) * ncpm)
             return Mixture(self.categoricalset[key], self.modelset[s])
         if isinstance(key, slice):
-            start = 0 if key.start is None else key.start * ncpm
-            stop = len(self) if key.stop is None else key.stop * ncpm
-            step = 1 if key.step is None else key.step * ncpm
-            new_s = slice(start, stop, step)
+            start, stop, step = key.indices(len(self))
+            if step != 1:
+                raise IndexError(f'Unsupported slice step: {step}')
+            new_s = slice(start * ncpm, stop * ncpm)
             return self.__class__(self.categoricalset[key],
                                   self.modelset[new_s])
         raise IndexError(f'Unsupported index: {key}')
-- 
2.43.0


From 506542dee662b91d37e96d718883819b96e4354f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:30 +0000
Subject: [PATCH 18/77] fix: raise UnknownCovarianceType for unknown covariance
 type

---
 beer/models/normal.py    | 2 +-
 beer/models/normalset.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/models/normal.py b/beer/models/normal.py
index 2c63439..bdc2ac9 100644
--- a/beer/models/normal.py
+++ b/beer/models/normal.py
@@ -91,7 +91,7 @@ class Normal(Model):
             :any:`Normal`
 
         '''
-        if cov_type not in cov_type:
+        if cov_type not in _default_param:
             raise UnknownCovarianceType('Unknown covariance type: ' \
                                         f'"{cov_type}"')
 
diff --git a/beer/models/normalset.py b/beer/models/normalset.py
index f1ac5cd..0729a0a 100644
--- a/beer/models/normalset.py
+++ b/beer/models/normalset.py
@@ -89,7 +89,7 @@ class NormalSet(ModelSet):
                           'supported anymore. The argument will be ignored.',
                           DeprecationWarning, stacklevel=2)
 
-        if cov_type not in cov_type:
+        if cov_type not in _default_param:
             raise UnknownCovarianceType('Unknown covariance type: ' \
                                         f'"{cov_type}"')
 
-- 
2.43.0


From 256c659f1667a800f426f1fab9c87887452967d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:30 +0000
Subject: [PATCH 19/77] fix: replace the parameters of the models stored in a
 list

---
 beer/models/basemodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/basemodel.py b/beer/models/basemodel.py
index c190832..a8761da 100644
--- a/beer/models/basemodel.py
+++ b/beer/models/basemodel.py
@@ -90,7 +90,7 @@ class Model(torch.nn.Module, metaclass=abc.ABCMeta):
         for name, child in module.named_children():
             if child in paramsmap:
                 module.add_module(name, paramsmap[child])
-            elif isinstance(child, Model):
+            elif isinstance(child, (Model, torch.nn.ModuleList)):
                 Model._replace_params(child, paramsmap)
 
     def replace_parameters(self, paramsmap):
-- 
2.43.0


From da4ba402357179420a10b05f221cf1eb3d546965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:30 +0000
Subject: [PATCH 20/77] fix: train a bigram phone-loop with forced alignments

---
 beer/models/phoneloop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beer/models/phoneloop.py b/beer/models/phoneloop.py
index ad82538..2ed0d02 100644
--- a/beer/models/phoneloop.py
+++ b/beer/models/phoneloop.py
@@ -187,5 +187,6 @@ class BigramPhoneLoop(HMM):
         else:
             fake_stats = torch.zeros_like(self.categoricalset.mean,
                                           requires_grad=False)
-            retval.update(self.categoricalset.accumulate(fake_stats[None, :]))
+            retval.update(self.categoricalset.accumulate_from_jointresps(
+                            fake_stats[None, :]))
         return retval
-- 
2.43.0


From 0b5c81c8beb37239c913cc98dd8a70e1a936d2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:30 +0000
Subject: [PATCH 21/77] fix: do not modify the input of merged transforms

---
 beer/nnet/neuralnetwork.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/nnet/neuralnetwork.py b/beer/nnet/neuralnetwork.py
index aab4f82..872201a 100644
--- a/beer/nnet/neuralnetwork.py
+++ b/beer/nnet/neuralnetwork.py
@@ -63,7 +63,7 @@ class MergeTransform(torch.nn.Module):
     def forward(self, *inputs):
         retval = self.transforms[0](inputs[0])
         for input_data, transform in zip(inputs[1:], self.transforms[1:]):
-            retval += transform(input_data)
+            retval = retval + transform(input_data)
         return retval
 
 
-- 
2.43.0


From 1afd63dfdfba6ca50da18bcb3aaffe9a8f35c831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:17 +0000
Subject: [PATCH 22/77] fix: follow all the paths of non-emitting states when
 compiling a graph

---
 beer/graph.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/beer/graph.py b/beer/graph.py
index f5457f2..69f8513 100644
--- a/beer/graph.py
+++ b/beer/graph.py
@@ -154,33 +154,35 @@ class Graph:
         del self._states[old_state_id]
 
     def find_next_pdf_ids(self, start_state, init_weight=1.0):
-        to_explore = [(arc, init_weight) for arc in self.arcs(start_state)]
-        visited = set([start_state])
+        # The visited states are relative to a path: several paths may go
+        # through the same non-emitting state.
+        to_explore = [(arc, init_weight, {start_state})
+                      for arc in self.arcs(start_state)]
         while to_explore:
-            arc, weight = to_explore.pop()
+            arc, weight, visited = to_explore.pop()
             pdf_id = self._states[arc.end].pdf_id
             if pdf_id is not None:
                 yield arc.end, weight * arc.weight
             else:
                 if arc.end not in visited:
-                    to_explore += [(arc, arc.weight * weight)
-                                    for arc in self.arcs(arc.end)]
-                    visited.add(arc.end)
+                    to_explore += [(next_arc, arc.weight * weight,
+                                    visited | {arc.end})
+                                    for next_arc in self.arcs(arc.end)]
 
     def find_previous_pdf_ids(self, start_state, init_weight=1.0):
-        to_explore = [(arc, init_weight)
+        to_explore = [(arc, init_weight, {start_state})
                       for arc in self.arcs(start_state, incoming=True)]
-        visited = set([start_state])
         while to_explore:
-            arc, weight = to_explore.pop()
+            arc, weight, visited = to_explore.pop()
             pdf_id = self._states[arc.start].pdf_id
             if pdf_id is not None:
                 yield arc.start, weight * arc.weight
             else:
                 if arc.start not in visited:
-                    to_explore += [(arc, arc.weight * weight)
-                                    for arc in self.arcs(arc.start, incoming=True)]
-                    visited.add(arc.start)
+                    to_explore += [(next_arc, arc.weight * weight,
+                                    visited | {arc.start})
+                                    for next_arc in self.arcs(arc.start,
+                                                              incoming=True)]
 
     def compile(self):
         'Compile the graph.'
-- 
2.43.0


From f7d363e1617b9eaf474a139ffc0481ce8e58b724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:17 +0000
Subject: [PATCH 23/77] fix: replace a state having a self-loop or being the
 start/end of the graph

---
 beer/graph.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/beer/graph.py b/beer/graph.py
index 69f8513..e8dfead 100644
--- a/beer/graph.py
+++ b/beer/graph.py
@@ -137,12 +137,22 @@ class Graph:
         # Connect the unit graph to the main graph.
         to_delete = []
         new_arcs = []
+        new_start = new_states[graph.start_state]
+        new_end = new_states[graph.end_state]
         for arc in self.arcs(old_state_id):
             to_delete.append(arc)
-            new_arcs.append((new_states[graph.end_state], arc.end, arc.weight))
+            # Self-loop of the replaced state.
+            end = new_start if arc.end == old_state_id else arc.end
+            new_arcs.append((new_end, end, arc.weight))
         for arc in self.arcs(old_state_id, incoming=True):
+            if arc.start == old_state_id:
+                continue
             to_delete.append(arc)
-            new_arcs.append((arc.start, new_states[graph.start_state], arc.weight))
+            new_arcs.append((arc.start, new_start, arc.weight))
+        if self.start_state == old_state_id:
+            self.start_state = new_start
+        if self.end_state == old_state_id:
+            self.end_state = new_end
 
         # Add the new arcs.
         for start, end, weight in new_arcs:
-- 
2.43.0


From 6eee3055f42c64012ec04b3c51e5a138f0e28fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:17 +0000
Subject: [PATCH 24/77] fix: skip the utterances missing from the dataset

---
 beer/cli/subcommands/hmm/accumulate.py | 4 ++--
 beer/cli/subcommands/hmm/decode.py     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/beer/cli/subcommands/hmm/accumulate.py b/beer/cli/subcommands/hmm/accumulate.py
index 3aeb481..543e8c2 100644
--- a/beer/cli/subcommands/hmm/accumulate.py
+++ b/beer/cli/subcommands/hmm/accumulate.py
@@ -42,7 +42,7 @@ def main(args, logger):
         try:
             utt = dataset[uttid]
         except KeyError:
-            logger.warning(f'no utterance {utt} in {args.dataset}')
+            logger.warning(f'no utterance {uttid} in {args.dataset}')
             continue
         aligraph = None
         if alis:
@@ -62,7 +62,7 @@ def main(args, logger):
     with open(args.out, 'wb') as f:
         pickle.dump((elbo, count), f)
 
-    logger.info(f'accumulated ELBO over {count} utterances: {float(elbo) / (count * dataset.size) :.3f}.')
+    logger.info(f'accumulated ELBO over {count} utterances: {float(elbo) / (max(count, 1) * dataset.size) :.3f}.')
 
 if __name__ == "__main__":
     main()
diff --git a/beer/cli/subcommands/hmm/decode.py b/beer/cli/subcommands/hmm/decode.py
index 60f10ec..8fa942d 100644
--- a/beer/cli/subcommands/hmm/decode.py
+++ b/beer/cli/subcommands/hmm/decode.py
@@ -67,7 +67,7 @@ def main(args, logger):
         try:
             utt = dataset[uttname]
         except KeyError:
-            logger.warning(f'no utterance {utt} in {args.dataset}')
+            logger.warning(f'no utterance {uttname} in {args.dataset}')
             continue
 
         aligraph = None
-- 
2.43.0


From e9211d8f8ee4b882ed1692ad4f388ecfb12a640a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:17 +0000
Subject: [PATCH 25/77] fix: load the alignment graphs when decoding

---
 beer/cli/subcommands/hmm/decode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/hmm/decode.py b/beer/cli/subcommands/hmm/decode.py
index 8fa942d..45ad3a3 100644
--- a/beer/cli/subcommands/hmm/decode.py
+++ b/beer/cli/subcommands/hmm/decode.py
@@ -51,7 +51,7 @@ def main(args, logger):
     alis = None
     if args.alis:
         logger.debug('loading alignment graphs')
-        alis = np.load(args.alis)
+        alis = np.load(args.alis, allow_pickle=True)
 
     if args.utts:
         if args.utts == '-':
-- 
2.43.0


From 31e8ec19088a6f069c19e62284311ff7e02541b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:17 +0000
Subject: [PATCH 26/77] fix: train command: use an existing optimizer and train
 with all the utterances

---
 beer/cli/subcommands/hmm/train.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/beer/cli/subcommands/hmm/train.py b/beer/cli/subcommands/hmm/train.py
index f36fbdf..a7e1ba3 100644
--- a/beer/cli/subcommands/hmm/train.py
+++ b/beer/cli/subcommands/hmm/train.py
@@ -31,8 +31,14 @@ def main(args, logger):
         dataset = pickle.load(f)
 
     logger.debug('create the optimizer')
-    optim = beer.BayesianModelOptimizer(model.mean_field_factorization(),
-                                        lrate=args.lrate)
+    optim = beer.VBConjugateOptimizer(
+        model.conjugate_bayesian_parameters(keepgroups=True),
+        lrate=args.lrate
+    )
+
+    nutts = len(dataset)
+    batch_size = args.batch_size if args.batch_size > 0 else nutts
+    nbatches = (nutts + batch_size - 1) // batch_size
 
     for epoch in range(1, args.epochs + 1):
         elbo = beer.evidence_lower_bound(datasize=dataset.size)
@@ -42,13 +48,16 @@ def main(args, logger):
             elbo += beer.evidence_lower_bound(model, utt.features,
                                               datasize=dataset.size)
 
-            # Update the model after N utterances.
-            if i % args.batch_size == 0:
+            # Update the model after N utterances (the last batch may
+            # have less utterances).
+            if i % batch_size == 0 or i == nutts:
                 elbo.backward()
                 optim.step()
+                batch = (i - 1) // batch_size + 1
+                batch_nutts = i - (batch - 1) * batch_size
                 logger.info(f'{"epoch=" + str(epoch):<20}  ' \
-                            f'{"batch=" + str(i // args.batch_size) + "/" + str(int(len(dataset) / args.batch_size)):<20} ' \
-                            f'{"ELBO=" + str(round(float(elbo) / (args.batch_size * dataset.size), 3)):<20}')
+                            f'{"batch=" + str(batch) + "/" + str(nbatches):<20} ' \
+                            f'{"ELBO=" + str(round(float(elbo) / (batch_nutts * dataset.size), 3)):<20}')
                 elbo = beer.evidence_lower_bound(datasize=dataset.size)
                 optim.init_step()
 
-- 
2.43.0


From d1251482090c3cb509a87099a9c2deef30bad880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:33 +0000
Subject: [PATCH 27/77] fix: Gamma model: split the expected statistics in two
 halves

---
 beer/models/gamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/gamma.py b/beer/models/gamma.py
index 011f0aa..7c7563d 100644
--- a/beer/models/gamma.py
+++ b/beer/models/gamma.py
@@ -67,7 +67,7 @@ class Gamma(Model):
 
     def expected_log_likelihood(self, stats):
         nparams = self.rate.natural_form()
-        dim = nparams.shape[-1]
+        dim = nparams.shape[-1] // 2
         rate = nparams[:dim]
         log_rate = nparams[dim:]
         lnorm = torch.lgamma(self.shape) - self.shape * log_rate
-- 
2.43.0


From db0cb7aa9900e351963502901f537fbf43d59c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:25 +0000
Subject: [PATCH 28/77] fix: forget the transitions' posteriors of a previous
 evaluation

---
 beer/models/hmm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beer/models/hmm.py b/beer/models/hmm.py
index a187743..291aeb1 100644
--- a/beer/models/hmm.py
+++ b/beer/models/hmm.py
@@ -84,6 +84,8 @@ class HMM(DiscreteLatentModel):
             self.cache['resps'], self.cache['trans_resps'] = all_resps
         else:
             self.cache['resps'] = all_resps
+            # Discard the transitions' posteriors of a previous call.
+            self.cache.pop('trans_resps', None)
         exp_llh = (pc_llhs * self.cache['resps']).sum(dim=-1)
         self.cache['scale'] = scale
 
-- 
2.43.0


From 4f18d55fbff1c553f8fd4b42e3d7e2309f2803cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:14 +0000
Subject: [PATCH 29/77] fix: log-likelihood of a state path with more states
 than frames

---
 beer/models/hmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/hmm.py b/beer/models/hmm.py
index 291aeb1..db1723d 100644
--- a/beer/models/hmm.py
+++ b/beer/models/hmm.py
@@ -55,7 +55,7 @@ class HMM(DiscreteLatentModel):
                 retval = posts, trans_posts
             else:
                 retval = posts
-            llh = pc_llhs[path].sum()
+            llh = pc_llhs[range(len(path)), path].sum()
         else:
             retval, llh = inference_graph.posteriors(pc_llhs,
                                                 trans_posteriors=trans_posteriors)
-- 
2.43.0


From f1f6cb5473f2343cde631e148d37261cbfaea261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:03 +0000
Subject: [PATCH 30/77] fix: bigram phone-loop: transposed weights of a
 CategoricalSet

A set of categorical scores each data against each component (data x
components) whereas the bigram phone-loop read the rows as the
components. SBCategoricalSet follows the same convention.
---
 beer/models/categoricalset.py | 2 +-
 beer/models/phoneloop.py      | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/beer/models/categoricalset.py b/beer/models/categoricalset.py
index 26fba4a..297367d 100644
--- a/beer/models/categoricalset.py
+++ b/beer/models/categoricalset.py
@@ -298,7 +298,7 @@ class SBCategoricalSet(Model):
 
     def expected_log_likelihood(self, stats):
         log_prob, _ = self._log_prob()
-        return stats @ log_prob[:, self.reverse_ordering]
+        return stats @ log_prob[:, self.reverse_ordering].t()
 
     def accumulate(self, stats):
         raise NotImplementedError 
diff --git a/beer/models/phoneloop.py b/beer/models/phoneloop.py
index 2ed0d02..0a13c7b 100644
--- a/beer/models/phoneloop.py
+++ b/beer/models/phoneloop.py
@@ -148,7 +148,8 @@ class BigramPhoneLoop(HMM):
                       'requires_grad': False}
         data = torch.eye(len(self.start_pdf), **tensorconf)
         stats = self.categoricalset.sufficient_statistics(data)
-        log_weights = self.categoricalset.expected_log_likelihood(stats)
+        # Row: left unit, column: entered unit.
+        log_weights = self.categoricalset.expected_log_likelihood(stats).t()
         start_idxs = [value for value in self.start_pdf.values()]
         for i, end_idx in enumerate(self.end_pdf.values()):
             loop_prob = self.graph.trans_log_probs[end_idx, end_idx].exp()
-- 
2.43.0


From 3cf2b86c2155460cb481080991f01141059aa061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:50 +0000
Subject: [PATCH 31/77] fix: prior of a set of stick-breaking categoricals
 ignores the order of the root

---
 beer/models/categoricalset.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/beer/models/categoricalset.py b/beer/models/categoricalset.py
index 297367d..c56313d 100644
--- a/beer/models/categoricalset.py
+++ b/beer/models/categoricalset.py
@@ -164,13 +164,21 @@ def _optimize_root_sb(sb_set, concentration, epochs, optim_cls, optim_args):
 ########################################################################
 # Helper to build the default parameters.
 
+def _residual_mean(root_sb_categorical):
+    # Mean of what remains after each stick. The sticks are broken in
+    # the order of the root.
+    mean = root_sb_categorical.mean[root_sb_categorical.ordering]
+    residual = 1 - mean.cumsum(dim=0)
+    return residual[root_sb_categorical.reverse_ordering]
+
+
 def _default_set_sb_param(n_components, root_sb_categorical, prior_strength):
     mean = root_sb_categorical.mean
     tensorconf = {'dtype': mean.dtype, 'device': mean.device}
     params = torch.ones(n_components, len(root_sb_categorical.stickbreaking), 2,
                         **tensorconf)
     params[:, :, 0] = prior_strength * mean
-    params[:, :, 1] = prior_strength * (1 - mean.cumsum(dim=0))
+    params[:, :, 1] = prior_strength * _residual_mean(root_sb_categorical)
     params = params.reshape(-1, 2)
     prior = Dirichlet.from_std_parameters(params)
     post = root_sb_categorical.stickbreaking.posterior
@@ -251,7 +259,8 @@ class SBCategoricalSet(Model):
                             len(self.root_sb_categorical.stickbreaking), 2,
                             **tensorconf)
         params[:, :, 0] = self.concentration * mean
-        params[:, :, 1] = self.concentration * (1 - mean.cumsum(dim=0))
+        params[:, :, 1] = \
+                self.concentration * _residual_mean(self.root_sb_categorical)
         params = params.reshape(-1, 2)
         self.stickbreaking.prior = Dirichlet.from_std_parameters(params)
 
-- 
2.43.0


From 69a5de7dc4a2589c09bd54597ffd1ae6ee070416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:28 +0000
Subject: [PATCH 32/77] fix: last element of a mixture set with a negative
 index has no component

---
 beer/models/mixtureset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beer/models/mixtureset.py b/beer/models/mixtureset.py
index d390105..3d6c378 100644
--- a/beer/models/mixtureset.py
+++ b/beer/models/mixtureset.py
@@ -121,6 +121,8 @@ class MixtureSet(ModelSet):
     def __getitem__(self, key):
         ncpm = self.n_comp_per_mixture
         if isinstance(key, int):
+            if key < 0:
+                key += len(self)
             s = slice(key * ncpm, (key + 1) * ncpm)
             return Mixture(self.categoricalset[key], self.modelset[s])
         if isinstance(key, slice):
-- 
2.43.0


From de39f4a12b4466d20966328cf7e9c292c14ee10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:56 +0000
Subject: [PATCH 33/77] fix: VAE objective broadcasts frames against each other

The per-frame log-likelihood (n, 1) and the latent divergence (n,) -- or the
(n, 1) log-density of a Normal prior and the (n,) entropy -- were combined
into a (n, n) matrix, so the objective was about n times too large and mixed
the terms of different frames.
---
 beer/models/vae.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/models/vae.py b/beer/models/vae.py
index eba1a7f..8f998e1 100644
--- a/beer/models/vae.py
+++ b/beer/models/vae.py
@@ -73,7 +73,7 @@ class VAE(Model):
         s_samples = self.prior.sufficient_statistics(samples.view(-1, samples.shape[-1]))
         s_samples = s_samples.reshape(len(samples), -1, s_samples.shape[-1]).mean(dim=1)
         self.cache['prior_stats'] = s_samples
-        xent = -self.prior.expected_log_likelihood(s_samples)
+        xent = -self.prior.expected_log_likelihood(s_samples).reshape(-1)
         local_kl_div = xent - ent
         
         # Approximate the expected log-likelihood with the
@@ -81,7 +81,7 @@ class VAE(Model):
         pdfs = self.pdfs(samples.view(-1, samples.shape[-1]))
         r_data = data[:, None, :].repeat(1, nsamples, 1).view(-1, data.shape[-1])
         llh = pdfs(pdfs.sufficient_statistics(r_data), pdfwise=True)
-        llh = llh.reshape(len(data), nsamples, -1).mean(dim=1)
+        llh = llh.reshape(len(data), nsamples).mean(dim=1)
         
         return llh_weight * llh - kl_weight * local_kl_div
 
-- 
2.43.0


From 7491669d65f2700ca37ab241fe0c7ec0504bf0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:02 +0000
Subject: [PATCH 34/77] fix: subspace models keep the computation graph in the
 pdf-vectors of their units

A saved subspace phone-loop came back with leaf tensors requiring gradients,
and updating its units (in-place through their views) failed, so the training
of a subspace phone-loop could not be resumed from its output files.
---
 beer/models/gsm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beer/models/gsm.py b/beer/models/gsm.py
index 8bac50b..fbe93bd 100644
--- a/beer/models/gsm.py
+++ b/beer/models/gsm.py
@@ -443,6 +443,10 @@ def _pdfvecs(params, rvecs):
 # pdf-vectors.
 def _update_params(params, pdfvecs):
     idx = 0
+    # The values stored in the parameters do not keep track of the
+    # computation graph (they have to be saved to / loaded from disk and
+    # views update them in-place).
+    pdfvecs = pdfvecs.detach()
     for param in params:
         totdim = param.stats.numel()
         shape = param.stats.shape
-- 
2.43.0


From 46b40b4c003b24d12466e2424d9bf1a448b3f052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:52 +0000
Subject: [PATCH 35/77] fix: subspace models of units with one component per
 state

The weights of a state with one component have no free parameter; reshaping
the (empty) block of the super-vector failed, so a subspace phone-loop could
not be created with n_normal_per_state: 1.
---
 beer/models/gsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/gsm.py b/beer/models/gsm.py
index fbe93bd..29943ed 100644
--- a/beer/models/gsm.py
+++ b/beer/models/gsm.py
@@ -433,7 +433,7 @@ def _pdfvecs(params, rvecs):
         dim = lhf.sufficient_statistics_dim(zero_stats=False)
         npdfs = len(param)
         totdim = dim * npdfs
-        param_rvecs = rvecs[:, idx: idx + totdim].reshape(-1, dim)
+        param_rvecs = rvecs[:, idx: idx + totdim].reshape(len(rvecs) * npdfs, dim)
         pdfvec = lhf.pdfvectors_from_rvectors(param_rvecs)
         totdim_with_zerostats = npdfs * pdfvec.shape[-1]
         idx += totdim
-- 
2.43.0


From 76ba5b70c95ade4af3ed485084fb89e79fe876b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 36/77] fix: selecting from a view of a subspace parameter
 ignores the view

Indexing a SubspaceBayesianParameterView selected rows of the original
parameter instead of rows of the view (unit[0] of any unit was the first
state of the first unit).
---
 beer/models/gsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/gsm.py b/beer/models/gsm.py
index 29943ed..962a6d9 100644
--- a/beer/models/gsm.py
+++ b/beer/models/gsm.py
@@ -403,7 +403,7 @@ class SubspaceBayesianParameterView(ConjugateBayesianParameter):
         return self.param.kl_div_posterior_prior()
 
     def __getitem__(self, key):
-        return SubspaceBayesianParameterView(key, self.param)
+        return SubspaceBayesianParameterView(key, self)
 
 
 ########################################################################
-- 
2.43.0


From 040471921735f5d9508b261aa023b62c46e23940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:53 +0000
Subject: [PATCH 37/77] fix: no gradient flows through the density of a set of
 mixtures

MixtureSet.expected_log_likelihood returned a value detached from its input:
with a HMM of Gaussian mixtures as prior of a variational auto-encoder the
prior term had no gradient at all.
---
 beer/models/mixtureset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beer/models/mixtureset.py b/beer/models/mixtureset.py
index 3d6c378..5400700 100644
--- a/beer/models/mixtureset.py
+++ b/beer/models/mixtureset.py
@@ -96,7 +96,9 @@ class MixtureSet(ModelSet):
         resps = log_resps.exp()
         self.cache['resps'] = resps
 
-        return log_norm
+        # The gradient w.r.t. the statistics goes through the returned
+        # value, not through the responsibilities.
+        return logsumexp(w_pc_exp_llhs, dim=-1)
 
     def accumulate(self, stats, resps):
         m_resps = self.cache['resps']
-- 
2.43.0


From 7a6da91e1563e8468760699c5f1c901b4676c2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:52 +0000
Subject: [PATCH 38/77] fix: log-density of the flow of the mean lacks its
 normalization constant

---
 beer/nnet/problayers.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/beer/nnet/problayers.py b/beer/nnet/problayers.py
index ba18f4b..b610146 100644
--- a/beer/nnet/problayers.py
+++ b/beer/nnet/problayers.py
@@ -181,14 +181,13 @@ class InverseAutoRegressiveFlow(ProbabilisticLayer):
         means, variances = normal_params
         dim = means.shape[-1]
         if use_mean:
-            flow = means
-            llhs = torch.zeros_like(means[:, 0])
+            noise = torch.zeros_like(means)
         else:
             dtype, device = means.dtype, means.device
             noise = torch.randn(*means.shape, dtype=dtype, device=device)
-            std_dev = variances.sqrt()
-            flow = means + std_dev * noise
-            llhs = -.5 * ((noise ** 2).sum(dim=-1) + dim * math.log(2 * math.pi))
+        std_dev = variances.sqrt()
+        flow = means + std_dev * noise
+        llhs = -.5 * ((noise ** 2).sum(dim=-1) + dim * math.log(2 * math.pi))
         llhs -= .5 * torch.log(variances).sum(dim=-1)
 
         for flow_step in self.nnet_flow:
-- 
2.43.0


From bf1df030892013ee5b0b39728d21560762758171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:52 +0000
Subject: [PATCH 39/77] fix: autoregressive network of one dimension cannot be
 created

---
 beer/nnet/arnet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/nnet/arnet.py b/beer/nnet/arnet.py
index 215fe14..f090e4d 100644
--- a/beer/nnet/arnet.py
+++ b/beer/nnet/arnet.py
@@ -107,7 +107,7 @@ def AutoRegressiveNetwork(dim_in, flow_params_dim, depth, width, activation):
     ordering = range(dim_in)
     layer_connections = []
     for i in range(depth):
-        layer_connections.append(random.choices(range(0, dim_in - 1), k=width))
+        layer_connections.append(random.choices(range(0, max(1, dim_in - 1)), k=width))
     arch = []
     previous_ordering = ordering
     previous_dim = dim_in
-- 
2.43.0


From cc3185c9fc3c96b9abd85ea9a693ea16b62c6406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:44 +0000
Subject: [PATCH 40/77] fix: statistics of a data set overflow or lose
 precision in the type of the features

---
 beer/cli/subcommands/dataset/create.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/beer/cli/subcommands/dataset/create.py b/beer/cli/subcommands/dataset/create.py
index e1121f7..ca9d964 100644
--- a/beer/cli/subcommands/dataset/create.py
+++ b/beer/cli/subcommands/dataset/create.py
@@ -27,9 +27,12 @@ def accumulate(feature_file):
     tot_square_sum = np.zeros(dim)
     tot_counts = 0
     for k in keys:
-        nframes_per_utt = len(feats[k])
-        per_square_sum = (feats[k] ** 2).sum(axis=0)
-        tot_sum += feats[k].sum(axis=0)
+        # The statistics are accumulated in double precision whatever
+        # the type of the features.
+        fea = feats[k].astype(np.float64)
+        nframes_per_utt = len(fea)
+        per_square_sum = (fea ** 2).sum(axis=0)
+        tot_sum += fea.sum(axis=0)
         tot_square_sum += per_square_sum
         tot_counts += nframes_per_utt
     mean = tot_sum / tot_counts
-- 
2.43.0


From f631cd3a11c78ad3b2abdf6b6d380a07436505a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:52 +0000
Subject: [PATCH 41/77] fix: boundary scoring fails on a reference without
 boundary

---
 recipes/aud/utils/score_boundaries.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recipes/aud/utils/score_boundaries.py b/recipes/aud/utils/score_boundaries.py
index f4c2afb..74ce576 100644
--- a/recipes/aud/utils/score_boundaries.py
+++ b/recipes/aud/utils/score_boundaries.py
@@ -30,6 +30,9 @@ def boundaries(utt):
 
 def get_hits(ref_bounds_, hyp_bounds, delta=1):
     hits = 0
+    # No boundary to find (the reference has only one unit).
+    if len(ref_bounds_) == 0:
+        return hits
     ref_bounds = copy.deepcopy(ref_bounds_)
     for b in hyp_bounds:
         diff = np.abs(b - ref_bounds)
-- 
2.43.0


From b151cbc0dfe1072642a7cb2e781dcacb035876c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:42 +0000
Subject: [PATCH 42/77] fix: default prior of the bigram phone loop does not
 exist

---
 beer/cli/subcommands/hmm/mkphoneloopbigram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/hmm/mkphoneloopbigram.py b/beer/cli/subcommands/hmm/mkphoneloopbigram.py
index 00fa5f0..435b21a 100644
--- a/beer/cli/subcommands/hmm/mkphoneloopbigram.py
+++ b/beer/cli/subcommands/hmm/mkphoneloopbigram.py
@@ -25,7 +25,7 @@ priors = {
 
 
 def setup(parser):
-    parser.add_argument('--weights-prior', default='gamma_dirichlet_process',
+    parser.add_argument('--weights-prior', default='hierarchical_dirichlet_process',
                         choices=[key for key in priors],
                         help='type of prior over the phone weights')
     parser.add_argument('phoneloop', help='unigram phone loop')
-- 
2.43.0


From 462a62d8f15b565c4dd5823adde248e2a9bcda6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:43 +0000
Subject: [PATCH 43/77] fix: shmm mksphoneloop -p truncated the given
 posteriors instead of reading them

---
 beer/cli/subcommands/shmm/mksphoneloop.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/shmm/mksphoneloop.py b/beer/cli/subcommands/shmm/mksphoneloop.py
index a9b610c..3f8ea99 100644
--- a/beer/cli/subcommands/shmm/mksphoneloop.py
+++ b/beer/cli/subcommands/shmm/mksphoneloop.py
@@ -158,8 +158,13 @@ def main(args, logger):
         gsm = beer.GSM.create(tpl, args.latent_dim, latent_prior)
         latent_posts = gsm.new_latent_posteriors(len(units))
         if args.posteriors:
-            with open(args.posteriors, 'wb') as f:
+            with open(args.posteriors, 'rb') as f:
                 init_posts = pickle.load(f)[0]
+            min_d = min(len(latent_posts), len(init_posts))
+            latent_posts.params.mean.data[:min_d] = \
+                init_posts.params.mean.data[:min_d]
+            latent_posts.params.log_diag_cov.data[:min_d] = \
+                init_posts.params.log_diag_cov.data[:min_d]
         pdfvecs = gsm.expected_pdfvecs(latent_posts)
         gsm.update_models(units, pdfvecs)
     else:
-- 
2.43.0


From 1cba5af92b7721d329227ff3915077687c17f15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:43 +0000
Subject: [PATCH 44/77] fix: shmm mksphoneloop assigned the classes of other
 groups' units to the modelled ones

---
 beer/cli/subcommands/shmm/mksphoneloop.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/beer/cli/subcommands/shmm/mksphoneloop.py b/beer/cli/subcommands/shmm/mksphoneloop.py
index 3f8ea99..d057569 100644
--- a/beer/cli/subcommands/shmm/mksphoneloop.py
+++ b/beer/cli/subcommands/shmm/mksphoneloop.py
@@ -124,11 +124,12 @@ def main(args, logger):
         class2idx = {uclass: i for i, uclass in enumerate(sorted(classnames))}
         nclasses = len(classnames)
         labels = torch.zeros(nunits).long()
-        unit_idx = 0
-        for unit in ploop.start_pdf:
-            if unit in unit2class:
+        modelsets = ploop.modelset.original_modelset.modelsets
+        offset = sum(len(modelset) for modelset in modelsets[:groupidx])
+        for unit, start_pdf in ploop.start_pdf.items():
+            unit_idx = (start_pdf - offset) // nstates
+            if unit in unit2class and 0 <= unit_idx < nunits:
                 labels[unit_idx] = class2idx[unit2class[unit]]
-                unit_idx += 1
 
 
     logger.debug('create the latent normal prior')
-- 
2.43.0


From 1dd58ac36597ce9db0453aea9823bc676f0ed986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:43 +0000
Subject: [PATCH 45/77] fix: shmm init could not read models and posteriors
 created with broad classes

---
 beer/cli/subcommands/shmm/init.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/shmm/init.py b/beer/cli/subcommands/shmm/init.py
index e22efd9..bfa4aa0 100644
--- a/beer/cli/subcommands/shmm/init.py
+++ b/beer/cli/subcommands/shmm/init.py
@@ -33,7 +33,10 @@ def main(args, logger):
 
     logger.debug('loading the units posterior')
     with open(args.posts, 'rb') as f:
-        latent_posts, nunits, nstates, groupidx = pickle.load(f)
+        latent_posts, nunits, nstates, groupidx, *labels = pickle.load(f)
+    if labels:
+        # The GSMs of the broad classes are the components of a mixture.
+        gsm = gsm.modelset
 
     logger.debug('loading the subspace phoneloop')
     with open(args.sploop, 'rb') as f:
-- 
2.43.0


From 2676eb48c063ebf67d45948354f54621d7dd8171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:43 +0000
Subject: [PATCH 46/77] fix: hshmm init overwrote another group of units than
 the one the subspace models

---
 beer/cli/subcommands/hshmm/init.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beer/cli/subcommands/hshmm/init.py b/beer/cli/subcommands/hshmm/init.py
index 15f32d6..4c52a82 100644
--- a/beer/cli/subcommands/hshmm/init.py
+++ b/beer/cli/subcommands/hshmm/init.py
@@ -69,8 +69,9 @@ def main(args, logger):
     logger.debug('loading the units')
     nunits = len(units_dict[lang])
     units_emissions = sploop[lang].modelset.original_modelset.modelsets[groupidx]
-    if len(units_emissions)// nstates < 2:
-        units_emissions = sploop[lang].modelset.original_modelset.modelsets[1 - groupidx]
+    for group in sploop[lang].modelset.original_modelset.modelsets:
+        if len(group) > len(units_emissions):
+            units_emissions = group
     units = [unit for unit in iterate_units(units_emissions, nunits, nstates)]
 
     logger.info(f'initializing the phone loop')
-- 
2.43.0


From ed44f6278f2f94dec85ed2f14e6e42561758ecd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:09 +0000
Subject: [PATCH 47/77] fix: shmm mksphoneloop ignored -p when given broad
 classes

---
 beer/cli/subcommands/shmm/mksphoneloop.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/beer/cli/subcommands/shmm/mksphoneloop.py b/beer/cli/subcommands/shmm/mksphoneloop.py
index d057569..b37588a 100644
--- a/beer/cli/subcommands/shmm/mksphoneloop.py
+++ b/beer/cli/subcommands/shmm/mksphoneloop.py
@@ -48,6 +48,16 @@ def init_means_precisions_stats(means_precisions, weights):
     return new_stats
 
 
+# Init the latent posteriors with those of another model.
+def init_latent_posts(latent_posts, path):
+    with open(path, 'rb') as f:
+        init_posts = pickle.load(f)[0]
+    min_d = min(len(latent_posts), len(init_posts))
+    latent_posts.params.mean.data[:min_d] = init_posts.params.mean.data[:min_d]
+    latent_posts.params.log_diag_cov.data[:min_d] = \
+        init_posts.params.log_diag_cov.data[:min_d]
+
+
 def setup(parser):
     parser.add_argument('-c', '--classes',
                         help='assign a broad class to each unit')
@@ -159,13 +169,7 @@ def main(args, logger):
         gsm = beer.GSM.create(tpl, args.latent_dim, latent_prior)
         latent_posts = gsm.new_latent_posteriors(len(units))
         if args.posteriors:
-            with open(args.posteriors, 'rb') as f:
-                init_posts = pickle.load(f)[0]
-            min_d = min(len(latent_posts), len(init_posts))
-            latent_posts.params.mean.data[:min_d] = \
-                init_posts.params.mean.data[:min_d]
-            latent_posts.params.log_diag_cov.data[:min_d] = \
-                init_posts.params.log_diag_cov.data[:min_d]
+            init_latent_posts(latent_posts, args.posteriors)
         pdfvecs = gsm.expected_pdfvecs(latent_posts)
         gsm.update_models(units, pdfvecs)
     else:
@@ -177,6 +181,8 @@ def main(args, logger):
                                     args.dlatent_dim, latent_prior,
                                     dlatent_prior)
         latent_posts = gsmset.new_latent_posteriors(len(units))
+        if args.posteriors:
+            init_latent_posts(latent_posts, args.posteriors)
         pdfvecs = gsmset.expected_pdfvecs(latent_posts)
         gsmset.update_models(units, pdfvecs)
         gsm = beer.Mixture.create(gsmset)
-- 
2.43.0


From c8ad89b97382b5f5173894f034e5f14bcf028a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:00 +0000
Subject: [PATCH 48/77] fix: posteriors and decoding overwrote the intermediary
 results of the current ELBO

---
 beer/models/basemodel.py | 16 ++++++++++++++++
 beer/models/hmm.py       |  6 ++++--
 beer/models/mixture.py   |  3 ++-
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/beer/models/basemodel.py b/beer/models/basemodel.py
index a8761da..b8a6561 100644
--- a/beer/models/basemodel.py
+++ b/beer/models/basemodel.py
@@ -1,4 +1,5 @@
 import abc
+from contextlib import contextmanager
 from functools import reduce
 import torch
 from .parameters import ConjugateBayesianParameter
@@ -27,6 +28,21 @@ class Model(torch.nn.Module, metaclass=abc.ABCMeta):
             if module is not self and isinstance(module, Model):
                 module.clear_cache()
 
+    @contextmanager
+    def preserve_cache(self):
+        '''Context in which the model can be evaluated without losing
+        the intermediary results of the current ELBO.
+
+        '''
+        models = [module for module in self.modules()
+                  if isinstance(module, Model)]
+        caches = [dict(model._cache) for model in models]
+        try:
+            yield
+        finally:
+            for model, cache in zip(models, caches):
+                model._cache = cache
+
     def bayesian_parameters(self, paramtype=None, paramfilter=None,
                             keepgroups=False):
         '''Return an iterator over the Bayesian parameters of the model.
diff --git a/beer/models/hmm.py b/beer/models/hmm.py
index db1723d..58dc44f 100644
--- a/beer/models/hmm.py
+++ b/beer/models/hmm.py
@@ -108,7 +108,8 @@ class HMM(DiscreteLatentModel):
         if inference_graph is None:
             inference_graph = self.graph
         stats = self.sufficient_statistics(data)
-        pc_llhs = scale * self._pc_llhs(stats, inference_graph)
+        with self.preserve_cache():
+            pc_llhs = scale * self._pc_llhs(stats, inference_graph)
         best_path = inference_graph.best_path(pc_llhs)
         best_path = [inference_graph.pdf_id_mapping[state]
                      for state in best_path]
@@ -119,6 +120,7 @@ class HMM(DiscreteLatentModel):
         if inference_graph is None:
             inference_graph = self.graph
         stats = self.modelset.sufficient_statistics(data)
-        pc_llhs = scale * self._pc_llhs(stats, inference_graph)
+        with self.preserve_cache():
+            pc_llhs = scale * self._pc_llhs(stats, inference_graph)
         return self._inference(pc_llhs, inference_graph)[0]
 
diff --git a/beer/models/mixture.py b/beer/models/mixture.py
index 90f90b8..2dc25cd 100644
--- a/beer/models/mixture.py
+++ b/beer/models/mixture.py
@@ -110,7 +110,8 @@ class Mixture(DiscreteLatentModel):
         stats = self.modelset.sufficient_statistics(data)
         tensorconf = {'dtype': stats.dtype, 'device': stats.device}
         log_weights = self._log_weights(tensorconf).view(1, -1)
-        per_component_exp_llh = self.modelset.expected_log_likelihood(stats)
+        with self.preserve_cache():
+            per_component_exp_llh = self.modelset.expected_log_likelihood(stats)
         per_component_exp_llh += log_weights
         lognorm = torch.logsumexp(per_component_exp_llh, dim=1).view(-1)
         return torch.exp(per_component_exp_llh - lognorm.view(-1, 1))
-- 
2.43.0


From 5211a4fcb417b1f88963ce876b65691b4849cfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:05 +0000
Subject: [PATCH 49/77] fix: jacobians accumulated the gradients of the
 previous outputs

---
 beer/utils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/beer/utils.py b/beer/utils.py
index d498d93..851f735 100644
--- a/beer/utils.py
+++ b/beer/utils.py
@@ -197,12 +197,14 @@ def jacobians(outputs, inputs):
     dim, dtype, device = len(outputs), outputs.dtype, outputs.device
     jac_matrices = [torch.zeros(dim, len(tensor.view(-1)), dtype=dtype,
                     device=device) for tensor in inputs]
-    for input_tensor in inputs:
-        input_tensor.grad = None
     for i in range(dim):
-        autograd.backward(outputs[i], retain_graph=True)
-        for j, in_tensor in enumerate(inputs):
-            jac_matrices[j][i, :] = in_tensor.grad.view(-1)
+        # Each row has its own gradient: nothing is accumulated from
+        # one output to the other.
+        grads = autograd.grad(outputs[i], inputs, retain_graph=True,
+                              allow_unused=True)
+        for jac_matrix, grad in zip(jac_matrices, grads):
+            if grad is not None:
+                jac_matrix[i, :] = grad.reshape(-1)
     return jac_matrices
 
 
-- 
2.43.0


From dcd7964c6d1b3d1a30dfa34ef91ef1acf5163cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:05 +0000
Subject: [PATCH 50/77] fix: logsumexp of a vector failed

---
 beer/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/utils.py b/beer/utils.py
index 851f735..36dc08e 100644
--- a/beer/utils.py
+++ b/beer/utils.py
@@ -120,7 +120,7 @@ def logsumexp(tensor, dim=0):
          )
     new_size = list(tensor.size())
     del new_size[dim]
-    return retval.view(*new_size)
+    return retval.view(new_size)
 
 
 def symmetrize_matrix(mat):
-- 
2.43.0


From da672805d42b49fea43cbcb92c648c1a458774cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:05 +0000
Subject: [PATCH 51/77] fix: reserve_gpu without logger failed

---
 beer/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beer/utils.py b/beer/utils.py
index 36dc08e..044d03b 100644
--- a/beer/utils.py
+++ b/beer/utils.py
@@ -60,7 +60,8 @@ def reserve_gpu(max_retry=12, logger=None, wait_time=10):
         active_gpus = get_active_gpus()
         for gpu, gpu_idx in gpus.items():
             if gpu not in active_gpus:
-                logger.debug(f'trying to reserve gpu {gpu_idx}')
+                if logger is not None:
+                    logger.debug(f'trying to reserve gpu {gpu_idx}')
                 os.environ['CUDA_VISIBLE_DEVICES'] = str(gpu_idx)
                 # Reserve the GPU by allocating some dummy data.
                 try:
@@ -72,7 +73,8 @@ def reserve_gpu(max_retry=12, logger=None, wait_time=10):
             if gpu_reserved:
                 break
         else:
-            logger.debug(f'waiting {wait_time} seconds...')
+            if logger is not None:
+                logger.debug(f'waiting {wait_time} seconds...')
             time.sleep(wait_time)
         count += 1
 
-- 
2.43.0


From 031aa47da4baee7b755879c108c4b5db71b3612c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:05 +0000
Subject: [PATCH 52/77] fix: compare-alignments counted utterances missing in
 the hypothesis

---
 recipes/timit_v2/utils/compare-alignments.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/recipes/timit_v2/utils/compare-alignments.py b/recipes/timit_v2/utils/compare-alignments.py
index c55760b..376691f 100644
--- a/recipes/timit_v2/utils/compare-alignments.py
+++ b/recipes/timit_v2/utils/compare-alignments.py
@@ -57,6 +57,7 @@ def main():
         except KeyError:
             logging.warning(f'{file} is in reference alignments but not ' \
                             'not the hypothesis alignments')
+            continue
 
         logging.debug(f'processing alignments for utterance {file}')
         for ref_state, hyp_state in zip(ref_ali, hyp_ali):
-- 
2.43.0


From d90f17beb5132ef6e85dcba6f88fe2833a67e8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:05 +0000
Subject: [PATCH 53/77] fix: split.sh left the chunks of a previous split

---
 recipes/aud/utils/parallel/split.sh      | 1 +
 recipes/timit_v2/utils/parallel/split.sh | 1 +
 recipes/zrc2019/utils/parallel/split.sh  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/recipes/aud/utils/parallel/split.sh b/recipes/aud/utils/parallel/split.sh
index ded7940..2743cfc 100755
--- a/recipes/aud/utils/parallel/split.sh
+++ b/recipes/aud/utils/parallel/split.sh
@@ -12,6 +12,7 @@ list=$1
 n_split=$2
 split_dir=$3
 mkdir -p $split_dir
+rm -f $split_dir/x*  # chunks of a previous split
 
 
 nsuff=${#n_split}
diff --git a/recipes/timit_v2/utils/parallel/split.sh b/recipes/timit_v2/utils/parallel/split.sh
index ded7940..2743cfc 100755
--- a/recipes/timit_v2/utils/parallel/split.sh
+++ b/recipes/timit_v2/utils/parallel/split.sh
@@ -12,6 +12,7 @@ list=$1
 n_split=$2
 split_dir=$3
 mkdir -p $split_dir
+rm -f $split_dir/x*  # chunks of a previous split
 
 
 nsuff=${#n_split}
diff --git a/recipes/zrc2019/utils/parallel/split.sh b/recipes/zrc2019/utils/parallel/split.sh
index ded7940..2743cfc 100755
--- a/recipes/zrc2019/utils/parallel/split.sh
+++ b/recipes/zrc2019/utils/parallel/split.sh
@@ -12,6 +12,7 @@ list=$1
 n_split=$2
 split_dir=$3
 mkdir -p $split_dir
+rm -f $split_dir/x*  # chunks of a previous split
 
 
 nsuff=${#n_split}
-- 
2.43.0


From 0c10dc558f0408237f57d4731602633903f77b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:21 +0000
Subject: [PATCH 54/77] fix: concentrations of the last sticks of a
 SBCategoricalSet vanished (NaN beyond 24-53 units)

---
 beer/models/categoricalset.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/beer/models/categoricalset.py b/beer/models/categoricalset.py
index c56313d..f02819a 100644
--- a/beer/models/categoricalset.py
+++ b/beer/models/categoricalset.py
@@ -167,8 +167,9 @@ def _optimize_root_sb(sb_set, concentration, epochs, optim_cls, optim_args):
 def _residual_mean(root_sb_categorical):
     # Mean of what remains after each stick. The sticks are broken in
     # the order of the root.
-    mean = root_sb_categorical.mean[root_sb_categorical.ordering]
-    residual = 1 - mean.cumsum(dim=0)
+    sticks = root_sb_categorical.stickbreaking.posterior.params.concentrations
+    sticks = sticks[root_sb_categorical.ordering]
+    residual = (sticks[:, 1] / sticks.sum(dim=-1)).cumprod(dim=0)
     return residual[root_sb_categorical.reverse_ordering]
 
 
@@ -179,7 +180,8 @@ def _default_set_sb_param(n_components, root_sb_categorical, prior_strength):
                         **tensorconf)
     params[:, :, 0] = prior_strength * mean
     params[:, :, 1] = prior_strength * _residual_mean(root_sb_categorical)
-    params = params.reshape(-1, 2)
+    # The concentrations of the last sticks would otherwise vanish.
+    params = params.reshape(-1, 2).clamp(min=torch.finfo(mean.dtype).eps)
     prior = Dirichlet.from_std_parameters(params)
     post = root_sb_categorical.stickbreaking.posterior
     params = post.params.concentrations.repeat(n_components, 1)
-- 
2.43.0


From a7ef898c27c66850547c6bb54d34ee0f3dfb677c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:25 +0000
Subject: [PATCH 55/77] fix: small concentrations were lost or made negative by
 the natural gradient step after large ones

---
 beer/models/parameters.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beer/models/parameters.py b/beer/models/parameters.py
index 5149a1d..6da4811 100644
--- a/beer/models/parameters.py
+++ b/beer/models/parameters.py
@@ -135,8 +135,10 @@ class ConjugateBayesianParameter(BayesianParameter):
         self.dispatch(before_update=True)
         prior_nparams = self.prior.natural_parameters()
         posterior_nparams = self.posterior.natural_parameters()
-        natural_grad = prior_nparams + self.stats - posterior_nparams
-        new_nparams = posterior_nparams + lrate * natural_grad
+        # Not computed as "posterior + lrate * gradient": small parameters
+        # would be lost (or negative) next to a large former value.
+        new_nparams = (1 - lrate) * posterior_nparams \
+                + lrate * (prior_nparams + self.stats)
         self.posterior.update_from_natural_parameters(new_nparams)
         self.dispatch(before_update=False)
 
-- 
2.43.0


From a2e02c7888ec0cba7e31a004ef7fcccdda1ed927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:24 +0000
Subject: [PATCH 56/77] fix: last concentration of a Dirichlet negative after
 rounding of its natural parameters

---
 beer/dists/dirichlet.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/beer/dists/dirichlet.py b/beer/dists/dirichlet.py
index 8350099..9e44cf4 100644
--- a/beer/dists/dirichlet.py
+++ b/beer/dists/dirichlet.py
@@ -75,6 +75,11 @@ class DirichletStdParams(torch.nn.Module):
         concentrations = natural_params + 1
         concentrations[:, -1] = natural_params[:, -1] \
                                 - (concentrations - 1)[:, :-1].sum(dim=-1) + 1
+        # The last concentration is a difference: rounding errors should
+        # not make it negative.
+        eps = torch.finfo(concentrations.dtype).eps
+        precision = eps * concentrations[:, :-1].sum(dim=-1).clamp(min=1.)
+        concentrations[:, -1] = torch.max(concentrations[:, -1], precision)
 
         if len(npsize) == 1:
             return cls(concentrations.view(-1))
-- 
2.43.0


From 1117b7071357c6e30dc95b44d33145bcd2a0b958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:24 +0000
Subject: [PATCH 57/77] fix: parameters of a categorical pdf-vector overflowed
 for large log-odds

---
 beer/dists/dirichlet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/dists/dirichlet.py b/beer/dists/dirichlet.py
index 9e44cf4..61ea14d 100644
--- a/beer/dists/dirichlet.py
+++ b/beer/dists/dirichlet.py
@@ -34,7 +34,7 @@ class CategoricalLikelihood(ConjugateLikelihood):
         retval = torch.zeros_like(pdfvec, requires_grad=False)
         lnorm = CategoricalLikelihood.log_norm(pdfvec[:, :-1])
         remainder = (-lnorm).exp()
-        retval[:, :-1] = pdfvec[:, :-1].exp() * remainder[:, None]
+        retval[:, :-1] = (pdfvec[:, :-1] - lnorm[:, None]).exp()
         retval[:, -1] = remainder
         if len(size) == 1:
             return retval.view(-1)
-- 
2.43.0


From 9871764a028c78131a4098a544e051156f9c0bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:24 +0000
Subject: [PATCH 58/77] fix: accumulated_statistics of models with several
 parameters is one vector, as documented

---
 beer/models/basemodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/basemodel.py b/beer/models/basemodel.py
index b8a6561..0c5844d 100644
--- a/beer/models/basemodel.py
+++ b/beer/models/basemodel.py
@@ -98,7 +98,7 @@ class Model(torch.nn.Module, metaclass=abc.ABCMeta):
         for param in self.bayesian_parameters():
             post_nparams = param.posterior.natural_parameters()
             prior_nparams = param.prior.natural_parameters()
-            acc_stats.append(post_nparams - prior_nparams)
+            acc_stats.append((post_nparams - prior_nparams).reshape(-1))
         return torch.cat(acc_stats)
 
     @staticmethod
-- 
2.43.0


From 0a3d3a15298d0de64d1cf8641fc2c12318512fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:49 +0000
Subject: [PATCH 59/77] fix: 0-d (scalar) covariance of Normal.create /
 NormalSet.create raised

---
 beer/models/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/normal.py b/beer/models/normal.py
index bdc2ac9..7409ee7 100644
--- a/beer/models/normal.py
+++ b/beer/models/normal.py
@@ -21,7 +21,7 @@ class UnknownCovarianceType(Exception): pass
 # Return a full covariance matrix whether the user has specified a
 # scalar, a diagonal or a full matrix.
 def _full_cov(cov, dim, tensorconf):
-    if len(cov.shape) == 1 and cov.shape[0] == 1:
+    if cov.numel() == 1 and len(cov.shape) <= 1:
         return cov * torch.eye(dim, **tensorconf)
     elif len(cov.shape) == 1:
         return cov.diag()
-- 
2.43.0


From 0dde62039ada82fb7cdc0ecd580d54faeb835346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:39 +0000
Subject: [PATCH 60/77] fix: failed parallel jobs ended with status 0

---
 recipes/aud/utils/parallel/submit_parallel.sh | 3 +++
 recipes/timit_v2/utils/parallel/sge/job.qsub  | 2 +-
 recipes/zrc2019/utils/parallel/sge/job.qsub   | 2 +-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/recipes/aud/utils/parallel/submit_parallel.sh b/recipes/aud/utils/parallel/submit_parallel.sh
index 4987ea8..ae0aea5 100755
--- a/recipes/aud/utils/parallel/submit_parallel.sh
+++ b/recipes/aud/utils/parallel/submit_parallel.sh
@@ -24,6 +24,7 @@ utils/parallel/split.sh $list $njobs $outdir/split
 # Submit the jobs
 utils/parallel/$parallel_env/parallel.sh $name "$opts" $outdir/split "$cmd" \
     $outdir/log 2>&1 > $outdir/log/parallel.log
+status=$?
 
 # Check if something went wrong.
 nerrors=$(cat $outdir/log/* | grep ERROR | wc -l)
@@ -33,3 +34,5 @@ if [ ! "$nwarnings" = "0" ] || [ ! "$nerrors" = "0" ]; then
          "errors (see $outdir/log/*) <!>"
 fi
 
+exit $status
+
diff --git a/recipes/timit_v2/utils/parallel/sge/job.qsub b/recipes/timit_v2/utils/parallel/sge/job.qsub
index 9f578b8..2c93117 100644
--- a/recipes/timit_v2/utils/parallel/sge/job.qsub
+++ b/recipes/timit_v2/utils/parallel/sge/job.qsub
@@ -18,7 +18,7 @@ echo "# ${cmd}"
 . path.sh
 
 # Run the command.
-time $cmd
+time $cmd || exit 1
 
 echo "job succeeded on date $(date)"
 
diff --git a/recipes/zrc2019/utils/parallel/sge/job.qsub b/recipes/zrc2019/utils/parallel/sge/job.qsub
index 9f578b8..2c93117 100644
--- a/recipes/zrc2019/utils/parallel/sge/job.qsub
+++ b/recipes/zrc2019/utils/parallel/sge/job.qsub
@@ -18,7 +18,7 @@ echo "# ${cmd}"
 . path.sh
 
 # Run the command.
-time $cmd
+time $cmd || exit 1
 
 echo "job succeeded on date $(date)"
 
-- 
2.43.0


From d30c2163f0349623e6c37e2e704b384a52a60c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:39 +0000
Subject: [PATCH 61/77] fix: features were removed when their archive could not
 be created

---
 recipes/aud/steps/extract_features.sh     | 2 +-
 recipes/aud/steps/extract_mbn_features.sh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/recipes/aud/steps/extract_features.sh b/recipes/aud/steps/extract_features.sh
index 9f0283f..be8ccb1 100755
--- a/recipes/aud/steps/extract_features.sh
+++ b/recipes/aud/steps/extract_features.sh
@@ -72,7 +72,7 @@ if [ ! -f $feadir/${feaname}.npz ]; then
         $feadir || exit 1
 
     # Put all the features files into a single archive.
-    beer features archive $feadir/${feaname}_tmp $feadir/${feaname}.npz
+    beer features archive $feadir/${feaname}_tmp $feadir/${feaname}.npz || exit 1
 
     # We don't need the original features anymore as they are stored in
     # the archive.
diff --git a/recipes/aud/steps/extract_mbn_features.sh b/recipes/aud/steps/extract_mbn_features.sh
index 5ca3577..2177fc5 100755
--- a/recipes/aud/steps/extract_mbn_features.sh
+++ b/recipes/aud/steps/extract_mbn_features.sh
@@ -66,7 +66,7 @@ if [ ! -f $feadir/${feaname}.npz ]; then
         $feadir || exit 1
 
     # Put all the features files into a single archive.
-    beer features archive $feadir/${feaname}_tmp $feadir/${feaname}.npz
+    beer features archive $feadir/${feaname}_tmp $feadir/${feaname}.npz || exit 1
 
     # We don't need the original features anymore as they are stored in
     # the archive.
-- 
2.43.0


From 733211a08d3ef6e2757ccbfbdd31269a736d9c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:39 +0000
Subject: [PATCH 62/77] fix: transcriptions left by an interrupted run were
 added to the result

---
 recipes/aud/steps/align.sh  | 3 +++
 recipes/aud/steps/decode.sh | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/recipes/aud/steps/align.sh b/recipes/aud/steps/align.sh
index eba2d8d..d100d94 100755
--- a/recipes/aud/steps/align.sh
+++ b/recipes/aud/steps/align.sh
@@ -60,6 +60,9 @@ mkdir -p $outdir
 if [ ! -f $outdir/trans ]; then
     echo "decoding $dataset dataset..."
 
+    # Transcriptions left by an interrupted run.
+    rm -f $outdir/trans_*
+
     cmd="beer hmm decode --per-frame -a $alis -s $acoustic_scale --utts - \
          $model $dataset >$outdir/trans_JOBID"
     utils/parallel/submit_parallel.sh \
diff --git a/recipes/aud/steps/decode.sh b/recipes/aud/steps/decode.sh
index a17f940..9181b10 100755
--- a/recipes/aud/steps/decode.sh
+++ b/recipes/aud/steps/decode.sh
@@ -65,6 +65,9 @@ mkdir -p $outdir
 if [ ! -f $outdir/trans ]; then
     echo "decoding $dataset dataset..."
 
+    # Transcriptions left by an interrupted run.
+    rm -f $outdir/trans_*
+
     cmd="beer hmm decode $per_frame -s $acoustic_scale --utts - \
          $model $dataset >$outdir/trans_JOBID"
     utils/parallel/submit_parallel.sh \
-- 
2.43.0


From efc46a500ec22ac1fef4c550f784888ceeb6e27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:39 +0000
Subject: [PATCH 63/77] fix: add_corpus.sh kept lines that only mention one of
 the utterances

---
 recipes/aud/utils/add_corpus.sh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/recipes/aud/utils/add_corpus.sh b/recipes/aud/utils/add_corpus.sh
index d3d90ad..3b766e1 100755
--- a/recipes/aud/utils/add_corpus.sh
+++ b/recipes/aud/utils/add_corpus.sh
@@ -33,8 +33,10 @@ outdir=$2
 for x in train dev test; do
     mkdir -p $outdir/$x
     cat $corpus/$x/uttids | shuf | head -n $max_utts >> $outdir/$x/uttids
-    cat $corpus/$x/wav.scp | grep -w -f $outdir/$x/uttids >> $outdir/$x/wav.scp
-    cat $corpus/$x/trans | grep -w -f $outdir/$x/uttids >> $outdir/$x/trans
+    awk 'NR == FNR {utts[$1]; next} $1 in utts' $outdir/$x/uttids \
+        $corpus/$x/wav.scp >> $outdir/$x/wav.scp
+    awk 'NR == FNR {utts[$1]; next} $1 in utts' $outdir/$x/uttids \
+        $corpus/$x/trans >> $outdir/$x/trans
 done
 
 mkdir -p $outdir/lang
-- 
2.43.0


From 31cfe77e0b1cccbdd5d35c77f99b71e1903231e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:39 +0000
Subject: [PATCH 64/77] fix: score_aud.sh ignored --au-mapping

---
 recipes/aud/steps/score_aud.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/aud/steps/score_aud.sh b/recipes/aud/steps/score_aud.sh
index fbdbe95..88928fa 100755
--- a/recipes/aud/steps/score_aud.sh
+++ b/recipes/aud/steps/score_aud.sh
@@ -40,7 +40,7 @@ if [ ! -f $oudir/au_phone_counts.yml ]; then
     echo "creating a mapping acoustic unit -> phone"
     python utils/maxoverlap_mapping.py $ref_ali $hyp_ali \
         --counts $outdir/au_phone_counts.yml $outdir/au_phone
-    au_mapping=$outdir/au_phone
+    au_mapping=${au_mapping:-$outdir/au_phone}
 fi
 
 if [ ! -f $outdir/eq_per ]; then
-- 
2.43.0


From 0fd46f0857f178f6980d0c08e2d9ce4e145b3ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:55 +0000
Subject: [PATCH 65/77] fix: failed updates of the training recipes were hidden
 by the pipe to the log

---
 recipes/aud/steps/aud.sh                 | 2 ++
 recipes/aud/steps/aud_bigram.sh          | 2 ++
 recipes/aud/steps/hsubspace_aud.sh       | 1 +
 recipes/aud/steps/hsubspace_monophone.sh | 1 +
 recipes/aud/steps/monophone.sh           | 2 ++
 recipes/aud/steps/subspace_aud.sh        | 1 +
 recipes/aud/steps/subspace_monophone.sh  | 1 +
 7 files changed, 10 insertions(+)

diff --git a/recipes/aud/steps/aud.sh b/recipes/aud/steps/aud.sh
index f8a8aff..5035d0d 100755
--- a/recipes/aud/steps/aud.sh
+++ b/recipes/aud/steps/aud.sh
@@ -2,6 +2,8 @@
 
 . path.sh
 
+set -o pipefail
+
 acoustic_scale=1.
 seed=1
 prior=gamma_dirichlet_process
diff --git a/recipes/aud/steps/aud_bigram.sh b/recipes/aud/steps/aud_bigram.sh
index 0f66137..3f0d9c5 100755
--- a/recipes/aud/steps/aud_bigram.sh
+++ b/recipes/aud/steps/aud_bigram.sh
@@ -2,6 +2,8 @@
 
 . path.sh
 
+set -o pipefail
+
 acoustic_scale=1.
 prior=gamma_dirichlet_process
 parallel_env=sge
diff --git a/recipes/aud/steps/hsubspace_aud.sh b/recipes/aud/steps/hsubspace_aud.sh
index 8467708..27aa250 100755
--- a/recipes/aud/steps/hsubspace_aud.sh
+++ b/recipes/aud/steps/hsubspace_aud.sh
@@ -2,6 +2,7 @@
 
 . path.sh
 set -e
+set -o pipefail
 
 echo "$0 $@"
 
diff --git a/recipes/aud/steps/hsubspace_monophone.sh b/recipes/aud/steps/hsubspace_monophone.sh
index af56d49..6db5db9 100755
--- a/recipes/aud/steps/hsubspace_monophone.sh
+++ b/recipes/aud/steps/hsubspace_monophone.sh
@@ -2,6 +2,7 @@
 
 . path.sh
 set -e
+set -o pipefail
 
 echo "$0 $@"
 
diff --git a/recipes/aud/steps/monophone.sh b/recipes/aud/steps/monophone.sh
index 320db1b..a472761 100755
--- a/recipes/aud/steps/monophone.sh
+++ b/recipes/aud/steps/monophone.sh
@@ -2,6 +2,8 @@
 
 . path.sh
 
+set -o pipefail
+
 prior=gamma_dirichlet_process
 parallel_env=sge
 parallel_opts=""
diff --git a/recipes/aud/steps/subspace_aud.sh b/recipes/aud/steps/subspace_aud.sh
index ad51a17..7d950ad 100755
--- a/recipes/aud/steps/subspace_aud.sh
+++ b/recipes/aud/steps/subspace_aud.sh
@@ -1,6 +1,7 @@
 #!/usr/bin/env bash
 
 set -e
+set -o pipefail
 
 . path.sh
 
diff --git a/recipes/aud/steps/subspace_monophone.sh b/recipes/aud/steps/subspace_monophone.sh
index a9bd2ee..7f8e9e2 100755
--- a/recipes/aud/steps/subspace_monophone.sh
+++ b/recipes/aud/steps/subspace_monophone.sh
@@ -1,6 +1,7 @@
 #!/usr/bin/env bash
 
 set -e
+set -o pipefail
 
 . path.sh
 
-- 
2.43.0


From 7e2f05dd65da04e09b25f1e9f9279c75e7ce0e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:55 +0000
Subject: [PATCH 66/77] fix: statistics left by an interrupted epoch were
 counted again

---
 recipes/aud/steps/aud.sh        | 3 +++
 recipes/aud/steps/aud_bigram.sh | 3 +++
 recipes/aud/steps/monophone.sh  | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/recipes/aud/steps/aud.sh b/recipes/aud/steps/aud.sh
index 5035d0d..e697973 100755
--- a/recipes/aud/steps/aud.sh
+++ b/recipes/aud/steps/aud.sh
@@ -110,6 +110,9 @@ if [ ! -f $outdir/final.mdl ] || [ ! -f $outdir/${epochs}.mdl ]; then
     while [ $((++epoch)) -le $epochs ]; do
         echo "epoch: $epoch"
 
+        # Statistics left by an interrupted run.
+        rm -f $outdir/epoch${epoch}/elbo_*.pkl
+
         # Accumulate the statistics in parallel.
         cmd="beer -s $seed  hmm accumulate -s $acoustic_scale \
              $outdir/$mdl $dataset \
diff --git a/recipes/aud/steps/aud_bigram.sh b/recipes/aud/steps/aud_bigram.sh
index 3f0d9c5..d21ec03 100755
--- a/recipes/aud/steps/aud_bigram.sh
+++ b/recipes/aud/steps/aud_bigram.sh
@@ -93,6 +93,9 @@ if [ ! -f $outdir/final.mdl ] || [ ! -f $outdir/${epochs}.mdl ]; then
     while [ $((++epoch)) -le $epochs ]; do
         echo "epoch: $epoch"
 
+        # Statistics left by an interrupted run.
+        rm -f $outdir/epoch${epoch}/elbo_*.pkl
+
         # Accumulate the statistics in parallel.
         cmd="beer hmm accumulate -s $acoustic_scale \
              $outdir/$mdl $dataset \
diff --git a/recipes/aud/steps/monophone.sh b/recipes/aud/steps/monophone.sh
index a472761..915193a 100755
--- a/recipes/aud/steps/monophone.sh
+++ b/recipes/aud/steps/monophone.sh
@@ -126,6 +126,9 @@ if [ ! -f $outdir/final.mdl ] || [ ! -f $outdir/${epochs}.mdl ]; then
     while [ $((++epoch)) -le $epochs ]; do
         echo "epoch: $epoch"
 
+        # Statistics left by an interrupted run.
+        rm -f $outdir/epoch${epoch}/elbo_*.pkl
+
         # Accumulate the statistics in parallel.
         cmd="beer hmm accumulate --alis $outdir/alis.npz $outdir/$mdl \
                 $dataset $outdir/epoch${epoch}/elbo_JOBID.pkl"
-- 
2.43.0


From 9d1694fe43fcb9c3ad5424da51ca0681617161e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:55 +0000
Subject: [PATCH 67/77] fix: final model stayed the former one when an extended
 training was interrupted

---
 recipes/aud/steps/aud.sh        | 3 +++
 recipes/aud/steps/aud_bigram.sh | 3 +++
 recipes/aud/steps/monophone.sh  | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/recipes/aud/steps/aud.sh b/recipes/aud/steps/aud.sh
index e697973..15f5584 100755
--- a/recipes/aud/steps/aud.sh
+++ b/recipes/aud/steps/aud.sh
@@ -96,6 +96,9 @@ fi
 
 # Training.
 if [ ! -f $outdir/final.mdl ] || [ ! -f $outdir/${epochs}.mdl ]; then
+    # Final model of a former, shorter, training.
+    rm -f $outdir/final.mdl
+
     # Retrieve the last model.
     mdl=$(find $outdir -name "[0-9]*mdl" -exec basename {} \; | \
         sort -t '.' -k 1 -g | tail -1)
diff --git a/recipes/aud/steps/aud_bigram.sh b/recipes/aud/steps/aud_bigram.sh
index d21ec03..c0f5d86 100755
--- a/recipes/aud/steps/aud_bigram.sh
+++ b/recipes/aud/steps/aud_bigram.sh
@@ -79,6 +79,9 @@ fi
 
 # Training.
 if [ ! -f $outdir/final.mdl ] || [ ! -f $outdir/${epochs}.mdl ]; then
+    # Final model of a former, shorter, training.
+    rm -f $outdir/final.mdl
+
     # Retrieve the last model.
     mdl=$(find $outdir -name "[0-9]*mdl" -exec basename {} \; | \
         sort -t '.' -k 1 -g | tail -1)
diff --git a/recipes/aud/steps/monophone.sh b/recipes/aud/steps/monophone.sh
index 915193a..db69635 100755
--- a/recipes/aud/steps/monophone.sh
+++ b/recipes/aud/steps/monophone.sh
@@ -112,6 +112,9 @@ fi
 
 # Training.
 if [ ! -f $outdir/final.mdl ] || [ ! -f $outdir/${epochs}.mdl ]; then
+    # Final model of a former, shorter, training.
+    rm -f $outdir/final.mdl
+
     # Retrieve the last model.
     mdl=$(find $outdir -name "[0-9]*mdl" -exec basename {} \; | \
         sort -t '.' -k 1 -g | tail -1)
-- 
2.43.0


From 4574a990463e26c7ec4faaa51b1942c56ef89f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:55 +0000
Subject: [PATCH 68/77] fix: aud_bigram.sh used priors that mkphoneloopbigram
 does not have

---
 recipes/aud/steps/aud_bigram.sh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/recipes/aud/steps/aud_bigram.sh b/recipes/aud/steps/aud_bigram.sh
index c0f5d86..56f51da 100755
--- a/recipes/aud/steps/aud_bigram.sh
+++ b/recipes/aud/steps/aud_bigram.sh
@@ -5,7 +5,7 @@
 set -o pipefail
 
 acoustic_scale=1.
-prior=gamma_dirichlet_process
+prior=hierarchical_dirichlet_process
 parallel_env=sge
 parallel_opts=""
 parallel_njobs=20
@@ -51,9 +51,9 @@ if [ $# -ne $nargs ]; then
     echo ""
     echo "Options:"
     echo "  --acoustic-scale    acoustic model scaling factor (default: 1)"
-    echo "  --prior             type of prior [gamma_dirichlet_process|"
-    echo "                      dirichlet_process|dirichlet] for the"
-    echo "                      units weights (default:gamma_dirichlet_process)"
+    echo "  --prior             type of prior [hierarchical_dirichlet_process|"
+    echo "                      dirichlet2] for the units weights"
+    echo "                      (default:hierarchical_dirichlet_process)"
     echo "  --parallel-env      parallel environment to use (default:sge)"
     echo "  --parallel-opts     options to pass to the parallel environment"
     echo "  --parallel-njobs    number of parallel jobs to use"
-- 
2.43.0


From 59e6e0069ad9e693c13aa09557f1602588ec4195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:09 +0000
Subject: [PATCH 69/77] fix: statistics left by an interrupted epoch of the
 subspace steps were counted again

---
 recipes/aud/steps/hsubspace_aud.sh       | 3 +++
 recipes/aud/steps/hsubspace_monophone.sh | 3 +++
 recipes/aud/steps/subspace_aud.sh        | 3 +++
 recipes/aud/steps/subspace_monophone.sh  | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/recipes/aud/steps/hsubspace_aud.sh b/recipes/aud/steps/hsubspace_aud.sh
index 27aa250..a0cc2c8 100755
--- a/recipes/aud/steps/hsubspace_aud.sh
+++ b/recipes/aud/steps/hsubspace_aud.sh
@@ -186,6 +186,9 @@ if [ ! -f $outdir/final.mdl ]; then
 
         # Accumulate the statistics in parallel.
 	if [ ! -f $outdir/epoch${epoch}/.done.acc ]; then
+            # Statistics left by an interrupted run.
+            rm -f $outdir/epoch${epoch}/elbo_*.pkl
+
             cmd="beer hmm accumulate ${alis} $outdir/${mdl}_${language} \
                 $dataset $outdir/epoch${epoch}/elbo_JOBID.pkl"
             utils/parallel/submit_parallel.sh \
diff --git a/recipes/aud/steps/hsubspace_monophone.sh b/recipes/aud/steps/hsubspace_monophone.sh
index 6db5db9..0dc9c90 100755
--- a/recipes/aud/steps/hsubspace_monophone.sh
+++ b/recipes/aud/steps/hsubspace_monophone.sh
@@ -216,6 +216,9 @@ if [ ! -f $outdir/final.mdl ]; then
 		alis=""
 	    fi
 	    if [ ! -f $outdir/epoch${epoch}/$lang/.done.acc ]; then
+		# Statistics left by an interrupted run.
+		rm -f $outdir/epoch${epoch}/$lang/elbo_*.pkl
+
 		cmd="beer hmm accumulate ${alis} $outdir/${mdl}_${lang} \
                     	  ${datasets_arr[$lang]} $outdir/epoch${epoch}/$lang/elbo_JOBID.pkl"
 		utils/parallel/submit_parallel.sh \
diff --git a/recipes/aud/steps/subspace_aud.sh b/recipes/aud/steps/subspace_aud.sh
index 7d950ad..70b88a7 100755
--- a/recipes/aud/steps/subspace_aud.sh
+++ b/recipes/aud/steps/subspace_aud.sh
@@ -151,6 +151,9 @@ if [ ! -f $outdir/final.mdl ]; then
     while [ $((++epoch)) -le $epochs ]; do
         echo "epoch: $epoch"
 
+        # Statistics left by an interrupted run.
+        rm -f $outdir/epoch${epoch}/elbo_*.pkl
+
         # Accumulate the statistics in parallel.
         cmd="beer hmm accumulate ${alis} $outdir/$mdl \
                 $dataset $outdir/epoch${epoch}/elbo_JOBID.pkl"
diff --git a/recipes/aud/steps/subspace_monophone.sh b/recipes/aud/steps/subspace_monophone.sh
index 7f8e9e2..24c5b66 100755
--- a/recipes/aud/steps/subspace_monophone.sh
+++ b/recipes/aud/steps/subspace_monophone.sh
@@ -136,6 +136,9 @@ if [ ! -f $outdir/final.mdl ]; then
     while [ $((++epoch)) -le $epochs ]; do
         echo "epoch: $epoch"
 
+        # Statistics left by an interrupted run.
+        rm -f $outdir/epoch${epoch}/elbo_*.pkl
+
         # Accumulate the statistics in parallel.
         cmd="beer hmm accumulate ${alis} $outdir/$mdl \
                 $dataset $outdir/epoch${epoch}/elbo_JOBID.pkl"
-- 
2.43.0


From 35a9bf0bc1ec12fed9638b939b2e3fe4f16a1299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:09 +0000
Subject: [PATCH 70/77] fix: finished subspace trainings were not continued for
 more epochs

---
 recipes/aud/steps/hsubspace_aud.sh       | 5 ++++-
 recipes/aud/steps/hsubspace_monophone.sh | 5 ++++-
 recipes/aud/steps/subspace_aud.sh        | 5 ++++-
 recipes/aud/steps/subspace_monophone.sh  | 5 ++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/recipes/aud/steps/hsubspace_aud.sh b/recipes/aud/steps/hsubspace_aud.sh
index a0cc2c8..30a3250 100755
--- a/recipes/aud/steps/hsubspace_aud.sh
+++ b/recipes/aud/steps/hsubspace_aud.sh
@@ -166,7 +166,10 @@ fi
 
 
 # Training.
-if [ ! -f $outdir/final.mdl ]; then
+if [ ! -f $outdir/final.mdl ] || [ ! -f $outdir/${epochs}.mdl ]; then
+    # Final model of a former, shorter, training.
+    rm -f $outdir/final.mdl
+
     # Retrieve the last model.
     mdl=$(find $outdir -name "[0-9]*mdl" -exec basename {} \; | \
         sort -t '.' -k 1 -g | tail -1)
diff --git a/recipes/aud/steps/hsubspace_monophone.sh b/recipes/aud/steps/hsubspace_monophone.sh
index 0dc9c90..cd5c0d7 100755
--- a/recipes/aud/steps/hsubspace_monophone.sh
+++ b/recipes/aud/steps/hsubspace_monophone.sh
@@ -188,7 +188,10 @@ for hmmdir_ in ${hmmdirs_arr[@]}; do
 done
 
 # Training.
-if [ ! -f $outdir/final.mdl ]; then
+if [ ! -f $outdir/final.mdl ] || [ ! -f $outdir/${epochs}.mdl ]; then
+    # Final model of a former, shorter, training.
+    rm -f $outdir/final.mdl
+
     # Retrieve the last model.
     mdl=$(find $outdir -name "[0-9]*mdl" -exec basename {} \; | \
               sort -t '.' -k 1 -g | tail -1)
diff --git a/recipes/aud/steps/subspace_aud.sh b/recipes/aud/steps/subspace_aud.sh
index 70b88a7..3393a4f 100755
--- a/recipes/aud/steps/subspace_aud.sh
+++ b/recipes/aud/steps/subspace_aud.sh
@@ -133,7 +133,10 @@ fi
 
 
 # Training.
-if [ ! -f $outdir/final.mdl ]; then
+if [ ! -f $outdir/final.mdl ] || [ ! -f $outdir/${epochs}.mdl ]; then
+    # Final model of a former, shorter, training.
+    rm -f $outdir/final.mdl
+
     # Retrieve the last model.
     mdl=$(find $outdir -name "[0-9]*mdl" -exec basename {} \; | \
         sort -t '.' -k 1 -g | tail -1)
diff --git a/recipes/aud/steps/subspace_monophone.sh b/recipes/aud/steps/subspace_monophone.sh
index 24c5b66..0653b97 100755
--- a/recipes/aud/steps/subspace_monophone.sh
+++ b/recipes/aud/steps/subspace_monophone.sh
@@ -118,7 +118,10 @@ if [ -f $hmmdir/alis.npz ]; then
 fi
 
 # Training.
-if [ ! -f $outdir/final.mdl ]; then
+if [ ! -f $outdir/final.mdl ] || [ ! -f $outdir/${epochs}.mdl ]; then
+    # Final model of a former, shorter, training.
+    rm -f $outdir/final.mdl
+
     # Retrieve the last model.
     mdl=$(find $outdir -name "[0-9]*mdl" -exec basename {} \; | \
         sort -t '.' -k 1 -g | tail -1)
-- 
2.43.0


From e1879671b5d86d579a9e2199968aa50f09d5e1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:19 +0000
Subject: [PATCH 71/77] fix: failed jobs of the languages went unnoticed in
 hsubspace_monophone.sh

---
 recipes/aud/steps/hsubspace_monophone.sh | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/recipes/aud/steps/hsubspace_monophone.sh b/recipes/aud/steps/hsubspace_monophone.sh
index cd5c0d7..712f94e 100755
--- a/recipes/aud/steps/hsubspace_monophone.sh
+++ b/recipes/aud/steps/hsubspace_monophone.sh
@@ -211,6 +211,7 @@ if [ ! -f $outdir/final.mdl ] || [ ! -f $outdir/${epochs}.mdl ]; then
 
         # Accumulate the statistics in parallel.
 	[ -f $outdir/${epoch}_sphoneloop_to_lang.txt ] && rm $outdir/${epoch}_sphoneloop_to_lang.txt
+	pids=""
 	for lang in $langs; do
 	    hmmdir_=${hmmdirs_arr[$lang]}
 	    if [ -f ${hmmdir_}/alis.npz ]; then
@@ -232,18 +233,29 @@ if [ ! -f $outdir/final.mdl ] || [ ! -f $outdir/${epochs}.mdl ]; then
 		    "${datadirs_arr[$lang]}/uttids" \
 		    "$cmd" \
 		    $outdir/epoch${epoch}/$lang && touch $outdir/epoch${epoch}/$lang/.done.acc || exit 1 &
+		pids="$pids $!"
 	    fi
 	done
-	wait
+	status=0
+	for pid in $pids; do
+	    wait $pid || status=1
+	done
+	[ $status -eq 0 ] || exit 1
 	
+	pids=""
 	for lang in $langs; do
             # Update the model' parameters.
             find $outdir/epoch${epoch}/$lang -name '*pkl' | \
 		beer hmm update -o $outdir/optim_state.pth $outdir/${mdl}_${lang} \
                      $outdir/${lang}_tmp.mdl 2>&1 | tee -a $outdir/training_${lang}.log && \
 		echo "$outdir/${lang}_tmp.mdl $lang" >> $outdir/${epoch}_sphoneloop_to_lang.txt || exit 1 &
+	    pids="$pids $!"
+	done
+	status=0
+	for pid in $pids; do
+	    wait $pid || status=1
 	done
-	wait
+	[ $status -eq 0 ] || exit 1
 
         if [ $epoch -eq $epochs ]; then
             train_epochs=$gsm_smoothing_epochs
-- 
2.43.0


From 8b0880d8d437d0000b2aa2508bee00ac913033f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:19 +0000
Subject: [PATCH 72/77] fix: concurrent updates of the languages shared one
 optimizer state file in hsubspace_monophone.sh

---
 recipes/aud/steps/hsubspace_monophone.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/aud/steps/hsubspace_monophone.sh b/recipes/aud/steps/hsubspace_monophone.sh
index 712f94e..67a865c 100755
--- a/recipes/aud/steps/hsubspace_monophone.sh
+++ b/recipes/aud/steps/hsubspace_monophone.sh
@@ -246,7 +246,7 @@ if [ ! -f $outdir/final.mdl ] || [ ! -f $outdir/${epochs}.mdl ]; then
 	for lang in $langs; do
             # Update the model' parameters.
             find $outdir/epoch${epoch}/$lang -name '*pkl' | \
-		beer hmm update -o $outdir/optim_state.pth $outdir/${mdl}_${lang} \
+		beer hmm update -o $outdir/optim_state_${lang}.pth $outdir/${mdl}_${lang} \
                      $outdir/${lang}_tmp.mdl 2>&1 | tee -a $outdir/training_${lang}.log && \
 		echo "$outdir/${lang}_tmp.mdl $lang" >> $outdir/${epoch}_sphoneloop_to_lang.txt || exit 1 &
 	    pids="$pids $!"
-- 
2.43.0


From 1f133c904547ebae3bf9356fafeb66a5cc5202f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:18 +0000
Subject: [PATCH 73/77] fix: the preparation of zrc2019 decompressed a bzip2
 archive with gzip

---
 recipes/aud/local/zrc2019/prepare_data.sh     | 2 +-
 recipes/zrc2019/local/zrc2019/prepare_data.sh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/recipes/aud/local/zrc2019/prepare_data.sh b/recipes/aud/local/zrc2019/prepare_data.sh
index 4687c64..8830ef2 100755
--- a/recipes/aud/local/zrc2019/prepare_data.sh
+++ b/recipes/aud/local/zrc2019/prepare_data.sh
@@ -17,7 +17,7 @@ datadir=$1
 if [ ! -f $datadir/local/.done ]; then
     echo "Extracting data..."
     mkdir -p $datadir/local/
-    tar -xvzf $datapath -C $datadir/local
+    tar -xvjf $datapath -C $datadir/local
     date > $datadir/local/.done
 else
     echo "Data already extracted. Skipping."
diff --git a/recipes/zrc2019/local/zrc2019/prepare_data.sh b/recipes/zrc2019/local/zrc2019/prepare_data.sh
index 4687c64..8830ef2 100755
--- a/recipes/zrc2019/local/zrc2019/prepare_data.sh
+++ b/recipes/zrc2019/local/zrc2019/prepare_data.sh
@@ -17,7 +17,7 @@ datadir=$1
 if [ ! -f $datadir/local/.done ]; then
     echo "Extracting data..."
     mkdir -p $datadir/local/
-    tar -xvzf $datapath -C $datadir/local
+    tar -xvjf $datapath -C $datadir/local
     date > $datadir/local/.done
 else
     echo "Data already extracted. Skipping."
-- 
2.43.0


From b99231378313b8888679262a4c0bf106180713b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:18 +0000
Subject: [PATCH 74/77] fix: the preparation of zrc2019 in the aud recipe wrote
 wavs.scp while its steps read wav.scp

---
 recipes/aud/local/zrc2019/prepare_data.sh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/recipes/aud/local/zrc2019/prepare_data.sh b/recipes/aud/local/zrc2019/prepare_data.sh
index 8830ef2..f4f03e8 100755
--- a/recipes/aud/local/zrc2019/prepare_data.sh
+++ b/recipes/aud/local/zrc2019/prepare_data.sh
@@ -35,13 +35,13 @@ export -f scp_line
 
 
 if [ ! -f $datadir/train/uttids ]; then
-    echo "creating wavs.scp file..."
+    echo "creating wav.scp file..."
     find $datadir/local/samples -name '*wav' \
         -exec bash -c 'scp_line "$0"' {} {} \; \
-        | sort | uniq > $datadir/train/wavs.scp
+        | sort | uniq > $datadir/train/wav.scp
 
     echo "creating uttids file..."
-    cat $datadir/train/wavs.scp | awk '{print $1}' >$datadir/train/uttids
+    cat $datadir/train/wav.scp | awk '{print $1}' >$datadir/train/uttids
 else
     echo "training data already prepared. Skipping."
 fi
-- 
2.43.0


From 4f6109522ea1fe1636ff1aef849f01a5d99069b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:33 +0000
Subject: [PATCH 75/77] fix: google_lr/prepare_data.sh reported a failure when
 there is no alignment to copy

---
 recipes/aud/local/google_lr/prepare_data.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/aud/local/google_lr/prepare_data.sh b/recipes/aud/local/google_lr/prepare_data.sh
index 1e4c3c3..060ead2 100755
--- a/recipes/aud/local/google_lr/prepare_data.sh
+++ b/recipes/aud/local/google_lr/prepare_data.sh
@@ -42,5 +42,5 @@ for language in $languages; do
 	tr ' ' '\n' | \
 	sort -u | grep -v sil | \
 	awk '{print $0, "speech-unit"}' >> $outdir/$language/lang/units
-    [ -f $cmddir/ali ] && cp $cmddir/ali $outdir/$language/train/
+    [ ! -f $cmddir/ali ] || cp $cmddir/ali $outdir/$language/train/
 done
-- 
2.43.0


From 163ea7b1c0a5264e96b77e1db2101fd6cc13357b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:33 +0000
Subject: [PATCH 76/77] fix: google_lr/prepare_data.sh skipped the other
 languages when the first one was already prepared

---
 recipes/aud/local/google_lr/prepare_data.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/aud/local/google_lr/prepare_data.sh b/recipes/aud/local/google_lr/prepare_data.sh
index 060ead2..674e121 100755
--- a/recipes/aud/local/google_lr/prepare_data.sh
+++ b/recipes/aud/local/google_lr/prepare_data.sh
@@ -16,7 +16,7 @@ for language in $languages; do
     cmddir=$(dirname $0)
     for subset in train; do
 	datadir=$outdir/$language
-	[ -f $outdir/$language/$subset/uttids ] && exit 0
+	[ -f $outdir/$language/$subset/uttids ] && continue
 	echo $outdir/$language/$subset/uttids
        	mkdir -p $outdir/$language/$subset
 	find -L $rootdir/$language -name "*.wav" | \
-- 
2.43.0


From 2885b0274a8fb71bd7aac947617de5a3d30462d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:33 +0000
Subject: [PATCH 77/77] fix: the units whose name contains "sil" were left out
 of the languages by alffa and google_lr

---
 recipes/aud/local/alffa/prepare_data.sh     | 2 +-
 recipes/aud/local/google_lr/prepare_data.sh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/recipes/aud/local/alffa/prepare_data.sh b/recipes/aud/local/alffa/prepare_data.sh
index 9e4c046..1a7a6a0 100644
--- a/recipes/aud/local/alffa/prepare_data.sh
+++ b/recipes/aud/local/alffa/prepare_data.sh
@@ -40,6 +40,6 @@ for language in $languages; do
     echo "sil non-speech-unit" > $outdir/$language/lang/units
     cut -d' ' -f2- $outdir/$language/train/trans | \
 	tr ' ' '\n' | \
-	sort -u | grep -v sil | \
+	sort -u | grep -v -x sil | \
 	awk '{print $0, "speech-unit"}' >> $outdir/$language/lang/units
 done
diff --git a/recipes/aud/local/google_lr/prepare_data.sh b/recipes/aud/local/google_lr/prepare_data.sh
index 674e121..ce8ab13 100755
--- a/recipes/aud/local/google_lr/prepare_data.sh
+++ b/recipes/aud/local/google_lr/prepare_data.sh
@@ -40,7 +40,7 @@ for language in $languages; do
     echo "sil non-speech-unit" > $outdir/$language/lang/units
     cut -d' ' -f2- $outdir/$language/train/trans | \
 	tr ' ' '\n' | \
-	sort -u | grep -v sil | \
+	sort -u | grep -v -x sil | \
 	awk '{print $0, "speech-unit"}' >> $outdir/$language/lang/units
     [ ! -f $cmddir/ali ] || cp $cmddir/ali $outdir/$language/train/
 done
-- 
2.43.0

