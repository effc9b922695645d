From f06ece452f9786b2db026d0830ffac4f20a5a07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:47 +0000
Subject: [PATCH 01/51] fix: raise ValueError for unsupported VCT context
 lengths

---
 projects/torch_vct/neural/entropy_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/torch_vct/neural/entropy_model.py b/projects/torch_vct/neural/entropy_model.py
index e33a5f9..f7e2f30 100644
--- a/projects/torch_vct/neural/entropy_model.py
+++ b/projects/torch_vct/neural/entropy_model.py
@@ -327,7 +327,7 @@ class VCTEntropyModel(nn.Module):
                     else [encoded_seqs[0]] * 2 + [encoded_seqs[1]]
                 )
             else:
-                ValueError(f"Unsupported context_len={self.context_len}")
+                raise ValueError(f"Unsupported context_len={self.context_len}")
         return encoded_seqs
 
     def forward(
-- 
2.43.0


From e249201703bc3c4d2640f4d117a35b4dd3a89d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:47 +0000
Subject: [PATCH 02/51] fix: VCT compress reports the latent the decoder
 recovers when decoding is skipped

---
 projects/torch_vct/neural/entropy_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/projects/torch_vct/neural/entropy_model.py b/projects/torch_vct/neural/entropy_model.py
index f7e2f30..123f0d2 100644
--- a/projects/torch_vct/neural/entropy_model.py
+++ b/projects/torch_vct/neural/entropy_model.py
@@ -506,7 +506,11 @@ class VCTEntropyModel(nn.Module):
         # decoding:
         if not run_decode:
             # For performance, since coding is lossless, real decode can be skipped
-            decoded = torch.round(latent_unquantized)
+            # (the decoder sees the quantized residuals, which can differ from rounding
+            # the latent when it is a tie)
+            decoded = self.patcher.unpatch(
+                (quantized, (n_h, n_w)), crop=(H, W), channels_last=True
+            )
         else:
             use_output_from_encode = True
             decoded = self._decode(
-- 
2.43.0


From 45991ae17260ed107acaf587378dbb2e4984f239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:47 +0000
Subject: [PATCH 03/51] fix: keep memoized arguments alive so a new tensor
 cannot hit a stale entry

---
 projects/torch_vct/utils/memoize.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projects/torch_vct/utils/memoize.py b/projects/torch_vct/utils/memoize.py
index a2cf585..4acb082 100644
--- a/projects/torch_vct/utils/memoize.py
+++ b/projects/torch_vct/utils/memoize.py
@@ -137,11 +137,13 @@ def memoize(f):
         if key in result_cache:
             assert _expect_cache_hit in [True, None]
             hit_counter[key] += 1
-            result = result_cache[key]
+            result, _ = result_cache[key]
         else:
             assert _expect_cache_hit in [False, None]
             result = f(*args, **kwargs)
-            result_cache[key] = result
+            # tensors are keyed by identity, so keep the arguments alive for as long as
+            # the entry exists: otherwise a new tensor could reuse the identity
+            result_cache[key] = (result, (key_args, key_kwargs))
         return result
 
     # for inspection/testing:
-- 
2.43.0


From 669d4d4d4d0f2ecd1e7db0b755ccb2ccd90f3767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:48 +0000
Subject: [PATCH 04/51] fix: use the pipeline's context length in the VCT
 entropy model

---
 projects/torch_vct/model_pipeline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projects/torch_vct/model_pipeline.py b/projects/torch_vct/model_pipeline.py
index a280ef9..2a9fdc8 100644
--- a/projects/torch_vct/model_pipeline.py
+++ b/projects/torch_vct/model_pipeline.py
@@ -181,7 +181,9 @@ class VCTPipeline(nn.Module):
         ), "Mismatched compression_channels"
 
         # Entropy model
-        self.entropy_model = VCTEntropyModel(num_channels=compression_channels)
+        self.entropy_model = VCTEntropyModel(
+            num_channels=compression_channels, context_len=context_len
+        )
         self._temporal_pad_token_maker = PerChannelWeight(
             num_channels=compression_channels
         )
-- 
2.43.0


From 53076aa1bda56d7550fb25b977c91ccc7c9cd6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:03 +0000
Subject: [PATCH 05/51] fix: ConvGDNSynthesis reports its actual number of
 compression channels

---
 projects/torch_vct/neural/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/torch_vct/neural/transforms.py b/projects/torch_vct/neural/transforms.py
index a9c409a..b62b2b7 100644
--- a/projects/torch_vct/neural/transforms.py
+++ b/projects/torch_vct/neural/transforms.py
@@ -73,7 +73,7 @@ class ConvGDNSynthesis(nn.Module):
         """
 
         super().__init__()
-        self._compression_channels = 192
+        self._compression_channels = compression_channels
 
         self.transforms = nn.Sequential(
             make_deconv(
-- 
2.43.0


From 9a63e461031647729204d1c1c1e753f490c6f6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:48 +0000
Subject: [PATCH 06/51] fix: lower_bound accepts a float bound as documented

---
 neuralcompression/functional/_lower_bound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_lower_bound.py b/neuralcompression/functional/_lower_bound.py
index be17e47..9d045d3 100644
--- a/neuralcompression/functional/_lower_bound.py
+++ b/neuralcompression/functional/_lower_bound.py
@@ -39,7 +39,7 @@ class _LowerBound(Function):
     def forward(ctx, *args):
         x, bound, gradient = args
 
-        bound = bound.to(x.dtype)
+        bound = torch.as_tensor(bound, dtype=x.dtype, device=x.device)
 
         ctx.save_for_backward(
             x,
-- 
2.43.0


From 9e2031e21cc237d0ae28597bc33d976670024b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:48 +0000
Subject: [PATCH 07/51] fix: the disconnected lower_bound gradient is gated,
 not replaced by the input

---
 neuralcompression/functional/_lower_bound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_lower_bound.py b/neuralcompression/functional/_lower_bound.py
index 9d045d3..7b5691b 100644
--- a/neuralcompression/functional/_lower_bound.py
+++ b/neuralcompression/functional/_lower_bound.py
@@ -28,7 +28,7 @@ class _LowerBound(Function):
         x, bound, gradient = ctx.saved_tensors
 
         if int(gradient) == _LowerBoundGradient.disconnected:
-            return x, None, None
+            return (x >= bound) * y, None, None
 
         if int(gradient) == _LowerBoundGradient.identity:
             return y, None, None
-- 
2.43.0


From bb690e4129f31a9b80072b7cdd6dbf07699e7602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:48 +0000
Subject: [PATCH 08/51] fix: log_survival_function is log(1 - cdf) for every
 distribution

---
 neuralcompression/functional/_log_survival_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_log_survival_function.py b/neuralcompression/functional/_log_survival_function.py
index bdb76fe..9a037fb 100644
--- a/neuralcompression/functional/_log_survival_function.py
+++ b/neuralcompression/functional/_log_survival_function.py
@@ -30,4 +30,4 @@ def log_survival_function(
 
         return log_ndtr(-standardized)
 
-    return torch.log1p(distribution.cdf(-x))
+    return torch.log1p(-distribution.cdf(x))
-- 
2.43.0


From 09a5d5f3b852fea1bc2714e9ceb53c083a524511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:48 +0000
Subject: [PATCH 09/51] fix: log_cdf of a Uniform takes its bounds into account

---
 neuralcompression/functional/_log_cdf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_log_cdf.py b/neuralcompression/functional/_log_cdf.py
index c1c80e5..5eb8013 100644
--- a/neuralcompression/functional/_log_cdf.py
+++ b/neuralcompression/functional/_log_cdf.py
@@ -31,6 +31,8 @@ def log_cdf(
         return log_ndtr(standardized)
 
     if isinstance(distribution, Uniform):
-        return torch.log(x)
+        standardized = (x - distribution.low) / (distribution.high - distribution.low)
+
+        return torch.log(torch.clamp(standardized, 0.0, 1.0))
 
     return torch.log(distribution.cdf(x))
-- 
2.43.0


From ce7bb7f29249c15669ce867ff473a20a8e110c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:24 +0000
Subject: [PATCH 10/51] fix: log_ndtr has finite gradients in the tails and at
 zero

---
 neuralcompression/functional/_log_ndtr.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/neuralcompression/functional/_log_ndtr.py b/neuralcompression/functional/_log_ndtr.py
index 57a6d57..e09ad8c 100644
--- a/neuralcompression/functional/_log_ndtr.py
+++ b/neuralcompression/functional/_log_ndtr.py
@@ -46,12 +46,14 @@ def log_ndtr(x: Tensor) -> Tensor:
             f"`{log_ndtr.__name__}` doesn’t support {x.dtype}",
         )
 
+    # each branch only sees the inputs it is used for, so that the branches that
+    # aren't selected cannot contribute invalid gradients
     return torch.where(
         x > n,
-        torch.log1p(-ndtr(-x)),
+        torch.log1p(-ndtr(-torch.clamp(x, min=n))),
         torch.where(
             x >= m,
-            torch.log(ndtr(x)),
-            _log_ndtr_asymptotic_series(x),
+            torch.log(ndtr(torch.clamp(x, m, n))),
+            _log_ndtr_asymptotic_series(torch.clamp(x, max=m)),
         ),
     )
-- 
2.43.0


From 01f9c7fb57a046631ff180afb2f685b50bc0ab18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:24 +0000
Subject: [PATCH 11/51] fix: log_ndtr is finite for double precision inputs
 between -20 and -14

---
 neuralcompression/functional/_log_ndtr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_log_ndtr.py b/neuralcompression/functional/_log_ndtr.py
index e09ad8c..aea311c 100644
--- a/neuralcompression/functional/_log_ndtr.py
+++ b/neuralcompression/functional/_log_ndtr.py
@@ -40,7 +40,8 @@ def log_ndtr(x: Tensor) -> Tensor:
     if x.dtype == torch.float32:
         m, n = -10.0, 5.0
     elif x.dtype == torch.float64:
-        m, n = -20.0, 8.0
+        # ``ndtr`` is evaluated in single precision
+        m, n = -10.0, 5.0
     else:
         raise TypeError(
             f"`{log_ndtr.__name__}` doesn’t support {x.dtype}",
-- 
2.43.0


From b73f4dfd682f9481bcfacb72d5fcca6bfa47baeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:46 +0000
Subject: [PATCH 12/51] fix: log_ndtr's asymptotic series uses the double
 factorials (2n - 1)!!

---
 neuralcompression/functional/_log_ndtr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_log_ndtr.py b/neuralcompression/functional/_log_ndtr.py
index aea311c..eaa80b4 100644
--- a/neuralcompression/functional/_log_ndtr.py
+++ b/neuralcompression/functional/_log_ndtr.py
@@ -21,7 +21,7 @@ def _log_ndtr_asymptotic_series(x: Tensor, series_order: int = 3) -> Tensor:
     for n in range(1, series_order + 1):
         t2.add_(multiplier * double_fac / value_even_power)
         value_even_power.mul_(x**2)
-        double_fac *= 2 * n - 1
+        double_fac *= 2 * n + 1
         multiplier *= -1
 
     return t1 + torch.log1p(t2)
-- 
2.43.0


From 4ba8725bd5eb6bcb59567b1b966f4887105c9ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:46 +0000
Subject: [PATCH 13/51] fix: UniformNoise keeps the batch and event shape of
 its base distribution

---
 neuralcompression/distributions/_uniform_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/distributions/_uniform_noise.py b/neuralcompression/distributions/_uniform_noise.py
index 028a0b2..ce2871b 100644
--- a/neuralcompression/distributions/_uniform_noise.py
+++ b/neuralcompression/distributions/_uniform_noise.py
@@ -44,8 +44,8 @@ class UniformNoise(Distribution):
 
     def __init__(self, distribution: Distribution):
         super(UniformNoise, self).__init__(
-            distribution.event_shape,
             distribution.batch_shape,
+            distribution.event_shape,
         )
 
         self._distribution = distribution
-- 
2.43.0


From 24c19def1bfb208322b9ac2ae425a4391b2be012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:46 +0000
Subject: [PATCH 14/51] fix: expanding a UniformNoise gives a UniformNoise, not
 its base distribution

---
 neuralcompression/distributions/_uniform_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/distributions/_uniform_noise.py b/neuralcompression/distributions/_uniform_noise.py
index ce2871b..25cb865 100644
--- a/neuralcompression/distributions/_uniform_noise.py
+++ b/neuralcompression/distributions/_uniform_noise.py
@@ -82,7 +82,7 @@ class UniformNoise(Distribution):
         return self._distribution.enumerate_support(expand)
 
     def expand(self, batch_shape, _instance=None) -> Distribution:
-        return self._distribution.expand(batch_shape)
+        return UniformNoise(self._distribution.expand(batch_shape))
 
     def icdf(self, value: Tensor) -> Tensor:
         return self._distribution.icdf(value)
-- 
2.43.0


From bc507393aac770973fa388b0820c6b59609c4961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:46 +0000
Subject: [PATCH 15/51] fix: UniformNoise adds independent noise to every batch
 element

---
 neuralcompression/distributions/_uniform_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/distributions/_uniform_noise.py b/neuralcompression/distributions/_uniform_noise.py
index 25cb865..3788316 100644
--- a/neuralcompression/distributions/_uniform_noise.py
+++ b/neuralcompression/distributions/_uniform_noise.py
@@ -134,7 +134,7 @@ class UniformNoise(Distribution):
 
     def rsample(self, sample_shape: Size = Size()):
         a = self._distribution.sample(sample_shape)
-        b = self._uniform_distribution.sample(sample_shape)
+        b = self._uniform_distribution.sample(a.shape)
 
         return a + b
 
-- 
2.43.0


From 611b15b68f78d4cd8e9d70dd802b65e85fbf2af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:46 +0000
Subject: [PATCH 16/51] fix: UniformNoise.rsample is differentiable in the base
 distribution's parameters

---
 neuralcompression/distributions/_uniform_noise.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neuralcompression/distributions/_uniform_noise.py b/neuralcompression/distributions/_uniform_noise.py
index 3788316..7efd6f2 100644
--- a/neuralcompression/distributions/_uniform_noise.py
+++ b/neuralcompression/distributions/_uniform_noise.py
@@ -133,7 +133,11 @@ class UniformNoise(Distribution):
         )
 
     def rsample(self, sample_shape: Size = Size()):
-        a = self._distribution.sample(sample_shape)
+        if self._distribution.has_rsample:
+            a = self._distribution.rsample(sample_shape)
+        else:
+            a = self._distribution.sample(sample_shape)
+
         b = self._uniform_distribution.sample(a.shape)
 
         return a + b
-- 
2.43.0


From 11e92d561aa88370a6312f2b0cd9aab6428133f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:41 +0000
Subject: [PATCH 17/51] fix: range coding tables are sampled at the
 quantization offset

---
 neuralcompression/layers/_continuous_entropy.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/neuralcompression/layers/_continuous_entropy.py b/neuralcompression/layers/_continuous_entropy.py
index f292303..5b53139 100644
--- a/neuralcompression/layers/_continuous_entropy.py
+++ b/neuralcompression/layers/_continuous_entropy.py
@@ -323,7 +323,6 @@ class ContinuousEntropy(Module):
         maximum = torch.clamp_min(maximum, 0)
 
         pmf_start = minimum.to(self.prior_dtype) + quantization_offset
-        pmf_start = pmf_start.to(torch.int32)
 
         pmf_sizes = maximum - minimum + 1
 
-- 
2.43.0


From 28686980d4c6b3540bf8b76313b7729ece73d43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:41 +0000
Subject: [PATCH 18/51] fix: build one range coding table per scalar prior
 distribution

---
 neuralcompression/layers/_continuous_entropy.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/neuralcompression/layers/_continuous_entropy.py b/neuralcompression/layers/_continuous_entropy.py
index 5b53139..aa97ef6 100644
--- a/neuralcompression/layers/_continuous_entropy.py
+++ b/neuralcompression/layers/_continuous_entropy.py
@@ -338,13 +338,19 @@ class ContinuousEntropy(Module):
         else:
             pmfs = torch.exp(self.prior.log_prob(samples))
 
-        pmf_sizes = torch.broadcast_to(pmf_sizes, self.context_shape)
-        pmf_sizes = pmf_sizes.squeeze()
+        # one row per scalar distribution
+        shape = self.context_shape or Size([1])
+
+        pmfs = torch.broadcast_to(pmfs, (len(samples), *shape))
+        pmfs = pmfs.reshape(len(samples), -1).T
+
+        pmf_sizes = torch.broadcast_to(pmf_sizes, shape)
+        pmf_sizes = pmf_sizes.reshape(-1)
 
         cdf_sizes = pmf_sizes + 2
 
-        cdf_offsets = torch.broadcast_to(minimum, self.context_shape)
-        cdf_offsets = cdf_offsets.squeeze()
+        cdf_offsets = torch.broadcast_to(minimum, shape)
+        cdf_offsets = cdf_offsets.reshape(-1)
 
         cdfs = torch.zeros(
             (len(pmf_sizes), int(maximum_pmf_size) + 2),
-- 
2.43.0


From 191aada26ded484fc2c32a698843f9203c3b926e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:41 +0000
Subject: [PATCH 19/51] fix: ContinuousEntropy keeps its prior and reports a
 missing one with RuntimeError

---
 neuralcompression/layers/_continuous_entropy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuralcompression/layers/_continuous_entropy.py b/neuralcompression/layers/_continuous_entropy.py
index aa97ef6..d74e536 100644
--- a/neuralcompression/layers/_continuous_entropy.py
+++ b/neuralcompression/layers/_continuous_entropy.py
@@ -97,6 +97,8 @@ class ContinuousEntropy(Module):
 
         self._range_coder_precision = range_coder_precision
 
+        self._prior = prior
+
         if prior is None:
             if prior_shape is None or prior_dtype is None:
                 error_message = r"""either `prior` or both `prior_dtype` and
@@ -128,8 +130,6 @@ class ContinuousEntropy(Module):
                 raise ValueError(error_message)
 
             if prior is not None:
-                self._prior = prior
-
                 cdfs, cdf_sizes, cdf_offsets = self._update()
             elif maximum_cdf_size is not None:
                 if self.stateless:
-- 
2.43.0


From b41ae2b6abb4d749fc6aadf25748f8ba750567cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:41 +0000
Subject: [PATCH 20/51] fix: ContinuousEntropy.quantize returns integers
 instead of raising TypeError

---
 neuralcompression/layers/_continuous_entropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/layers/_continuous_entropy.py b/neuralcompression/layers/_continuous_entropy.py
index d74e536..2db9c49 100644
--- a/neuralcompression/layers/_continuous_entropy.py
+++ b/neuralcompression/layers/_continuous_entropy.py
@@ -299,7 +299,7 @@ class ContinuousEntropy(Module):
 
         outputs = torch.round(outputs)
 
-        return IntTensor(outputs)
+        return outputs.to(torch.int32)
 
     def _update(self):
         quantization_offset = ncF.quantization_offset(self.prior)
-- 
2.43.0


From 0c6d1d1197e3dce411b20de45b78ef55cdb22b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:08 +0000
Subject: [PATCH 21/51] fix: range coding tables can be built for a scalar
 prior

---
 neuralcompression/layers/_continuous_entropy.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/neuralcompression/layers/_continuous_entropy.py b/neuralcompression/layers/_continuous_entropy.py
index 2db9c49..08ac79f 100644
--- a/neuralcompression/layers/_continuous_entropy.py
+++ b/neuralcompression/layers/_continuous_entropy.py
@@ -329,8 +329,11 @@ class ContinuousEntropy(Module):
         maximum_pmf_size = torch.max(pmf_sizes).to(self.prior_dtype)
         maximum_pmf_size = maximum_pmf_size.to(torch.int32)
 
+        # a scalar prior is a batch of one
+        shape = self.context_shape or Size([1])
+
         samples = torch.arange(maximum_pmf_size).to(self.prior_dtype)
-        samples = samples.reshape([-1] + len(self.context_shape) * [1])
+        samples = samples.reshape([-1] + len(shape) * [1])
         samples = samples + pmf_start
 
         if isinstance(self.prior, UniformNoise):
@@ -339,8 +342,6 @@ class ContinuousEntropy(Module):
             pmfs = torch.exp(self.prior.log_prob(samples))
 
         # one row per scalar distribution
-        shape = self.context_shape or Size([1])
-
         pmfs = torch.broadcast_to(pmfs, (len(samples), *shape))
         pmfs = pmfs.reshape(len(samples), -1).T
 
-- 
2.43.0


From cf5251844dbd92548e8c603cc65eadfec78d973c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:54 +0000
Subject: [PATCH 22/51] fix: QBottleneck.reset_hits must clear the codebook hit
 counters

---
 neuralcompression/layers/_q_bottleneck.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuralcompression/layers/_q_bottleneck.py b/neuralcompression/layers/_q_bottleneck.py
index 6b25ad3..099b0df 100644
--- a/neuralcompression/layers/_q_bottleneck.py
+++ b/neuralcompression/layers/_q_bottleneck.py
@@ -91,8 +91,8 @@ class QBottleneck(nn.Module):
         self.register_buffer("percentage_hits", torch.zeros(num_codebooks))
 
     def reset_hits(self):
-        for codebook_hits in self.named_buffers(prefix="codebook_hits"):
-            codebook_hits *= 0
+        for ind in range(len(self.codebooks)):
+            getattr(self, f"codebook_hits_{ind}").zero_()
 
     def update_metrics(self):
         assert len(self.percentage_hits) == len(self.max_hits) == len(self.perplexities)
-- 
2.43.0


From 791d9b2d37ac3423ec5bf1ee65afd8f87746a0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:06 +0000
Subject: [PATCH 23/51] fix: KernelInceptionDistance must use its subset and
 kernel parameters

---
 neuralcompression/metrics/_kid.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/neuralcompression/metrics/_kid.py b/neuralcompression/metrics/_kid.py
index 1ea8fce..b341cbb 100644
--- a/neuralcompression/metrics/_kid.py
+++ b/neuralcompression/metrics/_kid.py
@@ -87,6 +87,16 @@ class KernelInceptionDistance(Metric):
         output = kid_features_to_metric(
             torch.cat(self.real_features).to(torch.float64),
             torch.cat(self.fake_features).to(torch.float64),
+            kid_subsets=self.subsets,
+            kid_subset_size=self.subset_size,
+            # torch-fidelity < 0.4.0
+            kid_degree=self.degree,
+            kid_gamma=self.gamma,
+            kid_coef0=self.coef,
+            # torch-fidelity >= 0.4.0
+            kid_kernel_poly_degree=self.degree,
+            kid_kernel_poly_gamma=self.gamma,
+            kid_kernel_poly_coef0=self.coef,
         )
         return (
             torch.tensor(output["kernel_inception_distance_mean"]),
-- 
2.43.0


From 4e12bc3b6098b934ed057514f91df6521f673bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:08 +0000
Subject: [PATCH 24/51] fix: RampConstCosineLRSchedule survives steps past its
 last, with and without decay

---
 neuralcompression/optim/_ramp_const_cosine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuralcompression/optim/_ramp_const_cosine.py b/neuralcompression/optim/_ramp_const_cosine.py
index 40b02b7..401fdae 100644
--- a/neuralcompression/optim/_ramp_const_cosine.py
+++ b/neuralcompression/optim/_ramp_const_cosine.py
@@ -41,8 +41,8 @@ class RampConstCosineLRSchedule(LambdaLR):
             cosine_step = step - (self._max_steps - self._num_cosine_steps)
             if step < num_ramp_steps:
                 return max(min(step / num_ramp_steps, 1.0), min_val)
-            elif cosine_step > 0:
-                angle = (cosine_step / self._num_cosine_steps) * math.pi / 2
+            elif cosine_step > 0 and self._num_cosine_steps > 0:
+                angle = min(cosine_step / self._num_cosine_steps, 1.0) * math.pi / 2
                 return max(math.cos(angle), min_val)
             else:
                 return 1.0
-- 
2.43.0


From be13fc351c6ba0ab5ae6c8e8c8ca419c15c2195b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:08 +0000
Subject: [PATCH 25/51] fix: VCT schedules keep the warm-up linear and accept a
 ramp that ends next to T_max

---
 projects/torch_vct/utils/schedulers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/projects/torch_vct/utils/schedulers.py b/projects/torch_vct/utils/schedulers.py
index 4cc6689..95add35 100644
--- a/projects/torch_vct/utils/schedulers.py
+++ b/projects/torch_vct/utils/schedulers.py
@@ -46,8 +46,8 @@ class LinearRampCosineLR(torch.optim.lr_scheduler._LRScheduler):
                 1
                 + math.cos(
                     math.pi
-                    * (self.last_epoch - self.ramp_len)  # type: ignore
-                    / (self.T_max - self.ramp_len - 1)
+                    * max(self.last_epoch - self.ramp_len, 0)  # type: ignore
+                    / max(self.T_max - self.ramp_len - 1, 1)
                 )
             )
             / 2
@@ -133,8 +133,8 @@ class LinearWarmUpCosineLR(torch.optim.lr_scheduler._LRScheduler):
                 1
                 + math.cos(
                     math.pi
-                    * (self.last_epoch - self.ramp_len)  # type: ignore
-                    / (self.T_max - self.ramp_len - 1)
+                    * max(self.last_epoch - self.ramp_len, 0)  # type: ignore
+                    / max(self.T_max - self.ramp_len - 1, 1)
                 )
             )
             / 2
-- 
2.43.0


From 54c17fdc7eaa508107cc84132a7f7ca208f5dd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:09 +0000
Subject: [PATCH 26/51] fix: GAN compression training works with an
 unconditional discriminator

---
 projects/illm/gan_compression_module.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/projects/illm/gan_compression_module.py b/projects/illm/gan_compression_module.py
index bfd406c..f4bbfb7 100644
--- a/projects/illm/gan_compression_module.py
+++ b/projects/illm/gan_compression_module.py
@@ -166,8 +166,10 @@ class GANCompressionModule(TargetRateCompressionModule):
         else:
             disc_output = output
 
-        fake_logits = self.discriminator(output.image.detach(), output.latent.detach())
-        real_logits = self.discriminator(disc_images, disc_output.latent.detach())
+        fake_logits = self.run_discriminator(
+            output.image.detach(), output.latent.detach()
+        )
+        real_logits = self.run_discriminator(disc_images, disc_output.latent.detach())
 
         disc_loss = self.discriminator_loss(
             real_logits=real_logits, fake_logits=fake_logits, target=real_target
@@ -233,7 +235,7 @@ class GANCompressionModule(TargetRateCompressionModule):
 
         # generator loss
         g_loss = self.generator_loss(
-            self.discriminator(output.image, output.latent), target
+            self.run_discriminator(output.image, output.latent), target
         )
 
         # rate loss
-- 
2.43.0


From fbf70cb1672661e8fd1387b15f74257b1cde32f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:38 +0000
Subject: [PATCH 27/51] fix: DVC.decompress uses the encoder's latent size for
 frames that are not multiples of 16

---
 neuralcompression/models/deep_video_compression.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/neuralcompression/models/deep_video_compression.py b/neuralcompression/models/deep_video_compression.py
index afb61e2..24e10a1 100644
--- a/neuralcompression/models/deep_video_compression.py
+++ b/neuralcompression/models/deep_video_compression.py
@@ -224,9 +224,10 @@ class DVC(nn.Module):
             An estimate of ``image2`` using ``image1`` and the compressed
                 transition information.
         """
+        # the stride-2 convolutions of the encoder round odd sizes up
         flow_latent_size = (
-            compressed_pframe.flow_decomp_sizes[-1][-2] // 2,
-            compressed_pframe.flow_decomp_sizes[-1][-1] // 2,
+            (compressed_pframe.flow_decomp_sizes[-1][-2] + 1) // 2,
+            (compressed_pframe.flow_decomp_sizes[-1][-1] + 1) // 2,
         )
         flow_latent = self.motion_entropy_bottleneck.decompress(
             compressed_pframe.compressed_flow, flow_latent_size
@@ -241,8 +242,8 @@ class DVC(nn.Module):
 
         # decode residual
         residual_latent_size = (
-            compressed_pframe.residual_decomp_sizes[-1][-2] // 2,
-            compressed_pframe.residual_decomp_sizes[-1][-1] // 2,
+            (compressed_pframe.residual_decomp_sizes[-1][-2] + 1) // 2,
+            (compressed_pframe.residual_decomp_sizes[-1][-1] + 1) // 2,
         )
         residual_latent = self.residual_entropy_bottleneck.decompress(
             compressed_pframe.compressed_residual, residual_latent_size
-- 
2.43.0


From 3fca3b27a09f3cf3ba0d7cda9ef7eead11187230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:51 +0000
Subject: [PATCH 28/51] fix: DVC validation bits per pixel include the I-frame,
 as in training

---
 projects/deep_video_compression/dvc_module.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projects/deep_video_compression/dvc_module.py b/projects/deep_video_compression/dvc_module.py
index b849609..b5d1819 100644
--- a/projects/deep_video_compression/dvc_module.py
+++ b/projects/deep_video_compression/dvc_module.py
@@ -277,18 +277,19 @@ class DvcModule(LightningModule):
 
     def validation_step(self, batch, batch_idx):
         log_key = f"{self.training_stage}/val_"
+        batch, iframe_bpp = self.compress_iframe(batch)  # bpp_total w/o grads
+
         # gop = "Group of Pictures"
         logging_metrics = LoggingMetrics(
             gop_total_loss=0,
             gop_distortion_loss=0,
-            gop_bpp=0,
+            gop_bpp=iframe_bpp,
             gop_flow_bpp=0,
             gop_residual_bpp=0,
         )
         image2_list = []
         image2_est_list = []
 
-        batch, gop_bpp = self.compress_iframe(batch)  # bpp_total w/o grads
         image1 = batch[:, 0]
         for i in range(self.num_pframes):
             image2 = batch[:, i + 1]
-- 
2.43.0


From 1a7c04fb774ff6dfcab3898fec7c4ab2d52bd5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:51 +0000
Subject: [PATCH 29/51] fix: compressing the DVC I-frame no longer overwrites
 the caller's batch

---
 projects/deep_video_compression/dvc_module.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/deep_video_compression/dvc_module.py b/projects/deep_video_compression/dvc_module.py
index b5d1819..e1b4fb9 100644
--- a/projects/deep_video_compression/dvc_module.py
+++ b/projects/deep_video_compression/dvc_module.py
@@ -141,6 +141,7 @@ class DvcModule(LightningModule):
         with torch.no_grad():
             output = self.iframe_model(batch[:, 0])
 
+        batch = batch.clone()  # the caller's frames stay as they are
         batch[:, 0] = output["x_hat"]
         num_pixels = batch.shape[0] * batch.shape[-2] * batch.shape[-1]
         bpp_loss = sum(
-- 
2.43.0


From 9e4af7650270f1d793a3ef352a44adaad8f022bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:35 +0000
Subject: [PATCH 30/51] fix: VCT evaluation computes 8-bit PSNR without uint8
 wrap-around

---
 projects/torch_vct/model_lightning.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/projects/torch_vct/model_lightning.py b/projects/torch_vct/model_lightning.py
index 4e34f19..d7834d6 100644
--- a/projects/torch_vct/model_lightning.py
+++ b/projects/torch_vct/model_lightning.py
@@ -17,6 +17,11 @@ from torchmetrics.functional import peak_signal_noise_ratio
 from utils.hydra_tools import OmegaConf  # ! Needed for resolvets to take effect
 
 
+def to_8bit_levels(video: Tensor) -> Tensor:
+    """Round to the 256 levels of an 8-bit video, in float as uint8 wraps around."""
+    return (video * 255 + 0.5).clamp(0, 255).floor()
+
+
 class VCTModule(pytorch_lightning.LightningModule):
     """Encapsulates model + loss + optimizer + metrics in a PL module"""
 
@@ -65,8 +70,8 @@ class VCTModule(pytorch_lightning.LightningModule):
                 recon_frames, batch.video_tensor, data_range=1.0, dim=(2, 3, 4)
             ).item()
             psnr_int = peak_signal_noise_ratio(
-                (recon_frames * 255 + 0.5).to(torch.uint8),
-                (batch.video_tensor * 255 + 0.5).to(torch.uint8),
+                to_8bit_levels(recon_frames),
+                to_8bit_levels(batch.video_tensor),
                 data_range=255,
                 dim=(2, 3, 4),
             ).item()
@@ -107,8 +112,8 @@ class VCTModule(pytorch_lightning.LightningModule):
                     recon_frames, batch.video_tensor, data_range=1.0, dim=(2, 3, 4)
                 ).item(),
                 "val_PSNR_int": peak_signal_noise_ratio(
-                    (recon_frames * 255 + 0.5).to(torch.uint8),
-                    (batch.video_tensor * 255 + 0.5).to(torch.uint8),
+                    to_8bit_levels(recon_frames),
+                    to_8bit_levels(batch.video_tensor),
                     data_range=255,
                     dim=(2, 3, 4),
                 ).item(),
@@ -127,7 +132,7 @@ class VCTModule(pytorch_lightning.LightningModule):
         assert self.training is False
 
         with torch.no_grad():
-            video_ref_uint8 = (batch.video_tensor[0] * 255 + 0.5).to(torch.uint8)
+            video_ref_uint8 = to_8bit_levels(batch.video_tensor[0])
             if run_fwd:
                 self.model._code_to_strings = False
                 forward_pass = self.model(batch)
@@ -136,7 +141,7 @@ class VCTModule(pytorch_lightning.LightningModule):
                 # take the single batch and clamp it:
                 recon_clamped = torch.clamp(recon[0], 0.0, 1.0)
                 # caveat: real compression people use YCbCr
-                recon_uint8 = (recon_clamped * 255 + 0.5).to(torch.uint8)
+                recon_uint8 = to_8bit_levels(recon_clamped)
                 cts_psnr = peak_signal_noise_ratio(
                     recon_uint8, video_ref_uint8, data_range=255
                 ).item()
@@ -166,7 +171,7 @@ class VCTModule(pytorch_lightning.LightningModule):
 
             # PSNR
             # caveat: real compression people use YCbCr
-            recon_uint8 = (recon_clamped * 255 + 0.5).to(torch.uint8)
+            recon_uint8 = to_8bit_levels(recon_clamped)
             psnr = peak_signal_noise_ratio(
                 recon_uint8, video_ref_uint8, data_range=255
             ).item()
-- 
2.43.0


From ed9249c1e9248b0fe0506633251ea34b517d988f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:51 +0000
Subject: [PATCH 31/51] fix: accept non-contiguous logits and labels in the
 OASIS losses

---
 neuralcompression/loss_fn/_oasis_loss.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neuralcompression/loss_fn/_oasis_loss.py b/neuralcompression/loss_fn/_oasis_loss.py
index 11073b5..78aa56a 100644
--- a/neuralcompression/loss_fn/_oasis_loss.py
+++ b/neuralcompression/loss_fn/_oasis_loss.py
@@ -62,11 +62,11 @@ class OASISDiscriminatorLoss(DiscriminatorLoss):
 
         batch_size, num_classes, _, _ = real_logits.shape
 
-        target = target.view(batch_size, -1)
+        target = target.reshape(batch_size, -1)
         return 0.5 * (
-            F.cross_entropy(real_logits.view(batch_size, num_classes, -1), target + 1)
+            F.cross_entropy(real_logits.reshape(batch_size, num_classes, -1), target + 1)
             + F.cross_entropy(
-                fake_logits.view(batch_size, num_classes, -1),
+                fake_logits.reshape(batch_size, num_classes, -1),
                 torch.zeros_like(target),
             )
         )
@@ -105,5 +105,5 @@ class OASISGeneratorLoss(GeneratorLoss):
 
         batch_size, num_classes, _, _ = logits.shape
 
-        target = target.view(batch_size, -1)
-        return F.cross_entropy(logits.view(batch_size, num_classes, -1), target + 1)
+        target = target.reshape(batch_size, -1)
+        return F.cross_entropy(logits.reshape(batch_size, num_classes, -1), target + 1)
-- 
2.43.0


From 374acb7e34fe251494077a75819628a914a363e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:54 +0000
Subject: [PATCH 32/51] fix: honour output_downsampling_factor 2 in
 UnetDiscriminator, refuse too large ones

---
 neuralcompression/models/_unet_discriminator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neuralcompression/models/_unet_discriminator.py b/neuralcompression/models/_unet_discriminator.py
index 6b07511..41b30f6 100644
--- a/neuralcompression/models/_unet_discriminator.py
+++ b/neuralcompression/models/_unet_discriminator.py
@@ -213,6 +213,8 @@ class UnetDiscriminator(Discriminator):
         model: nn.Module = nn.Identity()
         lastchan = self.channels[-1]
         num_upsamples = len(self.channels) - 1 - num_downsamples
+        if num_upsamples < 1:
+            raise ValueError("output_downsampling_factor too large for chans")
         clip_upsample = False
         for count, chan in enumerate(reversed(self.channels[1:-1])):
             if count == num_upsamples:
@@ -234,7 +236,7 @@ class UnetDiscriminator(Discriminator):
             out_planes=64,
             child=model,
             top=True,
-            clip_upsample=clip_upsample,
+            clip_upsample=num_downsamples > 0,
             norm_type=norm_type,
         )
 
-- 
2.43.0


From f58e04372f771a03d60b5fb3a6e4609563daa446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:54 +0000
Subject: [PATCH 33/51] fix: calc_psnr of integer images

---
 neuralcompression/metrics/_calc_psnr.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/neuralcompression/metrics/_calc_psnr.py b/neuralcompression/metrics/_calc_psnr.py
index d7ef5ec..25c2503 100644
--- a/neuralcompression/metrics/_calc_psnr.py
+++ b/neuralcompression/metrics/_calc_psnr.py
@@ -22,6 +22,10 @@ def calc_psnr(image: Tensor, reference: Tensor, data_range: float = 255.0) -> Te
     Returns:
         PSNR between image and reference.
     """
+    if not image.is_floating_point():  # integer differences wrap around
+        image = image.double()
+    if not reference.is_floating_point():
+        reference = reference.double()
     mse = torch.mean((image - reference) ** 2)
     return 20.0 * math.log10(data_range) - 10.0 * torch.log10(mse)
 
@@ -40,5 +44,9 @@ def calc_psnr_numpy(
     Returns:
         PSNR between image and reference.
     """
+    if not np.issubdtype(image.dtype, np.floating):  # integer differences wrap around
+        image = image.astype(np.float64)
+    if not np.issubdtype(reference.dtype, np.floating):
+        reference = reference.astype(np.float64)
     mse = np.mean((image - reference) ** 2)
     return 20.0 * math.log10(data_range) - 10.0 * np.log10(mse)
-- 
2.43.0


From 1ad14309c7e9c57cd48ae6f14707e166e5c1e87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:21 +0000
Subject: [PATCH 34/51] fix: information_content per batch element of
 non-contiguous probabilities

---
 neuralcompression/functional/_information_content.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_information_content.py b/neuralcompression/functional/_information_content.py
index f9dfc65..d8a1a61 100644
--- a/neuralcompression/functional/_information_content.py
+++ b/neuralcompression/functional/_information_content.py
@@ -43,7 +43,7 @@ def information_content(
     if reduction == "sum":
         natural = torch.sum(torch.log(probabilities))
     elif reduction == "batch_el":
-        natural = torch.log(probabilities).view(probabilities.shape[0], -1).sum(dim=-1)
+        natural = torch.log(probabilities.reshape(len(probabilities), -1)).sum(dim=-1)
     elif reduction == "none":
         natural = torch.log(probabilities)
 
-- 
2.43.0


From 7489925f0ac1b66b43cd76de97bf0881f7ac4cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:41 +0000
Subject: [PATCH 35/51] fix: Kodak force_download works when the directory
 exists

---
 neuralcompression/data/_kodak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/data/_kodak.py b/neuralcompression/data/_kodak.py
index 5c7a403..c2e89e9 100644
--- a/neuralcompression/data/_kodak.py
+++ b/neuralcompression/data/_kodak.py
@@ -83,7 +83,7 @@ class Kodak(Dataset):
                 " with dataset download anyways pass force_download=True"
             )
 
-        self.root.mkdir()
+        self.root.mkdir(exist_ok=True)
 
         for im_num in tqdm(range(1, num_imgs + 1), desc="Downloading Kodak images"):
             img_name = "kodim{:02}.png".format(im_num)
-- 
2.43.0


From 1603cb98629350c7131971210c357e2ace57bef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:41 +0000
Subject: [PATCH 36/51] fix: CLIC2020Image does not download an existing
 validation split again

---
 neuralcompression/data/_clic_2020_image.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neuralcompression/data/_clic_2020_image.py b/neuralcompression/data/_clic_2020_image.py
index b89fe8e..9eb02b4 100644
--- a/neuralcompression/data/_clic_2020_image.py
+++ b/neuralcompression/data/_clic_2020_image.py
@@ -108,6 +108,9 @@ class CLIC2020Image(Dataset):
     def download(self):
         extract_root = str(self.root)
 
+        if self.split == "val" and self.root.joinpath(self.split).exists():
+            return  # renamed below, once everything was extracted
+
         if self.split == "test":
             extract_root = self.root.joinpath("test")
 
-- 
2.43.0


From 8dee6083887ac9e9ec6aaa5dc579bd5ca0299e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:41 +0000
Subject: [PATCH 37/51] fix: Vimeo90kSeptuplet image mode works without a
 transform

---
 neuralcompression/data/_vimeo_90k_septuplet.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/neuralcompression/data/_vimeo_90k_septuplet.py b/neuralcompression/data/_vimeo_90k_septuplet.py
index 403ff13..25d353d 100644
--- a/neuralcompression/data/_vimeo_90k_septuplet.py
+++ b/neuralcompression/data/_vimeo_90k_septuplet.py
@@ -109,8 +109,11 @@ class Vimeo90kSeptuplet(Dataset):
             return len(self.folder_list) * self.frames_per_group
 
     def load_image(self, septuplet: Path, frame_number: int) -> Tensor:
-        img_path = default_loader(str(septuplet / f"im{frame_number}.png"))
-        img = self.pil_transform(img_path)
+        img = default_loader(str(septuplet / f"im{frame_number}.png"))
+        if self.pil_transform is None:
+            return img
+
+        img = self.pil_transform(img)
         if not isinstance(img, Tensor):
             raise RuntimeError(
                 "Tensor not returned from pil_transform. "
-- 
2.43.0


From aa11a0c8a4d3b51b1a2ca8abd6f32dff8d446faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:41 +0000
Subject: [PATCH 38/51] fix: CLIC2020Video plays frames in order

---
 neuralcompression/data/_clic_2020_video.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neuralcompression/data/_clic_2020_video.py b/neuralcompression/data/_clic_2020_video.py
index 23302e6..46936ae 100644
--- a/neuralcompression/data/_clic_2020_video.py
+++ b/neuralcompression/data/_clic_2020_video.py
@@ -86,7 +86,7 @@ class CLIC2020Video(IterableDataset):
         if download:
             self.download()
 
-        self._video_paths = [Path(path.name) for path in self._root.glob("*")]
+        self._video_paths = sorted(Path(path.name) for path in self._root.glob("*"))
 
         self._video_sampler = video_sampler(self._video_paths)
 
@@ -98,9 +98,9 @@ class CLIC2020Video(IterableDataset):
         if self._current_video:
             video, index = self._current_video
         else:
-            video_frame_paths = [
-                *self._root.joinpath(self._video_paths[index]).glob("*_y.png")
-            ]
+            video_frame_paths = sorted(
+                self._root.joinpath(self._video_paths[index]).glob("*_y.png")
+            )
 
             video = FrameVideo.from_frame_paths(
                 video_frame_paths,
-- 
2.43.0


From ace29c79f8ff00f3bc7d269652b42e73d8ed0e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:07 +0000
Subject: [PATCH 39/51] fix: CLIC2020Video iterates over all clips of all
 videos

---
 neuralcompression/data/_clic_2020_video.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neuralcompression/data/_clic_2020_video.py b/neuralcompression/data/_clic_2020_video.py
index 46936ae..7b2a043 100644
--- a/neuralcompression/data/_clic_2020_video.py
+++ b/neuralcompression/data/_clic_2020_video.py
@@ -155,7 +155,10 @@ class CLIC2020Video(IterableDataset):
                 ),
             )
 
-        index = next(self._video_sampler_iterator)
+        if self._current_video:
+            _, index = self._current_video
+        else:
+            index = next(self._video_sampler_iterator)
 
         return self[index]
 
-- 
2.43.0


From 69af20ffb75aa53e639cfd193f4522bb70d2197c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:08 +0000
Subject: [PATCH 40/51] fix: CLIC2020Video can be iterated over again

---
 neuralcompression/data/_clic_2020_video.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/neuralcompression/data/_clic_2020_video.py b/neuralcompression/data/_clic_2020_video.py
index 7b2a043..d7dc738 100644
--- a/neuralcompression/data/_clic_2020_video.py
+++ b/neuralcompression/data/_clic_2020_video.py
@@ -145,6 +145,14 @@ class CLIC2020Video(IterableDataset):
         return sample
 
     def __iter__(self):
+        self._video_sampler_iterator = None
+
+        self._current_video = None
+
+        self._next_clip_start_sec = 0.0
+
+        self._clip_sampler.reset()
+
         return self
 
     def __next__(self) -> Dict:
-- 
2.43.0


From c2bfc5fa2dfb2da4f76de7abad758ed7fcc80b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:08 +0000
Subject: [PATCH 41/51] fix: OpenImagesDataModule works without worker
 processes

---
 projects/illm/open_images_datamodule.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/projects/illm/open_images_datamodule.py b/projects/illm/open_images_datamodule.py
index 27573d6..08c5eef 100644
--- a/projects/illm/open_images_datamodule.py
+++ b/projects/illm/open_images_datamodule.py
@@ -73,7 +73,6 @@ class OpenImagesDataModule(LightningDataModule):
             shuffle=True,
             num_workers=self.workers,
             pin_memory=self.pin_memory,
-            prefetch_factor=2,
         )
 
     def val_dataloader(self):
-- 
2.43.0


From 001b9ed45e1a6b5ff7febdb026f23cd423c50a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:08 +0000
Subject: [PATCH 42/51] fix: UVG frames can be normalized

---
 projects/torch_vct/datamodules/uvg.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/projects/torch_vct/datamodules/uvg.py b/projects/torch_vct/datamodules/uvg.py
index eacd297..34ca0a4 100644
--- a/projects/torch_vct/datamodules/uvg.py
+++ b/projects/torch_vct/datamodules/uvg.py
@@ -10,8 +10,7 @@ import torch.utils.data
 import torchvision
 from datamodules.video_data_api import VideoDataset
 from pytorch_lightning import LightningDataModule
-from pytorchvideo.transforms import Normalize
-from torchvision.transforms import Compose, ToTensor
+from torchvision.transforms import Compose, Normalize, ToTensor
 
 
 class UVGDataModule(LightningDataModule):
-- 
2.43.0


From 2b89ac0877a656698e3d08b7ab56184146d531f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:11 +0000
Subject: [PATCH 43/51] fix: CLIC2020Video shares videos between worker
 processes

---
 neuralcompression/data/_clic_2020_video.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/neuralcompression/data/_clic_2020_video.py b/neuralcompression/data/_clic_2020_video.py
index d7dc738..de5025b 100644
--- a/neuralcompression/data/_clic_2020_video.py
+++ b/neuralcompression/data/_clic_2020_video.py
@@ -88,7 +88,17 @@ class CLIC2020Video(IterableDataset):
 
         self._video_paths = sorted(Path(path.name) for path in self._root.glob("*"))
 
-        self._video_sampler = video_sampler(self._video_paths)
+        # all workers need the same random order to share the videos
+        self._video_random_generator = None
+        if video_sampler == RandomSampler:
+            self._video_random_generator = torch.Generator().manual_seed(
+                int(torch.empty((), dtype=torch.int64).random_().item())
+            )
+            self._video_sampler = RandomSampler(
+                self._video_paths, generator=self._video_random_generator
+            )
+        else:
+            self._video_sampler = video_sampler(self._video_paths)
 
         self._video_sampler_iterator = iter(MultiProcessSampler(self._video_sampler))
 
@@ -153,6 +163,10 @@ class CLIC2020Video(IterableDataset):
 
         self._clip_sampler.reset()
 
+        worker_info = torch.utils.data.get_worker_info()
+        if self._video_random_generator is not None and worker_info is not None:
+            self._video_random_generator.manual_seed(worker_info.seed - worker_info.id)
+
         return self
 
     def __next__(self) -> Dict:
-- 
2.43.0


From e4e74a655d5ac9b28feda8d2838f92188eafad0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:36 +0000
Subject: [PATCH 44/51] fix: VCTPipeline can be called after compress_video

---
 projects/torch_vct/model_pipeline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/torch_vct/model_pipeline.py b/projects/torch_vct/model_pipeline.py
index 2a9fdc8..2cd2762 100644
--- a/projects/torch_vct/model_pipeline.py
+++ b/projects/torch_vct/model_pipeline.py
@@ -410,6 +410,7 @@ class VCTPipeline(nn.Module):
                     outputs from the bottleneck module, e.g. to compute rate.
         """
         video.validate_shape()
+        self._code_to_strings = None  # may be set by an earlier `compress_video`
         if not self.training:
             video_shape = video.spatial_shape
             inputs = self._pad(video.video_tensor, video_shape)
-- 
2.43.0


From dd1f66bf42a5154ec2ed707a90b6f8a6b224e7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:53 +0000
Subject: [PATCH 45/51] fix: BitsBackCodec.state_dict keeps the extra bytes

---
 projects/bits_back_diffusion/bits_back_diffusion/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/bits_back_diffusion/bits_back_diffusion/codec.py b/projects/bits_back_diffusion/bits_back_diffusion/codec.py
index 55787a2..becd85a 100644
--- a/projects/bits_back_diffusion/bits_back_diffusion/codec.py
+++ b/projects/bits_back_diffusion/bits_back_diffusion/codec.py
@@ -654,7 +654,7 @@ class BitsBackCodec:
         return {
             "flat_message": self.flat_message,
             "data_count": self.data_count,
-            "extr_bytes": self.extra_bytes,
+            "extra_bytes": self.extra_bytes,
             "push_bytes": self.push_bytes,
             "pop_bytes": self.pop_bytes,
             "initial_bytes": self.initial_bytes,
-- 
2.43.0


From e238bf0eef005035d157f95c67dcf6cf45a0a453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:53 +0000
Subject: [PATCH 46/51] fix: arithmetic coder reports buffers overrun by one
 byte

---
 projects/jax_entropy_coders/jax_arithmetic_coder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/jax_entropy_coders/jax_arithmetic_coder.py b/projects/jax_entropy_coders/jax_arithmetic_coder.py
index 3c712e4..a760d4e 100644
--- a/projects/jax_entropy_coders/jax_arithmetic_coder.py
+++ b/projects/jax_entropy_coders/jax_arithmetic_coder.py
@@ -579,7 +579,7 @@ def encode(
 
     bits, num_bytes = map_fun(messages, init_cdf_states)
 
-    if any([i > len(b) for b, i in zip(bits, num_bytes)]):
+    if any([i >= len(b) for b, i in zip(bits, num_bytes)]):
         raise RuntimeError("Message buffer overrun - try increasing buffer_oversize.")
 
     bits = [bytes(b[: i + 1]) for b, i in zip(bits, num_bytes)]
-- 
2.43.0


From 0106e92e368b65999e842a63848a43a4d4e14ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:12 +0000
Subject: [PATCH 47/51] fix: craystack pops the rest of a partially depleted
 tail in order

---
 projects/jax_entropy_coders/craystack/_backend.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/projects/jax_entropy_coders/craystack/_backend.py b/projects/jax_entropy_coders/craystack/_backend.py
index 742a2e2..f6ca35a 100644
--- a/projects/jax_entropy_coders/craystack/_backend.py
+++ b/projects/jax_entropy_coders/craystack/_backend.py
@@ -161,6 +161,10 @@ def tail_pop(
     limit, data = tail
     unsorted = lax.sort_key_val(pop_indices_flat, jnp.arange(pop_indices.size))[1]
 
+    # on a partially depleted stack, the remaining data is popped first and the
+    # on-demand bits come after it
+    start = limit + pop_indices.sum() - pop_indices.size
+    available = jnp.concatenate([data, data[: pop_indices.size]])
     limit = lax.cond(
         allow_empty_pop,
         lambda _: jnp.clip(limit + pop_indices.sum(), 0, len(data)),
@@ -174,7 +178,7 @@ def tail_pop(
         lax.sort_key_val(
             unsorted,
             lax.dynamic_slice(
-                data, limit - pop_indices.size, pop_indices_flat.shape  # type: ignore
+                available, start, pop_indices_flat.shape  # type: ignore
             ),
         )[1],
         pop_indices.shape,
-- 
2.43.0


From 650b52626068b2cd8f952f4b02a16d83fd4f0aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:45 +0000
Subject: [PATCH 48/51] fix: uniform bins are centred on the data levels for
 every data range

---
 projects/bits_back_diffusion/bits_back_diffusion/codec.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projects/bits_back_diffusion/bits_back_diffusion/codec.py b/projects/bits_back_diffusion/bits_back_diffusion/codec.py
index becd85a..a8881b6 100644
--- a/projects/bits_back_diffusion/bits_back_diffusion/codec.py
+++ b/projects/bits_back_diffusion/bits_back_diffusion/codec.py
@@ -703,8 +703,9 @@ def diag_gaussian_unif_bins(
         discretized using uniform bins.
     """
     n_bins = 1 << bin_prec
-    bin_min = data_min - 1 / (n_bins - 1)
-    bin_max = data_max + 1 / (n_bins - 1)
+    half_bin = (data_max - data_min) / (2 * (n_bins - 1))
+    bin_min = data_min - half_bin
+    bin_max = data_max + half_bin
 
     bins = np.linspace(bin_min, bin_max, n_bins + 1)
     bins = np.broadcast_to(np.moveaxis(bins, 0, -1), mean.shape + (n_bins + 1,))
-- 
2.43.0


From 9b0fd802e9587e4bc15d9c9dca4e33dfa80b2c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:17 +0000
Subject: [PATCH 49/51] fix: log_ndtr has a finite gradient arbitrarily far out
 in the lower tail

---
 neuralcompression/functional/_log_ndtr.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/neuralcompression/functional/_log_ndtr.py b/neuralcompression/functional/_log_ndtr.py
index eaa80b4..9e96d70 100644
--- a/neuralcompression/functional/_log_ndtr.py
+++ b/neuralcompression/functional/_log_ndtr.py
@@ -14,13 +14,15 @@ from ._ndtr import ndtr
 def _log_ndtr_asymptotic_series(x: Tensor, series_order: int = 3) -> Tensor:
     t1 = -0.5 * (math.log(2 * math.pi) + x**2) - torch.log(-x)
     t2 = torch.zeros_like(x)
-    value_even_power = (x**2).clone()
+    # powers of 1 / x**2 vanish far out, where powers of x**2 overflow
+    inverse_square = (1 / x) ** 2
+    inverse_even_power = inverse_square
     double_fac = 1
     multiplier = -1
 
     for n in range(1, series_order + 1):
-        t2.add_(multiplier * double_fac / value_even_power)
-        value_even_power.mul_(x**2)
+        t2 = t2 + multiplier * double_fac * inverse_even_power
+        inverse_even_power = inverse_even_power * inverse_square
         double_fac *= 2 * n + 1
         multiplier *= -1
 
-- 
2.43.0


From a87bbec0a9c52f217c759f1c23f77fa685f6c94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:17 +0000
Subject: [PATCH 50/51] fix: memoized tensors are keyed by the tensor as it is,
 not by a recyclable identity

---
 projects/torch_vct/utils/memoize.py | 31 ++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/projects/torch_vct/utils/memoize.py b/projects/torch_vct/utils/memoize.py
index 4acb082..5a4a304 100644
--- a/projects/torch_vct/utils/memoize.py
+++ b/projects/torch_vct/utils/memoize.py
@@ -83,6 +83,29 @@ def create_cache():
     )
 
 
+class _TensorKey:
+    """Key of a tensor as it is now.
+
+    Tensors are keyed by identity, so the key keeps the tensor alive: otherwise a new
+    tensor could reuse the identity. A tensor modified in-place is a new argument
+    (inference tensors do not track their version).
+    """
+
+    def __init__(self, x: Tensor):
+        self.tensor = x
+        self.version = None if x.is_inference() else x._version
+
+    def __hash__(self):
+        return hash((id(self.tensor), self.version))
+
+    def __eq__(self, other):
+        return (
+            isinstance(other, _TensorKey)
+            and self.tensor is other.tensor
+            and self.version == other.version
+        )
+
+
 def _ensure_hashable(x: Union[list, tuple, dict, Tensor]):
     """Return a version of x that is hashable."""
     if isinstance(x, (list, tuple)):
@@ -92,7 +115,7 @@ def _ensure_hashable(x: Union[list, tuple, dict, Tensor]):
         return tuple((_ensure_hashable(k), _ensure_hashable(v)) for k, v in x.items())
 
     if isinstance(x, Tensor):
-        return hash(x)
+        return _TensorKey(x)
 
     assert hash(x) is not None
     return x
@@ -137,13 +160,11 @@ def memoize(f):
         if key in result_cache:
             assert _expect_cache_hit in [True, None]
             hit_counter[key] += 1
-            result, _ = result_cache[key]
+            result = result_cache[key]
         else:
             assert _expect_cache_hit in [False, None]
             result = f(*args, **kwargs)
-            # tensors are keyed by identity, so keep the arguments alive for as long as
-            # the entry exists: otherwise a new tensor could reuse the identity
-            result_cache[key] = (result, (key_args, key_kwargs))
+            result_cache[key] = result
         return result
 
     # for inspection/testing:
-- 
2.43.0


From c69a73485c0d015a6740eaf1a1841c1417ff891b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:17 +0000
Subject: [PATCH 51/51] fix: memoized calls distinguish arguments of different
 types

---
 projects/torch_vct/utils/memoize.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/projects/torch_vct/utils/memoize.py b/projects/torch_vct/utils/memoize.py
index 5a4a304..7962724 100644
--- a/projects/torch_vct/utils/memoize.py
+++ b/projects/torch_vct/utils/memoize.py
@@ -107,7 +107,11 @@ class _TensorKey:
 
 
 def _ensure_hashable(x: Union[list, tuple, dict, Tensor]):
-    """Return a version of x that is hashable."""
+    """Return a version of x that is hashable and distinguishes types (`1 == True`)."""
+    return type(x), _hashable_value(x)
+
+
+def _hashable_value(x: Union[list, tuple, dict, Tensor]):
     if isinstance(x, (list, tuple)):
         return tuple(_ensure_hashable(y) for y in x)
 
-- 
2.43.0

