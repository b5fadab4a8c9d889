From cf8889497ac04a62766592d12257ef11c555753d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:21 +0000
Subject: [PATCH 01/26] fix: DVC decompress uses the latent size the stride-2
 encoder produced for odd sizes

---
 neuralcompression/models/deep_video_compression.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neuralcompression/models/deep_video_compression.py b/neuralcompression/models/deep_video_compression.py
index afb61e2..6f1d35b 100644
--- a/neuralcompression/models/deep_video_compression.py
+++ b/neuralcompression/models/deep_video_compression.py
@@ -225,8 +225,8 @@ class DVC(nn.Module):
                 transition information.
         """
         flow_latent_size = (
-            compressed_pframe.flow_decomp_sizes[-1][-2] // 2,
-            compressed_pframe.flow_decomp_sizes[-1][-1] // 2,
+            (compressed_pframe.flow_decomp_sizes[-1][-2] + 1) // 2,
+            (compressed_pframe.flow_decomp_sizes[-1][-1] + 1) // 2,
         )
         flow_latent = self.motion_entropy_bottleneck.decompress(
             compressed_pframe.compressed_flow, flow_latent_size
@@ -241,8 +241,8 @@ class DVC(nn.Module):
 
         # decode residual
         residual_latent_size = (
-            compressed_pframe.residual_decomp_sizes[-1][-2] // 2,
-            compressed_pframe.residual_decomp_sizes[-1][-1] // 2,
+            (compressed_pframe.residual_decomp_sizes[-1][-2] + 1) // 2,
+            (compressed_pframe.residual_decomp_sizes[-1][-1] + 1) // 2,
         )
         residual_latent = self.residual_entropy_bottleneck.decompress(
             compressed_pframe.compressed_residual, residual_latent_size
-- 
2.43.0


From 9c2860a9c2e33da62c88a0aa3aa50e980b35a0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:21 +0000
Subject: [PATCH 02/26] fix: lower_bound 'disconnected' gradient masks the
 incoming gradient

---
 neuralcompression/functional/_lower_bound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_lower_bound.py b/neuralcompression/functional/_lower_bound.py
index be17e47..945f5c5 100644
--- a/neuralcompression/functional/_lower_bound.py
+++ b/neuralcompression/functional/_lower_bound.py
@@ -28,7 +28,7 @@ class _LowerBound(Function):
         x, bound, gradient = ctx.saved_tensors
 
         if int(gradient) == _LowerBoundGradient.disconnected:
-            return x, None, None
+            return (x >= bound) * y, None, None
 
         if int(gradient) == _LowerBoundGradient.identity:
             return y, None, None
-- 
2.43.0


From b607ace64b691f04b9d1cd15ddf56f86a3309f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:21 +0000
Subject: [PATCH 03/26] fix: lower_bound accepts a float bound

---
 neuralcompression/functional/_lower_bound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_lower_bound.py b/neuralcompression/functional/_lower_bound.py
index 945f5c5..7b5691b 100644
--- a/neuralcompression/functional/_lower_bound.py
+++ b/neuralcompression/functional/_lower_bound.py
@@ -39,7 +39,7 @@ class _LowerBound(Function):
     def forward(ctx, *args):
         x, bound, gradient = args
 
-        bound = bound.to(x.dtype)
+        bound = torch.as_tensor(bound, dtype=x.dtype, device=x.device)
 
         ctx.save_for_backward(
             x,
-- 
2.43.0


From cb9df083dd8d9c3bbb1ed43c5d5753d7ae571d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:21 +0000
Subject: [PATCH 04/26] fix: log_survival_function is log(1 - cdf(x)) for every
 distribution

---
 neuralcompression/functional/_log_survival_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_log_survival_function.py b/neuralcompression/functional/_log_survival_function.py
index bdb76fe..9a037fb 100644
--- a/neuralcompression/functional/_log_survival_function.py
+++ b/neuralcompression/functional/_log_survival_function.py
@@ -30,4 +30,4 @@ def log_survival_function(
 
         return log_ndtr(-standardized)
 
-    return torch.log1p(distribution.cdf(-x))
+    return torch.log1p(-distribution.cdf(x))
-- 
2.43.0


From f2e09ae795efbccac7c3429ae02cf67d8fc7befa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:21 +0000
Subject: [PATCH 05/26] fix: log_cdf of a uniform distribution honours its
 support

---
 neuralcompression/functional/_log_cdf.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/neuralcompression/functional/_log_cdf.py b/neuralcompression/functional/_log_cdf.py
index c1c80e5..cfc5b39 100644
--- a/neuralcompression/functional/_log_cdf.py
+++ b/neuralcompression/functional/_log_cdf.py
@@ -5,7 +5,7 @@
 
 import torch
 from torch import Tensor
-from torch.distributions import Distribution, Normal, Uniform
+from torch.distributions import Distribution, Normal
 
 from ._log_ndtr import log_ndtr
 
@@ -30,7 +30,4 @@ def log_cdf(
 
         return log_ndtr(standardized)
 
-    if isinstance(distribution, Uniform):
-        return torch.log(x)
-
     return torch.log(distribution.cdf(x))
-- 
2.43.0


From 87b9e25a88b2ab79a3d4c9fe28d7ee1ee159ff66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:21 +0000
Subject: [PATCH 06/26] fix: log_ndtr evaluates the normal CDF in the precision
 of its input

---
 neuralcompression/functional/_log_ndtr.py |  6 +++---
 neuralcompression/functional/_ndtr.py     | 26 +++++++++++++----------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/neuralcompression/functional/_log_ndtr.py b/neuralcompression/functional/_log_ndtr.py
index 57a6d57..5a5ac14 100644
--- a/neuralcompression/functional/_log_ndtr.py
+++ b/neuralcompression/functional/_log_ndtr.py
@@ -8,7 +8,7 @@ import math
 import torch
 from torch import Tensor
 
-from ._ndtr import ndtr
+from ._ndtr import _ndtr
 
 
 def _log_ndtr_asymptotic_series(x: Tensor, series_order: int = 3) -> Tensor:
@@ -48,10 +48,10 @@ def log_ndtr(x: Tensor) -> Tensor:
 
     return torch.where(
         x > n,
-        torch.log1p(-ndtr(-x)),
+        torch.log1p(-_ndtr(-x)),
         torch.where(
             x >= m,
-            torch.log(ndtr(x)),
+            torch.log(_ndtr(x)),
             _log_ndtr_asymptotic_series(x),
         ),
     )
diff --git a/neuralcompression/functional/_ndtr.py b/neuralcompression/functional/_ndtr.py
index 6cb2bce..8b9203b 100644
--- a/neuralcompression/functional/_ndtr.py
+++ b/neuralcompression/functional/_ndtr.py
@@ -9,17 +9,8 @@ import torch
 from torch import Tensor
 
 
-def ndtr(x: Tensor) -> Tensor:
-    """The normal cumulative distribution function (CDF).
-
-    Args:
-        x: the input tensor.
-
-    Returns:
-        the area under the standard Normal probability density function (PDF),
-        integrated from negative infinity to :math:`x`.
-    """
-    x = x.to(torch.float) * math.sqrt(0.5)
+def _ndtr(x: Tensor) -> Tensor:
+    x = x * math.sqrt(0.5)
 
     y = 0.5 * torch.erfc(abs(x))
 
@@ -32,3 +23,16 @@ def ndtr(x: Tensor) -> Tensor:
             y,
         ),
     )
+
+
+def ndtr(x: Tensor) -> Tensor:
+    """The normal cumulative distribution function (CDF).
+
+    Args:
+        x: the input tensor.
+
+    Returns:
+        the area under the standard Normal probability density function (PDF),
+        integrated from negative infinity to :math:`x`.
+    """
+    return _ndtr(x.to(torch.float))
-- 
2.43.0


From 186600869ddf2790e787261ce839ca81a8fa0570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:21 +0000
Subject: [PATCH 07/26] fix: log_ndtr asymptotic series uses the odd double
 factorials

---
 neuralcompression/functional/_log_ndtr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_log_ndtr.py b/neuralcompression/functional/_log_ndtr.py
index 5a5ac14..62d522a 100644
--- a/neuralcompression/functional/_log_ndtr.py
+++ b/neuralcompression/functional/_log_ndtr.py
@@ -21,7 +21,7 @@ def _log_ndtr_asymptotic_series(x: Tensor, series_order: int = 3) -> Tensor:
     for n in range(1, series_order + 1):
         t2.add_(multiplier * double_fac / value_even_power)
         value_even_power.mul_(x**2)
-        double_fac *= 2 * n - 1
+        double_fac *= 2 * n + 1
         multiplier *= -1
 
     return t1 + torch.log1p(t2)
-- 
2.43.0


From 49c5ba0f9546ec67fe2a6728e60ebcbad1e5737e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:21 +0000
Subject: [PATCH 08/26] fix: QBottleneck.reset_hits clears the hit counters

---
 neuralcompression/layers/_q_bottleneck.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuralcompression/layers/_q_bottleneck.py b/neuralcompression/layers/_q_bottleneck.py
index 6b25ad3..734b51f 100644
--- a/neuralcompression/layers/_q_bottleneck.py
+++ b/neuralcompression/layers/_q_bottleneck.py
@@ -91,8 +91,8 @@ class QBottleneck(nn.Module):
         self.register_buffer("percentage_hits", torch.zeros(num_codebooks))
 
     def reset_hits(self):
-        for codebook_hits in self.named_buffers(prefix="codebook_hits"):
-            codebook_hits *= 0
+        for level in range(len(self.codebooks)):
+            getattr(self, f"codebook_hits_{level}").zero_()
 
     def update_metrics(self):
         assert len(self.percentage_hits) == len(self.max_hits) == len(self.perplexities)
-- 
2.43.0


From 26e0e68ce5f31bd01d4d33348c52b79636f8a43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:21 +0000
Subject: [PATCH 09/26] fix: UniformNoise reports the batch and event shapes of
 its base distribution

---
 neuralcompression/distributions/_uniform_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/distributions/_uniform_noise.py b/neuralcompression/distributions/_uniform_noise.py
index 028a0b2..ce2871b 100644
--- a/neuralcompression/distributions/_uniform_noise.py
+++ b/neuralcompression/distributions/_uniform_noise.py
@@ -44,8 +44,8 @@ class UniformNoise(Distribution):
 
     def __init__(self, distribution: Distribution):
         super(UniformNoise, self).__init__(
-            distribution.event_shape,
             distribution.batch_shape,
+            distribution.event_shape,
         )
 
         self._distribution = distribution
-- 
2.43.0


From a8d56a021d6b345b6ef810341180f42c27e970f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:21 +0000
Subject: [PATCH 10/26] fix: expanding a UniformNoise distribution keeps the
 noise

---
 neuralcompression/distributions/_uniform_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/distributions/_uniform_noise.py b/neuralcompression/distributions/_uniform_noise.py
index ce2871b..25cb865 100644
--- a/neuralcompression/distributions/_uniform_noise.py
+++ b/neuralcompression/distributions/_uniform_noise.py
@@ -82,7 +82,7 @@ class UniformNoise(Distribution):
         return self._distribution.enumerate_support(expand)
 
     def expand(self, batch_shape, _instance=None) -> Distribution:
-        return self._distribution.expand(batch_shape)
+        return UniformNoise(self._distribution.expand(batch_shape))
 
     def icdf(self, value: Tensor) -> Tensor:
         return self._distribution.icdf(value)
-- 
2.43.0


From be6933928092a7785d2fb67b5f98f6c256477395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:21 +0000
Subject: [PATCH 11/26] fix: UniformNoise.rsample adds independent noise to
 every element

---
 neuralcompression/distributions/_uniform_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/distributions/_uniform_noise.py b/neuralcompression/distributions/_uniform_noise.py
index 25cb865..e4f5458 100644
--- a/neuralcompression/distributions/_uniform_noise.py
+++ b/neuralcompression/distributions/_uniform_noise.py
@@ -134,7 +134,7 @@ class UniformNoise(Distribution):
 
     def rsample(self, sample_shape: Size = Size()):
         a = self._distribution.sample(sample_shape)
-        b = self._uniform_distribution.sample(sample_shape)
+        b = self._uniform_distribution.sample(a.shape).to(a)
 
         return a + b
 
-- 
2.43.0


From 63b293e33f5ba50d001a60f5454c24dbdf0781fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:21 +0000
Subject: [PATCH 12/26] fix: Kodak force_download works when the root directory
 exists

---
 neuralcompression/data/_kodak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/data/_kodak.py b/neuralcompression/data/_kodak.py
index 5c7a403..f83157e 100644
--- a/neuralcompression/data/_kodak.py
+++ b/neuralcompression/data/_kodak.py
@@ -83,7 +83,7 @@ class Kodak(Dataset):
                 " with dataset download anyways pass force_download=True"
             )
 
-        self.root.mkdir()
+        self.root.mkdir(exist_ok=force)
 
         for im_num in tqdm(range(1, num_imgs + 1), desc="Downloading Kodak images"):
             img_name = "kodim{:02}.png".format(im_num)
-- 
2.43.0


From fac1e7aa4a5a0fd0da0c211c97b2fa5f58a3a441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:21 +0000
Subject: [PATCH 13/26] fix: KernelInceptionDistance.compute honours its
 constructor arguments

---
 neuralcompression/metrics/_kid.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/neuralcompression/metrics/_kid.py b/neuralcompression/metrics/_kid.py
index 1ea8fce..4c25a3b 100644
--- a/neuralcompression/metrics/_kid.py
+++ b/neuralcompression/metrics/_kid.py
@@ -87,6 +87,15 @@ class KernelInceptionDistance(Metric):
         output = kid_features_to_metric(
             torch.cat(self.real_features).to(torch.float64),
             torch.cat(self.fake_features).to(torch.float64),
+            kid_subsets=self.subsets,
+            kid_subset_size=self.subset_size,
+            # kernel arguments, under the names before and since torch-fidelity 0.4
+            kid_degree=self.degree,
+            kid_gamma=self.gamma,
+            kid_coef0=self.coef,
+            kid_kernel_poly_degree=self.degree,
+            kid_kernel_poly_gamma=self.gamma,
+            kid_kernel_poly_coef0=self.coef,
         )
         return (
             torch.tensor(output["kernel_inception_distance_mean"]),
-- 
2.43.0


From d9aefe21fc5fee93d38d06c7104f70393326b4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:21 +0000
Subject: [PATCH 14/26] fix: ContinuousEntropy.quantize converts rounded floats
 to integers

---
 neuralcompression/layers/_continuous_entropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/layers/_continuous_entropy.py b/neuralcompression/layers/_continuous_entropy.py
index f292303..3e3cdbc 100644
--- a/neuralcompression/layers/_continuous_entropy.py
+++ b/neuralcompression/layers/_continuous_entropy.py
@@ -299,7 +299,7 @@ class ContinuousEntropy(Module):
 
         outputs = torch.round(outputs)
 
-        return IntTensor(outputs)
+        return outputs.to(torch.int32)
 
     def _update(self):
         quantization_offset = ncF.quantization_offset(self.prior)
-- 
2.43.0


From eafbc7cddef50e8f7a9c108d193914d8f4172ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:21 +0000
Subject: [PATCH 15/26] fix: VCT entropy model rejects unsupported context
 lengths

---
 projects/torch_vct/neural/entropy_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/torch_vct/neural/entropy_model.py b/projects/torch_vct/neural/entropy_model.py
index e33a5f9..f7e2f30 100644
--- a/projects/torch_vct/neural/entropy_model.py
+++ b/projects/torch_vct/neural/entropy_model.py
@@ -327,7 +327,7 @@ class VCTEntropyModel(nn.Module):
                     else [encoded_seqs[0]] * 2 + [encoded_seqs[1]]
                 )
             else:
-                ValueError(f"Unsupported context_len={self.context_len}")
+                raise ValueError(f"Unsupported context_len={self.context_len}")
         return encoded_seqs
 
     def forward(
-- 
2.43.0


From 97afa1b3d8746806511981b077ca0e346277c208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:21 +0000
Subject: [PATCH 16/26] fix: bits-back codec state uses the name it restores

---
 projects/bits_back_diffusion/bits_back_diffusion/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/bits_back_diffusion/bits_back_diffusion/codec.py b/projects/bits_back_diffusion/bits_back_diffusion/codec.py
index 55787a2..becd85a 100644
--- a/projects/bits_back_diffusion/bits_back_diffusion/codec.py
+++ b/projects/bits_back_diffusion/bits_back_diffusion/codec.py
@@ -654,7 +654,7 @@ class BitsBackCodec:
         return {
             "flat_message": self.flat_message,
             "data_count": self.data_count,
-            "extr_bytes": self.extra_bytes,
+            "extra_bytes": self.extra_bytes,
             "push_bytes": self.push_bytes,
             "pop_bytes": self.pop_bytes,
             "initial_bytes": self.initial_bytes,
-- 
2.43.0


From 9ae2e9b0cfcd74133752be942f52a48592f8ef28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:32 +0000
Subject: [PATCH 17/26] fix: CLIC2020Video reads the frames of a video in
 temporal order

---
 neuralcompression/data/_clic_2020_video.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neuralcompression/data/_clic_2020_video.py b/neuralcompression/data/_clic_2020_video.py
index 23302e6..f20273c 100644
--- a/neuralcompression/data/_clic_2020_video.py
+++ b/neuralcompression/data/_clic_2020_video.py
@@ -98,9 +98,9 @@ class CLIC2020Video(IterableDataset):
         if self._current_video:
             video, index = self._current_video
         else:
-            video_frame_paths = [
-                *self._root.joinpath(self._video_paths[index]).glob("*_y.png")
-            ]
+            video_frame_paths = sorted(
+                self._root.joinpath(self._video_paths[index]).glob("*_y.png")
+            )
 
             video = FrameVideo.from_frame_paths(
                 video_frame_paths,
-- 
2.43.0


From fc25f6cc1896599133f2e7d995248ea6390c4d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:32 +0000
Subject: [PATCH 18/26] fix: CLIC2020Video iteration does not skip videos with
 several clips

---
 neuralcompression/data/_clic_2020_video.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neuralcompression/data/_clic_2020_video.py b/neuralcompression/data/_clic_2020_video.py
index f20273c..ab2450d 100644
--- a/neuralcompression/data/_clic_2020_video.py
+++ b/neuralcompression/data/_clic_2020_video.py
@@ -155,7 +155,11 @@ class CLIC2020Video(IterableDataset):
                 ),
             )
 
-        index = next(self._video_sampler_iterator)
+        if self._current_video:
+            # clips of this video remain, so no new video is drawn
+            _, index = self._current_video
+        else:
+            index = next(self._video_sampler_iterator)
 
         return self[index]
 
-- 
2.43.0


From 5023dc15c9823c78c8338cd97e10a75ebb0777db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:32 +0000
Subject: [PATCH 19/26] fix: Vimeo90kSeptuplet image mode works without a
 transform

---
 neuralcompression/data/_vimeo_90k_septuplet.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neuralcompression/data/_vimeo_90k_septuplet.py b/neuralcompression/data/_vimeo_90k_septuplet.py
index 403ff13..d99a849 100644
--- a/neuralcompression/data/_vimeo_90k_septuplet.py
+++ b/neuralcompression/data/_vimeo_90k_septuplet.py
@@ -109,8 +109,10 @@ class Vimeo90kSeptuplet(Dataset):
             return len(self.folder_list) * self.frames_per_group
 
     def load_image(self, septuplet: Path, frame_number: int) -> Tensor:
-        img_path = default_loader(str(septuplet / f"im{frame_number}.png"))
-        img = self.pil_transform(img_path)
+        img = default_loader(str(septuplet / f"im{frame_number}.png"))
+        if self.pil_transform is None:
+            return img
+        img = self.pil_transform(img)
         if not isinstance(img, Tensor):
             raise RuntimeError(
                 "Tensor not returned from pil_transform. "
-- 
2.43.0


From 4a95d75ff53b40318c5a1af3ca6a1171b622b677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:12 +0000
Subject: [PATCH 20/26] fix: UnetDiscriminator clips the top level for
 output_downsampling_factor=2

---
 neuralcompression/models/_unet_discriminator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/models/_unet_discriminator.py b/neuralcompression/models/_unet_discriminator.py
index 6b07511..bd938dc 100644
--- a/neuralcompression/models/_unet_discriminator.py
+++ b/neuralcompression/models/_unet_discriminator.py
@@ -234,7 +234,7 @@ class UnetDiscriminator(Discriminator):
             out_planes=64,
             child=model,
             top=True,
-            clip_upsample=clip_upsample,
+            clip_upsample=num_downsamples > 0,
             norm_type=norm_type,
         )
 
-- 
2.43.0


From 2bb0a6fbbfe1f09c7b3d456d75231ab9f21ae526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:12 +0000
Subject: [PATCH 21/26] fix: UnetDiscriminator output layer matches the
 features when nothing is upsampled

---
 neuralcompression/models/_unet_discriminator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neuralcompression/models/_unet_discriminator.py b/neuralcompression/models/_unet_discriminator.py
index bd938dc..42ce4de 100644
--- a/neuralcompression/models/_unet_discriminator.py
+++ b/neuralcompression/models/_unet_discriminator.py
@@ -238,7 +238,11 @@ class UnetDiscriminator(Discriminator):
             norm_type=norm_type,
         )
 
-        self.model = nn.Sequential(model, nn.Conv2d(64, output_channels, 1, 1, 0))
+        # without any upsampling the features come straight from the last level
+        out_planes = 64 if num_upsamples > 0 else self.channels[-1]
+        self.model = nn.Sequential(
+            model, nn.Conv2d(out_planes, output_channels, 1, 1, 0)
+        )
 
     @property
     def is_conditional(self) -> bool:
-- 
2.43.0


From d888dc93c12dd7620fb4d1b32a4f2cbda54cf9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:52 +0000
Subject: [PATCH 22/26] fix: VCTPipeline builds its entropy model for the
 requested context length

---
 projects/torch_vct/model_pipeline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projects/torch_vct/model_pipeline.py b/projects/torch_vct/model_pipeline.py
index a280ef9..2a9fdc8 100644
--- a/projects/torch_vct/model_pipeline.py
+++ b/projects/torch_vct/model_pipeline.py
@@ -181,7 +181,9 @@ class VCTPipeline(nn.Module):
         ), "Mismatched compression_channels"
 
         # Entropy model
-        self.entropy_model = VCTEntropyModel(num_channels=compression_channels)
+        self.entropy_model = VCTEntropyModel(
+            num_channels=compression_channels, context_len=context_len
+        )
         self._temporal_pad_token_maker = PerChannelWeight(
             num_channels=compression_channels
         )
-- 
2.43.0


From 77a7655cef4b1b7002c80bd14b5ffbe45fbb86be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:52 +0000
Subject: [PATCH 23/26] fix: ConvGDNSynthesis reports the compression channels
 it was built with

---
 projects/torch_vct/neural/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/torch_vct/neural/transforms.py b/projects/torch_vct/neural/transforms.py
index a9c409a..b62b2b7 100644
--- a/projects/torch_vct/neural/transforms.py
+++ b/projects/torch_vct/neural/transforms.py
@@ -73,7 +73,7 @@ class ConvGDNSynthesis(nn.Module):
         """
 
         super().__init__()
-        self._compression_channels = 192
+        self._compression_channels = compression_channels
 
         self.transforms = nn.Sequential(
             make_deconv(
-- 
2.43.0


From c2a0f7c4b728ef1a8b09191bbbb2aeb5c77abe09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:52 +0000
Subject: [PATCH 24/26] fix: StochasticDepth draws its mask on the input device

---
 projects/torch_vct/neural/layers_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projects/torch_vct/neural/layers_utils.py b/projects/torch_vct/neural/layers_utils.py
index 08516cc..3c983c4 100644
--- a/projects/torch_vct/neural/layers_utils.py
+++ b/projects/torch_vct/neural/layers_utils.py
@@ -301,7 +301,9 @@ class StochasticDepth(nn.Module):
         batch_size = input.shape[0]
         random_tensor = keep_prob
         random_tensor = random_tensor + torch.rand(
-            [batch_size] + [1] * (input.dim() - 1), dtype=input.dtype
+            [batch_size] + [1] * (input.dim() - 1),
+            dtype=input.dtype,
+            device=input.device,
         )
         binary_tensor = torch.floor(random_tensor)
         return input / keep_prob * binary_tensor
-- 
2.43.0


From 86bdec0e0fbcacfd826bde9fd15310dc9e4b14ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:52 +0000
Subject: [PATCH 25/26] fix: memoize keys keep their tensors alive so that a
 reused id is not a hit

---
 projects/torch_vct/utils/memoize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/torch_vct/utils/memoize.py b/projects/torch_vct/utils/memoize.py
index a2cf585..9e28afa 100644
--- a/projects/torch_vct/utils/memoize.py
+++ b/projects/torch_vct/utils/memoize.py
@@ -92,7 +92,8 @@ def _ensure_hashable(x: Union[list, tuple, dict, Tensor]):
         return tuple((_ensure_hashable(k), _ensure_hashable(v)) for k, v in x.items())
 
     if isinstance(x, Tensor):
-        return hash(x)
+        # hashed by identity; keeping the tensor in the key keeps its id from being reused
+        return x
 
     assert hash(x) is not None
     return x
-- 
2.43.0


From eb5fc18aa3c3afeb43d078c21333548fadeff227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:14 +0000
Subject: [PATCH 26/26] fix: ContinuousEntropy keeps its prior also when it is
 not compressible

---
 neuralcompression/layers/_continuous_entropy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuralcompression/layers/_continuous_entropy.py b/neuralcompression/layers/_continuous_entropy.py
index 3e3cdbc..2edcbb3 100644
--- a/neuralcompression/layers/_continuous_entropy.py
+++ b/neuralcompression/layers/_continuous_entropy.py
@@ -97,6 +97,8 @@ class ContinuousEntropy(Module):
 
         self._range_coder_precision = range_coder_precision
 
+        self._prior = prior
+
         if prior is None:
             if prior_shape is None or prior_dtype is None:
                 error_message = r"""either `prior` or both `prior_dtype` and
@@ -128,8 +130,6 @@ class ContinuousEntropy(Module):
                 raise ValueError(error_message)
 
             if prior is not None:
-                self._prior = prior
-
                 cdfs, cdf_sizes, cdf_offsets = self._update()
             elif maximum_cdf_size is not None:
                 if self.stateless:
-- 
2.43.0

