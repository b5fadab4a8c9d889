"""Set-based and perceptual metrics: accumulation over updates and routing of real and generated images."""
import torch
import torch.nn as nn
import neuralcompression.functional as ncF
from torch_fidelity.metric_fid import fid_features_to_statistics, fid_statistics_to_metric
from torch_fidelity.metric_kid import kid_features_to_metric
from torchmetrics.image.fid import NoTrainInceptionV3
from torchmetrics.image.kid import NoTrainInceptionV3 as KidInception
from torchvision.transforms import Normalize
from neuralcompression.metrics._fid_swav import NoTrainSwAV
from neuralcompression.metrics._dists import NoTrainDists

OPQ = ("neuralcompression.functional.multiscale_structural_similarity", "neuralcompression.metrics._fid_swav.NoTrainSwAV",
       "neuralcompression.metrics._dists.NoTrainDists")


def route(self, features, real):
    if real:
        self.real_features.append(features.cpu())
    else:
        self.fake_features.append(features.cpu())


def row(features):
    return features.unsqueeze(0) if features.dim() == 1 else features


def fid(self):
    a = fid_features_to_statistics(torch.cat(self.real_features).to(torch.float64))
    b = fid_features_to_statistics(torch.cat(self.fake_features).to(torch.float64))
    return torch.tensor(fid_statistics_to_metric(a, b, False)["frechet_inception_distance"])


@contract("neuralcompression.metrics.FrechetInceptionDistance.update")
def fid_update(self, imgs, real):
    """Features of every update are kept, real ones with real ones and generated ones with generated ones, on the CPU."""
    x = (imgs * 255).byte() if self.normalize else imgs
    route(self, row(self.inception(x)), real)


@contract("neuralcompression.metrics.FrechetInceptionDistance.compute")
def fid_compute(self):
    """Both feature sets enter in full and in double precision."""
    return fid(self)


@contract("neuralcompression.metrics.FrechetInceptionDistance", facets=["raises", "effects", "attrs"], only=["normalize", "inception"])
def fid_ctor(self, feature=2048, normalize=False, **kwargs):
    """Only the four feature layers; states are concatenated across processes."""
    super().__init__(**kwargs)
    if feature not in (64, 192, 768, 2048):
        raise ValueError
    if not isinstance(normalize, bool):
        raise ValueError
    self.inception = NoTrainInceptionV3(name="inception-v3-compat", features_list=[str(feature)])
    self.normalize = normalize
    self.add_state("real_features", [], dist_reduce_fx="cat")
    self.add_state("fake_features", [], dist_reduce_fx="cat")


@contract("neuralcompression.metrics.FrechetInceptionDistanceSwAV.update", opaque=OPQ)
def swav_update(self, imgs, real):
    """Images on the 0..255 scale are brought to 0..1 and normalised before the features are taken."""
    route(self, row(self.feature_extractor(self.normalize(imgs.float() / 255.0))), real)


@contract("neuralcompression.metrics.FrechetInceptionDistanceSwAV.compute", opaque=OPQ)
def swav_compute(self):
    """Both feature sets enter in full and in double precision."""
    return fid(self)


@contract("neuralcompression.metrics.FrechetInceptionDistanceSwAV", facets=["raises", "effects", "attrs"], only=["normalize", "feature_extractor"], opaque=OPQ)
def swav_ctor(self, normalize=True, **kwargs):
    """Backbone normalisation exactly when asked for."""
    super().__init__(**kwargs)
    if not isinstance(normalize, bool):
        raise ValueError
    self.feature_extractor = NoTrainSwAV()
    if normalize:
        self.normalize = Normalize(mean=[0.485, 0.456, 0.406], std=[0.228, 0.224, 0.225])
    else:
        self.normalize = nn.Identity()
    self.add_state("real_features", [], dist_reduce_fx="cat")
    self.add_state("fake_features", [], dist_reduce_fx="cat")


@contract("neuralcompression.metrics._fid_swav.NoTrainSwAV.train")
def swav_train(self, mode=True):
    """The feature network never enters training mode."""
    return super().train(False)


@contract("neuralcompression.metrics._dists.NoTrainDists.train")
def dists_train(self, mode=True):
    """The feature network never enters training mode."""
    return super().train(False)


@contract("neuralcompression.metrics.KernelInceptionDistance.update")
def kid_update(self, imgs, real):
    """Features of every update are kept, real ones with real ones and generated ones with generated ones, on the CPU."""
    x = (imgs * 255).byte() if self.normalize else imgs
    route(self, self.inception(x), real)


@contract("neuralcompression.metrics.KernelInceptionDistance.compute", facets=["return"])
def kid_compute(self):
    """Both feature sets in full; mean first, then standard deviation; every constructor setting is honoured."""
    out = kid_features_to_metric(torch.cat(self.real_features).to(torch.float64), torch.cat(self.fake_features).to(torch.float64),
                                 kid_subsets=self.subsets, kid_subset_size=self.subset_size, kid_degree=self.degree, kid_gamma=self.gamma,
                                 kid_coef0=self.coef, kid_kernel_poly_degree=self.degree, kid_kernel_poly_gamma=self.gamma, kid_kernel_poly_coef0=self.coef)
    return torch.tensor(out["kernel_inception_distance_mean"]), torch.tensor(out["kernel_inception_distance_std"])


@contract("neuralcompression.metrics.KernelInceptionDistance", facets=["effects", "attrs"])
def kid_ctor(self, feature=2048, subsets=100, subset_size=1000, degree=3, gamma=None, coef=1.0, normalize=False, **kwargs):
    """Every setting under its own name."""
    super().__init__(**kwargs)
    self.inception = KidInception(name="inception-v3-compat", features_list=[str(feature)])
    self.subsets = subsets
    self.subset_size = subset_size
    self.degree = degree
    self.gamma = gamma
    self.coef = coef
    self.normalize = normalize
    self.add_state("real_features", [], dist_reduce_fx=None)
    self.add_state("fake_features", [], dist_reduce_fx=None)


def valid(x):
    return x.ndim == 4 and x.shape[1] == 3 and bool(x.max() <= 1.0 and x.min() >= 0.0)


@contract("neuralcompression.metrics.DeepImageStructureTextureSimilarity.update", opaque=OPQ)
def dists_update(self, img1, img2):
    """Both images must be 4-D, three-channel and within 0..1; the running sum and the number of images grow together."""
    if not (valid(img1) and valid(img2)):
        raise ValueError
    self.sum_scores += self.net(img1, img2).squeeze().sum()
    self.total += img1.shape[0]


@contract("neuralcompression.metrics.DeepImageStructureTextureSimilarity.compute", opaque=OPQ)
def dists_compute(self):
    """Mean over images, or sum."""
    ASSUME(self.reduction == "mean" or self.reduction == "sum")
    if self.reduction == "mean":
        return self.sum_scores / self.total
    if self.reduction == "sum":
        return self.sum_scores


@contract("neuralcompression.metrics.DeepImageStructureTextureSimilarity", facets=["raises", "effects", "attrs"], only=["net", "reduction"], opaque=OPQ)
def dists_ctor(self, reduction="mean", **kwargs):
    """Only 'mean' and 'sum'; states start at zero and are summed across processes."""
    super().__init__(**kwargs)
    if reduction not in ("mean", "sum"):
        raise ValueError
    self.net = NoTrainDists()
    self.reduction = reduction
    self.add_state("sum_scores", torch.tensor(0.0), dist_reduce_fx="sum")
    self.add_state("total", torch.tensor(0.0), dist_reduce_fx="sum")


@contract("neuralcompression.metrics.MultiscaleStructuralSimilarity.update", opaque=OPQ)
def msssim_update(self, preds, target):
    """Batch sums with all of the metric's own settings; the image count grows by the batch."""
    self.score_sum += ncF.multiscale_structural_similarity(preds, target, self.data_range, self.window_size, self.k1, self.k2, self.gaussian_std, self.power_factors, "sum")
    self.total += preds.shape[0]


@contract("neuralcompression.metrics.MultiscaleStructuralSimilarity.compute", opaque=OPQ)
def msssim_compute(self):
    """Mean over all images of all updates."""
    return self.score_sum / self.total


@contract("neuralcompression.metrics.MultiscaleStructuralSimilarity", facets=["effects", "attrs"], opaque=OPQ)
def msssim_ctor(self, data_range=1.0, window_size=11, k1=0.01, k2=0.03, gaussian_std=1.5, power_factors=(0.0448, 0.2856, 0.3001, 0.2363, 0.1333),
                dist_sync_on_step=False, process_group=None, dist_sync_fn=None):
    """Every setting under its own name; sums across processes."""
    super().__init__(dist_sync_on_step=dist_sync_on_step, process_group=process_group, dist_sync_fn=dist_sync_fn)
    self.data_range = data_range
    self.window_size = window_size
    self.k1 = k1
    self.k2 = k2
    self.gaussian_std = gaussian_std
    self.power_factors = power_factors
    self.add_state("score_sum", default=torch.tensor(0.0), dist_reduce_fx="sum")
    self.add_state("total", default=torch.tensor(0), dist_reduce_fx="sum")
