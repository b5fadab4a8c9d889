"""VCT bottleneck: index maps, tables, coding."""
import math
import torch
import torch.nn as nn
import scipy.stats as sps
from compressai.entropy_models import EntropyModel
from compressai.ops import LowerBound

from neural.bottlenecks import Scaler, ContinuousIndexedGaussianConditional

PROJECT = "torch_vct"
SC = "torch_vct:neural.bottlenecks.Scaler"
EM = "torch_vct:neural.bottlenecks.ContinuousIndexedGaussianConditional"
GS = "torch_vct:neural.bottlenecks.GsnConditionalLocScaleShift"


@contract(SC + ".to_scale_idx")
def to_idx(self, scales, training=True):
    """Index of a positive scale on the log grid from scales_min to scales_max + scales_min; rounded only outside training; non-positive scales are refused when checking is on."""
    if self.verify_valid_scales:
        if not (scales > 0.0).all():
            raise AssertionError
    i = (torch.log(scales + self.scales_min) - math.log(self.scales_min)) / math.log(self.scales_max / self.scales_min + 1) * (self.num_bins - 1)
    return i if training else torch.round(i)


@contract(SC + ".from_scale_idx")
def from_idx(self, idx):
    """Inverse of the index map (without the added minimum)."""
    return torch.exp(idx / (self.num_bins - 1) * math.log(self.scales_max / self.scales_min + 1) + math.log(self.scales_min))


@contract(SC, facets=["attrs"])
def scaler(self, scales_min=0.01, scales_max=256.0, num_bins=256, verify_valid_scales=True):
    """Settings read back under their own names."""
    self.scales_min = float(scales_min)
    self.scales_max = float(scales_max)
    self.num_bins = int(num_bins)
    self.verify_valid_scales = bool(verify_valid_scales)


def cum(x):
    return 0.5 * torch.erfc(-(2 ** -0.5) * x)


@contract(EM + "._likelihood")
def likelihood(self, inputs, indexes):
    """Mass of the unit interval around the value under the normal of the indexed mean and scale, computed in the lower tail."""
    s = self._scaler.from_scale_idx(indexes[..., 1])
    m = indexes[..., 0] / self._num_means - 0.5 * self._not_one_mean
    v = torch.abs(inputs - m)
    return cum((0.5 - v) / s) - cum((-0.5 - v) / s)


@contract(EM + "._normalize_indexes")
def normalize(self, indexes):
    """Both indexes are kept between zero and the last index of their own range."""
    i = self.lower_bound_zero(indexes)
    return torch.stack([-self.upper_bound_mean(-i[..., 0]), -self.upper_bound_scale(-i[..., 1])], dim=-1)


@contract(EM + ".indexes_to_cdf_indexes")
def cdf_index(self, indexes_mean, indexes_scale):
    """Row of the table for a mean and scale index: means outer, scales inner."""
    return indexes_mean.int() * self._num_scales + indexes_scale.int()


def first_reaching(x, grid):
    return torch.max(x.unsqueeze(-1) <= grid.view([1] * x.dim() + [len(grid)]), dim=-1).indices


@contract(EM + ".build_indexes")
def build_indexes(self, params):
    """Prior parameters go to the row of the first mean and the first scale of the grids that reach them."""
    means, scales = params
    return self.indexes_to_cdf_indexes(first_reaching(means, self._prior_mean[:, 0]), first_reaching(scales, self._prior_scale[0]))


@contract(EM, facets=["raises", "attrs", "effects"], only=["precision", "_index_ranges", "_num_means", "_not_one_mean", "_num_scales", "_scaler", "tail_mass", "lower_bound_scale",
                                              "lower_bound_zero", "upper_bound_mean", "upper_bound_scale", "_prior_dtype", "_indexes_table", "_prior_mean", "_prior_scale"])
def em(self, index_ranges, *args, scale_bound=0.01, tail_mass=2 ** -8, precision=12, scaler=Scaler(num_bins=256, scales_min=0.01), **kwargs):
    """Bounds belong to their own ranges; scaler and number of scales must agree; the scale bound must be positive."""
    super().__init__(*args, **kwargs)
    self.precision = precision
    self._index_ranges = tuple(int(r) for r in index_ranges)
    self._num_means = self._index_ranges[0]
    self._num_scales = self._index_ranges[1]
    self._not_one_mean = self._index_ranges[0] != 1
    if scaler.num_bins != self._index_ranges[1]:
        raise ValueError
    self._scaler = scaler
    self.tail_mass = float(tail_mass)
    if scale_bound <= 0:
        raise ValueError
    self.lower_bound_scale = LowerBound(scale_bound)
    self.lower_bound_zero = LowerBound(0.0)
    self.upper_bound_mean = LowerBound(-float(index_ranges[0] - 1))
    self.upper_bound_scale = LowerBound(-float(index_ranges[1] - 1))
    self._prior_dtype = torch.float32
    self.register_buffer("_indexes_table", torch.Tensor())
    self.register_buffer("_prior_mean", torch.Tensor())
    self.register_buffer("_prior_scale", torch.Tensor())


@contract(EM + ".forward")
def em_forward(self, inputs, indexes, training=None):
    """Noise in training, rounding otherwise; the likelihood is that of the noisy or rounded value under the bounded indexes."""
    t = self.training if training is None else training
    i = self._normalize_indexes(indexes)
    o = self.quantize(inputs, "noise" if t else "dequantize")
    l = self._likelihood(o, i)
    if self.use_likelihood_bound:
        l = self.likelihood_lower_bound(l)
    return o, l


@contract(EM + ".update_tables", opaque=(EM + "._build_tables",), cases=[{"ctor.index_ranges": (100, 256)}, {"ctor.index_ranges": (1, 64)}])
def update_tables(self, force=True):
    """Tables are built when missing or forced, from the full grid of mean and scale indexes, means along rows and scales along columns."""
    if self._offset.numel() > 0 and not force:
        return False
    d = self._indexes_table.device
    g = torch.stack(torch.meshgrid(torch.arange(0, self._index_ranges[0], dtype=torch.int32, device=d), torch.arange(0, self._index_ranges[1], dtype=torch.int32, device=d), indexing="ij"), dim=-1)
    self._indexes_table = g.to(torch.float32).to(d)
    m, s = self._get_prior_params(g[..., 0], g[..., 1])
    if not m[:, 0].equal(torch.sort(m[:, 0]).values):
        raise AssertionError
    if not s[0].equal(torch.sort(s[0]).values):
        raise AssertionError
    self._prior_mean = m
    self._prior_scale = s
    self._build_tables()
    return True


@contract(EM + "._build_tables", facets=["attrs"], only=["_quantized_cdf", "_offset", "_cdf_length"])
def build_tables(self):
    """One row per mean and scale (means outer), from the floor of the lower to the ceiling of the upper tail, plus the overflow; size and offset of the same row."""
    d = self._indexes_table.device
    n = sps.norm(self._prior_mean.numpy(), self._prior_scale.numpy())
    lo = torch.floor(torch.tensor(n.ppf(self.tail_mass / 2), device=d)).to(torch.int32)
    hi = torch.ceil(torch.tensor(n.ppf(1.0 - self.tail_mass / 2), device=d)).to(torch.int32)
    length = hi - lo + 1
    mx = int(torch.max(length).item())
    x = torch.arange(0, mx).to(self._prior_dtype).unsqueeze(-1).unsqueeze(-1).to(d) + lo.to(self._prior_dtype).unsqueeze(0)
    rows = self._index_ranges[0] * self._index_ranges[1]
    up = cum((0.5 - (x - self._prior_mean.numpy()).abs()) / self._prior_scale.numpy())
    dn = cum((-0.5 - (x - self._prior_mean.numpy()).abs()) / self._prior_scale.numpy())
    pmf = (up - dn).reshape(mx, rows).T
    tail = 2 * dn.reshape(mx, rows).T[:, :1]
    self._quantized_cdf = self._pmf_to_cdf(pmf, tail, length.reshape(rows), mx)
    self._offset = lo.reshape(rows)
    self._cdf_length = length.reshape(rows) + 2


def soft(x):
    z = torch.zeros_like(x)
    return torch.where(x > 0, torch.maximum(x, z) + 1.0, 1.0 / (1.0 - torch.minimum(x, z)))


def ste(x):
    return (torch.round(x) - x).detach() + x


@contract(GS + "._get_indexes")
def indexes(self, means, scales, training=True):
    """Mean index from the distance of the mean to its nearest integer, scale index from the positive scale."""
    return torch.stack([(means - ste(means) + 0.5) * self._num_means, self._scaler.to_scale_idx(soft(scales), training=training)], dim=-1)


@contract(GS + ".forward")
def gs_forward(self, inputs, scales, means, training=None):
    """Codes the input minus the rounded mean and adds the rounded mean back; in training the value is rounded with straight-through gradient and only the rate uses noise."""
    t = self.training if training is None else training
    i = self._get_indexes(means, scales, training=t)
    x = inputs - ste(means)
    q, b = self._entropy_model(x, indexes=i, training=t)
    if t:
        q = ste(x)
    return q + ste(means), b


def rows(self, scales, means):
    i = self._entropy_model._normalize_indexes(self._get_indexes(means, scales))
    return self._entropy_model.indexes_to_cdf_indexes(indexes_mean=i[..., 0], indexes_scale=i[..., 1])


@contract(GS + ".compress")
def gs_compress(self, inputs, scales, means):
    """Codes the input minus the rounded mean with the table rows of mean and scale; returns what the decoder will return."""
    x = inputs - torch.round(means)
    s = self._entropy_model.compress(inputs=x, indexes=rows(self, scales, means))
    return torch.round(x) + torch.round(means), s


@contract(GS + ".decompress")
def gs_decompress(self, strings, scales, means):
    """Decodes with the same table rows and adds the same rounded mean."""
    return self._entropy_model.decompress(strings, rows(self, scales, means)) + torch.round(means)


@contract(GS + ".update")
def gs_update(self, force=True):
    return self._entropy_model.update_tables(force=force)


@contract(GS, facets=["attrs"], only=["_scaler", "_entropy_model", "_num_means", "_round_idx", "_num_scales"], opaque=(SC, EM))
def gs(self, num_scales=256, min_scale=0.01, num_means=100, tail_mass=2 ** -8, round_idx=True):
    """The scaler that maps scales to indexes is the one the table was built with."""
    super().__init__()
    self._scaler = Scaler(num_bins=num_scales, scales_min=min_scale)
    self._num_means, self._round_idx, self._num_scales = num_means, round_idx, num_scales
    self._entropy_model = ContinuousIndexedGaussianConditional(index_ranges=(num_means, num_scales), tail_mass=tail_mass, scale_bound=min_scale, scaler=self._scaler, entropy_coder_precision=16)
