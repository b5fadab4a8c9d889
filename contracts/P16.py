"""Continuous entropy layer: accepted argument combinations, coding tables, quantisation."""
import torch
import neuralcompression.functional as ncF
from neuralcompression.distributions import UniformNoise
from compressai.entropy_models.entropy_models import pmf_to_quantized_cdf

OPQ = ("neuralcompression.functional.lower_tail", "neuralcompression.functional.upper_tail", "neuralcompression.functional.quantization_offset",
       "neuralcompression.distributions.UniformNoise.lower_tail", "neuralcompression.distributions.UniformNoise.upper_tail",
       "neuralcompression.distributions.UniformNoise.prob")


def validate(compressible, stateless, prior, prior_shape, prior_dtype, cdfs, cdf_sizes, cdf_offsets, maximum_cdf_size):
    if prior is None and (prior_shape is None or prior_dtype is None):
        raise ValueError
    if compressible:
        if not ((cdfs is None) == (cdf_sizes is None) and (cdf_sizes is None) == (cdf_offsets is None)):
            raise ValueError
        given = [prior is not None, maximum_cdf_size is not None, cdfs is not None]
        if sum(given) != 1:
            raise ValueError
        if maximum_cdf_size is not None and stateless:
            raise ValueError
    elif cdfs is not None or cdf_offsets is not None or cdf_sizes is not None or maximum_cdf_size is not None:
        raise ValueError


@contract("neuralcompression.layers.ContinuousEntropy", facets=["raises"], opaque=OPQ)
def arguments(self, coding_rank=None, compressible=False, stateless=False, prior=None, tail_mass=2 ** -8, prior_shape=None, prior_dtype=None,
              cdfs=None, cdf_sizes=None, cdf_offsets=None, maximum_cdf_size=None, range_coder_precision=12):
    """Exactly one source of tables when compressible (all three tables or none), none otherwise; a prior or its shape and type."""
    validate(compressible, stateless, prior, prior_shape, prior_dtype, cdfs, cdf_sizes, cdf_offsets, maximum_cdf_size)


@contract("neuralcompression.layers.ContinuousEntropy.quantize")
def quantize(bottleneck, indexes, offsets=None):
    """Nearest integers, after removing the offset."""
    return torch.round(bottleneck - offsets if offsets is not None else bottleneck).to(torch.int32)


@contract("neuralcompression.layers.ContinuousEntropy", facets=["attrs"], only=["coding_rank", "compressible", "stateless", "tail_mass", "range_coder_precision", "prior_shape", "prior_dtype", "context_shape", "_prior"], opaque=OPQ)
def attributes(self, coding_rank=None, compressible=False, stateless=False, prior=None, tail_mass=2 ** -8, prior_shape=None, prior_dtype=None,
               cdfs=None, cdf_sizes=None, cdf_offsets=None, maximum_cdf_size=None, range_coder_precision=12):
    """Every setting reads back under its own name."""
    validate(compressible, stateless, prior, prior_shape, prior_dtype, cdfs, cdf_sizes, cdf_offsets, maximum_cdf_size)
    self._prior = prior
    self.coding_rank = coding_rank
    self.compressible = compressible
    self.stateless = stateless
    self.tail_mass = tail_mass
    self.range_coder_precision = range_coder_precision
    if prior is None:
        self.prior_shape = torch.Size(prior_shape)
        self.prior_dtype = prior_dtype
    else:
        self.prior_shape = prior.batch_shape
        self.prior_dtype = torch.float32


@contract("neuralcompression.layers.ContinuousEntropy.cdfs", opaque=OPQ)
def cdfs_(self):
    """Tables of a layer that is not compressible are refused."""
    if not self.compressible:
        raise RuntimeError
    return SELFATTR("_cdfs")


@contract("neuralcompression.layers.ContinuousEntropy.cdf_sizes", opaque=OPQ)
def sizes_(self):
    if not self.compressible:
        raise RuntimeError
    return SELFATTR("_cdf_sizes")


@contract("neuralcompression.layers.ContinuousEntropy.cdf_offsets", opaque=OPQ)
def offsets_(self):
    if not self.compressible:
        raise RuntimeError
    return SELFATTR("_cdf_offsets")


@contract("neuralcompression.layers.ContinuousEntropy.prior", opaque=OPQ)
def prior_(self):
    """The prior the layer was built with, or a refusal."""
    if SELFATTR("_prior") is None:
        raise RuntimeError
    return SELFATTR("_prior")


@contract("neuralcompression.layers.ContinuousEntropy.coding_rank", opaque=OPQ)
def rank_(self):
    return CTOR("coding_rank")


@contract("neuralcompression.layers.ContinuousEntropy.compressible", opaque=OPQ)
def compressible_(self):
    return CTOR("compressible")


@contract("neuralcompression.layers.ContinuousEntropy.stateless", opaque=OPQ)
def stateless_(self):
    return CTOR("stateless")


@contract("neuralcompression.layers.ContinuousEntropy.tail_mass", opaque=OPQ)
def tail_mass_(self):
    return CTOR("tail_mass")


@contract("neuralcompression.layers.ContinuousEntropy.range_coder_precision", opaque=OPQ)
def precision_(self):
    return CTOR("range_coder_precision")


@contract("neuralcompression.layers.ContinuousEntropy.prior_shape", opaque=OPQ)
def shape_(self):
    return SELFATTR("_prior_shape")


@contract("neuralcompression.layers.ContinuousEntropy.context_shape", opaque=OPQ)
def context_(self):
    return SELFATTR("_prior_shape")


@contract("neuralcompression.layers.ContinuousEntropy.prior_dtype", opaque=OPQ)
def dtype_(self):
    return CTOR("prior_dtype") if CTOR("prior") is None else torch.float32


def tables(prior, shape, dtype, tail_mass, precision, lo_clamp):
    off = ncF.quantization_offset(prior)
    if isinstance(prior, UniformNoise):
        lo, hi = prior.lower_tail(tail_mass), prior.upper_tail(tail_mass)
    else:
        lo, hi = ncF.lower_tail(prior, tail_mass), ncF.upper_tail(prior, tail_mass)
    first = torch.floor(lo - off).to(torch.int32)
    if lo_clamp:
        first = torch.clamp_min(first, 0)
    last = torch.clamp_min(torch.ceil(hi - off).to(torch.int32), 0)
    sizes = last - first + 1
    longest = torch.max(sizes).to(dtype).to(torch.int32)
    points = torch.arange(longest).to(dtype).reshape([-1] + len(shape) * [1]) + (first.to(dtype) + off).to(torch.int32)
    mass = prior.prob(points) if isinstance(prior, UniformNoise) else torch.exp(prior.log_prob(points))
    sizes = torch.broadcast_to(sizes, shape).squeeze()
    cdfs = torch.zeros((len(sizes), int(longest) + 2), dtype=torch.int32, device=mass.device)
    for i in range(min(len(mass), len(sizes))):
        p = mass[i][:sizes[i]]
        rest = torch.clamp(1 - torch.sum(p, dim=0, keepdim=True), min=0.0)
        q = pmf_to_quantized_cdf(torch.cat([p, rest], dim=0), precision)
        cdfs[i, :q.size()[0]] = q
    return cdfs, sizes + 2, torch.broadcast_to(first, shape).squeeze()


@contract("neuralcompression.layers.ContinuousEntropy", facets=["attrs"], only=["cdfs", "cdf_sizes", "cdf_offsets"], opaque=OPQ,
          cases=[{"compressible": True, "cdfs": None, "cdf_sizes": None, "cdf_offsets": None, "maximum_cdf_size": None}])
def from_prior(self, coding_rank=None, compressible=False, stateless=False, prior=None, tail_mass=2 ** -8, prior_shape=None, prior_dtype=None,
               cdfs=None, cdf_sizes=None, cdf_offsets=None, maximum_cdf_size=None, range_coder_precision=12):
    """Per context: one table entry per integer between the tails plus an overflow entry with the remaining mass; sizes and offsets of the same context."""
    if prior is None:
        raise ValueError
    a, b, c = tables(prior, prior.batch_shape, torch.float32, tail_mass, range_coder_precision, True)
    self.register_buffer("_cdfs", a)
    self.register_buffer("_cdf_sizes", b)
    self.register_buffer("_cdf_offsets", c)


@contract("neuralcompression.layers.ContinuousEntropy", facets=["attrs"], only=["cdfs", "cdf_sizes", "cdf_offsets"], opaque=OPQ,
          cases=[{"compressible": True, "prior": None, "maximum_cdf_size": None}, {"compressible": True, "prior": None, "cdfs": None, "cdf_sizes": None, "cdf_offsets": None}])
def given_tables(self, coding_rank=None, compressible=False, stateless=False, prior=None, tail_mass=2 ** -8, prior_shape=None, prior_dtype=None,
                 cdfs=None, cdf_sizes=None, cdf_offsets=None, maximum_cdf_size=None, range_coder_precision=12):
    """Tables handed in are used as they are; a maximum size alone gives empty tables to be restored."""
    validate(compressible, stateless, prior, prior_shape, prior_dtype, cdfs, cdf_sizes, cdf_offsets, maximum_cdf_size)
    if maximum_cdf_size is not None:
        z = torch.zeros([len(torch.Size(prior_shape)), maximum_cdf_size], dtype=torch.int32)
        cdfs, cdf_offsets, cdf_sizes = torch.IntTensor(z), torch.IntTensor(z[0, :]), torch.IntTensor(z[0, :])
    self.register_buffer("_cdfs", cdfs)
    self.register_buffer("_cdf_sizes", cdf_sizes)
    self.register_buffer("_cdf_offsets", cdf_offsets)


@contract("neuralcompression.layers.ContinuousEntropy", facets=["attrs"], only=["cdf_offsets"], opaque=OPQ,
          cases=[{"compressible": True, "cdfs": None, "cdf_sizes": None, "cdf_offsets": None, "maximum_cdf_size": None}])
def support(self, coding_rank=None, compressible=False, stateless=False, prior=None, tail_mass=2 ** -8, prior_shape=None, prior_dtype=None,
            cdfs=None, cdf_sizes=None, cdf_offsets=None, maximum_cdf_size=None, range_coder_precision=12):
    """The tables start at the lower tail of the prior, also when it is negative."""
    if prior is None:
        raise ValueError
    a, b, c = tables(prior, prior.batch_shape, torch.float32, tail_mass, range_coder_precision, False)
    self.register_buffer("_cdf_offsets", c)
