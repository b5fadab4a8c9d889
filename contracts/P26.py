"""Distributions with additive uniform noise."""
import torch
import neuralcompression.functional as ncF
from torch.distributions import Normal, Uniform
from neuralcompression.distributions import UniformNoise

OPQ = ("neuralcompression.functional.lower_tail", "neuralcompression.functional.upper_tail", "neuralcompression.functional.quantization_offset",
       "neuralcompression.functional.log_cdf", "neuralcompression.functional.log_survival_function", "neuralcompression.functional.survival_function")


@contract("neuralcompression.distributions.UniformNoise.prob", opaque=OPQ)
def prob(self, value):
    """Mass of the unit interval around the value, taken from the side with the smaller numbers."""
    sp, sn = ncF.survival_function(value + 0.5, CTOR("distribution")), ncF.survival_function(value - 0.5, CTOR("distribution"))
    cp, cn = CTOR("distribution").cdf(value + 0.5), CTOR("distribution").cdf(value - 0.5)
    return torch.where(sp < cp, sn - sp, cp - cn)


@contract("neuralcompression.distributions.UniformNoise.log_prob", opaque=OPQ)
def log_prob(self, value):
    """The same in logs, with the larger term factored out."""
    d = CTOR("distribution")
    sp, sn = ncF.log_survival_function(value + 0.5, d), ncF.log_survival_function(value - 0.5, d)
    cp, cn = ncF.log_cdf(value + 0.5, d), ncF.log_cdf(value - 0.5, d)
    c = sp < cp
    a, b = torch.where(c, sn, cp), torch.where(c, sp, cn)
    return torch.log1p(-torch.exp(b - a)) + a


@contract("neuralcompression.distributions.UniformNoise.rsample", opaque=OPQ)
def rsample(self, sample_shape=torch.Size()):
    """Base sample plus independent noise in [-1/2, 1/2) for every element."""
    a = CTOR("distribution").sample(sample_shape)
    return a + Uniform(-0.5, 0.5).sample(a.shape).to(a)


@contract("neuralcompression.distributions.UniformNoise", facets=["effects"], opaque=OPQ)
def shapes(self, distribution):
    """Batch and event shape are those of the base."""
    super().__init__(distribution.batch_shape, distribution.event_shape)


@contract("neuralcompression.distributions.UniformNoise.expand", opaque=OPQ)
def expand(self, batch_shape, _instance=None):
    """Expanding keeps the noise."""
    return UniformNoise(CTOR("distribution").expand(batch_shape))


@contract("neuralcompression.distributions.UniformNoise.mean", opaque=OPQ)
def mean(self):
    """Symmetric noise leaves the mean."""
    return CTOR("distribution").mean


@contract("neuralcompression.distributions.UniformNoise.quantization_offset", opaque=OPQ)
def offset(self):
    return ncF.quantization_offset(CTOR("distribution"))


@contract("neuralcompression.distributions.UniformNoise.lower_tail", opaque=OPQ)
def lower_tail(self, tail_mass):
    return ncF.lower_tail(CTOR("distribution"), tail_mass)


@contract("neuralcompression.distributions.UniformNoise.upper_tail", opaque=OPQ)
def upper_tail(self, tail_mass):
    return ncF.upper_tail(CTOR("distribution"), tail_mass)


@contract("neuralcompression.distributions.UniformNoise.log_cdf", opaque=OPQ)
def log_cdf(self, value):
    return ncF.log_cdf(value, CTOR("distribution"))


@contract("neuralcompression.distributions.UniformNoise.survival_function", opaque=OPQ)
def survival(self, value):
    return ncF.survival_function(value, CTOR("distribution"))


@contract("neuralcompression.distributions.UniformNoise.log_survival_function", opaque=OPQ)
def log_survival(self, value):
    return ncF.log_survival_function(value, CTOR("distribution"))


@contract("neuralcompression.distributions.UniformNoise.cdf", opaque=OPQ)
def cdf(self, value):
    return CTOR("distribution").cdf(value)


@contract("neuralcompression.distributions.UniformNoise.icdf", opaque=OPQ)
def icdf(self, value):
    return CTOR("distribution").icdf(value)


@contract("neuralcompression.distributions.UniformNoise.support", opaque=OPQ)
def support(self):
    return CTOR("distribution").support


@contract("neuralcompression.distributions.NoisyNormal", facets=["effects", "attrs"], opaque=OPQ)
def noisy_normal(self, loc, scale):
    """A normal of the given mean and deviation plus the noise."""
    super().__init__(Normal(loc, scale))
