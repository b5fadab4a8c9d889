"""Soft rounding, offsets and tails."""
import math
import torch
import neuralcompression.functional as ncF

TAILS = ("neuralcompression.functional.estimate_tails", "neuralcompression.functional.log_cdf", "neuralcompression.functional.log_survival_function")


@contract("neuralcompression.functional.soft_round")
def soft_round(x, alpha, eps=1e-3):
    """Identity for small alpha, otherwise a monotone staircase fixing integers and half-integers of each unit interval."""
    a = torch.tensor(max(alpha, eps))
    m = torch.floor(x) + 0.5
    return torch.where(torch.tensor(alpha < eps), x, m + torch.tanh(a * (x - m)) / (torch.tanh(a / 2.0) * 2.0))


def inverse(y, alpha, eps):
    a = torch.tensor(max(alpha, eps))
    m = torch.floor(y) + 0.5
    r = torch.clamp(torch.atanh((y - m) * (torch.tanh(a / 2.0) * 2.0)) / a, -0.5, 0.5)
    return torch.where(torch.tensor(alpha < eps), y, m + r)


@contract("neuralcompression.functional.soft_round_inverse")
def soft_round_inverse(y, alpha, eps=1e-3):
    """Inverts soft_round with the same alpha and threshold, staying within the unit interval."""
    return inverse(y, alpha, eps)


@contract("neuralcompression.functional.soft_round_conditional_mean")
def conditional_mean(x, alpha):
    """Conditional mean of the uniformly noised soft-rounded value: the inverse shifted by one half."""
    return inverse(x - 0.5, alpha, 1e-3) + 0.5


@contract("neuralcompression.functional.quantization_offset")
def offset(distribution):
    """Distance of the mean from the nearest integer (zero without a mean), without gradient."""
    try:
        o = distribution.mean
    except AttributeError:
        o = torch.tensor(0)
    with torch.no_grad():
        return o - torch.round(o)


@contract("neuralcompression.functional.lower_tail", opaque=TAILS)
def lower_tail(distribution, tail_mass):
    """Half of the tail mass lies below: quantile, or the point where the log distribution function reaches log(tail_mass / 2); detached."""
    try:
        x = distribution.icdf(torch.tensor([tail_mass / 2]))
    except (AttributeError, NotImplementedError):
        try:
            x = ncF.estimate_tails(lambda v: ncF.log_cdf(v, distribution), math.log(tail_mass / 2), distribution.batch_shape)
        except NotImplementedError:
            raise NotImplementedError
    return x.detach()


@contract("neuralcompression.functional.upper_tail", opaque=TAILS)
def upper_tail(distribution, tail_mass):
    """Half of the tail mass lies above: quantile, or the point where the log survival function reaches log(tail_mass / 2); detached."""
    try:
        x = distribution.icdf(torch.tensor([1 - tail_mass / 2]))
    except (AttributeError, NotImplementedError):
        try:
            x = ncF.estimate_tails(lambda v: ncF.log_survival_function(v, distribution), math.log(tail_mass / 2), distribution.batch_shape)
        except NotImplementedError:
            raise NotImplementedError
    return x.detach()


@contract("neuralcompression.functional.estimate_tails", cases=[{"device": "cpu"}])
def estimate_tails(func, target, shape, device=None, dtype=torch.float32):
    """Adam-like descent on |func(x) - target| with momenta 0.9 and 0.99 and step 0.01, until every element has moved for 100 steps after crossing."""
    if not device:
        if torch.cuda.is_available():
            device = "cuda"
        elif hasattr(torch.backends, "mps") and torch.backends.mps.is_available():
            device = "mps"
        else:
            device = "cpu"
    eps = torch.finfo(torch.float32).eps
    counts = torch.zeros(shape, dtype=torch.int32)
    tails = torch.zeros(shape, device=device, dtype=dtype, requires_grad=True)
    mean = torch.zeros(shape, dtype=dtype)
    variance = torch.ones(shape, dtype=dtype)
    while torch.min(counts) < 100:
        abs(func(tails) - target).backward(torch.ones_like(tails))
        assert tails.grad is not None
        g = tails.grad.cpu()
        with torch.no_grad():
            mean = 0.9 * mean + (1.0 - 0.9) * g
            variance = 0.99 * variance + (1.0 - 0.99) * torch.square(g)
            tails -= (1e-2 * mean / (torch.sqrt(variance) + eps)).to(device)
        counts = torch.where(torch.logical_or(counts > 0, g.cpu() * tails.cpu() > 0), counts + 1, counts)
        tails.grad.zero_()
    return tails
