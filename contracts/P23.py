"""Distribution functions used for densities and rates."""
import math
import torch
import neuralcompression.functional as ncF
from torch.distributions import Normal


def cdf(x):
    z = x * math.sqrt(0.5)
    y = 0.5 * torch.erfc(abs(z))
    return torch.where(abs(z) < math.sqrt(0.5), 0.5 + 0.5 * torch.erf(z), torch.where(z > 0, 1 - y, y))


def log_cdf_(x):
    if x.dtype == torch.float32:
        lo, hi = -10.0, 5.0
    elif x.dtype == torch.float64:
        lo, hi = -20.0, 8.0
    else:
        raise TypeError
    series = -0.5 * (math.log(2 * math.pi) + x ** 2) - torch.log(-x) + torch.log1p(-1 / x ** 2 + 3 / x ** 4 - 15 / x ** 6)
    return torch.where(x > hi, torch.log1p(-cdf(-x)), torch.where(x >= lo, torch.log(cdf(x)), series))


@contract("neuralcompression.functional.ndtr")
def ndtr(x):
    """Normal distribution function with the branch of smallest cancellation."""
    return cdf(x.to(torch.float))


@contract("neuralcompression.functional.log_ndtr")
def log_ndtr(x):
    """Its logarithm in the precision of the input: log1p of the upper tail, the log in the middle, the asymptotic series 1 - 1/x^2 + 3/x^4 - 15/x^6 below."""
    return log_cdf_(x)


@contract("neuralcompression.functional.log_cdf", opaque=("neuralcompression.functional.log_ndtr",))
def log_cdf(x, distribution):
    """Log of the distribution function at x, via log_ndtr of the standardised value for normals."""
    if isinstance(distribution, Normal):
        return ncF.log_ndtr((x - distribution.loc) / distribution.scale)
    return torch.log(distribution.cdf(x))


@contract("neuralcompression.functional.survival_function")
def survival(x, distribution):
    """One minus the distribution function, by symmetry for normals."""
    if isinstance(distribution, Normal):
        return cdf((-((x - distribution.loc) / distribution.scale)).to(torch.float))
    return 1.0 - distribution.cdf(x)


@contract("neuralcompression.functional.log_survival_function", opaque=("neuralcompression.functional.log_ndtr",))
def log_survival(x, distribution):
    """Log of one minus the distribution function at x, by symmetry for normals."""
    if isinstance(distribution, Normal):
        return ncF.log_ndtr(-((x - distribution.loc) / distribution.scale))
    return torch.log1p(-distribution.cdf(x))


@contract("neuralcompression.functional.information_content")
def information(probabilities, reduction="sum", base=2.0):
    """Minus the log to the given base; summed over everything, per batch element, or not at all; other reductions refused."""
    if reduction not in ("sum", "batch_el", "none"):
        raise ValueError
    n = torch.log(probabilities)
    if reduction == "sum":
        n = torch.sum(n)
    elif reduction == "batch_el":
        n = n.view(probabilities.shape[0], -1).sum(dim=-1)
    return -n / math.log(base)


@contract("neuralcompression.functional.log_expm1")
def log_expm1(x):
    """log(exp(x) - 1), switching to x where the exponential would overflow, with the unused branch kept finite."""
    return torch.where(x < 15.0, torch.log(torch.expm1(torch.minimum(x, torch.tensor(15.0)))), x)
