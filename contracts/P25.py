"""Lower bound with selectable gradient."""
import torch
from torch.autograd import Function


class Bound(Function):
    @staticmethod
    def forward(ctx, x, bound, kind):
        bound = torch.as_tensor(bound, dtype=x.dtype, device=x.device)
        ctx.save_for_backward(x, bound)
        ctx.kind = kind
        return torch.max(x, bound)

    @staticmethod
    def backward(ctx, g):
        x, bound = ctx.saved_tensors
        if ctx.kind == "identity":
            return g, None, None
        if ctx.kind == "disconnected":
            return (x >= bound) * g, None, None
        return ((x >= bound) | (g < 0)) * g, None, None


@contract("neuralcompression.functional.lower_bound")
def lower_bound(x, bound, gradient="identity_if_towards"):
    """Elementwise maximum; the gradient passes everywhere ('identity'), only where x is at or above the bound ('disconnected'), or also where descent would move x up."""
    if gradient not in ("disconnected", "identity", "identity_if_towards"):
        raise ValueError
    return Bound.apply(x, bound, gradient)
