"""Adversarial losses: label conventions of discriminator and generator agree."""
import torch
import torch.nn.functional as F


def expand(logits, target):
    if target.ndim == 0:
        return target * torch.ones_like(logits)
    if target.ndim != logits.ndim:
        raise ValueError
    return target


@contract("neuralcompression.loss_fn.BinaryCrossentropyDiscriminatorLoss.__call__")
def bce_d(self, real_logits, fake_logits, target):
    """Real logits are driven to the target, fake ones to zero, with equal weight one half; a mismatched target is refused."""
    t = expand(real_logits, target)
    return (F.binary_cross_entropy_with_logits(real_logits, t) + F.binary_cross_entropy_with_logits(fake_logits, torch.zeros_like(t))) / 2


@contract("neuralcompression.loss_fn.BinaryCrossentropyGeneratorLoss.__call__")
def bce_g(self, logits, target):
    """The generator drives its logits to the same target the discriminator uses for real images."""
    return F.binary_cross_entropy_with_logits(logits, expand(logits, target))


def check(logits, target):
    if logits.ndim != 4:
        raise ValueError
    if logits.shape[0] * logits.shape[-2] * logits.shape[-1] != target.numel():
        raise ValueError


@contract("neuralcompression.loss_fn.OASISDiscriminatorLoss.__call__")
def oasis_d(self, real_logits, fake_logits, target):
    """Class 0 is reserved for 'fake': real positions have class label + 1, fake positions class 0, equally weighted; anything but one integer
    label per position is refused."""
    check(real_logits, target)
    check(fake_logits, target)
    if target.dtype != torch.long:
        raise ValueError
    b, c, _, _ = real_logits.shape
    t = target.view(b, -1)
    return (F.cross_entropy(real_logits.view(b, c, -1), t + 1) + F.cross_entropy(fake_logits.view(b, c, -1), torch.zeros_like(t))) / 2


@contract("neuralcompression.loss_fn.OASISGeneratorLoss.__call__")
def oasis_g(self, logits, target):
    """The generator is asked for the real classes (label + 1), never for class 0."""
    check(logits, target)
    if target.dtype != torch.long:
        raise ValueError
    b, c, _, _ = logits.shape
    return F.cross_entropy(logits.view(b, c, -1), target.view(b, -1) + 1)
