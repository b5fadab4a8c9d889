"""Distortion losses and the rate-target record."""
import torch
import torch.nn.functional as F
from lpips.lpips import spatial_average, upsample
from neuralcompression.loss_fn import NormFixLPIPS, TargetRateConfig


@contract("neuralcompression.loss_fn.MSELoss.__call__")
def mse(self, image, reference):
    """Scaled mean squared error."""
    return self.scale_param * F.mse_loss(image, reference)


@contract("neuralcompression.loss_fn.MSELoss", facets=["attrs"], only=["scale_param"])
def mse_ctor(self, scale_param=255.0 ** 2):
    """By default on the 0..255 scale for images in 0..1."""
    self.scale_param = scale_param


@contract("neuralcompression.loss_fn.MSELPIPSLoss.__call__")
def mse_lpips(self, image, reference):
    """Each term carries its own weight; both are scalars; LPIPS is told whether to rescale the input."""
    return CTOR("mse_param") * F.mse_loss(image, reference) + CTOR("lpips_param") * self.lpips_model(image, reference, normalize=CTOR("normalize")).mean()


@contract("neuralcompression.loss_fn.MSELPIPSLoss", facets=["attrs", "effects"], only=["mse_param"])
def mse_lpips_ctor(self, mse_param=255.0 ** 2, lpips_param=1.0, normalize=True, backbone="vgg"):
    """The perceptual network is in eval mode and never trained."""
    super().__init__()
    self.mse_param = mse_param
    m = NormFixLPIPS(net=backbone)
    m.eval()
    m.requires_grad_(False)


@contract("neuralcompression.loss_fn.NormFixLPIPS.train")
def lpips_train(self, mode=True):
    """The perceptual network cannot be switched to training mode."""
    return super().train(False)


def unit(x):
    return x / torch.sqrt(torch.sum(x ** 2 + 1e-8, dim=1, keepdim=True))


@contract("neuralcompression.loss_fn.NormFixLPIPS.forward", facets=["return"], cases=[{"retPerLayer": False}], rank=4)
def lpips_forward(self, in0, in1, retPerLayer=False, normalize=False):
    """Same feature extraction and rescaling for both images; the zero protection sits inside the square root."""
    if normalize:
        in0, in1 = 2 * in0 - 1, 2 * in1 - 1
    if self.version == "0.1":
        a, b = self.net.forward(self.scaling_layer(in0)), self.net.forward(self.scaling_layer(in1))
    else:
        a, b = self.net.forward(in0), self.net.forward(in1)
    val = 0
    for k in range(self.L):
        d = (unit(a[k]) - unit(b[k])) ** 2
        d = self.lins[k](d) if self.lpips else d.sum(dim=1, keepdim=True)
        val += upsample(d, out_HW=in0.shape[2:]) if self.spatial else spatial_average(d, keepdim=True)
    return val


@contract("neuralcompression.loss_fn.TargetRateConfig", facets=["raises"])
def rate_config(self, target_bpp, target_factors, target_steps, lam_levels, lam2_factors, lam2_steps):
    """Exactly one more factor than steps, for both schedules."""
    if len(target_factors) != len(target_steps) + 1 or len(lam2_factors) != len(lam2_steps) + 1:
        raise ValueError


def observe(target_bpp, target_factors, target_steps, lam_levels, lam2_factors, lam2_steps):
    c = TargetRateConfig(target_bpp, target_factors, target_steps, lam_levels, lam2_factors, lam2_steps)
    return c.target_bpp, c.target_factors, c.target_steps, c.lam_levels, c.lam2_factors, c.lam2_steps


@contract("driver:P15.observe", facets=["returned"])
def rate_observe(target_bpp, target_factors, target_steps, lam_levels, lam2_factors, lam2_steps):
    """Every field reads back the value it was built with."""
    return target_bpp, target_factors, target_steps, lam_levels, lam2_factors, lam2_steps
