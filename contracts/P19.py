"""Scalar image measures."""
import io
import math
import pickle
import numpy as np
import torch
import torch.nn.functional as F
import lpips as lpips_package


@contract("neuralcompression.functional.image_to_255_scale")
def scale255(image, dtype=None):
    """Values outside 0..1 are refused; otherwise the nearest integer on the 0..255 scale, in the requested type if one is given."""
    if image.max() > 1.0:
        raise ValueError
    if image.min() < 0.0:
        raise ValueError
    r = torch.round(image * 255.0)
    return r if dtype is None else r.to(dtype)


@contract("neuralcompression.metrics.calc_psnr")
def psnr(image, reference, data_range=255.0):
    """Peak signal-to-noise ratio in dB of the given data range."""
    return 20.0 * math.log10(data_range) - 10.0 * torch.log10(torch.mean((image - reference) ** 2))


@contract("neuralcompression.metrics.calc_psnr_numpy")
def psnr_numpy(image, reference, data_range=255.0):
    """The same on arrays."""
    return 20.0 * math.log10(data_range) - 10.0 * np.log10(np.mean((image - reference) ** 2))


@contract("neuralcompression.metrics.pickle_size_of", facets=["return"])
def pickled(obj):
    """Number of bytes pickling would write."""
    b = io.BytesIO()
    pickle.dump(obj, b)
    return b.getbuffer().nbytes


def window(n, std, device, dtype):
    if n <= 0 or n % 2 == 0:
        raise ValueError
    i = torch.arange(-(n // 2), n // 2 + 1, device=device, dtype=dtype)
    g = torch.exp(-0.5 * (i / std) ** 2)
    g = g / g.sum()
    return (g[:, None] * g[None, :]).view(1, 1, n, n)


def one_channel(x, y, data_range, window_size, k1, k2, std):
    w = window(window_size, std, x.device, x.dtype)
    c1, c2 = (k1 * data_range) ** 2, (k2 * data_range) ** 2
    ux, uy = F.conv2d(x, w), F.conv2d(y, w)
    vx = F.conv2d(x * x, w) - ux ** 2
    vy = F.conv2d(y * y, w) - uy ** 2
    vxy = F.conv2d(x * y, w) - ux * uy
    lum = (2 * ux * uy + c1) / (ux ** 2 + uy ** 2 + c1)
    cs = (2 * vxy + c2) / (vx + vy + c2)
    n = lum.size(0)
    return torch.stack([(lum * cs).view(n, -1).mean(dim=1), cs.view(n, -1).mean(dim=1)])


def half(x):
    return F.avg_pool2d(F.pad(x, (0, x.shape[3] % 2, 0, x.shape[2] % 2), mode="replicate"), kernel_size=2)


def reduce(x, how):
    if how == "mean":
        return torch.mean(x)
    if how == "sum":
        return torch.sum(x)
    if how == "none":
        return x
    raise ValueError


@contract("neuralcompression.functional.multiscale_structural_similarity")
def msssim(preds, target, data_range=1.0, window_size=11, k1=0.01, k2=0.03, gaussian_std=1.5, power_factors=(0.0448, 0.2856, 0.3001, 0.2363, 0.1333), reduction="mean"):
    """Wang et al. 2003: contrast-structure at all scales but the last, full similarity at the last, each to its own power; every scale is checked against the window."""
    scales = []
    for s in range(len(power_factors)):
        if s != 0:
            preds = half(preds)
            target = half(target)
        if preds.shape[2] < window_size or preds.shape[3] < window_size:
            raise RuntimeError
        per = torch.stack([one_channel(preds[:, i:i + 1], target[:, i:i + 1], data_range, window_size, k1, k2, gaussian_std) for i in range(preds.shape[1])])
        scales.append(F.relu(per).pow(power_factors[s]))
    all_ = torch.stack(scales)
    return reduce((all_[-1, :, 0] * torch.prod(all_[:-1, :, 1], dim=0)).mean(dim=0), reduction)


@contract("neuralcompression.functional.lpips", facets=["outcome", "effects"])
def lpips(preds, target, base_network="alex", use_linear_calibration=True, linear_weights_version="0.1", normalize=False, reduction="mean"):
    """The requested network, weights version and calibration; one value per pair; reduced as asked; unknown names are refused."""
    if base_network not in ("alex", "vgg", "squeeze"):
        raise ValueError
    if linear_weights_version not in ("0.0", "0.1"):
        raise ValueError
    m = lpips_package.LPIPS(net=base_network, version=linear_weights_version, lpips=use_linear_calibration, verbose=False)
    m.eval()
    m.requires_grad_(False)
    return reduce(m(preds, target, normalize=normalize).view(-1), reduction)
