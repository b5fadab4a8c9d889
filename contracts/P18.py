"""Patch-wise distribution metrics."""
import torch
import torch.nn.functional as F
import neuralcompression.functional as ncF

OPQ = ("neuralcompression.functional.image_to_255_scale",)


def patches(x, p):
    return ncF.image_to_255_scale(F.unfold(x, kernel_size=p, stride=p).permute(0, 2, 1).reshape(-1, 3, p, p), dtype=torch.uint8)


def feed(m, a, b):
    if m is not None:
        m.update(a, real=True)
        m.update(b, real=False)


@contract("neuralcompression.metrics.update_patch_fid", opaque=OPQ)
def patch_fid(input_images, pred, fid_metric=None, fid_swav_metric=None, kid_metric=None, patch_size=256):
    """Every metric given sees the grid of patches of both images and, when both sides allow it, the grid shifted by half a patch; all patches are counted."""
    if fid_metric is None and kid_metric is None and fid_swav_metric is None:
        raise ValueError
    a, b = patches(input_images, patch_size), patches(pred, patch_size)
    n = a.shape[0]
    feed(fid_metric, a, b)
    feed(fid_swav_metric, a, b)
    feed(kid_metric, a, b)
    if input_images.shape[2] >= 1.5 * patch_size and input_images.shape[3] >= 1.5 * patch_size:
        h = patch_size // 2
        a, b = patches(input_images[:, :, h:, h:], patch_size), patches(pred[:, :, h:, h:], patch_size)
        n += a.shape[0]
        feed(fid_metric, a, b)
        feed(fid_swav_metric, a, b)
        feed(kid_metric, a, b)
    return n
