"""Image warping and colour conversion."""
import math
import torch
import torch.nn.functional as F
import neuralcompression.functional as ncF


@contract("neuralcompression.functional.dense_image_warp")
def warp(image, flow, mode="bilinear", padding_mode="border", align_corners=False):
    """The value at each flow position is the image sampled at that position plus the flow, x before y, on the grid from -1 to 1 of the flow's own size; unequal types or devices and non-2-D flows are refused."""
    if image.dtype != flow.dtype or image.device != flow.device:
        raise ValueError
    if flow.shape[-1] != 2:
        raise ValueError
    ys = torch.linspace(-1, 1, flow.shape[1], dtype=image.dtype, device=image.device)
    xs = torch.linspace(-1, 1, flow.shape[2], dtype=image.dtype, device=image.device)
    gy, gx = torch.meshgrid(ys, xs, indexing="ij")
    grid = torch.stack((gx, gy), dim=-1).unsqueeze(0).repeat(flow.shape[0], 1, 1, 1)
    return F.grid_sample(image, grid + flow, mode=mode, padding_mode=padding_mode, align_corners=align_corners)


@contract("neuralcompression.functional.hsv_to_rgb")
def hsv_to_rgb(hsv):
    """Hue in degrees, saturation and value in 0..1, anything else refused; red, green and blue in this order."""
    if hsv.ndim != 4:
        raise ValueError
    if hsv.shape[1] != 3:
        raise ValueError
    if hsv[:, 0].min() < 0.0 or hsv[:, 0].max() > 360.0:
        raise ValueError
    if hsv[:, 1:].min() < 0.0 or hsv[:, 1:].max() > 1.0:
        raise ValueError
    h, s, v = hsv[:, 0], hsv[:, 1], hsv[:, 2]
    out = []
    for n in (5, 3, 1):
        k = torch.fmod(n + h / 60, 6)
        out.append(v - v * s * torch.max(torch.zeros_like(k), torch.min(torch.min(k, 4 - k), torch.ones_like(k))))
    return torch.stack(out, dim=1)


@contract("neuralcompression.functional.optical_flow_to_color", opaque=("neuralcompression.functional.hsv_to_rgb",))
def flow_to_color(flow, eps=1e-5):
    """Hue is the flow's direction in degrees, full saturation, value its length scaled to 0..1 over the batch."""
    if flow.ndim != 4:
        raise ValueError
    hsv = torch.zeros((flow.shape[0], 3, flow.shape[2], flow.shape[3]), dtype=flow.dtype, device=flow.device)
    a = torch.atan2(flow[:, 0], flow[:, 1])
    a[a < 0] = 2 * math.pi + a[a < 0]
    hsv[:, 0] = (180 / math.pi) * a
    hsv[:, 1] = 1.0
    m = torch.sqrt(flow[:, 0] ** 2 + flow[:, 1] ** 2)
    m = m - m.min()
    hsv[:, 2] = m / (m.max() + eps)
    return ncF.hsv_to_rgb(hsv)
