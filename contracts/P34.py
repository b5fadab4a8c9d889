"""VCT patcher."""
import math
import torch
import torch.nn.functional as F
from neural.patcher import Patched

PROJECT = "torch_vct"
P = "torch_vct:neural.patcher.Patcher"


@contract(P + "._pad", rank=4)
def pad(self, x, patch_size):
    """Pads to a multiple of the stride at the bottom and right plus half of what patches exceed the stride on each side; returns the patch counts of height, then width; patches smaller than the stride or with odd excess are refused."""
    if x.dim() != 4:
        raise AssertionError
    if patch_size < self.stride:
        raise ValueError
    if (patch_size - self.stride) % 2 != 0:
        raise ValueError
    m = (patch_size - self.stride) // 2
    H, W = x.shape[-2], x.shape[-1]
    nh, nw = math.ceil(H / self.stride), math.ceil(W / self.stride)
    y = F.pad(x, (m, nw * self.stride - W + m, m, nh * self.stride - H + m), mode=self.pad_mode)
    return y, nh * self.stride // self.stride, nw * self.stride // self.stride


@contract(P + ".forward", opaque=(P + "._pad", P + "._window_partition", P + "._window_partition_conv2d"))
def forward(self, x, patch_size):
    """Pads, then cuts: without overlap when the patch size equals the stride, else overlapping."""
    y, nh, nw = self._pad(x, patch_size)
    if patch_size == self.stride:
        t = self._window_partition(y, patch_size)
    else:
        t = self._window_partition_conv2d(y, patch_size)
    return Patched(t, (nh, nw))


@contract(P + "._window_partition", rank=4)
def partition(self, x, patch_size):
    """Patches in row-major order, pixels of a patch in row-major order, channels last; sizes that are not multiples are refused."""
    B, C, H, W = x.shape
    if H % patch_size != 0 or W % patch_size != 0:
        raise ValueError
    nh, nw = H // patch_size, W // patch_size
    return x.reshape(B, C, nh, patch_size, nw, patch_size).permute(0, 2, 4, 3, 5, 1).contiguous().reshape(B * nh * nw, patch_size ** 2, C)


@contract(P + "._window_partition_conv2d", rank=4)
def partition_overlap(self, x, patch_size):
    """The same order as without overlap, for patches at the stride."""
    B, C, H, W = x.shape
    k = torch.diag(x.new_ones(patch_size ** 2 * C)).reshape(C * patch_size ** 2, C, patch_size, patch_size)
    p = F.conv2d(x, k, stride=self.stride)
    nh, nw = p.shape[-2], p.shape[-1]
    return p.reshape(B, C, patch_size ** 2, nh, nw).permute(0, 3, 4, 2, 1).contiguous().reshape(B * nh * nw, patch_size ** 2, C)


@contract(P + ".unpatch", facets=["outcome"])
def unpatch(self, x_patched, crop=None, channels_last=False):
    """Inverse of cutting without overlap, cropped to the given height and width; patches of another size than the stride are refused."""
    x, (nh, nw) = x_patched
    if not channels_last:
        x = x.permute(0, 2, 1).contiguous()
    _, n, C = x.shape
    if n != self.stride ** 2:
        raise AssertionError
    y = x.reshape(-1, nh, nw, self.stride, self.stride, C).permute(0, 5, 1, 3, 2, 4).contiguous().reshape(-1, C, nh * self.stride, nw * self.stride)
    if crop is None:
        return y
    return y[..., :crop[0], :crop[1]]


@contract(P, facets=["attrs"])
def build(self, stride, pad_mode="reflect"):
    super().__init__()
    self.stride = stride
    self.pad_mode = pad_mode
