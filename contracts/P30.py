"""U-Net discriminator."""
import math
import torch
import torch.nn as nn
import torch.nn.functional as F
from torch.nn.utils.parametrizations import spectral_norm
from neuralcompression.models._unet_discriminator import _UnetLevel
from neuralcompression.models import UnetDiscriminator

LV = "neuralcompression.models._unet_discriminator._UnetLevel"
CH = "neuralcompression.models.UnetDiscriminator"


def conv3(i, o, bias):
    return nn.Conv2d(i, o, kernel_size=3, stride=1, padding=1, bias=bias)


def conv1(i, o):
    return nn.Conv2d(i, o, kernel_size=1, stride=1, padding=0, bias=True)


def norm(c, t):
    if t not in ("batch", "spectral", "instance", "identity"):
        raise ValueError
    if t == "batch":
        return nn.BatchNorm2d(c)
    if t == "instance":
        return nn.InstanceNorm2d(c)
    return nn.Identity()


def wrap(m, t):
    return spectral_norm(m) if t == "spectral" else m


def act():
    return nn.LeakyReLU(negative_slope=0.2, inplace=True)


@contract(LV, facets=["attrs", "raises"], only=["child", "left_block", "left_shortcut", "right_block", "right_shortcut"],
          cases=[{"top": True, "clip_upsample": True}, {"top": True, "clip_upsample": False}, {"top": False, "clip_upsample": True}, {"top": False, "clip_upsample": False}])
def level(self, in_planes, down_planes, child, out_planes=None, top=False, clip_upsample=False, norm_type="identity"):
    """Down by two, child, and up by two unless clipped; both paths of each half agree in channels; batch normalisation drops the bias it makes useless."""
    super().__init__()
    o = in_planes if out_planes is None else out_planes
    b = norm_type != "batch"
    self.child = child
    self.left_block = nn.Sequential(
        nn.Identity() if top else norm(in_planes, norm_type), nn.Identity() if top else act(), wrap(conv3(in_planes, down_planes, b), norm_type),
        norm(down_planes, norm_type), act(), wrap(conv3(down_planes, down_planes, True), norm_type), nn.AvgPool2d(2))
    self.left_shortcut = nn.Sequential(wrap(conv1(in_planes, down_planes), norm_type) if in_planes != down_planes else nn.Identity(), nn.AvgPool2d(2))
    if clip_upsample:
        self.right_block = nn.Identity()
        self.right_shortcut = lambda x: torch.tensor(0.0)
    else:
        self.right_block = nn.Sequential(
            norm(down_planes, norm_type), act(), nn.Upsample(scale_factor=2), wrap(conv3(down_planes, o, b), norm_type),
            norm(o, norm_type), act(), wrap(conv3(o, o, True), norm_type))
        self.right_shortcut = nn.Sequential(wrap(conv1(down_planes, o), norm_type) if down_planes != o else nn.Identity(), nn.Upsample(scale_factor=2))


@contract(LV + ".forward", facets=["outcome"])
def level_forward(self, image):
    """Both halves add their shortcut, and the child works on the coarse level."""
    a = self.left_block(image) + self.left_shortcut(image)
    c = self.child(a)
    return self.right_block(c) + self.right_shortcut(c)


@contract(CH, facets=["raises", "attrs"], only=["model", "channels"], opaque=(LV,),
          cases=[{"chans": None, "output_downsampling_factor": 1}, {"chans": None, "output_downsampling_factor": 2}, {"chans": None, "output_downsampling_factor": 4},
                 {"chans": None, "output_downsampling_factor": 8}, {"chans": None, "output_downsampling_factor": 16}, {"chans": None, "output_downsampling_factor": 32},
                 {"chans": None, "output_downsampling_factor": 64}, {"chans": None, "output_downsampling_factor": 0}, {"chans": None, "output_downsampling_factor": 3},
                 {"chans": None, "output_downsampling_factor": 12},
                 {"chans": [3, 8, 24, 16], "output_downsampling_factor": 1}, {"chans": [3, 8, 24, 16], "output_downsampling_factor": 2},
                 {"chans": [3, 8, 24, 16], "output_downsampling_factor": 4}, {"chans": [3, 8, 24, 16], "output_downsampling_factor": 8}])
def unet(self, output_channels, output_downsampling_factor, chans=None, norm_type="identity"):
    """One level per channel step, all of them down; the top log2(factor) levels do not come back up; the last level that does delivers 64 channels; factors that are not powers of two are refused."""
    super().__init__()
    if output_downsampling_factor not in (1, 2, 4, 8, 16, 32, 64):
        raise ValueError
    n = {1: 0, 2: 1, 4: 2, 8: 3, 16: 4, 32: 5, 64: 6}[output_downsampling_factor]
    c = [3, 128, 128, 256, 256, 512, 512] if chans is None else chans
    self.channels = c
    m = nn.Identity()
    d = len(c) - 1
    for j in range(d):
        i = d - 1 - j
        out = 64 if (i == n or i == 0) else None
        m = _UnetLevel(in_planes=c[i], out_planes=out, down_planes=c[i + 1], child=m, top=i == 0, clip_upsample=i < n, norm_type=norm_type)
    self.model = nn.Sequential(m, nn.Conv2d(64 if n < d else c[d], output_channels, 1, 1, 0))


@contract(CH + ".forward", facets=["outcome"])
def unet_forward(self, image):
    return self.model(image)


@contract(CH + ".is_conditional")
def unet_conditional(self):
    """Takes no context."""
    return False


@contract("neuralcompression.models.ConditionalUnetDiscriminator", facets=["attrs"], only=["_unet", "input_sequence"], opaque=(CH,))
def cond(self, output_channels, output_downsampling_factor, context_in, context_out=16, chans=None, norm_type="identity"):
    """Image channels plus context channels enter the U-Net."""
    super().__init__()
    self._unet = UnetDiscriminator(output_channels=output_channels, output_downsampling_factor=output_downsampling_factor,
                                   chans=[3 + context_out, 128, 128, 256, 256, 512, 512] if chans is None else chans, norm_type=norm_type)
    self.input_sequence = nn.Sequential(nn.Conv2d(context_in, context_out, kernel_size=3, padding=1, padding_mode="reflect"), act())


@contract("neuralcompression.models.ConditionalUnetDiscriminator.forward", facets=["outcome"], rank=4)
def cond_forward(self, image, context):
    """The processed context is brought to the image's height and width and appended after the image's channels."""
    c = F.interpolate(self.input_sequence(context), size=(image.shape[2], image.shape[3]), mode="nearest")
    return self._unet(torch.cat((image, c), dim=1))


@contract("neuralcompression.models.ConditionalUnetDiscriminator.is_conditional")
def cond_conditional(self):
    """Takes context."""
    return True
