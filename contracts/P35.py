"""VCT transforms and video containers."""
import torch
import torch.nn as nn
from compressai.layers import GDN, AttentionBlock
from neural.transforms import ResidualUnit

PROJECT = "torch_vct"
T = "torch_vct:neural.transforms."
V = "torch_vct:datamodules.video_data_api."


def conv(i, o, k, s=1):
    return nn.Conv2d(i, o, kernel_size=k, stride=s, padding=k // 2)


def deconv(i, o):
    return nn.ConvTranspose2d(i, o, kernel_size=5, stride=2, output_padding=1, padding=2)


@contract(T + "ConvGDNAnalysis", facets=["attrs"])
def gdn_analysis(self, network_channels=128, compression_channels=192):
    """Four halvings; compression channels at the end and read back."""
    super().__init__()
    n, c = network_channels, compression_channels
    self._compression_channels = c
    self._num_down = 4
    self.transforms = nn.Sequential(conv(3, n, 5, 2), GDN(n), conv(n, n, 5, 2), GDN(n), conv(n, n, 5, 2), GDN(n), conv(n, c, 5, 2))


@contract(T + "ConvGDNAnalysis.compression_channels")
def gdn_analysis_channels(self):
    return self._compression_channels


@contract(T + "ConvGDNAnalysis.num_downsampling_layers")
def gdn_analysis_down(self):
    return self._num_down


@contract(T + "ConvGDNAnalysis.forward", ranks={"video_frames": 5})
def gdn_analysis_forward(self, video_frames):
    """Every frame by itself, results back at their own clip and time; other ranks are refused."""
    if video_frames.dim() != 5:
        raise AssertionError
    b, t, c, h, w = video_frames.shape
    y = self.transforms(video_frames.reshape(-1, c, h, w))
    return y.reshape(b, t, *y.shape[1:])


@contract(T + "ConvGDNSynthesis", facets=["attrs"])
def gdn_synthesis(self, network_channels=128, compression_channels=192):
    """Four doublings from the compression channels, which are read back."""
    super().__init__()
    n, c = network_channels, compression_channels
    self._compression_channels = c
    self.transforms = nn.Sequential(deconv(c, n), GDN(n, inverse=True), deconv(n, n), GDN(n, inverse=True), deconv(n, n), GDN(n, inverse=True), deconv(n, 3))


@contract(T + "ConvGDNSynthesis.compression_channels")
def gdn_synthesis_channels(self):
    return self._compression_channels


@contract(T + "ConvGDNSynthesis.forward", ranks={"x": 5})
def gdn_synthesis_forward(self, x, frames_shape):
    """Every latent by itself, frames back at their own clip and time, cut to the clip's height and width."""
    if x.dim() != 5:
        raise AssertionError
    if len(frames_shape) != 5:
        raise AssertionError
    b, t, c, h, w = x.shape
    y = self.transforms(x.reshape(-1, c, h, w))
    return y.reshape(b, t, *y.shape[1:])[..., :frames_shape[-2], :frames_shape[-1]]


@contract(T + "ResidualUnit.forward", facets=["outcome"])
def res_forward(self, x):
    """Adds its input before the activation."""
    return self.activation(self.conv(x) + x)


@contract(T + "ResidualUnit", facets=["attrs"])
def res(self, N):
    super().__init__()
    self.conv = nn.Sequential(conv(N, N // 2, 1), nn.ReLU(inplace=True), conv(N // 2, N // 2, 3), nn.ReLU(inplace=True), conv(N // 2, N, 1))
    self.activation = nn.ReLU(inplace=True)


@contract(T + "ELICAnalysis", facets=["raises", "attrs"], opaque=(T + "ResidualUnit",), cases=[{"num_residual_blocks": 3, "channels": [128, 160, 192, 192]}, {"num_residual_blocks": 1, "channels": [8, 16, 24, 32]},
          {"num_residual_blocks": 1, "channels": [8, 16, 24]}])
def elic_analysis(self, num_residual_blocks=3, channels=[128, 160, 192, 192], compression_channels=None, max_frames=None):
    """Four halvings through the given channels; other counts and mismatching compression channels are refused; the last channel count is read back."""
    super().__init__()
    if len(channels) != 4:
        raise ValueError
    if compression_channels is not None and compression_channels != channels[3]:
        raise ValueError
    self._compression_channels = channels[3]
    self._max_frames = max_frames
    a, b, c, d = channels
    n = num_residual_blocks
    self.transforms = nn.Sequential(conv(3, a, 5, 2), *[ResidualUnit(a) for _ in range(n)], conv(a, b, 5, 2), *[ResidualUnit(b) for _ in range(n)], AttentionBlock(b),
                                    conv(b, c, 5, 2), *[ResidualUnit(c) for _ in range(n)], conv(c, d, 5, 2), AttentionBlock(d))


@contract(T + "ELICSynthesis", facets=["raises", "attrs"], opaque=(T + "ResidualUnit",), cases=[{"num_residual_blocks": 3, "channels": [192, 160, 128, 3]}, {"num_residual_blocks": 1, "channels": [32, 24, 16, 3]},
          {"num_residual_blocks": 1, "channels": [8, 16, 24]}])
def elic_synthesis(self, num_residual_blocks=3, channels=[192, 160, 128, 3], output_channels=None, max_frames=None):
    """Four doublings through the given channels, the first at the compression channels; other counts and mismatching output channels are refused."""
    super().__init__()
    if len(channels) != 4:
        raise ValueError
    if output_channels is not None and output_channels != channels[3]:
        raise ValueError
    self._compression_channels = channels[0]
    self._max_frames = max_frames
    a, b, c, d = channels
    n = num_residual_blocks
    self.transforms = nn.Sequential(AttentionBlock(a), deconv(a, a), *[ResidualUnit(a) for _ in range(n)], deconv(a, b), AttentionBlock(b), *[ResidualUnit(b) for _ in range(n)],
                                    deconv(b, c), *[ResidualUnit(c) for _ in range(n)], deconv(c, d))


@contract(T + "ELICAnalysis.compression_channels")
def elic_analysis_channels(self):
    return self._compression_channels


@contract(T + "ELICSynthesis.compression_channels")
def elic_synthesis_channels(self):
    return self._compression_channels


def chunks(self, x, n):
    if self._max_frames is not None and n > self._max_frames:
        if n % self._max_frames != 0:
            raise AssertionError
        y = x.reshape(n // self._max_frames, self._max_frames, x.shape[1], x.shape[2], x.shape[3])
        y = torch.stack([self.transforms(p) for p in y], dim=0)
        return torch.flatten(y, start_dim=0, end_dim=1)
    return self.transforms(x)


@contract(T + "ELICAnalysis.forward", ranks={"x": 5}, facets=["outcome"])
def elic_analysis_forward(self, x):
    """Every frame by itself, in order, in chunks of at most the given number of frames; results back at their own clip and time."""
    if x.dim() != 5:
        raise AssertionError
    b, t, c, h, w = x.shape
    f = x.reshape(b * t, c, h, w)
    if self._max_frames is not None and b * t > self._max_frames:
        if b * t % self._max_frames != 0:
            raise AssertionError
        y = f.reshape(b * t // self._max_frames, self._max_frames, *f.shape[1:])
        y = torch.stack([self.transforms(p) for p in y], dim=0)
        y = torch.flatten(y, start_dim=0, end_dim=1)
    else:
        y = self.transforms(f)
    return y.reshape(b, t, *y.shape[1:])


@contract(T + "ELICSynthesis.forward", ranks={"x": 5}, facets=["outcome"])
def elic_synthesis_forward(self, x, frames_shape):
    """The same for latents, cut to the clip's height and width."""
    if x.dim() != 5:
        raise AssertionError
    b, t, c, h, w = x.shape
    f = x.reshape(b * t, c, h, w)
    if self._max_frames is not None and b * t > self._max_frames:
        if b * t % self._max_frames != 0:
            raise AssertionError
        y = f.reshape(b * t // self._max_frames, self._max_frames, c, h, w)
        y = torch.stack([self.transforms(p) for p in y], dim=0)
        y = torch.flatten(y, start_dim=0, end_dim=1)
    else:
        y = self.transforms(f)
    return y.reshape(b, t, *y.shape[1:])[..., :frames_shape[-2], :frames_shape[-1]]


@contract(V + "VideoDataset.validate_shape")
def validate_video(self):
    """Only batches of clips of three-channel frames are accepted."""
    if len(self.video_tensor.shape) != 5 or self.video_tensor.shape[2] != 3:
        raise ValueError


@contract(V + "VideoDataset.spatial_shape")
def video_spatial(self):
    """Height, then width."""
    return self.video_tensor.shape[-2], self.video_tensor.shape[-1]


@contract(V + "Scenes.get_scenes_iter")
def scenes(self):
    """The latents of all clips at each time, in time order; only float32 of rank five is accepted."""
    if self.tensor.dtype != torch.float32:
        raise ValueError
    if self.tensor.dim() != 5:
        raise ValueError
    return [self.tensor[:, i] for i in range(self.tensor.shape[1])]
