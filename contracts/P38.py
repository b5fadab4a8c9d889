"""VCT pipeline."""
import math
import torch
import torch.nn as nn
import utils.memoize as memoize
from datamodules.video_data_api import Scenes
from neural.entropy_model import VCTEntropyModel
from model_pipeline import Bottleneck, NetworkOut, PerChannelWeight, Dequantizer, ResidualBlock

PROJECT = "torch_vct"
M = "torch_vct:model_pipeline."
P = "torch_vct:model_pipeline.VCTPipeline"
EM = "torch_vct:neural.entropy_model.VCTEntropyModel"


@contract(P, facets=["raises", "attrs"], opaque=(EM, M + "PerChannelWeight", M + "Dequantizer"), only=["analysis_transform", "synthesis_transform", "entropy_model", "_temporal_pad_token_maker", "_dequantizer", "_context_len",
          "_pad_factor", "_code_to_strings"])
def build(self, analysis_transform, synthesis_transform, compression_channels, context_len=2):
    """All parts agree on the compression channels; the entropy model and the history have the same context length; nothing is coded to strings before compression was prepared."""
    super().__init__()
    if analysis_transform.compression_channels != compression_channels:
        raise AssertionError
    if synthesis_transform.compression_channels != compression_channels:
        raise AssertionError
    self.analysis_transform, self.synthesis_transform = analysis_transform, synthesis_transform
    self._pad_factor = 16
    self.entropy_model = VCTEntropyModel(num_channels=compression_channels, context_len=context_len)
    self._temporal_pad_token_maker = PerChannelWeight(num_channels=compression_channels)
    self._dequantizer = Dequantizer(compression_channels, self.entropy_model.d_model)
    self._context_len = context_len
    self._code_to_strings = None


@contract(M + "PerChannelWeight.forward", facets=["outcome"])
def weight(self, latent_shape):
    """One learned value per channel everywhere."""
    if latent_shape[1] != self.weight.shape[1]:
        raise AssertionError
    return self.weight * self.weight.new_ones(latent_shape)


@contract(M + "ResidualBlock.forward", facets=["outcome"])
def residual(self, inputs):
    return self.activation(self.conv2(self.activation(self.conv1(inputs)))) + inputs


@contract(M + "Dequantizer.forward", facets=["outcome"], ranks={"latent_q": 4})
def dequantize(self, *, latent_q, entropy_features=None):
    """Adds the processed entropy-model features (zeros when there are none) to the latent."""
    b, _, h, w = latent_q.shape
    f = latent_q.new_zeros((b, self._d_model, h, w)) if entropy_features is None else entropy_features
    return latent_q + self.process_conv(f)


@contract(P + ".encode_Pscene", facets=["outcome"], opaque=(P + ".decode_Pscene", "torch_vct:utils.memoize.bind"))
def encode_p(self, scene, scene_index, state, cache):
    """Coded to strings only in evaluation after preparation, really decoded for the first three scenes; the next state comes from decoding the very bottleneck that is returned."""
    if not self.training and self._code_to_strings:
        o = self.entropy_model.compress(latent_unquantized=scene, previous_latents=state, run_decode=scene_index < 3, validate_causal=False)
    else:
        o = self.entropy_model(latent_unquantized=scene, previous_latents=state)
    if o.features is None:
        raise AssertionError
    b = Bottleneck(o.perturbed_latent, o.bits, o.features)
    _, s = memoize.bind(self.decode_Pscene, cache)(bottleneck=b, state=state, cache=cache)
    return s, b


@contract(P + ".encode_Iscene", facets=["outcome"], opaque=(P + ".decode_Iscene", "torch_vct:utils.memoize.bind"))
def encode_i(self, scene, cache):
    """The first scene is predicted from the learned token of the scene's shape."""
    f = self._temporal_pad_token_maker(scene.shape)
    if f.shape != scene.shape:
        raise AssertionError
    o = self.entropy_model(latent_unquantized=scene, previous_latents=(self.entropy_model.process_previous_latent_q(f),))
    b = Bottleneck(o.perturbed_latent, o.bits, o.features)
    _, s = memoize.bind(self.decode_Iscene, cache)(b)
    return s, b


@contract(P + "._pad", facets=["outcome"])
def pad(self, x, sizes, factor=None):
    """Pads height and width at the end to the next multiple of the factor, by default two to the number of halvings, by reflection."""
    if factor is None:
        factor = 2 ** (getattr(self.analysis_transform, "num_downsampling_layers", 0) + getattr(self.entropy_model, "num_downsampling_layers", 0))
    h, w = [(factor - (s % factor)) % factor for s in sizes]
    return torch.nn.functional.pad(x, (0, w, 0, h, 0, 0), "reflect")


@contract(P + ".compute_rate", facets=["outcome"])
def rate(self, scenes_likelihoods, per_frame=False):
    """Minus the base-2 logarithm of the likelihoods, in total or per scene."""
    if per_frame:
        return -scenes_likelihoods.log().sum(dim=(1, 2, 3)) / math.log(2.0)
    return -scenes_likelihoods.log().sum() / math.log(2.0)


@contract(P + "._prepare_for_compression", facets=["effects", "attrs", "raises"])
def prepare(self):
    """Evaluation mode, tables built if missing, coding to strings on."""
    self.eval()
    self.entropy_model.update(force=False)
    self._code_to_strings = True
    if self.training is not False:
        raise AssertionError


@contract(P + ".decompress_video", facets=["outcome"])
def decompress(self, frames_shape, bottleneck_args, force_cpu=False):
    """Synthesises the decoded latents at the clip's size; refused off the CPU when the CPU is forced."""
    if force_cpu and not all(p.device == torch.device("cpu") for p in self.parameters()):
        raise ValueError
    y = self.synthesis_transform(bottleneck_args[0], frames_shape)
    if len(frames_shape) != 5:
        raise AssertionError
    return y


@contract(P + ".decode_Iscene", facets=["outcome"])
def decode_i(self, bottleneck):
    """The synthesis input is the dequantised latent; the history starts with the decoded latent, detached."""
    y = self._dequantizer(latent_q=bottleneck.latent_q, entropy_features=bottleneck.entropy_model_features)
    return y, (self.entropy_model.process_previous_latent_q(bottleneck.latent_q.detach()),)


@contract(P + ".decode_Pscene", facets=["outcome"])
def decode_p(self, bottleneck, state, cache):
    """The decoded latent is appended to the history, of which the last context-length entries are kept."""
    y = self._dequantizer(latent_q=bottleneck.latent_q, entropy_features=bottleneck.entropy_model_features)
    s = (*state, self.entropy_model.process_previous_latent_q(bottleneck.latent_q))
    return y, s[0 - self._context_len:]


OPS = (P + ".encode_Iscene", P + ".encode_Pscene", P + ".decode_Iscene", P + ".decode_Pscene", "torch_vct:utils.memoize.bind", "torch_vct:datamodules.video_data_api.Scenes.get_scenes_iter")


@contract(P + ".encode_scenes", facets=["outcome"], opaque=OPS)
def encode_scenes(self, scenes, cache):
    """The first scene by itself, every later one with its own index and the state left by the one before; one bottleneck per scene in order."""
    s = None
    for i, x in enumerate(scenes.get_scenes_iter()):
        if i == 0:
            s, b = self.encode_Iscene(x, cache=cache)
        else:
            if s is None:
                raise AssertionError
            s, b = self.encode_Pscene(x, i, s, cache=cache)
        yield b


@contract(P + ".decode_scenes", facets=["outcome"], opaque=OPS)
def decode_scenes(self, bottlenecks, cache):
    """The decoder's state is built from decoded bottlenecks alone, in the same way."""
    s = None
    for i, b in enumerate(bottlenecks):
        if i == 0:
            y, s = memoize.bind(self.decode_Iscene, cache)(b)
        else:
            if s is None:
                raise AssertionError
            y, s = memoize.bind(self.decode_Pscene, cache)(b, state=s, cache=cache)
        yield y


@contract(P + ".encode_and_decode_scenes", facets=["outcome"], opaque=OPS + (P + ".encode_scenes", P + ".decode_scenes"))
def encode_and_decode(self, scenes, cache):
    """Every reconstruction is decoded from the bottleneck whose likelihood it is returned with."""
    e = list(self.encode_scenes(scenes, cache=cache))
    for y, b in zip(self.decode_scenes(iter(e), cache=cache), e):
        yield NetworkOut(y, b.likelihood)


@contract(P + ".forward", facets=["outcome"], opaque=OPS + (P + ".encode_and_decode_scenes", "torch_vct:utils.memoize.create_cache", "torch_vct:datamodules.video_data_api.Scenes"))
def forward(self, video):
    """In evaluation the video is padded and the result cut back to its own height and width; reconstructions and likelihoods in scene order; every call has its own cache."""
    ASSUME(video.spatial_shape is not None)
    video.validate_shape()
    x = video.video_tensor
    if not self.training:
        h, w = video.spatial_shape
        x = self._pad(x, (h, w))
    r, l = [], []
    for o in self.encode_and_decode_scenes(Scenes(self.analysis_transform(x)), cache=memoize.create_cache()):
        r.append(o.reconstruction)
        l.append(o.likelihood)
    y = self.synthesis_transform(torch.stack(r, dim=1), video.shape)
    if not self.training:
        y = y[..., :h, :w]
    return y, [torch.stack(l)]


@contract(P + ".compress_video", facets=["outcome", "effects"], opaque=OPS + (P + ".encode_and_decode_scenes", P + "._prepare_for_compression", "torch_vct:datamodules.video_data_api.Scenes"))
def compress_video(self, video, force_cpu=False):
    """One clip only; the first scene's bits are estimated, the others counted; nothing is cached."""
    self._prepare_for_compression()
    if not (video.video_tensor.dim() == 5 and video.video_tensor.shape[0] == 1):
        raise AssertionError
    if force_cpu and not all(p.device == torch.device("cpu") for p in self.parameters()):
        raise ValueError
    x = Scenes(self.analysis_transform(self._pad(video.video_tensor, video.spatial_shape)))
    r, bits = [], []
    for i, o in enumerate(self.encode_and_decode_scenes(x, cache=None)):
        r.append(o.reconstruction)
        if i == 0:
            if o.likelihood.dim() != 3:
                raise AssertionError
            bits.append(self.compute_rate(o.likelihood).item())
        else:
            if o.likelihood.dim() != 1:
                raise AssertionError
            bits.append(o.likelihood.item())
    return torch.stack(r, dim=1), bits
