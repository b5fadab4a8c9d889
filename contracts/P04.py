"""Frozen parts stay frozen through every later mode switch."""
import torch
import torch.nn as nn
from compressai.entropy_models import EntropyBottleneck, GaussianConditional
from neuralcompression.models._hific_encoder_decoder import HiFiCEncoder, HiFiCGenerator


def conv(i, o, k=5, s=2):
    return nn.Conv2d(i, o, kernel_size=k, stride=s, padding=k // 2)


def deconv(i, o, k=5, s=2):
    return nn.ConvTranspose2d(i, o, kernel_size=k, stride=s, output_padding=s - 1, padding=k // 2)


def hyper_synthesis(latent_features, hyper_features):
    return nn.Sequential(deconv(hyper_features, hyper_features), nn.ReLU(inplace=True), deconv(hyper_features, hyper_features),
                         nn.ReLU(inplace=True), conv(hyper_features, latent_features, 3, 1))


def build(self, in_channels, latent_features, hyper_features, num_residual_blocks):
    self.encoder = HiFiCEncoder(in_channels=in_channels, latent_features=latent_features)
    self.decoder = HiFiCGenerator(image_channels=in_channels, latent_features=latent_features, n_residual_blocks=num_residual_blocks)
    self.hyper_analysis = nn.Sequential(conv(latent_features, hyper_features, 3, 1), nn.ReLU(inplace=True), conv(hyper_features, hyper_features),
                                        nn.ReLU(inplace=True), conv(hyper_features, hyper_features))
    self.hyper_synthesis_mean = hyper_synthesis(latent_features, hyper_features)
    self.hyper_synthesis_scale = hyper_synthesis(latent_features, hyper_features)
    self.hyper_bottleneck = EntropyBottleneck(hyper_features)
    self.latent_bottleneck = GaussianConditional(scale_table=None)


def freeze(m):
    m.eval()
    m.requires_grad_(False)


def bottleneck_modules(self):
    return [self.hyper_bottleneck, self.hyper_synthesis_mean, self.hyper_synthesis_scale, self.hyper_analysis, self.latent_bottleneck]


@contract("neuralcompression.models.HiFiCAutoencoder.freeze_encoder")
def freeze_encoder(self):
    """All encoder parameters stop requiring gradients, the encoder is in eval mode, and this is remembered."""
    self.frozen_encoder = True
    freeze(self.encoder)


@contract("neuralcompression.models.HiFiCAutoencoder.freeze_bottleneck")
def freeze_bottleneck(self):
    """The same for all five bottleneck modules."""
    self.frozen_bottleneck = True
    for m in bottleneck_modules(self):
        freeze(m)


@contract("neuralcompression.models.HiFiCAutoencoder.train")
def train(self, mode=True):
    """Switching training mode re-freezes whatever was frozen, and returns the model."""
    super().train(mode)
    if self.frozen_encoder:
        self.frozen_encoder = True
        freeze(self.encoder)
    if self.frozen_bottleneck:
        self.frozen_bottleneck = True
        for m in bottleneck_modules(self):
            freeze(m)
    return self


@contract("neuralcompression.models.HiFiCAutoencoder", only=["frozen_encoder", "frozen_bottleneck"], facets=["attrs", "effects"])
def ctor(self, in_channels=3, latent_features=220, hyper_features=320, num_residual_blocks=9, freeze_encoder=False, freeze_bottleneck=False):
    super().__init__()
    build(self, in_channels, latent_features, hyper_features, num_residual_blocks)
    self.frozen_encoder = False
    self.frozen_bottleneck = False
    if freeze_encoder:
        self.frozen_encoder = True
        freeze(self.encoder)
    if freeze_bottleneck:
        self.frozen_bottleneck = True
        for m in bottleneck_modules(self):
            freeze(m)


@contract("neuralcompression.models.HiFiCAutoencoder.frozen_encoder")
def fe(self):
    return SELFATTR("_frozen_encoder")


@contract("neuralcompression.models.HiFiCAutoencoder.frozen_bottleneck")
def fb(self):
    return SELFATTR("_frozen_bottleneck")
