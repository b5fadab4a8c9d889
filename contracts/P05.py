"""Architecture: the spatial factors the codec relies on (encoder 1/16, hyper 1/4 more) and their exact inverses."""
import torch
import torch.nn as nn
from compressai.entropy_models import EntropyBottleneck, GaussianConditional
from neuralcompression.models._hific_encoder_decoder import HiFiCEncoder, HiFiCGenerator, _ResidualBlock
from neuralcompression.layers import ChannelNorm2D


def conv(i, o, k=5, s=2):
    return nn.Conv2d(i, o, kernel_size=k, stride=s, padding=k // 2)


def deconv(i, o, k=5, s=2):
    return nn.ConvTranspose2d(i, o, kernel_size=k, stride=s, output_padding=s - 1, padding=k // 2)


def hyper_synthesis(latent_features, hyper_features):
    return nn.Sequential(deconv(hyper_features, hyper_features), nn.ReLU(inplace=True), deconv(hyper_features, hyper_features),
                         nn.ReLU(inplace=True), conv(hyper_features, latent_features, 3, 1))


def build(self, in_channels, latent_features, hyper_features, num_residual_blocks):
    self.encoder = HiFiCEncoder(in_channels=in_channels, latent_features=latent_features)
    self.decoder = HiFiCGenerator(image_channels=in_channels, latent_features=latent_features, n_residual_blocks=num_residual_blocks)
    self.hyper_analysis = nn.Sequential(conv(latent_features, hyper_features, 3, 1), nn.ReLU(inplace=True), conv(hyper_features, hyper_features),
                                        nn.ReLU(inplace=True), conv(hyper_features, hyper_features))
    self.hyper_synthesis_mean = hyper_synthesis(latent_features, hyper_features)
    self.hyper_synthesis_scale = hyper_synthesis(latent_features, hyper_features)
    self.hyper_bottleneck = EntropyBottleneck(hyper_features)
    self.latent_bottleneck = GaussianConditional(scale_table=None)


@contract("neuralcompression.models.HiFiCAutoencoder", only=["encoder", "decoder", "hyper_analysis", "hyper_synthesis_mean", "hyper_synthesis_scale", "hyper_bottleneck", "latent_bottleneck"], facets=["attrs"])
def autoencoder(self, in_channels=3, latent_features=220, hyper_features=320, num_residual_blocks=9, freeze_encoder=False, freeze_bottleneck=False):
    """Hyper-analysis halves the latent grid twice, each hyper-synthesis doubles it twice; channel counts match across the bottleneck."""
    super().__init__()
    build(self, in_channels, latent_features, hyper_features, num_residual_blocks)


@contract("neuralcompression.models._hific_encoder_decoder.HiFiCEncoder", only=["blocks"], facets=["attrs"])
def encoder(self, in_channels=3, latent_features=220):
    """Four stride-2 stages (total factor 16), channels 60..960, then a projection to the latent features."""
    super().__init__()
    blocks = [nn.Sequential(nn.Conv2d(in_channels, 60, kernel_size=7, padding=3), ChannelNorm2D(60), nn.ReLU())]
    c = 60
    for o in (120, 240, 480, 960):
        blocks.append(nn.Sequential(nn.Conv2d(c, o, kernel_size=3, stride=2, padding=1), ChannelNorm2D(o), nn.ReLU()))
        c = o
    blocks.append(nn.Conv2d(960, latent_features, kernel_size=3, padding=1))
    self.blocks = nn.Sequential(*blocks)


@contract("neuralcompression.models._hific_encoder_decoder.HiFiCEncoder.forward")
def encoder_forward(self, x):
    return self.blocks(x)


@contract("neuralcompression.models._hific_encoder_decoder.HiFiCGenerator", only=["block_0", "resid_blocks", "blocks"], facets=["attrs"])
def generator(self, image_channels=3, latent_features=220, n_residual_blocks=9):
    """Four exactly-doubling stages undo the encoder's factor of 16."""
    super().__init__()
    self.block_0 = nn.Sequential(ChannelNorm2D(latent_features), nn.Conv2d(latent_features, 960, kernel_size=3, padding=1), ChannelNorm2D(960))
    self.resid_blocks = nn.Sequential(*[_ResidualBlock(960) for _ in range(n_residual_blocks)])
    blocks = []
    c = 960
    for o in (480, 240, 120, 60):
        blocks.append(nn.Sequential(nn.ConvTranspose2d(c, o, kernel_size=3, output_padding=1, stride=2, padding=1), ChannelNorm2D(o), nn.ReLU()))
        c = o
    blocks.append(nn.Conv2d(60, image_channels, kernel_size=7, padding=3))
    self.blocks = nn.Sequential(*blocks)


@contract("neuralcompression.models._hific_encoder_decoder.HiFiCGenerator.forward")
def generator_forward(self, x):
    """The residual trunk is itself residual."""
    y = self.block_0(x)
    return self.blocks(y + self.resid_blocks(y))


@contract("neuralcompression.models._hific_encoder_decoder._ResidualBlock", only=["sequence"], facets=["attrs"])
def resid(self, channels, kernel_size=3, stride=1, padding=1):
    """Two normalised convolutions that keep size and channels."""
    super().__init__()
    self.sequence = nn.Sequential(nn.Conv2d(channels, channels, kernel_size=kernel_size, stride=stride, padding=padding), ChannelNorm2D(channels), nn.ReLU(),
                                  nn.Conv2d(channels, channels, kernel_size=kernel_size, stride=stride, padding=padding), ChannelNorm2D(channels))


@contract("neuralcompression.models._hific_encoder_decoder._ResidualBlock.forward")
def resid_forward(self, x):
    """Input plus branch."""
    return x + self.sequence(x)
