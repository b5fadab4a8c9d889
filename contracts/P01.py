"""Hyperprior image codec: both ends derive the same entropy-coding side information."""
import torch
import torch.nn.functional as F
from neuralcompression import HyperpriorCompressedOutput


def side_information(self, zq):
    """distribution parameters of the latents, a function of the *decoded* hyper-latents only"""
    return self.latent_bottleneck.build_indexes(self.hyper_synthesis_scale(zq)), self.hyper_synthesis_mean(zq)


@contract("neuralcompression.models.HiFiCAutoencoder.compress", rank=4, facets=["return.latent_strings,hyper_latent_strings", "effects", "attrs"])
def encoder_side(self, image, force_cpu=True):
    """The encoder codes the hyper-latents, decodes them again, and codes the latents with the
    side information computed from the decoded hyper-latents, all entropy-critical tensors on the CPU."""
    h, w = image.shape[-2:]
    ASSUME(all(p.device == torch.device("cpu") for p in self.parameters()))
    y = self.encoder(F.pad(image, (0, -w % 64, 0, -h % 64), mode="reflect")).cpu()
    z = self.hyper_analysis(y)
    zs = self.hyper_bottleneck.compress(z)
    indexes, means = side_information(self, self.hyper_bottleneck.decompress(zs, z.shape[-2:]))
    ys = self.latent_bottleneck.compress(y, indexes, means=means)
    return HyperpriorCompressedOutput(ys, zs, None, None)


@contract("neuralcompression.models.HiFiCAutoencoder.decompress", rank=4, facets=["return", "effects", "attrs"])
def decoder_side(self, compressed_data, force_cpu=True):
    """The decoder recomputes the same side information from the same hyper-latent strings, at the grid
    size the encoder used (padded size / 64), and decodes the latents with it."""
    ASSUME(all(p.device == torch.device("cpu") for p in self.parameters()))
    H, W = compressed_data.padded_size[0], compressed_data.padded_size[1]
    zq = self.hyper_bottleneck.decompress(compressed_data.hyper_latent_strings, (H // 64, W // 64))
    indexes, means = side_information(self, zq)
    y = self.latent_bottleneck.decompress(compressed_data.latent_strings, indexes, means=means)
    x = self.decoder(y.to(torch.device("cpu")))
    return torch.clamp(x[:, :, :compressed_data.image_size[0], :compressed_data.image_size[1]], 0, 1)



@contract("neuralcompression.models.HiFiCAutoencoder.decompress", rank=4, facets=["return"])
def decoder_side_gpu(self, compressed_data, force_cpu=True):
    """With the synthesis network elsewhere, only the decoded latents move to its device."""
    ASSUME(not force_cpu)
    ASSUME(not all(p.device == torch.device("cpu") for p in self.parameters()))
    H, W = compressed_data.padded_size[0], compressed_data.padded_size[1]
    zq = self.hyper_bottleneck.decompress(compressed_data.hyper_latent_strings, (H // 64, W // 64))
    indexes, means = side_information(self, zq)
    y = self.latent_bottleneck.decompress(compressed_data.latent_strings, indexes, means=means)
    x = self.decoder(y.to(self.decoder.blocks[-1].weight.device))
    cpu = torch.device("cpu")
    for m in (self.hyper_bottleneck, self.latent_bottleneck, self.hyper_analysis, self.hyper_synthesis_mean, self.hyper_synthesis_scale):
        if any(p.device != cpu for p in m.parameters()):
            raise ValueError
    return torch.clamp(x[:, :, :compressed_data.image_size[0], :compressed_data.image_size[1]], 0, 1)
