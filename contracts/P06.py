"""Training forward pass: which likelihoods are reported, which carry gradients, what the decoder sees."""
import torch
from neuralcompression import HyperpriorOutput
from compressai.ops import quantize_ste


@contract("neuralcompression.models.HiFiCAutoencoder.forward")
def forward(self, image):
    """Likelihoods come from the training-mode pass; the quantised ones from a second, gradient-free pass with training=False over
    the same inputs; the decoder sees straight-through-quantised latents in training and the rounded latents otherwise."""
    if self.device_setting != "forward":
        raise RuntimeError
    y = self.encoder(image)
    z, zp = self.hyper_bottleneck(self.hyper_analysis(y))
    mean, scale = self.hyper_synthesis_mean(z), self.hyper_synthesis_scale(z)
    yq, yp = self.latent_bottleneck(y, scale, means=mean)
    with torch.no_grad():
        zqp = self.hyper_bottleneck(z, training=False)[1]
        yqp = self.latent_bottleneck(y, scale, means=mean, training=False)[1]
    if self.training:
        latent = quantize_ste(y - mean) + mean
    else:
        latent = yq
    return HyperpriorOutput(image=self.decoder(latent), latent=latent, latent_likelihoods=yp, quantized_latent_likelihoods=yqp.detach(),
                            hyper_latent=z, hyper_latent_likelihoods=zp, quantized_hyper_latent_likelihoods=zqp.detach())


@contract("neuralcompression.models._hyperprior_autoencoder._HyperpriorAutoencoderBase._ste_quantize")
def ste(self, latent, means=None):
    """Straight-through rounding around the means, or around zero without means."""
    if means is None:
        return quantize_ste(latent)
    return quantize_ste(latent - means) + means
